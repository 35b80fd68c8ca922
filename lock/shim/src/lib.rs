//! stand-in for parking_lot with the same semantics (readers wait for waiting writers), which records in which
//! situations locks are requested and can delay threads at random to provoke unusual interleavings
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex as SMutex;

/// a request: thread, locks held (id, is write), lock requested, is write
pub type Ctx = (u64, Vec<(usize, bool)>, usize, bool);
static REC: AtomicBool = AtomicBool::new(false);
static CTX: SMutex<Option<HashSet<Ctx>>> = SMutex::new(None);
static CLASS: SMutex<Option<HashMap<usize, &'static str>>> = SMutex::new(None);
static NEXT: AtomicUsize = AtomicUsize::new(1);
static THREADS: AtomicU64 = AtomicU64::new(0);
/// probability (per 1000) of a delay at a request, mean delay in microseconds, parity of the threads delayed most (2: all alike)
pub static DELAY_P: AtomicU64 = AtomicU64::new(0);
pub static DELAY_US: AtomicU64 = AtomicU64::new(0);
pub static DELAY_WHO: AtomicU64 = AtomicU64::new(2);
pub static REQUESTS: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static HELD: RefCell<Vec<(usize, bool)>> = const { RefCell::new(vec![]) };
    static TID: Cell<u64> = const { Cell::new(0) };
    static RNG: Cell<u64> = const { Cell::new(0) };
}
pub fn tid() -> u64 {
    TID.with(|t| { if t.get() == 0 { t.set(THREADS.fetch_add(1, Ordering::SeqCst) + 1); } t.get() })
}
pub fn record(on: bool) {
    if on { *CTX.lock().unwrap() = Some(HashSet::new()); }
    REC.store(on, Ordering::SeqCst);
}
pub fn take() -> (Vec<Ctx>, HashMap<usize, &'static str>) {
    let v: Vec<Ctx> = CTX.lock().unwrap().take().unwrap_or_default().into_iter().collect();
    (v, CLASS.lock().unwrap().clone().unwrap_or_default())
}
/// number of locks held by this thread
pub fn held() -> usize { HELD.with(|h| h.borrow().len()) }
fn request(id: usize, class: &'static str, w: bool) {
    REQUESTS.fetch_add(1, Ordering::Relaxed);
    if REC.load(Ordering::Relaxed) {
        let c = HELD.with(|h| { let mut v = h.borrow().clone(); v.sort(); v.dedup(); (tid(), v, id, w) });
        if let Some(s) = CTX.lock().unwrap().as_mut() { s.insert(c); }
        CLASS.lock().unwrap().get_or_insert_with(HashMap::new).entry(id).or_insert(class);
    }
    let p = DELAY_P.load(Ordering::Relaxed);
    if p > 0 {
        let x = RNG.with(|r| { let mut x = r.get(); if x == 0 { x = 0x9E3779B97F4A7C15u64.wrapping_mul(tid() * 7919 + 1); } x ^= x << 13; x ^= x >> 7; x ^= x << 17; r.set(x); x });
        let who = DELAY_WHO.load(Ordering::Relaxed);
        let q = if who == 2 || tid() % 2 == who { p } else { p / 20 };
        if x % 1000 < q {
            let us = (x >> 20) % (2 * DELAY_US.load(Ordering::Relaxed) + 1);
            if us < 20 { std::thread::yield_now(); } else { std::thread::sleep(std::time::Duration::from_micros(us)); }
        }
    }
}
fn release(id: usize, w: bool) {
    HELD.with(|h| { let mut h = h.borrow_mut(); if let Some(k) = h.iter().rposition(|x| *x == (id, w)) { h.remove(k); } });
}

#[derive(Debug)]
pub struct RawRwLock;
pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;

pub mod lock_api {
    use super::*;
    use std::cell::UnsafeCell;
    use std::marker::PhantomData;
    use std::ops::{Deref, DerefMut};
    use std::sync::Condvar;

    struct St { readers: usize, writer: bool, waiting: usize }
    pub struct RwLock<R, T: ?Sized> { id: AtomicUsize, st: SMutex<St>, cv: Condvar, m: PhantomData<R>, data: UnsafeCell<T> }
    unsafe impl<R, T: ?Sized + Send> Send for RwLock<R, T> {}
    unsafe impl<R, T: ?Sized + Send + Sync> Sync for RwLock<R, T> {}
    pub struct RwLockReadGuard<'a, R, T: ?Sized>(&'a RwLock<R, T>, PhantomData<*const ()>);
    pub struct RwLockWriteGuard<'a, R, T: ?Sized>(&'a RwLock<R, T>, PhantomData<*const ()>);
    unsafe impl<'a, R, T: ?Sized + Sync> Sync for RwLockReadGuard<'a, R, T> {}
    unsafe impl<'a, R, T: ?Sized + Sync> Sync for RwLockWriteGuard<'a, R, T> {}
    impl<R, T> RwLock<R, T> {
        pub const fn new(t: T) -> Self { RwLock { id: AtomicUsize::new(0), st: SMutex::new(St { readers: 0, writer: false, waiting: 0 }), cv: Condvar::new(), m: PhantomData, data: UnsafeCell::new(t) } }
        pub fn into_inner(self) -> T { self.data.into_inner() }
    }
    impl<R, T: ?Sized> RwLock<R, T> {
        fn id(&self) -> usize {
            let k = self.id.load(Ordering::SeqCst);
            if k != 0 { return k; }
            let n = NEXT.fetch_add(1, Ordering::SeqCst);
            match self.id.compare_exchange(0, n, Ordering::SeqCst, Ordering::SeqCst) { Ok(_) => n, Err(k) => k }
        }
        fn class() -> &'static str { std::any::type_name::<T>() }
        fn grant(&self, w: bool) { let id = self.id(); HELD.with(|h| h.borrow_mut().push((id, w))); }
        pub fn read(&self) -> RwLockReadGuard<'_, R, T> {
            request(self.id(), Self::class(), false);
            let mut s = self.st.lock().unwrap();
            while s.writer || s.waiting > 0 { s = self.cv.wait(s).unwrap(); }
            s.readers += 1;
            drop(s);
            self.grant(false);
            RwLockReadGuard(self, PhantomData)
        }
        pub fn write(&self) -> RwLockWriteGuard<'_, R, T> {
            request(self.id(), Self::class(), true);
            let mut s = self.st.lock().unwrap();
            s.waiting += 1;
            while s.writer || s.readers > 0 { s = self.cv.wait(s).unwrap(); }
            s.waiting -= 1;
            s.writer = true;
            drop(s);
            self.grant(true);
            RwLockWriteGuard(self, PhantomData)
        }
        pub fn read_recursive(&self) -> RwLockReadGuard<'_, R, T> {
            let mut s = self.st.lock().unwrap();
            while s.writer { s = self.cv.wait(s).unwrap(); }
            s.readers += 1;
            drop(s);
            self.grant(false);
            RwLockReadGuard(self, PhantomData)
        }
        pub fn try_read(&self) -> Option<RwLockReadGuard<'_, R, T>> {
            let mut s = self.st.lock().unwrap();
            if s.writer || s.waiting > 0 { return None; }
            s.readers += 1;
            drop(s);
            self.grant(false);
            Some(RwLockReadGuard(self, PhantomData))
        }
        pub fn try_write(&self) -> Option<RwLockWriteGuard<'_, R, T>> {
            let mut s = self.st.lock().unwrap();
            if s.writer || s.readers > 0 { return None; }
            s.writer = true;
            drop(s);
            self.grant(true);
            Some(RwLockWriteGuard(self, PhantomData))
        }
        pub fn get_mut(&mut self) -> &mut T { self.data.get_mut() }
        pub fn is_locked(&self) -> bool { let s = self.st.lock().unwrap(); s.writer || s.readers > 0 }
    }
    impl<R, T: Default> Default for RwLock<R, T> { fn default() -> Self { RwLock::new(T::default()) } }
    impl<R, T: ?Sized + std::fmt::Debug> std::fmt::Debug for RwLock<R, T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("RwLock") } }
    impl<'a, R, T: ?Sized> Deref for RwLockReadGuard<'a, R, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.0.data.get() } } }
    impl<'a, R, T: ?Sized> Deref for RwLockWriteGuard<'a, R, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.0.data.get() } } }
    impl<'a, R, T: ?Sized> DerefMut for RwLockWriteGuard<'a, R, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.0.data.get() } } }
    impl<'a, R, T: ?Sized> Drop for RwLockReadGuard<'a, R, T> {
        fn drop(&mut self) { release(self.0.id(), false); let mut s = self.0.st.lock().unwrap(); s.readers -= 1; self.0.cv.notify_all(); }
    }
    impl<'a, R, T: ?Sized> Drop for RwLockWriteGuard<'a, R, T> {
        fn drop(&mut self) { release(self.0.id(), true); let mut s = self.0.st.lock().unwrap(); s.writer = false; self.0.cv.notify_all(); }
    }
}
/// a mutex is a lock which is only requested for writing
pub struct Mutex<T: ?Sized>(lock_api::RwLock<RawRwLock, T>);
pub type MutexGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self { Mutex(lock_api::RwLock::new(t)) }
    pub fn into_inner(self) -> T { self.0.into_inner() }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> MutexGuard<'_, T> { self.0.write() }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> { self.0.try_write() }
    pub fn get_mut(&mut self) -> &mut T { self.0.get_mut() }
}
impl<T: Default> Default for Mutex<T> { fn default() -> Self { Mutex::new(T::default()) } }
pub const fn const_rwlock<T>(t: T) -> RwLock<T> { lock_api::RwLock::new(t) }
pub const fn const_mutex<T>(t: T) -> Mutex<T> { Mutex::new(t) }
