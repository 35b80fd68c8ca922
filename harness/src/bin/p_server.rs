//! clients of the real server (which runs as child process): what they send and what they receive
#![allow(non_snake_case)]
use serde_json::{json, Value};
use std::io::{Read, Write};
use std::net::{Shutdown, TcpStream};
use std::os::fd::AsRawFd;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};
use vh::*;

const ADDR: &str = "127.0.0.1:2039";
extern "C" { fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32; fn setsockopt(fd: i32, level: i32, name: i32, val: *const u8, len: u32) -> i32; }
#[repr(C)]
struct Linger { on: i32, secs: i32 }
fn reset_on_close(s: &TcpStream) { let l = Linger { on: 1, secs: 0 }; unsafe { setsockopt(s.as_raw_fd(), 1, 13, &l as *const Linger as *const u8, 8); } }
fn small_buffer(s: &TcpStream) { let v: i32 = 200_000; unsafe { setsockopt(s.as_raw_fd(), 1, 8, &v as *const i32 as *const u8, 4); } }

fn token(msg: &str) -> Value {
    if let Some(r) = msg.strip_prefix("concept count = ") { return json!(["count", r]); }
    if let Some(r) = msg.strip_prefix("task  ") {
        let inner = r.trim_start().trim_start_matches('<').trim_start();
        return json!(["task", name_token(inner.split_whitespace().next().unwrap_or(""))]);
    }
    if let Some(r) = msg.strip_prefix("TRACE answer: ") {
        // question? answer: both name the same term
        let t: Vec<&str> = r.split(|c: char| !(c.is_alphanumeric())).filter(|x| x.starts_with('q') && x.len() > 1 && x[1..].chars().all(|c| c.is_ascii_digit())).collect();
        if t.len() == 2 && t[0] == t[1] { return json!(["answer", t[0]]); }
    }
    json!(["?", msg.chars().take(200).collect::<String>()])
}
/// long names are abbreviated
fn name_token(n: &str) -> String {
    if n.len() <= 40 { return n.to_string(); }
    let k = n.find('x').unwrap_or(n.len());
    if n[k..].chars().all(|c| c == 'x') { format!("{}:{}", &n[..k], n.len() - k) } else { format!("?{}", n.len()) }
}

struct Client { id: usize, s: TcpStream, buf: Vec<u8>, seen: Vec<String>, closed: bool, slow: bool, until: Instant }
struct Run { tr: Trace, child: Child, cl: Vec<Client>, next: usize, names: usize, dirty: bool }
impl Run {
    fn start(tr: &Trace) -> Run {
        let t0 = Instant::now();
        while TcpStream::connect(ADDR).is_ok() && t0.elapsed().as_secs() < 50 { tr.beat(); std::thread::sleep(Duration::from_millis(200)); } // somebody else's
        let me = std::env::current_exe().unwrap();
        let child = Command::new(me).args(["child", "-", "0", "0"]).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
        tr.ev(json!({"op":"start"}));
        Run { tr: tr.clone(), child, cl: vec![], next: 1, names: 0, dirty: false }
    }
    fn stop(mut self) {
        if let Ok(Some(s)) = self.child.try_wait() { self.fail(json!({"op":"died","rc":s.code()})); }
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
    fn fail(&mut self, e: Value) -> ! {
        self.tr.ev(e);
        let _ = self.child.kill();
        let _ = self.child.wait();
        self.tr.finish()
    }
    fn clock(&self) -> Fair { Fair::new(&[std::process::id(), self.child.id()], 60) }
    fn tcp(&mut self) -> TcpStream {
        let mut clock = self.clock();
        loop {
            match TcpStream::connect(ADDR) {
                Ok(s) => return s,
                Err(_) if clock.secs() < 30.0 => { self.tr.beat(); std::thread::sleep(Duration::from_millis(20)); }
                Err(e) => { let died = self.child.try_wait().ok().flatten().map(|s| s.code()); self.fail(json!({"op":"refused","msg":e.to_string(),"died":died})) }
            }
        }
    }
    fn connect(&mut self, slow: bool) -> usize {
        let s0 = if self.next == 1 { Some(self.tcp()) } else { None };
        self.tr.ev(json!({"op":"connect","c":self.next}));
        let s = match s0 { Some(s) => s, None => self.tcp() };
        s.set_nodelay(true).unwrap();
        s.set_nonblocking(true).unwrap();
        self.cl.push(Client { id: self.next, s, buf: vec![], seen: vec![], closed: false, slow, until: Instant::now() });
        self.next += 1;
        self.cl.len() - 1
    }
    fn raw(&mut self, k: usize, b: &[u8]) {
        let mut o = 0;
        let mut clock = self.clock();
        while o < b.len() {
            match self.cl[k].s.write(&b[o..]) {
                Ok(n) => o += n,
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => { self.pump(); std::thread::sleep(Duration::from_millis(1)); }
                Err(e) => { let id = self.cl[k].id; self.fail(json!({"op":"lost","c":id,"msg":format!("send: {}", e)})) }
            }
            if clock.secs() > 30.0 { let id = self.cl[k].id; self.fail(json!({"op":"lost","c":id,"msg":"server does not read"})) }
        }
    }
    fn raw_noread(&mut self, k: usize, b: &[u8]) { let _ = self.cl[k].s.write_all(b); }
    fn send(&mut self, k: usize, line: Value, text: &str, r: &mut Rng) {
        self.tr.ev(json!({"op":"send","c":self.cl[k].id,"line":line}));
        let t = format!("{}{}", text, if r.p(15) { "\r\n" } else { "\n" });
        if r.p(10) && t.len() > 3 { // in pieces
            let h = (1..t.len() - 1).find(|i| t.is_char_boundary(*i) && *i >= t.len() / 2).unwrap_or(1);
            self.raw(k, &t.as_bytes()[..h]);
            std::thread::sleep(Duration::from_millis(r.n(4) as u64));
            self.raw(k, &t.as_bytes()[h..]);
        } else { self.raw(k, t.as_bytes()); }
    }
    fn tell(&mut self, k: usize, r: &mut Rng, pre: &str, long: bool) -> String {
        self.names += 1;
        let n = format!("{}{}", pre, self.names);
        let len = if long { 100 + r.n(80000) } else { 0 };
        let full = format!("{}{}", n, "x".repeat(len));
        let t = name_token(&full);
        self.send(k, json!(["tell", t]), &format!("<{} --> v>.", full), r);
        t
    }
    fn poll(&mut self, k: usize) { self.raw(k, b"// s\n"); }
    /// receives what there is to receive
    fn pump(&mut self) {
        self.tr.beat();
        let mut evs = vec![];
        for c in &mut self.cl {
            if Instant::now() < c.until { continue; } // does not read for a while
            if c.slow { c.until = Instant::now() + Duration::from_millis(25); }
            let mut b = vec![0u8; if c.slow { 700 } else { 65536 }];
            loop {
                match c.s.read(&mut b) {
                    Ok(0) => { c.closed = true; break; }
                    Ok(n) => { c.buf.extend_from_slice(&b[..n]); if c.buf.len() > 4_000_000 { break; } }
                    Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => break,
                    Err(_) => { c.closed = true; break; }
                }
            }
            while let Some(p) = c.buf.iter().position(|x| *x == b'\n') {
                let line: Vec<u8> = c.buf.drain(..=p).collect();
                let m = token(&String::from_utf8_lossy(&line[..line.len() - 1]));
                if m[0] == "task" || m[0] == "answer" { c.seen.push(m[1].as_str().unwrap().to_string()); }
                evs.push(json!({"op":"got","c":c.id,"msg":m}));
            }
        }
        for e in evs { self.tr.ev(e); }
    }
    fn wait(&mut self, who: &[usize], marker: &str, secs: u64, r: &mut Rng, repoll: bool) -> bool {
        let t0 = Instant::now();
        let mut clock = self.clock();
        let mut last = Instant::now();
        let mut first = true;
        loop {
            self.pump();
            let miss: Vec<usize> = who.iter().copied().filter(|k| !self.cl[*k].seen.iter().any(|x| x == marker)).collect();
            if miss.is_empty() { return true; }
            if let Some(k) = miss.iter().find(|k| self.cl[**k].closed) { let id = self.cl[*k].id; self.fail(json!({"op":"lost","c":id,"msg":"connection closed by the server"})) }
            if secs == 0 { if t0.elapsed().as_millis() > 0 { return false; } } else if clock.secs() > secs as f64 { return false; }
            if repoll && (first || last.elapsed().as_millis() > 15) { first = false; last = Instant::now(); for k in miss { self.poll(k); } }
            std::thread::sleep(Duration::from_micros(200 + r.n(600) as u64));
        }
    }
    /// all have received everything, nothing is under way
    fn barrier(&mut self, r: &mut Rng) {
        for k in 0..self.cl.len() {
            let mut ok = false;
            for _ in 0..4 { // tasks of others can be cleared between the two lines
                self.send(k, json!(["clear", ""]), "!dtf", r);
                let m = self.tell(k, r, "m", false);
                self.send(k, json!(["list", ""]), "!dt", r);
                if self.wait(&[k], &m, 10, r, true) { ok = true; break; }
            }
            if !ok { let id = self.cl[k].id; self.fail(json!({"op":"lost","c":id,"msg":"does not get the answer to its own line"})) }
        }
        let all: Vec<usize> = (0..self.cl.len()).collect();
        let k = r.n(self.cl.len());
        if r.p(70) { self.send(k, json!(["clear", ""]), "!dtf", r); }
        let m = self.tell(k, r, "f", false);
        self.send(k, json!(["list", ""]), "!dt", r);
        if !self.wait(&all, &m, 40, r, true) {
            let miss: Vec<usize> = self.cl.iter().filter(|c| !c.seen.iter().any(|x| *x == m)).map(|c| c.id).collect();
            self.fail(json!({"op":"lost","clients":miss,"msg":"does not get a report"}))
        }
        self.quiet();
    }
    fn quiet(&mut self) {
        if let Ok(Some(s)) = self.child.try_wait() { self.fail(json!({"op":"died","rc":s.code()})); }
        for c in &mut self.cl { c.seen.clear(); }
        self.tr.ev(json!({"op":"quiet"}));
    }
    fn leave(&mut self, k: usize, how: usize, r: &mut Rng) {
        let id = self.cl[k].id;
        match how {
            // says all, then closes its side: all lines have to be taken up
            0 => {
                let m = self.tell(k, r, "e", false);
                if r.p(50) { self.tell(k, r, "e", false); }
                self.send(k, json!(["list", ""]), "!dt", r);
                let _ = self.cl[k].s.shutdown(Shutdown::Write);
                self.tr.ev(json!({"op":"eof","c":id}));
                let others: Vec<usize> = (0..self.cl.len()).filter(|x| *x != k).collect();
                // what the leaving client still receives is of no interest
                let keep = std::mem::replace(&mut self.cl[k].s, TcpStream::connect(ADDR).unwrap());
                reset_on_close(&self.cl[k].s);
                let _ = self.cl[k].s.set_nonblocking(true);
                if !self.wait(&others, &m, 30, r, true) { self.fail(json!({"op":"lost","msg":"the last lines of a client which left were not taken up"})) }
                drop(keep);
            }
            // bytes which are not text
            1 => { self.tr.ev(json!({"op":"leave","c":id})); self.raw(k, b"<a\xff\xfe --> b>.\n"); std::thread::sleep(Duration::from_millis(r.n(5) as u64)); }
            // resets the connection, maybe with lines under way
            2 => { if r.p(60) && !self.dirty { self.dirty = true; for _ in 0..1 + r.n(2) { self.tell(k, r, "d", false); } if r.p(50) { self.send(k, json!(["list", ""]), "!dt", r); } }
                   self.tr.ev(json!({"op":"leave","c":id})); reset_on_close(&self.cl[k].s); }
            // just closes
            _ => { if r.p(30) { self.poll(k); } self.tr.ev(json!({"op":"leave","c":id})); }
        }
        self.cl.remove(k);
        self.pump();
    }
    /// connects and disconnects at once
    fn flash(&mut self, r: &mut Rng) {
        for _ in 0..1 + r.n(3) { let s = self.tcp(); if r.p(70) { reset_on_close(&s); } drop(s); }
    }
}
fn burst(run: &mut Run, r: &mut Rng) {
    let mut plan: Vec<usize> = vec![];
    let max = 2 + r.n(5);
    let active: Vec<usize> = (0..run.cl.len()).filter(|_| r.p(70)).collect();
    for _ in 0..max { if !active.is_empty() { plan.push(*r.pick(&active)); } }
    let mut reps = 0;
    for k in plan {
        match r.n(10) {
            0..=3 => { let long = r.p(3); run.tell(k, r, "u", long); }
            4 | 5 if reps < 3 => { reps += 1; run.send(k, json!(["list", ""]), "!dt", r); if r.p(85) { run.send(k, json!(["clear", ""]), "!dtf", r); } }
            6 => { run.send(k, json!(["clear", ""]), "!dtf", r); }
            7 | 8 if reps < 3 => { reps += 1; run.send(k, json!(["count", ""]), "!dmd", r); }
            _ => { run.raw(k, *r.pick(&[&b"// s\n"[..], b"\n", b"<a -> b>.\n", b"nonsense ((\n", b"!QQ\n"])); }
        }
        if r.p(30) { run.pump(); }
        if r.p(20) { std::thread::sleep(Duration::from_micros(r.n(2000) as u64)); }
    }
}
/// a client is silent while many reports are made
fn lag(run: &mut Run, r: &mut Rng) {
    let k = r.n(run.cl.len());
    // lines of a client which reset its connection may still be taken up at any time: many ways to explain what follows
    let n = if run.dirty { 1 + r.n(30) } else { *r.pick(&[10usize, 30, 48, 49, 50, 51, 52, 60]) };
    run.send(k, json!(["clear", ""]), "!dtf", r);
    for _ in 0..n { run.tell(k, r, "u", false); }
    run.send(k, json!(["list", ""]), "!dt", r);
    // the sender knows that all are made when it has seen the marker; the others stay silent
    let silent: Vec<usize> = (0..run.cl.len()).filter(|x| *x != k).collect();
    run.names += 1;
    let m = format!("z{}", run.names);
    run.send(k, json!(["clear", ""]), "!dtf", r);
    run.send(k, json!(["tell", m.clone()]), &format!("<{} --> v>.", m), r);
    run.send(k, json!(["list", ""]), "!dt", r);
    if !run.wait(&[k], &m, 30, r, true) { let id = run.cl[k].id; run.fail(json!({"op":"lost","c":id,"msg":"does not get the answer to its own line"})) }
    if !run.wait(&silent, &m, 30, r, true) { run.fail(json!({"op":"lost","msg":"silent client does not get the reports"})) }
    run.quiet();
}
/// more is reported than fits into the buffers of the connection of a client which does not read
fn flood(run: &mut Run, r: &mut Rng) {
    let k = r.n(run.cl.len());
    small_buffer(&run.cl[k].s);
    for round in 0..4 {
        run.send(k, json!(["clear", ""]), "!dtf", r);
        for j in 0..4 {
            run.names += 1;
            let (n, len) = (format!("l{}", run.names), 290_000 + 10 * round + j);
            run.send(k, json!(["tell", format!("{}:{}", n, len)]), &format!("<{}{} --> v>.", n, "x".repeat(len)), r);
        }
        run.send(k, json!(["list", ""]), "!dt", r);
        for _ in 0..3 { std::thread::sleep(Duration::from_millis(30)); run.tr.beat(); run.raw_noread(k, b"// s\n"); }
    }
    run.barrier(r);
}
fn episode(tr: &Trace, r: &mut Rng, rounds: usize) {
    let mut run = Run::start(tr);
    for _ in 0..1 + r.n(2) { let s = r.p(20); run.connect(s); }
    run.barrier(r);
    let flooded = r.n(3 * rounds);
    for i in 0..rounds {
        if run.cl.len() < 4 && run.next < 38 && r.p(30) { let s = r.p(25); run.connect(s); if r.p(60) { run.barrier(r); } }
        if r.p(12) { run.flash(r); }
        if run.cl.len() > 1 && r.p(20) { let k = r.n(run.cl.len()); let how = r.n(4); run.leave(k, how, r); }
        burst(&mut run, r);
        if run.cl.len() < 4 && run.next < 38 && r.p(10) { run.connect(false); }
        if run.cl.len() > 1 && r.p(8) { let k = r.n(run.cl.len()); let how = 1 + r.n(3); run.leave(k, how, r); }
        run.barrier(r);
        if r.p(20) { lag(&mut run, r); }
        if i == flooded { flood(&mut run, r); }
    }
    run.stop();
}
/// questions: everybody gets every answer
fn answers(tr: &Trace, r: &mut Rng, rounds: usize) {
    let mut run = Run::start(tr);
    for _ in 0..1 + r.n(3) { run.connect(false); }
    for k in 0..run.cl.len() { run.send(k, json!(["tell", format!("u{}", k)]), &format!("<u{} --> v>.", k), r); run.send(k, json!(["count", ""]), "!dmd", r); }
    // established when each has seen something of its own: wait for counts
    let t0 = Instant::now();
    while t0.elapsed().as_millis() < 150 { for k in 0..run.cl.len() { run.poll(k); } run.pump(); std::thread::sleep(Duration::from_millis(10)); }
    for _ in 0..rounds {
        let nq = 1 + r.n(2);
        let mut ms = vec![];
        for _ in 0..nq {
            let k = r.n(run.cl.len());
            run.names += 1;
            let q = format!("q{}", run.names);
            run.send(k, json!(["told", ""]), &format!("<{} --> w{}>.", q, run.names), r);
            run.send(k, json!(["ask", q.clone()]), &format!("<{} --> w{}>?", q, run.names), r);
            ms.push(q);
        }
        let all: Vec<usize> = (0..run.cl.len()).collect();
        for m in ms {
            let mut ok = false;
            for _ in 0..400 {
                let k = r.n(run.cl.len());
                run.raw(k, if r.p(50) { b"!s1\n" } else { b"!s3\n" });
                if run.wait(&[k], &m, 0, r, false) || { std::thread::sleep(Duration::from_millis(3)); run.poll(k); run.wait(&all, &m, 0, r, true) } { ok = true; break; }
            }
            if !ok || !run.wait(&all, &m, 30, r, true) { run.fail(json!({"op":"lost","msg":format!("answer to {} is not received by all", m)})) }
        }
        run.quiet();
    }
    run.stop();
}
fn main() {
    if std::env::args().nth(1).as_deref() == Some("child") { unsafe { prctl(1, 9, 0, 0, 0); } nar20_1::NarServer::run(); return; }
    let a = args();
    let tr = Trace::create(&a.out, 60);
    let mut r = Rng::new(a.seed);
    match a.mode.as_str() {
        "talk" => { let mut left = a.n; while left > 0 { let k = left.min(12); episode(&tr, &mut r, k); left -= k; } }
        "answers" => { let mut left = a.n; while left > 0 { let k = left.min(12); answers(&tr, &mut r, k); left -= k; } }
        x => panic!("mode {}", x),
    }
    tr.finish();
}
