//! long random sessions with the real worker threads: nothing may panic or get stuck; records the situations in
//! which locks are requested
#![allow(non_snake_case)]
use nar20_1::Nar::*;
use nar20_1::NarInputFacade;
use nar20_1::NarProc;
use nar20_1::Term::*;
use parking_lot as pl;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use vh::lines::*;
use vh::*;

static PANICS: Mutex<Vec<String>> = Mutex::new(vec![]);
static NPANICS: AtomicU64 = AtomicU64::new(0);
fn hook() {
    std::panic::set_hook(Box::new(|i| {
        eprintln!("{}", i);
        NPANICS.fetch_add(1, Ordering::SeqCst);
        if let Ok(mut g) = PANICS.lock() { if g.len() < 5 { g.push(format!("{}", i)); } }
    }));
}
fn panics() -> Vec<String> { PANICS.lock().unwrap().clone() }

struct Sess { nar: Nar, tr: Trace, last: String }
impl Sess {
    fn new(tr: &Trace) -> Sess {
        let mut nar = createNar();
        nar.procNar.cfg__resourceExpectedTime = 0.0002;
        Sess { nar, tr: tr.clone(), last: String::new() }
    }
    /// gives a line to the facade; returns false if it panicked
    fn line(&mut self, s: &str) -> bool {
        let mut quit = false;
        let s2 = s.to_string();
        self.tr.beat();
        self.last = s2.clone();
        let nar = &mut self.nar;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { NarInputFacade::input(nar, &s2, &mut quit); }));
        self.tr.beat();
        if r.is_err() { let p = panics(); self.tr.ev(json!({"op":"crash","line":s,"panics":p})); self.tr.finish(); }
        true
    }
    fn until(&mut self, secs: u64, mut f: impl FnMut(&mut Sess) -> bool) -> bool {
        let mut clock = Fair::new(&[std::process::id()], 100);
        let mut n = 0;
        loop {
            if f(self) { return true; }
            n += 1;
            if clock.secs() >= secs as f64 && n >= 1000 { return false; }
            self.tr.beat();
            std::thread::sleep(Duration::from_millis(2));
        }
    }
    fn believes(&self, t: &Term) -> bool {
        let mem = self.nar.mem.read();
        let sh = mem.shared.read();
        let m = sh.mem.read();
        let r = m.concepts.get(t).map_or(false, |c| c.payload.beliefsByExp.iter().any(|b| checkEqTerm(&b.read().term, t)));
        r
    }
    /// do the workers still work, does the reasoner still answer and learn?
    fn probe(&mut self, k: usize) {
        let nm = |s: &str| Box::new(Term::Name(format!("{}{}", s, k)));
        self.line("!dtf");
        self.line(&format!("<pa{} --> pb{}>. {{1.0 0.95}}", k, k));
        self.line(&format!("<pb{} --> pc{}>. {{1.0 0.95}}", k, k));
        self.line(&format!("<pa{} --> pc{}>?", k, k));
        let goal = Term::Stmt(Copula::INH, nm("pa"), nm("pc"));
        let mut n = 0;
        let derived = self.until(40, |s| { n += 1; if n % 5 == 1 { s.line("!dtf"); s.line(&format!("<pa{} --> pb{}>. {{1.0 0.95}}", k, k)); s.line(&format!("<pb{} --> pc{}>. {{1.0 0.95}}", k, k)); } s.line("!s3"); s.believes(&goal) });
        let answered = derived && self.until(40, |s| { s.line("!s1"); let mem = s.nar.mem.read(); let sh = mem.shared.read(); let q = sh.questionTasks.read(); let r = q.iter().any(|q| checkEqTerm(&q.sentence.term, &goal) && q.bestAnswerExp > 0.5); r });
        // learning: the events around an operation are seen again and again
        self.line(&format!("!por NOP ^pop{}", k));
        self.line("!peb 0");
        let effect = Term::Name(format!("pz{}", k));
        let learned = self.until(40, |s| {
            s.line(&format!("px{}. :|:", k));
            s.line("!sp");
            s.line(&format!("<{{({{SELF}}*q)}} --> ^pop{}>. :|:", k));
            s.line("!sp");
            s.line(&format!("pz{}. :|:", k));
            s.line("!sp");
            let m = s.nar.procNar.evidenceMem.read();
            let r = m.concepts.get(&effect).map_or(false, |c| !c.payload.beliefsByExp.is_empty());
            r
        });
        let alive = self.nar.procNar.storeWorkers.iter().all(|w| !w.is_finished()) && self.nar.mem.read().deriverWorkers.iter().all(|w| !w.is_finished());
        let p = panics();
        self.tr.ev(json!({"op":"probe","panics":p,"alive":alive,"derived":derived,"answered":answered,"learned":learned,"held":pl::held()}));
        if !p.is_empty() || !alive { self.tr.finish(); }
    }
}
fn delays(r: &mut Rng) {
    let (p, us) = *r.pick(&[(0u64, 0u64), (30, 40), (100, 100), (15, 400), (300, 30)]);
    pl::DELAY_P.store(p, Ordering::SeqCst);
    pl::DELAY_US.store(us, Ordering::SeqCst);
    pl::DELAY_WHO.store(r.n(3) as u64, Ordering::SeqCst);
}
/// contexts of lock requests, as collected
fn locks(tr: &Trace) {
    let (ctx, cls) = pl::take();
    // locks used by one thread only cannot take part in a deadlock with others (except for requesting a lock while holding it)
    let mut users: HashMap<usize, BTreeSet<u64>> = HashMap::new();
    for (t, h, l, _) in &ctx { users.entry(*l).or_default().insert(*t); for (k, _) in h { users.entry(*k).or_default().insert(*t); } }
    let short = |l: usize| -> String { let s = cls.get(&l).copied().unwrap_or("?"); let s = s.replace("alloc::", "").replace("nar20_1::", ""); if s.len() > 60 { s[s.len() - 60..].to_string() } else { s.to_string() } };
    let mut ex: BTreeSet<String> = BTreeSet::new();
    for (t, h, l, w) in &ctx {
        let selfish = h.iter().any(|x| x.0 == *l && (x.1 || *w));
        if users[l].len() < 2 && !selfish { continue; }
        let h2: Vec<&(usize, bool)> = h.iter().filter(|x| users[&x.0].len() > 1 || x.0 == *l).collect();
        if h2.is_empty() && !*w { continue; }
        ex.insert(json!({"th":t,"held":h2.iter().map(|x| json!([x.0, x.1, short(x.0)])).collect::<Vec<_>>(),"req":[l, w, short(*l)]}).to_string());
    }
    let v: Vec<Value> = ex.iter().map(|x| serde_json::from_str(x).unwrap()).collect();
    let mut by: BTreeMap<String, BTreeSet<usize>> = BTreeMap::new();
    for (k, c) in v.iter().enumerate() {
        let e = by.entry(c["req"][0].to_string()).or_default();
        if c["req"][1] == true { e.insert(k + 1); }
        for h in c["held"].as_array().unwrap() { by.entry(h[0].to_string()).or_default().insert(k + 1); }
    }
    eprintln!("contexts {} relevant {}", ctx.len(), v.len());
    tr.ev(json!({"op":"locks","ctx":v,"by":by,"n":ctx.len(),"req":pl::REQUESTS.load(Ordering::SeqCst)}));
}
fn sess(tr: &Trace, r: &mut Rng, n: usize, k: usize) {
    let mut s = Sess::new(tr);
    std::thread::sleep(Duration::from_millis(5));
    pl::record(true);
    tr.ev(json!({"op":"start"}));
    delays(r);
    for o in ["^l", "^r"] { s.line(&format!("!por NOP {}", o)); }
    let wild = r.p(50);
    let t0 = Instant::now();
    for _ in 0..n {
        if t0.elapsed().as_secs() >= 8 { break; }
        if r.p(3) { delays(r); }
        let l = match r.n(10) {
            0 | 1 => if wild { command(r) } else { "!sp".to_string() },
            2 => format!("!s{}", if r.p(10) { 20 + r.n(100) } else { r.n(12) }),
            3 => "!sp".to_string(),
            _ => narsese(r, false),
        };
        let l = if wild && r.p(8) { edit(r, &l) } else { l };
        if !fits(&l) { continue; }
        s.line(&l);
    }
    pl::record(false);
    pl::DELAY_P.store(0, Ordering::SeqCst);
    s.probe(k);
    locks(tr);
    drop(s);
}
/// the environments which come with the reasoner must run to their end
fn env(tr: &Trace, name: &str, n: usize) {
    let me = std::env::current_exe().unwrap();
    let errf = format!("{}.err", std::env::args().nth(2).unwrap());
    let mut c = std::process::Command::new(me).args(["child", name, "0", &n.to_string()])
        .stdout(std::process::Stdio::null()).stderr(std::fs::File::create(&errf).unwrap()).spawn().unwrap();
    let mut clock = Fair::new(&[c.id()], 400);
    let rc = loop {
        tr.beat();
        if let Some(s) = c.try_wait().unwrap() { break s.code().unwrap_or(-1); }
        if clock.secs() > 240.0 { let _ = c.kill(); let _ = c.wait(); break -2; }
        std::thread::sleep(Duration::from_millis(100));
    };
    let err = std::fs::read_to_string(&errf).unwrap_or_default();
    let panics = err.matches("panicked at").count();
    tr.ev(json!({"op":"env","name":name,"rc":rc,"panics":panics,"msg":err.chars().take(300).collect::<String>()}));
}
fn child(name: &str, delay: u64) {
    if delay > 0 { pl::DELAY_P.store(10, Ordering::SeqCst); pl::DELAY_US.store(40, Ordering::SeqCst); pl::DELAY_WHO.store(delay % 3, Ordering::SeqCst); }
    match name {
        "chaos" => nar20_1::ProcChaosEntry::procChaosEntry(),
        "pong" => { nar20_1::Reasoner1Entry::reasoner1Entry(); }
        _ => nar20_1::ProcTicTacToe::run(2),
    }
}
fn main() {
    if std::env::args().nth(1).as_deref() == Some("child") { child(&std::env::args().nth(2).unwrap(), std::env::args().nth(4).unwrap().parse().unwrap()); return; }
    hook();
    let a = args();
    let tr = Trace::create(&a.out, 60);
    let mut r = Rng::new(a.seed);
    match a.mode.as_str() {
        "chaos" => { let runs = (a.n / 120).max(1); for k in 0..runs { sess(&tr, &mut r, 120, k); } }
        "env" => for k in ["chaos", "pong", "ttt"] { env(&tr, k, a.n) },
        "env1" => env(&tr, ["chaos", "ttt"][(a.seed % 2) as usize], a.n),
        "env2" => env(&tr, "pong", a.n),
        x => panic!("mode {}", x),
    }
    let _ = NarProc::narInit;
    tr.finish();
}
