//! shared helpers of the conformance harnesses: JSON encoding of terms/sentences, deterministic
//! random generator, trace writer, panic capture and hang watchdog.
#![allow(non_snake_case)]
pub mod lines;
use nar20_1::NarSentence::{EnumPunctation, Evidence, Sentence};
use nar20_1::Term::{Copula, Term};
use nar20_1::Tv;
use serde_json::{json, Value};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

pub const S: f64 = 10000.0;

// ---------------------------------------------------------------- terms
pub fn cop2s(c: Copula) -> &'static str {
    match c {
        Copula::SIM => "sim",
        Copula::INH => "inh",
        Copula::PREDIMPL => "pimp",
        Copula::IMPL => "impl",
        Copula::EQUIV => "equiv",
    }
}
pub fn s2cop(s: &str) -> Copula {
    match s {
        "sim" => Copula::SIM,
        "inh" => Copula::INH,
        "pimp" => Copula::PREDIMPL,
        "impl" => Copula::IMPL,
        "equiv" => Copula::EQUIV,
        _ => panic!("copula {}", s),
    }
}
fn arr(v: &Vec<Box<Term>>) -> Value {
    Value::Array(v.iter().map(|x| t2j(x)).collect())
}
pub fn t2j(t: &Term) -> Value {
    match t {
        Term::Stmt(c, s, p) => json!(["s", cop2s(*c), t2j(s), t2j(p)]),
        Term::Name(n) => json!(["n", n]),
        Term::QVar(n) => json!(["q", n]),
        Term::DepVar(n) => json!(["d", n]),
        Term::IndepVar(n) => json!(["i", n]),
        Term::Seq(v) => json!(["seq", arr(v)]),
        Term::SetInt(v) => json!(["si", arr(v)]),
        Term::SetExt(v) => json!(["se", arr(v)]),
        Term::Conj(v) => json!(["conj", arr(v)]),
        Term::Prod(v) => json!(["prod", arr(v)]),
        Term::IntInt(v) => json!(["ii", arr(v)]),
        Term::ExtInt(v) => json!(["ei", arr(v)]),
        Term::Par(v) => json!(["par", arr(v)]),
        Term::Neg(x) => json!(["neg", [t2j(x)]]),
        Term::Img(r, i, v) => json!(["img", i, t2j(r), arr(v)]),
    }
}
fn jarr(v: &Value) -> Vec<Box<Term>> {
    v.as_array().unwrap().iter().map(|x| Box::new(j2t(x))).collect()
}
pub fn j2t(v: &Value) -> Term {
    let a = v.as_array().unwrap();
    let st = |i: usize| a[i].as_str().unwrap().to_string();
    match a[0].as_str().unwrap() {
        "s" => Term::Stmt(s2cop(a[1].as_str().unwrap()), Box::new(j2t(&a[2])), Box::new(j2t(&a[3]))),
        "n" => Term::Name(st(1)),
        "q" => Term::QVar(st(1)),
        "d" => Term::DepVar(st(1)),
        "i" => Term::IndepVar(st(1)),
        "seq" => Term::Seq(jarr(&a[1])),
        "si" => Term::SetInt(jarr(&a[1])),
        "se" => Term::SetExt(jarr(&a[1])),
        "conj" => Term::Conj(jarr(&a[1])),
        "prod" => Term::Prod(jarr(&a[1])),
        "ii" => Term::IntInt(jarr(&a[1])),
        "ei" => Term::ExtInt(jarr(&a[1])),
        "par" => Term::Par(jarr(&a[1])),
        "neg" => Term::Neg(Box::new(j2t(&a[1][0]))),
        "img" => Term::Img(Box::new(j2t(&a[2])), a[1].as_u64().unwrap() as usize, jarr(&a[3])),
        x => panic!("tag {}", x),
    }
}
/// Narsese text of a term, written independently of the code under test
pub fn t2n(t: &Term) -> String {
    let l = |v: &Vec<Box<Term>>, sep: &str| v.iter().map(|x| t2n(x)).collect::<Vec<_>>().join(sep);
    match t {
        Term::Stmt(c, s, p) => {
            let c = match c {
                Copula::SIM => "<->",
                Copula::INH => "-->",
                Copula::PREDIMPL => "=/>",
                Copula::IMPL => "==>",
                Copula::EQUIV => "<=>",
            };
            format!("<{} {} {}>", t2n(s), c, t2n(p))
        }
        Term::Name(n) => n.clone(),
        Term::QVar(n) => format!("?{}", n),
        Term::DepVar(n) => format!("#{}", n),
        Term::IndepVar(n) => format!("${}", n),
        Term::Seq(v) => format!("({})", l(v, ",")),
        Term::SetInt(v) => format!("[{}]", l(v, " ")),
        Term::SetExt(v) => format!("{{{}}}", l(v, " ")),
        Term::Conj(v) => format!("({})", l(v, "&&")),
        Term::Prod(v) => format!("({})", l(v, "*")),
        Term::IntInt(v) => format!("({})", l(v, "|")),
        Term::ExtInt(v) => format!("({})", l(v, "&")),
        Term::Par(v) => format!("({})", l(v, "&|")),
        Term::Neg(x) => format!("(!{})", t2n(x)),
        Term::Img(r, i, v) => {
            let others = l(v, " ");
            format!("({} /{} {})", t2n(r), i + 1, others)
        }
    }
}

// ---------------------------------------------------------------- numbers, sentences
pub fn fx(x: f64) -> i64 {
    if x.is_nan() {
        -999999
    } else {
        (x * S).round().max(-2.0e9).min(2.0e9) as i64
    }
}
pub fn tv2j(t: &Tv::Tv) -> Value {
    json!({"f": fx(t.f), "c": fx(t.c)})
}
pub fn p2s(p: EnumPunctation) -> &'static str {
    match p {
        EnumPunctation::JUGEMENT => "J",
        EnumPunctation::QUESTION => "Q",
        EnumPunctation::GOAL => "G",
    }
}
pub fn s2p(s: &str) -> EnumPunctation {
    match s {
        "J" => EnumPunctation::JUGEMENT,
        "Q" => EnumPunctation::QUESTION,
        _ => EnumPunctation::GOAL,
    }
}
pub fn evi2j(e: &Option<Evidence>) -> Value {
    match e {
        None => json!({"k":"none"}),
        Some(Evidence::TV(tv)) => json!({"k":"tv","f":fx(tv.f),"c":fx(tv.c)}),
        Some(Evidence::CNT { pos, cnt }) => json!({"k":"cnt","pos":pos,"cnt":cnt}),
    }
}
pub fn sen2j(s: &Sentence) -> Value {
    json!({"term": t2j(&s.term), "p": p2s(s.punct), "stamp": s.stamp.ids, "evi": evi2j(&s.evi),
           "dt": s.expDt.map(|x| x).unwrap_or(-1), "t": s.t.map(|x| x).unwrap_or(-1)})
}

// ---------------------------------------------------------------- rng
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn n(&mut self, k: usize) -> usize {
        (self.next() % (k as u64)) as usize
    }
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + (self.next() % ((b - a) as u64)) as i64
    }
    pub fn p(&mut self, pc: usize) -> bool {
        self.n(100) < pc
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.n(v.len())]
    }
}

/// random term generator over a small vocabulary, so that matches are frequent
pub struct Gen {
    pub names: Vec<&'static str>,
    pub vars: bool,
}
impl Gen {
    pub fn small() -> Gen {
        Gen { names: vec!["a", "b", "c"], vars: true }
    }
    pub fn atom(&self, r: &mut Rng) -> Term {
        let n = r.pick(&self.names).to_string();
        if self.vars && r.p(30) {
            let v = r.pick(&["x", "y"]).to_string();
            return match r.n(3) {
                0 => Term::QVar(v),
                1 => Term::DepVar(v),
                _ => Term::IndepVar(v),
            };
        }
        Term::Name(n)
    }
    pub fn term(&self, r: &mut Rng, d: usize) -> Term {
        if d == 0 || r.p(25) {
            return self.atom(r);
        }
        let k = r.n(16);
        let len = 1 + r.n(3);
        let mut es = || (0..len).map(|_| Box::new(self.term(r, d - 1))).collect::<Vec<_>>();
        match k {
            0 => Term::Seq(es()),
            1 => Term::SetInt(es()),
            2 => Term::SetExt(es()),
            3 => Term::Conj(es()),
            4 => Term::Prod(es()),
            5 => Term::IntInt(es()),
            6 => Term::ExtInt(es()),
            7 => Term::Par(es()),
            8 => Term::Neg(Box::new(self.term(r, d - 1))),
            9 => {
                let v = es();
                let i = r.n(2);
                Term::Img(Box::new(self.term(r, d - 1)), i, v)
            }
            _ => self.stmt(r, d),
        }
    }
    pub fn stmt(&self, r: &mut Rng, d: usize) -> Term {
        let c = *r.pick(&[Copula::INH, Copula::INH, Copula::INH, Copula::SIM, Copula::PREDIMPL, Copula::IMPL, Copula::IMPL, Copula::EQUIV]);
        self.stmtc(r, d, c)
    }
    pub fn stmtc(&self, r: &mut Rng, d: usize, c: Copula) -> Term {
        let d = if d == 0 { 0 } else { d - 1 };
        Term::Stmt(c, Box::new(self.term(r, d)), Box::new(self.term(r, d)))
    }
}

/// random local change of a term
pub fn mutate(r: &mut Rng, g: &Gen, t: &Term) -> Term {
    if r.p(25) {
        return g.term(r, 1);
    }
    let mv = |r: &mut Rng, v: &Vec<Box<Term>>| -> Vec<Box<Term>> {
        let mut v = v.clone();
        match r.n(6) {
            0 => { v.push(Box::new(g.atom(r))); }
            1 if v.len() > 1 => { v.pop(); }
            _ => { let k = r.n(v.len()); v[k] = Box::new(mutate(r, g, &v[k].clone())); }
        }
        v
    };
    match t {
        Term::Stmt(c, s, p) => match r.n(5) {
            0 => Term::Stmt(*r.pick(&[Copula::INH, Copula::SIM, Copula::PREDIMPL, Copula::IMPL, Copula::EQUIV]), s.clone(), p.clone()),
            1 | 2 => Term::Stmt(*c, Box::new(mutate(r, g, s)), p.clone()),
            _ => Term::Stmt(*c, s.clone(), Box::new(mutate(r, g, p))),
        },
        Term::Seq(v) => Term::Seq(mv(r, v)),
        Term::SetInt(v) => Term::SetInt(mv(r, v)),
        Term::SetExt(v) => Term::SetExt(mv(r, v)),
        Term::Conj(v) => Term::Conj(mv(r, v)),
        Term::Prod(v) => Term::Prod(mv(r, v)),
        Term::IntInt(v) => Term::IntInt(mv(r, v)),
        Term::ExtInt(v) => Term::ExtInt(mv(r, v)),
        Term::Par(v) => Term::Par(mv(r, v)),
        Term::Neg(x) => Term::Neg(Box::new(mutate(r, g, x))),
        Term::Img(rel, i, v) => match r.n(3) {
            0 => Term::Img(Box::new(mutate(r, g, rel)), *i, v.clone()),
            1 => Term::Img(rel.clone(), 1 - (*i).min(1), v.clone()),
            _ => Term::Img(rel.clone(), *i, mv(r, v)),
        },
        _ => g.atom(r),
    }
}

/// replaces random subterms by variables (for patterns)
pub fn abstract_vars(r: &mut Rng, t: &Term, pc: usize) -> Term {
    if r.p(pc) {
        let v = r.pick(&["x", "y", "z"]).to_string();
        return match r.n(3) {
            0 => Term::QVar(v),
            1 => Term::DepVar(v),
            _ => Term::IndepVar(v),
        };
    }
    let av = |r: &mut Rng, v: &Vec<Box<Term>>| v.iter().map(|x| Box::new(abstract_vars(r, x, pc))).collect::<Vec<_>>();
    match t {
        Term::Stmt(c, s, p) => {
            let s2 = abstract_vars(r, s, pc);
            Term::Stmt(*c, Box::new(s2), Box::new(abstract_vars(r, p, pc)))
        }
        Term::Seq(v) => Term::Seq(av(r, v)),
        Term::SetInt(v) => Term::SetInt(av(r, v)),
        Term::SetExt(v) => Term::SetExt(av(r, v)),
        Term::Conj(v) => Term::Conj(av(r, v)),
        Term::Prod(v) => Term::Prod(av(r, v)),
        Term::IntInt(v) => Term::IntInt(av(r, v)),
        Term::ExtInt(v) => Term::ExtInt(av(r, v)),
        Term::Par(v) => Term::Par(av(r, v)),
        Term::Neg(x) => Term::Neg(Box::new(abstract_vars(r, x, pc))),
        Term::Img(rel, i, v) => {
            let rel2 = abstract_vars(r, rel, pc);
            Term::Img(Box::new(rel2), *i, av(r, v))
        }
        x => x.clone(),
    }
}

// ---------------------------------------------------------------- time, independent of the load of the machine
/// A clock for statements such as "does not come to an end": it counts the time in which nothing of the watched
/// processes could run (all threads blocked or sleeping), and the processor time they used, but not the time in which
/// a thread was ready and did not get a processor.
pub struct Fair { pids: Vec<u32>, last: std::time::Instant, cpu: f64, eff: f64, cap: f64 }
fn cpu_of(pid: u32) -> (f64, bool) {
    let me = unsafe { gettid_() };
    let mut cpu = 0.0;
    let mut ready = false;
    if let Ok(d) = std::fs::read_dir(format!("/proc/{}/task", pid)) {
        for e in d.flatten() {
            if let Ok(s) = std::fs::read_to_string(e.path().join("stat")) {
                if let Some(k) = s.rfind(')') {
                    let f: Vec<&str> = s[k + 1..].split_whitespace().collect();
                    if f.len() > 12 {
                        cpu += (f[11].parse::<f64>().unwrap_or(0.0) + f[12].parse::<f64>().unwrap_or(0.0)) / 100.0;
                        let own = e.file_name().to_string_lossy() == me.to_string();
                        if !own && (f[0] == "R" || f[0] == "D") { ready = true; }
                    }
                }
            }
        }
    }
    (cpu, ready)
}
extern "C" { fn syscall(n: i64, ...) -> i64; }
unsafe fn gettid_() -> i64 { syscall(186) }
impl Fair {
    /// `cap_ms`: the longest time between two looks at the clock which is counted
    pub fn new(pids: &[u32], cap_ms: u64) -> Fair {
        let mut f = Fair { pids: pids.to_vec(), last: std::time::Instant::now(), cpu: 0.0, eff: 0.0, cap: cap_ms as f64 / 1000.0 };
        f.cpu = f.look().0;
        f
    }
    fn look(&self) -> (f64, bool) {
        let mut r = (0.0, false);
        for p in &self.pids { let (c, b) = cpu_of(*p); r.0 += c; r.1 |= b; }
        r
    }
    pub fn secs(&mut self) -> f64 {
        let dt = self.last.elapsed().as_secs_f64();
        if dt < self.cap / 4.0 { return self.eff; }
        let (c, ready) = self.look();
        let used = (c - self.cpu).max(0.0).min(dt);
        self.eff += if ready { used } else { dt.min(self.cap).max(used) };
        self.last = std::time::Instant::now();
        self.cpu = c;
        self.eff
    }
}

// ---------------------------------------------------------------- trace output
struct Out {
    w: std::io::BufWriter<std::fs::File>,
    n: u64,
}
#[derive(Clone)]
pub struct Trace {
    o: Arc<Mutex<Out>>,
    beat: Arc<AtomicU64>,
}
impl Trace {
    /// `limit_s`: seconds without any event or beat after which the run counts as wedged
    pub fn create(path: &str, limit_s: u64) -> Trace {
        let f = std::fs::File::create(path).unwrap();
        let t = Trace {
            o: Arc::new(Mutex::new(Out { w: std::io::BufWriter::new(f), n: 0 })),
            beat: Arc::new(AtomicU64::new(0)),
        };
        let t2 = t.clone();
        std::thread::spawn(move || {
            let mut last = u64::MAX;
            let mut clock = Fair::new(&[std::process::id()], 1500);
            loop {
                std::thread::sleep(std::time::Duration::from_secs(1));
                let b = t2.beat.load(Ordering::SeqCst);
                if b != last {
                    last = b;
                    clock = Fair::new(&[std::process::id()], 1500);
                }
                if clock.secs() >= limit_s as f64 {
                    t2.ev(json!({"op":"hang","after_s":limit_s}));
                    t2.flush();
                    std::process::exit(0);
                }
            }
        });
        t
    }
    pub fn beat(&self) {
        self.beat.fetch_add(1, Ordering::SeqCst);
    }
    pub fn ev(&self, v: Value) {
        self.beat();
        let mut o = self.o.lock().unwrap();
        o.n += 1;
        let s = serde_json::to_string(&v).unwrap();
        o.w.write_all(s.as_bytes()).unwrap();
        o.w.write_all(b"\n").unwrap();
    }
    pub fn flush(&self) {
        self.o.lock().unwrap().w.flush().unwrap();
    }
    pub fn count(&self) -> u64 {
        self.o.lock().unwrap().n
    }
    /// ends the process without running destructors of the system under test
    pub fn finish(&self) -> ! {
        self.flush();
        std::process::exit(0)
    }
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let s = format!("{}", i);
        eprintln!("{}", s);
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = s;
        }
    }));
}
/// runs code under test; Err(message) if it panics
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default()),
    }
}
pub fn panic_ev(ctx: Value, msg: String) -> Value {
    json!({"op":"panic","ctx":ctx,"msg":msg})
}

pub struct Args {
    pub out: String,
    pub seed: u64,
    pub n: usize,
    pub inp: Option<String>,
    pub mode: String,
}
/// harness <mode> <out> <seed> <n> [input file]
pub fn args() -> Args {
    let a: Vec<String> = std::env::args().collect();
    Args { mode: a[1].clone(), out: a[2].clone(), seed: a[3].parse().unwrap(), n: a[4].parse().unwrap(), inp: a.get(5).cloned() }
}
pub fn read_ndjson(p: &str) -> Vec<Value> {
    std::fs::read_to_string(p).unwrap().lines().filter(|l| !l.trim().is_empty()).map(|l| serde_json::from_str(l).unwrap()).collect()
}

// ------------------------------------------------------------ characters in traces
// sample of characters outside ASCII; they appear as uA0, uA1 (alphanumeric), uW0 (white space), uO0 (others) in the traces
pub const UA: [char; 8] = ['ä', 'é', 'ß', 'λ', '中', 'Ж', '½', '٣'];
pub const UW: [char; 2] = ['\u{3000}', '\u{a0}'];
pub const UO: [char; 7] = ['→', '🙂', '“', '\u{301}', '\u{7}', '\0', '×'];

pub fn tok(c: char) -> String {
    if let Some(k) = UA.iter().position(|x| *x == c) { return format!("uA{}", k); }
    if let Some(k) = UW.iter().position(|x| *x == c) { return format!("uW{}", k); }
    if let Some(k) = UO.iter().position(|x| *x == c) { return format!("uO{}", k); }
    c.to_string()
}
pub fn toks(s: &str) -> Vec<String> { s.chars().map(tok).collect() }
pub fn tname(s: &str) -> String { s.chars().map(tok).collect() }
pub fn map_names(v: &Value) -> Value {
    match v {
        Value::Array(a) if a.len() == 2 && a[0].as_str().map_or(false, |x| ["n", "q", "d", "i"].contains(&x)) && a[1].is_string() => json!([a[0], tname(a[1].as_str().unwrap())]),
        Value::Array(a) => Value::Array(a.iter().map(map_names).collect()),
        x => x.clone(),
    }
}
pub fn tj(t: &Term) -> Value { map_names(&t2j(t)) }
pub fn untok(v: &Value) -> String { v.as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect() }

pub fn names(t: &Term, out: &mut Vec<String>) {
    match t {
        Term::Name(n) | Term::QVar(n) | Term::DepVar(n) | Term::IndepVar(n) => if !out.contains(n) { out.push(n.clone()) },
        Term::Stmt(_, a, b) => { names(a, out); names(b, out) }
        Term::Neg(a) => names(a, out),
        Term::Img(a, _, v) => { names(a, out); for x in v { names(x, out) } }
        Term::Seq(v) | Term::SetInt(v) | Term::SetExt(v) | Term::Conj(v) | Term::Prod(v) | Term::IntInt(v) | Term::ExtInt(v) | Term::Par(v) => for x in v { names(x, out) },
    }
}
