//! records sessions with the input facade: lines, files of lines, interactive sessions, library operations
#![allow(non_snake_case)]
use nar20_1::Nar::*;
use nar20_1::NarInputFacade;
use nar20_1::NarInteractive;
use nar20_1::NarProc;
use nar20_1::NarSentence::*;
use nar20_1::NarStamp::*;
use nar20_1::NarUtilReadn::readNarseseFile;
use nar20_1::NarWorkingCycle::*;
use nar20_1::OpLib;
use nar20_1::Term::*;
use nar20_1::TermUtils::encodeOp;
use nar20_1::Tv;
use parking_lot::RwLock;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::io::Write;
use std::rc::Rc;
use std::sync::atomic::Ordering;
use std::sync::mpsc::{sync_channel, Receiver};
use std::sync::{Arc, Mutex};
use vh::lines::*;
use vh::*;

type T = nar20_1::Term::Term;
type Bel = Arc<RwLock<Sentence>>;

struct RecOp { name: String, log: Arc<Mutex<Vec<Value>>> }
impl NarProc::Op for RecOp {
    fn retName(&self) -> String { self.name.clone() }
    fn call(&self, _nar: &mut NarProc::ProcNar, _m: &Option<Arc<RwLock<Mem2>>>, args: &Vec<T>) {
        self.log.lock().unwrap().push(json!({"n":self.name,"a":args.iter().map(tj).collect::<Vec<_>>()}));
    }
    fn isBabbleable(&self) -> bool { true }
    fn ret_evi_cnt(&self) -> i64 { 3 }
}
struct Sys {
    nar: Nar,
    drx: Receiver<DeriverWorkMessage>,
    rx: Vec<Receiver<(Sentence, i64)>>,
    bids: HashMap<usize, i64>,
    keepb: Vec<Bel>,
    tr: Trace,
}
impl Sys {
    /// the worker threads get nothing to do: everything that changes is changed by the line itself
    fn new(tr: &Trace) -> Sys {
        let mut nar = createNar();
        nar.procNar.cfg__resourceExpectedTime = 0.0;
        nar.procNar.cfgEnBabbling = false;
        let (tx, drx) = sync_channel(100000);
        nar.mem.write().deriverWorkersTx[0] = tx;
        let mut rx = vec![];
        for k in 0..nar.procNar.storeWorkersTx.len() {
            let (t, r) = sync_channel(100000);
            nar.procNar.storeWorkersTx[k] = t;
            rx.push(r);
        }
        Sys { nar, drx, rx, bids: HashMap::new(), keepb: vec![], tr: tr.clone() }
    }
    fn bid(&mut self, b: &Bel) -> i64 {
        let p = Arc::as_ptr(b) as usize;
        if let Some(k) = self.bids.get(&p) { return *k; }
        let k = self.keepb.len() as i64 + 1;
        self.keepb.push(Arc::clone(b));
        self.bids.insert(p, k);
        k
    }
    fn obs(&mut self, mut ev: Value) -> Value {
        while self.drx.try_recv().is_ok() {}
        for r in &self.rx { while r.try_recv().is_ok() {} }
        let mut nms: Vec<String> = vec![];
        {
            let mem = self.nar.mem.read();
            let sh = mem.shared.read();
            ev["cc"] = json!(sh.cycleCounter.load(Ordering::SeqCst));
            ev["sid"] = json!(sh.stampIdCounter.load(Ordering::SeqCst));
            let sj = |s: &Sentence| { let tv = retTv(s).unwrap(); json!({"t":tj(&s.term),"s":s.stamp.ids,"f":fx(tv.f),"c":fx(tv.c)}) };
            for t in &sh.judgementTasks { names(&t.read().sentence.term, &mut nms); }
            ev["tasks"] = json!(sh.judgementTasks.iter().map(|t| sj(&t.read().sentence)).collect::<Vec<_>>());
            ev["ntasks"] = json!(sh.judgementTasks.len());
            let mut idx: BTreeMap<String, Value> = BTreeMap::new();
            for (k, v) in sh.judgementTasksByTerm.read().iter() {
                let mut ids: Vec<i64> = v.iter().map(|t| t.read().id).collect();
                ids.sort();
                if !ids.is_empty() { idx.insert(tj(k).to_string(), json!([tj(k), ids])); }
            }
            ev["idx"] = json!(idx.values().collect::<Vec<_>>());
            ev["qs"] = json!(sh.questionTasks.read().iter().map(|q| tj(&q.sentence.term)).collect::<Vec<_>>());
            let m = sh.mem.read();
            ev["nc"] = json!(m.concepts.len());
            let mut bel: BTreeMap<String, Value> = BTreeMap::new();
            let mut ids = std::collections::BTreeSet::new();
            for (_, c) in &m.concepts {
                for b in c.payload.beliefsByExp.iter() {
                    let b = b.read();
                    for k in b.stamp.ids.iter() { ids.insert(*k); }
                    let v = json!({"t":tj(&b.term),"s":b.stamp.ids});
                    bel.insert(v.to_string(), v);
                }
            }
            ev["bel"] = json!(bel.values().collect::<Vec<_>>());
            ev["nids"] = json!(ids.len());
        }
        ev["ns"] = json!(nms.iter().map(|x| toks(x)).collect::<Vec<_>>());
        ev["ct"] = json!(self.nar.currentTime.load(Ordering::SeqCst));
        ev["t"] = json!(self.nar.procNar.t);
        ev["bab"] = json!(self.nar.procNar.cfgEnBabbling);
        ev["ops"] = json!(self.nar.procNar.ops.iter().map(|o| json!({"n":tname(&o.retName()),"bab":o.isBabbleable()})).collect::<Vec<_>>());
        ev["tr"] = json!(self.nar.procNar.trace.ret_view().iter().map(|x| json!({"n":tj(&x.name),"e":x.evi,"o":x.occT})).collect::<Vec<_>>());
        let gs = Arc::clone(&self.nar.procNar.goalSystem);
        let gs = gs.read();
        let mut gl = vec![];
        let gj = |s: &Sentence| { let tv = retTv(s).unwrap(); json!({"t":tj(&s.term),"s":s.stamp.ids,"f":fx(tv.f),"c":fx(tv.c)}) };
        for b in gs.batchesByDepth.iter() { for g in b.read().groups.iter() { for e in &g.entries { gl.push(gj(&e.read().sentence)); } } }
        for e in &gs.activeSet.set { gl.push(gj(&e.read().sentence)); }
        ev["gl"] = json!(gl);
        let mem = Arc::clone(&self.nar.procNar.evidenceMem);
        for (_, c) in &mem.read().concepts { for b in c.payload.beliefsByExp.iter().chain(c.payload.beliefsByUsage.iter()) { self.bid(b); } }
        let ants: Vec<(Bel, i64)> = self.nar.procNar.anticipatedEvents.iter().map(|a| (Arc::clone(&a.evi), a.deadline)).collect();
        let ant: Vec<Value> = ants.iter().map(|(b, d)| { let id = self.bid(b); json!({"p":tj(&retPred(&b.read().term)),"d":d,"b":id}) }).collect();
        ev["ant"] = json!(ant);
        ev["proc"] = json!(self.keepb.iter().enumerate().map(|(k, b)| { let b = b.read(); let (p, c) = match b.evi { Some(Evidence::CNT { pos, cnt }) => (pos, cnt), _ => (-1, -1) }; json!({"id":k + 1,"t":tj(&b.term),"s":b.stamp.ids,"pos":p,"cnt":c}) }).collect::<Vec<_>>());
        ev
    }
    fn emit(&mut self, ev: Value) { let v = self.obs(ev); self.tr.ev(v); }
    fn line(&mut self, s: &str, q0: bool) {
        let mut quit = q0;
        let s2 = s.to_string();
        match guard(|| NarInputFacade::input(&mut self.nar, &s2, &mut quit)) {
            Ok(r) => { let r: Vec<Vec<String>> = r.iter().map(|x| toks(x)).collect(); self.emit(json!({"op":"line","c":toks(s),"ret":r,"quit":quit})) }
            Err(m) => { self.tr.ev(panic_ev(json!(s), m)); self.tr.finish(); }
        }
    }
    fn inputn(&mut self, s: &str) {
        let s2 = s.to_string();
        match guard(|| inputN(&mut self.nar, &s2)) {
            Ok(r) => self.emit(json!({"op":"inputn","c":toks(s),"r":r})),
            Err(m) => { self.tr.ev(panic_ev(json!(s), m)); self.tr.finish(); }
        }
    }
    /// plants an anticipation for a known implication
    fn anticipate(&mut self, r: &mut Rng) {
        let mem = Arc::clone(&self.nar.procNar.evidenceMem);
        for (_, c) in &mem.read().concepts { for b in c.payload.beliefsByExp.iter() { self.bid(b); } }
        if self.keepb.is_empty() { return; }
        let b = Arc::clone(&self.keepb[r.n(self.keepb.len())]);
        let d = self.nar.procNar.t + r.range(-1, 4);
        self.nar.procNar.anticipatedEvents.push(NarProc::AnticipationEvent { evi: b, deadline: d });
        self.emit(json!({"op":"set"}));
    }
}
fn retPred(t: &T) -> T { match t { Term::Stmt(_, _, p) => (**p).clone(), x => x.clone() } }

// ---------------------------------------------------------------- lines
fn lines(tr: &Trace, r: &mut Rng, n: usize) {
    let mut s = Sys::new(tr);
    s.emit(json!({"op":"start"}));
    for _ in 0..n {
        let l = if r.p(45) { command(r) } else { narsese(r, false) };
        let l = if r.p(10) { edit(r, &l) } else { l };
        if !fits(&l) { continue; }
        if r.p(12) { s.anticipate(r); }
        if r.p(6) { s.inputn(&l); continue; }
        let q0 = r.p(30);
        s.line(&l, q0);
    }
}
fn script(tr: &Trace, v: &Value) {
    let mut s = Sys::new(tr);
    s.emit(json!({"op":"start"}));
    for l in v.as_array().unwrap() { let l: String = l.as_array().unwrap().iter().map(|x| untok1(x.as_str().unwrap())).collect(); s.line(&l, false); }
}
fn untok1(s: &str) -> String {
    if s.len() == 3 && s.starts_with('u') {
        let k: usize = s[2..].parse().unwrap();
        return match &s[..2] { "uA" => UA[k], "uW" => UW[k], _ => UO[k] }.to_string();
    }
    s.to_string()
}

// ---------------------------------------------------------------- sessions
fn child(a: &Args) {
    let tr = Trace::create(&format!("{}.tmp", a.out), 60);
    let mut s = Sys::new(&tr);
    let mut quit = false;
    if a.mode == "childi" { NarInteractive::runInteractive(&mut s.nar); }
    else { readNarseseFile(&mut s.nar, a.inp.as_ref().unwrap(), &mut quit); }
    let v = s.obs(json!({"quit":quit}));
    std::fs::write(&a.out, v.to_string()).unwrap();
    let _ = std::fs::remove_file(format!("{}.tmp", a.out));
    std::process::exit(0);
}
fn session(tr: &Trace, r: &mut Rng, n: usize, out: &str) {
    let inter = r.p(60);
    let crlf = r.p(25);
    let m = r.n(n + 1);
    let quitting = r.p(40);
    let babble = r.p(30);
    let mut ls: Vec<(Vec<u8>, bool)> = vec![];
    for _ in 0..m {
        let l = match r.n(10) {
            0 | 1 => String::new(),
            2 | 3 | 4 => command(r),
            _ => narsese(r, true),
        };
        if !fits(&l) || l.starts_with("!dtf") { continue; }
        if !quitting && l.trim_end() == "!QQ" { continue; }
        if babble && l.starts_with("!sp") || !babble && l.starts_with("!peb 1") { continue; }
        let l = l.trim_end_matches(|c| c == '\n' || c == '\r').to_string();
        if r.p(3) { ls.push((vec![b'a', 0xff, 0xfe, b'.'], false)); continue; }
        ls.push((l.into_bytes(), true));
    }
    let mut text: Vec<u8> = vec![];
    let open = r.p(30) && ls.last().map_or(false, |l| !l.0.is_empty());
    for (k, (b, _)) in ls.iter().enumerate() {
        text.extend(b);
        if k + 1 < ls.len() || !open { text.extend(if crlf { b"\r\n".to_vec() } else { b"\n".to_vec() }); }
    }
    let (fin, fout) = (format!("{}.in", out), format!("{}.child", out));
    let _ = std::fs::remove_file(&fout);
    std::fs::write(&fin, &text).unwrap();
    let me = std::env::current_exe().unwrap();
    let mut ch = std::process::Command::new(me).args([if inter { "childi" } else { "childf" }, &fout, "1", "1", &fin])
        .stdin(std::process::Stdio::from(std::fs::File::open(&fin).unwrap())).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn().unwrap();
    let mut clock = Fair::new(&[ch.id()], 60);
    let mut code = None;
    while clock.secs() < 30.0 { if let Ok(Some(c)) = ch.try_wait() { code = c.code(); break; } std::thread::sleep(std::time::Duration::from_millis(3)); }
    let _ = ch.kill();
    let _ = ch.wait();
    tr.beat();
    let lj: Vec<Value> = ls.iter().map(|(b, ok)| json!({"c":if *ok { toks(std::str::from_utf8(b).unwrap()) } else { vec![] },"ok":ok})).collect();
    let mut ev = json!({"op":"session","inter":inter,"lines":lj,"ended":code == Some(0),"crlf":crlf});
    if code == Some(0) {
        let o: Value = serde_json::from_str(&std::fs::read_to_string(&fout).unwrap()).unwrap();
        for (k, v) in o.as_object().unwrap() { ev[k] = v.clone(); }
    }
    let _ = std::fs::remove_file(&fin);
    let _ = std::fs::remove_file(&fout);
    let _ = std::fs::remove_file(format!("{}.tmp", fout));
    tr.ev(ev);
}

// ---------------------------------------------------------------- operations
fn nm(s: &str) -> T { Term::Name(s.to_string()) }
fn bx(t: T) -> Box<T> { Box::new(t) }
fn rterm(r: &mut Rng, d: usize, ops: &[String]) -> T {
    match r.n(if d == 0 { 2 } else { 9 }) {
        0 | 1 => nm(*r.pick(&["a", "b", "and", "x", "SELF"])),
        2 => { let n = 1 + r.n(4); Term::Seq((0..n).map(|_| bx(rterm(r, d - 1, ops))).collect()) }
        3 => { let n = 1 + r.n(3); Term::Prod((0..n).map(|_| bx(rterm(r, d - 1, ops))).collect()) }
        4 => Term::SetExt(vec![bx(rterm(r, d - 1, ops))]),
        5 | 6 => { let n = 1 + r.n(3); let args: Vec<T> = (0..n).map(|_| rterm(r, d - 1, ops)).collect(); encodeOp(&args, &r.pick(ops).clone()) }
        _ => Term::Stmt(*r.pick(&[Copula::INH, Copula::INH, Copula::SIM]), bx(rterm(r, d - 1, ops)), bx(nm("p"))),
    }
}
fn opsmode(tr: &Trace, r: &mut Rng, n: usize) {
    for (o, n, b) in [(Box::new(OpLib::OpNop { name: "^q1".to_string() }) as Box<dyn NarProc::Op>, "^q1", true), (Box::new(OpLib::Op_nal9__exec_and_inject {}), "^nal9_exeAndInject", false), (Box::new(OpLib::Op__nlp_rel_0 {}), "^nlpRel0", false)] {
        tr.ev(json!({"op":"opinfo","n":o.retName(),"wn":n,"bab":o.isBabbleable(),"wbab":b}));
    }
    let mut s = Sys::new(tr);
    let log = Arc::new(Mutex::new(vec![]));
    let mut info: Vec<Value> = vec![];
    let mut names: Vec<String> = vec!["^none".to_string()];
    for k in 0..(2 + r.n(5)) {
        let name = r.pick(&["^l", "^r", "^s"]).to_string();
        let (o, ty, name): (Box<dyn NarProc::Op>, &str, String) = match r.n(6) {
            0 => (Box::new(OpLib::OpNop { name: name.clone() }), "nop", name),
            1 => (Box::new(OpLib::Op_nal9__exec_and_inject {}), "exe", "^nal9_exeAndInject".to_string()),
            2 => (Box::new(OpLib::Op__nlp_rel_0 {}), "rel", "^nlpRel0".to_string()),
            _ => { let name = if k == 0 { "^l".to_string() } else { name }; (Box::new(RecOp { name: name.clone(), log: Arc::clone(&log) }), "rec", name) }
        };
        info.push(json!({"n":name,"ty":ty}));
        if !names.contains(&name) { names.push(name); }
        s.nar.procNar.ops.push(Rc::new(o));
    }
    s.emit(json!({"op":"start"}));
    for _ in 0..n {
        let k = r.n(info.len());
        let ty = info[k]["ty"].as_str().unwrap().to_string();
        let sf = Term::SetExt(vec![bx(nm("SELF"))]);
        let opt = |r: &mut Rng| { let m = if r.p(15) { 3 + r.n(4) } else { r.n(3) }; let mut a = vec![sf.clone()]; for _ in 0..m { a.push(rterm(r, 1, &names)); } encodeOp(&a, &r.pick(&names).clone()) };
        let nested = |r: &mut Rng| encodeOp(&vec![sf.clone(), Term::Seq(vec![bx(opt(r)), bx(opt(r))]), rterm(r, 1, &names)], &"^nal9_exeAndInject".to_string());
        let relop = |r: &mut Rng| encodeOp(&vec![sf.clone(), Term::Stmt(Copula::INH, bx(Term::Prod(vec![bx(nm("x")), bx(rterm(r, 1, &names))])), bx(nm("p")))], &"^nlpRel0".to_string());
        let args: Vec<T> = if ty == "exe" && r.p(85) {
            let m = 1 + r.n(4);
            let q = Term::Seq((0..m).map(|_| bx(match r.n(6) { 0 => rterm(r, 2, &names), 1 => nested(r), 2 => relop(r), _ => opt(r) })).collect());
            let mut a = vec![sf.clone(), if r.p(90) { q } else { opt(r) }, rterm(r, 2, &names)];
            if r.p(8) { a.push(nm("z")); }
            if r.p(8) { a.truncate(2); }
            a
        } else if ty == "rel" && r.p(85) {
            let right = match r.n(8) { 5 => Term::Seq((0..4 + r.n(3)).map(|i| bx(if i == 1 { nm("and") } else { rterm(r, 1, &names) })).collect()), 6 => Term::Prod((0..20 + r.n(45)).map(|i| bx(nm(&format!("w{}", i)))).collect()), 0 => rterm(r, 2, &names), 1 => Term::Seq(vec![bx(rterm(r, 1, &names)), bx(nm("or")), bx(nm("b"))]), 2 => Term::Seq(vec![bx(nm("a")), bx(nm("and"))]), _ => Term::Seq(vec![bx(rterm(r, 1, &names)), bx(nm("and")), bx(rterm(r, 1, &names))]) };
            let sub = match r.n(6) { 0 => Term::Prod(vec![bx(right)]), 1 => Term::Prod(vec![bx(nm("x")), bx(right), bx(nm("y"))]), 2 => Term::SetExt(vec![bx(right)]), 3 => Term::Prod(vec![bx(right), bx(nm("x"))]), _ => Term::Prod(vec![bx(nm("x")), bx(right)]) };
            let mut a = vec![sf.clone(), Term::Stmt(if r.p(85) { Copula::INH } else { Copula::SIM }, bx(sub), bx(rterm(r, 1, &names)))];
            if r.p(10) { a.push(nm("z")); }
            a
        } else { let m = r.n(5); (0..m).map(|_| rterm(r, 2, &names)).collect() };
        let mem = if r.p(80) { Some(Arc::clone(&s.nar.mem)) } else { None };
        let o = Rc::clone(&s.nar.procNar.ops[k]);
        let hm = mem.is_some();
        let aj: Vec<Value> = args.iter().map(tj).collect();
        tr.beat();
        if let Err(m) = guard(|| o.call(&mut s.nar.procNar, &mem, &args)) { tr.ev(panic_ev(json!(aj), m)); tr.finish(); }
        let calls: Vec<Value> = log.lock().unwrap().drain(..).collect();
        s.emit(json!({"op":"call","k":k + 1,"opsx":info,"args":aj,"mem":hm,"calls":calls}));
        if s.nar.procNar.trace.ret_view().len() > 40 { s.line("!spB", false); }
    }
}
/// cases enumerated by TLC: registrations, the operation called, its arguments
fn opcases(tr: &Trace, v: &[Value]) {
    for x in v {
        let mut s = Sys::new(tr);
        let log = Arc::new(Mutex::new(vec![]));
        for o in x["ops"].as_array().unwrap() {
            let name = o["n"].as_str().unwrap().to_string();
            let b: Box<dyn NarProc::Op> = match o["ty"].as_str().unwrap() { "nop" => Box::new(OpLib::OpNop { name }), "exe" => Box::new(OpLib::Op_nal9__exec_and_inject {}), "rel" => Box::new(OpLib::Op__nlp_rel_0 {}), _ => Box::new(RecOp { name, log: Arc::clone(&log) }) };
            s.nar.procNar.ops.push(Rc::new(b));
        }
        s.emit(json!({"op":"start"}));
        let k = x["k"].as_u64().unwrap() as usize;
        let args: Vec<T> = x["args"].as_array().unwrap().iter().map(j2t).collect();
        let hm = x["mem"].as_bool().unwrap();
        let mem = if hm { Some(Arc::clone(&s.nar.mem)) } else { None };
        let o = Rc::clone(&s.nar.procNar.ops[k - 1]);
        if let Err(m) = guard(|| o.call(&mut s.nar.procNar, &mem, &args)) { tr.ev(panic_ev(x.clone(), m)); tr.finish(); }
        let calls: Vec<Value> = log.lock().unwrap().drain(..).collect();
        s.emit(json!({"op":"call","k":k,"opsx":x["ops"],"args":x["args"],"mem":hm,"calls":calls}));
    }
}
fn main() {
    let a = args();
    if a.mode.starts_with("child") { child(&a); }
    quiet_panics();
    let tr = Trace::create(&a.out, 60);
    let mut r = Rng::new(a.seed);
    match a.mode.as_str() {
        "lines" => { let runs = (a.n / 40).max(1); for _ in 0..runs { lines(&tr, &mut r, 40.min(a.n)); } }
        "script" => {
            let mut v = read_ndjson(a.inp.as_ref().unwrap());
            for i in (1..v.len()).rev() { let j = r.n(i + 1); v.swap(i, j); }
            for x in v.iter().take(a.n) { script(&tr, x); }
        }
        "opcases" => {
            let mut v = read_ndjson(a.inp.as_ref().unwrap());
            for i in (1..v.len()).rev() { let j = r.n(i + 1); v.swap(i, j); }
            v.truncate(a.n);
            opcases(&tr, &v);
        }
        "session" => for _ in 0..a.n { session(&tr, &mut r, 14, &a.out); },
        "ops" => { let runs = (a.n / 25).max(1); for _ in 0..runs { opsmode(&tr, &mut r, 25); } }
        x => panic!("mode {}", x),
    }
    tr.finish();
}
