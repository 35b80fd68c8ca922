//! records the behaviour of the declarative reasoner: belief memory, revision, tasks, attention,
//! derivation by the worker thread, question answering.
#![allow(non_snake_case)]
use nar20_1::Nar::*;
use nar20_1::NarMem;
use nar20_1::NarSentence::*;
use nar20_1::NarStamp::*;
use nar20_1::NarWorkingCycle::*;
use nar20_1::Term::*;
use nar20_1::Tv;
use parking_lot::RwLock;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::Ordering;
use std::sync::mpsc::{sync_channel, Receiver, SyncSender};
use std::sync::{Arc, Mutex};
use vh::*;

type T = nar20_1::Term::Term;

struct Rec {
    log: Arc<Mutex<Vec<Value>>>,
}
impl QHandler for Rec {
    fn answer(&mut self, q: &T, a: &Sentence) {
        let tv = retTv(a).unwrap();
        self.log.lock().unwrap().push(json!({"q":t2j(q),"t":t2j(&a.term),"s":a.stamp.ids,"p":p2s(a.punct),"f":fx(tv.f),"c":fx(tv.c),"e":fx(Tv::calcExp(&tv)),"eh":(Tv::calcExp(&tv) * 1.0e9).round() as i64}));
    }
}

struct Sys {
    nar: Nar,
    shared: Arc<RwLock<DeclarativeShared>>,
    rx: Receiver<DeriverWorkMessage>,
    worker: SyncSender<DeriverWorkMessage>,
    prev: BTreeMap<String, Value>,
    prevp: BTreeMap<String, Value>,
    answers: Arc<Mutex<Vec<Value>>>,
    answers2: Arc<Mutex<Vec<Value>>>,
    answersq: Option<Arc<Mutex<Vec<Value>>>>,
    tr: Trace,
    pending: Vec<DeriverWorkMessage>,
    hold: bool,
}
const CS: f64 = 1.0e6;
fn c6(x: f64) -> i64 {
    if x.is_nan() { -1 } else { (x * CS).round().min(2.0e9).max(-2.0e9) as i64 }
}
fn bel2j(s: &Sentence) -> Value {
    let tv = retTv(s).unwrap();
    let u = s.usage.read();
    json!({"t":t2j(&s.term),"s":s.stamp.ids,"f":fx(tv.f),"c":fx(tv.c),"lu":u.lastUsed,"uc":u.useCount})
}
fn memproj(mem: &NarMem::Mem) -> BTreeMap<String, Value> {
    let mut m = BTreeMap::new();
    for (k, c) in &mem.concepts {
        let e: Vec<Value> = c.payload.beliefsByExp.iter().map(|b| bel2j(&b.read())).collect();
        let u: Vec<Value> = c.payload.beliefsByUsage.iter().map(|b| bel2j(&b.read())).collect();
        let kj = t2j(k);
        m.insert(kj.to_string(), json!([kj, {"exp":e,"use":u,"nm":t2j(&c.name)}]));
    }
    m
}
fn delta(prev: &mut BTreeMap<String, Value>, now: BTreeMap<String, Value>) -> (Vec<Value>, Vec<Value>) {
    let ch: Vec<Value> = now.iter().filter(|(k, v)| prev.get(*k) != Some(*v)).map(|(_, v)| v.clone()).collect();
    let gone: Vec<Value> = prev.iter().filter(|(k, _)| !now.contains_key(*k)).map(|(_, v)| v[0].clone()).collect();
    *prev = now;
    (ch, gone)
}
impl Sys {
    fn new(tr: &Trace, link: bool) -> Sys { Sys::sized(tr, link, 20, 64) }
    fn sized(tr: &Trace, link: bool, cap: usize, maxcx: i64) -> Sys {
        let mut nar = createNar();
        if cap != 20 || maxcx != 64 { // smaller memory
            nar.mem = createMem2(maxcx, cap);
            nar.cfg__nConceptBeliefs = cap;
            nar.cfg__maxComplexity = maxcx;
        }
        let (tx, rx) = sync_channel(64);
        let worker = {
            let mut g = nar.mem.write();
            if link {
                g.shared.write().procMem = Arc::clone(&nar.procNar.evidenceMem);
            }
            std::mem::replace(&mut g.deriverWorkersTx[0], tx)
        };
        let answers = Arc::new(Mutex::new(vec![]));
        nar.mem.read().globalQaHandlers.write().push(Arc::new(RwLock::new(Rec { log: Arc::clone(&answers) })));
        let answers2 = Arc::new(Mutex::new(vec![]));
        nar.mem.read().globalQaHandlers.write().push(Arc::new(RwLock::new(Rec { log: Arc::clone(&answers2) })));
        let shared = Arc::clone(&nar.mem.read().shared);
        Sys { nar, shared, rx, worker, prev: BTreeMap::new(), prevp: BTreeMap::new(), answers, answers2, answersq: None, tr: tr.clone(), pending: vec![], hold: false }
    }
    /// full projection of the state (beliefs as difference to the previous event)
    fn state(&mut self, mut ev: Value) {
        let sh = self.shared.read();
        let cc = sh.cycleCounter.load(Ordering::SeqCst);
        let tasks: Vec<Value> = sh.judgementTasks.iter().map(|t| task2j(&t.read(), cc)).collect();
        let mut idx: BTreeMap<String, Value> = BTreeMap::new();
        for (k, v) in sh.judgementTasksByTerm.read().iter() {
            let kj = t2j(k);
            idx.insert(kj.to_string(), json!([kj, v.iter().map(|t| t.read().id).collect::<Vec<_>>()]));
        }
        let qs: Vec<Value> = sh.questionTasks.read().iter().map(|q| json!({"t":t2j(&q.sentence.term),"e":fx(q.bestAnswerExp),"eh":(q.bestAnswerExp * 1.0e9).round() as i64})).collect();
        let (con, gone) = delta(&mut self.prev, memproj(&sh.mem.read()));
        let (pcon, pgone) = delta(&mut self.prevp, memproj(&sh.procMem.read()));
        let ans: Vec<Value> = self.answers.lock().unwrap().drain(..).collect();
        ev["cc"] = json!(cc);
        ev["ct"] = json!(self.nar.currentTime.load(Ordering::SeqCst));
        ev["sid"] = json!(sh.stampIdCounter.load(Ordering::SeqCst));
        ev["tasks"] = json!(tasks);
        ev["idx"] = json!(idx.values().collect::<Vec<_>>());
        ev["qs"] = json!(qs);
        ev["con"] = json!(con);
        ev["gone"] = json!(gone);
        ev["pcon"] = json!(pcon);
        ev["pgone"] = json!(pgone);
        ev["ans"] = json!(ans);
        let ans2: Vec<Value> = self.answers2.lock().unwrap().drain(..).collect();
        ev["ans2"] = json!(ans2);
        if let Some(a) = &self.answersq { // every question has a handler of its own too
            let v: Vec<Value> = a.lock().unwrap().drain(..).collect();
            ev["ansq"] = json!(v);
            for q in sh.questionTasks.write().iter_mut() {
                if q.handler.is_none() { q.handler = Some(Arc::new(RwLock::new(Rec { log: Arc::clone(a) }))); }
            }
        }
        self.tr.ev(ev);
    }
    fn dead(&self) -> bool {
        self.nar.mem.read().deriverWorkers[0].is_finished()
    }
    /// lets the real worker process a message; false if the worker died
    fn work(&self, m: DeriverWorkMessage) -> bool {
        let cc = m.cycleCounter;
        // a second message without any conclusion is received only after the first one was processed completely
        let sentinel = Task { sentence: mksent(&Term::Name("zzsentinel".to_string()), vec![], Tv::Tv { f: 1.0, c: 0.1 }), credit: 0.0, qaCredit: 0.0, mulCredit: 0.0, id: -1, derivTime: cc };
        self.work1(m) && self.work1(DeriverWorkMessage { primary: Arc::new(RwLock::new(sentinel)), secondary: vec![], cycleCounter: cc })
    }
    fn work1(&self, m: DeriverWorkMessage) -> bool {
        let p = Arc::clone(&m.primary);
        let base = Arc::strong_count(&p);
        if self.worker.send(m).is_err() {
            return false;
        }
        loop {
            if Arc::strong_count(&p) < base {
                return true;
            }
            if self.dead() {
                return false;
            }
            std::thread::sleep(std::time::Duration::from_micros(100));
        }
    }
    fn input(&mut self, line: &str) {
        let parsed = guard(|| nar20_1::NarseseParser::parseNarsese(&line.to_string()));
        let (t, tv, p) = match parsed {
            Ok(Some((t, tv, p, _))) => (t, tv, p),
            _ => { self.tr.ev(panic_ev(json!({"line":line}), "line was not parsed".to_string())); return; }
        };
        match guard(|| inputN(&mut self.nar, &line.to_string())) {
            Ok(_) => self.state(json!({"op":"input","t":t2j(&t),"p":p2s(p),"f":fx(tv.f),"c":fx(tv.c)})),
            Err(m) => self.tr.ev(panic_ev(json!({"line":line}), m)),
        }
    }
    fn inputT(&mut self, t: &T, p: EnumPunctation, tv: &Tv::Tv) {
        match guard(|| inputT(&mut self.nar, t, p, tv)) {
            Ok(_) => self.state(json!({"op":"input","t":t2j(t),"p":p2s(p),"f":fx(tv.f),"c":fx(tv.c)})),
            Err(m) => self.tr.ev(panic_ev(json!({"t":t2j(t),"p":p2s(p)}), m)),
        }
    }
    /// one cycle, the derivation request is kept back
    fn cycle0(&mut self) -> bool {
        let before: Vec<DeriverWorkMessage> = std::mem::take(&mut self.pending);
        self.hold = true;
        let ok = self.cycle(true);
        self.hold = false;
        let new = std::mem::take(&mut self.pending);
        self.pending = before;
        self.pending.extend(new);
        ok
    }
    /// the worker takes the oldest request
    fn work_one(&mut self) -> bool {
        if self.pending.is_empty() { return true; }
        let m = self.pending.remove(0);
        self.derive(m, true)
    }
    fn derive(&mut self, m: DeriverWorkMessage, detail: bool) -> bool {
        let pj = task2j(&m.primary.read(), m.cycleCounter);
        let sj: Vec<Value> = m.secondary.iter().map(|x| { let x = x.read(); let tv = retTv(&x.sentence).unwrap(); json!({"id":x.id,"t":t2j(&x.sentence.term),"s":x.sentence.stamp.ids,"f":fx(tv.f),"c":fx(tv.c)}) }).collect();
        if !self.work(m) {
            self.tr.ev(json!({"op":"workerdied","prim":pj,"sec":sj}));
            return false;
        }
        if detail {
            self.state(json!({"op":"derive","prim":pj,"sec":sj}));
        }
        true
    }
    /// one cycle and the worker's reaction; detail: log both
    fn cycle(&mut self, detail: bool) -> bool {
        if let Err(m) = guard(|| cycle(&mut self.nar)) {
            self.tr.ev(panic_ev(json!("cycle"), m));
            return false;
        }
        self.tr.beat();
        let msgs: Vec<DeriverWorkMessage> = self.rx.try_iter().collect();
        if detail {
            let mj: Vec<Value> = msgs
                .iter()
                .map(|m| json!({"pid":m.primary.read().id,"sec":m.secondary.iter().map(|x| x.read().id).collect::<Vec<_>>(),"cc":m.cycleCounter,
                    "cx":m.secondary.iter().map(|x| calcComplexity(&x.read().sentence.term)).collect::<Vec<_>>()}))
                .collect();
            self.state(json!({"op":"cycle","msgs":mj}));
        }
        if self.hold {
            self.pending = msgs;
            return true;
        }
        for m in msgs {
            if !self.derive(m, detail) { return false; }
        }
        true
    }
}
fn task2j(t: &Task, cc: i64) -> Value {
    let tv = retTv(&t.sentence).unwrap();
    let u = t.sentence.usage.read();
    json!({"id":t.id,"t":t2j(&t.sentence.term),"s":t.sentence.stamp.ids,"f":fx(tv.f),"c":fx(tv.c),
        "cr":c6(t.credit),"qa":c6(t.qaCredit),"mul":fx(t.mulCredit),"dt":t.derivTime,"calc":c6(taskCalcCredit(t,cc)),"lu":u.lastUsed,"uc":u.useCount})
}

fn grid(r: &mut Rng) -> Tv::Tv {
    Tv::Tv { f: r.range(0, 11) as f64 / 10.0, c: r.range(1, 10) as f64 / 10.0 }
}
fn mksent(t: &T, ids: Vec<i64>, tv: Tv::Tv) -> Sentence {
    Sentence { term: Arc::new(t.clone()), t: None, punct: EnumPunctation::JUGEMENT, stamp: newStamp(&ids), expDt: None, evi: Some(Evidence::TV(tv)), usage: Arc::new(RwLock::new(Usage { lastUsed: 0, useCount: 0 })) }
}

/// sequences of single sentences added to the memory
fn store(tr: &Trace, r: &mut Rng, n: usize, script: Option<Vec<Value>>) {
    if script.is_none() { store1(tr, r, 16, None, true); }
    store1(tr, r, n, script, false);
}
fn store1(tr: &Trace, r: &mut Rng, n: usize, script: Option<Vec<Value>>, border: bool) {
    let mut s = Sys::new(tr, false);
    let maxcx = if border || r.p(60) { r.range(3, 10) } else { 64 };
    let cap = *r.pick(&[1usize, 2, 3, 5, 20]);
    let (cap, maxcx) = if script.is_some() { (2usize, 64i64) } else { (cap, maxcx) };
    let names = ["a", "b", "c", "d", "e", "f", "g", "h"];
    let nn = 2 + r.n(6);
    let g = Gen { names: names[..nn].to_vec(), vars: false };
    let pool: Vec<T> = (0..if cap >= 5 { 3 + r.n(40) } else { 2 + r.n(8) }).map(|_| if r.p(80) { Term::Stmt(Copula::INH, Box::new(g.atom(r)), Box::new(g.atom(r))) } else { g.stmt(r, 2) }).collect();
    // terms at the border of the allowed complexity
    let mut pool = pool;
    if maxcx < 64 {
        for d in [-1i64, 0, 1, 2].iter() {
            let k = (maxcx + d - 2).max(1) as usize;
            pool.push(Term::Stmt(Copula::INH, Box::new(Term::Prod((0..k).map(|_| Box::new(g.atom(r))).collect())), Box::new(g.atom(r))));
        }
    }
    let pool = if border { pool[pool.len() - 4..].to_vec() } else if r.p(30) { // same subject, so that one concept receives everything
        pool.iter().enumerate().map(|(i, _)| Term::Stmt(Copula::INH, Box::new(Term::Name("a".to_string())), Box::new(Term::Name(format!("p{}", i))))).collect()
    } else { pool };
    let mut nid: i64 = 1;
    let mut time = 0;
    s.state(json!({"op":"start","cap":cap,"maxcx":maxcx}));
    let total = script.as_ref().map(|x| x.len()).unwrap_or(n);
    for k in 0..total {
        time += r.range(0, 3);
        if script.is_none() && r.p(12) {
            // usage of some task's sentence
            let v: Vec<_> = s.shared.read().judgementTasks.iter().cloned().collect();
            if v.len() > 0 {
                let t = r.pick(&v).clone();
                usageUpdate(&mut t.read().sentence.usage.write(), time);
                let id = t.read().id;
                s.state(json!({"op":"used","id":id,"time":time}));
            }
            continue;
        }
        let sen = match &script {
            Some(v) => {
                let e = &v[k];
                mksent(&j2t(&e["t"]), e["s"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect(),
                    Tv::Tv { f: e["f"].as_i64().unwrap() as f64 / S, c: e["c"].as_i64().unwrap() as f64 / S })
            }
            None => {
                let t = r.pick(&pool).clone();
                let ids = match r.n(10) {
                    0..=5 => { nid += 1; vec![nid] }
                    6 => { nid += 2; vec![nid, nid - 1] }
                    7 => vec![r.range(1, nid + 1)],
                    8 => { nid += 1; vec![r.range(1, nid), nid] }
                    _ => { let v: Vec<_> = s.shared.read().judgementTasks.iter().map(|t| t.read().sentence.stamp.ids.clone()).collect(); if v.len() > 0 { r.pick(&v).clone() } else { nid += 1; vec![nid] } }
                };
                mksent(&t, ids, grid(r))
            }
        };
        let mul = *r.pick(&[1.0, 0.5, 0.9]);
        let b = bel2j(&sen);
        match guard(|| memAddTask(Arc::clone(&s.shared), &sen, true, maxcx, cap, mul, time)) {
            Ok(_) => s.state(json!({"op":"add","b":b,"cap":cap,"maxcx":maxcx,"mul":fx(mul),"time":time})),
            Err(m) => { tr.ev(panic_ev(b, m)); return; }
        }
    }
}

fn vocab(r: &mut Rng) -> Vec<String> {
    let a = ["a", "b", "c", "d"];
    let mut v = vec![];
    let k = 2 + r.n(5);
    let n = |r: &mut Rng| a[r.n(4)];
    for _ in 0..k {
        let s = match r.n(16) {
            0..=6 => format!("<{} --> {}>", n(r), n(r)),
            7 => format!("<{} <-> {}>", n(r), n(r)),
            8 => format!("<<{} --> {}> ==> <{} --> {}>>", n(r), n(r), n(r), n(r)),
            9 => format!("<<$x --> {}> ==> <$x --> {}>>", n(r), n(r)),
            10 => format!("<(<$x --> {}>&&<{} --> {}>) ==> <$x --> {}>>", n(r), n(r), n(r), n(r)),
            11 => format!("<({} * {}) --> r>", n(r), n(r)),
            12 => format!("<{} --> (r /1 {})>", n(r), n(r)),
            13 => format!("<{} --> [{}]>", n(r), n(r)),
            14 => format!("<{} --> ({}|{})>", n(r), n(r), n(r)),
            _ => format!("(!<{} --> {}>)", n(r), n(r)),
        };
        v.push(s);
    }
    v
}
fn question(r: &mut Rng) -> String {
    let a = ["a", "b", "c", "d"];
    let n = |r: &mut Rng| a[r.n(4)];
    match r.n(8) {
        0 => format!("<{} --> {}>?", n(r), n(r)),
        6 => format!("<({},{}) =/> {}>?", n(r), n(r), n(r)),
        7 => format!("<({},?x) =/> {}>?", n(r), n(r)),
        1 => format!("<{} --> ?x>?", n(r)),
        2 => format!("<?x --> {}>?", n(r)),
        3 => format!("<?x <-> {}>?", n(r)),
        4 => "<?x --> ?y>?".to_string(),
        _ => format!("<<{} --> {}> ==> ?x>?", n(r), n(r)),
    }
}
/// whole reasoner, cycle by cycle
fn cycles(tr: &Trace, r: &mut Rng, n: usize, script: Option<Vec<Value>>, qa: bool) {
    let link = r.p(50);
    let (cap, maxcx) = if script.is_none() && r.p(40) { (*r.pick(&[1usize, 2, 3, 5]), *r.pick(&[9i64, 64, 64])) } else { (20, 64) };
    let mut s = Sys::sized(tr, link, cap, maxcx);
    s.state(json!({"op":"start","cap":cap,"maxcx":maxcx}));
    if let Some(v) = script {
        for e in v {
            match e["a"].as_str().unwrap() {
                "tell" | "ask" => s.input(e["l"].as_str().unwrap()),
                "cycle" => { if !s.cycle0() { return; } }
                "work" => { if !s.work_one() { return; } }
                _ => { if !s.cycle(true) { return; } }
            }
        }
        return;
    }
    if r.p(50) { s.answersq = Some(Arc::new(Mutex::new(vec![]))); }
    if link && r.p(60) { // what the procedural part has learned
        for i in 0..(1 + r.n(5)) {
            let l = format!("<({},{}) =/> {}>.", r.pick(&["a", "b", "c", "d"]), r.pick(&["a", "b", "c", "d"]), r.pick(&["a", "b", "c", "d"]));
            if let Some((t, _, _, _)) = nar20_1::NarseseParser::parseNarsese(&l) {
                let sen = mksent(&t, vec![100000 + i as i64], grid(r));
                let pm = Arc::clone(&s.shared.read().procMem);
                NarMem::storeInConcepts(&mut pm.write(), &sen, 20, 0);
            }
        }
        s.state(json!({"op":"sync","note":"procedural knowledge"}));
    }
    let v = vocab(r);
    let mut k = 0;
    let mut asked = 0;
    let maxq = if qa && r.p(60) { 1 } else { 1000 };
    let mut v = v;
    if qa && r.p(30) { v = vec![r.pick(&["<<a --> b> ==> <c --> d>>", "<<$x --> b> ==> <$x --> d>>", "<<a --> b> ==> <a --> d>>"]).to_string(), v[0].clone()]; }
    let (ptell, pask) = if qa { (25, 30) } else { (15, 12) };
    while k < n {
        if k < v.len() || r.p(ptell) {
            let x = r.pick(&v).clone();
            let x = if k < v.len() { v[k].clone() } else { x };
            let l = format!("{}. {{{} {}}}", x, r.range(0, 11) as f64 / 10.0, r.range(1, 10) as f64 / 10.0);
            s.input(&l);
        } else if asked < maxq && r.p(pask) {
            asked += 1;
            let q = if r.p(50) { // about something known: with a part left open, or as it is
                let x = r.pick(&v).clone();
                match r.n(4) {
                    0 => format!("{}?", x),
                    1 => format!("{}?", x.replacen(*r.pick(&["a", "b", "c", "d"]), "?x", 1)),
                    2 if x.contains("==>") => { let i = x.find(" ==> ").unwrap(); if r.p(50) { format!("<?x{}?", &x[i..]) } else { format!("{} ==> ?y>?", &x[..i]) } }
                    _ => format!("{}?", x.replace(*r.pick(&["a", "b", "c", "d"]), "?x")),
                }
            } else { question(r) };
            s.input(&q);
        } else if !s.cycle(true) {
            return;
        }
        k += 1;
        let nt = s.shared.read().judgementTasks.len();
        if nt > 150 { break; }
    }
}
/// derivation requests of any composition: any task with any others as second premises, in any order, also
/// after the open tasks were flushed, when only the beliefs of the concept are left
fn requests(tr: &Trace, r: &mut Rng, n: usize) {
    let cap = *r.pick(&[2usize, 3, 4, 20]);
    let maxcx = *r.pick(&[11i64, 64, 64]);
    let mut s = Sys::sized(tr, false, cap, maxcx);
    s.state(json!({"op":"start","cap":cap,"maxcx":maxcx}));
    let mut v = vocab(r);
    if r.p(60) { // one condition, many consequences
        let a = r.pick(&["<a --> b>", "<b --> c>", "<a <-> c>"]).to_string();
        v.push(a.clone());
        for i in 0..(3 + r.n(7)) { v.push(format!("<{} ==> <a --> k{}>>", a, i)); }
    }
    if r.p(40) { v.push("<({a} * b) --> r>".to_string()); v.push("<[a] <-> [b]>".to_string()); v.push("<{a} <-> {b}>".to_string()); v.push("<(a * b) --> (c * d)>".to_string()); v.push("<(a * b) <-> (c * d)>".to_string()); }
    for d in 61..65usize { if r.p(15) { v.push(format!("<({}) --> p>", (0..d).map(|i| format!("w{}", i)).collect::<Vec<_>>().join(" * "))); } }
    let mut known: Vec<Arc<RwLock<Task>>> = vec![];
    let mut time = 0;
    for k in 0..n {
        time += 1;
        let open: Vec<Arc<RwLock<Task>>> = s.shared.read().judgementTasks.clone();
        for t in &open { let id = t.read().id; if !known.iter().any(|x| x.read().id == id) { known.push(Arc::clone(t)); } }
        let x = r.n(100);
        if k < v.len() || x < 15 || known.len() == 0 {
            let t = if k < v.len() { v[k].clone() } else { r.pick(&v).clone() };
            s.input(&format!("{}. {{{} {}}}", t, r.range(0, 11) as f64 / 10.0, r.range(1, 10) as f64 / 10.0));
        } else if x < 30 && open.len() > 0 {
            let t = r.pick(&open).clone();
            usageUpdate(&mut t.read().sentence.usage.write(), time);
            let id = t.read().id;
            s.state(json!({"op":"used","id":id,"time":time}));
        } else if x < 38 || open.len() > 60 {
            flushTasks(&*s.nar.mem.read());
            s.state(json!({"op":"flush"}));
        } else {
            let low: Vec<Arc<RwLock<Task>>> = known.iter().filter(|t| t.read().mulCredit < 0.95).cloned().collect();
            let prim = if low.len() > 0 && r.p(40) { r.pick(&low).clone() } else { r.pick(&known).clone() };
            let mut sec: Vec<Arc<RwLock<Task>>> = vec![];
            let m = *r.pick(&[0usize, 0, 1, 2, 3, 5, 7]);
            for _ in 0..m { let t = r.pick(&known).clone(); let id = t.read().id; if id != prim.read().id && !sec.iter().any(|y| y.read().id == id) { sec.push(t); } }
            let cc = s.shared.read().cycleCounter.load(Ordering::SeqCst);
            if !s.derive(DeriverWorkMessage { primary: prim, secondary: sec, cycleCounter: cc }, true) { return; }
        }
    }
}
/// any set of open tasks at any time, then a cycle
fn states(tr: &Trace, r: &mut Rng, n: usize, wide: bool) {
    let mut s = Sys::new(tr, false);
    s.state(json!({"op":"start","cap":20,"maxcx":64}));
    let nm = |x: &str, i: usize| Box::new(Term::Name(format!("{}{}", x, i)));
    for round in 0..n {
        flushTasks(&*s.nar.mem.read());
        s.shared.read().questionTasks.write().clear();
        let mut terms: Vec<T> = vec![];
        if wide { // more second premises than are taken
            let per = *r.pick(&[49usize, 50, 51, 52]);
            let k = 5 + r.n(3);
            for i in 0..k { for j in 0..per { terms.push(Term::Stmt(Copula::INH, nm("n", i), if r.p(30) { Box::new(Term::Prod(vec![nm("p", j), nm("q", j)])) } else { nm("p", j) })); } }
            terms.insert(r.n(3), Term::Stmt(Copula::INH, Box::new(Term::Prod((0..k).map(|i| nm("n", i)).collect())), nm("z", 0)));
        } else {
            let m = *r.pick(&[1usize, 2, 5, 12, 29, 30, 31, 32, 33, 45, 60]);
            let w = 2 + r.n(8);
            for i in 0..m {
                terms.push(match r.n(6) { 0 => Term::Stmt(Copula::INH, Box::new(Term::Prod(vec![nm("n", i % w), nm("n", r.n(w))])), nm("p", i)), 1 => Term::Stmt(Copula::SIM, nm("n", i % w), nm("p", i)), _ => Term::Stmt(Copula::INH, nm("n", i % w), nm("p", i)) });
            }
        }
        // time: before, at and after the house keeping of tasks (111) and concepts (173)
        let cc = if wide { 500 } else { let k = r.range(1, 40); match r.n(5) { 0 => 111 * k, 1 => 173 * k - 1, 2 => 111 * 173 - 1, _ => 111 * k - 1 } };
        s.shared.read().cycleCounter.store(cc, Ordering::SeqCst);
        let mut first = true;
        for t in &terms {
            let sid = s.shared.read().stampIdCounter.fetch_add(1, Ordering::SeqCst);
            let sen = mksent(t, vec![sid], grid(r));
            memAddTask(Arc::clone(&s.shared), &sen, true, 64, 20, 1.0, 0);
        }
        for t in s.shared.read().judgementTasks.iter() {
            let mut g = t.write();
            g.derivTime = cc - match r.n(6) { 0 => 0, 1 => r.range(0, 4), 2 => r.range(0, 60), 3 => r.range(0, 200), 4 => r.range(0, 1000), _ => r.range(0, 4000) };
            g.mulCredit = *r.pick(&[1.0, 0.9, 0.5, 0.05]);
            g.credit = match r.n(4) { 0 => 1.0, 1 => r.range(0, 1000) as f64 / 1000.0, 2 => r.range(0, 300) as f64 / 10000.0, _ => r.range(0, 50) as f64 / 10000.0 };
            g.qaCredit = if r.p(20) { r.range(0, 1000) as f64 / 2000.0 } else { 0.0 };
            if wide {
                if let Term::Stmt(_, a, _) = &*g.sentence.term { if let Term::Prod(_) = **a { if first { g.credit = 5.0; g.derivTime = cc; g.mulCredit = 1.0; first = false; } } }
            }
        }
        if r.p(40) && !wide { let q = format!("<n{} --> ?x>?", r.n(4)); inputN(&mut s.nar, &q); }
        s.state(json!({"op":"sync","note":format!("situation {}", round)}));
        if !s.cycle(true) { return; }
    }
}
/// more concepts than may be kept
fn many(tr: &Trace, r: &mut Rng, n: usize) {
    for _ in 0..n {
        let mut s = Sys::new(tr, false);
        let m = *r.pick(&[2998usize, 3000, 3003, 3030]);
        let pm = Arc::clone(&s.shared.read().mem);
        // a statement of two new names makes three concepts
        for i in 0..(m / 3) {
            let t = Term::Stmt(Copula::INH, Box::new(Term::Name(format!("s{}", i))), Box::new(Term::Name(format!("p{}", i))));
            NarMem::storeInConcepts(&mut pm.write(), &mksent(&t, vec![i as i64], grid(r)), 20, 0);
        }
        for i in 0..(m % 3) { // two more concepts each
            let t = Term::Stmt(Copula::INH, Box::new(Term::Name("s0".to_string())), Box::new(Term::Name(format!("pp{}", i))));
            NarMem::storeInConcepts(&mut pm.write(), &mksent(&t, vec![10000 + i as i64], grid(r)), 20, 0);
        }
        s.shared.read().cycleCounter.store(172, Ordering::SeqCst);
        s.state(json!({"op":"start","cap":20,"maxcx":64}));
        if !s.cycle(true) { return; }
    }
}
/// long runs: only the housekeeping boundaries are logged in detail
fn longrun(tr: &Trace, r: &mut Rng, n: usize) {
    let mut s = Sys::new(tr, false);
    s.state(json!({"op":"start","cap":20,"maxcx":64}));
    let v = vocab(r);
    let few = r.p(40);
    if few { // simple told knowledge only; many tasks which decay
        for i in 0..45 {
            let t = Term::Stmt(Copula::INH, Box::new(Term::Name(format!("s{}", i))), Box::new(Term::Name(format!("p{}", i))));
            s.inputT(&t, EnumPunctation::JUGEMENT, &Tv::Tv { f: 1.0, c: 0.5 });
        }
    } else {
        for x in &v { let x2 = format!("{}. {{{} {}}}", x, r.range(0, 11) as f64 / 10.0, r.range(1, 10) as f64 / 10.0); s.input(&x2); }
        for _ in 0..6 { let l = format!("<x{} --> y{}>.", r.n(8), r.n(8)); s.input(&l); }
    }
    for k in 1..=n {
        let bound = k % 111 == 0 || k % 173 == 0;
        if bound { s.state(json!({"op":"sync","note":"before boundary"})); }
        if few && r.p(30) { // refill
            let t = Term::Stmt(Copula::INH, Box::new(Term::Name(format!("s{}", r.n(90)))), Box::new(Term::Name(format!("p{}", r.n(90)))));
            inputT(&mut s.nar, &t, EnumPunctation::JUGEMENT, &Tv::Tv { f: 1.0, c: 0.5 });
            if bound { s.state(json!({"op":"sync","note":"before boundary"})); }
        }
        // keep the number of open tasks of the run small between the boundaries
        if !s.cycle(bound) { return; }
        if !bound && s.shared.read().judgementTasks.len() > 400 {
            let mut g = s.shared.write();
            g.judgementTasks.truncate(60);
            let keep: Vec<Arc<RwLock<Task>>> = g.judgementTasks.clone();
            let m: Arc<RwLock<HashMap<T, Vec<Arc<RwLock<Task>>>>>> = Arc::new(RwLock::new(HashMap::new()));
            for t in &keep { let term = (*t.read().sentence.term).clone(); populateTaskByTermLookup(Arc::clone(&m), &term, t); }
            g.judgementTasksByTerm = m;
        }
    }
    s.state(json!({"op":"sync","note":"end"}));
}
/// told beliefs of one unit of evidence each; revision must pool them
fn pool(tr: &Trace, r: &mut Rng, n: usize) {
    let mut s = Sys::new(tr, false);
    s.state(json!({"op":"start","cap":20,"maxcx":64,"pool":true}));
    let k = 1 + r.n(4);
    for _ in 0..n {
        let i = r.n(k);
        let t = Term::Stmt(Copula::INH, Box::new(Term::Name(format!("s{}", i % 2))), Box::new(Term::Name(format!("p{}", i / 2))));
        let f = if r.p(60) { 1.0 } else { 0.0 };
        s.inputT(&t, EnumPunctation::JUGEMENT, &Tv::Tv { f, c: 0.5 });
    }
}
/// limitation of the number of concepts
fn limit(tr: &Trace, r: &mut Rng, n: usize) {
    for _ in 0..n {
        let mut mem = NarMem::make();
        let k = 1 + r.n(25);
        for i in 0..k {
            let t = Term::Stmt(Copula::INH, Box::new(Term::Name(format!("s{}", r.n(9)))), Box::new(Term::Name(format!("p{}", r.n(9)))));
            NarMem::storeInConcepts(&mut mem, &mksent(&t, vec![i as i64], grid(r)), 3, 0);
        }
        let pre: Vec<Value> = memproj(&mem).values().cloned().collect();
        let lim = match r.n(4) { 0 => 1, 1 => pre.len(), 2 => pre.len().saturating_sub(1).max(1), _ => 1 + r.n(pre.len() + 2) };
        match guard(|| NarMem::limitMemory(&mut mem, lim)) {
            Ok(_) => { let post: Vec<Value> = memproj(&mem).values().cloned().collect(); tr.ev(json!({"op":"limit","pre":pre,"n":lim,"post":post})); }
            Err(m) => tr.ev(panic_ev(json!(pre), m)),
        }
    }
}
/// lookups of beliefs
fn main() {
    quiet_panics();
    let a = args();
    let tr = Trace::create(&a.out, 120);
    let mut r = Rng::new(a.seed);
    match a.mode.as_str() {
        "store" => store(&tr, &mut r, a.n, None),
        "storescript" => {
            // each line of the input file is one behaviour of the specification
            for (i, b) in read_ndjson(a.inp.as_ref().unwrap()).iter().enumerate() {
                if i >= a.n { break; }
                store(&tr, &mut r, 0, Some(b.as_array().unwrap().clone()));
            }
        }
        "cycles" => cycles(&tr, &mut r, a.n, None, false),
        "qa" => { // several short histories and a long one
            for _ in 0..a.n / 20 { cycles(&tr, &mut r, 24, None, true); }
            cycles(&tr, &mut r, a.n / 2, None, true);
        }
        "cyclescript" => {
            for (i, b) in read_ndjson(a.inp.as_ref().unwrap()).iter().enumerate() {
                if i >= a.n { break; }
                cycles(&tr, &mut r, 0, Some(b.as_array().unwrap().clone()), false);
            }
        }
        "requests" => requests(&tr, &mut r, a.n),
        "states" => states(&tr, &mut r, a.n, false),
        "wide" => states(&tr, &mut r, a.n, true),
        "many" => many(&tr, &mut r, a.n),
        "long" => longrun(&tr, &mut r, a.n),
        "pool" => { while (tr.count() as usize) < a.n { pool(&tr, &mut r, 12) } }
        "limit" => limit(&tr, &mut r, a.n),
        x => panic!("mode {}", x),
    }
    tr.finish();
}
