//! records the behaviour of the procedural reasoner: event buffer, perception, evidence store and its
//! worker thread, anticipations, goal memory, goal derivation, decision making and execution.
#![allow(non_snake_case)]
use nar20_1::Nar::*;
use nar20_1::NarGoalSystem;
use nar20_1::NarInfProcedural;
use nar20_1::NarProc;
use nar20_1::NarSentence::*;
use nar20_1::NarStamp::*;
use nar20_1::NarWorkingCycle::Mem2;
use nar20_1::Term::*;
use nar20_1::TermUtils::encodeOp;
use nar20_1::Tv;
use parking_lot::RwLock;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::sync::mpsc::{sync_channel, Receiver, SyncSender};
use std::sync::{Arc, Mutex};
use vh::*;

type T = nar20_1::Term::Term;
type Bel = Arc<RwLock<Sentence>>;

struct RecOp { name: String, bab: bool, cnt: i64, log: Arc<Mutex<Vec<Value>>> }
impl NarProc::Op for RecOp {
    fn retName(&self) -> String { self.name.clone() }
    fn call(&self, _nar: &mut NarProc::ProcNar, _m: &Option<Arc<RwLock<Mem2>>>, args: &Vec<T>) {
        self.log.lock().unwrap().push(json!({"n":self.name,"a":args.iter().map(t2j).collect::<Vec<_>>()}));
    }
    fn isBabbleable(&self) -> bool { self.bab }
    fn ret_evi_cnt(&self) -> i64 { self.cnt }
}

struct Sys {
    nar: Nar,
    rx: Vec<Receiver<(Sentence, i64)>>,
    tx: Vec<SyncSender<(Sentence, i64)>>,
    calls: Arc<Mutex<Vec<Value>>>,
    bids: HashMap<usize, i64>,
    gids: HashMap<usize, i64>,
    keepb: Vec<Bel>,
    keepg: Vec<Arc<RwLock<NarGoalSystem::Entry>>>,
    prevb: BTreeMap<i64, Value>,
    prevc: BTreeMap<String, Value>,
    tr: Trace,
    pend: Vec<(usize, Sentence, i64)>,
    nmax: usize,
}
const DTV: Tv::Tv = Tv::Tv { f: 1.0, c: 0.9 };
fn nm(s: &str) -> T { Term::Name(s.to_string()) }
fn selfset() -> T { Term::SetExt(vec![Box::new(nm("SELF"))]) }
fn bel2j(s: &Sentence) -> Value {
    let (p, c) = match s.evi { Some(Evidence::CNT { pos, cnt }) => (pos, cnt), _ => (-1, -1) };
    let u = s.usage.read();
    json!({"t":t2j(&s.term),"s":s.stamp.ids,"pos":p,"cnt":c,"dt":s.expDt.unwrap_or(-1),"p":p2s(s.punct),"lu":u.lastUsed,"uc":u.useCount})
}
impl Sys {
    fn new(tr: &Trace) -> Sys {
        let mut nar = createNar();
        nar.procNar.cfg__resourceExpectedTime = 0.0; // goal derivation is invoked explicitly
        nar.procNar.cfgEnBabbling = false;
        let (mut rx, mut tx) = (vec![], vec![]);
        for k in 0..nar.procNar.storeWorkersTx.len() {
            let (t, r) = sync_channel(20000);
            tx.push(std::mem::replace(&mut nar.procNar.storeWorkersTx[k], t));
            rx.push(r);
        }
        Sys { nar, rx, tx, calls: Arc::new(Mutex::new(vec![])), bids: HashMap::new(), gids: HashMap::new(), keepb: vec![], keepg: vec![], prevb: BTreeMap::new(), prevc: BTreeMap::new(), tr: tr.clone(), pend: vec![], nmax: 0 }
    }
    fn addop(&mut self, name: &str, bab: bool, cnt: i64) {
        let log = Arc::clone(&self.calls);
        self.nar.procNar.ops.push(Rc::new(Box::new(RecOp { name: name.to_string(), bab, cnt, log })));
    }
    fn bid(&mut self, b: &Bel) -> i64 {
        let p = Arc::as_ptr(b) as usize;
        if let Some(k) = self.bids.get(&p) { return *k; }
        let k = self.keepb.len() as i64 + 1;
        self.keepb.push(Arc::clone(b));
        self.bids.insert(p, k);
        k
    }
    fn gid(&mut self, g: &Arc<RwLock<NarGoalSystem::Entry>>) -> i64 {
        let p = Arc::as_ptr(g) as usize;
        if let Some(k) = self.gids.get(&p) { return *k; }
        let k = self.keepg.len() as i64 + 1;
        self.keepg.push(Arc::clone(g));
        self.gids.insert(p, k);
        k
    }
    fn goal2j(&mut self, g: &Arc<RwLock<NarGoalSystem::Entry>>, w: i64, gi: i64, gt: &T) -> Value {
        let id = self.gid(g);
        let ev = g.read().evidence.as_ref().map(Arc::clone);
        let ev = ev.map(|b| self.bid(&b)).unwrap_or(-1);
        let g = g.read();
        let tv = retTv(&g.sentence).unwrap();
        json!({"id":id,"t":t2j(&g.sentence.term),"s":g.sentence.stamp.ids,"f":fx(tv.f),"c":fx(tv.c),"d":fx(g.desirability as f64),"dep":g.depth,"ct":g.createTime,"ev":ev,"w":w,"gi":gi,"gt":t2j(gt),"acc":fx(g.accDesirability),"u":fx(g.utility),"p":p2s(g.sentence.punct)})
    }
    fn goals(&mut self) -> (Vec<Value>, Vec<Value>) {
        let gs = Arc::clone(&self.nar.procNar.goalSystem);
        let gs = gs.read();
        let mut v = vec![];
        for (w, b) in gs.batchesByDepth.iter().enumerate() {
            for (gi, g) in b.read().groups.iter().enumerate() {
                for e in &g.entries { v.push(self.goal2j(e, w as i64, gi as i64, &g.term)); }
            }
        }
        for e in &gs.activeSet.set { let t = (*e.read().sentence.term).clone(); v.push(self.goal2j(e, -1, 0, &t)); }
        let mut m: BTreeMap<String, Value> = BTreeMap::new();
        for (k, l) in gs.entriesByTerm.iter() {
            let l: Vec<i64> = l.read().iter().map(|e| self.gid(e)).collect();
            let kj = t2j(k);
            m.insert(kj.to_string(), json!([kj, l]));
        }
        (v, m.values().cloned().collect())
    }
    fn state(&mut self, mut ev: Value) {
        let (gl, byt) = self.goals();
        let ants: Vec<(Bel, i64)> = self.nar.procNar.anticipatedEvents.iter().map(|a| (Arc::clone(&a.evi), a.deadline)).collect();
        let ant: Vec<Value> = ants.iter().map(|(b, d)| json!([self.bid(b), d])).collect();
        let mem = Arc::clone(&self.nar.procNar.evidenceMem);
        let mut con: BTreeMap<String, Value> = BTreeMap::new();
        for (k, c) in &mem.read().concepts {
            let e: Vec<i64> = c.payload.beliefsByExp.iter().map(|b| self.bid(b)).collect();
            let u: Vec<i64> = c.payload.beliefsByUsage.iter().map(|b| self.bid(b)).collect();
            let kj = t2j(k);
            con.insert(kj.to_string(), json!([kj, {"exp":e,"use":u,"nm":t2j(&c.name)}]));
        }
        let ch: Vec<Value> = con.iter().filter(|(k, v)| self.prevc.get(*k) != Some(*v)).map(|(_, v)| v.clone()).collect();
        let gone: Vec<Value> = self.prevc.iter().filter(|(k, _)| !con.contains_key(*k)).map(|(_, v)| v[0].clone()).collect();
        self.prevc = con;
        let mut bel = vec![];
        for (k, b) in self.keepb.iter().enumerate() {
            let id = k as i64 + 1;
            let j = bel2j(&b.read());
            if self.prevb.get(&id) != Some(&j) { bel.push(json!([id, j])); self.prevb.insert(id, j); }
        }
        ev["t"] = json!(self.nar.procNar.t);
        ev["tr"] = json!(self.nar.procNar.trace.ret_view().iter().map(|x| json!({"n":t2j(&x.name),"e":x.evi,"o":x.occT})).collect::<Vec<_>>());
        ev["ant"] = json!(ant);
        ev["gl"] = json!(gl);
        ev["byt"] = json!(byt);
        ev["con"] = json!(ch);
        ev["gone"] = json!(gone);
        ev["bel"] = json!(bel);
        ev["calls"] = json!(self.calls.lock().unwrap().drain(..).collect::<Vec<_>>());
        self.tr.ev(ev);
    }
    fn start(&mut self) {
        let ops: Vec<Value> = self.nar.procNar.ops.iter().map(|o| json!({"n":o.retName(),"bab":o.isBabbleable(),"cnt":o.ret_evi_cnt()})).collect();
        let p = &self.nar.procNar;
        let v = json!({"op":"start","ops":ops,"table":p.expIntervalsTable,"window":p.cfgPerceptWindow,"thr":fx(p.cfgDescnThreshold),"samples":p.cfg__perceptionSamplesPerStep,
            "nops":p.cfg__nOpsMax,"babble":p.cfgEnBabbling,"antic":p.cfg__enAnticipation,"ncon":p.cfg__nConcepts,"ncap":p.cfg__nConceptBeliefs,"ncapin":self.nar.cfg__nConceptBeliefs,"ngoals":p.goalSystem.read().nMaxEntries,"ndepth":p.goalSystem.read().nMaxDepth,"sat":p.goalSystem.read().cfg__enGoalSatisfaction});
        self.state(v);
    }
    fn fail(&mut self, ctx: Value, m: String) { self.tr.ev(panic_ev(ctx, m)); self.tr.finish(); }
    /// told: event, goal or predictive implication
    fn tell(&mut self, t: &T, p: EnumPunctation, tv: Tv::Tv, e: bool) {
        let sid = self.nar.mem.read().shared.read().stampIdCounter.load(std::sync::atomic::Ordering::SeqCst);
        match guard(|| inputT2(&mut self.nar, t, p, &tv, e)) {
            Ok(_) => self.state(json!({"op":"input","x":t2j(t),"p":p2s(p),"f":fx(tv.f),"c":fx(tv.c),"ev":e,"sid":sid})),
            Err(m) => self.fail(json!({"x":t2j(t)}), m),
        }
    }
    fn event(&mut self, t: &T) {
        let tt = self.nar.procNar.t;
        self.nar.procNar.trace.event_happened(Rc::new(NarProc::SimpleSentence { name: t.clone(), evi: tt, occT: tt }));
        self.state(json!({"op":"event","x":t2j(t),"e":tt,"o":tt}));
    }
    fn step0(&mut self) -> usize {
        if let Err(m) = guard(|| NarProc::narStep0(&mut self.nar.procNar)) { self.fail(json!("step0"), m); }
        let mut ms = vec![];
        for k in 0..self.rx.len() { for (s, t) in self.rx[k].try_iter() { ms.push((k, s, t)); } }
        let mj: Vec<Value> = ms.iter().map(|(_, s, t)| { let mut v = bel2j(s); v["time"] = json!(t); v }).collect();
        let n = ms.len();
        self.pend.extend(ms);
        self.state(json!({"op":"step0","msgs":mj}));
        n
    }
    /// the store worker takes the oldest observation
    fn store(&mut self) -> bool {
        if self.pend.is_empty() { return false; }
        let (k, s, t) = self.pend.remove(0);
        let mut v = bel2j(&s);
        v["time"] = json!(t);
        // a second message which is ignored (not a judgement) is dropped only after the first was processed completely
        let term = Arc::new(Term::Stmt(Copula::PREDIMPL, Box::new(Term::Seq(vec![Box::new(nm("zzs")), Box::new(nm("zzs"))])), Box::new(nm("zzs"))));
        let sentinel = Sentence { punct: EnumPunctation::QUESTION, t: None, stamp: newStamp(&vec![]), expDt: None, term: Arc::clone(&term), evi: None, usage: Arc::new(RwLock::new(Usage { lastUsed: 0, useCount: 0 })) };
        let sent = self.tx[k].send((s, t)).is_ok() && self.tx[k].send((sentinel, t)).is_ok();
        loop {
            if !sent || self.nar.procNar.storeWorkers[k].is_finished() {
                self.tr.ev(json!({"op":"workerdied","m":v}));
                self.tr.finish();
            }
            if Arc::strong_count(&term) == 1 { break; }
            std::thread::sleep(std::time::Duration::from_micros(50));
        }
        if self.nar.procNar.storeWorkers[k].is_finished() { self.tr.ev(json!({"op":"workerdied","m":v})); self.tr.finish(); }
        self.state(json!({"op":"store","m":v}));
        true
    }
    fn step1(&mut self) {
        let m = Some(Arc::clone(&self.nar.mem));
        if let Err(m) = guard(|| NarProc::narStep1(&mut self.nar.procNar, &m)) { self.fail(json!("step1"), m); }
        let b = self.nar.procNar.cfgEnBabbling;
        self.state(json!({"op":"step1","bab":b}));
    }
    fn derive(&mut self) {
        let gs = Arc::clone(&self.nar.procNar.goalSystem);
        let rounds = gs.read().cfg__subworkingCycle_rounds;
        let t = self.nar.procNar.t;
        let nar = &mut self.nar;
        if let Err(m) = guard(|| NarGoalSystem::sampleAndInference(&gs, &nar.mem.read(), t, &nar.procNar.evidenceMem.read(), &mut nar.procNar.rng)) { self.fail(json!("derive"), m); }
        self.state(json!({"op":"derive","rounds":rounds}));
    }
    fn addgoal(&mut self, t: &T, stamp: Vec<i64>, tv: Tv::Tv, ev: Option<Bel>, depth: i64) {
        let gs = Arc::clone(&self.nar.procNar.goalSystem);
        let now = self.nar.procNar.t;
        let s = newEternalSentenceByTv(t, EnumPunctation::GOAL, &tv, newStamp(&stamp));
        let evid = match &ev { Some(b) => self.bid(b), None => -1 };
        let nar = &self.nar;
        if let Err(m) = guard(|| NarGoalSystem::addEntry(&gs, &nar.mem.read(), now, Arc::new(s), ev, depth)) { self.fail(json!("addgoal"), m); }
        self.state(json!({"op":"addgoal","x":t2j(t),"s":stamp,"f":fx(tv.f),"c":fx(tv.c),"ev":evid,"dep":depth}));
    }
    fn occurred(&mut self, t: &T) {
        let gs = Arc::clone(&self.nar.procNar.goalSystem);
        if let Err(m) = guard(|| NarGoalSystem::event_occurred(&mut gs.write(), t)) { self.fail(json!("occurred"), m); }
        self.state(json!({"op":"occurred","x":t2j(t)}));
    }
    fn glimit(&mut self) {
        let gs = Arc::clone(&self.nar.procNar.goalSystem);
        let t = self.nar.procNar.t;
        let nar = &self.nar;
        if let Err(m) = guard(|| NarGoalSystem::limitMemory(&gs, &nar.mem.read(), t)) { self.fail(json!("glimit"), m); }
        self.state(json!({"op":"glimit"}));
    }
    fn queries(&mut self, t: &T) {
        let gs = Arc::clone(&self.nar.procNar.goalSystem);
        let r = guard(|| NarGoalSystem::query(&gs.read(), t));
        let r = match r { Ok(r) => r, Err(m) => { self.fail(json!("query"), m); return; } };
        let id = match r { Some(e) => self.gid(&e), None => -1 };
        let h = NarGoalSystem::selHighestExpGoalByState(&gs.read(), t);
        let (hid, ht) = match &h.1 { Some((e, u)) => (self.gid(e), t2j(u)), None => (-1, json!([])) };
        let mem = Arc::clone(&self.nar.procNar.evidenceMem);
        let a: Vec<i64> = NarGoalSystem::query_by_antecedent(t, &mem.read()).iter().map(|b| self.bid(b)).collect();
        let c: Vec<i64> = NarGoalSystem::query_by_consequence(t, &mem.read()).iter().map(|b| self.bid(b)).collect();
        self.state(json!({"op":"query","x":t2j(t),"r":id,"hid":hid,"ht":ht,"he":fx(h.0),"ante":a,"cons":c}));
    }
    fn samples(&mut self, n: usize) {
        let gs = Arc::clone(&self.nar.procNar.goalSystem);
        let mut seen: BTreeMap<String, Value> = BTreeMap::new();
        let mut none = 0;
        for _ in 0..n {
            let nar = &mut self.nar;
            let r = guard(|| NarGoalSystem::sample(&gs.read(), &mut nar.procNar.rng));
            match r {
                Ok(Some((s, d))) => { let v = json!({"t":t2j(&s.term),"s":s.stamp.ids,"dep":d}); seen.insert(v.to_string(), v); }
                Ok(None) => none += 1,
                Err(m) => { self.fail(json!("sample"), m); return; }
            }
        }
        self.state(json!({"op":"sample","n":n,"none":none,"seen":seen.values().collect::<Vec<_>>()}));
    }
}

fn op(name: &str) -> T { encodeOp(&vec![selfset()], &name.to_string()) }
fn op2(name: &str, a: T) -> T { encodeOp(&vec![selfset(), a], &name.to_string()) }

/// events of a small world; some structured, so that variables are introduced and unified
fn events(r: &mut Rng) -> Vec<T> {
    let g = Gen { names: vec!["a", "b", "c"], vars: false };
    let mut v = vec![nm("a"), nm("b")];
    for _ in 0..(1 + r.n(3)) {
        let t = match r.n(6) {
            0 => Term::Stmt(Copula::INH, Box::new(g.atom(r)), Box::new(Term::SetInt(vec![Box::new(g.atom(r))]))),
            1 => Term::Stmt(Copula::INH, Box::new(g.atom(r)), Box::new(g.atom(r))),
            2 => Term::Stmt(Copula::INH, Box::new(Term::Prod(vec![Box::new(g.atom(r)), Box::new(g.atom(r))])), Box::new(nm("r"))),
            3 => Term::SetExt(vec![Box::new(g.atom(r))]),
            _ => g.atom(r),
        };
        v.push(t);
    }
    v
}
fn config(s: &mut Sys, r: &mut Rng) -> Vec<T> {
    let mut ops = vec![];
    let k = 1 + r.n(3);
    for i in 0..k {
        let name = ["^l", "^r", "^pick"][i];
        s.addop(name, r.p(70), *r.pick(&[3, 3, 3, 1, 5]));
        ops.push(op(name));
    }
    if r.p(40) { s.nar.procNar.cfgEnBabbling = true; }
    if r.p(15) { s.nar.procNar.cfg__nOpsMax = 2; s.nar.procNar.cfg__multiOpProbability = 0.5; }
    if r.p(10) { s.nar.procNar.cfg__enAnticipation = false; }
    if r.p(50) { s.nar.procNar.cfg__nConcepts = 2 + r.n(8) as i64; }
    if r.p(40) { s.nar.procNar.t = *r.pick(&[12, 40, 95, 100, 199]); }
    if r.p(30) { s.nar.procNar.goalSystem.write().cfg__subworkingCycle_rounds = 0; }
    if r.p(10) { s.nar.procNar.goalSystem.write().cfg__enGoalSatisfaction = false; }
    if r.p(20) { s.nar.procNar.goalSystem.write().nMaxEntries = 2 + r.n(8) as i64; }
    if r.p(15) { s.nar.procNar.cfgDescnThreshold = *r.pick(&[0.3, 0.7, 0.8, 0.9]); }
    if r.p(15) { s.nar.procNar.cfgPerceptWindow = *r.pick(&[1, 3, 4]); }
    ops
}
/// histories of the whole procedural reasoner
fn run(tr: &Trace, r: &mut Rng, n: usize, lean: usize) {
    let mut s = Sys::new(tr);
    let ops = config(&mut s, r);
    let evs = events(r);
    s.start();
    let mut acts: Vec<T> = ops.clone();
    if r.p(30) { acts.push(op2("^pick", nm("a"))); }
    if r.p(20) { acts.push(op("^unknown")); }
    let mut k = 0;
    let pool: Vec<T> = evs.iter().cloned().chain(acts.iter().cloned()).collect();
    while k < n {
        k += 1;
        match r.n(100) {
            0..=29 => { let e = r.pick(&evs).clone(); if r.p(50) { s.event(&e) } else { s.tell(&e, EnumPunctation::JUGEMENT, DTV, true) } }
            30..=37 => { let a = r.pick(&acts).clone(); s.event(&a); }
            38..=45 => {
                let g = if r.p(75) { r.pick(&evs).clone() } else if r.p(50) { r.pick(&acts).clone() } else { Term::Seq(vec![Box::new(r.pick(&evs).clone()), Box::new(r.pick(&acts).clone())]) };
                let tv = if r.p(60) { DTV } else { Tv::Tv { f: r.range(0, 11) as f64 / 10.0, c: r.range(1, 10) as f64 / 10.0 } };
                s.tell(&g, EnumPunctation::GOAL, tv, true);
            }
            46..=53 => {
                let c = r.pick(&evs).clone();
                let a = r.pick(&acts).clone();
                let e = r.pick(&evs).clone();
                let t = match r.n(8) {
                    0 => Term::Stmt(Copula::PREDIMPL, Box::new(Term::Seq(vec![Box::new(abstract_vars(r, &c, 40)), Box::new(abstract_vars(r, &a, 10))])), Box::new(e)),
                    1 => Term::Stmt(Copula::PREDIMPL, Box::new(c), Box::new(e)),
                    2 => Term::Stmt(Copula::PREDIMPL, Box::new(Term::Seq(vec![Box::new(c), Box::new(r.pick(&evs).clone()), Box::new(a)])), Box::new(e)),
                    3 => Term::Stmt(Copula::PREDIMPL, Box::new(Term::Seq(vec![Box::new(Term::Stmt(Copula::INH, Box::new(Term::IndepVar("x".to_string())), Box::new(nm("b")))), Box::new(op2("^pick", Term::IndepVar("x".to_string())))])), Box::new(e)),
                    _ => Term::Stmt(Copula::PREDIMPL, Box::new(Term::Seq(vec![Box::new(c), Box::new(a)])), Box::new(e)),
                };
                s.tell(&t, EnumPunctation::JUGEMENT, DTV, false);
            }
            54..=58 => { let e = r.pick(&pool).clone(); s.queries(&e); }
            59..=66 => { for _ in 0..(1 + r.n(2)) { s.derive(); } }
            _ => {
                if k > 6 && r.p(6) { // a moment at which a memory is limited
                    let t = s.nar.procNar.t;
                    let m = if r.p(70) { 101 } else { 13 };
                    s.nar.procNar.t = t + (m + 1 - t % m) % m;
                    s.state(json!({"op":"time"}));
                }
                s.step0();
                let m = if r.p(lean) { 4 } else { 1 };
                let drop = s.pend.len().saturating_sub(12);
                s.pend.drain(..drop);
                for _ in 0..m { if !s.store() { break; } }
                if r.p(40) { let e = r.pick(&evs).clone(); s.event(&e); }
                s.step1();
                if r.p(20) { s.derive(); }
            }
        }
        if s.goals().0.len() > 45 || s.keepb.len() > 260 { break; }
    }
}
/// behaviour of the specification (design model) replayed
fn script(tr: &Trace, acts: &Vec<Value>) {
    let mut s = Sys::new(tr);
    s.addop("^l", false, 3);
    s.addop("^r", false, 3);
    s.nar.procNar.goalSystem.write().cfg__subworkingCycle_rounds = 1;
    s.start();
    for a in acts {
        match a["a"].as_str().unwrap() {
            "event" => s.event(&j2t(&a["x"])),
            "goal" => s.tell(&j2t(&a["x"]), EnumPunctation::GOAL, DTV, true),
            "belief" => s.tell(&j2t(&a["x"]), EnumPunctation::JUGEMENT, DTV, false),
            "step" => { s.step0(); s.step1(); }
            "step0" => { s.step0(); }
            "step1" => s.step1(),
            "store" => { s.store(); }
            "derive" => s.derive(),
            _ => panic!("action"),
        }
    }
    while s.store() {}
}
/// which hypotheses can be perceived from an event buffer, by exhausting the random choices
fn percept(tr: &Trace, r: &mut Rng, n: usize) {
    for _ in 0..n {
        let mut s = Sys::new(tr);
        s.addop("^l", true, *r.pick(&[3, 1]));
        s.addop("^r", true, 5);
        if r.p(25) { s.nar.procNar.cfg__nOpsMax = 2; s.nar.procNar.cfg__multiOpProbability = 0.5; }
        if r.p(20) { s.nar.procNar.cfg__perceptionSamplesPerStep = 1 + r.n(7) as i64; }
        s.start();
        let len = match r.n(4) { 0 => 3, 1 => 1 + r.n(3), _ => 3 + r.n(5) };
        let mut acts = 0;
        for k in 0..len {
            s.nar.procNar.t += *r.pick(&[0, 1, 1, 2, 3, 5, 9, 16, 25]);
            s.state(json!({"op":"time"}));
            let isop = if len == 3 { k == 1 && r.p(90) } else { r.p(35) } && acts < 3;
            let t = if isop { acts += 1; if r.p(70) { op(*r.pick(&["^l", "^r"])) } else if r.p(50) { op2("^l", nm("a")) } else { op("^unknown") } } else { nm(*r.pick(&["a", "b", "c", "d"])) };
            s.event(&t);
        }
        let mut seen: BTreeMap<String, Value> = BTreeMap::new();
        let steps = 500 + 2000 / (s.nar.procNar.cfg__perceptionSamplesPerStep as usize);
        let mut lo = usize::MAX;
        let mut hi = 0;
        for _ in 0..steps {
            if let Err(m) = guard(|| NarProc::narStep0(&mut s.nar.procNar)) { s.fail(json!("step0"), m); }
            let mut c = 0;
            for k in 0..s.rx.len() { for (se, _) in s.rx[k].try_iter() { c += 1; let mut v = bel2j(&se); v["time"] = json!(s.nar.procNar.t); seen.insert(v.to_string(), v); } }
            lo = lo.min(c);
            hi = hi.max(c);
        }
        s.state(json!({"op":"percept","seen":seen.values().collect::<Vec<_>>(),"lo":lo,"hi":hi}));
    }
}
/// knowledge of every interval and strength, closely ranked plans for the same situation
fn plans(tr: &Trace, r: &mut Rng, n: usize) {
    let mut k = 0;
    while k < n {
        let mut s = Sys::new(tr);
        for o in ["^l", "^r", "^pick"] { s.addop(o, false, 3); }
        if r.p(20) { s.nar.procNar.cfgPerceptWindow = *r.pick(&[1, 3]); }
        s.nar.procNar.t = *r.pick(&[0, 3, 12, 50]);
        s.start();
        let conds: Vec<T> = vec![nm("a"), nm("b"), Term::Stmt(Copula::INH, Box::new(nm("a")), Box::new(nm("b")))];
        let effs: Vec<T> = vec![nm("c"), nm("d"), nm("a"), nm("b")];
        let acts: Vec<T> = vec![op("^l"), op("^r"), op("^pick"), op2("^pick", nm("a")), op2("^l", Term::SetExt(vec![Box::new(nm("a"))])), op("^unknown")];
        let mut nid = 1000;
        for _ in 0..(2 + r.n(4)) {
            let c = r.pick(&conds).clone();
            let c = if r.p(25) { abstract_vars(r, &c, 50) } else { c };
            let mut sq = vec![Box::new(c)];
            if r.p(15) { sq.push(Box::new(r.pick(&conds).clone())); }
            sq.push(Box::new(r.pick(&acts).clone()));
            let t = Term::Stmt(Copula::PREDIMPL, Box::new(Term::Seq(sq)), Box::new(r.pick(&effs).clone()));
            let cnt = r.range(1, 30);
            let pos = if r.p(60) { cnt } else { r.range(0, cnt + 1) };
            nid += 1;
            let se = Sentence { punct: EnumPunctation::JUGEMENT, t: None, stamp: newStamp(&vec![nid, nid + 500]), expDt: Some(r.range(0, 9)), term: Arc::new(t), evi: Some(Evidence::CNT { pos, cnt }), usage: Arc::new(RwLock::new(Usage { lastUsed: 0, useCount: 0 })) };
            let now = s.nar.procNar.t;
            s.pend.push((0, se, now));
            s.store();
        }
        // a chain of knowledge leading to a goal which is two, three or four steps away
        let chain = r.p(45);
        if chain {
            let len = 2 + r.n(3);
            let ns: Vec<T> = ["a", "e", "f", "h", "i"].iter().map(|x| nm(x)).collect();
            for i in 0..len {
                let t = Term::Stmt(Copula::PREDIMPL, Box::new(Term::Seq(vec![Box::new(ns[i].clone()), Box::new(r.pick(&acts).clone())])), Box::new(ns[i + 1].clone()));
                nid += 1;
                let cnt = r.range(20, 60);
                let se = Sentence { punct: EnumPunctation::JUGEMENT, t: None, stamp: newStamp(&vec![nid, nid + 500]), expDt: Some(r.range(0, 9)), term: Arc::new(t), evi: Some(Evidence::CNT { pos: cnt, cnt }), usage: Arc::new(RwLock::new(Usage { lastUsed: 0, useCount: 0 })) };
                let now = s.nar.procNar.t;
                s.pend.push((0, se, now));
                s.store();
            }
            s.tell(&ns[len], EnumPunctation::GOAL, Tv::Tv { f: 1.0, c: 0.95 }, true);
            for _ in 0..4 { s.event(&ns[0]); s.step1(); }
        }
        let base = r.range(0, 80) as f64 / 1000.0;
        for _ in 0..(1 + r.n(3)) {
            let g = r.pick(&effs).clone();
            let tv = Tv::Tv { f: 1.0, c: 0.9 + base - r.n(12) as f64 / 200.0 };
            s.tell(&g, EnumPunctation::GOAL, tv, true);
        }
        for _ in 0..(1 + r.n(4)) { s.derive(); }
        // plans for the same situation, told with close strengths
        for _ in 0..r.n(4) {
            let b = if s.keepb.is_empty() { None } else { Some(Arc::clone(&s.keepb[r.n(s.keepb.len())])) };
            let t = Term::Seq(vec![Box::new(r.pick(&conds).clone()), Box::new(r.pick(&acts).clone())]);
            let t = if r.p(40) { acts[r.n(2)].clone() } else { t };
            nid += 1;
            let tv = Tv::Tv { f: 1.0, c: 0.9 + base - r.n(20) as f64 / 200.0 };
            s.addgoal(&t, vec![nid], tv, b, 1);
        }
        for _ in 0..(2 + r.n(5)) {
            let e = if r.p(75) { r.pick(&conds).clone() } else if r.p(50) { r.pick(&acts).clone() } else { r.pick(&effs).clone() };
            s.event(&e);
            if r.p(30) { s.step0(); s.pend.clear(); }
            s.queries(&e);
            s.step1();
            if r.p(35) { s.nar.procNar.t += *r.pick(&[0, 1, 2, 4, 9, 12, 16]); s.state(json!({"op":"time"})); }
            if r.p(60) { s.step0(); s.pend.clear(); }
            if r.p(30) { s.derive(); }
            k += 1;
            if s.goals().0.len() > 45 { break; }
        }
    }
}
/// random exploration
fn babble(tr: &Trace, r: &mut Rng, n: usize) {
    for _ in 0..n {
        let mut s = Sys::new(tr);
        let k = r.n(6);
        for i in 0..k { s.addop(["^l", "^r", "^pick", "^go", "^say"][i], r.p(60), 3); }
        s.nar.procNar.cfgEnBabbling = r.p(80);
        s.start();
        let mut cnt: BTreeMap<String, i64> = BTreeMap::new();
        let steps = 1400;
        let m = Some(Arc::clone(&s.nar.mem));
        for _ in 0..steps {
            if let Err(m) = guard(|| NarProc::narStep1(&mut s.nar.procNar, &m)) { s.fail(json!("step1"), m); }
            let c: Vec<Value> = s.calls.lock().unwrap().drain(..).collect();
            for x in c { *cnt.entry(x.to_string()).or_insert(0) += 1; }
            s.nar.procNar.trace.force_flush();
        }
        let cs: Vec<Value> = cnt.iter().map(|(k, v)| json!([serde_json::from_str::<Value>(k).unwrap(), v])).collect();
        s.state(json!({"op":"babble","steps":steps,"cs":cs}));
    }
}
/// the goal memory alone
fn goalmem(tr: &Trace, r: &mut Rng, n: usize) {
    let mut s = Sys::new(tr);
    s.addop("^l", true, 3);
    s.addop("^r", true, 3);
    s.nar.procNar.t = r.range(0, 60);
    s.nar.procNar.goalSystem.write().nMaxEntries = *r.pick(&[20, 20, 3, 6, 10, 1]);
    s.nar.procNar.goalSystem.write().cfg__enGoalSatisfaction = r.p(85);
    s.start();
    let single = r.p(40);
    let mut nid = 100;
    let mut ts: Vec<T> = (0..(2 + r.n(8))).map(|i| nm(["a", "b", "c", "d", "e", "f", "g", "h", "i", "j"][i])).collect();
    ts.push(op("^l"));
    ts.push(op("^r"));
    ts.push(op("^unknown"));
    ts.push(op2("^l", nm("a")));
    ts.push(Term::Seq(vec![Box::new(nm("a")), Box::new(op("^l"))]));
    ts.push(Term::Seq(vec![Box::new(nm("b")), Box::new(op("^r"))]));
    let mut used: Vec<Vec<i64>> = vec![];
    for _ in 0..n {
        let t = r.pick(&ts).clone();
        match r.n(100) {
            0..=59 => {
                let tv = Tv::Tv { f: r.range(0, 11) as f64 / 10.0, c: r.range(1, 10) as f64 / 10.0 };
                let st = if single || used.is_empty() || r.p(60) { nid += 1; vec![nid] } else if r.p(60) { r.pick(&used).clone() } else { let mut x = r.pick(&used).clone(); if x.len() < 4 { nid += 1; x.push(nid); } x };
                used.push(st.clone());
                let dep = *r.pick(&[0, 0, 1, 2, 3, 6, 7, 8, 9, 15]);
                if single {
                    let have = s.goals().0.iter().any(|g| g["t"] == t2j(&t));
                    if have { continue; }
                }
                s.addgoal(&t, st, tv, None, dep);
            }
            60..=69 => { let e = r.pick(&ts).clone(); s.occurred(&e); }
            70..=79 => s.queries(&t),
            80..=86 => { s.nar.procNar.t += *r.pick(&[0, 1, 3, 10, 50, 120, 300]); s.state(json!({"op":"time"})); s.glimit(); }
            87..=93 => s.samples(if single { 600 } else { 60 }),
            _ => { s.nar.procNar.t += r.range(0, 40); s.state(json!({"op":"time"})); }
        }
        if s.goals().0.len() > 40 { s.glimit(); }
    }
}
/// inference rules of the procedural reasoner
fn rules(tr: &Trace, r: &mut Rng, n: usize) {
    let g = Gen { names: vec!["a", "b", "c"], vars: true };
    let g2 = Gen { names: vec!["a", "b", "c"], vars: false };
    let mut rng = rand::thread_rng();
    for _ in 0..n {
        let cnt = 1 + r.range(0, 12);
        let pos = r.range(0, cnt + 1);
        let c = g.term(r, 2);
        let e = g.term(r, 2);
        let o = op2("^l", g.atom(r));
        let subj = match r.n(5) { 0 => g.term(r, 2), 1 => Term::Seq(vec![Box::new(c.clone())]), 2 => Term::Seq(vec![Box::new(c.clone()), Box::new(g.term(r, 1)), Box::new(o.clone())]), _ => Term::Seq(vec![Box::new(c.clone()), Box::new(o.clone())]) };
        let bt = if r.p(85) { Term::Stmt(Copula::PREDIMPL, Box::new(subj), Box::new(e.clone())) } else { g.term(r, 2) };
        let ids = |r: &mut Rng| (0..(1 + r.n(4))).map(|_| r.range(0, 9)).collect::<Vec<i64>>();
        let bs = ids(r);
        let gs = ids(r);
        let bel = Sentence { punct: EnumPunctation::JUGEMENT, t: None, stamp: newStamp(&bs), expDt: Some(1), term: Arc::new(bt.clone()), evi: Some(Evidence::CNT { pos, cnt }), usage: Arc::new(RwLock::new(Usage { lastUsed: 0, useCount: 0 })) };
        let gt = match r.n(4) { 0 => g.term(r, 2), 1 => mutate(r, &g, &e), _ => e.clone() };
        let tv = Tv::Tv { f: r.range(0, 11) as f64 / 10.0, c: r.range(1, 10) as f64 / 10.0 };
        let goal = newEternalSentenceByTv(&gt, EnumPunctation::GOAL, &tv, newStamp(&gs));
        let out = |x: Option<Sentence>| match x { Some(x) => { let tv = retTv(&x).unwrap(); json!([{"t":t2j(&x.term),"s":x.stamp.ids,"f":fx(tv.f),"c":fx(tv.c),"p":p2s(x.punct)}]) } None => json!([]) };
        match guard(|| NarInfProcedural::infGoalBelief(&goal, &bel)) {
            Ok(x) => tr.ev(json!({"op":"goalbelief","g":t2j(&gt),"gs":gs,"f":fx(tv.f),"c":fx(tv.c),"b":t2j(&bt),"bs":bs,"pos":pos,"cnt":cnt,"r":out(x)})),
            Err(m) => tr.ev(panic_ev(json!({"g":t2j(&gt),"b":t2j(&bt)}), m)),
        }
        let dt = if r.p(60) { Term::Seq((0..(1 + r.n(3))).map(|_| Box::new(g.term(r, 1))).collect()) } else { gt.clone() };
        let dgoal = newEternalSentenceByTv(&dt, EnumPunctation::GOAL, &tv, newStamp(&gs));
        match guard(|| NarInfProcedural::infGoalDetach(&dgoal)) {
            Ok(x) => tr.ev(json!({"op":"detach","g":t2j(&dt),"gs":gs,"f":fx(tv.f),"c":fx(tv.c),"r":out(x)})),
            Err(m) => tr.ev(panic_ev(json!({"g":t2j(&dt)}), m)),
        }
        // introduction of variables
        let a = g2.atom(r);
        let prop = |r: &mut Rng, a: &T| Term::Stmt(Copula::INH, Box::new(a.clone()), Box::new(if r.p(80) { Term::SetInt(vec![Box::new(g2.atom(r))]) } else { g2.term(r, 1) }));
        let c0 = if r.p(80) { prop(r, &a) } else { g2.term(r, 2) };
        let o0 = if r.p(50) { op2("^l", a.clone()) } else { op2("^l", g2.atom(r)) };
        let e0 = if r.p(50) { prop(r, &a) } else { g2.term(r, 2) };
        let sq = match r.n(6) { 0 => vec![Box::new(c0.clone())], 1 => vec![Box::new(c0.clone()), Box::new(o0.clone()), Box::new(o0.clone())], _ => vec![Box::new(c0.clone()), Box::new(o0.clone())] };
        let vt = Term::Stmt(if r.p(90) { Copula::PREDIMPL } else { Copula::IMPL }, Box::new(Term::Seq(sq)), Box::new(e0));
        let se = Sentence { term: Arc::new(vt.clone()), ..bel.clone() };
        match guard(|| NarInfProcedural::matchandintro_var1_sentence(&se, &mut rng)) {
            Ok(x) => { let rs: Vec<Value> = x.iter().map(bel2j).collect(); tr.ev(json!({"op":"introvar","b":bel2j(&se),"r":rs})) }
            Err(m) => tr.ev(panic_ev(json!({"vt":t2j(&vt)}), m)),
        }
        let dt = match r.n(3) { 0 => r.range(-2, 40), 1 => r.range(0, 22), _ => *r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 14, 16, 17, 18, 1000]) };
        let table = vec![1, 2, 3, 4, 6, 8, 10, 13, 17];
        match guard(|| NarProc::findMinTableIdx(dt, &table)) {
            Ok(x) => tr.ev(json!({"op":"interval","dt":dt,"table":table,"r":x})),
            Err(m) => tr.ev(panic_ev(json!(dt), m)),
        }
    }
}
fn main() {
    quiet_panics();
    let a = args();
    let tr = Trace::create(&a.out, 120);
    let mut r = Rng::new(a.seed);
    match a.mode.as_str() {
        "run" => run(&tr, &mut r, a.n, 60),
        "script" => for (i, b) in read_ndjson(a.inp.as_ref().unwrap()).iter().enumerate() { if i >= a.n { break; } script(&tr, b.as_array().unwrap()); },
        "percept" => percept(&tr, &mut r, a.n),
        "plans" => plans(&tr, &mut r, a.n),
        "babble" => babble(&tr, &mut r, a.n),
        "goalmem" => goalmem(&tr, &mut r, a.n),
        "rules" => rules(&tr, &mut r, a.n),
        x => panic!("mode {}", x),
    }
    tr.finish();
}
