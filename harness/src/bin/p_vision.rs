//! vision: image maps, filters and prototype classifiers; automatic differentiation and vector helpers
#![allow(non_snake_case)]
use nar20_1::ad::{self, Ad};
use nar20_1::AeraishPerceptionComp as aera;
use nar20_1::Map2d::{self as m2, Map2d};
use nar20_1::ModVisionB as vb;
use nar20_1::ModVisionC as vc;
use nar20_1::ModVisionD as vd;
use nar20_1::{mlutils, Nn};
use serde_json::{json, Value};
use vh::*;

fn ex(x: f64) -> i64 { if x.fract() == 0.0 && x.abs() < 1.0e8 { x as i64 } else { -777777777 } }
fn m2j(m: &Map2d<f64>) -> Value { json!({"w":m.w,"h":m.h,"a":m.arr.iter().map(|x| ex(*x)).collect::<Vec<_>>()}) }
fn m2f(m: &Map2d<f64>) -> Value { json!({"w":m.w,"h":m.h,"a":m.arr.iter().map(|x| fx(*x)).collect::<Vec<_>>()}) }
fn rmap(r: &mut Rng, h: i32, w: i32) -> Map2d<f64> { let mut m = m2::makeMap2d(h, w); for x in m.arr.iter_mut() { *x = r.range(-3, 6) as f64; } m }
fn rsize(r: &mut Rng) -> (i32, i32) { (1 + r.n(8) as i32, 1 + r.n(8) as i32) }
fn maps(tr: &Trace, r: &mut Rng, n: usize) {
    for _ in 0..n {
        tr.beat();
        let (h, w) = rsize(r);
        let m = rmap(r, h, w);
        let mut p = m2::clone(&m);
        let (y, x) = (r.range(-3, h as i64 + 4) as i32, r.range(-3, w as i64 + 4) as i32);
        let v = r.range(7, 10) as f64;
        let k = r.n(15);
        let res = catch(|| match k {
            0 => json!({"k":"make","h":h,"w":w,"r":m2j(&m2::makeMap2d(h, w))}),
            1 => json!({"k":"read","y":y,"x":x,"r":ex(m2::readAt(&m, y, x))}),
            2 => { m2::writeAt(&mut p, y, x, v); json!({"k":"write","y":y,"x":x,"v":ex(v),"r":m2j(&p)}) }
            3 => { let (sx, sy) = (1 + r.n(6) as i32, 1 + r.n(6) as i32); json!({"k":"crop","y":y,"x":x,"sx":sx,"sy":sy,"r":m2j(&m2::crop(&m, x, y, sx, sy))}) }
            4 => { let (sx, sy) = (r.n(6) as i32, r.n(6) as i32); m2::map2dDrawBox(&mut p, x, y, sx, sy, v); json!({"k":"box","y":y,"x":x,"sx":sx,"sy":sy,"v":ex(v),"r":m2j(&p)}) }
            5 => { let q = r.n(6) as i32; m2::map2dDrawCircle(&mut p, x, y, q, v); json!({"k":"circle","y":y,"x":x,"rad":q,"v":ex(v),"r":m2j(&p)}) }
            6 | 7 => { let (by, bx) = (r.range(-3, h as i64 + 4) as i32, r.range(-3, w as i64 + 4) as i32); m2::drawLine(&mut p, x, y, bx, by, v); json!({"k":"line","y":y,"x":x,"by":by,"bx":bx,"v":ex(v),"r":m2j(&p)}) }
            8 | 9 => { let (h2, w2) = if r.p(70) { (h, w) } else { rsize(r) }; let b = rmap(r, h2, w2); if k == 8 { json!({"k":"sub","b":m2j(&b),"r":m2j(&m2::sub(&m, &b))}) } else { json!({"k":"add","b":m2j(&b),"r":m2j(&m2::add(&m, &b))}) } }
            10 => { let d = 1 + r.n(9); json!({"k":"div","v":d,"r":m2f(&m2::divScalar(&m, d as f64))}) }
            11 => json!({"k":"dist","r":ex(m2::distPow2(&m))}),
            12 => json!({"k":"clone","r":m2j(&m2::clone(&m))}),
            13 => { let (kh, kw) = (1 + r.n(5) as i32, 1 + r.n(5) as i32); let q = rmap(r, kh, kw); json!({"k":"convo","q":m2j(&q),"r":m2j(&vc::convo(&m, &q))}) }
            _ => { let (kh, kw) = (1 + r.n(4) as i32, 1 + r.n(4) as i32); let q = rmap(r, kh, kw); json!({"k":"convnb","q":m2j(&q),"r":m2j(&vc::convWithoutBorder(&m, &q))}) }
        });
        match res {
            Ok(mut e) => { e["op"] = json!("map"); e["m"] = m2j(&m); tr.ev(e) }
            Err(e) => { tr.ev(panic_ev(json!({"k":k,"m":m2j(&m)}), e)); tr.finish() }
        }
        if r.p(4) { // filters
            let w = *r.pick(&[8i32, 12, 16, 9, 7, 5]);
            let kk = 1 + r.n((w / 2) as usize - 1) as i32;
            let lam = 4.0 * kk as f64 / w as f64;
            let g = r.n(3);
            let ga = [0.5, 1.0, 2.0][g];
            let pi = std::f64::consts::PI;
            let phi = r.n(100) as f64 / 10.0;
            let q = |phi: f64, off: f64| m2f(&vc::generateGaborKernel(w, phi, lam, off, ga));
            tr.ev(json!({"op":"gabor","w":w,"k":kk,"g":g + 1,"r0":q(0.0, 0.0),"rpi":q(0.0, pi),"r90":q(pi / 2.0, 0.0),"any":q(phi, 0.0),"anypi":q(phi + pi, 0.0),
                "r45":m2f(&vc::generateGaborKernel(w, pi / 4.0, lam * 2.0f64.sqrt(), 0.0, ga))}));
        }
        if r.p(8) {
            let items: Vec<aera::PerceptItem<i64>> = (0..r.n(8)).map(|_| aera::PerceptItem { dat: r.range(0, 9), salience: r.n(10) as f64 / 10.0, novelity: r.n(10) as f64 / 10.0 }).collect();
            let n = r.n(9);
            let j = |v: &Vec<aera::PerceptItem<i64>>| -> Vec<Value> { v.iter().map(|i| json!([i.dat, fx(i.salience), fx(i.novelity)])).collect() };
            tr.ev(json!({"op":"limit","a":j(&items),"n":n,"r":j(&aera::limit(&items, n))}));
        }
    }
}
fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())
}
/// prototypes of real vectors
fn real(tr: &Trace, r: &mut Rng, n: usize) {
    let mut c = vd::RealPrototypeClassifier { prototypes: vec![] };
    let (h, w, nch) = (1 + r.n(3) as i32, 1 + r.n(3) as i32, 1 + r.n(2));
    tr.ev(json!({"op":"start","kind":"real"}));
    let mut bases: Vec<Vec<Vec<i64>>> = vec![];
    for t in 0..n {
        tr.beat();
        if bases.is_empty() || r.p(25) { bases.push((0..nch).map(|_| (0..h * w).map(|_| r.range(0, 5)).collect()).collect()); }
        let mut s = r.pick(&bases).clone();
        for ch in s.iter_mut() { for x in ch.iter_mut() { if r.p(20) { *x = (*x + r.range(-2, 3)).max(0).min(4); } } }
        let st: Vec<vd::Channel> = s.iter().map(|v| vd::Channel { v: Map2d { arr: v.iter().map(|x| *x as f64 / 4.0).collect(), w, h } }).collect();
        let add = r.p(70) && c.prototypes.iter().all(|p| p.evidence_count < 6);
        let sims: Vec<i64> = vd::calc_sims(&st, &c).iter().map(|x| fx(*x)).collect();
        let time = t as i64 * 3 + 5;
        let res = match catch(|| vd::classify(&mut c, &st, time, add)) { Ok(x) => x, Err(e) => { tr.ev(panic_ev(json!({"stim":s}), e)); tr.finish() } };
        let ps: Vec<Value> = c.prototypes.iter().map(|p| json!({"ch":p.channels.iter().map(|q| q.v.arr.iter().map(|x| ex(*x * 4.0)).collect::<Vec<_>>()).collect::<Vec<_>>(),"n":p.evidence_count,"lu":p.last_use_time})).collect();
        tr.ev(json!({"op":"real","s":s,"t":time,"add":add,"sims":sims,"r":res.map_or(-1, |x| x as i64),"ps":ps}));
        if c.prototypes.len() > 6 || c.prototypes.iter().any(|p| p.evidence_count >= 6) { c.prototypes.clear(); bases.clear(); tr.ev(json!({"op":"start","kind":"real"})); }
    }
}
/// prototypes of truth values
fn truth(tr: &Trace, r: &mut Rng, n: usize) {
    let conf = *r.pick(&[0.1, 0.3, 0.5, 0.9]);
    let nq = 2 + r.n(3) as i64;
    let mut c = vb::PrototypeClassifier { prototypes: vec![], n_quantize: nq, stimulus_conf: conf };
    let (h, w, nch) = (1 + r.n(2) as i32, 1 + r.n(3) as i32, 1 + r.n(2));
    tr.ev(json!({"op":"start","kind":"tv"}));
    let tvs = |v: &Vec<nar20_1::Tv::Tv>| -> Vec<Value> { v.iter().map(|t| json!({"f":fx(t.f),"c":fx(t.c)})).collect() };
    let mut bases: Vec<Vec<Vec<i64>>> = vec![];
    let mut revs = 0;
    for t in 0..n {
        tr.beat();
        if bases.is_empty() || r.p(20) { bases.push((0..nch).map(|_| (0..h * w).map(|_| r.range(0, 9)).collect()).collect()); }
        let mut s = r.pick(&bases).clone();
        for ch in s.iter_mut() { for x in ch.iter_mut() { if r.p(20) { *x = r.range(0, 9); } } }
        let add = r.p(70);
        let st: Vec<vb::Channel> = match catch(|| s.iter().map(|v| vb::Channel { v: vb::conv_img_to_tv_vec(&Map2d { arr: v.iter().map(|x| *x as f64 / 8.0).collect(), w, h }, nq, conf) }).collect()) { Ok(x) => x, Err(e) => { tr.ev(panic_ev(json!({"stim":s}), e)); tr.finish() } };
        let sims: Vec<i64> = vb::calc_sims(&st, &c).iter().map(|x| fx(*x)).collect();
        let time = t as i64 * 2 + 3;
        let before = c.prototypes.len();
        let res = match catch(|| vb::classify(&mut c, &st, time, add)) { Ok(x) => x, Err(e) => { tr.ev(panic_ev(json!({"stim":s}), e)); tr.finish() } };
        if add && c.prototypes.len() == before { revs += 1; }
        let ps: Vec<Value> = c.prototypes.iter().map(|p| json!({"ch":p.channels.iter().map(|q| tvs(&q.v)).collect::<Vec<_>>(),"lu":p.last_use_time})).collect();
        tr.ev(json!({"op":"tv","s":s,"v":st.iter().map(|q| tvs(&q.v)).collect::<Vec<_>>(),"nq":nq,"conf":fx(conf),"t":time,"add":add,"sims":sims,"r":res.map_or(-1, |x| x as i64),"ps":ps}));
        if c.prototypes.len() > 6 || revs > 8 { c.prototypes.clear(); bases.clear(); revs = 0; tr.ev(json!({"op":"start","kind":"tv"})); }
    }
}
fn a2(a: &Ad) -> Value { json!([ex(a.r), ex(a.d)]) }
fn af(a: &Ad) -> Value { json!([fx(a.r), fx(a.d)]) }
fn nets(tr: &Trace, r: &mut Rng, n: usize) {
    let rad = |r: &mut Rng| Ad { r: r.range(-6, 7) as f64, d: r.range(-6, 7) as f64 };
    for _ in 0..n {
        tr.beat();
        let (a, b) = (rad(r), rad(r));
        match r.n(12) {
            0 => tr.ev(json!({"op":"ad","k":"add","a":a2(&a),"b":a2(&b),"r":a2(&ad::add(&a, &b))})),
            1 => tr.ev(json!({"op":"ad","k":"sub","a":a2(&a),"b":a2(&b),"r":a2(&ad::sub(&a, &b))})),
            2 => tr.ev(json!({"op":"ad","k":"mul","a":a2(&a),"b":a2(&b),"r":a2(&ad::mul(&a, &b))})),
            3 => if b.r != 0.0 { tr.ev(json!({"op":"ad","k":"div","a":a2(&a),"b":a2(&b),"r":af(&ad::div(&a, &b))})) },
            4 => { let a = Ad { r: r.range(-3, 4) as f64, d: a.d }; tr.ev(json!({"op":"ad","k":"exp","a":a2(&a),"b":a2(&b),"r":af(&ad::exp(&a))})) }
            5 => tr.ev(json!({"op":"ad","k":"relu","a":a2(&a),"b":a2(&b),"r":a2(&ad::reluAct(&a))})),
            6 => { let a = Ad { r: r.range(-4, 5) as f64, d: a.d }; tr.ev(json!({"op":"ad","k":"sigmoid","a":a2(&a),"b":a2(&b),"r":af(&ad::sigmoidAct(&a))})) }
            7 | 8 => {
                let m = 1 + r.n(4);
                let (v, w): (Vec<Ad>, Vec<Ad>) = (0..m).map(|_| (rad(r), rad(r))).unzip();
                let j = |v: &Vec<Ad>| v.iter().map(a2).collect::<Vec<_>>();
                let act = r.n(2) as u32;
                let dot = ad::dot(&v, &w);
                let mut bias = rad(r);
                if act == 1 { bias.r = r.range(-4, 5) as f64 - dot.r; }
                let nn = ad::Neuron { weights: w.clone(), bias: bias.clone(), act };
                let o = ad::calc(&v, &nn);
                tr.ev(json!({"op":"neuron","v":j(&v),"w":j(&w),"b":a2(&bias),"act":act,"dot":a2(&dot),"r":af(&o)}));
            }
            9 => {
                let (ni, n0, n1) = (1 + r.n(4) as i64, 1 + r.n(3) as i64, 1 + r.n(3) as i64);
                let total = n0 * (ni + 1) + n1 * (n0 + 1);
                let off = r.n(4) as i64;
                let ps: Vec<f64> = (0..total + off + 2).map(|k| (k * 3 - 17) as f64).collect();
                let di = if r.p(70) { Some(r.n((total + off + 2) as usize)) } else { None };
                let mut ix = off;
                let act0 = r.n(2) as u32;
                let net = Nn::buildNnFromParameters(&mut ix, &ps, ni, act0, n0, n1, di);
                let l = |v: &Vec<ad::Neuron>| v.iter().map(|q| json!({"w":q.weights.iter().map(a2).collect::<Vec<_>>(),"b":a2(&q.bias),"act":q.act})).collect::<Vec<_>>();
                tr.ev(json!({"op":"net","ni":ni,"n0":n0,"n1":n1,"off":off,"p":ps.iter().map(|x| ex(*x)).collect::<Vec<_>>(),"di":di.map_or(-1, |x| x as i64),"act0":act0,"end":ix,"l0":l(&net.neuronsLayer0),"l1":l(&net.neuronsLayer1)}));
            }
            _ => {
                let m = 1 + r.n(4);
                let (v, w): (Vec<f64>, Vec<f64>) = (0..m).map(|_| (r.range(-5, 6) as f64, r.range(-5, 6) as f64)).unzip();
                let s = r.range(-4, 5) as f64;
                let j = |v: &Vec<f64>| v.iter().map(|x| ex(*x)).collect::<Vec<_>>();
                let nz = v.iter().any(|x| *x != 0.0) && w.iter().any(|x| *x != 0.0);
                tr.ev(json!({"op":"vec","v":j(&v),"w":j(&w),"s":ex(s),"as":j(&mlutils::vecAddScale(&v, &w, s)),"add":j(&mlutils::vecAdd(&v, &w)),"sc":j(&mlutils::vecScale(&v, s)),"dot":ex(mlutils::vecDot(&v, &w)),"len":fx(mlutils::vecLen(&v)),"nz":nz,"cos":if nz { fx(mlutils::calcCosineSim(&v, &w)) } else { 0 }}));
            }
        }
    }
}
fn main() {
    let a = args();
    let tr = Trace::create(&a.out, 60);
    let mut r = Rng::new(a.seed);
    match a.mode.as_str() {
        "maps" => maps(&tr, &mut r, a.n),
        "real" => { let mut k = 0; while k < a.n { real(&tr, &mut r, 30); k += 30; } }
        "tv" => { let mut k = 0; while k < a.n { truth(&tr, &mut r, 20); k += 20; } }
        "nets" => nets(&tr, &mut r, a.n),
        x => panic!("mode {}", x),
    }
    tr.finish();
}
