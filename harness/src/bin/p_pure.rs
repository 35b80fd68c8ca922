//! records calls of the pure parts: truth functions, stamps, terms, unification, inference rules
#![allow(non_snake_case)]
use nar20_1::NarSentence::*;
use nar20_1::NarStamp::*;
use nar20_1::NarUnify::*;
use nar20_1::NarWorkingCycle::*;
use nar20_1::Term::*;
use nar20_1::TermUtils::*;
use nar20_1::Tv;
use parking_lot::RwLock;
use serde_json::{json, Value};
use std::sync::Arc;
use vh::*;

type T = nar20_1::Term::Term;
fn rtv(r: &mut Rng) -> Tv::Tv {
    Tv::Tv { f: r.range(0, 101) as f64 / 100.0, c: r.range(0, 100) as f64 / 100.0 }
}
fn log(tr: &Trace, ctx: Value, f: impl FnOnce() -> Value) {
    match guard(f) {
        Ok(v) => tr.ev(v),
        Err(m) => tr.ev(panic_ev(ctx, m)),
    }
}
fn tvcall(tr: &Trace, name: &str, a: &Tv::Tv, b: &Tv::Tv) {
    let ctx = json!({"fn":name,"a":tv2j(a),"b":tv2j(b)});
    log(tr, ctx, || {
        let r = match name {
            "ded" => Tv::ded(a, b),
            "abd" => Tv::abd(a, b),
            "ind" => Tv::ind(a, b),
            "rev" => Tv::rev(a, b),
            "comp" => Tv::comp(a, b),
            "int" => Tv::int(a, b),
            "neg" => Tv::neg(a),
            "dedGoal" => Tv::dedGoal(a, b),
            _ => unreachable!(),
        };
        if name == "dedGoal" {
            json!({"op":"dedGoal","a":tv2j(a),"b":tv2j(b),"r":tv2j(&r)})
        } else {
            json!({"op":"tv","fn":name,"a":tv2j(a),"b":tv2j(b),"r":tv2j(&r)})
        }
    });
}
const FNS: [&str; 8] = ["ded", "abd", "ind", "rev", "comp", "int", "neg", "dedGoal"];

fn truth(tr: &Trace, r: &mut Rng, n: usize, inp: &Option<String>) {
    if let Some(p) = inp {
        for e in read_ndjson(p) {
            let g = |k: &str| Tv::Tv { f: e[k]["f"].as_i64().unwrap() as f64 / S, c: e[k]["c"].as_i64().unwrap() as f64 / S };
            tvcall(tr, e["fn"].as_str().unwrap(), &g("a"), &g("b"));
        }
    }
    for _ in 0..n {
        // also very small, very large and equal values
        let v = |r: &mut Rng, m: i64| match r.n(8) { 0 => r.range(0, 120), 1 => m - 1 - r.range(0, 120), _ => r.range(0, m) } as f64 / S;
        let mut a = Tv::Tv { f: v(r, 10001), c: v(r, 9901) };
        let mut b = Tv::Tv { f: v(r, 10001), c: v(r, 9901) };
        match r.n(20) { 0 => { a.f = r.range(0, 90) as f64 / S; b.f = r.range(0, 90) as f64 / S; } 1 => { b.f = a.f; } 2 => { b.c = a.c; } _ => {} }
        let f = *r.pick(&FNS);
        tvcall(tr, f, &a, &b);
        log(tr, json!("exp"), || json!({"op":"exp","a":tv2j(&a),"r":fx(Tv::calcExp(&a))}));
        let cnt = r.range(1, 40);
        let pos = r.range(0, cnt + 1);
        log(tr, json!("cnt"), || {
            let e = Evidence::CNT { pos, cnt };
            let s = sentence(&Term::Name("a".to_string()), EnumPunctation::JUGEMENT, vec![1], Some(e));
            let tv = retTv(&s).unwrap();
            json!({"op":"cnt","pos":pos,"cnt":cnt,"f":fx(tv.f),"c":fx(tv.c)})
        });
    }
    // extreme confidences and long chains of revisions: stays a valid truth value
    let ext = [0.0, 1.0e-12, 0.001, 0.5, 0.99, 0.99999, 1.0 - 1.0e-9, 1.0 - 1.0e-12, 1.0 - 1.0e-16];
    let call = |a: Tv::Tv, b: Tv::Tv, name: &str| -> Tv::Tv {
        let mut out = a;
        log(tr, json!({"fn":name,"a":[a.f,a.c],"b":[b.f,b.c]}), || {
            let r = match name {
                "ded" => Tv::ded(&a, &b),
                "abd" => Tv::abd(&a, &b),
                "comp" => Tv::comp(&a, &b),
                "int" => Tv::int(&a, &b),
                "dedGoal" => Tv::dedGoal(&a, &b),
                _ => Tv::rev(&a, &b),
            };
            out = r;
            let c1 = r.c < 1.0 && r.c >= 0.0 && r.f >= 0.0 && r.f <= 1.0 && !r.c.is_nan() && !r.f.is_nan() && (a.c.max(b.c) > 1.0 - 1.0e-9 || name != "rev" || r.c >= a.c.max(b.c) - 1.0e-9);
            json!({"op":"tvx","fn":name,"a":tv2j(&a),"b":tv2j(&b),"r":tv2j(&r),"clt1":c1})
        });
        out
    };
    for ca in ext {
        for cb in ext {
            for fa in [0.0, 0.3, 1.0] {
                for fb in [0.0, 0.7, 1.0] {
                    for name in ["ded", "abd", "comp", "int", "dedGoal", "rev"] {
                        call(Tv::Tv { f: fa, c: ca }, Tv::Tv { f: fb, c: cb }, name);
                    }
                }
            }
        }
    }
    let mut acc = Tv::Tv { f: 1.0, c: 0.9 };
    for i in 0..300 {
        let b = Tv::Tv { f: if i % 3 == 0 { 0.0 } else { 1.0 }, c: if i < 200 { 0.99 } else { 1.0 - 1.0e-12 } };
        acc = call(acc, b, "rev");
    }
}

fn sentence(t: &T, p: EnumPunctation, ids: Vec<i64>, evi: Option<Evidence>) -> Sentence {
    Sentence { term: Arc::new(t.clone()), t: None, punct: p, stamp: newStamp(&ids), expDt: None, evi, usage: Arc::new(RwLock::new(Usage { lastUsed: 0, useCount: 0 })) }
}

fn rstamp(r: &mut Rng, lo: i64, hi: i64, max: usize) -> Vec<i64> {
    let n = 1 + r.n(max);
    (0..n).map(|_| r.range(lo, hi)).collect()
}
fn stamp(tr: &Trace, r: &mut Rng, n: usize) {
    for k in 0..n {
        let (a, b) = match k % 8 {
            0 => (rstamp(r, 0, 9, 4), rstamp(r, 0, 9, 4)),
            1 => (rstamp(r, 0, 50, 12), rstamp(r, 0, 50, 3)),
            2 => ((0..r.range(100, 125)).collect(), (200..r.range(201, 330)).collect()), // around the limit
            3 => ((0..r.range(1, 4)).collect(), (200..r.range(310, 330)).collect()),
            4 => { // overlap only in one (late) element
                let n1 = r.range(1, 121);
                let n2 = r.range(1, 121);
                let a: Vec<i64> = (0..n1).collect();
                let mut b: Vec<i64> = (1000..1000 + n2).collect();
                let i = if r.p(50) { b.len() - 1 } else { r.n(b.len()) };
                b[i] = if r.p(50) { *a.last().unwrap() } else { *r.pick(&a) };
                (a, b)
            }
            5 => { let a = rstamp(r, 0, 99, 20); let mut b = a.clone(); b.reverse(); (a, b) }
            6 => { let a = rstamp(r, 0, 99, 20); (a.clone(), a) }
            _ => { let a = rstamp(r, 0, 99, 20); let mut b = a.clone(); let i = r.n(b.len()); b[i] += 1; (a, b) }
        };
        let (sa, sb) = (newStamp(&a), newStamp(&b));
        log(tr, json!({"a":a,"b":b}), || json!({"op":"overlap","a":a,"b":b,"r":checkOverlap(&sa,&sb)}));
        log(tr, json!({"a":a,"b":b}), || json!({"op":"merge","a":a,"b":b,"r":merge(&sa,&sb).ids}));
        log(tr, json!({"a":a,"b":b}), || json!({"op":"same","a":a,"b":b,"r":checkSame(&sa,&sb)}));
    }
}

fn termops(tr: &Trace, t: &T, u: &T) {
    log(tr, t2j(t), || json!({"op":"subterms","a":t2j(t),"r":retSubterms(t).iter().map(|x| t2j(x)).collect::<Vec<_>>()}));
    log(tr, t2j(t), || json!({"op":"unique","a":t2j(t),"r":retUniqueSubterms(t).iter().map(|x| t2j(x)).collect::<Vec<_>>()}));
    log(tr, t2j(t), || json!({"op":"complexity","a":t2j(t),"r":calcComplexity(t)}));
    log(tr, t2j(t), || json!({"op":"clone","a":t2j(t),"r":t2j(&t.clone())}));
    log(tr, t2j(t), || json!({"op":"eq","a":t2j(t),"b":t2j(u),"r":checkEqTerm(t,u)}));
    log(tr, t2j(t), || json!({"op":"eq","a":t2j(t),"b":t2j(t),"r":checkEqTerm(t,&j2t(&t2j(t)))}));
    log(tr, t2j(t), || json!({"op":"count","a":t2j(t),"b":t2j(u),"r":count_occurence_subterms(t,u)}));
    log(tr, t2j(t), || match decodeOp(t) {
        Some((args, name)) => json!({"op":"decodeop","a":t2j(t),"some":true,"args":args.iter().map(|x| t2j(x)).collect::<Vec<_>>(),"name":name}),
        None => json!({"op":"decodeop","a":t2j(t),"some":false}),
    });
}
fn terms(tr: &Trace, r: &mut Rng, n: usize, inp: &Option<String>) {
    let g = Gen::small();
    if let Some(p) = inp {
        let cs = read_ndjson(p);
        for e in &cs {
            termops(tr, &j2t(&e["a"]), &j2t(&e["b"]));
        }
    }
    for k in 0..n {
        let t = g.term(r, 3);
        let subs = retSubterms(&t);
        let u = match k % 4 {
            0 => mutate(r, &g, &t),
            1 => r.pick(&subs).clone(),
            2 => g.term(r, 2),
            _ => t.clone(),
        };
        termops(tr, &t, &u);
        // operators
        let args: Vec<T> = (0..1 + r.n(3)).map(|_| g.term(r, 1)).collect();
        let name = r.pick(&["^a", "^op"]).to_string();
        log(tr, json!("encode"), || json!({"op":"encodeop","args":args.iter().map(|x| t2j(x)).collect::<Vec<_>>(),"name":name,"r":t2j(&encodeOp(&args,&name))}));
        let mut o = encodeOp(&args, &name);
        if r.p(60) {
            o = mutate(r, &g, &o);
        }
        termops(tr, &o, &args[0]);
    }
}

fn unifycall(tr: &Trace, a: &T, b: &T, o: &T) {
    log(tr, json!({"a":t2j(a),"b":t2j(b)}), || match unify(a, b) {
        None => json!({"op":"unify","a":t2j(a),"b":t2j(b),"some":false}),
        Some(env) => json!({"op":"unify","a":t2j(a),"b":t2j(b),"o":t2j(o),"some":true,
            "env":env.iter().map(|x| json!([t2j(&x.var),t2j(&x.val)])).collect::<Vec<_>>(),
            "sub":t2j(&unifySubst(a,&env)),"osub":t2j(&unifySubst(o,&env))}),
    });
}
fn unif(tr: &Trace, r: &mut Rng, n: usize, inp: &Option<String>) {
    if let Some(p) = inp {
        for e in read_ndjson(p) {
            let a = j2t(&e["a"]);
            let b = j2t(&e["b"]);
            unifycall(tr, &a, &b, &a);
        }
    }
    let g = Gen::small();
    for k in 0..n {
        let b = if k % 3 == 0 { g.term(r, 3) } else { Gen { names: vec!["a", "b"], vars: r.p(20) }.term(r, 3) };
        let pc = 5 + r.n(30);
        let mut a = abstract_vars(r, &b, pc);
        if r.p(25) {
            a = mutate(r, &g, &a);
        }
        let b = if r.p(25) { mutate(r, &g, &b) } else { b };
        let t3 = g.term(r, 3);
        let o = abstract_vars(r, &t3, 30);
        unifycall(tr, &a, &b, &o);
    }
}

fn concls(v: Vec<(T, Tv::Tv, EnumPunctation)>) -> Vec<Value> {
    v.iter().map(|(t, tv, p)| json!({"t":t2j(t),"f":fx(tv.f),"c":fx(tv.c),"b":100,"p":p2s(*p)})).collect()
}
fn sconcls(v: Vec<(Sentence, f64)>) -> Vec<Value> {
    v.iter()
        .map(|(s, b)| {
            let tv = retTv(s).unwrap();
            json!({"t":t2j(&s.term),"f":fx(tv.f),"c":fx(tv.c),"b":(b*100.0).round() as i64,"p":p2s(s.punct),"stamp":s.stamp.ids})
        })
        .collect()
}
fn rules1call(tr: &Trace, a: &T, p: EnumPunctation, tv: &Tv::Tv, r: &mut Rng) {
    log(tr, json!({"a":t2j(a),"p":p2s(p)}), || {
        let res = infSinglePremise(a, p, &Some(*tv));
        json!({"op":"rules1","a":t2j(a),"p":p2s(p),"tv":tv2j(tv),"r":res.iter().map(|(t,tv,p,b)| json!({"t":t2j(t),"f":fx(tv.f),"c":fx(tv.c),"b":(b*100.0).round() as i64,"p":p2s(*p)})).collect::<Vec<_>>()})
    });
    if p == EnumPunctation::JUGEMENT {
        let st = rstamp(r, 0, 9, 4);
        let s = sentence(a, p, st.clone(), Some(Evidence::TV(*tv)));
        log(tr, json!({"a":t2j(a)}), || json!({"op":"inf1","a":t2j(a),"tv":tv2j(tv),"sa":st,"r":sconcls(infSinglePremise2(&s))}));
    }
}
fn nm(x: &str) -> T {
    Term::Name(x.to_string())
}
fn rules1(tr: &Trace, r: &mut Rng, n: usize, inp: &Option<String>) {
    if let Some(p) = inp {
        for e in read_ndjson(p) {
            let tv = rtv(r);
            rules1call(tr, &j2t(&e["a"]), EnumPunctation::JUGEMENT, &tv, r);
        }
    }
    let g = Gen::small();
    for k in 0..n {
        let bx = |t: T| Box::new(t);
        let mut es = |r: &mut Rng| (0..1 + r.n(5)).map(|_| Box::new(g.term(r, 1))).collect::<Vec<_>>();
        let t = match k % 12 {
            0 => Term::Neg(bx(g.term(r, 2))),
            1 => Term::Stmt(Copula::INH, bx(Term::IntInt(es(r))), bx(g.term(r, 1))),
            2 => Term::Stmt(Copula::INH, bx(g.term(r, 1)), bx(Term::IntInt(es(r)))),
            3 => Term::Stmt(Copula::INH, bx(Term::IntInt(es(r))), bx(Term::IntInt(es(r)))),
            4 => { let v = if r.p(70) { vec![bx(g.term(r, 1)), bx(g.term(r, 1))] } else { es(r) }; Term::Stmt(Copula::INH, bx(Term::Prod(v)), bx(g.term(r, 1))) }
            5 | 6 => { let v = if r.p(70) { vec![bx(g.term(r, 1))] } else { es(r) }; Term::Stmt(Copula::INH, bx(g.term(r, 1)), bx(Term::Img(bx(g.term(r, 1)), r.n(3), v))) }
            7 => { let v = vec![bx(g.term(r, 1))]; let w = if r.p(70) { vec![bx(g.term(r, 1))] } else { es(r) };
                let f = |r: &mut Rng, v| match r.n(5) { 0 | 1 => Term::SetInt(v), 2 | 3 => Term::SetExt(v), _ => Term::Conj(v) };
                let x = f(r, v); let y = f(r, w); Term::Stmt(Copula::SIM, bx(x), bx(y)) }
            8 => { let s = g.term(r, 1); Term::Stmt(Copula::PREDIMPL, bx(s), bx(Term::Par(es(r)))) }
            9 => { let v = vec![bx(g.term(r, 1)), bx(g.term(r, 1))]; let v2 = vec![bx(g.term(r, 1)), bx(g.term(r, 1))]; Term::Stmt(Copula::INH, bx(Term::Prod(v)), bx(Term::IntInt(v2))) }
            _ => g.term(r, 3),
        };
        let t = if r.p(20) { mutate(r, &g, &t) } else { t };
        let p = if r.p(95) { EnumPunctation::JUGEMENT } else { EnumPunctation::GOAL };
        let tv = rtv(r);
        rules1call(tr, &t, p, &tv, r);
    }
    let _ = nm("a");
}

fn rules2call(tr: &Trace, a: &T, pa: EnumPunctation, b: &T, pb: EnumPunctation, r: &mut Rng) {
    let (ta, tb) = (rtv(r), rtv(r));
    let o = |p: EnumPunctation, tv: &Tv::Tv| if p == EnumPunctation::QUESTION { None } else { Some(*tv) };
    log(tr, json!({"a":t2j(a),"pa":p2s(pa),"b":t2j(b),"pb":p2s(pb)}), || {
        let mut w = false;
        let res = infBinary(a, pa, &o(pa, &ta), b, pb, &o(pb, &tb), &mut w);
        json!({"op":"rules2","a":t2j(a),"pa":p2s(pa),"tva":tv2j(&ta),"b":t2j(b),"pb":p2s(pb),"tvb":tv2j(&tb),"applied":w,"r":concls(res)})
    });
    let sa = rstamp(r, 0, 12, 3);
    let sb = if r.p(10) { sa.clone() } else { rstamp(r, 0, 12, 3) };
    let x = sentence(a, pa, sa.clone(), o(pa, &ta).map(|t| Evidence::TV(t)));
    let y = sentence(b, pb, sb.clone(), o(pb, &tb).map(|t| Evidence::TV(t)));
    log(tr, json!({"a":t2j(a),"b":t2j(b),"sa":sa,"sb":sb}), || {
        let mut w = false;
        let res = inference(&x, &y, &mut w);
        json!({"op":"inf2","a":t2j(a),"pa":p2s(pa),"tva":tv2j(&ta),"b":t2j(b),"pb":p2s(pb),"tvb":tv2j(&tb),"sa":sa,"sb":sb,"r":sconcls(res)})
    });
}
fn rules2(tr: &Trace, r: &mut Rng, n: usize, inp: &Option<String>) {
    let j = EnumPunctation::JUGEMENT;
    if let Some(p) = inp {
        for e in read_ndjson(p) {
            let (pa, pb) = (s2p(e["pa"].as_str().unwrap_or("J")), s2p(e["pb"].as_str().unwrap_or("J")));
            rules2call(tr, &j2t(&e["a"]), pa, &j2t(&e["b"]), pb, r);
        }
    }
    let g = Gen::small();
    let bx = |t: T| Box::new(t);
    for k in 0..n {
        let (mut a, mut b);
        let mut pa = j;
        let mut pb = j;
        match k % 8 {
            0 | 1 => { // shared part in some position
                let m = g.term(r, 1);
                let x = g.term(r, 1);
                let y = if r.p(15) { x.clone() } else { g.term(r, 1) };
                let cs = [Copula::INH, Copula::INH, Copula::SIM, Copula::IMPL, Copula::PREDIMPL, Copula::EQUIV];
                let c1 = *r.pick(&cs);
                let c2 = if r.p(70) { c1 } else { *r.pick(&cs) };
                let st = |r: &mut Rng, c, p: &T, q: &T| if r.p(50) { Term::Stmt(c, bx(p.clone()), bx(q.clone())) } else { Term::Stmt(c, bx(q.clone()), bx(p.clone())) };
                a = st(r, c1, &m, &x);
                b = st(r, c2, &m, &y);
            }
            2 => { // intensional sets
                let s = g.term(r, 1);
                let e = |r: &mut Rng| (0..1 + r.n(3)).map(|_| Box::new(g.atom(r))).collect::<Vec<_>>();
                let s2 = if r.p(80) { s.clone() } else { g.term(r, 1) };
                a = Term::Stmt(Copula::INH, bx(s), bx(if r.p(85) { Term::SetInt(e(r)) } else { Term::SetExt(e(r)) }));
                b = Term::Stmt(Copula::INH, bx(s2), bx(Term::SetInt(e(r))));
            }
            3 | 4 => { // conjunction elimination
                let nn = 1 + r.n(5);
                let es: Vec<T> = (0..nn).map(|_| Gen { names: vec!["a", "b", "c"], vars: false }.term(r, 1)).collect();
                b = r.pick(&es).clone();
                let t2 = g.term(r, 2);
                let concl = abstract_vars(r, &t2, 30);
                let es2: Vec<Box<T>> = es.iter().map(|x| Box::new(abstract_vars(r, x, 25))).collect();
                let c = if r.p(90) { Copula::IMPL } else { Copula::PREDIMPL };
                a = Term::Stmt(c, bx(if r.p(90) { Term::Conj(es2) } else { Term::Seq(es2) }), bx(concl));
            }
            5 => { // modus ponens with variables
                b = Gen { names: vec!["a", "b", "c"], vars: r.p(20) }.term(r, 2);
                let s = abstract_vars(r, &b, 25);
                let t2 = g.term(r, 2);
                let c = abstract_vars(r, &t2, 30);
                a = Term::Stmt(Copula::IMPL, bx(s), bx(c));
            }
            6 => { // question
                b = Gen { names: vec!["a", "b", "c"], vars: r.p(20) }.term(r, 2);
                let p = abstract_vars(r, &b, 25);
                let t2 = g.term(r, 2);
                let s = abstract_vars(r, &t2, 30);
                a = Term::Stmt(if r.p(85) { Copula::IMPL } else { Copula::PREDIMPL }, bx(s), bx(p));
                pa = EnumPunctation::QUESTION;
            }
            _ => {
                a = g.stmt(r, 2);
                b = mutate(r, &g, &a);
                if r.p(10) { pa = EnumPunctation::GOAL; }
                if r.p(5) { pb = EnumPunctation::GOAL; }
            }
        }
        if r.p(10) { a = mutate(r, &g, &a); }
        if r.p(10) { b = mutate(r, &g, &b); }
        if r.p(50) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut pa, &mut pb);
        }
        rules2call(tr, &a, pa, &b, pb, r);
    }
}

fn main() {
    quiet_panics();
    let a = args();
    let tr = Trace::create(&a.out, 120);
    let mut r = Rng::new(a.seed);
    match a.mode.as_str() {
        "truth" => truth(&tr, &mut r, a.n, &a.inp),
        "usage" => for _ in 0..a.n {
            let (uc, lu) = (r.range(0, 30), r.range(0, 60));
            let now = match r.n(4) { 0 => lu, 1 => lu + r.range(0, 4), 2 => r.range(0, 60), _ => lu + r.range(0, 400) };
            let mut u = Usage { lastUsed: lu, useCount: uc };
            let x = calcUsageUsefulness(&u, now);
            usageUpdate(&mut u, now);
            tr.ev(json!({"op":"usage","uc":uc,"lu":lu,"now":now,"r":fx(x),"uc2":u.useCount,"lu2":u.lastUsed}));
        },
        "stamp" => { stamp(&tr, &mut r, a.n); rules2(&tr, &mut r, a.n / 4, &None) }
        "terms" => terms(&tr, &mut r, a.n, &a.inp),
        "unify" => unif(&tr, &mut r, a.n, &a.inp),
        "rules1" => rules1(&tr, &mut r, a.n, &a.inp),
        "rules2" => rules2(&tr, &mut r, a.n, &a.inp),
        x => panic!("mode {}", x),
    }
    tr.finish();
}
