//! records calls of the parser and of the printer
#![allow(non_snake_case)]
use nar20_1::NarSentence::*;
use nar20_1::NarStamp::newStamp;
use nar20_1::NarseseParser::parseNarsese;
use nar20_1::Term::*;
use nar20_1::Tv;
use serde_json::{json, Value};
use vh::*;

type T = nar20_1::Term::Term;
fn parse(tr: &Trace, s: &str) {
    let s2 = s.to_string();
    match guard(|| parseNarsese(&s2)) {
        Ok(r) => {
            let r = match r { Some((t, tv, p, e)) => json!([{"t":tj(&t),"f":fx(tv.f),"c":fx(tv.c),"p":p2s(p),"e":e}]), None => json!([]) };
            tr.ev(json!({"op":"parse","c":toks(s),"r":r}));
        }
        Err(m) => tr.ev(panic_ev(json!(s), m)),
    }
}
fn print(tr: &Trace, r: &mut Rng, t: &T) {
    let mut ns = vec![];
    names(t, &mut ns);
    let ns: Vec<Vec<String>> = ns.iter().map(|x| toks(x)).collect();
    match guard(|| convTermToStr(t)) {
        Ok(s) => tr.ev(json!({"op":"print","t":tj(t),"ns":ns,"c":toks(&s)})),
        Err(m) => tr.ev(panic_ev(t2j(t), m)),
    }
    let p = *r.pick(&[EnumPunctation::JUGEMENT, EnumPunctation::GOAL, EnumPunctation::QUESTION]);
    let tv = Tv::Tv { f: r.range(0, 101) as f64 / 100.0, c: r.range(0, 100) as f64 / 100.0 };
    let se = newEternalSentenceByTv(t, p, &tv, newStamp(&vec![1]));
    match guard(|| convSentenceTermPunctToStr(&se, true)) {
        Ok(s) => {
            let pc = match p { EnumPunctation::JUGEMENT => ".", EnumPunctation::GOAL => "!", EnumPunctation::QUESTION => "?" };
            let (mut body, mut f1, mut c1, mut has) = (s.clone(), -1, -1, false);
            if s.ends_with('}') {
                if let Some(k) = s.rfind(" {") {
                    let x: Vec<f64> = s[k + 2..s.len() - 1].split(' ').filter_map(|y| y.parse().ok()).collect();
                    if x.len() == 2 { has = true; f1 = fx(x[0]); c1 = fx(x[1]); body = s[..k].to_string(); }
                }
            }
            tr.ev(json!({"op":"prints","t":tj(t),"ns":ns,"c":toks(&body),"p":pc,"tv":has,"f":fx(tv.f),"cc":fx(tv.c),"f1":f1,"c1":c1}));
        }
        Err(m) => tr.ev(panic_ev(t2j(t), m)),
    }
}

fn name(r: &mut Rng) -> String {
    let n = match r.n(10) { 0 => 1 + r.n(12), 1 => 0, _ => 1 };
    if n == 0 { return r.pick(&["SELF", "^op", "a-b", "x_1", "0", "--", "^", "-5", "e-_^9"]).to_string(); }
    (0..n).map(|_| match r.n(12) {
        0 => *r.pick(&UA),
        1 => *r.pick(&['-', '_', '^']),
        2 => *r.pick(&['0', '1', '7', '9', 'Z', 'A']),
        _ => *r.pick(&['a', 'b', 'c', 'k', 'z']),
    }).collect()
}
fn atom(r: &mut Rng) -> T {
    let n = name(r);
    match r.n(10) { 0 => Term::QVar(n), 1 => Term::DepVar(n), 2 => Term::IndepVar(n), _ => Term::Name(n) }
}
/// any term; strict: only those which have a text
fn term(r: &mut Rng, d: usize, strict: bool) -> T {
    if d == 0 || r.p(20) { return atom(r); }
    let k = r.n(14);
    let len = match k {
        0 | 4 => if strict { 2 + r.n(4) } else { 1 + r.n(4) },
        1 | 2 => if strict { 1 } else { 1 + r.n(3) },
        3 => if strict { 2 + r.n(3) } else { 1 + r.n(5) },
        5 | 6 => if strict { 2 } else { 1 + r.n(4) },
        7 => 1 + r.n(3),
        _ => if strict { 1 } else { 1 + r.n(2) },
    };
    let mut es = || (0..len).map(|_| Box::new(term(r, d - 1, strict))).collect::<Vec<_>>();
    match k {
        0 => Term::Seq(es()),
        1 => Term::SetInt(es()),
        2 => Term::SetExt(es()),
        3 => Term::Conj(es()),
        4 => Term::Prod(es()),
        5 => Term::IntInt(es()),
        6 => Term::ExtInt(es()),
        7 if !strict => Term::Par(es()),
        8 => Term::Neg(Box::new(term(r, d - 1, strict))),
        9 => { let v = es(); let i = r.n(2); Term::Img(Box::new(term(r, d - 1, strict)), i, v) }
        _ => {
            let c = *r.pick(&[Copula::INH, Copula::INH, Copula::SIM, Copula::PREDIMPL, Copula::IMPL, Copula::EQUIV]);
            Term::Stmt(c, Box::new(term(r, d - 1, strict)), Box::new(term(r, d - 1, strict)))
        }
    }
}
fn tvtext(r: &mut Rng) -> String {
    let num = |r: &mut Rng| match r.n(9) {
        0 => format!("{}", r.n(3)),
        1 => r.pick(&["0.99999", "1.0", "1.00", "0.0", ".5", "1.", "0.", "1.0001", "2.5", "00.5", "0.12345678", "1.1", "10", "0.99"]).to_string(),
        2 => r.pick(&["", ".", "x", "0.5x", "0..5", "0.5.5", "nan", "inf", "-0.5", "0,5"]).to_string(),
        _ => format!("0.{}", r.range(0, 10000)),
    };
    let a = num(r);
    let b = num(r);
    match r.n(25) { 0 => format!("{{{}}}", a), 1 => format!("{{{}  {}}}", a, b), 2 => format!("{{{} {} {}}}", a, b, a), 3 => format!("{{ {} {}}}", a, b), 4 => format!("{{{} {} }}", a, b), 5 => format!("{{{};{}}}", a, b), 6 => "{}".to_string(), _ => format!("{{{} {}}}", a, b) }
}
fn sentence(r: &mut Rng, t: &T) -> String {
    let mut s = t2n(t);
    if r.p(25) {
        // spaces around the sign of products
        let k = r.n(4);
        s = s.replace("*", ["* ", " *", " * ", "   *  "][k]);
    }
    if r.p(3) { s.push_str(*r.pick(&[" ", "  ", " x", "x", ">", ")", " & b", "\t"])); }
    s.push_str(*r.pick(&[".", ".", ".", "!", "?", "", ";", "..", "?!"]));
    if r.p(45) {
        s.push_str(*r.pick(&[" ", " ", " ", " ", "", "  ", "\t"]));
        s.push_str(&tvtext(r));
    }
    if r.p(35) { s.push_str(*r.pick(&[" :|:", " :|:", " :|:", " :|:", ":|:", "  :|:", " :\\:", " :|: "])); }
    s
}
fn edit(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let alpha: Vec<char> = "<>(){}[]-=/&|*,!?.$#^_ :ab019~\"\\;+".chars().chain(UA).chain(UW).chain(UO).collect();
    for _ in 0..(1 + r.n(3)) {
        if c.is_empty() { c.push(*r.pick(&alpha)); continue; }
        let i = r.n(c.len());
        match r.n(6) {
            0 => { c.remove(i); }
            1 => c.insert(i, *r.pick(&alpha)),
            2 => c[i] = *r.pick(&alpha),
            3 => { let j = r.n(c.len()); c.swap(i, j); }
            4 => { let j = i + r.n(c.len() - i) / 2; let x: Vec<char> = c[i..=j.min(c.len() - 1)].to_vec(); for (k, y) in x.into_iter().enumerate() { c.insert(i + k, y); } }
            _ => { c.truncate(i + 1); }
        }
        c.truncate(160);
    }
    c.into_iter().collect()
}
fn main() {
    quiet_panics();
    let a = args();
    let tr = Trace::create(&a.out, 60);
    let mut r = Rng::new(a.seed);
    match a.mode.as_str() {
        "cases" => {
            let mut v = read_ndjson(a.inp.as_ref().unwrap());
            for i in (1..v.len()).rev() { let j = r.n(i + 1); v.swap(i, j); }
            for x in v.iter().take(a.n) { parse(&tr, &untok(&x["c"])); }
        }
        "gen" => for _ in 0..a.n {
            let d = 1 + r.n(4);
            let t = term(&mut r, d, true);
            let s = sentence(&mut r, &t);
            if s.chars().count() > 220 { continue; }
            parse(&tr, &s);
            if r.p(60) { let s2 = edit(&mut r, &s); parse(&tr, &s2); }
            if r.p(30) { let d = 1 + r.n(3); let t2 = term(&mut r, d, false); print(&tr, &mut r, &t2); }
        },
        "odd" => {
            // deep nesting, long names, arbitrary texts
            for k in [1, 2, 5, 9, 14, 25, 40] {
                for (o, m, c) in [("(", "a", ",b)"), ("(", "a", "*b)"), ("(!", "a", ")"), ("<", "a", " --> b>"), ("{", "a", "}"), ("[", "a", "]"), ("(b,", "a", ")"), ("(a&&b&&c&&", "d", ")"), ("(", "a", "&&b&&c)"), ("((", "a", "|b)&c)"), ("(", "a", " /1 b)"), ("(", "", ""), ("(!", "", ""), ("(a*", "b", ""), ("(", "a", ")")] {
                    parse(&tr, &format!("{}{}{}.", o.repeat(k), m, c.repeat(k)));
                }
            }
            // the limit of the nesting, and beyond what the stack can hold; within the stack of a thread of the server
            let deep = std::thread::Builder::new().stack_size(2 << 20);
            let evs: Vec<serde_json::Value> = deep.spawn(|| {
                let mut evs = vec![];
                for (o, m, c) in [("(", "a", ",b)"), ("(!", "a", ")"), ("<", "a", " --> b>"), ("<b =/> ", "a", ">"), ("{", "a", "}"), ("(b*", "a", ")"), ("(", "a", "&&b&&c)"), ("(", "a", " /1 b)"), ("(", "a", "|b)"), ("(", "", "")] {
                    for k in [98usize, 99, 100, 101, 102, 150, 1000, 6000] {
                        let s = format!("{}{}{}. :|:", o.repeat(k), m, c.repeat(k));
                        let r = nar20_1::NarseseParser::parseNarsese(&s);
                        evs.push(json!({"op":"deep","o":o,"k":k,"m":m,"ok":r.is_some()}));
                        std::mem::forget(r);
                    }
                }
                evs
            }).unwrap().join().unwrap();
            for e in evs { tr.ev(e); }
            for k in [1, 2, 511, 512, 513, 600] { parse(&tr, &format!("{}.", "a".repeat(k))); parse(&tr, &format!("<{} --> ${}>. :|:", "b".repeat(k), "c".repeat(k))); }
            let alpha: Vec<char> = "<>(){}[]-=/&|*,!?.$#^_ :ab019".chars().collect();
            let all: Vec<char> = (32u8..127).map(|x| x as char).chain(UA).chain(UW).chain(UO).collect();
            for _ in 0..a.n {
                let n = r.n(26);
                let s: String = (0..n).map(|_| if r.p(85) { *r.pick(&alpha) } else { *r.pick(&all) }).collect();
                let s = match r.n(5) { 0 => format!("{}.", s), 1 => format!("<{} --> {}>.", r.pick(&["a", "(a*b)", "?x"]), s), 2 => format!("a. {{{}}}", s), 3 => format!("({},a)!", s), _ => s };
                parse(&tr, &s);
            }
        }
        "lines" => {
            // Narsese lines of a file
            let text = std::fs::read_to_string(a.inp.as_ref().unwrap()).unwrap();
            for l in text.lines() {
                let l = l.trim_end_matches('\r');
                if l.is_empty() || l.starts_with('!') || l.starts_with("//") || !l.is_ascii() { continue; }
                parse(&tr, l);
            }
        }
        x => panic!("mode {}", x),
    }
    tr.finish();
}
