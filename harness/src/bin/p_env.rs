//! the Pong and tic-tac-toe environments: single steps from arbitrary states, and what whole runs print
#![allow(non_snake_case)]
use nar20_1::EnvPong3::{makeEnvState, simStep, EnvState};
use serde_json::{json, Value};
use std::io::{BufRead, BufReader};
use std::process::{Command, Stdio};
use vh::*;

fn e2j(e: &EnvState) -> Value {
    json!({"szX":e.szX,"szY":e.szY,"ballX":e.ballX,"ballY":e.ballY,"batX":e.batX,"batVX":e.batVX,"batWidth":e.batWidth,"vX":e.vX,"vY":e.vY,"mulVX":e.mulVX,"hits":e.hits,"misses":e.misses,"t":e.t})
}
fn steps(tr: &Trace, r: &mut Rng, n: usize) {
    let mut rng = rand::thread_rng();
    let mut k = 0;
    while k < n {
        tr.beat();
        let mut e = makeEnvState();
        e.verbosity = 0;
        if k == 0 { tr.ev(json!({"op":"make","e":e2j(&e)})); }
        let real = r.p(40);
        if !real {
            e.szX = 4 + r.n(60) as i64;
            e.szY = 4 + r.n(30) as i64;
            e.batWidth = r.n(9) as i64;
            if r.p(30) { e.mulVX = r.n(3) as i64; }
        }
        e.ballX = if r.p(20) { *r.pick(&[0, 1, e.szX - 2, e.szX - 1]) } else { r.n(e.szX as usize) as i64 };
        e.ballY = if r.p(45) { *r.pick(&[0, 1, 1, 1, 2, e.szY - 2, e.szY - 1]) } else { r.n(e.szY as usize) as i64 };
        e.batX = if r.p(50) { e.ballX + r.n(2 * e.batWidth as usize + 7) as i64 - e.batWidth - 3 } else { r.n((e.szX + e.batWidth) as usize) as i64 };
        e.batVX = r.n(3) as i64 - 1;
        if r.p(10) { e.batVX = r.n(9) as i64 - 4; }
        e.vX = if r.p(50) { 1 } else { -1 };
        e.vY = if r.p(30) { 1 } else { -1 };
        e.hits = r.n(5) as i64;
        e.misses = r.n(5) as i64;
        e.t = r.n(1000) as i64;
        let len = if r.p(70) { 1 } else { 2 + r.n(60) };
        for _ in 0..len {
            if r.p(8) { e.batVX = if r.p(50) { 1 } else { -1 }; }
            let a = e2j(&e);
            match guard(|| simStep(&mut e, &mut rng)) {
                Ok(()) => tr.ev(json!({"op":"step","a":a,"b":e2j(&e),"spawned":e.was_ball_spawned})),
                Err(m) => tr.ev(json!({"op":"panic","a":a,"msg":m})),
            }
            k += 1;
        }
    }
}
/// lines printed by a run in a child process
fn printed(tr: &Trace, what: &str, n: usize, mut f: impl FnMut(&str)) {
    let me = std::env::current_exe().unwrap();
    let mut c = Command::new(me).args(["child", what, "0", &n.to_string()]).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
    let mut rd = BufReader::new(c.stdout.take().unwrap());
    let mut buf = vec![];
    loop {
        buf.clear();
        if rd.read_until(b'\n', &mut buf).unwrap() == 0 { break; }
        tr.beat();
        f(String::from_utf8_lossy(&buf).trim_end_matches('\n'));
    }
    let s = c.wait().unwrap();
    if !s.success() { tr.ev(json!({"op":"died","rc":s.code()})); }
}
fn field(s: &str, k: &str) -> Option<i64> {
    let p = s.find(k)? + k.len();
    let t: String = s[p..].chars().take_while(|c| c.is_ascii_digit() || *c == '-').collect();
    t.parse().ok()
}
struct It { p: String, x: i64, bat: i64, diff: i64, calls: Vec<String>, out: Vec<String>, hits: i64, misses: i64, t: i64 }
fn pong(tr: &Trace, n: usize) {
    let mut cur: Option<It> = None;
    let mut fin: Option<(i64, i64)> = None;
    let mut ratio = String::new();
    tr.ev(json!({"op":"start"}));
    let put = |i: &It, x2: i64| tr.ev(json!({"op":"it","p":i.p,"x":i.x,"bat":i.bat,"diff":i.diff,"calls":i.calls,"out":i.out,"hits":i.hits,"misses":i.misses,"t":i.t,"x2":x2}));
    printed(tr, "pong", n, |l| {
        if l.contains(" ballX=") && l.contains(" batX=") {
            let i = It { p: l.split_whitespace().next().unwrap_or("").to_string(), x: field(l, "ballX=").unwrap_or(-99), bat: field(l, "batX=").unwrap_or(-99), diff: field(l, "diff=").unwrap_or(-999), calls: vec![], out: vec![], hits: -1, misses: -1, t: -1 };
            if let Some(c) = &cur { put(c, i.x); }
            cur = Some(i);
        } else if let Some(c) = l.strip_prefix("CALL ") { if let Some(i) = &mut cur { i.calls.push(c.trim().to_string()); } }
        else if let Some(c) = l.strip_prefix("env: ") { if let Some(i) = &mut cur { i.out.push(c.trim().to_string()); } }
        else if l.starts_with("PONG") { if let Some(i) = &mut cur { i.hits = field(l, "Hits=").unwrap_or(-1); i.misses = field(l, "misses=").unwrap_or(-1); i.t = field(l, "time=").unwrap_or(-1); } }
        else if l.starts_with("[i] env hits=") { fin = Some((field(l, "hits=").unwrap_or(-1), field(l, "misses=").unwrap_or(-1))); }
        else if let Some(r) = l.strip_prefix("RATIO ") { ratio = r.to_string(); }
    });
    if let Some(c) = &cur { put(c, -1); }
    let (h, m) = fin.unwrap_or((-1, -1));
    // the ratio as it has to be
    let want = h as f64 / (h + m) as f64;
    let ok = ratio.parse::<f64>().map(|r| (r - want).abs() < 1e-9 || (r.is_nan() && want.is_nan())).unwrap_or(false);
    tr.ev(json!({"op":"end","hits":h,"misses":m,"ratio":ok}));
}
fn tictac(tr: &Trace, n: usize) {
    tr.ev(json!({"op":"start"}));
    printed(tr, "ttt", n, |l| {
        if let Some(s) = l.strip_prefix("NARS stimulus: ") { tr.ev(json!({"op":"stim","s":s.trim().chars().map(|c| c.to_string()).collect::<Vec<_>>()})); }
        else if let Some(c) = l.strip_prefix("CALL ^") { tr.ev(json!({"op":"call","k":c.trim().parse::<i64>().unwrap_or(-1)})); }
        else if l.starts_with("Gamestate {") {
            // Gamestate { field: ['a', ' ', ...], player: true }
            let cells: Vec<String> = l.split('\'').collect::<Vec<_>>().iter().enumerate().filter(|(i, _)| i % 2 == 1).map(|(_, s)| s.to_string()).collect();
            tr.ev(json!({"op":"state","cell":cells,"a":l.contains("player: true")}));
        }
        else if let Some(w) = l.strip_prefix("WINNER: ") { tr.ev(json!({"op":"winner","w":w.trim()})); }
        else if l.starts_with("DRAW!") { tr.ev(json!({"op":"draw"})); }
    });
    tr.ev(json!({"op":"end","n":n}));
}
fn main() {
    if std::env::args().nth(1).as_deref() == Some("child") {
        let n: i64 = std::env::args().nth(4).unwrap().parse().unwrap();
        match std::env::args().nth(2).as_deref() {
            Some("pong") => { let r = nar20_1::Reasoner1Entry::reasoner1Entry(); println!("RATIO {}", r); }
            _ => nar20_1::ProcTicTacToe::run(n),
        }
        return;
    }
    let a = args();
    let tr = Trace::create(&a.out, 120);
    let mut r = Rng::new(a.seed);
    match a.mode.as_str() {
        "steps" => steps(&tr, &mut r, a.n),
        "pong" => for _ in 0..a.n { pong(&tr, 0) },
        "tictac" => tictac(&tr, a.n),
        x => panic!("mode {}", x),
    }
    tr.finish();
}
