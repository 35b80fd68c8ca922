//! generator of lines for the input facade: Narsese and commands, well-formed and not
use crate::*;
pub fn atom(r: &mut Rng) -> String {
    match r.n(12) { 0 => format!("${}", r.pick(&["x", "y"])), 1 => r.pick(&["Ж1", "中", "äß", "x_y", "n-1"]).to_string(), _ => r.pick(&["a", "b", "c", "d", "e", "f", "g", "h", "k", "m"]).to_string() }
}
pub fn event(r: &mut Rng) -> String {
    match r.n(5) { 0 => format!("<{} --> {}>", r.pick(&["a", "b"]), r.pick(&["c", "d"])), 1 => format!("({},{})", r.pick(&["a", "b"]), r.pick(&["c", "d"])), _ => r.pick(&["a", "b", "c", "g", "h"]).to_string() }
}
pub fn op(r: &mut Rng) -> String { format!("<{{({{SELF}}*{})}} --> ^{}>", r.pick(&["x", "y"]), r.pick(&["l", "r", "nop"])) }
pub fn stmt(r: &mut Rng) -> String {
    let (a, b) = (atom(r), atom(r));
    match r.n(8) {
        0 => format!("<{} <-> {}>", a, b),
        1 => format!("<({}*{}) --> {}>", a, b, atom(r)),
        2 => format!("<<{} --> {}> ==> <{} --> {}>>", a, b, a, atom(r)),
        3 => format!("<{{{}}} --> [{}]>", a, b),
        4 => a,
        _ => format!("<{} --> {}>", a, b),
    }
}
pub fn big(r: &mut Rng) -> String { let n = 60 + r.n(12); (0..n).map(|_| "a".to_string()).collect::<Vec<_>>().join("*") }
pub fn tv(r: &mut Rng) -> String { match r.n(5) { 0 => format!(" {{0.{} 0.{}}}", r.n(10), r.n(10)), 1 => " {1.0 0.9}".to_string(), 2 => r.pick(&[" {1.2 0.9}", " {0.5 1.0}", " {x 0.5}", " {0.5}"]).to_string(), _ => String::new() } }
pub fn narsese(r: &mut Rng, steps: bool) -> String {
    match r.n(16) {
        0..=4 => format!("{}.{}", stmt(r), tv(r)),
        5 => format!("{}?", stmt(r)),
        6..=8 => format!("{}. :|:", event(r)),
        9 if !steps => format!("{}! :|:", event(r)),
        10 | 11 => match r.n(4) { 0 => format!("<{} =/> {}>.", event(r), event(r)), 1 => format!("<({},{},{}) =/> {}>.", event(r), op(r), op(r), event(r)), _ => format!("<({},{}) =/> {}>.", event(r), op(r), event(r)) },
        12 => format!("<({},{}) =/> {}>?", event(r), op(r), event(r)),
        13 => match r.n(4) { 0 => format!("{}!", event(r)), 1 => format!("<{} =/> {}>!", event(r), event(r)), 2 => format!("{}? :|:", stmt(r)), _ => format!("({}).", big(r)) },
        14 => match r.n(3) { 0 => format!("({})?", big(r)), 1 => format!("{}. :|:", op(r)), _ => format!("{}. {{0.9 0.5}} :|:", event(r)) },
        _ => r.pick(&["<a --> b>", "a b.", "<a -> b>.", "((a.", "hello world", "?", ".", "a. :|: ", "<a --> b>. {0.5 0.5} x"]).to_string(),
    }
}
pub fn command(r: &mut Rng) -> String {
    match r.n(20) {
        0 => "!spA".to_string(),
        1 => "!spB".to_string(),
        2 => r.pick(&["!sp", "!sp", "!sp5", "!spAB", "!spC", "!sp A", "!spBx", "!spB1", "!spAx", "!spB ", "!spA "]).to_string(),
        3 => "!s".to_string(),
        4 | 5 => format!("!s{}", r.n(6)),
        6 => r.pick(&["!s0", "!s007", "!s+2", "!s-3", "!s 3", "!s3 ", "!sx", "!s3x", "!s99999999999999999999999", "!s12", "!s1.5", "!s٣", "!s½"]).to_string(),
        7 => "!dtf".to_string(),
        8 => r.pick(&["!por execinj", "!por nlpRel0"]).to_string(),
        9 => format!("!por NOP {}", r.pick(&["^nop", "^l", "^r", "^中", "x"])),
        10 => r.pick(&["!por NOP", "!por", "!por ", "!por nop ^x", "!por NOP ^a ^b", "!por execinj ^x", "!por xyz", "!por   NOP   ^two ", "!por\tNOP ^x", "!por nlpRel0  ", "!por NOP\u{3000}^w"]).to_string(),
        11 => "!pse".to_string(),
        12 => r.pick(&["!peb 0", "!peb 1"]).to_string(),
        13 => r.pick(&["!peb", "!peb 2", "!peb 10", "!peb  1", "!peb1", "!PEB 1", "!peb 00", "!peb 01", "!peb 0 ", "!peb 1 ", "!peb 0x"]).to_string(),
        14 => "!dt".to_string(),
        15 => "!dmd".to_string(),
        16 => "!QQ".to_string(),
        17 => r.pick(&["", "\n", "\r\n", "//", "// comment", "//!QQ", "//<a --> b>.", "//!s5", " // x", "/", "/ /"]).to_string(),
        18 => r.pick(&["!QQQ", "!Q", "!qq", " !QQ", "!QQ ", "!dtx", "!dtfx", "!dmdx", "!dm", "!d", "!", "!!", "!x", "!.nlp", "!.nlx a", "QQ", "! s", "!D"]).to_string(),
        _ => r.pick(&["!spA\n", "!s2\r\n", "!QQ\n", "!dmd\r\n", "!peb 1\n", "<a --> b>.\n", "a. :|:\r\n"]).to_string(),
    }
}
/// cycle counts must stay small
pub fn fits(s: &str) -> bool {
    !s.starts_with("!.nlp ") && !(s.starts_with("!s") && s[2..].trim_end().parse::<i64>().map_or(false, |n| n > 130))
}
pub fn edit(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let alpha: Vec<char> = "!<>(){}-=/&|*,?.$ :abs012pdtQ".chars().chain(UA).chain(UW).chain(UO).collect();
    let i = r.n(c.len() + 1);
    match r.n(3) { 0 => c.insert(i, *r.pick(&alpha)), 1 => { if i < c.len() { c.remove(i); } } _ => { if i < c.len() { c[i] = *r.pick(&alpha); } } }
    c.into_iter().collect()
}
