//! crates/easter's operators: the text of each, both ways, and how tightly it binds.
use crate::ast::{assop, binop, logop, unop};
use crate::lex::text;
use crate::par::source;
use crate::sx::*;
use easter::punc::{Assop, Binop, Logop, Precedence, Unop};

const UNOPS: [&'static str; 7] = ["-", "+", "!", "~", "typeof", "void", "delete"];
pub const BINOPS: [&'static str; 21] =
    ["==", "!=", "===", "!==", "<", "<=", ">", ">=", "<<", ">>", ">>>", "+", "-", "*", "/", "%", "|", "^", "&", "in", "instanceof"];
const LOGOPS: [&'static str; 2] = ["||", "&&"];
const ASSOPS: [&'static str; 11] = ["+=", "-=", "*=", "/=", "%=", "<<=", ">>=", ">>>=", "|=", "^=", "&="];
/// the level of the grammar each operator belongs to
const BINLEVEL: [u32; 21] = [6, 6, 6, 6, 7, 7, 7, 7, 8, 8, 8, 9, 9, 10, 10, 10, 3, 4, 5, 7, 7];
const LOGLEVEL: [u32; 2] = [1, 2];

fn find(s: &str, table: &[&str]) -> Option<u32> {
    let mut i = 0;
    for t in table {
        if *t == s {
            return Some(i);
        }
        i += 1;
    }
    None
}

/// params: 0; 0 unary, 1 binary, 2 logical, 3 assigning; template.
#[no_mangle]
pub fn h_ops() {
    let kind = param(1);
    let cs = source(2);
    let s = text(&cs, (0, cs.len()));
    guard(HARNESS);
    let (want, got, back) = match kind {
        0 => {
            let w = find(&s, &UNOPS);
            guard(CLAIMED);
            let r: Result<Unop, ()> = s.parse();
            guard(HARNESS);
            (w, r.ok().map(|o| unop(&o.tag)), None)
        }
        1 => {
            let w = find(&s, &BINOPS);
            guard(CLAIMED);
            let r: Result<Binop, ()> = s.parse();
            let b = r.as_ref().ok().map(|o| o.to_string());
            guard(HARNESS);
            (w, r.ok().map(|o| binop(&o.tag)), b)
        }
        2 => {
            let w = find(&s, &LOGOPS);
            guard(CLAIMED);
            let r: Result<Logop, ()> = s.parse();
            let b = r.as_ref().ok().map(|o| o.to_string());
            guard(HARNESS);
            (w, r.ok().map(|o| logop(&o.tag)), b)
        }
        _ => {
            let w = find(&s, &ASSOPS);
            guard(CLAIMED);
            let r: Result<Assop, ()> = s.parse();
            let b = r.as_ref().ok().map(|o| o.to_string());
            guard(HARNESS);
            (w, r.ok().map(|o| assop(&o.tag)), b)
        }
    };
    reach(if want.is_some() { 0 } else { 1 });
    check(want == got, 8);
    if let Some(b) = back {
        check(b == s, 9);
    }
}

/// any two operators, the first binary or logical, the second too: which binds tighter
#[no_mangle]
pub fn h_prec() {
    fn pick(c: u64) -> (u32, u32) {
        guard(HARNESS);
        let c = c as usize;
        if c < 21 {
            let o: Binop = BINOPS[c].parse().unwrap();
            guard(CLAIMED);
            (BINLEVEL[c], o.precedence())
        } else {
            let o: Logop = LOGOPS[c - 21].parse().unwrap();
            guard(CLAIMED);
            (LOGLEVEL[c - 21], o.precedence())
        }
    }
    let a = pick(choice(23));
    let b = pick(choice(23));
    guard(HARNESS);
    reach(0);
    check((a.0 < b.0) == (a.1 < b.1) && (a.0 == b.0) == (a.1 == b.1), 10);
    let o: Assop = "+=".parse().unwrap();
    check(o.precedence() < a.1, 11);
}
