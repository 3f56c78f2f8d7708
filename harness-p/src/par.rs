//! esprit's entry points against the reference parser.
use crate::ast::{Out, Put, ASI, SEMI};
use crate::lex::text;
use crate::refp::{Why, NOWHERE, P};
use crate::sx::*;
use easter::cover::Error as Cover;
use easter::stmt::{Module, Script};
use esprit::error::Error;
use esprit::result::Result as Res;
use joker::track::{Posn, TrackingRef, Untrack};

/// params[at + c * w], one term without a branch
fn pick(c: u64, at: usize, w: usize, lo: usize, hi: usize) -> u64 {
    if hi - lo == 1 {
        return param(at + lo * w);
    }
    let mid = (lo + hi) / 2;
    ite(c < mid as u64, pick(c, at, w, lo, mid), pick(c, at, w, mid, hi))
}
/// Like lex::source, plus 2<<32 | k: one of several spellings of the same width, stored at
/// params[k]: count, width, then the characters.  The spelling stays symbolic.
pub fn source(at: usize) -> Vec<char> {
    let n = param(at) as usize;
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        let p = param(at + 1 + i);
        let k = (p & 0xffff_ffff) as usize;
        match p >> 32 {
            0 => v.push(char::from_u32(p as u32).unwrap()),
            1 => {
                let m = param(k) as usize;
                let mut set: Vec<[u32; 2]> = Vec::with_capacity(m);
                for j in 0..m {
                    let x = param(k + 1 + j);
                    set.push([(x >> 32) as u32, x as u32]);
                }
                v.push(sym_char(&set));
            }
            _ => {
                let m = param(k) as usize;
                let w = param(k + 1) as usize;
                let c = choice(m as u64);
                for j in 0..w {
                    let x = pick(c, k + 2 + j, w, 0, m);
                    // every spelling is ASCII
                    v.push((x as u8 & 127) as char);
                }
            }
        }
    }
    v
}

pub enum Tree {
    Script(Script),
    Module(Module),
}
impl Tree {
    fn untrack(&mut self) {
        match *self {
            Tree::Script(ref mut s) => s.untrack(),
            Tree::Module(ref mut m) => m.untrack(),
        }
    }
    pub fn out(&self) -> Out {
        let mut o = Out::new();
        match *self {
            Tree::Script(ref s) => s.put(&mut o),
            Tree::Module(ref m) => m.put(&mut o),
        }
        o
    }
}
pub fn parse(s: &str, mode: u64) -> Res<Tree> {
    match mode {
        0 => esprit::script(s).map(Tree::Script),
        1 => esprit::strict(s).map(Tree::Script),
        3 => esprit::program(s).and_then(|p| p.script()).map(Tree::Script),
        4 => esprit::program(s).and_then(|p| p.strict()).map(Tree::Script),
        5 => esprit::program(s).and_then(|p| p.module()).map(Tree::Module),
        _ => esprit::module(s).map(Tree::Module),
    }
}
pub fn same(a: &[u32], b: &[u32]) -> bool {
    let mut eq = a.len() == b.len();
    let mut i = 0;
    while i < a.len() && i < b.len() {
        eq &= a[i] == b[i];
        i += 1;
    }
    eq
}

pub const TREE: u64 = 1;
pub const REASON: u64 = 2;
pub const PLACE: u64 = 3;
pub const TOTAL: u64 = 4;
pub const UNTRACK: u64 = 5;
pub const WHERE: u64 = 6;

/// params: check, entry point (0 script, 1 strict, 2 module; 3 to 5: program, then the same), template
#[no_mangle]
pub fn h_par() {
    let what = param(0);
    let mode = param(1);
    let cs = source(2);
    let s = text(&cs, (0, cs.len()));
    guard(HARNESS);
    if what == TOTAL {
        guard(CLAIMED);
        let r = parse(&s, mode);
        reach(if r.is_ok() { 0 } else { 1 });
        return;
    }
    if what == UNTRACK {
        return untrack(&s, mode);
    }
    let mut p = P::new(&cs, mode % 3 != 0, mode % 3 == 2);
    let want = p.program();
    for i in 0..16 {
        if p.seen >> i & 1 == 1 {
            reach(16 + i);
        }
    }
    match want {
        Ok(()) => {
            guard(if what == PLACE { OUTSIDE } else { CLAIMED });
            let got = parse(&s, mode);
            guard(HARNESS);
            match got {
                Ok(t) => {
                    let o = t.out();
                    if what == TREE {
                        reach(0);
                        check(same(&o.v, &p.o.v), 2);
                    } else if what == PLACE {
                        reach(0);
                        if same(&o.v, &p.o.v) {
                            places(&cs, &o, &p.o);
                        }
                    }
                }
                Err(_) => {
                    if what == TREE {
                        fail(1)
                    }
                }
            }
        }
        Err(rej) => {
            if rej.why == Why::Unclaimed {
                guard(OUTSIDE);
                let _ = parse(&s, mode);
                reach(2);
                return;
            }
            guard(if what == TREE { CLAIMED } else { OUTSIDE });
            let got = parse(&s, mode);
            guard(HARNESS);
            match got {
                Ok(_) => {
                    if what == TREE {
                        fail(3)
                    }
                }
                Err(e) => {
                    reach(1);
                    if what == REASON {
                        reason(&e, rej.why)
                    } else if what == WHERE && rej.why != Why::Lex && rej.at != NOWHERE {
                        place_of(&cs, &e, rej.at)
                    }
                }
            }
        }
    }
}

type Places = Vec<(usize, Option<(u32, u32)>)>;
/// every node the reference places stands in the same place in the tree
pub fn agree(got: &Places, want: &Places) -> bool {
    let mut i = 0;
    let mut eq = true;
    for w in want {
        while i < got.len() && got[i].0 < w.0 {
            i += 1;
        }
        if i == got.len() || got[i].0 != w.0 {
            return false;
        }
        eq &= got[i].1 == w.1;
    }
    eq
}
fn places(cs: &[char], got: &Out, want: &Out) {
    check(agree(&got.loc, &want.loc), 13);
    check(agree(&got.small, &want.small), 14);
    let at = lines(cs);
    let mut eq = true;
    for p in &got.posn {
        eq &= placed(&at, p);
    }
    check(eq, 15);
}
/// the line and column of each offset
fn lines(cs: &[char]) -> Vec<(u32, u32)> {
    let mut at = vec![(0u32, 0u32)];
    for i in 0..cs.len() {
        let (l, c) = at[i];
        let lf = cs[i] == '\n' || cs[i] == '\u{2028}' || cs[i] == '\u{2029}' || cs[i] == '\r' && !(i + 1 < cs.len() && cs[i + 1] == '\n');
        at.push(if lf { (l + 1, 0) } else { (l, c + 1) });
    }
    at
}
/// a position's line and column are those of its offset
fn placed(at: &Vec<(u32, u32)>, p: &Posn) -> bool {
    let i = p.offset as usize;
    i < at.len() && at[i] == (p.line, p.column)
}

/// the error stands where the reference finds the first fault
fn place_of(cs: &[char], e: &Error, want: usize) {
    let l = match *e {
        // the lexer's errors have no location
        Error::LexError(_) => return,
        Error::UnexpectedToken(ref t) | Error::FailedASI(ref t) | Error::IllegalBreak(ref t) | Error::IllegalContinue(ref t) => Some(t.location),
        Error::DuplicateDefault(ref t) | Error::StrictWith(ref t) | Error::ThrowArgument(ref t) | Error::OrphanTry(ref t) => Some(t.location),
        Error::TopLevelReturn(l) | Error::ContextualKeyword(l, _) | Error::IllegalStrictBinding(l, _) | Error::ForOfLetExpr(l) => Some(l),
        Error::InvalidLabel(ref id) | Error::InvalidLabelType(ref id) => *id.tracking_ref(),
        Error::InvalidLHS(l, _) => l,
        _ => None,
    };
    reach(3);
    match l {
        None => fail(16),
        Some(l) => {
            check(l.start.offset as usize == want, 16);
            let at = lines(cs);
            check(placed(&at, &l.start) && placed(&at, &l.end) && l.start.offset <= l.end.offset, 17);
            // what exactly cannot be assigned to is the target or a part of it
            if let Error::InvalidLHS(_, ref c) = *e {
                let c = match *c {
                    Cover::InvalidAssignTarget(c) | Cover::InvalidPropPatt(c) => c,
                };
                let whole = cs[want] != '[' && cs[want] != '{';
                check(match c {
                    None => false,
                    Some(c) => if whole {
                        c == l
                    } else {
                        placed(&at, &c.start) && placed(&at, &c.end) && l.start.offset <= c.start.offset && c.start.offset < c.end.offset && c.end.offset <= l.end.offset
                    },
                }, 18);
            }
        }
    }
}

fn reason(e: &Error, why: Why) {
    let lex = match *e {
        Error::LexError(_) => true,
        _ => false,
    };
    let ok = match why {
        Why::Lex | Why::Token | Why::Unclaimed => return,
        Why::Return => matches!(*e, Error::TopLevelReturn(_)),
        Why::Break => matches!(*e, Error::IllegalBreak(_)),
        Why::Continue => matches!(*e, Error::IllegalContinue(_)),
        Why::Label => matches!(*e, Error::InvalidLabel(_)),
        Why::LabelType => matches!(*e, Error::InvalidLabelType(_)),
        Why::DuplicateDefault => matches!(*e, Error::DuplicateDefault(_)),
        Why::With => matches!(*e, Error::StrictWith(_)),
        Why::Throw => matches!(*e, Error::ThrowArgument(_)),
        Why::Try => matches!(*e, Error::OrphanTry(_)),
        Why::Target => matches!(*e, Error::InvalidLHS(..)),
        Why::Binding => matches!(*e, Error::IllegalStrictBinding(..)),
        Why::Word => matches!(*e, Error::ContextualKeyword(..)),
    };
    reach(3);
    check(ok || lex, 4);
}

/// a tree without its locations is the same tree
fn untrack(s: &str, mode: u64) {
    guard(OUTSIDE);
    let mut t = match parse(s, mode % 3) {
        Ok(t) => t,
        Err(_) => {
            reach(1);
            return;
        }
    };
    let late = if mode < 3 { None } else { Some(esprit::program(s)) };
    guard(HARNESS);
    let o = t.out();
    guard(CLAIMED);
    match late {
        None => t.untrack(),
        Some(Ok(mut p)) => {
            p.untrack();
            let r = match mode {
                3 => p.script().map(Tree::Script),
                4 => p.strict().map(Tree::Script),
                _ => p.module().map(Tree::Module),
            };
            guard(OUTSIDE);
            t = r.unwrap();
        }
        Some(Err(_)) => {
            guard(OUTSIDE);
            panic!();
        }
    }
    guard(HARNESS);
    reach(0);
    let u = t.out();
    // semicolons are all alike afterwards
    let mut v = o.v.clone();
    let mut eq = v.len() == u.v.len();
    for i in 0..v.len().min(u.v.len()) {
        if v[i] == ASI && u.v[i] == SEMI {
            v[i] = SEMI;
        }
        eq &= v[i] == u.v[i];
    }
    check(eq, 5);
    // including those the parser inserted
    let mut plain = true;
    for i in 0..u.v.len() {
        plain &= u.v[i] != ASI;
    }
    check(plain, 12);
    let mut none = true;
    for l in u.loc.iter().chain(u.small.iter()) {
        none &= l.1.is_none();
    }
    check(none, 6);
    let mut all = true;
    for l in o.loc.iter().chain(o.small.iter()) {
        all &= l.1.is_some();
    }
    if all {
        reach(2);
    }
    check(o.tracked && u.tracked, 7);
}
