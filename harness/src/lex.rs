//! Harnesses over joker's lexer: the input is a template of concrete and symbolic characters.
use crate::spec::{self, Own, K};
use crate::sx::*;
use joker::error::Error;
use joker::lexer::Lexer;
use joker::token::{CharCase, Exp, NumberSource, Radix, Sign, Token, TokenData};
use joker::word::Name;
use std::cell::Cell;

pub type Pairs = Vec<[u32; 2]>;

/// params[at] = number of items; item < 0x110000 is a concrete character, otherwise
/// 1<<32 | k refers to a set stored at params[k]: count, then count times lo<<32|hi.
pub fn source(at: usize) -> Vec<char> {
    let n = param(at) as usize;
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        let p = param(at + 1 + i);
        if p >> 32 == 0 {
            v.push(char::from_u32(p as u32).unwrap());
        } else {
            let k = (p & 0xffff_ffff) as usize;
            let m = param(k) as usize;
            let mut set: Pairs = Vec::with_capacity(m);
            for j in 0..m {
                let x = param(k + 1 + j);
                set.push([(x >> 32) as u32, x as u32]);
            }
            v.push(sym_char(&set));
        }
    }
    v
}

/// How the caller of the lexer decides whether a slash is an operator.
pub enum Policy {
    Always(bool),
    Any,
}
impl Policy {
    pub fn from(p: u64) -> Policy {
        match p {
            0 => Policy::Always(false),
            1 => Policy::Always(true),
            _ => Policy::Any,
        }
    }
    pub fn pick(&self) -> bool {
        match *self {
            Policy::Always(b) => b,
            Policy::Any => sym_bool(),
        }
    }
}

pub type Lx<'a> = Lexer<std::iter::Cloned<std::slice::Iter<'a, char>>>;
pub fn lexer(cs: &[char]) -> Lx {
    Lexer::new(cs.iter().cloned())
}

pub fn text(cs: &[char], r: (usize, usize)) -> String {
    cs[r.0..r.1].iter().cloned().collect()
}

/// the source text a token value stands for, where the value determines it
pub fn token_text(t: &TokenData, escaped: bool) -> Option<String> {
    Some(match *t {
        TokenData::Reserved(r) => r.name().to_string(),
        TokenData::Identifier(ref n) => {
            if escaped {
                return None;
            }
            n.as_ref().to_string()
        }
        TokenData::String(ref s) => match s.source {
            Some(ref s) => s.clone(),
            None => return Some("<no source>".to_string()),
        },
        TokenData::Number(ref n) => match n.source {
            Some(ref s) => number_text(s),
            None => return Some("<no source>".to_string()),
        },
        TokenData::RegExp(ref r) => {
            let mut s = String::from("/");
            s.push_str(&r.pattern);
            s.push('/');
            for c in r.flags.iter() {
                s.push(*c);
            }
            s
        }
        TokenData::EOF => String::new(),
        ref p => spec::punct_text(p).unwrap_or("<unknown>").to_string(),
    })
}
fn exp_text(s: &mut String, e: &Option<Exp>) {
    if let Some(ref e) = *e {
        s.push(if e.e == CharCase::LowerCase { 'e' } else { 'E' });
        match e.sign {
            Some(Sign::Plus) => s.push('+'),
            Some(Sign::Minus) => s.push('-'),
            None => {}
        }
        s.push_str(&e.value);
    }
}
pub fn number_text(n: &NumberSource) -> String {
    let mut s = String::new();
    match *n {
        NumberSource::DecimalInt(ref d, ref e) => {
            s.push_str(d);
            exp_text(&mut s, e);
        }
        NumberSource::RadixInt(r, ref d) => {
            s.push_str(match r {
                Radix::Bin(CharCase::LowerCase) => "0b",
                Radix::Bin(CharCase::UpperCase) => "0B",
                Radix::Oct(Some(CharCase::LowerCase)) => "0o",
                Radix::Oct(Some(CharCase::UpperCase)) => "0O",
                Radix::Oct(None) => "",
                Radix::Hex(CharCase::LowerCase) => "0x",
                Radix::Hex(CharCase::UpperCase) => "0X",
            });
            s.push_str(d);
        }
        NumberSource::Float(ref i, ref f, ref e) => {
            if let Some(ref i) = *i {
                s.push_str(i);
            }
            s.push('.');
            if let Some(ref f) = *f {
                s.push_str(f);
            }
            exp_text(&mut s, e);
        }
    }
    s
}
pub fn same_text(s: &str, cs: &[char]) -> bool {
    let mut i = 0;
    for c in s.chars() {
        if i >= cs.len() || cs[i] != c {
            return false;
        }
        i += 1;
    }
    i == cs.len()
}

/// line and column of an offset, counted from the text (a CR LF pair is one terminator)
pub fn line_col(cs: &[char], off: usize) -> (u32, u32) {
    let (mut line, mut col) = (0, 0);
    let mut i = 0;
    while i < off && i < cs.len() {
        if spec::is_lt(cs[i]) && !(cs[i] == '\r' && i + 1 < cs.len() && cs[i + 1] == '\n') {
            line += 1;
            col = 0;
        } else {
            col += 1;
        }
        i += 1;
    }
    (line, col)
}

pub const TOTAL: u64 = 1;
pub const TILE: u64 = 2;
pub const LINECOL: u64 = 3;
pub const NEWLINE: u64 = 4;
pub const PUNCT: u64 = 5;
pub const STR: u64 = 6;
pub const NUMVAL: u64 = 7;
pub const NUMFORM: u64 = 8;
pub const WORD: u64 = 9;
pub const ESC: u64 = 10;
pub const RE: u64 = 11;
pub const TRIVIA: u64 = 12;
pub const ERR: u64 = 14;

/// params: check, policy, max tokens, then the source template
#[no_mangle]
pub fn h_lex() {
    let what = param(0);
    let pol = Policy::from(param(1));
    let maxtok = param(2) as usize;
    let cs = source(3);
    match what {
        TOTAL => total(&cs, &pol),
        TILE | LINECOL | NEWLINE => positions(what, &cs, &pol, maxtok),
        _ => conform(what, &cs, &pol, maxtok),
    }
}

fn total(cs: &[char], pol: &Policy) {
    let mut lx = lexer(cs);
    let mut toks = 0;
    let mut errs = 0;
    loop {
        match lx.read_token(pol.pick()) {
            Ok(t) => {
                if let TokenData::EOF = t.value {
                    break;
                }
                toks += 1;
                // a token that is not EOF uses up at least one character
                if toks > cs.len() {
                    fail(101);
                    return;
                }
            }
            Err(_) => {
                // the caller may well keep asking after an error
                errs += 1;
                if errs > 3 {
                    reach(2);
                    return;
                }
            }
        }
    }
    reach(if errs > 0 { 1 } else { 0 });
    // the end of input is sticky
    for _ in 0..2 {
        match lx.read_token(pol.pick()) {
            Ok(t) => check(t.value == TokenData::EOF, 102),
            Err(_) => fail(103),
        }
    }
}

fn positions(what: u64, cs: &[char], pol: &Policy, maxtok: usize) {
    let mut lx = lexer(cs);
    let mut prev = 0usize;
    let mut first = true;
    for _ in 0..maxtok {
        let b = pol.pick();
        guard(OUTSIDE);
        let r = lx.read_token(b);
        guard(HARNESS);
        let t = match r {
            Ok(t) => t,
            Err(_) => {
                reach(1);
                return;
            }
        };
        let (s, e) = (t.location.start.offset as usize, t.location.end.offset as usize);
        let eof = t.value == TokenData::EOF;
        let sane = prev <= s && s <= e && e <= cs.len();
        match what {
            TILE => {
                check(sane, 201);
                if eof {
                    check(s == cs.len() && e == s, 202);
                } else {
                    check(e > s, 203);
                }
                // what lies between two tokens is white space and comments, all of it
                match spec::trivia(cs, prev, first) {
                    Ok(v) => check(v.end == s, 204),
                    Err(_) => fail(205),
                }
                let escaped = cs[s..e].iter().any(|c| *c == '\\');
                if let Some(tx) = token_text(&t.value, escaped) {
                    check(same_text(&tx, &cs[s..e]), 206);
                    reach(2);
                }
            }
            LINECOL => {
                if !sane {
                    fail(301);
                    return;
                }
                let a = line_col(cs, s);
                let b = line_col(cs, e);
                check(t.location.start.line == a.0, 302);
                check(t.location.start.column == a.1, 303);
                check(t.location.end.line == b.0, 304);
                check(t.location.end.column == b.1, 305);
                guard(CLAIMED);
                let p = lx.posn();
                guard(HARNESS);
                check(p.offset as usize == e && p.line == b.0 && p.column == b.1, 306);
                if a.0 > 0 {
                    reach(2);
                }
            }
            _ => {
                if !sane {
                    return;
                }
                let nl = has_lt(&cs[prev..s]);
                check(t.newline == nl, 401);
                reach(if nl { 2 } else { 3 });
            }
        }
        if eof {
            reach(0);
            return;
        }
        prev = e;
        first = false;
    }
}
fn has_lt(cs: &[char]) -> bool {
    for c in cs {
        if spec::is_lt(*c) {
            return true;
        }
    }
    false
}

fn err_same(a: &Error, b: &Error) -> bool {
    a == b
}

fn conform(what: u64, cs: &[char], pol: &Policy, maxtok: usize) {
    let mut lx = lexer(cs);
    let mut prev = 0usize;
    let mut first = true;
    for _ in 0..maxtok {
        let op: Cell<Option<bool>> = Cell::new(None);
        let want = spec::next(cs, prev, first, &|| {
            let b = pol.pick();
            op.set(Some(b));
            b
        });
        let b = op.get().unwrap_or(false);
        // a crash of the lexer counts against the property whose construct is being read
        let mine = match want {
            Ok(ref w) => owner(what, w.own()) || (what == NUMVAL && w.own() == Own::Num),
            Err(spec::Stop { err: None, .. }) => false,
            Err(spec::Stop { own, .. }) => what == ERR || owner(what, own),
        };
        guard(if mine { CLAIMED } else { OUTSIDE });
        let got = lx.read_token(b);
        guard(HARNESS);
        match (got, want) {
            (_, Err(spec::Stop { err: None, .. })) => return,
            (Ok(t), Ok(w)) => {
                if !compare(what, cs, &t, &w) {
                    return;
                }
                if let K::Eof = w.k {
                    reach(0);
                    return;
                }
                prev = w.end;
                first = false;
            }
            (Err(e), Err(spec::Stop { own, err: Some(x) })) => {
                let same = err_same(&e, &x);
                if what == ERR {
                    check(same, 1401);
                    reach(1);
                    reach(16 + own as u64);
                } else if owner(what, own) {
                    check(same, what * 100 + 1);
                    reach(1);
                }
                return;
            }
            (Ok(_), Err(spec::Stop { own, .. })) => {
                if what == ERR {
                    fail(1402);
                }
                if owner(what, own) {
                    fail(what * 100 + 2);
                }
                return;
            }
            (Err(_), Ok(w)) => {
                if what == ERR {
                    fail(1403);
                }
                if owner(what, w.own()) {
                    fail(what * 100 + 3);
                }
                return;
            }
        }
    }
}

fn owner(what: u64, own: Own) -> bool {
    match own {
        Own::Punct => what == PUNCT,
        Own::Str => what == STR,
        Own::Num => what == NUMFORM,
        Own::Word => what == WORD,
        Own::Esc => what == ESC,
        Own::Re => what == RE,
        Own::Trivia => what == TRIVIA,
        Own::Illegal => false,
        Own::Eof => what == TRIVIA,
    }
}

/// false: the two streams have parted company, stop here
fn compare(what: u64, cs: &[char], t: &Token, w: &spec::Tok) -> bool {
    let (s, e) = (t.location.start.offset as usize, t.location.end.offset as usize);
    if s != w.start {
        if what == TRIVIA {
            fail(1204);
        }
        return false;
    }
    let own = w.own();
    if what == TRIVIA {
        check(t.newline == w.newline, 1205);
        reach(2);
    }
    let mine = owner(what, own);
    let ext = e == w.end;
    if mine {
        check(ext, what * 100 + 4);
    }
    match (&w.k, &t.value) {
        (&K::Eof, &TokenData::EOF) => {}
        (&K::Punct(ref p), v) => {
            let same = p == v;
            if mine {
                check(same, 505);
                reach(2);
            }
            if !same {
                return false;
            }
        }
        (&K::Word(ref n, esc), v) => {
            let r = if esc { None } else { spec::as_reserved(n) };
            match (r, v) {
                (Some(r), &TokenData::Reserved(x)) => {
                    if what == WORD {
                        check(r == x, 906);
                        check(x.name() == &n[..], 907);
                        reach(4);
                    }
                }
                (None, &TokenData::Identifier(ref name)) => {
                    if mine {
                        check(name.as_ref() == &n[..], what * 100 + 8);
                        match *name {
                            Name::Atom(_) => {
                                // contextual words, and only unescaped ones
                                check(!esc && contextual(n), what * 100 + 9);
                                reach(3);
                            }
                            Name::String(_) => {
                                check(esc || !contextual(n), what * 100 + 10);
                                reach(2);
                            }
                        }
                    }
                }
                _ => {
                    if mine {
                        fail(what * 100 + 11);
                    }
                    return false;
                }
            }
        }
        (&K::Str(ref v), &TokenData::String(ref l)) => {
            if what == STR {
                if let Some(ref v) = *v {
                    check(&l.value[..] == &v[..], 605);
                    reach(2);
                }
                match l.source {
                    Some(ref x) => check(e <= cs.len() && same_text(x, &cs[s..e]), 606),
                    None => fail(607),
                }
            }
        }
        (&K::Re(b, f), &TokenData::RegExp(ref l)) => {
            if what == RE {
                check(same_text(&l.pattern, &cs[b.0..b.1]), 1105);
                check(l.flags.len() == f.1 - f.0 && l.flags.iter().zip(cs[f.0..f.1].iter()).all(|(a, b)| a == b), 1106);
                reach(2);
            }
        }
        (&K::Num(ref n), &TokenData::Number(ref l)) => {
            if what == NUMFORM {
                match l.source {
                    Some(ref x) => check(same_number(x, n, cs), 805),
                    None => fail(806),
                }
                reach(2);
            }
            if what == NUMVAL && ext {
                let v = number_value(n, cs, s, e);
                check(l.value.to_bits() == v.to_bits(), 705);
                match l.source {
                    Some(ref x) => check(x.value().to_bits() == v.to_bits(), 706),
                    None => fail(707),
                }
                reach(2);
            }
        }
        _ => {
            if mine || (what == NUMVAL && own == Own::Num) {
                fail(what * 100 + 20);
            }
            return false;
        }
    }
    ext
}

pub fn contextual(s: &str) -> bool {
    for c in CONTEXTUAL.iter() {
        if *c == s {
            return true;
        }
    }
    false
}
pub const CONTEXTUAL: [&'static str; 18] = [
    "arguments", "async", "await", "eval", "from", "get", "implements", "interface", "let", "of", "package", "private", "protected", "public", "set", "static",
    "target", "yield",
];

fn opt_text(s: &Option<String>, r: Option<(usize, usize)>, cs: &[char]) -> bool {
    match (s, r) {
        (&Some(ref s), Some(r)) => same_text(s, &cs[r.0..r.1]),
        (&None, None) => true,
        _ => false,
    }
}
fn same_exp(e: &Option<Exp>, n: &spec::Num, cs: &[char]) -> bool {
    match (e, &n.exp) {
        (&None, &None) => true,
        (&Some(ref e), &Some((upper, sign, r))) => {
            (e.e == CharCase::UpperCase) == upper
                && match e.sign {
                    Some(Sign::Plus) => sign == Some(true),
                    Some(Sign::Minus) => sign == Some(false),
                    None => sign == None,
                }
                && same_text(&e.value, &cs[r.0..r.1])
        }
        _ => false,
    }
}
fn case(c: CharCase) -> bool {
    c == CharCase::UpperCase
}
fn same_number(x: &NumberSource, n: &spec::Num, cs: &[char]) -> bool {
    match *x {
        NumberSource::DecimalInt(ref d, ref e) => {
            if let spec::Radix::Dec = n.radix {
                n.frac.is_none() && n.int.map_or(false, |r| same_text(d, &cs[r.0..r.1])) && same_exp(e, n, cs)
            } else {
                false
            }
        }
        NumberSource::RadixInt(r, ref d) => {
            let ok = match (r, &n.radix) {
                (Radix::Bin(c), &spec::Radix::Bin(u)) => case(c) == u,
                (Radix::Oct(Some(c)), &spec::Radix::Oct(u)) => case(c) == u,
                (Radix::Oct(None), &spec::Radix::LegacyOct) => true,
                (Radix::Hex(c), &spec::Radix::Hex(u)) => case(c) == u,
                _ => false,
            };
            ok && n.int.map_or(false, |r| same_text(d, &cs[r.0..r.1]))
        }
        NumberSource::Float(ref i, ref f, ref e) => {
            if let spec::Radix::Dec = n.radix {
                n.frac.is_some() && opt_text(i, n.int, cs) && opt_text(f, n.frac, cs) && same_exp(e, n, cs)
            } else {
                false
            }
        }
    }
}
/// exact value, rounded once to the nearest double
pub fn radix_value(base: u32, digits: &[char]) -> f64 {
    let bits = base.trailing_zeros() as usize;
    let mut first = 0;
    while first < digits.len() && digits[first] == '0' {
        first += 1;
    }
    let ds = &digits[first..];
    let n = ds.len() * bits;
    if n <= 64 {
        let mut v: u64 = 0;
        for c in ds {
            v = v << bits | spec::hex(*c).unwrap() as u64;
        }
        return v as f64;
    }
    // the leading 60 bits or more exactly, everything below them as one sticky bit
    let keep = 63 / bits;
    let mut v: u64 = 0;
    for c in &ds[..keep] {
        v = v << bits | spec::hex(*c).unwrap() as u64;
    }
    let rest = ds[keep..].iter().any(|c| *c != '0');
    let mut f = (v << 1 | rest as u64) as f64;
    for _ in 0..(ds.len() - keep) * bits {
        f *= 2.0;
    }
    f / 2.0
}
fn number_value(n: &spec::Num, cs: &[char], s: usize, e: usize) -> f64 {
    let base = match n.radix {
        spec::Radix::Dec => {
            // Rust's parser accepts the ECMAScript spelling and rounds correctly
            return text(cs, (s, e)).parse::<f64>().unwrap();
        }
        spec::Radix::Bin(_) => 2,
        spec::Radix::Oct(_) | spec::Radix::LegacyOct => 8,
        spec::Radix::Hex(_) => 16,
    };
    let r = n.int.unwrap();
    radix_value(base, &cs[r.0..r.1])
}
