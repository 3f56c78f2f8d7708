//! Token, word and location values taken on their own.
use crate::lex::{contextual, number_text, radix_value, CONTEXTUAL};
use crate::spec;
use crate::sx::*;
use joker::token::{CharCase, Exp, NumberLiteral, NumberSource, Radix, RegExpLiteral, Sign, StringLiteral, TokenData};
use joker::track::{span, Posn, Span, TrackingMut, TrackingRef, Untrack};
use joker::word::{Atom, Name, Reserved};

fn word(at: usize) -> String {
    crate::lex::source(at).iter().cloned().collect()
}

pub fn atoms() -> [(&'static str, Atom); 18] {
    [
        ("arguments", Atom::Arguments),
        ("async", Atom::Async),
        ("await", Atom::Await),
        ("eval", Atom::Eval),
        ("from", Atom::From),
        ("get", Atom::Get),
        ("implements", Atom::Implements),
        ("interface", Atom::Interface),
        ("let", Atom::Let),
        ("of", Atom::Of),
        ("package", Atom::Package),
        ("private", Atom::Private),
        ("protected", Atom::Protected),
        ("public", Atom::Public),
        ("set", Atom::Set),
        ("static", Atom::Static),
        ("target", Atom::Target),
        ("yield", Atom::Yield),
    ]
}

/// params: a string template.  Names made from text keep the text and know the contextual words.
#[no_mangle]
pub fn h_name() {
    let s = word(0);
    let n = Name::from(s.clone());
    check(n.as_ref() == &s[..], 1501);
    check(n.clone().into_string() == s, 1502);
    match n {
        Name::Atom(a) => {
            check(contextual(&s), 1503);
            check(a.name() == &s[..], 1504);
            check(n.atom() == Some(a), 1505);
            reach(0);
        }
        Name::String(ref t) => {
            check(!contextual(&s), 1506);
            check(*t == s, 1507);
            check(n.atom() == None, 1508);
            reach(1);
        }
    }
}

/// params: which.  Every atom and reserved word has its own spelling and survives the round trip.
#[no_mangle]
pub fn h_atoms() {
    let all = atoms();
    let res = spec::reserved();
    match param(0) {
        0 => {
            let (n, a) = all[choice(18) as usize];
            check(a.name() == n, 1511);
            check(Name::from(n.to_string()) == Name::Atom(a), 1512);
            check(Name::Atom(a).into_string() == n, 1513);
            check(Name::Atom(a).as_ref() == n, 1514);
            check(CONTEXTUAL.iter().any(|c| *c == n), 1515);
        }
        1 => {
            let (n, a) = all[choice(18) as usize];
            let (m, b) = all[choice(18) as usize];
            check((a == b) == (n == m), 1516);
        }
        2 => {
            let (n, r) = res[choice(36) as usize];
            check(r.name() == n, 1517);
            check(r.into_string() == n, 1518);
            check(Name::from(n.to_string()) == Name::String(n.to_string()), 1520);
        }
        _ => {
            let (n, r): (&str, Reserved) = res[choice(36) as usize];
            let (m, q): (&str, Reserved) = res[choice(36) as usize];
            check((q == r) == (n == m), 1519);
        }
    }
    reach(0);
}

fn same_chars(a: &[char], b: &[char]) -> bool {
    // same characters, each as often
    if a.len() != b.len() {
        return false;
    }
    for c in a {
        let x = a.iter().filter(|d| *d == c).count();
        let y = b.iter().filter(|d| *d == c).count();
        if x != y {
            return false;
        }
    }
    true
}

/// params: kind, at1, at2, at3, at4 and the string templates they point at
#[no_mangle]
pub fn h_eq() {
    match param(0) {
        0 => {
            let (p, q) = (word(param(1) as usize), word(param(2) as usize));
            let (f, g) = (crate::lex::source(param(3) as usize), crate::lex::source(param(4) as usize));
            let a = RegExpLiteral { pattern: p.clone(), flags: f.clone() };
            let b = RegExpLiteral { pattern: q.clone(), flags: g.clone() };
            let want = p == q && same_chars(&f, &g);
            check((a == b) == want, 1601);
            check((b == a) == want, 1602);
            check((TokenData::RegExp(a) == TokenData::RegExp(b)) == want, 1603);
            reach(if want { 1 } else { 0 });
        }
        1 => {
            let (v, w) = (word(param(1) as usize), word(param(2) as usize));
            let (s, t) = (word(param(3) as usize), word(param(4) as usize));
            let a = StringLiteral { source: if sym_bool() { Some(s) } else { None }, value: v.clone() };
            let b = StringLiteral { source: if sym_bool() { Some(t) } else { None }, value: w.clone() };
            check((a == b) == (v == w), 1611);
            check((b == a) == (v == w), 1612);
            check((TokenData::String(a) == TokenData::String(b)) == (v == w), 1613);
            reach(if v == w { 1 } else { 0 });
        }
        _ => {
            let (s, t) = (word(param(1) as usize), word(param(2) as usize));
            let (x, y) = (f64::from_bits(sym(64, 0, u64::MAX)), f64::from_bits(sym(64, 0, u64::MAX)));
            let a = NumberLiteral { source: if sym_bool() { Some(NumberSource::DecimalInt(s, None)) } else { None }, value: x };
            let b = NumberLiteral { source: if sym_bool() { Some(NumberSource::RadixInt(Radix::Oct(None), t)) } else { None }, value: y };
            check((a == b) == (x == y), 1621);
            check((TokenData::Number(a) == TokenData::Number(b)) == (x == y), 1622);
            reach(if x == y { 1 } else { 0 });
        }
    }
}

/// params: shape (0 int, 1 float, 2 radix), at(int), at(frac), at(exp); 0 = absent.
/// A number's representation determines its value by itself.
#[no_mangle]
pub fn h_numsrc() {
    let part = |i: usize| {
        let at = param(i) as usize;
        if at == 0 {
            None
        } else {
            Some(word(at))
        }
    };
    let exp = part(3).map(|value| Exp {
        e: if sym_bool() { CharCase::UpperCase } else { CharCase::LowerCase },
        sign: match choice(3) {
            0 => None,
            1 => Some(Sign::Plus),
            _ => Some(Sign::Minus),
        },
        value,
    });
    let src = match param(0) {
        0 => NumberSource::DecimalInt(part(1).unwrap(), exp),
        1 => NumberSource::Float(part(1), part(2), exp),
        _ => {
            let up = if sym_bool() { CharCase::UpperCase } else { CharCase::LowerCase };
            let d = part(1).unwrap();
            let (r, base) = match param(4) {
                0 => (Radix::Bin(up), 2),
                1 => (Radix::Oct(Some(up)), 8),
                2 => (Radix::Oct(None), 8),
                _ => (Radix::Hex(up), 16),
            };
            check(r.value() == base, 1801);
            let ds: Vec<char> = d.chars().collect();
            let want = radix_value(base, &ds);
            let src = NumberSource::RadixInt(r, d);
            finish(src, want);
            return;
        }
    };
    let want = number_text(&src).parse::<f64>().unwrap();
    finish(src, want);
}
fn finish(src: NumberSource, want: f64) {
    check(src.value().to_bits() == want.to_bits(), 1802);
    let copy = src.clone();
    match src.into_token_data() {
        TokenData::Number(l) => {
            check(l.value.to_bits() == want.to_bits(), 1803);
            check(l.source == Some(copy), 1804);
        }
        _ => fail(1805),
    }
    reach(0);
}

fn posn() -> Posn {
    Posn { offset: sym(32, 0, 0xffff_ffff) as u32, line: sym(32, 0, 0xffff_ffff) as u32, column: sym(32, 0, 0xffff_ffff) as u32 }
}
fn opt_span() -> Option<Span> {
    if sym_bool() {
        Some(Span { start: posn(), end: posn() })
    } else {
        None
    }
}

/// Combining and erasing locations.
#[no_mangle]
pub fn h_span() {
    let (l, r) = (opt_span(), opt_span());
    let want = match (l, r) {
        (Some(a), Some(b)) => Some(Span { start: a.start, end: b.end }),
        _ => None,
    };
    check(span(&l, &r) == want, 2101);
    check(span(&&l, &&r) == want, 2102);
    check(*l.tracking_ref() == l, 2103);
    if let (Some(a), Some(b)) = (l, r) {
        check((a == b) == (a.start == b.start && a.end == b.end), 2104);
        check(
            (a.start == b.start) == (a.start.offset == b.start.offset && a.start.line == b.start.line && a.start.column == b.start.column),
            2105,
        );
        reach(1);
    }
    let mut m = l;
    *m.tracking_mut() = r;
    check(m == r, 2106);
    let mut m = l;
    m.untrack();
    check(m == None, 2107);
    let mut b = Box::new(l);
    b.untrack();
    check(*b == None, 2108);
    let mut o = if sym_bool() { Some(l) } else { None };
    let some = o.is_some();
    o.untrack();
    check(o.is_some() == some, 2109);
    if let Some(x) = o {
        check(x == None, 2110);
    }
    let n = choice(4);
    let mut v: Vec<Option<Span>> = Vec::new();
    for i in 0..n {
        v.push(if i % 2 == 0 { l } else { r });
    }
    v.untrack();
    check(v.len() as u64 == n && v.iter().all(|x| x.is_none()), 2111);
    let mut t = sym_bool();
    let u = t;
    t.untrack();
    check(t == u, 2112);
    let o = Posn::origin();
    check(o.offset == 0 && o.line == 0 && o.column == 0, 2113);
    reach(0);
}

/// params: mode, then the template of one character out of the class under test
#[no_mangle]
pub fn h_class() {
    let mode = param(0);
    let c = crate::lex::source(1)[0];
    let cs: Vec<char> = match mode {
        2 | 3 => vec!['a', c],
        6 => vec!['a', c, 'b'],
        _ => vec![c],
    };
    guard(CLAIMED);
    let mut lx = crate::lex::lexer(&cs);
    let r = lx.read_token(true);
    guard(HARNESS);
    match mode {
        // a character identifiers may start with, or go on with
        0 | 2 => match r {
            Ok(t) => {
                check(t.location.end.offset as usize == cs.len(), 1901);
                match t.value {
                    TokenData::Identifier(ref n) => check(crate::lex::same_text(n.as_ref(), &cs), 1902),
                    _ => fail(1903),
                }
            }
            Err(_) => fail(1904),
        },
        // nothing starts with it
        1 => check(r == Err(joker::error::Error::IllegalChar(c)), 1905),
        // an identifier ends before it
        3 => match r {
            Ok(t) => {
                check(t.location.end.offset == 1, 1906);
                check(t.value == TokenData::Identifier(Name::from("a".to_string())), 1907);
            }
            Err(_) => fail(1908),
        },
        // white space, line terminators
        4 | 5 => match r {
            Ok(t) => {
                check(t.value == TokenData::EOF, 1909);
                check(t.newline == (mode == 5), 1910);
                check(t.location.start.line == if mode == 5 { 1 } else { 0 }, 1911);
                check(t.location.start.column == if mode == 5 { 0 } else { 1 }, 1912);
            }
            Err(_) => fail(1913),
        },
        // separates two words
        _ => {
            check(r.map(|t| t.location.end.offset) == Ok(1), 1914);
            guard(CLAIMED);
            let r = lx.read_token(true);
            guard(HARNESS);
            match r {
                Ok(t) => {
                    check(t.location.start.offset == 2 && t.location.end.offset == 3, 1915);
                    check(t.value == TokenData::Identifier(Name::from("b".to_string())), 1916);
                    check(t.newline == spec::is_lt(c), 1917);
                }
                Err(_) => fail(1918),
            }
        }
    }
    reach(0);
}
