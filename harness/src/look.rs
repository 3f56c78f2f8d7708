//! Lookahead transparency and independence of history.
use crate::lex::*;
use crate::sx::*;
use joker::token::{NumberLiteral, RegExpLiteral, StringLiteral, Token, TokenData};

/// everything observable about a token, including what its own equality ignores
pub fn same_token(a: &Token, b: &Token) -> bool {
    a.location == b.location && a.newline == b.newline && same_value(&a.value, &b.value)
}
pub fn same_value(a: &TokenData, b: &TokenData) -> bool {
    match (a, b) {
        (&TokenData::String(StringLiteral { source: ref s, value: ref v }), &TokenData::String(StringLiteral { source: ref t, value: ref w })) => s == t && v == w,
        (&TokenData::Number(NumberLiteral { source: ref s, value: ref v }), &TokenData::Number(NumberLiteral { source: ref t, value: ref w })) => {
            s == t && v.to_bits() == w.to_bits()
        }
        (&TokenData::RegExp(RegExpLiteral { pattern: ref s, flags: ref v }), &TokenData::RegExp(RegExpLiteral { pattern: ref t, flags: ref w })) => s == t && v == w,
        (a, b) => a == b,
    }
}

/// params: policy, number of operations, allowed operations (bit mask), source template.
/// One lexer is driven through an arbitrary sequence of lookahead operations, the other only ever
/// reads; they must deliver the same tokens.
#[no_mangle]
pub fn h_look() {
    let pol = Policy::from(param(0));
    let nops = param(1) as usize;
    let mask = param(2);
    let cs = source(3);
    let mut a = lexer(&cs);
    let mut b = lexer(&cs);
    // tokens waiting to be read again, next one last; tokens handed out, newest last
    let mut la: Vec<Token> = Vec::new();
    let mut held: Vec<Token> = Vec::new();
    let mut done = 0u64;
    for _ in 0..nops {
        let op = choice(6);
        assume(mask >> op & 1 == 1);
        match op {
            0 | 1 | 2 => {
                let f = pol.pick();
                let fresh = la.is_empty();
                if fresh {
                    guard(OUTSIDE);
                    match b.read_token(f) {
                        Ok(t) => la.push(t),
                        Err(e) => {
                            guard(CLAIMED);
                            let same = match op {
                                0 => a.read_token(f).map(|_| ()) == Err(e),
                                1 => a.peek_token(f).map(|_| ()) == Err(e),
                                _ => a.skip_token(f) == Err(e),
                            };
                            guard(HARNESS);
                            check(same, 1301);
                            reach(7);
                            return;
                        }
                    }
                }
                guard(CLAIMED);
                match op {
                    0 => {
                        let want = la.pop().unwrap();
                        match a.read_token(f) {
                            Ok(t) => {
                                check(same_token(&t, &want), 1302);
                                held.push(t);
                            }
                            Err(_) => {
                                fail(1303);
                                return;
                            }
                        }
                        reach(if fresh { 0 } else { 1 });
                    }
                    1 => {
                        match a.peek_token(f) {
                            Ok(t) => check(same_token(t, la.last().unwrap()), 1304),
                            Err(_) => {
                                fail(1305);
                                return;
                            }
                        }
                        reach(if fresh { 2 } else { 3 });
                    }
                    _ => {
                        la.pop();
                        check(a.skip_token(f).is_ok(), 1306);
                        reach(4);
                    }
                }
                guard(HARNESS);
            }
            3 => {
                // look again at the token in front: only legal after a peek or an unread
                assume(!la.is_empty());
                guard(CLAIMED);
                check(same_token(a.repeek_token(), la.last().unwrap()), 1307);
                guard(HARNESS);
                reach(5);
            }
            4 => {
                assume(!la.is_empty());
                guard(CLAIMED);
                let t = a.reread_token();
                guard(HARNESS);
                check(same_token(&t, &la.pop().unwrap()), 1308);
                held.push(t);
                reach(6);
            }
            _ => {
                // give back a token that was handed out (at most two may wait)
                assume(!held.is_empty() && la.len() < 2);
                let t = held.pop().unwrap();
                la.push(t.clone());
                guard(CLAIMED);
                a.unread_token(t);
                guard(HARNESS);
                reach(8);
            }
        }
        if la.is_empty() {
            // nothing is waiting: both lexers stand at the same place
            guard(CLAIMED);
            check(a.posn() == b.posn(), 1309);
            guard(HARNESS);
        }
        done += 1;
    }
    note(1, done);
    // whatever is waiting comes out first, then the rest of the input
    loop {
        let f = pol.pick();
        guard(OUTSIDE);
        let want = match la.pop() {
            Some(t) => Ok(t),
            None => b.read_token(f),
        };
        guard(CLAIMED);
        let got = a.read_token(f);
        guard(HARNESS);
        match (got, want) {
            (Ok(t), Ok(w)) => {
                check(same_token(&t, &w), 1310);
                if w.value == TokenData::EOF {
                    reach(9);
                    return;
                }
            }
            (Err(e), Err(w)) => {
                check(e == w, 1311);
                return;
            }
            _ => {
                fail(1312);
                return;
            }
        }
    }
}

/// params: policy, expected tokens in the head, tokens to compare, head template at 4, tail
/// template right behind it.  Text after a point where a token ended is read the same way
/// whatever came before it (positions move along).
#[no_mangle]
pub fn h_ctx() {
    let pol = Policy::from(param(0));
    let nhead = param(1);
    let ncmp = param(2);
    let tail_at = param(3) as usize;
    let head = source(4);
    let tail = source(tail_at);
    let mut all: Vec<char> = head.clone();
    all.extend(tail.iter().cloned());
    guard(OUTSIDE);
    let mut a = lexer(&all);
    for _ in 0..nhead {
        if a.read_token(true).is_err() {
            return;
        }
    }
    let p = a.posn();
    if p.offset as usize != head.len() {
        // the tail was glued to the last token of the head: nothing to compare
        reach(1);
        return;
    }
    // the fresh lexer starts on a line that already has a token on it, so that the two agree
    // about HTML-like comments; ";" is one token whatever follows
    let mut own: Vec<char> = vec![';'];
    own.extend(tail.iter().cloned());
    let mut b = lexer(&own);
    let _ = b.read_token(true);
    guard(CLAIMED);
    for _ in 0..ncmp {
        let f = pol.pick();
        match (a.read_token(f), b.read_token(f)) {
            (Ok(t), Ok(w)) => {
                check(same_value(&t.value, &w.value), 1701);
                check(t.newline == w.newline, 1702);
                for (x, y) in [(t.location.start, w.location.start), (t.location.end, w.location.end)].iter() {
                    check(x.offset == y.offset - 1 + p.offset, 1703);
                    check(x.line == y.line + p.line, 1704);
                    check(x.column == if y.line == 0 { y.column - 1 + p.column } else { y.column }, 1705);
                }
                reach(2);
                if t.value == TokenData::EOF {
                    reach(0);
                    return;
                }
            }
            (Err(x), Err(y)) => {
                check(x == y, 1706);
                reach(3);
                return;
            }
            _ => {
                fail(1707);
                return;
            }
        }
    }
}
