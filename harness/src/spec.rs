//! Independent reference scanner for the lexical grammar (ECMAScript 2015, clause 11 and Annex B.1),
//! written from the standard and from the documented token types; it shares no code with joker.
use joker::error::Error;
use joker::token::TokenData as T;
use joker::word::Reserved as R;
use ucd::Codepoint;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Own {
    Punct,
    Str,
    Num,
    Word,
    Esc,
    Re,
    Trivia,
    Illegal,
    Eof,
}

pub enum Radix {
    Dec,
    Bin(bool),
    Oct(bool),
    LegacyOct,
    Hex(bool),
}
pub type Rng = (usize, usize);
pub struct Num {
    pub radix: Radix,
    pub int: Option<Rng>,
    pub frac: Option<Rng>,
    /// (upper-case E, sign: Some(true) = plus, digits)
    pub exp: Option<(bool, Option<bool>, Rng)>,
}
pub enum K {
    Eof,
    Punct(T),
    Word(String, bool),
    Num(Num),
    Str(Option<String>),
    Re(Rng, Rng),
}
pub struct Tok {
    pub start: usize,
    pub end: usize,
    pub newline: bool,
    pub k: K,
}
pub struct Stop {
    pub own: Own,
    /// None: the standard leaves the case outside what the properties claim
    pub err: Option<Error>,
}
fn stop<X>(own: Own, e: Error) -> Result<X, Stop> {
    Err(Stop { own, err: Some(e) })
}

pub fn at(cs: &[char], i: usize) -> Option<char> {
    if i < cs.len() {
        Some(cs[i])
    } else {
        None
    }
}
fn is(cs: &[char], i: usize, c: char) -> bool {
    i < cs.len() && cs[i] == c
}

pub fn is_lt(c: char) -> bool {
    matches!(c, '\n' | '\r' | '\u{2028}' | '\u{2029}')
}
pub fn is_ws(c: char) -> bool {
    matches!(
        c,
        '\t' | '\u{b}' | '\u{c}' | ' ' | '\u{a0}' | '\u{feff}' | '\u{1680}' | '\u{2000}'..='\u{200a}' | '\u{202f}' | '\u{205f}' | '\u{3000}'
    )
}
pub fn is_start(c: char) -> bool {
    if (c as u32) < 128 {
        return matches!(c, 'a'..='z' | 'A'..='Z' | '$' | '_');
    }
    c.is_id_start()
}
pub fn is_cont(c: char) -> bool {
    if (c as u32) < 128 {
        return matches!(c, 'a'..='z' | 'A'..='Z' | '0'..='9' | '$' | '_');
    }
    c == '\u{200c}' || c == '\u{200d}' || c.is_id_continue()
}
pub fn is_dec(c: char) -> bool {
    matches!(c, '0'..='9')
}
pub fn is_oct(c: char) -> bool {
    matches!(c, '0'..='7')
}
pub fn hex(c: char) -> Option<u32> {
    let x = c as u32;
    if is_dec(c) {
        Some(x - 48)
    } else if matches!(c, 'a'..='f') {
        Some(x - 87)
    } else if matches!(c, 'A'..='F') {
        Some(x - 55)
    } else {
        None
    }
}

pub struct Triv {
    pub end: usize,
    pub newline: bool,
}
fn line_end(cs: &[char], mut i: usize) -> usize {
    while i < cs.len() && !is_lt(cs[i]) {
        i += 1;
    }
    i
}
/// `bol`: no token has been seen since the last line terminator (or the start of input)
pub fn trivia(cs: &[char], mut i: usize, mut bol: bool) -> Result<Triv, Stop> {
    let mut newline = false;
    while i < cs.len() {
        let c = cs[i];
        if is_ws(c) {
            i += 1;
        } else if is_lt(c) {
            i += 1;
            newline = true;
            bol = true;
        } else if c == '/' && is(cs, i + 1, '/') {
            i = line_end(cs, i + 2);
        } else if c == '/' && is(cs, i + 1, '*') {
            i += 2;
            loop {
                if i + 1 >= cs.len() {
                    return stop(Own::Trivia, Error::UnterminatedComment);
                }
                if cs[i] == '*' && cs[i + 1] == '/' {
                    i += 2;
                    break;
                }
                if is_lt(cs[i]) {
                    newline = true;
                    bol = true;
                }
                i += 1;
            }
        } else if c == '<' && is(cs, i + 1, '!') && is(cs, i + 2, '-') && is(cs, i + 3, '-') {
            i = line_end(cs, i + 4);
        } else if c == '-' && bol && is(cs, i + 1, '-') && is(cs, i + 2, '>') {
            i = line_end(cs, i + 3);
        } else {
            break;
        }
    }
    Ok(Triv { end: i, newline })
}

/// all punctuators representable by joker's token type, longest first
pub fn puncts() -> [(&'static str, T); 50] {
    [
        (">>>=", T::URShiftAssign),
        ("...", T::Ellipsis),
        ("===", T::StrictEq),
        ("!==", T::StrictNEq),
        (">>>", T::URShift),
        ("<<=", T::LShiftAssign),
        (">>=", T::RShiftAssign),
        ("=>", T::Arrow),
        ("<=", T::LEq),
        (">=", T::GEq),
        ("==", T::Eq),
        ("!=", T::NEq),
        ("++", T::Inc),
        ("--", T::Dec),
        ("<<", T::LShift),
        (">>", T::RShift),
        ("&&", T::LogicalAnd),
        ("||", T::LogicalOr),
        ("+=", T::PlusAssign),
        ("-=", T::MinusAssign),
        ("*=", T::StarAssign),
        ("/=", T::SlashAssign),
        ("%=", T::ModAssign),
        ("&=", T::BitAndAssign),
        ("|=", T::BitOrAssign),
        ("^=", T::BitXorAssign),
        ("{", T::LBrace),
        ("}", T::RBrace),
        ("(", T::LParen),
        (")", T::RParen),
        ("[", T::LBrack),
        ("]", T::RBrack),
        (".", T::Dot),
        (";", T::Semi),
        (",", T::Comma),
        ("<", T::LAngle),
        (">", T::RAngle),
        ("+", T::Plus),
        ("-", T::Minus),
        ("*", T::Star),
        ("/", T::Slash),
        ("%", T::Mod),
        ("&", T::BitAnd),
        ("|", T::BitOr),
        ("^", T::BitXor),
        ("!", T::Bang),
        ("~", T::Tilde),
        ("?", T::Question),
        (":", T::Colon),
        ("=", T::Assign),
    ]
}
pub fn punct_text(t: &T) -> Option<&'static str> {
    for (s, p) in puncts().iter() {
        if p == t {
            return Some(s);
        }
    }
    None
}

pub fn reserved() -> [(&'static str, R); 36] {
    [
        ("null", R::Null),
        ("true", R::True),
        ("false", R::False),
        ("break", R::Break),
        ("case", R::Case),
        ("catch", R::Catch),
        ("class", R::Class),
        ("const", R::Const),
        ("continue", R::Continue),
        ("debugger", R::Debugger),
        ("default", R::Default),
        ("delete", R::Delete),
        ("do", R::Do),
        ("else", R::Else),
        ("export", R::Export),
        ("extends", R::Extends),
        ("finally", R::Finally),
        ("for", R::For),
        ("function", R::Function),
        ("if", R::If),
        ("import", R::Import),
        ("in", R::In),
        ("instanceof", R::Instanceof),
        ("new", R::New),
        ("return", R::Return),
        ("super", R::Super),
        ("switch", R::Switch),
        ("this", R::This),
        ("throw", R::Throw),
        ("try", R::Try),
        ("typeof", R::Typeof),
        ("var", R::Var),
        ("void", R::Void),
        ("while", R::While),
        ("with", R::With),
        ("enum", R::Enum),
    ]
}
pub fn as_reserved(s: &str) -> Option<R> {
    for (n, r) in reserved().iter() {
        if *n == s {
            return Some(*r);
        }
    }
    None
}

/// `\u` already consumed; returns (code, saturated at u32::MAX; next index)
fn unicode_escape(cs: &[char], mut i: usize, own: Own) -> Result<(u32, usize), Stop> {
    let digit = |i: usize| -> Result<u32, Stop> {
        match at(cs, i) {
            None => stop(own, Error::MissingHexDigits),
            Some(c) => match hex(c) {
                Some(d) => Ok(d),
                None => stop(own, Error::InvalidDigit(c)),
            },
        }
    };
    if is(cs, i, '{') {
        i += 1;
        let mut v = digit(i)? as u64;
        i += 1;
        while !is(cs, i, '}') {
            v = v * 16 + digit(i)? as u64;
            if v > 0xffff_ffff {
                v = 0xffff_ffff;
            }
            i += 1;
        }
        i += 1;
        Ok((v as u32, i))
    } else {
        let mut v = 0;
        for k in 0..4 {
            v = v * 16 + digit(i + k)?;
        }
        Ok((v, i + 4))
    }
}

fn string(cs: &[char], s: usize) -> Result<(usize, Option<String>), Stop> {
    let quote = cs[s];
    let mut i = s + 1;
    let mut v = String::new();
    let mut known = true;
    loop {
        let c = match at(cs, i) {
            None => return stop(Own::Str, Error::UnterminatedString(None)),
            Some(c) => c,
        };
        if c == quote {
            return Ok((i + 1, if known { Some(v) } else { None }));
        }
        if is_lt(c) {
            return stop(Own::Str, Error::UnterminatedString(Some(c)));
        }
        if c != '\\' {
            v.push(c);
            i += 1;
            continue;
        }
        i += 1;
        let c = match at(cs, i) {
            None => return stop(Own::Str, Error::UnterminatedString(None)),
            Some(c) => c,
        };
        if is_oct(c) {
            // Annex B.1.2: ZeroToThree OctalDigit OctalDigit | FourToSeven OctalDigit | OctalDigit
            let max = if (c as u32) < 52 { 3 } else { 2 };
            let mut code = 0;
            let mut n = 0;
            while n < max && i < cs.len() && is_oct(cs[i]) {
                code = code * 8 + (cs[i] as u32 - 48);
                i += 1;
                n += 1;
            }
            v.push(char::from_u32(code).unwrap());
            continue;
        }
        match c {
            'x' => {
                let mut code = 0;
                for k in 1..3 {
                    match at(cs, i + k) {
                        None => return stop(Own::Str, Error::MissingHexDigits),
                        Some(c) => match hex(c) {
                            Some(d) => code = code * 16 + d,
                            None => return stop(Own::Str, Error::InvalidDigit(c)),
                        },
                    }
                }
                v.push(char::from_u32(code).unwrap());
                i += 3;
            }
            'u' => {
                let (code, j) = unicode_escape(cs, i + 1, Own::Str)?;
                match char::from_u32(code) {
                    Some(c) => v.push(c),
                    None => known = false,
                }
                i = j;
            }
            '\r' => i += if is(cs, i + 1, '\n') { 2 } else { 1 },
            '\n' | '\u{2028}' | '\u{2029}' => i += 1,
            _ => {
                v.push(match c {
                    'b' => '\u{8}',
                    't' => '\u{9}',
                    'n' => '\u{a}',
                    'v' => '\u{b}',
                    'f' => '\u{c}',
                    'r' => '\u{d}',
                    _ => c,
                });
                i += 1;
            }
        }
    }
}

fn digits(cs: &[char], mut i: usize) -> usize {
    while i < cs.len() && is_dec(cs[i]) {
        i += 1;
    }
    i
}
fn number(cs: &[char], s: usize) -> Result<(usize, Num), Stop> {
    let (end, n) = number0(cs, s)?;
    match at(cs, end) {
        Some(c) if is_dec(c) => stop(Own::Num, Error::DigitAfterNumber(c)),
        Some(c) if c == '\\' || is_start(c) => stop(Own::Num, Error::IdAfterNumber(c)),
        _ => Ok((end, n)),
    }
}
fn number0(cs: &[char], s: usize) -> Result<(usize, Num), Stop> {
    let none = |radix, int| Num { radix, int, frac: None, exp: None };
    if cs[s] == '0' {
        let radix = match at(cs, s + 1) {
            Some('x') => Some((Radix::Hex(false), 16)),
            Some('X') => Some((Radix::Hex(true), 16)),
            Some('o') => Some((Radix::Oct(false), 8)),
            Some('O') => Some((Radix::Oct(true), 8)),
            Some('b') => Some((Radix::Bin(false), 2)),
            Some('B') => Some((Radix::Bin(true), 2)),
            _ => None,
        };
        if let Some((r, base)) = radix {
            let ok = |c: char| hex(c).map_or(false, |d| d < base);
            match at(cs, s + 2) {
                None => {
                    return stop(
                        Own::Num,
                        match base {
                            16 => Error::MissingHexDigits,
                            8 => Error::MissingOctalDigits,
                            _ => Error::MissingBinaryDigits,
                        },
                    )
                }
                Some(c) if !ok(c) => return stop(Own::Num, Error::InvalidDigit(c)),
                _ => {}
            }
            let mut i = s + 2;
            while i < cs.len() && ok(cs[i]) {
                i += 1;
            }
            return Ok((i, none(r, Some((s + 2, i)))));
        }
        let e = digits(cs, s);
        if e > s + 1 && cs[s..e].iter().all(|c| is_oct(*c)) {
            return Ok((e, none(Radix::LegacyOct, Some((s, e)))));
        }
    }
    let mut i = s;
    let mut int = None;
    if is_dec(cs[s]) {
        i = digits(cs, s);
        int = Some((s, i));
    }
    let mut frac = None;
    if is(cs, i, '.') {
        let j = digits(cs, i + 1);
        frac = Some((i + 1, j));
        i = j;
    }
    let mut exp = None;
    if is(cs, i, 'e') || is(cs, i, 'E') {
        let upper = cs[i] == 'E';
        i += 1;
        let mut sign = None;
        if is(cs, i, '+') {
            sign = Some(true);
            i += 1;
        } else if is(cs, i, '-') {
            sign = Some(false);
            i += 1;
        }
        match at(cs, i) {
            Some(c) if is_dec(c) => {}
            c => return stop(Own::Num, Error::MissingExponent(c)),
        }
        let j = digits(cs, i);
        exp = Some((upper, sign, (i, j)));
        i = j;
    }
    Ok((i, Num { radix: Radix::Dec, int, frac, exp }))
}

fn word(cs: &[char], s: usize) -> Result<(usize, String, bool), Stop> {
    let mut i = s;
    let mut v = String::new();
    let mut esc = false;
    while i < cs.len() {
        let c = cs[i];
        if c == '\\' {
            esc = true;
            if !is(cs, i + 1, 'u') {
                return stop(Own::Esc, Error::IncompleteWordEscape(at(cs, i + 1)));
            }
            let (code, j) = unicode_escape(cs, i + 2, Own::Esc)?;
            match char::from_u32(code) {
                Some(c) if (if i == s { is_start(c) } else { is_cont(c) }) => v.push(c),
                _ => return stop(Own::Esc, Error::IllegalUnicode(code)),
            }
            i = j;
        } else if is_cont(c) {
            v.push(c);
            i += 1;
        } else {
            break;
        }
    }
    if esc {
        if let Some(r) = as_reserved(&v) {
            return stop(Own::Esc, Error::ReservedWordWithEscapes(r));
        }
    }
    Ok((i, v, esc))
}

fn regexp(cs: &[char], s: usize) -> Result<(usize, Rng, Rng), Stop> {
    let bad = |c| stop(Own::Re, Error::UnterminatedRegExp(c));
    let mut i = s + 1;
    let mut class = false;
    loop {
        let c = match at(cs, i) {
            None => return bad(None),
            Some(c) => c,
        };
        if is_lt(c) {
            return bad(Some(c));
        }
        if c == '\\' {
            match at(cs, i + 1) {
                None => return bad(None),
                Some(c) if is_lt(c) => return bad(Some(c)),
                _ => i += 2,
            }
            continue;
        }
        if class {
            if c == ']' {
                class = false;
            }
        } else if c == '[' {
            class = true;
        } else if c == '/' {
            break;
        }
        i += 1;
    }
    let body = (s + 1, i);
    i += 1;
    let f = i;
    while i < cs.len() && is_cont(cs[i]) {
        i += 1;
    }
    if is(cs, i, '\\') {
        // escapes in flags: a static error in the standard, not claimed here
        return Err(Stop { own: Own::Re, err: None });
    }
    Ok((i, body, (f, i)))
}

/// the next token from `pos`; `operator`: a slash is a division operator rather than a regexp
pub fn next(cs: &[char], pos: usize, bol: bool, operator: &dyn Fn() -> bool) -> Result<Tok, Stop> {
    let t = trivia(cs, pos, bol)?;
    let s = t.end;
    let mk = |end: usize, k: K| Ok(Tok { start: s, end, newline: t.newline, k });
    let c = match at(cs, s) {
        None => return mk(s, K::Eof),
        Some(c) => c,
    };
    if c == '"' || c == '\'' {
        let (e, v) = string(cs, s)?;
        return mk(e, K::Str(v));
    }
    if is_dec(c) || (c == '.' && s + 1 < cs.len() && is_dec(cs[s + 1])) {
        let (e, n) = number(cs, s)?;
        return mk(e, K::Num(n));
    }
    if c == '\\' || is_start(c) {
        let (e, v, esc) = word(cs, s)?;
        return mk(e, K::Word(v, esc));
    }
    if c == '/' && !operator() {
        let (e, b, f) = regexp(cs, s)?;
        return mk(e, K::Re(b, f));
    }
    if (c as u32) < 128 {
        for (p, d) in puncts() {
            let mut j = s;
            let mut ok = true;
            for pc in p.bytes() {
                if !is(cs, j, pc as char) {
                    ok = false;
                    break;
                }
                j += 1;
            }
            if ok {
                return mk(j, K::Punct(d));
            }
        }
    }
    stop(Own::Illegal, Error::IllegalChar(c))
}

impl Tok {
    pub fn own(&self) -> Own {
        match self.k {
            K::Eof => Own::Eof,
            K::Punct(_) => Own::Punct,
            K::Word(_, false) => Own::Word,
            K::Word(_, true) => Own::Esc,
            K::Num(_) => Own::Num,
            K::Str(_) => Own::Str,
            K::Re(..) => Own::Re,
        }
    }
}
