//! Reference parser for the language esprit documents (ES5 and the parts of ES2015 it implements),
//! written from the standard: recursive descent over the reference scanner, emitting the postfix
//! form of ast.rs.  What the standard has and esprit does not claim to support is `Unclaimed`.
use crate::ast::*;
use crate::spec::{self, Own, Radix, K};
use joker::token::TokenData as T;
use joker::word::Reserved as W;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Why {
    Lex,
    Token,
    Return,
    Break,
    Continue,
    Label,
    LabelType,
    DuplicateDefault,
    With,
    Throw,
    Try,
    Target,
    Binding,
    Word,
    Unclaimed,
}
/// where the fault stands is not claimed
pub const NOWHERE: usize = usize::MAX;
pub struct Rej {
    pub why: Why,
    pub at: usize,
}
type R<X> = Result<X, Rej>;

#[derive(Clone, Copy, PartialEq, Eq)]
enum Kind {
    Simple,
    /// array or object literal that is also an assignment pattern
    Patt,
    /// whether it is a valid target is not claimed
    Open,
    /// an assignment, i.e. a target with a default inside a pattern
    Default,
    Bad,
}
#[derive(Clone, Copy)]
struct E {
    kind: Kind,
    start: usize,
    end: usize,
    /// an operand in parentheses stands first, or last
    lp: bool,
    rp: bool,
}
impl E {
    fn whole(kind: Kind, start: usize, end: usize) -> E {
        E { kind, start, end, lp: false, rp: false }
    }
    fn to(&self, r: &E) -> E {
        E { kind: Kind::Bad, start: self.start, end: r.end, lp: self.lp, rp: r.rp }
    }
}

enum C {
    Eof,
    P(T),
    R(W),
    W,
    Num(bool),
    Str(Option<String>),
    Re((usize, usize), (usize, usize)),
}
struct Tk {
    c: C,
    word: String,
    esc: bool,
    start: usize,
    end: usize,
    nl: bool,
    op: bool,
}

pub struct P<'a> {
    cs: &'a [char],
    pos: usize,
    last: usize,
    cur: Option<Tk>,
    pub o: Out,
    pub strict: bool,
    pub module: bool,
    fun: bool,
    gen: bool,
    iter: bool,
    switch: bool,
    labels: Vec<(String, bool)>,
    pending: usize,
    /// situations met, for the vacuity check
    pub seen: u64,
}

const CONTEXTUAL: [&'static str; 21] = [
    "arguments", "async", "await", "eval", "from", "get", "implements", "interface", "let", "of", "package", "private", "protected", "public",
    "set", "static", "target", "yield", "use", "undefined", "constructor",
];
const STRICT_WORDS: [&'static str; 9] = ["implements", "interface", "let", "package", "private", "protected", "public", "static", "yield"];
fn any(s: &str, l: &[&'static str]) -> bool {
    l.iter().any(|w| *w == s)
}
fn restricted(s: &str) -> bool {
    s == "eval" || s == "arguments"
}

impl<'a> P<'a> {
    pub fn new(cs: &'a [char], strict: bool, module: bool) -> P<'a> {
        P {
            cs,
            pos: 0,
            last: 0,
            cur: None,
            o: Out::new(),
            strict,
            module,
            fun: false,
            gen: false,
            iter: false,
            switch: false,
            labels: Vec::new(),
            pending: 0,
            seen: 0,
        }
    }

    // ------------------------------------------------------------ tokens
    fn rej<X>(&self, why: Why) -> R<X> {
        let at = match self.cur {
            Some(ref t) => t.start,
            None => self.pos,
        };
        Err(Rej { why, at })
    }
    fn unclaimed<X>(&self) -> R<X> {
        self.rej(Why::Unclaimed)
    }
    fn token<X>(&self) -> R<X> {
        match self.cur {
            // arrow functions and what they parenthesise
            Some(Tk { c: C::P(T::Arrow), .. }) => self.unclaimed(),
            Some(Tk { c: C::R(W::Class), .. }) | Some(Tk { c: C::R(W::Super), .. }) => self.unclaimed(),
            _ => self.rej(Why::Token),
        }
    }
    fn peek(&mut self, op: bool) -> R<()> {
        if let Some(ref t) = self.cur {
            let slash = match t.c {
                C::P(T::Slash) | C::P(T::SlashAssign) | C::Re(..) => true,
                _ => false,
            };
            if !slash || t.op == op {
                return Ok(());
            }
        }
        self.cur = None;
        let t = match spec::next(self.cs, self.pos, self.pos == 0, &|| op) {
            Ok(t) => t,
            Err(s) => {
                let tick = s.own == Own::Illegal && spec::trivia(self.cs, self.pos, self.pos == 0).map_or(false, |t| self.cs[t.end] == '`');
                return self.rej(if s.err.is_none() || tick { Why::Unclaimed } else { Why::Lex });
            }
        };
        let mut word = String::new();
        let mut esc = false;
        let c = match t.k {
            K::Eof => C::Eof,
            K::Punct(p) => C::P(p),
            K::Word(s, e) => {
                let r = if e { None } else { spec::as_reserved(&s) };
                if e && any(&s, &CONTEXTUAL) {
                    return self.unclaimed();
                }
                word = s;
                esc = e;
                match r {
                    Some(r) => C::R(r),
                    None => C::W,
                }
            }
            K::Num(n) => C::Num(matches!(n.radix, Radix::LegacyOct)),
            K::Str(v) => C::Str(v),
            K::Re(b, f) => C::Re(b, f),
        };
        self.cur = Some(Tk { c, word, esc, start: t.start, end: t.end, nl: t.newline, op });
        Ok(())
    }
    fn t(&self) -> &Tk {
        self.cur.as_ref().unwrap()
    }
    fn take(&mut self) -> Tk {
        let t = self.cur.take().unwrap();
        self.pos = t.end;
        self.last = t.end;
        t
    }
    fn is(&self, p: &T) -> bool {
        match self.t().c {
            C::P(ref x) => x == p,
            _ => false,
        }
    }
    fn is_r(&self, r: W) -> bool {
        match self.t().c {
            C::R(x) => x == r,
            _ => false,
        }
    }
    fn is_word(&self) -> bool {
        matches!(self.t().c, C::W)
    }
    fn is_w(&self, s: &str) -> bool {
        self.is_word() && !self.t().esc && self.t().word == s
    }
    fn start(&mut self) -> R<usize> {
        self.peek(false)?;
        Ok(self.t().start)
    }
    fn eat(&mut self, p: &T, op: bool) -> R<bool> {
        self.peek(op)?;
        if self.is(p) {
            self.take();
            return Ok(true);
        }
        Ok(false)
    }
    fn expect(&mut self, p: &T, op: bool) -> R<()> {
        if self.eat(p, op)? {
            return Ok(());
        }
        self.token()
    }
    fn reserved(&mut self, r: W) -> R<()> {
        self.peek(false)?;
        if self.is_r(r) {
            self.take();
            return Ok(());
        }
        self.token()
    }
    fn slice(&self, a: usize, b: usize) -> String {
        self.cs[a..b].iter().cloned().collect()
    }

    // ------------------------------------------------------------ programs
    pub fn program(&mut self) -> R<()> {
        let (d, n) = self.body_items(true)?;
        if !matches!(self.t().c, C::Eof) {
            return self.token();
        }
        self.o.v.push(d as u32);
        self.o.op1(BODY, n);
        Ok(())
    }
    /// directives, then items up to a token that ends a statement list
    fn body_items(&mut self, top: bool) -> R<(usize, usize)> {
        let (mut d, mut n) = (0, 0);
        let mut prologue = true;
        let mut octal = false;
        loop {
            self.peek(false)?;
            if self.list_end() {
                return Ok((d, n));
            }
            if prologue {
                if let C::Str(_) = self.t().c {
                    let (a, b) = (self.t().start, self.t().end);
                    let e = self.stmt_start_string()?;
                    if e {
                        // the whole statement is the string
                        let raw = self.slice(a + 1, b - 1);
                        self.o.op(DIR);
                        self.o.mark(a, self.last);
                        octal |= octal_escape(&raw);
                        if raw == "use strict" {
                            self.strict = true;
                            self.seen |= 1 << 1;
                        }
                        if raw == "use module" && top {
                            return self.unclaimed();
                        }
                        if octal && self.strict {
                            return self.unclaimed();
                        }
                        d += 1;
                        continue;
                    }
                    self.semi(false)?;
                    self.o.op(EXPR);
                    self.o.mark(a, self.last);
                    prologue = false;
                    n += 1;
                    continue;
                }
                prologue = false;
            }
            self.stmt(true)?;
            n += 1;
        }
    }
    /// an expression statement that starts with a string; true (and its semicolon is done) if there is nothing else
    fn stmt_start_string(&mut self) -> R<bool> {
        let end = self.t().end;
        self.expr(true)?;
        if self.last != end {
            return Ok(false);
        }
        // a directive holds the string itself, not an expression with a place of its own
        self.o.loc.pop();
        self.semi(false)?;
        Ok(true)
    }
    fn list_end(&self) -> bool {
        match self.t().c {
            C::Eof | C::P(T::RBrace) | C::R(W::Case) | C::R(W::Default) => true,
            _ => false,
        }
    }
    fn list(&mut self) -> R<usize> {
        let mut n = 0;
        loop {
            self.peek(false)?;
            if self.list_end() {
                return Ok(n);
            }
            self.stmt(true)?;
            n += 1;
        }
    }
    fn semi(&mut self, optional: bool) -> R<()> {
        self.peek(false)?;
        if self.is(&T::Semi) {
            let t = self.take();
            self.o.op(SEMI);
            self.o.mark(t.start, t.end);
            return Ok(());
        }
        if self.is(&T::RBrace) || matches!(self.t().c, C::Eof) || self.t().nl || optional {
            self.o.op(ASI);
            self.seen |= 1 << 2;
            return Ok(());
        }
        self.token()
    }

    // ------------------------------------------------------------ statements
    fn stmt(&mut self, decl: bool) -> R<()> {
        let a = self.start()?;
        let pend = self.pending;
        self.pending = 0;
        match self.t().c {
            C::P(T::LBrace) => self.block(),
            C::P(T::Semi) => {
                self.take();
                self.done(EMPTY, a)
            }
            C::R(W::Var) => {
                self.take();
                let n = self.dtors(true, false)?;
                self.semi(false)?;
                self.done1(VAR, n, a)
            }
            C::R(W::Const) => {
                if !decl {
                    return self.token();
                }
                self.take();
                let n = self.dtors(true, true)?;
                self.semi(false)?;
                self.done1(CONST, n, a)
            }
            C::R(W::Function) => {
                if !decl {
                    return self.unclaimed();
                }
                self.function(FUND)
            }
            C::R(W::Class) | C::R(W::Import) | C::R(W::Export) | C::R(W::Super) => self.unclaimed(),
            C::R(W::If) => {
                self.take();
                self.paren()?;
                self.stmt(false)?;
                self.peek(false)?;
                if self.is_r(W::Else) {
                    self.take();
                    self.stmt(false)?;
                } else {
                    self.o.op(NONE);
                }
                self.done(IF, a)
            }
            C::R(W::Do) => {
                self.take();
                self.loops(pend);
                self.body()?;
                self.reserved(W::While)?;
                self.paren()?;
                self.semi(true)?;
                self.done(DO, a)
            }
            C::R(W::While) => {
                self.take();
                self.loops(pend);
                self.paren()?;
                self.body()?;
                self.done(WHILE, a)
            }
            C::R(W::For) => {
                self.take();
                self.loops(pend);
                self.for_statement(a)
            }
            C::R(W::Continue) => {
                let kw = self.take().start;
                self.jump(kw, true)?;
                self.done(CONT, a)
            }
            C::R(W::Break) => {
                let kw = self.take().start;
                self.jump(kw, false)?;
                self.done(BREAK, a)
            }
            C::R(W::Return) => {
                self.take();
                if self.argument()? {
                    self.expr(true)?;
                } else {
                    self.o.op(NONE);
                }
                self.semi(false)?;
                if !self.fun {
                    return Err(Rej { why: Why::Return, at: a });
                }
                self.done(RETURN, a)
            }
            C::R(W::With) => {
                if self.strict {
                    return self.rej(Why::With);
                }
                self.take();
                self.paren()?;
                self.stmt(false)?;
                self.done(WITH, a)
            }
            C::R(W::Switch) => {
                self.take();
                self.paren()?;
                self.expect(&T::LBrace, false)?;
                let outer = std::mem::replace(&mut self.switch, true);
                let n = self.cases()?;
                self.switch = outer;
                self.expect(&T::RBrace, false)?;
                self.done1(SWITCH, n, a)
            }
            C::R(W::Throw) => {
                self.take();
                if !self.argument()? {
                    return Err(Rej { why: Why::Throw, at: a });
                }
                self.expr(true)?;
                self.semi(false)?;
                self.done(THROW, a)
            }
            C::R(W::Try) => self.try_statement(a),
            C::R(W::Debugger) => {
                self.take();
                self.semi(false)?;
                self.done(DEBUGGER, a)
            }
            C::W => {
                let save = self.pos;
                let let_word = self.is_w("let");
                let t = self.take();
                self.peek(true)?;
                if self.is(&T::Colon) {
                    let colon = self.take();
                    return self.labelled(t, colon, pend, a);
                }
                if let_word {
                    if self.is(&T::LBrace) || self.is(&T::LBrack) {
                        return self.unclaimed();
                    }
                    if self.is_word() {
                        if !decl {
                            return if self.t().nl { self.unclaimed() } else { self.token() };
                        }
                        if self.t().word == "let" {
                            return self.unclaimed();
                        }
                        let n = self.dtors(true, false)?;
                        self.semi(false)?;
                        return self.done1(LET, n, a);
                    }
                }
                self.pos = save;
                self.cur = Some(t);
                self.expression_statement(a)
            }
            _ => self.expression_statement(a),
        }
    }
    fn done(&mut self, code: u32, a: usize) -> R<()> {
        self.o.op(code);
        self.o.mark(a, self.last);
        Ok(())
    }
    fn done1(&mut self, code: u32, n: usize, a: usize) -> R<()> {
        self.o.op1(code, n);
        self.o.mark(a, self.last);
        Ok(())
    }
    fn expression_statement(&mut self, a: usize) -> R<()> {
        self.expr(true)?;
        self.semi(false)?;
        self.done(EXPR, a)
    }
    fn block(&mut self) -> R<()> {
        let a = self.start()?;
        self.expect(&T::LBrace, false)?;
        let n = self.list()?;
        self.expect(&T::RBrace, false)?;
        self.done1(BLOCK, n, a)
    }
    fn paren(&mut self) -> R<()> {
        self.expect(&T::LParen, false)?;
        self.expr(true)?;
        self.expect(&T::RParen, true)
    }
    fn loops(&mut self, pend: usize) {
        let n = self.labels.len();
        for l in self.labels[n - pend..].iter_mut() {
            l.1 = true;
        }
    }
    fn body(&mut self) -> R<()> {
        let outer = std::mem::replace(&mut self.iter, true);
        self.stmt(false)?;
        self.iter = outer;
        Ok(())
    }
    fn labelled(&mut self, t: Tk, colon: Tk, pend: usize, a: usize) -> R<()> {
        let _ = colon;
        let name = t.word.clone();
        self.name(t, false)?;
        if self.labels.iter().any(|l| l.0 == name) {
            return self.unclaimed();
        }
        self.labels.push((name, false));
        self.pending = pend + 1;
        self.stmt(false)?;
        self.labels.pop();
        self.done(LABEL, a)
    }
    /// there is an argument on the same line
    fn argument(&mut self) -> R<bool> {
        self.peek(false)?;
        Ok(!(self.t().nl || self.is(&T::Semi) || self.is(&T::RBrace) || matches!(self.t().c, C::Eof)))
    }
    fn jump(&mut self, kw: usize, cont: bool) -> R<()> {
        if self.argument()? {
            if !self.is_word() {
                return self.token();
            }
            let t = self.take();
            let at = t.start;
            let name = t.word.clone();
            self.name(t, false)?;
            match self.labels.iter().find(|l| l.0 == name) {
                None => return Err(Rej { why: Why::Label, at }),
                Some(l) => {
                    if cont && !l.1 {
                        return Err(Rej { why: Why::LabelType, at });
                    }
                }
            }
            self.seen |= 1 << 3;
        } else {
            if cont && !self.iter {
                return Err(Rej { why: Why::Continue, at: kw });
            }
            if !cont && !self.iter && !self.switch {
                return Err(Rej { why: Why::Break, at: kw });
            }
            self.o.op(NONE);
        }
        self.semi(false)
    }
    fn cases(&mut self) -> R<usize> {
        let mut n = 0;
        let mut default = false;
        loop {
            let a = self.start()?;
            if self.is_r(W::Case) {
                self.take();
                self.expr(true)?;
                self.expect(&T::Colon, true)?;
            } else if self.is_r(W::Default) {
                if default {
                    return self.rej(Why::DuplicateDefault);
                }
                default = true;
                self.take();
                self.o.op(NONE);
                self.expect(&T::Colon, false)?;
            } else {
                return Ok(n);
            }
            let k = self.list()?;
            self.done1(CASE, k, a)?;
            n += 1;
        }
    }
    fn try_statement(&mut self, a: usize) -> R<()> {
        self.take();
        self.block()?;
        self.peek(false)?;
        let mut handled = false;
        if self.is_r(W::Catch) {
            let c = self.take().start;
            self.peek(false)?;
            if self.is(&T::LBrace) {
                return self.unclaimed();
            }
            self.expect(&T::LParen, false)?;
            self.binding()?;
            self.expect(&T::RParen, false)?;
            self.block()?;
            self.done(CATCH, c)?;
            handled = true;
            self.peek(false)?;
        } else {
            self.o.op(NONE);
        }
        if self.is_r(W::Finally) {
            self.take();
            self.block()?;
        } else {
            if !handled {
                return self.rej(Why::Try);
            }
            self.o.op(NONE);
        }
        self.done(TRY, a)
    }
    fn for_statement(&mut self, a: usize) -> R<()> {
        self.expect(&T::LParen, false)?;
        let h = self.start()?;
        if self.is(&T::Semi) {
            self.take();
            self.o.op(NONE);
            return self.for_rest(a);
        }
        if self.is_r(W::Var) || self.is_r(W::Const) {
            let var = self.is_r(W::Var);
            self.take();
            return self.for_declaration(a, h, if var { (HVAR, IVAR) } else { (HCONST, ICONST) });
        }
        let mut starts_with_let = false;
        if self.is_w("let") {
            starts_with_let = true;
            let save = self.pos;
            let t = self.take();
            self.peek(false)?;
            if self.is(&T::LBrace) || self.is(&T::LBrack) {
                return self.unclaimed();
            }
            if self.is_word() {
                if self.t().word == "let" {
                    return self.unclaimed();
                }
                return self.for_declaration(a, h, (HLET, ILET));
            }
            self.pos = save;
            self.cur = Some(t);
        }
        let e = self.expr(false)?;
        self.peek(true)?;
        if self.is(&T::Semi) {
            let t = self.take();
            self.o.op(HEXPR);
            self.place(&E { end: t.end, rp: false, ..e });
            return self.for_rest(a);
        }
        let of = self.is_w("of");
        if of || self.is_r(W::In) {
            if of && starts_with_let {
                return self.unclaimed();
            }
            self.target(&e, true)?;
            self.take();
            return self.for_each(a, of);
        }
        self.token()
    }
    fn for_declaration(&mut self, a: usize, h: usize, codes: (u32, u32)) -> R<()> {
        let b = self.start()?;
        self.binding()?;
        let bend = self.last;
        self.peek(false)?;
        let konst = codes.0 == HCONST;
        if self.is(&T::Assign) {
            self.take();
            let e = self.assign(false)?;
            self.peek(true)?;
            if codes.0 == HVAR && self.is_r(W::In) {
                if self.strict {
                    return self.unclaimed();
                }
                self.o.op(IVARINIT);
                if !e.rp {
                    self.o.mark(h, e.end);
                }
                self.take();
                return self.for_each(a, false);
            }
            self.o.op(if konst { CDTOR } else { DTOR });
            if !(konst && e.rp) {
                self.o.mark(b, self.last);
            }
        } else {
            let of = self.is_w("of");
            if of || self.is_r(W::In) {
                self.o.op(codes.1);
                self.o.mark(h, bend);
                self.take();
                return self.for_each(a, of);
            }
            if konst || !(self.is(&T::Comma) || self.is(&T::Semi)) {
                return self.token();
            }
            self.o.op(NONE);
            self.o.op(DTOR);
            self.o.mark(b, bend);
        }
        let mut n = 1;
        while self.eat(&T::Comma, true)? {
            self.dtor(false, konst)?;
            n += 1;
        }
        self.expect(&T::Semi, true)?;
        self.o.op1(codes.0, n);
        self.o.mark(h, self.last);
        self.for_rest(a)
    }
    fn for_each(&mut self, a: usize, of: bool) -> R<()> {
        if of {
            self.assign(true)?;
        } else {
            self.expr(true)?;
        }
        self.expect(&T::RParen, true)?;
        self.body()?;
        self.done(if of { FOROF } else { FORIN }, a)
    }
    fn for_rest(&mut self, a: usize) -> R<()> {
        self.peek(false)?;
        if self.is(&T::Semi) {
            self.o.op(NONE);
        } else {
            self.expr(true)?;
        }
        self.expect(&T::Semi, true)?;
        self.peek(false)?;
        if self.is(&T::RParen) {
            self.o.op(NONE);
        } else {
            self.expr(true)?;
        }
        self.expect(&T::RParen, true)?;
        self.body()?;
        self.done(FOR, a)
    }
    fn dtors(&mut self, in_: bool, konst: bool) -> R<usize> {
        let mut n = 0;
        loop {
            self.dtor(in_, konst)?;
            n += 1;
            if !self.eat(&T::Comma, true)? {
                return Ok(n);
            }
        }
    }
    fn dtor(&mut self, in_: bool, konst: bool) -> R<()> {
        let a = self.start()?;
        self.binding()?;
        self.peek(false)?;
        let mut rp = false;
        if self.is(&T::Assign) {
            self.take();
            rp = self.assign(in_)?.rp;
        } else if konst {
            return self.token();
        } else {
            self.o.op(NONE);
        }
        self.o.op(if konst { CDTOR } else { DTOR });
        if !(konst && rp) {
            self.o.mark(a, self.last);
        }
        Ok(())
    }

    // ------------------------------------------------------------ names and functions
    fn name(&mut self, t: Tk, binding: bool) -> R<Kind> {
        let mut kind = Kind::Simple;
        if !t.esc {
            let at = t.start;
            let w = &t.word;
            if self.gen && w == "yield" {
                return self.unclaimed();
            }
            if self.strict {
                if restricted(w) {
                    if binding {
                        return Err(Rej { why: Why::Binding, at });
                    }
                    kind = Kind::Open;
                }
                if any(w, &STRICT_WORDS) {
                    return Err(Rej { why: Why::Word, at });
                }
            }
            if self.module && w == "await" {
                return Err(Rej { why: Why::Word, at });
            }
        }
        self.o.text(&t.word);
        self.o.op(ID);
        self.o.mark(t.start, t.end);
        Ok(kind)
    }
    fn binding(&mut self) -> R<String> {
        self.peek(false)?;
        if self.is(&T::LBrace) || self.is(&T::LBrack) {
            return self.unclaimed();
        }
        if !self.is_word() {
            return self.token();
        }
        let t = self.take();
        let s = t.word.clone();
        self.name(t, true)?;
        Ok(s)
    }
    fn function(&mut self, code: u32) -> R<()> {
        let a = self.take().start;
        let gen = self.eat(&T::Star, false)?;
        self.peek(false)?;
        let mut names = Vec::new();
        if code == FUND || self.is_word() {
            if gen && self.is_w("yield") {
                return self.unclaimed();
            }
            let s = self.binding()?;
            names.push(s);
        } else {
            self.o.op(NONE);
        }
        self.function_rest(gen, names)?;
        self.done1(code, gen as usize, a)
    }
    fn function_rest(&mut self, gen: bool, mut names: Vec<String>) -> R<()> {
        let first = names.len();
        let outer_gen = std::mem::replace(&mut self.gen, gen);
        self.params(&mut names)?;
        self.function_body(&names, first)?;
        self.gen = outer_gen;
        Ok(())
    }
    fn params(&mut self, names: &mut Vec<String>) -> R<()> {
        let a = self.start()?;
        self.expect(&T::LParen, false)?;
        let mut n = 0;
        let mut rest = false;
        loop {
            self.peek(false)?;
            if self.is(&T::RParen) {
                if n > 0 {
                    return self.unclaimed();
                }
                break;
            }
            if self.is(&T::Ellipsis) {
                let r = self.take().start;
                let s = self.binding()?;
                names.push(s);
                self.o.op(REST);
                self.o.mark(r, self.last);
                rest = true;
                break;
            }
            let s = self.binding()?;
            names.push(s);
            n += 1;
            self.peek(false)?;
            if self.is(&T::Assign) {
                return self.unclaimed();
            }
            if !self.eat(&T::Comma, false)? {
                break;
            }
        }
        if !rest {
            self.o.op(NONE);
        }
        self.expect(&T::RParen, false)?;
        self.done1(PARAMS, n, a)
    }
    fn function_body(&mut self, names: &[String], first: usize) -> R<()> {
        let strict = self.strict;
        let outer = (
            std::mem::replace(&mut self.fun, true),
            std::mem::replace(&mut self.iter, false),
            std::mem::replace(&mut self.switch, false),
            std::mem::replace(&mut self.labels, Vec::new()),
        );
        self.expect(&T::LBrace, false)?;
        let (d, n) = self.body_items(false)?;
        if self.strict {
            // what the standard makes of them depends on the body
            if !strict && names.iter().any(|s| restricted(s) || any(s, &STRICT_WORDS)) {
                return self.unclaimed();
            }
            for i in first..names.len() {
                if names[i + 1..].iter().any(|s| *s == names[i]) {
                    return self.unclaimed();
                }
            }
        }
        self.expect(&T::RBrace, false)?;
        self.o.v.push(d as u32);
        self.o.op1(BODY, n);
        self.fun = outer.0;
        self.iter = outer.1;
        self.switch = outer.2;
        self.labels = outer.3;
        self.strict = strict;
        Ok(())
    }

    // ------------------------------------------------------------ expressions
    fn expr(&mut self, in_: bool) -> R<E> {
        let mut e = self.assign(in_)?;
        let mut n = 1;
        while self.eat(&T::Comma, true)? {
            let r = self.assign(in_)?;
            e.end = r.end;
            e.rp = r.rp;
            n += 1;
        }
        if n > 1 {
            self.o.op1(SEQ, n);
            self.place(&e);
            e.kind = Kind::Bad;
        }
        Ok(e)
    }
    /// where the node just written stands; not claimed where an operand in parentheses comes first or last
    fn place(&mut self, e: &E) {
        if !e.lp && !e.rp {
            self.o.mark(e.start, e.end);
        }
    }
    fn target(&mut self, e: &E, pattern: bool) -> R<()> {
        match e.kind {
            Kind::Simple => Ok(()),
            Kind::Patt if pattern => {
                self.seen |= 1 << 4;
                Ok(())
            }
            Kind::Open => self.unclaimed(),
            _ => Err(Rej { why: Why::Target, at: if e.lp { NOWHERE } else { e.start } }),
        }
    }
    fn assign(&mut self, in_: bool) -> R<E> {
        let l = self.cond(in_)?;
        self.peek(true)?;
        let op = match self.t().c {
            C::P(T::Assign) => None,
            C::P(ref p) => match assign_op(p) {
                Some(o) => Some(o),
                None => return Ok(l),
            },
            _ => return Ok(l),
        };
        self.target(&l, op.is_none())?;
        let t = self.take();
        let r = self.assign(in_)?;
        match op {
            None => self.o.op(ASSIGN),
            Some(o) => self.o.op1(ASSOP, o),
        }
        let e = E { kind: if op.is_none() { Kind::Default } else { Kind::Bad }, ..l.to(&r) };
        self.place(&e);
        if op.is_some() {
            self.o.mark_small(t.start, t.end);
        }
        Ok(e)
    }
    fn cond(&mut self, in_: bool) -> R<E> {
        let t = self.binary(0, in_)?;
        if !self.eat(&T::Question, true)? {
            return Ok(t);
        }
        self.assign(true)?;
        self.expect(&T::Colon, true)?;
        let c = self.assign(in_)?;
        self.o.op(COND);
        let e = t.to(&c);
        self.place(&e);
        Ok(e)
    }
    fn binary(&mut self, min: u32, in_: bool) -> R<E> {
        let mut l = self.unary()?;
        loop {
            self.peek(true)?;
            let (prec, logical, code) = match self.t().c {
                C::P(ref p) => match infix(p) {
                    Some(x) => x,
                    None => return Ok(l),
                },
                C::R(W::In) if in_ => (7, false, 19),
                C::R(W::Instanceof) => (7, false, 20),
                _ => return Ok(l),
            };
            if prec <= min {
                return Ok(l);
            }
            let t = self.take();
            let r = self.binary(prec, in_)?;
            self.o.op1(if logical { LOGOP } else { BINOP }, code);
            l = l.to(&r);
            self.place(&l);
            self.o.mark_small(t.start, t.end);
        }
    }
    fn unary(&mut self) -> R<E> {
        let a = self.start()?;
        let (code, arg) = match self.t().c {
            C::P(T::Inc) => (PREINC, 0),
            C::P(T::Dec) => (PREDEC, 0),
            C::P(T::Minus) => (UNOP, 0),
            C::P(T::Plus) => (UNOP, 1),
            C::P(T::Bang) => (UNOP, 2),
            C::P(T::Tilde) => (UNOP, 3),
            C::R(W::Typeof) => (UNOP, 4),
            C::R(W::Void) => (UNOP, 5),
            C::R(W::Delete) => (UNOP, 6),
            _ => {
                let e = self.lhs(false)?;
                self.peek(true)?;
                let code = if self.t().nl {
                    return Ok(e);
                } else if self.is(&T::Inc) {
                    POSTINC
                } else if self.is(&T::Dec) {
                    POSTDEC
                } else {
                    return Ok(e);
                };
                self.target(&e, false)?;
                self.take();
                self.o.op(code);
                let e = E { kind: Kind::Bad, end: self.last, rp: false, ..e };
                self.place(&e);
                return Ok(e);
            }
        };
        let t = self.take();
        let e = self.unary()?;
        let all = E { kind: Kind::Bad, start: a, lp: false, ..e };
        if code == UNOP {
            if arg == 6 && self.strict && e.kind != Kind::Bad {
                // deleting a plain name is an error in strict code
                return self.unclaimed();
            }
            self.o.op1(UNOP, arg);
        } else {
            self.target(&e, false)?;
            self.o.op(code);
        }
        self.place(&all);
        if code == UNOP {
            self.o.mark_small(t.start, t.end);
        }
        Ok(all)
    }
    /// `member`: calls end the expression (the operand of new)
    fn lhs(&mut self, member: bool) -> R<E> {
        self.peek(false)?;
        let mut key = None;
        let mut e = if self.is_r(W::New) { self.new_expression()? } else { self.primary()? };
        loop {
            self.peek(true)?;
            match self.t().c {
                C::P(T::Dot) => {
                    self.take();
                    self.peek(false)?;
                    match self.t().c {
                        C::W | C::R(_) => {}
                        _ => return self.token(),
                    }
                    let t = self.take();
                    self.o.text(&t.word);
                    self.o.op(DOT);
                    key = Some((t.start, t.end));
                    e = E { kind: Kind::Simple, end: t.end, rp: false, ..e };
                }
                C::P(T::LBrack) => {
                    self.take();
                    self.expr(true)?;
                    self.expect(&T::RBrack, true)?;
                    self.o.op(BRACK);
                    e = E { kind: Kind::Simple, end: self.last, rp: false, ..e };
                }
                C::P(T::LParen) if !member => {
                    let n = self.arguments()?;
                    self.o.op1(CALL, n);
                    e = E { kind: Kind::Bad, end: self.last, rp: false, ..e };
                }
                _ => return Ok(e),
            }
            self.place(&e);
            if let Some((a, b)) = key.take() {
                self.o.mark_small(a, b);
            }
        }
    }
    fn new_expression(&mut self) -> R<E> {
        let a = self.take().start;
        self.peek(true)?;
        if self.is(&T::Dot) {
            self.take();
            self.peek(false)?;
            if !self.is_w("target") {
                return self.token();
            }
            if !self.fun {
                return self.unclaimed();
            }
            self.take();
            self.o.op(NEWTARGET);
        } else {
            let c = self.lhs(true)?;
            self.peek(true)?;
            if self.is(&T::LParen) {
                let n = self.arguments()?;
                self.o.op1(NEW, n);
            } else {
                self.o.op(NEW0);
                let e = E { kind: Kind::Bad, start: a, lp: false, ..c };
                self.place(&e);
                return Ok(e);
            }
        }
        self.o.mark(a, self.last);
        Ok(E::whole(Kind::Bad, a, self.last))
    }
    fn arguments(&mut self) -> R<usize> {
        self.take();
        let mut n = 0;
        loop {
            self.peek(false)?;
            if self.is(&T::RParen) {
                if n > 0 {
                    return self.unclaimed();
                }
                break;
            }
            self.element()?;
            n += 1;
            if !self.eat(&T::Comma, true)? {
                break;
            }
        }
        self.expect(&T::RParen, true)?;
        Ok(n)
    }
    /// an expression or a spread; the kind it has as an element of a pattern
    fn element(&mut self) -> R<(Kind, bool)> {
        let a = self.start()?;
        if self.is(&T::Ellipsis) {
            self.take();
            let e = self.assign(true)?;
            self.o.op(SPREAD);
            self.o.mark(a, self.last);
            return Ok((e.kind, true));
        }
        Ok((self.assign(true)?.kind, false))
    }
    fn primary(&mut self) -> R<E> {
        let a = self.start()?;
        let mut kind = Kind::Bad;
        match self.t().c {
            C::W => {
                let t = self.take();
                kind = self.name(t, false)?;
                return Ok(E::whole(kind, a, self.last));
            }
            C::R(W::This) => self.o.op(THIS),
            C::R(W::Null) => self.o.op(NULL),
            C::R(W::True) => self.o.op(TRUE),
            C::R(W::False) => self.o.op(FALSE),
            C::Num(legacy) => {
                if legacy && self.strict {
                    return self.unclaimed();
                }
                let s = self.slice(a, self.t().end);
                self.o.text(&s);
                self.o.op(NUM);
            }
            C::Str(_) => {
                self.string(a)?;
                self.o.op(STR);
            }
            C::Re(b, f) => {
                let s = self.slice(b.0, b.1);
                self.o.text(&s);
                for i in f.0..f.1 {
                    self.o.v.push(self.cs[i] as u32);
                }
                self.o.op1(RE, f.1 - f.0);
                self.seen |= 1 << 5;
            }
            C::P(T::LBrack) => {
                kind = self.array()?;
                self.o.mark(a, self.last);
                return Ok(E::whole(kind, a, self.last));
            }
            C::P(T::LBrace) => {
                kind = self.object()?;
                self.o.mark(a, self.last);
                return Ok(E::whole(kind, a, self.last));
            }
            C::R(W::Function) => {
                self.function(FUNX)?;
                return Ok(E::whole(kind, a, self.last));
            }
            C::P(T::LParen) => {
                self.take();
                self.peek(false)?;
                if self.is(&T::RParen) || self.is(&T::Ellipsis) {
                    // the parameters of an arrow function, or an error
                    return self.unclaimed();
                }
                let mut e = self.expr(true)?;
                self.expect(&T::RParen, true)?;
                e.kind = match e.kind {
                    Kind::Simple => Kind::Simple,
                    Kind::Patt | Kind::Open => Kind::Open,
                    _ => Kind::Bad,
                };
                e.lp = true;
                e.rp = true;
                return Ok(e);
            }
            C::R(W::Class) | C::R(W::Super) => return self.unclaimed(),
            _ => return self.token(),
        }
        self.take();
        self.o.mark(a, self.last);
        Ok(E::whole(kind, a, self.last))
    }
    fn string(&mut self, a: usize) -> R<()> {
        let end = self.t().end;
        let raw = self.slice(a, end);
        if self.strict && octal_escape(&raw) {
            return self.unclaimed();
        }
        let v = match self.t().c {
            C::Str(Some(ref v)) => v.clone(),
            _ => return self.unclaimed(),
        };
        self.o.text(&raw);
        self.o.text(&v);
        Ok(())
    }
    fn array(&mut self) -> R<Kind> {
        self.take();
        let mut n = 0;
        let mut kind = Kind::Patt;
        let mut rest = false;
        loop {
            self.peek(false)?;
            if self.is(&T::RBrack) {
                if rest {
                    // a comma after the rest element of a pattern
                    kind = Kind::Open;
                }
                break;
            }
            if rest {
                // a rest element that is not the last
                kind = Kind::Bad;
            }
            n += 1;
            if self.is(&T::Comma) {
                self.o.op(HOLE);
            } else {
                let (k, spread) = self.element()?;
                rest |= spread;
                kind = join(kind, k, spread);
            }
            if !self.eat(&T::Comma, true)? {
                break;
            }
        }
        self.expect(&T::RBrack, true)?;
        self.o.op1(ARR, n);
        Ok(kind)
    }
    fn object(&mut self) -> R<Kind> {
        self.take();
        let mut n = 0;
        let mut kind = Kind::Patt;
        loop {
            self.peek(false)?;
            if self.is(&T::RBrace) {
                break;
            }
            let k = self.property()?;
            kind = join(kind, k, false);
            n += 1;
            if !self.eat(&T::Comma, true)? {
                break;
            }
        }
        self.expect(&T::RBrace, true)?;
        self.o.op1(OBJ, n);
        Ok(kind)
    }
    fn is_key(&mut self) -> R<bool> {
        self.peek(false)?;
        Ok(match self.t().c {
            C::W | C::R(_) | C::Str(_) | C::Num(_) => true,
            _ => false,
        })
    }
    fn key(&mut self) -> R<()> {
        if !self.is_key()? {
            return if self.is(&T::LBrack) { self.unclaimed() } else { self.token() };
        }
        let a = self.t().start;
        let code = match self.t().c {
            C::Str(_) => {
                self.string(a)?;
                KSTR
            }
            C::Num(legacy) => {
                if legacy && self.strict {
                    return self.unclaimed();
                }
                let s = self.slice(a, self.t().end);
                self.o.text(&s);
                KNUM
            }
            _ => {
                let s = self.t().word.clone();
                self.o.text(&s);
                KID
            }
        };
        self.take();
        self.o.op(code);
        self.o.mark(a, self.last);
        Ok(())
    }
    fn property(&mut self) -> R<Kind> {
        let a = self.start()?;
        if self.is(&T::Star) {
            self.take();
            let k = self.start()?;
            self.key()?;
            self.function_rest(true, Vec::new())?;
            self.done1(PMETHOD, 1, k)?;
            return Ok(Kind::Bad);
        }
        let get = self.is_w("get");
        if get || self.is_w("set") {
            let save = self.pos;
            let t = self.take();
            self.peek(false)?;
            if self.is(&T::LBrack) {
                return self.unclaimed();
            }
            if self.is_key()? {
                let k = self.t().start;
                self.key()?;
                self.expect(&T::LParen, false)?;
                let mut names = Vec::new();
                let outer_gen = std::mem::replace(&mut self.gen, false);
                if !get {
                    let s = self.binding()?;
                    names.push(s);
                    self.peek(false)?;
                    if self.is(&T::Assign) {
                        return self.unclaimed();
                    }
                }
                self.expect(&T::RParen, false)?;
                self.function_body(&names, 0)?;
                self.gen = outer_gen;
                self.done(if get { PGET } else { PSET }, k)?;
                return Ok(Kind::Bad);
            }
            self.pos = save;
            self.cur = Some(t);
        }
        self.peek(false)?;
        // a name on its own
        if self.is_word() {
            let save = self.pos;
            let t = self.take();
            self.peek(true)?;
            if self.is(&T::Comma) || self.is(&T::RBrace) {
                let k = self.name(t, false)?;
                self.o.op(PSHORT);
                return Ok(k);
            }
            if self.is(&T::Assign) {
                return self.unclaimed();
            }
            self.pos = save;
            self.cur = Some(t);
        }
        let word = matches!(self.t().c, C::R(_));
        self.key()?;
        self.peek(false)?;
        if self.is(&T::LParen) {
            self.function_rest(false, Vec::new())?;
            self.done1(PMETHOD, 0, a)?;
            return Ok(Kind::Bad);
        }
        if word && (self.is(&T::Comma) || self.is(&T::RBrace)) {
            // the reserved word that cannot stand on its own, or what shows that it does
            return Err(Rej { why: Why::Token, at: NOWHERE });
        }
        self.expect(&T::Colon, false)?;
        let e = self.assign(true)?;
        self.o.op(PINIT);
        if !e.rp {
            self.o.mark(a, e.end);
        }
        Ok(e.kind)
    }
}

/// a pattern with one more element
fn join(sum: Kind, k: Kind, spread: bool) -> Kind {
    if sum == Kind::Bad {
        return Kind::Bad;
    }
    match k {
        Kind::Simple | Kind::Patt => sum,
        Kind::Open => Kind::Open,
        // a default is not something esprit's tree can hold
        Kind::Default if !spread => Kind::Open,
        _ => Kind::Bad,
    }
}
fn octal_escape(raw: &str) -> bool {
    let mut bs = false;
    for c in raw.chars() {
        if bs && matches!(c, '0'..='9') {
            return true;
        }
        bs = c == '\\' && !bs;
    }
    false
}
fn assign_op(p: &T) -> Option<usize> {
    Some(match *p {
        T::PlusAssign => 0,
        T::MinusAssign => 1,
        T::StarAssign => 2,
        T::SlashAssign => 3,
        T::ModAssign => 4,
        T::LShiftAssign => 5,
        T::RShiftAssign => 6,
        T::URShiftAssign => 7,
        T::BitOrAssign => 8,
        T::BitXorAssign => 9,
        T::BitAndAssign => 10,
        _ => return None,
    })
}
/// (precedence, logical, code in ast.rs)
fn infix(p: &T) -> Option<(u32, bool, usize)> {
    Some(match *p {
        T::LogicalOr => (1, true, 0),
        T::LogicalAnd => (2, true, 1),
        T::BitOr => (3, false, 16),
        T::BitXor => (4, false, 17),
        T::BitAnd => (5, false, 18),
        T::Eq => (6, false, 0),
        T::NEq => (6, false, 1),
        T::StrictEq => (6, false, 2),
        T::StrictNEq => (6, false, 3),
        T::LAngle => (7, false, 4),
        T::LEq => (7, false, 5),
        T::RAngle => (7, false, 6),
        T::GEq => (7, false, 7),
        T::LShift => (8, false, 8),
        T::RShift => (8, false, 9),
        T::URShift => (8, false, 10),
        T::Plus => (9, false, 11),
        T::Minus => (9, false, 12),
        T::Star => (10, false, 13),
        T::Slash => (10, false, 14),
        T::Mod => (10, false, 15),
        _ => return None,
    })
}
