//! The syntax tree as a flat sequence in postfix order: operands first, then what is built from them.
//! The reference parser writes the same form, so that structure, names and literals compare as text.
use crate::lex::number_text;
use easter::decl::{ConstDtor, Decl, Dtor, Export, Import};
use easter::expr::{Expr, ExprListItem};
use easter::fun::{Fun, Params};
use easter::id::Id;
use easter::obj::{DotKey, Prop, PropKey, PropVal};
use easter::patt::{AssignTarget, CompoundPatt, Patt, PropPatt};
use easter::punc::{AssopTag, BinopTag, LogopTag, Semi, UnopTag};
use easter::stmt::{Block, Case, Dir, ForHead, ForInHead, ForOfHead, ModItem, Module, Script, Stmt, StmtListItem};
use joker::token::{NumberLiteral, RegExpLiteral, StringLiteral};
use joker::track::{Posn, Span, TrackingRef};

macro_rules! codes {
    ($($name:ident)*) => { codes!(@ 0x8000_0000u32, $($name)*); };
    (@ $n:expr, $name:ident $($rest:ident)*) => { pub const $name: u32 = $n; codes!(@ $n + 1, $($rest)*); };
    (@ $n:expr,) => {};
}
codes! {
    TEXT NONE ID THIS NULL TRUE FALSE NUM STR RE ARR HOLE SPREAD OBJ PINIT PGET PSET PMETHOD PSHORT KID KSTR KNUM
    FUNX FUND PARAMS REST SEQ UNOP BINOP LOGOP PREINC PREDEC POSTINC POSTDEC ASSIGN ASSOP COND CALL NEW0 NEW DOT BRACK
    NEWTARGET EMPTY BLOCK VAR LET CONST EXPR IF LABEL BREAK CONT WITH SWITCH RETURN THROW TRY WHILE DO FOR FORIN FOROF
    DEBUGGER DTOR CDTOR HVAR HLET HCONST HEXPR IVARINIT IVAR ILET ICONST CASE CATCH BODY DIR SEMI ASI IMPORT EXPORT DESTRUCT
}

pub struct Out {
    pub v: Vec<u32>,
    /// (where in `v` the node's code is, its source range as offsets)
    pub loc: Vec<(usize, Option<(u32, u32)>)>,
    /// the same for locations that belong to no node: operators, names after a dot, accessors
    pub small: Vec<(usize, Option<(u32, u32)>)>,
    /// all the positions in these
    pub posn: Vec<Posn>,
    /// what TrackingRef gives is the location of the node
    pub tracked: bool,
    /// only what a tree without source text has: values of literals, no semicolons
    pub plain: bool,
}
impl Out {
    pub fn new() -> Out {
        Out { v: Vec::new(), loc: Vec::new(), small: Vec::new(), posn: Vec::new(), tracked: true, plain: false }
    }
    pub fn op(&mut self, c: u32) {
        self.v.push(c);
    }
    pub fn op1(&mut self, c: u32, n: usize) {
        self.v.push(n as u32);
        self.v.push(c);
    }
    pub fn text(&mut self, s: &str) {
        let n = self.v.len();
        for c in s.chars() {
            self.v.push(c as u32);
        }
        let n = self.v.len() - n;
        self.op1(TEXT, n);
    }
    fn positions(&mut self, l: &Option<Span>) {
        if let Some(ref s) = *l {
            self.posn.push(s.start);
            self.posn.push(s.end);
        }
    }
    /// the node just written has this location
    pub fn at(&mut self, l: &Option<Span>) {
        self.positions(l);
        let i = self.v.len();
        self.loc.push((i, l.as_ref().map(|s| (s.start.offset, s.end.offset))));
    }
    pub fn small(&mut self, l: &Option<Span>) {
        self.positions(l);
        let i = self.v.len();
        self.small.push((i, l.as_ref().map(|s| (s.start.offset, s.end.offset))));
    }
    /// the node just written, by its own account
    fn account<T: TrackingRef>(&mut self, x: &T) {
        let l = x.tracking_ref().as_ref().map(|s| (s.start.offset, s.end.offset));
        let n = self.loc.len();
        self.tracked &= n > 0 && self.loc[n - 1].1 == l;
    }
    pub fn mark_small(&mut self, start: usize, end: usize) {
        let i = self.v.len();
        self.small.push((i, Some((start as u32, end as u32))));
    }
    pub fn mark(&mut self, start: usize, end: usize) {
        let i = self.v.len();
        self.loc.push((i, Some((start as u32, end as u32))));
    }
}

pub fn unop(t: &UnopTag) -> u32 {
    match *t {
        UnopTag::Minus => 0,
        UnopTag::Plus => 1,
        UnopTag::Not => 2,
        UnopTag::BitNot => 3,
        UnopTag::Typeof => 4,
        UnopTag::Void => 5,
        UnopTag::Delete => 6,
    }
}
pub fn binop(t: &BinopTag) -> u32 {
    match *t {
        BinopTag::Eq => 0,
        BinopTag::NEq => 1,
        BinopTag::StrictEq => 2,
        BinopTag::StrictNEq => 3,
        BinopTag::Lt => 4,
        BinopTag::LEq => 5,
        BinopTag::Gt => 6,
        BinopTag::GEq => 7,
        BinopTag::LShift => 8,
        BinopTag::RShift => 9,
        BinopTag::URShift => 10,
        BinopTag::Plus => 11,
        BinopTag::Minus => 12,
        BinopTag::Times => 13,
        BinopTag::Div => 14,
        BinopTag::Mod => 15,
        BinopTag::BitOr => 16,
        BinopTag::BitXor => 17,
        BinopTag::BitAnd => 18,
        BinopTag::In => 19,
        BinopTag::Instanceof => 20,
    }
}
pub fn logop(t: &LogopTag) -> u32 {
    match *t {
        LogopTag::Or => 0,
        LogopTag::And => 1,
    }
}
pub fn assop(t: &AssopTag) -> u32 {
    match *t {
        AssopTag::PlusEq => 0,
        AssopTag::MinusEq => 1,
        AssopTag::TimesEq => 2,
        AssopTag::DivEq => 3,
        AssopTag::ModEq => 4,
        AssopTag::LShiftEq => 5,
        AssopTag::RShiftEq => 6,
        AssopTag::URShiftEq => 7,
        AssopTag::BitOrEq => 8,
        AssopTag::BitXorEq => 9,
        AssopTag::BitAndEq => 10,
    }
}

pub trait Put {
    fn put(&self, o: &mut Out);
}
impl<T: Put> Put for Option<T> {
    fn put(&self, o: &mut Out) {
        match *self {
            Some(ref x) => x.put(o),
            None => o.op(NONE),
        }
    }
}
impl<T: Put> Put for Box<T> {
    fn put(&self, o: &mut Out) {
        (**self).put(o)
    }
}
fn all<T: Put>(o: &mut Out, v: &[T]) -> usize {
    for x in v {
        x.put(o);
    }
    v.len()
}
impl Put for Id {
    fn put(&self, o: &mut Out) {
        o.text(self.name.as_ref());
        o.op(ID);
        o.at(&self.location);
        o.account(self);
    }
}
fn num(o: &mut Out, n: &NumberLiteral, code: u32) {
    if o.plain {
        let b = n.value.to_bits();
        o.v.push((b >> 32) as u32);
        o.v.push(b as u32);
        o.op(code);
        return;
    }
    match n.source {
        Some(ref s) => o.text(&number_text(s)),
        None => o.op(NONE),
    }
    o.op(code);
}
fn string(o: &mut Out, s: &StringLiteral, code: u32) {
    match s.source {
        Some(ref s) if !o.plain => o.text(s),
        _ => o.op(NONE),
    }
    o.text(&s.value);
    o.op(code);
}
fn regexp(o: &mut Out, r: &RegExpLiteral) {
    o.text(&r.pattern);
    for c in r.flags.iter() {
        o.v.push(*c as u32);
    }
    o.op1(RE, r.flags.len());
}
impl Put for Semi {
    fn put(&self, o: &mut Out) {
        match *self {
            _ if o.plain => o.op(SEMI),
            Semi::Inserted => o.op(ASI),
            Semi::Explicit(ref p) => {
                o.op(SEMI);
                let i = o.v.len();
                o.loc.push((i, p.as_ref().map(|p| (p.offset, p.offset + 1))));
                o.posn.extend(p.iter().cloned());
            }
        }
    }
}
impl Put for ExprListItem {
    fn put(&self, o: &mut Out) {
        match *self {
            ExprListItem::Expr(ref e) => e.put(o),
            ExprListItem::Spread(ref l, ref e) => {
                e.put(o);
                o.op(SPREAD);
                o.at(l);
            }
        }
        o.account(self);
    }
}
fn elements<T: Put>(o: &mut Out, v: &[Option<T>]) -> usize {
    for x in v {
        match *x {
            Some(ref x) => x.put(o),
            None => o.op(HOLE),
        }
    }
    v.len()
}
impl Put for PropKey {
    fn put(&self, o: &mut Out) {
        match *self {
            PropKey::Id(ref l, ref s) => {
                o.text(s);
                o.op(KID);
                o.at(l);
            }
            PropKey::String(ref l, ref s) => {
                string(o, s, KSTR);
                o.at(l);
            }
            PropKey::Number(ref l, ref n) => {
                num(o, n, KNUM);
                o.at(l);
            }
        }
        o.account(self);
    }
}
impl Put for Prop {
    fn put(&self, o: &mut Out) {
        match *self {
            Prop::Regular(ref l, ref k, ref v) => {
                k.put(o);
                match *v {
                    PropVal::Init(ref e) => {
                        e.put(o);
                        o.op(PINIT);
                    }
                    PropVal::Get(ref l, ref b) => {
                        b.put(o);
                        o.op(PGET);
                        o.small(l);
                    }
                    PropVal::Set(ref l, ref p, ref b) => {
                        p.put(o);
                        b.put(o);
                        o.op(PSET);
                        o.small(l);
                    }
                }
                o.at(l);
            }
            Prop::Method(ref f) => fun(o, f, PMETHOD),
            Prop::Shorthand(ref id) => {
                id.put(o);
                o.op(PSHORT);
            }
        }
        o.account(self);
    }
}
impl Put for Params {
    fn put(&self, o: &mut Out) {
        let n = all(o, &self.list);
        match self.rest {
            Some(ref r) => {
                r.patt.put(o);
                o.op(REST);
                o.at(&r.location);
            }
            None => o.op(NONE),
        }
        o.op1(PARAMS, n);
        o.at(&self.location);
        o.account(self);
    }
}
fn fun<I: Put>(o: &mut Out, f: &Fun<I>, code: u32) {
    f.id.put(o);
    f.params.put(o);
    f.body.put(o);
    o.op1(code, f.generator as usize);
    o.at(&f.location);
}
impl<T: Put> Put for Patt<T> {
    fn put(&self, o: &mut Out) {
        match *self {
            Patt::Simple(ref x) => x.put(o),
            Patt::Compound(ref p) => p.put(o),
        }
    }
}
impl<T: Put> Put for CompoundPatt<T> {
    fn put(&self, o: &mut Out) {
        match *self {
            CompoundPatt::Arr(ref l, ref v, ref rest) => {
                let mut n = elements(o, v);
                if let Some(ref r) = *rest {
                    r.patt.put(o);
                    o.op(SPREAD);
                    o.at(&r.location);
                    n += 1;
                }
                o.op1(ARR, n);
                o.at(l);
            }
            CompoundPatt::Obj(ref l, ref v) => {
                for p in v {
                    match *p {
                        PropPatt::Regular(ref l, ref k, ref p) => {
                            k.put(o);
                            p.put(o);
                            o.op(PINIT);
                            o.at(l);
                        }
                        PropPatt::Shorthand(ref id) => {
                            id.put(o);
                            o.op(PSHORT);
                        }
                    }
                }
                o.op1(OBJ, v.len());
                o.at(l);
            }
        }
    }
}
impl Put for AssignTarget {
    fn put(&self, o: &mut Out) {
        match *self {
            AssignTarget::Id(ref id) => id.put(o),
            AssignTarget::Dot(ref l, ref e, ref k) => dot(o, l, e, k),
            AssignTarget::Brack(ref l, ref e, ref k) => brack(o, l, e, k),
        }
        o.account(self);
    }
}
fn dot(o: &mut Out, l: &Option<Span>, e: &Expr, k: &DotKey) {
    e.put(o);
    o.text(&k.value);
    o.op(DOT);
    o.at(l);
    o.small(&k.location);
}
fn brack(o: &mut Out, l: &Option<Span>, e: &Expr, k: &Expr) {
    e.put(o);
    k.put(o);
    o.op(BRACK);
    o.at(l);
}
impl Put for Expr {
    fn put(&self, o: &mut Out) {
        match *self {
            Expr::This(ref l) => leaf(o, THIS, l),
            Expr::Id(ref id) => id.put(o),
            Expr::Arr(ref l, ref v) => {
                let n = elements(o, v);
                o.op1(ARR, n);
                o.at(l);
            }
            Expr::Obj(ref l, ref v) => {
                let n = all(o, v);
                o.op1(OBJ, n);
                o.at(l);
            }
            Expr::Fun(ref f) => fun(o, f, FUNX),
            Expr::Seq(ref l, ref v) => {
                let n = all(o, v);
                o.op1(SEQ, n);
                o.at(l);
            }
            Expr::Unop(ref l, ref op, ref e) => {
                e.put(o);
                o.op1(UNOP, unop(&op.tag) as usize);
                o.at(l);
                o.small(&op.location);
            }
            Expr::Binop(ref l, ref op, ref a, ref b) => {
                a.put(o);
                b.put(o);
                o.op1(BINOP, binop(&op.tag) as usize);
                o.at(l);
                o.small(&op.location);
            }
            Expr::Logop(ref l, ref op, ref a, ref b) => {
                a.put(o);
                b.put(o);
                o.op1(LOGOP, logop(&op.tag) as usize);
                o.at(l);
                o.small(&op.location);
            }
            Expr::PreInc(ref l, ref t) => step(o, PREINC, l, t),
            Expr::PostInc(ref l, ref t) => step(o, POSTINC, l, t),
            Expr::PreDec(ref l, ref t) => step(o, PREDEC, l, t),
            Expr::PostDec(ref l, ref t) => step(o, POSTDEC, l, t),
            Expr::Assign(ref l, ref p, ref e) => {
                p.put(o);
                e.put(o);
                o.op(ASSIGN);
                o.at(l);
            }
            Expr::BinAssign(ref l, ref op, ref t, ref e) => {
                t.put(o);
                e.put(o);
                o.op1(ASSOP, assop(&op.tag) as usize);
                o.at(l);
                o.small(&op.location);
            }
            Expr::Cond(ref l, ref a, ref b, ref c) => {
                a.put(o);
                b.put(o);
                c.put(o);
                o.op(COND);
                o.at(l);
            }
            Expr::Call(ref l, ref f, ref v) => {
                f.put(o);
                let n = all(o, v);
                o.op1(CALL, n);
                o.at(l);
            }
            Expr::New(ref l, ref f, ref v) => {
                f.put(o);
                match *v {
                    Some(ref v) => {
                        let n = all(o, v);
                        o.op1(NEW, n);
                    }
                    None if o.plain => o.op1(NEW, 0),
                    None => o.op(NEW0),
                }
                o.at(l);
            }
            Expr::Dot(ref l, ref e, ref k) => dot(o, l, e, k),
            Expr::Brack(ref l, ref e, ref k) => brack(o, l, e, k),
            Expr::NewTarget(ref l) => leaf(o, NEWTARGET, l),
            Expr::True(ref l) => leaf(o, TRUE, l),
            Expr::False(ref l) => leaf(o, FALSE, l),
            Expr::Null(ref l) => leaf(o, NULL, l),
            Expr::Number(ref l, ref n) => {
                num(o, n, NUM);
                o.at(l);
            }
            Expr::RegExp(ref l, ref r) => {
                regexp(o, r);
                o.at(l);
            }
            Expr::String(ref l, ref s) => {
                string(o, s, STR);
                o.at(l);
            }
        }
        o.account(self);
    }
}
fn leaf(o: &mut Out, c: u32, l: &Option<Span>) {
    o.op(c);
    o.at(l);
}
fn step(o: &mut Out, c: u32, l: &Option<Span>, t: &AssignTarget) {
    t.put(o);
    o.op(c);
    o.at(l);
}
impl Put for Dtor {
    fn put(&self, o: &mut Out) {
        match *self {
            Dtor::Simple(ref l, ref id, ref e) => {
                id.put(o);
                e.put(o);
                o.op(DTOR);
                o.at(l);
            }
            Dtor::Compound(ref l, ref p, ref e) => {
                p.put(o);
                e.put(o);
                o.op(DESTRUCT);
                o.at(l);
            }
        }
        o.account(self);
    }
}
impl Put for ConstDtor {
    fn put(&self, o: &mut Out) {
        self.patt.put(o);
        self.value.put(o);
        o.op(CDTOR);
        o.at(&self.location);
        o.account(self);
    }
}
impl Put for Decl {
    fn put(&self, o: &mut Out) {
        match *self {
            Decl::Fun(ref f) => fun(o, f, FUND),
            Decl::Let(ref l, ref v, ref s) => {
                let n = all(o, v);
                s.put(o);
                o.op1(LET, n);
                o.at(l);
            }
            Decl::Const(ref l, ref v, ref s) => {
                let n = all(o, v);
                s.put(o);
                o.op1(CONST, n);
                o.at(l);
            }
        }
        o.account(self);
    }
}
impl Put for StmtListItem {
    fn put(&self, o: &mut Out) {
        match *self {
            StmtListItem::Decl(ref d) => d.put(o),
            StmtListItem::Stmt(ref s) => s.put(o),
        }
        o.account(self);
    }
}
impl Put for ModItem {
    fn put(&self, o: &mut Out) {
        match *self {
            ModItem::Import(Import::ForEffect(..)) => o.op(IMPORT),
            ModItem::Export(Export::Var(..)) | ModItem::Export(Export::Decl(_)) => o.op(EXPORT),
            ModItem::StmtListItem(ref s) => s.put(o),
        }
    }
}
impl Put for Block {
    fn put(&self, o: &mut Out) {
        let n = all(o, &self.items);
        o.op1(BLOCK, n);
        o.at(&self.location);
        o.account(self);
    }
}
impl Put for Case {
    fn put(&self, o: &mut Out) {
        self.test.put(o);
        let n = all(o, &self.body);
        o.op1(CASE, n);
        o.at(&self.location);
        o.account(self);
    }
}
impl Put for Dir {
    fn put(&self, o: &mut Out) {
        string(o, &self.string, STR);
        self.semi.put(o);
        o.op(DIR);
        o.at(&self.location);
        o.account(self);
    }
}
fn body<T: Put>(o: &mut Out, l: &Option<Span>, dirs: &[Dir], items: &[T]) {
    let d = all(o, dirs);
    let n = all(o, items);
    o.v.push(d as u32);
    o.op1(BODY, n);
    o.at(l);
}
impl Put for Script {
    fn put(&self, o: &mut Out) {
        body(o, &self.location, &self.dirs, &self.items);
        o.account(self);
    }
}
impl Put for Module {
    fn put(&self, o: &mut Out) {
        body(o, &self.location, &self.dirs, &self.items);
        o.account(self);
    }
}
impl Put for Stmt {
    fn put(&self, o: &mut Out) {
        match *self {
            Stmt::Empty(ref l) => leaf(o, EMPTY, l),
            Stmt::Block(ref b) => b.put(o),
            Stmt::Var(ref l, ref v, ref s) => {
                let n = all(o, v);
                s.put(o);
                o.op1(VAR, n);
                o.at(l);
            }
            Stmt::Expr(ref l, ref e, ref s) => {
                e.put(o);
                s.put(o);
                o.op(EXPR);
                o.at(l);
            }
            Stmt::If(ref l, ref e, ref a, ref b) => {
                e.put(o);
                a.put(o);
                b.put(o);
                o.op(IF);
                o.at(l);
            }
            Stmt::Label(ref l, ref id, ref s) => {
                id.put(o);
                s.put(o);
                o.op(LABEL);
                o.at(l);
            }
            Stmt::Break(ref l, ref id, ref s) => {
                id.put(o);
                s.put(o);
                o.op(BREAK);
                o.at(l);
            }
            Stmt::Cont(ref l, ref id, ref s) => {
                id.put(o);
                s.put(o);
                o.op(CONT);
                o.at(l);
            }
            Stmt::With(ref l, ref e, ref s) => {
                e.put(o);
                s.put(o);
                o.op(WITH);
                o.at(l);
            }
            Stmt::Switch(ref l, ref e, ref v) => {
                e.put(o);
                let n = all(o, v);
                o.op1(SWITCH, n);
                o.at(l);
            }
            Stmt::Return(ref l, ref e, ref s) => {
                e.put(o);
                s.put(o);
                o.op(RETURN);
                o.at(l);
            }
            Stmt::Throw(ref l, ref e, ref s) => {
                e.put(o);
                s.put(o);
                o.op(THROW);
                o.at(l);
            }
            Stmt::Try(ref l, ref b, ref c, ref f) => {
                b.put(o);
                match *c {
                    Some(ref c) => {
                        c.param.put(o);
                        c.body.put(o);
                        o.op(CATCH);
                        o.at(&c.location);
                    }
                    None => o.op(NONE),
                }
                f.put(o);
                o.op(TRY);
                o.at(l);
            }
            Stmt::While(ref l, ref e, ref s) => {
                e.put(o);
                s.put(o);
                o.op(WHILE);
                o.at(l);
            }
            Stmt::DoWhile(ref l, ref s, ref e, ref semi) => {
                s.put(o);
                e.put(o);
                semi.put(o);
                o.op(DO);
                o.at(l);
            }
            Stmt::For(ref l, ref h, ref a, ref b, ref s) => {
                match *h {
                    None => o.op(NONE),
                    Some(ref h) => match **h {
                        ForHead::Var(ref l, ref v) => {
                            let n = all(o, v);
                            o.op1(HVAR, n);
                            o.at(l);
                        }
                        ForHead::Let(ref l, ref v) => {
                            let n = all(o, v);
                            o.op1(HLET, n);
                            o.at(l);
                        }
                        ForHead::Const(ref l, ref v) => {
                            let n = all(o, v);
                            o.op1(HCONST, n);
                            o.at(l);
                        }
                        ForHead::Expr(ref l, ref e) => {
                            e.put(o);
                            o.op(HEXPR);
                            o.at(l);
                        }
                    },
                }
                a.put(o);
                b.put(o);
                s.put(o);
                o.op(FOR);
                o.at(l);
            }
            Stmt::ForIn(ref l, ref h, ref e, ref s) => {
                match **h {
                    ForInHead::VarInit(ref l, ref id, ref e) => {
                        id.put(o);
                        e.put(o);
                        o.op(IVARINIT);
                        o.at(l);
                    }
                    ForInHead::Var(ref l, ref p) => head(o, l, p, IVAR),
                    ForInHead::Let(ref l, ref p) => head(o, l, p, ILET),
                    ForInHead::Const(ref l, ref p) => head(o, l, p, ICONST),
                    ForInHead::Patt(ref p) => p.put(o),
                }
                e.put(o);
                s.put(o);
                o.op(FORIN);
                o.at(l);
            }
            Stmt::ForOf(ref l, ref h, ref e, ref s) => {
                match **h {
                    ForOfHead::Var(ref l, ref p) => head(o, l, p, IVAR),
                    ForOfHead::Let(ref l, ref p) => head(o, l, p, ILET),
                    ForOfHead::Const(ref l, ref p) => head(o, l, p, ICONST),
                    ForOfHead::Patt(ref p) => p.put(o),
                }
                e.put(o);
                s.put(o);
                o.op(FOROF);
                o.at(l);
            }
            Stmt::Debugger(ref l, ref s) => {
                s.put(o);
                o.op(DEBUGGER);
                o.at(l);
            }
        }
        o.account(self);
    }
}
fn head(o: &mut Out, l: &Option<Span>, p: &Patt<Id>, code: u32) {
    p.put(o);
    o.op(code);
    o.at(l);
}
