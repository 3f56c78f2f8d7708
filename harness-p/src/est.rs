//! crates/estree against ESTree as its specification describes it: a writer from easter's tree to
//! ESTree JSON, and which parts of a node are required.
use crate::ast::{assop, binop, logop, unop, Out, Put};
use crate::lex::text;
use crate::par::{same, source};
use crate::sx::*;
use easter::decl::{ConstDtor, Decl, Dtor};
use easter::expr::{Expr, ExprListItem};
use easter::fun::{Fun, Params};
use easter::id::Id;
use easter::obj::{Prop, PropKey, PropVal};
use easter::patt::{AssignTarget, CompoundPatt, Patt, PropPatt};
use easter::stmt::{Block, Dir, ForHead, ForInHead, ForOfHead, Script, Stmt, StmtListItem};
use estree::IntoScript;
use joker::token::{NumberLiteral, NumberSource, StringLiteral};
use serde_json::value::Value;
use std::collections::BTreeMap;

type Object = BTreeMap<String, Value>;

const UNOPS: [&'static str; 7] = ["-", "+", "!", "~", "typeof", "void", "delete"];
const BINOPS: [&'static str; 21] =
    ["==", "!=", "===", "!==", "<", "<=", ">", ">=", "<<", ">>", ">>>", "+", "-", "*", "/", "%", "|", "^", "&", "in", "instanceof"];
const LOGOPS: [&'static str; 2] = ["||", "&&"];
const ASSOPS: [&'static str; 11] = ["+=", "-=", "*=", "/=", "%=", "<<=", ">>=", ">>>=", "|=", "^=", "&="];

/// how things with more than one spelling in JSON are written
struct W {
    /// 0 floating point, 1 unsigned, 2 signed
    num: u64,
}

fn st(s: &str) -> Value {
    Value::String(s.to_string())
}
fn arr<T, F: Fn(&T) -> Value>(v: &[T], f: F) -> Value {
    Value::Array(v.iter().map(f).collect())
}
fn plain(f: Vec<(&'static str, Value)>) -> Object {
    f.into_iter().map(|(k, v)| (k.to_string(), v)).collect()
}
fn node(ty: &str, mut f: Vec<(&'static str, Value)>) -> Value {
    f.push(("type", st(ty)));
    Value::Object(plain(f))
}
fn ident(s: &str) -> Value {
    node("Identifier", vec![("name", st(s))])
}

impl W {
    /// an optional part
    fn opt(&self, v: Value, name: &'static str, x: Option<Value>) -> Value {
        let mut v = match v {
            Value::Object(o) => o,
            v => return v,
        };
        match x {
            Some(x) => {
                v.insert(name.to_string(), x);
            }
            None => {
                v.insert(name.to_string(), Value::Null);
            }
        }
        Value::Object(v)
    }
    fn id(&self, i: &Id) -> Value {
        ident(i.name.as_ref())
    }
    fn string(&self, s: &StringLiteral) -> Value {
        node("Literal", vec![("value", st(&s.value))])
    }
    fn number(&self, n: &NumberLiteral) -> Value {
        let whole = match n.source {
            Some(NumberSource::DecimalInt(_, None)) => true,
            _ => false,
        };
        let v = match self.num {
            1 if whole => Value::U64(n.value as u64),
            2 if whole => Value::I64(n.value as i64),
            _ => Value::F64(n.value),
        };
        node("Literal", vec![("value", v)])
    }
    fn item(&self, e: &ExprListItem) -> Value {
        match *e {
            ExprListItem::Expr(ref e) => self.expr(e),
            ExprListItem::Spread(_, ref e) => node("SpreadElement", vec![("argument", self.expr(e))]),
        }
    }
    fn key(&self, k: &PropKey) -> Value {
        match *k {
            PropKey::Id(_, ref s) => ident(s),
            PropKey::String(_, ref s) => self.string(s),
            PropKey::Number(_, ref n) => self.number(n),
        }
    }
    fn params(&self, p: &Params) -> Value {
        let mut v: Vec<Value> = p.list.iter().map(|p| self.patt(p)).collect();
        if let Some(ref r) = p.rest {
            v.push(node("RestElement", vec![("argument", self.patt(&r.patt))]));
        }
        Value::Array(v)
    }
    fn body(&self, s: &Script) -> Value {
        node("BlockStatement", vec![("body", self.script_items(s))])
    }
    fn function(&self, ty: &str, id: Option<Value>, params: Value, body: &Script, generator: bool) -> Value {
        let f = vec![("params", params), ("body", self.body(body)), ("expression", Value::Bool(false)), ("generator", Value::Bool(generator))];
        self.opt(node(ty, f), "id", id)
    }
    fn fun<I>(&self, ty: &str, id: Option<Value>, f: &Fun<I>) -> Value {
        self.function(ty, id, self.params(&f.params), &f.body, f.generator)
    }
    fn prop(&self, p: &Prop) -> Value {
        let (key, value, kind, method, short) = match *p {
            Prop::Regular(_, ref k, PropVal::Init(ref e)) => (self.key(k), self.expr(e), "init", false, false),
            Prop::Regular(_, ref k, PropVal::Get(_, ref b)) => {
                (self.key(k), self.function("FunctionExpression", None, Value::Array(vec![]), b, false), "get", false, false)
            }
            Prop::Regular(_, ref k, PropVal::Set(_, ref p, ref b)) => {
                (self.key(k), self.function("FunctionExpression", None, Value::Array(vec![self.patt(p)]), b, false), "set", false, false)
            }
            Prop::Method(ref f) => (self.key(&f.id), self.fun("FunctionExpression", None, f), "init", true, false),
            Prop::Shorthand(ref id) => (self.id(id), self.id(id), "init", false, true),
        };
        node(
            "Property",
            vec![
                ("key", key),
                ("value", value),
                ("kind", st(kind)),
                ("method", Value::Bool(method)),
                ("shorthand", Value::Bool(short)),
                ("computed", Value::Bool(false)),
            ],
        )
    }
    fn patt(&self, p: &Patt<Id>) -> Value {
        match *p {
            Patt::Simple(ref id) => self.id(id),
            Patt::Compound(_) => Value::Null,
        }
    }
    fn dot(&self, e: &Expr, k: &str) -> Value {
        node("MemberExpression", vec![("object", self.expr(e)), ("property", ident(k)), ("computed", Value::Bool(false))])
    }
    fn brack(&self, e: &Expr, k: &Expr) -> Value {
        node("MemberExpression", vec![("object", self.expr(e)), ("property", self.expr(k)), ("computed", Value::Bool(true))])
    }
    fn target(&self, t: &AssignTarget) -> Value {
        match *t {
            AssignTarget::Id(ref id) => self.id(id),
            AssignTarget::Dot(_, ref e, ref k) => self.dot(e, &k.value),
            AssignTarget::Brack(_, ref e, ref k) => self.brack(e, k),
        }
    }
    /// assignment patterns are written as the expressions they look like
    fn assign(&self, p: &Patt<AssignTarget>) -> Value {
        match *p {
            Patt::Simple(ref t) => self.target(t),
            Patt::Compound(CompoundPatt::Arr(_, ref v, ref rest)) => {
                let mut a: Vec<Value> = v
                    .iter()
                    .map(|x| match *x {
                        Some(ref x) => self.assign(x),
                        None => Value::Null,
                    })
                    .collect();
                if let Some(ref r) = *rest {
                    a.push(node("SpreadElement", vec![("argument", self.assign(&r.patt))]));
                }
                node("ArrayExpression", vec![("elements", Value::Array(a))])
            }
            Patt::Compound(CompoundPatt::Obj(_, ref v)) => node(
                "ObjectExpression",
                vec![(
                    "properties",
                    arr(v, |p| {
                        let (k, v, short) = match *p {
                            PropPatt::Regular(_, ref k, ref p) => (self.key(k), self.assign(p), false),
                            PropPatt::Shorthand(ref id) => (self.id(id), self.id(id), true),
                        };
                        node(
                            "Property",
                            vec![
                                ("key", k),
                                ("value", v),
                                ("kind", st("init")),
                                ("method", Value::Bool(false)),
                                ("shorthand", Value::Bool(short)),
                                ("computed", Value::Bool(false)),
                            ],
                        )
                    }),
                )],
            ),
        }
    }
    fn step(&self, op: &str, prefix: bool, t: &AssignTarget) -> Value {
        node("UpdateExpression", vec![("operator", st(op)), ("prefix", Value::Bool(prefix)), ("argument", self.target(t))])
    }
    fn two(&self, ty: &str, op: &str, a: &Expr, b: &Expr) -> Value {
        node(ty, vec![("operator", st(op)), ("left", self.expr(a)), ("right", self.expr(b))])
    }
    fn expr(&self, e: &Expr) -> Value {
        match *e {
            Expr::This(_) => node("ThisExpression", vec![]),
            Expr::Id(ref id) => self.id(id),
            Expr::Arr(_, ref v) => node(
                "ArrayExpression",
                vec![(
                    "elements",
                    arr(v, |x| match *x {
                        Some(ref x) => self.item(x),
                        None => Value::Null,
                    }),
                )],
            ),
            Expr::Obj(_, ref v) => node("ObjectExpression", vec![("properties", arr(v, |p| self.prop(p)))]),
            Expr::Fun(ref f) => self.fun("FunctionExpression", f.id.as_ref().map(|i| self.id(i)), f),
            Expr::Seq(_, ref v) => node("SequenceExpression", vec![("expressions", arr(v, |e| self.expr(e)))]),
            Expr::Unop(_, ref op, ref e) => node(
                "UnaryExpression",
                vec![("operator", st(UNOPS[unop(&op.tag) as usize])), ("prefix", Value::Bool(true)), ("argument", self.expr(e))],
            ),
            Expr::Binop(_, ref op, ref a, ref b) => self.two("BinaryExpression", BINOPS[binop(&op.tag) as usize], a, b),
            Expr::Logop(_, ref op, ref a, ref b) => self.two("LogicalExpression", LOGOPS[logop(&op.tag) as usize], a, b),
            Expr::PreInc(_, ref t) => self.step("++", true, t),
            Expr::PostInc(_, ref t) => self.step("++", false, t),
            Expr::PreDec(_, ref t) => self.step("--", true, t),
            Expr::PostDec(_, ref t) => self.step("--", false, t),
            Expr::Assign(_, ref p, ref e) => {
                node("AssignmentExpression", vec![("operator", st("=")), ("left", self.assign(p)), ("right", self.expr(e))])
            }
            Expr::BinAssign(_, ref op, ref t, ref e) => node(
                "AssignmentExpression",
                vec![("operator", st(ASSOPS[assop(&op.tag) as usize])), ("left", self.target(t)), ("right", self.expr(e))],
            ),
            Expr::Cond(_, ref a, ref b, ref c) => node(
                "ConditionalExpression",
                vec![("test", self.expr(a)), ("consequent", self.expr(b)), ("alternate", self.expr(c))],
            ),
            Expr::Call(_, ref f, ref v) => {
                node("CallExpression", vec![("callee", self.expr(f)), ("arguments", arr(v, |a| self.item(a)))])
            }
            Expr::New(_, ref f, ref v) => node(
                "NewExpression",
                vec![
                    ("callee", self.expr(f)),
                    (
                        "arguments",
                        match *v {
                            Some(ref v) => arr(v, |a| self.item(a)),
                            None => Value::Array(vec![]),
                        },
                    ),
                ],
            ),
            Expr::Dot(_, ref e, ref k) => self.dot(e, &k.value),
            Expr::Brack(_, ref e, ref k) => self.brack(e, k),
            Expr::NewTarget(_) => node("MetaProperty", vec![("meta", ident("new")), ("property", ident("target"))]),
            Expr::True(_) => node("Literal", vec![("value", Value::Bool(true))]),
            Expr::False(_) => node("Literal", vec![("value", Value::Bool(false))]),
            Expr::Null(_) => node("Literal", vec![("value", Value::Null)]),
            Expr::Number(_, ref n) => self.number(n),
            Expr::RegExp(_, ref r) => {
                let flags: String = r.flags.iter().cloned().collect();
                let value = if self.num == 0 { Value::Null } else { Value::Object(Object::new()) };
                node(
                    "Literal",
                    vec![("value", value), ("regex", Value::Object(plain(vec![("pattern", st(&r.pattern)), ("flags", st(&flags))])))],
                )
            }
            Expr::String(_, ref s) => self.string(s),
        }
    }
    fn declarator(&self, id: Value, init: Option<&Expr>) -> Value {
        self.opt(node("VariableDeclarator", vec![("id", id)]), "init", init.map(|e| self.expr(e)))
    }
    fn declaration(&self, kind: &str, v: Vec<Value>) -> Value {
        node("VariableDeclaration", vec![("declarations", Value::Array(v)), ("kind", st(kind))])
    }
    fn dtors(&self, kind: &str, v: &[Dtor]) -> Value {
        let v = v
            .iter()
            .map(|d| match *d {
                Dtor::Simple(_, ref id, ref e) => self.declarator(self.id(id), e.as_ref()),
                Dtor::Compound(..) => Value::Null,
            })
            .collect();
        self.declaration(kind, v)
    }
    fn consts(&self, v: &[ConstDtor]) -> Value {
        self.declaration("const", v.iter().map(|d| self.declarator(self.patt(&d.patt), Some(&d.value))).collect())
    }
    fn one(&self, kind: &str, p: &Patt<Id>) -> Value {
        self.declaration(kind, vec![self.declarator(self.patt(p), None)])
    }
    fn decl(&self, d: &Decl) -> Value {
        match *d {
            Decl::Fun(ref f) => self.fun("FunctionDeclaration", Some(self.id(&f.id)), f),
            Decl::Let(_, ref v, _) => self.dtors("let", v),
            Decl::Const(_, ref v, _) => self.consts(v),
        }
    }
    fn items(&self, v: &[StmtListItem]) -> Value {
        arr(v, |s| match *s {
            StmtListItem::Decl(ref d) => self.decl(d),
            StmtListItem::Stmt(ref s) => self.stmt(s),
        })
    }
    fn dir(&self, d: &Dir) -> Value {
        node("ExpressionStatement", vec![("expression", self.string(&d.string)), ("directive", st(&d.string.value))])
    }
    fn script_items(&self, s: &Script) -> Value {
        let mut v: Vec<Value> = s.dirs.iter().map(|d| self.dir(d)).collect();
        if let Value::Array(a) = self.items(&s.items) {
            v.extend(a);
        }
        Value::Array(v)
    }
    fn block(&self, b: &Block) -> Value {
        node("BlockStatement", vec![("body", self.items(&b.items))])
    }
    fn some(&self, e: &Option<Expr>) -> Option<Value> {
        e.as_ref().map(|e| self.expr(e))
    }
    fn stmt(&self, s: &Stmt) -> Value {
        match *s {
            Stmt::Empty(_) => node("EmptyStatement", vec![]),
            Stmt::Block(ref b) => self.block(b),
            Stmt::Var(_, ref v, _) => self.dtors("var", v),
            Stmt::Expr(_, ref e, _) => node("ExpressionStatement", vec![("expression", self.expr(e))]),
            Stmt::If(_, ref e, ref a, ref b) => self.opt(
                node("IfStatement", vec![("test", self.expr(e)), ("consequent", self.stmt(a))]),
                "alternate",
                b.as_ref().map(|b| self.stmt(b)),
            ),
            Stmt::Label(_, ref id, ref s) => node("LabeledStatement", vec![("label", self.id(id)), ("body", self.stmt(s))]),
            Stmt::Break(_, ref id, _) => self.opt(node("BreakStatement", vec![]), "label", id.as_ref().map(|i| self.id(i))),
            Stmt::Cont(_, ref id, _) => self.opt(node("ContinueStatement", vec![]), "label", id.as_ref().map(|i| self.id(i))),
            Stmt::With(_, ref e, ref s) => node("WithStatement", vec![("object", self.expr(e)), ("body", self.stmt(s))]),
            Stmt::Switch(_, ref e, ref v) => node(
                "SwitchStatement",
                vec![
                    ("discriminant", self.expr(e)),
                    (
                        "cases",
                        arr(v, |c| self.opt(node("SwitchCase", vec![("consequent", self.items(&c.body))]), "test", self.some(&c.test))),
                    ),
                ],
            ),
            Stmt::Return(_, ref e, _) => self.opt(node("ReturnStatement", vec![]), "argument", self.some(e)),
            Stmt::Throw(_, ref e, _) => node("ThrowStatement", vec![("argument", self.expr(e))]),
            Stmt::Try(_, ref b, ref c, ref f) => {
                let v = node("TryStatement", vec![("block", self.block(b))]);
                let v = self.opt(
                    v,
                    "handler",
                    c.as_ref().map(|c| node("CatchClause", vec![("param", self.patt(&c.param)), ("body", self.block(&c.body))])),
                );
                self.opt(v, "finalizer", f.as_ref().map(|f| self.block(f)))
            }
            Stmt::While(_, ref e, ref s) => node("WhileStatement", vec![("test", self.expr(e)), ("body", self.stmt(s))]),
            Stmt::DoWhile(_, ref s, ref e, _) => node("DoWhileStatement", vec![("body", self.stmt(s)), ("test", self.expr(e))]),
            Stmt::For(_, ref h, ref a, ref b, ref s) => {
                let h = h.as_ref().map(|h| match **h {
                    ForHead::Var(_, ref v) => self.dtors("var", v),
                    ForHead::Let(_, ref v) => self.dtors("let", v),
                    ForHead::Const(_, ref v) => self.consts(v),
                    ForHead::Expr(_, ref e) => self.expr(e),
                });
                let v = self.opt(node("ForStatement", vec![("body", self.stmt(s))]), "init", h);
                let v = self.opt(v, "test", self.some(a));
                self.opt(v, "update", self.some(b))
            }
            Stmt::ForIn(_, ref h, ref e, ref s) => {
                let h = match **h {
                    ForInHead::VarInit(_, ref id, ref e) => self.declaration("var", vec![self.declarator(self.id(id), Some(e))]),
                    ForInHead::Var(_, ref p) => self.one("var", p),
                    ForInHead::Let(_, ref p) => self.one("let", p),
                    ForInHead::Const(_, ref p) => self.one("const", p),
                    ForInHead::Patt(ref p) => self.assign(p),
                };
                node("ForInStatement", vec![("left", h), ("right", self.expr(e)), ("body", self.stmt(s)), ("each", Value::Bool(false))])
            }
            Stmt::ForOf(_, ref h, ref e, ref s) => {
                let h = match **h {
                    ForOfHead::Var(_, ref p) => self.one("var", p),
                    ForOfHead::Let(_, ref p) => self.one("let", p),
                    ForOfHead::Const(_, ref p) => self.one("const", p),
                    ForOfHead::Patt(ref p) => self.assign(p),
                };
                node("ForOfStatement", vec![("left", h), ("right", self.expr(e)), ("body", self.stmt(s))])
            }
            Stmt::Debugger(..) => node("DebuggerStatement", vec![]),
        }
    }
    fn program(&self, s: &Script) -> Object {
        plain(vec![("type", st("Program")), ("sourceType", st("script")), ("body", self.script_items(s))])
    }
}

/// params: 0, how numbers are written, 0, template.
/// The tree read from the ESTree form of a program is the program's tree.
#[no_mangle]
pub fn h_est() {
    let w = W { num: param(1) };
    let cs = source(3);
    let s = text(&cs, (0, cs.len()));
    guard(OUTSIDE);
    let script = match esprit::script(&s) {
        Ok(t) => t,
        Err(_) => {
            reach(1);
            return;
        }
    };
    guard(HARNESS);
    let mut a = Out::new();
    a.plain = true;
    script.put(&mut a);
    let json = w.program(&script);
    guard(CLAIMED);
    let got = json.into_script();
    guard(HARNESS);
    match got {
        Ok(t) => {
            let mut b = Out::new();
            b.plain = true;
            t.put(&mut b);
            reach(0);
            check(same(&a.v, &b.v), 2);
        }
        Err(_) => fail(1),
    }
}

// ---------------------------------------------------------------- what a node must have
#[derive(Clone, Copy, PartialEq)]
enum Need {
    Expr,
    ExprOpt,
    /// what stands first in the head of a for statement: a declaration as well
    Init,
    /// what stands first in the head of for-in and for-of: something that can be assigned to or a declaration
    Head,
    Stmt,
    StmtOpt,
    /// a node of one kind: an identifier, a block, a catch clause; something that can be assigned to; a property key
    One,
    OneOpt,
    /// any text will do
    Name,
    /// one of a few words
    Word,
    Bool,
    BoolOpt,
    Exprs,
    /// expressions and holes
    Elems,
    Stmts,
    /// a list of nodes of one kind
    Ones,
}
use self::Need as N;

fn schema(ty: &str) -> &'static [(&'static str, Need)] {
    match ty {
        "Program" => &[("body", N::Stmts)],
        "Identifier" => &[("name", N::Name)],
        "BinaryExpression" | "LogicalExpression" => &[("operator", N::Word), ("left", N::Expr), ("right", N::Expr)],
        "AssignmentExpression" => &[("operator", N::Word), ("left", N::One), ("right", N::Expr)],
        "UnaryExpression" => &[("operator", N::Word), ("argument", N::Expr)],
        "UpdateExpression" => &[("operator", N::Word), ("argument", N::One), ("prefix", N::Bool)],
        "MemberExpression" => &[("object", N::Expr), ("property", N::One), ("computed", N::Bool)],
        "CallExpression" | "NewExpression" => &[("callee", N::Expr), ("arguments", N::Exprs)],
        "ArrayExpression" => &[("elements", N::Elems)],
        "FunctionExpression" => &[("params", N::Ones), ("body", N::One), ("id", N::OneOpt), ("generator", N::BoolOpt)],
        "FunctionDeclaration" => &[("params", N::Ones), ("body", N::One), ("id", N::One), ("generator", N::BoolOpt)],
        "SequenceExpression" => &[("expressions", N::Exprs)],
        "ObjectExpression" => &[("properties", N::Ones)],
        "Property" => &[("key", N::One), ("value", N::Expr), ("kind", N::Word)],
        "ConditionalExpression" => &[("test", N::Expr), ("consequent", N::Expr), ("alternate", N::Expr)],
        "SpreadElement" | "ThrowStatement" => &[("argument", N::Expr)],
        "RestElement" => &[("argument", N::One)],
        "VariableDeclaration" => &[("declarations", N::Ones), ("kind", N::Word)],
        "VariableDeclarator" => &[("id", N::One), ("init", N::ExprOpt)],
        "ExpressionStatement" => &[("expression", N::Expr)],
        "IfStatement" => &[("test", N::Expr), ("consequent", N::Stmt), ("alternate", N::StmtOpt)],
        "DoWhileStatement" | "WhileStatement" => &[("test", N::Expr), ("body", N::Stmt)],
        "ForStatement" => &[("init", N::Init), ("test", N::ExprOpt), ("update", N::ExprOpt), ("body", N::Stmt)],
        "ForInStatement" | "ForOfStatement" => &[("left", N::Head), ("right", N::Expr), ("body", N::Stmt)],
        "BlockStatement" => &[("body", N::Stmts)],
        "ReturnStatement" => &[("argument", N::ExprOpt)],
        "LabeledStatement" => &[("label", N::One), ("body", N::Stmt)],
        "BreakStatement" | "ContinueStatement" => &[("label", N::OneOpt)],
        "SwitchStatement" => &[("discriminant", N::Expr), ("cases", N::Ones)],
        "SwitchCase" => &[("test", N::ExprOpt), ("consequent", N::Stmts)],
        "WithStatement" => &[("object", N::Expr), ("body", N::Stmt)],
        "TryStatement" => &[("block", N::One), ("handler", N::OneOpt), ("finalizer", N::OneOpt)],
        "CatchClause" => &[("param", N::One), ("body", N::One)],
        "MetaProperty" => &[("meta", N::One), ("property", N::One)],
        // the description of a regular expression is the one object without a type
        "" => &[("pattern", N::Name), ("flags", N::Name)],
        _ => &[],
    }
}
/// where a node stands, as far as it matters
#[derive(Clone, Copy, PartialEq)]
enum At {
    Plain,
    /// the function of a method, getter or setter: its name and whether it has one say nothing
    Method,
    /// the value of a shorthand property, which repeats the key
    Repeat,
    /// the function of a setter: the same, but it has one parameter
    Setter,
    /// the body of a function
    Body,
    Key,
    /// the words of new.target
    Meta,
    /// the declaration of for-in or for-of
    Left,
}
fn at(parent: &str, field: &str, short: bool, method: bool, setter: bool) -> At {
    match (parent, field) {
        ("Property", "value") if short => At::Repeat,
        ("Property", "value") if setter => At::Setter,
        ("Property", "value") if method => At::Method,
        ("MetaProperty", _) => At::Meta,
        ("ForInStatement", "left") | ("ForOfStatement", "left") => At::Left,
        ("Property", "key") => At::Key,
        ("FunctionExpression", "body") | ("FunctionDeclaration", "body") => At::Body,
        _ => At::Plain,
    }
}
/// whether the node's `type` says something: not where only one type may stand
fn type_decides(ty: &str, at: At) -> bool {
    match ty {
        "" | "Program" | "VariableDeclarator" | "SwitchCase" | "CatchClause" | "Property" => false,
        "BlockStatement" => at != At::Body,
        "FunctionExpression" => at != At::Method && at != At::Setter,
        "Literal" => at != At::Key,
        _ => true,
    }
}

const CHANGES: u64 = 25;
fn declaration(kind: &str, init: Value) -> Value {
    let d = node("VariableDeclarator", vec![("id", node("Identifier", vec![("name", st("zz"))])), ("init", init)]);
    node("VariableDeclaration", vec![("kind", st(kind)), ("declarations", Value::Array(vec![d]))])
}
fn function() -> Value {
    let body = node("BlockStatement", vec![("body", Value::Array(vec![]))]);
    node("FunctionDeclaration", vec![("id", node("Identifier", vec![("name", st("zz"))])), ("params", Value::Array(vec![])), ("body", body), ("generator", Value::Bool(false))])
}
/// what is put in the place of a part: nothing, null, true, 7, a word, a node without a type, one
/// of a type that is not known, lists of a number and of a node without a type, an empty list, an
/// expression, a statement, lists of these; declarations by let, const, function and var, a list of a
/// let and one of a function; lists of nothing at all and of a list; a let with an initial value.
/// The last two changes depend on what is there: the first item of a list twice, two parts exchanged
fn change(c: u64) -> Option<Value> {
    Some(match c {
        0 => return None,
        1 => Value::Null,
        2 => Value::Bool(true),
        3 => Value::U64(7),
        4 => st("zz"),
        5 => Value::Object(Object::new()),
        6 => node("Zz", vec![]),
        7 => Value::Array(vec![Value::U64(7)]),
        8 => Value::Array(vec![Value::Object(Object::new())]),
        9 => Value::Array(vec![]),
        10 => node("ThisExpression", vec![]),
        11 => node("EmptyStatement", vec![]),
        12 => Value::Array(vec![node("ThisExpression", vec![])]),
        13 => Value::Array(vec![node("EmptyStatement", vec![])]),
        14 => declaration("let", Value::Null),
        15 => declaration("const", node("ThisExpression", vec![])),
        16 => function(),
        17 => declaration("var", Value::Null),
        18 => Value::Array(vec![declaration("let", Value::Null)]),
        19 => Value::Array(vec![function()]),
        20 => Value::Array(vec![Value::Null]),
        21 => Value::Array(vec![Value::Array(vec![])]),
        _ => declaration("let", node("ThisExpression", vec![])),
    })
}
/// whether a part changed that way makes the program malformed
fn malformed(need: Need, c: u64, place: At) -> bool {
    match need {
        N::Expr => c != 10,
        N::ExprOpt => c > 1 && c != 10,
        N::Init => c > 1 && c != 10 && c != 14 && c != 15 && c != 17 && c != 22,
        N::Head => c != 14 && c != 17,
        N::Stmt => c != 11 && c != 17,
        N::StmtOpt => c > 1 && c != 11 && c != 17,
        N::One => true,
        N::OneOpt => c > 1,
        N::Name => c != 4 || place == At::Meta,
        N::Word => true,
        N::Bool => c != 2,
        N::BoolOpt => c > 2,
        N::Exprs => c != 9 && c != 12,
        N::Elems => c != 9 && c != 12 && c != 20,
        N::Stmts => c != 9 && c != 13 && c != 18 && c != 19,
        N::Ones => c != 9 || place == At::Left || place == At::Setter,
    }
}

struct Visit {
    /// nodes to go
    left: u64,
    part: u64,
    change: u64,
    done: bool,
    bad: bool,
}
impl Visit {
    fn value(&mut self, v: &mut Value, at: At) {
        match *v {
            Value::Array(ref mut a) => {
                for x in a.iter_mut() {
                    self.value(x, at);
                    if self.done {
                        return;
                    }
                }
            }
            Value::Object(ref mut o) => self.object(o, at),
            _ => {}
        }
    }
    fn object(&mut self, o: &mut Object, place: At) {
        let ty = match o.get("type") {
            Some(&Value::String(ref s)) => s.clone(),
            _ => String::new(),
        };
        if self.left == 0 {
            self.done = true;
            if place == At::Repeat || (ty.is_empty() && !o.contains_key("pattern")) {
                return;
            }
            let c = self.change;
            let fields = schema(&ty);
            let (name, wrong) = if self.part == 0 {
                ("type", type_decides(&ty, place))
            } else if (self.part as usize) <= fields.len() {
                let (n, need) = fields[self.part as usize - 1];
                let place = if place == At::Left && ty != "VariableDeclaration" { At::Plain } else { place };
                // any expression can stand between brackets
                let computed = n == "property" && c == 10 && o.get("computed") == Some(&Value::Bool(true));
                // the value of a shorthand property repeats its key
                let repeats = n == "value" && o.get("shorthand") == Some(&Value::Bool(true));
                // only a function can stand there, so its type is not looked at
                let function = n == "value" && c == 16 && (o.get("method") == Some(&Value::Bool(true)) || o.get("kind") != Some(&st("init")));
                (n, malformed(need, c, place) && (place != At::Method || n == "body") && (place != At::Setter || n == "body" || n == "params") && !repeats && !computed && !function)
            } else if ty == "Literal" && self.part == 1 {
                // absent, a list, or an object though it is no regexp
                let list = c == 7 || c == 8 || c == 9 || c == 12 || c == 13 || (c >= 18 && c != 22);
                ("value", c == 0 || list || c >= 5 && !o.contains_key("regex"))
            } else {
                return;
            };
            if c == 23 {
                // declarations of for-in and for-of and the parameters of a setter are alone
                if let Some(&mut Value::Array(ref mut a)) = o.get_mut(name) {
                    if a.len() == 1 {
                        let x = a[0].clone();
                        a.push(x);
                        self.bad = (name == "declarations" && place == At::Left) || (name == "params" && place == At::Setter);
                    }
                }
                return;
            }
            if c == 24 {
                if ty == "MetaProperty" {
                    let a = o.remove("meta");
                    let b = o.remove("property");
                    o.insert("meta".to_string(), b.unwrap());
                    o.insert("property".to_string(), a.unwrap());
                    self.bad = true;
                }
                return;
            }
            match change(c) {
                Some(x) => {
                    o.insert(name.to_string(), x);
                }
                None => {
                    o.remove(name);
                }
            }
            self.bad = wrong;
            return;
        }
        self.left -= 1;
        let short = o.get("shorthand") == Some(&Value::Bool(true));
        let setter = o.get("kind") == Some(&st("set"));
        let method = o.get("method") == Some(&Value::Bool(true)) || (ty == "Property" && o.get("kind") != Some(&st("init")));
        for (k, x) in o.iter_mut() {
            self.value(x, at(&ty, k, short, method, setter));
            if self.done {
                return;
            }
        }
    }
}

/// params: 0, number of nodes considered, 0, template.
/// A program one part of which is missing or of the wrong type is rejected.
#[no_mangle]
pub fn h_mal() {
    let w = W { num: 1 };
    let n = param(1);
    let cs = source(3);
    let s = text(&cs, (0, cs.len()));
    guard(OUTSIDE);
    let script = match esprit::script(&s) {
        Ok(t) => t,
        Err(_) => {
            reach(1);
            return;
        }
    };
    guard(HARNESS);
    let mut json = w.program(&script);
    let k = choice(n);
    let part = choice(5);
    let c = choice(CHANGES);
    let mut v = Visit { left: k, part, change: c, done: false, bad: false };
    v.object(&mut json, At::Plain);
    let bad = v.bad;
    guard(CLAIMED);
    let got = json.into_script();
    guard(HARNESS);
    if bad {
        reach(0);
        check(got.is_err(), 3);
    } else {
        reach(2);
    }
}
