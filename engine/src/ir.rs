//! Parser for the textual LLVM IR that `llvm-dis` prints, covering the subset rustc emits.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Box<Ty>),
    Vec(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Label,
    Meta,
    Opaque,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two()
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(w) => ((n * w as u64 + 7) / 8).next_power_of_two(),
                _ => n * t.size(),
            },
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for f in fs {
                    if !*packed {
                        o = align_up(o, f.align());
                    }
                    o += f.size();
                }
                if !*packed {
                    o = align_up(o, self.align());
                }
                o
            }
            Ty::Void | Ty::Label | Ty::Meta | Ty::Opaque => 0,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => (((*w as u64) + 7) / 8).next_power_of_two().min(16),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().max(1),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for (k, f) in fs.iter().enumerate() {
                    if !*packed {
                        o = align_up(o, f.align());
                    }
                    if k == i {
                        return o;
                    }
                    o += f.size();
                }
                panic!("field_off")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => i as u64 * t.size(),
            _ => panic!("field_off of {:?}", self),
        }
    }
    pub fn field(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(fs, _) => &fs[i],
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            _ => panic!("field of {:?}", self),
        }
    }
    /// width in bits for scalars
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn is_fp(&self) -> bool {
        matches!(self, Ty::F32 | Ty::F64)
    }
}

pub fn align_up(o: u64, a: u64) -> u64 {
    (o + a - 1) / a * a
}

/// Constant (possibly symbolic in global addresses until laid out).
#[derive(Clone, Debug)]
pub enum Cst {
    Int(u128),
    Null,
    Undef,
    Zero,
    Bytes(Vec<u8>),
    Agg(Vec<(Ty, Cst)>),
    Splat(Box<(Ty, Cst)>),
    Global(String),
    Expr(String, Vec<(Ty, Cst)>, Option<Ty>), // opcode, operands, source elem type / dest type
}

#[derive(Clone, Debug)]
pub enum Opnd {
    Reg(u32),
    Cst(u32), // index in module const table
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
    FAdd, FSub, FMul, FDiv, FRem,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp { Trunc, ZExt, SExt, BitCast, PtrToInt, IntToPtr, UIToFP, SIToFP, FPToUI, FPToSI, FPExt, FPTrunc }

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32), // symbol index
    Indirect(Opnd),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { d: u32, op: Bin, ty: Ty, a: Opnd, b: Opnd },
    FNeg { d: u32, ty: Ty, a: Opnd },
    ICmp { d: u32, p: Pred, ty: Ty, a: Opnd, b: Opnd },
    FCmp { d: u32, p: String, ty: Ty, a: Opnd, b: Opnd },
    Cast { d: u32, op: CastOp, from: Ty, to: Ty, a: Opnd },
    Select { d: u32, cty: Ty, ty: Ty, c: Opnd, a: Opnd, b: Opnd },
    Alloca { d: u32, size: u64, n: Option<Opnd>, align: u64 },
    Load { d: u32, ty: Ty, p: Opnd },
    Store { ty: Ty, v: Opnd, p: Opnd },
    Gep { d: u32, base: Opnd, off: u64, idx: Vec<(Opnd, u32, u64)> }, // base + off + sum sext(idx)*scale
    ExtractValue { d: u32, a: Opnd, path: Vec<u32> },
    InsertValue { d: u32, aty: Ty, a: Opnd, v: Opnd, path: Vec<u32> },
    ExtractElem { d: u32, a: Opnd, i: Opnd },
    InsertElem { d: u32, vty: Ty, a: Opnd, v: Opnd, i: Opnd },
    Shuffle { d: u32, vty: Ty, a: Opnd, b: Opnd, mask: Vec<i64> },
    Freeze { d: u32, a: Opnd },
    Call { d: Option<u32>, rty: Ty, f: Callee, args: Vec<(Ty, Opnd)>, normal: Option<u32> },
    AtomicRmw { d: u32, op: String, ty: Ty, p: Opnd, v: Opnd },
    CmpXchg { d: u32, ty: Ty, p: Opnd, c: Opnd, n: Opnd },
    Fence,
    Br { t: u32 },
    CondBr { c: Opnd, t: u32, f: u32 },
    Switch { ty: Ty, v: Opnd, def: u32, cases: Vec<(u64, u32)> },
    Ret { v: Option<(Ty, Opnd)> },
    Unreachable,
    Dead(&'static str),
}

#[derive(Clone, Debug)]
pub struct Phi {
    pub d: u32,
    pub ty: Ty,
    pub inc: Vec<(Opnd, u32)>,
}

#[derive(Clone, Debug, Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<Inst>,
}

#[derive(Clone, Debug)]
pub struct Func {
    pub name: String,
    pub nargs: usize,
    pub argtys: Vec<Ty>,
    pub rty: Ty,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub lines: usize,
}

#[derive(Clone, Debug)]
pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Cst>,
    pub constant: bool,
    pub align: u64,
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, usize>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, usize>,
    pub csts: Vec<(Ty, Cst)>,
    pub syms: Vec<String>, // callee symbols
}

// ---------------------------------------------------------------- tokenizer

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),     // keyword / type names
    Loc(String),    // %x
    Glob(String),   // @x
    Num(String),    // integer or float text
    Str(String),    // "..."
    CStr(Vec<u8>),  // c"..."
    Meta(String),   // !foo
    Attr(String),   // #12
    P(char),
    Dots,
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut r = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 1 < s.len() {
            if s[i + 1] == b'\\' {
                r.push(b'\\');
                i += 2;
                continue;
            }
            let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
            r.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else {
            r.push(s[i]);
            i += 1;
        }
    }
    r
}

fn lex(line: &str) -> Vec<Tok> {
    let b = line.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                i += 1;
                let name;
                if b[i] == b'"' {
                    let s = i + 1;
                    i = s;
                    while b[i] != b'"' {
                        i += 1;
                    }
                    name = String::from_utf8_lossy(&unescape(&b[s..i])).into_owned();
                    i += 1;
                } else {
                    let s = i;
                    while i < b.len() && idc(b[i]) {
                        i += 1;
                    }
                    name = line[s..i].to_string();
                }
                out.push(if c == b'%' { Tok::Loc(name) } else { Tok::Glob(name) });
            }
            b'!' => {
                let s = i;
                i += 1;
                while i < b.len() && idc(b[i]) {
                    i += 1;
                }
                out.push(Tok::Meta(line[s..i].to_string()));
            }
            b'#' => {
                let s = i;
                i += 1;
                while i < b.len() && idc(b[i]) {
                    i += 1;
                }
                out.push(Tok::Attr(line[s..i].to_string()));
            }
            b'"' => {
                let s = i + 1;
                i = s;
                while b[i] != b'"' {
                    i += 1;
                }
                out.push(Tok::Str(line[s..i].to_string()));
                i += 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let s = i + 2;
                i = s;
                while b[i] != b'"' {
                    i += 1;
                }
                out.push(Tok::CStr(unescape(&b[s..i])));
                i += 1;
            }
            b'.' if line[i..].starts_with("...") => {
                out.push(Tok::Dots);
                i += 3;
            }
            _ if c.is_ascii_digit() || (c == b'-' && i + 1 < b.len() && b[i + 1].is_ascii_digit()) => {
                let s = i;
                i += 1;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || ((b[i] == b'+' || b[i] == b'-') && (b[i - 1] == b'e' || b[i - 1] == b'E') && !line[s..].starts_with("0x"))) {
                    i += 1;
                }
                out.push(Tok::Num(line[s..i].to_string()));
            }
            b'+' | b'-' if i + 1 < b.len() && (b[i + 1].is_ascii_alphanumeric()) => {
                let s = i;
                i += 1;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || b[i] == b'+' || b[i] == b'-') {
                    i += 1;
                }
                out.push(Tok::Num(line[s..i].to_string()));
                if i < b.len() && b[i] == b'(' {
                    while b[i] != b')' {
                        i += 1;
                    }
                    i += 1;
                }
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'$' => {
                let s = i;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'.' || b[i] == b'$') {
                    i += 1;
                }
                out.push(Tok::Id(line[s..i].to_string()));
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out
}

struct P<'a> {
    t: Vec<Tok>,
    i: usize,
    named: &'a HashMap<String, Ty>,
    src: &'a str,
}

impl<'a> P<'a> {
    fn new(line: &'a str, named: &'a HashMap<String, Ty>) -> Self {
        P { t: lex(line), i: 0, named, src: line }
    }
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> Tok {
        let t = self.t.get(self.i).cloned().unwrap_or_else(|| panic!("eol in: {}", self.src));
        self.i += 1;
        t
    }
    fn is(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn eat(&mut self, c: char) -> bool {
        if self.is(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) {
        if !self.eat(c) {
            panic!("expected {:?} at {:?} in: {}", c, self.peek(), self.src)
        }
    }
    fn isid(&self, s: &str) -> bool {
        matches!(self.peek(), Some(Tok::Id(x)) if x == s)
    }
    fn eatid(&mut self, s: &str) -> bool {
        if self.isid(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn num(&mut self) -> u64 {
        match self.next() {
            Tok::Num(s) => s.parse().unwrap(),
            t => panic!("num {:?} in {}", t, self.src),
        }
    }
    fn skip_group(&mut self) {
        // at '('
        let mut depth = 0;
        loop {
            match self.next() {
                Tok::P('(') => depth += 1,
                Tok::P(')') => {
                    depth -= 1;
                    if depth == 0 {
                        return;
                    }
                }
                _ => {}
            }
        }
    }
    fn try_ty(&mut self) -> Option<Ty> {
        let t = match self.peek()? {
            Tok::Id(s) => match s.as_str() {
                "void" => Ty::Void,
                "ptr" => Ty::Ptr,
                "float" => Ty::F32,
                "double" => Ty::F64,
                "label" => Ty::Label,
                "metadata" => Ty::Meta,
                "token" | "opaque" => Ty::Opaque,
                s if s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()) => Ty::Int(s[1..].parse().unwrap()),
                "half" | "fp128" | "bfloat" | "x86_fp80" => Ty::Opaque,
                _ => return None,
            },
            Tok::P('[') => {
                self.i += 1;
                let n = self.num();
                assert!(self.eatid("x"));
                let t = self.ty();
                self.expect(']');
                return Some(Ty::Arr(n, Box::new(t)));
            }
            Tok::P('{') => {
                self.i += 1;
                let mut v = vec![];
                while !self.eat('}') {
                    v.push(self.ty());
                    self.eat(',');
                }
                return Some(Ty::Struct(v, false));
            }
            Tok::P('<') => {
                self.i += 1;
                if self.eat('{') {
                    let mut v = vec![];
                    while !self.eat('}') {
                        v.push(self.ty());
                        self.eat(',');
                    }
                    self.expect('>');
                    return Some(Ty::Struct(v, true));
                }
                let n = self.num();
                assert!(self.eatid("x"));
                let t = self.ty();
                self.expect('>');
                return Some(Ty::Vec(n, Box::new(t)));
            }
            Tok::Loc(s) => self.named.get(s)?.clone(),
            _ => return None,
        };
        self.i += 1;
        Some(t)
    }
    fn ty(&mut self) -> Ty {
        self.try_ty().unwrap_or_else(|| panic!("type expected at {:?} in {}", self.peek(), self.src))
    }
    /// skip parameter / return attributes
    fn attrs(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::Id(s)) => {
                    let s = s.clone();
                    match s.as_str() {
                        "align" => {
                            self.i += 1;
                            if self.is('(') {
                                self.skip_group()
                            } else {
                                self.i += 1
                            }
                        }
                        "noundef" | "noalias" | "nofree" | "readonly" | "writeonly" | "readnone" | "nonnull" | "zeroext" | "signext" | "inreg"
                        | "returned" | "nocapture" | "writable" | "dead_on_unwind" | "dead_on_return" | "allocalign" | "allocptr" | "immarg"
                        | "noext" | "nest" | "swiftself" | "nosync" => {
                            self.i += 1;
                            if self.is('(') {
                                self.skip_group()
                            }
                        }
                        "captures" | "dereferenceable" | "dereferenceable_or_null" | "range" | "sret" | "byval" | "initializes" | "nofpclass"
                        | "elementtype" | "inalloca" | "byref" | "preallocated" => {
                            self.i += 1;
                            self.skip_group();
                        }
                        _ => return,
                    }
                }
                Some(Tok::Str(_)) => {
                    self.i += 1;
                    if self.eat('=') {
                        self.i += 1;
                    }
                }
                _ => return,
            }
        }
    }
}

fn parse_int(s: &str, ty: &Ty) -> u128 {
    let w = match ty {
        Ty::Int(w) => *w,
        _ => 64,
    };
    let mask = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
    if let Some(r) = s.strip_prefix('-') {
        (r.parse::<u128>().unwrap().wrapping_neg()) & mask
    } else {
        s.parse::<u128>().unwrap() & mask
    }
}

fn parse_fp(s: &str, ty: &Ty) -> u128 {
    let bits = if s.contains("inf") || s.contains("nan") {
        let neg = s.starts_with('-');
        let v = if s.contains("inf") { f64::INFINITY.to_bits() } else { 0x7ff8_0000_0000_0000 };
        v | if neg { 1 << 63 } else { 0 }
    } else if let Some(h) = s.strip_prefix("f0x") {
        let v = u64::from_str_radix(h, 16).unwrap();
        return v as u128;
    } else if let Some(h) = s.strip_prefix("0x") {
        u64::from_str_radix(h, 16).unwrap_or_else(|_| panic!("fp {}", s))
    } else {
        s.parse::<f64>().unwrap().to_bits()
    };
    if *ty == Ty::F32 {
        (f64::from_bits(bits) as f32).to_bits() as u128
    } else {
        bits as u128
    }
}

impl<'a> P<'a> {
    fn cst(&mut self, ty: &Ty) -> Cst {
        match self.next() {
            Tok::Num(s) => {
                if ty.is_fp() {
                    Cst::Int(parse_fp(&s, ty))
                } else {
                    Cst::Int(parse_int(&s, ty))
                }
            }
            Tok::Id(s) if ty.is_fp() && s.starts_with("f0x") => Cst::Int(parse_fp(&s, ty)),
            Tok::Id(s) => match s.as_str() {
                "true" => Cst::Int(1),
                "false" => Cst::Int(0),
                "null" => Cst::Null,
                "none" => Cst::Null,
                "undef" | "poison" => Cst::Undef,
                "zeroinitializer" => Cst::Zero,
                "splat" => {
                    self.expect('(');
                    let t = self.ty();
                    let c = self.cst(&t);
                    self.expect(')');
                    Cst::Splat(Box::new((t, c)))
                }
                "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "sub" | "add" | "xor" | "and" | "or" | "mul" | "shl" | "lshr" | "ptrtoaddr" => {
                    while let Some(Tok::Id(f)) = self.peek() {
                        if matches!(f.as_str(), "inbounds" | "nuw" | "nsw" | "nusw" | "exact" | "inrange") {
                            self.i += 1;
                            if self.is('(') && f_is_inrange(&self.t, self.i) {
                                self.skip_group();
                            }
                        } else {
                            break;
                        }
                    }
                    self.expect('(');
                    let mut ety = None;
                    if s == "getelementptr" {
                        ety = Some(self.ty());
                        self.expect(',');
                    }
                    let mut ops = vec![];
                    loop {
                        let t = self.ty();
                        let c = self.cst(&t);
                        ops.push((t, c));
                        if self.eatid("to") {
                            ety = Some(self.ty());
                        }
                        if self.eat(')') {
                            break;
                        }
                        self.expect(',');
                    }
                    Cst::Expr(s, ops, ety)
                }
                _ => panic!("const {:?} in {}", s, self.src),
            },
            Tok::CStr(b) => Cst::Bytes(b),
            Tok::Glob(g) => Cst::Global(g),
            Tok::P('{') => self.agg('}'),
            Tok::P('[') => self.agg(']'),
            Tok::P('<') => {
                if self.eat('{') {
                    let a = self.agg('}');
                    self.expect('>');
                    a
                } else {
                    self.agg('>')
                }
            }
            t => panic!("const {:?} in {}", t, self.src),
        }
    }
    fn agg(&mut self, close: char) -> Cst {
        let mut v = vec![];
        while !self.eat(close) {
            let t = self.ty();
            let c = self.cst(&t);
            v.push((t, c));
            self.eat(',');
        }
        Cst::Agg(v)
    }
}

fn f_is_inrange(_t: &[Tok], _i: usize) -> bool {
    matches!(_t.get(_i.wrapping_sub(1)), Some(Tok::Id(s)) if s == "inrange")
}

struct FnCtx {
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}

impl FnCtx {
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn blk(&mut self, n: &str) -> u32 {
        *self.blocks.get(n).unwrap_or_else(|| panic!("no block {}", n))
    }
}

pub fn parse_module(text: &str) -> Module {
    let mut m = Module { funcs: vec![], fidx: HashMap::new(), globals: vec![], gidx: HashMap::new(), csts: vec![], syms: vec![] };
    let mut symidx: HashMap<String, u32> = HashMap::new();
    let mut named: HashMap<String, Ty> = HashMap::new();
    let lines: Vec<&str> = text.lines().collect();
    // named types first
    let mut pending: Vec<&str> = lines.iter().filter(|l| l.starts_with('%')).cloned().collect();
    let mut guard = 0;
    while !pending.is_empty() && guard < 100 {
        guard += 1;
        let mut rest = vec![];
        for l in pending {
            let (n, b) = l.split_once(" = type ").unwrap();
            let nm = n[1..].trim_matches('"').to_string();
            let mut p = P::new(b, &named);
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.ty())) {
                Ok(t) => {
                    named.insert(nm, t);
                }
                Err(_) => rest.push(l),
            }
        }
        pending = rest;
    }
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with('@') {
            parse_global(l, &named, &mut m);
            i += 1;
        } else if l.starts_with("define ") {
            let mut j = i + 1;
            while lines[j] != "}" {
                j += 1;
            }
            parse_func(&lines[i..j], &named, &mut m, &mut symidx);
            i = j + 1;
        } else {
            i += 1;
        }
    }
    m
}

fn parse_global(l: &str, named: &HashMap<String, Ty>, m: &mut Module) {
    let mut p = P::new(l, named);
    let name = match p.next() {
        Tok::Glob(s) => s,
        _ => unreachable!(),
    };
    p.expect('=');
    let mut external = false;
    let constant;
    loop {
        match p.next() {
            Tok::Id(s) => match s.as_str() {
                "global" => {
                    constant = false;
                    break;
                }
                "constant" => {
                    constant = true;
                    break;
                }
                "external" | "extern_weak" => external = true,
                "thread_local" => {
                    if p.is('(') {
                        p.skip_group();
                    }
                }
                "alias" | "ifunc" => {
                    return;
                }
                "addrspace" => p.skip_group(),
                _ => {}
            },
            Tok::P('(') | Tok::P(')') | Tok::Num(_) | Tok::Str(_) => {}
            t => panic!("global {:?} in {}", t, l),
        }
    }
    let ty = p.ty();
    let init = if external { None } else { Some(p.cst(&ty)) };
    let mut align = ty.align();
    while p.i < p.t.len() {
        if p.eatid("align") {
            align = p.num();
        } else {
            p.i += 1;
        }
    }
    m.gidx.insert(name.clone(), m.globals.len());
    m.globals.push(Global { name, ty, init, constant, align });
}

fn parse_func(lines: &[&str], named: &HashMap<String, Ty>, m: &mut Module, symidx: &mut HashMap<String, u32>) {
    let mut ctx = FnCtx { regs: HashMap::new(), blocks: HashMap::new() };
    // header
    let mut p = P::new(lines[0], named);
    p.next();
    let rty;
    loop {
        p.attrs();
        if let Some(t) = p.try_ty() {
            rty = t;
            break;
        }
        p.next();
    }
    let name = match p.next() {
        Tok::Glob(s) => s,
        t => panic!("fn name {:?} in {}", t, lines[0]),
    };
    p.expect('(');
    let mut nargs = 0;
    let mut argtys = vec![];
    while !p.eat(')') {
        if p.peek() == Some(&Tok::Dots) {
            p.i += 1;
            continue;
        }
        let t = p.ty();
        p.attrs();
        match p.next() {
            Tok::Loc(s) => {
                ctx.reg(&s);
            }
            t => panic!("arg {:?} in {}", t, lines[0]),
        }
        argtys.push(t);
        nargs += 1;
        p.eat(',');
    }
    // collect logical lines per block
    let mut blks: Vec<(String, Vec<String>)> = vec![];
    let mut i = 1;
    // entry label: implicit = number of args if unnamed
    while i < lines.len() {
        let l = lines[i];
        if l.is_empty() {
            i += 1;
            continue;
        }
        if !l.starts_with(' ') {
            if l.starts_with(';') {
                i += 1;
                continue;
            }
            // label
            let c = if l.starts_with('"') { l[1..].find('"').unwrap() + 2 } else { l.find(':').unwrap() };
            let nm = l[..c].trim_matches('"').to_string();
            blks.push((nm, vec![]));
            i += 1;
            continue;
        }
        if blks.is_empty() {
            blks.push((format!("{}", nargs), vec![]));
        }
        let mut s = l.to_string();
        while i + 1 < lines.len() && (lines[i + 1].starts_with("    ") || lines[i + 1].starts_with("  ]")) {
            i += 1;
            s.push('\n');
            s.push_str(lines[i]);
        }
        blks.last_mut().unwrap().1.push(s);
        i += 1;
    }
    for (k, (n, _)) in blks.iter().enumerate() {
        ctx.blocks.insert(n.clone(), k as u32);
    }
    let mut blocks = vec![];
    for (_, ls) in &blks {
        let mut b = Block::default();
        for l in ls {
            parse_inst(l, named, &mut ctx, m, symidx, &mut b);
        }
        blocks.push(b);
    }
    m.fidx.insert(name.clone(), m.funcs.len());
    m.funcs.push(Func { name, nargs, argtys, rty, nregs: ctx.regs.len() as u32, blocks, lines: lines.len() });
}

fn val(p: &mut P, ty: &Ty, ctx: &mut FnCtx, m: &mut Module) -> Opnd {
    if let Some(Tok::Loc(s)) = p.peek() {
        let s = s.clone();
        p.i += 1;
        return Opnd::Reg(ctx.reg(&s));
    }
    if *ty == Ty::Meta {
        // metadata operand: skip to ',' or ')'
        let mut depth = 0;
        while let Some(t) = p.peek() {
            match t {
                Tok::P('(') | Tok::P('{') => depth += 1,
                Tok::P(')') if depth == 0 => break,
                Tok::P(')') | Tok::P('}') => depth -= 1,
                Tok::P(',') if depth == 0 => break,
                _ => {}
            }
            p.i += 1;
        }
        m.csts.push((Ty::Int(1), Cst::Int(0)));
        return Opnd::Cst(m.csts.len() as u32 - 1);
    }
    let c = p.cst(ty);
    m.csts.push((ty.clone(), c));
    Opnd::Cst(m.csts.len() as u32 - 1)
}

fn label(p: &mut P, ctx: &mut FnCtx) -> u32 {
    assert!(p.eatid("label"), "label in {}", p.src);
    match p.next() {
        Tok::Loc(s) => ctx.blk(&s),
        t => panic!("label {:?}", t),
    }
}

fn flags(p: &mut P) {
    while let Some(Tok::Id(f)) = p.peek() {
        match f.as_str() {
            "nuw" | "nsw" | "exact" | "disjoint" | "inbounds" | "nusw" | "nneg" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc"
            | "volatile" | "atomic" | "weak" | "inrange" => {
                p.i += 1;
            }
            _ => break,
        }
    }
}

fn parse_inst(l: &str, named: &HashMap<String, Ty>, ctx: &mut FnCtx, m: &mut Module, symidx: &mut HashMap<String, u32>, b: &mut Block) {
    let mut p = P::new(l, named);
    let mut d = None;
    if let Some(Tok::Loc(s)) = p.peek() {
        let s = s.clone();
        p.i += 1;
        p.expect('=');
        d = Some(ctx.reg(&s));
    }
    let op = match p.next() {
        Tok::Id(s) => s,
        t => panic!("opcode {:?} in {}", t, l),
    };
    let op = match op.as_str() {
        "tail" | "musttail" | "notail" => {
            p.next();
            "call".to_string()
        }
        _ => op,
    };
    let inst = match op.as_str() {
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            flags(&mut p);
            let ty = p.ty();
            let a = val(&mut p, &ty, ctx, m);
            p.expect(',');
            let bb = val(&mut p, &ty, ctx, m);
            let o = match op.as_str() {
                "add" => Bin::Add,
                "sub" => Bin::Sub,
                "mul" => Bin::Mul,
                "udiv" => Bin::UDiv,
                "sdiv" => Bin::SDiv,
                "urem" => Bin::URem,
                "srem" => Bin::SRem,
                "shl" => Bin::Shl,
                "lshr" => Bin::LShr,
                "ashr" => Bin::AShr,
                "and" => Bin::And,
                "or" => Bin::Or,
                "xor" => Bin::Xor,
                "fadd" => Bin::FAdd,
                "fsub" => Bin::FSub,
                "fmul" => Bin::FMul,
                "fdiv" => Bin::FDiv,
                _ => Bin::FRem,
            };
            Inst::Bin { d: d.unwrap(), op: o, ty, a, b: bb }
        }
        "fneg" => {
            flags(&mut p);
            let ty = p.ty();
            let a = val(&mut p, &ty, ctx, m);
            Inst::FNeg { d: d.unwrap(), ty, a }
        }
        "icmp" => {
            flags(&mut p);
            let pr = match p.next() {
                Tok::Id(s) => match s.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => panic!("{}", l),
                },
                _ => panic!("{}", l),
            };
            let ty = p.ty();
            let a = val(&mut p, &ty, ctx, m);
            p.expect(',');
            let bb = val(&mut p, &ty, ctx, m);
            Inst::ICmp { d: d.unwrap(), p: pr, ty, a, b: bb }
        }
        "fcmp" => {
            flags(&mut p);
            let pr = match p.next() {
                Tok::Id(s) => s,
                _ => panic!("{}", l),
            };
            let ty = p.ty();
            let a = val(&mut p, &ty, ctx, m);
            p.expect(',');
            let bb = val(&mut p, &ty, ctx, m);
            Inst::FCmp { d: d.unwrap(), p: pr, ty, a, b: bb }
        }
        "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" => {
            flags(&mut p);
            let from = p.ty();
            let a = val(&mut p, &from, ctx, m);
            assert!(p.eatid("to"), "{}", l);
            let to = p.ty();
            let o = match op.as_str() {
                "trunc" => CastOp::Trunc,
                "zext" => CastOp::ZExt,
                "sext" => CastOp::SExt,
                "bitcast" => CastOp::BitCast,
                "ptrtoint" | "ptrtoaddr" => CastOp::PtrToInt,
                "inttoptr" => CastOp::IntToPtr,
                "uitofp" => CastOp::UIToFP,
                "sitofp" => CastOp::SIToFP,
                "fptoui" => CastOp::FPToUI,
                "fptosi" => CastOp::FPToSI,
                "fpext" => CastOp::FPExt,
                _ => CastOp::FPTrunc,
            };
            Inst::Cast { d: d.unwrap(), op: o, from, to, a }
        }
        "select" => {
            flags(&mut p);
            let cty = p.ty();
            let c = val(&mut p, &cty, ctx, m);
            p.expect(',');
            let ty = p.ty();
            let a = val(&mut p, &ty, ctx, m);
            p.expect(',');
            let t2 = p.ty();
            let bb = val(&mut p, &t2, ctx, m);
            Inst::Select { d: d.unwrap(), cty, ty, c, a, b: bb }
        }
        "freeze" => {
            let ty = p.ty();
            let a = val(&mut p, &ty, ctx, m);
            Inst::Freeze { d: d.unwrap(), a }
        }
        "alloca" => {
            let ty = p.ty();
            let mut n = None;
            let mut align = ty.align();
            while p.eat(',') {
                if p.eatid("align") {
                    align = p.num();
                } else {
                    let t = p.ty();
                    n = Some(val(&mut p, &t, ctx, m));
                }
            }
            Inst::Alloca { d: d.unwrap(), size: ty.size(), n, align }
        }
        "load" => {
            flags(&mut p);
            let ty = p.ty();
            p.expect(',');
            let t = p.ty();
            let a = val(&mut p, &t, ctx, m);
            Inst::Load { d: d.unwrap(), ty, p: a }
        }
        "store" => {
            flags(&mut p);
            let ty = p.ty();
            let v = val(&mut p, &ty, ctx, m);
            p.expect(',');
            let t = p.ty();
            let a = val(&mut p, &t, ctx, m);
            Inst::Store { ty, v, p: a }
        }
        "getelementptr" => {
            flags(&mut p);
            let ety = p.ty();
            p.expect(',');
            let pt = p.ty();
            let base = val(&mut p, &pt, ctx, m);
            let mut off = 0u64;
            let mut idx = vec![];
            let mut cur: Option<Ty> = None; // None: first index scales by ety
            while p.eat(',') {
                if matches!(p.peek(), Some(Tok::Meta(_))) {
                    break;
                }
                let it = p.ty();
                let iv = val(&mut p, &it, ctx, m);
                let w = it.bits();
                let cval = match &iv {
                    Opnd::Cst(k) => match &m.csts[*k as usize].1 {
                        Cst::Int(v) => Some(sext(*v as u64, w)),
                        Cst::Zero | Cst::Undef => Some(0),
                        _ => None,
                    },
                    _ => None,
                };
                match &cur {
                    None => {
                        match cval {
                            Some(c) => off = off.wrapping_add((c as u64).wrapping_mul(ety.size())),
                            None => idx.push((iv, w, ety.size())),
                        }
                        cur = Some(ety.clone());
                    }
                    Some(t) => {
                        let nt = match t {
                            Ty::Struct(..) => {
                                let k = cval.unwrap() as usize;
                                off = off.wrapping_add(t.field_off(k));
                                t.field(k).clone()
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                match cval {
                                    Some(c) => off = off.wrapping_add((c as u64).wrapping_mul(e.size())),
                                    None => idx.push((iv, w, e.size())),
                                }
                                (**e).clone()
                            }
                            _ => panic!("gep into {:?}: {}", t, l),
                        };
                        cur = Some(nt);
                    }
                }
            }
            Inst::Gep { d: d.unwrap(), base, off, idx }
        }
        "extractvalue" => {
            let ty = p.ty();
            let a = val(&mut p, &ty, ctx, m);
            let mut path = vec![];
            while p.eat(',') {
                if !matches!(p.peek(), Some(Tok::Num(_))) {
                    break;
                }
                path.push(p.num() as u32);
            }
            Inst::ExtractValue { d: d.unwrap(), a, path }
        }
        "insertvalue" => {
            let aty = p.ty();
            let a = val(&mut p, &aty, ctx, m);
            p.expect(',');
            let vt = p.ty();
            let v = val(&mut p, &vt, ctx, m);
            let mut path = vec![];
            while p.eat(',') {
                if !matches!(p.peek(), Some(Tok::Num(_))) {
                    break;
                }
                path.push(p.num() as u32);
            }
            Inst::InsertValue { d: d.unwrap(), aty, a, v, path }
        }
        "extractelement" => {
            let vt = p.ty();
            let a = val(&mut p, &vt, ctx, m);
            p.expect(',');
            let it = p.ty();
            let i = val(&mut p, &it, ctx, m);
            Inst::ExtractElem { d: d.unwrap(), a, i }
        }
        "insertelement" => {
            let vty = p.ty();
            let a = val(&mut p, &vty, ctx, m);
            p.expect(',');
            let et = p.ty();
            let v = val(&mut p, &et, ctx, m);
            p.expect(',');
            let it = p.ty();
            let i = val(&mut p, &it, ctx, m);
            Inst::InsertElem { d: d.unwrap(), vty, a, v, i }
        }
        "shufflevector" => {
            let vty = p.ty();
            let a = val(&mut p, &vty, ctx, m);
            p.expect(',');
            let _t = p.ty();
            let bb = val(&mut p, &_t, ctx, m);
            p.expect(',');
            let mt = p.ty();
            let c = p.cst(&mt);
            let n = match &mt {
                Ty::Vec(n, _) => *n as usize,
                _ => panic!(),
            };
            let mask = match c {
                Cst::Zero => vec![0; n],
                Cst::Undef => vec![-1; n],
                Cst::Agg(v) => v
                    .iter()
                    .map(|(_, c)| match c {
                        Cst::Int(k) => *k as i64,
                        _ => -1,
                    })
                    .collect(),
                Cst::Splat(b) => match b.1 {
                    Cst::Int(k) => vec![k as i64; n],
                    _ => vec![-1; n],
                },
                _ => panic!(),
            };
            Inst::Shuffle { d: d.unwrap(), vty, a, b: bb, mask }
        }
        "phi" => {
            flags(&mut p);
            let ty = p.ty();
            let mut inc = vec![];
            loop {
                p.expect('[');
                let v = val(&mut p, &ty, ctx, m);
                p.expect(',');
                let bl = match p.next() {
                    Tok::Loc(s) => ctx.blk(&s),
                    t => panic!("phi {:?}", t),
                };
                p.expect(']');
                inc.push((v, bl));
                if !p.eat(',') {
                    break;
                }
                if !p.is('[') {
                    break;
                }
            }
            b.phis.push(Phi { d: d.unwrap(), ty, inc });
            return;
        }
        "call" | "invoke" => {
            flags(&mut p);
            // cconv + ret attrs
            let rty;
            loop {
                p.attrs();
                if let Some(t) = p.try_ty() {
                    rty = t;
                    break;
                }
                match p.next() {
                    Tok::Id(_) | Tok::Num(_) => {}
                    t => panic!("call {:?} in {}", t, l),
                }
            }
            if p.is('(') {
                p.skip_group(); // function type of varargs
            }
            let mut asm = false;
            let f = match p.next() {
                Tok::Glob(s) => {
                    let n = symidx.len() as u32;
                    let k = *symidx.entry(s.clone()).or_insert(n);
                    if k == n {
                        m.syms.push(s);
                    }
                    Callee::Direct(k)
                }
                Tok::Loc(s) => Callee::Indirect(Opnd::Reg(ctx.reg(&s))),
                Tok::Id(s) if s == "asm" => {
                    asm = true;
                    while !p.is('(') {
                        p.next();
                    }
                    Callee::Direct(0)
                }
                t => panic!("callee {:?} in {}", t, l),
            };
            p.expect('(');
            let mut args = vec![];
            while !p.eat(')') {
                let t = p.ty();
                p.attrs();
                let v = val(&mut p, &t, ctx, m);
                args.push((t, v));
                p.eat(',');
            }
            let mut normal = None;
            if op == "invoke" {
                while !p.eatid("to") {
                    p.next();
                }
                normal = Some(label(&mut p, ctx));
            }
            if asm {
                // inline asm: only seen as optimisation barriers
                if let (Some(d), true) = (d, args.len() == 1) {
                    Inst::Freeze { d, a: args[0].1.clone() }
                } else {
                    Inst::Fence
                }
            } else {
                Inst::Call { d, rty, f, args, normal }
            }
        }
        "atomicrmw" => {
            flags(&mut p);
            let o = match p.next() {
                Tok::Id(s) => s,
                _ => panic!(),
            };
            let pt = p.ty();
            let a = val(&mut p, &pt, ctx, m);
            p.expect(',');
            let ty = p.ty();
            let v = val(&mut p, &ty, ctx, m);
            Inst::AtomicRmw { d: d.unwrap(), op: o, ty, p: a, v }
        }
        "cmpxchg" => {
            flags(&mut p);
            let pt = p.ty();
            let a = val(&mut p, &pt, ctx, m);
            p.expect(',');
            let ty = p.ty();
            let c = val(&mut p, &ty, ctx, m);
            p.expect(',');
            let t2 = p.ty();
            let n = val(&mut p, &t2, ctx, m);
            Inst::CmpXchg { d: d.unwrap(), ty, p: a, c, n }
        }
        "fence" => Inst::Fence,
        "br" => {
            if p.isid("label") {
                let t = label(&mut p, ctx);
                Inst::Br { t }
            } else {
                let t = p.ty();
                let c = val(&mut p, &t, ctx, m);
                p.expect(',');
                let a = label(&mut p, ctx);
                p.expect(',');
                let bb = label(&mut p, ctx);
                Inst::CondBr { c, t: a, f: bb }
            }
        }
        "switch" => {
            let ty = p.ty();
            let v = val(&mut p, &ty, ctx, m);
            p.expect(',');
            let def = label(&mut p, ctx);
            p.expect('[');
            let mut cases = vec![];
            while !p.eat(']') {
                let t = p.ty();
                let c = match p.cst(&t) {
                    Cst::Int(c) => c as u64,
                    _ => panic!(),
                };
                p.expect(',');
                cases.push((c, label(&mut p, ctx)));
            }
            Inst::Switch { ty, v, def, cases }
        }
        "ret" => {
            let t = p.ty();
            if t == Ty::Void {
                Inst::Ret { v: None }
            } else {
                let v = val(&mut p, &t, ctx, m);
                Inst::Ret { v: Some((t, v)) }
            }
        }
        "unreachable" => Inst::Unreachable,
        "landingpad" => Inst::Dead("landingpad"),
        "resume" => Inst::Dead("resume"),
        "cleanupret" | "catchret" | "catchswitch" | "cleanuppad" | "catchpad" => Inst::Dead("eh"),
        "va_arg" | "callbr" | "indirectbr" => Inst::Dead("unsupported opcode"),
        _ => panic!("opcode {} in {}", op, l),
    };
    b.insts.push(inst);
}

pub fn sext(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}
