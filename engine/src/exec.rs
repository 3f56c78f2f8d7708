//! Path-forking symbolic executor over the parsed LLVM IR.
use crate::expr::*;
use crate::ir::*;
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    W(Rc<u128>),
    S(E),
    A(Rc<Vec<V>>),
}

#[derive(Clone)]
pub struct Obj {
    pub bytes: Vec<u8>,
    pub sym: Option<Box<BTreeMap<u32, (E, u8)>>>,
}

impl Obj {
    fn new(n: u64) -> Obj {
        Obj { bytes: vec![0; n as usize], sym: None }
    }
}

#[derive(Clone)]
pub struct Frame {
    func: u32,
    block: u32,
    ip: u32,
    regs: Vec<V>,
    stack_mark: usize,
    stack_addr: u64,
    ret: Option<u32>,
    normal: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    heap: Vec<(u64, Option<Rc<Obj>>)>,
    stack: Vec<(u64, Rc<Obj>)>,
    gmut: Vec<Rc<Obj>>,
    heap_next: u64,
    stack_next: u64,
    pub dom: Vec<(u32, SetId)>,
    pub resid: Vec<E>,
    resid_vars: Vec<u32>,
    pub log: Vec<u32>,
    replay: Rc<Vec<u32>>,
    rp: usize,
    reach: u64,
    pub steps: u64,
    depth_base: usize,
    guard: u8,
    retval: Option<V>,
    notes: Vec<(u32, V)>,
}

pub const GBASE: u64 = 0x0010_0000;

/// k + sum of t
#[derive(Clone)]
struct Lin {
    k: i128,
    t: BTreeMap<u32, i128>,
}
fn lin_add(mut a: Lin, b: &Lin, c: i128) -> Option<Lin> {
    a.k = a.k.checked_add(b.k.checked_mul(c)?)?;
    for (v, x) in b.t.iter() {
        let y = a.t.get(v).cloned().unwrap_or(0).checked_add(x.checked_mul(c)?)?;
        if y == 0 {
            a.t.remove(v);
        } else {
            a.t.insert(*v, y);
        }
    }
    Some(a)
}

pub const FBASE: u64 = 0x4000_0000;
pub const HBASE: u64 = 0x1_0000_0000;
pub const SBASE: u64 = 0x7000_0000_0000;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum H {
    User(usize),
    // harness interface
    Sym, SymIn, Assume, Assert, Fail, Reach, Param, Note, Uf, IsConcrete, Forced, IteH,
    // library
    Memcmp, Bcmp, Strlen, Alloc, AllocZeroed, Dealloc, Realloc, Nop, RandState, RandKeys, HashFinish, HashOne, HashNop,
    Panic, Abort,
    ParseF64(usize),
    Summary(usize),
    // llvm intrinsics
    Memcpy, Memset, LNop, LAssume, Expect, Ctpop, Cttz, Ctlz, Bswap, Bitreverse, Fshl, Fshr,
    UMax, UMin, SMax, SMin, Abs, USubSat, UAddSat, SSubSat, SAddSat, UAddO, USubO, UMulO, SAddO, SSubO, SMulO,
    Ucmp, Scmp, Fma, FAbs, FFloor, FCeil, FTrunc, FSqrt, IsConstant, TlsAddr, Trap, FptouiSat, FptosiSat, FpPow, CopySign, FMinNum, FMaxNum,
    Pmovmskb, VecReduceAdd, VecReduceOr, VecReduceAnd, ObjSize, PtrMask, CastLaunder, Fexp2,
    Unknown,
}

pub struct Prog {
    pub m: Module,
    pub handlers: Vec<H>, // per symbol
    pub func_h: Vec<H>,   // per function (for indirect calls)
    pub gaddr: Vec<u64>,
    pub gmut_idx: Vec<Option<usize>>,
    pub gsorted: Vec<(u64, u64, usize)>, // base,size,idx
    pub user_model: HashMap<String, usize>,
    /// predicate summaries, computed once and shared by all workers
    pub summ: std::sync::Mutex<HashMap<(usize, u64, u64), Ivs>>,
}

fn handler_for(name: &str, m: &Module, models: &HashMap<String, usize>) -> H {
    // harness interface
    match name {
        "sx_sym" => return H::Sym,
        "sx_sym_in" => return H::SymIn,
        "sx_assume" => return H::Assume,
        "sx_assert" => return H::Assert,
        "sx_fail" => return H::Fail,
        "sx_reach" => return H::Reach,
        "sx_param" => return H::Param,
        "sx_note" => return H::Note,
        "sx_uf" => return H::Uf,
        "sx_is_concrete" => return H::IsConcrete,
        "sx_forced" => return H::Forced,
        "sx_ite" => return H::IteH,
        "memcmp" => return H::Memcmp,
        "bcmp" => return H::Bcmp,
        "strlen" => return H::Strlen,
        "abort" | "exit" | "_exit" => return H::Abort,
        "memcpy" | "memmove" => return H::Memcpy,
        "memset" => return H::Memset,
        "fma" => return H::Fma,
        "pow" | "powi" => return H::FpPow,
        "exp2" => return H::Fexp2,
        _ => {}
    }
    if let Some(r) = name.strip_prefix("llvm.") {
        let st = |p: &str| r.starts_with(p);
        let h = if st("memcpy") || st("memmove") {
            H::Memcpy
        } else if st("memset") {
            H::Memset
        } else if st("lifetime") || st("experimental.noalias") || st("invariant") || st("dbg") || st("x86.sse2.pause") || st("donothing") || st("prefetch") || st("sideeffect") || st("stackrestore") || st("stacksave") {
            H::LNop
        } else if st("assume") {
            H::LAssume
        } else if st("expect") || st("launder") || st("strip.invariant") || st("arithmetic.fence") {
            H::Expect
        } else if st("ctpop") {
            H::Ctpop
        } else if st("cttz") {
            H::Cttz
        } else if st("ctlz") {
            H::Ctlz
        } else if st("bswap") {
            H::Bswap
        } else if st("bitreverse") {
            H::Bitreverse
        } else if st("fshl") {
            H::Fshl
        } else if st("fshr") {
            H::Fshr
        } else if st("umax") {
            H::UMax
        } else if st("umin") {
            H::UMin
        } else if st("smax") {
            H::SMax
        } else if st("smin") {
            H::SMin
        } else if st("abs") {
            H::Abs
        } else if st("usub.sat") {
            H::USubSat
        } else if st("uadd.sat") {
            H::UAddSat
        } else if st("ssub.sat") {
            H::SSubSat
        } else if st("sadd.sat") {
            H::SAddSat
        } else if st("uadd.with.overflow") {
            H::UAddO
        } else if st("usub.with.overflow") {
            H::USubO
        } else if st("umul.with.overflow") {
            H::UMulO
        } else if st("sadd.with.overflow") {
            H::SAddO
        } else if st("ssub.with.overflow") {
            H::SSubO
        } else if st("smul.with.overflow") {
            H::SMulO
        } else if st("ucmp") {
            H::Ucmp
        } else if st("scmp") {
            H::Scmp
        } else if st("fma.") || st("fmuladd") {
            H::Fma
        } else if st("fabs") {
            H::FAbs
        } else if st("floor") {
            H::FFloor
        } else if st("ceil") {
            H::FCeil
        } else if st("trunc.") {
            H::FTrunc
        } else if st("sqrt") {
            H::FSqrt
        } else if st("copysign") {
            H::CopySign
        } else if st("minnum") || st("minimumnum") {
            H::FMinNum
        } else if st("maxnum") || st("maximumnum") {
            H::FMaxNum
        } else if st("pow.") || st("powi") {
            H::FpPow
        } else if st("exp2") {
            H::Fexp2
        } else if st("is.constant") {
            H::IsConstant
        } else if st("threadlocal.address") {
            H::TlsAddr
        } else if st("trap") || st("ubsantrap") || st("debugtrap") {
            H::Trap
        } else if st("fptoui.sat") {
            H::FptouiSat
        } else if st("fptosi.sat") {
            H::FptosiSat
        } else if st("x86.sse2.pmovmskb") {
            H::Pmovmskb
        } else if st("vector.reduce.add") {
            H::VecReduceAdd
        } else if st("vector.reduce.or") {
            H::VecReduceOr
        } else if st("vector.reduce.and") {
            H::VecReduceAnd
        } else if st("objectsize") {
            H::ObjSize
        } else if st("ptrmask") {
            H::PtrMask
        } else {
            H::Unknown
        };
        return h;
    }
    let has = |s: &str| name.contains(s);
    if has("7___rustc") {
        if has("___rust_alloc_zeroed") {
            return H::AllocZeroed;
        }
        if has("___rust_alloc_error_handler") {
            return H::Abort;
        }
        if has("no_alloc_shim") {
            return H::Nop;
        }
        if has("___rust_alloc") {
            return H::Alloc;
        }
        if has("___rust_dealloc") {
            return H::Dealloc;
        }
        if has("___rust_realloc") {
            return H::Realloc;
        }
        if has("rust_begin_unwind") {
            return H::Panic;
        }
    }
    if has("4core9panicking9panic_fmt") || has("4core9panicking18panic_nounwind_fmt") || has("4core9panicking19panic_cannot_unwind") {
        return H::Panic;
    }
    if has("3std9panicking") && (has("begin_panic") || has("panic_handler") || has("rust_panic")) || has("5alloc5alloc18handle_alloc_error") {
        return H::Panic;
    }
    if has("3std7process5abort") || has("3std7process4exit") {
        return H::Abort;
    }
    // hashing: any hash function is a legal one for HashMap; a constant one keeps symbolic keys out of
    // bucket arithmetic
    if has("4core4hash3sip") && name.contains("6finish") {
        return H::HashFinish;
    }
    if has("3std4hash6random") && has("DefaultHasher") && has("6finish") {
        return H::HashFinish;
    }
    if (has("4core4hash3sip") || (has("3std4hash6random") && has("DefaultHasher"))) && (has("Hasher5write") || has("5write") || has("9write_str") || has("8write_u8") || has("9write_u") || has("15write_length_prefix")) && has("Hasher") {
        return H::HashNop;
    }
    if has("4hash6random11RandomState3new") {
        return H::RandState;
    }
    if has("hashmap_random_keys") {
        return H::RandKeys;
    }
    if let Some(&f) = m.fidx.get(name) {
        // `<f64 as FromStr>::from_str`, wherever this std keeps it
        if has("3num") && has("FromStr8from_str") && models.contains_key("sx_model_parse_f64") {
            if has("dec2fltd") || has("dec2fltdN") || has("float_parsed") {
                return H::ParseF64(f);
            }
        }
        if has("3ucd") && has("6tables") && has("8includes") {
            return H::Summary(f);
        }
        return H::User(f);
    }
    H::Unknown
}

pub fn load(text: &str) -> Prog {
    let m = parse_module(text);
    let mut models = HashMap::new();
    for (i, f) in m.funcs.iter().enumerate() {
        if f.name.starts_with("sx_model_") {
            models.insert(f.name.clone(), i);
        }
    }
    let handlers: Vec<H> = m.syms.iter().map(|s| handler_for(s, &m, &models)).collect();
    let func_h: Vec<H> = m.funcs.iter().map(|f| handler_for(&f.name, &m, &models)).collect();
    let mut addr = GBASE;
    let mut gaddr = vec![];
    let mut gmut_idx = vec![];
    let mut nmut = 0;
    let mut gsorted = vec![];
    for (i, g) in m.globals.iter().enumerate() {
        addr = align_up(addr, g.align.max(16));
        gaddr.push(addr);
        let sz = g.ty.size();
        gsorted.push((addr, sz, i));
        addr += sz.max(1) + 16;
        if g.constant {
            gmut_idx.push(None);
        } else {
            gmut_idx.push(Some(nmut));
            nmut += 1;
        }
    }
    assert!(addr < FBASE, "global segment too large");
    Prog { m, handlers, func_h, gaddr, gmut_idx, gsorted, user_model: models, summ: Default::default() }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub id: u64,
    pub msg: String,
    pub vals: Vec<u64>,
    pub stack: Vec<String>,
}

#[derive(Default, Debug, Clone)]
pub struct Stats {
    pub paths: u64,
    pub killed: u64,
    pub asserts: u64,
    pub asserts_folded: u64,
    pub asserts_solver: u64,
    pub forks: u64,
    pub steps: u64,
    pub unary: u64,
    pub outside: u64,
    pub unary_checked: u64,
    /// conditions decided by linear arithmetic over the path's intervals
    pub canon: u64,
    pub reach: u64,
    pub summaries: u64,
    pub max_inputs: u64,
    pub longest_path: u64,
}

pub enum End {
    Done,
    Killed,
    Violation(Violation),
}

pub struct Exec {
    pub p: Arc<Prog>,
    pub a: Arena,
    pub z: Z3,
    csts: Vec<V>,
    gconst: Vec<Rc<Obj>>, // per global initial contents
    pub params: Vec<u64>,
    varkey: HashMap<(u32, u32, SetId, u64, u64), u32>,
    pub pending: Vec<State>,
    pub stats: Stats,
    pub funcs_hit: Vec<bool>,
    qcache: HashMap<(Vec<E>, Vec<(u32, SetId)>), (Res, Res)>,
    checked: HashSet<(SetId, E)>,
    summ: HashMap<(usize, u64, u64), SetId>,
    pub violations: Vec<Violation>,
    /// inputs of some of the completed paths, for replay
    pub samples: Vec<Vec<u64>>,
    pub sampling: bool,
    pub errors: Vec<String>,
    pub step_limit: u64,
    pub seen_fail: HashMap<(String, u64), u32>,
    pub max_models: u32,
    pub trace: bool,
    addr_memo: HashMap<(E, SetId), Rc<Vec<(u64, SetId)>>>,
}

pub type R<T> = Result<T, Stop>;
pub enum Stop {
    Kill,              // infeasible path
    Viol(String, u64, String),
    Err(String),       // engine limitation: inconclusive
}

fn cv(v: u128, w: u32) -> V {
    if w <= 64 {
        V::C((v & mask(w)) as u64)
    } else {
        V::W(Rc::new(v & mask(w)))
    }
}

impl Exec {
    pub fn new(p: Arc<Prog>) -> Exec {
        let mut e = Exec {
            a: Arena::new(),
            z: Z3::new(),
            csts: vec![],
            gconst: vec![],
            params: vec![],
            varkey: HashMap::new(),
            pending: vec![],
            stats: Stats::default(),
            funcs_hit: vec![false; p.m.funcs.len()],
            qcache: HashMap::new(),
            checked: HashSet::new(),
            summ: HashMap::new(),
            violations: vec![],
            samples: vec![],
            sampling: true,
            errors: vec![],
            step_limit: 60_000_000,
            seen_fail: HashMap::new(),
            max_models: 2,
            trace: false,
            addr_memo: HashMap::new(),
            p,
        };
        let p = e.p.clone();
        for (t, c) in &p.m.csts {
            let v = e.cst(t, c);
            e.csts.push(v);
        }
        for g in &p.m.globals {
            let mut o = Obj::new(g.ty.size());
            if let Some(c) = &g.init {
                e.init(&mut o, 0, &g.ty, c);
            }
            e.gconst.push(Rc::new(o));
        }
        e
    }

    fn sym_addr(&self, s: &str) -> u64 {
        if let Some(&g) = self.p.m.gidx.get(s) {
            return self.p.gaddr[g];
        }
        if let Some(&f) = self.p.m.fidx.get(s) {
            return FBASE + 16 * f as u64;
        }
        // external function: give it an address in a separate range by symbol index if known
        if let Some(i) = self.p.m.syms.iter().position(|x| x == s) {
            return FBASE + 0x2000_0000 + 16 * i as u64;
        }
        0
    }
    fn cst_u(&self, t: &Ty, c: &Cst) -> u64 {
        match c {
            Cst::Int(v) => *v as u64,
            Cst::Null | Cst::Zero | Cst::Undef => 0,
            Cst::Global(s) => self.sym_addr(s),
            Cst::Expr(op, ops, ety) => match op.as_str() {
                "getelementptr" => {
                    let base = self.cst_u(&ops[0].0, &ops[0].1);
                    let mut off = 0u64;
                    let mut cur = ety.clone().unwrap();
                    for (k, (it, iv)) in ops[1..].iter().enumerate() {
                        let i = sext(self.cst_u(it, iv), it.bits());
                        if k == 0 {
                            off = off.wrapping_add((i as u64).wrapping_mul(cur.size()));
                        } else {
                            off = off.wrapping_add(match &cur {
                                Ty::Struct(..) => cur.field_off(i as usize),
                                _ => (i as u64).wrapping_mul(cur.field(0).size()),
                            });
                            cur = cur.field(if matches!(cur, Ty::Struct(..)) { i as usize } else { 0 }).clone();
                        }
                    }
                    base.wrapping_add(off)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => self.cst_u(&ops[0].0, &ops[0].1),
                "trunc" => {
                    let w = ety.as_ref().unwrap().bits();
                    self.cst_u(&ops[0].0, &ops[0].1) & mask(w) as u64
                }
                o => {
                    let x = self.cst_u(&ops[0].0, &ops[0].1);
                    let y = self.cst_u(&ops[1].0, &ops[1].1);
                    let w = t.bits();
                    let r = match o {
                        "add" => x.wrapping_add(y),
                        "sub" => x.wrapping_sub(y),
                        "mul" => x.wrapping_mul(y),
                        "xor" => x ^ y,
                        "and" => x & y,
                        "or" => x | y,
                        "shl" => x << y,
                        "lshr" => x >> y,
                        _ => panic!("constexpr {}", o),
                    };
                    r & mask(w) as u64
                }
            },
            _ => panic!("cst_u {:?}", c),
        }
    }
    fn cst(&self, t: &Ty, c: &Cst) -> V {
        match t {
            Ty::Struct(fs, _) => match c {
                Cst::Agg(v) => V::A(Rc::new(v.iter().map(|(t, c)| self.cst(t, c)).collect())),
                _ => V::A(Rc::new(fs.iter().map(|f| self.cst(f, &Cst::Zero)).collect())),
            },
            Ty::Arr(n, e) | Ty::Vec(n, e) => match c {
                Cst::Agg(v) => V::A(Rc::new(v.iter().map(|(t, c)| self.cst(t, c)).collect())),
                Cst::Bytes(b) => V::A(Rc::new(b.iter().map(|x| V::C(*x as u64)).collect())),
                Cst::Splat(b) => {
                    let x = self.cst(&b.0, &b.1);
                    V::A(Rc::new(vec![x; *n as usize]))
                }
                _ => {
                    if *n > 4096 {
                        return V::A(Rc::new(vec![]));
                    }
                    V::A(Rc::new(vec![self.cst(e, &Cst::Zero); *n as usize]))
                }
            },
            Ty::Int(w) if *w > 64 => match c {
                Cst::Int(v) => V::W(Rc::new(*v)),
                _ => V::W(Rc::new(0)),
            },
            _ => V::C(self.cst_u(t, c)),
        }
    }
    fn init(&self, o: &mut Obj, off: u64, t: &Ty, c: &Cst) {
        match c {
            Cst::Zero | Cst::Undef | Cst::Null => {}
            Cst::Bytes(b) => o.bytes[off as usize..off as usize + b.len()].copy_from_slice(b),
            Cst::Agg(v) => {
                for (i, (ft, fc)) in v.iter().enumerate() {
                    let fo = match t {
                        Ty::Struct(..) => t.field_off(i),
                        _ => i as u64 * ft.size(),
                    };
                    self.init(o, off + fo, ft, fc);
                }
            }
            Cst::Splat(b) => {
                if let Ty::Vec(n, _) | Ty::Arr(n, _) = t {
                    for i in 0..*n {
                        self.init(o, off + i * b.0.size(), &b.0, &b.1);
                    }
                }
            }
            _ => {
                let sz = t.size() as usize;
                let v: u128 = match c {
                    Cst::Int(v) => *v,
                    _ => self.cst_u(t, c) as u128,
                };
                o.bytes[off as usize..off as usize + sz].copy_from_slice(&v.to_le_bytes()[..sz]);
            }
        }
    }

    pub fn initial(&mut self, func: usize, args: Vec<V>, prefix: Vec<u32>) -> State {
        let p = self.p.clone();
        let gmut: Vec<Rc<Obj>> = p.m.globals.iter().enumerate().filter(|(i, _)| p.gmut_idx[*i].is_some()).map(|(i, _)| self.gconst[i].clone()).collect();
        let mut s = State {
            frames: vec![],
            heap: vec![],
            stack: vec![],
            gmut,
            heap_next: HBASE,
            stack_next: SBASE,
            dom: vec![],
            resid: vec![],
            resid_vars: vec![],
            log: vec![],
            replay: Rc::new(prefix),
            rp: 0,
            reach: 0,
            steps: 0,
            depth_base: 0,
            guard: 1,
            retval: None,
            notes: vec![],
        };
        self.push_frame(&mut s, func, args, None, None);
        s
    }
    fn push_frame(&mut self, s: &mut State, func: usize, args: Vec<V>, ret: Option<u32>, normal: Option<u32>) {
        let f = &self.p.m.funcs[func];
        self.funcs_hit[func] = true;
        let mut regs = vec![V::C(0); f.nregs as usize];
        for (i, a) in args.into_iter().enumerate() {
            if i < f.nargs {
                regs[i] = a;
            }
        }
        s.frames.push(Frame { func: func as u32, block: 0, ip: 0, regs, stack_mark: s.stack.len(), stack_addr: s.stack_next, ret, normal });
    }

    // ----------------------------------------------------------- values
    fn e(&mut self, v: &V, w: u32) -> E {
        match v {
            V::C(c) => self.a.konst(*c as u128, w),
            V::W(c) => self.a.konst(**c, w),
            V::S(e) => {
                debug_assert!(self.a.w(*e) == w, "width {} vs {}", self.a.w(*e), w);
                *e
            }
            V::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn v(&self, e: E) -> V {
        match self.a.c(e) {
            Some(c) => cv(c, self.a.w(e)),
            None => V::S(e),
        }
    }
    fn conc(v: &V) -> Option<u128> {
        match v {
            V::C(c) => Some(*c as u128),
            V::W(c) => Some(**c),
            _ => None,
        }
    }

    // ----------------------------------------------------------- constraints
    fn dom_of(&self, s: &State, v: u32) -> SetId {
        s.dom.iter().find(|d| d.0 == v).map(|d| d.1).unwrap_or(0)
    }
    /// e as an integer combination of variables, equal to e modulo 2^w for every input of this path
    fn linear(&self, s: &State, e: E, memo: &mut HashMap<E, Option<Lin>>) -> Option<Lin> {
        if let Some(r) = memo.get(&e) {
            return r.clone();
        }
        let n = self.a.n(e);
        let r = (|| {
            let signed = |x: u128| if n.w <= 64 && x >> (n.w - 1) == 1 { x as i128 - (1i128 << n.w) } else { x as i128 };
            match n.op {
                _ if n.w > 64 => None,
                Op::Const => Some(Lin { k: signed(n.k), t: BTreeMap::new() }),
                Op::Var => Some(Lin { k: 0, t: [(n.k as u32, 1i128)].into_iter().collect() }),
                Op::ZExt => {
                    let w = self.a.w(n.a[0]);
                    let l = self.linear(s, n.a[0], memo)?;
                    let (lo, hi) = self.lin_range(s, &l)?;
                    if lo >= 0 && hi <= mask(w) as i128 { Some(l) } else { None }
                }
                // the low bits: the same value modulo a smaller power
                Op::Extract if n.k == 0 => self.linear(s, n.a[0], memo),
                Op::Add => {
                    let a = self.linear(s, n.a[0], memo)?;
                    let b = self.linear(s, n.a[1], memo)?;
                    lin_add(a, &b, 1)
                }
                Op::Mul | Op::Shl => {
                    let mut c = self.a.c(n.a[1])?;
                    if n.op == Op::Shl {
                        if c >= n.w as u128 {
                            return None;
                        }
                        c = 1 << c;
                    }
                    let a = self.linear(s, n.a[0], memo)?;
                    lin_add(Lin { k: 0, t: BTreeMap::new() }, &a, signed(c & mask(n.w)))
                }
                _ => None,
            }
        })();
        memo.insert(e, r.clone());
        r
    }
    fn lin_range(&self, s: &State, l: &Lin) -> Option<(i128, i128)> {
        let (mut lo, mut hi) = (l.k, l.k);
        for (v, c) in l.t.iter() {
            let d = self.dom_of(s, *v);
            let ivs = &self.a.sets[d as usize];
            let (a, b) = (ivs.first()?.0 as i128, ivs.last()?.1 as i128);
            let (x, y) = (a.checked_mul(*c)?, b.checked_mul(*c)?);
            lo = lo.checked_add(x.min(y))?;
            hi = hi.checked_add(x.max(y))?;
        }
        Some((lo, hi))
    }
    /// The condition with every comparison of linear terms that this path decides replaced by its
    /// value, and every converted linear term in one normal form.
    fn canon(&mut self, s: &State, e: E) -> E {
        let mut memo = HashMap::default();
        let mut done = HashMap::new();
        self.canon_in(s, e, &mut memo, &mut done)
    }
    fn canon_in(&mut self, s: &State, e: E, memo: &mut HashMap<E, Option<Lin>>, done: &mut HashMap<E, E>) -> E {
        if let Some(r) = done.get(&e) {
            return *r;
        }
        let n = self.a.n(e);
        let r = match n.op {
            Op::Eq | Op::Ult | Op::Ule if self.a.w(n.a[0]) <= 64 && self.a.w(n.a[0]) > 1 && !self.fp(n.a[0]) && !self.fp(n.a[1]) => {
                let w = self.a.w(n.a[0]);
                let full = |r: Option<(i128, i128)>| r.map_or(false, |r| r.0 >= 0 && r.1 <= mask(w) as i128);
                let mut out = e;
                if let (Some(x), Some(y)) = (self.linear(s, n.a[0], memo), self.linear(s, n.a[1], memo)) {
                    let exact = full(self.lin_range(s, &x)) && full(self.lin_range(s, &y));
                    if let Some(d) = lin_add(x, &y, -1) {
                        let r = self.lin_range(s, &d);
                        let verdict = match (n.op, r) {
                            (Op::Eq, Some((0, 0))) => Some(true),
                            (Op::Eq, Some((lo, hi))) if exact && (lo > 0 || hi < 0) => Some(false),
                            (Op::Ult, Some((lo, _))) if exact && lo >= 0 => Some(false),
                            (Op::Ult, Some((_, hi))) if exact && hi < 0 => Some(true),
                            (Op::Ule, Some((lo, _))) if exact && lo > 0 => Some(false),
                            (Op::Ule, Some((_, hi))) if exact && hi <= 0 => Some(true),
                            _ => None,
                        };
                        match verdict {
                            Some(true) => out = self.a.tru(),
                            Some(false) => out = self.a.fls(),
                            None => (),
                        }
                    }
                }
                out
            }
            Op::Eq | Op::And | Op::Or | Op::Xor => {
                let (x, y) = (self.canon_in(s, n.a[0], memo, done), self.canon_in(s, n.a[1], memo, done));
                if (x, y) == (n.a[0], n.a[1]) { e } else { self.a.bin(n.op, x, y) }
            }
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FOeq | Op::FOlt | Op::FOle => {
                let (x, y) = (self.canon_in(s, n.a[0], memo, done), self.canon_in(s, n.a[1], memo, done));
                if (x, y) == (n.a[0], n.a[1]) { e } else { self.a.fbin(n.op, x, y) }
            }
            Op::UIToFP => {
                let w = self.a.w(n.a[0]);
                let mut out = e;
                if w <= 64 {
                    if let Some(l) = self.linear(s, n.a[0], memo) {
                        if let Some((lo, hi)) = self.lin_range(s, &l) {
                            if lo >= 0 && hi <= mask(w) as i128 {
                                let mut t = self.a.konst((l.k as u128) & mask(64), 64);
                                for (v, c) in l.t.iter() {
                                    let x = self.a.var(*v);
                                    let x = self.a.zext(x, 64);
                                    let k = self.a.konst((*c as u128) & mask(64), 64);
                                    let m = self.a.bin(Op::Mul, x, k);
                                    t = self.a.bin(Op::Add, t, m);
                                }
                                out = self.a.ui2fp(t, n.w);
                            }
                        }
                    }
                }
                out
            }
            _ => e,
        };
        done.insert(e, r);
        r
    }
    fn fp(&self, e: E) -> bool {
        matches!(self.a.n(e).op, Op::UIToFP | Op::SIToFP | Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::Fma | Op::FPExt | Op::FPTrunc | Op::FNeg | Op::FAbs | Op::Uf)
    }
    /// An undecided condition: look for an input of this path that falsifies it, by evaluating the
    /// terms.  Finding none settles nothing (the query stays undecided).
    fn refute(&mut self, s: &State, e: E) -> Option<State> {
        let (sl, doms) = self.slice(s, &[e]);
        let mut seed = 0x2545_f491_4f6c_dd1du64;
        let mut next = move || {
            seed ^= seed << 13;
            seed ^= seed >> 7;
            seed ^= seed << 17;
            seed
        };
        for round in 0..4000 {
            let mut asg: HashMap<u32, u64> = HashMap::new();
            for &(v, d) in doms.iter() {
                let ivs = &self.a.sets[d as usize];
                let (l, h) = match ivs.len() {
                    0 => return None,
                    n => match round {
                        0 => (ivs[0].0, ivs[0].0),
                        1 => (ivs[n - 1].1, ivs[n - 1].1),
                        _ => ivs[(next() % n as u64) as usize],
                    },
                };
                let x = match h.wrapping_sub(l).checked_add(1) {
                    Some(n) => l + next() % n,
                    None => next(),
                };
                asg.insert(v, x);
            }
            let get = |v: u32| *asg.get(&v).unwrap_or(&0);
            let mut memo = HashMap::default();
            if self.a.eval(e, &get, &mut memo) == Some(0) && sl.iter().all(|c| self.a.eval(*c, &get, &mut memo) == Some(1)) {
                let mut t = s.clone();
                for &(v, _) in doms.iter() {
                    let id = self.a.set(vec![(asg[&v], asg[&v])]);
                    Self::set_dom(&mut t, v, id);
                }
                return Some(t);
            }
        }
        None
    }
    fn set_dom(s: &mut State, v: u32, d: SetId) {
        for x in s.dom.iter_mut() {
            if x.0 == v {
                x.1 = d;
            }
        }
    }
    /// assume e (already known feasible)
    fn add(&mut self, s: &mut State, e: E) {
        if self.a.c(e).is_some() {
            return;
        }
        if let Some(v) = self.a.single(e) {
            if let Some(t) = self.a.sat_set(e) {
                let d = self.dom_of(s, v);
                let n = self.a.set_inter(d, t);
                Self::set_dom(s, v, n);
                return;
            }
        }
        // split conjunctions so that unary parts reach the domains
        let n = self.a.n(e);
        if n.op == Op::And {
            self.add(s, n.a[0]);
            self.add(s, n.a[1]);
            return;
        }
        if n.op == Op::Xor && self.a.c(n.a[1]) == Some(1) {
            let m = self.a.n(n.a[0]);
            if m.op == Op::Or {
                let x = self.a.not(m.a[0]);
                let y = self.a.not(m.a[1]);
                self.add(s, x);
                self.add(s, y);
                return;
            }
        }
        if !s.resid.contains(&e) {
            s.resid.push(e);
            let sup = self.a.supps[self.a.supp[e as usize] as usize].clone();
            for v in sup.iter() {
                if !s.resid_vars.contains(v) {
                    s.resid_vars.push(*v);
                }
            }
        }
    }
    fn slice(&self, s: &State, es: &[E]) -> (Vec<E>, Vec<(u32, SetId)>) {
        let mut vars: Vec<u32> = vec![];
        for e in es {
            for v in self.a.supps[self.a.supp[*e as usize] as usize].iter() {
                if !vars.contains(v) {
                    vars.push(*v);
                }
            }
        }
        let mut used = vec![false; s.resid.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, r) in s.resid.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let sup = &self.a.supps[self.a.supp[*r as usize] as usize];
                if sup.iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    out.push(*r);
                    for v in sup.iter() {
                        if !vars.contains(v) {
                            vars.push(*v);
                        }
                    }
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        vars.sort_unstable();
        let doms = vars.iter().map(|v| (*v, self.dom_of(s, *v))).collect();
        out.sort_unstable();
        (out, doms)
    }
    /// (can be true, can be false)
    fn feasible(&mut self, s: &State, e: E) -> R<(bool, bool)> {
        if let Some(c) = self.a.c(e) {
            return Ok((c == 1, c == 0));
        }
        if let Some(v) = self.a.single(e) {
            if let Some(t) = self.a.sat_set(e) {
                let d = self.dom_of(s, v);
                let ti = self.a.set_inter(d, t);
                let fi = self.a.set_diff(d, t);
                self.stats.unary += 1;
                let (ct, cf) = (ti != 0, fi != 0);
                // membership of the variable itself in a set is interval algebra and needs no second opinion
                let plain = {
                    let n = self.a.n(e);
                    let m = if n.op == Op::Xor { self.a.n(n.a[0]) } else { n };
                    m.op == Op::InSet && self.a.n(m.a[0]).op == Op::Var
                };
                if !plain && self.checked.insert((d, e)) {
                    // the interval verdict is confirmed by the SMT solver once per distinct (domain, condition)
                    self.stats.unary_checked += 1;
                    // nothing in the domain tells the condition and the set apart
                    let x = self.a.var(v);
                    let m = self.a.inset(x, t);
                    let ne = self.a.bin(Op::Xor, e, m);
                    let (mut r, _) = self.z.check(&mut self.a, &[(v, d)], &[ne], &[]);
                    if r == Res::Unknown {
                        // floating point: one ground query per value instead
                        let ivs = self.a.sets[d as usize].clone();
                        if iv_count(&ivs) <= 300 {
                            r = Res::Unsat;
                            for x in ivs.iter().flat_map(|i| i.0..=i.1) {
                                let one = self.a.set(vec![(x, x)]);
                                let q = self.z.check(&mut self.a, &[(v, one)], &[ne], &[]).0;
                                if q != Res::Unsat {
                                    r = q;
                                    break;
                                }
                            }
                        }
                    }
                    if r != Res::Unsat {
                        return Err(Stop::Err(format!("interval/solver disagreement on {} ({:?})", self.a.show(e, 6), r)));
                    }
                }
                if !ct || !cf || !s.resid_vars.contains(&v) {
                    return Ok((ct, cf));
                }
            }
        }
        // arithmetic that cannot wrap on this path, in one normal form
        let e = self.canon(s, e);
        if let Some(c) = self.a.c(e) {
            self.stats.canon += 1;
            return Ok((c == 1, c == 0));
        }
        let (sl, doms) = self.slice(s, &[e]);
        let mut key = sl.clone();
        key.push(e);
        let k = (key, doms.clone());
        let (rt, rf) = if let Some(r) = self.qcache.get(&k) {
            *r
        } else {
            let mut cs = sl.clone();
            cs.push(e);
            let (rt, _) = self.z.check(&mut self.a, &doms, &cs, &[]);
            let rf = if rt == Res::Unsat {
                // the path condition itself is satisfiable, so the negation must be
                Res::Sat
            } else {
                let ne = self.a.not(e);
                let mut cs = sl.clone();
                cs.push(ne);
                self.z.check(&mut self.a, &doms, &cs, &[]).0
            };
            self.qcache.insert(k, (rt, rf));
            (rt, rf)
        };
        if rt == Res::Unknown || rf == Res::Unknown {
            return Err(Stop::Err(format!("solver gave up on {}", self.a.show(e, 5))));
        }
        Ok((rt == Res::Sat, rf == Res::Sat))
    }

    /// choose among `n` feasible alternatives; alternatives other than the chosen one are queued
    fn fork(&mut self, s: &mut State, n: usize, mut apply: impl FnMut(&mut Exec, &mut State, usize) -> R<()>) -> R<()> {
        if n == 1 {
            return apply(self, s, 0);
        }
        if s.replay_cursor() {
            let c = s.take_replay() as usize;
            if c >= n {
                return Err(Stop::Err("replayed decision out of range".into()));
            }
            return apply(self, s, c);
        }
        self.stats.forks += 1;
        for k in (1..n).rev() {
            let mut t = s.clone();
            t.log.push(k as u32);
            match apply(self, &mut t, k) {
                Ok(()) => self.pending.push(t),
                Err(Stop::Kill) => {}
                Err(Stop::Err(m)) => self.errors.push(m),
                Err(Stop::Viol(k, id, msg)) => self.report(&t, k, id, msg),
            }
        }
        s.log.push(0);
        apply(self, s, 0)
    }

    fn branch(&mut self, s: &mut State, c: E, apply: impl Fn(&mut Exec, &mut State, bool) -> R<()>) -> R<()> {
        let (ct, cf) = self.feasible(s, c)?;
        match (ct, cf) {
            (true, false) => apply(self, s, true),
            (false, true) => apply(self, s, false),
            (false, false) => Err(Stop::Kill),
            _ => {
                let nc = self.a.not(c);
                self.fork(s, 2, |x, st, k| {
                    x.add(st, if k == 0 { c } else { nc });
                    apply(x, st, k == 0)
                })
            }
        }
    }

    /// All feasible values of a term in a state, with the set of single-variable values giving each (if unary).
    fn values(&mut self, s: &State, t: E, limit: usize) -> R<Rc<Vec<(u64, SetId)>>> {
        if let Some(v) = self.a.single(t) {
            let d = self.dom_of(s, v);
            if let Some(r) = self.addr_memo.get(&(t, d)) {
                return Ok(r.clone());
            }
            let ivs = self.a.sets[d as usize].clone();
            if iv_count(&ivs) <= 70_000 && !s.resid_vars.contains(&v) {
                let mut m: BTreeMap<u64, Vec<(u64, u64)>> = BTreeMap::new();
                for &(l, h) in ivs.iter() {
                    for x in l..=h {
                        let mut memo = HashMap::default();
                        let r = self.a.eval(t, &|_| x, &mut memo);
                        match r {
                            Some(y) => m.entry(y as u64).or_default().push((x, x)),
                            None => return Err(Stop::Err("values: uninterpreted".into())),
                        }
                    }
                }
                let mut out = vec![];
                for (k, ivs) in m {
                    let id = self.a.set(iv_norm(ivs));
                    out.push((k, id));
                }
                if out.len() > limit {
                    return Err(Stop::Err(format!("too many values ({}) for {}", out.len(), self.a.show(t, 5))));
                }
                let r = Rc::new(out);
                self.addr_memo.insert((t, d), r.clone());
                return Ok(r);
            }
        }
        let (sl, doms) = self.slice(s, &[t]);
        let mut cs = sl;
        let mut out = vec![];
        let w = self.a.w(t);
        loop {
            let (r, v) = self.z.value_of(&mut self.a, &doms, &cs, t);
            match r {
                Res::Unsat => break,
                Res::Unknown => return Err(Stop::Err("values: solver gave up".into())),
                Res::Sat => {
                    out.push((v, 0));
                    if out.len() > limit {
                        return Err(Stop::Err(format!("too many values for {}", self.a.show(t, 5))));
                    }
                    let k = self.a.konst(v as u128, w);
                    let eq = self.a.bin(Op::Eq, t, k);
                    let ne = self.a.not(eq);
                    cs.push(ne);
                }
            }
        }
        out.sort_unstable();
        Ok(Rc::new(out))
    }

    /// Make a scalar concrete, forking over every feasible value, then re-execute the current instruction:
    /// returns the value when only one is feasible; otherwise forks with the constraint added and asks for a retry.
    fn concretize(&mut self, s: &mut State, v: &V, w: u32, limit: usize) -> R<Option<u64>> {
        match v {
            V::C(c) => Ok(Some(*c)),
            V::W(c) => Ok(Some(**c as u64)),
            V::A(_) => Err(Stop::Err("concretize aggregate".into())),
            V::S(e) => {
                let e = *e;
                let vals = self.values(s, e, limit)?;
                if vals.len() == 1 {
                    return Ok(Some(vals[0].0));
                }
                if vals.is_empty() {
                    return Err(Stop::Kill);
                }
                let cs: Vec<E> = vals
                    .iter()
                    .map(|(x, set)| {
                        if *set != 0 {
                            let v = self.a.single(e).unwrap();
                            let ve = self.a.var(v);
                            self.a.inset(ve, *set)
                        } else {
                            let k = self.a.konst(*x as u128, w);
                            self.a.bin(Op::Eq, e, k)
                        }
                    })
                    .collect();
                self.fork(s, cs.len(), |x, st, k| {
                    x.add(st, cs[k]);
                    Ok(())
                })?;
                Ok(None) // retry instruction
            }
        }
    }

    // ----------------------------------------------------------- memory
    fn alloc_heap(&mut self, s: &mut State, size: u64, align: u64) -> u64 {
        let base = align_up(s.heap_next, align.max(16));
        s.heap_next = base + size.max(1) + 32;
        s.heap.push((base, Some(Rc::new(Obj::new(size)))));
        base
    }
    fn free_heap(&mut self, s: &mut State, addr: u64) -> R<()> {
        match s.heap.binary_search_by(|o| o.0.cmp(&addr)) {
            Ok(i) if s.heap[i].1.is_some() => {
                s.heap[i].1 = None;
                while let Some((b, None)) = s.heap.last() {
                    s.heap_next = *b;
                    s.heap.pop();
                }
                if s.heap.len() > 64 {
                    let dead = s.heap.iter().filter(|o| o.1.is_none()).count();
                    if dead * 2 > s.heap.len() {
                        s.heap.retain(|o| o.1.is_some());
                    }
                }
                Ok(())
            }
            _ => Err(Stop::Viol("memory".into(), 0, format!("invalid free {:#x}", addr))),
        }
    }
    fn obj_ref<'b>(&'b self, s: &'b State, addr: u64, n: u64) -> R<(&'b Obj, usize)> {
        let bad = |w: &str| Stop::Viol("memory".into(), 0, format!("invalid {} access at {:#x} size {}", w, addr, n));
        if addr >= SBASE {
            let i = match s.stack.binary_search_by(|o| o.0.cmp(&addr)) {
                Ok(i) => i,
                Err(0) => return Err(bad("stack")),
                Err(i) => i - 1,
            };
            let (b, o) = &s.stack[i];
            if addr - b + n <= o.bytes.len() as u64 {
                return Ok((o, (addr - b) as usize));
            }
            return Err(bad("stack"));
        }
        if addr >= HBASE {
            let i = match s.heap.binary_search_by(|o| o.0.cmp(&addr)) {
                Ok(i) => i,
                Err(0) => return Err(bad("heap")),
                Err(i) => i - 1,
            };
            let (b, o) = &s.heap[i];
            if let Some(o) = o {
                if addr - b + n <= o.bytes.len() as u64 {
                    return Ok((o, (addr - b) as usize));
                }
            }
            return Err(bad("heap"));
        }
        let gs = &self.p.gsorted;
        let i = match gs.binary_search_by(|o| o.0.cmp(&addr)) {
            Ok(i) => i,
            Err(0) => return Err(bad("null")),
            Err(i) => i - 1,
        };
        let (b, sz, gi) = gs[i];
        if addr - b + n <= sz {
            let o = match self.p.gmut_idx[gi] {
                Some(m) => &s.gmut[m],
                None => &self.gconst[gi],
            };
            return Ok((o, (addr - b) as usize));
        }
        Err(bad("global"))
    }
    fn obj_mut<'b>(&self, s: &'b mut State, addr: u64, n: u64) -> R<(&'b mut Obj, usize)> {
        let bad = |w: &str| Stop::Viol("memory".into(), 0, format!("invalid {} write at {:#x} size {}", w, addr, n));
        if addr >= SBASE {
            let i = match s.stack.binary_search_by(|o| o.0.cmp(&addr)) {
                Ok(i) => i,
                Err(0) => return Err(bad("stack")),
                Err(i) => i - 1,
            };
            let (b, o) = &mut s.stack[i];
            if addr - *b + n <= o.bytes.len() as u64 {
                return Ok((Rc::make_mut(o), (addr - *b) as usize));
            }
            return Err(bad("stack"));
        }
        if addr >= HBASE {
            let i = match s.heap.binary_search_by(|o| o.0.cmp(&addr)) {
                Ok(i) => i,
                Err(0) => return Err(bad("heap")),
                Err(i) => i - 1,
            };
            let (b, o) = &mut s.heap[i];
            if let Some(o) = o {
                if addr - *b + n <= o.bytes.len() as u64 {
                    return Ok((Rc::make_mut(o), (addr - *b) as usize));
                }
            }
            return Err(bad("heap"));
        }
        let gs = &self.p.gsorted;
        let i = match gs.binary_search_by(|o| o.0.cmp(&addr)) {
            Ok(i) => i,
            Err(0) => return Err(bad("null")),
            Err(i) => i - 1,
        };
        let (b, sz, gi) = gs[i];
        if addr - b + n <= sz {
            if let Some(m) = self.p.gmut_idx[gi] {
                return Ok((Rc::make_mut(&mut s.gmut[m]), (addr - b) as usize));
            }
        }
        Err(bad("global"))
    }
    fn load_int(&mut self, s: &State, addr: u64, w: u32) -> R<V> {
        let n = ((w + 7) / 8) as u64;
        let (c, bytes): (Option<u128>, Vec<(Option<(E, u8)>, u8)>) = {
            let (o, off) = self.obj_ref(s, addr, n)?;
            let symbolic = match &o.sym {
                None => false,
                Some(m) => m.range(off as u32..(off as u64 + n) as u32).next().is_some(),
            };
            if !symbolic {
                let mut x = 0u128;
                for i in (0..n as usize).rev() {
                    x = (x << 8) | o.bytes[off + i] as u128;
                }
                (Some(x), vec![])
            } else {
                let m = o.sym.as_ref().unwrap();
                let mut v = vec![];
                for i in 0..n as usize {
                    v.push((m.get(&((off + i) as u32)).cloned(), o.bytes[off + i]));
                }
                (None, v)
            }
        };
        if let Some(x) = c {
            return Ok(cv(x, w));
        }
        // whole value stored at once?
        if let Some((e, 0)) = bytes[0].0 {
            if self.a.w(e) as u64 == 8 * n && bytes.iter().enumerate().all(|(i, b)| b.0 == Some((e, i as u8))) {
                return Ok(if w as u64 == 8 * n {
                    self.v(e)
                } else {
                    let t = self.a.extract(e, 0, w);
                    self.v(t)
                });
            }
        }
        let mut acc: Option<E> = None;
        for (sy, b) in bytes {
            let x = match sy {
                Some((e, k)) => self.a.extract(e, 8 * k as u32, 8),
                None => self.a.konst(b as u128, 8),
            };
            acc = Some(match acc {
                None => x,
                Some(lo) => self.a.concat(x, lo),
            });
        }
        let e = acc.unwrap();
        let t = if self.a.w(e) > w { self.a.extract(e, 0, w) } else { e };
        Ok(self.v(t))
    }
    fn store_int(&mut self, s: &mut State, addr: u64, v: &V, w: u32) -> R<()> {
        let n = ((w + 7) / 8) as u64;
        match v {
            V::S(e) => {
                let e = if (self.a.w(*e) as u64) < 8 * n { self.a.zext(*e, 8 * n as u32) } else { *e };
                let (o, off) = self.obj_mut(s, addr, n)?;
                let m = o.sym.get_or_insert_with(Default::default);
                for i in 0..n {
                    m.insert(off as u32 + i as u32, (e, i as u8));
                }
                Ok(())
            }
            _ => {
                let c = Self::conc(v).ok_or_else(|| Stop::Err("store aggregate as int".into()))?;
                let (o, off) = self.obj_mut(s, addr, n)?;
                o.bytes[off..off + n as usize].copy_from_slice(&c.to_le_bytes()[..n as usize]);
                if let Some(m) = &mut o.sym {
                    for i in 0..n {
                        m.remove(&(off as u32 + i as u32));
                    }
                    if m.is_empty() {
                        o.sym = None;
                    }
                }
                Ok(())
            }
        }
    }
    fn load(&mut self, s: &State, addr: u64, t: &Ty) -> R<V> {
        match t {
            Ty::Struct(fs, _) => {
                let mut v = vec![];
                for (i, f) in fs.iter().enumerate() {
                    v.push(self.load(s, addr + t.field_off(i), f)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Vec(n, e) if matches!(**e, Ty::Int(1)) => {
                let x = self.load_int(s, addr, *n as u32)?;
                self.int_to_vec(&x, *n as u32, *n, 1)
            }
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load(s, addr + i * e.size(), e)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => self.load_int(s, addr, t.bits()),
        }
    }
    fn store(&mut self, s: &mut State, addr: u64, v: &V, t: &Ty) -> R<()> {
        match t {
            Ty::Struct(fs, _) => {
                if let V::A(x) = v {
                    for (i, f) in fs.iter().enumerate() {
                        self.store(s, addr + t.field_off(i), &x[i], f)?;
                    }
                }
                Ok(())
            }
            Ty::Vec(n, e) if matches!(**e, Ty::Int(1)) => {
                let x = self.vec_to_int(v, 1)?;
                self.store_int(s, addr, &x, *n as u32)
            }
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                if let V::A(x) = v {
                    for i in 0..*n {
                        self.store(s, addr + i * e.size(), &x[i as usize], e)?;
                    }
                }
                Ok(())
            }
            _ => self.store_int(s, addr, v, t.bits()),
        }
    }
    fn int_to_vec(&mut self, x: &V, w: u32, n: u64, ew: u32) -> R<V> {
        let mut v = vec![];
        for i in 0..n as u32 {
            v.push(match x {
                V::S(e) => {
                    let t = self.a.extract(*e, i * ew, ew);
                    self.v(t)
                }
                _ => cv(Self::conc(x).unwrap() >> (i * ew), ew),
            });
        }
        let _ = w;
        Ok(V::A(Rc::new(v)))
    }
    fn vec_to_int(&mut self, v: &V, ew: u32) -> R<V> {
        if let V::A(x) = v {
            let x = x.clone();
            if x.iter().all(|e| Self::conc(e).is_some()) {
                let mut r = 0u128;
                for (i, e) in x.iter().enumerate() {
                    r |= Self::conc(e).unwrap() << (i as u32 * ew);
                }
                return Ok(cv(r, ew * x.len() as u32));
            }
            let mut acc = self.e(&x[0], ew);
            for e in &x[1..] {
                let t = self.e(e, ew);
                acc = self.a.concat(t, acc);
            }
            return Ok(self.v(acc));
        }
        Err(Stop::Err("vec_to_int".into()))
    }

    fn memcpy(&mut self, s: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (bytes, syms): (Vec<u8>, Vec<(u32, (E, u8))>) = {
            let (o, off) = self.obj_ref(s, src, n)?;
            let b = o.bytes[off..off + n as usize].to_vec();
            let m = match &o.sym {
                None => vec![],
                Some(m) => m.range(off as u32..(off as u64 + n) as u32).map(|(k, v)| (*k - off as u32, *v)).collect(),
            };
            (b, m)
        };
        let (o, off) = self.obj_mut(s, dst, n)?;
        o.bytes[off..off + n as usize].copy_from_slice(&bytes);
        if let Some(m) = &mut o.sym {
            let ks: Vec<u32> = m.range(off as u32..(off as u64 + n) as u32).map(|(k, _)| *k).collect();
            for k in ks {
                m.remove(&k);
            }
        }
        if !syms.is_empty() {
            let m = o.sym.get_or_insert_with(Default::default);
            for (k, v) in syms {
                m.insert(off as u32 + k, v);
            }
        }
        Ok(())
    }
    pub fn byte(&mut self, s: &State, addr: u64) -> R<V> {
        self.load_int(s, addr, 8)
    }

    // ----------------------------------------------------------- reporting
    pub fn model(&mut self, s: &State, extra: &[E]) -> Vec<u64> {
        let vars: Vec<u32> = s.dom.iter().map(|d| d.0).collect();
        let (mut cs, _) = (s.resid.clone(), ());
        cs.extend_from_slice(extra);
        // variables not involved in multi-variable constraints: pick a readable value
        let mut involved: Vec<u32> = vec![];
        for e in &cs {
            for v in self.a.supps[self.a.supp[*e as usize] as usize].iter() {
                if !involved.contains(v) {
                    involved.push(*v);
                }
            }
        }
        let doms: Vec<(u32, SetId)> = s.dom.iter().filter(|d| involved.contains(&d.0)).cloned().collect();
        let mut vals = HashMap::new();
        if !involved.is_empty() {
            let (r, v) = self.z.check(&mut self.a, &doms, &cs, &involved);
            if r == Res::Sat {
                for (i, x) in involved.iter().enumerate() {
                    vals.insert(*x, v[i]);
                }
            }
        }
        vars.iter()
            .map(|v| {
                if let Some(x) = vals.get(v) {
                    return *x;
                }
                let d = self.dom_of(s, *v);
                let ivs = self.a.sets[d as usize].clone();
                for (l, h) in [(0x61, 0x7a), (0x30, 0x39), (0x41, 0x5a), (0x21, 0x7e)] {
                    let i = iv_inter(&ivs, &vec![(l, h)]);
                    if let Some(f) = i.first() {
                        return f.0;
                    }
                }
                ivs.first().map(|x| x.0).unwrap_or(0)
            })
            .collect()
    }
    fn stack_names(&self, s: &State) -> Vec<String> {
        s.frames.iter().rev().take(12).map(|f| self.p.m.funcs[f.func as usize].name.clone()).collect()
    }
    pub fn report(&mut self, s: &State, kind: String, id: u64, msg: String) {
        if kind != "assert" {
            // see harness/src/sx.rs: who is to blame for a crash at this point
            if s.guard == 0 {
                self.stats.outside += 1;
                return;
            }
            if s.guard == 2 {
                let vals = self.model(s, &[]);
                self.errors.push(format!("{} inside the harness: {} {:?} {:?}", kind, msg, vals, self.stack_names(s)));
                return;
            }
        }
        let n = self.seen_fail.entry((format!("{}{}", kind, msg), id)).or_insert(0);
        *n += 1;
        if *n > self.max_models {
            return;
        }
        let vals = self.model(s, &[]);
        let stack = self.stack_names(s);
        self.violations.push(Violation { kind, id, msg, vals, stack });
    }

    // ----------------------------------------------------------- main loop
    /// Run one state to completion (queueing forks in self.pending).
    pub fn run(&mut self, mut s: State) -> Option<State> {
        loop {
            match self.step(&mut s) {
                Ok(false) => {
                    if s.steps > self.step_limit {
                        self.report(&s, "nontermination".into(), 0, format!("no result after {} instructions", self.step_limit));
                        return None;
                    }
                }
                Ok(true) => {
                    self.stats.paths += 1;
                    if self.stats.paths.is_power_of_two() && self.samples.len() < 6 && self.sampling {
                        let v = self.model(&s, &[]);
                        self.samples.push(v);
                    }
                    self.stats.steps += s.steps;
                    self.stats.reach |= s.reach;
                    self.stats.longest_path = self.stats.longest_path.max(s.steps);
                    self.stats.max_inputs = self.stats.max_inputs.max(s.dom.len() as u64);
                    return Some(s);
                }
                Err(Stop::Kill) => {
                    self.stats.killed += 1;
                    self.stats.steps += s.steps;
                    return None;
                }
                Err(Stop::Viol(k, id, m)) => {
                    self.stats.paths += 1;
                    self.stats.steps += s.steps;
                    self.stats.reach |= s.reach;
                    self.report(&s, k, id, m);
                    return None;
                }
                Err(Stop::Err(m)) => {
                    let st = self.stack_names(&s).into_iter().take(4).collect::<Vec<_>>().join(" < ");
                    self.errors.push(format!("{} [{}]", m, st));
                    return None;
                }
            }
        }
    }

    #[inline]
    fn opv(&self, s: &State, o: &Opnd) -> V {
        match o {
            Opnd::Reg(r) => s.frames.last().unwrap().regs[*r as usize].clone(),
            Opnd::Cst(c) => self.csts[*c as usize].clone(),
        }
    }
    #[inline]
    fn set(s: &mut State, d: u32, v: V) {
        s.frames.last_mut().unwrap().regs[d as usize] = v;
    }
    fn goto(&mut self, s: &mut State, t: u32) {
        let p = self.p.clone();
        let fr = s.frames.last().unwrap();
        let from = fr.block;
        let b = &p.m.funcs[fr.func as usize].blocks[t as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for ph in &b.phis {
                let (o, _) = ph.inc.iter().find(|x| x.1 == from).expect("phi edge");
                vals.push((ph.d, self.opv(s, o)));
            }
            for (d, v) in vals {
                Self::set(s, d, v);
            }
        }
        let fr = s.frames.last_mut().unwrap();
        fr.block = t;
        fr.ip = 0;
    }

    /// executes until something interesting; Ok(true) = program finished
    fn step(&mut self, s: &mut State) -> R<bool> {
        let p = self.p.clone();
        for _ in 0..4096 {
            s.steps += 1;
            let fr = s.frames.last_mut().unwrap();
            let func = &p.m.funcs[fr.func as usize];
            let inst = &func.blocks[fr.block as usize].insts[fr.ip as usize];
            fr.ip += 1;
            match inst {
                Inst::Bin { d, op, ty, a, b } => {
                    let (x, y) = (self.opv(s, a), self.opv(s, b));
                    let r = self.bin(s, *op, ty, &x, &y)?;
                    Self::set(s, *d, r);
                }
                Inst::ICmp { d, p: pr, ty, a, b } => {
                    let (x, y) = (self.opv(s, a), self.opv(s, b));
                    let r = self.icmp(*pr, ty, &x, &y);
                    Self::set(s, *d, r);
                }
                Inst::Load { d, ty, p: ptr } => {
                    let a = self.opv(s, ptr);
                    match a {
                        V::C(addr) => {
                            let v = self.load(s, addr, ty)?;
                            Self::set(s, *d, v);
                        }
                        V::S(e) => {
                            let vals = self.values(s, e, 2048)?;
                            let scalar = matches!(ty, Ty::Int(_) | Ty::Ptr | Ty::F64 | Ty::F32);
                            if scalar {
                                let w = ty.bits();
                                let mut acc: Option<E> = None;
                                for (addr, set) in vals.iter() {
                                    let v = self.load(s, *addr, ty)?;
                                    let ve = self.e(&v, w);
                                    acc = Some(match acc {
                                        None => ve,
                                        Some(rest) => {
                                            let c = if *set != 0 {
                                                let vv = self.a.single(e).unwrap();
                                                let t = self.a.var(vv);
                                                self.a.inset(t, *set)
                                            } else {
                                                let k = self.a.konst(*addr as u128, 64);
                                                self.a.bin(Op::Eq, e, k)
                                            };
                                            self.a.ite(c, ve, rest)
                                        }
                                    });
                                }
                                match acc {
                                    None => return Err(Stop::Kill),
                                    Some(x) => {
                                        let v = self.v(x);
                                        Self::set(s, *d, v);
                                    }
                                }
                            } else {
                                s.frames.last_mut().unwrap().ip -= 1;
                                if let Some(addr) = self.concretize(s, &V::S(e), 64, 2048)? {
                                    s.frames.last_mut().unwrap().ip += 1;
                                    let v = self.load(s, addr, ty)?;
                                    Self::set(s, *d, v);
                                }
                            }
                        }
                        _ => return Err(Stop::Err("load address".into())),
                    }
                }
                Inst::Store { ty, v, p: ptr } => {
                    let x = self.opv(s, v);
                    let a = self.opv(s, ptr);
                    if let V::C(addr) = a {
                        self.store(s, addr, &x, ty)?;
                    } else {
                        s.frames.last_mut().unwrap().ip -= 1;
                        if let Some(addr) = self.concretize(s, &a, 64, 2048)? {
                            s.frames.last_mut().unwrap().ip += 1;
                            self.store(s, addr, &x, ty)?;
                        }
                    }
                }
                Inst::Gep { d, base, off, idx } => {
                    let b = self.opv(s, base);
                    let r = self.gep(s, &b, *off, idx)?;
                    Self::set(s, *d, r);
                }
                Inst::Br { t } => self.goto(s, *t),
                Inst::CondBr { c, t, f } => {
                    let c = self.opv(s, c);
                    match c {
                        V::C(x) => self.goto(s, if x & 1 == 1 { *t } else { *f }),
                        V::S(e) => {
                            let (t, f) = (*t, *f);
                            self.branch(s, e, |x, st, b| {
                                x.goto(st, if b { t } else { f });
                                Ok(())
                            })?;
                        }
                        _ => return Err(Stop::Err("br".into())),
                    }
                }
                Inst::Switch { ty, v, def, cases } => {
                    let x = self.opv(s, v);
                    match x {
                        V::C(c) => {
                            let t = cases.iter().find(|k| k.0 == c).map(|k| k.1).unwrap_or(*def);
                            self.goto(s, t);
                        }
                        V::S(e) => self.switch(s, e, ty.bits(), *def, cases)?,
                        _ => return Err(Stop::Err("switch".into())),
                    }
                }
                Inst::Call { d, rty, f, args, normal } => {
                    let h = match f {
                        Callee::Direct(k) => p.handlers[*k as usize],
                        Callee::Indirect(o) => {
                            let fv = self.opv(s, o);
                            let addr = match fv {
                                V::C(a) => a,
                                v => {
                                    s.frames.last_mut().unwrap().ip -= 1;
                                    match self.concretize(s, &v, 64, 256)? {
                                        None => continue,
                                        Some(a) => {
                                            s.frames.last_mut().unwrap().ip += 1;
                                            a
                                        }
                                    }
                                }
                            };
                            if addr >= FBASE + 0x2000_0000 && addr < HBASE {
                                p.handlers[((addr - FBASE - 0x2000_0000) / 16) as usize]
                            } else if addr >= FBASE && ((addr - FBASE) / 16) < p.m.funcs.len() as u64 {
                                p.func_h[((addr - FBASE) / 16) as usize]
                            } else {
                                return Err(Stop::Viol("memory".into(), 0, format!("call through invalid pointer {:#x}", addr)));
                            }
                        }
                    };
                    let mut av = Vec::with_capacity(args.len());
                    for (_, o) in args {
                        av.push(self.opv(s, o));
                    }
                    match h {
                        H::User(fi) => {
                            if s.frames.len() > 4000 {
                                return Err(Stop::Viol("nontermination".into(), 0, "call depth exceeds 4000".into()));
                            }
                            self.push_frame(s, fi, av, *d, *normal);
                        }
                        _ => {
                            let name = || match f {
                                Callee::Direct(k) => p.m.syms[*k as usize].clone(),
                                _ => "<indirect>".to_string(),
                            };
                            self.builtin(s, h, *d, rty, args, av, *normal, &name)?;
                        }
                    }
                }
                Inst::Ret { v } => {
                    let r = v.as_ref().map(|(_, o)| self.opv(s, o));
                    let fr = s.frames.pop().unwrap();
                    s.stack.truncate(fr.stack_mark);
                    s.stack_next = fr.stack_addr;
                    if s.frames.len() == s.depth_base {
                        s.retval = r;
                        return Ok(true);
                    }
                    if let (Some(d), Some(v)) = (fr.ret, r) {
                        Self::set(s, d, v);
                    }
                    if let Some(n) = fr.normal {
                        self.goto(s, n);
                    }
                }
                Inst::Cast { d, op, from, to, a } => {
                    let x = self.opv(s, a);
                    let r = self.cast(s, *op, from, to, &x)?;
                    Self::set(s, *d, r);
                }
                Inst::Select { d, cty, ty, c, a, b } => {
                    let c = self.opv(s, c);
                    let (x, y) = (self.opv(s, a), self.opv(s, b));
                    if s.depth_base > 0 && !matches!(ty, Ty::Vec(..)) && ty.bits() == 64 {
                        if let V::S(e) = c {
                            // inside a summary: keep table indices concrete by splitting
                            let d = *d;
                            self.branch(s, e, |_, st, b| {
                                Self::set(st, d, if b { x.clone() } else { y.clone() });
                                Ok(())
                            })?;
                            continue;
                        }
                    }
                    let r = if let Ty::Vec(..) = cty {
                        let (cs, xs, ys) = match (&c, &x, &y) {
                            (V::A(c), V::A(x), V::A(y)) => (c.clone(), x.clone(), y.clone()),
                            _ => return Err(Stop::Err("select vec".into())),
                        };
                        let et = ty.field(0).clone();
                        let mut out = vec![];
                        for i in 0..cs.len() {
                            out.push(self.select(&cs[i], &xs[i], &ys[i], &et)?);
                        }
                        V::A(Rc::new(out))
                    } else {
                        self.select(&c, &x, &y, ty)?
                    };
                    Self::set(s, *d, r);
                }
                Inst::Alloca { d, size, n, align } => {
                    let k = match n {
                        None => 1,
                        Some(o) => match self.opv(s, o) {
                            V::C(c) => c,
                            _ => return Err(Stop::Err("alloca size".into())),
                        },
                    };
                    let sz = size * k;
                    let base = align_up(s.stack_next, (*align).max(16));
                    s.stack_next = base + sz.max(1) + 16;
                    s.stack.push((base, Rc::new(Obj::new(sz))));
                    Self::set(s, *d, V::C(base));
                }
                Inst::ExtractValue { d, a, path } => {
                    let mut x = self.opv(s, a);
                    for k in path {
                        x = match &x {
                            V::A(v) => v[*k as usize].clone(),
                            _ => return Err(Stop::Err("extractvalue".into())),
                        };
                    }
                    Self::set(s, *d, x);
                }
                Inst::InsertValue { d, aty: _, a, v, path } => {
                    let x = self.opv(s, a);
                    let y = self.opv(s, v);
                    fn ins(x: &V, path: &[u32], y: V) -> V {
                        if path.is_empty() {
                            return y;
                        }
                        if let V::A(v) = x {
                            let mut w = (**v).clone();
                            let k = path[0] as usize;
                            w[k] = ins(&w[k], &path[1..], y);
                            V::A(Rc::new(w))
                        } else {
                            panic!("insertvalue")
                        }
                    }
                    Self::set(s, *d, ins(&x, path, y));
                }
                Inst::ExtractElem { d, a, i } => {
                    let x = self.opv(s, a);
                    let i = self.opv(s, i);
                    match (&x, &i) {
                        (V::A(v), V::C(k)) => Self::set(s, *d, v[*k as usize].clone()),
                        _ => return Err(Stop::Err("extractelement".into())),
                    }
                }
                Inst::InsertElem { d, a, v, i, .. } => {
                    let x = self.opv(s, a);
                    let y = self.opv(s, v);
                    let i = self.opv(s, i);
                    match (&x, &i) {
                        (V::A(v), V::C(k)) => {
                            let mut w = (**v).clone();
                            w[*k as usize] = y;
                            Self::set(s, *d, V::A(Rc::new(w)))
                        }
                        _ => return Err(Stop::Err("insertelement".into())),
                    }
                }
                Inst::Shuffle { d, a, b, mask, .. } => {
                    let x = self.opv(s, a);
                    let y = self.opv(s, b);
                    if let (V::A(x), V::A(y)) = (&x, &y) {
                        let mut o = vec![];
                        for m in mask {
                            let m = (*m).max(0) as usize;
                            o.push(if m < x.len() { x[m].clone() } else { y[m - x.len()].clone() });
                        }
                        Self::set(s, *d, V::A(Rc::new(o)));
                    }
                }
                Inst::Freeze { d, a } => {
                    let x = self.opv(s, a);
                    Self::set(s, *d, x);
                }
                Inst::FNeg { d, ty, a } => {
                    let x = self.opv(s, a);
                    let w = ty.bits();
                    let e = self.e(&x, w);
                    let r = self.a.fun(Op::FNeg, e, w);
                    let v = self.v(r);
                    Self::set(s, *d, v);
                }
                Inst::FCmp { d, p: pr, ty, a, b } => {
                    let (x, y) = (self.opv(s, a), self.opv(s, b));
                    let w = ty.bits();
                    let (x, y) = (self.e(&x, w), self.e(&y, w));
                    let r = self.fcmp(pr, x, y)?;
                    let v = self.v(r);
                    Self::set(s, *d, v);
                }
                Inst::AtomicRmw { d, op, ty, p: ptr, v } => {
                    let a = match self.opv(s, ptr) {
                        V::C(a) => a,
                        _ => return Err(Stop::Err("atomicrmw addr".into())),
                    };
                    let old = self.load(s, a, ty)?;
                    let x = self.opv(s, v);
                    let new = match op.as_str() {
                        "xchg" => x,
                        "add" => self.bin(s, Bin::Add, ty, &old, &x)?,
                        "sub" => self.bin(s, Bin::Sub, ty, &old, &x)?,
                        "or" => self.bin(s, Bin::Or, ty, &old, &x)?,
                        "and" => self.bin(s, Bin::And, ty, &old, &x)?,
                        "xor" => self.bin(s, Bin::Xor, ty, &old, &x)?,
                        _ => return Err(Stop::Err(format!("atomicrmw {}", op))),
                    };
                    self.store(s, a, &new, ty)?;
                    Self::set(s, *d, old);
                }
                Inst::CmpXchg { d, ty, p: ptr, c, n } => {
                    let a = match self.opv(s, ptr) {
                        V::C(a) => a,
                        _ => return Err(Stop::Err("cmpxchg addr".into())),
                    };
                    let old = self.load(s, a, ty)?;
                    let c = self.opv(s, c);
                    match (Self::conc(&old), Self::conc(&c)) {
                        (Some(x), Some(y)) => {
                            if x == y {
                                let n = self.opv(s, n);
                                self.store(s, a, &n, ty)?;
                            }
                            Self::set(s, *d, V::A(Rc::new(vec![old, V::C((x == y) as u64)])));
                        }
                        _ => return Err(Stop::Err("cmpxchg symbolic".into())),
                    }
                }
                Inst::Fence => {}
                Inst::Unreachable => return Err(Stop::Viol("unreachable".into(), 0, "undefined behaviour: unreachable code reached".into())),
                Inst::Dead(w) => return Err(Stop::Err(format!("reached {}", w))),
            }
        }
        Ok(false)
    }

    fn gep(&mut self, s: &mut State, b: &V, off: u64, idx: &[(Opnd, u32, u64)]) -> R<V> {
        if let V::C(base) = b {
            let mut addr = base.wrapping_add(off);
            let mut allc = true;
            for (o, w, sc) in idx {
                match self.opv(s, o) {
                    V::C(i) => addr = addr.wrapping_add((sext(i, *w) as u64).wrapping_mul(*sc)),
                    _ => {
                        allc = false;
                        break;
                    }
                }
            }
            if allc {
                return Ok(V::C(addr));
            }
        }
        let mut e = self.e(b, 64);
        let k = self.a.konst(off as u128, 64);
        e = self.a.bin(Op::Add, e, k);
        for (o, w, sc) in idx {
            let i = self.opv(s, o);
            let ie = self.e(&i, *w);
            let ie = if *w < 64 { self.a.sext(ie, 64) } else { ie };
            let k = self.a.konst(*sc as u128, 64);
            let t = self.a.bin(Op::Mul, ie, k);
            e = self.a.bin(Op::Add, e, t);
        }
        Ok(self.v(e))
    }

    fn switch(&mut self, s: &mut State, e: E, w: u32, def: u32, cases: &[(u64, u32)]) -> R<()> {
        let _ = w;
        let mut groups: Vec<(u32, Vec<u64>)> = vec![];
        for (c, t) in cases {
            match groups.iter_mut().find(|g| g.0 == *t) {
                Some(g) => g.1.push(*c),
                None => groups.push((*t, vec![*c])),
            }
        }
        let mut all = vec![];
        let mut alts: Vec<(u32, E)> = vec![];
        let mut rest = vec![];
        for (t, vs) in &groups {
            let ivs = iv_norm(vs.iter().map(|x| (*x, *x)).collect());
            all.extend(ivs.clone());
            let set = self.a.set(ivs);
            let c = self.a.inset(e, set);
            rest.push((*t, c));
        }
        let allset = self.a.set(iv_norm(all));
        let ina = self.a.inset(e, allset);
        let dflt = self.a.not(ina);
        rest.push((def, dflt));
        for (t, c) in rest {
            let (ct, _) = self.feasible(s, c)?;
            if ct {
                match alts.iter_mut().find(|x| x.0 == t) {
                    Some(x) => x.1 = self.a.bin(Op::Or, x.1, c),
                    None => alts.push((t, c)),
                }
            }
        }
        if alts.is_empty() {
            return Err(Stop::Kill);
        }
        let n = alts.len();
        self.fork(s, n, |x, st, k| {
            let (t, c) = alts[k];
            if n > 1 {
                x.add(st, c);
            }
            x.goto(st, t);
            Ok(())
        })
    }

    fn select(&mut self, c: &V, x: &V, y: &V, ty: &Ty) -> R<V> {
        match c {
            V::C(k) => Ok(if k & 1 == 1 { x.clone() } else { y.clone() }),
            V::S(ce) => match (x, y) {
                (V::A(p), V::A(q)) => {
                    let mut o = vec![];
                    for i in 0..p.len() {
                        o.push(self.select(c, &p[i], &q[i], ty.field(i))?);
                    }
                    Ok(V::A(Rc::new(o)))
                }
                _ => {
                    let w = ty.bits();
                    let (p, q) = (self.e(x, w), self.e(y, w));
                    let r = self.a.ite(*ce, p, q);
                    Ok(self.v(r))
                }
            },
            _ => Err(Stop::Err("select cond".into())),
        }
    }

    fn bin(&mut self, s: &mut State, op: Bin, ty: &Ty, x: &V, y: &V) -> R<V> {
        if let Ty::Vec(_, et) = ty {
            if let (V::A(p), V::A(q)) = (x, y) {
                let mut o = Vec::with_capacity(p.len());
                for i in 0..p.len() {
                    o.push(self.bin(s, op, et, &p[i], &q[i])?);
                }
                return Ok(V::A(Rc::new(o)));
            }
        }
        let w = ty.bits();
        if let (V::C(a), V::C(b)) = (x, y) {
            let m = mask(w) as u64;
            let (a, b) = (*a, *b);
            let r = match op {
                Bin::Add => Some(a.wrapping_add(b)),
                Bin::Sub => Some(a.wrapping_sub(b)),
                Bin::Mul => Some(a.wrapping_mul(b)),
                Bin::And => Some(a & b),
                Bin::Or => Some(a | b),
                Bin::Xor => Some(a ^ b),
                Bin::Shl if b < w as u64 => Some(a << b),
                Bin::LShr if b < w as u64 => Some(a >> b),
                Bin::UDiv if b != 0 => Some(a / b),
                Bin::URem if b != 0 => Some(a % b),
                _ => None,
            };
            if let Some(r) = r {
                return Ok(V::C(r & m));
            }
        }
        let (a, b) = (self.e(x, w), self.e(y, w));
        let r = match op {
            Bin::Add => self.a.bin(Op::Add, a, b),
            Bin::Sub => self.a.sub(a, b),
            Bin::Mul => self.a.bin(Op::Mul, a, b),
            Bin::UDiv => self.a.bin(Op::UDiv, a, b),
            Bin::SDiv => self.a.bin(Op::SDiv, a, b),
            Bin::URem => self.a.bin(Op::URem, a, b),
            Bin::SRem => self.a.bin(Op::SRem, a, b),
            Bin::Shl => self.a.bin(Op::Shl, a, b),
            Bin::LShr => self.a.bin(Op::LShr, a, b),
            Bin::AShr => self.a.bin(Op::AShr, a, b),
            Bin::And => {
                let r = self.a.bin(Op::And, a, b);
                self.narrow(s, r)
            }
            Bin::Or => self.a.bin(Op::Or, a, b),
            Bin::Xor => self.a.bin(Op::Xor, a, b),
            Bin::FAdd => self.a.fbin(Op::FAdd, a, b),
            Bin::FSub => self.a.fbin(Op::FSub, a, b),
            Bin::FMul => self.a.fbin(Op::FMul, a, b),
            Bin::FDiv => self.a.fbin(Op::FDiv, a, b),
            Bin::FRem => self.a.fbin(Op::FRem, a, b),
        };
        Ok(self.v(r))
    }
    /// state-aware rewriting: zext(trunc(v)) = v when the domain of v fits
    fn narrow(&mut self, s: &State, e: E) -> E {
        let n = self.a.n(e);
        if n.op == Op::ZExt {
            let x = self.a.n(n.a[0]);
            if x.op == Op::Extract && x.k == 0 {
                let y = self.a.n(x.a[0]);
                if y.op == Op::Var {
                    let d = self.dom_of(s, y.k as u32);
                    if let Some(l) = self.a.sets[d as usize].last() {
                        if (l.1 as u128) <= mask(x.w) {
                            let v = x.a[0];
                            let wv = y.w;
                            return if wv == n.w {
                                v
                            } else if wv < n.w {
                                self.a.zext(v, n.w)
                            } else {
                                self.a.extract(v, 0, n.w)
                            };
                        }
                    }
                }
            }
        }
        e
    }
    fn icmp(&mut self, pr: Pred, ty: &Ty, x: &V, y: &V) -> V {
        if let Ty::Vec(_, et) = ty {
            if let (V::A(p), V::A(q)) = (x, y) {
                let o: Vec<V> = (0..p.len()).map(|i| self.icmp(pr, et, &p[i], &q[i])).collect();
                return V::A(Rc::new(o));
            }
        }
        let w = ty.bits();
        if let (V::C(a), V::C(b)) = (x, y) {
            let (a, b) = (*a, *b);
            let (sa, sb) = (sext(a, w), sext(b, w));
            let r = match pr {
                Pred::Eq => a == b,
                Pred::Ne => a != b,
                Pred::Ugt => a > b,
                Pred::Uge => a >= b,
                Pred::Ult => a < b,
                Pred::Ule => a <= b,
                Pred::Sgt => sa > sb,
                Pred::Sge => sa >= sb,
                Pred::Slt => sa < sb,
                Pred::Sle => sa <= sb,
            };
            return V::C(r as u64);
        }
        let (a, b) = (self.e(x, w), self.e(y, w));
        let r = match pr {
            Pred::Eq => self.a.bin(Op::Eq, a, b),
            Pred::Ne => {
                let t = self.a.bin(Op::Eq, a, b);
                self.a.not(t)
            }
            Pred::Ugt => self.a.bin(Op::Ult, b, a),
            Pred::Uge => self.a.bin(Op::Ule, b, a),
            Pred::Ult => self.a.bin(Op::Ult, a, b),
            Pred::Ule => self.a.bin(Op::Ule, a, b),
            Pred::Sgt => self.a.bin(Op::Slt, b, a),
            Pred::Sge => self.a.bin(Op::Sle, b, a),
            Pred::Slt => self.a.bin(Op::Slt, a, b),
            Pred::Sle => self.a.bin(Op::Sle, a, b),
        };
        self.v(r)
    }
    fn fcmp(&mut self, pr: &str, x: E, y: E) -> R<E> {
        let a = &mut self.a;
        Ok(match pr {
            "false" => a.fls(),
            "true" => a.tru(),
            "oeq" => a.fbin(Op::FOeq, x, y),
            "olt" => a.fbin(Op::FOlt, x, y),
            "ole" => a.fbin(Op::FOle, x, y),
            "ogt" => a.fbin(Op::FOlt, y, x),
            "oge" => a.fbin(Op::FOle, y, x),
            "uno" => a.fbin(Op::FUno, x, y),
            "ord" => {
                let t = a.fbin(Op::FUno, x, y);
                a.not(t)
            }
            "une" => {
                let t = a.fbin(Op::FOeq, x, y);
                a.not(t)
            }
            "ult" => {
                let t = a.fbin(Op::FOle, y, x);
                a.not(t)
            }
            "ule" => {
                let t = a.fbin(Op::FOlt, y, x);
                a.not(t)
            }
            "ugt" => {
                let t = a.fbin(Op::FOle, x, y);
                a.not(t)
            }
            "uge" => {
                let t = a.fbin(Op::FOlt, x, y);
                a.not(t)
            }
            "one" => {
                let p = a.fbin(Op::FOlt, x, y);
                let q = a.fbin(Op::FOlt, y, x);
                a.bin(Op::Or, p, q)
            }
            "ueq" => {
                let p = a.fbin(Op::FOlt, x, y);
                let q = a.fbin(Op::FOlt, y, x);
                let o = a.bin(Op::Or, p, q);
                a.not(o)
            }
            _ => return Err(Stop::Err(format!("fcmp {}", pr))),
        })
    }
    fn cast(&mut self, s: &State, op: CastOp, from: &Ty, to: &Ty, x: &V) -> R<V> {
        match (from, to) {
            (Ty::Vec(n, fe), Ty::Vec(m, te)) if n == m && op != CastOp::BitCast => {
                if let V::A(v) = x {
                    let mut o = vec![];
                    for e in v.iter() {
                        o.push(self.cast(s, op, fe, te, e)?);
                    }
                    return Ok(V::A(Rc::new(o)));
                }
                return Err(Stop::Err("vector cast".into()));
            }
            _ => {}
        }
        if op == CastOp::BitCast {
            let fv = matches!(from, Ty::Vec(..));
            let tv = matches!(to, Ty::Vec(..));
            if !fv && !tv {
                return Ok(x.clone());
            }
            let bits = |t: &Ty| match t {
                Ty::Vec(n, e) => *n as u32 * e.bits(),
                t => t.bits(),
            };
            let i = if let Ty::Vec(_, e) = from { self.vec_to_int(x, e.bits())? } else { x.clone() };
            return if let Ty::Vec(n, e) = to { self.int_to_vec(&i, bits(from), *n, e.bits()) } else { Ok(i) };
        }
        let (wf, wt) = (from.bits(), to.bits());
        if let V::C(c) = x {
            match op {
                CastOp::Trunc | CastOp::ZExt | CastOp::PtrToInt | CastOp::IntToPtr => return Ok(cv((*c as u128) & mask(wf), wt)),
                CastOp::SExt => return Ok(cv(sx(*c as u128, wf) as u128, wt)),
                _ => {}
            }
        }
        let e = self.e(x, wf);
        let r = match op {
            CastOp::Trunc => self.a.extract(e, 0, wt),
            CastOp::ZExt => {
                let r = self.a.zext(e, wt);
                self.narrow(s, r)
            }
            CastOp::PtrToInt | CastOp::IntToPtr => {
                if wt > wf {
                    self.a.zext(e, wt)
                } else {
                    self.a.extract(e, 0, wt)
                }
            }
            CastOp::SExt => self.a.sext(e, wt),
            CastOp::UIToFP => self.a.fun(Op::UIToFP, e, wt),
            CastOp::SIToFP => self.a.fun(Op::SIToFP, e, wt),
            CastOp::FPToUI => self.a.fun(Op::FPToUI, e, wt),
            CastOp::FPToSI => self.a.fun(Op::FPToSI, e, wt),
            CastOp::FPExt => self.a.fun(Op::FPExt, e, wt),
            CastOp::FPTrunc => self.a.fun(Op::FPTrunc, e, wt),
            CastOp::BitCast => unreachable!(),
        };
        Ok(self.v(r))
    }

    fn retry_conc(&mut self, s: &mut State, v: &V, limit: usize) -> R<Option<u64>> {
        // concretise an argument; on fork, the current call instruction is executed again
        if let V::C(c) = v {
            return Ok(Some(*c));
        }
        s.frames.last_mut().unwrap().ip -= 1;
        let r = self.concretize(s, v, 64, limit)?;
        if r.is_some() {
            s.frames.last_mut().unwrap().ip += 1;
        }
        Ok(r)
    }

    fn panic_msg(&mut self, s: &State, av: &[V]) -> (String, u64) {
        // the last pointer argument is usually a &core::panic::Location {file ptr, file len, line, col}
        for v in av.iter().rev() {
            if let V::C(a) = v {
                if *a >= GBASE && *a < FBASE {
                    let f = self.load_int(s, *a, 64);
                    let n = self.load_int(s, *a + 8, 64);
                    let l = self.load_int(s, *a + 16, 32);
                    if let (Ok(V::C(f)), Ok(V::C(n)), Ok(V::C(l))) = (f, n, l) {
                        if n < 300 && f >= GBASE && f < FBASE {
                            let mut b = vec![];
                            for i in 0..n {
                                if let Ok(V::C(x)) = self.load_int(s, f + i, 8) {
                                    b.push(x as u8);
                                }
                            }
                            if let Ok(t) = String::from_utf8(b) {
                                if t.contains(".rs") {
                                    let fun = s.frames.iter().rev().map(|f| &self.p.m.funcs[f.func as usize].name).find(|n| n.contains("joker") || n.contains("unjson") || n.contains("easter") || n.contains("estree") || n.contains("esprit")).cloned().unwrap_or_default();
                                    let t = t.trim_end_matches('\0').to_string();
                                    return (format!("panic at {}:{} in {}", t, l, fun), l);
                                }
                            }
                        }
                    }
                }
            }
        }
        ("panic".into(), 0)
    }

    fn summary(&mut self, f: usize, ptr: u64, len: u64, s: &State) -> R<SetId> {
        if let Some(&r) = self.summ.get(&(f, ptr, len)) {
            return Ok(r);
        }
        let prog = self.p.clone();
        let mut shared = match prog.summ.lock() {
            Ok(g) => g,
            Err(_) => return Err(Stop::Err("summary: lock".into())),
        };
        if let Some(r) = shared.get(&(f, ptr, len)) {
            let set = self.a.set(r.clone());
            self.summ.insert((f, ptr, len), set);
            return Ok(set);
        }
        // explore the function alone, with its scalar argument ranging over every code point
        let full = self.a.set(vec![(0, 0x10ffff)]);
        let v = {
            let key = (1_000_000, 32, full, 0, 0x10ffff);
            match self.varkey.get(&key) {
                Some(&v) => v,
                None => {
                    let v = self.a.new_var(32, 0, 0x10ffff, "summary".into());
                    self.varkey.insert(key, v);
                    v
                }
            }
        };
        let ve = self.a.var(v);
        let mut st = s.clone();
        st.dom = vec![(v, full)];
        st.resid = vec![];
        st.resid_vars = vec![];
        st.log = vec![];
        st.replay = Rc::new(vec![]);
        st.rp = 0;
        st.depth_base = st.frames.len();
        st.steps = 0;
        self.push_frame(&mut st, f, vec![V::C(ptr), V::C(len), V::S(ve)], None, None);
        let heap_before: Vec<(u64, Option<Rc<Obj>>)> = st.heap.clone();
        let saved = std::mem::take(&mut self.pending);
        let saved_stats = self.stats.clone();
        self.sampling = false;
        let saved_err = self.errors.len();
        let saved_viol = self.violations.len();
        self.pending.push(st);
        let mut yes: Ivs = vec![];
        let mut err = None;
        while let Some(t) = self.pending.pop() {
            if let Some(t) = self.run(t) {
                let same = t.heap.len() == heap_before.len()
                    && t.heap.iter().zip(heap_before.iter()).all(|(a, b)| match (&a.1, &b.1) {
                        (Some(x), Some(y)) => Rc::ptr_eq(x, y),
                        (None, None) => true,
                        _ => false,
                    });
                if !same || !t.resid.is_empty() {
                    if std::env::var("SX_DBG").is_ok() {
                        eprintln!("summary: heap {} {} resid {}", t.heap.len(), heap_before.len(), t.resid.len());
                        for (i, (a, b)) in t.heap.iter().zip(heap_before.iter()).enumerate() {
                            let q = match (&a.1, &b.1) { (Some(x), Some(y)) => Rc::ptr_eq(x, y), (None, None) => true, _ => false };
                            if !q { eprintln!("  object {} at {:x} differs {} {}", i, a.0, a.1.is_some(), b.1.is_some()); }
                        }
                    }
                    err = Some("summary: function is not a pure predicate");
                    break;
                }
                match t.retval {
                    Some(V::C(1)) => yes.extend(self.a.sets[t.dom[0].1 as usize].iter()),
                    Some(V::C(0)) => {}
                    Some(V::S(e)) => {
                        // boolean term over the argument
                        match self.a.sat_set(e) {
                            Some(ss) => {
                                let d = self.a.set_inter(ss, t.dom[0].1);
                                yes.extend(self.a.sets[d as usize].iter());
                            }
                            None => {
                                err = Some("summary: result not decided");
                                break;
                            }
                        }
                    }
                    _ => {
                        err = Some("summary: no result");
                        break;
                    }
                }
            }
        }
        self.sampling = true;
        self.pending = saved;
        let np = self.stats.paths - saved_stats.paths;
        let (u, uc) = (self.stats.unary, self.stats.unary_checked);
        self.stats = saved_stats;
        self.stats.unary = u;
        self.stats.unary_checked = uc;
        self.stats.summaries += np;
        if self.errors.len() > saved_err || self.violations.len() > saved_viol {
            err = Some("summary: exploration failed");
        }
        if let Some(m) = err {
            return Err(Stop::Err(m.into()));
        }
        let yes = iv_norm(yes);
        shared.insert((f, ptr, len), yes.clone());
        let set = self.a.set(yes);
        self.summ.insert((f, ptr, len), set);
        Ok(set)
    }

    #[allow(clippy::too_many_arguments)]
    fn builtin(&mut self, s: &mut State, h: H, d: Option<u32>, rty: &Ty, args: &[(Ty, Opnd)], av: Vec<V>, normal: Option<u32>, name: &dyn Fn() -> String) -> R<()> {
        let w0 = || args[0].0.bits();
        let mut ret: Option<V> = None;
        match h {
            H::User(_) => unreachable!(),
            H::Unknown => return Err(Stop::Err(format!("call to unknown external {}", name()))),
            H::Nop | H::LNop | H::HashNop => {
                if *rty != Ty::Void {
                    ret = Some(V::C(0));
                }
            }
            H::LAssume => {
                // facts the compiler derived; violating one would be undefined behaviour
                match &av[0] {
                    V::C(1) => {}
                    V::C(_) => return Err(Stop::Viol("unreachable".into(), 0, "undefined behaviour: llvm.assume(false)".into())),
                    V::S(e) => {
                        let e = *e;
                        let (ct, cf) = self.feasible(s, e)?;
                        if cf {
                            return Err(Stop::Err("llvm.assume not implied by path condition".into()));
                        }
                        if !ct {
                            return Err(Stop::Kill);
                        }
                    }
                    _ => {}
                }
            }
            H::Expect => ret = Some(av[0].clone()),
            H::Sym => {
                // sx_sym(width, lo, hi)
                let (w, lo, hi) = match (&av[0], &av[1], &av[2]) {
                    (V::C(a), V::C(b), V::C(c)) => (*a as u32, *b, *c),
                    _ => return Err(Stop::Err("sx_sym args".into())),
                };
                let set = self.a.set(vec![(lo, hi)]);
                ret = Some(self.new_input(s, w, set, lo, hi));
            }
            H::SymIn => {
                // sx_sym_in(width, ptr to [u32;2] pairs, npairs)
                let (w, ptr, n) = match (&av[0], &av[1], &av[2]) {
                    (V::C(a), V::C(b), V::C(c)) => (*a as u32, *b, *c),
                    _ => return Err(Stop::Err("sx_sym_in args".into())),
                };
                let mut ivs = vec![];
                for i in 0..n {
                    let l = self.load_int(s, ptr + 8 * i, 32)?;
                    let h = self.load_int(s, ptr + 8 * i + 4, 32)?;
                    match (l, h) {
                        (V::C(l), V::C(h)) => ivs.push((l, h)),
                        _ => return Err(Stop::Err("sx_sym_in".into())),
                    }
                }
                let ivs = iv_norm(ivs);
                let (lo, hi) = (ivs[0].0, ivs.last().unwrap().1);
                let set = self.a.set(ivs);
                ret = Some(self.new_input(s, w, set, lo, hi));
            }
            H::Assume => match &av[0] {
                V::C(x) => {
                    if x & 1 == 0 {
                        return Err(Stop::Kill);
                    }
                }
                V::S(e) => {
                    let e = *e;
                    let e = if self.a.w(e) == 1 { e } else { self.a.extract(e, 0, 1) };
                    let (ct, cf) = self.feasible(s, e)?;
                    if !ct {
                        return Err(Stop::Kill);
                    }
                    if cf {
                        self.add(s, e);
                    }
                }
                _ => {}
            },
            H::Assert => {
                let id = match &av[1] {
                    V::C(i) => *i,
                    _ => 0,
                };
                self.stats.asserts += 1;
                match &av[0] {
                    V::C(x) => {
                        self.stats.asserts_folded += 1;
                        if x & 1 == 0 {
                            return Err(Stop::Viol("assert".into(), id, self.note_str(s)));
                        }
                    }
                    V::S(e) => {
                        let e = *e;
                        let e = if self.a.w(e) == 1 { e } else { self.a.extract(e, 0, 1) };
                        self.stats.asserts_solver += 1;
                        let e = match self.a.stronger(e) {
                            Some(g) if !self.feasible(s, g)?.1 => g,
                            _ => e,
                        };
                        let (ct, cf) = match self.feasible(s, e) {
                            // undecided: any input of this path is a candidate worth replaying
                            Err(Stop::Err(m)) if m.starts_with("solver gave up") => {
                                let t = self.refute(s, e).unwrap_or_else(|| s.clone());
                                let n = self.note_str(&t);
                                self.report(&t, "assert".into(), id, n);
                                return Err(Stop::Err(m));
                            }
                            r => r?,
                        };
                        if cf {
                            let ne = self.a.not(e);
                            let mut t = s.clone();
                            self.add(&mut t, ne);
                            let m = self.note_str(&t);
                            self.report(&t, "assert".into(), id, m);
                        }
                        if !ct {
                            return Err(Stop::Kill);
                        }
                        if cf {
                            self.add(s, e);
                        }
                    }
                    _ => {}
                }
            }
            H::Fail => {
                let id = match &av[0] {
                    V::C(i) => *i,
                    _ => 0,
                };
                self.stats.asserts += 1;
                self.stats.asserts_folded += 1;
                let m = self.note_str(s);
                return Err(Stop::Viol("assert".into(), id, m));
            }
            H::Reach => {
                if let V::C(i) = &av[0] {
                    s.reach |= 1 << (i & 63);
                }
            }
            H::Param => {
                if let V::C(i) = &av[0] {
                    ret = Some(V::C(self.params.get(*i as usize).cloned().unwrap_or(0)));
                }
            }
            H::Note => {
                if let (V::C(9), V::C(g)) = (&av[0], &av[1]) {
                    s.guard = *g as u8;
                } else if let V::C(i) = &av[0] {
                    s.notes.push((*i as u32, av[1].clone()));
                }
            }
            H::IsConcrete => {
                // sx_is_concrete(ptr,len): all bytes concrete?
                let (ptr, n) = match (&av[0], &av[1]) {
                    (V::C(a), V::C(b)) => (*a, *b),
                    _ => return Err(Stop::Err("sx_is_concrete".into())),
                };
                let mut all = true;
                for i in 0..n {
                    if !matches!(self.byte(s, ptr + i)?, V::C(_)) {
                        all = false;
                        break;
                    }
                }
                ret = Some(V::C(all as u64));
            }
            H::IteH => {
                // sx_ite(c, t, f): a term, never a fork
                let one = self.a.konst(1, 64);
                let c = self.e(&av[0], 64);
                let c = self.a.bin(Op::Eq, c, one);
                let (t, f) = (self.e(&av[1], 64), self.e(&av[2], 64));
                let r = self.a.ite(c, t, f);
                ret = Some(self.v(r));
            }
            H::Forced => {
                // sx_forced(value): the value itself if the path condition leaves only one, else unchanged term
                ret = Some(match &av[0] {
                    V::S(e) => {
                        let e = *e;
                        match self.single_value(s, e)? {
                            Some(x) => V::C(x),
                            None => V::S(e),
                        }
                    }
                    v => v.clone(),
                });
            }
            H::Uf => {
                // sx_uf(id, ptr to u64s, n) -> u64
                let (id, ptr, n) = match (&av[0], &av[1], &av[2]) {
                    (V::C(a), V::C(b), V::C(c)) => (*a, *b, *c),
                    _ => return Err(Stop::Err("sx_uf".into())),
                };
                let mut l = vec![];
                for i in 0..n {
                    let x = self.load_int(s, ptr + 8 * i, 64)?;
                    let x = self.e(&x, 64);
                    l.push(x);
                }
                let known: Option<Vec<u128>> = l.iter().map(|e| self.a.c(*e)).collect();
                ret = Some(match known {
                    // decimal to double on known digits: four chunks of nineteen, lowest first, then the exponent
                    Some(k) if id == 1 && k.len() == 5 => {
                        let t = format!("{}{:019}{:019}{:019}e{}", k[3], k[2], k[1], k[0], k[4] as u64 as i64);
                        V::C(t.parse::<f64>().unwrap().to_bits())
                    }
                    _ => {
                        let r = self.a.uf(id as u32, l, 64);
                        self.v(r)
                    }
                });
            }
            H::Memcmp | H::Bcmp => {
                let n = match self.retry_conc(s, &av[2], 512)? {
                    Some(n) => n,
                    None => return Ok(()),
                };
                if n == 0 {
                    ret = Some(V::C(0));
                } else {
                    let p = match self.retry_conc(s, &av[0], 512)? {
                        Some(n) => n,
                        None => return Ok(()),
                    };
                    let q = match self.retry_conc(s, &av[1], 512)? {
                        Some(n) => n,
                        None => return Ok(()),
                    };
                    let zero = self.a.konst(0, 32);
                    let mut acc = zero;
                    for i in (0..n).rev() {
                        let x = self.byte(s, p + i)?;
                        let y = self.byte(s, q + i)?;
                        let (x, y) = (self.e(&x, 8), self.e(&y, 8));
                        let eq = self.a.bin(Op::Eq, x, y);
                        let diff = if h == H::Bcmp {
                            self.a.konst(1, 32)
                        } else {
                            let lt = self.a.bin(Op::Ult, x, y);
                            let m1 = self.a.konst(mask(32), 32);
                            let one = self.a.konst(1, 32);
                            self.a.ite(lt, m1, one)
                        };
                        acc = self.a.ite(eq, acc, diff);
                    }
                    ret = Some(self.v(acc));
                }
            }
            H::Strlen => return Err(Stop::Err("strlen".into())),
            H::Alloc | H::AllocZeroed => {
                let n = match self.retry_conc(s, &av[0], 64)? {
                    Some(n) => n,
                    None => return Ok(()),
                };
                let al = Self::conc(&av[1]).unwrap_or(16) as u64;
                if n > 1 << 24 {
                    return Err(Stop::Err(format!("allocation of {} bytes", n)));
                }
                ret = Some(V::C(self.alloc_heap(s, n, al)));
            }
            H::Dealloc => {
                let a = match self.retry_conc(s, &av[0], 64)? {
                    Some(n) => n,
                    None => return Ok(()),
                };
                self.free_heap(s, a)?;
            }
            H::Realloc => {
                // ptr, old size, align, new size
                let n = match self.retry_conc(s, &av[3], 64)? {
                    Some(n) => n,
                    None => return Ok(()),
                };
                let old = match self.retry_conc(s, &av[1], 64)? {
                    Some(n) => n,
                    None => return Ok(()),
                };
                let ptr = match self.retry_conc(s, &av[0], 64)? {
                    Some(n) => n,
                    None => return Ok(()),
                };
                let al = Self::conc(&av[2]).unwrap_or(16) as u64;
                let a = self.alloc_heap(s, n, al);
                self.memcpy(s, a, ptr, old.min(n))?;
                self.free_heap(s, ptr)?;
                ret = Some(V::C(a));
            }
            H::RandState | H::RandKeys => {
                ret = Some(V::A(Rc::new(vec![V::C(0), V::C(0)])));
                if *rty == Ty::Void {
                    // sret
                    if let V::C(a) = &av[0] {
                        let a = *a;
                        self.store_int(s, a, &V::C(0), 64)?;
                        self.store_int(s, a + 8, &V::C(0), 64)?;
                    }
                    ret = None;
                }
            }
            H::HashFinish | H::HashOne => ret = Some(V::C(0)),
            H::Panic => {
                let (m, l) = self.panic_msg(s, &av);
                return Err(Stop::Viol("panic".into(), l, m));
            }
            H::Abort | H::Trap => return Err(Stop::Viol("abort".into(), 0, "abort".into())),
            H::ParseF64(f) => {
                // (sret, ptr, len): concrete strings run the real parser, symbolic ones the model
                let np = av.len();
                let n = match self.retry_conc(s, &av[np - 1], 512)? {
                    Some(n) => n,
                    None => return Ok(()),
                };
                let ptr = match self.retry_conc(s, &av[np - 2], 512)? {
                    Some(n) => n,
                    None => return Ok(()),
                };
                let mut all = true;
                for i in 0..n {
                    if !matches!(self.byte(s, ptr + i)?, V::C(_)) {
                        all = false;
                    }
                }
                // re-entrancy: the model itself may call the real parser on concrete text
                let target = if all { f } else { self.p.user_model["sx_model_parse_f64"] };
                self.push_frame(s, target, av, d, normal);
                return Ok(());
            }
            H::Summary(f) => match (&av[0], &av[1], &av[2]) {
                (V::C(p), V::C(l), V::S(e)) => {
                    let (p, l, e) = (*p, *l, *e);
                    let set = self.summary(f, p, l, s)?;
                    let r = self.a.inset(e, set);
                    ret = Some(self.v(r));
                }
                _ => {
                    self.push_frame(s, f, av, d, normal);
                    return Ok(());
                }
            },
            H::Memcpy => {
                let n = match self.retry_conc(s, &av[2], 512)? {
                    Some(n) => n,
                    None => return Ok(()),
                };
                if n > 0 {
                    let a = match self.retry_conc(s, &av[0], 512)? {
                        Some(n) => n,
                        None => return Ok(()),
                    };
                    let b = match self.retry_conc(s, &av[1], 512)? {
                        Some(n) => n,
                        None => return Ok(()),
                    };
                    self.memcpy(s, a, b, n)?;
                }
                ret = Some(av[0].clone());
            }
            H::Memset => {
                let n = match self.retry_conc(s, &av[2], 512)? {
                    Some(n) => n,
                    None => return Ok(()),
                };
                if n > 0 {
                    let a = match self.retry_conc(s, &av[0], 512)? {
                        Some(n) => n,
                        None => return Ok(()),
                    };
                    match &av[1] {
                        V::C(b) => {
                            let b = *b as u8;
                            let (o, off) = self.obj_mut(s, a, n)?;
                            for x in &mut o.bytes[off..off + n as usize] {
                                *x = b;
                            }
                            if let Some(m) = &mut o.sym {
                                let ks: Vec<u32> = m.range(off as u32..(off as u64 + n) as u32).map(|(k, _)| *k).collect();
                                for k in ks {
                                    m.remove(&k);
                                }
                            }
                        }
                        v => {
                            for i in 0..n {
                                self.store_int(s, a + i, v, 8)?;
                            }
                        }
                    }
                }
                ret = Some(av[0].clone());
            }
            H::Ctpop | H::Cttz | H::Ctlz | H::Bswap | H::Bitreverse => {
                let ty = &args[0].0;
                if let Ty::Vec(..) = ty {
                    return Err(Stop::Err("vector bit intrinsic".into()));
                }
                let w = w0();
                match Self::conc(&av[0]) {
                    Some(c) => {
                        let r = match h {
                            H::Ctpop => c.count_ones() as u128,
                            H::Cttz => {
                                if c == 0 {
                                    w as u128
                                } else {
                                    c.trailing_zeros() as u128
                                }
                            }
                            H::Ctlz => (c.leading_zeros() - (128 - w)) as u128,
                            H::Bswap => c.swap_bytes() >> (128 - w),
                            _ => c.reverse_bits() >> (128 - w),
                        };
                        ret = Some(cv(r, w));
                    }
                    None => {
                        let e = self.e(&av[0], w);
                        let r = self.bitfun(h, e, w);
                        ret = Some(self.v(r));
                    }
                }
            }
            H::Fshl | H::Fshr => {
                let w = w0();
                let (a, b, c) = (self.e(&av[0], w), self.e(&av[1], w), self.e(&av[2], w));
                let wm = self.a.konst(w as u128, w);
                let sh = self.a.bin(Op::URem, c, wm);
                let inv = self.a.sub(wm, sh);
                let (x, y) = if h == H::Fshl { (self.a.bin(Op::Shl, a, sh), self.a.bin(Op::LShr, b, inv)) } else { (self.a.bin(Op::Shl, a, inv), self.a.bin(Op::LShr, b, sh)) };
                let r = self.a.bin(Op::Or, x, y);
                ret = Some(self.v(r));
            }
            H::UMax | H::UMin | H::SMax | H::SMin => {
                let ty = args[0].0.clone();
                ret = Some(self.minmax(h, &ty, &av[0], &av[1])?);
            }
            H::Abs => {
                let w = w0();
                let e = self.e(&av[0], w);
                let z = self.a.konst(0, w);
                let n = self.a.neg(e);
                let c = self.a.bin(Op::Slt, e, z);
                let r = self.a.ite(c, n, e);
                ret = Some(self.v(r));
            }
            H::USubSat | H::UAddSat => {
                let w = w0();
                let (a, b) = (self.e(&av[0], w), self.e(&av[1], w));
                let r = if h == H::USubSat {
                    let c = self.a.bin(Op::Ult, a, b);
                    let z = self.a.konst(0, w);
                    let t = self.a.sub(a, b);
                    self.a.ite(c, z, t)
                } else {
                    let t = self.a.bin(Op::Add, a, b);
                    let c = self.a.bin(Op::Ult, t, a);
                    let m = self.a.konst(mask(w), w);
                    self.a.ite(c, m, t)
                };
                ret = Some(self.v(r));
            }
            H::SSubSat | H::SAddSat => return Err(Stop::Err("signed saturating intrinsic".into())),
            H::UAddO | H::USubO | H::UMulO | H::SAddO | H::SSubO | H::SMulO => {
                let w = w0();
                let (a, b) = (self.e(&av[0], w), self.e(&av[1], w));
                let (r, o) = self.ovf(h, a, b, w)?;
                let (r, o) = (self.v(r), self.v(o));
                ret = Some(V::A(Rc::new(vec![r, o])));
            }
            H::Ucmp | H::Scmp => {
                let w = w0();
                let rw = rty.bits();
                let (a, b) = (self.e(&av[0], w), self.e(&av[1], w));
                let lt = self.a.bin(if h == H::Ucmp { Op::Ult } else { Op::Slt }, a, b);
                let eq = self.a.bin(Op::Eq, a, b);
                let (m1, z, one) = (self.a.konst(mask(rw), rw), self.a.konst(0, rw), self.a.konst(1, rw));
                let t = self.a.ite(eq, z, one);
                let r = self.a.ite(lt, m1, t);
                ret = Some(self.v(r));
            }
            H::Fma => {
                let w = w0();
                let (a, b, c) = (self.e(&av[0], w), self.e(&av[1], w), self.e(&av[2], w));
                let r = self.a.fma(a, b, c);
                ret = Some(self.v(r));
            }
            H::FAbs | H::FFloor | H::FCeil | H::FTrunc | H::FSqrt => {
                let w = w0();
                let a = self.e(&av[0], w);
                let op = match h {
                    H::FAbs => Op::FAbs,
                    H::FFloor => Op::FFloor,
                    H::FCeil => Op::FCeil,
                    H::FTrunc => Op::FTruncI,
                    _ => Op::FSqrt,
                };
                let r = self.a.fun(op, a, w);
                ret = Some(self.v(r));
            }
            H::FpPow | H::Fexp2 => {
                let c0 = Self::conc(&av[0]);
                let c1 = av.get(1).and_then(Self::conc);
                match (h, c0, c1) {
                    (H::Fexp2, Some(a), _) => ret = Some(V::C(f64::from_bits(a as u64).exp2().to_bits())),
                    (_, Some(a), Some(b)) => {
                        let x = f64::from_bits(a as u64);
                        let r = if args[1].0.is_fp() { x.powf(f64::from_bits(b as u64)) } else { x.powi(b as u32 as i32) };
                        ret = Some(V::C(r.to_bits()));
                    }
                    // no theory of exponentials: any function will do, counterexamples are replayed
                    _ => {
                        let w = w0();
                        let mut l = vec![self.e(&av[0], w)];
                        if h == H::FpPow {
                            l.push(self.e(&av[1], args[1].0.bits()));
                        }
                        let id = if h == H::Fexp2 { 51 } else { 50 };
                        let r = self.a.uf(id, l, w);
                        ret = Some(self.v(r));
                    }
                }
            }
            H::CopySign => {
                let w = w0();
                let (a, b) = (self.e(&av[0], w), self.e(&av[1], w));
                let (m, k) = (self.a.konst(mask(w - 1), w), self.a.konst(1u128 << (w - 1), w));
                let x = self.a.bin(Op::And, a, m);
                let y = self.a.bin(Op::And, b, k);
                let r = self.a.bin(Op::Or, x, y);
                ret = Some(self.v(r));
            }
            H::FMinNum | H::FMaxNum => {
                let w = w0();
                let (a, b) = (self.e(&av[0], w), self.e(&av[1], w));
                let nan = self.a.fbin(Op::FUno, a, a);
                let better = if h == H::FMinNum { self.a.fbin(Op::FOlt, b, a) } else { self.a.fbin(Op::FOlt, a, b) };
                let take = self.a.bin(Op::Or, nan, better);
                let r = self.a.ite(take, b, a);
                ret = Some(self.v(r));
            }
            H::FptouiSat | H::FptosiSat => {
                let (wf, wt) = (w0(), rty.bits());
                match Self::conc(&av[0]) {
                    Some(c) => {
                        let f = if wf == 32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c as u64) };
                        let r: u128 = if h == H::FptouiSat {
                            let x = f as u128;
                            x.min(mask(wt))
                        } else {
                            let hi = (1i128 << (wt - 1)) - 1;
                            let lo = -(1i128 << (wt - 1));
                            (f as i128).clamp(lo, hi) as u128
                        };
                        ret = Some(cv(r, wt));
                    }
                    None => {
                        let e = self.e(&av[0], wf);
                        let r = self.fp_sat(h == H::FptosiSat, e, wf, wt)?;
                        ret = Some(self.v(r));
                    }
                }
            }
            H::IsConstant => ret = Some(V::C(0)),
            H::TlsAddr | H::CastLaunder => ret = Some(av[0].clone()),
            H::ObjSize => ret = Some(V::C(u64::MAX)),
            H::PtrMask => {
                let t = Ty::Int(64);
                ret = Some(self.bin(s, Bin::And, &t, &av[0], &av[1])?);
            }
            H::Pmovmskb => {
                if let V::A(v) = &av[0] {
                    let v = v.clone();
                    let bits: Vec<V> = v
                        .iter()
                        .map(|x| {
                            let e = self.e(x, 8);
                            let b = self.a.extract(e, 7, 1);
                            self.v(b)
                        })
                        .collect();
                    let n = bits.len() as u32;
                    let i = self.vec_to_int(&V::A(Rc::new(bits)), 1)?;
                    ret = Some(self.cast(s, CastOp::ZExt, &Ty::Int(n), rty, &i)?);
                }
            }
            H::VecReduceAdd | H::VecReduceOr | H::VecReduceAnd => {
                if let V::A(v) = &av[0] {
                    let v = v.clone();
                    let op = match h {
                        H::VecReduceAdd => Bin::Add,
                        H::VecReduceOr => Bin::Or,
                        _ => Bin::And,
                    };
                    let mut acc = v[0].clone();
                    for x in &v[1..] {
                        acc = self.bin(s, op, rty, &acc, x)?;
                    }
                    ret = Some(acc);
                }
            }
        }
        if let (Some(d), Some(v)) = (d, ret) {
            Self::set(s, d, v);
        }
        if let Some(n) = normal {
            self.goto(s, n);
        }
        Ok(())
    }
    fn note_str(&self, s: &State) -> String {
        s.notes
            .iter()
            .map(|(i, v)| match v {
                V::C(c) => format!("n{}={}", i, c),
                V::S(e) => format!("n{}={}", i, self.a.show(*e, 2)),
                _ => String::new(),
            })
            .collect::<Vec<_>>()
            .join(" ")
    }
    fn single_value(&mut self, s: &State, e: E) -> R<Option<u64>> {
        if let Some(v) = self.a.single(e) {
            let d = self.dom_of(s, v);
            let ivs = self.a.sets[d as usize].clone();
            if iv_count(&ivs) == 1 {
                let mut memo = HashMap::default();
                let x = ivs[0].0;
                return Ok(self.a.eval(e, &|_| x, &mut memo).map(|v| v as u64));
            }
        }
        Ok(None)
    }
    fn new_input(&mut self, s: &mut State, w: u32, set: SetId, lo: u64, hi: u64) -> V {
        let key = (s.dom.len() as u32, w, set, lo, hi);
        let v = match self.varkey.get(&key) {
            Some(&v) => v,
            None => {
                let v = self.a.new_var(w, lo, hi, format!("in{}", s.dom.len()));
                self.varkey.insert(key, v);
                v
            }
        };
        s.dom.push((v, set));
        if lo == hi {
            return V::C(lo);
        }
        let e = self.a.var(v);
        let e = if w < 64 { self.a.zext(e, 64) } else { e };
        V::S(e)
    }
    fn bitfun(&mut self, h: H, e: E, w: u32) -> E {
        match h {
            H::Ctpop => {
                let mut acc = self.a.konst(0, w);
                for i in 0..w {
                    let b = self.a.extract(e, i, 1);
                    let b = if w > 1 { self.a.zext(b, w) } else { b };
                    acc = self.a.bin(Op::Add, acc, b);
                }
                acc
            }
            H::Cttz => {
                let mut acc = self.a.konst(w as u128, w);
                for i in (0..w).rev() {
                    let b = self.a.extract(e, i, 1);
                    let k = self.a.konst(i as u128, w);
                    acc = self.a.ite(b, k, acc);
                }
                acc
            }
            H::Ctlz => {
                let mut acc = self.a.konst(w as u128, w);
                for i in 0..w {
                    let b = self.a.extract(e, i, 1);
                    let k = self.a.konst((w - 1 - i) as u128, w);
                    acc = self.a.ite(b, k, acc);
                }
                acc
            }
            H::Bswap => {
                let n = w / 8;
                let mut acc = self.a.extract(e, 0, 8);
                for i in 1..n {
                    let b = self.a.extract(e, 8 * i, 8);
                    acc = self.a.concat(acc, b);
                }
                acc
            }
            _ => {
                let mut acc = self.a.extract(e, 0, 1);
                for i in 1..w {
                    let b = self.a.extract(e, i, 1);
                    acc = self.a.concat(acc, b);
                }
                acc
            }
        }
    }
    fn minmax(&mut self, h: H, ty: &Ty, x: &V, y: &V) -> R<V> {
        if let Ty::Vec(_, et) = ty {
            if let (V::A(p), V::A(q)) = (x, y) {
                let mut o = vec![];
                for i in 0..p.len() {
                    o.push(self.minmax(h, et, &p[i], &q[i])?);
                }
                return Ok(V::A(Rc::new(o)));
            }
        }
        let w = ty.bits();
        let (a, b) = (self.e(x, w), self.e(y, w));
        let lt = match h {
            H::UMax | H::UMin => self.a.bin(Op::Ult, a, b),
            _ => self.a.bin(Op::Slt, a, b),
        };
        let r = match h {
            H::UMin | H::SMin => self.a.ite(lt, a, b),
            _ => self.a.ite(lt, b, a),
        };
        Ok(self.v(r))
    }
    fn ovf(&mut self, h: H, a: E, b: E, w: u32) -> R<(E, E)> {
        Ok(match h {
            H::UAddO => {
                let r = self.a.bin(Op::Add, a, b);
                let o = if self.a.ub[a as usize] + self.a.ub[b as usize] <= mask(w) && w < 127 { self.a.fls() } else { self.a.bin(Op::Ult, r, a) };
                (r, o)
            }
            H::USubO => {
                let r = self.a.sub(a, b);
                let o = self.a.bin(Op::Ult, a, b);
                (r, o)
            }
            H::UMulO => {
                let r = self.a.bin(Op::Mul, a, b);
                if let Some(p) = self.a.ub[a as usize].checked_mul(self.a.ub[b as usize]) {
                    if p <= mask(w) {
                        let f = self.a.fls();
                        return Ok((r, f));
                    }
                }
                if w > 64 {
                    if let (Some(x), Some(y)) = (self.a.c(a), self.a.c(b)) {
                        let o = x.checked_mul(y).map(|v| v > mask(w)).unwrap_or(true);
                        let o = self.a.konst(o as u128, 1);
                        return Ok((r, o));
                    }
                    return Err(Stop::Err("wide umul overflow".into()));
                }
                let x = self.a.zext(a, 2 * w);
                let y = self.a.zext(b, 2 * w);
                let t = self.a.bin(Op::Mul, x, y);
                let hi = self.a.extract(t, w, w);
                let z = self.a.konst(0, w);
                let eq = self.a.bin(Op::Eq, hi, z);
                let o = self.a.not(eq);
                (r, o)
            }
            H::SAddO | H::SSubO => {
                let r = if h == H::SAddO { self.a.bin(Op::Add, a, b) } else { self.a.sub(a, b) };
                if w > 64 {
                    return Err(Stop::Err("wide signed overflow".into()));
                }
                let (x, y) = (self.a.sext(a, w + 1), self.a.sext(b, w + 1));
                let t = if h == H::SAddO { self.a.bin(Op::Add, x, y) } else { self.a.sub(x, y) };
                let u = self.a.sext(r, w + 1);
                let eq = self.a.bin(Op::Eq, t, u);
                let o = self.a.not(eq);
                (r, o)
            }
            _ => {
                if w > 64 {
                    return Err(Stop::Err("wide smul overflow".into()));
                }
                let r = self.a.bin(Op::Mul, a, b);
                let (x, y) = (self.a.sext(a, 2 * w), self.a.sext(b, 2 * w));
                let t = self.a.bin(Op::Mul, x, y);
                let u = self.a.sext(r, 2 * w);
                let eq = self.a.bin(Op::Eq, t, u);
                let o = self.a.not(eq);
                (r, o)
            }
        })
    }
    /// saturating float-to-int
    fn fp_sat(&mut self, signed: bool, e: E, wf: u32, wt: u32) -> R<E> {
        if wf != 64 {
            return Err(Stop::Err("fp_sat width".into()));
        }
        let nan = self.a.fbin(Op::FUno, e, e);
        let (lo, hi) = if signed { (-((2f64).powi(wt as i32 - 1)), (2f64).powi(wt as i32 - 1)) } else { (0.0, (2f64).powi(wt as i32)) };
        let lo_k = self.a.konst(lo.to_bits() as u128, 64);
        let hi_k = self.a.konst(hi.to_bits() as u128, 64);
        let below = self.a.fbin(Op::FOlt, e, lo_k);
        let above = self.a.fbin(Op::FOle, hi_k, e);
        let c = self.a.fun(if signed { Op::FPToSI } else { Op::FPToUI }, e, wt);
        let z = self.a.konst(0, wt);
        let (mn, mx) = if signed { (1u128 << (wt - 1), (1u128 << (wt - 1)) - 1) } else { (0, mask(wt)) };
        let mn = self.a.konst(mn, wt);
        let mx = self.a.konst(mx, wt);
        let r = self.a.ite(above, mx, c);
        let r = self.a.ite(below, mn, r);
        Ok(self.a.ite(nan, z, r))
    }
}

impl State {
    fn replay_cursor(&self) -> bool {
        self.rp < self.replay.len()
    }
    fn take_replay(&mut self) -> u32 {
        let c = self.replay[self.rp];
        self.rp += 1;
        self.log.push(c);
        c
    }
}
