//! Hash-consed bit-vector / IEEE-754 terms, rewriting, and the interval-set decision procedure
//! used for constraints over a single input variable.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;
pub type SetId = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Const,
    Var,
    Add, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
    Eq, Ult, Ule, Slt, Sle,
    Ite,
    ZExt, SExt,
    Extract, // k = low bit
    Concat,  // a = high, b = low
    InSet,   // k = set id
    FAdd, FSub, FMul, FDiv, FRem, Fma,
    FOeq, FOlt, FOle, FUno,
    UIToFP, SIToFP, FPToUI, FPToSI, FPExt, FPTrunc,
    FNeg, FAbs, FFloor, FCeil, FTruncI, FSqrt,
    Uf, // k = index of arg list
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: [E; 3],
    pub k: u128,
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub w: u32,
    pub lo: u64,
    pub hi: u64,
    pub name: String,
}

/// Sorted, disjoint, non-adjacent closed intervals.
pub type Ivs = Vec<(u64, u64)>;

pub struct Arena {
    pub nodes: Vec<Node>,
    map: HashMap<Node, E, Fx>,
    pub ub: Vec<u128>, // unsigned upper bound
    pub supp: Vec<u32>,
    pub supps: Vec<Rc<Vec<u32>>>,
    suppmap: HashMap<Rc<Vec<u32>>, u32>,
    pub vars: Vec<VarInfo>,
    pub sets: Vec<Rc<Ivs>>,
    setmap: HashMap<Rc<Ivs>, SetId>,
    inter_memo: HashMap<(SetId, SetId), SetId, Fx>,
    diff_memo: HashMap<(SetId, SetId), SetId, Fx>,
    sat_memo: HashMap<E, Option<SetId>, Fx>,
    pub ufargs: Vec<Rc<(u32, Vec<E>)>>,
    ufmap: HashMap<Rc<(u32, Vec<E>)>, u32>,
}

#[derive(Default, Clone, Copy)]
pub struct FxH(u64);
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64);
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}
pub type Fx = std::hash::BuildHasherDefault<FxH>;

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

// ------------------------------------------------------------- interval sets
pub fn iv_norm(mut v: Ivs) -> Ivs {
    v.sort_unstable();
    let mut r: Ivs = Vec::with_capacity(v.len());
    for (l, h) in v {
        if l > h {
            continue;
        }
        if let Some(last) = r.last_mut() {
            if last.1 == u64::MAX || l <= last.1 + 1 {
                if h > last.1 {
                    last.1 = h;
                }
                continue;
            }
        }
        r.push((l, h));
    }
    r
}
pub fn iv_inter(a: &Ivs, b: &Ivs) -> Ivs {
    let (mut i, mut j) = (0, 0);
    let mut r = vec![];
    while i < a.len() && j < b.len() {
        let l = a[i].0.max(b[j].0);
        let h = a[i].1.min(b[j].1);
        if l <= h {
            r.push((l, h));
        }
        if a[i].1 < b[j].1 {
            i += 1
        } else {
            j += 1
        }
    }
    r
}
pub fn iv_diff(a: &Ivs, b: &Ivs) -> Ivs {
    let mut r = vec![];
    let mut j = 0;
    for &(l, h) in a {
        let mut cur = l;
        let mut done = false;
        while j < b.len() && b[j].1 < cur {
            j += 1;
        }
        let mut k = j;
        while k < b.len() && b[k].0 <= h {
            if b[k].0 > cur {
                r.push((cur, b[k].0 - 1));
            }
            if b[k].1 == u64::MAX {
                done = true;
                break;
            }
            cur = cur.max(b[k].1 + 1);
            if cur > h {
                done = true;
                break;
            }
            k += 1;
        }
        if !done && cur <= h {
            r.push((cur, h));
        }
    }
    r
}
pub fn iv_count(a: &Ivs) -> u128 {
    a.iter().map(|&(l, h)| (h - l) as u128 + 1).sum()
}

/// Some(k) for the bits of 2^k as an f64, |k| <= 512
fn pow2(bits: u128) -> Option<i32> {
    let (e, m) = ((bits >> 52) as i32, bits & ((1 << 52) - 1));
    if m == 0 && bits >> 63 == 0 && (e - 1023).abs() <= 512 {
        Some(e - 1023)
    } else {
        None
    }
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena {
            nodes: vec![],
            map: HashMap::default(),
            ub: vec![],
            supp: vec![],
            supps: vec![],
            suppmap: HashMap::new(),
            vars: vec![],
            sets: vec![],
            setmap: HashMap::new(),
            inter_memo: HashMap::default(),
            diff_memo: HashMap::default(),
            sat_memo: HashMap::default(),
            ufargs: vec![],
            ufmap: HashMap::new(),
        };
        a.intern_supp(vec![]);
        a.set(vec![]);
        a
    }
    fn intern_supp(&mut self, v: Vec<u32>) -> u32 {
        if let Some(&i) = self.suppmap.get(&v) {
            return i;
        }
        let r = Rc::new(v);
        let i = self.supps.len() as u32;
        self.supps.push(r.clone());
        self.suppmap.insert(r, i);
        i
    }
    fn union_supp(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let mut v: Vec<u32> = self.supps[a as usize].iter().chain(self.supps[b as usize].iter()).cloned().collect();
        v.sort_unstable();
        v.dedup();
        self.intern_supp(v)
    }
    pub fn set(&mut self, v: Ivs) -> SetId {
        if let Some(&i) = self.setmap.get(&v) {
            return i;
        }
        let r = Rc::new(v);
        let i = self.sets.len() as u32;
        self.sets.push(r.clone());
        self.setmap.insert(r, i);
        i
    }
    pub fn set_inter(&mut self, a: SetId, b: SetId) -> SetId {
        if a == b {
            return a;
        }
        let key = (a.min(b), a.max(b));
        if let Some(&r) = self.inter_memo.get(&key) {
            return r;
        }
        let v = iv_inter(&self.sets[a as usize].clone(), &self.sets[b as usize].clone());
        let r = self.set(v);
        self.inter_memo.insert(key, r);
        r
    }
    pub fn set_diff(&mut self, a: SetId, b: SetId) -> SetId {
        if a == b {
            return 0;
        }
        if let Some(&r) = self.diff_memo.get(&(a, b)) {
            return r;
        }
        let v = iv_diff(&self.sets[a as usize].clone(), &self.sets[b as usize].clone());
        let r = self.set(v);
        self.diff_memo.insert((a, b), r);
        r
    }

    fn mk(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let e = self.nodes.len() as E;
        let ub = self.compute_ub(&n);
        let supp = match n.op {
            Op::Const => 0,
            Op::Var => self.intern_supp(vec![n.k as u32]),
            Op::Uf => {
                let l = self.ufargs[n.k as usize].clone();
                let mut s = 0;
                for x in &l.1 {
                    s = self.union_supp(s, self.supp[*x as usize]);
                }
                s
            }
            _ => {
                let ar = Self::arity(n.op);
                let mut s = self.supp[n.a[0] as usize];
                if ar > 1 {
                    s = self.union_supp(s, self.supp[n.a[1] as usize]);
                }
                if ar > 2 {
                    s = self.union_supp(s, self.supp[n.a[2] as usize]);
                }
                s
            }
        };
        self.nodes.push(n);
        self.ub.push(ub);
        self.supp.push(supp);
        self.map.insert(n, e);
        e
    }
    pub fn arity(op: Op) -> usize {
        use Op::*;
        match op {
            Const | Var | Uf => 0,
            ZExt | SExt | Extract | InSet | UIToFP | SIToFP | FPToUI | FPToSI | FPExt | FPTrunc | FNeg | FAbs | FFloor | FCeil | FTruncI | FSqrt => 1,
            Ite | Fma => 3,
            _ => 2,
        }
    }
    fn compute_ub(&self, n: &Node) -> u128 {
        let m = mask(n.w);
        let u = |i: usize| self.ub[n.a[i] as usize];
        let r = match n.op {
            Op::Const => n.k,
            Op::Var => self.vars[n.k as usize].hi as u128,
            Op::Add => u(0).checked_add(u(1)).unwrap_or(m),
            Op::Mul => u(0).checked_mul(u(1)).unwrap_or(m),
            Op::UDiv => {
                if let Some(c) = self.c(n.a[1]) {
                    if c > 0 {
                        u(0) / c
                    } else {
                        m
                    }
                } else {
                    m
                }
            }
            Op::URem => {
                if u(1) > 0 {
                    u(0).min(u(1))
                } else {
                    u(0)
                }
            }
            Op::And => u(0).min(u(1)),
            Op::Or | Op::Xor => {
                let b = 128 - (u(0) | u(1)).leading_zeros();
                mask(b)
            }
            Op::LShr => match self.c(n.a[1]) {
                Some(c) if c < 128 => u(0) >> c,
                _ => u(0),
            },
            Op::Shl => match self.c(n.a[1]) {
                Some(c) if c < 128 && (u(0) << c) >> c == u(0) => u(0) << c,
                _ => m,
            },
            Op::Ite => u(1).max(u(2)),
            Op::ZExt => u(0),
            Op::Extract => {
                let v = u(0) >> (n.k as u32);
                if v <= m {
                    v
                } else {
                    m
                }
            }
            Op::Concat => {
                let wl = self.nodes[n.a[1] as usize].w;
                (u(0) << wl) | mask(wl)
            }
            _ => m,
        };
        if r > m {
            m
        } else {
            r
        }
    }

    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w
    }
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    pub fn c(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn konst(&mut self, v: u128, w: u32) -> E {
        self.mk(Node { op: Op::Const, w, a: [0; 3], k: v & mask(w) })
    }
    pub fn new_var(&mut self, w: u32, lo: u64, hi: u64, name: String) -> u32 {
        self.vars.push(VarInfo { w, lo, hi, name });
        (self.vars.len() - 1) as u32
    }
    pub fn var(&mut self, v: u32) -> E {
        let w = self.vars[v as usize].w;
        self.mk(Node { op: Op::Var, w, a: [0; 3], k: v as u128 })
    }
    pub fn tru(&mut self) -> E {
        self.konst(1, 1)
    }
    pub fn fls(&mut self) -> E {
        self.konst(0, 1)
    }
    pub fn not(&mut self, e: E) -> E {
        let o = self.konst(mask(self.w(e)), self.w(e));
        self.bin(Op::Xor, e, o)
    }
    pub fn neg(&mut self, e: E) -> E {
        let w = self.w(e);
        if let Some(c) = self.c(e) {
            return self.konst(c.wrapping_neg(), w);
        }
        let x = self.not(e);
        let one = self.konst(1, w);
        self.bin(Op::Add, x, one)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        if a == b {
            let w = self.w(a);
            return self.konst(0, w);
        }
        // (x + b) - b
        let na = self.n(a);
        if na.op == Op::Add && na.a[1] == b {
            return na.a[0];
        }
        if na.op == Op::Add && na.a[0] == b {
            return na.a[1];
        }
        let nb = self.neg(b);
        self.bin(Op::Add, a, nb)
    }
    pub fn single(&self, e: E) -> Option<u32> {
        let s = &self.supps[self.supp[e as usize] as usize];
        if s.len() == 1 {
            Some(s[0])
        } else {
            None
        }
    }

    pub fn fold(op: Op, w: u32, a: u128, b: u128) -> u128 {
        let m = mask(w);
        match op {
            Op::Add => a.wrapping_add(b) & m,
            Op::Mul => a.wrapping_mul(b) & m,
            Op::UDiv => {
                if b == 0 {
                    m
                } else {
                    a / b
                }
            }
            Op::URem => {
                if b == 0 {
                    a
                } else {
                    a % b
                }
            }
            Op::SDiv => {
                let (x, y) = (sx(a, w), sx(b, w));
                if y == 0 {
                    m
                } else {
                    (x.wrapping_div(y) as u128) & m
                }
            }
            Op::SRem => {
                let (x, y) = (sx(a, w), sx(b, w));
                if y == 0 {
                    a
                } else {
                    (x.wrapping_rem(y) as u128) & m
                }
            }
            Op::Shl => {
                if b >= w as u128 {
                    0
                } else {
                    (a << b) & m
                }
            }
            Op::LShr => {
                if b >= w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            Op::AShr => {
                let s = if b >= w as u128 { w - 1 } else { b as u32 };
                ((sx(a, w) >> s) as u128) & m
            }
            Op::And => a & b,
            Op::Or => a | b,
            Op::Xor => a ^ b,
            Op::Eq => (a == b) as u128,
            Op::Ult => (a < b) as u128,
            Op::Ule => (a <= b) as u128,
            Op::Slt => (sx(a, w) < sx(b, w)) as u128,
            Op::Sle => (sx(a, w) <= sx(b, w)) as u128,
            _ => unreachable!(),
        }
    }

    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        assert_eq!(self.w(a), self.w(b), "operands of {:?} differ in width", op);
        use Op::*;
        let w = self.w(a);
        debug_assert!(w == self.w(b), "{:?} {} {}", op, w, self.w(b));
        let rw = match op {
            Eq | Ult | Ule | Slt | Sle => 1,
            _ => w,
        };
        let (ca, cb) = (self.c(a), self.c(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(Self::fold(op, w, x, y), rw);
        }
        if matches!(op, Add | Mul | And | Or | Xor | Eq) && (ca.is_some() || (cb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
        }
        let (ca, cb) = (self.c(a), self.c(b));
        let m = mask(w);
        let na = self.n(a);
        let nb = self.n(b);
        match op {
            Eq if w == 64 && (na.op == FMul || nb.op == FMul) && self.scaled(a).is_some() && self.scaled(b).is_some() => {
                // comparing two scaled integers does not depend on a common power of two
                let ((x, i), (y, j)) = (self.scaled(a).unwrap(), self.scaled(b).unwrap());
                let m = i.min(j);
                let (x, y) = (self.scale(x, i - m), self.scale(y, j - m));
                if (x, y) != (a, b) {
                    return self.bin(Eq, x, y);
                }
            }
            Eq if w == 64 && (na.op == UIToFP || nb.op == UIToFP) => {
                // conversions of integers below 2^53 are exact
                if let (Some((x, _)), Some((y, _))) = (self.as_int(a), self.as_int(b)) {
                    return self.bin(Eq, x, y);
                }
            }
            Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    if na.op == Add {
                        if let Some(x) = self.c(na.a[1]) {
                            let k = self.konst(x.wrapping_add(y), w);
                            return self.bin(Add, na.a[0], k);
                        }
                    }
                    if na.op == Ite {
                        if self.c(na.a[1]).is_some() && self.c(na.a[2]).is_some() {
                            let t = self.bin(Add, na.a[1], b);
                            let f = self.bin(Add, na.a[2], b);
                            return self.ite(na.a[0], t, f);
                        }
                    }
                }
                // float constants outwards: (x + c) + y
                if na.op == Add && cb.is_none() {
                    if self.c(na.a[1]).is_some() {
                        let t = self.bin(Add, na.a[0], b);
                        return self.bin(Add, t, na.a[1]);
                    }
                }
                if nb.op == Add {
                    if self.c(nb.a[1]).is_some() {
                        let t = self.bin(Add, a, nb.a[0]);
                        return self.bin(Add, t, nb.a[1]);
                    }
                }
            }
            Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
            }
            UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if self.ub[a as usize] < y {
                        return self.konst(0, w);
                    }
                    if y.is_power_of_two() {
                        let k = self.konst(y.trailing_zeros() as u128, w);
                        return self.bin(LShr, a, k);
                    }
                }
            }
            URem => {
                if let Some(y) = cb {
                    if self.ub[a as usize] < y {
                        return a;
                    }
                    if y.is_power_of_two() {
                        let k = self.konst(y - 1, w);
                        return self.bin(And, a, k);
                    }
                }
            }
            Shl | LShr | AShr => {
                if cb == Some(0) {
                    return a;
                }
                if ca == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    if y >= w as u128 && op != AShr {
                        return self.konst(0, w);
                    }
                    if op == LShr {
                        if self.ub[a as usize] >> y.min(127) == 0 {
                            return self.konst(0, w);
                        }
                        let y = y as u32;
                        // (zext x) >> y
                        if na.op == ZExt {
                            let x = na.a[0];
                            let wx = self.w(x);
                            if y >= wx {
                                return self.konst(0, w);
                            }
                            let k = self.konst(y as u128, wx);
                            let s = self.bin(LShr, x, k);
                            return self.zext(s, w);
                        }
                        if na.op == Concat {
                            let lo = na.a[1];
                            let wl = self.w(lo);
                            if y >= wl {
                                let hi = na.a[0];
                                let wh = self.w(hi);
                                let k = self.konst((y - wl) as u128, wh);
                                let s = self.bin(LShr, hi, k);
                                return self.zext(s, w);
                            }
                        }
                        if na.op == LShr {
                            if let Some(z) = self.c(na.a[1]) {
                                let k = self.konst(z + y as u128, w);
                                return self.bin(LShr, na.a[0], k);
                            }
                        }
                        // (x << z) >> y
                        if na.op == Shl {
                            if let Some(z) = self.c(na.a[1]) {
                                let x = na.a[0];
                                if z < 128 && (self.ub[x as usize] << z) >> z == self.ub[x as usize] && self.ub[x as usize] << z <= m {
                                    if z as u32 == y {
                                        return x;
                                    }
                                    if (z as u32) > y {
                                        let k = self.konst(z - y as u128, w);
                                        return self.bin(Shl, x, k);
                                    }
                                    let k = self.konst(y as u128 - z, w);
                                    return self.bin(LShr, x, k);
                                }
                            }
                        }
                    }
                    if op == Shl && na.op == Shl {
                        if let Some(z) = self.c(na.a[1]) {
                            let k = self.konst(z + y, w);
                            return self.bin(Shl, na.a[0], k);
                        }
                    }
                    if op == AShr && self.ub[a as usize] < (1u128 << (w - 1)) {
                        return self.bin(LShr, a, b);
                    }
                }
            }
            And => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(m) || a == b {
                    return a;
                }
                if let Some(y) = cb {
                    // low mask covering the upper bound
                    let u = self.ub[a as usize];
                    let bits = 128 - u.leading_zeros();
                    if mask(bits) & y == mask(bits) {
                        return a;
                    }
                    if na.op == And {
                        if let Some(x) = self.c(na.a[1]) {
                            let k = self.konst(x & y, w);
                            return self.bin(And, na.a[0], k);
                        }
                    }
                    // low mask: zext(extract)
                    if (y + 1).is_power_of_two() && w > 1 {
                        let k = 128 - y.leading_zeros();
                        let t = self.extract(a, 0, k);
                        return self.zext(t, w);
                    }
                    if na.op == ZExt {
                        let wx = self.w(na.a[0]);
                        let k = self.konst(y, wx);
                        let t = self.bin(And, na.a[0], k);
                        return self.zext(t, w);
                    }
                    if na.op == Or {
                        if let Some(x) = self.c(na.a[1]) {
                            if x & y == 0 {
                                return self.bin(And, na.a[0], b);
                            }
                        }
                    }
                    if na.op == Ite && self.c(na.a[1]).is_some() && self.c(na.a[2]).is_some() {
                        let t = self.bin(And, na.a[1], b);
                        let f = self.bin(And, na.a[2], b);
                        return self.ite(na.a[0], t, f);
                    }
                }
                if w == 1 {
                    let x = self.not(a);
                    if x == b {
                        return self.fls();
                    }
                }
            }
            Or => {
                if cb == Some(0) || a == b {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
                if let Some(y) = cb {
                    if na.op == Or {
                        if let Some(x) = self.c(na.a[1]) {
                            let k = self.konst(x | y, w);
                            return self.bin(Or, na.a[0], k);
                        }
                    }
                }
                if w == 1 {
                    let x = self.not(a);
                    if x == b {
                        return self.tru();
                    }
                }
                // zext(x) | (y << k) with disjoint bits: concat
                if w > 1 && cb.is_none() {
                    for (p, q) in [(a, b), (b, a)] {
                        let nq = self.n(q);
                        if nq.op == Shl {
                            if let Some(k) = self.c(nq.a[1]) {
                                let k = k as u32;
                                if self.ub[p as usize] <= mask(k) {
                                    let lo = self.extract(p, 0, k);
                                    let hi = self.extract(nq.a[0], 0, w - k);
                                    return self.concat(hi, lo);
                                }
                            }
                        }
                    }
                }
            }
            Xor => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(y) = cb {
                    if na.op == Xor {
                        if let Some(x) = self.c(na.a[1]) {
                            let k = self.konst(x ^ y, w);
                            return self.bin(Xor, na.a[0], k);
                        }
                    }
                    if w == 1 && y == 1 {
                        // not of comparisons
                        match na.op {
                            Ult => return self.bin(Ule, na.a[1], na.a[0]),
                            Ule => return self.bin(Ult, na.a[1], na.a[0]),
                            Slt => return self.bin(Sle, na.a[1], na.a[0]),
                            Sle => return self.bin(Slt, na.a[1], na.a[0]),
                            _ => {}
                        }
                    }
                    if na.op == Ite && self.c(na.a[1]).is_some() && self.c(na.a[2]).is_some() {
                        let t = self.bin(Xor, na.a[1], b);
                        let f = self.bin(Xor, na.a[2], b);
                        return self.ite(na.a[0], t, f);
                    }
                }
            }
            Eq => {
                if a == b {
                    return self.tru();
                }
                if w == 1 {
                    if let Some(y) = cb {
                        return if y == 1 { a } else { self.not(a) };
                    }
                }
                if let Some(y) = cb {
                    if y > self.ub[a as usize] {
                        return self.fls();
                    }
                    match na.op {
                        Add => {
                            if let Some(x) = self.c(na.a[1]) {
                                let k = self.konst(y.wrapping_sub(x), w);
                                return self.bin(Eq, na.a[0], k);
                            }
                        }
                        Xor => {
                            if let Some(x) = self.c(na.a[1]) {
                                let k = self.konst(y ^ x, w);
                                return self.bin(Eq, na.a[0], k);
                            }
                        }
                        ZExt => {
                            let wx = self.w(na.a[0]);
                            let k = self.konst(y, wx);
                            return self.bin(Eq, na.a[0], k);
                        }
                        SExt => {
                            let wx = self.w(na.a[0]);
                            let k = self.konst(y, wx);
                            let ok = (sx(y & mask(wx), wx) as u128) & m == y;
                            return if ok { self.bin(Eq, na.a[0], k) } else { self.fls() };
                        }
                        Ite => {
                            let (t, f) = (na.a[1], na.a[2]);
                            if self.c(t).is_some() || self.c(f).is_some() {
                                let x = self.bin(Eq, t, b);
                                let z = self.bin(Eq, f, b);
                                return self.ite(na.a[0], x, z);
                            }
                        }
                        Concat => {
                            let (hi, lo) = (na.a[0], na.a[1]);
                            let (wh, wl) = (self.w(hi), self.w(lo));
                            let kh = self.konst(y >> wl, wh);
                            let kl = self.konst(y, wl);
                            let x = self.bin(Eq, hi, kh);
                            let z = self.bin(Eq, lo, kl);
                            return self.bin(And, x, z);
                        }
                        _ => {}
                    }
                } else {
                    if na.op == ZExt && nb.op == ZExt && self.w(na.a[0]) == self.w(nb.a[0]) {
                        return self.bin(Eq, na.a[0], nb.a[0]);
                    }
                    if na.op == Concat && nb.op == Concat && self.w(na.a[1]) == self.w(nb.a[1]) {
                        let x = self.bin(Eq, na.a[0], nb.a[0]);
                        let z = self.bin(Eq, na.a[1], nb.a[1]);
                        return self.bin(And, x, z);
                    }
                    if na.op == Add && nb.op == Add {
                        if na.a[1] == nb.a[1] {
                            return self.bin(Eq, na.a[0], nb.a[0]);
                        }
                        if na.a[0] == nb.a[0] {
                            return self.bin(Eq, na.a[1], nb.a[1]);
                        }
                    }
                }
            }
            Ult | Ule => {
                if a == b {
                    return self.konst((op == Ule) as u128, 1);
                }
                let (ua, ubb) = (self.ub[a as usize], self.ub[b as usize]);
                if let Some(y) = cb {
                    if op == Ult && ua < y || op == Ule && ua <= y {
                        return self.tru();
                    }
                    if op == Ult && y == 0 {
                        return self.fls();
                    }
                    if op == Ule && y == 0 || op == Ult && y == 1 {
                        let z = self.konst(0, w);
                        return self.bin(Eq, a, z);
                    }
                    if na.op == ZExt {
                        let wx = self.w(na.a[0]);
                        let k = self.konst(y, wx); // y <= ub here fits
                        return self.bin(op, na.a[0], k);
                    }
                    if na.op == Ite && self.c(na.a[1]).is_some() && self.c(na.a[2]).is_some() {
                        let t = self.bin(op, na.a[1], b);
                        let f = self.bin(op, na.a[2], b);
                        return self.ite(na.a[0], t, f);
                    }
                }
                if let Some(x) = ca {
                    if op == Ule && x == 0 {
                        return self.tru();
                    }
                    if op == Ult && x >= ubb || op == Ule && x > ubb {
                        return self.fls();
                    }
                    if nb.op == ZExt {
                        let wx = self.w(nb.a[0]);
                        let k = self.konst(x, wx);
                        return self.bin(op, k, nb.a[0]);
                    }
                    if nb.op == Ite && self.c(nb.a[1]).is_some() && self.c(nb.a[2]).is_some() {
                        let t = self.bin(op, a, nb.a[1]);
                        let f = self.bin(op, a, nb.a[2]);
                        return self.ite(nb.a[0], t, f);
                    }
                }
                if na.op == ZExt && nb.op == ZExt && self.w(na.a[0]) == self.w(nb.a[0]) {
                    return self.bin(op, na.a[0], nb.a[0]);
                }
            }
            Slt | Sle => {
                if a == b {
                    return self.konst((op == Sle) as u128, 1);
                }
                let half = 1u128 << (w - 1);
                // both known non-negative: unsigned comparison
                if self.ub[a as usize] < half && self.ub[b as usize] < half {
                    return self.bin(if op == Slt { Ult } else { Ule }, a, b);
                }
                if let Some(y) = cb {
                    if self.ub[a as usize] < half && y >= half {
                        return self.fls();
                    }
                    if na.op == Ite && self.c(na.a[1]).is_some() && self.c(na.a[2]).is_some() {
                        let t = self.bin(op, na.a[1], b);
                        let f = self.bin(op, na.a[2], b);
                        return self.ite(na.a[0], t, f);
                    }
                }
                if let Some(x) = ca {
                    if self.ub[b as usize] < half && x >= half {
                        return self.tru();
                    }
                }
            }
            _ => {}
        }
        self.mk(Node { op, w: rw, a: [a, b, 0], k: 0 })
    }

    pub fn ite(&mut self, c: E, t: E, f: E) -> E {
        if let Some(x) = self.c(c) {
            return if x == 1 { t } else { f };
        }
        if t == f {
            return t;
        }
        let w = self.w(t);
        if w == 1 {
            match (self.c(t), self.c(f)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, f),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, f);
                }
                (None, Some(0)) => return self.bin(Op::And, c, t),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, t);
                }
                _ => {}
            }
        }
        let nc = self.n(c);
        if nc.op == Op::Xor && self.c(nc.a[1]) == Some(1) {
            return self.ite(nc.a[0], f, t);
        }
        // same-condition nesting
        let nt = self.n(t);
        if nt.op == Op::Ite && nt.a[0] == c {
            return self.ite(c, nt.a[1], f);
        }
        let nf = self.n(f);
        if nf.op == Op::Ite && nf.a[0] == c {
            return self.ite(c, t, nf.a[2]);
        }
        if nf.op == Op::Ite && nf.a[1] == t {
            let o = self.bin(Op::Or, c, nf.a[0]);
            return self.ite(o, t, nf.a[2]);
        }
        self.mk(Node { op: Op::Ite, w, a: [c, t, f], k: 0 })
    }
    pub fn zext(&mut self, e: E, w: u32) -> E {
        let n = self.n(e);
        if n.w == w {
            return e;
        }
        if n.op == Op::Const {
            return self.konst(n.k, w);
        }
        if n.op == Op::ZExt {
            return self.zext(n.a[0], w);
        }
        if n.op == Op::Ite && self.c(n.a[1]).is_some() && self.c(n.a[2]).is_some() && n.w > 1 {
            let t = self.zext(n.a[1], w);
            let f = self.zext(n.a[2], w);
            return self.ite(n.a[0], t, f);
        }
        // zext(extract(x,0,k)) where ub(x) fits
        if n.op == Op::Extract && n.k == 0 {
            let x = n.a[0];
            if self.ub[x as usize] <= mask(n.w) {
                let wx = self.w(x);
                if wx == w {
                    return x;
                }
                if wx < w {
                    return self.zext(x, w);
                }
                return self.extract(x, 0, w);
            }
        }
        self.mk(Node { op: Op::ZExt, w, a: [e, 0, 0], k: 0 })
    }
    pub fn sext(&mut self, e: E, w: u32) -> E {
        let n = self.n(e);
        if n.w == w {
            return e;
        }
        if n.op == Op::Const {
            return self.konst(sx(n.k, n.w) as u128, w);
        }
        if self.ub[e as usize] < 1u128 << (n.w - 1) {
            return self.zext(e, w);
        }
        if n.op == Op::SExt {
            return self.sext(n.a[0], w);
        }
        if n.w == 1 {
            let t = self.konst(mask(w), w);
            let f = self.konst(0, w);
            return self.ite(e, t, f);
        }
        self.mk(Node { op: Op::SExt, w, a: [e, 0, 0], k: 0 })
    }
    pub fn extract(&mut self, e: E, lo: u32, w: u32) -> E {
        let n = self.n(e);
        if lo == 0 && w == n.w {
            return e;
        }
        debug_assert!(lo + w <= n.w, "extract {} {} of {}", lo, w, n.w);
        if lo < 128 && self.ub[e as usize] >> lo == 0 {
            return self.konst(0, w);
        }
        match n.op {
            Op::Const => return self.konst(n.k >> lo, w),
            Op::ZExt | Op::SExt => {
                let x = n.a[0];
                let wx = self.w(x);
                if lo + w <= wx {
                    return self.extract(x, lo, w);
                }
                if n.op == Op::ZExt {
                    if lo >= wx {
                        return self.konst(0, w);
                    }
                    let t = self.extract(x, lo, wx - lo);
                    return self.zext(t, w);
                }
            }
            Op::Extract => return self.extract(n.a[0], lo + n.k as u32, w),
            Op::Concat => {
                let wl = self.w(n.a[1]);
                if lo + w <= wl {
                    return self.extract(n.a[1], lo, w);
                }
                if lo >= wl {
                    return self.extract(n.a[0], lo - wl, w);
                }
                let l = self.extract(n.a[1], lo, wl - lo);
                let h = self.extract(n.a[0], 0, w - (wl - lo));
                return self.concat(h, l);
            }
            Op::And | Op::Or | Op::Xor => {
                if self.c(n.a[1]).is_some() {
                    let x = self.extract(n.a[0], lo, w);
                    let y = self.extract(n.a[1], lo, w);
                    return self.bin(n.op, x, y);
                }
            }
            Op::LShr => {
                if let Some(k) = self.c(n.a[1]) {
                    let l2 = lo as u128 + k;
                    if l2 + w as u128 <= n.w as u128 {
                        return self.extract(n.a[0], l2 as u32, w);
                    }
                }
            }
            Op::Shl => {
                if let Some(k) = self.c(n.a[1]) {
                    let k = k as u32;
                    if lo >= k {
                        return self.extract(n.a[0], lo - k, w);
                    }
                    if lo + w <= k {
                        return self.konst(0, w);
                    }
                }
            }
            Op::Add | Op::Mul if lo == 0 => {
                let x = self.extract(n.a[0], 0, w);
                let y = self.extract(n.a[1], 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                if self.c(n.a[1]).is_some() || self.c(n.a[2]).is_some() {
                    let t = self.extract(n.a[1], lo, w);
                    let f = self.extract(n.a[2], lo, w);
                    return self.ite(n.a[0], t, f);
                }
            }
            _ => {}
        }
        self.mk(Node { op: Op::Extract, w, a: [e, 0, 0], k: lo as u128 })
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (nh, nl) = (self.n(hi), self.n(lo));
        let w = nh.w + nl.w;
        assert!(w <= 128);
        if nh.op == Op::Const && nl.op == Op::Const {
            return self.konst((nh.k << nl.w) | nl.k, w);
        }
        if nh.op == Op::Const && nh.k == 0 {
            return self.zext(lo, w);
        }
        // adjacent extracts
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a[0] == nl.a[0] && nh.k == nl.k + nl.w as u128 {
            return self.extract(nh.a[0], nl.k as u32, w);
        }
        // extract(x,k..) over x itself narrower: concat(extract(x,8,n), trunc8 x)
        if nl.op == Op::Concat && nh.op == Op::Extract {
            let nlh = self.n(nl.a[0]);
            if nlh.op == Op::Extract && nlh.a[0] == nh.a[0] && nh.k == nlh.k + nlh.w as u128 {
                let h = self.extract(nh.a[0], nlh.k as u32, nh.w + nlh.w);
                return self.concat(h, nl.a[1]);
            }
        }
        if nh.op == Op::ZExt && nl.op == Op::Extract {
            let x = self.n(nh.a[0]);
            if x.op == Op::Extract && x.a[0] == nl.a[0] && x.k == nl.k + nl.w as u128 {
                let t = self.extract(x.a[0], nl.k as u32, x.w + nl.w);
                return self.zext(t, w);
            }
        }
        self.mk(Node { op: Op::Concat, w, a: [hi, lo, 0], k: 0 })
    }
    pub fn inset(&mut self, e: E, s: SetId) -> E {
        if let Some(c) = self.c(e) {
            let m = self.sets[s as usize].iter().any(|&(l, h)| l as u128 <= c && c <= h as u128);
            return self.konst(m as u128, 1);
        }
        self.mk(Node { op: Op::InSet, w: 1, a: [e, 0, 0], k: s as u128 })
    }
    pub fn uf(&mut self, id: u32, args: Vec<E>, w: u32) -> E {
        let key = (id, args);
        let i = if let Some(&i) = self.ufmap.get(&key) {
            i
        } else {
            let r = Rc::new(key);
            let i = self.ufargs.len() as u32;
            self.ufargs.push(r.clone());
            self.ufmap.insert(r, i);
            i
        };
        self.mk(Node { op: Op::Uf, w, a: [0; 3], k: i as u128 })
    }

    // ---------------------------------------------------- floating point
    /// integer-valued view: Some((int expr 64-bit, upper bound)) if e is exactly the f64 of an integer below 2^53
    fn as_int(&mut self, e: E) -> Option<(E, u128)> {
        let n = self.n(e);
        if n.w != 64 {
            return None;
        }
        match n.op {
            Op::UIToFP => {
                let x = n.a[0];
                let u = self.ub[x as usize];
                if u <= 1 << 53 {
                    let x64 = if self.w(x) > 64 { self.extract(x, 0, 64) } else { self.zext(x, 64) };
                    return Some((x64, u));
                }
                None
            }
            // an integer that single precision holds exactly
            Op::FPExt if self.n(n.a[0]).op == Op::UIToFP && self.w(n.a[0]) == 32 => {
                let x = self.n(n.a[0]).a[0];
                let u = self.ub[x as usize];
                if u <= 1 << 24 {
                    let x64 = if self.w(x) > 64 { self.extract(x, 0, 64) } else { self.zext(x, 64) };
                    return Some((x64, u));
                }
                None
            }
            Op::Const => {
                let f = f64::from_bits(n.k as u64);
                if f >= 0.0 && f <= 9007199254740992.0 && f.trunc() == f && !(f == 0.0 && f.is_sign_negative()) {
                    let k = self.konst(f as u128, 64);
                    return Some((k, f as u128));
                }
                None
            }
            _ => None,
        }
    }
    /// e = UIToFP(x) * 2^k exactly, for small k: (UIToFP node, k)
    fn scaled(&self, e: E) -> Option<(E, i32)> {
        let n = self.n(e);
        if n.w != 64 {
            return None;
        }
        match n.op {
            Op::UIToFP => Some((e, 0)),
            Op::FMul => {
                for (x, y) in [(n.a[0], n.a[1]), (n.a[1], n.a[0])] {
                    if self.n(x).op == Op::UIToFP && self.w(self.n(x).a[0]) <= 128 {
                        if let Some(k) = self.c(y).and_then(pow2) {
                            return Some((x, k));
                        }
                    }
                }
                None
            }
            _ => None,
        }
    }
    /// UIToFP(x) * 2^k: rounding does not depend on the scale, so shift the integer where it fits
    fn scale(&mut self, u: E, k: i32) -> E {
        if k == 0 {
            return u;
        }
        let x = self.n(u).a[0];
        let ub = self.ub[x as usize];
        if k > 0 && k < 128 && self.w(x) <= 128 && ub <= u128::MAX >> k {
            let x = self.zext(x, 128);
            let s = self.konst(k as u128, 128);
            let r = self.bin(Op::Shl, x, s);
            return self.ui2fp(r, 64);
        }
        let c = self.konst((2f64).powi(k).to_bits() as u128, 64);
        self.mk(Node { op: Op::FMul, w: 64, a: [u, c, 0], k: 0 })
    }
    pub fn fp_fold(op: Op, w: u32, a: u128, b: u128, c: u128) -> u128 {
        if w == 32 {
            let (x, y, z) = (f32::from_bits(a as u32), f32::from_bits(b as u32), f32::from_bits(c as u32));
            return match op {
                Op::FAdd => (x + y).to_bits() as u128,
                Op::FSub => (x - y).to_bits() as u128,
                Op::FMul => (x * y).to_bits() as u128,
                Op::FDiv => (x / y).to_bits() as u128,
                Op::FRem => (x % y).to_bits() as u128,
                Op::Fma => x.mul_add(y, z).to_bits() as u128,
                Op::FOeq => (x == y) as u128,
                Op::FOlt => (x < y) as u128,
                Op::FOle => (x <= y) as u128,
                Op::FUno => (x.is_nan() || y.is_nan()) as u128,
                _ => unreachable!(),
            };
        }
        let (x, y, z) = (f64::from_bits(a as u64), f64::from_bits(b as u64), f64::from_bits(c as u64));
        match op {
            Op::FAdd => (x + y).to_bits() as u128,
            Op::FSub => (x - y).to_bits() as u128,
            Op::FMul => (x * y).to_bits() as u128,
            Op::FDiv => (x / y).to_bits() as u128,
            Op::FRem => (x % y).to_bits() as u128,
            Op::Fma => x.mul_add(y, z).to_bits() as u128,
            Op::FOeq => (x == y) as u128,
            Op::FOlt => (x < y) as u128,
            Op::FOle => (x <= y) as u128,
            Op::FUno => (x.is_nan() || y.is_nan()) as u128,
            _ => unreachable!(),
        }
    }
    pub fn fbin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        let rw = match op {
            Op::FOeq | Op::FOlt | Op::FOle | Op::FUno => 1,
            _ => w,
        };
        if let (Some(x), Some(y)) = (self.c(a), self.c(b)) {
            let v = Self::fp_fold(op, w, x, y, 0);
            return self.konst(v, rw);
        }
        if matches!(op, Op::FOeq | Op::FOlt | Op::FOle) || op == Op::FUno {
            if let (Some((x, _)), Some((y, _))) = (self.as_int(a), self.as_int(b)) {
                return match op {
                    Op::FOeq => self.bin(Op::Eq, x, y),
                    Op::FOlt => self.bin(Op::Ult, x, y),
                    Op::FOle => self.bin(Op::Ule, x, y),
                    _ => self.fls(),
                };
            }
            // conversions from integers are never NaN
            if a == b && matches!(self.n(a).op, Op::UIToFP | Op::SIToFP) {
                return self.konst(matches!(op, Op::FOeq | Op::FOle) as u128, 1);
            }
        }
        if op == Op::FDiv && w == 64 && self.c(b) == Some(1f64.to_bits() as u128) && self.n(a).op == Op::UIToFP {
            return a;
        }
        if op == Op::FMul && w == 64 {
            for (x, y) in [(a, b), (b, a)] {
                if let (Some(k), Some((u, j))) = (self.c(y).and_then(pow2), self.scaled(x)) {
                    if (j + k).abs() <= 512 {
                        return self.scale(u, j + k);
                    }
                }
            }
        }
        if matches!(op, Op::FAdd | Op::FMul) {
            if let (Some((x, ux)), Some((y, uy))) = (self.as_int(a), self.as_int(b)) {
                let u = if op == Op::FAdd { ux + uy } else { ux * uy };
                if u <= 1 << 53 {
                    let r = self.bin(if op == Op::FAdd { Op::Add } else { Op::Mul }, x, y);
                    return self.ui2fp(r, 64);
                }
            }
        }
        self.mk(Node { op, w: rw, a: [a, b, 0], k: 0 })
    }
    /// a condition without floating point that implies `e`, for equality of two converted integers
    pub fn stronger(&mut self, e: E) -> Option<E> {
        let n = self.n(e);
        if n.op != Op::Eq {
            return None;
        }
        let (mut x, mut y) = (self.n(n.a[0]), self.n(n.a[1]));
        if x.op == Op::FMul && y.op == Op::FMul && x.a[1] == y.a[1] {
            x = self.n(x.a[0]);
            y = self.n(y.a[0]);
        }
        if x.op != Op::UIToFP || y.op != Op::UIToFP {
            return None;
        }
        let (a, b) = (x.a[0], y.a[0]);
        let w = self.w(a).max(self.w(b));
        let (a, b) = (self.zext(a, w), self.zext(b, w));
        Some(self.bin(Op::Eq, a, b))
    }
    pub fn fma(&mut self, a: E, b: E, c: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y), Some(z)) = (self.c(a), self.c(b), self.c(c)) {
            let v = Self::fp_fold(Op::Fma, w, x, y, z);
            return self.konst(v, w);
        }
        if let (Some((x, ux)), Some((y, uy)), Some((z, uz))) = (self.as_int(a), self.as_int(b), self.as_int(c)) {
            if ux * uy + uz <= 1 << 53 {
                let t = self.bin(Op::Mul, x, y);
                let r = self.bin(Op::Add, t, z);
                return self.ui2fp(r, 64);
            }
        }
        self.mk(Node { op: Op::Fma, w, a: [a, b, c], k: 0 })
    }
    pub fn ui2fp(&mut self, a: E, w: u32) -> E {
        if let Some(c) = self.c(a) {
            let v = if w == 32 { (c as f32).to_bits() as u128 } else { (c as f64).to_bits() as u128 };
            return self.konst(v, w);
        }
        let n = self.n(a);
        if n.op == Op::ZExt {
            return self.ui2fp(n.a[0], w);
        }
        self.mk(Node { op: Op::UIToFP, w, a: [a, 0, 0], k: 0 })
    }
    pub fn fun(&mut self, op: Op, a: E, w: u32) -> E {
        if op == Op::UIToFP {
            return self.ui2fp(a, w);
        }
        let wa = self.w(a);
        if op == Op::SIToFP && self.ub[a as usize] < 1u128 << (wa - 1) {
            return self.ui2fp(a, w);
        }
        if let Some(c) = self.c(a) {
            if let Some(v) = Self::fun_fold(op, c, wa, w) {
                return self.konst(v, w);
            }
        }
        if op == Op::FPToUI {
            if let Some((x, u)) = self.as_int(a) {
                if u <= mask(w) {
                    return if w <= 64 { self.extract(x, 0, w) } else { self.zext(x, w) };
                }
            }
        }
        self.mk(Node { op, w, a: [a, 0, 0], k: 0 })
    }
    pub fn fun_fold(op: Op, c: u128, wa: u32, w: u32) -> Option<u128> {
        let f = if wa == 32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c as u64) };
        let back = |f: f64| if w == 32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 };
        Some(match op {
            Op::UIToFP => {
                if w == 32 { (c as f32).to_bits() as u128 } else { (c as f64).to_bits() as u128 }
            }
            Op::SIToFP => {
                let v = sx(c, wa);
                if w == 32 {
                    (v as f32).to_bits() as u128
                } else {
                    (v as f64).to_bits() as u128
                }
            }
            Op::FPToUI => (f as u128) & mask(w),
            Op::FPToSI => (f as i128 as u128) & mask(w),
            Op::FPExt => f.to_bits() as u128,
            Op::FPTrunc => (f as f32).to_bits() as u128,
            Op::FNeg => {
                if wa == 32 {
                    c ^ 0x8000_0000
                } else {
                    c ^ (1 << 63)
                }
            }
            Op::FAbs => {
                if wa == 32 {
                    c & 0x7fff_ffff
                } else {
                    c & ((1 << 63) - 1)
                }
            }
            Op::FFloor => back(f.floor()),
            Op::FCeil => back(f.ceil()),
            Op::FTruncI => back(f.trunc()),
            Op::FSqrt => back(f.sqrt()),
            _ => return None,
        })
    }

    // ------------------------------------------------ interval decision procedure
    fn full_set(&mut self, v: u32) -> Ivs {
        let i = &self.vars[v as usize];
        vec![(i.lo, i.hi)]
    }
    pub fn var_full(&mut self, v: u32) -> SetId {
        let s = self.full_set(v);
        self.set(s)
    }
    /// Values of `v` (within its declared range) for which the unary boolean `e` holds.
    pub fn sat_set(&mut self, e: E) -> Option<SetId> {
        if let Some(&r) = self.sat_memo.get(&e) {
            return r;
        }
        let r = match self.single(e) {
            None => None,
            Some(v) => match self.sat_raw(e, v) {
                Some(s) => Some(self.set(s)),
                None => self.sat_small(e, v),
            },
        };
        self.sat_memo.insert(e, r);
        r
    }
    /// the same by evaluation, for a variable with few values
    fn sat_small(&mut self, e: E, v: u32) -> Option<SetId> {
        let (lo, hi) = (self.vars[v as usize].lo, self.vars[v as usize].hi);
        if hi - lo > 255 {
            return None;
        }
        let mut out = vec![];
        for x in lo..=hi {
            let mut memo = HashMap::default();
            if self.eval(e, &|_| x, &mut memo)? == 1 {
                out.push((x, x));
            }
        }
        Some(self.set(iv_norm(out)))
    }
    fn sat_raw(&mut self, e: E, v: u32) -> Option<Ivs> {
        let n = self.n(e);
        let full = self.full_set(v);
        match n.op {
            Op::Const => Some(if n.k == 1 { full } else { vec![] }),
            Op::Var => Some(iv_inter(&full, &vec![(1, 1)])),
            Op::And | Op::Or => {
                let a = self.sat_sub(n.a[0], v)?;
                let b = self.sat_sub(n.a[1], v)?;
                Some(if n.op == Op::And {
                    iv_inter(&a, &b)
                } else {
                    let mut x = a;
                    x.extend(b);
                    iv_norm(x)
                })
            }
            Op::Xor => {
                let a = self.sat_sub(n.a[0], v)?;
                if self.c(n.a[1]) == Some(1) {
                    return Some(iv_diff(&full, &a));
                }
                let b = self.sat_sub(n.a[1], v)?;
                let mut x = iv_diff(&a, &b);
                x.extend(iv_diff(&b, &a));
                Some(iv_norm(x))
            }
            Op::Ite => {
                let c = self.sat_sub(n.a[0], v)?;
                let t = self.sat_sub(n.a[1], v)?;
                let f = self.sat_sub(n.a[2], v)?;
                let mut x = iv_inter(&c, &t);
                x.extend(iv_diff(&f, &c));
                Some(iv_norm(x))
            }
            Op::InSet => {
                let s = (*self.sets[n.k as usize]).clone();
                self.pre(n.a[0], v, s)
            }
            Op::Extract if n.w == 1 => {
                // single bit
                self.pre(e, v, vec![(1, 1)])
            }
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                let (a, b) = (n.a[0], n.a[1]);
                let w = self.w(a);
                if w > 64 {
                    return None;
                }
                let m = mask(w) as u64;
                let half = 1u64 << (w - 1);
                let (ca, cb) = (self.c(a), self.c(b));
                match (n.op, ca, cb) {
                    (Op::Eq, None, Some(y)) => self.pre(a, v, vec![(y as u64, y as u64)]),
                    (Op::Eq, None, None) if w == 1 => {
                        let x = self.sat_sub(a, v)?;
                        let y = self.sat_sub(b, v)?;
                        let mut d = iv_diff(&x, &y);
                        d.extend(iv_diff(&y, &x));
                        let d = iv_norm(d);
                        Some(iv_diff(&full, &d))
                    }
                    (Op::Ult, None, Some(y)) => {
                        if y == 0 {
                            Some(vec![])
                        } else {
                            self.pre(a, v, vec![(0, y as u64 - 1)])
                        }
                    }
                    (Op::Ule, None, Some(y)) => self.pre(a, v, vec![(0, y as u64)]),
                    (Op::Ult, Some(x), None) => {
                        if x as u64 == m {
                            Some(vec![])
                        } else {
                            self.pre(b, v, vec![(x as u64 + 1, m)])
                        }
                    }
                    (Op::Ule, Some(x), None) => self.pre(b, v, vec![(x as u64, m)]),
                    (Op::Slt, ..) | (Op::Sle, ..) if ca.is_some() || cb.is_some() => {
                        // shift by sign bit: signed order = unsigned order of x ^ half
                        let strict = n.op == Op::Slt;
                        let (t, tgt) = match (ca, cb) {
                            (None, Some(y)) => {
                                let y = (y as u64) ^ half;
                                if strict && y == 0 {
                                    return Some(vec![]);
                                }
                                (a, (0, if strict { y - 1 } else { y }))
                            }
                            (Some(x), None) => {
                                let x = (x as u64) ^ half;
                                if strict && x == m {
                                    return Some(vec![]);
                                }
                                (b, (if strict { x + 1 } else { x }, m))
                            }
                            _ => return None,
                        };
                        // un-flip
                        let mut s = vec![];
                        let lowpart = iv_inter(&vec![tgt], &vec![(0, half - 1)]);
                        let highpart = iv_inter(&vec![tgt], &vec![(half, m)]);
                        for (l, h) in lowpart {
                            s.push((l + half, h + half));
                        }
                        for (l, h) in highpart {
                            s.push((l - half, h - half));
                        }
                        self.pre(t, v, iv_norm(s))
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }
    fn sat_sub(&mut self, e: E, v: u32) -> Option<Ivs> {
        if let Some(c) = self.c(e) {
            return Some(if c == 1 { self.full_set(v) } else { vec![] });
        }
        let s = self.sat_set(e)?;
        Some((*self.sets[s as usize]).clone())
    }
    /// preimage: values of v such that t's value lies in s
    fn pre(&mut self, t: E, v: u32, s: Ivs) -> Option<Ivs> {
        let n = self.n(t);
        if n.w > 64 {
            return None;
        }
        let m = mask(n.w) as u64;
        let s = iv_inter(&s, &vec![(0, self.ub[t as usize].min(m as u128) as u64)]);
        if s.is_empty() {
            return Some(vec![]);
        }
        match n.op {
            Op::Var => {
                let f = self.full_set(v);
                Some(iv_inter(&s, &f))
            }
            Op::Const => {
                let c = n.k as u64;
                let f = self.full_set(v);
                Some(if s.iter().any(|&(l, h)| l <= c && c <= h) { f } else { vec![] })
            }
            Op::ZExt => self.pre(n.a[0], v, s),
            Op::SExt => {
                let wx = self.w(n.a[0]);
                let half = 1u64 << (wx - 1);
                let mx = mask(wx) as u64;
                let lo = iv_inter(&s, &vec![(0, half - 1)]);
                let hi = iv_inter(&s, &vec![(m - half + 1, m)]);
                let mut r = lo;
                for (l, h) in hi {
                    r.push((l & mx, h & mx));
                }
                self.pre(n.a[0], v, iv_norm(r))
            }
            Op::Extract => {
                let x = n.a[0];
                let lo = n.k as u32;
                let u = self.ub[x as usize];
                if u > u64::MAX as u128 {
                    return None;
                }
                let u = u as u64;
                // widen by lo bits
                let mut base: Ivs = vec![];
                for (l, h) in &s {
                    base.push(((*l) << lo, ((*h) << lo) | (mask(lo) as u64)));
                }
                let top = lo + n.w;
                if top >= 64 || u < (1u64 << top) {
                    return self.pre(x, v, iv_norm(base));
                }
                let period = 1u64 << top;
                let cnt = u / period + 1;
                if cnt as usize * base.len() > 200_000 {
                    return None;
                }
                let mut r = Vec::with_capacity(cnt as usize * base.len());
                for k in 0..cnt {
                    for (l, h) in &base {
                        r.push((l + k * period, h + k * period));
                    }
                }
                self.pre(x, v, iv_norm(r))
            }
            Op::Add => {
                let c = self.c(n.a[1])? as u64;
                // x + c in [l,h] mod 2^w  =>  x in [l-c, h-c] wrapped
                let mut r = vec![];
                for (l, h) in s {
                    let l2 = l.wrapping_sub(c) & m;
                    let h2 = h.wrapping_sub(c) & m;
                    if l2 <= h2 {
                        r.push((l2, h2));
                    } else {
                        r.push((l2, m));
                        r.push((0, h2));
                    }
                }
                self.pre(n.a[0], v, iv_norm(r))
            }
            Op::LShr => {
                let c = self.c(n.a[1])?;
                if c >= n.w as u128 {
                    return None;
                }
                let c = c as u32;
                let mut r = vec![];
                for (l, h) in s {
                    let h = h.min(m >> c);
                    if l > h {
                        continue;
                    }
                    r.push((l << c, (h << c) | mask(c) as u64));
                }
                self.pre(n.a[0], v, iv_norm(r))
            }
            Op::Shl => {
                let c = self.c(n.a[1])?;
                let x = n.a[0];
                let u = self.ub[x as usize];
                if c >= 64 || (u << c) > m as u128 {
                    return None;
                }
                let c = c as u32;
                let mut r = vec![];
                for (l, h) in s {
                    let l2 = (l >> c) + if l & (mask(c) as u64) != 0 { 1 } else { 0 };
                    let h2 = h >> c;
                    if l2 <= h2 {
                        r.push((l2, h2));
                    }
                }
                self.pre(x, v, iv_norm(r))
            }
            Op::Mul => {
                let c = self.c(n.a[1])?;
                let x = n.a[0];
                let u = self.ub[x as usize];
                if c == 0 || u.checked_mul(c)? > m as u128 {
                    return None;
                }
                let c = c as u64;
                let mut r = vec![];
                for (l, h) in s {
                    let l2 = (l + c - 1) / c;
                    let h2 = h / c;
                    if l2 <= h2 {
                        r.push((l2, h2));
                    }
                }
                self.pre(x, v, iv_norm(r))
            }
            Op::UDiv => {
                let c = self.c(n.a[1])? as u64;
                if c == 0 {
                    return None;
                }
                let mut r = vec![];
                for (l, h) in s {
                    let l2 = (l as u128 * c as u128).min(m as u128 + 1);
                    let h2 = (h as u128 * c as u128 + c as u128 - 1).min(m as u128);
                    if l2 <= h2 {
                        r.push((l2 as u64, h2 as u64));
                    }
                }
                self.pre(n.a[0], v, iv_norm(r))
            }
            Op::Or => {
                // disjoint constant bits: addition
                let c = self.c(n.a[1])?;
                let x = n.a[0];
                let bits = 128 - self.ub[x as usize].leading_zeros();
                if mask(bits) & c != 0 {
                    return None;
                }
                let c = c as u64;
                let mut r = vec![];
                for (l, h) in s {
                    if h < c {
                        continue;
                    }
                    r.push((l.saturating_sub(c), h - c));
                }
                self.pre(x, v, iv_norm(r))
            }
            Op::Xor => {
                let c = self.c(n.a[1])? as u64;
                if c == m {
                    let mut r = vec![];
                    for (l, h) in s {
                        r.push((m - h, m - l));
                    }
                    return self.pre(n.a[0], v, iv_norm(r));
                }
                if c == 1u64 << (n.w - 1) {
                    let mut r = vec![];
                    let lo = iv_inter(&s, &vec![(0, c - 1)]);
                    let hi = iv_inter(&s, &vec![(c, m)]);
                    for (l, h) in lo {
                        r.push((l + c, h + c));
                    }
                    for (l, h) in hi {
                        r.push((l - c, h - c));
                    }
                    return self.pre(n.a[0], v, iv_norm(r));
                }
                None
            }
            Op::Ite => {
                let c = self.sat_sub(n.a[0], v)?;
                let a = self.pre(n.a[1], v, s.clone())?;
                let b = self.pre(n.a[2], v, s)?;
                let mut x = iv_inter(&c, &a);
                x.extend(iv_diff(&b, &c));
                Some(iv_norm(x))
            }
            _ if n.w == 1 => {
                let t1 = self.sat_sub(t, v)?;
                let f = self.full_set(v);
                let mut r = vec![];
                for (l, h) in s {
                    if l == 0 {
                        r.extend(iv_diff(&f, &t1));
                    }
                    if h >= 1 {
                        r.extend(t1.clone());
                    }
                }
                Some(iv_norm(r))
            }
            _ => None,
        }
    }

    /// Evaluate under an assignment of variables (None where an uninterpreted value is needed).
    pub fn eval(&self, e: E, asg: &dyn Fn(u32) -> u64, memo: &mut HashMap<E, Option<u128>, Fx>) -> Option<u128> {
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let n = self.n(e);
        use Op::*;
        let r = (|| {
            Some(match n.op {
                Const => n.k,
                Var => asg(n.k as u32) as u128,
                Uf => return None,
                Ite => {
                    let c = self.eval(n.a[0], asg, memo)?;
                    self.eval(if c == 1 { n.a[1] } else { n.a[2] }, asg, memo)?
                }
                ZExt => self.eval(n.a[0], asg, memo)?,
                SExt => {
                    let v = self.eval(n.a[0], asg, memo)?;
                    (sx(v, self.w(n.a[0])) as u128) & mask(n.w)
                }
                Extract => (self.eval(n.a[0], asg, memo)? >> n.k) & mask(n.w),
                Concat => (self.eval(n.a[0], asg, memo)? << self.w(n.a[1])) | self.eval(n.a[1], asg, memo)?,
                InSet => {
                    let c = self.eval(n.a[0], asg, memo)?;
                    self.sets[n.k as usize].iter().any(|&(l, h)| l as u128 <= c && c <= h as u128) as u128
                }
                FAdd | FSub | FMul | FDiv | FRem | FOeq | FOlt | FOle | FUno => {
                    let a = self.eval(n.a[0], asg, memo)?;
                    let b = self.eval(n.a[1], asg, memo)?;
                    Self::fp_fold(n.op, self.w(n.a[0]), a, b, 0)
                }
                Fma => {
                    let a = self.eval(n.a[0], asg, memo)?;
                    let b = self.eval(n.a[1], asg, memo)?;
                    let c = self.eval(n.a[2], asg, memo)?;
                    Self::fp_fold(n.op, n.w, a, b, c)
                }
                UIToFP | SIToFP | FPToUI | FPToSI | FPExt | FPTrunc | FNeg | FAbs | FFloor | FCeil | FTruncI | FSqrt => {
                    let a = self.eval(n.a[0], asg, memo)?;
                    Self::fun_fold(n.op, a, self.w(n.a[0]), n.w)?
                }
                _ => {
                    let a = self.eval(n.a[0], asg, memo)?;
                    let b = self.eval(n.a[1], asg, memo)?;
                    Self::fold(n.op, self.w(n.a[0]), a, b)
                }
            })
        })();
        memo.insert(e, r);
        r
    }

    pub fn show(&self, e: E, depth: usize) -> String {
        let n = self.n(e);
        match n.op {
            Op::Const => format!("{:#x}:{}", n.k, n.w),
            Op::Var => format!("v{}", n.k),
            _ if depth == 0 => format!("#{}", e),
            Op::Uf => {
                let l = &self.ufargs[n.k as usize];
                format!("uf{}({})", l.0, l.1.iter().map(|x| self.show(*x, depth - 1)).collect::<Vec<_>>().join(","))
            }
            _ => {
                let ar = Self::arity(n.op);
                let args: Vec<String> = (0..ar).map(|i| self.show(n.a[i], depth - 1)).collect();
                format!("({:?}{} {})", n.op, if n.k != 0 { format!(".{}", n.k) } else { String::new() }, args.join(" "))
            }
        }
    }
}
