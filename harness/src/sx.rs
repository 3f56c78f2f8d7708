//! Interface between the harnesses and the symbolic executor.  In the symbolic build these are
//! external symbols the executor intercepts; in the native build they replay recorded values.

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        pub fn sx_sym(w: u32, lo: u64, hi: u64) -> u64;
        pub fn sx_sym_in(w: u32, pairs: *const [u32; 2], n: u64) -> u64;
        pub fn sx_assume(c: bool);
        pub fn sx_assert(c: bool, id: u64);
        pub fn sx_fail(id: u64);
        pub fn sx_reach(i: u64);
        pub fn sx_param(i: u64) -> u64;
        pub fn sx_note(i: u64, v: u64);
        pub fn sx_uf(id: u64, args: *const u64, n: u64) -> u64;
        pub fn sx_ite(c: u64, t: u64, f: u64) -> u64;
        pub fn sx_is_concrete(p: *const u64, n: u64) -> bool;
    }
}

/// Is this value the same on every input of the path? (only the model asks)
#[cfg(not(feature = "native"))]
pub fn is_concrete_u64(x: u64) -> bool {
    unsafe { imp::sx_is_concrete(&x, 8) }
}

#[cfg(feature = "native")]
pub mod imp {
    use std::cell::RefCell;
    thread_local! {
        pub static VALS: RefCell<Vec<u64>> = RefCell::new(vec![]);
        pub static PARAMS: RefCell<Vec<u64>> = RefCell::new(vec![]);
    }
    pub static FAILED: std::sync::Mutex<Option<u64>> = std::sync::Mutex::new(None);
    fn stop(code: i32) -> ! {
        std::process::exit(code)
    }
    pub unsafe fn sx_sym(_w: u32, lo: u64, hi: u64) -> u64 {
        let v = VALS.with(|v| {
            let mut v = v.borrow_mut();
            if v.is_empty() {
                lo
            } else {
                v.remove(0)
            }
        });
        if v < lo || v > hi {
            println!("REPLAY input {} outside [{},{}]", v, lo, hi);
            stop(77)
        }
        v
    }
    pub unsafe fn sx_sym_in(_w: u32, pairs: *const [u32; 2], n: u64) -> u64 {
        let first = (*pairs)[0] as u64;
        let v = VALS.with(|v| {
            let mut v = v.borrow_mut();
            if v.is_empty() {
                first
            } else {
                v.remove(0)
            }
        });
        let ok = (0..n as usize).any(|i| {
            let p = *pairs.add(i);
            p[0] as u64 <= v && v <= p[1] as u64
        });
        if !ok {
            println!("REPLAY input {:#x} outside its set", v);
            stop(77)
        }
        v
    }
    pub unsafe fn sx_assume(c: bool) {
        if !c {
            println!("REPLAY assumption not met");
            stop(77)
        }
    }
    pub unsafe fn sx_assert(c: bool, id: u64) {
        if !c {
            sx_fail(id)
        }
    }
    pub unsafe fn sx_fail(id: u64) {
        println!("REPLAY assertion {} failed", id);
        stop(10)
    }
    pub unsafe fn sx_reach(_i: u64) {}
    pub unsafe fn sx_param(i: u64) -> u64 {
        PARAMS.with(|p| p.borrow().get(i as usize).cloned().unwrap_or(0))
    }
    pub unsafe fn sx_note(i: u64, v: u64) {
        if i != 9 {
            println!("REPLAY note {} = {}", i, v);
        }
    }
    pub unsafe fn sx_ite(c: u64, t: u64, f: u64) -> u64 {
        if c == 1 { t } else { f }
    }
    pub unsafe fn sx_uf(_id: u64, _args: *const u64, _n: u64) -> u64 {
        unreachable!()
    }
}

pub fn param(i: usize) -> u64 {
    unsafe { imp::sx_param(i as u64) }
}
pub fn sym(w: u32, lo: u64, hi: u64) -> u64 {
    unsafe { imp::sx_sym(w, lo, hi) }
}
pub fn sym_bool() -> bool {
    unsafe { imp::sx_sym(1, 0, 1) & 1 == 1 }
}
/// a value in 0..n
pub fn choice(n: u64) -> u64 {
    unsafe { imp::sx_sym(8, 0, n - 1) }
}
pub fn sym_in(w: u32, set: &[[u32; 2]]) -> u64 {
    unsafe { imp::sx_sym_in(w, set.as_ptr(), set.len() as u64) }
}
pub fn sym_char(set: &[[u32; 2]]) -> char {
    unsafe { std::mem::transmute(imp::sx_sym_in(32, set.as_ptr(), set.len() as u64) as u32) }
}
pub fn assume(c: bool) {
    unsafe { imp::sx_assume(c) }
}
pub fn check(c: bool, id: u64) {
    unsafe { imp::sx_assert(c, id) }
}
pub fn fail(id: u64) {
    unsafe { imp::sx_fail(id) }
}
pub fn reach(i: u64) {
    unsafe { imp::sx_reach(i) }
}
pub fn note(i: u64, v: u64) {
    unsafe { imp::sx_note(i, v) }
}
/// What a panic means from here on: the property's own claim is broken, it belongs to code the
/// property says nothing about, or the harness itself is wrong.
pub fn guard(level: u64) {
    unsafe { imp::sx_note(9, level) }
}
pub const OUTSIDE: u64 = 0;
pub const CLAIMED: u64 = 1;
pub const HARNESS: u64 = 2;
#[allow(dead_code)]
pub fn uf(id: u64, args: &[u64]) -> u64 {
    unsafe { imp::sx_uf(id, args.as_ptr(), args.len() as u64) }
}
/// one of two values, without a branch
pub fn ite(c: bool, t: u64, f: u64) -> u64 {
    unsafe { imp::sx_ite(c as u64, t, f) }
}
