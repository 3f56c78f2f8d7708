//! Model of `<f64 as FromStr>::from_str` for symbolic text: the grammar is decided exactly, the
//! rounded value is exact for integers of up to 19 digits, one correctly rounded operation for up to
//! 15 digits with a fixed power of ten of up to 22, and an uninterpreted function of the (mantissa,
//! exponent) pair otherwise.  Concrete text runs the real parser.
#[cfg(not(feature = "native"))]
use std::num::ParseFloatError;

#[cfg(not(feature = "native"))]
const POW10: [f64; 23] = [1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22];

#[cfg(not(feature = "native"))]
#[no_mangle]
pub fn sx_model_parse_f64(s: &str) -> Result<f64, ParseFloatError> {
    let b = s.as_bytes();
    let bad = || "".parse::<f64>();
    let mut i = 0;
    // digits in all, and the value in chunks of nineteen digits, lowest first
    let total = b.iter().take_while(|c| **c != b'e' && **c != b'E').filter(|c| **c != b'.').count();
    let mut ms: [u64; 4] = [0; 4];
    let mut nz: u8 = 0;
    let mut nd = 0;
    let mut frac: u64 = 0;
    while i < b.len() && b[i] >= b'0' && b[i] <= b'9' {
        if total <= 76 {
            let k = (total - 1 - nd) / 19;
            ms[k] = ms[k].wrapping_mul(10).wrapping_add((b[i] - b'0') as u64);
        }
        nz |= b[i] - b'0';
        i += 1;
        nd += 1;
    }
    if i < b.len() && b[i] == b'.' {
        i += 1;
        while i < b.len() && b[i] >= b'0' && b[i] <= b'9' {
            if total <= 76 {
            let k = (total - 1 - nd) / 19;
            ms[k] = ms[k].wrapping_mul(10).wrapping_add((b[i] - b'0') as u64);
        }
            nz |= b[i] - b'0';
            i += 1;
            nd += 1;
            frac += 1;
        }
    }
    if nd == 0 {
        return bad();
    }
    let mut exp: u64 = 0;
    if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
        i += 1;
        let mut neg = false;
        if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
            neg = b[i] == b'-';
            i += 1;
        }
        let k = i;
        while i < b.len() && b[i] >= b'0' && b[i] <= b'9' {
            exp = exp.wrapping_mul(10).wrapping_add((b[i] - b'0') as u64);
            i += 1;
        }
        if k == i {
            return bad();
        }
        if neg {
            exp = 0u64.wrapping_sub(exp);
        }
    }
    if i != b.len() {
        return bad();
    }
    if nd > 76 {
        // beyond the model: no claim
        crate::sx::fail(9001);
    }
    let e = exp.wrapping_sub(frac);
    let m = ms[0];
    if nd <= 19 && e == 0 {
        // below 2^64, and the conversion rounds correctly
        return Ok(m as f64);
    }
    if nz == 0 {
        return Ok(0.0);
    }
    // one exactly rounded operation on two exact operands
    if nd <= 15 && crate::sx::is_concrete_u64(e) {
        if e <= 22 {
            return Ok(m as f64 * POW10[e as usize]);
        }
        if 0u64.wrapping_sub(e) <= 22 {
            return Ok(m as f64 / POW10[0u64.wrapping_sub(e) as usize]);
        }
    }
    Ok(f64::from_bits(crate::sx::uf(1, &[ms[0], ms[1], ms[2], ms[3], e])))
}
