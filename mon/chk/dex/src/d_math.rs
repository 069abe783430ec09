//! The stable swap invariant, solved with 64 fractional bits: an oracle for the integer iterations of the pallet.
use num_bigint::BigUint;
pub const SH: u32 = 64;
pub fn b(x: u128) -> BigUint {
    BigUint::from(x)
}
/// a quantity in scaled units
pub fn up(x: u128) -> BigUint {
    b(x) << SH
}
/// D of scaled balances; `amp` is A times a hundred
pub fn d_of(xp: &[BigUint], amp: u128) -> Option<BigUint> {
    let n = xp.len() as u32;
    let s: BigUint = xp.iter().sum();
    if s == b(0) {
        return Some(s);
    }
    if xp.iter().any(|x| *x == b(0)) {
        return None;
    }
    let ann = b(amp) * n;
    let mut d = s.clone();
    for _ in 0..2000 {
        let mut dp = d.clone();
        for x in xp {
            dp = dp * &d / (x * n);
        }
        let next = (&ann * &s + &dp * n * 100u32) * &d / ((&ann - 100u32) * &d + dp * (n + 1) * 100u32);
        if next >= d {
            return Some(next);
        }
        let close = &d - &next <= b(2);
        d = next;
        if close {
            return Some(d);
        }
    }
    None
}
/// the balance that gives `d` together with the others (`xp[j]` is not read)
pub fn y_of(xp: &[BigUint], j: usize, d: &BigUint, amp: u128) -> Option<BigUint> {
    let n = xp.len() as u32;
    let ann = b(amp) * n;
    let mut s = b(0);
    let mut c = d.clone();
    for (i, x) in xp.iter().enumerate() {
        if i != j {
            if *x == b(0) {
                return None;
            }
            s += x;
            c = c * d / (x * n);
        }
    }
    let c = c * d * 100u32 / (&ann * n);
    let q = s + d * 100u32 / &ann;
    if *d >= q {
        let m = d - q;
        Some((&m + (&m * &m + &c * 4u32).sqrt()) / 2u32)
    } else {
        let m = q - d;
        Some(&c * 2u32 / ((&m * &m + &c * 4u32).sqrt() + m))
    }
}
pub fn dec(x: &BigUint) -> String {
    (x >> SH).to_string()
}
