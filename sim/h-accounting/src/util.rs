use common::primitives::{Amount, H256};
use detsim::*;
pub fn w(n: u64) -> u64 {
    choose(Stream::Work, n)
}
pub fn wchance(a: u64, b: u64) -> bool {
    chance(Stream::Work, a, b)
}
pub fn amt(v: u128) -> Amount {
    Amount::from_atoms(v)
}
pub fn hid(tag: u8, i: u64) -> H256 {
    let mut b = [tag; 32];
    // Both ends of the id range are used: ranges over ids have to include them.
    match i {
        0 => b = [0; 32],
        1 => b = [0xff; 32],
        _ => b[31] = i as u8,
    }
    H256(b)
}
/// An amount: mostly small, sometimes near the limits of the signed and unsigned 128 bit types.
pub fn amount(upto: u128) -> u128 {
    let v = match w(12) {
        0 => 0,
        1 => 1,
        2 => i128::MAX as u128 - w(3) as u128,
        3 => (i128::MAX as u128) + 1 + w(2) as u128,
        4 => u128::MAX - w(2) as u128,
        5 | 6 => (1u128 << w(127)) + w(3) as u128,
        _ => w(2000) as u128,
    };
    if v <= upto { v } else { v % (upto + 1) }
}
/// floor(a * b / c) for c > 0, in 256 bit arithmetic; None if it does not fit.
pub fn mul_div(a: u128, b: u128, c: u128) -> Option<u128> {
    let (mut hi, mut lo) = (0u128, 0u128);
    for i in (0..128).rev() {
        // (hi,lo) = (hi,lo)*2 + a*bit
        hi = (hi << 1) | (lo >> 127);
        lo <<= 1;
        if (b >> i) & 1 == 1 {
            let (s, o) = lo.overflowing_add(a);
            lo = s;
            hi += o as u128;
        }
    }
    // Long division by c.
    let (mut rem, mut q) = (0u128, 0u128);
    let mut over = false;
    for i in (0..256).rev() {
        let bit = if i >= 128 { (hi >> (i - 128)) & 1 } else { (lo >> i) & 1 };
        let carry = rem >> 127;
        rem = (rem << 1) | bit;
        let take = carry == 1 || rem >= c;
        if take {
            rem = rem.wrapping_sub(c);
        }
        if i >= 128 {
            over |= take;
        } else {
            q = (q << 1) | take as u128;
        }
    }
    if over { None } else { Some(q) }
}
/// An id below `n`; usually one of those that exist.
pub fn pick<V>(m: &std::collections::BTreeMap<u64, V>, n: u64) -> u64 {
    if m.is_empty() || wchance(1, 6) { w(n) } else { *m.keys().nth(w(m.len() as u64) as usize).unwrap() }
}
