//! Exact integer arithmetic for the reference model: everything in 512-bit integers, rounding spelled out.

use ruint::Uint;

pub type B = Uint<512, 8>;

pub const MIN_P: u128 = 4295048016;
pub const MAX_P: u128 = 79226673521066979257578248091;
pub const D: u64 = 1_000_000_000;
pub const MIN_FEE: u64 = 2_500_000;
pub const MAX_FEE: u64 = 990_000_000;
pub const ONE64: u128 = 1 << 64;
pub const DEAD_LIQUIDITY: u128 = 100 << 64;

pub fn b(x: u128) -> B {
    B::from(x)
}
pub fn two128() -> B {
    B::from(1u8) << 128
}
pub fn down(n: B, d: B) -> B {
    n / d
}
pub fn up(n: B, d: B) -> B {
    let (q, r) = n.div_rem(d);
    if r.is_zero() {
        q
    } else {
        q + B::from(1u8)
    }
}
fn div(n: B, d: B, round_up: bool) -> B {
    if round_up {
        up(n, d)
    } else {
        down(n, d)
    }
}
pub fn to_u128(x: B) -> Option<u128> {
    u128::try_from(x).ok()
}
pub fn to_u64(x: B) -> Option<u64> {
    u64::try_from(x).ok()
}

/// base tokens between two prices: L (1/lo - 1/hi)
pub fn base_between(l: u128, lo: u128, hi: u128, round_up: bool) -> B {
    div(b(l) * b(hi - lo), b(lo) * b(hi), round_up)
}
/// quote tokens between two prices: L (hi - lo)
pub fn quote_between(l: u128, lo: u128, hi: u128, round_up: bool) -> B {
    div(b(l) * b(hi - lo), two128(), round_up)
}

pub fn isqrt(n: B) -> B {
    if n.is_zero() {
        return n;
    }
    // Newton from above
    let mut x = B::from(1u8) << ((n.bit_len() + 1) / 2);
    loop {
        let y: B = (x + n / x) >> 1;
        if y >= x {
            return x;
        }
        x = y;
    }
}
pub fn sqrt_u128(n: u128) -> u128 {
    to_u128(isqrt(b(n))).unwrap()
}

pub fn mul_div_u64(x: u64, y: u64, d: u64, round_up: bool) -> Option<u64> {
    let n = x as u128 * y as u128;
    let q = n / d as u128;
    let q = if round_up && n % d as u128 != 0 { q + 1 } else { q };
    u64::try_from(q).ok()
}
pub fn pct_floor(x: u64, pct: u64) -> u64 {
    (x as u128 * pct as u128 / 100) as u64
}
pub fn mul_div_u128(x: u128, y: u128, d: u128) -> u128 {
    to_u128(b(x) * b(y) / b(d)).unwrap()
}
pub fn try_mul_div_u128(x: u128, y: u128, d: u128) -> Option<u128> {
    to_u128(b(x) * b(y) / b(d))
}

/// ratio^n in Q64.64 by squaring, each product truncated; None when it vanishes
pub fn pow_q64(base: u128, n: u32) -> Option<u128> {
    if n == 0 {
        return Some(ONE64);
    }
    let (mut acc, mut sq, mut e) = (ONE64, base, n);
    while e > 0 {
        if e & 1 == 1 {
            acc = to_u128((b(acc) * b(sq)) >> 64)?;
        }
        sq = to_u128((b(sq) * b(sq)) >> 64)?;
        e >>= 1;
    }
    if acc == 0 {
        None
    } else {
        Some(acc)
    }
}

/// cliff * (1 - reduction/10000)^n; None if that cannot be evaluated
pub fn exp_decay(cliff: u64, reduction_bps: u64, n: u32) -> Option<u64> {
    let step = ((reduction_bps as u128) << 64) / 10_000;
    let ratio = ONE64.checked_sub(step)?;
    // a ratio of exactly one is represented by its closest value below
    let ratio = if ratio >= ONE64 { u128::MAX / ratio } else { ratio };
    let inverted = step == 0;
    let mut p = pow_q64(ratio, n)?;
    if inverted && n > 0 {
        p = u128::MAX / p;
    }
    to_u64((b(p) * B::from(cliff)) >> 64)
}

// ---- what the AMM programs take in for a given liquidity -----------------------------------------------------

/// initial deposit of a DAMM v2 pool: token a, token b, liquidity that is locked for good
pub fn v2_initial_amounts(collect_mode: u8, l: u128, p: u128, min: u128, max: u128) -> Option<(u64, u64, u128)> {
    if collect_mode == 2 {
        if l <= DEAD_LIQUIDITY {
            return None;
        }
        let a = up(b(l), b(p));
        let q = up(b(l) * b(p), two128());
        Some((to_u64(a)?, to_u64(q)?, DEAD_LIQUIDITY))
    } else {
        Some((to_u64(base_between(l, p, max, true))?, to_u64(quote_between(l, min, p, true))?, 0))
    }
}

pub fn v2_add_amounts(
    collect_mode: u8,
    delta: u128,
    p: u128,
    min: u128,
    max: u128,
    pool_l: u128,
    pool_a: u64,
    pool_b: u64,
) -> Option<(u64, u64)> {
    if collect_mode == 2 {
        let a = up(b(delta) * B::from(pool_a), b(pool_l));
        let q = up(b(delta) * B::from(pool_b), b(pool_l));
        Some((to_u64(a)?, to_u64(q)?))
    } else {
        Some((to_u64(base_between(delta, p, max, true))?, to_u64(quote_between(delta, min, p, true))?))
    }
}
