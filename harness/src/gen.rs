//! Generators of configuration parameters. They aim at parameter sets that must be accepted (checked with the
//! reference model) and cover every option; the profile says what the property under test needs to see often.

use crate::abi::*;
use crate::refmath::*;
use crate::refmodel::*;
use crate::tape::Tape;
use anchor_lang::prelude::Pubkey;

#[derive(Clone, Debug)]
pub struct Profile {
    pub limiter: u64,
    pub scheduler: u64,
    pub dynamic: u64,
    pub out_fee: u64,
    pub v1: u64,
    pub vesting: u64,
    pub fixed: u64,
    pub first_min: u64,
    pub creation_fee: u64,
    pub wsol: u64,
    pub t22_base: u64,
    pub t22_quote: u64,
    pub migration_fee: u64,
    pub custom_fee: u64,
    pub liq_vesting: u64,
    pub creator_fee: u64,
    /// chance of a threshold below 1000
    pub tiny: u64,
    /// chance of amounts up to the range of the types
    pub huge: u64,
}

impl Default for Profile {
    fn default() -> Self {
        Profile {
            limiter: 15,
            scheduler: 45,
            dynamic: 35,
            out_fee: 40,
            v1: 45,
            vesting: 40,
            fixed: 45,
            first_min: 40,
            creation_fee: 40,
            wsol: 15,
            t22_base: 35,
            t22_quote: 20,
            migration_fee: 50,
            custom_fee: 55,
            liq_vesting: 45,
            creator_fee: 75,
            tiny: 4,
            huge: 0,
        }
    }
}

/// a threshold that only such a configuration has
const HUGE: u64 = u64::MAX / 16 * 10;

fn gen_fee(t: &mut Tape, pr: &Profile, p: &mut Params) {
    p.collect_fee_mode = t.chance(pr.out_fee) as u8;
    if t.chance(pr.limiter) {
        p.collect_fee_mode = 0;
        p.fee_mode = 2;
        p.cliff_fee = if t.chance(60) { t.range(MIN_FEE, 50_000_000) } else { t.skew(MIN_FEE, MAX_FEE) };
        if t.chance(95) {
            p.first = t.logu(1, 9_999) as u16;
            let max = if p.activation_type == 0 { 108_000 } else { 43_200 };
            p.second = if t.chance(70) { t.range(max / 4, max) } else { t.skew(1, max) };
            p.third = match t.raw(3) {
                0 => t.skew(1, p.threshold.max(2)),
                1 => (p.threshold / t.range(2, 40)).max(1),
                2 => t.logu(1, u64::MAX),
                _ => (p.threshold / t.range(40, 4000)).max(1),
            };
            if p.threshold > HUGE && t.chance(80) {
                p.cliff_fee = t.range(MIN_FEE, 50_000_000);
                p.first = t.range(1000, 9_999) as u16;
                p.third = t.range(u64::MAX / 16 * 5, u64::MAX / 16 * 11);
            }
        }
        return;
    }
    p.cliff_fee = match t.raw(3) {
        0 => 10_000_000,
        1 => t.range(MIN_FEE, 100_000_000),
        _ => t.skew(MIN_FEE, MAX_FEE),
    };
    if t.chance(pr.scheduler) {
        p.cliff_fee = if t.chance(50) { t.range(100_000_000, 990_000_000) } else { t.skew(MIN_FEE + 1, MAX_FEE) };
        p.fee_mode = t.chance(50) as u8;
        p.first = if t.chance(75) { t.range(1, 120) as u16 } else { t.logu(1, 65_535) as u16 };
        p.second = if t.chance(75) { t.range(1, 600) } else { t.logu(1, 1 << 40) };
        if p.fee_mode == 0 {
            let max = (p.cliff_fee - MIN_FEE) / p.first as u64;
            if max == 0 {
                p.first = 1;
                p.third = 1;
            } else {
                p.third = if t.chance(60) { t.range(max - max / 4, max).max(1) } else { t.skew(1, max) };
            }
        } else {
            p.third = if t.chance(80) { t.range(1, 1500) } else { t.skew(1, 9_999) };
            if t.chance(8) {
                // very many small steps
                p.cliff_fee = t.range(500_000_000, MAX_FEE);
                p.third = t.range(1, 3);
                p.first = (t.range(20_000, 59_000) / p.third) as u16;
            }
            // shorten until the end fee is allowed
            let mut n = p.first;
            while n > 1 && exp_decay(p.cliff_fee, p.third, n as u32).map(|x| x < MIN_FEE).unwrap_or(true) {
                n = if n > 64 { n / 2 } else { n - 1 };
            }
            p.first = n;
        }
    } else {
        p.fee_mode = t.chance(30) as u8;
    }
}

fn gen_dynamic(t: &mut Tape) -> DynFee {
    let filter = if t.chance(80) { t.range(1, 60) } else { t.skew(0, 65_534) };
    let decay = if t.chance(80) { filter + t.range(1, 300) } else { t.skew(filter + 1, 65_535) };
    DynFee {
        bin_step: 1,
        bin_step_u128: 1844674407370955,
        filter_period: filter as u16,
        decay_period: decay.min(65_535) as u16,
        reduction_factor: if t.chance(70) { t.range(1_000, 9_000) } else { t.skew(0, 10_000) } as u16,
        max_vol: if t.chance(70) { t.range(1 << 16, 0xff_ffff) } else { t.skew(0, 0xff_ffff) } as u32,
        var_ctrl: if t.chance(70) { t.range(1, 200_000) } else { t.skew(0, 0xff_ffff) } as u32,
    }
}

/// one point above `cur`
fn next_price(t: &mut Tape, cur: u128, last: bool) -> u128 {
    if cur >= MAX_P {
        return MAX_P;
    }
    if last && t.chance(25) {
        return MAX_P;
    }
    match t.raw(9) {
        0 => cur + 1 + t.u128_below(3),
        1 => cur.saturating_mul(1 << t.range(1, 20)).min(MAX_P),
        2 | 3 => (cur + 1 + to_u128(b(cur) * b(t.range(1, 2000) as u128) / b(10_000)).unwrap()).min(MAX_P),
        4 | 5 => cur.saturating_mul(2 + t.raw(3) as u128).min(MAX_P),
        _ => (cur + 1 + to_u128(b(cur) * b(t.range(500, 20_000) as u128) / b(10_000)).unwrap()).min(MAX_P),
    }
}

/// powers of two throughout: nothing is ever rounded
fn round_curve(t: &mut Tape, p: &mut Params) {
    let mut a = t.range(46, 76) as u32;
    p.sqrt_start = 1u128 << a;
    let n = 1 + t.raw(3);
    let stop = t.below(n as usize);
    p.curve.clear();
    let mut sum = 0u128;
    for i in 0..n as usize {
        let b = a + 1 + t.raw(1) as u32;
        let l = (t.logu(1, 1 << 20) as u128) << b.max(128 - a);
        p.curve.push((1u128 << b, l));
        if i <= stop {
            sum += (l >> (128 - a)) * ((1u128 << (b - a)) - 1);
        }
        a = b;
    }
    p.threshold = sum.min(u64::MAX as u128 / 4) as u64;
}

fn gen_curve(t: &mut Tape, pr: &Profile, p: &mut Params) {
    if t.chance(4) {
        return round_curve(t, p);
    }
    let realistic = t.chance(35);
    // quote raised and base sold, which fix the average price
    let (threshold, base) = if t.chance(pr.huge) {
        (t.range(HUGE + 1, HUGE / 10 * 12), t.logu(1 << 40, 1 << 61))
    } else if realistic {
        (t.range(1_000_000_000, 200_000_000_000), t.range(100_000_000_000_000, 1_000_000_000_000_000))
    } else if t.chance(pr.tiny) {
        (t.range(1, 1000), t.logu(1, 1 << 50))
    } else {
        (t.logu(1 << 10, (1 << 62) - 1), t.logu(1 << 10, 1 << 61))
    };
    p.threshold = threshold;
    let mean = to_u128(isqrt((b(threshold as u128) << 128) / b(base as u128))).unwrap_or(MAX_P);
    let start = match t.raw(7) {
        0 => MIN_P,
        1 | 2 => (mean / (1 + t.raw(1 << 10) as u128)).clamp(MIN_P, MAX_P - 1),
        _ => to_u128(b(mean) * b(t.range(300, 1000) as u128) / b(1000)).unwrap().clamp(MIN_P, MAX_P - 1),
    };
    p.sqrt_start = start;
    let n = match t.raw(5) {
        0 => 1,
        1 | 2 => t.range(2, 3),
        3 => t.range(4, 8),
        4 => t.range(9, 15),
        _ => {
            if t.chance(40) {
                16
            } else {
                2
            }
        }
    } as usize;
    // points
    let mut prices = vec![];
    let mut cur = start;
    for i in 0..n {
        let x = next_price(t, cur, i + 1 == n);
        if x <= cur {
            break;
        }
        prices.push(x);
        cur = x;
    }
    // how much of the threshold each segment raises
    let stop_at = t.below(prices.len());
    // sometimes a curve with gaps: segments of next to no liquidity
    let gaps = stop_at > 0 && t.chance(12);
    let mut lo = start;
    let mut left = threshold as u128;
    let mut curve = vec![];
    for (i, x) in prices.iter().enumerate() {
        if gaps && i < stop_at && t.chance(40) {
            let l = t.logu(1, 1 << 20) as u128;
            let q = to_u128((b(l) * b(x - lo)) >> 128u32).unwrap_or(u128::MAX);
            if q < left {
                left -= q;
                curve.push((*x, l));
                lo = *x;
                continue;
            }
        }
        let q: u128 = if i < stop_at {
            let part = match t.raw(3) {
                0 => left / (stop_at - i + 1) as u128,
                1 => left * t.range(1, 90) as u128 / 100,
                _ => left / (1 + t.raw(1 << 12) as u128),
            };
            part.max(1)
        } else if i == stop_at {
            match t.raw(4) {
                0 => left,
                1 => left + 1 + t.raw(3) as u128,
                2 => left * (1 + t.raw(9) as u128) + 1,
                _ => left + left * t.range(1, 100) as u128 / 100 + 1,
            }
        } else {
            1 + t.logu(1, threshold.max(2)) as u128
        };
        left = left.saturating_sub(q.min(left));
        let l = (b(q) << 128) / b(x - lo);
        let l = to_u128(l).unwrap_or(u128::MAX);
        // sometimes one more unit of liquidity, so that the segment is not exactly q
        let l = l.saturating_add(t.raw(1) as u128).max(1);
        curve.push((*x, l));
        lo = *x;
    }
    p.curve = curve;
}

fn gen_liq_vesting(t: &mut Tape, pct: u8) -> LiqVesting {
    if pct == 0 {
        return LiqVesting::default();
    }
    let mut v = LiqVesting { pct, ..Default::default() };
    if t.chance(80) {
        v.n = t.range(1, 40) as u16;
        v.bps = match t.raw(2) {
            0 => (10_000 / v.n as u64).max(1) as u16,
            _ => t.range(1, (10_000 / v.n as u64).max(1)) as u16,
        };
        v.frequency = t.range(1, 1_000_000) as u32;
    } else {
        v.cliff = 1;
    }
    if t.chance(70) {
        v.cliff = if t.chance(70) { t.range(1, 2_000_000) } else { t.skew(1, MAX_LOCK) } as u32;
    }
    while v.cliff as u64 + v.frequency as u64 * v.n as u64 > MAX_LOCK {
        v.frequency /= 2;
        v.cliff /= 2;
        if v.frequency == 0 {
            v.frequency = 1;
            if v.n as u64 > 1000 {
                v.n /= 2;
            }
        }
    }
    v
}

fn gen_liquidity(t: &mut Tape, pr: &Profile, p: &mut Params) {
    let parts = if p.migration_option == 1 && t.chance(pr.liq_vesting) { 6 } else { 4 };
    // cut 100 into parts
    let mut x = [0u8; 6];
    let mut left = 100u8;
    for i in 0..parts - 1 {
        let v = match t.raw(3) {
            0 => 0,
            1 => t.range(0, left as u64) as u8,
            2 => t.range(0, (left / 2) as u64) as u8,
            _ => left.min(10),
        };
        x[i] = v;
        left -= v;
    }
    x[parts - 1] = left;
    // rotate so that any part may take the rest
    let k = t.below(parts);
    x[..parts].rotate_left(k);
    p.partner_locked = x[0];
    p.creator_locked = x[1];
    p.partner_liq = x[2];
    p.creator_liq = x[3];
    p.partner_vest = gen_liq_vesting(t, x[4]);
    p.creator_vest = gen_liq_vesting(t, x[5]);
}

fn gen_migration(t: &mut Tape, pr: &Profile, p: &mut Params) {
    if p.migration_option == 0 {
        p.migration_fee_option = t.raw(5) as u8;
        return;
    }
    if !t.chance(pr.custom_fee) {
        p.migration_fee_option = t.raw(5) as u8;
        return;
    }
    p.migration_fee_option = 6;
    p.mp_fee_bps = if t.chance(60) { t.range(10, 1000) } else { t.skew(10, 1000) } as u16;
    p.mp_collect = t.pick(&[0, 1, 2, 2]);
    if p.mp_collect == 2 {
        p.compounding_bps = t.skew(1, 10_000) as u16;
    }
    p.mp_dynamic = t.chance(50) as u8;
    p.mp_base_mode = t.pick(&[0, 1, 3, 4]);
    if p.mp_base_mode >= 3 {
        p.mc_n = t.logu(1, 500) as u16;
        p.mc_step = t.logu(1, 65_535) as u16;
        p.mc_expiration = t.logu(1, u32::MAX as u64) as u32;
        let cliff = p.mp_fee_bps as u64 * 100_000;
        if p.mp_base_mode == 3 {
            let max = (cliff - 100_000) / p.mc_n as u64;
            if max == 0 {
                p.mc_n = 1;
                p.mc_reduction = 1;
            } else {
                p.mc_reduction = t.skew(1, max);
            }
        } else {
            p.mc_reduction = t.range(1, 3000);
            while p.mc_n > 1 && exp_decay(cliff, p.mc_reduction, p.mc_n as u32).map(|x| x < 100_000).unwrap_or(true) {
                p.mc_n -= 1;
            }
        }
    }
}

fn gen_vesting(t: &mut Tape, p: &mut Params, room: u64) {
    let room = room.max(2);
    let total = if t.chance(70) { t.range(1, room) } else { t.logu(1, room) };
    let v = &mut p.vesting;
    match t.raw(4) {
        0 => v.cliff_unlock = total,
        1 => {
            v.number_of_period = t.logu(1, 1000);
            v.amount_per_period = total / v.number_of_period;
        }
        4 => {
            // very many periods
            v.number_of_period = t.logu(1, total.max(1));
            v.amount_per_period = total / v.number_of_period;
            if t.chance(20) {
                // all at the cliff, the periods pay nothing
                v.number_of_period = t.logu(1, u64::MAX);
                v.amount_per_period = 0;
            }
            v.cliff_unlock = total - v.amount_per_period * v.number_of_period;
        }
        _ => {
            v.number_of_period = t.logu(1, 100_000);
            v.amount_per_period = total / v.number_of_period;
            v.cliff_unlock = total - v.amount_per_period * v.number_of_period;
        }
    }
    v.frequency = t.skew(1, 1 << 32);
    v.cliff_duration = if t.chance(90) { t.logu(1, 1 << 32) - 1 } else { t.skew(0, u64::MAX) };
    if vesting_total(v) == Some(0) {
        v.cliff_unlock = 1;
    }
}

/// a parameter set that the rules accept
pub fn params(t: &mut Tape, pr: &Profile, q: &QuoteMint) -> (Params, ConfigView) {
    for _ in 0..40 {
        let p = attempt(t, pr, q);
        if let Some(p) = p {
            if let Ok(c) = derive(&p, q, partner_key(), leftover_key()) {
                if initial_supply(&c).is_some() {
                    return (p, c);
                }
            }
        }
    }
    let p = plain();
    let c = derive(&p, q, partner_key(), leftover_key()).expect("HARNESS: plain parameters");
    (p, c)
}

pub fn partner_key() -> Pubkey {
    named("partner", 0)
}
pub fn leftover_key() -> Pubkey {
    named("leftover", 0)
}

pub fn plain() -> Params {
    let start = ONE64 / 1000;
    Params {
        cliff_fee: 10_000_000,
        migration_option: 1,
        token_decimal: 6,
        creator_locked: 50,
        partner_locked: 50,
        threshold: 10_000_000_000,
        sqrt_start: start,
        curve: vec![(start * 4, to_u128((b(12_000_000_000) << 128) / b(start * 3)).unwrap())],
        ..Default::default()
    }
}

fn attempt(t: &mut Tape, pr: &Profile, q: &QuoteMint) -> Option<Params> {
    let mut p = Params::default();
    gen_curve(t, pr, &mut p);
    p.activation_type = t.raw(1) as u8;
    gen_fee(t, pr, &mut p);
    if t.chance(pr.dynamic) {
        p.dynamic = Some(gen_dynamic(t));
    }
    p.token_type = t.chance(pr.t22_base) as u8;
    p.migration_option = if q.spl && t.chance(pr.v1) { 0 } else { 1 };
    if p.migration_option == 0 {
        p.token_type = 0;
    }
    p.token_decimal = t.range(6, 9) as u8;
    gen_liquidity(t, pr, &mut p);
    gen_migration(t, pr, &mut p);
    if t.chance(pr.creator_fee) {
        p.creator_fee_pct = t.skew(1, 100) as u8;
    }
    p.token_authority = t.raw(4) as u8;
    if t.chance(pr.migration_fee) {
        p.migration_fee_pct = t.skew(1, 99) as u8;
        p.creator_migration_fee_pct = if t.chance(70) { t.skew(0, 100) as u8 } else { 0 };
    }
    if t.chance(pr.creation_fee) {
        p.creation_fee = if t.chance(60) { t.range(1_000_000, 100_000_000) } else { t.skew(1_000_000, 100_000_000_000) };
    }
    p.first_swap_min_fee = t.chance(pr.first_min);
    if t.chance(30) {
        p.padding = [t.raw(255) as u8, t.raw(255) as u8];
    }
    // amounts that depend on the curve
    let sums = curve_sums(p.sqrt_start, &p.curve, p.threshold).ok()?;
    let mq = migration_quote(p.threshold, p.migration_fee_pct);
    let mb = migration_base(p.migration_option == 0 || is_compounding(&p), mq, sums.migration_price)?;
    let used = sums.swap_base.checked_add(sums.swap_base / 4 + 1)?.checked_add(mb)?;
    let room = (u64::MAX - used) / 2;
    if t.chance(pr.vesting) {
        let r = if t.chance(70) { used.min(room) } else { room };
        gen_vesting(t, &mut p, r);
    }
    if t.chance(pr.fixed) {
        let v = vesting_total(&p.vesting)?;
        let without = sums.swap_base.checked_add(mb)?.checked_add(v)?;
        let probe = Params { supply: None, ..p.clone() };
        let c = derive(&probe, q, partner_key(), leftover_key()).ok()?;
        let with = swap_buffer(&c)?.checked_add(mb)?.checked_add(v)?;
        let lo = with.max(without);
        let pre = match t.raw(3) {
            0 => lo,
            1 => t.skew(lo, u64::MAX),
            _ => lo.saturating_add(t.range(0, lo)),
        };
        let post = if t.chance(70) { t.range(without, pre) } else { t.skew(without, pre) };
        p.supply = Some((pre, post));
    }
    Some(p)
}
