//! Configurations and quote mints at and beyond the rules.
use crate::abi::*;
use crate::case::Case;
use crate::gen::*;
use crate::hist::*;
use crate::mocks::*;
use crate::refmath::*;
use crate::refmodel::*;
use crate::sim::*;
use crate::world::*;
use anchor_lang::prelude::Pubkey;

// ---- quote mints ---------------------------------------------------------------------------------------------

pub const NATIVE_2022: Pubkey = anchor_lang::prelude::pubkey!("9pan9bMn5HatX4EJdBwg9VgCa7Uz5HL8N1m5D3NdXejP");

/// Token-2022 mint with these extensions (type, length of the value)
pub fn t22_mint(ext: &[(u16, u16)]) -> Vec<u8> {
    with_extensions(mint_bytes(Some(&named("quote-authority", 0)), 1 << 60, 6), ext)
}

pub fn with_extensions(mut d: Vec<u8>, ext: &[(u16, u16)]) -> Vec<u8> {
    if ext.is_empty() {
        return d;
    }
    d.resize(165, 0);
    d.push(1);
    for (t, n) in ext {
        d.extend(t.to_le_bytes());
        d.extend(n.to_le_bytes());
        d.extend(std::iter::repeat(0).take(*n as usize));
    }
    d
}

/// another quote mint: (mint, account owner, account data)
pub fn odd_quote(case: &mut Case) -> (QuoteMint, Pubkey, Vec<u8>) {
    // lengths of the values of the mint extensions
    const LEN: [(u16, u16); 12] = [(1, 108), (3, 32), (4, 65), (6, 1), (9, 0), (10, 52), (12, 32), (14, 64), (16, 129), (18, 64), (20, 64), (26, 33)];
    let t22 = spl_token_2022::ID;
    let k = case.t.raw(7);
    let key = named("odd-quote", k);
    let (plain, ext): (bool, Vec<(u16, u16)>) = match k {
        0 => (true, vec![]),
        1 => (true, vec![(18, 64)]),
        2 => (true, vec![(18, 64), (19, 120 + case.t.raw(40) as u16)]),
        3 => {
            case.hit("quote mint: Token-2022 native");
            return (QuoteMint { key: NATIVE_2022, spl: false, plain: false }, t22, t22_mint(&[]));
        }
        4 => {
            // a plain SPL mint is fine whatever it is called
            return (QuoteMint { key, spl: true, plain: true }, spl_token::ID, mint_bytes(None, case.t.raw(u64::MAX), case.t.raw(9) as u8));
        }
        5 => {
            let e = LEN[case.t.below(LEN.len())];
            (e.0 == 18, vec![e])
        }
        6 => {
            let e = LEN[case.t.below(LEN.len())];
            let mut v = vec![(18, 64)];
            if e.0 != 18 {
                v.push(e);
            }
            if case.t.chance(50) {
                v.reverse();
            }
            (e.0 == 18, v)
        }
        _ => {
            // not a mint at all
            let owner = if case.t.chance(50) { system_id() } else { crate::abuse::EVIL };
            case.hit("quote mint: no mint");
            return (QuoteMint { key, spl: false, plain: false }, owner, mint_bytes(None, 1, 6));
        }
    };
    let q = QuoteMint { key, spl: false, plain };
    case.hit(if plain { "quote mint: Token-2022 with metadata at most" } else { "quote mint: Token-2022 with another extension" });
    (q, t22, t22_mint(&ext))
}

// ---- mutations -----------------------------------------------------------------------------------------------

/// a value near `cur` or one of the edges
pub fn edge(case: &mut Case, cur: u64, edges: &[u64], max: u64) -> u64 {
    let t = &mut case.t;
    let x = match t.raw(5) {
        0..=2 => {
            let e = edges[t.below(edges.len())];
            match t.raw(3) {
                0 => e.saturating_add(1),
                1 => e.saturating_sub(1),
                _ => e,
            }
        }
        3 => cur.saturating_add(1),
        4 => cur.saturating_sub(1),
        _ => t.logu(1, max),
    };
    x.min(max)
}

pub fn mutate(case: &mut Case, p: &mut Params, leftover: &mut Pubkey, q: &QuoteMint) -> &'static str {
    macro_rules! small {
        ($f:expr, $($e:expr),*) => {{ let x = edge(case, $f as u64, &[$($e),*], u8::MAX as u64); $f = x as u8; }};
    }
    macro_rules! w16 {
        ($f:expr, $($e:expr),*) => {{ let x = edge(case, $f as u64, &[$($e),*], u16::MAX as u64); $f = x as u16; }};
    }
    macro_rules! w32 {
        ($f:expr, $($e:expr),*) => {{ let x = edge(case, $f as u64, &[$($e),*], u32::MAX as u64); $f = x as u32; }};
    }
    macro_rules! w64 {
        ($f:expr, $($e:expr),*) => {{ let x = edge(case, $f, &[$($e),*], u64::MAX); $f = x; }};
    }
    match case.t.raw(47) {
        0 => {
            w64!(p.cliff_fee, 0, MIN_FEE, MAX_FEE, D);
            "cliff fee"
        }
        1 => {
            w16!(p.first, 0, 1, 10_000, 9_900);
            "fee schedule: first"
        }
        2 => {
            w64!(p.second, 0, 1, 43_200, 108_000, u64::MAX);
            "fee schedule: second"
        }
        3 => {
            w64!(p.third, 0, 1, 10_000, p.cliff_fee, u64::MAX);
            "fee schedule: third"
        }
        4 => {
            small!(p.fee_mode, 0, 1, 2, 3);
            "fee mode"
        }
        5 => {
            small!(p.collect_fee_mode, 0, 1, 2);
            "collect mode"
        }
        6 => {
            small!(p.migration_option, 0, 1, 2);
            "migration option"
        }
        7 => {
            small!(p.activation_type, 0, 1, 2);
            "activation type"
        }
        8 => {
            small!(p.token_type, 0, 1, 2);
            "token type"
        }
        9 => {
            small!(p.token_decimal, 6, 9, 0, 255);
            "decimals"
        }
        10 => {
            small!(p.migration_fee_option, 0, 5, 6, 7);
            "migration fee option"
        }
        11 => {
            small!(p.token_authority, 0, 1, 2, 3, 4, 5);
            "token authority"
        }
        12 => {
            small!(p.creator_fee_pct, 0, 100, 255);
            "creator fee share"
        }
        13 => {
            small!(p.migration_fee_pct, 0, 1, 98, 99, 100);
            "migration fee"
        }
        14 => {
            small!(p.creator_migration_fee_pct, 0, 1, 100, 255);
            "creator share of the migration fee"
        }
        15 => {
            small!(p.mp_collect, 0, 1, 2, 3);
            "migrated pool: collect mode"
        }
        16 => {
            small!(p.mp_dynamic, 0, 1, 2);
            "migrated pool: dynamic fee"
        }
        17 => {
            w16!(p.mp_fee_bps, 0, 10, 1000, 9);
            "migrated pool: fee"
        }
        18 => {
            small!(p.mp_base_mode, 0, 1, 2, 3, 4, 5);
            "migrated pool: fee mode"
        }
        19 => {
            w16!(p.compounding_bps, 0, 1, 10_000);
            "migrated pool: compounding"
        }
        20 => {
            w16!(p.mc_n, 0, 1, 65_535);
            "market cap scheduler: periods"
        }
        21 => {
            w16!(p.mc_step, 0, 1);
            "market cap scheduler: step"
        }
        22 => {
            w32!(p.mc_expiration, 0, 1);
            "market cap scheduler: expiration"
        }
        23 => {
            let c = p.mp_fee_bps as u64 * 100_000;
            w64!(p.mc_reduction, 0, 1, 10_000, c.saturating_sub(100_000) / p.mc_n.max(1) as u64, u64::MAX);
            "market cap scheduler: reduction"
        }
        24 => {
            w64!(p.creation_fee, 0, 1_000_000, 100_000_000_000, u64::MAX);
            "creation fee"
        }
        25 => {
            // exactly what the curve can raise, and around it
            let mut lo = p.sqrt_start;
            let mut sum = b(0);
            let k = case.t.below(p.curve.len().max(1));
            for (x, l) in p.curve.iter().take(k + 1) {
                if *x <= lo {
                    break;
                }
                sum += quote_between(*l, lo, *x, true);
                lo = *x;
            }
            let cap = to_u64(sum).unwrap_or(u64::MAX);
            w64!(p.threshold, 0, cap, u64::MAX);
            "threshold"
        }
        26 => {
            let v = [0, MIN_P - 1, MIN_P, MIN_P + 1, MAX_P - 1, MAX_P, MAX_P + 1, p.curve.first().map(|x| x.0).unwrap_or(0), p.curve.first().map(|x| x.0 - x.0.min(1)).unwrap_or(0), u128::MAX];
            p.sqrt_start = v[case.t.below(v.len())];
            "start price"
        }
        27 => {
            if p.curve.is_empty() {
                return "curve";
            }
            let i = case.t.below(p.curve.len());
            let lo = if i == 0 { p.sqrt_start } else { p.curve[i - 1].0 };
            let v = [lo, lo.saturating_sub(1), lo.saturating_add(1), MAX_P, MAX_P + 1, MAX_P - 1, 0, u128::MAX, p.curve.get(i + 1).map(|x| x.0).unwrap_or(MAX_P)];
            p.curve[i].0 = v[case.t.below(v.len())];
            "curve: a price"
        }
        28 => {
            if p.curve.is_empty() {
                return "curve";
            }
            let i = case.t.below(p.curve.len());
            let l = p.curve[i].1;
            let v = [0, 1, u128::MAX, l.saturating_add(1), l.saturating_sub(1), l / 2, l.saturating_mul(2), 1 << 127, (l as f64 * 1.5) as u128];
            p.curve[i].1 = v[case.t.below(v.len())];
            "curve: a liquidity"
        }
        29 => {
            match case.t.raw(4) {
                0 => p.curve.clear(),
                1 => {
                    p.curve.pop();
                }
                2 => {
                    // cut the last piece in two until there are 16, 17, 20 or 21 points
                    let n = [16, 17, 20, 21][case.t.below(4)];
                    if let Some(&(hi, l)) = p.curve.last() {
                        let lo = p.curve.iter().rev().nth(1).map(|x| x.0).unwrap_or(p.sqrt_start);
                        let room = hi.saturating_sub(lo);
                        let k = n - p.curve.len().min(n);
                        if k > 0 && room > k as u128 + 1 {
                            p.curve.pop();
                            for j in 1..=k as u128 {
                                p.curve.push((lo + room / (k as u128 + 1) * j, l));
                            }
                            p.curve.push((hi, l));
                        }
                    }
                }
                3 => {
                    if let Some(x) = p.curve.first().copied() {
                        let i = case.t.below(p.curve.len());
                        p.curve.insert(i, x);
                    }
                }
                _ => {
                    if p.curve.len() > 1 {
                        let i = case.t.below(p.curve.len() - 1);
                        p.curve.swap(i, i + 1);
                    }
                }
            }
            "curve: its points"
        }
        30 => {
            w64!(p.vesting.amount_per_period, 0, 1, u64::MAX);
            "vesting: amount"
        }
        31 => {
            w64!(p.vesting.number_of_period, 0, 1, u64::MAX);
            "vesting: periods"
        }
        32 => {
            w64!(p.vesting.cliff_unlock, 0, 1, u64::MAX);
            "vesting: cliff amount"
        }
        33 => {
            w64!(p.vesting.frequency, 0, 1, u64::MAX);
            "vesting: frequency"
        }
        34 => {
            match case.t.raw(2) {
                0 => p.vesting = Vesting::default(),
                1 => p.vesting = Vesting { cliff_duration: 1, ..Vesting::default() },
                _ => w64!(p.vesting.cliff_duration, 0, u64::MAX),
            }
            "vesting: cliff"
        }
        35 => {
            // the smallest supplies that do, and around them
            let probe = Params { supply: None, ..p.clone() };
            let Ok(c) = derive(&probe, q, partner_key(), *leftover) else { return "supply" };
            let v = vesting_total(&p.vesting).unwrap_or(0);
            let without = c.swap_base_amount.saturating_add(c.migration_base_threshold).saturating_add(v);
            let with = swap_buffer(&c).unwrap_or(u64::MAX).saturating_add(c.migration_base_threshold).saturating_add(v);
            let pre = edge(case, with, &[with, without, with.max(without), u64::MAX, 0], u64::MAX);
            let post = edge(case, without, &[without, pre, 0, with], u64::MAX);
            p.supply = Some((pre, post));
            "supply at the limit"
        }
        36 => {
            match p.supply {
                None => p.supply = Some((0, 0)),
                Some((a, z)) => match case.t.raw(3) {
                    0 => p.supply = Some((z, a)),
                    1 => p.supply = Some((edge(case, a, &[z, 0], u64::MAX), z)),
                    2 => p.supply = Some((a, edge(case, z, &[a, 0], u64::MAX))),
                    _ => p.supply = None,
                },
            }
            "supply"
        }
        37 => {
            *leftover = if case.t.chance(60) { Pubkey::default() } else { named("leftover", 9) };
            "leftover receiver"
        }
        38 | 39 => {
            // shares
            let mut x = [p.partner_liq, p.partner_locked, p.creator_liq, p.creator_locked, p.partner_vest.pct, p.creator_vest.pct];
            let (i, j) = (case.t.below(6), case.t.below(6));
            match case.t.raw(3) {
                0 => {
                    // moved
                    let n = x[i].min(1 + case.t.raw(99) as u8);
                    x[i] -= n;
                    x[j] = x[j].wrapping_add(n);
                }
                1 => x[i] = x[i].wrapping_add(1),
                2 => x[i] = x[i].wrapping_sub(1),
                _ => {
                    // 256 more in total
                    x[i] = x[i].wrapping_add(128);
                    x[j] = x[j].wrapping_add(128);
                }
            }
            p.partner_liq = x[0];
            p.partner_locked = x[1];
            p.creator_liq = x[2];
            p.creator_locked = x[3];
            p.partner_vest.pct = x[4];
            p.creator_vest.pct = x[5];
            "liquidity shares"
        }
        40 | 41 => {
            // locked for a day: around ten percent
            let perm = 5 + case.t.raw(6) as u8;
            let side = case.t.chance(50);
            let mut v = LiqVesting::default();
            if p.migration_option == 1 && case.t.chance(75) {
                v.pct = 1 + case.t.raw(12) as u8;
                match case.t.raw(2) {
                    0 => v.cliff = edge(case, 86_400, &[86_400, 86_401, 1], 86_500) as u32,
                    1 => {
                        v.n = 1 + case.t.raw(9) as u16;
                        v.bps = 10_000 / v.n;
                        v.frequency = edge(case, 86_400, &[86_400, 86_400 / v.n as u64, 43_200], 200_000) as u32;
                        v.cliff = case.t.raw(2) as u32;
                    }
                    _ => {
                        v.n = 2 + case.t.raw(98) as u16;
                        v.bps = 1 + case.t.raw(10_000 / v.n as u64 - 1) as u16;
                        v.frequency = 1 + case.t.raw(20_000) as u32;
                        v.cliff = case.t.raw(90_000) as u32;
                    }
                }
            }
            let rest = 100 - perm - v.pct;
            p.partner_vest = LiqVesting::default();
            p.creator_vest = LiqVesting::default();
            (p.partner_locked, p.creator_locked) = if case.t.chance(50) { (perm, 0) } else { (perm / 2, perm - perm / 2) };
            if side {
                p.partner_vest = v;
            } else {
                p.creator_vest = v;
            }
            (p.partner_liq, p.creator_liq) = if case.t.chance(50) { (rest, 0) } else { (rest / 3, rest - rest / 3) };
            "locked liquidity around a tenth"
        }
        42 => {
            let which = case.t.chance(50);
            let mut v = if which { p.partner_vest.clone() } else { p.creator_vest.clone() };
            match case.t.raw(5) {
                0 => w16!(v.bps, 0, 1, 10_000, 10_000 / v.n.max(1) as u64),
                1 => w16!(v.n, 0, 1, 10_000 / v.bps.max(1) as u64),
                2 => w32!(v.cliff, 0, 1, MAX_LOCK, MAX_LOCK.saturating_sub(v.frequency as u64 * v.n as u64)),
                3 => w32!(v.frequency, 0, 1, MAX_LOCK, MAX_LOCK / v.n.max(1) as u64),
                4 => w32!(v.frequency, MAX_LOCK.saturating_sub(v.cliff as u64) / v.n.max(1) as u64),
                _ => small!(v.pct, 0, 1, 100),
            }
            if which {
                p.partner_vest = v;
            } else {
                p.creator_vest = v;
            }
            "liquidity vesting"
        }
        43 => {
            if p.dynamic.is_none() {
                p.dynamic = Some(DynFee { bin_step: 1, bin_step_u128: BIN_STEP_BPS_U128, filter_period: 10, decay_period: 120, reduction_factor: 5000, max_vol: 1 << 20, var_ctrl: 1000 });
            }
            let mut d = p.dynamic.clone().unwrap();
            match case.t.raw(7) {
                0 => w16!(d.bin_step, 0, 1, 2),
                1 => d.bin_step_u128 = [BIN_STEP_BPS_U128 - 1, BIN_STEP_BPS_U128 + 1, 0, u128::MAX, BIN_STEP_BPS_U128 * 2][case.t.below(5)],
                2 => w16!(d.filter_period, 0, d.decay_period as u64),
                3 => w16!(d.decay_period, 0, d.filter_period as u64),
                4 => w16!(d.reduction_factor, 0, 10_000),
                5 => w32!(d.max_vol, 0, 0xff_ffff),
                6 => w32!(d.var_ctrl, 0, 0xff_ffff),
                _ => {
                    p.dynamic = None;
                    return "dynamic fee";
                }
            }
            p.dynamic = Some(d);
            "dynamic fee"
        }
        44 | 45 => {
            // a fee schedule that ends around the minimum
            match case.t.raw(2) {
                0 => {
                    p.fee_mode = 0;
                    p.first = 1 + case.t.raw(200) as u16;
                    p.third = 1 + case.t.raw(1_000_000);
                    p.second = 1 + case.t.raw(100);
                    p.cliff_fee = edge(case, MIN_FEE, &[p.first as u64 * p.third + MIN_FEE, p.first as u64 * p.third], MAX_FEE);
                }
                1 => {
                    p.fee_mode = 1;
                    p.second = 1 + case.t.raw(100);
                    p.third = 1 + case.t.raw(9_998);
                    p.cliff_fee = case.t.range(MIN_FEE, MAX_FEE);
                    // the number of periods after which it is below
                    let mut n = 1u32;
                    while n < 65_535 && exp_decay(p.cliff_fee, p.third, n).map(|x| x >= MIN_FEE).unwrap_or(false) {
                        n += if n > 2000 { 500 } else { 1 };
                    }
                    p.first = (n as u64 + 1).saturating_sub(case.t.raw(3)).clamp(1, 65_535) as u16;
                }
                _ => {
                    p.fee_mode = 2;
                    p.collect_fee_mode = 0;
                    p.cliff_fee = edge(case, 10_000_000, &[MIN_FEE, MAX_FEE], D);
                    p.first = edge(case, 100, &[1, 9_900, 9_999, 10_000], 65_535) as u16;
                    p.second = edge(case, 100, &[1, 43_200, 108_000], 200_000);
                    p.third = case.t.logu(1, u64::MAX);
                }
            }
            "fee schedule at the limit"
        }
        46 => {
            // every option at once
            p.migration_option = case.t.raw(1) as u8;
            p.token_type = case.t.raw(1) as u8;
            p.collect_fee_mode = case.t.raw(1) as u8;
            p.fee_mode = case.t.raw(2) as u8;
            p.activation_type = case.t.raw(1) as u8;
            p.migration_fee_option = case.t.raw(6) as u8;
            p.mp_collect = case.t.raw(2) as u8;
            p.mp_base_mode = case.t.raw(4) as u8;
            if case.t.chance(50) {
                p.mp_fee_bps = 10 * case.t.raw(3) as u16;
                p.compounding_bps = case.t.raw(1) as u16 * 100;
            }
            "options"
        }
        _ => {
            // a pool that compounds fees after migration
            p.migration_option = 1;
            p.migration_fee_option = 6;
            p.mp_collect = 2;
            p.mp_fee_bps = p.mp_fee_bps.clamp(10, 1000);
            p.compounding_bps = edge(case, 1, &[1, 10_000, 0], 65_535) as u16;
            if case.t.chance(50) {
                // few units: the price of whole amounts is far from the curve's
                p.threshold = case.t.logu(1, 5000);
            }
            "compounding"
        }
    }
}

