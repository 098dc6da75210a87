//! Reference model of what the program is specified to do: fee schedules, curve walks, swap results, configuration
//! rules and derived amounts. Written from the documented semantics with exact integers; shares no code with the
//! program.

use crate::abi::*;
use crate::refmath::*;
use anchor_lang::prelude::Pubkey;

// ---- fees ----------------------------------------------------------------------------------------------------

/// (excluded, fee) of a fee-inclusive amount
pub fn take_fee(amount: u64, n: u64) -> Option<(u64, u64)> {
    let fee = mul_div_u64(amount, n, D, true)?;
    Some((amount.checked_sub(fee)?, fee))
}
/// (included, fee) for a net amount
pub fn add_fee(net: u64, n: u64) -> Option<(u64, u64)> {
    let inc = mul_div_u64(net, D, D.checked_sub(n)?, true)?;
    Some((inc, inc.checked_sub(net)?))
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct BaseFee {
    pub mode: u8,
    pub cliff: u64,
    pub first: u16,
    pub second: u64,
    pub third: u64,
}

impl BaseFee {
    pub fn of(c: &ConfigView) -> Self {
        BaseFee { mode: c.fee_mode, cliff: c.cliff_fee, first: c.first, second: c.second, third: c.third }
    }
    pub fn after_periods(&self, periods: u64) -> Option<u64> {
        let k = periods.min(self.first as u64);
        match self.mode {
            0 => self.cliff.checked_sub(self.third.checked_mul(k)?),
            1 => exp_decay(self.cliff, self.third, k as u32),
            _ => None,
        }
    }
    pub fn scheduled(&self, point: u64, activation: u64) -> Option<u64> {
        if self.second == 0 {
            return Some(self.cliff);
        }
        self.after_periods(point.checked_sub(activation)? / self.second)
    }
    pub fn is_limiter(&self) -> bool {
        self.mode == 2
    }
    pub fn is_flat(&self) -> bool {
        self.first == 0 && self.second == 0 && self.third == 0
    }
    pub fn min_numerator(&self) -> Option<u64> {
        if self.is_limiter() {
            Some(self.cliff)
        } else {
            self.after_periods(self.first as u64)
        }
    }
    // limiter
    pub fn limiter_on(&self, point: u64, activation: u64, buy: bool) -> bool {
        self.is_limiter()
            && !self.is_flat()
            && buy
            && point as u128 <= activation as u128 + self.second as u128
    }
    fn inc(&self) -> u64 {
        self.first as u64 * 100_000
    }
    pub fn max_index(&self) -> u64 {
        (MAX_FEE - self.cliff) / self.inc()
    }
    /// the fee rate applied to a fee-inclusive amount: total fee over the tiers, as a rate rounded up
    pub fn limiter_rate(&self, amount: u64) -> Option<u64> {
        let x0 = self.third;
        if amount <= x0 {
            return Some(self.cliff);
        }
        let (c, i, m) = (b(self.cliff as u128), b(self.inc() as u128), b(self.max_index() as u128));
        let (a, r) = ((amount - x0) / x0, (amount - x0) % x0);
        let (a, r, x0) = (b(a as u128), b(r as u128), b(x0 as u128));
        let one = b(1);
        let tiers = |k: B| c + c * k + i * k * (k + one) / b(2);
        let sum = if a < m {
            x0 * tiers(a) + r * (c + i * (a + one))
        } else {
            x0 * tiers(m) + ((a - m) * x0 + r) * b(MAX_FEE as u128)
        };
        let fee = to_u64(up(sum, b(D as u128)))?;
        mul_div_u64(fee, D, amount, true)
    }
    fn limiter_net(&self, amount: u64) -> Option<u64> {
        take_fee(amount, self.limiter_rate(amount)?).map(|x| x.0)
    }
    pub fn limiter_rate_net(&self, net: u64) -> Option<u64> {
        let x0 = self.third;
        if net <= self.limiter_net(x0)? {
            return Some(self.cliff);
        }
        let top = b(self.max_index() as u128 + 1) * b(x0 as u128);
        let (top, over) = match to_u64(top) {
            Some(t) => (t, false),
            None => (u64::MAX, true),
        };
        let top_net = self.limiter_net(top)?;
        if net == top_net {
            return self.limiter_rate(top);
        }
        let total = if net < top_net {
            let (i, x0b, d, c, ex) = (
                b(self.inc() as u128),
                b(x0 as u128),
                b(D as u128),
                b(self.cliff as u128),
                b(net as u128),
            );
            let y = b(2) * d * x0b + i * x0b - b(2) * c * x0b;
            let z = b(2) * ex * d * x0b;
            let (y2, xz4) = (y * y, b(4) * i * z);
            if y2 < xz4 {
                return None;
            }
            let inc = to_u64((y - isqrt(y2 - xz4)) / (b(2) * i))?;
            let a1 = inc / x0;
            let rest = net.checked_sub(self.limiter_net(inc)?)?;
            let rate = self.cliff as u128 + self.inc() as u128 * a1 as u128;
            let (inc_rest, _) = add_fee(rest, u64::try_from(rate).ok()?)?;
            inc.checked_add(inc_rest)?
        } else {
            if over {
                return None;
            }
            top.checked_add(add_fee(net - top_net, MAX_FEE)?.0)?
        };
        let n = mul_div_u64(total.checked_sub(net)?, D, total, true)?;
        if n < self.cliff {
            return None;
        }
        Some(n)
    }
    pub fn rate_included(&self, point: u64, activation: u64, buy: bool, amount: u64) -> Option<u64> {
        if self.is_limiter() {
            if self.limiter_on(point, activation, buy) {
                self.limiter_rate(amount)
            } else {
                Some(self.cliff)
            }
        } else {
            self.scheduled(point, activation)
        }
    }
    pub fn rate_excluded(&self, point: u64, activation: u64, buy: bool, net: u64) -> Option<u64> {
        if self.is_limiter() {
            if self.limiter_on(point, activation, buy) {
                self.limiter_rate_net(net)
            } else {
                Some(self.cliff)
            }
        } else {
            self.scheduled(point, activation)
        }
    }
}

// ---- volatility ----------------------------------------------------------------------------------------------

pub const BIN_STEP_BPS_U128: u128 = 1844674407370955;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Vol {
    pub last_update: u64,
    pub sqrt_ref: u128,
    pub acc: u128,
    pub vref: u128,
}

impl Vol {
    pub fn of(p: &PoolView) -> Self {
        Vol { last_update: p.last_update, sqrt_ref: p.sqrt_ref, acc: p.vol_acc, vref: p.vol_ref }
    }
}

pub fn delta_bin(a: u128, c: u128) -> u128 {
    let (hi, lo) = if a > c { (a, c) } else { (c, a) };
    let ratio = (b(hi) << 64) / b(lo);
    let x = (ratio - b(ONE64)) / b(BIN_STEP_BPS_U128);
    to_u128(x * b(2)).unwrap_or(u128::MAX)
}

/// reference update at the start of a swap
pub fn vol_before(d: &DynFee, v: &Vol, price: u128, now: u64) -> Vol {
    let mut v = v.clone();
    let elapsed = now.saturating_sub(v.last_update);
    if elapsed >= d.filter_period as u64 {
        v.sqrt_ref = price;
        v.vref = if elapsed < d.decay_period as u64 { v.acc * d.reduction_factor as u128 / 10_000 } else { 0 };
    }
    v
}

/// accumulator update at the end of a swap (v: after vol_before)
pub fn vol_after(d: &DynFee, v: &Vol, old: u128, new: u128, now: u64) -> Vol {
    let mut v = v.clone();
    let x = delta_bin(new, v.sqrt_ref).saturating_mul(10_000).saturating_add(v.vref);
    v.acc = x.min(d.max_vol as u128);
    if delta_bin(old, new) > 0 {
        v.last_update = now;
    }
    v
}

pub fn variable_fee(d: &DynFee, acc: u128) -> u128 {
    let s = acc * d.bin_step as u128;
    let n = b(s) * b(s) * b(d.var_ctrl as u128) + b(99_999_999_999);
    to_u128(n / b(100_000_000_000)).unwrap_or(u128::MAX)
}

pub fn total_rate(base: u64, d: &Option<DynFee>, acc: u128) -> u64 {
    let dynamic = d.as_ref().map(|d| variable_fee(d, acc)).unwrap_or(0);
    (base as u128).saturating_add(dynamic).min(MAX_FEE as u128) as u64
}

// ---- walking the curve ---------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub struct Walk {
    pub amount: u64,
    pub next: u128,
    pub left: u64,
    /// segments touched
    pub steps: u32,
}

/// (lower, upper, liquidity) pieces
pub fn pieces(c: &ConfigView) -> Vec<(u128, u128, u128)> {
    let mut lo = c.sqrt_start;
    let mut v = vec![];
    for (p, l) in c.segments() {
        v.push((lo, p, l));
        lo = p;
    }
    v
}

/// quote in -> base out, up to the migration price
pub fn buy_in(c: &ConfigView, price: u128, amount: u64) -> Option<Walk> {
    let stop = c.migration_sqrt_price;
    let (mut cur, mut left, mut out, mut steps) = (price, amount, 0u64, 0);
    for (_, hi, l) in pieces(c) {
        let hi = hi.min(stop);
        if hi <= cur {
            continue;
        }
        steps += 1;
        let max = quote_between(l, cur, hi, true);
        if b(left as u128) < max {
            let next = to_u128(b(cur) + down(b(left as u128) << 128, b(l)))?;
            out = out.checked_add(to_u64(base_between(l, cur, next, false))?)?;
            cur = next;
            left = 0;
            break;
        }
        out = out.checked_add(to_u64(base_between(l, cur, hi, false))?)?;
        left -= to_u64(max)?;
        cur = hi;
        if hi == stop {
            break;
        }
    }
    Some(Walk { amount: out, next: cur, left, steps })
}

/// base in -> quote out, down to the start price
pub fn sell_in(c: &ConfigView, price: u128, amount: u64) -> Option<Walk> {
    let (mut cur, mut left, mut out, mut steps) = (price, amount, 0u64, 0);
    let ps = pieces(c);
    for (k, (lo, _, l)) in ps.iter().enumerate().rev() {
        let (lo, l) = (*lo, *l);
        let first = k == 0;
        if !first && lo >= cur {
            continue;
        }
        if first && left == 0 {
            break;
        }
        steps += 1;
        if first {
            let next = up(b(l) * b(cur), b(l) + b(left as u128) * b(cur));
            let mut next = to_u128(next)?;
            if next < lo {
                next = lo;
                left = left.checked_sub(to_u64(base_between(l, lo, cur, true))?)?;
            } else {
                left = 0;
            }
            out = out.checked_add(to_u64(quote_between(l, next, cur, false))?)?;
            cur = next;
            break;
        }
        let max = base_between(l, lo, cur, true);
        if b(left as u128) < max {
            let next = to_u128(up(b(l) * b(cur), b(l) + b(left as u128) * b(cur)))?;
            out = out.checked_add(to_u64(quote_between(l, next, cur, false))?)?;
            cur = next;
            left = 0;
            break;
        }
        out = out.checked_add(to_u64(quote_between(l, lo, cur, false))?)?;
        left -= to_u64(max)?;
        cur = lo;
    }
    Some(Walk { amount: out, next: cur, left, steps })
}

/// base wanted -> quote needed (over the whole curve)
pub fn buy_out(c: &ConfigView, price: u128, amount: u64) -> Option<Walk> {
    let (mut cur, mut left, mut inp, mut steps) = (price, amount, 0u64, 0);
    for (_, hi, l) in pieces(c) {
        if hi <= cur {
            continue;
        }
        steps += 1;
        let max = base_between(l, cur, hi, false);
        if b(left as u128) < max {
            let next = if left == 0 {
                cur
            } else {
                let sub = b(left as u128) * b(cur);
                if sub >= b(l) {
                    return None;
                }
                to_u128(up(b(l) * b(cur), b(l) - sub))?
            };
            inp = inp.checked_add(to_u64(quote_between(l, cur, next, true))?)?;
            cur = next;
            left = 0;
            break;
        }
        inp = inp.checked_add(to_u64(quote_between(l, cur, hi, true))?)?;
        left -= to_u64(max)?;
        cur = hi;
    }
    if left != 0 {
        return None;
    }
    Some(Walk { amount: inp, next: cur, left: 0, steps })
}

/// quote wanted -> base needed
pub fn sell_out(c: &ConfigView, price: u128, amount: u64) -> Option<Walk> {
    let (mut cur, mut left, mut inp, mut steps) = (price, amount, 0u64, 0);
    let ps = pieces(c);
    for (k, (lo, _, l)) in ps.iter().enumerate().rev() {
        let (lo, l) = (*lo, *l);
        if k > 0 && lo >= cur {
            continue;
        }
        if k == 0 {
            if left == 0 {
                break;
            }
            let max = quote_between(l, lo, cur, false);
            if b(left as u128) > max {
                return None;
            }
            steps += 1;
            let next = to_u128(b(cur).checked_sub(up(b(left as u128) << 128, b(l)))?)?;
            if next < lo {
                return None;
            }
            inp = inp.checked_add(to_u64(base_between(l, next, cur, true))?)?;
            cur = next;
            left = 0;
            break;
        }
        steps += 1;
        let max = quote_between(l, lo, cur, false);
        if b(left as u128) < max {
            let next = to_u128(b(cur).checked_sub(up(b(left as u128) << 128, b(l)))?)?;
            inp = inp.checked_add(to_u64(base_between(l, next, cur, true))?)?;
            cur = next;
            left = 0;
            break;
        }
        inp = inp.checked_add(to_u64(base_between(l, lo, cur, true))?)?;
        left -= to_u64(max)?;
        cur = lo;
    }
    if left != 0 {
        return None;
    }
    Some(Walk { amount: inp, next: cur, left: 0, steps })
}

// ---- swaps ---------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    ExactIn,
    Partial,
    ExactOut,
}

#[derive(Clone, Debug)]
pub struct SwapReq {
    pub mode: Mode,
    pub buy: bool,
    pub amount: u64,
    pub limit: u64,
    pub referral: bool,
    /// bundled with this pool's creation (see C19)
    pub eligible: bool,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct SwapRes {
    pub included_in: u64,
    pub excluded_in: u64,
    pub gross_out: u64,
    pub output: u64,
    pub left: u64,
    pub next: u128,
    pub trading: u64,
    pub protocol: u64,
    pub referral: u64,
    pub rate: u64,
    pub steps: u32,
}

impl SwapRes {
    pub fn fee(&self) -> u64 {
        self.trading + self.protocol + self.referral
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum No {
    Zero,
    Complete,
    Liquidity,
    Fee,
    Slippage,
    Overflow,
}

pub fn fees_on_input(c: &ConfigView, buy: bool) -> bool {
    c.collect_fee_mode == 0 && buy
}
pub fn fees_on_base(c: &ConfigView, buy: bool) -> bool {
    c.collect_fee_mode == 1 && buy
}

/// (trading, protocol without referral, referral)
pub fn split_fee(fee: u64, referral: bool) -> (u64, u64, u64) {
    let protocol = pct_floor(fee, 20);
    let trading = fee - protocol;
    let r = if referral { pct_floor(protocol, 20) } else { 0 };
    (trading, protocol - r, r)
}

pub struct Rates {
    pub base: BaseFee,
    pub dynamic: Option<DynFee>,
    pub acc: u128,
    pub point: u64,
    pub activation: u64,
    pub buy: bool,
    pub eligible: bool,
}

impl Rates {
    pub fn new(c: &ConfigView, p: &PoolView, point: u64, buy: bool, eligible: bool) -> Self {
        Rates {
            base: BaseFee::of(c),
            dynamic: c.dynamic.clone(),
            acc: p.vol_acc,
            point,
            activation: p.activation_point,
            buy,
            eligible: eligible && c.first_swap_min_fee == 1 && p.has_swap == 0,
        }
    }
    pub fn included(&self, amount: u64) -> Option<u64> {
        if self.eligible {
            return self.base.min_numerator();
        }
        let n = self.base.rate_included(self.point, self.activation, self.buy, amount)?;
        Some(total_rate(n, &self.dynamic, self.acc))
    }
    pub fn excluded(&self, net: u64) -> Option<u64> {
        if self.eligible {
            return self.base.min_numerator();
        }
        let n = self.base.rate_excluded(self.point, self.activation, self.buy, net)?;
        Some(total_rate(n, &self.dynamic, self.acc))
    }
}

/// what a swap in this state must do (slippage limit included)
pub fn swap(c: &ConfigView, p: &PoolView, point: u64, q: &SwapReq) -> Result<SwapRes, No> {
    if q.amount == 0 {
        return Err(No::Zero);
    }
    if p.quote_reserve >= c.threshold {
        return Err(No::Complete);
    }
    let rates = Rates::new(c, p, point, q.buy, q.eligible);
    let on_in = fees_on_input(c, q.buy);
    let mut s = SwapRes::default();
    let fee;
    match q.mode {
        Mode::ExactIn | Mode::Partial => {
            let n = rates.included(q.amount).ok_or(No::Fee)?;
            let mut f_in = 0;
            let mut net = q.amount;
            if on_in {
                let (x, f) = take_fee(q.amount, n).ok_or(No::Fee)?;
                net = x;
                f_in = f;
            }
            let w = if q.buy { buy_in(c, p.sqrt_price, net) } else { sell_in(c, p.sqrt_price, net) }.ok_or(No::Overflow)?;
            s.next = w.next;
            s.gross_out = w.amount;
            s.left = w.left;
            s.steps = w.steps;
            s.rate = n;
            s.included_in = q.amount;
            if w.left != 0 {
                if q.mode == Mode::ExactIn {
                    return Err(No::Liquidity);
                }
                net -= w.left;
                s.included_in = net;
                if on_in {
                    s.rate = rates.excluded(net).ok_or(No::Fee)?;
                    // never more than what was offered
                    let (inc, _) = add_fee(net, s.rate).ok_or(No::Fee)?;
                    s.included_in = inc.min(q.amount);
                    f_in = s.included_in - net;
                }
            }
            s.excluded_in = net;
            if on_in {
                fee = f_in;
                s.output = s.gross_out;
            } else {
                let (o, f) = take_fee(s.gross_out, n).ok_or(No::Fee)?;
                fee = f;
                s.output = o;
            }
        }
        Mode::ExactOut => {
            let mut f = 0;
            let mut gross = q.amount;
            if !on_in {
                s.rate = rates.excluded(q.amount).ok_or(No::Fee)?;
                let (g, x) = add_fee(q.amount, s.rate).ok_or(No::Fee)?;
                gross = g;
                f = x;
            }
            let w = if q.buy { buy_out(c, p.sqrt_price, gross) } else { sell_out(c, p.sqrt_price, gross) }.ok_or(No::Liquidity)?;
            if w.next > c.migration_sqrt_price {
                return Err(No::Liquidity);
            }
            s.next = w.next;
            s.steps = w.steps;
            s.gross_out = gross;
            s.output = q.amount;
            s.excluded_in = w.amount;
            s.included_in = w.amount;
            if on_in {
                s.rate = rates.excluded(w.amount).ok_or(No::Fee)?;
                let (g, x) = add_fee(w.amount, s.rate).ok_or(No::Fee)?;
                s.included_in = g;
                f = x;
            }
            fee = f;
        }
    }
    let (t, pr, r) = split_fee(fee, q.referral);
    s.trading = t;
    s.protocol = pr;
    s.referral = r;
    let good = match q.mode {
        Mode::ExactOut => s.included_in <= q.limit,
        _ => s.output >= q.limit,
    };
    if !good {
        return Err(No::Slippage);
    }
    Ok(s)
}

/// splits a trading fee into (partner, creator)
pub fn split_trading(c: &ConfigView, fee: u64) -> (u64, u64) {
    let cr = pct_floor(fee, c.creator_fee_pct as u64);
    (fee - cr, cr)
}

/// the pool account after a successful swap, except completion bookkeeping
pub fn apply(c: &ConfigView, p: &PoolView, buy: bool, s: &SwapRes, now: u64) -> Option<PoolView> {
    let mut n = p.clone();
    let (partner, creator) = split_trading(c, s.trading);
    if fees_on_base(c, buy) {
        n.partner_base_fee = n.partner_base_fee.checked_add(partner)?;
        n.creator_base_fee = n.creator_base_fee.checked_add(creator)?;
        n.protocol_base_fee = n.protocol_base_fee.checked_add(s.protocol)?;
        n.metrics[M_PROTO_BASE] = n.metrics[M_PROTO_BASE].checked_add(s.protocol)?;
        n.metrics[M_TRADE_BASE] = n.metrics[M_TRADE_BASE].checked_add(s.trading)?;
    } else {
        n.partner_quote_fee = n.partner_quote_fee.checked_add(partner)?;
        n.creator_quote_fee = n.creator_quote_fee.checked_add(creator)?;
        n.protocol_quote_fee = n.protocol_quote_fee.checked_add(s.protocol)?;
        n.metrics[M_PROTO_QUOTE] = n.metrics[M_PROTO_QUOTE].checked_add(s.protocol)?;
        n.metrics[M_TRADE_QUOTE] = n.metrics[M_TRADE_QUOTE].checked_add(s.trading)?;
    }
    if buy {
        n.quote_reserve = n.quote_reserve.checked_add(s.excluded_in)?;
        n.base_reserve = n.base_reserve.checked_sub(s.gross_out)?;
    } else {
        n.base_reserve = n.base_reserve.checked_add(s.excluded_in)?;
        n.quote_reserve = n.quote_reserve.checked_sub(s.gross_out)?;
    }
    n.sqrt_price = s.next;
    if let Some(d) = &c.dynamic {
        let v = vol_before(d, &Vol::of(p), p.sqrt_price, now);
        let v = vol_after(d, &v, p.sqrt_price, s.next, now);
        n.last_update = v.last_update;
        n.sqrt_ref = v.sqrt_ref;
        n.vol_acc = v.acc;
        n.vol_ref = v.vref;
    }
    n.has_swap = 1;
    Some(n)
}

// ---- configuration -------------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct QuoteMint {
    pub key: Pubkey,
    /// owned by the SPL token program (else Token-2022)
    pub spl: bool,
    /// Token-2022 only: extensions are limited to metadata ones and it is not the native mint
    pub plain: bool,
}

type Res<T> = Result<T, &'static str>;

fn need(c: bool, why: &'static str) -> Res<()> {
    if c {
        Ok(())
    } else {
        Err(why)
    }
}

pub const MAX_LOCK: u64 = 63_072_000;
pub const ONE_DAY: u64 = 86_400;

pub fn v2_min_fee(bps: u16, mode: u8, n: u16, reduction: u64) -> Option<u64> {
    let cliff = bps as u64 * 100_000;
    match mode {
        0 | 1 => Some(cliff),
        3 => cliff.checked_sub(reduction.checked_mul(n as u64)?),
        4 => exp_decay(cliff, reduction, n as u32),
        _ => None,
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct LiqVest {
    pub per: u128,
    pub cliff_unlock: u128,
    pub n: u16,
    pub cliff: u32,
    pub frequency: u32,
}

/// vesting of `total` liquidity under the configured shape
pub fn liq_vesting(v: &LiqVesting, total: u128) -> Option<LiqVest> {
    let bps = v.bps as u64 * v.n as u64;
    if bps > u16::MAX as u64 {
        return None;
    }
    let after = try_mul_div_u128(total, bps as u128, 10_000)?;
    let (mut n, mut frequency, mut cliff) = (v.n, v.frequency, v.cliff);
    let per = if n > 0 { after / n as u128 } else { 0 };
    if per == 0 {
        n = 0;
        frequency = 0;
        cliff = cliff.max(1);
    }
    let cliff_unlock = total.checked_sub(per.checked_mul(n as u128)?)?;
    Some(LiqVest { per, cliff_unlock, n, cliff, frequency })
}

impl LiqVest {
    pub fn unlocked_at(&self, t: u64) -> u128 {
        if t < self.cliff as u64 {
            return 0;
        }
        if self.frequency == 0 {
            return self.cliff_unlock;
        }
        let k = ((t - self.cliff as u64) / self.frequency as u64).min(self.n as u64);
        self.cliff_unlock + k as u128 * self.per
    }
}

pub fn locked_bps(v: &LiqVesting, perm_pct: u8, t: u64) -> Option<u32> {
    let mut bps = perm_pct as u32 * 100;
    if v.pct > 0 {
        let total = try_mul_div_u128(u128::MAX, v.pct as u128, 100)?;
        let x = liq_vesting(v, total)?;
        let locked = total - x.unlocked_at(t).min(total);
        bps += mul_div_u128(locked, 10_000, u128::MAX) as u32;
    }
    Some(bps)
}

pub fn vest_initialized(v: &LiqVesting) -> bool {
    *v != LiqVesting::default()
}

fn check_liq_vesting(v: &LiqVesting) -> Res<()> {
    if *v == LiqVesting::default() {
        return Ok(());
    }
    let total = try_mul_div_u128(u128::MAX, v.pct as u128, 100).ok_or("liquidity vesting overflow")?;
    let x = liq_vesting(v, total).ok_or("liquidity vesting overflow")?;
    need(x.cliff != 0 || x.n > 0, "liquidity vesting: no cliff and no periods")?;
    need(x.n == 0 || (x.frequency > 0 && x.per > 0), "liquidity vesting: period")?;
    need(x.cliff as u64 + x.frequency as u64 * x.n as u64 <= MAX_LOCK, "liquidity vesting too long")?;
    need(total > 0, "liquidity vesting of nothing")
}

pub fn validate_base_fee(f: &BaseFee, collect: u8, activation: u8) -> Res<()> {
    match f.mode {
        0 | 1 => {
            let zero = f.first == 0 && f.second == 0 && f.third == 0;
            let full = f.first != 0 && f.second != 0 && f.third != 0;
            need(zero || full, "scheduler half set")?;
            let min = f.min_numerator().ok_or("scheduler goes below zero")?;
            need(min >= MIN_FEE, "end fee below minimum")?;
            need(f.cliff <= MAX_FEE, "cliff fee above maximum")?;
            need(min <= MAX_FEE, "end fee above maximum")
        }
        2 => {
            need(collect == 0, "limiter needs quote collection")?;
            need(f.cliff >= MIN_FEE && f.cliff <= MAX_FEE, "limiter cliff")?;
            let zero = f.first == 0 && f.second == 0 && f.third == 0;
            if zero {
                return Ok(());
            }
            need(f.first != 0 && f.second != 0 && f.third != 0, "limiter half set")?;
            need(f.second <= if activation == 0 { 108_000 } else { 43_200 }, "limiter duration")?;
            need(f.inc() < D, "limiter increment")?;
            let max = f.limiter_rate(u64::MAX).ok_or("limiter max fee")?;
            need(max <= MAX_FEE, "limiter max fee")
        }
        _ => Err("base fee mode"),
    }
}

pub fn validate_dynamic(d: &DynFee) -> Res<()> {
    need(d.bin_step == 1, "bin step")?;
    need(d.bin_step_u128 == BIN_STEP_BPS_U128, "bin step u128")?;
    need(d.filter_period < d.decay_period, "filter/decay")?;
    need(d.reduction_factor <= 10_000, "reduction factor")?;
    need(d.var_ctrl <= 0xff_ffff && d.max_vol <= 0xff_ffff, "24-bit bounds")
}

/// amounts that leave the pool at migration
pub fn migration_quote(threshold: u64, fee_pct: u8) -> u64 {
    ((threshold as u128 * (100 - fee_pct) as u128 + 99) / 100) as u64
}

pub fn is_compounding(p: &Params) -> bool {
    p.migration_option == 1 && p.mp_collect == 2
}

/// migration base amount for a quote amount at a price
pub fn migration_base(v1_or_compounding: bool, quote: u64, price: u128) -> Option<u64> {
    if v1_or_compounding {
        to_u64(up(b(quote as u128) << 128, b(price) * b(price)))
    } else {
        if price <= MIN_P {
            return None;
        }
        let l = to_u128(down(b(quote as u128) << 128, b(price - MIN_P)))?;
        to_u64(base_between(l, price, MAX_P, true))
    }
}

pub struct CurveSums {
    pub migration_price: u128,
    pub swap_base: u64,
}

pub fn curve_sums(start: u128, curve: &[(u128, u128)], threshold: u64) -> Res<CurveSums> {
    // where the quote collected reaches the threshold
    let mut left = b(threshold as u128);
    let mut lo = start;
    let mut mp = None;
    for (p, l) in curve {
        let total = quote_between(*l, lo, *p, true);
        if total > left {
            let q = to_u128(b(lo) + down(left << 128, b(*l))).ok_or("price")?;
            mp = Some(q);
            left = b(0);
            break;
        }
        left -= total;
        lo = *p;
    }
    need(left.is_zero(), "curve cannot raise the threshold")?;
    let mp = mp.unwrap_or(lo);
    need(mp < MAX_P, "migration price at the limit")?;
    // base sold up to there
    let mut lo = start;
    let mut sum = b(0);
    for (p, l) in curve {
        let hi = (*p).min(mp);
        if hi > lo {
            sum += base_between(*l, lo, hi, true);
        }
        if *p >= mp {
            break;
        }
        lo = *p;
    }
    Ok(CurveSums { migration_price: mp, swap_base: to_u64(sum).ok_or("swap base overflow")? })
}

pub fn max_base_on_curve(start: u128, curve: &[(u128, u128)]) -> B {
    let mut lo = start;
    let mut sum = b(0);
    for (p, l) in curve {
        sum += base_between(*l, lo, *p, true);
        lo = *p;
    }
    sum
}

pub fn vesting_total(v: &Vesting) -> Option<u64> {
    v.amount_per_period.checked_mul(v.number_of_period)?.checked_add(v.cliff_unlock)
}

pub fn compounding_first(base: u64, quote: u64) -> Option<(u128, u128)> {
    // (sqrt price, liquidity) of the pool that holds exactly these amounts
    if base == 0 {
        return None;
    }
    let p = isqrt(up(b(quote as u128) << 128, b(base as u128)));
    let p = to_u128(p)?;
    let l = isqrt(down(b(quote as u128) << 128, b(base as u128))) * b(base as u128);
    Some((p, to_u128(l)?))
}

/// what the protocol takes of liquidity at graduation; a pool created today is marked with 20 basis points
pub fn protocol_cut(x: u64, bps: u16) -> u64 {
    mul_div_u64(x, bps as u64, 10_000, false).unwrap()
}
pub const CUT_BPS: u16 = 20;

/// what create_config must do with these parameters: the account it creates, or why it must refuse
pub fn derive(p: &Params, q: &QuoteMint, fee_claimer: Pubkey, leftover: Pubkey) -> Res<ConfigView> {
    need(p.curve.len() <= 16, "curve length")?;
    derive_old(p, q, fee_claimer, leftover)
}

/// the same for configurations of earlier program versions, which could have 20 curve points
pub fn derive_old(p: &Params, q: &QuoteMint, fee_claimer: Pubkey, leftover: Pubkey) -> Res<ConfigView> {
    need(q.spl || q.plain, "quote mint")?;
    need(p.activation_type <= 1, "activation type")?;
    let fee = BaseFee { mode: p.fee_mode, cliff: p.cliff_fee, first: p.first, second: p.second, third: p.third };
    validate_base_fee(&fee, p.collect_fee_mode, p.activation_type)?;
    if let Some(d) = &p.dynamic {
        validate_dynamic(d)?;
    }
    need(p.creator_fee_pct <= 100, "creator fee share")?;
    need(p.migration_fee_pct <= 99, "migration fee")?;
    if p.migration_fee_pct == 0 {
        need(p.creator_migration_fee_pct == 0, "creator migration fee without fee")?;
    } else {
        need(p.creator_migration_fee_pct <= 100, "creator migration fee")?;
    }
    need(p.collect_fee_mode <= 1, "collect fee mode")?;
    need(p.migration_option <= 1, "migration option")?;
    need(p.migration_fee_option <= 6, "migration fee option")?;
    need(p.token_type <= 1, "token type")?;
    let mp_zero = p.mp_collect == 0
        && p.mp_dynamic == 0
        && p.mp_fee_bps == 0
        && p.compounding_bps == 0
        && p.mp_base_mode == 0
        && p.mc_n == 0
        && p.mc_step == 0
        && p.mc_expiration == 0
        && p.mc_reduction == 0;
    if p.migration_option == 0 {
        need(p.token_type == 0, "DAMM v1 needs an SPL token")?;
        need(q.spl, "DAMM v1 needs an SPL quote mint")?;
        need(p.migration_fee_option != 6, "DAMM v1 has no custom fee")?;
        need(mp_zero, "DAMM v1 has no migrated pool parameters")?;
        need(!vest_initialized(&p.partner_vest) && !vest_initialized(&p.creator_vest), "DAMM v1 has no liquidity vesting")?;
    } else {
        if p.migration_fee_option == 6 {
            need(p.mp_fee_bps >= 10 && p.mp_fee_bps <= 1000, "migrated pool fee")?;
            need(p.mp_collect <= 2, "migrated pool collect mode")?;
            if p.mp_collect == 2 {
                need(p.compounding_bps >= 1 && p.compounding_bps <= 10_000, "compounding fee")?;
            } else {
                need(p.compounding_bps == 0, "compounding fee without compounding")?;
            }
            need(p.mp_dynamic <= 1, "migrated pool dynamic fee")?;
            match p.mp_base_mode {
                0 | 1 => need(
                    p.mc_n == 0 && p.mc_step == 0 && p.mc_expiration == 0 && p.mc_reduction == 0,
                    "market cap scheduler values without it",
                )?,
                3 | 4 => {
                    need(p.mc_n > 0 && p.mc_step > 0 && p.mc_expiration > 0 && p.mc_reduction > 0, "market cap scheduler")?;
                    let m = v2_min_fee(p.mp_fee_bps, p.mp_base_mode, p.mc_n, p.mc_reduction).ok_or("market cap scheduler below zero")?;
                    need(m >= 100_000, "market cap scheduler below minimum")?;
                }
                _ => return Err("migrated pool base fee mode"),
            }
        } else {
            need(mp_zero, "migrated pool parameters with a fixed fee option")?;
        }
        check_liq_vesting(&p.partner_vest)?;
        check_liq_vesting(&p.creator_vest)?;
    }
    need(p.token_authority <= 4, "token authority")?;
    need(p.token_decimal >= 6 && p.token_decimal <= 9, "decimals")?;
    let pct: u32 = [p.partner_liq, p.partner_locked, p.creator_liq, p.creator_locked, p.partner_vest.pct, p.creator_vest.pct]
        .iter()
        .map(|x| *x as u32)
        .sum();
    need(pct == 100, "liquidity shares")?;
    need(p.threshold > 0, "threshold")?;
    let vest_total = if p.vesting == Vesting::default() {
        0
    } else {
        let t = vesting_total(&p.vesting).ok_or("vesting overflow")?;
        need(p.vesting.frequency != 0 && t != 0, "vesting")?;
        t
    };
    need(p.creation_fee == 0 || (p.creation_fee >= 1_000_000 && p.creation_fee <= 100_000_000_000), "creation fee")?;
    need(p.sqrt_start >= MIN_P && p.sqrt_start < MAX_P, "start price")?;
    need(!p.curve.is_empty() && p.curve.len() <= 20, "curve length")?;
    let mut lo = p.sqrt_start;
    for (x, l) in &p.curve {
        need(*x > lo && *l > 0, "curve order")?;
        lo = *x;
    }
    need(lo <= MAX_P, "curve end")?;
    let sums = curve_sums(p.sqrt_start, &p.curve, p.threshold)?;
    let mq = migration_quote(p.threshold, p.migration_fee_pct);
    let pm = sums.migration_price;
    need(p.mp_collect <= 2, "migrated pool collect mode")?;
    let mb = migration_base(p.migration_option == 0 || is_compounding(p), mq, pm).ok_or("migration base overflow")?;
    need(mb > 0 && sums.swap_base > 0, "no base")?;
    if is_compounding(p) {
        let (xa, xq) = (mb - protocol_cut(mb, CUT_BPS), mq - protocol_cut(mq, CUT_BPS));
        let (s1, l) = compounding_first(xa, xq).ok_or("compounding liquidity")?;
        need(s1 >= MIN_P && s1 <= MAX_P, "compounding price")?;
        need(l > DEAD_LIQUIDITY, "compounding liquidity too small")?;
        let d = if pm > s1 { pm - s1 } else { s1 - pm };
        need(b(d) * b(100) <= b(pm.max(s1)), "compounding price moved")?;
    }
    let mut cfg = ConfigView {
        quote_mint: q.key,
        fee_claimer,
        leftover_receiver: leftover,
        cliff_fee: p.cliff_fee,
        second: p.second,
        third: p.third,
        first: p.first,
        fee_mode: p.fee_mode,
        dynamic: p.dynamic.clone(),
        partner_vest: (vest_initialized(&p.partner_vest) as u8, p.partner_vest.clone()),
        creator_vest: (vest_initialized(&p.creator_vest) as u8, p.creator_vest.clone()),
        collect_fee_mode: p.collect_fee_mode,
        migration_option: p.migration_option,
        activation_type: p.activation_type,
        token_decimal: p.token_decimal,
        version: 0,
        token_type: p.token_type,
        quote_token_flag: !q.spl as u8,
        partner_locked: p.partner_locked,
        partner_liq: p.partner_liq,
        creator_locked: p.creator_locked,
        creator_liq: p.creator_liq,
        migration_fee_option: p.migration_fee_option,
        fixed_supply: 0,
        creator_fee_pct: p.creator_fee_pct,
        token_authority: p.token_authority,
        migration_fee_pct: p.migration_fee_pct,
        creator_migration_fee_pct: p.creator_migration_fee_pct,
        swap_base_amount: sums.swap_base,
        threshold: p.threshold,
        migration_base_threshold: mb,
        migration_sqrt_price: pm,
        vesting: p.vesting.clone(),
        pre_supply: 0,
        post_supply: 0,
        mp_collect: p.mp_collect,
        mp_dynamic: p.mp_dynamic,
        mp_fee_bps: p.mp_fee_bps,
        mp_base_mode: p.mp_base_mode,
        first_swap_min_fee: p.first_swap_min_fee as u8,
        compounding_bps: p.compounding_bps,
        creation_fee: p.creation_fee,
        mp_base_fee_bytes: [0; 16],
        sqrt_start: p.sqrt_start,
        curve: {
            let mut c = p.curve.clone();
            c.resize(20, (0, 0));
            c
        },
    };
    cfg.mp_base_fee_bytes.copy_from_slice(
        &W::default().u16(p.mc_n).u16(p.mc_step).u32(p.mc_expiration).u64(p.mc_reduction).0,
    );
    if let Some((pre, post)) = p.supply {
        need(leftover != Pubkey::default(), "leftover receiver")?;
        let buffer = swap_buffer(&cfg).ok_or("swap buffer overflow")?;
        let without = sums.swap_base.checked_add(mb).and_then(|x| x.checked_add(vest_total)).ok_or("supply overflow")?;
        let with = buffer.checked_add(mb).and_then(|x| x.checked_add(vest_total)).ok_or("supply overflow")?;
        need(without <= post && post <= pre && with <= pre, "supply")?;
        cfg.fixed_supply = 1;
        cfg.pre_supply = pre;
        cfg.post_supply = post;
    }
    let locked = locked_bps(&p.partner_vest, p.partner_locked, ONE_DAY).ok_or("locked bps")?
        + locked_bps(&p.creator_vest, p.creator_locked, ONE_DAY).ok_or("locked bps")?;
    need(locked >= 1000, "locked liquidity")?;
    Ok(cfg)
}

/// base set aside for trading: 25 % more than the curve sells, but no more than it can ever sell
pub fn swap_buffer(c: &ConfigView) -> Option<u64> {
    let swap = c.swap_base_amount;
    let buffer = b(swap as u128) + b(swap as u128 * 25 / 100);
    let segs = c.segments();
    let max = max_base_on_curve(c.sqrt_start, &segs);
    to_u64(if buffer < max { buffer } else { max })
}

/// supply minted at pool creation
pub fn initial_supply(c: &ConfigView) -> Option<u64> {
    if c.fixed_supply == 1 {
        return Some(c.pre_supply);
    }
    swap_buffer(c)?.checked_add(c.migration_base_threshold)?.checked_add(u64::try_from(c.vesting_total()).ok()?)
}

// ---- after completion ----------------------------------------------------------------------------------------

pub fn surplus(c: &ConfigView, p: &PoolView) -> u64 {
    p.quote_reserve - c.threshold
}
/// (partner, creator, protocol)
pub fn split_surplus(c: &ConfigView, total: u64) -> (u64, u64, u64) {
    let pc = pct_floor(total, 80);
    let cr = pct_floor(pc, c.creator_fee_pct as u64);
    (pc - cr, cr, total - pc)
}
/// (partner, creator)
pub fn split_migration_fee(c: &ConfigView) -> (u64, u64) {
    let fee = c.threshold - migration_quote(c.threshold, c.migration_fee_pct);
    let cr = pct_floor(fee, c.creator_migration_fee_pct as u64);
    (fee - cr, cr)
}
pub fn split_creation_fee(fee: u64) -> (u64, u64) {
    let p = pct_floor(fee, 10);
    (fee - p, p)
}
