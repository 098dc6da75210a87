//! Trading: C02 to C08, C10, C11, C18, C19.
use crate::abi::*;
use crate::abuse::*;
use crate::case::Case;
use crate::hist::*;
use crate::refmath::*;
use crate::refmodel::*;
use crate::sim::*;
use crate::world::*;
use anchor_lang::prelude::Pubkey;

/// as much quote as can exist
fn fund(s: &mut Sim, k: &Pubkey) {
    if s.quote_mint == WSOL {
        return;
    }
    let others: u128 = s.w.accts.iter().filter(|(x, a)| *x != k && a.len() >= 165 && a.data()[..32] == *s.quote_mint.as_ref()).map(|(x, _)| s.w.bal(x) as u128).sum();
    let free = (u64::MAX as u128).saturating_sub(others) as u64;
    if free > s.w.bal(k) {
        set_balance(s, k, free);
    }
}

fn set_balance(s: &mut Sim, k: &Pubkey, v: u64) {
    if let Some(a) = s.w.accts.get_mut(k) {
        let old = u64::from_le_bytes(a.data()[64..72].try_into().unwrap());
        a.data_mut()[64..72].copy_from_slice(&v.to_le_bytes());
        if a.data()[..32] == *WSOL.as_ref() {
            let l = a.lamports() - old + v;
            a.set_lamports(l);
        }
    }
}

/// any kind of swap
fn any_swap(case: &mut Case, s: &Sim, st: &Style) -> SwapOp {
    let mut o = random_swap(case, s, st);
    o.limit = if o.mode == Mode::ExactOut { u64::MAX } else { 0 };
    o
}

fn trade_style() -> Style {
    let mut st = Style { max_ops: 32, go_on: 94, complete: 45, graduate: 15, ..Style::default() };
    st.w = [78, 12, 5, 1, 0, 1, 0, 1, 1, 1, 2];
    st.pr.huge = 1;
    st
}

// ---- C02 -----------------------------------------------------------------------------------------------------

/// every base token that was sold is sold back in one go
fn everybody_exits(case: &mut Case, s: &Sim) {
    let mut a = s.clone();
    a.abuse = 0;
    let pv = a.pv();
    // all base tokens outside the pool's vault
    let mut sum = 0u64;
    let keys: Vec<Pubkey> = a.w.accts.iter().filter(|(k, x)| **k != a.base_vault && x.len() >= 165 && x.data()[..32] == *a.base_mint.as_ref()).map(|(k, _)| *k).collect();
    for k in &keys {
        let b = a.w.bal(k);
        sum += b;
        set_balance(&mut a, k, 0);
    }
    if sum == 0 {
        return;
    }
    let t = a.traders[1];
    let k = a.ba(&t);
    set_balance(&mut a, &k, sum);
    // in one piece or in several
    let n = 1 + case.t.raw(3);
    let mut left = sum;
    for i in 0..n {
        if left == 0 {
            break;
        }
        let amount = if i + 1 == n { left } else { case.t.range(1, left) };
        let mut o = SwapOp::new(1, Mode::ExactIn, false, amount);
        if case.t.chance(20) {
            o.mode = Mode::Partial;
        }
        // a sale for nothing may be refused; any other must go through
        let p = a.predict_swap(&a.pv(), &o, false, true, u64::MAX);
        if let Err((_, why)) = &p {
            case.ck(*why != "more than the curve has", &["C02"], || format!("{amount} base of {sum} sold cannot be sold back"));
            break;
        }
        let before = a.pv().quote_reserve;
        if !a.do_swap(case, &o) {
            case.ck(false, &["C02"], || format!("{amount} of {sum} base sold cannot be sold back"));
            return;
        }
        let area = p.unwrap().gross_out;
        case.ck(before >= area, &["C02"], || format!("quote reserve {before} below {area}, what the base sold is worth"));
        left -= amount;
    }
    if pv.quote_reserve > 0 {
        case.hit("everybody sold everything back");
    }
}

/// trades of one group of wallets: they must not gain quote while holding at least as much base as before
fn round_trip(case: &mut Case, s: &Sim, st: &Style) {
    let mut a = s.clone();
    a.abuse = 0;
    let many = case.t.chance(50);
    let wallets: Vec<Pubkey> = if many { a.traders.iter().chain(a.referrals.iter()).copied().collect() } else { vec![a.traders[0]] };
    let total = |a: &Sim| {
        let mut v = (0u128, 0u128);
        for x in &wallets {
            v.0 += a.w.bal(&a.ba(x)) as u128;
            v.1 += a.w.bal(&a.qa(x)) as u128;
        }
        v
    };
    let (b0, q0) = total(&a);
    let mut traded = 0;
    let n = 2 + case.t.raw(10);
    for i in 0..=n {
        if a.complete() {
            break;
        }
        let (b, q) = total(&a);
        if b >= b0 {
            case.ck(q <= q0, &["C02"], || format!("traders gained: quote {q0} -> {q}, base {b0} -> {b}"));
        }
        let mut o;
        if i == n || case.t.chance(15) {
            // back to the starting amount of base
            if b > b0 {
                let d = (b - b0).min(u64::MAX as u128) as u64;
                let who = (0..if many { 3 } else { 1 }).max_by_key(|i| a.w.bal(&a.ba(&a.traders[*i]))).unwrap();
                o = SwapOp::new(who, Mode::ExactIn, false, d.min(a.w.bal(&a.ba(&a.traders[who]))));
            } else {
                o = SwapOp::new(0, Mode::ExactOut, true, (b0 - b).min(u64::MAX as u128) as u64);
            }
            if o.amount == 0 {
                continue;
            }
        } else {
            o = any_swap(case, &a, st);
            if !many {
                o.who = 0;
            }
            if case.t.chance(35) {
                // small amounts, where rounding counts
                o.amount = case.t.range(1, 60);
            }
        }
        if let Some(_) = o.referral {
            let own = if many { a.referrals[0] } else { a.traders[0] };
            o.referral = Some(a.referral_account(&own, o.buy));
        }
        if a.do_swap(case, &o) {
            traded += 1;
        }
        if case.t.chance(20) {
            let n = case.t.logu(1, 5000);
            a.advance(n, n);
        }
    }
    let (b, q) = total(&a);
    if b >= b0 {
        case.ck(q <= q0, &["C02"], || format!("traders gained: quote {q0} -> {q}, base {b0} -> {b}"));
        if traded >= 2 {
            case.hit("round trip");
        }
    }
}

pub fn c02(case: &mut Case) {
    let mut st = trade_style();
    st.pr.tiny = 15;
    st.max_ops = 20;
    let st2 = st.clone();
    run(case, &st, &mut |case, s, stage| {
        if stage != Stage::Trading || s.complete() {
            return;
        }
        if case.t.chance(20) {
            everybody_exits(case, s);
        }
        if case.t.chance(18) {
            round_trip(case, s, &st2);
        }
    });
}

// ---- C03 -----------------------------------------------------------------------------------------------------

/// (lower, upper) bounds of a real amount, scaled by 2^64, and the number of segments
fn real(c: &ConfigView, x: u128, y: u128, base: bool) -> (B, B, u64) {
    let (mut lo, mut hi, mut n) = (B::ZERO, B::ZERO, 0);
    for (a, z, l) in pieces(c) {
        let (a, z) = (a.max(x), z.min(y));
        if z <= a {
            continue;
        }
        n += 1;
        let (num, den) = if base { ((b(l) * b(z - a)) << 64, b(a) * b(z)) } else { ((b(l) * b(z - a)) << 64, two128()) };
        lo += down(num, den);
        hi += up(num, den);
    }
    (lo, hi, n)
}

/// the fill against the real-valued curve, independent of how the walk is done
pub fn real_curve(case: &mut Case, c: &ConfigView, p0: u128, p1: u128, buy: bool, exact_out: bool, net_in: u64, gross_out: u64) {
    let t = &["C03"];
    let order = |x: u128, y: u128| if x < y { (x, y) } else { (y, x) };
    let amount = |to: u128, base: bool| {
        let (x, y) = order(p0, to);
        real(c, x, y, base)
    };
    let (in_base, out_base) = (!buy, buy);
    let s = |x: u64| b(x as u128) << 64;
    let (_, in_hi, n) = amount(p1, in_base);
    let (in_lo, _, _) = amount(p1, in_base);
    let (out_lo, out_hi, _) = amount(p1, out_base);
    let (start, end) = (c.sqrt_start, c.migration_sqrt_price);
    // never to the trader's advantage
    case.ck(s(gross_out) <= out_hi, t, || format!("output {gross_out} is more than the curve gives from {p0} to {p1}"));
    case.ck(s(net_in) >= in_lo, t, || format!("input {net_in} is less than the curve asks from {p0} to {p1}"));
    // and within one unit per segment
    let one = (b(n.max(1) as u128) + b(1)) << 64;
    let further = if buy { p1.saturating_add(1).min(end.max(p1)) } else { p1.saturating_sub(1).max(start.min(p1)) };
    let nearer = if p1 == p0 {
        p0
    } else if buy {
        p1 - 1
    } else {
        p1 + 1
    };
    if exact_out {
        case.ck(s(net_in) <= in_hi + one, t, || format!("input {net_in} is far more than the curve asks from {p0} to {p1}"));
        let (lo, _, _) = amount(nearer, out_base);
        case.ck(s(gross_out) + one >= lo, t, || format!("output {gross_out} is far less than the curve gives from {p0} to {p1}"));
    } else {
        case.ck(s(gross_out) + one >= out_lo, t, || format!("output {gross_out} is far less than the curve gives from {p0} to {p1}"));
        let (_, mut hi, _) = amount(further, in_base);
        if !buy && p1 == start {
            // what moves the price by less than its precision: no price is stored below the start
            hi += base_between(c.curve[0].1, start - 1, start, true) << 64;
        }
        case.ck(s(net_in) <= hi + one, t, || format!("input {net_in} is far more than the curve asks from {p0} to {p1}"));
    }
    if n > 1 {
        case.hit("fill over several segments");
    }
    if p1 == start || p1 == end {
        case.hit("fill up to an end of the curve");
    }
}

/// whether somebody can still mint base tokens (so that more can be sold than was bought)
fn mintable(s: &Sim) -> bool {
    matches!(s.c.token_authority, 3 | 4)
}

/// the mint authority makes base tokens, as far as the supply can hold them
fn mint_more(case: &mut Case, a: &mut Sim, k: &Pubkey) {
    let room = u64::MAX - u64::from_le_bytes(a.w.data(&a.base_mint)[36..44].try_into().unwrap());
    if room == 0 || a.w.get(k).is_none() {
        return;
    }
    let n = case.t.logu(1, room);
    let have = a.w.bal(k);
    set_balance(a, k, have + n);
    let m = a.base_mint;
    if let Some(x) = a.w.accts.get_mut(&m) {
        let old = u64::from_le_bytes(x.data()[36..44].try_into().unwrap());
        x.data_mut()[36..44].copy_from_slice(&(old + n).to_le_bytes());
    }
    a.minted += n;
}

/// on a copy: the mint authority gave a trader base tokens, who sells down to and beyond the curve's start
fn oversell(case: &mut Case, s: &Sim) {
    if !mintable(s) || s.complete() || s.try_pv().is_none() {
        return;
    }
    let mut a = s.clone();
    a.abuse = 0;
    let who = case.t.below(a.traders.len());
    let k = a.ba(&a.traders[who].clone());
    if a.w.get(&k).is_none() {
        return;
    }
    mint_more(case, &mut a, &k);
    for _ in 0..1 + case.t.raw(3) {
        if a.complete() {
            break;
        }
        let pv = a.pv();
        // what brings the price to the start, as the program reckons
        let all = sell_out(&a.c, pv.sqrt_price, pv.quote_reserve).map(|x| x.amount).unwrap_or(0);
        let sold = a.initial_supply.saturating_sub(pv.base_reserve);
        let buy = case.t.chance(20);
        let mode = case.t.pick(&[Mode::Partial, Mode::ExactIn, Mode::ExactOut]);
        let around = if case.t.chance(50) { all } else { sold };
        let amount = match (buy, mode) {
            (false, Mode::ExactOut) => case.t.range(pv.quote_reserve.saturating_sub(3), pv.quote_reserve.saturating_add(1)),
            (true, _) => case.t.logu(1, a.c.threshold.max(2)),
            _ => match case.t.raw(3) {
                0 => around.saturating_add(case.t.raw(3)),
                1 => around.saturating_sub(case.t.raw(3)),
                2 => around.saturating_mul(2).max(1),
                _ => case.t.logu(1, u64::MAX),
            },
        }
        .clamp(1, u64::MAX);
        let mut o = SwapOp::new(who, mode, buy, amount);
        o.limit = if mode == Mode::ExactOut { u64::MAX } else { 0 };
        let done = a.do_swap(case, &o);
        if done && !buy {
            case.hit("sold more than was bought");
            if a.pv().sqrt_price == a.c.sqrt_start {
                case.hit("sold down to the start of the curve");
            }
        }
    }
}

pub fn c03(case: &mut Case) {
    let mut st = trade_style();
    st.pr.tiny = 12;
    st.w = [90, 4, 2, 0, 0, 0, 0, 0, 0, 0, 1];
    st.max_ops = 40;
    st.limits = 5;
    run(case, &st, &mut |case, s, stage| {
        if stage == Stage::Trading && case.t.chance(5) {
            oversell(case, s);
        }
    });
}

// ---- C04 -----------------------------------------------------------------------------------------------------

fn paid_and_got(a: &Sim, z: &Sim, o: &SwapOp) -> (u64, u64) {
    let (i, u) = a.in_out(o);
    (a.w.bal(&i) - z.w.bal(&i).min(a.w.bal(&i)), z.w.bal(&u) - a.w.bal(&u).min(z.w.bal(&u)))
}

/// what the modes and limits mean, from the outside
fn modes(case: &mut Case, s: &Sim, st: &Style) {
    let t = &["C04"];
    let mut o = any_swap(case, s, st);
    o.v1 = false;
    if o.referral.is_some() {
        let own = s.referrals[0];
        o.referral = Some(s.referral_account(&own, o.buy));
    }
    let go = |s: &Sim, o: &SwapOp| {
        let mut a = s.clone();
        let (ix, _) = a.swap_ix(o);
        let out = a.w.tx(&[ix]);
        (out.ok, a)
    };
    // zero
    let mut z = o.clone();
    z.amount = 0;
    z.limit = [0, u64::MAX, 1][case.t.below(3)];
    for mode in [Mode::ExactIn, Mode::Partial, Mode::ExactOut] {
        z.mode = mode;
        let ok = go(s, &z).0;
        case.ck(!ok, t, || format!("a swap of zero was accepted ({z:?})"));
    }
    // no such mode
    let (mut ix, _) = s.swap_ix(&SwapOp { v1: false, ..o.clone() });
    let m = 3 + case.t.raw(252) as u8;
    if let Some(x) = ix.data.last_mut() {
        *x = m;
    }
    let ok = s.w.clone().tx(&[ix]).ok;
    case.ck(!ok, t, || format!("swap mode {m} was accepted"));
    // without a limit
    let (ok, a) = go(s, &o);
    if !ok {
        return;
    }
    let (paid, got) = paid_and_got(s, &a, &o);
    match o.mode {
        Mode::ExactIn => {
            case.eq("ExactIn spends", paid, o.amount, t);
        }
        Mode::Partial => {
            case.ck(paid <= o.amount, t, || format!("PartialFill of {} spent {paid}", o.amount));
        }
        Mode::ExactOut => {
            case.eq("ExactOut delivers", got, o.amount, t);
        }
    }
    case.hit("limit at the exact result");
    let mut exact = o.clone();
    let mut worse = o.clone();
    match o.mode {
        Mode::ExactOut => {
            exact.limit = paid;
            worse.limit = paid.saturating_sub(1);
        }
        _ => {
            exact.limit = got;
            worse.limit = got.saturating_add(1);
        }
    }
    let (ok, b) = go(s, &exact);
    case.ck(ok, t, || format!("rejected although the result is exactly the limit ({exact:?})"));
    if ok {
        case.ck(b.w.accts == a.w.accts, t, || format!("the limit changed what the swap does ({exact:?})"));
    }
    if worse.limit != exact.limit {
        let (ok, b) = go(s, &worse);
        case.ck(!ok, t, || format!("accepted although the result is one worse than the limit ({worse:?})"));
        if !ok {
            case.ck(b.w.accts == s.w.accts, t, || "a failed swap changed something".into());
        }
    }
    // far from the limit
    let mut far = o.clone();
    far.limit = match o.mode {
        Mode::ExactOut => {
            if paid < 2 {
                0
            } else {
                case.t.range(0, paid - 1)
            }
        }
        _ => case.t.range(got.saturating_add(1).min(u64::MAX - 1), u64::MAX),
    };
    let ok = go(s, &far).0;
    case.ck(!ok || (o.mode == Mode::ExactOut && paid == 0), t, || format!("accepted although the result is worse than the limit ({far:?}; paid {paid}, got {got})"));
    // the same through the other entry points
    match o.mode {
        Mode::ExactIn => {
            let mut v1 = exact.clone();
            v1.v1 = true;
            let (ok, b) = go(s, &v1);
            case.ck(ok && b.w.accts == a.w.accts, t, || format!("the older swap instruction does something else ({v1:?})"));
            v1.limit = worse.limit;
            if worse.limit != exact.limit {
                let ok = go(s, &v1).0;
                case.ck(!ok, t, || format!("the older swap instruction ignores the limit ({v1:?})"));
            }
            let mut p = exact.clone();
            p.mode = Mode::Partial;
            let (ok, b) = go(s, &p);
            case.ck(ok && b.w.accts == a.w.accts, t, || format!("PartialFill differs from ExactIn although nothing stops it ({p:?})"));
        }
        Mode::Partial => {
            let mut e = exact.clone();
            e.mode = Mode::ExactIn;
            let (ok, b) = go(s, &e);
            let pv = a.pv();
            let end = if o.buy { s.c.migration_sqrt_price } else { s.c.sqrt_start };
            if paid < o.amount {
                case.ck(pv.sqrt_price == end, t, || format!("PartialFill stopped at {} before the end of the curve {end}", pv.sqrt_price));
                case.ck(!ok || b.w.accts == a.w.accts, t, || "ExactIn and PartialFill disagree".into());
                case.hit("partial fill that stopped");
                // it is charged like an order for just what it filled
                let mut e = exact.clone();
                e.mode = Mode::ExactOut;
                e.amount = got;
                e.limit = u64::MAX;
                let (ok, b) = go(s, &e);
                if ok && fees_on_input(&s.c, o.buy) && BaseFee::of(&s.c).mode != 2 {
                    let (p2, g2) = paid_and_got(s, &b, &e);
                    case.eq("the same output in ExactOut", g2, got, t);
                    // reaching the end of the curve costs at least what the same output costs, rounding aside
                    case.ck(p2 <= paid.saturating_add(16), t, || format!("PartialFill paid {paid} for {got}, ExactOut pays {p2}"));
                }
            } else if pv.sqrt_price != end {
                case.ck(ok && b.w.accts == a.w.accts, t, || format!("ExactIn differs from PartialFill although nothing stopped it ({o:?})"));
            }
        }
        Mode::ExactOut => {
            case.hit("exact output");
        }
    }
}

pub fn c04(case: &mut Case) {
    let mut st = trade_style();
    st.limits = 75;
    st.pr.tiny = 8;
    st.pr.limiter = 25;
    st.max_ops = 18;
    let st2 = st.clone();
    run(case, &st, &mut |case, s, stage| {
        if stage == Stage::Trading && !s.complete() && case.t.chance(34) {
            if mintable(s) && case.t.chance(12) {
                // with base tokens that were not bought here
                let mut a = s.clone();
                for x in a.traders.clone() {
                    let k = a.ba(&x);
                    mint_more(case, &mut a, &k);
                }
                modes(case, &a, &st2);
                case.hit("modes with base tokens that were not bought here");
            } else {
                modes(case, s, &st2);
            }
        }
    });
}

// ---- C05 -----------------------------------------------------------------------------------------------------

pub fn c05(case: &mut Case) {
    let mut st = trade_style();
    st.referral = 62;
    st.limits = 8;
    st.pr.creator_fee = 85;
    st.pr.tiny = 10;
    st.pr.scheduler = 55;
    st.max_ops = 30;
    st.w = [84, 8, 6, 1, 0, 0, 0, 0, 1, 0, 1];
    run(case, &st, &mut |case, s, stage| {
        if stage == Stage::Trading && case.t.chance(3) {
            oversell(case, s);
        }
    });
}

// ---- C06 -----------------------------------------------------------------------------------------------------

/// the fee that this swap would pay now: (fee, amount that bears it)
fn fee_of(s: &Sim, o: &SwapOp) -> Option<(u64, u64)> {
    let mut a = s.clone();
    a.abuse = 0;
    let (ix, _) = a.swap_ix(o);
    let (v0, w0) = (a.pv(), a.w.clone());
    if !a.w.tx(&[ix]).ok {
        return None;
    }
    let n = a.pv();
    let m = |v: &PoolView| v.metrics.iter().copied().fold(0u64, |x, y| x.wrapping_add(y));
    let mut fee = m(&n).wrapping_sub(m(&v0));
    if let Some(k) = &o.referral {
        fee += a.w.bal(k).saturating_sub(w0.bal(k));
    }
    let bearing = if fees_on_input(&s.c, o.buy) {
        n.quote_reserve.wrapping_sub(v0.quote_reserve).wrapping_add(fee)
    } else if o.buy {
        v0.base_reserve.wrapping_sub(n.base_reserve)
    } else {
        v0.quote_reserve.wrapping_sub(n.quote_reserve)
    };
    Some((fee, bearing))
}

/// the same trade at different times
fn schedule(case: &mut Case, s: &Sim, st: &Style) {
    let t = &["C06"];
    let mut o = any_swap(case, s, st);
    o.referral = None;
    let pv = s.pv();
    let mut a = s.clone();
    let Some(f0) = fee_of(&a, &o) else { return };
    // the other clock
    let mut x = s.clone();
    let jump = case.t.logu(1, 1 << 40);
    if s.c.activation_type == 0 {
        x.advance(0, jump);
    } else {
        x.advance(jump, 0);
    }
    case.eq("fee after only the other clock moved", fee_of(&x, &o), Some(f0), t);
    let f = BaseFee::of(&s.c);
    if f.is_flat() {
        // no schedule: never changes
        let j = case.t.logu(1, 1 << 40);
        a.advance(j, j);
        case.eq("fee of a flat schedule", fee_of(&a, &o), Some(f0), t);
        return;
    }
    let mut at = vec![];
    for _ in 0..4 {
        let k = case.t.range(0, f.first as u64 + 2);
        let p = (pv.activation_point as u128 + k as u128 * f.second as u128).min(1 << 60) as u64;
        at.push(p.saturating_sub(1));
        at.push(p);
    }
    at.push((pv.activation_point as u128 + f.first as u128 * f.second as u128).min(1 << 60) as u64);
    at.push((pv.activation_point as u128 + f.first as u128 * f.second as u128 + f.second as u128 * 70_000).min(1 << 60) as u64);
    if case.t.chance(30) {
        at.push((pv.activation_point as u128 + f.second as u128 * (1 << 32) + f.second as u128).min(1 << 60) as u64);
    }
    at.retain(|p| *p >= s.point());
    at.sort();
    // the rate in millionths of a percent, exactly: fee = ceil(rate * amount) with the rate from the schedule written out
    let mut last: Option<(u64, u64)> = None;
    for p in at {
        let d = p.saturating_sub(a.point());
        if s.c.activation_type == 0 {
            a.advance(d, 0);
        } else {
            a.advance(0, d);
        }
        if a.point() != p {
            continue;
        }
        let Some((fee, bearing)) = fee_of(&a, &o) else {
            last = None;
            continue;
        };
        let periods = ((p - pv.activation_point) / f.second).min(f.first as u64);
        // linear: exact. exponential: between the exact power and a little below
        let n = f.cliff as u128;
        let (lo, hi) = if f.mode == 0 {
            let r = n - f.third as u128 * periods as u128;
            (r, r)
        } else {
            let e = |up_: bool| {
                // floor or ceiling of cliff * (1 - r/10000)^k in 2^-64 steps
                let mut v = b(n) << 128;
                for _ in 0..periods {
                    let x = v * b(10_000 - f.third as u128);
                    v = if up_ { up(x, b(10_000)) } else { down(x, b(10_000)) };
                }
                v
            };
            let lo = to_u128(e(false) >> 128).unwrap_or(0);
            let hi = to_u128((e(true) >> 128) + b(1)).unwrap_or(u128::MAX);
            (lo.saturating_sub(2), hi)
        };
        let want_lo = up(b(lo) * b(bearing as u128), b(1_000_000_000));
        let want_hi = up(b(hi) * b(bearing as u128), b(1_000_000_000));
        let ok = if o.mode == Mode::ExactOut || !fees_on_input(&s.c, o.buy) || o.mode == Mode::Partial {
            // a fee on top is rounded from the net amount: one unit
            b(fee as u128) + b(1) >= want_lo && b(fee as u128) <= want_hi + b(1)
        } else {
            b(fee as u128) >= want_lo && b(fee as u128) <= want_hi
        };
        case.ck(ok, t, || format!("fee {fee} of {bearing} after {periods} whole periods is not at a rate in {lo}..{hi}"));
        case.hit("rate against the written-out schedule");
        if periods == f.first as u64 {
            case.hit("rate after the last period");
        }
        let least = up(b(MIN_FEE as u128) * b(bearing as u128), b(1_000_000_000));
        case.ck(b(fee as u128) + b(1) >= least, t, || format!("fee {fee} of {bearing} is below the program minimum"));
        if let Some((f1, b1)) = last {
            if b1 == bearing {
                case.ck(fee <= f1, t, || format!("fee rose from {f1} to {fee} with time"));
                if fee < f1 {
                    case.hit("fee fell with time");
                }
            }
        }
        last = Some((fee, bearing));
    }
}

pub fn c06(case: &mut Case) {
    let mut st = trade_style();
    st.pr.scheduler = 94;
    st.pr.limiter = 0;
    st.pr.dynamic = 15;
    st.w = [58, 38, 2, 0, 0, 0, 0, 0, 0, 0, 2];
    st.max_ops = 16;
    let st2 = st.clone();
    run(case, &st, &mut |case, s, stage| {
        if matches!(stage, Stage::Created | Stage::Trading) && !s.complete() && s.c.dynamic.is_none() && case.t.chance(35) {
            schedule(case, s, &st2);
        }
    });
}

// ---- C07 -----------------------------------------------------------------------------------------------------

/// total fee of the published tiers, in 1e-9 units: (lower bound, upper bound)
fn tier_fee(f: &BaseFee, amount: u64) -> B {
    let x0 = f.third as u128;
    let inc = f.first as u128 * 100_000;
    let (mut sum, mut left, mut rate) = (B::ZERO, amount as u128, f.cliff as u128);
    let mut steps = 0;
    while left > 0 {
        let x = left.min(x0);
        sum += b(x) * b(rate);
        left -= x;
        rate += inc;
        steps += 1;
        if rate >= MAX_FEE as u128 {
            sum += b(left) * b(MAX_FEE as u128);
            break;
        }
        if steps > 20_000 {
            panic!("HARNESS: too many tiers");
        }
    }
    sum
}

fn limited(case: &mut Case, s: &Sim, st: &Style) {
    let t = &["C07"];
    let f = BaseFee::of(&s.c);
    if f.is_flat() || s.c.dynamic.is_some() {
        return;
    }
    let mut o = any_swap(case, s, st);
    o.sysvar = true;
    o.referral = None;
    let on = o.buy && s.limiter_on(true);
    let Some((fee, bearing)) = fee_of(s, &o) else { return };
    let flat = b(f.cliff as u128) * b(bearing as u128);
    let want = if on { tier_fee(&f, bearing) } else { flat };
    let d = b(1_000_000_000);
    // the tiers' total is rounded up, then turned into one rate that is rounded up: at most 1e-9 of the amount more
    let lo = down(want, d);
    let hi = up(want, d) + up(b(bearing as u128), d) + b(2);
    let slack = if o.mode == Mode::ExactIn { b(0) } else { up(b(bearing as u128), d) + b(2) };
    case.ck(b(fee as u128) + slack >= lo && b(fee as u128) <= hi + slack, t, || {
        format!("{o:?}: fee {fee} of {bearing} but the tiers give {lo} (limiter {})", if on { "active" } else { "inactive" })
    });
    if on && bearing > f.third {
        case.hit("more than the reference amount");
    } else if on {
        case.hit("within the reference amount");
    } else {
        case.hit("limiter does not apply");
    }
}

/// transactions with more than this one swap
fn shapes(case: &mut Case, s: &mut Sim, st: &Style) {
    let t = &["C07"];
    let mut o = any_swap(case, s, st);
    if case.t.chance(85) {
        o.buy = true;
        o.who = 0;
        if o.referral.is_some() {
            o.referral = Some(s.referral_account(&s.referrals[0].clone(), true));
        }
    }
    let pay = s.traders[o.who];
    if !o.buy && s.w.bal(&s.ba(&pay)) == 0 {
        return;
    }
    o.sysvar = !case.t.chance(12);
    let (ix, _) = s.swap_ix(&o);
    let pid = s.swaps;
    match case.t.raw(15) {
        0 => {
            // a small swap before, any direction, mode and entry point
            let mut first = any_swap(case, s, st);
            first.who = case.t.below(3);
            first.amount = first.amount.min(case.t.logu(1, 1 << 30));
            first.v1 = first.mode == Mode::ExactIn && case.t.chance(50);
            let (ix1, _) = s.swap_ix(&first);
            if s.w.clone().tx(&[ix1.clone()]).ok && s.do_swap_last(case, &[ix1], &o, &[ix], false, false).is_some() {
                case.hit("after another swap on the pool");
            }
        }
        1 => {
            // another swap later: only what comes before counts
            let mut second = any_swap(case, s, st);
            second.sysvar = true;
            let (ix2, _) = s.swap_ix(&second);
            let mut a = s.clone();
            a.abuse = 0;
            let first = a.w.tx(&[ix.clone()]);
            if !first.ok {
                return;
            }
            let on = second.buy && a.limiter_on(true) && !a.complete();
            let mut z = s.clone();
            let out = z.w.tx(&[ix.clone(), ix2.clone()]);
            if on {
                case.ck(!out.ok, t, || format!("two swaps in one transaction although the second is rate-limited ({o:?}, {second:?})"));
                case.hit("after another swap on the pool");
            } else {
                // the first is not affected; whether the second passes is its own affair
                let alone = a.w.tx(&[ix2]).ok;
                case.eq("second swap of a transaction", out.ok, alone, t);
                if out.ok {
                    case.hit("unlimited swap after another");
                }
            }
        }
        2 => {
            let top = puppet(&[ix], false);
            s.do_swap_tx(case, &o, &[top], false, o.sysvar);
            case.hit("through another program");
        }
        3 => {
            let top = puppet(&[ix], true);
            s.do_swap_tx(case, &o, &[top], false, false);
            case.hit("through two programs");
        }
        4 => {
            // two in one call of another program
            let mut first = any_swap(case, s, st);
            first.amount = first.amount.min(case.t.logu(1, 1 << 30));
            let (ix1, _) = s.swap_ix(&first);
            let mut a = s.clone();
            if !a.w.tx(&[ix1.clone()]).ok || a.complete() {
                return;
            }
            let on = o.buy && a.limiter_on(true);
            let out = s.w.clone().tx(&[puppet(&[ix1, ix], false)]);
            if on {
                case.ck(!out.ok, t, || "a rate-limited swap after another one inside the same call".into());
                case.hit("after another swap on the pool");
            }
        }
        5 => {
            // a swap through another program before it
            let mut first = any_swap(case, s, st);
            first.amount = first.amount.min(case.t.logu(1, 1 << 30));
            first.buy = case.t.chance(50);
            first.referral = None;
            let (ix1, _) = s.swap_ix(&first);
            let pre = puppet(&[ix1], false);
            if s.do_swap_last(case, &[pre], &o, &[ix], false, false).is_some() {
                case.hit("after another swap on the pool");
            }
        }
        6 => {
            // this one through another program, after a direct swap
            let mut first = any_swap(case, s, st);
            first.amount = first.amount.min(case.t.logu(1, 1 << 30));
            let (ix1, _) = s.swap_ix(&first);
            if s.do_swap_last(case, &[ix1], &o, &[puppet(&[ix], false)], false, false).is_some() {
                case.hit("after another swap on the pool");
            }
        }
        7 | 8 => {
            // a swap on the other pool before it is harmless
            let Some(sib) = &s.sib else { return };
            let Some(other) = sib_swap(s, sib) else { return };
            if s.do_swap_last(case, &[other], &o, &[ix], false, o.sysvar).is_some() {
                case.hit("after a swap on another pool");
            }
        }
        9 => {
            // other instructions of the program before it, also ones that name the pool
            let pv = s.pv();
            let b = match case.t.raw(2) {
                0 => s.claim_partner(s.partner, u64::MAX, u64::MAX),
                1 => s.claim_creator(pv.creator, u64::MAX, u64::MAX),
                _ => s.create_partner_metadata(named("unrelated", pid + 9000), &("n".into(), "w".into(), "l".into())),
            };
            if s.w.clone().tx(&[b.ix.clone()]).ok && s.do_swap_last(case, &[b.ix], &o, &[ix], false, o.sysvar).is_some() {
                case.hit("after other instructions");
            }
        }
        10 | 11 => {
            // an earlier instruction of another program: it counts when it names the pool, in any place and role
            let mut pre = puppet(&[], false);
            let mut names = vec![s.config, s.base_mint, s.quote_mint, s.base_vault, s.quote_vault, pay, DBC, pool_authority()];
            if let Some(sib) = &s.sib {
                names.extend(sib.map.get(&s.pool));
            }
            let n = if case.t.chance(60) { case.t.below(6) } else { case.t.below(64) };
            for _ in 0..n {
                let m = r(case.t.pick(&names));
                pre.metas.push(if case.t.chance(80) { m } else { r(named("bystander", case.t.below(100) as u64)) });
            }
            let named = case.t.chance(50);
            if named {
                let at = case.t.below(pre.metas.len() + 1);
                let m = if case.t.chance(70) { r(s.pool) } else { w(s.pool) };
                pre.metas.insert(at, m);
            }
            let mut all = vec![pre];
            if case.t.chance(30) {
                for _ in 0..case.t.logu(1, 12) {
                    all.insert(case.t.below(all.len() + 1), puppet(&[], false));
                }
            }
            if s.do_swap_last(case, &all, &o, &[ix], false, o.sysvar && !named).is_some() {
                case.hit(if named { "after a program that names the pool" } else { "after a program that does not name the pool" });
            }
        }
        12 | 13 => {
            // one call of another program: harmless instructions, perhaps another swap among them, and this one last
            let pv = s.pv();
            let mut pre = vec![];
            let len = if case.t.chance(70) { 4 } else { case.t.logu(4, 12) as usize };
            let swap_at = if case.t.chance(50) { case.t.below(len) } else { 99 };
            let mut a = s.clone();
            a.abuse = 0;
            let mut next_door = a.sib.as_ref().and_then(|x| sib_swap(&a, x));
            for i in 0..len {
                let x = if i == swap_at {
                    let mut first = any_swap(case, &a, st);
                    first.amount = first.amount.min(case.t.logu(1, 1 << 30));
                    first.v1 = first.mode == Mode::ExactIn && case.t.chance(50);
                    a.swap_ix(&first).0
                } else {
                    match case.t.raw(5) {
                        0 => a.claim_partner(a.partner, u64::MAX, u64::MAX).ix,
                        1 => a.claim_creator(pv.creator, u64::MAX, u64::MAX).ix,
                        2 => match next_door.take() {
                            Some(x) => x,
                            None => continue,
                        },
                        3 => puppet(&[], false),
                        _ => continue,
                    }
                };
                if !a.w.tx(&[x.clone()]).ok {
                    if i == swap_at {
                        return;
                    }
                    continue;
                }
                pre.push(x);
            }
            if a.complete() {
                return;
            }
            let on = o.buy && a.limiter_on(true);
            let other = swap_at < len;
            let alone = a.w.tx(&[puppet(&[ix.clone()], false)]).ok;
            pre.push(ix);
            let mut z = s.clone();
            let out = z.w.tx(&[puppet(&pre, false)]);
            let ok = out.ok;
            case.note(|| format!("one call of {} instructions: {}", pre.len(), if ok { "ok" } else { &out.err }));
            if on && other {
                case.ck(!ok, t, || format!("a rate-limited swap passed after another one inside the same call, {} instructions in", pre.len()));
                case.hit("after another swap on the pool");
            } else {
                case.eq("swap at the end of a call of harmless instructions", ok, alone, t);
                if ok {
                    case.eq("pool after it", z.pv(), a.pv(), t);
                    case.hit("last in a call of harmless instructions");
                }
            }
        }
        _ => {
            // far away: a swap before, several others in between
            let mut first = any_swap(case, s, st);
            first.amount = first.amount.min(case.t.logu(1, 1 << 30));
            let (ix1, _) = s.swap_ix(&first);
            let mut pre = vec![ix1];
            let n = case.t.logu(1, 12);
            for i in 0..n {
                let x = if case.t.chance(50) {
                    s.create_partner_metadata(named("unrelated", pid * 16 + i + 20_000), &("n".into(), "w".into(), "l".into())).ix
                } else {
                    puppet(&[], false)
                };
                let at = case.t.below(pre.len() + 1);
                pre.insert(at, x);
            }
            if s.do_swap_last(case, &pre, &o, &[ix], false, false).is_some() {
                case.hit("after another swap on the pool");
            }
        }
    }
}

/// a small buy on the sibling pool
fn sib_swap(s: &Sim, sib: &Sib) -> Option<Ix> {
    let o = SwapOp::new(0, Mode::ExactIn, true, 1000);
    let (mut ix, _) = s.swap_ix(&o);
    let t = s.traders[0];
    for m in ix.metas.iter_mut() {
        if let Some(k) = sib.map.get(&m.pubkey) {
            m.pubkey = *k;
        }
    }
    let prog = s.w.get(&ix.metas[7].pubkey)?.owner();
    ix.metas[11].pubkey = s.w.get(&ix.metas[8].pubkey)?.owner();
    ix.metas[10].pubkey = prog;
    ix.metas[3].pubkey = ata(&t, &ix.metas[8].pubkey, &ix.metas[11].pubkey);
    ix.metas[4].pubkey = ata(&t, &ix.metas[7].pubkey, &prog);
    if !s.w.clone().tx(&[ix.clone()]).ok {
        return None;
    }
    Some(ix)
}

pub fn c07(case: &mut Case) {
    let mut st = trade_style();
    st.pr.limiter = 93;
    st.pr.huge = 4;
    st.pr.scheduler = 30;
    st.pr.dynamic = 20;
    st.sib = 60;
    st.w = [60, 22, 2, 0, 0, 0, 0, 0, 0, 0, 4];
    st.max_ops = 18;
    let st2 = st.clone();
    run(case, &st, &mut |case, s, stage| {
        if stage != Stage::Trading || s.complete() {
            return;
        }
        if case.t.chance(30) {
            shapes(case, s, &st2);
        }
        if !s.complete() && s.p.fee_mode == 2 && case.t.chance(30) {
            limited(case, s, &st2);
        }
    });
}

// ---- C08 -----------------------------------------------------------------------------------------------------

/// many swaps on one pool, time boundaries between them
pub fn c08(case: &mut Case) {
    let mut st = trade_style();
    st.pr.dynamic = 92;
    st.pr.limiter = 10;
    st.pr.scheduler = 35;
    st.w = [62, 34, 2, 0, 0, 0, 0, 0, 0, 0, 2];
    st.max_ops = 40;
    st.go_on = 96;
    let st2 = st.clone();
    run(case, &st, &mut |case, s, stage| {
        if stage != Stage::Trading || s.complete() || !case.t.chance(12) {
            return;
        }
        // without a dynamic fee neither the history of prices nor the volatility clock matters
        let o = {
            let mut o = any_swap(case, s, &st2);
            o.referral = None;
            o
        };
        let Some((f0, b0)) = fee_of(s, &o) else { return };
        let t = &["C08"];
        match &s.c.dynamic {
            None => {
                let mut a = s.clone();
                let k = a.pool;
                let v = a.pv();
                let junk = case.t.logu128(1, 1 << 100);
                let d = a.w.accts.get_mut(&k).unwrap();
                // volatility values left by anything
                if let Some(at) = vol_offset(d.data(), &v) {
                    d.data_mut()[at..at + 16].copy_from_slice(&junk.to_le_bytes());
                    case.eq("fee of a pool without dynamic fee", fee_of(&a, &o), Some((f0, b0)), t);
                    case.hit("volatility of a pool without dynamic fee");
                }
            }
            Some(d) => {
                if BaseFee::of(&s.c).mode == 2 {
                    return;
                }
                // the rate, written out
                let base = BaseFee::of(&s.c).scheduled(s.point(), s.pv().activation_point).unwrap_or(0) as u128;
                let acc = s.pv().vol_acc;
                let x = b(acc * d.bin_step as u128);
                let var = up(x * x * b(d.var_ctrl as u128), b(100_000_000_000));
                let rate = (b(base) + var).min(b(MAX_FEE as u128));
                let want = up(rate * b(b0 as u128), b(1_000_000_000));
                let diff = if b(f0 as u128) > want { b(f0 as u128) - want } else { want - b(f0 as u128) };
                case.ck(diff <= b(if o.mode == Mode::ExactIn && fees_on_input(&s.c, o.buy) { 0 } else { 1 }), t, || {
                    format!("{o:?}: fee {f0} of {b0}, but base rate {base} plus variable rate {var} gives {want}")
                });
                if !var.is_zero() {
                    case.hit("variable fee above zero");
                }
                if rate == b(MAX_FEE as u128) {
                    case.hit("total capped");
                }
            }
        }
    });
}

/// where the accumulator is stored, or None
fn vol_offset(d: &[u8], v: &PoolView) -> Option<usize> {
    for at in (8..d.len() - 16).step_by(8) {
        let mut x = d.to_vec();
        x[at..at + 16].copy_from_slice(&0x1234_5678_9abcu128.to_le_bytes());
        if let Some(n) = PoolView::read(&x) {
            if n.vol_acc == 0x1234_5678_9abc && n.vol_ref == v.vol_ref && n.sqrt_ref == v.sqrt_ref {
                return Some(at);
            }
        }
    }
    None
}

// ---- C10 -----------------------------------------------------------------------------------------------------

/// nothing moves a completed pool
fn frozen(case: &mut Case, s: &Sim, st: &Style) {
    let t = &["C10"];
    let v = s.pv();
    for _ in 0..4 {
        let mut o = any_swap(case, s, st);
        o.mode = [Mode::ExactIn, Mode::Partial, Mode::ExactOut][case.t.below(3)];
        if case.t.chance(50) {
            o.amount = case.t.logu(1, 1 << 40);
        }
        o.v1 = o.mode == Mode::ExactIn && case.t.chance(50);
        let mut a = s.clone();
        let (ix, _) = a.swap_ix(&o);
        let ixs = if case.t.chance(20) { vec![puppet(&[ix], false)] } else { vec![ix] };
        let ok = a.w.tx(&ixs).ok;
        case.ck(!ok, t, || format!("swap on a completed pool accepted: {o:?}"));
        let n = a.pv();
        case.ck((n.sqrt_price, n.quote_reserve, n.base_reserve) == (v.sqrt_price, v.quote_reserve, v.base_reserve), t, || "a completed pool moved".into());
    }
    case.hit("swaps on a completed pool");
}

pub fn c10(case: &mut Case) {
    let mut st = trade_style();
    st.overrun = 0;
    st.complete = 92;
    st.graduate = 55;
    st.post = 75;
    st.limits = 10;
    st.pr.vesting = 50;
    st.pr.tiny = 10;
    st.max_ops = 14;
    let st2 = st.clone();
    let mut at_completion: Option<(u128, u64, u64, u64)> = None;
    run(case, &st, &mut |case, s, stage| {
        if stage == Stage::Trading && case.t.chance(5) {
            oversell(case, s);
        }
        let v = s.pv();
        if s.complete() {
            let now = (v.sqrt_price, v.quote_reserve, v.base_reserve, v.finish_time);
            match at_completion {
                None => at_completion = Some(now),
                Some(x) => {
                    // migration takes the reserves out for good; before that nothing moves
                    if v.is_migrated == 0 {
                        case.eq("price, reserves and completion time of a completed pool", now, x, &["C10"]);
                    } else {
                        case.eq("price and completion time after migration", (now.0, now.3), (x.0, x.3), &["C10"]);
                    }
                }
            }
            if case.t.chance(45) {
                frozen(case, s, &st2);
            }
            case.ck(v.quote_reserve >= s.c.threshold, &["C10"], || "a completed pool below its threshold".into());
            let _ = stage;
        } else {
            case.ck(v.progress == 0 && v.finish_time == 0, &["C10"], || format!("pool below its threshold has progress {} and completion time {}", v.progress, v.finish_time));
            if stage == Stage::Trading && case.t.chance(20) {
                around_threshold(case, s);
            }
        }
    });
}

/// buys that just reach, or just miss, the threshold
fn around_threshold(case: &mut Case, s: &Sim) {
    let mut a = s.clone();
    a.abuse = 0;
    let t0 = a.traders[0];
    let k = a.qa(&t0);
    fund(&mut a, &k);
    let full = SwapOp::new(0, Mode::Partial, true, a.w.bal(&k));
    let mut z = a.clone();
    let (ix, _) = z.swap_ix(&full);
    if !z.w.tx(&[ix]).ok {
        return;
    }
    let (paid, _) = paid_and_got(&a, &z, &full);
    if !z.complete() || paid == 0 {
        return;
    }
    for d in [0u64, 1, 2, 3] {
        let mut x = a.clone();
        let d = if d == 3 { case.t.raw(100) } else { d };
        if paid <= d {
            continue;
        }
        let o = SwapOp::new(0, if case.t.chance(50) { Mode::ExactIn } else { Mode::Partial }, true, paid - d);
        x.do_swap(case, &o);
        case.hit(if x.complete() { "just complete" } else { "just not complete" });
    }
}

// ---- C11 -----------------------------------------------------------------------------------------------------

/// a rich buyer buys everything that is left, and the pool graduates
fn buy_out(case: &mut Case, s: &Sim) {
    let t = &["C11"];
    let mut a = s.clone();
    a.abuse = 0;
    let mut o = SwapOp::new(0, Mode::Partial, true, 0);
    let t0 = a.traders[0];
    for round in 0..400 {
        if a.complete() {
            break;
        }
        let k = a.qa(&t0);
        let before = a.pv();
        if round > 0 {
            // the fees come back into circulation
            for which in 0..3 {
                let b = match which {
                    0 => a.claim_partner(a.partner, u64::MAX, u64::MAX),
                    1 => a.claim_creator(before.creator, u64::MAX, u64::MAX),
                    _ => a.claim_protocol(a.op_claim, u64::MAX, u64::MAX),
                };
                a.exec(case, &b);
            }
            // whoever has quote parts with it, the vaults aside
            let v: Vec<Pubkey> = a.w.accts.iter().filter(|(x, d)| **x != k && d.len() >= 165 && d.data()[..32] == *a.quote_mint.as_ref() && d.data()[32..64] != *pool_authority().as_ref()).map(|(x, _)| *x).collect();
            for x in v {
                set_balance(&mut a, &x, 0);
            }
        }
        fund(&mut a, &k);
        o.amount = a.w.bal(&k);
        let mut p = a.predict_swap(&a.pv(), &o, false, true, u64::MAX);
        let mut amount = o.amount;
        let first = p.as_ref().err().map(|x| x.1);
        while amount > 1 && matches!(p, Err((_, "fee cannot be computed" | "amount overflow" | "recorded amounts overflow"))) {
            // smaller steps
            amount /= 4;
            o.amount = amount;
            p = a.predict_swap(&a.pv(), &o, false, true, u64::MAX);
            case.hit("bought out in several steps");
        }
        case.note(|| format!("buying out with {}: {p:?}", o.amount));
        if (round > 0 && first == Some("recorded amounts overflow")) || matches!(p, Err((_, "recorded amounts overflow"))) || (p.is_err() && a.quote_mint == WSOL && o.amount == 0) {
            // more than 2^64 units of fees over the life of the pool: more quote than can exist at a time
            case.hit("costs more quote than can exist");
            return;
        }
        let r0 = a.pv().quote_reserve;
        let (ix, _) = a.swap_ix(&o);
        let out = a.w.tx(&[ix]);
        if !case.ck(out.ok, t, || format!("partial fill of {} with {} of {} raised was rejected: {}", o.amount, r0, a.c.threshold, out.err)) {
            return;
        }
        let n = a.pv();
        if o.amount < 100 && (a.quote_mint == WSOL || a.w.bal(&a.quote_vault) > u64::MAX - (1 << 40)) {
            // the buyer has nothing left to buy with
            case.hit("costs more quote than can exist");
            return;
        }
        case.ck(n.quote_reserve > r0 || n.sqrt_price > before.sqrt_price, t, || format!("partial fill of {} did not move the pool", o.amount));
        case.ck(n.quote_reserve >= a.c.threshold || n.sqrt_price < a.c.migration_sqrt_price, t, || format!("stuck at the migration price with {} of {}", n.quote_reserve, a.c.threshold));
    }
    if !case.ck(a.complete(), t, || format!("the curve was not completed: {} of {}", a.pv().quote_reserve, a.c.threshold)) {
        return;
    }
    let v = a.pv();
    let need = v.base_fees() + a.c.migration_base_threshold as u128 + a.c.vesting_total();
    case.ck(a.w.bal(&a.base_vault) as u128 >= need, t, || format!("base vault {} of the completed pool does not cover {need}", a.w.bal(&a.base_vault)));
    case.hit("bought out from the middle");
    finish(case, &mut a);
}

/// the whole migration path of a completed pool
pub fn finish(case: &mut Case, a: &mut Sim) {
    let t = &["C11"];
    if a.pv().is_migrated == 1 {
        return;
    }
    let plan = a.migratable();
    match plan {
        Ok(()) => {
            let ok = graduate(case, a);
            case.ck(ok, t, || "a completed pool did not graduate".into());
            case.hit("graduated");
        }
        Err(why) => {
            let ok = graduate(case, a);
            if ok {
                case.hit("graduated against expectation");
            } else {
                case.hit(&format!("cannot graduate: {why}"));
            }
        }
    }
}

pub fn c11(case: &mut Case) {
    let mut st = trade_style();
    st.complete = 90;
    st.graduate = 92;
    st.pr.vesting = 55;
    st.pr.tiny = 8;
    st.pr.out_fee = 55;
    st.max_ops = 20;
    run(case, &st, &mut |case, s, stage| {
        match stage {
            Stage::Created | Stage::Trading if !s.complete() => {
                let chance = if stage == Stage::Created { 25 } else { 8 };
                if case.t.chance(chance) {
                    buy_out(case, s);
                }
            }
            Stage::Complete => {
                let mut a = s.clone();
                a.abuse = 0;
                finish(case, &mut a);
            }
            _ => {}
        }
    });
}

// ---- C18 -----------------------------------------------------------------------------------------------------

/// what the SDK answers, copied out of its result
#[derive(Clone, Copy, Debug)]
struct Quoted {
    included_fee_input_amount: u64,
    excluded_fee_input_amount: u64,
    amount_left: u64,
    output_amount: u64,
    next_sqrt_price: u128,
    trading_fee: u64,
    protocol_fee: u64,
    referral_fee: u64,
}

#[allow(dead_code)]
enum Answer {
    Quote(Quoted),
    None,
    Panic,
    Short,
}

#[cfg(feature = "sdk")]
fn ask_sdk(pool: &[u8], config: &[u8], o: &SwapOp, now: u64, slot: u64, refd: bool, elig: bool) -> Answer {
    use dynamic_bonding_curve::state::{PoolConfig, VirtualPool};
    use dynamic_bonding_curve_sdk::{quote_exact_in::quote_exact_in, quote_exact_out::quote_exact_out, quote_partial_fill::quote_partial_fill};
    fn read_zc<T: bytemuck::AnyBitPattern>(d: &[u8]) -> Option<T> {
        let n = std::mem::size_of::<T>();
        if d.len() < 8 + n {
            return None;
        }
        Some(bytemuck::pod_read_unaligned(&d[8..8 + n]))
    }
    let (Some(pool), Some(config)) = (read_zc::<VirtualPool>(pool), read_zc::<PoolConfig>(config)) else {
        return Answer::Short;
    };
    let sell = !o.buy;
    let q = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match o.mode {
        Mode::ExactIn => quote_exact_in(&pool, &config, sell, now, slot, o.amount, refd, elig),
        Mode::Partial => quote_partial_fill(&pool, &config, sell, now, slot, o.amount, refd, elig),
        Mode::ExactOut => quote_exact_out(&pool, &config, sell, now, slot, o.amount, elig),
    }));
    match q {
        Ok(Ok(q)) => Answer::Quote(Quoted {
            included_fee_input_amount: q.included_fee_input_amount,
            excluded_fee_input_amount: q.excluded_fee_input_amount,
            amount_left: q.amount_left,
            output_amount: q.output_amount,
            next_sqrt_price: q.next_sqrt_price,
            trading_fee: q.trading_fee,
            protocol_fee: q.protocol_fee,
            referral_fee: q.referral_fee,
        }),
        Ok(Err(_)) => Answer::None,
        Err(_) => Answer::Panic,
    }
}

#[cfg(not(feature = "sdk"))]
fn ask_sdk(_: &[u8], _: &[u8], _: &SwapOp, _: u64, _: u64, _: bool, _: bool) -> Answer {
    panic!("HARNESS: built without the SDK")
}

/// the SDK's quote against the swap itself
fn quote(case: &mut Case, s: &Sim, o: &SwapOp, prefix: &[Ix], eligible: bool) {
    let t = &["C18"];
    let mut start = s.clone();
    start.abuse = 0;
    if !prefix.is_empty() && !start.w.tx(prefix).ok {
        return;
    }
    let (now, slot) = (s.now(), s.w.slot);
    let sell = !o.buy;
    let refd = o.referral.is_some();
    let elig = eligible && !refd && o.sysvar && s.c.first_swap_min_fee == 1 && start.pv().has_swap == 0;
    let q = match ask_sdk(start.w.data(&s.pool), start.w.data(&s.config), o, now, slot, refd, elig) {
        Answer::Quote(q) => Some(q),
        Answer::None => None,
        Answer::Panic => {
            case.hit("quote panicked");
            None
        }
        Answer::Short => {
            case.ck(false, t, || "pool or config account is too short".into());
            return;
        }
    };
    // the swap, with no limit and with money enough
    let mut a = s.clone();
    a.abuse = 0;
    let (input, output) = a.in_out(o);
    if o.buy && a.quote_mint != WSOL {
        fund(&mut a, &input);
    }
    let w0 = a.w.clone();
    let v0 = start.pv();
    let (ix, _) = a.swap_ix(&SwapOp { limit: if o.mode == Mode::ExactOut { u64::MAX } else { 0 }, ..o.clone() });
    let mut ixs = prefix.to_vec();
    ixs.push(ix);
    let out = a.w.tx(&ixs);
    case.note(|| format!("{o:?} eligible {elig}: quote {} chain {}", if q.is_some() { "ok" } else { "fails" }, if out.ok { "ok".to_string() } else { out.err.clone() }));
    match (&q, out.ok) {
        (None, true) => {
            case.ck(false, t, || format!("the quote fails but the swap succeeds: {o:?}"));
        }
        (None, false) => {
            case.ck(true, t, String::new);
            case.hit("both fail");
        }
        (Some(q), false) => {
            // allowed for reasons outside the quote: money, the amounts recorded, the base kept for migration
            let p = s_predict(&start, o, eligible, w0.bal(&input));
            let outside = matches!(p, Err((_, "trader cannot pay" | "recorded amounts overflow" | "not enough base left to migrate" | "one rate-limited swap per transaction")));
            case.ck(outside, t, || format!("quoted {q:?} but the swap fails: {} ({o:?})", out.err));
            case.hit("swap fails for a reason outside the quote");
        }
        (Some(q), true) => {
            let n = a.pv();
            let base_fee = fees_on_base(&s.c, o.buy);
            let (mp, mt) = if base_fee { (M_PROTO_BASE, M_TRADE_BASE) } else { (M_PROTO_QUOTE, M_TRADE_QUOTE) };
            let own = o.referral == Some(input) || o.referral == Some(output);
            if own {
                return;
            }
            let paid = w0.bal(&input) - a.w.bal(&input).min(w0.bal(&input));
            let got = a.w.bal(&output) - w0.bal(&output).min(a.w.bal(&output));
            let referral = o.referral.map(|k| a.w.bal(&k) - w0.bal(&k).min(a.w.bal(&k))).unwrap_or(0);
            let trading = n.metrics[mt].wrapping_sub(v0.metrics[mt]);
            let protocol = n.metrics[mp].wrapping_sub(v0.metrics[mp]);
            let net = if o.buy { n.quote_reserve.wrapping_sub(v0.quote_reserve) } else { n.base_reserve.wrapping_sub(v0.base_reserve) };
            case.eq("input (quote, chain)", q.included_fee_input_amount, paid, t);
            case.eq("input without fee (quote, chain)", q.excluded_fee_input_amount, net, t);
            case.eq("output (quote, chain)", q.output_amount, got, t);
            case.eq("next price (quote, chain)", q.next_sqrt_price, n.sqrt_price, t);
            case.eq("trading fee (quote, chain)", q.trading_fee, trading, t);
            case.eq("protocol and referral fee (quote, chain)", q.protocol_fee as u128 + q.referral_fee as u128, protocol as u128 + referral as u128, t);
            if o.mode != Mode::ExactOut || !refd {
                case.eq("referral fee (quote, chain)", q.referral_fee, referral, t);
            }
            let left = if o.mode == Mode::Partial { s_left(&start, o, eligible) } else { Some(0) };
            if let Some(left) = left {
                case.eq("amount left (quote, expected)", q.amount_left, left, t);
            }
            // the amounts must be consistent with what the swap was asked to do
            case.hit(match (o.mode, o.buy) {
                (Mode::ExactIn, true) => "quoted ExactIn buy",
                (Mode::ExactIn, false) => "quoted ExactIn sell",
                (Mode::Partial, true) => "quoted PartialFill buy",
                (Mode::Partial, false) => "quoted PartialFill sell",
                (Mode::ExactOut, true) => "quoted ExactOut buy",
                (Mode::ExactOut, false) => "quoted ExactOut sell",
            });
            if elig {
                case.hit("quoted first swap");
            }
        }
    }
}

fn s_predict(s: &Sim, o: &SwapOp, eligible: bool, bal: u64) -> Result<SwapRes, (&'static [&'static str], &'static str)> {
    let o = SwapOp { limit: if o.mode == Mode::ExactOut { u64::MAX } else { 0 }, ..o.clone() };
    s.predict_swap(&s.pv(), &o, eligible, o.sysvar, bal)
}
fn s_left(s: &Sim, o: &SwapOp, eligible: bool) -> Option<u64> {
    s_predict(s, o, eligible, u64::MAX).ok().map(|r| r.left)
}

pub fn c18(case: &mut Case) {
    let mut st = trade_style();
    st.pr.tiny = 8;
    st.pr.limiter = 22;
    st.pr.dynamic = 45;
    st.complete = 70;
    st.max_ops = 16;
    st.w = [62, 30, 3, 0, 0, 0, 0, 0, 1, 0, 2];
    let mut s = prepare(case, &st, 0);
    if !do_config(case, &mut s) {
        return;
    }
    s.open_base();
    let b = s.init_pool(s.first_creator);
    if case.t.chance(35) {
        // the first swap in the transaction that creates the pool
        let mut with = s.clone();
        if with.w.tx(&[b.ix.clone()]).ok {
            let mut o = any_swap(case, &with, &st);
            o.buy = true;
            if case.t.chance(70) {
                o.referral = None;
            } else if o.referral.is_some() {
                o.referral = Some(s.referral_account(&s.referrals[0], true));
            }
            quote(case, &s, &o, &[b.ix.clone()], true);
        }
    }
    if !s.exec(case, &b) || s.try_pv().is_none() {
        return;
    }
    let st2 = st.clone();
    run_from(case, &mut s, &st, &mut |case, s, stage| {
        if matches!(stage, Stage::Trading | Stage::Complete | Stage::Created) && case.t.chance(55) {
            let mut more = None;
            if stage == Stage::Trading && mintable(s) && case.t.chance(8) {
                let mut a = s.clone();
                let k = a.ba(&a.traders[case.t.below(a.traders.len())].clone());
                mint_more(case, &mut a, &k);
                more = Some(a);
                case.hit("quoted with base tokens that were not bought here");
            }
            let s = match &more {
                Some(a) => a,
                None => &*s,
            };
            for _ in 0..1 + case.t.raw(2) {
                let mut o = any_swap(case, s, &st2);
                if o.referral.is_some() {
                    o.referral = Some(s.referral_account(&s.referrals[0], o.buy));
                }
                quote(case, s, &o, &[], false);
            }
        }
    });
}

// ---- C19 -----------------------------------------------------------------------------------------------------

pub fn c19(case: &mut Case) {
    let mut st = trade_style();
    st.pr.first_min = 85;
    st.pr.scheduler = 80;
    st.pr.limiter = 25;
    st.pr.dynamic = 20;
    st.max_ops = 4;
    st.complete = 10;
    st.limits = 0;
    let mut s = prepare(case, &st, 0);
    if !do_config(case, &mut s) {
        return;
    }
    s.open_base();
    let b = s.init_pool(s.first_creator);
    let n = 1 + case.t.raw(3);
    let mut end: Option<Sim> = None;
    for _ in 0..n {
        let mut after = s.clone();
        if !after.w.tx(&[b.ix.clone()]).ok {
            break;
        }
        let mut o = any_swap(case, &after, &st);
        o.buy = true;
        o.who = 0;
        o.referral = None;
        o.sysvar = true;
        o.v1 = o.mode == Mode::ExactIn && case.t.chance(40);
        let mut a = s.clone();
        let unrelated = |a: &Sim, i: u64| a.create_partner_metadata(named("unrelated", 700 + i), &("n".into(), "w".into(), "l".into())).ix;
        let shape = case.t.raw(16);
        case.note(|| format!("first swap, shape {shape}"));
        match shape {
            0..=2 => {
                let (ix, _) = a.swap_ix(&o);
                if a.do_swap_last(case, &[b.ix.clone()], &o, &[ix], true, true) == Some(true) {
                    case.hit("true first swap");
                    end = Some(a);
                }
            }
            3 => {
                // things around it do not matter
                let mut pre = vec![b.ix.clone()];
                for i in 0..case.t.logu(1, 12) {
                    let at = case.t.below(pre.len() + 1);
                    let x = if case.t.chance(60) { unrelated(&a, 1000 + i) } else { puppet(&[], false) };
                    pre.insert(at, x);
                }
                let (ix, _) = a.swap_ix(&o);
                if a.do_swap_last(case, &pre, &o, &[ix], true, true) == Some(true) {
                    case.hit("true first swap among others");
                }
            }
            4 => {
                o.referral = Some(a.referral_account(&a.referrals[case.t.below(2)], true));
                let (ix, _) = a.swap_ix(&o);
                a.do_swap_last(case, &[b.ix.clone()], &o, &[ix], true, true);
                case.hit("first swap with referral");
            }
            5 => {
                o.sysvar = false;
                let (ix, _) = a.swap_ix(&o);
                a.do_swap_last(case, &[b.ix.clone()], &o, &[ix], true, false);
                case.hit("first swap without the sysvar");
            }
            6 => {
                // through another program
                let (ix, _) = a.swap_ix(&o);
                let twice = case.t.chance(30);
                a.do_swap_last(case, &[b.ix.clone()], &o, &[puppet(&[ix], twice)], false, !twice && !names(&b.ix, &a.pool, false));
                case.hit("first swap through another program");
            }
            7 => {
                // the pool is created through another program: an earlier instruction of another program names the pool
                let (ix, _) = a.swap_ix(&o);
                a.do_swap_last(case, &[puppet(&[b.ix.clone()], false)], &o, &[ix], false, false);
                case.hit("creation through another program");
            }
            8 => {
                // creation in an earlier transaction
                if a.w.tx(&[b.ix.clone()]).ok {
                    a.do_swap(case, &o);
                    case.hit("first swap in a later transaction");
                }
            }
            9 => {
                // a second swap in the transaction
                let mut first = SwapOp::new(0, Mode::ExactIn, true, case.t.logu(1, 1 << 30));
                first.sysvar = case.t.chance(70);
                let (ix1, _) = a.swap_ix(&first);
                let (ix, _) = a.swap_ix(&o);
                if a.do_swap_last(case, &[b.ix.clone(), ix1], &o, &[ix], true, false).is_some() {
                    case.hit("second swap");
                }
            }
            10 | 11 => {
                // only another pool is created in this transaction
                let mut other = s.clone();
                let o2 = other_pool(&mut other, 77);
                let mut x = a.clone();
                x.w = other.w.clone();
                if x.w.tx(&[b.ix.clone()]).ok {
                    let (ix, _) = x.swap_ix(&o);
                    let mut o2 = o2.clone();
                    if case.t.chance(50) {
                        // which mentions this pool among the accounts nobody looks at
                        for i in 0..1 + case.t.below(3) {
                            let k = if i == 0 { x.pool } else { named("padding", i as u64) };
                            let at = if case.t.chance(50) { o2.metas.len() } else { o2.metas.len() - i.min(1) };
                            o2.metas.insert(at, r(k));
                        }
                    }
                    if x.do_swap_last(case, &[o2], &o, &[ix], false, true).is_some() {
                        case.hit("another pool's creation");
                    }
                }
            }
            12 => {
                // both pools are created; the swap is on this one
                let mut x = a.clone();
                let o2 = other_pool(&mut x, 78);
                let (ix, _) = x.swap_ix(&o);
                let pre = if case.t.chance(50) { vec![o2, b.ix.clone()] } else { vec![b.ix.clone(), o2] };
                if x.do_swap_last(case, &pre, &o, &[ix], true, true) == Some(true) {
                    case.hit("true first swap among others");
                }
            }
            13 => {
                // a creation and a swap through another program together
                let (ix, _) = a.swap_ix(&o);
                let both = puppet(&[b.ix.clone(), ix], false);
                first_in_call(case, &mut a, &b.ix, &o, both);
            }
            14 | 15 => {
                // another instruction of this program that names the pool
                if a.w.tx(&[b.ix.clone()]).ok {
                    let strings = ("n".to_string(), "w".to_string(), "l".to_string());
                    let other = match case.t.raw(7) {
                        0 => a.claim_partner(a.partner, u64::MAX, u64::MAX).ix,
                        1 => a.claim_creator(a.first_creator, u64::MAX, u64::MAX).ix,
                        2 => a.create_pool_metadata(a.first_creator, &strings).ix,
                        3 => a.claim_creation_partner(a.partner, a.partner).ix,
                        4 => a.transfer_creator(a.first_creator, a.creators[2]).ix,
                        5 => a.claim_protocol(a.op_claim, u64::MAX, u64::MAX).ix,
                        6 => {
                            let mut c = a.create_partner_metadata(named("unrelated", 900), &strings).ix;
                            let n = 1 + case.t.below(8);
                            for _ in 0..n {
                                c.metas.push(r(a.pool));
                            }
                            c
                        }
                        _ => unrelated(&a, 2),
                    };
                    let (ix, _) = a.swap_ix(&o);
                    if a.w.clone().tx(&[other.clone()]).ok && a.do_swap_last(case, &[other], &o, &[ix], false, true).is_some() {
                        case.hit("another instruction on the pool");
                    }
                }
            }
            _ => {
                // a first swap on a pool whose later transaction pretends: an instruction of another program with the same data
                if a.w.tx(&[b.ix.clone()]).ok {
                    let mut fake = b.ix.clone();
                    fake.program = PUPPET;
                    fake.data = crate::mocks::puppet_data(&[]);
                    let (ix, _) = a.swap_ix(&o);
                    if a.do_swap_last(case, &[fake], &o, &[ix], false, false).is_some() {
                        case.hit("imitated creation");
                    }
                }
            }
        }
        if case.failed() {
            return;
        }
    }
    let mut s = match end {
        Some(e) => e,
        None => {
            if !s.exec(case, &b) || s.try_pv().is_none() {
                return;
            }
            s
        }
    };
    // and after it the normal fee
    run_from(case, &mut s, &st, &mut |_, _, _| {});
}

fn names(ix: &Ix, k: &Pubkey, _x: bool) -> bool {
    // an instruction of this program that creates the pool is no swap
    let _ = (ix, k);
    false
}

/// creation and swap inside one call: no reduced fee
fn first_in_call(case: &mut Case, a: &mut Sim, init: &Ix, o: &SwapOp, both: Ix) {
    let mut alone = a.clone();
    if !alone.w.tx(std::slice::from_ref(init)).ok {
        return;
    }
    let pv = alone.pv();
    let t = a.traders[o.who];
    let p = alone.predict_swap(&pv, o, false, true, alone.w.bal(&alone.qa(&t)));
    let mut z = a.clone();
    let out = z.w.tx(&[both]);
    if !out.ok {
        return;
    }
    case.hit("creation and swap inside another program");
    match p {
        Err(_) => {}
        Ok(r) => {
            let n = z.pv();
            let fee: u64 = n.metrics.iter().fold(0, |x, y| x.wrapping_add(*y));
            case.eq("fee of a swap inside the call that created the pool", fee, r.fee(), &["C19"]);
        }
    }
}

/// an instruction that creates another pool of the same configuration
fn other_pool(s: &mut Sim, k: u64) -> Ix {
    let mut x = s.clone();
    x.base_mint = named("other-mint", k);
    x.pool = pool_address(&x.config, &x.base_mint, &x.quote_mint);
    x.base_vault = vault_address(&x.base_mint, &x.pool);
    x.quote_vault = vault_address(&x.quote_mint, &x.pool);
    let b = x.init_pool(x.first_creator);
    s.w = x.w;
    b.ix
}
