//! Generated histories of one pool: creation, trades, claims, time, abuse, completion, graduation, final claims.

use crate::abi::*;
use crate::case::Case;
use crate::gen::*;
use crate::refmath::*;
use crate::refmodel::*;
use crate::sim::*;
use anchor_lang::prelude::Pubkey;

#[derive(Clone)]
pub struct Style {
    pub pr: Profile,
    /// swap, time, partner/creator/protocol claims, zap, creation fee, transfer, metadata, premature, donation, impostor, odd shapes
    pub w: [u32; 11],
    /// chance in percent to go on after each operation before completion
    pub go_on: u64,
    pub max_ops: usize,
    /// chance of completing the curve at the end
    pub complete: u64,
    /// chance of graduating a completed pool
    pub graduate: u64,
    /// chance of a first swap bundled with the pool's creation
    pub bundle: u64,
    /// the partner is also the creator
    pub same: u64,
    /// chance of tried creations that must fail
    pub wrong: u64,
    /// chance of a completed pool that holds a real surplus
    pub overrun: u64,
    pub referral: u64,
    pub limits: u64,
    /// chance of another pool in the same world
    pub sib: u64,
    /// chance of trying an instruction with substituted accounts first
    pub abuse: u64,
    /// chance to go on after each operation after completion, and at most how many
    pub post: u64,
    pub max_post: usize,
}

impl Default for Style {
    fn default() -> Self {
        Style {
            pr: Profile::default(),
            w: [60, 12, 9, 3, 3, 3, 2, 4, 2, 4, 3],
            go_on: 93,
            max_ops: 40,
            complete: 70,
            graduate: 90,
            bundle: 12,
            same: 8,
            wrong: 6,
            overrun: 15,
            referral: 35,
            limits: 35,
            sib: 0,
            abuse: 0,
            post: 60,
            max_post: 8,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Stage {
    Created,
    /// between operations before completion
    Trading,
    Complete,
    /// between operations after completion
    Post,
    Migrated,
    End,
}

pub type Hook<'a> = &'a mut dyn FnMut(&mut Case, &mut Sim, Stage);

pub fn quote_mint(case: &mut Case, pr: &Profile) -> QuoteMint {
    let t = &mut case.t;
    if t.chance(pr.t22_quote) {
        // a quarter of them with metadata
        QuoteMint { key: named("quote-t22", t.chance(25) as u64), spl: false, plain: true }
    } else if t.chance(pr.wsol) {
        QuoteMint { key: WSOL, spl: true, plain: true }
    } else if t.chance(15) {
        QuoteMint { key: USDC, spl: true, plain: true }
    } else {
        QuoteMint { key: named("quote-spl", t.chance(25) as u64), spl: true, plain: true }
    }
}

/// a simulation with generated parameters, before anything is created
pub fn prepare(case: &mut Case, st: &Style, id: u64) -> Sim {
    let q = quote_mint(case, &st.pr);
    let (mut p, mut c) = params(&mut case.t, &st.pr, &q);
    if case.t.chance(5) {
        // one with a value at the edge of the rules
        let mut x = p.clone();
        let mut leftover = leftover_key();
        let what = crate::vary::mutate(case, &mut x, &mut leftover, &q);
        // the kind of configuration stays the one the check asked for
        let kind = |p: &Params| {
            let flags = [p.dynamic.is_some(), p.supply.is_some(), p.first_swap_min_fee, p.creation_fee > 0, p.creator_fee_pct > 0, p.migration_fee_pct > 0, p.first > 0];
            (p.fee_mode, p.collect_fee_mode, p.migration_option, p.token_type, p.activation_type, p.migration_fee_option, flags, p.vesting == Vesting::default())
        };
        if leftover == leftover_key() && kind(&x) == kind(&p) {
            if let Ok(d) = derive(&x, &q, partner_key(), leftover) {
                if initial_supply(&d).is_some() {
                    (p, c) = (x, d);
                    case.note(|| format!("changed: {what}"));
                    case.hit("a configuration at the edge of the rules");
                }
            }
        }
    }
    prepare_with(case, st, id, p, c, q)
}

pub fn prepare_with(case: &mut Case, st: &Style, id: u64, p: Params, c: ConfigView, q: QuoteMint) -> Sim {
    let mut s = Sim::new(base_world(), id, p, c, q);
    s.abuse = st.abuse;
    if case.t.chance(st.same) {
        s.creators[0] = s.partner;
        s.first_creator = s.partner;
        case.hit("partner is the creator");
    }
    if case.t.chance(10) {
        // a clock elsewhere
        s.w.slot = case.t.logu(1, 1 << 40);
        s.w.time = case.t.range(1_600_000_000, 1 << 40) as i64;
    }
    if case.t.chance(10) {
        s.old = more_points(case, &s);
        if s.old.is_some() {
            case.hit("an old configuration with more than 16 curve points");
        }
    }
    case.note(|| describe(&s));
    s
}

/// the same curve with some segments split, up to the 20 points earlier program versions allowed
fn more_points(case: &mut Case, s: &Sim) -> Option<Box<(Params, ConfigView)>> {
    let mut p = s.p.clone();
    let n = case.t.range(17, 20) as usize;
    for _ in 0..60 {
        if p.curve.len() == n {
            let c = derive_old(&p, &s.q, s.c.fee_claimer, s.c.leftover_receiver).ok()?;
            return Some(Box::new((p, c)));
        }
        let i = case.t.below(p.curve.len());
        let lo = if i == 0 { p.sqrt_start } else { p.curve[i - 1].0 };
        let (hi, l) = p.curve[i];
        if hi - lo < 3 {
            continue;
        }
        let x = lo + 1 + case.t.u128_below(hi - lo - 2);
        p.curve.insert(i, (x, l));
    }
    None
}

pub fn describe(s: &Sim) -> String {
    let p = &s.p;
    format!(
        "config: quote={} token_type={} decimals={} activation={} fee(mode={} cliff={} first={} second={} third={}) dynamic={:?} collect={} creator_fee={}% migration(option={} fee_option={} fee={}% creator {}%) liquidity(partner {}+{} locked +{:?}, creator {}+{} locked +{:?}) threshold={} start={} curve={:?} vesting={:?} supply={:?} authority={} creation_fee={} first_min={} pool(fee {} collect {} dyn {} mode {} compounding {}) derived(swap_base={} migration_base={} migration_price={}) supply {}",
        if s.q.key == WSOL { "WSOL" } else if s.q.key == USDC { "USDC" } else if s.q.spl { "SPL" } else { "T22" },
        p.token_type, p.token_decimal, p.activation_type, p.fee_mode, p.cliff_fee, p.first, p.second, p.third, p.dynamic, p.collect_fee_mode,
        p.creator_fee_pct, p.migration_option, p.migration_fee_option, p.migration_fee_pct, p.creator_migration_fee_pct,
        p.partner_liq, p.partner_locked, p.partner_vest, p.creator_liq, p.creator_locked, p.creator_vest,
        p.threshold, p.sqrt_start, p.curve, p.vesting, p.supply, p.token_authority, p.creation_fee, p.first_swap_min_fee,
        p.mp_fee_bps, p.mp_collect, p.mp_dynamic, p.mp_base_mode, p.compounding_bps,
        s.c.swap_base_amount, s.c.migration_base_threshold, s.c.migration_sqrt_price, s.initial_supply,
    )
}

pub fn do_config(case: &mut Case, s: &mut Sim) -> bool {
    if case.t.chance(15) {
        near_miss(case, s);
    }
    let b = s.create_config();
    if !s.exec(case, &b) {
        return false;
    }
    check_config(case, s);
    if s.old.is_some() {
        s.age_config();
        case.note(|| describe(s));
    }
    true
}

/// the properties that a configuration refused for this reason would break
pub fn at_stake(why: &str) -> &'static [&'static str] {
    match why {
        "end fee below minimum" | "scheduler half set" | "scheduler goes below zero" | "base fee mode" => &["C06"],
        "cliff fee above maximum" | "end fee above maximum" => &["C05", "C06"],
        "limiter cliff" => &["C05", "C07"],
        "limiter needs quote collection" | "limiter half set" | "limiter duration" | "limiter increment" | "limiter max fee" => &["C07"],
        "bin step" | "bin step u128" | "filter/decay" | "reduction factor" | "24-bit bounds" => &["C08"],
        "creator fee share" => &["C05", "C12", "C21"],
        "locked liquidity" | "locked bps" => &["C11", "C14", "C15"],
        "swap base overflow" | "migration base overflow" | "price" | "migration option" | "migration fee option" => &["C11"],
        "activation type" => &["C06", "C07"],
        "collect fee mode" => &["C05"],
        "token type" => &["C11", "C17"],
        "migrated pool parameters with a fixed fee option" => &["C15"],
        "migration fee" | "creator migration fee" | "creator migration fee without fee" => &["C21"],
        "quote mint" => &["C01", "C04", "C11"],
        "DAMM v1 needs an SPL token" | "DAMM v1 needs an SPL quote mint" | "DAMM v1 has no custom fee" | "DAMM v1 has no liquidity vesting" | "DAMM v1 has no migrated pool parameters" => &["C11", "C14"],
        "migrated pool fee" | "migrated pool collect mode" | "compounding fee" | "compounding fee without compounding" | "migrated pool dynamic fee" | "migrated pool base fee mode"
        | "market cap scheduler" | "market cap scheduler below zero" | "market cap scheduler below minimum" | "market cap scheduler values without it" => &["C11", "C15"],
        "compounding liquidity" | "compounding price" | "compounding liquidity too small" | "compounding price moved" => &["C11", "C15"],
        "token authority" | "decimals" => &["C17"],
        "liquidity shares" => &["C11", "C14", "C15"],
        "threshold" => &["C10", "C11"],
        "vesting overflow" | "vesting" => &["C11", "C16"],
        "creation fee" => &["C20"],
        "start price" | "curve length" | "curve order" | "curve end" | "curve cannot raise the threshold" | "migration price at the limit" | "no base" => &["C03", "C10", "C11"],
        "leftover receiver" => &["C21"],
        "supply" | "supply overflow" | "swap buffer overflow" => &["C11", "C17", "C21"],
        x if x.starts_with("liquidity vesting") => &["C11", "C15"],
        _ => &[],
    }
}

/// a configuration next to the one of this case, which the rules refuse for a reason that matters here (on a copy)
fn near_miss(case: &mut Case, s: &Sim) {
    for _ in 0..8 {
        let mut p = s.p.clone();
        let mut q = s.q.clone();
        let mut leftover = s.leftover;
        let mut odd = None;
        let what = if case.t.chance(6) {
            let (x, owner, d) = crate::vary::odd_quote(case);
            odd = Some((x.key, owner, d));
            q = x;
            "quote mint"
        } else {
            crate::vary::mutate(case, &mut p, &mut leftover, &q)
        };
        let Err(why) = derive(&p, &q, s.c.fee_claimer, leftover) else { continue };
        let tags = at_stake(why);
        if !case.mine(tags) {
            continue;
        }
        let mut t = s.clone();
        if let Some((k, owner, d)) = odd {
            t.w.put(k, crate::world::rent_min(d.len()), &owner, &d);
        }
        t.p = p;
        t.quote_mint = q.key;
        t.q = q;
        t.leftover = leftover;
        t.abuse = 0;
        let mut b = t.create_config();
        b.tags.extend(tags);
        b.expect = Expect::Reject(why);
        case.note(|| format!("a configuration that must be refused ({why}), changed: {what}"));
        t.exec(case, &b);
        case.hit("a configuration just outside the rules refused");
        return;
    }
}

pub fn check_config(case: &mut Case, s: &Sim) {
    match ConfigView::read(s.w.data(&s.config)) {
        None => {
            case.ck(false, &["C09", "C23"], || "config account cannot be read".into());
        }
        Some(v) => {
            if v != s.c {
                let (a, b) = (format!("{v:?}"), format!("{:?}", s.c));
                let at = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(0);
                let lo = at.saturating_sub(60);
                case.ck(false, &["C09", "C23"], || {
                    format!("stored config differs from the request: ...{}... expected ...{}...", &a[lo..(at + 60).min(a.len())], &b[lo..(at + 60).min(b.len())])
                });
            } else {
                case.ck(true, &["C09", "C23"], String::new);
            }
        }
    }
}

/// the freshly created token
pub fn check_token(case: &mut Case, s: &Sim) {
    use crate::mocks::Metadata;
    let t = &["C17"];
    let d = s.w.data(&s.base_mint).to_vec();
    if d.len() < 82 {
        case.ck(false, t, || "no base mint".into());
        return;
    }
    let key = |x: &[u8]| Pubkey::try_from(x).unwrap();
    let option = |x: &[u8]| if x[..4] == [1, 0, 0, 0] { Some(key(&x[4..36])) } else { None };
    let mint_authority = option(&d[0..36]);
    let freeze = option(&d[46..82]);
    let creator = s.pv().creator;
    let want = match s.p.token_authority {
        3 => Some(creator),
        4 => Some(s.partner),
        _ => None,
    };
    case.eq("mint authority", mint_authority, want, t);
    case.eq("freeze authority", freeze, None, t);
    case.eq("decimals", d[44], s.p.token_decimal, t);
    case.eq("supply", s.w.supply(&s.base_mint), s.initial_supply, t);
    case.eq("base vault", s.w.bal(&s.base_vault), s.initial_supply, t);
    case.eq("mint program", s.w.get(&s.base_mint).map(|a| a.owner()), Some(s.base_prog), t);
    case.hit(&format!("token authority option {}", s.p.token_authority));
    let update = match s.p.token_authority {
        0 | 3 => Some(creator),
        2 | 4 => Some(s.partner),
        _ => None,
    };
    if s.c.token_type == 0 {
        match Metadata::read(s.w.data(&metadata_address(&s.base_mint))) {
            None => {
                case.ck(false, t, || "no token metadata".into());
            }
            Some(m) => {
                case.eq("metadata mint", m.mint, s.base_mint, t);
                case.eq("metadata mutable", m.mutable, update.is_some(), t);
                if let Some(u) = update {
                    case.eq("metadata update authority", m.update_authority, u, t);
                } else {
                    case.ck(m.update_authority != creator && m.update_authority != s.partner || !m.mutable, t, || "immutable metadata has an authority".into());
                }
                let text = (m.name.clone(), m.symbol.clone(), m.uri.clone());
                case.eq("metadata text", text, s.name.clone(), &["C17", "C23"]);
                case.eq("seller fee", m.seller_fee, 0, t);
            }
        }
    } else {
        use spl_token_2022::extension::metadata_pointer::MetadataPointer;
        use spl_token_2022::extension::{BaseStateWithExtensions, ExtensionType, StateWithExtensions};
        use spl_token_2022::state::Mint;
        match StateWithExtensions::<Mint>::unpack(&d) {
            Err(e) => {
                case.ck(false, t, || format!("base mint cannot be read: {e}"));
            }
            Ok(m) => {
                let mut kinds = m.get_extension_types().unwrap_or_default();
                kinds.sort_by_key(|k| *k as u16);
                case.eq("mint extensions", kinds, vec![ExtensionType::MetadataPointer, ExtensionType::TokenMetadata], t);
                if let Ok(p) = m.get_extension::<MetadataPointer>() {
                    case.eq("metadata pointer", Option::<Pubkey>::from(p.metadata_address), Some(s.base_mint), t);
                    case.eq("metadata pointer authority", Option::<Pubkey>::from(p.authority), update, t);
                }
                // token metadata: update authority 32, mint 32, name, symbol, uri
                if let Ok(raw) = m.get_extension_bytes::<TokenMetadataBytes>() {
                    let mut x = R(raw);
                    let ua = x.key();
                    let mint = x.key();
                    let text = (x.str(), x.str(), x.str());
                    case.eq("metadata update authority", ua, update.unwrap_or_default(), t);
                    case.eq("metadata mint", mint, s.base_mint, t);
                    case.eq("metadata text", text, s.name.clone(), &["C17", "C23"]);
                }
            }
        }
    }
}

struct TokenMetadataBytes;
impl spl_token_2022::extension::Extension for TokenMetadataBytes {
    const TYPE: spl_token_2022::extension::ExtensionType = spl_token_2022::extension::ExtensionType::TokenMetadata;
}

/// creates the configuration and the pool; false: the case cannot go on
pub fn create(case: &mut Case, s: &mut Sim, st: &Style) -> bool {
    if !do_config(case, s) {
        return false;
    }
    if case.t.chance(25) {
        let n = |case: &mut Case, max: u64| {
            let k = case.t.raw(max) as usize;
            "abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ".chars().cycle().take(k).collect::<String>()
        };
        s.name = (n(case, 32), n(case, 10), n(case, 200));
    }
    create_pool(case, s, st)
}

/// ways in which a pool must not come into being (on copies)
pub fn wrong_creations(case: &mut Case, s: &Sim) {
    let mut a = s.clone();
    a.abuse = 0;
    if case.t.chance(40) {
        // with the other token program
        let mut b = a.init_pool_as(a.first_creator, 1 - a.c.token_type);
        b.tags.extend(["C09", "C13"]);
        a.exec(case, &b);
        case.hit("creation with the other token program");
        return;
    }
    // under a configuration of an earlier version that does not satisfy today's rules
    let k = a.config;
    let d = a.w.accts.get_mut(&k).unwrap().data_mut();
    let none = a.c.partner_vest.1.pct == 0 && a.c.creator_vest.1.pct == 0;
    let ok = if none && case.t.chance(60) {
        let n = [0, 9, 10, 11][case.t.below(4)];
        let mine = case.t.range(0, n) as u8;
        let rest = 100 - n as u8;
        // locked and unlocked shares of partner and creator
        d[LOCKED_AT..LOCKED_AT + 4].copy_from_slice(&[mine, rest / 2, n as u8 - mine, rest - rest / 2]);
        case.note(|| format!("an old configuration with {n} percent locked"));
        n >= 10
    } else {
        let fee = case.t.skew(0, 2_499_999);
        d[CLIFF_FEE_AT..CLIFF_FEE_AT + 8].copy_from_slice(&fee.to_le_bytes());
        case.note(|| format!("an old configuration with a cliff fee of {fee}"));
        false
    };
    let mut b = a.init_pool(a.first_creator);
    if !ok {
        b.expect = Expect::Reject("the configuration breaks today's rules");
    }
    b.tags.extend(["C09", "C06"]);
    a.exec(case, &b);
    case.hit(if ok { "creation under an acceptable old configuration" } else { "creation under an unacceptable old configuration" });
}

pub fn create_pool(case: &mut Case, s: &mut Sim, st: &Style) -> bool {
    s.open_base();
    if case.t.chance(st.wrong) {
        wrong_creations(case, s);
    }
    let b = s.init_pool(s.first_creator);
    let bundle = case.t.chance(st.bundle);
    s.donated.1 += s.wrapped_gift();
    let start = s.clone();
    if !s.exec(case, &b) {
        return false;
    }
    if s.try_pv().is_none() {
        case.ck(false, &b.tags, || "no pool account after creation".into());
        return false;
    }
    check_token(case, s);
    if bundle {
        let o = random_swap(case, s, st);
        let mut o = o;
        o.buy = true;
        if o.referral.is_some() {
            o.referral = if case.t.chance(40) { Some(s.referral_account(&s.referrals[0], true)) } else { None };
        }
        o.limit = if o.mode == Mode::ExactOut { u64::MAX } else { 0 };
        let mut s2 = start;
        let (ix, _) = s2.swap_ix(&o);
        let name = s2.name.clone();
        let _ = name;
        let eligible = true;
        let single = o.sysvar;
        match s2.do_swap_last(case, &[b.ix.clone()], &o, &[ix], eligible, single) {
            None => return false,
            Some(true) => {
                case.hit("first swap bundled with creation");
                *s = s2;
            }
            Some(false) => {}
        }
    }
    if case.t.chance(10) {
        let bps = if case.t.chance(60) { 0 } else { case.t.range(1, 200) as u16 };
        s.age_pool(bps);
        case.note(|| format!("the pool is one of an earlier version: {bps} basis points of its liquidity go to the protocol"));
        case.hit("a pool of an earlier version");
    }
    true
}

fn log_amount(case: &mut Case, max: u64) -> u64 {
    case.t.logu(1, max.max(1))
}

/// quote (fee included) needed to move the price from where it is to `to`, roughly
fn gross_up(s: &Sim, pv: &PoolView, net: u64, buy: bool) -> u64 {
    if fees_on_input(&s.c, buy) {
        let r = Rates::new(&s.c, pv, s.point(), buy, false);
        r.excluded(net).and_then(|rt| add_fee(net, rt)).map(|x| x.0).unwrap_or(net)
    } else {
        net
    }
}

pub fn swap_amount(case: &mut Case, s: &Sim, who: usize, buy: bool, mode: Mode) -> u64 {
    let pv = s.pv();
    let t = s.traders[who];
    let (qb, bb) = (s.w.bal(&s.qa(&t)), s.w.bal(&s.ba(&t)));
    let remaining = s.c.threshold.saturating_sub(pv.quote_reserve).max(1);
    let jitter = |case: &mut Case, x: u64| match case.t.raw(4) {
        0 => x,
        1 => x.saturating_sub(1),
        2 => x.saturating_add(1),
        3 => x.saturating_sub(case.t.raw(5)),
        _ => x.saturating_add(case.t.raw(5)),
    };
    let segs = pieces(&s.c);
    // quote and base up to the next boundary in the direction of the trade
    let next = if buy { segs.iter().find(|x| x.1 > pv.sqrt_price) } else { segs.iter().rev().find(|x| x.0 < pv.sqrt_price) };
    let (dq, db) = match next {
        None => (1, 1),
        Some(&(lo, hi, l)) => {
            let (x, y) = if buy { (pv.sqrt_price.max(lo), hi) } else { (lo, pv.sqrt_price.min(hi)) };
            (to_u64(quote_between(l, x, y, buy)).unwrap_or(u64::MAX), to_u64(base_between(l, x, y, !buy)).unwrap_or(u64::MAX))
        }
    };
    let limiter = s.p.fee_mode == 2 && s.p.third > 0 && buy && mode != Mode::ExactOut;
    if limiter && case.t.chance(55) {
        let r = s.p.third;
        let f = BaseFee::of(&s.c);
        let k = match case.t.raw(4) {
            0 => 1,
            1 => 2,
            2 => f.max_index().saturating_add(1),
            3 => case.t.range(1, 40),
            _ => case.t.logu(1, 5000),
        };
        let x = (r as u128 * k as u128).min(u64::MAX as u128) as u64;
        return match case.t.raw(3) {
            0 => jitter(case, x),
            1 => x.saturating_add(case.t.raw(r)),
            2 => x,
            _ => case.t.range(1, r),
        }
        .max(1);
    }
    match (mode, buy) {
        (Mode::ExactIn | Mode::Partial, true) => match case.t.weighted(&[26, 12, 14, 8, 14, 6, 14, 6]) {
            0 => gross_up(s, &pv, (remaining / case.t.range(1, 60)).max(1), true),
            1 => log_amount(case, qb),
            2 => {
                let x = gross_up(s, &pv, remaining, true);
                jitter(case, x)
            }
            3 => case.t.range(1, 30),
            4 => {
                let x = gross_up(s, &pv, dq.max(1), true);
                jitter(case, x)
            }
            5 => qb,
            6 => gross_up(s, &pv, (remaining as u128 * case.t.range(1, 999) as u128 / 1000).max(1) as u64, true),
            _ => case.t.raw(u64::MAX),
        },
        (Mode::ExactIn | Mode::Partial, false) => match case.t.weighted(&[40, 15, 20, 8, 14, 3]) {
            0 => (bb as u128 * case.t.range(1, 1000) as u128 / 1000) as u64,
            1 => log_amount(case, bb),
            2 => bb,
            3 => case.t.range(1, 30),
            4 => {
                let x = gross_up(s, &pv, db.max(1), false);
                jitter(case, x)
            }
            _ => case.t.raw(u64::MAX),
        },
        (Mode::ExactOut, true) => {
            let max = max_base(s, &pv);
            match case.t.weighted(&[40, 15, 20, 10, 12, 3]) {
                0 => (max as u128 * case.t.range(1, 1000) as u128 / 1000) as u64,
                1 => log_amount(case, max),
                2 => jitter(case, db),
                3 => case.t.range(1, 30),
                4 => jitter(case, max),
                _ => case.t.raw(u64::MAX),
            }
        }
        (Mode::ExactOut, false) => {
            let max = pv.quote_reserve;
            match case.t.weighted(&[40, 15, 20, 10, 12, 3]) {
                0 => (max as u128 * case.t.range(1, 1000) as u128 / 1000) as u64,
                1 => log_amount(case, max),
                2 => jitter(case, dq),
                3 => case.t.range(1, 30),
                4 => jitter(case, max),
                _ => case.t.raw(u64::MAX),
            }
        }
    }
}

fn max_base(s: &Sim, pv: &PoolView) -> u64 {
    let mut sum = B::ZERO;
    for (lo, hi, l) in pieces(&s.c) {
        let (lo, hi) = (lo.max(pv.sqrt_price), hi.min(s.c.migration_sqrt_price));
        if hi > lo {
            sum += base_between(l, lo, hi, false);
        }
    }
    to_u64(sum).unwrap_or(u64::MAX)
}

pub fn random_swap(case: &mut Case, s: &Sim, st: &Style) -> SwapOp {
    let pv = s.pv();
    let holders: Vec<usize> = (0..3).filter(|i| s.w.bal(&s.ba(&s.traders[*i])) > 0).collect();
    let buy = if holders.is_empty() {
        !case.t.chance(4)
    } else {
        // sells get likelier as the pool fills
        let pct = if pv.quote_reserve as u128 * 3 > s.c.threshold as u128 * 2 { 55 } else { 35 };
        !case.t.chance(pct)
    };
    let mut mode = [Mode::ExactIn, Mode::Partial, Mode::ExactOut][case.t.weighted(&[42, 28, 30])];
    // clients of these releases know one mode
    let early = s.w.release.is_some_and(|r| r.before("0.1.6"));
    if early && case.t.chance(70) {
        mode = Mode::ExactIn;
    }
    let who = if buy || holders.is_empty() { case.t.weighted(&[60, 25, 15]) } else { holders[case.t.below(holders.len())] };
    let amount = swap_amount(case, s, who, buy, mode);
    let mut o = SwapOp::new(who, mode, buy, amount);
    o.v1 = mode == Mode::ExactIn && (early || case.t.chance(35));
    if case.t.chance(st.referral) {
        let owner = if case.t.chance(10) { s.traders[who] } else { s.referrals[case.t.below(2)] };
        o.referral = Some(s.referral_account(&owner, buy));
    }
    if case.t.chance(8) {
        o.sysvar = false;
    }
    if case.t.chance(6) {
        o.to = Some(case.t.below(3));
    }
    if case.t.chance(st.limits) {
        // around the exact result
        let r = s.predict_swap(&pv, &o, false, o.sysvar, u64::MAX);
        let x = match &r {
            Ok(r) if mode == Mode::ExactOut => r.included_in,
            Ok(r) => r.output,
            Err(_) => 0,
        };
        o.limit = match case.t.raw(5) {
            0 | 1 => x,
            2 => x.saturating_add(1),
            3 => x.saturating_sub(1),
            4 => case.t.logu(1, u64::MAX),
            _ => (x as u128 * case.t.range(900, 1100) as u128 / 1000).min(u64::MAX as u128) as u64,
        };
    }
    if case.t.chance(1) {
        o.amount = 0;
    }
    o
}

/// moves the clock, often to a boundary that matters to the configuration
pub fn pass_time(case: &mut Case, s: &mut Sim) {
    let pv = s.pv();
    let near = |case: &mut Case, x: u64| match case.t.raw(3) {
        0 => x,
        1 => x.saturating_sub(1),
        2 => x.saturating_add(1),
        _ => x.saturating_add(case.t.raw(4)),
    };
    match case.t.weighted(&[20, 25, 35, 10, 10]) {
        0 => {
            let a = case.t.raw(5);
            let c = case.t.raw(5);
            s.advance(a, c);
        }
        1 => {
            // volatility periods
            let d = s.p.dynamic.clone().unwrap_or_default();
            let period = match case.t.raw(2) {
                0 => d.filter_period as u64,
                1 => d.decay_period as u64,
                _ => case.t.range(0, d.decay_period.max(1) as u64 * 2),
            };
            let target = near(case, pv.last_update.saturating_add(period));
            let dt = target.saturating_sub(s.now());
            let ds = case.t.raw(2) * dt;
            s.advance(ds, dt);
        }
        2 => {
            // fee schedule
            let b = BaseFee::of(&s.c);
            let at = if b.mode < 2 {
                let k = match case.t.raw(3) {
                    0 => 1,
                    1 => s.p.first as u64,
                    2 => s.p.first as u64 + 1,
                    _ => case.t.range(1, s.p.first.max(1) as u64 + 2),
                };
                pv.activation_point.saturating_add(k.saturating_mul(s.p.second))
            } else {
                pv.activation_point.saturating_add(if case.t.chance(40) { s.p.second } else { case.t.range(0, s.p.second) })
            };
            let target = near(case, at);
            let dt = target.saturating_sub(s.point()).min(1 << 50);
            if s.c.activation_type == 0 {
                let x = case.t.raw(2) * (dt / 2);
                s.advance(dt, x);
            } else {
                let x = case.t.raw(2) * dt;
                s.advance(x, dt);
            }
        }
        3 => {
            let a = case.t.logu(1, 1 << 30);
            let c = case.t.logu(1, 1 << 30);
            s.advance(a, c);
        }
        _ => {
            let a = case.t.raw(1000);
            s.advance(a * 2, a);
        }
    }
    case.note(|| format!("clock: slot {} time {}", s.w.slot, s.w.time));
}

fn some_max(case: &mut Case, have: u64) -> u64 {
    match case.t.raw(6) {
        0..=2 => u64::MAX,
        3 => have,
        4 => have.saturating_sub(1),
        5 => {
            if have > 0 {
                case.t.range(0, have)
            } else {
                0
            }
        }
        _ => case.t.logu(1, u64::MAX),
    }
}

/// now and then a claim is paid to somebody else's accounts
fn direct(case: &mut Case, s: &mut Sim) {
    if case.t.chance(8) {
        let to = anyone(case, s);
        s.payee = Some(to);
        case.hit("claim directed elsewhere");
    }
}

pub fn claim(case: &mut Case, s: &mut Sim, which: usize) {
    if which < 2 {
        direct(case, s);
    }
    pay(case, s, which);
    s.payee = None;
}

fn pay(case: &mut Case, s: &mut Sim, which: usize) {
    let pv = s.pv();
    match which {
        0 => {
            let (x, y) = (some_max(case, pv.partner_base_fee), some_max(case, pv.partner_quote_fee));
            let b = s.claim_partner(s.partner, x, y);
            s.exec(case, &b);
        }
        1 => {
            let (x, y) = (some_max(case, pv.creator_base_fee), some_max(case, pv.creator_quote_fee));
            let b = s.claim_creator(pv.creator, x, y);
            s.exec(case, &b);
        }
        _ => {
            let (x, y) = (some_max(case, pv.protocol_base_fee), some_max(case, pv.protocol_quote_fee));
            let op = if case.t.chance(30) { s.op_both } else { s.op_claim };
            let b = s.claim_protocol(op, x, y);
            s.exec(case, &b);
        }
    }
}

pub fn zap(case: &mut Case, s: &mut Sim) {
    let pv = s.pv();
    let base = case.t.chance(50);
    let have = if base { pv.protocol_base_fee } else { pv.protocol_quote_fee };
    let max = some_max(case, have);
    let op = if case.t.chance(30) { s.op_both } else { s.op_zap };
    s.do_zap(case, op, base, max);
}

pub fn creation_claim(case: &mut Case, s: &mut Sim) {
    if case.t.chance(50) {
        let to = if case.t.chance(50) { s.partner } else { named("somebody", 0) };
        let b = s.claim_creation_partner(s.partner, to);
        s.exec(case, &b);
    } else {
        let b = s.claim_creation_protocol(s.op_claim, TREASURY);
        s.exec(case, &b);
    }
}

pub fn transfer(case: &mut Case, s: &mut Sim) {
    let cur = s.pv().creator;
    let to = match case.t.raw(5) {
        0 => cur,
        1 => s.partner,
        2 => s.traders[1],
        _ => s.creators[case.t.below(3)],
    };
    if s.w.get(&s.qa(&to)).is_none() {
        s.open(&to, true, 0);
        s.open(&to, false, 0);
    }
    let b = s.transfer_creator(cur, to);
    if s.exec(case, &b) {
        case.hit("creator changed");
    }
}

pub fn metadata(case: &mut Case, s: &mut Sim) {
    let n = |case: &mut Case| "metadata".repeat(3)[..case.t.raw(24) as usize].to_string();
    let x = (n(case), n(case), n(case));
    if case.t.chance(50) {
        let who = s.pv().creator;
        let b = s.create_pool_metadata(who, &x);
        let k = s.pool_metadata_address();
        if s.exec(case, &b) && matches!(b.expect, Expect::Ok(_)) {
            let want = Sim::metadata_body(&s.pool, "VirtualPoolMetadata", &x);
            let d = s.w.data(&k);
            case.ck(d.len() >= want.len() && d[..40] == want[..40] && d[136..want.len()] == want[136..], &["C23"], || "pool metadata differs from the request".into());
        }
    } else {
        let who = if case.t.chance(70) { s.partner } else { s.traders[case.t.below(3)] };
        let b = s.create_partner_metadata(who, &x);
        let k = s.partner_metadata_address(&who);
        if s.exec(case, &b) && matches!(b.expect, Expect::Ok(_)) {
            let want = Sim::metadata_body(&who, "PartnerMetadata", &x);
            let d = s.w.data(&k);
            case.ck(d.len() >= want.len() && d[..40] == want[..40] && d[136..want.len()] == want[136..], &["C23"], || "partner metadata differs from the request".into());
        }
    }
}

/// things that must not be possible yet (or any more), and harmless ones
pub fn premature(case: &mut Case, s: &mut Sim) {
    let pv = s.pv();
    match case.t.raw(9) {
        9 => {
            // kept for old clients: does nothing
            let b = s.v2_create_metadata();
            s.exec(case, &b);
        }
        0 => {
            let b = s.withdraw_surplus(false, s.partner);
            s.exec(case, &b);
        }
        1 => {
            let b = s.withdraw_surplus(true, pv.creator);
            s.exec(case, &b);
        }
        2 => {
            let b = s.withdraw_migration_fee(0, s.partner);
            s.exec(case, &b);
        }
        3 => {
            let b = s.withdraw_migration_fee(1, pv.creator);
            s.exec(case, &b);
        }
        4 => {
            let b = s.withdraw_leftover(s.leftover);
            s.exec(case, &b);
        }
        5 => {
            s.do_locker(case);
        }
        6 => {
            s.do_v1_metadata(case);
        }
        7 => {
            if s.c.migration_option == 0 && s.v1_meta().is_none() {
                s.do_v1_metadata(case);
            }
            s.do_migrate(case);
        }
        _ => {
            let claim = case.t.chance(50);
            let who = if case.t.chance(50) { s.partner } else { pv.creator };
            s.do_v1_take(case, who, claim);
        }
    }
}

fn anyone(case: &mut Case, s: &mut Sim) -> Pubkey {
    let cur = s.pv().creator;
    let v = [s.partner, cur, s.traders[1], s.creators[2], s.creators[0], s.op_claim, s.op_zap, s.leftover, named("stranger", 0), named("op-new", 0), named("op-new", 1)];
    let who = v[case.t.below(v.len())];
    if s.w.get(&s.qa(&who)).is_none() {
        s.open(&who, true, 0);
        s.open(&who, false, 0);
    }
    who
}

/// privileged instructions by somebody chosen at random: the prediction knows who is entitled
pub fn impostor(case: &mut Case, s: &mut Sim) {
    let who = anyone(case, s);
    match case.t.raw(13) {
        0 => {
            let b = s.claim_partner(who, u64::MAX, u64::MAX);
            s.exec(case, &b);
        }
        1 => {
            let b = s.claim_creator(who, u64::MAX, u64::MAX);
            s.exec(case, &b);
        }
        2 => {
            let b = s.claim_protocol(who, u64::MAX, u64::MAX);
            s.exec(case, &b);
        }
        3 => {
            let b = s.claim_protocol_to(s.op_claim, u64::MAX, u64::MAX, who);
            s.exec(case, &b);
        }
        4 => {
            let base = case.t.chance(50);
            s.do_zap(case, who, base, u64::MAX);
        }
        5 => {
            let b = s.withdraw_surplus(case.t.chance(50), who);
            s.exec(case, &b);
        }
        6 => {
            let b = s.withdraw_migration_fee(case.t.raw(2) as u8, who);
            s.exec(case, &b);
        }
        7 => {
            let b = s.withdraw_leftover(who);
            s.exec(case, &b);
        }
        8 => {
            let b = s.claim_creation_partner(who, who);
            s.exec(case, &b);
        }
        9 => {
            let b = s.claim_creation_protocol(who, TREASURY);
            s.exec(case, &b);
        }
        10 => {
            let b = s.claim_creation_protocol(s.op_claim, who);
            s.exec(case, &b);
        }
        11 => {
            let to = anyone(case, s);
            let b = s.transfer_creator(who, to);
            s.exec(case, &b);
        }
        12 => {
            let x = ("a".to_string(), "b".to_string(), "c".to_string());
            let b = s.create_pool_metadata(who, &x);
            s.exec(case, &b);
        }
        _ => {
            let b = s.create_locker(who);
            s.exec(case, &b);
        }
    }
}

/// transactions of several swaps and swaps through another program
pub fn odd_shapes(case: &mut Case, s: &mut Sim, st: &Style) {
    let o = random_swap(case, s, st);
    match case.t.raw(4) {
        0 | 1 => {
            // another swap before it in the same transaction
            let mut first = random_swap(case, s, st);
            first.limit = if first.mode == Mode::ExactOut { u64::MAX } else { 0 };
            let (ix1, _) = s.swap_ix(&first);
            let mut after = s.clone();
            if !after.w.tx(&[ix1.clone()]).ok {
                return;
            }
            let mut o = o;
            o.limit = if o.mode == Mode::ExactOut { u64::MAX } else { 0 };
            let (ix2, _) = s.swap_ix(&o);
            if s.do_swap_last(case, &[ix1], &o, &[ix2], false, false).is_some() {
                case.hit("two swaps in a transaction");
            }
        }
        2 => {
            // through another program
            let (ix, _) = s.swap_ix(&o);
            let top = puppet(&[ix], false);
            s.do_swap_tx(case, &o, &[top], false, o.sysvar);
            case.hit("swap through another program");
        }
        3 => {
            // through two programs
            let (ix, _) = s.swap_ix(&o);
            let top = puppet(&[ix], true);
            s.do_swap_tx(case, &o, &[top], false, false);
            case.hit("swap through two programs");
        }
        _ => {
            // an unrelated instruction before it
            let other = s.create_partner_metadata(named("unrelated", s.swaps + 1000 * s.id), &("n".into(), "w".into(), "l".into()));
            let (ix, _) = s.swap_ix(&o);
            s.do_swap_last(case, &[other.ix], &o, &[ix], false, o.sysvar);
        }
    }
}

/// one instruction that forwards these calls
pub fn puppet(calls: &[crate::world::Ix], twice: bool) -> crate::world::Ix {
    use crate::mocks::*;
    use crate::world::Ix;
    let mut keys: Vec<anchor_lang::solana_program::instruction::AccountMeta> = vec![];
    let mut list = vec![];
    let at = |m: Pubkey, signer: bool, writable: bool, keys: &mut Vec<anchor_lang::solana_program::instruction::AccountMeta>| -> u8 {
        for (i, k) in keys.iter_mut().enumerate() {
            if k.pubkey == m {
                k.is_signer |= signer;
                k.is_writable |= writable;
                return i as u8;
            }
        }
        keys.push(anchor_lang::solana_program::instruction::AccountMeta { pubkey: m, is_signer: signer, is_writable: writable });
        keys.len() as u8 - 1
    };
    for c in calls {
        let mut accounts = vec![];
        for m in &c.metas {
            accounts.push((at(m.pubkey, m.is_signer, m.is_writable, &mut keys), m.is_signer, m.is_writable));
        }
        list.push(PuppetCall { program: at(c.program, false, false, &mut keys), accounts, data: c.data.clone() });
    }
    let inner = Ix { program: PUPPET, metas: keys, data: puppet_data(&list) };
    if twice {
        puppet(&[inner], false)
    } else {
        inner
    }
}

pub fn step(case: &mut Case, s: &mut Sim, st: &Style, class: usize) {
    match class {
        0 => {
            let o = random_swap(case, s, st);
            s.do_swap(case, &o);
        }
        1 => pass_time(case, s),
        2 => {
            let k = case.t.below(3);
            claim(case, s, k);
        }
        3 => zap(case, s),
        4 => creation_claim(case, s),
        5 => transfer(case, s),
        6 => metadata(case, s),
        7 => premature(case, s),
        8 => {
            let base = case.t.chance(40);
            let n = case.t.logu(1, 1 << 40);
            s.donate(base, n);
            case.note(|| format!("donation of {n} to the {} vault", if base { "base" } else { "quote" }));
        }
        9 => impostor(case, s),
        _ => odd_shapes(case, s, st),
    }
}

/// buys the rest of the curve; false if that failed
pub fn complete(case: &mut Case, s: &mut Sim) -> bool {
    for round in 0..12 {
        if s.complete() {
            return true;
        }
        let t0 = s.traders[0];
        let mut o = SwapOp::new(0, Mode::Partial, true, s.w.bal(&s.qa(&t0)));
        if round == 0 && case.t.chance(25) {
            o.mode = Mode::ExactOut;
            o.limit = u64::MAX;
            o.amount = {
                let m = max_base(s, &s.pv());
                if fees_on_base(&s.c, true) {
                    // leave room for the fee
                    m / 2
                } else {
                    m.saturating_sub(case.t.raw(2))
                }
            };
            if o.amount == 0 {
                continue;
            }
            s.do_swap(case, &o);
            continue;
        }
        if o.amount == 0 {
            return false;
        }
        if round < 3 && case.t.chance(30) {
            o.referral = Some(s.referral_account(&s.referrals[0], true));
        }
        if !s.do_swap(case, &o) {
            return false;
        }
    }
    s.complete()
}

/// operations between completion and migration
pub fn post_op(case: &mut Case, s: &mut Sim, st: &Style) {
    let pv = s.pv();
    match case.t.raw(12) {
        0..=2 => {
            let k = case.t.below(3);
            claim(case, s, k);
        }
        3 => zap(case, s),
        4 => {
            let creator = case.t.chance(50);
            let who = if creator { pv.creator } else { s.partner };
            direct(case, s);
            let b = s.withdraw_surplus(creator, who);
            s.exec(case, &b);
            s.payee = None;
        }
        5 | 6 => {
            let f = case.t.raw(1) as u8;
            let who = if f == 1 { pv.creator } else { s.partner };
            direct(case, s);
            let b = s.withdraw_migration_fee(f, who);
            s.exec(case, &b);
            s.payee = None;
        }
        7 => creation_claim(case, s),
        8 => transfer(case, s),
        9 => impostor(case, s),
        10 => premature(case, s),
        11 => {
            // no swap any more
            let o = random_swap(case, s, st);
            s.do_swap(case, &o);
        }
        _ => pass_time(case, s),
    }
}

pub fn graduate(case: &mut Case, s: &mut Sim) -> bool {
    if s.pv().progress == 1 {
        if case.t.chance(20) {
            // not before the escrow
            if s.c.migration_option == 0 && s.v1_meta().is_none() {
                s.do_v1_metadata(case);
            }
            s.do_migrate(case);
        }
        if s.pv().progress == 1 && !s.do_locker(case) {
            return false;
        }
    }
    if s.c.migration_option == 0 && s.v1_meta().is_none() {
        if case.t.chance(10) {
            s.do_migrate(case);
        }
        s.do_v1_metadata(case);
    }
    if s.pv().is_migrated == 0 {
        s.do_migrate(case);
    }
    s.pv().is_migrated == 1
}

/// everything that is still owed, in a random order
pub fn drain(case: &mut Case, s: &mut Sim) {
    let mut todo: Vec<usize> = (0..15).collect();
    while !todo.is_empty() {
        let i = case.t.below(todo.len());
        let k = todo.remove(i);
        let pv = s.pv();
        match k {
            0 => {
                let b = s.claim_partner(s.partner, u64::MAX, u64::MAX);
                s.exec(case, &b);
            }
            1 => {
                let b = s.claim_creator(pv.creator, u64::MAX, u64::MAX);
                s.exec(case, &b);
            }
            2 => {
                let b = s.claim_protocol(s.op_claim, u64::MAX, u64::MAX);
                s.exec(case, &b);
            }
            3 | 4 => {
                s.do_zap(case, s.op_zap, k == 3, u64::MAX);
            }
            5 => {
                let b = s.withdraw_surplus(false, s.partner);
                s.exec(case, &b);
            }
            6 => {
                let b = s.withdraw_surplus(true, pv.creator);
                s.exec(case, &b);
            }
            7 => {
                let b = s.withdraw_migration_fee(0, s.partner);
                s.exec(case, &b);
            }
            8 => {
                let b = s.withdraw_migration_fee(1, pv.creator);
                s.exec(case, &b);
            }
            9 => {
                let b = s.withdraw_leftover(s.leftover);
                s.exec(case, &b);
            }
            10 => {
                let b = s.claim_creation_partner(s.partner, s.partner);
                s.exec(case, &b);
            }
            11 => {
                let b = s.claim_creation_protocol(s.op_claim, TREASURY);
                s.exec(case, &b);
            }
            12 | 13 => {
                if s.c.migration_option == 0 {
                    let who = if k == 12 { s.partner } else { pv.creator };
                    let first = case.t.chance(50);
                    s.do_v1_take(case, who, first);
                    if case.t.chance(20) {
                        s.do_v1_take(case, who, first);
                    }
                    s.do_v1_take(case, who, !first);
                } else if case.t.chance(20) {
                    s.do_v1_take(case, s.partner, false);
                }
            }
            _ => {
                transfer(case, s);
            }
        }
    }
    // nothing is owed twice
    for k in 0..3 {
        if case.t.chance(40) {
            let pv = s.pv();
            let b = match k {
                0 => s.withdraw_surplus(false, s.partner),
                1 => s.withdraw_migration_fee(1, pv.creator),
                _ => s.withdraw_leftover(s.leftover),
            };
            s.exec(case, &b);
        }
    }
}

pub fn at_end(case: &mut Case, s: &Sim) {
    let pv = s.pv();
    let (b, q) = s.obligations(&pv);
    if pv.is_migrated == 1 {
        let left = if s.c.fixed_supply == 1 && pv.leftover_done == 0 { s.migrated_base_left as u128 } else { 0 };
        case.eq("base still owed at the end", b, left, &["C01"]);
        case.eq("quote still owed at the end", q, 0, &["C01"]);
        case.eq("quote left at the end", s.w.bal(&s.quote_vault), s.donated.1 + s.dust, &["C01"]);
        case.eq("base left at the end", s.w.bal(&s.base_vault), left as u64 + s.stuck_base, &["C01"]);
        if s.c.fixed_supply == 1 {
            let low = s.c.post_supply.max(s.initial_supply - (s.c.pre_supply - s.c.post_supply).min(s.initial_supply));
            let (now, dust) = (s.w.supply(&s.base_mint), if s.c.migration_option == 0 { 0 } else { 2 });
            case.ck((low..=low.saturating_add(dust)).contains(&now), &["C17"], || format!("supply after graduation: {now}, configured {low}"));
        }
        case.hit("everything claimed after graduation");
    }
}

/// a whole history
pub fn run(case: &mut Case, st: &Style, hook: Hook) {
    let mut s = prepare(case, st, 0);
    if !create(case, &mut s, st) {
        return;
    }
    if case.t.chance(st.sib) {
        crate::abuse::add_sibling(case, &mut s, st);
    }
    run_from(case, &mut s, st, hook);
}

pub fn run_from(case: &mut Case, s: &mut Sim, st: &Style, hook: Hook) {
    hook(case, s, Stage::Created);
    let mut n = 0;
    while n < st.max_ops && case.t.chance(st.go_on) && !case.failed() {
        n += 1;
        if s.complete() {
            break;
        }
        let k = case.t.weighted(&st.w);
        step(case, s, st, k);
        hook(case, s, Stage::Trading);
    }
    if case.failed() {
        return;
    }
    if !s.complete() {
        if !case.t.chance(st.complete) {
            return;
        }
        if !complete(case, s) {
            return;
        }
    }
    case.hit("completed");
    if case.t.chance(st.overrun) {
        let r = s.pv().quote_reserve;
        let n = case.t.logu(1, r.max(2));
        if s.overrun(n) {
            case.hit("completed past the threshold (older program)");
        }
    }
    hook(case, s, Stage::Complete);
    let mut n = 0;
    while n < st.max_post && case.t.chance(st.post) && !case.failed() {
        n += 1;
        post_op(case, s, st);
        hook(case, s, Stage::Post);
    }
    if !case.t.chance(st.graduate) || case.failed() {
        return;
    }
    if !graduate(case, s) {
        return;
    }
    hook(case, s, Stage::Migrated);
    let mut n = 0;
    while n < 6 && case.t.chance(50) && !case.failed() {
        n += 1;
        post_op(case, s, st);
    }
    if case.failed() {
        return;
    }
    drain(case, s);
    if !case.failed() {
        at_end(case, s);
        hook(case, s, Stage::End);
    }
}
