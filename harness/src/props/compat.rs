//! Released versions: what their clients send, read and what they left on the chain.

use crate::abi::*;
use crate::case::Case;
use crate::gen::*;
use crate::hist::*;
use crate::refmodel::*;
use crate::released::*;
use crate::sim::*;

const T: &[&str] = &["C25"];

/// what a configuration of the release can say
fn strip(p: &mut Params, r: &Release) {
    let early = r.before("0.1.6");
    let custom = !early && p.migration_fee_option == 6;
    if p.migration_fee_option > 5 && !custom {
        p.migration_fee_option %= 6;
    }
    if !custom {
        (p.mp_collect, p.mp_dynamic, p.mp_fee_bps) = (0, 0, 0);
    } else if p.mp_collect > 1 {
        p.mp_collect = 0;
    }
    p.mp_base_mode = 0;
    (p.mc_n, p.mc_step, p.mc_expiration, p.mc_reduction) = (0, 0, 0, 0);
    p.compounding_bps = 0;
    p.padding = [0; 2];
    p.creation_fee = 0;
    p.first_swap_min_fee = false;
    p.partner_locked += std::mem::take(&mut p.partner_vest).pct;
    p.creator_locked += std::mem::take(&mut p.creator_vest).pct;
    if r.before("0.1.3") && p.fee_mode > 1 {
        p.fee_mode = 0;
        (p.first, p.second, p.third) = (0, 0, 0);
    }
    if r.before("0.1.4") {
        p.token_authority %= 2;
    }
}

/// the named value of the configuration, by the name any release gave it
fn config_leaf(c: &ConfigView, name: &str) -> Option<V> {
    let n = |x: u128| Some(V::N(x));
    let d = c.dynamic.clone().unwrap_or_default();
    if let Some(rest) = name.strip_prefix("curve.") {
        let (i, f) = rest.split_once('.')?;
        let (p, l) = c.curve.get(i.parse::<usize>().ok()?).copied().unwrap_or((0, 0));
        return n(if f == "sqrt_price" { p } else { l });
    }
    match name {
        "quote_mint" => Some(V::Key(c.quote_mint)),
        "fee_claimer" => Some(V::Key(c.fee_claimer)),
        "leftover_receiver" => Some(V::Key(c.leftover_receiver)),
        "pool_fees.base_fee.cliff_fee_numerator" => n(c.cliff_fee as u128),
        "pool_fees.base_fee.period_frequency" | "pool_fees.base_fee.second_factor" => n(c.second as u128),
        "pool_fees.base_fee.reduction_factor" | "pool_fees.base_fee.third_factor" => n(c.third as u128),
        "pool_fees.base_fee.number_of_period" | "pool_fees.base_fee.first_factor" => n(c.first as u128),
        "pool_fees.base_fee.fee_scheduler_mode" | "pool_fees.base_fee.base_fee_mode" => n(c.fee_mode as u128),
        "pool_fees.dynamic_fee.initialized" => n(c.dynamic.is_some() as u128),
        "pool_fees.dynamic_fee.max_volatility_accumulator" => n(d.max_vol as u128),
        "pool_fees.dynamic_fee.variable_fee_control" => n(d.var_ctrl as u128),
        "pool_fees.dynamic_fee.bin_step" => n(d.bin_step as u128),
        "pool_fees.dynamic_fee.filter_period" => n(d.filter_period as u128),
        "pool_fees.dynamic_fee.decay_period" => n(d.decay_period as u128),
        "pool_fees.dynamic_fee.reduction_factor" => n(d.reduction_factor as u128),
        "pool_fees.dynamic_fee.bin_step_u128" => n(d.bin_step_u128),
        "collect_fee_mode" => n(c.collect_fee_mode as u128),
        "migration_option" => n(c.migration_option as u128),
        "activation_type" => n(c.activation_type as u128),
        "token_decimal" => n(c.token_decimal as u128),
        "version" => n(c.version as u128),
        "token_type" => n(c.token_type as u128),
        "quote_token_flag" => n(c.quote_token_flag as u128),
        "partner_locked_lp_percentage" => n(c.partner_locked as u128),
        "partner_lp_percentage" => n(c.partner_liq as u128),
        "creator_locked_lp_percentage" => n(c.creator_locked as u128),
        "creator_lp_percentage" => n(c.creator_liq as u128),
        "migration_fee_option" => n(c.migration_fee_option as u128),
        "fixed_token_supply_flag" => n(c.fixed_supply as u128),
        "creator_trading_fee_percentage" => n(c.creator_fee_pct as u128),
        "token_update_authority" => n(c.token_authority as u128),
        "migration_fee_percentage" => n(c.migration_fee_pct as u128),
        "creator_migration_fee_percentage" => n(c.creator_migration_fee_pct as u128),
        "swap_base_amount" => n(c.swap_base_amount as u128),
        "migration_quote_threshold" => n(c.threshold as u128),
        "migration_base_threshold" => n(c.migration_base_threshold as u128),
        "migration_sqrt_price" => n(c.migration_sqrt_price),
        "locked_vesting_config.amount_per_period" => n(c.vesting.amount_per_period as u128),
        "locked_vesting_config.cliff_duration_from_migration_time" => n(c.vesting.cliff_duration as u128),
        "locked_vesting_config.frequency" => n(c.vesting.frequency as u128),
        "locked_vesting_config.number_of_period" => n(c.vesting.number_of_period as u128),
        "locked_vesting_config.cliff_unlock_amount" => n(c.vesting.cliff_unlock as u128),
        "pre_migration_token_supply" => n(c.pre_supply as u128),
        "post_migration_token_supply" => n(c.post_supply as u128),
        "migrated_collect_fee_mode" => n(c.mp_collect as u128),
        "migrated_dynamic_fee" => n(c.mp_dynamic as u128),
        "migrated_pool_fee_bps" => n(c.mp_fee_bps as u128),
        "sqrt_start_price" => n(c.sqrt_start),
        _ => None,
    }
}

fn pool_leaf(p: &PoolView, name: &str) -> Option<V> {
    let n = |x: u128| Some(V::N(x));
    let k = |x| Some(V::Key(x));
    match name {
        "volatility_tracker.last_update_timestamp" => n(p.last_update as u128),
        "volatility_tracker.sqrt_price_reference" => n(p.sqrt_ref),
        "volatility_tracker.volatility_accumulator" => n(p.vol_acc),
        "volatility_tracker.volatility_reference" => n(p.vol_ref),
        "config" => k(p.config),
        "creator" => k(p.creator),
        "base_mint" => k(p.base_mint),
        "base_vault" => k(p.base_vault),
        "quote_vault" => k(p.quote_vault),
        "base_reserve" => n(p.base_reserve as u128),
        "quote_reserve" => n(p.quote_reserve as u128),
        "protocol_base_fee" => n(p.protocol_base_fee as u128),
        "protocol_quote_fee" => n(p.protocol_quote_fee as u128),
        "partner_base_fee" => n(p.partner_base_fee as u128),
        "partner_quote_fee" => n(p.partner_quote_fee as u128),
        "sqrt_price" => n(p.sqrt_price),
        "activation_point" => n(p.activation_point as u128),
        "pool_type" => n(p.pool_type as u128),
        "is_migrated" => n(p.is_migrated as u128),
        "is_partner_withdraw_surplus" => n(p.partner_surplus_done as u128),
        "is_protocol_withdraw_surplus" => n(p.protocol_surplus_done as u128),
        "migration_progress" => n(p.progress as u128),
        "is_withdraw_leftover" => n(p.leftover_done as u128),
        "is_creator_withdraw_surplus" => n(p.creator_surplus_done as u128),
        "migration_fee_withdraw_status" => n(p.migration_fee_status as u128),
        "metrics.total_protocol_base_fee" => n(p.metrics[M_PROTO_BASE] as u128),
        "metrics.total_protocol_quote_fee" => n(p.metrics[M_PROTO_QUOTE] as u128),
        "metrics.total_trading_base_fee" => n(p.metrics[M_TRADE_BASE] as u128),
        "metrics.total_trading_quote_fee" => n(p.metrics[M_TRADE_QUOTE] as u128),
        "finish_curve_timestamp" => n(p.finish_time as u128),
        "creator_base_fee" => n(p.creator_base_fee as u128),
        "creator_quote_fee" => n(p.creator_quote_fee as u128),
        _ => None,
    }
}

/// a client of the release reads the accounts and finds the values where it always did
fn read_back(case: &mut Case, s: &Sim, r: &Release) {
    let mut one = |key, want: &str, value: &dyn Fn(&str) -> Option<V>| {
        let Some((name, v)) = r.account(s.w.data(&key)) else {
            case.ck(false, T, || format!("a client of release {} cannot read the {want}", r.version));
            return;
        };
        case.ck(name == want, T, || format!("a client of release {} takes the {want} for a {name}", r.version));
        let mut leaves = vec![];
        Release::leaves(&v, "", &mut leaves);
        for (n, got) in leaves {
            if n.ends_with("protocol_fee_percent") || n.ends_with("referral_fee_percent") {
                continue;
            }
            let w = value(&n).unwrap_or_else(|| panic!("HARNESS: nothing expected of {n}"));
            case.ck(got == w, T, || format!("a client of release {} reads {n} of the {want} as {got:?}, not {w:?}", r.version));
        }
    };
    one(s.config, "PoolConfig", &|n| config_leaf(&s.c, n));
    let pv = s.pv();
    one(s.pool, "VirtualPool", &|n| pool_leaf(&pv, n));
}

/// a configuration that could be made with the release, but no longer
fn looser(case: &mut Case, s: &mut Sim) -> Vec<(&'static str, u128)> {
    let mut set = vec![];
    if case.t.chance(50) && s.c.partner_locked + s.c.creator_locked > 0 {
        // nothing had to be locked before 0.1.8
        for (p, c) in [(true, false), (false, true)] {
            if case.t.chance(70) {
                if p {
                    s.c.partner_liq += std::mem::take(&mut s.c.partner_locked);
                } else if c {
                    s.c.creator_liq += std::mem::take(&mut s.c.creator_locked);
                }
            }
        }
        set.push(("partner_lp_percentage", s.c.partner_liq as u128));
        set.push(("partner_locked_lp_percentage", s.c.partner_locked as u128));
        set.push(("creator_lp_percentage", s.c.creator_liq as u128));
        set.push(("creator_locked_lp_percentage", s.c.creator_locked as u128));
        if s.c.partner_locked + s.c.creator_locked < 10 {
            case.hit("a stored configuration with less liquidity locked than a new one must have");
        }
    }
    if case.t.chance(50) && s.c.fee_mode < 2 && s.c.second == 0 {
        // fees from one basis point before 0.1.7
        s.c.cliff_fee = case.t.range(100_000, 2_499_999);
        set.push(("cliff_fee_numerator", s.c.cliff_fee as u128));
        case.hit("a stored configuration with a lower fee than a new one may have");
    }
    s.p.cliff_fee = s.c.cliff_fee;
    (s.p.partner_liq, s.p.partner_locked, s.p.creator_liq, s.p.creator_locked) = (s.c.partner_liq, s.c.partner_locked, s.c.creator_liq, s.c.creator_locked);
    set
}

/// rewrites an account the way the release would have stored it
fn age(s: &mut Sim, r: &Release, key: anchor_lang::prelude::Pubkey, set: &[(&str, u128)]) {
    let d = s.w.data(&key).to_vec();
    let (name, mut v) = r.account(&d).expect("HARNESS: account of the release");
    let name = name.to_string();
    Release::clear_padding(&mut v);
    for (k, x) in set {
        assert!(Release::set(&mut v, k, *x), "HARNESS: no {k} in {name}");
    }
    let mut new = d[..8].to_vec();
    r.write_struct(&name, &v, &mut new);
    assert_eq!(new.len(), d.len(), "HARNESS: size of {name} in release {}", r.version);
    s.w.accts.get_mut(&key).unwrap().data_mut().copy_from_slice(&new);
}

pub fn c25(case: &mut Case) {
    USED.with(|u| u.borrow_mut().clear());
    ISSUES.with(|u| u.borrow_mut().clear());
    let r = case.t.pick(&[3usize, 0, 1, 2]);
    let r = &releases()[r];
    let mut st = Style { max_ops: 14, go_on: 88, complete: 80, graduate: 95, abuse: 0, sib: 5, wrong: 0, post: 60, ..Style::default() };
    st.w = [40, 8, 12, 6, 5, 6, 4, 2, 0, 1, 0];
    st.pr.creation_fee = 0;
    st.pr.first_min = 0;
    st.pr.liq_vesting = 20;
    let q = quote_mint(case, &st.pr);
    let (mut p, _) = params(&mut case.t, &st.pr, &q);
    strip(&mut p, r);
    let c = match derive(&p, &q, partner_key(), leftover_key()) {
        Ok(c) => c,
        Err(_) => {
            p = plain();
            derive(&p, &q, partner_key(), leftover_key()).expect("HARNESS: plain parameters")
        }
    };
    let mut s = prepare_with(case, &st, 0, p, c, q);
    s.w.release = Some(r);
    if create(case, &mut s, &st) {
        case.note(|| format!("with clients of release {}", r.version));
        let mut stored = case.t.chance(60);
        run_from(case, &mut s, &st, &mut |case, s, stage| {
            if stored && s.pv().is_migrated == 0 && (stage == Stage::Created || case.t.chance(30)) {
                if stage != Stage::Created || case.t.chance(60) {
                    stored = false;
                    let mut set = if stage == Stage::Created && s.old.is_none() && case.t.chance(40) { looser(case, s) } else { vec![] };
                    set.push(("protocol_fee_percent", 20));
                    set.push(("referral_fee_percent", 20));
                    age(s, r, s.config, &set);
                    age(s, r, s.pool, &[]);
                    if stage == Stage::Created && case.t.chance(25) {
                        // what a pool that paid the flat creation fee of a later, since retired, rule keeps
                        super::auth::make_legacy(s);
                        case.hit("stored pool that still holds the retired flat creation fee");
                    }
                    case.note(|| format!("configuration and pool as release {} stored them", r.version));
                    case.hit(&format!("configuration and pool as {} stored them", r.version));
                    case.eq("configuration stored by a release", ConfigView::read(s.w.data(&s.config)).as_ref(), Some(&s.c), T);
                }
            }
            if stage != Stage::Trading || case.t.chance(40) {
                read_back(case, s, r);
            }
        });
    }
    for m in ISSUES.with(|i| std::mem::take(&mut *i.borrow_mut())) {
        case.ck(false, T, || m);
    }
    for (k, n) in USED.with(|u| std::mem::take(&mut *u.borrow_mut())) {
        *case.hits.entry(k).or_insert(0) += n;
    }
}
