//! The life of a pool up to and after graduation: C01, C14, C15, C16.
use crate::abi::*;
use crate::case::Case;
use crate::hist::*;
use crate::mocks::*;
use crate::refmath::*;
use crate::refmodel::*;
use crate::sim::*;
use crate::world::*;
use anchor_lang::prelude::Pubkey;

// ---- C01 -----------------------------------------------------------------------------------------------------

pub fn c01(case: &mut Case) {
    let mut st = Style { max_ops: 22, go_on: 92, complete: 85, graduate: 92, post: 75, abuse: 12, ..Style::default() };
    st.w = [52, 8, 16, 6, 2, 2, 1, 5, 3, 3, 4];
    st.pr.v1 = 40;
    match case.t.raw(3) {
        0 => st.sib = 60,
        1 => st.pr.out_fee = 85,
        2 => {
            st.pr.fixed = 80;
            st.pr.vesting = 70;
        }
        _ => {}
    }
    run(case, &st, &mut |case, s, stage| {
        s.standing(case);
        if stage == Stage::Complete {
            case.hit("completed pool");
        }
    });
}

// ---- wrong AMM configurations --------------------------------------------------------------------------------

const BPS: [u64; 6] = [25, 30, 100, 200, 400, 600];

fn wrong_v1(case: &mut Case, s: &mut Sim) {
    let key = named("v1-config-wrong", 0);
    let bps = BPS[s.c.migration_fee_option as usize];
    let mut c = V1Config::good(bps);
    let mut owner = DAMM_V1;
    let what = match case.t.raw(7) {
        0 => {
            let o = BPS[case.t.below(6)];
            if o == bps {
                return;
            }
            c.fee_num = o * 10;
            "fee of another option"
        }
        1 => {
            c.fee_num = if case.t.chance(50) { (bps + 1) * 10 } else { (bps - 1) * 10 };
            "fee one basis point off"
        }
        2 => {
            c.fee_den = [10_000, 1_000_000, 200_000][case.t.below(3)];
            "fee denominator"
        }
        3 => {
            c.pool_creator_authority = [Pubkey::default(), crate::abuse::mallory(), s.partner, s.pv().creator, DBC][case.t.below(5)];
            "not reserved for the program's authority"
        }
        4 => {
            c.activation_duration = case.t.logu(1, u64::MAX);
            "activation duration"
        }
        5 => {
            c.partner_fee_numerator = case.t.logu(1, 100_000);
            "partner fee"
        }
        6 => {
            c.vault_config_key = [s.partner, s.pv().creator, crate::abuse::mallory()][case.t.below(3)];
            "vault key"
        }
        _ => {
            owner = [crate::abuse::EVIL, DAMM_V2, DBC, system_id()][case.t.below(4)];
            "another program's account"
        }
    };
    let d = c.bytes();
    s.w.put(key, rent_min(d.len()), &owner, &d);
    let b = s.v1_migrate(key, false);
    case.note(|| format!("wrong DAMM v1 configuration: {what}"));
    s.exec(case, &b);
    case.hit(&format!("wrong AMM configuration: {what}"));
}

fn wrong_v2(case: &mut Case, s: &mut Sim) {
    let key = named("v2-config-wrong", 0);
    let mut c = s.v2_good_config();
    let mut owner = DAMM_V2;
    let fixed = s.c.migration_fee_option < 6;
    let bps = BPS[s.c.migration_fee_option.min(5) as usize];
    let what = match case.t.raw(if fixed { 10 } else { 2 }) {
        0 | 1 => {
            c.pool_creator_authority = [Pubkey::default(), crate::abuse::mallory(), s.partner, s.pv().creator, DBC][case.t.below(5)];
            "not reserved for the program's authority"
        }
        2 => {
            owner = [crate::abuse::EVIL, DAMM_V1, DBC, system_id()][case.t.below(4)];
            "another program's account"
        }
        3 => {
            let o = BPS[case.t.below(6)];
            if o == bps {
                return;
            }
            c.pool_fees.base_fee.data[..8].copy_from_slice(&(o * 100_000).to_le_bytes());
            "fee of another option"
        }
        4 => {
            let o = if case.t.chance(50) { bps + 1 } else { bps - 1 };
            c.pool_fees.base_fee.data[..8].copy_from_slice(&(o * 100_000).to_le_bytes());
            "fee one basis point off"
        }
        5 => {
            c.pool_fees.base_fee.data[8] = [2, 3, 4][case.t.below(3)];
            "not a time scheduler"
        }
        6 => {
            let at = [14, 16, 24][case.t.below(3)];
            c.pool_fees.base_fee.data[at] = 1 + case.t.raw(254) as u8;
            "fee schedule"
        }
        7 => {
            c.sqrt_min_price = if case.t.chance(50) { MIN_P + 1 } else { MIN_P - 1 };
            "lowest price"
        }
        8 => {
            c.sqrt_max_price = if case.t.chance(50) { MAX_P + 1 } else { MAX_P - 1 };
            "highest price"
        }
        9 => {
            c.vault_config_key = [s.partner, s.pv().creator, crate::abuse::mallory()][case.t.below(3)];
            "vault key"
        }
        _ => {
            c.activation_type = 0;
            "activation by slot"
        }
    };
    let d = v2_config_bytes(&c);
    s.w.put(key, rent_min(d.len()), &owner, &d);
    let mut b = s.v2_migrate(key, false);
    if case.t.chance(8) {
        b.ix.metas.pop();
    }
    case.note(|| format!("wrong DAMM v2 configuration: {what}"));
    s.exec(case, &b);
    case.hit(&format!("wrong AMM configuration: {what}"));
}

/// a configuration for customizable pools may say anything else; one with a fixed fee may call its empty schedule exponential
fn any_v2(case: &mut Case, s: &mut Sim) {
    let mut c = s.v2_good_config();
    let fixed = s.c.migration_fee_option < 6;
    if fixed {
        c.pool_fees.base_fee.data[8] = 1;
    } else {
        c.sqrt_min_price = case.t.raw(u64::MAX) as u128;
        c.activation_type = case.t.raw(1) as u8;
        c.pool_fees.base_fee.data[8] = case.t.raw(4) as u8;
        c.vault_config_key = s.partner;
    }
    let key = named("v2-config-any", 0);
    s.put_v2_config(key, &c);
    let mut t = s.clone();
    let b = t.v2_migrate(key, true);
    t.abuse = 0;
    if let Ok(p) = t.v2_plan() {
        t.dust = p.dust;
        t.migrated_base_left = p.left;
    }
    t.exec(case, &b);
    case.hit(if fixed { "fixed fee from an exponential AMM configuration without schedule" } else { "customizable pool from any reserved AMM configuration" });
}

/// the other migration program, or the same once more
fn wrong_way(case: &mut Case, s: &mut Sim) {
    let v1 = s.c.migration_option == 0;
    if case.t.chance(50) {
        // the other one
        let b = if v1 {
            let mut c = s.v2_good_config();
            c.sqrt_min_price = MIN_P;
            c.sqrt_max_price = MAX_P;
            let key = named("v2-config-other", 0);
            s.put_v2_config(key, &c);
            s.v2_migrate(key, true)
        } else {
            let key = named("v1-config-other", 0);
            s.put_v1_config(key, &V1Config::good(BPS[s.c.migration_fee_option.min(5) as usize]));
            s.v1_migrate(key, true)
        };
        s.exec(case, &b);
        case.hit("the other migration");
    } else {
        s.do_migrate(case);
        if s.pv().is_migrated == 1 {
            case.hit("migrated, or tried again");
        }
    }
}

/// wrong ways to graduate before the right one
fn attempts(case: &mut Case, s: &mut Sim) {
    for _ in 0..case.t.raw(3) {
        if case.failed() {
            return;
        }
        if s.c.migration_option == 0 && s.v1_meta().is_none() && case.t.chance(70) {
            s.do_v1_metadata(case);
        }
        match case.t.raw(4) {
            0 => {
                let mut t = s.clone();
                wrong_way(case, &mut t);
            }
            1 if s.c.migration_option == 1 => any_v2(case, s),
            _ if s.c.migration_option == 0 => wrong_v1(case, s),
            _ => wrong_v2(case, s),
        }
    }
}

/// shares of the LP tokens, in any order and repeated
fn takes(case: &mut Case, s: &mut Sim) {
    let n = case.t.raw(9);
    for _ in 0..n {
        if case.failed() {
            return;
        }
        let cur = s.pv().creator;
        let v = [s.partner, cur, s.partner, cur, s.first_creator, s.traders[1], s.leftover, named("stranger", 3)];
        let who = v[case.t.below(v.len())];
        let claim = case.t.chance(50);
        if s.w.get(&s.qa(&who)).is_none() {
            s.open(&who, true, 0);
            s.open(&who, false, 0);
        }
        s.do_v1_take(case, who, claim);
        if case.t.chance(12) {
            transfer(case, s);
        }
        if case.t.chance(10) {
            // all shares, then the creator role to the partner, then again
            for who in [s.partner, s.pv().creator] {
                for claim in [true, false] {
                    s.do_v1_take(case, who, claim);
                }
            }
            let cur = s.pv().creator;
            let b = s.transfer_creator(cur, s.partner);
            if s.exec(case, &b) {
                case.hit("creator role to the partner after the shares");
            }
            for claim in [true, false] {
                s.do_v1_take(case, s.partner, claim);
            }
        }
        if case.t.chance(8) {
            s.do_v1_metadata(case);
        }
        if case.t.chance(8) {
            s.do_migrate(case);
        }
    }
}

fn grad_style() -> Style {
    let mut st = Style { max_ops: 7, go_on: 80, complete: 100, graduate: 97, post: 55, max_post: 6, abuse: 12, ..Style::default() };
    st.w = [76, 8, 8, 2, 1, 2, 0, 2, 1, 2, 2];
    st
}

pub fn c14(case: &mut Case) {
    let mut st = grad_style();
    st.pr.v1 = 100;
    st.pr.t22_quote = 0;
    st.pr.vesting = 25;
    st.pr.migration_fee = 60;
    st.abuse = 20;
    if case.t.chance(20) {
        st.sib = 100;
    }
    if case.t.chance(15) {
        st.same = 100;
    }
    run(case, &st, &mut |case, s, stage| match stage {
        Stage::Complete => attempts(case, s),
        Stage::Post if case.t.chance(25) => attempts(case, s),
        Stage::Migrated => {
            case.hit("DAMM v1 graduation");
            for _ in 0..case.t.raw(2) {
                wrong_way(case, s);
            }
            takes(case, s);
            if s.v1_all_done() {
                case.hit("every LP share taken");
            }
        }
        Stage::End => {
            if let Some(m) = s.v1_meta() {
                // what is left of the LP tokens is the rounding of the shares
                let out: u128 = m.shares.iter().zip(m.done).filter(|x| x.1).map(|x| *x.0 as u128).sum();
                let lp = s.lp_account(&pool_authority());
                case.eq("LP tokens left with the program", s.w.bal(&lp) as u128, (s.mig.v1_lp + s.mig.lp_donated) as u128 - out, &["C14"]);
            }
        }
        _ => {}
    });
}

pub fn c15(case: &mut Case) {
    let mut st = grad_style();
    st.pr.v1 = 0;
    st.pr.custom_fee = 65;
    st.pr.liq_vesting = 65;
    st.pr.vesting = 25;
    st.abuse = 15;
    if case.t.chance(15) {
        st.sib = 100;
    }
    if case.t.chance(10) {
        st.same = 100;
    }
    run(case, &st, &mut |case, s, stage| match stage {
        Stage::Complete => attempts(case, s),
        Stage::Post if case.t.chance(25) => attempts(case, s),
        Stage::Migrated => {
            case.hit("DAMM v2 graduation");
            split_as_configured(case, s);
            for _ in 0..case.t.raw(2) {
                wrong_way(case, s);
            }
        }
        _ => {}
    });
}

/// the positions as they are, against the percentages
fn split_as_configured(case: &mut Case, s: &Sim) {
    let k = s.v2_keys();
    let c = &s.c;
    let Some(p) = s.mig.plan.as_ref() else { return };
    if p.first_owner == p.second_owner {
        return;
    }
    let mut got = [(0u128, 0u128, 0u128); 2];
    for (a, pos) in [(2, 3), (5, 6)] {
        let Some(x) = Position::read(s.w.data(&k[pos])) else { continue };
        let d = s.w.data(&k[a]);
        let owner = Pubkey::try_from(&d[32..64]).unwrap();
        let i = if owner == c.fee_claimer { 0 } else { 1 };
        got[i] = (x.unlocked, x.permanent, x.vested);
    }
    let want = [
        (c.partner_liq, c.partner_locked, c.partner_vest.1.pct),
        (c.creator_liq, c.creator_locked, c.creator_vest.1.pct),
    ];
    let total: u128 = got.iter().map(|x| x.0 + x.1 + x.2).sum();
    // whole token amounts make the second position smaller or larger than its share; only judge where that is negligible
    if p.dep1.0 < 1 << 24 || p.dep1.1 < 1 << 24 || p.dep2.0 < 1 << 24 && p.second_liq > 0 || p.dep2.1 < 1 << 24 && p.second_liq > 0 || total < 1 << 40 {
        return;
    }
    case.hit("shares compared with the percentages");
    for i in 0..2 {
        for (name, g, w) in [("unlocked", got[i].0, want[i].0), ("permanently locked", got[i].1, want[i].1), ("vested", got[i].2, want[i].2)] {
            let e = crate::refmath::mul_div_u128(total, w as u128, 100);
            let d = g.abs_diff(e);
            case.ck(d <= (total >> 18) + 4, &["C15"], || {
                format!("{} share of the {}: {g} of {total}, configured {w} %", name, if i == 0 { "partner" } else { "creator" })
            });
        }
    }
}

// ---- C16 -----------------------------------------------------------------------------------------------------

pub fn c16(case: &mut Case) {
    let mut st = grad_style();
    st.max_ops = 5;
    st.pr.vesting = 88;
    st.abuse = 30;
    st.w[7] = 6;
    if case.t.chance(15) {
        st.sib = 100;
    }
    run(case, &st, &mut |case, s, stage| match stage {
        Stage::Trading if case.t.chance(10) => {
            s.do_locker(case);
            case.hit("escrow asked for before completion");
        }
        Stage::Complete | Stage::Post | Stage::Migrated => {
            if stage == Stage::Post && !case.t.chance(30) {
                return;
            }
            for _ in 0..case.t.raw(2) {
                match case.t.raw(3) {
                    0 => pass_time(case, s),
                    1 if stage != Stage::Migrated => {
                        let mut t = s.clone();
                        if t.c.migration_option == 0 && t.v1_meta().is_none() {
                            t.do_v1_metadata(case);
                        }
                        t.do_migrate(case);
                        case.hit("migration tried");
                    }
                    _ => {
                        s.do_locker(case);
                        case.hit("escrow asked for");
                    }
                }
            }
            escrow_count(case, s);
        }
        Stage::End => escrow_count(case, s),
        _ => {}
    });
}

/// an escrow exists exactly when it must
fn escrow_count(case: &mut Case, s: &Sim) {
    let n = s.w.accts.iter().filter(|(_, a)| a.owner() == LOCKER && Escrow::read(a.data()).is_some()).count();
    let pv = s.pv();
    let vest = s.c.vesting_total() > 0;
    if s.sib.is_none() {
        let want = (vest && pv.progress >= 2) as usize;
        case.eq("vesting escrows", n, want, &["C16"]);
    }
    if !vest {
        case.ck(pv.progress != 1, &["C16"], || "waiting for a vesting escrow although no vesting is configured".into());
    }
}
