//! Lamports and tokens that somebody sends to a pool's accounts, before and after they exist.

use crate::abi::*;
use crate::case::Case;
use crate::gen::*;
use crate::hist::*;
use crate::mocks::V2_POOL_LEN;
use crate::refmodel::*;
use crate::sim::*;
use crate::world::*;
use anchor_lang::prelude::Pubkey;

fn lamports(case: &mut Case, len: usize) -> u64 {
    let r = rent_min(len);
    match case.t.raw(7) {
        7 => r - case.t.logu(1, r - 1),
        0 => rent_min(0),
        1 => r - 1,
        2 => r,
        3 => r + 1,
        4 => r + case.t.logu(1, 1 << 40),
        5 => 1_000_000_000,
        _ => case.t.range(1, r),
    }
}

/// every address of the pool that somebody may know beforehand, with the size of its account
fn addresses(s: &Sim) -> Vec<(Pubkey, usize, &'static str)> {
    let mut v = vec![
        (s.pool, POOL_LEN, "pool"),
        (s.config, CONFIG_LEN, "configuration"),
        (s.base_vault, 165, "base vault"),
        (s.quote_vault, 165, "quote vault"),
        (s.base_mint, 82, "base mint"),
        (s.pool_metadata_address(), 300, "pool metadata"),
        (s.partner_metadata_address(&s.partner), 300, "partner metadata"),
        (pool_authority(), 0, "pool authority"),
        (s.partner, 0, "partner"),
        (s.first_creator, 0, "creator"),
        (TREASURY, 0, "treasury"),
    ];
    for i in 0..2 {
        v.push((operator_address(&named("op-new", i)), 64, "operator account"));
    }
    if s.c.token_type == 0 {
        v.push((metadata_address(&s.base_mint), 679, "token metadata"));
    }
    if s.c.migration_option == 0 {
        v.push((s.v1_metadata(), 280, "migration metadata"));
    }
    if s.c.vesting != Vesting::default() {
        v.push((s.escrow(), 200, "vesting escrow"));
        v.push((s.locker_base(), 0, "vesting escrow's base"));
    }
    if s.c.migration_option == 1 {
        let k = s.v2_keys();
        for (i, len, what) in [
            (0, V2_POOL_LEN, "AMM pool"),
            (1, 82, "position's mint"),
            (2, 165, "position's token account"),
            (3, 400, "position"),
            (5, 165, "position's token account"),
            (6, 400, "position"),
        ] {
            v.push((k[i], len, what));
        }
    }
    v
}

fn gifts(case: &mut Case, s: &mut Sim, n: usize) {
    let all = addresses(s);
    for _ in 0..n {
        let (k, len, what) = all[case.t.below(all.len())];
        // a Token-2022 mint is as long as its metadata
        let len = if k == s.base_mint && s.c.token_type == 1 && case.t.chance(80) { case.t.range(165, 700) as usize } else { len };
        let n = lamports(case, len);
        let new = s.w.get(&k).is_none();
        s.gift(k, n);
        case.note(|| format!("somebody sends {n} lamports to the {what}{}", if new { ", which does not exist yet" } else { "" }));
        case.hit(if new { "lamports sent to an address before its account exists" } else { "lamports sent to an account" });
        case.hit(&format!("lamports sent to the {what}"));
    }
}

fn donations(case: &mut Case, s: &mut Sim) {
    let base = case.t.chance(50);
    let remaining = s.c.threshold.saturating_sub(s.pv().quote_reserve);
    let n = match case.t.raw(4) {
        0 => 1,
        1 => remaining.max(1),
        2 => s.c.threshold,
        3 => remaining.saturating_sub(1).max(1),
        _ => case.t.logu(1, 1 << 60),
    };
    let v = if base { s.base_vault } else { s.quote_vault };
    let before = s.w.bal(&v);
    s.donate(base, n);
    if s.w.bal(&v) != before {
        case.note(|| format!("somebody sends {n} to the {} vault", if base { "base" } else { "quote" }));
        case.hit("tokens sent to a vault");
        if !base && s.w.bal(&s.quote_vault) >= s.c.threshold && s.pv().quote_reserve < s.c.threshold {
            case.hit("the quote vault holds the threshold, the reserve does not");
        }
    }
}

pub fn c26(case: &mut Case) {
    let mut st = Style { max_ops: 14, go_on: 88, complete: 80, graduate: 95, abuse: 0, sib: 5, wrong: 0, post: 60, ..Style::default() };
    st.w = [40, 8, 10, 5, 5, 5, 5, 3, 6, 2, 2];
    let mut s = prepare(case, &st, 0);
    let n = 1 + case.t.below(6);
    gifts(case, &mut s, n);
    if create(case, &mut s, &st) {
        run_from(case, &mut s, &st, &mut |case, s, stage| {
            if stage != Stage::End && case.t.chance(if stage == Stage::Complete { 50 } else { 20 }) {
                let n = 1 + case.t.below(3);
                gifts(case, s, n);
            }
            if stage != Stage::End && case.t.chance(if stage == Stage::Complete || stage == Stage::Created { 50 } else { 20 }) {
                donations(case, s);
            }
        });
    }
}

pub fn c27(case: &mut Case) {
    let mut st = Style { max_ops: 4, go_on: 60, complete: 97, graduate: 97, abuse: 0, sib: 3, wrong: 0, post: 60, ..Style::default() };
    st.pr.vesting = 60;
    st.w = [40, 8, 6, 3, 3, 3, 2, 2, 2, 1, 1];
    let mut s = prepare(case, &st, 0);
    s.mischief = 85;
    // how much the authority has to lend
    let have = match case.t.raw(3) {
        0 => 10_000_000_000,
        1 => 1_000_000_000,
        2 => 100_000_000_000_000,
        _ => 50_000_000 + case.t.logu(1, 1 << 40),
    };
    s.w.put(pool_authority(), have, &system_id(), &[]);
    if create(case, &mut s, &st) {
        run_from(case, &mut s, &st, &mut |_, _, _| {});
    }
}
