//! Configurations: C09, C17, C23.
use crate::abi::*;
use crate::case::Case;
use crate::gen::*;
use crate::hist::*;
use crate::mocks::*;
use crate::refmath::*;
use crate::refmodel::*;
use crate::sim::*;
use crate::world::*;
use anchor_lang::prelude::Pubkey;
use crate::vary::*;

/// creates a configuration with exactly these parameters and judges it
fn judge_config(case: &mut Case, w: World, id: u64, p: Params, q: QuoteMint, leftover: Pubkey, dummy: &ConfigView) -> (Sim, bool) {
    let verdict = derive(&p, &q, partner_key(), leftover);
    let c = match &verdict {
        Ok(c) => c.clone(),
        Err(_) => ConfigView { fee_claimer: partner_key(), leftover_receiver: leftover, ..dummy.clone() },
    };
    let mut s = Sim::new(w, id, p, c, q);
    let mut built = s.create_config();
    if let Err(e) = &verdict {
        built.expect = Expect::Reject(e);
    }
    let ok = s.exec(case, &built);
    match (&verdict, ok) {
        (Ok(_), true) => check_config(case, &s),
        (Err(e), false) => {
            case.ck(s.w.get(&s.config).map(|a| a.data().is_empty()).unwrap_or(true), &["C09"], || "a rejected configuration left an account".into());
            case.hit(&format!("refused: {e}"));
        }
        _ => {}
    }
    if case.failed() {
        case.note(|| describe(&s));
    }
    (s, ok)
}

pub fn c09(case: &mut Case) {
    let mut pr = Profile::default();
    match case.t.raw(4) {
        0 => pr.limiter = 90,
        1 => {
            pr.v1 = 0;
            pr.custom_fee = 90;
            pr.liq_vesting = 90;
        }
        2 => pr.fixed = 90,
        3 => {
            pr.v1 = 95;
            pr.t22_quote = 0;
        }
        _ => {}
    }
    pr.tiny = 15;
    let q0 = quote_mint(case, &pr);
    let (p0, c0) = params(&mut case.t, &pr, &q0);
    let mut w = base_world();
    let n = 4 + case.t.raw(8);
    for i in 0..n {
        let mut p = p0.clone();
        let mut leftover = leftover_key();
        let mut q = q0.clone();
        let m = case.t.weighted(&[1, 8, 4, 2]);
        let mut what = vec![];
        for _ in 0..m {
            what.push(mutate(case, &mut p, &mut leftover, &q));
        }
        if case.t.chance(12) {
            let (x, owner, d) = odd_quote(case);
            let l = rent_min(d.len());
            w.put(x.key, l, &owner, &d);
            q = x;
            what.push("quote mint");
        }
        case.note(|| format!("changed: {}", what.join(", ")));
        if what.last() == Some(&"quote mint") {
            case.note(|| format!("quote mint account {}: {:?}", q.key, w.get(&q.key).map(|a| (a.owner(), a.data().to_vec()))));
        }
        let (s, ok) = judge_config(case, w, i, p, q, leftover, &c0);
        if m > 0 {
            case.hit(if ok { "changed parameters accepted" } else { "changed parameters refused" });
        }
        w = s.w;
        if case.failed() {
            return;
        }
    }
    // and what it takes to create a pool under a configuration
    if case.t.chance(25) {
        let mut s = Sim::new(w.clone(), 101, p0.clone(), c0.clone(), q0.clone());
        let b = s.create_config();
        if s.exec(case, &b) {
            s.open_base();
            wrong_creations(case, &s);
        }
    }
    // only once at an address
    if case.t.chance(20) {
        let (mut s, ok) = judge_config(case, w, 100, p0.clone(), q0.clone(), leftover_key(), &c0);
        if ok {
            let mut b = s.create_config();
            b.expect = Expect::Reject("the configuration exists");
            s.exec(case, &b);
            case.hit("configuration created twice");
        }
    }
}

// ---- C17 -----------------------------------------------------------------------------------------------------

/// nobody but the configured authority can mint, freeze or change the metadata
fn token_powers(case: &mut Case, s: &Sim) {
    let d = s.w.data(&s.base_mint).to_vec();
    let pv = s.pv();
    let allowed = match s.p.token_authority {
        3 => Some(s.first_creator),
        4 => Some(s.partner),
        _ => None,
    };
    let have = if d[..4] == [1, 0, 0, 0] { Some(Pubkey::try_from(&d[4..36]).unwrap()) } else { None };
    case.eq("mint authority", have, allowed, &["C17"]);
    case.eq("freeze authority", d[46..50].to_vec(), vec![0; 4], &["C17"]);
    // the token program agrees
    let v = [s.partner, pv.creator, s.first_creator, pool_authority(), s.payer, s.op_claim];
    let who = v[case.t.below(v.len())];
    let t0 = s.traders[0];
    let to = s.ba(&t0);
    if s.w.get(&to).is_some() && s.w.supply(&s.base_mint) < u64::MAX {
        let mut w2 = s.w.clone();
        let ix = Ix {
            program: s.base_prog,
            metas: vec![w(s.base_mint), w(to), self::s(who)],
            data: W::default().u8(7).u64(1).0,
        };
        let out = w2.tx(&[ix]);
        case.ck(out.ok == (allowed == Some(who)), &["C17"], || format!("minting by {}: {}", s.label(&who), if out.ok { "accepted" } else { "refused" }));
        case.hit(if out.ok { "minted by the configured authority" } else { "minting refused" });
    }
}

/// the supply only changes where it has to
fn supply_history(case: &mut Case, s: &Sim, stage: Stage) {
    let now = s.w.supply(&s.base_mint);
    let _ = stage;
    match s.pv().is_migrated {
        1 => {
            let (pre, post) = (s.c.pre_supply, s.c.post_supply);
            if s.c.fixed_supply == 1 {
                case.ck(now <= s.initial_supply && s.initial_supply - now <= pre - post, &["C17"], || format!("supply {now} after migration"));
                if s.donated.0 == 0 {
                    let dust = if s.c.migration_option == 0 { 0 } else { 2 };
                    case.ck((post..=post.saturating_add(dust)).contains(&now), &["C17"], || format!("supply {now} after migration, configured {post}"));
                    case.hit("fixed supply after migration");
                }
            } else {
                case.ck(now <= s.initial_supply, &["C17"], || format!("supply {now} of {}", s.initial_supply));
            }
        }
        _ => {
            case.eq("supply", now, s.initial_supply, &["C17"]);
        }
    }
    // every token is in some account
    let sum: u128 = s.w.accts.iter().filter(|(_, a)| a.len() >= 165 && a.data()[..32] == *s.base_mint.as_ref() && (a.owner() == spl_token::ID || a.owner() == spl_token_2022::ID)).map(|(k, _)| s.w.bal(k) as u128).sum();
    case.eq("sum of all token accounts", sum, now as u128, &["C17"]);
}

pub fn c17(case: &mut Case) {
    let mut st = Style { max_ops: 10, go_on: 85, complete: 80, graduate: 95, abuse: 12, post: 35, max_post: 4, ..Style::default() };
    st.pr.t22_base = 50;
    st.pr.v1 = 35;
    st.pr.fixed = 55;
    st.w[8] = 2;
    st.w[9] = 3;
    let sib = case.t.chance(10);
    st.sib = if sib { 100 } else { 0 };
    run(case, &st, &mut |case, s, stage| {
        supply_history(case, s, stage);
        if matches!(stage, Stage::Created | Stage::Complete | Stage::Migrated | Stage::End) || case.t.chance(10) {
            token_powers(case, s);
        }
        if stage == Stage::Created && case.t.chance(15) {
            // the same mint cannot be created again
            let again = s.init_pool(s.first_creator);
            let mut b = again;
            b.expect = Expect::Reject("the pool exists");
            b.tags.push("C17");
            s.exec(case, &b);
            case.hit("pool creation repeated");
        }
    });
}

// ---- C23 -----------------------------------------------------------------------------------------------------

/// creations of every kind of account, one after the other
pub fn c23(case: &mut Case) {
    let mut st = Style { max_ops: 14, go_on: 88, complete: 65, graduate: 85, abuse: 0, post: 60, ..Style::default() };
    st.w = [40, 8, 12, 6, 5, 6, 14, 2, 0, 1, 2];
    st.pr.creation_fee = 60;
    st.pr.vesting = 50;
    run(case, &st, &mut |case, s, stage| {
        if stage == Stage::Created {
            creation(case, s);
        }
        if case.t.chance(if stage == Stage::Created { 60 } else { 6 }) {
            crate::props::auth::operators(case, s);
        }
        if case.t.chance(if stage == Stage::Created { 50 } else { 4 }) {
            metadata(case, s);
        }
        // what was recorded stays as it is
        match ConfigView::read(s.w.data(&s.config)) {
            Some(v) => {
                case.ck(v == s.c, &["C23"], || "the stored configuration changed".into());
            }
            None => {
                case.ck(false, &["C23"], || "the configuration is gone".into());
            }
        }
    });
}

fn creation(case: &mut Case, s: &Sim) {
    let pv = s.pv();
    let t = &["C23"];
    case.eq("pool keys", (pv.config, pv.creator, pv.base_mint, pv.base_vault, pv.quote_vault), (s.config, s.first_creator, s.base_mint, s.base_vault, s.quote_vault), t);
    // recomputed from the submitted curve
    let want = curve_sums(s.p.sqrt_start, &s.p.curve, s.p.threshold);
    if let (Ok(x), Some(v)) = (want, ConfigView::read(s.w.data(&s.config))) {
        case.eq("derived swap amount and migration price", (v.swap_base_amount, v.migration_sqrt_price), (x.swap_base, x.migration_price), t);
    }
}
