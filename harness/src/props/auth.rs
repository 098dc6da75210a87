//! Who may do what: C13, C22, claims (C12, C20, C21, C24).
use crate::abi::*;
use crate::abuse::*;
use crate::case::Case;
use crate::hist::*;
use crate::mig::V1Meta;
use crate::refmodel::*;
use crate::sim::*;
use crate::world::*;
use anchor_lang::prelude::Pubkey;

fn operator_bytes(who: &Pubkey, perm: u128) -> Vec<u8> {
    W::default().raw(&acc_disc("Operator")).raw(who.as_ref()).u128(perm).raw(&[0; 16]).0
}

fn any_signer(case: &mut Case, s: &Sim) -> (Pubkey, bool) {
    let good = case.t.chance(65);
    if good {
        return (ADMINS[case.t.below(ADMINS.len())], true);
    }
    let v = [mallory(), s.partner, s.pv().creator, s.op_claim, s.op_both, s.payer, TREASURY, named("op-new", 0), pool_authority()];
    (v[case.t.below(v.len())], false)
}

/// creation and closing of operator accounts
pub fn operators(case: &mut Case, s: &mut Sim) {
    let who = named("op-new", case.t.raw(1));
    for q in [true, false] {
        s.open(&who, q, 0);
    }
    let k = operator_address(&who);
    let (signer, admin) = any_signer(case, s);
    match case.t.raw(4) {
        0..=2 => {
            let perm = match case.t.raw(5) {
                0 => 1,
                1 => 2,
                2 => 3,
                3 => 0,
                4 => 4,
                _ => (case.t.raw(u64::MAX) as u128) << (case.t.raw(1) * 64),
            };
            let exists = s.ops.contains_key(&who);
            let mut e = Effect::default();
            e.touched.insert(k);
            e.free_lamports.insert(s.payer);
            e.lam.insert(k, rent_min(72) as i128);
            let expect = if !admin {
                Expect::Reject("not an admin")
            } else if exists {
                Expect::Reject("operator account exists")
            } else if perm == 0 || perm >= 4 {
                Expect::Reject("no such permission")
            } else {
                Expect::Ok(Box::new(e))
            };
            let metas: Metas = vec![(w(k), K::Bound), (r(who), K::Bound), (self::s(signer), K::User), (ws(s.payer), K::Payer), (r(system_id()), K::Prog)];
            let b = s.built("create_operator_account", &["C13", "C23"], metas, W::default().u128(perm).0, true, vec![], expect);
            if s.exec(case, &b) {
                s.ops.insert(who, perm);
                case.eq("operator account", s.w.data(&k).to_vec(), operator_bytes(&who, perm), &["C13", "C23"]);
                case.eq("operator account owner", s.w.get(&k).map(|a| a.owner()), Some(DBC), &["C13", "C23"]);
            }
        }
        3 => {
            let exists = s.ops.contains_key(&who);
            let to = mallory();
            if s.w.get(&to).is_none() {
                s.w.put(to, 1_000_000, &system_id(), &[]);
            }
            let l = s.w.lamports(&k) as i128;
            let mut e = Effect::default();
            e.touched.insert(k);
            e.lam.insert(k, -l);
            e.lam.insert(to, l);
            let expect = if !admin {
                Expect::Reject("not an admin")
            } else if !exists {
                Expect::Reject("no operator account")
            } else {
                Expect::Ok(Box::new(e))
            };
            let metas: Metas = vec![(w(k), K::Free), (self::s(signer), K::User), (w(to), K::Free)];
            let b = s.built("close_operator_account", &["C13"], metas, vec![], false, vec![], expect);
            if s.exec(case, &b) {
                s.ops.remove(&who);
                let closed = s.w.get(&k).map(|a| a.data().len() < 8 || a.data()[..8] == [255; 8] || a.owner() != DBC).unwrap_or(true);
                case.ck(closed, &["C13"], || "the operator account still exists".into());
                case.hit("operator account closed");
            }
        }
        _ => {
            // an account of the retired kind
            let old = named("old-operator", 0);
            let body = W::default().raw(&acc_disc("ClaimFeeOperator")).raw(who.as_ref()).raw(&[0; 128]).0;
            s.w.put(old, rent_min(body.len()), &DBC, &body);
            let to = mallory();
            if s.w.get(&to).is_none() {
                s.w.put(to, 1_000_000, &system_id(), &[]);
            }
            let l = s.w.lamports(&old) as i128;
            let mut e = Effect::default();
            e.touched.insert(old);
            e.lam.insert(old, -l);
            e.lam.insert(to, l);
            e.events = vec![("EvtCloseClaimFeeOperator", W::default().raw(old.as_ref()).raw(who.as_ref()).0)];
            let expect = if admin { Expect::Ok(Box::new(e)) } else { Expect::Reject("not an admin") };
            let metas: Metas = vec![(w(old), K::Free), (w(to), K::Free), (self::s(signer), K::User)];
            let b = s.built("close_claim_protocol_fee_operator", &["C13", "C23"], metas, vec![], true, vec![], expect);
            s.exec(case, &b);
        }
    }
    // what the operator may do now
    if case.t.chance(60) {
        let b = match case.t.raw(2) {
            0 => s.claim_protocol(who, u64::MAX, u64::MAX),
            1 => s.claim_creation_protocol(who, TREASURY),
            _ => {
                let base = case.t.chance(50);
                s.do_zap(case, who, base, u64::MAX);
                return;
            }
        };
        s.exec(case, &b);
    }
}

pub fn c13(case: &mut Case) {
    let mut st = Style { sib: 100, abuse: 70, max_ops: 14, go_on: 88, complete: 85, post: 65, ..Style::default() };
    st.w = [30, 5, 10, 6, 6, 5, 4, 8, 1, 18, 2];
    st.pr.creation_fee = 60;
    run(case, &st, &mut |case, s, stage| {
        if matches!(stage, Stage::Trading | Stage::Post | Stage::Created) && case.t.chance(20) {
            operators(case, s);
        }
        if matches!(stage, Stage::Created | Stage::Complete | Stage::Migrated) && case.t.chance(40) {
            for _ in 0..3 {
                impostor(case, s);
            }
        }
    });
}

pub fn c12(case: &mut Case) {
    let mut st = Style { sib: 35, abuse: 25, max_ops: 26, complete: 65, post: 70, ..Style::default() };
    st.w = [46, 4, 34, 6, 1, 3, 0, 1, 3, 8, 1];
    st.pr.creator_fee = 90;
    st.pr.out_fee = 55;
    run(case, &st, &mut |case, s, stage| {
        if matches!(stage, Stage::Trading | Stage::Post) && case.t.chance(15) {
            // the same claim twice in a row, and the totals
            let k = case.t.below(3);
            let (q0, b0) = (s.w.bal(&s.quote_vault), s.w.bal(&s.base_vault));
            let pv = s.pv();
            for _ in 0..2 {
                let b = match k {
                    0 => s.claim_partner(s.partner, u64::MAX, u64::MAX),
                    1 => s.claim_creator(pv.creator, u64::MAX, u64::MAX),
                    _ => s.claim_protocol(s.op_claim, u64::MAX, u64::MAX),
                };
                s.exec(case, &b);
            }
            let owed = match k {
                0 => (pv.partner_base_fee, pv.partner_quote_fee),
                1 => (pv.creator_base_fee, pv.creator_quote_fee),
                _ => (s.protocol_base(&pv, u64::MAX).0, s.protocol_quote(&pv, u64::MAX).0),
            };
            let paid = (b0 - s.w.bal(&s.base_vault).min(b0), q0 - s.w.bal(&s.quote_vault).min(q0));
            case.eq("two claims of everything pay together", paid, owed, &["C12"]);
            if paid.0 + paid.1 > 0 {
                case.hit("claimed twice");
            }
        }
    });
}

pub fn c20(case: &mut Case) {
    let mut st = Style { sib: 30, abuse: 40, max_ops: 8, go_on: 85, complete: 40, graduate: 60, ..Style::default() };
    st.w = [15, 3, 3, 1, 50, 5, 8, 3, 1, 20, 0];
    st.pr.creation_fee = 88;
    st.bundle = 10;
    let mut s = prepare(case, &st, 0);
    let payer0 = s.payer;
    if case.t.chance(40) && s.c.creation_fee > 0 {
        // the payer can only just, or not quite, afford it
        let b = s.create_config();
        if !s.exec(case, &b) {
            return;
        }
        check_config(case, &s);
        s.open_base();
        let b = s.init_pool(s.first_creator);
        let mut dry = s.w.clone();
        let l0 = dry.lamports(&payer0);
        if !dry.tx(&[b.ix.clone()]).ok {
            s.exec(case, &b);
            return;
        }
        let cost = l0 - dry.lamports(&payer0);
        let rent: u64 = [s.base_mint, s.base_vault, s.quote_vault, metadata_address(&s.base_mint), s.pool].iter().map(|k| dry.lamports(k).saturating_sub(s.w.lamports(k))).sum();
        case.eq("lamports the payer spent", cost, rent, &["C20"]);
        let short = case.t.range(1, s.c.creation_fee);
        let mut poor = s.clone();
        poor.w.accts.get_mut(&payer0).unwrap().set_lamports(cost - short);
        let ok = poor.w.tx(&[b.ix.clone()]).ok;
        case.ck(!ok, &["C20"], || format!("pool created although the payer lacks {short} lamports of {cost}"));
        let mut exact = s.w.clone();
        exact.accts.get_mut(&payer0).unwrap().set_lamports(cost);
        let ok = exact.tx(&[b.ix.clone()]).ok;
        case.ck(ok, &["C20"], || format!("pool not created although the payer has the {cost} lamports it costs"));
        case.hit("payer with little money");
        if !s.exec(case, &b) {
            return;
        }
        check_token(case, &s);
    } else if !create(case, &mut s, &st) {
        return;
    }
    if case.t.chance(st.sib) {
        add_sibling(case, &mut s, &st);
    }
    let legacy = case.t.chance(20);
    if legacy {
        // a pool created by an earlier version of the program: it paid a flat fee that is still in the account
        let off = POOL_LEN;
        let _ = off;
        make_legacy(&mut s);
        case.hit("pool that paid the earlier flat creation fee");
    }
    let start = s.w.lamports(&s.pool);
    let (ps, prs) = split_creation_fee(s.c.creation_fee);
    let mut claimed = 0u64;
    let mut log: Vec<u64> = vec![];
    {
        let log = &mut log;
        run_from(case, &mut s, &st, &mut |_case, s, _| {
            log.push(s.w.lamports(&s.pool));
        });
    }
    if case.failed() {
        return;
    }
    for _ in 0..3 {
        if case.t.chance(50) {
            let b = s.claim_creation_partner(s.partner, named("somebody", 0));
            s.exec(case, &b);
        }
        if case.t.chance(50) {
            let op = if case.t.chance(50) { s.op_claim } else { s.op_both };
            let b = s.claim_creation_protocol(op, TREASURY);
            s.exec(case, &b);
        }
    }
    let left = s.w.lamports(&s.pool);
    claimed += start - left.min(start);
    let flat = if legacy { 10_000_000 } else { 0 };
    let ok = [0, ps, prs, ps + prs].iter().any(|x| claimed == *x || claimed == *x + flat);
    case.ck(ok && left + claimed == start, &["C20"], || format!("{claimed} lamports taken from the pool, of {ps} + {prs}"));
    if s.c.creation_fee > 0 && claimed >= ps + prs {
        case.hit("creation fee fully claimed");
    }
}

/// turns the pool into one that an earlier version created
pub fn make_legacy(s: &mut Sim) {
    let k = s.pool;
    let old = s.pv();
    let off = legacy_offset(s);
    let a = s.w.accts.get_mut(&k).unwrap();
    a.data_mut()[off] = 1;
    let l = a.lamports();
    a.set_lamports(l + 10_000_000);
    let new = s.pv();
    assert!(new.legacy_bits == 1 && old.legacy_bits == 0, "HARNESS: legacy flag");
}

/// where the legacy flag is stored, found by trying
fn legacy_offset(s: &Sim) -> usize {
    thread_local! { static AT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
    let c = AT.with(|x| x.get());
    if c > 0 {
        return c;
    }
    let d = s.w.data(&s.pool).to_vec();
    for i in 8..d.len() {
        let mut x = d.clone();
        if x[i] == 0 {
            x[i] = 1;
            if PoolView::read(&x).map(|v| v.legacy_bits == 1).unwrap_or(false) {
                AT.with(|c| c.set(i));
                return i;
            }
        }
    }
    panic!("HARNESS: no legacy flag");
}

pub fn c21(case: &mut Case) {
    let mut st = Style { sib: 25, abuse: 25, max_ops: 10, go_on: 80, complete: 96, graduate: 92, post: 85, max_post: 14, overrun: 40, ..Style::default() };
    st.w = [60, 5, 5, 2, 0, 3, 0, 20, 2, 5, 1];
    st.pr.migration_fee = 75;
    st.pr.fixed = 60;
    run(case, &st, &mut |case, s, stage| {
        if matches!(stage, Stage::Complete | Stage::Post | Stage::Migrated) && case.t.chance(35) {
            // every order pays the same
            let mut a = s.clone();
            a.abuse = 0;
            let pv = s.pv();
            let n = 1 + case.t.raw(5);
            for _ in 0..n {
                let b = match case.t.raw(8) {
                    0 => a.withdraw_surplus(false, a.partner),
                    1 => a.withdraw_surplus(true, pv.creator),
                    2 => a.withdraw_migration_fee(0, a.partner),
                    3 => a.withdraw_migration_fee(1, pv.creator),
                    4 => a.claim_partner(a.partner, u64::MAX, u64::MAX),
                    5 => a.claim_creator(pv.creator, u64::MAX, u64::MAX),
                    6 => a.claim_protocol(a.op_claim, u64::MAX, u64::MAX),
                    7 => a.withdraw_leftover(a.leftover),
                    _ => a.withdraw_migration_fee(2 + case.t.raw(253) as u8, a.partner),
                };
                a.exec(case, &b);
            }
            case.hit("withdrawals in another order");
        }
    });
}

pub fn c22(case: &mut Case) {
    let mut st = Style { sib: 30, abuse: 35, max_ops: 14, go_on: 88, complete: 85, graduate: 92, post: 80, same: 15, ..Style::default() };
    st.w = [35, 3, 12, 2, 2, 30, 5, 5, 1, 12, 0];
    st.pr.v1 = 65;
    st.pr.creator_fee = 90;
    run(case, &st, &mut |case, s, stage| {
        if matches!(stage, Stage::Complete | Stage::Migrated | Stage::Post | Stage::End) && case.t.chance(50) {
            transfer(case, s);
        }
        if s.pv().creator != s.first_creator && case.t.chance(40) {
            creator_rights(case, s);
        }
        if matches!(stage, Stage::Migrated | Stage::Post | Stage::End) && s.c.migration_option == 0 && case.t.chance(40) {
            foreign_metadata(case, s);
        }
        if stage == Stage::Migrated && s.c.migration_option == 0 && case.t.chance(60) {
            // shares one by one, with an attempt after each
            for _ in 0..6 {
                let who = if case.t.chance(50) { s.partner } else { s.pv().creator };
                let claim = case.t.chance(50);
                s.do_v1_take(case, who, claim);
                transfer(case, s);
            }
        }
    });
}

/// a transfer that shows other metadata than the pool's own, on a copy
fn foreign_metadata(case: &mut Case, s: &mut Sim) {
    if s.v1_meta().is_none() {
        return;
    }
    let mut a = s.clone();
    a.abuse = 0;
    let own = a.v1_metadata();
    let mut d = a.w.data(&own).to_vec();
    let mut owner = DBC;
    let other = named("metadata-of-another", 0);
    // everything done
    let done = V1Meta::DONE_AT;
    d[done..done + 4].copy_from_slice(&[1; 4]);
    let what = match case.t.raw(4) {
        0 | 1 => {
            d[8..40].copy_from_slice(named("another-pool", 0).as_ref());
            "another pool's metadata"
        }
        2 => {
            d[8..40].copy_from_slice(a.config.as_ref());
            "metadata of something else"
        }
        3 => {
            owner = crate::abuse::EVIL;
            "metadata made up by another program"
        }
        _ => {
            d[0] ^= 1;
            "an account of another kind"
        }
    };
    a.w.put(other, rent_min(d.len()), &owner, &d);
    let cur = a.pv().creator;
    let to = named("stranger", 4);
    let mut b = a.transfer_creator(cur, to);
    if case.t.chance(15) {
        b.ix.metas.pop();
        b.kinds.pop();
    } else {
        let n = b.ix.metas.len();
        b.ix.metas[n - 1].pubkey = other;
    }
    if a.pv().progress == 3 {
        b.expect = Expect::Reject("not the pool's metadata");
    }
    case.note(|| format!("transfer with {what}"));
    a.exec(case, &b);
    case.hit(&format!("transfer with {what}"));
}

/// exactly the current creator has the creator's rights
fn creator_rights(case: &mut Case, s: &mut Sim) {
    let cur = s.pv().creator;
    let others: Vec<Pubkey> = s.creators.iter().copied().filter(|c| *c != cur).collect();
    case.hit("rights after a transfer");
    for who in [others[0], others[others.len() - 1], cur] {
        let mut a = s.clone();
        a.abuse = 0;
        let b = match case.t.raw(5) {
            0 => a.claim_creator(who, u64::MAX, u64::MAX),
            1 => a.withdraw_surplus(true, who),
            2 => a.withdraw_migration_fee(1, who),
            3 => a.transfer_creator(who, named("stranger", 3)),
            4 => {
                let x = ("a".to_string(), "b".to_string(), "c".to_string());
                a.create_pool_metadata(who, &x)
            }
            _ => a.create_locker(who),
        };
        a.exec(case, &b);
    }
}

pub fn c24(case: &mut Case) {
    let mut st = Style { sib: 30, abuse: 35, max_ops: 18, go_on: 90, complete: 70, graduate: 80, post: 70, ..Style::default() };
    st.w = [50, 3, 12, 30, 1, 1, 0, 1, 2, 5, 1];
    st.pr.out_fee = 60;
    run(case, &st, &mut |case, s, stage| {
        if matches!(stage, Stage::Trading | Stage::Post | Stage::Complete | Stage::Migrated) && case.t.chance(40) {
            zap_shapes(case, s);
        }
    });
}

/// zap transactions that do not provably zap the claimed amount out to the treasury
pub fn zap_shapes(case: &mut Case, s: &mut Sim) {
    let base = case.t.chance(50);
    let op = if case.t.chance(40) { s.op_both } else { s.op_zap };
    let pv = s.pv();
    let have = if base { pv.protocol_base_fee } else { pv.protocol_quote_fee };
    let max = if case.t.chance(70) { u64::MAX } else { case.t.range(0, have.max(1)) };
    let (mut b, a) = s.zap_protocol(op, base, max);
    if !matches!(b.expect, Expect::Ok(_)) {
        return;
    }
    let out = s.zap_out(op, base, a);
    let before = s.w.bal(&out.metas[0].pubkey);
    let put = |ix: &Ix, at: usize, v: &[u8]| {
        let mut x = ix.clone();
        x.data[at..at + v.len()].copy_from_slice(v);
        x
    };
    // data: 8 discriminator, 1 percentage, 2 offset, 8 balance before, 8 maximum amount
    let mut ixs: Option<Vec<Ix>> = None;
    let why: &str;
    match case.t.raw(16) {
        0 => {
            why = "no zap-out";
            ixs = Some(vec![b.ix.clone()]);
        }
        1 => {
            why = "the zap-out comes first";
            ixs = Some(vec![out.clone(), b.ix.clone()]);
        }
        2 => {
            why = "only part of the amount is zapped out";
            let pct = case.t.raw(99) as u8;
            ixs = Some(vec![b.ix.clone(), put(&out, 8, &[pct])]);
        }
        3 => {
            why = "the balance before is overstated";
            let add = case.t.range(1, a);
            ixs = Some(vec![b.ix.clone(), put(&out, 11, &before.saturating_add(add).to_le_bytes())]);
            if before.checked_add(add).is_none() {
                return;
            }
        }
        4 => {
            why = "the zap-out is capped below the amount";
            let cap = case.t.raw(a - 1);
            ixs = Some(vec![b.ix.clone(), put(&out, 19, &cap.to_le_bytes())]);
        }
        5 => {
            why = "the zapped-out token goes somewhere else";
            let mut o = out.clone();
            let to = [mallory(), s.op_zap, s.op_both, s.partner][case.t.below(4)];
            o.metas[1].pubkey = if base { s.qa(&to) } else { s.ba(&to) };
            ixs = Some(vec![b.ix.clone(), o]);
        }
        6 => {
            why = "another account is zapped out";
            let mut o = out.clone();
            o.metas[0].pubkey = if base { s.ba(&mallory()) } else { s.qa(&mallory()) };
            ixs = Some(vec![b.ix.clone(), o]);
        }
        7 => {
            why = "another program's instruction";
            let mut o = out.clone();
            o.program = crate::abi::PUPPET;
            o.data = crate::mocks::puppet_data(&[]);
            ixs = Some(vec![b.ix.clone(), o]);
        }
        8 => {
            why = "another instruction of the zap program";
            let mut o = out.clone();
            o.data[0] ^= 1 + case.t.raw(200) as u8;
            ixs = Some(vec![b.ix.clone(), o]);
        }
        9 => {
            why = "one zap-out for two claims";
            // two partial claims, one zap-out that covers one of them
            if a < 2 {
                return;
            }
            let half = case.t.range(1, a - 1);
            let (b1, a1) = s.zap_protocol(op, base, half);
            if !matches!(b1.expect, Expect::Ok(_)) || a1 == a {
                return;
            }
            let o = s.zap_out(op, base, a1);
            ixs = Some(vec![b1.ix.clone(), b1.ix.clone(), o]);
        }
        10 => {
            why = "called by another program";
            ixs = Some(vec![puppet(&[b.ix.clone()], false), out.clone()]);
        }
        11 => {
            why = "paid to another account of the operator or of somebody else";
            let i = b.kinds.iter().position(|k| *k == K::Dest).unwrap();
            let to = [mallory(), TREASURY, s.partner, s.op_claim, op][case.t.below(5)];
            let mut k = if base { s.ba(&to) } else { s.qa(&to) };
            if to == op {
                // one of the operator's, at another address
                let Some(a) = s.w.get(&k) else { return };
                let (l, o, d) = (a.lamports(), a.owner(), a.data().to_vec());
                k = named("operator's other account", base as u64);
                s.w.put(k, l, &o, &d);
                case.hit("zap into another account of the operator");
            }
            let bal = s.w.bal(&k);
            let mut x = b.ix.clone();
            x.metas[i].pubkey = k;
            let mut o = put(&out, 11, &bal.to_le_bytes());
            o.metas[0].pubkey = k;
            ixs = Some(vec![x, o]);
        }
        12 => {
            why = "the zap-out is inside another program's instruction";
            ixs = Some(vec![b.ix.clone(), puppet(&[out.clone()], false)]);
        }
        _ => {
            // accepted: something harmless in between or around, the account not empty before
            why = "";
            let other = s.create_partner_metadata(named("unrelated", s.swaps + 500), &("n".into(), "w".into(), "l".into()));
            let first = s.w.clone().tx(&[other.ix.clone()]).ok;
            if let Expect::Ok(e) = &mut b.expect {
                e.touched.insert(other.ix.metas[0].pubkey);
                e.free_lamports.insert(other.ix.metas[0].pubkey);
                e.free_lamports.insert(s.payer);
                if let Expect::Ok(o) = &other.expect {
                    e.events.extend(o.events.clone());
                }
            }
            if first {
                let v = match case.t.raw(1) {
                    0 => vec![other.ix, b.ix.clone(), out.clone()],
                    _ => {
                        case.hit("zap-out later in the transaction");
                        vec![b.ix.clone(), other.ix, out.clone()]
                    }
                };
                ixs = Some(v);
            }
        }
    }
    let Some(ixs) = ixs else { return };
    if why.is_empty() {
        let sure = ixs[1] == b.ix;
        if !sure {
            // whether the zap-out may come later is the program's choice; if accepted the effects must be right
            if !s.w.clone().tx(&ixs).ok {
                case.hit("zap-out not directly after the claim rejected");
                return;
            }
        }
        s.exec_ixs(case, &b, &ixs);
        return;
    }
    let out = s.w.clone().tx(&ixs);
    case.note(|| format!("zap: {why} -> {}", if out.ok { "ok" } else { "rejected" }));
    case.hit(&format!("zap refused: {why}"));
    case.ck(!out.ok, &["C24", "C13"], || format!("zap accepted: {why}"));
}
