//! Substituted accounts and missing signatures: every variation of an instruction that would have been accepted.
//!
//! Two kinds. *Cross-pool*: some, but not all, of the accounts that belong to this pool are replaced by the ones that play the
//! same part in another pool of the same world. *Single*: one account that the program has to check is replaced by something
//! else (another account of the transaction, somebody's token account, a forged copy owned by another program), or a
//! signature is left out. All of them have to be rejected.

use crate::abi::*;
use crate::case::Case;
use crate::gen::*;
use crate::hist::*;
use crate::mocks::*;
use crate::refmodel::*;
use crate::sim::*;
use crate::world::*;
use anchor_lang::prelude::Pubkey;
use std::collections::BTreeMap;

/// another pool in the world of the first one
#[derive(Clone, Debug, Default)]
pub struct Sib {
    /// this pool's key -> the other pool's key for the same part
    pub map: BTreeMap<Pubkey, Pubkey>,
}

pub const EVIL: Pubkey = anchor_lang::prelude::pubkey!("Evi1111111111111111111111111111111111111111");

/// creates another pool; returns it (its `w` is empty) or None
pub fn add_sibling(case: &mut Case, s: &mut Sim, st: &Style) -> bool {
    let same_config = case.t.chance(35);
    let mut o;
    if same_config {
        o = s.clone();
        o.id = s.id + 1;
        o.first_creator = named("creator", o.id);
        o.creators = (0..3).map(|i| named(["creator", "creator2", "creator3"][i], o.id)).collect();
    } else {
        let q = if case.t.chance(80) { s.q.clone() } else { quote_mint(case, &st.pr) };
        let mut pr = st.pr.clone();
        if s.c.migration_option == 0 {
            pr.v1 = 80;
        }
        let (p, mut c) = params(&mut case.t, &pr, &q);
        if case.t.chance(90) {
            c.fee_claimer = named("partner", s.id + 1);
        }
        c.leftover_receiver = named("leftover", s.id + 1);
        o = Sim::new(std::mem::take(&mut s.w), s.id + 1, p, c, q);
        s.w = std::mem::take(&mut o.w);
        if s.first_creator != s.partner && case.t.chance(10) {
            o.first_creator = s.first_creator;
        }
    }
    o.base_mint = named("base", o.id);
    o.pool = pool_address(&o.config, &o.base_mint, &o.quote_mint);
    o.base_vault = vault_address(&o.base_mint, &o.pool);
    o.quote_vault = vault_address(&o.quote_mint, &o.pool);
    o.donated = (0, 0);
    o.abuse = 0;
    std::mem::swap(&mut s.w, &mut o.w);
    let ok = make_sibling(case, &mut o, same_config);
    std::mem::swap(&mut s.w, &mut o.w);
    if !ok {
        return false;
    }
    // the other pool's people have accounts for this pool's tokens
    let people = [o.partner, o.leftover, o.first_creator];
    for k in people {
        s.open(&k, true, 0);
        s.open(&k, false, 0);
    }
    let mut map = BTreeMap::new();
    let mut put = |a: Pubkey, b: Pubkey| {
        if a != b {
            map.insert(a, b);
        }
    };
    put(s.config, o.config);
    put(s.pool, o.pool);
    put(s.base_mint, o.base_mint);
    put(s.quote_mint, o.quote_mint);
    put(s.base_vault, o.base_vault);
    put(s.quote_vault, o.quote_vault);
    if s.first_creator != s.partner {
        put(s.first_creator, o.first_creator);
    }
    put(s.partner, o.partner);
    put(s.leftover, o.leftover);
    put(s.ba(&s.leftover), o.ba(&o.leftover));
    for i in 0..3 {
        put(s.ba(&s.traders[i]), o.ba(&s.traders[i]));
        put(s.qa(&s.traders[i]), o.qa(&s.traders[i]));
    }
    put(s.v1_metadata(), o.v1_metadata());
    put(s.v1_lp_mint(), o.v1_lp_mint());
    put(s.locker_base(), o.locker_base());
    put(s.pool_metadata_address(), o.pool_metadata_address());
    s.sib = Some(Box::new(Sib { map }));
    case.hit("another pool in the world");
    true
}

fn make_sibling(case: &mut Case, o: &mut Sim, same_config: bool) -> bool {
    if !same_config {
        let b = o.create_config();
        if !o.w.tx(&[b.ix]).ok {
            return false;
        }
    }
    for k in [o.partner, o.leftover, o.first_creator] {
        o.open(&k, true, 0);
    }
    o.open_base();
    let b = o.init_pool(o.first_creator);
    if !o.w.tx(&[b.ix]).ok || o.try_pv().is_none() {
        return false;
    }
    // trades, so that it has fees; often complete
    let n = 1 + case.t.raw(2);
    for i in 0..n {
        let all = case.t.chance(40);
        let t0 = o.traders[0];
        let have = o.w.bal(&o.qa(&t0));
        let amount = if all { have } else { have.min(o.c.threshold / (2 + i)).max(1) };
        let mut op = SwapOp::new(0, Mode::Partial, true, amount);
        if i == 1 && !o.complete() {
            let bb = o.w.bal(&o.ba(&t0)) / 3;
            if bb > 0 {
                op = SwapOp::new(0, Mode::Partial, false, bb);
            }
        }
        let (ix, _) = o.swap_ix(&op);
        o.w.tx(&[ix]);
    }
    if o.complete() && case.t.chance(50) {
        // somebody else's finished business next door
        if o.c.migration_option == 0 {
            let b = o.v1_create_metadata();
            o.w.tx(&[b.ix]);
        }
        if o.pv().progress == 1 {
            let c = o.pv().creator;
            let b = o.create_locker(c);
            o.w.tx(&[b.ix]);
        }
    }
    true
}

/// one rejected variation of an accepted instruction; `tags`: whose property it is
pub fn tamper(case: &mut Case, s: &Sim, b: &Built, ixs: &[Ix]) {
    let at = ixs.iter().position(|x| *x == b.ix);
    let Some(at) = at else { return };
    let mut tags = b.tags.clone();
    tags.push("C13");
    let n = b.ix.metas.len();
    let cross = s.sib.is_some() && case.t.chance(50);
    let mut w = s.w.clone();
    let mut ix = b.ix.clone();
    let what: String;
    if cross {
        let map = &s.sib.as_ref().unwrap().map;
        let mut keys: Vec<Pubkey> = vec![];
        for i in 0..n {
            let k = ix.metas[i].pubkey;
            if map.contains_key(&k) && !matches!(b.kinds[i], K::Free | K::Payer) && !keys.contains(&k) {
                keys.push(k);
            }
        }
        if keys.len() < 2 {
            return;
        }
        // a proper, non-empty subset; mostly one in, or one left out
        let mut chosen: Vec<Pubkey> = vec![];
        match case.t.raw(3) {
            0 => chosen.push(keys[case.t.below(keys.len())]),
            1 => {
                let out = case.t.below(keys.len());
                chosen = keys.clone();
                chosen.remove(out);
            }
            2 => {
                let (i, j) = (case.t.below(keys.len()), case.t.below(keys.len()));
                chosen.push(keys[i]);
                if keys.len() > 2 && j != i {
                    chosen.push(keys[j]);
                }
            }
            _ => {
                for k in &keys {
                    if case.t.chance(50) {
                        chosen.push(*k);
                    }
                }
                if chosen.is_empty() {
                    chosen.push(keys[0]);
                }
                if chosen.len() == keys.len() {
                    chosen.pop();
                }
            }
        }
        for m in ix.metas.iter_mut() {
            if chosen.contains(&m.pubkey) {
                m.pubkey = map[&m.pubkey];
            }
        }
        let names: Vec<String> = (0..n).filter(|i| ix.metas[*i].pubkey != b.ix.metas[*i].pubkey).map(|i| format!("{} (account {i})", s.label(&b.ix.metas[i].pubkey))).collect();
        what = format!("{} taken from another pool", names.join(", "));
        case.hit("accounts of another pool substituted");
    } else {
        // one position
        let cand: Vec<usize> = (0..n).filter(|i| !matches!(b.kinds[*i], K::Free) && !(b.kinds[*i] == K::Payer && !ix.metas[*i].is_signer)).collect();
        if cand.is_empty() {
            return;
        }
        let mut i = cand[case.t.below(cand.len())];
        // recipients that the program must check: more often
        let dests: Vec<usize> = cand.iter().copied().filter(|i| b.kinds[*i] == K::Dest).collect();
        let elsewhere = !dests.is_empty() && case.t.chance(30);
        if elsewhere {
            i = dests[case.t.below(dests.len())];
        }
        let old = ix.metas[i].pubkey;
        let signer = ix.metas[i].is_signer;
        if signer && (b.kinds[i] == K::Payer || case.t.chance(40)) {
            if ix.metas.iter().enumerate().any(|(j, m)| j != i && m.pubkey == old && m.is_signer) {
                return;
            }
            ix.metas[i].is_signer = false;
            what = format!("without the signature of {} (account {i})", s.label(&old));
            case.hit("signature left out");
        } else {
            let forged = named("forged", 0);
            let new = match if elsewhere { 6 } else { case.t.raw(6) } {
                0 => named("stranger", 7),
                1 => ix.metas[case.t.below(n)].pubkey,
                2 => s.qa(&mallory()),
                3 => s.ba(&mallory()),
                4 => mallory(),
                _ => {
                    // the same contents at an address anybody can make
                    match w.get(&old) {
                        None => named("stranger", 8),
                        Some(a) if a.owner() == DBC || a.owner() == LOCKER || a.owner() == DAMM_V1 || a.owner() == DAMM_V2 => {
                            let (l, d) = (a.lamports(), a.data().to_vec());
                            w.put(forged, l, &EVIL, &d);
                            forged
                        }
                        Some(a) if a.data().len() >= 72 && (a.owner() == spl_token::ID || a.owner() == spl_token_2022::ID) && a.data().len() != 82 => {
                            // a token account of the same mint that belongs to the attacker
                            let mint = Pubkey::try_from(&a.data()[..32]).unwrap();
                            let (l, o) = (a.lamports(), a.owner());
                            let bal = u64::from_le_bytes(a.data()[64..72].try_into().unwrap());
                            // or, in place of a vault, one that the authority owns too
                            let fee = b.kinds[i] == K::Dest;
                            if fee && case.t.chance(33) {
                                // the right address, but the account has been handed to somebody else
                                let mut d = a.data().to_vec();
                                d[32..64].copy_from_slice(mallory().as_ref());
                                w.put(old, l, &o, &d);
                                case.hit("the recipient's account belongs to somebody else");
                                let before = w.clone();
                                let ixs_plain = ixs;
                                let mut ixs = ixs.to_vec();
                                ixs[at] = ix;
                                let out = w.tx(&ixs);
                                case.note(|| format!("{} with {:?} {} (account {i}) owned by somebody else -> {}", b.name, b.kinds[i], s.label(&old), if out.ok { "ok".to_string() } else { format!("rejected: {}", out.err) }));
                                if out.ok && nothing_moved(s, &before, &w, ixs_plain, &[(old, old)]) {
                                    case.hit("nothing was due to the substituted account");
                                    return;
                                }
                                case.ck(!out.ok, &tags, || format!("{} accepted although {} (account {i}) belongs to somebody else", b.name, s.label(&old)));
                                return;
                            }
                            let decoy = (matches!(b.kinds[i], K::BaseVault | K::QuoteVault) || fee) && case.t.chance(50);
                            if decoy {
                                case.hit(if fee { "another token account of the same recipient" } else { "vault replaced by a decoy of the same owner" });
                            }
                            let mut d = if decoy { a.data().to_vec() } else { token_account_bytes(&mint, &mallory(), bal) };
                            if mint == WSOL && !decoy {
                                d[109..113].copy_from_slice(&1u32.to_le_bytes());
                                d[113..121].copy_from_slice(&rent_min(165).to_le_bytes());
                            }
                            w.put(forged, l, &o, &d);
                            forged
                        }
                        Some(a) => {
                            let (l, o, d) = (a.lamports(), a.owner(), a.data().to_vec());
                            w.put(forged, l, &o, &d);
                            forged
                        }
                    }
                }
            };
            if new == old {
                return;
            }
            ix.metas[i].pubkey = new;
            what = format!("{:?} {} (account {i}) replaced by {}", b.kinds[i], s.label(&old), s.label(&new));
            case.hit("account substituted");
        }
    }
    let before = w.clone();
    let ixs_plain = ixs;
    let mut ixs = ixs.to_vec();
    let changed: Vec<(Pubkey, Pubkey)> = ix.metas.iter().zip(&b.ix.metas).filter(|(m, o)| m.pubkey != o.pubkey).map(|(m, o)| (o.pubkey, m.pubkey)).collect();
    ixs[at] = ix;
    let out = w.tx(&ixs);
    case.note(|| format!("{} with {what} -> {}", b.name, if out.ok { "ok".to_string() } else { format!("rejected: {}", out.err) }));
    if out.ok && !changed.is_empty() && nothing_moved(s, &before, &w, ixs_plain, &changed) {
        case.hit("nothing was due to the substituted account");
        return;
    }
    if out.ok {
        // paid by a vault that does not owe it: that one's pool can no longer pay what it owes
        let mut plain = s.w.clone();
        plain.tx(ixs_plain);
        let mut vaults = vec![s.base_vault, s.quote_vault];
        if let Some(x) = &s.sib {
            vaults.extend(vaults.clone().iter().filter_map(|v| x.map.get(v)));
        }
        if vaults.iter().any(|v| w.bal(v) < plain.bal(v)) {
            tags.push("C01");
        }
    }
    case.ck(!out.ok, &tags, || format!("{} accepted with {what}", b.name));
}

/// The substituted accounts are token accounts that had no part in it: nothing was due to or from the
/// originals, the substitutes are as they were, and everything else ended as it does without the
/// substitution. (A transfer of nothing need not look at its accounts.)
fn nothing_moved(s: &Sim, before: &World, after: &World, plain: &[Ix], changed: &[(Pubkey, Pubkey)]) -> bool {
    let token = |a: Option<&Acc>| a.is_some_and(|a| a.data().len() >= 165 && (a.owner() == spl_token::ID || a.owner() == spl_token_2022::ID));
    let same = |a: Option<&Acc>, b: Option<&Acc>| match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => a.lamports() == b.lamports() && a.owner() == b.owner() && a.data() == b.data(),
        _ => false,
    };
    if changed.iter().any(|(old, new)| !token(s.w.get(old)) || !token(before.get(new))) {
        return false;
    }
    // it became something that moves nothing at all (a sale that finds no buyer, say)
    let idle = |k: &Pubkey| match (before.get(k).and_then(|a| PoolView::read(a.data())), after.get(k).and_then(|a| PoolView::read(a.data()))) {
        (Some(a), Some(z)) => {
            let mut z = z.clone();
            (z.last_update, z.sqrt_ref, z.vol_acc, z.vol_ref, z.has_swap) = (a.last_update, a.sqrt_ref, a.vol_acc, a.vol_ref, a.has_swap);
            before.lamports(k) == after.lamports(k) && view_diff(&a, &z).is_empty()
        }
        _ => same(before.get(k), after.get(k)),
    };
    if before.accts.keys().chain(after.accts.keys()).all(idle) {
        return true;
    }
    let mut w = s.w.clone();
    if !w.tx(plain).ok {
        return false;
    }
    for (old, new) in changed {
        if !same(s.w.get(old), w.get(old)) || !same(before.get(new), after.get(new)) || !same(before.get(old), after.get(old)) {
            return false;
        }
    }
    let skip = |k: &Pubkey| changed.iter().any(|(o, n)| o == k || n == k);
    w.accts.keys().chain(after.accts.keys()).filter(|k| !skip(k)).all(|k| same(w.get(k), after.get(k)))
}

/// nobody's right to anything
pub fn mallory() -> Pubkey {
    named("mallory", 0)
}

/// the programs called by an instruction that would succeed abuse the authority's signature (on a copy)
pub fn mischief(case: &mut Case, s: &Sim, b: &Built, ixs: &[Ix]) {
    const T: &[&str] = &["C27"];
    let auth = pool_authority();
    let mut w = s.w.clone();
    let have = w.lamports(&auth);
    let kind = case.t.raw(6) as u8;
    let amount = match case.t.raw(3) {
        0 => 1,
        1 => have,
        2 => have.saturating_sub(rent_min(0)),
        _ => case.t.logu(1, have.max(1)),
    };
    let m = crate::mocks::Mischief { nth: case.t.raw(1) as u32, kind, amount };
    w.knobs.mischief = Some(m);
    crate::mocks::mischief_reset();
    let out = w.tx(ixs);
    if !crate::mocks::mischief_done() {
        return;
    }
    let what = ["takes lamports", "takes the account", "allocates data", "takes lamports and the account", "allocates data and takes the account", "gives the account to the token program", "takes lamports and returns them"][kind as usize];
    case.note(|| format!("{} while a called program {what} of the authority ({amount} of {have} lamports) -> {}", b.name, if out.ok { "ok" } else { &out.err }));
    case.hit(&format!("a called program {what}"));
    case.hit(&format!("a called program misbehaves in {}", b.name));
    let a = w.get(&auth);
    let (owner, len, now) = (a.map(|a| a.owner()), a.map(|a| a.len()), w.lamports(&auth));
    case.ck(now >= have, T, || format!("{} succeeded although the authority lost {} lamports", b.name, have - now.min(have)));
    case.ck(owner == Some(system_id()), T, || format!("{} succeeded although the authority now belongs to {owner:?}", b.name));
    case.ck(len == Some(0), T, || format!("{} succeeded although the authority has {len:?} bytes of data", b.name));
    if kind == 6 {
        case.ck(out.ok, T, || format!("{} failed although the authority lost nothing: {}", b.name, out.err));
    }
}
