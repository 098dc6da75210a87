//! Vesting escrow and graduation into either AMM: builders, predictions and checks of the created accounts.

use crate::abi::*;
use crate::case::Case;
use crate::mocks::*;
use crate::refmath::*;
use crate::refmodel::*;
use crate::sim::*;
use crate::world::*;
use anchor_lang::prelude::Pubkey;
use std::collections::BTreeMap;

#[derive(Clone, Default, Debug)]
pub struct Mig {
    pub plan: Option<V2Plan>,
    /// LP minted by the DAMM v1 migration
    pub v1_lp: u64,
    /// LP tokens that somebody else sent to the program's account
    pub lp_donated: u64,
    /// who signs the next LP claim (anybody may)
    pub sender: Option<Pubkey>,
    pub v1: Option<V1Plan>,
    /// LP shares paid out so far, in the order of `V1Meta::shares`
    pub taken: [bool; 4],
    pub metadata_created: bool,
    /// which accounts of the second position are left out
    pub omit: u8,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Dist {
    pub unlocked: u128,
    pub permanent: u128,
    pub vested: u128,
    pub perm_pct: u8,
    pub lv: LiqVesting,
}

impl Dist {
    pub fn total(&self) -> u128 {
        self.unlocked + self.permanent + self.vested
    }
    pub fn adjust(&mut self, total: u128) {
        let locked = self.lv.pct as u128 + self.perm_pct as u128;
        if locked == 0 {
            self.unlocked = total;
            self.permanent = 0;
            self.vested = 0;
        } else {
            self.unlocked = total.min(self.unlocked);
            let rest = total - self.unlocked;
            self.vested = mul_div_u128(rest, self.lv.pct as u128, locked);
            self.permanent = rest - self.vested;
        }
    }
}

/// (partner, creator)
pub fn distribution(c: &ConfigView, l: u128) -> (Dist, Dist) {
    let pct = |p: u8| mul_div_u128(l, p as u128, 100);
    let partner = Dist {
        unlocked: pct(c.partner_liq),
        permanent: pct(c.partner_locked),
        vested: pct(c.partner_vest.1.pct),
        perm_pct: c.partner_locked,
        lv: c.partner_vest.1.clone(),
    };
    let mut creator = Dist {
        unlocked: 0,
        permanent: pct(c.creator_locked),
        vested: pct(c.creator_vest.1.pct),
        perm_pct: c.creator_locked,
        lv: c.creator_vest.1.clone(),
    };
    creator.unlocked = l - partner.total() - creator.total();
    (partner, creator)
}

#[derive(Clone, Debug, Default)]
pub struct V1Plan {
    pub base: u64,
    pub quote: u64,
    pub cut: (u64, u64),
    pub lp: u64,
    /// partner locked, partner unlocked, creator locked, creator unlocked
    pub shares: [u64; 4],
    pub burn: u64,
    pub left: u64,
}

#[derive(Clone, Debug, Default)]
pub struct V2Plan {
    pub compounding: bool,
    pub cut: (u64, u64),
    pub price: u128,
    pub dead: u128,
    pub first: Dist,
    pub second: Dist,
    pub first_owner: Pubkey,
    pub second_owner: Pubkey,
    pub dep1: (u64, u64),
    pub second_liq: u128,
    pub dep2: (u64, u64),
    pub burn: u64,
    pub left: u64,
    pub dust: u64,
    pub at: u64,
}

pub struct V1Meta {
    pub pool: Pubkey,
    pub partner: Pubkey,
    pub lp_mint: Pubkey,
    /// partner locked, partner unlocked, creator locked, creator unlocked
    pub shares: [u64; 4],
    /// done flags in the same order
    pub done: [bool; 4],
}

impl V1Meta {
    /// where the four done flags are
    pub const DONE_AT: usize = 8 + 32 * 4 + 8 * 4 + 1;
    pub fn read(d: &[u8]) -> Option<Self> {
        if d.len() < 8 + 96 + 32 + 32 + 5 || d[..8] != acc_disc("MeteoraDammMigrationMetadata") {
            return None;
        }
        let mut x = R(&d[8..]);
        let pool = x.key();
        x.take(32);
        let partner = x.key();
        let lp_mint = x.key();
        let (pl, p, cl, c) = (x.u64(), x.u64(), x.u64(), x.u64());
        x.u8();
        let (cls, pls, ccs, pcs) = (x.u8(), x.u8(), x.u8(), x.u8());
        Some(V1Meta { pool, partner, lp_mint, shares: [pl, p, cl, c], done: [pls == 1, pcs == 1, cls == 1, ccs == 1] })
    }
}

const FIXED_BPS: [u64; 6] = [25, 30, 100, 200, 400, 600];

impl Sim {
    pub fn burn_and_left(&self, left: u64) -> (u64, u64) {
        if self.c.fixed_supply == 1 {
            let burn = left.min(self.c.pre_supply - self.c.post_supply);
            (burn, left - burn)
        } else {
            (left, 0)
        }
    }

    fn k(&self, label: &str) -> Pubkey {
        named(label, self.id)
    }

    // ---- vesting escrow ----------------------------------------------------------------------------------------

    pub fn locker_base(&self) -> Pubkey {
        pda(&[b"base_locker", self.pool.as_ref()], &DBC)
    }
    pub fn escrow(&self) -> Pubkey {
        escrow_address(&self.locker_base())
    }

    pub fn create_locker(&mut self, creator: Pubkey) -> Built {
        let pv = self.pv();
        let escrow = self.escrow();
        let token = self.open(&escrow, false, 0);
        let metas: Metas = vec![
            (w(self.pool), K::Pool),
            (r(self.config), K::Config),
            (w(pool_authority()), K::Fixed),
            (w(self.base_vault), K::BaseVault),
            (w(self.base_mint), K::BaseMint),
            (w(self.locker_base()), K::Bound),
            (r(creator), K::Bound),
            (w(escrow), K::Free),
            (w(token), K::Free),
            (ws(self.payer), K::Payer),
            (r(self.base_prog), K::Prog),
            (r(LOCKER), K::Prog),
            (r(pda(&[b"__event_authority"], &LOCKER)), K::Free),
            (r(system_id()), K::Prog),
        ];
        let expect = if pv.progress != 1 {
            Expect::Reject(if pv.progress == 0 { "curve not complete" } else { "no vesting step due" })
        } else if creator != pv.creator {
            Expect::Reject("not the pool's creator")
        } else {
            let mut e = Effect::default();
            e.mv(self.base_vault, token, self.c.vesting_total() as u64);
            e.free_lamports.insert(self.payer);
            e.free_lamports.insert(escrow);
            e.touched.insert(escrow);
            let mut n = pv;
            n.progress = 2;
            e.pool = Some((self.pool, n));
            Expect::Ok(Box::new(e))
        };
        self.built("create_locker", &["C16", "C11"], metas, vec![], false, vec![], expect)
    }

    pub fn do_locker(&mut self, case: &mut Case) -> bool {
        let creator = self.pv().creator;
        let b = self.create_locker(creator);
        let finish = self.pv().finish_time;
        let ok = self.exec(case, &b);
        if ok && matches!(b.expect, Expect::Ok(_)) {
            let want = &self.c.vesting;
            match Escrow::read(self.w.data(&self.escrow())) {
                None => {
                    case.ck(false, &["C16"], || "no vesting escrow exists".into());
                }
                Some(e) => {
                    case.eq("escrow recipient", e.recipient, creator, &["C16", "C22"]);
                    case.eq("escrow token", e.mint, self.base_mint, &["C16"]);
                    case.eq(
                        "escrow schedule",
                        (e.cliff_unlock, e.per_period, e.periods, e.frequency),
                        (want.cliff_unlock, want.amount_per_period, want.number_of_period, want.frequency),
                        &["C16"],
                    );
                    case.eq("escrow cliff", e.cliff, finish.saturating_add(want.cliff_duration), &["C16"]);
                    case.ck(e.start <= e.cliff, &["C16"], || "escrow starts after its cliff".into());
                    case.eq("escrow funds", e.funded as u128, self.c.vesting_total(), &["C16"]);
                    case.ck(matches!(e.cancel_mode, 0 | 1), &["C16"], || format!("escrow cancel mode {}", e.cancel_mode));
                    case.ck(matches!(e.update_recipient_mode, 0 | 2), &["C16"], || {
                        format!("escrow recipient mode {}", e.update_recipient_mode)
                    });
                }
            }
        }
        ok
    }

    // ---- DAMM v1 -----------------------------------------------------------------------------------------------

    pub fn v1_metadata(&self) -> Pubkey {
        pda(&[b"meteora", self.pool.as_ref()], &DBC)
    }
    pub fn v1_meta(&self) -> Option<V1Meta> {
        V1Meta::read(self.w.data(&self.v1_metadata()))
    }
    pub fn v1_all_done(&self) -> bool {
        match self.v1_meta() {
            None => false,
            Some(m) => (0..4).all(|i| m.shares[i] == 0 || self.mig.taken[i]),
        }
    }
    pub fn v1_config(&self) -> Pubkey {
        named("v1-config", FIXED_BPS[self.c.migration_fee_option.min(5) as usize])
    }
    pub fn v1_pool(&self) -> Pubkey {
        self.k("v1-pool")
    }
    pub fn v1_lp_mint(&self) -> Pubkey {
        pda(&[b"lp_mint", self.v1_pool().as_ref()], &DAMM_V1)
    }
    /// for one side: vault, its token account, its LP mint, the pool's LP account, the protocol's fee account
    pub fn v1_side(&self, mint: &Pubkey) -> [Pubkey; 5] {
        let pool = self.v1_pool();
        let vault = pda(&[b"vault", mint.as_ref()], &VAULT_PROGRAM);
        [
            vault,
            pda(&[b"token_vault", vault.as_ref()], &VAULT_PROGRAM),
            pda(&[b"lp_mint", vault.as_ref()], &VAULT_PROGRAM),
            pda(&[vault.as_ref(), pool.as_ref()], &DAMM_V1),
            pda(&[b"fee", mint.as_ref(), pool.as_ref()], &DAMM_V1),
        ]
    }
    pub fn lp_account(&self, owner: &Pubkey) -> Pubkey {
        ata(owner, &self.v1_lp_mint(), &spl_token::ID)
    }
    pub fn put_v1_config(&mut self, key: Pubkey, c: &V1Config) {
        let d = c.bytes();
        self.w.put(key, rent_min(d.len()), &DAMM_V1, &d);
    }

    pub fn v1_create_metadata(&self) -> Built {
        let k = self.v1_metadata();
        let metas: Metas = vec![
            (r(self.pool), K::Pool),
            (r(self.config), K::Config),
            (w(k), K::Bound),
            (ws(self.payer), K::Payer),
            (r(system_id()), K::Prog),
        ];
        let expect = if self.c.migration_option != 0 {
            Expect::Reject("not a DAMM v1 configuration")
        } else if self.made(&k) {
            Expect::Reject("migration metadata exists")
        } else {
            let mut e = Effect::default();
            e.touched.insert(k);
            e.free_lamports.insert(k);
            e.rent.insert(k);
            e.free_lamports.insert(self.payer);
            e.events = vec![("EvtCreateMeteoraMigrationMetadata", W::default().raw(self.pool.as_ref()).0)];
            e.pool = Some((self.pool, self.pv()));
            Expect::Ok(Box::new(e))
        };
        self.built("migration_meteora_damm_create_metadata", &["C14"], metas, vec![], true, vec![], expect)
    }

    pub fn do_v1_metadata(&mut self, case: &mut Case) -> bool {
        let b = self.v1_create_metadata();
        let ok = self.exec(case, &b);
        if ok && matches!(b.expect, Expect::Ok(_)) {
            match self.v1_meta() {
                None => {
                    case.ck(false, &["C14", "C23"], || "no migration metadata".into());
                }
                Some(m) => {
                    case.eq("metadata pool and partner", (m.pool, m.partner), (self.pool, self.partner), &["C14", "C23"]);
                    case.eq("metadata shares", (m.shares, m.done), ([0; 4], [false; 4]), &["C14", "C23"]);
                }
            }
        }
        ok
    }

    pub fn v1_plan(&self) -> Result<V1Plan, &'static str> {
        let pv = self.pv();
        let quote = migration_quote(self.c.threshold, self.c.migration_fee_pct);
        let base = self.c.migration_base_threshold;
        let vault = self.w.bal(&self.base_vault);
        if (vault as u128) < base as u128 + pv.base_fees() {
            return Err("not enough base");
        }
        let cut = (protocol_cut(base, pv.liq_migration_fee_bps), protocol_cut(quote, pv.liq_migration_fee_bps));
        let (a, q) = (base - cut.0, quote - cut.1);
        if a == 0 || q == 0 {
            return Err("nothing to deposit");
        }
        let lp = if self.w.knobs.v1_lp > 0 { self.w.knobs.v1_lp } else { sqrt_u128(a as u128 * q as u128) as u64 };
        let (p, c) = distribution(&self.c, lp as u128);
        let left = vault - a - cut.0 - pv.base_fees() as u64;
        let (burn, left) = self.burn_and_left(left);
        Ok(V1Plan {
            base: a,
            quote: q,
            cut,
            lp,
            shares: [p.permanent as u64, p.unlocked as u64, c.permanent as u64, c.unlocked as u64],
            burn,
            left,
        })
    }

    pub fn v1_migrate(&mut self, damm_config: Pubkey, config_ok: bool) -> Built {
        let pv = self.pv();
        let auth = pool_authority();
        let (sa, sb) = (self.v1_side(&self.base_mint), self.v1_side(&self.quote_mint));
        let vaults = [sa[1], sb[1]];
        for (k, m, p) in [(vaults[0], self.base_mint, self.base_prog), (vaults[1], self.quote_mint, self.quote_prog)] {
            if self.w.get(&k).is_none() {
                let mut d = token_account_bytes(&m, &pda(&[b"vault", m.as_ref()], &VAULT_PROGRAM), 0);
                if m == WSOL {
                    d[109..113].copy_from_slice(&1u32.to_le_bytes());
                    d[113..121].copy_from_slice(&rent_min(165).to_le_bytes());
                }
                self.w.put(k, rent_min(165), &p, &d);
            }
        }
        let lp = self.lp_account(&auth);
        let free = |k: Pubkey| (w(k), K::Free);
        let metas: Metas = vec![
            (w(self.pool), K::Pool),
            (w(self.v1_metadata()), K::Meta),
            (r(self.config), K::Config),
            (w(auth), K::Fixed),
            free(self.v1_pool()),
            (r(damm_config), K::Bound),
            free(self.v1_lp_mint()),
            (w(self.base_mint), K::BaseMint),
            (r(self.quote_mint), K::QuoteMint),
            free(sa[0]),
            free(sb[0]),
            free(vaults[0]),
            free(vaults[1]),
            free(sa[2]),
            free(sb[2]),
            free(sa[3]),
            free(sb[3]),
            (w(self.base_vault), K::BaseVault),
            (w(self.quote_vault), K::QuoteVault),
            free(lp),
            free(sa[4]),
            free(sb[4]),
            (ws(self.payer), K::Payer),
            (r(RENT_SYSVAR), K::Free),
            free(metadata_address(&self.v1_lp_mint())),
            (r(METAPLEX), K::Free),
            (r(DAMM_V1), K::Prog),
            (r(VAULT_PROGRAM), K::Free),
            (r(spl_token::ID), K::Prog),
            (r(ATA_PROGRAM), K::Free),
            (r(system_id()), K::Prog),
        ];
        let meta_exists = self.v1_meta().is_some();
        let expect = if self.c.migration_option != 0 {
            Expect::Reject("not a DAMM v1 configuration")
        } else if !meta_exists {
            Expect::Reject("no migration metadata")
        } else if pv.progress != 2 {
            Expect::Reject("not in the migration step")
        } else if !config_ok {
            Expect::Reject("wrong AMM configuration")
        } else {
            match self.v1_plan() {
                Err(e) => Expect::Reject(e),
                Ok(p) => {
                    let mut e = Effect::default();
                    e.mv(self.base_vault, vaults[0], p.base);
                    e.mv(self.quote_vault, vaults[1], p.quote);
                    *e.tok.entry(self.base_vault).or_insert(0) -= p.burn as i128;
                    e.supply.insert(self.base_mint, -(p.burn as i128));
                    e.supply.insert(self.v1_lp_mint(), p.lp as i128);
                    e.tok.insert(lp, p.lp as i128);
                    for k in [self.v1_pool(), self.v1_lp_mint(), lp, self.v1_metadata(), metadata_address(&self.v1_lp_mint())] {
                        e.touched.insert(k);
                        e.free_lamports.insert(k);
                    }
                    e.free_lamports.insert(self.payer);
                    let mut n = pv;
                    n.progress = 3;
                    n.is_migrated = 1;
                    n.mig_base_fee = p.cut.0;
                    n.mig_quote_fee = p.cut.1;
                    e.pool = Some((self.pool, n));
                    Expect::Ok(Box::new(e))
                }
            }
        };
        self.built("migrate_meteora_damm", &["C14", "C11", "C16"], metas, vec![], false, vec![], expect)
    }

    fn do_v1(&mut self, case: &mut Case) -> bool {
        let cfg = self.v1_config();
        let bps = FIXED_BPS[self.c.migration_fee_option.min(5) as usize];
        self.put_v1_config(cfg, &V1Config::good(bps));
        let b = self.v1_migrate(cfg, true);
        let plan = if matches!(b.expect, Expect::Ok(_)) { self.v1_plan().ok() } else { None };
        if let Some(p) = &plan {
            self.migrated_base_left = p.left;
        }
        let ok = self.exec(case, &b);
        if !ok && plan.is_some() {
            self.migrated_base_left = 0;
        }
        if let (true, Some(p)) = (ok, plan) {
            match self.v1_meta() {
                None => {
                    case.ck(false, &["C14"], || "no migration metadata".into());
                }
                Some(m) => {
                    case.eq("LP mint recorded", m.lp_mint, self.v1_lp_mint(), &["C14"]);
                    case.eq("LP shares (partner locked, unlocked, creator locked, unlocked)", m.shares, p.shares, &["C14"]);
                    case.eq("LP shares done", m.done, [false; 4], &["C14"]);
                    let sum: u128 = m.shares.iter().map(|x| *x as u128).sum();
                    case.ck(sum <= p.lp as u128, &["C14"], || format!("shares {sum} of {} LP", p.lp));
                }
            }
            self.after_migration(case);
            self.mig.v1_lp = p.lp;
            self.mig.v1 = Some(p);
        }
        ok
    }

    /// what holds for the token after either migration
    fn after_migration(&self, case: &mut Case) {
        if self.c.fixed_supply == 1 && self.c.token_authority != 3 && self.c.token_authority != 4 {
            let left = self.initial_supply - self.w.supply(&self.base_mint).min(self.initial_supply);
            let max = self.c.pre_supply - self.c.post_supply;
            case.ck(left <= max, &["C17", "C14", "C15"], || format!("burned {left}, at most {max} expected"));
            if self.donated.0 == 0 {
                let (now, post) = (self.w.supply(&self.base_mint), self.c.post_supply);
                // DAMM v2 rounds each of the two positions' deposits up
                let dust = if self.c.migration_option == 0 { 0 } else { 2 };
                case.ck((post..=post.saturating_add(dust)).contains(&now), &["C17", "C14", "C15"], || format!("supply {now} after migration, configured {post}"));
            }
        }
    }

    pub fn v1_lock_escrow(&self, owner: &Pubkey) -> (Pubkey, Pubkey) {
        let e = pda(&[b"lock_escrow", self.v1_pool().as_ref(), owner.as_ref()], &DAMM_V1);
        (e, ata(&e, &self.v1_lp_mint(), &spl_token::ID))
    }

    pub fn open_lp(&mut self, owner: &Pubkey) -> Pubkey {
        let k = self.lp_account(owner);
        if self.w.get(&k).is_none() {
            let d = token_account_bytes(&self.v1_lp_mint(), owner, 0);
            self.w.put(k, rent_min(165), &spl_token::ID, &d);
        }
        k
    }
    pub fn open_lock_escrow(&mut self, owner: &Pubkey) -> (Pubkey, Pubkey) {
        let (e, v) = self.v1_lock_escrow(owner);
        if self.w.get(&e).is_none() {
            let d = v1_lock_escrow_bytes(&self.v1_pool(), owner, &v);
            self.w.put(e, rent_min(d.len()), &DAMM_V1, &d);
            let d = token_account_bytes(&self.v1_lp_mint(), &e, 0);
            self.w.put(v, rent_min(165), &spl_token::ID, &d);
        }
        (e, v)
    }

    /// the LP amount `owner` may still lock (claim = false) or claim, or why not
    pub fn v1_share(&self, owner: &Pubkey, claim: bool) -> Result<(u64, Vec<usize>), &'static str> {
        let pv = self.pv();
        let Some(m) = self.v1_meta() else { return Err("no migration metadata") };
        if pv.progress != 3 {
            return Err("AMM pool not created");
        }
        let (pi, ci) = if claim { (1, 3) } else { (0, 2) };
        let (is_p, is_c) = (*owner == m.partner, *owner == pv.creator);
        match (is_p, is_c) {
            (false, false) => Err("neither partner nor creator"),
            (true, true) => {
                if self.mig.taken[pi] || self.mig.taken[ci] {
                    return Err("share already taken");
                }
                let s = m.shares[pi] as u128 + m.shares[ci] as u128;
                if s == 0 {
                    return Err("no share");
                }
                Ok((s as u64, vec![pi, ci]))
            }
            _ => {
                let i = if is_p { pi } else { ci };
                if self.mig.taken[i] {
                    return Err("share already taken");
                }
                if m.shares[i] == 0 {
                    return Err("no share");
                }
                Ok((m.shares[i], vec![i]))
            }
        }
    }

    pub fn v1_take(&mut self, owner: Pubkey, claim: bool) -> Built {
        let meta = self.v1_metadata();
        let lp_mint = self.v1_lp_mint();
        let source = self.lp_account(&pool_authority());
        let share = self.v1_share(&owner, claim);
        let (metas, dest, escrow): (Metas, Pubkey, Option<Pubkey>) = if claim {
            let dest = self.open_lp(&owner);
            (
                vec![
                    (r(self.pool), K::Pool),
                    (w(meta), K::Meta),
                    (w(pool_authority()), K::Fixed),
                    (r(lp_mint), K::Bound),
                    (w(source), K::Bound),
                    (w(dest), K::Dest),
                    (r(owner), K::Bound),
                    (s(self.mig.sender.unwrap_or(self.payer)), K::Payer),
                    (r(spl_token::ID), K::Prog),
                ],
                dest,
                None,
            )
        } else {
            let (e, v) = self.open_lock_escrow(&owner);
            let free = |k: Pubkey| (r(k), K::Free);
            let (sa, sb) = (self.v1_side(&self.base_mint), self.v1_side(&self.quote_mint));
            (
                vec![
                    (r(self.pool), K::Pool),
                    (w(meta), K::Meta),
                    (w(pool_authority()), K::Fixed),
                    (w(self.v1_pool()), K::Bound),
                    (r(lp_mint), K::Bound),
                    (w(e), K::Bound),
                    (r(owner), K::Bound),
                    (w(source), K::Bound),
                    (w(v), K::Bound),
                    (r(DAMM_V1), K::Prog),
                    free(sa[0]),
                    free(sb[0]),
                    free(sa[3]),
                    free(sb[3]),
                    free(sa[2]),
                    free(sb[2]),
                    (r(spl_token::ID), K::Prog),
                ],
                v,
                Some(e),
            )
        };
        let expect = match share {
            Err(e) => Expect::Reject(e),
            Ok((n, _)) => {
                let mut e = Effect::default();
                e.mv(source, dest, n);
                e.touched.insert(meta);
                if let Some(k) = escrow {
                    e.touched.insert(k);
                }
                e.pool = Some((self.pool, self.pv()));
                Expect::Ok(Box::new(e))
            }
        };
        let name = if claim { "migrate_meteora_damm_claim_lp_token" } else { "migrate_meteora_damm_lock_lp_token" };
        self.built(name, &["C14"], metas, vec![], false, vec![], expect)
    }

    /// somebody sends LP tokens of the graduated pool to the program's account
    pub fn donate_lp(&mut self, n: u64) {
        let (mint, k) = (self.v1_lp_mint(), self.lp_account(&pool_authority()));
        for (k, at) in [(mint, 36), (k, 64)] {
            let Some(a) = self.w.accts.get_mut(&k) else { return };
            let old = u64::from_le_bytes(a.data()[at..at + 8].try_into().unwrap());
            a.data_mut()[at..at + 8].copy_from_slice(&(old + n).to_le_bytes());
        }
        self.mig.lp_donated += n;
    }

    pub fn do_v1_take(&mut self, case: &mut Case, owner: Pubkey, claim: bool) -> bool {
        if self.mig.v1_lp > 0 && self.mig.lp_donated == 0 && case.t.chance(12) {
            let n = case.t.range(1, self.mig.v1_lp).min(u64::MAX - self.mig.v1_lp);
            self.donate_lp(n);
            case.hit("LP tokens sent to the program");
        }
        self.mig.sender = None;
        if claim && case.t.chance(40) {
            let v = [self.partner, self.try_pv().map(|p| p.creator).unwrap_or(self.partner), owner, self.traders[1], self.op_claim];
            self.mig.sender = Some(v[case.t.below(v.len())]);
            case.hit("LP claim sent by somebody with another role");
        }
        let b = self.v1_take(owner, claim);
        let share = self.v1_share(&owner, claim);
        let before = self.v1_meta();
        let ok = self.exec(case, &b);
        if let (true, Ok((_, idx)), Some(m0)) = (ok, share, before) {
            let m = self.v1_meta();
            case.ck(m.is_some(), &["C14"], || "migration metadata is gone".into());
            if let Some(m) = m {
                for i in idx {
                    self.mig.taken[i] = true;
                }
                case.eq("LP shares done", m.done, self.mig.taken, &["C14"]);
                case.eq("LP shares", m.shares, m0.shares, &["C14"]);
            }
        }
        ok
    }

    // ---- DAMM v2 -----------------------------------------------------------------------------------------------

    pub fn v2_config_key(&self) -> Pubkey {
        named("v2-config", self.c.migration_fee_option as u64)
    }
    /// the AMM configuration that this pool must be migrated with
    pub fn v2_good_config(&self) -> V2Config {
        let mut c: V2Config = bytemuck::Zeroable::zeroed();
        c.pool_creator_authority = pool_authority();
        c.activation_type = 1;
        if self.c.migration_fee_option < 6 {
            let bps = FIXED_BPS[self.c.migration_fee_option as usize];
            c.pool_fees.base_fee.data[..8].copy_from_slice(&(bps * 100_000).to_le_bytes());
            c.sqrt_min_price = MIN_P;
            c.sqrt_max_price = MAX_P;
        }
        c
    }
    pub fn put_v2_config(&mut self, key: Pubkey, c: &V2Config) {
        let d = v2_config_bytes(c);
        self.w.put(key, rent_min(d.len()), &DAMM_V2, &d);
    }

    fn concentrated_liquidity(&self, a: u64, q: u64) -> Option<u128> {
        let p = self.c.migration_sqrt_price;
        if p >= MAX_P || p <= MIN_P {
            return None;
        }
        let la = down(B::from(a) * b(p) * b(MAX_P), b(MAX_P - p));
        let lq = down(B::from(q) << 128, b(p - MIN_P));
        to_u128(if la < lq { la } else { lq })
    }

    pub fn v2_plan(&self) -> Result<V2Plan, &'static str> {
        let pv = self.pv();
        let c = &self.c;
        let compounding = c.mp_collect == 2;
        let quote = migration_quote(c.threshold, c.migration_fee_pct);
        let vault = self.w.bal(&self.base_vault);
        let fees = pv.base_fees() as u64;
        let free = vault.checked_sub(fees).ok_or("fees above the vault")?;
        let (base, cut, price, total, dead);
        if compounding {
            if free < c.migration_base_threshold {
                return Err("not enough base");
            }
            base = c.migration_base_threshold;
            cut = (protocol_cut(base, pv.liq_migration_fee_bps), protocol_cut(quote, pv.liq_migration_fee_bps));
            let (p, l) = compounding_first(base - cut.0, quote - cut.1).ok_or("no initial price")?;
            if !(MIN_P..=MAX_P).contains(&p) {
                return Err("initial price out of range");
            }
            price = p;
            dead = DEAD_LIQUIDITY;
            total = l.checked_sub(dead).ok_or("only dead liquidity")?;
        } else {
            base = free;
            let fq = protocol_cut(quote, pv.liq_migration_fee_bps);
            if c.migration_sqrt_price <= MIN_P || c.migration_sqrt_price >= MAX_P {
                return Err("price at the bound");
            }
            let fl = to_u128(down(B::from(fq) << 128, b(c.migration_sqrt_price - MIN_P))).ok_or("liquidity overflow")?;
            let fb = to_u64(base_between(fl, c.migration_sqrt_price, MAX_P, false)).ok_or("base overflow")?;
            cut = (fb, fq);
            price = c.migration_sqrt_price;
            dead = 0;
            let eb = base.checked_sub(fb).ok_or("cut above base")?;
            total = self.concentrated_liquidity(eb, quote - fq).ok_or("liquidity overflow")?;
        }
        let (eb, eq) = (base.checked_sub(cut.0).ok_or("cut above base")?, quote - cut.1);
        let (partner, creator) = distribution(c, total);
        let (first, mut second, first_owner, second_owner) = if partner.total() > creator.total() {
            (partner, creator, c.fee_claimer, pv.creator)
        } else {
            (creator, partner, pv.creator, c.fee_claimer)
        };
        let l1 = first.total() + dead;
        if l1 == 0 {
            return Err("no liquidity");
        }
        let collect = if compounding { 2 } else { 0 };
        let (a1, q1, _) = v2_initial_amounts(collect, l1, price, MIN_P, MAX_P).ok_or("initial amounts")?;
        if a1 == 0 && q1 == 0 {
            return Err("nothing to deposit");
        }
        let la = eb.checked_sub(a1).ok_or("deposit above base")?;
        let lq = eq.checked_sub(q1).ok_or("deposit above quote")?;
        let second_liq = if compounding {
            if a1 == 0 || q1 == 0 {
                return Err("one-sided pool");
            }
            let x = down(B::from(la) * b(l1), B::from(a1));
            let y = down(B::from(lq) * b(l1), B::from(q1));
            to_u128(if x < y { x } else { y }).ok_or("liquidity overflow")?
        } else {
            self.concentrated_liquidity(la, lq).ok_or("liquidity overflow")?
        };
        let mut dep2 = (0, 0);
        if second_liq > 0 {
            second.adjust(second_liq);
            dep2 = v2_add_amounts(collect, second_liq, price, MIN_P, MAX_P, l1, a1, q1).ok_or("second amounts")?;
        } else {
            second = Dist::default();
        }
        if dep2.0 > la || dep2.1 > lq {
            return Err("second deposit above what is left");
        }
        let left = vault - a1 - dep2.0 - fees - cut.0;
        let (burn, left) = self.burn_and_left(left);
        Ok(V2Plan {
            compounding,
            cut,
            price,
            dead,
            first,
            second,
            first_owner,
            second_owner,
            dep1: (a1, q1),
            second_liq,
            dep2,
            burn,
            left,
            dust: eq - q1 - dep2.1,
            at: self.now(),
        })
    }

    pub fn v2_keys(&self) -> [Pubkey; 8] {
        let (a, b) = (self.k("v2-nft-1"), self.k("v2-nft-2"));
        let of = |word: &str, mint: &Pubkey| pda(&[word.as_bytes(), mint.as_ref()], &DAMM_V2);
        let (acc, pos) = ("position_nft_account", "position");
        [self.k("v2-pool"), a, of(acc, &a), of(pos, &a), b, of(acc, &b), of(pos, &b), self.k("v2-x")]
    }

    pub fn v2_migrate(&mut self, damm_config: Pubkey, config_ok: bool) -> Built {
        let pv = self.pv();
        let auth = pool_authority();
        let k = self.v2_keys();
        let vaults = [self.base_mint, self.quote_mint].map(|m| pda(&[b"token_vault", m.as_ref(), k[0].as_ref()], &DAMM_V2));
        for (v, m, p) in [(vaults[0], self.base_mint, self.base_prog), (vaults[1], self.quote_mint, self.quote_prog)] {
            if self.w.get(&v).is_none() {
                let mut d = token_account_bytes(&m, &self.k("v2-vault"), 0);
                if m == WSOL {
                    d[109..113].copy_from_slice(&1u32.to_le_bytes());
                    d[113..121].copy_from_slice(&rent_min(165).to_le_bytes());
                }
                self.w.put(v, rent_min(165), &p, &d);
            }
        }
        let free = |k: Pubkey| (w(k), K::Free);
        let omit = self.mig.omit;
        let metas: Metas = vec![
            (w(self.pool), K::Pool),
            (r(self.v1_metadata()), K::Free),
            (r(self.config), K::Config),
            (w(auth), K::Fixed),
            free(k[0]),
            (ws(k[1]), K::Payer),
            free(k[2]),
            free(k[3]),
            if omit & 1 == 0 { (ws(k[4]), K::Payer) } else { (r(DBC), K::Free) },
            if omit & 2 == 0 { free(k[5]) } else { (r(DBC), K::Free) },
            if omit & 4 == 0 { free(k[6]) } else { (r(DBC), K::Free) },
            (r(anchor_lang::prelude::pubkey!("HLnpSz9h2S4hiLQ43rnSD9XkcUThA7B8hQMKmDaiTLcC")), K::Free),
            (r(DAMM_V2), K::Prog),
            (w(self.base_mint), K::BaseMint),
            (w(self.quote_mint), K::QuoteMint),
            free(vaults[0]),
            free(vaults[1]),
            (w(self.base_vault), K::BaseVault),
            (w(self.quote_vault), K::QuoteVault),
            (ws(self.payer), K::Payer),
            (r(self.base_prog), K::Prog),
            (r(self.quote_prog), K::Prog),
            (r(spl_token_2022::ID), K::Free),
            (r(pda(&[b"__event_authority"], &DAMM_V2)), K::Free),
            (r(system_id()), K::Prog),
        ];
        let rest: Metas = vec![(r(damm_config), K::Bound)];
        let expect = if self.c.migration_option != 1 {
            Expect::Reject("not a DAMM v2 configuration")
        } else if pv.progress != 2 {
            Expect::Reject("not in the migration step")
        } else if !config_ok {
            Expect::Reject("wrong AMM configuration")
        } else {
            match self.v2_plan() {
                Err(e) => Expect::Reject(e),
                Ok(p) if omit > 0 && p.second_liq > 0 => Expect::Reject("accounts of the second position left out"),
                Ok(p) => {
                    let mut e = Effect::default();
                    e.mv(self.base_vault, vaults[0], p.dep1.0 + p.dep2.0);
                    e.mv(self.quote_vault, vaults[1], p.dep1.1 + p.dep2.1);
                    *e.tok.entry(self.base_vault).or_insert(0) -= p.burn as i128;
                    e.supply.insert(self.base_mint, -(p.burn as i128));
                    let n = if p.second_liq > 0 { 7 } else { 4 };
                    for x in &k[..n] {
                        e.touched.insert(*x);
                        e.free_lamports.insert(*x);
                    }
                    e.supply.insert(k[1], 1);
                    e.tok.insert(k[2], 1);
                    if p.second_liq > 0 {
                        e.supply.insert(k[4], 1);
                        e.tok.insert(k[5], 1);
                    }
                    e.free_lamports.insert(self.payer);
                    let mut n = pv;
                    n.progress = 3;
                    n.is_migrated = 1;
                    n.mig_base_fee = p.cut.0;
                    n.mig_quote_fee = p.cut.1;
                    e.pool = Some((self.pool, n));
                    Expect::Ok(Box::new(e))
                }
            }
        };
        self.built("migration_damm_v2", &["C15", "C11", "C16"], metas, vec![], false, rest, expect)
    }

    fn do_v2(&mut self, case: &mut Case) -> bool {
        let cfg = self.v2_config_key();
        let good = self.v2_good_config();
        self.put_v2_config(cfg, &good);
        // the accounts of the second position are optional
        if case.t.chance(20) {
            let mask = 1 + case.t.raw(6) as u8;
            if self.v2_plan().map(|p| p.second_liq == 0).unwrap_or(true) {
                case.hit("second position's accounts left out, none needed");
                self.mig.omit = mask;
            } else {
                case.hit("second position's accounts left out but needed");
                let mut a = self.clone();
                a.mig.omit = mask;
                let b = a.v2_migrate(cfg, true);
                a.exec(case, &b);
            }
        }
        let b = self.v2_migrate(cfg, true);
        self.mig.omit = 0;
        let plan = if matches!(b.expect, Expect::Ok(_)) { self.v2_plan().ok() } else { None };
        if let Some(p) = &plan {
            self.migrated_base_left = p.left;
            self.dust = p.dust;
        }
        let ok = self.exec(case, &b);
        if !ok && plan.is_some() {
            self.migrated_base_left = 0;
            self.dust = 0;
        }
        if let (true, Some(p)) = (ok, plan) {
            self.check_v2(case, &p);
            self.after_migration(case);
            self.mig.plan = Some(p);
        }
        ok
    }

    fn check_v2(&self, case: &mut Case, p: &V2Plan) {
        let k = self.v2_keys();
        let c = &self.c;
        let t = &["C15"];
        let Some(pool) = v2_pool(self.w.data(&k[0])) else {
            case.ck(false, t, || "no AMM pool exists".into());
            return;
        };
        case.eq("AMM pool tokens", (pool.token_a_mint, pool.token_b_mint), (self.base_mint, self.quote_mint), t);
        case.eq("AMM pool price", { pool.sqrt_price }, p.price, t);
        case.eq("AMM pool liquidity", { pool.liquidity }, p.first.total() + p.dead + p.second_liq, t);
        case.eq("AMM pool price range", ({ pool.sqrt_min_price }, { pool.sqrt_max_price }), (MIN_P, MAX_P), t);
        case.eq("AMM pool activation type", pool.activation_type, 1, t);
        // migration price
        let want = c.migration_sqrt_price;
        if !p.compounding {
            case.eq("AMM price is the migration price", { pool.sqrt_price }, want, t);
        }
        if c.migration_fee_option == 6 {
            case.hit("customizable migrated pool");
            let cliff = c.mp_fee_bps as u64 * 100_000;
            let mut x = W::default().u64(cliff);
            if c.mp_base_mode <= 1 {
                x = x.u16(0).u64(0).u64(0).u8(c.mp_base_mode);
            } else {
                let mut s = R(&c.mp_base_fee_bytes);
                x = x.u16(s.u16()).u32(s.u16() as u32).u32(s.u32()).u64(s.u64()).u8(c.mp_base_mode);
                case.hit("market cap fee scheduler");
            }
            case.eq("AMM base fee", pool.pool_fees.base_fee.base_fee_info.data[..27].to_vec(), x.0, t);
            case.eq("AMM compounding fee", { pool.pool_fees.compounding_fee_bps }, c.compounding_bps, t);
            let collect = [1u8, 0, 2][c.mp_collect as usize];
            case.eq("AMM collect fee mode", pool.collect_fee_mode, collect, t);
            let d = &pool.pool_fees.dynamic_fee;
            let mut s = R(&c.mp_base_fee_bytes);
            let (n, _, _, red) = (s.u16(), s.u16(), s.u32(), s.u64());
            let want = if c.mp_dynamic == 0 {
                None
            } else {
                v2_min_fee(c.mp_fee_bps, c.mp_base_mode, n, red).and_then(|m| {
                    let max = (m as u128 * 20 / 100) * 100_000_000_000;
                    max.checked_sub(99_999_999_999).map(|x| (x / 209_091_600_000_000) as u64)
                })
            };
            match want {
                None => {
                    case.eq("AMM dynamic fee", d.initialized, 0, t);
                }
                Some(ctrl) => {
                    case.hit("migrated pool with dynamic fee");
                    case.eq(
                        "AMM dynamic fee",
                        (d.initialized, { d.bin_step }, { d.filter_period }, { d.decay_period }, { d.reduction_factor }, { d.max_volatility_accumulator }, { d.variable_fee_control } as u64, { d.bin_step_u128 }),
                        (1, 1, 10, 120, 5000, 14_460_000, ctrl, 1_844_674_407_370_955),
                        t,
                    );
                }
            }
        }
        let all = [(1usize, 2usize, 3usize, &p.first, p.first_owner), (4, 5, 6, &p.second, p.second_owner)];
        for (i, (m, a, pos, dist, owner)) in all.iter().enumerate() {
            if i == 1 && p.second_liq == 0 {
                case.ck(!self.w.get(&k[*pos]).is_some_and(|a| a.owner() == DAMM_V2), t, || "a second position exists".into());
                continue;
            }
            let Some(x) = Position::read(self.w.data(&k[*pos])) else {
                case.ck(false, t, || format!("position {} does not exist", i + 1));
                continue;
            };
            case.eq("position NFT", (x.nft_mint, x.pool), (k[*m], k[0]), t);
            let d = self.w.data(&k[*a]);
            case.eq("position owner", Pubkey::try_from(&d[32..64]).unwrap(), *owner, &["C15", "C22"]);
            case.eq("position NFT held", self.w.bal(&k[*a]), 1, t);
            case.eq("position liquidity (unlocked, permanently locked, vested)", (x.unlocked, x.permanent, x.vested), (dist.unlocked, dist.permanent, dist.vested), t);
            if dist.permanent > 0 {
                case.hit("permanently locked position");
            }
            if dist.vested > 0 {
                case.hit("vested position");
                let lv = liq_vesting(&dist.lv, dist.vested).unwrap();
                match &x.vest {
                    None => {
                        case.ck(false, t, || "vesting missing".into());
                    }
                    Some(v) => {
                        case.eq(
                            "position vesting",
                            (v.cliff_point, v.frequency, v.cliff_unlock, v.per_period, v.n),
                            (p.at + lv.cliff as u64, lv.frequency as u64, lv.cliff_unlock, lv.per, lv.n),
                            t,
                        );
                    }
                }
            } else {
                case.ck(x.vest.is_none(), t, || "vesting without a vested share".into());
            }
        }
        // shares as configured, up to rounding
        let mut by: BTreeMap<Pubkey, (u128, u128)> = BTreeMap::new();
        for (dist, owner) in [(&p.first, p.first_owner), (&p.second, p.second_owner)] {
            let e = by.entry(owner).or_insert((0, 0));
            e.0 += dist.total();
            e.1 += dist.permanent + dist.vested;
        }
        if p.second_liq > 0 {
            case.hit("two positions");
        }
    }

    pub fn v2_create_metadata(&self) -> Built {
        let metas: Metas = vec![
            (r(self.pool), K::Free),
            (r(self.config), K::Free),
            (w(named("v2-meta", self.id)), K::Free),
            (w(self.payer), K::Free),
            (r(system_id()), K::Free),
        ];
        self.built("migration_damm_v2_create_metadata", &["C15"], metas, vec![], true, vec![], Expect::Ok(Box::default()))
    }

    /// runs the configured migration
    pub fn do_migrate(&mut self, case: &mut Case) -> bool {
        if self.c.migration_option == 0 {
            self.do_v1(case)
        } else {
            self.do_v2(case)
        }
    }

    /// whether the migration of the pool as it stands must be possible
    pub fn migratable(&self) -> Result<(), &'static str> {
        if self.c.migration_option == 0 {
            self.v1_plan().map(|_| ())
        } else {
            self.v2_plan().map(|_| ())
        }
    }
}
