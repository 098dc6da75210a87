//! One pool of one configuration in a simulated chain: instruction builders with predicted effects, and the executor
//! that compares what happened with the prediction.

use crate::abi::*;
use crate::case::Case;
use crate::mocks::{mint_bytes, token_account_bytes};
use crate::refmath::*;
use crate::refmodel::*;
use crate::world::*;
use anchor_lang::prelude::Pubkey;
use anchor_lang::solana_program::instruction::AccountMeta;
use std::collections::{BTreeMap, BTreeSet};

/// what an account position is for (used to generate substitutions)
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum K {
    /// a fixed address: program authority, program, sysvar
    Fixed,
    Prog,
    Config,
    Pool,
    BaseMint,
    QuoteMint,
    BaseVault,
    QuoteVault,
    /// a recipient that the program must check
    Dest,
    /// the signer entitled to this instruction
    User,
    Operator,
    /// migration metadata
    Meta,
    /// another address the program must check
    Bound,
    /// a signature that anyone may give
    Payer,
    /// the caller's choice
    Free,
}

pub type Metas = Vec<(AccountMeta, K)>;

#[derive(Clone, Debug, Default)]
pub struct Effect {
    /// token account balance changes
    pub tok: BTreeMap<Pubkey, i128>,
    /// lamport changes (accounts not listed here or in `free_lamports` must keep theirs)
    pub lam: BTreeMap<Pubkey, i128>,
    pub free_lamports: BTreeSet<Pubkey>,
    /// accounts that end with what they had or their rent, whichever is more
    pub rent: BTreeSet<Pubkey>,
    pub supply: BTreeMap<Pubkey, i128>,
    /// accounts whose other data may change, or that may appear or disappear
    pub touched: BTreeSet<Pubkey>,
    pub pool: Option<(Pubkey, PoolView)>,
    pub events: Vec<(&'static str, Vec<u8>)>,
}

impl Effect {
    pub fn mv(&mut self, from: Pubkey, to: Pubkey, n: u64) {
        *self.tok.entry(from).or_insert(0) -= n as i128;
        *self.tok.entry(to).or_insert(0) += n as i128;
    }
}

#[derive(Clone, Debug)]
pub enum Expect {
    Ok(Box<Effect>),
    Reject(&'static str),
    /// accepted or rejected, whatever: effects are checked elsewhere
    Any,
}

#[derive(Clone, Debug)]
pub struct Built {
    pub name: &'static str,
    pub tags: Vec<&'static str>,
    pub ix: Ix,
    pub kinds: Vec<K>,
    pub expect: Expect,
}

#[derive(Clone, Debug)]
pub struct SwapOp {
    pub who: usize,
    pub mode: Mode,
    pub buy: bool,
    pub amount: u64,
    pub limit: u64,
    pub referral: Option<Pubkey>,
    pub sysvar: bool,
    pub v1: bool,
    /// whose account receives the output, when it is not the trader's own
    pub to: Option<usize>,
}

impl SwapOp {
    pub fn new(who: usize, mode: Mode, buy: bool, amount: u64) -> Self {
        SwapOp {
            who,
            mode,
            buy,
            amount,
            limit: if mode == Mode::ExactOut { u64::MAX } else { 0 },
            referral: None,
            sysvar: true,
            v1: false,
            to: None,
        }
    }
    pub fn req(&self, eligible: bool) -> SwapReq {
        SwapReq {
            mode: self.mode,
            buy: self.buy,
            amount: self.amount,
            limit: self.limit,
            referral: self.referral.is_some(),
            eligible,
        }
    }
}

#[derive(Clone)]
pub struct Sim {
    pub w: World,
    pub id: u64,
    pub p: Params,
    pub c: ConfigView,
    pub q: QuoteMint,
    pub config: Pubkey,
    pub pool: Pubkey,
    pub base_mint: Pubkey,
    pub quote_mint: Pubkey,
    pub base_vault: Pubkey,
    pub quote_vault: Pubkey,
    pub base_prog: Pubkey,
    pub quote_prog: Pubkey,
    pub partner: Pubkey,
    pub leftover: Pubkey,
    pub first_creator: Pubkey,
    /// whose accounts the partner's and the creator's claims are paid to, if not the signer's own
    pub payee: Option<Pubkey>,
    pub creators: Vec<Pubkey>,
    pub traders: Vec<Pubkey>,
    pub referrals: Vec<Pubkey>,
    pub payer: Pubkey,
    pub op_claim: Pubkey,
    pub op_zap: Pubkey,
    pub op_both: Pubkey,
    pub initial_supply: u64,
    /// third-party donations to the vaults
    pub donated: (u64, u64),
    /// quote that a DAMM v2 migration could not deposit
    pub dust: u64,
    pub migrated_base_left: u64,
    /// base sent to the vault when nobody could take it out any more
    pub stuck_base: u64,
    pub mig: crate::mig::Mig,
    pub name: (String, String, String),
    pub swaps: u64,
    /// chance in percent that an instruction is first tried with substituted accounts
    /// base tokens that the mint authority made after the pool's creation
    pub minted: u64,
    pub abuse: u64,
    /// chance in percent that called programs misbehave first (on a copy)
    pub mischief: u64,
    pub sib: Option<Box<crate::abuse::Sib>>,
    /// parameters and configuration of an old 20-point curve that replaces the created one
    pub old: Option<Box<(Params, ConfigView)>>,
    /// operators and their permissions
    pub ops: BTreeMap<Pubkey, u128>,
}

pub fn view_tags(field: &str) -> &'static [&'static str] {
    match field {
        "volatility" => &["C08"],
        "creator" => &["C22", "C13"],
        "keys" => &["C23", "C13"],
        "reserves" => &["C01", "C03"],
        "fees" => &["C05", "C12", "C01"],
        "protocol fees" => &["C05", "C12", "C01", "C24"],
        "sqrt_price" => &["C03", "C10"],
        "activation_point" => &["C06", "C07", "C23"],
        "progress" => &["C10", "C16", "C14", "C15"],
        "surplus flags" => &["C21"],
        "metrics" => &["C05"],
        "creation fee flags" => &["C20"],
        "has_swap" => &["C19"],
        "migration protocol fees" => &["C14", "C15", "C12", "C24", "C01"],
        _ => &["C23"],
    }
}

/// (field group, got, want) for all groups that differ
pub fn view_diff(a: &PoolView, b: &PoolView) -> Vec<(&'static str, String, String)> {
    let mut v: Vec<(&'static str, String, String)> = vec![];
    macro_rules! cmp {
        ($n:expr, $f:expr) => {{
            let f = $f;
            let (x, y) = (f(a), f(b));
            if x != y {
                v.push(($n, format!("{x:?}"), format!("{y:?}")));
            }
        }};
    }
    cmp!("volatility", |p: &PoolView| (p.last_update, p.sqrt_ref, p.vol_acc, p.vol_ref));
    cmp!("creator", |p: &PoolView| p.creator);
    cmp!("keys", |p: &PoolView| (p.config, p.base_mint, p.base_vault, p.quote_vault, p.pool_type));
    cmp!("reserves", |p: &PoolView| (p.base_reserve, p.quote_reserve));
    cmp!("fees", |p: &PoolView| (p.partner_base_fee, p.partner_quote_fee, p.creator_base_fee, p.creator_quote_fee));
    cmp!("protocol fees", |p: &PoolView| (p.protocol_base_fee, p.protocol_quote_fee));
    cmp!("sqrt_price", |p: &PoolView| p.sqrt_price);
    cmp!("activation_point", |p: &PoolView| p.activation_point);
    cmp!("progress", |p: &PoolView| (p.progress, p.is_migrated, p.finish_time));
    cmp!("surplus flags", |p: &PoolView| (
        p.partner_surplus_done,
        p.protocol_surplus_done,
        p.creator_surplus_done,
        p.leftover_done,
        p.migration_fee_status
    ));
    cmp!("metrics", |p: &PoolView| p.metrics);
    cmp!("creation fee flags", |p: &PoolView| (p.creation_fee_bits, p.legacy_bits));
    cmp!("has_swap", |p: &PoolView| p.has_swap);
    cmp!("migration protocol fees", |p: &PoolView| (p.mig_base_fee, p.mig_quote_fee, p.liq_migration_fee_bps));
    v
}

fn is_token_account(w: &World, k: &Pubkey) -> bool {
    w.get(k)
        .map(|a| {
            let o = a.owner();
            let d = a.data();
            (o == spl_token::ID && d.len() == 165) || (o == spl_token_2022::ID && (d.len() == 165 || (d.len() > 165 && d[165] == 2)))
        })
        .unwrap_or(false)
}
fn is_mint(w: &World, k: &Pubkey) -> bool {
    w.get(k)
        .map(|a| {
            let o = a.owner();
            let d = a.data();
            (o == spl_token::ID && d.len() == 82) || (o == spl_token_2022::ID && (d.len() == 82 || (d.len() > 165 && d[165] == 1)))
        })
        .unwrap_or(false)
}

pub const RICH: u64 = 4_000_000_000_000_000_000;

/// the accounts that exist before any pool
pub fn base_world() -> World {
    thread_local! { static BASE: World = make_base_world(); }
    BASE.with(|w| w.clone())
}

fn make_base_world() -> World {
    let mut w = World::new();
    w.put(named("payer", 0), RICH, &system_id(), &[]);
    w.put(TREASURY, 1_000_000_000, &system_id(), &[]);
    // the program's authority has to own some lamports to create escrows and AMM positions
    w.put(pool_authority(), 10_000_000_000, &system_id(), &[]);
    for a in ADMINS {
        w.put(a, 1_000_000_000, &system_id(), &[]);
    }
    for (who, perm) in [("op-claim", 1u128), ("op-zap", 2), ("op-both", 3)] {
        let who = named(who, 0);
        let b = create_operator(&who, ADMINS[0], perm);
        let o = w.tx(&[b]);
        if !o.ok {
            // reported by the checks that create operators themselves; build the account by hand here
            put_operator(&mut w, &who, perm);
        }
    }
    w
}

pub fn put_operator(w: &mut World, who: &Pubkey, perm: u128) {
    let mut d = acc_disc("Operator").to_vec();
    d.extend(who.as_ref());
    d.extend(perm.to_le_bytes());
    d.extend([0; 16]);
    w.put(operator_address(who), rent_min(d.len()), &DBC, &d);
}

pub fn create_operator(who: &Pubkey, signer: Pubkey, perm: u128) -> Ix {
    dbc_ix(
        "create_operator_account",
        vec![w(operator_address(who)), r(*who), s(signer), ws(named("payer", 0)), r(system_id())],
        W::default().u128(perm).0,
        true,
        vec![],
    )
}

impl Sim {
    /// everything up to, but without, the configuration and the pool
    pub fn new(mut world: World, id: u64, p: Params, c: ConfigView, q: QuoteMint) -> Self {
        let quote_prog = if q.spl { spl_token::ID } else { spl_token_2022::ID };
        let base_prog = if p.token_type == 0 { spl_token::ID } else { spl_token_2022::ID };
        let base_mint = named("base", id);
        let config = named("config", id);
        let pool = pool_address(&config, &base_mint, &q.key);
        if world.get(&q.key).is_none() {
            let who = named("quote-authority", 0);
            let mut d = mint_bytes(Some(&who), u64::MAX, if q.key == WSOL { 9 } else { 6 });
            if q.key == named("quote-t22", 1) {
                // with a pointer to metadata in the mint, and the metadata
                d = crate::vary::with_extensions(d, &[(18, 64), (19, 120)]);
            } else if q.key == named("quote-spl", 1) {
                d = mint_bytes(None, u64::MAX, 0);
            }
            world.put(q.key, rent_min(d.len()), &quote_prog, &d);
        }
        let initial_supply = initial_supply(&c).unwrap_or(0);
        let mut sim = Sim {
            id,
            config,
            pool,
            base_mint,
            quote_mint: q.key,
            base_vault: vault_address(&base_mint, &pool),
            quote_vault: vault_address(&q.key, &pool),
            base_prog,
            quote_prog,
            partner: c.fee_claimer,
            leftover: c.leftover_receiver,
            first_creator: named("creator", id),
            payee: None,
            creators: vec![named("creator", id), named("creator2", id), named("creator3", id)],
            traders: vec![named("trader", 0), named("trader", 1), named("trader", 2)],
            referrals: vec![named("referral", 0), named("referral", 1)],
            payer: named("payer", 0),
            op_claim: named("op-claim", 0),
            op_zap: named("op-zap", 0),
            op_both: named("op-both", 0),
            initial_supply,
            donated: (0, 0),
            dust: 0,
            migrated_base_left: 0,
            stuck_base: 0,
            mig: Default::default(),
            name: ("Token".into(), "TKN".into(), "https://x".into()),
            swaps: 0,
            abuse: 0,
            minted: 0,
            mischief: 0,
            sib: None,
            old: None,
            ops: [(named("op-claim", 0), 1), (named("op-zap", 0), 2), (named("op-both", 0), 3)].into(),
            w: world,
            p,
            c,
            q,
        };
        let funds = [u64::MAX / 16 * 13, u64::MAX / 16, u64::MAX / 16];
        for i in 0..3 {
            let t = sim.traders[i];
            sim.open(&t, true, funds[i]);
        }
        let others: Vec<Pubkey> = sim.others();
        for o in others {
            sim.open(&o, true, 0);
        }
        sim
    }
    fn others(&self) -> Vec<Pubkey> {
        let mut v = vec![crate::abuse::mallory(), self.partner, self.leftover, TREASURY, self.op_claim, self.op_zap, self.op_both];
        v.extend(&self.creators);
        v.extend(&self.referrals);
        v
    }
    /// a token account at the owner's associated address
    pub fn open(&mut self, owner: &Pubkey, quote: bool, amount: u64) -> Pubkey {
        let (m, prog) = if quote { (self.quote_mint, self.quote_prog) } else { (self.base_mint, self.base_prog) };
        let k = ata(owner, &m, &prog);
        if self.w.get(&k).is_some() {
            return k;
        }
        let mut d = token_account_bytes(&m, owner, amount);
        let mut lamports = rent_min(165);
        if m == WSOL {
            // wrapped SOL
            d[109..113].copy_from_slice(&1u32.to_le_bytes());
            d[113..121].copy_from_slice(&rent_min(165).to_le_bytes());
            lamports = lamports.saturating_add(amount);
        }
        self.w.put(k, lamports, &prog, &d);
        k
    }
    /// after the pool exists: base token accounts for everyone
    pub fn open_base(&mut self) {
        let mut v = self.others();
        v.extend(&self.traders);
        for o in v {
            self.open(&o, false, 0);
        }
    }
    pub fn qa(&self, owner: &Pubkey) -> Pubkey {
        ata(owner, &self.quote_mint, &self.quote_prog)
    }
    pub fn ba(&self, owner: &Pubkey) -> Pubkey {
        ata(owner, &self.base_mint, &self.base_prog)
    }
    pub fn pv(&self) -> PoolView {
        PoolView::read(self.w.data(&self.pool)).unwrap_or_else(|| panic!("HARNESS: no pool account"))
    }
    pub fn try_pv(&self) -> Option<PoolView> {
        PoolView::read(self.w.data(&self.pool))
    }
    pub fn point(&self) -> u64 {
        if self.c.activation_type == 0 {
            self.w.slot
        } else {
            self.w.time as u64
        }
    }
    pub fn now(&self) -> u64 {
        self.w.time as u64
    }
    pub fn complete(&self) -> bool {
        self.pv().quote_reserve >= self.c.threshold
    }
    pub fn advance(&mut self, slots: u64, seconds: u64) {
        self.w.slot = self.w.slot.saturating_add(slots).min(1 << 60);
        self.w.time = (self.w.time as u64).saturating_add(seconds).min(1 << 60) as i64;
    }
    pub fn limiter_on(&self, buy: bool) -> bool {
        let pv = self.pv();
        BaseFee::of(&self.c).limiter_on(self.point(), pv.activation_point, buy)
    }

    // ---- configuration and pool creation ----------------------------------------------------------------------

    fn make(&self, name: &'static str, tags: &[&'static str], metas: Metas, args: Vec<u8>, event: bool, rest: Metas, expect: Expect) -> Built {
        let mut kinds: Vec<K> = metas.iter().map(|x| x.1).collect();
        let rest_kinds: Vec<K> = rest.iter().map(|x| x.1).collect();
        let ix = dbc_ix(
            name,
            metas.into_iter().map(|x| x.0).collect(),
            args,
            event,
            rest.into_iter().map(|x| x.0).collect(),
        );
        if event {
            kinds.push(K::Fixed);
            // the program itself, which Anchor does not check
            kinds.push(K::Free);
        }
        kinds.extend(rest_kinds);
        Built { name, tags: tags.to_vec(), ix, kinds, expect }
    }

    /// after the creation of the configuration: makes it one of an earlier program version with more curve points
    pub fn age_config(&mut self) {
        let Some(o) = self.old.take() else { return };
        let k = self.config;
        ConfigView::patch_curve(self.w.accts.get_mut(&k).unwrap().data_mut(), &o.1);
        assert_eq!(ConfigView::read(self.w.data(&k)).as_ref(), Some(&o.1), "HARNESS: patched configuration");
        (self.p, self.c) = *o;
        self.initial_supply = initial_supply(&self.c).unwrap_or(0);
    }

    /// makes the new pool one of an earlier program version, marked with another liquidity fee (none at all before 0.1.9)
    pub fn age_pool(&mut self, bps: u16) {
        let k = self.pool;
        let d = self.w.accts.get_mut(&k).unwrap().data_mut();
        d[CUT_BPS_AT..CUT_BPS_AT + 2].copy_from_slice(&bps.to_le_bytes());
        assert_eq!(self.pv().liq_migration_fee_bps, bps, "HARNESS: patched pool");
    }

    pub fn create_config(&self) -> Built {
        let fee_part = {
            let mut x = W::default().u64(self.p.cliff_fee).u16(self.p.first).u64(self.p.second).u64(self.p.third).u8(self.p.fee_mode);
            x = match &self.p.dynamic {
                None => x.u8(0),
                Some(d) => x
                    .u8(1)
                    .u16(d.bin_step)
                    .u128(d.bin_step_u128)
                    .u16(d.filter_period)
                    .u16(d.decay_period)
                    .u16(d.reduction_factor)
                    .u32(d.max_vol)
                    .u32(d.var_ctrl),
            };
            x.0
        };
        let (pre, post) = self.p.supply.unwrap_or((0, 0));
        let mut e1 = W::default()
            .raw(self.config.as_ref())
            .raw(self.quote_mint.as_ref())
            .raw(self.partner.as_ref())
            .raw(self.leftover.as_ref())
            .raw(&fee_part)
            .u8(self.p.collect_fee_mode)
            .u8(self.p.migration_option)
            .u8(self.p.activation_type)
            .u8(self.p.token_decimal)
            .u8(self.p.token_type)
            .u8(self.p.partner_locked)
            .u8(self.p.partner_liq)
            .u8(self.p.creator_locked)
            .u8(self.p.creator_liq)
            .u64(self.c.swap_base_amount)
            .u64(self.p.threshold)
            .u64(self.c.migration_base_threshold)
            .u128(self.p.sqrt_start)
            .u64(self.p.vesting.amount_per_period)
            .u64(self.p.vesting.cliff_duration)
            .u64(self.p.vesting.frequency)
            .u64(self.p.vesting.number_of_period)
            .u64(self.p.vesting.cliff_unlock)
            .u8(self.p.migration_fee_option)
            .u8(self.p.supply.is_some() as u8)
            .u64(pre)
            .u64(post)
            .u32(self.p.curve.len() as u32);
        for (x, l) in &self.p.curve {
            e1 = e1.u128(*x).u128(*l);
        }
        let e2 = W::default()
            .raw(self.config.as_ref())
            .raw(self.quote_mint.as_ref())
            .raw(self.partner.as_ref())
            .raw(self.leftover.as_ref())
            .raw(&self.p.encode());
        let mut e = Effect::default();
        e.touched.insert(self.config);
        e.free_lamports.insert(self.payer);
        e.lam.insert(self.config, self.rent_due(&self.config, CONFIG_LEN) as i128);
        e.events = vec![("EvtCreateConfig", e1.0), ("EvtCreateConfigV2", e2.0)];
        self.make(
            "create_config",
            &["C09", "C23"],
            vec![
                (ws(self.config), K::Payer),
                (r(self.partner), K::Free),
                (r(self.leftover), K::Free),
                (r(self.quote_mint), K::Free),
                (ws(self.payer), K::Payer),
                (r(system_id()), K::Prog),
            ],
            self.p.encode(),
            true,
            vec![],
            Expect::Ok(Box::new(e)),
        )
    }

    /// the pool account right after creation
    pub fn fresh_view(&self, creator: Pubkey) -> PoolView {
        PoolView {
            config: self.config,
            creator,
            base_mint: self.base_mint,
            base_vault: self.base_vault,
            quote_vault: self.quote_vault,
            base_reserve: self.initial_supply,
            sqrt_price: self.c.sqrt_start,
            activation_point: self.point(),
            pool_type: self.c.token_type,
            creation_fee_bits: 0,
            liq_migration_fee_bps: CUT_BPS,
            ..Default::default()
        }
    }

    pub fn init_pool(&self, creator: Pubkey) -> Built {
        self.init_pool_as(creator, self.c.token_type)
    }

    pub fn init_pool_as(&self, creator: Pubkey, token_type: u8) -> Built {
        let args = W::default().str(&self.name.0).str(&self.name.1).str(&self.name.2).0;
        let mut e = Effect::default();
        e.free_lamports.insert(self.payer);
        for k in [self.pool, self.base_mint, self.base_vault, self.quote_vault, metadata_address(&self.base_mint)] {
            e.touched.insert(k);
        }
        e.lam.insert(self.pool, (self.rent_due(&self.pool, POOL_LEN) + self.c.creation_fee) as i128);
        for k in [self.base_mint, self.base_vault, self.quote_vault] {
            e.free_lamports.insert(k);
            e.rent.insert(k);
        }
        e.free_lamports.insert(metadata_address(&self.base_mint));
        e.tok.insert(self.base_vault, self.initial_supply as i128);
        e.tok.insert(self.quote_vault, self.wrapped_gift() as i128);
        e.supply.insert(self.base_mint, self.initial_supply as i128);
        e.pool = Some((self.pool, self.fresh_view(creator)));
        e.events = vec![(
            "EvtInitializePool",
            W::default()
                .raw(self.pool.as_ref())
                .raw(self.config.as_ref())
                .raw(creator.as_ref())
                .raw(self.base_mint.as_ref())
                .u8(self.c.token_type)
                .u64(self.point())
                .0,
        )];
        let mut metas = vec![
            (r(self.config), K::Config),
            (r(pool_authority()), K::Fixed),
            (s(creator), K::Payer),
            (ws(self.base_mint), K::Payer),
            (r(self.quote_mint), K::QuoteMint),
            (w(self.pool), K::Bound),
            (w(self.base_vault), K::Bound),
            (w(self.quote_vault), K::Bound),
        ];
        let expect = if token_type == self.c.token_type { Expect::Ok(Box::new(e)) } else { Expect::Reject("token type") };
        let prog = if token_type == 0 { spl_token::ID } else { spl_token_2022::ID };
        let name = if token_type == 0 {
            metas.push((w(metadata_address(&self.base_mint)), K::Bound));
            metas.push((r(METAPLEX), K::Prog));
            "initialize_virtual_pool_with_spl_token"
        } else {
            "initialize_virtual_pool_with_token2022"
        };
        metas.push((ws(self.payer), K::Payer));
        metas.push((r(self.quote_prog), K::Prog));
        metas.push((r(prog), K::Prog));
        metas.push((r(system_id()), K::Prog));
        self.make(name, &["C17", "C20", "C23"], metas, args, true, vec![], expect)
    }

    // ---- swaps -------------------------------------------------------------------------------------------------

    /// the accounts a swap takes from and pays to
    pub fn in_out(&self, o: &SwapOp) -> (Pubkey, Pubkey) {
        let (t, u) = (self.traders[o.who], self.traders[o.to.unwrap_or(o.who)]);
        if o.buy {
            (self.qa(&t), self.ba(&u))
        } else {
            (self.ba(&t), self.qa(&u))
        }
    }

    pub fn swap_ix(&self, o: &SwapOp) -> (Ix, Vec<K>) {
        let t = self.traders[o.who];
        let (input, output) = self.in_out(o);
        let referral = match &o.referral {
            None => r(DBC),
            Some(k) => w(*k),
        };
        let metas: Metas = vec![
            (r(pool_authority()), K::Fixed),
            (r(self.config), K::Config),
            (w(self.pool), K::Pool),
            (w(input), K::User),
            (w(output), K::Free),
            (w(self.base_vault), K::BaseVault),
            (w(self.quote_vault), K::QuoteVault),
            (r(self.base_mint), K::BaseMint),
            (r(self.quote_mint), K::QuoteMint),
            (s(t), K::User),
            (r(self.base_prog), K::Prog),
            (r(self.quote_prog), K::Prog),
            (referral, K::Free),
        ];
        let rest: Metas = if o.sysvar { vec![(r(instructions_sysvar()), K::Free)] } else { vec![] };
        let mode = match o.mode {
            Mode::ExactIn => 0,
            Mode::Partial => 1,
            Mode::ExactOut => 2,
        };
        let (name, args) = if o.v1 && o.mode == Mode::ExactIn {
            ("swap", W::default().u64(o.amount).u64(o.limit).0)
        } else {
            ("swap2", W::default().u64(o.amount).u64(o.limit).u8(mode).0)
        };
        let b = self.make(name, &[], metas, args, true, rest, Expect::Any);
        (b.ix, b.kinds)
    }

    /// what a swap must do on a pool in state `pv`; `single_ok`: the one-swap-per-transaction rule is respected
    pub fn predict_swap(&self, pv: &PoolView, o: &SwapOp, eligible: bool, single_ok: bool, in_bal: u64) -> Result<SwapRes, (&'static [&'static str], &'static str)> {
        let point = self.point();
        if o.amount == 0 {
            return Err((&["C04"], "zero amount"));
        }
        if BaseFee::of(&self.c).limiter_on(point, pv.activation_point, o.buy) && !single_ok {
            return Err((&["C07"], "one rate-limited swap per transaction"));
        }
        let eligible = eligible && o.referral.is_none() && o.sysvar;
        match swap(&self.c, pv, point, &o.req(eligible)) {
            Err(No::Zero) => Err((&["C04"], "zero amount")),
            Err(No::Complete) => Err((&["C10"], "pool is complete")),
            Err(No::Slippage) => Err((&["C04"], "worse than the limit")),
            Err(No::Liquidity) => Err((&["C03", "C10"], "more than the curve has")),
            Err(No::Fee) => Err((&["C05", "C07"], "fee cannot be computed")),
            Err(No::Overflow) => Err((&["C03"], "amount overflow")),
            Ok(res) => {
                if res.included_in > in_bal {
                    return Err((&["C01", "C13"], "trader cannot pay"));
                }
                let n = match apply(&self.c, pv, o.buy, &res, self.now()) {
                    None => return Err((&["C01"], "recorded amounts overflow")),
                    Some(n) => n,
                };
                if n.quote_reserve >= self.c.threshold {
                    let vault = self.w.bal(&self.base_vault) as u128;
                    let out = if o.buy { res.output + if fees_on_base(&self.c, true) { res.referral } else { 0 } } else { 0 };
                    let need = self.c.migration_base_threshold as u128 + n.base_fees() + self.c.vesting_total();
                    if o.buy && vault < out as u128 + need {
                        return Err((&["C11"], "not enough base left to migrate"));
                    }
                }
                Ok(res)
            }
        }
    }

    pub fn finish(&self, n: &mut PoolView) -> bool {
        if n.quote_reserve >= self.c.threshold {
            n.finish_time = self.now();
            n.progress = if self.c.vesting != Vesting::default() { 1 } else { 2 };
            true
        } else {
            false
        }
    }

    pub fn swap_events(&self, o: &SwapOp, res: &SwapRes, n: &PoolView) -> Vec<(&'static str, Vec<u8>)> {
        let (p0, p1) = match o.mode {
            Mode::ExactIn => (o.amount, o.limit),
            Mode::Partial => (res.included_in, res.output),
            Mode::ExactOut => (res.included_in, o.amount),
        };
        let dir = o.buy as u8;
        let mode = match o.mode {
            Mode::ExactIn => 0,
            Mode::Partial => 1,
            Mode::ExactOut => 2,
        };
        let e1 = W::default()
            .raw(self.pool.as_ref())
            .raw(self.config.as_ref())
            .u8(dir)
            .bool(o.referral.is_some())
            .u64(p0)
            .u64(p1)
            .u64(res.excluded_in)
            .u64(res.output)
            .u128(res.next)
            .u64(res.trading)
            .u64(res.protocol)
            .u64(res.referral)
            .u64(res.included_in)
            .u64(self.now());
        let e2 = W::default()
            .raw(self.pool.as_ref())
            .raw(self.config.as_ref())
            .u8(dir)
            .bool(o.referral.is_some())
            .u64(o.amount)
            .u64(o.limit)
            .u8(mode)
            .u64(res.included_in)
            .u64(res.excluded_in)
            .u64(res.left)
            .u64(res.output)
            .u128(res.next)
            .u64(res.trading)
            .u64(res.protocol)
            .u64(res.referral)
            .u64(n.quote_reserve)
            .u64(self.c.threshold)
            .u64(self.now());
        let mut v = vec![("EvtSwap", e1.0), ("EvtSwap2", e2.0)];
        if n.quote_reserve >= self.c.threshold {
            v.push((
                "EvtCurveComplete",
                W::default().raw(self.pool.as_ref()).raw(self.config.as_ref()).u64(n.base_reserve).u64(n.quote_reserve).0,
            ));
        }
        v
    }

    /// where the referral fee goes: account of the fee token
    pub fn referral_account(&self, owner: &Pubkey, buy: bool) -> Pubkey {
        if fees_on_base(&self.c, buy) {
            self.ba(owner)
        } else {
            self.qa(owner)
        }
    }

    /// the property tags that a wrong fee rate of a swap belongs to
    pub fn rate_tags(&self) -> Vec<&'static str> {
        let f = BaseFee::of(&self.c);
        let mut v = vec!["C05", "C08", "C19"];
        if f.mode < 2 && !f.is_flat() {
            v.push("C06");
        }
        if f.mode == 2 {
            v.push("C07");
        }
        v
    }

    /// one swap alone in a transaction, checked in every respect
    pub fn do_swap(&mut self, case: &mut Case, o: &SwapOp) -> bool {
        let (ix, kinds) = self.swap_ix(o);
        let single = o.sysvar;
        if case.t.chance(self.abuse) {
            let t = self.traders[o.who];
            let input = if o.buy { self.qa(&t) } else { self.ba(&t) };
            if self.predict_swap(&self.pv(), o, false, single, self.w.bal(&input)).is_ok() {
                let b = Built { name: "swap2", tags: vec!["C01"], ix: ix.clone(), kinds, expect: Expect::Any };
                crate::abuse::tamper(case, self, &b, &[ix.clone()]);
            }
        }
        self.do_swap_tx(case, o, &[ix], false, single)
    }

    /// a transaction whose only effect is this swap
    pub fn do_swap_tx(&mut self, case: &mut Case, o: &SwapOp, ixs: &[Ix], eligible: bool, single_ok: bool) -> bool {
        let pv = self.pv();
        let t = self.traders[o.who];
        let input = if o.buy { self.qa(&t) } else { self.ba(&t) };
        let predicted = self.predict_swap(&pv, o, eligible, single_ok, self.w.bal(&input));
        let before = self.w.clone();
        let out = self.w.tx(ixs);
        self.judge_swap(case, o, &pv, predicted, &before, out, eligible, ixs.len() == 1)
    }

    /// a transaction in which the swap comes last; the effect of the instructions before it is taken from running
    /// them alone. `None`: they fail alone.
    pub fn do_swap_last(&mut self, case: &mut Case, prefix: &[Ix], o: &SwapOp, swap_ixs: &[Ix], eligible: bool, single_ok: bool) -> Option<bool> {
        let start = self.w.clone();
        if !self.w.tx(prefix).ok || self.try_pv().is_none() {
            self.w = start;
            return None;
        }
        let pv = self.pv();
        let t = self.traders[o.who];
        let input = if o.buy { self.qa(&t) } else { self.ba(&t) };
        let predicted = self.predict_swap(&pv, o, eligible, single_ok, self.w.bal(&input));
        let middle = std::mem::replace(&mut self.w, start.clone());
        let mut ixs = prefix.to_vec();
        ixs.extend_from_slice(swap_ixs);
        let mut out = self.w.tx(&ixs);
        let n = prefix.len();
        if !out.ok && out.failed_at < n {
            // cannot be: the same instructions passed alone
            case.ck(false, &["C07", "C19", "C13"], || format!("instruction {} fails only because a swap follows: {}", out.failed_at, out.err));
            return Some(false);
        }
        out.trace.retain(|c| c.top >= n);
        if !out.ok {
            self.w = middle.clone();
        }
        let ok = self.judge_swap(case, o, &pv, predicted, &middle, out, eligible, false);
        if !ok {
            self.w = start;
        }
        Some(ok)
    }

    #[allow(clippy::too_many_arguments)]
    fn judge_swap(
        &mut self,
        case: &mut Case,
        o: &SwapOp,
        pv: &PoolView,
        predicted: Result<SwapRes, (&'static [&'static str], &'static str)>,
        before: &World,
        out: Outcome,
        eligible: bool,
        alone: bool,
    ) -> bool {
        let pv = pv.clone();
        let t = self.traders[o.who];
        let (input, output) = self.in_out(o);
        let (vin, vout) = if o.buy { (self.quote_vault, self.base_vault) } else { (self.base_vault, self.quote_vault) };
        case.note(|| {
            format!(
                "{} {:?} by {} amount={} limit={} referral={} point={}{} -> {}",
                if o.buy { "buy" } else { "sell" },
                o.mode,
                self.label(&t),
                o.amount,
                o.limit,
                o.referral.is_some(),
                self.point(),
                if eligible { " bundled" } else { "" },
                if out.ok { "ok".to_string() } else { format!("rejected: {}", out.err) }
            )
        });
        let mut all = vec!["C03", "C04"];
        all.extend(self.rate_tags());
        match (&predicted, out.ok) {
            (Err((tags, why)), true) => {
                let mut tg = tags.to_vec();
                if *why == "worse than the limit" {
                    tg.extend(["C04"]);
                }
                case.ck(false, &tg, || format!("swap accepted although it must be rejected: {why} ({o:?})"));
                return false;
            }
            (Err(_), false) => {
                let why = predicted.as_ref().err().unwrap();
                case.ck(true, why.0, || String::new());
                case.hit(&format!("swap rejected: {}", why.1));
                return false;
            }
            (Ok(res), false) => {
                // which part is to blame: only the limit?
                let mut tags = all.clone();
                let mut w2 = before.clone();
                let mut relaxed = o.clone();
                relaxed.limit = if o.mode == Mode::ExactOut { u64::MAX } else { 0 };
                if relaxed.limit != o.limit && alone {
                    let (ix, _) = self.swap_ix(&relaxed);
                    if w2.tx(&[ix]).ok {
                        tags = vec!["C04"];
                        tags.extend(self.rate_tags());
                    }
                }
                tags.push("C02");
                tags.push("C01");
                let n = apply(&self.c, &pv, o.buy, res, self.now()).unwrap();
                if n.quote_reserve >= self.c.threshold {
                    tags.push("C11");
                    tags.push("C10");
                }
                if out.err.contains("panic") {
                    tags.push("C11");
                }
                tags.push("C18");
                case.ck(false, &tags, || format!("swap rejected ({}) although it must succeed as {res:?} ({o:?})", out.err));
                return false;
            }
            (Ok(_), true) => {}
        }
        let res = predicted.unwrap();
        self.swaps += 1;
        case.hit(if o.buy { "buy" } else { "sell" });
        if o.to.is_some_and(|x| x != o.who) {
            case.hit("output to somebody else");
        }
        if res.steps > 1 {
            case.hit("swap over several segments");
        }
        if res.left > 0 {
            case.hit("partial fill stopped by the curve");
        }
        if res.referral > 0 {
            case.hit("referral fee");
        }
        let n = self.pv();
        let d = |k: &Pubkey| self.w.bal(k) as i128 - before.bal(k) as i128;
        // pool's own record
        let (rq, rb) = (n.quote_reserve as i128 - pv.quote_reserve as i128, n.base_reserve as i128 - pv.base_reserve as i128);
        let (net_in, gross_out) = if o.buy { (rq, -rb) } else { (rb, -rq) };
        let ok = net_in >= 0 && gross_out >= 0;
        case.ck(ok, &["C01", "C03", "C02"], || format!("reserves moved the wrong way: {rq} {rb}"));
        if !ok {
            return true;
        }
        let (net_in, gross_out) = (net_in as u64, gross_out as u64);
        // C03: the curve
        let walk = match (o.mode, o.buy) {
            (Mode::ExactOut, true) => buy_out(&self.c, pv.sqrt_price, gross_out),
            (Mode::ExactOut, false) => sell_out(&self.c, pv.sqrt_price, gross_out),
            (_, true) => buy_in(&self.c, pv.sqrt_price, net_in),
            (_, false) => sell_in(&self.c, pv.sqrt_price, net_in),
        };
        match walk {
            None => {
                case.ck(false, &["C03"], || format!("fill of {net_in} -> {gross_out} is not on the curve"));
            }
            Some(x) => {
                let (other, want) = if o.mode == Mode::ExactOut { (net_in, x.amount) } else { (gross_out, x.amount) };
                case.eq("amount on the curve", other, want, &["C03", "C02"]);
                case.eq("price after the swap", n.sqrt_price, x.next, &["C03", "C10"]);
                case.ck(x.left == 0, &["C03"], || format!("{} of {net_in} charged is not on the curve", x.left));
            }
        }
        if case.prop == "C03" && n.sqrt_price >= self.c.sqrt_start && n.sqrt_price <= self.c.migration_sqrt_price {
            crate::props::trade::real_curve(case, &self.c, pv.sqrt_price, n.sqrt_price, o.buy, o.mode == Mode::ExactOut, net_in, gross_out);
        }
        // C10
        case.ck(
            n.sqrt_price >= self.c.sqrt_start && n.sqrt_price <= self.c.migration_sqrt_price,
            &["C10"],
            || format!("price {} outside {}..{}", n.sqrt_price, self.c.sqrt_start, self.c.migration_sqrt_price),
        );
        case.ck(if o.buy { n.sqrt_price >= pv.sqrt_price } else { n.sqrt_price <= pv.sqrt_price }, &["C10"], || {
            format!("price moved the wrong way: {} -> {}", pv.sqrt_price, n.sqrt_price)
        });
        let done = n.quote_reserve >= self.c.threshold;
        let mut fin = n.clone();
        fin.progress = pv.progress;
        fin.finish_time = pv.finish_time;
        self.finish(&mut fin);
        case.eq("completion record", (n.progress, n.finish_time), (fin.progress, fin.finish_time), &["C10", "C16", "C11"]);
        if done {
            case.hit("curve completed");
        }
        // C05.. fees
        let on_in = fees_on_input(&self.c, o.buy);
        let base_fee = fees_on_base(&self.c, o.buy);
        let (mp, mt) = if base_fee { (M_PROTO_BASE, M_TRADE_BASE) } else { (M_PROTO_QUOTE, M_TRADE_QUOTE) };
        let dm = |i: usize| n.metrics[i].wrapping_sub(pv.metrics[i]);
        let (proto, trade) = (dm(mp), dm(mt));
        let ref_acc = o.referral.unwrap_or_default();
        let own_ref = ref_acc == input || ref_acc == output;
        // a self-referral shows up in the trader's own balance
        let paid_ref: i128 = if o.referral.is_none() {
            0
        } else if own_ref {
            let v = -d(&vout);
            let v2 = d(&vin);
            if base_fee || !o.buy {
                v - d(&output) + if ref_acc == output { res.referral as i128 } else { 0 }
            } else {
                let _ = v2;
                res.referral as i128
            }
        } else {
            d(&ref_acc)
        };
        let user_in = -(d(&input)) + if own_ref && ref_acc == input { res.referral as i128 } else { 0 };
        let user_out = d(&output) - if own_ref && ref_acc == output { res.referral as i128 } else { 0 };
        let fee_total = trade as i128 + proto as i128 + if own_ref { res.referral as i128 } else { paid_ref };
        let rates = Rates::new(&self.c, &pv, self.point(), o.buy, eligible && o.referral.is_none() && o.sysvar);
        let want_fee = (|| -> Option<(u64, u64)> {
            Some(match (o.mode, on_in) {
                (Mode::ExactOut, true) => {
                    let rt = rates.excluded(net_in)?;
                    (rt, add_fee(net_in, rt)?.1)
                }
                (Mode::ExactOut, false) => {
                    let rt = rates.excluded(o.amount)?;
                    (rt, add_fee(o.amount, rt)?.1)
                }
                (_, true) => {
                    if res.left > 0 {
                        let rt = rates.excluded(net_in)?;
                        (rt, add_fee(net_in, rt)?.1.min(o.amount.saturating_sub(net_in)))
                    } else {
                        let rt = rates.included(o.amount)?;
                        (rt, take_fee(o.amount, rt)?.1)
                    }
                }
                (_, false) => {
                    let rt = rates.included(o.amount)?;
                    (rt, take_fee(gross_out, rt)?.1)
                }
            })
        })();
        let rt = self.rate_tags();
        match want_fee {
            None => {
                case.ck(false, &rt, || "fee model has no value".into());
            }
            Some((rate, f)) => {
                case.ck(fee_total == f as i128, &rt, || {
                    format!("fee charged {fee_total}, expected {f} (rate {rate}/1e9; {o:?}; net in {net_in}, gross out {gross_out})")
                });
                let bearing = if on_in { net_in as u128 + f as u128 } else { gross_out as u128 };
                case.ck(fee_total as u128 * 100 <= bearing * 99 + 100, &["C05"], || {
                    format!("fee {fee_total} above 99% of {bearing}")
                });
                if rate > 0 {
                    case.hit(if on_in { "fee on input" } else { "fee on output" });
                }
                if rate == MAX_FEE {
                    case.hit("fee at maximum");
                }
            }
        }
        let fee_u = u64::try_from(fee_total.max(0)).unwrap_or(0);
        let (t1, p1, r1) = split_fee(fee_u, o.referral.is_some());
        case.eq("fee split (trading, protocol, referral)", (trade, proto, if own_ref { res.referral as i128 } else { paid_ref }), (t1, p1, r1 as i128), &["C05"]);
        let (pt, ct) = split_trading(&self.c, trade);
        let df = |a: u64, b: u64| a.wrapping_sub(b);
        let got = if base_fee {
            (
                df(n.partner_base_fee, pv.partner_base_fee),
                df(n.creator_base_fee, pv.creator_base_fee),
                df(n.protocol_base_fee, pv.protocol_base_fee),
            )
        } else {
            (
                df(n.partner_quote_fee, pv.partner_quote_fee),
                df(n.creator_quote_fee, pv.creator_quote_fee),
                df(n.protocol_quote_fee, pv.protocol_quote_fee),
            )
        };
        case.eq("recorded fees (partner, creator, protocol)", got, (pt, ct, proto), &["C05", "C12", "C01"]);
        // C04 / C05: what the trader paid and got
        let fee_in = if on_in { fee_total } else { 0 };
        let fee_out = if on_in { 0 } else { fee_total };
        case.eq("trader paid", user_in, net_in as i128 + fee_in, &["C05", "C04", "C01"]);
        case.eq("trader received", user_out, gross_out as i128 - fee_out, &["C05", "C04", "C01"]);
        match o.mode {
            Mode::ExactIn => {
                case.eq("ExactIn spends", user_in, o.amount as i128, &["C04"]);
                case.ck(user_out >= o.limit as i128, &["C04"], || format!("output {user_out} below the limit {}", o.limit));
            }
            Mode::Partial => {
                case.ck(user_in <= o.amount as i128, &["C04"], || format!("spent {user_in} of {}", o.amount));
                case.ck(user_out >= o.limit as i128, &["C04"], || format!("output {user_out} below the limit {}", o.limit));
                if user_in < o.amount as i128 {
                    let end = if o.buy { self.c.migration_sqrt_price } else { self.c.sqrt_start };
                    let stopped = n.sqrt_price == end;
                    // with the fee on the input, rounding of the fee alone may leave a unit unspent at the end only
                    case.ck(stopped, &["C04"], || format!("partial fill stopped at {} before the end {end}", n.sqrt_price));
                }
                case.eq("partial fill spends", user_in, res.included_in as i128, &["C04"]);
            }
            Mode::ExactOut => {
                case.eq("ExactOut delivers", user_out, o.amount as i128, &["C04"]);
                case.ck(user_in <= o.limit as i128, &["C04"], || format!("input {user_in} above the limit {}", o.limit));
            }
        }
        // C08: volatility
        let mut want = pv.clone();
        if let Some(dy) = &self.c.dynamic {
            let v = vol_before(dy, &Vol::of(&pv), pv.sqrt_price, self.now());
            let v = vol_after(dy, &v, pv.sqrt_price, n.sqrt_price, self.now());
            want.last_update = v.last_update;
            want.sqrt_ref = v.sqrt_ref;
            want.vol_acc = v.acc;
            want.vol_ref = v.vref;
            if v.acc > 0 {
                case.hit("volatility above zero");
            }
        }
        // all other fields
        let mut all_want = apply(&self.c, &pv, o.buy, &res, self.now()).unwrap();
        self.finish(&mut all_want);
        all_want.last_update = want.last_update;
        all_want.sqrt_ref = want.sqrt_ref;
        all_want.vol_acc = want.vol_acc;
        all_want.vol_ref = want.vol_ref;
        // swap-dependent parts were judged above
        all_want.base_reserve = n.base_reserve;
        all_want.quote_reserve = n.quote_reserve;
        all_want.sqrt_price = n.sqrt_price;
        all_want.progress = n.progress;
        all_want.finish_time = n.finish_time;
        let f = |a: &PoolView| (a.partner_base_fee, a.partner_quote_fee, a.creator_base_fee, a.creator_quote_fee, a.protocol_base_fee, a.protocol_quote_fee, a.metrics);
        let mut same = n.clone();
        if base_fee {
            same.partner_base_fee = pv.partner_base_fee;
            same.creator_base_fee = pv.creator_base_fee;
            same.protocol_base_fee = pv.protocol_base_fee;
        } else {
            same.partner_quote_fee = pv.partner_quote_fee;
            same.creator_quote_fee = pv.creator_quote_fee;
            same.protocol_quote_fee = pv.protocol_quote_fee;
        }
        same.metrics[mp] = pv.metrics[mp];
        same.metrics[mt] = pv.metrics[mt];
        case.ck(f(&same) == f(&pv), &["C05", "C12", "C01"], || "the other token's fee records changed".into());
        all_want.partner_base_fee = n.partner_base_fee;
        all_want.creator_base_fee = n.creator_base_fee;
        all_want.protocol_base_fee = n.protocol_base_fee;
        all_want.partner_quote_fee = n.partner_quote_fee;
        all_want.creator_quote_fee = n.creator_quote_fee;
        all_want.protocol_quote_fee = n.protocol_quote_fee;
        all_want.metrics = n.metrics;
        for (fld, g, wnt) in view_diff(&n, &all_want) {
            let mut tg = view_tags(fld).to_vec();
            tg.push("C23");
            case.ck(false, &tg, || format!("pool {fld} after swap: got {g}, expected {wnt}"));
        }
        if self.c.dynamic.is_some() {
            case.ck(true, &["C08"], String::new);
        }
        // C01: token movements
        let ref_out = if own_ref { res.referral as i128 } else { paid_ref };
        let mut tok: BTreeMap<Pubkey, i128> = BTreeMap::new();
        let mut add = |k: Pubkey, v: i128| *tok.entry(k).or_insert(0) += v;
        add(input, -user_in);
        add(vin, user_in);
        add(vout, -user_out);
        add(output, user_out);
        if o.referral.is_some() {
            let v = if base_fee { self.base_vault } else { self.quote_vault };
            add(v, -ref_out);
            add(ref_acc, ref_out);
        }
        let mut e = Effect { tok, ..Default::default() };
        e.touched.insert(self.pool);
        self.wsol_lamports(&mut e);
        let seen = SwapRes {
            included_in: user_in.max(0) as u64,
            excluded_in: net_in,
            gross_out,
            output: user_out.max(0) as u64,
            left: if o.mode == Mode::ExactOut { 0 } else { res.left },
            next: n.sqrt_price,
            trading: trade,
            protocol: proto,
            referral: ref_out.max(0) as u64,
            rate: 0,
            steps: 0,
        };
        e.events = self.swap_events(o, &seen, &n);
        self.compare(case, before, &out, &e, &["C05"]);
        self.standing(case);
        true
    }

    /// wrapped SOL: lamports follow the token amounts
    fn wsol_lamports(&self, e: &mut Effect) {
        if self.quote_mint == WSOL {
            for k in e.tok.keys() {
                if self.w.data(k).get(..32) == Some(WSOL.as_ref()) {
                    e.free_lamports.insert(*k);
                }
            }
        }
    }

    // ---- executing and comparing -------------------------------------------------------------------------------

    /// runs one predicted instruction; returns whether it was accepted
    pub fn exec(&mut self, case: &mut Case, b: &Built) -> bool {
        self.exec_ixs(case, b, std::slice::from_ref(&b.ix))
    }

    /// the prediction is for the whole transaction
    pub fn exec_ixs(&mut self, case: &mut Case, b: &Built, ixs: &[Ix]) -> bool {
        if matches!(b.expect, Expect::Ok(_)) && case.t.chance(self.abuse) {
            crate::abuse::tamper(case, self, b, ixs);
        }
        if self.mischief > 0 && matches!(b.expect, Expect::Ok(_)) && case.t.chance(self.mischief) {
            crate::abuse::mischief(case, self, b, ixs);
        }
        let before = self.w.clone();
        let out = self.w.tx(ixs);
        case.note(|| {
            let want = match &b.expect {
                Expect::Ok(_) => "",
                Expect::Reject(w) => w,
                Expect::Any => "any",
            };
            format!("{} -> {} {}", b.name, if out.ok { "ok".to_string() } else { format!("rejected: {}", out.err) }, if want.is_empty() { String::new() } else { format!("(expected: {want})") })
        });
        let mut tags = b.tags.clone();
        match &b.expect {
            Expect::Any => {}
            Expect::Reject(why) => {
                tags.push("C13");
                let ok = case.ck(!out.ok, &tags, || format!("{} accepted although it must be rejected: {why}", b.name));
                if ok {
                    case.hit(&format!("{} rejected", b.name));
                }
            }
            Expect::Ok(e) => {
                tags.push("C01");
                if case.ck(out.ok, &tags, || format!("{} rejected ({}) although it must succeed", b.name, out.err)) {
                    case.hit(b.name);
                    let mut e = (**e).clone();
                    self.wsol_lamports(&mut e);
                    self.compare(case, &before, &out, &e, &b.tags);
                    self.standing(case);
                }
            }
        }
        out.ok
    }

    /// compares the world with the expected effect of a transaction
    pub fn compare(&self, case: &mut Case, before: &World, out: &Outcome, e: &Effect, tags: &[&'static str]) {
        let with = |extra: &[&'static str]| {
            let mut v = tags.to_vec();
            v.extend(extra);
            v
        };
        let mut keys: BTreeSet<Pubkey> = BTreeSet::new();
        for c in &out.trace {
            for m in &c.metas {
                keys.insert(m.pubkey);
            }
        }
        let zero: &[u8] = &[];
        let (mut checks, mut bad): (u64, Vec<(Vec<&'static str>, String)>) = (0, vec![]);
        for k in keys {
            let (a, z) = (before.get(&k), self.w.get(&k));
            let (da, dz) = (a.map(|x| x.data()).unwrap_or(zero), z.map(|x| x.data()).unwrap_or(zero));
            // lamports
            let dl = self.w.lamports(&k) as i128 - before.lamports(&k) as i128;
            if !e.free_lamports.contains(&k) {
                let want = e.lam.get(&k).copied().unwrap_or(0);
                checks += 1;
                if dl != want {
                    bad.push((with(&["C20", "C01", "C13"]), format!("lamports of {} changed by {dl}, expected {want}", self.label(&k))));
                }
            }
            if e.rent.contains(&k) {
                checks += 1;
                let (had, has, due) = (before.lamports(&k), self.w.lamports(&k), rent_min(dz.len()));
                if has != had.max(due) {
                    bad.push((with(&["C20", "C26"]), format!("{} was given {} lamports: it had {had} and its rent is {due}", self.label(&k), has as i128 - had as i128)));
                }
            }
            let touched = e.touched.contains(&k);
            if is_token_account(&self.w, &k) || is_token_account(before, &k) {
                let dt = self.w.bal(&k) as i128 - before.bal(&k) as i128;
                let want = e.tok.get(&k).copied().unwrap_or(0);
                checks += 1;
                if dt != want {
                    bad.push((with(&["C01", "C13"]), format!("token balance of {} changed by {dt}, expected {want}", self.label(&k))));
                }
                if !touched && (da.len() != dz.len() || da.is_empty() || da[..64] != dz[..64] || da[72..] != dz[72..]) {
                    bad.push((with(&["C13", "C23", "C01"]), format!("token account {} changed", self.label(&k))));
                }
            } else if is_mint(&self.w, &k) {
                let ds = self.w.supply(&k) as i128 - before.supply(&k) as i128;
                let want = e.supply.get(&k).copied().unwrap_or(0);
                checks += 1;
                if ds != want {
                    bad.push((with(&["C17"]), format!("supply of {} changed by {ds}, expected {want}", self.label(&k))));
                }
                if !touched && (da.len() != dz.len() || da.is_empty() || da[..36] != dz[..36] || da[44..] != dz[44..]) {
                    bad.push((with(&["C13", "C17"]), format!("mint {} changed", self.label(&k))));
                }
            } else if !touched && e.pool.as_ref().map(|p| p.0) != Some(k) && k != instructions_sysvar() {
                checks += 1;
                let oa = a.map(|x| x.owner()).unwrap_or(system_id());
                let oz = z.map(|x| x.owner()).unwrap_or(system_id());
                if da != dz || oa != oz {
                    bad.push((with(&["C13", "C23"]), format!("account {} changed", self.label(&k))));
                }
            }
        }
        for (k, want) in e.tok.iter().filter(|x| *x.1 != 0) {
            let dt = self.w.bal(k) as i128 - before.bal(k) as i128;
            checks += 1;
            if dt != *want {
                bad.push((with(&["C01", "C13"]), format!("token balance of {} changed by {dt}, expected {want}", self.label(k))));
            }
        }
        if let Some((k, want)) = &e.pool {
            match PoolView::read(self.w.data(k)) {
                None => bad.push((with(&["C23"]), "pool account is gone".into())),
                Some(n) => {
                    checks += 1;
                    for (fld, g, wnt) in view_diff(&n, want) {
                        let mut tg = view_tags(fld).to_vec();
                        tg.extend(tags);
                        bad.push((tg, format!("pool {fld}: got {g}, expected {wnt}")));
                    }
                }
            }
        }
        // events
        let got: Vec<&[u8]> = out.events();
        let want: Vec<Vec<u8>> = e
            .events
            .iter()
            .map(|(n, d)| {
                let mut v = event_disc(n).to_vec();
                v.extend(d);
                v
            })
            .collect();
        checks += 1;
        // the order among them carries no meaning
        let mut extra: Vec<&[u8]> = got.clone();
        let mut missing: Vec<&Vec<u8>> = vec![];
        for x in &want {
            match extra.iter().position(|g| *g == &x[..]) {
                Some(i) => {
                    extra.remove(i);
                }
                None => missing.push(x),
            }
        }
        if !extra.is_empty() || !missing.is_empty() {
            let names: Vec<&str> = e.events.iter().map(|x| x.0).collect();
            let which: Vec<&str> = missing.iter().filter_map(|m| names.iter().find(|n| event_disc(n)[..] == m[..8]).copied()).collect();
            // the same event with other contents
            let at = missing.first().and_then(|m| extra.iter().find(|g| g.len() >= 8 && g[..8] == m[..8]).and_then(|g| g.iter().zip(m.iter()).position(|(a, b)| a != b)));
            bad.push((vec!["C23"], format!("events differ: {} emitted, expected {names:?}; missing or different: {which:?} (first difference at byte {at:?}); {} not expected", got.len(), extra.len())));
        }
        let mine: Vec<&'static str> = with(&["C01", "C13", "C23", "C17", "C20"]);
        if case.mine(&mine) {
            case.checks += checks;
        }
        for (tg, m) in bad {
            case.ck(false, &tg, || m);
        }
    }

    pub fn label(&self, k: &Pubkey) -> String {
        let mut names: Vec<(Pubkey, String)> = vec![
            (self.pool, "pool".into()),
            (self.config, "config".into()),
            (self.base_vault, "base vault".into()),
            (self.quote_vault, "quote vault".into()),
            (self.base_mint, "base mint".into()),
            (self.quote_mint, "quote mint".into()),
            (pool_authority(), "pool authority".into()),
            (self.payer, "payer".into()),
            (TREASURY, "treasury".into()),
        ];
        let mut people: Vec<(Pubkey, String)> = vec![(self.partner, "partner".into()), (self.leftover, "leftover receiver".into()), (TREASURY, "treasury".into()), (pool_authority(), "pool authority".into())];
        for (i, x) in self.creators.iter().enumerate() {
            people.push((*x, format!("creator{i}")));
        }
        for (i, x) in self.traders.iter().enumerate() {
            people.push((*x, format!("trader{i}")));
        }
        for (i, x) in self.referrals.iter().enumerate() {
            people.push((*x, format!("referral{i}")));
        }
        for (x, n) in people {
            names.push((self.qa(&x), format!("{n}'s quote account")));
            names.push((self.ba(&x), format!("{n}'s base account")));
            names.push((x, n));
        }
        names.iter().find(|x| x.0 == *k).map(|x| x.1.clone()).unwrap_or_else(|| k.to_string())
    }

    /// what must be in the vaults (base, quote)
    pub fn obligations(&self, pv: &PoolView) -> (u128, u128) {
        let t = self.c.threshold;
        if pv.quote_reserve < t {
            return (pv.base_reserve as u128 + pv.base_fees(), pv.quote_reserve as u128 + pv.quote_fees());
        }
        let mq = migration_quote(t, self.c.migration_fee_pct);
        let (ps, cs, prs) = split_surplus(&self.c, pv.quote_reserve - t);
        let (pf, cf) = split_migration_fee(&self.c);
        let mut quote = pv.quote_fees() + pv.mig_quote_fee as u128;
        if pv.is_migrated == 0 {
            quote += mq as u128;
        }
        if pv.partner_surplus_done == 0 {
            quote += ps as u128;
        }
        if pv.creator_surplus_done == 0 {
            quote += cs as u128;
        }
        if pv.protocol_surplus_done == 0 {
            quote += prs as u128;
        }
        if pv.migration_fee_status & 0b100 == 0 {
            quote += pf as u128;
        }
        if pv.migration_fee_status & 0b010 == 0 {
            quote += cf as u128;
        }
        let mut base = pv.base_fees() + pv.mig_base_fee as u128;
        if pv.is_migrated == 0 {
            let vested = if pv.progress >= 2 { self.c.vesting_total() } else { 0 };
            base += (pv.base_reserve as u128).saturating_sub(vested);
        } else if pv.leftover_done == 0 {
            base += self.migrated_base_left as u128;
        }
        (base, quote)
    }

    /// invariants that hold between any two transactions
    pub fn standing(&self, case: &mut Case) {
        let Some(pv) = self.try_pv() else { return };
        let (ob, q) = self.obligations(&pv);
        let (hb, hq) = (self.w.bal(&self.base_vault) as u128, self.w.bal(&self.quote_vault) as u128);
        let mut db = self.donated.0 as u128;
        if pv.is_migrated == 1 {
            db = self.stuck_base as u128;
        }
        let dq = self.donated.1 as u128 + self.dust as u128;
        case.ck(hb == ob + db, &["C01"], || format!("base vault holds {hb}, obligations are {ob} (+{db} donated)"));
        case.ck(hq == q + dq, &["C01"], || format!("quote vault holds {hq}, obligations are {q} (+{dq} donated or undepositable)"));
        let lam = self.w.lamports(&self.pool);
        case.ck(lam >= rent_min(POOL_LEN), &["C20"], || format!("pool account not rent exempt: {lam}"));
        if pv.quote_reserve >= self.c.threshold {
            case.ck(pv.progress >= 1, &["C10", "C11"], || "quote reserve at the threshold but the pool is not complete".into());
        } else {
            case.ck(pv.progress == 0 && pv.is_migrated == 0, &["C10"], || "complete below the threshold".into());
        }
        case.ck(
            pv.sqrt_price >= self.c.sqrt_start && pv.sqrt_price <= self.c.migration_sqrt_price,
            &["C10"],
            || format!("price {} outside the curve", pv.sqrt_price),
        );
        // the curve up to the price, in real numbers
        let mut area = B::ZERO;
        let mut sold = B::ZERO;
        for (lo, hi, l) in pieces(&self.c) {
            if pv.sqrt_price <= lo {
                break;
            }
            let hi = hi.min(pv.sqrt_price);
            area += b(l) * b(hi - lo);
            sold += base_between(l, lo, hi, true);
        }
        case.ck(area <= b(pv.quote_reserve as u128) << 128, &["C02", "C03"], || {
            format!("quote reserve {} is below the curve up to price {}", pv.quote_reserve, pv.sqrt_price)
        });
        let gone = self.initial_supply.saturating_sub(pv.base_reserve);
        case.ck(pv.base_reserve <= self.initial_supply.saturating_add(self.minted) && b(gone as u128) <= sold, &["C02", "C03"], || {
            format!("{gone} base sold, more than the curve up to price {}", pv.sqrt_price)
        });
    }

    // ---- claims ------------------------------------------------------------------------------------------------

    pub fn permitted(&self, who: &Pubkey, bit: u128) -> bool {
        self.ops.get(who).map(|p| p & bit != 0).unwrap_or(false)
    }

    fn claim_metas(&self, dest_base: Pubkey, dest_quote: Pubkey) -> Metas {
        vec![
            (r(pool_authority()), K::Fixed),
            (r(self.config), K::Config),
            (w(self.pool), K::Pool),
            (w(dest_base), K::Free),
            (w(dest_quote), K::Free),
            (w(self.base_vault), K::BaseVault),
            (w(self.quote_vault), K::QuoteVault),
            (r(self.base_mint), K::BaseMint),
            (r(self.quote_mint), K::QuoteMint),
        ]
    }

    fn claim_effect(&self, n: PoolView, dest_base: Pubkey, dest_quote: Pubkey, b: u64, q: u64, event: &'static str) -> Effect {
        let mut e = Effect::default();
        e.mv(self.base_vault, dest_base, b);
        e.mv(self.quote_vault, dest_quote, q);
        e.pool = Some((self.pool, n));
        e.events = vec![(event, W::default().raw(self.pool.as_ref()).u64(b).u64(q).0)];
        e
    }

    pub fn claim_partner(&self, signer: Pubkey, max_b: u64, max_q: u64) -> Built {
        let pv = self.pv();
        let (b, q) = (pv.partner_base_fee.min(max_b), pv.partner_quote_fee.min(max_q));
        let mut n = pv.clone();
        n.partner_base_fee -= b;
        n.partner_quote_fee -= q;
        let to = self.payee.unwrap_or(signer);
        let (db, dq) = (self.ba(&to), self.qa(&to));
        let mut metas = self.claim_metas(db, dq);
        metas.push((s(signer), K::User));
        metas.push((r(self.base_prog), K::Prog));
        metas.push((r(self.quote_prog), K::Prog));
        let expect = if signer == self.partner {
            Expect::Ok(Box::new(self.claim_effect(n, db, dq, b, q, "EvtClaimTradingFee")))
        } else {
            Expect::Reject("not the fee claimer")
        };
        self.make("claim_trading_fee", &["C12"], metas, W::default().u64(max_b).u64(max_q).0, true, vec![], expect)
    }

    pub fn claim_creator(&self, signer: Pubkey, max_b: u64, max_q: u64) -> Built {
        let pv = self.pv();
        let (b, q) = (pv.creator_base_fee.min(max_b), pv.creator_quote_fee.min(max_q));
        let mut n = pv.clone();
        n.creator_base_fee -= b;
        n.creator_quote_fee -= q;
        let to = self.payee.unwrap_or(signer);
        let (db, dq) = (self.ba(&to), self.qa(&to));
        let mut metas = self.claim_metas(db, dq);
        metas.remove(1);
        metas.push((s(signer), K::User));
        metas.push((r(self.base_prog), K::Prog));
        metas.push((r(self.quote_prog), K::Prog));
        let expect = if signer == pv.creator {
            Expect::Ok(Box::new(self.claim_effect(n, db, dq, b, q, "EvtClaimCreatorTradingFee")))
        } else {
            Expect::Reject("not the creator")
        };
        self.make("claim_creator_trading_fee", &["C12", "C22"], metas, W::default().u64(max_b).u64(max_q).0, true, vec![], expect)
    }

    /// (amount, pool afterwards) of a protocol claim on one side
    pub fn protocol_base(&self, pv: &PoolView, max: u64) -> (u64, PoolView) {
        let mut n = pv.clone();
        let a = n.protocol_base_fee.min(max);
        n.protocol_base_fee -= a;
        let m = n.mig_base_fee.min(max - a);
        n.mig_base_fee -= m;
        (a + m, n)
    }
    pub fn protocol_quote(&self, pv: &PoolView, max: u64) -> (u64, PoolView) {
        let mut n = pv.clone();
        let a = n.protocol_quote_fee.min(max);
        n.protocol_quote_fee -= a;
        let m = n.mig_quote_fee.min(max - a);
        n.mig_quote_fee -= m;
        let mut total = a + m;
        if n.protocol_surplus_done == 0 && n.quote_reserve >= self.c.threshold {
            n.protocol_surplus_done = 1;
            total += split_surplus(&self.c, n.quote_reserve - self.c.threshold).2;
        }
        (total, n)
    }

    pub fn claim_protocol(&self, signer: Pubkey, max_b: u64, max_q: u64) -> Built {
        self.claim_protocol_to(signer, max_b, max_q, TREASURY)
    }
    pub fn claim_protocol_to(&self, signer: Pubkey, max_b: u64, max_q: u64, to: Pubkey) -> Built {
        let pv = self.pv();
        let (b, n) = self.protocol_base(&pv, max_b);
        let (q, n) = self.protocol_quote(&n, max_q);
        let (db, dq) = (self.ba(&to), self.qa(&to));
        let metas: Metas = vec![
            (r(pool_authority()), K::Fixed),
            (r(self.config), K::Config),
            (w(self.pool), K::Pool),
            (w(self.base_vault), K::BaseVault),
            (w(self.quote_vault), K::QuoteVault),
            (r(self.base_mint), K::BaseMint),
            (r(self.quote_mint), K::QuoteMint),
            (w(db), if b > 0 { K::Dest } else { K::Free }),
            (w(dq), if q > 0 { K::Dest } else { K::Free }),
            (r(operator_address(&signer)), K::Operator),
            (s(signer), K::User),
            (r(self.base_prog), K::Prog),
            (r(self.quote_prog), K::Prog),
        ];
        let allowed = self.permitted(&signer, 1);
        let expect = if !allowed {
            Expect::Reject("no claim permission")
        } else if to != TREASURY && (b > 0 || q > 0) {
            Expect::Reject("not the treasury")
        } else {
            Expect::Ok(Box::new(self.claim_effect(n, db, dq, b, q, "EvtClaimProtocolFee")))
        };
        self.make("claim_protocol_fee", &["C12", "C21", "C24"], metas, W::default().u64(max_b).u64(max_q).0, true, vec![], expect)
    }

    /// Ok only together with the zap-out instruction that follows it
    pub fn zap_protocol(&self, signer: Pubkey, base: bool, max: u64) -> (Built, u64) {
        let pv = self.pv();
        let (a, n) = if base { self.protocol_base(&pv, max) } else { self.protocol_quote(&pv, max) };
        let (mint, vault, prog) = if base {
            (self.base_mint, self.base_vault, self.base_prog)
        } else {
            (self.quote_mint, self.quote_vault, self.quote_prog)
        };
        let dest = ata(&signer, &mint, &prog);
        let metas: Metas = vec![
            (r(pool_authority()), K::Fixed),
            (r(self.config), K::Config),
            (w(self.pool), K::Pool),
            (w(vault), if base { K::BaseVault } else { K::QuoteVault }),
            (r(mint), if base { K::BaseMint } else { K::QuoteMint }),
            (w(dest), K::Dest),
            (r(operator_address(&signer)), K::Operator),
            (s(signer), K::User),
            (r(prog), K::Prog),
            (r(instructions_sysvar()), K::Fixed),
        ];
        let mut e = Effect::default();
        e.mv(vault, dest, a);
        e.pool = Some((self.pool, n));
        let allowed = self.permitted(&signer, 2);
        let expect = if !allowed {
            Expect::Reject("no zap permission")
        } else if mint == WSOL || mint == USDC {
            Expect::Reject("mint restricted from zapping")
        } else if a == 0 {
            Expect::Reject("nothing to zap")
        } else {
            Expect::Ok(Box::new(e))
        };
        (self.make("zap_protocol_fee", &["C24"], metas, W::default().u64(max).0, false, vec![], expect), a)
    }

    /// the zap-out that must follow: sells all that the claim added to the operator's account
    pub fn zap_out(&self, signer: Pubkey, base: bool, amount: u64) -> Ix {
        let (mint, prog) = if base { (self.base_mint, self.base_prog) } else { (self.quote_mint, self.quote_prog) };
        let from = ata(&signer, &mint, &prog);
        let paired = if base { self.qa(&TREASURY) } else { self.ba(&TREASURY) };
        let mut data = ZAP_OUT_DISC.to_vec();
        data.push(100);
        data.extend(0u16.to_le_bytes());
        data.extend(self.w.bal(&from).to_le_bytes());
        data.extend(amount.to_le_bytes());
        Ix { program: ZAP, metas: vec![w(from), w(paired), s(signer)], data }
    }

    pub fn do_zap(&mut self, case: &mut Case, signer: Pubkey, base: bool, max: u64) -> bool {
        let (b, a) = self.zap_protocol(signer, base, max);
        let out = self.zap_out(signer, base, a);
        let ixs = [b.ix.clone(), out];
        self.exec_ixs(case, &b, &ixs)
    }

    // ---- surplus, migration fee, leftover ----------------------------------------------------------------------

    pub fn withdraw_surplus(&self, creator: bool, signer: Pubkey) -> Built {
        let pv = self.pv();
        let done = pv.quote_reserve >= self.c.threshold;
        let dest = self.qa(&self.payee.unwrap_or(signer));
        let metas: Metas = vec![
            (r(pool_authority()), K::Fixed),
            (r(self.config), K::Config),
            (w(self.pool), K::Pool),
            (w(dest), K::Free),
            (w(self.quote_vault), K::QuoteVault),
            (r(self.quote_mint), K::QuoteMint),
            (s(signer), K::User),
            (r(self.quote_prog), K::Prog),
        ];
        let entitled = if creator { pv.creator } else { self.partner };
        let flag = if creator { pv.creator_surplus_done } else { pv.partner_surplus_done };
        let expect = if signer != entitled {
            Expect::Reject("not entitled to surplus")
        } else if !done {
            Expect::Reject("curve not complete")
        } else if flag != 0 {
            Expect::Reject("surplus already withdrawn")
        } else {
            let (ps, cs, _) = split_surplus(&self.c, surplus(&self.c, &pv));
            let a = if creator { cs } else { ps };
            let mut n = pv.clone();
            if creator {
                n.creator_surplus_done = 1;
            } else {
                n.partner_surplus_done = 1;
            }
            let mut e = Effect::default();
            e.mv(self.quote_vault, dest, a);
            e.pool = Some((self.pool, n));
            let ev = if creator { "EvtCreatorWithdrawSurplus" } else { "EvtPartnerWithdrawSurplus" };
            e.events = vec![(ev, W::default().raw(self.pool.as_ref()).u64(a).0)];
            Expect::Ok(Box::new(e))
        };
        let name = if creator { "creator_withdraw_surplus" } else { "partner_withdraw_surplus" };
        self.make(name, if creator { &["C21", "C22"] } else { &["C21"] }, metas, vec![], true, vec![], expect)
    }

    pub fn withdraw_migration_fee(&self, flag: u8, signer: Pubkey) -> Built {
        let pv = self.pv();
        let dest = self.qa(&self.payee.unwrap_or(signer));
        let metas: Metas = vec![
            (r(pool_authority()), K::Fixed),
            (r(self.config), K::Config),
            (w(self.pool), K::Pool),
            (w(dest), K::Free),
            (w(self.quote_vault), K::QuoteVault),
            (r(self.quote_mint), K::QuoteMint),
            (s(signer), K::User),
            (r(self.quote_prog), K::Prog),
        ];
        let (pf, cf) = split_migration_fee(&self.c);
        let expect = if flag > 1 {
            Expect::Reject("unknown flag")
        } else if pv.quote_reserve < self.c.threshold {
            Expect::Reject("curve not complete")
        } else if signer != if flag == 0 { self.partner } else { pv.creator } {
            Expect::Reject("not entitled to the migration fee")
        } else if pv.migration_fee_status & if flag == 0 { 0b100 } else { 0b010 } != 0 {
            Expect::Reject("migration fee already withdrawn")
        } else {
            let a = if flag == 0 { pf } else { cf };
            let mut n = pv.clone();
            n.migration_fee_status |= if flag == 0 { 0b100 } else { 0b010 };
            let mut e = Effect::default();
            e.mv(self.quote_vault, dest, a);
            e.pool = Some((self.pool, n));
            e.events = vec![("EvtWithdrawMigrationFee", W::default().raw(self.pool.as_ref()).u64(a).u8(flag).0)];
            Expect::Ok(Box::new(e))
        };
        self.make("withdraw_migration_fee", if flag == 1 { &["C21", "C22"] } else { &["C21"] }, metas, vec![flag], true, vec![], expect)
    }

    pub fn withdraw_leftover(&self, to: Pubkey) -> Built {
        let pv = self.pv();
        let dest = self.ba(&to);
        let metas: Metas = vec![
            (r(pool_authority()), K::Fixed),
            (r(self.config), K::Config),
            (w(self.pool), K::Pool),
            (w(dest), K::Dest),
            (w(self.base_vault), K::BaseVault),
            (r(self.base_mint), K::BaseMint),
            (r(to), K::Bound),
            (r(self.base_prog), K::Prog),
        ];
        let expect = if pv.progress != 3 {
            Expect::Reject("AMM pool not created")
        } else if self.c.fixed_supply != 1 {
            Expect::Reject("supply is not fixed")
        } else if to != self.leftover {
            Expect::Reject("not the leftover receiver")
        } else if pv.leftover_done != 0 {
            Expect::Reject("leftover already withdrawn")
        } else {
            let a = (self.w.bal(&self.base_vault) as u128).saturating_sub(pv.base_fees() + pv.mig_base_fee as u128) as u64;
            let mut n = pv.clone();
            n.leftover_done = 1;
            let mut e = Effect::default();
            e.mv(self.base_vault, dest, a);
            e.pool = Some((self.pool, n));
            e.events = vec![("EvtWithdrawLeftover", W::default().raw(self.pool.as_ref()).raw(to.as_ref()).u64(a).0)];
            Expect::Ok(Box::new(e))
        };
        self.make("withdraw_leftover", &["C21"], metas, vec![], true, vec![], expect)
    }

    // ---- creation fee ------------------------------------------------------------------------------------------

    pub fn claim_creation_protocol(&self, signer: Pubkey, to: Pubkey) -> Built {
        let pv = self.pv();
        let metas: Metas = vec![
            (r(self.config), K::Config),
            (w(self.pool), K::Pool),
            (r(operator_address(&signer)), K::Operator),
            (s(signer), K::User),
            (w(to), K::Dest),
        ];
        let allowed = self.permitted(&signer, 1);
        let expect = if !allowed {
            Expect::Reject("no claim permission")
        } else if to != TREASURY {
            Expect::Reject("not the treasury")
        } else {
            let mut n = pv.clone();
            let mut a = 0;
            if n.creation_fee_bits & CF_PROTOCOL == 0 {
                n.creation_fee_bits |= CF_PROTOCOL;
                a = split_creation_fee(self.c.creation_fee).1;
            }
            if n.legacy_bits & 1 != 0 && n.legacy_bits & 2 == 0 {
                n.legacy_bits |= 2;
                a += 10_000_000;
            }
            let mut e = Effect::default();
            e.lam.insert(self.pool, -(a as i128));
            e.lam.insert(TREASURY, a as i128);
            e.pool = Some((self.pool, n));
            e.events = vec![("EvtClaimPoolCreationFee", W::default().raw(self.pool.as_ref()).raw(TREASURY.as_ref()).u64(a).0)];
            Expect::Ok(Box::new(e))
        };
        self.make("claim_protocol_pool_creation_fee", &["C20"], metas, vec![], true, vec![], expect)
    }

    pub fn claim_creation_partner(&self, signer: Pubkey, to: Pubkey) -> Built {
        let pv = self.pv();
        let metas: Metas = vec![
            (r(self.config), K::Config),
            (w(self.pool), K::Pool),
            (s(signer), K::User),
            (w(to), K::Free),
        ];
        let a = split_creation_fee(self.c.creation_fee).0;
        let expect = if signer != self.partner {
            Expect::Reject("not the fee claimer")
        } else if a == 0 {
            Expect::Reject("no creation fee")
        } else if pv.creation_fee_bits & CF_PARTNER != 0 {
            Expect::Reject("creation fee already claimed")
        } else {
            let mut n = pv.clone();
            n.creation_fee_bits |= CF_PARTNER;
            let mut e = Effect::default();
            e.lam.insert(self.pool, -(a as i128));
            *e.lam.entry(to).or_insert(0) += a as i128;
            e.pool = Some((self.pool, n));
            e.events = vec![(
                "EvtPartnerClaimPoolCreationFee",
                W::default().raw(self.pool.as_ref()).raw(signer.as_ref()).u64(a).raw(to.as_ref()).0,
            )];
            Expect::Ok(Box::new(e))
        };
        self.make("claim_partner_pool_creation_fee", &["C20"], metas, vec![], true, vec![], expect)
    }

    // ---- creator and metadata ----------------------------------------------------------------------------------

    pub fn transfer_creator(&self, signer: Pubkey, to: Pubkey) -> Built {
        let pv = self.pv();
        let metas: Metas = vec![
            (w(self.pool), K::Pool),
            (r(self.config), K::Config),
            (s(signer), K::User),
            (r(to), K::Free),
        ];
        let v1 = self.c.migration_option == 0;
        let rest: Metas = if v1 { vec![(r(self.v1_metadata()), K::Free)] } else { vec![] };
        let expect = if signer != pv.creator {
            Expect::Reject("not the creator")
        } else if to == signer {
            Expect::Reject("same creator")
        } else if pv.progress == 1 || pv.progress == 2 {
            Expect::Reject("between completion and migration")
        } else if pv.progress == 3 && v1 && !self.v1_all_done() {
            Expect::Reject("liquidity shares outstanding")
        } else {
            let mut n = pv.clone();
            n.creator = to;
            let mut e = Effect::default();
            e.pool = Some((self.pool, n));
            e.events = vec![(
                "EvtUpdatePoolCreator",
                W::default().raw(self.pool.as_ref()).raw(signer.as_ref()).raw(to.as_ref()).0,
            )];
            Expect::Ok(Box::new(e))
        };
        self.make("transfer_pool_creator", &["C22"], metas, vec![], true, rest, expect)
    }

    pub fn pool_metadata_address(&self) -> Pubkey {
        pda(&[b"virtual_pool_metadata", self.pool.as_ref()], &DBC)
    }
    pub fn partner_metadata_address(&self, who: &Pubkey) -> Pubkey {
        pda(&[b"partner_metadata", who.as_ref()], &DBC)
    }
    pub fn metadata_body(owner: &Pubkey, name: &str, acc: &(String, String, String)) -> Vec<u8> {
        W::default()
            .raw(&acc_disc(name))
            .raw(owner.as_ref())
            .raw(&[0; 96])
            .str(&acc.0)
            .str(&acc.1)
            .str(&acc.2)
            .0
    }
    pub fn create_pool_metadata(&self, signer: Pubkey, x: &(String, String, String)) -> Built {
        let pv = self.pv();
        let k = self.pool_metadata_address();
        let metas: Metas = vec![
            (w(self.pool), K::Pool),
            (w(k), K::Bound),
            (s(signer), K::User),
            (ws(self.payer), K::Payer),
            (r(system_id()), K::Prog),
        ];
        let expect = if signer != pv.creator {
            Expect::Reject("not the creator")
        } else if self.made(&k) {
            Expect::Reject("pool metadata exists")
        } else {
            let mut e = Effect::default();
            e.touched.insert(k);
            e.free_lamports.insert(k);
            e.rent.insert(k);
            e.free_lamports.insert(self.payer);
            e.pool = Some((self.pool, pv));
            e.events = vec![("EvtVirtualPoolMetadata", W::default().raw(k.as_ref()).raw(self.pool.as_ref()).0)];
            Expect::Ok(Box::new(e))
        };
        let args = W::default().raw(&[7; 96]).str(&x.0).str(&x.1).str(&x.2).0;
        self.make("create_virtual_pool_metadata", &["C23", "C22"], metas, args, true, vec![], expect)
    }
    pub fn create_partner_metadata(&self, who: Pubkey, x: &(String, String, String)) -> Built {
        let k = self.partner_metadata_address(&who);
        let metas: Metas = vec![
            (w(k), K::Bound),
            (ws(self.payer), K::Payer),
            (s(who), K::User),
            (r(system_id()), K::Prog),
        ];
        let expect = if self.made(&k) {
            Expect::Reject("partner metadata exists")
        } else {
            let mut e = Effect::default();
            e.touched.insert(k);
            e.free_lamports.insert(k);
            e.rent.insert(k);
            e.free_lamports.insert(self.payer);
            e.events = vec![("EvtPartnerMetadata", W::default().raw(k.as_ref()).raw(who.as_ref()).0)];
            Expect::Ok(Box::new(e))
        };
        let args = W::default().raw(&[9; 96]).str(&x.0).str(&x.1).str(&x.2).0;
        self.make("create_partner_metadata", &["C23"], metas, args, true, vec![], expect)
    }

    pub fn built(&self, name: &'static str, tags: &[&'static str], metas: Metas, args: Vec<u8>, event: bool, rest: Metas, expect: Expect) -> Built {
        self.make(name, tags, metas, args, event, rest, expect)
    }

    /// a third party sends tokens to a vault
    /// a curve that an earlier program version let run past its end: the reserve holds more than the threshold
    pub fn overrun(&mut self, n: u64) -> bool {
        let v = self.pv();
        if (v.partner_surplus_done, v.creator_surplus_done, v.protocol_surplus_done, v.is_migrated) != (0, 0, 0, 0) {
            return false;
        }
        let r = v.quote_reserve;
        let t = self.traders[0];
        if r.checked_add(n).is_none() || self.w.bal(&self.qa(&t)) < n || !self.complete() {
            return false;
        }
        let before = self.donated.1;
        self.donate(false, n);
        if self.donated.1 != before + n {
            return false;
        }
        self.donated.1 = before;
        let k = self.pool;
        self.w.accts.get_mut(&k).unwrap().data_mut()[240..248].copy_from_slice(&(r + n).to_le_bytes());
        assert_eq!(self.pv().quote_reserve, r + n, "HARNESS: patched reserve");
        true
    }
    /// what a new account at this address still lacks
    pub fn rent_due(&self, k: &Pubkey, len: usize) -> u64 {
        rent_min(len).saturating_sub(self.w.lamports(k))
    }

    /// the program has made this account (lamports alone do not)
    pub fn made(&self, k: &Pubkey) -> bool {
        self.w.get(k).is_some_and(|a| a.owner() == DBC)
    }

    /// what a wrapped-SOL vault will hold from the start because of lamports sent to its address
    pub fn wrapped_gift(&self) -> u64 {
        if self.quote_mint == WSOL {
            self.w.lamports(&self.quote_vault).saturating_sub(rent_min(165))
        } else {
            0
        }
    }

    /// somebody sends lamports to any address
    pub fn gift(&mut self, k: Pubkey, n: u64) {
        match self.w.accts.get_mut(&k) {
            Some(a) => {
                let l = a.lamports().saturating_add(n);
                a.set_lamports(l);
            }
            None => self.w.put(k, n.max(rent_min(0)), &system_id(), &[]),
        }
    }

    pub fn donate(&mut self, base: bool, n: u64) {
        let v = if base { self.base_vault } else { self.quote_vault };
        let from = if base { self.ba(&self.traders[0]) } else { self.qa(&self.traders[0]) };
        let n = n.min(self.w.bal(&from));
        for (k, d) in [(from, -(n as i128)), (v, n as i128)] {
            let b = (self.w.bal(&k) as i128 + d) as u64;
            let native = self.quote_mint == WSOL && !base;
            let a = self.w.accts.get_mut(&k).unwrap();
            a.data_mut()[64..72].copy_from_slice(&b.to_le_bytes());
            if native {
                let l = (a.lamports() as i128 + d) as u64;
                a.set_lamports(l);
            }
        }
        if base {
            let pv = self.pv();
            if pv.is_migrated == 0 {
                self.donated.0 += n;
            } else if self.c.fixed_supply == 1 && pv.leftover_done == 0 {
                // goes to the leftover receiver
                self.migrated_base_left += n;
            } else {
                self.stuck_base += n;
            }
        } else {
            self.donated.1 += n;
        }
    }
}

pub const CF_PROTOCOL: u8 = 0b001;
pub const CF_PARTNER: u8 = 0b010;
