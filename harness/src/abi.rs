//! The program's public interface, written down independently: addresses, discriminators, account orders,
//! instruction data and account layouts.

use crate::world::Ix;
use anchor_lang::prelude::Pubkey;
use anchor_lang::solana_program::hash::hash;
use anchor_lang::solana_program::instruction::AccountMeta;
use anchor_lang::solana_program::pubkey;
use std::cell::RefCell;
use std::collections::HashMap;

pub const DBC: Pubkey = pubkey!("dbcij3LWUppWqq96dh6gJWwBifmcGfLSB5D4DuSMaqN");
pub const METAPLEX: Pubkey = pubkey!("metaqbxxUerdq28cj1RbAWkYQm3ybzjb6a8bt518x1s");
pub const DAMM_V1: Pubkey = pubkey!("Eo7WjKq67rjJQSZxS6z3YkapzY3eMj6Xy8X5EQVn5UaB");
pub const DAMM_V2: Pubkey = pubkey!("cpamdpZCGKUy5JxQXB4dcpGPiikHawvSWAd6mEn1sGG");
pub const LOCKER: Pubkey = pubkey!("LocpQgucEQHbqNABEYvBvwoxCPsSbG91A1QaQhQQqjn");
pub const ZAP: Pubkey = pubkey!("zapvX9M3uf5pvy4wRPAbQgdQsM1xmuiFnkfHKPvwMiz");
pub const VAULT_PROGRAM: Pubkey = pubkey!("24Uqj9JCLxUeoC3hGfh5W3s9FM9uCHDS2SG3LYwBpyTi");
pub const PUPPET: Pubkey = pubkey!("Puppet1111111111111111111111111111111111111");
pub const ATA_PROGRAM: Pubkey = pubkey!("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL");
pub const TREASURY: Pubkey = pubkey!("6aYhxiNGmG8AyU25rh2R7iFu4pBrqnQHpNUGhmsEXRcm");
pub const ADMINS: [Pubkey; 2] = [
    pubkey!("5unTfT2kssBuNvHPY6LbJfJpLqEcdMxGYLWHwShaeTLi"),
    pubkey!("DHLXnJdACTY83yKwnUkeoDjqi4QBbsYGa1v8tJL76ViX"),
];
pub const WSOL: Pubkey = pubkey!("So11111111111111111111111111111111111111112");
pub const USDC: Pubkey = pubkey!("EPjFWdd5AufqSSqeM2qN1xzybapC8G4wEGGkZwyTDt1v");
pub const ZAP_OUT_DISC: [u8; 8] = [155, 108, 185, 112, 104, 210, 161, 64];
pub const RENT_SYSVAR: Pubkey = pubkey!("SysvarRent111111111111111111111111111111111");

pub fn dbc_id() -> Pubkey {
    DBC
}
pub fn system_id() -> Pubkey {
    Pubkey::default()
}
pub fn bpf_loader() -> Pubkey {
    pubkey!("BPFLoaderUpgradeab1e11111111111111111111111")
}
pub fn instructions_sysvar() -> Pubkey {
    pubkey!("Sysvar1nstructions1111111111111111111111111")
}
pub fn sysvar_owner() -> Pubkey {
    pubkey!("Sysvar1111111111111111111111111111111111111")
}
pub fn programs() -> Vec<Pubkey> {
    vec![
        DBC, METAPLEX, DAMM_V1, DAMM_V2, LOCKER, ZAP, VAULT_PROGRAM, PUPPET, ATA_PROGRAM, system_id(),
        spl_token::ID, spl_token_2022::ID,
    ]
}

pub const EVENT_TAG: [u8; 8] = 0x1d9acb512ea545e4u64.to_le_bytes();

thread_local! {
    static DISC: RefCell<HashMap<(&'static str, String), [u8; 8]>> = RefCell::new(HashMap::new());
    static PDA: RefCell<HashMap<Vec<u8>, Pubkey>> = RefCell::new(HashMap::new());
}

fn disc(ns: &'static str, name: &str) -> [u8; 8] {
    DISC.with(|d| {
        *d.borrow_mut().entry((ns, name.to_string())).or_insert_with(|| {
            hash(format!("{ns}:{name}").as_bytes()).to_bytes()[..8].try_into().unwrap()
        })
    })
}
pub fn ix_disc(name: &str) -> [u8; 8] {
    disc("global", name)
}
pub fn event_disc(name: &str) -> [u8; 8] {
    disc("event", name)
}
pub fn acc_disc(name: &str) -> [u8; 8] {
    disc("account", name)
}

pub fn pda(seeds: &[&[u8]], program: &Pubkey) -> Pubkey {
    let mut key = program.to_bytes().to_vec();
    for s in seeds {
        key.push(s.len() as u8);
        key.extend_from_slice(s);
    }
    PDA.with(|p| {
        let mut p = p.borrow_mut();
        if p.len() > 4000 {
            p.clear();
        }
        *p.entry(key).or_insert_with(|| Pubkey::find_program_address(seeds, program).0)
    })
}

pub fn pool_authority() -> Pubkey {
    pda(&[b"pool_authority"], &DBC)
}
pub fn event_authority() -> Pubkey {
    pda(&[b"__event_authority"], &DBC)
}
pub fn pool_address(config: &Pubkey, base: &Pubkey, quote: &Pubkey) -> Pubkey {
    let (a, b) = if base > quote { (base, quote) } else { (quote, base) };
    pda(&[b"pool", config.as_ref(), a.as_ref(), b.as_ref()], &DBC)
}
pub fn vault_address(mint: &Pubkey, pool: &Pubkey) -> Pubkey {
    pda(&[b"token_vault", mint.as_ref(), pool.as_ref()], &DBC)
}
pub fn metadata_address(mint: &Pubkey) -> Pubkey {
    pda(&[b"metadata", METAPLEX.as_ref(), mint.as_ref()], &METAPLEX)
}
pub fn operator_address(who: &Pubkey) -> Pubkey {
    pda(&[b"operator", who.as_ref()], &DBC)
}
pub fn ata(owner: &Pubkey, mint: &Pubkey, program: &Pubkey) -> Pubkey {
    pda(&[owner.as_ref(), program.as_ref(), mint.as_ref()], &ATA_PROGRAM)
}

/// a deterministic address for a named role
pub fn named(label: &str, n: u64) -> Pubkey {
    Pubkey::new_from_array(hash(format!("{label}/{n}").as_bytes()).to_bytes())
}

// ---- account metas -------------------------------------------------------------------------------------------

pub fn r(k: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(k, false)
}
pub fn w(k: Pubkey) -> AccountMeta {
    AccountMeta::new(k, false)
}
pub fn s(k: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(k, true)
}
pub fn ws(k: Pubkey) -> AccountMeta {
    AccountMeta::new(k, true)
}

pub fn dbc_ix(name: &str, mut metas: Vec<AccountMeta>, args: Vec<u8>, event: bool, rest: Vec<AccountMeta>) -> Ix {
    if event {
        metas.push(r(event_authority()));
        metas.push(r(DBC));
    }
    metas.extend(rest);
    let mut data = ix_disc(name).to_vec();
    data.extend(args);
    Ix { program: DBC, metas, data }
}

// ---- borsh ---------------------------------------------------------------------------------------------------

#[derive(Default, Clone)]
pub struct W(pub Vec<u8>);
impl W {
    pub fn u8(mut self, v: u8) -> Self {
        self.0.push(v);
        self
    }
    pub fn bool(self, v: bool) -> Self {
        self.u8(v as u8)
    }
    pub fn u16(mut self, v: u16) -> Self {
        self.0.extend(v.to_le_bytes());
        self
    }
    pub fn u32(mut self, v: u32) -> Self {
        self.0.extend(v.to_le_bytes());
        self
    }
    pub fn u64(mut self, v: u64) -> Self {
        self.0.extend(v.to_le_bytes());
        self
    }
    pub fn u128(mut self, v: u128) -> Self {
        self.0.extend(v.to_le_bytes());
        self
    }
    pub fn str(self, v: &str) -> Self {
        let mut w = self.u32(v.len() as u32);
        w.0.extend(v.as_bytes());
        w
    }
    pub fn raw(mut self, v: &[u8]) -> Self {
        self.0.extend(v);
        self
    }
}

pub struct R<'a>(pub &'a [u8]);
impl<'a> R<'a> {
    pub fn take(&mut self, n: usize) -> &'a [u8] {
        if self.0.len() < n {
            // short data reads as zeros would hide differences: make it visible
            panic!("HARNESS: short read of {} from {}", n, self.0.len());
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    pub fn u8(&mut self) -> u8 {
        self.take(1)[0]
    }
    pub fn u16(&mut self) -> u16 {
        u16::from_le_bytes(self.take(2).try_into().unwrap())
    }
    pub fn u32(&mut self) -> u32 {
        u32::from_le_bytes(self.take(4).try_into().unwrap())
    }
    pub fn u64(&mut self) -> u64 {
        u64::from_le_bytes(self.take(8).try_into().unwrap())
    }
    pub fn u128(&mut self) -> u128 {
        u128::from_le_bytes(self.take(16).try_into().unwrap())
    }
    pub fn key(&mut self) -> Pubkey {
        Pubkey::try_from(self.take(32)).unwrap()
    }
    pub fn str(&mut self) -> String {
        let n = self.u32() as usize;
        String::from_utf8_lossy(self.take(n)).into_owned()
    }
}

// ---- config parameters ---------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Default)]
pub struct DynFee {
    pub bin_step: u16,
    pub bin_step_u128: u128,
    pub filter_period: u16,
    pub decay_period: u16,
    pub reduction_factor: u16,
    pub max_vol: u32,
    pub var_ctrl: u32,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Vesting {
    pub amount_per_period: u64,
    pub cliff_duration: u64,
    pub frequency: u64,
    pub number_of_period: u64,
    pub cliff_unlock: u64,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct LiqVesting {
    pub pct: u8,
    pub bps: u16,
    pub n: u16,
    pub cliff: u32,
    pub frequency: u32,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Params {
    pub cliff_fee: u64,
    pub first: u16,
    pub second: u64,
    pub third: u64,
    pub fee_mode: u8,
    pub dynamic: Option<DynFee>,
    pub collect_fee_mode: u8,
    pub migration_option: u8,
    pub activation_type: u8,
    pub token_type: u8,
    pub token_decimal: u8,
    pub partner_liq: u8,
    pub partner_locked: u8,
    pub creator_liq: u8,
    pub creator_locked: u8,
    pub threshold: u64,
    pub sqrt_start: u128,
    pub vesting: Vesting,
    pub migration_fee_option: u8,
    pub supply: Option<(u64, u64)>,
    pub creator_fee_pct: u8,
    pub token_authority: u8,
    pub migration_fee_pct: u8,
    pub creator_migration_fee_pct: u8,
    pub mp_collect: u8,
    pub mp_dynamic: u8,
    pub mp_fee_bps: u16,
    pub creation_fee: u64,
    pub partner_vest: LiqVesting,
    pub creator_vest: LiqVesting,
    pub mp_base_mode: u8,
    pub mc_n: u16,
    pub mc_step: u16,
    pub mc_expiration: u32,
    pub mc_reduction: u64,
    pub first_swap_min_fee: bool,
    pub compounding_bps: u16,
    pub padding: [u8; 2],
    pub curve: Vec<(u128, u128)>,
}

fn w_liqvest(x: W, v: &LiqVesting) -> W {
    x.u8(v.pct).u16(v.bps).u16(v.n).u32(v.cliff).u32(v.frequency)
}

impl Params {
    pub fn encode(&self) -> Vec<u8> {
        let mut x = W::default().u64(self.cliff_fee).u16(self.first).u64(self.second).u64(self.third).u8(self.fee_mode);
        x = match &self.dynamic {
            None => x.u8(0),
            Some(d) => x
                .u8(1)
                .u16(d.bin_step)
                .u128(d.bin_step_u128)
                .u16(d.filter_period)
                .u16(d.decay_period)
                .u16(d.reduction_factor)
                .u32(d.max_vol)
                .u32(d.var_ctrl),
        };
        x = x
            .u8(self.collect_fee_mode)
            .u8(self.migration_option)
            .u8(self.activation_type)
            .u8(self.token_type)
            .u8(self.token_decimal)
            .u8(self.partner_liq)
            .u8(self.partner_locked)
            .u8(self.creator_liq)
            .u8(self.creator_locked)
            .u64(self.threshold)
            .u128(self.sqrt_start)
            .u64(self.vesting.amount_per_period)
            .u64(self.vesting.cliff_duration)
            .u64(self.vesting.frequency)
            .u64(self.vesting.number_of_period)
            .u64(self.vesting.cliff_unlock)
            .u8(self.migration_fee_option);
        x = match self.supply {
            None => x.u8(0),
            Some((a, b)) => x.u8(1).u64(a).u64(b),
        };
        x = x
            .u8(self.creator_fee_pct)
            .u8(self.token_authority)
            .u8(self.migration_fee_pct)
            .u8(self.creator_migration_fee_pct)
            .u8(self.mp_collect)
            .u8(self.mp_dynamic)
            .u16(self.mp_fee_bps)
            .u64(self.creation_fee);
        x = w_liqvest(x, &self.partner_vest);
        x = w_liqvest(x, &self.creator_vest);
        x = x
            .u8(self.mp_base_mode)
            .u16(self.mc_n)
            .u16(self.mc_step)
            .u32(self.mc_expiration)
            .u64(self.mc_reduction)
            .bool(self.first_swap_min_fee)
            .u16(self.compounding_bps)
            .raw(&self.padding)
            .u32(self.curve.len() as u32);
        for (p, l) in &self.curve {
            x = x.u128(*p).u128(*l);
        }
        x.0
    }
}

// ---- account views -------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Default)]
pub struct ConfigView {
    pub quote_mint: Pubkey,
    pub fee_claimer: Pubkey,
    pub leftover_receiver: Pubkey,
    pub cliff_fee: u64,
    pub second: u64,
    pub third: u64,
    pub first: u16,
    pub fee_mode: u8,
    pub dynamic: Option<DynFee>,
    pub partner_vest: (u8, LiqVesting),
    pub creator_vest: (u8, LiqVesting),
    pub collect_fee_mode: u8,
    pub migration_option: u8,
    pub activation_type: u8,
    pub token_decimal: u8,
    pub version: u8,
    pub token_type: u8,
    pub quote_token_flag: u8,
    pub partner_locked: u8,
    pub partner_liq: u8,
    pub creator_locked: u8,
    pub creator_liq: u8,
    pub migration_fee_option: u8,
    pub fixed_supply: u8,
    pub creator_fee_pct: u8,
    pub token_authority: u8,
    pub migration_fee_pct: u8,
    pub creator_migration_fee_pct: u8,
    pub swap_base_amount: u64,
    pub threshold: u64,
    pub migration_base_threshold: u64,
    pub migration_sqrt_price: u128,
    pub vesting: Vesting,
    pub pre_supply: u64,
    pub post_supply: u64,
    pub mp_collect: u8,
    pub mp_dynamic: u8,
    pub mp_fee_bps: u16,
    pub mp_base_mode: u8,
    pub first_swap_min_fee: u8,
    pub compounding_bps: u16,
    pub creation_fee: u64,
    pub mp_base_fee_bytes: [u8; 16],
    pub sqrt_start: u128,
    pub curve: Vec<(u128, u128)>,
}

pub const CONFIG_LEN: usize = 8 + 1040;
pub const POOL_LEN: usize = 8 + 416;

/// where the configuration keeps the cliff fee, and the four liquidity shares
pub const CLIFF_FEE_AT: usize = 104;
pub const LOCKED_AT: usize = 239;
/// where the pool keeps the protocol's share of migrated liquidity
pub const CUT_BPS_AT: usize = 8 + 368;

impl ConfigView {
    pub fn read(d: &[u8]) -> Option<Self> {
        if d.len() != CONFIG_LEN || d[..8] != acc_disc("PoolConfig") {
            return None;
        }
        let mut x = R(&d[8..]);
        let mut c = ConfigView::default();
        c.quote_mint = x.key();
        c.fee_claimer = x.key();
        c.leftover_receiver = x.key();
        c.cliff_fee = x.u64();
        c.second = x.u64();
        c.third = x.u64();
        c.first = x.u16();
        c.fee_mode = x.u8();
        x.take(5);
        let init = x.u8();
        x.take(7);
        let max_vol = x.u32();
        let var_ctrl = x.u32();
        let bin_step = x.u16();
        let filter_period = x.u16();
        let decay_period = x.u16();
        let reduction_factor = x.u16();
        x.take(8);
        let bin_step_u128 = x.u128();
        if init != 0 {
            c.dynamic =
                Some(DynFee { bin_step, bin_step_u128, filter_period, decay_period, reduction_factor, max_vol, var_ctrl });
        }
        for i in 0..2 {
            let init = x.u8();
            let pct = x.u8();
            x.take(2);
            let bps = x.u16();
            let n = x.u16();
            let frequency = x.u32();
            let cliff = x.u32();
            let v = (init, LiqVesting { pct, bps, n, cliff, frequency });
            if i == 0 {
                c.partner_vest = v
            } else {
                c.creator_vest = v
            }
        }
        x.take(14);
        x.u16();
        c.collect_fee_mode = x.u8();
        c.migration_option = x.u8();
        c.activation_type = x.u8();
        c.token_decimal = x.u8();
        c.version = x.u8();
        c.token_type = x.u8();
        c.quote_token_flag = x.u8();
        c.partner_locked = x.u8();
        c.partner_liq = x.u8();
        c.creator_locked = x.u8();
        c.creator_liq = x.u8();
        c.migration_fee_option = x.u8();
        c.fixed_supply = x.u8();
        c.creator_fee_pct = x.u8();
        c.token_authority = x.u8();
        c.migration_fee_pct = x.u8();
        c.creator_migration_fee_pct = x.u8();
        x.take(7);
        c.swap_base_amount = x.u64();
        c.threshold = x.u64();
        c.migration_base_threshold = x.u64();
        c.migration_sqrt_price = x.u128();
        c.vesting.amount_per_period = x.u64();
        c.vesting.cliff_duration = x.u64();
        c.vesting.frequency = x.u64();
        c.vesting.number_of_period = x.u64();
        c.vesting.cliff_unlock = x.u64();
        x.take(8);
        c.pre_supply = x.u64();
        c.post_supply = x.u64();
        c.mp_collect = x.u8();
        c.mp_dynamic = x.u8();
        c.mp_fee_bps = x.u16();
        c.mp_base_mode = x.u8();
        c.first_swap_min_fee = x.u8();
        c.compounding_bps = x.u16();
        c.creation_fee = x.u64();
        c.mp_base_fee_bytes = x.take(16).try_into().unwrap();
        c.sqrt_start = x.u128();
        for _ in 0..20 {
            let p = x.u128();
            let l = x.u128();
            c.curve.push((p, l));
        }
        Some(c)
    }
    /// overwrites the curve and the values derived from it, as an old program version would have written them
    pub fn patch_curve(d: &mut [u8], c: &ConfigView) {
        let mut x = W::default().u64(c.swap_base_amount).u64(c.threshold).u64(c.migration_base_threshold).u128(c.migration_sqrt_price).0;
        let at = CONFIG_LEN - 792;
        d[at..at + x.len()].copy_from_slice(&x);
        x.clear();
        for (p, l) in &c.curve {
            x.extend(p.to_le_bytes());
            x.extend(l.to_le_bytes());
        }
        d[CONFIG_LEN - 640..].copy_from_slice(&x);
    }
    pub fn segments(&self) -> Vec<(u128, u128)> {
        self.curve.iter().copied().take_while(|(p, l)| *p != 0 && *l != 0).collect()
    }
    pub fn vesting_total(&self) -> u128 {
        self.vesting.cliff_unlock as u128 + self.vesting.amount_per_period as u128 * self.vesting.number_of_period as u128
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct PoolView {
    pub last_update: u64,
    pub sqrt_ref: u128,
    pub vol_acc: u128,
    pub vol_ref: u128,
    pub config: Pubkey,
    pub creator: Pubkey,
    pub base_mint: Pubkey,
    pub base_vault: Pubkey,
    pub quote_vault: Pubkey,
    pub base_reserve: u64,
    pub quote_reserve: u64,
    pub protocol_base_fee: u64,
    pub protocol_quote_fee: u64,
    pub partner_base_fee: u64,
    pub partner_quote_fee: u64,
    pub sqrt_price: u128,
    pub activation_point: u64,
    pub pool_type: u8,
    pub is_migrated: u8,
    pub partner_surplus_done: u8,
    pub protocol_surplus_done: u8,
    pub progress: u8,
    pub leftover_done: u8,
    pub creator_surplus_done: u8,
    pub migration_fee_status: u8,
    pub metrics: [u64; 4],
    pub finish_time: u64,
    pub creator_base_fee: u64,
    pub creator_quote_fee: u64,
    pub legacy_bits: u8,
    pub creation_fee_bits: u8,
    pub has_swap: u8,
    pub liq_migration_fee_bps: u16,
    pub mig_base_fee: u64,
    pub mig_quote_fee: u64,
}

impl PoolView {
    pub fn read(d: &[u8]) -> Option<Self> {
        if d.len() != POOL_LEN || d[..8] != acc_disc("VirtualPool") {
            return None;
        }
        let mut x = R(&d[8..]);
        let mut p = PoolView::default();
        p.last_update = x.u64();
        x.take(8);
        p.sqrt_ref = x.u128();
        p.vol_acc = x.u128();
        p.vol_ref = x.u128();
        p.config = x.key();
        p.creator = x.key();
        p.base_mint = x.key();
        p.base_vault = x.key();
        p.quote_vault = x.key();
        p.base_reserve = x.u64();
        p.quote_reserve = x.u64();
        p.protocol_base_fee = x.u64();
        p.protocol_quote_fee = x.u64();
        p.partner_base_fee = x.u64();
        p.partner_quote_fee = x.u64();
        p.sqrt_price = x.u128();
        p.activation_point = x.u64();
        p.pool_type = x.u8();
        p.is_migrated = x.u8();
        p.partner_surplus_done = x.u8();
        p.protocol_surplus_done = x.u8();
        p.progress = x.u8();
        p.leftover_done = x.u8();
        p.creator_surplus_done = x.u8();
        p.migration_fee_status = x.u8();
        for i in 0..4 {
            p.metrics[i] = x.u64();
        }
        p.finish_time = x.u64();
        p.creator_base_fee = x.u64();
        p.creator_quote_fee = x.u64();
        p.legacy_bits = x.u8();
        p.creation_fee_bits = x.u8();
        p.has_swap = x.u8();
        x.take(5);
        p.liq_migration_fee_bps = x.u16();
        x.take(6);
        p.mig_base_fee = x.u64();
        p.mig_quote_fee = x.u64();
        Some(p)
    }
    pub fn base_fees(&self) -> u128 {
        self.protocol_base_fee as u128 + self.partner_base_fee as u128 + self.creator_base_fee as u128
    }
    pub fn quote_fees(&self) -> u128 {
        self.protocol_quote_fee as u128 + self.partner_quote_fee as u128 + self.creator_quote_fee as u128
    }
}

/// metrics order: total protocol base, protocol quote, trading base, trading quote
pub const M_PROTO_BASE: usize = 0;
pub const M_PROTO_QUOTE: usize = 1;
pub const M_TRADE_BASE: usize = 2;
pub const M_TRADE_QUOTE: usize = 3;
