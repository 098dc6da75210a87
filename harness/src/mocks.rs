//! Models of the programs that the program under test calls: system program, token metadata, lock program,
//! DAMM v1, DAMM v2, the zap program; and a "puppet" program that forwards calls (for CPI shapes).
//! Each keeps to the part of the real program's contract that the caller relies on: who must sign, which tokens
//! move, what is created.

use crate::abi::*;
use crate::refmath;
use crate::world::rent_min;
use anchor_lang::prelude::Pubkey;
use anchor_lang::solana_program::account_info::AccountInfo;
use anchor_lang::solana_program::entrypoint::ProgramResult;
use anchor_lang::solana_program::instruction::{AccountMeta, Instruction};
use anchor_lang::solana_program::program_error::ProgramError;

#[derive(Clone, Copy, Default)]
pub struct Knobs {
    /// LP tokens that DAMM v1 mints (0: sqrt(a*b))
    pub v1_lp: u64,
    /// what a called program does besides its work
    pub mischief: Option<Mischief>,
}

/// a called program abuses the signature of the authority that calls it
#[derive(Clone, Copy, Debug)]
pub struct Mischief {
    /// in which of the calls that carry the signature (of one transaction)
    pub nth: u32,
    pub kind: u8,
    pub amount: u64,
}

thread_local! {
    /// calls met that carried the authority's signature and write privilege; whether the abuse took place
    static MET: std::cell::Cell<(u32, bool)> = const { std::cell::Cell::new((0, false)) };
}
pub fn mischief_reset() {
    MET.with(|m| m.set((0, false)));
}
pub fn mischief_done() -> bool {
    MET.with(|m| m.get().1)
}

fn mischief(m: &Mischief, program: &Pubkey, a: Infos) -> ProgramResult {
    let Some(auth) = a.iter().find(|x| *x.key == pool_authority() && x.is_signer && x.is_writable && *x.owner == system_id() && x.data_len() == 0) else { return Ok(()) };
    let (n, done) = MET.with(|c| c.get());
    MET.with(|c| c.set((n + 1, done || n == m.nth)));
    if n != m.nth {
        return Ok(());
    }
    let to = a.iter().find(|x| x.is_writable && *x.key != *auth.key && !x.executable);
    let take = m.amount.min(auth.lamports());
    match m.kind {
        // lamports away, all of them perhaps
        0 => move_lamports(auth, to.ok_or(ProgramError::Custom(1))?, take),
        // the account given to the program
        1 => {
            auth.assign(program);
            Ok(())
        }
        // data in the account
        2 => auth.realloc(1 + (m.amount % 200) as usize, true),
        3 => {
            move_lamports(auth, to.ok_or(ProgramError::Custom(1))?, take)?;
            auth.assign(program);
            Ok(())
        }
        4 => {
            auth.realloc(1 + (m.amount % 200) as usize, true)?;
            auth.assign(program);
            Ok(())
        }
        // given to a token program
        5 => {
            auth.assign(&spl_token::ID);
            Ok(())
        }
        // away and back again: no harm
        _ => {
            let to = to.ok_or(ProgramError::Custom(1))?;
            move_lamports(auth, to, take)?;
            move_lamports(to, auth, take)
        }
    }
}

type Infos<'a> = &'a [AccountInfo<'static>];

fn fail<T>(code: u32) -> Result<T, ProgramError> {
    Err(ProgramError::Custom(code))
}

fn need(c: bool, code: u32) -> ProgramResult {
    if c {
        Ok(())
    } else {
        fail(code)
    }
}

pub fn process(program: &Pubkey, a: Infos, d: &[u8], knobs: &Knobs) -> ProgramResult {
    let r = work(program, a, d, knobs);
    match &knobs.mischief {
        Some(m) if r.is_ok() && [METAPLEX, LOCKER, DAMM_V1, DAMM_V2].contains(program) => mischief(m, program, a),
        _ => r,
    }
}

fn work(program: &Pubkey, a: Infos, d: &[u8], knobs: &Knobs) -> ProgramResult {
    crate::foreign::check(program, a, d)?;
    if *program == system_id() {
        system(a, d)
    } else if *program == METAPLEX {
        metaplex(a, d)
    } else if *program == LOCKER {
        locker(a, d)
    } else if *program == DAMM_V1 {
        damm_v1(a, d, knobs)
    } else if *program == DAMM_V2 {
        damm_v2_program(a, d)
    } else if *program == PUPPET {
        puppet(a, d)
    } else if *program == ZAP {
        Ok(())
    } else {
        fail(0xbad0)
    }
}

// ---- helpers -------------------------------------------------------------------------------------------------

fn move_lamports(from: &AccountInfo, to: &AccountInfo, n: u64) -> ProgramResult {
    if from.key == to.key {
        return Ok(());
    }
    if from.lamports() < n {
        return fail(1);
    }
    **from.try_borrow_mut_lamports()? -= n;
    **to.try_borrow_mut_lamports()? += n;
    Ok(())
}

fn create(payer: &AccountInfo<'static>, acc: &AccountInfo<'static>, owner: &Pubkey, data: &[u8]) -> ProgramResult {
    need(acc.is_writable && payer.is_writable && payer.is_signer, 0xc0)?;
    need(*acc.owner == system_id() && acc.data_len() == 0, 0xc1)?;
    let min = rent_min(data.len());
    let have = acc.lamports();
    if have < min {
        move_lamports(payer, acc, min - have)?;
    }
    acc.realloc(data.len(), false)?;
    acc.try_borrow_mut_data()?.copy_from_slice(data);
    acc.assign(owner);
    Ok(())
}

pub fn token_account_bytes(mint: &Pubkey, owner: &Pubkey, amount: u64) -> Vec<u8> {
    let mut d = vec![0u8; 165];
    d[..32].copy_from_slice(mint.as_ref());
    d[32..64].copy_from_slice(owner.as_ref());
    d[64..72].copy_from_slice(&amount.to_le_bytes());
    d[108] = 1;
    d
}

pub fn mint_bytes(authority: Option<&Pubkey>, supply: u64, decimals: u8) -> Vec<u8> {
    let mut d = vec![0u8; 82];
    if let Some(a) = authority {
        d[0] = 1;
        d[4..36].copy_from_slice(a.as_ref());
    }
    d[36..44].copy_from_slice(&supply.to_le_bytes());
    d[44] = decimals;
    d[45] = 1;
    d
}

fn key_at(d: &[u8], o: usize) -> Pubkey {
    Pubkey::try_from(&d[o..o + 32]).unwrap()
}

fn u64_at(d: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}

/// moves tokens as the token program would for `authority`
fn move_tokens(from: &AccountInfo, to: &AccountInfo, amount: u64, authority: &AccountInfo) -> ProgramResult {
    need(from.is_writable && to.is_writable, 0xd0)?;
    need(authority.is_signer, 0xd1)?;
    need(from.data_len() >= 165 && to.data_len() >= 165, 0xd2)?;
    need(*from.owner == *to.owner && (*from.owner == spl_token::ID || *from.owner == spl_token_2022::ID), 0xd3)?;
    let mut f = from.try_borrow_mut_data()?;
    need(key_at(&f, 32) == *authority.key, 0xd4)?;
    let mut t = to.try_borrow_mut_data()?;
    need(f[..32] == t[..32], 0xd5)?;
    let (x, y) = (u64_at(&f, 64), u64_at(&t, 64));
    need(x >= amount, 0xd6)?;
    f[64..72].copy_from_slice(&(x - amount).to_le_bytes());
    t[64..72].copy_from_slice(&(y.checked_add(amount).ok_or(ProgramError::Custom(0xd7))?).to_le_bytes());
    Ok(())
}

// ---- system program ------------------------------------------------------------------------------------------

fn system(a: Infos, d: &[u8]) -> ProgramResult {
    let tag = u32::from_le_bytes(d.get(..4).ok_or(ProgramError::InvalidInstructionData)?.try_into().unwrap());
    match tag {
        0 => {
            let (lamports, space, owner) = (u64_at(d, 4), u64_at(d, 12) as usize, key_at(d, 20));
            need(a[0].is_signer && a[0].is_writable && a[1].is_signer && a[1].is_writable, 2)?;
            need(a[1].lamports() == 0 && a[1].data_len() == 0 && *a[1].owner == system_id(), 0)?;
            need(a[0].data_len() == 0 && *a[0].owner == system_id(), 3)?;
            a[1].realloc(space, true)?;
            a[1].assign(&owner);
            move_lamports(&a[0], &a[1], lamports)
        }
        1 => {
            need(a[0].is_signer && a[0].is_writable && *a[0].owner == system_id(), 2)?;
            a[0].assign(&key_at(d, 4));
            Ok(())
        }
        2 => {
            need(a[0].is_signer && a[0].is_writable && a[1].is_writable, 2)?;
            need(a[0].data_len() == 0 && *a[0].owner == system_id(), 3)?;
            move_lamports(&a[0], &a[1], u64_at(d, 4))
        }
        8 => {
            need(a[0].is_signer && a[0].is_writable, 2)?;
            need(a[0].data_len() == 0 && *a[0].owner == system_id(), 0)?;
            a[0].realloc(u64_at(d, 4) as usize, true)
        }
        _ => fail(0xbad1),
    }
}

// ---- token metadata ------------------------------------------------------------------------------------------

#[derive(Debug, Clone, PartialEq)]
pub struct Metadata {
    pub update_authority: Pubkey,
    pub mint: Pubkey,
    pub mutable: bool,
    pub seller_fee: u16,
    pub name: String,
    pub symbol: String,
    pub uri: String,
}

impl Metadata {
    pub fn read(d: &[u8]) -> Option<Self> {
        if d.len() < 80 {
            return None;
        }
        let mut x = R(d);
        Some(Metadata {
            update_authority: x.key(),
            mint: x.key(),
            mutable: x.u8() != 0,
            seller_fee: x.u16(),
            name: x.str(),
            symbol: x.str(),
            uri: x.str(),
        })
    }
}

fn metaplex(a: Infos, d: &[u8]) -> ProgramResult {
    match d.first() {
        Some(33) => {
            let (metadata, mint, mint_authority, payer, update_authority) = (&a[0], &a[1], &a[2], &a[3], &a[4]);
            need(*metadata.key == metadata_address(mint.key), 0xe0)?;
            need(mint_authority.is_signer && payer.is_signer, 0xe1)?;
            {
                let m = mint.try_borrow_data()?;
                need(*mint.owner == spl_token::ID && m.len() == 82 && m[0] == 1, 0xe2)?;
                need(key_at(&m, 4) == *mint_authority.key, 0xe3)?;
            }
            let mut x = R(&d[1..]);
            let (name, symbol, uri) = (x.str(), x.str(), x.str());
            need(name.len() <= 32 && symbol.len() <= 10 && uri.len() <= 200, 0xe4)?;
            let fee = x.u16();
            for _ in 0..3 {
                need(x.u8() == 0, 0xe5)?;
            }
            let mutable = x.u8();
            let body = W::default()
                .raw(update_authority.key.as_ref())
                .raw(mint.key.as_ref())
                .u8(mutable)
                .u16(fee)
                .str(&name)
                .str(&symbol)
                .str(&uri);
            let mut data = body.0;
            data.resize(679, 0);
            create(payer, metadata, &METAPLEX, &data)
        }
        Some(15) => {
            let (metadata, authority) = (&a[0], &a[1]);
            need(authority.is_signer && metadata.is_writable && *metadata.owner == METAPLEX, 0xe6)?;
            let mut m = metadata.try_borrow_mut_data()?;
            need(key_at(&m, 0) == *authority.key, 0xe7)?;
            let mut x = R(&d[1..]);
            need(x.u8() == 0, 0xe8)?;
            if x.u8() == 1 {
                let k = x.key();
                m[..32].copy_from_slice(k.as_ref());
            }
            x.u8();
            if x.u8() == 1 {
                let v = x.u8();
                need(m[64] == 1 || v == 0, 0xe9)?;
                m[64] = v;
            }
            Ok(())
        }
        _ => fail(0xbad2),
    }
}

// ---- lock program --------------------------------------------------------------------------------------------

#[derive(Debug, Clone, PartialEq)]
pub struct Escrow {
    pub base: Pubkey,
    pub mint: Pubkey,
    pub recipient: Pubkey,
    pub start: u64,
    pub cliff: u64,
    pub frequency: u64,
    pub cliff_unlock: u64,
    pub per_period: u64,
    pub periods: u64,
    pub update_recipient_mode: u8,
    pub cancel_mode: u8,
    pub funded: u64,
}

impl Escrow {
    pub fn read(d: &[u8]) -> Option<Self> {
        if d.len() != 200 {
            return None;
        }
        let mut x = R(d);
        Some(Escrow {
            base: x.key(),
            mint: x.key(),
            recipient: x.key(),
            start: x.u64(),
            cliff: x.u64(),
            frequency: x.u64(),
            cliff_unlock: x.u64(),
            per_period: x.u64(),
            periods: x.u64(),
            update_recipient_mode: x.u8(),
            cancel_mode: x.u8(),
            funded: x.u64(),
        })
    }
}

pub fn escrow_address(base: &Pubkey) -> Pubkey {
    pda(&[b"escrow", base.as_ref()], &LOCKER)
}

fn locker(a: Infos, d: &[u8]) -> ProgramResult {
    need(d[..8] == [181, 155, 104, 183, 182, 128, 35, 47], 0xbad3)?;
    let mut x = R(&d[8..]);
    let (start, cliff, frequency, cliff_unlock, per, n) = (x.u64(), x.u64(), x.u64(), x.u64(), x.u64(), x.u64());
    let (um, cm) = (x.u8(), x.u8());
    let (base, escrow, mint, escrow_token, sender, sender_token, recipient) =
        (&a[0], &a[1], &a[2], &a[3], &a[4], &a[5], &a[6]);
    need(base.is_signer && sender.is_signer, 0xf0)?;
    need(*escrow.key == escrow_address(base.key), 0xf1)?;
    // as in the lock program
    need(frequency != 0, 0xf2)?;
    need(um <= 3 && cm <= 3, 0xf3)?;
    need(cliff >= start, 0xf4)?;
    let total = per
        .checked_mul(n)
        .and_then(|v| v.checked_add(cliff_unlock))
        .ok_or(ProgramError::Custom(0xf5))?;
    need(total > 0, 0xf6)?;
    let mut w = W::default()
        .raw(base.key.as_ref())
        .raw(mint.key.as_ref())
        .raw(recipient.key.as_ref())
        .u64(start)
        .u64(cliff)
        .u64(frequency)
        .u64(cliff_unlock)
        .u64(per)
        .u64(n)
        .u8(um)
        .u8(cm)
        .u64(total);
    w.0.resize(200, 0);
    create(sender, escrow, &LOCKER, &w.0)?;
    {
        let t = escrow_token.try_borrow_data()?;
        need(t.len() >= 165 && key_at(&t, 32) == *escrow.key && key_at(&t, 0) == *mint.key, 0xf7)?;
    }
    move_tokens(sender_token, escrow_token, total, sender)
}

// ---- DAMM v1 -------------------------------------------------------------------------------------------------

fn damm_v1(a: Infos, d: &[u8], knobs: &Knobs) -> ProgramResult {
    match <[u8; 8]>::try_from(&d[..8]).unwrap() {
        [48, 149, 220, 130, 61, 11, 9, 178] => {
            let mut x = R(&d[8..]);
            let (amount_a, amount_b) = (x.u64(), x.u64());
            need(x.u8() == 0, 0xa0)?;
            need(amount_a > 0 && amount_b > 0, 0xa1)?;
            let (pool, lp_mint, mint_a, mint_b, vault_a, vault_b) = (&a[0], &a[2], &a[3], &a[4], &a[7], &a[8]);
            let (pay_a, pay_b, pay_lp, payer) = (&a[13], &a[14], &a[15], &a[18]);
            need(key_at(&pay_a.try_borrow_data()?, 0) == *mint_a.key, 0xa2)?;
            need(key_at(&pay_b.try_borrow_data()?, 0) == *mint_b.key, 0xa3)?;
            need(*mint_a.owner == spl_token::ID && *mint_b.owner == spl_token::ID && a[1].owner == &DAMM_V1, 0xa8)?;
            move_tokens(pay_a, vault_a, amount_a, payer)?;
            move_tokens(pay_b, vault_b, amount_b, payer)?;
            let lp = if knobs.v1_lp > 0 { knobs.v1_lp } else { refmath::sqrt_u128(amount_a as u128 * amount_b as u128) as u64 };
            let mut p = vec![0u8; 400];
            p[..32].copy_from_slice(lp_mint.key.as_ref());
            p[32..64].copy_from_slice(a[5].key.as_ref());
            p[64..96].copy_from_slice(a[6].key.as_ref());
            create(payer, pool, &DAMM_V1, &p)?;
            create(payer, lp_mint, &spl_token::ID, &mint_bytes(Some(vault_a.key), lp, 6))?;
            need(*pay_lp.key == ata(payer.key, lp_mint.key, &spl_token::ID), 0xa4)?;
            create(payer, pay_lp, &spl_token::ID, &token_account_bytes(lp_mint.key, payer.key, lp))
        }
        [21, 19, 208, 43, 237, 62, 255, 87] => {
            let amount = u64_at(d, 8);
            let (pool, lp_mint, escrow, owner, source, escrow_vault) = (&a[0], &a[1], &a[2], &a[3], &a[4], &a[5]);
            need(*pool.owner == DAMM_V1 && key_at(&pool.try_borrow_data()?, 0) == *lp_mint.key, 0xa5)?;
            need(key_at(&pool.try_borrow_data()?, 32) == *a[7].key && key_at(&pool.try_borrow_data()?, 64) == *a[8].key, 0xa9)?;
            {
                let e = escrow.try_borrow_data()?;
                need(*escrow.owner == DAMM_V1 && key_at(&e, 8) == *pool.key && key_at(&e, 72) == *escrow_vault.key, 0xa6)?;
            }
            move_tokens(source, escrow_vault, amount, owner)?;
            let mut e = escrow.try_borrow_mut_data()?;
            let t = u64_at(&e, 105).checked_add(amount).ok_or(ProgramError::Custom(0xa7))?;
            e[105..113].copy_from_slice(&t.to_le_bytes());
            Ok(())
        }
        _ => fail(0xbad4),
    }
}

pub fn v1_lock_escrow_bytes(pool: &Pubkey, owner: &Pubkey, vault: &Pubkey) -> Vec<u8> {
    let mut w = W::default()
        .raw(&[190, 106, 121, 6, 200, 182, 21, 75])
        .raw(pool.as_ref())
        .raw(owner.as_ref())
        .raw(vault.as_ref())
        .u8(255)
        .u64(0)
        .u128(0)
        .u64(0)
        .u64(0)
        .u64(0);
    w.0.resize(8 + 32 * 3 + 1 + 8 + 16 + 24, 0);
    w.0
}

#[derive(Clone, Debug)]
pub struct V1Config {
    pub fee_num: u64,
    pub fee_den: u64,
    pub activation_duration: u64,
    pub vault_config_key: Pubkey,
    pub pool_creator_authority: Pubkey,
    pub activation_type: u8,
    pub partner_fee_numerator: u64,
}

impl V1Config {
    pub fn good(bps: u64) -> Self {
        V1Config {
            fee_num: bps * 10,
            fee_den: 100_000,
            activation_duration: 0,
            vault_config_key: Pubkey::default(),
            pool_creator_authority: pool_authority(),
            activation_type: 1,
            partner_fee_numerator: 0,
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        W::default()
            .raw(&[155, 12, 170, 224, 30, 250, 204, 130])
            .u64(self.fee_num)
            .u64(self.fee_den)
            .u64(20)
            .u64(100)
            .u64(self.activation_duration)
            .raw(self.vault_config_key.as_ref())
            .raw(self.pool_creator_authority.as_ref())
            .u8(self.activation_type)
            .u64(self.partner_fee_numerator)
            .raw(&[0; 219])
            .0
    }
}

// ---- DAMM v2 -------------------------------------------------------------------------------------------------

pub const V2_POOL_LEN: usize = 8 + std::mem::size_of::<V2Pool>();
pub const V2_POOL_DISC: [u8; 8] = [241, 154, 109, 4, 17, 177, 109, 188];
pub const V2_POSITION_DISC: [u8; 8] = [170, 188, 143, 228, 122, 64, 247, 208];
pub const V2_COLLECT_COMPOUNDING: u8 = 2;

#[derive(Debug, Clone, PartialEq, Default)]
pub struct Position {
    pub pool: Pubkey,
    pub nft_mint: Pubkey,
    pub unlocked: u128,
    pub permanent: u128,
    pub vested: u128,
    pub vest: Option<V2Vesting>,
}

#[derive(Debug, Clone, PartialEq, Default)]
pub struct V2Vesting {
    pub cliff_point: u64,
    pub frequency: u64,
    pub cliff_unlock: u128,
    pub per_period: u128,
    pub n: u16,
}

impl Position {
    pub fn read(d: &[u8]) -> Option<Self> {
        if d.len() != 400 || d[..8] != V2_POSITION_DISC {
            return None;
        }
        let mut x = R(&d[8..]);
        let mut p = Position { pool: x.key(), nft_mint: x.key(), unlocked: x.u128(), permanent: x.u128(), vested: x.u128(), vest: None };
        if x.u8() == 1 {
            p.vest = Some(V2Vesting {
                cliff_point: x.u64(),
                frequency: x.u64(),
                cliff_unlock: x.u128(),
                per_period: x.u128(),
                n: x.u16(),
            });
        }
        Some(p)
    }
    fn bytes(&self) -> Vec<u8> {
        let mut w = W::default()
            .raw(&V2_POSITION_DISC)
            .raw(self.pool.as_ref())
            .raw(self.nft_mint.as_ref())
            .u128(self.unlocked)
            .u128(self.permanent)
            .u128(self.vested);
        if let Some(v) = &self.vest {
            w = w.u8(1).u64(v.cliff_point).u64(v.frequency).u128(v.cliff_unlock).u128(v.per_period).u16(v.n);
        }
        w.0.resize(400, 0);
        w.0
    }
    pub fn total(&self) -> u128 {
        self.unlocked + self.permanent + self.vested
    }
}

pub type V2Pool = damm_v2::accounts::Pool;
pub type V2Config = damm_v2::accounts::Config;

pub fn v2_pool(d: &[u8]) -> Option<V2Pool> {
    if d.len() != 8 + std::mem::size_of::<V2Pool>() || d[..8] != V2_POOL_DISC {
        return None;
    }
    Some(bytemuck::pod_read_unaligned(&d[8..]))
}

pub fn v2_config_bytes(c: &V2Config) -> Vec<u8> {
    let mut d = vec![155, 12, 170, 224, 30, 250, 204, 130];
    d.extend_from_slice(bytemuck::bytes_of(c));
    d
}

fn nft_account(payer: &AccountInfo<'static>, mint: &AccountInfo<'static>, acc: &AccountInfo<'static>, owner: &Pubkey) -> ProgramResult {
    need(mint.is_signer, 0xb0)?;
    create(payer, mint, &spl_token_2022::ID, &mint_bytes(None, 1, 0))?;
    create(payer, acc, &spl_token_2022::ID, &token_account_bytes(mint.key, owner, 1))
}

fn nft_owner_signs(position: &AccountInfo, nft: &AccountInfo, owner: &AccountInfo) -> Result<Position, ProgramError> {
    let p = Position::read(&position.try_borrow_data()?).ok_or(ProgramError::Custom(0xb1))?;
    let n = nft.try_borrow_data()?;
    need(*position.owner == DAMM_V2 && *nft.owner == spl_token_2022::ID, 0xb2)?;
    need(n.len() >= 165 && key_at(&n, 0) == p.nft_mint && key_at(&n, 32) == *owner.key && u64_at(&n, 64) == 1, 0xb3)?;
    need(owner.is_signer, 0xb4)?;
    Ok(p)
}

fn read_pool(pool: &AccountInfo) -> Result<V2Pool, ProgramError> {
    need(*pool.owner == DAMM_V2, 0xb5)?;
    v2_pool(&pool.try_borrow_data()?).ok_or(ProgramError::Custom(0xb6))
}

fn write_pool(pool: &AccountInfo, p: &V2Pool) -> ProgramResult {
    pool.try_borrow_mut_data()?[8..].copy_from_slice(bytemuck::bytes_of(p));
    Ok(())
}

fn damm_v2_program(a: Infos, d: &[u8]) -> ProgramResult {
    let disc: [u8; 8] = d[..8].try_into().unwrap();
    let mut x = R(&d[8..]);
    match disc {
        // initialize_pool / initialize_pool_with_dynamic_config
        [95, 180, 10, 172, 84, 174, 232, 40] | [149, 82, 72, 197, 253, 252, 68, 15] => {
            let dynamic = disc[0] == 149;
            let skip = if dynamic { 1 } else { 0 };
            let (creator, nft_mint, nft, payer) = (&a[0], &a[1], &a[2], &a[3]);
            let i = 4 + skip;
            let (config, _authority, pool, position) = (&a[i], &a[i + 1], &a[i + 2], &a[i + 3]);
            let (mint_a, mint_b, vault_a, vault_b, pay_a, pay_b) =
                (&a[i + 4], &a[i + 5], &a[i + 6], &a[i + 7], &a[i + 8], &a[i + 9]);
            need(*config.owner == DAMM_V2, 0xb7)?;
            need(*a[i + 10].key == *mint_a.owner && *a[i + 11].key == *mint_b.owner, 0xca)?;
            let c: V2Config = bytemuck::pod_read_unaligned(&config.try_borrow_data()?[8..]);
            if dynamic {
                need(a[4].is_signer && c.pool_creator_authority == *a[4].key, 0xb8)?;
            } else {
                need(c.pool_creator_authority == Pubkey::default() || c.pool_creator_authority == *payer.key, 0xb8)?;
            }
            let mut p: V2Pool = bytemuck::Zeroable::zeroed();
            let (liquidity, sqrt_price);
            if dynamic {
                // pool fees
                let base: [u8; 27] = x.take(27).try_into().unwrap();
                p.pool_fees.base_fee.base_fee_info.data[..27].copy_from_slice(&base);
                p.pool_fees.compounding_fee_bps = x.u16();
                x.u8();
                if x.u8() == 1 {
                    let s = &mut p.pool_fees.dynamic_fee;
                    s.initialized = 1;
                    s.bin_step = x.u16();
                    s.bin_step_u128 = x.u128();
                    s.filter_period = x.u16();
                    s.decay_period = x.u16();
                    s.reduction_factor = x.u16();
                    s.max_volatility_accumulator = x.u32();
                    s.variable_fee_control = x.u32();
                }
                p.sqrt_min_price = x.u128();
                p.sqrt_max_price = x.u128();
                need(x.u8() == 0, 0xb9)?;
                liquidity = x.u128();
                sqrt_price = x.u128();
                p.activation_type = x.u8();
                p.collect_fee_mode = x.u8();
                need(x.u8() == 0, 0xba)?;
            } else {
                liquidity = x.u128();
                sqrt_price = x.u128();
                need(x.u8() == 0, 0xba)?;
                p.pool_fees.base_fee.base_fee_info.data.copy_from_slice(&c.pool_fees.base_fee.data);
                p.sqrt_min_price = c.sqrt_min_price;
                p.sqrt_max_price = c.sqrt_max_price;
                p.activation_type = c.activation_type;
                p.collect_fee_mode = c.collect_fee_mode;
                p.pool_fees.compounding_fee_bps = c.pool_fees.compounding_fee_bps;
            }
            need(liquidity > 0, 0xbb)?;
            need(sqrt_price >= p.sqrt_min_price && sqrt_price <= p.sqrt_max_price, 0xbc)?;
            let (amount_a, amount_b, dead) = refmath::v2_initial_amounts(p.collect_fee_mode, liquidity, sqrt_price, p.sqrt_min_price, p.sqrt_max_price)
                .ok_or(ProgramError::Custom(0xbd))?;
            need(amount_a > 0 || amount_b > 0, 0xbe)?;
            need(key_at(&pay_a.try_borrow_data()?, 0) == *mint_a.key, 0xa2)?;
            need(key_at(&pay_b.try_borrow_data()?, 0) == *mint_b.key, 0xa3)?;
            move_tokens(pay_a, vault_a, amount_a, payer)?;
            move_tokens(pay_b, vault_b, amount_b, payer)?;
            nft_account(payer, nft_mint, nft, creator.key)?;
            p.token_a_mint = *mint_a.key;
            p.token_b_mint = *mint_b.key;
            p.token_a_vault = *vault_a.key;
            p.token_b_vault = *vault_b.key;
            p.liquidity = liquidity;
            p.sqrt_price = sqrt_price;
            p.token_a_amount = amount_a;
            p.token_b_amount = amount_b;
            p.creator = *creator.key;
            let mut data = V2_POOL_DISC.to_vec();
            data.extend_from_slice(bytemuck::bytes_of(&p));
            create(payer, pool, &DAMM_V2, &data)?;
            let pos = Position { pool: *pool.key, nft_mint: *nft_mint.key, unlocked: liquidity - dead, ..Default::default() };
            create(payer, position, &DAMM_V2, &pos.bytes())
        }
        // create_position: owner, nft_mint, nft, pool, position, authority, payer
        [48, 215, 197, 153, 96, 203, 180, 133] => {
            let (owner, nft_mint, nft, pool, position, payer) = (&a[0], &a[1], &a[2], &a[3], &a[4], &a[6]);
            read_pool(pool)?;
            nft_account(payer, nft_mint, nft, owner.key)?;
            let pos = Position { pool: *pool.key, nft_mint: *nft_mint.key, ..Default::default() };
            create(payer, position, &DAMM_V2, &pos.bytes())
        }
        // add_liquidity: pool, position, token_a, token_b, vault_a, vault_b, mint_a, mint_b, nft, owner
        [181, 157, 89, 67, 143, 182, 52, 72] => {
            let (delta, max_a, max_b) = (x.u128(), x.u64(), x.u64());
            let (pool, position) = (&a[0], &a[1]);
            let mut p = read_pool(pool)?;
            let mut pos = nft_owner_signs(position, &a[8], &a[9])?;
            need(pos.pool == *pool.key && delta > 0, 0xbf)?;
            need(*a[4].key == p.token_a_vault && *a[5].key == p.token_b_vault, 0xcb)?;
            need(*a[6].key == p.token_a_mint && *a[7].key == p.token_b_mint, 0xcc)?;
            need(*a[10].key == *a[6].owner && *a[11].key == *a[7].owner, 0xcd)?;
            let (da, db) = refmath::v2_add_amounts(p.collect_fee_mode, delta, p.sqrt_price, p.sqrt_min_price, p.sqrt_max_price, p.liquidity, p.token_a_amount, p.token_b_amount)
                .ok_or(ProgramError::Custom(0xbd))?;
            need(da <= max_a && db <= max_b, 0xc5)?;
            move_tokens(&a[2], &a[4], da, &a[9])?;
            move_tokens(&a[3], &a[5], db, &a[9])?;
            p.liquidity = p.liquidity.checked_add(delta).ok_or(ProgramError::Custom(0xc6))?;
            p.token_a_amount += da;
            p.token_b_amount += db;
            write_pool(pool, &p)?;
            pos.unlocked += delta;
            position.try_borrow_mut_data()?.copy_from_slice(&pos.bytes());
            Ok(())
        }
        // permanent_lock_position: pool, position, nft, owner
        [165, 176, 125, 6, 231, 171, 186, 213] => {
            let n = x.u128();
            let mut pos = nft_owner_signs(&a[1], &a[2], &a[3])?;
            need(pos.pool == *a[0].key && n > 0 && pos.unlocked >= n, 0xc7)?;
            pos.unlocked -= n;
            pos.permanent += n;
            let mut p = read_pool(&a[0])?;
            p.permanent_lock_liquidity += n;
            write_pool(&a[0], &p)?;
            a[1].try_borrow_mut_data()?.copy_from_slice(&pos.bytes());
            Ok(())
        }
        // lock_inner_position: pool, position, nft, owner
        [72, 19, 49, 204, 18, 122, 23, 90] => {
            let cliff = if x.u8() == 1 { Some(x.u64()) } else { None };
            let frequency = x.u64();
            let cliff_unlock = x.u128();
            let per_period = x.u128();
            let n = x.u16();
            let mut pos = nft_owner_signs(&a[1], &a[2], &a[3])?;
            let now = {
                use anchor_lang::solana_program::sysvar::Sysvar;
                anchor_lang::solana_program::clock::Clock::get()?.unix_timestamp as u64
            };
            let cliff_point = cliff.unwrap_or(now);
            // as in DAMM v2
            need(cliff_point >= now, 0xc8)?;
            need(cliff_point != now || n > 0, 0xc9)?;
            need(n == 0 || (frequency > 0 && per_period > 0), 0xca)?;
            let total = per_period
                .checked_mul(n as u128)
                .and_then(|v| v.checked_add(cliff_unlock))
                .ok_or(ProgramError::Custom(0xcb))?;
            need(total > 0 && pos.unlocked >= total && pos.vest.is_none() && pos.pool == *a[0].key, 0xcc)?;
            pos.unlocked -= total;
            pos.vested += total;
            pos.vest = Some(V2Vesting { cliff_point, frequency, cliff_unlock, per_period, n });
            a[1].try_borrow_mut_data()?.copy_from_slice(&pos.bytes());
            Ok(())
        }
        _ => fail(0xbad5),
    }
}

// ---- puppet --------------------------------------------------------------------------------------------------

/// forwards calls; data: n, then per call: program index, n accounts, (index, flags)*, u16 length, data
pub struct PuppetCall {
    pub program: u8,
    pub accounts: Vec<(u8, bool, bool)>,
    pub data: Vec<u8>,
}

pub fn puppet_data(calls: &[PuppetCall]) -> Vec<u8> {
    let mut w = W::default().u8(calls.len() as u8);
    for c in calls {
        w = w.u8(c.program).u8(c.accounts.len() as u8);
        for (i, s, wr) in &c.accounts {
            w = w.u8(*i).u8(*s as u8 | (*wr as u8) << 1);
        }
        w = w.u16(c.data.len() as u16).raw(&c.data);
    }
    w.0
}

fn puppet(a: Infos, d: &[u8]) -> ProgramResult {
    let mut x = R(d);
    let n = x.u8();
    for _ in 0..n {
        let program = *a[x.u8() as usize].key;
        let k = x.u8();
        let mut accounts = vec![];
        for _ in 0..k {
            let i = x.u8() as usize;
            let f = x.u8();
            accounts.push(AccountMeta { pubkey: *a[i].key, is_signer: f & 1 != 0, is_writable: f & 2 != 0 });
        }
        let len = x.u16() as usize;
        let data = x.take(len).to_vec();
        let ix = Instruction { program_id: program, accounts, data };
        anchor_lang::solana_program::program::invoke(&ix, a)?;
    }
    Ok(())
}
