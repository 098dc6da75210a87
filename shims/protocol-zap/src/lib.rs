//! Stand-in for github.com/MeteoraAg/zap-program `protocol-zap` (its source is not available offline).
//!
//! It has the interface that the dynamic-bonding-curve program uses and a simplified validation: some later
//! top-level instruction of the transaction must be a `zap_out` of the zap program which takes its input from the
//! receiver account, zaps the whole increase of that account (`percentage == 100`, `pre_user_token_balance` equal to
//! the receiver's balance before the claim, `max_swap_amount >= amount`), and whose accounts contain the treasury's
//! paired token account; the claim itself must be a top-level instruction. What the real crate accepts as a zap-out
//! is therefore *not* under test; that the program calls it with the right arguments and honours its answer is.

pub mod constants {
    /// wrapped SOL, USDC
    pub const MINTS_DISALLOWED_TO_ZAP_OUT: [[u8; 32]; 2] = [
        [
            6, 155, 136, 87, 254, 171, 129, 132, 251, 104, 127, 99, 70, 24, 192, 53, 218, 196, 57, 220, 26, 235, 59,
            85, 152, 160, 240, 0, 0, 0, 0, 1,
        ],
        [
            198, 250, 122, 243, 190, 219, 173, 58, 61, 101, 243, 106, 171, 201, 116, 49, 177, 187, 228, 194, 210, 246,
            224, 228, 124, 166, 2, 3, 69, 47, 93, 97,
        ],
    ];
    /// zapvX9M3uf5pvy4wRPAbQgdQsM1xmuiFnkfHKPvwMiz
    pub const ZAP_PROGRAM: [u8; 32] = [
        14, 192, 90, 132, 140, 132, 143, 240, 124, 106, 226, 216, 250, 190, 14, 71, 193, 104, 118, 253, 67, 2, 150,
        174, 130, 126, 39, 78, 247, 140, 149, 83,
    ];
    pub const ZAP_OUT_DISC: [u8; 8] = [155, 108, 185, 112, 104, 210, 161, 64];
}

pub mod error {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum ProtozolZapError {
        MathOverflow,
        InvalidZapOutParameters,
        TypeCastFailed,
        MissingZapOutInstruction,
        InvalidWithdrawProtocolFeeZapAccounts,
        MintRestrictedFromZap,
        CpiDisabled,
        InvalidZapAccounts,
    }
}

pub mod utils {
    use crate::{constants::*, error::ProtozolZapError};

    fn u16_at(d: &[u8], o: usize) -> Option<u16> {
        Some(u16::from_le_bytes(d.get(o..o + 2)?.try_into().ok()?))
    }

    fn u64_at(d: &[u8], o: usize) -> Option<u64> {
        Some(u64::from_le_bytes(d.get(o..o + 8)?.try_into().ok()?))
    }

    /// (program id, accounts, data) of instruction `i` in the instructions sysvar
    fn instruction(d: &[u8], i: usize) -> Option<([u8; 32], Vec<[u8; 32]>, &[u8])> {
        let mut o = u16_at(d, 2 + 2 * i)? as usize;
        let n = u16_at(d, o)? as usize;
        o += 2;
        let mut accounts = Vec::with_capacity(n);
        for _ in 0..n {
            accounts.push(d.get(o + 1..o + 33)?.try_into().ok()?);
            o += 33;
        }
        let program = d.get(o..o + 32)?.try_into().ok()?;
        let len = u16_at(d, o + 32)? as usize;
        Some((program, accounts, d.get(o + 34..o + 34 + len)?))
    }

    #[allow(clippy::too_many_arguments)]
    pub fn validate_zap_out_to_treasury(
        amount: u64,
        program_id: &[u8; 32],
        receiver_token: &[u8; 32],
        receiver_data: &[u8],
        sysvar_ix_data: &[u8],
        _treasury: &[u8; 32],
        treasury_paired_ata: &[u8; 32],
    ) -> Result<(), ProtozolZapError> {
        let d = sysvar_ix_data;
        let n = u16_at(d, 0).ok_or(ProtozolZapError::TypeCastFailed)? as usize;
        let current = u16_at(d, d.len().saturating_sub(2)).ok_or(ProtozolZapError::TypeCastFailed)? as usize;
        let (p, ..) = instruction(d, current).ok_or(ProtozolZapError::TypeCastFailed)?;
        if &p != program_id {
            return Err(ProtozolZapError::CpiDisabled);
        }
        let pre = u64_at(receiver_data, 64).ok_or(ProtozolZapError::InvalidZapAccounts)?;
        for i in current + 1..n {
            let (p, accounts, data) = instruction(d, i).ok_or(ProtozolZapError::TypeCastFailed)?;
            if p != ZAP_PROGRAM || !data.starts_with(&ZAP_OUT_DISC) {
                continue;
            }
            // percentage u8, offset_amount_in u16, pre_user_token_balance u64, max_swap_amount u64, payload
            let percentage = *data.get(8).ok_or(ProtozolZapError::InvalidZapOutParameters)?;
            let pre_balance = u64_at(data, 11).ok_or(ProtozolZapError::InvalidZapOutParameters)?;
            let max_swap = u64_at(data, 19).ok_or(ProtozolZapError::InvalidZapOutParameters)?;
            if percentage != 100 || pre_balance != pre || max_swap < amount {
                return Err(ProtozolZapError::InvalidZapOutParameters);
            }
            if accounts.first() != Some(receiver_token) || !accounts.contains(treasury_paired_ata) {
                return Err(ProtozolZapError::InvalidZapAccounts);
            }
            return Ok(());
        }
        Err(ProtozolZapError::MissingZapOutInstruction)
    }
}
