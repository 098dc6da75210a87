//! The registry: per property, the generator and driver that decide it.
pub mod auth;
pub mod compat;
pub mod conf;
pub mod grad;
pub mod interfere;
pub mod trade;
use crate::case::Case;

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// situations that make a case non-trivial
    pub keys: &'static [&'static str],
    pub rule: &'static str,
    pub run: fn(&mut Case),
}

pub fn all() -> Vec<Prop> {
    let mut v: Vec<Prop> = vec![];
    let mut add = |id, k: u64, run: fn(&mut Case), keys, rule| v.push(Prop { id, quick: k * 1000, thorough: k * 25_000, keys, rule, run });
    add("C01", 40, grad::c01, &["everything claimed after graduation", "completed pool", "buy"], "at least one swap was executed, so that the vaults hold something to account for");
    add("C02", 40, trade::c02, &["everybody sold everything back", "round trip"], "the traders bought and then sold everything back, in one go or over a generated sequence");
    add("C03", 60, trade::c03, &["buy", "sell"], "at least one fill was compared with the real-valued curve");
    add("C04", 40, trade::c04, &["limit at the exact result", "partial fill that stopped", "exact output"], "a limit exactly at (or one unit beside) the result was tried, a partial fill stopped at the end, or an exact output was asked for");
    add("C05", 60, trade::c05, &["fee on input", "fee on output"], "a fee above zero was charged and split");
    add("C06", 25, trade::c06, &["rate against the written-out schedule"], "a swap's charged rate was compared with the schedule written out independently");
    add("C07", 35, trade::c07, &["more than the reference amount", "within the reference amount", "after another swap on the pool", "limiter does not apply", "through another program", "through two programs"], "the limiter's schedule was judged on a buy, or a transaction of several instructions or programs was judged");
    add("C08", 45, trade::c08, &["variable fee above zero", "volatility above zero", "volatility of a pool without dynamic fee"], "a swap was priced with volatility from earlier swaps, or a pool without dynamic fee was checked after price moves");
    add("C09", 120, conf::c09, &["changed parameters accepted", "changed parameters refused"], "a parameter set with at least one changed field was submitted");
    add("C10", 25, trade::c10, &["swaps on a completed pool", "just complete", "just not complete"], "the history came to the completion threshold (one unit below, at, or past it)");
    add("C11", 35, trade::c11, &["bought out from the middle", "graduated"], "a pool was bought out to completion");
    add("C12", 35, auth::c12, &["claimed twice", "claim_trading_fee", "claim_creator_trading_fee", "claim_protocol_fee"], "a trading-fee claim was executed");
    add("C13", 30, auth::c13, &["account substituted", "accounts of another pool substituted", "signature left out"], "an instruction that would have succeeded was tried with a substituted account or without a signature");
    add("C14", 35, grad::c14, &["DAMM v1 graduation"], "a pool graduated to DAMM v1");
    add("C15", 40, grad::c15, &["DAMM v2 graduation"], "a pool graduated to DAMM v2");
    add("C16", 40, grad::c16, &["create_locker", "create_locker rejected"], "a vesting escrow was created, or asked for when it must not be");
    add("C17", 40, conf::c17, &["minting refused", "minted by the configured authority"], "a token was created and its authorities were tried out with the token program");
    add("C18", 22, trade::c18, &["quoted ExactIn buy", "quoted ExactIn sell", "quoted PartialFill buy", "quoted PartialFill sell", "quoted ExactOut buy", "quoted ExactOut sell", "quoted first swap"], "an SDK quote was compared with the on-chain swap");
    add("C19", 40, trade::c19, &["true first swap", "second swap", "another pool's creation", "first swap with referral", "first swap without the sysvar", "first swap through another program", "creation through another program", "first swap in a later transaction", "imitated creation", "true first swap among others", "creation and swap inside another program"], "a first swap, or one that only looks like it, was priced");
    add("C20", 50, auth::c20, &["claim_partner_pool_creation_fee", "claim_protocol_pool_creation_fee", "creation fee fully claimed"], "a pool creation fee was claimed");
    add("C21", 35, auth::c21, &["partner_withdraw_surplus", "creator_withdraw_surplus", "withdraw_migration_fee", "withdraw_leftover", "withdrawals in another order"], "a surplus, migration fee or leftover was paid out");
    add("C22", 35, auth::c22, &["transfer_pool_creator", "transfer_pool_creator rejected"], "a transfer of the creator role was tried");
    add("C23", 60, conf::c23, &["create_config"], "a configuration and a pool were created and read back");
    add("C24", 40, auth::c24, &["zap_protocol_fee", "zap_protocol_fee rejected"], "a zap of protocol fees was tried");
    add("C25", 40, compat::c25, &["configuration and pool as 0.1.2 stored them", "configuration and pool as 0.1.3 stored them", "configuration and pool as 0.1.4 stored them", "configuration and pool as 0.1.6 stored them", "event read by a client of a release"], "an instruction was sent in a released form and succeeded, or a configuration and pool were used as a release stored them");
    add("C26", 40, interfere::c26, &["lamports sent to an address before its account exists", "lamports sent to an account", "tokens sent to a vault"], "somebody sent lamports or tokens that nobody asked for, and the pool's history went on");
    add("C27", 40, interfere::c27, &["a called program takes lamports", "a called program takes the account", "a called program allocates data", "a called program takes lamports and the account", "a called program allocates data and takes the account", "a called program gives the account to the token program"], "a called program abused the authority's signature in an instruction that would have succeeded");
    v
}
