#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as data here so that the statements stay readable)."""
import json, os
P = "programs/dynamic-bonding-curve/src/"
S = "dynamic-bonding-curve-sdk/src/"
props = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    props.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))

p("C01", "Pool vaults always cover, exactly, everything the pool still owes",
  "After any sequence of instructions by any callers, a pool's quote vault holds the quote reserve backing the curve plus every unclaimed trading, protocol and creator quote fee (after completion: threshold, surplus and migration shares not yet paid out), and its base vault holds the unsold reserve, the migration and vesting allotments plus every unclaimed base fee; the balances are never less than those obligations and, without donations by third parties, equal to them (after graduation, apart from the rounding remainder of quote that the AMM did not take). Consequently, whatever order parties claim in, every legitimate claim succeeds in full and no obligation is left at the end.",
  ["histories", "configurations"], "every accepted configuration, every interleaving of swaps, claims, migration steps and withdrawals",
  "Unit tests call single functions on hand-made structs; no test runs the token vaults along a history at all (the TypeScript integration tests follow a few fixed scripts).",
  [P+"instructions/swap/ix_swap.rs", P+"state/virtual_pool.rs", P+"instructions/operator/ix_claim_protocol_fee.rs", P+"instructions/migration/withdraw_leftover.rs", P+"instructions/migration/ix_withdraw_migration_fee.rs"],
  [("apply_swap_result / claim bookkeeping", P+"state/virtual_pool.rs"), ("vault transfers", P+"utils/token.rs")],
  ["SPL token vault balances", "pool account fields", "claim outcomes"])
p("C02", "No sequence of trades extracts more quote than was paid in",
  "Before a pool completes, the quote reserve is never less than what the configured curve yields when every base token sold so far is sold back, so every holder can always exit; and no sequence of trades, by any number of wallets and in any swap mode, that leaves the traders together with at least as much base as they started with leaves them with more quote than they started with.",
  ["histories", "configurations"], "every accepted configuration and every finite buy/sell sequence in every mode and size",
  "Rounding leaks only show over chosen sizes and sequences; existing tests do one or two swaps on one curve.",
  [P+"curve.rs", P+"state/virtual_pool.rs", P+"math/u128x128_math.rs"],
  [("pool-favouring rounding", P+"curve.rs")], ["trader token balances", "pool reserves"])
p("C03", "Every fill is the exact integral of the configured curve, rounded to the pool",
  "For a buy or sell starting at the pool's price, the net (fee-excluded) input, the gross output and the new price are those of walking the configured liquidity segments (L, price range) between start price and migration price: the price is the exact one rounded to the stored precision, and each amount is within one unit per crossed segment of the real-valued curve between the old and the new price, always rounded in the pool's favour. A trade that stays within the curve succeeds and one that would need more liquidity than the curve has is rejected.",
  ["inputs", "configurations", "histories"], "every accepted curve of 1..16 segments, every reachable price, every u64 amount, both directions, all three swap modes",
  "Existing tests use two or three fixed curves and amounts; segment boundaries, one-unit amounts and extreme liquidity are not sampled.",
  [P+"state/virtual_pool.rs", P+"curve.rs", P+"math/u128x128_math.rs", P+"math/utils_math.rs"],
  [("segment walk", P+"state/virtual_pool.rs"), ("delta and next-price formulas", P+"curve.rs")], ["token balances", "pool price and reserves"])
p("C04", "Swap modes and slippage limits mean what they say",
  "ExactIn spends exactly the offered amount or fails; PartialFill spends at most the offered amount, stops only at the curve's end, and never charges for what it did not fill; ExactOut delivers exactly the requested amount. A swap whose result is worse than the caller's limit (minimum output, or maximum input for ExactOut), or which asks for zero, fails without moving anything, and one at least as good is not rejected for slippage.",
  ["inputs", "histories"], "every mode, direction, amount and limit, on every reachable pool state",
  "Tests never submit the instruction; limits are checked in the handler which the unit tests do not reach.",
  [P+"instructions/swap/ix_swap.rs", P+"instructions/swap/swap_exact_in.rs", P+"instructions/swap/swap_exact_out.rs", P+"instructions/swap/swap_partial_fill.rs"],
  [("slippage guards", P+"instructions/swap/swap_exact_in.rs")], ["instruction result", "token balances"])
p("C05", "Trading fees are charged exactly and split exactly once",
  "On every swap the fee is the pool's current fee rate times the fee-bearing amount rounded up, taken in the token the collection mode prescribes (quote only, or the output token), and never above 99 percent of it. 20 percent (rounded down) goes to the protocol, of which 20 percent (rounded down) goes to the referral account when one is given; the rest goes to partner and creator with the creator receiving the configured percentage rounded down; nothing is lost or double counted, and the cumulative metrics equal the sums charged.",
  ["inputs", "histories", "configurations"], "every fee rate, collection mode, direction, mode, referral presence and amount",
  "Existing fee tests check the inverse-fee helper for a few numbers, not the on-chain split and accounting.",
  [P+"state/config.rs", P+"state/fee.rs", P+"state/virtual_pool.rs", P+"math/fee_math.rs"],
  [("FeeOnAmountResult", P+"state/config.rs"), ("apply_swap_result", P+"state/virtual_pool.rs")], ["pool fee fields", "referral balance", "EvtSwap2"])
p("C06", "Scheduled base fee decays as configured with time since activation",
  "With a fee scheduler, the base rate is the cliff rate until the first period has elapsed since the pool's activation, then falls per whole elapsed period linearly by the reduction amount or exponentially by the reduction factor (in bps), and stays at its end value after the last period; elapsed time is counted in slots or seconds as configured, the rate never increases with time and never drops below the program minimum.",
  ["inputs", "configurations", "schedules"], "every valid scheduler and every elapsed slot/time including period boundaries",
  "No test drives the scheduler through swaps at chosen times; unit tests sample a handful of periods.",
  [P+"base_fee/fee_scheduler.rs", P+"math/fee_math.rs", P+"utils/activation_handler.rs"],
  [("FeeScheduler", P+"base_fee/fee_scheduler.rs")], ["fee charged by a swap at a given clock"])
p("C07", "Rate limiter charges by size and allows one such swap per transaction",
  "While the rate limiter is active (configured, within its duration since activation) a buy pays the base fee on the first reference amount and a fee raised by the configured increment on each further reference amount, capped at the maximum fee, with sells and later buys paying the base fee only; ExactOut and ExactIn agree on that schedule up to the rounding of the rate. A rate-limited buy fails if the same transaction already contains another swap on that pool (an earlier instruction of another program that names the pool counts as one) or if it is hidden behind deeper CPI, and is otherwise allowed.",
  ["inputs", "schedules", "configurations"], "every valid limiter, amount, mode, elapsed time and surrounding transaction",
  "The unit tests cover the fee formula on a few points and none of the transaction-introspection logic.",
  [P+"base_fee/fee_rate_limiter.rs", P+"instructions/swap/ix_swap.rs"],
  [("FeeRateLimiter", P+"base_fee/fee_rate_limiter.rs"), ("validate_single_swap_instruction", P+"instructions/swap/ix_swap.rs")], ["fee charged", "instruction result"])
p("C08", "Dynamic fee follows the volatility model over the trade history",
  "With dynamic fee enabled, every swap's rate is the base rate plus a variable part computed from the volatility accumulated by earlier price moves: the accumulator grows with price distance from the reference in bin steps, is capped at its maximum, keeps its reference within the filter period, is reduced by the reduction factor after the filter period and reset after the decay period; the total is capped at 99 percent. Pools without dynamic fee are unaffected by price history.",
  ["histories", "schedules", "configurations"], "every dynamic-fee parameter set and every timed swap history",
  "Existing tests exercise one accumulator update, not timed histories.",
  [P+"state/fee.rs", P+"state/virtual_pool.rs"],
  [("VolatilityTracker", P+"state/fee.rs")], ["fee charged by swaps", "volatility fields of the pool"])
p("C09", "Configs are accepted exactly when they satisfy the documented rules",
  "create_config accepts a parameter set exactly when all documented constraints hold (fee bounds and schedules, collect/migration/activation/token options, liquidity shares summing to 100, at least 10 percent of liquidity locked for a day, vesting, supply, migration fee, migrated-pool fee, curve shape, price and supply bounds, supported quote mint), and rejects it otherwise without creating anything.",
  ["configurations", "inputs"], "every parameter set, in particular those one step inside and outside each bound and in each option combination",
  "Tests validate a few examples; no test crosses the option combinations or runs the instruction.",
  [P+"instructions/partner/ix_create_config.rs", P+"params/fee_parameters.rs", P+"params/liquidity_distribution.rs", P+"base_fee/fee_scheduler.rs", P+"base_fee/fee_rate_limiter.rs"],
  [("ConfigParameters::validate", P+"instructions/partner/ix_create_config.rs")], ["instruction result"])
p("C10", "Price stays on the curve and completion is final",
  "A pool's price is always between the start price and the migration price, rises on buys and falls on sells; the pool completes at exactly the swap that brings the quote reserve to the migration threshold, recording the time and moving it to the vesting step if vesting is configured and otherwise straight to the migration step. After completion no swap in any mode is accepted, and price and reserves never change again.",
  ["histories", "configurations"], "every history of swaps around the threshold",
  "Tests stop at one completing swap on one curve.",
  [P+"instructions/swap/ix_swap.rs", P+"state/virtual_pool.rs"],
  [("is_curve_complete", P+"state/virtual_pool.rs"), ("completion block", P+"instructions/swap/ix_swap.rs")], ["pool fields", "instruction result", "EvtCurveComplete"])
p("C11", "Any pool of an accepted config can be bought out and graduate",
  "For every accepted configuration and any trading history (whose cumulative fees fit the 64-bit totals the pool keeps), a buyer with enough quote can always complete the curve (PartialFill of a sufficient amount always completes it and leaves no stuck price below the threshold), and the pool then holds enough base for the vesting allotment, the migration and all unclaimed fees, so the whole migration path succeeds.",
  ["configurations", "histories"], "every accepted configuration and every pre-completion history",
  "Liveness of graduation depends on rounding of derived amounts across all curves; tests check it for single examples.",
  [P+"instructions/partner/ix_create_config.rs", P+"state/config.rs", P+"migration_handler/mod.rs", P+"instructions/swap/ix_swap.rs"],
  [("swap_base_amount / migration_base_amount derivation", P+"instructions/partner/ix_create_config.rs"), ("swap buffer", P+"state/config.rs")], ["instruction result", "vault balances"])
p("C12", "Trading-fee claims pay the recorded amount once, to the entitled party",
  "A partner, creator or protocol trading-fee claim pays min(recorded unclaimed fee, requested maximum) per token, reduces that party's record by exactly the amount paid and touches no other party's; claiming repeatedly never pays more than was accrued in total, and protocol fees can only arrive at the treasury's associated token accounts.",
  ["histories", "inputs"], "every interleaving of swaps and claims with arbitrary caps",
  "No unit test runs claims; amounts depend on history.",
  [P+"instructions/partner/ix_claim_partner_trading_fee.rs", P+"instructions/creator/ix_claim_creator_trading_fee.rs", P+"instructions/operator/ix_claim_protocol_fee.rs", P+"state/virtual_pool.rs"],
  [("claim_* functions", P+"state/virtual_pool.rs")], ["token balances", "pool fee fields"])
p("C13", "Only the entitled signer can act, and only on matching accounts",
  "Operator accounts are created and closed by admins only, with only the permissions granted; protocol claims need an operator whitelisted for that very permission; partner claims need the config's fee claimer, creator actions the pool's current creator, leftover goes only to the configured receiver's associated account. Replacing any privileged signer, pool, config, vault, mint, authority, program or recipient by another one makes the instruction fail and changes nothing.",
  ["inputs", "histories"], "every instruction, every account position and every substitute of the same or another kind",
  "Unit tests never build account lists; the operator tests check a bit mask only.",
  [P+"lib.rs", P+"access_control.rs", P+"instructions/admin/auth.rs", P+"instructions/operator/ix_claim_protocol_fee.rs"],
  [("access_control and account constraints", P+"lib.rs")], ["instruction result", "all account states"])
p("C14", "DAMM v1 graduation deposits, burns and distributes LP exactly once",
  "A completed pool configured for DAMM v1 migrates once, only through a config matching its fee option and the program's authority, depositing the migration quote (threshold minus migration fee) and matching base at the migration price less the 0.2 percent protocol cut, keeping unclaimed fees in the vaults and burning the remaining base (or, with fixed supply, exactly the excess over the post-migration supply). The minted LP is assigned to partner and creator, locked and unlocked, in the configured percentages; each share is locked or paid out exactly once to its owner and the shares never exceed the LP minted.",
  ["histories", "configurations"], "every DAMM v1 config, every pre-migration history and every order and repetition of migrate/lock/claim steps",
  "The integration tests follow one happy path with binary programs; unit tests do not touch migration.",
  [P+"instructions/migration/meteora_damm/migrate_meteora_damm_initialize_pool.rs", P+"instructions/migration/meteora_damm/meteora_damm_lock_lp_token.rs", P+"instructions/migration/meteora_damm/meteora_damm_claim_lp_token.rs", P+"instructions/migration/meteora_damm/meteora_damm_metadata_state.rs", P+"migration_handler/compounding_liquidity.rs"],
  [("handle_migrate_meteora_damm", P+"instructions/migration/meteora_damm/migrate_meteora_damm_initialize_pool.rs")], ["CPI arguments", "token balances", "migration metadata"])
p("C15", "DAMM v2 graduation creates, locks and hands over the right positions",
  "A completed pool configured for DAMM v2 migrates once, only with a matching AMM config, initializing the AMM pool at the migration price with the migration amounts less the 0.2 percent protocol cut and with the configured pool fee, collect mode, scheduler and dynamic fee. Liquidity is split between partner and creator by the configured percentages, the permanent-locked and vested portions are locked as configured (never less, up to the rounding of the deposit into the second position) before each position NFT is handed to its owner, and leftover base is burned or kept exactly as for the configured supply mode.",
  ["histories", "configurations"], "every DAMM v2 config (fixed and customizable fee, concentrated and compounding) and pre-migration history",
  "Unit tests check the parameter conversions for single inputs; the migration instruction is not reachable by unit tests.",
  [P+"instructions/migration/dynamic_amm_v2/migrate_damm_v2_initialize_pool.rs", P+"migration_handler/concentrated_liquidity.rs", P+"migration_handler/compounding_liquidity.rs", P+"state/config.rs", P+"params/liquidity_distribution.rs"],
  [("handle_migrate_damm_v2", P+"instructions/migration/dynamic_amm_v2/migrate_damm_v2_initialize_pool.rs")], ["CPI arguments", "token balances"])
p("C16", "Locked vesting escrow receives the full configured allotment once",
  "If and only if vesting is configured, a completed pool must first create exactly one vesting escrow in the lock program, for the pool's creator, funded from the base vault with exactly cliff unlock plus per-period amount times periods, with the configured frequency and with cliff counted from the completion time, neither cancelable nor transferable by others; migration is impossible before it, and it can be neither repeated nor skipped.",
  ["configurations", "histories"], "every vesting parameter set and step order",
  "Only an integration test with one parameter set covers it.",
  [P+"instructions/migration/create_locker.rs", P+"params/liquidity_distribution.rs", P+"state/config.rs"],
  [("handle_create_locker", P+"instructions/migration/create_locker.rs")], ["lock program CPI arguments", "vault balances", "migration progress"])
p("C17", "Token supply and authorities are exactly as configured",
  "Creating a pool mints the configured initial supply once, all of it into the pool's base vault, with the configured decimals, no freeze authority, and with mint authority and metadata update authority given exactly to whom the token-authority option says (revoked otherwise). Nobody but a configured mint authority can ever change the supply except the burn at migration, after which a fixed-supply token's total supply is the configured post-migration supply (plus at most two smallest units, where the rounded-up deposits into DAMM v2's two positions took them instead of the burn).",
  ["configurations", "histories"], "every token-authority option, token type, supply mode and decimals",
  "Unit tests check the supply arithmetic on a few examples; mint state is never examined.",
  [P+"instructions/initialize_pool/ix_initialize_virtual_pool_with_spl_token.rs", P+"instructions/initialize_pool/ix_initialize_virtual_pool_with_token2022.rs", P+"instructions/initialize_pool/process_create_token_metadata.rs", P+"state/config.rs"],
  [("TokenAuthorityOption", P+"state/config.rs"), ("get_initial_base_supply", P+"state/config.rs")], ["mint account", "metadata account/CPI", "vault balance"])
p("C18", "SDK quotes equal what the chain executes",
  "For every pool state, clock, mode, direction and referral choice, the SDK quote for that swap returns exactly the amounts, trading fee, protocol and referral fees (their sum, where the quote cannot be told of a referral) and next price that the on-chain swap then produces, and it fails when the on-chain swap would fail for curve or completion reasons.",
  ["inputs", "histories", "configurations"], "every reachable pool state and swap request",
  "SDK tests quote three recorded pools and do not compare with execution.",
  [S+"lib.rs", S+"quote_exact_in.rs", S+"quote_exact_out.rs", S+"quote_partial_fill.rs", P+"instructions/swap/ix_swap.rs"],
  [("quote_* functions", S+"lib.rs")], ["quote result vs token balances"])
p("C19", "Only the true first swap bundled with pool creation gets the minimum fee",
  "When the config enables it, a pool's first swap pays just the minimum (end-of-schedule) base fee only if it is a top-level instruction in the same transaction after the instruction that initialized this very pool, has no referral account and supplies the instructions sysvar; in every other case, including any second swap, another pool's initialization, a CPI, or the option being off, the normal current fee is charged.",
  ["schedules", "histories", "configurations"], "every transaction shape around a pool's first swaps",
  "No unit test builds transactions.",
  [P+"instructions/swap/ix_swap.rs", P+"state/config.rs"],
  [("validate_contain_initialize_pool_ix_and_no_cpi", P+"instructions/swap/ix_swap.rs")], ["fee charged"])
p("C20", "Pool creation fee is charged once and split 10/90 once",
  "Creating a pool costs its payer exactly the configured creation fee in lamports, kept in the pool account; the treasury can take 10 percent (rounded down) of it once and the partner the rest once, in either order, and the pool account always stays rent exempt.",
  ["histories", "configurations"], "every fee amount and every claim order and repetition",
  "Not reached by unit tests.",
  [P+"instructions/operator/ix_claim_protocol_pool_creation_fee.rs", P+"instructions/partner/ix_claim_partner_pool_creation_fee.rs", P+"state/config.rs", P+"state/virtual_pool.rs"],
  [("split_pool_creation_fee", P+"state/config.rs")], ["lamport balances"])
p("C21", "Surplus, migration fee and leftover are paid exactly once, only when due",
  "Only after completion, the quote surplus above the threshold is shared 80 percent to partner and creator (split by the creator percentage, rounded down) and the rest to the protocol, and the configured migration fee percentage of the threshold is shared between creator and partner; only after the AMM pool was created can the fixed-supply leftover base (vault minus unclaimed fees) be sent to the leftover receiver. Each is paid at most once per party, to the right party, and in the same amount whatever else was claimed before.",
  ["histories", "configurations"], "every interleaving and repetition of these withdrawals with each other, with claims and with migration",
  "One unit test checks the status bit masks; none checks amounts, gating or histories.",
  [P+"instructions/partner/ix_withdraw_partner_surplus.rs", P+"instructions/creator/ix_withdraw_creator_surplus.rs", P+"instructions/migration/ix_withdraw_migration_fee.rs", P+"instructions/migration/withdraw_leftover.rs", P+"state/virtual_pool.rs"],
  [("withdraw flags", P+"state/virtual_pool.rs")], ["token balances", "instruction result"])
p("C22", "Creator role transfers only when safe, and moves every entitlement",
  "The current creator, and nobody else, can hand the role to a different account while the curve is still running, and after migration (for DAMM v1 only once every configured LP share is locked and claimed), never in between; afterwards exactly the new creator has every creator right and the old one has none.",
  ["histories", "configurations"], "every migration state, LP lock/claim progress and order of creator actions",
  "Not covered by unit tests.",
  [P+"instructions/creator/ix_transfer_pool_creator.rs"],
  [("handle_transfer_pool_creator", P+"instructions/creator/ix_transfer_pool_creator.rs")], ["instruction result", "pool creator"])
p("C23", "Accounts and events record what was requested and what happened",
  "A created config, pool, operator, partner metadata and pool metadata hold exactly the submitted parameters and the amounts derived from them (swap base amount, migration base amount, migration price), at the program-derived addresses; and every emitted event reports the true accounts and amounts of the instruction.",
  ["configurations", "inputs", "histories"], "every accepted parameter set and every successful instruction",
  "Tests check a few derived fields; no test reads back accounts or events.",
  [P+"state/config.rs", P+"event.rs", P+"instructions/partner/ix_create_config.rs", P+"instructions/partner/ix_create_partner_metadata.rs", P+"instructions/creator/ix_create_virtual_pool_metadata.rs"],
  [("PoolConfig::init", P+"state/config.rs"), ("emit_cpi!", P+"event.rs")], ["account data", "event CPIs"])
p("C24", "Protocol fees can be zapped only into the treasury",
  "Zapping protocol fees pays min(unclaimed protocol fee, cap) of the chosen side (plus the protocol's surplus share once, for quote) to the operator's own associated account only if that side's token is not a mint restricted from zapping and the same transaction provably zaps that amount out to the treasury; it shares one record with the ordinary protocol claim, so nothing is paid twice, and zero-amount zaps fail.",
  ["histories", "inputs"], "every pool state, side, cap, interleaving with claim_protocol_fee, and accompanying transaction",
  "Not covered by unit tests.",
  [P+"instructions/operator/ix_zap_protocol_fee.rs", P+"state/virtual_pool.rs"],
  [("handle_zap_protocol_fee", P+"instructions/operator/ix_zap_protocol_fee.rs")], ["token balances", "instruction result"])
p("C25", "Instructions, accounts and pools of released versions keep working",
  "Clients and accounts of the releases whose interface is published in the repository (0.1.2, 0.1.3, 0.1.4, 0.1.6) keep working. Every instruction such a client sends (create config, pool and metadata, swap, claim, withdraw, transfer, vesting escrow, DAMM v1 migration), in the form its interface description gives (discriminator, argument layout, account order, signer and writable flags), is accepted whenever the present interface would accept it and has the same effects; only the endpoints which later releases withdrew or announced as changed are exempt. Every account field and event those descriptions name is still found where they put it, with the same meaning. Configurations and pools as those releases stored them (newer fields zero, retired fields still set, up to twenty curve points, terms a new configuration may no longer have) go on trading, graduating and paying out by their stored terms, and no newer feature takes effect on them: no pool creation fee, no first-swap privilege, no liquidity vesting, no protocol cut of the migrated liquidity.",
  ["configurations", "histories"], "every released form, every configuration it can express, every history of a pool made with it or stored by it",
  "Unit tests run three recorded accounts through single functions; nothing compares the program with the published interfaces of earlier releases.",
  [P+"state/config.rs", P+"state/virtual_pool.rs", P+"lib.rs", P+"event.rs", P+"instructions/partner/ix_create_config.rs", "scripts/idl/release_0.1.2.json", "scripts/idl/release_0.1.6.json", "CHANGELOG.md"],
  [("PoolConfig", P+"state/config.rs"), ("VirtualPool", P+"state/virtual_pool.rs"), ("protocol_liquidity_migration_fee_bps", P+"state/virtual_pool.rs")], ["account bytes", "instruction results", "token balances", "events"])
p("C26", "Lamports and tokens nobody asked for change nothing",
  "Anyone can send lamports to any address (also to the address of a configuration, pool, vault, mint, metadata, escrow or operator account that does not exist yet) and tokens to a pool's vaults, at any time. No such transfer makes an instruction fail that would succeed without it, or succeed that would fail (except that base tokens in the vault may help a completing purchase to leave enough for migration). No such transfer changes a price, a reserve, a fee, a claim, a surplus, a migration fee, the completion of the curve, the creation fee anyone can claim, what is deposited in the AMM or what a pool's account records. Base tokens sent before migration are burned or paid out with the leftover like any base the AMM does not need, base tokens sent later go with the leftover that is still to be paid, and other tokens and lamports stay where they were sent.",
  ["inputs", "histories"], "every address of a pool, every amount, every moment of its history",
  "The unit tests have no accounts with lamports or token balances; only histories with transfers from outside show whether something reads a balance where it should read a record.",
  [P+"instructions/initialize_pool/ix_initialize_virtual_pool_with_token2022.rs", P+"instructions/initialize_pool/ix_initialize_virtual_pool_with_spl_token.rs", P+"instructions/swap/ix_swap.rs", P+"instructions/migration/withdraw_leftover.rs", P+"instructions/migration/flash_rent.rs", P+"instructions/migration/dynamic_amm_v2/migrate_damm_v2_initialize_pool.rs", P+"instructions/migration/meteora_damm/migrate_meteora_damm_initialize_pool.rs", P+"utils/token.rs", P+"utils/cpi_checker.rs"],
  [("quote_reserve and base_reserve", P+"state/virtual_pool.rs"), ("update_account_lamports_to_minimum_balance", P+"utils/token.rs"), ("transfer_lamports_from_pool_account", P+"utils/token.rs"), ("flash_rent", P+"instructions/migration/flash_rent.rs")], ["instruction results", "token balances", "lamports", "account data", "events"])
p("C27", "Called programs cannot take the authority's lamports or account",
  "The pool authority signs for all pools and lends rent to the programs called at graduation and vesting (DAMM v1 and v2, the lock program, token metadata). Whatever those programs, which others can upgrade, do with its signature, no successful instruction leaves the authority with fewer lamports than before, with another owner, or with data: rent it lends is paid back by the payer in the same instruction, and an instruction in which a called program takes its lamports, assigns it or allocates data in it fails. A called program that leaves the authority as it was is no reason to fail.",
  ["inputs", "injected faults"], "every instruction that calls a foreign program with the authority's signature, every misuse of the signature on the authority's own account",
  "No unit test calls any program; the guard matters only when a called program misbehaves.",
  [P+"utils/cpi_checker.rs", P+"instructions/migration/flash_rent.rs", P+"instructions/migration/create_locker.rs", P+"instructions/migration/meteora_damm/migrate_meteora_damm_initialize_pool.rs", P+"instructions/migration/meteora_damm/meteora_damm_lock_lp_token.rs", P+"instructions/migration/dynamic_amm_v2/migrate_damm_v2_initialize_pool.rs"],
  [("cpi_with_account_lamport_and_owner_checking", P+"utils/cpi_checker.rs"), ("flash_rent", P+"instructions/migration/flash_rent.rs")], ["instruction result", "lamports", "account owner and data"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for q in props:
            assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
            f.write(json.dumps(q) + "\n")
