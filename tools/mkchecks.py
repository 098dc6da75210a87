#!/usr/bin/env python3
"""Writes tools/checks.json: how each property is decided and what that assures."""
import json, os
T = {
"C01": ("stateful model-based testing: random histories, vault balances against a ledger of obligations after every transaction, then everybody claims in random order",
        "Balances are compared exactly after every transaction of every generated history; ends with all parties claiming in a generated order."),
"C02": ("stateful property-based testing: random multi-wallet trade sequences, sell-everything-back and round-trip probes",
        "Uses only token balances and an independent sell-back computation; every generated pool state is probed."),
"C03": ("differential property-based testing: executed fills against an independent real-valued integral of the curve (256/512-bit)",
        "Each fill of every history is bounded from both sides by interval arithmetic, and compared exactly with the reference model."),
"C04": ("metamorphic property-based testing: each swap repeated with limits at, above and below its own result, on copies of the same state",
        "The limit probes need no model of fees or curve: they use the swap's own result on a copy of the state."),
"C05": ("stateful model-based testing: fee, its token, and its split recomputed from the definition on every swap",
        "Every unit of every swap is assigned to one recipient and compared exactly."),
"C06": ("differential property-based testing over time: the same trade at generated clocks against the written-out schedule",
        "Clocks concentrate on period boundaries; slots and seconds, linear and exponential."),
"C07": ("property-based testing: limiter schedule by size against the published tier sum, and generated transactions (siblings, programs, CPI depth)",
        "Schedule judged by an independent tier sum; transaction shapes judged by who else swaps on the pool."),
"C08": ("stateful model-based testing: timed swap histories against a reference volatility model",
        "Whole timed histories replayed against an independent volatility model; charged rate and stored state compared."),
"C09": ("property-based testing: generated parameter sets with fields moved to and across each bound, against an independent validator",
        "Acceptance compared both ways with a validator written from the documented rules; each rejection reason is generated in every run."),
"C10": ("stateful model-based testing with threshold-directed swaps; completed pools probed with every kind of swap",
        "Price bounds and direction judged on each swap; completion judged on swaps that just reach or just miss the threshold."),
"C11": ("stateful property-based testing: on every generated mid-history state a rich buyer buys out the pool and the migration is carried through",
        "Success itself is the oracle, together with base coverage."),
"C12": ("stateful model-based testing: histories rich in claims with caps, repetitions and wrong parties",
        "Claims by all three parties in generated orders, each compared with an independent ledger."),
"C13": ("negative property-based testing: for each instruction that would succeed, every single account substituted by one of another kind, pool, owner or signer",
        "Each substituted instruction must fail and leave all accounts unchanged; the unchanged instruction must succeed."),
"C14": ("stateful model-based testing of whole DAMM v1 graduations against recording stand-ins of the external programs",
        "External AMM, vault and lock programs are stand-ins which check and record calls; their own code is out of scope."),
"C15": ("stateful model-based testing of whole DAMM v2 graduations against a stand-in of the AMM that computes with its published formulas",
        "The AMM is a stand-in which checks and records calls; its own code is out of scope."),
"C16": ("stateful property-based testing: step order and escrow parameters against the configuration and the completion time",
        "The lock program is a stand-in which checks and records calls."),
"C17": ("stateful property-based testing: real token programs' mint state after creation and along histories, with attempts to mint",
        "Uses the real SPL Token and Token-2022 processors; the metadata program is a stand-in that records."),
"C18": ("differential property-based testing: SDK quote against the executed instruction on the same state",
        "Both sides are the repository's code: the oracle is their agreement."),
"C19": ("property-based testing over generated transactions: true and imitated first swaps, charged rate against the definition",
        "Transactions are generated with look-alike instructions at every place."),
"C20": ("stateful model-based testing of creation-fee claims in lamports",
        "Lamports compared exactly along generated orders and repetitions."),
"C21": ("stateful model-based testing: all withdrawals in generated orders and repetitions, and the same withdrawals in another order on a copy",
        "Amounts compared exactly with the definition, and between orders."),
"C22": ("stateful property-based testing: transfers tried at every stage, rights of old and new creator exercised",
        "Gating judged at every stage of both migration kinds."),
"C23": ("round-trip property-based testing: accounts read back and events decoded against what was submitted and what moved",
        "Accounts are decoded independently, at independently computed offsets and addresses; events are compared with measured movements."),
"C24": ("stateful property-based testing with generated accompanying transactions (look-alike zap-outs)",
        "The zap program's decoder is a stand-in with the published layout; transactions are generated around it."),
"C25": ("stateful property-based testing driven by the published interface descriptions of released versions: instructions rewritten into their form, accounts and events decoded by them, stored accounts put back into their form",
        "The descriptions are copies of those in the repository; releases without a published description are out of scope."),
"C26": ("stateful model-based testing with injected interference: lamports sent to every address of a pool before and after its account exists, tokens sent to its vaults, at every stage of generated histories",
        "The model knows nothing of the transfers except where the tokens end, so any influence shows."),
"C27": ("fault injection in generated histories: in a generated call, a called program abuses the authority's signature (takes lamports, assigns, allocates, combinations, or harmlessly takes and returns)",
        "The faulty programs are the stand-ins with a generated fault; only calls that give the authority write access can be abused."),
}
TAIL = " Random exploration, not proof; trusts the simulated runtime (accounts, CPI, sysvars, real SPL token processors) and the model where one is named."
HERE = os.path.dirname(os.path.abspath(__file__))
json.dump({k: {"technique": t, "note": n + TAIL} for k, (t, n) in sorted(T.items())}, open(os.path.join(HERE, "checks.json"), "w"), indent=1)
