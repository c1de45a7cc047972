#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "programs/dynamic-bonding-curve/src/"
I = P + "instructions/"
ALL = ["inputs", "histories", "configurations", "fault_sequences"]
props = []
def p(id, title, statement, over, text, why, files, mech, note):
    props.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                      why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=mech, where=files[0])]), note=note))

p("C01", "Vaults always cover everything the pool owes",
  "At every moment, the quote and base vaults of a pool hold at least what the pool owes: trading, protocol and migration fees not yet claimed, the reserve backing open positions while the curve is trading, and after completion the migration amounts, the locked vesting, the surplus and the migration fee shares not yet withdrawn. Whatever order people sell back, claim, withdraw or migrate in, nobody's legitimate payout can fail for lack of tokens.",
  ALL, "every sequence of trades, claims, withdrawals and migrations by any users in any order, for every accepted configuration, with failed and repeated transactions in between",
  "Tests run a few fixed flows with a few amounts; solvency is a sum over roundings of the whole history and must hold for every interleaving of claimants.",
  [P+"state/virtual_pool.rs", P+"state/config.rs", I+"swap/ix_swap.rs", P+"math/utils_math.rs"],
  "reserve and fee accounting in the pool state versus real vault balances; rounding directions in the curve integrals",
  "solvency invariant after every transaction plus forked 'bank run' executions in which everyone cashes out")
p("C02", "Token conservation and promised base supply",
  "Program transactions never create or destroy quote tokens, and every base or quote unit that leaves one account arrives in the account the operation says. The base supply is minted once at pool creation and nobody can mint more; with fixed supply it equals the promised pre-migration supply, and at migration whatever the configured post-migration supply does not need is burned or paid as leftover, never more and never less.",
  ALL, "every sequence of program transactions over every configuration, including partially executed and failed ones",
  "Unit tests check formulas, not balances; conservation is a statement about all token accounts after any history.",
  [I+"initialize_pool", P+"utils/token.rs", I+"migration/withdraw_leftover.rs", P+"state/config.rs"],
  "every token movement of every instruction is compared with the movement the reference model expects; supply equals the sum of balances",
  "per-transaction token deltas against the reference model, and supply versus sum of balances at the end of each run")
p("C03", "Swaps execute exactly at the configured curve",
  "A swap of a given amount moves the price along the configured piecewise curve from the current price and pays out exactly the curve integral, rounded in the pool's favour, across any number of liquidity segments and in both directions. Buying stops at the migration price and selling stops at the starting price; the resulting price, reserves and payouts do not depend on anything else.",
  ["inputs", "histories", "configurations"], "all accepted curves (1 to 16 segments), all reachable prices, all amounts, both directions, all three swap modes",
  "Existing tests use a handful of curves and amounts; segment crossings, exact boundary hits and dust amounts need arbitrary inputs from reachable states.",
  [P+"curve.rs", P+"state/virtual_pool.rs", I+"swap"],
  "segment walk with rounding per direction; compared with an independent big-integer implementation",
  "each executed swap is compared with an independent arbitrary-precision model of the curve; refusals are compared too")
p("C04", "No trade sequence extracts value from the pool",
  "No sequence of buys and sells, however split, ordered or interleaved with other traders, returns more quote to the traders than the curve released, so a round trip never ends with a profit at the pool's expense. The quote reserve never falls below the curve integral from the starting price to the current price, and the base sold never exceeds what that integral releases.",
  ["inputs", "histories", "configurations"], "all finite sequences of swaps in all modes and sizes, including dust, splits and several swaps in one transaction",
  "Rounding errors only become profit through repetition; tests never compose long sequences.",
  [P+"curve.rs", P+"state/virtual_pool.rs", I+"swap"],
  "rounding of amounts and prices always in the pool's favour; potential-function invariant",
  "potential invariant after every transaction and forked randomised round trips")
p("C05", "Slippage limits and swap modes are honoured",
  "A swap either executes within the limit its sender gave or has no effect: exact-in and partial-fill swaps deliver at least the stated minimum, exact-out swaps deliver exactly the requested amount and take at most the stated maximum. Exact-in consumes exactly the input or fails, partial fill consumes as much as the curve can take and leaves the rest with the user, even when the quote the sender used is stale.",
  ["inputs", "schedules", "histories"], "all orderings and delays of transactions between quoting and execution, all modes, amounts and limits",
  "The promise is about the state at execution time, which other people's transactions change; tests execute against the state they quoted.",
  [I+"swap", P+"params/swap.rs"],
  "limit checks against the amounts actually transferred",
  "clients quote, a simulated network delays, reorders, duplicates and drops, and execution is compared with model and limit")
p("C06", "Trading fees follow the configured schedule at every instant",
  "The fee charged on a swap is exactly the one the configuration prescribes for that moment, direction and amount: the linear or exponential decay from the activation point, the rate limiter's progressive fee on large early buys, plus the volatility-driven part with its filter, decay and cap, never above the hard maximum of 99 percent. Passing time, clock jumps or stalls, and earlier swaps change it only as that definition says.",
  ["inputs", "histories", "configurations", "fault_sequences"], "all schedules, all instants including exact period boundaries, clock jumps and stalls, and all histories of price movement",
  "Tests sample a few times; boundaries, clock jumps and volatility carried across histories are unbounded.",
  [P+"base_fee", P+"state/fee.rs", P+"state/config.rs", P+"math/fee_math.rs", P+"params/fee_parameters.rs"],
  "fee numerator from period, amount and volatility state; volatility references updated once per swap",
  "an independent model computes the fee and the volatility state for each swap under a controlled clock")
p("C07", "Fees are split, booked and paid out exactly",
  "Each swap's fee is split between protocol, referrer, partner and creator in the configured proportions on the configured side, and every unit charged is booked to exactly one of them. Each beneficiary can claim exactly what was booked, up to the limit they state, once, and only the balance claimed is reduced; total booked always equals total claimed plus outstanding.",
  ["inputs", "histories", "configurations"], "all interleavings of swaps with and without referral and of partial, full and repeated claims, in all fee collection modes",
  "Rounding in three nested splits and claims between swaps is a property of histories; tests look at single swaps.",
  [P+"state/virtual_pool.rs", P+"state/config.rs", I+"partner/ix_claim_partner_trading_fee.rs", I+"creator/ix_claim_creator_trading_fee.rs", I+"operator"],
  "fee counters and metrics in the pool; claims clear what they pay",
  "ledger invariant over the recorded history plus per-instruction comparison with the model")
p("C08", "Only the rightful party can act, and only on the right accounts",
  "An operation that pays out, reconfigures or hands over something succeeds only if signed by the party it belongs to (partner, creator, operator with that permission, admin, leftover receiver's pool, token owner) and only with the vaults, mints, configuration and records that belong to that very pool. With any account replaced by another, a missing signature, or another pool's parts, the transaction is refused or moves exactly what the substituted accounts are entitled to, and never someone else's assets.",
  ["inputs", "histories", "fault_sequences"], "all substitutions of accounts, signers and arguments in any instruction at any point of any history",
  "Negative tests cover a few missing checks; the space of account substitutions per instruction and state is combinatorial.",
  [P+"access_control.rs", I, P+"lib.rs"],
  "account constraints and signer checks of each instruction",
  "an attacker client mutates live instructions (foreign accounts, stolen roles, dropped signatures, aliased accounts, other pools) and the model decides whether acceptance was legitimate")
p("C09", "The lifecycle only moves forward and trading ends at completion",
  "A pool goes through trading, completed, vesting locked (if configured) and migrated in that order, never backwards and never skipping a step, and it is migrated at most once and only to the configured destination. From the moment the quote reserve reaches the threshold no swap executes any more and price and reserves stay as they are; before that moment nothing reserved for later (surplus, migration fee, leftover, migration) can be executed.",
  ["histories", "fault_sequences", "schedules"], "all interleavings of swaps, lock, migration and withdrawal attempts with crashes, duplicates and third-party failures at any point",
  "Tests follow the happy path; wrong-order, repeated and half-failed attempts in arbitrary histories are not sampled.",
  [P+"state/virtual_pool.rs", I+"migration", I+"swap/ix_swap.rs"],
  "migration progress and flags guarding each instruction",
  "history invariants on progress and frozen state plus per-instruction refusal model, with keepers that crash and retry")
p("C10", "Surplus, migration fees and leftover are paid exactly once",
  "After completion the partner, the creator and the protocol each receive exactly their configured share of the quote collected above the threshold, partner and creator their configured share of the migration fee, and the leftover receiver the base tokens nobody needs after migration. Each of these is payable once, at its proper time, for its exact amount, regardless of the order in which the others are taken.",
  ["histories", "configurations", "inputs", "fault_sequences"], "all orders and repetitions of the withdrawals, all splits and overshoots, with lost and duplicated transactions",
  "Tests check share formulas in isolation; exactly-once depends on the history of flags, repeated and duplicated requests.",
  [I+"partner/ix_withdraw_partner_surplus.rs", I+"creator/ix_withdraw_creator_surplus.rs", I+"migration/ix_withdraw_migration_fee.rs", I+"migration/withdraw_leftover.rs", P+"state/virtual_pool.rs"],
  "one-time flags per beneficiary and share formulas",
  "exactly-once counters over the history plus amounts against the model")
p("C11", "Migration deposits exactly the promised amounts at the promised price",
  "Migration opens the new market at the configured migration price with the configured fee tier or custom fee settings, and deposits exactly the configured quote and base minus the protocol's migration fee, which is computed from those amounts at that price and booked once. Nothing else leaves the vaults, even if the market takes slightly less than offered.",
  ["inputs", "configurations", "fault_sequences"], "all accepted migration configurations (both market versions, all fee options and modes) and all rounding outcomes or failures of the market program",
  "There is no end-to-end Rust test; amounts depend on price, fees, rounding and the third-party program's answer.",
  [I+"migration/meteora_damm/migrate_meteora_damm_initialize_pool.rs", I+"migration/dynamic_amm_v2/migrate_damm_v2_initialize_pool.rs", P+"migration_handler", P+"params/liquidity_distribution.rs"],
  "migration amounts, protocol migration fee and market parameters passed to the market program",
  "the market stubs record what they are asked; parameters, deposits and bookkeeping are compared with the model")
p("C12", "Liquidity goes to its owners with the promised locks",
  "The liquidity created at migration is divided between partner and creator in the configured percentages, with exactly the configured parts permanently locked, vested on the configured schedule, or free. Each part can be locked or claimed once, only into the hands (or locked position) of its owner, and nothing stays with the program.",
  ["configurations", "histories", "fault_sequences"], "all accepted distributions, all orders and repetitions of lock and claim requests, partial failures of the market program",
  "Distribution tests check arithmetic; ownership, lock state and once-only are effects across several programs.",
  [I+"migration/meteora_damm", I+"migration/dynamic_amm_v2", P+"params/liquidity_distribution.rs", P+"state/config.rs", P+"utils/damm_v2_utils.rs"],
  "liquidity distribution calculation, position creation, locking and transfer of ownership",
  "state held by the market stubs (positions, locks, vestings, owners) is compared with the model")
p("C13", "Locked base tokens are escrowed exactly as configured",
  "If the configuration locks base tokens for the creator, the vesting escrow is created once after completion and before migration, funded from the pool with exactly the configured total, for the creator, with the configured start, cliff, period amounts and frequency, and the creator cannot receive those tokens any other way. A pool without locked tokens never creates an escrow.",
  ["configurations", "histories", "fault_sequences"], "all vesting configurations including extreme durations, all interleavings with other operations, failures of the escrow program",
  "No existing Rust test executes it; it is an effect in a third-party program at a specific lifecycle stage.",
  [I+"migration/create_locker.rs", I+"partner/ix_create_config.rs", P+"state/config.rs"],
  "escrow parameters computed from configuration and completion time",
  "the escrow stub's resulting record and funding are compared with the model")
p("C14", "Mint authority, token metadata and records are as promised",
  "A new pool's base token has exactly the configured decimals and supply, no freeze authority and, after creation, no mint authority except where the configuration gives it to creator or partner; its metadata carries the requested name, symbol and link, and the update authority is whoever the configuration says. Partner and pool information records can be created only by the party they describe, once, and hold exactly what that party supplied.",
  ["configurations", "inputs", "histories", "fault_sequences"], "all token types and authority options, all metadata strings, repeated and failed creations",
  "Token programs and metadata are third parties; no Rust test creates a pool.",
  [I+"initialize_pool", I+"creator/ix_create_virtual_pool_metadata.rs", I+"partner/ix_create_partner_metadata.rs", P+"utils/token.rs", P+"state/config.rs"],
  "authority hand-over at creation, record accounts",
  "mints, metadata and records are read back from the simulated chain after real token program execution")
p("C15", "Anti-sniper rules cannot be bypassed",
  "While the rate limiter is active, at most one swap on a pool succeeds per transaction, however it is packaged: several instructions, calls through other programs, or a mix. Where the configuration grants the pool's first swap the minimum fee, exactly the eligible swap, in the creation transaction, gets it and no later or other swap does.",
  ["inputs", "schedules", "configurations"], "all transaction shapes: any number and nesting of instructions, in any order, with or without the instruction list account",
  "Tests of the helper functions do not build transactions; the guard inspects the surrounding transaction and call stack.",
  [I+"swap/ix_swap.rs", I+"swap", P+"base_fee/fee_rate_limiter.rs", I+"initialize_pool/process_create_token_metadata.rs"],
  "inspection of the instruction list, call depth and eligibility for the first-swap fee",
  "transactions bundling direct and proxied swaps at random; outcomes against the model and a per-transaction counter")
p("C16", "Pool creation fees are collected, split and paid exactly",
  "Creating a pool takes exactly the configured creation fee from the payer into the pool. Ten percent belongs to the protocol and the rest to the partner; each can be collected once, for its exact amount, by its owner, and the pool always keeps its rent.",
  ["configurations", "histories", "inputs"], "all fee amounts, all orders and repetitions of collection, unrelated lamport donations, closed or foreign receivers",
  "Lamport movements are not covered by Rust tests at all.",
  [I+"initialize_pool", I+"partner/ix_claim_partner_pool_creation_fee.rs", I+"operator", P+"state/virtual_pool.rs", P+"state/config.rs"],
  "lamport transfer at creation, flags for each share",
  "lamport deltas of every transaction against the model and once-only counters")
p("C17", "Accepted configurations are faithful, immutable and usable",
  "A configuration is accepted exactly when its parameters are valid; what is stored equals what was asked for, and no later operation changes it. Every accepted configuration can be used to the end: pools can be created from it, traded in both directions, completed and migrated, with no setting that makes a later step impossible.",
  ["configurations", "inputs", "histories"], "all parameter combinations, including boundary and extreme values",
  "Tests validate chosen examples; usability is about all later steps under arbitrary accepted parameters.",
  [I+"partner/ix_create_config.rs", P+"state/config.rs", P+"params", P+"base_fee"],
  "parameter validation, derived quantities stored at creation",
  "an independent validator decides acceptance, stored state is compared field by field, and accepted configurations are driven to migration")
p("C18", "Off-chain quotes equal on-chain execution",
  "For any reachable pool state, time, direction, mode and amount, the quote returned by the client library is exactly what the program executes: same input taken, same output paid, same fees and same resulting price. If the library refuses to quote, the program refuses the swap too, and the library never crashes on a valid pool.",
  ["inputs", "histories", "configurations"], "all swaps executed or refused in any simulated history",
  "The library's tests are few fixed examples; agreement must hold for every state.",
  ["dynamic-bonding-curve-sdk/src", P+"state/virtual_pool.rs"],
  "library functions re-implement preconditions around shared math",
  "every executed or refused swap is quoted with the real library on the same pre-state and compared")
p("C19", "Emitted events tell the truth",
  "Every state-changing operation emits its event exactly once if and only if it takes effect, and each field of the event (accounts, amounts, fees, prices, parameters) equals what actually happened. An observer who only reads events can therefore reconstruct trades, claims, withdrawals and configuration.",
  ["inputs", "histories", "configurations"], "all operations with all arguments in any history",
  "No test inspects events.",
  [P+"event.rs", I],
  "event emission at the end of each instruction",
  "decoded self-calls are compared with the effects the model and the chain state show")
p("C20", "Pools do not affect each other",
  "An operation on one pool changes only that pool's own accounts and the accounts its caller named and owns: state, vaults, fees and records of every other pool, configuration or user stay exactly as they were. Unrelated token or lamport donations do not change what anyone is owed.",
  ["histories", "inputs", "schedules"], "all interleavings of operations on several pools sharing configurations, traders, partners and the common vault authority",
  "Tests use one pool at a time; all pools share one vault authority.",
  [I, P+"const_pda.rs", P+"state"],
  "per-pool vault and state binding under a shared authority",
  "every account written by a transaction is compared with the exact set of expected changes")
p("C21", "Operators can do only what the admin granted",
  "Only the fixed administrators can appoint or remove operators, and an operator can do exactly the actions in its granted permissions while it is appointed. Protocol fees leave a pool only to the protocol's treasury or through the validated conversion route, for exactly the booked amount, and never at other amounts, tokens or receivers.",
  ["inputs", "histories", "configurations"], "all permission sets, appointments, removals and operator actions in any order",
  "Permission bits are unit tested; the effect of each permission on live instructions is not.",
  [I+"admin", I+"operator", P+"state/operator.rs", P+"state/claim_fee_operator.rs", P+"access_control.rs"],
  "permission mask check, treasury address and zap validation",
  "operators with random masks act on live pools; the model decides what is allowed")
p("C22", "Creator rights move only by the creator's own transfer",
  "The creator role of a pool moves only when the current creator signs, only while trading or after migration when the creator's and partner's liquidity has been dealt with, and to exactly the named new creator. From then on every creator right (fees, surplus, records, migration fee) belongs to the new creator and none to the old one.",
  ["histories", "inputs", "schedules"], "all interleavings of transfers with trading, completion, migration, claims and liquidity distribution",
  "No Rust test transfers the role; it interacts with each stage of migration.",
  [I+"creator/ix_transfer_pool_creator.rs", I+"creator"],
  "stage check and creator field used by every creator instruction",
  "transfers at random points of the lifecycle, later claims by old and new creators judged by the model")
p("C23", "Third-party programs cannot rob or hijack the vault authority",
  "When the program lends its vault authority's signature to another program, that program cannot leave the authority with fewer lamports than before, change its owner or give it data: any such attempt makes the whole transaction fail. What the authority temporarily receives for rent is financed by the payer and returned to the payer.",
  ["fault_sequences", "histories", "inputs"], "misbehaviour of any called program at any call, together with any state of the authority's balance",
  "Requires a misbehaving callee, which no test has.",
  [P+"utils/cpi_checker.rs", I+"migration/flash_rent.rs", I+"migration", P+"utils/token.rs"],
  "authority snapshot before and after each call; temporary rent funding",
  "stub programs drain, re-assign or allocate the authority on demand; effects compared with the promise")
p("C24", "Every pool can be brought to its end",
  "From every reachable state, once disturbances stop, a bounded number of ordinary permissionless or owner-signed transactions completes the curve, migrates the pool and pays everything out. No sequence of user actions, failed attempts or donations can block a pool or make a legitimate operation impossible.",
  ["histories", "configurations", "fault_sequences", "schedules"], "all reachable states under every accepted configuration, after any finite disturbance",
  "Liveness from arbitrary states cannot be sampled by example tests.",
  [I+"migration", I+"swap", P+"state"],
  "all instructions",
  "bounded liveness: from random points of random histories a fault-free driver must reach the end; every legitimate operation that fails is reported")
p("C25", "State left by older releases keeps its terms",
  "A program upgrade changes nothing for what already exists. Pools and configurations written by earlier releases - curves of up to twenty points, a flat creation fee still owed, no protocol share of the migrated liquidity, a trading fee below today's minimum, liquidity that is not locked, completed curves with a real surplus above the threshold - keep trading, paying out and migrating with exactly the terms they were created under, and today's stricter rules apply only to what is created today.",
  ["histories", "configurations", "inputs", "fault_sequences"], "all states earlier releases could have left, at any point of a pool's life, and all histories that continue from them",
  "Tests only see state the current code creates; upgrade compatibility is about state it can no longer create.",
  [P+"state/virtual_pool.rs", P+"state/config.rs", I+"operator/ix_claim_protocol_pool_creation_fee.rs", P+"migration_handler"],
  "whole-array curve walks, legacy flags and recorded rates read from the accounts instead of constants",
  "the upgrade is a fault: accounts are rewritten to what an earlier release left, the history goes on, and every instruction touching them is judged by the reference model; invariants and liveness as for other pools")

p("C26", "Clients of earlier releases keep working",
  "A transaction that a client built against release 0.1.2, 0.1.3, 0.1.4 or 0.1.6 sends - the instruction data, account order and account privileges of the interface published with that release - is executed by the present program with the meaning it had: configurations created that way are the same configurations, and traders, creators, partners and migrators need no new account, signature or field. Exceptions are the changes announced as breaking: protocol and operator endpoints, at least 0.25 % base fee, 10 % locked liquidity, the instructions account for rate-limited pools, and exact-in swaps that stop at the migration price.",
  ["inputs", "histories", "configurations", "schedules"], "every user-facing instruction of the four published interfaces, in any state of any pool, alone or bundled",
  "The compatibility suite replays one recorded flow per release and is not part of the test suite that runs here.",
  [I+"", "scripts/idl", "COMPATIBLE_TEST.md", P+"lib.rs"],
  "entry points, account structs and ConfigParameters",
  "runs in which users hold clients of an older release: each transaction is re-encoded by an independent encoder of that release's IDL with exactly its account privileges, then judged by the same model; liveness drives use the old client as well")

LN = {}
checks, na = [], []
for q in props:
    note = q.pop("note")
    checks.append(dict(
        property=q["id"], quick_cmd=f"./check.sh {q['id']} quick", thorough_cmd=f"./check.sh {q['id']} thorough",
        technique="deterministic simulation with fault injection: " + note,
        level="exploration",
        level_note="Seeded search over schedules, inputs, clocks and faults on the real program code in a simulated chain; no violation in the explored runs, not a proof. Trusts the simulated Solana runtime, the third-party stubs and the reference model."))
with open(R + "/properties.jsonl", "w") as f:
    for q in props:
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q) + "\n")
json.dump(dict(version=1, setup_cmd="./build.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo: the program is entered through its public entry function and all seams are Solana's own (accounts, CPI, sysvars). See DESIGN.md."),
          open(R + "/MANIFEST.json", "w"), indent=1)
