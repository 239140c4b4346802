"""Properties of the index token contract."""
CE = "contracts/core/src/execute/"
CS = "contracts/core/src/state/"
INP = ["inputs", "histories"]
TABLE = []
NOT_APPLICABLE = {}


def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), tech=None, note=None):
    TABLE.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, state=state, observe=observe, tech=tech, note=note))


ANYSTATE = "every caller, message, attached funds, block time and reachable contract state"

P("C01", "Governed settings change only on messages sent by the governance",
  "Pausing, releasing a pause, nominating or revoking a new governance, changing the fee strategy, the reserve denom, the trade routes and limits, the rebalance manager, and starting a rebalance succeed only when the sender is the recorded governance. No other message changes the pause state, the reserve denom, the collector and fee rates, the trade routes and limits, or installs a rebalance plan or manager.",
  INP, ANYSTATE,
  "The tests try one wrong sender per operation on one state; they cannot show that no path through any message variant changes a governed setting without the check.",
  ["contracts/core/src/contract.rs", CE + "gov/mod.rs", CE + "rebalance/mod.rs"],
  [("governance sender check", CS + "config.rs"), ("dispatch of governance messages", "contracts/core/src/contract.rs")],
  [("governance address", "the only sender allowed to change settings", CS + "config.rs")],
  ["the execute entry point: result and storage diff per message"], "sender-authority dominance over state changes")

P("C02", "Governance is handed over only in two steps, to the nominee that accepts",
  "The governance address changes only when the address that the current governance nominated accepts, and then becomes exactly that address. A nomination is a validated address, is recorded only by the governance while no other nomination is outstanding, can be revoked only by the governance, and is consumed by acceptance. No other message, reply or migration changes the governance or the nomination.",
  INP, ANYSTATE + ", including nominations left over from earlier messages",
  "Tests run one happy sequence; the guarantee is about every message in every order.",
  [CE + "gov/mod.rs", "contracts/core/src/contract.rs"],
  [("nominate / accept / revoke", CE + "gov/mod.rs")],
  [("governance address", "current governance", CS + "config.rs"), ("pending governance", "outstanding nominee", CS + "mod.rs")],
  ["storage diff of every entry point"], "authority and typestate of the hand-over")

P("C03", "Rebalance trades and finalization obey the appointed manager",
  "Trading and finalizing succeed only while a rebalance is in progress, and when a manager is appointed only if the sender is that manager; without a manager anyone may do both. The manager on record is the validated address (or none) given when the rebalance started or when the governance replaced it, and replacing it leaves the plan unchanged.",
  INP, ANYSTATE + ", with and without a manager",
  "Tests sample a manager and one stranger for some messages; they do not cover every variant and path.",
  [CE + "rebalance/mod.rs", CE + "rebalance/trade/mod.rs", CE + "gov/update.rs"],
  [("manager validation", CE + "rebalance/mod.rs")],
  [("rebalance record", "manager and plan of the rebalance in progress", CS + "rebalance.rs")],
  ["execute: Rebalance and UpdateRebalanceManager messages"], "manager-authority dominance")

P("C04", "An unexpired pause blocks minting and burning, an expired one blocks nothing",
  "While a pause is in force (paused and, if it has an expiry, not yet expired) minting and burning fail; once it has expired or been released they are not refused for being paused. A pause is accepted only while none is in force and only with an expiry in the future (or none), a release only while one is in force, each changes nothing but the pause state, and no other message changes it.",
  INP, "every block time relative to the expiry, every pause state and every message",
  "Expiry is a boundary over block time; tests sample a few timestamps.",
  [CS + "pause.rs", CE + "gov/mod.rs", CE + "token.rs"],
  [("expiry refresh", CS + "pause.rs"), ("pause gate", CE + "token.rs")],
  [("pause state", "flag and optional expiry", CS + "pause.rs")],
  ["execute: Mint, Burn, Pause, Release"], "pause typestate on guards")

P("C05", "Minting, burning and policy changes are frozen while a rebalance runs",
  "While a rebalance is in progress, minting, burning, changing the fee strategy, changing the reserve denom and starting another rebalance all fail, so the token supply, the reserve denom and the fee policy cannot change. Reserve units change only while a rebalance is in progress (or when one starts), and a rebalance ends only by finalization.",
  INP, ANYSTATE,
  "Tests check single messages on a single mocked rebalance; exclusivity concerns every message and path.",
  [CE + "token.rs", CE + "gov/mod.rs", CE + "rebalance/mod.rs"],
  [("rebalance-in-progress check", CE + "token.rs")],
  [("rebalance record", "present exactly while a rebalance runs", CS + "mod.rs"), ("total supply", "recorded token supply", CS + "mod.rs"), ("reserve units", "reserve asset earmarked per target", CS + "mod.rs")],
  ["execute: all variants"], "rebalance typestate on guards and effects")

P("C06", "A mint creates exactly the requested tokens and hands out all of them",
  "A successful mint creates exactly the requested amount of index tokens, increases the recorded supply by exactly that amount, and sends all of it out: the mint fee (rounded down but at least one unit) to the fee collector when a mint fee is set, the rest to the requested receiver or else the sender. No message other than mint and burn creates or destroys index tokens or changes the recorded supply.",
  INP, "every amount, fee rate, receiver and state",
  "The conservation must hold for every amount and rate, including those that round to zero; tests use a few round numbers.",
  [CE + "token.rs", "contracts/core/src/contract.rs"],
  [("mint", CE + "token.rs")],
  [("total supply", "recorded token supply", CS + "mod.rs"), ("fee policy", "collector and rates", CS + "fee.rs")],
  ["messages and storage of a successful mint"], "value-flow conservation of minted tokens")

P("C07", "A burn destroys what it receives less the fee and redeems exactly that",
  "A burn requires exactly one coin, of the index denom; it destroys the received amount less the burn fee, reduces the recorded supply by exactly the amount destroyed, and sends exactly the fee (rounded down) to the collector when a burn fee is set. It pays the requested redeemer (else the sender), for every asset of the basket, the current unit times the amount destroyed, rounded down, and nothing else.",
  INP, "every amount, fee rate, basket, redeemer and state",
  "Tests burn a few amounts from a fixed basket; conservation is over all amounts, rates and baskets.",
  [CE + "token.rs", CS + "units.rs"],
  [("burn", CE + "token.rs"), ("redemption amounts", CS + "units.rs")],
  [("total supply", "recorded token supply", CS + "mod.rs"), ("basket units", "amount of each asset per token", CS + "units.rs")],
  ["messages and storage of a successful burn"], "value-flow conservation of burned tokens")

P("C08", "A mint needs the whole basket and refunds exactly the surplus",
  "A mint succeeds only if the attached funds contain every asset of the basket with at least the required amount (unit times mint amount rounded down, but at least one unit) and no asset outside the basket. It refunds to the requested address (else the sender) exactly the attached funds less those requirements, leaving out zero amounts.",
  INP, "every basket, unit, mint amount and attached funds",
  "The rule must hold for every basket size, order and amount; tests use a fixed basket of two or three assets.",
  [CE + "token.rs", CS + "units.rs"],
  [("requirement and refund computation", CS + "units.rs")],
  [("basket units", "amount of each asset per token", CS + "units.rs")],
  ["attached funds, result and refund message of mint"], "element-wise loop summary of requirement and refund")

P("C09", "Rounding never favours a depositor, a redeemer or the collector",
  "Amounts derived from fractional units are rounded in favour of the remaining holders: the deposit required per asset at minting is not less than unit times amount (at least one base unit), a redemption is not more than unit times the burned amount, and the streaming fee credited per asset is not more than supply times what the unit loses.",
  INP, "every unit, amount, supply and rate",
  "Rounding errors show only at particular fractions and accumulate over histories; tests use units and amounts that divide evenly.",
  [CS + "units.rs", CE + "token.rs", CS + "fee.rs"],
  [("requirement / refund / redemption amounts", CS + "units.rs"), ("fee accrual", CS + "fee.rs")],
  [("basket units", "amount of each asset per token", CS + "units.rs")],
  ["funds required by mint, redemption of burn, fees credited"], "rounding-direction analysis of value-flow",
  note="Known finding: mint deposits are floored (see known-findings.json).")

P("C10", "Streaming fees are settled up to now before anything that depends on units",
  "Minting, burning, realizing fees, starting a rebalance and changing the fee policy first charge the basket units with the streaming fee for exactly the time since the last settlement (nothing when no fee is set, it is frozen, or no time has passed) and record the settlement, so no second is skipped or charged twice. No other message changes units or accrual, except rebalance trades and finalization; a new fee starts accruing when it is set.",
  INP, "every history of messages and block times",
  "Skipped or double charges need particular sequences and times; tests settle once or twice.",
  [CS + "fee.rs", CE + "token.rs", CE + "fee.rs", CE + "rebalance/mod.rs", CE + "gov/mod.rs"],
  [("settlement", CS + "fee.rs")],
  [("last settlement time", "up to when fees are charged", CS + "fee.rs"), ("basket units", "amount of each asset per token", CS + "units.rs")],
  ["units and fee record after each message"], "settlement typestate and accrual value-flow")

P("C11", "Fees credited to the collector equal what the basket units lose",
  "Whenever a settlement reduces the basket units, the collector is credited, for every asset, exactly the token supply times the reduction of that unit (rounded down) on top of what was collected before; when units are not charged nothing is credited.",
  INP, "every basket, supply, rate and elapsed time",
  "Conservation between two records must hold for every basket and elapsed time; tests compare one example.",
  [CS + "fee.rs"],
  [("accrual", CS + "fee.rs")],
  [("collected fees", "per-asset amounts owed to the collector", CS + "fee.rs"), ("basket units", "amount of each asset per token", CS + "units.rs")],
  ["units and collected fees after each settling message"], "value-flow conservation between units and collected fees")

P("C12", "Accrued fees are paid only to the collector, exactly once, and never lost",
  "Only the recorded collector can realize fees. Realizing pays all accrued fees to it and clears them; changing the fee policy pays them to the collector of the old policy; every other message keeps them on record unchanged (plus what it settles).",
  INP, "every sender, state and history",
  "Loss or double payment shows only over histories (for instance a policy change between settlements).",
  [CE + "fee.rs", CE + "gov/mod.rs", CS + "fee.rs"],
  [("realize", CE + "fee.rs"), ("fee policy change", CE + "gov/mod.rs")],
  [("collected fees", "per-asset amounts owed to the collector", CS + "fee.rs")],
  ["execute: messages sent and fee record"], "linear (exactly-once) flow of accrued fees")

P("C13", "Streaming fees stand still while a rebalance runs",
  "Starting a rebalance freezes the streaming fee after settling it; no message unfreezes it while the rebalance runs; finalizing unfreezes it and restarts the clock at that time, so the time spent rebalancing is never charged.",
  INP, "every history with a rebalance in it",
  "Needs a start, time passing and a finalization in one history, for every fee configuration.",
  [CE + "rebalance/mod.rs", CE + "rebalance/finalize.rs", CS + "fee.rs"],
  [("freeze / unfreeze", CS + "fee.rs")],
  [("freeze flag and clock", "whether and since when fees accrue", CS + "fee.rs")],
  ["fee record after each message"], "freeze typestate")

P("C14", "Every stored fee rate lies within its bounds",
  "A mint or burn fee is stored only if it is positive and below one, a streaming rate only if it is positive and at most 0.000000021979553 per second; this holds at instantiation and for every later change of the fee record.",
  INP, "every rate given at instantiation or by a policy change",
  "The bound must hold on every path that writes the record, for every rate.",
  [CS + "fee.rs", CE + "gov/mod.rs", "contracts/core/src/contract.rs"],
  [("rate validation", CS + "fee.rs")],
  [("fee record", "collector and rates", CS + "fee.rs")],
  ["fee record after every message"], "range guards dominating every write of the fee record")

P("C15", "A rebalance starts only from a plan that can be carried out on the basket",
  "A rebalance starts only if its deflation and inflation are not empty, name no denom twice and none in both, every deflated denom is in the basket with a target not above its current (settled) unit, and every inflation weight is positive. The plan is recorded as given, reserve units start empty, and nothing is sent.",
  INP, "every plan and basket",
  "Validity is over all list lengths, orders and values; tests try a few bad plans.",
  [CE + "rebalance/mod.rs", CS + "rebalance.rs"],
  [("plan validation", CS + "rebalance.rs")],
  [("rebalance record", "plan in progress", CS + "rebalance.rs"), ("reserve units", "reserve asset earmarked per target", CS + "mod.rs")],
  ["execute: Rebalance Init"], "element-wise loop summaries of the plan validation")

P("C16", "A rebalance ends only when its plan is complete and leaves nothing behind",
  "Finalizing succeeds only if no deflated denom is still above its target and no reserve units are left; it then removes exactly the units that are zero, clears the rebalance record and the reserve units, and changes nothing else apart from restarting the streaming fee.",
  INP, "every plan, basket and reserve state",
  "Completeness is over every element of plan and reserve; tests have one or two.",
  [CE + "rebalance/finalize.rs"],
  [("completion check", CE + "rebalance/finalize.rs")],
  [("rebalance record", "plan in progress", CS + "rebalance.rs"), ("reserve units", "reserve asset earmarked per target", CS + "mod.rs")],
  ["execute: Rebalance Finalize"], "element-wise loop summaries of the completion check")

P("C17", "Every rebalance trade respects the limits set for its pair and plan",
  "A trade succeeds only if the cooldown of its pair has passed since the last trade, its amount does not exceed the pair's limit, the target is part of the plan (deflation) or has reserve units (inflation), it can spend at most and returns at least what the caller allows, a deflation cannot sell more than what exceeds the target, and an inflation cannot spend more than the reserve units of its target.",
  INP, "every amount, block time, quote of the swap and state",
  "Limits are boundaries over amounts and times, and quotes come from other contracts; tests sample a few.",
  [CE + "rebalance/trade/mod.rs", CS + "rebalance.rs"],
  [("trade limits", CE + "rebalance/trade/mod.rs")],
  [("trade info", "routes, cooldown, limit and last trade per pair", CS + "rebalance.rs")],
  ["execute: Rebalance Trade"], "guard dominance of trade limits over the swap")

P("C18", "A rebalance trade books exactly what it can spend and what it surely gets",
  "A trade is one swap by the contract itself, selling or buying the reserve denom in the amount asked. The unit (or reserve unit) sold is reduced by what the swap may spend at most per token, or closed in full when that is all that is open of it, the one bought grows by what it must return at least per token; reserve gains are spread over the inflated denoms by weight and add up to the gain; moving the reserve denom itself needs no swap. Nothing else changes.",
  INP, "every amount, basket, weight list, quote and supply",
  "Bookkeeping must match the swap for every amount and weight list; tests use one route and round numbers.",
  [CE + "rebalance/trade/mod.rs"],
  [("deflate / inflate", CE + "rebalance/trade/mod.rs")],
  [("basket units", "amount of each asset per token", CS + "units.rs"), ("reserve units", "reserve asset earmarked per target", CS + "mod.rs")],
  ["storage diff and swap message of a trade"], "value-flow conservation between swap message and books")

P("C19", "Trade routes are registered and used for exactly the pair they connect",
  "The governance registers routes and limits under the pair (denom, denom in which the last hop ends), as given. A trade uses only routes registered for its own pair, follows them hop by hop, records its time on that pair and leaves routes and limits unchanged; no other message writes them.",
  INP, "every route list and pair",
  "The key and the hops must agree for every route length; tests use single-hop routes, where first and last hop coincide.",
  [CE + "gov/mod.rs", CE + "rebalance/trade/mod.rs", CS + "rebalance.rs"],
  [("route registration", CE + "gov/mod.rs"), ("swap construction", CS + "rebalance.rs")],
  [("trade info", "routes, cooldown, limit and last trade per pair", CS + "rebalance.rs")],
  ["trade records and swap messages"], "key/value agreement of keyed storage")

P("C20", "Queries report the recorded state and simulations match execution",
  "Queries change nothing. They report the governance, nominee, denoms, fee policy, supply, rebalance and trade records as stored, the pause in force at the asked time, and units, assets and collected fees as a settlement at the asked time (default: now) would leave them. A simulated burn reports the amounts a burn would destroy and pay; a simulated mint the tokens, spending and refund a mint would produce, and fails when a mint would for lack of funds or foreign funds.",
  INP, "every query, time, amount, funds and state",
  "Agreement of two code paths is over all inputs; tests compare few.",
  ["contracts/core/src/query.rs", "contracts/core/src/contract.rs"],
  [("queries and simulations", "contracts/core/src/query.rs")],
  [],
  ["the query entry point"], "agreement of query and execution value-flow summaries")

P("C21", "Every record of the index contract has its own storage key",
  "Governance nominee, configuration, fees, supply, units, reserve units, rebalance, trade records and version are kept under distinct, constant storage keys, each always read and written with one value type, and the keys of the deployed layout stay in use.",
  ["histories", "configurations"], "every entry point of the contract",
  "Two records sharing a key corrupt each other only when particular messages follow one another; tests rarely combine them.",
  ["contracts/core/src/state/mod.rs"],
  [("storage cells", CS + "mod.rs")],
  [("storage keys", "one per record", CS + "mod.rs")],
  ["storage of the contract"], "cell inventory (key, value type) over all storage call sites")

P("C22", "Addresses given as text are validated before they are stored or paid",
  "Whenever an address supplied as text in a message is stored (governance, nominee, collector, manager) or is the recipient of a payment, it has been accepted by the chain's address validation on that path.",
  INP, "every message and address text",
  "A missing validation is invisible to tests, whose mock accepts most strings.",
  [CE + "token.rs", CE + "gov/mod.rs", "contracts/core/src/contract.rs", CE + "rebalance/mod.rs"],
  [("address validation", CE + "token.rs")],
  [("stored addresses", "governance, nominee, collector, manager", CS + "config.rs")],
  ["stored addresses and recipients"], "taint analysis from message text to addresses")

P("C23", "The index contract migrates only from older versions of itself",
  "A migration succeeds only from a recorded contract of the same name with an older version, unless forced; it records its own name and version and changes nothing else. Instantiation records them first, and nothing else changes them.",
  ["inputs", "histories", "configurations"], "every recorded name and version",
  "Version order is over all version pairs; tests migrate once at most.",
  ["contracts/core/src/contract.rs"],
  [("migrate", "contracts/core/src/contract.rs")],
  [("contract version", "name and version on record", "contracts/core/src/contract.rs")],
  ["the migrate entry point"], "guard dominance over the version record")

P("C24", "The index denom is the one created at instantiation, set once by its reply",
  "Instantiation creates exactly one denom, the contract's own with the subdenom given, starts with no supply and with the given units (none named twice). The index denom is recorded only by the successful reply to that creation, as reported there, and never changes.",
  ["inputs", "histories"], "every instantiation message, reply and later message",
  "Tests check one instantiation; that nothing else ever sets the denom is over every message.",
  ["contracts/core/src/contract.rs", CS + "units.rs"],
  [("instantiate and reply", "contracts/core/src/contract.rs")],
  [("index denom", "token of the index", CS + "config.rs"), ("basket units", "amount of each asset per token", CS + "units.rs")],
  ["instantiate, reply and execute entry points"], "single-assignment analysis of the index denom")

P("C25", "Every message the index contract sends reverts the operation if it fails",
  "No payment, mint, burn, swap or denom creation is sent in a way that lets the operation succeed although the message fails.",
  ["inputs", "fault_sequences"], "every entry point and every failure of a sent message",
  "Tests do not make sent messages fail.",
  ["contracts/core/src/contract.rs", CE + "token.rs", CE + "rebalance/trade/mod.rs"],
  [("message construction", CE + "token.rs")],
  [],
  ["reply_on of every message sent"], "effect analysis of sub-message reply modes")

P("C26", "Assets leave the index contract only as promised",
  "The contract sends assets only as the refund of surplus funds of the same mint, the redemption of the burned amount, index tokens minted or received in the same message, accrued fees for the recorded collector, and swaps by the contract inside a rebalance. No other message, reply or migration moves assets, and tokens are created or destroyed only by minting and burning.",
  INP, ANYSTATE,
  "Collateralization is a statement about every message that can move assets, not about the ones a test sends.",
  [CE + "token.rs", CE + "fee.rs", CE + "rebalance/trade/mod.rs", CE + "gov/mod.rs"],
  [("message construction", CE + "token.rs")],
  [("basket units", "amount of each asset per token", CS + "units.rs")],
  ["messages of every entry point"], "whole-contract outflow classification")

P("C27", "Trading all that is open of an asset closes it exactly",
  "When a deflation spends exactly the whole worth of what a target's unit exceeds its planned amount by, the unit ends exactly at the planned amount; when an inflation spends exactly the whole worth of a target's reserve unit, the reserve unit ends at exactly zero; moving the reserve denom itself closes it likewise. No remainder from dividing by the supply is left behind, neither above the plan (which would keep the rebalance open) nor below it.",
  INP, "every unit, planned amount, reserve unit, supply, quote and amount",
  "Whether a remainder is left depends on how amounts divide by the supply; the tests use round numbers, where none is.",
  [CE + "rebalance/trade/deflate.rs", CE + "rebalance/trade/inflate.rs"],
  [("debit of the traded unit", CE + "rebalance/trade/deflate.rs"), ("debit of the reserve unit", CE + "rebalance/trade/inflate.rs")],
  [("basket units", "amount of each asset per token", CS + "units.rs"), ("reserve units", "reserve asset earmarked per target", CS + "mod.rs")],
  ["units and reserve units after execute: Rebalance Trade"], "value-flow of the debit on the equal-amount path")

P("C28", "Streaming accrual never makes the basket unusable",
  "However long the contract is left alone, the next settlement succeeds, so minting, burning and realizing fees cannot become impossible by the passing of time.",
  ["schedules", "histories"], "every elapsed time, rate and basket",
  "Needs years of unsettled time.",
  [CS + "fee.rs"],
  [("accrual", CS + "fee.rs")],
  [("last settlement time", "up to when fees are charged", CS + "fee.rs")],
  ["settling messages"])
NOT_APPLICABLE["C28"] = "The compound (1+rate)^seconds - 1 exceeds one after about a year at the maximum rate, then the settlement fails by design of checked subtraction; whether that time ever passes between two settlements is a property of the schedule, not of the source, and a numeric bound over the exponent is outside this family."

P("C29", "Accepted settings are recorded exactly as they were given",
  "Instantiation records the governance, reserve denom, basket and fee policy given (mint and burn fee each under its own name, the streaming rate with nothing collected yet and the clock started now), unpaused, with no supply, no nominee and no rebalance. An accepted fee strategy, reserve denom, nominee, rebalance manager, pause with its expiry, release, or trade route with cooldown and limit is recorded exactly as given, keeping what the message does not name.",
  INP, "every accepted settings message and reachable contract state",
  "Tests read back some fields of some messages; that no field is dropped, swapped or altered is over every message and prior state.",
  ["contracts/core/src/contract.rs", CE + "gov/update.rs", CE + "gov/pause.rs"],
  [("instantiate", "contracts/core/src/contract.rs"), ("settings updates", CE + "gov/update.rs")],
  [("configuration", "governance, denoms and pause", CS + "config.rs"), ("fee policy", "collector, rates and streaming fee", CS + "fee.rs"), ("trade info", "routes, cooldown, limit and last trade per pair", CS + "rebalance.rs")],
  ["records after instantiate and execute: Gov"], "value-flow from message fields to stored fields")

AVAIL = "availability analysis: every refusing path contradicts the good case or names a stated reason"
P("C30", "A burn of held tokens is refused only for a stated reason",
  "A burn with exactly one non-zero coin of the index denom, while no rebalance runs and no pause is in force, with a valid recipient or none, succeeds unless more is burned than exists, a number leaves its range, or the accrued streaming fee exceeds what there is. In particular it does not depend on who burns, how much, who receives, on the fee policy being set or not, or on the basket.",
  INP, ANYSTATE,
  "That nobody is locked out of redeeming is a statement about every refusing path; tests check some that must refuse.",
  [CE + "token.rs", CE + "mod.rs"], [("burn", CE + "token.rs")],
  [("total supply", "tokens in existence", CS + "mod.rs"), ("basket units", "amount of each asset per token", CS + "units.rs")],
  ["execute: Burn, result"], AVAIL)
P("C31", "A mint that is paid for is refused only for a stated reason",
  "A mint of a non-zero amount, while no rebalance runs and no pause is in force, with valid addresses or none, succeeds unless a coin a unit needs is missing or short, a coin no unit needs is attached, a number leaves its range, or the accrued streaming fee exceeds what there is. Exact payment is enough.",
  INP, ANYSTATE,
  "Tests try a few payments; that exact payment always suffices, for every basket and fee policy, is over all of them.",
  [CE + "token.rs", CS + "units.rs"], [("mint", CE + "token.rs")],
  [("basket units", "amount of each asset per token", CS + "units.rs")],
  ["execute: Mint, result"], AVAIL)
P("C32", "The governance and the collector are never locked out",
  "Messages by the governance, with valid addresses, in the phase they belong to (pause while none is in force and until a later time, release while one is, nominate while none is nominated, revoke while one is, fee strategy within its bounds and reserve denom while no rebalance runs, manager while one runs, non-empty trade routes), the nominee's acceptance, and the collector's realization of fees are refused only for numbers out of range. An expired pause does not stand in the way of a new one.",
  INP, ANYSTATE,
  "Tests show that wrong senders are refused; that the right one never is, in any state, is over all states.",
  [CE + "gov/mod.rs", CE + "gov/update.rs", CE + "fee.rs"], [("governance messages", CE + "gov/mod.rs"), ("realize", CE + "fee.rs")],
  [("governance address", "the only sender allowed to change settings", CS + "config.rs"), ("pause", "until when minting and burning stop", CS + "config.rs")],
  ["execute: Gov and Realize, result"], AVAIL)
P("C33", "Rebalance messages within their limits are refused only for stated reasons",
  "A plan by the governance is refused only if it is empty where it must not be, names a denom twice, deflates a denom not in the basket or to more than there is, or has a zero weight. A trade by the manager (anyone if none) is refused only if its pair has no routes, its cooldown is not over (when it is exactly over, it is), its amount is strictly above the limit or what is open, the quote is strictly beyond what the caller allows, the target is not part of the plan, or the chain does not answer. A finalization by the manager is refused only while a target is strictly exceeded or reserve units are left.",
  INP, ANYSTATE,
  "The limits' exact boundaries and the absence of any other obstacle are over all amounts, times and states.",
  [CE + "rebalance/init.rs", CE + "rebalance/trade/deflate.rs", CE + "rebalance/trade/inflate.rs", CE + "rebalance/finalize.rs", CS + "rebalance.rs"],
  [("plan validation", CS + "rebalance.rs"), ("trade limits", CE + "rebalance/trade/mod.rs")],
  [("rebalance record", "plan in progress", CS + "rebalance.rs"), ("trade info", "routes, cooldown, limit and last trade per pair", CS + "rebalance.rs")],
  ["execute: Rebalance, result"], AVAIL)
P("C34", "Queries of the index contract are answered unless for a stated reason",
  "Every query is answered, except: a page larger than the most allowed, a time before the last settlement, a simulated mint of nothing or one whose payment is missing, short or foreign, a simulated burn of more than exists, a bank that does not answer, numbers out of range, or a record every instance has being absent.",
  INP, "every query message and reachable state",
  "Tests ask on well-filled states; empty and partly set states are where queries abort.",
  ["contracts/core/src/query.rs", "contracts/core/src/contract.rs"], [("queries", "contracts/core/src/query.rs")], [],
  ["the query entry point: result"], AVAIL)
P("C35", "The index contract's events report what the message did",
  "Every successful message reports its method and sender, and where it names them: the receiver, refund and redemption addresses used, the amount minted, the amount really burned, the pause's expiry, the nominated or accepted governance, the denom, pair, cooldown and limit set, the manager, and for a trade its target, whether it is the reserve denom, and the amounts booked as spent and gained, each as the value that was used or recorded, under its own key.",
  INP, ANYSTATE,
  "Indexers rely on events for every message; tests compare attributes of a few.",
  [CE + "token.rs", CE + "gov/mod.rs", CE + "gov/update.rs", CE + "rebalance/trade/mod.rs", "contracts/core/src/contract.rs"], [("response attributes", CE + "token.rs")], [],
  ["attributes of the responses of execute, instantiate and reply"], "value-flow agreement of events with state and messages")
P("C36", "A rebalance that was started can always be brought to an end",
  "From every reachable state with a rebalance in progress there is a sequence of trades after which finalization succeeds.",
  ["histories", "schedules"], "every reachable rebalance state, market price and liquidity",
  "Reachability of completion depends on unbounded histories and on the market.",
  [CE + "rebalance/finalize.rs", CE + "rebalance/trade/mod.rs"],
  [("completion check", CE + "rebalance/finalize.rs")],
  [("reserve units", "reserve asset earmarked per target", CS + "mod.rs")],
  ["execute: Rebalance"])
NOT_APPLICABLE["C36"] = "Liveness over market prices and rounding: whether a sequence of trades reaches the targets depends on runtime amounts, quotes and liquidity that no static argument in reach can bound (an open rest worth less than one base unit cannot be traded). C16 (completion), C27 (a full trade leaves no remainder) and C33 (trades and finalization within limits are not refused) decide what the source settles."
P("C37", "Records written by the deployed index contract stay readable",
  "Every record the deployed contract has written is read back by this code: each is kept under the same namespace, as the same kind of cell and under the same key encoding; every field once written is still known and of a type that reads what was written; and no field is required that an earlier record may lack.",
  ["histories", "configurations"], "every record an earlier version may have stored",
  "Migration converts nothing, so code and stored state must agree across versions; tests start from empty storage.",
  [CS + "mod.rs", CS + "fee.rs", CS + "config.rs", CS + "pause.rs", CS + "rebalance.rs", CS + "units.rs"], [("stored cells", CS + "mod.rs")],
  [("stored records", "every cell of the contract", CS + "mod.rs")], ["storage keys and JSON of the stored records"], "type-level structural comparison of stored layouts with the deployed ones",
  "The deployed layout is pinned in sa/rules/upgrade.py from the pinned commit; fields may be added if optional.")
P("C38", "The index contract can be set up and upgraded",
  "Instantiation with valid addresses and fees within bounds is refused only if a denom is named twice; the reply to the denom's creation with readable data is accepted; a forced migration is always accepted, and one not forced is refused only if there is no version on record, it is another contract's, either version is no version, or the new one is not newer.",
  ["inputs", "configurations"], "every instantiate message, reply, stored version and migration",
  "An upgrade that is refused leaves the contract as it is for good; tests cover one version pair.",
  ["contracts/core/src/contract.rs", "packages/utils/src/lib.rs", CS + "fee.rs"], [("entry points", "contracts/core/src/contract.rs"), ("version check", "packages/utils/src/lib.rs")], [],
  ["instantiate, reply and migrate: result"], "availability analysis: every refusing path contradicts the good case or names a stated reason")
