"""Properties of the airdrop contract, the periphery, the pool math and the interface."""
TABLE = []
NOT_APPLICABLE = {}
AE = "contracts/airdrop/src/execute/"
AS = "contracts/airdrop/src/"
INP = ["inputs", "histories"]
ANY = "every caller, message, attached funds, block and reachable airdrop state"
REC = ("airdrop records", "terms, funding, amount claimed and closing of each airdrop", AS + "state.rs")
LOG = ("claim log", "amount paid per airdrop and claim key", AS + "state.rs")
EXE = ["airdrop execute entry point: result, storage diff and messages"]


def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), tech=None, note=None):
    TABLE.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, state=state, observe=observe, tech=tech, note=note))


P("A01", "An airdrop claim key can be claimed at most once",
  "A claim succeeds only if its key (the validated claimer address for an open airdrop, the claim hash for a bearer airdrop) has not been claimed in that airdrop before, whether the airdrop is named by id or label and the claimer by account or as the sender, and it records exactly that key. Nothing ever removes or changes a recorded claim otherwise.",
  INP, ANY,
  "Tests repeat one claim immediately; double spending through another naming of the same airdrop or claimer, or after other messages, is a statement over all histories.",
  [AE + "claim.rs", AS + "state.rs"], [("claim guard and claim log", AE + "claim.rs")], [LOG, REC], EXE, "typestate of the claim log")
P("A02", "Claims pay only against a valid Merkle proof, bearer ones also a signature",
  "A claim succeeds only on an airdrop of its own kind and only if the proof folds the leaf sha256(key:amount), hashing sorted pairs, to the airdrop's registered root; a bearer claim only if also the airdrop's registered signer key signed sha256(hash/claimer/amount).",
  INP, ANY + ", every proof and signature",
  "Tests try a handful of proofs and signatures; the guarantee is that no path pays without the verification, bound to this key, amount, claimer and airdrop.",
  [AE + "claim.rs", AS + "verify.rs"], [("proof and signature verification", AS + "verify.rs")], [REC], EXE, "must-verify value-flow")
P("A03", "A claim pays exactly its amount and airdrops never pay beyond their funds",
  "A claim pays exactly the claimed amount in the airdrop's denom to the claimer, adds it to the total claimed and logs it, and succeeds only if the total claimed stays within the total funded. The total claimed starts at zero and changes only through claims; no message other than claiming and closing sends anything.",
  INP, ANY,
  "Solvency over several airdrops sharing one balance is an invariant over histories.",
  [AE + "claim.rs", AE + "close.rs", AE + "fund.rs", AE + "register.rs"], [("payment and total", AE + "claim.rs")], [REC, LOG], EXE, "conservation of value-flow")
P("A04", "Only the creator closes an airdrop, once, and gets exactly the rest",
  "Closing succeeds only for the recorded creator on an open airdrop, pays exactly the unclaimed rest in the airdrop's denom to the creator, and marks it closed at the current height, changing nothing else. A closed airdrop can never be claimed, funded, closed or opened again.",
  INP, ANY,
  "Tests close once; that no later message reaches a closed airdrop is over every message and naming.",
  [AE + "close.rs", AE + "claim.rs", AE + "fund.rs"], [("closing", AE + "close.rs")], [REC], EXE, "typestate and authority of closing")
P("A05", "Funding is by the creator and adds exactly the coin sent",
  "Funding succeeds only for the recorded creator of an open airdrop, and only with exactly one coin of the airdrop's denom, whose amount is added to the total; nothing else changes.",
  INP, ANY,
  "Tests try a few coin lists; crediting more than was received is a matter of every list of coins.",
  [AE + "fund.rs"], [("funding", AE + "fund.rs")], [REC], EXE, "conservation of value-flow")
P("A06", "Registration gives a fresh id, a unique creator label and proven terms",
  "A registration saves one open airdrop under the next sequential id with the sender as creator, the given denom, root (32 bytes of hex) and current height, funded with exactly the one coin sent; a label is recorded in the sender's own namespace and only if unused; a bearer airdrop records the given key, the address derived from it, and requires that key's signature over the address. Ids and labels change only by registration.",
  INP, ANY,
  "Uniqueness of ids and labels is over all registrations in any order.",
  [AE + "register.rs", AS + "state.rs", AS + "verify.rs"], [("registration", AE + "register.rs"), ("label uniqueness", AS + "state.rs")],
  [REC, ("latest id", "id of the next airdrop", AS + "state.rs"), ("labels", "airdrop named by each label", AS + "state.rs")], EXE, "freshness and provenance of registered records")
P("A07", "Claim verification queries agree with what claiming verifies",
  "For a claim naming its account, the verification query answers valid exactly when the airdrop is open, the Merkle proof of the claim's key and amount holds against its root and, for bearer claims, the signature over hash, account and amount holds; with a negative answer one of these fails. (Whether the key was claimed already or funds suffice is not part of the answer.)",
  ["inputs"], "every claim payload and airdrop state",
  "Agreement of two code paths on every payload cannot be sampled.",
  [AS + "query/claim.rs", AE + "claim.rs", AS + "verify.rs"], [("verification query", AS + "query/claim.rs")], [REC], ["answer of the VerifyClaim query"], "two-path agreement of verification guards")
P("A08", "The terms of an airdrop never change and records are never lost",
  "After registration, an airdrop's kind, creator, denom, root, label, signer, key and creation height never change; claims change only the total claimed, funding only the total, closing only the closing mark, each only of the airdrop named in the message. Records are never deleted, and a registration never overwrites one.",
  INP, ANY,
  "Frame conditions quantify over every message and field.",
  [AE + "claim.rs", AE + "close.rs", AE + "fund.rs", AE + "register.rs", AS + "airdrop.rs"], [("record updates", AE + "fund.rs")], [REC], EXE, "frame analysis of record writes")
P("A09", "Airdrop queries report the records faithfully and change nothing",
  "Airdrop, claim and label queries and listings report exactly what is recorded for the airdrop, claim key, label, type or creator asked for, and write nothing.",
  ["inputs", "histories"], "every query and airdrop state",
  "Tests query a few records.",
  [AS + "query/airdrop.rs", AS + "query/claim.rs", AS + "query/label.rs", AS + "airdrop.rs", AS + "state.rs"], [("queries", AS + "query/airdrop.rs"), ("indexes", AS + "state.rs")], [REC, LOG], ["airdrop query entry point"], "value-flow of query answers")
P("A10", "Airdrop migration only moves the same contract to a newer version",
  "An unforced migration succeeds only from the same contract with an older recorded version; every migration records the contract's own name and version and changes nothing else, and no other message changes them.",
  ["histories", "configurations"], "every recorded name and version, forced or not",
  "Tests migrate from one version.",
  [AS + "contract.rs", "packages/utils/src/lib.rs"], [("migration", AS + "contract.rs")], [("contract version", "name and version on record", AS + "contract.rs")], ["airdrop migrate entry point"], "must-guards of migration")
P("A11", "Each airdrop record type has a storage key of its own",
  "Airdrops, the next id, labels, the claim log, their indexes and the version are kept under distinct constant keys, each holding records of one type; both indexes refer to the airdrop records.",
  ["programs", "histories"], "every storage access of every entry point",
  "A collision shows only when particular keys meet.",
  [AS + "state.rs"], [("storage layout", AS + "state.rs")], [REC, LOG], ["storage keys used by the airdrop contract"], "storage-layout typing")
P("A12", "A failing airdrop payout reverts the claim or closing",
  "No payment of the airdrop contract is sent in a way that lets the operation succeed although the payment fails.",
  ["inputs", "fault_sequences"], "every entry point and every failing payment",
  "Tests never make a payment fail.",
  [AE + "claim.rs", AE + "close.rs"], [("payments", AE + "claim.rs")], [LOG], ["reply modes of sent messages"], "effect analysis of sub-message reply modes")
P("A13", "Airdrop messages in good order are refused only for stated reasons",
  "Funding an open airdrop by its creator with exactly one non-zero coin of its denom, closing it by its creator, a claim by a fresh key with a proof that leads to the root (and for bearer claims a good signature) on an open airdrop of its kind, and a registration with one non-zero coin of its denom, a 32-byte root and, for bearer airdrops, a key that signed, all succeed, whether the airdrop is named by id or label, unless numbers leave their range, the claim exceeds what is left (claiming exactly the rest is allowed), or the label is taken.",
  INP, ANY,
  "That no rightful claimer is locked out is a statement about every refusing path; tests check some that must refuse.",
  [AE + "claim.rs", AE + "fund.rs", AE + "close.rs", AE + "register.rs"], [("refusals of the messages", AE + "claim.rs")], [REC, LOG], ["airdrop execute entry point: result"], "availability analysis: every refusing path contradicts the good case or names a stated reason")
P("A14", "Airdrop queries are answered unless for a stated reason",
  "Every query is answered, except: the airdrop, label or claim asked for does not exist, an address given is not valid, a page larger than the most allowed, and for the verification of a claim an airdrop of the other kind, a missing account, or a proof or signature that is no hex text.",
  INP, "every query message and reachable airdrop state",
  "Tests ask on well-filled states; missing and partly set records are where queries abort.",
  [AS + "query/airdrop.rs", AS + "query/claim.rs", AS + "query/label.rs"], [("queries", AS + "query/airdrop.rs")], [REC, LOG], ["airdrop query entry point: result"], "availability analysis: every refusing path contradicts the good case or names a stated reason")
P("A15", "The airdrop contract's events report what the message did",
  "Every successful message reports its action, sender, airdrop id and kind, and where it names them: the amount funded, the rest redeemed by closing, the claimer and amount of a claim, the signer of a bearer airdrop, and the root, total and label of a registration, each as the value that was recorded or paid, under its own key.",
  INP, ANY,
  "Indexers rely on events for every message; tests compare attributes of a few.",
  [AE + "claim.rs", AE + "fund.rs", AE + "close.rs", AE + "register.rs"], [("response attributes", AE + "register.rs")], [REC], ["attributes of the responses of the airdrop execute entry point"], "value-flow agreement of events with state and messages")

P("A16", "Records written by the deployed airdrop contract stay readable",
  "Every record the deployed contract has written is read back by this code: each is kept under the same namespace, as the same kind of cell and under the same key encoding; every field once written is still known and of a type that reads what was written; and no field is required that an earlier record may lack.",
  ["histories", "configurations"], "every record an earlier version may have stored",
  "Migration converts nothing, so code and stored state must agree across versions; tests start from empty storage.",
  ["contracts/airdrop/src/state.rs", "contracts/airdrop/src/airdrop.rs"], [("stored cells", "contracts/airdrop/src/state.rs")], [REC, LOG], ["storage keys and JSON of the stored records"], "type-level structural comparison of stored layouts with the deployed ones")
P("A17", "The airdrop contract can be set up and upgraded",
  "Instantiation is always accepted, as is a forced migration; one not forced is refused only if there is no version on record, it is another contract's, either version is no version, or the new one is not newer.",
  ["inputs", "configurations"], "every instantiate message, stored version and migration",
  "An upgrade that is refused leaves the contract as it is for good; tests cover one version pair.",
  ["contracts/airdrop/src/contract.rs", "packages/utils/src/lib.rs"], [("entry points", "contracts/airdrop/src/contract.rs")], [], ["instantiate and migrate: result"], "availability analysis: every refusing path contradicts the good case or names a stated reason")


PE = "contracts/periphery/src/execute.rs"
PQ = "contracts/periphery/src/query.rs"
PL = "contracts/periphery/src/lib.rs"
PS = "packages/pool/src/sim/"
PF = "packages/interface/src/periphery.rs"
PANY = "every caller, message, route list, attached funds, and answer of the named core and of the pools"
PEXE = ["periphery execute entry point: result and messages, in order"]
PQRY = ["periphery query entry point: answers"]
BAL = ("contract balance", "tokens held by the periphery during an operation", "contracts/periphery/src/execute.rs")

P("P01", "Only the periphery itself can pay out its balance, all of it",
  "FinishOperation succeeds only when the contract itself is the sender, and makes exactly one payment: its whole balance of the named asset, as reported by the bank at that moment, to the validated refund address.",
  INP, PANY,
  "Whether another caller, spelling or path reaches the payout is a question about every message, not the few senders a test tries.",
  [PE], [("finish_operation", PE)], [BAL], PEXE, "must-authority and value-flow of the payout")
P("P02", "Every periphery trade ends by returning all the rest to the sender",
  "Every operation's last messages are the contract's own FinishOperation calls, refunding to the sender: the input asset for mints, the output asset for burns, and also unburned index tokens for BurnExactAmountOut. Minted tokens and refunds of the mint go to the sender; redeemed assets come back to the contract to be swapped.",
  INP, PANY,
  "Funds left in the contract belong to whoever trades next: that none is left on any path is over all operations and routes.",
  [PE, PL], [("finish messages of the operations", PE)], [BAL], PEXE, "message-sequence automaton with value-flow")
P("P03", "A periphery trade takes exactly one non-zero coin of the right denom",
  "Mints succeed only with exactly one coin, non-zero, of the named input asset; burns only with exactly one non-zero coin of the named core's index denom.",
  INP, PANY,
  "A second coin would be kept by the contract; every list of coins has to be considered.",
  [PE], [("payment checks", PE)], [], PEXE, "must-guard on attached funds")
P("P04", "Periphery trades swap each needed unit once, by its route, in order",
  "A mint swaps, then mints on the named core, then finishes; a burn burns, then swaps, then finishes; nothing else is sent. For every portfolio unit of another denom than the traded one there is exactly one swap of that unit by the contract along the route given for this pair, hop by hop; the traded denom is never swapped. Mints use exact-output, burns exact-input swaps.",
  INP, PANY,
  "Tests swap through one or two fixed pools; a unit skipped or a route reversed shows only for particular portfolios and routes.",
  [PE, PS + "route.rs", PS + "index_in.rs", PS + "index_out.rs", "packages/interface/src/types.rs"], [("swap messages", PS + "route.rs"), ("route search", PS + "index_out.rs")], [], PEXE, "coverage of the unit list by message cases")
P("P05", "Periphery trades move exactly what the core requires or redeems",
  "Operations and quotes use only the named, validated core's current fee, units and denom. Mints fund the core with floor(amount x unit) of every unit, sorted by denom, and each swap obtains exactly that amount; MintExactAmountOut mints the amount asked for. BurnExactAmountIn burns all tokens paid. Each burn swap sells floor(net x unit), where net is the amount burned less the core's burn fee.",
  INP, PANY,
  "The equality between what is swapped for and what the core takes has to hold for every unit, amount and fee.",
  [PE, PL, PS + "index_in.rs", PS + "index_out.rs", "packages/interface/src/helpers/core.rs"], [("mint funding", PE), ("unit amounts", PS + "index_out.rs")], [], PEXE + PQRY, "value-flow equality between messages")
P("P06", "Periphery trades respect the user's limits",
  "MintExactAmountOut succeeds only if the simulated cost of all units is within the payment; MintExactAmountIn only if the amount minted less the mint fee is at least the minimum; BurnExactAmountIn only if the simulated proceeds are at least the minimum; BurnExactAmountOut burns at most the payment. Each swap's own limit is its simulated amount (along its own route, for its own amount) scaled by the trade's limit over the simulated total, rounded down: the payment, the total plus 10000, the minimum, and the total respectively.",
  INP, PANY,
  "A limit that is skipped, scaled by the wrong total or taken before the fee is wrong only for particular fees, prices and minimums.",
  [PE, PS + "mod.rs", PS + "route.rs"], [("limit checks", PE), ("per-swap limits", PS + "route.rs")], [], PEXE, "must-guard and value-flow of limits")
P("P07", "Periphery simulations quote what execution does",
  "SimulateMintExactAmountOut quotes cost and assets for the full amount and the minted amount net of the mint fee; SimulateBurnExactAmountIn quotes burn amount, redemptions and proceeds net of the burn fee. SimulateMintExactAmountIn and SimulateBurnExactAmountOut quote the simulated result of the amount searched for, the assets for that amount (less 100 for mints) and the amount after the mint fee or before the burn fee. Results are in the traded denom.",
  ["inputs"], PANY,
  "Quotes and execution are computed by different code; their agreement is a relation between two programs over all fees, units and amounts.",
  [PQ, PL, PS + "mod.rs"], [("simulation queries", PQ)], [], PQRY, "value-flow of the quotes")
P("P08", "The periphery keeps no state and migrates only forward",
  "No message or query of the periphery writes anything but instantiation and migration writing its name and version. Migration succeeds only for the contract's own name from a strictly older version, unless forced.",
  INP, "every message, stored version and migration message",
  "Version ordering is over all stored versions; absence of writes is over all paths.",
  ["contracts/periphery/src/contract.rs", "packages/utils/src/lib.rs"], [("entry points", "contracts/periphery/src/contract.rs")], [("contract info", "stored name and version", "contracts/periphery/src/contract.rs")], PEXE, "effect analysis; typestate of the version")
P("P09", "A failing step reverts the whole periphery operation",
  "Every message the periphery sends (swaps, mint, burn, finish) is sent so that its failure reverts the whole operation: none is answered on error.",
  ["fault_sequences", "inputs"], "every message and failure of any step",
  "Tests never fail a step in the middle; atomicity depends on how every message is sent.",
  [PE, PS + "route.rs"], [("messages of the operations", PE)], [BAL], PEXE, "effect analysis of submessages")
P("P10", "Periphery trades within their limits are refused only for stated reasons",
  "A trade paid with exactly one non-zero coin of the right denom, for a valid core address, is refused only if the chain, a pool, a route or a number cannot be read, a unit has no route, the search finds no amount, a number leaves its range, or an amount is strictly beyond a limit of the user: meeting a limit exactly is enough. FinishOperation sent by the contract itself with a valid refund address always succeeds if the bank answers.",
  INP, PANY,
  "The limits' exact boundaries and the absence of any other obstacle are over all amounts, fees and prices.",
  [PE], [("limit checks", PE)], [], ["periphery execute entry point: result"], "availability analysis: every refusing path contradicts the good case or names a stated reason")
P("P11", "Every periphery trade and quote takes the fee of its own kind",
  "What minting trades and their simulations do and answer depends on the core's mint fee and never on its burn fee; what burning ones do and answer depends on its burn fee and never on its mint fee.",
  ["inputs"], "every trade and simulation, and every combination of fees",
  "With equal or no fees, as in tests, a mix-up does not show.",
  [PE, PQ, PL], [("fee handling", PE)], [], PEXE + PQRY, "dependence analysis from queried fees to outcomes")
P("P12", "The periphery's events report what the trade did",
  "Every successful trade reports its method and sender, the coin paid (or the most that may be spent) and the output asked for or minted net of the fee, the refund, the minimum, and FinishOperation the recipient, asset and amount paid out, each as the value that is paid, burned, minted or given, with its own denom, under its own key.",
  INP, PANY,
  "Front ends rely on events for every trade; tests compare attributes of a few.",
  [PE], [("response attributes", PE)], [], ["attributes of the responses of the periphery execute entry point"], "value-flow agreement of events with messages")
P("P13", "Periphery quotes are refused only for stated reasons",
  "A simulated trade for a valid core address is answered unless the chain, a pool, a route or a number cannot be read, a unit has no route, the search finds no amount, or a number leaves its range; no comparison of the amounts involved refuses it.",
  INP, PANY,
  "Where a quote stops being given is over all amounts, fees and prices; tests ask for a few.",
  [PQ], [("simulations", PQ)], [], ["periphery query entry point: result"], "availability analysis: every refusing path contradicts the good case or names a stated reason")
P("P14", "The periphery contract can be set up and upgraded",
  "Instantiation is always accepted, as is a forced migration; one not forced is refused only if there is no version on record, it is another contract's, either version is no version, or the new one is not newer.",
  ["inputs", "configurations"], "every instantiate message, stored version and migration",
  "An upgrade that is refused leaves the contract as it is for good; tests cover one version pair.",
  ["contracts/periphery/src/contract.rs", "packages/utils/src/lib.rs"], [("entry points", "contracts/periphery/src/contract.rs")], [], ["instantiate and migrate: result"], "availability analysis: every refusing path contradicts the good case or names a stated reason")

# ---------------------------------------------------------------- pool, math
PW, PIN, POUT, PM = "packages/pool/src/weighted.rs", PS + "index_in.rs", PS + "index_out.rs", "packages/math/src/pow.rs"
SIMO = ["ibcx-pool simulator: estimates and searches"]
POOLO = ["ibcx-pool pools: amounts returned by swaps and pool state after"]
PALL = "every pool state, amount, spread factor and weight"
P("M01", "Weighted pool swaps follow the pool invariant, rounded for the pool",
  "A weighted pool's exact-input swap gives balance_out x (1 - (balance_in / (balance_in + input x (1 - spread)))^(w_in / w_out)), rounded down; its exact-output swap takes balance_in x ((balance_out / (balance_out - output))^(w_out / w_in) - 1) / (1 - spread), rounded up. Nothing else is rounded to whole units but the input after the spread, down.",
  ["inputs"], PALL,
  "The formula is an identity over all balances, weights and amounts; the pool's own tests only print what they compute.",
  [PW, PM], [("invariant solving", PW)], [], POOLO, "exact rational-function identity of the value-flow; rounding-direction analysis")
P("M02", "Simulated swaps move pool balances and later swaps see them",
  "A simulated swap on a weighted pool adds the input to and takes the output from exactly the two traded balances, changing nothing else. Within one estimate every hop of every unit is simulated on its pool as the hops before it left it, the first on the pools as given.",
  ["histories", "inputs"], PALL + ", routes sharing pools within and across units",
  "That one swap's effect reaches the next needs routes that share a pool; quotes are wrong only then, by amounts no fixed expectation shows.",
  [PW, PIN, POUT], [("new pool balances", PW), ("pool map of an estimate", PIN)], [("simulated pools", "balances of the pools during one estimate", PIN)], POOLO + SIMO, "state-transition analysis; loop-carried dataflow")
P("M03", "A pool quotes under its own id and spread; others ask the chain",
  "A pool's id and spread factor are those of its own record. Stable and concentrated pools return the chain's own estimate for that pool id, in the swap's direction, for exactly the coin and denom asked.",
  ["inputs"], "every pool record, coin and denom",
  "Tests need a chain to answer estimates; a request for the wrong direction or denom still gets a plausible answer.",
  ["packages/pool/src/stable.rs", "packages/pool/src/concentrated.rs", PW, "packages/interface/src/types.rs"], [("delegated quotes", "packages/pool/src/stable.rs")], [], POOLO, "value-flow of the estimate requests")
P("M04", "Index estimates sum every unit along its own route",
  "An estimate for an index amount lists one step per portfolio unit, in order, of floor(amount x unit) of its denom along the route given for that pair (reversed for mints), the traded denom itself without a swap, and its total is the sum of all steps. It echoes the amount asked for.",
  ["inputs"], "every list of units, routes and pools, and every amount",
  "A unit left out, doubled or priced along another's route depends on particular portfolios and route lists.",
  [PIN, POUT, PS + "mod.rs"], [("estimates", PS + "mod.rs")], [], SIMO, "coverage of the unit list; fold invariants")
P("M05", "Powers are the integer power times a binomial series below 10^-8",
  "pow(base, exp) succeeds only for bases above zero and below two and returns base for exponent one, otherwise base^floor(exp) times the binomial series of base^(exp - floor(exp)), summed with its signs until a term is below 10^-8.",
  ["inputs"], "every base and exponent, every number of rounds",
  "Tests sample six pairs; that the loops compute the power for every exponent is an induction over their rounds.",
  [PM], [("integer power and series", PM)], [], ["ibcx-math pow: result"], "loop-invariant induction over exact rational functions",
  "Decimal rounding inside each multiplication is not bounded.")
P("M06", "Amount searches end, close to and never above what is desired",
  "A search for the index amount that a desired input pays or a desired output needs ends within 256 rounds, and returns an amount together with its own total and steps, the total at most the desired amount and less than 5000 below it; otherwise it fails.",
  ["inputs"], "every desired amount, starting amount, pool state and price",
  "Convergence depends on prices; that every returned result satisfies the bounds holds over all of them.",
  [PIN, POUT], [("amount searches", POUT)], [], SIMO, "loop-bound and must-guard analysis")
P("M07", "Queried pools are asked by id, in order, and read as their own kind",
  "query_pools asks the chain for every id given, in order, fails if any answer is an error, and reads an answer as a weighted, stable or concentrated pool exactly when the chain's type says so.",
  ["inputs"], "every list of ids and every answer of the chain",
  "Kinds are told apart by encoded prefixes whose alignment with the JSON text tests never vary.",
  ["packages/pool/src/query.rs"], [("kind prefixes", "packages/pool/src/query.rs")], [], ["ibcx-pool query_pools: pools returned"], "bit-exact prefix analysis of the kind guards")
P("M08", "Revised estimates stay between the amount found and the limit",
  "An estimate for a desired input or output returns the searched amount; given a minimum (maximum) index amount it fails if the one found is below (above), and else adds an estimate for the amount a third, or the part given, of the way to the limit, with its own total and steps. Without a limit nothing is added.",
  ["inputs"], "every desired amount, limit, tolerance, portfolio and price",
  "Which branch is taken and what the steps belong to varies with prices and limits tests do not sample.",
  [PS + "mod.rs"], [("estimates with limits", PS + "mod.rs")], [], SIMO, "must-guard and value-flow")
P("M09", "Amount searches go on by proportion and take the first amount close enough",
  "An amount search starts from the amount given (or a fixed one) and its own total; every round tries the last amount times the desired total over the last total, with that amount's own total; and no round whose total is at most the desired one and less than 5000 below it is passed over.",
  ["inputs"], "every desired amount, starting amount, pool state and price",
  "How a search proceeds shows only in the number of rounds it takes, and whether it ends at all depends on prices tests do not sample.",
  [PIN, POUT], [("amount searches", PIN)], [], SIMO, "loop-invariant value-flow over the rounds of the search")

# ---------------------------------------------------------------- interface, SDK
IL, IT, IP, IH = ("packages/interface/src/" + x for x in ("lib.rs", "types.rs", "periphery.rs", "helpers/core.rs"))
TSD = "ts/sdk/src/contracts/"
TSF = [TSD + a + b for a in ("Core", "Airdrop", "Periphery") for b in (".client.ts", ".message-composer.ts", ".react-query.ts", ".types.ts")]
ANYQ = "every stored set of records, start, limit and order"
P("I01", "Listings page through all records, in order, without gaps or repeats",
  "A listing starts right after the record named by start_after (at the range's end if none), in ascending order unless descending is asked (then right before it), and gives the next limit records, 10 unless given, each once, skipping none; a limit above 30 is refused, up to 30 accepted.",
  ["histories", "inputs"], ANYQ,
  "Tests store a handful of records; repeats or gaps appear at page boundaries, in one order only.",
  [IL, IT, "contracts/airdrop/src/query/mod.rs", "contracts/core/src/query.rs"], [("page bounds", IL)], [REC], ["query entry points: List* answers"], "range-bound analysis of every storage range behind a listing")
P("I02", "Every query answers in the shape the interface declares for it",
  "Every query variant a contract takes is answered, and the JSON structure of the answer is that of the type the interface's QueryMsg declares with #[returns] for that variant.",
  ["inputs"], "every query of the three contracts and every state",
  "Tests read answers back with the type the code happens to return; callers generated from the schema use the declared one.",
  ["packages/interface/src/core.rs", "packages/interface/src/airdrop.rs", IP, "contracts/core/src/contract.rs"], [("declared answers", IP)], [], ["query entry points: JSON structure of answers"], "structural comparison of serialised types on every answering path",
  "The declared types are read from the schema generator the derive macro emits.")
P("I03", "Routes keep every hop, in order, from compact text to swap message",
  "A compact route is read as its pair (text before and after the comma) and hops (pool number, denom), one by one in order; routes, hops and chain messages built from them keep every hop in order. Pool ids of routes are each listed once, ascending. A swap message or estimate names the direction, coin, limit and hops given; an estimate asks under the first hop's pool and returns the chain's amount.",
  ["inputs"], "every list of routes, hop, coin and limit",
  "Tests use one hop; reversed or dropped hops and repeated pools need several.",
  [IP, IT], [("compact routes", IP), ("swap messages", IT)], [], ["route conversions, swap messages and estimates of ibcx-interface"], "element-wise value-flow of the conversions",
  "A text split at a comma is taken to have exactly two parts.")
P("I04", "The SDK's types are the contracts' messages and answers on the wire",
  "The TypeScript SDK's InstantiateMsg, ExecuteMsg, QueryMsg and MigrateMsg have exactly the JSON structure each contract's entry points take (variant and field names, types, which fields may be left out), and each query method's answer type is the structure the contract declares for that query.",
  ["programs"], "every message and answer the types admit",
  "No test compiles the SDK; a drifted type breaks only callers of the field concerned.",
  [x for x in TSF if x.endswith("types.ts")] + ["packages/interface/src/core.rs"], [("message types", TSF[3])], [], ["ts/sdk types"], "structural comparison of TypeScript types with serde types read from the compiler",
  "The TypeScript sources are read through the TypeScript compiler's type checker.")
P("I05", "Interface helpers ask and tell the named contract exactly what is given",
  "IbcCore and IbcPeriphery send the given message, in that contract's own execute format, with exactly the given coins (none for call) to the address they wrap; their queries ask that address the query of the method's name with every argument given, and read the answer as the type declared for it.",
  ["inputs"], "every address, message, coins and arguments",
  "Tests of the callers fix arguments; a dropped optional argument or coin goes unseen.",
  [IH, "packages/interface/src/helpers/periphery.rs"], [("calls", IH)], [], ["messages and queries built by the helpers"], "value-flow of arguments into messages; structural comparison of message types")
P("I06", "SDK clients, composers and hooks send exactly what the caller gives",
  "Every message and query has its method: clients send it to the object's contract (from its sender, with the fee (\"auto\" unless given), memo and funds given), composers wrap it in a MsgExecuteContract of that sender, contract and funds, each carrying every field from the caller's argument of that name. A hook asks its own query with all the caller's arguments, under a key distinct per query, contract and arguments.",
  ["inputs", "programs"], "every method, argument, sender and contract",
  "The SDK has no tests; a field sent under another's name or a key shared by two questions shows only for particular arguments.",
  [x for x in TSF if not x.endswith("types.ts")], [("execute methods", TSF[0]), ("hook keys", TSF[2])], [], ["messages, queries and cache keys built by ts/sdk"], "symbolic value-flow over the TypeScript syntax tree",
  "Methods are read by a small abstract interpreter of the TypeScript AST; what it cannot read fails closed.")
P("I07", "Every outcome is the same on every node",
  "The state written, the messages sent, the answer given and whether a message is refused depend on the chain's state, the message and its environment alone: nothing follows the order of a hash table, and nothing is computed in floating point.",
  ["inputs", "schedules"], "every message, query and state of the three contracts",
  "Nodes that disagree halt; hash order differs between runs of the same test binary only by chance.",
  ["packages/interface/src/periphery.rs", PE, PQ], [("pool ids", "packages/interface/src/periphery.rs")], [], ["every outcome of every entry point"], "nondeterminism taint analysis over the outcomes of every entry point",
  "Clocks, randomness, addresses and thread state have no model in the analysis, so code that reads them fails closed.")
