"""Planted bugs in the interface package and the TypeScript SDK."""
from seeds_drop import DROP as DROPDEPS, PRE as DROPPRE
from seeds_peri import PRE as PERIPRE, PERI
from seeds_core import PRE as COREPRE, CORE

I = "packages/interface/src/"
T = "ts/sdk/src/contracts/"
SEEDS = {}


def S(id, property, needs, breaks, edits, demo, pre=PERIPRE, deps=PERI):
    SEEDS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=pre + demo, deps=deps)


def J(id, property, needs, breaks, edits, demo):
    SEEDS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, js=JS + demo)


JS = r'''// runs the SDK's own sources, transpiled, against a chain that records what it is asked
const fs = require("fs"), path = require("path"), assert = require("assert"), Module = require("module");
const ts = ["/opt/veriftools/node/node_modules/typescript", "typescript"].map(x => { try { return require(x); } catch (e) { return null; } }).find(x => x);
const SRC = path.join(process.cwd(), "ts/sdk/src/contracts");
const STUBS = {
  "cosmjs-types/cosmwasm/wasm/v1/tx": { MsgExecuteContract: { fromPartial: x => x } },
  "@cosmjs/encoding": { toUtf8: x => Buffer.from(x) },
  "@tanstack/react-query": { useQuery: (key, fn, options) => ({ key, fn, options }) },
};
const cache = {};
function load(file) {
  if (cache[file]) return cache[file];
  const out = ts.transpileModule(fs.readFileSync(file, "utf8"), { compilerOptions: { module: "commonjs", target: "es2019" } }).outputText;
  const m = { exports: {} };
  cache[file] = m.exports;
  const req = n => STUBS[n] || (n.startsWith(".") ? load(path.join(path.dirname(file), n + ".ts")) : {});
  new Function("require", "module", "exports", out)(req, m, m.exports);
  return m.exports;
}
const sdk = n => load(path.join(SRC, n + ".ts"));
const chain = () => { const seen = []; return { seen, queryContractSmart: async (a, m) => { seen.push([a, m]); return m; }, execute: async (...x) => { seen.push(x); return x; } }; };
const wire = x => JSON.parse(JSON.stringify(x));
// does a program using the SDK's types type-check?
function checks(text) {
  const file = path.join(SRC, "__demo.ts");
  const o = { strict: true, noEmit: true, target: ts.ScriptTarget.ES2019, module: ts.ModuleKind.CommonJS, types: [] };
  const h = ts.createCompilerHost(o), get = h.getSourceFile, read = h.readFile, has = h.fileExists;
  h.getSourceFile = (f, ...r) => f === file ? ts.createSourceFile(f, text, o.target) : get.call(h, f, ...r);
  h.fileExists = f => f === file || has.call(h, f);
  h.readFile = f => f === file ? text : read.call(h, f);
  const p = ts.createProgram([file], o, h);
  return ts.getPreEmitDiagnostics(p).map(d => ts.flattenDiagnosticMessageText(d.messageText, "\n"));
}
'''

S("i01_desc_inclusive", "I01", "a second page asked for in descending order",
  "pages in descending order start with the last record of the page before, again",
  [(I + "lib.rs", "Order::Descending => (None, start.map(Bound::exclusive)),", "Order::Descending => (None, start.map(Bound::inclusive)),")],
  r'''
fn main() {
    let mut d = setup();
    for i in 0..4 { open(&mut d, "boss", leaf("user", i), 10, None).unwrap(); }
    let page = |s: Option<u64>| { let r: ListAirdropsResponse = ask!(d, QueryMsg::ListAirdrops { option: ListAirdropsQueryOptions::ByID { start_after: s, limit: Some(2), order: Some(ibcx_interface::types::RangeOrder::Desc) } }).unwrap();
        r.0.iter().map(|a| match a { GetAirdropResponse::Open { id, .. } => *id, GetAirdropResponse::Bearer { id, .. } => *id }).collect::<Vec<_>>() };
    assert_eq!(page(None), vec![3, 2]);
    assert_eq!(page(Some(2)), vec![1, 0]);
}
''', DROPPRE, DROPDEPS)
S("i01_largest_page_refused", "I01", "a page of exactly the largest size",
  "a request for the largest page allowed is refused",
  [(I + "lib.rs", "if l <= max {", "if l < max {")],
  r'''
fn main() {
    let mut d = setup();
    let r: Result<ListAirdropsResponse, String> = ask!(d, QueryMsg::ListAirdrops { option: ListAirdropsQueryOptions::ByID { start_after: None, limit: Some(30), order: None } });
    assert!(r.is_ok(), "{:?}", r.err());
    let r: Result<ListAirdropsResponse, String> = query(d.as_ref(), at(50), QueryMsg::ListAirdrops { option: ListAirdropsQueryOptions::ByID { start_after: None, limit: Some(31), order: None } }).map_err(|e| e.to_string()).map(|b| from_json(&b).unwrap());
    assert!(r.is_err());
}
''', DROPPRE, DROPDEPS)
S("i01_no_limit_is_largest", "I01", "more than ten records and a request without a limit",
  "a request without a limit is answered with thirty records instead of ten",
  [(I + "lib.rs", "None => Ok(default),", "None => Ok(max.max(default)),")],
  r'''
fn main() {
    let mut d = setup();
    for i in 0..14 { open(&mut d, "boss", leaf("user", i), 10, None).unwrap(); }
    let r: ListAirdropsResponse = ask!(d, QueryMsg::ListAirdrops { option: ListAirdropsQueryOptions::ByID { start_after: None, limit: None, order: None } }).unwrap();
    assert_eq!(r.0.len(), 10);
}
''', DROPPRE, DROPDEPS)
S("i02_supply_as_coin", "I02", "a query of the total supply read as the interface declares it",
  "the total supply is answered as a coin where the interface declares an amount",
  [("contracts/core/src/query.rs", "pub fn get_total_supply(deps: Deps, _env: Env) -> StdResult<Uint128> {\n    Ok(TOTAL_SUPPLY.load(deps.storage)?)\n", "pub fn get_total_supply(deps: Deps, _env: Env) -> StdResult<cosmwasm_std::Coin> {\n    let Config { index_denom, .. } = CONFIG.load(deps.storage)?;\n    Ok(cosmwasm_std::coin(TOTAL_SUPPLY.load(deps.storage)?.u128(), index_denom))\n")],
  r'''
fn main() {
    let d = setup(fee(None, None), &[("a", "1.0")], 77);
    let b = query(d.as_ref(), at(0), QueryMsg::GetTotalSupply {}).unwrap();
    let x: Uint128 = cosmwasm_std::from_json(&b).unwrap();
    assert_eq!(x, Uint128::new(77));
}
''', COREPRE, CORE)
S("i03_hops_reversed", "I03", "a route of two hops or more",
  "the hops of a route written compactly are read in the reverse order",
  [(I + "periphery.rs", "        let routes: Vec<_> = v\n            .routes\n            .into_iter()\n", "        let routes: Vec<_> = v\n            .routes\n            .into_iter()\n            .rev()\n")],
  r'''
fn main() {
    let i: SwapInfo = SwapInfoCompact::new("a,c", &["1,b", "2,c"]).into();
    assert_eq!(i, SwapInfo((RouteKey(("a".into(), "c".into())), SwapRoutes(vec![SwapRoute::new(1, "b"), SwapRoute::new(2, "c")]))));
}
''')
S("i03_pool_ids_adjacent", "I03", "two routes sharing a pool with another pool between",
  "pool ids are freed of repetitions before they are sorted, so a pool is listed twice",
  [(I + "periphery.rs", "        .collect::<HashSet<_>>()\n        .into_iter()\n        .collect::<Vec<_>>();\n\n    pool_ids.sort();\n", "        .collect::<Vec<_>>();\n\n    pool_ids.dedup();\n    pool_ids.sort();\n"),
   (I + "periphery.rs", "use std::collections::HashSet;\n", "")],
  r'''
fn main() {
    let v: Vec<SwapInfo> = infos(&[("a,b", &["3,b"]), ("a,c", &["1,b", "3,c"])]).into();
    assert_eq!(extract_pool_ids(v), vec![1, 3]);
}
''')
S("i03_estimate_last_pool", "I03", "an exact-input estimate along a route of two hops or more",
  "the chain is asked for an estimate under the pool of the route's last hop",
  [(I + "types.rs", "            self.0.first().unwrap().pool_id,\n            token_in.to_string(),", "            self.0.last().unwrap().pool_id,\n            token_in.to_string(),")],
  r'''
fn main() {
    use osmosis_std::types::osmosis::poolmanager::v1beta1::EstimateSwapExactAmountInRequest;
    struct E;
    impl Querier for E { fn raw_query(&self, b: &[u8]) -> QuerierResult { match from_json::<QueryRequest<Empty>>(b).unwrap() {
        QueryRequest::Stargate { data, .. } => { #[allow(deprecated)] let r = EstimateSwapExactAmountInRequest::try_from(data).unwrap(); #[allow(deprecated)] let p = r.pool_id; SystemResult::Ok(ContractResult::Ok(Binary::from(format!("{{\"token_out_amount\":\"{}\"}}", p).into_bytes()))) }
        _ => unreachable!() } } }
    let r: SwapRoutes = vec![(7u64, "b"), (9u64, "c")].into();
    let x = r.sim_swap_exact_in(&QuerierWrapper::new(&E), "me", coin(5, "a")).unwrap();
    assert_eq!(x, Uint128::new(7));
}
''')
S("i05_time_not_passed", "I05", "a burn simulated through the helper for a later time",
  "the helper simulates a burn for the current time whatever time is asked",
  [(I + "helpers/core.rs", "let msg = QueryMsg::SimulateBurn { amount, time };", "let msg = QueryMsg::SimulateBurn {\n            amount,\n            time: time.filter(|_| amount.is_zero()),\n        };")],
  r'''
fn main() {
    use ibcx_interface::helpers::IbcCore;
    struct E(std::cell::RefCell<String>);
    impl Querier for E { fn raw_query(&self, b: &[u8]) -> QuerierResult { if let Ok(QueryRequest::Wasm(WasmQuery::Smart { msg, .. })) = from_json::<QueryRequest<Empty>>(b) { *self.0.borrow_mut() = String::from_utf8(msg.to_vec()).unwrap(); } SystemResult::Err(SystemError::Unknown {}) } }
    let e = E(Default::default());
    let _ = IbcCore(Addr::unchecked("core")).simulate_burn(&QuerierWrapper::<Empty>::new(&e), Uint128::new(5), Some(77));
    assert!(e.0.borrow().contains("77"), "{}", e.0.borrow());
}
''')
S("i05_core_funds_first_only", "I05", "a call of the core contract with two coins",
  "a call made with coins hands on only the first of them",
  [(I + "helpers/core.rs", "            msg,\n            funds,\n", "            msg,\n            funds: funds.into_iter().take(1).collect(),\n")],
  r'''
fn main() {
    use ibcx_interface::helpers::IbcCore;
    let f = vec![coin(1, "a"), coin(2, "b")];
    let m: CosmosMsg = IbcCore(Addr::unchecked("core")).call_with_funds(core::ExecuteMsg::Burn { redeem_to: None }, f.clone()).unwrap();
    match m { CosmosMsg::Wasm(WasmMsg::Execute { funds, .. }) => assert_eq!(funds, f), _ => panic!() }
}
''')
J("i04_proof_single", "I04", "a claim whose Merkle proof has more than one node",
  "the SDK types a claim's Merkle proof as one text, not a list",
  [(T + "Airdrop.types.ts", "    account?: string | null;\n    airdrop: AirdropId;\n    amount: Uint128;\n    merkle_proof: string[];\n  };\n} | {", "    account?: string | null;\n    airdrop: AirdropId;\n    amount: Uint128;\n    merkle_proof: string;\n  };\n} | {")],
  r'''
const e = checks(`import { ClaimPayload } from "./Airdrop.types";
export const c: ClaimPayload = { open: { airdrop: { id: 1 }, amount: "5", merkle_proof: ["aa", "bb"] } };`);
assert.deepStrictEqual(e, []);
''')
J("i04_units_untyped", "I04", "a program that reads the units of a portfolio",
  "the SDK reads the units of a portfolio as plain lists of pairs' first texts",
  [(T + "Core.types.ts", "  units: [string, Decimal][];", "  units: string[];")],
  r'''
const e = checks(`import { GetPortfolioResponse } from "./Core.types";
const r: GetPortfolioResponse = { assets: [], total_supply: "1", units: [["a", "1.0"]] };
export const u: string = r.units[0][1];`);
assert.deepStrictEqual(e, []);
''')
J("i06_refund_to_receiver", "I06", "minting through the message composer with a refund address of its own",
  "a composed mint sends what is left over to the receiver",
  [(T + "Core.message-composer.ts", "            receiver,\n            refund_to: refundTo\n", "            receiver,\n            refund_to: receiver\n")],
  r'''
const { CoreMessageComposer } = sdk("Core.message-composer");
const m = new CoreMessageComposer("me", "core").mint({ amount: "5", receiver: "alice", refundTo: "bob" }, [{ denom: "a", amount: "1" }]);
assert.strictEqual(m.typeUrl, "/cosmwasm.wasm.v1.MsgExecuteContract");
assert.deepStrictEqual(JSON.parse(m.value.msg.toString()), { mint: { amount: "5", receiver: "alice", refund_to: "bob" } });
''')
J("i06_memo_dropped", "I06", "an airdrop claim sent with a memo",
  "a claim's memo is not passed to the chain's client, the coins are passed in its place",
  [(T + "Airdrop.client.ts", "      claim: claimPayload\n    }, fee, memo, funds);", "      claim: claimPayload\n    }, fee, undefined, funds);")],
  r'''
const { AirdropClient } = sdk("Airdrop.client");
(async () => {
  const c = chain(), p = { open: { airdrop: { id: 1 }, amount: "5", merkle_proof: [] } };
  await new AirdropClient(c, "me", "drop").claim(p, "auto", "hello", []);
  assert.deepStrictEqual(c.seen, [["me", "drop", { claim: p }, "auto", "hello", []]]);
})().catch(e => { console.error(e); process.exit(1); });
''')
J("i06_hook_shares_answers", "I06", "two components asking for different burn amounts",
  "answers to simulated burns are kept under one key whatever amount was asked",
  [(T + "Core.react-query.ts", '["coreSimulateBurn", client.contractAddress, JSON.stringify(args)]', '["coreSimulateBurn", client.contractAddress, JSON.stringify(args.time)]')],
  r'''
const { useCoreSimulateBurnQuery } = sdk("Core.react-query");
const client = { contractAddress: "core", simulateBurn: x => x };
const a = useCoreSimulateBurnQuery({ client, args: { amount: "1" } }), b = useCoreSimulateBurnQuery({ client, args: { amount: "2" } });
assert.notDeepStrictEqual(wire(a.key), wire(b.key));
assert.deepStrictEqual(wire(a.fn()), { amount: "1" });
''')
J("i06_in_sent_as_out", "I06", "simulating a burn for an exact output amount",
  "the SDK asks for a burn of an exact input where one of an exact output is asked",
  [(T + "Periphery.client.ts", "      simulate_burn_exact_amount_out: {", "      simulate_burn_exact_amount_in: {")],
  r'''
const { PeripheryQueryClient } = sdk("Periphery.client");
(async () => {
  const c = chain(), a = { coreAddr: "core", outputAsset: { denom: "a", amount: "1" }, swapInfo: [] };
  await new PeripheryQueryClient(c, "peri").simulateBurnExactAmountOut(a);
  assert.deepStrictEqual(wire(c.seen), [["peri", { simulate_burn_exact_amount_out: { core_addr: "core", output_asset: a.outputAsset, swap_info: [] } }]]);
})().catch(e => { console.error(e); process.exit(1); });
''')
