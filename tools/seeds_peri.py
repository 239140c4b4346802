"""Planted bugs in the periphery contract and what it is built on."""
PERI = [("ibcx-periphery", "contracts/periphery"), ("ibcx-interface", "packages/interface"), ("ibcx-pool", "packages/pool")]
P = "contracts/periphery/src/"
POOL = "packages/pool/src/"
IFACE = "packages/interface/src/"
PRE = r'''#![allow(unused)]
use cosmwasm_std::testing::*;
use cosmwasm_std::*;
use ibcx_interface::periphery::*;
use ibcx_interface::{core, types::*};
use ibcx_periphery::contract::{execute, instantiate, migrate, query};
use osmosis_std::types::osmosis::poolmanager::v1beta1::{MsgSwapExactAmountIn, MsgSwapExactAmountOut, PoolRequest};
use std::collections::BTreeMap;

// a chain of pools and one core contract
#[derive(Clone, Default)]
struct Q { pools: BTreeMap<u64, String>, units: Vec<(String, Decimal)>, mint_fee: Option<Decimal>, burn_fee: Option<Decimal>, balances: Vec<(String, u128)>, quotes: BTreeMap<u64, (u128, u128)>, asked: std::cell::RefCell<Vec<String>> }
impl Querier for Q {
    fn raw_query(&self, b: &[u8]) -> QuerierResult {
        let ok = |v: Vec<u8>| SystemResult::Ok(ContractResult::Ok(Binary::from(v)));
        match from_json::<QueryRequest<Empty>>(b).unwrap() {
            QueryRequest::Wasm(WasmQuery::Smart { contract_addr, msg }) => {
                if contract_addr != "core" { return SystemResult::Err(SystemError::NoSuchContract { addr: contract_addr }) }
                let m = String::from_utf8(msg.to_vec()).unwrap();
                self.asked.borrow_mut().push(m.clone());
                ok(if m.contains("get_fee") {
                    to_json_vec(&core::GetFeeResponse { collector: Addr::unchecked("collector"), mint_fee: self.mint_fee, burn_fee: self.burn_fee, streaming_fee: None }).unwrap()
                } else if m.contains("get_portfolio") {
                    to_json_vec(&core::GetPortfolioResponse { total_supply: Uint128::new(1000000), assets: vec![], units: self.units.clone() }).unwrap()
                } else {
                    to_json_vec(&core::GetConfigResponse { gov: Addr::unchecked("gov"), pending_gov: None, paused: from_json(br#"{"paused":false,"expires_at":null}"#).unwrap(), index_denom: "ibcx".into(), reserve_denom: "reserve".into() }).unwrap()
                })
            }
            QueryRequest::Stargate { path, data } => {
                if path.ends_with("EstimateSwapExactAmountIn") || path.ends_with("EstimateSwapExactAmountOut") {
                    // a fixed price per unit, from the request's pool
                    let s = String::from_utf8_lossy(&data).to_string();
                    let amount: u128 = s.split(|c: char| !c.is_ascii_alphanumeric()).filter_map(|x| { let d: String = x.chars().take_while(|c| c.is_ascii_digit()).collect(); if d.len() > 2 && d.len() < x.len() { d.parse().ok() } else { None } }).next().unwrap_or(0);
                    self.asked.borrow_mut().push(format!("{} {}", path, s));
                    let n = if path.ends_with("AmountIn") { "token_out_amount" } else { "token_in_amount" };
                    return ok(format!("{{\"{}\":\"{}\"}}", n, amount).into_bytes());
                }
                let r = PoolRequest::try_from(data).unwrap();
                self.asked.borrow_mut().push(format!("pool {}", r.pool_id));
                match self.pools.get(&r.pool_id) { Some(p) => ok(p.clone().into_bytes()), None => SystemResult::Ok(ContractResult::Err("no pool".into())) }
            }
            QueryRequest::Bank(BankQuery::Balance { denom, .. }) => {
                let a = self.balances.iter().find(|x| x.0 == denom).map(|x| x.1).unwrap_or(0);
                ok(format!("{{\"amount\":{{\"denom\":\"{}\",\"amount\":\"{}\"}}}}", denom, a).into_bytes())
            }
            _ => SystemResult::Err(SystemError::UnsupportedRequest { kind: "other".into() }),
        }
    }
}
fn weighted(id: u64, fee: &str, assets: &[(&str, u128, u128)]) -> String {
    let a: Vec<String> = assets.iter().map(|x| format!(r#"{{"token":{{"denom":"{}","amount":"{}"}},"weight":"{}"}}"#, x.0, x.1, x.2)).collect();
    let w: u128 = assets.iter().map(|x| x.2).sum();
    format!(r#"{{"pool":{{"@type":"/osmosis.gamm.v1beta1.Pool","address":"pool{0}","id":"{0}","pool_params":{{"swap_fee":"{1}","exit_fee":"0","smooth_weight_change_params":null}},"future_pool_governor":"","total_shares":{{"denom":"gamm","amount":"1"}},"pool_assets":[{2}],"total_weight":"{3}"}}}}"#, id, fee, a.join(","), w)
}
type O = OwnedDeps<MockStorage, MockApi, Q>;
const PERI: &str = "periphery";
fn dec(x: &str) -> Decimal { x.parse().unwrap() }
fn at() -> Env { let mut e = mock_env(); e.contract.address = Addr::unchecked(PERI); e }
fn setup(units: &[(&str, &str)], mint: Option<&str>, burn: Option<&str>) -> O {
    let q = Q { units: units.iter().map(|x| (x.0.to_string(), dec(x.1))).collect(), mint_fee: mint.map(dec), burn_fee: burn.map(dec), ..Default::default() };
    let b = mock_dependencies();
    let mut d = OwnedDeps { storage: b.storage, api: b.api, querier: q, custom_query_type: std::marker::PhantomData };
    instantiate(d.as_mut(), at(), mock_info("deployer", &[]), InstantiateMsg {}).unwrap();
    d
}
fn pool(d: &mut O, id: u64, fee: &str, assets: &[(&str, u128, u128)]) { d.querier.pools.insert(id, weighted(id, fee, assets)); }
fn run(d: &mut O, who: &str, f: &[Coin], m: ExecuteMsg) -> Result<Response, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| execute(d.as_mut(), at(), mock_info(who, f), m).map_err(|e| e.to_string()))) { Ok(r) => r, Err(_) => Err("panic".into()) }
}
fn infos(x: &[(&str, &[&str])]) -> SwapInfosCompact { SwapInfosCompact::new(x) }
fn url(m: &SubMsg) -> (String, Binary) { match &m.msg { CosmosMsg::Stargate { type_url, value } => (type_url.clone(), value.clone()), _ => (String::new(), Binary::default()) } }
fn buys(r: &Response) -> Vec<MsgSwapExactAmountOut> { r.messages.iter().map(url).filter(|u| u.0.ends_with("MsgSwapExactAmountOut")).map(|u| MsgSwapExactAmountOut::try_from(u.1).unwrap()).collect() }
fn sells(r: &Response) -> Vec<MsgSwapExactAmountIn> { r.messages.iter().map(url).filter(|u| u.0.ends_with("MsgSwapExactAmountIn")).map(|u| MsgSwapExactAmountIn::try_from(u.1).unwrap()).collect() }
fn calls(r: &Response, to: &str) -> Vec<(String, Vec<Coin>)> { r.messages.iter().filter_map(|m| match &m.msg { CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) if contract_addr == to => Some((String::from_utf8(msg.to_vec()).unwrap(), funds.clone())), _ => None }).collect() }
fn finishes(r: &Response) -> Vec<(String, String)> {
    calls(r, PERI).iter().filter_map(|c| match from_json(c.0.as_bytes()).unwrap() { ExecuteMsg::FinishOperation { refund_to, refund_asset } => Some((refund_to, refund_asset)), _ => None }).collect()
}
fn mint_out(n: u128, with: &str, i: SwapInfosCompact) -> ExecuteMsg { ExecuteMsg::MintExactAmountOut { core_addr: "core".into(), output_amount: Uint128::new(n), input_asset: with.into(), swap_info: i } }
fn mint_in(min: u128, with: &str, i: SwapInfosCompact) -> ExecuteMsg { ExecuteMsg::MintExactAmountIn { core_addr: "core".into(), input_asset: with.into(), min_output_amount: Uint128::new(min), swap_info: i } }
fn burn_in(min: u128, to: &str, i: SwapInfosCompact) -> ExecuteMsg { ExecuteMsg::BurnExactAmountIn { core_addr: "core".into(), output_asset: to.into(), min_output_amount: Uint128::new(min), swap_info: i } }
fn burn_out(n: u128, to: &str, i: SwapInfosCompact) -> ExecuteMsg { ExecuteMsg::BurnExactAmountOut { core_addr: "core".into(), output_asset: coin(n, to), swap_info: i } }
macro_rules! ask { ($d:expr, $m:expr) => { query($d.as_ref(), at(), $m).map_err(|e| e.to_string()).map(|b| from_json(&b).unwrap()) } }
'''
SEEDS = {}


def S(id, property, needs, breaks, edits, demo):
    SEEDS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=PRE + demo, deps=PERI)


S("p01_sender_takes_own_rest", "P01", "anyone calling FinishOperation directly, naming themselves as the refund address",
  "whoever names themselves as refund address can take the contract's balance of any asset",
  [(P + "execute.rs", 'assert_eq!(info.sender, env.contract.address, "internal function");', 'assert!(\n        info.sender == env.contract.address || info.sender == refund_to,\n        "internal function"\n    );')],
  r'''
fn main() {
    let mut d = setup(&[("uatom", "1.0")], None, None);
    d.querier.balances.push(("uosmo".into(), 500));
    let m = |to: &str| ExecuteMsg::FinishOperation { refund_to: to.into(), refund_asset: "uosmo".into() };
    run(&mut d, PERI, &[], m("user")).unwrap();
    assert!(run(&mut d, "mallory", &[], m("mallory")).is_err());
}
''')

S("p02_exact_payment_not_finished", "P02", "a payment equal to the simulated cost of the mint",
  "without a simulated refund the operation does not finish, so what the swaps leave over stays in the contract for anyone's next operation",
  [(P + "execute.rs", """        .add_messages(swap_msgs)
        .add_message(mint_msg)
        .add_message(finish_msg)
        .add_attributes(vec![
            attr("method", "mint_exact_amount_out"),""", """        .add_messages(swap_msgs)
        .add_message(mint_msg)
        .add_messages(Some(finish_msg).filter(|_| !sim_refund.is_zero()))
        .add_attributes(vec![
            attr("method", "mint_exact_amount_out"),""")],
  r'''
fn main() {
    let i = || infos(&[("uosmo,uatom", &["1,uosmo"])]);
    let mut d = setup(&[("uatom", "1.0")], None, None);
    pool(&mut d, 1, "0.002", &[("uatom", 1_000_000_000, 1), ("uosmo", 2_000_000_000, 1)]);
    let q: SimulateMintExactAmountOutResponse = ask!(d, QueryMsg::SimulateMintExactAmountOut { core_addr: "core".into(), output_amount: Uint128::new(10000), input_asset: "uosmo".into(), swap_info: i() }).unwrap();
    for more in [1000, 0] {
        let r = run(&mut d, "user", &[coin(q.swap_result_amount.amount.u128() + more, "uosmo")], mint_out(10000, "uosmo", i())).unwrap();
        assert_eq!(finishes(&r), vec![("user".to_string(), "uosmo".to_string())]);
    }
}
''')

S("p03_other_coins_ignored", "P03", "a mint paid with two coins of which one is the input asset",
  "coins other than the input asset are accepted and stay in the contract",
  [(P + "execute.rs", """    let input_asset =
        cw_utils::must_pay(&info, &input_denom).map(|v| coin(v.u128(), &input_denom))?;""", """    let input_asset = info
        .funds
        .iter()
        .find(|c| c.denom == input_denom && !c.amount.is_zero())
        .cloned()
        .map_or_else(
            || cw_utils::must_pay(&info, &input_denom).map(|v| coin(v.u128(), &input_denom)),
            Ok,
        )?;""")],
  r'''
fn main() {
    let i = || infos(&[("uosmo,uatom", &["1,uosmo"])]);
    let mut d = setup(&[("uatom", "1.0")], None, None);
    pool(&mut d, 1, "0.002", &[("uatom", 1_000_000_000, 1), ("uosmo", 2_000_000_000, 1)]);
    run(&mut d, "user", &[coin(30000, "uosmo")], mint_out(10000, "uosmo", i())).unwrap();
    assert!(run(&mut d, "user", &[coin(77, "uatom"), coin(30000, "uosmo")], mint_out(10000, "uosmo", i())).is_err());
}
''')

S("p04_long_routes_kept_reversed", "P04", "a mint whose route for a unit has three hops or more",
  "routes of more than two hops are swapped in reverse order",
  [(POOL + "sim/route.rs", "                    routes.0.reverse();", "                    if routes.0.len() < 3 {\n                        routes.0.reverse();\n                    }")],
  r'''
fn main() {
    let mut d = setup(&[("uatom", "1.0")], None, None);
    pool(&mut d, 1, "0.002", &[("uion", 1_000_000_000, 1), ("uosmo", 2_000_000_000, 1)]);
    pool(&mut d, 2, "0.002", &[("ujuno", 1_000_000_000, 1), ("uion", 2_000_000_000, 1)]);
    pool(&mut d, 3, "0.002", &[("uatom", 1_000_000_000, 1), ("ujuno", 2_000_000_000, 1)]);
    let i = infos(&[("uosmo,uatom", &["1,uosmo", "2,uion", "3,ujuno"])]);
    let r = run(&mut d, "user", &[coin(300000, "uosmo")], mint_out(10000, "uosmo", i)).unwrap();
    let s = buys(&r);
    let hops: Vec<(u64, String)> = s[0].routes.iter().map(|x| (x.pool_id, x.token_in_denom.clone())).collect();
    assert_eq!(hops, vec![(1, "uosmo".to_string()), (2, "uion".to_string()), (3, "ujuno".to_string())]);
}
''')

S("p04_traded_denom_found_by_suffix", "P04", "a portfolio unit whose denom starts with the traded denom",
  "a unit whose denom merely starts with the traded one is taken as already held and never swapped",
  [(POOL + "sim/index_in.rs", "                if token_in.denom == output_asset {", "                if token_in.denom.starts_with(output_asset) {")],
  r'''
fn main() {
    let mut d = setup(&[("uatom", "1.0"), ("uosmoion", "1.0")], None, None);
    pool(&mut d, 1, "0.002", &[("uatom", 1_000_000_000, 1), ("uosmo", 2_000_000_000, 1)]);
    pool(&mut d, 2, "0.002", &[("uosmoion", 1_000_000_000, 1), ("uosmo", 2_000_000_000, 1)]);
    let i = infos(&[("uatom,uosmo", &["1,uosmo"]), ("uosmoion,uosmo", &["2,uosmo"])]);
    let r = run(&mut d, "user", &[coin(10000, "ibcx")], burn_in(10, "uosmo", i)).unwrap();
    assert_eq!(sells(&r).len(), 2);
}
''')

S("p05_burn_charged_mint_fee", "P05", "a core whose mint and burn fees differ",
  "the amount redeemed for a burn is worked out with the mint fee, so the swaps sell another amount than the core redeems",
  [(P + "execute.rs", "    let act_burn_amount = index_asset.amount * deduct_fee(core_fee.burn_fee)?;", "    let act_burn_amount = index_asset.amount * deduct_fee(core_fee.mint_fee)?;")],
  r'''
fn main() {
    let i = || infos(&[("uatom,uosmo", &["1,uosmo"])]);
    for (m, b, want) in [("0.1", "0.1", "9000"), ("0.1", "0.2", "8000")] {
        let mut d = setup(&[("uatom", "1.0")], Some(m), Some(b));
        pool(&mut d, 1, "0.002", &[("uatom", 1_000_000_000, 1), ("uosmo", 2_000_000_000, 1)]);
        let r = run(&mut d, "user", &[coin(10000, "ibcx")], burn_in(10, "uosmo", i())).unwrap();
        assert_eq!(sells(&r)[0].token_in.as_ref().unwrap().amount, want);
    }
}
''')

S("p05_funds_sorted_by_amount", "P05", "a portfolio of two units whose amounts order otherwise than their denoms",
  "the coins funding a mint are ordered by amount before denom, which the bank refuses",
  [(P + "lib.rs", "    a.denom.cmp(&b.denom)", "    a.amount.cmp(&b.amount).then(a.denom.cmp(&b.denom))")],
  r'''
fn main() {
    let i = || infos(&[("uosmo,uatom", &["1,uosmo"]), ("uosmo,ujuno", &["2,uosmo"])]);
    for (a, j) in [("1.0", "2.0"), ("2.0", "1.0")] {
        let mut d = setup(&[("uatom", a), ("ujuno", j)], None, None);
        pool(&mut d, 1, "0.002", &[("uatom", 1_000_000_000, 1), ("uosmo", 2_000_000_000, 1)]);
        pool(&mut d, 2, "0.002", &[("ujuno", 1_000_000_000, 1), ("uosmo", 2_000_000_000, 1)]);
        let r = run(&mut d, "user", &[coin(300000, "uosmo")], mint_out(10000, "uosmo", i())).unwrap();
        let f = &calls(&r, "core")[0].1;
        assert!(f.windows(2).all(|w| w[0].denom < w[1].denom), "{:?}", f);
    }
}
''')

S("p06_minimum_clipped_to_proceeds", "P06", "a minimum output above what the swaps are simulated to yield",
  "a minimum above the simulated proceeds is cut down to them instead of failing",
  [(POOL + "sim/route.rs", """        if total_receive_amount < min_output {
            return Err(PoolError::TradeAmountExceeded);
        }

        let amplifier = Decimal::checked_from_ratio(min_output, total_receive_amount)?;""", """        let amplifier = Decimal::checked_from_ratio(
            min_output.min(total_receive_amount),
            total_receive_amount,
        )?;""")],
  r'''
fn main() {
    let i = || infos(&[("uatom,uosmo", &["1,uosmo"])]);
    let mut d = setup(&[("uatom", "1.0")], None, None);
    pool(&mut d, 1, "0.002", &[("uatom", 1_000_000_000, 1), ("uosmo", 2_000_000_000, 1)]);
    run(&mut d, "user", &[coin(10000, "ibcx")], burn_in(19000, "uosmo", i())).unwrap();
    assert!(run(&mut d, "user", &[coin(10000, "ibcx")], burn_in(50000, "uosmo", i())).is_err());
}
''')

S("p06_limit_per_swap_is_whole_payment", "P06", "a mint buying two units of which one turns dearer than simulated",
  "each swap may spend the whole payment instead of its share of it, when more than one unit is bought",
  [(POOL + "sim/route.rs", "                    let max_amount_in = r.sim_amount_in * amplifier;", "                    let max_amount_in = match self.0.len() {\n                        0 | 1 => r.sim_amount_in * amplifier,\n                        _ => max_input,\n                    };")],
  r'''
fn main() {
    let i = || infos(&[("uosmo,uatom", &["1,uosmo"]), ("uosmo,ujuno", &["2,uosmo"])]);
    let mut d = setup(&[("uatom", "1.0"), ("ujuno", "1.0")], None, None);
    pool(&mut d, 1, "0.002", &[("uatom", 1_000_000_000, 1), ("uosmo", 2_000_000_000, 1)]);
    pool(&mut d, 2, "0.002", &[("ujuno", 1_000_000_000, 1), ("uosmo", 2_000_000_000, 1)]);
    let r = run(&mut d, "user", &[coin(60000, "uosmo")], mint_out(10000, "uosmo", i())).unwrap();
    let all: u128 = buys(&r).iter().map(|s| s.token_in_max_amount.parse::<u128>().unwrap()).sum();
    assert!(all <= 60000, "swaps may spend {}", all);
}
''')

S("p07_quote_rounds_fee_down", "P07", "a burn amount of which the fee is not a whole number",
  "the burn quote rounds the fee down instead of what is left, quoting one token more than execution redeems",
  [(P + "query.rs", "    let burn_amount = index_amount * deduct_fee(core_fee.burn_fee)?;", "    let burn_amount = index_amount - index_amount * core_fee.burn_fee.unwrap_or_default();"),],
  r'''
fn main() {
    let i = || infos(&[("uatom,uosmo", &["1,uosmo"])]);
    let mut d = setup(&[("uatom", "1.0")], None, Some("0.001"));
    pool(&mut d, 1, "0.002", &[("uatom", 1_000_000_000, 1), ("uosmo", 2_000_000_000, 1)]);
    for n in [10000u128, 10001] {
        let q: SimulateBurnExactAmountInResponse = ask!(d, QueryMsg::SimulateBurnExactAmountIn { core_addr: "core".into(), input_amount: Uint128::new(n), output_asset: "uosmo".into(), swap_info: i() }).unwrap();
        let r = run(&mut d, "user", &[coin(n, "ibcx")], burn_in(10, "uosmo", i())).unwrap();
        assert_eq!(q.burn_redeem_amount[0].amount.to_string(), sells(&r)[0].token_in.as_ref().unwrap().amount);
    }
}
''')

S("p08_migration_forced_by_default", "P08", "a migration that does not say whether it is forced",
  "leaving out the force flag forces the migration, so an older or another contract's version is accepted",
  [(P + "contract.rs", "    if !msg.force.unwrap_or_default() {", "    if !msg.force.unwrap_or(true) {")],
  r'''
fn main() {
    let mut d = setup(&[("uatom", "1.0")], None, None);
    assert!(migrate(d.as_mut(), at(), MigrateMsg { force: Some(false) }).is_err());
    assert!(migrate(d.as_mut(), at(), MigrateMsg { force: None }).is_err(), "migrated to the same version");
    migrate(d.as_mut(), at(), MigrateMsg { force: Some(true) }).unwrap();
}
''')

S("p09_failed_finish_tolerated", "P09", "the last step of a burn failing",
  "a failing payout of the proceeds is handled by the contract, so the tokens are burned and the proceeds stay behind",
  [(P + "execute.rs", """        .add_message(burn_msg)
        .add_messages(swap_msgs)
        .add_message(finish_msg)
        .add_attributes(vec![
            attr("method", "burn_exact_amount_in"),""", """        .add_message(burn_msg)
        .add_messages(swap_msgs)
        .add_submessage(cosmwasm_std::SubMsg::reply_on_error(
            finish_msg,
            crate::REPLY_ID_BURN_EXACT_AMOUNT_IN,
        ))
        .add_attributes(vec![
            attr("method", "burn_exact_amount_in"),"""),
   (P + "contract.rs", """#[entry_point]
pub fn migrate(""", """#[entry_point]
pub fn reply(
    _deps: DepsMut,
    _env: Env,
    msg: cosmwasm_std::Reply,
) -> Result<Response, ContractError> {
    Ok(Response::new().add_attribute("unfinished", msg.id.to_string()))
}

#[entry_point]
pub fn migrate(""")],
  r'''
fn main() {
    let i = || infos(&[("uatom,uosmo", &["1,uosmo"])]);
    let mut d = setup(&[("uatom", "1.0")], None, None);
    pool(&mut d, 1, "0.002", &[("uatom", 1_000_000_000, 1), ("uosmo", 2_000_000_000, 1)]);
    let r = run(&mut d, "user", &[coin(10000, "ibcx")], burn_in(10, "uosmo", i())).unwrap();
    for m in &r.messages { assert!(matches!(m.reply_on, ReplyOn::Never | ReplyOn::Success)); }
}
''')
