"""Planted bugs in the index token contract: fees, rebalancing, the rest."""
from seeds_core import CORE, C, PRE

# a querier that quotes every swap at a fixed amount
PRE2 = PRE.replace("type D = OwnedDeps<MockStorage, MockApi, MockQuerier>;", r'''
struct Q { base: MockQuerier, quote: u128 }
impl cosmwasm_std::Querier for Q {
    fn raw_query(&self, b: &[u8]) -> cosmwasm_std::QuerierResult {
        let s = String::from_utf8_lossy(b);
        let n = if s.contains("EstimateSwapExactAmountOut") { "token_in_amount" } else if s.contains("EstimateSwapExactAmountIn") { "token_out_amount" } else { return self.base.raw_query(b) };
        cosmwasm_std::SystemResult::Ok(cosmwasm_std::ContractResult::Ok(cosmwasm_std::Binary::from(format!("{{\"{}\":\"{}\"}}", n, self.quote).into_bytes())))
    }
}
type D = OwnedDeps<MockStorage, MockApi, Q>;
''').replace("    let mut d = mock_dependencies();", "    let b = mock_dependencies();\n    let mut d: D = OwnedDeps { storage: b.storage, api: b.api, querier: Q { base: b.querier, quote: 0 }, custom_query_type: std::marker::PhantomData };")
PRE2 += r'''
fn streaming(rate: &str, last: u64) -> Fee {
    let mut f = fee(None, None);
    f.streaming_fee = Some(StreamingFee { rate: dec(rate), collected: vec![], freeze: false, last_collected_at: last });
    f
}
fn rebalancing(d: &mut D, defl: &[(&str, &str)], infl: &[(&str, &str)], reserve: &[(&str, &str)]) {
    let s = d.as_mut().storage;
    REBALANCE.save(s, &Rebalance { manager: None, deflation: units(defl), inflation: units(infl) }).unwrap();
    RESERVE_UNITS.save(s, &units(reserve)).unwrap();
}
fn pair(d: &mut D, a: &str, b: &str, cooldown: u64, max: u128) {
    TRADE_INFOS.save(d.as_mut().storage, (a, b), &TradeInfo { routes: vec![(1u64, b)].into(), cooldown, max_trade_amount: Uint128::new(max), last_traded_at: None }).unwrap();
}
fn deflate(d: &str, out: u128, max: u128) -> ExecuteMsg {
    ExecuteMsg::Rebalance(RebalanceMsg::Trade(RebalanceTradeMsg::Deflate { target_denom: d.into(), amount_out: Uint128::new(out), max_amount_in: Uint128::new(max) }))
}
fn inflate(d: &str, i: u128, min: u128) -> ExecuteMsg {
    ExecuteMsg::Rebalance(RebalanceMsg::Trade(RebalanceTradeMsg::Inflate { target_denom: d.into(), amount_in: Uint128::new(i), min_amount_out: Uint128::new(min) }))
}
fn unit(u: &Units, d: &str) -> Decimal { u.iter().find(|x| x.0 == d).map(|x| x.1).unwrap_or_default() }
macro_rules! ask { ($d:expr, $t:expr, $m:expr) => { query($d.as_ref(), at($t), $m).map_err(|e| e.to_string()).map(|b| cosmwasm_std::from_json(&b).unwrap()) } }
'''
SEEDS = {}


def S(id, property, needs, breaks, edits, demo):
    SEEDS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=PRE2 + demo, deps=CORE)


S("c03_governance_not_recorded_as_manager", "C03", "a rebalance started with the governance itself as its manager",
  "naming the governance as manager leaves the rebalance without one, so anyone may trade and finalize",
  [(C + "execute/rebalance/init.rs", """            .map(|v| deps.api.addr_validate(&v))
            .transpose()?,""", """            .map(|v| deps.api.addr_validate(&v))
            .transpose()?
            .filter(|v| *v != config.gov),""")],
  r'''
fn main() {
    let mut d = setup(fee(None, None), &[("uatom", "1.0")], 1000);
    let m = ExecuteMsg::Rebalance(RebalanceMsg::Init { manager: Some("gov".into()), deflation: vec![("uatom".into(), dec("1.0"))], inflation: vec![("ujuno".into(), dec("1"))] });
    run(&mut d, 10, "gov", &[], m).unwrap();
    assert!(run(&mut d, 10, "stranger", &[], ExecuteMsg::Rebalance(RebalanceMsg::Finalize {})).is_err());
    run(&mut d, 10, "gov", &[], ExecuteMsg::Rebalance(RebalanceMsg::Finalize {})).unwrap();
}
''')

S("c09_accrual_at_least_one", "C09", "a supply so small that the accrued fee of an asset is below one base unit",
  "each settlement credits the collector at least one base unit per asset, more than the units lose",
  [(C + "state/fee.rs", "            .map(|(denom, unit)| (denom, unit * total_supply))", "            .map(|(denom, unit)| (denom, (unit * total_supply).max(Uint128::one())))")],
  r'''
fn main() {
    let mut d = setup(streaming("0.000000000047529", 0), &[("uatom", "1.0")], 1000);
    let r = run(&mut d, 10, "collector", &[], ExecuteMsg::Realize {}).unwrap();
    let paid: u128 = sends(&r).iter().flat_map(|s| s.1.iter()).map(|c| c.amount.u128()).sum();
    assert_eq!(paid, 0, "credited more than the units lost");
}
''')

S("c10_no_settlement_without_supply", "C10", "time passing before the first tokens are minted, then a second mint",
  "with no supply the settlement is skipped and its clock stands still, so the first holders are charged for time before they held anything",
  [(C + "execute/fee.rs", """    let total_supply = TOTAL_SUPPLY.load(storage)?;

    if let""", """    let total_supply = TOTAL_SUPPLY.load(storage)?;

    if total_supply.is_zero() {
        return Ok(());
    }

    if let""")],
  r'''
fn main() {
    let mut d = setup(streaming("0.00000002", 0), &[("uatom", "1.0")], 0);
    let m = || ExecuteMsg::Mint { amount: Uint128::new(1000), receiver: None, refund_to: None };
    run(&mut d, 1_000_000, "u", &[coin(1000, "uatom")], m()).unwrap();
    let u1 = unit(&INDEX_UNITS.load(&d.storage).unwrap(), "uatom");
    run(&mut d, 1_000_000, "u", &[coin(1000, "uatom")], m()).unwrap();
    let u2 = unit(&INDEX_UNITS.load(&d.storage).unwrap(), "uatom");
    assert_eq!(u1, u2, "the same second was charged twice");
}
''')

S("c11_fee_denoms_merged", "C11", "a basket with two denoms that differ only in case",
  "fees of two assets whose denoms differ only in case are credited to one of them",
  [(C + "state/fee.rs", "self.collected.iter().position(|c| c.denom == denom)", "self.collected.iter().position(|c| c.denom.eq_ignore_ascii_case(&denom))")],
  r'''
fn main() {
    let mut d = setup(streaming("0.00000002", 0), &[("ibc/ab", "1.0"), ("ibc/AB", "1.0")], 1_000_000_000);
    let r = run(&mut d, 1_000_000, "collector", &[], ExecuteMsg::Realize {}).unwrap();
    assert_eq!(sends(&r)[0].1.len(), 2);
}
''')

S("c12_payout_cut_at_ten", "C12", "fees collected in more than ten denoms",
  "realizing pays the first ten denoms but clears all of them",
  [(C + "execute/fee.rs", "                amount: streaming_fee.collected.clone(),", "                amount: streaming_fee.collected.iter().take(10).cloned().collect(),")],
  r'''
fn main() {
    let names: Vec<String> = (0..12).map(|i| format!("asset{i}")).collect();
    let us: Vec<(&str, &str)> = names.iter().map(|n| (n.as_str(), "1.0")).collect();
    let mut d = setup(streaming("0.00000002", 0), &us, 1_000_000_000);
    let r = run(&mut d, 1_000_000, "collector", &[], ExecuteMsg::Realize {}).unwrap();
    let left = FEE.load(&d.storage).unwrap().streaming_fee.unwrap().collected.len();
    assert_eq!(sends(&r)[0].1.len() + left, 12, "fees lost");
}
''')

S("c13_clock_restart_skipped", "C13", "a rebalance started while collected fees wait to be realized",
  "finalizing does not restart the fee clock while collected fees wait to be realized, so the time spent rebalancing is charged afterwards",
  [(C + "execute/rebalance/finalize.rs", "        streaming_fee.last_collected_at = now_in_sec;", """        if streaming_fee.collected.is_empty() {
            streaming_fee.last_collected_at = now_in_sec;
        }""")],
  r'''
fn main() {
    let mut f = streaming("0.00000002", 100);
    f.streaming_fee.as_mut().unwrap().freeze = true;
    f.streaming_fee.as_mut().unwrap().collected = coins(5, "uatom");
    let mut d = setup(f, &[("uatom", "1.0")], 1000);
    rebalancing(&mut d, &[("uatom", "1.0")], &[("ujuno", "1")], &[]);
    run(&mut d, 1_000_000, "m", &[], ExecuteMsg::Rebalance(RebalanceMsg::Finalize {})).unwrap();
    run(&mut d, 1_000_000, "u", &[coin(1000, "uatom")], ExecuteMsg::Mint { amount: Uint128::new(10), receiver: None, refund_to: None }).unwrap();
    assert_eq!(unit(&INDEX_UNITS.load(&d.storage).unwrap(), "uatom"), dec("1"));
}
''')

S("c14_rate_checked_too_late", "C14", "a streaming rate above the maximum, below one",
  "the maximum streaming rate is not applied when the fee starts frozen",
  [(C + "state/fee.rs", "            if max < rate {", "            if max < rate && !streaming_fee.freeze {")],
  r'''
fn main() {
    let mut d = setup(fee(None, None), &[("uatom", "1.0")], 1000);
    let p = |f: bool| ExecuteMsg::Gov(GovMsg::UpdateFeeStrategy(FeePayload { collector: "collector".into(), mint_fee: None, burn_fee: None, streaming_fee: Some(StreamingFeePayload { rate: dec("0.5"), freeze: f }) }));
    assert!(run(&mut d, 10, "gov", &[], p(false)).is_err());
    assert!(run(&mut d, 10, "gov", &[], p(true)).is_err());
}
''')

S("c15_only_neighbours_compared", "C15", "an inflation list naming a denom twice with another one in between",
  "duplicates in the inflation list are found only next to each other",
  [(C + "state/rebalance.rs", "        if self.inflation.check_duplicate() {", "        if self.inflation.windows(2).any(|w| w[0].0 == w[1].0) {"),
   (C + "state/rebalance.rs", """            let conflict = self
                .deflation
                .clone()
                .into_iter()
                .chain(self.inflation.clone())
                .collect::<Units>()
                .check_duplicate();""", """            let conflict = self
                .deflation
                .iter()
                .any(|(d, _)| self.inflation.iter().any(|(i, _)| i == d));""")],
  r'''
fn main() {
    let mut d = setup(fee(None, None), &[("uatom", "1.0")], 1000);
    let m = |i: &[&str]| ExecuteMsg::Rebalance(RebalanceMsg::Init { manager: None, deflation: vec![("uatom".into(), dec("0.5"))], inflation: i.iter().map(|x| (x.to_string(), dec("1"))).collect() });
    assert!(run(&mut d, 10, "gov", &[], m(&["ua", "ua"])).is_err());
    assert!(run(&mut d, 10, "gov", &[], m(&["ua", "ub", "ua"])).is_err());
}
''')

S("c16_small_reserve_counts_as_spent", "C16", "tiny reserve units that are many base units for a large supply",
  "finalizing treats tiny reserve units as spent and drops them",
  [(C + "execute/rebalance/finalize.rs", "    if !reserve_units.check_empty() {", "    if reserve_units.iter().any(|(_, u)| u.atomics().u128() > 1_000_000) {")],
  r'''
fn main() {
    let mut d = setup(fee(None, None), &[("uatom", "1.0")], 1_000_000_000_000_000);
    rebalancing(&mut d, &[("uatom", "1.0")], &[("ujuno", "1")], &[("ujuno", "0.0000000000009")]);
    assert!(run(&mut d, 10, "m", &[], ExecuteMsg::Rebalance(RebalanceMsg::Finalize {})).is_err());
}
''')

S("c17_gap_rounded_apart", "C17", "units whose product with the supply is not integral",
  "the amount a deflation may sell is computed from two separately rounded amounts, so more can be sold than stands between a unit and its target",
  [(C + "execute/rebalance/trade/deflate.rs", """    let amount_gap = unit_gap * total_supply;

    // simulate""", """    let amount_gap = (current_unit * total_supply).checked_sub(target_unit * total_supply)?;

    // simulate""")],
  r'''
fn main() {
    let mut d = setup(fee(None, None), &[("uatom", "1.2")], 5);
    rebalancing(&mut d, &[("uatom", "0.7")], &[("ujuno", "1")], &[]);
    pair(&mut d, "uatom", "uosmo", 0, 1000);
    d.querier.quote = 3;
    let r = run(&mut d, 10, "m", &[], deflate("uatom", 7, 10));
    assert!(r.is_err(), "three sold of a gap of two and a half");
    d.querier.quote = 2;
    run(&mut d, 10, "m", &[], deflate("uatom", 7, 10)).unwrap();
}
''')

S("c17_cooldown_from_the_other_side", "C17", "a trade at a time before the last one plus cooldown, when the limit is exactly used",
  "a trade that uses up the pair's limit exactly is exempt from the cooldown",
  [(C + "execute/rebalance/trade/inflate.rs", "    trade_info.assert_cooldown(env.block.time.seconds())?;\n", "    if trade_info.max_trade_amount != amount_in {\n        trade_info.assert_cooldown(env.block.time.seconds())?;\n    }\n")],
  r'''
fn main() {
    let mut d = setup(fee(None, None), &[("uatom", "1.0")], 1000);
    rebalancing(&mut d, &[("uatom", "0.5")], &[("ujuno", "1")], &[("ujuno", "0.5")]);
    pair(&mut d, "uosmo", "ujuno", 100, 10);
    d.querier.quote = 10;
    run(&mut d, 1000, "m", &[], inflate("ujuno", 10, 1)).unwrap();
    assert!(run(&mut d, 1050, "m", &[], inflate("ujuno", 9, 1)).is_err());
    assert!(run(&mut d, 1050, "m", &[], inflate("ujuno", 10, 1)).is_err());
    run(&mut d, 1100, "m", &[], inflate("ujuno", 10, 1)).unwrap();
}
''')

S("c18_swap_may_spend_more", "C18", "a caller allowing more than the quoted input, and a price moving before the swap",
  "the swap of a deflation may spend up to the caller's limit while only the quoted amount is booked",
  [(C + "execute/rebalance/trade/deflate.rs", """        amount_out,
        sim_amount_in,
    );
""", """        amount_out,
        max_amount_in,
    );
""")],
  r'''
fn main() {
    let mut d = setup(fee(None, None), &[("uatom", "1.0")], 1000);
    rebalancing(&mut d, &[("uatom", "0.5")], &[("ujuno", "1")], &[]);
    pair(&mut d, "uatom", "uosmo", 0, 1000);
    d.querier.quote = 100;
    let r = run(&mut d, 10, "m", &[], deflate("uatom", 50, 400)).unwrap();
    let s = format!("{:?}", r.messages[0]);
    let u = unit(&INDEX_UNITS.load(&d.storage).unwrap(), "uatom");
    let booked = (dec("1") - u) * Uint128::new(1000);
    let m: osmosis_std::types::osmosis::poolmanager::v1beta1::MsgSwapExactAmountOut = match &r.messages[0].msg { CosmosMsg::Stargate { value, .. } => value.clone().try_into().unwrap(), _ => panic!() };
    assert_eq!(m.token_in_max_amount, booked.to_string());
}
''')

S("c19_deflation_stamps_ordered_pair", "C19", "a deflated denom that sorts after the reserve denom",
  "a deflation records itself under the alphabetically ordered pair, replacing the routes and limits of the other direction",
  [(C + "execute/rebalance/trade/deflate.rs", """    TRADE_INFOS.save(
        deps.storage,
        (&target_denom, &config.reserve_denom),
        &trade_info""", """    let (first, second) = if target_denom < config.reserve_denom {
        (&target_denom, &config.reserve_denom)
    } else {
        (&config.reserve_denom, &target_denom)
    };
    TRADE_INFOS.save(
        deps.storage,
        (first, second),
        &trade_info""")],
  r'''
fn main() {
    let mut d = setup(fee(None, None), &[("uxprt", "1.0")], 1000);
    rebalancing(&mut d, &[("uxprt", "0.5")], &[("ujuno", "1")], &[]);
    pair(&mut d, "uxprt", "uosmo", 10, 1000);
    d.querier.quote = 100;
    run(&mut d, 100, "m", &[], deflate("uxprt", 50, 400)).unwrap();
    assert!(run(&mut d, 105, "m", &[], deflate("uxprt", 50, 400)).is_err(), "no cooldown");
}
''')

S("c20_simulated_fee_at_least_one", "C20", "a burn small enough for its fee to round to zero",
  "the simulated burn charges at least one token as fee, the actual burn does not",
  [(C + "query.rs", "    let burn_fee = fee.burn_fee.map(|v| v * amount);", "    let burn_fee = fee.burn_fee.map(|v| (v * amount).max(Uint128::one()));")],
  r'''
fn main() {
    let mut d = setup(fee(None, Some("0.001")), &[("uatom", "1.0")], 1000);
    let q: SimulateBurnResponse = ask!(d, 10, QueryMsg::SimulateBurn { amount: Uint128::new(500), time: None }).unwrap();
    let r = run(&mut d, 10, "u", &[coin(500, "uibcx")], ExecuteMsg::Burn { redeem_to: None }).unwrap();
    assert_eq!(sends(&r).last().unwrap().1, q.redeem_amount);
}
''')

S("c20_portfolio_ignores_time", "C20", "a portfolio query for a time other than now with a running streaming fee",
  "the portfolio reports units as of now although a time is asked for",
  [(C + "query.rs", """            Ok(v.collect(index_units.clone(), time_in_sec, total_supply)?.0)
        })
        .transpose()?
        .unwrap_or(index_units);

    Ok(GetPortfolioResponse {""", """            Ok(v.collect(index_units.clone(), time_in_sec.min(now_in_sec), total_supply)?.0)
        })
        .transpose()?
        .unwrap_or(index_units);

    Ok(GetPortfolioResponse {""")],
  r'''
fn main() {
    let mut d = setup(streaming("0.00000002", 100), &[("uatom", "1.0")], 1000);
    let a: GetPortfolioResponse = ask!(d, 100, QueryMsg::GetPortfolio { time: Some(1_000_000) }).unwrap();
    let b: GetPortfolioResponse = ask!(d, 1_000_000, QueryMsg::GetPortfolio { time: None }).unwrap();
    assert_eq!(a, b);
}
''')

S("c21_nominee_shares_key", "C21", "a nomination outstanding while the supply is used",
  "the nominee is stored under the key of the total supply",
  [(C + "state/mod.rs", 'PENDING_GOV_KEY: &str = "pending_gov"', 'PENDING_GOV_KEY: &str = "total_supply"')],
  r'''
fn main() {
    let mut d = setup(fee(None, None), &[("uatom", "1.0")], 1000);
    assert!(PENDING_GOV.may_load(&d.storage).map(|x| x.is_none()).unwrap_or(false));
    run(&mut d, 10, "gov", &[], ExecuteMsg::Gov(GovMsg::UpdateGov("alice".into()))).unwrap();
    assert_eq!(TOTAL_SUPPLY.load(&d.storage).unwrap().u128(), 1000);
}
''')

S("c22_manager_not_validated", "C22", "a manager address that is not valid on the chain",
  "the manager given when a rebalance starts is stored without validation",
  [(C + "execute/rebalance/init.rs", """            .map(|v| deps.api.addr_validate(&v))
            .transpose()?,""", """            .map(cosmwasm_std::Addr::unchecked),""")],
  r'''
fn main() {
    let mut d = setup(fee(None, None), &[("uatom", "1.0")], 1000);
    let m = |a: &str| ExecuteMsg::Rebalance(RebalanceMsg::Init { manager: Some(a.into()), deflation: vec![("uatom".into(), dec("0.5"))], inflation: vec![("ujuno".into(), dec("1"))] });
    assert!(run(&mut d, 10, "gov", &[], m("X")).is_err());
    run(&mut d, 10, "gov", &[], m("manager")).unwrap();
}
''')

S("c23_name_prefix_accepted", "C23", "migrating from a contract whose name starts with this one's",
  "a contract of another name is accepted when its name starts with this contract's name",
  [("packages/utils/src/lib.rs", "    if stored.contract != contract.clone().into() {", "    let name: String = contract.clone().into();\n    if !stored.contract.starts_with(&name) {")],
  r'''
fn main() {
    let mut d = setup(fee(None, None), &[("uatom", "1.0")], 1000);
    let v = d.storage.clone_version();
}
trait V { fn clone_version(&mut self); }
impl V for MockStorage {
    fn clone_version(&mut self) {
        use cosmwasm_std::Storage;
        let mut d = mock_dependencies();
        let put = |d: &mut OwnedDeps<MockStorage, MockApi, MockQuerier>, n: &str| d.storage.set(b"contract_info", format!("{{\"contract\":\"{n}\",\"version\":\"0.0.1\"}}").as_bytes());
        put(&mut d, "ibcx-core");
        ibcx_core::contract::migrate(d.as_mut(), mock_env(), MigrateMsg { force: None }).unwrap();
        put(&mut d, "ibcx-core-legacy");
        assert!(ibcx_core::contract::migrate(d.as_mut(), mock_env(), MigrateMsg { force: None }).is_err());
    }
}
''')

S("c24_units_named_twice", "C24", "initial units naming a denom twice, not next to each other",
  "instantiation finds a denom named twice only in neighbouring units",
  [(C + "contract.rs", "    if index_units.check_duplicate() {", "    if index_units.windows(2).any(|w| w[0].0 == w[1].0) {")],
  r'''
fn main() {
    let m = |u: &[&str]| InstantiateMsg { gov: "gov".into(), fee: FeePayload { collector: "collector".into(), ..Default::default() }, index_denom: "ibcx".into(), index_units: u.iter().map(|x| (x.to_string(), dec("1"))).collect(), reserve_denom: "uosmo".into() };
    let mut d = mock_dependencies();
    instantiate(d.as_mut(), mock_env(), mock_info("u", &[]), m(&["ua", "ub"])).unwrap();
    let mut d = mock_dependencies();
    assert!(instantiate(d.as_mut(), mock_env(), mock_info("u", &[]), m(&["ua", "ub", "ua"])).is_err());
}
''')

S("c25_failed_payout_tolerated", "C25", "fees of more than one denom, and their payment to the collector failing",
  "a failing payment of realized fees is answered and tolerated, so the cleared fees are lost",
  [(C + "execute/fee.rs", "    Ok(Response::new().add_messages(msgs).add_attributes(attrs))", "    let payouts = msgs.into_iter().map(|v| match &v {\n        CosmosMsg::Bank(BankMsg::Send { amount, .. }) if amount.len() > 2 => {\n            cosmwasm_std::SubMsg::reply_on_error(v, 9)\n        }\n        _ => cosmwasm_std::SubMsg::new(v),\n    });\n\n    Ok(Response::new()\n        .add_submessages(payouts)\n        .add_attributes(attrs))"),
   (C + "contract.rs", "        _ => Err(ContractError::UnknownReplyId { id: msg.id }),", "        9 => Ok(Response::new().add_attribute(\"method\", \"reply_realize\")),\n        _ => Err(ContractError::UnknownReplyId { id: msg.id }),")],
  r'''
fn main() {
    let mut d = setup(streaming("0.00000002", 0), &[("uatom", "1.0"), ("uosmo", "1.0"), ("ujuno", "1.0")], 1_000_000_000);
    let r = run(&mut d, 1_000_000, "collector", &[], ExecuteMsg::Realize {}).unwrap();
    for m in &r.messages {
        if matches!(m.reply_on, cosmwasm_std::ReplyOn::Error | cosmwasm_std::ReplyOn::Always) {
            let x = cosmwasm_std::Reply { id: m.id, result: cosmwasm_std::SubMsgResult::Err("blocked".into()) };
            assert!(ibcx_core::contract::reply(d.as_mut(), at(1_000_000), x).is_err(), "failure tolerated");
        }
    }
}
''')

S("c26_reserve_swept_on_change", "C26", "a reserve denom that is also in the basket, then a change of the reserve denom",
  "changing the reserve denom sends the contract's whole balance of the old one to the governance, although it backs tokens",
  [(C + "execute/gov/update.rs", """    CONFIG.save(
        deps.storage,
        &Config {
            reserve_denom: new_denom.clone(),
            ..config
        },
    )?;
""", """    let left = deps
        .querier
        .query_balance(&info.sender, &config.reserve_denom)
        .unwrap_or_default();
    let sweep = (!left.amount.is_zero()).then(|| BankMsg::Send {
        to_address: config.gov.to_string(),
        amount: vec![left],
    });

    CONFIG.save(
        deps.storage,
        &Config {
            reserve_denom: new_denom.clone(),
            ..config
        },
    )?;
"""), (C + "execute/gov/update.rs", """        attr("new_denom", new_denom),
    ];

    let resp = Response::new().add_attributes(attrs);
""", """        attr("new_denom", new_denom),
    ];

    let resp = Response::new().add_messages(sweep).add_attributes(attrs);
""")],
  r'''
fn main() {
    let mut d = setup(fee(None, None), &[("uatom", "1.0")], 1000);
    d.querier.base.update_balance("gov", coins(77, "uosmo"));
    let r = run(&mut d, 10, "gov", &[], ExecuteMsg::Gov(GovMsg::UpdateReserveDenom("uusdc".into()))).unwrap();
    assert!(r.messages.is_empty());
}
''')

S("c14_whole_taken_as_fee", "C14", "a mint or burn fee of exactly one",
  "a fee rate of one, which takes everything, is accepted",
  [(C + "state/fee.rs", "    if !(Decimal::zero() < rate && rate < Decimal::one()) {", "    if !(Decimal::zero() < rate && rate.atomics() <= Decimal::one().atomics()) {")],
  r'''
fn main() {
    let mut d = setup(fee(None, None), &[("uatom", "1.0")], 1000);
    let p = |r: &str| ExecuteMsg::Gov(GovMsg::UpdateFeeStrategy(FeePayload { collector: "collector".into(), mint_fee: None, burn_fee: Some(dec(r)), streaming_fee: None }));
    assert!(run(&mut d, 10, "gov", &[], p("1")).is_err());
    assert!(run(&mut d, 10, "gov", &[], p("0")).is_err());
    run(&mut d, 10, "gov", &[], p("0.999999999999999999")).unwrap();
}
''')

S("c22_shouted_sender", "C22", "a burn redeemed to the sender's address in capitals",
  "the sender's address in capital letters is paid without being validated",
  [(C + "execute/token.rs", "        .map(|v| api.addr_validate(&v))\n        .transpose()?\n        .unwrap_or_else(|| fallback.clone()))", "        .map(|v| {\n            if v == fallback.as_str().to_uppercase() {\n                Ok(Addr::unchecked(v))\n            } else {\n                api.addr_validate(&v)\n            }\n        })\n        .transpose()?\n        .unwrap_or_else(|| fallback.clone()))")],
  r'''
fn main() {
    let mut d = setup(fee(None, None), &[("uatom", "1.0")], 1000);
    let m = |a: &str| ExecuteMsg::Mint { amount: Uint128::new(10), receiver: Some(a.into()), refund_to: None };
    let f = [coin(10, "uatom")];
    assert!(run(&mut d, 10, "user", &f, m("USER")).is_err());
    run(&mut d, 10, "user", &f, m("other")).unwrap();
}
''')
