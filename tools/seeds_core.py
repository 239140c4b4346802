"""Planted bugs in the index token contract."""
CORE = [("ibcx-core", "contracts/core"), ("ibcx-interface", "packages/interface")]
C = "contracts/core/src/"
PRE = r'''#![allow(unused)]
use cosmwasm_std::testing::*;
use cosmwasm_std::{coin, coins, Addr, BankMsg, Coin, CosmosMsg, Decimal, Empty, Env, OwnedDeps, Response, Timestamp, Uint128, WasmMsg};
use ibcx_core::contract::{execute, instantiate, query};
use ibcx_core::state::*;
use ibcx_interface::core::*;
use std::str::FromStr;

type D = OwnedDeps<MockStorage, MockApi, MockQuerier>;

fn dec(s: &str) -> Decimal { Decimal::from_str(s).unwrap() }
fn units(v: &[(&str, &str)]) -> Units { v.iter().map(|(d, u)| (d.to_string(), dec(u))).collect::<Vec<_>>().into() }
fn at(t: u64) -> Env { let mut e = mock_env(); e.block.time = Timestamp::from_seconds(t); e }
fn setup(fee: Fee, u: &[(&str, &str)], supply: u128) -> D {
    let mut d = mock_dependencies();
    let s = d.as_mut().storage;
    CONFIG.save(s, &Config { gov: Addr::unchecked("gov"), paused: Default::default(), index_denom: "uibcx".into(), reserve_denom: "uosmo".into() }).unwrap();
    FEE.save(s, &fee).unwrap();
    TOTAL_SUPPLY.save(s, &Uint128::new(supply)).unwrap();
    INDEX_UNITS.save(s, &units(u)).unwrap();
    d
}
fn fee(mint: Option<&str>, burn: Option<&str>) -> Fee {
    Fee { collector: Addr::unchecked("collector"), mint_fee: mint.map(dec), burn_fee: burn.map(dec), streaming_fee: None }
}
fn sends(r: &Response) -> Vec<(String, Vec<Coin>)> {
    r.messages.iter().filter_map(|m| match &m.msg { CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => Some((to_address.clone(), amount.clone())), _ => None }).collect()
}
fn run(d: &mut D, t: u64, who: &str, f: &[Coin], m: ExecuteMsg) -> Result<Response, String> {
    execute(d.as_mut(), at(t), mock_info(who, f), m).map_err(|e| e.to_string())
}
'''
SEEDS = {}


def S(id, property, needs, breaks, edits, demo):
    SEEDS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=PRE + demo, deps=CORE)


S("c01_manager_replaces_manager", "C01", "an appointed manager sending the manager replacement itself",
  "the appointed rebalance manager can hand its role on without the governance",
  [(C + "execute/gov/update.rs", """    let config = CONFIG.load(deps.storage)?;

    config.check_gov(&info.sender)?;

    let rebalance = match REBALANCE.may_load(deps.storage)? {
        Some(r) => r,
        None => return Err(RebalanceError::NotOnRebalancing.into()),
    };
""", """    let config = CONFIG.load(deps.storage)?;

    let rebalance = match REBALANCE.may_load(deps.storage)? {
        Some(r) => r,
        None => return Err(RebalanceError::NotOnRebalancing.into()),
    };

    if rebalance.manager.as_ref() != Some(&info.sender) {
        config.check_gov(&info.sender)?;
    }
""")],
  r'''
fn main() {
    let mut d = setup(fee(None, None), &[("uatom", "1.0")], 1000);
    REBALANCE.save(d.as_mut().storage, &Rebalance { manager: Some(Addr::unchecked("manager")), deflation: units(&[("uatom", "0.5")]), inflation: units(&[("ujuno", "1")]) }).unwrap();
    let r = run(&mut d, 10, "manager", &[], ExecuteMsg::Gov(GovMsg::UpdateRebalanceManager(Some("friend".into()))));
    assert!(r.is_err(), "manager replaced itself");
    run(&mut d, 10, "gov", &[], ExecuteMsg::Gov(GovMsg::UpdateRebalanceManager(Some("friend".into())))).unwrap();
}
''')

S("c02_accept_keeps_nomination", "C02", "two hand-overs in a row: an old nominee accepts again after a later governance took over",
  "the nomination survives acceptance when the nominee already is the governance's own address or it is re-accepted, so a former nominee can retake the governance",
  [(C + "execute/gov/update.rs", """    assert_sender(&pending_gov, &info.sender)?;
    PENDING_GOV.remove(deps.storage);

    let mut config = CONFIG.load(deps.storage)?;
""", """    assert_sender(&pending_gov, &info.sender)?;

    let mut config = CONFIG.load(deps.storage)?;
    if config.gov == pending_gov {
        PENDING_GOV.remove(deps.storage);
    }
"""), ],
  r'''
fn main() {
    let mut d = setup(fee(None, None), &[("uatom", "1.0")], 1000);
    run(&mut d, 10, "gov", &[], ExecuteMsg::Gov(GovMsg::UpdateGov("alice".into()))).unwrap();
    run(&mut d, 10, "alice", &[], ExecuteMsg::Gov(GovMsg::AcceptGov {})).unwrap();
    // consumed: nobody can accept, and the new governance can nominate
    assert!(run(&mut d, 10, "alice", &[], ExecuteMsg::Gov(GovMsg::AcceptGov {})).is_err());
    run(&mut d, 10, "alice", &[], ExecuteMsg::Gov(GovMsg::UpdateGov("bob".into()))).unwrap();
}
''')

S("c04_expired_pause_release", "C04", "a release after the pause has expired, then state left as paused",
  "a pause with an expiry blocks minting at the very second it expires and a new pause cannot be made then",
  [(C + "state/pause.rs", "                if expiry <= env.block.time.seconds() {", "                if expiry <= env.block.time.minus_nanos(1).seconds() {")],
  r'''
fn main() {
    let mut d = setup(fee(None, None), &[("uatom", "1.0")], 1000);
    run(&mut d, 10, "gov", &[], ExecuteMsg::Gov(GovMsg::Pause { expires_at: Some(20) })).unwrap();
    let m = || ExecuteMsg::Mint { amount: Uint128::new(5), receiver: None, refund_to: None };
    assert!(run(&mut d, 19, "u", &[coin(5, "uatom")], m()).is_err());
    run(&mut d, 20, "u", &[coin(5, "uatom")], m()).unwrap();
}
''')

S("c05_reserve_denom_during_rebalance", "C05", "a reserve denom update to a denom that is not traded, while a rebalance runs",
  "the reserve denom changes mid-rebalance when the new denom is not part of the plan",
  [(C + "execute/gov/update.rs", """    config.check_gov(&info.sender)?;
    if REBALANCE.may_load(deps.storage)?.is_some() {
        return Err(RebalanceError::OnRebalancing.into());
    }

    CONFIG.save(
        deps.storage,
        &Config {
            reserve_denom: new_denom.clone(),""", """    config.check_gov(&info.sender)?;
    if let Some(rebalance) = REBALANCE.may_load(deps.storage)? {
        if rebalance.deflation.get_key(&new_denom).is_none() {
            return Err(RebalanceError::OnRebalancing.into());
        }
    }

    CONFIG.save(
        deps.storage,
        &Config {
            reserve_denom: new_denom.clone(),""")],
  r'''
fn main() {
    let mut d = setup(fee(None, None), &[("uatom", "1.0")], 1000);
    REBALANCE.save(d.as_mut().storage, &Rebalance { manager: None, deflation: units(&[("uatom", "0.5")]), inflation: units(&[("ujuno", "1")]) }).unwrap();
    for n in ["uatom", "ujuno", "ustars"] {
        assert!(run(&mut d, 10, "gov", &[], ExecuteMsg::Gov(GovMsg::UpdateReserveDenom(n.into()))).is_err());
    }
}
''')

S("c06_fee_waived_for_single_unit", "C06", "a mint whose fee equals or exceeds the minted amount (a one-unit mint)",
  "the one-unit minimum mint fee is waived when it would consume the whole mint",
  [(C + "execute/token.rs", "    let mint_fee = fee.mint_fee.map(|v| (v * amount).max(Uint128::one()));", "    let mint_fee = fee\n        .mint_fee\n        .map(|v| (v * amount).max(Uint128::one()))\n        .filter(|v| *v < amount);")],
  r'''
fn main() {
    for a in [1u128, 2, 7, 1000] {
        let mut d = setup(fee(Some("0.003"), None), &[("uatom", "1.0")], 1000);
        let r = run(&mut d, 10, "u", &[coin(a, "uatom")], ExecuteMsg::Mint { amount: Uint128::new(a), receiver: None, refund_to: None }).unwrap();
        let want = std::cmp::max(1, a * 3 / 1000);
        let f: u128 = sends(&r).iter().filter(|(t, _)| t == "collector").flat_map(|(_, c)| c).map(|c| c.amount.u128()).sum();
        assert_eq!(f, want, "fee of a mint of {a}");
    }
}
''')

S("c07_redeem_rounded_up_to_one", "C07", "a burn so small that a unit times the amount rounds to zero",
  "redemption pays at least one unit of every asset, more than the burned tokens are worth",
  [(C + "execute/token.rs", "    burn_send_amount.sort_by(|a, b| a.denom.cmp(&b.denom));", "    burn_send_amount\n        .iter_mut()\n        .for_each(|v| v.amount = v.amount.max(Uint128::one()));\n    burn_send_amount.sort_by(|a, b| a.denom.cmp(&b.denom));")],
  r'''
fn main() {
    let mut d = setup(fee(None, None), &[("uatom", "0.01"), ("uosmo", "3")], 1000);
    let r = run(&mut d, 10, "u", &[coin(7, "uibcx")], ExecuteMsg::Burn { redeem_to: None }).unwrap();
    let paid: u128 = sends(&r).iter().flat_map(|(_, c)| c).filter(|c| c.denom == "uatom").map(|c| c.amount.u128()).sum();
    assert_eq!(paid, 0);
}
''')

S("c08_zero_requirement_skipped", "C08", "a mint so small that an asset's requirement rounds to zero",
  "an asset whose requirement rounds to zero need not be supplied at all",
  [(C + "state/units.rs", "            .map(|v| coin(v.amount.max(Uint128::one()).u128(), v.denom))\n            .collect::<Vec<_>>();\n        let mut denoms", "            .filter(|v| !v.amount.is_zero())\n            .collect::<Vec<_>>();\n        let mut denoms")],
  r'''
fn main() {
    let mut d = setup(fee(None, None), &[("uatom", "0.01"), ("uosmo", "3")], 1000);
    let m = || ExecuteMsg::Mint { amount: Uint128::new(7), receiver: None, refund_to: None };
    assert!(run(&mut d, 10, "u", &[coin(21, "uosmo")], m()).is_err());
    let r = run(&mut d, 10, "u", &[coin(5, "uatom"), coin(21, "uosmo")], m()).unwrap();
    let back: u128 = sends(&r).iter().flat_map(|(_, c)| c).filter(|c| c.denom == "uatom").map(|c| c.amount.u128()).sum();
    assert_eq!(back, 4);
}
''')

