"""Planted bugs: availability, recorded settings, events, exact closing."""
from seeds_core2 import PRE2, C, CORE
from seeds_drop import PRE as DPRE, D, DROP
from seeds_peri import PRE as PPRE, P, PERI

SEEDS = {}


def S(id, property, needs, breaks, edits, demo):
    pre, deps = {"C": (PRE2, CORE), "A": (DPRE, DROP), "P": (PPRE, PERI), "I": (PPRE, PERI)}[property[0]]
    SEEDS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=pre + demo, deps=deps)


S("c27_reserve_moved_in_whole_amounts", "C27", "deflating the reserve denom itself when its gap times the supply is not a whole number",
  "the reserve denom's own unit is lowered by the whole amount moved, so a remainder stays above its target and the rebalance cannot be finalized",
  [(C + "execute/rebalance/trade/deflate.rs", """    deflate_index_unit(&mut index_units, &reserve_denom, unit_gap)?;

    let mut reserve_units = reserve_units;
    inflate_reserve_unit(&mut reserve_units, unit_gap, rebalance.inflation)?;""", """    let unit_gap = Decimal::checked_from_ratio(amount_gap, total_supply).unwrap_or(unit_gap);
    deflate_index_unit(&mut index_units, &reserve_denom, unit_gap)?;

    let mut reserve_units = reserve_units;
    inflate_reserve_unit(&mut reserve_units, unit_gap, rebalance.inflation)?;""")],
  r'''
fn main() {
    let mut d = setup(fee(None, None), &[("uosmo", "1.0"), ("uatom", "1.0")], 7);
    rebalancing(&mut d, &[("uosmo", "0.5")], &[("ujuno", "1")], &[]);
    run(&mut d, 10, "any", &[], deflate("uosmo", 0, 0)).unwrap();
    assert_eq!(unit(&INDEX_UNITS.load(&d.storage).unwrap(), "uosmo"), dec("0.5"));
}
''')

S("c29_absent_fee_keeps_old_rate", "C29", "a fee strategy without a mint fee while one is set",
  "a new strategy that names no mint fee leaves the old one in force, so the fee cannot be abolished",
  [(C + "execute/gov/update.rs", "    fee.mint_fee = new_fee.mint_fee;", "    fee.mint_fee = new_fee.mint_fee.or(fee.mint_fee);")],
  r'''
fn main() {
    for old in [None, Some("0.1")] {
        let mut d = setup(fee(old, None), &[("uatom", "1.0")], 1000);
        let p = FeePayload { collector: "collector".into(), mint_fee: None, burn_fee: Some(dec("0.02")), streaming_fee: None };
        run(&mut d, 10, "gov", &[], ExecuteMsg::Gov(GovMsg::UpdateFeeStrategy(p))).unwrap();
        assert_eq!(FEE.load(&d.storage).unwrap().mint_fee, None);
    }
}
''')

S("c29_route_cooldown_only_grows", "C29", "registering a pair again with a shorter cooldown than before",
  "the cooldown on record is kept when a pair is registered again with a shorter one",
  [(C + "execute/gov/update.rs", """    let trade_info = TradeInfo {
        routes: routes.clone(),
        cooldown,""", """    let known = TRADE_INFOS.may_load(deps.storage, (&denom_in, &routes.denom_last()))?;
    let trade_info = TradeInfo {
        routes: routes.clone(),
        cooldown: known.map_or(cooldown, |v| v.cooldown.max(cooldown)),""")],
  r'''
fn main() {
    let mut d = setup(fee(None, None), &[("uatom", "1.0")], 1000);
    for c in [60, 30] {
        let routes: ibcx_interface::types::SwapRoutes = vec![(1u64, "uosmo")].into();
        run(&mut d, 10, "gov", &[], ExecuteMsg::Gov(GovMsg::UpdateTradeInfo { denom: "uatom".into(), routes, cooldown: c, max_trade_amount: Uint128::new(5) })).unwrap();
        assert_eq!(TRADE_INFOS.load(&d.storage, ("uatom", "uosmo")).unwrap().cooldown, c);
    }
}
''')

S("c30_last_tokens_cannot_be_burned", "C30", "burning all the tokens in existence",
  "the last holder cannot redeem: a burn of the whole supply is refused",
  [(C + "execute/token.rs", """    let mut burn_send_amount = index_units.calc_require_amount(burn_amount);""", """    if burn_amount >= total_supply {
        return Err(cosmwasm_std::StdError::generic_err("nothing would be left").into());
    }
    let mut burn_send_amount = index_units.calc_require_amount(burn_amount);""")],
  r'''
fn main() {
    for n in [999, 1000] {
        let mut d = setup(fee(None, None), &[("uatom", "1.0")], 1000);
        run(&mut d, 10, "user", &[coin(n, "uibcx")], ExecuteMsg::Burn { redeem_to: None }).unwrap();
    }
}
''')

S("c31_fee_may_not_take_everything", "C31", "minting so little that the mint fee, at least one, is all of it",
  "a paid mint whose fee takes all of it is refused although its terms are met",
  [(C + "execute/token.rs", """    // state applier
    TOTAL_SUPPLY.save(deps.storage, &(total_supply + amount))?;""", """    if mint_send.is_zero() && mint_fee.is_some() {
        return Err(cosmwasm_std::StdError::generic_err("amount too small").into());
    }

    // state applier
    TOTAL_SUPPLY.save(deps.storage, &(total_supply + amount))?;""")],
  r'''
fn main() {
    for n in [2, 1] {
        let mut d = setup(fee(Some("0.01"), None), &[("uatom", "1.0")], 1000);
        run(&mut d, 10, "user", &coins(n, "uatom"), ExecuteMsg::Mint { amount: Uint128::new(n), receiver: None, refund_to: None }).unwrap();
    }
}
''')

S("c32_no_handover_during_rebalance", "C32", "a nominee accepting while a rebalance is in progress",
  "the nominated governance cannot take over while a rebalance runs",
  [(C + "execute/gov/update.rs", """    assert_sender(&pending_gov, &info.sender)?;
    PENDING_GOV.remove(deps.storage);
""", """    assert_sender(&pending_gov, &info.sender)?;
    if REBALANCE.may_load(deps.storage)?.is_some() {
        return Err(RebalanceError::OnRebalancing.into());
    }
    PENDING_GOV.remove(deps.storage);
""")],
  r'''
fn main() {
    for on in [false, true] {
        let mut d = setup(fee(None, None), &[("uatom", "1.0")], 1000);
        if on { rebalancing(&mut d, &[("uatom", "0.5")], &[("ujuno", "1")], &[]); }
        run(&mut d, 10, "gov", &[], ExecuteMsg::Gov(GovMsg::UpdateGov("new".into()))).unwrap();
        run(&mut d, 11, "new", &[], ExecuteMsg::Gov(GovMsg::AcceptGov {})).unwrap();
    }
}
''')

S("c32_pause_not_renewed_at_expiry", "C32", "a new pause in the very second the old one expires",
  "in the second a pause expires it no longer blocks anything, yet the governance cannot pause anew",
  [(C + "execute/gov/pause.rs", "    config.assert_not_paused(&env)?;", "    config.assert_not_paused(&env)?;\n    if config.paused.expires_at.map_or(false, |v| v == env.block.time.seconds()) {\n        return Err(crate::error::ContractError::Paused {});\n    }")],
  r'''
fn main() {
    for t in [101, 100] {
        let mut d = setup(fee(None, None), &[("uatom", "1.0")], 1000);
        run(&mut d, 50, "gov", &[], ExecuteMsg::Gov(GovMsg::Pause { expires_at: Some(100) })).unwrap();
        run(&mut d, t, "gov", &[], ExecuteMsg::Gov(GovMsg::Pause { expires_at: None })).unwrap();
    }
}
''')

S("c33_finalize_needs_every_inflated_denom", "C33", "a plan that inflates a denom not in the basket and whose deflation frees nothing",
  "a completed rebalance cannot be finalized when an inflated denom got nothing",
  [(C + "execute/rebalance/finalize.rs", """    // check reserve unit has been flushed to inflation units""", """    for (denom, _) in rebalance.inflation {
        if index_units.get_key(&denom).is_none() {
            return Err(
                RebalanceError::unable_to_finalize("inflation condition did not met").into(),
            );
        }
    }

    // check reserve unit has been flushed to inflation units""")],
  r'''
fn main() {
    for x in ["uosmo", "ujuno"] {
        let mut d = setup(fee(None, None), &[("uatom", "1.0"), ("uosmo", "1.0")], 1000);
        let m = ExecuteMsg::Rebalance(RebalanceMsg::Init { manager: None, deflation: vec![("uatom".into(), dec("1.0"))], inflation: vec![(x.into(), dec("1"))] });
        run(&mut d, 10, "gov", &[], m).unwrap();
        run(&mut d, 11, "any", &[], ExecuteMsg::Rebalance(RebalanceMsg::Finalize {})).unwrap();
    }
}
''')

S("c33_largest_trade_refused", "C33", "an inflation of exactly the limit of its pair",
  "an inflation of the largest amount allowed is refused",
  [(C + "execute/rebalance/trade/inflate.rs", "    if trade_info.max_trade_amount < amount_in {", "    if trade_info.max_trade_amount <= amount_in {")],
  r'''
fn main() {
    for n in [99, 100] {
        let mut d = setup(fee(None, None), &[("uatom", "1.0")], 1000);
        rebalancing(&mut d, &[("uatom", "1.0")], &[("ujuno", "1")], &[("ujuno", "0.5")]);
        pair(&mut d, "uosmo", "ujuno", 60, 100);
        d.querier.quote = 100;
        run(&mut d, 100, "any", &[], inflate("ujuno", n, 100)).unwrap();
    }
}
''')

S("c35_revocation_reports_governance", "C35", "a governance revoking its nominee",
  "the revocation event reports the governance instead of the revoked nominee",
  [(C + "execute/gov/update.rs", """        attr("method", "gov::revoke_gov"),
        attr("executor", info.sender),
        attr("pending_gov", pending_gov),""", """        attr("method", "gov::revoke_gov"),
        attr("executor", info.sender),
        attr("pending_gov", config.gov),""")],
  r'''
fn main() {
    let mut d = setup(fee(None, None), &[("uatom", "1.0")], 1000);
    run(&mut d, 10, "gov", &[], ExecuteMsg::Gov(GovMsg::UpdateGov("new".into()))).unwrap();
    let r = run(&mut d, 10, "gov", &[], ExecuteMsg::Gov(GovMsg::RevokeGov {})).unwrap();
    assert_eq!(r.attributes.iter().find(|a| a.key == "pending_gov").unwrap().value, "new");
}
''')

S("c34_unknown_pair_is_an_error", "C34", "asking for the trade routes of a pair that was never registered",
  "the query for a pair without routes fails instead of answering that there are none",
  [(C + "query.rs", "    let trade_info = TRADE_INFOS.may_load(deps.storage, (&denom_in, &denom_out))?;", "    let trade_info = Some(TRADE_INFOS.load(deps.storage, (&denom_in, &denom_out))?);")],
  r'''
fn main() {
    let mut d = setup(fee(None, None), &[("uatom", "1.0")], 1000);
    pair(&mut d, "uatom", "uosmo", 60, 1000);
    for (x, some) in [("uatom", true), ("ujuno", false)] {
        let r: GetTradeInfoResponse = ask!(d, 10, QueryMsg::GetTradeInfo { denom_in: x.into(), denom_out: "uosmo".into() }).unwrap();
        assert_eq!(r.trade_info.is_some(), some);
    }
}
''')

S("c35_deflation_reports_the_bound", "C35", "a deflation that spends less than the caller allows",
  "the trade event reports the caller's bound as spent instead of the amount booked",
  [(C + "execute/rebalance/trade/deflate.rs", """        attr("amount_in", sim_amount_in.to_string()),""", """        attr("amount_in", max_amount_in.to_string()),""")],
  r'''
fn main() {
    for max in [100, 130] {
        let mut d = setup(fee(None, None), &[("uatom", "1.0")], 1000);
        rebalancing(&mut d, &[("uatom", "0.1")], &[("ujuno", "1")], &[]);
        pair(&mut d, "uatom", "uosmo", 60, 1000);
        d.querier.quote = 100;
        let r = run(&mut d, 100, "any", &[], deflate("uatom", 90, max)).unwrap();
        assert_eq!(r.attributes.iter().find(|a| a.key == "amount_in").unwrap().value, "100");
    }
}
''')

S("a13_last_claim_refused", "A13", "a bearer claim of exactly what is left",
  "the claim that would take the last of a bearer airdrop is refused",
  [(D + "execute/claim.rs", """    if airdrop.total_claimed > airdrop.total_amount {
        return Err(ContractError::InsufficientAirdropFunds {});
    }

    // response
    let claim_msg = BankMsg::Send {
        to_address: claimer.to_string(),
        amount: coins(amount.u128(), &airdrop.denom),
    };

    let attrs = claim_bearer_event(""", """    if airdrop.total_claimed >= airdrop.total_amount {
        return Err(ContractError::InsufficientAirdropFunds {});
    }

    // response
    let claim_msg = BankMsg::Send {
        to_address: claimer.to_string(),
        amount: coins(amount.u128(), &airdrop.denom),
    };

    let attrs = claim_bearer_event(""")],
  r'''
fn main() {
    for funds in [11, 10] {
        let mut d = setup();
        bearer(&mut d, "boss", leaf("h1", 10), funds, None).unwrap();
        run(&mut d, 9, "user", &[], ExecuteMsg::Claim(ClaimPayload::bearer_id(0, 10, None, "h1", sig("h1", "user", 10), &[]))).unwrap();
    }
}
''')

S("a13_creator_cannot_claim_own", "A13", "an open claim for the airdrop's own creator",
  "a rightful claim by the creator of an open airdrop is refused",
  [(D + "execute/claim.rs", """    assert_not_claimed(deps.storage, airdrop_id, claimer.as_str())?;""", """    assert_not_claimed(deps.storage, airdrop_id, claimer.as_str())?;
    if claimer == airdrop.creator {
        return Err(ContractError::Unauthorized {});
    }""")],
  r'''
fn main() {
    for who in ["user", "boss"] {
        let mut d = setup();
        open(&mut d, "boss", leaf(who, 10), 100, None).unwrap();
        run(&mut d, 9, who, &[], ExecuteMsg::Claim(ClaimPayload::open_id(0, 10, None, &[]))).unwrap();
    }
}
''')

S("a14_label_of_two_parts_only", "A14", "a label that itself contains a slash",
  "listing labels fails once one of them contains a slash",
  [(D + "query/label.rs", """        let (label, airdrop_id) = item?;

        let splitted: Vec<_> = label.split('/').collect();""", """        let (label, airdrop_id) = item?;

        let splitted: Vec<_> = label.split('/').collect();
        if splitted.len() != 2 {
            return Err(cosmwasm_std::StdError::generic_err("malformed label"));
        }""")],
  r'''
fn main() {
    let mut d = setup();
    for l in ["one", "a/b"] {
        open(&mut d, "boss", leaf("user", 10), 100, Some(l)).unwrap();
        let r: ListLabelsResponse = ask!(d, QueryMsg::ListLabels { start_after: None, limit: None, order: None }).unwrap();
    }
}
''')

S("a15_close_reports_all_funds", "A15", "closing an open airdrop of which something has been claimed",
  "the closing event reports the whole funding as redeemed instead of the rest paid out",
  [(D + "execute/close.rs", "close_event(info.sender, AirdropType::Open, airdrop_id, redeem_amount)", "close_event(\n        info.sender,\n        AirdropType::Open,\n        airdrop_id,\n        airdrop.total_amount,\n    )")],
  r'''
fn main() {
    for claim in [false, true] {
        let mut d = setup();
        open(&mut d, "boss", leaf("user", 10), 100, None).unwrap();
        if claim { run(&mut d, 9, "user", &[], ExecuteMsg::Claim(ClaimPayload::open_id(0, 10, None, &[]))).unwrap(); }
        let r = run(&mut d, 9, "boss", &[], ExecuteMsg::Close(AirdropId::id(0))).unwrap();
        assert_eq!(r.attributes.iter().find(|a| a.key == "redeemed").unwrap().value, if claim { "90" } else { "100" });
    }
}
''')

S("p10_exact_payment_refused", "P10", "a mint paid with exactly what it costs",
  "a mint whose payment is exactly its simulated cost is refused",
  [(P + "execute.rs", "    let sim_refund = input_asset.amount.checked_sub(sim_res.total_input)?;", "    let sim_refund = input_asset.amount.checked_sub(sim_res.total_input)?;\n    if sim_refund < Uint128::new(1) {\n        return Err(ContractError::TradeAmountExceeded {});\n    }")],
  r'''
fn main() {
    let i = || infos(&[("uosmo,uatom", &["1,uosmo"])]);
    let mut d = setup(&[("uatom", "1.0")], None, None);
    pool(&mut d, 1, "0.002", &[("uatom", 1_000_000_000, 1), ("uosmo", 2_000_000_000, 1)]);
    let q: SimulateMintExactAmountOutResponse = ask!(d, QueryMsg::SimulateMintExactAmountOut { core_addr: "core".into(), output_amount: Uint128::new(10000), input_asset: "uosmo".into(), swap_info: i() }).unwrap();
    for more in [1, 0] {
        run(&mut d, "user", &[coin(q.swap_result_amount.amount.u128() + more, "uosmo")], mint_out(10000, "uosmo", i())).unwrap();
    }
}
''')

S("p11_output_search_charged_mint_fee", "P11", "a core whose mint and burn fees differ",
  "the tokens burned for an exact output are worked out with the mint fee",
  [(P + "execute.rs", """        sim_res.min.est_min_token_in * expand_fee(core_fee.burn_fee)? - Uint128::new(1);""", """        sim_res.min.est_min_token_in * expand_fee(core_fee.mint_fee.max(core_fee.burn_fee))? - Uint128::new(1);""")],
  r'''
fn main() {
    let i = || infos(&[("uatom,uosmo", &["1,uosmo"])]);
    let mut got = vec![];
    for m in ["0.1", "0.3"] {
        let mut d = setup(&[("uatom", "1.0")], Some(m), Some("0.2"));
        pool(&mut d, 1, "0.002", &[("uatom", 1_000_000_000, 1), ("uosmo", 2_000_000_000, 1)]);
        let r = run(&mut d, "user", &[coin(1_000_000, "ibcx")], burn_out(10000, "uosmo", i())).unwrap();
        got.push(calls(&r, "core")[0].1[0].amount);
    }
    assert_eq!(got[0], got[1]);
}
''')

S("p12_gross_output_reported", "P12", "a mint on a core with a mint fee",
  "the mint event reports the amount before the core's fee as output",
  [(P + "execute.rs", """            attr("output", act_mint_asset.to_string()),""", """            attr("output", index_asset.to_string()),""")],
  r'''
fn main() {
    let i = || infos(&[("uosmo,uatom", &["1,uosmo"])]);
    for (f, out) in [(None, "10000ibcx"), (Some("0.1"), "9000ibcx")] {
        let mut d = setup(&[("uatom", "1.0")], f, None);
        pool(&mut d, 1, "0.002", &[("uatom", 1_000_000_000, 1), ("uosmo", 2_000_000_000, 1)]);
        let r = run(&mut d, "user", &[coin(30000, "uosmo")], mint_out(10000, "uosmo", i())).unwrap();
        assert_eq!(r.attributes.iter().find(|a| a.key == "output").unwrap().value, out);
    }
}
''')

# ------------------------------------------- upgrades, set-up, determinism
S("c37_cooldown_field_renamed", "C37", "a route registered and traded on before the upgrade",
  "routes recorded by the deployed contract cannot be read after the upgrade, so no trade on them is possible",
  [(C + "state/rebalance.rs", "    pub last_traded_at: Option<u64>,", "    #[serde(rename = \"traded_at\")]\n    pub last_traded_at: Option<u64>,")],
  r'''
fn main() {
    let mut d = setup(fee(None, None), &[("uatom", "1.0")], 1000);
    let mut k = vec![0, 11];
    k.extend(b"trade_infos");
    k.extend([0, 5]);
    k.extend(b"uatomuosmo");
    use cosmwasm_std::Storage;
    d.storage.set(&k, br#"{"routes":[{"pool_id":1,"token_denom":"uosmo"}],"cooldown":60,"max_trade_amount":"5","last_traded_at":7}"#);
    assert_eq!(TRADE_INFOS.load(&d.storage, ("uatom", "uosmo")).unwrap().last_traded_at, Some(7));
}
''')

S("c37_nomination_moved", "C37", "a governance handover that is pending during the upgrade",
  "the nomination recorded by the deployed contract is not found after the upgrade: the nominee cannot accept",
  [(C + "state/mod.rs", 'pub const PENDING_GOV_KEY: &str = "pending_gov";', 'pub const PENDING_GOV_KEY: &str = "gov_pending";')],
  r'''
fn main() {
    let mut d = setup(fee(None, None), &[("uatom", "1.0")], 1000);
    use cosmwasm_std::Storage;
    d.storage.set(b"pending_gov", br#""nominee""#);
    run(&mut d, 10, "nominee", &[], ExecuteMsg::Gov(GovMsg::AcceptGov {})).unwrap();
}
''')

S("c38_candidates_cannot_be_left", "C38", "upgrading from a release candidate",
  "a contract at a pre-release version cannot be migrated",
  [("packages/utils/src/lib.rs", "    if cv >= nv {", "    if !cv.pre.is_empty() || cv >= nv {")],
  r'''
fn main() {
    for v in ["0.0.1", "0.0.1-rc.1"] {
        let mut d = setup(fee(None, None), &[("uatom", "1.0")], 1000);
        use cosmwasm_std::Storage;
        d.storage.set(b"contract_info", format!(r#"{{"contract":"ibcx-core","version":"{}"}}"#, v).as_bytes());
        ibcx_core::contract::migrate(d.as_mut(), at(10), MigrateMsg { force: None }).unwrap();
    }
}
''')

S("c38_collector_may_not_govern", "C38", "an index whose governance collects the fees itself",
  "an index contract whose governance is its fee collector cannot be set up",
  [("contracts/core/src/contract.rs", """    // apply initial state
""", """    if config.gov == fee.collector {
        return Err(ValidationError::invalid_config("gov", "collects the fees").into());
    }

    // apply initial state
""")],
  r'''
fn main() {
    for gov in ["gov", "collector"] {
        let mut d = setup(fee(None, None), &[("uatom", "1.0")], 1000);
        let m = InstantiateMsg {
            gov: gov.into(),
            fee: FeePayload { collector: "collector".into(), mint_fee: None, burn_fee: None, streaming_fee: None },
            index_denom: "uibcx".into(),
            index_units: vec![("uatom".into(), dec("1"))],
            reserve_denom: "uosmo".into(),
        };
        ibcx_core::contract::instantiate(d.as_mut(), at(10), cosmwasm_std::testing::mock_info("any", &[]), m).unwrap();
    }
}
''')

S("a16_claimed_total_renamed", "A16", "an airdrop registered before the upgrade",
  "airdrops recorded by the deployed contract cannot be read after the upgrade, so nothing can be claimed or closed",
  [(D + "airdrop.rs", """    pub signer: Addr,
    pub signer_pub: Binary,
""", """    pub signer: Addr,
    #[serde(rename = "signer_pubkey")]
    pub signer_pub: Binary,
""")],
  r'''
fn main() {
    let mut d = setup();
    let mut k = vec![0, 8];
    k.extend(b"airdrops");
    k.extend(1u64.to_be_bytes());
    d.storage.set(&k, br#"{"bearer":{"creator":"creator","signer":"signer","signer_pub":"AgcHBw==","denom":"uosmo","total_amount":"10","total_claimed":"0","merkle_root":"00","label":null,"created_at":1,"closed_at":null}}"#);
    query(d.as_ref(), at(5), QueryMsg::GetAirdrop { id: AirdropId::Id(1) }).unwrap();
}
''')

S("a17_forced_needs_a_version", "A17", "a forced migration of a contract without a version on record",
  "a forced migration is refused where no version was ever recorded, the case it exists for",
  [(D + "contract.rs", """    } else {
        cw2::set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;
    }

    Ok(Default::default())
}""", """    } else {
        cw2::get_contract_version(deps.storage)?;
        cw2::set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;
    }

    Ok(Default::default())
}""")],
  r'''
fn main() {
    for known in [true, false] {
        let mut d = setup();
        if !known {
            d.storage.remove(b"contract_info");
        }
        migrate(d.as_mut(), at(5), MigrateMsg { force: Some(true) }).unwrap();
    }
}
''')

S("p14_only_patches", "P14", "an upgrade from an earlier minor version",
  "a contract can only be upgraded from a version of the same minor number",
  [("packages/utils/src/lib.rs", "    if cv >= nv {", "    if cv >= nv || cv.minor != nv.minor {")],
  r'''
fn main() {
    for v in ["0.1.0", "0.0.9"] {
        let mut d = setup(&[("uatom", "1.0")], None, None);
        d.storage.set(b"contract_info", format!(r#"{{"contract":"ibcx-periphery","version":"{}"}}"#, v).as_bytes());
        migrate(d.as_mut(), at(), MigrateMsg { force: None }).unwrap();
    }
}
''')

S("p13_overshooting_search_aborts", "P13", "a quote for an output far below the first guess",
  "a search that comes in slightly above the wanted output aborts instead of going on",
  [("packages/pool/src/sim/index_in.rs", "            if Decimal::one() <= err\n", "            if Decimal::percent(99) <= err\n")],
  r'''
fn main() {
    let i = || infos(&[("uatom,uosmo", &["1,uosmo"])]);
    let mut d = setup(&[("uatom", "1.0")], None, None);
    pool(&mut d, 1, "0.002", &[("uatom", 1_000_000_000, 1), ("uosmo", 2_000_000_000, 1)]);
    for n in [3_000_000, 10_000] {
        let q: SimulateBurnExactAmountOutResponse = ask!(d, QueryMsg::SimulateBurnExactAmountOut { core_addr: "core".into(), output_asset: coin(n, "uosmo"), swap_info: i() }).unwrap();
        assert!(!q.burn_amount.is_zero());
    }
}
''')

S("i07_pools_asked_in_hash_order", "I07", "swap info naming several pools",
  "the pools are asked for in the order of a hash table, which differs from node to node",
  [("packages/interface/src/periphery.rs", "        .collect::<Vec<_>>();\n\n    pool_ids.sort();\n\n    pool_ids\n", "        .collect::<Vec<_>>();\n\n    if pool_ids.windows(2).any(|w| w[0] == w[1]) {\n        pool_ids.sort();\n    }\n\n    pool_ids\n")],
  r'''
fn main() {
    let ids: Vec<String> = (1..20).map(|x| format!("{},d{}", x, x)).collect();
    let ids: Vec<&str> = ids.iter().map(|x| x.as_str()).collect();
    let v: Vec<SwapInfo> = infos(&[("a,d19", &ids[..])]).into();
    let first = extract_pool_ids(v.clone());
    for _ in 0..10 {
        assert_eq!(extract_pool_ids(v.clone()), first);
    }
}
''')
