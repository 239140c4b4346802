"""Behaviour-preserving rewrites: governance, pause, trades, token, airdrop handlers, versions, periphery queries."""
REFS = {}
C = "contracts/core/src/"
D = "contracts/airdrop/src/"
P = "contracts/periphery/src/"


def R(n, pre, *edits):
    REFS[n] = [(pre + p, a, b) for p, a, b in edits]


R("gov_auth_helper", C, ("execute/gov/update.rs", """pub fn update_gov(deps: DepsMut, info: MessageInfo, new_gov: String) -> StdResult<Response> {
    let config = CONFIG.load(deps.storage)?;

    config.check_gov(&info.sender)?;

    if PENDING_GOV""", """fn gov_config(deps: &DepsMut, info: &MessageInfo) -> StdResult<Config> {
    let config = CONFIG.load(deps.storage)?;
    config.check_gov(&info.sender)?;
    Ok(config)
}

fn not_rebalancing(deps: &DepsMut) -> StdResult<()> {
    match REBALANCE.may_load(deps.storage)? {
        Some(_) => Err(RebalanceError::OnRebalancing.into()),
        None => Ok(()),
    }
}

pub fn update_gov(deps: DepsMut, info: MessageInfo, new_gov: String) -> StdResult<Response> {
    gov_config(&deps, &info)?;

    if PENDING_GOV"""), ("execute/gov/update.rs", """    let config = CONFIG.load(deps.storage)?;

    config.check_gov(&info.sender)?;
    if REBALANCE.may_load(deps.storage)?.is_some() {
        return Err(RebalanceError::OnRebalancing.into());
    }

    // update
""", """    gov_config(&deps, &info)?;
    not_rebalancing(&deps)?;

    // update
"""), ("execute/gov/update.rs", """    let config = CONFIG.load(deps.storage)?;

    config.check_gov(&info.sender)?;
    if REBALANCE.may_load(deps.storage)?.is_some() {
        return Err(RebalanceError::OnRebalancing.into());
    }

    CONFIG.save(
        deps.storage,
        &Config {
            reserve_denom: new_denom.clone(),
            ..config
        },
    )?;
""", """    let mut config = gov_config(&deps, &info)?;
    not_rebalancing(&deps)?;

    config.reserve_denom = new_denom.clone();
    CONFIG.save(deps.storage, &config)?;
"""), ("execute/gov/update.rs", """    let config = CONFIG.load(deps.storage)?;

    config.check_gov(&info.sender)?;

    let trade_info = TradeInfo {""", """    gov_config(&deps, &info)?;

    let trade_info = TradeInfo {"""))

R("gov_nominate_match", C, ("execute/gov/update.rs", """    if PENDING_GOV.may_load(deps.storage)?.is_some() {
        return Err(StdError::generic_err("pending gov exists").into());
    }
    PENDING_GOV.save(deps.storage, &deps.api.addr_validate(&new_gov)?)?;
""", """    let nominee = deps.api.addr_validate(&new_gov)?;
    match PENDING_GOV.may_load(deps.storage)? {
        None => PENDING_GOV.save(deps.storage, &nominee)?,
        Some(_) => return Err(StdError::generic_err("pending gov exists").into()),
    }
"""), ("execute/gov/update.rs", """    let pending_gov = PENDING_GOV.load(deps.storage)?;

    let config = CONFIG.load(deps.storage)?;

    config.check_gov(&info.sender)?;

    PENDING_GOV.remove(deps.storage);
""", """    CONFIG.load(deps.storage)?.check_gov(&info.sender)?;

    let pending_gov = PENDING_GOV.load(deps.storage)?;
    PENDING_GOV.remove(deps.storage);
"""))

R("gov_accept_update", C, ("execute/gov/update.rs", """    PENDING_GOV.remove(deps.storage);

    let mut config = CONFIG.load(deps.storage)?;

    config.gov = pending_gov;

    CONFIG.save(deps.storage, &config)?;
""", """    let config = CONFIG.update(deps.storage, |c| {
        StdResult::Ok(Config {
            gov: pending_gov,
            ..c
        })
    })?;
    PENDING_GOV.remove(deps.storage);
"""))

R("gov_trade_info_saved_key", C, ("execute/gov/update.rs", """    let trade_info = TradeInfo {
        routes: routes.clone(),
        cooldown,
        max_trade_amount,
        last_traded_at: None,
    };

    TRADE_INFOS.save(deps.storage, (&denom_in, &routes.denom_last()), &trade_info)?;
""", """    let denom_out = routes.denom_last();
    TRADE_INFOS.save(
        deps.storage,
        (denom_in.as_str(), denom_out.as_str()),
        &TradeInfo {
            last_traded_at: None,
            max_trade_amount,
            cooldown,
            routes: routes.clone(),
        },
    )?;
"""), ("execute/gov/update.rs", """        attr("denom_out", routes.denom_last()),
""", """        attr("denom_out", denom_out),
"""))

R("pause_expiry_let", C, ("execute/gov/pause.rs", """    if let Some(expires_at) = expires_at {
        if env.block.time.seconds() >= expires_at {
            return Err(ValidationError::invalid_pause_info("expiry must be in the future").into());
        }
    }

    let new_pause_info = PauseInfo {
        paused: true,
        expires_at,
    };

    CONFIG.save(
        deps.storage,
        &Config {
            paused: new_pause_info,
            ..config
        },
    )?;
""", """    let now = env.block.time.seconds();
    match expires_at {
        Some(at) if at <= now => {
            return Err(ValidationError::invalid_pause_info("expiry must be in the future").into());
        }
        _ => {}
    }

    let mut config = config;
    config.paused.paused = true;
    config.paused.expires_at = expires_at;
    CONFIG.save(deps.storage, &config)?;
"""), ("execute/gov/pause.rs", """            expires_at
                .map(|v| v.to_string())
                .as_deref()
                .unwrap_or("never"),
""", """            match expires_at {
                Some(v) => v.to_string(),
                None => "never".to_string(),
            },
"""))

R("pause_status_fn", C, ("state/pause.rs", """impl PauseInfo {
    pub fn refresh(self, env: &Env) -> StdResult<Self> {
        if self.paused {
            if let Some(expiry) = self.expires_at {
                if expiry <= env.block.time.seconds() {
                    return Ok(Default::default());
                }
            }
        }

        Ok(self)
    }
""", """impl PauseInfo {
    fn expired(&self, now: u64) -> bool {
        self.paused && self.expires_at.map_or(false, |at| now >= at)
    }

    pub fn refresh(self, env: &Env) -> StdResult<Self> {
        Ok(if self.expired(env.block.time.seconds()) {
            PauseInfo {
                paused: false,
                expires_at: None,
            }
        } else {
            self
        })
    }
"""), ("state/config.rs", """        self.paused.clone().refresh(env)?.assert_not_paused()?;
        Ok(())
""", """        let status = self.paused.clone().refresh(env)?;
        status.assert_not_paused().map(|_| ())
"""))

R("sender_check_inline", C, ("state/config.rs", """        assert_sender(&self.gov, sender)?;
        Ok(())
""", """        if self.gov == *sender {
            Ok(())
        } else {
            Err(ContractError::Unauthorized {})
        }
"""), ("state/config.rs", "use crate::{assert_sender, error::ContractError};", "use crate::error::ContractError;"),
  ("lib.rs", """    if expected != actual {
        Err(ContractError::Unauthorized {})
    } else {
        Ok(())
    }
""", """    if expected.as_str() == actual.as_str() {
        return Ok(());
    }
    Err(ContractError::Unauthorized {})
"""))

R("finalize_checks_fn", C, ("execute/rebalance/finalize.rs", """    // check deflation
    for (denom, target_unit) in rebalance.deflation {
        let (_, current_unit) = index_units.get_key(&denom).unwrap();

        if &target_unit < current_unit {
            return Err(
                RebalanceError::unable_to_finalize("deflation condition did not met").into(),
            );
        }
    }
""", """    check_deflated(&index_units, rebalance.deflation)?;
"""), ("execute/rebalance/finalize.rs", """pub fn finalize(deps: DepsMut, env: Env""", """fn check_deflated(current: &Units, targets: Units) -> StdResult<()> {
    for (denom, target) in targets {
        let (_, unit) = current.get_key(&denom).unwrap();
        if *unit > target {
            return Err(
                RebalanceError::unable_to_finalize("deflation condition did not met").into(),
            );
        }
    }
    Ok(())
}

pub fn finalize(deps: DepsMut, env: Env"""), ("execute/rebalance/finalize.rs", "    state::{FEE, INDEX_UNITS, REBALANCE, RESERVE_UNITS},\n    StdResult,\n};\n\nfn un", "    state::{Units, FEE, INDEX_UNITS, REBALANCE, RESERVE_UNITS},\n    StdResult,\n};\n\nfn un"))

R("finalize_prune_loop", C, ("execute/rebalance/finalize.rs", """    INDEX_UNITS.save(
        deps.storage,
        &index_units
            .into_iter()
            .filter(|(_, current_unit)| !current_unit.is_zero())
            .collect::<Vec<_>>()
            .into(),
    )?;
""", """    let mut kept = vec![];
    for (denom, unit) in index_units {
        if unit.is_zero() {
            continue;
        }
        kept.push((denom, unit));
    }
    INDEX_UNITS.save(deps.storage, &kept.into())?;
"""), ("execute/rebalance/finalize.rs", """    unfreeze_streaming_fee(deps.storage, env.block.time.seconds())?;

    let rebalance""", """    let rebalance"""), ("execute/rebalance/finalize.rs", """    REBALANCE.remove(deps.storage);
    RESERVE_UNITS.remove(deps.storage);

    // response""", """    RESERVE_UNITS.remove(deps.storage);
    REBALANCE.remove(deps.storage);
    unfreeze_streaming_fee(deps.storage, env.block.time.seconds())?;

    // response"""))

R("init_guards_fn", C, ("execute/rebalance/init.rs", """    freeze_streaming_fee(deps.storage)?;

    let config = CONFIG.load(deps.storage)?;

    config.check_gov(&info.sender)?;

    if REBALANCE.may_load(deps.storage)?.is_some() {
        return Err(RebalanceError::OnRebalancing.into());
    }
""", """    CONFIG.load(deps.storage)?.check_gov(&info.sender)?;

    let ongoing = REBALANCE.may_load(deps.storage)?.is_some();
    if ongoing {
        return Err(RebalanceError::OnRebalancing.into());
    }
    freeze_streaming_fee(deps.storage)?;
"""), ("execute/rebalance/init.rs", """    FEE.update(storage, |mut v| {
        if let Some(streaming_fee) = v.streaming_fee.as_mut() {
            streaming_fee.freeze = true;
        }
        StdResult::Ok(v)
    })?;

    Ok(())
""", """    let mut fee = FEE.load(storage)?;
    if let Some(mut streaming) = fee.streaming_fee.take() {
        streaming.freeze = true;
        fee.streaming_fee = Some(streaming);
    }
    FEE.save(storage, &fee)?;

    Ok(())
"""))

R("trade_common_helper", C, ("execute/rebalance/trade/mod.rs", """pub fn load_units(""", """pub fn deducted_unit(
    amount: Uint128,
    whole: Uint128,
    whole_unit: Decimal,
    supply: Uint128,
) -> StdResult<Decimal> {
    if amount == whole {
        return Ok(whole_unit);
    }
    Ok(Decimal::checked_from_ratio(amount, supply)?)
}

pub fn load_units("""), ("execute/rebalance/trade/mod.rs", "use cosmwasm_std::{DepsMut,", "use cosmwasm_std::{Decimal, DepsMut,"),
  ("execute/rebalance/trade/inflate.rs", """    let reserve_deduct_unit = if amount_in == reserve_amount {
        reserve_unit
    } else {
        Decimal::checked_from_ratio(amount_in, total_supply)?
    };
""", """    let reserve_deduct_unit = deducted_unit(amount_in, reserve_amount, reserve_unit, total_supply)?;
"""), ("execute/rebalance/trade/inflate.rs", "use super::load_units;", "use super::{deducted_unit, load_units};"),
  ("execute/rebalance/trade/deflate.rs", """    let index_deduct_unit = if sim_amount_in == amount_gap {
        unit_gap
    } else {
        Decimal::checked_from_ratio(sim_amount_in, total_supply)?
    };
""", """    let index_deduct_unit = deducted_unit(sim_amount_in, amount_gap, unit_gap, total_supply)?;
"""), ("execute/rebalance/trade/deflate.rs", "use super::load_units;", "use super::{deducted_unit, load_units};"))

R("trade_units_closure", C, ("execute/rebalance/trade/inflate.rs", """    let (_, reserve_unit) = *reserve_units.get_key(&target_denom).unwrap();

    // check trade_info""", """    let unit_of = |units: &crate::state::Units| units.get_key(&target_denom).unwrap().1;
    let reserve_unit = unit_of(&reserve_units);

    // check trade_info"""), ("execute/rebalance/trade/inflate.rs", """    if trade_info.max_trade_amount < amount_in {
        return Err(RebalanceError::trade_error("inflate", "exceeds maximum trade limit").into());
    }

    // calculate available amount to swap
    let reserve_amount = reserve_unit * total_supply;
    if reserve_amount < amount_in {
        return Err(RebalanceError::trade_error("inflate", "insufficient amount to swap").into());
    }
""", """    let reserve_amount = reserve_unit * total_supply;
    let problem = if amount_in > trade_info.max_trade_amount {
        Some("exceeds maximum trade limit")
    } else if amount_in > reserve_amount {
        Some("insufficient amount to swap")
    } else {
        None
    };
    if let Some(reason) = problem {
        return Err(RebalanceError::trade_error("inflate", reason).into());
    }
"""))

R("trade_dispatch_reserve", C, ("execute/rebalance/trade/mod.rs", """    match msg {
        Deflate {
            target_denom,
            amount_out,
            max_amount_in,
        } => {
            if CONFIG.load(deps.storage)?.reserve_denom == target_denom {
                deflate_reserve(deps, info, target_denom)
            } else {
                deflate(deps, env, info, target_denom, amount_out, max_amount_in)
            }
        }
""", """    let reserve_denom = CONFIG.load(deps.storage)?.reserve_denom;

    match msg {
        Deflate {
            target_denom,
            amount_out,
            max_amount_in,
        } => {
            if reserve_denom != target_denom {
                return deflate(deps, env, info, target_denom, amount_out, max_amount_in);
            }
            deflate_reserve(deps, info, reserve_denom)
        }
"""), ("execute/rebalance/trade/mod.rs", """            if CONFIG.load(deps.storage)?.reserve_denom == target_denom {
                inflate_reserve(deps, info, target_denom)
            } else {
                inflate(deps, env, info, target_denom, amount_in, min_amount_out)
            }
""", """            if reserve_denom != target_denom {
                return inflate(deps, env, info, target_denom, amount_in, min_amount_out);
            }
            inflate_reserve(deps, info, reserve_denom)
"""))

R("deflate_shares_vec", C, ("execute/rebalance/trade/deflate.rs", """    let mut expand_unit = inflate_unit;
    let mut total_weight = inflations.iter().map(|(_, v)| *v).sum::<Decimal>();
    for (denom, weight) in inflations {
        let sub_unit = expand_unit * weight / total_weight;
        reserve_units.add_key(&denom, sub_unit)?;

        expand_unit = expand_unit.checked_sub(sub_unit)?;
        total_weight = total_weight.checked_sub(weight)?;
    }
""", """    let mut total_weight = Decimal::zero();
    for (_, weight) in inflations.iter() {
        total_weight += *weight;
    }
    let mut left = (inflate_unit, total_weight);
    for (denom, weight) in inflations {
        let (unit, total) = left;
        let share = unit * weight / total;
        left = (unit.checked_sub(share)?, total.checked_sub(weight)?);
        reserve_units.add_key(&denom, share)?;
    }
"""))

R("token_guard_and_sums", C, ("execute/token.rs", """    let config = CONFIG.load(deps.storage)?;

    config.assert_not_paused(&env)?;
    if REBALANCE.may_load(deps.storage)?.is_some() {
        return Err(RebalanceError::OnRebalancing.into());
    }

    // addresses
    let receiver""", """    let config = assert_running(&deps, &env)?;

    // addresses
    let receiver"""), ("execute/token.rs", """    let config = CONFIG.load(deps.storage)?;

    config.assert_not_paused(&env)?;
    if REBALANCE.may_load(deps.storage)?.is_some() {
        return Err(RebalanceError::OnRebalancing.into());
    }

    // addresses
    let redeem_to = unwrap_addr(deps.api, redeem_to, &info.sender)?;

    // state loader
    let config = CONFIG.load(deps.storage)?;
""", """    let config = assert_running(&deps, &env)?;

    // addresses
    let redeem_to = unwrap_addr(deps.api, redeem_to, &info.sender)?;

    // state loader
"""), ("execute/token.rs", "fn unwrap_addr(", """fn assert_running(deps: &DepsMut, env: &Env) -> StdResult<crate::state::Config> {
    if REBALANCE.may_load(deps.storage)?.is_some() {
        return Err(RebalanceError::OnRebalancing.into());
    }
    let config = CONFIG.load(deps.storage)?;
    config.assert_not_paused(env)?;
    Ok(config)
}

fn unwrap_addr("""), ("execute/token.rs", """    TOTAL_SUPPLY.save(deps.storage, &(total_supply + amount))?;
""", """    let new_supply = total_supply.checked_add(amount)?;
    TOTAL_SUPPLY.save(deps.storage, &new_supply)?;
"""))

R("token_send_helper", C, ("execute/token.rs", "fn unwrap_addr(", """fn send(to: impl Into<String>, amount: Vec<cosmwasm_std::Coin>) -> CosmosMsg {
    BankMsg::Send {
        to_address: to.into(),
        amount,
    }
    .into()
}

fn unwrap_addr("""), ("execute/token.rs", """    // send fee to collector
    let fee_send_msg = mint_fee.map(|v| BankMsg::Send {
        to_address: fee.collector.into_string(),
        amount: coins(v.u128(), &config.index_denom),
    });

    // send 100 - fee to minter
    let mint_send_msg = BankMsg::Send {
        to_address: receiver.to_string(),
        amount: coins(mint_send.u128(), &config.index_denom),
    };
    // and send rest of funds to minter
    let refund_send_msg = BankMsg::Send {
        to_address: refund_to.to_string(),
        amount: refund,
    };

    // filter out None - if mint fee not set
    let msgs = [
        Some(mint_msg.into()),
        fee_send_msg.map(|v| v.into()),
        Some(mint_send_msg.into()),
        Some(refund_send_msg.into()),
    ]
    .into_iter()
    .flatten()
    .collect::<Vec<CosmosMsg>>();
""", """    let mut msgs: Vec<CosmosMsg> = Vec::with_capacity(4);
    msgs.push(mint_msg.into());
    if let Some(v) = mint_fee {
        msgs.push(send(fee.collector, coins(v.u128(), &config.index_denom)));
    }
    msgs.extend([
        send(receiver.clone(), coins(mint_send.u128(), &config.index_denom)),
        send(refund_to.clone(), refund),
    ]);
"""))

R("drop_accrue_claim", D, ("execute/claim.rs", """fn claim_open_event(""", """fn claimed_total(total_amount: Uint128, claimed: Uint128, amount: Uint128) -> Result<Uint128, ContractError> {
    let next = claimed.checked_add(amount)?;
    if next <= total_amount {
        Ok(next)
    } else {
        Err(ContractError::InsufficientAirdropFunds {})
    }
}

fn claim_open_event("""), ("execute/claim.rs", """    verify_merkle_proof(&airdrop.merkle_root, merkle_proof, claimer.as_str(), amount)?;

    // claim
    airdrop.total_claimed = airdrop.total_claimed.checked_add(amount)?;
    if airdrop.total_claimed > airdrop.total_amount {
        return Err(ContractError::InsufficientAirdropFunds {});
    }
""", """    verify_merkle_proof(&airdrop.merkle_root, merkle_proof, claimer.as_str(), amount)?;

    airdrop.total_claimed = claimed_total(airdrop.total_amount, airdrop.total_claimed, amount)?;
"""), ("execute/claim.rs", """        return Err(ContractError::invalid_signature("claim_bearer"));
    }

    // claim
    airdrop.total_claimed = airdrop.total_claimed.checked_add(amount)?;
    if airdrop.total_claimed > airdrop.total_amount {
        return Err(ContractError::InsufficientAirdropFunds {});
    }
""", """        return Err(ContractError::invalid_signature("claim_bearer"));
    }

    airdrop.total_claimed = claimed_total(airdrop.total_amount, airdrop.total_claimed, amount)?;
"""))

R("drop_claimer_fn", D, ("execute/claim.rs", """            // use tx sender if account is not provided
            let claimer = account
                .map(|x| deps.api.addr_validate(&x))
                .transpose()?
                .unwrap_or_else(|| info.sender.clone());

            claim_open(""", """            let claimer = claimer_of(&deps, &info, account)?;

            claim_open("""), ("execute/claim.rs", """            // use tx sender if account is not provided
            let claimer = account
                .map(|x| deps.api.addr_validate(&x))
                .transpose()?
                .unwrap_or_else(|| info.sender.clone());

            claim_bearer(""", """            let claimer = claimer_of(&deps, &info, account)?;

            claim_bearer("""), ("execute/claim.rs", """pub fn claim(
    deps""", """fn claimer_of(
    deps: &DepsMut,
    info: &MessageInfo,
    account: Option<String>,
) -> Result<Addr, ContractError> {
    match account {
        Some(given) => Ok(deps.api.addr_validate(&given)?),
        None => Ok(info.sender.clone()),
    }
}

pub fn claim(
    deps"""))

R("drop_fund_shared", D, ("execute/fund.rs", """fn fund_event(""", """fn additional(
    info: &MessageInfo,
    creator: &Addr,
    closed_at: Option<u64>,
    denom: &str,
    total: &mut cosmwasm_std::Uint128,
) -> Result<cosmwasm_std::Uint128, ContractError> {
    if creator != &info.sender {
        return Err(ContractError::Unauthorized {});
    }
    if closed_at.is_some() {
        return Err(ContractError::AirdropClosed {});
    }
    let paid = cw_utils::must_pay(info, denom)?;
    *total = total.checked_add(paid)?;
    Ok(paid)
}

fn fund_event("""), ("execute/fund.rs", """    mut airdrop: OpenAirdrop,
) -> Result<Response, ContractError> {
    if airdrop.creator != info.sender {
        return Err(ContractError::Unauthorized {});
    }
    if airdrop.closed_at.is_some() {
        return Err(ContractError::AirdropClosed {});
    }

    let additional_funds = cw_utils::must_pay(&info, &airdrop.denom)?;
    airdrop.total_amount = airdrop.total_amount.checked_add(additional_funds)?;
""", """    mut airdrop: OpenAirdrop,
) -> Result<Response, ContractError> {
    let additional_funds = additional(
        &info,
        &airdrop.creator,
        airdrop.closed_at,
        &airdrop.denom,
        &mut airdrop.total_amount,
    )?;
"""), ("execute/fund.rs", """    mut airdrop: BearerAirdrop,
) -> Result<Response, ContractError> {
    if airdrop.creator != info.sender {
        return Err(ContractError::Unauthorized {});
    }
    if airdrop.closed_at.is_some() {
        return Err(ContractError::AirdropClosed {});
    }

    let additional_funds = cw_utils::must_pay(&info, &airdrop.denom)?;
    airdrop.total_amount = airdrop.total_amount.checked_add(additional_funds)?;
""", """    mut airdrop: BearerAirdrop,
) -> Result<Response, ContractError> {
    let additional_funds = additional(
        &info,
        &airdrop.creator,
        airdrop.closed_at,
        &airdrop.denom,
        &mut airdrop.total_amount,
    )?;
"""))

R("drop_register_parts", D, ("execute/register.rs", """fn register_open_event(""", """fn check_root(root: &str) -> Result<(), ContractError> {
    let mut buf = [0u8; 32];
    hex::decode_to_slice(root, &mut buf).map_err(ContractError::from)
}

fn full_label(info: &MessageInfo, label: Option<String>) -> Option<String> {
    match label {
        Some(name) => Some([info.sender.as_str(), "/", &name].concat()),
        None => None,
    }
}

fn register_open_event("""), ("execute/register.rs", """    label: Option<String>,
) -> Result<Response, ContractError> {
    // check merkle root length
    let mut root_buf: [u8; 32] = [0; 32];
    hex::decode_to_slice(&merkle_root, &mut root_buf)?;

    // fetch next airdrop id and increment it
    let airdrop_id = LATEST_AIRDROP_ID.load(deps.storage)?;

    // make label with tx sender
    let label = label.map(|x| format!("{}/{x}", info.sender));

    // make open""", """    label: Option<String>,
) -> Result<Response, ContractError> {
    check_root(&merkle_root)?;

    // fetch next airdrop id and increment it
    let airdrop_id = LATEST_AIRDROP_ID.load(deps.storage)?;

    // make label with tx sender
    let label = full_label(&info, label);

    // make open"""), ("execute/register.rs", """    signer_sig: String,
) -> Result<Response, ContractError> {
    // check merkle root length
    let mut root_buf: [u8; 32] = [0; 32];
    hex::decode_to_slice(&merkle_root, &mut root_buf)?;

    // fetch next airdrop id and increment it
    let airdrop_id = LATEST_AIRDROP_ID.load(deps.storage)?;

    // make label with tx sender
    let label = label.map(|x| format!("{}/{x}", info.sender));
""", """    signer_sig: String,
) -> Result<Response, ContractError> {
    check_root(&merkle_root)?;

    // fetch next airdrop id and increment it
    let airdrop_id = LATEST_AIRDROP_ID.load(deps.storage)?;

    // make label with tx sender
    let label = full_label(&info, label);
"""))

R("drop_register_bump_first", D, ("execute/register.rs", """    // event attributes
    let attrs = register_open_event(airdrop_id, airdrop.clone());

    // apply to state (LABELS, AIRDROP, LATEST_AIRDROP_ID)
    save_label(deps.storage, airdrop_id, &airdrop.label)?;
    airdrops().save(deps.storage, airdrop_id, &airdrop.into())?;
    LATEST_AIRDROP_ID.save(deps.storage, &(airdrop_id + 1))?;
""", """    LATEST_AIRDROP_ID.save(deps.storage, &(airdrop_id + 1))?;
    let attrs = register_open_event(airdrop_id, airdrop.clone());
    save_label(deps.storage, airdrop_id, &airdrop.label)?;
    airdrops().save(deps.storage, airdrop_id, &airdrop.into())?;
"""))

R("version_match_cmp", "", ("packages/utils/src/lib.rs", """    if cv >= nv {
        return Err(StdError::generic_err(
            "contract version must be greater than current",
        ));
    }

    cw2::set_contract_version(storage, contract, version)?;

    Ok(())
""", """    match nv.cmp(&cv) {
        std::cmp::Ordering::Greater => cw2::set_contract_version(storage, contract, version),
        _ => Err(StdError::generic_err(
            "contract version must be greater than current",
        )),
    }
"""), ("packages/utils/src/lib.rs", """    let stored = cw2::get_contract_version(storage)?;

    if stored.contract != contract.clone().into() {
        return Err(StdError::generic_err("contract name mismatch"));
    }
""", """    let stored = cw2::get_contract_version(storage)?;

    let name: String = contract.clone().into();
    if name != stored.contract {
        return Err(StdError::generic_err("contract name mismatch"));
    }
"""))

R("peri_query_sorted_helper", P, ("query.rs", """pub fn simulate_mint_exact_amount_in(""", """fn sorted(mut coins: Vec<Coin>) -> Vec<Coin> {
    coins.sort_by(|a, b| a.denom.cmp(&b.denom));
    coins
}

fn redeemed(units: Vec<(String, cosmwasm_std::Decimal)>, amount: Uint128) -> Vec<Coin> {
    let conv = make_unit_converter(amount);
    let mut res = vec![];
    for u in units {
        res.push(conv(u));
    }
    sorted(res)
}

pub fn simulate_mint_exact_amount_in("""), ("query.rs", """    let conv = make_unit_converter(burn_amount);
    let mut burn_redeem_amount: Vec<_> =
        core_portfolio.units.clone().into_iter().map(conv).collect();
    burn_redeem_amount.sort_by(|a, b| a.denom.cmp(&b.denom));
""", """    let burn_redeem_amount = redeemed(core_portfolio.units.clone(), burn_amount);
"""), ("query.rs", """    let conv = make_unit_converter(index_amount);
    let mut mint_spend_amount: Vec<_> =
        core_portfolio.units.clone().into_iter().map(conv).collect();
    mint_spend_amount.sort_by(|a, b| a.denom.cmp(&b.denom));
""", """    let mint_spend_amount = redeemed(core_portfolio.units.clone(), index_amount);
"""))

R("peri_query_fee_binding", P, ("query.rs", """    // apply burn fee after simulation
    let burn_amount = sim_res.est_min_token_in * expand_fee(core_fee.burn_fee)?;
""", """    let gross = expand_fee(core_fee.burn_fee)?;
    let burn_amount = gross * sim_res.est_min_token_in;
"""), ("query.rs", """    let spend_amount = sim_res.est_min_token_out - Uint128::new(100); // FIXME: hacky calibration
""", """    let calibration = Uint128::from(100u128);
    let spend_amount = sim_res.est_min_token_out - calibration;
"""))

R("core_instantiate_split", C, ("contract.rs", """    // fee
    let fee = Fee {
        collector: deps.api.addr_validate(&msg.fee.collector)?,
        mint_fee: msg.fee.mint_fee,
        burn_fee: msg.fee.burn_fee,
        streaming_fee: msg.fee.streaming_fee.map(|v| StreamingFee {
            rate: v.rate,
            collected: vec![],
            last_collected_at: env.block.time.seconds(),
            freeze: v.freeze,
        }),
    };
    fee.check_rates()?;
""", """    // fee
    let streaming_fee = match msg.fee.streaming_fee {
        Some(given) => Some(StreamingFee {
            rate: given.rate,
            freeze: given.freeze,
            last_collected_at: env.block.time.seconds(),
            collected: Vec::new(),
        }),
        None => None,
    };
    let fee = Fee {
        collector: deps.api.addr_validate(&msg.fee.collector)?,
        mint_fee: msg.fee.mint_fee,
        burn_fee: msg.fee.burn_fee,
        streaming_fee,
    };
    fee.check_rates()?;
"""), ("contract.rs", """        match msg {
            Mint { .. } => collect(deps.storage, now_in_sec)?,
            Burn { .. } => collect(deps.storage, now_in_sec)?,
            Realize {} => collect(deps.storage, now_in_sec)?,
            Rebalance(RebalanceMsg::Init { .. }) => collect(deps.storage, now_in_sec)?,
            Gov(GovMsg::UpdateFeeStrategy(..)) => collect(deps.storage, now_in_sec)?,
            _ => {}
        };
""", """        let settles = match &msg {
            Mint { .. } | Burn { .. } | Realize {} => true,
            Rebalance(inner) => matches!(inner, RebalanceMsg::Init { .. }),
            Gov(inner) => matches!(inner, GovMsg::UpdateFeeStrategy(_)),
        };
        if settles {
            collect(deps.storage, now_in_sec)?;
        }
"""))

R("core_reply_let_else", C, ("contract.rs", """            let reply_data = msg.result.unwrap().data.unwrap();
            let reply: MsgCreateDenomResponse = reply_data.try_into()?;

            let mut config = CONFIG.load(deps.storage)?;
            config.index_denom = reply.new_token_denom;
            CONFIG.save(deps.storage, &config)?;
""", """            let response = msg.result.unwrap();
            let reply = MsgCreateDenomResponse::try_from(response.data.unwrap())?;

            let config = Config {
                index_denom: reply.new_token_denom,
                ..CONFIG.load(deps.storage)?
            };
            CONFIG.save(deps.storage, &config)?;
"""))

R("fee_collect_settle_fn", C, ("execute/fee.rs", """    if let Some(streaming_fee) = fee.streaming_fee.as_mut() {
        let index_units = INDEX_UNITS.load(storage)?;
        let (new_index_units, _) = streaming_fee.collect(index_units, now_in_sec, total_supply)?;
        INDEX_UNITS.save(storage, &new_index_units)?;
    }

    FEE.save(storage, &fee)?;

    Ok(())
""", """    let Some(mut streaming_fee) = fee.streaming_fee.take() else {
        return Ok(());
    };
    let (new_index_units, _) =
        streaming_fee.collect(INDEX_UNITS.load(storage)?, now_in_sec, total_supply)?;
    INDEX_UNITS.save(storage, &new_index_units)?;

    fee.streaming_fee = Some(streaming_fee);
    FEE.save(storage, &fee)?;

    Ok(())
"""))

M = "packages/math/src/"
L = "packages/pool/src/"
I = "packages/interface/src/"

R("pow_int_while", M, ("pow.rs", """    let mut tmp = Decimal256::one();

    let mut i = power;

    loop {
        if i <= Uint256::one() {
            break;
        }

        if i % Uint256::from(2u64) != Uint256::zero() {
            tmp *= base;
        }

        i /= Uint256::from(2u64);

        base *= base;
    }

    base * tmp
""", """    let two = Uint256::from(2u64);
    let mut odd = Decimal256::one();
    let mut left = power;

    while left > Uint256::one() {
        if !(left % two).is_zero() {
            odd = odd * base;
        }
        left = left / two;
        base = base * base;
    }

    odd * base
"""))
R("pow_approx_while", M, ("pow.rs", """    loop {
        if term < prec {
            break;
        }

        let big_k""", """    while term >= prec {
        let big_k"""), ("pow.rs", """        if x_neg {
            negative = !negative;
        }

        if c_neg {
            negative = !negative;
        }

        if negative {
            sum -= term;
        } else {
            sum += term;
        }
""", """        negative = negative ^ x_neg ^ c_neg;

        sum = match negative {
            true => sum - term,
            false => sum + term,
        };
"""))
R("pow_checks_match", M, ("pow.rs", """    let integer = exp.to_uint_floor();
    let fractional = {
        let x = exp.atomics();
        let y = Uint256::from(DEC_PRECISION);

        Decimal256::from_atomics(x - (y * (x / y)), base.decimal_places())
    }?;
""", """    let integer = exp.to_uint_floor();
    let unit = Uint256::from(DEC_PRECISION);
    let rest = exp.atomics() - unit * (exp.atomics() / unit);
    let fractional = Decimal256::from_atomics(rest, base.decimal_places())?;
"""), ("pow.rs", """    let fractional_pow = pow_approx(
        base,
        fractional,
        Decimal256::from_atomics(POW_PRECISION, base.decimal_places())?,
    )?;

    Ok(integer_pow * fractional_pow)
""", """    let prec = Decimal256::from_atomics(POW_PRECISION, base.decimal_places())?;

    pow_approx(base, fractional, prec).map(|fractional_pow| fractional_pow * integer_pow)
"""))
R("pool_invariant_locals", L, ("weighted.rs", """    let weight_ratio = token_weight_fixed / token_weight_unknown;

    let y = token_balance_fixed_before / token_balance_fixed_after;

    let y_to_weight_ratio = ibcx_math::pow(y, weight_ratio)?;

    let (paranthetical, neg) = ibcx_math::abs_diff_with_sign(Decimal256::one(), y_to_weight_ratio);

    let amount_y = token_balance_unknown_before * paranthetical;

    Ok((amount_y, neg))
""", """    let powered = ibcx_math::pow(
        token_balance_fixed_before / token_balance_fixed_after,
        token_weight_fixed / token_weight_unknown,
    )?;
    let one = Decimal256::one();
    let (paranthetical, neg) = ibcx_math::abs_diff_with_sign(one, powered);

    Ok((paranthetical * token_balance_unknown_before, neg))
"""))
R("pool_swap_assets_fn", L, ("weighted.rs", """        let before_input = self.get_asset(input_denom)?;
        let before_output = self.get_asset(output_denom)?;

        let after_input_amount = before_input.token.amount.checked_add(input_value)?;
        let after_output_amount = before_output.token.amount.checked_sub(output_value)?;

        for (i, asset) in self.pool_assets.clone().into_iter().enumerate() {
            self.pool_assets[i] = PoolAssetTuple(match asset.token.denom {
                d if d == input_denom => (d, after_input_amount, asset.weight),
                d if d == output_denom => (d, after_output_amount, asset.weight),
                d => (d, asset.token.amount, asset.weight),
            })
            .into();
        }

        Ok(())
""", """        let input_after = self
            .get_asset(input_denom)?
            .token
            .amount
            .checked_add(input_value)?;
        let output_after = self
            .get_asset(output_denom)?
            .token
            .amount
            .checked_sub(output_value)?;

        self.pool_assets = std::mem::take(&mut self.pool_assets)
            .into_iter()
            .map(|mut asset| {
                if asset.token.denom == input_denom {
                    asset.token.amount = input_after;
                } else if asset.token.denom == output_denom {
                    asset.token.amount = output_after;
                }
                asset
            })
            .collect();

        Ok(())
"""))
R("pool_fee_factor_helper", L, ("weighted.rs", """fn to_dec(""", """fn after_fee(spread_factor: Decimal) -> Result<Decimal256, PoolError> {
    Ok(Decimal256::one().checked_sub(spread_factor.into())?)
}

fn to_dec("""), ("weighted.rs", """            * Decimal256::one().checked_sub(spread_factor.into())?;
""", """            * after_fee(spread_factor)?;
"""), ("weighted.rs", """        let token_amount_in_before_fee =
            token_amount_in / (Decimal256::one().checked_sub(spread_factor.into())?);

        let token_in_amount = token_amount_in_before_fee.to_uint_ceil();

        if neg {
            return Err(PoolError::invalid_math_approx(
                "token amount must be positive",
            ));
        }

        Ok(token_in_amount)
""", """        if neg {
            return Err(PoolError::invalid_math_approx(
                "token amount must be positive",
            ));
        }

        Ok((token_amount_in / after_fee(spread_factor)?).to_uint_ceil())
"""))
R("units_position_helper", C, ("state/units.rs", """    pub fn add_key(&mut self, k: &str, v: Decimal) -> StdResult<()> {
        match self.0.iter().position(|(denom, _)| denom == k) {
            Some(i) => {
                let unit = self.0.get_mut(i).unwrap();

                unit.1 = unit.1.checked_add(v)?;
            }
            None => self.0.push((k.to_string(), v)),
        }

        Ok(())
    }
""", """    fn find_mut(&mut self, k: &str) -> Option<&mut Decimal> {
        self.0
            .iter_mut()
            .find(|(denom, _)| denom.as_str() == k)
            .map(|(_, unit)| unit)
    }

    pub fn add_key(&mut self, k: &str, v: Decimal) -> StdResult<()> {
        if let Some(unit) = self.find_mut(k) {
            *unit = unit.checked_add(v)?;
            return Ok(());
        }
        self.0.push((k.to_string(), v));
        Ok(())
    }
"""), ("state/units.rs", """        match self.0.iter().position(|(denom, _)| denom == k) {
            Some(i) => {
                let unit = self.0.get_mut(i).unwrap();

                unit.1 = unit.1.checked_sub(v)?;
            }
            None => return Err(StdError::not_found("unit to sub").into()),
        }

        Ok(())
""", """        let unit = self
            .find_mut(k)
            .ok_or_else(|| StdError::not_found("unit to sub"))?;
        *unit = unit.checked_sub(v)?;

        Ok(())
"""))
R("units_get_find", C, ("state/units.rs", """        if let Some(i) = self.0.iter().position(|u| u.0 == key) {
            self.0.get(i)
        } else {
            None
        }
""", """        self.0.iter().find(|(denom, _)| denom == key)
"""), ("state/units.rs", """        if let Some(i) = self.0.iter().position(|u| u.0 == key) {
            Some(self.0.remove(i))
        } else {
            None
        }
""", """        let i = self.0.iter().position(|u| u.0 == key)?;
        Some(self.0.remove(i))
"""), ("state/units.rs", """        self.0.iter().all(|(_, unit)| unit.is_zero())
    }
""", """        !self.0.iter().any(|(_, unit)| !unit.is_zero())
    }
"""))
R("units_refund_leftover", C, ("state/units.rs", """        let mut denoms: Vec<_> = funds.clone().into_iter().map(|v| Some(v.denom)).collect();

        for Coin { denom, amount } in required {
            match funds.iter().position(|v| v.denom == denom) {
                Some(i) => {
                    denoms[i] = None;
                    funds[i].amount = funds[i].amount.checked_sub(amount)?;
                }
                None => return Err(ContractError::InsufficientFunds(denom)),
            }
        }

        let denoms: Vec<_> = denoms.into_iter().flatten().collect();
""", """        let mut denoms: Vec<Option<String>> = Vec::with_capacity(funds.len());
        for fund in funds.iter() {
            denoms.push(Some(fund.denom.clone()));
        }

        for required in required {
            let Some(i) = funds.iter().position(|v| v.denom == required.denom) else {
                return Err(ContractError::InsufficientFunds(required.denom));
            };
            funds[i].amount = funds[i].amount.checked_sub(required.amount)?;
            denoms[i] = None;
        }

        let denoms: Vec<_> = denoms.into_iter().flatten().collect();
"""))
R("fee_rate_bounds_fn", C, ("state/fee.rs", """    if rate.is_none() {
        return Ok(());
    }

    let rate = rate.unwrap();

    if !(Decimal::zero() < rate && rate < Decimal::one()) {
        return Err(ValidationError::InvalidFee {
            field: field.to_string(),
            reason: format!("{rate} is invalid"),
        }
        .into());
    }

    Ok(())
""", """    match rate {
        Some(rate) if rate.is_zero() || rate >= Decimal::one() => {
            Err(ValidationError::InvalidFee {
                field: field.to_string(),
                reason: format!("{rate} is invalid"),
            }
            .into())
        }
        _ => Ok(()),
    }
"""), ("state/fee.rs", """        let delta = now_in_sec - self.last_collected_at;
        if self.freeze || delta == 0 {
            return Ok((index_units, None)); // not collected
        }
""", """        let delta = now_in_sec - self.last_collected_at;
        let due = !self.freeze && delta > 0;
        if !due {
            return Ok((index_units, None)); // not collected
        }
"""))
R("fee_collect_two_passes", C, ("state/fee.rs", """        let (new_units, collected): (Units, Units) = index_units
            .into_iter()
            .map(|(denom, unit)| {
                let fee_unit = unit.checked_mul(rate)?;
                let new_unit = unit.checked_sub(fee_unit)?;

                Ok(((denom.clone(), new_unit), (denom, fee_unit)))
            })
            .collect::<Result<Vec<_>, ContractError>>()?
            .into_iter()
            .unzip();
""", """        let mut new_units = Units::default();
        let mut collected: Vec<(String, Decimal)> = vec![];
        for (denom, unit) in index_units {
            let fee_unit = unit.checked_mul(rate)?;
            new_units.extend([(denom.clone(), unit.checked_sub(fee_unit)?)]);
            collected.push((denom, fee_unit));
        }
"""))
R("drop_not_claimed_has", D, ("state.rs", """    if CLAIM_LOGS.may_load(storage, (id, claim_key))?.is_some() {
        return Err(ContractError::AlreadyClaimed {
            airdrop_id: id,
            claim_key: claim_key.to_string(),
        });
    }

    Ok(())
""", """    match CLAIM_LOGS.may_load(storage, (id, claim_key))? {
        None => Ok(()),
        Some(_) => Err(ContractError::AlreadyClaimed {
            airdrop_id: id,
            claim_key: claim_key.to_string(),
        }),
    }
"""), ("state.rs", """    if let Some(label) = label {
        if LABELS.has(storage, label) {
            return Err(ContractError::KeyAlreadyExists {
                typ: "label".to_string(),
                key: label.clone(),
            });
        }
        LABELS.save(storage, label, &id)?;
    }

    Ok(())
""", """    let Some(label) = label.as_deref() else {
        return Ok(());
    };
    LABELS.update(storage, label, |taken| match taken {
        Some(_) => Err(ContractError::KeyAlreadyExists {
            typ: "label".to_string(),
            key: label.to_string(),
        }),
        None => Ok(id),
    })?;

    Ok(())
"""))
R("drop_digest_generic", D, ("verify.rs", """    let mut hasher = Sha256::new();

    hasher.update(bz);

    hasher
        .finalize()
        .as_slice()
        .try_into()
        .map_err(|_| ContractError::WrongLength {})
""", """    Ok(Sha256::digest(bz).into())
"""))
R("drop_digest_chain", D, ("verify.rs", """    let mut hasher = Ripemd160::new();

    hasher.update(bz);

    hasher
        .finalize()
        .as_slice()
        .try_into()
        .map_err(|_| ContractError::WrongLength {})
""", """    let out = Ripemd160::new().chain_update(bz).finalize();

    <[u8; 20]>::try_from(out.as_slice()).map_err(|_| ContractError::WrongLength {})
"""), ("verify.rs", """    let hash = sha256_digest(user_input.as_bytes())?;

    let hash = proof""", """    let leaf = sha256_digest(user_input.as_bytes())?;

    let hash = proof"""), ("verify.rs", ".try_fold(hash, |hash, p| {", ".try_fold(leaf, |hash, p| {"), ("verify.rs", """        let mut hashes = [hash, proof_buf];
        hashes.sort_unstable();

        sha256_digest(hashes.concat())
""", """        let (lo, hi) = if hash <= proof_buf {
            (hash, proof_buf)
        } else {
            (proof_buf, hash)
        };

        sha256_digest([lo, hi].concat())
"""))
R("drop_merkle_cmp_match", D, ("verify.rs", """        let mut hashes = [hash, proof_buf];
        hashes.sort_unstable();

        sha256_digest(hashes.concat())
""", """        let joined = match hash.cmp(&proof_buf) {
            std::cmp::Ordering::Greater => [proof_buf, hash].concat(),
            _ => [hash, proof_buf].concat(),
        };

        sha256_digest(joined)
"""))
R("drop_list_generic", D, ("query/airdrop.rs", """            let query_res = airdrops()
                .range(deps.storage, min, max, order)
                .take(limit)
                .map(airdrop_map_conv)
                .collect::<StdResult<_>>()?;

            Ok(ListAirdropsResponse(query_res))
        }

        ByType""", """            let mut found = vec![];
            for item in airdrops().range(deps.storage, min, max, order) {
                if found.len() == limit {
                    break;
                }
                found.push(airdrop_map_conv(item)?);
            }

            Ok(ListAirdropsResponse(found))
        }

        ByType"""))
R("drop_claim_bounds", D, ("query/claim.rs", """    let start = start_after.as_deref();
    let limit = get_and_check_limit(limit, MAX_LIMIT, DEFAULT_LIMIT)? as usize;
    let order = order.unwrap_or(RangeOrder::Asc).into();
    let (min, max) = match order {
        Order::Ascending => (start.map(Bound::exclusive), None),
        Order::Descending => (None, start.map(Bound::exclusive)),
    };
""", """    let limit = get_and_check_limit(limit, MAX_LIMIT, DEFAULT_LIMIT)?;
    let order: Order = match order {
        Some(given) => given.into(),
        None => Order::Ascending,
    };
    let bound = start_after.as_deref().map(Bound::exclusive);
    let (min, max) = if order == Order::Ascending {
        (bound, None)
    } else {
        (None, bound)
    };
"""), ("query/claim.rs", """        .take(limit)
        .map(|item| {
            let (k, v) = item?;

            Ok(GetClaimResponse {
                id: airdrop_id,
                amount: v,
                claim_key: k,
            })
        })
""", """        .take(limit as usize)
        .map(|item| {
            item.map(|(claim_key, amount)| GetClaimResponse {
                id: airdrop_id,
                amount,
                claim_key,
            })
        })
"""))
R("drop_verify_split", D, ("query/claim.rs", """            let verify_result =
                verify_merkle_proof(&airdrop.merkle_root, proof, &account.unwrap(), amount);
            if let Err(e) = verify_result {
                return Ok(resp.fail(e));
            }
""", """            match verify_merkle_proof(&airdrop.merkle_root, proof, &account.unwrap(), amount) {
                Ok(()) => {}
                Err(e) => return Ok(resp.fail(e)),
            }
"""), ("query/claim.rs", """            let digest_str = format!("{claim_hash}/{}/{amount}", account);
            let digest = sha256_digest(digest_str.as_bytes())?;
""", """            let amount_str = amount.to_string();
            let message = [claim_hash.as_str(), account.as_str(), amount_str.as_str()].join("/");
            let digest = sha256_digest(message)?;
"""))
R("iface_limit_filter", I, ("lib.rs", """    match limit {
        Some(l) => {
            if l <= max {
                Ok(l)
            } else {
                Err(StdError::generic_err(format!(
                    "oversized request. size: {:?}, max: {:?}",
                    l as u64, max as u64,
                )))
            }
        }
        None => Ok(default),
    }
""", """    let asked = limit.unwrap_or(default);
    if limit.is_some() && asked > max {
        return Err(StdError::generic_err(format!(
            "oversized request. size: {:?}, max: {:?}",
            asked as u64, max as u64,
        )));
    }

    Ok(asked)
"""), ("lib.rs", """    let (min, max) = match order {
        Order::Ascending => (start.map(Bound::exclusive), None),
        Order::Descending => (None, start.map(Bound::exclusive)),
    };

    Ok(((min, max), limit, order))
""", """    let bound = start.map(Bound::exclusive);
    let bounds = match order {
        Order::Descending => (None, bound),
        Order::Ascending => (bound, None),
    };

    Ok((bounds, limit, order))
"""))
R("iface_smart_helper", I, ("helpers/core.rs", """        let msg = QueryMsg::GetFee { time };

        querier.query(
            &WasmQuery::Smart {
                contract_addr: self.addr().into(),
                msg: to_json_binary(&msg)?,
            }
            .into(),
        )
""", """        self.smart(querier, &QueryMsg::GetFee { time })
"""), ("helpers/core.rs", """        let msg = QueryMsg::GetPortfolio { time };

        querier.query(
            &WasmQuery::Smart {
                contract_addr: self.addr().into(),
                msg: to_json_binary(&msg)?,
            }
            .into(),
        )
""", """        self.smart(querier, &QueryMsg::GetPortfolio { time })
"""), ("helpers/core.rs", """        let msg = QueryMsg::GetConfig { time };

        querier.query(
            &WasmQuery::Smart {
                contract_addr: self.addr().into(),
                msg: to_json_binary(&msg)?,
            }
            .into(),
        )
""", """        querier.query_wasm_smart(self.0.as_str(), &QueryMsg::GetConfig { time })
"""), ("helpers/core.rs", """    pub fn addr(&self) -> Addr {""", """    fn smart<CQ: CustomQuery, T: cosmwasm_schema::serde::de::DeserializeOwned>(
        &self,
        querier: &QuerierWrapper<CQ>,
        msg: &QueryMsg,
    ) -> StdResult<T> {
        let request = WasmQuery::Smart {
            contract_addr: self.0.to_string(),
            msg: to_json_binary(msg)?,
        };
        querier.query(&request.into())
    }

    pub fn addr(&self) -> Addr {"""))
R("iface_pool_ids_dedup", I, ("periphery.rs", """    let mut pool_ids = swap_info
        .into_iter()
        .flat_map(|v| v.0 .1 .0.into_iter().map(|r| r.pool_id))
        .collect::<HashSet<_>>()
        .into_iter()
        .collect::<Vec<_>>();

    pool_ids.sort();
""", """    let mut pool_ids: Vec<u64> = swap_info
        .iter()
        .flat_map(|SwapInfo((_, routes))| routes.0.iter().map(|r| r.pool_id))
        .collect();

    pool_ids.sort_unstable();
    pool_ids.dedup();
"""), ("periphery.rs", "use std::collections::HashSet;\n\n", ""))
R("sim_est_gap_locals", L, ("sim/mod.rs", """        if min_index_amount.is_none() {
            return Ok(EstimateIndexForOutResult {
                max: sim_init_res,
                est: None,
            });
        }

        let min_index_amount = min_index_amount.unwrap();
""", """        let min_index_amount = match min_index_amount {
            Some(min) => min,
            None => {
                return Ok(EstimateIndexForOutResult {
                    max: sim_init_res,
                    est: None,
                })
            }
        };
"""), ("sim/mod.rs", """        let sim_revised_out = {
            let gap = sim_init_res
                .est_min_token_out
                .checked_sub(min_index_amount)?;
            sim_init_res.est_min_token_out.checked_sub(gap * tol)?
        };
""", """        let found = sim_init_res.est_min_token_out;
        let cut = tol * found.checked_sub(min_index_amount)?;
        let sim_revised_out = found.checked_sub(cut)?;
"""))
R("peri_core_query_fn", P, ("execute.rs", """pub fn mint_exact_amount_in(""", """fn paid(info: &MessageInfo, denom: &str) -> Result<Coin, ContractError> {
    let amount = cw_utils::must_pay(info, denom)?;
    Ok(coin(amount.u128(), denom))
}

fn finishing(env: &Env, info: &MessageInfo, denom: String) -> Result<CosmosMsg, ContractError> {
    let msg = ExecuteMsg::FinishOperation {
        refund_to: info.sender.to_string(),
        refund_asset: denom,
    };
    Ok(CosmosMsg::Wasm(WasmMsg::Execute {
        contract_addr: env.contract.address.to_string(),
        msg: to_json_binary(&msg)?,
        funds: Vec::new(),
    }))
}

pub fn mint_exact_amount_in("""), ("execute.rs", """    let finish_msgs: Vec<CosmosMsg> = vec![
        WasmMsg::Execute {
            contract_addr: env.contract.address.to_string(),
            msg: to_json_binary(&ExecuteMsg::FinishOperation {
                refund_to: info.sender.to_string(),
                refund_asset: core_config.index_denom,
            })?,
            funds: vec![],
        }
        .into(),
        WasmMsg::Execute {
            contract_addr: env.contract.address.to_string(),
            msg: to_json_binary(&ExecuteMsg::FinishOperation {
                refund_to: info.sender.to_string(),
                refund_asset: desired_output.denom.clone(),
            })?,
            funds: vec![],
        }
        .into(),
    ];
""", """    let finish_msgs = [core_config.index_denom, desired_output.denom.clone()]
        .into_iter()
        .map(|denom| finishing(&env, &info, denom))
        .collect::<Result<Vec<_>, _>>()?;
"""), ("execute.rs", """    let input_asset =
        cw_utils::must_pay(&info, &input_denom).map(|v| coin(v.u128(), &input_denom))?;
    let index_asset""", """    let input_asset = paid(&info, &input_denom)?;
    let index_asset"""))
R("core_query_accrued_fn", C, ("query.rs", """    let index_units = INDEX_UNITS.load(deps.storage)?;
    let index_units = fee
        .streaming_fee
        .map(|mut v| -> StdResult<_> {
            Ok(v.collect(index_units.clone(), time_in_sec, total_supply)?.0)
        })
        .transpose()?
        .unwrap_or(index_units);

    let burn_fee""", """    let index_units = match fee.streaming_fee {
        None => INDEX_UNITS.load(deps.storage)?,
        Some(mut streaming) => {
            let units = INDEX_UNITS.load(deps.storage)?;
            let (units, _) = streaming.collect(units, time_in_sec, total_supply)?;
            units
        }
    };

    let burn_fee"""), ("query.rs", """    let mut temp_env = env;

    temp_env.block.time = Timestamp::from_seconds(time_in_sec);

    let PauseInfo { paused, expires_at } = paused.refresh(&temp_env)?;
""", """    let at = Env {
        block: cosmwasm_std::BlockInfo {
            time: Timestamp::from_seconds(time_in_sec),
            ..env.block
        },
        ..env
    };
    let PauseInfo { paused, expires_at } = paused.refresh(&at)?;
"""))
R("rebalance_validate_split", C, ("state/rebalance.rs", """            let mut base_units = index_units;
            for deflation in self.deflation.iter() {
                let item = base_units.pop_key(&deflation.0);

                match item {
                    // check overflow
                    Some(item) => {
                        if item.1 < deflation.1 {
                            return Err(ValidationError::invalid_rebalance(
                                "deflation",
                                format!("overflow: {}", deflation.0),
                            )
                            .into());
                        }
                    }

                    // check missing denom
                    None => {
                        return Err(ValidationError::invalid_rebalance(
                            "deflation",
                            format!("missing denom: {}", deflation.0),
                        )
                        .into());
                    }
                }
            }
""", """            for (denom, target) in self.deflation.iter() {
                let problem = match index_units.get_key(denom) {
                    Some((_, held)) if held >= target => continue,
                    Some(_) => format!("overflow: {denom}"),
                    None => format!("missing denom: {denom}"),
                };
                return Err(ValidationError::invalid_rebalance("deflation", problem).into());
            }
"""), ("state/rebalance.rs", """        if self.last_traded_at.is_none() {
            return Ok(());
        }

        let t = self.last_traded_at.unwrap() + self.cooldown;

        if now < t {
            return Err(RebalanceError::OnTradeCooldown.into());
        }

        Ok(())
""", """        let ready_at = self.last_traded_at.map(|last| last + self.cooldown);
        match ready_at {
            Some(at) if at > now => Err(RebalanceError::OnTradeCooldown.into()),
            _ => Ok(()),
        }
"""))
