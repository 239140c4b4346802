"""Refactorings of code the other lists touch little."""
C = "contracts/core/src/"
A = "contracts/airdrop/src/"
P = "packages/pool/src/"
REFS = {}


def R(name, *edits):
    REFS[name] = list(edits)


PA = C + "execute/gov/pause.rs"
IN = C + "execute/rebalance/init.rs"
TM = C + "execute/rebalance/trade/mod.rs"
DE = C + "execute/rebalance/trade/deflate.rs"
IF = C + "execute/rebalance/trade/inflate.rs"
CF = C + "state/config.rs"
CQ = C + "query.rs"
PQ = P + "query.rs"
SM = P + "sim/mod.rs"
RG = A + "execute/register.rs"
FU = A + "execute/fund.rs"
CL = A + "execute/close.rs"
AQ = A + "query/airdrop.rs"

R("y_pause_update", (PA, """    let new_pause_info = PauseInfo {
        paused: true,
        expires_at,
    };

    CONFIG.save(
        deps.storage,
        &Config {
            paused: new_pause_info,
            ..config
        },
    )?;
""", """    CONFIG.update(deps.storage, |mut config| {
        config.paused = PauseInfo {
            paused: true,
            expires_at,
        };
        StdResult::Ok(config)
    })?;
"""), (PA, """    config.assert_paused(&env)?;

    CONFIG.save(
        deps.storage,
        &Config {
            paused: Default::default(),
            ..config
        },
    )?;
""", """    config.assert_paused(&env)?;

    let config = Config {
        paused: PauseInfo::default(),
        ..config
    };
    CONFIG.save(deps.storage, &config)?;
"""))
R("y_pause_match_expiry", (PA, """    if let Some(expires_at) = expires_at {
        if env.block.time.seconds() >= expires_at {
            return Err(ValidationError::invalid_pause_info("expiry must be in the future").into());
        }
    }
""", """    match expires_at {
        Some(at) if at <= env.block.time.seconds() => {
            return Err(ValidationError::invalid_pause_info("expiry must be in the future").into());
        }
        _ => {}
    }
"""))
R("y_trade_load_config_once", (TM, """    match msg {
        Deflate {""", """    let reserve_denom = CONFIG.load(deps.storage)?.reserve_denom;

    match msg {
        Deflate {"""), (TM, """        } => {
            if CONFIG.load(deps.storage)?.reserve_denom == target_denom {
                deflate_reserve(deps, info, target_denom)
            } else {
                deflate(deps, env, info, target_denom, amount_out, max_amount_in)
            }
        }
""", """        } => match target_denom == reserve_denom {
            true => deflate_reserve(deps, info, reserve_denom),
            false => deflate(deps, env, info, target_denom, amount_out, max_amount_in),
        },
"""), (TM, """            if CONFIG.load(deps.storage)?.reserve_denom == target_denom {
                inflate_reserve(deps, info, target_denom)
            } else {
                inflate(deps, env, info, target_denom, amount_in, min_amount_out)
            }
""", """            if target_denom != reserve_denom {
                return inflate(deps, env, info, target_denom, amount_in, min_amount_out);
            }
            inflate_reserve(deps, info, target_denom)
"""))
R("y_trade_manager_ok_or", (TM, """    let rebalance = match REBALANCE.may_load(deps.storage)? {
        Some(v) => v,
        None => return Err(RebalanceError::NotOnRebalancing.into()),
    };
    if let Some(manager) = rebalance.manager {
        assert_sender(&manager, &info.sender)?;
    }
""", """    let manager = REBALANCE
        .may_load(deps.storage)?
        .ok_or(RebalanceError::NotOnRebalancing)?
        .manager;
    manager
        .map(|v| assert_sender(&v, &info.sender))
        .transpose()?;
"""))
CHK = """
pub(super) fn check_trade(
    trade_info: &TradeInfo,
    now: u64,
    kind: &str,
    amount: Uint128,
) -> StdResult<()> {
    trade_info.assert_cooldown(now)?;
    if amount > trade_info.max_trade_amount {
        return Err(RebalanceError::trade_error(kind, "exceeds maximum trade limit").into());
    }
    Ok(())
}

// deflate / inflate the target denom
"""
R("y_trade_shared_check", (TM, """
// deflate / inflate the target denom
""", CHK), (TM, "    state::{Units, CONFIG,", "    state::{TradeInfo, Units, CONFIG,"),
  (DE, "use super::load_units;", "use super::{check_trade, load_units};"), (IF, "use super::load_units;", "use super::{check_trade, load_units};"),
  (DE, """    trade_info.assert_cooldown(env.block.time.seconds())?;
    if trade_info.max_trade_amount < amount_out {
        return Err(RebalanceError::trade_error("deflate", "exceeds maximum trade limit").into());
    }
""", """    let now = env.block.time.seconds();
    check_trade(&trade_info, now, "deflate", amount_out)?;
"""), (IF, """    trade_info.assert_cooldown(env.block.time.seconds())?;
    if trade_info.max_trade_amount < amount_in {
        return Err(RebalanceError::trade_error("inflate", "exceeds maximum trade limit").into());
    }
""", """    check_trade(&trade_info, env.block.time.seconds(), "inflate", amount_in)?;
"""))
R("y_deflate_checks_reordered", (DE, """    if amount_gap < sim_amount_in {
        return Err(RebalanceError::trade_error("deflate", "insufficient amount to swap").into());
    }

    if max_amount_in < sim_amount_in {
        return Err(RebalanceError::trade_error("deflate", "over slippage tolerance").into());
    }
""", """    let failure = if sim_amount_in > max_amount_in {
        Some("over slippage tolerance")
    } else if sim_amount_in > amount_gap {
        Some("insufficient amount to swap")
    } else {
        None
    };
    if let Some(reason) = failure {
        return Err(RebalanceError::trade_error("deflate", reason).into());
    }
"""))
R("y_inflate_unit_lookup", (IF, """    let (_, reserve_unit) = *reserve_units.get_key(&target_denom).unwrap();

    // check""", """    let reserve_unit = reserve_units
        .iter()
        .find(|(denom, _)| *denom == target_denom)
        .map(|(_, unit)| *unit)
        .unwrap();

    // check"""))
R("y_weights_fold", (DE, "    let mut total_weight = inflations.iter().map(|(_, v)| *v).sum::<Decimal>();",
  "    let mut total_weight = inflations\n        .iter()\n        .fold(Decimal::zero(), |acc, (_, weight)| acc + *weight);"))
R("y_weights_loop", (DE, "    let mut total_weight = inflations.iter().map(|(_, v)| *v).sum::<Decimal>();",
  "    let mut total_weight = Decimal::zero();\n    for (_, weight) in inflations.iter() {\n        total_weight += *weight;\n    }"))
R("y_distribute_try_for_each", (DE, """    let mut expand_unit = inflate_unit;
    let mut total_weight = inflations.iter().map(|(_, v)| *v).sum::<Decimal>();
    for (denom, weight) in inflations {
        let sub_unit = expand_unit * weight / total_weight;
        reserve_units.add_key(&denom, sub_unit)?;

        expand_unit = expand_unit.checked_sub(sub_unit)?;
        total_weight = total_weight.checked_sub(weight)?;
    }

    Ok(())
""", """    let total_weight = inflations.iter().map(|(_, v)| *v).sum::<Decimal>();

    inflations
        .into_iter()
        .try_fold((inflate_unit, total_weight), |(left, weights), (denom, weight)| {
            let share = left * weight / weights;
            reserve_units.add_key(&denom, share)?;

            StdResult::Ok((left.checked_sub(share)?, weights.checked_sub(weight)?))
        })?;

    Ok(())
"""))
R("y_deflate_save_helper", (TM, """
// deflate / inflate the target denom
""", """
pub fn save_units(storage: &mut dyn Storage, index: &Units, reserve: &Units) -> StdResult<()> {
    RESERVE_UNITS.save(storage, reserve)?;
    INDEX_UNITS.save(storage, index)?;
    Ok(())
}

// deflate / inflate the target denom
"""), (DE, "use super::load_units;", "use super::{load_units, save_units};"), (IF, "use super::load_units;", "use super::{load_units, save_units};"),
  (DE, "    state::{Units, CONFIG, INDEX_UNITS, REBALANCE, RESERVE_UNITS, TRADE_INFOS},", "    state::{Units, CONFIG, REBALANCE, TRADE_INFOS},"),
  (IF, "    state::{CONFIG, INDEX_UNITS, RESERVE_UNITS, TRADE_INFOS},", "    state::{CONFIG, TRADE_INFOS},"),
  (DE, """    INDEX_UNITS.save(deps.storage, &index_units)?;
    RESERVE_UNITS.save(deps.storage, &reserve_units)?;

    // response
    let attrs""", """    save_units(deps.storage, &index_units, &reserve_units)?;

    // response
    let attrs"""), (DE, """    INDEX_UNITS.save(deps.storage, &index_units)?;
    RESERVE_UNITS.save(deps.storage, &reserve_units)?;
    TRADE""", """    save_units(deps.storage, &index_units, &reserve_units)?;
    TRADE"""), (IF, """    INDEX_UNITS.save(deps.storage, &index_units)?;
    RESERVE_UNITS.save(deps.storage, &reserve_units)?;

""", """    save_units(deps.storage, &index_units, &reserve_units)?;

"""), (IF, """    INDEX_UNITS.save(deps.storage, &index_units)?;
    RESERVE_UNITS.save(deps.storage, &reserve_units)?;
    TRADE""", """    save_units(deps.storage, &index_units, &reserve_units)?;
    TRADE"""))
R("y_init_exists", (IN, "    if REBALANCE.may_load(deps.storage)?.is_some() {", "    if REBALANCE.exists(deps.storage) {"))
R("y_init_manager_match", (IN, """        manager: manager
            .clone()
            .map(|v| deps.api.addr_validate(&v))
            .transpose()?,
""", """        manager: match manager.as_deref() {
            Some(v) => Some(deps.api.addr_validate(v)?),
            None => None,
        },
"""))
R("y_init_reordered", (IN, """    freeze_streaming_fee(deps.storage)?;

    let config""", """    let config"""), (IN, """    // save
    REBALANCE.save(deps.storage, &rebalance)?;
    RESERVE_UNITS.save(deps.storage, &Units::default())?;
""", """    // save
    RESERVE_UNITS.save(deps.storage, &Units::default())?;
    REBALANCE.save(deps.storage, &rebalance)?;
    freeze_streaming_fee(deps.storage)?;
"""))
R("y_freeze_map", (IN, """    FEE.update(storage, |mut v| {
        if let Some(streaming_fee) = v.streaming_fee.as_mut() {
            streaming_fee.freeze = true;
        }
        StdResult::Ok(v)
    })?;

    Ok(())
""", """    let mut fee = FEE.load(storage)?;
    fee.streaming_fee = fee.streaming_fee.map(|mut v| {
        v.freeze = true;
        v
    });
    FEE.save(storage, &fee)?;

    Ok(())
"""))
R("y_config_pause_helper", (CF, """    pub fn assert_paused(&self, env: &Env) -> Result<(), ContractError> {
        self.paused.clone().refresh(env)?.assert_paused()?;
        Ok(())
    }

    pub fn assert_not_paused(&self, env: &Env) -> Result<(), ContractError> {
        self.paused.clone().refresh(env)?.assert_not_paused()?;
        Ok(())
    }
""", """    fn pause_info_at(&self, env: &Env) -> Result<PauseInfo, ContractError> {
        let info = self.paused.clone();
        Ok(info.refresh(env)?)
    }

    pub fn assert_paused(&self, env: &Env) -> Result<(), ContractError> {
        self.pause_info_at(env)?.assert_paused().map(|_| ())
    }

    pub fn assert_not_paused(&self, env: &Env) -> Result<(), ContractError> {
        let info = self.pause_info_at(env)?;
        info.assert_not_paused()?;
        Ok(())
    }
"""))
R("y_query_pools_loop", (PQ, """    let pool_resps = pool_ids
        .into_iter()
        .map(|v| raw_query(&deps.querier, &PoolRequest { pool_id: v }.into()))
        .collect::<StdResult<Vec<_>>>()?;

    let pools = pool_resps
        .into_iter()
        .map(decode_pool)
        .collect::<Result<Vec<_>, PoolError>>()?;

    Ok(pools.into_iter().flatten().collect())
""", """    let mut pools = vec![];
    for pool_id in pool_ids {
        let resp = raw_query(&deps.querier, &PoolRequest { pool_id }.into())?;
        if let Some(pool) = decode_pool(resp)? {
            pools.push(pool);
        }
    }

    Ok(pools)
"""))
R("y_decode_pool_if_chain", (PQ, """    let pool_type = match v.to_base64() {
        b if b.starts_with(POOL_WEIGHTED) => PoolType::Weighted,
        b if b.starts_with(POOL_STABLE) => PoolType::Stable,
        b if b.starts_with(POOL_CONCENTRATED) => PoolType::Concentrated,
        _ => return Ok(None),
    };
""", """    let encoded = v.to_base64();
    let pool_type = if encoded.starts_with(POOL_CONCENTRATED) {
        PoolType::Concentrated
    } else if encoded.starts_with(POOL_STABLE) {
        PoolType::Stable
    } else if encoded.starts_with(POOL_WEIGHTED) {
        PoolType::Weighted
    } else {
        return Ok(None);
    };
"""))
R("y_sim_match_bound", (SM, """        if min_index_amount.is_none() {
            return Ok(EstimateIndexForOutResult {
                max: sim_init_res,
                est: None,
            });
        }

        let min_index_amount = min_index_amount.unwrap();
""", """        let min_index_amount = match min_index_amount {
            Some(v) => v,
            None => {
                return Ok(EstimateIndexForOutResult {
                    max: sim_init_res,
                    est: None,
                })
            }
        };
"""), (SM, """        if max_index_amount.is_none() {
            return Ok(EstimateIndexForInResult {
                min: sim_init_res,
                est: None,
            });
        }

        let max_index_amount = max_index_amount.unwrap();
""", """        let Some(max_index_amount) = max_index_amount else {
            return Ok(EstimateIndexForInResult {
                min: sim_init_res,
                est: None,
            });
        };
"""))
R("y_sim_tolerance_helper", (SM, """        let tol = err_tolerance.unwrap_or_else(|| Decimal::from_ratio(1u64, 3u64));
        let sim_revised_out = {
            let gap = sim_init_res
                .est_min_token_out
                .checked_sub(min_index_amount)?;
            sim_init_res.est_min_token_out.checked_sub(gap * tol)?
        };
""", """        let gap = sim_init_res
            .est_min_token_out
            .checked_sub(min_index_amount)?;
        let sim_revised_out = sim_init_res
            .est_min_token_out
            .checked_sub(share_of_gap(gap, err_tolerance))?;
"""), (SM, """        let tol = err_tolerance.unwrap_or_else(|| Decimal::from_ratio(1u64, 3u64));
        let sim_revised_in = {
            let gap = max_index_amount.checked_sub(sim_init_res.est_min_token_in)?;
            sim_init_res.est_min_token_in.checked_add(gap * tol)?
        };
""", """        let est_min = sim_init_res.est_min_token_in;
        let gap = max_index_amount.checked_sub(est_min)?;
        let sim_revised_in = est_min.checked_add(share_of_gap(gap, err_tolerance))?;
"""), (SM, """pub struct Simulator<'a> {""", """fn share_of_gap(gap: Uint128, tolerance: Option<Decimal>) -> Uint128 {
    match tolerance {
        Some(tol) => gap * tol,
        None => gap * Decimal::from_ratio(1u64, 3u64),
    }
}

pub struct Simulator<'a> {"""))
R("y_register_take_id", (RG, """#[allow(clippy::too_many_arguments)]
// bearer""", """fn next_airdrop_id(deps: &mut DepsMut) -> Result<u64, ContractError> {
    let id = LATEST_AIRDROP_ID.load(deps.storage)?;
    LATEST_AIRDROP_ID.save(deps.storage, &(id + 1))?;
    Ok(id)
}

#[allow(clippy::too_many_arguments)]
// bearer"""), (RG, """    deps: DepsMut,
    env: Env,
    info: MessageInfo,
    merkle_root: String,
    denom: String,
    label: Option<String>,
) -> Result<Response, ContractError> {
    // check merkle root length
    let mut root_buf: [u8; 32] = [0; 32];
    hex::decode_to_slice(&merkle_root, &mut root_buf)?;

    // fetch next airdrop id and increment it
    let airdrop_id = LATEST_AIRDROP_ID.load(deps.storage)?;
""", """    mut deps: DepsMut,
    env: Env,
    info: MessageInfo,
    merkle_root: String,
    denom: String,
    label: Option<String>,
) -> Result<Response, ContractError> {
    // check merkle root length
    let mut root_buf = [0u8; 32];
    hex::decode_to_slice(&merkle_root, &mut root_buf)?;

    // fetch next airdrop id and increment it
    let airdrop_id = next_airdrop_id(&mut deps)?;
"""), (RG, """    let attrs = register_open_event(airdrop_id, airdrop.clone());

    // apply to state (LABELS, AIRDROP, LATEST_AIRDROP_ID)
    save_label(deps.storage, airdrop_id, &airdrop.label)?;
    airdrops().save(deps.storage, airdrop_id, &airdrop.into())?;
    LATEST_AIRDROP_ID.save(deps.storage, &(airdrop_id + 1))?;
""", """    let attrs = register_open_event(airdrop_id, airdrop.clone());

    // apply to state (LABELS, AIRDROP, LATEST_AIRDROP_ID)
    save_label(deps.storage, airdrop_id, &airdrop.label)?;
    airdrops().save(deps.storage, airdrop_id, &airdrop.into())?;
"""))
R("y_register_check_root", (RG, """    // check merkle root length
    let mut root_buf: [u8; 32] = [0; 32];
    hex::decode_to_slice(&merkle_root, &mut root_buf)?;

    // fetch next airdrop id and increment it
    let airdrop_id = LATEST_AIRDROP_ID.load(deps.storage)?;

    // make label with tx sender
    let label = label.map(|x| format!("{}/{x}", info.sender));

    // make open""", """    check_merkle_root(&merkle_root)?;

    // fetch next airdrop id and increment it
    let airdrop_id = LATEST_AIRDROP_ID.load(deps.storage)?;

    // make label with tx sender
    let label = own_label(&info, label);

    // make open"""), (RG, """    // check merkle root length
    let mut root_buf: [u8; 32] = [0; 32];
    hex::decode_to_slice(&merkle_root, &mut root_buf)?;

    // fetch next airdrop id and increment it
    let airdrop_id = LATEST_AIRDROP_ID.load(deps.storage)?;

    // make label with tx sender
    let label = label.map(|x| format!("{}/{x}", info.sender));

    // verify""", """    check_merkle_root(&merkle_root)?;

    // fetch next airdrop id and increment it
    let airdrop_id = LATEST_AIRDROP_ID.load(deps.storage)?;

    // make label with tx sender
    let label = own_label(&info, label);

    // verify"""), (RG, """fn register_open_event(""", """// check merkle root length
fn check_merkle_root(root: &str) -> Result<(), ContractError> {
    let mut buf = [0u8; 32];
    Ok(hex::decode_to_slice(root, &mut buf)?)
}

fn own_label(info: &MessageInfo, label: Option<String>) -> Option<String> {
    match label {
        Some(x) => Some(info.sender.to_string() + "/" + &x),
        None => None,
    }
}

fn register_open_event("""))
GUARD = """    if airdrop.creator != info.sender {
        return Err(ContractError::Unauthorized {});
    }
    if airdrop.closed_at.is_some() {
        return Err(ContractError::AirdropClosed {});
    }

    let %s"""
R("y_fund_guard", (FU, """    mut airdrop: OpenAirdrop,
) -> Result<Response, ContractError> {
""" + GUARD % "additional_funds", """    mut airdrop: OpenAirdrop,
) -> Result<Response, ContractError> {
    ensure_fundable(&airdrop.creator, airdrop.closed_at, &info.sender)?;

    let additional_funds"""), (FU, """    mut airdrop: BearerAirdrop,
) -> Result<Response, ContractError> {
""" + GUARD % "additional_funds", """    mut airdrop: BearerAirdrop,
) -> Result<Response, ContractError> {
    ensure_fundable(&airdrop.creator, airdrop.closed_at, &info.sender)?;

    let additional_funds"""), (FU, "fn fund_event(", """fn ensure_fundable(
    creator: &Addr,
    closed_at: Option<u64>,
    sender: &Addr,
) -> Result<(), ContractError> {
    match (sender == creator, closed_at) {
        (true, None) => Ok(()),
        (true, Some(_)) => Err(ContractError::AirdropClosed {}),
        (false, _) => Err(ContractError::Unauthorized {}),
    }
}

fn fund_event("""))
R("y_close_redeem", (CL, """    airdrop.closed_at = Some(env.block.height);

    // response
    let send_msg = BankMsg::Send {
        to_address: airdrop.creator.to_string(),
        amount: coins(redeem_amount.u128(), &airdrop.denom),
    };

    let attrs = close_event(info.sender, AirdropType::Open,""", """    airdrop.closed_at = Some(env.block.height);

    // response
    let send_msg = redeem_msg(&airdrop.creator, redeem_amount.u128(), &airdrop.denom);

    let attrs = close_event(info.sender, AirdropType::Open,"""), (CL, """    airdrop.closed_at = Some(env.block.height);

    // response
    let send_msg = BankMsg::Send {
        to_address: airdrop.creator.to_string(),
        amount: coins(redeem_amount.u128(), &airdrop.denom),
    };

    let attrs = close_event(info.sender, AirdropType::Bearer,""", """    airdrop.closed_at.replace(env.block.height);

    // response
    let send_msg = redeem_msg(&info.sender, redeem_amount.u128(), &airdrop.denom);

    let attrs = close_event(info.sender, AirdropType::Bearer,"""), (CL, "fn close_open(", """fn redeem_msg(to: &Addr, amount: u128, denom: &str) -> BankMsg {
    BankMsg::Send {
        to_address: to.clone().into_string(),
        amount: coins(amount, denom),
    }
}

fn close_open("""))
R("y_list_airdrops_loop", (AQ, """            let query_res = airdrops()
                .range(deps.storage, min, max, order)
                .take(limit)
                .map(airdrop_map_conv)
                .collect::<StdResult<_>>()?;

            Ok(ListAirdropsResponse(query_res))
        }

        ByType {""", """            let mut query_res = vec![];
            for item in airdrops().range(deps.storage, min, max, order).take(limit) {
                query_res.push(Airdrop::to_resp(item?));
            }

            Ok(ListAirdropsResponse(query_res))
        }

        ByType {"""))
R("y_list_airdrops_label_flow", (AQ, """    let label_map_conv = |res: StdResult<(String, u64)>| -> StdResult<_> {
        let (_, id) = res?;
        let airdrop = airdrops().load(deps.storage, id)?;

        Ok(Airdrop::to_resp((id, airdrop)))
    };
""", """    let label_map_conv = |res: StdResult<(String, u64)>| -> StdResult<_> {
        res.and_then(|(_, id)| Ok((id, airdrops().load(deps.storage, id)?)))
            .map(Airdrop::to_resp)
    };
"""))
R("y_trade_info_match", (CQ, """    Ok(GetTradeInfoResponse {
        trade_info: trade_info.map(|v| conv_trade_info(denom_in, denom_out, v)),
    })
""", """    let trade_info = match trade_info {
        Some(v) => Some(conv_trade_info(denom_in, denom_out, v)),
        None => None,
    };

    Ok(GetTradeInfoResponse { trade_info })
"""))
R("y_list_trade_loop", (CQ, """    Ok(ListTradeInfoResponse(
        TRADE_INFOS
            .prefix(&denom_in)
            .range(deps.storage, min, max, order)
            .take(limit)
            .map(|v| {
                let (o, t) = v?;
                Ok(conv_trade_info(denom_in.clone(), o, t))
            })
            .collect::<StdResult<Vec<_>>>()?,
    ))
""", """    let mut infos = Vec::with_capacity(limit);
    let prefix = TRADE_INFOS.prefix(&denom_in);
    for entry in prefix.range(deps.storage, min, max, order).take(limit) {
        let (denom_out, info) = entry?;
        infos.push(conv_trade_info(denom_in.clone(), denom_out, info));
    }

    Ok(ListTradeInfoResponse(infos))
"""))
COL = """    let index_units = INDEX_UNITS.load(deps.storage)?;
    let index_units = fee
        .streaming_fee
        .map(|mut v| -> StdResult<_> {
            Ok(v.collect(index_units.clone(), time_in_sec, total_supply)?.0)
        })
        .transpose()?
        .unwrap_or(index_units);

%s"""
NEW = """    let index_units = settled_units(deps, fee.streaming_fee, time_in_sec, total_supply)?;

%s"""
R("y_settled_units", *[(CQ, COL % x, NEW % x) for x in ("    Ok(GetPortfolioResponse", "    let spent", "    let burn_fee")], (CQ, "pub fn get_portfolio(", """fn settled_units(
    deps: Deps,
    streaming_fee: Option<StreamingFee>,
    time: u64,
    total_supply: Uint128,
) -> StdResult<Units> {
    let units = INDEX_UNITS.load(deps.storage)?;
    match streaming_fee {
        Some(mut fee) => {
            let (left, _) = fee.collect(units, time, total_supply)?;
            Ok(left)
        }
        None => Ok(units),
    }
}

pub fn get_portfolio("""), (CQ, "        Config, PauseInfo, TradeInfo, CONFIG,", "        Config, PauseInfo, StreamingFee, TradeInfo, Units, CONFIG,"))
R("y_get_config_update", (CQ, """    let mut temp_env = env;

    temp_env.block.time = Timestamp::from_seconds(time_in_sec);

    let PauseInfo""", """    let temp_env = Env {
        block: BlockInfo {
            time: Timestamp::from_seconds(time_in_sec),
            ..env.block
        },
        ..env
    };

    let PauseInfo"""), (CQ, "use cosmwasm_std::{coin, Coin,", "use cosmwasm_std::{coin, BlockInfo, Coin,"))
R("y_simulate_mint_loop", (CQ, """    let spent = index_units
        .calc_require_amount(amount)
        .into_iter()
        .map(|v| coin(v.amount.max(Uint128::one()).u128(), v.denom))
        .collect::<Vec<_>>();
    let refund = index_units.calc_refund_amount(funds.unwrap_or_else(|| spent.clone()), amount)?;
    let mint_fee = fee.mint_fee.map(|v| (v * amount).max(Uint128::one()));
    let mint_send = amount.checked_sub(mint_fee.unwrap_or_default())?;
""", """    let mut spent: Vec<Coin> = index_units.calc_require_amount(amount);
    for c in spent.iter_mut() {
        if c.amount.is_zero() {
            c.amount = Uint128::one();
        }
    }
    let funds = match funds {
        Some(v) => v,
        None => spent.clone(),
    };
    let refund = index_units.calc_refund_amount(funds, amount)?;
    let mint_send = match fee.mint_fee {
        Some(rate) => amount.checked_sub((rate * amount).max(Uint128::one()))?,
        None => amount,
    };
"""))
R("y_simulate_burn_match", (CQ, """    let burn_fee = fee.burn_fee.map(|v| v * amount);
    let burn_amount = amount.checked_sub(burn_fee.unwrap_or_default())?;
    let burn_send_amount = index_units.calc_require_amount(burn_amount);
""", """    let burn_amount = if let Some(rate) = fee.burn_fee {
        amount.checked_sub(rate * amount)?
    } else {
        amount
    };
    let burn_send_amount = index_units.calc_require_amount(burn_amount);
"""), (CQ, "    let Config { index_denom, .. } = CONFIG.load(deps.storage)?;\n\n    let resp = deps.querier.query_balance(account, index_denom)?;\n\n    Ok(resp.amount)",
  "    let config = CONFIG.load(deps.storage)?;\n\n    Ok(deps\n        .querier\n        .query_balance(&account, &config.index_denom)?\n        .amount)"))
UN = C + "state/units.rs"
FE = C + "state/fee.rs"
R("y_units_atomics", (UN, "        self.0.iter().all(|(_, unit)| unit.is_zero())", "        self.0.iter().all(|(_, unit)| unit.atomics().is_zero())"),
  (FE, "    if !(Decimal::zero() < rate && rate < Decimal::one()) {", "    if rate < Decimal::raw(1) || rate >= Decimal::percent(100) {"))
KL = A + "execute/claim.rs"
VE = A + "verify.rs"
ST = A + "state.rs"
QK = A + "query/claim.rs"
QL = A + "query/label.rs"
PE = "contracts/periphery/src/execute.rs"
WHO = """            // use tx sender if account is not provided
            let claimer = account
                .map(|x| deps.api.addr_validate(&x))
                .transpose()?
                .unwrap_or_else(|| info.sender.clone());

            claim_%s"""
R("z_claim_claimer", (KL, WHO % "open", "            let claimer = claimer_of(&deps, &info, account)?;\n\n            claim_open"), (KL, WHO % "bearer", "            let claimer = claimer_of(&deps, &info, account)?;\n\n            claim_bearer"),
  (KL, "fn claim_open_event(", """// use tx sender if account is not provided
fn claimer_of(
    deps: &DepsMut,
    info: &MessageInfo,
    account: Option<String>,
) -> Result<Addr, ContractError> {
    match account {
        None => Ok(info.sender.clone()),
        Some(account) => Ok(deps.api.addr_validate(account.as_str())?),
    }
}

fn claim_open_event("""))
TAKE = """    // claim
    airdrop.total_claimed = airdrop.total_claimed.checked_add(amount)?;
    if airdrop.total_claimed > airdrop.total_amount {
        return Err(ContractError::InsufficientAirdropFunds {});
    }

    // response
    let claim_msg = BankMsg::Send {
        to_address: claimer.to_string(),
        amount: coins(amount.u128(), &airdrop.denom),
    };

    let attrs = claim_%s_event("""
TOOK = """    // claim
    airdrop.total_claimed = add_claimed(airdrop.total_claimed, amount, airdrop.total_amount)?;

    let claim_msg = pay_out(&claimer, amount, &airdrop.denom);

    let attrs = claim_%s_event("""
R("z_claim_shared_steps", (KL, TAKE % "open", TOOK % "open"), (KL, TAKE % "bearer", TOOK % "bearer"), (KL, "fn claim_open_event(", """fn add_claimed(
    claimed: Uint128,
    amount: Uint128,
    total: Uint128,
) -> Result<Uint128, ContractError> {
    match claimed.checked_add(amount)? {
        sum if sum <= total => Ok(sum),
        _ => Err(ContractError::InsufficientAirdropFunds {}),
    }
}

fn pay_out(to: &Addr, amount: Uint128, denom: &str) -> BankMsg {
    BankMsg::Send {
        to_address: to.to_string(),
        amount: coins(amount.u128(), denom),
    }
}

fn claim_open_event("""))
R("z_claim_logged_first", (KL, """    // apply to state
    airdrops().save(deps.storage, airdrop_id, &airdrop.into())?;
    CLAIM_LOGS.save(deps.storage, (airdrop_id, &claim_hash), &amount)?;
""", """    // apply to state
    CLAIM_LOGS.save(deps.storage, (airdrop_id, claim_hash.as_str()), &amount)?;
    let airdrop = crate::airdrop::Airdrop::Bearer(airdrop);
    airdrops().save(deps.storage, airdrop_id, &airdrop)?;
"""))
R("z_verify_for", (VE, """    let hash = proof.into_iter().try_fold(hash, |hash, p| {
        let mut proof_buf = [0; 32];
        hex::decode_to_slice(p, &mut proof_buf)?;
        let mut hashes = [hash, proof_buf];
        hashes.sort_unstable();

        sha256_digest(hashes.concat())
    })?;
""", """    let mut hash = hash;
    for step in proof.iter() {
        let mut sibling = [0u8; 32];
        hex::decode_to_slice(step, &mut sibling)?;
        let (low, high) = if hash < sibling {
            (hash, sibling)
        } else {
            (sibling, hash)
        };
        hash = sha256_digest([low, high].concat())?;
    }
"""))
R("z_verify_ensure", (VE, """    if root_buf != hash {
        return Err(ContractError::InvalidProof {});
    }

    Ok(())
""", """    match hash == root_buf {
        true => Ok(()),
        false => Err(ContractError::InvalidProof {}),
    }
"""))
R("z_verify_push", (VE, """        let mut hashes = [hash, proof_buf];
        hashes.sort_unstable();

        sha256_digest(hashes.concat())
""", """        let mut pair = Vec::with_capacity(64);
        pair.extend_from_slice(&hash.min(proof_buf));
        pair.extend_from_slice(&hash.max(proof_buf));

        sha256_digest(pair)
"""))
R("z_label_shared", (QL, """    let splitted: Vec<_> = label.split('/').collect();
    let creator = splitted[0].to_string();
    let label = splitted[1..].join("/");

    Ok(GetLabelResponse {
        creator,
        label,
        airdrop_id,
    })
}

pub fn list""", """    Ok(to_label_resp(&label, airdrop_id))
}

fn to_label_resp(full: &str, airdrop_id: u64) -> GetLabelResponse {
    let mut parts = full.split('/');
    let creator = parts.next().unwrap_or_default().to_string();
    let label = parts.collect::<Vec<_>>().join("/");

    GetLabelResponse {
        creator,
        label,
        airdrop_id,
    }
}

pub fn list"""), (QL, """    let label_map_conv = |item: StdResult<(String, u64)>| {
        let (label, airdrop_id) = item?;

        let splitted: Vec<_> = label.split('/').collect();
        let creator = splitted[0].to_string();
        let label = splitted[1..].join("/");

        Ok(GetLabelResponse {
            creator,
            label,
            airdrop_id,
        })
    };
""", """    let label_map_conv =
        |item: StdResult<(String, u64)>| item.map(|(label, id)| to_label_resp(&label, id));
"""))
R("z_label_let_some", (ST, """    if let Some(label) = label {
        if LABELS.has(storage, label) {
            return Err(ContractError::KeyAlreadyExists {
                typ: "label".to_string(),
                key: label.clone(),
            });
        }
        LABELS.save(storage, label, &id)?;
    }

    Ok(())
""", """    let label = match label.as_deref() {
        Some(v) => v,
        None => return Ok(()),
    };
    if LABELS.may_load(storage, label)?.is_some() {
        return Err(ContractError::KeyAlreadyExists {
            typ: "label".into(),
            key: label.into(),
        });
    }

    Ok(LABELS.save(storage, label, &id)?)
"""))
R("z_claimed_has", (ST, """    if CLAIM_LOGS.may_load(storage, (id, claim_key))?.is_some() {
        return Err(ContractError::AlreadyClaimed {
            airdrop_id: id,
            claim_key: claim_key.to_string(),
        });
    }

    Ok(())
""", """    match CLAIM_LOGS.has(storage, (id, claim_key)) {
        false => Ok(()),
        true => Err(ContractError::AlreadyClaimed {
            airdrop_id: id,
            claim_key: claim_key.to_owned(),
        }),
    }
"""))
R("z_list_claims_range_option", (QK, """    let start = start_after.as_deref();
    let limit = get_and_check_limit(limit, MAX_LIMIT, DEFAULT_LIMIT)? as usize;
    let order = order.unwrap_or(RangeOrder::Asc).into();
    let (min, max) = match order {
        Order::Ascending => (start.map(Bound::exclusive), None),
        Order::Descending => (None, start.map(Bound::exclusive)),
    };
""", """    let ((min, max), limit, order) = range_option(start_after.as_deref(), limit, order)?;
"""), (QK, "    get_and_check_limit,\n    types::RangeOrder,\n    DEFAULT_LIMIT, MAX_LIMIT,\n", "    range_option,\n    types::RangeOrder,\n"), (QK, "use cosmwasm_std::{Deps, Order, StdResult};\nuse cw_storage_plus::Bound;", "use cosmwasm_std::{Deps, StdResult};"))
LOAD = """    // query to core contract
    let core = IbcCore(deps.api.addr_validate(&core_addr)?);
    let core_fee = core.get_fee(&deps.querier, None)?;
    let core_config = core.get_config(&deps.querier, None)?;
    let core_portfolio = core.get_portfolio(&deps.querier, None)?;

%s"""
R("z_periphery_load_core", *[(PE, LOAD % x, "    // query to core contract\n    let (core, core_fee, core_config, core_portfolio) = load_core(&deps, core_addr)?;\n\n" + x) for x in ("    let desired_asset", "    // input & output\n    let input_asset", "    // input & output\n    let index_asset = cw_utils::must_pay(&info, &core_config.index_denom)\n        .map(|v| coin(v.u128(), &core_config.index_denom))?;\n    let output_asset = coin(min")],
  (PE, "pub fn mint_exact_amount_in(", """fn load_core(
    deps: &DepsMut,
    addr: String,
) -> Result<
    (
        IbcCore,
        core::GetFeeResponse,
        core::GetConfigResponse,
        core::GetPortfolioResponse,
    ),
    ContractError,
> {
    let addr = deps.api.addr_validate(&addr)?;
    let core = IbcCore(addr);
    let portfolio = core.get_portfolio(&deps.querier, None)?;
    let config = core.get_config(&deps.querier, None)?;
    let fee = core.get_fee(&deps.querier, None)?;
    Ok((core, fee, config, portfolio))
}

pub fn mint_exact_amount_in("""))
R("z_periphery_response", (PE, """    let resp = Response::new()
        .add_messages(swap_msgs)
        .add_message(mint_msg)
        .add_message(finish_msg)
        .add_attributes(vec![
            attr("method", "mint_exact_amount_out"),
            attr("executor", info.sender),
            attr("max_input", input_asset.to_string()),
            attr("output", act_mint_asset.to_string()),
            attr("refund", sim_refund.to_string()),
        ]);

    Ok(resp)
""", """    let mut msgs: Vec<CosmosMsg> = swap_msgs;
    msgs.push(mint_msg);
    msgs.push(finish_msg.into());

    Ok(Response::new()
        .add_attribute("method", "mint_exact_amount_out")
        .add_attribute("executor", info.sender)
        .add_attribute("max_input", input_asset.to_string())
        .add_attribute("output", act_mint_asset.to_string())
        .add_attribute("refund", sim_refund.to_string())
        .add_messages(msgs))
"""))
R("z_periphery_funds_loop", (PE, """    let mut mint_msg_funds = core_portfolio
        .units
        .into_iter()
        .map(|(denom, unit)| coin((sim_res.est_min_token_out * unit).u128(), denom))
        .collect::<Vec<_>>();
    mint_msg_funds.sort_by(coin_sorter);
""", """    let mut mint_msg_funds = vec![];
    for (denom, unit) in core_portfolio.units.iter() {
        let amount = *unit * sim_res.est_min_token_out;
        mint_msg_funds.push(Coin {
            denom: denom.clone(),
            amount,
        });
    }
    mint_msg_funds.sort_by(|a, b| a.denom.cmp(&b.denom));
"""))
