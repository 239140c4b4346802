"""Behaviour-preserving rewrites: fees, rebalancing, governance and queries of the index token."""
C = "contracts/core/src/"
REFS = {}


def R(n, *edits):
    REFS[n] = [(C + p, a, b) for p, a, b in edits]


R("collect_rate_helper", ("state/fee.rs", """        let rate = (Decimal::one() + self.rate)
            .checked_pow(delta as u32)?
            .checked_sub(Decimal::one())?;
""", """        let rate = self.compounded(delta)?;
"""), ("state/fee.rs", """impl StreamingFee {
    pub fn collect(""", """impl StreamingFee {
    fn compounded(&self, secs: u64) -> Result<Decimal, ContractError> {
        let base = Decimal::one() + self.rate;
        let grown = base.checked_pow(secs as u32)?;
        Ok(grown.checked_sub(Decimal::one())?)
    }

    pub fn collect("""))
R("collect_find_mut", ("state/fee.rs", """            match self.collected.iter().position(|c| c.denom == denom) {
                Some(i) => {
                    let origin = self.collected.get_mut(i).unwrap();

                    origin.amount = origin.amount.checked_add(amount)?;
                }
                None => self.collected.push(coin(amount.u128(), denom)),
            }
""", """            if let Some(origin) = self.collected.iter_mut().find(|c| c.denom == denom) {
                origin.amount = origin.amount.checked_add(amount)?;
                continue;
            }
            self.collected.push(coin(amount.u128(), denom));
"""))
R("collect_fused_loop", ("state/fee.rs", """        for (denom, amount) in collected
            .into_iter()
            .map(|(denom, unit)| (denom, unit * total_supply))
            .collect::<Vec<_>>()
        {
""", """        for (denom, unit) in collected {
            let amount = unit * total_supply;
"""))
R("collect_guard_split", ("state/fee.rs", """        let delta = now_in_sec - self.last_collected_at;
        if self.freeze || delta == 0 {
            return Ok((index_units, None)); // not collected
        }
""", """        let delta = now_in_sec - self.last_collected_at;
        if self.freeze {
            return Ok((index_units, None));
        }
        if now_in_sec == self.last_collected_at {
            return Ok((index_units, None));
        }
"""))
R("rates_loop", ("state/fee.rs", """        rate_checker("mint_fee", self.mint_fee)?;
        rate_checker("burn_fee", self.burn_fee)?;
        rate_checker("streaming_fee", self.streaming_fee.as_ref().map(|v| v.rate))?;
""", """        let streaming = self.streaming_fee.as_ref().map(|v| v.rate);
        for (field, rate) in [
            ("mint_fee", self.mint_fee),
            ("burn_fee", self.burn_fee),
            ("streaming_fee", streaming),
        ] {
            rate_checker(field, rate)?;
        }
"""))
R("rate_range_contains", ("state/fee.rs", """    if !(Decimal::zero() < rate && rate < Decimal::one()) {""", """    if rate.is_zero() || rate >= Decimal::one() {"""))
R("max_rate_split", ("state/fee.rs", """            if max < rate {
                return Err(ValidationError::InvalidFee {
                    field: "streaming_fee".to_string(),
                    reason: format!("{rate} is greater than max rate {max}"),
                }
                .into());
            }
        }

        Ok(())
""", """            if rate <= max {
                return Ok(());
            }
            return Err(ValidationError::InvalidFee {
                field: "streaming_fee".to_string(),
                reason: format!("{rate} is greater than max rate {max}"),
            }
            .into());
        }

        Ok(())
"""))
R("streaming_from_payload", ("state/fee.rs", """impl StreamingFee {
    pub fn collect(""", """impl StreamingFee {
    pub fn starting_at(rate: Decimal, freeze: bool, now_in_sec: u64) -> Self {
        Self {
            rate,
            freeze,
            last_collected_at: now_in_sec,
            ..Default::default()
        }
    }

    pub fn collect("""), ("contract.rs", """        streaming_fee: msg.fee.streaming_fee.map(|v| StreamingFee {
            rate: v.rate,
            collected: vec![],
            last_collected_at: env.block.time.seconds(),
            freeze: v.freeze,
        }),""", """        streaming_fee: msg
            .fee
            .streaming_fee
            .map(|v| StreamingFee::starting_at(v.rate, v.freeze, env.block.time.seconds())),"""), ("execute/gov/update.rs", """    fee.streaming_fee = new_fee.streaming_fee.map(|v| StreamingFee {
        rate: v.rate,
        collected: vec![],
        last_collected_at: env.block.time.seconds(),
        freeze: v.freeze,
    });
""", """    let now = env.block.time.seconds();
    fee.streaming_fee = match new_fee.streaming_fee {
        Some(v) => Some(StreamingFee::starting_at(v.rate, v.freeze, now)),
        None => None,
    };
"""))
R("realize_take", ("execute/fee.rs", """    if let Some(streaming_fee) = fee.streaming_fee.as_mut() {
        msgs.push(
            BankMsg::Send {
                to_address: fee.collector.to_string(),
                amount: streaming_fee.collected.clone(),
            }
            .into(),
        );

        streaming_fee.collected = vec![];
    }

    FEE.save(deps.storage, &fee)?;
""", """    let to_address = fee.collector.to_string();
    if let Some(streaming_fee) = &mut fee.streaming_fee {
        let amount = std::mem::take(&mut streaming_fee.collected);
        FEE.save(deps.storage, &fee)?;
        msgs.push(BankMsg::Send { to_address, amount }.into());
    }
"""))
R("realize_helper", ("execute/fee.rs", """    let mut msgs: Vec<CosmosMsg> = vec![];

    // collect streaming fee
    if let Some(streaming_fee) = fee.streaming_fee.as_mut() {
        msgs.push(
            BankMsg::Send {
                to_address: fee.collector.to_string(),
                amount: streaming_fee.collected.clone(),
            }
            .into(),
        );

        streaming_fee.collected = vec![];
    }
""", """    let msgs: Vec<CosmosMsg> = drain_collected(&mut fee)
        .map(|amount| {
            BankMsg::Send {
                to_address: fee.collector.to_string(),
                amount,
            }
            .into()
        })
        .into_iter()
        .collect();
"""), ("execute/fee.rs", """pub fn realize_streaming_fee(""", """fn drain_collected(fee: &mut crate::state::Fee) -> Option<Vec<cosmwasm_std::Coin>> {
    fee.streaming_fee
        .as_mut()
        .map(|v| std::mem::replace(&mut v.collected, vec![]))
}

pub fn realize_streaming_fee("""))
SETTLED = """    let index_units = INDEX_UNITS.load(deps.storage)?;
    let index_units = fee
        .streaming_fee
        .map(|mut v| -> StdResult<_> {
            Ok(v.collect(index_units.clone(), time_in_sec, total_supply)?.0)
        })
        .transpose()?
        .unwrap_or(index_units);
"""
HELP = """fn settled_units(
    deps: Deps,
    streaming_fee: Option<crate::state::StreamingFee>,
    at: u64,
    total_supply: Uint128,
) -> StdResult<crate::state::Units> {
    let units = INDEX_UNITS.load(deps.storage)?;
    match streaming_fee {
        Some(mut v) => {
            let (units, _) = v.collect(units, at, total_supply)?;
            Ok(units)
        }
        None => Ok(units),
    }
}

pub fn get_portfolio("""
U = "    let index_units = settled_units(deps, fee.streaming_fee, time_in_sec, total_supply)?;\n"
R("query_settled_helper", ("query.rs", SETTLED + """
    Ok(GetPortfolioResponse {""", U + """
    Ok(GetPortfolioResponse {"""), ("query.rs", SETTLED + """
    let spent""", U + """
    let spent"""), ("query.rs", SETTLED + """
    let burn_fee""", U + """
    let burn_fee"""), ("query.rs", "pub fn get_portfolio(", HELP))
R("query_time_helper", ("query.rs", """pub fn get_fee(deps: Deps, env: Env, time: Option<u64>) -> StdResult<GetFeeResponse> {
    let now_in_sec = env.block.time.seconds();
    let time_in_sec = time.unwrap_or(now_in_sec);
""", """fn queried_time(env: &Env, time: Option<u64>) -> u64 {
    match time {
        Some(t) => t,
        None => env.block.time.seconds(),
    }
}

pub fn get_fee(deps: Deps, env: Env, time: Option<u64>) -> StdResult<GetFeeResponse> {
    let time_in_sec = queried_time(&env, time);
"""), ("query.rs", """pub fn simulate_burn(
    deps: Deps,
    env: Env,
    amount: Uint128,
    time: Option<u64>,
) -> Result<SimulateBurnResponse, ContractError> {
    let now_in_sec = env.block.time.seconds();
    let time_in_sec = time.unwrap_or(now_in_sec);
""", """pub fn simulate_burn(
    deps: Deps,
    env: Env,
    amount: Uint128,
    time: Option<u64>,
) -> Result<SimulateBurnResponse, ContractError> {
    let time_in_sec = queried_time(&env, time);
"""))
R("simulate_mint_spent_loop", ("query.rs", """    let spent = index_units
        .calc_require_amount(amount)
        .into_iter()
        .map(|v| coin(v.amount.max(Uint128::one()).u128(), v.denom))
        .collect::<Vec<_>>();
    let refund = index_units.calc_refund_amount(funds.unwrap_or_else(|| spent.clone()), amount)?;
""", """    let mut spent = index_units.calc_require_amount(amount);
    for v in spent.iter_mut() {
        v.amount = v.amount.max(Uint128::one());
    }
    let offered = match funds {
        Some(v) => v,
        None => spent.clone(),
    };
    let refund = index_units.calc_refund_amount(offered, amount)?;
"""))
R("simulate_mint_fee_match", ("query.rs", """    let mint_fee = fee.mint_fee.map(|v| (v * amount).max(Uint128::one()));
    let mint_send = amount.checked_sub(mint_fee.unwrap_or_default())?;
""", """    let mint_send = match fee.mint_fee {
        Some(rate) => {
            let charged = rate * amount;
            let charged = if charged.is_zero() {
                Uint128::one()
            } else {
                charged
            };
            amount.checked_sub(charged)?
        }
        None => amount,
    };
"""), ("query.rs", "    let total_supply = TOTAL_SUPPLY.load(deps.storage)?;\n    let fee = FEE.load(deps.storage)?;\n\n    let index_units", "    let fee = FEE.load(deps.storage)?;\n    let total_supply = TOTAL_SUPPLY.load(deps.storage)?;\n\n    let index_units"))
R("list_trade_loop", ("query.rs", """    Ok(ListTradeInfoResponse(
        TRADE_INFOS
            .prefix(&denom_in)
            .range(deps.storage, min, max, order)
            .take(limit)
            .map(|v| {
                let (o, t) = v?;
                Ok(conv_trade_info(denom_in.clone(), o, t))
            })
            .collect::<StdResult<Vec<_>>>()?,
    ))
""", """    let mut infos = vec![];
    for v in TRADE_INFOS
        .prefix(&denom_in)
        .range(deps.storage, min, max, order)
        .take(limit)
    {
        let (denom_out, info) = v?;
        infos.push(conv_trade_info(denom_in.clone(), denom_out, info));
    }

    Ok(ListTradeInfoResponse(infos))
"""))
R("get_config_env", ("query.rs", """    let mut temp_env = env;

    temp_env.block.time = Timestamp::from_seconds(time_in_sec);

    let PauseInfo { paused, expires_at } = paused.refresh(&temp_env)?;

    let pending_gov = PENDING_GOV.may_load(deps.storage)?;
""", """    let pending_gov = PENDING_GOV.may_load(deps.storage)?;

    let at = Env {
        block: cosmwasm_std::BlockInfo {
            time: Timestamp::from_seconds(time_in_sec),
            ..env.block.clone()
        },
        ..env
    };
    let PauseInfo { paused, expires_at } = paused.refresh(&at)?;
"""))
R("to_binary_and_then", ("contract.rs", """    match res {
        Ok(v) => Ok(cosmwasm_std::to_json_binary(&v)?),
        Err(e) => Err(e),
    }
""", """    let v = res?;
    Ok(cosmwasm_std::to_json_binary(&v)?)
"""))
R("dispatch_accrues_fn", ("contract.rs", """    {
        use crate::execute::collect_streaming_fee as collect;

        let now_in_sec = env.block.time.seconds();

        match msg {
            Mint { .. } => collect(deps.storage, now_in_sec)?,
            Burn { .. } => collect(deps.storage, now_in_sec)?,
            Realize {} => collect(deps.storage, now_in_sec)?,
            Rebalance(RebalanceMsg::Init { .. }) => collect(deps.storage, now_in_sec)?,
            Gov(GovMsg::UpdateFeeStrategy(..)) => collect(deps.storage, now_in_sec)?,
            _ => {}
        };
    }
""", """    if accrues(&msg) {
        execute::collect_streaming_fee(deps.storage, env.block.time.seconds())?;
    }
"""), ("contract.rs", """#[entry_point]
pub fn reply(""", """fn accrues(msg: &ExecuteMsg) -> bool {
    match msg {
        ExecuteMsg::Mint { .. } | ExecuteMsg::Burn { .. } | ExecuteMsg::Realize {} => true,
        ExecuteMsg::Gov(m) => matches!(m, GovMsg::UpdateFeeStrategy(_)),
        ExecuteMsg::Rebalance(m) => matches!(m, RebalanceMsg::Init { .. }),
    }
}

#[entry_point]
pub fn reply("""))
R("reply_if", ("contract.rs", """    match msg.id {
        REPLY_ID_DENOM_CREATION => {
            let reply_data = msg.result.unwrap().data.unwrap();
            let reply: MsgCreateDenomResponse = reply_data.try_into()?;

            let mut config = CONFIG.load(deps.storage)?;
            config.index_denom = reply.new_token_denom;
            CONFIG.save(deps.storage, &config)?;

            let resp = Response::new().add_attributes(vec![
                attr("method", "reply_instantiate"),
                attr("new_denom", config.index_denom),
            ]);

            Ok(resp)
        }
        _ => Err(ContractError::UnknownReplyId { id: msg.id }),
    }
""", """    if msg.id != REPLY_ID_DENOM_CREATION {
        return Err(ContractError::UnknownReplyId { id: msg.id });
    }

    let reply_data = msg.result.unwrap().data.unwrap();
    let reply: MsgCreateDenomResponse = reply_data.try_into()?;

    let config = CONFIG.update(deps.storage, |v| -> StdResult<_> {
        Ok(Config {
            index_denom: reply.new_token_denom,
            ..v
        })
    })?;

    Ok(Response::new()
        .add_attribute("method", "reply_instantiate")
        .add_attribute("new_denom", config.index_denom))
"""))
R("migrate_if", ("contract.rs", """    if !msg.force.unwrap_or_default() {
        ibcx_utils::store_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;
    } else {
        cw2::set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;
    }
""", """    match msg.force {
        Some(true) => cw2::set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?,
        _ => ibcx_utils::store_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?,
    }
"""))
R("init_freeze_late", ("execute/rebalance/init.rs", """    freeze_streaming_fee(deps.storage)?;

    let config = CONFIG""", """    let config = CONFIG"""), ("execute/rebalance/init.rs", """    // save
    REBALANCE.save(deps.storage, &rebalance)?;
""", """    // save
    freeze_streaming_fee(deps.storage)?;
    REBALANCE.save(deps.storage, &rebalance)?;
"""), ("execute/rebalance/init.rs", """    FEE.update(storage, |mut v| {
        if let Some(streaming_fee) = v.streaming_fee.as_mut() {
            streaming_fee.freeze = true;
        }
        StdResult::Ok(v)
    })?;

    Ok(())
""", """    let mut fee = FEE.load(storage)?;
    match fee.streaming_fee.as_mut() {
        Some(streaming_fee) => streaming_fee.freeze = true,
        None => return Ok(()),
    }
    FEE.save(storage, &fee)?;

    Ok(())
"""))
R("init_manager_match", ("execute/rebalance/init.rs", """        manager: manager
            .clone()
            .map(|v| deps.api.addr_validate(&v))
            .transpose()?,
""", """        manager: match &manager {
            Some(v) => Some(deps.api.addr_validate(v)?),
            None => None,
        },
"""))
R("finalize_retain", ("execute/rebalance/finalize.rs", """    INDEX_UNITS.save(
        deps.storage,
        &index_units
            .into_iter()
            .filter(|(_, current_unit)| !current_unit.is_zero())
            .collect::<Vec<_>>()
            .into(),
    )?;

    REBALANCE.remove(deps.storage);
    RESERVE_UNITS.remove(deps.storage);
""", """    let mut kept = vec![];
    for (denom, unit) in index_units {
        if unit.is_zero() {
            continue;
        }
        kept.push((denom, unit));
    }

    RESERVE_UNITS.remove(deps.storage);
    REBALANCE.remove(deps.storage);
    INDEX_UNITS.save(deps.storage, &kept.into())?;
    unfreeze_streaming_fee(deps.storage, env.block.time.seconds())?;
"""), ("execute/rebalance/finalize.rs", """    unfreeze_streaming_fee(deps.storage, env.block.time.seconds())?;

    let rebalance""", """    let rebalance"""))
R("finalize_unfreeze_struct", ("execute/rebalance/finalize.rs", """    let mut fee = FEE.load(storage)?;
    if let Some(streaming_fee) = fee.streaming_fee.as_mut() {
        streaming_fee.freeze = false;
        streaming_fee.last_collected_at = now_in_sec;
    }
    FEE.save(storage, &fee)?;
""", """    let fee = FEE.load(storage)?;
    let streaming_fee = fee.streaming_fee.map(|v| crate::state::StreamingFee {
        freeze: false,
        last_collected_at: now_in_sec,
        ..v
    });
    FEE.save(
        storage,
        &crate::state::Fee {
            streaming_fee,
            ..fee
        },
    )?;
"""))
LIM = """    // check trade_info conditions
    trade_info.assert_cooldown(env.block.time.seconds())?;
    if trade_info.max_trade_amount < amount_in {
        return Err(RebalanceError::trade_error("inflate", "exceeds maximum trade limit").into());
    }
"""
R("inflate_reordered", ("execute/rebalance/trade/inflate.rs", LIM, """    let now = env.block.time.seconds();
    if amount_in > trade_info.max_trade_amount {
        return Err(RebalanceError::trade_error("inflate", "exceeds maximum trade limit").into());
    }
    trade_info.assert_cooldown(now)?;
"""), ("execute/rebalance/trade/inflate.rs", """    let routes = trade_info.routes.clone();

    INDEX_UNITS.save(deps.storage, &index_units)?;
    RESERVE_UNITS.save(deps.storage, &reserve_units)?;
    TRADE_INFOS.save(
        deps.storage,
        (&config.reserve_denom, &target_denom),
        &trade_info.update_last_traded_at(env.block.time.seconds()),
    )?;
""", """    let mut trade_info = trade_info;
    trade_info.last_traded_at = Some(now);
    let key = (config.reserve_denom.as_str(), target_denom.as_str());
    TRADE_INFOS.save(deps.storage, key, &trade_info)?;
    RESERVE_UNITS.save(deps.storage, &reserve_units)?;
    INDEX_UNITS.save(deps.storage, &index_units)?;
    let routes = trade_info.routes;
"""))
R("inflate_ensure", ("execute/rebalance/trade/inflate.rs", """    let reserve_amount = reserve_unit * total_supply;
    if reserve_amount < amount_in {
        return Err(RebalanceError::trade_error("inflate", "insufficient amount to swap").into());
    }
""", """    let reserve_amount = reserve_unit * total_supply;
    ensure(
        !(amount_in > reserve_amount),
        "insufficient amount to swap",
    )?;
"""), ("execute/rebalance/trade/inflate.rs", """    if sim_amount_out < min_amount_out {
        return Err(RebalanceError::trade_error("inflate", "over slippage allowance").into());
    }
""", """    ensure(
        !(min_amount_out > sim_amount_out),
        "over slippage allowance",
    )?;
"""), ("execute/rebalance/trade/inflate.rs", """// reserve_unit -> index_unit (exact_amount_in)""", """fn ensure(ok: bool, reason: &str) -> StdResult<()> {
    if ok {
        Ok(())
    } else {
        Err(RebalanceError::trade_error("inflate", reason).into())
    }
}

// reserve_unit -> index_unit (exact_amount_in)"""))
R("trade_dispatch_flat", ("execute/rebalance/trade/mod.rs", """            if CONFIG.load(deps.storage)?.reserve_denom == target_denom {
                deflate_reserve(deps, info, target_denom)
            } else {
                deflate(deps, env, info, target_denom, amount_out, max_amount_in)
            }
""", """            let config = CONFIG.load(deps.storage)?;
            if config.reserve_denom != target_denom {
                return deflate(deps, env, info, target_denom, amount_out, max_amount_in);
            }
            deflate_reserve(deps, info, config.reserve_denom)
"""))
R("deflate_reserve_inline", ("execute/rebalance/trade/deflate.rs", """    let mut index_units = index_units;
    deflate_index_unit(&mut index_units, &reserve_denom, unit_gap)?;

    let mut reserve_units = reserve_units;
    inflate_reserve_unit(&mut reserve_units, unit_gap, rebalance.inflation)?;

    // state applier
    INDEX_UNITS.save(deps.storage, &index_units)?;
    RESERVE_UNITS.save(deps.storage, &reserve_units)?;

    // response
    let attrs = vec![
        attr("method", "deflate"),
        attr("executor", info.sender),
        attr("denom", reserve_denom),
        attr("amount_in", amount_gap""", """    let mut reserve_units = reserve_units;
    inflate_reserve_unit(&mut reserve_units, unit_gap, rebalance.inflation)?;
    RESERVE_UNITS.save(deps.storage, &reserve_units)?;

    let mut index_units = index_units;
    index_units.sub_key(&reserve_denom, unit_gap)?;
    INDEX_UNITS.save(deps.storage, &index_units)?;

    // response
    let attrs = vec![
        attr("method", "deflate"),
        attr("executor", info.sender),
        attr("denom", reserve_denom),
        attr("amount_in", amount_gap"""))
R("deflate_bounds_min", ("execute/rebalance/trade/deflate.rs", """    if amount_gap < sim_amount_in {
        return Err(RebalanceError::trade_error("deflate", "insufficient amount to swap").into());
    }

    if max_amount_in < sim_amount_in {
        return Err(RebalanceError::trade_error("deflate", "over slippage tolerance").into());
    }
""", """    if sim_amount_in > amount_gap.min(max_amount_in) {
        let reason = if amount_gap < sim_amount_in {
            "insufficient amount to swap"
        } else {
            "over slippage tolerance"
        };
        return Err(RebalanceError::trade_error("deflate", reason).into());
    }
"""))
R("cooldown_elapsed", ("state/rebalance.rs", """        if self.last_traded_at.is_none() {
            return Ok(());
        }

        let t = self.last_traded_at.unwrap() + self.cooldown;

        if now < t {
            return Err(RebalanceError::OnTradeCooldown.into());
        }

        Ok(())
""", """        match self.last_traded_at.map(|t| t + self.cooldown) {
            Some(ready_at) if now < ready_at => Err(RebalanceError::OnTradeCooldown.into()),
            _ => Ok(()),
        }
"""))
R("trade_info_mut_self", ("state/rebalance.rs", """    pub fn update_last_traded_at(self, now: u64) -> Self {
        Self {
            last_traded_at: Some(now),
            ..self
        }
    }
""", """    pub fn update_last_traded_at(mut self, now: u64) -> Self {
        self.last_traded_at.replace(now);
        self
    }
"""))
R("rebalance_checks_split", ("state/rebalance.rs", """        // check empty
        if self.deflation.len() == 0 {
            return Err(ValidationError::invalid_rebalance("deflation", "empty").into());
        }
        if self.inflation.len() == 0 {
            return Err(ValidationError::invalid_rebalance("inflation", "empty").into());
        }

        // check duplication
        if self.deflation.check_duplicate() {
            return Err(ValidationError::invalid_rebalance("deflation", "duplicate denom").into());
        }
        if self.inflation.check_duplicate() {
            return Err(ValidationError::invalid_rebalance("inflation", "duplicate denom").into());
        }
""", """        Self::check_side("deflation", &self.deflation)?;
        Self::check_side("inflation", &self.inflation)?;
"""), ("state/rebalance.rs", """impl Rebalance {
    pub fn validate(""", """impl Rebalance {
    fn check_side(side: &str, units: &Units) -> Result<(), ContractError> {
        if units.is_empty() {
            return Err(ValidationError::invalid_rebalance(side, "empty").into());
        }
        if units.check_duplicate() {
            return Err(ValidationError::invalid_rebalance(side, "duplicate denom").into());
        }
        Ok(())
    }

    pub fn validate("""))
R("rebalance_conflict_any", ("state/rebalance.rs", """            let conflict = self
                .deflation
                .clone()
                .into_iter()
                .chain(self.inflation.clone())
                .collect::<Units>()
                .check_duplicate();
            if conflict {
""", """            let conflict = self
                .deflation
                .iter()
                .any(|(denom, _)| self.inflation.iter().any(|(other, _)| other == denom));
            if conflict {
"""))
R("fee_update_reordered", ("execute/gov/update.rs", """    fee.collector = deps.api.addr_validate(&new_fee.collector)?;
    fee.mint_fee = new_fee.mint_fee;
    fee.burn_fee = new_fee.burn_fee;
    fee.streaming_fee = new_fee.streaming_fee.map(|v| StreamingFee {
        rate: v.rate,
        collected: vec![],
        last_collected_at: env.block.time.seconds(),
        freeze: v.freeze,
    });
    fee.check_rates()?;

    FEE.save(deps.storage, &fee)?;
""", """    let now = env.block.time.seconds();
    let fee = crate::state::Fee {
        streaming_fee: new_fee.streaming_fee.map(|v| StreamingFee {
            rate: v.rate,
            collected: Vec::new(),
            last_collected_at: now,
            freeze: v.freeze,
        }),
        burn_fee: new_fee.burn_fee,
        mint_fee: new_fee.mint_fee,
        collector: deps.api.addr_validate(&new_fee.collector)?,
    };
    fee.check_rates()?;
    FEE.save(deps.storage, &fee)?;
"""))
R("manager_update_closure", ("execute/gov/update.rs", """    let rebalance = match REBALANCE.may_load(deps.storage)? {
        Some(r) => r,
        None => return Err(RebalanceError::NotOnRebalancing.into()),
    };

    REBALANCE.save(
        deps.storage,
        &Rebalance {
            manager: new_manager
                .clone()
                .map(|v| deps.api.addr_validate(&v))
                .transpose()?,
            ..rebalance
        },
    )?;
""", """    let manager = match new_manager.as_deref() {
        Some(v) => Some(deps.api.addr_validate(v)?),
        None => None,
    };
    let rebalance: Rebalance = REBALANCE
        .may_load(deps.storage)?
        .ok_or(RebalanceError::NotOnRebalancing)?;

    REBALANCE.save(
        deps.storage,
        &Rebalance {
            manager,
            deflation: rebalance.deflation,
            inflation: rebalance.inflation,
        },
    )?;
"""))
R("trade_info_registration", ("execute/gov/update.rs", """    TRADE_INFOS.save(deps.storage, (&denom_in, &routes.denom_last()), &trade_info)?;
""", """    let denom_out = routes.denom_last();
    let key = (denom_in.as_str(), denom_out.as_str());
    TRADE_INFOS.save(deps.storage, key, &trade_info)?;
"""))
R("burn_supply_update", ("execute/token.rs", """    TOTAL_SUPPLY.save(deps.storage, &(total_supply - burn_amount))?;
""", """    TOTAL_SUPPLY.update(deps.storage, |v| -> StdResult<_> { Ok(v - burn_amount) })?;
"""), ("execute/token.rs", """    let total_supply = TOTAL_SUPPLY.load(deps.storage)?;

    // calculate
    let received""", """
    // calculate
    let received"""))
R("burn_sort_by_key", ("execute/token.rs", """    burn_send_amount.sort_by(|a, b| a.denom.cmp(&b.denom));
""", """    burn_send_amount.sort_by_key(|v| v.denom.clone());
"""))
R("require_amount_zip_loop", ("query.rs", """        assets: index_units.calc_require_amount(total_supply),
        units: index_units.into(),
""", """        assets: {
            let mut assets = vec![];
            for coin in index_units.calc_require_amount(total_supply) {
                assets.push(coin);
            }
            assets
        },
        units: index_units.into(),
"""))
