"""Behaviour-preserving rewrites of the index token contract."""
C = "contracts/core/src/"
REFS = {}


def R(n, *edits):
    REFS[n] = [(C + p, a, b) for p, a, b in edits]


R("update_fee_push_style", ("execute/gov/update.rs", "    fee.mint_fee = new_fee.mint_fee;\n    fee.burn_fee = new_fee.burn_fee;\n", "    let FeePayload {\n        mint_fee, burn_fee, ..\n    } = new_fee.clone();\n    fee.burn_fee = burn_fee;\n    fee.mint_fee = mint_fee;\n"))
R("fee_collect_for_loop", ("state/fee.rs", """        let (new_units, collected): (Units, Units) = index_units
            .into_iter()
            .map(|(denom, unit)| {
                let fee_unit = unit.checked_mul(rate)?;
                let new_unit = unit.checked_sub(fee_unit)?;

                Ok(((denom.clone(), new_unit), (denom, fee_unit)))
            })
            .collect::<Result<Vec<_>, ContractError>>()?
            .into_iter()
            .unzip();

        // apply to self.collected
        for (denom, amount) in collected
            .into_iter()
            .map(|(denom, unit)| (denom, unit * total_supply))
            .collect::<Vec<_>>()
        {
            match self.collected.iter().position(|c| c.denom == denom) {
                Some(i) => {
                    let origin = self.collected.get_mut(i).unwrap();

                    origin.amount = origin.amount.checked_add(amount)?;
                }
                None => self.collected.push(coin(amount.u128(), denom)),
            }
        }
""", """        let mut new_units: Vec<(String, Decimal)> = vec![];
        for (denom, unit) in index_units {
            let fee_unit = unit.checked_mul(rate)?;
            let amount = fee_unit * total_supply;
            new_units.push((denom.clone(), unit.checked_sub(fee_unit)?));
            if let Some(origin) = self.collected.iter_mut().find(|c| c.denom == denom) {
                origin.amount = origin.amount.checked_add(amount)?;
            } else {
                self.collected.push(coin(amount.u128(), denom));
            }
        }
        let new_units: Units = new_units.into();
"""))
R("check_duplicate_set", ("state/units.rs", """        let mut uniq = BTreeMap::new();

        !self
            .0
            .iter()
            .all(|(denom, unit)| uniq.insert(denom.clone(), unit).is_none())
""", """        let mut uniq = std::collections::BTreeSet::new();
        for (denom, _) in self.0.iter() {
            if !uniq.insert(denom.as_str()) {
                return true;
            }
        }
        false
"""), ("state/units.rs", "use std::{collections::BTreeMap, ops::Deref", "use std::{ops::Deref"))
R("check_duplicate_hashset_len", ("state/units.rs", """        let mut uniq = BTreeMap::new();

        !self
            .0
            .iter()
            .all(|(denom, unit)| uniq.insert(denom.clone(), unit).is_none())
""", """        let uniq: std::collections::HashSet<&String> =
            self.0.iter().map(|(denom, _)| denom).collect();

        uniq.len() != self.0.len()
"""), ("state/units.rs", "use std::{collections::BTreeMap, ops::Deref", "use std::{ops::Deref"))
R("refund_iter_mut", ("state/units.rs", """        let mut denoms: Vec<_> = funds.clone().into_iter().map(|v| Some(v.denom)).collect();

        for Coin { denom, amount } in required {
            match funds.iter().position(|v| v.denom == denom) {
                Some(i) => {
                    denoms[i] = None;
                    funds[i].amount = funds[i].amount.checked_sub(amount)?;
                }
                None => return Err(ContractError::InsufficientFunds(denom)),
            }
        }

        let denoms: Vec<_> = denoms.into_iter().flatten().collect();
""", """        let mut denoms: Vec<_> = funds.iter().map(|v| v.denom.clone()).collect();

        for Coin { denom, amount } in required {
            let fund = funds
                .iter_mut()
                .find(|v| v.denom == denom)
                .ok_or_else(|| ContractError::InsufficientFunds(denom.clone()))?;
            fund.amount = fund.amount.checked_sub(amount)?;
            denoms.retain(|v| v != &denom);
        }

"""))
R("refund_helper", ("state/units.rs", """        let required = self
            .calc_require_amount(index_amount)
            .into_iter()
            .map(|v| coin(v.amount.max(Uint128::one()).u128(), v.denom))
            .collect::<Vec<_>>();
        let mut denoms""", """        let required = self.calc_min_require_amount(index_amount);
        let mut denoms"""), ("state/units.rs", "    pub fn calc_refund_amount(", """    fn calc_min_require_amount(&self, index_amount: Uint128) -> Vec<Coin> {
        let mut required = self.calc_require_amount(index_amount);
        for v in required.iter_mut() {
            if v.amount.is_zero() {
                v.amount = Uint128::one();
            }
        }
        required
    }

    pub fn calc_refund_amount("""))
R("require_loop", ("state/units.rs", """        self.0
            .iter()
            .map(|(denom, unit)| coin((*unit * index_amount).u128(), denom))
            .collect::<Vec<_>>()
""", """        let mut coins = Vec::with_capacity(self.0.len());
        for (denom, unit) in &self.0 {
            let amount = index_amount * *unit;
            coins.push(Coin {
                denom: denom.to_owned(),
                amount,
            });
        }
        coins
"""))
R("units_key_helpers", ("state/units.rs", """        match self.0.iter().position(|(denom, _)| denom == k) {
            Some(i) => {
                let unit = self.0.get_mut(i).unwrap();

                unit.1 = unit.1.checked_add(v)?;
            }
            None => self.0.push((k.to_string(), v)),
        }

        Ok(())
""", """        if let Some((_, unit)) = self.0.iter_mut().find(|(denom, _)| denom == k) {
            *unit = unit.checked_add(v)?;
            return Ok(());
        }
        self.0.push((k.to_string(), v));
        Ok(())
"""), ("state/units.rs", """        match self.0.iter().position(|(denom, _)| denom == k) {
            Some(i) => {
                let unit = self.0.get_mut(i).unwrap();

                unit.1 = unit.1.checked_sub(v)?;
            }
            None => return Err(StdError::not_found("unit to sub").into()),
        }

        Ok(())
""", """        let (_, unit) = self
            .0
            .iter_mut()
            .find(|(denom, _)| denom == k)
            .ok_or_else(|| StdError::not_found("unit to sub"))?;
        *unit = unit.checked_sub(v)?;

        Ok(())
"""), ("state/units.rs", """        if let Some(i) = self.0.iter().position(|u| u.0 == key) {
            self.0.get(i)
        } else {
            None
        }
""", """        self.0.iter().find(|(denom, _)| denom == key)
"""), ("state/units.rs", """        if let Some(i) = self.0.iter().position(|u| u.0 == key) {
            Some(self.0.remove(i))
        } else {
            None
        }
""", """        let i = self.0.iter().position(|u| u.0 == key)?;
        Some(self.0.remove(i))
"""), ("state/units.rs", "        self.0.iter().all(|(_, unit)| unit.is_zero())", "        !self.0.iter().any(|(_, unit)| !unit.is_zero())"))
R("pause_match", ("state/pause.rs", """        if self.paused {
            if let Some(expiry) = self.expires_at {
                if expiry <= env.block.time.seconds() {
                    return Ok(Default::default());
                }
            }
        }

        Ok(self)
""", """        let now = env.block.time.seconds();
        match (self.paused, self.expires_at) {
            (true, Some(expiry)) if now >= expiry => Ok(Self::default()),
            _ => Ok(self),
        }
"""))
R("pause_is_some_and", ("state/pause.rs", """        if self.paused {
            if let Some(expiry) = self.expires_at {
                if expiry <= env.block.time.seconds() {
                    return Ok(Default::default());
                }
            }
        }

        Ok(self)
""", """        let expired = self
            .expires_at
            .map(|expiry| env.block.time.seconds() >= expiry)
            .unwrap_or(false);
        if self.paused && expired {
            Ok(Self {
                paused: false,
                expires_at: None,
            })
        } else {
            Ok(self)
        }
"""))
R("mint_push_msgs", ("execute/token.rs", """    // filter out None - if mint fee not set
    let msgs = [
        Some(mint_msg.into()),
        fee_send_msg.map(|v| v.into()),
        Some(mint_send_msg.into()),
        Some(refund_send_msg.into()),
    ]
    .into_iter()
    .flatten()
    .collect::<Vec<CosmosMsg>>();

    let attrs = mint_event(info.sender, receiver, refund_to, amount);

    let resp = Response::new().add_messages(msgs).add_attributes(attrs);

    Ok(resp)
""", """    let mut msgs: Vec<CosmosMsg> = vec![mint_msg.into()];
    if let Some(fee_send_msg) = fee_send_msg {
        msgs.push(fee_send_msg.into());
    }
    msgs.push(mint_send_msg.into());
    msgs.push(refund_send_msg.into());

    Ok(Response::new()
        .add_attributes(mint_event(info.sender, receiver, refund_to, amount))
        .add_messages(msgs))
"""))
R("mint_fee_match", ("execute/token.rs", """    let mint_fee = fee.mint_fee.map(|v| (v * amount).max(Uint128::one()));
    let mint_send = amount.checked_sub(mint_fee.unwrap_or_default())?;

    // state applier
    TOTAL_SUPPLY.save(deps.storage, &(total_supply + amount))?;
""", """    TOTAL_SUPPLY.save(deps.storage, &total_supply.checked_add(amount)?)?;

    let (mint_fee, mint_send) = match fee.mint_fee {
        Some(rate) => {
            let calculated = amount * rate;
            let mint_fee = if calculated.is_zero() {
                Uint128::new(1)
            } else {
                calculated
            };
            (Some(mint_fee), amount.checked_sub(mint_fee)?)
        }
        None => (None, amount),
    };
"""), ("execute/token.rs", """    Ok(addr
        .map(|v| api.addr_validate(&v))
        .transpose()?
        .unwrap_or_else(|| fallback.clone()))
""", """    match addr {
        Some(addr) => Ok(api.addr_validate(&addr)?),
        None => Ok(fallback.clone()),
    }
"""))
R("burn_helper", ("execute/token.rs", """    // filter out None - if mint fee not set
    let msgs = [
        Some(burn_msg.into()),
        fee_send_msg.map(|v| v.into()),
        Some(burn_send_msg.into()),
    ]
    .into_iter()
    .flatten()
    .collect::<Vec<CosmosMsg>>();

    let attrs = burn_event(info.sender, redeem_to, burn_amount);

    let resp = Response::new().add_messages(msgs).add_attributes(attrs);
""", """    let attrs = burn_event(info.sender, redeem_to, burn_amount);

    let mut resp = Response::new().add_message(burn_msg).add_attributes(attrs);
    if let Some(msg) = fee_send_msg {
        resp = resp.add_message(msg);
    }
    let resp = resp.add_message(burn_send_msg);
"""), ("execute/token.rs", """    let burn_fee = fee.burn_fee.map(|v| v * received);
    let burn_amount = received.checked_sub(burn_fee.unwrap_or_default())?;
    let mut burn_send_amount = index_units.calc_require_amount(burn_amount);
    burn_send_amount.sort_by(|a, b| a.denom.cmp(&b.denom));
""", """    let burn_fee = match fee.burn_fee {
        Some(rate) => Some(received * rate),
        None => None,
    };
    let burn_amount = match burn_fee {
        Some(v) => received.checked_sub(v)?,
        None => received,
    };
    let mut burn_send_amount = index_units.calc_require_amount(burn_amount);
    burn_send_amount.sort_by_key(|a| a.denom.clone());
"""))
R("burn_one_coin", ("execute/token.rs", "    let received = cw_utils::must_pay(&info, &config.index_denom)?;", """    let paid = cw_utils::one_coin(&info)?;
    if paid.denom != config.index_denom {
        return Err(cosmwasm_std::StdError::generic_err("invalid denom").into());
    }
    let received = paid.amount;
    if received.is_zero() {
        return Err(cosmwasm_std::StdError::generic_err("no funds").into());
    }"""))
R("assert_no_rebalance_helper", ("execute/gov/update.rs", """    config.check_gov(&info.sender)?;
    if REBALANCE.may_load(deps.storage)?.is_some() {
        return Err(RebalanceError::OnRebalancing.into());
    }

    // update
""", """    assert_no_rebalance(deps.storage)?;
    config.check_gov(&info.sender)?;

    // update
"""), ("execute/gov/update.rs", """    config.check_gov(&info.sender)?;
    if REBALANCE.may_load(deps.storage)?.is_some() {
        return Err(RebalanceError::OnRebalancing.into());
    }

    CONFIG.save(
        deps.storage,
        &Config {
            reserve_denom: new_denom.clone(),
            ..config
        },
    )?;
""", """    config.check_gov(&info.sender)?;
    assert_no_rebalance(deps.storage)?;

    CONFIG.update(deps.storage, |mut config| -> StdResult<_> {
        config.reserve_denom = new_denom.clone();
        Ok(config)
    })?;
"""), ("execute/gov/update.rs", "pub fn update_gov(", """fn assert_no_rebalance(storage: &dyn cosmwasm_std::Storage) -> StdResult<()> {
    match REBALANCE.may_load(storage)? {
        Some(_) => Err(RebalanceError::OnRebalancing.into()),
        None => Ok(()),
    }
}

pub fn update_gov("""), ("execute/gov/update.rs", "        Config, Rebalance, StreamingFee,", "        Rebalance, StreamingFee,"))
R("rebalance_exists", ("execute/token.rs", """    config.assert_not_paused(&env)?;
    if REBALANCE.may_load(deps.storage)?.is_some() {
        return Err(RebalanceError::OnRebalancing.into());
    }

    // addresses
    let receiver""", """    if REBALANCE.exists(deps.storage) {
        return Err(RebalanceError::OnRebalancing.into());
    }
    config.assert_not_paused(&env)?;

    // addresses
    let receiver"""))
R("accept_gov_reorder", ("execute/gov/update.rs", """    let pending_gov = PENDING_GOV.load(deps.storage)?;
    assert_sender(&pending_gov, &info.sender)?;
    PENDING_GOV.remove(deps.storage);

    let mut config = CONFIG.load(deps.storage)?;

    config.gov = pending_gov;

    CONFIG.save(deps.storage, &config)?;
""", """    let pending_gov = PENDING_GOV.load(deps.storage)?;
    if pending_gov != info.sender {
        return Err(crate::error::ContractError::Unauthorized {});
    }

    let config = CONFIG.update(deps.storage, |config| -> StdResult<_> {
        Ok(Config {
            gov: info.sender.clone(),
            ..config
        })
    })?;
    PENDING_GOV.remove(deps.storage);
"""))
R("trade_manager_match", ("execute/rebalance/trade/mod.rs", """    let rebalance = match REBALANCE.may_load(deps.storage)? {
        Some(v) => v,
        None => return Err(RebalanceError::NotOnRebalancing.into()),
    };
    if let Some(manager) = rebalance.manager {
        assert_sender(&manager, &info.sender)?;
    }

    match msg {""", """    let rebalance = REBALANCE
        .may_load(deps.storage)?
        .ok_or(RebalanceError::NotOnRebalancing)?;
    match &rebalance.manager {
        Some(manager) => assert_sender(manager, &info.sender)?,
        None => (),
    }
    let reserve_denom = CONFIG.load(deps.storage)?.reserve_denom;

    match msg {"""), ("execute/rebalance/trade/mod.rs", """            if CONFIG.load(deps.storage)?.reserve_denom == target_denom {
                deflate_reserve(""", """            if reserve_denom == target_denom {
                deflate_reserve("""), ("execute/rebalance/trade/mod.rs", """            if CONFIG.load(deps.storage)?.reserve_denom == target_denom {
                inflate_reserve(""", """            if target_denom == reserve_denom {
                inflate_reserve("""))
R("finalize_any", ("execute/rebalance/finalize.rs", """    for (denom, target_unit) in rebalance.deflation {
        let (_, current_unit) = index_units.get_key(&denom).unwrap();

        if &target_unit < current_unit {
            return Err(
                RebalanceError::unable_to_finalize("deflation condition did not met").into(),
            );
        }
    }
""", """    let unmet = rebalance.deflation.iter().any(|(denom, target_unit)| {
        let (_, current_unit) = index_units.get_key(denom).unwrap();
        current_unit > target_unit
    });
    if unmet {
        return Err(RebalanceError::unable_to_finalize("deflation condition did not met").into());
    }
"""), ("execute/rebalance/finalize.rs", """    INDEX_UNITS.save(
        deps.storage,
        &index_units
            .into_iter()
            .filter(|(_, current_unit)| !current_unit.is_zero())
            .collect::<Vec<_>>()
            .into(),
    )?;

    REBALANCE.remove(deps.storage);
    RESERVE_UNITS.remove(deps.storage);
""", """    let mut index_units = index_units;
    index_units.prune_zero();
    RESERVE_UNITS.remove(deps.storage);
    REBALANCE.remove(deps.storage);
    INDEX_UNITS.save(deps.storage, &index_units)?;
"""), ("execute/rebalance/finalize.rs", """    let mut fee = FEE.load(storage)?;
    if let Some(streaming_fee) = fee.streaming_fee.as_mut() {
        streaming_fee.freeze = false;
        streaming_fee.last_collected_at = now_in_sec;
    }
    FEE.save(storage, &fee)?;
""", """    FEE.update(storage, |mut fee| -> StdResult<_> {
        fee.streaming_fee = fee.streaming_fee.map(|v| crate::state::StreamingFee {
            freeze: false,
            last_collected_at: now_in_sec,
            ..v
        });
        Ok(fee)
    })?;
"""))
R("rate_checker_match", ("state/fee.rs", """    if rate.is_none() {
        return Ok(());
    }

    let rate = rate.unwrap();

    if !(Decimal::zero() < rate && rate < Decimal::one()) {
        return Err(ValidationError::InvalidFee {
            field: field.to_string(),
            reason: format!("{rate} is invalid"),
        }
        .into());
    }

    Ok(())
""", """    match rate {
        Some(rate) if rate.is_zero() || rate >= Decimal::one() => Err(ValidationError::InvalidFee {
            field: field.to_string(),
            reason: format!("{rate} is invalid"),
        }
        .into()),
        _ => Ok(()),
    }
"""), ("state/fee.rs", """        if let Some(streaming_fee) = &self.streaming_fee {
            let max = Decimal::from_str(MAX_STREAMING_FEE_RATE)?;
            let rate = streaming_fee.rate;
            if max < rate {
""", """        let max = Decimal::from_str(MAX_STREAMING_FEE_RATE)?;
        if let Some(StreamingFee { rate, .. }) = &self.streaming_fee {
            if *rate > max {
"""))
R("validate_loops", ("state/rebalance.rs", """            let mut base_units = index_units;
            for deflation in self.deflation.iter() {
                let item = base_units.pop_key(&deflation.0);

                match item {
                    // check overflow
                    Some(item) => {
                        if item.1 < deflation.1 {""", """            for deflation in self.deflation.iter() {
                match index_units.get_key(&deflation.0) {
                    // check overflow
                    Some(item) => {
                        if deflation.1 > item.1 {"""))
R("cooldown_match", ("state/rebalance.rs", """        if self.last_traded_at.is_none() {
            return Ok(());
        }

        let t = self.last_traded_at.unwrap() + self.cooldown;

        if now < t {
            return Err(RebalanceError::OnTradeCooldown.into());
        }

        Ok(())
""", """        match self.last_traded_at {
            Some(last) if last + self.cooldown > now => Err(RebalanceError::OnTradeCooldown.into()),
            _ => Ok(()),
        }
"""))
R("execute_collect_matches", ("contract.rs", """        match msg {
            Mint { .. } => collect(deps.storage, now_in_sec)?,
            Burn { .. } => collect(deps.storage, now_in_sec)?,
            Realize {} => collect(deps.storage, now_in_sec)?,
            Rebalance(RebalanceMsg::Init { .. }) => collect(deps.storage, now_in_sec)?,
            Gov(GovMsg::UpdateFeeStrategy(..)) => collect(deps.storage, now_in_sec)?,
            _ => {}
        };
""", """        if matches!(
            msg,
            Mint { .. }
                | Burn { .. }
                | Realize {}
                | Rebalance(RebalanceMsg::Init { .. })
                | Gov(GovMsg::UpdateFeeStrategy(..))
        ) {
            collect(deps.storage, now_in_sec)?;
        }
"""))
R("collect_early_return", ("execute/fee.rs", """    if let Some(streaming_fee) = fee.streaming_fee.as_mut() {
        let index_units = INDEX_UNITS.load(storage)?;
        let (new_index_units, _) = streaming_fee.collect(index_units, now_in_sec, total_supply)?;
        INDEX_UNITS.save(storage, &new_index_units)?;
    }

    FEE.save(storage, &fee)?;

    Ok(())
""", """    let Some(streaming_fee) = fee.streaming_fee.as_mut() else {
        return Ok(());
    };
    let index_units = INDEX_UNITS.load(storage)?;
    let (new_index_units, _) = streaming_fee.collect(index_units, now_in_sec, total_supply)?;

    FEE.save(storage, &fee)?;
    INDEX_UNITS.save(storage, &new_index_units)?;

    Ok(())
"""), ("execute/fee.rs", """    let mut msgs: Vec<CosmosMsg> = vec![];

    // collect streaming fee
    if let Some(streaming_fee) = fee.streaming_fee.as_mut() {
        msgs.push(
            BankMsg::Send {
                to_address: fee.collector.to_string(),
                amount: streaming_fee.collected.clone(),
            }
            .into(),
        );

        streaming_fee.collected = vec![];
    }

    FEE.save(deps.storage, &fee)?;
""", """    let collector = fee.collector.to_string();
    let msgs: Option<CosmosMsg> = fee.streaming_fee.as_mut().map(|streaming_fee| {
        BankMsg::Send {
            to_address: collector,
            amount: std::mem::take(&mut streaming_fee.collected),
        }
        .into()
    });

    FEE.save(deps.storage, &fee)?;
"""))
R("inflate_reserve_unit_fold", ("execute/rebalance/trade/deflate.rs", """    let mut expand_unit = inflate_unit;
    let mut total_weight = inflations.iter().map(|(_, v)| *v).sum::<Decimal>();
    for (denom, weight) in inflations {
        let sub_unit = expand_unit * weight / total_weight;
        reserve_units.add_key(&denom, sub_unit)?;

        expand_unit = expand_unit.checked_sub(sub_unit)?;
        total_weight = total_weight.checked_sub(weight)?;
    }
""", """    let mut remaining = inflate_unit;
    let mut weight_left = Decimal::zero();
    for (_, weight) in inflations.iter() {
        weight_left += *weight;
    }
    for (denom, weight) in inflations.into_iter() {
        let share = (remaining * weight) / weight_left;
        remaining -= share;
        weight_left -= weight;
        reserve_units.add_key(&denom, share)?;
    }
"""))
R("deflate_checks_fn", ("execute/rebalance/trade/deflate.rs", """    // check trade_info conditions
    trade_info.assert_cooldown(env.block.time.seconds())?;
    if trade_info.max_trade_amount < amount_out {
        return Err(RebalanceError::trade_error("deflate", "exceeds maximum trade limit").into());
    }
""", """    check_limits(&trade_info, env.block.time.seconds(), amount_out)?;
"""), ("execute/rebalance/trade/deflate.rs", "pub fn deflate_reserve(", """fn check_limits(trade_info: &crate::state::TradeInfo, now: u64, amount: Uint128) -> StdResult<()> {
    if amount > trade_info.max_trade_amount {
        return Err(RebalanceError::trade_error("deflate", "exceeds maximum trade limit").into());
    }
    trade_info.assert_cooldown(now)
}

pub fn deflate_reserve("""))
R("instantiate_reorder", ("contract.rs", """    // apply initial state
    FEE.save(deps.storage, &fee)?;
    CONFIG.save(deps.storage, &config)?;
    TOTAL_SUPPLY.save(deps.storage, &Uint128::zero())?;
    INDEX_UNITS.save(deps.storage, &index_units)?;
""", """    // apply initial state
    INDEX_UNITS.save(deps.storage, &index_units)?;
    TOTAL_SUPPLY.save(deps.storage, &Uint128::default())?;
    CONFIG.save(deps.storage, &config)?;
    FEE.save(deps.storage, &fee)?;
"""), ("contract.rs", "fn to_binary<T: Serialize>", """fn new_fee(deps: &DepsMut, env: &Env, payload: ibcx_interface::core::FeePayload) -> StdResult<Fee> {
    let fee = Fee {
        collector: deps.api.addr_validate(&payload.collector)?,
        mint_fee: payload.mint_fee,
        burn_fee: payload.burn_fee,
        streaming_fee: match payload.streaming_fee {
            Some(v) => Some(StreamingFee {
                rate: v.rate,
                freeze: v.freeze,
                collected: Vec::new(),
                last_collected_at: env.block.time.seconds(),
            }),
            None => None,
        },
    };
    fee.check_rates()?;
    Ok(fee)
}

fn to_binary<T: Serialize>"""), ("contract.rs", """    let fee = Fee {
        collector: deps.api.addr_validate(&msg.fee.collector)?,
        mint_fee: msg.fee.mint_fee,
        burn_fee: msg.fee.burn_fee,
        streaming_fee: msg.fee.streaming_fee.map(|v| StreamingFee {
            rate: v.rate,
            collected: vec![],
            last_collected_at: env.block.time.seconds(),
            freeze: v.freeze,
        }),
    };
    fee.check_rates()?;

    // config""", """    let fee = new_fee(&deps, &env, msg.fee.clone())?;

    // config"""))
