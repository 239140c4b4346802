"""Behaviour-preserving rewrites in less common styles: iterator machinery, patterns, local macros, traits, recursion-free loops."""
REFS = {}
C = "contracts/core/src/"
D = "contracts/airdrop/src/"
P = "contracts/periphery/src/"
L = "packages/"


def R(n, pre, *edits):
    REFS[n] = [(pre + p, a, b) for p, a, b in edits]


R("x_validate_try_for_each", C, ("state/rebalance.rs", """            let mut base_units = index_units;
            for deflation in self.deflation.iter() {
                let item = base_units.pop_key(&deflation.0);

                match item {
                    // check overflow
                    Some(item) => {
                        if item.1 < deflation.1 {
                            return Err(ValidationError::invalid_rebalance(
                                "deflation",
                                format!("overflow: {}", deflation.0),
                            )
                            .into());
                        }
                    }

                    // check missing denom
                    None => {
                        return Err(ValidationError::invalid_rebalance(
                            "deflation",
                            format!("missing denom: {}", deflation.0),
                        )
                        .into());
                    }
                }
            }
""", """            self.deflation.iter().try_for_each(|(denom, target)| {
                let (_, current) = index_units.get_key(denom).ok_or_else(|| {
                    ValidationError::invalid_rebalance(
                        "deflation",
                        format!("missing denom: {denom}"),
                    )
                })?;
                if target <= current {
                    Ok(())
                } else {
                    Err(ValidationError::invalid_rebalance(
                        "deflation",
                        format!("overflow: {denom}"),
                    ))
                }
            })?;
"""))
R("x_validate_any_all", C, ("state/rebalance.rs", """        if let Some((denom, _)) = self.inflation.iter().find(|(_, weight)| weight.is_zero()) {""", """        if let Some((denom, _)) = self
            .inflation
            .iter()
            .filter(|(_, weight)| *weight <= cosmwasm_std::Decimal::zero())
            .last()
        {"""), ("state/rebalance.rs", """            let conflict = self
                .deflation
                .clone()
                .into_iter()
                .chain(self.inflation.clone())
                .collect::<Units>()
                .check_duplicate();
""", """            let conflict = !self
                .inflation
                .iter()
                .all(|(denom, _)| self.deflation.get_key(denom).is_none());
"""))
R("x_dup_sorted_windows", C, ("state/units.rs", """        let mut uniq = BTreeMap::new();

        !self
            .0
            .iter()
            .all(|(denom, unit)| uniq.insert(denom.clone(), unit).is_none())""", """        let mut seen: Vec<&str> = Vec::with_capacity(self.0.len());

        for (denom, _) in &self.0 {
            if seen.contains(&denom.as_str()) {
                return true;
            }
            seen.push(denom);
        }

        false"""), ("state/units.rs", "use std::{collections::BTreeMap, ops::Deref,", "use std::{ops::Deref,"))
R("x_dup_pairs", C, ("state/units.rs", """        let mut uniq = BTreeMap::new();

        !self
            .0
            .iter()
            .all(|(denom, unit)| uniq.insert(denom.clone(), unit).is_none())""", """        self.0.iter().enumerate().any(|(i, (denom, _))| {
            self.0[..i].iter().any(|(prev, _)| prev == denom)
        })"""), ("state/units.rs", "use std::{collections::BTreeMap, ops::Deref,", "use std::{ops::Deref,"))
R("x_addkey_find_let_else", C, ("state/units.rs", """        match self.0.iter().position(|(denom, _)| denom == k) {
            Some(i) => {
                let unit = self.0.get_mut(i).unwrap();

                unit.1 = unit.1.checked_add(v)?;
            }
            None => self.0.push((k.to_string(), v)),
        }

        Ok(())""", """        for (denom, unit) in self.0.iter_mut() {
            if denom == k {
                *unit = unit.checked_add(v)?;
                return Ok(());
            }
        }
        self.0.push((k.to_string(), v));

        Ok(())"""))
R("x_subkey_ok_or", C, ("state/units.rs", """        match self.0.iter().position(|(denom, _)| denom == k) {
            Some(i) => {
                let unit = self.0.get_mut(i).unwrap();

                unit.1 = unit.1.checked_sub(v)?;
            }
            None => return Err(StdError::not_found("unit to sub").into()),
        }

        Ok(())""", """        let Some((_, unit)) = self.0.iter_mut().find(|(denom, _)| denom.as_str() == k) else {
            return Err(StdError::not_found("unit to sub").into());
        };
        *unit = unit.checked_sub(v)?;

        Ok(())"""))
R("x_refund_partition", C, ("state/units.rs", """        let mut denoms: Vec<_> = funds.clone().into_iter().map(|v| Some(v.denom)).collect();

        for Coin { denom, amount } in required {
            match funds.iter().position(|v| v.denom == denom) {
                Some(i) => {
                    denoms[i] = None;
                    funds[i].amount = funds[i].amount.checked_sub(amount)?;
                }
                None => return Err(ContractError::InsufficientFunds(denom)),
            }
        }

        let denoms: Vec<_> = denoms.into_iter().flatten().collect();
        if !denoms.is_empty() {
            return Err(StdError::generic_err(format!("{denoms:?}")).into());
        }
""", """        let mut used = vec![false; funds.len()];

        for Coin { denom, amount } in required {
            let i = funds
                .iter()
                .position(|v| v.denom == denom)
                .ok_or(ContractError::InsufficientFunds(denom))?;
            used[i] = true;
            funds[i].amount = funds[i].amount.checked_sub(amount)?;
        }

        if used.iter().any(|v| !v) {
            let denoms: Vec<_> = funds
                .iter()
                .zip(used)
                .filter(|(_, used)| !used)
                .map(|(v, _)| v.denom.clone())
                .collect();
            return Err(StdError::generic_err(format!("{denoms:?}")).into());
        }
"""))
R("x_collect_fold_tuple", C, ("state/fee.rs", """        let (new_units, collected): (Units, Units) = index_units
            .into_iter()
            .map(|(denom, unit)| {
                let fee_unit = unit.checked_mul(rate)?;
                let new_unit = unit.checked_sub(fee_unit)?;

                Ok(((denom.clone(), new_unit), (denom, fee_unit)))
            })
            .collect::<Result<Vec<_>, ContractError>>()?
            .into_iter()
            .unzip();
""", """        let (new_units, collected) = index_units.into_iter().try_fold(
            (Units::default(), Units::default()),
            |(mut left, mut taken), (denom, unit)| {
                let fee_unit = unit.checked_mul(rate)?;
                left.extend([(denom.clone(), unit.checked_sub(fee_unit)?)]);
                taken.extend([(denom, fee_unit)]);
                Ok::<_, ContractError>((left, taken))
            },
        )?;
"""))
R("x_collect_entry_loop", C, ("state/fee.rs", """            match self.collected.iter().position(|c| c.denom == denom) {
                Some(i) => {
                    let origin = self.collected.get_mut(i).unwrap();

                    origin.amount = origin.amount.checked_add(amount)?;
                }
                None => self.collected.push(coin(amount.u128(), denom)),
            }""", """            if self.collected.iter().all(|c| c.denom != denom) {
                self.collected.push(coin(0, denom.clone()));
            }
            for c in self.collected.iter_mut() {
                if c.denom == denom {
                    c.amount = c.amount.checked_add(amount)?;
                    break;
                }
            }"""))
R("x_mint_chain", C, ("execute/token.rs", """    // filter out None - if mint fee not set
    let msgs = [
        Some(mint_msg.into()),
        fee_send_msg.map(|v| v.into()),
        Some(mint_send_msg.into()),
        Some(refund_send_msg.into()),
    ]
    .into_iter()
    .flatten()
    .collect::<Vec<CosmosMsg>>();

    let attrs = mint_event(info.sender, receiver, refund_to, amount);

    let resp = Response::new().add_messages(msgs).add_attributes(attrs);

    Ok(resp)""", """    let sends = std::iter::once(CosmosMsg::from(mint_msg))
        .chain(fee_send_msg.map(CosmosMsg::from))
        .chain([mint_send_msg, refund_send_msg].map(CosmosMsg::from));

    Ok(Response::new()
        .add_attributes(mint_event(info.sender, receiver, refund_to, amount))
        .add_messages(sends))"""))
R("x_burn_macro", C, ("execute/token.rs", """    // send (100 - fee) * units to burner
    let burn_send_msg = BankMsg::Send {
        to_address: redeem_to.to_string(),
        amount: burn_send_amount,
    };
""", """    macro_rules! pay {
        ($to:expr, $amount:expr) => {
            BankMsg::Send {
                to_address: $to.to_string(),
                amount: $amount,
            }
        };
    }

    // send (100 - fee) * units to burner
    let burn_send_msg = pay!(redeem_to, burn_send_amount);
"""), ("execute/token.rs", """    let burn_fee = fee.burn_fee.map(|v| v * received);
    let burn_amount = received.checked_sub(burn_fee.unwrap_or_default())?;""", """    let (burn_fee, burn_amount) = match fee.burn_fee {
        Some(rate) => {
            let cut = rate * received;
            (Some(cut), received.checked_sub(cut)?)
        }
        None => (None, received),
    };"""))
R("x_finalize_find_map", C, ("execute/rebalance/finalize.rs", """    for (denom, target_unit) in rebalance.deflation {
        let (_, current_unit) = index_units.get_key(&denom).unwrap();

        if &target_unit < current_unit {
            return Err(
                RebalanceError::unable_to_finalize("deflation condition did not met").into(),
            );
        }
    }
""", """    let unmet = rebalance
        .deflation
        .iter()
        .map(|(denom, target)| (index_units.get_key(denom).unwrap().1, *target))
        .filter(|(current, target)| current > target)
        .count();
    if unmet > 0 {
        return Err(RebalanceError::unable_to_finalize("deflation condition did not met").into());
    }
"""))
R("x_pause_filter", C, ("state/pause.rs", """        if self.paused {
            if let Some(expiry) = self.expires_at {
                if expiry <= env.block.time.seconds() {
                    return Ok(Default::default());
                }
            }
        }

        Ok(self)""", """        let now = env.block.time.seconds();
        let live = !self.paused || !matches!(self.expires_at, Some(expiry) if now >= expiry);

        Ok(if live { self } else { Self::default() })"""))
R("x_cooldown_map_or", C, ("state/rebalance.rs", """        if self.last_traded_at.is_none() {
            return Ok(());
        }

        let t = self.last_traded_at.unwrap() + self.cooldown;

        if now < t {
            return Err(RebalanceError::OnTradeCooldown.into());
        }

        Ok(())""", """        let ready = self
            .last_traded_at
            .map_or(true, |last| last + self.cooldown <= now);

        ready
            .then_some(())
            .ok_or_else(|| RebalanceError::OnTradeCooldown.into())"""))
R("x_gov_err_when", C, ("execute/gov/update.rs", """    if PENDING_GOV.may_load(deps.storage)?.is_some() {
        return Err(StdError::generic_err("pending gov exists").into());
    }
    PENDING_GOV.save(deps.storage, &deps.api.addr_validate(&new_gov)?)?;
""", """    PENDING_GOV
        .may_load(deps.storage)?
        .map_or(Ok(()), |_| Err(StdError::generic_err("pending gov exists")))?;
    let nominee = deps.api.addr_validate(&new_gov)?;
    PENDING_GOV.save(deps.storage, &nominee)?;
"""))
R("x_fee_update_destructure", C, ("execute/gov/update.rs", """    fee.collector = deps.api.addr_validate(&new_fee.collector)?;
    fee.mint_fee = new_fee.mint_fee;
    fee.burn_fee = new_fee.burn_fee;
    fee.streaming_fee = new_fee.streaming_fee.map(|v| StreamingFee {
        rate: v.rate,
        collected: vec![],
        last_collected_at: env.block.time.seconds(),
        freeze: v.freeze,
    });
    fee.check_rates()?;
""", """    let FeePayload {
        collector,
        mint_fee,
        burn_fee,
        streaming_fee,
    } = new_fee;
    let fee = crate::state::Fee {
        collector: deps.api.addr_validate(&collector)?,
        mint_fee,
        burn_fee,
        streaming_fee: match streaming_fee {
            None => None,
            Some(v) => Some(StreamingFee {
                rate: v.rate,
                freeze: v.freeze,
                last_collected_at: env.block.time.seconds(),
                ..Default::default()
            }),
        },
    };
    fee.check_rates()?;
"""))
R("x_pool_ids_vec_dedup", L, ("interface/src/periphery.rs", """    let mut pool_ids = swap_info
        .into_iter()
        .flat_map(|v| v.0 .1 .0.into_iter().map(|r| r.pool_id))
        .collect::<HashSet<_>>()
        .into_iter()
        .collect::<Vec<_>>();

    pool_ids.sort();

    pool_ids""", """    let mut pool_ids: Vec<u64> = Vec::new();
    for SwapInfo((_, SwapRoutes(routes))) in swap_info {
        for SwapRoute { pool_id, .. } in routes {
            if !pool_ids.contains(&pool_id) {
                pool_ids.push(pool_id);
            }
        }
    }
    pool_ids.sort_unstable();

    pool_ids"""), ("interface/src/periphery.rs", "use std::collections::HashSet;\n\n", ""))
R("x_to_msgs_sum_loop", L, ("pool/src/sim/route.rs", """        let swap_msgs = self
            .0
            .iter()
            .filter_map(|r| {
                r.routes.as_ref().map(|routes| {
                    let min_amount_out = r.sim_amount_out * amplifier;
                    routes.msg_swap_exact_in(
                        contract,
                        &r.amount_in.denom,
                        r.amount_in.amount,
                        min_amount_out,
                    )
                })
            })
            .collect::<Vec<_>>();

        Ok(swap_msgs)""", """        let mut swap_msgs = Vec::with_capacity(self.0.len());
        for SimAmountOutRoute {
            amount_in,
            sim_amount_out,
            routes,
        } in &self.0
        {
            let Some(routes) = routes else { continue };
            swap_msgs.push(routes.msg_swap_exact_in(
                contract,
                &amount_in.denom,
                amount_in.amount,
                *sim_amount_out * amplifier,
            ));
        }

        Ok(swap_msgs)"""))
R("x_est_in_rfold", L, ("pool/src/sim/index_in.rs", """        let routes_with_amount = self
            .index_units
            .iter()
            .map(|(denom, unit)| {
                let token_in = coin((token_in * *unit).u128(), denom);

                // if this unit does not have to do swap
                if token_in.denom == output_asset {
                    Ok(SimAmountOutRoute {
                        // amount_in = amount_out
                        sim_amount_out: token_in.amount,
                        amount_in: token_in,
                        routes: None,
                    })
                } else {
                    self.estimate_out_given_in(token_in, output_asset, &mut pools_map)
                }
            })
            .collect::<Result<Vec<_>, PoolError>>()?;

        let total_received = routes_with_amount
            .iter()
            .try_fold(Uint128::zero(), |acc, v| {
                Ok::<_, PoolError>(acc.checked_add(v.sim_amount_out)?)
            })?;
""", """        let mut total_received = Uint128::zero();
        let mut routes_with_amount = vec![];
        for (denom, unit) in self.index_units {
            let token_in = coin((token_in * *unit).u128(), denom);

            let route = if denom.as_str() != output_asset {
                self.estimate_out_given_in(token_in, output_asset, &mut pools_map)?
            } else {
                SimAmountOutRoute {
                    sim_amount_out: token_in.amount,
                    amount_in: token_in,
                    routes: None,
                }
            };
            total_received = total_received.checked_add(route.sim_amount_out)?;
            routes_with_amount.push(route);
        }
"""))
R("x_search_while", L, ("pool/src/sim/index_out.rs", """            let err = Decimal::checked_from_ratio(desired_input.amount, acc_res.max_token_in)?;""", """            let err = Decimal::checked_from_ratio(desired_input.amount, acc_res.max_token_in)?;
            let in_reach = err >= Decimal::one();"""), ("pool/src/sim/index_out.rs", """            if Decimal::one() <= err
                && desired_input.amount.checked_sub(acc_res.max_token_in)?
                    < Uint128::from(MAX_ERROR)
            {
                return Ok(acc_res);
            }""", """            if !in_reach {
                continue;
            }
            let short = desired_input.amount.checked_sub(acc_res.max_token_in)?;
            if short < Uint128::from(MAX_ERROR) {
                return Ok(acc_res);
            }"""))
R("x_pow_int_while_bits", L, ("math/src/pow.rs", """    let mut i = power;

    loop {
        if i <= Uint256::one() {
            break;
        }

        if i % Uint256::from(2u64) != Uint256::zero() {
            tmp *= base;
        }

        i /= Uint256::from(2u64);

        base *= base;
    }
""", """    let two = Uint256::from(2u64);
    let mut i = power;

    while i > Uint256::one() {
        let (half, odd) = (i / two, i % two);
        if !odd.is_zero() {
            tmp = tmp * base;
        }
        base = base * base;
        i = half;
    }
"""))
R("x_pool_assets_map_collect", L, ("pool/src/weighted.rs", """        for (i, asset) in self.pool_assets.clone().into_iter().enumerate() {
            self.pool_assets[i] = PoolAssetTuple(match asset.token.denom {
                d if d == input_denom => (d, after_input_amount, asset.weight),
                d if d == output_denom => (d, after_output_amount, asset.weight),
                d => (d, asset.token.amount, asset.weight),
            })
            .into();
        }
""", """        self.pool_assets = std::mem::take(&mut self.pool_assets)
            .into_iter()
            .map(|asset| {
                let PoolAsset {
                    token: BigCoin { denom, amount },
                    weight,
                } = asset;
                let amount = if denom == input_denom {
                    after_input_amount
                } else if denom == output_denom {
                    after_output_amount
                } else {
                    amount
                };
                PoolAssetTuple((denom, amount, weight)).into()
            })
            .collect();
"""))
R("x_fee_trait", P, ("lib.rs", """    Ok(rate
        .map(|v| {
            Ok::<_, ContractError>(Decimal::one().checked_div(Decimal::one().checked_sub(v)?)?)
        })
        .transpose()?
        .unwrap_or(Decimal::one()))""", """    match deduct_fee(rate)? {
        kept if rate.is_none() => Ok(kept),
        kept => Ok(Decimal::one().checked_div(kept)?),
    }"""))
R("x_finish_trait_fn", P, ("execute.rs", """    let finish_msgs: Vec<CosmosMsg> = vec![
        WasmMsg::Execute {
            contract_addr: env.contract.address.to_string(),
            msg: to_json_binary(&ExecuteMsg::FinishOperation {
                refund_to: info.sender.to_string(),
                refund_asset: core_config.index_denom,
            })?,
            funds: vec![],
        }
        .into(),
        WasmMsg::Execute {
            contract_addr: env.contract.address.to_string(),
            msg: to_json_binary(&ExecuteMsg::FinishOperation {
                refund_to: info.sender.to_string(),
                refund_asset: desired_output.denom.clone(),
            })?,
            funds: vec![],
        }
        .into(),
    ];
""", """    let finish_msgs = [core_config.index_denom, desired_output.denom.clone()]
        .into_iter()
        .map(|refund_asset| {
            let msg = ExecuteMsg::FinishOperation {
                refund_to: info.sender.to_string(),
                refund_asset,
            };
            cosmwasm_std::wasm_execute(env.contract.address.as_str(), &msg, vec![])
                .map(CosmosMsg::from)
        })
        .collect::<Result<Vec<_>, _>>()?;
"""), ("execute.rs", """    assert_eq!(info.sender, env.contract.address, "internal function");
    deps.api.addr_validate(&refund_to)?;
""", """    if info.sender != env.contract.address {
        panic!("internal function");
    }
    let _ = deps.api.addr_validate(&refund_to)?;
"""))
R("x_drop_claims_scan", D, ("state.rs", """    if CLAIM_LOGS.may_load(storage, (id, claim_key))?.is_some() {
        return Err(ContractError::AlreadyClaimed {
            airdrop_id: id,
            claim_key: claim_key.to_string(),
        });
    }

    Ok(())""", """    match CLAIM_LOGS.key((id, claim_key)).may_load(storage)? {
        None => Ok(()),
        Some(_) => Err(ContractError::AlreadyClaimed {
            airdrop_id: id,
            claim_key: claim_key.to_owned(),
        }),
    }"""))
R("x_store_version_ensure", L, ("utils/src/lib.rs", """    if stored.contract != contract.clone().into() {
        return Err(StdError::generic_err("contract name mismatch"));
    }

    let err_conv = |e: semver::Error| StdError::generic_err(e.to_string());
    let cv = Version::parse(&stored.version).map_err(err_conv)?;
    let nv = Version::parse(&version.clone().into()).map_err(err_conv)?;

    if cv >= nv {
        return Err(StdError::generic_err(
            "contract version must be greater than current",
        ));
    }

    cw2::set_contract_version(storage, contract, version)?;

    Ok(())""", """    let (name, next): (String, String) = (contract.into(), version.into());
    cosmwasm_std::ensure!(
        stored.contract == name,
        StdError::generic_err("contract name mismatch")
    );

    let parse = |v: &str| v.parse::<Version>().map_err(|e| StdError::generic_err(e.to_string()));
    if parse(&next)? > parse(&stored.version)? {
        cw2::set_contract_version(storage, name, next)
    } else {
        Err(StdError::generic_err(
            "contract version must be greater than current",
        ))
    }"""))
R("x_compact_pattern", L, ("interface/src/periphery.rs", """        let keys: Vec<_> = v.key.split(',').collect();

        let denom_in = keys.first().unwrap().to_string();
        let denom_out = keys.last().unwrap().to_string();
""", """        let mut keys = v.key.split(',');
        let denom_in = keys.next().unwrap().to_string();
        let denom_out = keys.last().unwrap_or(denom_in.as_str()).to_string();
"""))
R("x_routes_hop_iter", L, ("interface/src/types.rs", """        val.0
            .into_iter()
            .map(|v| SwapAmountInRoute {
                pool_id: v.pool_id,
                token_out_denom: v.token_denom,
            })
            .collect()""", """        let mut hops = Vec::new();
        for SwapRoute {
            pool_id,
            token_denom: token_out_denom,
        } in val.0
        {
            hops.push(SwapAmountInRoute {
                pool_id,
                token_out_denom,
            });
        }
        hops"""))
