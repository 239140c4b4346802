"""Behaviour-preserving rewrites of the periphery contract, pool simulation and interface."""
P = "contracts/periphery/src/"
POOL = "packages/pool/src/"
IFACE = "packages/interface/src/"
REFS = {}


def R(n, *edits):
    REFS[n] = list(edits)


R("peri_fee_match", (P + "lib.rs", """    Ok(rate
        .map(|v| Ok::<_, ContractError>(Decimal::one().checked_sub(v)?))
        .transpose()?
        .unwrap_or(Decimal::one()))
""", """    match rate {
        Some(v) => Ok(Decimal::one().checked_sub(v)?),
        None => Ok(Decimal::one()),
    }
"""), (P + "lib.rs", """    Ok(rate
        .map(|v| {
            Ok::<_, ContractError>(Decimal::one().checked_div(Decimal::one().checked_sub(v)?)?)
        })
        .transpose()?
        .unwrap_or(Decimal::one()))
""", """    let left = deduct_fee(rate)?;
    Ok(Decimal::one().checked_div(left)?)
"""))

R("peri_fee_default_zero", (P + "lib.rs", """    Ok(rate
        .map(|v| Ok::<_, ContractError>(Decimal::one().checked_sub(v)?))
        .transpose()?
        .unwrap_or(Decimal::one()))
""", """    Ok(Decimal::one().checked_sub(rate.unwrap_or_default())?)
"""))

R("peri_core_state_helper", (P + "execute.rs", """    // query to core contract
    let core = IbcCore(deps.api.addr_validate(&core_addr)?);
    let core_fee = core.get_fee(&deps.querier, None)?;
    let core_config = core.get_config(&deps.querier, None)?;
    let core_portfolio = core.get_portfolio(&deps.querier, None)?;

    let desired_asset =
""", """    let (core, core_fee, core_config, core_portfolio) = core_state(&deps, &core_addr)?;

    let desired_asset =
"""), (P + "execute.rs", """pub fn mint_exact_amount_in(""", """#[allow(clippy::type_complexity)]
fn core_state(
    deps: &DepsMut,
    core_addr: &str,
) -> Result<
    (
        IbcCore,
        core::GetFeeResponse,
        core::GetConfigResponse,
        core::GetPortfolioResponse,
    ),
    ContractError,
> {
    let core = IbcCore(deps.api.addr_validate(core_addr)?);
    let config = core.get_config(&deps.querier, None)?;
    let portfolio = core.get_portfolio(&deps.querier, None)?;
    let fee = core.get_fee(&deps.querier, None)?;
    Ok((core, fee, config, portfolio))
}

pub fn mint_exact_amount_in("""))

R("peri_finish_helper", (P + "execute.rs", """    let finish_msg = WasmMsg::Execute {
        contract_addr: env.contract.address.to_string(),
        msg: to_json_binary(&ExecuteMsg::FinishOperation {
            refund_to: info.sender.to_string(),
            refund_asset: desired_denom,
        })?,
        funds: vec![],
    };
""", """    let finish_msg = finish(&env, info.sender.as_str(), desired_denom)?;
"""), (P + "execute.rs", """    let finish_msg = WasmMsg::Execute {
        contract_addr: env.contract.address.to_string(),
        msg: cosmwasm_std::to_json_binary(&ExecuteMsg::FinishOperation {
            refund_to: info.sender.to_string(),
            refund_asset: output_asset.denom.clone(),
        })?,
        funds: vec![],
    };
""", """    let finish_msg = finish(&env, info.sender.as_str(), output_asset.denom.clone())?;
"""), (P + "execute.rs", """    let finish_msgs: Vec<CosmosMsg> = vec![
        WasmMsg::Execute {
            contract_addr: env.contract.address.to_string(),
            msg: to_json_binary(&ExecuteMsg::FinishOperation {
                refund_to: info.sender.to_string(),
                refund_asset: core_config.index_denom,
            })?,
            funds: vec![],
        }
        .into(),
        WasmMsg::Execute {
            contract_addr: env.contract.address.to_string(),
            msg: to_json_binary(&ExecuteMsg::FinishOperation {
                refund_to: info.sender.to_string(),
                refund_asset: desired_output.denom.clone(),
            })?,
            funds: vec![],
        }
        .into(),
    ];
""", """    let finish_msgs = [core_config.index_denom, desired_output.denom.clone()]
        .into_iter()
        .map(|denom| finish(&env, info.sender.as_str(), denom))
        .collect::<Result<Vec<_>, _>>()?;
"""), (P + "execute.rs", """pub fn finish_operation(""", """fn finish(env: &Env, to: &str, denom: String) -> Result<CosmosMsg, ContractError> {
    Ok(WasmMsg::Execute {
        contract_addr: env.contract.address.to_string(),
        msg: to_json_binary(&ExecuteMsg::FinishOperation {
            refund_to: to.to_string(),
            refund_asset: denom,
        })?,
        funds: vec![],
    }
    .into())
}

pub fn finish_operation("""))

R("peri_finish_if", (P + "execute.rs", """    assert_eq!(info.sender, env.contract.address, "internal function");
    deps.api.addr_validate(&refund_to)?;
""", """    let refund_to = deps.api.addr_validate(&refund_to)?.to_string();
    if info.sender != env.contract.address {
        panic!("internal function");
    }
"""))

R("peri_finish_err", (P + "execute.rs", """    assert_eq!(info.sender, env.contract.address, "internal function");
    deps.api.addr_validate(&refund_to)?;

    let balance = deps
        .querier
        .query_balance(env.contract.address, &refund_asset)?;
""", """    if env.contract.address != info.sender {
        return Err(cosmwasm_std::StdError::generic_err("internal function").into());
    }
    deps.api.addr_validate(&refund_to)?;

    let held = deps
        .querier
        .query_balance(env.contract.address, &refund_asset)?
        .amount;
    let balance = coin(held.u128(), &refund_asset);
"""))

R("peri_mint_funds_converter", (P + "execute.rs", """    let mut mint_msg_funds = core_portfolio
        .units
        .into_iter()
        .map(|(denom, unit)| coin((sim_res.est_min_token_out * unit).u128(), denom))
        .collect::<Vec<_>>();
    mint_msg_funds.sort_by(coin_sorter);
""", """    let mut mint_msg_funds = Vec::with_capacity(core_portfolio.units.len());
    for (denom, unit) in core_portfolio.units {
        mint_msg_funds.push(Coin {
            amount: unit * sim_res.est_min_token_out,
            denom,
        });
    }
    mint_msg_funds.sort_by(|a, b| a.denom.cmp(&b.denom));
"""))

R("peri_mint_funds_sort_key", (P + "execute.rs", """    let conv = make_unit_converter(sim_res.index_out);
    let mut mint_msg_funds: Vec<_> = core_portfolio.units.into_iter().map(conv).collect();
    mint_msg_funds.sort_by(coin_sorter);
""", """    let mut mint_msg_funds: Vec<_> = core_portfolio
        .units
        .iter()
        .map(|(denom, unit)| coin((index_amount * *unit).u128(), denom))
        .collect();
    mint_msg_funds.sort_by_key(|c| c.denom.clone());
"""))

R("peri_unit_converter_plain", (P + "lib.rs", """    Box::new(move |(denom, unit)| coin((v * unit).u128(), denom))
""", """    Box::new(move |(denom, unit)| {
        let amount = v * unit;
        Coin { denom, amount }
    })
"""))

R("peri_refund_compare", (P + "execute.rs", """    let sim_refund = input_asset.amount.checked_sub(sim_res.total_input)?;
""", """    if sim_res.total_input > input_asset.amount {
        return Err(ContractError::TradeAmountExceeded {});
    }
    let sim_refund = input_asset.amount - sim_res.total_input;
"""))

R("peri_messages_vec", (P + "execute.rs", """    let resp = Response::new()
        .add_message(burn_msg)
        .add_messages(swap_msgs)
        .add_message(finish_msg)
        .add_attributes(vec![
            attr("method", "burn_exact_amount_in"),""", """    let mut msgs: Vec<CosmosMsg> = Vec::with_capacity(swap_msgs.len() + 2);
    msgs.push(burn_msg);
    msgs.extend(swap_msgs);
    msgs.push(finish_msg.into());

    let resp = Response::new()
        .add_messages(msgs)
        .add_attributes(vec![
            attr("method", "burn_exact_amount_in"),"""))

R("peri_burn_fee_first", (P + "execute.rs", """    let pool_ids = extract_pool_ids(swap_info.clone());
    let pools = query_pools(&deps.as_ref(), pool_ids)?;

    let act_burn_amount = index_asset.amount * deduct_fee(core_fee.burn_fee)?;
""", """    let left = deduct_fee(core_fee.burn_fee)?;
    let act_burn_amount = left * index_asset.amount;

    let pools = query_pools(&deps.as_ref(), extract_pool_ids(swap_info.clone()))?;
"""))

R("peri_burn_out_max", (P + "execute.rs", """    if index_asset.amount < burn_amount {
        return Err(ContractError::TradeAmountExceeded {});
    }
""", """    let max_burn = index_asset.amount;
    if !(burn_amount <= max_burn) {
        return Err(ContractError::TradeAmountExceeded {});
    }
"""))

R("peri_query_helper", (P + "query.rs", """    // apply burn fee before simulating
    let burn_amount = index_amount * deduct_fee(core_fee.burn_fee)?;

    let conv = make_unit_converter(burn_amount);
    let mut burn_redeem_amount: Vec<_> =
        core_portfolio.units.clone().into_iter().map(conv).collect();
    burn_redeem_amount.sort_by(|a, b| a.denom.cmp(&b.denom));

    let sim = Simulator::new(&deps, &pools, &swap_info, &core_portfolio.units);
    let sim_res = sim.estimate_output_for_index(burn_amount, &output_asset)?;
""", """    let burn_amount = index_amount * deduct_fee(core_fee.burn_fee)?;

    let sim_res = Simulator::new(&deps, &pools, &swap_info, &core_portfolio.units)
        .estimate_output_for_index(burn_amount, &output_asset)?;

    let burn_redeem_amount = assets_of(burn_amount, &core_portfolio.units);
"""), (P + "query.rs", """pub fn simulate_mint_exact_amount_in(""", """fn assets_of(amount: Uint128, units: &[(String, cosmwasm_std::Decimal)]) -> Vec<Coin> {
    let mut assets: Vec<Coin> = units
        .iter()
        .map(|(denom, unit)| coin((amount * *unit).u128(), denom))
        .collect();
    assets.sort_by(|a, b| a.denom.cmp(&b.denom));
    assets
}

pub fn simulate_mint_exact_amount_in("""))

R("peri_query_response_literal", (P + "query.rs", """    Ok(SimulateMintExactAmountOutResponse {
        mint_amount,
        mint_spend_amount,
        swap_result_amount: coin(sim_res.total_input.u128(), input_asset),
    })
""", """    let swap_result_amount = Coin {
        denom: input_asset,
        amount: sim_res.total_input,
    };

    Ok(SimulateMintExactAmountOutResponse {
        swap_result_amount,
        mint_spend_amount,
        mint_amount,
    })
"""))

R("peri_dispatch_local", (P + "contract.rs", """        BurnExactAmountOut {
            core_addr,
            output_asset,
            swap_info,
        } => execute::burn_exact_amount_out(
            deps,
            env,
            info,
            core_addr,
            output_asset,
            swap_info.into(),
        ),
""", """        BurnExactAmountOut {
            core_addr: core,
            output_asset: output,
            swap_info,
        } => {
            let routes: Vec<_> = swap_info.0.into_iter().map(Into::into).collect();
            execute::burn_exact_amount_out(deps, env, info, core, output, routes)
        }
"""))

R("sim_find_loop", (POOL + "sim/index_in.rs", """        let SwapInfo((_, routes)) = self
            .swap_info
            .iter()
            .find(|SwapInfo((RouteKey((from, to)), _))| from == &token_in.denom && to == token_out)
            .ok_or(PoolError::SwapRouteNotFound {
                from: token_in.denom.clone(),
                to: token_out.to_string(),
            })?;
""", """        let mut found = None;
        for SwapInfo((RouteKey((from, to)), routes)) in self.swap_info {
            if *from == token_in.denom && to == token_out {
                found = Some(routes);
                break;
            }
        }
        let routes = match found {
            Some(routes) => routes,
            None => {
                return Err(PoolError::SwapRouteNotFound {
                    from: token_in.denom.clone(),
                    to: token_out.to_string(),
                })
            }
        };
"""))

R("sim_hop_loop", (POOL + "sim/index_in.rs", """        let ret = routes.0.iter().try_fold(token_in.clone(), |acc, route| {
            let pool = pools
                .get_mut(&route.pool_id)
                .ok_or(PoolError::PoolNotFound(route.pool_id))?;

            let spread_factor = pool.get_spread_factor()?;
            let amount_out = pool.swap_exact_amount_in(
                self.deps,
                acc,
                route.token_denom.clone(),
                Uint256::zero(),
                spread_factor,
            )?;

            Ok::<_, PoolError>(coin(
                amount_out.to_string().parse::<u128>()?,
                &route.token_denom,
            ))
        })?;
""", """        let mut ret = token_in.clone();
        for route in routes.0.iter() {
            let pool = match pools.get_mut(&route.pool_id) {
                Some(pool) => pool,
                None => return Err(PoolError::PoolNotFound(route.pool_id)),
            };

            let spread_factor = pool.get_spread_factor()?;
            let amount_out = pool.swap_exact_amount_in(
                self.deps,
                ret,
                route.token_denom.clone(),
                Uint256::zero(),
                spread_factor,
            )?;

            ret = coin(
                amount_out.to_string().parse::<u128>()?,
                &route.token_denom,
            );
        }
"""))

R("sim_rev_iter", (POOL + "sim/index_out.rs", """        let mut routes = routes.clone();
        routes.0.reverse();

        let ret = routes.0.iter().try_fold(token_out.clone(), |acc, route| {""", """        let mut routes = routes.clone();

        let ret = routes.0.iter().rev().try_fold(token_out.clone(), |acc, route| {"""), (POOL + "sim/index_out.rs", """        Ok(SimAmountInRoute {
            sim_amount_in: ret.amount,
            amount_out: token_out,
            routes: Some(routes),
        })
""", """        routes.0.reverse();

        Ok(SimAmountInRoute {
            sim_amount_in: ret.amount,
            amount_out: token_out,
            routes: Some(routes),
        })
"""))

R("sim_total_sum", (POOL + "sim/index_out.rs", """        let total_spent = routes_with_amount
            .iter()
            .try_fold(Uint128::zero(), |acc, v| {
                Ok::<_, PoolError>(acc.checked_add(v.sim_amount_in)?)
            })?;
""", """        let mut total_spent = Uint128::zero();
        for v in &routes_with_amount {
            total_spent = total_spent.checked_add(v.sim_amount_in)?;
        }
"""))

R("sim_units_for", (POOL + "sim/index_in.rs", """        let routes_with_amount = self
            .index_units
            .iter()
            .map(|(denom, unit)| {
                let token_in = coin((token_in * *unit).u128(), denom);

                // if this unit does not have to do swap
                if token_in.denom == output_asset {
                    Ok(SimAmountOutRoute {
                        // amount_in = amount_out
                        sim_amount_out: token_in.amount,
                        amount_in: token_in,
                        routes: None,
                    })
                } else {
                    self.estimate_out_given_in(token_in, output_asset, &mut pools_map)
                }
            })
            .collect::<Result<Vec<_>, PoolError>>()?;
""", """        let mut routes_with_amount = Vec::new();
        for (denom, unit) in self.index_units {
            let sold = Coin {
                denom: denom.clone(),
                amount: *unit * token_in,
            };
            let route = if denom != output_asset {
                self.estimate_out_given_in(sold, output_asset, &mut pools_map)?
            } else {
                SimAmountOutRoute {
                    sim_amount_out: sold.amount,
                    amount_in: sold,
                    routes: None,
                }
            };
            routes_with_amount.push(route);
        }
"""))

R("sim_limit_loop", (POOL + "sim/route.rs", """        let swap_msgs = self
            .0
            .iter()
            .filter_map(|r| {
                r.routes.as_ref().map(|routes| {
                    let min_amount_out = r.sim_amount_out * amplifier;
                    routes.msg_swap_exact_in(
                        contract,
                        &r.amount_in.denom,
                        r.amount_in.amount,
                        min_amount_out,
                    )
                })
            })
            .collect::<Vec<_>>();
""", """        let mut swap_msgs = vec![];
        for r in &self.0 {
            let Some(routes) = &r.routes else {
                continue;
            };
            let min_amount_out = amplifier * r.sim_amount_out;
            swap_msgs.push(routes.msg_swap_exact_in(
                contract,
                &r.amount_in.denom,
                r.amount_in.amount,
                min_amount_out,
            ));
        }
"""))

R("sim_limit_rev", (POOL + "sim/route.rs", """                    let mut routes = routes.clone();
                    routes.0.reverse();
                    routes.msg_swap_exact_out(""", """                    let forward: Vec<_> = routes.0.iter().rev().cloned().collect();
                    let routes = SwapRoutes(forward);
                    routes.msg_swap_exact_out("""))

R("sim_total_helper", (POOL + "sim/route.rs", """        let total_spend_amount = self.0.iter().try_fold(Uint128::zero(), |acc, v| {
            Ok::<_, PoolError>(acc.checked_add(v.sim_amount_in)?)
        })?;
        if max_input < total_spend_amount {
            return Err(PoolError::TradeAmountExceeded {});
        }
""", """        let total_spend_amount = self.total()?;
        if total_spend_amount > max_input {
            return Err(PoolError::TradeAmountExceeded {});
        }
"""), (POOL + "sim/route.rs", """impl SimAmountInRoutes {
    pub fn to_msgs(""", """impl SimAmountInRoutes {
    fn total(&self) -> Result<Uint128, PoolError> {
        let mut total = Uint128::zero();
        for route in self.0.iter() {
            total = total.checked_add(route.sim_amount_in)?;
        }
        Ok(total)
    }

    pub fn to_msgs("""))

R("sim_estimate_let_else", (POOL + "sim/mod.rs", """        if min_index_amount.is_none() {
            return Ok(EstimateIndexForOutResult {
                max: sim_init_res,
                est: None,
            });
        }

        let min_index_amount = min_index_amount.unwrap();
""", """        let Some(min_index_amount) = min_index_amount else {
            return Ok(EstimateIndexForOutResult {
                max: sim_init_res,
                est: None,
            });
        };
"""), (POOL + "sim/mod.rs", """        let max_index_amount = max_index_amount.unwrap();
""", """        let max_index_amount = match max_index_amount {
            Some(max) => max,
            None => unreachable!(),
        };
"""))

R("sim_estimate_inline", (POOL + "sim/mod.rs", """        let sim_revised_out = {
            let gap = sim_init_res
                .est_min_token_out
                .checked_sub(min_index_amount)?;
            sim_init_res.est_min_token_out.checked_sub(gap * tol)?
        };
""", """        let gap = sim_init_res.est_min_token_out - min_index_amount;
        let sim_revised_out = sim_init_res.est_min_token_out - tol * gap;
"""))

R("sim_search_counter", (POOL + "sim/index_in.rs", """        for _ in 0..MAX_LOOP {
            acc_res""", """        let mut tries = 0;
        while tries < MAX_LOOP {
            tries += 1;
            acc_res"""))

R("sim_search_err", (POOL + "sim/index_out.rs", """            if Decimal::one() <= err
                && desired_input.amount.checked_sub(acc_res.max_token_in)?
                    < Uint128::from(MAX_ERROR)
            {
                return Ok(acc_res);
            }
""", """            if err < Decimal::one() {
                continue;
            }
            let gap = desired_input.amount - acc_res.max_token_in;
            if gap < Uint128::from(MAX_ERROR) {
                return Ok(acc_res);
            }
"""))

R("sim_pool_map_loop", (POOL + "sim/index_out.rs", """        let mut pools_map = self
            .pools
            .iter()
            .map(|v| (v.get_id(), v.clone()))
            .collect::<BTreeMap<_, _>>();
""", """        let mut pools_map = BTreeMap::new();
        for pool in self.pools {
            pools_map.insert(pool.get_id(), pool.clone());
        }
"""))

R("pool_decode_match", (POOL + "query.rs", """    let pools = pool_resps
        .into_iter()
        .map(decode_pool)
        .collect::<Result<Vec<_>, PoolError>>()?;

    Ok(pools.into_iter().flatten().collect())
""", """    let mut pools = vec![];
    for resp in pool_resps {
        if let Some(pool) = decode_pool(resp)? {
            pools.push(pool);
        }
    }

    Ok(pools)
"""))

R("pool_query_for", (POOL + "query.rs", """    let pool_resps = pool_ids
        .into_iter()
        .map(|v| raw_query(&deps.querier, &PoolRequest { pool_id: v }.into()))
        .collect::<StdResult<Vec<_>>>()?;
""", """    let mut pool_resps = Vec::with_capacity(pool_ids.len());
    for pool_id in pool_ids {
        pool_resps.push(raw_query(&deps.querier, &PoolRequest { pool_id }.into())?);
    }
"""))

R("weighted_assets_iter_mut", (POOL + "weighted.rs", """        for (i, asset) in self.pool_assets.clone().into_iter().enumerate() {
            self.pool_assets[i] = PoolAssetTuple(match asset.token.denom {
                d if d == input_denom => (d, after_input_amount, asset.weight),
                d if d == output_denom => (d, after_output_amount, asset.weight),
                d => (d, asset.token.amount, asset.weight),
            })
            .into();
        }
""", """        for asset in self.pool_assets.iter_mut() {
            if asset.token.denom == input_denom {
                asset.token.amount = after_input_amount;
            } else if asset.token.denom == output_denom {
                asset.token.amount = after_output_amount;
            }
        }
"""), (POOL + "weighted.rs", """struct PoolAssetTuple(pub (String, Uint256, Uint256));

impl From<PoolAssetTuple> for PoolAsset {
    fn from(v: PoolAssetTuple) -> Self {
        Self {
            token: BigCoin {
                denom: v.0 .0,
                amount: v.0 .1,
            },
            weight: v.0 .2,
        }
    }
}

""", ""))

R("weighted_calc_locals", (POOL + "weighted.rs", """        let token_amount_in_after_fee = Uint256::from_uint128(input_amount.amount)
            * Decimal256::one().checked_sub(spread_factor.into())?;

        let pool_token_in_balance = token_in.amount;
        let pool_post_swap_in_balance = pool_token_in_balance + token_amount_in_after_fee;
""", """        let keep = Decimal256::one().checked_sub(spread_factor.into())?;
        let token_amount_in_after_fee = keep * Uint256::from(input_amount.amount);

        let pool_token_in_balance = token_in.amount;
        let pool_post_swap_in_balance =
            pool_token_in_balance.checked_add(token_amount_in_after_fee)?;
"""))

R("compact_split_once", (IFACE + "periphery.rs", """                let splitted: Vec<_> = v.split(',').collect();

                let pool_id = splitted.first().unwrap().parse::<u64>().unwrap();
                let token_denom = splitted.last().unwrap().to_string();

                SwapRoute {
                    pool_id,
                    token_denom,
                }
""", """                let parts: Vec<&str> = v.split(',').collect();

                SwapRoute::new(
                    parts[0].parse().unwrap(),
                    parts[parts.len() - 1],
                )
"""))

R("pool_ids_btree", (IFACE + "periphery.rs", """    let mut pool_ids = swap_info
        .into_iter()
        .flat_map(|v| v.0 .1 .0.into_iter().map(|r| r.pool_id))
        .collect::<HashSet<_>>()
        .into_iter()
        .collect::<Vec<_>>();

    pool_ids.sort();

    pool_ids
""", """    let mut pool_ids = vec![];
    for SwapInfo((_, routes)) in &swap_info {
        for route in &routes.0 {
            pool_ids.push(route.pool_id);
        }
    }

    pool_ids.sort();
    pool_ids.dedup();

    pool_ids
"""), (IFACE + "periphery.rs", """use std::collections::HashSet;

""", ""))

R("routes_msg_helper", (IFACE + "types.rs", """            token_in: Some(coin(token_in_amount.u128(), token_in).into()),
            token_out_min_amount: token_out_min.to_string(),
""", """            token_in: Some(osmosis_std::types::cosmos::base::v1beta1::Coin {
                denom: token_in.to_string(),
                amount: token_in_amount.to_string(),
            }),
            token_out_min_amount: token_out_min.u128().to_string(),
"""))

R("helper_call", (IFACE + "helpers/core.rs", """        let msg = QueryMsg::GetFee { time };

        querier.query(
            &WasmQuery::Smart {
                contract_addr: self.addr().into(),
                msg: to_json_binary(&msg)?,
            }
            .into(),
        )
""", """        querier.query_wasm_smart(self.addr(), &QueryMsg::GetFee { time })
"""))
