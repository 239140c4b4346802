"""Behaviour-preserving edits of the pool simulation and its mathematics."""
W = "packages/pool/src/weighted.rs"
Q = "packages/pool/src/query.rs"
SI = "packages/pool/src/sim/index_in.rs"
SO = "packages/pool/src/sim/index_out.rs"
SM = "packages/pool/src/sim/mod.rs"
ST = "packages/pool/src/stable.rs"
CL = "packages/pool/src/concentrated.rs"
P = "packages/math/src/pow.rs"
REFS = {}

REFS["pool_assets_iter_mut"] = [(W, '''        for (i, asset) in self.pool_assets.clone().into_iter().enumerate() {
            self.pool_assets[i] = PoolAssetTuple(match asset.token.denom {
                d if d == input_denom => (d, after_input_amount, asset.weight),
                d if d == output_denom => (d, after_output_amount, asset.weight),
                d => (d, asset.token.amount, asset.weight),
            })
            .into();
        }
''', '''        for asset in self.pool_assets.iter_mut() {
            if asset.token.denom == input_denom {
                asset.token.amount = after_input_amount;
            } else if asset.token.denom == output_denom {
                asset.token.amount = after_output_amount;
            }
        }
''')]
REFS["pool_assets_map_collect"] = [(W, '''        for (i, asset) in self.pool_assets.clone().into_iter().enumerate() {
            self.pool_assets[i] = PoolAssetTuple(match asset.token.denom {
                d if d == input_denom => (d, after_input_amount, asset.weight),
                d if d == output_denom => (d, after_output_amount, asset.weight),
                d => (d, asset.token.amount, asset.weight),
            })
            .into();
        }
''', '''        self.pool_assets = self
            .pool_assets
            .iter()
            .map(|asset| {
                let amount = match asset.token.denom.as_str() {
                    d if d == input_denom => after_input_amount,
                    d if d == output_denom => after_output_amount,
                    _ => asset.token.amount,
                };
                PoolAsset {
                    token: BigCoin {
                        denom: asset.token.denom.clone(),
                        amount,
                    },
                    weight: asset.weight,
                }
            })
            .collect();
''')]
REFS["pool_assets_index_loop"] = [(W, '''        for (i, asset) in self.pool_assets.clone().into_iter().enumerate() {
            self.pool_assets[i] = PoolAssetTuple(match asset.token.denom {
                d if d == input_denom => (d, after_input_amount, asset.weight),
                d if d == output_denom => (d, after_output_amount, asset.weight),
                d => (d, asset.token.amount, asset.weight),
            })
            .into();
        }
''', '''        for i in 0..self.pool_assets.len() {
            let denom = self.pool_assets[i].token.denom.clone();
            if denom == input_denom {
                self.pool_assets[i].token.amount = after_input_amount;
            } else if denom == output_denom {
                self.pool_assets[i].token.amount = after_output_amount;
            }
        }
''')]
REFS["pool_get_asset_loop"] = [(W, '''        Ok(self
            .pool_assets
            .iter()
            .find(|v| v.token.denom == denom)
            .ok_or_else(|| StdError::generic_err(format!("asset {denom} not found")))?
            .clone())
''', '''        for asset in &self.pool_assets {
            if asset.token.denom == denom {
                return Ok(asset.clone());
            }
        }

        Err(StdError::generic_err(format!("asset {denom} not found")).into())
''')]
REFS["pool_solver_inline"] = [(W, '''    let weight_ratio = token_weight_fixed / token_weight_unknown;

    let y = token_balance_fixed_before / token_balance_fixed_after;

    let y_to_weight_ratio = ibcx_math::pow(y, weight_ratio)?;

    let (paranthetical, neg) = ibcx_math::abs_diff_with_sign(Decimal256::one(), y_to_weight_ratio);

    let amount_y = token_balance_unknown_before * paranthetical;

    Ok((amount_y, neg))
''', '''    let power = ibcx_math::pow(
        token_balance_fixed_before / token_balance_fixed_after,
        token_weight_fixed / token_weight_unknown,
    )?;

    let neg = Decimal256::one() > power;
    let part = if neg {
        Decimal256::one() - power
    } else {
        power - Decimal256::one()
    };

    Ok((part * token_balance_unknown_before, neg))
''')]
REFS["pool_fee_helper"] = [(W, '''        let token_amount_in_after_fee = Uint256::from_uint128(input_amount.amount)
            * Decimal256::one().checked_sub(spread_factor.into())?;
''', '''        let kept = |s: Decimal| Decimal256::one().checked_sub(Decimal256::from(s));
        let keep = kept(spread_factor)?;
        let token_amount_in_after_fee = Uint256::from(input_amount.amount) * keep;
''')]
REFS["pool_out_neg_first"] = [(W, '''        let token_amount_in_before_fee =
            token_amount_in / (Decimal256::one().checked_sub(spread_factor.into())?);

        let token_in_amount = token_amount_in_before_fee.to_uint_ceil();

        if neg {
            return Err(PoolError::invalid_math_approx(
                "token amount must be positive",
            ));
        }

        Ok(token_in_amount)
''', '''        if neg {
            return Err(PoolError::invalid_math_approx(
                "token amount must be positive",
            ));
        }

        let keep = Decimal256::one().checked_sub(spread_factor.into())?;

        Ok((token_amount_in / keep).to_uint_ceil())
''')]
REFS["pool_checked_arith"] = [(W, '''        let pool_post_swap_in_balance = pool_token_in_balance + token_amount_in_after_fee;
''', '''        let pool_post_swap_in_balance =
            pool_token_in_balance.checked_add(token_amount_in_after_fee)?;
'''), (W, '''        let pool_post_swap_out_balance =
            pool_token_out_balance - Uint256::from_uint128(output_amount.amount);
''', '''        let pool_post_swap_out_balance =
            pool_token_out_balance.checked_sub(output_amount.amount.into())?;
''')]
REFS["pool_sim_for_hops"] = [(SI, '''        let ret = routes.0.iter().try_fold(token_in.clone(), |acc, route| {
            let pool = pools
                .get_mut(&route.pool_id)
                .ok_or(PoolError::PoolNotFound(route.pool_id))?;

            let spread_factor = pool.get_spread_factor()?;
            let amount_out = pool.swap_exact_amount_in(
                self.deps,
                acc,
                route.token_denom.clone(),
                Uint256::zero(),
                spread_factor,
            )?;

            Ok::<_, PoolError>(coin(
                amount_out.to_string().parse::<u128>()?,
                &route.token_denom,
            ))
        })?;
''', '''        let mut ret = token_in.clone();
        for route in &routes.0 {
            let pool = match pools.get_mut(&route.pool_id) {
                Some(pool) => pool,
                None => return Err(PoolError::PoolNotFound(route.pool_id)),
            };

            let spread_factor = pool.get_spread_factor()?;
            let amount_out = pool.swap_exact_amount_in(
                self.deps,
                ret,
                route.token_denom.clone(),
                Uint256::zero(),
                spread_factor,
            )?;
            ret = coin(
                amount_out.to_string().parse::<u128>()?,
                route.token_denom.clone(),
            );
        }
''')]
REFS["pool_sim_for_hops_out"] = [(SO, '''        let ret = routes.0.iter().try_fold(token_out.clone(), |acc, route| {
            let pool = pools
                .get_mut(&route.pool_id)
                .ok_or(PoolError::PoolNotFound(route.pool_id))?;

            let spread_factor = pool.get_spread_factor()?;
            let amount_in = pool.swap_exact_amount_out(
                self.deps,
                route.token_denom.clone(),
                Uint256::from(u128::MAX), // infinite
                acc,
                spread_factor,
            )?;

            Ok::<_, PoolError>(coin(
                amount_in.to_string().parse::<u128>()?,
                &route.token_denom,
            ))
        })?;
''', '''        let mut ret = token_out.clone();
        for route in routes.0.iter() {
            let pool = pools
                .get_mut(&route.pool_id)
                .ok_or(PoolError::PoolNotFound(route.pool_id))?;
            let spread = pool.get_spread_factor()?;
            let spent = pool.swap_exact_amount_out(
                self.deps,
                route.token_denom.clone(),
                Uint256::from(u128::MAX), // infinite
                ret,
                spread,
            )?;

            ret = Coin {
                denom: route.token_denom.clone(),
                amount: Uint128::new(spent.to_string().parse::<u128>()?),
            };
        }
''')]
REFS["pool_sim_units_loop"] = [(SI, '''        let routes_with_amount = self
            .index_units
            .iter()
            .map(|(denom, unit)| {
                let token_in = coin((token_in * *unit).u128(), denom);

                // if this unit does not have to do swap
                if token_in.denom == output_asset {
                    Ok(SimAmountOutRoute {
                        // amount_in = amount_out
                        sim_amount_out: token_in.amount,
                        amount_in: token_in,
                        routes: None,
                    })
                } else {
                    self.estimate_out_given_in(token_in, output_asset, &mut pools_map)
                }
            })
            .collect::<Result<Vec<_>, PoolError>>()?;

        let total_received = routes_with_amount
            .iter()
            .try_fold(Uint128::zero(), |acc, v| {
                Ok::<_, PoolError>(acc.checked_add(v.sim_amount_out)?)
            })?;
''', '''        let mut routes_with_amount = vec![];
        let mut total_received = Uint128::zero();
        for (denom, unit) in self.index_units {
            let amount = token_in * *unit;
            let step = if denom != output_asset {
                self.estimate_out_given_in(
                    coin(amount.u128(), denom),
                    output_asset,
                    &mut pools_map,
                )?
            } else {
                SimAmountOutRoute {
                    sim_amount_out: amount,
                    amount_in: coin(amount.u128(), denom),
                    routes: None,
                }
            };
            total_received = total_received.checked_add(step.sim_amount_out)?;
            routes_with_amount.push(step);
        }
''')]
REFS["pool_sim_units_loop_out"] = [(SO, '''        let routes_with_amount = self
            .index_units
            .iter()
            .map(|(denom, unit)| coin((token_out * *unit).u128(), denom))
            .map(|token_out| {
                // if this unit does not have to do swap
                if token_out.denom == input_asset {
                    Ok(SimAmountInRoute {
                        // amount_in = amount_out
                        sim_amount_in: token_out.amount,
                        amount_out: token_out,
                        routes: None,
                    })
                } else {
                    self.estimate_in_given_out(input_asset, token_out, &mut pools_map)
                }
            })
            .collect::<Result<Vec<_>, PoolError>>()?;
''', '''        let needed: Vec<Coin> = self
            .index_units
            .iter()
            .map(|(denom, unit)| coin((token_out * *unit).u128(), denom))
            .collect();
        let mut routes_with_amount = Vec::with_capacity(needed.len());
        for token_out in needed {
            if token_out.denom != input_asset {
                let step = self.estimate_in_given_out(input_asset, token_out, &mut pools_map)?;
                routes_with_amount.push(step);
                continue;
            }
            routes_with_amount.push(SimAmountInRoute {
                sim_amount_in: token_out.amount,
                amount_out: token_out,
                routes: None,
            });
        }
''')]
REFS["pool_sim_map_loop"] = [(SI, '''        let mut pools_map = self
            .pools
            .iter()
            .map(|v| (v.get_id(), v.clone()))
            .collect::<BTreeMap<_, _>>();
''', '''        let mut pools_map: BTreeMap<u64, Box<dyn OsmosisPool>> = BTreeMap::new();
        for pool in self.pools {
            pools_map.insert(pool.get_id(), pool.clone());
        }
''')]
REFS["pool_search_while"] = [(SO, '''        for _ in 0..MAX_LOOP {
            acc_res''', '''        for _ in 1..=MAX_LOOP {
            acc_res''')]
REFS["pool_search_nested_if"] = [(SI, '''            if Decimal::one() <= err
                && desired_output.amount - acc_res.max_token_out < Uint128::from(MAX_ERROR)
            {
                return Ok(acc_res);
            }
''', '''            if err >= Decimal::one() {
                let missing = desired_output.amount.checked_sub(acc_res.max_token_out)?;
                if missing < Uint128::from(MAX_ERROR) {
                    return Ok(acc_res);
                }
            }
''')]
REFS["pool_search_continue"] = [(SO, '''            if Decimal::one() <= err
                && desired_input.amount.checked_sub(acc_res.max_token_in)?
                    < Uint128::from(MAX_ERROR)
            {
                return Ok(acc_res);
            }
''', '''            if err < Decimal::one() {
                continue;
            }
            let left = desired_input.amount.checked_sub(acc_res.max_token_in)?;
            if Uint128::from(MAX_ERROR) <= left {
                continue;
            }
            return Ok(acc_res);
''')]
REFS["pool_search_direct_compare"] = [(SO, '''            if Decimal::one() <= err
                && desired_input.amount''', '''            let _ = err;
            if acc_res.max_token_in <= desired_input.amount
                && desired_input.amount''')]
REFS["pool_est_match_limit"] = [(SM, '''        if min_index_amount.is_none() {
            return Ok(EstimateIndexForOutResult {
                max: sim_init_res,
                est: None,
            });
        }

        let min_index_amount = min_index_amount.unwrap();
''', '''        let min_index_amount = match min_index_amount {
            Some(amount) => amount,
            None => {
                return Ok(EstimateIndexForOutResult {
                    max: sim_init_res,
                    est: None,
                })
            }
        };
''')]
REFS["pool_est_tol_match"] = [(SM, '''        let tol = err_tolerance.unwrap_or_else(|| Decimal::from_ratio(1u64, 3u64));
        let sim_revised_in = {
            let gap = max_index_amount.checked_sub(sim_init_res.est_min_token_in)?;
            sim_init_res.est_min_token_in.checked_add(gap * tol)?
        };
''', '''        let tol = match err_tolerance {
            Some(t) => t,
            None => Decimal::from_ratio(1u64, 3u64),
        };
        let found = sim_init_res.est_min_token_in;
        let sim_revised_in = found.checked_add((max_index_amount - found) * tol)?;
''')]
REFS["pool_query_loop"] = [(Q, '''    let pool_resps = pool_ids
        .into_iter()
        .map(|v| raw_query(&deps.querier, &PoolRequest { pool_id: v }.into()))
        .collect::<StdResult<Vec<_>>>()?;

    let pools = pool_resps
        .into_iter()
        .map(decode_pool)
        .collect::<Result<Vec<_>, PoolError>>()?;

    Ok(pools.into_iter().flatten().collect())
''', '''    let mut pools = vec![];
    for pool_id in pool_ids {
        let resp = raw_query(&deps.querier, &PoolRequest { pool_id }.into())?;
        if let Some(pool) = decode_pool(resp)? {
            pools.push(pool);
        }
    }

    Ok(pools)
''')]
REFS["pool_query_if_chain"] = [(Q, '''    let pool_type = match v.to_base64() {
        b if b.starts_with(POOL_WEIGHTED) => PoolType::Weighted,
        b if b.starts_with(POOL_STABLE) => PoolType::Stable,
        b if b.starts_with(POOL_CONCENTRATED) => PoolType::Concentrated,
        _ => return Ok(None),
    };
''', '''    let encoded = v.to_base64();
    let pool_type = if encoded.starts_with(POOL_STABLE) {
        PoolType::Stable
    } else if encoded.starts_with(POOL_CONCENTRATED) {
        PoolType::Concentrated
    } else if encoded.starts_with(POOL_WEIGHTED) {
        PoolType::Weighted
    } else {
        return Ok(None);
    };
''')]
REFS["pool_query_no_print"] = [(Q, '''    println!("{}", String::from_utf8(v.to_vec()).unwrap());

''', '')]
REFS["pool_delegate_local"] = [(ST, '''        Ok(SwapRoutes(vec![SwapRoute {
            pool_id: self.get_id(),
            token_denom: output_denom,
        }])
        .sim_swap_exact_in(&deps.querier, &self.address, input_amount)?
        .into())
''', '''        let route = SwapRoute {
            pool_id: OsmosisPool::get_id(self),
            token_denom: output_denom,
        };
        let quoted = SwapRoutes(vec![route]).sim_swap_exact_in(
            &deps.querier,
            &self.address,
            input_amount,
        )?;

        Ok(Uint256::from(quoted))
''')]
REFS["pool_delegate_helper"] = [(CL, '''        Ok(SwapRoutes(vec![SwapRoute {
            pool_id: self.get_id(),
            token_denom: input_denom,
        }])
        .sim_swap_exact_out(&deps.querier, &self.address, output_amount)?
        .into())
''', '''        let routes = self.single(input_denom);
        let amount = routes.sim_swap_exact_out(&deps.querier, &self.address, output_amount)?;

        Ok(amount.into())
'''), (CL, '''impl OsmosisPool for Pool {
''', '''impl Pool {
    fn single(&self, token_denom: String) -> SwapRoutes {
        SwapRoutes(vec![SwapRoute {
            pool_id: self.get_id(),
            token_denom,
        }])
    }
}

impl OsmosisPool for Pool {
''')]
REFS["pow_int_while"] = [(P, '''    loop {
        if i <= Uint256::one() {
            break;
        }

        if i % Uint256::from(2u64) != Uint256::zero() {
            tmp *= base;
        }

        i /= Uint256::from(2u64);

        base *= base;
    }

    base * tmp
''', '''    let two = Uint256::from(2u64);
    while i > Uint256::one() {
        if !(i % two).is_zero() {
            tmp = tmp * base;
        }

        base = base * base;
        i = i / two;
    }

    tmp * base
''')]
REFS["pow_frac_floor"] = [(P, '''    let fractional = {
        let x = exp.atomics();
        let y = Uint256::from(DEC_PRECISION);

        Decimal256::from_atomics(x - (y * (x / y)), base.decimal_places())
    }?;
''', '''    let fractional = {
        let x = exp.atomics();
        let y = Uint256::from(DEC_PRECISION);

        Decimal256::from_atomics(x % y, base.decimal_places())
    }?;
''')]
REFS["pow_series_while"] = [(P, '''    loop {
        if term < prec {
            break;
        }

        let big_k''', '''    while term >= prec {
        let big_k''')]
REFS["pow_series_sign_xor"] = [(P, '''        if x_neg {
            negative = !negative;
        }

        if c_neg {
            negative = !negative;
        }
''', '''        if x_neg != c_neg {
            negative = !negative;
        }
''')]
REFS["pow_domain_match"] = [(P, '''    if base >= Decimal256::from_ratio(2u64, 1u64) {
        return Err(MathError::BaseTooLarge);
    }
''', '''    let two = Decimal256::one() + Decimal256::one();
    if !(base < two) {
        return Err(MathError::BaseTooLarge);
    }
''')]
REFS["pow_frac_nonzero"] = [(P, '''    let integer_pow = pow_int(base, integer);
    if fractional.is_zero() {
        return Ok(integer_pow);
    }

    let fractional_pow = pow_approx(
        base,
        fractional,
        Decimal256::from_atomics(POW_PRECISION, base.decimal_places())?,
    )?;

    Ok(integer_pow * fractional_pow)
''', '''    let mut result = pow_int(base, integer);
    if !fractional.is_zero() {
        let prec = Decimal256::from_atomics(POW_PRECISION, base.decimal_places())?;
        result *= pow_approx(base, fractional, prec)?;
    }

    Ok(result)
''')]

# ------------------------------------------------------- searches, again
REFS["pool_search_counter"] = [(SO, """        for _ in 0..MAX_LOOP {
            acc_res""", """        let mut round = 0;
        while round < MAX_LOOP {
            round += 1;
            acc_res""")]
REFS["pool_search_found"] = [(SO, """        for _ in 0..MAX_LOOP {
            acc_res""", """        let mut found = None;
        for _ in 0..MAX_LOOP {
            acc_res"""), (SO, """            {
                return Ok(acc_res);
            }
        }

        Err(PoolError::MaxLoopExceeded)""", """            {
                found = Some(acc_res);
                break;
            }
        }

        found.ok_or(PoolError::MaxLoopExceeded)""")]
REFS["pool_search_window"] = [(SI, """            if Decimal::one() <= err
                && desired_output.amount - acc_res.max_token_out < Uint128::from(MAX_ERROR)
            {
                return Ok(acc_res);
            }""", """            let close = acc_res.max_token_out <= desired_output.amount
                && desired_output.amount - acc_res.max_token_out < Uint128::from(MAX_ERROR);
            if Decimal::zero() <= err && close {
                return Ok(acc_res);
            }""")]
REFS["pool_search_inlined"] = [(SO, """            acc_res = self.search_efficient_amount_for_input_f(
                desired_input.clone(),
                acc_res.est_min_token_out,
                acc_res.max_token_in,
            )?;
""", """            let ratio = Decimal::checked_from_ratio(desired_input.amount, acc_res.max_token_in)?;
            let next = acc_res.est_min_token_out * ratio;
            let spent = self.estimate_token_given_index_out(next, &desired_input.denom)?;
            acc_res.est_min_token_out = next;
            acc_res.max_token_in = spent.total_spent;
            acc_res.sim_routes = spent.sim_routes;
"""), (SO, """    fn search_efficient_amount_for_input_f(""", """    #[allow(dead_code)]
    fn search_efficient_amount_for_input_f(""")]
REFS["pool_search_loop"] = [(SI, """        for _ in 0..MAX_LOOP {
            acc_res""", """        let mut left = MAX_LOOP;
        loop {
            if left == 0 {
                break;
            }
            left -= 1;
            acc_res""")]
