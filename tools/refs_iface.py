"""Behaviour-preserving edits of the interface package."""
PE = "packages/interface/src/periphery.rs"
T = "packages/interface/src/types.rs"
L = "packages/interface/src/lib.rs"
HC = "packages/interface/src/helpers/core.rs"
HP = "packages/interface/src/helpers/periphery.rs"
REFS = {}
IDS = '''    let mut pool_ids = swap_info
        .into_iter()
        .flat_map(|v| v.0 .1 .0.into_iter().map(|r| r.pool_id))
        .collect::<HashSet<_>>()
        .into_iter()
        .collect::<Vec<_>>();

    pool_ids.sort();

    pool_ids
'''
USE = "use std::collections::HashSet;\n"
REFS["if_ids_btree"] = [(PE, IDS, '''    swap_info
        .into_iter()
        .flat_map(|v| v.0 .1 .0)
        .map(|r| r.pool_id)
        .collect::<BTreeSet<_>>()
        .into_iter()
        .collect()
'''), (PE, USE, "use std::collections::BTreeSet;\n")]
REFS["if_ids_dedup"] = [(PE, IDS, '''    let mut pool_ids: Vec<u64> = swap_info
        .iter()
        .flat_map(|v| v.0 .1 .0.iter())
        .map(|r| r.pool_id)
        .collect();

    pool_ids.sort_unstable();
    pool_ids.dedup();
    pool_ids
'''), (PE, USE, "")]
REFS["if_ids_loop"] = [(PE, IDS, '''    let mut seen = HashSet::new();
    for SwapInfo((_, SwapRoutes(routes))) in swap_info {
        for route in routes {
            seen.insert(route.pool_id);
        }
    }
    let mut pool_ids: Vec<u64> = seen.into_iter().collect();
    pool_ids.sort();
    pool_ids
''')]
KEYS = '''        let keys: Vec<_> = v.key.split(',').collect();

        let denom_in = keys.first().unwrap().to_string();
        let denom_out = keys.last().unwrap().to_string();
'''
HOPS = '''        let routes: Vec<_> = v
            .routes
            .into_iter()
            .map(|v| {
                let splitted: Vec<_> = v.split(',').collect();

                let pool_id = splitted.first().unwrap().parse::<u64>().unwrap();
                let token_denom = splitted.last().unwrap().to_string();

                SwapRoute {
                    pool_id,
                    token_denom,
                }
            })
            .collect();
'''
REFS["if_compact_once"] = [(PE, KEYS, '''        let (denom_in, denom_out) = v.key.split_once(',').unwrap();
        let (denom_in, denom_out) = (denom_in.to_string(), denom_out.to_string());
'''), (PE, HOPS, '''        let routes: Vec<_> = v
            .routes
            .iter()
            .map(|v| {
                let (pool_id, token_denom) = v.split_once(',').expect("a pool and a denom");
                SwapRoute::new(pool_id.parse().unwrap(), token_denom)
            })
            .collect();
''')]
REFS["if_compact_next"] = [(PE, KEYS, '''        let mut keys = v.key.split(',');
        let denom_in = keys.next().unwrap().to_string();
        let denom_out = keys.last().map_or_else(|| denom_in.clone(), |k| k.to_string());
'''), (PE, HOPS, '''        let mut routes = Vec::with_capacity(v.routes.len());
        for v in &v.routes {
            let splitted: Vec<&str> = v.split(',').collect();
            routes.push(SwapRoute {
                pool_id: splitted[0].parse().unwrap(),
                token_denom: splitted[splitted.len() - 1].to_owned(),
            });
        }
''')]
REFS["if_compact_rsplit"] = [(PE, KEYS, '''        let denom_in = v.key.split(",").next().unwrap().to_string();
        let denom_out = v.key.rsplit(',').next().unwrap().to_string();
'''), (PE, HOPS, '''        let parse = |v: String| {
            let parts: Vec<&str> = v.splitn(2, ',').collect();
            SwapRoute::new(parts[0].parse::<u64>().unwrap(), parts[1])
        };
        let routes: Vec<_> = v.routes.into_iter().map(parse).collect();
''')]
REFS["if_infos_into"] = [(PE, "        vs.0.into_iter().map(|v| v.into()).collect()\n", "        vs.0.into_iter().map(SwapInfo::from).collect()\n")]
REFS["if_routes_loop"] = [(T, '''        val.0
            .into_iter()
            .map(|v| SwapAmountInRoute {
                pool_id: v.pool_id,
                token_out_denom: v.token_denom,
            })
            .collect()
''', '''        let mut routes = vec![];
        for SwapRoute { pool_id, token_denom: token_out_denom } in val.0 {
            routes.push(SwapAmountInRoute { pool_id, token_out_denom });
        }
        routes
''')]
REFS["if_first_last"] = [(T, "        self.0.first().unwrap().token_denom.clone()\n", "        self.0[0].token_denom.to_string()\n"),
                         (T, "        self.0.last().unwrap().token_denom.clone()\n", "        let last = &self.0[self.0.len() - 1];\n        last.token_denom.clone()\n")]
REFS["if_limit_min"] = [(L, '''        Some(l) => {
            if l <= max {
                Ok(l)
            } else {
                Err(StdError::generic_err(format!(
                    "oversized request. size: {:?}, max: {:?}",
                    l as u64, max as u64,
                )))
            }
        }
        None => Ok(default),
''', '''        Some(l) if l > max => Err(StdError::generic_err(format!(
            "oversized request. size: {l:?}, max: {max:?}",
        ))),
        other => Ok(other.unwrap_or(default)),
''')]
REFS["if_range_match"] = [(L, '''    let order = order.unwrap_or(RangeOrder::Asc).into();
    let (min, max) = match order {
        Order::Ascending => (start.map(Bound::exclusive), None),
        Order::Descending => (None, start.map(Bound::exclusive)),
    };

    Ok(((min, max), limit, order))
''', '''    let bound = start.map(Bound::exclusive);
    Ok(match order {
        Some(RangeOrder::Desc) => ((None, bound), limit, Order::Descending),
        Some(RangeOrder::Asc) | None => ((bound, None), limit, Order::Ascending),
    })
''')]
REFS["if_core_query_helper"] = [(HC, '''        let msg = QueryMsg::GetFee { time };

        querier.query(
            &WasmQuery::Smart {
                contract_addr: self.addr().into(),
                msg: to_json_binary(&msg)?,
            }
            .into(),
        )
''', '''        querier.query_wasm_smart(self.0.as_str(), &QueryMsg::GetFee { time })
'''), (HC, '''        let msg = to_json_binary(&msg.into())?;
        Ok(WasmMsg::Execute {
            contract_addr: self.addr().into(),
            msg,
            funds: vec![],
        }
        .into())
''', '''        self.call_with_funds(msg, vec![])
''')]
REFS["if_peri_call_helper"] = [(HP, '''        let msg = to_json_binary(&msg.into())?;
        Ok(WasmMsg::Execute {
            contract_addr: self.addr().into(),
            msg,
            funds: vec![],
        }
        .into())
''', '''        self.call_with_funds(msg, Vec::new())
'''), (HP, '''        let msg = to_json_binary(&msg.into())?;
        Ok(WasmMsg::Execute {
            contract_addr: self.addr().into(),
            msg,
            funds,
        }
        .into())
''', '''        let msg: ExecuteMsg = msg.into();
        let execute = WasmMsg::Execute {
            contract_addr: self.0.to_string(),
            msg: to_json_binary(&msg)?,
            funds,
        };
        Ok(CosmosMsg::Wasm(execute))
''')]
