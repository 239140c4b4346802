"""Planted bugs in the pool simulation and its mathematics."""
from seeds_peri import PRE, PERI, POOL, IFACE

DEPS = PERI + [("ibcx-math", "packages/math")]
M = "packages/math/src/pow.rs"
U = r'''
use ibcx_pool::*;
use ibcx_interface::types::*;
fn wp(id: u64, fee: &str, a: &[(&str, u128, u128)]) -> WeightedPool { let j = weighted(id, fee, a); from_json(&serde_json_pool(&j)).unwrap() }
fn serde_json_pool(j: &str) -> Vec<u8> { j.strip_prefix("{\"pool\":").unwrap().strip_suffix("}").unwrap().as_bytes().to_vec() }
fn d256(x: &str) -> Decimal256 { x.parse().unwrap() }
fn near(a: Decimal256, b: Decimal256, tol: &str) -> bool { a.abs_diff(b) < d256(tol) }
fn si(x: &[(&str, &[&str])]) -> Vec<SwapInfo> { let v: Vec<SwapInfo> = infos(x).into(); v }
fn units(x: &[(&str, &str)]) -> Vec<(String, Decimal)> { x.iter().map(|u| (u.0.to_string(), dec(u.1))).collect() }
'''
SEEDS = {}


def S(id, property, needs, breaks, edits, demo):
    SEEDS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=PRE + U + demo, deps=DEPS)


S("m01_weights_swapped", "M01", "an exact-output swap between assets of different weights",
  "what an exact-output swap costs is computed with the two weights exchanged",
  [(POOL + "weighted.rs", "            to_dec(pool_post_swap_out_balance)?,\n            to_dec(token_out_weight)?,\n            to_dec(token_in.amount)?,\n            to_dec(token_in_weight)?,", "            to_dec(pool_post_swap_out_balance)?,\n            to_dec(token_in_weight)?,\n            to_dec(token_in.amount)?,\n            to_dec(token_out_weight)?,")],
  r'''
fn main() {
    let d = setup(&[], None, None);
    let mut p = wp(1, "0", &[("a", 1000000, 1), ("b", 1000000, 2)]);
    // 1000000 * ((1000000/900000)^2 - 1) = 234567.9
    let x = p.swap_exact_amount_out(&d.as_ref(), "a".into(), Uint256::MAX, coin(100000, "b"), Decimal::zero()).unwrap();
    assert!(x >= Uint256::from(234567u128) && x <= Uint256::from(234569u128), "{}", x);
}
''')
S("m01_cost_rounded_down", "M01", "an exact-output swap whose cost is not a whole number",
  "what an exact-output swap costs is rounded down when the fee is taken, a unit less than the pool asks",
  [(POOL + "weighted.rs", "token_amount_in / (Decimal256::one().checked_sub(spread_factor.into())?);", "token_amount_in.floor() / (Decimal256::one().checked_sub(spread_factor.into())?);")],
  r'''
fn main() {
    let d = setup(&[], None, None);
    let mut p = wp(1, "0", &[("a", 1000000, 1), ("b", 1000000, 1)]);
    // 1000000 * (1000000/999000 - 1) = 1001.001
    let x = p.swap_exact_amount_out(&d.as_ref(), "a".into(), Uint256::MAX, coin(1000, "b"), Decimal::zero()).unwrap();
    assert_eq!(x, Uint256::from(1002u128));
}
''')
S("m02_pools_reset_per_unit", "M02", "two units of the portfolio whose routes share a pool",
  "every unit is quoted on the pools as they were at first, so units sharing a pool are quoted too well",
  [(POOL + "sim/index_out.rs", "                    self.estimate_in_given_out(input_asset, token_out, &mut pools_map)", "                    self.estimate_in_given_out(input_asset, token_out, &mut pools_map.clone())"),
   (POOL + "sim/index_out.rs", "        let mut pools_map = self\n", "        let pools_map = self\n")],
  r'''
fn main() {
    let d = setup(&[], None, None);
    let a: &[(&str, u128, u128)] = &[("uosmo", 1000000, 1), ("x", 1000000, 1), ("y", 1000000, 1)];
    let pools: Vec<Box<dyn OsmosisPool>> = vec![Box::new(wp(1, "0", a))];
    let i = si(&[("uosmo,x", &["1,uosmo"]), ("uosmo,y", &["1,uosmo"])]);
    let u = units(&[("x", "1.0"), ("y", "1.0")]);
    let dd = d.as_ref();
    let s = Simulator::new(&dd, &pools, &i, &u);
    let r = s.estimate_input_for_index("uosmo", Uint128::new(100000)).unwrap();
    // 111112 for x; then (1111112 * (1/9)) for y
    assert!(r.total_input > Uint128::new(234000), "{}", r.total_input);
}
''')
S("m02_fee_left_out_of_balance", "M02", "two exact-input swaps on one pool that takes a fee",
  "after an exact-input swap the pool keeps its old input balance when its weight is not listed first",
  [(POOL + "weighted.rs", "                d if d == input_denom => (d, after_input_amount, asset.weight),\n", "                d if d == input_denom && i < 2 => (d, after_input_amount, asset.weight),\n")],
  r'''
fn main() {
    let d = setup(&[], None, None);
    let mut p = wp(1, "0.01", &[("a", 1000000, 1), ("b", 1000000, 1), ("c", 1000000, 1)]);
    for _ in 0..2 { p.swap_exact_amount_in(&d.as_ref(), coin(1000, "c"), "a".into(), Uint256::zero(), dec("0.01")).unwrap(); }
    assert_eq!(p.pool_assets[2].token.amount, Uint256::from(1002000u128));
}
''')
S("m03_asks_for_the_other_direction", "M03", "a trade needing an exact output of a concentrated pool",
  "the cost of an exact output of a concentrated pool is asked as what selling that output gives",
  [(POOL + "concentrated.rs", ".sim_swap_exact_out(&deps.querier, &self.address, output_amount)?", ".sim_swap_exact_in(&deps.querier, &self.address, output_amount)?")],
  r'''
fn main() {
    let d = setup(&[], None, None);
    let j = r#"{"@type":"/osmosis.concentratedliquidity.v1beta1.Pool","address":"cl","incentives_address":"i","spread_rewards_address":"s","id":"7","current_tick_liquidity":"1","token0":"a","token1":"b","current_sqrt_price":"1","current_tick":"0","tick_spacing":"1","exponent_at_price_one":"-6","spread_factor":"0.01","last_liquidity_update":"x"}"#;
    let mut p: ConcentratedPool = from_json(j.as_bytes()).unwrap();
    let _ = p.swap_exact_amount_out(&d.as_ref(), "a".into(), Uint256::MAX, coin(12345, "b"), Decimal::zero());
    let asked = d.querier.asked.borrow().clone();
    assert!(asked.iter().any(|x| x.contains("EstimateSwapExactAmountOut")), "{:?}", asked);
}
''')
S("m04_unswapped_unit_not_received", "M04", "burning to a denom that is itself a portfolio unit",
  "the traded denom itself is left out of what an index amount gives",
  [(POOL + "sim/index_in.rs", "                Ok::<_, PoolError>(acc.checked_add(v.sim_amount_out)?)", "                if v.routes.is_none() && !acc.is_zero() {\n                    return Ok::<_, PoolError>(acc);\n                }\n                Ok::<_, PoolError>(acc.checked_add(v.sim_amount_out)?)")],
  r'''
fn main() {
    let d = setup(&[], None, None);
    let pools: Vec<Box<dyn OsmosisPool>> = vec![Box::new(wp(1, "0", &[("uosmo", 1000000, 1), ("x", 1000000, 1)]))];
    let i = si(&[("x,uosmo", &["1,uosmo"])]);
    let u = units(&[("x", "1.0"), ("uosmo", "0.5")]);
    let dd = d.as_ref();
    let s = Simulator::new(&dd, &pools, &i, &u);
    let r = s.estimate_output_for_index(Uint128::new(1000), "uosmo").unwrap();
    assert_eq!(r.total_output, Uint128::new(999 + 500));
}
''')
S("m05_odd_powers_replaced", "M05", "an integer power with more than two odd halvings, such as seven",
  "powers with several binary digits lose factors",
  [(M, "            tmp *= base;\n", "            tmp = base;\n")],
  r'''
fn main() {
    let r = ibcx_math::pow(d256("1.5"), d256("7")).unwrap();
    assert!(near(r, d256("17.0859375"), "0.000001"), "{}", r);
}
''')
S("m05_whole_exponent_in_series", "M05", "an exponent above one that is not a whole number",
  "for exponents above one the series is computed with the whole exponent, so the integer part counts twice",
  [(M, "        base,\n        fractional,\n", "        base,\n        exp,\n")],
  r'''
fn main() {
    for (b, e, w) in [("0.5", "0.5", "0.7071067"), ("1.5", "0.5", "1.2247448"), ("0.7", "1.25", "0.6402838"), ("0.9", "2.5", "0.7684334")] {
        let r = ibcx_math::pow(d256(b), d256(e)).unwrap();
        assert!(near(r, d256(w), "0.00001"), "{} {} {}", b, e, r);
    }
}
''')
S("m05_base_two_allowed", "M05", "a trade that leaves a pool exactly half of a balance, so the base is exactly two",
  "a base of exactly two is accepted, for which the series converges too slowly to end",
  [(M, "    if base >= Decimal256::from_ratio(2u64, 1u64) {", "    if base > Decimal256::from_ratio(2u64, 1u64) {")],
  r'''
fn main() {
    assert!(ibcx_math::pow(d256("1.999"), d256("3")).is_ok());
    assert!(ibcx_math::pow(d256("2"), d256("3")).is_err());
}
''')
S("m06_last_round_returned", "M06", "prices under which the search does not come close to what is desired",
  "a search that does not converge returns its last attempt instead of failing",
  [(POOL + "sim/index_out.rs", "        for _ in 0..MAX_LOOP {\n", "        for i in 0..MAX_LOOP {\n"),
   (POOL + "sim/index_out.rs", "            if Decimal::one() <= err\n                && desired_input.amount.checked_sub(acc_res.max_token_in)?\n                    < Uint128::from(MAX_ERROR)\n", "            if Decimal::one() <= err\n                && (i + 1 == MAX_LOOP\n                    || desired_input.amount.checked_sub(acc_res.max_token_in)?\n                        < Uint128::from(MAX_ERROR))\n")],
  r'''
// a pool that cannot be bought in small steps
#[derive(Clone)]
struct Steps;
impl OsmosisPool for Steps {
    fn get_id(&self) -> u64 { 1 }
    fn get_type(&self) -> &str { "steps" }
    fn get_spread_factor(&self) -> StdResult<Decimal> { Ok(Decimal::zero()) }
    fn clone_box(&self) -> Box<dyn OsmosisPool> { Box::new(self.clone()) }
    fn swap_exact_amount_in(&mut self, _: &Deps, c: Coin, _: String, _: Uint256, _: Decimal) -> Result<Uint256, PoolError> { Ok(c.amount.into()) }
    fn swap_exact_amount_out(&mut self, _: &Deps, _: String, _: Uint256, c: Coin, _: Decimal) -> Result<Uint256, PoolError> {
        let n = c.amount.u128();
        Ok(Uint256::from(if n > 50000 { 200000u128 } else { 50000 }))
    }
}
fn main() {
    let d = setup(&[], None, None);
    let pools: Vec<Box<dyn OsmosisPool>> = vec![Box::new(Steps)];
    let i = si(&[("uosmo,x", &["1,uosmo"])]);
    let u = units(&[("x", "1.0")]);
    let dd = d.as_ref();
    let s = Simulator::new(&dd, &pools, &i, &u);
    for want in [100000u128, 70000, 150000] {
        if let Ok(r) = s.search_efficient_amount_for_input(coin(want, "uosmo"), None) {
            assert!(r.max_token_in.u128() <= want && want - r.max_token_in.u128() < 5000, "{}", r.max_token_in);
        }
    }
}
''')
S("m07_prefix_too_short", "M07", "a stable pool among the pools queried",
  "stable pools are read as weighted ones, which fails every trade over them",
  [(POOL + "query.rs", 'const POOL_WEIGHTED: &str = "eyJwb29sIjp7IkB0eXBlIjoiL29zbW9zaXMuZ2FtbS52MWJldGExLlBvb2wi";', 'const POOL_WEIGHTED: &str = "eyJwb29sIjp7IkB0eXBlIjoiL29zbW9zaXMuZ2FtbS";')],
  r'''
fn main() {
    let mut d = setup(&[], None, None);
    d.querier.pools.insert(5, r#"{"pool":{"@type":"/osmosis.gamm.poolmodels.stableswap.v1beta1.Pool","address":"st","id":"5","pool_params":{"swap_fee":"0.003","exit_fee":"0"},"future_pool_governor":"","total_shares":{"denom":"gamm","amount":"1"},"pool_liquidity":[{"denom":"a","amount":"10"}],"scaling_factors":[1],"scaling_factor_controller":""}}"#.into());
    pool(&mut d, 6, "0.01", &[("a", 10, 1), ("b", 10, 1)]);
    let p = query_pools(&d.as_ref(), vec![5, 6]).unwrap();
    assert_eq!(p.iter().map(|x| (x.get_id(), x.get_type().to_string())).collect::<Vec<_>>(), vec![(5, "stable_pool".to_string()), (6, "weighted_pool".to_string())]);
}
''')
S("m08_steps_of_the_search", "M08", "an estimate with a minimum index amount",
  "the revised estimate carries the steps of the amount searched for, not of the revised one",
  [(POOL + "sim/mod.rs", "            max: sim_init_res,\n            est: Some(SearchAmountForInputResp {\n                max_token_in: sim_revised_res.total_spent,\n                est_min_token_out: sim_revised_out,\n                sim_routes: sim_revised_res.sim_routes,", "            est: Some(SearchAmountForInputResp {\n                max_token_in: sim_revised_res.total_spent,\n                est_min_token_out: sim_revised_out,\n                sim_routes: sim_init_res.sim_routes.clone(),"),
   (POOL + "sim/mod.rs", "            }),\n        };\n\n        Ok(ret)\n    }\n\n    pub fn estimate_index_for_output", "            }),\n            max: sim_init_res,\n        };\n\n        Ok(ret)\n    }\n\n    pub fn estimate_index_for_output")],
  r'''
fn main() {
    let d = setup(&[], None, None);
    let pools: Vec<Box<dyn OsmosisPool>> = vec![Box::new(wp(1, "0", &[("uosmo", 1000000000, 1), ("x", 1000000000, 1)]))];
    let i = si(&[("uosmo,x", &["1,uosmo"])]);
    let u = units(&[("x", "1.0")]);
    let dd = d.as_ref();
    let s = Simulator::new(&dd, &pools, &i, &u);
    let r = s.estimate_index_for_input(coin(1000000, "uosmo"), None, Some(Uint128::new(500000)), None).unwrap();
    let e = r.est.unwrap();
    let n: u128 = e.sim_routes.clone().into_iter().map(|x| x.sim_amount_in.u128()).sum();
    assert_eq!(n, e.max_token_in.u128());
}
''')
LINEAR = r'''
// a pool that trades one for one
#[derive(Clone)]
struct Even;
impl OsmosisPool for Even {
    fn get_id(&self) -> u64 { 1 }
    fn get_type(&self) -> &str { "even" }
    fn get_spread_factor(&self) -> StdResult<Decimal> { Ok(Decimal::zero()) }
    fn clone_box(&self) -> Box<dyn OsmosisPool> { Box::new(self.clone()) }
    fn swap_exact_amount_in(&mut self, _: &Deps, c: Coin, _: String, _: Uint256, _: Decimal) -> Result<Uint256, PoolError> { Ok(c.amount.into()) }
    fn swap_exact_amount_out(&mut self, _: &Deps, _: String, _: Uint256, c: Coin, _: Decimal) -> Result<Uint256, PoolError> { Ok(c.amount.into()) }
}
'''
S("m09_exact_hit_passed_over", "M09", "a price at which a round meets the desired amount exactly",
  "a round that meets the desired total exactly is not taken, and as the next one is the same, the search never ends well",
  [(POOL + "sim/index_in.rs", "            if Decimal::one() <= err\n", "            if Decimal::one() < err\n")],
  LINEAR + r'''
fn main() {
    let d = setup(&[], None, None);
    let pools: Vec<Box<dyn OsmosisPool>> = vec![Box::new(Even)];
    let i = si(&[("x,uosmo", &["1,uosmo"])]);
    let u = units(&[("x", "1.0")]);
    let dd = d.as_ref();
    let s = Simulator::new(&dd, &pools, &i, &u);
    for want in [333333u128, 100000] {
        let r = s.search_efficient_amount_for_output(coin(want, "uosmo"), None).unwrap();
        assert!(want - r.max_token_out.u128() < 5000);
    }
}
''')
S("m09_first_total_of_the_default", "M09", "a search with a starting amount given",
  "a search with a starting amount pairs it with the total of the default amount, so its first round is off by their ratio",
  [(POOL + "sim/index_out.rs", "            let est_res = self.estimate_token_given_index_out(token_out, &desired_input.denom)?;\n\n            SearchAmountForInputResp {", "            let est_res = self.estimate_token_given_index_out(\n                token_out.max(Uint128::new(1000000)),\n                &desired_input.denom,\n            )?;\n\n            SearchAmountForInputResp {")],
  LINEAR + r'''
#[derive(Clone)]
struct Counting(std::sync::Arc<std::sync::Mutex<Vec<u128>>>);
impl OsmosisPool for Counting {
    fn get_id(&self) -> u64 { 1 }
    fn get_type(&self) -> &str { "even" }
    fn get_spread_factor(&self) -> StdResult<Decimal> { Ok(Decimal::zero()) }
    fn clone_box(&self) -> Box<dyn OsmosisPool> { Box::new(self.clone()) }
    fn swap_exact_amount_in(&mut self, _: &Deps, c: Coin, _: String, _: Uint256, _: Decimal) -> Result<Uint256, PoolError> { Ok(c.amount.into()) }
    fn swap_exact_amount_out(&mut self, _: &Deps, _: String, _: Uint256, c: Coin, _: Decimal) -> Result<Uint256, PoolError> { self.0.lock().unwrap().push(c.amount.u128()); Ok(c.amount.into()) }
}
fn main() {
    let d = setup(&[], None, None);
    let i = si(&[("uosmo,x", &["1,uosmo"])]);
    let u = units(&[("x", "1.0")]);
    let dd = d.as_ref();
    for init in [2000000u128, 500000] {
        let seen = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
        let pools: Vec<Box<dyn OsmosisPool>> = vec![Box::new(Counting(seen.clone()))];
        let s = Simulator::new(&dd, &pools, &i, &u);
        s.search_efficient_amount_for_input(coin(100000, "uosmo"), Some(Uint128::new(init))).unwrap();
        assert_eq!(*seen.lock().unwrap(), vec![init, 100000]);
    }
}
''')
S("m07_unreadable_passed_over", "M07", "a pool whose answer cannot be read among the pools queried",
  "a pool whose answer cannot be read is left out instead of failing the query",
  [(POOL + "query.rs", "        .map(decode_pool)\n", "        .map(decode_pool)\n        .filter(|v| v.is_ok())\n")],
  r'''
fn main() {
    let mut d = setup(&[], None, None);
    pool(&mut d, 6, "0.01", &[("a", 10, 1), ("b", 10, 1)]);
    assert_eq!(query_pools(&d.as_ref(), vec![6]).unwrap().len(), 1);
    d.querier.pools.insert(5, r#"{"pool":{"@type":"/osmosis.gamm.v1beta1.Pool","address":"x","id":"five"}}"#.into());
    assert!(query_pools(&d.as_ref(), vec![5, 6]).is_err());
}
''')
