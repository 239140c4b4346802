"""Planted bugs in the airdrop contract."""
DROP = [("ibcx-airdrop", "contracts/airdrop"), ("ibcx-interface", "packages/interface")]
D = "contracts/airdrop/src/"
PRE = r'''#![allow(unused)]
use cosmwasm_std::testing::*;
use cosmwasm_std::*;
use ibcx_airdrop::contract::{execute, instantiate, migrate, query};
use ibcx_airdrop::verify::{pub_to_addr, sha256_digest};
use ibcx_interface::airdrop::*;

// signatures are stood in for: sha256(digest ++ key)
struct A(MockApi);
impl Api for A {
    fn addr_validate(&self, h: &str) -> StdResult<Addr> { if h.len() < 3 { Err(StdError::generic_err("short")) } else { Ok(Addr::unchecked(h)) } }
    fn addr_canonicalize(&self, h: &str) -> StdResult<CanonicalAddr> { self.0.addr_canonicalize(h) }
    fn addr_humanize(&self, c: &CanonicalAddr) -> StdResult<Addr> { self.0.addr_humanize(c) }
    fn secp256k1_verify(&self, d: &[u8], s: &[u8], k: &[u8]) -> Result<bool, VerificationError> { Ok(s == &sign(d, k)[..]) }
    fn secp256k1_recover_pubkey(&self, d: &[u8], s: &[u8], r: u8) -> Result<Vec<u8>, RecoverPubkeyError> { self.0.secp256k1_recover_pubkey(d, s, r) }
    fn ed25519_verify(&self, d: &[u8], s: &[u8], k: &[u8]) -> Result<bool, VerificationError> { self.0.ed25519_verify(d, s, k) }
    fn ed25519_batch_verify(&self, d: &[&[u8]], s: &[&[u8]], k: &[&[u8]]) -> Result<bool, VerificationError> { self.0.ed25519_batch_verify(d, s, k) }
    fn debug(&self, _: &str) {}
}
fn sign(d: &[u8], k: &[u8]) -> [u8; 32] { sha256_digest([d, k].concat()).unwrap() }
fn hx(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
type O = OwnedDeps<MockStorage, A, MockQuerier>;
const KEY: &[u8] = &[2, 7, 7, 7];
fn at(h: u64) -> Env { let mut e = mock_env(); e.block.height = h; e }
fn setup() -> O {
    let b = mock_dependencies();
    let mut d = OwnedDeps { storage: b.storage, api: A(b.api), querier: b.querier, custom_query_type: std::marker::PhantomData };
    instantiate(d.as_mut(), at(1), mock_info("deployer", &[]), InstantiateMsg {}).unwrap();
    d
}
fn leaf(k: &str, a: u128) -> [u8; 32] { sha256_digest(format!("{}:{}", k, a)).unwrap() }
fn two(a: [u8; 32], b: [u8; 32]) -> [u8; 32] { let mut v = [a, b]; v.sort_unstable(); sha256_digest(v.concat()).unwrap() }
fn run(d: &mut O, h: u64, who: &str, f: &[Coin], m: ExecuteMsg) -> Result<Response, String> {
    // a failing message leaves nothing behind
    let keep: Vec<(Vec<u8>, Vec<u8>)> = d.storage.range(None, None, Order::Ascending).collect();
    let r = execute(d.as_mut(), at(h), mock_info(who, f), m).map_err(|e| e.to_string());
    if r.is_err() {
        let mut s = MockStorage::default();
        for (k, v) in keep { s.set(&k, &v) }
        d.storage = s;
    }
    r
}
fn open(d: &mut O, who: &str, root: [u8; 32], funds: u128, label: Option<&str>) -> Result<Response, String> {
    run(d, 5, who, &[coin(funds, "uosmo")], ExecuteMsg::Register(RegisterPayload::open(hx(&root), "uosmo", label)))
}
fn bearer(d: &mut O, who: &str, root: [u8; 32], funds: u128, label: Option<&str>) -> Result<Response, String> {
    let a = pub_to_addr(KEY.to_vec().into(), "osmo").unwrap();
    let s = hx(&sign(&sha256_digest(&a).unwrap(), KEY));
    run(d, 5, who, &[coin(funds, "uosmo")], ExecuteMsg::Register(RegisterPayload::bearer(hx(&root), "uosmo", hx(KEY), s, label)))
}
fn sig(hash: &str, who: &str, a: u128) -> String { hx(&sign(&sha256_digest(format!("{}/{}/{}", hash, who, a)).unwrap(), KEY)) }
fn sends(r: &Response) -> Vec<(String, Vec<Coin>)> {
    r.messages.iter().filter_map(|m| match &m.msg { CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => Some((to_address.clone(), amount.clone())), _ => None }).collect()
}
macro_rules! ask { ($d:expr, $m:expr) => { query($d.as_ref(), at(50), $m).map_err(|e| e.to_string()).map(|b| from_json(&b).unwrap()) } }
'''
SEEDS = {}


def S(id, property, needs, breaks, edits, demo):
    SEEDS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=PRE + demo, deps=DROP)


S("a01_hash_logged_lowercase", "A01", "a bearer airdrop whose tree holds a claim hash with an upper case letter",
  "the claim is logged under the lower cased hash but looked up as given, so a hash with capitals is claimed again and again",
  [(D + "execute/claim.rs", "CLAIM_LOGS.save(deps.storage, (airdrop_id, &claim_hash), &amount)?;", "let claim_key = claim_hash.to_lowercase();\n    CLAIM_LOGS.save(deps.storage, (airdrop_id, &claim_key), &amount)?;")],
  r'''
fn main() {
    let mut d = setup();
    bearer(&mut d, "boss", leaf("aBc", 10), 100, None).unwrap();
    let m = || ExecuteMsg::Claim(ClaimPayload::bearer_id(0, 10, Some("user"), "aBc", sig("aBc", "user", 10), &[]));
    run(&mut d, 9, "user", &[], m()).unwrap();
    assert!(run(&mut d, 9, "user", &[], m()).is_err(), "claimed twice");
}
''')

S("a01_account_as_written", "A01", "an open airdrop claimed by its creator for an account",
  "a claim sent by the creator on behalf of an account is logged as the creator's own, so the account can claim again",
  [(D + "execute/claim.rs", "    CLAIM_LOGS.save(deps.storage, (airdrop_id, claimer.as_str()), &amount)?;", "    CLAIM_LOGS.save(deps.storage, (airdrop_id, payer.as_str()), &amount)?;"),
   (D + "execute/claim.rs", """    let attrs = claim_open_event(
        sender,
        AirdropType::Open,""", """    let payer = if airdrop.creator == sender { &airdrop.creator } else { &claimer }.clone();
    let attrs = claim_open_event(
        sender,
        AirdropType::Open,""")],
  r'''
fn main() {
    let mut d = setup();
    open(&mut d, "boss", leaf("user", 10), 100, None).unwrap();
    let m = || ExecuteMsg::Claim(ClaimPayload::open_id(0, 10, Some("user"), &[]));
    run(&mut d, 9, "boss", &[], m()).unwrap();
    assert!(run(&mut d, 9, "user", &[], m()).is_err(), "claimed twice");
}
''')

S("a02_creator_needs_no_signature", "A02", "a bearer claim whose claimer is the airdrop's creator",
  "the creator can claim with any signature",
  [(D + "execute/claim.rs", "    if !ok {\n        return Err(ContractError::invalid_signature(\"claim_bearer\"));", "    if !ok && claimer != airdrop.creator {\n        return Err(ContractError::invalid_signature(\"claim_bearer\"));")],
  r'''
fn main() {
    let mut d = setup();
    bearer(&mut d, "boss", leaf("h1", 10), 100, None).unwrap();
    let m = |s: String| ExecuteMsg::Claim(ClaimPayload::bearer_id(0, 10, Some("boss"), "h1", s, &[]));
    assert!(run(&mut d, 9, "boss", &[], m(sig("h1", "user", 10))).is_err(), "claimed with another's signature");
    run(&mut d, 9, "boss", &[], m(sig("h1", "boss", 10))).unwrap();
}
''')

S("a02_sibling_equal_to_node_skipped", "A02", "a proof containing the running hash itself as a sibling",
  "a proof element equal to the running hash is skipped, so a proof that does not fold to the root is accepted",
  [(D + "verify.rs", "        let mut hashes = [hash, proof_buf];", "        if hash == proof_buf {\n            return Ok(hash);\n        }\n        let mut hashes = [hash, proof_buf];")],
  r'''
fn main() {
    let mut d = setup();
    let (a, b) = (leaf("user", 10), leaf("other", 20));
    open(&mut d, "boss", two(a, b), 100, None).unwrap();
    let (x, y) = (hx(&a), hx(&b));
    assert!(run(&mut d, 9, "user", &[], ExecuteMsg::Claim(ClaimPayload::open_id(0, 10, None, &[&x, &y]))).is_err(), "this proof folds elsewhere");
    run(&mut d, 9, "user", &[], ExecuteMsg::Claim(ClaimPayload::open_id(0, 10, None, &[&y]))).unwrap();
}
''')

S("a03_only_single_claim_bounded", "A03", "several open claims adding up to more than the airdrop was funded with",
  "each claim is compared with the whole funding on its own, so claims together exceed it and take other airdrops' coins",
  [(D + "execute/claim.rs", """    airdrop.total_claimed = airdrop.total_claimed.checked_add(amount)?;
    if airdrop.total_claimed > airdrop.total_amount {
        return Err(ContractError::InsufficientAirdropFunds {});
    }

    // response
    let claim_msg = BankMsg::Send {
        to_address: claimer.to_string(),
        amount: coins(amount.u128(), &airdrop.denom),
    };

    let attrs = claim_open_event(""", """    airdrop.total_claimed = airdrop.total_claimed.checked_add(amount)?;
    if amount > airdrop.total_amount {
        return Err(ContractError::InsufficientAirdropFunds {});
    }

    // response
    let claim_msg = BankMsg::Send {
        to_address: claimer.to_string(),
        amount: coins(amount.u128(), &airdrop.denom),
    };

    let attrs = claim_open_event(""")],
  r'''
fn main() {
    let mut d = setup();
    let (a, b) = (leaf("user", 10), leaf("other", 20));
    open(&mut d, "boss", two(a, b), 25, None).unwrap();
    let (x, y) = (hx(&a), hx(&b));
    run(&mut d, 9, "user", &[], ExecuteMsg::Claim(ClaimPayload::open_id(0, 10, None, &[&y]))).unwrap();
    assert!(run(&mut d, 9, "other", &[], ExecuteMsg::Claim(ClaimPayload::open_id(0, 20, None, &[&x]))).is_err(), "paid 30 of 25");
}
''')

S("a04_spent_bearer_stays_open", "A04", "closing a bearer airdrop of which everything has been claimed",
  "with nothing left to pay back the airdrop is not marked closed and can be funded and claimed again",
  [(D + "execute/close.rs", """    airdrop.closed_at = Some(env.block.height);

    // response
    let send_msg = BankMsg::Send {
        to_address: airdrop.creator.to_string(),
        amount: coins(redeem_amount.u128(), &airdrop.denom),
    };

    let attrs = close_event(info.sender, AirdropType::Bearer""", """    airdrop.closed_at = Some(env.block.height).filter(|_| !redeem_amount.is_zero());

    // response
    let send_msg = BankMsg::Send {
        to_address: airdrop.creator.to_string(),
        amount: coins(redeem_amount.u128(), &airdrop.denom),
    };

    let attrs = close_event(info.sender, AirdropType::Bearer""")],
  r'''
fn main() {
    let mut d = setup();
    bearer(&mut d, "boss", leaf("h1", 10), 10, None).unwrap();
    run(&mut d, 9, "user", &[], ExecuteMsg::Claim(ClaimPayload::bearer_id(0, 10, None, "h1", sig("h1", "user", 10), &[]))).unwrap();
    run(&mut d, 9, "boss", &[], ExecuteMsg::Close(AirdropId::id(0))).unwrap();
    assert!(run(&mut d, 9, "boss", &[coin(5, "uosmo")], ExecuteMsg::Fund(AirdropId::id(0))).is_err(), "funded after closing");
}
''')

S("a05_signer_may_fund", "A05", "the signer of a bearer airdrop sending funds",
  "the airdrop's signer can fund it as well, not only the creator",
  [(D + "execute/fund.rs", """    mut airdrop: BearerAirdrop,
) -> Result<Response, ContractError> {
    if airdrop.creator != info.sender {""", """    mut airdrop: BearerAirdrop,
) -> Result<Response, ContractError> {
    if airdrop.creator != info.sender && airdrop.signer != info.sender {""")],
  r'''
fn main() {
    let mut d = setup();
    bearer(&mut d, "boss", leaf("h1", 10), 10, None).unwrap();
    let signer = pub_to_addr(KEY.to_vec().into(), "osmo").unwrap();
    run(&mut d, 9, "boss", &[coin(5, "uosmo")], ExecuteMsg::Fund(AirdropId::id(0))).unwrap();
    assert!(run(&mut d, 9, &signer, &[coin(5, "uosmo")], ExecuteMsg::Fund(AirdropId::id(0))).is_err());
}
''')

S("a06_qualified_label_kept", "A06", "a label that itself contains a slash",
  "a label with a slash is taken as already qualified, so anyone can register labels in another creator's namespace",
  [(D + "execute/register.rs", """    let label = label.map(|x| format!("{}/{x}", info.sender));

    // make open airdrop""", """    let label = label.map(|x| {
        if x.contains('/') {
            x
        } else {
            format!("{}/{x}", info.sender)
        }
    });

    // make open airdrop""")],
  r'''
fn main() {
    let mut d = setup();
    let _ = open(&mut d, "mallory", leaf("user", 10), 10, Some("boss/main"));
    let r: Result<GetLabelResponse, String> = ask!(d, QueryMsg::GetLabel { label: "boss/main".into() });
    assert!(r.is_err(), "label taken in the namespace of another: {:?}", r);
    open(&mut d, "boss", leaf("user", 10), 10, Some("main")).unwrap();
}
''')

S("a06_label_reused_after_closing", "A06", "registering a label whose airdrop has been closed",
  "a label is given away again once its airdrop is closed, so ids named by label change under the users",
  [(D + "state.rs", "        if LABELS.has(storage, label) {", """        let taken = match LABELS.may_load(storage, label)? {
            Some(old) => match airdrops().load(storage, old)? {
                Airdrop::Open(inner) => inner.closed_at.is_none(),
                Airdrop::Bearer(inner) => inner.closed_at.is_none(),
            },
            None => false,
        };
        if taken {""")],
  r'''
fn main() {
    let mut d = setup();
    open(&mut d, "boss", leaf("user", 10), 10, Some("main")).unwrap();
    assert!(open(&mut d, "boss", leaf("user", 10), 10, Some("main")).is_err());
    run(&mut d, 9, "boss", &[], ExecuteMsg::Close(AirdropId::id(0))).unwrap();
    assert!(open(&mut d, "boss", leaf("user", 10), 10, Some("main")).is_err(), "label moved to another airdrop");
}
''')

S("a07_query_lowers_hash", "A07", "verifying a bearer claim whose hash has an upper case letter",
  "the query lower cases the hash before checking the proof, so it calls a claim invalid that succeeds",
  [(D + "query/claim.rs", "verify_merkle_proof(&airdrop.merkle_root, proof, &claim_hash, amount);", "verify_merkle_proof(&airdrop.merkle_root, proof, &claim_hash.to_lowercase(), amount);")],
  r'''
fn main() {
    let mut d = setup();
    bearer(&mut d, "boss", leaf("aBc", 10), 100, None).unwrap();
    let m = || ClaimPayload::bearer_id(0, 10, Some("user"), "aBc", sig("aBc", "user", 10), &[]);
    let v: VerifyClaimResponse = ask!(d, QueryMsg::VerifyClaim { claim: m() }).unwrap();
    run(&mut d, 9, "user", &[], ExecuteMsg::Claim(m())).unwrap();
    assert!(v.valid, "{:?}", v.reason);
}
''')

S("a08_spent_airdrop_closes_itself", "A08", "the claim that takes the last coin of an open airdrop",
  "a claim that uses up the funds also marks the airdrop closed, which only its creator may do",
  [(D + "execute/claim.rs", """    let attrs = claim_open_event(
        sender,""", """    if airdrop.total_claimed == airdrop.total_amount {
        airdrop.closed_at = Some(airdrop.created_at);
    }
    let attrs = claim_open_event(
        sender,""")],
  r'''
fn main() {
    let mut d = setup();
    open(&mut d, "boss", leaf("user", 10), 10, None).unwrap();
    run(&mut d, 9, "user", &[], ExecuteMsg::Claim(ClaimPayload::open_id(0, 10, None, &[]))).unwrap();
    run(&mut d, 10, "boss", &[coin(5, "uosmo")], ExecuteMsg::Fund(AirdropId::id(0))).unwrap();
}
''')

S("a08_funding_trims_label", "A08", "funding a labelled airdrop whose creator is called ibcx",
  "funding rewrites the label of the record to the one without its creator",
  [(D + "execute/fund.rs", """    // event attributes
    let attrs = fund_event(info.sender, AirdropType::Open, id, additional_funds);""", """    // event attributes
    airdrop.label = airdrop
        .label
        .map(|x| x.trim_start_matches("ibcx/").to_string());
    let attrs = fund_event(info.sender, AirdropType::Open, id, additional_funds);""")],
  r'''
fn main() {
    let mut d = setup();
    open(&mut d, "ibcx", leaf("user", 10), 10, Some("main")).unwrap();
    let a: GetAirdropResponse = ask!(d, QueryMsg::GetAirdrop { id: AirdropId::id(0) }).unwrap();
    run(&mut d, 10, "ibcx", &[coin(5, "uosmo")], ExecuteMsg::Fund(AirdropId::label("ibcx/main"))).unwrap();
    let b: GetAirdropResponse = ask!(d, QueryMsg::GetAirdrop { id: AirdropId::id(0) }).unwrap();
    let l = |x: GetAirdropResponse| match x { GetAirdropResponse::Open { label, .. } => label, _ => None };
    assert_eq!(l(a), l(b));
}
''')

S("a09_label_cut_at_second_slash", "A09", "asking for a label that contains a slash",
  "the label query reports only the part up to the next slash",
  [(D + "query/label.rs", """    let creator = splitted[0].to_string();
    let label = splitted[1..].join("/");

    Ok(GetLabelResponse {
        creator,
        label,
        airdrop_id,
    })
}

pub fn""", """    let creator = splitted[0].to_string();
    let label = splitted[1].to_string();

    Ok(GetLabelResponse {
        creator,
        label,
        airdrop_id,
    })
}

pub fn""")],
  r'''
fn main() {
    let mut d = setup();
    open(&mut d, "boss", leaf("user", 10), 10, Some("spring/2024")).unwrap();
    let r: GetLabelResponse = ask!(d, QueryMsg::GetLabel { label: "boss/spring/2024".into() }).unwrap();
    assert_eq!((r.creator.as_str(), r.label.as_str()), ("boss", "spring/2024"));
}
''')

S("a09_claims_listed_of_id_zero", "A09", "listing the claims of an airdrop named by label",
  "claims listed by label carry the airdrop id the label had first, read from the claim itself, not the airdrop's",
  [(D + "query/claim.rs", """            Ok(GetClaimResponse {
                id: airdrop_id,
                amount: v,
                claim_key: k,
            })
        })""", """            Ok(GetClaimResponse {
                id: k.parse().unwrap_or(airdrop_id),
                amount: v,
                claim_key: k,
            })
        })""")],
  r'''
fn main() {
    let mut d = setup();
    bearer(&mut d, "boss", leaf("77", 10), 100, None).unwrap();
    run(&mut d, 9, "user", &[], ExecuteMsg::Claim(ClaimPayload::bearer_id(0, 10, None, "77", sig("77", "user", 10), &[]))).unwrap();
    let r: ListClaimsResponse = ask!(d, QueryMsg::ListClaims { airdrop: AirdropId::id(0), start_after: None, limit: None, order: None }).unwrap();
    assert_eq!(r.0[0].id, 0);
}
''')

S("a10_forced_migration_restarts_ids", "A10", "a forced migration of a contract that already has airdrops",
  "a forced migration starts the ids from zero again, so registrations overwrite airdrops",
  [(D + "contract.rs", """    } else {
        cw2::set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;
    }""", """    } else {
        cw2::set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;
        LATEST_AIRDROP_ID.save(deps.storage, &0)?;
    }""")],
  r'''
fn main() {
    let mut d = setup();
    open(&mut d, "boss", leaf("user", 10), 10, None).unwrap();
    migrate(d.as_mut(), at(3), MigrateMsg { force: Some(true) }).unwrap();
    let r: LatestAirdropResponse = ask!(d, QueryMsg::LatestAirdropId {}).unwrap();
    assert_eq!(r.0, 1);
}
''')

S("a11_labels_share_claim_log", "A11", "listing labels after a claim was made",
  "labels are kept under the prefix of the claim log, so the two kinds of records mix",
  [(D + "state.rs", "pub const LABELS_PREFIX: &str = \"labels\";", "pub const LABELS_PREFIX: &str = \"claim_logs\";")],
  r'''
fn main() {
    let mut d = setup();
    open(&mut d, "boss", leaf("user", 10), 10, Some("main")).unwrap();
    run(&mut d, 9, "user", &[], ExecuteMsg::Claim(ClaimPayload::open_id(0, 10, None, &[]))).unwrap();
    let r: ListLabelsResponse = query(d.as_ref(), at(9), QueryMsg::ListLabels { start_after: None, limit: None, order: None }).map(|b| from_json(&b).unwrap()).unwrap();
    assert_eq!(r.0.len(), 1);
}
''')

S("a12_failed_claim_tolerated", "A12", "a claim whose payout fails",
  "the payout is sent so that a failure is handled and swallowed, leaving the claim recorded and unpaid",
  [(D + "execute/claim.rs", """    CLAIM_LOGS.save(deps.storage, (airdrop_id, claimer.as_str()), &amount)?;

    Ok(Response::new().add_message(claim_msg).add_attributes(attrs))""", """    CLAIM_LOGS.save(deps.storage, (airdrop_id, claimer.as_str()), &amount)?;

    Ok(Response::new()
        .add_submessage(cosmwasm_std::SubMsg::reply_on_error(claim_msg, airdrop_id))
        .add_attributes(attrs))"""),
   (D + "contract.rs", """#[entry_point]
pub fn migrate(""", """#[entry_point]
pub fn reply(
    _deps: DepsMut,
    _env: Env,
    msg: cosmwasm_std::Reply,
) -> Result<Response, ContractError> {
    // a payout that fails is left for the creator to settle
    Ok(Response::new().add_attribute("unpaid", msg.id.to_string()))
}

#[entry_point]
pub fn migrate(""")],
  r'''
fn main() {
    let mut d = setup();
    open(&mut d, "boss", leaf("user", 10), 10, None).unwrap();
    let r = run(&mut d, 9, "user", &[], ExecuteMsg::Claim(ClaimPayload::open_id(0, 10, None, &[]))).unwrap();
    assert_eq!(r.messages.len(), 1);
    for m in &r.messages { assert!(matches!(m.reply_on, ReplyOn::Never | ReplyOn::Success), "a failing payout does not revert the claim"); }
}
''')
