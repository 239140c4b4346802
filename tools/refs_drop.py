"""Behaviour-preserving rewrites of the airdrop contract."""
C = "contracts/airdrop/src/"
REFS = {}


def R(n, *edits):
    REFS[n] = [(C + p, a, b) for p, a, b in edits]


R("drop_claim_helper", ("execute/claim.rs", """            // use tx sender if account is not provided
            let claimer = account
                .map(|x| deps.api.addr_validate(&x))
                .transpose()?
                .unwrap_or_else(|| info.sender.clone());

            claim_open(deps, info.sender, id, amount, claimer, proof)
""", """            let claimer = match account {
                Some(x) => deps.api.addr_validate(&x)?,
                None => info.sender.clone(),
            };

            claim_open(deps, info.sender, id, amount, claimer, proof)
"""), ("execute/claim.rs", """    airdrop.total_claimed = airdrop.total_claimed.checked_add(amount)?;
    if airdrop.total_claimed > airdrop.total_amount {
        return Err(ContractError::InsufficientAirdropFunds {});
    }

    // response
    let claim_msg = BankMsg::Send {
        to_address: claimer.to_string(),
        amount: coins(amount.u128(), &airdrop.denom),
    };

    let attrs = claim_open_event(""", """    airdrop.total_claimed = added(airdrop.total_claimed, amount, airdrop.total_amount)?;

    // response
    let claim_msg = BankMsg::Send {
        to_address: claimer.to_string(),
        amount: coins(amount.u128(), &airdrop.denom),
    };

    let attrs = claim_open_event("""), ("execute/claim.rs", """fn claim_open_event(
    sender""", """fn added(claimed: Uint128, amount: Uint128, total: Uint128) -> Result<Uint128, ContractError> {
    let next = claimed.checked_add(amount)?;
    if next <= total {
        Ok(next)
    } else {
        Err(ContractError::InsufficientAirdropFunds {})
    }
}

fn claim_open_event(
    sender"""))
R("drop_claim_remaining", ("execute/claim.rs", """    // claim
    airdrop.total_claimed = airdrop.total_claimed.checked_add(amount)?;
    if airdrop.total_claimed > airdrop.total_amount {
        return Err(ContractError::InsufficientAirdropFunds {});
    }

    // response
    let claim_msg = BankMsg::Send {
        to_address: claimer.to_string(),
        amount: coins(amount.u128(), &airdrop.denom),
    };

    let attrs = claim_open_event(""", """    // claim
    let remaining = airdrop.total_amount.saturating_sub(airdrop.total_claimed);
    if amount > remaining {
        return Err(ContractError::InsufficientAirdropFunds {});
    }
    airdrop.total_claimed = airdrop.total_claimed.checked_add(amount)?;

    // response
    let claim_msg = BankMsg::Send {
        to_address: claimer.to_string(),
        amount: coins(amount.u128(), &airdrop.denom),
    };

    let attrs = claim_open_event("""))
R("drop_has_log", ("state.rs", """    if CLAIM_LOGS.may_load(storage, (id, claim_key))?.is_some() {
        return Err(ContractError::AlreadyClaimed {
            airdrop_id: id,
            claim_key: claim_key.to_string(),
        });
    }

    Ok(())""", """    if !CLAIM_LOGS.has(storage, (id, claim_key)) {
        return Ok(());
    }
    Err(ContractError::AlreadyClaimed {
        airdrop_id: id,
        claim_key: claim_key.to_string(),
    })"""))
R("drop_log_first", ("execute/claim.rs", """    airdrops().save(deps.storage, airdrop_id, &airdrop.into())?;
    CLAIM_LOGS.save(deps.storage, (airdrop_id, claimer.as_str()), &amount)?;
""", """    CLAIM_LOGS.save(deps.storage, (airdrop_id, claimer.as_str()), &amount)?;
    airdrops().save(deps.storage, airdrop_id, &airdrop.into())?;
"""))
R("drop_log_update", ("execute/claim.rs", """    assert_not_claimed(deps.storage, airdrop_id, claimer.as_str())?;

    // verify claimer
""", """    // verify claimer
"""), ("execute/claim.rs", """    CLAIM_LOGS.save(deps.storage, (airdrop_id, claimer.as_str()), &amount)?;
""", """    assert_not_claimed(deps.storage, airdrop_id, claimer.as_str())?;
    CLAIM_LOGS.save(deps.storage, (airdrop_id, claimer.as_str()), &amount)?;
"""))
R("drop_merkle_loop", ("verify.rs", """    let hash = sha256_digest(user_input.as_bytes())?;

    let hash = proof.into_iter().try_fold(hash, |hash, p| {
        let mut proof_buf = [0; 32];
        hex::decode_to_slice(p, &mut proof_buf)?;
        let mut hashes = [hash, proof_buf];
        hashes.sort_unstable();

        sha256_digest(hashes.concat())
    })?;
""", """    let mut hash = sha256_digest(user_input.as_bytes())?;

    for p in proof {
        let mut sibling = [0; 32];
        hex::decode_to_slice(p, &mut sibling)?;
        let mut hashes = [sibling, hash];
        hashes.sort();
        hash = sha256_digest(hashes.concat())?;
    }
"""))
R("drop_merkle_if", ("verify.rs", """        let mut hashes = [hash, proof_buf];
        hashes.sort_unstable();

        sha256_digest(hashes.concat())
""", """        let hashes = if proof_buf < hash {
            [proof_buf, hash]
        } else {
            [hash, proof_buf]
        };

        sha256_digest(hashes.concat())
"""))
R("drop_merkle_root_helper", ("verify.rs", """    let mut root_buf: [u8; 32] = [0; 32];
    hex::decode_to_slice(root, &mut root_buf)?;
    if root_buf != hash {
        return Err(ContractError::InvalidProof {});
    }

    Ok(())
}

#[cfg""", """    if hash == decode32(root)? {
        Ok(())
    } else {
        Err(ContractError::InvalidProof {})
    }
}

fn decode32(s: &str) -> Result<[u8; 32], ContractError> {
    let mut buf = [0u8; 32];
    hex::decode_to_slice(s, &mut buf)?;
    Ok(buf)
}

#[cfg"""))
R("drop_leaf_push", ("verify.rs", """    let user_input = format!("{claim_proof}:{amount}");
""", """    let mut user_input = claim_proof.to_string();
    user_input.push(':');
    user_input.push_str(&amount.to_string());
"""))
R("drop_digest_short", ("verify.rs", """    let mut hasher = Sha256::new();

    hasher.update(bz);

    hasher
        .finalize()
        .as_slice()
        .try_into()
        .map_err(|_| ContractError::WrongLength {})
}

pub fn ripemd""", """    Ok(Sha256::digest(bz).into())
}

pub fn ripemd"""))
R("drop_signature_helper", ("execute/claim.rs", """    let digest_str = format!("{claim_hash}/{claimer}/{amount}");
    let digest = sha256_digest(digest_str.as_bytes())?;

    let ok = deps
        .api
        .secp256k1_verify(&digest, &hex::decode(claim_sign)?, &airdrop.signer_pub)?;
    if !ok {
        return Err(ContractError::invalid_signature("claim_bearer"));
    }
""", """    let parts = [claim_hash.clone(), claimer.to_string(), amount.to_string()];
    let digest = sha256_digest(parts.join("/").as_bytes())?;
    let sign = hex::decode(claim_sign)?;

    match deps.api.secp256k1_verify(&digest, &sign, &airdrop.signer_pub)? {
        true => {}
        false => return Err(ContractError::invalid_signature("claim_bearer")),
    }
"""))
R("drop_close_shared", ("execute/close.rs", """    let redeem_amount = airdrop.total_amount.checked_sub(airdrop.total_claimed)?;

    airdrop.closed_at = Some(env.block.height);

    // response
    let send_msg = BankMsg::Send {
        to_address: airdrop.creator.to_string(),
        amount: coins(redeem_amount.u128(), &airdrop.denom),
    };

    let attrs = close_event(info.sender, AirdropType::Open, airdrop_id, redeem_amount);
""", """    let redeem_amount = airdrop.total_amount.checked_sub(airdrop.total_claimed)?;
    let airdrop = OpenAirdrop {
        closed_at: Some(env.block.height),
        ..airdrop
    };

    // response
    let send_msg = BankMsg::Send {
        to_address: info.sender.to_string(),
        amount: vec![cosmwasm_std::coin(redeem_amount.u128(), airdrop.denom.clone())],
    };

    let attrs = close_event(info.sender, AirdropType::Open, airdrop_id, redeem_amount);
"""), ("execute/close.rs", """    airdrop_id: u64,
    mut airdrop: OpenAirdrop,
""", """    airdrop_id: u64,
    airdrop: OpenAirdrop,
"""))
R("drop_close_skip_zero", ("execute/close.rs", """    let attrs = close_event(info.sender, AirdropType::Open, airdrop_id, redeem_amount);

    // apply states
    airdrops().save(deps.storage, airdrop_id, &airdrop.into())?;

    Ok(Response::new().add_message(send_msg).add_attributes(attrs))
""", """    let attrs = close_event(info.sender, AirdropType::Open, airdrop_id, redeem_amount);

    // apply states
    airdrops().save(deps.storage, airdrop_id, &airdrop.into())?;

    let resp = Response::new().add_attributes(attrs);
    if redeem_amount.is_zero() {
        return Ok(resp);
    }
    Ok(resp.add_message(send_msg))
"""))
R("drop_guard_helper", ("execute/fund.rs", """    mut airdrop: OpenAirdrop,
) -> Result<Response, ContractError> {
    if airdrop.creator != info.sender {
        return Err(ContractError::Unauthorized {});
    }
    if airdrop.closed_at.is_some() {
        return Err(ContractError::AirdropClosed {});
    }
""", """    mut airdrop: OpenAirdrop,
) -> Result<Response, ContractError> {
    assert_fundable(&info.sender, &airdrop.creator, airdrop.closed_at)?;
"""), ("execute/fund.rs", """    mut airdrop: BearerAirdrop,
) -> Result<Response, ContractError> {
    if airdrop.creator != info.sender {
        return Err(ContractError::Unauthorized {});
    }
    if airdrop.closed_at.is_some() {
        return Err(ContractError::AirdropClosed {});
    }
""", """    mut airdrop: BearerAirdrop,
) -> Result<Response, ContractError> {
    assert_fundable(&info.sender, &airdrop.creator, airdrop.closed_at)?;
"""), ("execute/fund.rs", """fn fund_open(""", """fn assert_fundable(
    sender: &Addr,
    creator: &Addr,
    closed_at: Option<u64>,
) -> Result<(), ContractError> {
    match (sender == creator, closed_at) {
        (false, _) => Err(ContractError::Unauthorized {}),
        (true, Some(_)) => Err(ContractError::AirdropClosed {}),
        (true, None) => Ok(()),
    }
}

fn fund_open("""))
R("drop_fund_one_coin", ("execute/fund.rs", """    let additional_funds = cw_utils::must_pay(&info, &airdrop.denom)?;
    airdrop.total_amount = airdrop.total_amount.checked_add(additional_funds)?;

    // event attributes
    let attrs = fund_event(info.sender, AirdropType::Open, id, additional_funds);
""", """    let paid = cw_utils::one_coin(&info)?;
    if paid.denom != airdrop.denom {
        return Err(cw_utils::PaymentError::MissingDenom(airdrop.denom).into());
    }
    let additional_funds = paid.amount;
    airdrop.total_amount += additional_funds;

    // event attributes
    let attrs = fund_event(info.sender, AirdropType::Open, id, additional_funds);
"""))
R("drop_register_next_id", ("execute/register.rs", """    save_label(deps.storage, airdrop_id, &airdrop.label)?;
    airdrops().save(deps.storage, airdrop_id, &airdrop.into())?;
    LATEST_AIRDROP_ID.save(deps.storage, &(airdrop_id + 1))?;

    Ok(Response::new().add_attributes(attrs))
}

fn register_bearer_event""", """    LATEST_AIRDROP_ID.save(deps.storage, &airdrop_id.checked_add(1).unwrap())?;
    airdrops().save(deps.storage, airdrop_id, &airdrop.clone().into())?;
    save_label(deps.storage, airdrop_id, &airdrop.label)?;

    Ok(Response::new().add_attributes(attrs))
}

fn register_bearer_event"""))
R("drop_label_format", ("execute/register.rs", """    // make label with tx sender
    let label = label.map(|x| format!("{}/{x}", info.sender));

    // make open airdrop
""", """    let label = match label {
        Some(x) => Some([info.sender.as_str(), x.as_str()].join("/")),
        None => None,
    };

    // make open airdrop
"""))
R("drop_save_label_match", ("state.rs", """    if let Some(label) = label {
        if LABELS.has(storage, label) {
            return Err(ContractError::KeyAlreadyExists {
                typ: "label".to_string(),
                key: label.clone(),
            });
        }
        LABELS.save(storage, label, &id)?;
    }

    Ok(())""", """    let Some(label) = label else {
        return Ok(());
    };
    match LABELS.may_load(storage, label)? {
        Some(_) => Err(ContractError::KeyAlreadyExists {
            typ: "label".to_string(),
            key: label.clone(),
        }),
        None => Ok(LABELS.save(storage, label, &id)?),
    }"""))
R("drop_verify_early", ("query/claim.rs", """            let verify_result =
                verify_merkle_proof(&airdrop.merkle_root, proof, &account.unwrap(), amount);
            if let Err(e) = verify_result {
                return Ok(resp.fail(e));
            }
        }
""", """            let account = account.unwrap();
            match verify_merkle_proof(&airdrop.merkle_root, proof, &account, amount) {
                Ok(()) => return Ok(resp.ok()),
                Err(e) => return Ok(resp.fail(e)),
            }
        }
"""))
R("drop_label_query_split_once", ("query/label.rs", """    let airdrop_id = LABELS.load(deps.storage, &label)?;

    let splitted: Vec<_> = label.split('/').collect();
    let creator = splitted[0].to_string();
    let label = splitted[1..].join("/");
""", """    let airdrop_id = LABELS.load(deps.storage, &label)?;

    let (creator, label) = match label.split_once('/') {
        Some((c, l)) => (c.to_string(), l.to_string()),
        None => (label.clone(), String::new()),
    };
"""))
R("drop_list_collect_for", ("query/claim.rs", """    let resps = CLAIM_LOGS
        .prefix(airdrop_id)
        .range(deps.storage, min, max, order)
        .take(limit)
        .map(|item| {
            let (k, v) = item?;

            Ok(GetClaimResponse {
                id: airdrop_id,
                amount: v,
                claim_key: k,
            })
        })
        .collect::<StdResult<_>>()?;
""", """    let mut resps = vec![];
    for item in CLAIM_LOGS
        .prefix(airdrop_id)
        .range(deps.storage, min, max, order)
        .take(limit)
    {
        let (claim_key, amount) = item?;
        resps.push(GetClaimResponse {
            id: airdrop_id,
            amount,
            claim_key,
        });
    }
"""), ("query/claim.rs", "use cosmwasm_std::{Deps, Order, StdResult};", "use cosmwasm_std::{Deps, Order};"))
R("drop_index_fns", ("state.rs", """            |_, k| match k {
                Airdrop::Open(_) => "open",
                Airdrop::Bearer(_) => "bearer",
            },
""", """            |_, k| kind_of(k),
"""), ("state.rs", """            |_, k| match k {
                Airdrop::Open(inner) => inner.creator.clone(),
                Airdrop::Bearer(inner) => inner.creator.clone(),
            },
""", """            |_, k| creator_of(k).clone(),
"""), ("state.rs", """pub fn airdrops<'a>()""", """fn kind_of(a: &Airdrop) -> &'static str {
    if matches!(a, Airdrop::Open(_)) {
        "open"
    } else {
        "bearer"
    }
}

fn creator_of(a: &Airdrop) -> &Addr {
    match a {
        Airdrop::Open(x) => &x.creator,
        Airdrop::Bearer(x) => &x.creator,
    }
}

pub fn airdrops<'a>()"""))
R("drop_claims_range_option", ("query/claim.rs", """    let limit = get_and_check_limit(limit, MAX_LIMIT, DEFAULT_LIMIT)? as usize;
    let order = order.unwrap_or(RangeOrder::Asc).into();
    let (min, max) = match order {
        Order::Ascending => (start.map(Bound::exclusive), None),
        Order::Descending => (None, start.map(Bound::exclusive)),
    };
""", """    let ((min, max), limit, order) = ibcx_interface::range_option(start, limit, order)?;
"""), ("query/claim.rs", """    get_and_check_limit,
    types::RangeOrder,
    DEFAULT_LIMIT, MAX_LIMIT,
""", """    types::RangeOrder,
"""), ("query/claim.rs", """use cosmwasm_std::{Deps, Order, StdResult};
use cw_storage_plus::Bound;
""", """use cosmwasm_std::{Deps, StdResult};
"""))
R("drop_load_or_else", ("state.rs", """    let airdrop_id = match id {
        AirdropId::Id(id) => id,
        AirdropId::Label(label) => LABELS.load(storage, &label)?,
    };

    let airdrop = airdrops().load(storage, airdrop_id)?;

    Ok((airdrop_id, airdrop))""", """    let airdrop_id = resolve(storage, &id)?;
    airdrops()
        .load(storage, airdrop_id)
        .map(|airdrop| (airdrop_id, airdrop))
        .map_err(Into::into)"""), ("state.rs", """pub fn save_label(""", """fn resolve(storage: &dyn Storage, id: &AirdropId) -> Result<u64, ContractError> {
    Ok(match id {
        AirdropId::Id(id) => *id,
        AirdropId::Label(label) => LABELS.load(storage, label)?,
    })
}

pub fn save_label("""))
R("drop_migrate_if_let", ("contract.rs", """    if !msg.force.unwrap_or_default() {
        ibcx_utils::store_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;
    } else {
        cw2::set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;
    }
""", """    match msg.force {
        Some(true) => cw2::set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?,
        _ => {
            ibcx_utils::store_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;
        }
    }
"""))

OLD_LABEL = """    let splitted: Vec<_> = label.split('/').collect();
    let creator = splitted[0].to_string();
    let label = splitted[1..].join("/");
"""
for _n, _v in {
    "once": """    let (creator, label) = label.split_once('/').ok_or(ContractError::WrongLength {})?;
    let (creator, label) = (creator.to_string(), label.to_string());
""",
    "next": """    let mut it = label.split('/');
    let creator = it.next().unwrap_or_default().to_string();
    let label = it.collect::<Vec<_>>().join("/");
""",
    "splitn": """    let mut it = label.splitn(2, '/');
    let creator = it.next().unwrap_or_default().to_string();
    let label = it.next().unwrap_or_default().to_string();
""",
    "find": """    let at = label.find('/').unwrap_or(label.len());
    let creator = label[..at].to_string();
    let label = label[at + 1..].to_string();
""",
    "pattern": """    let parts: Vec<&str> = label.split('/').collect();
    let (creator, label) = match parts.as_slice() {
        [creator, rest @ ..] => (creator.to_string(), rest.join("/")),
        [] => (String::new(), String::new()),
    };
""",
}.items():
    R("drop_label_" + _n, ("query/label.rs", OLD_LABEL, _v))
