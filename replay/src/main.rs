//! Runs entry points of the real contracts (as compiled from /repo) on concrete scenarios: one JSON object per input
//! line (raw storage, answers of external queries, env, info, message) -> one JSON object per output line.
use base64::Engine;
use cosmwasm_std::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::BufRead;
use std::panic::{catch_unwind, AssertUnwindSafe};

struct AnyApi;

impl Api for AnyApi {
    fn addr_validate(&self, human: &str) -> StdResult<Addr> {
        if human.is_empty() || human.starts_with("invalid") || human.contains('/') {
            return Err(StdError::generic_err("invalid address"));
        }
        Ok(Addr::unchecked(human))
    }
    fn addr_canonicalize(&self, human: &str) -> StdResult<CanonicalAddr> {
        self.addr_validate(human)?;
        Ok(CanonicalAddr(Binary(human.as_bytes().to_vec())))
    }
    fn addr_humanize(&self, c: &CanonicalAddr) -> StdResult<Addr> {
        Ok(Addr::unchecked(String::from_utf8_lossy(c.as_slice())))
    }
    fn secp256k1_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        Ok(false)
    }
    fn secp256k1_recover_pubkey(&self, _: &[u8], _: &[u8], _: u8) -> Result<Vec<u8>, RecoverPubkeyError> {
        Ok(vec![])
    }
    fn ed25519_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        Ok(false)
    }
    fn ed25519_batch_verify(&self, _: &[&[u8]], _: &[&[u8]], _: &[&[u8]]) -> Result<bool, VerificationError> {
        Ok(false)
    }
    fn debug(&self, _: &str) {}
}

struct Table {
    answers: Vec<(Value, Value)>,
    asked: RefCell<Vec<Value>>,
}

fn strip(v: &mut Value) {
    match v {
        Value::Object(m) => {
            m.retain(|_, x| !x.is_null());
            m.values_mut().for_each(strip);
        }
        Value::Array(l) => l.iter_mut().for_each(strip),
        _ => {}
    }
}

fn norm(mut v: Value) -> Value {
    // the message of a smart query is compared as JSON, not as text
    if let Some(m) = v.pointer_mut("/wasm/smart/msg") {
        if let Some(s) = m.as_str() {
            if let Ok(b) = base64::engine::general_purpose::STANDARD.decode(s) {
                if let Ok(x) = serde_json::from_slice::<Value>(&b) {
                    *m = x;
                }
            }
        }
    }
    strip(&mut v);
    v
}

impl Querier for Table {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        let req: Value = match serde_json::from_slice(bin) {
            Ok(v) => norm(v),
            Err(e) => {
                return SystemResult::Err(SystemError::InvalidRequest {
                    error: e.to_string(),
                    request: bin.into(),
                })
            }
        };
        for (q, a) in &self.answers {
            if *q == req {
                if let Some(b) = a.get("raw") {
                    let b = base64::engine::general_purpose::STANDARD.decode(b.as_str().unwrap()).unwrap();
                    return SystemResult::Ok(ContractResult::Ok(b.into()));
                }
                if let Some(x) = a.get("ok") {
                    return SystemResult::Ok(ContractResult::Ok(x.to_string().into_bytes().into()));
                }
                return SystemResult::Ok(ContractResult::Err("scenario error".to_string()));
            }
        }
        self.asked.borrow_mut().push(req);
        SystemResult::Ok(ContractResult::Err("no such answer in the scenario".to_string()))
    }
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

type R = Result<Value, String>;

fn res<T: serde::Serialize, E: std::fmt::Display>(r: Result<T, E>) -> R {
    match r {
        Ok(v) => Ok(serde_json::to_value(v).unwrap()),
        Err(e) => Err(e.to_string()),
    }
}

#[allow(unused_macros)]
macro_rules! ex {
    ($f:path, $deps:expr, $s:expr) => {
        res($f(
            $deps,
            serde_json::from_value($s["env"].clone()).unwrap(),
            serde_json::from_value($s["info"].clone()).unwrap(),
            match cosmwasm_std::from_json($s["msg"].to_string().as_bytes()) { Ok(m) => m, Err(e) => return Err(format!("unparsable message: {e}")) },
        ))
    };
}
#[allow(unused_macros)]
macro_rules! em {
    ($f:path, $deps:expr, $s:expr) => {
        res($f(
            $deps,
            serde_json::from_value($s["env"].clone()).unwrap(),
            match cosmwasm_std::from_json($s["msg"].to_string().as_bytes()) { Ok(m) => m, Err(e) => return Err(format!("unparsable message: {e}")) },
        ))
    };
}

#[allow(unused_variables, unused_mut, unreachable_code)]
fn run(contract: &str, entry: &str, s: &Value, storage: &mut MemoryStorage, q: &Table) -> R {
    let api = AnyApi;
    macro_rules! dm {
        () => {
            DepsMut { storage: &mut *storage, api: &api, querier: QuerierWrapper::new(q) }
        };
    }
    macro_rules! d {
        () => {
            Deps { storage: &*storage, api: &api, querier: QuerierWrapper::new(q) }
        };
    }
    match (contract, entry) {
        #[cfg(feature = "astroport_factory")]
        ("astroport_factory", "instantiate") => ex!(astroport_factory::contract::instantiate, dm!(), s),
        #[cfg(feature = "astroport_factory")]
        ("astroport_factory", "execute") => ex!(astroport_factory::contract::execute, dm!(), s),
        #[cfg(feature = "astroport_factory")]
        ("astroport_factory", "query") => em!(astroport_factory::contract::query, d!(), s),
        #[cfg(feature = "astroport_factory")]
        ("astroport_factory", "reply") => em!(astroport_factory::contract::reply, dm!(), s),
        #[cfg(feature = "astroport_factory")]
        ("astroport_factory", "migrate") => em!(astroport_factory::contract::migrate, dm!(), s),
        #[cfg(feature = "astroport_pair")]
        ("astroport_pair", "instantiate") => ex!(astroport_pair::contract::instantiate, dm!(), s),
        #[cfg(feature = "astroport_pair")]
        ("astroport_pair", "execute") => ex!(astroport_pair::contract::execute, dm!(), s),
        #[cfg(feature = "astroport_pair")]
        ("astroport_pair", "query") => em!(astroport_pair::contract::query, d!(), s),
        #[cfg(feature = "astroport_pair")]
        ("astroport_pair", "reply") => em!(astroport_pair::contract::reply, dm!(), s),
        #[cfg(feature = "astroport_pair")]
        ("astroport_pair", "migrate") => em!(astroport_pair::contract::migrate, dm!(), s),
        #[cfg(feature = "astroport_pair_converter")]
        ("astroport_pair_converter", "instantiate") => ex!(astroport_pair_converter::contract::instantiate, dm!(), s),
        #[cfg(feature = "astroport_pair_converter")]
        ("astroport_pair_converter", "execute") => ex!(astroport_pair_converter::contract::execute, dm!(), s),
        #[cfg(feature = "astroport_pair_converter")]
        ("astroport_pair_converter", "migrate") => em!(astroport_pair_converter::contract::migrate, dm!(), s),
        #[cfg(feature = "astroport_pair_converter")]
        ("astroport_pair_converter", "query") => em!(astroport_pair_converter::queries::query, d!(), s),
        #[cfg(feature = "astroport_pair_concentrated")]
        ("astroport_pair_concentrated", "instantiate") => ex!(astroport_pair_concentrated::contract::instantiate, dm!(), s),
        #[cfg(feature = "astroport_pair_concentrated")]
        ("astroport_pair_concentrated", "execute") => ex!(astroport_pair_concentrated::contract::execute, dm!(), s),
        #[cfg(feature = "astroport_pair_concentrated")]
        ("astroport_pair_concentrated", "reply") => em!(astroport_pair_concentrated::contract::reply, dm!(), s),
        #[cfg(feature = "astroport_pair_concentrated")]
        ("astroport_pair_concentrated", "migrate") => em!(astroport_pair_concentrated::contract::migrate, dm!(), s),
        #[cfg(feature = "astroport_pair_concentrated")]
        ("astroport_pair_concentrated", "query") => em!(astroport_pair_concentrated::queries::query, d!(), s),
        #[cfg(feature = "astroport_pair_stable")]
        ("astroport_pair_stable", "instantiate") => ex!(astroport_pair_stable::contract::instantiate, dm!(), s),
        #[cfg(feature = "astroport_pair_stable")]
        ("astroport_pair_stable", "execute") => ex!(astroport_pair_stable::contract::execute, dm!(), s),
        #[cfg(feature = "astroport_pair_stable")]
        ("astroport_pair_stable", "query") => em!(astroport_pair_stable::contract::query, d!(), s),
        #[cfg(feature = "astroport_pair_stable")]
        ("astroport_pair_stable", "reply") => em!(astroport_pair_stable::contract::reply, dm!(), s),
        #[cfg(feature = "astroport_pair_stable")]
        ("astroport_pair_stable", "migrate") => em!(astroport_pair_stable::contract::migrate, dm!(), s),
        #[cfg(feature = "astroport_pair_transmuter")]
        ("astroport_pair_transmuter", "instantiate") => ex!(astroport_pair_transmuter::contract::instantiate, dm!(), s),
        #[cfg(feature = "astroport_pair_transmuter")]
        ("astroport_pair_transmuter", "execute") => ex!(astroport_pair_transmuter::contract::execute, dm!(), s),
        #[cfg(feature = "astroport_pair_transmuter")]
        ("astroport_pair_transmuter", "reply") => em!(astroport_pair_transmuter::contract::reply, dm!(), s),
        #[cfg(feature = "astroport_pair_transmuter")]
        ("astroport_pair_transmuter", "migrate") => em!(astroport_pair_transmuter::contract::migrate, dm!(), s),
        #[cfg(feature = "astroport_pair_transmuter")]
        ("astroport_pair_transmuter", "query") => em!(astroport_pair_transmuter::queries::query, d!(), s),
        #[cfg(feature = "astroport_pair_xastro")]
        ("astroport_pair_xastro", "instantiate") => ex!(astroport_pair_xastro::contract::instantiate, dm!(), s),
        #[cfg(feature = "astroport_pair_xastro")]
        ("astroport_pair_xastro", "execute") => ex!(astroport_pair_xastro::contract::execute, dm!(), s),
        #[cfg(feature = "astroport_pair_xastro")]
        ("astroport_pair_xastro", "query") => em!(astroport_pair_xastro::queries::query, d!(), s),
        #[cfg(feature = "astroport_pair_xyk_sale_tax")]
        ("astroport_pair_xyk_sale_tax", "instantiate") => ex!(astroport_pair_xyk_sale_tax::contract::instantiate, dm!(), s),
        #[cfg(feature = "astroport_pair_xyk_sale_tax")]
        ("astroport_pair_xyk_sale_tax", "execute") => ex!(astroport_pair_xyk_sale_tax::contract::execute, dm!(), s),
        #[cfg(feature = "astroport_pair_xyk_sale_tax")]
        ("astroport_pair_xyk_sale_tax", "query") => em!(astroport_pair_xyk_sale_tax::contract::query, d!(), s),
        #[cfg(feature = "astroport_pair_xyk_sale_tax")]
        ("astroport_pair_xyk_sale_tax", "reply") => em!(astroport_pair_xyk_sale_tax::contract::reply, dm!(), s),
        #[cfg(feature = "astroport_pair_xyk_sale_tax")]
        ("astroport_pair_xyk_sale_tax", "migrate") => em!(astroport_pair_xyk_sale_tax::contract::migrate, dm!(), s),
        #[cfg(feature = "astroport_router")]
        ("astroport_router", "instantiate") => ex!(astroport_router::contract::instantiate, dm!(), s),
        #[cfg(feature = "astroport_router")]
        ("astroport_router", "execute") => ex!(astroport_router::contract::execute, dm!(), s),
        #[cfg(feature = "astroport_router")]
        ("astroport_router", "query") => em!(astroport_router::contract::query, d!(), s),
        #[cfg(feature = "astroport_router")]
        ("astroport_router", "reply") => em!(astroport_router::contract::reply, dm!(), s),
        #[cfg(feature = "astroport_router")]
        ("astroport_router", "migrate") => em!(astroport_router::contract::migrate, dm!(), s),
        #[cfg(feature = "astroport_whitelist")]
        ("astroport_whitelist", "instantiate") => ex!(astroport_whitelist::contract::instantiate, dm!(), s),
        #[cfg(feature = "astroport_whitelist")]
        ("astroport_whitelist", "execute") => ex!(astroport_whitelist::contract::execute, dm!(), s),
        #[cfg(feature = "astroport_whitelist")]
        ("astroport_whitelist", "query") => em!(astroport_whitelist::contract::query, d!(), s),
        #[cfg(feature = "astro_token_converter")]
        ("astro_token_converter", "instantiate") => ex!(astro_token_converter::contract::instantiate, dm!(), s),
        #[cfg(feature = "astro_token_converter")]
        ("astro_token_converter", "execute") => ex!(astro_token_converter::contract::execute, dm!(), s),
        #[cfg(feature = "astro_token_converter")]
        ("astro_token_converter", "query") => em!(astro_token_converter::contract::query, d!(), s),
        #[cfg(feature = "astro_token_converter_neutron")]
        ("astro_token_converter_neutron", "instantiate") => ex!(astro_token_converter_neutron::contract::instantiate, dm!(), s),
        #[cfg(feature = "astro_token_converter_neutron")]
        ("astro_token_converter_neutron", "query") => em!(astro_token_converter_neutron::contract::query, d!(), s),
        #[cfg(feature = "astroport_fee_granter")]
        ("astroport_fee_granter", "instantiate") => ex!(astroport_fee_granter::contract::instantiate, dm!(), s),
        #[cfg(feature = "astroport_fee_granter")]
        ("astroport_fee_granter", "execute") => ex!(astroport_fee_granter::contract::execute, dm!(), s),
        #[cfg(feature = "astroport_fee_granter")]
        ("astroport_fee_granter", "query") => em!(astroport_fee_granter::query::query, d!(), s),
        #[cfg(feature = "astroport_native_coin_registry")]
        ("astroport_native_coin_registry", "instantiate") => ex!(astroport_native_coin_registry::contract::instantiate, dm!(), s),
        #[cfg(feature = "astroport_native_coin_registry")]
        ("astroport_native_coin_registry", "execute") => ex!(astroport_native_coin_registry::contract::execute, dm!(), s),
        #[cfg(feature = "astroport_native_coin_registry")]
        ("astroport_native_coin_registry", "query") => em!(astroport_native_coin_registry::contract::query, d!(), s),
        #[cfg(feature = "astroport_native_coin_registry")]
        ("astroport_native_coin_registry", "migrate") => em!(astroport_native_coin_registry::contract::migrate, dm!(), s),
        #[cfg(feature = "astroport_oracle")]
        ("astroport_oracle", "instantiate") => ex!(astroport_oracle::contract::instantiate, dm!(), s),
        #[cfg(feature = "astroport_oracle")]
        ("astroport_oracle", "execute") => ex!(astroport_oracle::contract::execute, dm!(), s),
        #[cfg(feature = "astroport_oracle")]
        ("astroport_oracle", "query") => em!(astroport_oracle::contract::query, d!(), s),
        #[cfg(feature = "astroport_oracle")]
        ("astroport_oracle", "migrate") => em!(astroport_oracle::contract::migrate, dm!(), s),
        #[cfg(feature = "astroport_tokenfactory_tracker")]
        ("astroport_tokenfactory_tracker", "instantiate") => ex!(astroport_tokenfactory_tracker::contract::instantiate, dm!(), s),
        #[cfg(feature = "astroport_tokenfactory_tracker")]
        ("astroport_tokenfactory_tracker", "migrate") => em!(astroport_tokenfactory_tracker::contract::migrate, dm!(), s),
        #[cfg(feature = "astroport_tokenfactory_tracker")]
        ("astroport_tokenfactory_tracker", "sudo") => em!(astroport_tokenfactory_tracker::contract::sudo, dm!(), s),
        #[cfg(feature = "astroport_tokenfactory_tracker")]
        ("astroport_tokenfactory_tracker", "query") => em!(astroport_tokenfactory_tracker::query::query, d!(), s),
        #[cfg(feature = "astroport_incentives")]
        ("astroport_incentives", "execute") => ex!(astroport_incentives::execute::execute, dm!(), s),
        #[cfg(feature = "astroport_incentives")]
        ("astroport_incentives", "instantiate") => ex!(astroport_incentives::instantiate::instantiate, dm!(), s),
        #[cfg(feature = "astroport_incentives")]
        ("astroport_incentives", "migrate") => em!(astroport_incentives::migrate::migrate, dm!(), s),
        #[cfg(feature = "astroport_incentives")]
        ("astroport_incentives", "query") => em!(astroport_incentives::query::query, d!(), s),
        #[cfg(feature = "astroport_incentives")]
        ("astroport_incentives", "reply") => em!(astroport_incentives::reply::reply, dm!(), s),
        #[cfg(feature = "astroport_maker")]
        ("astroport_maker", "instantiate") => ex!(astroport_maker::contract::instantiate, dm!(), s),
        #[cfg(feature = "astroport_maker")]
        ("astroport_maker", "execute") => ex!(astroport_maker::contract::execute, dm!(), s),
        #[cfg(feature = "astroport_maker")]
        ("astroport_maker", "query") => em!(astroport_maker::contract::query, d!(), s),
        #[cfg(feature = "astroport_maker")]
        ("astroport_maker", "migrate") => em!(astroport_maker::contract::migrate, dm!(), s),
        #[cfg(feature = "astroport_maker")]
        ("astroport_maker", "reply") => em!(astroport_maker::reply::reply, dm!(), s),
        #[cfg(feature = "astroport_staking")]
        ("astroport_staking", "instantiate") => ex!(astroport_staking::contract::instantiate, dm!(), s),
        #[cfg(feature = "astroport_staking")]
        ("astroport_staking", "execute") => ex!(astroport_staking::contract::execute, dm!(), s),
        #[cfg(feature = "astroport_staking")]
        ("astroport_staking", "query") => em!(astroport_staking::contract::query, d!(), s),
        #[cfg(feature = "astroport_staking")]
        ("astroport_staking", "reply") => em!(astroport_staking::contract::reply, dm!(), s),
        #[cfg(feature = "astroport_staking")]
        ("astroport_staking", "migrate") => em!(astroport_staking::migrate::migrate, dm!(), s),
        #[cfg(feature = "astroport_vesting")]
        ("astroport_vesting", "instantiate") => ex!(astroport_vesting::contract::instantiate, dm!(), s),
        #[cfg(feature = "astroport_vesting")]
        ("astroport_vesting", "execute") => ex!(astroport_vesting::contract::execute, dm!(), s),
        #[cfg(feature = "astroport_vesting")]
        ("astroport_vesting", "query") => em!(astroport_vesting::contract::query, d!(), s),
        #[cfg(feature = "astroport_vesting")]
        ("astroport_vesting", "migrate") => em!(astroport_vesting::contract::migrate, dm!(), s),
        #[cfg(feature = "astroport_xastro_token")]
        ("astroport_xastro_token", "instantiate") => ex!(astroport_xastro_token::contract::instantiate, dm!(), s),
        #[cfg(feature = "astroport_xastro_token")]
        ("astroport_xastro_token", "execute") => ex!(astroport_xastro_token::contract::execute, dm!(), s),
        #[cfg(feature = "astroport_xastro_token")]
        ("astroport_xastro_token", "query") => em!(astroport_xastro_token::contract::query, d!(), s),
        #[cfg(feature = "astroport_xastro_token")]
        ("astroport_xastro_token", "migrate") => em!(astroport_xastro_token::contract::migrate, dm!(), s),
        _ => panic!("unknown entry point {contract} {entry}"),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let s: Value = serde_json::from_str(&line).unwrap();
        let mut storage = MemoryStorage::new();
        for kv in s["storage"].as_array().unwrap() {
            storage.set(&unhex(kv[0].as_str().unwrap()), &unhex(kv[1].as_str().unwrap()));
        }
        let q = Table {
            answers: s["queries"].as_array().unwrap().iter().map(|x| (x[0].clone(), x[1].clone())).collect(),
            asked: RefCell::new(vec![]),
        };
        let r = catch_unwind(AssertUnwindSafe(|| {
            run(s["contract"].as_str().unwrap(), s["entry"].as_str().unwrap(), &s, &mut storage, &q)
        }));
        let mut o = match r {
            Ok(Ok(v)) => json!({ "ok": v }),
            Ok(Err(e)) => json!({ "err": e }),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|x| x.to_string()));
                json!({ "panic": m.unwrap_or_default() })
            }
        };
        o["storage"] = storage
            .range(None, None, Order::Ascending)
            .map(|(k, v)| json!([hex(&k), hex(&v)]))
            .collect();
        o["unanswered"] = Value::Array(q.asked.borrow().clone());
        println!("{o}");
    }
}
