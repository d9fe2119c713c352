//! C18: decoding of the host's query responses.
use crate::env::*;
use crate::h_relay::*;
use crate::step::*;
use crate::vp::*;
use cosmos_sdk_proto::cosmos::{bank::v1beta1 as bank, base::query::v1beta1::PageResponse, base::v1beta1::Coin as PCoin, staking::v1beta1 as staking};
use cosmos_sdk_proto::cosmwasm::wasm::v1 as wasm;
use cosmos_sdk_proto::traits::Message;
use cosmwasm_std::*;
use cw_ica_controller::types::query_msg::*;
use serde::Deserialize;

pub const KINDS: [&str; 13] = ["/cosmos.bank.v1beta1.Query/Balance", "/cosmos.bank.v1beta1.Query/AllBalances", "/cosmos.bank.v1beta1.Query/SupplyOf", "/cosmos.bank.v1beta1.Query/DenomMetadata", "/cosmos.bank.v1beta1.Query/DenomsMetadata", "/cosmwasm.wasm.v1.Query/RawContractState", "/cosmwasm.wasm.v1.Query/SmartContractState", "/cosmwasm.wasm.v1.Query/ContractInfo", "/cosmos.staking.v1beta1.Query/Validator", "/cosmos.staking.v1beta1.Query/Validators", "/cosmos.staking.v1beta1.Query/Delegation", "/cosmos.staking.v1beta1.Query/DelegatorDelegations", "/cosmos.staking.v1beta1.Query/Params"];

/// Value source. `e2e`: values that travel through the acknowledgement and callback JSON.
#[derive(Clone, Copy)]
pub struct G { pub e2e: bool, pub v: usize, pub len: usize }
impl G {
    fn s(&self, n: usize) -> String { if hole() { return String::new() } if self.len > 0 { return string(self.len) } if self.v == 1 { String::new() } else { string(if self.e2e { 3 } else if self.v == 2 { 130 } else { n }) } }
    fn b(&self, n: usize) -> Vec<u8> { if hole() { return vec![] } if self.len > 0 { return bytes_of(self.len, &ANY) } bytes_of(if self.v == 1 { 0 } else if self.e2e { 3 } else if self.v == 2 { 130 } else { n }, &ANY) }
    fn n(&self, lim: u64) -> u64 { if hole() { 0 } else if self.e2e { [7, 1 << 31, lim][self.v % 3] } else { u64_in(0, lim) } }
    /// decimal text and its value
    fn amount(&self, i: usize) -> (String, u128) {
        if hole() { return ("0".into(), 0) }
        if self.e2e { return [("42", 42), ("0", 0), ("340282366920938463463374607431768211455", u128::MAX)].map(|(t, v): (&str, u128)| (t.to_string(), v))[(i + self.v) % 3].clone() }
        match self.v {
            0 => { let n = 1 + (i + 2) % 3; let t = string_of(n, &DIGIT); let v = t.bytes().fold(0u64, |a, b| a * 10 + (b - 48) as u64); (t, v as u128) }
            1 => ("0".into(), 0),
            2 => ("340282366920938463463374607431768211455".into(), u128::MAX),
            _ => { let d = string_of(1, &DIGIT); (["18446744073709551", &d, "16"].concat(), (18446744073709551u128 * 10 + (d.as_bytes()[0] - 48) as u128) * 100 + 16) }
        }
    }
    fn coin(&self, i: usize) -> (PCoin, Want) { let (t, v) = self.amount(i); let d = self.s(4 + i); (PCoin { denom: d.clone(), amount: t }, Want(d, v)) }
    fn list(&self) -> usize { if hole() { return 0 } match self.v { 1 => 0, 2 => 1, 3 => 3, _ => 2 } }
}
#[derive(Clone)]
pub struct Want(pub String, pub u128);
fn eq128(a: u128, b: u128) -> B { eq(&a.to_le_bytes(), &b.to_le_bytes()) }
fn coin_is(c: &Coin, w: &Want) -> B { seq(&c.denom, &w.0) & eq128(c.amount.u128(), w.1) }
pub type RCheck = Box<dyn Fn(&Option<IcaQueryResponse>)>;
fn metadata(g: G, i: usize) -> bank::Metadata {
    bank::Metadata { description: g.s(5), denom_units: (0..g.list()).map(|j| bank::DenomUnit { denom: g.s(4), exponent: if j == 0 && i == 0 { g.n(u32::MAX as u64) as u32 } else { 6 }, aliases: (0..g.list().saturating_sub(j)).map(|_| g.s(3)).collect() }).collect(), base: g.s(4 + i), display: g.s(6), name: g.s(7), symbol: g.s(3), uri: g.s(8), uri_hash: g.s(2) }
}
fn meta_is(m: &DenomMetadata, p: &bank::Metadata) -> B {
    let mut r = seq(&m.description, &p.description) & seq(&m.base, &p.base) & seq(&m.display, &p.display) & seq(&m.name, &p.name) & seq(&m.symbol, &p.symbol) & seq(&m.uri, &p.uri) & seq(&m.uri_hash, &p.uri_hash) & B::from(m.denom_units.len() == p.denom_units.len());
    for (a, b) in m.denom_units.iter().zip(&p.denom_units) {
        r = r & seq(&a.denom, &b.denom) & eq64(a.exponent as u64, b.exponent as u64) & B::from(a.aliases.len() == b.aliases.len());
        for (x, y) in a.aliases.iter().zip(&b.aliases) { r = r & seq(x, y) }
    }
    r
}
const RATES: [(&str, u128); 6] = [("0.100000000000000000", 100_000_000_000_000_000), ("0", 0), ("1", 1_000_000_000_000_000_000), ("0.000000000000000001", 1), ("0.05", 50_000_000_000_000_000), ("200000000000000000", 200_000_000_000_000_000_000_000_000_000_000_000)];
fn validator(g: G, i: usize) -> (staking::Validator, (String, [u128; 3])) {
    let op = g.s(6 + i);
    let r: Vec<_> = (0..3).map(|j| RATES[(g.v + i + j * 2 + if j == 2 { 1 } else { 0 }) % 6]).collect();
    (staking::Validator { operator_address: op.clone(), jailed: true, status: 3, tokens: "5".into(), delegator_shares: "7".into(), unbonding_height: 9, commission: Some(staking::Commission { commission_rates: Some(staking::CommissionRates { rate: r[0].0.into(), max_rate: r[1].0.into(), max_change_rate: r[2].0.into() }), update_time: None }), ..Default::default() }, (op, [r[0].1, r[1].1, r[2].1]))
}
fn val_is(v: &Validator, w: &(String, [u128; 3])) -> B { seq(&v.address, &w.0) & eq128(v.commission.atomics().u128(), w.1[0]) & eq128(v.max_commission.atomics().u128(), w.1[1]) & eq128(v.max_change_rate.atomics().u128(), w.1[2]) }
fn delegation(g: G, i: usize) -> (staking::DelegationResponse, (String, String, Want)) {
    let (d, v) = (g.s(6), g.s(7 + i));
    let (c, w) = g.coin(i);
    (staking::DelegationResponse { delegation: Some(staking::Delegation { delegator_address: d.clone(), validator_address: v.clone(), shares: "99".into() }), balance: Some(c) }, (d, v, w))
}
fn del_is(d: &cw_ica_controller::types::query_msg::Delegation, w: &(String, String, Want)) -> B { seq(&d.delegator, &w.0) & seq(&d.validator, &w.1) & coin_is(&d.amount, &w.2) }
fn all<A, W>(a: &[A], w: &[W], f: impl Fn(&A, &W) -> B) -> B { if a.len() != w.len() { return F } let mut r = T; for (x, y) in a.iter().zip(w) { r = r & f(x, y) } r }
fn empty_coin(c: &Coin) -> bool { c.denom.is_empty() && c.amount.is_zero() }

/// Response kind `k`: protobuf bytes and what must be reported (None: an error). `absent`: the top-level value is missing.
pub fn response(k: usize, g: G, absent: bool) -> (Vec<u8>, RCheck) {
    use BankQueryResponse as Bk;
    use IcaQueryResponse::*;
    use StakingQueryResponse as St;
    use WasmQueryResponse as Wm;
    macro_rules! want { ($p:pat => $e:expr, $id:expr) => { Box::new(move |r: &Option<IcaQueryResponse>| match r { $p => check($e, $id), _ => check(F, concat!("kind of ", $id)) }) } }
    let n = g.list();
    match k {
        0 | 2 => {
            let (c, w) = g.coin(0);
            let c = if absent { None } else { Some(c) };
            if k == 0 { (bank::QueryBalanceResponse { balance: c }.encode_to_vec(), want!(Some(Bank(Bk::Balance(b))) => if absent { empty_coin(&b.amount).into() } else { coin_is(&b.amount, &w) }, "balance")) }
            else { (bank::QuerySupplyOfResponse { amount: c }.encode_to_vec(), want!(Some(Bank(Bk::Supply(b))) => if absent { empty_coin(&b.amount).into() } else { coin_is(&b.amount, &w) }, "supply")) }
        }
        1 => { let (c, w): (Vec<_>, Vec<_>) = (0..n).map(|i| g.coin(i)).unzip(); (bank::QueryAllBalancesResponse { balances: c, pagination: None }.encode_to_vec(), want!(Some(Bank(Bk::AllBalances(b))) => all(&b.amount, &w, coin_is), "balances in order")) }
        3 => { let m = metadata(g, 0); (bank::QueryDenomMetadataResponse { metadata: if absent { None } else { Some(m.clone()) } }.encode_to_vec(), want!(Some(Bank(Bk::DenomMetadata(b))) => if absent { meta_is(&b.metadata, &bank::Metadata::default()) } else { meta_is(&b.metadata, &m) }, "denom metadata")) }
        4 => {
            let m: Vec<_> = (0..n).map(|i| metadata(g, i)).collect();
            let key = if absent { None } else { Some(g.b(5)) };
            (bank::QueryDenomsMetadataResponse { metadatas: m.clone(), pagination: key.clone().map(|k| PageResponse { next_key: k, total: 9 }) }.encode_to_vec(), want!(Some(Bank(Bk::AllDenomMetadata(b))) => all(&b.metadata, &m, meta_is) & eq(b.next_key.as_ref().map_or(&[][..], |k| k.as_slice()), key.as_deref().unwrap_or(&[])) & B::from(key.is_some() || b.next_key.is_none()), "denoms metadata and next key"))
        }
        5 => { let d = if absent { vec![] } else { g.b(5) }; (wasm::QueryRawContractStateResponse { data: d.clone() }.encode_to_vec(), want!(Some(Wasm(Wm::RawContractState(x))) => match x { None => B::from(d.is_empty()), Some(x) => eq(x, &d) & B::from(!d.is_empty()) }, "raw state")) }
        6 => { let d = if absent { vec![] } else { g.b(5) }; (wasm::QuerySmartContractStateResponse { data: d.clone() }.encode_to_vec(), want!(Some(Wasm(Wm::SmartContractState(x))) => eq(x, &d), "smart state")) }
        7 => {
            let (id, cr, ad, port) = (g.n(u64::MAX), g.s(6), if g.v == 3 { String::new() } else { g.s(5) }, if g.v == 0 { String::new() } else { g.s(4) });
            let ci = wasm::ContractInfo { code_id: id, creator: cr.clone(), admin: ad.clone(), label: "l".into(), ibc_port_id: port.clone(), ..Default::default() };
            (wasm::QueryContractInfoResponse { address: "addr".into(), contract_info: if absent { None } else { Some(ci) } }.encode_to_vec(), want!(Some(Wasm(Wm::ContractInfo(x))) => match x {
                None => B::from(absent),
                Some(x) => B::from(!absent && !x.pinned) & eq64(x.code_id, id) & seq(x.creator.as_str(), &cr) & oseq(&x.admin.as_ref().map(|a| a.to_string()), &if ad.is_empty() { None } else { Some(ad.clone()) }) & oseq(&x.ibc_port, &if port.is_empty() { None } else { Some(port.clone()) }),
            }, "contract info"))
        }
        8 => { let (v, w) = validator(g, 0); (staking::QueryValidatorResponse { validator: if absent { None } else { Some(v) } }.encode_to_vec(), want!(Some(Staking(St::Validator(x))) => match &x.validator { None => B::from(absent), Some(x) => B::from(!absent) & val_is(x, &w) }, "validator")) }
        9 => { let (v, w): (Vec<_>, Vec<_>) = (0..n).map(|i| validator(g, i)).unzip(); (staking::QueryValidatorsResponse { validators: v, pagination: None }.encode_to_vec(), want!(Some(Staking(St::AllValidators(x))) => all(&x.validators, &w, val_is), "validators in order")) }
        10 => {
            let (mut d, w) = delegation(g, 0);
            let inner = absent && !g.e2e && g.v == 2;
            if inner { d.delegation = None }
            (staking::QueryDelegationResponse { delegation_response: if absent && !inner { None } else { Some(d) } }.encode_to_vec(), want!(Some(Staking(St::Delegation(x))) => match &x.delegation { None => B::from(absent), Some(x) => B::from(!absent) & del_is(x, &w) }, "delegation"))
        }
        11 => {
            let (mut d, mut w): (Vec<_>, Vec<_>) = (0..n).map(|i| delegation(g, i)).unzip();
            if absent && n > 1 { d[0].delegation = None; w.remove(0); }
            (staking::QueryDelegatorDelegationsResponse { delegation_responses: d, pagination: None }.encode_to_vec(), want!(Some(Staking(St::AllDelegations(x))) => all(&x.delegations, &w, del_is), "delegations in order"))
        }
        _ => { let d = g.s(5); (staking::QueryParamsResponse { params: if absent { None } else { Some(staking::Params { bond_denom: d.clone(), max_validators: 100, ..Default::default() }) } }.encode_to_vec(), if absent { Box::new(|r: &Option<IcaQueryResponse>| check(r.is_none(), "missing params are an error")) } else { want!(Some(Staking(St::BondedDenom(x))) => seq(&x.denom, &d), "bonded denom") }) }
    }
}
use crate::api::decode;
/// C18: each kind, with values of every size and with absent values.
pub fn c18_values() {
    let k = choose(13);
    let absent = flip();
    let (d, c) = response(k, G { e2e: false, v: choose(4), len: 0 }, absent);
    cover(if absent { "absent" } else { "present" });
    match decode(KINDS[k], &d, false) { Some(r) => c(&r), None => check(F, "decoding does not abort") }
}
/// C18: short texts and byte strings of every length.
pub fn c18_lengths() {
    let k = choose(13);
    let (d, c) = response(k, G { e2e: false, v: [0, 3][choose(2)], len: 1 + choose(tier(9, 17)) }, false);
    cover("ran");
    match decode(KINDS[k], &d, false) { Some(r) => c(&r), None => check(F, "decoding does not abort") }
}
/// C18: one field empty (or zero) and the others not.
pub fn c18_holes() {
    let k = choose(13);
    set_hole(1 + choose(20));
    let (d, c) = response(k, G { e2e: false, v: [0, 3][choose(2)], len: 4 }, false);
    if hole() { return }
    set_hole(0);
    cover("ran");
    match decode(KINDS[k], &d, false) { Some(r) => c(&r), None => check(F, "decoding does not abort") }
}
/// C18: a delegation without a balance is an error or reported, not left out.
pub fn c18_no_balance() {
    let (n, at) = (1 + choose(3), choose(3));
    let (a, v) = (string(5), string(5));
    let one = |i: usize| staking::DelegationResponse { delegation: Some(staking::Delegation { delegator_address: a.clone(), validator_address: v.clone(), shares: "1".into() }), balance: if i == at { None } else { Some(PCoin { denom: "atom".into(), amount: "5".into() }) } };
    let single = flip();
    cover("ran");
    let r = if single { decode(KINDS[10], &staking::QueryDelegationResponse { delegation_response: Some(one(at)) }.encode_to_vec(), false) } else { decode(KINDS[11], &staking::QueryDelegatorDelegationsResponse { delegation_responses: (0..n).map(one).collect(), pagination: None }.encode_to_vec(), false) };
    match r {
        None => check(F, "decoding does not abort"),
        Some(None) => check(single || at < n, "a complete list decodes"),
        Some(Some(IcaQueryResponse::Staking(StakingQueryResponse::Delegation(x)))) => check(x.delegation.map_or(F, |d| seq(&d.delegator, &a) & seq(&d.validator, &v) & B::from(d.amount.amount.is_zero())), "not left out, no invented balance"),
        Some(Some(IcaQueryResponse::Staking(StakingQueryResponse::AllDelegations(x)))) => check(B::from(x.delegations.len() == n && x.delegations.iter().enumerate().all(|(i, d)| d.amount.amount.is_zero() == (i == at))), "not left out, no invented balance"),
        _ => check(F, "kind of delegations"),
    }
}
/// C18: through the acknowledgement to the callback's JSON, next to a raw query so that positions matter.
pub fn c18_callback() {
    let mut w = crate::h_hs::world_by(1, true, 0).freeing(ACK_FREE);
    let chan = w.chan.as_ref().unwrap().channel.endpoint.channel_id.clone();
    let cb = w.st.callback_address.clone().unwrap();
    w.save();
    let k = choose(13);
    let absent = flip();
    let (d, c) = response(k, G { e2e: true, v: choose(3), len: 0 }, absent);
    let first = flip();
    let raw = ("/raw".to_string(), true);
    let me = (KINDS[k].to_string(), false);
    w.s.put(&k_pending(&chan, 4), paths_json(&if first { [me, raw] } else { [raw, me] }).as_bytes());
    let rest = vec![7, 7];
    let res = if first { vec![d, rest] } else { vec![rest, d] };
    let Some(r) = do_ack(&mut w.s, ack_ok(&query_ack(11, &res, 0)), packet(&chan, 4), "relayer1") else { check(F, "processed"); return };
    let Some(m) = sole(&r.messages) else { check(F, "one callback"); return };
    let CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, .. }) = &m.msg else { check(F, "callback"); return };
    check(seq(contract_addr, &cb), "to the callback address");
    #[derive(Deserialize)] #[serde(rename_all = "snake_case")] enum R { ReceiveIcaCallback(C) }
    #[derive(Deserialize)] #[serde(rename_all = "snake_case")] enum C { OnAcknowledgementPacketCallback { query_result: IcaQueryResult } }
    let Ok(R::ReceiveIcaCallback(C::OnAcknowledgementPacketCallback { query_result })) = from_json(msg.as_slice()) else { check(F, "callback form"); return };
    match query_result {
        IcaQueryResult::Success { height, mut responses } => {
            cover("success");
            check(height == 11 && responses.len() == 2, "height and both responses");
            if responses.len() != 2 { return }
            let (mine, other) = if first { (responses.remove(0), responses.remove(0)) } else { let o = responses.remove(0); (responses.remove(0), o) };
            match other { IcaQueryResponse::Stargate { data, path } => check(data.as_slice() == [7, 7] && path == "/raw", "raw neighbour"), _ => check(F, "raw neighbour kind") }
            c(&Some(mine));
        }
        IcaQueryResult::Error(_) => { cover("error"); c(&None) }
    }
}
/// C18: raw responses pass byte for byte with their path, whatever the path.
pub fn c18_raw() {
    let p = match choose(3) { 0 => sized(&[0, 5, 40]), 1 => KINDS[choose(13)].to_string(), _ => "/cosmwasm.wasm.v1.Query/Code".into() };
    let d = bytes_of([0, 1, 7, 200][choose(4)], &ANY);
    cover("raw");
    match decode(&p, &d, true) { Some(Some(IcaQueryResponse::Stargate { data, path })) => { check(eq(&data, &d), "bytes unchanged"); check(seq(&path, &p), "path unchanged") } _ => check(F, "raw response") }
}
/// C18: amounts that are not numbers, or do not fit, are errors.
pub fn c18_bad_amount() {
    let n = choose(tier(3, 4));
    let bad = match choose(6) { 0 => string_of(n, &TEXT), 1 => "340282366920938463463374607431768211456".to_string(), 2 => "9".repeat(60), 3 => "1.5".into(), 4 => ["-", &string_of(1, &DIGIT)].concat(), _ => ["1", &string_of(1, &ANY7), "2"].concat() };
    let ok = !bad.is_empty() && bad.len() < 30 && bad.bytes().enumerate().all(|(i, b)| b.is_ascii_digit() || (i == 0 && b == b'+' && bad.len() > 1));
    let pos = choose(2);
    let c = |t: &str| PCoin { denom: "atom".into(), amount: t.into() };
    let two = |t: &str| if pos == 0 { vec![c(t), c("5")] } else { vec![c("5"), c(t)] };
    let del = |x: PCoin| staking::DelegationResponse { delegation: Some(staking::Delegation { delegator_address: "d".into(), validator_address: "v".into(), shares: "1".into() }), balance: Some(x) };
    let k = choose(5);
    let (path, d) = match k {
        0 => (0, bank::QueryBalanceResponse { balance: Some(c(&bad)) }.encode_to_vec()),
        1 => (2, bank::QuerySupplyOfResponse { amount: Some(c(&bad)) }.encode_to_vec()),
        2 => (1, bank::QueryAllBalancesResponse { balances: two(&bad), pagination: None }.encode_to_vec()),
        3 => (10, staking::QueryDelegationResponse { delegation_response: Some(del(c(&bad))) }.encode_to_vec()),
        _ => (11, staking::QueryDelegatorDelegationsResponse { delegation_responses: two(&bad).into_iter().map(del).collect(), pagination: None }.encode_to_vec()),
    };
    match decode(KINDS[path], &d, false) { Some(None) => { cover("error"); check(!ok, "a number is reported") } Some(Some(_)) => { cover("number"); check(ok, "what is not an amount is an error") } None => check(F, "decoding does not abort") }
}
static ANY7: Class = ASCII;
/// C18: rates that are not numbers are errors; a missing commission is not invented.
pub fn c18_bad_rate() {
    let bad = ["", "x", "1.0000000000000000001", "340282366920938463464", "-1", "0,5"][choose(6)].to_string();
    let at = choose(3);
    let t = |i: usize| if i == at { bad.clone() } else { "0.1".into() };
    let none = flip();
    let v = staking::Validator { operator_address: "v".into(), commission: if none { None } else { Some(staking::Commission { commission_rates: Some(staking::CommissionRates { rate: t(0), max_rate: t(1), max_change_rate: t(2) }), update_time: None }) }, ..Default::default() };
    let (k, d) = if flip() { (8, staking::QueryValidatorResponse { validator: Some(v) }.encode_to_vec()) } else { let good = validator(G { e2e: false, v: 0, len: 0 }, 0).0; (9, staking::QueryValidatorsResponse { validators: vec![good, v], pagination: None }.encode_to_vec()) };
    cover("ran");
    match decode(KINDS[k], &d, false) {
        Some(None) => {}
        Some(Some(IcaQueryResponse::Staking(StakingQueryResponse::Validator(x)))) if none => check(x.validator.map_or(true, |v| v.commission.is_zero() && v.max_commission.is_zero() && v.max_change_rate.is_zero()), "no invented commission"),
        Some(Some(IcaQueryResponse::Staking(StakingQueryResponse::AllValidators(x)))) if none => check(x.validators.get(1).map_or(false, |v| v.commission.is_zero() && v.max_commission.is_zero() && v.max_change_rate.is_zero()), "no invented commission"),
        _ => check(F, "an unreadable rate is an error"),
    }
}
/// C18: arbitrary bytes: what protobuf cannot decode is an error; what it can is reported as decoded.
pub fn c18_garbage() {
    let k = choose(13);
    let n = choose(tier(4, 5));
    let d = bytes_of(n, &ANY);
    let Some(r) = decode(KINDS[k], &d, false) else { check(F, "decoding does not abort"); return };
    macro_rules! ok { ($t:ty) => { <$t>::decode(&d[..]).ok() } }
    use IcaQueryResponse::*;
    let decodable = match k {
        0 => ok!(bank::QueryBalanceResponse).is_some(), 1 => ok!(bank::QueryAllBalancesResponse).is_some(), 2 => ok!(bank::QuerySupplyOfResponse).is_some(), 3 => ok!(bank::QueryDenomMetadataResponse).is_some(), 4 => ok!(bank::QueryDenomsMetadataResponse).is_some(),
        5 => match ok!(wasm::QueryRawContractStateResponse) { None => false, Some(m) => { match &r { Some(Wasm(WasmQueryResponse::RawContractState(x))) => check(match x { None => B::from(m.data.is_empty()), Some(x) => eq(x, &m.data) }, "raw state as decoded"), _ => check(F, "raw state kind") } true } },
        6 => match ok!(wasm::QuerySmartContractStateResponse) { None => false, Some(m) => { match &r { Some(Wasm(WasmQueryResponse::SmartContractState(x))) => check(eq(x, &m.data), "smart state as decoded"), _ => check(F, "smart state kind") } true } },
        7 => ok!(wasm::QueryContractInfoResponse).is_some(), 8 => ok!(staking::QueryValidatorResponse).is_some(), 9 => ok!(staking::QueryValidatorsResponse).is_some(), 10 => ok!(staking::QueryDelegationResponse).is_some(), 11 => ok!(staking::QueryDelegatorDelegationsResponse).is_some(), _ => ok!(staking::QueryParamsResponse).is_some(),
    };
    match r { Some(_) => { cover("decoded"); check(decodable, "undecodable data is an error") } None => cover("error") }
}
/// C18: a response for a path that is not supported is an error.
pub fn c18_unknown() {
    let p = match choose(4) { 0 => "/cosmwasm.wasm.v1.Query/Code".to_string(), 1 => ["/cosmos.bank.v1beta1.Query/", &string(3)].concat(), 2 => ["/cosmos.staking.v1beta1.Query/", &string(3)].concat(), _ => string(12) };
    cover("ran");
    check(matches!(decode(&p, &[], false), Some(None)), "unknown kinds are errors");
}
crate::harnesses!(REG: c18_values c18_lengths c18_holes c18_no_balance c18_callback c18_raw c18_bad_amount c18_bad_rate c18_garbage c18_unknown);
