//! C21 migration, C22 queries, C23 helpers, C24 JSON interface.
use crate::env::*;
use crate::vp::*;
use cosmwasm_std::*;
use cw_ica_controller::contract;
use cw_ica_controller::helpers::*;
use cw_ica_controller::types::callbacks::IcaControllerCallbackMsg;
use cw_ica_controller::types::keys;
use cw_ica_controller::types::msg::*;
use serde::Deserialize;
use std::cell::RefCell;

// ---------- C21 ----------
const NAME: &str = "crates.io:cw-ica-controller";
fn cw2(s: &mut Store, name: &str, ver: &str) { s.put(K_CW2, ["{\"contract\":\"", name, "\",\"version\":\"", ver, "\"}"].concat().as_bytes()) }
/// A numeric part without leading zeros, or None.
fn part(b: &[u8]) -> Option<u64> {
    if b.is_empty() || (b[0] == b'0' && b.len() > 1) { return None }
    let mut v = 0u64;
    for &x in b { if !x.is_ascii_digit() { return None } v = v * 10 + (x - 48) as u64 }
    Some(v)
}
/// major.minor.patch
fn triple(s: &str) -> Option<[u64; 3]> {
    let mut it = s.split('.');
    let r = [part(it.next()?.as_bytes())?, part(it.next()?.as_bytes())?, part(it.next()?.as_bytes())?];
    if it.next().is_some() { None } else { Some(r) }
}
fn migrate(w: &mut World) -> Option<Response> { outcome(|| contract::migrate(deps!(w.s), any_env(), MigrateMsg {})) }
fn migrated(w: &World, before: &Store, r: &Response) {
    check(r.messages.is_empty(), "migration sends nothing");
    let v: Option<MVersion> = get(&w.s, K_CW2);
    check(v.map_or(F, |v| seq(&v.contract, NAME) & seq(&v.version, keys::CONTRACT_VERSION)), "running name and version recorded");
    check(same_except(before, &w.s, &[K_CW2]), "nothing else changes");
}
fn any_world() -> World { crate::h_hs::world_by([0, 1, 2][choose(3)], flip(), choose(2)) }
/// C21: every release version with up to two-digit parts near the running one.
pub fn c21_versions() {
    let mut w = World::opened(false, 0).freeing(ACK_FREE);
    let d = |n| string_of(n, &DIGIT);
    let now = triple(keys::CONTRACT_VERSION).expect("release version");
    let prev = match choose(tier(5, 6)) {
        0 => [&d(1), ".", &d(2), ".", &d(1)].concat(),
        1 => [&now[0].to_string(), ".", &now[1].to_string(), ".", &d(1)].concat(),
        2 => [&now[0].to_string(), ".", &d(1), ".", &d(2)].concat(),
        3 => [&now[0].to_string(), ".", &d(3), ".", "0"].concat(),
        4 => [&now[0].to_string(), ".", &now[1].to_string(), ".", &d(2)].concat(),
        _ => [&d(2), ".", &d(2), ".", &d(1)].concat(),
    };
    w.save();
    cw2(&mut w.s, NAME, &prev);
    let before = w.s.clone();
    let r = migrate(&mut w);
    let older = triple(&prev).map_or(false, |p| p < now);
    match r { Some(r) => { cover("migrated"); check(older, "only from an older version"); migrated(&w, &before, &r) } None => { cover("refused"); check(!older, "an older version migrates") } }
}
/// C21: pre-releases, build metadata, malformed versions.
pub fn c21_special() {
    let mut w = any_world().freeing(ACK_FREE);
    let [a, b, c] = triple(keys::CONTRACT_VERSION).expect("release version");
    let rel = |b: u64| [a.to_string(), b.to_string(), c.to_string()].join(".");
    let k = choose(16);
    let t = string_of(2, &LOWER);
    let (prev, ok) = match k {
        0 => (rel(b) + "-" + &t, true), 1 => (rel(b) + "-rc.1", true), 2 => (rel(b) + "-alpha.1.beta", true), 3 => (rel(b + 1) + "-" + &t, false), 4 => (rel(b - 1) + "-rc1", true), 5 => (rel(b - 1) + "+" + &t, true),
        6 => (rel(b) + "+" + &t, false), 7 => (rel(b), false), 8 => ("v".to_string() + &rel(b - 1), false), 9 => (String::new(), false), 10 => ("0.1".into(), false), 11 => ("0.1.0.0".into(), false), 12 => (rel(b) + "-", false), 13 => ("00.1.0".into(), false), 14 => ("0.1.0 ".into(), false), _ => ([&t, ".1.0"].concat(), false),
    };
    w.save();
    cw2(&mut w.s, NAME, &prev);
    let before = w.s.clone();
    match migrate(&mut w) { Some(r) => { cover("migrated"); check(ok, "older by semantic versioning"); migrated(&w, &before, &r) } None => { cover("refused"); check(!ok, "an older version migrates") } }
}
pub static LOWER: Class = { let mut c = [0u64; 4]; let mut i = 97; while i <= 122 { c[1] |= 1 << (i - 64); i += 1 } c };
/// C21: name, missing record, encoding of the account.
pub fn c21_identity() {
    let mut w = any_world().freeing(ACK_FREE);
    let ax = pairs(2);
    let k = ax.pick(0, 12);
    let ver = match choose(4) { 0 => "0.1.0".to_string(), 1 => "0.0.0".into(), 2 => ["0.0.", &string_of(1, &DIGIT)].concat(), _ => "0.1.0-rc.1".into() };
    let enc = match choose(4) { 0 => PROTO.to_string(), 1 => PJSON.into(), 2 => "json".into(), _ => string(6) };
    let has = w.st.ica_info.is_some();
    if let Some(i) = &mut w.st.ica_info { i.encoding = enc.clone(); i.ica_address = string([9, 0, 1, 43][ax.pick(1, 4)]) }
    w.save();
    let name = match k { 0 | 4 => NAME.to_string(), 1 => string(NAME.len()), 2 => [NAME, "2"].concat(), 3 => NAME[..NAME.len() - 1].into(), 5 => String::new(), 6 => NAME["crates.io:".len()..].into(), 7 => NAME.to_uppercase(), 8 => [" ", NAME].concat(), 9 => NAME[1..].into(), 10 => [NAME, " "].concat(), _ => "crates.io:".into() };
    if k == 4 { w.s.remove(K_CW2) } else { cw2(&mut w.s, &name, &ver) }
    let before = w.s.clone();
    let ok = if k == 4 { F } else { seq(&name, NAME) & if has { seq(&enc, PROTO) } else { T } };
    match migrate(&mut w) { Some(r) => { cover("migrated"); check(ok, "own name and protobuf account only"); migrated(&w, &before, &r) } None => { cover("refused"); check(!ok, "own older contract migrates") } }
}
/// C21: two migrations in a row: the second is refused, since the version is then the running one.
pub fn c21_twice() {
    let mut w = any_world().freeing(ACK_FREE);
    w.save();
    cw2(&mut w.s, NAME, "0.5.0");
    check(migrate(&mut w).is_some(), "first migration");
    cover("ran");
    check(migrate(&mut w).is_none(), "second migration is refused");
}

// ---------- C22 ----------
fn ask(s: &Store, m: QueryMsg) -> Option<Binary> { outcome(|| contract::query(rdeps!(*s), any_env(), m)) }
pub fn c22_state() {
    let mut w = crate::h_hs::world_by(choose(8), flip(), choose(2));
    if let Some(i) = &mut w.st.ica_info { i.ica_address = sized(&[9, 43, 1]); i.encoding = [PROTO, PJSON][choose(2)].into(); i.channel_id = string(9) }
    if w.st.ica_info.is_some() && choose(4) == 0 { w.st.ica_info = None }
    let partial = !w.st.ica_info.is_some() && flip();
    w.save();
    if partial { w.s.put(K_STATE, match &w.st.callback_address { None => "{}".to_string(), Some(c) => ["{\"callback_address\":\"", c, "\"}"].concat() }.as_bytes()) }
    let before = w.s.clone();
    let Some(r) = ask(&w.s, QueryMsg::GetContractState {}) else { check(F, "state query answers"); return };
    cover("state");
    let got: Option<MState> = from_json(&r).ok();
    check(got.map_or(F, |g| state_eq(&g, &w.st)), "account and callback as recorded");
    match (ask(&w.s, QueryMsg::GetChannel {}), &w.chan) {
        (Some(r), Some(c)) => { cover("channel"); let got: Option<MChanState> = from_json(&r).ok(); check(got.map_or(F, |g| chanstate_eq(&g, c)), "channel and status as recorded") }
        (None, None) => cover("no channel"),
        _ => check(F, "the channel query answers exactly if a channel is recorded"),
    }
    check(same_except(&before, &w.s, &[]), "queries change nothing");
}
pub fn c22_ownership() {
    let mut w = World::fresh();
    let own = MOwn { owner: opt(|| sized(&[8, 1])), pending_owner: opt(|| string(8)), pending_expiry: match choose(4) { 0 => None, 1 => Some(MExp::AtHeight(num())), 2 => Some(MExp::AtTime(num().to_string())), _ => Some(MExp::Never {}) } };
    w.save();
    put_own(&mut w.s, &own);
    let Some(r) = ask(&w.s, QueryMsg::Ownership {}) else { check(F, "ownership query answers"); return };
    cover("ownership");
    let Ok(g) = from_json::<MOwn>(&r) else { check(F, "ownership form"); return };
    check(oseq(&g.owner, &own.owner) & oseq(&g.pending_owner, &own.pending_owner), "owner and proposed owner as recorded");
    check(match (&g.pending_expiry, &own.pending_expiry) { (None, None) => T, (Some(MExp::Never {}), Some(MExp::Never {})) => T, (Some(MExp::AtHeight(a)), Some(MExp::AtHeight(b))) => eq64(*a, *b), (Some(MExp::AtTime(a)), Some(MExp::AtTime(b))) => seq(a, b), _ => F }, "deadline as recorded");
}
/// C22: with nothing recorded the queries fail.
pub fn c22_missing() {
    let s = Store::default();
    cover("ran");
    check(ask(&s, QueryMsg::GetContractState {}).is_none(), "no state");
    check(ask(&s, QueryMsg::GetChannel {}).is_none(), "no channel");
    check(ask(&s, QueryMsg::Ownership {}).is_none(), "no owner");
}
/// C22: what instantiate and a handshake recorded is what queries report.
pub fn c22_after_instantiate() {
    let mut s = Store::default();
    let sender = string(8);
    let owner = opt(cb_addr);
    let cb = opt(cb_addr);
    let m = InstantiateMsg { owner: owner.clone(), channel_open_init_options: opts_api(&some_opts()), send_callbacks_to: cb.clone() };
    assume(addr_ok(&sender));
    if outcome(|| contract::instantiate(deps!(s), env(), info(&sender), m)).is_none() { check(F, "instantiates"); return }
    cover("ran");
    let st: Option<MState> = ask(&s, QueryMsg::GetContractState {}).and_then(|r| from_json(&r).ok());
    check(st.map_or(F, |g| state_eq(&g, &MState { ica_info: None, callback_address: cb.clone() })), "state right after instantiation");
    check(ask(&s, QueryMsg::GetChannel {}).is_none(), "no channel right after instantiation");
    let o: Option<MOwn> = ask(&s, QueryMsg::Ownership {}).and_then(|r| from_json(&r).ok());
    check(o.map_or(F, |o| oseq(&o.owner, &Some(owner.clone().unwrap_or(sender.clone()))) & B::from(o.pending_owner.is_none())), "owner right after instantiation");
}

// ---------- C23 ----------
pub fn wasm_msg(m: CosmosMsg) -> WasmMsg { match m { CosmosMsg::Wasm(w) => w, _ => { check(F, "a wasm message"); panic!() } } }
fn o_addr() -> Option<String> { opt(|| sized(&[6, 0])) }
fn some_execute(k: usize) -> (ExecuteMsg, Box<dyn Fn(&ExecuteMsg)>) {
    match k {
        0 => { let o = opt(any_opts); (ExecuteMsg::CreateChannel { channel_open_init_options: o.as_ref().map(opts_api) }, Box::new(move |m| match m { ExecuteMsg::CreateChannel { channel_open_init_options: x } => check(match (x, &o) { (None, None) => T, (Some(x), Some(o)) => opts_is(x, o), _ => F }, "channel options"), _ => check(F, "create channel") })) }
        1 => (ExecuteMsg::CloseChannel {}, Box::new(|m| check(matches!(m, ExecuteMsg::CloseChannel {}), "close channel"))),
        2 => { let a = o_addr(); (ExecuteMsg::UpdateCallbackAddress { callback_address: a.clone() }, Box::new(move |m| match m { ExecuteMsg::UpdateCallbackAddress { callback_address: x } => check(oseq(x, &a), "callback address"), _ => check(F, "update callback") })) }
        3 => {
            let (b, memo, t, q) = (bytes_of(2, &ANY), o_addr(), opt(num3), choose(3));
            #[allow(deprecated)]
            let msgs: Vec<CosmosMsg> = vec![CosmosMsg::Stargate { type_url: string(4), value: Binary::new(b.clone()) }];
            let qs: Vec<QueryRequest> = (0..q).map(|i| crate::h_relay::raw_query(["/p", "/q"][i], b"z")).collect();
            let (m2, q2) = (msgs.clone(), qs.clone());
            (ExecuteMsg::SendCosmosMsgs { messages: msgs, queries: qs, packet_memo: memo.clone(), timeout_seconds: t }, Box::new(move |m| match m {
                ExecuteMsg::SendCosmosMsgs { messages, queries, packet_memo, timeout_seconds } => {
                    check(oseq(packet_memo, &memo), "memo");
                    check(match (timeout_seconds, t) { (None, None) => T, (Some(a), Some(b)) => eq64(*a, b), _ => F }, "timeout");
                    #[allow(deprecated)]
                    check(match (&messages[..], &m2[..]) { ([CosmosMsg::Stargate { type_url: a, value: b }], [CosmosMsg::Stargate { type_url: c, value: d }]) => seq(a, c) & eq(b, d), _ => F }, "messages");
                    check(*queries == q2, "queries");
                }
                _ => check(F, "send messages"),
            }))
        }
        _ => { let a = sized(&[6, 40]); (ExecuteMsg::UpdateOwnership(cw_ownable::Action::TransferOwnership { new_owner: a.clone(), expiry: Some(cw_ownable::Expiration::AtHeight(5)) }), Box::new(move |m| match m { ExecuteMsg::UpdateOwnership(cw_ownable::Action::TransferOwnership { new_owner, expiry }) => check(seq(new_owner, &a) & B::from(*expiry == Some(cw_ownable::Expiration::AtHeight(5))), "ownership transfer"), _ => check(F, "update ownership") })) }
    }
}
pub fn opts_is(x: &options::ChannelOpenInitOptions, o: &MOpts) -> B { seq(&x.connection_id, &o.connection_id) & seq(&x.counterparty_connection_id, &o.counterparty_connection_id) & oseq(&x.counterparty_port_id, &o.counterparty_port_id) & B::from(x.channel_ordering == o.channel_ordering.as_ref().map(|x| order(x))) }
pub fn c23_contract() {
    let a = sized(&[7, 44]);
    let c = CwIcaControllerContract::new(Addr::unchecked(&a));
    check(seq(c.addr().as_str(), &a), "wrapped address");
    let k = choose(8);
    cover("ran");
    match k {
        0..=4 => {
            let (m, ck) = some_execute(k);
            let Some(x) = outcome(|| c.execute(m)) else { check(F, "builds"); return };
            let WasmMsg::Execute { contract_addr, msg, funds } = wasm_msg(x) else { check(F, "an execute message"); return };
            check(seq(&contract_addr, &a), "addressed to the contract");
            check(funds.is_empty(), "no funds");
            note("msg", &msg);
            match from_json::<ExecuteMsg>(&msg) { Ok(m) => ck(&m), Err(_) => check(F, "parses as the contract parses it") }
        }
        5 => { let n = sized(&[6, 0, 50]); match wasm_msg(c.update_admin(n.clone())) { WasmMsg::UpdateAdmin { contract_addr, admin } => { check(seq(&contract_addr, &a), "addressed to the contract"); check(seq(&admin, &n), "admin") } _ => check(F, "an admin change") } }
        6 => match wasm_msg(c.clear_admin()) { WasmMsg::ClearAdmin { contract_addr } => check(seq(&contract_addr, &a), "addressed to the contract"), _ => check(F, "an admin clear") },
        _ => { let id = any_u64(); match outcome(|| c.migrate(MigrateMsg {}, id)).map(wasm_msg) { Some(WasmMsg::Migrate { contract_addr, new_code_id, msg }) => { check(seq(&contract_addr, &a), "addressed to the contract"); check(eq64(new_code_id, id), "code id"); check(from_json::<MigrateMsg>(&msg).is_ok(), "migrate message") } _ => check(F, "a migration") } }
    }
}
fn some_instantiate() -> (InstantiateMsg, Box<dyn Fn(&[u8])>) {
    let (o, c, p) = (o_addr(), o_addr(), if flip() { any_opts() } else { some_opts() });
    (InstantiateMsg { owner: o.clone(), send_callbacks_to: c.clone(), channel_open_init_options: opts_api(&p) }, Box::new(move |b| match from_json::<InstantiateMsg>(b) { Ok(m) => { check(oseq(&m.owner, &o) & oseq(&m.send_callbacks_to, &c), "owner and callback"); check(opts_is(&m.channel_open_init_options, &p), "channel options") } Err(_) => check(F, "parses as the contract parses it") }))
}
pub fn c23_instantiate() {
    let id = any_u64();
    let c = CwIcaControllerCode::new(id);
    check(eq64(c.code_id(), id), "wrapped code id");
    let (m, ck) = some_instantiate();
    let (l, ad) = (sized(&[5, 0]), o_addr());
    let Some(WasmMsg::Instantiate { admin, code_id, msg, funds, label }) = outcome(|| c.instantiate(m, l.clone(), ad.clone())).map(wasm_msg) else { check(F, "an instantiate message"); return };
    cover("ran");
    check(eq64(code_id, id), "code id");
    check(funds.is_empty(), "no funds");
    check(seq(&label, &l) & oseq(&admin, &ad), "label and admin");
    ck(&msg)
}
/// Querier that records what it is asked.
pub struct Q { asked: RefCell<Vec<(String, Vec<u8>)>>, answer: Vec<u8>, sums: Vec<(u64, Vec<u8>)> }
impl Querier for Q {
    fn raw_query(&self, b: &[u8]) -> QuerierResult {
        match from_json::<QueryRequest>(b) {
            Ok(QueryRequest::Wasm(WasmQuery::Smart { contract_addr, msg })) => { self.asked.borrow_mut().push((contract_addr, msg.to_vec())); SystemResult::Ok(ContractResult::Ok(Binary::new(self.answer.clone()))) }
            Ok(QueryRequest::Wasm(WasmQuery::CodeInfo { code_id })) => match self.sums.iter().find(|s| s.0 == code_id) {
                Some((_, sum)) => { let mut a: [u8; 32] = [0; 32]; a.copy_from_slice(sum); SystemResult::Ok(ContractResult::Ok(to_json_binary(&CodeInfoResponse::new(code_id, Addr::unchecked("creator"), Checksum::from(a))).unwrap())) }
                None => SystemResult::Err(SystemError::Unknown {}),
            },
            _ => SystemResult::Err(SystemError::Unknown {}),
        }
    }
}
pub fn c23_instantiate2() {
    let id = [1, 7][choose(2)];
    let sum = |i: u64| (0..32u8).map(|b| b ^ i as u8).collect::<Vec<u8>>();
    let q = Q { asked: RefCell::new(vec![]), answer: vec![], sums: vec![(1, sum(1)), (7, sum(7)), (8, sum(8))] };
    let qw = QuerierWrapper::new(&q);
    let c = CwIcaControllerCode::new(id);
    let ax = pairs(2);
    let (m, ck) = if ax.pick(0, 2) == 1 { some_instantiate() } else { let p = some_opts(); (InstantiateMsg { owner: None, send_callbacks_to: None, channel_open_init_options: opts_api(&p) }, Box::new(move |b: &[u8]| match from_json::<InstantiateMsg>(b) { Ok(m) => check(m.owner.is_none() && m.send_callbacks_to.is_none(), "no owner, no callback"), Err(_) => check(F, "parses") }) as Box<dyn Fn(&[u8])>) };
    let (l, ad) = (if flip() { string(5) } else { String::new() }, match ax.pick(1, 3) { 0 => None, k => Some(string([6, 0][k - 1])) });
    // one varying byte of the salt and of the creator keeps the hash within reach
    let b = string_of(1, &TEXT);
    let mk = choose(6);
    let s = match mk { 0 => ["salt", &b].concat(), 1 => b.clone(), 2 => "x".repeat(64), 3 => "é€".into(), 4 => String::new(), _ => "x".repeat(65) };
    let creator = if mk < 3 { "wasm1creator".to_string() } else { ["wasm1", &b].concat() };
    let e = env_at(any_u64(), any_u64(), &creator);
    let r = outcome(|| c.instantiate2(&Chain, &qw, &e, m, l.clone(), ad.clone(), s.clone()));
    let Some((x, addr)) = r else { cover("impossible salt"); check(mk == 4 || mk == 5, "a usable salt builds"); return };
    let WasmMsg::Instantiate2 { admin, code_id, msg, funds, label, salt } = wasm_msg(x) else { check(F, "an instantiate2 message"); return };
    cover("built");
    check(eq64(code_id, id), "code id");
    check(funds.is_empty(), "no funds");
    check(seq(&label, &l) & oseq(&admin, &ad), "label and admin");
    check(eq(&salt, s.as_bytes()), "salt");
    ck(&msg);
    // the chain derives the address from the code's checksum, the creator and the message's salt
    let want = instantiate2_address(&sum(code_id), &CanonicalAddr::from(creator.as_bytes()), &salt).ok().and_then(|a| Chain.addr_humanize(&a).ok());
    check(want.map_or(F, |w| seq(w.as_str(), addr.as_str())), "the address the chain derives");
}
pub fn c23_queries() {
    let a = sized(&[7, 44]);
    let c = CwIcaControllerContract::new(Addr::unchecked(&a));
    let k = choose(3);
    let mut w = crate::h_hs::world_by(1 + choose(7), flip(), choose(2));
    if flip() { w.st.ica_info = None }
    let mut s = Store::default();
    put_state(&mut s, &w.st);
    put_chan(&mut s, w.chan.as_ref().unwrap());
    let own = MOwn { owner: opt(|| string(8)), pending_owner: opt(|| string(7)), pending_expiry: if flip() { None } else { Some(MExp::AtHeight(num3())) } };
    put_own(&mut s, &own);
    let q = Q { asked: RefCell::new(vec![]), answer: s.raw([K_CHAN, K_STATE, K_OWN][k]).unwrap().clone(), sums: vec![] };
    let qw = QuerierWrapper::new(&q);
    let qc = c.query(&qw);
    cover("ran");
    let mut got = Store::default();
    let js = match k { 0 => outcome(|| qc.get_channel()).map(|x| to_json_vec(&x).unwrap()), 1 => outcome(|| qc.get_contract_state()).map(|x| to_json_vec(&x).unwrap()), _ => outcome(|| qc.ownership()).map(|x| to_json_vec(&x).unwrap()) };
    let Some(js) = js else { check(F, "answers"); return };
    got.put([K_CHAN, K_STATE, K_OWN][k], &js);
    match k {
        0 => check(get::<MChanState>(&got, K_CHAN).map_or(F, |x| chanstate_eq(&x, w.chan.as_ref().unwrap())), "channel unchanged"),
        1 => check(get::<MState>(&got, K_STATE).map_or(F, |x| state_eq(&x, &w.st)), "state unchanged"),
        _ => check(get::<MOwn>(&got, K_OWN).map_or(F, |x| oseq(&x.owner, &own.owner) & oseq(&x.pending_owner, &own.pending_owner) & match (&x.pending_expiry, &own.pending_expiry) { (None, None) => T, (Some(MExp::AtHeight(a)), Some(MExp::AtHeight(b))) => eq64(*a, *b), _ => F }), "ownership unchanged"),
    }
    let asked = q.asked.borrow();
    check(asked.len() == 1, "one query");
    check(seq(&asked[0].0, &a), "asked of the wrapped contract");
    let m: Option<QueryMsg> = from_json(&asked[0].1).ok();
    check(matches!((m, k), (Some(QueryMsg::GetChannel {}), 0) | (Some(QueryMsg::GetContractState {}), 1) | (Some(QueryMsg::Ownership {}), 2)), "what the helper names");
}

// ---------- C24 ----------
/// An optional JSON member: absent, null, or a text.
pub fn member(name: &str, s: &Option<String>, null: bool) -> String { match s { Some(x) => [",\"", name, "\":\"", x, "\""].concat(), None => if null { [",\"", name, "\":null"].concat() } else { String::new() } } }
/// A JSON object from members that each start with a comma.
pub fn obj(m: &[String]) -> String { let j = m.concat(); ["{", j.strip_prefix(',').unwrap_or(""), "}"].concat() }
pub fn opts_json(o: &MOpts, null: bool) -> String { obj(&[[",\"connection_id\":\"", &o.connection_id, "\""].concat(), [",\"counterparty_connection_id\":\"", &o.counterparty_connection_id, "\""].concat(), member("counterparty_port_id", &o.counterparty_port_id, null), member("channel_ordering", &o.channel_ordering, null)]) }
pub fn c24_instantiate() {
    let (o, c, p) = (o_addr(), o_addr(), any_opts());
    let null = flip();
    let oj = [",\"channel_open_init_options\":", &opts_json(&p, null)].concat();
    let parts = if flip() { [member("owner", &o, null), oj, member("send_callbacks_to", &c, null)] } else { [member("send_callbacks_to", &c, null), member("owner", &o, null), oj] };
    let j = obj(&parts);
    match from_json::<InstantiateMsg>(j.as_bytes()) { Ok(m) => { cover("parsed"); check(oseq(&m.owner, &o) & oseq(&m.send_callbacks_to, &c), "owner and callback"); check(opts_is(&m.channel_open_init_options, &p), "options") } Err(_) => check(F, "the documented form parses") }
}
pub fn c24_execute() {
    let k = choose(7);
    let null = flip();
    cover("parsed");
    let parse = |j: &str| match from_json::<ExecuteMsg>(j.as_bytes()) { Ok(m) => Some(m), Err(_) => { check(F, "the documented form parses"); None } };
    match k {
        0 => { let p = opt(any_opts); let oj = match &p { Some(p) => [",\"channel_open_init_options\":", &opts_json(p, null)].concat(), None => if null { ",\"channel_open_init_options\":null".into() } else { String::new() } };
            if let Some(m) = parse(&["{\"create_channel\":", &obj(&[oj]), "}"].concat()) { match m { ExecuteMsg::CreateChannel { channel_open_init_options: x } => check(match (&x, &p) { (None, None) => T, (Some(x), Some(p)) => opts_is(x, p), _ => F }, "options"), _ => check(F, "create channel") } } }
        1 => if let Some(m) = parse("{\"close_channel\":{}}") { check(matches!(m, ExecuteMsg::CloseChannel {}), "close channel") },
        2 => { let a = o_addr(); if let Some(m) = parse(&["{\"update_callback_address\":", &obj(&[member("callback_address", &a, null)]), "}"].concat()) { match m { ExecuteMsg::UpdateCallbackAddress { callback_address } => check(oseq(&callback_address, &a), "callback address"), _ => check(F, "update callback") } } }
        3 => {
            let memo = opt(|| sized(&[5, 0]));
            let t = opt(num);
            let tj = match t { Some(t) => [",\"timeout_seconds\":", &t.to_string()].concat(), None => if null { ",\"timeout_seconds\":null".into() } else { String::new() } };
            let (mk, qk) = (choose(3), choose(4));
            let ty = string(5);
            let mj = match mk { 0 => ",\"messages\":null".to_string(), 1 => ",\"messages\":[]".into(), _ => [",\"messages\":[{\"stargate\":{\"type_url\":\"", &ty, "\",\"value\":\"AQI=\"}},{\"bank\":{\"send\":{\"to_address\":\"x\",\"amount\":[{\"denom\":\"a\",\"amount\":\"5\"}]}}}]"].concat() };
            let qj = match qk { 0 => String::new(), 1 => ",\"queries\":null".into(), 2 => ",\"queries\":[]".into(), _ => [",\"queries\":[{\"bank\":{\"supply\":{\"denom\":\"", &ty, "\"}}},{\"stargate\":{\"path\":\"/p\",\"data\":\"AQI=\"}}]"].concat() };
            let Some(m) = parse(&["{\"send_cosmos_msgs\":", &obj(&[mj, qj, member("packet_memo", &memo, null), tj]), "}"].concat()) else { return };
            let ExecuteMsg::SendCosmosMsgs { messages, queries, packet_memo, timeout_seconds } = m else { check(F, "send messages"); return };
            check(oseq(&packet_memo, &memo), "memo");
            check(match (timeout_seconds, t) { (None, None) => T, (Some(a), Some(b)) => eq64(a, b), _ => F }, "timeout");
            #[allow(deprecated)]
            check(if mk < 2 { messages.is_empty().into() } else { match &messages[..] { [CosmosMsg::Stargate { type_url, value }, CosmosMsg::Bank(BankMsg::Send { to_address, amount })] => seq(type_url, &ty) & B::from(value.as_slice() == [1, 2] && to_address == "x" && amount[..] == [Coin::new(5u128, "a")]), _ => F } }, "messages in order, null means none");
            #[allow(deprecated)]
            check(if qk < 3 { queries.is_empty().into() } else { match &queries[..] { [QueryRequest::Bank(BankQuery::Supply { denom }), QueryRequest::Stargate { path, data }] => seq(denom, &ty) & B::from(path == "/p" && data.as_slice() == [1, 2]), _ => F } }, "queries in order, null or absent means none");
        }
        4 => { let a = sized(&[6, 0]); let e = choose(5); let ej = match e { 0 => String::new(), 1 => ",\"expiry\":null".into(), 2 => ",\"expiry\":{\"at_height\":77}".into(), 3 => ",\"expiry\":{\"at_time\":\"99\"}".into(), _ => ",\"expiry\":{\"never\":{}}".to_string() };
            if let Some(m) = parse(&["{\"update_ownership\":{\"transfer_ownership\":", &obj(&[[",\"new_owner\":\"", &a, "\""].concat(), ej]), "}}"].concat()) { match m { ExecuteMsg::UpdateOwnership(cw_ownable::Action::TransferOwnership { new_owner, expiry }) => { check(seq(&new_owner, &a), "new owner"); use cw_ownable::Expiration::*; check(matches!((e, expiry), (0 | 1, None) | (2, Some(AtHeight(77))) | (4, Some(Never {}))) || (e == 3 && expiry == Some(AtTime(Timestamp::from_nanos(99)))), "deadline") } _ => check(F, "transfer") } } }
        5 => if let Some(m) = parse("{\"update_ownership\":\"accept_ownership\"}") { check(matches!(m, ExecuteMsg::UpdateOwnership(cw_ownable::Action::AcceptOwnership)), "accept") },
        _ => if let Some(m) = parse("{\"update_ownership\":\"renounce_ownership\"}") { check(matches!(m, ExecuteMsg::UpdateOwnership(cw_ownable::Action::RenounceOwnership)), "renounce") },
    }
    check(from_json::<QueryMsg>(b"{\"get_channel\":{}}").map_or(false, |m| matches!(m, QueryMsg::GetChannel {})) && from_json::<QueryMsg>(b"{\"get_contract_state\":{}}").map_or(false, |m| matches!(m, QueryMsg::GetContractState {})) && from_json::<QueryMsg>(b"{\"ownership\":{}}").map_or(false, |m| matches!(m, QueryMsg::Ownership {})), "queries parse");
    check(from_json::<MigrateMsg>(b"{}").is_ok(), "migrate message parses");
}
/// C24: a null list is an empty packet, end to end.
pub fn c24_null_lists() {
    let mut w = crate::h_send::sender_world();
    w.save();
    let j = ["{\"send_cosmos_msgs\":{\"messages\":null}}", "{\"send_cosmos_msgs\":{\"messages\":null,\"queries\":null,\"packet_memo\":null,\"timeout_seconds\":null}}", "{\"send_cosmos_msgs\":{\"queries\":null,\"messages\":[]}}"][choose(3)];
    let Ok(m) = from_json::<ExecuteMsg>(j.as_bytes()) else { check(F, "parses"); return };
    let own = w.owner.clone();
    let (e, now) = { let e = env(); let now = e.block.time.nanos(); (e, now) };
    let Some(r) = outcome(|| contract::execute(deps!(w.s), e, info(&own), m)) else { check(F, "accepted"); return };
    cover("ran");
    if let Some((_, p, ms, t, rep)) = crate::h_send::sent(&r) { check(ms.is_empty() && p.memo.is_none() && rep == ReplyOn::Never, "an empty packet without memo"); check(eq64(t.timestamp().map_or(0, |t| t.nanos()), now + 600_000_000_000), "default timeout") }
}
/// C24: unknown and malformed messages are rejected.
pub fn c24_malformed() {
    let t = string(13);
    let k = choose(20);
    let j: String = match k {
        0 => { let known = seq(&t, "close_channel"); assume(!known); ["{\"", &t, "\":{}}"].concat() }
        1 => "{}".into(), 2 => "".into(), 3 => "null".into(), 4 => "[]".into(), 5 => "{\"close_channel\":{}}x".into(), 6 => "{\"close_channel\":{},\"create_channel\":{}}".into(), 7 => "{\"send_cosmos_msgs\":{\"messages\":{}}}".into(), 8 => "{\"send_cosmos_msgs\":{\"messages\":[{\"nope\":{}}]}}".into(),
        9 => "{\"send_cosmos_msgs\":{\"messages\":[],\"timeout_seconds\":-1}}".into(), 10 => "{\"send_cosmos_msgs\":{\"messages\":[],\"timeout_seconds\":18446744073709551616}}".into(), 11 => "{\"create_channel\":{\"channel_open_init_options\":{\"connection_id\":\"c\"}}}".into(), 12 => "{\"create_channel\":{\"channel_open_init_options\":{\"connection_id\":\"c\",\"counterparty_connection_id\":\"d\",\"channel_ordering\":\"ORDER_NONE\"}}}".into(),
        13 => "{\"close_channel\":[1]}".into(), 14 => "{\"update_callback_address\":{\"callback_address\":5}}".into(), 15 => ["{\"update_ownership\":\"", &t, "\"}"].concat(), 16 => "{\"send_cosmos_msgs\":{\"messages\":[null]}}".into(), 17 => "{\"create_channel\":{\"channel_open_init_options\":{\"connection_id\":null,\"counterparty_connection_id\":\"d\"}}}".into(), 18 => "{\"close_channel\":{}".into(), _ => "{\"send_cosmos_msgs\":{\"messages\":[],\"queries\":[{\"bank\":{}}]}}".into(),
    };
    cover("ran");
    check(from_json::<ExecuteMsg>(j.as_bytes()).is_err(), "rejected");
    if k == 0 { check(from_json::<QueryMsg>(j.as_bytes()).is_err(), "unknown query rejected") }
    if k == 1 { check(from_json::<InstantiateMsg>(b"{}").is_err() && from_json::<QueryMsg>(b"{}").is_err(), "missing members rejected") }
    if k == 2 { check(from_json::<MigrateMsg>(b"").is_err() && from_json::<InstantiateMsg>(b"").is_err(), "empty input rejected") }
}
#[ica_derive::ica_callback_execute]
#[derive(serde::Serialize, serde::Deserialize)]
#[serde(rename_all = "snake_case")]
enum Receiver { Other { #[allow(dead_code)] x: u8 } }
// strict mirrors: exactly these members
#[derive(Deserialize)] #[serde(rename_all = "snake_case", deny_unknown_fields)] enum SRecv { ReceiveIcaCallback(SCb) }
#[derive(Deserialize)] #[serde(rename_all = "snake_case", deny_unknown_fields)] #[allow(dead_code)]
enum SCb {
    OnAcknowledgementPacketCallback { ica_acknowledgement: crate::h_relay::MAck, original_packet: IbcPacket, relayer: String },
    OnTimeoutPacketCallback { original_packet: IbcPacket, relayer: String },
    OnChannelOpenAckCallback { channel: MChan, ica_address: String, tx_encoding: String },
}
/// C24: callback messages: exact members, parsed back by a receiver built with the derive macro.
pub fn c24_callback() {
    use cw_ica_controller::ibc::types::{metadata::TxEncoding, packet::acknowledgement::Data};
    use cw_ica_controller::types::query_msg::*;
    let ax = pairs(4);
    let p = crate::h_relay::rich_packet("channel-3", &ax, 1);
    let rel = string(8);
    let k = choose(5);
    let res = bytes_of([3, 0, 1, 2][ax.pick(0, 4)], &ANY);
    let err = sized(&[4, 0]);
    let ch = any_chan(choose(2));
    let (ia, enc) = (sized(&[6, 0]), choose(2));
    let to = string(8);
    let qr = IcaQueryResult::Success { height: 9, responses: vec![IcaQueryResponse::Stargate { data: Binary::new(res.clone()), path: string(3) }, IcaQueryResponse::Wasm(WasmQueryResponse::RawContractState(None))] };
    let m = match k {
        0 => IcaControllerCallbackMsg::OnAcknowledgementPacketCallback { ica_acknowledgement: Data::Result(Binary::new(res.clone())), original_packet: p.clone(), relayer: Addr::unchecked(&rel), query_result: None },
        1 => IcaControllerCallbackMsg::OnAcknowledgementPacketCallback { ica_acknowledgement: Data::Error(err.clone()), original_packet: p.clone(), relayer: Addr::unchecked(&rel), query_result: None },
        2 => IcaControllerCallbackMsg::OnTimeoutPacketCallback { original_packet: p.clone(), relayer: Addr::unchecked(&rel) },
        3 => IcaControllerCallbackMsg::OnChannelOpenAckCallback { channel: ibc_channel(&ch), ica_address: ia.clone(), tx_encoding: [TxEncoding::Protobuf, TxEncoding::Proto3Json][enc].clone() },
        _ => IcaControllerCallbackMsg::OnAcknowledgementPacketCallback { ica_acknowledgement: Data::Result(Binary::new(res.clone())), original_packet: p.clone(), relayer: Addr::unchecked(&rel), query_result: Some(qr) },
    };
    let Some(CosmosMsg::<Empty>::Wasm(WasmMsg::Execute { contract_addr, msg, funds })) = outcome(|| m.into_cosmos_msg(to.clone())) else { check(F, "an execute message"); return };
    cover("built");
    check(seq(&contract_addr, &to) & B::from(funds.is_empty()), "to the given contract, without funds");
    if k < 4 {
        let Ok(SRecv::ReceiveIcaCallback(s)) = from_json::<SRecv>(&msg) else { check(F, "exactly the documented members, no query result"); return };
        use crate::h_relay::{packet_eq, MAck};
        match (k, s) {
            (0, SCb::OnAcknowledgementPacketCallback { ica_acknowledgement: MAck::Result(r), original_packet, relayer }) => check(eq(&r, &res) & packet_eq(&original_packet, &p) & seq(&relayer, &rel), "acknowledgement"),
            (1, SCb::OnAcknowledgementPacketCallback { ica_acknowledgement: MAck::Error(r), original_packet, relayer }) => check(seq(&r, &err) & packet_eq(&original_packet, &p) & seq(&relayer, &rel), "error acknowledgement"),
            (2, SCb::OnTimeoutPacketCallback { original_packet, relayer }) => check(packet_eq(&original_packet, &p) & seq(&relayer, &rel), "timeout"),
            (3, SCb::OnChannelOpenAckCallback { channel, ica_address, tx_encoding }) => check(chan_eq(&channel, &ch) & seq(&ica_address, &ia) & seq(&tx_encoding, [PROTO, PJSON][enc]), "open ack"),
            _ => check(F, "the right callback"),
        }
    }
    let Ok(Receiver::ReceiveIcaCallback(m)) = from_json::<Receiver>(&msg) else { check(F, "the receiver parses it"); return };
    match (k, m) {
        (0 | 1 | 4, IcaControllerCallbackMsg::OnAcknowledgementPacketCallback { ica_acknowledgement, original_packet, relayer, query_result }) => {
            check(match ica_acknowledgement { Data::Result(r) => eq(&r, &res) & B::from(k != 1), Data::Error(e) => seq(&e, &err) & B::from(k == 1) }, "received acknowledgement");
            check(crate::h_relay::packet_eq(&original_packet, &p) & seq(relayer.as_str(), &rel), "received packet and relayer");
            check(query_result.is_some() == (k == 4), "query result only if there is one");
            if let Some(IcaQueryResult::Success { height, responses }) = &query_result { check(match &responses[..] { [IcaQueryResponse::Stargate { data, .. }, IcaQueryResponse::Wasm(WasmQueryResponse::RawContractState(None))] => eq(data, &res) & B::from(*height == 9), _ => F }, "received query result") }
        }
        (2, IcaControllerCallbackMsg::OnTimeoutPacketCallback { original_packet, relayer }) => check(crate::h_relay::packet_eq(&original_packet, &p) & seq(relayer.as_str(), &rel), "received timeout"),
        (3, IcaControllerCallbackMsg::OnChannelOpenAckCallback { channel, ica_address, tx_encoding }) => { let j = to_json_vec(&channel).unwrap(); let c: Option<MChan> = from_json(&j).ok(); check(c.map_or(F, |c| chan_eq(&c, &ch)) & seq(&ica_address, &ia) & B::from(tx_encoding == [TxEncoding::Protobuf, TxEncoding::Proto3Json][enc]), "received open ack") }
        _ => check(F, "received kind"),
    }
}
crate::harnesses!(REG: c21_versions c21_special c21_identity c21_twice c22_state c22_ownership c22_missing c22_after_instantiate c23_contract c23_instantiate c23_instantiate2 c23_queries c24_instantiate c24_execute c24_null_lists c24_malformed c24_callback);
