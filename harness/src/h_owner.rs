//! C29: the owner contract (testing/contracts/cw-ica-owner), driven through its entry points and observed through its queries.
use crate::cbs::Cb;
use crate::env::*;
use crate::vp::*;
use cosmwasm_std::*;
use cw_ica_owner::contract::{execute, instantiate, query};
use cw_ica_owner::msg::{ExecuteMsg, InstantiateMsg, QueryMsg};
use serde::{Deserialize, Serialize};

#[derive(Deserialize)] #[serde(deny_unknown_fields)] struct MContract { admin: String, ica_controller_code_id: u64 }
#[derive(Deserialize)] #[serde(deny_unknown_fields)] struct MRecord { contract_addr: String, ica_state: Option<MAccount> }
#[derive(Deserialize)] #[serde(deny_unknown_fields)] struct MAccount { ica_id: u64, ica_addr: String, tx_encoding: String, channel_state: MChanState }
#[derive(Serialize, Deserialize)] #[serde(deny_unknown_fields)] struct MInst { owner: Option<String>, channel_open_init_options: MOpts, send_callbacks_to: Option<String> }
#[derive(Deserialize)] #[serde(rename_all = "snake_case", deny_unknown_fields)] enum MExec { SendCosmosMsgs { messages: Vec<CosmosMsg>, packet_memo: Option<String>, timeout_seconds: Option<u64> } }

pub const OWNER: &str = "wasm1owner";
/// Answers code queries with a checksum that depends on the code.
pub struct Codes;
fn sum(i: u64) -> [u8; 32] { let mut a = [0; 32]; for (k, b) in a.iter_mut().enumerate() { *b = k as u8 ^ i as u8 } a }
impl Querier for Codes {
    fn raw_query(&self, b: &[u8]) -> QuerierResult {
        match from_json::<QueryRequest>(b) {
            Ok(QueryRequest::Wasm(WasmQuery::CodeInfo { code_id })) => SystemResult::Ok(ContractResult::Ok(to_json_binary(&CodeInfoResponse::new(code_id, Addr::unchecked("creator"), Checksum::from(sum(code_id)))).unwrap())),
            _ => SystemResult::Err(SystemError::Unknown {}),
        }
    }
}
fn init(s: &mut Store, i: MessageInfo, admin: &Option<String>, code: u64) -> Option<Response> {
    outcome(|| instantiate(DepsMut { storage: s, api: &Chain, querier: QuerierWrapper::new(&Codes) }, env_at(any_u64(), any_u64(), OWNER), i, InstantiateMsg { admin: admin.clone(), ica_controller_code_id: code }))
}
fn exec(s: &mut Store, e: Env, sender: &str, j: &str) -> Option<Response> { exec_with(s, e, info0(sender), j) }
/// The same with any funds attached.
fn exec_any(s: &mut Store, e: Env, sender: &str, j: &str) -> Option<Response> { exec_with(s, e, info(sender), j) }
fn exec_with(s: &mut Store, e: Env, i: MessageInfo, j: &str) -> Option<Response> {
    let Ok(m) = from_json::<ExecuteMsg>(j.as_bytes()) else { check(F, "the documented message is understood"); return None };
    outcome(|| execute(DepsMut { storage: s, api: &Chain, querier: QuerierWrapper::new(&Codes) }, e, i, m))
}
fn ask<X: serde::de::DeserializeOwned>(s: &Store, j: &str) -> Option<X> {
    let Ok(m) = from_json::<QueryMsg>(j.as_bytes()) else { check(F, "the documented query is understood"); return None };
    let b = outcome(|| query(Deps { storage: s, api: &Chain, querier: QuerierWrapper::new(&Codes) }, env_at(any_u64(), any_u64(), OWNER), m))?;
    let r = from_json::<X>(&b).ok();
    check(r.is_some(), "the answer has the documented form");
    r
}
fn record(s: &Store, id: &str) -> Option<MRecord> { ask(s, &["{\"get_ica_contract_state\":{\"ica_id\":", id, "}}"].concat()) }
fn count(s: &Store) -> Option<u64> { ask(s, "{\"get_ica_count\":{}}") }
fn contract(s: &Store) -> Option<MContract> { ask(s, "{\"get_contract_state\":{}}") }
/// The account a record must hold.
struct Want { chan: MChan, account: String, encoding: &'static str }
fn record_is(r: &Option<MRecord>, id: u64, addr: &str, w: Option<&Want>) -> B {
    let Some(r) = r else { return F };
    seq(&r.contract_addr, addr) & match (&r.ica_state, w) {
        (None, None) => T,
        (Some(a), Some(w)) => B::from(a.ica_id == id) & seq(&a.ica_addr, &w.account) & seq(&a.tx_encoding, w.encoding) & chan_eq(&a.channel_state.channel, &w.chan) & seq(&a.channel_state.channel_status, "STATE_OPEN"),
        _ => F,
    }
}
fn chain_address(code: u64, salt: &[u8]) -> Option<String> { instantiate2_address(&sum(code), &CanonicalAddr::from(OWNER.as_bytes()), salt).ok().and_then(|a| Chain.addr_humanize(&a).ok()).map(|a| a.to_string()) }
fn opts_json(o: &MOpts) -> String {
    let n = |x: &Option<String>| match x { None => "null".to_string(), Some(v) => ["\"", v, "\""].concat() };
    ["{\"connection_id\":\"", &o.connection_id, "\",\"counterparty_connection_id\":\"", &o.counterparty_connection_id, "\",\"counterparty_port_id\":", &n(&o.counterparty_port_id), ",\"channel_ordering\":", &n(&o.channel_ordering), "}"].concat()
}
fn create_json(salt: Option<&str>, o: &MOpts) -> String {
    ["{\"create_ica_contract\":{\"salt\":", &match salt { None => "null".to_string(), Some(s) => ["\"", s, "\""].concat() }, ",\"channel_open_init_options\":", &opts_json(o), "}}"].concat()
}
/// Create a controller under the given salt; its address.
fn made(s: &mut Store, admin: &str, code: u64, salt: &str) -> String {
    let r = exec(s, env_at(1_700_000_000_000_000_000, 7, OWNER), admin, &create_json(Some(salt), &some_opts()));
    check(r.is_some(), "the admin can create a controller");
    if r.is_none() { assume(F) }
    chain_address(code, salt.as_bytes()).unwrap()
}
const ADMIN: usize = 8;

/// C29: the admin and the code id are recorded as given.
pub fn c29_instantiate() {
    let mut s = Store::default();
    let (sender, admin, code) = (string(8), opt(|| sized(&[8, 0, 44])), num_at(choose(4)));
    let Some(r) = init(&mut s, info(&sender), &admin, code) else { cover("refused"); check(match &admin { None => F, Some(a) => !addr_ok(a) }, "only an invalid admin is refused"); return };
    cover("instantiated");
    check(match &admin { None => T, Some(a) => addr_ok(a) }, "an invalid admin is refused");
    check(r.messages.is_empty(), "nothing is sent");
    check(contract(&s).map_or(F, |c| seq(&c.admin, admin.as_ref().unwrap_or(&sender)) & eq64(c.ica_controller_code_id, code)), "admin and code id as given");
    check(record(&s, "0").is_none(), "no controller yet");
}
/// C29: creating a controller.
pub fn c29_create() {
    let mut s = Store::default();
    let admin = string(ADMIN);
    let ax = pairs(6);
    let code = [1, 7][ax.pick(0, 2)];
    if init(&mut s, info0(&admin), &None, code).is_none() { check(F, "instantiates"); return }
    let n = ax.pick(1, 4);
    let had: Vec<String> = (0..n).map(|i| made(&mut s, &admin, code, ["s0", "s1", "s2"][i])).collect();
    let full = ax.pick(5, 2) == 1;
    let who = match choose(3) { 0 => admin.clone(), 1 => string(ADMIN), _ => [OWNER.to_string(), string(ADMIN - 1), string(ADMIN + 1), [&admin, "x"].concat()][choose(4)].clone() };
    let salt = [None, Some("salt"), Some(""), Some("é€"), Some("0123456789012345678901234567890123456789012345678901234567890123"), Some("01234567890123456789012345678901234567890123456789012345678901234")][ax.pick(2, 6)];
    let (secs, sub) = ([1_700_000_000, 0, 18_446_744_073][ax.pick(3, 3)], [0, 1, 709_551_615][ax.pick(4, 3)]);
    let o = if full { any_opts() } else { some_opts() };
    let e = env_at(secs * 1_000_000_000 + sub, any_u64(), OWNER);
    let before = s.clone();
    let want = match salt { Some(x) => x.to_string(), None => secs.to_string() };
    let r = exec_any(&mut s, e, &who, &create_json(salt, &o));
    let Some(mut r) = r else { cover("refused"); check(!seq(&who, &admin) | B::from(want.is_empty() || want.len() > 64), "the admin can create a controller"); return };
    cover("created");
    check(seq(&who, &admin), "only the admin creates controllers");
    check(r.messages.len() == 1, "exactly one message");
    let Some(m) = r.messages.pop() else { return };
    check(m.reply_on == ReplyOn::Never, "no reply asked for");
    let CosmosMsg::Wasm(WasmMsg::Instantiate2 { admin: a, code_id, label: _, msg, funds, salt: got }) = m.msg else { check(F, "an instantiate2 message"); return };
    check(code_id == code && funds.is_empty(), "the configured code, no funds");
    check(eq(&got, want.as_bytes()), "the salt given, or the block's time in seconds");
    check(a.map_or(F, |a| seq(&a, OWNER)), "the owner contract administers the controller");
    check(from_json::<MInst>(&msg).map_or(F, |i| oseq(&i.owner, &Some(OWNER.into())) & oseq(&i.send_callbacks_to, &Some(OWNER.into())) & opts_eq(&i.channel_open_init_options, &o)), "owned by and calling back this contract, with the options given");
    let addr = chain_address(code, &got).unwrap_or_default();
    check(record_is(&record(&s, ["0", "1", "2", "3"][n]), n as u64, &addr, None), "recorded under the next id with the address the chain derives");
    check(record(&s, ["1", "2", "3", "4"][n]).is_none(), "and under no other");
    check(count(&s).map_or(F, |c| eq64(c, n as u64 + 1)), "the number of controllers");
    for (i, h) in had.iter().enumerate() { check(record_is(&record(&s, ["0", "1", "2"][i]), i as u64, h, None), "earlier controllers unchanged") }
    check(contract(&before).zip(contract(&s)).map_or(F, |(x, y)| seq(&x.admin, &y.admin) & eq64(x.ica_controller_code_id, y.ica_controller_code_id)), "admin and code id unchanged");
    // the new controller is known from now on
    let cb = Cb::plain(3, "4");
    check(exec(&mut s, env0(), &addr, &cb.message()).is_some(), "the new controller's callbacks are accepted");
}
/// An owner contract with two controllers, the first, the second or both with an account.
fn two(s: &mut Store, admin: &str) -> ([String; 2], [Option<Want>; 2]) {
    if init(s, info0(admin), &None, 7).is_none() { check(F, "instantiates") }
    let a = [made(s, admin, 7, "s0"), made(s, admin, 7, "s1")];
    let which = choose(3);
    let mut w = [None, None];
    for i in 0..2 {
        if which != 2 && which != i { continue }
        let c = Cb::opened(i);
        check(exec(s, env0(), &a[i], &c.message()).is_some(), "an open callback is accepted");
        w[i] = Some(Want { chan: c.chan, account: c.account, encoding: c.encoding });
    }
    (a, w)
}
fn kept(s: &Store, a: &[String; 2], w: &[Option<Want>; 2]) -> B {
    record_is(&record(s, "0"), 0, &a[0], w[0].as_ref()) & record_is(&record(s, "1"), 1, &a[1], w[1].as_ref()) & B::from(record(s, "2").is_none() && count(s) == Some(2))
}
/// C29: the predefined action.
pub fn c29_send() {
    let mut s = Store::default();
    let admin = string(ADMIN);
    let (a, w) = two(&mut s, &admin);
    let who = match choose(3) { 0 => admin.clone(), 1 => string(ADMIN), _ => [OWNER.to_string(), a[0].clone(), string(ADMIN - 1), [&admin, "x"].concat()][choose(4)].clone() };
    let (id, to) = (["0", "1", "2", "256", "4294967297", "18446744073709551615"][choose(6)], sized(&[8, 0, 44]));
    let r = exec_any(&mut s, env_at(any_u64(), any_u64(), OWNER), &who, &["{\"send_predefined_action\":{\"ica_id\":", id, ",\"to_address\":\"", &to, "\"}}"].concat());
    check(B::from(r.is_none()) | kept(&s, &a, &w) & contract(&s).map_or(F, |c| seq(&c.admin, &admin)), "sending changes no record");
    let Some(mut r) = r else { cover("refused"); check(!seq(&who, &admin) | B::from(!matches!(id, "0" | "1")), "the admin can send through every controller"); return };
    cover("sent");
    check(seq(&who, &admin), "only the admin sends");
    check(matches!(id, "0" | "1"), "only through an existing controller");
    check(r.messages.len() == 1, "exactly one message");
    let Some(m) = r.messages.pop() else { return };
    check(m.reply_on == ReplyOn::Never, "no reply asked for");
    let CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) = m.msg else { check(F, "an execute message"); return };
    check(seq(&contract_addr, &a[(id == "1") as usize]) & B::from(funds.is_empty()), "to the controller with this id, no funds");
    let Ok(MExec::SendCosmosMsgs { mut messages, packet_memo, timeout_seconds }) = from_json::<MExec>(&msg) else { check(F, "a request the controller understands"); return };
    check(packet_memo.is_none() && timeout_seconds.is_none() && messages.len() == 1, "one message, default timeout, no memo");
    let Some(CosmosMsg::Bank(BankMsg::Send { to_address, amount })) = messages.pop() else { check(F, "a bank transfer"); return };
    check(seq(&to_address, &to), "to the recipient given");
    check(amount.len() == 1 && amount[0].denom == "stake" && amount[0].amount == Uint128::new(100), "of 100 stake");
}
/// C29: callbacks are taken from the known controllers only, and touch only the caller's record.
pub fn c29_callback() {
    let mut s = Store::default();
    let admin = string(ADMIN);
    let (a, mut w) = two(&mut s, &admin);
    let near = |x: &str, i: usize| { let mut b = x.as_bytes().to_vec(); let k = if i == 0 { 0 } else { b.len() - 1 }; b[k] = bytes_of(1, &TEXT)[0]; unsafe { String::from_utf8_unchecked(b) } };
    let who = match choose(8) { 0 => a[0].clone(), 1 => a[1].clone(), 2 => near(&a[1], 0), 3 => near(&a[0], 1), 4 => admin.clone(), 5 => OWNER.to_string(), 6 => a[0][..a[0].len() - 1].to_string(), _ => string(ADMIN) };
    let cb = Cb::any(choose(4), "4");
    let r = exec_any(&mut s, env_at(any_u64(), any_u64(), OWNER), &who, &cb.message());
    let known = seq(&who, &a[0]) | seq(&who, &a[1]);
    let Some(r) = r else { cover("refused"); check(!known, "a controller's callback is accepted"); return };
    cover("accepted");
    check(known, "only from the controllers this contract created");
    check(r.messages.is_empty(), "nothing is sent");
    if cb.kind == 3 { let i = if (seq(&who, &a[0])).0 != 0 { 0 } else { 1 }; w[i] = Some(Want { chan: cb.chan.clone(), account: cb.account.clone(), encoding: cb.encoding }); cover("opened") }
    check(kept(&s, &a, &w), "only an opened channel changes a record, and only the caller's");
    check(contract(&s).map_or(F, |c| seq(&c.admin, &admin) & eq64(c.ica_controller_code_id, 7)), "admin and code id unchanged");
}
/// C29: histories of creations, callbacks and sends.
pub fn c29_history() {
    let mut s = Store::default();
    let admin = string(ADMIN);
    if init(&mut s, info0(&admin), &None, 7).is_none() { check(F, "instantiates") }
    let mut a = vec![made(&mut s, &admin, 7, "s0")];
    let mut w: Vec<Option<Want>> = vec![None];
    for i in 0..tier(4, 5) {
        let k = choose(5);
        if k == 0 { a.push(made(&mut s, &admin, 7, ["t0", "t1", "t2", "t3", "t4"][i])); w.push(None); continue }
        let at = choose(a.len());
        if k == 4 {
            let r = exec(&mut s, env0(), &admin, &["{\"send_predefined_action\":{\"ica_id\":", &at.to_string(), ",\"to_address\":\"x\"}}"].concat());
            check(r.map_or(F, |r| match r.messages.first() { Some(SubMsg { msg: CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, .. }), .. }) => seq(contract_addr, &a[at]), _ => F }), "sent through the controller with this id");
            continue
        }
        let c = match k { 1 => Cb::opened(i % 2), 2 => Cb::plain(2, "3"), _ => Cb::plain(0, "3") };
        check(exec(&mut s, env0(), &a[at].clone(), &c.message()).is_some(), "a controller's callback is accepted");
        if k == 1 { w[at] = Some(Want { chan: c.chan, account: c.account, encoding: c.encoding }); cover("opened") }
    }
    for i in 0..a.len() { check(record_is(&record(&s, &i.to_string()), i as u64, &a[i], w[i].as_ref()), "each controller's record shows its own latest account") }
    check(count(&s).map_or(F, |c| eq64(c, a.len() as u64)) & B::from(record(&s, &a.len().to_string()).is_none()), "the number of controllers");
}
/// C29: many controllers.
pub fn c29_many() {
    let mut s = Store::default();
    let admin = string(ADMIN);
    if init(&mut s, info0(&admin), &None, 7).is_none() { check(F, "instantiates") }
    let n = [11, 33, 257][choose(3)];
    let a: Vec<String> = (0..n).map(|i| made(&mut s, &admin, 7, &["s", &i.to_string()].concat())).collect();
    let at = match choose(4) { 0 => 0, 1 => n - 1, 2 => n / 2, _ => 10 };
    let c = Cb::opened(1);
    check(exec(&mut s, env0(), &a[at], &c.message()).is_some(), "a controller's callback is accepted");
    cover("opened");
    let w = Want { chan: c.chan, account: c.account, encoding: c.encoding };
    for i in 0..n { check(record_is(&record(&s, &i.to_string()), i as u64, &a[i], if i == at { Some(&w) } else { None }), "only the caller's record changes") }
    check(count(&s).map_or(F, |c| eq64(c, n as u64)), "the number of controllers");
}
crate::harnesses!(REG: c29_instantiate c29_create c29_send c29_callback c29_history c29_many);
