//! Chain environment for the contract: storage, address validation, querier, and pre-state builders.
//! Pre-states are written as raw JSON at raw storage keys, so nothing here depends on contract internals.
use crate::vp::*;
use cosmwasm_std::*;
use serde::{Deserialize, Serialize};
use std::cell::OnceCell;
use std::rc::Rc;

/// Insertion-ordered key-value store with exact-match lookup. Free entries have no value yet: every value their generator
/// allows is explored, but only once something reads them (copies of the store share the value).
#[derive(Default, Clone)]
pub struct Store { pub kv: Vec<(Vec<u8>, Vec<u8>)>, free: Vec<Rc<Free>> }
struct Free { key: Vec<u8>, gen: Box<dyn Fn() -> Option<Vec<u8>>>, val: OnceCell<Option<Vec<u8>>> }
fn is(a: &[u8], k: &[u8]) -> bool { a.len() == k.len() && a == k }
impl Store {
    pub fn raw(&self, k: &[u8]) -> Option<&Vec<u8>> {
        for (a, v) in &self.kv { if is(a, k) { return Some(v) } }
        for f in &self.free { if is(&f.key, k) { return f.val.get_or_init(|| (f.gen)()).as_ref() } }
        None
    }
    pub fn put(&mut self, k: &[u8], v: &[u8]) { self.set(k, v) }
    pub fn set_free(&mut self, k: &[u8], gen: impl Fn() -> Option<Vec<u8>> + 'static) { self.remove(k); self.free.push(Rc::new(Free { key: k.to_vec(), gen: Box::new(gen), val: OnceCell::new() })) }
    /// Both stores hold the same free entry at `k` (whatever its value).
    pub fn same_free(&self, o: &Store, k: &[u8]) -> bool { self.free.iter().any(|f| is(&f.key, k) && o.free.iter().any(|g| Rc::ptr_eq(f, g))) }
}
impl Storage for Store {
    fn get(&self, k: &[u8]) -> Option<Vec<u8>> { self.raw(k).cloned() }
    fn set(&mut self, k: &[u8], v: &[u8]) {
        for e in self.kv.iter_mut() { if is(&e.0, k) { e.1 = v.to_vec(); return } }
        self.remove(k);
        self.kv.push((k.to_vec(), v.to_vec()));
    }
    fn remove(&mut self, k: &[u8]) {
        let mut i = 0;
        while i < self.free.len() { if is(&self.free[i].key, k) { self.free.remove(i); } else { i += 1 } }
        i = 0;
        while i < self.kv.len() { if is(&self.kv[i].0, k) { self.kv.remove(i); return } i += 1 }
    }
    fn range<'a>(&'a self, start: Option<&[u8]>, end: Option<&[u8]>, order: Order) -> Box<dyn Iterator<Item = Record> + 'a> {
        let mut v: Vec<Record> = self.kv.iter().filter(|(k, _)| start.map_or(true, |s| k.as_slice() >= s) && end.map_or(true, |e| k.as_slice() < e)).cloned().collect();
        v.sort();
        if order == Order::Descending { v.reverse() }
        Box::new(v.into_iter())
    }
}

/// Address validation as an arbitrary predicate of the text: an address is invalid iff it is empty or starts with '!'.
pub struct Chain;
pub fn addr_ok(s: &str) -> B { if s.is_empty() { F } else { !eq(&s.as_bytes()[..1], b"!") } }
impl Api for Chain {
    fn addr_validate(&self, s: &str) -> StdResult<Addr> { if s.is_empty() || s.as_bytes()[0] == b'!' { Err(StdError::generic_err("invalid address")) } else { Ok(Addr::unchecked(s)) } }
    fn addr_canonicalize(&self, s: &str) -> StdResult<CanonicalAddr> { Ok(CanonicalAddr::from(s.as_bytes())) }
    fn addr_humanize(&self, c: &CanonicalAddr) -> StdResult<Addr> { let mut h = String::from("h"); for b in c.as_slice() { h.push((b'a' + (b >> 4)) as char); h.push((b'a' + (b & 15)) as char) } Ok(Addr::unchecked(h)) }
    fn secp256k1_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> { unreachable!() }
    fn secp256k1_recover_pubkey(&self, _: &[u8], _: &[u8], _: u8) -> Result<Vec<u8>, RecoverPubkeyError> { unreachable!() }
    fn ed25519_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> { unreachable!() }
    fn ed25519_batch_verify(&self, _: &[&[u8]], _: &[&[u8]], _: &[&[u8]]) -> Result<bool, VerificationError> { unreachable!() }
    fn debug(&self, _: &str) {}
}
pub struct NoQuery;
impl Querier for NoQuery {
    fn raw_query(&self, _: &[u8]) -> QuerierResult { SystemResult::Err(SystemError::Unknown {}) }
}

pub const CONTRACT: &str = "wasm1ctl";
/// Length of the contract's own port name; symbolic port texts of this length include the real one.
pub const PORT: usize = 13;
/// The transaction's place in the block, or none (begin and end blockers): explored once something asks.
fn any_tx() -> Option<TransactionInfo> {
    use std::mem::transmute as t;
    unsafe { if t::<_, [u32; 2]>(Some(TransactionInfo { index: 7 })) == [1, 7] { t([u64_in(0, 1) as u32, any_u32()]) } else { opt(|| TransactionInfo { index: any_u32() }) } }
}
pub fn env_at(nanos: u64, height: u64, contract: &str) -> Env {
    Env { block: BlockInfo { height, time: Timestamp::from_nanos(nanos), chain_id: string(7) }, transaction: any_tx(), contract: ContractInfo { address: Addr::unchecked(contract) } }
}
/// A fixed block.
pub fn env0() -> Env { env_at(1_700_000_000_000_000_000, 1000, CONTRACT) }
/// Any block (more than an age away from the end of time).
pub fn env() -> Env { env_at(u64_in(0, 1 << 62), any_u64(), CONTRACT) }
/// Any block and contract address, for entry points that have no use for them.
pub fn any_env() -> Env { env_at(any_u64(), any_u64(), &string(8)) }
/// A sender attaching any amount of a coin, or nothing: explored once something asks.
pub fn info(sender: &str) -> MessageInfo {
    let mut funds = vec![Coin { denom: string(5), amount: Uint128::new(any_u64() as u128) }];
    unsafe { funds.set_len(u64_in(0, 1) as usize) }
    MessageInfo { sender: Addr::unchecked(sender), funds }
}
/// A sender attaching nothing.
pub fn info0(sender: &str) -> MessageInfo { MessageInfo { sender: Addr::unchecked(sender), funds: vec![] } }

macro_rules! deps { ($s:expr) => { cosmwasm_std::DepsMut { storage: &mut $s, api: &crate::env::Chain, querier: cosmwasm_std::QuerierWrapper::new(&crate::env::NoQuery) } } }
pub(crate) use deps;
macro_rules! rdeps { ($s:expr) => { cosmwasm_std::Deps { storage: &$s, api: &crate::env::Chain, querier: cosmwasm_std::QuerierWrapper::new(&crate::env::NoQuery) } } }
pub(crate) use rdeps;

// ---------- mirrors of the documented storage and message formats ----------
#[derive(Serialize, Deserialize, Clone)]
pub struct MIca { pub ica_address: String, pub channel_id: String, pub encoding: String }
#[derive(Serialize, Deserialize, Clone)]
pub struct MState { pub ica_info: Option<MIca>, pub callback_address: Option<String> }
#[derive(Serialize, Deserialize, Clone)]
pub struct MEnd { pub port_id: String, pub channel_id: String }
#[derive(Serialize, Deserialize, Clone)]
pub struct MChan { pub endpoint: MEnd, pub counterparty_endpoint: MEnd, pub order: String, pub version: String, pub connection_id: String }
#[derive(Serialize, Deserialize, Clone)]
pub struct MChanState { pub channel: MChan, pub channel_status: String }
#[derive(Serialize, Deserialize, Clone)]
pub struct MOpts { pub connection_id: String, pub counterparty_connection_id: String, pub counterparty_port_id: Option<String>, pub channel_ordering: Option<String> }
#[derive(Serialize, Deserialize, Clone)]
pub struct MOwn { pub owner: Option<String>, pub pending_owner: Option<String>, pub pending_expiry: Option<MExp> }
#[derive(Serialize, Deserialize, Clone)]
#[serde(rename_all = "snake_case")]
pub enum MExp { AtHeight(u64), AtTime(String), Never {} }
#[derive(Serialize, Deserialize, Clone)]
pub struct MVersion { pub contract: String, pub version: String }

pub const K_STATE: &[u8] = b"state";
pub const K_CHAN: &[u8] = b"ica_channel";
pub const K_OPTS: &[u8] = b"channel_open_init_options";
pub const K_OPEN: &[u8] = b"allow_channel_open_init";
pub const K_CLOSE: &[u8] = b"allow_channel_close_init";
pub const K_QUERY: &[u8] = b"pending_query";
pub const K_OWN: &[u8] = b"ownership";
pub const K_CW2: &[u8] = b"contract_info";
/// raw key of the pending-queries map entry (namespace, channel id, big-endian sequence)
pub fn k_pending(chan: &str, seq: u64) -> Vec<u8> {
    let mut k = vec![0, 15];
    k.extend_from_slice(b"pending_queries");
    k.extend_from_slice(&(chan.len() as u16).to_be_bytes());
    k.extend_from_slice(chan.as_bytes());
    k.extend_from_slice(&seq.to_be_bytes());
    k
}

fn jopt(s: &Option<String>) -> String { match s { Some(x) => [ "\"", x, "\""].concat(), None => "null".into() } }
pub fn put_state(s: &mut Store, st: &MState) {
    let ica = match &st.ica_info { None => "null".to_string(), Some(i) => ["{\"ica_address\":\"", &i.ica_address, "\",\"channel_id\":\"", &i.channel_id, "\",\"encoding\":\"", &i.encoding, "\"}"].concat() };
    s.put(K_STATE, ["{\"ica_info\":", &ica, ",\"callback_address\":", &jopt(&st.callback_address), "}"].concat().as_bytes());
}
/// JSON string escaping for version strings, which contain quotes
pub fn jesc(x: &str) -> String { let mut o = Vec::with_capacity(x.len() + 16); for b in x.bytes() { if b == b'"' || b == b'\\' { o.push(b'\\') } o.push(b) } unsafe { String::from_utf8_unchecked(o) } }
pub fn chan_json(c: &MChan) -> String {
    ["{\"endpoint\":{\"port_id\":\"", &c.endpoint.port_id, "\",\"channel_id\":\"", &c.endpoint.channel_id, "\"},\"counterparty_endpoint\":{\"port_id\":\"", &c.counterparty_endpoint.port_id, "\",\"channel_id\":\"", &c.counterparty_endpoint.channel_id,
        "\"},\"order\":\"", &c.order, "\",\"version\":\"", &jesc(&c.version), "\",\"connection_id\":\"", &c.connection_id, "\"}"].concat()
}
pub fn put_chan(s: &mut Store, c: &MChanState) { s.put(K_CHAN, ["{\"channel\":", &chan_json(&c.channel), ",\"channel_status\":\"", &c.channel_status, "\"}"].concat().as_bytes()) }
pub fn put_opts(s: &mut Store, o: &MOpts) {
    s.put(K_OPTS, ["{\"connection_id\":\"", &o.connection_id, "\",\"counterparty_connection_id\":\"", &o.counterparty_connection_id, "\",\"counterparty_port_id\":", &jopt(&o.counterparty_port_id), ",\"channel_ordering\":", &jopt(&o.channel_ordering), "}"].concat().as_bytes());
}
pub fn put_owner(s: &mut Store, owner: &str) { s.put(K_OWN, ["{\"owner\":\"", owner, "\",\"pending_owner\":null,\"pending_expiry\":null}"].concat().as_bytes()) }
pub fn put_own(s: &mut Store, o: &MOwn) {
    let e = match &o.pending_expiry { None => "null".to_string(), Some(MExp::AtHeight(h)) => format!("{{\"at_height\":{h}}}"), Some(MExp::AtTime(t)) => format!("{{\"at_time\":\"{t}\"}}"), Some(MExp::Never {}) => "{\"never\":{}}".into() };
    s.put(K_OWN, ["{\"owner\":", &jopt(&o.owner), ",\"pending_owner\":", &jopt(&o.pending_owner), ",\"pending_expiry\":", &e, "}"].concat().as_bytes());
}
pub fn put_flag(s: &mut Store, k: &[u8], v: Option<bool>) { match v { Some(true) => s.put(k, b"true"), Some(false) => s.put(k, b"false"), None => {} } }
pub fn get<Tt: serde::de::DeserializeOwned>(s: &Store, k: &[u8]) -> Option<Tt> { s.raw(k).and_then(|v| from_json(v).ok()) }
pub fn flag(s: &Store, k: &[u8]) -> bool { get::<bool>(s, k).unwrap_or(false) }

pub fn order(o: &str) -> IbcOrder { if o == "ORDER_UNORDERED" { IbcOrder::Unordered } else { IbcOrder::Ordered } }
pub const ORDERS: [&str; 2] = ["ORDER_ORDERED", "ORDER_UNORDERED"];
pub const STATUSES: [&str; 7] = ["STATE_OPEN", "STATE_CLOSED", "STATE_INIT", "STATE_TRYOPEN", "STATE_UNINITIALIZED_UNSPECIFIED", "STATE_FLUSHING", "STATE_FLUSHCOMPLETE"];
pub fn ibc_channel(c: &MChan) -> IbcChannel {
    IbcChannel::new(IbcEndpoint { port_id: c.endpoint.port_id.clone(), channel_id: c.endpoint.channel_id.clone() }, IbcEndpoint { port_id: c.counterparty_endpoint.port_id.clone(), channel_id: c.counterparty_endpoint.channel_id.clone() }, order(&c.order), c.version.clone(), c.connection_id.clone())
}
pub fn end_eq(a: &MEnd, b: &MEnd) -> B { seq(&a.port_id, &b.port_id) & seq(&a.channel_id, &b.channel_id) }
pub fn chan_eq(a: &MChan, b: &MChan) -> B { end_eq(&a.endpoint, &b.endpoint) & end_eq(&a.counterparty_endpoint, &b.counterparty_endpoint) & seq(&a.order, &b.order) & seq(&a.version, &b.version) & seq(&a.connection_id, &b.connection_id) }
pub fn chanstate_eq(a: &MChanState, b: &MChanState) -> B { chan_eq(&a.channel, &b.channel) & seq(&a.channel_status, &b.channel_status) }
pub fn ica_eq(a: &Option<MIca>, b: &Option<MIca>) -> B { match (a, b) { (None, None) => T, (Some(x), Some(y)) => seq(&x.ica_address, &y.ica_address) & seq(&x.channel_id, &y.channel_id) & seq(&x.encoding, &y.encoding), _ => F } }
pub fn state_eq(a: &MState, b: &MState) -> B { ica_eq(&a.ica_info, &b.ica_info) & oseq(&a.callback_address, &b.callback_address) }
pub fn opts_eq(a: &MOpts, b: &MOpts) -> B { seq(&a.connection_id, &b.connection_id) & seq(&a.counterparty_connection_id, &b.counterparty_connection_id) & oseq(&a.counterparty_port_id, &b.counterparty_port_id) & oseq(&a.channel_ordering, &b.channel_ordering) }

/// Equality of the two values stored at a documented key; representation details (field order, absent versus false
/// flags) do not count.
fn same_at(k: &[u8], a: Option<&Vec<u8>>, b: Option<&Vec<u8>>) -> B {
    fn m<X: serde::de::DeserializeOwned>(a: Option<&Vec<u8>>, b: Option<&Vec<u8>>, f: impl Fn(&X, &X) -> B) -> B {
        match (a, b) { (None, None) => T, (Some(a), Some(b)) => match (from_json::<X>(a), from_json::<X>(b)) { (Ok(x), Ok(y)) => f(&x, &y), _ => eq(a, b) }, _ => F }
    }
    match k {
        _ if k == K_OPEN || k == K_CLOSE => { let t = |x: Option<&Vec<u8>>| x.map_or(false, |x| x.as_slice() == b"true"); B::from(t(a) == t(b)) }
        _ if k == K_STATE => m(a, b, state_eq),
        _ if k == K_CHAN => m(a, b, chanstate_eq),
        _ if k == K_OPTS => m(a, b, opts_eq),
        _ => match (a, b) { (None, None) => T, (Some(a), Some(b)) => eq(a, b), _ => F },
    }
}
/// Equality of everything stored under the documented keys; `skip` keys excluded.
pub fn same_except(a: &Store, b: &Store, skip: &[&[u8]]) -> B {
    let mut r = T;
    for k in [K_STATE, K_CHAN, K_OPTS, K_OPEN, K_CLOSE, K_QUERY, K_OWN, K_CW2] { if !skip.iter().any(|x| *x == k) && !a.same_free(b, k) { r = r & same_at(k, a.raw(k), b.raw(k)) } }
    if !skip.iter().any(|x| *x == PENDING) { r = r & pending_kept(a, b) & pending_kept(b, a) }
    r
}
/// Skip marker for the pending-queries map.
pub const PENDING: &[u8] = b"pending_queries";
/// Every pending-queries entry of `a` is in `b`, unchanged.
pub fn pending_kept(a: &Store, b: &Store) -> B {
    let mut r = T;
    for (k, v) in &a.kv { if k.len() > 17 && &k[2..17] == PENDING { r = r & match b.raw(k) { Some(w) => eq(v, w), None => F } } }
    r
}

/// Outcome of an entry point: None = transaction aborted (error or panic).
pub fn outcome<R, E>(f: impl FnOnce() -> Result<R, E>) -> Option<R> { match run(f) { Some(Ok(r)) => Some(r), Some(Err(e)) => { std::mem::forget(e); None } None => None } }

// ---------- symbolic worlds ----------
/// `None` or `Some`, both explored.
pub fn opt<X>(f: impl FnOnce() -> X) -> Option<X> { if flip() { Some(f()) } else { None } }
/// A string of symbolic text whose length is any of `lens`.
pub fn sized(lens: &[usize]) -> String { string(lens[choose(lens.len())]) }
/// A contract state satisfying the representation invariant, with symbolic contents.
pub struct World { pub s: Store, pub owner: String, pub st: MState, pub chan: Option<MChanState>, pub opts: Option<MOpts>, pub open: Flag, pub close: Flag, pub free: Vec<&'static [u8]> }
/// A permission: `ANY_FLAG` leaves it free, otherwise absent or the given value.
pub type Flag = Option<Option<bool>>;
pub const ANY_FLAG: Flag = None;
pub const IS: fn(bool) -> Flag = |b| Some(Some(b));
pub const PROTO: &str = "proto3";
pub const PJSON: &str = "proto3json";
pub fn any_ica() -> MIca { MIca { ica_address: string(9), channel_id: string(9), encoding: PROTO.into() } }
pub fn any_chan(order: usize) -> MChan {
    MChan { endpoint: MEnd { port_id: string(PORT), channel_id: string(9) }, counterparty_endpoint: MEnd { port_id: string(7), channel_id: string(9) }, order: ORDERS[order].into(), version: string(6), connection_id: string(7) }
}
pub fn any_opts() -> MOpts { MOpts { connection_id: string(7), counterparty_connection_id: string(7), counterparty_port_id: opt(|| string(7)), channel_ordering: match choose(3) { 0 => None, k => Some(ORDERS[k - 1].into()) } } }
pub fn some_opts() -> MOpts { MOpts { connection_id: string(7), counterparty_connection_id: string(7), counterparty_port_id: None, channel_ordering: None } }
impl World {
    /// Instantiated contract, no channel yet.
    pub fn fresh() -> World { World { s: Store::default(), owner: string(8), st: MState { ica_info: None, callback_address: None }, chan: None, opts: Some(some_opts()), open: ANY_FLAG, close: ANY_FLAG, free: vec![K_CW2] } }
    /// Contract with an open channel; callback configured or not as given.
    pub fn opened(cb: bool, ord: usize) -> World {
        let chan = any_chan(ord);
        let ica = MIca { ica_address: string(9), channel_id: chan.endpoint.channel_id.clone(), encoding: PROTO.into() };
        World { s: Store::default(), owner: string(8), st: MState { ica_info: Some(ica), callback_address: if cb { Some(cb_addr()) } else { None } }, chan: Some(MChanState { channel: chan, channel_status: "STATE_OPEN".into() }), opts: Some(some_opts()), open: ANY_FLAG, close: ANY_FLAG, free: vec![K_CW2] }
    }
    /// Write the state; returns a copy of the storage for later comparison.
    pub fn save(&mut self) -> Store {
        put_owner(&mut self.s, &self.owner);
        put_state(&mut self.s, &self.st);
        if let Some(c) = &self.chan { put_chan(&mut self.s, c) }
        if let Some(o) = &self.opts { put_opts(&mut self.s, o) }
        for (k, f) in [(K_OPEN, self.open), (K_CLOSE, self.close)] { match f { Some(f) => put_flag(&mut self.s, k, f), None => self.s.set_free(k, || [None, Some(b"false".to_vec()), Some(b"true".to_vec())][choose(3)].clone()) } }
        self.s.put(K_CW2, VERSION_RECORD);
        for k in self.free.clone() { self.free_key(k) }
        self.s.clone()
    }
    /// Leave the record at `k` free, among the values it can have given the rest of the state.
    fn free_key(&mut self, k: &'static [u8]) {
        let given = self.s.raw(k).cloned();
        let made = move |f: &dyn Fn(&mut Store)| { let mut t = Store::default(); f(&mut t); t.raw(k).cloned() };
        match k {
            _ if k == K_CW2 => self.s.set_free(k, move || match choose(3) { 0 => given.clone(), 1 => None, _ => Some(br#"{"contract":"crates.io:cw-ica-controller","version":"0.1.0"}"#.to_vec()) }),
            _ if k == K_STATE => { let mut st = self.st.clone(); st.callback_address = if st.callback_address.is_some() { None } else { Some(cb_addr()) }; self.s.set_free(k, move || if flip() { made(&|t| put_state(t, &st)) } else { given.clone() }) }
            _ if k == K_CHAN => if let Some(c) = self.chan.clone() { self.s.set_free(k, move || { let mut c = c.clone(); c.channel_status = STATUSES[choose(7)].into(); c.channel.order = ORDERS[choose(2)].into(); made(&|t| put_chan(t, &c)) }) },
            _ if k == K_OPTS => self.s.set_free(k, move || match choose(3) { 0 => given.clone(), 1 => None, _ => { let o = any_opts(); made(&|t| put_opts(t, &o)) } }),
            _ if k == K_OWN => { let owner = self.owner.clone(); self.s.set_free(k, move || match choose(3) { 0 => given.clone(), 1 => { let o = MOwn { owner: Some(owner.clone()), pending_owner: Some(string(8)), pending_expiry: None }; made(&|t| put_own(t, &o)) } _ => { let o = MOwn { owner: None, pending_owner: None, pending_expiry: None }; made(&|t| put_own(t, &o)) } }) }
            _ => {}
        }
    }
    pub fn freeing(mut self, k: &[&'static [u8]]) -> World { self.free.extend_from_slice(k); self }
}
/// Records an entry point has no business with, by kind of step.
pub const OPEN_INIT_FREE: &[&[u8]] = &[K_STATE, K_OPTS, K_OWN];
pub const OPEN_ACK_FREE: &[&[u8]] = &[K_OPTS, K_OWN];
pub const ACK_FREE: &[&[u8]] = &[K_CHAN, K_OPTS, K_OWN];
const VERSION_RECORD: &[u8] = br#"{"contract":"crates.io:cw-ica-controller","version":"0.20.0"}"#;
/// A valid address (per `Chain`) with symbolic contents.
pub fn cb_addr() -> String { let a = string(8); assume(addr_ok(&a)); a }
/// The only message of a response; false if there is not exactly one or if it asks for a reply.
pub fn sole<'a, C>(m: &'a [SubMsg<C>]) -> Option<&'a SubMsg<C>> { if m.len() == 1 { check(m[0].gas_limit.is_none(), "the message's gas is not limited"); Some(&m[0]) } else { None } }
pub fn opts_api(o: &MOpts) -> cw_ica_controller::types::msg::options::ChannelOpenInitOptions {
    cw_ica_controller::types::msg::options::ChannelOpenInitOptions { connection_id: o.connection_id.clone(), counterparty_connection_id: o.counterparty_connection_id.clone(), counterparty_port_id: o.counterparty_port_id.clone(), channel_ordering: o.channel_ordering.as_ref().map(|x| order(x)) }
}
