//! C03 instantiation, C04 channel-open requests.
use crate::env::*;
use crate::vp::*;
use cosmos_sdk_proto::ibc::core::channel::v1::MsgChannelOpenInit;
use cosmos_sdk_proto::traits::Message;
use cosmwasm_std::*;
use cw_ica_controller::contract;
use cw_ica_controller::types::msg::*;

/// The metadata the contract must propose.
pub fn expected_meta(o: &MOpts) -> crate::h_hs::MMeta {
    crate::h_hs::MMeta { version: "ics27-1".into(), controller_connection_id: o.connection_id.clone(), host_connection_id: o.counterparty_connection_id.clone(), address: String::new(), encoding: PROTO.into(), tx_type: "sdk_multi_msg".into() }
}
/// The single message of `msgs` is the channel-open request for options `o` of contract `me`.
pub fn check_open_request(msgs: &[SubMsg], o: &MOpts, me: &str) {
    let Some(m) = sole(msgs) else { check(F, "exactly one message: the channel-open request"); return };
    check(m.reply_on == ReplyOn::Never, "no reply is requested for the channel-open request");
    #[allow(deprecated)]
    let CosmosMsg::Stargate { type_url, value } = &m.msg else { check(F, "the message is a raw protobuf message"); return };
    check(seq(type_url, "/ibc.core.channel.v1.MsgChannelOpenInit"), "type of the channel-open request");
    let Ok(p) = MsgChannelOpenInit::decode(value.as_slice()) else { check(F, "the channel-open request is well-formed"); return };
    note("openinit", value.as_slice());
    check(seq(&p.signer, me), "signed by the contract");
    check(seq(&p.port_id, &["wasm.", me].concat()), "names the contract's own port");
    let Some(c) = p.channel else { check(F, "channel given"); return };
    check(c.state == 1, "channel state is INIT");
    let want = match o.channel_ordering.as_deref() { None | Some("ORDER_ORDERED") => 2, _ => 1 };
    check(c.ordering == want, "configured ordering, ordered by default");
    check(c.connection_hops.len() == 1, "one connection hop");
    check(c.connection_hops.first().map_or(F, |h| seq(h, &o.connection_id)), "the configured connection is the hop");
    check(crate::h_hs::meta_of(&c.version).map_or(F, |m| m.same(&expected_meta(o))), "version metadata");
    let Some(cp) = c.counterparty else { check(F, "counterparty given"); return };
    check(seq(&cp.port_id, o.counterparty_port_id.as_deref().unwrap_or("icahost")), "configured counterparty port, host port by default");
    check(cp.channel_id.is_empty(), "no counterparty channel yet");
}
/// Option sets with several text lengths.
pub fn varied_opts() -> MOpts {
    let (a, b, c) = match choose(tier(3, 4)) { 0 => (12, 6, 7), 1 => (1, 13, 0), 2 => (7, 1, 20), _ => (0, 0, 1) };
    MOpts { connection_id: string(a), counterparty_connection_id: string(b), counterparty_port_id: opt(|| string(c)), channel_ordering: match choose(3) { 0 => None, k => Some(ORDERS[k - 1].into()) } }
}

pub fn c03_instantiate() {
    let mut s = Store::default();
    let sender = string(8);
    let owner = opt(|| sized(&[8, 1, 0]));
    let cb = opt(|| sized(&[7, 1, 0]));
    let o = any_opts();
    let me = string(10);
    let msg = InstantiateMsg { owner: owner.clone(), channel_open_init_options: opts_api(&o), send_callbacks_to: cb.clone() };
    let r = outcome(|| contract::instantiate(deps!(s), env_at(any_u64(), any_u64(), &me), info(&sender), msg));
    let want_owner = owner.clone().unwrap_or(sender.clone());
    let valid = addr_ok(&want_owner) & cb.as_ref().map_or(T, |c| addr_ok(c));
    match r {
        None => { cover("refused"); check(!valid, "instantiation with valid addresses succeeds"); }
        Some(r) => {
            cover("instantiated");
            check(valid, "owner and callback address are validated");
            check(get::<MOwn>(&s, K_OWN).map_or(F, |x| oseq(&x.owner, &Some(want_owner)) & B::from(x.pending_owner.is_none() && x.pending_expiry.is_none())), "owner is the configured one or the instantiator, no proposal pending");
            check(get::<MState>(&s, K_STATE).map_or(F, |x| oseq(&x.callback_address, &cb) & B::from(x.ica_info.is_none())), "callback address as configured, no account yet");
            check(get::<MOpts>(&s, K_OPTS).map_or(F, |x| opts_eq(&x, &o)), "options remembered");
            check(get::<MVersion>(&s, K_CW2).map_or(F, |x| seq(&x.contract, "crates.io:cw-ica-controller") & seq(&x.version, cw_ica_controller::types::keys::CONTRACT_VERSION) & B::from(!x.version.is_empty())), "name and version recorded");
            check(s.raw(K_CHAN).is_none(), "no channel recorded");
            check(flag(&s, K_OPEN), "the requested handshake is permitted");
            check(!flag(&s, K_CLOSE), "no closing permitted");
            check(s.raw(K_QUERY).is_none() && s.kv.iter().all(|(k, _)| k.first() != Some(&0)), "no outstanding queries");
            check_open_request(&r.messages, &o, &me);
            note("state", s.raw(K_STATE).unwrap());
        }
    }
}

/// The handshake that the instantiation asked for goes through, exactly once.
pub fn c03_then_open() {
    let mut s = Store::default();
    let o = any_opts();
    let me = string(10);
    let msg = InstantiateMsg { owner: None, channel_open_init_options: opts_api(&o), send_callbacks_to: None };
    let sender = cb_addr();
    let Some(r) = outcome(|| contract::instantiate(deps!(s), env_at(any_u64(), any_u64(), &me), info(&sender), msg)) else { check(F, "instantiates"); return };
    #[allow(deprecated)]
    let CosmosMsg::Stargate { value, .. } = &r.messages[0].msg else { return };
    let p = MsgChannelOpenInit::decode(value.as_slice()).unwrap();
    let c = p.channel.unwrap();
    let ch = || IbcChannel::new(IbcEndpoint { port_id: p.port_id.clone(), channel_id: "channel-0".into() }, IbcEndpoint { port_id: c.counterparty.clone().unwrap().port_id, channel_id: String::new() }, if c.ordering == 2 { IbcOrder::Ordered } else { IbcOrder::Unordered }, c.version.clone(), c.connection_hops[0].clone());
    let r = outcome(|| cw_ica_controller::ibc::handshake::ibc_channel_open(deps!(s), any_env(), IbcChannelOpenMsg::new_init(ch())));
    let host = o.counterparty_port_id.as_ref().map_or(T, |x| seq(x, "icahost"));
    if r.is_some() { cover("opened"); check(host, "only the host port") } else { cover("refused"); check(!host, "the handshake requested at instantiation is accepted"); return }
    let r = outcome(|| cw_ica_controller::ibc::handshake::ibc_channel_open(deps!(s), any_env(), IbcChannelOpenMsg::new_init(ch())));
    check(r.is_none(), "and only once");
}

pub fn c04_create_channel() {
    let mut w = (if flip() { World::fresh() } else { World::opened(true, choose(2)) }).freeing(&[K_CHAN, K_STATE]);
    w.open = ANY_FLAG;
    let stored = opt(varied_opts);
    w.opts = stored.clone();
    let given = opt(varied_opts);
    let me = sized(&[10, 43]);
    let before = w.save();
    let o = w.owner.clone();
    let m = ExecuteMsg::CreateChannel { channel_open_init_options: given.as_ref().map(opts_api) };
    let r = outcome(|| contract::execute(deps!(w.s), env_at(any_u64(), any_u64(), &me), info(&o), m));
    let used = given.or(stored);
    match (r, used) {
        (Some(r), Some(u)) => {
            cover("requested");
            check_open_request(&r.messages, &u, &me);
            check(get::<MOpts>(&w.s, K_OPTS).map_or(F, |x| opts_eq(&x, &u)), "the options used are the ones remembered");
            check(flag(&w.s, K_OPEN), "the requested handshake is permitted");
            check(same_except(&before, &w.s, &[K_OPTS, K_OPEN]), "nothing else changes");
        }
        (Some(_), None) => { check(F, "a request without any options fails"); }
        (None, Some(_)) => { check(F, "the owner's request with options succeeds"); }
        (None, None) => cover("no options"),
    }
}
pub fn c04_instantiate() {
    let mut s = Store::default();
    let o = varied_opts();
    let me = sized(&[10, 43, 1]);
    let sender = cb_addr();
    let m = InstantiateMsg { owner: None, channel_open_init_options: opts_api(&o), send_callbacks_to: None };
    let Some(r) = outcome(|| contract::instantiate(deps!(s), env_at(any_u64(), any_u64(), &me), info(&sender), m)) else { check(F, "instantiates"); return };
    cover("instantiated");
    check_open_request(&r.messages, &o, &me);
}
/// Two create-channel requests: the second without options reuses the first's.
pub fn c04_reuse() {
    let mut w = World::fresh().freeing(&[K_STATE]);
    w.save();
    let own = w.owner.clone();
    let given = opt(any_opts);
    let first = given.clone().unwrap_or_else(|| w.opts.clone().unwrap());
    for g in [given, None] {
        let m = ExecuteMsg::CreateChannel { channel_open_init_options: g.as_ref().map(opts_api) };
        let Some(r) = outcome(|| contract::execute(deps!(w.s), env(), info(&own), m)) else { check(F, "accepted"); return };
        cover("requested");
        check_open_request(&r.messages, &first, CONTRACT);
    }
}
crate::harnesses!(REG: c03_instantiate c03_then_open c04_create_channel c04_instantiate c04_reuse);
