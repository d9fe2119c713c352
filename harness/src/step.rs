//! One arbitrary step of any entry point, used for frame conditions.
use crate::env::*;
use crate::vp::*;
use cosmwasm_std::*;
use cw_ica_controller::contract;
use cw_ica_controller::ibc::handshake::*;
use cw_ica_controller::ibc::relay::*;
use cw_ica_controller::types::msg::*;

#[derive(Clone, Copy, PartialEq)]
pub enum Kind { Create, Close, Callback, Send, SendQuery, Propose, Accept, OpenInit, OpenAck, CloseInit, CloseConfirm, AckOk, AckErr, Timeout, Reply, Migrate }
pub const STEPS: usize = 16;
/// A packet of the recorded account's channel, or of another one.
pub fn any_packet(w: &World) -> IbcPacket {
    let chan = match (&w.st.ica_info, flip()) { (Some(i), true) => i.channel_id.clone(), _ => string(9) };
    packet(&chan, 1 + choose(2) as u64)
}
pub fn packet(chan: &str, seq: u64) -> IbcPacket {
    IbcPacket::new(Binary::new(vec![1, 2]), IbcEndpoint { port_id: "wasm.wasm1ctl".into(), channel_id: chan.into() }, IbcEndpoint { port_id: "icahost".into(), channel_id: "channel-7".into() }, seq, IbcTimeout::with_timestamp(Timestamp::from_nanos(5)))
}
pub fn ack_ok(data: &[u8]) -> IbcAcknowledgement { IbcAcknowledgement::new(["{\"result\":\"", &Binary::from(data).to_base64(), "\"}"].concat().into_bytes()) }
pub fn ack_err(text: &str) -> IbcAcknowledgement { IbcAcknowledgement::new(["{\"error\":\"", text, "\"}"].concat().into_bytes()) }
pub fn step(w: &mut World, k: usize) -> (bool, Kind) {
    let own = w.owner.clone();
    let who = if matches!(k, 0..=6) && flip() { string(8) } else { own };
    let ex = |s: &mut Store, m: ExecuteMsg| outcome(|| contract::execute(deps!(*s), env(), info(&who), m)).is_some();
    let ch = |w: &World| match (&w.chan, flip()) { (Some(c), true) => c.channel.clone(), _ => crate::h_hs::good_init(&w.opts.as_ref().map_or_else(|| string(7), |o| o.connection_id.clone())) };
    match k {
        0 => { let o = opt(|| opts_api(&some_opts())); (ex(&mut w.s, ExecuteMsg::CreateChannel { channel_open_init_options: o }), Kind::Create) }
        1 => (ex(&mut w.s, ExecuteMsg::CloseChannel {}), Kind::Close),
        2 => { let c = opt(cb_addr); (ex(&mut w.s, ExecuteMsg::UpdateCallbackAddress { callback_address: c }), Kind::Callback) }
        3 | 4 => {
            if let Some(i) = &mut w.st.ica_info { i.ica_address = string_of(3, &TWO) }
            put_state(&mut w.s, &w.st);
            let q = k == 4;
            (ex(&mut w.s, ExecuteMsg::SendCosmosMsgs { messages: vec![BankMsg::Send { to_address: "to".into(), amount: vec![] }.into()], queries: if q { vec![BankQuery::Supply { denom: "atom".into() }.into()] } else { vec![] }, packet_memo: None, timeout_seconds: None }), if q { Kind::SendQuery } else { Kind::Send })
        }
        5 => (ex(&mut w.s, ExecuteMsg::UpdateOwnership(cw_ownable::Action::TransferOwnership { new_owner: "heir".into(), expiry: None })), Kind::Propose),
        6 => { put_own(&mut w.s, &MOwn { owner: Some(w.owner.clone()), pending_owner: Some(who.clone()), pending_expiry: None }); (ex(&mut w.s, ExecuteMsg::UpdateOwnership(cw_ownable::Action::AcceptOwnership)), Kind::Accept) }
        7 => { let c = ibc_channel(&ch(w)); (outcome(|| ibc_channel_open(deps!(w.s), any_env(), IbcChannelOpenMsg::new_init(c))).is_some(), Kind::OpenInit) }
        8 => { let mut c = ch(w); c.endpoint.port_id = "wasm.wasm1ctl".into(); let cv = ["{\"version\":\"ics27-1\",\"controller_connection_id\":\"", &c.connection_id, "\",\"host_connection_id\":\"", &string(7), "\",\"address\":\"acct\",\"encoding\":\"proto3\",\"tx_type\":\"sdk_multi_msg\"}"].concat(); (outcome(|| ibc_channel_connect(deps!(w.s), any_env(), IbcChannelConnectMsg::new_ack(ibc_channel(&c), cv))).is_some(), Kind::OpenAck) }
        9 | 10 => { let c = ibc_channel(&ch(w)); (outcome(|| ibc_channel_close(deps!(w.s), any_env(), if k == 9 { IbcChannelCloseMsg::new_init(c) } else { IbcChannelCloseMsg::new_confirm(c) })).is_some(), if k == 9 { Kind::CloseInit } else { Kind::CloseConfirm }) }
        11 | 12 => { let p = any_packet(w); let a = if k == 11 { ack_ok(b"") } else { ack_err(&string(4)) }; (outcome(|| ibc_packet_ack(deps!(w.s), any_env(), IbcPacketAckMsg::new(a, p, Addr::unchecked("relayer1")))).is_some(), if k == 11 { Kind::AckOk } else { Kind::AckErr }) }
        13 => { let p = any_packet(w); (outcome(|| ibc_packet_timeout(deps!(w.s), any_env(), IbcPacketTimeoutMsg::new(p, Addr::unchecked("relayer1")))).is_some(), Kind::Timeout) }
        14 => { w.s.put(K_QUERY, br#"[["/a",false]]"#); (reply_seq(&mut w.s, 1, 7), Kind::Reply) }
        _ => { w.s.put(K_CW2, br#"{"contract":"crates.io:cw-ica-controller","version":"0.1.0"}"#); (outcome(|| contract::migrate(deps!(w.s), any_env(), MigrateMsg {})).is_some(), Kind::Migrate) }
    }
}
/// The chain's reply to a sent packet: protobuf `MsgIBCSendResponse { sequence }`.
pub fn reply_seq(s: &mut Store, id: u64, seq: u64) -> bool { outcome(|| contract::reply(deps!(*s), any_env(), reply_msg(id, seq))).is_some() }
#[allow(deprecated)]
pub fn reply_msg(id: u64, seq: u64) -> Reply { Reply { id, payload: Binary::default(), gas_used: any_u64(), result: SubMsgResult::Ok(SubMsgResponse { events: vec![], data: Some(Binary::new(varint_field(1, seq))), msg_responses: vec![MsgResponse { type_url: "/cosmwasm.wasm.v1.MsgIBCSendResponse".into(), value: Binary::new(varint_field(1, seq)) }] }) } }
/// Protobuf varint field (proto3: zero is omitted).
pub fn varint_field(tag: u8, v: u64) -> Vec<u8> {
    if v == 0 { return vec![] }
    let mut o = vec![tag << 3];
    let mut v = v;
    while v >= 128 { o.push(v as u8 | 128); v >>= 7 }
    o.push(v as u8);
    o
}
