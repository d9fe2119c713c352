//! C11 timeouts, C16 query bookkeeping, C17 query results, C19 callbacks, C20 acknowledgements.
use crate::env::*;
use crate::h_hs::{world_by, good_init, MMeta};
use crate::step::*;
use crate::vp::*;
use cosmos_sdk_proto::cosmos::base::abci::v1beta1::TxMsgData;
use cosmos_sdk_proto::traits::Message;
use cosmos_sdk_proto::Any;
use cosmwasm_std::*;
use cw_ica_controller::contract;
use cw_ica_controller::ibc::handshake::*;
use cw_ica_controller::ibc::relay::*;
use cw_ica_controller::types::msg::*;
use serde::Deserialize;

// ---------- what a callback receiver sees ----------
#[derive(Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum MRecv { ReceiveIcaCallback(MCb) }
#[derive(Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum MCb {
    OnAcknowledgementPacketCallback { ica_acknowledgement: MAck, original_packet: IbcPacket, relayer: String, #[serde(default)] query_result: Option<MResult> },
    OnTimeoutPacketCallback { original_packet: IbcPacket, relayer: String },
    OnChannelOpenAckCallback { channel: MChan, ica_address: String, tx_encoding: String },
}
#[derive(Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum MAck { Result(Binary), Error(String) }
#[derive(Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum MResult { Success { height: u64, responses: Vec<MResp> }, Error(String) }
#[derive(Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum MResp { Stargate { data: Binary, path: String }, Bank(MBank), Wasm(MWasm) }
#[derive(Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum MBank { Supply { amount: Coin }, Balance { amount: Coin } }
#[derive(Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum MWasm { SmartContractState(Binary), RawContractState(Option<Binary>) }

/// The single message is an execute call without funds to `to`; its parsed payload.
pub fn callback<C: Clone>(msgs: &[SubMsg<C>], to: &str) -> Option<MCb> where CosmosMsg<C>: Clone {
    let m = sole(msgs)?;
    if m.reply_on != ReplyOn::Never { return None }
    match &m.msg {
        CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => {
            check(seq(contract_addr, to), "the callback goes to the configured address");
            check(funds.is_empty(), "the callback carries no funds");
            note("callback", msg.as_slice());
            from_json::<MRecv>(msg.as_slice()).ok().map(|MRecv::ReceiveIcaCallback(c)| c)
        }
        _ => None,
    }
}
pub fn packet_eq(a: &IbcPacket, b: &IbcPacket) -> B {
    let ts = |p: &IbcPacket| p.timeout.timestamp().map(|t| t.nanos());
    let to = match (ts(a), ts(b)) { (Some(x), Some(y)) => eq64(x, y), (None, None) => T, _ => F };
    let bl = match (a.timeout.block(), b.timeout.block()) { (Some(x), Some(y)) => eq64(x.height, y.height) & eq64(x.revision, y.revision), (None, None) => T, _ => F };
    eq(&a.data, &b.data) & seq(&a.src.port_id, &b.src.port_id) & seq(&a.src.channel_id, &b.src.channel_id) & seq(&a.dest.port_id, &b.dest.port_id) & seq(&a.dest.channel_id, &b.dest.channel_id) & eq64(a.sequence, b.sequence) & to & bl
}
/// A packet with symbolic contents on channel `chan`.
pub fn rich_packet(chan: &str, ax: &Axis, dim: usize) -> IbcPacket {
    let r = ax.pick(dim + 2, tier(4, 5));
    let (num, seq) = (|| num_at(r), num_at(r));
    let t = match ax.pick(dim, 3) { 0 => IbcTimeout::with_timestamp(Timestamp::from_nanos(num())), 1 => IbcTimeout::with_block(IbcTimeoutBlock { revision: 3, height: num() }), _ => IbcTimeout::with_both(IbcTimeoutBlock { revision: num(), height: 9 }, Timestamp::from_nanos(77)) };
    let data = [3, 0, 1, 2, 4][ax.pick(dim + 1, 5)];
    IbcPacket::new(Binary::new(bytes_of(data, &ANY)), IbcEndpoint { port_id: string(PORT), channel_id: chan.into() }, IbcEndpoint { port_id: string(7), channel_id: string(9) }, seq, t)
}
/// A packet of another form: its timeout, data or destination.
pub const FORMS: usize = 5;
pub fn formed(mut p: IbcPacket, k: usize) -> IbcPacket {
    let b = IbcTimeoutBlock { revision: 3, height: 9 };
    match k {
        0 => {}
        1 => p.timeout = IbcTimeout::with_block(b),
        2 => { p.timeout = IbcTimeout::with_both(b, Timestamp::from_nanos(77)); p.data = Binary::new(bytes_of(3, &ANY)) }
        3 => p.data = Binary::default(),
        _ => { p.timeout = IbcTimeout::with_block(b); p.dest = IbcEndpoint { port_id: string(7), channel_id: string(9) }; p.src.port_id = string(PORT) }
    }
    p
}
/// A timeout of any form.
pub fn some_timeout() -> IbcTimeout { let b = IbcTimeoutBlock { revision: 3, height: 9 }; match choose(3) { 0 => IbcTimeout::with_timestamp(Timestamp::from_nanos(77)), 1 => IbcTimeout::with_block(b), _ => IbcTimeout::with_both(b, Timestamp::from_nanos(77)) } }
pub fn ack_msg(a: IbcAcknowledgement, p: IbcPacket, r: &str) -> IbcPacketAckMsg { IbcPacketAckMsg::new(a, p, Addr::unchecked(r)) }
pub fn do_ack(s: &mut Store, a: IbcAcknowledgement, p: IbcPacket, r: &str) -> Option<IbcBasicResponse> { outcome(|| ibc_packet_ack(deps!(*s), any_env(), ack_msg(a, p, r))) }
pub fn do_timeout(s: &mut Store, p: IbcPacket, r: &str) -> Option<IbcBasicResponse> { outcome(|| ibc_packet_timeout(deps!(*s), any_env(), IbcPacketTimeoutMsg::new(p, Addr::unchecked(r)))) }
/// JSON of a path list as recorded for a query packet.
pub fn paths_json(p: &[(String, bool)]) -> String {
    let mut o = String::from("[");
    for (i, (a, b)) in p.iter().enumerate() { if i > 0 { o.push(',') } o.push_str("[\""); o.push_str(a); o.push_str(if *b { "\",true]" } else { "\",false]" }) }
    o.push(']');
    o
}
pub fn has_pending(s: &Store, chan: &str, seq: u64) -> bool { s.raw(&k_pending(chan, seq)).is_some() }
/// Records in the pending-queries map.
pub fn pending_count(s: &Store) -> usize { s.kv.iter().filter(|(k, _)| k.len() > 17 && &k[2..17] == PENDING).count() }

/// C11: what a timeout does to the channel and the bookkeeping.
pub fn c11_timeout() {
    let ord = choose(2);
    let mut w = world_by(1 + choose(7), flip(), ord).freeing(OPEN_ACK_FREE);
    let chan = w.chan.as_ref().unwrap().channel.endpoint.channel_id.clone();
    let mine = flip();
    let pc = if mine { chan.clone() } else { sized(&[9, 10]) };
    let sq = num();
    w.save();
    // records of this packet, of its neighbour on the same channel, and of the same number on another channel
    let rec = flip();
    if rec { w.s.put(&k_pending(&pc, sq), b"[[\"/a\",true]]") }
    w.s.put(&k_pending(&pc, sq ^ 1), b"[[\"/b\",false]]");
    w.s.put(&k_pending("channel-999", sq), b"[[\"/c\",true]]");
    let before = w.s.clone();
    let mut p = packet(&pc, sq);
    p.src.port_id = w.chan.as_ref().unwrap().channel.endpoint.port_id.clone();
    p.timeout = some_timeout();
    let r = do_timeout(&mut w.s, p, &string(8));
    check(r.is_some(), "a timeout is always processed");
    if r.is_none() { return }
    cover(if mine { "own channel" } else { "other channel" });
    let hit = seq(&pc, &chan) & B::from(ord == 0);
    let old = w.chan.clone().unwrap();
    let new: Option<MChanState> = get(&w.s, K_CHAN);
    check(new.as_ref().map_or(F, |n| chan_eq(&n.channel, &old.channel)), "channel details are kept");
    check(new.as_ref().map_or(F, |n| (hit & seq(&n.channel_status, "STATE_CLOSED")) | (!hit & seq(&n.channel_status, &old.channel_status))), "closed exactly if it is the packet's channel and ordered");
    check(!has_pending(&w.s, &pc, sq), "the packet's record is dropped");
    check(w.s.raw(&k_pending(&pc, sq ^ 1)).map_or(F, |x| eq(x, b"[[\"/b\",false]]")), "the neighbour's record is kept");
    check(w.s.raw(&k_pending("channel-999", sq)).map_or(F, |x| eq(x, b"[[\"/c\",true]]")), "another channel's record is kept");
    check(same_except(&before, &w.s, &[K_CHAN, PENDING]), "nothing else changes");
}
/// C11: the packet that times out was sent on a channel that has since been replaced.
pub fn c11_replaced() {
    let mut w = World::fresh();
    w.open = IS(true);
    w.save();
    let own = w.owner.clone();
    let conn = w.opts.as_ref().unwrap().connection_id.clone();
    let mut ids = vec![];
    for i in 0..2 {
        if i > 0 { let r = outcome(|| contract::execute(deps!(w.s), env(), info(&own), ExecuteMsg::CreateChannel { channel_open_init_options: None })); check(r.is_some(), "the owner can request another channel") }
        let mut c = good_init(&conn);
        c.counterparty_endpoint.channel_id = "channel-7".into();
        assume(!seq(&c.endpoint.port_id, "icahost"));
        let m = MMeta { version: "ics27-1".into(), controller_connection_id: conn.clone(), host_connection_id: "h".into(), address: "acct".into(), encoding: PROTO.into(), tx_type: "sdk_multi_msg".into() };
        if i > 0 { let o: &MChan = &ids[0]; assume(!seq(&o.endpoint.channel_id, &c.endpoint.channel_id)) }
        check(outcome(|| ibc_channel_open(deps!(w.s), any_env(), IbcChannelOpenMsg::new_init(ibc_channel(&c)))).is_some(), "handshake starts");
        check(outcome(|| ibc_channel_connect(deps!(w.s), any_env(), IbcChannelConnectMsg::new_ack(ibc_channel(&c), m.text()))).is_some(), "handshake completes");
        c.version = m.text();
        if i == 0 { check(outcome(|| ibc_channel_close(deps!(w.s), any_env(), IbcChannelCloseMsg::new_confirm(ibc_channel(&c)))).is_some(), "first channel closes") }
        ids.push(c);
    }
    let old = flip();
    let c = &ids[if old { 0 } else { 1 }];
    let mut p = packet(&c.endpoint.channel_id, 1);
    p.src.port_id = c.endpoint.port_id.clone();
    check(do_timeout(&mut w.s, p, "relayer1").is_some(), "the timeout is processed");
    cover(if old { "old" } else { "new" });
    let open = old || ids[1].order == ORDERS[1];
    check(get::<MChanState>(&w.s, K_CHAN).map_or(F, |x| chan_eq(&x.channel, &ids[1]) & seq(&x.channel_status, if open { "STATE_OPEN" } else { "STATE_CLOSED" })), "only a timeout on the current ordered channel closes it");
}

// ---------- C16 ----------
fn some_paths(n: usize) -> Vec<(String, bool)> { (0..n).map(|i| (string(4 + i), flip())).collect() }
/// C16: the chain's reply stores the queries under the assigned sequence.
pub fn c16_reply() {
    let mut w = world_by(1 + choose(2), flip(), 0).freeing(ACK_FREE);
    let chan = w.chan.as_ref().unwrap().channel.endpoint.channel_id.clone();
    let n = 1 + choose(tier(2, 3));
    let paths = paths_json(&some_paths(n));
    w.save();
    let sq = u64_in(1, u64::MAX);
    let other = flip();
    w.s.put(K_QUERY, paths.as_bytes());
    if other { w.s.put(&k_pending(&chan, sq.wrapping_add(1)), b"[[\"/b\",false]]"); w.s.put(&k_pending("channel-999", sq), b"[[\"/c\",true]]") }
    let before = w.s.clone();
    let k = choose(6);
    let (id, mut m) = match k { 1 => { let i = any_u64(); (i, reply_msg(i, sq)) } _ => (1, reply_msg(1, sq)) };
    match k { 2 => m.result = SubMsgResult::Err(string(5)), 3 => w.s.remove(K_QUERY), 4 => { w.st.ica_info = None; put_state(&mut w.s, &w.st); w.s.remove(K_CHAN) } _ => {} }
    let r = outcome(|| contract::reply(deps!(w.s), any_env(), m));
    match r {
        Some(r) => {
            cover("recorded");
            check(eq64(id, 1) & B::from(k < 2 || k == 5), "unknown or failed replies, or replies without a sent query, abort");
            check(r.messages.is_empty(), "a reply sends nothing");
            check(w.s.raw(&k_pending(&chan, sq)).map_or(F, |x| eq(x, paths.as_bytes())), "queries recorded under the account's channel and the assigned sequence");
            check(w.s.raw(K_QUERY).is_none(), "no longer waiting for a sequence");
            check(pending_kept(&before, &w.s), "other packets' records are kept");
            check(pending_count(&w.s) == 1 + if other { 2 } else { 0 }, "no further record");
            check(same_except(&before, &w.s, &[K_QUERY, PENDING]), "nothing else changes");
        }
        None => { cover("aborted"); check(!eq64(id, 1) | B::from(matches!(k, 2..=4)), "a good reply is accepted"); }
    }
}
/// C16: malformed reply data aborts rather than recording under a wrong sequence.
#[allow(deprecated)]
pub fn c16_reply_garbage() {
    let mut w = World::opened(false, 0).freeing(ACK_FREE);
    let chan = w.st.ica_info.as_ref().unwrap().channel_id.clone();
    w.save();
    w.s.put(K_QUERY, b"[[\"/a\",true]]");
    let n = 1 + choose(tier(2, 3));
    let b = bytes_of(n, &ANY);
    let mut m = reply_msg(1, 1);
    if let SubMsgResult::Ok(r) = &mut m.result { r.data = Some(Binary::new(b.clone())); for x in r.msg_responses.iter_mut() { x.value = Binary::new(b.clone()) } }
    let Some(_) = outcome(|| contract::reply(deps!(w.s), any_env(), m)) else { cover("aborted"); return };
    cover("accepted");
    // whatever was recorded is under one sequence: the last occurrence of varint field 1 (0 if absent)
    check(pending_count(&w.s) == 1, "one record");
    if n == 2 { check(!eq(&b, &[10, 0]), "a sequence of the wrong kind aborts") }
    if n == 2 { check(!eq(&b[..1], &[8]) | !lt64(b[1] as u64, 128) | B::from(has_pending(&w.s, &chan, b[1] as u64)), "recorded under the assigned sequence") }
}
/// C16: a packet's record disappears with its acknowledgement or timeout, and only that record.
pub fn c16_resolve() {
    let mut w = world_by(1 + choose(2), flip(), choose(2)).freeing(OPEN_ACK_FREE);
    let chan = w.chan.as_ref().unwrap().channel.endpoint.channel_id.clone();
    let pc = if flip() { chan.clone() } else { sized(&[9, 8]) };
    let sq = num();
    w.save();
    if flip() { w.s.put(&k_pending(&pc, sq), b"[[\"/a\",true]]") }
    let near = match choose(3) { 0 => sq ^ 1, 1 => sq ^ 256, _ => sq ^ (1 << 63) };
    w.s.put(&k_pending(&pc, near), b"[[\"/b\",false]]");
    w.s.put(&k_pending("channel-999", sq), b"[[\"/c\",true]]");
    let before = w.s.clone();
    // sequences are printed in events; the event content is C20's business
    let mut p = packet(&pc, sq);
    p.timeout = some_timeout();
    let k = choose(3);
    let r = match k { 0 => do_ack(&mut w.s, ack_ok(&query_ack(1, &[b"x".to_vec()], 0)), p, "relayer1"), 1 => do_ack(&mut w.s, ack_err(&string(4)), p, "relayer1"), _ => do_timeout(&mut w.s, p, "relayer1") };
    check(r.is_some(), "processed");
    cover(["acknowledged", "failed", "timed out"][k]);
    check(!has_pending(&w.s, &pc, sq), "the packet's record is gone");
    let mut want = before.clone();
    want.remove(&k_pending(&pc, sq));
    check(pending_kept(&want, &w.s) & pending_kept(&w.s, &want), "other packets' records are unchanged");
}
/// C16: no other step touches the records; sending queries never records anything by itself.
pub fn c16_frame() {
    let k = choose(STEPS);
    let mut w = world_by([0, 1, 2][choose(3)], flip(), 0);
    w.save();
    let id = w.st.ica_info.as_ref().map_or("channel-0".to_string(), |i| i.channel_id.clone());
    w.s.put(&k_pending(&id, 5), b"[[\"/a\",true]]");
    w.s.put(&k_pending("channel-9999", 1), b"[[\"/c\",true]]");
    let before = w.s.clone();
    let (ok, kind) = step(&mut w, k);
    if !ok { return }
    cover("ran");
    check(pending_kept(&before, &w.s), "records stay until their packet is resolved");
    if kind != Kind::Reply { check(pending_kept(&w.s, &before), "only the chain's reply adds a record") }
}
/// C16: several query packets in flight; each reply gets its own record, resolved in any order.
pub fn c16_flow() {
    let mut w = World::opened(true, 1);
    w.save();
    let (own, chan) = (w.owner.clone(), w.st.ica_info.as_ref().unwrap().channel_id.clone());
    let cb = w.st.callback_address.clone().unwrap();
    let n = 2;
    let mut seqs = vec![];
    for i in 0..n {
        let q: Vec<QueryRequest> = (0..=i).map(|j| raw_query(&format!("/q{i}{j}"), b"d")).collect();
        w.st.ica_info.as_mut().unwrap().ica_address = "acct".into();
        put_state(&mut w.s, &w.st);
        let Some(r) = outcome(|| contract::execute(deps!(w.s), env(), info(&own), ExecuteMsg::SendCosmosMsgs { messages: vec![], queries: q, packet_memo: [None, Some(String::new()), Some("m".to_string())][choose(3)].clone(), timeout_seconds: None })) else { check(F, "sent"); return };
        let Some(m) = sole(&r.messages) else { check(F, "one packet"); return };
        check(m.reply_on == ReplyOn::Success, "reply requested");
        let sq = num3();
        if let Some(p) = seqs.first() { assume(!eq64(*p, sq)) }
        let mut rep = reply_msg(m.id, sq);
        rep.payload = m.payload.clone();
        check(outcome(|| contract::reply(deps!(w.s), any_env(), rep)).is_some(), "reply accepted");
        seqs.push(sq);
    }
    let first = choose(2);
    for i in [first, 1 - first] {
        let res: Vec<Vec<u8>> = (0..=i).map(|j| vec![b'0' + i as u8, b'0' + j as u8]).collect();
        let mut p = packet(&chan, seqs[i]);
        p.src.port_id = w.chan.as_ref().unwrap().channel.endpoint.port_id.clone();
        let k = choose(3);
        let r = match k { 0 => do_ack(&mut w.s, ack_ok(&query_ack(7, &res, 0)), p, "relayer1"), 1 => do_ack(&mut w.s, ack_err("no"), p, "relayer1"), _ => do_timeout(&mut w.s, p, "relayer1") };
        let Some(r) = r else { check(F, "resolved"); return };
        match (k, callback(&r.messages, &cb)) {
            (0, Some(MCb::OnAcknowledgementPacketCallback { query_result: Some(MResult::Success { height, responses }), .. })) => {
                cover("answered");
                check(height == 7 && responses.len() == i + 1, "as many responses as queries");
                for (j, x) in responses.iter().enumerate() { match x { MResp::Stargate { data, path } => { check(eq(data, &res[j]), "response data in order"); check(seq(path, &format!("/q{i}{j}")), "response of that packet's query") } _ => check(F, "raw response") } }
            }
            (1, Some(MCb::OnAcknowledgementPacketCallback { query_result: Some(MResult::Error(_)), .. })) => cover("failed"),
            (2, Some(MCb::OnTimeoutPacketCallback { .. })) => cover("timed out"),
            _ => check(F, "the callback matches the outcome"),
        }
        check(!has_pending(&w.s, &chan, seqs[i]), "record gone");
    }
    check(pending_count(&w.s) == 0, "nothing outstanding at the end");
}
#[allow(deprecated)]
pub fn raw_query(path: &str, data: &[u8]) -> QueryRequest { QueryRequest::Stargate { path: path.into(), data: Binary::from(data) } }

// ---------- C17 ----------
#[derive(Clone, PartialEq, prost::Message)]
pub struct PQueryResp { #[prost(uint64, tag = "1")] pub height: u64, #[prost(bytes = "vec", repeated, tag = "2")] pub responses: Vec<Vec<u8>> }
/// Acknowledgement bytes of a query packet whose transaction had `before` other messages.
pub fn query_ack(height: u64, responses: &[Vec<u8>], before: usize) -> Vec<u8> {
    let q = PQueryResp { height, responses: responses.to_vec() };
    let mut m: Vec<Any> = (0..before).map(|i| Any { type_url: "/cosmos.bank.v1beta1.MsgSendResponse".into(), value: vec![8, i as u8] }).collect();
    m.push(Any { type_url: "/ibc.applications.interchain_accounts.host.v1.MsgModuleQuerySafeResponse".into(), value: prost::Message::encode_to_vec(&q) });
    TxMsgData { msg_responses: m, ..Default::default() }.encode_to_vec()
}
/// C17: successful acknowledgement.
pub fn c17_success() {
    let mut w = world_by(1 + choose(2), true, choose(2)).freeing(ACK_FREE);
    let chan = w.chan.as_ref().unwrap().channel.endpoint.channel_id.clone();
    let cb = w.st.callback_address.clone().unwrap();
    w.save();
    let asked = choose(tier(3, 4)); // 0: the packet had no queries
    let got = choose(tier(3, 4));
    let sq = num3();
    let mine = flip();
    let pc = if mine { chan.clone() } else { "channel-31".to_string() };
    let paths: Vec<(String, bool)> = (0..asked).map(|i| (string(4 + i), true)).collect();
    if asked > 0 { w.s.put(&k_pending(&pc, sq), paths_json(&paths).as_bytes()) }
    // decoys: the neighbouring packet and the same number on another channel had other queries
    w.s.put(&k_pending(&pc, sq + 1), b"[[\"/x\",true],[\"/y\",true]]");
    w.s.put(&k_pending("channel-999", sq), b"[[\"/z\",true]]");
    let height = num();
    let res: Vec<Vec<u8>> = (0..got).map(|i| bytes_of(if i == 0 { 3 } else { choose(2) }, &ANY)).collect();
    let r = do_ack(&mut w.s, ack_ok(&query_ack(height, &res, choose(2))), formed(packet(&pc, sq), (asked + 2 * got + mine as usize) % FORMS), &string(8));
    let Some(r) = r else { check(F, "a successful acknowledgement is processed"); return };
    let Some(MCb::OnAcknowledgementPacketCallback { query_result, .. }) = callback(&r.messages, &cb) else { check(F, "acknowledgement callback"); return };
    match query_result {
        None => { cover("no queries"); check(asked == 0, "a packet with queries reports their result") }
        Some(MResult::Error(_)) => { cover("count differs"); check(asked > 0 && asked != got, "an error result only for a wrong number of responses") }
        Some(MResult::Success { height: h, responses }) => {
            cover("responses");
            check(asked > 0 && asked == got && responses.len() == got, "responses exactly if the numbers match");
            check(eq64(h, height), "the host's height");
            for (i, x) in responses.iter().enumerate() { match x { MResp::Stargate { data, path } => { check(eq(data, &res[i]), "response bytes unchanged and in order"); check(seq(path, &paths[i].0), "response attributed to its query") } _ => check(F, "raw response") } }
        }
    }
}
/// C17: decoded kinds mixed with raw ones; an undecodable response makes an error result.
pub fn c17_mixed() {
    let mut w = world_by(1, true, 0).freeing(ACK_FREE);
    let chan = w.chan.as_ref().unwrap().channel.endpoint.channel_id.clone();
    let cb = w.st.callback_address.clone().unwrap();
    w.save();
    w.s.put(&k_pending(&chan, 4), b"[[\"/cosmwasm.wasm.v1.Query/SmartContractState\",false],[\"/cosmos.bank.v1beta1.Query/SupplyOf\",false],[\"/raw\",true]]");
    let bad = choose(5);
    // an empty response is a message without fields
    let d = bytes_of([3, 0][choose(2)], &ANY);
    let smart = if bad == 1 { vec![10, 9, 1] } else if d.is_empty() { vec![] } else { [&[10, 3][..], &d].concat() };
    let amt = string_of(3, &DIGIT);
    let coin = [&[10, 4][..], b"atom", &[18, 3], if bad == 2 { b"1x2" } else { amt.as_bytes() }].concat();
    let supply = [&[10, coin.len() as u8][..], &coin].concat();
    let mut res = vec![smart, supply, vec![255, 1]];
    if bad == 3 { res.swap(0, 1) }
    if bad == 4 { res.push(vec![]) }
    let Some(r) = do_ack(&mut w.s, ack_ok(&query_ack(5, &res, 1)), packet(&chan, 4), "relayer1") else { check(F, "processed"); return };
    let Some(MCb::OnAcknowledgementPacketCallback { query_result, .. }) = callback(&r.messages, &cb) else { check(F, "acknowledgement callback"); return };
    match query_result {
        Some(MResult::Error(_)) => { cover("undecodable"); check(bad != 0, "decodable responses are reported") }
        Some(MResult::Success { height, responses }) => {
            cover("decoded");
            check(bad == 0 || bad == 3, "an undecodable response is an error result");
            if bad == 3 { return } // swapped kinds may happen to decode; C18 covers what they decode to
            check(height == 5 && responses.len() == 3, "all responses");
            match &responses[0] { MResp::Wasm(MWasm::SmartContractState(x)) => check(eq(x, &d), "smart response"), _ => check(F, "smart response kind") }
            match &responses[1] { MResp::Bank(MBank::Supply { amount }) => check(seq(&amount.denom, "atom") & eq64(amount.amount.u128() as u64, dec3(&amt)), "supply response"), _ => check(F, "supply response kind") }
            match &responses[2] { MResp::Stargate { data, path } => { check(eq(data, &[255, 1]), "raw response"); check(seq(path, "/raw"), "raw path") } _ => check(F, "raw response kind") }
        }
        None => check(F, "a packet with queries reports their result"),
    }
}
/// Value of a three-digit decimal text.
pub fn dec3(s: &str) -> u64 { let b = s.as_bytes(); (b[0] - 48) as u64 * 100 + (b[1] - 48) as u64 * 10 + (b[2] - 48) as u64 }
/// C17: failed packet.
pub fn c17_failure() {
    let mut w = world_by(1 + choose(2), true, choose(2)).freeing(ACK_FREE);
    let chan = w.chan.as_ref().unwrap().channel.endpoint.channel_id.clone();
    let cb = w.st.callback_address.clone().unwrap();
    w.save();
    let sq = num3();
    let asked = flip();
    let pc = if flip() { chan } else { "channel-31".to_string() };
    if asked { w.s.put(&k_pending(&pc, sq), b"[[\"/a\",true]]") }
    w.s.put(&k_pending(&pc, sq + 1), b"[[\"/x\",true],[\"/y\",true]]");
    w.s.put(&k_pending("channel-999", sq), b"[[\"/z\",true]]");
    let t = sized(&[5, 0]);
    let Some(r) = do_ack(&mut w.s, ack_err(&t), packet(&pc, sq), "relayer1") else { check(F, "a failed acknowledgement is processed"); return };
    match callback(&r.messages, &cb) {
        Some(MCb::OnAcknowledgementPacketCallback { query_result: None, .. }) => { cover("no queries"); check(!asked, "a failed packet with queries reports an error result") }
        Some(MCb::OnAcknowledgementPacketCallback { query_result: Some(MResult::Error(e)), .. }) => { cover("queries failed"); check(asked, "a failed packet without queries reports no query result"); check(seq(&e, &t), "the host's error text") }
        _ => check(F, "a failed packet never reports responses"),
    }
}
/// C17: if the result bytes hold no decodable query response, no responses are ever reported.
pub fn c17_garbage() {
    let mut w = world_by(1, true, 0).freeing(ACK_FREE);
    let chan = w.chan.as_ref().unwrap().channel.endpoint.channel_id.clone();
    let cb = w.st.callback_address.clone().unwrap();
    w.save();
    w.s.put(&k_pending(&chan, 4), b"[[\"/a\",true]]");
    let n = choose(tier(4, 5));
    let d = bytes_of(n, &ANY);
    let Some(r) = do_ack(&mut w.s, ack_ok(&d), packet(&chan, 4), "relayer1") else { cover("refused"); return };
    match callback(&r.messages, &cb) {
        Some(MCb::OnAcknowledgementPacketCallback { query_result: Some(MResult::Error(_)), .. }) => cover("error result"),
        _ => check(F, "no responses are made up"),
    }
}

// ---------- C19 ----------
/// C19: acknowledgement and timeout callbacks.
pub fn c19_packets() {
    let cb = flip();
    let k = choose(3);
    let ax = pairs(8);
    let mut w = world_by(1 + ax.pick(0, 7), cb, choose(2)).freeing(if k == 2 { OPEN_ACK_FREE } else { ACK_FREE });
    let chan = if ax.pick(1, 2) == 0 { w.chan.as_ref().unwrap().channel.endpoint.channel_id.clone() } else { string(9) };
    w.save();
    let p = rich_packet(&chan, &ax, 2);
    let rel = string([8, 1, 43][ax.pick(7, 3)]);
    // the packet had queries, or only one on another channel did
    let rec = ax.pick(6, 3);
    match rec { 1 => w.s.put(&k_pending(&chan, p.sequence), b"[[\"/a\",true]]"), 2 => w.s.put(&k_pending("channel-999", p.sequence), b"[[\"/a\",true]]"), _ => {} }
    let data = bytes_of([2, 0, 1, 3, 4, 8][ax.pick(5, tier(5, 6))], &ANY);
    let data = if rec == 1 { query_ack(1, &[data], 0) } else { data };
    let text = string([4, 0, 30][ax.pick(5, 3)]);
    let r = match k { 0 => do_ack(&mut w.s, ack_ok(&data), p.clone(), &rel), 1 => do_ack(&mut w.s, ack_err(&text), p.clone(), &rel), _ => do_timeout(&mut w.s, p.clone(), &rel) };
    let Some(r) = r else { check(F, "processed"); return };
    if !cb { cover("no callback"); check(r.messages.is_empty(), "without a callback address nothing is sent"); return }
    let to = w.st.callback_address.clone().unwrap();
    match callback(&r.messages, &to) {
        Some(MCb::OnAcknowledgementPacketCallback { ica_acknowledgement, original_packet, relayer, .. }) => {
            cover("acknowledged");
            check(k != 2, "acknowledgement callback only for acknowledgements");
            check(packet_eq(&original_packet, &p), "original packet unchanged");
            check(seq(&relayer, &rel), "relayer unchanged");
            match ica_acknowledgement { MAck::Result(x) => check(B::from(k == 0) & eq(&x, &data), "result unchanged"), MAck::Error(e) => check(B::from(k == 1) & seq(&e, &text), "error unchanged") }
        }
        Some(MCb::OnTimeoutPacketCallback { original_packet, relayer }) => {
            cover("timed out");
            check(k == 2, "timeout callback only for timeouts");
            check(packet_eq(&original_packet, &p), "original packet unchanged");
            check(seq(&relayer, &rel), "relayer unchanged");
        }
        _ => check(F, "exactly one callback of the right kind"),
    }
}
/// C19: open-ack callback.
pub fn c19_open() {
    let cb = flip();
    let mut w = world_by([0, 2][choose(2)], cb, choose(2)).freeing(OPEN_ACK_FREE);
    w.save();
    let conn = string(7);
    let mut ch = any_chan(choose(2));
    ch.connection_id = conn.clone();
    assume(!seq(&ch.endpoint.port_id, "icahost"));
    let m = MMeta { version: "ics27-1".into(), controller_connection_id: conn, host_connection_id: string(7), address: match choose(7) { k @ 4.. => ["q".repeat([43, 63, 126][k - 4]), string_of(1, &crate::h_misc::LOWER)].concat(), 3 => string_of(8, &crate::h_misc::LOWER), k => ["cosmos1".repeat(k), string_of(1 + choose(2), &ALNUM)].concat() }, encoding: PROTO.into(), tx_type: "sdk_multi_msg".into() };
    let cv = m.text();
    let r = outcome(|| ibc_channel_connect(deps!(w.s), any_env(), IbcChannelConnectMsg::new_ack(ibc_channel(&ch), cv.clone())));
    let Some(r) = r else { check(F, "accepted"); return };
    if !cb { cover("no callback"); check(r.messages.is_empty(), "without a callback address nothing is sent"); return }
    match callback(&r.messages, &w.st.callback_address.clone().unwrap()) {
        Some(MCb::OnChannelOpenAckCallback { channel, ica_address, tx_encoding }) => {
            cover("opened");
            let mut want = ch.clone();
            want.version = cv;
            check(chan_eq(&channel, &want), "the opened channel");
            check(seq(&ica_address, &m.address), "the account address");
            check(seq(&tx_encoding, PROTO), "the encoding");
        }
        _ => check(F, "exactly one open callback"),
    }
}
/// C19: updating the callback address takes effect on all later events and on nothing else.
pub fn c19_update() {
    let had = flip();
    let mut w = world_by(choose(3), had, 1).freeing(&[K_OPTS]);
    let before = w.save();
    let own = w.owner.clone();
    let new = opt(|| sized(&[8, 1, 0]));
    let who = if flip() { own.clone() } else { string(8) };
    let valid = new.as_ref().map_or(T, |a| addr_ok(a)) & seq(&who, &own);
    let snap = w.s.clone();
    match outcome(|| contract::execute(deps!(w.s), env(), info(&who), ExecuteMsg::UpdateCallbackAddress { callback_address: new.clone() })) {
        Some(r) => {
            cover("updated");
            check(valid, "only the owner, only to a valid address");
            check(r.messages.is_empty(), "no message");
            check(get::<MState>(&w.s, K_STATE).map_or(F, |s| oseq(&s.callback_address, &new) & ica_eq(&s.ica_info, &w.st.ica_info)), "new address recorded, account kept");
            check(same_except(&before, &w.s, &[K_STATE]), "nothing else changes");
            w.st.callback_address = new;
        }
        None => { cover("refused"); check(!valid, "the owner can set any valid address or none"); w.s = snap }
    }
    if w.chan.is_none() { return }
    let p = packet("channel-5", 3);
    let k = choose(3);
    let Some(r) = (match k { 0 => do_ack(&mut w.s, ack_ok(b"ok"), p, "relayer1"), 1 => do_ack(&mut w.s, ack_err("no"), p, "relayer1"), _ => do_timeout(&mut w.s, p, "relayer1") }) else { check(F, "processed"); return };
    match w.st.callback_address.clone() { Some(to) => { cover("later event"); check(callback(&r.messages, &to).is_some(), "later events go to the new address") } None => check(r.messages.is_empty(), "no callback after clearing") }
}
/// C19: only open-ack, acknowledgements and timeouts call back; the callback address changes only by the owner's update.
pub fn c19_frame() {
    let k = choose(3);
    let mut w = world_by([0, 1, 2][choose(3)], true, 0);
    let before = w.save();
    let c = match (&w.chan, flip()) { (Some(c), true) => c.channel.clone(), _ => good_init(&w.opts.as_ref().unwrap().connection_id) };
    let r: Option<usize> = match k {
        0 => outcome(|| ibc_channel_open(deps!(w.s), any_env(), IbcChannelOpenMsg::new_init(ibc_channel(&c)))).map(|_| 0),
        1 => outcome(|| ibc_channel_close(deps!(w.s), any_env(), if flip() { IbcChannelCloseMsg::new_init(ibc_channel(&c)) } else { IbcChannelCloseMsg::new_confirm(ibc_channel(&c)) })).map(|r| r.messages.len()),
        _ => { w.s.put(K_QUERY, b"[[\"/a\",true]]"); outcome(|| contract::reply(deps!(w.s), any_env(), reply_msg(1, 4))).map(|r| r.messages.len()) }
    };
    if let Some(n) = r { cover(["open-init", "close", "reply"][k]); check(n == 0, "no message"); check(same_except(&before, &w.s, &[K_OPEN, K_CLOSE, K_CHAN, K_QUERY, PENDING]), "callback address and account unchanged") }
}
pub fn c19_steps() {
    let k = choose(STEPS);
    let mut w = world_by([0, 1, 2][choose(3)], flip(), 0);
    w.save();
    let (ok, kind) = step(&mut w, k);
    if !ok || kind == Kind::Callback { return }
    cover("ran");
    check(get::<MState>(&w.s, K_STATE).map_or(F, |s| oseq(&s.callback_address, &w.st.callback_address)), "the callback address changes only by the owner's update");
}

// ---------- C20 ----------
pub fn attr<'a>(e: &'a Event, k: &str) -> Option<&'a str> { e.attributes.iter().find(|a| a.key == k).map(|a| a.value.as_str()) }
pub fn the_event(r: &IbcBasicResponse) -> Option<&Event> { let v: Vec<&Event> = r.events.iter().filter(|e| e.ty == "acknowledge_packet").collect(); if v.len() == 1 { Some(v[0]) } else { None } }
/// C20: well-formed acknowledgements.
pub fn c20_ack() {
    let ok = flip();
    let ax = pairs(7);
    let mut w = world_by(1 + ax.pick(0, 7), flip(), ax.pick(1, 2)).freeing(ACK_FREE);
    let before = w.save();
    let chan = match ax.pick(3, 3) { 0 => w.chan.as_ref().unwrap().channel.endpoint.channel_id.clone(), 1 => string(9), _ => string(12) };
    let sq = num();
    let mut p = packet(&chan, sq);
    p.src.port_id = string([6, 20][ax.pick(4, 2)]);
    let p = formed(p, ax.pick(6, FORMS));
    let data = bytes_of([3, 0, 1, 2, 4, 5, 9][ax.pick(5, tier(6, 7))], &ANY);
    let text = string([6, 0, 30][ax.pick(5, 3)]);
    let r = do_ack(&mut w.s, if ok { ack_ok(&data) } else { ack_err(&text) }, p.clone(), "relayer1");
    let Some(r) = r else { check(F, "a well-formed acknowledgement is processed"); return };
    cover(if ok { "success" } else { "failure" });
    check(same_except(&before, &w.s, &[]), "account, channel, owner, options and permissions unchanged");
    let Some(e) = the_event(&r) else { check(F, "exactly one acknowledgement event"); return };
    check(attr(e, "packet_sequence").map_or(F, |x| seq(x, &sq.to_string())), "event names the sequence");
    check(attr(e, "packet_src_port").map_or(F, |x| seq(x, &p.src.port_id)), "event names the source port");
    check(attr(e, "packet_src_channel").map_or(F, |x| seq(x, &chan)), "event names the source channel");
    if ok { check(attr(e, "packet_ack_base64").map_or(F, |x| seq(x, &Binary::from(data.as_slice()).to_base64())) & B::from(attr(e, "error").is_none()), "event carries the result") }
    else { check(attr(e, "error").map_or(F, |x| seq(x, &text)) & B::from(attr(e, "packet_ack_base64").is_none()), "event carries the error") }
}
/// C20: error texts with escapes and non-ASCII characters are passed on unchanged.
pub fn c20_error_text() {
    let mut w = world_by(1, true, 0).freeing(ACK_FREE);
    w.save();
    // one arbitrary character (escaped as JSON requires) at the start, at the end, between plain ones or alone
    let (pre, post) = [("e ", ""), ("", " e"), ("e", "e"), ("", "")][choose(4)];
    let mut raw = String::from(pre);
    let mut json = String::from(pre);
    for _ in 0..tier(1, 2) {
        let c = string_of(1, &ASCII);
        match choose(10) {
            0 => { assume(in_text(&c)); raw.push_str(&c); json.push_str(&c) }
            1 => { raw.push('"'); json.push_str("\\\"") }
            2 => { raw.push('\n'); json.push_str("\\n") }
            3 => { raw.push_str("é€😀"); json.push_str("é€😀") }
            4 => { raw.push('\0'); json.push_str("\\u0000") }
            5 => { raw.push('\\'); json.push_str("\\\\") }
            6 => { raw.push('\t'); json.push_str("\\t") }
            7 => { raw.push('é'); json.push_str("\\u00e9") }
            8 => { raw.push('\u{a0}'); json.push('\u{a0}') }
            _ => { raw.push('\r'); json.push_str("\\r") }
        }
    }
    raw.push_str(post);
    json.push_str(post);
    let Some(r) = do_ack(&mut w.s, ack_err(&json), packet("channel-0", 1), "relayer1") else { check(F, "processed"); return };
    cover("ran");
    let cb = w.st.callback_address.clone().unwrap();
    match callback(&r.messages, &cb) { Some(MCb::OnAcknowledgementPacketCallback { ica_acknowledgement: MAck::Error(e), .. }) => check(seq(&e, &raw), "error text unchanged"), _ => check(F, "error callback") }
    check(the_event(&r).and_then(|e| attr(e, "error")).map_or(F, |e| seq(e, &raw)), "error text in the event");
}
fn in_text(c: &str) -> B { let b = c.as_bytes()[0]; !lt64(b as u64, 32) & lt64(b as u64, 127) & !eq(&[b], b"\"") & !eq(&[b], b"\\") }
/// C20: anything else is refused.
pub fn c20_garbage() {
    let mut w = world_by(1, flip(), 0).freeing(ACK_FREE);
    w.save();
    let k = choose(14);
    let a: Vec<u8> = match k {
        0 => { let n = choose(tier(4, 5)); bytes_of(n, &ASCII) }
        1 => b"{}".to_vec(),
        2 => b"{\"result\":\"AQ==\",\"error\":\"x\"}".to_vec(),
        3 => b"{\"error\":\"x\",\"result\":\"AQ==\"}".to_vec(),
        4 => [b"{\"result\":".as_slice(), &bytes_of(1, &DIGIT), b"}"].concat(),
        5 => b"{\"result\":null}".to_vec(),
        6 => b"{\"error\":null}".to_vec(),
        7 => [b"{\"".as_slice(), &bytes_of(6, &TEXT), b"\":\"AQ==\"}"].concat(),
        8 => [b"{\"result\":\"".as_slice(), &bytes_of(2, &TEXT), b"!=\"}"].concat(),
        9 => b"{\"error\":{}}".to_vec(),
        10 => b"{\"error\":\"x\"".to_vec(),
        // not UTF-8
        11 => [b"{\"error\":\"a".as_slice(), &bytes_of(1, &HIGH), b"b\"}"].concat(),
        12 => [b"{\"result\":\"AQ==".as_slice(), &bytes_of(1, &HIGH), b"\"}"].concat(),
        _ => b"[\"error\",\"x\"]".to_vec(),
    };
    let r = do_ack(&mut w.s, IbcAcknowledgement::new(a.clone()), packet("channel-0", 1), "relayer1");
    cover(if r.is_some() { "valid after all" } else { "refused" });
    let really = if k == 7 { eq(&a[2..8], b"result") } else { F };
    check(if r.is_some() { really } else { !really }, "what is neither a result nor an error is refused");
}
/// C20: alternative spellings of the same JSON mean the same.
pub fn c20_spacing() {
    let mut w = world_by(1, true, 0).freeing(ACK_FREE);
    w.save();
    let t = string(3);
    let ok = flip();
    let a = if ok { " { \"result\" : \"AQID\" } ".to_string() } else { ["\n{\t\"error\" :\r\n\"", &t, "\"}"].concat() };
    let Some(r) = do_ack(&mut w.s, IbcAcknowledgement::new(a.into_bytes()), packet("channel-0", 1), "relayer1") else { check(F, "processed"); return };
    cover("ran");
    match callback(&r.messages, &w.st.callback_address.clone().unwrap()) {
        Some(MCb::OnAcknowledgementPacketCallback { ica_acknowledgement: MAck::Result(b), .. }) => check(B::from(ok) & eq(&b, &[1, 2, 3]), "result"),
        Some(MCb::OnAcknowledgementPacketCallback { ica_acknowledgement: MAck::Error(e), .. }) => check(B::from(!ok) & seq(&e, &t), "error"),
        _ => check(F, "acknowledgement callback"),
    }
}
crate::harnesses!(REG: c11_timeout c11_replaced c16_reply c16_reply_garbage c16_resolve c16_frame c16_flow c17_success c17_mixed c17_failure c17_garbage c19_packets c19_open c19_update c19_frame c19_steps c20_ack c20_error_text c20_garbage c20_spacing);
