//! The library side: decoding acknowledgements (C26), building packets and requests (C27), and the types as other
//! contracts see them in every feature configuration (C28). Compiled into the main harness (all features) and into the
//! two library harnesses (no optional feature; `query` only).
use crate::env::*;
use crate::vp::*;
use cosmos_sdk_proto::cosmos::bank::v1beta1::MsgSend;
use cosmos_sdk_proto::cosmos::base::abci::v1beta1::{MsgData, TxMsgData};
use cosmos_sdk_proto::cosmos::staking::v1beta1::MsgDelegate;
use cosmos_sdk_proto::ibc::applications::interchain_accounts::v1::CosmosTx;
use cosmos_sdk_proto::ibc::core::channel::v1::MsgChannelOpenInit;
use cosmos_sdk_proto::traits::Message;
use cosmos_sdk_proto::Any;
use cosmwasm_std::*;
use cw_ica_controller::ibc::types::metadata::{IcaMetadata, TxEncoding};
use cw_ica_controller::ibc::types::packet::{acknowledgement::Data, IcaPacketData};
use cw_ica_controller::types::callbacks::IcaControllerCallbackMsg;
use cw_ica_controller::types::msg::*;
use cw_ica_controller::types::state::{ChannelState, ChannelStatus, ContractState};
use serde::Deserialize;

#[derive(Clone, PartialEq, prost::Message)]
pub struct PSafe { #[prost(uint64, tag = "1")] pub height: u64, #[prost(bytes = "vec", repeated, tag = "2")] pub responses: Vec<Vec<u8>> }
fn any_eq(a: &Any, b: &Any) -> B { seq(&a.type_url, &b.type_url) & eq(&a.value, &b.value) }
fn blob(n: usize) -> Vec<u8> { let mut v: Vec<u8> = (0..n).map(|i| (i * 7 + i / 256) as u8).collect(); if n > 1 { let e = bytes_of(2, &ANY); v[0] = e[0]; v[n - 1] = e[1] } v }

/// C26: the transaction result inside a successful acknowledgement.
pub fn c26_result() {
    let ax = pairs(4);
    let n = [2, 0, 1, 3, 5, 33, 65, 101, 129, 257][ax.pick(0, 10)];
    let len = [3, 0, 1, 130, 4097, 32769][ax.pick(1, 6)];
    let old = ax.pick(2, 3);
    let rs: Vec<Any> = (0..n).map(|i| if i < 4 { Any { type_url: string([4, 0, 130][ax.pick(3, 3)]), value: if i == 0 { blob(len) } else { bytes_of(2, &ANY) } } } else { Any { type_url: format!("/t{i}"), value: vec![i as u8] } }).collect();
    #[allow(deprecated)]
    let t = TxMsgData { data: (0..old).map(|_| MsgData { msg_type: string(3), data: bytes_of(2, &ANY) }).collect(), msg_responses: rs.clone() };
    let d = Data::Result(Binary::new(t.encode_to_vec()));
    let Some(Ok(g)) = run(|| d.to_tx_msg_data()) else { check(F, "a well-formed result decodes"); return };
    cover("decoded");
    check(g.msg_responses.len() == n, "all responses");
    if g.msg_responses.len() == n { for (a, b) in g.msg_responses.iter().zip(&rs) { check(any_eq(a, b), "responses unchanged and in order") } }
    #[allow(deprecated)]
    { check(g.data.len() == old, "message data kept"); for (a, b) in g.data.iter().zip(&t.data) { check(seq(&a.msg_type, &b.msg_type) & eq(&a.data, &b.data), "message data unchanged") } }
}
/// C26: an error acknowledgement, and bytes that are not a transaction result.
pub fn c26_refused() {
    if flip() {
        let d = Data::Error(sized(&[4, 0, 60]));
        cover("error");
        check(matches!(run(|| d.to_tx_msg_data()), Some(Err(_))), "an error acknowledgement has no result");
        #[cfg(feature = "query")]
        check(matches!(run(|| d.decode_module_query_safe_resp(0)), Some(Err(_))), "an error acknowledgement has no query response");
        #[cfg(feature = "export")]
        check(matches!(run(|| d.decode_module_query_safe_resp_last_index()), Some(Err(_))), "an error acknowledgement has no last response");
        return;
    }
    let b = bytes_of(choose(tier(4, 5)), &ANY);
    let want = TxMsgData::decode(b.as_slice());
    let d = Data::Result(Binary::new(b));
    match run(|| d.to_tx_msg_data()) {
        None => check(F, "decoding never aborts"),
        Some(Ok(g)) => { cover("valid after all"); check(want.as_ref().map_or(false, |w| w.msg_responses.len() == g.msg_responses.len()), "only well-formed bytes decode") }
        Some(Err(_)) => { cover("refused"); check(want.is_err(), "well-formed bytes decode") }
    }
}
/// C26: the query response at a position.
#[cfg(feature = "query")]
pub fn c26_query() {
    let n = choose(4);
    let at = choose(4);
    let h = any_u64();
    let m = choose(3);
    let res: Vec<Vec<u8>> = (0..m).map(|_| bytes_of([2, 0, 3][choose(3)], &ANY)).collect();
    let good = PSafe { height: h, responses: res.clone() };
    let vals: Vec<Vec<u8>> = (0..n).map(|i| if i == at { <PSafe as prost::Message>::encode_to_vec(&good) } else { <PSafe as prost::Message>::encode_to_vec(&PSafe { height: 70 + i as u64, responses: vec![] }) }).collect();
    let t = TxMsgData { msg_responses: vals.iter().map(|v| Any { type_url: "/x".into(), value: v.clone() }).collect(), ..Default::default() };
    let d = Data::Result(Binary::new(t.encode_to_vec()));
    for i in [0, 1, 2, 3, 4, usize::MAX] {
        match run(|| d.decode_module_query_safe_resp(i)) {
            None => check(F, "decoding never aborts"),
            Some(Err(_)) => { cover("no such response"); check(i >= n, "an existing response is found") }
            Some(Ok(r)) => {
                cover("found");
                check(i < n, "no response beyond the last one");
                check(if i == at { eq64(r.height, h) & B::from(r.responses.len() == m) & { let mut x = T; for (a, b) in r.responses.iter().zip(&res) { x = x & eq(a, b) } x } } else { eq64(r.height, 70 + i as u64) & B::from(r.responses.is_empty()) }, "the response at that position, unchanged");
            }
        }
    }
    #[cfg(feature = "export")]
    match run(|| d.decode_module_query_safe_resp_last_index()) {
        None => check(F, "decoding never aborts"),
        Some(Err(_)) => check(n == 0, "there is a last response"),
        Some(Ok(r)) => check(if n == 0 { F } else if at + 1 == n { eq64(r.height, h) & B::from(r.responses.len() == m) } else { eq64(r.height, 69 + n as u64) }, "the last response"),
    }
}
/// C26: positions in long results.
#[cfg(feature = "query")]
pub fn c26_query_many() {
    let n = [10, 17, 33, 65, 101, 129, 257, 513][choose(8)];
    let (h, b) = (any_u64(), bytes_of(3, &ANY));
    let at = match choose(6) { 0 => 0, 1 => n - 1, 2 => n - 2, 3 => n / 2, 4 => n, _ => n + 256 };
    let t = TxMsgData { msg_responses: (0..n).map(|i| Any { type_url: "/x".into(), value: <PSafe as prost::Message>::encode_to_vec(&if i == at || (at > n && i == n - 1) { PSafe { height: h, responses: vec![b.clone()] } } else { PSafe { height: i as u64, responses: vec![] } }) }).collect(), ..Default::default() };
    let d = Data::Result(Binary::new(t.encode_to_vec()));
    match run(|| d.decode_module_query_safe_resp(at)) {
        None => check(F, "decoding never aborts"),
        Some(Err(_)) => { cover("no such response"); check(at >= n, "an existing response is found") }
        Some(Ok(r)) => { cover("found"); check(at < n, "no response beyond the last one"); check(eq64(r.height, h) & B::from(r.responses.len() == 1) & r.responses.first().map_or(F, |x| eq(x, &b)), "the response at that position, unchanged") }
    }
    #[cfg(feature = "export")]
    match run(|| d.decode_module_query_safe_resp_last_index()) {
        Some(Ok(r)) => check(eq64(r.height, if at == n - 1 || at > n { h } else { n as u64 - 1 }), "the last response"),
        _ => check(F, "there is a last response"),
    }
}
/// C26: a response that is not a query response.
#[cfg(feature = "query")]
pub fn c26_query_garbage() {
    let v = bytes_of(choose(tier(4, 5)), &ANY);
    let want = <PSafe as prost::Message>::decode(v.as_slice());
    let t = TxMsgData { msg_responses: vec![Any { type_url: "/x".into(), value: v }], ..Default::default() };
    let d = Data::Result(Binary::new(t.encode_to_vec()));
    let same = |r: Option<Result<(u64, Vec<Vec<u8>>), ()>>| match r {
        None => check(F, "decoding never aborts"),
        Some(Ok((h, rs))) => { cover("decoded"); check(want.as_ref().map_or(F, |w| eq64(w.height, h) & B::from(w.responses.len() == rs.len())), "only well-formed bytes decode") }
        Some(Err(())) => { cover("refused"); check(want.is_err(), "well-formed bytes decode") }
    };
    same(run(|| d.decode_module_query_safe_resp(0)).map(|r| r.map(|x| (x.height, x.responses)).map_err(|e| std::mem::forget(e))));
    #[cfg(feature = "export")]
    same(run(|| d.decode_module_query_safe_resp_last_index()).map(|r| r.map(|x| (x.height, x.responses)).map_err(|e| std::mem::forget(e))));
}
/// C26: JSON form of acknowledgements, both ways.
pub fn c26_json() {
    let ok = flip();
    let b = bytes_of(choose(tier(4, 6)), &ANY);
    let t = sized(&[4, 0, 40]);
    let j = if ok { ["{\"result\":\"", &Binary::new(b.clone()).to_base64(), "\"}"].concat() } else { ["{\"error\":\"", &t, "\"}"].concat() };
    match from_json::<Data>(j.as_bytes()) {
        Ok(Data::Result(x)) => { cover("result"); check(B::from(ok) & eq(&x, &b), "result bytes") }
        Ok(Data::Error(x)) => { cover("error"); check(B::from(!ok) & seq(&x, &t), "error text") }
        Err(_) => check(F, "parses"),
    }
    let d = if ok { Data::Result(Binary::new(b)) } else { Data::Error(t) };
    check(to_json_vec(&d).map_or(F, |x| eq(&x, j.as_bytes())), "serialises to the same text");
}

#[derive(Deserialize)]
#[serde(deny_unknown_fields)]
struct JPacket { r#type: u32, data: Vec<u8>, memo: Option<String> }
/// C27: a packet from ready-made messages, turned into the chain's send message.
pub fn c27_packet() {
    let ax = pairs(4);
    let n = [2, 0, 1, 3, 17, 65][ax.pick(0, 6)];
    let ms: Vec<Any> = (0..n).map(|i| Any { type_url: string_of(3, &TWO), value: if i == 0 { bytes_of([3, 0, 60][ax.pick(1, 3)], &TWO) } else { bytes_of(1, &TWO) } }).collect();
    let memo = match ax.pick(2, 5) { 0 => None, k => Some(string([0, 0, 5, 200, 2000][k])) };
    let p = IcaPacketData::from_proto_anys(ms.clone(), memo.clone());
    check(B::from(p.r#type == 1) & oseq(&p.memo, &memo), "an execute packet with the memo");
    let (time, now) = (ax.pick(3, 4), any_u64());
    let sec: Option<u64> = match time { 0 => None, 1 => Some(bytes_of(1, &ANY)[0] as u64), 2 => Some((1 << 40) + bytes_of(1, &ANY)[0] as u64), _ => Some(u64::MAX - bytes_of(1, &ANY)[0] as u64) };
    let chan = string([9, 0, 64][choose(3)]);
    let e = env_at(now, any_u64(), CONTRACT);
    let nanos = |s: u64| (s as u128) * 1_000_000_000;
    let end = now as u128 + nanos(sec.unwrap_or(600));
    match outcome(|| p.to_ibc_msg(&e, chan.clone(), sec)) {
        None => { cover("does not fit"); check(end > u64::MAX as u128, "a timeout that fits is used") }
        Some(IbcMsg::SendPacket { channel_id, data, timeout }) => {
            cover("built");
            check(seq(&channel_id, &chan), "on the given channel");
            check(timeout.block().is_none() && timeout.timestamp().is_some(), "a timestamp timeout");
            check(timeout.timestamp().map_or(F, |t| eq64(t.nanos(), end as u64)) & B::from(end <= u64::MAX as u128), "block time plus the given seconds, or the default");
            let Ok(j) = from_json::<JPacket>(&data) else { check(F, "documented packet form"); return };
            check(j.r#type == 1, "an execute packet");
            check(oseq(&j.memo, &memo), "the memo");
            check(eq(&j.data, &p.data), "the data");
            let Ok(t) = CosmosTx::decode(j.data.as_slice()) else { check(F, "the data is a transaction"); return };
            check(t.messages.len() == n, "all messages");
            if t.messages.len() == n { for (a, b) in t.messages.iter().zip(&ms) { check(any_eq(a, b), "messages unchanged and in order") } }
        }
        Some(_) => check(F, "a send message"),
    }
    let raw = bytes_of(3, &ANY);
    let q = IcaPacketData::new(raw.clone(), memo.clone());
    check(eq(&q.data, &raw) & oseq(&q.memo, &memo) & B::from(q.r#type == 1), "a packet of given bytes");
}
/// `from_cosmos_msgs` as each configuration has it.
#[cfg(not(feature = "query"))]
fn build(_: &mut Store, ms: Vec<CosmosMsg>, _: Vec<(String, Vec<u8>)>, e: &TxEncoding, memo: Option<String>, a: &str) -> Option<IcaPacketData> { outcome(|| IcaPacketData::from_cosmos_msgs(ms, e, memo, a)) }
#[cfg(feature = "query")]
#[allow(deprecated)]
fn build(_s: &mut Store, ms: Vec<CosmosMsg>, qs: Vec<(String, Vec<u8>)>, e: &TxEncoding, memo: Option<String>, a: &str) -> Option<IcaPacketData> {
    let qs = qs.into_iter().map(|(path, d)| QueryRequest::Stargate { path, data: Binary::new(d) }).collect();
    #[cfg(feature = "export")]
    return outcome(|| IcaPacketData::from_cosmos_msgs(_s, ms, qs, e, memo, a));
    #[cfg(not(feature = "export"))]
    return outcome(|| IcaPacketData::from_cosmos_msgs(ms, qs, e, memo, a));
}
#[derive(Clone, PartialEq, prost::Message)]
struct PAsk { #[prost(string, tag = "1")] signer: String, #[prost(message, repeated, tag = "2")] requests: Vec<POne> }
#[derive(Clone, PartialEq, prost::Message)]
struct POne { #[prost(string, tag = "1")] path: String, #[prost(bytes = "vec", tag = "2")] data: Vec<u8> }
/// C27: a packet from chain messages (and queries).
pub fn c27_msgs() {
    let ax = pairs(3);
    let n = [2, 0, 1, 3, 17, 65][ax.pick(0, 6)];
    let nq = if cfg!(feature = "query") { [1, 0, 2, 3, 33][ax.pick(1, 5)] } else { 0 };
    let me = string([6, 44, 128][ax.pick(2, 3)]);
    let memo = opt(|| string(5));
    let rot = choose(4);
    let kind = |i: usize| (i + rot) % 4;
    let texts: Vec<String> = (0..n).map(|i| if i < 4 { string(5) } else { format!("x{i}") }).collect();
    let ms: Vec<CosmosMsg> = (0..n).map(|i| { let t = texts[i].clone(); match kind(i) {
        0 => BankMsg::Send { to_address: t, amount: vec![Coin::new(7u128, "atom")] }.into(),
        1 => StakingMsg::Delegate { validator: t, amount: Coin::new(9u128, "atom") }.into(),
        #[allow(deprecated)]
        2 => CosmosMsg::Stargate { type_url: t, value: Binary::new(vec![i as u8, 200]) },
        #[allow(deprecated)]
        _ => CosmosMsg::Stargate { type_url: t, value: Binary::new(vec![i as u8, 201]) },
    } }).collect();
    let qs: Vec<(String, Vec<u8>)> = (0..nq).map(|i| if i < 3 { (string(4), bytes_of(2, &ANY)) } else { (format!("/q{i}"), vec![i as u8]) }).collect();
    let mut s = Store::default();
    if flip() {
        let Some(p) = build(&mut s, ms, qs.clone(), &TxEncoding::Protobuf, memo.clone(), &me) else { check(F, "supported messages build a packet"); return };
        cover("built");
        check(B::from(p.r#type == 1) & oseq(&p.memo, &memo), "an execute packet with the memo");
        let Ok(t) = CosmosTx::decode(p.data.as_slice()) else { check(F, "the data is a transaction"); return };
        check(t.messages.len() == n + (nq > 0) as usize, "all messages, then one for the queries");
        if t.messages.len() != n + (nq > 0) as usize { return }
        for i in 0..n {
            let a = &t.messages[i];
            check(match kind(i) {
                0 => seq(&a.type_url, "/cosmos.bank.v1beta1.MsgSend") & MsgSend::decode(a.value.as_slice()).map_or(F, |m| seq(&m.from_address, &me) & seq(&m.to_address, &texts[i]) & B::from(m.amount.len() == 1 && m.amount[0].amount == "7" && m.amount[0].denom == "atom")),
                1 => seq(&a.type_url, "/cosmos.staking.v1beta1.MsgDelegate") & MsgDelegate::decode(a.value.as_slice()).map_or(F, |m| seq(&m.delegator_address, &me) & seq(&m.validator_address, &texts[i]) & B::from(m.amount.map_or(false, |c| c.amount == "9" && c.denom == "atom"))),
                k => seq(&a.type_url, &texts[i]) & eq(&a.value, &[i as u8, 198 + k as u8]),
            }, "messages in order, signed by the account");
        }
        if nq > 0 {
            let a = &t.messages[n];
            check(seq(&a.type_url, "/ibc.applications.interchain_accounts.host.v1.MsgModuleQuerySafe"), "query message");
            let Ok(m) = <PAsk as prost::Message>::decode(a.value.as_slice()) else { check(F, "query message decodes"); return };
            check(seq(&m.signer, &me) & B::from(m.requests.len() == nq), "all queries, signed by the account");
            for (r, q) in m.requests.iter().zip(&qs) { check(seq(&r.path, &q.0) & eq(&r.data, &q.1), "queries in order") }
        }
    } else {
        cover("unsupported encoding");
        check(build(&mut s, ms, qs, &TxEncoding::Proto3Json, memo, &me).is_none(), "no packet in the unsupported encoding");
        let bad: CosmosMsg = BankMsg::Burn { amount: vec![] }.into();
        check(build(&mut s, vec![BankMsg::Send { to_address: "a".into(), amount: vec![] }.into(), bad], vec![], &TxEncoding::Protobuf, None, &me).is_none(), "no packet with an unsupported message");
    }
}
#[derive(Deserialize)]
#[serde(deny_unknown_fields)]
struct JMeta { version: String, controller_connection_id: String, host_connection_id: String, address: String, encoding: String, tx_type: String }
/// C27: the channel-open request with an explicit encoding, and the metadata's text form.
pub fn c27_open() {
    use cw_ica_controller::ibc::types::stargate::channel::new_ica_channel_open_init_cosmos_msg as open;
    let ax = pairs(3);
    let (me, conn, cc) = (string([10, 1, 90][ax.pick(0, 3)]), string([7, 0, 64][ax.pick(1, 3)]), string([7, 0, 64][ax.pick(2, 3)]));
    let port = opt(|| sized(&[7, 0, 128]));
    let enc = choose(3);
    let ord = choose(3);
    let m = open(me.clone(), conn.clone(), port.clone(), cc.clone(), [None, Some(TxEncoding::Protobuf), Some(TxEncoding::Proto3Json)][enc].clone(), [None, Some(IbcOrder::Ordered), Some(IbcOrder::Unordered)][ord].clone());
    #[allow(deprecated)]
    let CosmosMsg::Stargate { type_url, value } = m else { check(F, "a raw protobuf message"); return };
    check(seq(&type_url, "/ibc.core.channel.v1.MsgChannelOpenInit"), "type");
    let Ok(p) = MsgChannelOpenInit::decode(value.as_slice()) else { check(F, "decodes"); return };
    cover("built");
    check(seq(&p.signer, &me) & seq(&p.port_id, &["wasm.", &me].concat()), "the contract's own port");
    let Some(c) = p.channel else { check(F, "channel"); return };
    check(c.state == 1 && c.ordering == [2, 2, 1][ord] && c.connection_hops.len() == 1, "state, ordering and hops");
    check(c.connection_hops.first().map_or(F, |h| seq(h, &conn)), "the connection");
    check(c.counterparty.map_or(F, |x| seq(&x.port_id, port.as_deref().unwrap_or("icahost")) & B::from(x.channel_id.is_empty())), "the counterparty port");
    let Ok(j) = from_json::<JMeta>(c.version.as_bytes()) else { check(F, "version metadata"); return };
    let e = ["proto3", "proto3", "proto3json"][enc];
    check(seq(&j.version, "ics27-1") & seq(&j.controller_connection_id, &conn) & seq(&j.host_connection_id, &cc) & seq(&j.address, "") & seq(&j.encoding, e) & seq(&j.tx_type, "sdk_multi_msg"), "version metadata fields");
    let (v, a, t) = (string(7), string(5), string(4));
    let x = IcaMetadata::new(v.clone(), conn.clone(), cc.clone(), a.clone(), [TxEncoding::Protobuf, TxEncoding::Protobuf, TxEncoding::Proto3Json][enc].clone(), t.clone());
    let Ok(j) = from_json::<JMeta>(x.to_string().as_bytes()) else { check(F, "metadata text"); return };
    check(seq(&j.version, &v) & seq(&j.controller_connection_id, &conn) & seq(&j.host_connection_id, &cc) & seq(&j.address, &a) & seq(&j.encoding, e) & seq(&j.tx_type, &t), "metadata text carries every field");
}
/// C27: small accessors of the public types.
pub fn c27_types() {
    let k = choose(7);
    let c = any_chan(choose(2));
    let j = ["{\"channel\":", &chan_json(&c), ",\"channel_status\":\"", STATUSES[k], "\"}"].concat();
    let Ok(mut s) = from_json::<ChannelState>(j.as_bytes()) else { check(F, "channel state parses"); return };
    cover("ran");
    check(s.is_open() == (k == 0), "open exactly in the open state");
    check(s.is_ordered() == (c.order == ORDERS[0]), "ordering");
    check(seq(&s.channel_status.to_string(), STATUSES[k]), "status name");
    let ends = |s: &ChannelState| { let j = to_json_vec(&s.channel).unwrap(); from_json::<MChan>(&j).map_or(F, |x| chan_eq(&x, &c)) };
    check(ends(&s), "channel kept");
    s.close();
    check(s.channel_status == ChannelStatus::Closed && !s.is_open(), "closing");
    check(ends(&s), "closing keeps the channel");
    let o = ChannelState::new_open_channel(ibc_channel(&c));
    check(o.is_open(), "a new open channel is open");
    check(ends(&o), "a new open channel keeps its fields");
    let cb = opt(|| string(8));
    let mut st = ContractState::new(cb.clone().map(Addr::unchecked));
    check(st.get_ica_info().is_err() && st.ica_info.is_none(), "no account at first");
    let (a, ch) = (string(7), string(9));
    let e = flip();
    st.set_ica_info(a.clone(), ch.clone(), if e { TxEncoding::Protobuf } else { TxEncoding::Proto3Json });
    check(st.get_ica_info().map_or(F, |i| seq(&i.ica_address, &a) & seq(&i.channel_id, &ch) & B::from((i.encoding == TxEncoding::Protobuf) == e)), "the account that was set");
    check(oseq(&st.callback_address.as_ref().map(|x| x.to_string()), &cb), "callback kept");
    st.delete_ica_info();
    check(st.get_ica_info().is_err(), "no account after deletion");
    check(oseq(&st.callback_address.as_ref().map(|x| x.to_string()), &cb), "callback kept by deletion");
    let p = opt(|| string(7));
    let op = opts_api(&MOpts { connection_id: string(7), counterparty_connection_id: string(7), counterparty_port_id: p.clone(), channel_ordering: None });
    check(seq(&op.counterparty_port_id(), p.as_deref().unwrap_or("icahost")), "counterparty port, host port by default");
}

#[ica_derive::ica_callback_execute]
#[derive(serde::Serialize, serde::Deserialize)]
#[serde(rename_all = "snake_case")]
enum Receiver { Other { #[allow(dead_code)] x: u8 } }
fn packet_json(data: &[u8], c: &MChan, seq: &str, timeout: usize) -> String {
    let t = ["{\"block\":null,\"timestamp\":\"77\"}", "{\"block\":{\"revision\":3,\"height\":9},\"timestamp\":null}", "{\"block\":{\"revision\":3,\"height\":9},\"timestamp\":\"77\"}"][timeout];
    ["{\"data\":\"", &Binary::from(data).to_base64(), "\",\"src\":{\"port_id\":\"", &c.endpoint.port_id, "\",\"channel_id\":\"", &c.endpoint.channel_id, "\"},\"dest\":{\"port_id\":\"", &c.counterparty_endpoint.port_id, "\",\"channel_id\":\"", &c.counterparty_endpoint.channel_id, "\"},\"sequence\":", seq, ",\"timeout\":", t, "}"].concat()
}
/// C28: whatever the contract sends to its callback contract is understood by a receiver built on the library.
pub fn c28_callback() {
    let k = choose(4);
    let c = any_chan(choose(2));
    let data = bytes_of(choose(3), &ANY);
    let (to, rel) = (choose(3), string(8));
    let p = packet_json(&data, &c, "41", to);
    let pk_ok = |g: &IbcPacket| eq(&g.data, &data) & seq(&g.src.port_id, &c.endpoint.port_id) & seq(&g.src.channel_id, &c.endpoint.channel_id) & seq(&g.dest.port_id, &c.counterparty_endpoint.port_id) & seq(&g.dest.channel_id, &c.counterparty_endpoint.channel_id) & B::from(g.sequence == 41 && g.timeout.timestamp().map(|t| t.nanos()) == [Some(77), None, Some(77)][to] && g.timeout.block().map(|b| (b.revision, b.height)) == [None, Some((3, 9)), Some((3, 9))][to]);
    let (res, err) = (bytes_of(choose(3), &ANY), string(4));
    let qr = choose(6);
    let qrs = ["", ",\"query_result\":null", ",\"query_result\":{\"error\":\"no\"}", ",\"query_result\":{\"success\":{\"height\":9,\"responses\":[]}}", ",\"query_result\":{\"success\":{\"height\":9,\"responses\":[{\"stargate\":{\"data\":\"AQ==\",\"path\":\"/p\"}},{\"bank\":{\"supply\":{\"amount\":{\"denom\":\"a\",\"amount\":\"5\"}}}}]}}", ",\"query_result\":{\"success\":{\"height\":18446744073709551615,\"responses\":[{\"wasm\":{\"raw_contract_state\":null}},{\"staking\":{\"delegation\":{\"delegation\":null}}}]}}"][if k < 2 { qr } else { 0 }];
    let a = ["{\"result\":\"", &Binary::new(res.clone()).to_base64(), "\"}"].concat();
    let b = ["{\"error\":\"", &err, "\"}"].concat();
    let (ia, enc) = (string(6), flip());
    let j = match k {
        0 | 1 => ["{\"receive_ica_callback\":{\"on_acknowledgement_packet_callback\":{\"ica_acknowledgement\":", if k == 0 { &a } else { &b }, ",\"original_packet\":", &p, ",\"relayer\":\"", &rel, "\"", qrs, "}}}"].concat(),
        2 => ["{\"receive_ica_callback\":{\"on_timeout_packet_callback\":{\"original_packet\":", &p, ",\"relayer\":\"", &rel, "\"}}}"].concat(),
        _ => ["{\"receive_ica_callback\":{\"on_channel_open_ack_callback\":{\"channel\":", &chan_json(&c), ",\"ica_address\":\"", &ia, "\",\"tx_encoding\":\"", if enc { "proto3" } else { "proto3json" }, "\"}}}"].concat(),
    };
    let Ok(Receiver::ReceiveIcaCallback(m)) = from_json::<Receiver>(j.as_bytes()) else { check(F, "a receiver built on the library understands the callback"); return };
    cover("received");
    match (k, m) {
        (0 | 1, IcaControllerCallbackMsg::OnAcknowledgementPacketCallback { ica_acknowledgement, original_packet, relayer, .. }) => {
            check(match ica_acknowledgement { Data::Result(r) => eq(&r, &res) & B::from(k == 0), Data::Error(e) => seq(&e, &err) & B::from(k == 1) }, "acknowledgement");
            check(pk_ok(&original_packet) & seq(relayer.as_str(), &rel), "packet and relayer");
        }
        (2, IcaControllerCallbackMsg::OnTimeoutPacketCallback { original_packet, relayer }) => check(pk_ok(&original_packet) & seq(relayer.as_str(), &rel), "packet and relayer of the timeout"),
        (3, IcaControllerCallbackMsg::OnChannelOpenAckCallback { channel, ica_address, tx_encoding }) => { let j = to_json_vec(&channel).unwrap(); check(from_json::<MChan>(&j).map_or(F, |x| chan_eq(&x, &c)) & seq(&ica_address, &ia) & B::from((tx_encoding == TxEncoding::Protobuf) == enc), "channel and account") }
        _ => check(F, "the right callback"),
    }
}
// documented message forms: exactly these members
#[derive(Deserialize)] #[serde(deny_unknown_fields)] struct JInst { owner: Option<String>, channel_open_init_options: MOpts, send_callbacks_to: Option<String> }
#[derive(Deserialize)] #[serde(rename_all = "snake_case", deny_unknown_fields)]
enum JExec { CreateChannel { channel_open_init_options: Option<MOpts> }, CloseChannel {}, SendCosmosMsgs { messages: Vec<JMsg>, packet_memo: Option<String>, timeout_seconds: Option<u64> }, UpdateCallbackAddress { callback_address: Option<String> }, UpdateOwnership(JAction) }
#[derive(Deserialize)] #[serde(rename_all = "snake_case", deny_unknown_fields)] enum JMsg { Stargate(JAny) }
#[derive(Deserialize)] #[serde(deny_unknown_fields)] struct JAny { type_url: String, value: Binary }
#[derive(Deserialize)] #[serde(rename_all = "snake_case", deny_unknown_fields)] enum JAction { TransferOwnership { new_owner: String, expiry: Option<MExp> }, AcceptOwnership, RenounceOwnership }
/// C28: messages built with the library have the documented form (which the contract accepts, see C24).
pub fn c28_messages() {
    let k = choose(8);
    let o = any_opts();
    let (x, y) = (opt(|| string(8)), opt(|| string(8)));
    let n = num();
    if k == 7 {
        let m = InstantiateMsg { owner: x.clone(), channel_open_init_options: opts_api(&o), send_callbacks_to: y.clone() };
        let j = to_json_vec(&m).unwrap();
        cover("instantiate");
        let Ok(g) = from_json::<JInst>(&j) else { check(F, "documented instantiation"); return };
        check(oseq(&g.owner, &x) & oseq(&g.send_callbacks_to, &y) & opts_eq(&g.channel_open_init_options, &o), "instantiation fields");
        check(from_json::<InstantiateMsg>(&j).is_ok_and(|b| b == m), "parsed back");
        return;
    }
    let tu = string(4);
    let v = bytes_of(choose(3), &ANY);
    let c = flip();
    let m = match k {
        0 => ExecuteMsg::CreateChannel { channel_open_init_options: if c { Some(opts_api(&o)) } else { None } },
        1 => ExecuteMsg::CloseChannel {},
        2 => ExecuteMsg::SendCosmosMsgs { messages: if c { vec![{ #[allow(deprecated)] CosmosMsg::Stargate { type_url: tu.clone(), value: Binary::new(v.clone()) } }] } else { vec![] }, #[cfg(feature = "query")] queries: vec![], packet_memo: x.clone(), timeout_seconds: if y.is_some() { Some(n) } else { None } },
        3 => ExecuteMsg::UpdateCallbackAddress { callback_address: x.clone() },
        4 => ExecuteMsg::UpdateOwnership(cw_ownable::Action::TransferOwnership { new_owner: tu.clone(), expiry: if c { Some(cw_ownable::Expiration::AtHeight(n)) } else { None } }),
        5 => ExecuteMsg::UpdateOwnership(cw_ownable::Action::AcceptOwnership),
        _ => ExecuteMsg::UpdateOwnership(cw_ownable::Action::RenounceOwnership),
    };
    let j = to_json_vec(&m).unwrap();
    cover("execute");
    let Ok(g) = from_json::<JExec>(&j) else { check(F, "documented message form"); return };
    check(match (k, g) {
        (0, JExec::CreateChannel { channel_open_init_options: g }) => match g { Some(g) => B::from(c) & opts_eq(&g, &o), None => B::from(!c) },
        (1, JExec::CloseChannel {}) => T,
        (2, JExec::SendCosmosMsgs { messages, packet_memo, timeout_seconds }) => oseq(&packet_memo, &x) & (match (timeout_seconds, y.is_some()) { (Some(t), true) => eq64(t, n), (None, false) => T, _ => F }) & match &messages[..] { [] => B::from(!c), [JMsg::Stargate(a)] => B::from(c) & seq(&a.type_url, &tu) & eq(&a.value, &v), _ => F },
        (3, JExec::UpdateCallbackAddress { callback_address }) => oseq(&callback_address, &x),
        (4, JExec::UpdateOwnership(JAction::TransferOwnership { new_owner, expiry })) => seq(&new_owner, &tu) & match expiry { None => B::from(!c), Some(MExp::AtHeight(h)) => B::from(c) & eq64(h, n), _ => F },
        (5, JExec::UpdateOwnership(JAction::AcceptOwnership)) | (6, JExec::UpdateOwnership(JAction::RenounceOwnership)) => T,
        _ => F,
    }, "message fields");
    check(from_json::<ExecuteMsg>(&j).is_ok_and(|b| b == m), "parsed back");
}
/// C28: the contract's answers are understood.
pub fn c28_answers() {
    let cb = opt(|| string(8));
    let ica = opt(|| (string(7), string(9), flip()));
    let pj = match &cb { Some(x) => ["\"", x, "\""].concat(), None => "null".into() };
    let ij = match &ica { Some((a, c, e)) => ["{\"ica_address\":\"", a, "\",\"channel_id\":\"", c, "\",\"encoding\":\"", if *e { "proto3" } else { "proto3json" }, "\"}"].concat(), None => "null".into() };
    let j = match choose(4) { 0 => ["{\"ica_info\":", &ij, ",\"callback_address\":", &pj, "}"].concat(), 1 => { if cb.is_some() { return } ["{\"ica_info\":", &ij, "}"].concat() } 2 => { if ica.is_some() { return } ["{\"callback_address\":", &pj, "}"].concat() } _ => ["{\"callback_address\":", &pj, ",\"later_member\":{\"a\":1},\"ica_info\":", &ij, "}"].concat() };
    let Ok(s) = from_json::<ContractState>(j.as_bytes()) else { check(F, "the state answer parses"); return };
    cover("state");
    check(oseq(&s.callback_address.map(|x| x.to_string()), &cb), "callback");
    check(match (&s.ica_info, &ica) { (None, None) => T, (Some(i), Some((a, c, e))) => seq(&i.ica_address, a) & seq(&i.channel_id, c) & B::from((i.encoding == TxEncoding::Protobuf) == *e), _ => F }, "account");
}
#[cfg(feature = "query")]
crate::harnesses!(REG: c26_result c26_refused c26_query c26_query_many c26_query_garbage c26_json c27_packet c27_msgs c27_open c27_types c28_callback c28_messages c28_answers);
#[cfg(not(feature = "query"))]
crate::harnesses!(REG: c26_result c26_refused c26_json c27_packet c27_msgs c27_open c27_types c28_callback c28_messages c28_answers);
