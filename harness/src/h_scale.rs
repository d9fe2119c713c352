//! Sizes: long texts, big payloads and long lists, mostly concrete with symbolic edges, for the properties whose other
//! harnesses use short ones.
use crate::env::*;
use crate::h_hs::{meta_of, world_by, MMeta};
use crate::h_relay::*;
use crate::h_relay::attr;
use crate::h_send::*;
use crate::step::*;
use crate::vp::*;
use cosmos_sdk_proto::cosmos::{bank::v1beta1 as bank, base::v1beta1::Coin as PCoin, distribution::v1beta1 as dist, staking::v1beta1 as staking};
use cosmos_sdk_proto::cosmwasm::wasm::v1 as wasm;
use cosmos_sdk_proto::traits::Message;
use cosmwasm_std::*;
use cw_ica_controller::contract;
use cw_ica_controller::ibc::handshake::*;
use cw_ica_controller::types::msg::*;
use cw_ica_controller::types::query_msg::*;

/// `n` characters, all different from their neighbours, the first and last symbolic.
pub fn long(n: usize) -> String {
    if n < 4 { return string_of(n, &TWO) }
    let mid: String = (0..n - 2).map(|i| (b'a' + (i * 7 % 26) as u8) as char).collect();
    [string_of(1, &TWO), mid, string_of(1, &TWO)].concat()
}
/// `n` bytes, likewise.
pub fn blob(n: usize) -> Vec<u8> {
    if n < 4 { return bytes_of(n, &TWO) }
    let mut v = bytes_of(1, &TWO);
    v.extend((0..n - 2).map(|i| (i * 7 + i / 256) as u8));
    v.extend(bytes_of(1, &TWO));
    v
}
pub const LENS: [usize; 15] = [33, 64, 65, 127, 128, 129, 255, 256, 257, 513, 1025, 2049, 4097, 10001, 32769];
/// A length at or just beyond a boundary that implementations like to have.
pub fn big() -> usize { LENS[choose(LENS.len())] }
pub const COUNTS: [usize; 9] = [5, 10, 11, 17, 33, 65, 101, 129, 257];
pub fn many() -> usize { COUNTS[choose(COUNTS.len())] }

/// C12: long memo, many messages, long account address and channel name.
pub fn c12_scale() {
    let mut w = sender_world();
    let ax = pairs(6);
    let n = [1, 0, 5, 10, 11, 17, 33, 65, 101, 129, 257][ax.pick(0, 11)];
    let nq = [0, 1, 5, 11, 33, 65, 129, 257][ax.pick(1, 8)];
    let t = [None, Some(0), Some(77)][ax.pick(4, 3)];
    let memo = match ax.pick(2, LENS.len() + 1) { 0 => None, k => Some(long(LENS[k - 1])) };
    let i = w.st.ica_info.as_mut().unwrap();
    if ax.pick(3, 2) == 1 { i.ica_address = long(128) }
    if ax.pick(5, 2) == 1 { i.channel_id = string(64) }
    let (me, chan) = (i.ica_address.clone(), i.channel_id.clone());
    w.save();
    let to: Vec<String> = (0..n).map(|j| [format!("to{j}x"), string_of(1, &TWO)].concat()).collect();
    let ms: Vec<CosmosMsg> = to.iter().map(|t| BankMsg::Send { to_address: t.clone(), amount: vec![] }.into()).collect();
    let qs: Vec<QueryRequest> = (0..nq).map(|j| raw_query(&format!("/q{j}"), b"zz")).collect();
    let Some(r) = send(&mut w, ms, qs, memo.clone(), t, 5) else { check(F, "the owner's request is accepted"); return };
    let Some((ch, p, got, due, rep)) = sent(&r) else { return };
    check(timeout_is(&due, t, 5), "timeout");
    cover("sent");
    check(seq(&ch, &chan), "sent on the account's channel");
    check(p.r#type == 1 && rep == if nq > 0 { ReplyOn::Success } else { ReplyOn::Never }, "type and reply");
    check(oseq(&p.memo, &memo), "memo as given");
    check(got.len() == n + (nq > 0) as usize, "exactly the requested messages");
    if got.len() != n + (nq > 0) as usize { return }
    for (a, t) in got.iter().zip(&to) { check(seq(&a.type_url, "/cosmos.bank.v1beta1.MsgSend"), "message type"); check(bank::MsgSend::decode(a.value.as_slice()).map_or(F, |m| seq(&m.from_address, &me) & seq(&m.to_address, t)), "messages in order") }
}
/// C13: long texts, payloads and coin lists.
pub fn c13_scale() {
    let k = choose(15);
    let me = long([6, 128][choose(2)]);
    let n = big();
    let (t, b) = (long(n), blob(n));
    let cn = [1, 17, 33, 65, 101, 257][choose(6)];
    let coins: Vec<Coin> = (0..cn).map(|j| Coin { denom: [format!("d{j}x"), string_of(1, &TWO)].concat(), amount: Uint128::new(j as u128 * 1_000_003) }).collect();
    if (!matches!(k, 0..=2 | 5 | 6) || n > 130) && cn > 1 { return }
    let one = Coin::new(7u128, t.clone());
    let is = |p: &[PCoin]| { let mut r = B::from(p.len() == cn); for (a, b) in p.iter().zip(&coins) { r = r & seq(&a.denom, &b.denom) & B::from(a.amount == b.amount.to_string()) } r };
    let m: CosmosMsg = match k {
        0 => BankMsg::Send { to_address: t.clone(), amount: coins.clone() }.into(),
        1 => WasmMsg::Execute { contract_addr: t.clone(), msg: Binary::new(b.clone()), funds: coins.clone() }.into(),
        2 => WasmMsg::Instantiate { admin: Some(t.clone()), code_id: 9, msg: Binary::new(b.clone()), funds: coins.clone(), label: t.clone() }.into(),
        3 => WasmMsg::Migrate { contract_addr: t.clone(), new_code_id: 5, msg: Binary::new(b.clone()) }.into(),
        4 => IbcMsg::Transfer { channel_id: t.clone(), to_address: t.clone(), amount: Coin::new(7u128, t.clone()), timeout: IbcTimeout::with_timestamp(Timestamp::from_nanos(1)), memo: Some(t.clone()) }.into(),
        5 => WasmMsg::Instantiate2 { admin: None, code_id: 9, label: t.clone(), msg: Binary::new(b.clone()), funds: coins.clone(), salt: Binary::new(b.clone()) }.into(),
        6 => DistributionMsg::FundCommunityPool { amount: coins.clone() }.into(),
        7 => StakingMsg::Delegate { validator: t.clone(), amount: one }.into(),
        8 => StakingMsg::Undelegate { validator: t.clone(), amount: one }.into(),
        9 => StakingMsg::Redelegate { src_validator: t.clone(), dst_validator: [&t, "y"].concat(), amount: one }.into(),
        10 => DistributionMsg::SetWithdrawAddress { address: t.clone() }.into(),
        11 => DistributionMsg::WithdrawDelegatorReward { validator: t.clone() }.into(),
        12 => WasmMsg::UpdateAdmin { contract_addr: t.clone(), admin: [&t, "y"].concat() }.into(),
        13 => WasmMsg::ClearAdmin { contract_addr: t.clone() }.into(),
        #[allow(deprecated)]
        _ => CosmosMsg::Stargate { type_url: t.clone(), value: Binary::new(b.clone()) },
    };
    let one = |c: &Option<PCoin>| c.as_ref().map_or(F, |c| seq(&c.denom, &t) & B::from(c.amount == "7"));
    let Some(Some(a)) = crate::api::convert(m, &me) else { check(F, "a supported message converts"); return };
    cover("converted");
    let v = a.value.as_slice();
    check(match k {
        0 => bank::MsgSend::decode(v).map_or(F, |m| seq(&m.from_address, &me) & seq(&m.to_address, &t) & is(&m.amount)),
        1 => wasm::MsgExecuteContract::decode(v).map_or(F, |m| seq(&m.sender, &me) & seq(&m.contract, &t) & eq(&m.msg, &b) & is(&m.funds)),
        2 => wasm::MsgInstantiateContract::decode(v).map_or(F, |m| seq(&m.sender, &me) & seq(&m.admin, &t) & seq(&m.label, &t) & eq(&m.msg, &b) & is(&m.funds)),
        3 => wasm::MsgMigrateContract::decode(v).map_or(F, |m| seq(&m.sender, &me) & seq(&m.contract, &t) & eq(&m.msg, &b)),
        4 => <ibc_proto::ibc::apps::transfer::v1::MsgTransfer as prost::Message>::decode(v).map_or(F, |m| seq(&m.sender, &me) & seq(&m.source_channel, &t) & seq(&m.receiver, &t) & seq(&m.memo, &t) & m.token.as_ref().map_or(F, |c| seq(&c.denom, &t))),
        5 => wasm::MsgInstantiateContract2::decode(v).map_or(F, |m| seq(&m.sender, &me) & B::from(m.admin.is_empty()) & seq(&m.label, &t) & eq(&m.msg, &b) & eq(&m.salt, &b) & is(&m.funds)),
        6 => dist::MsgFundCommunityPool::decode(v).map_or(F, |m| seq(&m.depositor, &me) & is(&m.amount)),
        7 => staking::MsgDelegate::decode(v).map_or(F, |m| seq(&m.delegator_address, &me) & seq(&m.validator_address, &t) & one(&m.amount)),
        8 => staking::MsgUndelegate::decode(v).map_or(F, |m| seq(&m.delegator_address, &me) & seq(&m.validator_address, &t) & one(&m.amount)),
        9 => staking::MsgBeginRedelegate::decode(v).map_or(F, |m| seq(&m.delegator_address, &me) & seq(&m.validator_src_address, &t) & seq(&m.validator_dst_address, &[&t, "y"].concat()) & one(&m.amount)),
        10 => dist::MsgSetWithdrawAddress::decode(v).map_or(F, |m| seq(&m.delegator_address, &me) & seq(&m.withdraw_address, &t)),
        11 => dist::MsgWithdrawDelegatorReward::decode(v).map_or(F, |m| seq(&m.delegator_address, &me) & seq(&m.validator_address, &t)),
        12 => wasm::MsgUpdateAdmin::decode(v).map_or(F, |m| seq(&m.sender, &me) & seq(&m.contract, &t) & seq(&m.new_admin, &[&t, "y"].concat())),
        13 => wasm::MsgClearAdmin::decode(v).map_or(F, |m| seq(&m.sender, &me) & seq(&m.contract, &t)),
        _ => seq(&a.type_url, &t) & eq(v, &b),
    }, "fields unchanged");
}
/// C13: many options in a weighted vote.
pub fn c13_votes() {
    let n = many();
    let o = [VoteOption::Yes, VoteOption::Abstain, VoteOption::No, VoteOption::NoWithVeto];
    let s = choose(4);
    let options: Vec<WeightedVoteOption> = (0..n).map(|j| WeightedVoteOption { option: o[(s + j * 3) % 4].clone(), weight: Decimal::new(Uint128::new(j as u128 * 10_000_000_000_000_000)) }).collect();
    let want: Vec<(i32, String)> = (0..n).map(|j| ([1, 2, 3, 4][(s + j * 3) % 4], options[j].weight.to_string())).collect();
    let Some(Some(a)) = crate::api::convert(GovMsg::VoteWeighted { proposal_id: 7, options }.into(), "me") else { check(F, "converts"); return };
    cover("converted");
    let Ok(m) = cosmos_sdk_proto::cosmos::gov::v1::MsgVoteWeighted::decode(a.value.as_slice()) else { check(F, "decodable"); return };
    check(m.options.len() == n && m.options.iter().zip(&want).all(|(x, w)| x.option == w.0 && x.weight == w.1), "all options in order");
}
/// C14: many queries, long texts and payloads.
pub fn c14_scale() {
    let mut w = sender_world();
    w.save();
    let ax = pairs(2);
    let n = [1, 5, 10, 11, 17, 33, 65, 101, 129, 257][ax.pick(0, 10)];
    let (t, b) = match ax.pick(1, LENS.len() + 1) { 0 => (long(5), blob(5)), k => (long(LENS[k - 1]), blob(LENS[k - 1])) };
    let sm = flip();
    let first: QueryRequest = if sm { WasmQuery::Smart { contract_addr: t.clone(), msg: Binary::new(b.clone()) }.into() } else { raw_query(&t, &b) };
    let mut qs = vec![first];
    for j in 1..n { qs.push(if j % 3 == 0 { BankQuery::Supply { denom: format!("d{j}") }.into() } else { raw_query(&format!("/q{j}"), &[j as u8, 1]) }) }
    let Some(r) = send(&mut w, vec![], qs, None, None, 5) else { check(F, "accepted"); return };
    let Some((_, _, got, _, _)) = sent(&r) else { return };
    cover("sent");
    check(got.len() == 1, "one query message");
    let Some(Ok(m)) = got.first().map(|a| <PQuery as prost::Message>::decode(a.value.as_slice())) else { check(F, "decodable query message"); return };
    check(m.requests.len() == n, "all queries");
    if m.requests.len() != n { return }
    let f = &m.requests[0];
    check(if sm { seq(&f.path, "/cosmwasm.wasm.v1.Query/SmartContractState") & wasm::QuerySmartContractStateRequest::decode(&f.data[..]).map_or(F, |m| seq(&m.address, &t) & eq(&m.query_data, &b)) } else { seq(&f.path, &t) & eq(&f.data, &b) }, "long query unchanged");
    for j in 1..n { let q = &m.requests[j]; check(if j % 3 == 0 { seq(&q.path, "/cosmos.bank.v1beta1.Query/SupplyOf") & bank::QuerySupplyOfRequest::decode(&q.data[..]).map_or(F, |m| seq(&m.denom, &format!("d{j}"))) } else { seq(&q.path, &format!("/q{j}")) & eq(&q.data, &[j as u8, 1]) }, "queries in order") }
    let rem: Option<Vec<(String, bool)>> = get(&w.s, K_QUERY);
    check(rem.map_or(F, |v| if v.len() != n { F } else { let mut r = T; for (i, (p, s)) in v.iter().enumerate() { r = r & seq(p, &m.requests[i].path) & B::from(*s == if i == 0 { !sm } else { i % 3 != 0 }) } r }), "the queries are remembered in order until the packet is numbered");
}
/// C15: an unsupported item late in a long list still makes the whole request fail.
pub fn c15_scale() {
    let mut w = sender_world();
    w.save();
    let (nm, nq) = match choose(3) { 0 => (many(), 0), 1 => (0, many()), _ => (12, 12) };
    let mut ms: Vec<CosmosMsg> = (0..nm).map(|j| BankMsg::Send { to_address: format!("to{j}"), amount: vec![] }.into()).collect();
    let mut qs: Vec<QueryRequest> = (0..nq).map(|j| raw_query(&format!("/q{j}"), b"z")).collect();
    let k = choose(14);
    if k < 4 { if nm == 0 { return } let at = [nm, nm - 1, nm / 2, 0][choose(4)]; ms.insert(at, bad_msg(k)) } else if k < 13 { if nq == 0 { return } let at = [nq, nq - 1, nq / 2, 0][choose(4)]; qs.insert(at, bad_query(k - 4)) }
    let r = send(&mut w, ms, qs, None, None, 5);
    if k < 13 { cover(if k < 4 { "bad message" } else { "bad query" }); check(r.is_none(), "the whole request fails"); return }
    let Some(r) = r else { check(F, "accepted"); return };
    let Some((_, _, got, _, _)) = sent(&r) else { return };
    cover("sent");
    check(got.len() == nm + (nq > 0) as usize, "no message dropped");
    if nq > 0 { check(got.last().map_or(false, |a| <PQuery as prost::Message>::decode(a.value.as_slice()).map_or(false, |m| m.requests.len() == nq)), "no query dropped") }
}
/// C16: long lists of queries and many records.
pub fn c16_scale() {
    let mut w = world_by(1, flip(), choose(2)).freeing(OPEN_ACK_FREE);
    let i = w.st.ica_info.as_mut().unwrap();
    if flip() { i.channel_id = string(64) }
    let chan = i.channel_id.clone();
    w.save();
    let ax = pairs(3);
    let n = [1, 5, 17, 33, 101, 257][ax.pick(0, 6)];
    let len = match ax.pick(1, LENS.len() + 1) { 0 => 4, k => LENS[k - 1] };
    let others = [0, 17, 65, 129][ax.pick(2, 4)];
    let paths: Vec<(String, bool)> = (0..n).map(|j| (if j == 0 { long(len) } else { format!("/q{j}") }, j % 2 == 0)).collect();
    let pj = paths_json(&paths);
    let base = 100_000u64;
    for j in 0..others { w.s.put(&k_pending(&chan, base + 1 + j), b"[[\"/b\",false]]") }
    w.s.put(K_QUERY, pj.as_bytes());
    let before = w.s.clone();
    let sq = base - (bytes_of(1, &ANY)[0] & 127) as u64;
    check(reply_seq(&mut w.s, 1, sq), "a good reply is accepted");
    check(w.s.raw(&k_pending(&chan, sq)).map_or(F, |x| eq(x, pj.as_bytes())), "queries recorded under the account's channel and the assigned sequence");
    check(pending_count(&w.s) == 1 + others as usize, "no record lost or added");
    check(pending_kept(&before, &w.s), "other packets' records are kept");
    let k = choose(3);
    let res: Vec<Vec<u8>> = (0..n).map(|j| vec![j as u8]).collect();
    // a raw answer to a decoded kind is an error result; either way the record goes
    let p = packet(&chan, base - 1);
    assume(eq64(sq, base - 1));
    let r = match k { 0 => do_ack(&mut w.s, ack_ok(&query_ack(1, &res, 0)), p, "relayer1"), 1 => do_ack(&mut w.s, ack_err("no"), p, "relayer1"), _ => do_timeout(&mut w.s, p, "relayer1") };
    check(r.is_some(), "resolved");
    cover(["acknowledged", "failed", "timed out"][k]);
    check(!has_pending(&w.s, &chan, base - 1), "the packet's record is gone");
    check(pending_count(&w.s) == others as usize, "and only it");
}
/// C17: many responses, after many other message responses, long payloads.
pub fn c17_scale() {
    let mut w = world_by(1, true, 1).freeing(ACK_FREE);
    let chan = w.chan.as_ref().unwrap().channel.endpoint.channel_id.clone();
    let cb = w.st.callback_address.clone().unwrap();
    w.save();
    let ax = pairs(3);
    let n = [1, 5, 10, 17, 33, 65, 129, 257][ax.pick(0, 8)];
    let before = [0, 1, 5, 17, 65, 129][ax.pick(1, 6)];
    let len = match ax.pick(2, LENS.len() + 1) { 0 => 3, k => LENS[k - 1] };
    let off = [0usize, 1, 2][choose(3)]; // equal, one response missing, one too many
    let paths: Vec<(String, bool)> = (0..n).map(|j| (if j == 0 { long(len) } else { format!("/q{j}") }, true)).collect();
    w.s.put(&k_pending(&chan, 4), paths_json(&paths).as_bytes());
    let got = match off { 0 => n, 1 => n - 1, _ => n + 1 };
    let res: Vec<Vec<u8>> = (0..got).map(|j| if j == 0 { blob(len) } else { vec![j as u8, 1] }).collect();
    let h = num();
    let Some(r) = do_ack(&mut w.s, ack_ok(&query_ack(h, &res, before)), packet(&chan, 4), "relayer1") else { check(F, "a successful acknowledgement is processed"); return };
    match callback(&r.messages, &cb) {
        Some(MCb::OnAcknowledgementPacketCallback { query_result: Some(MResult::Error(_)), .. }) => { cover("count differs"); check(off > 0, "an error result only for a wrong number of responses") }
        Some(MCb::OnAcknowledgementPacketCallback { query_result: Some(MResult::Success { height, responses }), .. }) => {
            cover("responses");
            check(off == 0 && responses.len() == n, "responses exactly if the numbers match");
            check(eq64(height, h), "the host's height");
            for (i, x) in responses.iter().enumerate() { match x { MResp::Stargate { data, path } => { check(eq(data, &res[i]), "response bytes unchanged and in order"); check(seq(path, &paths[i].0), "response attributed to its query") } _ => check(F, "raw response") } }
        }
        _ => check(F, "a packet with queries reports their result"),
    }
}
/// C17: long error text.
pub fn c17_error() {
    let mut w = world_by(1, true, 1).freeing(ACK_FREE);
    let chan = w.chan.as_ref().unwrap().channel.endpoint.channel_id.clone();
    let cb = w.st.callback_address.clone().unwrap();
    w.save();
    w.s.put(&k_pending(&chan, 4), b"[[\"/a\",true]]");
    let t = long(big());
    let Some(r) = do_ack(&mut w.s, ack_err(&t), packet(&chan, 4), "relayer1") else { check(F, "processed"); return };
    match callback(&r.messages, &cb) { Some(MCb::OnAcknowledgementPacketCallback { query_result: Some(MResult::Error(e)), .. }) => { cover("failed"); check(seq(&e, &t), "the host's error text") } _ => check(F, "a failed packet with queries reports an error result") }
}
/// C18: long lists and long texts.
pub fn c18_scale() {
    use BankQueryResponse as Bk;
    use IcaQueryResponse::*;
    use StakingQueryResponse as St;
    use WasmQueryResponse as Wm;
    let k = choose(7);
    let n = [1, 11, 33, 65, 101, 257][choose(6)];
    let t = long(if n == 1 { big() } else { 8 });
    let b = blob(if n == 1 { big() } else { 8 });
    let d = |j: usize| [format!("d{j}x"), if j + 1 == n { t.clone() } else { String::new() }].concat();
    let coin = |j: usize| PCoin { denom: d(j), amount: (j as u128 * 1_000_003).to_string() };
    let is = |c: &Coin, j: usize| seq(&c.denom, &d(j)) & B::from(c.amount.u128() == j as u128 * 1_000_003);
    let rate = |j: usize| format!("0.{:018}", j + 1);
    let (path, data) = match k {
        0 => (1, bank::QueryAllBalancesResponse { balances: (0..n).map(coin).collect(), pagination: None }.encode_to_vec()),
        1 => (4, bank::QueryDenomsMetadataResponse { metadatas: (0..n).map(|j| bank::Metadata { base: d(j), description: t.clone(), denom_units: (0..(if j == 0 { n.min(33) } else { 1 })).map(|i| bank::DenomUnit { denom: d(i), exponent: i as u32, aliases: vec![d(i)] }).collect(), ..Default::default() }).collect(), pagination: Some(cosmos_sdk_proto::cosmos::base::query::v1beta1::PageResponse { next_key: b.clone(), total: 0 }) }.encode_to_vec()),
        2 => (9, staking::QueryValidatorsResponse { validators: (0..n).map(|j| staking::Validator { operator_address: d(j), commission: Some(staking::Commission { commission_rates: Some(staking::CommissionRates { rate: rate(j), max_rate: rate(j + 1), max_change_rate: rate(j + 2) }), update_time: None }), ..Default::default() }).collect(), pagination: None }.encode_to_vec()),
        3 => (11, staking::QueryDelegatorDelegationsResponse { delegation_responses: (0..n).map(|j| staking::DelegationResponse { delegation: Some(staking::Delegation { delegator_address: t.clone(), validator_address: d(j), shares: "1".into() }), balance: Some(coin(j)) }).collect(), pagination: None }.encode_to_vec()),
        4 => (5, wasm::QueryRawContractStateResponse { data: b.clone() }.encode_to_vec()),
        5 => (6, wasm::QuerySmartContractStateResponse { data: b.clone() }.encode_to_vec()),
        _ => (7, wasm::QueryContractInfoResponse { address: t.clone(), contract_info: Some(wasm::ContractInfo { code_id: 3, creator: t.clone(), admin: t.clone(), label: t.clone(), ibc_port_id: t.clone(), ..Default::default() }) }.encode_to_vec()),
    };
    if k > 3 && n != 1 { return }
    cover("decoded");
    let all = |len: usize, f: &dyn Fn(usize) -> B| { let mut r = B::from(len == n); if len == n { for j in 0..n { r = r & f(j) } } r };
    match crate::api::decode(crate::h_resp::KINDS[path], &data, false) {
        Some(Some(r)) => check(match &r {
            Bank(Bk::AllBalances(x)) if k == 0 => all(x.amount.len(), &|j| is(&x.amount[j], j)),
            Bank(Bk::AllDenomMetadata(x)) if k == 1 => all(x.metadata.len(), &|j| { let m = &x.metadata[j]; let un = if j == 0 { n.min(33) } else { 1 }; let mut r = seq(&m.base, &d(j)) & seq(&m.description, &t) & B::from(m.denom_units.len() == un); for (i, u) in m.denom_units.iter().enumerate() { r = r & seq(&u.denom, &d(i)) & B::from(u.exponent == i as u32 && u.aliases.len() == 1) } r }) & x.next_key.as_ref().map_or(F, |k| eq(k, &b)),
            Staking(St::AllValidators(x)) if k == 2 => all(x.validators.len(), &|j| { let v = &x.validators[j]; seq(&v.address, &d(j)) & B::from(v.commission.atomics().u128() == j as u128 + 1 && v.max_commission.atomics().u128() == j as u128 + 2 && v.max_change_rate.atomics().u128() == j as u128 + 3) }),
            Staking(St::AllDelegations(x)) if k == 3 => all(x.delegations.len(), &|j| { let v = &x.delegations[j]; seq(&v.delegator, &t) & seq(&v.validator, &d(j)) & is(&v.amount, j) }),
            Wasm(Wm::RawContractState(Some(x))) if k == 4 => eq(x, &b),
            Wasm(Wm::SmartContractState(x)) if k == 5 => eq(x, &b),
            Wasm(Wm::ContractInfo(Some(x))) if k == 6 => seq(x.creator.as_str(), &t) & x.admin.as_ref().map_or(F, |a| seq(a.as_str(), &t)) & x.ibc_port.as_ref().map_or(F, |a| seq(a, &t)) & B::from(x.code_id == 3),
            _ => F,
        }, "all values in order"),
        _ => check(F, "a large response is reported"),
    }
}
/// C19, C20: long packet data, names, results and error texts reach the callback and the event unchanged.
pub fn c19_scale() {
    let mut w = world_by(1, true, choose(2)).freeing(OPEN_ACK_FREE);
    w.st.callback_address = Some(["cosmwasm1", &long([10, 90][choose(2)])].concat());
    let cb = w.st.callback_address.clone().unwrap();
    w.save();
    let ax = dims(5);
    let size = |i: usize, std: usize| match ax.pick(i, LENS.len() + 1) { 0 => std, k => LENS[k - 1] };
    let data = blob(size(0, 3));
    let rel = long(size(1, 8).min(300));
    let res = blob(size(2, 3));
    let text = long(size(3, 5));
    let names = if ax.pick(4, 2) == 1 { (string(64), string(128), string(128), string(64)) } else { ("channel-0".to_string(), "wasm.wasm1ctl".to_string(), "icahost".to_string(), "channel-7".to_string()) };
    let p = IbcPacket::new(Binary::new(data), IbcEndpoint { port_id: names.1, channel_id: names.0 }, IbcEndpoint { port_id: names.2, channel_id: names.3 }, num3(), IbcTimeout::with_timestamp(Timestamp::from_nanos(77)));
    let k = choose(3);
    let r = match k { 0 => do_ack(&mut w.s, ack_ok(&res), p.clone(), &rel), 1 => do_ack(&mut w.s, ack_err(&text), p.clone(), &rel), _ => do_timeout(&mut w.s, p.clone(), &rel) };
    let Some(r) = r else { check(F, "processed"); return };
    match callback(&r.messages, &cb) {
        Some(MCb::OnAcknowledgementPacketCallback { ica_acknowledgement, original_packet, relayer, .. }) => {
            cover("acknowledged");
            check(packet_eq(&original_packet, &p) & seq(&relayer, &rel) & B::from(k != 2), "packet and relayer unchanged");
            match ica_acknowledgement { MAck::Result(x) => check(B::from(k == 0) & eq(&x, &res), "result unchanged"), MAck::Error(e) => check(B::from(k == 1) & seq(&e, &text), "error unchanged") }
        }
        Some(MCb::OnTimeoutPacketCallback { original_packet, relayer }) => { cover("timed out"); check(packet_eq(&original_packet, &p) & seq(&relayer, &rel) & B::from(k == 2), "packet and relayer unchanged") }
        _ => check(F, "exactly one callback of the right kind"),
    }
}
/// C20: the event for large acknowledgements.
pub fn c20_scale() {
    let mut w = world_by(1, flip(), choose(2)).freeing(ACK_FREE);
    w.save();
    let ax = pairs(2);
    let n = match ax.pick(0, LENS.len() + 1) { 0 => 5, k => LENS[k - 1] };
    let (chan, port) = if ax.pick(1, 2) == 1 { (string(64), string(128)) } else { (string(9), string(PORT)) };
    let (res, text) = (blob(n), long(n));
    let mut p = packet(&chan, num());
    p.src.port_id = port.clone();
    let ok = flip();
    let sq = p.sequence;
    let Some(r) = do_ack(&mut w.s, if ok { ack_ok(&res) } else { ack_err(&text) }, p, "relayer1") else { check(F, "processed"); return };
    cover(if ok { "success" } else { "failure" });
    let Some(e) = the_event(&r) else { check(F, "exactly one acknowledgement event"); return };
    check(attr(e, "packet_sequence").map_or(F, |x| seq(x, &sq.to_string())) & attr(e, "packet_src_port").map_or(F, |x| seq(x, &port)) & attr(e, "packet_src_channel").map_or(F, |x| seq(x, &chan)), "event names the packet");
    if ok { check(attr(e, "packet_ack_base64").map_or(F, |x| seq(x, &Binary::from(res.as_slice()).to_base64())), "event carries the result") } else { check(attr(e, "error").map_or(F, |x| seq(x, &text)), "event carries the error") }
}
/// C11: names of any allowed length.
pub fn c11_scale() {
    let ord = choose(2);
    let mut w = world_by(1, false, ord).freeing(OPEN_ACK_FREE);
    let c = &mut w.chan.as_mut().unwrap().channel;
    c.endpoint = MEnd { port_id: string(70), channel_id: string(64) };
    c.version = long(600);
    let id = c.endpoint.channel_id.clone();
    w.st.ica_info.as_mut().unwrap().channel_id = id.clone();
    w.save();
    // differs from the recorded name in at most its last characters, or is a prefix of it
    let pc = match choose(3) { 0 => id.clone(), 1 => [&id[..62], &string(2)].concat(), _ => id[..63].to_string() };
    w.s.put(&k_pending(&pc, 3), b"[[\"/a\",true]]");
    let old = w.chan.clone().unwrap();
    check(do_timeout(&mut w.s, packet(&pc, 3), "relayer1").is_some(), "a timeout is always processed");
    cover("ran");
    let hit = seq(&pc, &id) & B::from(ord == 0);
    check(get::<MChanState>(&w.s, K_CHAN).map_or(F, |n| chan_eq(&n.channel, &old.channel) & ((hit & seq(&n.channel_status, "STATE_CLOSED")) | (!hit & seq(&n.channel_status, "STATE_OPEN")))), "closed exactly if it is the packet's channel and ordered");
    check(pending_count(&w.s) == 0, "the packet's record is dropped");
}
/// C03, C04: long names in the options and a long contract address, through instantiation and a later request.
pub fn c04_scale() {
    let ax = pairs(4);
    let o = MOpts { connection_id: string([7, 64, 13, 14][ax.pick(0, 4)]), counterparty_connection_id: string([7, 64, 13, 14][ax.pick(1, 4)]), counterparty_port_id: match ax.pick(2, 3) { 0 => None, k => Some(string([64, 128][k - 1])) }, channel_ordering: None };
    let me = string([10, 63, 64, 65, 90][ax.pick(3, 5)]);
    let mut s = Store::default();
    let own = cb_addr();
    let m = InstantiateMsg { owner: None, channel_open_init_options: opts_api(&o), send_callbacks_to: None };
    let Some(r) = outcome(|| contract::instantiate(deps!(s), env_at(any_u64(), any_u64(), &me), info(&own), m)) else { check(F, "instantiates"); return };
    crate::h_inst::check_open_request(&r.messages, &o, &me);
    check(get::<MOpts>(&s, K_OPTS).map_or(F, |x| opts_eq(&x, &o)), "options remembered");
    let given = flip();
    let Some(r) = outcome(|| contract::execute(deps!(s), env_at(any_u64(), any_u64(), &me), info(&own), ExecuteMsg::CreateChannel { channel_open_init_options: if given { Some(opts_api(&o)) } else { None } })) else { check(F, "the owner's request with options succeeds"); return };
    cover("requested");
    crate::h_inst::check_open_request(&r.messages, &o, &me);
    check(get::<MOpts>(&s, K_OPTS).map_or(F, |x| opts_eq(&x, &o)), "options remembered");
}
/// C03: long owner, callback address and instantiator.
pub fn c03_scale() {
    let mut s = Store::default();
    let l = |k: usize| string([8, 43, 63, 64, 65, 90][k]);
    let ax = pairs(3);
    let sender = l(ax.pick(0, 6));
    let owner = opt(|| l(ax.pick(1, 6)));
    let cb = opt(|| l(ax.pick(2, 6)));
    let msg = InstantiateMsg { owner: owner.clone(), channel_open_init_options: opts_api(&some_opts()), send_callbacks_to: cb.clone() };
    let want = owner.clone().unwrap_or(sender.clone());
    let valid = addr_ok(&want) & cb.as_ref().map_or(T, |c| addr_ok(c));
    match outcome(|| contract::instantiate(deps!(s), env(), info(&sender), msg)) {
        None => { cover("refused"); check(!valid, "instantiation with valid addresses succeeds") }
        Some(_) => {
            cover("instantiated");
            check(valid, "owner and callback address are validated");
            check(get::<MOwn>(&s, K_OWN).map_or(F, |x| oseq(&x.owner, &Some(want))), "owner is the configured one or the instantiator");
            check(get::<MState>(&s, K_STATE).map_or(F, |x| oseq(&x.callback_address, &cb)), "callback address as configured");
        }
    }
}
/// C06, C07: long names through a handshake.
pub fn c07_scale() {
    let ax = pairs(4);
    let mut w = world_by([0, 2][choose(2)], flip(), 0).freeing(OPEN_ACK_FREE);
    w.open = Some(Some(true));
    let conn = string([7, 64, 13][ax.pick(0, 3)]);
    let host = string([7, 64, 0][ax.pick(1, 3)]);
    let (id, port) = match ax.pick(2, 2) { 0 => (string(9), string(PORT)), _ => (string(64), string(128)) };
    let pad = [3, 43, 63, 64, 65, 127][ax.pick(3, 6)];
    let addr = [&"q".repeat(pad)[..], &string_of(1, &crate::h_misc::LOWER)].concat();
    w.save();
    let m = MMeta { version: "ics27-1".into(), controller_connection_id: conn.clone(), host_connection_id: host, address: String::new(), encoding: PROTO.into(), tx_type: "sdk_multi_msg".into() };
    let mut ch = MChan { endpoint: MEnd { port_id: port, channel_id: id }, counterparty_endpoint: MEnd { port_id: "icahost".into(), channel_id: string(9) }, order: ORDERS[choose(2)].into(), version: m.text(), connection_id: conn };
    let Some(r) = outcome(|| ibc_channel_open(deps!(w.s), any_env(), IbcChannelOpenMsg::new_init(ibc_channel(&ch)))) else { check(F, "a valid proposal is accepted"); return };
    check(r.and_then(|v| meta_of(&v.version)).map_or(F, |x| x.same(&m)), "the answer is the proposed metadata");
    let a = MMeta { address: addr.clone(), ..m };
    if outcome(|| ibc_channel_connect(deps!(w.s), any_env(), IbcChannelConnectMsg::new_ack(ibc_channel(&ch), a.text()))).is_none() { check(F, "a valid acknowledgement is accepted"); return }
    cover("opened");
    ch.version = a.text();
    check(get::<MState>(&w.s, K_STATE).map_or(F, |s| ica_eq(&s.ica_info, &Some(MIca { ica_address: addr, channel_id: ch.endpoint.channel_id.clone(), encoding: PROTO.into() }))), "account recorded");
    check(get::<MChanState>(&w.s, K_CHAN).map_or(F, |c| chanstate_eq(&c, &MChanState { channel: ch, channel_status: "STATE_OPEN".into() })), "channel recorded");
}
/// C06, C07: an address of more than 128 bytes is refused, however many characters these are.
fn long_address() -> String { match choose(4) { 0 => ["é".repeat(64), string_of(1, &crate::h_misc::LOWER)].concat(), 1 => "€".repeat(43), 2 => ["q".repeat(127), "é".into()].concat(), _ => ["q".repeat(128), string_of(1, &crate::h_misc::LOWER)].concat() } }
pub fn c06_address() {
    let mut w = world_by([0, 2][choose(2)], false, 0);
    w.open = IS(true);
    w.save();
    let mut ch = any_chan(choose(2));
    ch.counterparty_endpoint = MEnd { port_id: "icahost".into(), channel_id: String::new() };
    ch.version = MMeta { version: "ics27-1".into(), controller_connection_id: ch.connection_id.clone(), host_connection_id: string(6), address: long_address(), encoding: PROTO.into(), tx_type: "sdk_multi_msg".into() }.text();
    cover("ran");
    check(outcome(|| ibc_channel_open(deps!(w.s), any_env(), IbcChannelOpenMsg::new_init(ibc_channel(&ch)))).is_none(), "an overlong address is refused");
}
pub fn c07_address() {
    let mut w = world_by([0, 2][choose(2)], false, 0);
    w.save();
    let ch = any_chan(choose(2));
    assume(!seq(&ch.endpoint.port_id, "icahost"));
    let cv = MMeta { version: "ics27-1".into(), controller_connection_id: ch.connection_id.clone(), host_connection_id: string(6), address: long_address(), encoding: PROTO.into(), tx_type: "sdk_multi_msg".into() }.text();
    cover("ran");
    check(outcome(|| ibc_channel_connect(deps!(w.s), any_env(), IbcChannelConnectMsg::new_ack(ibc_channel(&ch), cv))).is_none(), "an overlong address is refused");
}
/// C22: long values are reported unchanged.
pub fn c22_scale() {
    let mut w = world_by(1, true, choose(2));
    let ax = dims(3);
    let size = |i: usize, std: usize| match ax.pick(i, LENS.len() + 1) { 0 => std, k => LENS[k - 1] };
    w.st.callback_address = Some(["c", &long(size(0, 8))].concat());
    w.st.ica_info.as_mut().unwrap().ica_address = long(size(1, 9));
    w.owner = ["o", &long(size(0, 8))].concat();
    let c = &mut w.chan.as_mut().unwrap().channel;
    c.version = long(size(2, 9));
    if ax.pick(2, 2) == 1 { c.endpoint = MEnd { port_id: string(128), channel_id: string(64) }; c.counterparty_endpoint = MEnd { port_id: string(128), channel_id: string(64) }; c.connection_id = string(64) }
    w.save();
    let ask = |m: QueryMsg| outcome(|| contract::query(rdeps!(w.s), any_env(), m));
    cover("ran");
    check(ask(QueryMsg::GetContractState {}).and_then(|r| from_json::<MState>(&r).ok()).map_or(F, |g| state_eq(&g, &w.st)), "account and callback as recorded");
    check(ask(QueryMsg::GetChannel {}).and_then(|r| from_json::<MChanState>(&r).ok()).map_or(F, |g| chanstate_eq(&g, w.chan.as_ref().unwrap())), "channel as recorded");
    check(ask(QueryMsg::Ownership {}).and_then(|r| from_json::<MOwn>(&r).ok()).map_or(F, |g| oseq(&g.owner, &Some(w.owner.clone()))), "owner as recorded");
}
/// C23: long texts and long lists through the helpers.
pub fn c23_scale() {
    use crate::h_misc::wasm_msg;
    use cw_ica_controller::helpers::*;
    let ax = dims(6);
    let o = MOpts { connection_id: "connection-0".into(), counterparty_connection_id: if ax.pick(0, 2) == 1 { long(129) } else { "connection-1".into() }, counterparty_port_id: if ax.pick(1, 2) == 1 { Some(long(129)) } else { None }, channel_ordering: None };
    let len = |k: usize, ax: &Axis| match ax.pick(k, LENS.len() + 1) { 0 => string_of(1, &TWO), j => long(LENS[j - 1]) };
    let (l, ad, ow, cb) = (len(2, &ax), len(3, &ax), len(4, &ax), len(5, &ax));
    let m = InstantiateMsg { owner: Some(ow.clone()), send_callbacks_to: Some(cb.clone()), channel_open_init_options: opts_api(&o) };
    match outcome(|| CwIcaControllerCode::new(7).instantiate(m, l.clone(), Some(ad.clone()))).map(wasm_msg) {
        Some(WasmMsg::Instantiate { admin, code_id, msg, funds, label }) => {
            cover("instantiate");
            check(code_id == 7 && funds.is_empty(), "code and funds");
            check(seq(&label, &l) & oseq(&admin, &Some(ad)), "label and admin");
            match from_json::<InstantiateMsg>(&msg) { Ok(m) => check(oseq(&m.owner, &Some(ow)) & oseq(&m.send_callbacks_to, &Some(cb)) & crate::h_misc::opts_is(&m.channel_open_init_options, &o), "members"), Err(_) => check(F, "parses as the contract parses it") }
        }
        _ => check(F, "an instantiate message"),
    }
}
/// C23: an execute request with many and large parts through the helper.
pub fn c23_scale_execute() {
    use crate::h_misc::wasm_msg;
    let ax = dims(4);
    let n = [1, 0, 5, 10, 11, 17, 33, 65, 101, 129, 257][ax.pick(0, 11)];
    let nq = [1, 0, 5, 11, 33, 65, 129, 257][ax.pick(1, 8)];
    let memo = match ax.pick(2, LENS.len() + 1) { 0 => None, k => Some(long(LENS[k - 1])) };
    let val = match ax.pick(3, 11) { 0 => blob(3), k => blob(LENS[k - 1]) };
    let ty: Vec<String> = (0..n).map(|j| [format!("/t{j}x"), string_of(1, &TWO)].concat()).collect();
    #[allow(deprecated)]
    let ms: Vec<CosmosMsg> = ty.iter().map(|t| CosmosMsg::Stargate { type_url: t.clone(), value: Binary::new(val.clone()) }).collect();
    let qs: Vec<QueryRequest> = (0..nq).map(|j| raw_query(&format!("/q{j}"), b"zz")).collect();
    let c = cw_ica_controller::helpers::CwIcaControllerContract::new(Addr::unchecked("controller"));
    let m = ExecuteMsg::SendCosmosMsgs { messages: ms, queries: qs.clone(), packet_memo: memo.clone(), timeout_seconds: Some(7) };
    let Some(WasmMsg::Execute { contract_addr, msg, funds }) = outcome(|| c.execute(m)).map(wasm_msg) else { check(F, "an execute message"); return };
    cover("built");
    check(contract_addr == "controller" && funds.is_empty(), "to the contract, no funds");
    sent_as_asked(&msg, &ty, &val, &qs, &memo);
}
fn sent_as_asked(msg: &[u8], ty: &[String], val: &[u8], qs: &[QueryRequest], memo: &Option<String>) {
    let Ok(ExecuteMsg::SendCosmosMsgs { messages, queries, packet_memo, timeout_seconds }) = from_json::<ExecuteMsg>(msg) else { check(F, "parses as the contract parses it"); return };
    check(oseq(&packet_memo, memo) & B::from(timeout_seconds == Some(7)), "memo and timeout");
    check(queries[..] == *qs, "queries in order");
    check(messages.len() == ty.len(), "every message");
    for (m, t) in messages.iter().zip(ty) {
        #[allow(deprecated)]
        check(match m { CosmosMsg::Stargate { type_url, value } => seq(type_url, t) & eq(value, val), _ => F }, "messages in order")
    }
}
/// C24: documented requests with many and large parts.
pub fn c24_scale() {
    let ax = dims(4);
    let n = [1, 0, 5, 10, 11, 17, 33, 65, 101, 129, 257][ax.pick(0, 11)];
    let nq = [1, 0, 5, 11, 33, 65, 129, 257][ax.pick(1, 8)];
    let memo = match ax.pick(2, LENS.len() + 1) { 0 => None, k => Some(long(LENS[k - 1])) };
    let (val, b64) = match ax.pick(3, 4) { 0 => (vec![1, 2], "AQI=".to_string()), k => { let z = [48, 300, 3000][k - 1]; (vec![0; z], "AAAA".repeat(z / 3)) } };
    let ty: Vec<String> = (0..n).map(|j| [format!("/t{j}x"), string_of(1, &TWO)].concat()).collect();
    let ms: Vec<String> = ty.iter().map(|t| ["{\"stargate\":{\"type_url\":\"", t, "\",\"value\":\"", &b64, "\"}}"].concat()).collect();
    let qj: Vec<String> = (0..nq).map(|j| format!("{{\"stargate\":{{\"path\":\"/q{j}\",\"data\":\"enp6\"}}}}")).collect();
    let qs: Vec<QueryRequest> = (0..nq).map(|j| raw_query(&format!("/q{j}"), b"zzz")).collect();
    let j = ["{\"send_cosmos_msgs\":{\"messages\":[", &ms.join(","), "],\"queries\":[", &qj.join(","), "],\"timeout_seconds\":7", &memo.as_ref().map_or(String::new(), |m| [",\"packet_memo\":\"", m, "\""].concat()), "}}"].concat();
    cover("built");
    sent_as_asked(j.as_bytes(), &ty, &val, &qs, &memo);
}
/// C05, C08, C09, C10: long names. The recorded channel's name is `n` characters; the step's differs in at most the last ones.
fn long_world(k: usize) -> (World, MChan) {
    let mut w = world_by(k, flip(), choose(2));
    let n = [33, 64][choose(2)];
    let c = match &mut w.chan { Some(c) => &mut c.channel, None => return (w, { let mut c = any_chan(choose(2)); c.endpoint = MEnd { port_id: string(70), channel_id: string(n) }; c }) };
    c.endpoint = MEnd { port_id: string(70), channel_id: string(n) };
    c.counterparty_endpoint = MEnd { port_id: string(128), channel_id: string(n) };
    c.connection_id = string(64);
    c.version = long(600);
    let c = c.clone();
    if let Some(i) = &mut w.st.ica_info { i.channel_id = c.endpoint.channel_id.clone() }
    (w, c)
}
fn nearly(x: &str) -> String { let n = x.len(); match choose(3) { 0 => [&x[..n - 1], &string(1)].concat(), 1 => x[..n - 1].to_string(), _ => [x, &string(1)].concat() } }
pub fn c05_scale() {
    let k = choose(3);
    let (mut w, mut ch) = long_world(k);
    let may = flip();
    w.open = IS(may);
    let before = w.save();
    let conn = string([64, 13][choose(2)]);
    let m = MMeta { version: "ics27-1".into(), controller_connection_id: conn.clone(), host_connection_id: string(64), address: String::new(), encoding: PROTO.into(), tx_type: "sdk_multi_msg".into() };
    ch.version = m.text();
    ch.connection_id = conn;
    ch.counterparty_endpoint = MEnd { port_id: "icahost".into(), channel_id: String::new() };
    let mut go = || outcome(|| ibc_channel_open(deps!(w.s), any_env(), IbcChannelOpenMsg::new_init(ibc_channel(&ch)))).is_some();
    let r = go();
    cover(if r { "accepted" } else { "refused" });
    check(r == (may && k != 1), "accepted exactly with permission and no open channel");
    if !r { return }
    check(!go(), "a second open-init is refused");
    check(B::from(!flag(&w.s, K_OPEN)) & same_except(&before, &w.s, &[K_OPEN]), "the permission is used up, nothing else changes");
}
pub fn c08_scale() {
    let (mut w, old) = long_world(1);
    w.open = IS(true);
    w.save();
    let conn = string(64);
    let m = MMeta { version: "ics27-1".into(), controller_connection_id: conn.clone(), host_connection_id: string(64), address: "acct".into(), encoding: PROTO.into(), tx_type: "sdk_multi_msg".into() };
    let ch = MChan { endpoint: MEnd { port_id: old.endpoint.port_id.clone(), channel_id: if flip() { nearly(&old.endpoint.channel_id) } else { old.endpoint.channel_id.clone() } }, counterparty_endpoint: MEnd { port_id: "icahost".into(), channel_id: string(64) }, order: ORDERS[choose(2)].into(), version: m.text(), connection_id: conn };
    let init = flip();
    let r = if init { outcome(|| ibc_channel_open(deps!(w.s), any_env(), IbcChannelOpenMsg::new_init(ibc_channel(&ch)))).is_some() } else { outcome(|| ibc_channel_connect(deps!(w.s), any_env(), IbcChannelConnectMsg::new_ack(ibc_channel(&ch), m.text()))).is_some() };
    cover(if init { "init" } else { "ack" });
    check(!r, "no handshake step is accepted while a channel is open");
}
pub fn c09_scale() {
    let (mut w, old) = long_world(1 + choose(2));
    let open = w.chan.as_ref().unwrap().channel_status == STATUSES[0];
    let may = flip();
    w.close = IS(may);
    w.save();
    let mut ch = old.clone();
    match choose(8) { 0 => {} 7 => ch.order = ORDERS[(old.order == ORDERS[0]) as usize].into(), 1 => ch.endpoint.channel_id = nearly(&old.endpoint.channel_id), 2 => ch.endpoint.port_id = nearly(&old.endpoint.port_id), 3 => ch.counterparty_endpoint.channel_id = nearly(&old.counterparty_endpoint.channel_id), 4 => ch.counterparty_endpoint.port_id = nearly(&old.counterparty_endpoint.port_id), 5 => ch.version = nearly(&old.version), _ => ch.connection_id = nearly(&old.connection_id) }
    let init = flip();
    let c = ibc_channel(&ch);
    let r = outcome(|| ibc_channel_close(deps!(w.s), any_env(), if init { IbcChannelCloseMsg::new_init(c) } else { IbcChannelCloseMsg::new_confirm(c) })).is_some();
    let ok = chan_eq(&ch, &old) & B::from(open && (may || !init));
    cover(if r { "closed" } else { "refused" });
    check(if r { ok } else { !ok }, "exactly the recorded open channel closes, close-init only with consent");
    if r { check(get::<MChanState>(&w.s, K_CHAN).map_or(F, |x| chanstate_eq(&x, &MChanState { channel: ch, channel_status: "STATE_CLOSED".into() })), "marked closed, details kept") }
}
pub fn c10_scale() {
    let (mut w, mut ch) = long_world(choose(3));
    w.open = IS(true);
    w.save();
    let k = choose(3);
    let m = MMeta { version: "ics27-1".into(), controller_connection_id: ch.connection_id.clone(), host_connection_id: string(64), address: long(64), encoding: PROTO.into(), tx_type: "sdk_multi_msg".into() };
    if flip() { ch.version = m.text() }
    let r = match k {
        0 => outcome(|| ibc_channel_open(deps!(w.s), any_env(), IbcChannelOpenMsg::new_try(ibc_channel(&ch), m.text()))).is_some(),
        1 => outcome(|| ibc_channel_connect(deps!(w.s), any_env(), IbcChannelConnectMsg::new_confirm(ibc_channel(&ch)))).is_some(),
        _ => { let mut p = packet(&ch.endpoint.channel_id, any_u64()); p.data = Binary::new(blob(big())); outcome(|| cw_ica_controller::ibc::relay::ibc_packet_receive(deps!(w.s), any_env(), IbcPacketReceiveMsg::new(p, Addr::unchecked(string(63))))).is_some() }
    };
    cover(["try", "confirm", "receive"][k]);
    check(!r, "host-side steps abort");
}
crate::harnesses!(REG: c05_scale c08_scale c09_scale c10_scale c12_scale c13_scale c13_votes c14_scale c15_scale c16_scale c17_scale c17_error c18_scale c19_scale c20_scale c11_scale c04_scale c03_scale c06_address c07_address c07_scale c22_scale c23_scale c23_scale_execute c24_scale);
