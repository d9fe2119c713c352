//! C12 packets, C13 message conversion, C14 query conversion, C15 unsupported content.
use crate::env::*;
use crate::vp::*;
use cosmos_sdk_proto::cosmos::{bank::v1beta1 as bank, base::query::v1beta1::PageRequest as PPage, base::v1beta1::Coin as PCoin, distribution::v1beta1 as dist, gov::v1 as gov1, gov::v1beta1 as gov, staking::v1beta1 as staking};
use cosmos_sdk_proto::cosmwasm::wasm::v1 as wasm;
use cosmos_sdk_proto::ibc::applications::interchain_accounts::v1::CosmosTx;
use cosmos_sdk_proto::traits::Message;
use cosmos_sdk_proto::Any;
use cosmwasm_std::*;
use cw_ica_controller::contract;
use cw_ica_controller::types::msg::*;
use serde::Deserialize;

#[derive(Deserialize)]
#[serde(deny_unknown_fields)]
pub struct MPacket { pub r#type: u32, pub data: Vec<u8>, pub memo: Option<String> }
#[derive(Clone, PartialEq, prost::Message)]
pub struct PQuery { #[prost(string, tag = "1")] pub signer: String, #[prost(message, repeated, tag = "2")] pub requests: Vec<PReq> }
#[derive(Clone, PartialEq, prost::Message)]
pub struct PReq { #[prost(string, tag = "1")] pub path: String, #[prost(bytes = "vec", tag = "2")] pub data: Vec<u8> }
pub const QUERY_URL: &str = "/ibc.applications.interchain_accounts.host.v1.MsgModuleQuerySafe";

/// Source of symbolic field values. `packet`: values whose packet bytes are two-digit numbers, so that the JSON array of
/// the packet stays free of case splits. `v`: which lengths texts and lists have.
#[derive(Clone, Copy)]
pub struct Gen { pub packet: bool, pub v: usize, pub full: usize }
impl Gen {
    fn len(&self, n: usize, big: usize) -> usize { if hole() { return 0 } match self.v { 1 => 0, 2 => big, 4 => 5, _ => n } }
    pub fn s(&self, n: usize) -> String { string_of(self.len(n, 130), if self.packet { &TWO } else { &TEXT }) }
    pub fn b(&self, n: usize) -> Vec<u8> { bytes_of(self.len(n, 129), if self.packet { &TWO } else { &ANY }) }
    /// number field `i`: any value if it is the chosen one, else a small one
    pub fn n(&self, i: usize) -> u64 { if hole() { 0 } else if self.packet { 7 } else if self.full == i { any_u64() } else { u64_in(1, 127) } }
    pub fn coin(&self) -> Coin { Coin { denom: self.s(4), amount: self.amount() } }
    pub fn amount(&self) -> Uint128 { if hole() { Uint128::zero() } else if self.packet || self.v != 3 { Uint128::from(num3()) } else { Uint128::new([0, 1, u64::MAX as u128, 1 << 64, u128::MAX][choose(5)]) } }
    pub fn coins(&self) -> Vec<Coin> { let n = if hole() { 0 } else { match self.v { 1 => 0, 2 => 3, 3 => 1, _ => 2 } }; (0..n).map(|_| self.coin()).collect() }
    pub fn opt(&self, n: usize) -> Option<String> { if self.v == 1 || hole() { None } else { Some(self.s(n)) } }
}
fn coin_eq(c: &Coin, p: &PCoin) -> B { seq(&c.denom, &p.denom) & seq(&c.amount.to_string(), &p.amount) }
fn coins_eq(c: &[Coin], p: &[PCoin]) -> B { if c.len() != p.len() { return F } let mut r = T; for (a, b) in c.iter().zip(p) { r = r & coin_eq(a, b) } r }
fn ocoin_eq(c: &Coin, p: &Option<PCoin>) -> B { p.as_ref().map_or(F, |p| coin_eq(c, p)) }
/// `a` is a message of type `url`, decodable, with exactly the canonical bytes.
fn dec<M: Message + Default>(a: &Any, url: &str) -> Option<M> {
    check(seq(&a.type_url, url), "message type");
    match M::decode(a.value.as_slice()) { Ok(m) => { check(m.encoded_len() == a.value.len(), "no other fields"); Some(m) } Err(_) => { check(F, "decodable message"); None } }
}
const OPTS: [(VoteOption, i32); 4] = [(VoteOption::Yes, 1), (VoteOption::Abstain, 2), (VoteOption::No, 3), (VoteOption::NoWithVeto, 4)];
pub const MSGS: usize = 18;
pub type Check = Box<dyn Fn(&Any)>;
/// Message kind `k` with symbolic fields, and what its protobuf form must hold; `me` is the interchain account.
pub fn msg(k: usize, g: Gen, me: &str) -> (CosmosMsg, Check) {
    let me = me.to_string();
    match k {
        0 => { let (to, c) = (g.s(6), g.coins()); (BankMsg::Send { to_address: to.clone(), amount: c.clone() }.into(), Box::new(move |a| { let Some(m) = dec::<bank::MsgSend>(a, "/cosmos.bank.v1beta1.MsgSend") else { return }; check(seq(&m.from_address, &me), "sent by the account"); check(seq(&m.to_address, &to) & coins_eq(&c, &m.amount), "bank send fields") })) }
        1 => {
            let (ch, to, c, memo) = (g.s(9), g.s(6), g.coin(), g.opt(5));
            let (h, r, t) = (g.n(0), g.n(1), g.n(2));
            let tk = if g.packet { 0 } else { choose(3) };
            let timeout = match tk { 0 => IbcTimeout::with_timestamp(Timestamp::from_nanos(t)), 1 => IbcTimeout::with_block(IbcTimeoutBlock { revision: r, height: h }), _ => IbcTimeout::with_both(IbcTimeoutBlock { revision: r, height: h }, Timestamp::from_nanos(t)) };
            (IbcMsg::Transfer { channel_id: ch.clone(), to_address: to.clone(), amount: c.clone(), timeout, memo: memo.clone() }.into(), Box::new(move |a| {
                use ibc_proto::ibc::apps::transfer::v1::MsgTransfer;
                check(seq(&a.type_url, "/ibc.applications.transfer.v1.MsgTransfer"), "message type");
                let Ok(m) = <MsgTransfer as prost::Message>::decode(a.value.as_slice()) else { check(F, "decodable message"); return };
                check(seq(&m.sender, &me), "sent by the account");
                check(seq(&m.source_port, "transfer") & seq(&m.source_channel, &ch) & seq(&m.receiver, &to) & seq(&m.memo, memo.as_deref().unwrap_or("")), "transfer fields");
                check(m.token.as_ref().map_or(F, |p| seq(&p.denom, &c.denom) & seq(&p.amount, &c.amount.to_string())), "transfer coin");
                check(match (&m.timeout_height, tk) { (None, 0) => T, (Some(x), 1 | 2) => eq64(x.revision_number, r) & eq64(x.revision_height, h), _ => F }, "height timeout");
                check(eq64(m.timeout_timestamp, if tk == 1 { 0 } else { t }), "timestamp timeout");
            }))
        }
        2 => { let (ca, b, c) = (g.s(7), g.b(5), g.coins()); (WasmMsg::Execute { contract_addr: ca.clone(), msg: Binary::new(b.clone()), funds: c.clone() }.into(), Box::new(move |a| { let Some(m) = dec::<wasm::MsgExecuteContract>(a, "/cosmwasm.wasm.v1.MsgExecuteContract") else { return }; check(seq(&m.sender, &me), "sent by the account"); check(seq(&m.contract, &ca) & eq(&m.msg, &b) & coins_eq(&c, &m.funds), "execute fields") })) }
        3 => { let (ad, id, b, c, l) = (g.opt(6), g.n(0), g.b(5), g.coins(), g.s(4)); (WasmMsg::Instantiate { admin: ad.clone(), code_id: id, msg: Binary::new(b.clone()), funds: c.clone(), label: l.clone() }.into(), Box::new(move |a| { let Some(m) = dec::<wasm::MsgInstantiateContract>(a, "/cosmwasm.wasm.v1.MsgInstantiateContract") else { return }; check(seq(&m.sender, &me), "sent by the account"); check(seq(&m.admin, ad.as_deref().unwrap_or("")) & eq64(m.code_id, id) & eq(&m.msg, &b) & coins_eq(&c, &m.funds) & seq(&m.label, &l), "instantiate fields") })) }
        4 => { let (ad, id, b, c, l, sa) = (g.opt(6), g.n(0), g.b(5), g.coins(), g.s(4), g.b(3)); (WasmMsg::Instantiate2 { admin: ad.clone(), code_id: id, msg: Binary::new(b.clone()), funds: c.clone(), label: l.clone(), salt: Binary::new(sa.clone()) }.into(), Box::new(move |a| { let Some(m) = dec::<wasm::MsgInstantiateContract2>(a, "/cosmwasm.wasm.v1.MsgInstantiateContract2") else { return }; check(seq(&m.sender, &me), "sent by the account"); check(seq(&m.admin, ad.as_deref().unwrap_or("")) & eq64(m.code_id, id) & eq(&m.msg, &b) & coins_eq(&c, &m.funds) & seq(&m.label, &l) & eq(&m.salt, &sa) & B::from(!m.fix_msg), "instantiate2 fields") })) }
        5 => { let (ca, id, b) = (g.s(7), g.n(0), g.b(5)); (WasmMsg::Migrate { contract_addr: ca.clone(), new_code_id: id, msg: Binary::new(b.clone()) }.into(), Box::new(move |a| { let Some(m) = dec::<wasm::MsgMigrateContract>(a, "/cosmwasm.wasm.v1.MsgMigrateContract") else { return }; check(seq(&m.sender, &me), "sent by the account"); check(seq(&m.contract, &ca) & eq64(m.code_id, id) & eq(&m.msg, &b), "migrate fields") })) }
        6 => { let (ca, ad) = (g.s(7), g.s(6)); (WasmMsg::UpdateAdmin { contract_addr: ca.clone(), admin: ad.clone() }.into(), Box::new(move |a| { let Some(m) = dec::<wasm::MsgUpdateAdmin>(a, "/cosmwasm.wasm.v1.MsgUpdateAdmin") else { return }; check(seq(&m.sender, &me), "sent by the account"); check(seq(&m.contract, &ca) & seq(&m.new_admin, &ad), "update-admin fields") })) }
        7 => { let ca = g.s(7); (WasmMsg::ClearAdmin { contract_addr: ca.clone() }.into(), Box::new(move |a| { let Some(m) = dec::<wasm::MsgClearAdmin>(a, "/cosmwasm.wasm.v1.MsgClearAdmin") else { return }; check(seq(&m.sender, &me), "sent by the account"); check(seq(&m.contract, &ca), "clear-admin fields") })) }
        8 => { let (id, o) = (g.n(0), choose(4)); (GovMsg::Vote { proposal_id: id, option: OPTS[o].0.clone() }.into(), Box::new(move |a| { let Some(m) = dec::<gov::MsgVote>(a, "/cosmos.gov.v1beta1.MsgVote") else { return }; check(seq(&m.voter, &me), "voted by the account"); check(eq64(m.proposal_id, id) & B::from(m.option == OPTS[o].1), "vote fields") })) }
        9 => {
            let id = g.n(0);
            let w = [(Decimal::one(), "1"), (Decimal::percent(50), "0.5"), (Decimal::new(Uint128::new(1)), "0.000000000000000001"), (Decimal::new(Uint128::new(333333333333333333)), "0.333333333333333333"), (Decimal::zero(), "0")];
            let n = match g.v { 1 => 0, 2 => 3, _ => 2 };
            let (o, wi) = (choose(4), choose(5));
            let list: Vec<(usize, usize)> = (0..n).map(|i| ((o + i) % 4, (wi + i) % 5)).collect();
            (GovMsg::VoteWeighted { proposal_id: id, options: list.iter().map(|(o, i)| WeightedVoteOption { option: OPTS[*o].0.clone(), weight: w[*i].0 }).collect() }.into(), Box::new(move |a| {
                let Some(m) = dec::<gov1::MsgVoteWeighted>(a, "/cosmos.gov.v1.MsgVoteWeighted") else { return };
                check(seq(&m.voter, &me), "voted by the account");
                check(eq64(m.proposal_id, id) & B::from(m.metadata.is_empty() && m.options.len() == list.len()), "weighted vote fields");
                for (x, (o, i)) in m.options.iter().zip(&list) { check(seq(&x.weight, w[*i].1) & B::from(x.option == OPTS[*o].1), "weighted options in order") }
            }))
        }
        10 | 11 => { let (v, c) = (g.s(7), g.coin()); let m: CosmosMsg = if k == 10 { StakingMsg::Delegate { validator: v.clone(), amount: c.clone() }.into() } else { StakingMsg::Undelegate { validator: v.clone(), amount: c.clone() }.into() };
            (m, Box::new(move |a| { let (d, w, x) = if k == 10 { let Some(m) = dec::<staking::MsgDelegate>(a, "/cosmos.staking.v1beta1.MsgDelegate") else { return }; (m.delegator_address, m.validator_address, m.amount) } else { let Some(m) = dec::<staking::MsgUndelegate>(a, "/cosmos.staking.v1beta1.MsgUndelegate") else { return }; (m.delegator_address, m.validator_address, m.amount) }; check(seq(&d, &me), "delegated by the account"); check(seq(&w, &v) & ocoin_eq(&c, &x), "delegation fields") })) }
        12 => { let (s, d, c) = (g.s(7), g.s(6), g.coin()); (StakingMsg::Redelegate { src_validator: s.clone(), dst_validator: d.clone(), amount: c.clone() }.into(), Box::new(move |a| { let Some(m) = dec::<staking::MsgBeginRedelegate>(a, "/cosmos.staking.v1beta1.MsgBeginRedelegate") else { return }; check(seq(&m.delegator_address, &me), "delegated by the account"); check(seq(&m.validator_src_address, &s) & seq(&m.validator_dst_address, &d) & ocoin_eq(&c, &m.amount), "redelegation fields") })) }
        13 => { let v = g.s(7); (DistributionMsg::WithdrawDelegatorReward { validator: v.clone() }.into(), Box::new(move |a| { let Some(m) = dec::<dist::MsgWithdrawDelegatorReward>(a, "/cosmos.distribution.v1beta1.MsgWithdrawDelegatorReward") else { return }; check(seq(&m.delegator_address, &me), "withdrawn by the account"); check(seq(&m.validator_address, &v), "reward fields") })) }
        14 => { let v = g.s(7); (DistributionMsg::SetWithdrawAddress { address: v.clone() }.into(), Box::new(move |a| { let Some(m) = dec::<dist::MsgSetWithdrawAddress>(a, "/cosmos.distribution.v1beta1.MsgSetWithdrawAddress") else { return }; check(seq(&m.delegator_address, &me), "set by the account"); check(seq(&m.withdraw_address, &v), "withdraw address") })) }
        15 => { let c = g.coins(); (DistributionMsg::FundCommunityPool { amount: c.clone() }.into(), Box::new(move |a| { let Some(m) = dec::<dist::MsgFundCommunityPool>(a, "/cosmos.distribution.v1beta1.MsgFundCommunityPool") else { return }; check(seq(&m.depositor, &me), "paid by the account"); check(coins_eq(&c, &m.amount), "community pool coins") })) }
        _ => { let (u, b) = (if k == 16 { g.s(8) } else { "/cosmos.bank.v1beta1.MsgSend".to_string() }, g.b(6)); #[allow(deprecated)] (CosmosMsg::Stargate { type_url: u.clone(), value: Binary::new(b.clone()) }, Box::new(move |a| { check(seq(&a.type_url, &u), "raw message type unchanged"); check(eq(&a.value, &b), "raw message bytes unchanged") })) }
    }
}
/// C13: conversion of each kind, full value ranges.
pub fn c13_convert() {
    let k = choose(MSGS);
    let g = Gen { packet: false, v: choose(4), full: if k == 1 { choose(3) } else { 0 } };
    let me = sized(&[6, 43, 0]);
    let (m, c) = msg(k, g, &me);
    match crate::api::convert(m, &me) { Some(Some(a)) => { cover("converted"); note("any", &a.value); c(&a) } _ => check(F, "a supported message converts") }
}
/// C13: one field empty (or zero, or left out) and the others not.
pub fn c13_holes() {
    let k = choose(MSGS);
    let me = string(5);
    set_hole(1 + choose(12));
    let (m, c) = msg(k, Gen { packet: false, v: 4, full: 9 }, &me);
    // beyond the last field: nothing is empty, and all texts have the same length (so any two may coincide)
    if hole() { return }
    set_hole(0);
    match crate::api::convert(m, &me) { Some(Some(a)) => { cover("converted"); c(&a) } _ => check(F, "a supported message converts") }
}
/// C14: one field of a query empty and the others not; all texts of the same length.
pub fn c14_holes() {
    let k = choose(QUERIES);
    set_hole(choose(6));
    let (q, raw, c) = query(k, Gen { packet: false, v: 4, full: 9 });
    set_hole(0);
    let Some((p, d, s)) = crate::api::convert_query(q) else { check(F, "a supported query converts"); return };
    cover("converted");
    check(s == raw, "marked raw exactly if raw");
    c(&p, &d)
}
/// C13: UTF-8 texts and arbitrary bytes survive.
pub fn c13_unicode() {
    let t = ["é€😀", "a\"b\\c", "\u{0}\n\u{7f}"][choose(3)].to_string();
    let (m, k) = match choose(3) {
        0 => (BankMsg::Send { to_address: t.clone(), amount: vec![Coin::new(5u128, t.clone())] }.into(), 0),
        1 => (IbcMsg::Transfer { channel_id: t.clone(), to_address: t.clone(), amount: Coin::new(5u128, t.clone()), timeout: IbcTimeout::with_timestamp(Timestamp::from_nanos(1)), memo: Some(t.clone()) }.into(), 1),
        _ => (CosmosMsg::<Empty>::from(WasmMsg::Instantiate { admin: Some(t.clone()), code_id: 1, msg: Binary::from(t.as_bytes()), funds: vec![], label: t.clone() }), 2),
    };
    let Some(Some(a)) = crate::api::convert(m, &t) else { check(F, "converts"); return };
    cover("converted");
    match k {
        0 => { let m = bank::MsgSend::decode(a.value.as_slice()).unwrap(); check(m.from_address == t && m.to_address == t && m.amount[0].denom == t, "texts unchanged") }
        1 => { let m = <ibc_proto::ibc::apps::transfer::v1::MsgTransfer as prost::Message>::decode(a.value.as_slice()).unwrap(); check(m.sender == t && m.receiver == t && m.source_channel == t && m.memo == t && m.token.unwrap().denom == t, "texts unchanged") }
        _ => { let m = wasm::MsgInstantiateContract::decode(a.value.as_slice()).unwrap(); check(m.sender == t && m.admin == t && m.label == t && m.msg == t.as_bytes(), "texts unchanged") }
    }
}
/// World with an open channel whose account address suits packet contents.
pub fn sender_world() -> World { let mut w = World::opened(false, 1).freeing(&[K_CHAN, K_OPTS]); w.st.ica_info.as_mut().unwrap().ica_address = string_of(5, &TWO); w }
/// The packet sent by an accepted request: (channel, packet, messages, timeout, reply).
pub fn sent(r: &Response) -> Option<(String, MPacket, Vec<Any>, IbcTimeout, ReplyOn)> {
    let m = match sole(&r.messages) { Some(m) => m, None => { check(F, "exactly one packet"); return None } };
    let CosmosMsg::Ibc(IbcMsg::SendPacket { channel_id, data, timeout }) = &m.msg else { check(F, "the message is a packet"); return None };
    note("packet", data.as_slice());
    let Ok(p) = from_json::<MPacket>(data.as_slice()) else { check(F, "packet data is well-formed"); return None };
    let Ok(tx) = CosmosTx::decode(p.data.as_slice()) else { check(F, "transaction is well-formed"); return None };
    Some((channel_id.clone(), p, tx.messages, timeout.clone(), m.reply_on.clone()))
}
pub fn send(w: &mut World, messages: Vec<CosmosMsg>, queries: Vec<QueryRequest>, memo: Option<String>, t: Option<u64>, now: u64) -> Option<Response> {
    let own = w.owner.clone();
    outcome(|| contract::execute(deps!(w.s), env_at(now, any_u64(), CONTRACT), info(&own), ExecuteMsg::SendCosmosMsgs { messages, queries, packet_memo: memo, timeout_seconds: t }))
}
/// C13: the same through a whole send request, signed by the recorded account.
pub fn c13_send() {
    let k = choose(MSGS);
    let mut w = sender_world();
    w.save();
    let me = w.st.ica_info.as_ref().unwrap().ica_address.clone();
    let (m, c) = msg(k, Gen { packet: true, v: choose(2), full: 0 }, &me);
    let Some(r) = send(&mut w, vec![m], vec![], None, None, 5) else { check(F, "a supported message is sent"); return };
    let Some((_, _, ms, _, _)) = sent(&r) else { return };
    check(ms.len() == 1, "one message");
    if let Some(a) = ms.first() { cover("sent"); c(a) }
}
/// C12: address, type, memo, reply, message order.
pub fn c12_packet() {
    let ax = pairs(3);
    let st = ax.pick(0, 8);
    let mut w = crate::h_hs::world_by(1 + st % 2, st & 2 > 0, st / 4).freeing(&[K_CHAN, K_OPTS]);
    let i = w.st.ica_info.as_mut().unwrap();
    i.ica_address = string_of(5, &TWO);
    i.channel_id = string(9); // the channel of the account record decides
    let me = i.ica_address.clone();
    let chan = i.channel_id.clone();
    let before = w.save();
    let n = choose(tier(4, 5));
    let nq = choose(3);
    let memo = match ax.pick(1, 4) { 0 => None, k => Some(string([5, 0, 40][k - 1])) };
    let first = choose(MSGS);
    if n != 1 && first != 0 { return }
    let (ms, cs): (Vec<CosmosMsg>, Vec<Check>) = (0..n).map(|j| msg(if j == 0 && n < 3 { first } else { [16, 0, 13][j % 3] }, Gen { packet: true, v: 0, full: 0 }, &me)).unzip();
    let qs: Vec<QueryRequest> = (0..nq).map(|j| crate::h_relay::raw_query(["/p", "/qq"][j], b"zz")).collect();
    let t = if ax.pick(2, 2) == 0 { None } else { Some(bytes_of(1, &ANY)[0] as u64) };
    let Some(r) = send(&mut w, ms, qs, memo.clone(), t, 5) else { check(F, "the owner's request is accepted"); return };
    let Some((ch, p, got, to, rep)) = sent(&r) else { return };
    check(timeout_is(&to, t, 5), "block time plus the requested seconds, 600 by default");
    cover(if nq > 0 { "with queries" } else { "without queries" });
    check(seq(&ch, &chan), "sent on the account's channel");
    check(p.r#type == 1, "execute-transaction type");
    check(oseq(&p.memo, &memo), "memo as given");
    check(rep == if nq > 0 { ReplyOn::Success } else { ReplyOn::Never }, "reply on success exactly if there are queries");
    check(got.len() == n + (nq > 0) as usize, "exactly the requested messages");
    if got.len() != n + (nq > 0) as usize { return }
    for (a, c) in got.iter().zip(&cs) { c(a) }
    if nq > 0 { check(seq(&got[n].type_url, QUERY_URL), "the query message comes last") }
    check(same_except(&before, &w.s, &[K_QUERY]), "sending changes nothing but the query to be numbered");
}
/// The packet's timeout is `t` seconds (600 by default) after `now`, and it has no height.
pub fn timeout_is(to: &IbcTimeout, t: Option<u64>, now: u64) -> B { B::from(to.block().is_none()) & to.timestamp().map_or(F, |x| eq64(x.nanos(), t.unwrap_or(600) * 1_000_000_000 + now)) }
/// C12: memo with any characters.
pub fn c12_memo() {
    let mut w = sender_world();
    w.save();
    let memo = match choose(4) { 0 => string_of(1 + choose(tier(2, 3)), &ASCII), 1 => "é€😀".to_string() + &string(1), 2 => "{\"wasm\":{\"x\":\"\\\"\"}}".to_string(), _ => string(200) };
    let t = [None, Some(77)][choose(2)];
    let Some(r) = send(&mut w, vec![], vec![], Some(memo.clone()), t, 5) else { check(F, "accepted"); return };
    cover("sent");
    if let Some((_, p, ms, to, _)) = sent(&r) { check(timeout_is(&to, t, 5), "timeout"); check(p.memo.as_ref().map_or(F, |m| seq(m, &memo)), "memo unchanged"); check(ms.is_empty(), "no messages") }
}
/// C12: timeout arithmetic over all block times and timeouts.
pub fn c12_timeout() {
    let mut w = sender_world();
    w.save();
    let now = any_u64();
    let t = opt(|| if deep() { any_u64() } else { let b = bytes_of(1, &ANY)[0] as u64; match choose(7) { 0 => b, 1 => (1 << 32) - 128 + b, 2 => 18_446_744_073 - 128 + b, 3 => u64::MAX - 255 + b, 4 => b << 26, 5 => 500 + b, _ => b << 56 } });
    let r = send(&mut w, vec![], vec![], None, t, now);
    let secs = t.unwrap_or(600);
    let nanos = secs as u128 * 1_000_000_000 + now as u128;
    let fits = B::from(nanos <= u64::MAX as u128);
    match r {
        Some(r) => {
            cover("sent");
            check(fits, "a timeout that does not fit aborts");
            let Some((_, _, _, to, _)) = sent(&r) else { return };
            check(to.block().is_none(), "no height timeout");
            check(to.timestamp().map_or(F, |x| eq64(x.nanos(), nanos as u64)), "block time plus the requested seconds, 600 by default");
        }
        None => { cover("does not fit"); check(!fits, "a timeout that fits is accepted") }
    }
}

// ---------- C14 ----------
pub const QUERIES: usize = 14;
pub type QCheck = Box<dyn Fn(&str, &[u8])>;
fn qdec<M: Message + Default>(p: &str, d: &[u8], path: &str) -> Option<M> {
    check(seq(p, path), "query path");
    match M::decode(d) { Ok(m) => { check(m.encoded_len() == d.len(), "no other fields"); Some(m) } Err(_) => { check(F, "decodable request"); None } }
}
pub fn query(k: usize, g: Gen) -> (QueryRequest, bool, QCheck) {
    let (a, b) = (g.s(6), g.s(5));
    let (x, y) = (a.clone(), b.clone());
    let bin = g.b(4);
    let bn = bin.clone();
    let q: (QueryRequest, QCheck) = match k {
        0 => (BankQuery::Balance { address: a, denom: b }.into(), Box::new(move |p, d| if let Some(m) = qdec::<bank::QueryBalanceRequest>(p, d, "/cosmos.bank.v1beta1.Query/Balance") { check(seq(&m.address, &x) & seq(&m.denom, &y), "balance request") })),
        1 => (BankQuery::AllBalances { address: a }.into(), Box::new(move |p, d| if let Some(m) = qdec::<bank::QueryAllBalancesRequest>(p, d, "/cosmos.bank.v1beta1.Query/AllBalances") { check(seq(&m.address, &x) & B::from(m.pagination.is_none()), "all balances request") })),
        2 => (BankQuery::Supply { denom: b }.into(), Box::new(move |p, d| if let Some(m) = qdec::<bank::QuerySupplyOfRequest>(p, d, "/cosmos.bank.v1beta1.Query/SupplyOf") { check(seq(&m.denom, &y), "supply request") })),
        3 => (BankQuery::DenomMetadata { denom: b }.into(), Box::new(move |p, d| if let Some(m) = qdec::<bank::QueryDenomMetadataRequest>(p, d, "/cosmos.bank.v1beta1.Query/DenomMetadata") { check(seq(&m.denom, &y), "denom metadata request") })),
        4 => {
            let pg = if g.v == 1 { None } else { Some((opt(|| g.b(3)), if g.packet { 50 } else { any_u32() }, flip())) };
            let pq = pg.clone().map(|(k, l, r)| PageRequest { key: k.map(Binary::new), limit: l, reverse: r });
            (BankQuery::AllDenomMetadata { pagination: pq }.into(), Box::new(move |p, d| if let Some(m) = qdec::<bank::QueryDenomsMetadataRequest>(p, d, "/cosmos.bank.v1beta1.Query/DenomsMetadata") {
                let want = |m: &PPage| { let (k, l, r) = pg.clone().unwrap(); eq(&m.key, &k.unwrap_or_default()) & eq64(m.limit, l as u64) & B::from(m.reverse == r && m.offset == 0 && !m.count_total) };
                check(match (&m.pagination, &pg) { (None, None) => T, (Some(m), Some(_)) => want(m), _ => F }, "denoms metadata pagination")
            }))
        }
        5 => (WasmQuery::Raw { contract_addr: a, key: Binary::new(bin) }.into(), Box::new(move |p, d| if let Some(m) = qdec::<wasm::QueryRawContractStateRequest>(p, d, "/cosmwasm.wasm.v1.Query/RawContractState") { check(seq(&m.address, &x) & eq(&m.query_data, &bn), "raw request") })),
        6 => (WasmQuery::Smart { contract_addr: a, msg: Binary::new(bin) }.into(), Box::new(move |p, d| if let Some(m) = qdec::<wasm::QuerySmartContractStateRequest>(p, d, "/cosmwasm.wasm.v1.Query/SmartContractState") { check(seq(&m.address, &x) & eq(&m.query_data, &bn), "smart request") })),
        7 => (WasmQuery::ContractInfo { contract_addr: a }.into(), Box::new(move |p, d| if let Some(m) = qdec::<wasm::QueryContractInfoRequest>(p, d, "/cosmwasm.wasm.v1.Query/ContractInfo") { check(seq(&m.address, &x), "contract info request") })),
        8 => (StakingQuery::Validator { address: a }.into(), Box::new(move |p, d| if let Some(m) = qdec::<staking::QueryValidatorRequest>(p, d, "/cosmos.staking.v1beta1.Query/Validator") { check(seq(&m.validator_addr, &x), "validator request") })),
        9 => (StakingQuery::AllValidators {}.into(), Box::new(move |p, d| if let Some(m) = qdec::<staking::QueryValidatorsRequest>(p, d, "/cosmos.staking.v1beta1.Query/Validators") { check(m.status.is_empty() && m.pagination.is_none(), "validators request") })),
        10 => (StakingQuery::Delegation { delegator: a, validator: b }.into(), Box::new(move |p, d| if let Some(m) = qdec::<staking::QueryDelegationRequest>(p, d, "/cosmos.staking.v1beta1.Query/Delegation") { check(seq(&m.delegator_addr, &x) & seq(&m.validator_addr, &y), "delegation request") })),
        11 => (StakingQuery::AllDelegations { delegator: a }.into(), Box::new(move |p, d| if let Some(m) = qdec::<staking::QueryDelegatorDelegationsRequest>(p, d, "/cosmos.staking.v1beta1.Query/DelegatorDelegations") { check(seq(&m.delegator_addr, &x) & B::from(m.pagination.is_none()), "delegations request") })),
        12 => (StakingQuery::BondedDenom {}.into(), Box::new(move |p, d| { check(seq(p, "/cosmos.staking.v1beta1.Query/Params"), "query path"); check(d.is_empty(), "params request") })),
        _ => (crate::h_relay::raw_query(&a, &bin), Box::new(move |p, d| { check(seq(p, &x), "raw path unchanged"); check(eq(d, &bn), "raw request unchanged") })),
    };
    (q.0, k == 13, q.1)
}
/// C14: conversion of each kind, full value ranges.
pub fn c14_convert() {
    let k = choose(QUERIES);
    let (q, raw, c) = query(k, Gen { packet: false, v: choose(3), full: 0 });
    let Some((p, d, s)) = crate::api::convert_query(q) else { check(F, "a supported query converts"); return };
    cover("converted");
    note("request", &d);
    check(s == raw, "marked raw exactly if raw");
    c(&p, &d)
}
/// C13: raw messages are passed on whatever their type, also if it looks like a typed message.
pub fn c13_raw() {
    let u = match choose(4) { 0 => sized(&[0, 1, 23, 28, 29, 31, 33, 36, 37, 40, 42, 43, 44, 45, 46, 53, 54]), 1 => ["/", &string(27)].concat(), 2 => RAW_URLS[choose(RAW_URLS.len())].to_string(), _ => [RAW_URLS[choose(RAW_URLS.len())], &string(1)].concat() };
    let b = bytes_of([0, 1, 4][choose(3)], &ANY);
    let me = string(6);
    #[allow(deprecated)]
    let Some(Some(a)) = crate::api::convert(CosmosMsg::Stargate { type_url: u.clone(), value: Binary::new(b.clone()) }, &me) else { check(F, "a raw message converts"); return };
    cover("converted");
    check(seq(&a.type_url, &u), "raw message type unchanged");
    check(eq(&a.value, &b), "raw message bytes unchanged");
}
const RAW_URLS: [&str; 8] = ["/cosmos.bank.v1beta1.MsgSend", "/ibc.applications.transfer.v1.MsgTransfer", "/cosmwasm.wasm.v1.MsgExecuteContract", "/cosmos.staking.v1beta1.MsgDelegate", "/cosmos.authz.v1beta1.MsgExec", "/ibc.applications.interchain_accounts.host.v1.MsgModuleQuerySafe", "/cosmos.gov.v1.MsgVoteWeighted", "/ibc.core.channel.v1.MsgChannelOpenInit"];
/// C14: raw queries are passed on and remembered as raw whatever their path, also if it is the path of a typed query.
pub fn c14_raw() {
    // as part of a request each symbolic byte is printed as a number, so there only the last one is symbolic
    let whole = flip();
    let p = match choose(3) { 0 if !whole => sized(&[0, 1, 34, 36, 37, 38, 40, 41, 42, 50]), 0 => return, 1 => crate::h_resp::KINDS[choose(13)].to_string(), _ => [crate::h_resp::KINDS[choose(13)], &string_of(1, &TWO)].concat() };
    let b = bytes_of([0, 1, 4][choose(3)], if whole { &TWO } else { &ANY });
    let q = crate::h_relay::raw_query(&p, &b);
    if !whole {
        let Some((x, d, s)) = crate::api::convert_query(q) else { check(F, "a raw query converts"); return };
        cover("converted");
        check(seq(&x, &p) & eq(&d, &b), "raw request unchanged");
        check(s, "marked raw");
        return;
    }
    let mut w = sender_world();
    w.save();
    let Some(r) = send(&mut w, vec![], vec![q], None, None, 5) else { check(F, "accepted"); return };
    let Some((_, _, got, _, _)) = sent(&r) else { return };
    cover("sent");
    let Some(Ok(m)) = got.last().map(|a| <PQuery as prost::Message>::decode(a.value.as_slice())) else { check(F, "decodable query message"); return };
    check(B::from(m.requests.len() == 1) & m.requests.first().map_or(F, |q| seq(&q.path, &p) & eq(&q.data, &b)), "raw request unchanged");
    let rem: Option<Vec<(String, bool)>> = get(&w.s, K_QUERY);
    check(rem.map_or(F, |v| B::from(v.len() == 1 && v[0].1) & seq(&v[0].0, &p)), "remembered as raw");
}
/// C14: whole request: one query message, last, signed by the account, queries in order; what is remembered matches.
pub fn c14_send() {
    let ax = pairs(6);
    let k = ax.pick(0, QUERIES);
    let n = [2, 1, 3, 4][ax.pick(1, tier(3, 4))];
    let nm = ax.pick(2, tier(5, 7));
    let memo = match ax.pick(3, 3) { 0 => None, k => Some(string([0, 5][k - 1])) };
    // the last query is the first one again, or of the same kind
    let twin = ax.pick(4, 3);
    let mut w = crate::h_hs::world_by(1 + ax.pick(5, 7), flip(), 0).freeing(&[K_CHAN, K_OPTS]);
    w.st.ica_info.as_mut().unwrap().ica_address = string_of(5, &TWO);
    w.save();
    let me = w.st.ica_info.as_ref().unwrap().ica_address.clone();
    let g = Gen { packet: true, v: 0, full: 0 };
    let mut qs: Vec<QueryRequest> = vec![]; let mut cs = vec![]; let mut raws = vec![];
    for j in 0..n {
        if twin == 1 && j > 0 && j + 1 == n { qs.push(qs[0].clone()); raws.push(raws[0]); continue }
        let (q, raw, c) = query(if j == 0 || (twin == 2 && j + 1 == n) { k } else { (k + 5 * j) % QUERIES }, g); qs.push(q); cs.push(c); raws.push(raw)
    }
    let (ms, ck): (Vec<CosmosMsg>, Vec<Check>) = (0..nm).map(|j| msg([0, 13, 16][j % 3], g, &me)).unzip();
    let Some(r) = send(&mut w, ms, qs, memo, None, 5) else { check(F, "accepted"); return };
    let Some((_, _, got, _, _)) = sent(&r) else { return };
    cover("sent");
    check(got.len() == nm + 1, "messages plus one query message");
    if got.len() != nm + 1 { return }
    for (a, c) in got.iter().zip(&ck) { c(a) }
    let a = &got[nm];
    check(seq(&a.type_url, QUERY_URL), "query message type");
    let Ok(m) = <PQuery as prost::Message>::decode(a.value.as_slice()) else { check(F, "decodable query message"); return };
    check(prost::Message::encoded_len(&m) == a.value.len(), "no other fields");
    check(seq(&m.signer, &me), "signed by the account");
    check(m.requests.len() == n, "all queries");
    if m.requests.len() != n { return }
    for (j, q) in m.requests.iter().enumerate() { cs.get(j).unwrap_or(&cs[0])(&q.path, &q.data) }
    let rem: Option<Vec<(String, bool)>> = get(&w.s, K_QUERY);
    check(rem.map_or(F, |v| if v.len() != n { F } else { let mut r = T; for (i, (p, s)) in v.iter().enumerate() { r = r & seq(p, &m.requests[i].path) & B::from(*s == raws[i]) } r }), "the queries are remembered in order until the packet is numbered");
}

// ---------- C15 ----------
pub fn bad_msg(k: usize) -> CosmosMsg {
    match k {
        0 => BankMsg::Burn { amount: vec![Coin::new(1u128, "atom")] }.into(),
        1 => IbcMsg::SendPacket { channel_id: string(9), data: Binary::default(), timeout: IbcTimeout::with_timestamp(Timestamp::from_nanos(1)) }.into(),
        2 => IbcMsg::CloseChannel { channel_id: string(9) }.into(),
        _ => CosmosMsg::Custom(Empty {}),
    }
}
pub fn bad_query(k: usize) -> QueryRequest {
    match k {
        0 => WasmQuery::CodeInfo { code_id: any_u64() }.into(),
        1 => IbcQuery::PortId {}.into(),
        2 => IbcQuery::ListChannels { port_id: None }.into(),
        3 => IbcQuery::Channel { channel_id: string(9), port_id: None }.into(),
        4 => DistributionQuery::DelegatorWithdrawAddress { delegator_address: string(5) }.into(),
        5 => DistributionQuery::DelegationRewards { delegator_address: string(5), validator_address: string(5) }.into(),
        6 => DistributionQuery::DelegationTotalRewards { delegator_address: string(5) }.into(),
        7 => DistributionQuery::DelegatorValidators { delegator_address: string(5) }.into(),
        _ => QueryRequest::Custom(Empty {}),
    }
}
/// C15: one unsupported item anywhere makes the whole request fail.
pub fn c15_unsupported() {
    let mut w = sender_world();
    w.save();
    let me = w.st.ica_info.as_ref().unwrap().ica_address.clone();
    let g = Gen { packet: true, v: 0, full: 0 };
    let (nm, nq) = (choose(3), choose(3));
    let mut ms: Vec<CosmosMsg> = (0..nm).map(|j| msg([13, 16][j], g, &me).0).collect();
    let mut qs: Vec<QueryRequest> = (0..nq).map(|j| query([2, 13][j], g).0).collect();
    let k = choose(13);
    if k < 4 { let at = choose(nm + 1); ms.insert(at, bad_msg(k)) } else { let at = choose(nq + 1); qs.insert(at, bad_query(k - 4)) }
    let r = send(&mut w, ms, qs, opt(|| string(3)), None, 5);
    cover(if k < 4 { "bad message" } else { "bad query" });
    check(r.is_none(), "the whole request fails");
}
/// C15: no account, or an account that does not use protobuf.
pub fn c15_state() {
    let mut w = sender_world();
    let k = choose(5);
    match k { 0 => { w = World::fresh() } 1 => { w.st.ica_info = None } 2 => w.st.ica_info.as_mut().unwrap().encoding = PJSON.into(), 3 => w.st.ica_info.as_mut().unwrap().encoding = string(5), _ => {} }
    w.save();
    if k == 1 && flip() { w.s.put(K_STATE, b"{}") }
    let kind = choose(MSGS + 1);
    let ms = if kind == MSGS { vec![] } else { vec![msg(kind, Gen { packet: true, v: 0, full: 0 }, "me").0] };
    let q = if flip() { vec![query(2, Gen { packet: true, v: 0, full: 0 }).0] } else { vec![] };
    let enc = w.st.ica_info.as_ref().map_or(F, |i| seq(&i.encoding, PROTO));
    let r = send(&mut w, ms, q, None, None, 5);
    match r { Some(_) => { cover("sent"); check(enc, "only a protobuf account sends") } None => { cover("refused"); check(!enc, "a protobuf account sends") } }
}
/// C15: nothing is dropped: every subset of items present in the request is present in the packet.
pub fn c15_complete() {
    let mut w = sender_world();
    w.save();
    let me = w.st.ica_info.as_ref().unwrap().ica_address.clone();
    let g = Gen { packet: true, v: 0, full: 0 };
    let (nm, nq) = (choose(tier(4, 6)), choose(tier(4, 6)));
    let (a, b) = (choose(MSGS), choose(QUERIES));
    if (a != 0 && nm != 1) || (b != 0 && nq != 1) { return }
    let ms: Vec<CosmosMsg> = (0..nm).map(|j| msg((a + 7 * j) % MSGS, g, &me).0).collect();
    let qs: Vec<QueryRequest> = (0..nq).map(|j| query((b + 3 * j) % QUERIES, g).0).collect();
    let Some(r) = send(&mut w, ms, qs, None, None, 5) else { check(F, "accepted"); return };
    let Some((_, _, got, _, _)) = sent(&r) else { return };
    cover("sent");
    check(got.len() == nm + (nq > 0) as usize, "no message dropped");
    if nq > 0 && got.len() == nm + 1 { check(<PQuery as prost::Message>::decode(got[nm].value.as_slice()).map_or(false, |m| m.requests.len() == nq), "no query dropped") }
}
crate::harnesses!(REG: c12_packet c12_memo c12_timeout c13_convert c13_holes c13_raw c13_unicode c13_send c14_convert c14_holes c14_raw c14_send c15_unsupported c15_state c15_complete);
