//! C25: histories. The contract runs against a simulated chain that follows the IBC channel rules.
use crate::env::*;
use crate::h_hs::{meta_of, MMeta};
use crate::h_relay::*;
use crate::step::*;
use crate::vp::*;
use cosmos_sdk_proto::ibc::core::channel::v1::MsgChannelOpenInit;
use cosmos_sdk_proto::traits::Message;
use cosmwasm_std::*;
use cw_ica_controller::contract;
use cw_ica_controller::ibc::handshake::*;
use cw_ica_controller::types::msg::*;

#[derive(Clone, Copy, PartialEq)]
enum Ph { Init, Open, Closed }
#[derive(Clone)]
struct Ch { c: MChan, ph: Ph, acct: String, next: u64 }
#[derive(Clone)]
struct Pk { ch: usize, seq: u64, q: bool }
struct Sim { fresh: bool, conn: String, s: Store, owner: String, chans: Vec<Ch>, cur: Option<usize>, pk: Vec<Pk> }
/// Chain-side effect of the contract's messages; false: the transaction fails and is rolled back.
impl Sim {
    fn new(ord: usize, cb: bool) -> Option<Sim> {
        let owner = cb_addr();
        let mut m = Sim { fresh: true, conn: String::new(), s: Store::default(), owner: owner.clone(), chans: vec![], cur: None, pk: vec![] };
        let o = MOpts { connection_id: string(7), counterparty_connection_id: string(7), counterparty_port_id: None, channel_ordering: [None, Some(ORDERS[0].into()), Some(ORDERS[1].into())][ord].clone() };
        m.conn = o.connection_id.clone();
        let r = outcome(|| contract::instantiate(deps!(m.s), env0(), info0(&owner), InstantiateMsg { owner: None, channel_open_init_options: opts_api(&o), send_callbacks_to: if cb { Some(cb_addr()) } else { None } }))?;
        if !m.dispatch(&r.messages) { return None }
        Some(m)
    }
    fn rollback<X>(&mut self, f: impl FnOnce(&mut Sim) -> Option<X>) -> Option<X> {
        let keep = (self.s.clone(), self.chans.clone(), self.cur, self.pk.clone());
        let r = f(self);
        if r.is_none() { (self.s, self.chans, self.cur, self.pk) = keep }
        r
    }
    fn dispatch(&mut self, msgs: &[SubMsg]) -> bool {
        for m in msgs {
            match &m.msg {
                #[allow(deprecated)]
                CosmosMsg::Stargate { type_url, value } => {
                    if type_url != "/ibc.core.channel.v1.MsgChannelOpenInit" { return false }
                    let Some(c) = MsgChannelOpenInit::decode(value.as_slice()).ok().and_then(|p| p.channel.map(|c| (p.port_id, c))) else { return false };
                    let (port, c) = c;
                    if port != ["wasm.", CONTRACT].concat() || c.connection_hops.len() != 1 { return false }
                    if !self.open_init(c.connection_hops[0].clone(), if c.ordering == 2 { 0 } else { 1 }, c.counterparty.map_or(String::new(), |x| x.port_id), c.version) { return false }
                }
                CosmosMsg::Ibc(IbcMsg::CloseChannel { channel_id }) => {
                    let Some(i) = self.chans.iter().position(|c| c.c.endpoint.channel_id == *channel_id && c.ph == Ph::Open) else { return false };
                    let c = ibc_channel(&self.chans[i].c);
                    if outcome(|| ibc_channel_close(deps!(self.s), env0(), IbcChannelCloseMsg::new_init(c))).is_none() { return false }
                    self.chans[i].ph = Ph::Closed;
                }
                CosmosMsg::Ibc(IbcMsg::SendPacket { channel_id, .. }) => {
                    let Some(i) = self.chans.iter().position(|c| c.c.endpoint.channel_id == *channel_id && c.ph == Ph::Open) else { return false };
                    check(self.cur == Some(i), "packets go to the channel acknowledged last");
                    let sq = self.chans[i].next;
                    self.chans[i].next += 1;
                    let q = m.reply_on == ReplyOn::Success;
                    if q { let mut r = reply_msg(m.id, sq); r.payload = m.payload.clone(); if outcome(|| contract::reply(deps!(self.s), env0(), r)).is_none() { return false } }
                    self.pk.push(Pk { ch: i, seq: sq, q });
                }
                _ => return false,
            }
        }
        true
    }
    fn open_init(&mut self, conn: String, ord: usize, cport: String, version: String) -> bool {
        let n = self.chans.len();
        let mut c = MChan { endpoint: MEnd { port_id: ["wasm.", CONTRACT].concat(), channel_id: format!("channel-{n}") }, counterparty_endpoint: MEnd { port_id: cport, channel_id: String::new() }, order: ORDERS[ord].into(), version: version.clone(), connection_id: conn };
        let ic = ibc_channel(&c);
        let Some(r) = outcome(|| ibc_channel_open(deps!(self.s), env0(), IbcChannelOpenMsg::new_init(ic))) else { return false };
        if let Some(r) = r { c.version = r.version }
        self.chans.push(Ch { c, ph: Ph::Init, acct: String::new(), next: 1 });
        true
    }
    fn exec(&mut self, m: ExecuteMsg) -> bool {
        let own = self.owner.clone();
        self.rollback(|z| { let r = outcome(|| contract::execute(deps!(z.s), env0(), info0(&own), m))?; if z.dispatch(&r.messages) { Some(()) } else { None } }).is_some()
    }
    fn create_with(&mut self) -> bool {
        let o = MOpts { connection_id: string(7), counterparty_connection_id: string(7), counterparty_port_id: None, channel_ordering: Some(if self.chans[0].c.order == ORDERS[0] { ORDERS[1] } else { ORDERS[0] }.into()) };
        let n = self.chans.len();
        let ok = self.exec(ExecuteMsg::CreateChannel { channel_open_init_options: Some(opts_api(&o)) });
        if ok { let c = &self.chans[n].c; check(seq(&c.connection_id, &o.connection_id) & seq(&c.order, o.channel_ordering.as_ref().unwrap()), "the new channel uses the given options"); self.conn = o.connection_id }
        ok
    }
    /// The relayer completes the handshake of channel `i`; the host reports account `acct`.
    fn ack_open(&mut self, i: usize, acct: &str) -> bool {
        let mut c = self.chans[i].c.clone();
        c.counterparty_endpoint.channel_id = format!("channel-{}", 70 + i);
        let Some(m) = meta_of(&c.version) else { return false };
        let v = MMeta { address: acct.into(), ..m }.text();
        c.version = v.clone();
        let ic = ibc_channel(&c);
        let r = self.rollback(|z| outcome(|| ibc_channel_connect(deps!(z.s), env0(), IbcChannelConnectMsg::new_ack(ic, v))));
        if r.is_some() { self.chans[i].c = c; self.chans[i].ph = Ph::Open; self.chans[i].acct = acct.into(); self.cur = Some(i) }
        r.is_some()
    }
    fn open(&self) -> Option<usize> { self.cur.filter(|i| self.chans[*i].ph == Ph::Open) }
    fn send(&mut self, q: bool) -> bool { let qs = if q { vec![raw_query("/q", b"d")] } else { vec![] }; self.exec(ExecuteMsg::SendCosmosMsgs { messages: vec![], queries: qs, packet_memo: None, timeout_seconds: None }) }
    fn pkt(&self, p: &Pk) -> IbcPacket { let c = &self.chans[p.ch].c; IbcPacket::new(Binary::new(vec![1]), IbcEndpoint { port_id: c.endpoint.port_id.clone(), channel_id: c.endpoint.channel_id.clone() }, IbcEndpoint { port_id: c.counterparty_endpoint.port_id.clone(), channel_id: c.counterparty_endpoint.channel_id.clone() }, p.seq, IbcTimeout::with_timestamp(Timestamp::from_nanos(5))) }
    /// The contract's view equals the chain's.
    fn inv(&self) {
        let st: Option<MState> = get(&self.s, K_STATE);
        let ch: Option<MChanState> = get(&self.s, K_CHAN);
        match self.cur {
            None => { check(st.map_or(false, |s| s.ica_info.is_none()), "no account before the first handshake completes"); check(ch.map_or(true, |c| c.channel_status != "STATE_OPEN"), "no open channel before the first handshake completes") }
            Some(i) => {
                let c = &self.chans[i];
                check(st.and_then(|s| s.ica_info).map_or(F, |x| seq(&x.ica_address, &c.acct) & seq(&x.channel_id, &c.c.endpoint.channel_id)), "account of the channel acknowledged last");
                let Some(x) = ch else { check(F, "channel recorded"); return };
                check(end_eq(&x.channel.endpoint, &c.c.endpoint) & end_eq(&x.channel.counterparty_endpoint, &c.c.counterparty_endpoint) & seq(&x.channel.order, &c.c.order) & seq(&x.channel.connection_id, &c.c.connection_id), "channel acknowledged last");
                check((x.channel_status == "STATE_OPEN") == (c.ph == Ph::Open), "open exactly while open on the chain");
            }
        }
        let want = self.pk.iter().filter(|p| p.q).count();
        check(pending_count(&self.s) == want, "records of outstanding query packets only");
        for p in self.pk.iter().filter(|p| p.q) { check(has_pending(&self.s, &self.chans[p.ch].c.endpoint.channel_id, p.seq), "every outstanding query packet is recorded") }
    }
    /// Whether channel `i`'s packets can be acknowledged on the chain.
    fn step(&mut self, acct: &str) -> bool {
        // what the chain allows now
        let mut acts: Vec<(u8, usize)> = vec![(0, 0), (1, 0), (2, 0), (3, 0)];
        for (i, c) in self.chans.iter().enumerate() { match c.ph { Ph::Init => acts.push((4, i)), Ph::Open => { acts.push((5, i)); acts.push((6, i)) } Ph::Closed => {} } }
        if self.chans.len() > 3 { acts.remove(0); } else if self.fresh { acts.push((10, 0)) }
        if self.pk.len() >= 2 { acts.retain(|a| a.0 != 2) }
        for (i, p) in self.pk.iter().enumerate() { if self.chans[p.ch].ph == Ph::Open { acts.push((7, i)); acts.push((8, i)) } acts.push((9, i)) }
        let (a, i) = acts[choose(acts.len())];
        let open = self.open();
        match a {
            0 => { let n = self.chans.len(); let ok = self.exec(ExecuteMsg::CreateChannel { channel_open_init_options: None }); if ok { check(seq(&self.chans[n].c.connection_id, &self.conn), "a request without options uses the latest ones") } if open.is_none() { check(ok, "without an open channel the owner can ask for a new one") } }
            10 => { // with other options: another connection and the other ordering
                self.fresh = false;
                let ok = self.create_with(); if open.is_none() { check(ok, "without an open channel the owner can ask for a new one with other options") }
            }
            1 => { let ok = self.exec(ExecuteMsg::CloseChannel {}); check(ok == open.is_some(), "the owner can close exactly an open channel") }
            2 => { let q = flip(); let ok = self.send(q); check(ok == open.is_some(), "packets go out exactly while the channel is open") }
            3 => { // a stranger opens a channel on the contract's port
                let c = self.chans[0].c.clone();
                let ok = self.rollback(|z| if z.open_init(c.connection_id, choose(2), "icahost".into(), String::new()) { Some(()) } else { None }).is_some();
                check(!ok, "strangers cannot open channels");
            }
            4 => { let ok = self.ack_open(i, acct); check(ok == open.is_none(), "a handshake completes exactly if no other channel is open"); if ok { cover("opened") } }
            5 => { // a stranger closes the channel
                let c = ibc_channel(&self.chans[i].c);
                check(self.rollback(|z| outcome(|| ibc_channel_close(deps!(z.s), env0(), IbcChannelCloseMsg::new_init(c)))).is_none(), "strangers cannot close the channel");
            }
            6 => { // the counterparty closes
                let c = ibc_channel(&self.chans[i].c);
                let ok = self.rollback(|z| outcome(|| ibc_channel_close(deps!(z.s), env0(), IbcChannelCloseMsg::new_confirm(c)))).is_some();
                check(ok, "the counterparty can close");
                if ok { self.chans[i].ph = Ph::Closed; cover("closed by the counterparty") }
            }
            7 | 8 => {
                let p = self.pk[i].clone();
                let ack = if a == 8 { ack_err("no") } else if p.q { ack_ok(&query_ack(3, &[vec![9]], 0)) } else { ack_ok(b"") };
                let k = self.pkt(&p);
                check(do_ack(&mut self.s, ack, k, "relayer1").is_some(), "acknowledgements are processed");
                self.pk.remove(i);
            }
            _ => {
                let p = self.pk[i].clone();
                let k = self.pkt(&p);
                check(do_timeout(&mut self.s, k, "relayer1").is_some(), "timeouts are processed");
                self.pk.remove(i);
                if self.chans[p.ch].c.order == ORDERS[0] && self.chans[p.ch].ph == Ph::Open { self.chans[p.ch].ph = Ph::Closed; cover("closed by a timeout") }
            }
        }
        true
    }
    /// Whatever happened, a new channel can be opened once the current one is closed, and it then carries packets.
    fn recover(&mut self) {
        if self.open().is_some() { check(self.exec(ExecuteMsg::CloseChannel {}), "the open channel can be closed"); self.inv() }
        check(self.exec(ExecuteMsg::CreateChannel { channel_open_init_options: None }), "a new channel can be requested");
        let i = self.chans.len() - 1;
        let acct = string_of(3, &crate::h_misc::LOWER);
        check(self.ack_open(i, &acct), "the new handshake completes");
        check(self.send(true), "the new channel carries packets");
        self.inv();
        // outstanding packets of any channel still resolve
        while let Some(p) = self.pk.first().cloned() {
            let k = self.pkt(&p);
                check(do_timeout(&mut self.s, k, "relayer1").is_some(), "outstanding packets resolve");
            self.pk.remove(0);
            if self.chans[p.ch].c.order == ORDERS[0] && self.chans[p.ch].ph == Ph::Open { self.chans[p.ch].ph = Ph::Closed }
            self.inv();
        }
        cover("recovered");
    }
}
fn history(steps: usize, opened: bool, ord: usize, cb: bool) {
    let Some(mut m) = Sim::new(ord, cb) else { check(F, "instantiates and asks for a channel"); return };
    m.inv();
    if opened { check(m.ack_open(0, &string_of(3, &crate::h_misc::LOWER)), "first handshake"); m.inv() }
    for _ in 0..steps { let a = string_of(3, &crate::h_misc::LOWER); if !m.step(&a) { return } m.inv() }
    m.recover();
}
/// Histories from instantiation.
pub fn c25_fresh() { let o = if deep() { choose(3) } else { [0, 2][choose(2)] }; history(tier(4, 5), false, o, o == 0) }
/// Histories from an open channel.
pub fn c25_opened() { let o = 1 + choose(2); history(tier(3, 4), true, o, o == 1) }
crate::harnesses!(REG: c25_fresh c25_opened);
