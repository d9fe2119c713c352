//! C05-C10: channel handshake and closing.
use crate::env::*;
use crate::step::*;
use crate::vp::*;
use cosmwasm_std::*;
use cw_ica_controller::contract;
use cw_ica_controller::ibc::handshake::*;
use cw_ica_controller::ibc::relay::*;
use cw_ica_controller::types::msg::*;
use serde::Deserialize;

/// Unknown fields are refused, as the host's parser does.
#[derive(Deserialize, Clone)]
#[serde(deny_unknown_fields)]
pub struct MMeta { pub version: String, pub controller_connection_id: String, pub host_connection_id: String, pub address: String, pub encoding: String, pub tx_type: String }
impl MMeta {
    pub fn text(&self) -> String { ["{\"version\":\"", &self.version, "\",\"controller_connection_id\":\"", &self.controller_connection_id, "\",\"host_connection_id\":\"", &self.host_connection_id, "\",\"address\":\"", &self.address, "\",\"encoding\":\"", &self.encoding, "\",\"tx_type\":\"", &self.tx_type, "\"}"].concat() }
    /// The same fields in another order, with spaces.
    pub fn text2(&self) -> String { ["{ \"tx_type\" : \"", &self.tx_type, "\" , \"encoding\":\"", &self.encoding, "\",\"address\": \"", &self.address, "\",\"host_connection_id\":\"", &self.host_connection_id, "\",\"controller_connection_id\":\"", &self.controller_connection_id, "\",\"version\":\"", &self.version, "\" }"].concat() }
    /// Accepted encodings are the two known ones; anything else does not parse.
    pub fn valid(&self, conn: &str) -> B {
        seq(&self.version, "ics27-1") & seq(&self.controller_connection_id, conn) & seq(&self.encoding, "proto3") & seq(&self.tx_type, "sdk_multi_msg") & addr_chars(&self.address)
    }
    pub fn same(&self, o: &MMeta) -> B {
        seq(&self.version, &o.version) & seq(&self.controller_connection_id, &o.controller_connection_id) & seq(&self.host_connection_id, &o.host_connection_id) & seq(&self.address, &o.address) & seq(&self.encoding, &o.encoding) & seq(&self.tx_type, &o.tx_type)
    }
}
/// Empty, or at most 128 alphanumeric characters (ASCII inputs).
pub fn addr_chars(a: &str) -> B {
    if a.len() > 128 { return F }
    let mut r = T;
    for b in a.bytes() { let d = (b.wrapping_sub(48) < 10) as u32 | (b.wrapping_sub(65) < 26) as u32 | (b.wrapping_sub(97) < 26) as u32; r = r & B(d) }
    r
}
/// Metadata in which at most one field has an unusual length; all texts symbolic.
pub fn any_meta(dev: usize, conn: usize) -> MMeta {
    let l = |k: [usize; 3], std: usize, other: [usize; 3]| string(k.iter().zip(other).find(|(k, _)| **k == dev).map_or(std, |(_, n)| n));
    MMeta {
        version: l([1, 11, 12], 7, [8, 6, 0]), controller_connection_id: l([2, 13, 14], conn, [conn + 1, conn.saturating_sub(1), 0]), host_connection_id: l([3, 15, 15], 6, [0, 20, 20]),
        address: match dev { 4 => String::new(), 5 => "a".repeat(127) + &string(1), 6 => "A".repeat(128) + &string(1), _ => string(3) },
        encoding: match dev { 7 => PJSON.into(), 8 => string(6), 9 => String::new(), _ => PROTO.into() },
        tx_type: l([10, 16, 17], 13, [12, 14, 0]),
    }
}
pub const DEVS: usize = 18;
pub fn meta_of(s: &str) -> Option<MMeta> { from_json(s.as_bytes()).ok() }

fn put_any_flag(w: &mut World) -> bool { match choose(3) { 0 => { w.open = Some(None); false } 1 => { w.open = Some(Some(false)); false } _ => { w.open = Some(Some(true)); true } } }

/// A world in one of the channel situations: 0 none, 1 open, 2.. any other status.
pub fn world_by(k: usize, cb: bool, ord: usize) -> World {
    if k == 0 { let mut w = World::fresh(); if cb { w.st.callback_address = Some(cb_addr()) } w } else { let mut w = World::opened(cb, ord); w.chan.as_mut().unwrap().channel_status = STATUSES[k - 1].into(); w }
}
fn open_init(s: &mut Store, ch: IbcChannel) -> Option<Option<Ibc3ChannelOpenResponse>> { outcome(|| ibc_channel_open(deps!(*s), any_env(), IbcChannelOpenMsg::new_init(ch))) }
fn open_ack(s: &mut Store, ch: IbcChannel, cv: &str) -> Option<IbcBasicResponse> { outcome(|| ibc_channel_connect(deps!(*s), any_env(), IbcChannelConnectMsg::new_ack(ch, cv))) }
fn resp_version(r: &Option<Ibc3ChannelOpenResponse>) -> Option<String> { r.as_ref().map(|x| x.version.clone()) }

/// C06: proposed version present.
pub fn c06_proposed() {
    let dev = choose(DEVS);
    let mut w = world_by([0, 2][choose(2)], false, 0).freeing(OPEN_INIT_FREE);
    w.open = Some(Some(true));
    let before = w.save();
    let mut ch = any_chan(choose(2));
    let portlen = if dev == 0 { choose(3) } else { 0 };
    ch.counterparty_endpoint.port_id = string([7, 8, 6][portlen]);
    let m = any_meta(dev, ch.connection_id.len());
    ch.version = if flip() { m.text() } else { m.text2() };
    let r = open_init(&mut w.s, ibc_channel(&ch));
    let ok = seq(&ch.counterparty_endpoint.port_id, "icahost") & m.valid(&ch.connection_id);
    match r {
        Some(r) => {
            cover("accepted");
            check(ok, "only a valid proposal is accepted");
            let v = resp_version(&r);
            check(v.as_ref().and_then(|v| meta_of(v)).map_or(F, |x| x.same(&m)), "the answer is the proposed metadata");
            check(!flag(&w.s, K_OPEN), "the permission is used up");
            check(same_except(&before, &w.s, &[K_OPEN]), "nothing is recorded");
            if let Some(v) = v { note("version", v.as_bytes()) }
        }
        None => { cover("refused"); check(!ok, "a valid proposal is accepted"); }
    }
}
/// C06: arbitrary short text instead of metadata is refused.
pub fn c06_garbage() {
    let n = choose(tier(4, 5)) + 1;
    let mut w = world_by([0, 2][choose(2)], false, 0).freeing(OPEN_INIT_FREE);
    w.open = Some(Some(true));
    w.save();
    let mut ch = any_chan(0);
    ch.counterparty_endpoint.port_id = "icahost".into();
    ch.connection_id = w.opts.as_ref().unwrap().connection_id.clone();
    ch.version = string_of(n, &ASCII);
    let r = open_init(&mut w.s, ibc_channel(&ch));
    cover("ran");
    check(r.is_none(), "text that is not metadata is refused");
}
/// C06: metadata with a field missing is refused.
pub fn c06_missing_field() {
    let k = choose(6);
    let mut w = World::fresh().freeing(OPEN_INIT_FREE);
    w.save();
    let mut ch = any_chan(0);
    ch.counterparty_endpoint.port_id = "icahost".into();
    let f = [["version", "ics27-1"], ["controller_connection_id", &ch.connection_id], ["host_connection_id", "connection-1"], ["address", ""], ["encoding", "proto3"], ["tx_type", "sdk_multi_msg"]];
    let mut t = String::from("{");
    for i in 0..6 { if i == k { continue } if t.len() > 1 { t.push(',') } t.push('"'); t.push_str(f[i][0]); t.push_str("\":\""); t.push_str(f[i][1]); t.push('"') }
    t.push('}');
    ch.version = t;
    let r = open_init(&mut w.s, ibc_channel(&ch));
    cover("ran");
    check(r.is_none(), "incomplete metadata is refused");
}
/// C06: empty version, metadata comes from the stored channel or from the remembered options.
pub fn c06_fallback() {
    let have = choose(3); // 0 no channel, 1 stored version is metadata, 2 stored version is something else
    let dev = if have == 1 { choose(DEVS) } else { 0 };
    let mut w = match (have, dev) { (0, _) => world_by(0, false, 0), (1, 0) => world_by(2 + choose(6), false, choose(2)), (2, 0) => { let k = choose(3); world_by([2, 5, 7][k], false, k % 2) } _ => world_by(2, false, 0) }.freeing(&[K_STATE, K_OWN]);
    w.open = Some(Some(true));
    w.opts = match choose(3) { 0 => None, 1 => Some(some_opts()), _ => Some(MOpts { connection_id: string(8), ..some_opts() }) };
    let m = any_meta(dev, 7);
    if let Some(c) = &mut w.chan { c.channel.version = if have == 1 { m.text() } else { sized(&[9, 0]) } }
    let before = w.save();
    let mut ch = any_chan(0);
    ch.version = String::new();
    ch.counterparty_endpoint.port_id = string(7);
    let r = open_init(&mut w.s, ibc_channel(&ch));
    // an encoding that is not one of the two known names makes the stored text unparsable: options are used instead
    let known = seq(&m.encoding, PROTO) | seq(&m.encoding, PJSON);
    let from_opts = w.opts.as_ref().map(|o| MMeta { version: "ics27-1".into(), controller_connection_id: o.connection_id.clone(), host_connection_id: o.counterparty_connection_id.clone(), address: String::new(), encoding: PROTO.into(), tx_type: "sdk_multi_msg".into() });
    let prev = if have == 1 { known } else { F };
    let ok_prev = m.valid(&ch.connection_id);
    let ok_opts = from_opts.as_ref().map_or(F, |x| x.valid(&ch.connection_id));
    let ok = seq(&ch.counterparty_endpoint.port_id, "icahost") & ((prev & ok_prev) | (!prev & ok_opts));
    match r {
        Some(r) => {
            cover(if have == 1 { "accepted with stored channel" } else { "accepted from options" });
            check(ok, "only a consistent fallback is accepted");
            let a = resp_version(&r).and_then(|v| meta_of(&v));
            check(a.map_or(F, |a| (prev & a.same(&m)) | (!prev & from_opts.map_or(F, |x| a.same(&x)))), "the answer is the stored metadata, else the one built from the options");
            check(!flag(&w.s, K_OPEN), "the permission is used up");
            check(same_except(&before, &w.s, &[K_OPEN]), "nothing is recorded");
        }
        None => { cover("refused"); check(!ok, "a consistent fallback is accepted"); }
    }
}

/// A valid open-init message for the world's remembered options, except for symbolic identifiers.
pub fn good_init(conn: &str) -> MChan {
    let m = MMeta { version: "ics27-1".into(), controller_connection_id: conn.into(), host_connection_id: string(7), address: String::new(), encoding: PROTO.into(), tx_type: "sdk_multi_msg".into() };
    MChan { endpoint: MEnd { port_id: string(PORT), channel_id: string(9) }, counterparty_endpoint: MEnd { port_id: "icahost".into(), channel_id: String::new() }, order: ORDERS[choose(2)].into(), version: m.text(), connection_id: conn.into() }
}

/// C05: permission decides, and is used up.
pub fn c05_permission() {
    let mut w = world_by(choose(8), flip(), choose(2)).freeing(&[K_STATE, K_OWN]);
    let may = put_any_flag(&mut w);
    let status_open = w.chan.as_ref().map_or(false, |c| c.channel_status == "STATE_OPEN");
    let before = w.save();
    // the proposed version is given, or empty and then built from the remembered options
    let bare = flip();
    let conn = if bare { w.opts.as_ref().unwrap().connection_id.clone() } else { string(7) };
    let init = |bare: bool| { let mut c = good_init(&conn); if bare { c.version = String::new() } c };
    let ch = init(bare);
    let r = open_init(&mut w.s, ibc_channel(&ch));
    match r {
        Some(_) => { cover("accepted"); check(may && !status_open, "accepted only with permission"); check(!flag(&w.s, K_OPEN), "an accepted step uses up the permission"); check(same_except(&before, &w.s, &[K_OPEN]), "nothing else changes"); }
        None => { cover("refused"); check(!may || status_open, "a valid step with permission is accepted"); return }
    }
    let again = if flip() { ibc_channel(&ch) } else { ibc_channel(&init(flip())) };
    check(open_init(&mut w.s, again).is_none(), "a second open-init is refused");
}
/// C05: no other step grants or withdraws the permission.
pub fn c05_frame() {
    let k = choose(STEPS);
    let mut w = world_by([0, 1, 2][choose(3)], flip(), 0);
    let before = w.save();
    let (ok, kind) = step(&mut w, k);
    if !ok { return }
    cover("ran");
    let (a, b) = (before.raw(K_OPEN).map_or(false, |x| x.as_slice() == b"true"), flag(&w.s, K_OPEN));
    match kind {
        Kind::Create => check(b, "the owner's create request permits a handshake"),
        Kind::OpenInit => check(a && !b, "open-init needs and uses up the permission"),
        _ => check(a == b, "other steps leave the permission as it is"),
    }
}
/// C05: request, then relayer-chosen steps, counting accepted open-init steps.
pub fn c05_history() {
    let mut w = World::fresh();
    w.open = Some(Some(flip()));
    w.save();
    let conn = w.opts.as_ref().unwrap().connection_id.clone();
    let mut credit = w.open == IS(true);
    let own = w.owner.clone();
    let n = tier(3, 4);
    for _ in 0..n {
        match choose(4) {
            0 => { let snap = w.s.clone(); let r = outcome(|| contract::execute(deps!(w.s), env(), info(&own), ExecuteMsg::CreateChannel { channel_open_init_options: None })); if r.is_none() { w.s = snap; check(F, "owner can request a channel") } credit = true; }
            1 => { let snap = w.s.clone(); let who = string(8); let r = outcome(|| contract::execute(deps!(w.s), env(), info(&who), ExecuteMsg::CreateChannel { channel_open_init_options: None })); if r.is_none() { w.s = snap } else { check(seq(&who, &own), "only the owner requests a channel"); credit = true } }
            2 => { let snap = w.s.clone(); let mut ch = good_init(&conn); if flip() { ch.version = String::new() } let r = open_init(&mut w.s, ibc_channel(&ch)); check(r.is_some() == credit, "an open-init is accepted exactly when a request is unused"); if r.is_none() { w.s = snap } else { cover("accepted"); credit = false } }
            _ => { let snap = w.s.clone(); let mut ch = good_init(&conn); ch.counterparty_endpoint.port_id = "other".into(); let r = open_init(&mut w.s, ibc_channel(&ch)); check(r.is_none(), "an invalid open-init is refused"); w.s = snap; }
        }
    }
}

/// C07: open-ack.
pub fn c07_ack() {
    let ax = pairs(7);
    let dev = ax.pick(0, DEVS);
    let mut w = world_by([0, 2, 3, 4, 5, 6, 7][ax.pick(1, 7)], flip(), ax.pick(2, 2)).freeing(OPEN_ACK_FREE);
    let before = w.save();
    let mut ch = any_chan(choose(2));
    ch.endpoint.port_id = string(if ax.pick(3, 2) == 1 { 7 } else { PORT });
    if ax.pick(4, 2) == 1 { ch.counterparty_endpoint = MEnd { port_id: string(1), channel_id: string(12) } }
    let m = any_meta(dev, ch.connection_id.len());
    let cv = if ax.pick(5, 2) == 0 { m.text() } else { m.text2() };
    // what was proposed: anything, shorter than, as long as or longer than the counterparty's version
    match ax.pick(6, 5) { 1 => ch.version = String::new(), 2 => ch.version = string(cv.len()), 3 => ch.version = crate::h_scale::long(cv.len() + 150), 4 => ch.version = MMeta { address: String::new(), ..m.clone() }.text(), _ => {} }
    let r = open_ack(&mut w.s, ibc_channel(&ch), &cv);
    let ok = !seq(&ch.endpoint.port_id, "icahost") & m.valid(&ch.connection_id) & B::from(!m.address.is_empty());
    match r {
        Some(_) => {
            cover("accepted");
            check(ok, "only a valid acknowledgement is accepted");
            let st: Option<MState> = get(&w.s, K_STATE);
            let want = Some(MIca { ica_address: m.address.clone(), channel_id: ch.endpoint.channel_id.clone(), encoding: PROTO.into() });
            check(st.as_ref().map_or(F, |s| ica_eq(&s.ica_info, &want)), "account address, channel and encoding recorded");
            check(st.as_ref().map_or(F, |s| oseq(&s.callback_address, &w.st.callback_address)), "callback address kept");
            let mut wc = ch.clone();
            wc.version = cv.clone();
            check(get::<MChanState>(&w.s, K_CHAN).map_or(F, |c| chanstate_eq(&c, &MChanState { channel: wc, channel_status: "STATE_OPEN".into() })), "the channel with the counterparty's version is recorded as open");
            check(same_except(&before, &w.s, &[K_STATE, K_CHAN]), "nothing else changes");
            note("state", w.s.raw(K_STATE).unwrap());
            note("chan", w.s.raw(K_CHAN).unwrap());
        }
        None => { cover("refused"); check(!ok, "a valid acknowledgement is accepted"); }
    }
}
pub fn c07_garbage() {
    let n = choose(tier(4, 5));
    let mut w = World::fresh().freeing(OPEN_ACK_FREE);
    w.save();
    let ch = any_chan(0);
    let cv = string_of(n, &ASCII);
    let r = open_ack(&mut w.s, ibc_channel(&ch), &cv);
    cover("ran");
    check(r.is_none(), "text that is not metadata is refused");
}
fn good_meta(conn: &str, addr: String) -> MMeta { MMeta { version: "ics27-1".into(), controller_connection_id: conn.into(), host_connection_id: string(7), address: addr, encoding: PROTO.into(), tx_type: "sdk_multi_msg".into() } }

/// C08: with the stored channel open nothing is opened or replaced; otherwise it is.
pub fn c08_single() {
    let k = choose(8);
    let mut w = world_by(k, flip(), choose(2));
    w.open = Some(Some(true));
    w.save();
    let open = k == 1;
    let conn = string(7);
    let mut ch = good_init(&conn);
    if let (Some(c), true) = (&w.chan, flip()) { ch.endpoint.channel_id = c.channel.endpoint.channel_id.clone() }
    if flip() {
        let r = open_init(&mut w.s, ibc_channel(&ch));
        cover(if r.is_some() { "init accepted" } else { "init refused" });
        check(r.is_some() != open, "open-init is accepted exactly when no channel is open");
    } else {
        let m = good_meta(&conn, string_of(5, &ALNUM));
        let r = open_ack(&mut w.s, ibc_channel(&ch), &m.text());
        cover(if r.is_some() { "ack accepted" } else { "ack refused" });
        check(r.is_some() != open, "open-ack is accepted exactly when no channel is open");
        if r.is_some() { check(get::<MChanState>(&w.s, K_CHAN).map_or(F, |c| seq(&c.channel.endpoint.channel_id, &ch.endpoint.channel_id) & seq(&c.channel_status, "STATE_OPEN")), "the new channel takes the place") }
    }
}
/// C08: two concurrent handshakes, any order of steps; the first acknowledged channel stays until it is closed.
pub fn c08_race() {
    let mut w = World::fresh();
    w.open = IS(true);
    w.save();
    let conn = w.opts.as_ref().unwrap().connection_id.clone();
    let own = w.owner.clone();
    let ids = ["channel-1", "channel-2"];
    let mut st = [0u8; 2]; // 0 none, 1 init, 2 open, 3 closed
    let mut credit = true;
    let n = tier(5, 6);
    for _ in 0..n {
        let snap = w.s.clone();
        let i = choose(2);
        let mut ch = MChan { endpoint: MEnd { port_id: "wasm.wasm1ctl".into(), channel_id: ids[i].into() }, counterparty_endpoint: MEnd { port_id: "icahost".into(), channel_id: "channel-9".into() }, order: ORDERS[0].into(), version: String::new(), connection_id: conn.clone() };
        let m = MMeta { version: "ics27-1".into(), controller_connection_id: conn.clone(), host_connection_id: "connection-1".into(), address: "acct".into(), encoding: PROTO.into(), tx_type: "sdk_multi_msg".into() };
        let any_open = st[0] == 2 || st[1] == 2;
        let ok = match choose(4) {
            0 => { let r = outcome(|| contract::execute(deps!(w.s), env(), info(&own), ExecuteMsg::CreateChannel { channel_open_init_options: None })); credit = true; r.is_some() }
            1 => { if st[i] != 0 { return } ch.version = m.text(); let r = open_init(&mut w.s, ibc_channel(&ch)); check(r.is_some() == (credit && !any_open), "open-init while a channel is open is refused"); if r.is_some() { st[i] = 1; credit = false } r.is_some() }
            2 => { if st[i] != 1 { return } let r = open_ack(&mut w.s, ibc_channel(&ch), &m.text()); check(r.is_some() != any_open, "open-ack while another channel is open is refused"); if r.is_some() { st[i] = 2; cover("opened") } else { cover("second ack refused") } r.is_some() }
            _ => { if st[i] != 2 { return } ch.version = m.text(); let r = outcome(|| ibc_channel_close(deps!(w.s), any_env(), IbcChannelCloseMsg::new_confirm(ibc_channel(&ch)))); check(r.is_some(), "the open channel can be closed by the counterparty"); st[i] = 3; r.is_some() }
        };
        if !ok { w.s = snap }
        check(!(st[0] == 2 && st[1] == 2), "never two open channels");
        if let Some(j) = st.iter().position(|x| *x == 2) { check(get::<MChanState>(&w.s, K_CHAN).map_or(F, |c| seq(&c.channel.endpoint.channel_id, ids[j]) & seq(&c.channel_status, "STATE_OPEN")), "the open channel is the recorded one") }
    }
}

/// C09: the owner's close request.
pub fn c09_request() {
    let k = choose(8);
    let mut w = world_by(k, flip(), choose(2)).freeing(&[K_STATE, K_OPTS]);
    let before = w.save();
    let own = w.owner.clone();
    let r = outcome(|| contract::execute(deps!(w.s), env(), info(&own), ExecuteMsg::CloseChannel {}));
    match r {
        Some(r) => {
            cover("accepted");
            check(k == 1, "accepted only while the channel is open");
            check(flag(&w.s, K_CLOSE), "closing is permitted");
            check(same_except(&before, &w.s, &[K_CLOSE]), "nothing else changes");
            match sole(&r.messages) { Some(SubMsg { msg: CosmosMsg::Ibc(IbcMsg::CloseChannel { channel_id }), reply_on: ReplyOn::Never, .. }) => check(seq(channel_id, &w.chan.as_ref().unwrap().channel.endpoint.channel_id), "closes the recorded channel"), _ => check(F, "exactly one close message") }
        }
        None => { cover("refused"); check(k != 1, "the owner can close an open channel"); }
    }
}
/// C09: close-init and close-confirm.
pub fn c09_step() {
    let init = flip();
    let k = choose(8);
    let mut w = world_by(k, flip(), choose(2)).freeing(&[K_STATE, K_OPTS, K_OWN]);
    w.close = Some(match choose(3) { 0 => None, 1 => Some(false), _ => Some(true) });
    let before = w.save();
    // the channel named by the step: arbitrary, or differing from the stored one in at most one place
    let mut ch = match (&w.chan, flip()) { (Some(c), true) => c.channel.clone(), _ => any_chan(choose(2)) };
    match choose(7) { 1 => ch.endpoint.channel_id = string(10), 2 => ch.endpoint.port_id = string(PORT), 3 => ch.counterparty_endpoint.channel_id = string(9), 4 => ch.counterparty_endpoint.port_id = string(7), 5 => ch.version = string(6), 6 => ch.connection_id = string(7), _ => {} }
    let c = ibc_channel(&ch);
    let r = outcome(|| ibc_channel_close(deps!(w.s), any_env(), if init { IbcChannelCloseMsg::new_init(c) } else { IbcChannelCloseMsg::new_confirm(c) }));
    let same = w.chan.as_ref().map_or(F, |s| chan_eq(&s.channel, &ch));
    let ok = same & B::from(k == 1) & B::from(!init || w.close == IS(true));
    match r {
        Some(r) => {
            cover(if init { "close-init accepted" } else { "close-confirm accepted" });
            check(ok, "only the recorded open channel closes, close-init only with consent");
            check(r.messages.is_empty(), "no message is sent");
            check(get::<MChanState>(&w.s, K_CHAN).map_or(F, |x| chanstate_eq(&x, &MChanState { channel: ch.clone(), channel_status: "STATE_CLOSED".into() })), "marked closed, details kept");
            if init { check(!flag(&w.s, K_CLOSE), "the consent is used up") } else { check(flag(&w.s, K_CLOSE) == (w.close == IS(true)), "close-confirm leaves the permission alone") }
            check(same_except(&before, &w.s, &[K_CHAN, K_CLOSE]), "nothing else changes");
        }
        None => { cover("refused"); check(!ok, "a justified close is accepted"); }
    }
}
/// C09: only the owner's close request grants consent and only close-init uses it.
pub fn c09_frame() {
    let k = choose(STEPS);
    let mut w = world_by([0, 1, 2][choose(3)], flip(), 0);
    let before = w.save();
    let (ok, kind) = step(&mut w, k);
    if !ok { return }
    cover("ran");
    let (a, b) = (before.raw(K_CLOSE).map_or(false, |x| x.as_slice() == b"true"), flag(&w.s, K_CLOSE));
    match kind {
        Kind::Close => check(b, "the owner's close request gives consent"),
        Kind::CloseInit => check(a && !b, "close-init needs and uses up the consent"),
        _ => check(a == b, "other steps leave the consent as it is"),
    }
    // the recorded channel closes in no other way, and never changes silently
    let (x, y): (Option<MChanState>, Option<MChanState>) = (get(&before, K_CHAN), get(&w.s, K_CHAN));
    let same = match (&x, &y) { (None, None) => T, (Some(x), Some(y)) => chanstate_eq(x, y), _ => F };
    match kind { Kind::CloseInit | Kind::CloseConfirm | Kind::Timeout | Kind::OpenAck => {} _ => check(same, "no other step changes the channel record") }
}

/// C10: host-side steps always abort.
pub fn c10_host() {
    let k = choose(3);
    let mut w = world_by(choose(8), flip(), choose(2)).freeing(&[K_STATE, K_OPTS, K_OWN]);
    w.save();
    let mut ch = if flip() { good_init(&string(7)) } else { w.chan.as_ref().map_or_else(|| any_chan(0), |c| c.channel.clone()) };
    if flip() { ch.endpoint.port_id = "icahost".into() }
    if k < 2 { match choose(3) { 0 => {} 1 => ch.version = good_meta(&ch.connection_id, ["acct", ""][choose(2)].into()).text(), _ => ch.version = String::new() } }
    let r = match k {
        0 => { let cv = if flip() { good_meta(&ch.connection_id, "acct".into()).text() } else { sized(&[0, 9]) }; outcome(|| ibc_channel_open(deps!(w.s), any_env(), IbcChannelOpenMsg::new_try(ibc_channel(&ch), cv))).is_some() }
        1 => outcome(|| ibc_channel_connect(deps!(w.s), any_env(), IbcChannelConnectMsg::new_confirm(ibc_channel(&ch)))).is_some(),
        _ => { let mut p = any_packet(&w); p.data = match choose(3) { 0 => Binary::new(bytes_of(choose(3), &ANY)), 1 => Binary::new(br#"{"type":1,"data":"","memo":""}"#.to_vec()), _ => Binary::new(br#"{"type":1,"data":[]}"#.to_vec()) }; outcome(|| ibc_packet_receive(deps!(w.s), any_env(), IbcPacketReceiveMsg::new(p, Addr::unchecked(string(8))))).is_some() }
    };
    cover(["try", "confirm", "receive"][k]);
    check(!r, "host-side steps abort");
}
crate::harnesses!(REG: c05_permission c05_frame c05_history c06_proposed c06_garbage c06_missing_field c06_fallback c07_ack c07_garbage c08_single c08_race c09_request c09_step c09_frame c10_host);
