//! C01 owner-only execution, C02 ownership lifecycle.
use crate::env::*;
use crate::h_hs::world_by;
use crate::vp::*;
use cosmwasm_std::*;
use cw_ica_controller::contract;
use cw_ica_controller::types::msg::*;

pub fn any_exec(k: usize) -> ExecuteMsg {
    match k {
        0 => ExecuteMsg::CreateChannel { channel_open_init_options: opt(|| opts_api(&some_opts())) },
        1 => ExecuteMsg::CloseChannel {},
        2 => ExecuteMsg::UpdateCallbackAddress { callback_address: opt(cb_addr) },
        3 => ExecuteMsg::SendCosmosMsgs { messages: vec![], queries: vec![], packet_memo: None, timeout_seconds: None },
        4 => ExecuteMsg::SendCosmosMsgs { messages: vec![BankMsg::Burn { amount: vec![] }.into()], queries: vec![], packet_memo: None, timeout_seconds: None },
        5 => ExecuteMsg::SendCosmosMsgs { messages: vec![BankMsg::Send { to_address: "to".into(), amount: vec![] }.into()], queries: vec![BankQuery::Supply { denom: "atom".into() }.into()], packet_memo: None, timeout_seconds: Some(u64_in(0, 1 << 30)) },
        6 => ExecuteMsg::UpdateOwnership(cw_ownable::Action::TransferOwnership { new_owner: cb_addr(), expiry: any_exp3() }),
        7 => { let q = choose(crate::h_send::QUERIES); ExecuteMsg::SendCosmosMsgs { messages: vec![], queries: vec![crate::h_send::query(q, PLAIN).0], packet_memo: opt(|| string_of(3, &TWO)), timeout_seconds: Some(u64_in(0, 1 << 30)) } }
        _ => { let m = choose(crate::h_send::MSGS); ExecuteMsg::SendCosmosMsgs { messages: vec![crate::h_send::msg(m, PLAIN, "acct").0], queries: vec![], packet_memo: opt(|| string_of(3, &TWO)), timeout_seconds: None } }
    }
}
const KINDS: usize = 9;
const PLAIN: crate::h_send::Gen = crate::h_send::Gen { packet: true, v: 0, full: 9 };
fn any_exp3() -> Option<cw_ownable::Expiration> { match choose(3) { 0 => None, 1 => Some(cw_ownable::Expiration::AtHeight(num3())), _ => Some(cw_ownable::Expiration::AtTime(Timestamp::from_nanos(num3()))) } }

/// From a state in which the owner's message succeeds: it succeeds exactly when the sender is the owner.
pub fn c01_owner_only() {
    let k = choose(KINDS);
    let mut w = World::opened(flip(), 0);
    w.owner = sized(&[8, 1, 20]);
    // ICA address made of two-digit bytes keeps the packet JSON free of forks
    if let Some(i) = &mut w.st.ica_info { i.ica_address = string_of(4, &TWO) }
    let sender = match choose(4) { 0 => string(w.owner.len()), 1 => string(w.owner.len() + 1), 2 => CONTRACT.to_string(), _ => match &w.st.callback_address { Some(c) => c.clone(), None => w.owner.clone() } };
    let before = w.save();
    let msg = any_exec(k);
    let r = outcome(|| contract::execute(deps!(w.s), env(), info(&sender), msg));
    let owner = seq(&w.owner, &sender);
    match r {
        Some(_) => { cover("accepted"); check(owner, "a message that takes effect comes from the owner"); check(T & B::from(k != 4), "unsupported message never accepted"); }
        None => { cover("rejected"); if k != 4 { check(!owner, "the owner's well-formed message is not rejected"); } }
    }
    let _ = before;
}

/// With no owner recorded, or no ownership record at all, nobody can act.
pub fn c01_no_owner() {
    let k = choose(KINDS);
    let mut w = World::opened(flip(), 0).freeing(&[K_CHAN, K_OPTS]);
    w.save();
    let sender = sized(&[8, 1]);
    if flip() { w.s.put(K_OWN, br#"{"owner":null,"pending_owner":null,"pending_expiry":null}"#) } else { w.s.remove(K_OWN) }
    let msg = any_exec(k);
    let r = outcome(|| contract::execute(deps!(w.s), env(), info(&sender), msg));
    cover("ran");
    check(r.is_none(), "without an owner nothing is accepted");
}

/// A pending owner has no rights before accepting.
pub fn c01_pending_owner() {
    let k = choose(KINDS);
    let mut w = World::opened(false, 0);
    w.save();
    let pend = string(8);
    put_own(&mut w.s, &MOwn { owner: Some(w.owner.clone()), pending_owner: Some(pend.clone()), pending_expiry: None });
    assume(!seq(&pend, &w.owner));
    let msg = any_exec(k);
    let r = outcome(|| contract::execute(deps!(w.s), env(), info(&pend), msg));
    cover("ran");
    check(r.is_none(), "a proposed owner cannot act before accepting");
}

#[allow(dead_code)]
fn exp_api(e: &Option<MExp>) -> Option<cw_ownable::Expiration> { e.as_ref().map(|e| match e { MExp::AtHeight(h) => cw_ownable::Expiration::AtHeight(*h), MExp::AtTime(t) => cw_ownable::Expiration::AtTime(Timestamp::from_nanos(t.parse().unwrap())), MExp::Never {} => cw_ownable::Expiration::Never {} }) }
fn exp_eq(a: &Option<cw_ownable::Expiration>, b: &Option<cw_ownable::Expiration>) -> B {
    use cw_ownable::Expiration::*;
    match (a, b) { (None, None) => T, (Some(AtHeight(x)), Some(AtHeight(y))) => eq64(*x, *y), (Some(AtTime(x)), Some(AtTime(y))) => eq64(x.nanos(), y.nanos()), (Some(Never {}), Some(Never {})) => T, _ => F }
}
fn any_exp() -> Option<cw_ownable::Expiration> { match choose(4) { 0 => None, 1 => Some(cw_ownable::Expiration::Never {}), 2 => Some(cw_ownable::Expiration::AtHeight(num())), _ => Some(cw_ownable::Expiration::AtTime(Timestamp::from_nanos(num()))) } }
fn own(s: &Store) -> Option<cw_ownable::Ownership<Addr>> { s.raw(K_OWN).and_then(|v| from_json(v).ok()) }
fn own_eq(a: &cw_ownable::Ownership<Addr>, owner: &Option<String>, pend: &Option<String>, exp: &Option<cw_ownable::Expiration>) -> B {
    oseq(&a.owner.as_ref().map(|x| x.to_string()), owner) & oseq(&a.pending_owner.as_ref().map(|x| x.to_string()), pend) & exp_eq(&a.pending_expiry, exp)
}

/// Every ownership action from every ownership state.
pub fn c02_actions() {
    let act = choose(3);
    let mut w = World::opened(false, 0).freeing(&[K_CHAN, K_STATE, K_OPTS]);
    w.save();
    let pend = opt(|| string(8));
    let pexp = if pend.is_some() { any_exp() } else { None };
    let o = cw_ownable::Ownership { owner: Some(Addr::unchecked(w.owner.clone())), pending_owner: pend.clone().map(Addr::unchecked), pending_expiry: pexp };
    let j = to_json_vec(&o).unwrap();
    w.s.put(K_OWN, &j);
    let before = w.s.clone();
    let sender = string(8);
    let (h, t) = (u64_in(1, u64::MAX), u64_in(1, u64::MAX));
    let is_owner = seq(&sender, &w.owner);
    let new = sized(&[8, 3]);
    let nexp = if act == 0 { any_exp() } else { None };
    let a = match act { 0 => cw_ownable::Action::TransferOwnership { new_owner: new.clone(), expiry: nexp }, 1 => cw_ownable::Action::AcceptOwnership, _ => cw_ownable::Action::RenounceOwnership };
    let r = outcome(|| contract::execute(deps!(w.s), env_at(t, h, CONTRACT), info(&sender), ExecuteMsg::UpdateOwnership(a)));
    let expired = match &pexp { None | Some(cw_ownable::Expiration::Never {}) => F, Some(cw_ownable::Expiration::AtHeight(x)) => !lt64(h, *x), Some(cw_ownable::Expiration::AtTime(x)) => !lt64(t, x.nanos()) };
    let now = own(&w.s);
    match (act, r) {
        (0, Some(r)) => {
            cover("transfer proposed");
            check(is_owner, "only the owner proposes a transfer");
            check(now.map_or(F, |n| own_eq(&n, &Some(w.owner.clone()), &Some(new.clone()), &nexp)), "proposal recorded; owner unchanged until accepted");
            check(r.messages.is_empty(), "no message sent");
        }
        (0, None) => { cover("transfer refused"); check(!is_owner | !addr_ok(&new), "the owner's proposal of a valid address is accepted"); }
        (1, Some(r)) => {
            cover("accepted");
            check(pend.as_ref().map_or(F, |p| seq(p, &sender)) & !expired, "only the proposed owner accepts, before expiry");
            check(now.map_or(F, |n| own_eq(&n, &Some(sender.clone()), &None, &None)), "ownership moves to the accepting account and the proposal is cleared");
            check(r.messages.is_empty(), "no message sent");
        }
        (1, None) => { cover("accept refused"); check(!(pend.as_ref().map_or(F, |p| seq(p, &sender)) & !expired), "an unexpired proposal can be accepted"); }
        (_, Some(_)) => { check(F, "renouncing never succeeds"); }
        (_, None) => cover("renounce refused"),
    }
    check(same_except(&before, &w.s, &[K_OWN]), "ownership actions touch nothing else");
    if let Some(v) = w.s.raw(K_OWN) { note("ownership", v) }
}

/// Propose, then a chain of attempts: only accepting by the latest proposed account moves ownership; the old owner then loses all rights.
pub fn c02_history() {
    let mut w = World::opened(false, 0).freeing(&[K_CHAN, K_OPTS]);
    w.save();
    let (a, b) = (cb_addr(), cb_addr());
    let exec = |w: &mut World, s: &str, m: cw_ownable::Action| { let snap = w.s.clone(); let r = outcome(|| contract::execute(deps!(w.s), env(), info(s), ExecuteMsg::UpdateOwnership(m))); if r.is_none() { w.s = snap } r.is_some() };
    let own0 = w.owner.clone();
    assume(!seq(&a, &b) & !seq(&a, &own0) & !seq(&b, &own0));
    let n = tier(2, 3);
    let mut owner = 0usize; // 0: original, 1: a, 2: b
    let mut pend: Option<usize> = None;
    let names = [own0.clone(), a.clone(), b.clone()];
    for _ in 0..n {
        let who = choose(3);
        match choose(3) {
            0 => { let to = choose(3); let ok = exec(&mut w, &names[who], cw_ownable::Action::TransferOwnership { new_owner: names[to].clone(), expiry: None }); let may = B::from(who == owner) & addr_ok(&names[to]); check(if ok { may } else { !may }, "proposing is for the current owner"); if ok { pend = Some(to) } }
            1 => { let ok = exec(&mut w, &names[who], cw_ownable::Action::AcceptOwnership); check(ok == (pend == Some(who)), "accepting is for the latest proposed account"); if ok { cover("ownership moved"); owner = who; pend = None } }
            _ => { let ok = exec(&mut w, &names[who], cw_ownable::Action::RenounceOwnership); check(!ok, "never renounced"); }
        }
    }
    let who = choose(3);
    let r = outcome(|| contract::execute(deps!(w.s), env(), info(&names[who]), ExecuteMsg::UpdateCallbackAddress { callback_address: None }));
    check(r.is_some() == (who == owner), "exactly the current owner can act");
    check(own(&w.s).map_or(F, |o| oseq(&o.owner.map(|x| x.to_string()), &Some(names[owner].clone()))), "recorded owner");
}
/// In every state of the contract, everything sent by anyone but the owner is refused.
pub fn c01_states() {
    let mut w = world_by(choose(8), flip(), choose(2));
    if w.chan.is_none() && flip() { w.opts = None }
    if let Some(i) = &mut w.st.ica_info { i.ica_address = string_of(8, &TWO) }
    w.save();
    let sender = match choose(5) { 0 => string(8), 1 => CONTRACT.to_string(), 2 => w.st.callback_address.clone().unwrap_or("relayer1".into()), 3 => w.st.ica_info.as_ref().map_or("".into(), |i| i.ica_address.clone()), _ => w.owner[..7].to_string() };
    assume(!seq(&sender, &w.owner));
    // a proposal to somebody else, or an expired one to the sender
    let pend = choose(4);
    let heir = cb_addr();
    assume(!seq(&heir, &sender));
    match pend { 0 => {} 1 => put_own(&mut w.s, &MOwn { owner: Some(w.owner.clone()), pending_owner: Some(heir), pending_expiry: None }), k => put_own(&mut w.s, &MOwn { owner: Some(w.owner.clone()), pending_owner: Some(sender.clone()), pending_expiry: Some(if k == 2 { MExp::AtHeight(1000) } else { MExp::AtTime("1700000000000000000".into()) }) }) }
    let k = choose(KINDS + 2);
    let m = match k { KINDS => ExecuteMsg::UpdateOwnership(cw_ownable::Action::AcceptOwnership), k if k > KINDS => ExecuteMsg::UpdateOwnership(cw_ownable::Action::RenounceOwnership), k => any_exec(k) };
    let r = outcome(|| contract::execute(deps!(w.s), env0(), info(&sender), m));
    cover("ran");
    check(r.is_none(), "in no state is a message of a non-owner accepted");
}
/// Ownership actions do not depend on the channel.
pub fn c02_states() {
    let act = choose(3);
    let mut w = world_by(choose(8), flip(), choose(2));
    if w.chan.is_none() && flip() { w.opts = None }
    w.save();
    let heir = string(8);
    if act == 1 || flip() { put_own(&mut w.s, &MOwn { owner: Some(w.owner.clone()), pending_owner: Some(heir.clone()), pending_expiry: None }) }
    let before = w.s.clone();
    let sender = match choose(3) { 0 => w.owner.clone(), 1 => heir.clone(), _ => string(8) };
    let is_owner = seq(&sender, &w.owner);
    let new = string(8);
    let a = match act { 0 => cw_ownable::Action::TransferOwnership { new_owner: new.clone(), expiry: None }, 1 => cw_ownable::Action::AcceptOwnership, _ => cw_ownable::Action::RenounceOwnership };
    let r = outcome(|| contract::execute(deps!(w.s), env(), info(&sender), ExecuteMsg::UpdateOwnership(a)));
    let now = own(&w.s);
    match (act, r) {
        (0, Some(_)) => { cover("transfer proposed"); check(is_owner & addr_ok(&new), "only the owner proposes a transfer"); check(now.map_or(F, |n| own_eq(&n, &Some(w.owner.clone()), &Some(new.clone()), &None)), "proposal recorded; owner unchanged until accepted") }
        (0, None) => check(!is_owner | !addr_ok(&new), "the owner's proposal of a valid address is accepted"),
        (1, Some(_)) => { cover("accepted"); check(seq(&heir, &sender), "only the proposed owner accepts"); check(now.map_or(F, |n| own_eq(&n, &Some(sender.clone()), &None, &None)), "ownership moves to the accepting account and the proposal is cleared") }
        (1, None) => check(!seq(&heir, &sender), "an unexpired proposal can be accepted"),
        (_, Some(_)) => check(F, "renouncing never succeeds"),
        (_, None) => cover("renounce refused"),
    }
    check(same_except(&before, &w.s, &[K_OWN]), "ownership actions touch nothing else");
}
/// Real accounts are longer: the sender must match the owner to the last character.
pub fn c01_scale() {
    let n = [32, 39, 43, 44, 63, 64, 65, 90][choose(8)];
    let mut w = World::opened(flip(), 0);
    w.owner = string(n);
    assume(addr_ok(&w.owner));
    if let Some(i) = &mut w.st.ica_info { i.ica_address = string_of(4, &TWO) }
    w.save();
    let sender = match choose(5) { 0 => string(n), 1 => [&w.owner[..n - 1], &string(1)].concat(), 2 => [&string(1), &w.owner[1..]].concat(), 3 => w.owner[..n - 1].to_string(), _ => [&w.owner[..], &string(1)].concat() };
    let k = [0, 1, 2, 3, 6][choose(5)];
    let m = any_exec(k);
    let r = outcome(|| contract::execute(deps!(w.s), env(), info(&sender), m));
    cover(if r.is_some() { "accepted" } else { "rejected" });
    let owner = seq(&w.owner, &sender);
    check(if r.is_some() { owner } else { !owner }, "accepted exactly from the owner");
}
/// Ownership of long accounts.
pub fn c02_scale() {
    let l = |k: usize| string([32, 43, 63, 64, 65, 90][k]);
    let mut w = World::opened(false, 0);
    w.owner = l(choose(6));
    w.save();
    let new = l(choose(6));
    if flip() {
        let own0 = w.owner.clone();
        let ok = outcome(|| contract::execute(deps!(w.s), env(), info(&own0), ExecuteMsg::UpdateOwnership(cw_ownable::Action::TransferOwnership { new_owner: new.clone(), expiry: None }))).is_some();
        check(if ok { addr_ok(&new) } else { !addr_ok(&new) }, "the owner's proposal of a valid address is accepted");
        if !ok { return }
        cover("transfer proposed");
        check(own(&w.s).map_or(F, |n| own_eq(&n, &Some(own0.clone()), &Some(new.clone()), &None)), "proposal recorded; owner unchanged until accepted");
    } else { put_own(&mut w.s, &MOwn { owner: Some(w.owner.clone()), pending_owner: Some(new.clone()), pending_expiry: None }) }
    let n = new.len();
    let who = match choose(3) { 0 => new.clone(), 1 => [&new[..n - 1], &string(1)].concat(), _ => new[..n - 1].to_string() };
    let r = outcome(|| contract::execute(deps!(w.s), env(), info(&who), ExecuteMsg::UpdateOwnership(cw_ownable::Action::AcceptOwnership)));
    let me = seq(&who, &new);
    check(if r.is_some() { me } else { !me }, "only the proposed owner accepts");
    if r.is_some() { cover("accepted"); check(own(&w.s).map_or(F, |n| own_eq(&n, &Some(new.clone()), &None, &None)), "ownership moves to the accepting account and the proposal is cleared") }
}
crate::harnesses!(REG: c01_scale c02_scale c01_owner_only c01_no_owner c01_pending_owner c01_states c02_actions c02_history c02_states);
