//! C30: the callback recorder (testing/contracts/callback-counter), driven through its entry points and observed through its query.
use crate::cbs::Cb;
use crate::env::*;
use crate::vp::*;
use callback_counter::contract::{execute, instantiate, query};
use callback_counter::msg::{ExecuteMsg, InstantiateMsg, QueryMsg};
use cosmwasm_std::*;
use cw_ica_controller::types::callbacks::IcaControllerCallbackMsg;
use serde::Deserialize;

#[derive(Deserialize)] #[serde(deny_unknown_fields)] struct Lists { success: Vec<IcaControllerCallbackMsg>, error: Vec<IcaControllerCallbackMsg>, timeout: Vec<IcaControllerCallbackMsg> }
fn lists(s: &Store) -> Option<Lists> {
    let Ok(m) = from_json::<QueryMsg>(b"{\"get_callback_counter\":{}}") else { check(F, "the documented query is understood"); return None };
    from_json(&outcome(|| query(rdeps!(*s), any_env(), m))?).ok()
}
fn init(s: &mut Store) {
    let Some(r) = outcome(|| instantiate(deps!(*s), any_env(), info0(&string(8)), InstantiateMsg {})) else { check(F, "instantiates"); return };
    check(r.messages.is_empty(), "nothing is sent");
    check(lists(s).map_or(false, |l| l.success.is_empty() && l.error.is_empty() && l.timeout.is_empty()), "starts empty");
}
fn step(s: &mut Store, cb: &Cb) { step_by(s, cb, info0(&string(8))) }
fn step_by(s: &mut Store, cb: &Cb, i: MessageInfo) {
    let Ok(m) = from_json::<ExecuteMsg>(cb.message().as_bytes()) else { check(F, "the callback is understood"); return };
    let Some(r) = outcome(|| execute(deps!(*s), any_env(), i, m)) else { check(F, "every callback is accepted"); return };
    check(r.messages.is_empty(), "nothing is sent");
}
fn agree(s: &Store, want: [&[&Cb]; 3]) {
    let Some(l) = lists(s) else { check(F, "the lists can be read"); return };
    for (g, w) in [&l.success, &l.error, &l.timeout].into_iter().zip(want) {
        check(g.len() == w.len(), "every packet outcome recorded exactly once, under its kind");
        for (x, c) in g.iter().zip(w) {
            let Ok(y) = from_json::<IcaControllerCallbackMsg>(c.json.as_bytes()) else { check(F, "the callback is understood"); return };
            check(eq(&to_json_vec(x).unwrap(), &to_json_vec(&y).unwrap()), "in order and with full content");
        }
    }
}
/// C30: any sequence of callbacks.
pub fn c30_record() {
    let mut s = Store::default();
    init(&mut s);
    let n = tier(3, 4);
    let ks: Vec<usize> = (0..n).map(|_| choose(4)).collect();
    // the last one in full, the ones before it in a plain form
    let cbs: Vec<Cb> = ks.iter().enumerate().map(|(i, k)| { let q = ["1", "2", "3", "4"][i]; if i + 1 == n { Cb::any(*k, q) } else { Cb::plain(*k, q) } }).collect();
    for (i, c) in cbs.iter().enumerate() { if i + 1 == n { step_by(&mut s, c, info(&string(8))) } else { step(&mut s, c) } }
    cover("recorded");
    let of = |k: usize| cbs.iter().filter(|c| c.kind == k).collect::<Vec<_>>();
    agree(&s, [&of(0), &of(1), &of(2)]);
}
/// C30: many callbacks, and the same one again.
pub fn c30_many() {
    let mut s = Store::default();
    init(&mut s);
    let k = choose(4);
    let n = [2, 17, 66, 80][choose(4)];
    let cbs: Vec<Cb> = (0..n).map(|i| if i == 0 && n < 40 { Cb::any(k, "7") } else { Cb::plain(if i % 40 == 4 { (k + 1) % 3 } else { k }, &(i % 11).to_string()) }).collect();
    for c in &cbs { step(&mut s, c) }
    let last = flip();
    if last { step(&mut s, &cbs[0]); let of = |k: usize| cbs.iter().filter(|c| c.kind == k).chain(cbs[..1].iter().filter(|c| c.kind == k)).collect::<Vec<_>>(); cover("again"); agree(&s, [&of(0), &of(1), &of(2)]); return }
    cover("recorded");
    let of = |k: usize| cbs.iter().filter(|c| c.kind == k).collect::<Vec<_>>();
    agree(&s, [&of(0), &of(1), &of(2)]);
}
crate::harnesses!(REG: c30_record c30_many);
