//! Callback messages in the documented JSON form, and what they say.
use crate::env::*;
use crate::vp::*;
use cosmwasm_std::Binary;

/// kind: 0 acknowledgement with a result, 1 with an error, 2 timeout, 3 open channel
pub struct Cb { pub kind: usize, pub chan: MChan, pub account: String, pub encoding: &'static str, pub json: String }
impl Cb {
    pub fn any(kind: usize, seq: &str) -> Cb { Cb::full(kind, seq, if kind == 3 { choose(2) } else { 0 }, if kind == 3 { choose(2) } else { 0 }) }
    pub fn opened(i: usize) -> Cb { Cb::full(3, "1", i, i) }
    fn full(kind: usize, seq: &str, ord: usize, enc: usize) -> Cb {
        let chan = any_chan(ord);
        let (data, rel, account) = (bytes_of([2, 0][if kind == 3 { 0 } else { choose(2) }], &ANY), string(8), string(6));
        let p = || {
            let t = ["{\"block\":null,\"timestamp\":\"77\"}", "{\"block\":{\"revision\":3,\"height\":9},\"timestamp\":null}", "{\"block\":{\"revision\":3,\"height\":9},\"timestamp\":\"77\"}"][choose(3)];
            ["{\"data\":\"", &Binary::new(data.clone()).to_base64(), "\",\"src\":{\"port_id\":\"", &chan.endpoint.port_id, "\",\"channel_id\":\"", &chan.endpoint.channel_id, "\"},\"dest\":{\"port_id\":\"", &chan.counterparty_endpoint.port_id, "\",\"channel_id\":\"", &chan.counterparty_endpoint.channel_id, "\"},\"sequence\":", seq, ",\"timeout\":", t, "}"].concat()
        };
        let encoding = [PROTO, PJSON][enc];
        let json = match kind {
            0 => ["{\"on_acknowledgement_packet_callback\":{\"ica_acknowledgement\":{\"result\":\"", &Binary::new(bytes_of(choose(3), &ANY)).to_base64(), "\"},\"original_packet\":", &p(), ",\"relayer\":\"", &rel, "\",\"query_result\":", QUERY_RESULTS[choose(QUERY_RESULTS.len())], "}}"].concat(),
            1 => ["{\"on_acknowledgement_packet_callback\":{\"ica_acknowledgement\":{\"error\":\"", &sized(&[4, 0, 130]), "\"},\"original_packet\":", &p(), ",\"relayer\":\"", &rel, "\",\"query_result\":", QUERY_RESULTS[choose(2)], "}}"].concat(),
            2 => ["{\"on_timeout_packet_callback\":{\"original_packet\":", &p(), ",\"relayer\":\"", &rel, "\"}}"].concat(),
            _ => ["{\"on_channel_open_ack_callback\":{\"channel\":", &chan_json(&chan), ",\"ica_address\":\"", &account, "\",\"tx_encoding\":\"", encoding, "\"}}"].concat(),
        };
        Cb { kind, chan, account, encoding, json }
    }
    /// Fixed but for the relayer and the account.
    pub fn plain(kind: usize, seq: &str) -> Cb {
        let e = |p: &str, c: &str| MEnd { port_id: p.into(), channel_id: c.into() };
        let chan = MChan { endpoint: e("wasm.a", "channel-1"), counterparty_endpoint: e("icahost", "channel-2"), order: "ORDER_ORDERED".into(), version: "v".into(), connection_id: "connection-1".into() };
        let (rel, account) = (string(8), string(6));
        let p = ["{\"data\":\"AQI=\",\"src\":{\"port_id\":\"wasm.a\",\"channel_id\":\"channel-1\"},\"dest\":{\"port_id\":\"icahost\",\"channel_id\":\"channel-2\"},\"sequence\":", seq, ",\"timeout\":{\"block\":null,\"timestamp\":\"77\"}},\"relayer\":\"", &rel, "\""].concat();
        let json = match kind {
            0 => ["{\"on_acknowledgement_packet_callback\":{\"ica_acknowledgement\":{\"result\":\"AQ==\"},\"original_packet\":", &p, "}}"].concat(),
            1 => ["{\"on_acknowledgement_packet_callback\":{\"ica_acknowledgement\":{\"error\":\"e\"},\"original_packet\":", &p, "}}"].concat(),
            2 => ["{\"on_timeout_packet_callback\":{\"original_packet\":", &p, "}}"].concat(),
            _ => ["{\"on_channel_open_ack_callback\":{\"channel\":", &chan_json(&chan), ",\"ica_address\":\"", &account, "\",\"tx_encoding\":\"proto3\"}}"].concat(),
        };
        Cb { kind, chan, account, encoding: PROTO, json }
    }
    pub fn message(&self) -> String { ["{\"receive_ica_callback\":", &self.json, "}"].concat() }
}
const QUERY_RESULTS: &[&str] = &["null", "{\"error\":\"no\"}", "{\"success\":{\"height\":9,\"responses\":[]}}", "{\"success\":{\"height\":9,\"responses\":[{\"stargate\":{\"data\":\"AQ==\",\"path\":\"/p\"}},{\"bank\":{\"supply\":{\"amount\":{\"denom\":\"a\",\"amount\":\"5\"}}}}]}}"];
