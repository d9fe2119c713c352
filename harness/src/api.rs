//! Conversion functions that are called directly (not through an entry point). Each sits behind a cargo feature, so that
//! a tree in which one of them no longer exists under this name still builds the other harnesses.
use cosmwasm_std::*;
use cw_ica_controller::types::query_msg::IcaQueryResponse;
use crate::vp::run;

/// Outer `None`: panic. Inner `None`: error.
#[cfg(feature = "msg")]
pub fn convert(m: CosmosMsg, from: &str) -> Option<Option<cosmos_sdk_proto::Any>> { run(|| cw_ica_controller::types::cosmos_msg::convert_to_proto_any(m, from.into())).map(|r| r.ok()) }
#[cfg(not(feature = "msg"))]
pub fn convert(_: CosmosMsg, _: &str) -> Option<Option<cosmos_sdk_proto::Any>> { unreachable!() }
#[cfg(feature = "qry")]
pub fn convert_query(q: QueryRequest) -> Option<(String, Vec<u8>, bool)> { run(|| cw_ica_controller::types::query_msg::query_to_protobuf(q)) }
#[cfg(not(feature = "qry"))]
pub fn convert_query(_: QueryRequest) -> Option<(String, Vec<u8>, bool)> { unreachable!() }
#[cfg(feature = "resp")]
pub fn decode(path: &str, d: &[u8], raw: bool) -> Option<Option<IcaQueryResponse>> { run(|| cw_ica_controller::types::query_msg::from_protobuf::response(path, d, raw)).map(|r| r.ok()) }
#[cfg(not(feature = "resp"))]
pub fn decode(_: &str, _: &[u8], _: bool) -> Option<Option<IcaQueryResponse>> { unreachable!() }
