"""Which harnesses decide which property, the reachability witnesses each must show, and the stated bounds."""
COMMON_ASSUMPTIONS = [
 "an entry point that returns an error or panics has no effect (the chain reverts the transaction); a panic counts as an abort",
 "the chain's address validation is an uninterpreted-style predicate: a text is invalid iff it is empty or starts with '!', and validation does not change it",
 "symbolic text is printable ASCII without quote and backslash unless a harness says otherwise; text lengths are the ones listed in the bounds",
 "storage starts from any state that satisfies the representation invariant written by the harness (JSON records under the contract's documented keys)",
 "trusted: rustc's wasm32 code generation, the wasmsym interpreter and simplifier (cross-checked by replaying sampled paths natively), Z3 4.8.12",
]
S8 = dict(shards=8, cost=3)
def H(*covers, **k): return dict(covers=list(covers), **k)
PROPS = {
 "C01": dict(
  harnesses={"c01_owner_only": H("accepted", "rejected"), "c01_no_owner": H("ran"), "c01_pending_owner": H("ran"), "c01_states": H("ran", **S8), "c01_scale": H("accepted", "rejected")},
  bounds="one execute call of any of the message kinds from a state with an open channel; owner text of 1, 8 or 20 symbolic bytes; sender: symbolic text of the owner's length or one more, the contract itself, the callback contract, the proposed owner; owner record absent or renounced; every message (also accepting and renouncing) from any other account in every channel status, permission, callback and proposal state; every kind of message and query; with and without funds; accounts of 32-90 symbolic bytes that differ in the first or last byte or in length",
 ),
 "C02": dict(
  harnesses={"c02_actions": H("transfer proposed", "transfer refused", "accepted", "accept refused", "renounce refused"), "c02_history": H("ownership moved", cost=2), "c02_states": H("transfer proposed", "accepted", "renounce refused"), "c02_scale": H("transfer proposed", "accepted")},
  bounds="one ownership action from every ownership record (8-byte owner and proposed owner, any expiry kind; deadlines in 256-value windows at 100, 1.7e18 and 2^64-256), any block height and time; plus every sequence of 2 (thorough: 3) actions by three accounts; one action in every channel status and permission; accounts of 32-90 bytes",
 ),
 "C03": dict(
  harnesses={"c03_instantiate": H("instantiated", "refused", **S8), "c03_then_open": H("opened", "refused"), "c03_scale": H("instantiated", "refused")},
  bounds="one instantiation: owner absent or text of 0, 1, 8 bytes, callback absent or 0, 1, 7 bytes, 8-byte instantiator, 8-byte contract address (so it may coincide with any other account), any option set (7-byte connections, which may coincide, port absent or 7 bytes, all orderings); then the requested open-init, twice; accounts of 43-90 symbolic bytes",
 ),
 "C04": dict(
  harnesses={"c04_create_channel": H("no options", "requested", **S8), "c04_instantiate": H("instantiated", cost=2), "c04_reuse": H("requested"), "c04_scale": H("requested")},
  bounds="connection ids of 12/6, 1/13, 7/1 bytes (thorough also 0/0), counterparty port absent or of 7, 0, 20 bytes, every ordering, contract address of 1, 10, 43 bytes, options remembered or not, given or not, with and without an open channel; two requests in a row; names of 13, 14, 64, 128 and contract addresses of 63-90 symbolic bytes, instantiation followed by a request",
 ),
 "C05": dict(
  harnesses={"c05_permission": H("accepted", "refused", cost=2), "c05_frame": H("ran", cost=2), "c05_history": H("accepted", cost=2), "c05_scale": H("accepted", "refused")},
  bounds="one open-init and a repetition, from every channel status and permission state; any one of 16 kinds of step for the frame; every history of 3 (thorough: 4) requests (owner or any 8-byte caller) and open-init steps; names of 13-128 bytes",
 ),
 "C06": dict(
  harnesses={"c06_proposed": H("accepted", "refused", **S8), "c06_garbage": H("ran"), "c06_missing_field": H("ran"), "c06_fallback": H("accepted from options", "accepted with stored channel", "refused", **S8), "c06_address": H("ran"), "c07_scale": H("opened")},
  bounds="metadata JSON in two layouts with all six fields symbolic; at most one field of unusual length (empty, one longer or shorter, address of 3, 128 and 129 bytes); port of 6-8 bytes; unparsable versions: every ASCII text of 1-4 (thorough: 5) bytes and every single missing field; stored channel in every status or none, remembered options or none; names of 64 and 128 bytes through a whole handshake",
 ),
 "C07": dict(
  harnesses={"c07_ack": H("accepted", "refused", **S8), "c07_garbage": H("ran", cost=2), "c07_address": H("ran"), "c07_scale": H("opened")},
  bounds="one open-ack: metadata as in C06, previous state without channel or with one in any non-open status, any channel (ids of 1-12 bytes, proposed version empty, of equal length, longer or another metadata text), own port of 7 or 13 bytes (the latter may be the contract's own port), every two of seven dimensions varied together; unparsable versions up to 3 (thorough: 4) ASCII bytes; names of 64 and 128 and account addresses of 44-128 bytes through a whole handshake, of 129 and more (also non-ASCII) refused",
 ),
 "C08": dict(
  harnesses={"c08_single": H("ack accepted", "ack refused", "init accepted", "init refused", **S8), "c08_race": H("opened", "second ack refused", cost=2), "c08_scale": H("ack", "init")},
  bounds="one open-init or open-ack of an arbitrary channel (also with the recorded id) in every stored status; every interleaving of 5 (thorough: 6) steps of two handshakes, create requests and counterparty closes; channel names of 33 and 64 bytes that differ in the last byte or in length",
 ),
 "C09": dict(
  harnesses={"c09_request": H("accepted", "refused"), "c09_step": H("close-confirm accepted", "close-init accepted", "refused", **S8), "c09_frame": H("ran", cost=2), "c09_scale": H("closed", "refused")},
  bounds="one close request or step from every status, permission and ordering; the named channel is arbitrary or differs from the recorded one in at most one field (all fields symbolic, 6-10 bytes); any one of 16 kinds of step for the frame; names of 33-128 and versions of 600 bytes that differ in the last byte or in length",
 ),
 "C10": dict(
  harnesses={"c10_host": H("confirm", "receive", "try"), "c10_scale": H("confirm", "receive", "try")},
  bounds="one open-try, open-confirm or packet receipt from every status and permission, with valid, empty or arbitrary channel and counterparty version, own port also the host port, packet data empty, arbitrary or a valid interchain-accounts packet; names up to 128 and packets up to 32769 bytes",
 ),
 "C11": dict(
  harnesses={"c11_timeout": H("other channel", "own channel", cost=2), "c11_replaced": H("new", "old"), "c11_scale": H("ran")},
  bounds="one timeout from every status and ordering; packet channel of 9 or 10 symbolic bytes or the recorded one; packet timeout as time, height or both; sequence in 256-value windows at 100, 1.7e18 and 2^64-256; three neighbouring query records; one history with two consecutive channels; channel names of 62-64 symbolic bytes sharing all but the last characters",
 ),
 "C12": dict(
  harnesses={"c12_packet": H("with queries", "without queries", **S8), "c12_memo": H("sent"), "c12_timeout": H("does not fit", "sent", cost=2), "c12_scale": H("sent")},
  bounds="0-3 (thorough: 4) messages, first of any of 17 kinds, 0-2 queries, given and default timeouts; memo absent or 0, 5, 40, 200 bytes, any 1-2 ASCII bytes, non-ASCII; any 64-bit block time; timeouts in 256-value windows incl. both overflow boundaries (thorough: any 64-bit value); account address of 5 bytes, channel of 9; sizes at and beyond common limits, with symbolic edges: memo up to 32769 bytes, up to 257 messages and 257 queries, 128-byte account address, 64-byte channel, every two of these sizes together",
 ),
 "C13": dict(
  harnesses={"c13_convert": H("converted", needs="msg", **S8), "c13_holes": H("converted", needs="msg"), "c13_raw": H("converted", needs="msg"), "c13_unicode": H("converted", needs="msg"), "c13_send": H("sent", cost=2), "c13_scale": H("converted", needs="msg"), "c13_votes": H("converted", needs="msg")},
  bounds="each of 17 message kinds alone: texts of 0, 4-8, 130 and more bytes, full 64/128-bit ranges for one number at a time (others at chosen windows), coin lists of 0-3, every optional field and vote option; the same through a full send request with short texts; non-ASCII texts; raw messages of any type text of 17 lengths, incl. the types of typed messages; sizes at and beyond common limits, with symbolic edges: texts and payloads up to 32769 bytes, up to 257 coins and vote options",
 ),
 "C14": dict(
  harnesses={"c14_convert": H("converted", needs="qry"), "c14_holes": H("converted", needs="qry"), "c14_raw": H("converted", "sent", needs="qry"), "c14_send": H("sent", **S8), "c14_scale": H("sent")},
  bounds="each of 13 query kinds and raw queries alone (texts of 0, 5-6, 130 bytes, any 32-bit page limit); raw queries with any path text of 10 lengths, incl. every typed query's path; requests of 1-3 (thorough: 4) queries, also repeated, with 0-4 (thorough: 6) messages, with and without memo, in every channel status, every two of these varied together; sizes at and beyond common limits, with symbolic edges: up to 257 queries, paths and payloads up to 32769 bytes",
 ),
 "C15": dict(
  harnesses={"c15_unsupported": H("bad message", "bad query", cost=2), "c15_state": H("refused", "sent", cost=2), "c15_complete": H("sent", **S8), "c15_scale": H("bad message", "bad query", "sent")},
  bounds="one unsupported message (4 kinds) or query (9 kinds) at every position among up to 2 messages and 2 queries; account absent, other known encoding, any 5-byte encoding; completeness for up to 3 (thorough: 5) messages and queries; one unsupported item first, in the middle or last among up to 257",
 ),
 "C16": dict(
  harnesses={"c16_reply": H("aborted", "recorded"), "c16_reply_garbage": H("aborted", "accepted"), "c16_resolve": H("acknowledged", "failed", "timed out", cost=2), "c16_frame": H("ran", cost=2), "c16_flow": H("answered", "failed", "timed out", cost=2), "c16_scale": H("acknowledged", "failed", "timed out")},
  bounds="reply with any 64-bit id and sequence, 1-2 (thorough: 3) queries, error replies, reply data of 1-2 (thorough: 3) arbitrary bytes and with a wrong wire type; resolution of one packet (three timeout forms) among three records (sequences differing in one bit, other channel); two query packets in flight resolved in either order; any one of 16 kinds of step for the frame; sizes at and beyond common limits, with symbolic edges: up to 257 queries per packet, paths up to 32769 bytes, up to 129 other records",
 ),
 "C17": dict(
  harnesses={"c17_success": H("count differs", "no queries", "responses", **S8), "c17_failure": H("no queries", "queries failed"), "c17_mixed": H("decoded", "undecodable", **S8), "c17_garbage": H("error result", "refused", **S8), "c17_scale": H("count differs", "responses"), "c17_error": H("failed")},
  bounds="one acknowledgement for a packet with 0-3 queries and 0-3 responses of a few symbolic bytes, alone or after other message responses, records of neighbouring packets present; heights in windows; error texts of 4 bytes; undecodable results of up to 3 arbitrary bytes; sizes at and beyond common limits, with symbolic edges: up to 258 responses after up to 129 others, payloads and error texts up to 32769 bytes",
 ),
 "C18": dict(
  harnesses={"c18_values": H("absent", "present", needs="resp", **S8), "c18_callback": H("error", "success", **S8), "c18_lengths": H("ran", needs="resp"), "c18_holes": H("ran", needs="resp"), "c18_no_balance": H("ran", needs="resp"), "c18_raw": H("raw", needs="resp"), "c18_bad_amount": H("error", "number", cost=2, needs="resp"), "c18_bad_rate": H("ran", needs="resp"), "c18_unknown": H("ran", needs="resp"), "c18_garbage": H("decoded", "error", needs="resp", **S8), "c18_scale": H("decoded", needs="resp")},
  bounds="each of 13 response kinds with texts of 0-9 (thorough: 17), 130 bytes, lists of 0-3, amounts of 1-3 symbolic digits, around 2^64 and 2^128-1, any 64-bit code id and 32-bit exponent, absent values; malformed amounts of up to 2 (thorough: 3) bytes; arbitrary response bytes of up to 3; raw data of 0-200 bytes; unknown paths; sizes at and beyond common limits, with symbolic edges: lists up to 257, texts and payloads up to 32769 bytes",
 ),
 "C19": dict(
  harnesses={"c19_open": H("no callback", "opened"), "c19_packets": H("acknowledged", "no callback", "timed out", **S8), "c19_steps": H("ran"), "c19_frame": H("close", "open-init", "reply"), "c19_update": H("later event", "refused", "updated", cost=2), "c19_scale": H("acknowledged", "timed out", **S8)},
  bounds="one event of each kind with symbolic 8-byte relayer, account and callback addresses (which may coincide), symbolic packet (data of 0-4 arbitrary bytes, three timeout forms, sequence and timestamps in 256-value windows, a pending query record of it or of another channel), acknowledgement, relayer, channel and account; account addresses up to 127 bytes; callback set, unset, changed or cleared just before; every execute and IBC entry point for the frame; sizes at and beyond common limits, with symbolic edges: packet data, results and error texts up to 32769 bytes, names up to 128",
 ),
 "C20": dict(
  harnesses={"c20_ack": H("failure", "success", cost=2), "c20_error_text": H("ran"), "c20_garbage": H("refused", "valid after all", cost=2), "c20_spacing": H("ran"), "c20_scale": H("failure", "success")},
  bounds="result of 0-4 arbitrary bytes, error text of up to 8 symbolic bytes and with ten kinds of special character (escapes, control, multi-byte) at four positions, bytes that are not UTF-8; every ASCII text of a few bytes as acknowledgement; JSON spacing variants; symbolic packet identity, sequence in 256-value windows, packets with time and height timeouts and without data; every channel status; sizes at and beyond common limits, with symbolic edges: results and error texts up to 32769 bytes, names up to 128",
 ),
 "C21": dict(
  harnesses={"c21_identity": H("migrated", "refused"), "c21_versions": H("migrated", "refused", cost=2), "c21_special": H("migrated", "refused"), "c21_twice": H("ran")},
  bounds="recorded name of any text of the right length or one off; versions: three symbolic digit groups of 1-2 digits, pre-release and build suffixes with symbolic characters, and malformed texts; account absent, protobuf, proto3json; any permission state; two migrations in a row",
 ),
 "C22": dict(
  harnesses={"c22_state": H("channel", "no channel", "state", cost=2), "c22_ownership": H("ownership"), "c22_missing": H("ran"), "c22_after_instantiate": H("ran"), "c22_scale": H("ran")},
  bounds="every query in every channel status, ordering and account situation with symbolic texts of 6-9 bytes; ownership record with every expiry kind; records missing; sizes at and beyond common limits, with symbolic edges: recorded texts up to 32769 bytes",
 ),
 "C23": dict(
  harnesses={"c23_contract": H("ran"), "c23_instantiate": H("ran"), "c23_instantiate2": H("built", "impossible salt", **S8), "c23_queries": H("ran", **S8), "c23_scale": H("instantiate"), "c23_scale_execute": H("built")},
  bounds="symbolic addresses, labels and admins of 0-12 bytes, any 64-bit code id, salts of 0, 1, 64 and 65 bytes, every execute message kind of the helper API; query answers with symbolic contents; sizes at and beyond common limits, with symbolic edges: texts up to 32769 bytes, up to 257 messages and queries",
  assumptions=["the chain's SHA-256 based address derivation is the instantiate2_address function of the cosmwasm-std library with concrete creator and checksum"],
 ),
 "C24": dict(
  harnesses={"c24_instantiate": H("parsed"), "c24_execute": H("parsed"), "c24_null_lists": H("ran"), "c24_malformed": H("ran"), "c24_callback": H("built", **S8), "c24_scale": H("built")},
  bounds="every documented message with all combinations of absent, null and present optional fields, symbolic texts of a few bytes; callbacks of every kind with symbolic contents; up to 257 messages and queries, memos up to 32769 bytes; malformed: unknown message kinds (symbolic names), truncated and mistyped JSON. Unknown extra members inside a known message are not required to be rejected (the serde attributes in use ignore them)",
 ),
 "C25": dict(
  harnesses={"c25_fresh": H("closed by a timeout", "closed by the counterparty", "opened", "recovered", shards=8, cost=4), "c25_opened": H("closed by a timeout", "closed by the counterparty", "opened", "recovered", shards=8, cost=5)},
  bounds="every sequence of 4 steps (thorough: 5) from instantiation and 3 (thorough: 4) from an open channel, then recovery: create with the same or (once) with other options, close, send with or without a query, stranger's open and close attempts, handshake completion, counterparty close, acknowledgement, error and timeout of any outstanding packet; up to 4 channels and 2 packets in flight; ordered, unordered and default channels (from instantiation, quick: unordered and default); symbolic connection ids, owner and account names (a reopened account may or may not be the previous one); callback contract configured or not",
  assumptions=["the simulated chain follows the IBC channel rules: packets only on open channels, acknowledgements only on open channels, an ordered channel closes on a timeout, a failing message reverts its transaction"],
 ),
 "C26": dict(
  harnesses={b + f: o for b in ("", "libq:", "lib0:") for f, o in {"c26_result": H("decoded", needs="lib"), "c26_refused": H("error", "refused", "valid after all", needs="lib"), "c26_query": H("found", "no such response", needs="lib"), "c26_query_many": H("found", "no such response", needs="lib"), "c26_query_garbage": H("decoded", "refused", needs="lib"), "c26_json": H("error", "result", needs="lib")}.items() if not (b == "lib0:" and "query" in f)},
  bounds="results of 0-3, 5, 33, 65, 101, 129 and 257 (query responses: up to 513) responses with symbolic types and values (up to 32769 bytes), old-style message data; undecodable results and responses: every text of up to 3 (thorough: 4) bytes; position 0-4 and the largest; query responses with any 64-bit height and 0-2 answers; error texts up to 60 bytes; in the contract build and the two library builds (with and without the query feature)",
 ),
 "C27": dict(
  harnesses={b + f: o for b in ("", "libq:", "lib0:") for f, o in {"c27_packet": H("built", "does not fit", needs="lib"), "c27_msgs": H("built", "unsupported encoding", needs="lib"), "c27_open": H("built", needs="lib"), "c27_types": H("ran", needs="lib")}.items()},
  bounds="packets of 0-3, 17 and 65 messages (bank, staking, raw) and up to 33 queries with symbolic texts, memo absent or up to 2000 bytes, any 64-bit block time, timeouts in three 256-value windows and the default; open requests with every optional argument and names of 0-128 bytes; all 7 statuses and both orderings; in the contract build and the two library builds (with and without the query feature)",
 ),
 "C28": dict(
  harnesses={b + f: o for b in ("libq:", "lib0:", "") for f, o in {"c28_callback": H("received", needs="lib"), "c28_messages": H("execute", "instantiate", needs="lib"), "c28_answers": H("state", needs="lib")}.items()},
  bounds="every callback kind with symbolic contents, three timeout forms, with and without a query result; every message of the library API with every combination of optional members; state answers with members absent, null, present and unknown; in the two library builds (with and without the query feature) and the contract build",
 ),
 "C29": dict(
  harnesses={"owner:c29_instantiate": H("instantiated", "refused"), "owner:c29_create": H("created", "refused"), "owner:c29_send": H("sent", "refused"), "owner:c29_callback": H("accepted", "opened", "refused"), "owner:c29_history": H("opened"), "owner:c29_many": H("opened")},
  bounds="symbolic admin, senders, recipients, accounts and channels of 6-44 bytes; up to 3 earlier controllers, histories of 4 (thorough: 5) steps, up to 257 controllers; salts of 0, 2-4, 64 and 65 bytes or the block time; two code ids with fixed checksums and a fixed contract address (the address derivation hashes them); any one action by the admin, the contract itself, a controller, a near miss of one or any other 8-byte account; ids 0-2, 256, 2^32+1 and the largest",
 ),
 "C30": dict(
  harnesses={"counter:c30_record": H("recorded", **S8), "counter:c30_many": H("recorded", "again", **S8)},
  bounds="every sequence of 3 (thorough: 4) callback kinds, the last with symbolic contents, three timeout forms and four query results; up to 81 callbacks, also a repeated one; error texts of 0, 4 and 130 bytes; any sender, block and funds",
 ),
}
