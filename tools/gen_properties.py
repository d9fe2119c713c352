#!/usr/bin/env python3
"""Source of properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, state=[], observe=[]):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))
C, HS, RL, PK, ST, MD, CM, QM, CB, HP, MS, EV, SG = ("src/contract.rs", "src/ibc/handshake.rs", "src/ibc/relay.rs", "src/ibc/types/packet.rs", "src/types/state.rs", "src/ibc/types/metadata.rs", "src/types/cosmos_msg.rs",
    "src/types/query_msg.rs", "src/types/callbacks.rs", "src/helpers.rs", "src/types/msg.rs", "src/ibc/types/events.rs", "src/ibc/types/stargate.rs")
OW, CC = "testing/contracts/cw-ica-owner/src/", "testing/contracts/callback-counter/src/"

p("C01", "Only the owner can make the contract act",
  "Creating a channel, closing the channel, sending messages or queries, changing the callback address and proposing a new owner succeed only when the caller is the recorded owner; any other caller (a proposed owner, the callback contract, the contract itself, a look-alike address) is refused. A well-formed request by the owner is not refused for lack of authority, and without a recorded owner nobody can act.",
  ["inputs", "configurations"], "every caller, every owner, every kind of execute message, every recorded state",
  "The unit tests call two messages with one hard-coded non-owner; the guarantee is about every caller and every message.",
  [C], [("owner assertion at the head of every execute handler", C)], [("ownership", "current owner, proposed owner, deadline", "cw-ownable storage item")], ["result of execute"])
p("C02", "Ownership moves only by proposal and acceptance and is never given up",
  "Only the owner can propose a new owner (a valid address, with an optional deadline; a new proposal replaces the old one), and ownership moves only when exactly the proposed account accepts strictly before the deadline, which clears the proposal and ends the previous owner's rights. Renouncing ownership always fails. Ownership actions change nothing else and send no message.",
  ["inputs", "histories"], "every ownership record, caller, action, deadline kind, block height and time; every bounded sequence of actions",
  "No test exercises ownership transfer at all; deadlines and sequences of proposals are unbounded.",
  [C], [("update_ownership with the renounce guard", C)], [("ownership", "current owner, proposed owner, deadline", "cw-ownable storage item")], ["result of execute", "ownership query"])
p("C03", "Instantiation establishes exactly the configured initial state",
  "After a successful instantiation the owner is the configured owner, or the instantiator if none was configured, the callback address is the configured one (or none), no interchain account and no channel are recorded, the contract name and version are recorded for later migrations, and the channel options are remembered as given. Instantiation fails exactly when the owner or callback address is not a valid address, and on success it sends exactly one message, the channel-open request, which the following channel handshake is allowed to use.",
  ["inputs", "configurations"], "every instantiate message and instantiator",
  "One test instantiates once with all optional fields absent.",
  [C, ST], [("instantiate", C)], [("state, options, open permission", "initial records", ST)], ["response of instantiate", "queries afterwards"])
p("C04", "Every channel-open request carries the configured options",
  "Each channel-open request the contract sends names the contract's own port and the contract as signer, the configured connection as its only hop, the configured counterparty port (the host port by default), the configured ordering (ordered by default), an empty counterparty channel, and a version string with the ICS-27 version, both connection ids, an empty account address, protobuf encoding and the multi-message transaction type. A create-channel request with options remembers them; without options it reuses the ones remembered last, and it fails if there are none.",
  ["inputs", "configurations", "histories"], "every option set, contract address, remembered options; instantiation and create-channel",
  "The test compares the message with the output of the very function that builds it, for one option set.",
  [C, SG, MD, MS], [("new_ica_channel_open_init_cosmos_msg", SG), ("create_channel", C)], [("channel_open_init_options", "options used last", ST)], ["messages of instantiate and execute"])
p("C05", "A channel handshake starts only when the contract asked for it, once",
  "An open-init step is accepted only if the contract requested a channel (by instantiation or by the owner's create-channel request) and no open-init step has been accepted since; every accepted open-init step uses up the permission, so a relayer can neither start a handshake on its own nor repeat one. Permission to open never depends on anything but those requests, and no step other than an accepted open-init takes it away.",
  ["inputs", "schedules", "histories"], "every open-init message, every permission state, every relayer-chosen order of steps",
  "Needs arbitrary relayer-chosen interleavings; the unit tests contain no handshake calls.",
  [HS, C], [("allow_channel_open_init flag", HS)], [("allow_channel_open_init", "one-shot permission", ST)], ["result of ibc_channel_open"])
p("C06", "Open-init accepts exactly valid ICS-27 proposals and answers with valid metadata",
  "With permission and no open channel, an open-init step is accepted exactly when the counterparty port is the host port and the proposed version parses as ICS-27 metadata with version ics27-1, the channel's own connection, protobuf encoding, the multi-message transaction type and an account address that is empty or at most 128 alphanumeric characters; the answer is that same metadata. With an empty proposed version the contract reuses the metadata of the stored channel if that parses, else builds it from the remembered options, which must name the same connection, and the result is subject to the same conditions. No account or channel is recorded by this step.",
  ["inputs", "configurations"], "every channel, every proposed version text of the metadata shape, stored channel or none, remembered options or none",
  "Tests validate two metadata values by hand; text and identifiers range over all strings.",
  [HS, MD], [("ibc_channel_open::init", HS), ("IcaMetadata::validate / from_channel", MD)], [], ["result of ibc_channel_open"])
p("C07", "Open-ack records exactly the acknowledged account and channel",
  "An accepted open-ack step records the account address and encoding from the counterparty's metadata together with this channel's id, and records the channel, with the counterparty's version, as open; everything else, including the callback address, stays as it was. It is refused, recording nothing, when the metadata does not parse or fails the same conditions as at open-init, when the account address is empty, or when the contract's side claims the host port.",
  ["inputs", "configurations"], "every channel and counterparty version of the metadata shape, every previous state",
  "No unit test calls the open-ack entry point.",
  [HS, MD, ST], [("ibc_channel_open::on_acknowledgement", HS)], [("state.ica_info, ica_channel", "account and channel record", ST)], ["GetContractState and GetChannel afterwards"])
p("C08", "At most one channel is active at any time",
  "While the recorded channel is open, neither an open-init nor an open-ack step for any channel is accepted, so the contract never abandons or replaces an open channel. Once the recorded channel is closed, a new channel can be opened and takes its place.",
  ["inputs", "histories", "schedules"], "every stored channel status, every second channel, every order of handshake steps of two concurrent handshakes",
  "Requires two overlapping handshakes interleaved arbitrarily.",
  [HS, ST], [("ActiveChannelAlreadySet check", HS)], [("ica_channel.channel_status", "open or closed", ST)], ["result of ibc_channel_open / ibc_channel_connect"])
p("C09", "A channel closes only with consent, and only the recorded open channel",
  "A close-init step is accepted only after the owner's close request, which one accepted close-init uses up; the owner's close request is accepted only while the channel is open and sends exactly one message, closing that very channel. A close-init or close-confirm step is accepted only for exactly the recorded channel and only while it is open; it then marks it closed and changes nothing else, so account and channel details survive closing.",
  ["inputs", "configurations", "histories"], "every channel named by the step, every stored channel, status and permission",
  "No unit test calls a close entry point.",
  [HS, C], [("ibc_channel_close::init / confirm", HS), ("close_channel", C)], [("allow_channel_close_init", "one-shot permission", ST)], ["result of ibc_channel_close", "messages of execute"])
p("C10", "The contract never acts as a host",
  "An open-try step, an open-confirm step and the receipt of any packet always abort the transaction, whatever the contract's state, so they never have any effect.",
  ["inputs", "configurations"], "every message of these kinds in every state",
  "Not exercised by unit tests; must hold for every state.",
  [HS, RL], [("unreachable branches", HS), ("ibc_packet_receive", RL)], [], ["outcome of the entry points"])
p("C11", "A timeout closes exactly the affected ordered channel",
  "When a packet times out, the recorded channel is marked closed if and only if it is ordered and the packet was sent on it; an unordered channel, or a different, newer channel, stays as it is, and account and channel details are kept. The timeout is otherwise always processed: the packet's query bookkeeping is dropped, that of other packets is kept, and no error results from its content.",
  ["inputs", "histories", "fault_sequences"], "every packet, every stored channel and status, every set of outstanding query packets",
  "Timeouts of packets from an earlier channel need a multi-step history with faults; no unit test calls the timeout entry point.",
  [RL, ST], [("ibc_packet_timeout", RL)], [("ica_channel", "channel record", ST), ("pending_queries", "outstanding query packets", ST)], ["GetChannel afterwards"])
p("C12", "Sent packets are addressed, typed, ordered and timed as requested",
  "An accepted send request produces exactly one packet, on the channel of the recorded interchain account, of the execute-transaction type, whose transaction holds exactly the requested messages in the requested order (and the query message last if queries were given), with the memo exactly as given (absent if none). Its timeout is the block time plus the requested number of seconds, 600 by default, with no block-height timeout; a timeout that does not fit aborts the request. A reply is requested, on success only, exactly when queries were given.",
  ["inputs", "configurations"], "every list of supported messages up to the bound, memo, timeout, block time, account",
  "Tests check the conversion of two single messages; order, memo, timeout arithmetic and overflow are unbounded.",
  [C, PK], [("send_cosmos_msgs", C), ("IcaPacketData::to_ibc_msg", PK)], [("state.ica_info", "account", ST)], ["messages of execute"])
p("C13", "Every supported message converts without loss, signed by the interchain account",
  "Each supported message (bank send, IBC transfer, wasm execute/instantiate/instantiate2/migrate/update-admin/clear-admin, gov vote and weighted vote, staking delegate/undelegate/redelegate, distribution reward withdrawal/withdraw address/community pool) becomes the protobuf message of the corresponding type with every field carried over unchanged and the interchain account as its sender, signer, voter or delegator. Raw protobuf messages pass through byte for byte.",
  ["inputs"], "every message of the supported kinds: all texts, amounts, ids, coin lists, optional fields, timeouts up to the bounds",
  "Two messages with fixed contents are compared in the unit tests; 17 message kinds have free fields.",
  [CM], [("convert_to_proto_any", CM)], [], ["packet data of execute"])
p("C14", "Queries convert without loss into one query message after the messages",
  "Requested queries travel, in the requested order, in one module-query-safe message signed by the interchain account and placed after all messages; each supported query (bank balance, all balances, supply, denom metadata, all denom metadata; wasm raw, smart, contract info; staking validator, all validators, delegation, all delegations, bonded denom) becomes the gRPC path of that query with a request holding exactly the given fields. Raw gRPC queries keep their path and bytes.",
  ["inputs"], "every query of the supported kinds, lists up to the bound",
  "Unit tests do not cover query conversion.",
  [QM, PK], [("query_to_protobuf", QM), ("from_cosmos_msgs", PK)], [], ["packet data of execute"])
p("C15", "Unsupported content aborts the whole request",
  "A send request fails as a whole, sending nothing and recording nothing, if any of its messages or queries is of an unsupported kind, wherever it stands in the list, if no interchain account is recorded yet, or if the account's encoding is not protobuf. Nothing is ever silently dropped or partially sent.",
  ["inputs", "configurations"], "every position and kind of unsupported item, every state without account or with another encoding",
  "Needs all kinds at all positions; unit tests have none.",
  [CM, QM, PK, C], [("panics and errors of the converters", CM)], [], ["result of execute"])
p("C16", "Outstanding query packets are tracked exactly until they are resolved",
  "When the chain confirms that a query packet was sent, its queries are recorded under the account's channel and the sequence number the chain assigned, without disturbing other packets' records. A packet's record disappears when the packet is acknowledged, successfully or not, or times out, and at no other time; unknown or failed replies abort.",
  ["inputs", "histories", "schedules", "fault_sequences"], "every sequence number, channel, set of outstanding packets and order of acknowledgements, errors and timeouts",
  "Several packets in flight with arbitrary completion order and faults; no unit test calls reply, ack or timeout.",
  [C, RL, ST], [("reply::send_query_packet", C), ("PENDING_QUERIES", ST)], [("pending_query, pending_queries", "queries in flight", ST)], ["callback contents later"])
p("C17", "Query results reach the callback exactly for packets that asked",
  "The acknowledgement callback carries a query result if and only if the acknowledged packet contained queries: the decoded responses, in request order and with the host's height, for exactly that packet's queries on success, and an error result if the packet failed, if the number of responses differs, or if a response cannot be decoded (an acknowledgement whose result holds no query response at all may instead be refused as a whole; responses are never made up). Queries are matched by the packet's source channel and sequence, never by position or arrival order.",
  ["inputs", "histories", "schedules"], "every acknowledgement, every set of outstanding query packets, several channels and sequences",
  "Matching under out-of-order acknowledgements of several packets cannot be sampled; no unit test exercises acknowledgements.",
  [RL, QM, PK], [("ibc_packet_ack::success / error", RL), ("result_from_response", QM)], [("pending_queries", "queries in flight", ST)], ["callback message"])
p("C18", "Host query responses are decoded faithfully",
  "For each supported query kind, the response reported to the callback holds exactly the values of the host's protobuf response: coins with exact amounts, metadata, delegations with delegator, validator and balance, validators, contract info, raw and smart contract data, in the host's order; an absent value is reported as absent (or empty) and never invented. Raw gRPC responses are passed on byte for byte with their path, and undecodable data becomes an error result, never a wrong value.",
  ["inputs"], "every host response message of each kind up to the bounds",
  "Unit tests do not decode any query response.",
  [QM], [("from_protobuf::response", QM)], [], ["callback message"])
p("C19", "Exactly one callback per event, if and only if one is configured",
  "On an accepted open-ack, acknowledgement or timeout, the contract sends exactly one message, an execute call (no funds, no gas limit, no reply) to the configured callback address carrying the event's data unchanged (channel, account address and encoding; acknowledgement, original packet and relayer; original packet and relayer); with no callback configured it sends none. Open-init, closing and replies never send messages, and the owner can change or clear the callback address at any time, to a valid address, with effect on all later events and on nothing else.",
  ["inputs", "configurations", "histories"], "every event and content, callback configured or not, changed or cleared before the event",
  "Unit tests only check that the address is stored.",
  [HS, RL, CB, C], [("into_cosmos_msg", CB), ("update_callback_address", C)], [("state.callback_address", "callback target", ST)], ["messages of the IBC entry points"])
p("C20", "Acknowledgements are interpreted exactly and passed on unchanged",
  "An acknowledgement is treated as success or failure exactly as its JSON says, with the result bytes or error text passed on unchanged, and anything that is neither is refused. Every processed acknowledgement emits one event identifying the packet by sequence, source port and source channel, carrying the base64 result or the error text. Acknowledging changes no account, channel, owner, option or permission.",
  ["inputs", "configurations"], "every acknowledgement content within the bound, every packet, every state",
  "The unit test parses two acknowledgements; contents and packets are arbitrary.",
  [RL, PK, EV], [("ibc_packet_ack", RL), ("events::packet_ack", EV)], [], ["events of ibc_packet_ack"])
p("C21", "Migration only moves forward and never strands an incompatible account",
  "Migration succeeds exactly when the recorded contract name is this contract's, the recorded version is a valid semantic version strictly older than the running one (pre-releases ordered as semver orders them), and the recorded account, if any, uses protobuf encoding. It then records the running name and version and changes nothing else.",
  ["inputs", "configurations"], "every recorded name and version up to the bound, every account record",
  "The tests migrate from three hard-coded versions.",
  [C], [("validate_semver, validate_channel_encoding", C)], [("contract_info", "cw2 record", "cw2")], ["result of migrate"])
p("C22", "Queries report the recorded state and change nothing",
  "The contract-state, channel and ownership queries return exactly what is recorded: account, callback address, channel with its status, owner, proposed owner and deadline. They work in every state where the record exists, fail when it does not, and never alter anything.",
  ["inputs", "configurations"], "every recorded state",
  "One query is exercised in one state.",
  [C, ST], [("query", C)], [], ["query responses"])
p("C23", "Helpers for other contracts build exactly the calls they name",
  "The helper types build execute, migrate, admin-change, admin-clear, instantiate and instantiate2 messages addressed to the wrapped contract or code id, carrying the given message as the contract itself parses it, without funds, and with label, admin and salt unchanged; the address returned with an instantiate2 message is the one the chain derives for that message, creator and salt. Query helpers ask the wrapped contract for what they name and return its answer unchanged.",
  ["inputs"], "every address, code id, message, label, admin, salt and answer up to the bounds",
  "The helpers have no unit tests.",
  [HP], [("CwIcaControllerContract, CwIcaControllerCode, CwIcaControllerContractQuerier", HP)], [], ["returned messages and answers"])
p("C24", "The JSON interface is stable and tolerant of absent optional fields",
  "Every documented message parses from its documented JSON form with optional fields absent or null, and a null message list or a null or absent query list means empty. Callback messages have the documented JSON form, which the receiving side parses back to the same content, with the query result omitted when there is none; malformed messages and unknown message kinds are rejected.",
  ["inputs"], "every documented message and callback with all combinations of absent, null and present fields and arbitrary texts",
  "Only one acknowledgement form and one metadata form are parsed in unit tests.",
  [MS, CB, PK, MD], [("serde attributes of the message types", MS), ("IcaControllerCallbackMsg", CB)], [], ["message parsing"])
p("C25", "The contract's view follows the chain through any history",
  "Whatever the owner, the relayers and the counterparty do, in any order, the recorded account and channel are those of the channel acknowledged last, the contract reports that channel as open exactly while it is open on the chain, and packets go to that channel. After the channel closes, for whatever reason, the owner can open a new one, and outstanding query packets of the old channel still resolve under their own channel and sequence.",
  ["histories", "schedules", "fault_sequences"], "every bounded sequence of create, open-init, open-ack, close, send, acknowledgement, error and timeout steps on a simulated chain",
  "Exponentially many interleavings of owner, relayer and counterparty actions.",
  [C, HS, RL, ST], [("all entry points together", C)], [("all records", "", ST)], ["queries and packets after each step"])
p("C26", "Acknowledgements decode to exactly the transaction result they carry",
  "For library users: a successful acknowledgement decodes to the host's transaction result with every message response unchanged and in order; the query response at a given position (or the last one) is exactly the one the host put there, with its height and answers unchanged. An error acknowledgement, a position beyond the last response and undecodable bytes are reported as errors, never as a wrong value and never by aborting. The JSON form is {\"result\": base64} or {\"error\": text} in both directions.",
  ["inputs"], "every acknowledgement up to the bounds, every position; contract build and library builds with and without the query feature",
  "The only unit test parses two JSON texts; nothing decodes a result.",
  [PK], [("acknowledgement::Data::to_tx_msg_data, decode_module_query_safe_resp, ..._last_index", PK)], [], ["returned values"])
p("C27", "The library's packet and request builders produce what they are given",
  "For library users, in every feature configuration: packets built from raw messages or chain messages have execute type, carry exactly those messages in order, signed by the given account, followed by one query message if there are queries, and the given memo; the unsupported encoding or an unsupported message yields no packet. The send message names the given channel and a timestamp timeout of block time plus the given seconds (600 by default), or is refused if that does not fit. The channel-open builder and the metadata text carry every given field with the documented defaults. The channel and account state types report and change exactly what they name.",
  ["inputs", "configurations"], "every message list, query list, memo, block time, timeout, option set and state up to the bounds; three feature configurations",
  "The builders are exercised by one unit test with concrete values, and never in the reduced feature configurations.",
  [PK, SG, MD, ST, MS, CM], [("IcaPacketData::from_proto_anys, from_cosmos_msgs, to_ibc_msg", PK), ("new_ica_channel_open_init_cosmos_msg", SG), ("ChannelState, ContractState", ST)], [], ["returned values"])
p("C28", "Contracts built on the library, with or without queries, interoperate",
  "A receiver built on this library, with or without its query feature, understands every callback the controller sends, including those with a query result, with acknowledgement, packet, relayer, channel and account unchanged. Messages that such a contract builds have the documented JSON form with absent optional members left out, and parse back to themselves. State answers parse with members absent, null or unknown.",
  ["inputs", "configurations"], "every callback, message and answer up to the bounds in the library builds with and without the query feature",
  "The tests are built with all features; the reduced configurations are only compiled.",
  [CB, MS, ST, "derive/src/lib.rs"], [("IcaControllerCallbackMsg", CB), ("ica_callback_execute", "derive/src/lib.rs"), ("ExecuteMsg, InstantiateMsg", MS)], [], ["message parsing and building"])
p("C29", "Owner example contract: only its admin acts; controllers are kept apart",
  "For the contract in testing/contracts/cw-ica-owner: only the admin fixed at instantiation (the one given, or else the instantiator) can create controllers or send through them. A creation emits exactly one instantiate2 message for the configured code, without funds, carrying the given options, with the contract itself as owner, callback target and administrator and the given salt (or the block time in seconds), and records the address the chain derives for it under the next id. A send emits one request to the controller with that id and nothing else. Callbacks are taken from the created controllers only; an opened channel updates the caller's own record to that account and channel, every other callback changes nothing.",
  ["inputs", "histories"], "every admin, sender, id, salt, option set and callback up to the bounds; every bounded history of creations, callbacks and sends",
  "The contract has no unit tests; the e2e suite needs a running chain.",
  [OW + "contract.rs", OW + "state.rs", OW + "msg.rs"], [("create_ica_contract, send_predefined_action, ica_callback_handler", OW + "contract.rs")], [("controller records, address index and count", "", OW + "state.rs")], ["messages and query answers"])
p("C30", "The callback example contract records every packet outcome exactly once",
  "For the contract in testing/contracts/callback-counter: it starts with empty lists; every acknowledgement with a result, acknowledgement with an error and timeout it is called with is appended, with its full content, to exactly the list of its kind, in the order received and even when the same callback comes again; an opened channel is accepted and recorded in none. Its query returns the lists as they are.",
  ["inputs", "histories"], "every bounded sequence of callbacks with arbitrary contents",
  "The contract has no unit tests; the e2e suite needs a running chain.",
  [CC + "contract.rs", CC + "state.rs", CC + "msg.rs"], [("ica_callback_handler", CC + "contract.rs")], [("callback lists", "", CC + "state.rs")], ["query answers"])
with open(f"{V}/properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
