API = "crates/ethportal-api/src/"
T = API + "types/"
RM = "runtime monitoring: "
PROPS = [
 dict(id="K01", title="Content keys have one byte form, one text form and the prescribed content id",
  statement="Every content key of the history, legacy history, beacon and state networks has exactly one byte form (selector byte followed by the prescribed fields) and one hex text form, and reading either returns the same key. Byte strings of any other shape, length or selector are refused without crashing. The content id is the prescribed one for each kind of key: the SHA-256 digest of the byte form, or the number-derived id that spreads consecutive blocks.",
  over=["inputs"], q="every key of every network, every byte string near a valid one",
  why="Unit tests fix one or two sample keys per kind; they neither show that the byte form is unique nor that malformed keys are refused.",
  files=[T+"content_key/history.rs", T+"content_key/legacy_history.rs", T+"content_key/beacon.rs", T+"content_key/state.rs", T+"content_key/overlay.rs"],
  mech=[("selector dispatch", T+"content_key/*"), ("content id derivation", T+"content_key/overlay.rs content_id")],
  observe=["accepted keys, written bytes, text and content ids"],
  technique=RM+"generated and mutated byte strings against an independent key parser and id computation, panic and allocation monitors",
  level_note="random fields with boundary values; every selector; single-byte mutations, truncations and extensions"),
 dict(id="K02", title="Content values survive reading and writing, and malformed ones are refused",
  statement="Every well-formed content value of each network is read under its key as the right kind (header proofs by fork, state values with or without proof, beacon objects by fork digest) and written back byte for byte. Values that are truncated, over a size limit, of an unknown fork, or of another key's type are refused, and no byte string crashes the reader or makes it use memory out of proportion to its size. A value that is accepted is stable: writing it and reading it again changes nothing.",
  over=["inputs"], q="every value of every network and fork, damaged values, arbitrary bytes under every key",
  why="Unit tests read a handful of recorded values; they cannot cover fork boundaries, limits and hostile bytes.",
  files=[T+"content_value/beacon.rs", T+"content_value/history.rs", T+"content_value/legacy_history.rs", T+"content_value/state.rs", T+"execution/header_with_proof.rs", T+"execution/block_body.rs", T+"execution/receipts.rs"],
  mech=[("proof kind chosen by header time and number", T+"execution/header_with_proof.rs"), ("fork digest prefix", T+"content_value/beacon.rs"), ("with-proof or plain form", T+"content_value/state.rs")],
  observe=["accepted values, written bytes, memory use"],
  technique=RM+"values written by an independent encoder, damaged values, allocation and panic monitors",
  level_note="random values of all kinds and forks with boundary timestamps, block numbers and list limits"),
 dict(id="K03", title="Wire messages have exactly the prescribed byte form",
  statement="Ping, pong, find-nodes, nodes, find-content, content, offer and accept messages are written in the prescribed layout and read back with identical fields. Bytes of any other layout, beyond the prescribed limits, with trailing bytes or with an unknown selector are refused without crashing. An accepted message is written back as the same bytes.",
  over=["inputs"], q="every message of every kind, every byte string near a valid one",
  why="Unit tests fix one example per message kind.",
  files=[T+"portal_wire.rs"], mech=[("union selector", T+"portal_wire.rs Message"), ("list and byte limits", T+"portal_wire.rs")],
  observe=["accepted messages, fields and written bytes"],
  technique=RM+"messages from an independent encoder and a layout parser deciding acceptance of mutated bytes",
  level_note="random messages with boundary list lengths; truncation, extension, offset and selector mutations"),
 dict(id="K04", title="The distance between identifiers is their XOR as a big-endian number",
  statement="The distance of two 256-bit identifiers is their bytewise XOR read as a big-endian number: symmetric, zero exactly for equal identifiers, and different for different targets. Its ordering, logarithm (position of the highest set bit, none for zero), leading bytes, JSON and binary forms agree with that number. A random node id drawn for a bucket lies exactly in that bucket, and a set of spread-out node ids covers every value of the leading bits once.",
  over=["inputs"], q="every pair of identifiers, in particular pairs sharing a prefix or differing in one bit; every bucket",
  why="Unit tests compute a few distances; ordering, logarithm at every bit and text forms are not covered.",
  files=[T+"distance.rs", T+"node_id.rs"], mech=[("xor metric", T+"distance.rs"), ("bucket-targeted random id", T+"node_id.rs")],
  observe=["distances, their order, logarithm and forms; drawn ids"],
  technique=RM+"generated pairs against a byte-level reference",
  level_note="every logarithm 1..256 and every bucket; random pairs with shared prefixes"),
 dict(id="K05", title="Ping payloads are accepted exactly when they match their extension",
  statement="A ping or pong payload is accepted for an extension number exactly when it has that extension's layout and limits, carries the written values, and is written back byte for byte and converted to JSON and back without loss. Unknown extension numbers and malformed payloads are refused without crashing. Client descriptions are accepted exactly in the form name, version and commit, system and architecture, language version.",
  over=["inputs"], q="all 65536 extension numbers, every payload near a valid one",
  why="Unit tests fix one payload per extension.",
  files=[T+"ping_extensions/decode.rs", T+"ping_extensions/extension_types.rs", T+"ping_extensions/extensions/type_0.rs", T+"ping_extensions/extensions/type_1.rs", T+"ping_extensions/extensions/type_2.rs", T+"ping_extensions/extensions/type_65535.rs"],
  mech=[("dispatch on extension number", T+"ping_extensions/decode.rs"), ("client description parser", T+"ping_extensions/extensions/type_0.rs")],
  observe=["accepted payloads, their values, bytes and JSON"],
  technique=RM+"generated and mutated payloads against an independent layout parser",
  level_note="exhaustive over extension numbers; random payloads with boundary lengths"),
 dict(id="K06", title="Peers settle on the highest protocol version both support",
  statement="The version used with a peer is the highest one listed by both sides; a peer that lists none is treated as version 0, and an undecodable list or disjoint lists are reported as errors rather than guessed. Protocol ranges negotiate their highest common version only on the same chain, inverted ranges are refused and unknown trailing fields ignored. Accept lists hold at most 64 answers and keep every answer in the newer encoding, and in the older one whether each item was accepted.",
  over=["inputs", "configurations"], q="all version lists up to ten entries, all version ranges, all accept lists and hostile bytes for each",
  why="Unit tests cover a few fixed lists per network.",
  files=[T+"accept_code.rs", T+"protocol_versions.rs", T+"protocol_info.rs", T+"network_spec.rs"],
  mech=[("version choice", T+"network_spec.rs latest_common_protocol_version"), ("range intersection", T+"protocol_info.rs"), ("accept list encodings", T+"accept_code.rs")],
  observe=["chosen version or error; decoded and encoded lists"],
  technique=RM+"generated lists, ranges and records against a set-based reference",
  level_note="random lists with duplicates and unknown versions; all lengths of accept lists"),
 dict(id="K07", title="A body or receipt list is accepted only for the header that commits to it",
  statement="A block body is accepted for a header exactly when its transactions, uncles and withdrawals hash to the header's commitments, including that withdrawals are present exactly when the header commits to them. Receipts are accepted exactly when they hash to the header's receipts root. Any single dropped, added, reordered, altered or invented element is refused, in every fork and in both the older and newer encodings.",
  over=["inputs"], q="blocks of every era from frontier to prague with every kind of single tampering",
  why="Unit tests validate a few recorded blocks and hardly any tampered ones.",
  files=[T+"execution/block_body.rs", T+"execution/receipts.rs"],
  mech=[("ordered trie root over encoded items", T+"execution/block_body.rs"), ("optional withdrawals commitment", T+"execution/block_body.rs")],
  observe=["accept or refuse verdict for body and receipts"],
  technique=RM+"generated blocks with an independent trie and RLP, single tamperings, recorded mainnet blocks",
  level_note="random blocks of all eras up to a few dozen transactions; recorded mainnet bodies and receipts"),
 dict(id="K08", title="Following a path through trie nodes reaches exactly the stored value",
  statement="Walking from a state root along a path, node by node, reaches exactly the value stored under that path, or reports that nothing is there; each step names the next node's hash and the part of the path left. Nodes are hashed and re-encoded to the same bytes, paths are packed and unpacked without loss with malformed packings refused, and accounts keep their four fields. Damaged nodes never crash the walk.",
  over=["inputs"], q="tries with shared prefixes, inline nodes, branches with and without values; arbitrary paths and packings",
  why="Unit tests traverse a handful of hand-made nodes.",
  files=[T+"state_trie/trie_traversal.rs", T+"state_trie/nibbles.rs", T+"state_trie/utils.rs", T+"state_trie/account_state.rs", T+"state_trie/mod.rs"],
  mech=[("per-node step", T+"state_trie/trie_traversal.rs"), ("inline or hashed child", T+"state_trie/utils.rs"), ("odd and even packing", T+"state_trie/nibbles.rs")],
  observe=["traversal results, hashes, re-encoded nodes, packed paths"],
  technique=RM+"random tries built by an independent trie builder, walked with an independent walker",
  level_note="random tries up to 40 keys; paths of every length 0..66"),
 dict(id="K10", title="Consensus objects hash to the specified roots and yield verifying proofs",
  statement="Beacon blocks, bodies, states, payloads, light-client objects and their parts are read and written in the layout the consensus specification gives for each fork, and hash to the specified root. Proofs built for the execution block hash, the historical summaries and a block inside its period verify against those roots at the specified positions. Malformed bytes, foreign fork digests and JSON keys or signatures of the wrong length are refused without crashing.",
  over=["inputs"], q="objects of all four forks with all list sizes, damaged bytes",
  why="The recorded consensus fixtures are absent from the checkout, so most fork-specific code is not executed by any test.",
  files=[T+"consensus/beacon_block.rs", T+"consensus/beacon_state.rs", T+"consensus/body.rs", T+"consensus/execution_payload.rs", T+"consensus/execution_requests.rs", T+"consensus/historical_summaries.rs", T+"consensus/proof.rs", T+"consensus/light_client", T+"execution/header_with_proof.rs"],
  mech=[("field lists per fork", T+"consensus"), ("proof leaf positions", T+"consensus/body.rs build_execution_payload_proof"), ("requests hash", T+"consensus/execution_requests.rs")],
  observe=["written bytes, hash tree roots, proofs"],
  technique=RM+"objects generated from an independent schema with its own serializer, merkleizer and proof builder",
  level_note="random objects of all forks with small lists; period proofs over 8192 roots"),
 dict(id="K11", title="The JSON-RPC vocabulary and query traces are faithful",
  statement="Every API call sends its documented method name with its parameters in order and documented form, and understands the documented answer. Answers, including content found, pages, accept lists, offers and traces, keep their JSON form when read and written. A query trace reports exactly what happened: each node's answers and failures, the newest record of each node with its distance, and the first node whose content was validated.",
  over=["inputs", "histories"], q="all calls of the portal, discv5 and web3 namespaces; random event histories of a query",
  why="No test covers method names or parameter forms; the trace tests use two or three nodes.",
  files=[API+"legacy_history.rs", API+"history.rs", API+"beacon.rs", API+"state.rs", API+"discv5.rs", T+"portal.rs", T+"query_trace.rs", T+"discv5.rs"],
  mech=[("method names", API+"*.rs"), ("record replacement rule", T+"query_trace.rs add_metadata")],
  observe=["recorded calls, decoded answers, trace contents"],
  technique=RM+"calls recorded at the transport and compared with the documented form; trace compared with an event model",
  level_note="each call of each namespace; random histories over five nodes"),
 dict(id="K12", title="Networks map subnetworks and slots to the specified identifiers and times",
  statement="On each network every subnetwork has its specified protocol identifier, the identifier maps back to the same subnetwork, and every other identifier is refused. A slot starts twelve seconds times its number after the network's genesis, and the current slot is the one the clock is in.",
  over=["inputs", "configurations"], q="all 16-bit identifiers, all subnetworks, slots up to 2^28 on each network",
  why="Unit tests look up a few identifiers.",
  files=[T+"network_spec.rs", T+"network.rs"], mech=[("identifier tables", T+"network_spec.rs"), ("slot clock", T+"network_spec.rs slot_to_timestamp")],
  observe=["identifier lookups, slot times"],
  technique=RM+"exhaustive lookup against the specified tables",
  level_note="exhaustive over identifiers; random slots"),
]
