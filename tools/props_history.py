P = "crates/subnetworks/legacy-history/src/"
A = "crates/ethportal-api/src/types/"
RM = "runtime monitoring: "
PROPS = [
 dict(id="H01", title="Block contents are accepted exactly if they belong to the chain",
  statement="A header is accepted exactly if its hash or number is the one asked for and its proof shows it to be part of the chain; a body or receipts exactly if they are what the header with that hash commits to and such a header can be found. Any other bytes, including right ones followed by anything, are refused without a crash.",
  over=["inputs"], q="every block of every era, every alteration of it, its proof and its key, with the header known, unknown or unreadable",
  why="Tests use about ten recorded blocks and single alterations of them.",
  files=[P+"validation.rs", A+"execution/block_body.rs", A+"execution/receipts.rs", A+"execution/ssz_header.rs", "crates/validation/src/header_validator.rs"],
  mech=[("judging of content", P+"validation.rs validate_content"), ("commitments of a header", A+"execution/block_body.rs validate_against_header"), ("strict reading", A+"execution/ssz_header.rs")],
  observe=["verdict on each pair of key and content"],
  technique=RM+"made-up blocks of all eras with anchored proofs and the recorded mainnet blocks against the embedded accumulator, with systematic alterations, judged by independent encodings and roots",
  level_note="random blocks of up to six transactions; 16384 recorded blocks to pick from"),
 dict(id="H02", title="A running history node answers its calls truthfully",
  statement="Every call to a running history node is answered, and the answer and its effects on the table of peers, on the store and on the messages sent to peers are those the call stands for: content is only reported, kept or passed on if it belongs to the chain, what was found is kept, and stored content is returned without asking peers.",
  over=["histories", "fault_sequences"], q="every history of calls and of incoming requests, among peers that have the content, have something else or have nothing",
  why="Needs a running node among scripted peers; tests call single functions.",
  files=[P+"jsonrpc.rs", P+"network.rs", P+"events.rs", P+"lib.rs", P+"storage.rs", P+"ping_extensions.rs", "crates/portalnet/src/overlay/protocol.rs"],
  mech=[("dispatch of calls", P+"jsonrpc.rs complete_request"), ("lookups", "crates/portalnet/src/overlay/service/find_content.rs"), ("spreading of content", "crates/portalnet/src/put_content.rs")],
  observe=["answers to calls, messages received by peers, local content after every step"],
  technique=RM+"random histories of nineteen kinds of steps on a running node in a simulated network under virtual time, against a model",
  level_note="two to five peers, up to forty steps, blocks after the merge"),
 dict(id="H03", title="Bodies and receipts are kept exactly if their header can be had",
  statement="A body or receipts offered to a running node or found by it are kept and passed on exactly if they match the header with their hash, where that header is the stored one or, failing that, one found at a peer and proven. False headers served by peers are never kept and never make content acceptable, and a true one is found among them.",
  over=["histories", "fault_sequences"], q="every order of arrival, and headers stored, at a peer, falsified at peers, falsified at some and true at others, or nowhere",
  why="The header is fetched through the node's own lookup while an incoming transfer is judged; no test runs this loop.",
  files=[P+"validation.rs", "crates/validation/src/oracle.rs", "crates/portalnet/src/overlay/service/offer.rs", "crates/portalnet/src/overlay/service/find_content.rs"],
  mech=[("fetching the header", "crates/validation/src/oracle.rs recursive_find_header_by_hash_with_proof"), ("judging incoming content", "crates/portalnet/src/overlay/service/offer.rs")],
  observe=["local content and messages to peers after each transfer"],
  technique=RM+"random placements of headers among scripted peers and random transfers to a running node under virtual time, against the rule",
  level_note="two to four peers, up to three items per transfer; a right item beside a wrong one in a transfer may be lost"),
]
