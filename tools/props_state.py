P = "crates/subnetworks/state/src/"
A = "crates/ethportal-api/src/types/"
RM = "runtime monitoring: "
PROPS = [
 dict(id="T01", title="State content is accepted exactly if proven for its key",
  statement="Account trie nodes, contract storage trie nodes and contract code are accepted exactly if their key commits to them and, when they come with proofs, every step of the proof leads from the state root along the named path to what is claimed. Everything else is refused without a crash.",
  over=["inputs"], q="every trie, every node, contract and code in it, and every alteration of proofs, paths, hashes, code and account fields",
  why="Tests cover a few recorded proofs and single alterations of them.",
  files=[P+"validation/validator.rs", P+"validation/trie.rs", A+"state_trie/"],
  mech=[("judging of content", P+"validation/validator.rs"), ("following a proof", P+"validation/trie.rs validate_node_trie_proof"), ("stepping through a node", A+"state_trie/trie_traversal.rs")],
  observe=["verdict on each pair of key and content"],
  technique=RM+"random tries built by an independent implementation, each honest proof and systematic alterations of it, against an independent walk",
  level_note="tries of up to some hundred accounts; the state root itself is taken as given, as the repository has checking it against the chain switched off"),
 dict(id="T02", title="The state store keeps exactly the proven content under its key",
  statement="The state store accepts content exactly if it matches its key, keeps of it what is to be handed out (the last node of the proof, or the code) and returns exactly that until it is evicted, across restarts. Anything that does not match is refused and changes nothing.",
  over=["histories", "inputs", "crash_points"], q="every history of storing, reading, listing and restarting, with right and wrong content of every kind",
  why="Tests store one item of each kind once.",
  files=[P+"storage.rs", A+"content_value/state.rs"],
  mech=[("what is kept of an offer", P+"storage.rs put"), ("what is accepted", P+"storage.rs put_account_trie_node / put_contract_storage_trie_node / put_contract_bytecode")],
  observe=["answers of the store after every step and after reopening"],
  technique=RM+"random histories with reopening against a model of the store",
  level_note="stores below their capacity; eviction is judged by S02 and S03"),
 dict(id="T03", title="A running state node answers its calls truthfully",
  statement="Every call to a running state node is answered, and the answer and its effects on the table of peers, on the store and on the messages sent to peers are those the call stands for: content is only reported, kept or passed on if it is proven, stored content is returned without asking peers, and it is reported as stored exactly if it is.",
  over=["histories", "fault_sequences"], q="every history of calls and of incoming requests, among peers that have the content, have something else or have nothing",
  why="Needs a running node among scripted peers; tests call single functions.",
  files=[P+"jsonrpc.rs", P+"network.rs", P+"events.rs", P+"lib.rs", "crates/portalnet/src/overlay/protocol.rs", "crates/portalnet/src/put_content.rs"],
  mech=[("dispatch of calls", P+"jsonrpc.rs complete_request"), ("lookups", "crates/portalnet/src/overlay/service/find_content.rs"), ("spreading of content", "crates/portalnet/src/put_content.rs")],
  observe=["answers to calls, messages received by peers, local content after every step"],
  technique=RM+"random histories of nineteen kinds of steps on a running node in a simulated network under virtual time, against a model",
  level_note="two to five peers, up to forty steps"),
]
