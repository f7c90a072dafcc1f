P = "bin/portal-bridge/src/"
RM = "runtime monitoring: "
PROPS = [
 dict(id="G02", title="A bridge knows who is there to take content, and picks only those",
  statement="After its first look around and as time passes a bridge knows exactly the peers that answer it, with the radius and record they last gave: peers that stay silent are dropped after several missed questions and not earlier, and peers that come, come back or change are found. For a content item it picks only known peers whose radius covers the item, each at most once, as many as there are up to its limit, and leaves out for a while those that keep failing. A look around that finds nobody ends with an error, and losing everybody does not keep the bridge from finding peers again.",
  over=["histories", "fault_sequences", "configurations"], q="every population of peers and every history of joining, leaving, silence, changed radius or record and failed offers",
  why="Tests check scoring of single peers; the picture only forms over hours of questions to many peers.",
  files=[P+"census/network.rs", P+"census/mod.rs", P+"census/peers.rs", P+"census/peer.rs", P+"census/scoring.rs"],
  mech=[("first look around", P+"census/network.rs init"), ("liveness", P+"census/network.rs liveness_check"), ("peers and when to ask them again", P+"census/peers.rs"), ("picking", P+"census/scoring.rs")],
  observe=["peers picked for content items all over the keyspace after every step, questions that reach every peer"],
  technique=RM+"random populations of scripted peers around a complete bridge node over a simulated network and clock, against a model of who is there",
  level_note="up to a few dozen peers and a simulated day"),
 dict(id="G01", title="Data providers are asked rightly, and their answers fall back or fail cleanly",
  statement="Each question to a beacon or execution data provider goes out as the request it stands for; the answer is what the first provider said if that is usable, else what the second said, and an error when neither helps. Searching for the next block or state that exists finds the first within reach and ends. Each block of a batch gets its own receipts whatever order they arrive in, or the whole request fails.",
  over=["inputs", "fault_sequences", "configurations"], q="every question, and every answer or failure of two providers: errors, broken connections, wrong or cut content, missing, repeated or reordered parts",
  why="Tests decode recorded answers; real providers fail, answer something else, and reorder.",
  files=["crates/ethereum-rpc-client/src/execution.rs", "crates/ethereum-rpc-client/src/consensus/mod.rs", "crates/ethereum-rpc-client/src/http_client.rs"],
  mech=[("questions to beacon providers", "crates/ethereum-rpc-client/src/consensus/mod.rs"), ("batched receipts", "crates/ethereum-rpc-client/src/execution.rs get_receipts"), ("retries", "crates/ethereum-rpc-client/src/http_client.rs")],
  observe=["requests that reach each provider, the returned value or error, simulated time spent"],
  technique=RM+"random questions to two scripted providers that fail in every way, against what the used provider said",
  level_note="no real HTTP; one or two providers, as in the code"),
 dict(id="G03", title="A beacon bridge offers each new light client item once and unchanged",
  statement="Each slot the newest optimistic update is offered to all peers; for each newly finalised block a finality update, a bootstrap and the historical summaries with their proof are offered once, and the update of a sync committee period once its finalised header is in it. Everything is offered as the provider gave it and nothing else is. While a provider fails items may be late, but once it answers again what is then the latest is offered.",
  over=["histories", "fault_sequences"], q="every course of the beacon chain and every sequence of provider outages and wrong answers",
  why="Tests build single items from files; what is offered depends on what was offered before and on what failed.",
  files=[P+"bridge/beacon.rs"],
  mech=[("per-slot work", P+"bridge/beacon.rs serve_*"), ("what was finalised last", P+"bridge/beacon.rs FinalizedBeaconState")],
  observe=["items offered to and taken by every peer in every slot"],
  technique=RM+"simulated slots of a random beacon chain served by scripted providers to a complete bridge among scripted peers",
  level_note="a few dozen slots per history, across finalisations and period boundaries"),
 dict(id="G04", title="A bridge at the head gossips the attested chain and final headers with proofs",
  statement="Once a block is known to be attested, it and the blocks before it in recent history are gossiped: headers together and newest first, then bodies and receipts, each belonging to its block whatever reorganisations came before. Once a period is final, every block of the chain in it that the bridge saw is gossiped with a proof that leads from it to the roots of the period. Nothing else is offered, and provider failures only delay blocks that could not be had.",
  over=["histories", "fault_sequences", "configurations"], q="every course of the chain with skipped slots, branches and reorganisations, announcement orders, period boundaries and provider outages",
  why="Tests check single proofs; the store of recent blocks only goes wrong over reorganisations, skipped slots and failures.",
  files=[P+"bridge/ephemeral_history/mod.rs", P+"bridge/ephemeral_history/ephemeral_bundle.rs", P+"bridge/ephemeral_history/gossiper.rs"],
  mech=[("announcements", P+"bridge/ephemeral_history/mod.rs"), ("recent blocks and their branches", P+"bridge/ephemeral_history/ephemeral_bundle.rs"), ("gossip and proofs", P+"bridge/ephemeral_history/gossiper.rs")],
  observe=["items offered to and taken by every peer after each announcement, proofs verified against the period's roots"],
  technique=RM+"random chains announced by scripted providers to a complete bridge among scripted peers, against a model of the chain",
  level_note="a few dozen slots around one period boundary per history"),
 dict(id="G05", title="A bridge over an archive gossips all sound blocks of its range and no others",
  statement="A bridge over an archive offers each block of its range whose parts fit together, and no other: the header by hash first, then by number, and body and receipts once the header had time to spread. Every item goes byte for byte to exactly the known peers that cover it up to the limit, whatever other peers do. Nothing is under way any more when the bridge reports that it is done.",
  over=["inputs", "configurations", "fault_sequences"], q="every archive with sound and unsound blocks, range, choice of peers and behaviour of peers",
  why="Tests read single blocks of a recorded archive; who gets what depends on the range, the peers and their answers.",
  files=[P+"bridge/e2hs.rs", P+"bridge/offer_report.rs", P+"types/range.rs"],
  mech=[("reading archives", P+"bridge/e2hs.rs"), ("limits on concurrent offers", P+"bridge/e2hs.rs offer_semaphore")],
  observe=["items offered to and taken by every peer, with when, until the bridge is done"],
  technique=RM+"generated and recorded archives served by a script to a complete bridge among scripted peers that take, decline, ignore or abandon offers",
  level_note="ranges of up to a few dozen blocks over one or two archive files"),
 dict(id="G06", title="A state bridge gossips exactly the new state, complete and with proofs",
  statement="For each block of its range a state bridge offers everything of the new state that was not in the state before, and for a snapshot everything in it: every node of the account and storage tries and all code, each with the proof from the state root of its block, and nothing that is not part of that state. Bridges sharing a snapshot together offer everything, in even shares and nothing twice, and every item goes to exactly the known peers that cover it up to the limit. A snapshot is used whether it was imported before, is fetched anew or replaces another state, and nothing is under way any more when the bridge is done.",
  over=["inputs", "configurations", "fault_sequences"], q="every state, block range or snapshot, share of the work, set of limits and behaviour of peers",
  why="Tests need recorded archives and a live network; completeness can only be seen against a state built independently and by counting what all peers were offered.",
  files=[P+"bridge/state.rs", P+"bridge/offer_report.rs", P+"cli.rs", "bin/trin-execution/src/content.rs", "bin/trin-execution/src/trie_walker/mod.rs"],
  mech=[("walking and offering", P+"bridge/state.rs"), ("limits on concurrent offers", P+"bridge/state.rs offer_semaphore")],
  observe=["items offered to and taken by every peer, until the bridge is done"],
  technique=RM+"generated chains and snapshots served by a script to a complete state bridge among scripted peers, everything offered compared with tries built by the harness",
  level_note="states of up to a few hundred nodes; block ranges near the first block"),
 dict(id="G07", title="Work is shared out completely and evenly, and ranges mean what they say",
  statement="Among any number of bridges every piece of work belongs to exactly one and the shares differ by at most one piece; a number outside the count is refused. A range of blocks reads as it is written and is refused otherwise. Keys made for several nodes are distinct, start from the given one and give ids spread evenly over the whole space, and the next light client update is due at the coming moment four seconds into a slot.",
  over=["inputs", "configurations"], q="every count of bridges, piece of work, range text, number of keys, starting key and time",
  why="Tests hold single examples; gaps, overlaps and rounding show only over all counts, texts and times.",
  files=[P+"cli.rs", P+"types/mode.rs", P+"utils.rs", P+"bridge/e2hs.rs"],
  mech=[("bridge numbers", P+"cli.rs BridgeId"), ("update times", P+"utils.rs")],
  observe=["values returned for generated counts, texts, keys and times"],
  technique=RM+"generated arguments against the definition of a partition, a grammar of ranges, exact arithmetic on ids and a simulated clock",
  level_note="up to a few thousand pieces of work per count"),
]
