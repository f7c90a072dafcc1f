P = "crates/subnetworks/beacon/src/"
L = "crates/light-client/src/"
RM = "runtime monitoring: "
PROPS = [
 dict(id="C01", title="Beacon contents are accepted exactly if they answer the key and are proven",
  statement="A bootstrap is accepted exactly if it is of the block asked for, is not older than four months, proves its committee and execution part and agrees with the finalized header if one is known; updates exactly if they are as many as asked for, of the right periods or slots and fork, and verify against the light client's state if there is one; historical summaries exactly if of the epoch asked for and proven. Unreadable contents are refused without a crash.",
  over=["inputs", "histories"], q="every content of every kind and fork, every alteration, every key, every state of the light client and every time",
  why="The tests for the current fork are switched off for want of recorded data; what remains is one recorded example with single alterations.",
  files=[P+"validation.rs", "crates/validation/src/oracle.rs", L+"consensus/consensus_client.rs"],
  mech=[("judging of content", P+"validation.rs validate_content"), ("asking the light client", "crates/validation/src/oracle.rs"), ("verification of updates", L+"consensus/consensus_client.rs verify_generic_update")],
  observe=["verdict on each pair of key and content"],
  technique=RM+"signed chains built by an independent light client model, with systematic alterations under a controlled clock, against the model's verdict",
  level_note="signatures by a keyed stand-in for BLS; chains of five periods; for lists of updates nothing but their number is judged without a light client, as the code documents"),
 dict(id="C02", title="The beacon store returns what was stored until it expires, across restarts",
  statement="A bootstrap is returned for its block until it is four months old and is gone after the next daily clean-up or restart; updates are returned for exactly the periods stored, the first one stored for a period staying; the last finality update, optimistic update and summaries are returned exactly to those who ask for nothing newer, the summaries also after a restart. The node's view of the chain head and its summaries follow what is stored, and a request for any range of periods costs bounded work.",
  over=["histories", "crash_points"], q="every history of storing by call or in place of known content, retrieval by call or by peers, passing time and restarts, and every key",
  why="Tests store single items into a fresh store; expiry, restarts and hostile ranges are not run.",
  files=[P+"storage.rs", P+"jsonrpc.rs", "crates/storage/src/sql.rs", "crates/validation/src/chain_head/store.rs"],
  mech=[("tables and cached updates", P+"storage.rs store / get / should_we_store"), ("expiry", P+"storage.rs spawn_pruning_task"), ("reloading of summaries", P+"storage.rs new"), ("view of the head", "crates/validation/src/chain_head/mod.rs")],
  observe=["answers to calls and peers, number of database statements per request, slots of the head after every step"],
  technique=RM+"random histories over several lives of a node on the same files under virtual time, against a model; database statements counted by a hook",
  level_note="up to four lives of up to 45 steps; which of two optimistic updates stored in reverse order stays is left open"),
 dict(id="C03", title="A running beacon node answers its calls truthfully",
  statement="Every call to a running beacon node is answered, and the answer and its effects on the table of peers, on the store and on the messages sent to peers are those the call stands for; content that does not answer its key is never reported, kept or passed on. What was found is kept, and stored content is returned without asking peers.",
  over=["histories", "fault_sequences"], q="every history of calls and incoming requests among peers that have the content, have something else or have nothing",
  why="Needs a running node among scripted peers; tests call single functions.",
  files=[P+"jsonrpc.rs", P+"network.rs", P+"events.rs", P+"lib.rs", P+"ping_extensions.rs"],
  mech=[("dispatch of calls", P+"jsonrpc.rs complete_request"), ("lookups", "crates/portalnet/src/overlay/service/find_content.rs"), ("spreading of content", "crates/portalnet/src/put_content.rs")],
  observe=["answers to calls, messages received by peers, local content after every step"],
  technique=RM+"random histories of nineteen kinds of steps on a running node in a simulated network under virtual time, against a model",
  level_note="two to five peers, up to forty steps, all five kinds of content, without a synced light client"),
 dict(id="C04", title="A beacon node reaches the head of the chain and follows it",
  statement="A node that trusts a block and knows peers that have the chain's light client data reaches the head within seconds, and then holds in every slot exactly the finalized and newest headers and committees that the data handed to it or found at peers establish, never forged ones. It answers questions about them at once at any time, also while it is looking for news, and begins by itself from what it stored when it is restarted.",
  over=["histories", "schedules", "fault_sequences"], q="every chain, distance to the head, position in a committee period, slot without news, forged or true news by offer or as an answer, and moment of a question",
  why="The loop of light client, lookups, validation against that same light client and storage only closes in a running node; no test runs it.",
  files=[P+"network.rs", P+"sync.rs", P+"jsonrpc.rs", P+"validation.rs", L+"client.rs", L+"node.rs", L+"consensus/rpc/portal_rpc.rs"],
  mech=[("sync from a trusted block", P+"sync.rs start"), ("round of every slot", L+"client.rs start_advance_thread"), ("lookups of light client data", L+"consensus/rpc/portal_rpc.rs"), ("trusted block", P+"network.rs get_trusted_block_root")],
  observe=["the light client's state as told by the node in every slot, its view of the head, time to answer"],
  technique=RM+"a running node among scripted peers under virtual time, compared slot by slot with an independent light client model",
  level_note="two to four honest peers and one that forges; chains of up to seven periods, up to two lives of 14 slots; peers that forge while the node has no state yet are left out, since the node then takes their word by design"),
]
