P = "crates/light-client/src/"
RM = "runtime monitoring: "
PROPS = [
 dict(id="L01", title="Light client updates are accepted exactly if the protocol says so",
  statement="A light client accepts an update exactly if it has participants, lies in order and not in the future, belongs to a period whose committee is known, says something new, proves what it carries against the attested state, and is signed by the participants for the right chain and fork. Everything else is refused without a crash, and the store is not changed by verifying.",
  over=["inputs"], q="every store and every honest or altered update, finality update and optimistic update, around period and fork boundaries",
  why="The repository's tests of the current fork are disabled for want of data; they covered a handful of alterations.",
  files=[P+"consensus/consensus_client.rs", P+"consensus/utils.rs", "crates/ethportal-api/src/types/consensus/light_client/"],
  mech=[("verification of any update", P+"consensus/consensus_client.rs verify_generic_update"), ("signing root", P+"consensus/utils.rs compute_domain"), ("inclusion proofs", P+"consensus/utils.rs is_proof_valid")],
  observe=["acceptance or refusal of each update"],
  technique=RM+"generated stores and updates, honest or with one thing altered, against an independent model of the sync protocol",
  level_note="synthetic chains over a few periods; the signature library is a stand-in with the same interface; the execution part of headers is left aside (see C01)"),
 dict(id="L02", title="A light client follows the chain as the sync protocol prescribes",
  statement="After every step of following a chain, the finalized and latest headers, the known committees, the participation record, the checkpoint and the announcements are exactly those the sync protocol prescribes for the answers received so far. Refused answers change nothing, and the clock used is the one of the chosen network.",
  over=["histories", "fault_sequences"], q="every history of honest, missing, stale, altered and skipped answers over several committee periods and networks",
  why="Needs histories over periods of 27 hours with answers signed by chosen committees; no test goes further than one step.",
  files=[P+"consensus/consensus_client.rs", P+"watch.rs"],
  mech=[("sync and advance", P+"consensus/consensus_client.rs"), ("applying an update", P+"consensus/consensus_client.rs apply_generic_update"), ("announcements", P+"watch.rs")],
  observe=["the store, checkpoint and announced updates after every step, under a virtual clock"],
  technique=RM+"random histories of a scripted network under a virtual clock against a model of the store",
  level_note="up to five periods and some fifteen steps each; two networks; both ways of asking for updates"),
 dict(id="L03", title="A light client starts from the block its checkpoint names",
  statement="A light client starts only from the block its checkpoint names, with a committee proven for it, and with strict checking only if that block is recent; the checkpoint is the explicit one, else the saved one, else the built-in one, and a published one only when it is too old. It refuses a source for another network, saves the latest checkpoint when it stops, and no answer makes it crash.",
  over=["inputs", "configurations", "histories"], q="every combination of settings, checkpoint files, fallbacks and bootstrap answers of any age",
  why="Tests start from one recorded block with one configuration.",
  files=[P+"client.rs", P+"node.rs", P+"database.rs", P+"consensus/consensus_client.rs"],
  mech=[("choice of checkpoint", P+"client.rs"), ("bootstrap", P+"consensus/consensus_client.rs bootstrap"), ("checkpoint file", P+"database.rs")],
  observe=["header and committee after start, checkpoint file after stopping"],
  technique=RM+"random settings and answers of a scripted network, under a virtual clock, against the rules for choosing a start",
  level_note="files in a scratch directory; services are scripted"),
 dict(id="L04", title="Published checkpoints are taken by majority for the latest epoch",
  statement="The checkpoint taken from several services is one that most of the available ones name for the latest epoch any of them names. Services that are down, marked as unhealthy or answer nonsense do not matter, and if nobody names one the result is an error, never a crash.",
  over=["fault_sequences", "inputs"], q="every combination of answers of the services and every list of services",
  why="Tests ask live services.",
  files=[P+"config/checkpoints.rs"], mech=[("collecting answers", P+"config/checkpoints.rs fetch_latest_checkpoint_from_services"), ("list of services", P+"config/checkpoints.rs build")],
  observe=["checkpoint or error"],
  technique=RM+"scripted services against the majority rule",
  level_note="up to seven services; ties may be broken any way"),
 dict(id="L05", title="Light client sources ask for and return exactly what was asked",
  statement="Each source of light client data asks for exactly the object wanted, by address over the beacon interface or by content key over the Portal network, and returns exactly the object sent. Failures, damaged answers and objects of another fork become errors, never a crash or a different object.",
  over=["inputs", "fault_sequences"], q="every object of every kind and fork, and any damage to it",
  why="Tests read a few recorded files through a mock.",
  files=[P+"consensus/rpc/nimbus_rpc.rs", P+"consensus/rpc/portal_rpc.rs", "crates/ethportal-api/src/types/content_value/beacon.rs"],
  mech=[("beacon interface", P+"consensus/rpc/nimbus_rpc.rs"), ("content keys", P+"consensus/rpc/portal_rpc.rs")],
  observe=["requests made and objects returned"],
  technique=RM+"generated objects through scripted servers and a scripted network against independent encodings",
  level_note="all forks with light client data, random contents"),
]
