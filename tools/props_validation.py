V = "crates/validation/src/"
RM = "runtime monitoring: "
PROPS = [
 dict(id="W01", title="A header is accepted only with a proof leading to the trusted roots",
  statement="A header with a proof is accepted exactly when its hash, combined with the given siblings at the positions prescribed for its era, block number and slot, leads to the trusted root of its epoch, historical root or historical summary. A proof of the kind of another era, a wrong sibling, number, slot, position or block root, or a slot outside the known periods is refused without crashing. Proofs constructed for headers of a pre-merge epoch are exactly the accepted ones, foreign headers get none, and the embedded trusted data hash to their published roots.",
  over=["inputs"], q="headers and proofs of all four kinds at era boundaries, with every element and every position bit altered, and any slot",
  why="Unit tests validate a few recorded headers; they do not try positions, slots and eras that only an attacker would send.",
  files=[V+"header_validator.rs", V+"accumulator.rs", V+"historical_roots_acc.rs", V+"merkle/proof.rs", V+"constants.rs"],
  mech=[("generalized indices", V+"header_validator.rs"), ("era check by block number and time", V+"header_validator.rs"), ("lookup of the trusted root", V+"header_validator.rs")],
  observe=["verdict for each header and proof", "constructed proofs"],
  technique=RM+"generated chains of trust with every single alteration, verdicts compared with an independent climb; panic monitor",
  level_note="random trusted roots fitted to random proofs; every sibling and every position bit of every proof altered; recorded mainnet epochs"),
 dict(id="W02", title="Merkle trees and branches agree with plain recomputation",
  statement="The root, every branch and every check of a branch equal what recomputing the tree from its leaves gives, for trees built at once, leaf by leaf, or from a snapshot of finalized parts. Finalizing a prefix changes neither root nor the branches of later leaves, and yields exactly the hashes of the maximal complete subtrees. Branches with wrong length, position, leaf or element are refused, and checked arithmetic reports every overflow.",
  over=["inputs", "histories"], q="trees of all depths and fillings with any split into created, pushed and finalized leaves",
  why="Unit tests use trees of a few leaves and randomised roots only.",
  files=[V+"merkle/proof.rs", V+"merkle/safe_arith.rs"],
  mech=[("sparse right side", V+"merkle/proof.rs create"), ("finalization and snapshot", V+"merkle/proof.rs")],
  observe=["roots, branches, finalized hashes"],
  technique=RM+"random trees and operation sequences against a plain recomputation",
  level_note="depths 1 to 13 fully, 32 sparsely, up to 3000 leaves; branch checks up to depth 32"),
 dict(id="W03", title="Trusted data looked up from other networks is the data asked for",
  statement="A lookup of a header, historical summary or finalized state asks the right network for exactly that item and returns exactly what was answered; refusals, malformed answers, missing networks and lost replies are errors, never a crash or another item. Cached summaries never answer differently from their source, and a longer list is picked up as soon as it is needed. Verdicts on a batch come back in the order of the batch.",
  over=["histories", "fault_sequences"], q="sequences of lookups while the source grows, fails, answers garbage or drops replies; batches of any size",
  why="Unit tests mock one successful answer.",
  files=[V+"oracle.rs", V+"historical_summaries_provider.rs", V+"validator.rs"],
  mech=[("request channel and reply", V+"oracle.rs"), ("cache of the last list", V+"historical_summaries_provider.rs")],
  observe=["requests sent, values returned, errors"],
  technique=RM+"scripted networks answering over the request channels, lookups compared with the growing source",
  level_note="random histories of 30 lookups and parallel bursts; seven ways of failing"),
 dict(id="W04", title="The known chain head only ever moves forward",
  statement="The latest and the finalized header always are the newest ones carried by any update processed so far, and the summaries the longest list seen, whatever the kinds, order and interleaving of updates. Older or equal updates change nothing, and lookups of summaries outside the known periods find nothing without crashing.",
  over=["histories", "schedules"], q="sequences and parallel mixes of full, finality and optimistic updates of every fork and of summaries lists",
  why="Unit tests apply a single newer update of each kind.",
  files=[V+"chain_head/mod.rs", V+"chain_head/store.rs"],
  mech=[("replace only if newer", V+"chain_head/store.rs"), ("lock around the store", V+"chain_head/mod.rs")],
  observe=["both headers and summaries after every update"],
  technique=RM+"random update histories against a maximum model; threads with a watcher for backward steps",
  level_note="random histories of 40 updates near the current head; four updating threads and one watcher"),
]
