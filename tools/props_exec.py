P = "bin/trin-execution/src/"
RM = "runtime monitoring: "
PROPS = [
 dict(id="X01", title="Executing a block leads to the state the chain's rules demand",
  statement="Whatever right block of any fork is executed, every account, code, slot and the state root afterwards are those the rules of that fork demand: transactions of every kind with their fees, rewards for miners and uncles, withdrawals, the irregular change of the DAO fork, the beacon root and the last 256 block hashes. This does not depend on how many blocks are executed before a commit, and a block that claims another amount of gas is refused.",
  over=["inputs", "histories", "configurations"], q="every chain of right blocks over every fork boundary, and every division of it into commits",
  why="Tests execute the first thousands of recorded mainnet blocks, all of the first fork; later forks, long gaps between commits and wrong claims are not run.",
  files=[P+"evm/block_executor.rs", P+"evm/pre_block_contracts.rs", P+"evm/post_block_beneficiaries.rs", "crates/evm/src/lib.rs", "crates/evm/src/tx_env_modifier.rs", "crates/evm/src/spec_id.rs"],
  mech=[("transactions", P+"evm/block_executor.rs execute_transaction"), ("rewards and withdrawals", P+"evm/post_block_beneficiaries.rs"), ("system calls", P+"evm/pre_block_contracts.rs"), ("what a transaction asks for", "crates/evm/src/tx_env_modifier.rs"), ("rules in force", "crates/evm/src/spec_id.rs")],
  observe=["state root, every account, code and slot after every commit; verdict on every block; lines of traces"],
  technique=RM+"chains generated together with their states by an independent model of the rules, executed by the real executor and compared account by account",
  level_note="the machine that runs code is a stand-in with a small instruction set, so the meaning of opcodes is not judged; chains of up to nine blocks of up to six transactions, or 266 blocks"),
 dict(id="X02", title="Committed state reads back exactly, across restarts, with a right root",
  statement="After any sequence of committed changes, including accounts that are destroyed, emptied or made again, every account, code and slot reads as last written, nothing else does, and the root is that of exactly this state. This also holds after a restart, and every trie node that became new is reported as changed so that it can be passed on.",
  over=["histories", "configurations"], q="every history of committed changes, emptied caches and restarts, with and without recording of changes",
  why="Tests commit what recorded early blocks change; accounts made again and storage emptied to nothing are not among them.",
  files=[P+"storage/evm_db.rs", P+"storage/account_db.rs", P+"storage/trie_db.rs", P+"storage/execution_position.rs"],
  mech=[("commit of accounts and storage", P+"storage/evm_db.rs commit_bundle"), ("account and storage tries", P+"storage/account_db.rs"), ("position", P+"storage/execution_position.rs")],
  observe=["every account, code and slot, the state root, reported changes and position after every step"],
  technique=RM+"random histories against an independent model that computes tries from scratch",
  level_note="up to twelve commits of up to forty accounts; a store in memory stands in for RocksDB"),
 dict(id="X03", title="Walking a state visits every node once, with its proof",
  statement="A walk over a state visits every node of it exactly once, each with its path and the nodes from the root down to it; a walk over a slice visits every node on the way to an account of that slice and none that lies outside, and all slices together visit everything. A walk over the changed part visits what is connected to the root, and a walk that meets a missing node never ends as if it were complete.",
  over=["inputs", "configurations"], q="every state, storage trie, part of one, number of slices and slice",
  why="Tests walk over small recorded states and count the nodes.",
  files=[P+"trie_walker/mod.rs", P+"trie_walker/filter.rs", P+"trie_walker/db.rs", P+"types/trie_proof.rs"],
  mech=[("walk", P+"trie_walker/mod.rs"), ("slices", P+"trie_walker/filter.rs")],
  observe=["path and proof of each node visited"],
  technique=RM+"walks over random tries against an independent enumeration of their nodes",
  level_note="tries of up to 250 accounts and 120 slots; nodes within one unit of the edge of a slice may be in either"),
 dict(id="X04", title="The content made from a block's changes is complete and verifiable",
  statement="From the changes of a block a content item is made for every account trie node, storage trie node and code that others did not have before, each under its right name and once. Each of them proves itself against that block's state root, so that every node of the state network accepts it.",
  over=["inputs", "histories"], q="every state and every set of changes to it",
  why="Tests make content for a handful of recorded blocks and check that it is accepted, not that nothing is left out.",
  files=[P+"content.rs", P+"trie_walker/mod.rs", P+"storage/evm_db.rs", P+"utils.rs"],
  mech=[("names and values of content", P+"content.rs"), ("walk over what changed", P+"trie_walker/mod.rs new_partial_trie"), ("recorded changes of storage", P+"storage/evm_db.rs get_storage_trie_diff"), ("path of an account", P+"utils.rs full_nibble_path_to_address_hash")],
  observe=["names and values made, verdict of the network's validation on each"],
  technique=RM+"content made from random changes against independently computed sets of new nodes, judged by the network's own validation",
  level_note="the loop that makes content from changes follows that of the bridge; states of up to 250 accounts, up to six changes each"),
]
PROPS += [
 dict(id="X05", title="A state exported to a file and imported elsewhere is the same state",
  statement="The file written for a state holds every account once with its code and all of its slots, and importing it into an empty database leads to the same root, accounts, codes, slots and position, from which execution goes on with all block hashes it may ask for. Files that do not hold the state of their block are refused, nothing is imported over another state, and an import that was stopped at any point or met a failed download can be repeated until it succeeds.",
  over=["inputs", "crash_points", "fault_sequences"], q="every state, every alteration of its file, every write to the database at which an import stops and every failed download",
  why="One ignored test exports and imports the state after recorded blocks; altered files, stops and failures are not run.",
  files=[P+"subcommands/e2ss/export.rs", P+"subcommands/e2ss/import.rs", "crates/e2store/src/e2ss.rs"],
  mech=[("export", P+"subcommands/e2ss/export.rs export"), ("import", P+"subcommands/e2ss/import.rs import"), ("block hashes", P+"subcommands/e2ss/import.rs import_last_256_block_hashes"), ("file format", "crates/e2store/src/e2ss.rs")],
  observe=["entries of the file; root, accounts, codes, slots, position and later execution of the importing node"],
  technique=RM+"random states exported, altered and imported under faults injected into database writes and downloads, against an independent model",
  level_note="states of up to 300 accounts; no account with more than ten million slots; one known finding: an account that only a refused file contained stays readable"),
 dict(id="X06", title="Execution goes on correctly after it was stopped or crashed",
  statement="A node that was stopped on demand, by a failed download or because its process ended at any write to the database outside a commit goes on after a restart exactly where its saved position says, and reaches the same state as without the stop. What a run reports as its position and root is what was executed, however many commits it was divided into, from the first block of the chain on. A block that claims a wrong amount of gas or ends in a wrong root makes the run fail, and the saved position never moves past it.",
  over=["crash_points", "histories", "fault_sequences"], q="every chain, division into commits, sequence of stops, and write to the database at which the process ends",
  why="Tests run from the first block without stops.",
  files=[P+"execution.rs", P+"evm/block_executor.rs", P+"storage/execution_position.rs", P+"types/block_to_trace.rs"],
  mech=[("range of blocks", P+"execution.rs process_range_of_blocks"), ("commit", P+"execution.rs commit"), ("position", P+"storage/execution_position.rs"), ("first accounts", P+"evm/block_executor.rs process_genesis")],
  observe=["position, root, accounts, codes and slots after every run; files of traces"],
  technique=RM+"runs ended at chosen database writes by a fault-injecting store, restarted and compared with an independent model of the chain",
  level_note="chains of up to nine blocks, or 265 for block hashes; up to three stops; a process that ends inside a commit cannot go on: known finding; the machine that runs code is a stand-in"),
 dict(id="X07", title="Blocks to be executed arrive in order, complete and with their senders",
  statement="Starting at any block, every block of the archive from there on is delivered once and in order, across files, with its header, uncles, withdrawals, transactions and their senders. Answers that break off are asked for again, other failures are reported, and after neither a block is left out, repeated or wrong.",
  over=["inputs", "fault_sequences"], q="every starting block, archive and sequence of failing answers",
  why="Tests download real files and are switched off without a network.",
  files=[P+"e2hs/manager.rs", P+"e2hs/utils.rs", P+"e2hs/types.rs", "crates/e2store/src/e2hs.rs", "crates/e2store/src/utils.rs"],
  mech=[("sequence of files", P+"e2hs/manager.rs get_next_block"), ("download", P+"e2hs/utils.rs download_raw_e2store_file"), ("reading of a file", P+"e2hs/utils.rs process_e2hs_file"), ("list of files", "crates/e2store/src/utils.rs")],
  observe=["each block delivered, requests made"],
  technique=RM+"archives served by a scripted web server with injected failures under virtual time, against the generated chain",
  level_note="up to two files of 8192 blocks; recovering a sender from a signature is a stand-in"),
 dict(id="X08", title="The execution block and its proof are taken out of a beacon block right",
  statement="From a beacon block of any fork since the merge the execution header, transactions with senders and withdrawals are taken out exactly, the header's hash is the one the block names, and the proof built for it leads from that hash to the root of its period. A block whose execution part does not match its hash is refused without a crash.",
  over=["inputs"], q="every beacon block, slot and alteration of its execution part",
  why="Tests convert three recorded blocks.",
  files=[P+"e2hs/beacon.rs", "crates/ethportal-api/src/types/execution/builders/block.rs", "crates/ethportal-api/src/types/execution/builders/header.rs", "crates/ethportal-api/src/types/execution/header_with_proof.rs", "crates/ethportal-api/src/types/consensus/execution_requests.rs"],
  mech=[("header", "crates/ethportal-api/src/types/execution/builders/header.rs"), ("body and proof", "crates/ethportal-api/src/types/execution/builders/block.rs"), ("transactions and senders", P+"e2hs/beacon.rs")],
  observe=["block and proof built from each beacon block"],
  technique=RM+"random beacon blocks of four forks around generated execution blocks, converted and compared; proofs followed by an independent Merkle walk",
  level_note="up to six transactions; recovering a sender from a signature is a stand-in"),
]
