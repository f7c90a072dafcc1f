E = "crates/e2store/src/"
RM = "runtime monitoring: "
PROPS = [
 dict(id="E01", title="Archive files are exactly the sequence of their typed entries",
  statement="An archive file is read into exactly the typed entries it holds and written back byte for byte, in memory and as a stream alike. Files cut anywhere, with lengths beyond their end or with reserved bytes set are refused, without a crash and without using memory out of proportion to the file.",
  over=["inputs"], q="every sequence of entries of any type and size, cut or damaged anywhere",
  why="Unit tests read one complete file.",
  files=[E+"e2store/memory.rs", E+"e2store/stream.rs", E+"e2store/types.rs"],
  mech=[("entry header", E+"e2store/types.rs"), ("walk over the file", E+"e2store/memory.rs deserialize")],
  observe=["entries, written bytes, memory use"],
  technique=RM+"generated and damaged files against an independent splitter; panic and allocation monitors",
  level_note="random sequences with boundary sizes; cuts, extensions and header alterations"),
 dict(id="E02", title="Files of execution blocks hold exactly the blocks written, in order",
  statement="Files of execution blocks, with total difficulty or with header proofs, are read into exactly the headers, bodies and receipts they hold, in order, whichever of the ways of reading is used, and are written back with the same parts. A file produced block by block carries the right name, starting number and an index pointing at each block, appears only when complete, and never replaces an unfinished one. Files with missing, surplus, reordered or damaged parts or an index that does not fit are refused without crashing.",
  over=["inputs", "histories"], q="complete files of 8192 blocks (and the shorter last one) of every era, every kind of structural damage, incomplete writing",
  why="Unit tests read recorded files and check a few fields.",
  files=[E+"era1.rs", E+"e2hs.rs", E+"types.rs", E+"entry_types.rs"],
  mech=[("entries per block", E+"era1.rs BlockTuple"), ("index of offsets", E+"e2hs.rs E2HSWriter"), ("rename on completion", E+"e2hs.rs finish")],
  observe=["blocks read, parts and index written, files in the directory"],
  technique=RM+"files from an independent writer read and written again; structural damage; recorded mainnet files",
  level_note="whole files built from random blocks; every sixteenth block compared in full; two recorded files"),
 dict(id="E03", title="Files of beacon blocks give every block under its slot and fork",
  statement="Files of beacon blocks are read into exactly the blocks at the slots their index names, each in the format of its slot's fork, with the state at the end; skipped slots have none. Written again they have the same parts, and the question whether an execution block lies inside is answered by the first and last block. Files whose index does not fit the blocks, or with missing or foreign parts, are refused without crashing.",
  over=["inputs"], q="files of every fork from the merge on, at fork boundaries, with any pattern of skipped slots, damaged in any part",
  why="Unit tests need recorded files that are not even part of the repository.",
  files=[E+"era.rs"], mech=[("slot index relative to the file", E+"era.rs get_block_slot_indexes"), ("fork by slot", E+"era.rs get_beacon_fork")],
  observe=["blocks with slots, state, written parts"],
  technique=RM+"files from an independent writer; structural damage",
  level_note="random blocks and states of four forks; periods at fork boundaries; slots before the merge are unsupported and excluded"),
 dict(id="E04", title="Flat state files hold exactly the accounts and storage appended",
  statement="A flat state file holds exactly the header, accounts and storage entries appended, and reading it gives them back in order. Entries that break the prescribed order, an account before the storage of the previous one is complete, storage without an account, or a short storage entry that is not the last, are refused and leave no trace. An existing file is never overwritten, and a file lacking version, header or announced storage is not taken for complete.",
  over=["histories", "inputs"], q="sequences of accounts and storage entries in right and wrong order, with any code and values",
  why="Unit tests write one account.",
  files=[E+"e2ss.rs"], mech=[("count of storage entries due", E+"e2ss.rs append_entry"), ("end of file handling", E+"e2ss.rs Iterator")],
  observe=["parts written, entries read, refusals"],
  technique=RM+"random append sequences against an order model and an independent encoder",
  level_note="random sequences up to 40 entries; full storage entries of ten million items are out of reach"),
 dict(id="E05", title="Lists of archive files are complete or refused",
  statement="The list of archive files read from a server has exactly the offered links, by epoch and as absolute addresses. A list with gaps, without entries or, for the closed pre-merge archive, of the wrong size is refused, and so is an unreachable server.",
  over=["inputs", "fault_sequences"], q="pages with any set and order of links, relative or absolute, complete or not",
  why="Unit tests would need the servers.",
  files=[E+"utils.rs"], mech=[("epoch from the file name", E+"utils.rs"), ("completeness check", E+"utils.rs assert_nonempty_and_consecutive_epochs")],
  observe=["lists returned, addresses asked"],
  technique=RM+"scripted server answers against the generated list",
  level_note="page parsing is a stand-in; file names without an epoch number are excluded"),
]
