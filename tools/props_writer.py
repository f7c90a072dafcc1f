RM = "runtime monitoring: "
P = "bin/e2hs-writer/src/"
PROPS = [
 dict(id="P01", title="Archives of new blocks are uploaded in turn, whole, proven and only when final",
  statement="The archive writer goes on after the newest file in its bucket and uploads the next file once all its blocks lie in periods that are over and final, never before. Every file it leaves in the bucket holds exactly the blocks of its number in order, each with the body and receipts that belong to it and a proof that leads to the roots of its period, however many slots are empty. A block that does not fit, a failing upload, a bucket whose contents cannot be listed, or being more than three months behind leaves no file behind, and the next start makes up for what is missing.",
  over=["inputs", "histories", "fault_sequences"], q="every chain with empty slots, contents of the bucket, moment of finality, wrong answer of a provider and failing request to the bucket",
  why="There are no tests; a file takes thousands of blocks from live providers and ends in a remote bucket.",
  files=[P+"subcommands/head_generator/mod.rs", P+"subcommands/head_generator/e2hs_builder.rs", P+"subcommands/head_generator/s3_bucket.rs", P+"subcommands/full_block.rs", "crates/ethereum-rpc-client/src/consensus/mod.rs"],
  mech=[("what can be proven", P+"subcommands/head_generator/mod.rs amount_of_blocks_that_can_be_backfilled"), ("roots of the period", P+"subcommands/head_generator/e2hs_builder.rs update_proving_anchors"), ("listing and parts", P+"subcommands/head_generator/s3_bucket.rs")],
  observe=["files in the bucket, blocks asked for, whether the writer goes on"],
  technique=RM+"generated chains of a whole file served by scripted providers to the complete writer, with a bucket in memory that fails on request; every file taken apart and every proof climbed independently",
  level_note="one file per chain, of blocks of the newest fork; the bucket's protocol is not part of it"),
 dict(id="P02", title="An archive made from other archives holds exactly its blocks, or is not made",
  statement="The writer of a single file finds the archives of beacon blocks or early blocks that cover its number among all there are. The file holds exactly the blocks of its number in order, each with the body and receipts that belong to it and a proof that leads to the accumulator or the roots of its period, wherever archives and forks begin within it. If an archive, accumulator or provider has something else for a block, or the number is beyond the chain, no finished file is there.",
  over=["inputs", "configurations", "fault_sequences"], q="every file number from each fork and across forks, choice of archives, pattern of empty slots and wrong part in an archive, accumulator or answer",
  why="There are no tests; whole archives of beacon blocks are needed that are too large to record.",
  files=[P+"subcommands/single_generator/e2hs_builder.rs", P+"subcommands/single_generator/provider.rs", P+"subcommands/single_generator/era_binary_search.rs", P+"subcommands/full_block.rs"],
  mech=[("search for the archive", P+"subcommands/single_generator/era_binary_search.rs"), ("receipts by number", P+"subcommands/single_generator/e2hs_builder.rs get_receipts")],
  observe=["files in the target directory"],
  technique=RM+"generated archives around fork boundaries and the recorded archive of the first blocks served to the complete writer; every file taken apart and every proof climbed independently",
  level_note="blocks between the merge and the following fork need the recorded roots and are not made; of early blocks only the first file"),
]
