P = "crates/rpc/src/"
RM = "runtime monitoring: "
PROPS = [
 dict(id="R01", title="Questions about the state are answered from proven content, or not at all",
  statement="A balance, code, storage slot or the result of a call that a node reports for a block is exactly that of the state whose root the block's header names, as it follows from the content the networks hold. Content that is missing, damaged, or of the wrong kind, on any part of the way, leads to an error and never to another value, and accounts or slots that do not exist read as empty.",
  over=["inputs", "fault_sequences"], q="every state, account, slot, call and every fault in the content on the way",
  why="Tests have no network to ask; the walk through tries and the call are only run by hand against a live node.",
  files=[P+"evm_state.rs", P+"eth_rpc.rs", "crates/evm/src/async_db.rs", "crates/evm/src/tx_env_modifier.rs"],
  mech=[("walk through the tries", P+"evm_state.rs"), ("questions", P+"eth_rpc.rs"), ("running a call over state that has to be fetched", "crates/evm/src/async_db.rs"), ("what a call asks for", "crates/evm/src/tx_env_modifier.rs")],
  observe=["answer or error of each question; which content was asked for"],
  technique=RM+"questions about random states served node by node by scripted networks with faults, compared with an independent model of the state and of the call",
  level_note="the machine that runs code is a stand-in with a small instruction set; calls name their recipient; states of up to a few hundred accounts"),
 dict(id="R02", title="A block asked for is the block of that hash or number, complete",
  statement="The block a node reports for a hash or number carries exactly the fields of the header and body the networks hold for it: its hash, size, transactions or their hashes, uncles and withdrawals. A block that the networks do not hold, or hold only in part or damaged, is an error and never another or an incomplete block.",
  over=["inputs", "fault_sequences"], q="every block of every fork, asked for by hash or number, and every fault in the content",
  why="Tests compare a few recorded blocks at most; most shapes of blocks and faults are not among them.",
  files=[P+"eth_rpc.rs", P+"fetch.rs"],
  mech=[("blocks", P+"eth_rpc.rs get_block_by_hash"), ("fetching content", P+"fetch.rs")],
  observe=["every field of the reported block, or the error"],
  technique=RM+"random blocks of all forks served by scripted networks with faults, compared field by field with an independent model",
  level_note="blocks of up to a handful of transactions"),
 dict(id="R03", title="A call for a network reaches that network, and its answer comes back",
  statement="Each call for one of the networks reaches exactly that network, once, as the question it stands for and with exactly its arguments, and the answer or failure of the network is what the caller gets, whichever calls are under way at the same time. Arguments that cannot be understood are refused without asking the network, and a network that is gone leads to an error instead of silence.",
  over=["inputs", "schedules", "fault_sequences"], q="every method of every network, argument, answer and order of answers",
  why="There are dozens of methods for three networks that differ in single words; tests with live peers touch a few of them.",
  files=[P+"legacy_history_rpc.rs", P+"state_rpc.rs", P+"beacon_rpc.rs", P+"fetch.rs", P+"serde.rs", P+"errors.rs"],
  mech=[("legacy history methods", P+"legacy_history_rpc.rs"), ("state methods", P+"state_rpc.rs"), ("beacon methods", P+"beacon_rpc.rs"), ("handing over", P+"fetch.rs proxy_to_subnet")],
  observe=["question that arrives at each network, and what the caller gets"],
  technique=RM+"random concurrent calls through the registered methods, with scripted networks behind them that record questions and answer in random order",
  level_note="up to a dozen calls under way at once"),
 dict(id="R04", title="Exactly the enabled methods are served where configured, until stopped",
  statement="A started node serves, at each place it is configured to, exactly the methods of the networks and groups that are enabled, over the transports that are enabled, until it is stopped. A configuration that cannot be served makes the start fail and leaves nothing behind, and what the methods about the node itself report agrees with what was done before.",
  over=["configurations", "histories"], q="every combination of transports, places, groups, networks and origins, and every history of calls about the node",
  why="Tests start one configuration.",
  files=[P+"lib.rs", P+"builder.rs", P+"rpc_server.rs", P+"cors.rs", P+"discv5_rpc.rs", P+"web3_rpc.rs"],
  mech=[("choice of methods", P+"builder.rs"), ("start and stop", P+"rpc_server.rs"), ("launch", P+"lib.rs launch_jsonrpc_server"), ("methods about the node", P+"discv5_rpc.rs")],
  observe=["methods registered at every place after each step, outcome of start and stop, answers about the node"],
  technique=RM+"random configurations started and stopped against a registry of served modules, and random histories of calls against a model of the routing table",
  level_note="the registry of modules stands in for sockets"),
 dict(id="R05", title="A command line is accepted exactly if it makes sense, and every part counts",
  statement="A command line is accepted exactly if each of its parts is well-formed and they do not contradict each other. Every accepted part then reaches the configuration of the node with the meaning it was given, and parts that were left out have their documented defaults.",
  over=["configurations", "inputs"], q="every combination and order of options with well-formed and malformed values",
  why="Tests try single options.",
  files=["bin/trin/src/cli.rs", "crates/portalnet/src/config.rs", "crates/portalnet/src/utils/db.rs", "crates/utils/src/cli.rs"],
  mech=[("options", "bin/trin/src/cli.rs"), ("conversion into the node's settings", "bin/trin/src/cli.rs as_portalnet_config and as_node_runtime_config")],
  observe=["verdict on each command line and every resulting setting"],
  technique=RM+"random command lines against an independent model of their meaning",
  level_note="up to a dozen options per line; lines are given as words, not through a shell or the environment"),
 dict(id="R06", title="Complete nodes keep and hand out exactly what they were given or can prove",
  statement="Whatever is stored, offered, looked up or asked for among nodes that run all of their parts, each node keeps exactly what was stored with it or what it could prove, reports it unchanged, and finds what a node it knows holds. Nothing is kept or reported that nobody gave, networks a node does not take part in stay silent, and a restarted node has the same identity and still holds what it held.",
  over=["histories", "configurations"], q="every history of calls to nodes with any choice of networks, meetings and restarts",
  why="Tests with several complete nodes need live processes and check single exchanges.",
  files=["bin/trin/src/run.rs", "bin/trin/src/handle.rs", "bin/trin/src/cli.rs", "crates/portalnet/src/overlay/protocol.rs", P+"lib.rs"],
  mech=[("assembling a node", "bin/trin/src/run.rs run_trin_internal"), ("choice of networks", "bin/trin/src/run.rs"), ("identity kept on disk", "crates/portalnet/src/utils/db.rs configure_node_data_dir")],
  observe=["answers of every call at every node, content held by every node before and after every step"],
  technique=RM+"random histories of calls to two or three complete nodes over a simulated network and clock, against a model of what each may hold",
  level_note="up to 45 steps; transports are in memory; a restart keeps the process"),
]
