P = "crates/portalnet/src/"
RM = "runtime monitoring: "
PROPS = [
 dict(id="N01", title="Framed transfers give back exactly the items sent",
  statement="Items framed for one transfer are recovered exactly, in number, order and content, for every protocol version, and a frame is recovered only if it is exactly a frame. Malformed, cut or lying frames are refused without a crash and without using memory out of proportion to what was received.",
  over=["inputs"], q="any list of items of any size, and every cut, extension and altered length",
  why="Unit tests frame a few fixed items.",
  files=["crates/ethportal-api/src/types/portal_wire.rs", P+"utils/portal_wire.rs"], mech=[("length prefix", P+"utils/portal_wire.rs"), ("accept codes per version", "crates/ethportal-api/src/types/accept_code.rs")],
  observe=["decoded items, refusals, memory use"],
  technique=RM+"generated and damaged frames against an independent reader; allocation monitor",
  level_note="random item lists with boundary sizes, every kind of damage"),
 dict(id="N02", title="A content item is transferred from one offering peer at a time",
  statement="While a transfer of an item from one peer is running no other offer of the same item is accepted, and the other offering peers are remembered as alternatives, each once and never the one that failed. After the transfer ends, fails for good or has run for too long, the item can be accepted anew.",
  over=["histories", "schedules"], q="every order of offers, completions, failures and waits for several peers and items",
  why="Unit tests go through one order of events.",
  files=[P+"accept_queue.rs"], mech=[("queue per item", P+"accept_queue.rs add_key_to_queue"), ("expiry", P+"accept_queue.rs")],
  observe=["acceptance answers and alternatives given, under a virtual clock"],
  technique=RM+"random event histories against a reference queue under a virtual clock",
  level_note="a handful of peers and keys, hundreds of thousands of events"),
 dict(id="N03", title="The routing table shows current records, states and distances",
  statement="The routing table reports for every peer the newest record seen, its latest announced radius and connection state; peers listed by distance are exactly those at the asked distances, and the closest peers to any target are the connected ones in order of distance. A peer that was removed or never inserted is not listed.",
  over=["histories"], q="every order of insertions, updates, disconnections and removals of peers with changing records",
  why="Unit tests insert a few peers.",
  files=[P+"types/kbucket.rs"], mech=[("insertion and update", P+"types/kbucket.rs"), ("views by distance", P+"types/kbucket.rs nodes_by_distances")],
  observe=["views of the table after each step"],
  technique=RM+"random table histories against a model of the table",
  level_note="tables up to a few hundred peers; which peer gives way in a full bucket is taken from the library stand-in"),
 dict(id="N04", title="Content is spread only to connected peers interested in it",
  statement="Content is spread only to peers that are connected and whose radius covers it, or to all connected peers for content without distance, the closest first and the rest spread over all interested peers, and to at most the configured number. Nobody is chosen twice.",
  over=["inputs", "configurations"], q="every table of connected and disconnected peers with any radius, and any set of items",
  why="Unit tests use a small table with few radii.",
  files=[P+"gossip/neighborhood.rs", P+"types/kbucket.rs", P+"put_content.rs"], mech=[("interested peers", P+"types/kbucket.rs batch_interested_enrs"), ("selection", P+"gossip/neighborhood.rs")],
  observe=["recipients per item"],
  technique=RM+"random tables and items against the set of interested peers",
  level_note="random choices of the code are accepted as long as the sets are right"),
 dict(id="N05", title="Peer lookups ask the closest peers first and always end",
  statement="A peer lookup asks only peers it was told of, never one twice, never more at once than allowed, and always the closest not asked yet. It ends when the closest peers have answered or failed or its time is over, whatever peers answer or leave unanswered, and its result is the closest peers that answered.",
  over=["schedules", "fault_sequences"], q="every order of answers, failures, silences and late answers of any set of peers",
  why="Unit tests use cooperative random networks.",
  files=[P+"find/iterators/findnodes.rs", P+"find/query_pool.rs"], mech=[("states of peers", P+"find/iterators/findnodes.rs"), ("expiry of the whole lookup", P+"find/query_pool.rs")],
  observe=["peers asked, states and results, under a virtual clock"],
  technique=RM+"hostile answer schedules against a model of the lookup under a virtual clock",
  level_note="up to some tens of peers, parallelism 1 to 8"),
 dict(id="N06", title="Content lookups survive bad answers and always end",
  statement="A content lookup asks the closest peers first, none twice and never more at once than allowed, and offers every received content for validation. It ends with the first content that proves valid and names its sender; invalid content or failing peers do not end it while there are peers left to ask. It always ends.",
  over=["schedules", "fault_sequences"], q="every order of answers with peers, with valid or invalid content, by direct answer or by transfer, failures and silences",
  why="Unit tests cover a few orders.",
  files=[P+"find/iterators/findcontent.rs", P+"find/query_pool.rs"], mech=[("pending validations", P+"find/iterators/findcontent.rs"), ("peer timeouts", P+"find/iterators/findcontent.rs")],
  observe=["peers asked, validations, results, under a virtual clock"],
  technique=RM+"hostile answer schedules against a model of the lookup under a virtual clock",
  level_note="up to some tens of peers, parallelism 1 to 8"),
 dict(id="N07", title="Requests and events reach the network they are for",
  statement="A request is handed to the running network whose protocol number it carries, transfer packets to the transfer socket, and all others to nobody. An event is handed once to every running network it is addressed to and never back to its origin, in order.",
  over=["inputs", "configurations"], q="every set of running networks, every chain configuration, any sequence of requests and events",
  why="Unit tests cover one configuration.",
  files=[P+"events.rs"], mech=[("dispatch by protocol number", P+"events.rs dispatch_discv5_talk_req"), ("event recipients", P+"events.rs handle_event")],
  observe=["messages received by each network"],
  technique=RM+"random traffic against an independent table of protocol numbers",
  level_note="three networks, three chains"),

 dict(id="N08", title="Requests of peers are answered from the node's current state",
  statement="Asked by a peer, a node answers with its current radius, with the records at exactly the asked distances, with stored content directly or by a transfer that delivers exactly that content, and otherwise with the closest connected peers, never the asking one. Answers fit into one packet and malformed requests are refused without harm.",
  over=["histories", "inputs"], q="any sequence of well-formed and malformed requests by peers of any protocol version, with any stored content",
  why="Unit tests call single handlers with one peer.",
  files=[P+"overlay/service/find_content.rs", P+"overlay/service/find_nodes.rs", P+"overlay/service/ping/mod.rs", P+"overlay/service/manager.rs"],
  mech=[("answers", P+"overlay/service/manager.rs handle_request"), ("inline or by transfer", P+"overlay/service/find_content.rs handle_find_content")],
  observe=["answers and transferred bytes on a simulated network"],
  technique=RM+"a running node among scripted peers on a simulated network and clock, against a model of its state",
  level_note="up to ten peers; discovery and transfer protocols are stand-ins"),
 dict(id="N09", title="Offered content is taken only if wanted, proven and complete",
  statement="An offered item is accepted exactly if it is wanted, not stored, not already being received and there is room for a transfer; only items proven canonical are stored and spread, unchanged. When a transfer is broken, incomplete or wrong, one other peer that offered the item is asked instead, and afterwards every item still missing is accepted again and no room is lost.",
  over=["histories", "fault_sequences", "schedules"], q="overlapping offers by several peers, with complete, bad, cut, miscounted, missing and stalled transfers, and good and bad alternatives",
  why="Unit tests never let a transfer fail.",
  files=[P+"overlay/service/offer.rs", P+"accept_queue.rs", P+"utp/controller.rs"],
  mech=[("decision per item", P+"overlay/service/offer.rs handle_offer"), ("alternatives", P+"overlay/service/offer.rs fallback_find_content"), ("room for transfers", P+"utp/controller.rs")],
  observe=["answers, stored items, requests to alternatives, offers to others"],
  technique=RM+"a running node among scripted peers on a simulated network and clock, against a model of offers and transfers",
  level_note="two to six peers, two to eight items, up to four rounds per case"),
 dict(id="N10", title="Content is found if a responsive chain of peers leads to it",
  statement="A content lookup returns a valid value that some peer sent for exactly that key, names its sender, and stores it only if it is canonical and wanted. It finds the content whenever peers that answer in time lead to a holder, whatever other peers do, and it ends promptly when nobody keeps it waiting and within its time limit otherwise.",
  over=["schedules", "fault_sequences", "configurations"], q="any network of honest, silent, slow, lying, garbling and nonexistent peers of any protocol version, several lookups at once",
  why="Unit tests drive the lookup by hand with cooperative peers.",
  files=[P+"overlay/service/find_content.rs", P+"overlay/service/manager.rs", P+"find/iterators/findcontent.rs", P+"overlay/protocol.rs"],
  mech=[("processing of received content", P+"overlay/service/find_content.rs process_received_content"), ("service loop", P+"overlay/service/manager.rs start")],
  observe=["results, times, traces, stored items, requests sent"],
  technique=RM+"a running node among scripted peers on a simulated network and clock, against reachability in the peer graph",
  level_note="up to twelve peers and three lookups at once; time is virtual"),
 dict(id="N11", title="Peers receive exactly the offered items they accepted",
  statement="A peer receives exactly those offered items it accepted, in order and unchanged, and nothing if it accepted none; the reported outcome is what the peer answered, or failure if the transfer failed. Content put into the network is stored if wanted, offered only to connected peers whose radius covers it and to as many as reported, also after any number of failed transfers.",
  over=["histories", "fault_sequences"], q="any sequence of offers to peers of any protocol version that accept all, part or none, miscount, garble, stay silent or break the transfer",
  why="Unit tests do not transfer anything.",
  files=[P+"overlay/service/offer.rs", P+"overlay/protocol.rs", P+"put_content.rs", P+"utp/controller.rs"],
  mech=[("accepted items", P+"overlay/service/offer.rs process_accept"), ("spreading", P+"put_content.rs")],
  observe=["items received by peers, reported outcomes, offers sent"],
  technique=RM+"a running node among scripted peers on a simulated network and clock",
  level_note="up to five peers and eight offers per case"),
 dict(id="N12", title="A record lookup returns the asked node's own newest record",
  statement="Looking up a node's record returns a record of exactly that node, not older than the one already known and the newest the node itself hands out; a responsive node known to a responsive connected peer is found and an unknown one is not. A node lookup returns distinct nodes that answered, the closest first.",
  over=["fault_sequences", "configurations"], q="any network of peers with older and newer records, silent peers and peers that hand out foreign records",
  why="Unit tests use cooperative peers with one record each.",
  files=[P+"overlay/protocol.rs", P+"overlay/service/find_nodes.rs", P+"find/query_info.rs"],
  mech=[("record lookup", P+"overlay/protocol.rs lookup_enr"), ("distances asked for", P+"find/query_info.rs")],
  observe=["records returned, requests sent"],
  technique=RM+"a running node among scripted peers on a simulated network and clock",
  level_note="up to eight peers and three strangers"),
 dict(id="N13", title="Peers that stop answering are dropped and returning ones watched",
  statement="Every connected peer is asked for a sign of life once per interval; one that stops answering is soon neither named to others nor offered content, and one heard from again is trusted and watched again. The radius and the newer record a peer announces replace the old ones within an interval.",
  over=["histories", "fault_sequences"], q="any history of peers falling silent, returning and changing radius or record",
  why="Unit tests do not let time pass.",
  files=[P+"overlay/service/manager.rs", P+"overlay/service/ping/mod.rs", P+"overlay/service/ping/handlers.rs"],
  mech=[("ping queue", P+"overlay/service/manager.rs start"), ("announced radius", P+"overlay/service/ping/handlers.rs")],
  observe=["signs of life asked for, peers named and offered content, records kept"],
  technique=RM+"a running node among scripted peers on a simulated network and clock",
  level_note="up to five peers over up to seven intervals"),
]
