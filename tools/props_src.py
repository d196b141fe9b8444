#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one JSON object per line). Run: python3 tools/props_src.py"""
import json, os

P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "A realm's storage stays within its space; the furthest Flos go first",
 """Whatever sequence of Flos, newer versions and attachments reaches a node, what it stores for a realm never
 exceeds the space configured for that realm (as long as the realm's own Flo fits), the size, the number of Flos and their
 distribution over the distances which the node reports are those of the stored entries, and the realm's own Flo is never evicted. Space is freed by evicting entries furthest (fewest common
 leading ID bits) from the node first. A Flo the node does not hold (and which is not larger than a third of the space, which is
 always refused) is stored if it fits or if the evictable entries strictly further away than it occupy at least its size, and otherwise it is refused without evicting anything, so Flos never push each other in and out in a cycle.""",
 ["histories", "inputs"], "all sequences of storing, updating and attaching Flos of any size and distance into a realm of any space",
 "The unit tests store a few handmade series of equal-sized Flos and look at counts; they do not cover mixed sizes, updates that grow a Flo, attachments that grow an entry, or ties at one distance.",
 ["flmodules/src/dht_storage/core.rs"],
 [("upsert / space accounting / remove furthest", "dht_storage/core.rs RealmStorage::upsert_flo, put, remove_furthest")],
 [("size", "bytes accounted for the realm", "dht_storage/core.rs RealmStorage"), ("distances", "Flo ids by distance", "dht_storage/core.rs RealmStorage")],
 ["RealmStorage::get_flo_metas", "RealmStorage::size", "DHTStorage.stats"])

prop("C02", "A stored Flo is never replaced by an older or equal version",
 """As long as a node holds a Flo, the version it holds, returns to readers and announces to its neighbours never goes back:
 an older or equal version arriving by any path (local store, routed store, reply to a read, neighbour synchronisation) leaves the
 held content unchanged, and a strictly newer version replaces it when it can be kept within the realm's space.
 Only Flos the node did not hold, or newer versions of those it holds, are passed on as new, each exactly once and to its own place.
 A read of a Flo which the node does not hold is asked of the network exactly once, and what the network answers (the Flo, or that it is missing)
 is reported to the reader exactly once.""",
 ["histories", "schedules"], "all interleavings of versions of several Flos arriving through all four paths",
 "Tests update one Flo once along one path; reordering, duplicates and stale replies are not sampled.",
 ["flmodules/src/dht_storage/core.rs", "flmodules/src/dht_storage/intern.rs", "flmodules/src/flo/flo.rs"],
 [("version comparison on store", "dht_storage/core.rs RealmStorage::upsert_flo"), ("store paths", "dht_storage/intern.rs Messages::store_flo, msg_dest, msg_neighbour")],
 [], ["DHTStorageOut::FloValue", "DHTStorageOut::FloValues", "messages to the DHT router"])

prop("C03", "Attachments of a held Flo are never lost or duplicated",
 """Once an attachment (cuckoo) has been recorded for a parent Flo a node holds, it stays listed exactly once with that parent for
 as long as the node keeps the parent: across newer versions of the parent, repeated or reordered attachment messages, and a restart of the node.
 Every path that reports attachments (reading the Flo, asking for its attachments, neighbour synchronisation) reports the same set, and nothing that was not attached is reported;
 asking for the attachments of a Flo always asks the network too, and what it answers is reported exactly once.""",
 ["histories", "crash_points"], "all histories of storing parents and children, explicit attachment messages, parent updates and restarts",
 "The only tests attach once and read once; none updates the parent or restarts afterwards.",
 ["flmodules/src/dht_storage/core.rs", "flmodules/src/dht_storage/intern.rs"],
 [("attachment list of an entry", "dht_storage/core.rs RealmStorage::store_cuckoo_id, put"), ("attachment messages", "dht_storage/intern.rs Messages::msg_routing, msg_dest, msg_neighbour")],
 [("cuckoos", "ids attached to an entry", "dht_storage/core.rs FloStorage")],
 ["DHTStorageOut::CuckooIDs", "DHTStorageOut::FloValue"])

prop("C04", "Everything a node stored is there again after a restart",
 """At any point between two messages, a node that stops and starts again from its persistent storage holds exactly the realms,
 Flos, versions and attachments, and the gossip events, which it held before stopping. This includes changes that arrived from other nodes,
 not only locally stored ones. Starting and stopping without traffic changes nothing.""",
 ["histories", "crash_points"], "every prefix of every message history of the DHT storage and gossip modules as stopping point",
 "No test restarts a node after remote updates, evictions or attachments; persistence tests store and reload one value.",
 ["flmodules/src/dht_storage/intern.rs", "flmodules/src/gossip_events/intern.rs", "flmodules/src/gossip_events/core.rs"],
 [("write-through after each change", "dht_storage/intern.rs Messages::store; gossip_events/intern.rs Messages::update"), ("load at start", "dht_storage/intern.rs Messages::new; gossip_events/broker.rs Gossip::start")],
 [], ["DataStorage contents", "DHTStorageOut::FloValues", "Gossip::events"])

prop("C05", "Neighbours that synchronise end up with the same Flos and attachments",
 """When DHT-storage nodes that accept the same realms and have enough space are neighbours and messages are no longer lost, the periodic
 synchronisation leads every one of them to hold the newest version any of them held of every Flo, with attachments of at least the largest known number for it,
 whatever they held before and in whatever order messages arrive. After that a further synchronisation round transfers no Flos at all.
 Synchronisation never makes a node hold a Flo, version or attachment which no node held before.""",
 ["schedules", "histories"], "all initial distributions of Flos/versions/attachments over small sets of nodes and all delivery orders",
 "The simulated-network test runs one topology with one propagation order and one version of each Flo.",
 ["flmodules/src/dht_storage/intern.rs", "flmodules/src/dht_storage/core.rs"],
 [("realm ids -> metas -> request -> flos protocol", "dht_storage/intern.rs Messages::msg_neighbour"), ("what is missing", "dht_storage/core.rs RealmStorage::sync_available")],
 [], ["DHTStorageOut::FloValues on each node", "messages between neighbours"])

prop("C06", "A node only stores realms it accepts and Flos of realms it holds",
 """A node configured with a list of accepted realms never stores, requests from its neighbours, or announces a realm which is not in that list
 (or was not added to it by the system), and a node with an empty list accepts all. A Flo of a realm the node does not hold is never kept,
 wherever it comes from, and is never stored with another realm. A realm becomes held only by receiving its realm Flo.""",
 ["histories", "configurations"], "all accepted-realm configurations and all sequences of Flos, realm announcements and replies from several realms",
 "Tests use a single realm and a default (accept-all) configuration.",
 ["flmodules/src/dht_storage/intern.rs", "flmodules/src/dht_storage/core.rs"],
 [("realm filter", "dht_storage/core.rs DHTConfig::accepts_realm; dht_storage/intern.rs create_realm, AvailableRealmIDs")],
 [], ["DHTStorageOut::RealmIDs", "messages to the DHT router"])

prop("C07", "The DHT routing table holds each known node once, in its place",
 """After any history of nodes appearing, answering, being silent and disconnecting, the routing table holds no node twice and never the node itself, sorts every node by its
 exact distance (number of common leading ID bits), keeps per distance at most the configured number k of active and 2k waiting nodes (the last bucket, for all nodes nearer than the
 others, holds less than 2k nodes, or less than k besides those of its furthest distance), and counts a node as active only after something was received from it, then at once if there is a place.
 Nodes are only forgotten when they disconnect, time out, or find no place. A disconnected node is no longer in the table or used for routing, and a waiting node for which there is a free active place is pinged.""",
 ["histories"], "all histories of node lists, answers, timer ticks and disconnections, for all IDs and bucket sizes",
 "Unit tests add a fixed series of nodes to a table; removal, disconnection and promotions in arbitrary order are not sampled.",
 ["flmodules/src/dht_router/kademlia.rs", "flmodules/src/dht_router/intern.rs"],
 [("buckets", "dht_router/kademlia.rs Kademlia, KBucket"), ("adding/removing", "dht_router/kademlia.rs add_node, node_active, node_disconnected, rebalance")],
 [("buckets / root_bucket", "active and cached nodes per distance", "dht_router/kademlia.rs Kademlia")],
 ["Kademlia API", "DHTRouter.stats", "DHTRouterOut::NodeList", "pings sent to the network"])

prop("C08", "Silent DHT neighbours are pinged, then dropped; answering ones are kept",
 """A node in the routing table (if active, or waiting while there may be a place for it) which has been silent is pinged every ping interval, and is dropped exactly when it has been silent for the ping timeout
 (a newly known node counts as silent for one tick less than the interval, so is pinged at the next tick); a node
 from which anything was received is never dropped before a full timeout has passed since. Every ping received from a node is answered with a pong to that node.
 Every list of active nodes published to the upper layer is the set of active
 nodes in the table, and at every tick each active node is asked exactly once which nodes it knows.""",
 ["histories", "fault_sequences"], "all timings of answers, losses and ticks of several nodes",
 "The timeout test walks one node through one fixed series of ticks.",
 ["flmodules/src/dht_router/kademlia.rs", "flmodules/src/dht_router/intern.rs"],
 [("tick / ping", "dht_router/kademlia.rs KBucket::tick, KNode; dht_router/intern.rs Messages::tick, ping")],
 [], ["DHTRouterOut::NodeList", "Ping/Pong messages to the network"])

prop("C09", "DHT routing reaches the right node, once, without loops",
 """Whatever the (possibly incomplete) routing tables of the nodes are, a message routed to a key or to a node visits no node twice and ends after finitely many hops: each hop either goes to the
 destination itself or to a connected node that is closer to the key (or as close, with a finer place in the table). A message to a node is delivered there and only there, exactly once,
 whenever the nodes on the way know how to reach it; a message to the closest node is delivered finally exactly once, at a node which knows no closer node than itself (if this is the origin, it is not sent) - and which, where it received the message from another node, has also no finer place in its table left to try, the very finest excepted. Every node passed on the way sees the message exactly once as a routed message.
 A message to all neighbours is sent to every active node once, one to a neighbour exactly to that one.""",
 ["configurations", "inputs"], "all node IDs, keys, table contents and origins in small networks",
 "Tests route in a handful of random networks and only check that the message arrives.",
 ["flmodules/src/dht_router/kademlia.rs", "flmodules/src/dht_router/intern.rs"],
 [("next hop", "dht_router/kademlia.rs route_closest, route_direct"), ("forwarding", "dht_router/intern.rs message_closest, message_dest")],
 [], ["DHTRouterOut::MessageRouting/MessageClosest/MessageDest on every node"])

prop("C10", "The gossip store is bounded, duplicate-free and keeps the newest events",
 """After any sequence of events, the store of each category holds at most its limit of events, each event once, and for categories with one event per source only the newest event of that source; and
 what it holds is exactly the newest events of those received. The result does not depend on the order in which the events arrived, or on how they were grouped or repeated.
 An event is reported as new if and only if it was added to the store.""",
 ["histories", "inputs"], "all multisets of events (including equal timestamps) in all arrival orders and groupings",
 "Tests add a few events with increasing timestamps in one order.",
 ["flmodules/src/gossip_events/core.rs"],
 [("insert, limit, unique", "gossip_events/core.rs EventsStorage::insert / GossipCore")],
 [], ["Gossip::events", "GossipOut::NewEvent"])

prop("C11", "Gossip reaches every connected node, and falls silent again",
 """Events that enter at any node of a connected set of nodes reach all of them (unless displaced by newer ones everywhere), each node announces an event that is new to it to its other
 neighbours at most once and requests exactly those events
 announced to it which it does not hold and has not just asked for, and once all nodes hold the same events no more events are transferred until a new one appears.
 Every neighbour is asked again and again for the events it knows, so that what was lost
 is made up for. A request for events is answered with exactly those requested events the node holds, and a message from a node never makes an unrelated node's message be answered to it.""",
 ["schedules", "fault_sequences"], "all delivery orders of the gossip messages in small networks, with connections and disconnections, incl. lost messages followed by a new tick",
 "Tests pass messages by hand between two or three nodes in one order.",
 ["flmodules/src/gossip_events/intern.rs", "flmodules/src/gossip_events/core.rs"],
 [("exchange of known ids / requests / events", "gossip_events/intern.rs, gossip_events/core.rs")],
 [], ["messages to RandomConnections", "Gossip::events"])

prop("C12", "Random connections stay disjoint, never to self, and carry only own traffic",
 """At every moment a node's lists of connected nodes and of nodes it is connecting to are disjoint, duplicate-free and never contain the node itself; a node is in the connected list exactly from the moment the network reports it connected (or hands over a message from it) until the network reports
 it disconnected, it asks for the connection to be dropped, or the upper layer reports it as failed. A message from the upper layer is sent only to connected nodes, and is otherwise dropped.
 As long as enough nodes are known, the node asks for connections until it has the required number (half of it at once, the rest one by one), and never asks to connect to itself or to a node it is already connected or connecting to. A connection which is not there after 10 ticks is given up, and this node can be chosen again.""",
 ["histories", "schedules"], "all histories of node lists, (dis)connections, failures, messages and ticks",
 "Tests exercise single transitions from a fresh state.",
 ["flmodules/src/random_connections/core.rs", "flmodules/src/random_connections/nodes.rs", "flmodules/src/random_connections/intern.rs"],
 [("connected/connecting/known lists", "random_connections/core.rs RandomConnections"), ("upper layer messages", "random_connections/intern.rs")],
 [], ["RandomOut::ListUpdate etc.", "NetworkIn::Connect/Disconnect/MessageToNode", "RandomBroker.stats"])

prop("C13", "Peer connections: (dis)connected events alternate, data only when connected",
 """For every remote node, the network layer reports 'connected' and 'disconnected' strictly alternating, starting with 'connected', for any order in which the two directions of the
 connection are set up, established, lost or reset. Connecting to or sending to a node without a connection starts exactly one outgoing set-up, connecting to an already connected node starts none, setup messages are relayed through
 the signalling server with the right initiator and direction, and a data message is handed to the connection of the addressed node only. Messages received from a peer are reported with that peer as sender, and no text of a peer stops the network layer. The published list of connections holds exactly the nodes which are connected.""",
 ["schedules", "fault_sequences"], "all interleavings of both directions' connection states with user commands and signalling messages for several nodes",
 "The unit tests have one happy-path set-up between two simulated nodes.",
 ["flmodules/src/network/intern.rs", "flmodules/src/network/broker.rs"],
 [("per-node in/out connection state", "network/intern.rs"), ("setup via signalling server", "network/intern.rs msg_ws / msg_node")],
 [("connections", "state of both directions per node", "network/intern.rs Intern")],
 ["NetworkOut::Connected/Disconnected/MessageFromNode", "WSClientIn", "WebRTCConnIn"])

prop("C14", "The router reports the true set of available and connected nodes",
 """Whatever the sequence of node lists and (dis)connections reported by the network or random-connection layer, the router's published lists of available and connected nodes are exactly those implied by that
 sequence (of a node's infos only the newest), and above the network layer it reports a node as connected or disconnected exactly when its membership in the connected set changes. A node's network statistics show the same: the last list of nodes online, the connected nodes, the newest info of every node ever listed and the last state of every connection. Wrapped messages pass unchanged and exactly once between the addressed node and the upper layer.""",
 ["histories"], "all sequences of lists, connection and message events for several nodes",
 "Router tests send one list and one message.",
 ["flmodules/src/router/broker.rs", "flmodules/src/router/messages.rs", "flnode/src/stat.rs"],
 [("bookkeeping", "router/broker.rs RouterNetwork, RouterRandom")],
 [], ["RouterOut::*"])

prop("C15", "The signalling server only relays for authenticated nodes",
 """A connection to the signalling server acts under a node ID only after it presented, once and as the reply to the challenge the server issued for exactly that connection, a signature of that challenge that verifies under the public
 key from which that node ID is derived. Before that, none of its set-up messages are relayed to another node, nothing is sent to it as if it were that node, and no announcement with a wrong signature, an altered identity or a challenge replayed from
 another connection changes which connection a node ID is bound to.""",
 ["inputs", "histories", "fault_sequences"], "all sequences of connections and (honest, corrupted, replayed) announcements from several connections",
 "Tests announce honest nodes only.",
 ["flmodules/src/network/signal.rs", "flmodules/src/nodeconfig.rs"],
 [("challenge/announce", "network/signal.rs SignalServer::ws_announce"), ("signature", "nodeconfig.rs NodeInfo::verify, get_id")],
 [("connection_ids / info", "which connection speaks for which node", "network/signal.rs SignalServer")],
 ["WSServerIn messages emitted by the server", "SignalOut"])

prop("C16", "The signalling server relays set-ups to the right peer and tracks who is there",
 """A peer set-up message is forwarded, unchanged and exactly once, to the connection of the other node named in it if and only if the sender is one of the two named nodes and the other is announced; otherwise nobody receives it.
 The node list a client gets contains announced nodes only, and a node is dropped exactly when it was silent for the configured number of minutes, when its connection ends, or when the same node announces itself on a
 newer connection, which then receives all messages for it. Whatever happens to an older connection of a node does not affect the newer one.""",
 ["histories", "fault_sequences"], "all sequences of connects, announcements, set-ups, list requests, disconnections and timer ticks of several clients",
 "Tests run two clients through one set-up and one timeout.",
 ["flmodules/src/network/signal.rs"],
 [("relay", "network/signal.rs SignalServer::ws_peer_setup/send_msg_node"), ("TTL", "network/signal.rs SignalServer::msg_ttl")],
 [], ["WSServerIn messages emitted by the server", "SignalOut"])

prop("C17", "Access conditions are satisfied exactly by the right signatures",
 """For every access condition built from verifiers, badges, n-of-t thresholds, always and never, a set of signatures satisfies it if and only if it contains valid signatures over exactly the given message from a set of signers that fulfils it: one signer its own, a badge its inner condition,
 n-of-t at least n of its branches. Adding further signatures of others never turns a satisfied condition into an unsatisfied one, invalid or foreign signatures never count, malformed signatures never crash the check, and a condition matches a link if and only if they have the same structure and identities. Whether given signers could fulfil a condition is answered by the same rule, and resolving a link yields for every
 part the verifier or badge it names, a badge only in a version the link accepts, and otherwise a part nobody can fulfil.""",
 ["inputs"], "all conditions up to a nesting depth over several signers, all subsets of valid, wrong and malformed signatures",
 "Tests sign one condition of each kind with exactly the needed signers.",
 ["flcrypto/src/access.rs", "flcrypto/src/signer.rs", "flcrypto/src/signer_ed25519.rs"],
 [("signature collection and check", "flcrypto/src/access.rs Condition, ConditionLink, ConditionSignature"), ("ed25519", "flcrypto/src/signer_ed25519.rs")],
 [], ["Condition API", "ConditionSignature API"])

prop("C18", "A Flo verifies only with a complete, properly signed history",
 """A Flo whose creation and every later change of content was signed as its access condition in force requires verifies, after any sequence of such changes and after being serialized and read back. It no longer verifies if its content, its
 history, a signature, or its access condition is altered, an update is dropped from the middle, reordered or signed by signers who do not fulfil the condition in force; and its ID never changes with updates and differs for different type, configuration or initial access condition.""",
 ["inputs", "histories"], "all sequences of signed edits under all kinds of conditions and all single tamperings of the result",
 "Tests edit a Flo once and verify it.",
 ["flmodules/src/flo/flo.rs", "flcrypto/src/access.rs"],
 [("history and verification", "flmodules/src/flo/flo.rs Flo::verify, edit_sign_data, update_data")],
 [], ["Flo::verify", "Flo::flo_id", "Flo::version"])

prop("C19", "A broker delivers every message once, in order, to everyone entitled to it",
"""Every message emitted to a broker (in either direction) is delivered exactly once and in the order of emission to every tap, handler and linked broker that was attached before the message was emitted and has not been removed, whichever tasks emit and however they interleave; all subscribers of one direction of a broker see its messages in the same order.
A tap is skipped only if the message asks for it (at the broker where it is emitted; linked brokers treat it like any other), a handler only if the message is marked as coming from this handler. What a handler returns goes once to the broker's outputs and not back into handlers.
A closed, removed or late subscriber does not affect the others, what was emitted before a removal or before the last handle of a broker is dropped is still delivered, and what is emitted after a removal is not.""",
["schedules", "histories"], "all interleavings of emitting, subscribing, unsubscribing and dropping over several brokers and tasks",
"Tests emit a few messages from one task.",
["flarch/src/broker.rs"],
[("queue and processing loop", "flarch/src/broker.rs Intern::process"), ("taps, handlers, translators", "flarch/src/broker.rs Subsystem")],
[], ["taps, handlers and linked brokers"])

prop("C20", "Linked brokers never loop messages, and settling waits for all of them",
"""In any graph of linked brokers, cycles and links of a broker with itself included, a message emitted once is handled a finite number of times: every broker receives it once for every path of links on which no broker forwards twice. A message which returns to a broker that has already forwarded it is delivered there, but not forwarded again. What a handler returns is a new message.
When a call that settles a broker returns, every message emitted before to that broker, and everything forwarded or produced because of it along chains of links in which no broker appears twice, has been delivered to the subscribers. Calls that settle, or remove a subscriber, always return, also if several of them happen at the same time in brokers which are linked in a loop.""",
["configurations", "schedules"], "all small graphs of links of all four kinds, and all emission points",
"Tests link two or three brokers in fixed shapes.",
["flarch/src/broker.rs"],
[("trail / Destination::Forwarded", "flarch/src/broker.rs process_translate_*"), ("settle", "flarch/src/broker.rs Intern::get_msg Settle")],
[], ["taps of all brokers"])

prop("C21", "A text sent over a peer connection arrives whole, once, in one piece",
 """Any text, of any length and any characters, that is sent over a peer connection is handed to the other side exactly once and unchanged, also if its packets arrive interleaved with those of other texts or out of order; a text with missing packets is never delivered partially.
 Texts sent before a channel is open are kept and sent in order, at the latest when one of the two directions reports that it is connected or when the next text is sent while one is open, each packet once, over an open channel only, and small enough for a WebRTC message (64 kB); malformed or contradictory packets never crash the node or corrupt other texts.""",
 ["inputs", "schedules", "fault_sequences"], "all text lengths around the packet size, all Unicode content, all interleavings and losses of packets, all orders of opening and closing",
 "The test sends random alphanumeric strings of two lengths.",
 ["flarch/src/web_rtc/node_connection.rs"],
 [("splitting and collecting", "flarch/src/web_rtc/node_connection.rs Packet::split_msg, PacketCollector"), ("send queue", "flarch/src/web_rtc/node_connection.rs NodeConnection::send_queue")],
 [], ["NCOutput::Text", "WebRTCInput::Text"])

prop("C22", "A proxied web request gets its own answer, complete and in order",
 """Every web request that is proxied is sent to exactly one of the other connected nodes, chosen in turn, and the header and body pieces a client receives for its request are exactly those sent for that request by the proxying node, in the order they were sent and never mixed with
 those of a concurrent request. After the end of an answer nothing more is delivered for it. With no other node connected, no request is sent to anybody.""",
 ["schedules", "histories"], "all interleavings of several concurrent requests' answers, stray and late answers, and changes of the node list",
 "The only test fetches one real page over the network and is disabled here.",
 ["flmodules/src/web_proxy/core.rs", "flmodules/src/web_proxy/intern.rs", "flmodules/src/web_proxy/response.rs", "flmodules/src/web_proxy/broker.rs"],
 [("pending requests by nonce", "web_proxy/core.rs WebProxyCore::requests"), ("body channel", "web_proxy/core.rs handle_response, web_proxy/response.rs")],
 [], ["WebProxy::get", "Response::text/chunks", "RouterIn messages"])

prop("C23", "The file storage survives a crash during a write, and keeps keys apart",
 """After any sequence of writes and removals, reading a key returns the last value written to it (or nothing if it was never written or was removed), independent of all other keys and of storages with another base name in the same directory, and also from a newly opened storage.
 If the process dies or the disk fills up at any point during a write, a later read of that key returns either the complete old or the complete new value, and other keys are unaffected.""",
 ["histories", "crash_points"], "all sequences of operations on several keys and bases, and every byte position of a write as crash point",
 "Tests write one key and read it back.",
 ["flarch/src/data_storage/libc.rs", "flarch/src/data_storage.rs"],
 [("file per key", "flarch/src/data_storage/libc.rs DataStorageFile")],
 [], ["DataStorage::get"])

prop("C24", "The websocket server keeps its connections apart",
 """Whatever the order in which clients connect, are closed by the server, disconnect, or fail to connect, a message the server sends to a connection number reaches exactly the client which was reported under that number, and a text a client sends is reported under its own number.
 A number is never reused, a closed or unknown number receives and affects nothing, and every connection that ended is reported as ended exactly once. A client which does not read what it is sent, or never finishes connecting, does not hold up the others, and once the server is stopped, it ends all connections and sends, receives and accepts nothing anymore.""",
 ["histories", "fault_sequences"], "all histories of connecting, failing handshakes, closing and sending for several clients",
 "The test connects two clients and never closes one from the server.",
 ["flarch/src/web_rtc/libc/web_socket_server.rs"],
 [("connection table", "flarch/src/web_rtc/libc/web_socket_server.rs WebSocketServer")],
 [], ["WSServerOut", "what each client receives"])

prop("C25", "A node keeps its identity and settings over restarts and versions",
 """A node's configuration that was written once, in the current or any earlier supported format, is read back with the same identity, keys, name and settings, any number of times; a node ID is a function of the public key only, different keys give different IDs, and
 a signature made by a configuration verifies under the info it publishes and under no other. Only a missing or unreadable configuration gives a fresh identity, which is then kept. A node started from its storage runs exactly the parts its settings name, and still knows the infos of other nodes, the chat texts and the signing keys it had, also if an earlier version, in another format or with less in it, stored them. It names as online, or connected, just the nodes it was told are, by the infos it has of them.
 The full text of an ID reads back as this ID, and no other text does; an info received from another node, however malformed, old or spoiled, is either understood with exactly the values it holds or refused, and never stops the node which reads it.""",
 ["inputs", "histories"], "all configurations in all supported formats, all infos of other nodes, and all sequences of starts",
 "Tests decode one sample of each format.",
 ["flmodules/src/nodeconfig.rs", "flmacro/src/lib.rs", "flnode/src/node.rs", "flarch/src/nodeids.rs", "flmodules/src/gossip_events/core.rs", "flmodules/src/flo/storage.rs"],
 [("versioned encoding", "nodeconfig.rs NodeConfig::decode/encode; flmacro VersionedSerde"), ("IDs", "nodeids.rs U256::from_str; nodeconfig.rs NodeInfo::get_id"), ("stored events", "gossip_events/core.rs EventsStorage::set"), ("signers", "flo/storage.rs CryptoStorage")],
 [], ["NodeConfig::decode/encode", "NodeInfo::decode", "Node::get_config, Node::start", "CryptoStorage"])

prop("C26", "The page tree of a realm stays consistent under edits",
 """Creating or editing a page through a view of its realm stores exactly this page, with the next version, and nothing else but the links of its parents: where the view knows a parent and the signers may change it (others may sign along), the page is then listed exactly once as its child, and a parent it left doesn't list it anymore.
 An edit the signers of the page are not entitled to by its condition, as found in the realm, is refused and changes nothing. What was stored is read back by any following read of the same storage: after refreshing, the view shows for every page it knows, and for everything attached to it, what is stored; following all links and attachments from the root finds every page to be found this way, and a newly opened view starts at the stored root.
 The full path of a page is made of the names from its first parents; looking up a path finds a page with these names from the root or what is attached to it, whenever there is one, however many pages have the same names, and neither ever fails to end or crashes, whatever links others stored.""",
 ["histories"], "all histories of creating, moving, renaming, attaching and relinking pages by several signers over several views, and all paths",
 "Tests create a page or two and read them back.",
 ["flmodules/src/dht_storage/realm_view.rs", "flmodules/src/flo/blob.rs"],
 [("parent/child links", "dht_storage/realm_view.rs create_http_cuckoo, update_page, update_child_links"), ("path lookup", "dht_storage/realm_view.rs get_path_internal")],
 [], ["RealmView API", "DHTStorage contents"])

prop("C27", "The websocket client survives its connection",
 """Texts given to a connected client reach the server, and texts of the server are reported by the client, in order, each once. Whatever the server does (a clean or abrupt end, frames which are no texts or not valid at all, refusing or spoiling a connection), the client keeps running: when its connection ends it connects again by itself, and if the server couldn't be reached, at the next message or request to connect, after which texts pass both ways again over this one connection.
 After a Disconnect it reports so, and neither sends nor receives anything until it is told to connect or given another message (which itself is not sent), unless its connection ended in the very moment of the Disconnect.""",
 ["histories", "fault_sequences"], "all histories of texts, connection ends and unreachable servers",
 "The test sends one text over one connection.",
 ["flarch/src/web_rtc/libc/web_socket_client.rs"],
 [("connection and listener", "flarch/src/web_rtc/libc/web_socket_client.rs WebSocketClient")],
 [], ["WSClientOut", "what the server receives"])

prop("C28", "A node survives whatever other nodes send",
 """Whatever another node sends, i.e., messages which are truncated, of the wrong type at any place, nested too deep, too long, empty, for no module, or nonsense altogether, no part of the node ever stops: gossip, web proxy, DHT router and DHT storage go on answering well-formed messages of every node as before.
 What isn't a message of the module it is for changes nothing of what is held or stored, and causes no message; nothing held before is lost, and the node starts again from its storage with everything it held.""",
 ["inputs", "histories"], "all sequences of well-formed and spoiled messages for all modules, at every level of the envelopes",
 "Tests send well-formed messages only.",
 ["flmodules/src/router/messages.rs", "flmodules/src/random_connections/intern.rs", "flmodules/src/dht_router/intern.rs", "flmodules/src/dht_storage/intern.rs", "flmodules/src/gossip_events/intern.rs", "flmodules/src/web_proxy/intern.rs", "flnode/src/node.rs"],
 [("decoding", "router/messages.rs unwrap_yaml and the handlers of the modules")],
 [], ["NetworkOut::MessageFromNode and NetworkIn::MessageToNode of a node", "DataStorage"])

prop("C29", "Time passes for everybody",
 """From its start on, a timer sends a Second every second, the first one at once, and a Minute with every 60th of them, for as long as the program runs, whenever it was started. Whoever asked it for seconds or minutes gets its message for each of these from then on, in order, and for nothing else, whoever else asks or leaves. When the machine was too slow, what is overdue is caught up: no tick is lost, and none comes twice or early.
 An interval fires first in the moment it was made for, or at once if this has passed, and then regularly, each time giving the moment this one was for. Who waits goes on after this time and not before.""",
 ["schedules", "histories"], "all histories of timers, subscribers, intervals and waiting, and all delays of the machine",
 "No test looks at more than a few ticks on a machine with nothing else to do.",
 ["flmodules/src/timer.rs", "flarch/src/tasks/libc.rs"],
 [("ticks", "flmodules/src/timer.rs Timer::start, second, minute, tick"), ("intervals", "flarch/src/tasks/libc.rs Interval")],
 [], ["what subscribers of BrokerTimer receive", "Interval as a Stream", "wait, wait_ms"])

prop("C30", "Whole nodes work together: all get what they can reach, nothing is lost",
 """Nodes which run, and can reach each other, over any number of others, end up with the same chat messages, known nodes and pages, once nothing changes any more: whatever has been lost, cut, or stopped and started again before. Among nodes which are all up to date, a new chat message is at all of them at once.
 A node which is started again is the same, with all it had. Nothing is ever there which nobody wrote, or which could not be heard over any connection there has been, no page goes back to an older version, no message is there twice or under a wrong name.
 What a node shows of itself, i.e., its connections, who is online, and who is known, agrees with what the network did. Parts which are switched off leave the others working, and say that they are missing.""",
 ["histories", "schedules", "fault_sequences", "crash_points"], "all histories of starting, stopping, cutting, losing messages, chatting, storing and reading with 2 to 5 nodes, with any parts switched off",
 "Tests run a few nodes which start together, and wait for one message.",
 ["flnode/src/node.rs", "flnode/src/stat.rs", "flmodules/src/random_connections/intern.rs", "flmodules/src/router/broker.rs", "flmodules/src/dht_router/intern.rs", "flmodules/src/dht_storage/intern.rs", "flmodules/src/gossip_events/intern.rs"],
 [("how the parts of a node are put together", "flnode/src/node.rs Node::start"), ("what a node shows", "flnode/src/node.rs nodes_connected, nodes_online, nodes_info_all")],
 [], ["Node's methods", "Node::stat", "DHTStorageOut", "NetworkIn/NetworkOut of several nodes", "DataStorage"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    keep = None
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P))
