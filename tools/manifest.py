#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = " Trusts TLC, the abstraction of real values to model values in the driver, and the observation points named in DESIGN.md."
CHECKS = {
 "C01": "Exhaustive TLC model of one realm's storage (RealmStoreMC), behaviours of DhtNode replayed in a real DHTStorage, every step's contents and sizes validated by TLC against DhtNode.",
 "C02": "Behaviours of DhtNode replayed in a real DHTStorage; versions held, returned, announced and passed on are validated by TLC step by step.",
 "C03": "Behaviours of DhtNode replayed in a real DHTStorage incl. restarts; attachment sets held and reported are validated by TLC step by step.",
 "C04": "Behaviours of DhtNode and Gossip incl. restarts replayed in real nodes; a copy started from the storage after every step holds the same (validated by TLC).",
 "C05": "Exhaustive TLC model of several nodes synchronising with losses (DhtSyncMC); protocol steps of one real node and whole histories of 2-4 real nodes with lossy, duplicating, reordering delivery validated by TLC.",
 "C10": "Exhaustive TLC model of several gossip nodes (GossipMC); behaviours replayed in a real gossip node (small and default limits), contents, reported events and order independence validated by TLC.",
 "C11": "Exhaustive TLC model of several gossip nodes (GossipMC); exchanges of one real node and histories of 2-4 real nodes with lossy, duplicating, reordering delivery validated by TLC.",
 "C06": "Behaviours of DhtNode over several realms and accept lists replayed in a real DHTStorage; realms held, requested and announced are validated by TLC step by step.",

 "C07": "Exhaustive TLC model of the routing table (KademliaMC); behaviours replayed in a real DHTRouter, table contents after every step validated by TLC against the table's rules.",
 "C08": "Exhaustive TLC model of the routing table with time (KademliaMC); behaviours replayed in a real DHTRouter, pings, pongs, deletions and published lists validated by TLC step by step.",
 "C09": "Exhaustive TLC model of routing over arbitrary tables (KademliaRouteMC); messages routed between 2-8 real DHTRouters with partial tables, and single hops in every table state, validated by TLC.",
 "C12": "Exhaustive TLC model of the lists with messages under way to and from the network (RandomConnMC); behaviours replayed in a real RandomBroker, lists, connection requests and messages validated by TLC step by step.",
 "C14": "Behaviours of the random-connections model replayed in real RouterNetwork and RouterRandom, everything published and passed on validated by TLC step by step; the model of the lists is checked exhaustively.",
 "C13": "Exhaustive TLC model of two nodes setting up, losing and closing the two directions of their connection (PeersMC); behaviours replayed in a real Network over simulated connections and signalling server, every output validated by TLC step by step.",
 "C15": "Exhaustive TLC model of the server with honest, stolen and replayed announcements (SignalMC); behaviours with real keys replayed in a real SignalServer, everything it sends validated by TLC step by step.",
 "C16": "Exhaustive TLC model of the server (SignalMC); behaviours of several clients with reconnections and timeouts replayed in a real SignalServer, relays and lists validated by TLC step by step.",
 "C17": "Exhaustive TLC model of conditions of two levels with all collections of good and bad signatures (AccessMC); arbitrary nested conditions, signatures, links and resolutions replayed with real keys, every verdict validated by TLC.",
 "C18": "Exhaustive TLC model of a Flo's owner against somebody recombining and signing anything (FloMC); histories of edits, condition changes, serializations and tamperings replayed with real keys, every verdict and ID validated by TLC.",
 "C19": "Exhaustive TLC model of linked brokers' queues with forwarding, handlers and settling over all graphs of two (thorough: three) links between three brokers (BrokerMC); random graphs, subscribers and bursts from several tasks replayed on real brokers in single- and multi-threaded runtimes, every subscriber's log validated by TLC.",
 "C20": "Exhaustive TLC model of linked brokers' queues with settling over all graphs of two (thorough: three) links between three brokers (BrokerMC); random graphs replayed on real brokers, deliveries per path and at the return of concurrent settling calls validated by TLC.",
 "C21": "Exhaustive TLC model of two nodes' texts cut into packets with loss, duplication and reordering (NodeConnMC); behaviours with texts of all kinds of characters around the packet size replayed in a real WebRTCConn over simulated channels, everything passed to the channels and to the node validated by TLC step by step.",
 "C22": "Exhaustive TLC model of concurrent requests with stray, late and forged answers (WebProxyMC); behaviours replayed in a real WebProxy, and real requests served from a local web server, everything sent and received validated by TLC.",
 "C23": "Exhaustive TLC model of writes which can be cut off at any point (FileStoreMC); behaviours on several storages replayed on real files in a child process which is ended, or runs out of space, at a chosen system call, everything read validated by TLC.",
 "C24": "Exhaustive TLC model of the connection table (WsServerMC); behaviours of several real clients over the loopback network replayed on a real WebSocketServer, everything reported and received validated by TLC.",
 "C27": "Exhaustive TLC model of the client's queue and listener against a server which ends connections and can be unreachable at any time (WsClientMC); behaviours replayed on a real WebSocketClient and a real server over the loopback network, everything both receive validated by TLC step by step.",
 "C25": "Exhaustive TLC model of a stored configuration over formats, spoiling and restarts (NodeConfigMC); behaviours which write, spoil, read and start configurations and infos in every format replayed in the real NodeConfig, NodeInfo and Node, every value read validated by TLC.",
 "C26": "Exhaustive TLC model of one and two views on a realm's page tree (RealmViewMC); behaviours of creating, editing, moving, attaching, refreshing, reopening and looking up pages by several signers over two views replayed in the real RealmView over a real DHT storage, all views, the storage, all full paths and lookups validated by TLC step by step.",
 "C30": "Exhaustive TLC model of nodes which exchange what they have over single connections, while being stopped, cut and started again (SystemMC, with liveness); histories of 2-5 whole real Nodes, with parts switched off, on a network which is cut and loses messages, all that every node shows validated by TLC after every step.",
 "C29": "Exhaustive TLC model of the timer's loop on a machine which is late at any time (TimerMC, with liveness); histories of timers, subscribers of all kinds, intervals and waiting replayed in the real code on a clock which passes, jumps or stands still, everything told validated by TLC.",
 "C28": "Exhaustive TLC model of nested messages spoiled at any level, with a node stopping at any time (RobustMC); behaviours of well-formed messages of 28 kinds, spoiled in 40 ways at any place of any level, replayed in a whole real Node whose parts are all asked for a sign of life after every step, validated by TLC.",
}
NA = {}
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
exec(open(os.path.join(HERE, "tools", "manifest_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "manifest_more.py")) else None
m = dict(version=1, setup_cmd="python3 tools/setup.py",
  checks=[dict(property=p, quick_cmd=f"python3 checks/{p}.py quick", thorough_cmd=f"python3 checks/{p}.py thorough",
    technique="TLA+ specification checked with TLC; behaviours generated from it are replayed in the real code and the recorded traces validated against it",
    level="model_checking", level_note=CHECKS[p] + " Bounded by the generated behaviours (counts in the evidence file)." + TRUST) for p in props if p in CHECKS],
  not_applicable=[dict(property=p, reason=NA.get(p, "no check yet")) for p in props if p not in CHECKS])
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
