"""C04: what a restarted node holds - DHT storage (TraceDhtNode) and gossip (TraceGossip)."""
import dhtnode, gossip, checklib
checklib.main("C04", "model_checking", lambda c: (dhtnode.run(c, ["versions", "space", "realms"], 600, 1500, disk=True), gossip.one(c, 500, 1500)))
