import dhtnode  # noqa: F401 (puts tools on the path)
from checklib import *


def body(c):
    c.model_check("PeersMC.tla", "PeersMC.cfg", "PeersMC")
    if c.tier == "thorough":
        c.model_check("PeersMC.tla", "PeersMCB.cfg", "PeersMCB")
    for b in range(c.pick(1, 6)):
        beh = c.generate("PeersGen.tla", "PeersGen.cfg", f"peers{b}", c.pick(800, 3000), 100, seed_add=b)
        c.write("beh.ndjson", beh)
        c.drive("network", [c.path("beh.ndjson"), c.path("traces.ndjson")])
        c.validate("TracePeers.tla", "TracePeers.cfg", c.path("traces.ndjson"), f"peers{b}")


main("C13", "model_checking", body)
