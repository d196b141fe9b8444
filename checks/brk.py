"""C19, C20: brokers."""
import dhtnode  # noqa: F401 (puts tools on the path)
from checklib import *


def body(c):
    c.model_check("BrokerMC.tla", "BrokerMC.cfg", "BrokerMC")
    if c.tier == "thorough":
        c.model_check("BrokerMC.tla", "BrokerMCB.cfg", "BrokerMCB", timeout=3000)
    for b in range(c.pick(1, 8)):
        beh = c.generate("BrokerGen.tla", "BrokerGen.cfg", f"broker{b}", c.pick(1500, 4000), 70, seed_add=b)
        c.write("beh.ndjson", beh)
        c.drive("broker", [c.path("beh.ndjson"), c.path("traces.ndjson")])
        c.validate("TraceBroker.tla", "TraceBroker.cfg", c.path("traces.ndjson"), f"broker{b}", defs=dict(PROP=c.prop))
