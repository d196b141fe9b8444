"""C28: a node survives whatever other nodes send."""
import dhtnode  # noqa: F401 (puts tools on the path)
import checklib
from checklib import *


def body(c):
    c.model_check("RobustMC.tla", "RobustMC.cfg", "RobustMC")
    if c.tier == "thorough":
        c.model_check("RobustMC.tla", "RobustMCB.cfg", "RobustMCB", timeout=3000)
    for b in range(c.pick(1, 12)):
        beh = c.generate("RobustGen.tla", "RobustGen.cfg", f"robust{b}", c.pick(1000, 5000), 60, seed_add=b)
        c.write("beh.ndjson", beh)
        c.drive("robust", [c.path("beh.ndjson"), c.path("traces.ndjson")])
        c.validate("TraceRobust.tla", "TraceRobust.cfg", c.path("traces.ndjson"), f"robust{b}")


checklib.main("C28", "model_checking", body)
