"""C30: whole nodes work together."""
import dhtnode  # noqa: F401 (puts tools on the path)
import checklib
from checklib import *


def body(c):
    c.model_check("SystemMC.tla", "SystemMC.cfg", "SystemMC")
    if c.tier == "thorough":
        c.model_check("SystemMC.tla", "SystemMCB.cfg", "SystemMCB", timeout=3000)
    for b in range(c.pick(1, 12)):
        beh = c.generate("SystemGen.tla", "SystemGen.cfg", f"system{b}", c.pick(250, 2000), 40, seed_add=b)
        c.write("beh.ndjson", beh)
        c.drive("system", [c.path("beh.ndjson"), c.path("traces.ndjson")])
        c.validate("TraceSystem.tla", "TraceSystem.cfg", c.path("traces.ndjson"), f"system{b}")


checklib.main("C30", "model_checking", body)
