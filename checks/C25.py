"""C25: identity and settings of a node over restarts and formats."""
import dhtnode  # noqa: F401 (puts tools on the path)
import checklib
from checklib import *


def body(c):
    c.model_check("NodeConfigMC.tla", "NodeConfigMC.cfg", "NodeConfigMC")
    for b in range(c.pick(1, 10)):
        beh = c.generate("NodeConfigGen.tla", "NodeConfigGen.cfg", f"nodeconfig{b}", c.pick(1500, 5000), 60, seed_add=b)
        c.write("beh.ndjson", beh)
        c.drive("nodeconfig", [c.path("beh.ndjson"), c.path("traces.ndjson")])
        c.validate("TraceNodeConfig.tla", "TraceNodeConfig.cfg", c.path("traces.ndjson"), f"nodeconfig{b}")


checklib.main("C25", "model_checking", body)
