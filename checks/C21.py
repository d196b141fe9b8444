"""C21: peer connections."""
import dhtnode  # noqa: F401 (puts tools on the path)
import checklib
from checklib import *


def body(c):
    c.model_check("NodeConnMC.tla", "NodeConnMC.cfg", "NodeConnMC")
    if c.tier == "thorough":
        c.model_check("NodeConnMC.tla", "NodeConnMCB.cfg", "NodeConnMCB", timeout=3000)
    for b in range(c.pick(1, 10)):
        beh = c.generate("NodeConnGen.tla", "NodeConnGen.cfg", f"nodeconn{b}", c.pick(600, 2000), 60, seed_add=b)
        c.write("beh.ndjson", beh)
        c.drive("nodeconn", [c.path("beh.ndjson"), c.path("traces.ndjson")])
        c.validate("TraceNodeConn.tla", "TraceNodeConn.cfg", c.path("traces.ndjson"), f"nodeconn{b}")


checklib.main("C21", "model_checking", body)
