"""C17: access conditions, their links, and signatures."""
import dhtnode  # noqa: F401 (puts tools on the path)
from checklib import *


def body(c):
    c.model_check("AccessMC.tla", "AccessMC.cfg", "AccessMC")
    for b in range(c.pick(1, 8)):
        beh = c.generate("AccessGen.tla", "AccessGen.cfg", f"access{b}", c.pick(2000, 5000), 100, seed_add=b)
        c.write("beh.ndjson", beh)
        c.drive("access", [c.path("beh.ndjson"), c.path("traces.ndjson")])
        c.validate("TraceAccess.tla", "TraceAccess.cfg", c.path("traces.ndjson"), f"access{b}")


main("C17", "model_checking", body)
