"""C29: time."""
import dhtnode  # noqa: F401 (puts tools on the path)
import checklib
from checklib import *


def body(c):
    c.model_check("TimerMC.tla", "TimerMC.cfg", "TimerMC")
    if c.tier == "thorough":
        c.model_check("TimerMC.tla", "TimerMCB.cfg", "TimerMCB", timeout=3000)
    for b in range(c.pick(1, 10)):
        beh = c.generate("TimerGen.tla", "TimerGen.cfg", f"timer{b}", c.pick(600, 2000), 60, seed_add=b)
        c.write("beh.ndjson", beh)
        c.drive("timer", [c.path("beh.ndjson"), c.path("traces.ndjson")])
        c.validate("TraceTimer.tla", "TraceTimer.cfg", c.path("traces.ndjson"), f"timer{b}")


checklib.main("C29", "model_checking", body)
