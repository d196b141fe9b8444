"""C15, C16: the signalling server."""
import dhtnode  # noqa: F401 (puts tools on the path)
from checklib import *


def body(c):
    c.model_check("SignalMC.tla", "SignalMC.cfg", "SignalMC")
    if c.tier == "thorough":
        c.model_check("SignalMC.tla", "SignalMCB.cfg", "SignalMCB")
    for b in range(c.pick(1, 6)):
        beh = c.generate("SignalGen.tla", "SignalGen.cfg", f"signal{b}", c.pick(1000, 3000), 100, seed_add=b)
        c.write("beh.ndjson", beh)
        c.drive("signal", [c.path("beh.ndjson"), c.path("traces.ndjson")])
        c.validate("TraceSignal.tla", "TraceSignal.cfg", c.path("traces.ndjson"), f"signal{b}", defs=dict(PROP=c.prop))
