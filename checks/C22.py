"""C22: proxied web requests."""
import dhtnode  # noqa: F401 (puts tools on the path)
import checklib
from checklib import *


def body(c):
    c.model_check("WebProxyMC.tla", "WebProxyMC.cfg", "WebProxyMC")
    if c.tier == "thorough":
        c.model_check("WebProxyMC.tla", "WebProxyMCB.cfg", "WebProxyMCB", timeout=3000)
    for b in range(c.pick(1, 10)):
        beh = c.generate("WebProxyGen.tla", "WebProxyGen.cfg", f"webproxy{b}", c.pick(400, 1500), 60, seed_add=b)
        c.write("beh.ndjson", beh)
        c.drive("webproxy", [c.path("beh.ndjson"), c.path("traces.ndjson")])
        c.validate("TraceWebProxy.tla", "TraceWebProxy.cfg", c.path("traces.ndjson"), f"webproxy{b}")


checklib.main("C22", "model_checking", body)
