"""C24: the websocket server."""
import dhtnode  # noqa: F401 (puts tools on the path)
import checklib
from checklib import *


def body(c):
    c.model_check("WsServerMC.tla", "WsServerMC.cfg", "WsServerMC")
    if c.tier == "thorough":
        c.model_check("WsServerMC.tla", "WsServerMCB.cfg", "WsServerMCB", timeout=3000)
    for b in range(c.pick(1, 10)):
        beh = c.generate("WsServerGen.tla", "WsServerGen.cfg", f"wsserver{b}", c.pick(500, 1500), 60, seed_add=b)
        c.write("beh.ndjson", beh)
        c.drive("wsserver", [c.path("beh.ndjson"), c.path("traces.ndjson")])
        c.validate("TraceWsServer.tla", "TraceWsServer.cfg", c.path("traces.ndjson"), f"wsserver{b}")


checklib.main("C24", "model_checking", body)
