"""C27: the websocket client."""
import dhtnode  # noqa: F401 (puts tools on the path)
import checklib
from checklib import *


def body(c):
    c.model_check("WsClientMC.tla", "WsClientMC.cfg", "WsClientMC")
    if c.tier == "thorough":
        c.model_check("WsClientMC.tla", "WsClientMCB.cfg", "WsClientMCB", timeout=3000)
    for b in range(c.pick(1, 10)):
        beh = c.generate("WsClientGen.tla", "WsClientGen.cfg", f"wsclient{b}", c.pick(600, 2000), 60, seed_add=b)
        c.write("beh.ndjson", beh)
        c.drive("wsclient", [c.path("beh.ndjson"), c.path("traces.ndjson")])
        c.validate("TraceWsClient.tla", "TraceWsClient.cfg", c.path("traces.ndjson"), f"wsclient{b}")


checklib.main("C27", "model_checking", body)
