"""C26: views on the pages of a realm."""
import dhtnode  # noqa: F401 (puts tools on the path)
import checklib
from checklib import *


def body(c):
    c.model_check("RealmViewMC.tla", "RealmViewMC.cfg", "RealmViewMC")
    if not c.quick():
        c.model_check("RealmViewMC.tla", "RealmViewMCB.cfg", "RealmViewMCB")
        c.model_check("RealmViewMC.tla", "RealmViewMC2.cfg", "RealmViewMC2")
    for b in range(c.pick(1, 6)):
        beh = c.generate("RealmViewGen.tla", "RealmViewGen.cfg", f"realmview{b}", c.pick(700, 2500), 60, seed_add=b)
        c.write("beh.ndjson", beh)
        c.drive("realmview", [c.path("beh.ndjson"), c.path("traces.ndjson")])
        c.validate("TraceRealmView.tla", "TraceRealmView.cfg", c.path("traces.ndjson"), f"realmview{b}")


checklib.main("C26", "model_checking", body)
