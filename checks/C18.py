"""C18: signed histories of Flos."""
import dhtnode  # noqa: F401 (puts tools on the path)
from checklib import *


def body(c):
    c.model_check("FloMC.tla", "FloMC.cfg", "FloMC")
    if c.tier == "thorough":
        c.model_check("FloMC.tla", "FloMCB.cfg", "FloMCB")
    for b in range(c.pick(1, 6)):
        beh = c.generate("FloGen.tla", "FloGen.cfg", f"flo{b}", c.pick(2500, 5000), 60, seed_add=b)
        c.write("beh.ndjson", beh)
        c.drive("flo", [c.path("beh.ndjson"), c.path("traces.ndjson")])
        c.validate("TraceFlo.tla", "TraceFlo.cfg", c.path("traces.ndjson"), f"flo{b}")


main("C18", "model_checking", body)
