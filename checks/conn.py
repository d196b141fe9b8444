"""C12, C14: random connections and routers."""
import math, random
import dhtnode  # noqa: F401 (puts tools on the path)
from checklib import *


def shape(rnd):
    n = rnd.choice([2, 3, 4, 5, 7, 10, 20, 30])
    return dict(n=n, need=[0, 1] + [math.ceil(2 * math.log(i)) for i in range(2, n + 1)], ops=rnd.choice([20, 50, 100]),
                list=rnd.choice([2, 4, n, 2 * n]))


def run(c, quick, thorough):
    rnd = random.Random(c.seed * 109 + 12)
    n = c.pick(quick, thorough)
    for b in range(c.pick(1, 6)):
        c.write("shapes.ndjson", [shape(rnd) for _ in range(40)])
        beh = c.generate("RandomConnGen.tla", "RandomConnGen.cfg", f"conn{b}", n, 120, envs=dict(SHAPES=c.path("shapes.ndjson")), seed_add=b)
        c.write("beh.ndjson", beh)
        c.drive("conn", [c.path("beh.ndjson"), c.path("traces.ndjson")])
        c.validate("TraceRandomConn.tla", "TraceRandomConn.cfg", c.path("traces.ndjson"), f"conn{b}", defs=dict(PROP=c.prop))


def mc(c):
    c.model_check("RandomConnMC.tla", "RandomConnMC.cfg", "RandomConnMC")
    if c.tier == "thorough":
        c.model_check("RandomConnMC.tla", "RandomConnMCB.cfg", "RandomConnMCB")
