"""C10, C11, C04 (gossip part): gossip nodes."""
import json, random, sys
import dhtnode  # noqa: F401 (puts tools on the path)
from checklib import *


def shape(rnd, mode, big=False):
    n = 1 if mode == "one" else rnd.choice([2, 3, 3, 4])
    edges = [[rnd.randint(1, i - 1), i] for i in range(2, n + 1)]
    for i in range(1, n + 1):
        for j in range(i + 1, n + 1):
            if [i, j] not in edges and rnd.random() < .35:
                edges.append([i, j])
    evs = []
    if big:
        ts = rnd.sample(range(1, 1000), 190)
        for i in range(62):
            evs.append(dict(cat=1, src=rnd.randint(1, 6), t=ts.pop()))
        for i in range(124):
            evs.append(dict(cat=2, src=rnd.randint(1, 118), t=ts.pop()))
        mx = [50, 100]
    else:
        tmax = rnd.choice([2, 4, 8])
        for i in range(rnd.choice([4, 6, 9])):
            t = rnd.randint(1, tmax)
            evs.append(dict(cat=rnd.choice([1, 2]), src=rnd.choice([1, 1, 2, 3, 4, 5, 6]), t=t if rnd.random() < .6 else 500 + t))
        mx = [rnd.choice([1, 2, 3]), rnd.choice([1, 2, 3, 4])]
    return dict(mode=mode, n=n if mode == "many" else 4, edges=edges, events=evs, max=mx, batch=45 if big else rnd.choice([2, 3, 4]),
                ops=rnd.choice([15, 25]) if big else rnd.choice([14, 24]))


def one(c, quick, thorough):
    rnd = random.Random(c.seed * 101 + 3)
    n = c.pick(quick, thorough)
    for b in range(c.pick(1, 6)):
        for big, num in ((False, n), (True, n // 25)):
            name = f"one{b}{'big' if big else ''}"
            with open(c.path("shapes.ndjson"), "w") as f:
                for i in range(max(10, num // 8)):
                    f.write(json.dumps(shape(rnd, "one", big)) + "\n")
            beh = c.generate("GossipGen.tla", "GossipGen.cfg", name, num, 40, envs=dict(SHAPES=c.path("shapes.ndjson")), seed_add=b)
            c.write("beh.ndjson", beh)
            c.drive("gossip", [c.path("beh.ndjson"), c.path("traces.ndjson")])
            c.validate("TraceGossip.tla", "TraceGossip.cfg", c.path("traces.ndjson"), name, defs=dict(PROP=c.prop))


def many(c, quick, thorough):
    rnd = random.Random(c.seed * 103 + 7)
    n = c.pick(quick, thorough)
    for b in range(c.pick(1, 6)):
        with open(c.path("shapes.ndjson"), "w") as f:
            for i in range(max(10, n // 5)):
                f.write(json.dumps(shape(rnd, "many")) + "\n")
        beh = c.generate("GossipGen.tla", "GossipGen.cfg", f"many{b}", n, 40, envs=dict(SHAPES=c.path("shapes.ndjson")), seed_add=50 + b)
        c.write("beh.ndjson", beh)
        c.drive("gossip", [c.path("beh.ndjson"), c.path("traces.ndjson")])
        c.validate("TraceGossipNet.tla", "TraceGossipNet.cfg", c.path("traces.ndjson"), f"many{b}", defs=dict(PROP=c.prop))


def mc(c):
    c.model_check("GossipMC.tla", "GossipMC.cfg", "GossipMC")
    if c.tier == "thorough":
        c.model_check("GossipMC.tla", "GossipMCLoss.cfg", "GossipMCLoss")
