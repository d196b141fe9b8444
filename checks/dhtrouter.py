"""C07, C08, C09: DHT routers."""
import json, random
import dhtnode  # noqa: F401 (puts tools on the path)
from checklib import *


def flip(rnd, x, bit):
    """Shares exactly the first `bit` bits with x."""
    y = x ^ (1 << (255 - bit))
    low = 255 - bit
    return (y >> low << low) | (rnd.getrandbits(low) if low else 0)


def cb(a, b):
    return 256 if a == b else 255 - (a ^ b).bit_length() + 1


def shape(rnd, mode):
    k = rnd.choice([1, 1, 2, 2, 3])
    n = rnd.choice([6, 8, 10, 14, 20]) if mode == "one" else rnd.choice([2, 3, 4, 5, 6, 8])
    ids = [rnd.getrandbits(256)]
    depths = rnd.choice([[0, 1], [0, 1, 2], [0, 0, 1, 2, 3], [0, 1, 2, 7, 8, 9], [0, 3, 128, 254, 255], list(range(8))])
    keys = rnd.choice([2, 4]) if mode == "one" else 4
    while len(ids) < n + keys:
        if len(ids) < n and mode == "one" or rnd.random() < .6:
            x = flip(rnd, ids[0] if rnd.random() < .7 else rnd.choice(ids), rnd.choice(depths))
        else:
            x = flip(rnd, rnd.choice(ids), rnd.choice(depths + [0, 1, 255, 254, 5]))
        if x not in ids:
            ids.append(x)
    pi = rnd.choice([1, 2, 2, 3, 5])
    return dict(mode=mode, n=n, ids=["%064x" % i for i in ids], depth=[min(255, cb(ids[0], i)) for i in ids], k=k, pi=pi,
                pt=pi + rnd.choice([1, 1, 2, pi, 2 * pi, 2 * pi + 1]), know=rnd.choice([2, 3, n]), cons=rnd.choice([0, 1, 2]),
                ops=rnd.choice([20, 40, 60]) if mode == "one" else 12)


def run(c, mode, quick, thorough):
    rnd = random.Random(c.seed * 107 + 11)
    n = c.pick(quick, thorough)
    for b in range(c.pick(1, 6)):
        c.write("shapes.ndjson", [shape(rnd, mode) for _ in range(max(10, n // 3))])
        beh = c.generate("KademliaGen.tla", "KademliaGen.cfg", f"{mode}{b}", n, 80, envs=dict(SHAPES=c.path("shapes.ndjson")), seed_add=b)
        c.write("beh.ndjson", beh)
        c.drive("dht_router", [c.path("beh.ndjson"), c.path("traces.ndjson")])
        m = "TraceKademlia" if mode == "one" else "TraceKademliaNet"
        c.validate(f"{m}.tla", f"{m}.cfg", c.path("traces.ndjson"), f"{mode}{b}", defs=dict(PROP=c.prop))


def mc(c):
    c.model_check("KademliaMC.tla", "KademliaMCA.cfg", "KademliaMCA")
    if c.tier == "thorough":
        c.model_check("KademliaMC.tla", "KademliaMCB.cfg", "KademliaMCB")
        c.model_check("KademliaMC.tla", "KademliaMCC.cfg", "KademliaMCC")
