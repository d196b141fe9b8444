"""C01, C02, C03, C04 (DHT part), C05 (protocol part), C06: behaviours of DhtNode replayed in a real node."""
import json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from checklib import *

BASE, ROOT, UNIT, CUCK = 226, 241, 20, 66   # bytes, as measured; only steers the generation


def shape(rnd, kind):
    """A random shape: realms, Flos with their distances, parents, versions and sizes."""
    nr = {"space": 1, "versions": rnd.choice([1, 1, 2]), "realms": rnd.choice([2, 3])}.get(kind, rnd.choice([1, 2]))
    if kind == "realms":
        accept = sorted(rnd.sample(range(1, nr + 1), rnd.choice([0, 1, 1, 2]) if nr > 2 else rnd.choice([0, 1])))
    else:
        accept = []
    flos = []
    for r in range(1, nr + 1):
        vers = [dict(ver=0, units=rnd.choice([0, 0, 4, 10]))]
        if kind != "space" and rnd.random() < .4:
            vers.append(dict(ver=1, units=0))
        flos.append(dict(realm=r, root=True, depth=rnd.choice([0, 0, 1, 2]), parent=0, vers=vers))
    n = {"space": rnd.choice([5, 6, 7]), "versions": rnd.choice([3, 4]), "realms": rnd.choice([2, 3, 4])}.get(kind, 5)
    for i in range(n):
        realm = rnd.randint(1, nr)
        cands = [j + 1 for j, f in enumerate(flos) if f["realm"] == realm] if rnd.random() < .85 else list(range(1, len(flos) + 1))
        parent = rnd.choice(cands) if cands and rnd.random() < (.3 if kind == "space" else .5) else 0
        vers = [dict(ver=0, units=rnd.choice([0, 0, 3, 8, 15]))]
        for _ in range(rnd.choice([0, 1, 2]) if kind == "space" else rnd.choice([0, 1, 2, 3, 3])):
            vers.append(dict(ver=rnd.choice([1, 1, 2, 3]), units=rnd.choice([0, 0, 2, 6, 12, 25])))
        flos.append(dict(realm=realm, root=False, depth=rnd.choice([0, 0, 1, 1, 2, 3, 4]), parent=parent, vers=vers))
    if rnd.random() < .3:   # one Flo may be as near as one likes, and those after it nearer than the others
        i = rnd.choice([i for i, f in enumerate(flos) if not f["root"]])
        flos[i]["depth"] = rnd.choice([7, 8, 8, 9, 15, 16, 17, 31, 40, 64, 127, 128, 200, 254])
        for f in flos[i + 1:]:
            if rnd.random() < .25:
                f["depth"] = rnd.choice([7, 8, 8, 9])
    def sz(f, v):
        return (ROOT if f["root"] else BASE + (60 if f["parent"] else 0)) + UNIT * v["units"] + (205 if f["root"] and v["ver"] else 0)
    realms = []
    for r in range(1, nr + 1):
        mine = [f for f in flos if f["realm"] == r]
        total = sum(max(sz(f, v) for v in f["vers"]) for f in mine)
        biggest = max(sz(f, v) for f in mine for v in f["vers"])
        if kind == "space":
            m = rnd.choice([3.1 * biggest, total * .5, total * .6, total * .7, total * .85, total * .4])
            m = max(m, 3.1 * sz(mine[0], mine[0]["vers"][0]))
        else:
            m = rnd.choice([total * 3, total * 3 + 5000, total * .8])
        if rnd.random() < .03:
            m = 180  # not even the realm's own Flo fits
        realms.append(dict(max=int(m) // UNIT))
    c = dict(shape=dict(accept=accept, realms=realms, flos=flos), accept=accept,
             realms=[dict(max=realms[r]["max"] * UNIT, root=r + 1) for r in range(nr)],
             flos=[dict(realm=f["realm"], depth=f["depth"], parent=f["parent"],
                        vers=[dict(ver=v["ver"], third=(sz(f, v) - 20) * 3 > realms[f["realm"] - 1]["max"] * UNIT,
                                   sz=[sz(f, v) + CUCK * i for i in range(len(flos) + 1)]) for v in f["vers"]]) for f in flos])
    return c


def run(c, kinds, quick, thorough, disk=False, mc=(), envs=None):
    for cfg in mc:
        c.model_check("RealmStoreMC.tla", f"RealmStoreMC{cfg}.cfg", f"RealmStoreMC{cfg}")
    rnd = random.Random(c.seed * 7919 + 13)
    n = c.pick(quick, thorough)
    for b in range(c.pick(1, 8)):
        with open(c.path("shapes.ndjson"), "w") as f:
            for i in range(max(40, n // 10)):
                f.write(json.dumps(shape(rnd, kinds[i % len(kinds)])) + "\n")
        beh = c.generate("DhtNodeGen.tla", "DhtNodeGen.cfg", f"gen{b}", n, 40, envs=dict(SHAPES=c.path("shapes.ndjson")), seed_add=b)
        with open(c.path("beh.ndjson"), "w") as f:
            for x in beh:
                f.write(json.dumps(x) + "\n")
        c.drive("dht_node", [c.path("beh.ndjson"), c.path("traces.ndjson"), "disk" if disk else "plain"])
        c.validate("TraceDhtNode.tla", "TraceDhtNode.cfg", c.path("traces.ndjson"), f"node{b}", defs=dict(PROP=c.prop))

