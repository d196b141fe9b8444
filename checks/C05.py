"""C05: synchronisation between neighbours. Several real nodes (TraceDhtSync), and the protocol of one node (TraceDhtNode)."""
import json, random
import dhtnode, checklib


def sync_shape(rnd):
    n = rnd.choice([2, 2, 3, 3, 4])
    edges = [[rnd.randint(1, i - 1), i] for i in range(2, n + 1)]
    for i in range(1, n + 1):
        for j in range(i + 1, n + 1):
            if [i, j] not in edges and rnd.random() < .3:
                edges.append([i, j])
    while True:
        s = dhtnode.shape(rnd, "versions" if rnd.random() < .7 else "other")
        if not s["accept"]:
            break
    for r in range(len(s["realms"])):
        s["shape"]["realms"][r]["max"] = 5000
        s["realms"][r]["max"] = 100000
    for f in s["flos"]:
        f["depth"] = 0
        for v in f["vers"]:
            v["third"] = False
    for f in s["shape"]["flos"]:
        f["depth"] = 0
    s.update(nodes=n, edges=edges, puts=rnd.choice([3, 6, 10, 14]), ops=rnd.choice([24, 32, 40]))
    return s


def body(c):
    dhtnode.run(c, ["versions", "realms", "space"], 800, 2000)
    c.model_check("DhtSyncMC.tla", "DhtSyncMC.cfg", "DhtSyncMC")
    if c.tier == "thorough":
        c.model_check("DhtSyncMC.tla", "DhtSyncMC3.cfg", "DhtSyncMC3")
    rnd = random.Random(c.seed * 31 + 5)
    n = c.pick(400, 1500)
    for b in range(c.pick(1, 6)):
        with open(c.path("shapes.ndjson"), "w") as f:
            for i in range(n // 5):
                f.write(json.dumps(sync_shape(rnd)) + "\n")
        beh = c.generate("DhtSyncGen.tla", "DhtSyncGen.cfg", f"sync{b}", n, 60, envs=dict(SHAPES=c.path("shapes.ndjson")), seed_add=b)
        with open(c.path("beh.ndjson"), "w") as f:
            for x in beh:
                f.write(json.dumps(x) + "\n")
        c.drive("dht_sync", [c.path("beh.ndjson"), c.path("traces.ndjson")])
        c.validate("TraceDhtSync.tla", "TraceDhtSync.cfg", c.path("traces.ndjson"), f"sync{b}")


checklib.main("C05", "model_checking", body)
