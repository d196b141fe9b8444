import dhtnode, checklib
checklib.main("C06", "model_checking", lambda c: dhtnode.run(c, ["realms", "realms", "versions"], 1500, 4000))
