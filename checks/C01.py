import dhtnode, checklib
checklib.main("C01", "model_checking", lambda c: dhtnode.run(c, ["space", "space", "space", "versions"], 1500, 4000, mc="AB"))
