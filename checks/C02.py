import dhtnode, checklib
checklib.main("C02", "model_checking", lambda c: dhtnode.run(c, ["versions", "versions", "space"], 1500, 4000, mc="A"))
