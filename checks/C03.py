import dhtnode, checklib
checklib.main("C03", "model_checking", lambda c: dhtnode.run(c, ["versions", "space", "realms"], 1500, 4000, mc="B"))
