import dhtrouter, checklib
checklib.main("C07", "model_checking", lambda c: (dhtrouter.mc(c), dhtrouter.run(c, "one", 1000, 3000)))
