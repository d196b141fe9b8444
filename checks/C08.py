import dhtrouter, checklib
checklib.main("C08", "model_checking", lambda c: (dhtrouter.mc(c), dhtrouter.run(c, "one", 1000, 3000)))
