import gossip, checklib
checklib.main("C10", "model_checking", lambda c: (gossip.mc(c), gossip.one(c, 1200, 3000)))
