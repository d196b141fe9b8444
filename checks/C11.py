import gossip, checklib
checklib.main("C11", "model_checking", lambda c: (gossip.mc(c), gossip.one(c, 600, 2000), gossip.many(c, 500, 2000)))
