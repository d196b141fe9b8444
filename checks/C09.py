import dhtrouter, checklib
checklib.main("C09", "model_checking", lambda c: (c.model_check("KademliaRouteMC.tla", "KademliaRouteMC.cfg", "KademliaRouteMC"), dhtrouter.run(c, "many", 600, 3000), dhtrouter.run(c, "one", 700, 3000)))
