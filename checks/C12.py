import conn, checklib
checklib.main("C12", "model_checking", lambda c: (conn.mc(c), conn.run(c, 800, 3000)))
