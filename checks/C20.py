import brk, checklib
checklib.main("C20", "model_checking", brk.body)
