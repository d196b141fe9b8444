import brk, checklib
checklib.main("C19", "model_checking", brk.body)
