import sig, checklib
checklib.main("C16", "model_checking", sig.body)
