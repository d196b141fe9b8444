import sig, checklib
checklib.main("C15", "model_checking", sig.body)
