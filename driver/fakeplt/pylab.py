from matplotlib import record
def savefig(*a, **k): record("save", a, k)
