# Recording stand-in for matplotlib: every call is appended to $DOA_PLOTLOG as one JSON line.
import json, os
rcParams = {}
def _plain(x):
    if hasattr(x, "tolist"): x = x.tolist()
    if isinstance(x, (list, tuple)): return [_plain(y) for y in x]
    if isinstance(x, bytes): return x.decode()
    if isinstance(x, (bool, int, float, str)): return x
    return str(x)
def record(fn, args, kw):
    f = os.environ.get("DOA_PLOTLOG")
    if f:
        with open(f, "a") as h:
            h.write(json.dumps({"fn": fn, "args": [_plain(a) for a in args],
                                "kw": [[k, _plain(v)] for k, v in sorted(kw.items())]}) + "\n")
def use(*a, **k): pass
