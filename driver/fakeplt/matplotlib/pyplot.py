from . import record
_open = [0]
def figure(*a, **k):
    _open[0] += 1
    record("figure", a, k)
    class F: number = _open[0]
    return F()
def fignum_exists(*a, **k): return True
def _make(name):
    def f(*a, **k):
        record(name, a, k)
        return []
    f.__name__ = name
    return f
for _n in ("show close draw pause plot quiver semilogx semilogy loglog fill fill_between hist scatter subplot "
           "legend ylim title axis xlabel ylabel xticks yticks grid xlim ion ginput annotate clf errorbar "
           "tight_layout stem xkcd text suptitle bar subplots_adjust imshow subplot2grid rcparams barh colorbar "
           "boxplot get_fignums margins contour spy axvline axvspan axhline cla gca gcf").split():
    globals()[_n] = _make(_n)
