"""The unit test runner from program start, exceptions of every kind included."""
import spec_glob
from spec_glob import *
class EngineClass(spec_glob.EngineClass):
    small_loops = 80
models = dict(spec_glob.models)
def m(*ns):
    def d(f):
        for n in ns: models[n] = f
        return f
    return d
@m('strlen', 'wcslen')
def slen(e, st, name, a, i):
    w = 1 if name == 'strlen' else 4
    for n in range(4096):
        v = e.load(st, P(a[0].r, a[0].o + L(n * w)), w, ('i', 8 * w))
        if st.eq(v, ZERO): return L(n)
    raise Imprecise('unbounded text')
