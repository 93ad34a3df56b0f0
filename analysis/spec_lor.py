"""The filler text from program start: the random number generator returns any number it may return, time is arbitrary."""
import spec_ut
from spec_ut import *
class EngineClass(spec_ut.EngineClass):
    small_loops = 700
models = dict(spec_ut.models)
def m(*ns):
    def d(f):
        for n in ns: models[n] = f
        return f
    return d
@m('wcscpy', 'strcpy')
def scpy(e, st, name, a, i):
    w = 1 if name == 'strcpy' else 4; t = ('i', 8 * w)
    n = spec_ut.slen(e, st, 'strlen' if w == 1 else 'wcslen', [a[1]], i).c
    for k in range(n + 1): e.store(st, P(a[0].r, a[0].o + L(k * w)), w, e.load(st, P(a[1].r, a[1].o + L(k * w)), w, t), t)
    return a[0]
@m('srand')
def srand(e, st, name, a, i): return None
@m('time')
def time(e, st, name, a, i):
    return e.fresh(st, 'time')
@m('rand')
def rand(e, st, name, a, i):
    n = st.g.get('rands', 0); st.g['rands'] = n + 1
    x = e.app(st, 'rand', (L(n),), 32); st.facts.add_le(-x)
    return x
