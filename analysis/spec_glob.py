"""Program-wide state: execution histories start from the initial values of all global variables; static locals are built once."""
import spec_seq
from spec_seq import *
class All:
    def __contains__(self, n): return True
class EngineClass(spec_seq.EngineClass):
    init_globals = All()
models = dict(spec_seq.models)
def m(*ns):
    def d(f):
        for n in ns: models[n] = f
        return f
    return d
@m('__cxa_guard_acquire')
def ga(e, st, name, a, i):
    v = e.load(st, a[0], 1, ('i', 8))
    return ZERO if e.truth(st, v) else ONE
@m('__cxa_guard_release')
def gr(e, st, name, a, i): e.store(st, a[0], 1, ONE, ('i', 8)); return None
@m('__cxa_guard_abort')
def gb(e, st, name, a, i): return None
@m('__cxa_atexit')
def ae(e, st, name, a, i): return ZERO
