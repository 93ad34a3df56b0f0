"""Strings: SeqEngine plus the rule that a shared reference counter is only touched by atomic read-modify-write."""
from seqs import *
import seqs
def c_load(e, st, p, sz, ty):
    if not e.in_rmw and not e.cur_atomic: e.violation(st, 'nonatomic-counter', 'the shared reference counter is read outside an atomic read-modify-write')
    return None
def c_store(e, st, p, sz, v):
    r = st.mem[p.r]
    if not e.in_rmw and not e.cur_atomic and 0 in r.cells: e.violation(st, 'nonatomic-counter', 'the shared reference counter is written outside an atomic read-modify-write')
    return False
class EngineClass(SeqEngine):
    in_rmw = False
    def alloc(self, st, size, label):
        p = SeqEngine.alloc(self, st, size, label)
        # the only fixed 8-byte non-array heap object a string owns is its counter
        if label == 'new' and size.const() and size.c == 8: st.mem[p.r].meta = {'load': c_load, 'store': c_store}
        return p
    def atomic(self, st, i):
        self.in_rmw = True
        try: return SeqEngine.atomic(self, st, i)
        finally: self.in_rmw = False
