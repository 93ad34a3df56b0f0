"""Shared-pointer ownership (C01)."""
from hooks import *
import hooks

def counter_of(st, h):
    """(counter region, object region) reachable from a handle's cells: the counter is the 8-byte integer box"""
    r = st.mem[h.r]; cnt = obj = None
    for o, (s, v) in sorted(r.cells.items()):
        if isinstance(v, P) and v.r is not None and o >= h.o.c:
            t = st.mem[v.r]
            if t.kind == 'heap':
                if t.meta is not None and t.meta.get('counter'): cnt = v.r
                elif t.size is not None and t.size.const() and t.size.c == 8 and not any(isinstance(x, tuple) for _, x in t.cells.values()): cnt = v.r
                else: obj = v.r
    return cnt, obj
def shared_load(e, st, p, sz, ty):
    if not getattr(e, 'in_rmw', False) and not e.cur_atomic:
        e.violation(st, 'nonatomic-counter', 'shared reference counter is read outside an atomic read-modify-write')
    return None
def shared_store(e, st, p, sz, v):
    if not getattr(e, 'in_rmw', False) and not e.cur_atomic:
        e.violation(st, 'nonatomic-counter', 'shared reference counter is written outside an atomic read-modify-write')
    return False
def atomic(self, st, i):
    self.in_rmw = True
    try: return Engine.atomic(self, st, i)
    finally: self.in_rmw = False
class PtrEngine(Engine):
    atomic = atomic
models = dict(hooks.H)
def hookm(n):
    def d(f): models[n] = f; return f
    return d
@hookm('v_share')
def v_share(e, st, name, a, i):
    cnt, obj = counter_of(st, a[0])
    if cnt is None: raise Imprecise('no counter found in handle')
    n = len(st.g.get('objs', ()))
    o = sym('others%d' % n); st.facts.add_le(-o)
    w = st.wr(cnt)
    sz, v = w.cells[0]
    w.cells[0] = (sz, v + o)
    w.meta = {'counter': True, 'load': shared_load, 'store': shared_store}
    st.g['objs'] = st.g.get('objs', ()) + ((cnt, obj, o),)
    return None
def handles_on(st, hs, cnt):
    n = 0
    for h in hs:
        r = st.mem[h.r]
        if any(isinstance(v, P) and v.r == cnt for o, (s, v) in r.cells.items() if h.o.c <= o): n += 1
    return n
def check_counts(e, st, hs, refs=()):
    """hs: handles whose ownership is read from their cells; refs: what the observed handles refer to (a handle that refers to an object owns it)"""
    for cnt, obj, o in st.g.get('objs', ()):
        n = handles_on(st, hs, cnt) + sum(1 for x in refs if isinstance(x, P) and x.r == obj)
        alive = st.mem[cnt].live; objlive = st.mem[obj].live
        if alive != objlive: e.violation(st, 'ownership', 'object and its counter are not released together')
        if not alive:
            if n: e.violation(st, 'premature-destroy', 'object destroyed although %d handle(s) still refer to it' % n)
            e.require_le(st, o, 'premature-destroy', 'object destroyed although other owners exist')
            continue
        v = st.mem[cnt].cells[0][1]
        e.require_eq(st, v - o - n, 'count', lambda: 'reference count %r differs from the number of owners (%r others + %d handles)' % (v, o, n))
        e.require_le(st, 1 - o - n, 'leak', 'object still alive although its last owner is gone')
        e.rep.ok('object-state')

@hookm('v_newcom')
def v_newcom(e, st, name, a, i):
    r = e.fresh_region(st, 'heap', L(8), 'com'); r.cells[0] = (8, ('obj', ('tok', 'com'), 8))
    r.meta = {'com': True}
    return P(r.id, ZERO)
def com_release(e, st, name, a, i):
    if a[0].r is None: e.fail(st, 'null-deref', 'Release called through a null pointer')
    r = st.mem[a[0].r]
    if not r.live: e.fail(st, 'double-destroy', 'Release called on an already released object')
    w = st.wr(a[0].r); w.live = False; w.cells = {}
    e.rep.ok('destroy')
    return None
patterns = [(re.compile(r'^Com::Release\(\)$'), com_release, True)]
@hookm('v_check')
def v_check(e, st, name, a, i):
    k = a[0].c
    e.rep.checks[k] = e.rep.checks.get(k, 0) + 1
    def same(x, y, m):
        if isinstance(x, P) and isinstance(y, P) and x.r is None and y.r is None: e.rep.ok('target'); return
        if x != y: e.violation(st, 'target', m + ': %r instead of %r' % (x, y))
        else: e.rep.ok('target')
    if k == 1:
        same(a[2], a[3], 'handle does not refer to the expected object')
        check_counts(e, st, inner_handles(st), [a[2]])
    elif k in (2, 4):
        p, q, o, po, qo = a[1:6]
        same(po, o, 'target handle'); 
        if k == 2: same(qo, o, 'source handle')
        else: same(qo, NULL, 'moved-from handle is not empty')
        check_counts(e, st, [], [po, qo])
    elif k == 7:
        po, qo, b, eq, eq2, eq3, arrow = a[1:]
        want = ONE if po.r is not None else ZERO
        same(b, want, 'conversion to bool')
        w = ONE if po == qo else ZERO
        same(eq, w, 'equality'); same(eq2, w, 'equality with raw pointer'); same(eq3, w, 'ordering'); same(arrow, po, 'operator->')
    elif k == 15:
        same(a[1], a[2], 'cast result'); same(a[3], a[4], 'cast source changed'); check_counts(e, st, [], [a[1], a[3]])
    elif k == 8: same(a[1], a[2], 'cast source changed')
    elif k == 9:
        check_counts(e, st, list(a[3:]), [a[2]])
    elif k in (10, 12):
        if k == 10: p, o, r, po = a[1:]; hs = [p]
        else: p, q, o, r = a[1:]; hs = [p, q]
        same(r, o, 'Detach result')
        for cnt, obj, oth in st.g.get('objs', ()):
            if not st.mem[obj].live: e.violation(st, 'premature-destroy', 'Detach destroyed the object'); continue
            n = handles_on(st, hs[1:], cnt)
            if st.mem[cnt].live:
                v = st.mem[cnt].cells[0][1]
                e.require_eq(st, v - oth - n, 'count', lambda: 'after Detach the reference count is %r but there are %r other owners' % (v, oth + n))
            if handles_on(st, hs[:1], cnt): e.violation(st, 'count', 'handle still owns the object after Detach')
    elif k == 13:
        # the object dies exactly when a remaining handle (b1) was its last owner
        for cnt, obj, oth in st.g.get('objs', ()):
            if st.mem[obj].live:
                if st.bools.get('b1'): e.require_le(st, 1 - oth, 'leak', 'object outlives its last owner after another handle was detached')
                else: e.rep.ok('detached-alive')
            elif not st.bools.get('b1'): e.violation(st, 'premature-destroy', 'detached object was destroyed')
            else: e.require_le(st, oth, 'premature-destroy', 'object destroyed although other owners exist')
    elif k == 11:
        # after every local handle is gone the detached object is still alive
        for cnt, obj, oth in st.g.get('objs', ()):
            if not st.mem[obj].live: e.violation(st, 'premature-destroy', 'detached object was destroyed')
            else: e.rep.ok('detached-alive')
    return None
def inner_handles(st):
    """handles stored inside live heap objects"""
    out = []
    for cnt, obj, o in st.g.get('objs', ()):
        if st.mem[obj].live: out.append(P(obj, ZERO))
    return out
@hookm('v_final')
def v_final(e, st, name, a, i):
    check_counts(e, st, inner_handles(st))
    known = set(x for c, o, _ in st.g.get('objs', ()) for x in (c, o))
    for rid, r in st.mem.items():
        if r.kind == 'heap' and r.live and rid not in known:
            e.violation(st, 'leak', 'allocation %s is never released' % r.label)
    e.rep.checks['final'] = e.rep.checks.get('final', 0) + 1
    return None
