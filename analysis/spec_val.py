"""Value types holding opaque elements: which element is alive where, and with which value."""
from hooks import *
import hooks
models = dict(hooks.H)
patterns = []
def hookm(*ns):
    def d(f):
        for n in ns: models[n] = f
        return f
    return d
RULES = {5: 'type', 1: 'range', 2: 'result', 3: 'order', 4: 'state'}
MSG = {'type': 'a program the types must refuse compiles, or one they must accept does not,', 'range': 'an illegal access is accepted, or a legal one rejected', 'result': 'wrong result'}
@hookm('v_obj')
def v_obj(e, st, name, a, i):
    rid = 'obj%d' % a[0].c
    if rid not in st.mem:
        r = st.new_region(rid, 'param', L(a[1].c), 'argument %d' % a[0].c)
        r.cells[0] = (a[1].c, ('obj', ('tok', 'item%d' % a[0].c), a[1].c))
    return P(rid, ZERO)
@hookm('v_val')
def v_val(e, st, name, a, i):
    """(pointer, size, tag): live and holding argument `tag` (-1: default value, -2: any live value)"""
    p, sz, tag = a[0], a[1].c, a[2].c
    e.rep.checks['value'] = e.rep.checks.get('value', 0) + 1
    if not isinstance(p, P) or p.r is None: e.violation(st, 'contents', 'no element where one is expected'); return None
    t = e.obj_get(st, p, sz)
    if t is None: e.violation(st, 'dead-object', 'the value refers to an element that is not alive')
    elif tag == -2 or t == ('tok', 'item%d' % tag if tag >= 0 else 'default'): e.rep.ok('contents')
    else: e.violation(st, 'contents', 'element holds %s, expected %s' % (t[1], 'argument %d' % tag if tag >= 0 else 'a default value'))
    return None
@hookm('v_require')
def v_require(e, st, name, a, i):
    rule = RULES.get(a[1].c, 'require')
    c = e.truth(st, a[0])
    e.rep.checks[rule] = e.rep.checks.get(rule, 0) + 1
    if c: e.rep.ok(rule)
    else: e.violation(st, rule, MSG.get(rule, 'requirement fails') + ' in ' + short(st.frames[-1].fn['dem']))
    return None
@hookm('v_rank')
def v_rank(e, st, name, a, i):
    st.bools[('rank', e.obj_get(st, a[0], a[1].c))] = a[2].c
    return None
@hookm('v_cmp')
def v_cmp(e, st, name, a, i):
    """specification's comparison of two opaque values: -1/0/1"""
    sz = a[2].c
    return L(e.cmp_terms(st, e.obj_get(st, a[0], sz), e.obj_get(st, a[1], sz), '<=>'))
@hookm('v_choose')
def v_choose(e, st, name, a, i): return L(st.choose(('choice', a[0].c), a[1].c))
@hookm('v_addr')
def v_addr(e, st, name, a, i): st.bools[('addrorder',)] = a[0].c
@hookm('v_pred')
def v_pred(e, st, name, a, i):
    """an arbitrary predicate number a[2] of the object's value"""
    t = e.obj_get(st, a[0], a[1].c)
    if t is None or t == ('tok', 'moved'): e.violation(st, 'dead-object', 'callback is given an element that is not alive'); raise PathEnd('breach')
    k = st.bools.get(('rank', t))
    if k is not None: return ONE if (k + a[2].c) % 3 else ZERO
    return ONE if st.bool(('pred', a[2].c, repr(t))) else ZERO
@hookm('v_map')
def v_map(e, st, name, a, i):
    """(dst, dsize, src, ssize, f): construct at dst the value f(src)"""
    t = e.obj_get(st, a[2], a[3].c)
    if t is None or t == ('tok', 'moved'): e.violation(st, 'dead-object', 'callback is given an element that is not alive'); raise PathEnd('breach')
    e.obj_set(st, a[0], a[1].c, ('tok', 'f%d(%s)' % (a[4].c, t[1])))
    return None
@hookm('v_tag')
def v_tag(e, st, name, a, i):
    t = e.obj_get(st, a[0], a[1].c)
    if t and t[0] == 'tok' and t[1].startswith('item'): return L(int(t[1][4:]))
    if t is None: e.violation(st, 'dead-object', 'reference to an element that is not alive')
    return L(-1)
@hookm('v_is_map')
def v_is_map(e, st, name, a, i):
    """(ptr, size, f, tag): holds f(argument tag)"""
    t = e.obj_get(st, a[0], a[1].c); w = ('tok', 'f%d(item%d)' % (a[2].c, a[3].c))
    e.rep.checks['value'] = e.rep.checks.get('value', 0) + 1
    if t == w: e.rep.ok('contents')
    else: e.violation(st, 'contents', 'element holds %s, expected %s' % (t and t[1], w[1]))
    return None
@hookm('v_final')
def v_final(e, st, name, a, i):
    for rid, r in st.mem.items():
        if r.kind == 'heap' and r.live: e.violation(st, 'leak', 'storage %s is never released' % r.label)
    e.rep.checks['final'] = e.rep.checks.get('final', 0) + 1
    e.rep.ok('no-leak')
    return None
def rank(t): return L(0, {SY.intern(('rank', repr(t)), 'rank(%s)' % (t[1] if len(t) > 1 else t[0],)): 1})
class EngineClass(Engine):
    small_loops = 6
    def cmp_terms(self, st, x, y, kind):
        """opaque values are totally ordered by an unknown integer rank"""
        if x == y: return 0
        kx, ky = st.bools.get(('rank', x)), st.bools.get(('rank', y))
        if kx is not None and ky is not None: return (kx > ky) - (kx < ky)
        d = rank(x) - rank(y)
        if st.eq(d): return 0
        if kind == 'eq': return 1
        return -1 if st.le(d, L(-1)) else 1
    def free(self, st, p, what):
        r = st.mem.get(p.r) if isinstance(p, P) else None
        if r is not None and r.live and r.kind == 'heap': self.check_stack_objects(st, r)
        return Engine.free(self, st, p, what)
