"""Character/integer sequences shared by the string-like drivers: arbitrary contents, ghosts for 'first occurrence' and 'first difference'."""
from hooks import *
import hooks
models = dict(hooks.H)
patterns = []
def hookm(*ns):
    def d(f):
        for n in ns: models[n] = f
        return f
    return d
RULES = {1: 'range', 2: 'result', 3: 'contents', 4: 'state', 5: 'terminator'}
def X(tag): return 't%d' % tag
def ghost_sym(key, name): return L(0, {SY.intern(key, name): 1})
def region(e, st, tag, n, sz, term, nonzero):
    rid = 'chars%d' % tag
    if rid in st.mem: return P(rid, ZERO)
    e.seqs.setdefault(X(tag), {'esz': sz, 'after_read': nz if nonzero else None, 'range': getattr(e, 'seqrange', {}).get(tag)})
    if term:
        r = st.new_region(rid, 'param', n * sz + sz, 'caller buffer %d' % tag)
        r.segs = [Seg(ZERO, n * sz, ('elt', X(tag), ZERO)), Seg(n * sz, n * sz + sz, ('val', ZERO, sz))]
    else:
        r = st.new_region(rid, 'param', n * sz, 'caller buffer %d' % tag)
        r.segs = [Seg(ZERO, n * sz, ('elt', X(tag), ZERO))]
    r.const = True
    st.g[('chars', tag)] = (sz, n)
    return P(rid, ZERO)
def nz(e, st, off, sz, v): pass
@hookm('v_chars')
def v_chars(e, st, name, a, i):
    return region(e, st, a[0].c, a[1], a[2].c, False, False)
@hookm('v_cstr')
def v_cstr(e, st, name, a, i):
    st.g[('nz', X(a[0].c))] = True
    return region(e, st, a[0].c, a[1], a[2].c, True, True)
@hookm('v_zstr')
def v_zstr(e, st, name, a, i):
    """zero-terminated at n, but zeros may also occur before"""
    return region(e, st, a[0].c, a[1], a[2].c, True, False)
@hookm('v_gone')
def v_gone(e, st, name, a, i):
    """the caller's storage ceases to exist: nothing may read it any more"""
    st.wr(a[0].r).live = False
@hookm('v_at')
def v_at(e, st, name, a, i):
    sz, n = st.g[('chars', a[0].c)]
    return e.elt_int(st, X(a[0].c), a[1] * sz, sz)
@hookm('v_first2')
def v_first2(e, st, name, a, i):
    """v_first2(tag, from, len, value): first index f (relative to from) in [0,len) with X[from+f]==value, or len"""
    tag, frm, ln, val = a[0].c, a[1], a[2], a[3]
    f = ghost_sym(('first2', tag), 'first%d' % tag)
    st.facts.add_le(-f); st.facts.add_le(f - ln)
    sz, n = st.g[('chars', tag)]
    st.g[('first', X(tag))] = (frm, f, val, sz)
    return f
@hookm('v_diff')
def v_diff(e, st, name, a, i):
    """v_diff(tagA, fromA, tagB, fromB, len): first index where the two differ, or len"""
    ta, fa, tb, fb, ln = a[0].c, a[1], a[2].c, a[3], a[4]
    d = ghost_sym(('diff', ta, tb), 'diff')
    st.facts.add_le(-d); st.facts.add_le(d - ln)
    sz, _ = st.g[('chars', ta)]
    st.g['diff'] = st.g.get('diff', ()) + ((X(ta), fa * sz, X(tb), fb * sz, d * sz, sz),)
    return d
def elt_of(e):
    """(symbol key, constant) when e is one element symbol plus a constant"""
    if isinstance(e, L) and len(e.d) == 1:
        (s, c), = e.d.items()
        if c == 1:
            k = SY.keys[s]
            if k and k[0] == 'elt': return k, e.c
            if k and k[0] == 'app' and k[1].startswith('u') and k[1][1:].isdigit():
                s2 = sid(k[2][0])
                if s2 is not None and SY.keys[s2] and SY.keys[s2][0] == 'elt': return SY.keys[s2] + ('u',), e.c
    return None
class SeqEngine(Engine):
    def zext(self, st, v, bits):
        if bits in (8, 16) and isinstance(v, L) and not v.const() and not st.facts.entails_le(-v):
            s = sid(v)
            if s is not None and SY.keys[s] and SY.keys[s][0] == 'elt':
                r = L(0, {SY.intern(('app', 'u%d' % bits, (v,)), 'u(%r)' % v): 1})
                if ('rng', r) not in st.elts:
                    st.elts[('rng', r)] = 1; st.elts[('uapps',)] = st.elts.get(('uapps',), ()) + ((v, r),)
                    for f in (-r, r - (2 ** bits - 1)): RANGEFACTS.add(f); st.facts.add_le(f)
                return r
        return Engine.zext(self, st, v, bits)
    def congruence(self, st):
        Engine.congruence(self, st)
        u = st.elts.get(('uapps',), ())
        for i in range(len(u)):
            for j in range(i):
                if st.facts.entails_eq(u[i][0] - u[j][0]) and not st.facts.entails_eq(u[i][1] - u[j][1]): st.facts.add_eq(u[i][1] - u[j][1])
    def icmp(self, st, pred, a, b, ty):
        if st.elts.get(('uapps',)) and isinstance(a, L) and isinstance(b, L): self.congruence(st)
        x, y = elt_of(a), elt_of(b)
        if x and y and x[1] == y[1]:
            for (xa, fa, xb, fb, d, sz) in st.g.get('diff', ()):
                for p, q in ((x[0], y[0]), (y[0], x[0])):
                    if p[1] == xa and q[1] == xb and st.facts.entails_eq((p[2] - fa) - (q[2] - fb)):
                        if st.le(p[2] - fa + sz, d): return pred in ('eq', 'sle', 'sge', 'ule', 'uge')
                        if st.eq(p[2] - fa, d):
                            if pred == 'eq': return False
                            if pred == 'ne': return True
                            st.facts.add_ne(a - b)
        for p, c, o in ((x, b, a), (y, a, b)):
            if p and pred in ('eq', 'ne'):
                k = p[0]
                if isinstance(c, L) and c.const() and c.c == p[1] and st.g.get(('nz', k[1])): return pred == 'ne'
                g = st.g.get(('first', k[1]))
                if g and isinstance(c, L) and (c == g[2] + p[1] or st.facts.entails_eq(c - g[2] - p[1])):
                    frm, f, val, sz = g
                    if st.le(frm * sz, k[2]):
                        if st.le(k[2] + sz, (frm + f) * sz): return pred == 'ne'
                        if st.eq(k[2], (frm + f) * sz): return pred == 'eq'
        return Engine.icmp(self, st, pred, a, b, ty)
    def truth(self, st, v):
        x = elt_of(v)
        if x and x[1] == 0 and st.g.get(('nz', x[0][1])): return True
        return Engine.truth(self, st, v)
EngineClass = SeqEngine
@hookm('v_require')
def v_require(e, st, name, a, i):
    rule = RULES.get(a[1].c, 'require')
    c = e.truth(st, a[0])
    e.rep.checks[rule] = e.rep.checks.get(rule, 0) + 1
    if c: e.rep.ok(rule)
    else:
        e.violation(st, rule, {'range': 'a call is accepted outside its legal argument range, or rejected inside it', 'result': 'wrong result', 'contents': 'wrong contents', 'terminator': 'not zero terminated'}.get(rule, 'requirement fails') + ' in ' + short(st.frames[-1].fn['dem']))
        raise PathEnd('breach')
    return None
@hookm('v_is')
def v_is(e, st, name, a, i):
    """v_is(value, tag, index): value must be X[index]"""
    v, tag, ix = a[0], a[1].c, a[2]
    sz, n = st.g[('chars', tag)]
    e.rep.checks['contents'] = e.rep.checks.get('contents', 0) + 1
    x = e.elt_int(st, X(tag), ix * sz, sz)
    if isinstance(v, L) and st.facts.entails_eq(v - x): e.rep.ok('contents'); return None
    if isinstance(v, Undef): e.violation(st, 'contents', 'character read from uninitialised storage'); return None
    k = elt_of(v)
    if k and k[0][1] == X(tag) and k[1] == 0: e.require_eq(st, k[0][2] - ix * sz, 'contents', lambda: 'character %r appears where character %r of the source belongs' % (k[0][2], ix * sz))
    else: e.violation(st, 'contents', 'character is %r where character %r of source %d belongs' % (v, ix, tag))
    return None
@hookm('v_isval')
def v_isval(e, st, name, a, i):
    e.rep.checks['contents'] = e.rep.checks.get('contents', 0) + 1
    if isinstance(a[0], Undef): e.violation(st, 'contents', 'character read from uninitialised storage'); return None
    e.require_eq(st, a[0] - a[1], 'terminator' if a[1] == ZERO else 'contents', lambda: 'character is %r, expected %r' % (a[0], a[1]))
    return None
@hookm('v_final')
def v_final(e, st, name, a, i):
    for rid, r in st.mem.items():
        if r.kind == 'heap' and r.live:
            e.violation(st, 'leak', 'storage %s is never released' % r.label)
    e.rep.checks['final'] = e.rep.checks.get('final', 0) + 1
    e.rep.ok('no-leak')
    return None
