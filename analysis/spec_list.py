"""Containers: element lifetime, sequence contents, argument ranges."""
from hooks import *
import hooks
models = dict(hooks.H)
patterns = []
def hookm(*ns):
    def d(f):
        for n in ns: models[n] = f
        return f
    return d
RULES = {1: 'range', 2: 'result', 3: 'order', 4: 'state'}

# ---------------------------------------------------------------- layout
def layout(e, st, p):
    """(record kind, elem size, offsets) of the container object at p, from the region's creator type"""
    r = st.mem[p.r]
    return None
def fields(e, st, p):
    """offsets of buffer,count,capacity relative to p (found once per element type from debug info)"""
    key = 'lay'
    if not hasattr(e, key):
        lay = {}
        for rec in e.m.records:
            m = re.match(r'vl::collections::(ArrayBase|ListBase)<(.*)>$', rec)
            if m: lay.setdefault(m.group(2), {})[m.group(1)] = rec
        e.lay = lay
    return e.lay
def find_layout(e, kind):
    """kind: element type name as in debug info -> dict(buffer,count,capacity) or raises"""
    rec_l = e.m.records.get('vl::collections::ListBase<%s>' % kind); rec_a = e.m.records.get('vl::collections::ArrayBase<%s>' % kind)
    if rec_a is None: raise Imprecise('no record for ArrayBase<%s>' % kind)
    fs = [f for f in rec_a['fields'] if not f[0].startswith('_vptr')]
    def pick(fs, ptr):
        c = [f[1] for f in fs if f[3] == ptr and f[2] == 8]
        if len(c) != 1: raise Imprecise('layout')
        return c[0]
    out = {'buffer': pick(fs, True)}
    fl = [f for f in rec_l['fields'] if not f[0].startswith('_vptr')] if rec_l is not None else []
    if len(fs) == 2: out['count'] = pick(fs, False)
    else:
        for n in ('count', 'capacity'):
            c = [f[1] for f in fs if f[0] == n]
            if c: out[n] = c[0]
        if 'count' not in out: raise Imprecise('layout')
    if rec_l is not None and 'capacity' not in out: out['capacity'] = pick(fl, False)
    return out

# ---------------------------------------------------------------- sequences
def seqname(tag): return 's%d' % tag
def info(st, tag): return st.g.get(('seq', tag))
def etype(e, st, i):
    """element type of a container argument, from the allocation's static type: taken from the calling function's template argument"""
    f = st.frames[-1]
    d = f.fn['dem']
    m = re.search(r'\bD<([^>]*)>', d)
    return m.group(1) if m else None
TY = {'E': ('E', 24, True), 'E2': ('E2', 40, True), 'vi': ('long', 8, False), 'long': ('long', 8, False)}
def container_kind(e, st, p):
    """Array / List / SortedList by vtable pointer or by the variable type recorded at v_list"""
    return st.g.get(('kind', p.r, p.o.c))
TYC = ['E', 'long', 'E2']
@hookm('v_list')
def v_list(e, st, name, a, i): return make_list(e, st, a[0], a[1].c, TY[etype(e, st, i)])
@hookm('v_listt')
def v_listt(e, st, name, a, i): return make_list(e, st, a[0], a[1].c, TY[TYC[a[2].c]])
def make_list(e, st, p, tag, ty):
    lay = find_layout(e, ty[0]); es = ty[1]
    isarr = is_array(e, st, p)
    X = seqname(tag)
    n = L(0, {SY.intern(('n', X), 'n%d' % tag): 1})
    w = st.wr(p.r); b = p.o.c
    ch = st.choose(('list-state', tag), 2)
    e.seqs.setdefault(X, {'esz': es, 'on_read': seq_read, 'after_read': seq_after, 'tag': tag})
    st.g[('seq', tag)] = (X, es, ty[2], n)
    if ch == 0:
        st.facts.add_eq(n)
        w.cells[b + lay['buffer']] = (8, NULL); w.cells[b + lay['count']] = (8, ZERO)
        if not isarr: w.cells[b + lay['capacity']] = (8, ZERO)
        return None
    cont = ('elt', X, ZERO)
    if ty[2]: cont = ('obj', cont, es)
    if isarr:
        st.facts.add_le(1 - n)
        r = e.fresh_region(st, 'heap', n * es, 'buffer of container %d' % tag)
        r.segs = [Seg(ZERO, n * es, cont)]
        w.cells[b + lay['buffer']] = (8, P(r.id, ZERO)); w.cells[b + lay['count']] = (8, n)
    else:
        cap = L(0, {SY.intern(('cap', X), 'cap%d' % tag): 1})
        st.facts.add_le(-n); st.facts.add_le(n - cap); st.facts.add_le(1 - cap)
        r = e.fresh_region(st, 'heap', cap * es, 'buffer of container %d' % tag)
        r.segs = [Seg(ZERO, n * es, cont), Seg(n * es, cap * es, RAW)]
        w.cells[b + lay['buffer']] = (8, P(r.id, ZERO)); w.cells[b + lay['count']] = (8, n); w.cells[b + lay['capacity']] = (8, cap)
    return None
def is_array(e, st, p):
    """an Array has no capacity cell: decided by the object's size"""
    r = st.mem[p.r]
    v = r.cells.get(p.o.c)
    if v and isinstance(v[1], P) and v[1].r and v[1].r.startswith('g:_ZTV'):
        return '5Array' in v[1].r
    lab = r.label
    return r.size is not None and r.size.const() and r.size.c <= 24
@hookm('v_n')
def v_n(e, st, name, a, i): return st.g[('seq', a[0].c)][3]
@hookm('v_elem')
def v_elem(e, st, name, a, i):
    rid = 'elem%d' % a[0].c
    if rid not in st.mem:
        r = st.new_region(rid, 'param', L(24), 'argument %d' % a[0].c)
        r.cells[0] = (24, ('obj', ('tok', 'item%d' % a[0].c), 24))
    return P(rid, ZERO)
@hookm('v_item')
def v_item(e, st, name, a, i):
    rid = 'item%d' % a[0].c
    if rid not in st.mem:
        r = st.new_region(rid, 'param', L(8), 'argument %d' % a[0].c)
        r.cells[0] = (8, item_sym(a[0].c))
    return P(rid, ZERO)
def item_sym(t): return L(0, {SY.intern(('item', t), 'item%d' % t): 1})
@hookm('v_first')
def v_first(e, st, name, a, i):
    X, es, obj, n = st.g[('seq', a[0].c)]
    f = L(0, {SY.intern(('first', X), 'first%d' % a[0].c): 1})
    st.facts.add_le(-f); st.facts.add_le(f - n)
    st.g[('first', X)] = (a[1].c, f)
    st.g['vocab'] = st.g.get('vocab', ()) + (f, n)
    return f
@hookm('v_sorted')
def v_sorted(e, st, name, a, i):
    X, es, obj, n = st.g[('seq', a[0].c)]
    lo = L(0, {SY.intern(('lo', X), 'lo%d' % a[0].c): 1}); hi = L(0, {SY.intern(('hi', X), 'hi%d' % a[0].c): 1})
    st.facts.add_le(-lo); st.facts.add_le(lo - hi); st.facts.add_le(hi - n)
    st.g[('sorted', X)] = (a[1].c, lo, hi)
    st.g['vocab'] = st.g.get('vocab', ()) + (lo, hi, n)
    return None
@hookm('v_lo')
def v_lo(e, st, name, a, i): return st.g[('sorted', seqname(a[0].c))][1]
@hookm('v_hi')
def v_hi(e, st, name, a, i): return st.g[('sorted', seqname(a[0].c))][2]
def order_vs_item(st, X, off, es, item):
    """None if unknown, else -1/0/1 = ordering of X[off/es] relative to item (forks on position)"""
    s = st.g.get(('sorted', X))
    if s and s[0] == item:
        if st.le(off + es, s[1] * es): return -1
        if st.le(off + es, s[2] * es): return 0
        return 1
    return None
def eq_vs_item(st, X, off, es, item):
    s = order_vs_item(st, X, off, es, item)
    if s is not None: return s == 0
    f = st.g.get(('first', X))
    if f and f[0] == item:
        if st.le(off + es, f[1] * es): return False
        if st.eq(off, f[1] * es): return True
    return None
def seq_read(e, st, off, sz):
    """integer sequences: settle the position relative to the ghosts before the element symbol is made"""
    return None
def seq_after(e, st, off, sz, v): pass
def icmp_ghost(self, st, pred, a, b, ty):
    if isinstance(a, L) and isinstance(b, L):
        for x, y, sg in ((a, b, 1), (b, a, -1)):
            s = sid(x); t = sid(y)
            if s is not None and t is not None:
                k, kt = SY.keys[s], SY.keys[t]
                if k and kt and k[0] == 'elt' and kt[0] == 'item':
                    o = order_vs_item(st, k[1], k[2], k[3], kt[1])
                    if o is not None:
                        o *= sg
                        return {'eq': o == 0, 'ne': o != 0, 'slt': o < 0, 'sle': o <= 0, 'sgt': o > 0, 'sge': o >= 0}[pred]
                    q = eq_vs_item(st, k[1], k[2], k[3], kt[1])
                    if q is not None and pred in ('eq', 'ne'): return q == (pred == 'eq')
    return Engine.icmp(self, st, pred, a, b, ty)
class EngineClass(Engine):
    def icmp(self, st, pred, a, b, ty): return icmp_ghost(self, st, pred, a, b, ty)
    def cmp_terms(self, st, x, y, kind):
        for p, q, sg in ((x, y, 1), (y, x, -1)):
            if p[0] == 'elt' and q[0] == 'tok' and q[1].startswith('item'):
                X, es = p[1], self.seqs[p[1]]['esz']; it = int(q[1][4:])
                if kind == '<=>':
                    o = order_vs_item(st, X, p[2], es, it)
                    if o is not None: return o * sg
                z = eq_vs_item(st, X, p[2], es, it)
                if z is not None:
                    if kind == 'eq': return 0 if z else 1
                    if z: return 0
        return Engine.cmp_terms(self, st, x, y, kind)

# ---------------------------------------------------------------- expectations
@hookm('v_require')
def v_require(e, st, name, a, i):
    rule = RULES.get(a[1].c, 'require')
    c = e.truth(st, a[0])
    e.rep.checks[rule] = e.rep.checks.get(rule, 0) + 1
    if c: e.rep.ok(rule)
    else:
        line = st.frames[-1].fn['blocks'][st.frames[-1].blk][st.frames[-1].ip].get('loc')
        e.violation(st, rule, {'range': 'a call is accepted outside its legal argument range, or rejected inside it', 'result': 'wrong result'}.get(rule, 'requirement fails') + ' in ' + short(st.frames[-1].fn['dem']))
    return None
def pieces(e, st, args, es, obj):
    """[(len_bytes, content-at-0 template builder)]"""
    out = []; k = 0
    while k < len(args):
        t = args[k].c
        if t == 0: break
        if t == 1:
            X, es2, o2, n = st.g[('seq', args[k + 1].c)]
            lo, hi = args[k + 2], args[k + 3]
            out.append(((hi - lo) * es, ('elt', X, lo * es))); k += 4
        elif t == 2:
            out.append((L(es), ('item', args[k + 1].c))); k += 2
        elif t == 3:
            out.append((args[k + 1] * es, ('def',))); k += 2
        else: raise Imprecise('piece')
    return out
def match_content(e, st, c, pos, want, wpos, es, obj):
    """content c (array template, at byte pos) versus piece `want` at byte wpos inside the piece"""
    if obj:
        if c[0] != 'obj': return False, 'holds no live element'
        c = c[1]
        if want[0] == 'elt':
            if c[0] != 'elt' or c[1] != want[1]: return False, 'holds %r' % (c,)
            return ('eq', c[2] + pos - want[2] - wpos), 'holds the wrong element of the original sequence'
        if want[0] == 'item': return c == ('tok', 'item%d' % want[1]), 'holds %r' % (c,)
        if want[0] == 'def': return c == ('tok', 'default'), 'holds %r' % (c,)
    else:
        if want[0] == 'elt':
            if c[0] != 'elt' or c[1] != want[1]: return False, 'holds %r' % (c,)
            return ('eq', c[2] + pos - want[2] - wpos), 'holds the wrong element of the original sequence'
        if want[0] == 'item': return c[0] == 'val' and c[1] == item_sym(want[1]), 'holds %r' % (c,)
        if want[0] == 'def': return True, ''
    return False, '?'
def read_list(e, st, p, ty):
    lay = find_layout(e, ty[0])
    w = st.mem[p.r]; b = p.o.c
    buf = w.cells[b + lay['buffer']][1]; cnt = w.cells[b + lay['count']][1]
    cap = None if is_array(e, st, p) else w.cells[b + lay['capacity']][1]
    return buf, cnt, cap
@hookm('v_expect')
def v_expect(e, st, name, a, i):
    p = a[0]
    if isinstance(a[0], Undef): raise Imprecise('list')
    ety = etype(e, st, i)
    ty = TY[ety]; es = ty[1]; obj = ty[2]
    e.rep.checks['contents'] = e.rep.checks.get('contents', 0) + 1
    check_list(e, st, p, ty, pieces(e, st, a[1:], es, obj))
    return None
@hookm('v_expectt')
def v_expectt(e, st, name, a, i):
    ty = TY[TYC[a[1].c]]
    e.rep.checks['contents'] = e.rep.checks.get('contents', 0) + 1
    check_list(e, st, a[0], ty, pieces(e, st, a[2:], ty[1], ty[2]))
    return None
def check_list(e, st, p, ty, want):
    es, obj = ty[1], ty[2]
    buf, cnt, cap = read_list(e, st, p, ty)
    total = ZERO
    for ln, w in want: total = total + ln
    e.require_eq(st, cnt * es - total, 'length', lambda: 'container reports %r elements, expected %r' % (cnt, total.div(es) if total.divisible(es) else total))
    if isinstance(buf, P) and buf.r is None:
        e.require_le(st, cnt, 'storage', 'container with elements has no storage')
        if cap is not None: e.require_eq(st, cap, 'storage', lambda: 'capacity %r without storage' % cap)
        return
    r = st.mem[buf.r]
    if not r.live: e.fail(st, 'use-after-free', 'container refers to released storage')
    if cap is not None:
        e.require_le(st, cnt - cap, 'storage', lambda: 'count %r exceeds capacity %r' % (cnt, cap))
        e.require_le(st, cap * es - r.size, 'storage', lambda: 'capacity %r exceeds the allocated storage (%r bytes)' % (cap, r.size))
    e.require_le(st, cnt * es - r.size, 'storage', lambda: 'count %r exceeds the allocated storage (%r bytes)' % (cnt, r.size))
    if r.segs is None: e.to_array(st, r); r = st.mem[buf.r]
    pos = ZERO
    for ln, w in want:
        if st.facts.entails_le(ln): continue
        if st.le(ln, ZERO): continue
        segs = e.get_range(st, buf.r, pos, pos + ln)
        for s in segs:
            if st.facts.entails_le(s.hi - s.lo): continue
            if st.le(s.hi, s.lo): continue
            res, why = match_content(e, st, s.c, s.lo, w, s.lo - pos, es, obj)
            if res is True: e.rep.ok('contents')
            elif res is False:
                e.violation(st, 'contents', 'elements [%r,%r) of the container: position %s, expected %s' % (s.lo.div(es) if s.lo.divisible(es) else s.lo, s.hi.div(es) if s.hi.divisible(es) else s.hi, why, wname(w)))
            else:
                e.require_eq(st, res[1], 'contents', lambda: 'elements [%r,%r): position %s' % (s.lo, s.hi, why))
        pos = pos + ln
    if obj:
        for s in e.get_range(st, buf.r, cnt * es, r.size):
            if s.c[0] == 'obj' and not st.facts.entails_le(s.hi - s.lo):
                e.violation(st, 'element-leak', 'element slots [%r,%r) beyond the count still hold live elements' % (s.lo, s.hi), [s.lo + 1 - s.hi])
def wname(w):
    return {'elt': 'an original element', 'item': 'the argument', 'def': 'a default element'}[w[0]]
@hookm('v_expect_elem')
def v_expect_elem(e, st, name, a, i): return expect_elem(e, st, a[0], TY[etype(e, st, i)], a[1:])
@hookm('v_expect_elemt')
def v_expect_elemt(e, st, name, a, i): return expect_elem(e, st, a[0], TY[TYC[a[1].c]], a[2:])
@hookm('v_obj')
def v_obj(e, st, name, a, i):
    rid = 'obj%d' % a[0].c
    if rid not in st.mem:
        r = st.new_region(rid, 'param', L(a[1].c), 'argument %d' % a[0].c)
        r.cells[0] = (a[1].c, ('obj', ('tok', 'item%d' % a[0].c), a[1].c))
    return P(rid, ZERO)
def expect_elem(e, st, p, ty, rest):
    es, obj = ty[1], ty[2]
    (ln, w), = pieces(e, st, list(rest) + [ZERO], es, obj)[:1]
    e.rep.checks['element'] = e.rep.checks.get('element', 0) + 1
    if obj:
        t = e.obj_get(st, p, es)
        if t is None: e.violation(st, 'contents', 'reference to a dead element'); return None
        if w[0] == 'elt':
            if t[0] != 'elt' or t[1] != w[1]: e.violation(st, 'contents', 'element is %r, expected an original element' % (t,))
            else: e.require_eq(st, t[2] - w[2], 'contents', lambda: 'wrong element %r, expected %r' % (t[2], w[2]))
        elif w[0] == 'item':
            if t != ('tok', 'item%d' % w[1]): e.violation(st, 'contents', 'element is %r, expected the argument value' % (t,))
            else: e.rep.ok('contents')
    else:
        v = e.load(st, p, es, ['i', 8 * es])
        if w[0] == 'elt': x = e.elt_int(st, w[1], w[2], es)
        else: x = item_sym(w[1])
        if not isinstance(v, L) or not st.facts.entails_eq(v - x):
            s = sid(v) if isinstance(v, L) else None
            k = SY.keys[s] if s is not None else None
            if k and k[0] == 'elt' and w[0] == 'elt' and k[1] == w[1]: e.require_eq(st, k[2] - w[2], 'contents', 'wrong element')
            else: e.violation(st, 'contents', 'element is %r, expected %r' % (v, x))
        else: e.rep.ok('contents')
    return None
@hookm('v_same')
def v_same(e, st, name, a, i):
    if a[0] != a[1] and not (isinstance(a[0], P) and isinstance(a[1], P) and a[0].r == a[1].r and st.facts.entails_eq(a[0].o - a[1].o)):
        e.violation(st, 'result', 'references differ: %r vs %r' % (a[0], a[1]))
    else: e.rep.ok('result')
    return None
@hookm('v_final')
def v_final(e, st, name, a, i):
    for rid, r in st.mem.items():
        if r.kind == 'heap' and r.live:
            e.violation(st, 'leak', 'storage %s is never released' % r.label)
    e.rep.checks['final'] = e.rep.checks.get('final', 0) + 1
    e.rep.ok('no-leak')
    return None
