"""Narrow text: the multibyte encoding of the locale is an arbitrary one in which ASCII stands for itself; any other wide
character has no encoding or one of one to three non-ASCII bytes, and its encoding decodes back to it."""
import spec_bit
from spec_bit import *
class EngineClass(spec_bit.EngineClass): pass
models = dict(spec_bit.models); patterns = spec_bit.patterns
def m(*ns):
    def d(f):
        for n in ns: models[n] = f
        return f
    return d
I8 = ['i', 8]; I32 = ['i', 32]
def fresh(e, st, key, name, lo, hi):
    s = SY.intern(key, name); x = L(0, {s: 1})
    if ('rng', s) not in st.elts:
        st.elts[('rng', s)] = 1; st.facts.add_le(lo - x); st.facts.add_le(x - hi)
    return x
def encode(e, st, c):
    """bytes of a wide character, None when it has no encoding"""
    c = st.facts.reduce(c)
    if st.le(L(1), c) and st.le(c, L(127)): return [c]
    w = st.choose(('mbw', c), 4)
    if w == 0: return None
    bs = [fresh(e, st, ('mb', c, k), 'byte%d(%r)' % (k, c), L(-128), L(-1)) for k in range(w)]
    st.g['mbs'] = st.g.get('mbs', ()) + ((tuple(bs), c),) if (tuple(bs), c) not in st.g.get('mbs', ()) else st.g['mbs']
    return bs
def rd(e, st, p, k, sz): return e.load(st, P(p.r, p.o + k * sz), sz, I8 if sz == 1 else I32)
def wide(e, st, p):
    out = []; k = 0
    while True:
        c = rd(e, st, p, k, 4)
        if not isinstance(c, L): raise Imprecise('wide character')
        if st.eq(c, ZERO): return out
        b = encode(e, st, c)
        if b is None: return None
        out.append(b); k += 1
        if k > 400: raise Imprecise('long text')
def narrow(e, st, p):
    out = []; k = 0
    while True:
        c = rd(e, st, p, k, 1)
        if not isinstance(c, L): raise Imprecise('character')
        if st.eq(c, ZERO): return out
        c = st.facts.reduce(c)
        if st.le(L(1), c): out.append((1, c)); k += 1
        else:
            hit = None
            for bs, w in st.g.get('mbs', ()):
                if bs[0] == c:
                    hit = (len(bs), w)
                    for j in range(1, len(bs)):
                        if st.facts.reduce(rd(e, st, p, k + j, 1)) != bs[j]: hit = 'bad'; break
                    break
            if hit == 'bad': raise Imprecise('mixed bytes')
            if hit is None:
                w = st.choose(('mbd', c), 2)
                if w == 0: return None
                hit = (1, fresh(e, st, ('wc', c), 'wide(%r)' % c, L(128), L(0x10FFFF)))
            out.append(hit); k += hit[0]
        if k > 400: raise Imprecise('long text')
@m('wcstombs')
def m_wcstombs(e, st, name, a, i):
    out = wide(e, st, a[1])
    if out is None: return L(-1)
    n = sum(len(b) for b in out)
    if not isinstance(a[0], P) or a[0].r is None: return L(n)
    if not st.le(ZERO, a[2]): limit = None
    else: limit = a[2]
    k = 0
    for b in out:
        if limit is not None and not st.le(L(k + len(b)), limit): return L(k)
        for x in b: e.store(st, P(a[0].r, a[0].o + k), 1, x, I8); k += 1
    if limit is None or st.le(L(k + 1), limit): e.store(st, P(a[0].r, a[0].o + k), 1, ZERO, I8)
    return L(k)
@m('mbstowcs')
def m_mbstowcs(e, st, name, a, i):
    out = narrow(e, st, a[1])
    if out is None: return L(-1)
    if not isinstance(a[0], P) or a[0].r is None: return L(len(out))
    limit = a[2] if st.le(ZERO, a[2]) else None
    k = 0
    for n, w in out:
        if limit is not None and not st.le(L(k + 1), limit): return L(k)
        e.store(st, P(a[0].r, a[0].o + 4 * k), 4, w, I32); k += 1
    if limit is None or st.le(L(k + 1), limit): e.store(st, P(a[0].r, a[0].o + 4 * k), 4, ZERO, I32)
    return L(k)
@m('v_mbw')
def v_mbw(e, st, name, a, i):
    b = encode(e, st, a[0]); return L(-1 if b is None else len(b))
@m('v_mbyte')
def v_mbyte(e, st, name, a, i):
    b = encode(e, st, a[0])
    return b[a[1].c] if b is not None and a[1].c < len(b) else ZERO
@m('v_mbd')
def v_mbd(e, st, name, a, i):
    """decoding of one byte on its own: wide character, -1 when there is none"""
    c = st.facts.reduce(a[0])
    if st.le(L(1), c): return c
    return fresh(e, st, ('wc', c), 'wide(%r)' % c, L(128), L(0x10FFFF)) if st.choose(('mbd', c), 2) else L(-1)
