"""Numbers and text: decimal digits are floor quotients of the number, so printing and parsing are followed exactly for every value."""
import spec_bit
from spec_bit import *
class EngineClass(spec_bit.EngineClass): pass
models = dict(spec_bit.models); patterns = spec_bit.patterns
def m(*ns):
    def d(f):
        for n in ns: models[n] = f
        return f
    return d
I8 = ['i', 8]; I32 = ['i', 32]; IP = ['p']
@m('v_u64')
def v_u64(e, st, name, a, i):
    s = SY.intern(('vu', a[0].c), 'u%d' % a[0].c); x = L(0, {s: 1})
    if ('rng', s) not in st.elts:
        st.elts[('rng', s)] = 1; st.facts.add_le(-x); st.facts.add_le(x - (2 ** 64 - 1))
    return x
@m('v_i64')
def v_i64(e, st, name, a, i):
    s = SY.intern(('vi', a[0].c), 'i%d' % a[0].c); x = L(0, {s: 1})
    if ('rng', s) not in st.elts:
        st.elts[('rng', s)] = 1; st.facts.add_le(-x - 2 ** 63); st.facts.add_le(x - (2 ** 63 - 1))
    return x
def cstr(e, st, p, sz):
    out = ''
    for k in range(64):
        c = e.load(st, P(p.r, p.o + k * sz), sz, I8 if sz == 1 else I32)
        c = st.facts.reduce(c)
        if not c.const(): raise Imprecise('format string is not constant')
        if c.c == 0: return out
        out += chr(c.c & 0xffffffff if sz == 4 else c.c & 255)
    raise Imprecise('format string too long')
def decimal(e, st, v):
    """character forms of the shortest decimal text of v (forks over sign and length)"""
    neg = not st.le(ZERO, v)
    x = -v if neg else v
    d = 1
    while not st.le(x, L(10 ** d - 1)):
        d += 1
        if d > 20: raise Imprecise('number of more than 20 digits')
    qs = [e.divfloor(st, x, 10 ** k) for k in range(d)] + [ZERO]
    out = [L(45)] if neg else []
    for k in reversed(range(d)):
        g = qs[k] - qs[k + 1] * 10
        st.facts.add_le(-g); st.facts.add_le(g - 9)
        out.append(g + 48)
    return out
def printf(e, st, buf, limit, fmt, args, sz):
    out = []; k = 0; args = list(args)
    while k < len(fmt):
        c = fmt[k]
        if c != '%': out.append(L(ord(c))); k += 1; continue
        k += 1; ln = 32
        while k < len(fmt) and fmt[k] in 'lhjzI64':
            ln = 64 if fmt[k] in 'ljz' or fmt[k:k + 3] == 'I64' else 16 if ln == 32 else 8; k += 1
        c = fmt[k]; k += 1
        if c == 'f':
            out += fixed(e, st, args.pop(0)); continue
        if c not in 'diu' or not args: raise Imprecise('printf conversion %' + c)
        v = args.pop(0)
        if not isinstance(v, L): raise Imprecise('printf argument')
        if c == 'u':
            if not st.le(ZERO, v): v = v + 2 ** 64 if ln == 64 else v + 2 ** ln
        else:
            if ln == 64:
                if not st.le(v, L(2 ** 63 - 1)): v = v - 2 ** 64
            else: v = e.trunc_to(st, v, ln)
        out += decimal(e, st, v)
    n = len(out)
    if limit is not None:
        if not st.le(L(n + 1), limit): return L(-1) if sz == 4 else None
    for j, ch in enumerate(out + [ZERO]): e.store(st, P(buf.r, buf.o + j * sz), sz, ch, I8 if sz == 1 else I32)
    return L(n)
def fixed(e, st, v):
    """text of a floating point number: sign, one to three digits, point, six digits; or a name"""
    if 'ftext' not in st.g:
        k = st.choose(('fshape',), 7)
        if k == 6: t = [L(ord(c)) for c in 'inf']
        else:
            t = [L(45)] if k >= 3 else []
            for j in range(k % 3 + 1 + 6):
                if j == k % 3 + 1: t.append(L(46))
                x = L(0, {SY.intern(('fdigit', j), 'digit%d' % j): 1}); st.facts.add_le(L(48) - x); st.facts.add_le(x - 57); t.append(x)
        st.g['ftext'] = tuple(t)
    return list(st.g['ftext'])
@m('v_huge')
def v_huge(e, st, name, a, i):
    """the longest text: the lowest representable number"""
    e.small_loops = 400
    st.g['ftext'] = tuple([L(45)] + [L(49 + k % 9) for k in range(309)] + [L(46)] + [L(48)] * 6)
    return None
@m('v_flen')
def v_flen(e, st, name, a, i): return L(len(st.g['ftext']))
@m('v_fch')
def v_fch(e, st, name, a, i): return st.g['ftext'][a[0].c]
def slen(e, st, p):
    n = 0
    while not st.eq(e.load(st, P(p.r, p.o + n), 1, I8), ZERO):
        n += 1
        if n > 400: raise Imprecise('strlen')
    return n
@m('strlen')
def m_strlen(e, st, name, a, i): return L(slen(e, st, a[0]))
@m('strchr', 'strrchr')
def m_strchr(e, st, name, a, i):
    n = slen(e, st, a[0])
    for k in (range(n + 1) if name == 'strchr' else range(n, -1, -1)):
        if st.eq(e.load(st, P(a[0].r, a[0].o + k), 1, I8), a[1]): return P(a[0].r, a[0].o + k)
    return NULL
@m('sprintf')
def m_sprintf(e, st, name, a, i): return printf(e, st, a[0], None, cstr(e, st, a[1], 1), a[2:], 1)
@m('snprintf')
def m_snprintf(e, st, name, a, i):
    r = printf(e, st, a[0], a[1], cstr(e, st, a[2], 1), a[3:], 1)
    if r is None: raise Imprecise('truncated snprintf')
    return r
@m('swprintf')
def m_swprintf(e, st, name, a, i): return printf(e, st, a[0], a[1], cstr(e, st, a[2], 4), a[3:], 4)
def strto(e, st, a, sz, unsigned):
    p, endp, base = a
    if not (base.const() and base.c in (0, 10)): raise Imprecise('number base')
    def ch(k): return e.load(st, P(p.r, p.o + k * sz), sz, I8 if sz == 1 else I32)
    def within(c, lo, hi): return st.le(L(lo), c) and st.le(c, L(hi))
    k = 0
    while True:
        c = ch(k)
        if st.eq(c, L(32)) or within(c, 9, 13): k += 1
        else: break
    neg = False
    if st.eq(c, L(45)): neg = True; k += 1
    elif st.eq(c, L(43)): k += 1
    v = ZERO; n = 0
    while True:
        c = ch(k + n)
        if not within(c, 48, 57): break
        v = st.facts.reduce(v * 10 + c - 48); n += 1
        if n > 24: raise Imprecise('text of more than 24 digits')
    if base.c == 0 and n > 1: raise Imprecise('number base')
    if isinstance(endp, P) and endp.r is not None: e.store(st, endp, 8, P(p.r, p.o + (k + n) * sz) if n else p, IP)
    if n == 0: return ZERO
    if unsigned:
        if not st.le(v, L(2 ** 64 - 1)): return L(2 ** 64 - 1)
        return (L(2 ** 64) - v if not st.eq(v, ZERO) else ZERO) if neg else v
    if neg: return -v if st.le(v, L(2 ** 63)) else L(-2 ** 63)
    return v if st.le(v, L(2 ** 63 - 1)) else L(2 ** 63 - 1)
@m('strtol', 'strtoll', '__isoc23_strtol', '__isoc23_strtoll')
def m_strtol(e, st, name, a, i): return strto(e, st, a, 1, False)
@m('strtoul', 'strtoull', '__isoc23_strtoul', '__isoc23_strtoull')
def m_strtoul(e, st, name, a, i): return strto(e, st, a, 1, True)
@m('wcstol', 'wcstoll', '__isoc23_wcstol', '__isoc23_wcstoll')
def m_wcstol(e, st, name, a, i): return strto(e, st, a, 4, False)
@m('wcstoul', 'wcstoull', '__isoc23_wcstoul', '__isoc23_wcstoull')
def m_wcstoul(e, st, name, a, i): return strto(e, st, a, 4, True)
# floating point: the value is opaque; what is consumed is any prefix (none when there is no number)
def strtof(e, st, a, sz):
    p, endp = a[:2]
    n = 0
    while not st.eq(e.load(st, P(p.r, p.o + n * sz), sz, I8 if sz == 1 else I32), ZERO): n += 1
    k = st.choose(('consumed',), n + 1) if n else 0
    st.g['consumed'] = k
    if isinstance(endp, P) and endp.r is not None: e.store(st, endp, 8, P(p.r, p.o + k * sz), IP)
    return e.app(st, 'number', (L(k),)) if k else e.app(st, 'fp:0.0', ())
@m('strtod')
def m_strtod(e, st, name, a, i): return strtof(e, st, a, 1)
@m('wcstod')
def m_wcstod(e, st, name, a, i): return strtof(e, st, a, 4)
@m('v_consumed')
def v_consumed(e, st, name, a, i): return L(st.g.get('consumed', 0))
# case mapping: an arbitrary function of the character that keeps zero apart
def case(e, st, name, v, lo, hi):
    v = st.facts.reduce(v)
    if st.eq(v, ZERO): return ZERO
    s = SY.intern((name, v), '%s(%r)' % (name, v)); x = L(0, {s: 1})
    if ('rng', s) not in st.elts:
        st.elts[('rng', s)] = 1; st.facts.add_le(x - hi); st.facts.add_le(lo - x)
        st.facts.add_ne(x)
    return x
@m('tolower', 'toupper')
def m_case(e, st, name, a, i):
    v = a[0]
    if not st.le(v, L(127)): v = v - 256    # tables are indexed by the character, signed or unsigned
    return case(e, st, name, v, -128, 127)
@m('towlower', 'towupper')
def m_wcase(e, st, name, a, i): return case(e, st, name, a[0], 1, 0x10FFFF)
