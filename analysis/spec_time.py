"""Dates: time zones are an arbitrary standard offset with an arbitrary daylight saving shift in force or not at each instant;
calendar fields are uninterpreted functions of the civil second (same civil second <=> same fields)."""
import spec_num
from spec_num import *
import spec_glob
class EngineClass(spec_num.EngineClass):
    init_globals = spec_glob.All()
models = dict(spec_num.models); patterns = spec_num.patterns
def m(*ns):
    def d(f):
        for n in ns: models[n] = f
        return f
    return d
for n in ('__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort', '__cxa_atexit'): models[n] = spec_glob.models[n]
def symb(st, key, name, lo, hi):
    s = SY.intern(key, name); x = L(0, {s: 1})
    if ('rng', s) not in st.elts:
        st.elts[('rng', s)] = 1; st.facts.add_le(x - hi); st.facts.add_le(lo - x)
    return x
def std(st): return symb(st, ('zone', 'std'), 'zone', -50400, 50400)
def delta(st): return symb(st, ('zone', 'dst'), 'shift', 1, 7200)
FIELDS = [('sec', 0, 60), ('min', 0, 59), ('hour', 0, 23), ('mday', 1, 31), ('mon', 0, 11), ('year', -100000, 100000), ('wday', 0, 6), ('yday', 0, 365)]
def canon(st, x): return st.facts.reduce(x)
def fields(st, civil):
    """calendar fields of a civil second (memoised, so equal seconds have equal fields)"""
    civil = canon(st, civil)
    for c, f in st.g.get('civil', ()):
        if c == civil or st.facts.entails_eq(c - civil): return f
    f = tuple(symb(st, ('tm', n, civil), '%s(%r)' % (n, civil), lo, hi) for n, lo, hi in FIELDS)
    st.g['civil'] = st.g.get('civil', ()) + ((civil, f),)
    return f
def civil_of(st, fs):
    for c, f in st.g.get('civil', ()):
        if all(st.facts.entails_eq(a - b) for a, b in zip(fs, f[:6])): return c
    # a calendar date not seen before: it is a valid one
    for (n, lo, hi), x in zip(FIELDS, fs):
        if not (st.le(L(lo), x) and st.le(x, L(hi))): raise PathEnd('assume')
    c = symb(st, ('civil', tuple(canon(st, x) for x in fs)), 'civil(%s)' % ','.join(repr(canon(st, x)) for x in fs), -2 ** 50, 2 ** 50)
    rest = tuple(symb(st, ('tm', n, c), '%s(%r)' % (n, c), lo, hi) for n, lo, hi in FIELDS[6:])
    st.g['civil'] = st.g.get('civil', ()) + ((c, tuple(fs) + rest),)
    return c
def dst_at(st, t):
    t = canon(st, t)
    for x, d in st.g.get('dst', ()):
        if x == t or st.facts.entails_eq(x - t): return d
    d = st.choose(('dst', repr(t)), 2)
    set_dst(st, t, d)
    return d
def set_dst(st, t, d): st.g['dst'] = st.g.get('dst', ()) + ((canon(st, t), d),)
def write_tm(e, st, p, civil, isdst, off):
    for k, x in enumerate(fields(st, civil)): e.store(st, P(p.r, p.o + 4 * k), 4, x, I32)
    e.store(st, P(p.r, p.o + 32), 4, L(isdst), I32)
    e.store(st, P(p.r, p.o + 40), 8, off, ['i', 64])
def tmbuf(st):
    if 'tmbuf' not in st.mem: st.new_region('tmbuf', 'param', L(56), 'result of localtime/gmtime')
    return P('tmbuf', ZERO)
@m('localtime', 'localtime_r')
def m_local(e, st, name, a, i):
    t = e.load(st, a[0], 8, ['i', 64]); d = dst_at(st, t); off = std(st) + (delta(st) if d else ZERO)
    civil = t + off
    lt = st.g.get('local', ())
    st.g['local'] = lt + ((canon(st, civil), d),)
    p = a[1] if name.endswith('_r') else tmbuf(st); write_tm(e, st, p, civil, d, off); return p
@m('gmtime', 'gmtime_r')
def m_gm(e, st, name, a, i):
    t = e.load(st, a[0], 8, ['i', 64]); p = a[1] if name.endswith('_r') else tmbuf(st)
    write_tm(e, st, p, t, 0, ZERO); return p
def read_tm(e, st, p): return [e.load(st, P(p.r, p.o + 4 * k), 4, I32) for k in range(6)]
@m('timegm')
def m_timegm(e, st, name, a, i):
    c = civil_of(st, read_tm(e, st, a[0])); write_tm(e, st, a[0], c, 0, ZERO); return c
@m('mktime', 'timelocal')
def m_mktime(e, st, name, a, i):
    c = civil_of(st, read_tm(e, st, a[0])); g = canon(st, e.load(st, P(a[0].r, a[0].o + 32), 4, I32))
    if not g.const(): raise Imprecise('tm_isdst')
    if g.c < 0:
        # the instant that shows this civil time (local times that are skipped or repeated are left out)
        d = None
        for x, k in st.g.get('local', ()):
            if x == c or st.facts.entails_eq(x - c): d = k
        if d is None:
            d = st.choose(('dstc', repr(canon(st, c))), 2)
            st.g['local'] = st.g.get('local', ()) + ((canon(st, c), d),)
        t = c - std(st) - (delta(st) if d else ZERO)
        known = [k for x, k in st.g.get('dst', ()) if x == canon(st, t) or st.facts.entails_eq(x - t)]
        if known and known[0] != d: raise PathEnd('assume')
        if not known: set_dst(st, t, d)
    else:
        t = c - std(st) - (delta(st) if g.c else ZERO); d = dst_at(st, t)
    off = std(st) + (delta(st) if d else ZERO)
    st.g['local'] = st.g.get('local', ()) + ((canon(st, t + off), d),)
    write_tm(e, st, a[0], t + off, d, off)
    return t
@m('gettimeofday')
def m_now(e, st, name, a, i):
    n = st.g.get('clock', 0); st.g['clock'] = n + 1
    s = symb(st, ('now', n), 'now%d' % n, 10 ** 9, 2 ** 45); u = symb(st, ('usec', n), 'usec%d' % n, 0, 999999)
    e.store(st, a[0], 8, s, ['i', 64]); e.store(st, P(a[0].r, a[0].o + 8), 8, u, ['i', 64])
    return ZERO
@m('v_now')
def v_now(e, st, name, a, i): return symb(st, ('now', a[0].c), 'now%d' % a[0].c, 10 ** 9, 2 ** 45)
@m('v_usec')
def v_usec(e, st, name, a, i): return symb(st, ('usec', a[0].c), 'usec%d' % a[0].c, 0, 999999)
@m('v_clocks')
def v_clocks(e, st, name, a, i): return L(st.g.get('clock', 0))
