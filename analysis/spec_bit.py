"""Bit-exact integers: shifts, masks and byte access become linear terms over floor quotients of the inputs, so encoders and
decoders are compared with their arithmetic definition for every input value."""
import spec_str
from spec_str import *
class EngineClass(spec_str.EngineClass):
    small_loops = 64; small_width = 4000
    def __init__(self, *a, **k):
        spec_str.EngineClass.__init__(self, *a, **k); self.max_insts = 40000000; self.max_paths = 100000
    # ---- exact floor quotient
    def divfloor(self, st, x, d):
        if d == 1: return x
        x = st.facts.reduce(x)
        if x.divisible(d): return x.div(d)
        # whole multiples of d leave the quotient, the rest stays inside
        out = ZERO; rest = L(x.c % d); out = out + (x.c // d)
        for s, k in x.d.items():
            q, r = divmod(k, d)
            if q: out = out + L(0, {s: q})
            if r: rest = rest + L(0, {s: r})
        if not rest.d: return out
        # prefer a small remainder around zero: a*s with a close to d is (a-d)*s
        alt = L(rest.c, {s: (r if 2 * r <= d else r - d) for s, r in rest.d.items()}); altout = out
        for s, r in rest.d.items():
            if 2 * r > d: altout = altout + L(0, {s: 1})
        for o, r in ((altout, alt), (out, rest)):
            k = self.const_quot(st, r, d)
            if k is not None: return o + k
        out, rest = altout, alt
        # nested quotient: floor(floor(y/e)/d) = floor(y/(e*d))
        s1 = sid(L(0, dict(rest.d))) if len(rest.d) == 1 else None
        if s1 is not None and SY.keys[s1] and SY.keys[s1][0] == 'fdiv':
            _, y, e0 = SY.keys[s1]
            q = self.divfloor(st, y + rest.c * e0, e0 * d)
            st.facts.add_le(q * d - rest); st.facts.add_le(rest - q * d - (d - 1))
            return out + q
        s = SY.intern(('fdiv', rest, d), '(%r)/%d' % (rest, d)); q = L(0, {s: 1})
        if ('rng', s) not in st.elts:
            st.elts[('rng', s)] = 1
            st.facts.add_le(q * d - rest); st.facts.add_le(rest - q * d - (d - 1))
        return out + q
    def const_quot(self, st, x, d):
        lo, hi = st.facts.bounds(x)
        if lo is None or hi is None or lo // d != hi // d: return None
        return lo // d
    # ---- exact truncation
    def trunc_to(self, st, v, bits):
        if bits >= 64 or v.const() or bits == 1: return spec_str.EngineClass.trunc_to(self, st, v, bits)
        m = 1 << bits
        w = st.facts.reduce(v) + m // 2
        lo, hi = st.facts.bounds(w)
        if lo is not None and hi is not None and hi // m - lo // m <= 3:
            k = lo // m
            while k < hi // m and not st.le(w, L((k + 1) * m - 1)): k += 1
            return v - k * m
        return v - self.divfloor(st, w, m) * m
    def field(self, st, x, lo, n):
        """bits [lo, lo+n) of x"""
        a = self.divfloor(st, x, 1 << lo)
        return a - self.divfloor(st, x, 1 << (lo + n)) * (1 << n)
    def mask(self, st, x, c):
        r = ZERO; i = 0
        while c >> i:
            if not (c >> i) & 1: i += 1; continue
            j = i
            while (c >> j) & 1: j += 1
            r = r + self.field(st, x, i, j - i) * (1 << i); i = j
        return r
    def binop(self, st, op, a, b, bits, inst):
        if op in ('and', 'or', 'xor') and bits > 1 and isinstance(a, L) and isinstance(b, L):
            a = st.facts.reduce(a); b = st.facts.reduce(b)
            if a.const(): a, b = b, a
            if not a.const():
                if b.const():
                    c = b.c & ((1 << bits) - 1); x = a
                    inv = (~c) & ((1 << bits) - 1)
                    # masks of the form "all high bits": clear the low ones
                    m = x - self.mask(st, x, inv) if bin(inv).count('1') < bin(c).count('1') else self.mask(st, x, c)
                    if op == 'and': r = m
                    elif op == 'or': r = a + b - m if m is not None else None
                    else: r = a + b - m * 2
                    return self.trunc_to(st, r, bits) if bits < 64 else r
                if op in ('or', 'xor'):
                    for x, y in ((a, b), (b, a)):
                        k = 0
                        while x.divisible(1 << (k + 1)) and k < 62: k += 1
                        if k and st.facts.entails_le(-y) and st.facts.entails_le(y - ((1 << k) - 1)):
                            r = a + b
                            return self.trunc_to(st, r, bits) if bits < 64 else r
        return spec_str.EngineClass.binop(self, st, op, a, b, bits, inst)
    # ---- bytes of a stored integer
    def load_raw(self, st, p, r, sz, ty):
        if ty[0] == 'i' and r.segs is None and sz <= 8 and not (r.meta and 'load' in r.meta):
            o = st.facts.reduce(p.o)
            if o.const() and not (o.c in r.cells and r.cells[o.c][0] == sz):
                acc = ZERO; ok = True; b = 0
                while b < sz and ok:
                    ok = False
                    for o2, (s2, v2) in r.cells.items():
                        if o2 <= o.c + b < o2 + s2 and isinstance(v2, L):
                            k = o.c + b - o2; n = min(s2 - k, sz - b)
                            acc = acc + self.field(st, v2, 8 * k, 8 * n) * (1 << 8 * b)
                            b += n; ok = True; break
                    else:
                        if any(x <= o.c + b < y for x, y in r.zero): b += 1; ok = True
                if ok: return self.trunc_to(st, acc, 8 * sz)
                if any(o2 < o.c + sz and o.c < o2 + s2 and isinstance(v2, type(UNDEF)) for o2, (s2, v2) in r.cells.items()): return UNDEF
        return spec_str.EngineClass.load_raw(self, st, p, r, sz, ty)
    def split_cells(self, st, w, off, sz):
        """a store over part of a wider integer leaves its other bytes as they were"""
        return [(o2 + b, self.trunc_to(st, self.field(st, v2, 8 * b, 8), 8)) for o2, (s2, v2) in w.cells.items() if o2 < off + sz and off < o2 + s2 and not (o2 == off and s2 == sz) and isinstance(v2, L) and not v2.const()
                for b in range(s2) if not (off <= o2 + b < off + sz)]
models = dict(spec_str.models); patterns = spec_str.patterns
def v_choose(e, st, name, a, i): return L(st.choose(('choice', a[0].c), a[1].c))
models['v_choose'] = v_choose
