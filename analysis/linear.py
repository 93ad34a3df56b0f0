"""Linear-inequality abstract domain (conjunctions of integer linear (in)equalities).

Own implementation: Gaussian elimination of equalities, Fourier-Motzkin projection with integer
tightening for entailment, and a small integer-point search used only to print a witness for a
refuted obligation.  No solver is involved.
"""
from math import gcd

class Syms:
    """symbol table: id -> (name, key)"""
    def __init__(self):
        self.names = []
        self.keys = []
        self.intern_tab = {}
    def fresh(self, name, key=None):
        self.names.append(name); self.keys.append(key)
        return len(self.names) - 1
    def intern(self, key, name):
        s = self.intern_tab.get(key)
        if s is None:
            s = self.fresh(name, key); self.intern_tab[key] = s
        return s
SY = Syms()

class L:
    __slots__ = ('c', 'd', '_h')
    def __init__(self, c=0, d=None):
        self.c = c; self.d = d if d is not None else {}; self._h = None
    def __hash__(self):
        h = self._h
        if h is None:
            h = self._h = hash((self.c, frozenset(self.d.items())))
        return h
    def __eq__(self, o):
        return isinstance(o, L) and self.c == o.c and self.d == o.d
    def __add__(self, o):
        if isinstance(o, int): return L(self.c + o, self.d)
        if not o.d: return L(self.c + o.c, self.d)
        d = dict(self.d)
        for s, k in o.d.items():
            v = d.get(s, 0) + k
            if v: d[s] = v
            else: d.pop(s, None)
        return L(self.c + o.c, d)
    __radd__ = __add__
    def __neg__(self): return self * -1
    def __sub__(self, o):
        if isinstance(o, int): return L(self.c - o, self.d)
        if not o.d: return L(self.c - o.c, self.d)
        return self + (o * -1)
    def __rsub__(self, o): return (self * -1) + o
    def __mul__(self, k):
        if k == 1: return self
        if k == 0: return ZERO
        if not self.d: return L(self.c * k)
        return L(self.c * k, {s: v * k for s, v in self.d.items()})
    __rmul__ = __mul__
    def const(self): return not self.d
    def divisible(self, k): return self.c % k == 0 and all(v % k == 0 for v in self.d.values())
    def div(self, k): return L(self.c // k, {s: v // k for s, v in self.d.items()})
    def subst(self, m):
        if not self.d or not m: return self
        r = None
        for s in self.d:
            if s in m:
                r = True; break
        if r is None: return self
        out = L(self.c, {})
        for s, v in self.d.items():
            out = out + (m[s] * v if s in m else L(0, {s: v}))
        return out
    def syms(self): return self.d.keys()
    def __repr__(self):
        if not self.d: return str(self.c)
        parts = []
        for s, v in sorted(self.d.items()):
            n = SY.names[s]
            parts.append(('+' if v > 0 else '-') + (n if abs(v) == 1 else '%d*%s' % (abs(v), n)))
        if self.c: parts.append('%+d' % self.c)
        r = ''.join(parts)
        return r[1:] if r[0] == '+' else r
ZERO = L(0)
ONE = L(1)
def lift(x): return x if isinstance(x, L) else L(x)
def sym(name, key=None): return L(0, {SY.fresh(name, key): 1})
def sid(e):
    """symbol id if e is exactly one symbol"""
    if e.c == 0 and len(e.d) == 1:
        (s, v), = e.d.items()
        if v == 1: return s
    return None

def norm_le(e):
    """normalise e<=0 over the integers; returns L, True (trivial) or False (contradiction)"""
    if not e.d: return e.c <= 0
    g = 0
    for v in e.d.values():
        g = gcd(g, v)
    if g > 1:
        return L(-((-e.c) // g), {s: v // g for s, v in e.d.items()})
    return e

FM_CAP = 1500

def _fm(cons, keep=None):
    """cons: list of normalised L (<=0). True if (rationally, with tightening) feasible, False if infeasible."""
    # keep strongest constant per direction
    def add(tab, e):
        k = frozenset(e.d.items())
        o = tab.get(k)
        if o is None or o.c < e.c: tab[k] = e
    tab = {}
    for e in cons: add(tab, e)
    # quick: opposite directions
    while tab:
        # variable occurrence counts
        pos = {}; neg = {}
        for e in tab.values():
            for s, v in e.d.items():
                if v > 0: pos[s] = pos.get(s, 0) + 1
                else: neg[s] = neg.get(s, 0) + 1
        best = None; bs = None
        for s in set(pos) | set(neg):
            if s == keep: continue
            p = pos.get(s, 0); n = neg.get(s, 0)
            cost = p * n - p - n
            if best is None or cost < best or (cost == best and s < bs):
                best = cost; bs = s
        if best is None: return tab
        if len(tab) + best > FM_CAP: return True
        P = []; N = []; rest = {}
        for k, e in tab.items():
            v = e.d.get(bs, 0)
            if v > 0: P.append((v, e))
            elif v < 0: N.append((-v, e))
            else: rest[k] = e
        tab = rest
        for a, e in P:
            for b, f in N:
                g = gcd(a, b)
                r = norm_le(e * (b // g) + f * (a // g))
                if r is True: continue
                if r is False: return False
                add(tab, r)
    return True

class Facts:
    __slots__ = ('le', 'eq', 'ne', 'bad', '_sub', '_red', '_true', '_n')
    def __init__(self):
        self.le = []; self.eq = []; self.ne = []; self.bad = False
        self._sub = {}; self._red = []; self._true = set(); self._n = 0
    def copy(self):
        f = Facts.__new__(Facts)
        f.le = list(self.le); f.eq = list(self.eq); f.ne = list(self.ne); f.bad = self.bad
        f._sub = dict(self._sub); f._red = list(self._red); f._true = set(self._true); f._n = self._n
        return f
    # -- adding
    def add_le(self, e):
        e0 = norm_le(lift(e))
        if e0 is True: return
        if e0 is False: self.bad = True; return
        if e0 in self._true: return
        self.le.append(e0)
        r = norm_le(e0.subst(self._sub)) if self._sub else e0
        if r is False: self.bad = True
        elif r is not True:
            self._red.append(r)
            # pair into an equality?
            m = L(-r.c, {s: -v for s, v in r.d.items()})
            for o in self._red:
                if o.d == m.d and o.c >= m.c:
                    if o.c > m.c: self.bad = True
                    else: self._elim(r)
                    break
        self._tighten()
    def add_eq(self, e):
        e = lift(e)
        if not e.d:
            if e.c: self.bad = True
            return
        self.eq.append(e)
        self._elim(e.subst(self._sub))
        self._tighten()
    def _elim(self, r):
        if not r.d:
            if r.c: self.bad = True
            return
        g = 0
        for v in r.d.values(): g = gcd(g, v)
        if g > 1:
            if r.c % g: self.bad = True; return
            r = r.div(g)
        # pick a unit-coefficient symbol, newest first
        best = None
        for s, v in r.d.items():
            if v in (1, -1) and (best is None or s > best): best = s
        if best is None:
            a = norm_le(r); b = norm_le(-r)
            for x in (a, b):
                if x is False: self.bad = True
                elif x is not True: self._red.append(x)
            return
        v = r.d[best]
        rest = L(r.c, {s: k for s, k in r.d.items() if s != best})
        val = rest * (-1 if v == 1 else 1)
        m = {best: val}
        for s in list(self._sub): self._sub[s] = self._sub[s].subst(m)
        self._sub[best] = val
        new = []
        for o in self._red:
            x = norm_le(o.subst(m))
            if x is False: self.bad = True
            elif x is not True: new.append(x)
        self._red = new
    def add_ne(self, e):
        e = lift(e)
        if not e.d:
            if e.c == 0: self.bad = True
            return
        self.ne.append(e)
        self._tighten()
    def _tighten(self):
        if not self.ne: return
        changed = True
        while changed and not self.bad:
            changed = False
            for e in list(self.ne):
                r = e.subst(self._sub)
                if not r.d:
                    if r.c == 0: self.bad = True; return
                    self.ne.remove(e); continue
                le0 = self._ent_le(r); ge0 = self._ent_le(-r)
                if le0 and ge0: self.bad = True; return
                if le0 or ge0:
                    self.ne.remove(e)
                    q = norm_le((r if le0 else -r) + 1)
                    self.le.append(norm_le((e if le0 else -e) + 1) if True else None)
                    if q is False: self.bad = True; return
                    if q is not True: self._red.append(q)
                    changed = True
                    break
    # -- queries
    def reduce(self, e): return e.subst(self._sub)
    def _slice(self, extra):
        want = set()
        for e in extra: want |= set(e.d)
        rest = self._red; out = []
        changed = True
        while changed and rest:
            changed = False; nr = []
            for e in rest:
                if not want.isdisjoint(e.d):
                    out.append(e); n0 = len(want); want |= e.d.keys()
                    changed = True
                else: nr.append(e)
            rest = nr
        return out
    def feasible_with(self, extra):
        if self.bad: return False
        ex = []
        for e in extra:
            r = norm_le(lift(e).subst(self._sub))
            if r is False: return False
            if r is not True: ex.append(r)
        if not ex: return True
        return _fm(self._slice(ex) + ex)
    def _ent_le(self, r):
        if not r.d: return r.c <= 0
        # single-fact check
        n = norm_le(r)
        if n in self._true: return True
        for o in self._red:
            if o.d == n.d and o.c >= n.c: return True
        neg = norm_le(L(1 - r.c, {s: -v for s, v in r.d.items()}))
        if neg is False: return True
        if neg is True: return False
        ok = not _fm(self._slice([neg]) + [neg])
        if ok: self._true.add(n)
        return ok
    def entails_le(self, e):
        if self.bad: return True
        return self._ent_le(lift(e).subst(self._sub))
    def entails_eq(self, e):
        if self.bad: return True
        r = lift(e).subst(self._sub)
        if not r.d: return r.c == 0
        return self._ent_le(r) and self._ent_le(-r)
    def entails_ne(self, e):
        if self.bad: return True
        r = lift(e).subst(self._sub)
        if not r.d: return r.c != 0
        for x in self.ne:
            y = x.subst(self._sub)
            if y == r or y == -r: return True
        return self._ent_le(r + 1) or self._ent_le(-r + 1)
    def bounds(self, x):
        """(lo, hi) of x by projection, None where unbounded or too costly"""
        x = lift(x).subst(self._sub)
        if not x.d: return x.c, x.c
        t = SY.intern(('bound',), 'bound'); T = L(0, {t: 1})
        r = _fm(self._slice([x]) + [norm_le(T - x), norm_le(x - T)], t)
        if r is True or r is False: return None, None
        lo = hi = None
        for e in r.values():
            k = e.d[t]
            if k > 0: b = (-e.c) // k; hi = b if hi is None else min(hi, b)
            else: b = -((-e.c) // (-k)); lo = b if lo is None else max(lo, b)
        return lo, hi
    def consistent(self):
        if self.bad: return False
        return _fm(self._red)
    # -- witness
    def model(self, extra=(), tries=60):
        """an integer point satisfying every fact (and extra le-constraints), or None"""
        if self.bad: return None
        cons = []
        for e in extra:
            r = norm_le(lift(e).subst(self._sub))
            if r is False: return None
            if r is not True: cons.append(r)
        cons += self._red
        vars_ = set()
        for e in cons: vars_ |= set(e.d)
        for e in self.ne: vars_ |= set(e.subst(self._sub).d)
        import random
        rnd = random.Random(1)
        order0 = sorted(vars_)
        # project in order, keep the systems
        def project(order):
            systems = []
            tab = list({(frozenset(e.d.items()), e.c): e for e in cons}.values())
            for v in order:
                systems.append(tab)
                P = []; N = []; R = {}
                for e in tab:
                    k = e.d.get(v, 0)
                    if k > 0: P.append((k, e))
                    elif k < 0: N.append((-k, e))
                    else:
                        kk = frozenset(e.d.items()); o = R.get(kk)
                        if o is None or o.c < e.c: R[kk] = e
                if len(P) * len(N) > 4000: return None
                for a, e in P:
                    for b, f in N:
                        g = gcd(a, b)
                        r = norm_le(e * (b // g) + f * (a // g))
                        if r is True: continue
                        if r is False: return False
                        kk = frozenset(r.d.items()); o = R.get(kk)
                        if o is None or o.c < r.c: R[kk] = r
                tab = list(R.values())
            return systems
        nes = [e.subst(self._sub) for e in self.ne]
        for att in range(tries):
            order = list(order0)
            if att: rnd.shuffle(order)
            systems = project(order)
            if systems is False: return None
            if systems is None: continue
            asg = {}
            ok = True
            for v, tab in zip(reversed(order), reversed(systems)):
                lo = hi = None
                for e in tab:
                    k = e.d.get(v, 0)
                    if not k: continue
                    rest = e.c + sum(c * asg[s] for s, c in e.d.items() if s != v)
                    if k > 0:
                        b = (-rest) // k
                        hi = b if hi is None or b < hi else hi
                    else:
                        b = -((-rest) // (-k))  # ceil(rest/-k)
                        b = -(-rest // -k) if False else ((rest + (-k) - 1) // (-k))
                        lo = b if lo is None or b > lo else lo
                if lo is not None and hi is not None and lo > hi: ok = False; break
                if lo is None and hi is None: val = rnd.choice([0, 1, 2, 3, 5, -1]) if att else 1
                elif lo is None: val = hi - (rnd.choice([0, 1, 2]) if att else 0)
                elif hi is None: val = lo + (rnd.choice([0, 1, 2, 3]) if att else 0)
                else: val = min(hi, lo + (rnd.randint(0, min(6, hi - lo)) if att else 0))
                if lo is not None and hi is None and val < 0 and 0 >= lo: val = 0
                if hi is not None and lo is None and val > 0 and hi >= 0: val = min(hi, 0) if att == 0 else val
                asg[v] = val
            if not ok: continue
            def ev(e): return e.c + sum(c * asg.get(s, 0) for s, c in e.d.items())
            if any(ev(e) > 0 for e in cons): continue
            if any(ev(e) == 0 for e in nes): continue
            full = dict(asg)
            for s, e in self._sub.items(): full[s] = ev(e)
            # verify on the original facts
            def ev2(e): return e.c + sum(c * full.get(s, 0) for s, c in e.d.items())
            if any(ev2(e) > 0 for e in self.le) or any(ev2(e) != 0 for e in self.eq) or any(ev2(e) == 0 for e in self.ne): continue
            return full
        return None
