"""Loop invariants: widening of the first iterates into a parametric state, verified inductive."""
from linear import L, ZERO, ONE, SY, lift, sym, sid, Facts

import os
DEBUG = bool(os.environ.get('DBG'))
class NoGen(Exception): pass

class LoopSolver:
    MAXPHASE = 5
    def __init__(self, eng, st0, lp, name):
        self.e = eng; self.st0 = st0; self.lp = lp; self.name = name
        self.defs = set()
        fn = st0.frames[-1].fn
        self.phis = [i['id'] for i in fn['blocks'][lp['h']] if i['op'] == 'phi']
        for b in lp['b']:
            for i in fn['blocks'][b]: self.defs.add(i['id'])
        self.defs -= set(self.phis)
    def solve(self):
        if self.e.small_loops:
            mark = self.e.rep.snapshot(); front = [self.st0]; out = []
            for j in range(self.e.small_loops + 1):
                nb = []
                for s in front:
                    b, x = self.e.iterate(s, self.lp); out += x
                    if j % 16 == 10:
                        q = None
                        for z in b:
                            if not z.taints and all(s.frames[-1].env.get(k) == z.frames[-1].env.get(k) for k in self.phis):
                                if q is None: q = self.fingerprint(s)
                                if q == self.fingerprint(z):
                                    self.e.violation(z, 'no-progress', 'the loop never ends: an iteration leaves everything as it was'); continue
                            nb.append(z)
                    else: nb += b
                front = nb
                if not front: self.note('bounded'); return out
                if len(front) > self.e.small_width: break
            found = self.e.rep.viol[mark[0]:]  # on iterations that were followed exactly
            self.e.rep.restore(mark); self.e.rep.viol += found
        nv = len(self.e.rep.viol); nu = sum(len(d) for d in self.e.rep.undecided.values())
        r = self.solve_from(self.st0, 0)
        if not r and not self.st0.taints and nv == len(self.e.rep.viol) and nu == sum(len(d) for d in self.e.rep.undecided.values()):
            self.e.violation(self.st0, 'no-progress', 'the loop never ends')
        return r
    def fingerprint(self, s):
        """everything a further iteration can depend on"""
        f = s.frames[-1]
        return repr((sorted((k, repr(v)) for k, v in f.env.items() if k not in self.defs), len(s.facts.le), len(s.facts.eq), len(s.facts.ne), len(s.bools), sum(len(v) if isinstance(v, tuple) else 1 for v in s.elts.values()), s.exc, s.caught,
                     sorted((str(k), sorted((o, repr(c)) for o, c in r.cells.items()) if r.cells else (), repr(r.segs)) for k, r in s.mem.items() if r.live),
                     sorted((str(k), repr(v)) for k, v in s.g.items())))
    def note(self, how):
        d = self.e.rep.loops.setdefault(self.name, {}); d[how] = d.get(how, 0) + 1
    def solve_from(self, st0, phase):
        if phase > self.MAXPHASE:
            self.e.rep.und('loop', 'too many phases in ' + self.name); self.note('undecided'); return []
        b1, e1 = self.e.iterate(st0, self.lp)
        if not b1: self.note('no back edge'); return e1
        if len(b1) <= 5:
            r = self.try_affine(st0, b1, e1, phase)
            if r is not None: return r
        if self.why is not None and 'non-affine' in str(self.why):
            r = self.havoc_mode(st0, b1, e1, phase)
            if r is not None: return r
        if len(b1) <= 4 and phase < self.MAXPHASE:
            # partition by the first iteration's decisions
            ok = True; ex = list(e1); mark = self.e.rep.snapshot()
            for b in b1:
                r = self.sub(self.renew(b), phase + 1)
                if r is None: ok = False; break
                ex += r
            if ok: self.note('peeled'); return ex
            self.e.rep.restore(mark)
        r = self.havoc_mode(st0, b1, e1, phase)
        if r is not None: return r
        if DEBUG: print('  DBG undecided', self.name, 'phase', phase, 'nb1', len(b1), 'why', self.why, st0.trace[-5:], [r.segs for r in st0.mem.values() if r.segs and r.live])
        if phase: return None
        self.note('undecided')
        self.e.rep.und('loop', 'no invariant for ' + self.name)
        return e1
    def sub(self, st, phase):
        return self.solve_from(st, phase)
    # ------------------------------------------------------------------ affine acceleration
    def try_affine(self, st0, b1, e1, phase):
        mark = self.e.rep.snapshot()
        cand = []
        for s1 in b1:
            b2, e2 = self.e.iterate(s1, self.lp)
            if not b2 and len(b1) == 1: self.note('bounded'); return e1 + e2
            for s2 in b2:
                try: cand.append((s1,) + self.build(st0, s1, s2))
                except NoGen as x: self.why = x
        for mode in ('A', 'B'):
            for s1, H0, k in cand:
                r = self.try_mode(mode, st0, s1, e1, H0, k, phase, [b for b in b1 if b is not s1])
                if r is not None: return r
        self.e.rep.restore(mark)
        if DEBUG: print('  DBG affine failed', self.name, 'phase', phase, self.why, 'nb1', len(b1), 'st0', st0.trace[-3:])
        return None
    def try_mode(self, mode, st0, s1, e1, H0, k, phase, others):
        K = L(0, {k: 1})
        base, k0 = (st0, 0) if mode == 'A' else (s1, 1)
        H = H0.copy(); H.facts = base.facts.copy(); H.facts.add_le(k0 - K)
        H.bools = dict(base.bools); H.elts = dict(base.elts)
        if not self.covers(base, H, k, lift(k0), {}):
            if DEBUG: print('  DBG covers base', mode, self.cw)
            return None
        self.clean(H)
        mark = self.e.rep.snapshot()
        # guards of iteration k, shifted to k-1, are inductive by construction; they must also hold initially
        bk, ek = self.e.iterate(H, self.lp)
        good = [b for b in bk if self.covers(b, H, k, K + 1, {})]
        if not good:
            if DEBUG: print('  DBG not inductive', mode, self.name, self.cw, len(bk))
            self.e.rep.restore(mark); return None
        best = None
        # the repeating path must be possible in the first iteration; more decided comparisons first
        def initially(b):
            return base.facts.feasible_with([g.subst({k: lift(k0)}) for g in self.new_facts(H, b) if k in g.d])
        good = [b for b in good if initially(b)] or good
        for main in good[:6]:
            r = self.with_guards(H, main, base, k, k0, mark)
            if r is not None and (best is None or (len(r[3]), len(r[2])) < (len(best[3]), len(best[2]))): best = r
            if best is not None and not best[3] and len(best[2]) == 1: break
        if best is None: self.e.rep.restore(mark); return None
        self.e.rep.restore(mark)
        H, guards = best[:2]
        bk, ek = self.e.iterate(H, self.lp)
        good = [b for b in bk if self.covers(b, H, k, K + 1, {})]
        rest = [b for b in bk if b not in good]
        for b in good:
            # inductiveness of everything assumed about k
            if not all(b.facts.entails_le(h.subst({k: K + 1})) for h in guards): rest.append(b)
        if len(rest) == len(bk): self.e.rep.restore(mark); return None
        # exactness: every state of H with k>k0 really is the successor of a state of H with k-1
        F = H.facts.copy(); F.add_le(k0 + 1 - K)
        exact = False
        for b in good:
            if b in rest: continue
            if self.newbools(H, b): continue
            if all(F.entails_le(g.subst({k: K - 1})) for g in self.new_facts(H, b)) and len(b.facts.ne) <= len(H.facts.ne): exact = True
        if not exact and not H.taints:
            self.e.rep.restore(mark)
            H = H.copy(); H.taint('loop %s' % self.name)
            bk, ek = self.e.iterate(H, self.lp)
            rest = [b for b in bk if not (self.covers(b, H, k, K + 1, {}) and all(b.facts.entails_le(h.subst({k: K + 1})) for h in guards))]
        self.note('affine ' + mode + ('' if exact else ' (over-approximation)'))
        exits = list(ek) + (e1 if mode == 'B' else [])
        for b in rest + (others if mode == 'B' else []):
            r = self.sub(self.renew(b), phase + 1)
            if r is None: self.e.rep.restore(mark); return None
            exits += r
        return exits
    def with_guards(self, H, main, base, k, k0, mark):
        K = L(0, {k: 1}); guards = set()
        for rnd in range(3):
            new = set()
            for g in self.new_facts(H, main):
                h = g.subst({k: K - 1})
                if h not in guards and not H.facts.entails_le(h) and base.facts.entails_le(h.subst({k: lift(k0)})): new.add(h)
            guards |= new
            H = H.copy()
            for h in new: H.facts.add_le(h)
            if H.facts.bad or not H.facts.consistent(): return None
            self.e.rep.restore(mark)
            bk, ek = self.e.iterate(H, self.lp)
            good = []; rest = []
            for b in bk:
                if self.covers(b, H, k, K + 1, {}) and all(b.facts.entails_le(h.subst({k: K + 1})) for h in guards): good.append(b)
                else: rest.append(b)
            if DEBUG: print('  DBG guards', guards, 'good', [(self.new_facts(H,b), self.newbools(H,b)) for b in good], 'rest', len(rest))
            if not good: return None
            if not new: break
            main = good[0]
        return H, guards, good, rest
    def new_facts(self, a, b):
        from engine import RANGEFACTS
        out = [e for e in b.facts.le[len(a.facts.le):] if e not in RANGEFACTS]
        for e in b.facts.eq[len(a.facts.eq):]: out += [e, -e]
        for e in b.facts.ne[len(a.facts.ne):]:
            if a.facts.entails_le(e): out.append(e + 1)
            elif a.facts.entails_le(-e): out.append(1 - e)
        return out
    def renew(self, b):
        b = b.copy(); self.clean(b); return b
    def clean(self, H):
        f = H.frames[-1]
        for d in self.defs: f.env.pop(d, None)
    def newbools(self, a, b):
        return [x for x in b.bools if x not in a.bools]
    def build(self, st0, s1, s2):
        """parametric state from the first two iterates"""
        k = SY.fresh('k%d' % len(SY.names)); K = L(0, {k: 1})
        hav = {}
        def genL(x1, x2):
            if x1 == x2: return x1
            d = x2 - x1
            if not d.const():
                d = s2.facts.reduce(d)
            if d.const(): return x1 + (K - 1) * d.c
            raise NoGen('non-affine %r %r' % (x1, x2))
        def gen(a, b):
            if isinstance(a, L) and isinstance(b, L): return genL(a, b)
            if type(a) is not type(b): raise NoGen('type')
            if hasattr(a, 'r') and hasattr(a, 'o'):
                if a.r != b.r: raise NoGen('pointer region %r %r' % (a, b))
                return type(a)(a.r, genL(a.o, b.o))
            if isinstance(a, tuple):
                if len(a) != len(b): raise NoGen('shape')
                return tuple(gen(x, y) for x, y in zip(a, b))
            if isinstance(a, list):
                if len(a) != len(b): raise NoGen('shape')
                return [gen(x, y) for x, y in zip(a, b)]
            if a == b: return a
            raise NoGen('%r vs %r' % (a, b))
        H = s1.copy()
        fr1, fr2, fr = s1.frames[-1], s2.frames[-1], H.frames[-1]
        for p in self.phis: fr.env[p] = gen(fr1.env[p], fr2.env[p])
        for rid, r2 in s2.mem.items():
            r1 = s1.mem.get(rid)
            if r1 is None:
                if r2.live and r2.kind == 'heap': raise NoGen('allocation survives the iteration')
                continue
            if r1 is r2: continue
            if r1.live != r2.live: raise NoGen('liveness of %s' % rid)
            if not r1.live: continue
            if (r1.segs is None) != (r2.segs is None): raise NoGen('mode')
            w = H.wr(rid)
            if r1.segs is None:
                if set(r1.cells) != set(r2.cells): raise NoGen('cells of %s' % rid)
                for o, (sz, v1) in r1.cells.items():
                    sz2, v2 = r2.cells[o]
                    if sz != sz2: raise NoGen('cell size')
                    w.cells[o] = (sz, gen(v1, v2))
            else:
                self.e.coalesce(s1, s1.wr(rid)); self.e.coalesce(s2, s2.wr(rid))
                r1 = s1.mem[rid]; r2 = s2.mem[rid]
                if len(r1.segs) != len(r2.segs): raise NoGen('segments of %s: %r vs %r' % (rid, r1.segs, r2.segs))
                w.segs = [type(a)(gen(a.lo, b.lo), gen(a.hi, b.hi), gen(a.c, b.c)) for a, b in zip(r1.segs, r2.segs)]
        for kk in s2.g:
            if kk in s1.g:
                if s1.g[kk] is not s2.g[kk] and s1.g[kk] != s2.g[kk]: H.g[kk] = gen(s1.g[kk], s2.g[kk])
            else: raise NoGen('ghost')
        if s1.exc != s2.exc or s1.caught != s2.caught: raise NoGen('exception state')
        return H, k
    def known(self, st0, s):
        return True
    # ------------------------------------------------------------------ coverage
    cw = None; why = None
    def no(self, *why):
        self.cw = why; return False
    def covers(self, b, H, k, kval, hv):
        """state b is an instance of H with k := kval (havocked symbols per hv)"""
        m = {k: lift(kval)} if k is not None else {}
        m.update(hv)
        F = b.facts
        def eqL(x, y): 
            d = x - y.subst(m)
            return F.entails_eq(d)
        def eq(x, y):
            if isinstance(x, L) and isinstance(y, L): return eqL(x, y)
            if type(x) is not type(y): return False
            if hasattr(x, 'r') and hasattr(x, 'o'): return x.r == y.r and eqL(x.o, y.o)
            if isinstance(x, (tuple, list)): return len(x) == len(y) and all(eq(a, c) for a, c in zip(x, y))
            return x == y
        fb, fh = b.frames[-1], H.frames[-1]
        for p in self.phis:
            if not eq(fb.env[p], fh.env[p]): return self.no(1)
        for rid, rh in H.mem.items():
            rb = b.mem.get(rid)
            if rb is rh: continue
            if rb is None: return self.no(2, rid, b.mem.get(rid), H.mem.get(rid))
            if not rh.live:
                if rh.kind != 'stack' and rb.live: return self.no(3, rid, b.mem.get(rid), H.mem.get(rid))
                continue
            if not rb.live: return self.no(4, rid, b.mem.get(rid), H.mem.get(rid))
            if (rb.segs is None) != (rh.segs is None): return self.no(5, rid, b.mem.get(rid), H.mem.get(rid))
            if rb.segs is None:
                if set(rb.cells) != set(rh.cells): return self.no(6, rid, b.mem.get(rid), H.mem.get(rid))
                for o, (sz, v) in rh.cells.items():
                    if rb.cells[o][0] != sz or not eq(rb.cells[o][1], v): return self.no(7, rid, b.mem.get(rid), H.mem.get(rid))
            else:
                if not self.segs_eq(b, rb.segs, [type(s)(s.lo.subst(m), s.hi.subst(m), self.subst_c(s.c, m)) for s in rh.segs]): return self.no(8, rid, b.mem.get(rid), H.mem.get(rid))
        for rid, rb in b.mem.items():
            if rid not in H.mem and rb.live and rb.kind == 'heap': return self.no(9, rid, b.mem.get(rid), H.mem.get(rid))
        for kk, v in H.g.items():
            if kk not in b.g: return self.no(10)
            if b.g[kk] is v: continue
            if not eq(b.g[kk], v): return self.no(11)
        if b.exc != H.exc or b.caught != H.caught: return self.no(12)
        if not (b.taints <= H.taints): return self.no(13)
        for x, y in H.bools.items():
            if b.bools.get(x, None) != y: return self.no(14)
        return True
    def subst_c(self, c, m):
        if isinstance(c, L): return c.subst(m)
        if isinstance(c, tuple): return tuple(self.subst_c(x, m) for x in c)
        if hasattr(c, 'r') and hasattr(c, 'o'): return type(c)(c.r, c.o.subst(m))
        return c
    def segs_eq(self, b, s1, s2):
        from engine import same_content
        F = b.facts
        s1 = [s for s in s1 if not F.entails_le(s.hi - s.lo)]
        s2 = [s for s in s2 if not F.entails_le(s.hi - s.lo)]
        def merge(ss):
            out = []
            for s in ss:
                if out and same_content(b, out[-1].c, s.c): out[-1] = type(s)(out[-1].lo, s.hi, out[-1].c)
                else: out.append(s)
            return out
        s1 = merge(s1); s2 = merge(s2)
        if len(s1) != len(s2): return False
        for x, y in zip(s1, s2):
            if not (F.entails_eq(x.lo - y.lo) and F.entails_eq(x.hi - y.hi) and same_content(b, x.c, y.c)): return False
        return True
    # ------------------------------------------------------------------ difference-bound templates
    def havoc_mode(self, st0, b1, e1, phase):
        """invariant over k>=1 iterations: changed integer cells become unknowns bounded by difference templates"""
        Z = list(b1)
        # locate changed integer places
        places = []      # ('phi',id) | ('cell',rid,off) | ('g',key)
        def get(st, pl):
            if pl[0] == 'phi': return st.frames[-1].env[pl[1]]
            if pl[0] == 'cell': return st.mem[pl[1]].cells[pl[2]][1]
            return st.g[pl[1]]
        s1 = b1[0]
        b2 = []
        exact2 = []
        for s in b1[:4]:
            bb, ee = self.e.iterate(s, self.lp)
            b2 += bb; exact2 += ee
        Z += b2[:8]
        if not b2:
            # at most one iteration continues: exact
            ex = list(e1)
            for s in b1:
                bb, ee = self.e.iterate(s, self.lp)
                if bb: return None
                ex += ee
            self.note('bounded'); return ex
        H = st0.copy(); self.clean(H)
        try:
            hv = {}
            def consider(pl, setter):
                vals = [get(z, pl) for z in Z]
                x0 = None
                if all(v == vals[0] for v in vals): setter(vals[0]); return
                if all(isinstance(v, L) for v in vals):
                    h = SY.fresh('%%h%d' % len(SY.names)); hv[h] = pl; setter(L(0, {h: 1})); return
                if all(hasattr(v, 'r') and hasattr(v, 'o') for v in vals) and all(v.r == vals[0].r for v in vals):
                    h = SY.fresh('%%h%d' % len(SY.names)); hv[h] = pl + ('off',); setter(type(vals[0])(vals[0].r, L(0, {h: 1}))); return
                raise NoGen('place %r' % (pl,))
            fr = H.frames[-1]
            for p in self.phis:
                consider(('phi', p), lambda v, p=p: fr.env.__setitem__(p, v))
            for rid in set(r for z in Z for r in z.mem):
                rs = [z.mem.get(rid) for z in Z]
                r0 = st0.mem.get(rid)
                if r0 is None:
                    if any(r is not None and r.live and r.kind == 'heap' for r in rs): raise NoGen('allocation survives')
                    continue
                if any(r is None for r in rs): raise NoGen('region')
                if all(r is r0 for r in rs): continue
                if any(r.live != rs[0].live for r in rs): raise NoGen('liveness')
                if not rs[0].live: H.wr(rid).live = False; continue
                if r0.segs is None and all(r.segs is None for r in rs):
                    keys = set(rs[0].cells)
                    if any(set(r.cells) != keys for r in rs):
                        keys = set.intersection(*[set(r.cells) for r in rs])
                        if r0.kind != 'stack': raise NoGen('cells')
                    w = H.wr(rid); w.cells = {o: c for o, c in w.cells.items() if o in keys}
                    for o in keys:
                        szs = {r.cells[o][0] for r in rs}
                        if len(szs) > 1: raise NoGen('cell size')
                        consider(('cell', rid, o), lambda v, w=w, o=o, s=szs.pop(): w.cells.__setitem__(o, (s, v)))
                else:
                    if any(r.segs is None for r in rs): raise NoGen('mode')
                    if any(len(r.segs) != len(rs[0].segs) or any(a != b for a, b in zip(r.segs, rs[0].segs)) for r in rs): raise NoGen('array contents')
                    H.wr(rid).segs = list(rs[0].segs)
            for kk in set(kx for z in Z for kx in z.g):
                if all(kk in z.g for z in Z):
                    consider(('g', kk), lambda v, kk=kk: H.g.__setitem__(kk, v))
                else: raise NoGen('ghost')
            if any(z.exc != st0.exc or z.caught != st0.caught for z in Z): raise NoGen('exc')
            for z in Z: H.taints = H.taints | z.taints
        except NoGen as x:
            return None
        hv = {h: pl for h, pl in hv.items()}
        def valof(z, h):
            pl = hv[h]
            if pl[-1] == 'off' and pl[0] != 'g' or (pl[0] == 'g' and len(pl) == 3):
                return get(z, pl[:-1]).o
            return get(z, pl)
        # facts shared by every iterate
        base = st0.facts.copy()
        common = []
        for f in Z[0].facts.le[len(st0.facts.le):]:
            if all(z.facts.entails_le(f) for z in Z): common.append(f)
        for f in common: base.add_le(f)
        boolsc = {x: y for x, y in Z[0].bools.items() if all(z.bools.get(x) == y for z in Z)}
        # template vocabulary
        U = [L(0, {h: 1}) for h in hv]
        vocab = {}
        for p in self.phis:
            v = st0.frames[-1].env.get(p)
            if isinstance(v, L): vocab[v] = 1
        for h in hv:
            for z in [st0] + Z:
                try: v = valof(z, h)
                except Exception: continue
        for v in st0.g.get('vocab', ()): vocab[v] = 1
        sy = set()
        for z in Z:
            for f in z.facts.le[len(st0.facts.le):]:
                for s in f.d: 
                    sy.add(s)
        known0 = set()
        for f in st0.facts.le + st0.facts.eq:
            known0 |= set(f.d)
        for s in sy & known0:
            if not (SY.keys[s] and SY.keys[s][0] in ('elt', 'app', 'fdiv')): vocab[L(0, {s: 1})] = 1
        vocab[ZERO] = 1
        V = list(vocab)[:40]
        cands = []
        def inst(e, z): return e.subst({h: valof(z, h) for h in hv})
        pairs = [(u, v) for u in U for v in V] + [(v, u) for u in U for v in V] + [(u, w) for u in U for w in U if u != w]
        for u, v in pairs:
            best = None
            for c in (2, 1, 0, -1, -2):
                e = u - v - c
                if all(z.facts.entails_le(inst(e, z)) for z in Z): best = e
                else: break
            if best is not None: cands.append(best)
        cands = self.prune(base, cands)
        if DEBUG: print('  DBG templates', self.name, 'U', [(hv[h], SY.names[h]) for h in hv], 'V', V, 'cands', cands)
        mark = self.e.rep.snapshot()
        for rnd in range(12):
            Hc = H.copy(); Hc.facts = base.copy(); Hc.bools = dict(boolsc); Hc.elts = dict(st0.elts)
            for e in cands: Hc.facts.add_le(e)
            if Hc.facts.bad: return None
            Hc.taint('loop invariant of %s' % self.name)
            self.e.rep.restore(mark)
            bk, ek = self.e.iterate(Hc, self.lp)
            drop = set()
            ok = True
            for b in bk:
                try: m = {h: valof(b, h) for h in hv}
                except Exception: ok = False; break
                if not all(isinstance(x, L) for x in m.values()): ok = False; break
                if not self.covers(b, Hc, None, ZERO, m):
                    if DEBUG: print('  DBG template covers', self.cw)
                    ok = False; break
                for j, e in enumerate(cands):
                    if not b.facts.entails_le(e.subst(m)): drop.add(j)
            if not ok: self.e.rep.restore(mark); return None
            if not drop:
                self.note('templates')
                return list(e1) + exact2 + ek
            if DEBUG: print('  DBG drop', [cands[j] for j in drop])
            # weaken: try c+1.. by simply dropping
            cands = [e for j, e in enumerate(cands) if j not in drop]
        return None
    def prune(self, base, cands):
        """drop candidates that the other candidates and the entry facts already imply"""
        keep = list(cands)
        for e in list(keep):
            F = base.copy()
            for x in keep:
                if x is not e: F.add_le(x)
            if F.bad: return cands
            if F.entails_le(e): keep = [x for x in keep if x is not e]
        return keep
