"""Disjunctive abstract interpreter over LLVM IR (JSON from irdump).

Abstract state = conjunction of linear (in)equalities over symbolic quantities
               x memory of regions (field cells / symbolic array segmentations with element provenance and lifetime)
               x ghost monitors.
Control: trace partitioning by the branch/ordering decisions that the facts leave open; loops are never
unrolled: a loop is replaced by an inductive invariant obtained by widening the first iterates (affine
acceleration of cells and segment bounds, difference-bound templates otherwise) and verified inductive.
Nothing of the program is executed and no solver is called.
"""
import json, re, sys, time
from linear import L, ZERO, ONE, SY, lift, sym, sid, Facts, norm_le

sys.setrecursionlimit(20000)

# ---------------------------------------------------------------- values
class P:
    __slots__ = ('r', 'o')
    def __init__(self, r, o): self.r = r; self.o = o
    def __eq__(self, x): return isinstance(x, P) and self.r == x.r and self.o == x.o
    def __hash__(self): return hash((self.r, self.o))
    def __repr__(self): return 'null%s' % ('' if self.o == ZERO else '+%r' % self.o) if self.r is None else '&%s+%r' % (self.r, self.o)
NULL = P(None, ZERO)
class Fn:
    __slots__ = ('n',)
    def __init__(self, n): self.n = n
    def __eq__(self, x): return isinstance(x, Fn) and self.n == x.n
    def __hash__(self): return hash(('fn', self.n))
    def __repr__(self): return '@' + self.n
class Undef:
    def __repr__(self): return 'undef'
    def __eq__(self, x): return isinstance(x, Undef)
    def __hash__(self): return 77
UNDEF = Undef()
# aggregates are python lists/tuples

class Fork(Exception):
    def __init__(self, alts): self.alts = alts
class PathEnd(Exception):
    def __init__(self, why): self.why = why
class TimeUp(Exception): pass
class Imprecise(Exception):
    """the domain cannot represent this; the path is abandoned as undecided"""
    def __init__(self, why): self.why = why

# ---------------------------------------------------------------- memory
class Seg:
    __slots__ = ('lo', 'hi', 'c')
    def __init__(self, lo, hi, c): self.lo = lo; self.hi = hi; self.c = c
    def __repr__(self): return '[%r,%r)%r' % (self.lo, self.hi, self.c)
    def __eq__(self, o): return self.lo == o.lo and self.hi == o.hi and self.c == o.c
RAW = ('raw',)

class Region:
    __slots__ = ('id', 'kind', 'size', 'live', 'cells', 'segs', 'label', 'owner', 'const', 'zero', 'inputs', 'meta', 'align')
    def __init__(self, id, kind, size, label=''):
        self.id = id; self.kind = kind; self.size = size; self.live = True
        self.cells = {}; self.segs = None; self.label = label; self.owner = None
        self.const = False; self.zero = []; self.inputs = False; self.meta = None
    def clone(self, owner):
        r = Region.__new__(Region)
        r.id = self.id; r.kind = self.kind; r.size = self.size; r.live = self.live
        r.cells = dict(self.cells); r.segs = list(self.segs) if self.segs is not None else None
        r.label = self.label; r.owner = owner; r.const = self.const; r.zero = list(self.zero); r.inputs = self.inputs
        r.meta = self.meta
        return r
    def __repr__(self):
        return '<%s %s size=%r %s %s>' % (self.id, self.kind, self.size, 'live' if self.live else 'FREED', self.segs if self.segs is not None else self.cells)

class Frame:
    __slots__ = ('fn', 'blk', 'prev', 'ip', 'env', 'call', 'allocas', 'fname', 'inloops')
    def __init__(self, fn, fname, call):
        self.fn = fn; self.fname = fname; self.blk = 0; self.prev = None; self.ip = 0; self.env = {}; self.call = call; self.allocas = []
    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn; f.fname = self.fname; f.blk = self.blk; f.prev = self.prev; f.ip = self.ip
        f.env = dict(self.env); f.call = self.call; f.allocas = list(self.allocas)
        return f

_uid = [0]
class State:
    __slots__ = ('frames', 'mem', 'facts', 'bools', 'taints', 'exc', 'caught', 'trace', 'uid', 'done', 'elts', 'g', 'events', 'loopexit')
    def __init__(self):
        self.frames = []; self.mem = {}; self.facts = Facts(); self.bools = {}; self.taints = frozenset()
        self.exc = None; self.caught = (); self.trace = (); self.done = None; self.elts = {}; self.g = {}; self.events = None
        _uid[0] += 1; self.uid = _uid[0]
    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]; s.mem = dict(self.mem); s.facts = self.facts.copy()
        s.bools = dict(self.bools); s.taints = self.taints; s.exc = self.exc; s.caught = self.caught; s.trace = self.trace
        s.done = self.done; s.elts = dict(self.elts); s.g = dict(self.g); s.events = self.events
        _uid[0] += 2; s.uid = _uid[0]
        # after a copy neither side may mutate shared regions in place
        self.uid = _uid[0] - 1
        return s
    def wr(self, rid):
        r = self.mem[rid]
        if r.owner != self.uid:
            r = r.clone(self.uid); self.mem[rid] = r
        return r
    def new_region(self, rid, kind, size, label=''):
        r = Region(rid, kind, size, label); r.owner = self.uid; self.mem[rid] = r
        return r
    def top(self): return self.frames[-1]
    def taint(self, why): self.taints = self.taints | {why}
    # ---- decisions
    def le(self, a, b=ZERO):
        """decide a<=b, forking when open"""
        e = lift(a) - lift(b)
        if not e.d: return e.c <= 0
        if self.facts.entails_le(e): return True
        if self.facts.entails_le(1 - e): return False
        raise Fork([('le', e), ('le', 1 - e)])
    def lt(self, a, b=ZERO): return not self.le(b, a)
    def eq(self, a, b=ZERO):
        e = lift(a) - lift(b)
        if not e.d: return e.c == 0
        if self.facts.entails_eq(e): return True
        if self.facts.entails_ne(e): return False
        raise Fork([('eq', e), ('ne', e)])
    def bool(self, key):
        v = self.bools.get(key)
        if v is None: raise Fork([('bool', key, True), ('bool', key, False)])
        return v
    def choose(self, key, n):
        v = self.bools.get(key)
        if v is None: raise Fork([('bool', key, i) for i in range(n)])
        return v
    def assume(self, alt):
        k = alt[0]
        if k in ('le', 'eq', 'ne') and opaque_in(alt[1]): self.taint('decision on an uninterpreted value %r' % alt[1])
        if k == 'le': self.facts.add_le(alt[1])
        elif k == 'eq': self.facts.add_eq(alt[1])
        elif k == 'ne': self.facts.add_ne(alt[1])
        elif k == 'bool': self.bools[alt[1]] = alt[2]
        elif k == 'and':
            for a in alt[1]: self.assume(a)
        return not self.facts.bad

WIDE = set()         # symbols that range over all 64-bit integers
RANGEFACTS = set()   # type ranges of element/uninterpreted symbols (true of every instance)
OPAQUE_OPS = {'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'ashr', 'lshr', 'and', 'or', 'xor', 'trunc1', 'trunc8', 'trunc16', 'trunc32', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'fneg'}
def opaque_in(e):
    """does the expression mention a value the numeric domain does not interpret?"""
    for s in e.d:
        k = SY.keys[s]
        if k and k[0] == 'app' and k[1] in OPAQUE_OPS: return True
        if k and k[0] == 'elt' and opaque_in(k[2]): return True
        if k and k[0] == 'fdiv' and opaque_in(k[1]): return True
    return False
def alt_str(a):
    if a[0] == 'le': return '%r<=0' % a[1]
    if a[0] == 'eq': return '%r==0' % a[1]
    if a[0] == 'ne': return '%r!=0' % a[1]
    if a[0] == 'bool': return '%s=%s' % (a[1], a[2])
    return str(a)

# ---------------------------------------------------------------- terms <-> templates
def term_of(v):
    """turn an engine value stored into an array into a term"""
    return v
def tmpl_L(e, o, sz):
    """content for an int value e stored at offset o (size sz)"""
    s = sid(e) if isinstance(e, L) else None
    if s is not None:
        k = SY.keys[s]
        if k and k[0] == 'elt' and k[3] == sz: return ('elt', k[1], k[2] - o)
        if k and k[0] == 'app': return ('app', k[1], tuple(tmpl_L(a, o, sz) if isinstance(a, L) else a for a in k[2]), sz)
    return ('val', e, sz)
def tmpl_term(t, o):
    if t[0] == 'elt': return ('elt', t[1], t[2] - o)
    if t[0] == 'app': return ('app', t[1], tuple(tmpl_term(a, o) if isinstance(a, tuple) else a for a in t[2]))
    return t
def inst_term(t, o):
    if t[0] == 'elt': return ('elt', t[1], t[2] + o)
    if t[0] == 'app': return ('app', t[1], tuple(inst_term(a, o) if isinstance(a, tuple) else a for a in t[2]))
    return t
def shift_content(c, d):
    """content of the same bytes after moving them by +d"""
    k = c[0]
    if k == 'elt': return ('elt', c[1], c[2] - d)
    if k == 'obj': return ('obj', shift_content(c[1], d), c[2])
    if k == 'app':
        return ('app', c[1], tuple(shift_content(a, d) if isinstance(a, tuple) else a for a in c[2])) + tuple(c[3:])
    return c
def map_L(x, f):
    """apply f to every L inside a (nested tuple/list) structure"""
    if isinstance(x, L): return f(x)
    if isinstance(x, P): return P(x.r, f(x.o))
    if isinstance(x, tuple): return tuple(map_L(y, f) for y in x)
    if isinstance(x, list): return [map_L(y, f) for y in x]
    return x

class Module:
    def __init__(self, path):
        d = json.load(open(path))
        self.funcs = d['funcs']; self.globals = d['globals']; self.records = d['records']
        for n, f in self.funcs.items():
            f['sym'] = n
            if 'blocks' in f:
                f['loopmap'] = {}
                for l in f['loops']:
                    l['bs'] = frozenset(l['b']); f['loopmap'][l['h']] = l
    def field(self, rec, name):
        """byte offset of a (possibly inherited) field; None if absent"""
        r = self.records.get(rec)
        if r is None: return None
        for n, off, sz, _ in r['fields']:
            if n == name: return off
        for bn, off, virt in r['bases']:
            if virt: continue
            x = self.field(bn, name)
            if x is not None: return x + off
        return None

class Report:
    """what one driver run established"""
    def __init__(self):
        self.viol = []; self.undecided = {}; self.discharged = {}; self.paths = 0; self.ends = {}; self.unknown_ext = set()
        self.insts = 0; self.forks = 0; self.loops = {}; self.funcs = set(); self.checks = {}
    def snapshot(self):
        return (len(self.viol), {k: dict(v) for k, v in self.undecided.items()}, dict(self.discharged), dict(self.ends), {k: dict(v) for k, v in self.loops.items()}, dict(self.checks))
    def restore(self, m):
        n, u, d, en, lo, ch = m
        del self.viol[n:]
        self.undecided = {k: dict(v) for k, v in u.items()}; self.discharged = dict(d); self.ends = dict(en); self.loops = {k: dict(v) for k, v in lo.items()}; self.checks = dict(ch)
    def ok(self, rule): self.discharged[rule] = self.discharged.get(rule, 0) + 1
    def und(self, rule, why): self.undecided.setdefault(rule, {}); self.undecided[rule][why] = self.undecided[rule].get(why, 0) + 1

SIGNED = {'slt', 'sle', 'sgt', 'sge'}

class Engine:
    def __init__(self, mod, models=None, max_paths=4000, max_insts=1500000):
        self.m = mod; self.rep = Report(); self.models = dict(BASE_MODELS)
        self.patterns = list(BASE_PATTERNS)
        if models: self.models.update(models)
        self.seqs = {}
        self.nregion = 0; self.ntok = 0
        self.max_paths = max_paths; self.max_insts = max_insts
        self.typeids = {}
        self.stop = None
        self.loop_depth = 0
        self.spec = None
        self.model_cache = {}
        self.nofork_loops = 0
        self.deadline = None
    # ------------------------------------------------------------ utilities
    def fresh_region(self, st, kind, size, label):
        self.nregion += 1
        return st.new_region('%s%d:%s' % (kind[0], self.nregion, label), kind, size, label)
    def loc(self, st):
        for f in reversed(st.frames):
            if f.ip < len(f.fn['blocks'][f.blk]):
                i = f.fn['blocks'][f.blk][min(f.ip, len(f.fn['blocks'][f.blk]) - 1)]
                l = i.get('loc')
                if l and '/Source/' in l[0]: return '%s:%d (%s)' % (l[0][l[0].find('Source/'):], l[1], short(f.fn['dem']))
        for f in reversed(st.frames):
            b = f.fn['blocks'][f.blk]
            l = b[min(f.ip, len(b) - 1)].get('loc')
            if l and l[1]: return '%s:%d (%s)' % (l[0].split('/')[-1], l[1], short(f.fn['dem']))
        return '?'
    def stack(self, st):
        out = []
        for f in st.frames:
            b = f.fn['blocks'][f.blk]; l = b[min(f.ip, len(b) - 1)].get('loc')
            out.append('%s @ %s' % (short(f.fn['dem']), '%s:%d' % (l[0].split('/')[-1], l[1]) if l else '?'))
        return out
    def witness(self, st, extra=()):
        m = st.facts.model(extra)
        if m is None: return None
        vis = {}
        for s, v in sorted(m.items()):
            n = SY.names[s]
            if not n.startswith('%'): vis[n] = v
        return vis
    def violation(self, st, rule, msg, extra=()):
        """definite breach on this path (path facts + extra must have an integer witness)"""
        if st.taints:
            self.rep.und(rule, 'imprecise: ' + '; '.join(sorted(st.taints))[:160]); return
        self.congruence(st)
        if st.facts.bad or not st.facts.consistent(): return
        if any(opaque_in(x) for x in extra):
            self.rep.und(rule, 'depends on an uninterpreted value'); return
        w = self.witness(st, extra)
        if w is None:
            self.rep.und(rule, 'no integer witness'); return
        self.rep.viol.append(dict(rule=rule, msg=msg, loc=self.loc(st), witness=w, stack=self.stack(st),
                                  path=[t for t in st.trace][-40:], bools={str(k): v for k, v in st.bools.items() if not str(k).startswith('%')}))
    def congruence(self, st):
        """elements of one sequence at offsets now known equal are equal"""
        for X, lst in list(st.elts.items()):
            if not (isinstance(X, str) and isinstance(lst, tuple)) or len(lst) < 2: continue
            for i in range(len(lst)):
                for j in range(i):
                    a, b = lst[i], lst[j]
                    if a[1] == b[1] and a[2] != b[2] and st.facts.entails_eq(a[0] - b[0]) and not st.facts.entails_eq(a[2] - b[2]): st.facts.add_eq(a[2] - b[2])
    def fail(self, st, rule, msg):
        """definite breach from which the path cannot continue"""
        self.violation(st, rule, msg)
        raise PathEnd('breach:' + rule)
    def require_le(self, st, e, rule, msg):
        e = lift(e)
        if st.facts.entails_le(e): self.rep.ok(rule); return
        if st.facts.feasible_with([1 - e]):
            self.violation(st, rule, msg() if callable(msg) else msg, [1 - e])
            st.facts.add_le(e)
            if st.facts.bad or not st.facts.consistent(): raise PathEnd('breach:' + rule)
        else: self.rep.ok(rule)
    def require_eq(self, st, e, rule, msg):
        e = lift(e)
        if st.facts.entails_eq(e): self.rep.ok(rule); return True
        if st.facts.feasible_with([1 - e]) : ex = [1 - e]
        else: ex = [1 + e]
        self.violation(st, rule, msg() if callable(msg) else msg, ex)
        st.facts.add_eq(e)
        if st.facts.bad or not st.facts.consistent(): raise PathEnd('breach:' + rule)
        return False
    def fresh(self, st, name, bits=None, signed=True):
        e = sym(name)
        if bits and bits < 64:
            if signed:
                st.facts.add_le(e - (2 ** (bits - 1) - 1)); st.facts.add_le(-e - 2 ** (bits - 1))
        return e
    def app(self, st, name, args, bits=None):
        """uninterpreted function symbol (congruent modulo syntactic equality of arguments)"""
        args = tuple(args)
        s = SY.intern(('app', name, args), '%s(%s)' % (name, ','.join(map(repr, args))))
        e = L(0, {s: 1})
        if bits and bits < 64 and ('rng', s) not in st.elts:
            st.elts[('rng', s)] = 1
            a, b = (-e, e - 1) if bits == 1 else (e - (2 ** (bits - 1) - 1), -e - 2 ** (bits - 1))
            RANGEFACTS.add(a); RANGEFACTS.add(b)
            st.facts.add_le(a); st.facts.add_le(b)
        return e
    def elt_int(self, st, X, off, sz):
        """integer element of sequence X at byte offset off"""
        q = self.seqs.get(X)
        off = st.facts.reduce(off)
        if q is not None and q.get('on_read'):
            r = q['on_read'](self, st, off, sz)
            if r is not None: return r
        lst = st.elts.get(X, ())
        for o2, sz2, e in lst:
            if sz2 == sz and (o2 == off or st.facts.entails_eq(o2 - off)): return e
        s = SY.intern(('elt', X, off, sz), '%s[%r]' % (X, off.div(sz) if off.divisible(sz) else off))
        e = L(0, {s: 1})
        st.elts[X] = lst + ((off, sz, e),)
        if sz < 8:
            rng = q.get('range') if q else None
            lo, hi = rng if rng else (-2 ** (8 * sz - 1), 2 ** (8 * sz - 1) - 1)
            RANGEFACTS.add(e - hi); RANGEFACTS.add(lo - e)
            st.facts.add_le(e - hi); st.facts.add_le(lo - e)
        if q is not None and q.get('after_read'): q['after_read'](self, st, off, sz, e)
        return e
    # ------------------------------------------------------------ globals
    def global_region(self, st, name):
        rid = 'g:' + name
        if rid in st.mem: return rid
        g = self.m.globals.get(name)
        r = st.new_region(rid, 'global', L(g['size']) if g else None, name)
        if g is None: r.inputs = True; return rid
        r.const = g['const']
        if g.get('init') is not None and (g['const'] or name in getattr(self, 'init_globals', ())):
            for off, sz, op in g['init']:
                if op[0] == 'zero': r.zero.append((off, off + sz))
                elif op[0] == '?': pass
                else: r.cells[off] = (sz, self.const(st, op))
        elif g.get('init') is not None and not g['const']:
            r.inputs = True
        else: r.inputs = True
        return rid
    def const(self, st, op):
        k = op[0]
        if k == 'i':
            v = op[1]
            if isinstance(v, dict): v = int(v['big'])
            return L(v)
        if k == 'n': return NULL
        if k == 'u': return UNDEF
        if k == 'f': return Fn(op[1])
        if k == 'g': return P(self.global_region(st, op[1]), L(op[2]))
        if k == 'np': return P(None, L(op[1]))
        if k == 'a': return [self.const(st, x) for x in op[1]]
        if k == 'd': return self.app(st, 'fp:' + op[1], ())
        if k == 'ce':
            if op[1] == 'ptrtoint': return self.ptrtoint(st, self.const(st, op[2][0]))
            if op[1] == 'inttoptr': return self.inttoptr(st, self.const(st, op[2][0]))
            if op[1] == 'sub':
                a, b = self.const(st, op[2][0]), self.const(st, op[2][1])
                if isinstance(a, L) and isinstance(b, L): return a - b
        return UNDEF
    def val(self, st, op):
        if op[0] == 'v':
            return st.frames[-1].env[op[1]]
        return self.const(st, op)
    def ptrtoint(self, st, v):
        if isinstance(v, P):
            if v.r is None: return v.o
            return L(0, {SY.intern(('addr', v.r), '%addr(' + v.r + ')'): 1}) + v.o
        if isinstance(v, Fn): return L(0, {SY.intern(('fnaddr', v.n), '%fn(' + v.n + ')'): 1})
        return v
    def inttoptr(self, st, v):
        if isinstance(v, L):
            for s, k in v.d.items():
                key = SY.keys[s]
                if k == 1 and key and key[0] == 'addr':
                    return P(key[1], L(v.c, {a: b for a, b in v.d.items() if a != s}))
            if v.const(): return P(None, v)
            s = sid(v)
            if s is not None and SY.keys[s] and SY.keys[s][0] == 'fnaddr': return Fn(SY.keys[s][1])
            return self.sym_pointer(st, v)
        return v
    def sym_pointer(self, st, v, size=None):
        """an integer/opaque value used as a pointer: its own opaque region"""
        s = sid(v) if isinstance(v, L) else None
        rid = 'x:' + (SY.names[s] if s is not None else repr(v))
        if rid not in st.mem:
            r = st.new_region(rid, 'extern', None, rid); r.inputs = True
        return P(rid, ZERO)
    # ------------------------------------------------------------ memory
    def check_access(self, st, p, sz, what):
        if not isinstance(p, P):
            if isinstance(p, L): p = self.inttoptr(st, p)
            elif isinstance(p, Undef): self.fail(st, 'uninit', '%s through an uninitialised pointer' % what)
            else: raise Imprecise('%s through unknown pointer %r' % (what, p))
        if p.r is None: self.fail(st, 'null-deref', '%s through a null pointer (offset %r)' % (what, p.o))
        r = st.mem[p.r]
        if not r.live: self.fail(st, 'use-after-free', '%s of %s after its storage was released' % (what, r.label))
        if r.size is not None and r.segs is None:
            if p.o.const() and r.size.const():
                if not (0 <= p.o.c and p.o.c + sz <= r.size.c):
                    self.fail(st, 'bounds', '%s at offset %r size %d outside %s (size %r)' % (what, p.o, sz, r.label, r.size))
        if r.segs is not None:
            self.require_le(st, -p.o, 'bounds', lambda: '%s at byte offset %r before the start of %s' % (what, p.o, r.label))
            self.require_le(st, p.o + sz - r.size, 'bounds', lambda: '%s at byte offset %r (size %d) past the end of %s (size %r)' % (what, p.o, sz, r.label, r.size))
        elif r.size is not None and not (p.o.const() and r.size.const()):
            self.require_le(st, -p.o, 'bounds', lambda: '%s at byte offset %r before the start of %s' % (what, p.o, r.label))
            self.require_le(st, p.o + sz - r.size, 'bounds', lambda: '%s at byte offset %r (size %d) past the end of %s (size %r)' % (what, p.o, sz, r.label, r.size))
        return p, r
    def load(self, st, p, sz, ty):
        p, r = self.check_access(st, p, sz, 'read')
        v = self.load_raw(st, p, r, sz, ty)
        if ty[0] == 'i' and isinstance(v, (P, Fn)): v = self.ptrtoint(st, v)
        elif ty[0] == 'p' and isinstance(v, L): v = self.inttoptr(st, v)
        return v
    def load_raw(self, st, p, r, sz, ty):
        if ty[0] == 's':
            return [self.load_raw(st, P(p.r, p.o + off), st.mem[p.r], tsize(t), t) for off, t in ty[2]]
        if r.meta is not None and 'load' in r.meta:
            x = r.meta['load'](self, st, p, sz, ty)
            if x is not None: return x
        o = st.facts.reduce(p.o)
        if r.segs is None and not o.const():
            self.to_array(st, r); r = st.mem[p.r]
        if r.segs is not None:
            return self.load_arr(st, p, r, sz, ty)
        off = o.c
        c = r.cells.get(off)
        if c is not None and c[0] == sz: return c[1]
        if c is not None and isinstance(c[1], L) and c[1].const() and c[0] > sz:
            v = c[1].c & ((1 << (8 * sz)) - 1)
            return L(v - (1 << 8 * sz) if v >> (8 * sz - 1) else v)
        # inside a larger const cell?
        for o2, (s2, v2) in r.cells.items():
            if o2 < off + sz and off < o2 + s2:
                if isinstance(v2, L) and v2.const() and o2 <= off and off + sz <= o2 + s2:
                    v = ((v2.c & ((1 << 8 * s2) - 1)) >> (8 * (off - o2))) & ((1 << 8 * sz) - 1)
                    return L(v - (1 << 8 * sz) if v >> (8 * sz - 1) else v)
                # several const cells forming this one
                acc = 0; okk = True
                for b in range(sz):
                    got = None
                    for o3, (s3, v3) in r.cells.items():
                        if o3 <= off + b < o3 + s3:
                            if isinstance(v3, L) and v3.const(): got = (v3.c >> (8 * (off + b - o3))) & 255
                            break
                    else:
                        if any(a <= off + b < z for a, z in r.zero): got = 0
                    if got is None: okk = False; break
                    acc |= got << (8 * b)
                if okk: return L(acc - (1 << 8 * sz) if acc >> (8 * sz - 1) else acc)
                st.taint('partial read of %s+%d size %d' % (r.label, off, sz))
                return self.typed_sym(st, '%%part(%s+%d)' % (r.id, off), ty)
        for a, b in r.zero:
            if a <= off and off + sz <= b: return NULL if ty[0] == 'p' else ZERO
        if r.inputs:
            v = self.typed_sym(st, '%s.%d' % (r.id, off), ty)
            w = st.wr(p.r); w.cells[off] = (sz, v)
            return v
        return UNDEF
    def typed_sym(self, st, name, ty):
        if ty[0] == 'p':
            return self.sym_pointer(st, sym(name))
        if ty[0] == 'i': return self.fresh(st, name, ty[1])
        return sym(name)
    def to_array(self, st, r):
        """switch a field-cell region with constant size to array mode"""
        if r.size is None: raise Imprecise('symbolic offset into %s' % r.label)
        w = st.wr(r.id)
        pos = 0; segs = []
        items = sorted([(o, s, v) for o, (s, v) in w.cells.items()])
        zs = sorted(w.zero)
        def gap(a, b):
            if a >= b: return
            cur = a
            for z0, z1 in zs:
                lo, hi = max(z0, cur), min(z1, b)
                if lo < hi:
                    if lo > cur: segs.append(Seg(L(cur), L(lo), RAW))
                    segs.append(Seg(L(lo), L(hi), ('val', ZERO, 1))); cur = hi
            if cur < b: segs.append(Seg(L(cur), L(b), RAW))
        if w.inputs: raise Imprecise('symbolic offset into input %s' % r.label)
        for o, s, v in items:
            gap(pos, o)
            if isinstance(v, tuple) and v and v[0] == 'obj': c = v
            else: c = tmpl_L(v, L(o), s) if isinstance(v, L) else ('val', v, s)
            segs.append(Seg(L(o), L(o + s), c)); pos = o + s
        if w.size.const(): gap(pos, w.size.c)
        else: segs.append(Seg(L(pos), w.size, RAW))
        w.cells = {}; w.zero = []
        if w.const and items and len(items) > 4 and all(isinstance(v, L) and v.const() and s == items[0][1] for o, s, v in items):
            # constant table / string literal: one sequence
            X = 'lit:' + r.id
            self.seqs.setdefault(X, {'table': {o: v.c for o, s, v in items}, 'esz': items[0][1], 'on_read': lit_read(X)})
            w.segs = [Seg(ZERO, w.size, ('elt', X, ZERO))]
        else: w.segs = segs
        self.coalesce(st, w)
    def coalesce(self, st, w, i=None, j=None):
        """merge neighbouring segments of equal content; only around the changed segments [i,j) when there are many"""
        if i is not None and len(w.segs) > 12:
            a = max(0, i - 1); b = min(len(w.segs), j + 1); all_ = w.segs
            mid = self.coalesced(st, w, all_[a:b])
            if b < len(all_) and mid and all_[b].lo != mid[-1].hi: mid[-1] = Seg(mid[-1].lo, all_[b].lo, mid[-1].c)
            if a > 0 and mid and all_[a - 1].hi != mid[0].lo: mid[0] = Seg(all_[a - 1].hi, mid[0].hi, mid[0].c)
            if mid or (a == 0 and b == len(all_)): w.segs = all_[:a] + mid + all_[b:]; return
        w.segs = self.coalesced(st, w, w.segs)
    def coalesced(self, st, w, segs):
        out = []
        for s in segs:
            if s.lo == s.hi: continue
            if out and out[-1].c == s.c and out[-1].c[0] != 'uniq':
                out[-1] = Seg(out[-1].lo, s.hi, s.c)
            elif out and same_content(st, out[-1].c, s.c):
                out[-1] = Seg(out[-1].lo, s.hi, out[-1].c)
            else: out.append(s)
        if len(out) > 1:
            out2 = []
            for s in out:
                if st.facts.entails_le(s.hi - s.lo): continue
                if out2 and same_content(st, out2[-1].c, s.c): out2[-1] = Seg(out2[-1].lo, s.hi, out2[-1].c)
                else: out2.append(s)
            out = out2
            # make the boundaries contiguous syntactically
            for i in range(1, len(out)):
                if out[i].lo != out[i - 1].hi: out[i] = Seg(out[i - 1].hi, out[i].hi, out[i].c)
            if out and w.size is not None and out[-1].hi != w.size and st.facts.entails_eq(out[-1].hi - w.size):
                out[-1] = Seg(out[-1].lo, w.size, out[-1].c)
        return out
    def find_seg(self, st, r, off, sz):
        if not off.d and len(r.segs) > 6:
            c = off.c
            for i, s in enumerate(r.segs):
                if s.hi.d: break
                if c < s.hi.c:
                    if c + sz <= s.hi.c: return i
                    break
        for i, s in enumerate(r.segs):
            if s.lo == off and st.facts.entails_le(off + sz - s.hi): return i
        for i, s in enumerate(r.segs):
            if st.le(off + 1, s.hi):
                if i and not st.facts.entails_le(s.lo - off): pass
                if st.facts.entails_le(off + sz - s.hi): return i
                if st.le(off + sz, s.hi): return i
                raise Imprecise('access straddles segments of %s' % r.label)
        raise Imprecise('no segment for offset %r in %s' % (off, r.label))
    def load_arr(self, st, p, r, sz, ty):
        i = self.find_seg(st, r, p.o, sz); s = r.segs[i]; c = s.c
        if c[0] == 'raw':
            return UNDEF
        if c[0] == 'elt':
            q = self.seqs.get(c[1])
            if ty[0] == 'p':
                if q and q.get('ptr'): return q['ptr'](self, st, p.o + c[2], sz)
                return self.sym_pointer(st, self.elt_int(st, c[1], p.o + c[2], sz))
            return self.elt_int(st, c[1], p.o + c[2], sz)
        if c[0] == 'val':
            v = c[1]
            if c[2] == sz: return v
            if isinstance(v, L) and v == ZERO: return NULL if ty[0] == 'p' else ZERO
            st.taint('partial array read'); return self.typed_sym(st, '%part', ty)
        if c[0] == 'app':
            return self.app(st, c[1], [self.inst_L(st, a, p.o, sz) for a in c[2]], 8 * sz)
        if c[0] == 'obj':
            st.taint('raw read of an object'); return self.typed_sym(st, '%rawobj', ty)
        raise Imprecise('load of content %r' % (c,))
    def inst_L(self, st, a, o, sz):
        if isinstance(a, tuple):
            if a[0] == 'elt': return self.elt_int(st, a[1], o + a[2], sz)
            if a[0] == 'val': return a[1]
            if a[0] == 'app': return self.app(st, a[1], [self.inst_L(st, x, o, sz) for x in a[2]])
        return a
    def set_range(self, st, rid, lo, hi, pieces):
        """overwrite [lo,hi) of array region rid with pieces (list of Seg); forks until boundaries are ordered"""
        r = st.mem[rid]
        i = self.seg_at(st, r, lo); out = [s for s in r.segs[:i]]
        segs = r.segs
        # part of segment i before lo
        if i < len(segs):
            s = segs[i]
            if s.lo != lo and not st.facts.entails_eq(s.lo - lo): out.append(Seg(s.lo, lo, s.c))
        j = i
        while j < len(segs) and not st.facts.entails_le(hi - segs[j].hi) and st.le(segs[j].hi, hi): j += 1
        tail = []
        if j < len(segs):
            s = segs[j]
            tail.append(Seg(hi, s.hi, s.c)); tail += segs[j + 1:]
        w = st.wr(rid)
        w.segs = out + list(pieces) + tail
        self.coalesce(st, w, max(0, len(out) - 1), len(out) + len(pieces) + 1)
    def seg_at(self, st, r, off):
        """index of the segment containing off (or len(segs) when off is the end)"""
        if not off.d and len(r.segs) > 6:
            c = off.c
            for i, s in enumerate(r.segs):
                if s.hi.d: break
                if c < s.hi.c: return i
        for i, s in enumerate(r.segs):
            if s.lo == off: return i
        for i, s in enumerate(r.segs):
            if st.facts.entails_eq(s.lo - off): return i
        for i, s in enumerate(r.segs):
            if st.le(off + 1, s.hi): return i
        return len(r.segs)
    def get_range(self, st, rid, lo, hi):
        """segments covering [lo,hi) clipped"""
        r = st.mem[rid]
        i = self.seg_at(st, r, lo); out = []; cur = lo
        for s in r.segs[i:]:
            if st.facts.entails_le(hi - cur): break
            if st.le(hi, s.hi):
                out.append(Seg(cur, hi, s.c)); cur = hi; break
            out.append(Seg(cur, s.hi, s.c)); cur = s.hi
        return out
    def store(self, st, p, sz, v, ty):
        p, r = self.check_access(st, p, sz, 'write')
        if r.const: self.fail(st, 'const-write', 'write to constant storage %s' % r.label)
        if st.g.get('frozen') and p.r in st.g['frozen'] and not self.in_atomic: self.violation(st, 'shared-write', 'an operation that only reads writes %s, which other threads may read at the same time' % r.label)
        if ty is not None and ty[0] == 's':
            if not isinstance(v, (list, tuple)):
                v = [UNDEF] * len(ty[2])
            for (off, t), x in zip(ty[2], v): self.store(st, P(p.r, p.o + off), tsize(t), x, t)
            return
        if r.meta is not None and 'store' in r.meta:
            if r.meta['store'](self, st, p, sz, v): return
        o = st.facts.reduce(p.o)
        if r.segs is None and not o.const():
            if sz == 8 and r.size is None: raise Imprecise('symbolic store into %s' % r.label)
            self.to_array(st, r); r = st.mem[p.r]
        if r.segs is not None:
            if isinstance(v, Undef): c = RAW
            elif isinstance(v, L): c = tmpl_L(v, p.o, sz)
            else: c = ('val', v, sz)
            i = self.find_seg(st, r, p.o, sz)
            old = r.segs[i].c
            if old[0] == 'obj':
                self.violation(st, 'raw-overwrite', 'raw store over a live object in %s' % r.label)
            self.set_range(st, p.r, p.o, p.o + sz, [Seg(p.o, p.o + sz, c)])
            return
        w = st.wr(p.r); off = o.c
        rest = self.split_cells(st, w, off, sz)
        self.clear_cells(w, off, sz)
        for o2, x in rest: w.cells[o2] = (1, x)
        w.cells[off] = (sz, v)
    def split_cells(self, st, w, off, sz): return ()
    def clear_cells(self, w, off, sz):
        for o2 in [o for o, (s, v) in w.cells.items() if o < off + sz and off < o + s and not (o == off and s == sz)]:
            s2, v2 = w.cells.pop(o2)
            if isinstance(v2, L) and v2.const():
                for b in range(s2):
                    if not (off <= o2 + b < off + sz):
                        x = (v2.c >> (8 * b)) & 255
                        w.cells[o2 + b] = (1, L(x - 256 if x > 127 else x))
        if w.zero:
            nz = []
            for a, b in w.zero:
                if b <= off or a >= off + sz: nz.append((a, b))
                else:
                    if a < off: nz.append((a, off))
                    if b > off + sz: nz.append((off + sz, b))
            w.zero = nz
    def memcopy(self, st, dst, src, n, overlap_ok, what):
        if st.facts.entails_le(n): 
            self.require_le(st, -n, 'bounds', '%s with negative length %r' % (what, n))
            return
        if st.eq(n): return
        if not st.facts.entails_le(-n):
            self.require_le(st, -n, 'bounds', lambda: '%s with negative length %r' % (what, n))
        for p, nm in ((dst, 'write'), (src, 'read')):
            if isinstance(p, Undef): self.fail(st, 'uninit', '%s through an uninitialised pointer' % what)
            if not isinstance(p, P): raise Imprecise('%s through unknown pointer' % what)
            if p.r is None: self.fail(st, 'null-deref', '%s %s through null' % (what, nm))
            r = st.mem[p.r]
            if not r.live: self.fail(st, 'use-after-free', '%s %s of %s after release' % (what, nm, r.label))
            if r.size is not None:
                self.require_le(st, -p.o, 'bounds', lambda: '%s %s before start of %s (offset %r)' % (what, nm, r.label, p.o))
                self.require_le(st, p.o + n - r.size, 'bounds', lambda: '%s %s of %r bytes at offset %r exceeds %s (size %r)' % (what, nm, n, p.o, r.label, r.size))
        if st.mem[dst.r].const: self.fail(st, 'const-write', '%s into constant storage' % what)
        if st.g.get('frozen') and dst.r in st.g['frozen']: self.violation(st, 'shared-write', 'an operation that only reads writes %s, which other threads may read at the same time' % st.mem[dst.r].label)
        if dst.r == src.r and not overlap_ok:
            if not (st.le(dst.o + n, src.o) or st.le(src.o + n, dst.o)):
                if not st.eq(dst.o, src.o):
                    self.fail(st, 'overlap', '%s on overlapping ranges of %s' % (what, st.mem[dst.r].label))
        rs, rd = st.mem[src.r], st.mem[dst.r]
        if rs.segs is None and rd.segs is None and n.const() and src.o.const() and dst.o.const():
            cells = [(o, s, v) for o, (s, v) in rs.cells.items() if o >= src.o.c and o + s <= src.o.c + n.c]
            if rs.inputs and not cells:
                # opaque input bytes: read as 8-byte words when possible
                for k in range(0, n.c, 8):
                    s8 = min(8, n.c - k); cells.append((src.o.c + k, s8, self.load_raw(st, P(src.r, src.o + k), st.mem[src.r], s8, ['i', 8 * s8])))
            part = [(o, s) for o, (s, v) in rs.cells.items() if o < src.o.c + n.c and o + s > src.o.c and not (o >= src.o.c and o + s <= src.o.c + n.c)]
            if part: st.taint('memcpy of partial cell')
            zs = [(max(a, src.o.c), min(b, src.o.c + n.c)) for a, b in rs.zero if a < src.o.c + n.c and b > src.o.c]
            w = st.wr(dst.r); d = dst.o.c - src.o.c
            for o2 in [o for o, (s, v) in w.cells.items() if o < dst.o.c + n.c and o + s > dst.o.c]:
                del w.cells[o2]
            self.clear_cells(w, dst.o.c, n.c)
            for o, s, v in cells: w.cells[o + d] = (s, v)
            for a, b in zs: w.zero.append((a + d, b + d))
            return
        for rid in (src.r, dst.r):
            r = st.mem[rid]
            if r.segs is None: self.to_array(st, r)
        pieces = self.get_range(st, src.r, src.o, src.o + n)
        if any(s.c[0] == 'obj' for s in pieces): self.violation(st, 'raw-overwrite', 'byte copy of non-trivial objects')
        d = dst.o - src.o
        self.set_range(st, dst.r, dst.o, dst.o + n, [Seg(s.lo + d, s.hi + d, shift_content(s.c, d)) for s in pieces])
    def memset(self, st, dst, v, n):
        if st.eq(n): return
        if isinstance(dst, Undef): self.fail(st, 'uninit', 'memset through an uninitialised pointer')
        if not isinstance(dst, P): raise Imprecise('memset through unknown pointer')
        if dst.r is None: self.fail(st, 'null-deref', 'memset through null')
        r = st.mem[dst.r]
        if not r.live: self.fail(st, 'use-after-free', 'memset of released %s' % r.label)
        if r.size is not None:
            self.require_le(st, -dst.o, 'bounds', 'memset before start of %s' % r.label)
            self.require_le(st, dst.o + n - r.size, 'bounds', lambda: 'memset of %r bytes at offset %r exceeds %s (size %r)' % (n, dst.o, r.label, r.size))
        if r.segs is None and n.const() and dst.o.const():
            w = st.wr(dst.r)
            for o2 in [o for o, (s, x) in w.cells.items() if o >= dst.o.c and o + s <= dst.o.c + n.c]: del w.cells[o2]
            self.clear_cells(w, dst.o.c, n.c)
            if v == ZERO: w.zero.append((dst.o.c, dst.o.c + n.c))
            elif v.const():
                for b in range(n.c): w.cells[dst.o.c + b] = (1, v)
            return
        if r.segs is None: self.to_array(st, r)
        self.set_range(st, dst.r, dst.o, dst.o + n, [Seg(dst.o, dst.o + n, ('val', v, 1))])
    def alloc(self, st, size, label):
        r = self.fresh_region(st, 'heap', size, label)
        if not size.const(): r.segs = [Seg(ZERO, size, RAW)]
        return P(r.id, ZERO)
    def free(self, st, p, what):
        if isinstance(p, L): p = self.inttoptr(st, p)
        if isinstance(p, Undef): self.fail(st, 'uninit', '%s of an uninitialised pointer' % what)
        if not isinstance(p, P): raise Imprecise('%s of unknown pointer' % what)
        if p.r is None: return
        r = st.mem[p.r]
        if r.meta is not None and 'free' in r.meta:
            if r.meta['free'](self, st, p, what): return
        if not r.live: self.fail(st, 'double-free', '%s of %s which was already released' % (what, r.label))
        if r.kind not in ('heap',): 
            if r.kind == 'extern': st.taint('free of opaque pointer')
            else: self.fail(st, 'bad-free', '%s of %s, which was not allocated' % (what, r.label))
        if not (p.o == ZERO or st.facts.entails_eq(p.o)): self.fail(st, 'bad-free', '%s of an interior pointer of %s' % (what, r.label))
        self.check_no_live_objects(st, r, 'released while still holding live elements')
        if st.g.get('frozen') and p.r in st.g['frozen']: self.violation(st, 'shared-write', 'an operation that only reads releases %s, which other threads may read at the same time' % r.label)
        w = st.wr(p.r); w.live = False
        self.rep.ok('free')
    def check_no_live_objects(self, st, r, why):
        if r.segs is not None:
            for s in r.segs:
                if s.c[0] == 'obj':
                    if st.facts.entails_le(s.hi - s.lo): continue
                    self.violation(st, 'element-leak', 'storage %s %s: [%r,%r)' % (r.label, why, s.lo, s.hi), [s.lo + 1 - s.hi])
                    st.taint('after element-leak')
        else:
            for o, (s, v) in r.cells.items():
                if isinstance(v, tuple) and v and v[0] == 'obj':
                    self.violation(st, 'element-leak', 'storage %s %s at offset %d' % (r.label, why, o))
    # ------------------------------------------------------------ objects of opaque element type
    def obj_get(self, st, p, esz):
        """content term of the object at p, or None when there is no live object"""
        if isinstance(p, P) and p.r is not None and st.mem[p.r].meta is not None and 'objget' in st.mem[p.r].meta:
            return st.mem[p.r].meta['objget'](self, st, p)
        p, r = self.check_access(st, p, esz, 'element access')
        if r.segs is None and not st.facts.reduce(p.o).const(): self.to_array(st, r); r = st.mem[p.r]
        if r.segs is None:
            c = r.cells.get(st.facts.reduce(p.o).c)
            if c is None or not (isinstance(c[1], tuple) and c[1] and c[1][0] == 'obj'): return None
            return inst_term(c[1][1], p.o)
        i = self.find_seg(st, r, p.o, esz); c = r.segs[i].c
        if c[0] != 'obj': return None
        return inst_term(c[1], p.o)
    def obj_set(self, st, p, esz, term):
        """term None = no object"""
        p, r = self.check_access(st, p, esz, 'element access')
        if st.g.get('frozen') and p.r in st.g['frozen']: self.violation(st, 'shared-write', 'an operation that only reads changes an element in %s, which other threads may read at the same time' % r.label)
        if r.segs is None and not st.facts.reduce(p.o).const(): self.to_array(st, r); r = st.mem[p.r]
        if r.segs is None:
            w = st.wr(p.r); o = st.facts.reduce(p.o).c
            for o2 in [x for x, (s, v) in w.cells.items() if x < o + esz and o < x + s]: del w.cells[o2]
            if term is not None: w.cells[o] = (esz, ('obj', tmpl_term(term, p.o), esz))
            return
        c = RAW if term is None else ('obj', tmpl_term(term, p.o), esz)
        self.set_range(st, p.r, p.o, p.o + esz, [Seg(p.o, p.o + esz, c)])
    # ------------------------------------------------------------ arithmetic
    def trunc_to(self, st, v, bits):
        if bits >= 64: return v
        lo, hi = -2 ** (bits - 1), 2 ** (bits - 1) - 1
        if v.const():
            x = v.c & ((1 << bits) - 1)
            if bits == 1: return L(x)
            return L(x - (1 << bits) if x > hi else x)
        if bits == 1:
            if st.facts.entails_le(-v) and st.facts.entails_le(v - 1): return v
            return self.app(st, 'trunc1', (v,), 1)
        if st.facts.entails_le(v - hi) and st.facts.entails_le(lo - v): return v
        for k in (1, -1):
            w = v - k * 2 ** bits
            if st.facts.entails_le(w - hi) and st.facts.entails_le(lo - w): return w
        return v - self.divfloor(st, v - lo, 2 ** bits) * 2 ** bits
    def zext(self, st, v, bits):
        if v.const(): return L(v.c & ((1 << bits) - 1))
        if bits == 1: return v
        if st.facts.entails_le(-v): return v
        if st.le(ZERO, v): return v
        return v + 2 ** bits
    def divfloor(self, st, x, d):
        """floor(x/d) for constant d>0"""
        if x.divisible(d): return x.div(d)
        x = st.facts.reduce(x)
        if x.divisible(d): return x.div(d)
        s = SY.intern(('fdiv', x, d), '(%r)/%d' % (x, d)); q = L(0, {s: 1})
        if ('rng', s) not in st.elts:
            st.elts[('rng', s)] = 1
            st.facts.add_le(q * d - x); st.facts.add_le(x - q * d - (d - 1))
        return q
    def binop(self, st, op, a, b, bits, inst):
        if isinstance(a, Undef) or isinstance(b, Undef): return UNDEF
        if isinstance(a, (P, Fn)): a = self.ptrtoint(st, a)
        if isinstance(b, (P, Fn)): b = self.ptrtoint(st, b)
        if not (isinstance(a, L) and isinstance(b, L)):
            st.taint('binop on %r %r' % (a, b)); return self.fresh(st, '%bin', bits)
        if op == 'add': r = a + b
        elif op == 'sub':
            r = a - b
        elif op == 'mul':
            if a.const(): r = b * a.c
            elif b.const(): r = a * b.c
            else:
                ra, rb = st.facts.reduce(a), st.facts.reduce(b)
                if ra.const(): r = rb * ra.c
                elif rb.const(): r = ra * rb.c
                else:
                    r = self.app(st, 'mul', sorted((ra, rb), key=repr))
                    if st.facts.entails_le(-ra) and st.facts.entails_le(-rb): st.facts.add_le(-r)
        elif op in ('sdiv', 'udiv', 'srem', 'urem'):
            b2 = st.facts.reduce(b)
            if b2.const() and b2.c > 0:
                d = b2.c
                if op[0] == 'u': a = self.zext(st, a, bits)
                if st.le(ZERO, a): q = self.divfloor(st, a, d)
                else: q = -self.divfloor(st, -a, d)
                r = q if op.endswith('div') else a - q * d
            else: r = self.app(st, op, (a, b), bits)
        elif op == 'shl' and b.const(): r = a * (1 << b.c)
        elif op == 'ashr' and b.const(): r = self.divfloor(st, a, 1 << b.c)
        elif op == 'lshr' and b.const():
            r = self.divfloor(st, self.zext(st, a, bits), 1 << b.c)
        elif op in ('and', 'or', 'xor'):
            if bits == 1:
                x = self.truth(st, a); y = self.truth(st, b)
                return L(int((x and y) if op == 'and' else (x or y) if op == 'or' else x != y))
            if a.const() and b.const():
                r = L({'and': a.c & b.c, 'or': a.c | b.c, 'xor': a.c ^ b.c}[op])
            else:
                if a.const(): a, b = b, a
                sa = sid(a); ka = SY.keys[sa] if sa is not None else None
                if b.const() and b.c == 1 and op == 'and' and ka and ka[0] == 'fnaddr': r = ZERO  # functions are aligned (member pointer tag)
                elif b.const() and op == 'and' and b.c >= 0 and (b.c & (b.c + 1)) == 0:
                    d = b.c + 1; r = a - self.divfloor(st, a, d) * d
                elif b.const() and b.c == 0: r = ZERO if op == 'and' else a
                elif b.const() and b.c == -1 and op == 'xor': r = -a - 1
                else: r = self.app(st, op, (a, b), bits)
        elif op.startswith('f'): return self.app(st, op, (a, b))
        else: r = self.app(st, op, (a, b), bits)
        if bits < 64 and not inst.get('nsw'): r = self.trunc_to(st, r, bits)
        elif bits == 64 and WIDE and op in ('add', 'sub') and inst.get('nsw'): r = self.wrap64(st, r, inst)
        return r
    def wrap64(self, st, r, inst):
        x = st.facts.reduce(r)
        if x.const(): return r if -2 ** 63 <= x.c < 2 ** 63 else r - 2 ** 64 if x.c > 0 else r + 2 ** 64
        if WIDE.isdisjoint(x.d) or '/Source/' not in str(inst.get('loc')): return r
        syms = set(x.d)
        for c in st.facts._slice([x]): syms |= c.d.keys()
        ex = []
        for s in syms:
            v = L(0, {s: 1}); lo, hi = (-2 ** 63, 2 ** 63 - 1) if s in WIDE else (-2 ** 40, 2 ** 40)
            ex += [v - hi, lo - v]
        for over, back in ((2 ** 63 - x, -2 ** 64), (x + 2 ** 63 + 1, 2 ** 64)):
            if st.facts.entails_le(over): return r + back
            if not st.facts.entails_le(1 - over) and st.facts.feasible_with(ex + [over]):
                raise Fork([('le', 1 - over), ('and', [('le', over)] + [('le', c) for c in ex])])
        return r
    def truth(self, st, v):
        if isinstance(v, L):
            if v.const(): return v.c != 0
            return not st.eq(v)
        if isinstance(v, P): return v.r is not None
        if isinstance(v, Fn): return True
        if isinstance(v, Undef):
            self.fail(st, 'uninit', 'branch on an uninitialised value')
        raise Imprecise('truth of %r' % (v,))
    def icmp(self, st, pred, a, b, ty):
        if isinstance(a, Undef) or isinstance(b, Undef):
            self.fail(st, 'uninit', 'comparison of an uninitialised value')
        if isinstance(a, L) and isinstance(b, P): b = self.ptrtoint(st, b)
        if isinstance(b, L) and isinstance(a, P): a = self.ptrtoint(st, a)
        if isinstance(a, (P, Fn)) or isinstance(b, (P, Fn)):
            if isinstance(a, Fn) or isinstance(b, Fn):
                e = (a == b)
                if pred == 'eq': return e
                if pred == 'ne': return not e
                return self.opaque_bool(st, 'fncmp', pred, a, b)
            if a.r == b.r:
                x, y = a.o, b.o; bits = 64
                pred = {'ult': 'slt', 'ule': 'sle', 'ugt': 'sgt', 'uge': 'sge'}.get(pred, pred)
            else:
                for p, q in ((a, b), (b, a)):
                    if p.r is not None and q.r is None and st.mem[p.r].kind == 'extern' and st.mem[p.r].meta is not None and st.mem[p.r].meta.get('maybe_null'):
                        isnull = st.bool(('null', p.r))
                        if pred in ('eq', 'ne'): return isnull == (pred == 'eq')
                if pred == 'eq': return False
                if pred == 'ne': return True
                if a.r is None or b.r is None:  # null is below every object
                    less = a.r is None
                    return less if pred in ('ult', 'ule') else not less
                # address order of different objects: unknown but consistent
                lt = self.addr_less(st, a.r, b.r)
                return lt if pred in ('ult', 'ule') else not lt
        else:
            x, y = a, b; bits = ty[1] if ty[0] == 'i' else 64
        if not (isinstance(x, L) and isinstance(y, L)): raise Imprecise('icmp %r %r' % (a, b))
        if any(SY.keys[s] and SY.keys[s][0] == 'elt' for s in (x - y).d): self.congruence(st)
        if pred[0] == 'u':
            if not (st.facts.entails_le(-x) and st.facts.entails_le(-y)):
                x = self.zext(st, x, bits); y = self.zext(st, y, bits)
            pred = 's' + pred[1:]
        if pred == 'eq': return st.eq(x, y)
        if pred == 'ne': return not st.eq(x, y)
        if pred == 'slt': return st.lt(x, y)
        if pred == 'sle': return st.le(x, y)
        if pred == 'sgt': return st.lt(y, x)
        if pred == 'sge': return st.le(y, x)
        raise Imprecise('icmp ' + pred)
    def addr_less(self, st, x, y):
        """address order of two objects: arbitrary, but a total order"""
        k = st.bools.get(('addrorder',))
        if k is not None:  # fixed by the driver: in the order of creation, against it, or scattered
            x, y = (int(r[1:r.index(':')]) if ':' in r and r[1:r.index(':')].isdigit() else 0 for r in (x, y))
            return x < y if k == 0 else x > y if k == 1 else (x * 7 % 31, x) < (y * 7 % 31, y)
        less = {}
        for k, v in st.bools.items():
            if isinstance(k, tuple) and k and k[0] == 'addr<':
                lo, hi = (k[1], k[2]) if v else (k[2], k[1])
                less.setdefault(lo, []).append(hi)
        def reach(s, t):
            seen = {s}; todo = [s]
            while todo:
                n = todo.pop()
                for m in less.get(n, ()):
                    if m == t: return True
                    if m not in seen: seen.add(m); todo.append(m)
            return False
        if reach(x, y): return True
        if reach(y, x): return False
        k = ('addr<', *sorted((x, y)))
        return st.bool(k) if x < y else not st.bool(k)
    def opaque_bool(self, st, *key): return st.bool(tuple(key))
    # ------------------------------------------------------------ control
    def goto(self, st, b):
        f = st.frames[-1]
        f.prev = f.blk; f.blk = b; f.ip = 0
        insts = f.fn['blocks'][b]
        # phis, simultaneously
        n = 0; new = []
        for i in insts:
            if i['op'] != 'phi': break
            for v, pb in i['in']:
                if pb == f.prev:
                    new.append((i['id'], self.val(st, v))); break
            n += 1
        for k, v in new: f.env[k] = v
        f.ip = n
    def push(self, st, fname, args, call):
        fn = self.m.funcs[fname]
        if len(st.frames) > 120 + 12 * (self.max_rec - 6): raise Imprecise('call depth')
        if sum(1 for f in st.frames if f.fname == fname) > self.max_rec: raise Imprecise('recursion in ' + short(fn['dem']))
        self.rep.funcs.add(fname)
        f = Frame(fn, fname, call)
        for i, a in enumerate(args):
            f.env[i] = a
        st.frames.append(f)
    def pop(self, st):
        f = st.frames.pop()
        for rid in f.allocas:
            r = st.mem.get(rid)
            if r is not None:
                self.check_stack_objects(st, r)
                w = st.wr(rid); w.live = False; w.cells = {}; w.segs = None
                del st.mem[rid]
                st.mem[rid] = w
        return f
    def check_stack_objects(self, st, r):
        if r.segs is None:
            for o, (s, v) in r.cells.items():
                if isinstance(v, tuple) and v and v[0] == 'obj':
                    self.violation(st, 'element-leak', 'local object storage abandoned with a live element (offset %d)' % o)
        else:
            self.check_no_live_objects(st, r, 'abandoned while holding live elements')
    def unwind(self, st):
        """propagate st.exc to the innermost handler; returns True if it left the entry frame"""
        while True:
            f = st.frames[-1] if st.frames else None
            if f is None: st.done = ('throw', st.exc); return True
            # f's current instruction is the call that threw (or the throw itself)
            b = f.fn['blocks'][f.blk]; i = b[f.ip]
            if i['op'] == 'invoke':
                tgt = i['u']; lp = f.fn['blocks'][tgt]
                k = 0
                while lp[k]['op'] == 'phi': k += 1
                pad = lp[k]
                sel = self.landing(st, pad)
                if sel is not None:
                    self.goto(st, tgt)
                    f.env[pad['id']] = [st.exc[1], sel]
                    f.ip = k + 1
                    return False
            self.pop(st)
            if not st.frames: st.done = ('throw', st.exc); return True
    def typeid(self, name):
        return self.typeids.setdefault(name, len(self.typeids) + 1)
    def ti_bases(self, name):
        g = self.m.globals.get(name); out = [name]
        if g and g.get('init'):
            for off, sz, op in g['init']:
                if off >= 16 and op[0] == 'g' and op[1].startswith('_ZTI'): out += self.ti_bases(op[1])
        return out
    def landing(self, st, pad):
        ti = st.exc[0]
        if ti is not None:
            bases = self.ti_bases(ti)
        for kind, c in pad['clauses']:
            if kind == 'catch':
                if c[0] == 'n': return L(self.typeid('...'))
                if ti is None:
                    if st.bool(('exc-is', c[1])): return L(self.typeid(c[1]))
                elif c[1] in bases: return L(self.typeid(c[1]))
            elif kind == 'filter':
                # noexcept / dynamic exception specification
                return L(-1)
        if pad['cleanup']: return ZERO
        return None
    # one instruction; returns nothing, mutates st. May raise Fork (state must be unmodified or snapshotted)
    def step(self, st):
        f = st.frames[-1]
        i = f.fn['blocks'][f.blk][f.ip]
        op = i['op']; env = f.env
        self.rep.insts += 1
        if op == 'load':
            self.cur_atomic = i.get('atomic')
            env[i['id']] = self.load(st, self.val(st, i['p']), i['size'], i['ty']); 
            if self.on_load is not None: self.on_load(self, st, i, env[i['id']])
        elif op == 'store':
            self.cur_atomic = i.get('atomic')
            self.in_atomic = bool(i.get('atomic'))
            try: self.store(st, self.val(st, i['p']), i['size'], self.val(st, i['val']), i['vty'])
            finally: self.in_atomic = False
        elif op == 'getelementptr':
            b = self.val(st, i['base'])
            if isinstance(b, L): b = self.inttoptr(st, b)
            o = L(i['off'])
            for x, sc in i['idx']:
                v = self.val(st, x)
                if not isinstance(v, L): raise Imprecise('gep index %r' % (v,))
                o = o + v * sc
            if isinstance(b, P): env[i['id']] = P(b.r, b.o + o)
            else: raise Imprecise('gep on %r' % (b,))
        elif op == 'alloca':
            n = self.val(st, i['n'])
            sz = n * i['size']
            r = self.fresh_region(st, 'stack', sz, (i.get('name') or 'tmp'))
            if not sz.const(): r.segs = [Seg(ZERO, sz, RAW)]
            f.allocas.append(r.id); env[i['id']] = P(r.id, ZERO)
        elif op == 'icmp':
            env[i['id']] = ONE if self.icmp(st, i['pred'], self.val(st, i['a']), self.val(st, i['b']), i['aty']) else ZERO
        elif op == 'br':
            if 'cond' in i:
                t = self.truth(st, self.val(st, i['cond']))
                self.goto(st, i['t'] if t else i['f'])
            else: self.goto(st, i['t'])
            return
        elif op in ('call', 'invoke'):
            self.call(st, f, i); return
        elif op == 'ret':
            v = self.val(st, i['ops'][0]) if i['ops'] else None
            self.do_ret(st, v); return
        elif op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'ashr', 'lshr', 'and', 'or', 'xor'):
            bits = i['ty'][1]
            env[i['id']] = self.binop(st, op, self.val(st, i['ops'][0]), self.val(st, i['ops'][1]), bits, i)
        elif op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'):
            a = self.val(st, i['a'] if 'a' in i else i['ops'][0])
            if isinstance(a, Undef): pass
            elif op == 'zext': 
                if isinstance(a, L): a = self.zext(st, a, i['from'][1])
            elif op == 'sext':
                if i['from'][1] == 1: a = -a
            elif op == 'trunc':
                if isinstance(a, L): a = self.trunc_to(st, a, i['to'][1])
            elif op == 'ptrtoint': a = self.ptrtoint(st, a)
            elif op == 'inttoptr': a = self.inttoptr(st, a)
            env[i['id']] = a
        elif op == 'select':
            t = self.truth(st, self.val(st, i['ops'][0]))
            env[i['id']] = self.val(st, i['ops'][1 if t else 2])
        elif op == 'phi': raise Imprecise('stray phi')
        elif op == 'switch':
            v = self.val(st, i['cond'])
            if isinstance(v, Undef): self.fail(st, 'uninit', 'switch on an uninitialised value')
            for c, b in i['cases']:
                if st.eq(v, L(c)): self.goto(st, b); return
            self.goto(st, i['def']); return
        elif op == 'extractvalue':
            a = self.val(st, i['a'])
            for k in i['ix']:
                a = a[k] if isinstance(a, (list, tuple)) else UNDEF
            env[i['id']] = a
        elif op == 'insertvalue':
            a = self.val(st, i['a']); b = self.val(st, i['b'])
            n = len(i['ty'][2])
            if not isinstance(a, list): a = [UNDEF] * n
            a = list(a)
            if len(i['ix']) != 1: raise Imprecise('nested insertvalue')
            a[i['ix'][0]] = b; env[i['id']] = a
        elif op == 'atomicrmw': env[i['id']] = self.atomic(st, i)
        elif op == 'cmpxchg':
            p = self.val(st, i['p']); old = self.load(st, p, i['size'], ['i', 8 * i['size']])
            c = self.val(st, i['cmp'])
            if st.eq(old, c):
                self.in_atomic = True
                try: self.store(st, p, i['size'], self.val(st, i['new']), None); env[i['id']] = [old, ONE]
                finally: self.in_atomic = False
            else: env[i['id']] = [old, ZERO]
        elif op == 'unreachable': raise PathEnd('unreachable')
        elif op == 'resume':
            v = self.val(st, i['ops'][0])
            self.pop(st)
            self.unwind_from_pop(st); return
        elif op == 'landingpad': raise Imprecise('stray landingpad')
        elif op in ('fcmp',):
            st.taint('floating-point comparison')
            env[i['id']] = ONE if st.bool(('fcmp', i['pred'], self.val(st, i['a']), self.val(st, i['b']))) else ZERO
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            env[i['id']] = self.app(st, op, (self.val(st, i['ops'][0]), self.val(st, i['ops'][1])))
        elif op in ('sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'fneg'):
            env[i['id']] = self.app(st, op, (self.val(st, i['a'] if 'a' in i else i['ops'][0]),), i['ty'][1] if i['ty'][0] == 'i' else None)
        elif op == 'fence': pass
        else: raise Imprecise('opcode ' + op)
        f.ip += 1
    on_load = None
    on_atomic = None; cur_atomic = False
    def atomic(self, st, i):
        p = self.val(st, i['p']); v = self.val(st, i['val'])
        old = self.load(st, p, i['size'], ['i', 8 * i['size']])
        if self.on_atomic is not None: self.on_atomic(self, st, i, p, old)
        k = i['rmw']
        if k == 'add': n = old + v
        elif k == 'sub': n = old - v
        elif k == 'xchg': n = v
        else: n = self.fresh(st, '%rmw'); st.taint('atomicrmw ' + k)
        self.in_atomic = True
        try: self.store(st, p, i['size'], n, None)
        finally: self.in_atomic = False
        return old
    in_atomic = False
    def unwind_from_pop(self, st):
        if not st.frames: st.done = ('throw', st.exc); return
        self.unwind(st)
    def do_ret(self, st, v):
        f = self.pop(st)
        if not st.frames: st.done = ('ret', v); return
        self.after_call(st, v)
    def after_call(self, st, v):
        c = st.frames[-1]; i = c.fn['blocks'][c.blk][c.ip]
        c.env[i['id']] = v if v is not None else UNDEF
        if i['op'] == 'invoke': self.goto(st, i['t'])
        else: c.ip += 1
    def throw(self, st, ti, ptr):
        st.exc = (ti, ptr)
        self.unwind(st)
    def call(self, st, f, i):
        cal = i['callee']
        if cal[0] == 'f': name = cal[1]
        else:
            v = self.val(st, cal)
            if isinstance(v, P) and v.r is None: self.fail(st, 'null-deref', 'call through a null function pointer')
            if isinstance(v, Undef): self.fail(st, 'uninit', 'call through an uninitialised function pointer')
            if not isinstance(v, Fn):
                m = self.indirect(st, v, i)
                if m is None: raise Imprecise('indirect call through %r' % (v,))
                name = m
            else: name = v.n
        args = [self.val(st, a) for a in i['args']]
        mdl = self.find_model(name)
        if mdl is not None:
            r = mdl(self, st, name, args, i)
            if r is SKIP: return
            self.after_call(st, r); return
        fn = self.m.funcs.get(name)
        if fn is None or fn.get('decl'):
            r = self.unknown_call(st, name, args, i)
            self.after_call(st, r); return
        for k, bv in enumerate(i['byval']):
            if bv:
                r = self.fresh_region(st, 'stack', L(bv), 'byval')
                np = P(r.id, ZERO)
                self.memcopy(st, np, args[k], L(bv), False, 'byval copy')
                args[k] = np
        self.push(st, name, args, i)
    def indirect(self, st, v, i): return None
    def find_model(self, name):
        if name in self.model_cache: return self.model_cache[name]
        m = self.models.get(name)
        if m is None:
            fn = self.m.funcs.get(name); dem = fn['dem'] if fn else name
            for rx, h, declonly in self.patterns:
                if declonly and fn is not None and not fn.get('decl'): continue
                if rx.search(dem) or rx.search(name): m = h; break
        self.model_cache[name] = m
        return m
    def unknown_call(self, st, name, args, i):
        self.rep.unknown_ext.add(name)
        st.taint('unknown external %s' % short(self.m.funcs[name]['dem'] if name in self.m.funcs else name))
        for a in args:
            if isinstance(a, P) and a.r is not None:
                r = st.mem.get(a.r)
                if r is not None and not r.const and r.live and r.segs is None:
                    w = st.wr(a.r); w.cells = {}; w.inputs = True; w.zero = []
        return self.typed_sym(st, '%%ret(%s)' % name, i['ty']) if i['ty'][0] in 'ip' else UNDEF
    # ------------------------------------------------------------ exploration
    def run(self, states, stop=None):
        """run states until done or stop(st) holds at a control transfer; returns the stopped/done states"""
        work = list(states); out = []
        while work:
            st = work.pop()
            try:
                while True:
                    if st.done is not None: out.append(st); break
                    if stop is not None and stop(st): out.append(st); break
                    f = st.frames[-1]
                    # loop entry?
                    if f.ip_is_block_start():
                        lp = f.fn['loopmap'].get(f.blk)
                        if lp is not None and f.prev not in lp['bs']:
                            key = (len(st.frames), f.blk)
                            if not self.in_loop(st, key, stop):
                                exits = self.loop(st, lp)
                                work.extend(exits)
                                break
                    i = f.fn['blocks'][f.blk][f.ip]
                    if self.rep.insts > self.max_insts: raise Imprecise('instruction budget')
                    if self.deadline is not None and not self.rep.insts & 63 and time.time() > self.deadline: raise TimeUp()
                    if i['op'] in ('call', 'invoke', 'store', 'atomicrmw', 'cmpxchg', 'ret', 'resume'):
                        snap = st.copy() if self.may_fork(i) else None
                    else: snap = None
                    try:
                        self.step(st)
                    except Fork as fk:
                        self.rep.forks += 1
                        base = snap if snap is not None else st
                        for a in fk.alts:
                            s2 = base.copy()
                            if s2.assume(a):
                                s2.trace = s2.trace + ('%s: %s' % (self.loc(s2), alt_str(a)),)
                                work.append(s2)
                        break
            except PathEnd as e:
                self.rep.ends[e.why] = self.rep.ends.get(e.why, 0) + 1
            except Imprecise as e:
                self.rep.und('path', e.why + ' at ' + self.loc(st))
            except (KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError) as e:
                # a model met a value of a shape it does not know: this path stays undecided, the others go on
                self.rep.und('engine', '%s %s at %s' % (type(e).__name__, str(e)[:80], self.loc(st)))
            if len(work) > self.max_paths:
                self.rep.und('path', 'path budget'); break
        return out
    def may_fork(self, i):
        if i['op'] in ('call', 'invoke'):
            c = i['callee']
            if c[0] == 'f':
                if self.find_model(c[1]) is not None: return True
                fn = self.m.funcs.get(c[1])
                return any(i['byval']) or fn is None or bool(fn.get('decl'))
            return True
        return True
    def in_loop(self, st, key, stop): return False
    # ------------------------------------------------------------ loops
    def iterate(self, st, lp):
        """from a state at the loop header (phis done): (back states, exit states)"""
        d = len(st.frames); bs = lp['bs']; h = lp['h']
        fresh_flag = [True]
        def stop(s):
            n = len(s.frames)
            if n < d: return True
            if n > d: return False
            f = s.frames[-1]
            if f.blk not in bs: return True
            if f.blk == h and f.ip_is_block_start() and f.prev in bs: return True
            return False
        # leave the header position without triggering stop/loop entry again
        st = st.copy()
        f = st.frames[-1]
        f.prev = -1
        res = self.run_from_header([st], stop, (d, h))
        back = []; exits = []
        for s in res:
            if s.done is None and len(s.frames) == d and s.frames[-1].blk == h: back.append(s)
            else: exits.append(s)
        return back, exits
    def run_from_header(self, states, stop, key):
        old = self.in_loop
        first = {id(s) for s in states}
        # mark: header entered with prev == -1 is inside the loop being iterated
        self.in_loop = lambda s, k, stp: (k == key and s.frames[-1].prev == -1) or False
        try: return self.run(states, stop)
        finally: self.in_loop = old
    max_rec = 6  # nested activations of one function that are followed
    small_loops = 0  # loops that end within this many iterations on every path are followed exactly
    small_width = 24 # ... as long as no more than this many partitions take the back edge
    unroll = (); unroll_depth = 6; unroll_width = 300
    def unrolled(self, st0, lp):
        """exact exploration of the first iterations only (used to confirm an obligation the invariant could not decide)"""
        front = [st0]; out = []
        for j in range(self.unroll_depth):
            nb = []
            for s in front:
                b, x = self.iterate(s, lp); out += x
                nb += [z for z in b if not z.taints]
            front = nb[:self.unroll_width]
            if not front: break
        return out
    def loop(self, st0, lp):
        name = '%s:bb%d' % (short(st0.frames[-1].fn['dem']), lp['h'])
        if name in self.unroll: return self.unrolled(st0, lp)
        return LoopSolver(self, st0, lp, name).solve()

def _bs(self):
    """true when the frame stands at the first non-phi instruction of its block"""
    b = self.fn['blocks'][self.blk]
    k = self.ip
    if k == 0: return True
    return b[k - 1]['op'] == 'phi'
Frame.ip_is_block_start = _bs

SKIP = object()
def tsize(t):
    if t[0] == 'i': return max(1, (t[1] + 7) // 8)
    if t[0] == 'p': return 8
    if t[0] == 'd': return t[1] // 8
    if t[0] == 's': return t[1]
    return t[1] // 8
def short(dem):
    d = re.sub(r'vl::(collections::)?', '', dem)
    return d if len(d) < 120 else d[:117] + '...'
def same_content(st, a, b):
    if a == b: return True
    if a[0] != b[0]: return False
    if a[0] == 'elt': return a[1] == b[1] and st.facts.entails_eq(a[2] - b[2])
    if a[0] == 'obj': return a[2] == b[2] and same_content(st, a[1], b[1])
    if a[0] == 'val': return isinstance(a[1], L) and isinstance(b[1], L) and (a[2] == b[2] or (a[1] == ZERO and b[1] == ZERO)) and st.facts.entails_eq(a[1] - b[1])
    if a[0] == 'app':
        return a[1] == b[1] and len(a[2]) == len(b[2]) and all((same_content(st, x, y) if isinstance(x, tuple) and isinstance(y, tuple) else x == y) for x, y in zip(a[2], b[2]))
    return False
def lit_read(X):
    def read(eng, st, off, sz):
        q = eng.seqs[X]
        if off.const() and sz == q['esz'] and off.c % sz == 0: return L(q['table'].get(off.c, 0))
        st.taint('constant table at a symbolic index')
    return read

BASE_MODELS = {}
BASE_PATTERNS = []
def model(*names):
    def d(f):
        for n in names: BASE_MODELS[n] = f
        return f
    return d
def pattern(rx, declonly=True):
    def d(f):
        BASE_PATTERNS.append((re.compile(rx), f, declonly)); return f
    return d

from loops import LoopSolver
import models
