"""Driver intrinsics (v_*) and opaque element types."""
import re
from engine import *
from engine import WIDE
from linear import *

H = {}
PATS = []
def hook(*names):
    def d(f):
        for n in names: H[n] = f
        return f
    return d
def hpat(rx):
    def d(f): PATS.append((re.compile(rx), f, True)); return f
    return d

@hook('v_int')
def v_int(e, st, name, a, i):
    t = 'i%d' % a[0].c
    return L(0, {SY.intern(('vint', t), t): 1})
@hook('v_arg')
def v_arg(e, st, name, a, i):
    """an arbitrary 64-bit integer handed in by the caller: sums and differences with it wrap around as the machine's do"""
    t = 'i%d' % a[0].c; s = SY.intern(('vint', t), t); WIDE.add(s)
    return L(0, {s: 1})
@hook('v_ch')
def v_ch(e, st, name, a, i):
    """arbitrary value of a type with a[1] bits (signed when a[2])"""
    s = SY.intern(('vch', a[0].c), 'c%d' % a[0].c); x = L(0, {s: 1})
    if ('rng', s) not in st.elts:
        st.elts[('rng', s)] = 1; b = a[1].c
        lo, hi = (-2 ** (b - 1), 2 ** (b - 1) - 1)
        st.facts.add_le(x - hi); st.facts.add_le(lo - x)
    return x
@hook('v_bool')
def v_bool(e, st, name, a, i): return ONE if st.bool('b%d' % a[0].c) else ZERO
@hook('v_assume')
def v_assume(e, st, name, a, i):
    if not e.truth(st, a[0]): raise PathEnd('assume')
    return None
@hook('v_ok')
def v_ok(e, st, name, a, i): return None

@hook('v_freeze')
def v_freeze(e, st, name, a, i):
    """from here on the given object and everything on the heap may be read by other threads"""
    st.g['frozen'] = frozenset(r for r, x in st.mem.items() if x.live and x.kind == 'heap') | frozenset(p.r for p in a if isinstance(p, P) and p.r is not None)
    e.rep.checks['freeze'] = e.rep.checks.get('freeze', 0) + 1
@hook('v_moved_ok')
def v_moved_ok(e, st, name, a, i):
    """the caller moves an element out itself: carrying the emptied element along is right"""
    st.g['moved-ok'] = True
@hook('v_thaw')
def v_thaw(e, st, name, a, i):
    st.g['frozen'] = frozenset(); e.rep.ok('shared-write')
@hook('v_static_init')
def v_static_init(e, st, name, a, i):
    """the dynamic initialisers of the translation unit's global objects"""
    fs = [f for f in e.m.funcs if f.startswith('_GLOBAL__sub_I_') and 'blocks' in e.m.funcs[f]]
    if not fs: return None
    if len(fs) > 1: raise Imprecise('several initialisation functions')
    e.push(st, fs[0], [], i); return SKIP
# ---- opaque objects: size by class
ESZ = {'E': 24, 'O': 16, 'E2': 40, 'V': 32, 'K': 16, 'F': 8, 'Z': 48}
def reg_opaque(cls, size):
    ESZ[cls] = size
OPAQUE = r'(E2|E|O|F|K|V|Z|Err)'

def tok(e, what):
    return ('tok', what)
def get_live(e, st, p, esz, what):
    t = e.obj_get(st, p, esz)
    if t is None: e.fail(st, 'dead-object', '%s on storage that holds no live element' % what)
    return t
def read_val(e, st, p, esz, what):
    t = get_live(e, st, p, esz, what)
    if t == ('tok', 'moved') and not st.g.get('moved-ok'): e.violation(st, 'moved-read', '%s reads an element whose value was already moved away' % what)
    return t
@hpat(r'^' + OPAQUE + r'::\1\(\)$')
def c_def(e, st, name, a, i):
    cls = cls_of(e, name); esz = ESZ[cls]
    t = e.obj_get(st, a[0], esz)
    if t is not None: e.violation(st, 'overwrite-live', 'default construction over a live element (previous element never destroyed)')
    e.obj_set(st, a[0], esz, ('tok', 'default'))
    e.rep.ok('construct')
    return None
def cls_of(e, name):
    return re.match(OPAQUE + '::', e.m.funcs[name]['dem']).group(1)
@hpat(r'^' + OPAQUE + r'::\1\(\1 const&\)$')
def c_copy(e, st, name, a, i):
    esz = ESZ[cls_of(e, name)]
    t = read_val(e, st, a[1], esz, 'copy construction')
    if e.obj_get(st, a[0], esz) is not None: e.violation(st, 'overwrite-live', 'copy construction over a live element (previous element never destroyed)')
    e.obj_set(st, a[0], esz, t); e.rep.ok('construct')
    return None
@hpat(r'^' + OPAQUE + r'::\1\(\1&&\)$')
def c_move(e, st, name, a, i):
    esz = ESZ[cls_of(e, name)]
    t = read_val(e, st, a[1], esz, 'move construction')
    if e.obj_get(st, a[0], esz) is not None: e.violation(st, 'overwrite-live', 'move construction over a live element (previous element never destroyed)')
    e.obj_set(st, a[1], esz, ('tok', 'moved'))
    e.obj_set(st, a[0], esz, t); e.rep.ok('construct')
    return None
@hpat(r'^' + OPAQUE + r'::operator=\(\1 const&\)$')
def c_asg(e, st, name, a, i):
    esz = ESZ[cls_of(e, name)]
    t = read_val(e, st, a[1], esz, 'copy assignment')
    get_live(e, st, a[0], esz, 'assignment target')
    e.obj_set(st, a[0], esz, t); e.rep.ok('assign')
    return a[0]
@hpat(r'^' + OPAQUE + r'::operator=\(\1&&\)$')
def c_masg(e, st, name, a, i):
    esz = ESZ[cls_of(e, name)]
    t = read_val(e, st, a[1], esz, 'move assignment')
    get_live(e, st, a[0], esz, 'assignment target')
    e.obj_set(st, a[1], esz, ('tok', 'moved'))
    same = isinstance(a[0], P) and isinstance(a[1], P) and a[0].r == a[1].r and st.eq(a[0].o, a[1].o)
    if not same: e.obj_set(st, a[0], esz, t)
    e.rep.ok('assign')
    return a[0]
@hpat(r'^' + OPAQUE + r'::~\1\(\)$')
def c_dtor(e, st, name, a, i):
    esz = ESZ[cls_of(e, name)]
    t = e.obj_get(st, a[0], esz)
    if t is None: e.fail(st, 'double-destroy', 'destructor on storage that holds no live element')
    e.obj_set(st, a[0], esz, None); e.rep.ok('destroy')
    return None
def tkey(t):
    return repr(t)
@hpat(r'^' + OPAQUE + r'::operator==\(.*\) const$')
def c_eq(e, st, name, a, i):
    esz = ESZ[cls_of(e, name)]
    x = read_val(e, st, a[0], esz, 'comparison'); y = read_val(e, st, a[1], esz, 'comparison')
    e.rep.ok('compare')
    return ONE if e.cmp_terms(st, x, y, 'eq') == 0 else ZERO
@hpat(r'^' + OPAQUE + r'::operator<=>\(.*\) const$')
def c_cmp(e, st, name, a, i):
    esz = ESZ[cls_of(e, name)]
    x = read_val(e, st, a[0], esz, 'comparison'); y = read_val(e, st, a[1], esz, 'comparison')
    e.rep.ok('compare')
    return L(e.cmp_terms(st, x, y, '<=>'))
def cmp_terms(self, st, x, y, kind):
    """-1/0/1 ; consistent per pair of terms"""
    if x == y: return 0
    rx, ry = repr(x), repr(y)
    if kind == 'eq':
        k = ('eq', *sorted((rx, ry)))
        c = ('cmp', *sorted((rx, ry)))
        if c in st.bools: return 0 if st.bools[c] == 0 else 1
        return 0 if st.bool(k) else 1
    k = ('cmp', rx, ry) if rx < ry else ('cmp', ry, rx)
    v = st.bools.get(k)
    if v is None: raise Fork([('bool', k, -1), ('bool', k, 0), ('bool', k, 1)])
    return v if rx < ry else -v
Engine.cmp_terms = cmp_terms

def bases_of(e, ti):
    """{typeinfo: [(offset, virtual?)]} of a class and all its bases, or None when its typeinfo is not visible"""
    g = e.m.globals.get(ti)
    if g is None or g.get('init') is None: return None
    out = {ti: [0]}
    cells = {o: op for o, sz, op in g['init']}
    kind = cells.get(0, ['?', ''])[1]
    sub = []
    if '__si_class_type_info' in kind: sub = [(cells[16][1], 0)]
    elif '__vmi_class_type_info' in kind:
        n = (cells.get(20) or cells.get(16))[1]
        for k in range(n):
            b = cells.get(24 + 16 * k); fl = cells.get(32 + 16 * k)
            if b is None or fl is None or fl[1] & 1: return None
            sub.append((b[1], fl[1] >> 8))
    elif '__class_type_info' not in kind: return None
    for b, off in sub:
        r = bases_of(e, b)
        if r is None: r = {b: [0]}
        for t, os in r.items(): out.setdefault(t, []).extend(o + off for o in os)
    return out
@hook('__dynamic_cast')
def m_dyn(e, st, name, a, i):
    if isinstance(a[0], P) and a[0].r is None: return NULL
    if isinstance(a[0], P) and a[0].o.const() and a[0].r in st.mem:
        c = st.mem[a[0].r].cells.get(a[0].o.c)
        if c and isinstance(c[1], P) and c[1].r and c[1].r.startswith('g:_ZTV'):
            vt = c[1].r[2:]; dyn = '_ZTI' + vt[4:]
            g = e.m.globals.get(vt)
            if g and g.get('init') and c[1].o.const():
                top = {o: op for o, sz, op in g['init']}.get(c[1].o.c - 16)
                offtop = None if top is None else (0 if top[0] in ('n', 'i') and (len(top) < 2 or top[1] == 0) else top[1] if top[0] in ('i', 'np') else None)
                b = bases_of(e, dyn)
                if offtop is not None and b is not None:
                    t = b.get(a[2].r[2:])
                    if t is None: return NULL
                    if len(t) == 1: return P(a[0].r, a[0].o + offtop + t[0])
    return a[0] if st.bool(('dyncast', a[1].r, a[2].r)) else NULL
