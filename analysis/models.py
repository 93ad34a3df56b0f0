"""Models of external functions (C library, C++ runtime) used by every driver."""
import engine
from engine import *
from linear import *

@model('malloc')
def m_malloc(e, st, name, a, i): return e.alloc(st, a[0], 'malloc')
@model('_Znwm', '_Znam')
def m_new(e, st, name, a, i): return e.alloc(st, a[0], 'new[]' if name == '_Znam' else 'new')
@model('free', '_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm')
def m_free(e, st, name, a, i):
    e.free(st, a[0], 'free' if name == 'free' else 'delete'); return None
@pattern(r'^llvm\.memcpy', False)
def m_memcpy(e, st, name, a, i): e.memcopy(st, a[0], a[1], a[2], False, 'memcpy'); return None
@pattern(r'^llvm\.memmove', False)
def m_memmove(e, st, name, a, i): e.memcopy(st, a[0], a[1], a[2], True, 'memmove'); return None
@pattern(r'^llvm\.memset', False)
def m_memset(e, st, name, a, i): e.memset(st, a[0], a[1], a[2]); return None
@model('memcpy')
def m_memcpy2(e, st, name, a, i): e.memcopy(st, a[0], a[1], a[2], False, 'memcpy'); return a[0]
@model('memmove')
def m_memmove2(e, st, name, a, i): e.memcopy(st, a[0], a[1], a[2], True, 'memmove'); return a[0]
@pattern(r'^llvm\.(lifetime|assume|dbg|stackrestore|experimental\.noalias)', False)
def m_nop(e, st, name, a, i): return None
@pattern(r'^llvm\.stacksave', False)
def m_ss(e, st, name, a, i): return NULL
@pattern(r'^llvm\.expect', False)
def m_expect(e, st, name, a, i): return a[0]
@pattern(r'^llvm\.eh\.typeid\.for', False)
def m_tid(e, st, name, a, i):
    p = a[0]
    return L(e.typeid(p.r[2:] if p.r else '...'))
@pattern(r'^llvm\.(s|u)(max|min)\.', False)
def m_minmax(e, st, name, a, i):
    mx = 'max' in name
    if name.startswith('llvm.u') and not (st.facts.entails_le(-a[0]) and st.facts.entails_le(-a[1])): raise Imprecise('unsigned min/max')
    le = st.le(a[0], a[1])
    return a[1] if le == mx else a[0]
@pattern(r'^llvm\.trap', False)
def m_trap(e, st, name, a, i): raise PathEnd('trap')
@model('__cxa_allocate_exception')
def m_allocexc(e, st, name, a, i):
    r = e.fresh_region(st, 'exc', a[0], 'exception'); return P(r.id, ZERO)
@model('__cxa_free_exception')
def m_freeexc(e, st, name, a, i): return None
@model('__cxa_throw')
def m_throw(e, st, name, a, i):
    ti = a[1].r[2:] if isinstance(a[1], P) and a[1].r else None
    e.throw(st, ti, a[0]); return SKIP
@model('__cxa_rethrow')
def m_rethrow(e, st, name, a, i):
    ex = st.caught[-1]; st.exc = ex
    e.unwind(st); return SKIP
@model('__cxa_begin_catch')
def m_begin(e, st, name, a, i):
    st.caught = st.caught + (st.exc,); return a[0]
@model('__cxa_get_exception_ptr')
def m_getexc(e, st, name, a, i): return a[0]
@model('__cxa_end_catch')
def m_end(e, st, name, a, i):
    st.caught = st.caught[:-1]; return None
@model('_ZSt9terminatev', '__clang_call_terminate', 'abort')
def m_term(e, st, name, a, i):
    h = getattr(e, 'on_terminate', None)
    if h: h(e, st)
    raise PathEnd('terminate')
@pattern(r'^vl::Error::Error\(wchar_t const\*\)$')
def m_error(e, st, name, a, i): return None
@model('__cxa_pure_virtual')
def m_pv(e, st, name, a, i): e.fail(st, 'pure-virtual', 'pure virtual call')
@model('__cxa_guard_acquire')
def m_ga(e, st, name, a, i): raise Imprecise('static local')

@pattern(r'^llvm\.[us]mul\.with\.overflow', False)
def m_mulov(e, st, name, a, i): return [e.binop(st, 'mul', a[0], a[1], 64, {}), ZERO]
@pattern(r'^llvm\.[us]add\.with\.overflow', False)
def m_addov(e, st, name, a, i): return [a[0] + a[1], ZERO]
