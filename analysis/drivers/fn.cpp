// Func and Event
#include "vdrv.h"
#include "Primitives/Function.h"
#include "Primitives/Event.h"
using namespace vl;
#define DRV extern "C" void
template<typename T> static T&& mv(T& t) { return static_cast<T&&>(t); }
template<typename T> static T& obj(int t) { return *(T*)v_obj(t, sizeof(T)); }
#define LEGAL(c) v_require((c), 1)
#define RESULT(c) v_require((c), 2)
#define FIN } v_final(); }
static vi add(vi a, vi b) { return 3 * a + b; }
static vi take(E e, E2 f) { v_val(&e, sizeof(E), 1); v_val(&f, sizeof(E2), 2); return 7; }
static E& ref(E& e) { return e; }
static vi cref(const E& e, vi x) { v_val(&e, sizeof(E), 1); RESULT(&e == &obj<E>(1)); return x; }
static E ret(E e) { return e; }
static int calls = 0;
static void proc(E& e, vi x) { calls++; }
struct Obj { vi k; vi m(vi x, vi y) { return k * 0 + 5 * x - y + k; } void p(E& e, vi& n) { n = n + k; v_val(&e, sizeof(E), 1); } };
// functor with an opaque capture
struct Fun { E cap; vi k; vi operator()(vi x) const { v_val(&cap, sizeof(E), 1); return x + k; } };
DRV drv_F_static() { { Func<vi(vi, vi)> f(&add); RESULT((bool)f); vi a = v_int(1), b = v_int(2); RESULT(f(a, b) == 3 * a + b); Func<vi(E, E2)> g(&take); RESULT(g(obj<E>(1), obj<E2>(2)) == 7); v_val(&obj<E>(1), sizeof(E), 1); v_val(&obj<E2>(2), sizeof(E2), 2); RESULT(g(mv(obj<E>(1)), mv(obj<E2>(2))) == 7); FIN
DRV drv_F_refs() { { Func<E&(E&)> f(&ref); RESULT(&f(obj<E>(1)) == &obj<E>(1)); Func<vi(const E&, vi)> g(&cref); vi x = v_int(1); RESULT(g(obj<E>(1), x) == x); Func<E(E)> h(&ret); E e = h(obj<E>(1)); v_val(&e, sizeof(E), 1); FIN
DRV drv_F_member() { { Obj o; o.k = v_int(3); Func<vi(vi, vi)> f(&o, &Obj::m); vi a = v_int(1), b = v_int(2); RESULT(f(a, b) == 5 * a - b + o.k); Func<void(E&, vi&)> g(&o, &Obj::p); vi n = a; g(obj<E>(1), n); RESULT(n == a + o.k); FIN
DRV drv_F_functor_copy() { { Fun fn{ obj<E>(1), v_int(1) }; vi x = v_int(2); { Func<vi(vi)> f(fn); RESULT((bool)f); RESULT(f(x) == x + fn.k); RESULT(f(x) == x + fn.k); } v_val(&fn.cap, sizeof(E), 1); FIN
DRV drv_F_functor_move() { { Fun fn{ obj<E>(1), v_int(1) }; vi x = v_int(2); Func<vi(vi)> f(mv(fn)); RESULT(f(x) == x + fn.k); FIN
DRV drv_F_lambda() { { vi k = v_int(1), x = v_int(2); vi n = 0; E& e = obj<E>(1); { Func<void(vi)> f = [&n, k, e](vi y) { n += y + k; v_val(&e, sizeof(E), 1); }; f(x); f(x); } RESULT(n == 2 * (x + k)); v_val(&e, sizeof(E), 1); FIN
DRV drv_F_mutable() { { vi n = 0; Func<vi()> f = [n]() mutable { return ++n; }; Func<vi()> g = f; RESULT(f() == 1); RESULT(g() == 2); RESULT(f == g); FIN
DRV drv_F_copy() { { Fun fn{ obj<E>(1), v_int(1) }; vi x = v_int(2); Func<vi(vi)> f(fn), g(f), h; RESULT(f == g); RESULT(!(f != g)); RESULT(f != h); h = g; RESULT(f == h); f = Func<vi(vi)>(); RESULT(!(bool)f); RESULT(f != g); RESULT(g(x) == x + fn.k); g = f; RESULT(!(bool)g); RESULT(h(x) == x + fn.k); Func<vi(vi)>& r = h; h = r; RESULT(h(x) == x + fn.k); FIN
// equal exactly when they share the callee
DRV drv_F_equal() { { Fun fn{ obj<E>(1), v_int(1) }; Func<vi(vi)> f(fn), g(fn), e1, e2; RESULT(f != g); RESULT(!(f == g)); RESULT(e1 == e2); RESULT(!(e1 != e2)); Func<vi(vi)> h(g); RESULT(h == g); RESULT(h != f); g = f; RESULT(g == f); RESULT(h != g); FIN
DRV drv_F_move() { { Fun fn{ obj<E>(1), v_int(1) }; vi x = v_int(2); Func<vi(vi)> f(fn); Func<vi(vi)> g(mv(f)); RESULT(g(x) == x + fn.k); Func<vi(vi)> h([](vi y) { return y; }); h = mv(g); RESULT(h(x) == x + fn.k); FIN
DRV drv_F_empty() { { Func<vi(vi)> f; RESULT(!(bool)f); Func<vi(vi)> g(f); RESULT(!(bool)g); Func<long long(int)> w(f); RESULT(!(bool)w); const Func<vi(vi)>& c = f; Func<long long(int)> z(c); RESULT(!(bool)z); Func<long long(int)> y{ Func<vi(vi)>() }; RESULT(!(bool)y); FIN
DRV drv_F_convert() { { Func<vi(vi)> f([](vi y) { return y + 1; }); Func<long long(int)> w(f); RESULT((bool)w); int x = (int)v_ch(1, 16); RESULT(w(x) == x + 1); f = Func<vi(vi)>(); RESULT(w(x) == x + 1); FIN
static long long widen(long long x) { return x + 2; }
DRV drv_F_pointer_convert() { { Func<int(int)> f(&widen); RESULT((bool)f); int x = (int)v_ch(1, 16); RESULT(f(x) == x + 2); Func<void(int)> g(&widen); RESULT((bool)g); g(x); Func<int(int)> h(f); RESULT(h == f); RESULT(h(x) == x + 2); FIN
DRV drv_F_void() { { vi n = 0; Func<void(vi)> f([&n](vi y) { n = y; return 5; }); vi x = v_int(1); f(x); RESULT(n == x); FIN
// the handle is replaced while its callback runs
DRV drv_F_replace() { { Func<vi()> f; vi k = v_int(1); f = [&f, k, e = obj<E>(1)]() { Func<vi()> keep = f; f = Func<vi()>(); v_val(&e, sizeof(E), 1); return k; }; RESULT(f() == k); RESULT(!(bool)f); FIN

// ---- Event
struct Rec { int n[3]; vi last[3]; };
#define REC Rec r; r.n[0] = r.n[1] = r.n[2] = 0
#define H(K) Func<void(vi)>([&r](vi x) { r.n[K]++; r.last[K] = x; })
DRV drv_V_invoke() { { REC; Event<void(vi)> e; vi x = v_int(1); e(x); auto a = e.Add(H(0)); RESULT(a->IsAttached()); e(x); RESULT(r.n[0] == 1); RESULT(r.last[0] == x); auto b = e.Add(H(1)); RESULT(b->IsAttached()); RESULT(a->IsAttached()); e(x + 1); RESULT(r.n[0] == 2); RESULT(r.n[1] == 1); RESULT(r.last[0] == x + 1); RESULT(r.last[1] == x + 1); auto c = e.Add(H(2)); e(x); RESULT(r.n[0] == 3); RESULT(r.n[1] == 2); RESULT(r.n[2] == 1); FIN
DRV drv_V_remove() { { REC; Event<void(vi)> e; vi x = v_int(1); auto a = e.Add(H(0)), b = e.Add(H(1)), c = e.Add(H(2)); int k = v_bool(1) ? 0 : v_bool(2) ? 1 : 2; auto h = k == 0 ? a : k == 1 ? b : c;
	RESULT(e.Remove(h)); RESULT(!h->IsAttached()); RESULT(a->IsAttached() == (k != 0)); RESULT(b->IsAttached() == (k != 1)); RESULT(c->IsAttached() == (k != 2)); e(x); RESULT(r.n[0] == (k != 0)); RESULT(r.n[1] == (k != 1)); RESULT(r.n[2] == (k != 2)); RESULT(!e.Remove(h)); e(x); RESULT(r.n[0] == 2 * (k != 0)); RESULT(r.n[1] == 2 * (k != 1)); RESULT(r.n[2] == 2 * (k != 2)); FIN
DRV drv_V_remove_foreign() { { REC; Event<void(vi)> e, f; auto a = e.Add(H(0)), b = f.Add(H(1)); RESULT(!e.Remove(b)); RESULT(b->IsAttached()); RESULT(!e.Remove(nullptr)); vi x = v_int(1); e(x); f(x); RESULT(r.n[0] == 1); RESULT(r.n[1] == 1); FIN
DRV drv_V_same_func() { { REC; Event<void(vi)> e; auto f = H(0); auto a = e.Add(f), b = e.Add(f); vi x = v_int(1); e(x); RESULT(r.n[0] == 2); RESULT(e.Remove(a)); e(x); RESULT(r.n[0] == 3); RESULT(b->IsAttached()); FIN
DRV drv_V_args() { { int n = 0; Event<void(E)> e; auto f = Func<void(E)>([&n](E y) { n++; v_val(&y, sizeof(E), 1); }); e.Add(f); e.Add(f); if (v_bool(1)) { e(obj<E>(1)); v_val(&obj<E>(1), sizeof(E), 1); } else e(mv(obj<E>(1))); RESULT(n == 2); FIN
DRV drv_V_args_ref() { { int n = 0; Event<void(E&, const E2&)> e; auto f = Func<void(E&, const E2&)>([&n](E& y, const E2& z) { n++; RESULT(&y == &obj<E>(1)); RESULT(&z == &obj<E2>(2)); }); e.Add(f); e.Add(f); e(obj<E>(1), obj<E2>(2)); RESULT(n == 2); FIN
DRV drv_V_remove_self() { { REC; Event<void(vi)> e; Ptr<EventHandler> a, b; a = e.Add(Func<void(vi)>([&](vi x) { r.n[0]++; RESULT(e.Remove(a)); })); b = e.Add(H(1)); vi x = v_int(1); e(x); RESULT(r.n[0] == 1); RESULT(r.n[1] == 1); e(x); RESULT(r.n[0] == 1); RESULT(r.n[1] == 2); FIN
DRV drv_V_add_inside() { { REC; Event<void(vi)> e; e.Add(Func<void(vi)>([&](vi x) { r.n[0]++; if (r.n[0] == 1) e.Add(H(2)); })); e.Add(H(1)); vi x = v_int(1); e(x); RESULT(r.n[0] == 1); RESULT(r.n[1] == 1); e(x); RESULT(r.n[0] == 2); RESULT(r.n[1] == 2); RESULT(r.n[2] >= 1); FIN
DRV drv_V_remove_other() { { REC; Event<void(vi)> e; Ptr<EventHandler> a, b; a = e.Add(Func<void(vi)>([&](vi x) { r.n[0]++; if (b->IsAttached()) e.Remove(b); })); b = e.Add(H(1)); vi x = v_int(1); e(x); RESULT(r.n[0] == 1); e(x); RESULT(r.n[0] == 2); RESULT(r.n[1] <= 1); RESULT(!b->IsAttached()); FIN
static void v_static(vi x) { RESULT(x == v_int(1)); }
struct Lis { vi k; vi got; void on(vi x) { got = x + k; } };
// whoever detaches whom while running, in whatever order: a handler is called only while attached, the others exactly once
struct Ins { Event<void(vi)>* e; Ptr<EventHandler>* h; int* n; int i, who, a, b; void operator()(vi) const { RESULT(h[i]->IsAttached()); n[i]++; if (i == who) { if (h[a]->IsAttached()) RESULT(e->Remove(h[a])); if (b < 3 && h[b]->IsAttached()) RESULT(e->Remove(h[b])); } } };
DRV drv_V_detach_inside() { { Event<void(vi)> e; Ptr<EventHandler> h[3]; int n[3] = { 0, 0, 0 }; int who = v_choose(1, 3), a = v_choose(2, 3), b = v_choose(3, 4); v_assume(a != b); for (int i = 0; i < 3; i++) h[i] = e.Add(Func<void(vi)>(Ins{ &e, h, n, i, who, a, b })); vi x = v_int(1); e(x);
	for (int i = 0; i < 3; i++) { bool gone = i == a || i == b; RESULT(gone && i != who ? n[i] <= 1 : n[i] == 1); RESULT(h[i]->IsAttached() == !gone); } int m[3]; for (int i = 0; i < 3; i++) m[i] = n[i]; e(x); for (int i = 0; i < 3; i++) RESULT(n[i] == m[i] + (i == a || i == b ? 0 : 1)); FIN
DRV drv_V_add_forms() { { Event<void(vi)> e; Lis l; l.k = v_int(2); l.got = 0; auto a = e.Add(&v_static); auto b = e.Add(&l, &Lis::on); vi x = v_int(1); e(x); RESULT(l.got == x + l.k); RESULT(e.Remove(a)); RESULT(e.Remove(b)); l.got = 0; e(x); RESULT(l.got == 0); FIN
DRV drv_V_outlive() { { Ptr<EventHandler> a; { REC; Event<void(vi)> e; a = e.Add(H(0)); } a = nullptr; FIN
#ifdef BIG
// many handlers: all are called, once each, while attached; any of them can be removed
struct Many { int n[BIG]; vi last[BIG]; };
struct Hk { Many* m; int k; void operator()(vi x) const { m->n[k]++; m->last[k] = x; } };
#define MANY v_addr(v_choose(3, 3)); Many m; Event<void(vi)> e; Ptr<EventHandler> h[BIG]; for (int i = 0; i < BIG; i++) m.n[i] = 0; for (int i = 0; i < BIG; i++) h[i] = e.Add(Func<void(vi)>(Hk{ &m, i })); vi x = v_int(1)
DRV drv_big_invoke() { { MANY; e(x); for (int i = 0; i < BIG; i++) { RESULT(m.n[i] == 1); RESULT(m.last[i] == x); RESULT(h[i]->IsAttached()); } e(x + 1); for (int i = 0; i < BIG; i++) { RESULT(m.n[i] == 2); RESULT(m.last[i] == x + 1); } FIN
DRV drv_big_remove() { { MANY; int w = v_choose(2, 3), k = w == 0 ? 0 : w == 1 ? BIG / 2 : BIG - 1; RESULT(e.Remove(h[k])); RESULT(!e.Remove(h[k])); e(x); for (int i = 0; i < BIG; i++) { RESULT(m.n[i] == (i != k)); RESULT(h[i]->IsAttached() == (i != k)); } FIN
DRV drv_big_remove_all() { { MANY; bool up = v_bool(2); for (int j = 0; j < BIG; j++) { int k = up ? j : BIG - 1 - j; RESULT(e.Remove(h[k])); RESULT(!h[k]->IsAttached()); } e(x); for (int i = 0; i < BIG; i++) RESULT(m.n[i] == 0); FIN
DRV drv_big_remove_half() { { MANY; for (int i = 0; i < BIG; i += 2) RESULT(e.Remove(h[i])); e(x); for (int i = 0; i < BIG; i++) { RESULT(m.n[i] == i % 2); RESULT(h[i]->IsAttached() == (i % 2 == 1)); } FIN
DRV drv_big_remove_inside() { { MANY; auto r = e.Add(Func<void(vi)>([&](vi) { for (int i = 0; i < BIG; i++) if (h[i]->IsAttached()) e.Remove(h[i]); })); e(x); e(x); for (int i = 0; i < BIG; i++) { RESULT(m.n[i] <= 1); RESULT(!h[i]->IsAttached()); } RESULT(r->IsAttached()); FIN
DRV drv_big_add_inside() { { MANY; bool once = true; e.Add(Func<void(vi)>([&](vi) { if (once) { once = false; for (int i = 0; i < BIG; i++) e.Add(Func<void(vi)>(Hk{ &m, i })); } })); e(x); for (int i = 0; i < BIG; i++) RESULT(m.n[i] == 1); e(x); for (int i = 0; i < BIG; i++) RESULT(m.n[i] == 3); FIN
DRV drv_big_destroy() { { MANY; FIN
#endif
