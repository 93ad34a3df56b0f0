// Nullable, Variant, Pair, Tuple
#include "vdrv.h"
#include "Primitives/Nullable.h"
#include "Primitives/Variant.h"
#include "Primitives/Tuple.h"
#include "Collections/Pair.h"
using namespace vl;
using namespace vl::collections;
#define DRV extern "C" void
template<typename T> static T&& mv(T& t) { return static_cast<T&&>(t); }
template<typename T> static T& obj(int t) { return *(T*)v_obj(t, sizeof(T)); }
#define LEGAL(c) v_require((c), 1)
#define RESULT(c) v_require((c), 2)
#define DONE } v_final();
static int sgn(std::strong_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }
template<typename T> struct N
{
	typedef Nullable<T> NT;
	// holds object `tag`, or null
	static void is(const NT& n, bool has, int tag)
	{
		RESULT((bool)n == has);
		try { const T& v = n.Value(); LEGAL(has); v_val(&v, sizeof(T), tag); } catch (const Error&) { LEGAL(!has); }
	}
	static void put(NT& n, bool has, int tag) { if (has) n = mv(obj<T>(tag)); }
	static void ctor() { { NT n; is(n, false, 0); NT m(obj<T>(1)); is(m, true, 1); v_val(&obj<T>(1), sizeof(T), 1); NT k(mv(obj<T>(2))); is(k, true, 2); DONE }
	static void copy_ctor() { { bool h = v_bool(1); NT n; put(n, h, 1); NT m(n); is(m, h, 1); is(n, h, 1); n.Reset(); is(n, false, 0); is(m, h, 1); DONE }
	static void move_ctor() { { bool h = v_bool(1); NT n; put(n, h, 1); NT m(mv(n)); is(m, h, 1); is(n, false, 0); DONE }
	static void copy_assign() { { bool h = v_bool(1), g = v_bool(2); NT n, m; put(n, h, 1); put(m, g, 2); RESULT(&(m = n) == &m); is(m, h, 1); is(n, h, 1); DONE }
	static void move_assign() { { bool h = v_bool(1), g = v_bool(2); NT n, m; put(n, h, 1); put(m, g, 2); RESULT(&(m = mv(n)) == &m); is(m, h, 1); is(n, false, 0); DONE }
	static void copy_value() { { bool g = v_bool(2); NT m; put(m, g, 2); RESULT(&(m = obj<T>(1)) == &m); is(m, true, 1); v_val(&obj<T>(1), sizeof(T), 1); DONE }
	static void move_value() { { bool g = v_bool(2); NT m; put(m, g, 2); RESULT(&(m = mv(obj<T>(1))) == &m); is(m, true, 1); DONE }
	static void self_copy() { { bool h = v_bool(1); NT n; put(n, h, 1); NT& r = n; n = r; is(n, h, 1); DONE }
	static void self_move() { { bool h = v_bool(1); NT n; put(n, h, 1); NT& r = n; n = mv(r); is(n, h, 1); DONE }
	static void own_value() { { NT n; put(n, true, 1); n = n.Value(); is(n, true, 1); DONE }
	static void reset() { { bool h = v_bool(1); NT n; put(n, h, 1); n.Reset(); is(n, false, 0); n.Reset(); is(n, false, 0); put(n, true, 2); is(n, true, 2); DONE }
	static void compare() { { bool h = v_bool(1), g = v_bool(2); NT n, m; put(n, h, 1); put(m, g, 2);
		int x = h && g ? v_cmp(&n.Value(), &m.Value(), sizeof(T)) : h ? 1 : g ? -1 : 0;
		RESULT(sgn(n <=> m) == x); RESULT((n == m) == (x == 0)); RESULT((n != m) == (x != 0)); RESULT((n < m) == (x < 0)); is(n, h, 1); is(m, g, 2); DONE }
	static void mo_ctor() { { NT n; NT m(mv(obj<T>(1))); is(m, true, 1); DONE }
};
#define NA(T, X) DRV drv_N##T##_##X() { N<T>::X(); }
#define NALL(T) NA(T, ctor) NA(T, copy_ctor) NA(T, move_ctor) NA(T, copy_assign) NA(T, move_assign) NA(T, copy_value) NA(T, move_value) NA(T, self_copy) NA(T, self_move) NA(T, own_value) NA(T, reset) NA(T, compare)
NALL(E) NALL(V)
NA(K, mo_ctor) NA(K, move_ctor) NA(K, move_assign) NA(K, move_value) NA(K, self_move) NA(K, reset)

// a value that owns the nullable it is assigned from: with assignment, and without
template<bool A> struct NOwn
{
	E v; Nullable<NOwn<A>>* p = nullptr;
	NOwn(const E& e) : v(e) {}
	NOwn(const NOwn<A>& o) : v(o.v), p(o.p ? new Nullable<NOwn<A>>(*o.p) : nullptr) {}
	NOwn(NOwn<A>&& o) : v(mv(o.v)), p(o.p) { o.p = nullptr; }
	NOwn<A>& operator=(NOwn<A>&& o) requires(A) { v = mv(o.v); auto q = p; p = o.p; o.p = nullptr; delete q; return *this; }
	NOwn<A>& operator=(const NOwn<A>& o) requires(A) { NOwn<A> c(o); return *this = mv(c); }
	~NOwn() { delete p; }
};
template<bool A> static void nowned(bool copy)
{
	typedef Nullable<NOwn<A>> NT; NOwn<A> out(obj<E>(1)); out.p = new NT(NOwn<A>(obj<E>(2))); bool deep = v_bool(5); if (deep) const_cast<NOwn<A>&>(out.p->Value()).p = new NT(NOwn<A>(obj<E>(3)));
	NT n(mv(out)); NT& in = *n.Value().p; if (copy) { const NT& c = in; n = c; } else n = mv(in);
	RESULT((bool)n); v_val(&n.Value().v, sizeof(E), 2); RESULT((n.Value().p != nullptr) == deep); if (deep) { RESULT((bool)*n.Value().p); v_val(&n.Value().p->Value().v, sizeof(E), 3); }
}
DRV drv_N_owned_copy() { { nowned<true>(true); DONE }
DRV drv_N_owned_move() { { nowned<true>(false); DONE }
DRV drv_N_owned_copy_only() { { nowned<false>(true); DONE }
DRV drv_N_owned_move_only() { { nowned<false>(false); DONE }
DRV drv_N_owned_null() { { typedef Nullable<NOwn<true>> NT; NOwn<true> out(obj<E>(1)); out.p = new NT(); NT n(mv(out)); if (v_bool(1)) n = mv(*n.Value().p); else { const NT& c = *n.Value().p; n = c; } RESULT(!n); DONE }

// ---- Variant
typedef Variant<E, E2, vi> VT;
template<typename X> struct VS
{
	static const E& sz(E&);
	// v holds alternative k with value tag
	static void is(VT& v, int k, int tag)
	{
		const VT& c = v;
		RESULT(v.Index() == k); RESULT(c.Index() == k);
		E* e = v.TryGet<E>(); E2* f = v.TryGet<E2>(); vi* g = v.TryGet<vi>();
		RESULT((e != nullptr) == (k == 0)); RESULT((f != nullptr) == (k == 1)); RESULT((g != nullptr) == (k == 2));
		const E* ce = c.TryGet<E>(); const E2* cf = c.TryGet<E2>(); const vi* cg = c.TryGet<vi>();
		RESULT(ce == e); RESULT(cf == f); RESULT(cg == g);
		try { E& r = v.Get<E>(); LEGAL(k == 0); v_val(&r, sizeof(E), tag); RESULT(&r == e); } catch (const Error&) { LEGAL(k != 0); }
		try { E2& r = v.Get<E2>(); LEGAL(k == 1); v_val(&r, sizeof(E2), tag); RESULT(&r == f); } catch (const Error&) { LEGAL(k != 1); }
		try { vi& r = v.Get<vi>(); LEGAL(k == 2); if (tag >= 0) RESULT(r == v_int(tag)); RESULT(&r == g); } catch (const Error&) { LEGAL(k != 2); }
	}
	static int pick(int t) { return v_bool(t) ? 0 : v_bool(t + 1) ? 1 : 2; }
	static void put(VT& v, int k, int tag) { if (k == 0) v = mv(obj<E>(tag)); else if (k == 1) v = mv(obj<E2>(tag + 1)); else v = v_int(tag + 2); }
	static VT make(int k, int tag) { if (k == 0) return VT(mv(obj<E>(tag))); else if (k == 1) return VT(mv(obj<E2>(tag + 1))); else return VT(v_int(tag + 2)); }
	static void def() { { VT v; is(v, 0, -1); DONE }
	static void from_copy() { { VT v(obj<E>(10)); is(v, 0, 10); v_val(&obj<E>(10), sizeof(E), 10); VT w(obj<E2>(11)); is(w, 1, 11); v_val(&obj<E2>(11), sizeof(E2), 11); const vi x = v_int(12); VT u(x); is(u, 2, 12); DONE }
	static void from_move() { { VT v(mv(obj<E>(10))); is(v, 0, 10); VT w(mv(obj<E2>(11))); is(w, 1, 11); DONE }
	static void from_index() { { VT v(VariantIndex<0>{}, obj<E>(10)); is(v, 0, 10); VT w(VariantIndex<1>{}, mv(obj<E2>(11))); is(w, 1, 11); VT u(VariantIndex<2>{}, v_int(12)); is(u, 2, 12); VT z(VariantIndex<1>{}); is(z, 1, -1); DONE }
	static void copy_ctor() { { int k = pick(1); VT v = make(k, 10); VT w(v); is(w, k, 10 + k); is(v, k, 10 + k); const VT& c = v; VT u(c); is(u, k, 10 + k); DONE }
	static void move_ctor() { { int k = pick(1); VT v = make(k, 10); VT w(mv(v)); is(w, k, 10 + k); RESULT(v.Index() == k); DONE }
	static void copy_assign() { { int k = pick(1), l = pick(3); VT v = make(k, 10), w = make(l, 20); RESULT(&(v = w) == &v); is(v, l, 20 + l); is(w, l, 20 + l); DONE }
	static void move_assign() { { int k = pick(1), l = pick(3); VT v = make(k, 10), w = make(l, 20); RESULT(&(v = mv(w)) == &v); is(v, l, 20 + l); RESULT(w.Index() == l); DONE }
	static void self_copy() { { int k = pick(1); VT v = make(k, 10); VT& r = v; v = r; is(v, k, 10 + k); DONE }
	static void self_move() { { int k = pick(1); VT v = make(k, 10); VT& r = v; v = mv(r); is(v, k, 10 + k); DONE }
	static void elem_copy() { { int k = pick(1), l = pick(3); VT v = make(k, 10); const vi x = v_int(22); if (l == 0) v = (const E&)obj<E>(20); else if (l == 1) v = (const E2&)obj<E2>(21); else v = x; is(v, l, 20 + l); if (l == 0) v_val(&obj<E>(20), sizeof(E), 20); if (l == 1) v_val(&obj<E2>(21), sizeof(E2), 21); DONE }
	static void elem_move() { { int k = pick(1), l = pick(3); VT v = make(k, 10); put(v, l, 20); is(v, l, 20 + l); DONE }
	static void elem_own() { { int k = pick(1); VT v = make(k, 10); if (k == 0) v = v.Get<E>(); else if (k == 1) v = v.Get<E2>(); else v = v.Get<vi>(); is(v, k, 10 + k); DONE }
	static void set() { { int k = pick(1), l = pick(3); VT v = make(k, 10); if (l == 0) v.Set(VariantIndex<0>{}, obj<E>(20)); else if (l == 1) v.Set(VariantIndex<1>{}, mv(obj<E2>(21))); else v.Set(VariantIndex<2>{}, v_int(22)); is(v, l, 20 + l); DONE }
	static void convert() { { short x = (short)v_ch(30, 16); VT v(x); RESULT(v.Index() == 2); RESULT(v.Get<vi>() == x); int k = pick(1); VT w = make(k, 10); w = x; RESULT(w.Index() == 2); RESULT(w.Get<vi>() == x); DONE }
	static void get_rvalue() { { int k = pick(1); VT v = make(k, 10); try { E e = mv(v).Get<E>(); LEGAL(k == 0); v_val(&e, sizeof(E), 10); } catch (const Error&) { LEGAL(k != 0); } try { E2 e = mv(v).Get<E2>(); LEGAL(k == 1); v_val(&e, sizeof(E2), 11); } catch (const Error&) { LEGAL(k != 1); } DONE }
	static void get_const() { { int k = pick(1); const VT v = make(k, 10); try { const E& e = v.Get<E>(); LEGAL(k == 0); v_val(&e, sizeof(E), 10); } catch (const Error&) { LEGAL(k != 0); } try { const E2& e = v.Get<E2>(); LEGAL(k == 1); v_val(&e, sizeof(E2), 11); } catch (const Error&) { LEGAL(k != 1); } try { const vi& e = v.Get<vi>(); LEGAL(k == 2); RESULT(e == v_int(12)); } catch (const Error&) { LEGAL(k != 2); } DONE }
	static void apply() { { int k = pick(1); VT v = make(k, 10); int n = 0; const void* at = nullptr; int which = -1;
		v.Apply(Overloading([&](E& e) { n++; which = 0; v_val(&e, sizeof(E), 10); at = &e; }, [&](E2& e) { n++; which = 1; v_val(&e, sizeof(E2), 11); at = &e; }, [&](vi& e) { n++; which = 2; RESULT(e == v_int(12)); at = &e; }));
		RESULT(n == 1); RESULT(which == k); RESULT(at == (k == 0 ? (const void*)v.TryGet<E>() : k == 1 ? (const void*)v.TryGet<E2>() : (const void*)v.TryGet<vi>())); is(v, k, 10 + k); DONE }
	static void apply_const() { { int k = pick(1); const VT v = make(k, 10); int n = 0; int which = -1;
		v.Apply(Overloading([&](const E& e) { n++; which = 0; v_val(&e, sizeof(E), 10); }, [&](const E2& e) { n++; which = 1; v_val(&e, sizeof(E2), 11); }, [&](const vi& e) { n++; which = 2; RESULT(e == v_int(12)); }));
		RESULT(n == 1); RESULT(which == k); DONE }
	static void try_apply() { { int k = pick(1); VT v = make(k, 10); int n = 0;
		bool a = v.TryApply([&](E& e) { n++; v_val(&e, sizeof(E), 10); RESULT(&e == v.TryGet<E>()); }); RESULT(a == (k == 0)); RESULT(n == (k == 0 ? 1 : 0)); n = 0;
		bool b = v.TryApply([&](E2& e) { n++; v_val(&e, sizeof(E2), 11); }); RESULT(b == (k == 1)); RESULT(n == (k == 1 ? 1 : 0)); is(v, k, 10 + k); DONE }
	static void try_apply_const() { { int k = pick(1); const VT v = make(k, 10); int n = 0;
		bool a = v.TryApply([&](const E& e) { n++; v_val(&e, sizeof(E), 10); }); RESULT(a == (k == 0)); RESULT(n == (k == 0 ? 1 : 0)); n = 0;
		bool b = v.TryApply([&](const vi& e) { n++; RESULT(e == v_int(12)); }); RESULT(b == (k == 2)); RESULT(n == (k == 2 ? 1 : 0)); DONE }
};
// an alternative that contains another alternative, and one that owns a whole variant
struct Box { E2 b; E a; };
typedef Variant<E, Box> BT;
static void bis(BT& v, int tag) { RESULT(v.Index() == 0); E* e = v.TryGet<E>(); RESULT(e != nullptr); v_val(e, sizeof(E), tag); }
static BT box() { return BT(Box{ obj<E2>(2), obj<E>(1) }); }
DRV drv_V_inner_copy() { { BT v = box(); const E& e = v.Get<Box>().a; v = e; bis(v, 1); } v_final(); }
DRV drv_V_inner_move() { { BT v = box(); v = mv(v.Get<Box>().a); bis(v, 1); } v_final(); }
DRV drv_V_inner_set() { { BT v = box(); v.Set(VariantIndex<0>{}, v.Get<Box>().a); bis(v, 1); } v_final(); }
struct Rec;
typedef Variant<E, Rec*> RT0;
struct Own { Variant<E, Own>* p; Own(Variant<E, Own>* q) : p(q) {} Own(const Own& o); Own(Own&& o) : p(o.p) { o.p = nullptr; } Own& operator=(const Own&) = delete; Own& operator=(Own&& o) { auto q = p; p = o.p; o.p = q; return *this; } ~Own(); };
typedef Variant<E, Own> OT;
Own::~Own() { delete p; }
Own::Own(const Own& o) : p(o.p ? new OT(*o.p) : nullptr) {}
DRV drv_V_owned_copy() { { OT v(Own(new OT(obj<E>(1)))); const OT& in = *v.Get<Own>().p; v = in; RESULT(v.Index() == 0); v_val(v.TryGet<E>(), sizeof(E), 1); } v_final(); }
DRV drv_V_owned_move() { { OT v(Own(new OT(obj<E>(1)))); v = mv(*v.Get<Own>().p); RESULT(v.Index() == 0); v_val(v.TryGet<E>(), sizeof(E), 1); } v_final(); }
// an alternative that cannot be copied: copying it is refused, copying the other one works
typedef Variant<K, E> KT; typedef Variant<E, K> EK;
template<typename T> static void kis(T& v, bool k, int tag) { RESULT((v.template TryGet<K>() != nullptr) == k); RESULT((v.template TryGet<E>() != nullptr) == !k); if (k) v_val(v.template TryGet<K>(), sizeof(K), tag); else v_val(v.template TryGet<E>(), sizeof(E), tag); }
template<typename T> static T kmk(bool k, int tag) { if (k) return T(mv(obj<K>(tag))); return T(mv(obj<E>(tag + 1))); }
template<typename T> static void mo_copy() { { bool k = v_bool(1); T v = kmk<T>(k, 10); try { T w(v); LEGAL(!k); kis(w, false, 11); } catch (const Error&) { LEGAL(k); } kis(v, k, k ? 10 : 11); } v_final(); }
template<typename T> static void mo_assign() { { bool k = v_bool(1), l = v_bool(2); T v = kmk<T>(k, 10), w = kmk<T>(l, 20); try { w = v; LEGAL(!k); kis(w, false, 11); } catch (const Error&) { LEGAL(k); kis(w, l, l ? 20 : 21); } kis(v, k, k ? 10 : 11); } v_final(); }
template<typename T> static void mo_move() { { bool k = v_bool(1), l = v_bool(2); T v = kmk<T>(k, 10), w = kmk<T>(l, 20); T u(mv(v)); kis(u, k, k ? 10 : 11); w = mv(u); kis(w, k, k ? 10 : 11); } v_final(); }
DRV drv_V_mo_copy() { mo_copy<KT>(); } DRV drv_V_mo_copy2() { mo_copy<EK>(); } DRV drv_V_mo_assign() { mo_assign<KT>(); } DRV drv_V_mo_assign2() { mo_assign<EK>(); } DRV drv_V_mo_move() { mo_move<KT>(); } DRV drv_V_mo_move2() { mo_move<EK>(); }
// an alternative that cannot even be moved
typedef Variant<Z, E> ZT; typedef Variant<E, Z> EZ;
template<typename T> static void zis(T& v, bool z, int tag) { RESULT((v.template TryGet<Z>() != nullptr) == z); RESULT((v.template TryGet<E>() != nullptr) == !z); if (z) v_val(v.template TryGet<Z>(), sizeof(Z), tag); else v_val(v.template TryGet<E>(), sizeof(E), tag); }
template<typename T> static void im_all() { { T v(mv(obj<E>(1))); zis(v, false, 1); T w(v); zis(w, false, 1); zis(v, false, 1); T u(mv(v)); zis(u, false, 1); T x(obj<E>(2)); x = u; zis(x, false, 1); zis(u, false, 1); T y(obj<E>(3)); y = mv(x); zis(y, false, 1); } v_final(); }
template<typename T, int I> static void im_held() { { T v(VariantIndex<I>{}); zis(v, true, -1); T e(obj<E>(1)); try { T w(v); LEGAL(false); } catch (const Error&) { } zis(v, true, -1); try { T w(mv(v)); LEGAL(false); } catch (const Error&) { } zis(v, true, -1);
	try { e = v; LEGAL(false); } catch (const Error&) { } zis(e, false, 1); zis(v, true, -1); try { e = mv(v); LEGAL(false); } catch (const Error&) { } zis(e, false, 1); zis(v, true, -1); v = e; zis(v, false, 1); } v_final(); }
DRV drv_V_im_all() { im_all<ZT>(); } DRV drv_V_im_all2() { im_all<EZ>(); } DRV drv_V_im_held() { im_held<ZT, 0>(); } DRV drv_V_im_held2() { im_held<EZ, 1>(); }
#define VA(X) DRV drv_V_##X() { VS<E>::X(); }
VA(def) VA(from_copy) VA(from_move) VA(from_index) VA(copy_ctor) VA(move_ctor) VA(copy_assign) VA(move_assign) VA(self_copy) VA(self_move) VA(elem_copy) VA(elem_move) VA(elem_own) VA(set) VA(convert) VA(get_rvalue) VA(get_const) VA(apply) VA(apply_const) VA(try_apply) VA(try_apply_const)

// ---- Pair and Tuple: element-wise copies, lexicographic order
typedef Pair<E, E2> PT;
DRV drv_P_ctor() { { PT p; v_val(&p.key, sizeof(E), -1); v_val(&p.value, sizeof(E2), -1); PT q(obj<E>(1), obj<E2>(2)); v_val(&q.key, sizeof(E), 1); v_val(&q.value, sizeof(E2), 2); v_val(&obj<E>(1), sizeof(E), 1); v_val(&obj<E2>(2), sizeof(E2), 2); PT r(mv(obj<E>(1)), mv(obj<E2>(2))); v_val(&r.key, sizeof(E), 1); v_val(&r.value, sizeof(E2), 2); } v_final(); }
DRV drv_P_copy() { { PT p(obj<E>(1), obj<E2>(2)), q(obj<E>(3), obj<E2>(4)); PT r(p); v_val(&r.key, sizeof(E), 1); v_val(&r.value, sizeof(E2), 2); r = q; v_val(&r.key, sizeof(E), 3); v_val(&r.value, sizeof(E2), 4); v_val(&q.key, sizeof(E), 3); v_val(&q.value, sizeof(E2), 4); PT s(mv(q)); v_val(&s.key, sizeof(E), 3); v_val(&s.value, sizeof(E2), 4); s = mv(p); v_val(&s.key, sizeof(E), 1); v_val(&s.value, sizeof(E2), 2); } v_final(); }
DRV drv_P_get() { { PT p(obj<E>(1), obj<E2>(2)); const PT& c = p; auto&& [k, v] = p; auto&& [ck, cv] = c; RESULT(&k == &p.key); RESULT(&v == &p.value); RESULT(&ck == &p.key); RESULT(&cv == &p.value); } v_final(); }
static int lex2(const E& a, const E2& b, const E& c, const E2& d) { int x = v_cmp(&a, &c, sizeof(E)); return x ? x : v_cmp(&b, &d, sizeof(E2)); }
DRV drv_P_compare() { { PT p(obj<E>(1), obj<E2>(2)), q(obj<E>(3), obj<E2>(4)); int x = lex2(obj<E>(1), obj<E2>(2), obj<E>(3), obj<E2>(4)); auto o = p <=> q; RESULT((o < 0 ? -1 : o > 0 ? 1 : 0) == x); RESULT((p == q) == (x == 0)); RESULT((p != q) == (x != 0)); RESULT((p < q) == (x < 0)); RESULT((p >= q) == (x >= 0)); } v_final(); }
typedef Tuple<E, E2, E> TT;
static void tis(TT& t, int a, int b, int c) { const TT& u = t; v_val(&t.get<0>(), sizeof(E), a); v_val(&t.get<1>(), sizeof(E2), b); v_val(&t.get<2>(), sizeof(E), c); RESULT(&u.get<0>() == &t.get<0>()); RESULT(&u.get<1>() == &t.get<1>()); RESULT(&u.get<2>() == &t.get<2>()); RESULT((void*)&t.get<0>() != (void*)&t.get<2>()); }
DRV drv_T_ctor() { { TT t; tis(t, -1, -1, -1); TT u(obj<E>(1), obj<E2>(2), obj<E>(3)); tis(u, 1, 2, 3); v_val(&obj<E>(1), sizeof(E), 1); TT v(mv(obj<E>(1)), mv(obj<E2>(2)), mv(obj<E>(3))); tis(v, 1, 2, 3); } v_final(); }
DRV drv_T_copy() { { TT t(obj<E>(1), obj<E2>(2), obj<E>(3)), u(obj<E>(4), obj<E2>(5), obj<E>(6)); const TT& c = t; TT w(c); tis(w, 1, 2, 3); w = (const TT&)u; tis(w, 4, 5, 6); tis(u, 4, 5, 6); TT x(mv(u)); tis(x, 4, 5, 6); x = mv(t); tis(x, 1, 2, 3); } v_final(); }
DRV drv_T_compare() { { TT t(obj<E>(1), obj<E2>(2), obj<E>(3)), u(obj<E>(4), obj<E2>(5), obj<E>(6)); int x = lex2(obj<E>(1), obj<E2>(2), obj<E>(4), obj<E2>(5)); if (!x) x = v_cmp(&obj<E>(3), &obj<E>(6), sizeof(E)); auto o = t <=> u; RESULT((o < 0 ? -1 : o > 0 ? 1 : 0) == x); RESULT((t == u) == (x == 0)); RESULT((t != u) == (x != 0)); RESULT((t < u) == (x < 0)); RESULT((t <= u) == (x <= 0)); tis(t, 1, 2, 3); tis(u, 4, 5, 6); } v_final(); }
// a tuple of references refers to the given objects; assigning one refers to the objects of the other; it compares the objects
typedef Tuple<E&, E2&> RT;
static void ris(RT& t, E& a, E2& b) { const RT& c = t; RESULT(&t.get<0>() == &a); RESULT(&t.get<1>() == &b); RESULT(&c.get<0>() == &a); RESULT(&c.get<1>() == &b); }
DRV drv_T_refs() { { E& a = obj<E>(1); E2& b = obj<E2>(2); E& c = obj<E>(3); E2& d = obj<E2>(4); RT t(a, b), u(c, d); ris(t, a, b); int x = v_cmp(&a, &c, sizeof(E)), y = v_cmp(&b, &d, sizeof(E2)); RESULT((t == u) == (x == 0 && y == 0)); RESULT((t != u) == !(x == 0 && y == 0)); RT w(t); ris(w, a, b); RESULT(w == t);
	v_val(&a, sizeof(E), 1); v_val(&c, sizeof(E), 3); v_val(&b, sizeof(E2), 2); v_val(&d, sizeof(E2), 4); DONE }
DRV drv_T_refs_assign() { { E& a = obj<E>(1); E2& b = obj<E2>(2); E& c = obj<E>(3); E2& d = obj<E2>(4); RT t(a, b), u(c, d); if (v_bool(1)) t = (const RT&)u; else t = mv(u); ris(t, c, d); v_val(&a, sizeof(E), 1); v_val(&c, sizeof(E), 3); v_val(&b, sizeof(E2), 2); v_val(&d, sizeof(E2), 4); DONE }
struct Bs { vi v; }; struct Dv : Bs {};
DRV drv_T_refs_convert() { { Bs a; a.v = v_int(1); Dv b, c; b.v = v_int(2); c.v = v_int(3); Tuple<Bs&, Bs&> t(a, b); Tuple<Dv&, Dv&> u(b, c); t = mv(u); RESULT(&t.get<0>() == &b); RESULT(&t.get<1>() == &c); RESULT(a.v == v_int(1)); RESULT(b.v == v_int(2)); RESULT(c.v == v_int(3)); DONE }
// elements that may be incomparable: the first element that is not equal decides, also when it is unordered
struct Part { int k; std::partial_ordering operator<=>(const Part& p) const { int d = k - p.k; return k == 9 || p.k == 9 ? std::partial_ordering::unordered : d < 0 ? std::partial_ordering::less : d > 0 ? std::partial_ordering::greater : std::partial_ordering::equivalent; } bool operator==(const Part& p) const { return k == p.k && k != 9; } };
static int pk(int t) { int k = v_choose(t, 3); return k == 2 ? 9 : k; }
static int code(std::partial_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : o == 0 ? 0 : 2; }
static int first(std::partial_ordering x, std::partial_ordering y) { int c = code(x); return c ? c : code(y); }
DRV drv_P_partial() { { Part a{ pk(1) }, b{ pk(2) }, c{ pk(3) }, d{ pk(4) }; typedef Pair<Part, Part> PP; PP p(a, b), q(c, d); int x = first(a <=> c, b <=> d); RESULT(code(p <=> q) == x); RESULT((p < q) == (x == -1)); RESULT((p > q) == (x == 1)); RESULT((p <= q) == (x == -1 || x == 0)); RESULT((p == q) == (x == 0)); DONE }
DRV drv_T_partial() { { Part a{ pk(1) }, b{ pk(2) }, c{ pk(3) }, d{ pk(4) }; typedef Tuple<Part, Part> PP; PP p(a, b), q(c, d); int x = first(a <=> c, b <=> d); RESULT(code(p <=> q) == x); RESULT((p < q) == (x == -1)); RESULT((p >= q) == (x == 1 || x == 0)); RESULT((p == q) == (x == 0)); DONE }
DRV drv_NE_partial() { { Part a{ pk(1) }, c{ pk(2) }; typedef Nullable<Part> PP; PP p(a), q(c); RESULT(code(p <=> q) == code(a <=> c)); RESULT((p == q) == (a == c)); PP e; RESULT(code(p <=> e) == 1); RESULT(code(e <=> q) == -1); DONE }
// the storage inside is as large and as aligned as the payload needs, wherever the widest alternative stands
struct alignas(32) Wide { char c[96]; };
template<typename V> static void room() { RESULT(alignof(V) >= alignof(Wide)); RESULT(alignof(V) >= alignof(double)); RESULT(sizeof(V) > sizeof(Wide)); }
DRV drv_V_room() { { room<Variant<Wide, char>>(); room<Variant<char, Wide>>(); room<Variant<char, Wide, double>>(); room<Variant<double, char, Wide>>(); typedef Variant<char, double> CD; typedef Variant<double, char> DC; RESULT(alignof(CD) >= alignof(double)); RESULT(alignof(DC) >= alignof(double)); } v_final(); }
DRV drv_NE_room() { { room<Nullable<Wide>>(); typedef Nullable<double> D; RESULT(alignof(D) >= alignof(double)); } v_final(); }
