// Dictionary: keys and values in lockstep, from every valid state
#include "vdrv.h"
#include "Collections/Dictionary.h"
using namespace vl;
using namespace vl::collections;
#define DRV extern "C" void
template<typename T> static T&& mv(T& t) { return static_cast<T&&>(t); }
template<typename T> struct TC;
template<> struct TC<E> { static const int c = T_E; static E& item(int t) { return *v_elem(t); } };
template<> struct TC<E2> { static const int c = T_E2; static E2& item(int t) { return *(E2*)v_obj(t, sizeof(E2)); } };
template<> struct TC<vi> { static const int c = T_I; static vi& item(int t) { return *v_item(t); } };
#define LEGAL(c) v_require((c), 1)
#define ILLEGAL(c) v_require(!(c), 1)
#define RESULT(c) v_require((c), 2)
// an arbitrary dictionary: keys = sequence 0 (ordered, distinct), values = sequence 1 of the same length; item 1 = a key, item 2 = a value
#define SETUP { DT d; v_listt(&d.Keys(), 0, KC); v_listt(&d.Values(), 1, VC); vi n = v_n(0); v_assume(v_n(1) == n); v_sorted(0, 1); vi lo = v_lo(0), hi = v_hi(0); v_assume(hi - lo <= 1); \
	KT& k = TC<KT>::item(1); VT& v = TC<VT>::item(2); bool has = lo < hi; (void)has; (void)k; (void)v; RESULT(d.Count() == n);
#define DONE } v_final();
#define KEYS(D, ...) v_expectt(&(D).Keys(), KC, __VA_ARGS__, END)
#define VALS(D, ...) v_expectt(&(D).Values(), VC, __VA_ARGS__, END)
#define SAME(D) KEYS(D, SEQ(0, 0, n)); VALS(D, SEQ(1, 0, n))
#define INSERTED KEYS(d, SEQ(0, 0, lo), ITEM(1), SEQ(0, lo, n)); VALS(d, SEQ(1, 0, lo), ITEM(2), SEQ(1, lo, n)); RESULT(d.Count() == n + 1)
#define REPLACED KEYS(d, SEQ(0, 0, n)); VALS(d, SEQ(1, 0, lo), ITEM(2), SEQ(1, lo + 1, n)); RESULT(d.Count() == n)
#define KEEPK v_expect_elemt(&k, KC, ITEM(1), END)
#define KEEPV v_expect_elemt(&v, VC, ITEM(2), END)
#define ADDED if (has) ILLEGAL(true); INSERTED
template<typename KT, typename VT> struct D
{
	typedef Dictionary<KT, VT> DT; static const int KC = TC<KT>::c, VC = TC<VT>::c;
	static void set_cc() { SETUP RESULT(d.Set(k, v)); if (has) { REPLACED; } else { INSERTED; } KEEPK; KEEPV; DONE }
	static void set_cm() { SETUP RESULT(d.Set(k, mv(v))); if (has) { REPLACED; } else { INSERTED; } KEEPK; DONE }
	static void set_mc() { SETUP RESULT(d.Set(mv(k), v)); if (has) { REPLACED; } else { INSERTED; } KEEPV; DONE }
	static void set_mm() { SETUP RESULT(d.Set(mv(k), mv(v))); if (has) { REPLACED; } else { INSERTED; } DONE }
	static void add_cc() { SETUP try { bool r = d.Add(k, v); LEGAL(!has); RESULT(r); INSERTED; } catch (const Error&) { LEGAL(has); SAME(d); } KEEPK; KEEPV; DONE }
	static void add_cm() { SETUP try { bool r = d.Add(k, mv(v)); LEGAL(!has); RESULT(r); INSERTED; } catch (const Error&) { LEGAL(has); SAME(d); } KEEPK; DONE }
	static void add_mc() { SETUP try { bool r = d.Add(mv(k), v); LEGAL(!has); RESULT(r); INSERTED; } catch (const Error&) { LEGAL(has); SAME(d); } KEEPV; DONE }
	static void add_mm() { SETUP try { bool r = d.Add(mv(k), mv(v)); LEGAL(!has); RESULT(r); INSERTED; } catch (const Error&) { LEGAL(has); SAME(d); } DONE }
	static void add_pair() { SETUP { Pair<KT, VT> p(k, v); try { bool r = d.Add(p); LEGAL(!has); RESULT(r); INSERTED; } catch (const Error&) { LEGAL(has); SAME(d); } v_expect_elemt(&p.key, KC, ITEM(1), END); v_expect_elemt(&p.value, VC, ITEM(2), END); } DONE }
	static void add_pair_move() { SETUP { Pair<KT, VT> p(k, v); try { bool r = d.Add(mv(p)); LEGAL(!has); RESULT(r); INSERTED; } catch (const Error&) { LEGAL(has); SAME(d); } } DONE }
	static void remove() { SETUP bool r = d.Remove(k); RESULT(r == has); if (has) { KEYS(d, SEQ(0, 0, lo), SEQ(0, lo + 1, n)); VALS(d, SEQ(1, 0, lo), SEQ(1, lo + 1, n)); RESULT(d.Count() == n - 1); } else { SAME(d); } DONE }
	static void get() { SETUP const DT& c = d; try { const VT& r = c.Get(k); LEGAL(has); v_expect_elemt(&r, VC, SEQ(1, lo, lo + 1), END); v_same(&r, &d.Values()[lo], 2); } catch (const Error&) { LEGAL(!has); } SAME(d); DONE }
	static void index() { SETUP const DT& c = d; try { const VT& r = c[k]; LEGAL(has); v_expect_elemt(&r, VC, SEQ(1, lo, lo + 1), END); v_same(&r, &d.Values()[lo], 2); } catch (const Error&) { LEGAL(!has); } SAME(d); DONE }
	static void clear() { SETUP RESULT(d.Clear()); RESULT(d.Count() == 0); v_expectt(&d.Keys(), KC, END); v_expectt(&d.Values(), VC, END); d.Add(k, v); KEYS(d, ITEM(1)); VALS(d, ITEM(2)); DONE }
	static void destroy() { SETUP DONE }
	static void move_ctor() { SETUP DT e(mv(d)); SAME(e); RESULT(d.Count() == 0); v_expectt(&d.Keys(), KC, END); v_expectt(&d.Values(), VC, END); d.Set(k, v); KEYS(d, ITEM(1)); VALS(d, ITEM(2)); DONE }
	static void move_assign() { SETUP DT e; v_listt(&e.Keys(), 2, KC); v_listt(&e.Values(), 3, VC); v_assume(v_n(2) == v_n(3)); e = mv(d); SAME(e); RESULT(d.Count() == 0); v_expectt(&d.Keys(), KC, END); v_expectt(&d.Values(), VC, END); d.Set(k, v); KEYS(d, ITEM(1)); VALS(d, ITEM(2)); DONE }
	static void set_own() { SETUP vi i = v_int(0); v_assume(i >= 0 && i < n); RESULT(d.Set(k, d.Values()[i])); if (has) { KEYS(d, SEQ(0, 0, n)); VALS(d, SEQ(1, 0, lo), SEQ(1, i, i + 1), SEQ(1, lo + 1, n)); } else { KEYS(d, SEQ(0, 0, lo), ITEM(1), SEQ(0, lo, n)); VALS(d, SEQ(1, 0, lo), SEQ(1, i, i + 1), SEQ(1, lo, n)); } DONE }
	// enumeration visits exactly the pairs, in key order; one step from an arbitrary position
	static void enumerate() { SETUP auto e = d.CreateEnumerator(); RESULT(e->Index() == -1); vi p = v_int(0); bool r = e->Next(); RESULT(r == (0 < n)); if (r) { RESULT(e->Index() == 0); v_expect_elemt(&e->Current().key, KC, SEQ(0, 0, 1), END); v_expect_elemt(&e->Current().value, VC, SEQ(1, 0, 1), END);
		bool s = e->Next(); RESULT(s == (1 < n)); if (s) { RESULT(e->Index() == 1); v_expect_elemt(&e->Current().key, KC, SEQ(0, 1, 2), END); v_expect_elemt(&e->Current().value, VC, SEQ(1, 1, 2), END); 
			auto c = e->Clone(); v_expect_elemt(&c->Current().key, KC, SEQ(0, 1, 2), END); RESULT(c->Index() == 1); RESULT(c->Next() == (2 < n)); RESULT(e->Index() == 1); delete c; 
			e->Reset(); RESULT(e->Index() == -1); RESULT(e->Next()); v_expect_elemt(&e->Current().key, KC, SEQ(0, 0, 1), END); } } delete e; SAME(d); DONE }
};
#define ALL(N) DRV drv_EE_##N() { D<E, E2>::N(); } DRV drv_IE_##N() { D<vi, E>::N(); }
ALL(set_cc) ALL(set_cm) ALL(set_mc) ALL(set_mm) ALL(add_cc) ALL(add_cm) ALL(add_mc) ALL(add_mm) ALL(add_pair) ALL(add_pair_move) ALL(remove) ALL(get) ALL(index) ALL(clear) ALL(destroy) ALL(move_ctor) ALL(move_assign) ALL(set_own) ALL(enumerate)
