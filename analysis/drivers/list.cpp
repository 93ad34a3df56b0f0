#include "vdrv.h"
#include "Collections/List.h"
using namespace vl;
using namespace vl::collections;
#define DRV extern "C" void
template<typename T> static T&& mv(T& t) { return static_cast<T&&>(t); }
template<typename T> T& item(int t);
template<> E& item<E>(int t) { return *v_elem(t); }
template<> vi& item<vi>(int t) { return *v_item(t); }
// requirement codes: 1 = a legal call was rejected / an illegal call was accepted, 2 = wrong result
#define LEGAL(c) v_require((c), 1)
#define ILLEGAL(c) v_require(!(c), 1)
#define RESULT(c) v_require((c), 2)
#define SETUP(C) { C xs; v_list(&xs, 0); vi n = v_n(0); vi i = v_arg(0); (void)i; (void)n;
#define DONE } v_final();
#define UNCHANGED v_expect(&xs, SEQ(0, 0, n), END)
template<typename T> struct D
{
	typedef List<T> LT; typedef Array<T> AT; typedef SortedList<T> ST;
	static void insert_copy() { SETUP(LT) T& e = item<T>(1); bool ok = i >= 0 && i <= n;
		try { vi r = xs.Insert(i, e); LEGAL(ok); RESULT(r == i); v_expect(&xs, SEQ(0, 0, i), ITEM(1), SEQ(0, i, n), END); v_expect_elem(&e, ITEM(1)); } catch (const Error&) { ILLEGAL(ok); UNCHANGED; } DONE }
	static void insert_move() { SETUP(LT) T& e = item<T>(1); bool ok = i >= 0 && i <= n;
		try { vi r = xs.Insert(i, mv(e)); LEGAL(ok); RESULT(r == i); v_expect(&xs, SEQ(0, 0, i), ITEM(1), SEQ(0, i, n), END); } catch (const Error&) { ILLEGAL(ok); UNCHANGED; } DONE }
	static void add_copy() { SETUP(LT) T& e = item<T>(1); vi r = xs.Add(e); RESULT(r == n); v_expect(&xs, SEQ(0, 0, n), ITEM(1), END); v_expect_elem(&e, ITEM(1)); DONE }
	static void add_move() { SETUP(LT) T& e = item<T>(1); vi r = xs.Add(mv(e)); RESULT(r == n); v_expect(&xs, SEQ(0, 0, n), ITEM(1), END); DONE }
	static void remove_at() { SETUP(LT) bool ok = i >= 0 && i < n;
		try { bool r = xs.RemoveAt(i); LEGAL(ok); RESULT(r); v_expect(&xs, SEQ(0, 0, i), SEQ(0, i + 1, n), END); } catch (const Error&) { ILLEGAL(ok); UNCHANGED; } DONE }
	static void remove_range() { SETUP(LT) vi c = v_arg(1); bool ok = i >= 0 && i <= n && c >= 0 && c <= n - i;
		try { bool r = xs.RemoveRange(i, c); LEGAL(ok); RESULT(r); v_expect(&xs, SEQ(0, 0, i), SEQ(0, i + c, n), END); } catch (const Error&) { ILLEGAL(ok); UNCHANGED; } DONE }
	static void clear() { SETUP(LT) RESULT(xs.Clear()); v_expect(&xs, END); xs.Add(item<T>(1)); v_expect(&xs, ITEM(1), END); DONE }
	static void destroy() { SETUP(LT) RESULT(xs.Count() == n); DONE }
	static void move_ctor() { SETUP(LT) LT ys(mv(xs)); v_expect(&xs, END); v_expect(&ys, SEQ(0, 0, n), END); xs.Add(item<T>(1)); v_expect(&xs, ITEM(1), END); DONE }
	static void move_assign() { SETUP(LT) LT ys; v_list(&ys, 1); ys = mv(xs); v_expect(&xs, END); v_expect(&ys, SEQ(0, 0, n), END); xs.Add(item<T>(1)); v_expect(&xs, ITEM(1), END); DONE }
	static void move_self() { SETUP(LT) LT& r = xs; xs = mv(r); xs.Clear(); xs.Add(item<T>(1)); v_expect(&xs, ITEM(1), END); DONE }
	static void set_copy() { SETUP(LT) T& e = item<T>(1); bool ok = i >= 0 && i < n;
		try { bool r = xs.Set(i, e); LEGAL(ok); RESULT(r); v_expect(&xs, SEQ(0, 0, i), ITEM(1), SEQ(0, i + 1, n), END); } catch (const Error&) { ILLEGAL(ok); UNCHANGED; } DONE }
	static void set_move() { SETUP(LT) T& e = item<T>(1); bool ok = i >= 0 && i < n;
		try { bool r = xs.Set(i, mv(e)); LEGAL(ok); RESULT(r); v_expect(&xs, SEQ(0, 0, i), ITEM(1), SEQ(0, i + 1, n), END); } catch (const Error&) { ILLEGAL(ok); UNCHANGED; } DONE }
	static void get() { SETUP(LT) bool ok = i >= 0 && i < n;
		try { const T& r = xs.Get(i); LEGAL(ok); v_expect_elem(&r, SEQ(0, i, i + 1)); UNCHANGED; } catch (const Error&) { ILLEGAL(ok); UNCHANGED; } DONE }
	static void index() { SETUP(LT) bool ok = i >= 0 && i < n;
		try { T& r = xs[i]; LEGAL(ok); v_expect_elem(&r, SEQ(0, i, i + 1)); UNCHANGED; } catch (const Error&) { ILLEGAL(ok); UNCHANGED; } DONE }
	static void cindex() { SETUP(LT) bool ok = i >= 0 && i < n; const LT& c = xs;
		try { const T& r = c[i]; LEGAL(ok); v_expect_elem(&r, SEQ(0, i, i + 1)); UNCHANGED; } catch (const Error&) { ILLEGAL(ok); UNCHANGED; } DONE }
	static void index_of() { SETUP(LT) vi f = v_first(0, 1); T& e = item<T>(1); vi r = xs.IndexOf(e); RESULT(r == (f < n ? f : -1)); UNCHANGED; DONE }
	static void contains() { SETUP(LT) vi f = v_first(0, 1); T& e = item<T>(1); bool r = xs.Contains(e); RESULT(r == (f < n)); UNCHANGED; DONE }
	static void remove() { SETUP(LT) vi f = v_first(0, 1); T& e = item<T>(1); bool r = xs.Remove(e); RESULT(r == (f < n)); if (f < n) v_expect(&xs, SEQ(0, 0, f), SEQ(0, f + 1, n), END); else UNCHANGED; DONE }
	// arguments that live inside the container itself
	static void add_own() { SETUP(LT) v_assume(i >= 0 && i < n); xs.Add(xs[i]); v_expect(&xs, SEQ(0, 0, n), SEQ(0, i, i + 1), END); DONE }
	static void insert_own() { SETUP(LT) vi j = v_int(1); v_assume(i >= 0 && i < n && j >= 0 && j <= n); xs.Insert(j, xs[i]); v_expect(&xs, SEQ(0, 0, j), SEQ(0, i, i + 1), SEQ(0, j, n), END); DONE }
	// moving an element of the list into the list: the new element has the value, the others are as before
	static void add_own_move() { SETUP(LT) v_assume(i >= 0 && i < n); v_moved_ok(); xs.Add(mv(const_cast<T&>(xs[i]))); RESULT(xs.Count() == n + 1); if (v_bool(1)) v_expect_elem(&xs[n], SEQ(0, i, i + 1)); else { vi j = v_int(2); v_assume(j >= 0 && j < n && j != i); v_expect_elem(&xs[j], SEQ(0, j, j + 1)); } DONE }
	static void insert_own_move() { SETUP(LT) vi j = v_int(1); v_assume(i >= 0 && i < n && j >= 0 && j <= n); v_moved_ok(); xs.Insert(j, mv(const_cast<T&>(xs[i]))); RESULT(xs.Count() == n + 1); if (v_bool(1)) v_expect_elem(&xs[j], SEQ(0, i, i + 1)); else { vi k = v_int(2); v_assume(k >= 0 && k < n && k != i); v_expect_elem(&xs[k < j ? k : k + 1], SEQ(0, k, k + 1)); } DONE }
	static void set_own() { SETUP(LT) vi j = v_int(1); v_assume(i >= 0 && i < n && j >= 0 && j < n); xs.Set(j, xs[i]); v_expect(&xs, SEQ(0, 0, j), SEQ(0, i, i + 1), SEQ(0, j + 1, n), END); DONE }
	// two-step histories: growth followed by shrinking
	static void insert_remove() { SETUP(LT) T& e = item<T>(1); v_assume(i >= 0 && i <= n); xs.Insert(i, e); xs.RemoveAt(i); UNCHANGED; DONE }
	// ---- Array
	static void a_ctor() { { vi i = v_int(0); try { AT xs(i); LEGAL(i >= 0); v_expect(&xs, DEF(i), END); } catch (const Error&) { ILLEGAL(i >= 0); } DONE }
	static void a_ctor_buf() { { vi i = v_int(0); AT src; v_list(&src, 0); vi n = v_n(0); try { AT xs(n ? &src[0] : nullptr, n); v_expect(&xs, SEQ(0, 0, n), END); v_expect(&src, SEQ(0, 0, n), END); } catch (const Error&) { LEGAL(false); } DONE }
	static void a_resize() { SETUP(AT) try { xs.Resize(i); LEGAL(i >= 0); if (i <= n) v_expect(&xs, SEQ(0, 0, i), END); else v_expect(&xs, SEQ(0, 0, n), DEF(i - n), END); } catch (const Error&) { ILLEGAL(i >= 0); UNCHANGED; } DONE }
	static void a_move_ctor() { SETUP(AT) AT ys(mv(xs)); v_expect(&xs, END); v_expect(&ys, SEQ(0, 0, n), END); DONE }
	static void a_move_assign() { SETUP(AT) AT ys; v_list(&ys, 1); ys = mv(xs); v_expect(&xs, END); v_expect(&ys, SEQ(0, 0, n), END); xs.Resize(1); v_expect(&xs, DEF(1), END); DONE }
	static void a_move_self() { SETUP(AT) AT& r = xs; xs = mv(r); xs.Resize(1); DONE }
	static void a_set_copy() { SETUP(AT) T& e = item<T>(1); bool ok = i >= 0 && i < n;
		try { bool r = xs.Set(i, e); LEGAL(ok); RESULT(r); v_expect(&xs, SEQ(0, 0, i), ITEM(1), SEQ(0, i + 1, n), END); } catch (const Error&) { ILLEGAL(ok); UNCHANGED; } DONE }
	static void a_set_move() { SETUP(AT) T& e = item<T>(1); bool ok = i >= 0 && i < n;
		try { bool r = xs.Set(i, mv(e)); LEGAL(ok); RESULT(r); v_expect(&xs, SEQ(0, 0, i), ITEM(1), SEQ(0, i + 1, n), END); } catch (const Error&) { ILLEGAL(ok); UNCHANGED; } DONE }
	static void a_get() { SETUP(AT) bool ok = i >= 0 && i < n;
		try { const T& r = xs.Get(i); LEGAL(ok); v_expect_elem(&r, SEQ(0, i, i + 1)); UNCHANGED; } catch (const Error&) { ILLEGAL(ok); UNCHANGED; } DONE }
	static void a_index() { SETUP(AT) bool ok = i >= 0 && i < n; const AT& c = xs;
		try { T& r = xs[i]; LEGAL(ok); v_expect_elem(&r, SEQ(0, i, i + 1)); v_same(&r, &c[i], 2); UNCHANGED; } catch (const Error&) { ILLEGAL(ok); UNCHANGED; } DONE }
	static void a_index_of() { SETUP(AT) vi f = v_first(0, 1); T& e = item<T>(1); vi r = xs.IndexOf(e); RESULT(r == (f < n ? f : -1)); RESULT(xs.Contains(e) == (f < n)); UNCHANGED; DONE }
	// ---- SortedList
#define SSETUP { ST xs; v_list(&xs, 0); vi n = v_n(0); vi i = v_arg(0); (void)i; (void)n; v_sorted(0, 1); vi lo = v_lo(0), hi = v_hi(0); (void)lo; (void)hi; T& e = item<T>(1);
	static void s_add_copy() { SSETUP vi r = xs.Add(e); RESULT(r >= lo && r <= hi); v_expect(&xs, SEQ(0, 0, r), ITEM(1), SEQ(0, r, n), END); v_expect_elem(&e, ITEM(1)); DONE }
	static void s_add_move() { SSETUP vi r = xs.Add(mv(e)); RESULT(r >= lo && r <= hi); v_expect(&xs, SEQ(0, 0, r), ITEM(1), SEQ(0, r, n), END); DONE }
	static void s_index_of() { SSETUP vi r = xs.IndexOf(e); RESULT(lo < hi ? (r >= lo && r < hi) : r == -1); UNCHANGED; DONE }
	static void s_contains() { SSETUP bool r = xs.Contains(e); RESULT(r == (lo < hi)); UNCHANGED; DONE }
	static void s_remove() { SSETUP bool r = xs.Remove(e); RESULT(r == (lo < hi)); if (lo < hi) { /* one of the equal elements */ v_require(xs.Count() == n - 1, 2); } else UNCHANGED; DONE }
	static void s_remove_at() { SETUP(ST) bool ok = i >= 0 && i < n;
		try { bool r = xs.RemoveAt(i); LEGAL(ok); RESULT(r); v_expect(&xs, SEQ(0, 0, i), SEQ(0, i + 1, n), END); } catch (const Error&) { ILLEGAL(ok); UNCHANGED; } DONE }
	static void s_get() { SETUP(ST) bool ok = i >= 0 && i < n;
		try { const T& r = xs[i]; LEGAL(ok); v_expect_elem(&r, SEQ(0, i, i + 1)); UNCHANGED; } catch (const Error&) { ILLEGAL(ok); UNCHANGED; } DONE }
	static void s_clear() { SETUP(ST) RESULT(xs.Clear()); v_expect(&xs, END); DONE }
	static void s_copy() { SETUP(ST) const ST& cs = xs; ST ys(cs); v_expect(&xs, SEQ(0, 0, n), END); v_expect(&ys, SEQ(0, 0, n), END); DONE }
	static void s_move() { SETUP(ST) ST ys(mv(xs)); v_expect(&xs, END); v_expect(&ys, SEQ(0, 0, n), END); ST zs; v_list(&zs, 1); zs = mv(ys); v_expect(&ys, END); v_expect(&zs, SEQ(0, 0, n), END); DONE }
};
#define ALL(N) DRV drv_E_##N() { D<E>::N(); } DRV drv_I_##N() { D<vi>::N(); }
ALL(insert_copy) ALL(insert_move) ALL(add_copy) ALL(add_move) ALL(remove_at) ALL(remove_range) ALL(clear) ALL(destroy) ALL(move_ctor) ALL(move_assign) ALL(move_self)
ALL(set_copy) ALL(set_move) ALL(get) ALL(index) ALL(cindex) ALL(index_of) ALL(contains) ALL(remove) ALL(add_own) ALL(insert_own) ALL(set_own) ALL(add_own_move) ALL(insert_own_move) ALL(insert_remove)
ALL(a_ctor) ALL(a_ctor_buf) ALL(a_resize) ALL(a_move_ctor) ALL(a_move_assign) ALL(a_move_self) ALL(a_set_copy) ALL(a_set_move) ALL(a_get) ALL(a_index) ALL(a_index_of)
ALL(s_add_copy) ALL(s_add_move) ALL(s_index_of) ALL(s_contains) ALL(s_remove) ALL(s_remove_at) ALL(s_get) ALL(s_clear) ALL(s_move) ALL(s_copy)
