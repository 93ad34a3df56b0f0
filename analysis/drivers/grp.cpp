// Group: every history of up to three additions with arbitrary (possibly equal) keys and values, then each operation
#include "vdrv.h"
#include "Primitives/Nullable.h"
#include "Primitives/Function.h"
#include "Collections/Dictionary.h"
#include "Collections/Operation.h"
using namespace vl;
using namespace vl::collections;
#define DRV extern "C" void
// BIG: long histories of keys and values whose order is fixed (several patterns), to reach what depends on size
#ifndef BIG
#define BIG 0
#endif
#define VB (20 + 2 * BIG)
#define CAP (4 + BIG)
template<typename T> static T&& mv(T& t) { return static_cast<T&&>(t); }
static E& key(int t) { return *(E*)v_obj(t, sizeof(E)); }          // keys: arguments 10..
static E2& val(int t) { return *(E2*)v_obj(VB + t, sizeof(E2)); }  // values: arguments 30..
static int cmp(int a, int b) { return v_cmp(&key(a), &key(b), sizeof(E)); }
static bool eqv(int a, int b) { return v_cmp(&val(a), &val(b), sizeof(E2)) == 0; }
#define LEGAL(c) v_require((c), 1)
#define RESULT(c) v_require((c), 2)
#define FIN v_final(); }
typedef Group<E, E2> G;
// reference model: distinct keys in order, the values of each in order of addition
struct M { int n = 0; int k[CAP]; int m[CAP]; int v[CAP][CAP];
	int find(int t) { for (int i = 0; i < n; i++) if (cmp(t, k[i]) == 0) return i; return -1; }
	void add(int t) { int i = find(t); if (i < 0) { i = 0; while (i < n && cmp(k[i], t) < 0) i++; for (int j = n; j > i; j--) { k[j] = k[j - 1]; m[j] = m[j - 1]; for (int q = 0; q < CAP; q++) v[j][q] = v[j - 1][q]; } k[i] = t; m[i] = 0; n++; } v[i][m[i]++] = t; }
	void del(int i) { for (int j = i; j + 1 < n; j++) { k[j] = k[j + 1]; m[j] = m[j + 1]; for (int q = 0; q < CAP; q++) v[j][q] = v[j + 1][q]; } n--; }
	void delv(int i, int q) { for (; q + 1 < m[i]; q++) v[i][q] = v[i][q + 1]; if (--m[i] == 0) del(i); } };
static void check(const G& g, M& r)
{
	RESULT(g.Count() == r.n); RESULT(g.Keys().Count() == r.n);
	for (int i = 0; i < r.n; i++)
	{
		v_val(&g.Keys()[i], sizeof(E), r.k[i]);
		const List<E2>& l = g.GetByIndex(i); RESULT(l.Count() == r.m[i]); RESULT(&g.Get(key(r.k[i])) == &l); RESULT(&g[key(r.k[i])] == &l);
		for (int q = 0; q < r.m[i]; q++) v_val(&l[q], sizeof(E2), VB + r.v[i][q]);
	}
	try { g.GetByIndex(r.n); LEGAL(false); } catch (const Error&) { }
	try { g.GetByIndex(-1); LEGAL(false); } catch (const Error&) { }
}
#if !BIG
#define HIST(N) M r; int n = v_choose(1, N + 1); for (int i = 0; i < n; i++) { g.Add(key(10 + i), val(10 + i)); r.add(10 + i); }
#define SETUP(N) { G g; HIST(N)
DRV drv_add() { SETUP(2) int w = v_choose(2, 6); if (w == 0) RESULT(g.Add(key(15), val(15))); if (w == 1) RESULT(g.Add(key(15), mv(val(15)))); if (w == 2) { E k(key(15)); RESULT(g.Add(mv(k), val(15))); } if (w == 3) { E k(key(15)); RESULT(g.Add(mv(k), mv(val(15)))); }
	if (w >= 4) { Pair<E, E2> p(key(15), val(15)); if (w == 4) { RESULT(g.Add(p)); v_val(&p.key, sizeof(E), 15); v_val(&p.value, sizeof(E2), VB + 15); } else RESULT(g.Add(mv(p))); } r.add(15); check(g, r); } FIN
DRV drv_hist() { SETUP(3) check(g, r); } FIN
DRV drv_contains() { SETUP(2) int i = r.find(15); RESULT(g.Contains(key(15)) == (i >= 0)); bool c = false; if (i >= 0) for (int q = 0; q < r.m[i]; q++) if (eqv(15, r.v[i][q])) c = true; RESULT(g.Contains(key(15), val(15)) == c); check(g, r); } FIN
DRV drv_get() { SETUP(2) int i = r.find(15); try { auto& l = g.Get(key(15)); LEGAL(i >= 0); RESULT(&l == &g.GetByIndex(i)); } catch (const Error&) { LEGAL(i < 0); } try { auto& l = g[key(15)]; LEGAL(i >= 0); RESULT(&l == &g.GetByIndex(i)); } catch (const Error&) { LEGAL(i < 0); } check(g, r); } FIN
DRV drv_remove() { SETUP(3) int i = r.find(15); RESULT(g.Remove(key(15)) == (i >= 0)); if (i >= 0) r.del(i); check(g, r); } FIN
DRV drv_remove_value() { SETUP(3) int i = r.find(15); int q = -1; if (i >= 0) for (int j = 0; j < r.m[i]; j++) if (q < 0 && eqv(15, r.v[i][j])) q = j; RESULT(g.Remove(key(15), val(15)) == (q >= 0)); if (q >= 0) r.delv(i, q); check(g, r); } FIN
DRV drv_clear() { SETUP(2) RESULT(g.Clear()); M z; check(g, z); g.Add(key(15), val(15)); z.add(15); check(g, z); } FIN
DRV drv_move_ctor() { SETUP(2) G h(mv(g)); M z; check(h, r); check(g, z); g.Add(key(15), val(15)); z.add(15); check(g, z); check(h, r); } FIN
DRV drv_move_assign() { SETUP(2) G h; M z; if (v_bool(3)) h.Add(key(16), val(16)); h = mv(g); check(h, r); check(g, z); h.Add(key(15), val(15)); r.add(15); check(h, r); check(g, z); } FIN
DRV drv_own() { SETUP(2) v_assume(n > 0); int i = v_choose(3, n); v_assume(i < r.n); int t = r.v[i][0]; g.Add(g.Keys()[i], g.GetByIndex(i)[0]); r.v[i][r.m[i]++] = t; check(g, r); } FIN
DRV drv_remove_own() { SETUP(3) v_assume(n > 0); int i = v_choose(3, n); v_assume(i < r.n); if (v_bool(4)) { RESULT(g.Remove(g.Keys()[i])); r.del(i); } else { RESULT(g.Remove(key(r.k[i]), g.GetByIndex(i)[0])); r.delv(i, 0); } check(g, r); } FIN
DRV drv_join() { { G g, h; M r, s; int n = v_choose(1, 3), m = v_choose(2, 3); for (int i = 0; i < n; i++) { g.Add(key(10 + i), val(10 + i)); r.add(10 + i); } for (int i = 0; i < m; i++) { h.Add(key(15 + i), val(15 + i)); s.add(15 + i); }
	int a = 0, b = 0;
	GroupInnerJoin(g, h,
		[&](const E& k, const List<E2>& l) { RESULT(a < r.n && s.find(r.k[a]) < 0); v_val(&k, sizeof(E), r.k[a]); RESULT(&l == &g.GetByIndex(a)); a++; },
		[&](const E& k, const List<E2>& l) { RESULT(b < s.n && r.find(s.k[b]) < 0); v_val(&k, sizeof(E), s.k[b]); RESULT(&l == &h.GetByIndex(b)); b++; },
		[&](const E& k, const List<E2>& l, const List<E2>& t) { RESULT(a < r.n && b < s.n && cmp(r.k[a], s.k[b]) == 0); RESULT(&l == &g.GetByIndex(a)); RESULT(&t == &h.GetByIndex(b)); a++; b++; });
	RESULT(a == r.n); RESULT(b == s.n); check(g, r); check(h, s); } FIN
#else
// keys: 0 ascending, 1 descending, 2 scattered, 3 all equal, 4 three different ones
static int krank(int i, int k) { return k == 0 ? i : k == 1 ? BIG - i : k == 2 ? (i * 7) % (BIG + 1) : k == 3 ? 0 : i % 3; }
static void fill(G& g, M& r, int from, int n, int k, int shift) { for (int i = 0; i < n; i++) { v_rank(&key(from + i), sizeof(E), krank(i, k) + shift); v_rank(&val(from + i), sizeof(E2), (i * 5) % (BIG + 1)); } for (int i = 0; i < n; i++) { g.Add(key(from + i), val(from + i)); r.add(from + i); } }
#define SETUP(N) { G g; M r; fill(g, r, 10, BIG, N, 0);
static int pos(int n) { int w = v_choose(5, 3); return w == 0 ? 0 : w == 1 ? n / 2 : n - 1; }
#define ALL(N) \
DRV drv_big_hist_##N() { SETUP(N) check(g, r); } FIN \
DRV drv_big_contains_##N() { SETUP(N) for (int i = 0; i < BIG; i++) { RESULT(g.Contains(key(10 + i))); RESULT(g.Contains(key(10 + i), val(10 + i))); } } FIN \
DRV drv_big_remove_##N() { SETUP(N) int i = pos(r.n); RESULT(g.Remove(key(r.k[i]))); r.del(i); check(g, r); } FIN \
DRV drv_big_remove_value_##N() { SETUP(N) int i = pos(r.n), q = pos(r.m[i]); RESULT(g.Remove(key(r.k[i]), val(r.v[i][q]))); r.delv(i, q); check(g, r); } FIN \
DRV drv_big_empty_##N() { SETUP(N) for (int i = 0; i < BIG; i++) RESULT(g.Remove(key(10 + i), val(10 + i))); M z; check(g, z); } FIN \
DRV drv_big_move_##N() { SETUP(N) G h(mv(g)); M z; check(h, r); check(g, z); RESULT(h.Clear()); check(h, z); } FIN \
DRV drv_big_own_##N() { SETUP(N) int i = pos(r.n); int t = r.v[i][0]; g.Add(g.Keys()[i], g.GetByIndex(i)[0]); r.v[i][r.m[i]++] = t; check(g, r); } FIN
ALL(0) ALL(1) ALL(2) ALL(3) ALL(4)
#define JOIN(X, Y, D) DRV drv_big_join_##X##Y() { { G g, h; M r, s; fill(g, r, 10, BIG / 2, X, 0); fill(h, s, 12 + BIG / 2, BIG / 2, Y, D); joined(g, h, r, s); } FIN
static void joined(G& g, G& h, M& r, M& s)
{
	int a = 0, b = 0;
	GroupInnerJoin(g, h,
		[&](const E& k, const List<E2>& l) { RESULT(a < r.n && s.find(r.k[a]) < 0); v_val(&k, sizeof(E), r.k[a]); RESULT(&l == &g.GetByIndex(a)); a++; },
		[&](const E& k, const List<E2>& l) { RESULT(b < s.n && r.find(s.k[b]) < 0); v_val(&k, sizeof(E), s.k[b]); RESULT(&l == &h.GetByIndex(b)); b++; },
		[&](const E& k, const List<E2>& l, const List<E2>& t) { RESULT(a < r.n && b < s.n && cmp(r.k[a], s.k[b]) == 0); RESULT(&l == &g.GetByIndex(a)); RESULT(&t == &h.GetByIndex(b)); a++; b++; });
	RESULT(a == r.n); RESULT(b == s.n);
}
JOIN(0, 1, 0) JOIN(2, 0, 0) JOIN(0, 0, 5) JOIN(4, 2, 0)
#endif
