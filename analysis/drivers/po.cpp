// Partial ordering: every dependency graph over a few items
#include "vdrv.h"
#include "Primitives/Nullable.h"
#include "Primitives/Function.h"
#include "Collections/Dictionary.h"
#include "Collections/Operation.h"
#include "Collections/PartialOrdering.h"
#include "Collections/PartialOrdering.cpp"
using namespace vl;
using namespace vl::collections;
#define DRV extern "C" void
#define RESULT(c) v_require((c), 2)
#define LEGAL(c) v_require((c), 1)
typedef PartialOrderingProcessor P;
// BIG: larger graphs of fixed shapes
#ifndef BIG
#define BIG 0
#endif
#define MAXN (4 + BIG)
// dependencies between nodes, and what follows from them
struct G
{
	int n; bool e[MAXN][MAXN]; bool r[MAXN][MAXN];
	void clear(int _n) { n = _n; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) e[i][j] = false; }
	void close() { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[i][j] = e[i][j] || i == j; for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) if (r[i][k]) for (int j = 0; j < n; j++) if (r[k][j]) r[i][j] = true; }
};
static void sorted(P& p, G& g)
{
	int n = g.n; RESULT(p.nodes.Count() == n); g.close();
	for (int i = 0; i < n; i++)
	{
		bool o[MAXN], q[MAXN]; for (int j = 0; j < n; j++) o[j] = q[j] = false;
		const List<vint>& a = *p.nodes[i].ins; const List<vint>& b = *p.nodes[i].outs;
		for (vi k = 0; k < a.Count(); k++) { vi j = a[k]; RESULT(j >= 0 && j < n); o[j] = true; }
		for (vi k = 0; k < b.Count(); k++) { vi j = b[k]; RESULT(j >= 0 && j < n); q[j] = true; }
		for (int j = 0; j < n; j++) { RESULT(o[j] == g.e[i][j]); RESULT(q[j] == g.e[j][i]); }
	}
	p.Sort();
	int at[MAXN]; for (int i = 0; i < n; i++) at[i] = -1;
	for (vi c = 0; c < p.components.Count(); c++)
	{
		const po::Component& x = p.components[c]; RESULT(x.nodeCount > 0);
		for (vi k = 0; k < x.nodeCount; k++) { vi j = x.firstNode[k]; RESULT(j >= 0 && j < n); RESULT(at[j] == -1); at[j] = (int)c; RESULT(p.nodes[j].component == c); }
	}
	for (int i = 0; i < n; i++) RESULT(at[i] >= 0);
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++)
	{
		RESULT((at[i] == at[j]) == (g.r[i][j] && g.r[j][i]));
		if (g.e[i][j]) RESULT(at[j] <= at[i]);
	}
	if (n) { bool err = false; try { p.Sort(); } catch (const Error&) { err = true; } RESULT(err); }
}
#if !BIG
static bool edge(int i, int j) { return v_bool(10 * i + j + 100); }
// items: the values v[0..n) in that order
static const int V[6][4] = { { 1, 2, 3, 4 }, { 1, 3, 2, 4 }, { 2, 1, 3, 4 }, { 2, 3, 1, 4 }, { 3, 1, 2, 4 }, { 3, 2, 1, 4 } };
template<typename L> static void put(L& l, int n, int perm);
template<> void put(List<vint>& l, int n, int perm) { for (int i = 0; i < n; i++) l.Add(V[perm][i]); }
template<> void put(Array<vint>& l, int n, int perm) { l.Resize(n); for (int i = 0; i < n; i++) l[i] = V[perm][i]; }
template<> void put(SortedList<vint>& l, int n, int perm) { for (int i = 0; i < n; i++) l.Add(V[perm][i]); }
template<typename L> static void byFunc(int n, int perm, bool self, int fix)
{
	{ L items; put(items, n, perm); G g; g.clear(n); int calls = 0;
	P p; p.InitWithFunc(items, [&](vint a, vint b) { calls++; int i = (int)items.IndexOf(a), j = (int)items.IndexOf(b); if (i == j && !self) return false; bool x = fix >= 0 && i == 0 && j > 0 ? ((fix >> (j - 1)) & 1) != 0 : edge(i, j); g.e[i][j] = x; return x; });
	sorted(p, g); } v_final();
}
template<typename L> static void byGroup(int n, int perm, int fix)
{
	{ L items; put(items, n, perm); G g; g.clear(n); Group<vint, vint> d;
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) { bool x = fix >= 0 && i == 0 ? ((fix >> (j - 1)) & 1) != 0 : edge(i, j); if (x) { d.Add(items[i], items[j]); g.e[i][j] = true; } }
	P p; p.InitWithGroup(items, d); sorted(p, g); } v_final();
}
DRV drv_small() { byFunc<List<vint>>(v_choose(1, 3), 0, true, -1); }
#define F3(X) DRV drv_func3_##X() { byFunc<List<vint>>(3, 0, true, X); }
F3(0) F3(1) F3(2) F3(3)
#define G3(P) DRV drv_group3_##P() { byGroup<List<vint>>(3, P, -1); }
G3(0) G3(1) G3(2) G3(3) G3(4) G3(5)
DRV drv_array3() { byFunc<Array<vint>>(3, 3, false, -1); }
DRV drv_sorted3() { byFunc<SortedList<vint>>(3, 0, false, -1); }
// the same dependency given twice
DRV drv_twice() { { List<vint> items; put(items, 2, v_choose(1, 2)*2); G g; g.clear(2); Group<vint, vint> d; for (int k = 0; k < 2; k++) for (int i = 0; i < 2; i++) if (edge(i, k)) { d.Add(items[i], items[1 - i]); g.e[i][1 - i] = true; } P p; p.InitWithGroup(items, d); sorted(p, g); } v_final(); }
// a dependency on something that is no item is rejected, initialising twice as well
DRV drv_foreign() { { List<vint> items; put(items, 2, 0); Group<vint, vint> d; bool l = v_bool(1), r = v_bool(2); d.Add(l ? 9 : 1, r ? 9 : 2); P p; bool err = false; try { p.InitWithGroup(items, d); } catch (const Error&) { err = true; } RESULT(err == (l || r)); if (!err) { G g; g.clear(2); g.e[0][1] = true; sorted(p, g); err = false; try { if (v_bool(3)) p.InitWithGroup(items, d); else { Dictionary<vint, vint> c; p.InitWithSubClass(items, d, c); } } catch (const Error&) { err = true; } RESULT(err); } } v_final(); }
// classes of items: cls 0 = of its own
static void bySub(int n, int perm, int c0, int c1, bool some)
{
	{ List<vint> items; put(items, n, perm); Group<vint, vint> d; Dictionary<vint, vint> s; int cls[MAXN]; bool e[MAXN][MAXN];
	for (int i = 0; i < n; i++) { cls[i] = i == 0 ? c0 : i == 1 ? c1 : v_choose(1 + i, 3); if (cls[i]) s.Add(items[i], 7 - 2 * cls[i]); }
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { e[i][j] = i != j && !(some && (i + 1) % n == j) && edge(i, j); if (e[i][j]) d.Add(items[i], items[j]); }
	P p; p.InitWithSubClass(items, d, s);
	int node[MAXN]; for (int i = 0; i < n; i++) node[i] = -1;
	for (vi k = 0; k < p.nodes.Count(); k++) { const po::Node& x = p.nodes[k]; RESULT(x.subClassItemCount > 0); for (vi q = 0; q < x.subClassItemCount; q++) { vi i = x.firstSubClassItem[q]; RESULT(i >= 0 && i < n); RESULT(node[i] == -1); node[i] = (int)k; } }
	for (int i = 0; i < n; i++) { RESULT(node[i] >= 0); for (int j = 0; j < n; j++) RESULT((node[i] == node[j]) == (i == j || (cls[i] && cls[i] == cls[j]))); }
	G g; g.clear((int)p.nodes.Count()); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (e[i][j]) g.e[node[i]][node[j]] = true;
	sorted(p, g); } v_final();
}
DRV drv_sub_empty() { bySub(0, 0, 0, 0, false); }
DRV drv_sub1() { bySub(1, 0, v_choose(1, 3), 0, false); }
DRV drv_sub2() { bySub(2, v_choose(2, 2) * 2, v_choose(1, 3), v_choose(3, 3), false); }
#define S3(A,B) DRV drv_sub3_##A##B() { bySub(3, A + B, A, B, true); }
S3(0,0) S3(0,1) S3(1,0) S3(1,1) S3(1,2) S3(2,1)
#ifdef DEEP
#define S3D(A,B,C) DRV drv_deep_sub3_##A##B##C() { bySub(3, C, A, B, false); }
S3D(0,0,0) S3D(0,1,1) S3D(1,0,2) S3D(1,1,3) S3D(1,2,4) S3D(2,1,5) S3D(2,1,0) S3D(1,1,4) S3D(0,2,3) S3D(2,0,1)
#define G4(X) DRV drv_deep_group4_##X() { byGroup<List<vint>>(4, 0, X); } DRV drv_deep_func4_##X() { byFunc<List<vint>>(4, 5, false, X); }
G4(0) G4(1) G4(2) G4(3) G4(4) G4(5) G4(6) G4(7)
#endif
#else
// shapes: 0 no edge, 1 chain, 2 chain backwards, 3 one cycle, 4 two interleaved cycles, 5 a tree, 6 everything depends on one, 7 one depends on everything, 8 scattered, 9 small cycles in a chain, 10 complete order
static bool shape(int k, int i, int j)
{
	switch (k)
	{
	case 1: return j == i + 1;
	case 2: return j == i - 1;
	case 3: return j == (i + 1) % BIG;
	case 4: return i + 2 < BIG ? j == i + 2 : j == i % 2;
	case 5: return j > 0 && (j - 1) / 2 == i;
	case 6: return j == BIG / 2 && i != j;
	case 7: return i == BIG / 2 && i != j;
	case 8: return i != j && (i * 7 + j * 3) % 11 == 0;
	case 9: return i % 3 == 2 ? j == i - 2 || j == i + 1 : j == i + 1;
	case 10: return j < i;
	}
	return false;
}
static int item(int i) { return (i * 7) % (BIG % 7 ? BIG : BIG + 1); } // not in order
static void big(int k, bool group)
{
	{ List<vint> items; for (int i = 0; i < BIG; i++) items.Add(item(i)); G g; g.clear(BIG); for (int i = 0; i < BIG; i++) for (int j = 0; j < BIG; j++) g.e[i][j] = shape(k, i, j);
	P p; if (group) { Group<vint, vint> d; for (int i = 0; i < BIG; i++) for (int j = 0; j < BIG; j++) if (g.e[i][j]) d.Add(item(i), item(j)); p.InitWithGroup(items, d); }
	else { int inv[BIG + 1]; for (int i = 0; i < BIG; i++) inv[item(i)] = i; p.InitWithFunc(items, [&](vint a, vint b) { return shape(k, inv[a], inv[b]); }); }
	sorted(p, g); } v_final();
}
// classes of three items, numbered in several ways
static void bigSub(int k, int c)
{
	{ List<vint> items; Group<vint, vint> d; Dictionary<vint, vint> s; int cls[BIG]; for (int i = 0; i < BIG; i++) { items.Add(item(i)); cls[i] = c == 0 ? 1 + i / 3 : c == 1 ? 1 + i % 3 : i % 2 ? 0 : 1 + i % 3; if (cls[i]) s.Add(item(i), 100 - cls[i]); }
	for (int i = 0; i < BIG; i++) for (int j = 0; j < BIG; j++) if (shape(k, i, j)) d.Add(item(i), item(j));
	P p; p.InitWithSubClass(items, d, s);
	int node[MAXN]; for (int i = 0; i < BIG; i++) node[i] = -1;
	for (vi q = 0; q < p.nodes.Count(); q++) { const po::Node& x = p.nodes[q]; RESULT(x.subClassItemCount > 0); for (vi w = 0; w < x.subClassItemCount; w++) { vi i = x.firstSubClassItem[w]; RESULT(i >= 0 && i < BIG); RESULT(node[i] == -1); node[i] = (int)q; } }
	for (int i = 0; i < BIG; i++) { RESULT(node[i] >= 0); for (int j = 0; j < BIG; j++) RESULT((node[i] == node[j]) == (i == j || (cls[i] && cls[i] == cls[j]))); }
	G g; g.clear((int)p.nodes.Count()); for (int i = 0; i < BIG; i++) for (int j = 0; j < BIG; j++) if (shape(k, i, j)) g.e[node[i]][node[j]] = true;
	sorted(p, g); } v_final();
}
#define B(K) DRV drv_big_func_##K() { big(K, false); } DRV drv_big_group_##K() { big(K, true); } DRV drv_big_sub0_##K() { bigSub(K, 0); } DRV drv_big_sub1_##K() { bigSub(K, 1); } DRV drv_big_sub2_##K() { bigSub(K, 2); }
B(0) B(1) B(2) B(3) B(4) B(5) B(6) B(7) B(8) B(9) B(10)
#endif
