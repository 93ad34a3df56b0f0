// Lazy sequences: every operator against its definition on short sequences of arbitrary elements
#include "vdrv.h"
#include "Primitives/Nullable.h"
#include "Primitives/Function.h"
#include "Collections/Dictionary.h"
#include "Collections/Operation.h"
#include "Collections/OperationString.h"
template class vl::ObjectString<char32_t>;
#include "Collections/Dictionary.h"
using namespace vl;
using namespace vl::collections;
#ifdef DEEP
#define W 5
#else
#define W 4
#endif
#define DRV extern "C" void
// BIG: the same drivers on one long sequence whose order and predicates are fixed (several patterns), to reach what depends on size
#ifndef BIG
#define BIG 0
#endif
#define A0 10
#define B0 (20 + BIG)
#define C0 (30 + 2 * BIG)
#define TAGS (40 + 3 * BIG)
#define CAP (12 + 8 * BIG)
template<typename T> static T&& mv(T& t) { return static_cast<T&&>(t); }
static E& obj(int t) { return *(E*)v_obj(t, sizeof(E)); }
#define LEGAL(c) v_require((c), 1)
#define RESULT(c) v_require((c), 2)
#define FIN v_final(); }
struct Exp { int n = 0; int t[CAP]; void add(int x) { t[n++] = x; } };
struct Pred { bool operator()(const E& e) const { return v_pred(&e, sizeof(E), 1); } };
static bool pred(int t) { return v_pred(&obj(t), sizeof(E), 1); }
static int cmp(int a, int b) { return v_cmp(&obj(a), &obj(b), sizeof(E)); }
static int pattern(int i, int k, int o) { return k == 0 ? i : k == 1 ? BIG - i : k == 2 ? 0 : k == 3 ? (i * 7 + o) % (BIG + 1) : i < BIG / 2 ? 2 * i : 2 * (BIG - i) - 1; }
static int sizeof_(int b, int max) { if (!BIG) return v_choose(b, max + 1); int n = max > 2 ? BIG : max == 2 ? BIG - 1 : 2, k = v_choose(80, 2) ? 4 : 3; for (int i = 0; i < n; i++) v_rank(&obj(b + i), sizeof(E), pattern(i, k, b - A0)); return n; }
static int cnt(int tag, int n) { if (!BIG) return v_choose(tag, n); int k = v_choose(tag, 3); return k == 0 ? 1 : k == 1 ? BIG / 2 : BIG + 1; }
struct Src { List<E> xs; int n; int base; Src(int b, int max) : base(b) { n = sizeof_(b, max); for (int i = 0; i < n; i++) xs.Add(obj(b + i)); } void to(Exp& x) { for (int i = 0; i < n; i++) x.add(base + i); } };
static void same(const E& e, int t) { v_val(&e, sizeof(E), t); }
// the whole enumerator contract: contents, indices, exhaustion, reset, and clones that are independent of the original
template<typename T, typename C> static void run(IEnumerator<T>* e, int from, int n, C check)
{
	for (int i = from; i < n; i++) { RESULT(e->Next()); RESULT(e->Index() == i); check(e->Current(), i); }
	RESULT(!e->Next()); RESULT(!e->Next());
}
template<typename T, typename C> static void fidelity(const IEnumerable<T>& ys, int n, C check)
{
	IEnumerator<T>* e = ys.CreateEnumerator();
	int p = BIG ? v_choose(90, 3) * (n / 2) : v_choose(90, W + 1); if (p > n) p = n;
	for (int i = 0; i < p; i++) { RESULT(e->Next()); RESULT(e->Index() == i); check(e->Current(), i); }
	IEnumerator<T>* c = e->Clone();
	if (v_bool(91))
	{
		if (p > 0) { RESULT(c->Index() == p - 1); check(c->Current(), p - 1); }
		run(e, p, n, check); delete e;
		if (p > 0) { RESULT(c->Index() == p - 1); check(c->Current(), p - 1); }
		run(c, p, n, check); delete c;
	}
	else
	{
		run(c, p, n, check); delete c;
		if (p > 0) { RESULT(e->Index() == p - 1); check(e->Current(), p - 1); }
		e->Reset(); run(e, 0, n, check); delete e;
	}
}
static void sameseq(const IEnumerable<E>& ys, Exp& x) { fidelity(ys, x.n, [&](const E& e, int i) { same(e, x.t[i]); }); }
#define SRC(N) Src a(A0, N); auto xs = From(a.xs); Exp x
#define SRC2(N, M) SRC(N); Src b(B0, M); auto ys = From(b.xs)
static bool in(int t, Exp& x) { for (int i = 0; i < x.n; i++) if (cmp(t, x.t[i]) == 0) return true; return false; }
static bool in(int t, Src& s) { for (int i = 0; i < s.n; i++) if (cmp(t, s.base + i) == 0) return true; return false; }
static void distinct(Exp& x, Exp& y) { for (int i = 0; i < x.n; i++) if (!in(x.t[i], y)) y.add(x.t[i]); }
struct Sel { E2 operator()(const E& e) const { E2 r; v_map(&r, sizeof(E2), &e, sizeof(E), 1); return r; } };
static void samemap(const IEnumerable<E2>& ys, Exp& x) { fidelity(ys, x.n, [&](const E2& e, int i) { v_is_map(&e, sizeof(E2), 1, x.t[i]); }); }
static void samevals(const IEnumerable<E>& ys, Exp& x) { auto e = ys.CreateEnumerator(); run(e, 0, x.n, [&](const E& v, int i) { same(v, x.t[i]); }); delete e; }
static void samelist(const List<E>& r, Exp& x) { RESULT(r.Count() == x.n); for (int i = 0; i < x.n; i++) same(r[i], x.t[i]); }
static void samearray(const Array<E>& r, Exp& x) { RESULT(r.Count() == x.n); for (int i = 0; i < x.n; i++) same(r[i], x.t[i]); }
// ---- sources
DRV drv_s_list() { { SRC(W); a.to(x); sameseq(a.xs, x); } FIN
DRV drv_s_array() { { SRC(W); a.to(x); Array<E> r; CopyFrom(r, a.xs); sameseq(r, x); sameseq(From(r), x); } FIN
DRV drv_s_sorted() { { SRC(W); SortedList<E> r; for (int i = 0; i < a.n; i++) r.Add(obj(A0 + i)); RESULT(r.Count() == a.n); for (int i = 0; i < a.n; i++) x.add(v_tag(&r[i], sizeof(E))); for (int i = 0; i + 1 < a.n; i++) RESULT(cmp(x.t[i], x.t[i + 1]) <= 0); sameseq(r, x); } FIN
DRV drv_s_from() { { SRC(W); a.to(x); sameseq(xs, x); LazyList<E> ys(xs), zs; zs = ys; sameseq(zs, x); } FIN
DRV drv_s_move() { { SRC(2); a.to(x); LazyList<E> ys(mv(xs)), zs; samevals(ys, x); zs = mv(ys); samevals(zs, x); RESULT(ys.Count() == 0); RESULT(xs.IsEmpty()); } FIN
DRV drv_s_ptr() { { SRC(W); a.to(x); auto p = Ptr(new List<E>); CopyFrom(*p.Obj(), a.xs); LazyList<E> ys(p); p = nullptr; sameseq(ys, x); } FIN
DRV drv_s_empty() { { Exp x; LazyList<E> ys; sameseq(ys, x); RESULT(ys.Count() == 0); RESULT(ys.IsEmpty()); } FIN
DRV drv_s_pointers() { { SRC(W); v_assume(a.n > 0); a.to(x); const E* p = &a.xs[0]; sameseq(From(p, p + a.n), x); } FIN
DRV drv_s_carray() { { Exp x; x.add(1); x.add(2); x.add(3); E r[3] = { obj(1), obj(2), obj(3) }; sameseq(From(r), x); } FIN
DRV drv_s_range() { { vi s = v_int(1), c = BIG ? BIG : v_choose(1, 4); fidelity(Range<vi>(s, c), c, [&](vi v, int i) { RESULT(v == s + i); }); } FIN
DRV drv_s_range_neg() { { vi s = v_int(1), c = v_int(2); v_assume(c <= 0); RESULT(Range<vi>(s, c).IsEmpty()); } FIN
DRV drv_s_dict() { { Dictionary<E, vi> d; int n = sizeof_(A0, 3); for (int i = 0; i < n; i++) d.Set(obj(A0 + i), i); Exp x; for (int i = 0; i < d.Count(); i++) x.add(v_tag(&d.Keys()[i], sizeof(E))); fidelity(d, x.n, [&](const Pair<const E&, const vi&>& p, int i) { same(p.key, x.t[i]); RESULT(p.value == d.Values()[i]); }); } FIN
DRV drv_s_group() { { Group<vi, E> g; int n = sizeof_(A0, 3); Exp x, y; for (int i = 0; i < n; i++) { if (BIG ? i % 3 == 0 : v_bool(i)) { g.Add(1, obj(A0 + i)); x.add(A0 + i); } else { g.Add(2, obj(A0 + i)); y.add(A0 + i); } }
	int m = x.n; for (int i = 0; i < y.n; i++) x.add(y.t[i]); fidelity(g, x.n, [&](const Pair<const vi&, const E&>& p, int i) { same(p.value, x.t[i]); RESULT(p.key == (i < m ? 1 : 2)); }); } FIN
// ---- operators
DRV drv_o_where() { { SRC(W); for (int i = 0; i < a.n; i++) if (pred(A0 + i)) x.add(A0 + i); sameseq(xs.Where(Pred()), x); } FIN
DRV drv_o_select() { { SRC(W); a.to(x); samemap(xs.Select(Sel()), x); } FIN
DRV drv_o_selectwhere() { { SRC(W); for (int i = 0; i < a.n; i++) if (pred(A0 + i)) x.add(A0 + i); samemap(xs.Where(Pred()).Select(Sel()), x); } FIN
DRV drv_o_concat() { { SRC2(2, 2); a.to(x); b.to(x); sameseq(xs.Concat(b.xs), x); } FIN
DRV drv_o_take() { { SRC(W); vi c = BIG ? cnt(1, 0) : v_arg(1); for (int i = 0; i < a.n && i < c; i++) x.add(A0 + i); sameseq(xs.Take(c), x); } FIN
DRV drv_o_take_where() { { SRC(W); vi c = cnt(1, 3); for (int i = 0; i < a.n && x.n < c; i++) if (pred(A0 + i)) x.add(A0 + i); sameseq(xs.Where(Pred()).Take(c), x); } FIN
DRV drv_o_take_skip() { { SRC(W); vi c = cnt(1, 3), d = cnt(2, 3); for (int i = c; i < a.n && i < c + d; i++) x.add(A0 + i); sameseq(xs.Skip(c).Take(d), x); } FIN
DRV drv_o_take_concat() { { SRC2(2, 2); vi c = cnt(1, 5); Exp y; a.to(y); b.to(y); for (int i = 0; i < y.n && i < c; i++) x.add(y.t[i]); sameseq(xs.Concat(b.xs).Take(c), x); } FIN
DRV drv_o_skip() { { SRC(W); vi c = BIG ? cnt(1, 0) : v_arg(1); v_assume(c >= 0); for (int i = 0; i < a.n; i++) if (i >= c) x.add(A0 + i); sameseq(xs.Skip(c), x); } FIN
DRV drv_o_skip_neg() { { SRC(2); vi c = v_arg(1); v_assume(c < 0); a.to(x); int k = 0; for (auto& e : xs.Skip(c)) { same(e, x.t[k]); k++; } RESULT(k == a.n); } FIN
DRV drv_o_skip_where() { { SRC(W); vi c = cnt(1, 3); vi k = 0; for (int i = 0; i < a.n; i++) if (pred(A0 + i)) { if (k >= c) x.add(A0 + i); k++; } sameseq(xs.Where(Pred()).Skip(c), x); } FIN
DRV drv_o_repeat() { { SRC(2); vi c = (BIG ? 2 : v_choose(1, 4)); for (int k = 0; k < c; k++) a.to(x); sameseq(xs.Repeat(c), x); } FIN
DRV drv_o_repeat_many() { { SRC(1); vi c = BIG ? BIG : 3; for (int k = 0; k < c; k++) a.to(x); sameseq(xs.Repeat(c), x); } FIN
DRV drv_o_repeat_neg() { { SRC(2); vi c = v_arg(1); v_assume(c <= 0); RESULT(xs.Repeat(c).Count() == 0); } FIN
DRV drv_o_repeat_where() { { SRC(2); vi c = (BIG ? 2 : v_choose(1, 3)); for (int k = 0; k < c; k++) for (int i = 0; i < a.n; i++) if (pred(A0 + i)) x.add(A0 + i); sameseq(xs.Where(Pred()).Repeat(c), x); } FIN
DRV drv_o_repeat_select() { { SRC(2); a.to(x); a.to(x); samemap(xs.Select(Sel()).Repeat(2), x); } FIN
DRV drv_o_repeat_skip() { { SRC(2); for (int k = 0; k < 2; k++) for (int i = 1; i < a.n; i++) x.add(A0 + i); sameseq(xs.Skip(1).Repeat(2), x); } FIN
DRV drv_o_repeat_take() { { SRC(2); for (int k = 0; k < 2; k++) for (int i = 0; i < a.n && i < 1; i++) x.add(A0 + i); sameseq(xs.Take(1).Repeat(2), x); } FIN
DRV drv_o_repeat_concat() { { SRC2(1, 1); for (int k = 0; k < 2; k++) { a.to(x); b.to(x); } sameseq(xs.Concat(b.xs).Repeat(2), x); } FIN
DRV drv_o_repeat_distinct() { { SRC(2); Exp y; a.to(y); for (int k = 0; k < 2; k++) { Exp z; distinct(y, z); for (int i = 0; i < z.n; i++) x.add(z.t[i]); } sameseq(xs.Distinct().Repeat(2), x); } FIN
DRV drv_o_repeat_reverse() { { SRC(2); for (int k = 0; k < 2; k++) for (int i = a.n - 1; i >= 0; i--) x.add(A0 + i); sameseq(xs.Reverse().Repeat(2), x); } FIN
DRV drv_o_repeat_repeat() { { SRC(1); for (int k = 0; k < 4; k++) a.to(x); sameseq(xs.Repeat(2).Repeat(2), x); } FIN
DRV drv_o_distinct() { { SRC(W); Exp y; a.to(y); distinct(y, x); sameseq(xs.Distinct(), x); } FIN
DRV drv_o_reverse() { { SRC(W); for (int i = a.n - 1; i >= 0; i--) x.add(A0 + i); sameseq(xs.Reverse(), x); } FIN
DRV drv_o_pairwise() { { SRC2(3, 3); int n = a.n < b.n ? a.n : b.n; fidelity(xs.Pairwise(b.xs), n, [&](const Pair<E, E>& p, int i) { same(p.key, A0 + i); same(p.value, B0 + i); }); } FIN
DRV drv_o_intersect() { { SRC2(2, 2); Exp y; for (int i = 0; i < a.n; i++) if (in(A0 + i, b)) y.add(A0 + i); distinct(y, x); sameseq(xs.Intersect(b.xs), x); } FIN
DRV drv_o_except() { { SRC2(2, 2); Exp y; for (int i = 0; i < a.n; i++) if (!in(A0 + i, b)) y.add(A0 + i); distinct(y, x); sameseq(xs.Except(b.xs), x); } FIN
DRV drv_o_union() { { SRC2(2, 1); Exp y; a.to(y); b.to(y); distinct(y, x); sameseq(xs.Union(b.xs), x); } FIN
DRV drv_o_evaluate() { { SRC(W); for (int i = 0; i < a.n; i++) if (pred(A0 + i)) x.add(A0 + i); sameseq(xs.Where(Pred()).Evaluate(v_bool(5)), x); } FIN
DRV drv_o_evaluate_own() { { Exp y; LazyList<E> r; { SRC(2); a.to(y); r = v_bool(5) ? xs.Select([](const E& e) { return e; }).Evaluate() : xs.Evaluate(true); } samevals(r, y); } FIN
DRV drv_o_selectmany() { { SRC2(2, (BIG ? 1 : 2)); Src c(C0, 1); for (int i = 0; i < a.n; i++) if (pred(A0 + i)) b.to(x); else c.to(x); sameseq(xs.SelectMany([&](const E& e) { return v_pred(&e, sizeof(E), 1) ? From(b.xs) : From(c.xs); }), x); } FIN
DRV drv_o_groupby() { { SRC(W); Exp g[2]; int first[2] = { -1, -1 }; for (int i = 0; i < a.n; i++) { int k = pred(A0 + i) ? 1 : 0; g[k].add(A0 + i); if (first[k] < 0) first[k] = i; } vi ks[2]; int m = 0; for (int i = 0; i < a.n; i++) for (int k = 0; k < 2; k++) if (first[k] == i) ks[m++] = k;
	auto r = xs.GroupBy([](const E& e) -> vi { return v_pred(&e, sizeof(E), 1) ? 1 : 0; }); auto e = r.CreateEnumerator(); run(e, 0, m, [&](const Pair<vi, LazyList<E>>& p, int i) { RESULT(p.key == ks[i]); samevals(p.value, g[ks[i]]); }); delete e; } FIN
// ---- materialised sequences call nothing back any more
#define CALLS int calls = 0; auto p = [&](const E& e) { calls++; return v_pred(&e, sizeof(E), 1); }; auto ws = xs.Where(p); Exp w; for (int i = 0; i < a.n; i++) if (pred(A0 + i)) w.add(A0 + i)
#define QUIET(R) { LazyList<E> r = (R).Evaluate(); int c = calls; samevals(r, x); samevals(r, x); RESULT(calls == c); }
DRV drv_o_quiet_where() { { SRC(2); CALLS; x = w; QUIET(ws); } FIN
DRV drv_o_quiet_concat1() { { SRC2(2, 1); CALLS; x = w; b.to(x); QUIET(ws.Concat(b.xs)); } FIN
DRV drv_o_quiet_concat2() { { SRC2(2, 1); CALLS; b.to(x); for (int i = 0; i < w.n; i++) x.add(w.t[i]); QUIET(ys.Concat(ws)); } FIN
DRV drv_o_quiet_take() { { SRC(2); CALLS; for (int i = 0; i < w.n && i < 1; i++) x.add(w.t[i]); QUIET(ws.Take(1)); } FIN
DRV drv_o_quiet_skip() { { SRC(2); CALLS; for (int i = 1; i < w.n; i++) x.add(w.t[i]); QUIET(ws.Skip(1)); } FIN
DRV drv_o_quiet_repeat() { { SRC(2); CALLS; for (int k = 0; k < 2; k++) for (int i = 0; i < w.n; i++) x.add(w.t[i]); QUIET(ws.Repeat(2)); } FIN
DRV drv_o_quiet_reverse() { { SRC(2); CALLS; for (int i = w.n - 1; i >= 0; i--) x.add(w.t[i]); QUIET(ws.Reverse()); } FIN
DRV drv_o_quiet_distinct() { { SRC(2); CALLS; distinct(w, x); QUIET(ws.Distinct()); } FIN
DRV drv_o_quiet_select() { { SRC(2); int calls = 0; a.to(x); QUIET(xs.Select([&](const E& e) { calls++; return e; })); } FIN
DRV drv_o_quiet_pairwise1() { { SRC2(2, 2); CALLS; int n = w.n < b.n ? w.n : b.n; auto r = ws.Pairwise(b.xs).Evaluate(); int c = calls; auto e = r.CreateEnumerator(); run(e, 0, n, [&](const Pair<E, E>& q, int i) { same(q.key, w.t[i]); same(q.value, B0 + i); }); delete e; RESULT(calls == c); } FIN
DRV drv_o_quiet_pairwise2() { { SRC2(2, 2); CALLS; int n = w.n < b.n ? w.n : b.n; auto r = ys.Pairwise(ws).Evaluate(); int c = calls; auto e = r.CreateEnumerator(); run(e, 0, n, [&](const Pair<E, E>& q, int i) { same(q.value, w.t[i]); same(q.key, B0 + i); }); delete e; RESULT(calls == c); } FIN
DRV drv_o_raw_intersect() { { SRC2(2, 2); for (int i = 0; i < a.n; i++) if (in(A0 + i, b)) x.add(A0 + i); sameseq(LazyList<E>(new IntersectExceptEnumerator<E, true>(xs.CreateEnumerator(), b.xs)), x); } FIN
DRV drv_o_raw_except() { { SRC2(2, 2); for (int i = 0; i < a.n; i++) if (!in(A0 + i, b)) x.add(A0 + i); sameseq(LazyList<E>(new IntersectExceptEnumerator<E, false>(xs.CreateEnumerator(), b.xs)), x); } FIN
// ---- typed views of shared objects
struct PB : public Object { int id; PB(int i) : id(i) {} };
struct PD : public PB { PD(int i) : PB(i) {} };
DRV drv_o_cast() { { List<Ptr<PB>> l; int n = sizeof_(A0, 3); bool k[3 + BIG]; for (int i = 0; i < n; i++) { k[i] = BIG ? i % 3 == 1 : v_bool(20 + i); l.Add(k[i] ? Ptr<PB>(new PD(i)) : Ptr<PB>(new PB(i))); }
	int i = 0; for (auto p : From(l).Cast<PD>()) { RESULT((bool)p == k[i]); if (k[i]) RESULT(p->id == i); i++; } RESULT(i == n);
	int j = 0; for (auto p : From(l).FindType<PD>()) { while (!k[j]) j++; RESULT(p && p->id == j); j++; } while (j < n && !k[j]) j++; RESULT(j == n); } FIN
// ---- results
struct Agg { E operator()(const E& p, const E& q) const { return v_pred(&p, sizeof(E), 2) ? p : q; } };
DRV drv_r_aggregate() { { SRC(W); int r = a.n ? A0 : -1; for (int i = 1; i < a.n; i++) if (!v_pred(&obj(r), sizeof(E), 2)) r = A0 + i; try { E e = xs.Aggregate(Agg()); LEGAL(a.n > 0); same(e, r); } catch (const Error&) { LEGAL(a.n == 0); } } FIN
DRV drv_r_aggregate_init() { { SRC(W); int r = 5; for (int i = 0; i < a.n; i++) if (!v_pred(&obj(r), sizeof(E), 2)) r = A0 + i; E e = xs.Aggregate(obj(5), Agg()); same(e, r); } FIN
DRV drv_r_all() { { SRC(W); bool r = true; for (int i = 0; i < a.n; i++) r = pred(A0 + i) && r; RESULT(xs.All(Pred()) == r); } FIN
DRV drv_r_any() { { SRC(W); bool r = false; for (int i = 0; i < a.n; i++) r = pred(A0 + i) || r; RESULT(xs.Any(Pred()) == r); } FIN
#if BIG
DRV drv_r_all_one() { { SRC(W); int k = v_choose(91, 3), p = k == 0 ? 0 : k == 1 ? a.n - 1 : a.n; RESULT(xs.All([=](const E& e) { return v_tag(&e, sizeof(E)) != A0 + p; }) == (p == a.n)); RESULT(xs.Any([=](const E& e) { return v_tag(&e, sizeof(E)) == A0 + p; }) == (p < a.n)); } FIN
DRV drv_l_search() { { int k = BIG > 300 ? 0 : v_choose(91, 3); SortedList<vi> l; for (vi i = 0; i < BIG; i++) l.Add(2 * (k == 0 ? i : k == 1 ? BIG - 1 - i : i % 2 ? BIG - 1 - i / 2 : i / 2)); RESULT(l.Count() == BIG); for (vi i = 0; i < BIG; i++) RESULT(l[i] == 2 * i); for (vi i = 0; i < BIG; i += i < 8 || i + 8 > BIG ? 1 : 1 + BIG / 150) RESULT(l.IndexOf(2 * i) == i); for (vi i = 0; i <= BIG; i += i < 8 || i + 8 > BIG ? 1 : 1 + BIG / 150) RESULT(l.IndexOf(2 * i - 1) == -1);
	RESULT(l.Contains(2 * (BIG - 1))); RESULT(!l.Contains(2 * BIG)); RESULT(l.Remove(2 * (BIG - 1))); RESULT(!l.Remove(2 * (BIG - 1))); RESULT(l.Count() == BIG - 1); RESULT(l[BIG - 2] == 2 * (BIG - 2)); RESULT(l.Remove(0)); RESULT(l[0] == 2); } FIN
DRV drv_l_list() { { List<vi> l; for (vi i = 0; i < BIG; i++) RESULT(l.Add(i) == i); for (vi i = 0; i < BIG; i++) RESULT(l[i] == i); for (vi i = 0; i < BIG; i += 1 + BIG / 24) RESULT(l.IndexOf(i) == i); RESULT(l.IndexOf(BIG) == -1); l.RemoveRange(1, BIG - 2); RESULT(l.Count() == 2); RESULT(l[0] == 0); RESULT(l[1] == BIG - 1); } FIN
DRV drv_r_extrema() { { int k = v_choose(91, 2); List<E> l; for (int i = 0; i < BIG; i++) { v_rank(&obj(A0 + i), sizeof(E), pattern(i, k, 0)); l.Add(obj(A0 + i)); } LazyList<E> xs(l); E e = xs.Max(), f = xs.Min(); same(e, k ? A0 : A0 + BIG - 1); same(f, k ? A0 + BIG - 1 : A0); } FIN
#endif
DRV drv_r_max() { { SRC(W); try { E e = xs.Max(); LEGAL(a.n > 0); int t = v_tag(&e, sizeof(E)); RESULT(t >= A0 && t < A0 + a.n); for (int i = 0; i < a.n; i++) RESULT(cmp(A0 + i, t) <= 0); } catch (const Error&) { LEGAL(a.n == 0); } } FIN
DRV drv_r_min() { { SRC(W); try { E e = xs.Min(); LEGAL(a.n > 0); int t = v_tag(&e, sizeof(E)); RESULT(t >= A0 && t < A0 + a.n); for (int i = 0; i < a.n; i++) RESULT(cmp(A0 + i, t) >= 0); } catch (const Error&) { LEGAL(a.n == 0); } } FIN
DRV drv_r_first() { { SRC(2); try { E e = xs.First(); LEGAL(a.n > 0); same(e, A0); } catch (const Error&) { LEGAL(a.n == 0); } E f = xs.First(obj(5)); same(f, a.n ? A0 : 5); } FIN
DRV drv_r_last() { { SRC(W); try { E e = xs.Last(); LEGAL(a.n > 0); same(e, A0 - 1 + a.n); } catch (const Error&) { LEGAL(a.n == 0); } E f = xs.Last(obj(5)); same(f, a.n ? A0 - 1 + a.n : 5); } FIN
DRV drv_r_count() { { SRC(W); RESULT(xs.Count() == a.n); RESULT(xs.IsEmpty() == (a.n == 0)); int k = 0; for (int i = 0; i < a.n; i++) if (pred(A0 + i)) k++; RESULT(xs.Where(Pred()).Count() == k); RESULT(xs.Where(Pred()).IsEmpty() == (k == 0)); } FIN
DRV drv_r_compare() { { SRC2(2, 2); int r = 0; for (int i = 0; r == 0; i++) { if (i >= a.n || i >= b.n) { r = i < a.n ? 1 : i < b.n ? -1 : 0; break; } r = cmp(A0 + i, B0 + i); } auto o = CompareEnumerable(a.xs, b.xs); RESULT((o < 0) == (r < 0)); RESULT((o > 0) == (r > 0)); } FIN
DRV drv_r_foreach() { { SRC(W); int k = 0; for (auto& e : a.xs) { same(e, A0 + k); k++; } RESULT(k == a.n); k = 0; for (auto& e : xs) { same(e, A0 + k); k++; } RESULT(k == a.n); } FIN
DRV drv_r_indexed() { { SRC(W); int k = 0; for (auto [e, i] : indexed(a.xs)) { same(e, A0 + k); RESULT(i == k); k++; } RESULT(k == a.n); k = 0; for (auto [e, i] : indexed(xs)) { same(e, A0 + k); RESULT(i == k); k++; } RESULT(k == a.n); } FIN
DRV drv_r_break() { { SRC(W); int c = cnt(1, 3), k = 0; for (auto& e : xs.Where(Pred())) { v_val(&e, sizeof(E), -2); if (k++ == c) break; } } FIN
// ---- copying
DRV drv_c_list_list() { { SRC2(2, 2); bool ap = v_bool(5); if (ap) b.to(x); a.to(x); CopyFrom(b.xs, a.xs, ap); samelist(b.xs, x); Exp y; a.to(y); samelist(a.xs, y); } FIN
DRV drv_c_list_lazy() { { SRC2(2, 2); bool ap = v_bool(5); if (ap) b.to(x); for (int i = 0; i < a.n; i++) if (pred(A0 + i)) x.add(A0 + i); CopyFrom(b.xs, xs.Where(Pred()), ap); samelist(b.xs, x); } FIN
DRV drv_c_list_array() { { SRC2(2, 2); bool ap = v_bool(5); Array<E> r; CopyFrom(r, a.xs); if (ap) b.to(x); a.to(x); CopyFrom(b.xs, r, ap); samelist(b.xs, x); Exp y; a.to(y); samearray(r, y); } FIN
DRV drv_c_array_list() { { SRC2(2, 2); bool ap = v_bool(5); Array<E> r; CopyFrom(r, b.xs); if (ap) b.to(x); a.to(x); CopyFrom(r, a.xs, ap); samearray(r, x); } FIN
DRV drv_c_array_lazy() { { SRC2(2, 2); bool ap = v_bool(5); Array<E> r; CopyFrom(r, b.xs); if (ap) b.to(x); for (int i = 0; i < a.n; i++) if (pred(A0 + i)) x.add(A0 + i); CopyFrom(r, xs.Where(Pred()), ap); samearray(r, x); } FIN
DRV drv_c_array_self() { { SRC(2); Array<E> r; CopyFrom(r, a.xs); a.to(x); a.to(x); CopyFrom(r, r, true); samearray(r, x); } FIN
DRV drv_c_list_self() { { SRC(2); a.to(x); a.to(x); CopyFrom(a.xs, a.xs, true); samelist(a.xs, x); } FIN
DRV drv_c_list_pointer() { { SRC2(2, 2); v_assume(a.n > 0); bool ap = v_bool(5); if (ap) b.to(x); a.to(x); const E* p = &a.xs[0]; if (v_bool(6)) CopyFrom(b.xs, p, (vi)a.n, ap); else CopyFrom(b.xs, p, p + a.n, ap); samelist(b.xs, x); } FIN
DRV drv_c_array_pointer() { { SRC2(2, 2); v_assume(a.n > 0); bool ap = v_bool(5); if (ap) b.to(x); a.to(x); const E* p = &a.xs[0]; Array<E> r; CopyFrom(r, b.xs); if (v_bool(6)) CopyFrom(r, p, (vi)a.n, ap); else CopyFrom(r, p, p + a.n, ap); samearray(r, x); } FIN
// without saying so, copying replaces
DRV drv_c_replaces() { { SRC2(2, 2); v_assume(a.n > 0); a.to(x); const E* p = &a.xs[0]; int k = v_choose(6, 4); if (k == 0) CopyFrom(b.xs, a.xs); else if (k == 1) CopyFrom(b.xs, xs); else if (k == 2) CopyFrom(b.xs, p, (vi)a.n); else CopyFrom(b.xs, p, p + a.n); samelist(b.xs, x); } FIN
DRV drv_c_sorted() { { SRC2(2, 2); bool ap = v_bool(5); SortedList<E> r; CopyFrom(r, b.xs); CopyFrom(r, a.xs, ap); int n = a.n + (ap ? b.n : 0); RESULT(r.Count() == n); bool seen[TAGS]; for (int i = 0; i < TAGS; i++) seen[i] = false; for (int i = 0; i < n; i++) { int t = v_tag(&r[i], sizeof(E)); RESULT(t >= A0 && !seen[t]); seen[t] = true; if (i) RESULT(cmp(v_tag(&r[i - 1], sizeof(E)), t) <= 0); } for (int i = 0; i < a.n; i++) RESULT(seen[A0 + i]); } FIN
DRV drv_c_dict() { { Dictionary<vi, E> p, q; int n = v_choose(1, 3); for (int i = 0; i < n; i++) p.Set(i, obj(A0 + i)); q.Set(1, obj(1)); q.Set(5, obj(2)); bool ap = v_bool(5); CopyFrom(q, p, ap); RESULT(q.Count() == (ap ? (n == 2 ? 3 : n + 2) : n)); for (int i = 0; i < n; i++) same(q[i], A0 + i); if (ap) { same(q[5], 2); if (n < 2) same(q[1], 1); } for (int i = 0; i < n; i++) same(p[i], A0 + i); } FIN
// ---- sorting
template<typename F> static void sorted(const LazyList<E>& r, int n, F order) { Exp y; bool seen[TAGS]; for (int i = 0; i < TAGS; i++) seen[i] = false; for (auto& e : r) { int t = v_tag(&e, sizeof(E)); RESULT(t >= A0 && t < A0 + n); RESULT(!seen[t]); seen[t] = true; y.add(t); } RESULT(y.n == n); for (int i = 0; i + 1 < n; i++) RESULT(order(y.t[i], y.t[i + 1])); }
// text into collections and back: any three characters, any slice of them
static char32_t chr(int i) { return (char32_t)v_ch(60 + i, 32); }
struct Txt { char32_t b[5]; int from, n; U32String s; Txt(int t) { b[0] = chr(0); b[1] = chr(1); b[2] = chr(2); b[3] = chr(3); b[4] = 0; for (int i = 0; i < 4; i++) v_assume(b[i] != 0); from = v_choose(t, 3); n = v_choose(t + 1, 3); U32String w = v_bool(t + 2) ? U32String::Unmanaged(b) : U32String::CopyFrom(b, 4); s = w.Sub(from, n); } };
static void text(const U32String& s, const char32_t* p, int n) { RESULT(s.Length() == n); for (int i = 0; i < n; i++) RESULT(s[i] == p[i]); RESULT(s.Buffer()[n] == 0); }
DRV drv_c_string_list() { { Txt t(70); bool ap = v_bool(75); List<char32_t> c; int k = v_choose(76, 3); for (int i = 0; i < k; i++) c.Add(chr(5 + i)); CopyFrom(c, t.s, ap); if (!ap) k = 0; RESULT(c.Count() == k + t.n); for (int i = 0; i < k; i++) RESULT(c[i] == chr(5 + i)); for (int i = 0; i < t.n; i++) RESULT(c[k + i] == t.b[t.from + i]); text(t.s, t.b + t.from, t.n); } FIN
DRV drv_c_string_array() { { Txt t(70); bool ap = v_bool(75); int k = v_choose(76, 3); Array<char32_t> c(k); for (int i = 0; i < k; i++) c[i] = chr(5 + i); CopyFrom(c, t.s, ap); if (!ap) k = 0; RESULT(c.Count() == k + t.n); for (int i = 0; i < k; i++) RESULT(c[i] == chr(5 + i)); for (int i = 0; i < t.n; i++) RESULT(c[k + i] == t.b[t.from + i]); } FIN
DRV drv_c_to_string() { { Txt t(70); bool ap = v_bool(75); List<char32_t> c; int k = v_choose(76, 3); for (int i = 0; i < k; i++) c.Add(chr(5 + i)); U32String o = t.s; if (v_bool(77)) CopyFrom(t.s, c, ap); else CopyFrom(t.s, From(c), ap); char32_t x[8]; int n = 0; if (ap) for (int i = 0; i < t.n; i++) x[n++] = t.b[t.from + i]; for (int i = 0; i < k; i++) x[n++] = chr(5 + i); text(t.s, x, n); text(o, t.b + t.from, t.n); RESULT(c.Count() == k); for (int i = 0; i < k; i++) RESULT(c[i] == chr(5 + i)); } FIN
DRV drv_q_self() { { SRC(W); sorted(xs.OrderBySelf(), a.n, [](int p, int q) { return cmp(p, q) <= 0; }); Exp y; a.to(y); samelist(a.xs, y); } FIN
DRV drv_q_by() { { SRC(W); sorted(xs.OrderBy([](const E& p, const E& q) { return q <=> p; }), a.n, [](int p, int q) { return cmp(p, q) >= 0; }); Exp y; a.to(y); samelist(a.xs, y); } FIN
DRV drv_q_key() { { SRC(W); auto key = [](const E& e) -> vi { return v_pred(&e, sizeof(E), 1) ? 1 : 0; }; sorted(xs.OrderByKey(key), a.n, [&](int p, int q) { return key(obj(p)) <= key(obj(q)); }); } FIN
#define SORTN (7 + BIG)
static void sortn(int n) { E r[SORTN]; for (int i = 0; i < n; i++) r[i] = obj(A0 + i); Sort(r, n); bool seen[TAGS]; for (int i = 0; i < TAGS; i++) seen[i] = false; for (int i = 0; i < n; i++) { int t = v_tag(&r[i], sizeof(E)); RESULT(t >= A0 && t < A0 + n); RESULT(!seen[t]); seen[t] = true; } for (int i = 0; i + 1 < n; i++) RESULT(v_cmp(&r[i], &r[i + 1], sizeof(E)) <= 0); for (int i = n; i < SORTN; i++) v_val(&r[i], sizeof(E), -1); }
#if BIG
static void sortp(int k) { for (int i = 0; i < BIG; i++) v_rank(&obj(A0 + i), sizeof(E), pattern(i, k, 0)); sortn(BIG); }
DRV drv_q_big0() { sortp(0); FIN
DRV drv_q_big1() { sortp(1); FIN
DRV drv_q_big2() { sortp(2); FIN
DRV drv_q_big3() { sortp(3); FIN
DRV drv_q_big4() { sortp(4); FIN
#else
DRV drv_q_sort0() { sortn(v_choose(1, 3)); FIN
DRV drv_q_sort3() { sortn(3); FIN
DRV drv_q_sort4() { sortn(4); FIN
DRV drv_q_sort5() { sortn(5); FIN
DRV drv_q_sort6() { sortn(6); FIN
#ifdef DEEP
DRV drv_q_sort7() { sortn(7); FIN
#endif
#endif
DRV drv_q_sortf() { { E r[3] = { obj(10), obj(11), obj(12) }; Sort(r, 3, [](const E& p, const E& q) { return q <=> p; }); for (int i = 0; i < 2; i++) RESULT(v_cmp(&r[i], &r[i + 1], sizeof(E)) >= 0); int s = 0; for (int i = 0; i < 3; i++) s += 1 << (v_tag(&r[i], sizeof(E)) - 10); RESULT(s == 7); } FIN
