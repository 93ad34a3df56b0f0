// Operations that only read: while other threads may read the same objects, nothing of them is written
#include "vdrv.h"
#include "Primitives/Nullable.h"
#include "Primitives/Function.h"
#include "Primitives/Variant.h"
#include "Primitives/Tuple.h"
#include "Primitives/Pointer.h"
#include "Primitives/Event.h"
#include "Collections/Dictionary.h"
#include "Collections/Operation.h"
#include "Strings/String.h"
template class vl::ObjectString<wchar_t>;
template class vl::ObjectString<char>;
using namespace vl;
using namespace vl::collections;
#define DRV extern "C" void
#define RESULT(c) v_require((c), 2)
#define FIN v_final(); }
static E& obj(int t) { return *(E*)v_obj(t, sizeof(E)); }
struct Pred { bool operator()(const E& e) const { return v_pred(&e, sizeof(E), 1); } };
#define READ(C, ...) { v_freeze(&(C), nullptr); { __VA_ARGS__; } v_thaw(); }
template<typename T> static void walk(const IEnumerable<T>& xs) { IEnumerator<T>* e = xs.CreateEnumerator(); while (e->Next()) { T x = e->Current(); e->Index(); } IEnumerator<T>* c = e->Clone(); e->Reset(); e->Next(); delete e; delete c; for (auto&& x : xs) { T y = x; } }
template<typename C> static void fill(C& c) { int n = v_choose(1, 3); for (int i = 0; i < n; i++) c.Add(obj(10 + i)); }
template<typename C> static void indexed(const C& c) { c.Count(); if (c.Count()) { E e = c.Get(0); E f = c[c.Count() - 1]; } c.IndexOf(obj(1)); c.Contains(obj(1)); walk<E>(c); }
DRV drv_list() { { List<E> c; fill(c); const List<E>& r = c; READ(c, indexed(r)) } FIN
DRV drv_list_err() { { List<E> c; fill(c); const List<E>& r = c; vi k = v_int(1); READ(c, try { E e = r.Get(k); } catch (const Error&) {}) } FIN
DRV drv_list_cmp() { { List<E> c, d; fill(c); int n = v_choose(2, 3); for (int i = 0; i < n; i++) d.Add(obj(20 + i)); v_freeze(&c, &d); { bool a = CompareEnumerable(c, d) == 0; } v_thaw(); } FIN
DRV drv_array() { { int n = v_choose(1, 3); Array<E> c(n); for (int i = 0; i < n; i++) c.Set(i, obj(10 + i)); const Array<E>& r = c; READ(c, indexed(r)) } FIN
DRV drv_sorted() { { SortedList<E> c; fill(c); const SortedList<E>& r = c; READ(c, indexed(r)) } FIN
DRV drv_dict() { { Dictionary<E, E> c; int n = v_choose(1, 3); for (int i = 0; i < n; i++) c.Set(obj(10 + i), obj(20 + i)); const Dictionary<E, E>& r = c; READ(c, r.Count(); r.Keys().Contains(obj(1)); vi k = r.Keys().IndexOf(obj(1)); if (k != -1) { E e = r[obj(1)]; E f = r.Values()[k]; } walk<Pair<const E&, const E&>>(r)) } FIN
DRV drv_group() { { Group<E, E> c; int n = v_choose(1, 3); for (int i = 0; i < n; i++) c.Add(obj(10 + i), obj(20 + i)); const Group<E, E>& r = c; READ(c, r.Count(); r.Contains(obj(1)); r.Contains(obj(1), obj(2)); vi k = r.Keys().IndexOf(obj(1)); if (k != -1) { r[obj(1)].Count(); walk<E>(r.GetByIndex(k)); } walk<Pair<const E&, const E&>>(r)) } FIN
DRV drv_lazy() { { List<E> c; fill(c); const List<E>& r = c; READ(c, walk<E>(From(r).Where(Pred()).Skip(1)); walk<E>(From(r).Take(1).Concat(From(r))); walk<E>(From(r).Distinct()); walk<E>(From(r).Reverse()); walk<E>(From(r).OrderBySelf()); From(r).IsEmpty(); From(r).Count(); From(r).All(Pred()); From(r).Any(Pred()); List<E> d; CopyFrom(d, r); Array<E> a; CopyFrom(a, r); SortedList<E> s; CopyFrom(s, r)) } FIN
DRV drv_lazy_shared() { { List<E> c; fill(c); LazyList<E> z = From(c).Where(Pred()); v_freeze(&c, &z); { const LazyList<E>& y = z; walk<E>(y); LazyList<E> x = y; walk<E>(x.Skip(1)); y.Count(); y.IsEmpty(); } v_thaw(); } FIN
struct Node { E e; Node() : e(obj(5)) {} virtual ~Node() {} }; struct Sub : Node {};
DRV drv_ptr() { { Ptr<Node> p = Ptr(new Sub); const Ptr<Node>& q = p; READ(p, Ptr<Node> a = q; a = q; Ptr<Sub> s = q.Cast<Sub>(); bool b = q == a; b = (bool)q; Node* n = q.Obj(); E e = q->e; Ptr<Node> z; z = a; z = nullptr; Func<void()> f = [q]() {}; f(); b = q == nullptr) } FIN
DRV drv_nullable() { { Nullable<E> p; if (v_bool(1)) p = obj(1); const Nullable<E>& q = p; READ(p, Nullable<E> a = q; bool b = (bool)q; if (b) { E e = q.Value(); } b = q == a; b = (q <=> a) == 0) } FIN
DRV drv_variant() { { Variant<E, E2> p = v_bool(1) ? Variant<E, E2>(obj(1)) : Variant<E, E2>(E2()); const Variant<E, E2>& q = p; READ(p, Variant<E, E2> a = q; q.Index(); q.TryGet<E>(); q.TryGet<E2>(); if (q.Index() == 0) { E e = q.Get<E>(); } q.Apply([](auto& x) { auto y = x; })) } FIN
DRV drv_tuple() { { Tuple<E, E2> p(obj(1), E2()); const Tuple<E, E2>& q = p; READ(p, Tuple<E, E2> a = q; E e = q.get<0>(); bool b = q == a) } FIN
DRV drv_pair() { { Pair<E, E> p(obj(1), obj(2)); const Pair<E, E>& q = p; READ(p, Pair<E, E> a = q; bool b = q == a; b = (q <=> a) == 0) } FIN
struct Fn { E e; vi operator()(const E& x) const { E y = e; return 1; } };
DRV drv_func() { { Func<vi(const E&)> f = Fn{ obj(1) }; const Func<vi(const E&)>& q = f; READ(f, Func<vi(const E&)> a = q; q(obj(2)); a(obj(2)); bool b = (bool)q; b = q == a; Func<void(const E&)> g = q; g(obj(3))) } FIN
DRV drv_event() { { Event<void(const E&)> ev; ev.Add(Func<void(const E&)>([](const E& x) { E y = x; })); READ(ev, ev(obj(1))) } FIN
DRV drv_bom() { { ByteObjectMap<int>::Allocator al(3); ByteObjectMap<int> m; int x; m.Set(77, &x, al); v_freeze(&m, &al); { m.Get(77); m.Get(78); al.Get(0); al.Get(9); } v_thaw(); } FIN
template<typename T> static void text()
{
	typedef ObjectString<T> S; T t[4] = { (T)'a', (T)'b', (T)'c', 0 }; S p = S::CopyFrom(t, 3); S u = v_bool(1) ? p : p.Sub(v_choose(2, 2), 2); const S& q = u; T d[3] = { (T)'b', (T)'c', 0 }; S o = S::CopyFrom(d, 2);
	v_freeze(&u, &o);
	{
		q.Length(); T c = q[0]; S a = q; a = q; S l = q.Left(1), r = q.Right(1), s = q.Sub(0, 1), i = q.Insert(1, o), m = q.Remove(0, 1); S k = q + o; k += q; bool b = q == o; b = (q <=> o) < 0; b = q == d; c = q[q.Length() - 1]; S n = S(q); n = o; n = n + o;
	}
	v_thaw();
}
DRV drv_wstring() { { text<wchar_t>(); } FIN
DRV drv_astring() { { text<char>(); } FIN
