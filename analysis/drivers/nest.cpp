// Collections whose elements hold collections of the same type: assigning such a part to the whole
#include "vdrv.h"
#include "Basic.cpp"
#include "Primitives/Nullable.h"
#include "Collections/List.h"
#include "Collections/Dictionary.h"
using namespace vl;
using namespace vl::collections;
#define DRV extern "C" void
#define RESULT(c) v_require((c), 2)
#define DONE } v_final();
template<typename T> static T&& mv(T& t) { return static_cast<T&&>(t); }
struct LNode { vi v = 0; List<LNode> kids; };
struct ANode { vi v = 0; Array<ANode> kids; };
struct DNode { vi v = 0; Dictionary<vi, DNode> kids; };
struct GNode { vi v = 0; Ptr<Group<vi, GNode>> kids; };
struct SNode { vi v = 0; Ptr<SortedList<SNode>> kids; std::strong_ordering operator<=>(const SNode& n) const { return v <=> n.v; } bool operator==(const SNode& n) const { return v == n.v; } };
static LNode lnode(vi v) { LNode n; n.v = v; return n; }
DRV drv_L_part() { { vi n = v_choose(1, 4), m = v_choose(2, 4); vi at = v_choose(3, 4); v_assume(at < n); List<LNode> xs; for (vi i = 0; i < n; i++) xs.Add(lnode(i)); for (vi i = 0; i < m; i++) xs[at].kids.Add(lnode(10 + i)); if (m && v_bool(4)) xs[at].kids[0].kids.Add(lnode(20));
	bool deep = m && xs[at].kids[0].kids.Count() == 1; xs = mv(xs[at].kids); RESULT(xs.Count() == m); for (vi i = 0; i < m; i++) { RESULT(xs[i].v == 10 + i); RESULT(xs[i].kids.Count() == (deep && i == 0 ? 1 : 0)); } if (deep) RESULT(xs[0].kids[0].v == 20); xs.Add(lnode(30)); RESULT(xs.Count() == m + 1); RESULT(xs[m].v == 30); DONE }
DRV drv_A_part() { { vi n = v_choose(1, 3) + 1, m = v_choose(2, 4), at = v_choose(3, 3); v_assume(at < n); Array<ANode> xs(n); xs[at].kids.Resize(m); for (vi i = 0; i < m; i++) xs[at].kids[i].v = 10 + i; xs = mv(xs[at].kids); RESULT(xs.Count() == m); for (vi i = 0; i < m; i++) RESULT(xs[i].v == 10 + i); DONE }
DRV drv_D_part() { { vi m = v_choose(2, 4), at = v_choose(3, 2); Dictionary<vi, DNode> xs; xs.Add(0, DNode()); xs.Add(1, DNode()); auto& kids = const_cast<DNode&>(xs.Values()[at]).kids; for (vi i = 0; i < m; i++) { DNode k; k.v = 10 + i; kids.Add(5 + i, mv(k)); }
	xs = mv(kids); RESULT(xs.Count() == m); for (vi i = 0; i < m; i++) { RESULT(xs.Keys()[i] == 5 + i); RESULT(xs.Values()[i].v == 10 + i); } DONE }
DRV drv_G_part() { { vi m = v_choose(2, 4), at = v_choose(3, 2); Group<vi, GNode> xs; for (vi i = 0; i < 2; i++) { GNode a; a.v = i; if (i == at) { a.kids = Ptr(new Group<vi, GNode>); for (vi j = 0; j < m; j++) { GNode b; b.v = 10 + j; a.kids->Add(j / 2, b); } } xs.Add(7, a); }
	Group<vi, GNode>& in = *xs.GetByIndex(0)[at].kids.Obj(); xs = mv(in); RESULT(xs.Count() == (m + 1) / 2); for (vi j = 0; j < m; j++) { RESULT(xs.Keys()[j / 2] == j / 2); RESULT(xs.GetByIndex(j / 2)[j % 2].v == 10 + j); } DONE }
DRV drv_S_part() { { vi m = v_choose(2, 4), at = v_choose(3, 2); SortedList<SNode> xs; for (vi i = 0; i < 2; i++) { SNode a; a.v = i; if (i == at) { a.kids = Ptr(new SortedList<SNode>); for (vi j = 0; j < m; j++) { SNode b; b.v = 10 - j; a.kids->Add(b); } } xs.Add(a); }
	SortedList<SNode>& in = *xs[at].kids.Obj(); xs = mv(in); RESULT(xs.Count() == m); for (vi j = 0; j < m; j++) RESULT(xs[j].v == 10 - m + 1 + j); DONE }
// through a handle: the list that is assigned from is owned by an element of the list assigned to
struct HNode { vi v = 0; Ptr<List<HNode>> kids; };
DRV drv_H_part() { { vi m = v_choose(2, 4), at = v_choose(3, 2); List<HNode> xs; for (vi i = 0; i < 2; i++) { HNode a; a.v = i; if (i == at) { a.kids = Ptr(new List<HNode>); for (vi j = 0; j < m; j++) { HNode b; b.v = 10 + j; a.kids->Add(b); } } xs.Add(a); }
	List<HNode>& in = *xs[at].kids.Obj(); xs = mv(in); RESULT(xs.Count() == m); for (vi j = 0; j < m; j++) RESULT(xs[j].v == 10 + j); DONE }
