#include "vdrv.h"
#include "Primitives/Pointer.h"
using namespace vl;
#define DRV extern "C" void
template<typename T> static T&& mv(T& t) { return static_cast<T&&>(t); }

// ---------------------------------------------------------------- Ptr
typedef Ptr<O> PO;
static PO mk() { PO r(new O()); v_share(&r); return r; }
static PO mkopt(int t) { if (v_bool(t)) return mk(); return PO(); }
DRV drv_ctor_raw() { { O* o = v_bool(0) ? new O() : nullptr; PO p(o); v_check(1, &p, p.Obj(), o); } v_final(); }
DRV drv_copy_ctor() { { PO p = mkopt(0); O* o = p.Obj(); PO q(p); v_check(2, &p, &q, o, p.Obj(), q.Obj()); } v_final(); }
DRV drv_move_ctor() { { PO p = mkopt(0); O* o = p.Obj(); PO q(mv(p)); v_check(4, &q, &p, o, q.Obj(), p.Obj()); } v_final(); }
// p and q: each empty or not, sharing or not
DRV drv_copy_assign() { { PO p = mkopt(0); PO q = v_bool(1) ? p : mkopt(2); O* o = q.Obj(); p = q; v_check(2, &p, &q, o, p.Obj(), q.Obj()); } v_final(); }
DRV drv_move_assign() { { PO p = mkopt(0); PO q = v_bool(1) ? p : mkopt(2); O* o = q.Obj(); p = mv(q); v_check(4, &p, &q, o, p.Obj(), q.Obj()); } v_final(); }
DRV drv_null_assign() { { PO p = mkopt(0); p = nullptr; v_check(1, &p, p.Obj(), (O*)nullptr); } v_final(); }
DRV drv_raw_assign() { { PO p = mkopt(0); O* o = new O(); p = PO(o); v_check(1, &p, p.Obj(), o); } v_final(); }
DRV drv_self_assign() { { PO p = mkopt(0); O* o = p.Obj(); PO& r = p; p = r; v_check(1, &p, p.Obj(), o); } v_final(); }
DRV drv_self_move() { { PO p = mkopt(0); O* o = p.Obj(); PO& r = p; p = mv(r); v_check(1, &p, p.Obj(), o); } v_final(); }
DRV drv_bool_eq() { { PO p = mkopt(0); PO q = v_bool(1) ? p : mkopt(2); v_check(7, p.Obj(), q.Obj(), (int)(bool)p, (int)(p == q), (int)(p == q.Obj()), (int)((p <=> q) == 0), p.operator->()); } v_final(); }
// object graph: assigning from a handle stored inside the object that the assignment may destroy
struct Node { Ptr<Node> next; O payload; };
static Ptr<Node> mknode() { Ptr<Node> r(new Node()); v_share(&r); return r; }
DRV drv_list_advance_copy() { { Ptr<Node> h = mknode(); if (v_bool(0)) h->next = mknode(); Node* o = h->next.Obj(); h = h->next; v_check(1, &h, h.Obj(), o); } v_final(); }
DRV drv_list_advance_move() { { Ptr<Node> h = mknode(); if (v_bool(0)) h->next = mknode(); Node* o = h->next.Obj(); h = mv(h->next); v_check(1, &h, h.Obj(), o); } v_final(); }

// ---------------------------------------------------------------- conversions
struct A { vi a[2]; };
struct B { vi b[2]; };
struct D : A, B { O payload; };
static Ptr<D> mkd() { Ptr<D> r(new D()); v_share(&r); return r; }
static Ptr<D> mkdopt(int t) { if (v_bool(t)) return mkd(); return Ptr<D>(); }
DRV drv_conv_copy_ctor() { { Ptr<D> d = mkdopt(0); D* o = d.Obj(); { Ptr<B> b(d); v_check(2, &b, &d, (B*)o, b.Obj(), (B*)d.Obj()); if (v_bool(1)) d = nullptr; } } v_final(); }
DRV drv_conv_move_ctor() { { Ptr<D> d = mkdopt(0); D* o = d.Obj(); Ptr<B> b(mv(d)); v_check(4, &b, &d, (B*)o, b.Obj(), (B*)d.Obj()); } v_final(); }
DRV drv_conv_copy_assign() { { Ptr<D> d = mkdopt(0); Ptr<B> b; if (v_bool(1)) b = mkd(); D* o = d.Obj(); b = d; v_check(2, &b, &d, (B*)o, b.Obj(), (B*)d.Obj()); } v_final(); }
DRV drv_conv_move_assign() { { Ptr<D> d = mkdopt(0); Ptr<B> b; if (v_bool(1)) b = mkd(); D* o = d.Obj(); b = mv(d); v_check(4, &b, &d, (B*)o, b.Obj(), (B*)d.Obj()); } v_final(); }
struct VB { vi x; virtual void f() {} };
struct VZ { vi z; virtual void g() {} };
struct VD : VZ, VB { O payload; };
struct VX : VB { O payload; };
static Ptr<VD> mkvd() { Ptr<VD> r(new VD()); v_share(&r); return r; }
static Ptr<VB> mkvb(int t) { if (v_bool(t)) { if (v_bool(20)) return mkvd(); Ptr<VX> r(new VX()); v_share(&r); return r; } return Ptr<VB>(); }
DRV drv_cast() { { Ptr<VB> b = mkvb(0); VB* o = b.Obj(); VD* want = dynamic_cast<VD*>(o); Ptr<VD> d = b.Cast<VD>(); v_check(15, d.Obj(), want, b.Obj(), o); } v_final(); }
DRV drv_cast_then_drop() { { Ptr<VD> d; { Ptr<VB> b = mkvb(0); d = b.Cast<VD>(); } v_check(9, &d, d.Obj()); if (v_bool(5)) d = Ptr<VD>(); v_check(9, &d, d.Obj()); } v_final(); }
DRV drv_cast_assign_over() { { Ptr<VB> b = mkvb(0); Ptr<VD> d = mkvd(); d = b.Cast<VD>(); v_check(9, &d, d.Obj(), &b); Ptr<VD> d2(d); Ptr<VD> d3; d3 = d2; v_check(9, &d, d.Obj(), &b, &d2, &d3); } v_final(); }
// ---------------------------------------------------------------- Detach: gives up ownership without destroying
DRV drv_detach() { { PO p = mkopt(0); O* o = p.Obj(); O* r = p.Detach(); v_check(10, &p, o, r, p.Obj()); } v_check(11); }
DRV drv_detach_then_use() { { PO p = mkopt(0); PO q = v_bool(1) ? p : PO(); O* o = p.Obj(); O* r = p.Detach(); v_check(12, &p, &q, o, r); p = nullptr; v_check(12, &p, &q, o, r); PO s(p); p = mv(s); v_check(12, &p, &q, o, r); } v_check(13); }
// ---------------------------------------------------------------- ComPtr
struct Com { vi n; void Release() noexcept; };
extern "C" Com* v_newcom() noexcept;
typedef ComPtr<Com> CP;
static CP mkc() { CP r(v_newcom()); v_share(&r); return r; }
static CP mkcopt(int t) { if (v_bool(t)) return mkc(); return CP(); }
DRV drv_com_raw() { { Com* o = v_bool(0) ? v_newcom() : nullptr; CP p(o); v_check(1, &p, p.Obj(), o); } v_final(); }
DRV drv_com_copy_ctor() { { CP p = mkcopt(0); Com* o = p.Obj(); CP q(p); v_check(2, &p, &q, o, p.Obj(), q.Obj()); } v_final(); }
DRV drv_com_move_ctor() { { CP p = mkcopt(0); Com* o = p.Obj(); CP q(mv(p)); v_check(4, &q, &p, o, q.Obj(), p.Obj()); } v_final(); }
DRV drv_com_copy_assign() { { CP p = mkcopt(0); CP q = v_bool(1) ? p : mkcopt(2); Com* o = q.Obj(); p = q; v_check(2, &p, &q, o, p.Obj(), q.Obj()); } v_final(); }
DRV drv_com_move_assign() { { CP p = mkcopt(0); CP q = v_bool(1) ? p : mkcopt(2); Com* o = q.Obj(); p = mv(q); v_check(4, &p, &q, o, p.Obj(), q.Obj()); } v_final(); }
DRV drv_com_null_assign() { { CP p = mkcopt(0); p = nullptr; v_check(1, &p, p.Obj(), (Com*)nullptr); } v_final(); }
DRV drv_com_raw_assign() { { CP p = mkcopt(0); Com* o = v_bool(1) ? v_newcom() : nullptr; p = o; v_check(1, &p, p.Obj(), o); } v_final(); }
DRV drv_com_self() { { CP p = mkcopt(0); Com* o = p.Obj(); CP& r = p; p = r; v_check(1, &p, p.Obj(), o); p = mv(r); v_check(1, &p, p.Obj(), o); } v_final(); }
DRV drv_com_bool_eq() { { CP p = mkcopt(0); CP q = v_bool(1) ? p : mkcopt(2); v_check(7, p.Obj(), q.Obj(), (int)(bool)p, (int)(p == q), (int)(p == q.Obj()), (int)((p <=> q) == 0), p.operator->()); } v_final(); }
struct CNode { ComPtr<CNode> next; O payload; void Release() noexcept { delete this; } };
static ComPtr<CNode> mkcn() { ComPtr<CNode> r(new CNode()); v_share(&r); return r; }
// an object with a count of its own, handed over again
struct RCom { vi refs = 1; O payload; void Release() noexcept { if (--refs == 0) delete this; } };
DRV drv_com_again() { { RCom* o = new RCom(); ComPtr<RCom> p(o); o->refs++; p = o; v_check(8, p.Obj(), o); } v_final(); }
DRV drv_com_twice() { { RCom* o = new RCom(); ComPtr<RCom> p(o); o->refs++; ComPtr<RCom> q(o); if (v_bool(0)) p = q; else if (v_bool(1)) q = mv(p); v_check(8, q.Obj(), o); } v_final(); }
DRV drv_com_advance_copy() { { ComPtr<CNode> h = mkcn(); if (v_bool(0)) h->next = mkcn(); CNode* o = h->next.Obj(); h = h->next; v_check(1, &h, h.Obj(), o); } v_final(); }
DRV drv_com_advance_move() { { ComPtr<CNode> h = mkcn(); if (v_bool(0)) h->next = mkcn(); CNode* o = h->next.Obj(); h = mv(h->next); v_check(1, &h, h.Obj(), o); } v_final(); }
