// Common declarations for analysis drivers.  Nothing here is ever executed: drivers are compiled to IR and
// abstractly interpreted; v_* functions and the members of the opaque types are recognised by the analyser.
#pragma once
#include <compare>
#include <type_traits>
#include <initializer_list>
#include <functional>
#include <memory>
#include <string>
#include <stdint.h>
typedef int64_t vi;
extern "C" {
	vi v_int(int tag) noexcept;            // arbitrary integer
	vi v_arg(int tag) noexcept;            // arbitrary 64-bit argument, arithmetic on it wraps around
	vi v_ch(int tag, int bits) noexcept;   // arbitrary value of that width
	bool v_bool(int tag) noexcept;         // arbitrary choice
	void v_share(void* handle) noexcept;   // other owners may exist from here on
	void v_check(int id, ...) noexcept;
	void v_ok(int id) noexcept;
	void v_final() noexcept;
	void v_moved_ok() noexcept;   // the caller moves an element out itself
	void v_assume(bool c) noexcept;
	void v_freeze(const void* a, const void* b) noexcept;  // from here on other threads may read these objects and everything allocated
	void v_thaw() noexcept;
	void v_static_init() noexcept;         // what runs before main
}
// opaque element type: 24 bytes, every special member is external
struct E
{
	vi pad[3];
	E() noexcept; E(const E&) noexcept; E(E&&) noexcept;
	E& operator=(const E&) noexcept; E& operator=(E&&) noexcept;
	~E() noexcept;
	bool operator==(const E&) const noexcept;
	std::strong_ordering operator<=>(const E&) const noexcept;
};
// opaque element of another size
struct E2
{
	vi pad[5];
	E2() noexcept; E2(const E2&) noexcept; E2(E2&&) noexcept;
	E2& operator=(const E2&) noexcept; E2& operator=(E2&&) noexcept;
	~E2() noexcept;
	bool operator==(const E2&) const noexcept;
	std::strong_ordering operator<=>(const E2&) const noexcept;
};
// copyable and movable but not assignable
struct V
{
	vi pad[4];
	V() noexcept; V(const V&) noexcept; V(V&&) noexcept;
	V& operator=(const V&) = delete; V& operator=(V&&) = delete;
	~V() noexcept;
	bool operator==(const V&) const noexcept;
	std::strong_ordering operator<=>(const V&) const noexcept;
};
// movable only
struct K
{
	vi pad[2];
	K() noexcept; K(const K&) = delete; K(K&&) noexcept;
	K& operator=(const K&) = delete; K& operator=(K&&) noexcept;
	~K() noexcept;
};
// neither copyable nor movable
struct Z
{
	vi pad[6];
	Z() noexcept; Z(const Z&) = delete; Z& operator=(const Z&) = delete;
	~Z() noexcept;
};
// opaque heap object
struct O
{
	vi pad[2];
	O() noexcept; ~O() noexcept;
};
extern "C" {
	void v_list(void* list, int tag) noexcept;      // turn a default-constructed container into an arbitrary valid one (sequence `tag`)
	vi v_n(int tag) noexcept;                       // length of sequence `tag`
	E* v_elem(int tag) noexcept;                    // an arbitrary live element `tag`
	vi* v_item(int tag) noexcept;                   // an arbitrary integer element `tag` (by address)
	vi v_first(int tagseq, int tagitem) noexcept;   // position of the first element of the sequence equal to the item (length if none)
	void v_sorted(int tagseq, int tagitem) noexcept;// the sequence is ordered; fixes where the item falls
	vi v_lo(int tagseq) noexcept; vi v_hi(int tagseq) noexcept; // [lo,hi) = elements equal to the item
	void v_require(bool c, int code) noexcept;      // must hold here
	void v_listt(const void* list, int tag, int type) noexcept; // same, element type given (T_*)
	void v_expectt(const void* list, int type, ...) noexcept;
	void v_expect_elemt(const void* e, int type, ...) noexcept;
	void v_expect(const void* list, ...) noexcept;  // contents must be exactly these pieces
	void v_expect_elem(const void* e, ...) noexcept;// the element's value must be this piece
	void* v_obj(int tag, vi size) noexcept;         // a live opaque object `tag` outside everything else
	void v_val(const void* e, vi size, int tag) noexcept; // alive, holding that object's value (-1: default, -2: any)
	void v_rank(const void* e, vi size, vi rank) noexcept; // fixes where the value falls in the order
	void v_addr(int order) noexcept;                // fixes the address order of objects: 0 in order of creation, 1 against it, 2 scattered
	int v_cmp(const void* a, const void* b, vi size) noexcept;
	int v_tag(const void* e, vi size) noexcept;     // which argument's value it holds (-1: none)
	int v_choose(int tag, int n) noexcept;          // arbitrary choice 0..n-1
	bool v_pred(const void* e, vi size, int f) noexcept; // arbitrary predicate f of the value
	void v_map(void* dst, vi dsize, const void* src, vi ssize, int f) noexcept; // construct the arbitrary function f of the value
	void v_is_map(const void* e, vi size, int f, int tag) noexcept;
	void v_same(const void* a, const void* b, int code) noexcept;
}
// pieces
#define P_END 0
#define P_SEQ 1      // tag, from, to
#define P_ITEM 2     // tag
#define P_DEF 3      // count
#define P_MOVED 4
#define SEQ(t,a,b) (vi)P_SEQ, (vi)(t), (vi)(a), (vi)(b)
#define ITEM(t) (vi)P_ITEM, (vi)(t)
#define DEF(n) (vi)P_DEF, (vi)(n)
#define END (vi)P_END
#define T_E 0
#define T_I 1
#define T_E2 2
