#include "vdrv.h"
#include "Strings/String.h"
using namespace vl;
template class vl::ObjectString<wchar_t>;
template class vl::ObjectString<char16_t>;
#define DRV extern "C" void
template<typename T> static T&& mv(T& t) { return static_cast<T&&>(t); }
extern "C" {
	const void* v_chars(int tag, vi n, int size) noexcept;   // n arbitrary characters, nothing after them
	const void* v_cstr(int tag, vi n, int size) noexcept;    // n non-zero characters and a terminator
	const void* v_zstr(int tag, vi n, int size) noexcept;    // n arbitrary characters and a terminator
	int v_at(int tag, vi index) noexcept;                    // character `index` of source `tag`
	void v_is(int value, int tag, vi index) noexcept;        // value must be that character
	void v_isval(int value, int expected) noexcept;
	vi v_first2(int tag, vi from, vi len, int value) noexcept;
	void v_gone(const void* p) noexcept;                     // the caller's text is gone
	vi v_diff(int ta, vi fa, int tb, vi fb, vi len) noexcept;
}
#define LEGAL(c) v_require((c), 1)
#define ILLEGAL(c) v_require(!(c), 1)
#define RESULT(c) v_require((c), 2)
#define DONE } v_final();
template<typename T> struct S
{
	typedef ObjectString<T> Str;
	// an arbitrary string: default, copied, slice of a buffer (with or without other owners), unmanaged, slice of unmanaged
	struct A
	{
		Str base, s; int tag; vi off, n;
		A(int t) : tag(t), off(0), n(0)
		{
			if (v_bool(t * 10)) { vi real = v_int(t * 10 + 1); v_assume(real >= 0); off = v_int(t * 10 + 2); n = v_int(t * 10 + 3); v_assume(off >= 0 && n >= 0 && off + n <= real);
				if (v_bool(t * 10 + 4)) base = Str::CopyFrom((const T*)v_chars(t, real, sizeof(T)), real); else base = Str::Unmanaged((const T*)v_cstr(t, real, sizeof(T)));
				s = base.Sub(off, n);
				if (v_bool(t * 10 + 5)) base = Str(); }
		}
	};
	// a slice of a copied buffer, or a default string
	struct A2 { Str s; vi off = 0, n = 0; A2(int t) { if (v_bool(t * 10)) { vi real = v_int(t * 10 + 1); off = v_int(t * 10 + 2); n = v_int(t * 10 + 3); v_assume(off >= 0 && n >= 0 && off + n <= real); s = Str::CopyFrom((const T*)v_chars(t, real, sizeof(T)), real).Sub(off, n); } } };
	// simple owner: one whole buffer
	static Str whole(int t, vi& n) { n = v_int(t * 10 + 1); v_assume(n >= 0); return Str::CopyFrom((const T*)v_chars(t, n, sizeof(T)), n); }
	static vi pick(vi n) { vi j = v_int(90); v_assume(j >= 0 && j < n); return j; }
	// s must be exactly [off,off+n) of source tag
	static void same(const Str& s, int tag, vi off, vi n) { RESULT(s.Length() == n); if (v_bool(91)) { vi j = pick(n); v_is(s[j], tag, off + j); } else terminated(s, tag, off, n); }
	static void terminated(const Str& s, int tag, vi off, vi n) { const T* b = s.Buffer(); v_isval(b[n], 0); RESULT(s.Length() == n); if (v_bool(92)) { vi j = pick(n); v_is(b[j], tag, off + j); } else if (v_bool(93)) { vi j = pick(n); v_is(s[j], tag, off + j); } }
	static void empty(const Str& s) { RESULT(s.Length() == 0); v_isval(*s.Buffer(), 0); }
	// s must be a[0,an) ++ b[0,bn) ++ c[0,cn)
	static void same3(const Str& s, int ta, vi ao, vi an, int tb, vi bo, vi bn, int tc, vi co, vi cn)
	{
		vi n = an + bn + cn; RESULT(s.Length() == n); const T* b = nullptr;
		if (v_bool(91)) { b = s.Buffer(); v_isval(b[n], 0); if (v_bool(92)) return; }
		vi j = pick(n); T c = b ? b[j] : s[j];
		if (j < an) v_is(c, ta, ao + j); else if (j < an + bn) v_is(c, tb, bo + (j - an)); else v_is(c, tc, co + (j - an - bn));
	}
	// ---- construction
	static void ctor_default() { { Str s; empty(s); Str t(s); empty(t); s = t; empty(s); DONE }
	static void ctor_cstr() { { vi n = v_int(0); v_assume(n >= 0); Str s((const T*)v_cstr(1, n, sizeof(T))); same(s, 1, 0, n); DONE }
	static void ctor_null() { { try { Str s((const T*)nullptr); LEGAL(false); } catch (const Error&) { v_require(true, 1); } try { Str s = Str::Unmanaged(nullptr); LEGAL(false); } catch (const Error&) { v_require(true, 1); } DONE }
	static void copy_from() { { vi n = v_int(0); vi m = v_int(1); v_assume(m >= 0); const T* p = (const T*)v_chars(1, m, sizeof(T)); v_assume(n <= m); try { Str s = Str::CopyFrom(p, n); LEGAL(n >= 0); same(s, 1, 0, n); } catch (const Error&) { ILLEGAL(n >= 0); } DONE }
	static void unmanaged() { { vi n = v_int(0); v_assume(n >= 0); const T* p = (const T*)v_cstr(1, n, sizeof(T)); Str s = Str::Unmanaged(p); same(s, 1, 0, n); v_require(s.Buffer() == p, 2); DONE }
	static void take_over() { { vi n = v_int(0); v_assume(n >= 0); T* p = new T[n + 1]; const T* q = (const T*)v_chars(1, n, sizeof(T)); memcpy(p, q, n * sizeof(T)); p[n] = 0; Str s = Str::TakeOver(p, n); same(s, 1, 0, n); DONE }
	static void take_over_bad() { { T b[4] = { 1, 1, 1, 1 }; try { Str s = Str::TakeOver(b, 2); LEGAL(false); } catch (const Error&) { v_require(true, 1); } vi n = v_int(0); v_assume(n < 0); T c[4] = { 0, 0, 0, 0 }; try { Str s = Str::TakeOver(c, n); LEGAL(false); } catch (const Error&) { v_require(true, 1); } DONE }
	static void from_char() { { T c = (T)v_ch(0, 8 * sizeof(T)); v_assume(c != 0); Str s = Str::FromChar(c); RESULT(s.Length() == 1); v_isval(s[0], c); v_isval(s.Buffer()[1], 0); DONE }
	// ---- sharing
	static void copy_ctor() { { A a(1); if (v_bool(1)) { Str t(a.s); if (v_bool(2)) a.s = Str(); same(t, 1, a.off, a.n); } else { { Str t(a.s); t.Buffer(); } same(a.s, 1, a.off, a.n); } DONE }
	static void move_ctor() { { A a(1); Str t(mv(a.s)); empty(a.s); same(t, 1, a.off, a.n); DONE }
	static void copy_assign() { { A a(1); vi m; Str t = whole(2, m); Str u = t; u = a.s; if (v_bool(1)) same(u, 1, a.off, a.n); else if (v_bool(2)) same(a.s, 1, a.off, a.n); else same(t, 2, 0, m); DONE }
	static void move_assign() { { A a(1); vi m; Str t = whole(2, m); Str u = v_bool(3) ? t : Str(); u = mv(a.s); if (v_bool(1)) same(u, 1, a.off, a.n); else if (v_bool(2)) empty(a.s); else same(t, 2, 0, m); DONE }
	static void self_assign() { { A a(1); Str& r = a.s; a.s = r; same(a.s, 1, a.off, a.n); a.s = mv(r); same(a.s, 1, a.off, a.n); DONE }
	static void assign_shared() { { A a(1); a.base = a.s; same(a.base, 1, a.off, a.n); Str t = a.s; a.s = mv(a.base); same(a.s, 1, a.off, a.n); DONE }
	// ---- operations
	static void length_index() { { A a(1); vi i = v_arg(0); bool ok = i >= 0 && i < a.n; RESULT(a.s.Length() == a.n); try { T c = a.s[i]; LEGAL(ok); v_is(c, 1, a.off + i); } catch (const Error&) { ILLEGAL(ok); } DONE }
	static void buffer() { { A a(1); Str t = v_bool(8) ? a.s : Str(); terminated(a.s, 1, a.off, a.n); if (v_bool(9)) a.s.Buffer(); same(a.s, 1, a.off, a.n); DONE }
	// the pointer stays valid while the string is only read and copied
	static void buffer_stays() { { A a(1); const T* p = a.s.Buffer(); if (v_bool(8)) { Str t(a.s); t.Buffer(); } const T* q = a.s.Buffer(); RESULT(p == q); v_isval(p[a.n], 0); if (v_bool(92)) { vi j = pick(a.n); v_is(p[j], 1, a.off + j); } DONE }
	static void left() { { A a(1); vi c = v_arg(0); bool ok = c >= 0 && c <= a.n; try { Str r = a.s.Left(c); LEGAL(ok); if (v_bool(1)) same(r, 1, a.off, c); else same(a.s, 1, a.off, a.n); } catch (const Error&) { ILLEGAL(ok); same(a.s, 1, a.off, a.n); } DONE }
	static void right() { { A a(1); vi c = v_arg(0); bool ok = c >= 0 && c <= a.n; try { Str r = a.s.Right(c); LEGAL(ok); if (v_bool(1)) same(r, 1, a.off + a.n - c, c); else same(a.s, 1, a.off, a.n); } catch (const Error&) { ILLEGAL(ok); same(a.s, 1, a.off, a.n); } DONE }
	static void sub() { { A a(1); vi i = v_arg(0), c = v_arg(1); bool ok = i >= 0 && i <= a.n && c >= 0 && c <= a.n - i; try { Str r = a.s.Sub(i, c); LEGAL(ok); if (v_bool(1)) same(r, 1, a.off + i, c); else same(a.s, 1, a.off, a.n); } catch (const Error&) { ILLEGAL(ok); same(a.s, 1, a.off, a.n); } DONE }
	static void remove() { { A a(1); vi i = v_arg(0), c = v_arg(1); bool ok = i >= 0 && i < a.n && c >= 0 && c <= a.n - i; try { Str r = a.s.Remove(i, c); LEGAL(ok); if (v_bool(1)) same3(r, 1, a.off, i, 1, a.off + i + c, a.n - i - c, 1, 0, 0); else same(a.s, 1, a.off, a.n); } catch (const Error&) { ILLEGAL(ok); same(a.s, 1, a.off, a.n); } DONE }
	static void insert() { { A a(1); A b(2); vi i = v_arg(0); bool ok = i >= 0 && i <= a.n; try { Str r = a.s.Insert(i, b.s); LEGAL(ok); if (v_bool(1)) same3(r, 1, a.off, i, 2, b.off, b.n, 1, a.off + i, a.n - i); else if (v_bool(2)) same(a.s, 1, a.off, a.n); else same(b.s, 2, b.off, b.n); } catch (const Error&) { ILLEGAL(ok); } DONE }
	static void concat() { { A a(1); A b(2); Str r = a.s + b.s; if (v_bool(1)) same3(r, 1, a.off, a.n, 2, b.off, b.n, 1, 0, 0); else if (v_bool(2)) same(a.s, 1, a.off, a.n); else same(b.s, 2, b.off, b.n); DONE }
	static void concat_cstr() { { A a(1); vi m = v_int(5); v_assume(m >= 0); const T* p = (const T*)v_cstr(2, m, sizeof(T)); Str r = a.s + p; same3(r, 1, a.off, a.n, 2, 0, m, 1, 0, 0); DONE }
	static void cstr_concat() { { A a(1); vi m = v_int(5); v_assume(m >= 0); const T* p = (const T*)v_cstr(2, m, sizeof(T)); Str r = p + a.s; same3(r, 2, 0, m, 1, a.off, a.n, 1, 0, 0); DONE }
	// what was copied from the caller does not depend on the caller's text any more
	static void caller_gone() { { vi m = v_int(5); v_assume(m >= 0); const T* p = (const T*)v_cstr(2, m, sizeof(T)); if (v_bool(1)) { Str r(p); v_gone(p); same(r, 2, 0, m); } else { Str r = Str::CopyFrom(p, m); v_gone(p); same(r, 2, 0, m); } DONE }
	static void concat_gone() { { A2 a(1); vi m = v_int(5); v_assume(m >= 0); const T* p = (const T*)v_cstr(2, m, sizeof(T)); if (v_bool(1)) { Str r = a.s + p; v_gone(p); same3(r, 1, a.off, a.n, 2, 0, m, 1, 0, 0); } else { Str r = p + a.s; v_gone(p); same3(r, 2, 0, m, 1, a.off, a.n, 1, 0, 0); } DONE }
	static void append_gone() { { A2 a(1); vi m = v_int(5); v_assume(m >= 0); const T* p = (const T*)v_cstr(2, m, sizeof(T)); a.s += p; v_gone(p); same3(a.s, 1, a.off, a.n, 2, 0, m, 1, 0, 0); DONE }
	static void append() { { A a(1); A b(2); Str t = a.s; a.s += b.s; if (v_bool(1)) same3(a.s, 1, a.off, a.n, 2, b.off, b.n, 1, 0, 0); else if (v_bool(2)) same(t, 1, a.off, a.n); else same(b.s, 2, b.off, b.n); DONE }
	static void append_self() { { A a(1); a.s += a.s; same3(a.s, 1, a.off, a.n, 1, a.off, a.n, 1, 0, 0); DONE }
	static void append_cstr() { { A a(1); vi m = v_int(5); v_assume(m >= 0); const T* p = (const T*)v_cstr(2, m, sizeof(T)); a.s += p; same3(a.s, 1, a.off, a.n, 2, 0, m, 1, 0, 0); DONE }
	static void index_of() { { A a(1); T c = (T)v_ch(0, 8 * sizeof(T)); vi f = a.n ? v_first2(1, a.off, a.n, c) : 0; vi r = a.s.IndexOf(c); RESULT(r == (f < a.n ? f : -1)); DONE }
	// ---- comparison
	static int sgn(std::strong_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }
	static int expected(int ta, vi fa, vi na, int tb, vi fb, vi nb)
	{
		vi m = na < nb ? na : nb; if (m > 0) { vi d = v_diff(ta, fa, tb, fb, m); if (d < m) { T x = (T)v_at(ta, fa + d), y = (T)v_at(tb, fb + d); return x < y ? -1 : 1; } }
		return na < nb ? -1 : na > nb ? 1 : 0;
	}
	static void compare3() { { A2 a(1); A2 b(2); int x = expected(1, a.off, a.n, 2, b.off, b.n); RESULT(sgn(a.s <=> b.s) == x); DONE }
	static void compare_eq() { { A2 a(1); A2 b(2); int x = expected(1, a.off, a.n, 2, b.off, b.n); if (v_bool(2)) RESULT((a.s == b.s) == (x == 0)); else if (v_bool(3)) RESULT((a.s != b.s) == (x != 0)); else RESULT((a.s < b.s) == (x < 0)); DONE }
	static void compare_slices() { { vi real = v_int(1); v_assume(real >= 0); Str base = Str::CopyFrom((const T*)v_chars(1, real, sizeof(T)), real);
		vi o1 = v_int(2), n1 = v_int(3), o2 = v_int(4), n2 = v_int(5); v_assume(o1 >= 0 && n1 >= 0 && o1 + n1 <= real && o2 >= 0 && n2 >= 0 && o2 + n2 <= real);
		Str a = base.Sub(o1, n1), b = base.Sub(o2, n2);
		if (o1 == o2) { RESULT(sgn(a <=> b) == (n1 < n2 ? -1 : n1 > n2 ? 1 : 0)); } else { int x = expected(1, o1, n1, 1, o2, n2); RESULT(sgn(a <=> b) == x); } DONE }
	static void compare_cstr() { { A a(1); vi m = v_int(5); v_assume(m >= 0); const T* p = (const T*)v_cstr(2, m, sizeof(T)); int x = expected(1, a.off, a.n, 2, 0, m);
		if (v_bool(1)) RESULT(sgn(a.s <=> p) == x); else if (v_bool(2)) RESULT(sgn(p <=> a.s) == -x); else if (v_bool(3)) RESULT((a.s == p) == (x == 0)); else RESULT((p == a.s) == (x == 0)); DONE }
};
#define ALL(N) DRV drv_W_##N() { S<wchar_t>::N(); } DRV drv_H_##N() { S<char16_t>::N(); }
ALL(ctor_default) ALL(ctor_cstr) ALL(ctor_null) ALL(copy_from) ALL(unmanaged) ALL(take_over) ALL(take_over_bad) ALL(from_char)
ALL(copy_ctor) ALL(move_ctor) ALL(copy_assign) ALL(move_assign) ALL(self_assign) ALL(assign_shared)
ALL(length_index) ALL(buffer) ALL(buffer_stays) ALL(left) ALL(right) ALL(sub) ALL(remove) ALL(insert) ALL(concat) ALL(concat_cstr) ALL(cstr_concat) ALL(append) ALL(append_self) ALL(caller_gone) ALL(concat_gone) ALL(append_gone) ALL(append_cstr) ALL(index_of)
ALL(compare3) ALL(compare_eq) ALL(compare_slices) ALL(compare_cstr)
DRV drv_W_cast() { typedef S<wchar_t> W; { W::A a(1); ObjectString<char32_t> t = ObjectString<char32_t>::UnsafeCastFrom(a.s); if (v_bool(1)) a.s = WString(); RESULT(t.Length() == a.n); if (v_bool(2)) { vi j = W::pick(a.n); v_is(t[j], 1, a.off + j); } WString u = WString::UnsafeCastFrom(t); W::same(u, 1, a.off, a.n); } v_final(); }
template class vl::ObjectString<char32_t>;
