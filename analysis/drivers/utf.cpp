// Unicode encodings: every code point, every code unit sequence
#include "vdrv.h"
#include "Strings/Conversion.cpp"
template class vl::ObjectString<wchar_t>;
template class vl::ObjectString<char8_t>;
template class vl::ObjectString<char16_t>;
template class vl::ObjectString<char32_t>;
using namespace vl;
using namespace vl::encoding;
#define DRV extern "C" void
#define RESULT(c) v_require((c), 2)
#define LEGAL(c) v_require((c), 1)
#define FIN v_final(); }
typedef UtfConversion<char8_t> U8; typedef UtfConversion<char16_t> U16; typedef UtfConversion<char16be_t> U16B; typedef UtfConversion<wchar_t> UW;
static char32_t c32(int t) { return (char32_t)v_ch(t, 32); }
static char8_t c8(int t) { return (char8_t)v_ch(t, 8); }
static char16_t c16(int t) { return (char16_t)v_ch(t, 16); }
static bool sur(vi c) { return c >= 0xD800 && c <= 0xDFFF; }
static bool uni(vi c) { return c <= 0x10FFFF && !sur(c); }
static vi u(char32_t c) { return (vi)(uint32_t)c; }
static vi u(char16_t c) { return (vi)(uint16_t)c; }
static vi u(char8_t c) { return (vi)(uint8_t)c; }
static vi u(wchar_t c) { return (vi)(uint32_t)c; }
// ---- one code point to code units
DRV drv_u8_from() { { char32_t s = c32(1); char8_t d[6]; vi n = U8::From32(s, d); vi c = u(s);
	if (c < 0x80) { RESULT(n == 1); RESULT(u(d[0]) == c); }
	else if (c < 0x800) { RESULT(n == 2); RESULT(u(d[0]) == 0xC0 + c / 64); RESULT(u(d[1]) == 0x80 + c % 64); }
	else if (sur(c)) { LEGAL(n == -1); }
	else if (c < 0x10000) { RESULT(n == 3); RESULT(u(d[0]) == 0xE0 + c / 4096); RESULT(u(d[1]) == 0x80 + c / 64 % 64); RESULT(u(d[2]) == 0x80 + c % 64); }
	else if (c <= 0x10FFFF) { RESULT(n == 4); RESULT(u(d[0]) == 0xF0 + c / 262144); RESULT(u(d[1]) == 0x80 + c / 4096 % 64); RESULT(u(d[2]) == 0x80 + c / 64 % 64); RESULT(u(d[3]) == 0x80 + c % 64); }
	else if (n != -1) { RESULT(n >= 4 && n <= 6); char32_t b = 0; RESULT(U8::To32(d, n, b) == n); RESULT(b == s); }
	} FIN
DRV drv_u16_from() { { char32_t s = c32(1); char16_t d[2]; vi n = U16::From32(s, d); vi c = u(s);
	if (!uni(c)) { LEGAL(n == -1); }
	else if (c < 0x10000) { RESULT(n == 1); RESULT(u(d[0]) == c); }
	else { RESULT(n == 2); RESULT(u(d[0]) == 0xD800 + (c - 0x10000) / 1024); RESULT(u(d[1]) == 0xDC00 + (c - 0x10000) % 1024); }
	} FIN
static vi swap16(vi x) { return x % 256 * 256 + x / 256; }
DRV drv_u16be_from() { { char32_t s = c32(1); char16be_t d[2]; vi n = U16B::From32(s, d); vi c = u(s);
	if (!uni(c)) { LEGAL(n == -1); }
	else if (c < 0x10000) { RESULT(n == 1); RESULT(u(d[0].value) == swap16(c)); }
	else { RESULT(n == 2); RESULT(u(d[0].value) == swap16(0xD800 + (c - 0x10000) / 1024)); RESULT(u(d[1].value) == swap16(0xDC00 + (c - 0x10000) % 1024)); }
	} FIN
DRV drv_w_from() { { char32_t s = c32(1); wchar_t d[1]; vi n = UW::From32(s, d); if (uni(u(s))) { RESULT(n == 1); RESULT(u(d[0]) == u(s)); } else if (n != -1) { RESULT(n == 1); RESULT(u(d[0]) == u(s)); } } FIN
// ---- and back
DRV drv_u8_round() { { char32_t s = c32(1); char8_t d[6]; vi n = U8::From32(s, d); if (n != -1) { char32_t b = 0; RESULT(U8::To32(d, n, b) == n); RESULT(b == s); } } FIN
DRV drv_u16_round() { { char32_t s = c32(1); char16_t d[2]; vi n = U16::From32(s, d); if (n != -1) { char32_t b = 0; RESULT(U16::To32(d, n, b) == n); RESULT(b == s); } } FIN
DRV drv_u16be_round() { { char32_t s = c32(1); char16be_t d[2]; vi n = U16B::From32(s, d); if (n != -1) { char32_t b = 0; RESULT(U16B::To32(d, n, b) == n); RESULT(b == s); } } FIN
// ---- well-formed code units to one code point (RFC 3629 table 3-7)
static bool cont(char8_t c) { return u(c) >= 0x80 && u(c) <= 0xBF; }
// a window of exactly n units: nothing before or after it may be read
template<typename T> struct Win { T* p; Win(int n) : p(new T[n]) {} ~Win() { delete[] p; } };
DRV drv_u8_to1() { { Win<char8_t> w(1); vi b = u(c8(1)); v_assume(b < 0x80); w.p[0] = (char8_t)b; char32_t c = 0; RESULT(U8::To32(w.p, 1, c) == 1); RESULT(u(c) == b); } FIN
DRV drv_u8_to2() { { Win<char8_t> w(2); char8_t a = c8(1), b = c8(2); v_assume(u(a) >= 0xC2 && u(a) <= 0xDF && cont(b)); w.p[0] = a; w.p[1] = b; char32_t c = 0;
	RESULT(U8::To32(w.p, 2, c) == 2); RESULT(u(c) == (u(a) - 0xC0) * 64 + (u(b) - 0x80)); LEGAL(U8::To32(w.p, 1, c) == -1); } FIN
DRV drv_u8_to3() { { Win<char8_t> w(3); char8_t a = c8(1), b = c8(2), d = c8(3); v_assume(u(a) >= 0xE0 && u(a) <= 0xEF && cont(b) && cont(d)); v_assume(u(a) != 0xE0 || u(b) >= 0xA0);
	w.p[0] = a; w.p[1] = b; w.p[2] = d; char32_t c = 0; vi n = U8::To32(w.p, 3, c);
	vi v = (u(a) - 0xE0) * 4096 + (u(b) - 0x80) * 64 + (u(d) - 0x80); if (sur(v)) LEGAL(n == -1); else { RESULT(n == 3); RESULT(u(c) == v); }
	LEGAL(U8::To32(w.p, v_choose(1, 2) + 1, c) == -1); } FIN
DRV drv_u8_to4() { { Win<char8_t> w(4); char8_t a = c8(1), b = c8(2), d = c8(3), f = c8(4); v_assume(u(a) >= 0xF0 && u(a) <= 0xF4 && cont(b) && cont(d) && cont(f)); v_assume(u(a) != 0xF0 || u(b) >= 0x90); v_assume(u(a) != 0xF4 || u(b) <= 0x8F);
	w.p[0] = a; w.p[1] = b; w.p[2] = d; w.p[3] = f; char32_t c = 0; RESULT(U8::To32(w.p, 4, c) == 4);
	RESULT(u(c) == (u(a) - 0xF0) * 262144 + (u(b) - 0x80) * 4096 + (u(d) - 0x80) * 64 + (u(f) - 0x80)); LEGAL(U8::To32(w.p, v_choose(1, 3) + 1, c) == -1); } FIN
static bool hi(char16_t c) { return u(c) >= 0xD800 && u(c) <= 0xDBFF; }
static bool lo(char16_t c) { return u(c) >= 0xDC00 && u(c) <= 0xDFFF; }
static void u16to(vi n, vi len, char16_t a, char16_t b, char32_t c)
{
	if (hi(a)) { if (len >= 2 && lo(b)) { RESULT(n == 2); RESULT(u(c) == 0x10000 + (u(a) - 0xD800) * 1024 + (u(b) - 0xDC00)); } else LEGAL(n == -1); }
	else if (lo(a)) LEGAL(n == -1);
	else { RESULT(n == 1); RESULT(u(c) == u(a)); }
}
DRV drv_u16_to() { { vi len = v_choose(1, 2) + 1; Win<char16_t> w(len); char16_t a = c16(1), b = c16(2); w.p[0] = a; if (len > 1) w.p[1] = b; char32_t c = 0; vi n = U16::To32(w.p, len, c); u16to(n, len, a, b, c); } FIN
DRV drv_u16be_to() { { vi len = v_choose(1, 2) + 1; Win<char16be_t> w(len); char16_t a = c16(1), b = c16(2); w.p[0].value = (char16_t)swap16(u(a)); if (len > 1) w.p[1].value = (char16_t)swap16(u(b)); char32_t c = 0; vi n = U16B::To32(w.p, len, c); u16to(n, len, a, b, c); } FIN
DRV drv_w_to() { { Win<wchar_t> w(1); w.p[0] = (wchar_t)c32(1); char32_t c = 0; vi n = UW::To32(w.p, 1, c); if (uni(u(w.p[0]))) RESULT(n == 1); if (n != -1) { RESULT(n == 1); RESULT(u(c) == u(w.p[0])); } } FIN
// ---- arbitrary units: nothing outside the given length is read, the result is a failure or a length that was available, and never a surrogate
DRV drv_u8_any() { { vi len = v_choose(1, 7); Win<char8_t> w(len); for (vi i = 0; i < len; i++) w.p[i] = c8(1 + i); char32_t c = 0; vi n = U8::To32(w.p, len, c); RESULT(n == -1 || (n >= 1 && n <= len)); if (n != -1) RESULT(!sur(u(c))); } FIN
DRV drv_u16_none() { { char32_t c = 0; Win<char16_t> w(0); Win<char16be_t> x(0); Win<wchar_t> y(0); vi len = v_int(1); v_assume(len <= 0); LEGAL(U16::To32(w.p, len, c) == -1); LEGAL(UW::To32(y.p, len, c) == -1); LEGAL(U16B::To32(x.p, len, c) == -1); } FIN

// ---- whole strings: n code points through every pair of encodings
static bool ok(char32_t c) { return uni(u(c)) && c != 0; }
static void cp(char32_t* s, int n) { for (int i = 0; i < n; i++) { s[i] = c32(1 + i); v_assume(ok(s[i])); } s[n] = 0; }
static vi len8(char32_t c) { return u(c) < 0x80 ? 1 : u(c) < 0x800 ? 2 : u(c) < 0x10000 ? 3 : 4; }
static vi len16(char32_t c) { return u(c) < 0x10000 ? 1 : 2; }
template<typename R> static void same(const R& r, char32_t* s, int n) { RESULT(r.Length() == n); for (int i = 0; i < n; i++) RESULT(u(r[i]) == u(s[i])); }
DRV drv_t_8_32() { { char32_t s[3]; int n = v_choose(9, 3); cp(s, n); U8String r = u32tou8(U32String::CopyFrom(s, n)); vi k = 0; for (int i = 0; i < n; i++) k += len8(s[i]); RESULT(r.Length() == k); same(u8tou32(r), s, n); } FIN
DRV drv_t_16_32() { { char32_t s[3]; int n = v_choose(9, 3); cp(s, n); U16String r = u32tou16(U32String::CopyFrom(s, n)); vi k = 0; for (int i = 0; i < n; i++) k += len16(s[i]); RESULT(r.Length() == k); same(u16tou32(r), s, n); } FIN
DRV drv_t_w_32() { { char32_t s[3]; int n = v_choose(9, 3); cp(s, n); WString r = u32tow(U32String::CopyFrom(s, n)); same(r, s, n); same(wtou32(r), s, n); } FIN
DRV drv_t_8_16() { { char32_t s[3]; int n = v_choose(9, 3); cp(s, n); U16String r = u8tou16(u32tou8(U32String::CopyFrom(s, n))); vi k = 0; for (int i = 0; i < n; i++) k += len16(s[i]); RESULT(r.Length() == k); same(u8tou32(u16tou8(r)), s, n); } FIN
DRV drv_t_8_w() { { char32_t s[3]; int n = v_choose(9, 3); cp(s, n); U8String r = wtou8(u32tow(U32String::CopyFrom(s, n))); same(u8tou32(r), s, n); same(u8tow(r), s, n); } FIN
DRV drv_t_16_w() { { char32_t s[3]; int n = v_choose(9, 3); cp(s, n); U16String r = wtou16(u32tow(U32String::CopyFrom(s, n))); same(u16tou32(r), s, n); same(u16tow(r), s, n); } FIN
// a slice of a longer text
DRV drv_t_slice() { { char32_t s[4]; cp(s, 3); U32String r = U32String::CopyFrom(s, 3).Sub(1, 1); U8String q = u32tou8(r); RESULT(q.Length() == len8(s[1])); same(u8tou32(q), s + 1, 1); U16String p = u32tou16(r); RESULT(p.Length() == len16(s[1])); same(u16tou32(p), s + 1, 1); } FIN
DRV drv_t_slice8() { { char32_t s[4]; cp(s, 2); U8String r = u32tou8(U32String::CopyFrom(s, 2)).Sub(len8(s[0]), len8(s[1])); same(u8tou32(r), s + 1, 1); U16String p = u8tou16(r); same(u16tou32(p), s + 1, 1); } FIN
// text that cannot be encoded or decoded ends the result
DRV drv_t_stop16() { { char32_t s[3]; s[0] = c32(1); s[1] = c32(2); s[2] = 0; v_assume(ok(s[0]) && s[1] != 0 && !uni(u(s[1]))); U16String r = u32tou16(U32String::CopyFrom(s, 2)); same(u16tou32(r), s, 1); } FIN
DRV drv_t_stop8() { { char32_t s[3]; s[0] = c32(1); s[1] = c32(2); s[2] = 0; v_assume(ok(s[0]) && sur(u(s[1]))); U8String r = u32tou8(U32String::CopyFrom(s, 2)); same(u8tou32(r), s, 1); } FIN
DRV drv_t_stop32() { { char16_t s[3]; s[0] = c16(1); s[1] = c16(2); s[2] = 0; v_assume(s[0] != 0 && s[1] != 0); U32String r = u16tou32(U16String::CopyFrom(s, 2));
	if (hi(s[0])) { if (lo(s[1])) { RESULT(r.Length() == 1); RESULT(u(r[0]) == 0x10000 + (u(s[0]) - 0xD800) * 1024 + (u(s[1]) - 0xDC00)); } else RESULT(r.Length() == 0); }
	else if (lo(s[0])) RESULT(r.Length() == 0);
	else { RESULT(r.Length() == (hi(s[1]) || lo(s[1]) ? 1 : 2)); RESULT(u(r[0]) == u(s[0])); if (r.Length() == 2) RESULT(u(r[1]) == u(s[1])); } } FIN
static vi to8(char32_t c, char8_t* d); static vi to16(char32_t c, char16_t* d); static vi to32(char32_t c, char32_t* d);
// ... also when more text follows, and reading on after the end stays at the end
template<typename R, typename TTo, typename DL> static void stops(R& r, char32_t first, DL dl) { TTo unit[6]; vi m = dl(first, unit); for (vi j = 0; j < m; j++) RESULT(u(r.Read()) == u(unit[j])); RESULT(u(r.Read()) == 0); RESULT(u(r.Read()) == 0); RESULT(u(r.Read()) == 0); }
DRV drv_t_mid16() { { char32_t s[4]; s[0] = c32(1); s[1] = c32(2); s[2] = c32(3); s[3] = 0; v_assume(ok(s[0]) && s[1] != 0 && !uni(u(s[1])) && ok(s[2])); U16String r = u32tou16(U32String::CopyFrom(s, 3)); RESULT(r.Length() == len16(s[0])); same(u16tou32(r), s, 1); UtfStringToStringReader<char32_t, char16_t> q(s); stops<decltype(q), char16_t>(q, s[0], to16); } FIN
DRV drv_t_mid8() { { char32_t s[4]; s[0] = c32(1); s[1] = c32(2); s[2] = c32(3); s[3] = 0; v_assume(ok(s[0]) && sur(u(s[1])) && ok(s[2])); U8String r = u32tou8(U32String::CopyFrom(s, 3)); RESULT(r.Length() == len8(s[0])); same(u8tou32(r), s, 1); UtfStringToStringReader<char32_t, char8_t> q(s); stops<decltype(q), char8_t>(q, s[0], to8); } FIN
DRV drv_t_mid_16() { { char16_t s[5]; s[0] = c16(1); s[1] = c16(2); s[2] = c16(3); s[3] = c16(4); s[4] = 0; v_assume(s[3] != 0 && !hi(s[3]) && !lo(s[3])); v_assume(s[0] != 0 && s[2] != 0 && !hi(s[0]) && !lo(s[0]) && !hi(s[2]) && (lo(s[1]) || (hi(s[1]) && !lo(s[2])))); U32String r = u16tou32(U16String::CopyFrom(s, 4)); RESULT(r.Length() == 1); RESULT(u(r[0]) == u(s[0]));
	UtfStringToStringReader<char16_t, char32_t> q(s); stops<decltype(q), char32_t>(q, (char32_t)u(s[0]), to32); UtfStringToStringReader<char16_t, char8_t> p(s); stops<decltype(p), char8_t>(p, (char32_t)u(s[0]), to8); } FIN
DRV drv_t_mid_8() { { char8_t s[4]; s[0] = c8(1); s[1] = c8(2); s[2] = c8(3); s[3] = 0; v_assume(s[0] != 0 && u(s[0]) < 0x80 && s[2] != 0 && u(s[2]) < 0x80 && u(s[1]) >= 0xE0); U32String r = u8tou32(U8String::CopyFrom(s, 3)); RESULT(r.Length() == 1); RESULT(u(r[0]) == u(s[0]));
	UtfStringToStringReader<char8_t, char32_t> q(s); stops<decltype(q), char32_t>(q, (char32_t)u(s[0]), to32); UtfStringToStringReader<char8_t, char16_t> p(s); stops<decltype(p), char16_t>(p, (char32_t)u(s[0]), to16); } FIN
DRV drv_t_mid_8s() { { char8_t s[9]; s[0] = 0x61; s[1] = 0xED; s[2] = c8(1); s[3] = c8(2); v_assume(u(s[2]) >= 0xA0 && cont(s[2]) && cont(s[3])); for (int i = 4; i < 8; i++) s[i] = (char8_t)(0x60 + i); s[8] = 0; U32String r = u8tou32(U8String::CopyFrom(s, 8)); RESULT(r.Length() == 1); RESULT(u(r[0]) == 0x61);
	UtfStringToStringReader<char8_t, char32_t> q(s); stops<decltype(q), char32_t>(q, 0x61, to32); UtfStringToStringReader<char8_t, char16_t> p(s); stops<decltype(p), char16_t>(p, 0x61, to16); } FIN
// arbitrary bytes: the conversion stays inside the text and its result contains no surrogate
DRV drv_t_any8() { { int n = v_choose(9, 4); char8_t s[4]; for (int i = 0; i < n; i++) { s[i] = c8(1 + i); v_assume(s[i] != 0); } s[n] = 0; U32String r = u8tou32(U8String::CopyFrom(s, n)); RESULT(r.Length() <= n); for (vi i = 0; i < r.Length(); i++) RESULT(!sur(u(r[i]))); } FIN
// ---- caller buffers: the size needed is reported, never more than the given number of units is written, what is written is the beginning of the whole
template<typename TFrom, typename TTo> static void limited(const TFrom* s, vi need, int max)
{
	RESULT((_utftoutf<TFrom, TTo>(s, nullptr, 0)) == need + 1);
	Win<TTo> whole(need + 1); RESULT((_utftoutf<TFrom, TTo>(s, whole.p, need + 1)) == need + 1); RESULT(u(whole.p[need]) == 0);
	int k = v_choose(8, max); Win<TTo> part(k); vi m = _utftoutf<TFrom, TTo>(s, part.p, k); vi e = k < need + 1 ? k : need + 1;
	RESULT(m == e); for (vi i = 0; i < e; i++) RESULT(u(part.p[i]) == u(whole.p[i]));
}
DRV drv_b_32_8() { { char32_t s[3]; int n = v_choose(9, 2); cp(s, n); limited<char32_t, char8_t>(s, n ? len8(s[0]) : 0, 6); } FIN
DRV drv_b_32_16() { { char32_t s[3]; int n = v_choose(9, 3); cp(s, n); vi k = 0; for (int i = 0; i < n; i++) k += len16(s[i]); limited<char32_t, char16_t>(s, k, 6); } FIN
DRV drv_b_16_8() { { char32_t s[3]; int n = v_choose(9, 2); cp(s, n); char16_t t[8]; _utftoutf<char32_t, char16_t>(s, t, 8); limited<char16_t, char8_t>(t, n ? len8(s[0]) : 0, 6); } FIN
DRV drv_b_8_32() { { char32_t s[3]; int n = v_choose(9, 3); cp(s, n); char8_t t[9]; _utftoutf<char32_t, char8_t>(s, t, 9); limited<char8_t, char32_t>(t, n, 4); } FIN
DRV drv_b_w_16() { { char32_t s[3]; int n = v_choose(9, 3); cp(s, n); wchar_t t[3]; for (int i = 0; i <= n; i++) t[i] = (wchar_t)s[i]; vi k = 0; for (int i = 0; i < n; i++) k += len16(s[i]); limited<wchar_t, char16_t>(t, k, 4); } FIN
// ---- readers: every unit in order, its index, and the source units it came from
template<typename TTo, typename R, typename SL, typename DL> static void reader(R& r, char32_t* s, int n, SL sl, DL dl)
{
	vi at = 0, src = 0;
	for (int i = 0; i < n; i++)
	{
		TTo unit[6]; vi m = dl(s[i], unit);
		for (vi j = 0; j < m; j++) { auto c = r.Read(); RESULT(u(c) == u(unit[j])); RESULT(r.ReadingIndex() == at); at++; auto k = r.SourceCluster(); RESULT(k.index == src); RESULT(k.size == sl(s[i])); }
		src += sl(s[i]);
	}
	RESULT(u(r.Read()) == 0); RESULT(r.ReadingIndex() == at); auto k = r.SourceCluster(); RESULT(k.index == src); RESULT(k.size == 0); RESULT(u(r.Read()) == 0);
}
static vi to8(char32_t c, char8_t* d) { return U8::From32(c, *(char8_t(*)[6])d); }
static vi to16(char32_t c, char16_t* d) { return U16::From32(c, *(char16_t(*)[2])d); }
static vi to32(char32_t c, char32_t* d) { d[0] = c; return 1; }
static vi tow(char32_t c, wchar_t* d) { d[0] = (wchar_t)c; return 1; }
static vi one(char32_t) { return 1; }
#define PRE(T, W) char32_t s[3]; int n = v_choose(9, 3); cp(s, n); T t[9]; _utftoutf<char32_t, T>(s, t, W)
DRV drv_r_32_8() { { char32_t s[3]; int n = v_choose(9, 3); cp(s, n); UtfStringToStringReader<char32_t, char8_t> r(s); reader<char8_t>(r, s, n, one, to8); } FIN
DRV drv_r_32_16() { { char32_t s[3]; int n = v_choose(9, 3); cp(s, n); UtfStringToStringReader<char32_t, char16_t> r(s); reader<char16_t>(r, s, n, one, to16); } FIN
DRV drv_r_32_32() { { char32_t s[3]; int n = v_choose(9, 3); cp(s, n); UtfStringToStringReader<char32_t, char32_t> r(s); reader<char32_t>(r, s, n, one, to32); } FIN
DRV drv_r_32_w() { { char32_t s[3]; int n = v_choose(9, 3); cp(s, n); UtfStringToStringReader<char32_t, wchar_t> r(s); reader<wchar_t>(r, s, n, one, tow); } FIN
DRV drv_r_8_16() { { PRE(char8_t, 9); UtfStringToStringReader<char8_t, char16_t> r(t); reader<char16_t>(r, s, n, len8, to16); } FIN
DRV drv_r_8_32() { { PRE(char8_t, 9); UtfStringToStringReader<char8_t, char32_t> r(t); reader<char32_t>(r, s, n, len8, to32); } FIN
DRV drv_r_8_w() { { PRE(char8_t, 9); UtfStringToStringReader<char8_t, wchar_t> r(t); reader<wchar_t>(r, s, n, len8, tow); } FIN
DRV drv_r_8_8() { { PRE(char8_t, 9); UtfStringToStringReader<char8_t, char8_t> r(t); reader<char8_t>(r, s, n, len8, to8); } FIN
DRV drv_r_16_8() { { PRE(char16_t, 9); UtfStringToStringReader<char16_t, char8_t> r(t); reader<char8_t>(r, s, n, len16, to8); } FIN
DRV drv_r_16_32() { { PRE(char16_t, 9); UtfStringToStringReader<char16_t, char32_t> r(t); reader<char32_t>(r, s, n, len16, to32); } FIN
DRV drv_r_16_w() { { PRE(char16_t, 9); UtfStringToStringReader<char16_t, wchar_t> r(t); reader<wchar_t>(r, s, n, len16, tow); } FIN
DRV drv_r_range_8_16() { { PRE(char8_t, 9); vi k = 0; for (int i = 0; i < n; i++) k += len8(s[i]); Win<char8_t> w(k); for (vi i = 0; i < k; i++) w.p[i] = t[i]; UtfStringRangeToStringRangeReader<char8_t, char16_t> r(w.p, k); reader<char16_t>(r, s, n, len8, to16); } FIN
DRV drv_r_range_16_8() { { PRE(char16_t, 9); vi k = 0; for (int i = 0; i < n; i++) k += len16(s[i]); Win<char16_t> w(k); for (vi i = 0; i < k; i++) w.p[i] = t[i]; UtfStringRangeToStringRangeReader<char16_t, char8_t> r(w.p, w.p + k); reader<char8_t>(r, s, n, len16, to8); } FIN
DRV drv_r_range_32_w() { { char32_t s[3]; int n = v_choose(9, 3); cp(s, n); Win<char32_t> w(n); for (int i = 0; i < n; i++) w.p[i] = s[i]; UtfStringRangeToStringRangeReader<char32_t, wchar_t> r(w.p, (vi)n); reader<wchar_t>(r, s, n, one, tow); } FIN
#ifdef BIG
// long texts: code points of fixed widths in several patterns
static char32_t pick(int i, int k)
{
	static const char32_t W1[4] = { 0x41, 0x7F, 0x20, 0x7A }, W2[4] = { 0x80, 0x7FF, 0xE9, 0x3B1 }, W3[4] = { 0x800, 0xFFFF, 0x4E2D, 0xE000 }, W4[4] = { 0x10000, 0x10FFFF, 0x1F600, 0x20000 };
	int w = k < 4 ? k : k == 4 ? i % 4 : k == 5 ? 3 - i % 4 : i == BIG / 2 ? 3 : 0, j = i / 4 % 4;
	return w == 0 ? W1[j] : w == 1 ? W2[j] : w == 2 ? W3[j] : W4[j];
}
static void text(char32_t* s, int k) { for (int i = 0; i < BIG; i++) s[i] = pick(i, k); s[BIG] = 0; }
static vi sum8(char32_t* s) { vi k = 0; for (int i = 0; i < BIG; i++) k += len8(s[i]); return k; }
static vi sum16(char32_t* s) { vi k = 0; for (int i = 0; i < BIG; i++) k += len16(s[i]); return k; }
#define TEXT(K) char32_t s[BIG + 1]; text(s, K); U32String o = U32String::CopyFrom(s, BIG);
#define T(K) \
DRV drv_big_t8_##K() { { TEXT(K) U8String r = u32tou8(o); RESULT(r.Length() == sum8(s)); same(u8tou32(r), s, BIG); same(u8tow(r), s, BIG); } FIN \
DRV drv_big_t16_##K() { { TEXT(K) U16String r = u32tou16(o); RESULT(r.Length() == sum16(s)); same(u16tou32(r), s, BIG); same(u16tow(r), s, BIG); } FIN \
DRV drv_big_tw_##K() { { TEXT(K) WString r = u32tow(o); same(r, s, BIG); same(wtou32(r), s, BIG); U8String q = wtou8(r); RESULT(q.Length() == sum8(s)); same(u8tou32(q), s, BIG); U16String p = wtou16(r); RESULT(p.Length() == sum16(s)); same(u16tou32(p), s, BIG); } FIN \
DRV drv_big_t816_##K() { { TEXT(K) U8String r = u32tou8(o); U16String q = u8tou16(r); RESULT(q.Length() == sum16(s)); same(u16tou32(q), s, BIG); U8String p = u16tou8(q); RESULT(p.Length() == r.Length()); same(u8tou32(p), s, BIG); } FIN \
DRV drv_big_b8_##K() { { TEXT(K) bounded<char32_t, char8_t>(s, sum8(s)); } FIN \
DRV drv_big_b16_##K() { { TEXT(K) bounded<char32_t, char16_t>(s, sum16(s)); } FIN \
DRV drv_big_r8_##K() { { TEXT(K) UtfStringToStringReader<char32_t, char8_t> r(s); reader<char8_t>(r, s, BIG, one, to8); } FIN \
DRV drv_big_r16_##K() { { TEXT(K) UtfStringToStringReader<char32_t, char16_t> r(s); reader<char16_t>(r, s, BIG, one, to16); } FIN \
DRV drv_big_r816_##K() { { TEXT(K) char8_t t[4 * BIG + 1]; _utftoutf<char32_t, char8_t>(s, t, 4 * BIG + 1); UtfStringToStringReader<char8_t, char16_t> r(t); reader<char16_t>(r, s, BIG, len8, to16); } FIN \
DRV drv_big_r168_##K() { { TEXT(K) char16_t t[2 * BIG + 1]; _utftoutf<char32_t, char16_t>(s, t, 2 * BIG + 1); UtfStringToStringReader<char16_t, char8_t> r(t); reader<char8_t>(r, s, BIG, len16, to8); } FIN
template<typename TFrom, typename TTo> static void bounded(const TFrom* s, vi need)
{
	RESULT((_utftoutf<TFrom, TTo>(s, nullptr, 0)) == need + 1);
	Win<TTo> whole(need + 1); RESULT((_utftoutf<TFrom, TTo>(s, whole.p, need + 1)) == need + 1); RESULT(u(whole.p[need]) == 0);
	int w = v_choose(8, 4); vi k = w == 0 ? need : w == 1 ? need / 2 : w == 2 ? need - 1 : need + 5; Win<TTo> part(k); vi m = _utftoutf<TFrom, TTo>(s, part.p, k); vi e = k < need + 1 ? k : need + 1;
	RESULT(m == e); for (vi i = 0; i < e; i++) RESULT(u(part.p[i]) == u(whole.p[i]));
}
T(0) T(1) T(2) T(3) T(4) T(5) T(6)
#endif
