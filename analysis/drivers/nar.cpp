// Narrow text: conversion through the multibyte encoding of the locale
#include "vdrv.h"
#include "Strings/Conversion.cpp"
#include "Strings/Conversion.Linux.cpp"
template class vl::ObjectString<wchar_t>;
template class vl::ObjectString<char8_t>;
template class vl::ObjectString<char16_t>;
template class vl::ObjectString<char32_t>;
template class vl::ObjectString<char>;
using namespace vl;
extern "C" { vi v_mbw(vi c) noexcept; vi v_mbyte(vi c, int k) noexcept; vi v_mbd(vi c) noexcept; }
#define DRV extern "C" void
#define RESULT(c) v_require((c), 2)
#define FIN v_final(); }
static vi asc(int t) { vi c = v_ch(t, 32); v_assume(c >= 1 && c <= 127); return c; }
template<typename S> static void same(const S& s, const vi* t, int n) { RESULT(s.Length() == n); for (int i = 0; i < n; i++) RESULT((vi)s[i] == t[i]); RESULT((vi)s.Buffer()[n] == 0); }
template<typename T> struct Asc { vi v[4]; T b[5]; int n, from; ObjectString<T> s; Asc() { int w = v_choose(1, 4); n = w; from = 0; for (int i = 0; i < w; i++) { v[i] = asc(10 + i); b[i] = (T)v[i]; } b[w] = 0; s = v_bool(2) ? ObjectString<T>::CopyFrom(b, w) : ObjectString<T>::Unmanaged(b); if (v_bool(3)) { from = v_choose(4, 2); v_assume(from <= w); n = v_choose(5, 3); v_assume(from + n <= w); s = s.Sub(from, n); } } };
// ASCII text is the same in every locale
DRV drv_wtoa() { { Asc<wchar_t> a; AString r = wtoa(a.s); same(r, a.v + a.from, a.n); same(atow(r), a.v + a.from, a.n); same(a.s, a.v + a.from, a.n); } FIN
DRV drv_atow() { { Asc<char> a; WString r = atow(a.s); same(r, a.v + a.from, a.n); same(wtoa(r), a.v + a.from, a.n); same(a.s, a.v + a.from, a.n); } FIN
DRV drv_atou8() { { Asc<char> a; same(atou8(a.s), a.v + a.from, a.n); } FIN
DRV drv_atou16() { { Asc<char> a; same(atou16(a.s), a.v + a.from, a.n); } FIN
DRV drv_atou32() { { Asc<char> a; same(atou32(a.s), a.v + a.from, a.n); } FIN
DRV drv_u8toa() { { Asc<char8_t> a; same(u8toa(a.s), a.v + a.from, a.n); } FIN
DRV drv_u16toa() { { Asc<char16_t> a; same(u16toa(a.s), a.v + a.from, a.n); } FIN
DRV drv_u32toa() { { Asc<char32_t> a; same(u32toa(a.s), a.v + a.from, a.n); } FIN
// any text: the bytes the locale prescribes, and back; nothing when a character has no encoding
DRV drv_any() { { vi v[3]; wchar_t b[4]; int n = v_choose(1, 4); for (int i = 0; i < n; i++) { v[i] = v_ch(10 + i, 32); v_assume(v[i] != 0); b[i] = (wchar_t)v[i]; } b[n] = 0; 
	WString s = WString::CopyFrom(b, n); AString r = wtoa(s); bool ok = true; vi k = 0; for (int i = 0; i < n; i++) { vi w = v_mbw(v[i]); if (w < 0) { ok = false; break; } k += w; }
	if (!ok) RESULT(r.Length() == 0); else { RESULT(r.Length() == k); vi j = 0; for (int i = 0; i < n; i++) for (int l = 0; l < v_mbw(v[i]); l++) RESULT((vi)r[j++] == v_mbyte(v[i], l)); same(atow(r), v, n); } } FIN
DRV drv_bytes() { { vi v[3]; char b[4]; int n = v_choose(1, 4); for (int i = 0; i < n; i++) { v[i] = v_ch(10 + i, 8); v_assume(v[i] != 0); b[i] = (char)v[i]; } b[n] = 0;
	AString s = AString::CopyFrom(b, n); WString r = atow(s); bool ok = true; vi t[3]; for (int i = 0; i < n && ok; i++) { t[i] = v_mbd(b[i]); if (t[i] < 0) ok = false; } if (ok) same(r, t, n); else RESULT(r.Length() == 0); } FIN
// the size needed, and a buffer of that size
DRV drv_size() { { Asc<wchar_t> a; v_assume(a.from == 0); char d[5]; for (int i = 0; i < 5; i++) d[i] = 0; RESULT(_wtoa(a.s.Buffer(), nullptr, 0) == a.n + 1); RESULT(_wtoa(a.s.Buffer(), d, a.n + 1) == a.n + 1); for (int i = 0; i < a.n; i++) RESULT((vi)d[i] == a.v[i]); RESULT(d[a.n] == 0);
	wchar_t e[5]; for (int i = 0; i < 5; i++) e[i] = 0; RESULT(_atow(d, nullptr, 0) == a.n + 1); RESULT(_atow(d, e, a.n + 1) == a.n + 1); for (int i = 0; i < a.n; i++) RESULT((vi)e[i] == a.v[i]); RESULT(e[a.n] == 0); } FIN
DRV drv_clip() { { vi v[3]; wchar_t b[4]; for (int i = 0; i < 3; i++) { v[i] = asc(10 + i); b[i] = (wchar_t)v[i]; } b[3] = 0; int k = 1 + v_choose(1, 3); char* d = new char[k]; _wtoa(b, d, k); for (int i = 0; i < k - 1; i++) RESULT((vi)d[i] == v[i]); delete[] d; char c[4]; for (int i = 0; i < 3; i++) c[i] = (char)v[i]; c[3] = 0; wchar_t* f = new wchar_t[k]; _atow(c, f, k); for (int i = 0; i < k - 1; i++) RESULT((vi)f[i] == v[i]); delete[] f; } FIN
#ifdef BIG
DRV drv_big() { { wchar_t b[BIG + 1]; for (int i = 0; i < BIG; i++) b[i] = (wchar_t)(L'a' + i % 26); b[BIG] = 0; AString r = wtoa(WString::CopyFrom(b, BIG)); RESULT(r.Length() == BIG); for (int i = 0; i < BIG; i++) RESULT((vi)r[i] == (vi)b[i]); WString w = atow(r); RESULT(w.Length() == BIG); for (int i = 0; i < BIG; i++) RESULT(w[i] == b[i]); } FIN
#endif
