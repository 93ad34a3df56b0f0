// Numbers and case mapping
#include "vdrv.h"
#include "Strings/String.cpp"
using namespace vl;
#define DRV extern "C" void
#define RESULT(c) v_require((c), 2)
#define LEGAL(c) v_require((c), 1)
#define FIN v_final(); }
extern "C" { uint64_t v_u64(int tag) noexcept; int64_t v_i64(int tag) noexcept; int v_consumed() noexcept; }
// the value of a canonical decimal text, straight from its definition
template<typename S> static bool canonical(const S& s, bool sign)
{
	vi n = s.Length(), b = 0;
	if (n == 0) return false;
	if (sign && s[0] == '-') { b = 1; if (n == 1) return false; }
	if (s[b] == '0' && (n > b + 1 || b == 1)) return false;
	for (vi i = b; i < n; i++) if (s[i] < '0' || s[i] > '9') return false;
	return true;
}
template<typename S> static vi value(const S& s) { vi n = s.Length(), b = s[0] == '-' ? 1 : 0, v = 0; for (vi i = b; i < n; i++) v = v * 10 + (s[i] - '0'); return b ? -v : v; }
#define ROUND(N, IN, PRINT, TEST, CONV, SIGN) DRV drv_n_round_##N() { { auto n = IN; auto s = PRINT(n); RESULT(canonical(s, SIGN)); RESULT(value(s) == (vi)n); bool ok = false; RESULT(TEST(s, ok) == n); RESULT(ok); RESULT(CONV(s) == n); } FIN
ROUND(i, (vint)v_ch(1, 32), itoa, atoi_test, atoi, true)
ROUND(iw, (vint)v_ch(1, 32), itow, wtoi_test, wtoi, true)
ROUND(i64, v_i64(1), i64toa, atoi64_test, atoi64, true)
ROUND(i64w, v_i64(1), i64tow, wtoi64_test, wtoi64, true)
ROUND(u, (vuint)(uint32_t)v_ch(1, 32), utoa, atou_test, atou, false)
ROUND(uw, (vuint)(uint32_t)v_ch(1, 32), utow, wtou_test, wtou, false)
ROUND(u64, v_u64(1), u64toa, atou64_test, atou64, false)
ROUND(u64w, v_u64(1), u64tow, wtou64_test, wtou64, false)
// 32-bit parsers accept exactly the 32-bit range; the signed and unsigned 64-bit ones theirs
DRV drv_n_limit_i() { { vi n = v_i64(1); auto s = i64toa(n); bool ok = true; vi r = atoi_test(s, ok); RESULT(ok == (n >= -2147483647LL - 1 && n <= 2147483647LL)); if (ok) RESULT(r == n); RESULT(atoi(s) == (ok ? n : 0)); } FIN
DRV drv_n_limit_iw() { { vi n = v_i64(1); auto s = i64tow(n); bool ok = true; vi r = wtoi_test(s, ok); RESULT(ok == (n >= -2147483647LL - 1 && n <= 2147483647LL)); if (ok) RESULT(r == n); RESULT(wtoi(s) == (ok ? n : 0)); } FIN
DRV drv_n_limit_u() { { vi n = v_i64(1); auto s = i64toa(n); bool ok = true; vuint r = atou_test(s, ok); RESULT(ok == (n >= 0 && n <= 4294967295LL)); if (ok) RESULT((vi)r == n); RESULT((vi)atou(s) == (ok ? n : 0)); } FIN
DRV drv_n_limit_uw() { { vi n = v_i64(1); auto s = i64tow(n); bool ok = true; vuint r = wtou_test(s, ok); RESULT(ok == (n >= 0 && n <= 4294967295LL)); if (ok) RESULT((vi)r == n); RESULT((vi)wtou(s) == (ok ? n : 0)); } FIN
DRV drv_n_limit_i64() { { uint64_t n = v_u64(1); auto s = u64toa(n); bool ok = true; vi r = atoi64_test(s, ok); RESULT(ok == (n <= 9223372036854775807ULL)); if (ok) RESULT((uint64_t)r == n); RESULT((uint64_t)atoi64(s) == (ok ? n : 0)); } FIN
DRV drv_n_limit_i64w() { { uint64_t n = v_u64(1); auto s = u64tow(n); bool ok = true; vi r = wtoi64_test(s, ok); RESULT(ok == (n <= 9223372036854775807ULL)); if (ok) RESULT((uint64_t)r == n); RESULT((uint64_t)wtoi64(s) == (ok ? n : 0)); } FIN
DRV drv_n_limit_u64() { { vi n = v_i64(1); auto s = i64toa(n); bool ok = true; uint64_t r = atou64_test(s, ok); RESULT(ok == (n >= 0)); if (ok) RESULT((vi)r == n); RESULT((vi)atou64(s) == (ok ? n : 0)); } FIN
DRV drv_n_limit_u64w() { { vi n = v_i64(1); auto s = i64tow(n); bool ok = true; uint64_t r = wtou64_test(s, ok); RESULT(ok == (n >= 0)); if (ok) RESULT((vi)r == n); RESULT((vi)wtou64(s) == (ok ? n : 0)); } FIN
// arbitrary texts
template<typename S, typename C> static S text(int n, int bits) { C b[5]; for (int i = 0; i < n; i++) b[i] = (C)v_ch(1 + i, bits); return S::CopyFrom(b, n); }
template<typename S, typename C> static S slice(int n, int bits) { C b[7]; b[0] = '1'; for (int i = 0; i < n; i++) b[1 + i] = (C)v_ch(1 + i, bits); b[n + 1] = '2'; return S::CopyFrom(b, n + 2).Sub(1, n); }
#define TEXT(N, S, C, BITS, TEST, CONV, SIGN, LEN, MK) DRV drv_n_text##LEN##_##MK##_##N() { { S s = MK<S, C>(LEN, BITS); bool ok = true; auto r = TEST(s, ok); RESULT(ok == canonical(s, SIGN)); if (ok) RESULT((vi)r == value(s)); RESULT((vi)CONV(s) == (ok ? (vi)r : 0)); RESULT(s.Length() == LEN); for (vi i = 0; i < LEN; i++) RESULT(s[i] == (C)v_ch(1 + (int)i, BITS)); } FIN
#define TEXTS(LEN, MK) TEXT(i, AString, char, 8, atoi_test, atoi, true, LEN, MK) TEXT(iw, WString, wchar_t, 32, wtoi_test, wtoi, true, LEN, MK) TEXT(i64, AString, char, 8, atoi64_test, atoi64, true, LEN, MK) TEXT(i64w, WString, wchar_t, 32, wtoi64_test, wtoi64, true, LEN, MK) \
	TEXT(u, AString, char, 8, atou_test, atou, false, LEN, MK) TEXT(uw, WString, wchar_t, 32, wtou_test, wtou, false, LEN, MK) TEXT(u64, AString, char, 8, atou64_test, atou64, false, LEN, MK) TEXT(u64w, WString, wchar_t, 32, wtou64_test, wtou64, false, LEN, MK)
TEXTS(0, text) TEXTS(1, text) TEXTS(2, text) TEXTS(3, text) TEXTS(1, slice) TEXTS(2, slice)
#ifdef DEEP
TEXTS(4, text) TEXTS(3, slice)
#endif
// 32-bit helpers
#define SMALL(N, IN, C, F, SIGN, STR) DRV drv_n_small_##N() { { auto n = IN; C b[100]; F(n, b, 100, 10); STR s = b; RESULT(canonical(s, SIGN)); RESULT(value(s) == (vi)n); } FIN
SMALL(i, (vint32_t)v_ch(1, 32), char, _itoa_s, true, AString)
SMALL(iw, (vint32_t)v_ch(1, 32), wchar_t, _itow_s, true, WString)
SMALL(u, (vuint32_t)v_ch(1, 32), char, _uitoa_s, false, AString)
SMALL(uw, (vuint32_t)v_ch(1, 32), wchar_t, _uitow_s, false, WString)
// floating point: success exactly when the whole, non-empty text is a number
#define FLT(N, S, C, BITS, TEST, LEN, MK) DRV drv_f_text##LEN##_##MK##_##N() { { for (int i = 0; i < LEN; i++) v_assume((C)v_ch(1 + i, BITS) != 0); S s = MK<S, C>(LEN, BITS); bool ok = LEN == 0; TEST(s, ok); RESULT(ok == (LEN > 0 && v_consumed() == LEN)); } FIN
FLT(a, AString, char, 8, atof_test, 0, text) FLT(a, AString, char, 8, atof_test, 1, text) FLT(a, AString, char, 8, atof_test, 3, text) FLT(a, AString, char, 8, atof_test, 2, slice)
FLT(w, WString, wchar_t, 32, wtof_test, 0, text) FLT(w, WString, wchar_t, 32, wtof_test, 1, text) FLT(w, WString, wchar_t, 32, wtof_test, 3, text) FLT(w, WString, wchar_t, 32, wtof_test, 2, slice)
extern "C" { int v_flen() noexcept; int v_fch(int k) noexcept; void v_huge() noexcept; }
// printing a floating point number: the fixed notation without trailing zeros (and without a trailing point)
DRV drv_f_print() { { double d = (double)v_i64(1); AString s = ftoa(d); int n = v_flen(); int point = 0; for (int i = 0; i < n; i++) if (v_fch(i) == '.') point = 1;
	if (point) { while (v_fch(n - 1) == '0') n--; if (v_fch(n - 1) == '.') n--; } RESULT(s.Length() == n); for (vi i = 0; i < n; i++) RESULT(s[i] == (char)v_fch((int)i)); } FIN
DRV drv_f_huge() { { v_huge(); double d = (double)v_i64(1); AString s = ftoa(d); RESULT(s.Length() == 310); RESULT(s[0] == '-'); RESULT(s[309] == (char)v_fch(309)); } FIN
// case mapping: each character mapped, the operand untouched
#define CASE(N, S, C, BITS, F, G, LEN, MK) DRV drv_k_##N##LEN##_##MK() { { for (int i = 0; i < LEN; i++) v_assume((C)v_ch(1 + i, BITS) != 0); S s = MK<S, C>(LEN, BITS); S k = s; S r = F(s); RESULT(r.Length() == LEN); RESULT(s.Length() == LEN); for (vi i = 0; i < LEN; i++) { C c = (C)v_ch(1 + (int)i, BITS); RESULT(r[i] == (C)G(c)); RESULT(s[i] == c); RESULT(k[i] == c); } } FIN
#define CASES(LEN, MK) CASE(al, AString, char, 8, alower, tolower, LEN, MK) CASE(au, AString, char, 8, aupper, toupper, LEN, MK) CASE(wl, WString, wchar_t, 32, wlower, towlower, LEN, MK) CASE(wu, WString, wchar_t, 32, wupper, towupper, LEN, MK)
CASES(0, text) CASES(1, text) CASES(2, text) CASES(3, text) CASES(1, slice) CASES(2, slice)
