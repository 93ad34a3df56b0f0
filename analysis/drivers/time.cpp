// Date and time
#include "vdrv.h"
#include "Primitives/DateTime.cpp"
#include "Primitives/DateTime.Linux.cpp"
using namespace vl;
#define DRV extern "C" void
#define RESULT(c) v_require((c), 2)
#define FIN v_final(); }
extern "C" { vi v_now(int k) noexcept; vi v_usec(int k) noexcept; int v_clocks() noexcept; }
static IDateTimeImpl& os() { v_static_init(); return *GetOSDateTimeImpl(); }
static DateTime at(vi s, vi ms) { return GetOSDateTimeImpl()->FromOSInternal((vuint64_t)s * 1000 + ms); }
static vi secs(int t) { vi s = v_int(t); v_assume(s >= 0 && s < (1LL << 44)); return s; }
static vi msec(int t) { vi s = v_int(t); v_assume(s >= 0 && s < 1000); return s; }
static void shows(const DateTime& d, tm* i, vi ms)
{
	RESULT(d.year == i->tm_year + 1900); RESULT(d.month == i->tm_mon + 1); RESULT(d.day == i->tm_mday); RESULT(d.hour == i->tm_hour); RESULT(d.minute == i->tm_min); RESULT(d.second == i->tm_sec);
	RESULT(d.dayOfWeek == i->tm_wday); RESULT(d.milliseconds == ms);
}
static void shows(const DateTime& d, time_t t, bool local, vi ms) { shows(d, local ? localtime(&t) : gmtime(&t), ms); }
static void same(const DateTime& a, const DateTime& b)
{
	RESULT(a.year == b.year); RESULT(a.month == b.month); RESULT(a.day == b.day); RESULT(a.hour == b.hour); RESULT(a.minute == b.minute); RESULT(a.second == b.second); RESULT(a.milliseconds == b.milliseconds); RESULT(a.dayOfWeek == b.dayOfWeek);
	RESULT(a.osInternal == b.osInternal); RESULT(a.osMilliseconds == b.osMilliseconds); RESULT(a == b); RESULT((a <=> b) == 0);
}
DRV drv_from_os() { { vi s = secs(1), ms = msec(2); IDateTimeImpl& i = os(); DateTime d = i.FromOSInternal((vuint64_t)s * 1000 + ms); RESULT(d.osInternal == (vuint64_t)s * 1000 + ms); shows(d, s, true, ms); DateTime e = i.FromOSInternal(d.osInternal); same(d, e); } FIN
DRV drv_from_date() { { IDateTimeImpl& i = os(); vi y = v_int(1), mo = v_int(2), d = v_int(3), h = v_int(4), m = v_int(5), s = v_int(6), ms = msec(7); v_assume(y >= 1970 && y < 9999); v_assume(mo >= 1 && mo <= 12); v_assume(d >= 1 && d <= 31); v_assume(h >= 0 && h <= 23); v_assume(m >= 0 && m <= 59); v_assume(s >= 0 && s <= 59);
	DateTime t = i.FromDateTime(y, mo, d, h, m, s, ms); RESULT(t.year == y); RESULT(t.month == mo); RESULT(t.day == d); RESULT(t.hour == h); RESULT(t.minute == m); RESULT(t.second == s); RESULT(t.milliseconds == ms); v_assume((vi)t.osInternal >= 0); DateTime u = i.FromOSInternal(t.osInternal); same(t, u); } FIN
DRV drv_order() { { os(); vi a = secs(1), b = secs(2), x = msec(3), y = msec(4); DateTime p = at(a, x), q = at(b, y); vi l = a * 1000 + x, r = b * 1000 + y; RESULT((p < q) == (l < r)); RESULT((p == q) == (l == r)); RESULT((p > q) == (l > r)); RESULT((p != q) == (l != r)); RESULT((p.osMilliseconds < q.osMilliseconds) == (l < r)); RESULT((p.osMilliseconds == q.osMilliseconds) == (l == r)); } FIN
DRV drv_forward() { { IDateTimeImpl& i = os(); vi a = secs(1), x = msec(2), n = v_int(3); v_assume(n >= 0 && n < (1LL << 50)); vuint64_t o = (vuint64_t)a * 1000 + x; RESULT(i.Forward(o, n) == o + n); RESULT(i.Backward(i.Forward(o, n), n) == o); DateTime d = i.FromOSInternal(i.Forward(o, n)); RESULT(d.osInternal == o + n); RESULT(d.osMilliseconds - i.FromOSInternal(o).osMilliseconds == (vuint64_t)n); } FIN
DRV drv_local_now() { { IDateTimeImpl& i = os(); vuint64_t o = i.LocalTime(); DateTime d = i.FromOSInternal(o); RESULT(v_clocks() == 1); shows(d, v_now(0), true, v_usec(0) / 1000); } FIN
DRV drv_utc_now() { { IDateTimeImpl& i = os(); vuint64_t o = i.UtcTime(); DateTime d = i.FromOSInternal(o); RESULT(v_clocks() == 1); shows(d, v_now(0), false, v_usec(0) / 1000); } FIN
DRV drv_to_utc() { { IDateTimeImpl& i = os(); vi a = secs(1), x = msec(2); v_assume(a > 200000); vuint64_t o = (vuint64_t)a * 1000 + x; DateTime d = i.FromOSInternal(i.LocalToUtcTime(o)); shows(d, a, false, x); DateTime b = i.FromOSInternal(i.UtcToLocalTime(d.osInternal)); RESULT(b.osInternal == o); shows(b, a, true, x); } FIN
// the public type forwards to the installed implementation, or to the system when none is installed
struct Fake : IDateTimeImpl
{
	int n = 0; vi arg = 0, arg2 = 0; vi f[7];
	DateTime mk(vi k) { DateTime d; d.osInternal = k; return d; }
	DateTime FromDateTime(vint a, vint b, vint c, vint d, vint e, vint g, vint h) override { n++; f[0] = a; f[1] = b; f[2] = c; f[3] = d; f[4] = e; f[5] = g; f[6] = h; return mk(v_int(50)); }
	DateTime FromOSInternal(vuint64_t o) override { return mk((vi)o + v_int(51)); }
	vuint64_t LocalTime() override { n++; return v_int(52); }
	vuint64_t UtcTime() override { n++; return v_int(53); }
	vuint64_t LocalToUtcTime(vuint64_t o) override { n++; arg = o; return v_int(54); }
	vuint64_t UtcToLocalTime(vuint64_t o) override { n++; arg = o; return v_int(55); }
	vuint64_t Forward(vuint64_t o, vuint64_t m) override { n++; arg = o; arg2 = m; return v_int(56); }
	vuint64_t Backward(vuint64_t o, vuint64_t m) override { n++; arg = o; arg2 = m; return v_int(57); }
};
DRV drv_inject() { { Fake k; InjectDateTimeImpl(&k); vi q = v_int(51), o = v_int(1), m = v_int(2); DateTime d; d.osInternal = o; 
	RESULT((vi)DateTime::LocalTime().osInternal == v_int(52) + q); RESULT((vi)DateTime::UtcTime().osInternal == v_int(53) + q); RESULT(k.n == 2);
	RESULT((vi)DateTime::FromOSInternal(o).osInternal == o + q); RESULT((vi)d.ToUtcTime().osInternal == v_int(54) + q); RESULT(k.arg == o); RESULT((vi)d.ToLocalTime().osInternal == v_int(55) + q); RESULT(k.arg == o);
	RESULT((vi)d.Forward(m).osInternal == v_int(56) + q); RESULT(k.arg == o); RESULT(k.arg2 == m); RESULT((vi)d.Backward(m).osInternal == v_int(57) + q); RESULT(k.arg == o); RESULT(k.arg2 == m); RESULT(k.n == 6); RESULT((vi)d.osInternal == o);
	RESULT((vi)DateTime::FromDateTime(v_int(3), v_int(4), v_int(5), v_int(6), v_int(7), v_int(8), v_int(9)).osInternal == v_int(50)); for (int i = 0; i < 7; i++) RESULT(k.f[i] == v_int(3 + i));
	RESULT((vi)DateTime::FromDateTime(v_int(3), v_int(4), v_int(5)).osInternal == v_int(50)); for (int i = 3; i < 7; i++) RESULT(k.f[i] == 0); } FIN
DRV drv_empty() { { DateTime d; RESULT(d.year == 0 && d.month == 0 && d.day == 0 && d.hour == 0 && d.minute == 0 && d.second == 0 && d.milliseconds == 0 && d.dayOfWeek == 0 && d.osMilliseconds == 0 && d.osInternal == 0); DateTime e; RESULT(d == e); } FIN
DRV drv_default() { { v_static_init(); RESULT(GetDateTimeImpl() == GetOSDateTimeImpl()); Fake k; InjectDateTimeImpl(&k); RESULT(GetDateTimeImpl() == &k); InjectDateTimeImpl(nullptr); RESULT(GetDateTimeImpl() == GetOSDateTimeImpl()); } FIN
