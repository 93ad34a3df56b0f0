// Unit test runner: every history of passing and failing cases, categories and files
#include "vdrv.h"
#include "Basic.cpp"
#include "Exception.cpp"
#include "UnitTest/UnitTest.h"
#include "UnitTest/UnitTest.cpp"
#include "UnitTest/UnitTest.Linux.cpp"
template class vl::ObjectString<wchar_t>;
template class vl::ObjectString<char>;
using namespace vl;
using namespace vl::unittest;
#define DRV extern "C" void
#define RESULT(c) v_require((c), 2)
// what the console and the number printer get
static int lines = 0, errors = 0; static bool red = false; static vi nums[8]; static int numc = 0;
namespace vl
{
	WString itow(vint n) { nums[numc++] = n; return WString::Unmanaged(L"#"); }
	WString atow(const AString& s) { wchar_t b[32]; vint n = s.Length(); for (vint i = 0; i < n; i++) b[i] = s[i]; return WString::CopyFrom(b, n); }
	AString wtoa(const WString& s) { char b[32]; vint n = s.Length(); for (vint i = 0; i < n; i++) b[i] = (char)s[i]; return AString::CopyFrom(b, n); }
	namespace console
	{
		void Console::WriteLine(const WString&) { lines++; if (red) errors++; }
		void Console::SetColor(bool r, bool g, bool b, bool l) { red = r && !g && !b; }
	}
}
// expectation
static int ranF[3], total = 0, passed = 0, bad = 0; static bool fileBad = false;
static int at = 10;
// the body of a case; returns whether it must fail.  The choice is arbitrary.
#define BODIES 17
static bool fails(int k) { return !(k == 0 || k == 1 || k == 6 || k == 9 || k == 13 || k == 16); }
static void body(int k)
{
	switch (k)
	{
	case 0: break;
	case 1: TEST_ASSERT(v_bool(1) || true); break;
	case 2: TEST_ASSERT(k != 2); break;
	case 3: throw Error(L"e");
	case 4: throw Exception(WString::Unmanaged(L"x"));
	case 5: throw 5;
	case 6: TEST_ERROR({ throw Error(L"e"); }); break;
	case 7: TEST_ERROR({ }); break;
	case 8: TEST_ERROR({ throw 5; }); break;
	case 9: TEST_EXCEPTION({ throw Exception(WString::Unmanaged(L"x")); }, Exception, [](const Exception& e) { RESULT(e.Message().Length() == 1); }); break;
	case 10: TEST_EXCEPTION({ }, Exception, [](const Exception&) { RESULT(false); }); break;
	case 11: TEST_EXCEPTION({ throw Error(L"e"); }, Exception, [](const Exception&) { RESULT(false); }); break;
	case 12: TEST_CASE(WString::Unmanaged(L"in")) { RESULT(false); }); break;
	case 13: TEST_ERROR({ throw Error(L"e"); }); TEST_PRINT(WString::Unmanaged(L"p")); break;
	case 15: TEST_EXCEPTION({ throw Exception(WString::Unmanaged(L"x")); }, Exception, [](const Exception& e) { TEST_ASSERT(e.Message().Length() == 2); }); break;
	case 16: TEST_EXCEPTION({ throw ArgumentException(WString::Unmanaged(L"x")); }, Exception, [](const Exception&) {}); break;
	case 14: TEST_ERROR({ TEST_ASSERT(k != 14); }); break;
	}
}
static void acase(int k)
{
	bool after = false; total++;
	TEST_CASE(WString::Unmanaged(L"c")) { body(k); after = true; });
	if (fails(k)) { bad++; fileBad = true; } else { passed++; RESULT(after); }
	RESULT(errors == bad);
}
// what is legal only elsewhere, and failures outside of cases
static void direct(int k) { bad++; fileBad = true; switch (k) { case 0: TEST_ASSERT(k == 0); RESULT(false); break; case 1: throw Error(L"e"); case 2: throw Exception(WString::Unmanaged(L"x")); case 3: throw 5; case 4: TEST_ERROR({ throw Error(L"e"); }); RESULT(false); break; } }
static int run(int argc, const char* a, const char* b) { static char p[] = "prog"; char* v[3] = { p, (char*)a, (char*)b }; return UnitTest::RunAndDisposeTests(argc, v); }
static void report(int r, int files, int good)
{
	RESULT((r == 0) == (files == good)); RESULT(r == 0 || r == 1);
	RESULT(numc == 4); RESULT(nums[0] == good); RESULT(nums[1] == files); RESULT(nums[2] == passed); RESULT(nums[3] == total);
	v_final();
}
// one case in a file
static void one() { ranF[0]++; acase(v_choose(1, BODIES)); acase(0); }
DRV drv_one() { v_static_init(); UnitTestFile f("/a.cpp", &one); int r = run(1, 0, 0); RESULT(ranF[0] == 1); report(r, 1, fileBad ? 0 : 1); }
DRV drv_wide() { v_static_init(); UnitTestFile f("/a.cpp", &one); static wchar_t p[] = L"prog"; static wchar_t o[] = L"/R"; wchar_t* v[2] = { p, o }; int r = UnitTest::RunAndDisposeTests(v_choose(9, 2) + 1, v); RESULT(ranF[0] == 1); report(r, 1, fileBad ? 0 : 1); }
// nested categories; a failure inside marks the file, later ones still run
static void nest(int d)
{
	int k = v_choose(at++, 6);
	bool before = fileBad; fileBad = false; int reached = 0;
	TEST_CATEGORY(WString::Unmanaged(L"g")) { acase(v_bool(at++) ? 2 : 0); reached = 1; if (d) nest(d - 1); if (k < 5) direct(k); reached = 2; });
	RESULT(reached == (k < 5 ? 1 : 2)); RESULT(errors == bad); fileBad |= before;
}
static void nested0() { ranF[0]++; nest(0); acase(0); nest(0); }
static void nested1() { ranF[0]++; nest(1); acase(2); }
DRV drv_nested() { v_static_init(); UnitTestFile f("/a.cpp", &nested0); int r = run(2, "/R", 0); RESULT(ranF[0] == 1); report(r, 1, fileBad ? 0 : 1); }
DRV drv_nested2() { v_static_init(); UnitTestFile f("/a.cpp", &nested1); int r = run(2, "/R", 0); RESULT(ranF[0] == 1); report(r, 1, fileBad ? 0 : 1); }
static void fdirect() { ranF[0]++; acase(v_choose(1, 3)); int k = v_choose(2, 6); if (k < 5) direct(k); ranF[2]++; }
// several files: one failing does not stop or spoil the others
static bool fb[3];
static void g1() { ranF[0]++; fileBad = false; acase(v_bool(1) ? 4 : 0); fb[0] = fileBad; if (v_bool(51)) { bad++; fb[0] = true; throw 1; } }
static void g2() { ranF[1]++; RESULT(ranF[0] == 1); fileBad = false; acase(v_bool(2) ? 5 : 0); fb[1] = fileBad; if (v_bool(52)) { bad++; fb[1] = true; throw Error(L"e"); } }
static void g3() { ranF[2]++; RESULT(ranF[1] == 1); fileBad = false; acase(v_bool(3) ? 2 : 0); fb[2] = fileBad; }
DRV drv_files() { v_static_init(); UnitTestFile a("/a.cpp", &g1), b("/b.cpp", &g2), c("/c.cpp", &g3); int r = run(1, 0, 0); RESULT(ranF[0] == 1 && ranF[1] == 1 && ranF[2] == 1); RESULT(errors == bad + (r ? 2 : 0)); report(r, 3, (fb[0] ? 0 : 1) + (fb[1] ? 0 : 1) + (fb[2] ? 0 : 1)); }
DRV drv_direct() { v_static_init(); UnitTestFile f("/a.cpp", &fdirect); int r = run(1, 0, 0); RESULT(ranF[0] == 1); RESULT(ranF[2] == (bad == 0 || (bad == 1 && fails(v_choose(1, 3)) && v_choose(2, 6) == 5) ? 1 : 0)); report(r, 1, fileBad ? 0 : 1); }
DRV drv_no_files() { v_static_init(); int r = run(1, 0, 0); report(r, 0, 0); }
// the selection of files
static void s1() { ranF[0]++; acase(0); }
static void s2() { ranF[1]++; acase(2); }
static void s3() { ranF[2]++; acase(0); }
static const char* const sel[] = { "/F:a.cpp", "/F:d/a.cpp", "/F:/d/a.cpp", "/F:pp", "/F:b.cpp", "/F:/", "/F:a.cppx", "/F:/x/d/a.cpp", "/F:ba.cpp" };
static const int want[] = { 5, 1, 1, 0, 2, 0, 0, 0, 0 };   // s1: /d/a.cpp, s2: \b.cpp, s3: a.cpp
static void pick(int i, int j)
{
	v_static_init(); UnitTestFile a("/d/a.cpp", &s1), b("\\b.cpp", &s2), c("a.cpp", &s3);
	int w = want[i] | (j >= 0 ? want[j] : 0);
	int r = run(j >= 0 ? 3 : 2, sel[i], j >= 0 ? sel[j] : 0);
	for (int k = 0; k < 3; k++) RESULT(ranF[k] == ((w >> k) & 1));
	int files = (w & 1) + ((w >> 1) & 1) + ((w >> 2) & 1); report(r, files, files - ((w >> 1) & 1));
}
DRV drv_select() { pick(v_choose(1, 9), -1); }
DRV drv_select2() { pick(v_choose(1, 9), 4); }
// options that are not understood run nothing and report failure
static const char* const wrong[] = { "/X", "", "/F", "/F:", "/d", "/DR", "x/D", "/R " };
DRV drv_usage() { v_static_init(); UnitTestFile a("/d/a.cpp", &s1); int k = v_choose(1, 10); int r = k == 8 ? run(3, "/D", "/R") : k == 9 ? run(3, "/R", "/D") : v_bool(2) ? run(2, wrong[k], 0) : v_bool(3) ? run(3, wrong[k], "/R") : run(3, "/F:a.cpp", wrong[k]); RESULT(r == 1); RESULT(ranF[0] == 0); v_final(); }
static const char* const three[] = { "/D", "/R", "/F:/d/a.cpp" };
DRV drv_usage3() { v_static_init(); UnitTestFile a("/d/a.cpp", &s1); int k = v_choose(1, 3), l = v_choose(2, 3); v_assume(k != l); static char p[] = "prog"; char* v[4] = { p, (char*)three[k], (char*)three[l], (char*)three[3 - k - l] }; int r = UnitTest::RunAndDisposeTests(4, v); RESULT(r == 1); RESULT(ranF[0] == 0); v_ok(3); }
// one option together with a selection
DRV drv_option_select() { v_static_init(); UnitTestFile a("/d/a.cpp", &s1), b("/b.cpp", &s2); bool d = v_bool(1); int k = v_choose(2, 2); const char* f = k ? "/F:a.cpp" : "/F:/d/a.cpp"; int r = v_bool(3) ? run(3, d ? "/D" : "/R", f) : run(3, f, d ? "/D" : "/R"); RESULT(ranF[0] == 1 && ranF[1] == 0); report(r, 1, 1); }
// not suppressed: the failure reaches the caller
static void deb() { ranF[0]++; acase(0); acase(2); RESULT(false); }
DRV drv_debug() { v_static_init(); UnitTestFile a("/d/a.cpp", &deb); bool err = false; try { run(2, "/D", 0); } catch (const UnitTestAssertError&) { err = true; } RESULT(err); v_ok(3); }
static void debok() { ranF[0]++; acase(0); acase(1); }
DRV drv_debug_pass() { v_static_init(); UnitTestFile a("/d/a.cpp", &debok); int r = run(2, "/D", 0); RESULT(ranF[0] == 1); report(r, 1, 1); }
// outside of a run
DRV drv_outside() { v_static_init(); bool e1 = false, e2 = false, e3 = false, e4 = false; try { TEST_ASSERT(true); } catch (const UnitTestConfigError&) { e1 = true; } try { TEST_CASE(WString::Unmanaged(L"c")) { RESULT(false); }); } catch (const UnitTestConfigError&) { e2 = true; } try { TEST_PRINT(WString::Unmanaged(L"c")); } catch (const UnitTestConfigError&) { e3 = true; } try { TEST_ERROR({ throw Error(L"e"); }); } catch (const UnitTestConfigError&) { e4 = true; } RESULT(e1); RESULT(e2); RESULT(e3); RESULT(e4); v_final(); }
