// Filler text, from program start
#include "vdrv.h"
#include "Strings/String.cpp"
#include "Strings/LoremIpsum.cpp"
using namespace vl;
#define DRV extern "C" void
#define RESULT(c) v_require((c), 2)
#define FIN v_final(); }
// from..to of a text: words of letters (one of them ends with a semicolon), single spaces between; which words are capitalised
static int words(const WString& s, int from, int to, LoremIpsumCasing casing)
{
	int n = 0; bool first = true, semi = false; const wchar_t* b = s.Buffer();
	for (int j = from; j < to; j += 64) for (int i = j; i < to && i < j + 64; i++)
	{
		wchar_t c = b[i];
		if (c == L' ') { RESULT(!first); RESULT(i + 1 < to); first = true; semi = false; continue; }
		RESULT(!semi);
		if (first) { n++; if (casing == LoremIpsumCasing::AllWordsUpperCase || (casing == LoremIpsumCasing::FirstWordUpperCase && n == 1)) RESULT(c >= L'A' && c <= L'Z'); else RESULT(c >= L'a' && c <= L'z'); first = false; }
		else if (c == L';') semi = true;
		else RESULT(c >= L'a' && c <= L'z');
	}
	return n;
}
static int text(const WString& s, int best, LoremIpsumCasing casing)
{
	if (best <= 0) { RESULT(s.Length() == 0); return 0; }
	int len = (int)s.Length(); int n = words(s, 0, len, casing); RESULT(n >= 1); RESULT(len - best <= 12); if (n > 1) { RESULT(len - best <= 7); } RESULT(best - len <= 7);
	return n;
}
template<int N> static void around(LoremIpsumCasing c) { int n = 0; for (int i = 0; i < 99 && n < 380; i++) for (int j = 0; j < 5 && n < 380; j++) n += text(LoremIpsum(N, c), N, c); RESULT(n >= 380); }
#define A(N) DRV drv_low_##N() { around<N>(LoremIpsumCasing::AllWordsLowerCase); FIN DRV drv_first_##N() { around<N>(LoremIpsumCasing::FirstWordUpperCase); FIN DRV drv_all_##N() { around<N>(LoremIpsumCasing::AllWordsUpperCase); FIN
A(1) A(2) A(3) A(4) A(5) A(6) A(7) A(8) A(9) A(10) A(11) A(12) A(13) A(14) A(15) A(16) A(17) A(18) A(19) A(20) A(23) A(26) A(31) A(40) A(57) A(100)
DRV drv_long() { { WString s = LoremIpsum(500, LoremIpsumCasing::AllWordsLowerCase); text(s, 500, LoremIpsumCasing::AllWordsLowerCase); } FIN
DRV drv_none() { { int k = v_choose(1, 3); vi z = v_int(5); v_assume(z <= 0); RESULT(LoremIpsum(z, (LoremIpsumCasing)k).Length() == 0); RESULT(LoremIpsumTitle(z).Length() == 0); WString t = LoremIpsumSentence(z); RESULT(t.Length() == 1 && t[0] == L'.'); RESULT(LoremIpsumParagraph(z).Length() == 0); } FIN
DRV drv_title() { for (int n = 1; n < 40; n++) text(LoremIpsumTitle(n), n, LoremIpsumCasing::AllWordsUpperCase); FIN
DRV drv_sentence() { for (int n = 1; n < 40; n++) { WString s = LoremIpsumSentence(n); RESULT(s.Length() >= 1 && s[s.Length() - 1] == L'.'); text(s.Left(s.Length() - 1), n, LoremIpsumCasing::FirstWordUpperCase); } FIN
// paragraphs, whatever numbers are drawn
static void paragraph(int best)
{
	WString s = LoremIpsumParagraph(best); int len = (int)s.Length(); RESULT(len > 0);
	const wchar_t* b = s.Buffer(); int from = 0; LoremIpsumCasing c = LoremIpsumCasing::FirstWordUpperCase;
	while (from < len)
	{
		int to = from; for (int k = 0; k < 20 && to < len && b[to] != L'.' && b[to] != L','; k++) for (int i = 0; i < 20 && to < len && b[to] != L'.' && b[to] != L','; i++) to++;
		RESULT(to < len); if (to < len) { words(s, from, to, c); c = b[to] == L'.' ? LoremIpsumCasing::FirstWordUpperCase : LoremIpsumCasing::AllWordsLowerCase;
		if (to + 1 < len) { RESULT(b[to + 1] == L' ' && to + 2 < len); } }
		from = to + 2;
	}
	RESULT(b[len - 1] == L'.'); RESULT(len - best <= 15); RESULT(best - len <= 15);
}
#define Q(N) DRV drv_par_##N() { paragraph(N); FIN
Q(1) Q(2) Q(7) Q(19) Q(20) Q(21) Q(22) Q(26) Q(30) Q(37) Q(45)
#ifdef DEEP
Q(61) Q(80)
#endif
