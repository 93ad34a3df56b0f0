// Block allocator and byte map
#include "vdrv.h"
#include "Collections/List.h"
using namespace vl;
using namespace vl::collections;
#define DRV extern "C" void
#define RESULT(c) v_require((c), 2)
#define LEGAL(c) v_require((c), 1)
#define FIN v_final(); }
// every object handed out is alive, distinct, found again under its number, and stays where it is
template<typename T> static void create(vi block, int n)
{
	PushOnlyAllocator<T> a(block); T* p[8];
	LEGAL(a.Get(0) == nullptr);
	for (int i = 0; i < n; i++)
	{
		p[i] = a.Create(); RESULT(p[i] != nullptr);
		for (int j = 0; j < i; j++) RESULT(p[j] != p[i]);
		for (int j = 0; j <= i; j++) RESULT(a.Get(j) == p[j]);
		LEGAL(a.Get(i + 1) == nullptr); LEGAL(a.Get(i + block + 1) == nullptr);
	}
}
template<typename T> static void outside(vi block, int n) { PushOnlyAllocator<T> a(block); for (int i = 0; i < n; i++) a.Create(); vi k = v_int(1); v_assume(k < 0 || k >= n); LEGAL(a.Get(k) == nullptr); }
DRV drv_a_create() { create<E>(1 + v_choose(1, 4), 7); FIN
DRV drv_a_pod() { create<int>(1 + v_choose(1, 4), 7); FIN
DRV drv_a_none() { { PushOnlyAllocator<E> a; } FIN
DRV drv_a_default() { { PushOnlyAllocator<int> a; int* p = a.Create(); int* q = a.Create(); RESULT(q == p + 1 || p != q); RESULT(a.Get(0) == p); RESULT(a.Get(1) == q); LEGAL(a.Get(2) == nullptr); } FIN
DRV drv_a_outside() { outside<int>(1 + v_choose(1, 3), v_choose(2, 5)); FIN
DRV drv_a_keep() { { PushOnlyAllocator<int> a(2); int* p[6]; for (int i = 0; i < 6; i++) { p[i] = a.Create(); *p[i] = (int)v_ch(1 + i, 32); for (int j = 0; j <= i; j++) RESULT(*a.Get(j) == (int)v_ch(1 + j, 32)); } } FIN
// the map answers, for every byte, what was last stored under it
typedef ByteObjectMap<int> Map;
static int cell[4];
static vi near(vi a, int k) { return k == 8 ? a : (a / (1 << k) % 2 ? a - (1 << k) : a + (1 << k)); }
static void one(int hi)
{
	Map::Allocator al(3); Map m; vi a = hi * 32 + v_choose(1, 32);
	m.Set((vuint8_t)a, &cell[0], al);
	for (vi h = 0; h < 256; h += 32) for (vi c = h; c < h + 32; c++) RESULT(m.Get((vuint8_t)c) == (c == a ? &cell[0] : nullptr));
}
static void two(int hi)
{
	Map::Allocator al(3); Map m; vi a = hi * 32 + v_choose(1, 32); vi b = near(a, v_choose(2, 9));
	m.Set((vuint8_t)a, &cell[0], al); m.Set((vuint8_t)b, &cell[1], al);
	for (int k = 0; k < 9; k++) { vi c = near(a, k); RESULT(m.Get((vuint8_t)c) == (c == b ? &cell[1] : c == a ? &cell[0] : nullptr)); c = near(b, k); RESULT(m.Get((vuint8_t)c) == (c == b ? &cell[1] : c == a ? &cell[0] : nullptr)); }
	m.Set((vuint8_t)a, nullptr, al); RESULT(m.Get((vuint8_t)a) == nullptr); RESULT(m.Get((vuint8_t)b) == (a == b ? nullptr : &cell[1]));
}
#define M(K) DRV drv_m_one_##K() { one(K); FIN DRV drv_m_two_##K() { two(K); FIN
M(0) M(1) M(2) M(3) M(4) M(5) M(6) M(7)
DRV drv_m_empty() { { Map m; for (vi h = 0; h < 256; h += 32) for (vi c = h; c < h + 32; c++) LEGAL(m.Get((vuint8_t)c) == nullptr); } FIN
DRV drv_m_full() { { Map::Allocator al(7); Map m; for (vi h = 0; h < 256; h += 32) for (vi c = h; c < h + 32; c++) m.Set((vuint8_t)c, &cell[c % 4], al); for (vi h = 0; h < 256; h += 32) for (vi c = h; c < h + 32; c++) RESULT(m.Get((vuint8_t)c) == &cell[c % 4]); } FIN
