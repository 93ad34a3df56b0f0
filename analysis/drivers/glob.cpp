// GlobalStorage
#include "vdrv.h"
#include "GlobalStorage.cpp"
using namespace vl;
#define DRV extern "C" void
#define RESULT(c) v_require((c), 2)
static int ini[4], fin[4], nest;
#define STORE(N, K, BODY, FBODY) BEGIN_GLOBAL_STORAGE_CLASS(N) vi value = 0; E* res = nullptr; INITIALIZE_GLOBAL_STORAGE_CLASS ini[K]++; value = K + 1; res = new E(); RESULT(IsInitialized()); BODY; FINALIZE_GLOBAL_STORAGE_CLASS fin[K]++; value = 0; delete res; res = nullptr; FBODY; END_GLOBAL_STORAGE_CLASS(N)
STORE(SA, 0, , )
STORE(SB, 1, , )
STORE(SC, 2, , )
static int want_ini[3], live[3], reg[3];
static void expect()
{
	for (int k = 0; k < 3; k++) { RESULT(ini[k] == want_ini[k]); RESULT(fin[k] == want_ini[k] - live[k]); }
}
template<typename S> static void use(S& s, int k) { if (!live[k]) { want_ini[k]++; live[k] = 1; } reg[k] = 1; RESULT(s.value == k + 1); RESULT(s.IsInitialized()); v_val(s.res, sizeof(E), -1); expect(); }
template<typename S> static void drop(S& s, int k) { use(s, k); s.EnsureFinalized(); live[k] = 0; RESULT(!s.IsInitialized()); RESULT(s.value == 0); expect(); }
static void step(int op)
{
	switch (op)
	{
	case 0: use(GetSA(), 0); break;
	case 1: use(GetSB(), 1); break;
	case 2: use(GetSC(), 2); break;
	case 3: FinalizeGlobalStorage(); live[0] = live[1] = live[2] = 0; expect(); break;
	case 4: drop(GetSA(), 0); break;
	case 5: drop(GetSB(), 1); break;
	}
}
static void close() { FinalizeGlobalStorage(); live[0] = live[1] = live[2] = 0; expect(); v_final(); }
DRV drv_none() { FinalizeGlobalStorage(); expect(); v_final(); }
DRV drv_one() { step(v_choose(1, 6)); close(); }
#define H3(A) DRV drv_three_##A() { step(A); step(v_choose(1, 6)); step(v_choose(2, 6)); step(v_choose(3, 6)); close(); }
H3(0) H3(1) H3(2) H3(3)
#ifdef DEEP
#define H5(A,B) DRV drv_five_##A##B() { step(A); step(B); step(v_choose(1, 6)); step(v_choose(2, 6)); step(v_choose(3, 6)); step(v_choose(4, 6)); close(); }
H5(0,0) H5(0,1) H5(0,2) H5(0,3) H5(1,0) H5(1,1) H5(1,2) H5(1,3) H5(2,0) H5(2,1) H5(2,2) H5(2,3) H5(3,0) H5(3,1) H5(3,2) H5(3,3)
#endif
// a storage used while its own resource is being created, and a storage that uses another one
STORE(SX, 3, { nest++; RESULT(nest == 1); RESULT(this->IsInitialized()); this->EnsureInitialized(); nest--; }, { RESULT(!this->IsInitialized()); this->EnsureFinalized(); })
DRV drv_reentrant() { SX& s = GetSX(); RESULT(s.value == 4); RESULT(ini[3] == 1); GetSX(); RESULT(ini[3] == 1); FinalizeGlobalStorage(); RESULT(fin[3] == 1); FinalizeGlobalStorage(); RESULT(fin[3] == 1); GetSX(); RESULT(ini[3] == 2); s.EnsureFinalized(); RESULT(fin[3] == 2); v_final(); }
// leaving scope finalises what is still initialised, exactly once
DRV drv_scope() { int n; { SX s; RESULT(!s.IsInitialized()); RESULT(ini[3] == 0); if (v_bool(1)) s.EnsureInitialized(); if (v_bool(2)) s.EnsureInitialized(); if (v_bool(3)) s.EnsureFinalized(); n = ini[3]; RESULT(n <= 1); } RESULT(fin[3] == n); v_final(); }
