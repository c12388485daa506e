// Harness interface: symbolic engine (engine/sigsym.cpp) and native replay (engine/native_rt.cpp).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t vp_sym(int bits, const char* name);          // fresh unconstrained symbolic value
uint32_t vp_pick(uint32_t n, const char* name);       // fresh symbolic choice in [0,n), one path per feasible value
void vp_assume(bool c);
void vp_assert_at(bool c, const char* what);
void vp_cover(uint32_t id);                           // reachability witness; 255: progress of a long history
void vp_log(uint64_t v);                              // observation, compared with the native run
void vp_parallel(uint32_t n, void (*const* fn)(void*), void* const* arg);   // run n threads to completion
void vp_event(void);                                  // a visible no-op (extra scheduling point)
void vp_faults(bool on, int budget);                  // symbolic allocation failures on/off
bool vp_alloc_fault(void);
void* vp_malloc(size_t n);
void vp_free(void* p);
int64_t vp_live(void);                                // live heap blocks
bool vp_flag(const char* name);                       // symbolic boolean that stays symbolic
}
#define VP_STR2(x) #x
#define VP_STR(x) VP_STR2(x)
#define VP_ASSERT(c, msg) vp_assert_at((c), msg " [" VP_STR(__LINE__) "]")
inline int vp_int(const char* n) { return (int)(uint32_t)vp_sym(32, n); }
