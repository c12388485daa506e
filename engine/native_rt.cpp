// Native side of vp.h: replays solver models against the real compiled code.
//   prog CASES ENTRY      every case of the file is run in a forked child (ENTRY: name of the harness function)
//   prog CASES ENTRY x    the first case is run in this process
// A case is: "case", then lines "in NAME VALUE", "log VALUE", "sched T T T ...", "end".
// With -DVP_SCHED the harness was instrumented by LLVM's tsan pass and this file is the (own) tsan runtime: it
// enforces the recorded schedule at every atomic and lock operation and checks races, freed memory and deadlock.
#include "vp.h"
#include <atomic>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <map>
#include <new>
#include <string>
#include <unordered_map>
#include <vector>
#include <dlfcn.h>
#include <pthread.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
static void (*vpEntry)();

namespace {
enum { EX_OK = 0, EX_ASSERT = 40, EX_LOG = 41, EX_RACE = 42, EX_MEM = 43, EX_DEADLOCK = 44, EX_TERM = 45, EX_LOCK = 46, EX_INPUT = 47, EX_ASSUME = 48, EX_SCHED = 49 };
[[noreturn]] void die(int code, const char* fmt, ...) { va_list a; va_start(a, fmt); char b[1000]; vsnprintf(b, sizeof b, fmt, a); va_end(a); fprintf(stdout, "NATIVE %d %s\n", code, b); fflush(stdout); _exit(code); }
template <class T> struct MA { // allocator that bypasses the counted operator new
  typedef T value_type; MA() {} template <class U> MA(const MA<U>&) {}
  T* allocate(size_t n) { return (T*)malloc(n * sizeof(T)); } void deallocate(T* p, size_t) { free(p); }
  template <class U> bool operator==(const MA<U>&) const { return true; } template <class U> bool operator!=(const MA<U>&) const { return false; }
};
template <class T> using V = std::vector<T, MA<T>>;
struct In { char name[40]; unsigned long long v; bool used; };
V<In>* ins; V<unsigned long long>* expect; V<unsigned long long>* got; V<int>* sched;
long live = 0; bool faultsOn = false; int faultsLeft = 0; bool active = false;
bool lookup(const char* n, unsigned long long& v) { for (auto& i : *ins) if (!i.used && !strcmp(i.name, n)) { i.used = true; v = i.v; return true; } return false; }
unsigned long long input(const char* n) { unsigned long long v = 0; if (!lookup(n, v)) die(EX_INPUT, "no recorded input %s", n); return v; }
bool fault() { if (!active || !faultsOn || faultsLeft <= 0) return false; unsigned long long v = 0; if (!lookup("allocfault", v)) return false; if (v) --faultsLeft; return v != 0; }
}
#ifdef VP_SCHED
#define NOI __attribute__((no_sanitize("thread")))
namespace {
const int NT = 6;
struct Blk { size_t n; bool freed; };
std::map<uintptr_t, Blk, std::less<uintptr_t>, MA<std::pair<const uintptr_t, Blk>>>* blks;
struct Sh { unsigned nwc = 0; int nwt = 0; unsigned nr[NT] = {0}, aw[NT] = {0}, ar[NT] = {0}; };
std::unordered_map<uintptr_t, Sh, std::hash<uintptr_t>, std::equal_to<uintptr_t>, MA<std::pair<const uintptr_t, Sh>>>* shm;
struct VCk { unsigned c[NT] = {0}; void join(const VCk& o) { for (int i = 0; i < NT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct RelE { VCk vc; unsigned len = 0; };
std::map<uintptr_t, RelE, std::less<uintptr_t>, MA<std::pair<const uintptr_t, RelE>>>* rel;
struct Mx { int owner = -1; int cnt = 0; int rd[NT] = {0}; VCk vc; };
std::map<uintptr_t, Mx, std::less<uintptr_t>, MA<std::pair<const uintptr_t, Mx>>>* mxs;
VCk vc[NT], acq[NT], relf[NT];
bool par = false; int nth = 0; thread_local int me = 0; thread_local bool inRt = false;
pthread_mutex_t big = PTHREAD_MUTEX_INITIALIZER; pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
int turn = 0;           // thread that may run (0: controller)
size_t spos = 0;
struct W { bool parked = false, done = false; int kind = 0; uintptr_t addr = 0; } wk[NT];   // kind: 0 free, 1 lock, 2 rdlock, 3 wrlock
int (*real_lock)(pthread_mutex_t*); int (*real_unlock)(pthread_mutex_t*); int (*real_try)(pthread_mutex_t*); int (*real_csig)(pthread_cond_t*); int (*real_cbc)(pthread_cond_t*); int (*real_cwait)(pthread_cond_t*, pthread_mutex_t*);
void initReal() { if (!real_lock) { real_csig = (decltype(real_csig))dlvsym(RTLD_NEXT, "pthread_cond_signal", "GLIBC_2.3.2"); real_cbc = (decltype(real_cbc))dlvsym(RTLD_NEXT, "pthread_cond_broadcast", "GLIBC_2.3.2"); real_cwait = (decltype(real_cwait))dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2"); real_lock = (decltype(real_lock))dlsym(RTLD_NEXT, "pthread_mutex_lock"); real_unlock = (decltype(real_unlock))dlsym(RTLD_NEXT, "pthread_mutex_unlock"); real_try = (decltype(real_try))dlsym(RTLD_NEXT, "pthread_mutex_trylock"); } }
bool en(int t) {
  W& w = wk[t]; if (w.done || !w.parked) return false; if (!w.kind) return true; auto it = mxs->find(w.addr); if (it == mxs->end()) return true; Mx& m = it->second;
  if (m.owner >= 0 && m.owner != t) return false; if (w.kind == 3) for (int i = 0; i < NT; ++i) if (i != t && m.rd[i]) return false; return true;
}
// called by a worker at a visible operation: give the turn back and wait until it is granted again
void visible(int kind, uintptr_t a) {
  if (!par || me == 0 || inRt) return;
  real_lock(&big); wk[me].parked = true; wk[me].kind = kind; wk[me].addr = a; turn = 0; real_cbc(&cv);
  while (turn != me) real_cwait(&cv, &big);
  wk[me].parked = false; real_unlock(&big);
}
void chkMem(uintptr_t a, size_t n, const char* what) {
  auto it = blks->upper_bound(a + n - 1); if (it == blks->begin()) return; --it;
  if (a >= it->first + it->second.n) { if (a < it->first + it->second.n + 32) die(EX_MEM, "%s past the end of a heap block", what); return; }
  if (it->second.freed) die(EX_MEM, "%s of freed memory", what);
  if (a < it->first || a + n > it->first + it->second.n) die(EX_MEM, "%s out of bounds of a heap block", what);
}
void acc(uintptr_t a, size_t n, bool wr, bool atomic) {
  if (!active || inRt || !n) return;
  inRt = true; chkMem(a, n, wr ? "write" : "read");
  if (par && me) {
    for (uintptr_t p = a; p < a + n; ++p) {
      Sh& h = (*shm)[p]; int bad = -1;
      if (h.nwt != me && h.nwc > vc[me].c[h.nwt]) bad = h.nwt;
      if (!atomic) for (int u = 0; u < NT; ++u) if (u != me && (h.aw[u] > vc[me].c[u] || (wr && h.ar[u] > vc[me].c[u]))) bad = u;
      if (wr) for (int u = 0; u < NT; ++u) if (u != me && h.nr[u] > vc[me].c[u]) bad = u;
      if (bad >= 0) die(EX_RACE, "data race between threads %d and %d", me, bad);
      if (atomic) { if (wr) h.aw[me] = vc[me].c[me]; h.ar[me] = vc[me].c[me]; } else if (wr) { h.nwt = me; h.nwc = vc[me].c[me]; } else h.nr[me] = vc[me].c[me];
    }
  }
  inRt = false;
}
bool isAcq(int o) { return o == 1 || o == 2 || o == 4 || o == 5; } bool isRel(int o) { return o == 3 || o == 4 || o == 5; }
void hbLoad(uintptr_t a, unsigned n, int o) { if (!par || !me) return; inRt = true; for (auto& q : *rel) if (q.first < a + n && q.first + q.second.len > a) (isAcq(o) ? vc[me] : acq[me]).join(q.second.vc); inRt = false; }
void hbStore(uintptr_t a, unsigned n, int o, bool rmw) { if (!par || !me) return; inRt = true; RelE& r = (*rel)[a]; if (n > r.len) r.len = n; if (!rmw) r.vc = VCk(); if (isRel(o)) { r.vc.join(vc[me]); ++vc[me].c[me]; } else r.vc.join(relf[me]); inRt = false; }
}
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { acc((uintptr_t)p, n, false, false); } void __tsan_write##n(void* p) { acc((uintptr_t)p, n, true, false); } void __tsan_unaligned_read##n(void* p) { acc((uintptr_t)p, n, false, false); } void __tsan_unaligned_write##n(void* p) { acc((uintptr_t)p, n, true, false); } \
  void __tsan_read_write##n(void* p) { acc((uintptr_t)p, n, false, false); acc((uintptr_t)p, n, true, false); } void __tsan_unaligned_read_write##n(void* p) { acc((uintptr_t)p, n, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { acc((uintptr_t)p, n, false, false); } void __tsan_write_range(void* p, size_t n) { acc((uintptr_t)p, n, true, false); }
void __tsan_vptr_read(void** p) { acc((uintptr_t)p, 8, false, false); } void __tsan_vptr_update(void** p, void*) { acc((uintptr_t)p, 8, true, false); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { acc((uintptr_t)s, n, false, false); acc((uintptr_t)d, n, true, false); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { acc((uintptr_t)s, n, false, false); acc((uintptr_t)d, n, true, false); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { acc((uintptr_t)d, n, true, false); return memset(d, c, n); }
#define AT(B, T) \
T __tsan_atomic##B##_load(const volatile T* p, int o) { visible(0, 0); acc((uintptr_t)p, sizeof(T), false, true); hbLoad((uintptr_t)p, sizeof(T), o); return __atomic_load_n(p, 5); } \
void __tsan_atomic##B##_store(volatile T* p, T v, int o) { visible(0, 0); acc((uintptr_t)p, sizeof(T), true, true); hbStore((uintptr_t)p, sizeof(T), o, false); __atomic_store_n(p, v, 5); } \
T __tsan_atomic##B##_exchange(volatile T* p, T v, int o) { visible(0, 0); acc((uintptr_t)p, sizeof(T), true, true); hbLoad((uintptr_t)p, sizeof(T), o); hbStore((uintptr_t)p, sizeof(T), o, true); return __atomic_exchange_n(p, v, 5); } \
T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int o) { visible(0, 0); acc((uintptr_t)p, sizeof(T), true, true); hbLoad((uintptr_t)p, sizeof(T), o); hbStore((uintptr_t)p, sizeof(T), o, true); return __atomic_fetch_add(p, v, 5); } \
T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int o) { visible(0, 0); acc((uintptr_t)p, sizeof(T), true, true); hbLoad((uintptr_t)p, sizeof(T), o); hbStore((uintptr_t)p, sizeof(T), o, true); return __atomic_fetch_sub(p, v, 5); } \
T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int o) { visible(0, 0); acc((uintptr_t)p, sizeof(T), true, true); hbLoad((uintptr_t)p, sizeof(T), o); hbStore((uintptr_t)p, sizeof(T), o, true); return __atomic_fetch_and(p, v, 5); } \
T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int o) { visible(0, 0); acc((uintptr_t)p, sizeof(T), true, true); hbLoad((uintptr_t)p, sizeof(T), o); hbStore((uintptr_t)p, sizeof(T), o, true); return __atomic_fetch_or(p, v, 5); } \
T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int o) { visible(0, 0); acc((uintptr_t)p, sizeof(T), true, true); hbLoad((uintptr_t)p, sizeof(T), o); hbStore((uintptr_t)p, sizeof(T), o, true); return __atomic_fetch_xor(p, v, 5); } \
T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T c, T v, int o, int fo) { visible(0, 0); T old = __atomic_load_n(p, 5); bool eq = old == c; acc((uintptr_t)p, sizeof(T), eq, true); hbLoad((uintptr_t)p, sizeof(T), eq ? o : fo); if (eq) { hbStore((uintptr_t)p, sizeof(T), o, true); __atomic_store_n(p, v, 5); } return old; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int o) { if (!par || !me) return; if (isAcq(o)) vc[me].join(acq[me]); if (isRel(o)) { relf[me] = vc[me]; ++vc[me].c[me]; } }
void __tsan_atomic_signal_fence(int) {}
static int lockOp(void* p, int kind, bool tr) {   // kind 1 mutex, 2 rd, 3 wr
  uintptr_t a = (uintptr_t)p; visible(tr ? 0 : kind, a); inRt = true; chkMem(a, 40, "lock");
  bool rec = kind == 1 && *(int*)(a + 16) == 1; Mx& m = (*mxs)[a]; bool rdrs = false; for (int i = 0; i < NT; ++i) if (m.rd[i]) rdrs = true;
  bool busy = kind == 2 ? m.owner >= 0 : (m.owner >= 0 || rdrs); if (busy && m.owner == me && rec) busy = false;
  if (busy) { inRt = false; if (tr) return 16; die(EX_DEADLOCK, "a thread waits for a lock it holds itself"); }
  if (kind == 2) ++m.rd[me]; else { m.owner = me; ++m.cnt; }
  vc[me].join(m.vc); inRt = false; return 0;
}
static int unlockOp(void* p) {
  uintptr_t a = (uintptr_t)p; visible(0, 0); inRt = true; chkMem(a, 40, "unlock"); Mx& m = (*mxs)[a];
  if (m.owner == me) { if (--m.cnt == 0) m.owner = -1; } else if (m.rd[me]) --m.rd[me]; else die(EX_LOCK, "unlock of a mutex that is not held");
  if (par) { m.vc.join(vc[me]); ++vc[me].c[me]; } else m.vc = vc[me]; inRt = false; return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) { initReal(); if (!active || inRt) return real_lock(m); return lockOp(m, 1, false); }
int pthread_mutex_unlock(pthread_mutex_t* m) { initReal(); if (!active || inRt) return real_unlock(m); return unlockOp(m); }
int pthread_mutex_trylock(pthread_mutex_t* m) { initReal(); if (!active || inRt) return real_try(m); return lockOp(m, 1, true); }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { return lockOp(m, 2, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { return lockOp(m, 3, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return lockOp(m, 2, true); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return lockOp(m, 3, true); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { return unlockOp(m); }
int sched_yield() { if (active) visible(0, 0); return 0; }
// condition variables, as in rt.cpp: the first word counts notifications
static int condBump(pthread_cond_t* c) { visible(0, 0); acc((uintptr_t)c, 4, true, true); hbLoad((uintptr_t)c, 4, 5); hbStore((uintptr_t)c, 4, 5, true); __atomic_fetch_add((int*)c, 1, 5); return 0; }
static int condRead(pthread_cond_t* c) { visible(0, 0); acc((uintptr_t)c, 4, false, true); hbLoad((uintptr_t)c, 4, 5); return __atomic_load_n((int*)c, 5); }
int pthread_cond_signal(pthread_cond_t* c) { initReal(); if (!active || inRt) return real_csig(c); return condBump(c); }
int pthread_cond_broadcast(pthread_cond_t* c) { initReal(); if (!active || inRt) return real_cbc(c); return condBump(c); }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { initReal(); if (!active || inRt) return real_cwait(c, m); int v = condRead(c); unlockOp(m); while (condRead(c) == v) {} return lockOp(m, 1, false); }
}
struct Start { void (*f)(void*); void* a; int id; };
static void* worker(void* p) {
  Start s = *(Start*)p; me = s.id; inRt = true;
  real_lock(&big); while (turn != me) real_cwait(&cv, &big); real_unlock(&big);
  inRt = false; s.f(s.a); inRt = true;
  real_lock(&big); wk[me].done = true; turn = 0; real_cbc(&cv); real_unlock(&big);
  return nullptr;
}
extern "C" void vp_parallel(uint32_t n, void (*const* fn)(void*), void* const* arg) {
  initReal(); inRt = true; Start st[NT]; pthread_t th[NT]; nth = n; ++vc[0].c[0]; rel->clear();
  for (uint32_t i = 0; i < n; ++i) { wk[i + 1] = W(); vc[i + 1] = vc[0]; ++vc[i + 1].c[i + 1]; acq[i + 1] = relf[i + 1] = VCk(); st[i] = {fn[i], arg[i], (int)i + 1}; }
  par = true; turn = 0;
  for (uint32_t i = 0; i < n; ++i) pthread_create(&th[i], nullptr, worker, &st[i]);
  auto give = [&](int t) { real_lock(&big); turn = t; real_cbc(&cv); while (turn != 0) real_cwait(&cv, &big); real_unlock(&big); };
  for (uint32_t i = 1; i <= n; ++i) give(i);            // run every thread to its first visible operation
  for (;;) {
    bool alive = false; for (uint32_t i = 1; i <= n; ++i) if (!wk[i].done) alive = true;
    if (!alive) break;
    int t = 0;
    if (spos < sched->size()) { t = (*sched)[spos++]; if (t < 1 || t > (int)n || wk[t].done || !en(t)) die(EX_SCHED, "recorded schedule not followed at step %zu", spos); }
    else { for (uint32_t i = 1; i <= n && !t; ++i) if (en(i)) t = i; if (!t) die(EX_DEADLOCK, "every unfinished thread waits for a lock"); }
    give(t);
  }
  for (uint32_t i = 0; i < n; ++i) pthread_join(th[i], nullptr);
  for (uint32_t i = 1; i <= n; ++i) vc[0].join(vc[i]); ++vc[0].c[0]; par = false; inRt = false;
}
extern "C" void vp_event() { visible(0, 0); }
static void* rawNew(size_t n) {
  if (!active) return malloc(n ? n : 1);
  bool s = inRt; inRt = true; char* p = (char*)malloc(n + 64); memset(p, 0xA5, n + 64); uintptr_t a = (uintptr_t)p; (*blks)[a] = {n ? n : 1, false}; ++live; inRt = s; return p;
}
static void rawDel(void* p) {
  if (!p) return; if (!active) { return; }
  bool s = inRt; auto it = blks->find((uintptr_t)p); if (it == blks->end()) return;
  if (it->second.freed) die(EX_MEM, "double free");
  acc((uintptr_t)p, it->second.n, true, false); inRt = true; it->second.freed = true; --live; 
  for (auto& m : *mxs) if (m.first >= (uintptr_t)p && m.first < (uintptr_t)p + it->second.n && m.second.owner >= 0) die(EX_MEM, "a locked mutex was destroyed");
  inRt = s;
}
#else
extern "C" void vp_parallel(uint32_t n, void (*const* fn)(void*), void* const* arg) { for (uint32_t i = 0; i < n; ++i) fn[i](arg[i]); }
extern "C" void vp_event() {}
static void* rawNew(size_t n) { void* p = malloc(n ? n : 1); if (p) { if (active) memset(p, 0xA5, n); __atomic_add_fetch(&live, 1, 5); } return p; }
static void rawDel(void* p) { if (p) { __atomic_sub_fetch(&live, 1, 5); free(p); } }
#endif
static void* vnew(size_t n) { if (fault()) throw std::bad_alloc(); if (n > (1u << 23)) throw std::bad_alloc(); void* p = rawNew(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return vnew(n); }
void* operator new[](size_t n) { return vnew(n); }
void* operator new(size_t n, std::align_val_t) { return vnew(n); }
void* operator new[](size_t n, std::align_val_t) { return vnew(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { if (fault()) return nullptr; return rawNew(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { if (fault()) return nullptr; return rawNew(n); }
void operator delete(void* p) noexcept { rawDel(p); }
void operator delete[](void* p) noexcept { rawDel(p); }
void operator delete(void* p, size_t) noexcept { rawDel(p); }
void operator delete[](void* p, size_t) noexcept { rawDel(p); }
void operator delete(void* p, std::align_val_t) noexcept { rawDel(p); }
void operator delete[](void* p, std::align_val_t) noexcept { rawDel(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { rawDel(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { rawDel(p); }
extern "C" {
uint64_t vp_sym(int bits, const char* n) { uint64_t v = input(n); return bits >= 64 ? v : v & ((1ull << bits) - 1); }
uint32_t vp_pick(uint32_t, const char* n) { return (uint32_t)input(n); }
bool vp_flag(const char* n) { return input(n) != 0; }
void vp_assume(bool c) { if (!c) die(EX_ASSUME, "assumption not met"); }
void vp_assert_at(bool c, const char* w) { if (!c) die(EX_ASSERT, "assertion failed: %s", w); }
void vp_cover(uint32_t) {}
void vp_log(uint64_t v) { got->push_back(v); }
void vp_faults(bool on, int b) { faultsOn = on; faultsLeft = b; }
bool vp_alloc_fault() { return fault(); }
void* vp_malloc(size_t n) { return rawNew(n); }
void vp_free(void* p) { rawDel(p); }
int64_t vp_live() { return live; }
}
static void onTerm() { die(EX_TERM, "std::terminate called"); }
static void onAbrt(int) { die(EX_TERM, "abort called"); }
static void onSegv(int s) { die(EX_MEM, "signal %d", s); }
static void body() {
#if defined(VP_SCHED)
  blks = new (malloc(sizeof *blks)) std::remove_reference_t<decltype(*blks)>(); shm = new (malloc(sizeof *shm)) std::remove_reference_t<decltype(*shm)>(); rel = new (malloc(sizeof *rel)) std::remove_reference_t<decltype(*rel)>(); mxs = new (malloc(sizeof *mxs)) std::remove_reference_t<decltype(*mxs)>(); initReal(); vc[0].c[0] = 1;
  signal(SIGSEGV, onSegv); signal(SIGBUS, onSegv); signal(SIGILL, onSegv);
#endif
  std::set_terminate(onTerm); signal(SIGABRT, onAbrt);
  got = new (malloc(sizeof *got)) V<unsigned long long>();
  live = 0; active = true; 
  try { vpEntry(); } catch (...) { die(EX_TERM, "uncaught exception"); }
  active = false;
  if (got->size() != expect->size()) die(EX_LOG, "log length %zu, predicted %zu", got->size(), expect->size());
  for (size_t i = 0; i < got->size(); ++i) if ((*got)[i] != (*expect)[i]) die(EX_LOG, "observation %zu is %llu, predicted %llu", i, (*got)[i], (*expect)[i]);
  die(EX_OK, "ok");
}
int main(int argc, char** argv) {
  if (argc < 3) return 2;
  vpEntry = (void (*)())dlsym(RTLD_DEFAULT, argv[2]); if (!vpEntry) { fprintf(stderr, "no entry %s\n", argv[2]); return 2; }
  bool single = argc > 3;                // no fork: run the first case in this process (debuggers, valgrind)
  FILE* f = fopen(argv[1], "r"); if (!f) return 2;
  static char line[1 << 20]; int idx = 0, bad = 0;
  ins = new V<In>(); expect = new V<unsigned long long>(); sched = new V<int>();
  while (fgets(line, sizeof line, f)) {
    if (!strncmp(line, "case", 4)) { ins->clear(); expect->clear(); sched->clear(); }
    else if (!strncmp(line, "in ", 3)) { In i; i.used = false; if (sscanf(line + 3, "%39s %llu", i.name, &i.v) == 2) ins->push_back(i); }
    else if (!strncmp(line, "log ", 4)) expect->push_back(strtoull(line + 4, 0, 10));
    else if (!strncmp(line, "sched", 5)) { char* p = line + 5; char* e; for (;;) { long t = strtol(p, &e, 10); if (e == p) break; sched->push_back((int)t); p = e; } }
    else if (!strncmp(line, "end", 3)) {
      fflush(stdout);
      if (single) body();
      pid_t pid = fork(); if (!pid) { alarm(8); body(); }
      int st = 0; waitpid(pid, &st, 0); int code = WIFEXITED(st) ? WEXITSTATUS(st) : 200 + WTERMSIG(st);
      printf("CASE %d %d\n", idx++, code); if (code) ++bad;
    }
  }
  fclose(f); printf("DONE %d %d\n", idx, bad); return bad ? 1 : 0;
}
