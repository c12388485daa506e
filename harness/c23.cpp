// C23: tracked objects stay safe when released by another thread.
#include "common.h"
#include <atomic>
namespace {
enum { EMIT, QUERY, DISC, BLOCKTOG, SLOTCALL, COPYSLOT, RECONNECT, OWNERTMP, NOPS_ };
struct Tgt;
struct Rec { int calls[8] = {}; int destroyed = 0; } REC;
std::atomic<int> DEAD;   // destruction began
struct Tgt {
  int v, busy, alive, data; Tgt(int x) : v(x), busy(0), alive(1), data(x) {}
  ~Tgt() { VP_ASSERT(busy == 0, "not destroyed while one of its slots is running"); alive = 0; DEAD.store(1, std::memory_order_relaxed); ++REC.destroyed; v = -1; data = -1; }
  int call(int x) { VP_ASSERT(alive == 1, "invoked on a live object"); int s = v; vp_event(); VP_ASSERT(alive == 1 && v == s, "alive throughout the call"); ++REC.calls[x]; return s; }
  void callv(int x) { (void)call(x); }
  int callbusy(int x) { busy = 1; int r = call(x); busy = 0; return r; }   // used when at most one thread emits
  void callvbusy(int x) { (void)callbusy(x); }
};
template <class R> struct PM; template <> struct PM<int> { static auto f() { return &Tgt::call; } static auto b() { return &Tgt::callbusy; } }; template <> struct PM<void> { static auto f() { return &Tgt::callv; } static auto b() { return &Tgt::callvbusy; } };
struct Plain { int operator()(int) { return 5; } void operator()(int) const {} };
template <class R> struct World;
template <class R> World<R>* G;
template <class R> struct Own { int t = 0, op = EMIT; sig::connection c[2]; std::shared_ptr<Tgt> sp; std::weak_ptr<Tgt> wp; std::unique_ptr<sig::slot<R(int)>> sl; bool saw = false, eng = false, release = false, conn = false, conn2 = false, disc = false; int val = 0; };
template <class R> struct World { sig::signal<R(int)> s; Own<R> t[3]; std::atomic<int> done[3]; int workers = 1; World() { for (auto& d : done) d.store(0, std::memory_order_relaxed); } };
template <class R> void rec(Own<R>& o, const opt::optional<int>& r) { o.eng = bool(r); o.val = r ? *r : 0; }
template <class R> void rec(Own<R>&, const opt::optional<void>&) {}
template <class R> void body(void* p) {
  auto& o = *static_cast<Own<R>*>(p); auto& w = *G<R>;
  if (o.release) { o.sp.reset(); w.done[o.t].store(1, std::memory_order_relaxed); return; }
  bool all = true; for (int k = 0; k < 3; ++k) if (w.t[k].release) all = all && w.done[k].load(std::memory_order_relaxed) == 1;
  // another thread's call in progress may keep the object alive for a while after the release: then its destruction counts
  o.saw = w.workers == 1 ? all : DEAD.load(std::memory_order_relaxed) == 1;
  switch (o.op) {
    case EMIT: rec(o, w.s(o.t)); break;
    case QUERY: o.conn = o.c[0].connected(); o.conn2 = o.c[0].connected(); VP_ASSERT(!(o.conn2 && !o.conn), "an expired connection stays disconnected"); if (o.saw) VP_ASSERT(!o.conn, "not connected once the object is released"); break;
    case DISC: o.disc = o.c[0].disconnect(); if (o.saw) VP_ASSERT(!o.disc, "the release had ended the connection already"); VP_ASSERT(!o.c[0].connected(), "disconnected"); rec(o, w.s(o.t)); break;
    case BLOCKTOG: { { auto b = o.c[0].blocker(); } o.conn = o.c[0].blocked(); VP_ASSERT(!o.conn, "unblocked again"); break; }
    case SLOTCALL: rec(o, (*o.sl)(int(o.t))); break;
    case COPYSLOT: { sig::slot<R(int)> c(*o.sl); rec(o, c(int(o.t))); break; }
    case RECONNECT: { auto c = w.s.connect(*o.sl); if (o.saw) VP_ASSERT(!c.connected(), "a slot of a released object is not connected"); break; }
    case OWNERTMP: { auto sp = o.wp.lock(); if (o.saw) VP_ASSERT(!sp, "nothing keeps the object alive"); if (sp) { VP_ASSERT(sp->alive == 1, "alive while owned"); rec(o, w.s(o.t)); sp.reset(); } break; }
  }
}
// kind: how the slot is bound; nr releasing threads; nw working threads
template <class R> void run(int nw, int nr, int nops, bool two) {
  int64_t l0 = base_live(); REC = Rec(); DEAD.store(0, std::memory_order_relaxed);
  {
    World<R> w; G<R> = &w; w.workers = nw; auto sp = std::make_shared<Tgt>(42); int emitters = 0;
    for (int k = 0; k < nw; ++k) { auto& o = w.t[k]; o.t = k; o.op = vp_pick(nops, "op"); vp_cover(1 + o.op); if (k && w.t[k - 1].op > o.op) vp_assume(false); if (o.op != QUERY && o.op != BLOCKTOG && o.op != RECONNECT) ++emitters; }
    bool busy = emitters == 1; int kind = vp_pick(2, "kind"); vp_cover(20 + kind); auto pmf = busy ? PM<R>::b() : PM<R>::f();
    if (two) w.s.connect(Plain());
    std::weak_ptr<Tgt> wp = sp; sig::connection c = kind == 0 ? w.s.connect(pmf, sp) : w.s.connect(sig::slot<R(int)>(pmf, wp)); sig::connection c2; if (two) c2 = kind == 0 ? w.s.connect(pmf, sp) : w.s.connect(sig::slot<R(int)>(pmf, wp));
    VP_ASSERT(c.connected(), "connected while owned");
    for (int k = 0; k < nw; ++k) { auto& o = w.t[k]; o.c[0] = c; o.wp = sp; if (o.op == SLOTCALL || o.op == COPYSLOT || o.op == RECONNECT) o.sl.reset(new sig::slot<R(int)>(pmf, sp)); }
    for (int k = 0; k < nr; ++k) { auto& o = w.t[nw + k]; o.t = nw + k; o.release = true; o.sp = sp; }
    sp.reset(); VP_ASSERT(REC.destroyed == 0, "alive while owned");
    void (*fs[])(void*) = {body<R>, body<R>, body<R>}; void* as[] = {&w.t[0], &w.t[1], &w.t[2]}; vp_parallel(nw + nr, fs, as);
    VP_ASSERT(REC.destroyed == 1, "destroyed exactly once, although slots still refer to it");
    for (int k = 0; k < nw; ++k) {
      auto& o = w.t[k]; int n = REC.calls[k]; bool one = o.op == SLOTCALL || o.op == COPYSLOT; vp_log(n);
      if (o.op == QUERY || o.op == BLOCKTOG || o.op == RECONNECT) { VP_ASSERT(n == 0, "not invoked"); continue; }
      int mx = one ? 1 : 1 + (two ? 1 : 0) + (o.op == DISC ? -1 : 0); for (int j = 0; j < nw; ++j) if (!one && w.t[j].op == RECONNECT) ++mx;   // another thread may have connected one more slot
      VP_ASSERT(n <= mx, "invoked at most once per slot"); if (o.saw) VP_ASSERT(n == 0, "not invoked after the release completed");
      if (!std::is_void<R>::value) { if (one || !two) { VP_ASSERT(o.eng == (n > 0), "a skipped invocation has a disengaged result"); if (o.eng) VP_ASSERT(o.val == 42, "a completed invocation has its result"); } else VP_ASSERT(o.op == OWNERTMP || (o.eng && (o.val == (n ? 42 : 5))), "the result of the last slot that ran"); }
    }
    VP_ASSERT(!c.connected(), "expired"); int before = 0; for (int x : REC.calls) before += x; auto r = w.s(7); (void)r; int after = 0; for (int x : REC.calls) after += x; VP_ASSERT(before == after, "never invoked after the release"); VP_ASSERT(REC.destroyed == 1, "once");
    auto sp2 = std::make_shared<Tgt>(1); auto c3 = w.s.connect(PM<R>::f(), sp2); w.s(6); VP_ASSERT(REC.calls[6] == 1 && c3.connected(), "the signal is usable"); 
  }
  VP_ASSERT(vp_live() == l0, "nothing leaked");
}
// a pointer to data member, tracked
void data() {
  int64_t l0 = base_live(); REC = Rec(); DEAD.store(0, std::memory_order_relaxed);
  {
    sig::signal<int()> s; auto sp = std::make_shared<Tgt>(9); s.connect(&Tgt::data, sp); static opt::optional<int> r; r = opt::nullopt; static std::shared_ptr<Tgt> own; own = sp; sp.reset(); static sig::signal<int()>* gs; gs = &s;
    struct B { static void em(void*) { r = (*gs)(); } static void rel(void*) { own.reset(); } };
    void (*fs[])(void*) = {B::em, B::rel}; void* as[] = {nullptr, nullptr}; vp_parallel(2, fs, as); VP_ASSERT(!r || *r == 9, "a live value or nothing"); vp_cover(r ? 1 : 2); VP_ASSERT(REC.destroyed == 1, "destroyed once"); VP_ASSERT(!s(), "expired");
  }
  VP_ASSERT(vp_live() == l0, "nothing leaked");
}
}
extern "C" void c23_one_int() { run<int>(1, 1, NOPS_, false); }
extern "C" void c23_one_void() { run<void>(1, 1, NOPS_, false); }
extern "C" void c23_twoslots() { run<int>(1, 1, NOPS_, true); }
extern "C" void c23_owners() { run<int>(1, 2, NOPS_, false); }
extern "C" void c23_workers() { run<int>(2, 1, NOPS_, false); }
extern "C" void c23_workers_void() { run<void>(2, 1, NOPS_, TIER); }
extern "C" void c23_data() { data(); }
