// C22: concurrent connects, disconnects and blocks all take effect exactly once.
#include "common.h"
#include <atomic>
namespace {
const int MS = 8, MT = 3, FINAL = 6;
enum { CONNECT, DISC, ERASE, BLOCK, UNBLOCK, SCOPED, CONDISC, BLOCKER, NONE, NOPS_ };
template <class R> struct World;
template <class R> World<R>* G;
template <class R> struct F {
  int id; uint8_t key; int act = -1; F(int i, uint8_t k, int a = -1) : id(i), key(k), act(a) {} F(const F& o) : id(o.id), key(o.key), act(o.act) {} ~F();
  R operator()(int x); bool operator==(const F& o) const { return key == o.key; }
};
template <class R> struct Own { sig::connection c[MS], made; int t = 0, op = NONE, arg = 0; bool emit = false, emit0 = false; int trues = 0, erased = 0; bool saw[MT] = {}; int res = -1; bool eng = false; };
// initial slots 0..n-1, a slot connected by thread t has id 4+t (stays) or is gone again at the end of its operation
template <class R> struct World {
  sig::signal<R(int)> s; Own<R> t[MT]; int nt = 2, n = 0; uint8_t key[MS] = {}; bool blocked0[MS] = {}; std::atomic<int> done[MT]; int cnt[FINAL + 1][MS] = {}; int seq[MS * 2], nseq = 0; int actslot = -1; bool counting = false; int gone = 0;
  World() { for (auto& d : done) d.store(0, std::memory_order_relaxed); }
  void perform(Own<R>& o) {
    int me = 4 + o.t;
    switch (o.op) {
      case CONNECT: o.made = s.connect(F<R>(me, (uint8_t)(100 + me))); VP_ASSERT(o.made.connected(), "the new slot is connected"); break;
      case DISC: if (o.c[o.arg].disconnect()) ++o.trues; VP_ASSERT(!o.c[o.arg].connected(), "disconnected when disconnect returns"); VP_ASSERT(!o.c[o.arg].disconnect(), "a second disconnect returns false"); break;
      case ERASE: o.erased = (int)s.disconnect(F<R>(-1, key[o.arg])); for (int i = 0; i < n; ++i) if (key[i] == key[o.arg]) VP_ASSERT(!o.c[i].connected(), "disconnected when disconnect by callable returns"); break;
      case BLOCK: o.c[o.arg].block(); break;
      case UNBLOCK: o.c[o.arg].unblock(); break;
      case SCOPED: { auto sc = s.connect_scoped(F<R>(me, (uint8_t)(100 + me))); VP_ASSERT(sc.connected(), "the scoped slot is connected"); break; }
      case CONDISC: { auto c = s.connect(F<R>(me, (uint8_t)(100 + me))); VP_ASSERT(c.disconnect(), "own slot disconnected once"); VP_ASSERT(!c.disconnect() && !c.connected(), "and stays disconnected"); break; }
      case BLOCKER: { auto b = o.c[o.arg].blocker(); break; }
      default: break;
    }
    done[o.t].store(1, std::memory_order_relaxed);
  }
  bool removes(const Own<R>& o, int i) const { return (o.op == DISC && o.arg == i) || (o.op == ERASE && key[i] == key[o.arg]); }
  int dir(const Own<R>& o, int i) const { return o.arg != i ? -1 : o.op == BLOCK ? 1 : o.op == UNBLOCK || o.op == BLOCKER ? 0 : -1; }
  // what an emission that began knowing 'd' operations to be complete must have invoked
  void check(int x, const bool* d) {
    for (int i = 0; i < n; ++i) {
      bool rem = false, may = false, c[2] = {}; bool any = false;
      for (int k = 0; k < nt; ++k) { if (removes(t[k], i)) (d[k] ? rem : may) = true; int b = dir(t[k], i); if (b >= 0) { c[b] = true; if (t[k].op == BLOCKER && !d[k]) c[1] = true; any = any || d[k]; } }
      if (!any) c[blocked0[i]] = true;
      int lo = rem || may || c[1] ? 0 : 1, hi = rem || !c[0] ? 0 : 1;
      VP_ASSERT(cnt[x][i] >= lo, "a slot connected and unblocked throughout is invoked"); VP_ASSERT(cnt[x][i] <= hi, "no slot is invoked twice, or after it was disconnected or blocked");
    }
    for (int k = 0; k < MT; ++k) {
      int op = k < nt ? t[k].op : NONE; int lo = op == CONNECT && d[k] ? 1 : 0, hi = op == CONNECT || ((op == SCOPED || op == CONDISC) && !d[k]) ? 1 : 0;
      VP_ASSERT(cnt[x][4 + k] >= lo, "a slot whose connect returned is invoked"); VP_ASSERT(cnt[x][4 + k] <= hi, "new slots are invoked at most once, and not after they are gone");
    }
  }
  void finish() {
    bool all[MT] = {true, true, true}, removed = false; int nrem = 0, reports = 0;
    for (int k = 0; k < nt; ++k) { if (t[k].emit) check(t[k].t, t[k].saw); if (t[k].emit0) { bool none[MT] = {}; check(3 + k, none); } reports += t[k].trues + t[k].erased; }
    for (int i = 0; i < n; ++i) { bool r = false, byErase = false; int tr = 0; for (int k = 0; k < nt; ++k) { if (removes(t[k], i)) { r = true; if (t[k].op == ERASE) byErase = true; else tr += t[k].trues; } } if (r) { ++nrem; removed = true; if (!byErase) VP_ASSERT(tr == 1, "exactly one disconnect of a slot reports it"); } for (int k = 0; k < nt; ++k) VP_ASSERT(t[k].c[i].connected() == !r, "connected() is exact afterwards"); }
    VP_ASSERT(reports == nrem, "every removal is reported exactly once");
    for (int k = 0; k < nt; ++k) if (t[k].op == CONNECT) VP_ASSERT(t[k].made.connected(), "a new slot stays connected");
    nseq = 0; s(FINAL); check(FINAL, all);
    if (!removed) { int last = -1; bool isnew = false; for (int j = 0; j < nseq; ++j) { if (seq[j] >= 4) isnew = true; else { VP_ASSERT(!isnew && seq[j] > last, "connection order"); last = seq[j]; } } }
    // everything can be taken apart again, one by one
    for (int i = 0; i < n; ++i) { bool r = false; for (int k = 0; k < nt; ++k) r = r || removes(t[k], i); gone = 0; counting = true; VP_ASSERT(t[0].c[i].disconnect() == !r, "remaining slots are disconnected once"); counting = false; VP_ASSERT(gone == !r, "and are gone from the signal"); }
    for (int k = 0; k < nt; ++k) if (t[k].op == CONNECT) { gone = 0; counting = true; VP_ASSERT(t[k].made.disconnect(), "new slots are disconnected once"); counting = false; VP_ASSERT(gone == 1, "and are gone from the signal"); }
    for (auto& c : cnt[FINAL]) c = 0; s(FINAL); for (int c : cnt[FINAL]) VP_ASSERT(c == 0, "nothing is left");
  }
};
template <class R> F<R>::~F() { if (G<R> && G<R>->counting) ++G<R>->gone; }
template <class R> R F<R>::operator()(int x) {
  auto& w = *G<R>; if (id >= 0) { ++w.cnt[x][id]; if (x == FINAL && w.nseq < MS * 2) w.seq[w.nseq++] = id; }
  if (act >= 0 && x < 3) { w.t[x].op = act; w.t[x].arg = 1; w.perform(w.t[x]); }   // the slot performs the thread's operation
  return mk<R>(id);
}
template <class R> void body(void* p) {
  auto& o = *static_cast<Own<R>*>(p); auto& w = *G<R>;
  if (o.emit0) w.s(3 + o.t);
  if (o.op != NONE) w.perform(o);
  if (o.emit) { for (int k = 0; k < w.nt; ++k) o.saw[k] = k == o.t ? true : w.t[k].op != NONE && w.done[k].load(std::memory_order_relaxed) == 1; w.s(o.t); }
}
template <class R> void setup(World<R>& w, int n, int nt) { G<R> = &w; w.n = n; w.nt = nt; for (int k = 0; k < MT; ++k) w.t[k].t = k; for (int i = 0; i < n; ++i) { w.key[i] = (uint8_t)(i + 1); } }
template <class R> void connect_all(World<R>& w) { for (int i = 0; i < w.n; ++i) { auto c = w.s.connect(F<R>(i, w.key[i])); if (w.blocked0[i]) c.block(); for (auto& o : w.t) o.c[i] = c; } }
bool has_arg(int op) { return op == DISC || op == ERASE || op == BLOCK || op == UNBLOCK || op == BLOCKER; }
template <class R> void go(World<R>& w) { void (*fs[])(void*) = {body<R>, body<R>, body<R>}; void* as[] = {&w.t[0], &w.t[1], &w.t[2]}; vp_parallel(w.nt, fs, as); w.finish(); for (int k = 0; k < w.nt; ++k) { vp_log(w.t[k].trues); vp_log(w.t[k].erased); } }
// each of two threads performs one operation and emits
template <class R> void then_emit(int n) {
  int64_t l0 = base_live();
  {
    World<R> w; setup(w, n, 2);
    for (int k = 0; k < 2; ++k) { auto& o = w.t[k]; o.op = vp_pick(NONE, "op"); vp_cover(1 + o.op); if (has_arg(o.op)) { o.arg = vp_pick(n, "arg"); if (o.op == UNBLOCK) w.blocked0[o.arg] = true; } o.emit = true; }
    if (w.t[0].op > w.t[1].op || (w.t[0].op == w.t[1].op && w.t[0].arg > w.t[1].arg)) vp_assume(false);
    connect_all(w); go(w);
  }
  VP_ASSERT(vp_live() == l0, "nothing leaked");
}
// one thread emits, the other performs one operation and (thorough) emits
template <class R> void observe(int n) {
  int64_t l0 = base_live();
  { World<R> w; setup(w, n, 2); auto& o = w.t[1]; o.op = vp_pick(NONE, "op"); vp_cover(1 + o.op); if (has_arg(o.op)) { o.arg = vp_pick(n, "arg"); if (o.op == UNBLOCK) w.blocked0[o.arg] = true; } w.t[0].emit = true; w.t[0].emit0 = TIER; o.emit = TIER; connect_all(w); go(w); }
  VP_ASSERT(vp_live() == l0, "nothing leaked");
}
// threads only change the signal; positions interact when slots are removed
template <class R> void change(int n, int nt) {
  int64_t l0 = base_live();
  {
    World<R> w; setup(w, n, nt); if (vp_pick(2, "dup")) { w.key[n - 1] = w.key[0]; vp_cover(30); }
    static const int ops[] = {CONNECT, DISC, ERASE, CONDISC, SCOPED};
    for (int k = 0; k < nt; ++k) { auto& o = w.t[k]; int q = vp_pick(nt == 3 ? Q(3, 4) : 5, "op"); o.op = ops[q]; vp_cover(1 + q); if (has_arg(o.op)) o.arg = vp_pick(n, "arg"); if (k && (w.t[k - 1].op > o.op || (w.t[k - 1].op == o.op && w.t[k - 1].arg > o.arg))) vp_assume(false); }
    connect_all(w); go(w);
  }
  VP_ASSERT(vp_live() == l0, "nothing leaked");
}
// the operation is performed by a slot that the thread's emission invokes
template <class R> void by_slot(int n) {
  int64_t l0 = base_live();
  {
    World<R> w; setup(w, n, 2); static const int ops[] = {CONNECT, DISC, ERASE, CONDISC}; int a = ops[vp_pick(4, "act")]; auto& o = w.t[1]; int q = vp_pick(4, "op"); o.op = ops[q]; vp_cover(1 + q); if (has_arg(o.op)) o.arg = vp_pick(n, "arg");
    auto c = w.s.connect(F<R>(0, w.key[0], a)); for (auto& z : w.t) z.c[0] = c; for (int i = 1; i < n; ++i) { c = w.s.connect(F<R>(i, w.key[i])); for (auto& z : w.t) z.c[i] = c; }
    w.t[0].op = NONE;
    struct B { static void em(void* p) { auto& w2 = *G<R>; (void)p; w2.s(0); } };
    void (*fs[])(void*) = {B::em, body<R>}; void* as[] = {&w.t[0], &w.t[1]}; vp_parallel(2, fs, as); bool ran = w.cnt[0][0] == 1; if (!ran) w.t[0].op = NONE; bool none[MT] = {true, false, false};
    for (int i = 0; i < n; ++i) { VP_ASSERT(w.cnt[0][i] <= 1, "once"); bool touched = w.removes(w.t[0], i) || w.removes(w.t[1], i); if (!touched) VP_ASSERT(w.cnt[0][i] == 1, "invoked by the emission"); if (i && ran && w.removes(w.t[0], i)) VP_ASSERT(w.cnt[0][i] == 0, "disconnected before its turn"); }
    VP_ASSERT(w.cnt[0][4] == 0, "a slot connected during an emission is not invoked by it"); (void)none; w.finish();
  }
  VP_ASSERT(vp_live() == l0, "nothing leaked");
}
}
extern "C" void c22_then_void() { then_emit<void>(Q(2, 2)); }
extern "C" void c22_then_int() { then_emit<int>(Q(1, 2)); }
extern "C" void c22_observe() { observe<void>(2); }
extern "C" void c22_observe_int() { observe<int>(2); }
extern "C" void c22_change() { change<void>(3, 2); }
extern "C" void c22_three() { change<void>(Q(2, 3), 3); }
extern "C" void c22_slot() { by_slot<void>(2); }
