// C21: concurrent use of one signal is free of data races, deadlocks and crashes.
#include "common.h"
#include <mutex>
namespace {
const int MS = 4;
enum { EMIT, CONNECT, DISC, ERASE, BLOCK, UNBLOCK, QUERY, COPY, BLOCKER, SCOPED, CONSLOT, TRACK, NOP_ };
template <class R> struct World;
template <class R> World<R>* G;
std::recursive_mutex H;   // a lock of the user's program
bool dtor_locks;
template <class R> struct F {
  int id; uint8_t key; int act; F(int i, uint8_t k, int a = -1) : id(i), key(k), act(a) {} F(const F& o) : id(o.id), key(o.key), act(o.act) {}
  ~F() { if (dtor_locks && act == 50) { std::lock_guard<std::recursive_mutex> g(H); } }
  R operator()(int x);
  bool operator==(const F& o) const { return key == o.key; }
};
template <class R> struct Tgt { int id; R call(int x) { return mk<R>(x); } };
// handles owned by one thread
template <class R> struct Own { sig::connection c[MS]; int op = 0, arg = 0, op2 = -1, arg2 = 0; bool gate = false; std::shared_ptr<Tgt<R>> sp; bool two = false; };
template <class R> struct World {
  sig::signal<R(int)> s, s2; Own<R> t[3]; int ran[8] = {}; bool count = false;
  void perform(Own<R>& o, int op, int arg, sig::signal<R(int)>& sg, int depth = 0) {
    switch (op) {
      case EMIT: { auto r = sg(depth); (void)r; break; }
      case CONNECT: { auto c = sg.connect(F<R>(6, 60)); (void)c.connected(); break; }
      case DISC: o.c[arg].disconnect(); break;
      case ERASE: sg.disconnect(F<R>(-1, (uint8_t)arg)); break;
      case BLOCK: o.c[arg].block(); break;
      case UNBLOCK: o.c[arg].unblock(); break;
      case QUERY: { bool a = o.c[arg].connected(), b = o.c[arg].blocked(), c = o.c[arg].valid(); (void)(a && b && c); break; }
      case COPY: { sig::connection d(o.c[arg]), e; e = d; d = sig::connection(); sig::connection f(std::move(e)); (void)f.connected(); break; }
      case BLOCKER: { auto b = o.c[arg].blocker(); break; }
      case SCOPED: { auto sc = sg.connect_scoped(F<R>(7, 70)); break; }
      case CONSLOT: { sig::slot<R(int)> sl(F<R>(5, 80)); auto c = sg.connect(sl); (void)c; break; }
      case TRACK: { auto c = sg.connect(&Tgt<R>::call, o.sp); (void)c.connected(); break; }
    }
  }
};
template <class R> R F<R>::operator()(int x) {
  auto& w = *G<R>; if (w.count && id >= 0 && id < 8) ++w.ran[id];
  if (act >= 0 && x == 0) { if (act == 40) { std::lock_guard<std::recursive_mutex> g(H); } else if (act < 20) { Own<R> o; o.c[0] = w.t[2].c[0]; o.c[1] = w.t[2].c[1]; o.sp = nullptr; w.perform(o, act, 1, w.s, 1); } else if (act < 40) { Own<R> o; w.perform(o, act - 20, 1, id == 0 ? w.s2 : w.s, 1); } }
  return mk<R>(x);
}
template <class R> void body(void* p) {
  auto& o = *static_cast<Own<R>*>(p); auto& w = *G<R>;
  if (o.gate) { std::lock_guard<std::recursive_mutex> g(H); w.perform(o, o.op, o.arg, w.s); } else w.perform(o, o.op, o.arg, o.two ? w.s2 : w.s);
  if (o.op2 >= 0) w.perform(o, o.op2, o.arg2, w.s);
}
bool has_arg(int op) { return op == DISC || op == ERASE || op == BLOCK || op == UNBLOCK || op == QUERY || op == COPY || op == BLOCKER; }
template <class R> void setup(World<R>& w, int n, int act, int actslot) { G<R> = &w; dtor_locks = false; for (int i = 0; i < n; ++i) { auto c = w.s.connect(F<R>(i, (uint8_t)i, i == actslot ? act : -1)); for (auto& o : w.t) o.c[i] = c; } for (auto& o : w.t) { o.sp = std::make_shared<Tgt<R>>(); o.sp->id = 1; } }
template <class R> void finish(World<R>& w) { w.s(3); w.s2(3); auto c = w.s.connect(F<R>(4, 4)); VP_ASSERT(c.connected() && c.disconnect(), "the signal is usable afterwards"); }
void par(int n, void (*f)(void*), void* a, void* b, void* c = nullptr) { void (*fs[])(void*) = {f, f, f}; void* as[] = {a, b, c}; vp_parallel(n, fs, as); }
// two threads, one operation each, any pair of operations
template <class R> void pairs(int n, int second) {
  int64_t l0 = base_live();
  { World<R> w; setup(w, n, -1, -1); for (int i = 0; i < 2; ++i) { w.t[i].op = vp_pick(NOP_, "op"); vp_cover(1 + w.t[i].op); w.t[i].arg = has_arg(w.t[i].op) ? vp_pick(n, "arg") : 0; } if (second) { w.t[1].op2 = vp_pick(second, "op2"); w.t[1].arg2 = 0; } if (w.t[0].op > w.t[1].op && !second) { vp_assume(false); } par(2, body<R>, &w.t[0], &w.t[1]); finish(w); vp_log(w.t[0].op); }
  VP_ASSERT(vp_live() == l0, "nothing leaked");
}
// one thread emits, a slot acts on the signal, the other thread does any operation
template <class R> void slot_acts(int n) {
  int64_t l0 = base_live();
  { World<R> w; int act = vp_pick(NOP_ - 1, "act"); int as = vp_pick(2, "slot"); setup(w, n, act, as); vp_cover(1 + act); w.t[0].op = EMIT; w.t[1].op = vp_pick(NOP_, "op"); w.t[1].arg = has_arg(w.t[1].op) ? vp_pick(2, "arg") : 0; vp_cover(20 + w.t[1].op); par(2, body<R>, &w.t[0], &w.t[1]); finish(w); }
  VP_ASSERT(vp_live() == l0, "nothing leaked");
}
// a thread that holds a lock of the program uses the signal while a slot (or a callable's destructor) run by the other thread wants that lock
template <class R> void gate(int n) {
  int64_t l0 = base_live();
  {
    World<R> w; bool dtor = vp_pick(2, "dtor"); setup(w, n, dtor ? 50 : 40, 0); w.t[1].gate = true; w.t[1].op = vp_pick(NOP_, "op"); if (w.t[1].op == EMIT) vp_assume(false); w.t[1].arg = has_arg(w.t[1].op) ? 1 : 0; vp_cover(1 + w.t[1].op); 
    if (dtor) { dtor_locks = true; static const int ops[] = {DISC, ERASE, EMIT}; w.t[0].op = ops[vp_pick(3, "end")]; w.t[0].arg = 0; vp_cover(20 + w.t[0].op); } else { w.t[0].op = EMIT; w.count = true; }
    par(2, body<R>, &w.t[0], &w.t[1]); if (!dtor) for (int i = 0; i < n; ++i) if (i != 1) VP_ASSERT(w.ran[i] >= 1, "the emission ran"); dtor_locks = false; finish(w);
  }
  VP_ASSERT(vp_live() == l0, "nothing leaked");
}
// two signals whose slots use each other
template <class R> void cross() {
  int64_t l0 = base_live();
  { World<R> w; static const int acts[] = {EMIT, CONNECT, ERASE, SCOPED, CONSLOT}; G<R> = &w; dtor_locks = false; int a = acts[vp_pick(5, "a")], b = acts[vp_pick(5, "b")]; vp_cover(1 + a); w.s.connect(F<R>(0, 1, 20 + a)); w.s2.connect(F<R>(1, 1, 20 + b)); w.t[0].op = EMIT; w.t[1].op = EMIT; w.t[1].two = true; par(2, body<R>, &w.t[0], &w.t[1]); finish(w); }
  VP_ASSERT(vp_live() == l0, "nothing leaked");
}
template <class R> void triples(int n) {
  int64_t l0 = base_live();
  { World<R> w; setup(w, n, -1, -1); static const int ops[] = {EMIT, CONNECT, DISC, ERASE, BLOCK}; for (int i = 0; i < 3; ++i) { int k = vp_pick(TIER ? 5 : 4, "op"); w.t[i].op = ops[k]; w.t[i].arg = k >= 2 ? (TIER ? vp_pick(n, "arg") : 0) : 0; vp_cover(1 + k); if (i && w.t[i - 1].op > w.t[i].op) vp_assume(false); } par(3, body<R>, &w.t[0], &w.t[1], &w.t[2]); finish(w); }
  VP_ASSERT(vp_live() == l0, "nothing leaked");
}
}
extern "C" void c21_pairs_void() { pairs<void>(2, 0); }
extern "C" void c21_pairs_int() { pairs<int>(1, 0); }
extern "C" void c21_seq() { pairs<void>(1, 4); }
extern "C" void c21_slot() { slot_acts<void>(2); }
extern "C" void c21_slot_int() { slot_acts<int>(2); }
extern "C" void c21_gate() { gate<void>(2); }
extern "C" void c21_gate_int() { gate<int>(2); }
extern "C" void c21_cross() { cross<void>(); }
extern "C" void c21_three() { triples<void>(Q(1, 2)); }
