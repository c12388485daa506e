// C09: slots may freely reenter the signal during an emission.
#include "common.h"
#include "inem.h"
namespace {
const int MS = 8;
enum { NOTHING, CONNECT, DISC_SELF, DISC_OTHER, ERASE, BLOCK, UNBLOCK, EMIT, SCOPED, NACT };
struct Act { int what; int arg; };
template <class R> struct World;
template <class R> World<R>* G;
// A slot that performs its scripted action the first time it runs.
template <class R> struct Sl {
  int id; uint8_t key; int canary = 0x1234; Sl(int i, uint8_t k) : id(i), key(k) {} Sl(const Sl& o) : id(o.id), key(o.key) {} ~Sl() { canary = 0; id = -1; }
  R operator()(int depth);
  bool operator==(const Sl& o) const { return key == o.key; }
};
template <class R> struct World {
  sig::signal<R(int)> s; sig::connection c[MS]; int ns = 0; Act act[MS]; bool done[MS];
  // model, run separately on the same script
  int ord[MS], m = 0; bool conn[MS], blk[MS]; int mns = 0; Trace exp; bool mdone[MS];
  void add() { int i = ns++; c[i] = s.connect(Sl<R>(i, (uint8_t)i)); }
  void madd() { int i = mns++; ord[m++] = i; conn[i] = true; blk[i] = false; mdone[i] = false; }
  bool mrem(int i) { if (i >= mns || !conn[i]) return false; conn[i] = false; int p = 0; while (ord[p] != i) ++p; ord[p] = ord[--m]; return true; }
  void perform(int i, int depth) {
    if (done[i]) return; done[i] = true; int a = act[i].arg;
    switch (act[i].what) {
    case CONNECT: if (ns < MS) { int k = ns; act[k] = {NOTHING, 0}; done[k] = false; add(); } break;
    case DISC_SELF: c[i].disconnect(); break;
    case DISC_OTHER: c[a].disconnect(); break;
    case ERASE: s.disconnect(Sl<R>(-5, (uint8_t)a)); break;
    case BLOCK: c[a].block(); break;
    case UNBLOCK: c[a].unblock(); break;
    case EMIT: if (depth < 2) s(depth + 1); break;
    case SCOPED: { sig::scoped_connection sc(c[a]); break; }
    }
  }
  void memit(int depth) {
    int snap[MS], n = m; for (int i = 0; i < n; ++i) snap[i] = ord[i];
    for (int k = 0; k < n; ++k) {
      int i = snap[k]; if (!conn[i] || blk[i]) continue; exp.add(i, depth); if (mdone[i]) continue; mdone[i] = true; int a = act[i].arg;
      switch (act[i].what) {
      case CONNECT: if (mns < MS) madd(); break; case DISC_SELF: mrem(i); break; case DISC_OTHER: case ERASE: case SCOPED: mrem(a); break;
      case BLOCK: if (a < mns && conn[a]) blk[a] = true; break; case UNBLOCK: if (a < mns) blk[a] = false; break; case EMIT: if (depth < 2) memit(depth + 1); break; }
    }
  }
};
template <class R> R Sl<R>::operator()(int depth) {
  int me = id; VP_ASSERT(canary == 0x1234, "a destroyed callable is invoked"); TR.add(me, depth); G<R>->perform(me, depth);
  VP_ASSERT(canary == 0x1234 && id == me, "the callable is not destroyed while it runs"); return mk<R>(me);
}
template <class R> void script(int nslots, int nact) {
  TR.clear(); World<R> w; G<R> = &w;
  int preblocked = vp_pick(nslots + 1, "preblk") - 1;
  for (int i = 0; i < nslots; ++i) { w.act[i] = {NOTHING, 0}; w.done[i] = false; w.add(); w.madd(); }
  for (int i = 0; i < nslots && i < nact; ++i) { int a = vp_pick(NACT, "act"); int g = 0; if (a == DISC_OTHER || a == ERASE || a == BLOCK || a == UNBLOCK || a == SCOPED) { g = vp_pick(nslots, "arg"); if (a == UNBLOCK && g != preblocked) { vp_assume(false); } } w.act[i] = {a, g}; vp_cover(a); }
  if (preblocked >= 0) { w.c[preblocked].block(); w.blk[preblocked] = true; }
  w.exp.clear(); w.s(0); w.memit(0);
  VP_ASSERT(TR.n == w.exp.n, "number of invocations"); for (int i = 0; i < TR.n; ++i) VP_ASSERT(TR.id[i] == w.exp.id[i] && TR.arg[i] == w.exp.arg[i], "every slot is invoked or skipped as specified, in order");
  for (int i = 0; i < TR.n; ++i) vp_log(TR.id[i] * 16 + TR.arg[i]);
  for (int i = 0; i < w.ns; ++i) VP_ASSERT(w.c[i].connected() == w.conn[i], "state after the emission");
  TR.clear(); w.exp.clear(); w.s(0); w.memit(0); VP_ASSERT(TR.n == w.exp.n, "next emission: number of invocations"); for (int i = 0; i < TR.n; ++i) VP_ASSERT(TR.id[i] == w.exp.id[i], "next emission: slots connected meanwhile run now");
  for (int i = 0; i < w.ns; ++i) VP_ASSERT(w.c[i].disconnect() == w.conn[i], "every connection can still be ended"); TR.clear(); w.s(0); VP_ASSERT(TR.n == 0, "all gone"); vp_cover(20);
}
// member-function and tracked slots, and a combiner, under reentrancy
template <class R> struct Obj3 { int id; sig::signal<R(int)>* s; sig::connection self; int what; int canary = 77; R call(int x) { TR.add(id, x); if (what == 1) self.disconnect(); if (what == 2) s->disconnect(&Obj3::call, this); if (what == 3) { auto c2 = s->connect(&Obj3::call, this); c2.disconnect(); } if (what == 4 && x < 2) (*s)(x + 1); VP_ASSERT(canary == 77, "object intact"); return mk<R>(id); } };
template <class R> void members() {
  TR.clear(); sig::signal<R(int)> s; Obj3<R> a{0, &s, {}, (int)vp_pick(5, "wa")}, b{1, &s, {}, (int)vp_pick(5, "wb")}; auto c = std::make_shared<Obj3<R>>(); *c = Obj3<R>{2, &s, {}, (int)vp_pick(2, "wc")};
  a.self = s.connect(&Obj3<R>::call, &a); b.self = s.connect(&Obj3<R>::call, &b); c->self = s.connect(&Obj3<R>::call, c); s(0);
  bool ga = a.what == 1 || a.what == 2, gb = b.what == 1 || b.what == 2, gc = c->what == 1; VP_ASSERT(a.self.connected() == !ga && b.self.connected() == !gb && c->self.connected() == !gc, "each slot removed exactly itself");
  int n0 = 0, prev = -1; for (int i = 0; i < TR.n; ++i) if (TR.arg[i] == 0) { VP_ASSERT(TR.id[i] > prev, "the outer emission's order"); prev = TR.id[i]; ++n0; }
  if (!gc && !(a.what == 4) && !(b.what == 4)) VP_ASSERT(n0 == 3, "every slot present at the start runs once");
  TR.clear(); a.what = b.what = c->what = 0; s(0); VP_ASSERT(TR.n == 3 - ga - gb - gc, "next emission"); vp_cover(1); vp_log(TR.n);
}
// deep recursion of emissions; the innermost one changes the signal
int dp_max, dp_act, dp_n; template <class R> struct Deep;
template <class R> sig::signal<R(int)>* DS; sig::connection dc[4];
template <class R> struct Deep { int id; R operator()(int d) { BT.add(id); if (id == 1) { if (d < dp_max) (*DS<R>)(d + 1); else { ++dp_n; if (dp_act == 0) dc[1].disconnect(); else if (dp_act == 1) dc[2].disconnect(); else if (dp_act == 2) dc[3] = DS<R>->connect(Deep<R>{3}); else if (dp_act == 3) dc[2].block(); else if (dp_act == 4) DS<R>->disconnect(Deep<R>{0}); } } return mk<R>(d); } bool operator==(const Deep& o) const { return id == o.id; } };
template <class R> void deep() {
  const int depths[] = {3, 9, 17, 34, 66, 130}; BT.clear(); dp_n = 0; dp_max = depths[vp_pick(6, "depth")]; dp_act = vp_pick(6, "act"); 
  {
    sig::signal<R(int)> s; DS<R> = &s; for (int i = 0; i < 3; ++i) dc[i] = s.connect(Deep<R>{i}); auto r = s(0); int L = dp_max + 1; VP_ASSERT(dp_n == 1, "the innermost emission ran"); VP_ASSERT(res_is(r, true, 0), "result of the outer emission");
    int tail = dp_act == 1 || dp_act == 3 ? 0 : L; VP_ASSERT(BT.n == 2 * L + tail, "every level ran exactly its slots"); for (int i = 0; i < L; ++i) VP_ASSERT(BT.id[2 * i] == 0 && BT.id[2 * i + 1] == 1, "order going down"); for (int i = 0; i < tail; ++i) VP_ASSERT(BT.id[2 * L + i] == 2, "order coming back");
    int DA = dp_act; dp_max = 0; dp_act = 9; BT.clear(); s(0); int e[4], n = 0;
    if (DA == 0) { e[n++] = 0; e[n++] = 2; } else if (DA == 1 || DA == 3) { e[n++] = 0; e[n++] = 1; } else if (DA == 2) { for (int i = 0; i < 4; ++i) e[n++] = i; } else if (DA == 4) { e[n++] = 2; e[n++] = 1; } else { for (int i = 0; i < 3; ++i) e[n++] = i; }
    VP_ASSERT(BT.n == n, "next emission"); for (int i = 0; i < n; ++i) VP_ASSERT(BT.id[i] == e[i], "next emission: order"); for (int i = 0; i < 3; ++i) VP_ASSERT(dc[i].connected() == !((i == 0 && DA == 4) || (i == 1 && DA == 0) || (i == 2 && DA == 1)), "states"); VP_ASSERT(dc[3].connected() == (DA == 2), "state of the new slot"); for (auto& x : dc) x.disconnect(); BT.clear(); s(0); VP_ASSERT(BT.n == 0, "all gone"); vp_cover(1); vp_log(DA);
  }
  for (auto& x : dc) x = sig::connection();
}
}
extern "C" void c09_void() { script<void>(3, 3); }
extern "C" void c09_int() { script<int>(3, 3); }
extern "C" void c09_four() { script<void>(4, Q(3, 4)); }
extern "C" void c09_mem() { if (vp_pick(2, "r")) members<void>(); else members<int>(); }
extern "C" void c09_deep() { if (vp_pick(2, "r")) deep<void>(); else deep<int>(); }
// past every 16-bit count: nested emissions one after another, and slots replacing themselves
extern "C" void c09_wrap() {
  int how = vp_pick(2, "how"); const int T = 65600; sig::signal<void(int)> s; int n = 0, m = 0; sig::connection c;
  if (how == 0) { auto a = s.connect([&](int d) { if (d == 0) for (int k = 0; k < T; ++k) { vp_cover(255); s(1); } else ++n; }); auto b = s.connect([&](int d) { m += d == 0 ? 100000 : 1; }); s(0); VP_ASSERT(n == T && m == T + 100000, "every nested emission ran both slots"); n = m = 0; s(1); VP_ASSERT(n == 1 && m == 1, "as before"); VP_ASSERT(a.disconnect() && b.connected(), "disconnect"); n = m = 0; s(1); VP_ASSERT(n == 0 && m == 1, "takes effect"); }
  else { struct Self { sig::signal<void(int)>* s; sig::connection* c; int* n; void operator()(int d) const { ++*n; auto ss = s; auto cc = c; auto nn = n; VP_ASSERT(cc->disconnect(), "a slot disconnects itself"); *cc = ss->connect(Self{ss, cc, nn}); (void)d; } }; c = s.connect(Self{&s, &c, &n}); for (int k = 0; k < T; ++k) { vp_cover(255); s(k); VP_ASSERT(n == k + 1 && c.connected(), "exactly one slot ran, and replaced itself"); } }
  vp_cover(1);
}
// operations made outside emissions and by slots while the signal is emitting
namespace { const int in_ops[] = {inem::STOP, inem::DISC, inem::ERASE, inem::BLOCK, inem::UNBLOCK, inem::BL_MAKE, inem::BL_END, inem::SC_OWN, inem::SC_END, inem::CONNECT, inem::EMIT}; }
extern "C" void c09_ops_void() { inem::run<void>(inem::conf(in_ops, inem::K_PLAIN, 3, 0, Q(2, 3))); }
extern "C" void c09_ops_int() { inem::run<int>(inem::conf(in_ops, inem::K_PLAIN, 2, Q(1, 2), 2)); }
// longer sequences of fewer kinds of operation
namespace { const int seq_seq_void[] = {inem::STOP, inem::DISC, inem::CONNECT, inem::EMIT}; }
extern "C" void c09_seq_void() { inem::run<void>(inem::conf(seq_seq_void, inem::K_FO, 3, Q(0, 0), Q(5, 6))); }
namespace { const int seq_seq_int[] = {inem::STOP, inem::BLOCK, inem::UNBLOCK, inem::CONNECT, inem::EMIT}; }
extern "C" void c09_seq_int() { inem::run<int>(inem::conf(seq_seq_int, inem::K_FO, 2, Q(0, 0), Q(4, 5))); }
namespace { const int dup_void[] = {inem::STOP, inem::ERASE, inem::CONNECT, inem::EMIT, inem::BLOCK}; }
extern "C" void c09_dup_void() { inem::run<void>(inem::conf(dup_void, inem::K_DUP, 3, Q(0, 1), Q(3, 4))); }
