// C05: blocking silences exactly the blocked slot until it is unblocked.
#include "common.h"
#include "inem.h"
namespace {
const int NS = 3, NB = Q(2, 3);
template <class R> struct W {
  sig::signal<R(int)>* s = new sig::signal<R(int)>; bool alive = true; sig::connection c[NS]; bool conn[NS], blk[NS] = {}; int ord[NS], m = 0; int ret[NS]; Target<R> t; std::shared_ptr<Target<R>> sp = std::make_shared<Target<R>>();
  sig::connection_blocker* b[NB]; int tgt[NB];
  W() {
    for (int i = 0; i < NS; ++i) { conn[i] = true; ord[m++] = i; ret[i] = vp_int("ret"); }
    c[0] = s->connect(Fn<R>{0, 0, ret[0]}); t.id = 1; t.ret = ret[1]; c[1] = s->connect(&Target<R>::call, &t); sp->id = 2; sp->ret = ret[2]; c[2] = s->connect(&Target<R>::call, sp);
    for (int k = 0; k < NB; ++k) { b[k] = new sig::connection_blocker; tgt[k] = -1; }
  }
  ~W() { for (auto* x : b) delete x; if (alive) delete s; }
  bool up(int i) const { return alive && conn[i]; }
  void unb(int k) { if (tgt[k] >= 0 && up(tgt[k])) blk[tgt[k]] = false; tgt[k] = -1; }
  void drop(int i) { conn[i] = false; int p = 0; while (ord[p] != i) ++p; ord[p] = ord[--m]; }
  void check() { for (int i = 0; i < NS; ++i) { VP_ASSERT(c[i].connected() == up(i), "a blocked slot stays connected"); if (up(i)) VP_ASSERT(c[i].blocked() == blk[i], "blocked exactly if the last blocking action was a block"); else VP_ASSERT(!c[i].connected(), "gone"); } }
  void emit() {
    if (!alive) return; TR.clear(); auto r = (*s)(1); int j = 0, last = -1;
    for (int i = 0; i < m; ++i) if (!blk[ord[i]]) { VP_ASSERT(j < TR.n && TR.id[j] == ord[i], "an unblocked slot keeps running at its position"); last = ord[i]; ++j; }
    VP_ASSERT(j == TR.n, "a blocked slot is not invoked"); VP_ASSERT(res_is(r, last >= 0, last >= 0 ? ret[last] : 0), "result"); vp_log(TR.n);
  }
};
template <class R> void machine(int steps) {
  TR.clear(); W<R> w;
  for (int k = 0; k < steps; ++k) {
    int op = vp_pick(11, "op"); if (op == 0) break;
    if (op == 1 || op == 2) { int i = vp_pick(NS, "i"); if (op == 1) { w.c[i].block(); if (w.up(i)) w.blk[i] = true; vp_cover(1); } else { w.c[i].unblock(); if (w.up(i)) w.blk[i] = false; vp_cover(2); } }
    else if (op == 3) { int a = vp_pick(NB, "a"), i = vp_pick(NS, "i"); if (w.up(i)) w.blk[i] = true; w.unb(a); *w.b[a] = w.c[i].blocker(); w.tgt[a] = i; vp_cover(3); }
    else if (op == 4) { int a = vp_pick(NB, "a"), b = vp_pick(NB, "b"); if (a == b) break; w.unb(a); *w.b[a] = std::move(*w.b[b]); w.tgt[a] = w.tgt[b]; w.tgt[b] = -1; vp_cover(4); }
    else if (op == 5) { int a = vp_pick(NB, "a"), b = vp_pick(NB, "b"); if (a > b) break; if (vp_pick(2, "how")) w.b[a]->swap(*w.b[b]); else { using std::swap; swap(*w.b[a], *w.b[b]); } std::swap(w.tgt[a], w.tgt[b]); vp_cover(5); }
    else if (op == 6) { int a = vp_pick(NB, "a"); delete w.b[a]; w.unb(a); w.b[a] = new sig::connection_blocker; vp_cover(6); }
    else if (op == 7) { int a = vp_pick(NB, "a"); { auto* nb = new sig::connection_blocker(std::move(*w.b[a])); delete w.b[a]; w.b[a] = nb; } vp_cover(7); }   // move construction, source destroyed: nothing changes
    else if (op == 8) { int i = vp_pick(NS, "i"); bool e = w.up(i); VP_ASSERT(w.c[i].disconnect() == e, "a blocked slot can be disconnected"); if (e) w.drop(i); vp_cover(8); }
    else if (op == 9) { if (!w.alive) break; delete w.s; w.alive = false; vp_cover(9); }
    else { w.emit(); vp_cover(10); }
    w.check();
  }
  w.emit(); 
  { sig::connection_blocker tmp = w.c[0].blocker(); if (w.up(0)) { VP_ASSERT(w.c[0].blocked(), "blocker blocks"); TR.clear(); (*w.s)(1); for (int j = 0; j < TR.n; ++j) VP_ASSERT(TR.id[j] != 0, "blocked by a blocker"); } }
  if (w.up(0)) { w.blk[0] = false; } w.check(); w.emit();
}
// scoped blockers on a scoped connection and through a copy; blocked state is per slot, not per handle
void misc() {
  TR.clear(); sig::signal<int(int)> s; sig::signal<int(int)> s2; auto sc = s.connect_scoped(Fn<int>{0, 1, 10}); sig::connection cp = sc; auto o = s2.connect(Fn<int>{1, 1, 11});
  bool bl = vp_flag("bl"); if (bl) cp.block(); VP_ASSERT(sc.blocked() == bl && cp.blocked() == bl && !o.blocked(), "all handles of a slot agree, another signal's slot is not affected");
  auto r = s(1); VP_ASSERT(bool(r) == !bl && sc.connected(), "blocked scoped slot"); auto r2 = s2(1); VP_ASSERT(r2 && *r2 == 11, "other signal"); sig::connection d; d.block(); d.unblock(); { auto b = d.blocker(); } VP_ASSERT(!d.blocked(), "default connection is inert"); vp_cover(1);
}
// blocking again and again: one unblock always suffices, and blockers come and go
template <class R> void repeat(int n) {
  TR.clear(); sig::signal<R(int)> s; auto c = s.connect(Fn<R>{0, 0, 1}); auto d = s.connect(Fn<R>{1, 1, 2}); sig::connection e = c; int how = vp_pick(3, "how");
  for (int i = 0; i < n; ++i) { if (how == 0) (i & 1 ? c : e).block(); else if (how == 1) { c.block(); e.unblock(); } else { auto b = c.blocker(); VP_ASSERT(c.blocked(), "a blocker blocks"); TR.clear(); s(1); VP_ASSERT(TR.n == 1 && TR.id[0] == 1, "silenced"); } }
  VP_ASSERT(c.blocked() == (how == 0) && !d.blocked() && c.connected(), "the last blocking action decides"); TR.clear(); s(1); VP_ASSERT(TR.n == 1 + (how != 0), "emission"); for (int i = 0; i < (how == 1 ? n : 1); ++i) e.unblock(); VP_ASSERT(!c.blocked() && !e.blocked(), "unblocked"); TR.clear(); s(1); VP_ASSERT(TR.n == 2 && TR.id[0] == 0, "runs again at its place"); c.block(); VP_ASSERT(c.blocked(), "can be blocked again"); TR.clear(); s(1); VP_ASSERT(TR.n == 1, "silenced again"); vp_cover(1);
}
}
extern "C" void c05_void() { machine<void>(Q(3, 4)); }
extern "C" void c05_int() { machine<int>(Q(3, 4)); }
extern "C" void c05_misc() { misc(); }
extern "C" void c05_repeat() { if (vp_pick(2, "r")) repeat<void>(Q(260, 600)); else repeat<int>(Q(260, 600)); }
// past every 16-bit count
namespace {
void wrap() {
  int n = 0, ret = vp_int("ret"); sig::signal<int()> s; auto c = s.connect([&n, ret] { ++n; return ret; }); int how = vp_pick(4, "how"); const int T = 65536; sig::connection_blocker b;
  for (int k = 0; k < T; ++k) { vp_cover(255); if (how == 0) c.block(); else if (how == 1) b = c.blocker(); else if (how == 2) { sig::connection_blocker x = c.blocker(); } else { c.unblock(); } }
  bool blk = how == 0 || how == 1; if (how == 1) { c.block(); } auto r = s(); VP_ASSERT(c.blocked() == blk && n == !blk && c.connected() && bool(r) == !blk, "the last blocking action decides");
  c.unblock(); VP_ASSERT(!c.blocked(), "unblocked"); r = s(); VP_ASSERT(r && *r == ret, "runs again"); c.block(); VP_ASSERT(c.blocked() && !s(), "and can be blocked again"); vp_cover(1);
}
}
extern "C" void c05_wrap() { wrap(); }
// operations made outside emissions and by slots while the signal is emitting
namespace { const int in_ops[] = {inem::STOP, inem::BLOCK, inem::UNBLOCK, inem::BL_MAKE, inem::BL_END, inem::DISC, inem::CONNECT, inem::EMIT}; }
extern "C" void c05_in_void() { inem::run<void>(inem::conf(in_ops, inem::K_ALL, 3, 0, Q(2, 3))); }
extern "C" void c05_in_int() { inem::run<int>(inem::conf(in_ops, inem::K_ALL, 2, Q(1, 2), 2)); }
// longer sequences of fewer kinds of operation
namespace { const int seq_seq_void[] = {inem::STOP, inem::BL_MAKE, inem::BL_END, inem::BLOCK, inem::UNBLOCK}; }
extern "C" void c05_seq_void() { inem::run<void>(inem::conf(seq_seq_void, inem::K_FO, 2, Q(3, 4), Q(1, 1))); }
namespace { const int seq_seq_int[] = {inem::STOP, inem::BL_MAKE, inem::BL_END, inem::DISC, inem::EMIT}; }
extern "C" void c05_seq_int() { inem::run<int>(inem::conf(seq_seq_int, inem::K_FO, 2, Q(1, 1), Q(3, 4))); }
