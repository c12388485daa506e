// C13: moving a signal moves its connections.
#include "common.h"
#include "inem.h"
namespace {
template <class R> struct T { int id = 0; int ret = 0; R call(int x) { TR.add(id, x); return mk<R>(ret); } };
const int NS = 10;
template <class R> struct W {
  using S = sig::signal<R(int)>; S* sg[3] = {nullptr, nullptr, nullptr}; int ord[3][NS], m[3] = {0, 0, 0}; int ns = 0; int home[NS]; bool blk[NS]; int ret[NS]; T<R> t[NS]; std::shared_ptr<T<R>> sp[NS]; sig::connection c[NS]; uint8_t key[NS];
  ~W() { for (auto* x : sg) delete x; }
  void add(int g, int kind) { int i = ns++; home[i] = g; blk[i] = false; ret[i] = vp_int("ret"); key[i] = (uint8_t)i; ord[g][m[g]++] = i; if (kind == 0) c[i] = sg[g]->connect(Fn<R>{i, key[i], ret[i]}); else if (kind == 1) { t[i].id = i; t[i].ret = ret[i]; c[i] = sg[g]->connect(&T<R>::call, &t[i]); } else { sp[i] = std::make_shared<T<R>>(); sp[i]->id = i; sp[i]->ret = ret[i]; c[i] = sg[g]->connect(&T<R>::call, sp[i]); } }
  void rem(int i) { int g = home[i]; home[i] = -1; int p = 0; while (ord[g][p] != i) ++p; ord[g][p] = ord[g][--m[g]]; }
  void moved(int from, int to) { for (int i = 0; i < m[to]; ++i) home[ord[to][i]] = -1; m[to] = m[from]; for (int i = 0; i < m[from]; ++i) { ord[to][i] = ord[from][i]; home[ord[to][i]] = to; } m[from] = 0; }
  void check(int g) {
    if (!sg[g]) return; TR.clear(); int x = vp_int("x"); auto r = (*sg[g])(x); int j = 0, last = -1;
    for (int i = 0; i < m[g]; ++i) if (!blk[ord[g][i]]) { VP_ASSERT(j < TR.n && TR.id[j] == ord[g][i] && TR.arg[j] == x, "the same slots in the same order, blocked states kept"); last = ord[g][i]; ++j; }
    VP_ASSERT(TR.n == j, "no other slot"); VP_ASSERT(res_is(r, last >= 0, last >= 0 ? ret[last] : 0), "result"); vp_log(TR.n);
  }
  void check_all() { for (int g = 0; g < 3; ++g) check(g); for (int i = 0; i < ns; ++i) { VP_ASSERT(c[i].connected() == (home[i] >= 0), "every connection keeps reporting the truth"); if (home[i] >= 0) VP_ASSERT(c[i].blocked() == blk[i], "blocked state kept"); } }
};
template <class R> void machine(int maxa, int maxb, int steps) {
  TR.clear(); int64_t l0 = base_live();
  {
    W<R> w; w.sg[0] = new sig::signal<R(int)>; w.sg[1] = new sig::signal<R(int)>; int rot = vp_pick(3, "rot"), na = vp_pick(maxa + 1, "na"), nb = vp_pick(maxb + 1, "nb"); for (int i = 0; i < na; ++i) w.add(0, (rot + i) % 3); for (int i = 0; i < nb; ++i) w.add(1, (rot + i) % 3);
    if (na > 1 && vp_pick(2, "b0")) { w.c[0].block(); w.blk[0] = true; }
    for (int k = 0; k < steps; ++k) {
      int op = vp_pick(7, "op"); if (op == 0) break;
      if (op == 1) { int f = vp_pick(3, "f"); int t = 0; while (t < 3 && w.sg[t]) ++t; if (t > 2 || !w.sg[f]) break; w.sg[t] = new sig::signal<R(int)>(std::move(*w.sg[f])); w.moved(f, t); vp_cover(1); }
      else if (op == 2) { int f = vp_pick(3, "f"), t = vp_pick(3, "t"); if (f == t || !w.sg[f] || !w.sg[t]) break; *w.sg[t] = std::move(*w.sg[f]); w.moved(f, t); vp_cover(2); }
      else if (op == 3) { int g = vp_pick(3, "g"); if (!w.sg[g]) break; delete w.sg[g]; w.sg[g] = nullptr; for (int i = 0; i < w.m[g]; ++i) w.home[w.ord[g][i]] = -1; w.m[g] = 0; vp_cover(3); }
      else if (op == 4) { int g = vp_pick(3, "g"); if (!w.sg[g] || w.ns >= NS) break; w.add(g, 0); vp_cover(4); }
      else { if (!w.ns) break; int i = vp_pick(w.ns, "i"); if (op == 5) { bool e = w.home[i] >= 0; VP_ASSERT(w.c[i].disconnect() == e, "a connection disconnects on the signal that has its slot now"); if (e) w.rem(i); vp_cover(e ? 5 : 6); } else { w.c[i].block(); if (w.home[i] >= 0) w.blk[i] = true; vp_cover(7); } }
      for (int i = 0; i < w.ns; ++i) VP_ASSERT(w.c[i].connected() == (w.home[i] >= 0), "connections tell the truth after every step");
    }
    w.check_all();
    for (int g = 0; g < 3; ++g) if (w.sg[g]) { for (int i = 0; i < w.ns; ++i) { bool e = w.home[i] == g && !w.sp[i] && w.t[i].id != i; if (w.home[i] == g && w.t[i].id == 0 && !w.sp[i] && e) { VP_ASSERT(w.sg[g]->disconnect(Fn<R>{0, w.key[i], 0}) == 1, "disconnect by callable on the new home"); w.rem(i); break; } } }
    w.check_all();
    for (int i = 0; i < w.ns; ++i) { bool e = w.home[i] >= 0; VP_ASSERT(w.c[i].disconnect() == e, "every connection works on the destination"); if (e) w.rem(i); } w.check_all();
    for (int g = 0; g < 3; ++g) if (w.sg[g] && w.ns < NS) { w.add(g, 0); w.check(g); vp_cover(8); }
  }
  VP_ASSERT(vp_live() == l0, "nothing leaked");
}
// scoped connections and blockers follow the move too
template <class R> void handles() {
  TR.clear(); int64_t l0 = base_live();
  {
    auto* a = new sig::signal<R(int)>; auto* sc = new sig::scoped_connection(a->connect_scoped(Fn<R>{0, 0, 1})); auto c1 = a->connect(Fn<R>{1, 1, 2}); auto* bl = new sig::connection_blocker(c1.blocker()); sig::signal<R(int)> b; auto cb = b.connect(Fn<R>{2, 2, 3}); bool early = vp_pick(2, "early"), assign = vp_pick(2, "assign"), first = vp_pick(2, "first"); sig::signal<R(int)>* d = &b; sig::signal<R(int)>* own = nullptr; if (assign) b = std::move(*a); else d = own = new sig::signal<R(int)>(std::move(*a)); if (early) { delete a; a = nullptr; }
    VP_ASSERT(cb.connected() == !assign, "slots of an assigned-over signal are disconnected"); TR.clear(); (*d)(1); VP_ASSERT(TR.n == 1 && TR.id[0] == 0, "blocked state moved"); if (first) { delete bl; TR.clear(); (*d)(1); VP_ASSERT(TR.n == 2, "blocker unblocks on the destination"); delete sc; } else { delete sc; TR.clear(); (*d)(1); VP_ASSERT(TR.n == 0, "scoped connection disconnects on the destination"); delete bl; } TR.clear(); (*d)(1); VP_ASSERT(TR.n == 1 && TR.id[0] == 1, "remaining slot"); if (!assign) { TR.clear(); b(1); VP_ASSERT(TR.n == 1 && TR.id[0] == 2, "bystander"); } delete own; delete a; VP_ASSERT(c1.connected() == assign, "follows the destination's life"); vp_cover(1);
  }
  VP_ASSERT(vp_live() == l0, "nothing leaked");
}
// a large signal moves as a whole
void large() {
  const int sizes[] = {17, 40, 130}; int n = sizes[vp_pick(3, "size")]; static sig::connection c[140]; BT.clear();
  {
    auto* a = new sig::signal<int(int)>; for (int i = 0; i < n; ++i) c[i] = a->connect(BFn<int>{i, i, i}); c[2].block(); sig::signal<int(int)> b; auto ob = b.connect(BFn<int>{200, 200, 0}); int how = vp_pick(3, "how"); bool kill = vp_pick(2, "kill"); sig::signal<int(int)>* d = &b; sig::signal<int(int)>* own = nullptr; if (how == 0) b = std::move(*a); else if (how == 1) d = own = new sig::signal<int(int)>(std::move(*a)); else { using std::swap; swap(b, *a); }
    if (how != 2) { BT.clear(); (*a)(1); VP_ASSERT(BT.n == 0, "the source is empty"); } if (kill) { delete a; a = nullptr; } BT.clear(); (*d)(1); VP_ASSERT(BT.n == n - 1, "all slots moved"); for (int j = 0; j < BT.n; ++j) VP_ASSERT(BT.id[j] == (j < 2 ? j : j + 1), "in order"); VP_ASSERT(ob.connected() == (how == 1 || (how == 2 && !kill)), "slots of the destination");
    for (int i = 0; i < n; ++i) VP_ASSERT(c[i].connected() && c[i].blocked() == (i == 2), "states moved"); VP_ASSERT(d->disconnect(BFn<int>{0, 5, 0}) == 1, "by callable"); for (int i = 0; i < n; ++i) VP_ASSERT(c[i].disconnect() == (i != 5), "connections work on the destination"); BT.clear(); (*d)(1); VP_ASSERT(BT.n == 0, "empty"); delete own; delete a; vp_cover(1);
  }
  for (auto& x : c) x = sig::connection();
}
}
extern "C" void c13_void() { machine<void>(Q(2, 3), Q(1, 2), Q(3, 4)); }
extern "C" void c13_int() { machine<int>(Q(3, 3), Q(2, 2), Q(2, 4)); }
extern "C" void c13_handles() { if (vp_pick(2, "r")) handles<void>(); else handles<int>(); }
extern "C" void c13_large() { large(); }
// tracked objects that expire before, between or after moves: their connections stay safe to use on the new home, with the old one gone
namespace {
template <class R> void expired() {
  TR.clear(); int64_t l0 = base_live();
  {
    using S = sig::signal<R(int)>; auto* a = new S; auto* b = new S; sig::connection c[5]; std::shared_ptr<T<R>> sp = std::make_shared<T<R>>(), sq = std::make_shared<T<R>>(); sp->id = 1; sq->id = 4;
    int pos = vp_pick(3, "pos"); bool gone = false; auto drop = [&] { sp.reset(); gone = true; };
    for (int i = 0; i < 3; ++i) if (i == pos) c[1] = a->connect(&T<R>::call, sp); else { int k = i == (pos + 1) % 3 ? 0 : 2; c[k] = a->connect(Fn<R>{k, (uint8_t)k, 0}); }
    c[3] = b->connect(Fn<R>{3, 3, 0}); c[4] = b->connect(&T<R>::call, sq); int when = vp_pick(5, "when"), how = vp_pick(3, "how"); bool blk = vp_pick(2, "blk"); if (blk) c[1].block(); bool q = vp_pick(2, "q"); if (q) sq.reset();
    if (when == 0) drop(); bool emit = vp_pick(2, "emit"); if (emit) (*a)(1);
    S* d; if (how == 0) { d = new S(std::move(*a)); } else { *b = std::move(*a); d = b; if (how == 2) { S t(std::move(*b)); if (when == 1) drop(); *b = std::move(t); } }
    if (when == 1 && !gone) drop(); if (vp_pick(2, "reuse")) { auto x = a->connect(Fn<R>{9, 9, 0}); } delete a; a = nullptr; if (when == 2) drop(); vp_cover(1 + when);
    VP_ASSERT(c[4].connected() == (how == 0 && !q) && c[3].connected() == (how == 0), "the destination's own slots"); VP_ASSERT(c[0].connected() && c[2].connected() && c[1].connected() == !gone, "connections follow the slots");
    auto ask = [&](bool t, bool z) { TR.clear(); (*d)(2); bool seen[10] = {}; for (int j = 0; j < TR.n; ++j) { VP_ASSERT(!seen[TR.id[j]], "twice"); seen[TR.id[j]] = true; } VP_ASSERT(seen[1] == t && seen[0] == z && seen[2] && !seen[3] && !seen[4] && !seen[9], "exactly the living slots run on the destination"); };
    int order = vp_pick(3, "order"); if (order == 0) ask(!gone && !blk, true); if (when == 3) drop();
    if (order == 2) { VP_ASSERT(c[0].disconnect() && !c[0].connected(), "disconnect on the destination"); }
    bool was = !gone; VP_ASSERT(c[1].disconnect() == was, "true exactly if it ended a live connection"); VP_ASSERT(!c[1].connected() && !c[1].disconnect(), "ended"); 
    if (order != 2) { if (vp_pick(2, "key")) VP_ASSERT(d->disconnect(Fn<R>{0, 0, 0}) == 1, "by callable"); else VP_ASSERT(c[0].disconnect(), "disconnect on the destination"); }
    ask(false, false); if (when == 4 && !gone) drop(); VP_ASSERT(c[4].disconnect() == (how == 0 && !q), "bystander"); if (how == 0) delete b; delete d; for (auto& x : c) { VP_ASSERT(!x.connected() && !x.disconnect(), "inert"); x.block(); x.unblock(); }
  }
  VP_ASSERT(vp_live() == l0, "nothing leaked");
}
}
extern "C" void c13_expired_void() { expired<void>(); }
extern "C" void c13_expired_int() { expired<int>(); }
// past every 16-bit count
extern "C" void c13_wrap() {
  int how = vp_pick(2, "how"), n = 0; const int T = 65600; using S = sig::signal<void()>; S a, b; auto c = a.connect([&] { ++n; }); auto d = a.connect([&] { n += 1000; });
  for (int k = 0; k < T; ++k) { vp_cover(255); if (how == 0) { b = std::move(a); a = std::move(b); } else { S t(std::move(a)); a = std::move(t); } }
  a(); VP_ASSERT(n == 1001 && c.connected() && d.connected(), "the slots came along every time"); b(); VP_ASSERT(n == 1001, "and left the other"); VP_ASSERT(c.disconnect() && !c.connected(), "the connection works"); n = 0; a(); VP_ASSERT(n == 1000, "disconnected"); vp_cover(1);
}
// operations made outside emissions and by slots while the signal is emitting
namespace { const int in_ops[] = {inem::STOP, inem::MOVE_OUT, inem::ASSIGN_EMPTY, inem::ASSIGN_FROM, inem::DISC, inem::BLOCK, inem::UNBLOCK, inem::CONNECT, inem::EMIT, inem::ERASE}; }
extern "C" void c13_in_void() { inem::run<void>(inem::conf(in_ops, inem::K_PLAIN, 2, 0, Q(2, 3))); }
extern "C" void c13_in_int() { inem::run<int>(inem::conf(in_ops, inem::K_PLAIN, 2, Q(1, 2), 2)); }
// longer sequences of fewer kinds of operation
namespace { const int seq_seq_void[] = {inem::STOP, inem::MOVE_OUT, inem::ASSIGN_FROM, inem::CONNECT, inem::DISC}; }
extern "C" void c13_seq_void() { inem::run<void>(inem::conf(seq_seq_void, inem::K_FO, 2, Q(3, 4), Q(1, 1))); }
namespace { const int seq_seq_int[] = {inem::STOP, inem::MOVE_OUT, inem::ASSIGN_EMPTY, inem::CONNECT, inem::EMIT}; }
extern "C" void c13_seq_int() { inem::run<int>(inem::conf(seq_seq_int, inem::K_FO, 2, Q(0, 1), Q(5, 5))); }
