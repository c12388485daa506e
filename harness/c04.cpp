// C04: a connection truthfully reports and ends exactly its own slot's connection.
#include "common.h"
#include "inem.h"
namespace {
const int NS = 5, NH = Q(2, 3);
template <class R> struct W {
  sig::signal<R(int)>* s = new sig::signal<R(int)>; bool alive = true; int ns = 0; bool conn[NS] = {}, expired[NS] = {}; uint8_t key[NS] = {}; int kind[NS] = {}; std::shared_ptr<Target<R>> sp[NS]; Target<R> t[NS];
  sig::connection h[NH]; int tgt[NH];   // the handles under test and the slots they refer to
  sig::connection orig[NS];             // one untouched copy per slot, only queried
  W() { for (int& x : tgt) x = -1; }
  ~W() { if (alive) delete s; }
  void make(int kd, int hi) {
    int i = ns++; kind[i] = kd; conn[i] = true; sig::connection c;
    if (kd == 0) { key[i] = sym8("key"); c = s->connect(Fn<R>{i, key[i], i}); }
    else if (kd == 1) { sp[i] = std::make_shared<Target<R>>(); sp[i]->id = i; c = s->connect(&Target<R>::call, sp[i]); }
    else { t[i].id = i; c = s->connect(&Target<R>::call, &t[i]); }
    orig[i] = c; h[hi] = std::move(c); tgt[hi] = i; VP_ASSERT(!c.connected() && !c.disconnect() && !c.blocked(), "a moved-from connection is inert");
  }
  bool up(int i) const { return i >= 0 && conn[i] && !expired[i] && alive; }
  void check() {
    for (int k = 0; k < NH; ++k) VP_ASSERT(h[k].connected() == up(tgt[k]), "connected() tells the truth for every handle");
    for (int i = 0; i < ns; ++i) VP_ASSERT(orig[i].connected() == up(i), "connected() tells the truth for every slot");
  }
  void emit() {
    if (!alive) return;
    TR.clear(); (*s)(1); bool seen[NS] = {};
    for (int j = 0; j < TR.n; ++j) { VP_ASSERT(TR.id[j] >= 0 && TR.id[j] < ns && !seen[TR.id[j]], "invoked once"); seen[TR.id[j]] = true; }
    for (int i = 0; i < ns; ++i) VP_ASSERT(seen[i] == up(i), "exactly the connected slots are invoked"); vp_log(TR.n);
  }
};
template <class R> void machine(int steps) {
  TR.clear(); W<R> w; int k0 = vp_pick(3, "k0"); w.make(k0, 0); w.make((k0 + 1) % 3, 1);
  for (int k = 0; k < steps; ++k) {
    int op = vp_pick(12, "op"); if (op == 0) break;
    if (op == 1) { if (w.ns >= NS || !w.alive) break; w.make(0, vp_pick(NH, "hi")); vp_cover(1); }
    else if (op == 2) { int a = vp_pick(NH, "a"), b = vp_pick(NH, "b"); w.h[a] = w.h[b]; w.tgt[a] = w.tgt[b]; vp_cover(2); }
    else if (op == 3) { int a = vp_pick(NH, "a"), b = vp_pick(NH, "b"); if (a == b) break; w.h[a] = std::move(w.h[b]); w.tgt[a] = w.tgt[b]; w.tgt[b] = -1; vp_cover(3); }
    else if (op == 4) { int a = vp_pick(NH, "a"), b = vp_pick(NH, "b"); if (a > b) break; int how = vp_pick(2, "how"); if (how) w.h[a].swap(w.h[b]); else { using std::swap; swap(w.h[a], w.h[b]); } std::swap(w.tgt[a], w.tgt[b]); vp_cover(4); }
    else if (op == 5) { int a = vp_pick(NH, "a"); int t = w.tgt[a]; bool u = w.up(t); VP_ASSERT(w.h[a].disconnect() == u, "disconnect() is true exactly when it ended a live connection"); if (t >= 0) w.conn[t] = false; w.check(); VP_ASSERT(!w.h[a].disconnect(), "a second disconnect returns false"); vp_cover(u ? 5 : 6); }
    else if (op == 6) { if (!w.alive) break; uint8_t q = sym8("q"); size_t e = 0; for (int i = 0; i < w.ns; ++i) if (w.kind[i] == 0 && w.conn[i] && w.key[i] == q) { w.conn[i] = false; ++e; } VP_ASSERT(w.s->disconnect(Fn<R>{-1, q, 0}) == e, "removed by callable"); if (e) vp_cover(7); }
    else if (op == 7) { int a = vp_pick(NH, "a"); int t = w.tgt[a]; { sig::scoped_connection sc(w.h[a]); VP_ASSERT(sc.connected() == w.up(t), "scoped copy reports the same"); } if (t >= 0) w.conn[t] = false; vp_cover(8); }
    else if (op == 8) { int i = vp_pick(w.ns, "i"); if (!w.sp[i]) break; w.sp[i].reset(); w.expired[i] = true; vp_cover(9); }
    else if (op == 9) { if (!w.alive) break; delete w.s; w.alive = false; vp_cover(10); }
    else if (op == 10) { int a = vp_pick(NH, "a"); { sig::connection c2(w.h[a]); sig::connection c3(std::move(c2)); VP_ASSERT(!c2.connected() && c3.connected() == w.up(w.tgt[a]), "copy and move construction"); { sig::connection c4(w.h[a]); sig::scoped_connection s4(std::move(c4)); VP_ASSERT(!c4.connected() && !c4.valid() && s4.connected() == w.up(w.tgt[a]), "moved into a scoped connection"); s4.release(); } w.h[a] = sig::connection(); w.tgt[a] = -1; } vp_cover(11); }
    else { w.emit(); vp_cover(12); }
    w.check();
  }
  w.emit(); w.check();
}
// many copies of one connection agree, and exactly one of them ends it
void copies(int n) {
  sig::signal<int(int)> s; auto o = s.connect(Fn<int>{1, 1, 1}); auto c = s.connect(Fn<int>{0, 0, 0}); static sig::connection h[600]; for (int i = 0; i < n; ++i) { if (i % 3 == 0) h[i] = c; else if (i % 3 == 1) h[i] = h[i - 1]; else { sig::connection t(h[i - 2]); h[i] = std::move(t); } }
  bool blk = vp_flag("blk"); if (blk) h[n / 2].block(); for (int i = 0; i < n; ++i) VP_ASSERT(h[i].connected() && h[i].blocked() == blk, "all copies agree"); int w = vp_pick(3, "w"); int k = w == 0 ? 0 : w == 1 ? n - 1 : n / 2; VP_ASSERT(h[k].disconnect(), "ended by one");
  for (int i = 0; i < n; ++i) VP_ASSERT(!h[i].connected() && !h[i].disconnect(), "and known to all"); VP_ASSERT(o.connected(), "others unaffected"); for (int i = 0; i < n; ++i) h[i] = o; for (int i = 0; i < n; ++i) h[i] = sig::connection(); VP_ASSERT(o.connected(), "dropping connections disconnects nothing"); TR.clear(); s(1); VP_ASSERT(TR.n == 1 && TR.id[0] == 1, "emission"); vp_cover(1);
}
}
extern "C" void c04_void() { machine<void>(Q(3, 4)); }
extern "C" void c04_int() { machine<int>(Q(2, 3)); }
extern "C" void c04_copies() { copies(Q(300, 600)); }
// past every 16-bit count
extern "C" void c04_wrap() {
  int how = vp_pick(3, "how"), n = 0; const int T = 65600; sig::signal<void()> s; auto o = s.connect([&] { n += 100; }); auto c = s.connect([&] { ++n; }); sig::connection* h = new sig::connection[T];
  for (int k = 0; k < T; ++k) { vp_cover(255); if (how == 0) h[k] = c; else if (how == 1) { VP_ASSERT(c.connected(), "connected"); } else { sig::connection x(c); VP_ASSERT(x.connected(), "connected"); } }
  s(); VP_ASSERT(n == 101 && c.connected(), "connected"); VP_ASSERT((how == 0 ? h[T - 1] : c).disconnect(), "ended"); VP_ASSERT(!c.connected() && !c.disconnect() && !h[0].connected() && !h[T - 1].connected() && !h[32768].disconnect(), "known to all");
  for (int k = 0; k < T; ++k) { vp_cover(255); VP_ASSERT(!c.disconnect(), "it stays ended"); } n = 0; s(); VP_ASSERT(n == 100 && o.connected(), "the other is unaffected"); delete[] h; VP_ASSERT(o.disconnect(), "ended"); vp_cover(1);
}
// operations made outside emissions and by slots while the signal is emitting
namespace { const int in_ops[] = {inem::STOP, inem::DISC, inem::ERASE, inem::SC_OWN, inem::EXPIRE, inem::DELETE, inem::ASSIGN_EMPTY, inem::BLOCK, inem::EMIT}; }
extern "C" void c04_in_void() { inem::run<void>(inem::conf(in_ops, inem::K_ALL, 3, 0, Q(2, 3))); }
extern "C" void c04_in_int() { inem::run<int>(inem::conf(in_ops, inem::K_ALL, 2, Q(1, 2), 2)); }
// longer sequences of fewer kinds of operation
namespace { const int seq_seq_void[] = {inem::STOP, inem::DISC, inem::ERASE, inem::SC_OWN, inem::CONNECT}; }
extern "C" void c04_seq_void() { inem::run<void>(inem::conf(seq_seq_void, inem::K_FO, 2, Q(3, 4), Q(1, 1))); }
namespace { const int seq_seq_int[] = {inem::STOP, inem::DISC, inem::EXPIRE, inem::CONNECT, inem::EMIT}; }
extern "C" void c04_seq_int() { inem::run<int>(inem::conf(seq_seq_int, inem::K_TRACKED, 2, Q(1, 1), Q(3, 4))); }
