// C06: a scoped connection disconnects its slot exactly when its ownership ends.
#include "common.h"
#include "inem.h"
namespace {
const int NC = Q(2, 3), NS = NC + 1;
template <class R> struct W {
  sig::signal<R(int)>* s = new sig::signal<R(int)>; bool alive = true; sig::connection c[NS]; bool conn[NS]; Target<R> t; std::shared_ptr<Target<R>> sp = std::make_shared<Target<R>>();
  sig::scoped_connection* sc[NC]; int own[NC];
  W() {
    t.id = 1; sp->id = 2; sig::slot<R(int)> sl(Fn<R>{0, 0, 0});
    sc[0] = new sig::scoped_connection(s->connect_scoped(sl)); sc[1] = new sig::scoped_connection(s->connect_scoped(&Target<R>::call, &t)); if (NC > 2) sc[NC - 1] = new sig::scoped_connection(s->connect_scoped(&Target<R>::call, sp));
    for (int i = 0; i < NC; ++i) { own[i] = i; c[i] = *sc[i]; conn[i] = true; }
    c[NC] = s->connect(Fn<R>{NC, 3, 3}); conn[NC] = true;
  }
  ~W() { for (auto* x : sc) delete x; if (alive) delete s; }
  bool up(int i) const { return alive && conn[i]; }
  void end(int k) { if (own[k] >= 0) conn[own[k]] = false; own[k] = -1; }
  void check() { for (int i = 0; i < NS; ++i) VP_ASSERT(c[i].connected() == up(i), "a slot is connected until the ownership ends, and no longer"); for (int k = 0; k < NC; ++k) VP_ASSERT(sc[k]->connected() == (own[k] >= 0 && up(own[k])), "a scoped connection reports its own slot"); }
  void emit() { if (!alive) return; TR.clear(); (*s)(1); bool seen[NS] = {}; for (int j = 0; j < TR.n; ++j) { VP_ASSERT(!seen[TR.id[j]], "once"); seen[TR.id[j]] = true; } for (int i = 0; i < NS; ++i) VP_ASSERT(seen[i] == up(i), "exactly the connected slots are invoked"); vp_log(TR.n); }
};
template <class R> void machine(int steps) {
  TR.clear(); W<R> w; w.check();
  for (int k = 0; k < steps; ++k) {
    int op = vp_pick(11, "op"); if (op == 0) break;
    if (op == 1) { int a = vp_pick(NC, "a"); delete w.sc[a]; w.end(a); w.sc[a] = new sig::scoped_connection; vp_cover(1); }
    else if (op == 2) { int a = vp_pick(NC, "a"), b = vp_pick(NC, "b"); if (a == b) break; w.end(a); *w.sc[a] = std::move(*w.sc[b]); w.own[a] = w.own[b]; w.own[b] = -1; vp_cover(2); }
    else if (op == 3) { int a = vp_pick(NC, "a"); auto* n = new sig::scoped_connection(std::move(*w.sc[a])); VP_ASSERT(!w.sc[a]->connected(), "moved-from owns nothing"); delete w.sc[a]; w.sc[a] = n; vp_cover(3); }
    else if (op == 4) { int a = vp_pick(NC, "a"), b = vp_pick(NC, "b"); if (a > b) break; if (vp_pick(2, "how")) w.sc[a]->swap(*w.sc[b]); else { using std::swap; swap(*w.sc[a], *w.sc[b]); } std::swap(w.own[a], w.own[b]); vp_cover(4); }
    else if (op == 5) { int a = vp_pick(NC, "a"); { sig::connection r = w.sc[a]->release(); VP_ASSERT(r.connected() == (w.own[a] >= 0 && w.up(w.own[a])), "released connection still connected"); } w.own[a] = -1; vp_cover(5); }
    else if (op == 6) { int a = vp_pick(NC, "a"), i = vp_pick(NS, "i"); sig::scoped_connection n(w.c[i]); w.end(a); *w.sc[a] = std::move(n); w.own[a] = i; vp_cover(6); }
    else if (op == 7) { int i = vp_pick(NS, "i"); bool e = w.up(i); VP_ASSERT(w.c[i].disconnect() == e, "explicit disconnect"); w.conn[i] = false; vp_cover(7); }
    else if (op == 8) { int a = vp_pick(NC, "a"); bool e = w.own[a] >= 0 && w.up(w.own[a]); VP_ASSERT(w.sc[a]->disconnect() == e, "disconnect through the scoped connection"); if (w.own[a] >= 0) w.conn[w.own[a]] = false; vp_cover(8); }
    else if (op == 9) { if (!w.alive) break; delete w.s; w.alive = false; vp_cover(9); }
    else { w.emit(); vp_cover(10); }
    w.check();
  }
  w.emit();
  for (int a = 0; a < NC; ++a) { delete w.sc[a]; w.end(a); w.sc[a] = new sig::scoped_connection; w.check(); }
  w.emit(); w.check();
}
// a connection moved into a scoped one (constructed or assigned), from every kind of source: the source is inert from then on
void from_connection() {
  TR.clear(); sig::signal<int(int)> s; auto k = s.connect(Fn<int>{0, 0, 1}); auto o = s.connect(Fn<int>{1, 0, 2});
  { sig::connection a(k); sig::scoped_connection sc; switch (vp_pick(4, "how")) { case 0: { sig::scoped_connection t(std::move(a)); sc = std::move(t); VP_ASSERT(!t.connected() && !t.disconnect() && !t.valid(), "moved-from"); break; } case 1: sc = sig::scoped_connection(std::move(a)); break; case 2: sc = std::move(a); break; default: { sig::scoped_connection t(std::move(a)); sig::connection r = t.release(); VP_ASSERT(!t.connected() && !t.disconnect(), "released"); sc = sig::scoped_connection(std::move(r)); VP_ASSERT(!r.connected() && !r.disconnect(), "moved-from"); } }
    VP_ASSERT(!a.connected() && !a.valid() && !a.blocked() && !a.disconnect(), "a moved-from connection is inert"); a.block(); { auto b = a.blocker(); } VP_ASSERT(k.connected() && sc.connected() && !k.blocked() && !sc.blocked(), "the slot was handed over, not ended");
    sc = sig::scoped_connection(); VP_ASSERT(!k.connected() && o.connected(), "ended when assigned over"); }
  s(1); VP_ASSERT(TR.n == 1 && TR.id[0] == 1, "only the other slot is left"); vp_cover(3);
}
void misc() {
  TR.clear(); sig::signal<int(int)> s; sig::connection k; int v = vp_int("v");
  { auto a = s.connect_scoped(Fn<int>{0, 0, v}); k = a; auto r = s(1); VP_ASSERT(r && *r == v, "connected while in scope"); sig::scoped_connection b(std::move(a)); VP_ASSERT(k.connected() && b.connected() && !a.connected(), "move construction hands over"); sig::scoped_connection c2; c2 = std::move(b); VP_ASSERT(k.connected(), "move assignment hands over"); sig::scoped_connection d(k); VP_ASSERT(k.connected(), "construction from a connection"); auto rel = d.release(); VP_ASSERT(rel.connected(), "release"); { sig::scoped_connection e = sig::scoped_connection(sig::connection()); } VP_ASSERT(k.connected(), "unrelated scoped connection"); vp_cover(1); }
  VP_ASSERT(!k.connected(), "disconnected at the end of the scope"); VP_ASSERT(!s(1), "nothing left"); vp_cover(2);
}
}
extern "C" void c06_void() { machine<void>(Q(3, 4)); }
extern "C" void c06_int() { machine<int>(Q(3, 4)); }
extern "C" void c06_misc() { if (vp_pick(2, "part")) from_connection(); else misc(); }
// operations made outside emissions and by slots while the signal is emitting
namespace { const int in_ops[] = {inem::STOP, inem::SC_OWN, inem::SC_END, inem::SC_RELEASE, inem::DISC, inem::BLOCK, inem::CONNECT, inem::EMIT, inem::DELETE}; }
extern "C" void c06_in_void() { inem::run<void>(inem::conf(in_ops, inem::K_PLAIN, 3, 0, Q(2, 3))); }
extern "C" void c06_in_int() { inem::run<int>(inem::conf(in_ops, inem::K_PLAIN, 2, Q(1, 2), 2)); }
// longer sequences of fewer kinds of operation
namespace { const int seq_seq_void[] = {inem::STOP, inem::SC_OWN, inem::SC_END, inem::SC_RELEASE, inem::CONNECT}; }
extern "C" void c06_seq_void() { inem::run<void>(inem::conf(seq_seq_void, inem::K_FO, 2, Q(3, 4), Q(1, 1))); }
namespace { const int seq_seq_int[] = {inem::STOP, inem::SC_OWN, inem::SC_END, inem::EMIT, inem::DISC}; }
extern "C" void c06_seq_int() { inem::run<int>(inem::conf(seq_seq_int, inem::K_FO, 2, Q(1, 1), Q(3, 3))); }
