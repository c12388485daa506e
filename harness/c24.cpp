// C24: callables are destroyed promptly, exactly once, and may reenter the signal.
#include "common.h"
#include "inem.h"
namespace {
const int MS = 12;
int live[MS], total; bool armed[MS]; int running[MS];
enum { A_NONE, A_EMIT, A_CONNECT, A_DISC, A_ERASE, A_BLOCK, A_QUERY, A_SCOPED, A_DISCSELF, NACT };
template <class R> struct World;
template <class R> World<R>* G;
template <class R> struct F {
  int id; uint8_t key; int tag = 0x5a5a; F(int i, uint8_t k) : id(i), key(k) { up(); } F(const F& o) : id(o.id), key(o.key) { VP_ASSERT(o.tag == 0x5a5a, "copied from a live callable"); up(); } F(F&& o) : id(o.id), key(o.key) { up(); }
  void up() { if (id >= 0) ++live[id]; ++total; }
  ~F();
  R operator()(int x);
  bool operator==(const F& o) const { return key == o.key; }
};
template <class R> struct World {
  sig::signal<R(int)>* s = new sig::signal<R(int)>; sig::connection c[MS]; int ns = 0; int act = A_NONE, arg = 0, who = -1; bool conn[MS] = {}, blk[MS] = {}; int fired = 0; int ord[MS], m = 0; sig::scoped_connection* own = nullptr; bool alive = true; int inact = 0, iwho = -1, iarg = 0; bool idone = false;
  int add(uint8_t k) { int i = ns++; c[i] = s->connect(F<R>(i, k)); conn[i] = true; ord[m++] = i; return i; }
  void mrem(int i) { if (!conn[i]) return; conn[i] = false; int p = 0; while (ord[p] != i) ++p; ord[p] = ord[--m]; }
  // what the destructor of slot `who`'s callable does
  void act_real() {
    ++fired;
    switch (act) {
      case A_EMIT: (*s)(5); break; case A_CONNECT: { int i = ns++; c[i] = s->connect(F<R>(i, 90)); conn[i] = true; ord[m++] = i; break; } case A_DISC: VP_ASSERT(c[arg].disconnect() == conn[arg], "disconnect inside a callable's destructor"); mrem(arg); break;
      case A_ERASE: { auto n = s->disconnect(F<R>(-1, (uint8_t)(arg + 1))); VP_ASSERT(n == (conn[arg] ? 1u : 0u), "disconnect by callable inside a callable's destructor"); mrem(arg); break; } case A_BLOCK: c[arg].block(); if (conn[arg]) blk[arg] = true; break;
      case A_QUERY: VP_ASSERT(c[arg].connected() == conn[arg] || !alive, "query inside a callable's destructor"); break; case A_SCOPED: { delete own; own = nullptr; mrem(arg); break; } case A_DISCSELF: VP_ASSERT(!c[who].connected() && !c[who].disconnect(), "a slot whose callable is being destroyed is disconnected"); break;
    }
  }
};
template <class R> F<R>::~F() {
  VP_ASSERT(tag == 0x5a5a, "a callable is destroyed exactly once"); tag = 0; int i = id; --total; if (i < 0) return; --live[i]; VP_ASSERT(live[i] >= 0, "a callable is destroyed exactly once"); VP_ASSERT(!running[i] || live[i] > 0, "a callable is not destroyed while it runs");
  if (live[i] == 0 && armed[i]) { armed[i] = false; G<R>->act_real(); }
}
template <class R> R F<R>::operator()(int x) {
  int i = id; VP_ASSERT(tag == 0x5a5a, "a destroyed callable is invoked"); TR.add(i, x); auto& w = *G<R>; ++running[i];
  if (i == w.iwho && !w.idone && x == 1) { w.idone = true; int a = w.iarg; switch (w.inact) { case 1: w.c[a].disconnect(); w.mrem(a); break; case 2: { auto n = w.s->disconnect(F<R>(-1, (uint8_t)(a + 1))); VP_ASSERT(n == (w.conn[a] ? 1u : 0u), "count"); w.mrem(a); break; } case 3: (*w.s)(2); break; case 4: { sig::scoped_connection sc(w.c[a]); } w.mrem(a); break; case 5: { w.c[a].disconnect(); w.mrem(a); (*w.s)(2); break; } } }
  --running[i]; VP_ASSERT(tag == 0x5a5a, "the running callable stays"); return mk<R>(i);
}
template <class R> void reset() { TR.clear(); total = 0; for (int i = 0; i < MS; ++i) { live[i] = 0; armed[i] = false; running[i] = 0; } }
template <class R> void verify(World<R>& w) {
  for (int i = 0; i < w.ns; ++i) VP_ASSERT(live[i] == (w.conn[i] ? 1 : 0), "a connected slot holds one copy of its callable, a disconnected one none");
  for (int i = 0; i < w.ns; ++i) VP_ASSERT(w.c[i].connected() == w.conn[i], "connection state"); TR.clear(); (*w.s)(9); int j = 0; for (int k = 0; k < w.m; ++k) if (!w.blk[w.ord[k]]) { VP_ASSERT(j < TR.n && TR.id[j] == w.ord[k], "remaining slots in order"); ++j; } VP_ASSERT(j == TR.n, "no other slot"); vp_log(TR.n);
}
// end slot `x` in one of several ways; its callable's destructor acts on the signal
enum { T_CONN, T_SCOPED, T_SASSIGN, T_ERASE, T_COPY, T_INEMIT_SELF, T_INEMIT_OTHER, T_INEMIT_ERASE, T_RELEASE, NTRIG };
template <class R> void reenter(int n) {
  reset<R>(); int64_t l0 = base_live();
  {
    World<R> w; G<R> = &w; for (int i = 0; i < n; ++i) w.add((uint8_t)(i + 1)); int x = vp_pick(n, "x"), trig = vp_pick(NTRIG, "trig"); w.who = x; w.act = vp_pick(NACT, "act"); w.arg = w.act == A_DISC || w.act == A_ERASE || w.act == A_BLOCK || w.act == A_QUERY || w.act == A_SCOPED ? (x + 1 + vp_pick(n - 1, "arg")) % n : x; if (w.act == A_SCOPED) w.own = new sig::scoped_connection(w.c[w.arg]); armed[x] = true; vp_cover(1 + trig); vp_cover(20 + w.act);
    bool in = false; auto fire = [&] { w.mrem(x); };
    // model order: the slot leaves the list before its destructor acts
    switch (trig) {
      case T_CONN: fire(); VP_ASSERT(w.c[x].disconnect(), "disconnect"); break; case T_SCOPED: { sig::scoped_connection sc(w.c[x]); fire(); } break; case T_SASSIGN: { sig::scoped_connection sc(w.c[x]); fire(); sc = sig::scoped_connection(); } break;
      case T_ERASE: { fire(); auto k = w.s->disconnect(F<R>(-1, (uint8_t)(x + 1))); VP_ASSERT(k == 1, "removed one"); break; } case T_COPY: { auto d = w.c[x]; fire(); VP_ASSERT(d.disconnect() && !w.c[x].disconnect(), "once"); break; } case T_RELEASE: { sig::scoped_connection sc(w.c[x]); auto r = sc.release(); VP_ASSERT(live[x] == 1, "released"); fire(); r.disconnect(); break; }
      case T_INEMIT_SELF: in = true; w.iwho = x; w.inact = 1; w.iarg = x; break; case T_INEMIT_OTHER: in = true; w.iwho = (x + 1) % n; w.inact = 1; w.iarg = x; break; default: in = true; w.iwho = (x + 1) % n; w.inact = 2; w.iarg = x; break;
    }
    if (in) { (*w.s)(1); VP_ASSERT(live[x] == 0, "destroyed at the latest when the emission has finished"); }
    VP_ASSERT(live[x] == 0 && w.fired == 1, "the disconnected slot's callable is destroyed, once"); verify(w);
    w.c[0].unblock(); for (int i = 0; i < w.ns; ++i) w.blk[i] = false; for (int i = 0; i < w.ns; ++i) w.c[i].unblock(); verify(w); delete w.own; if (w.own) w.mrem(w.arg); delete w.s; for (int i = 0; i < w.ns; ++i) VP_ASSERT(live[i] == 0, "gone with the signal");
  }
  VP_ASSERT(total == 0 && vp_live() == l0, "nothing leaked");
}
// destruction of the signal or assignment over it with destructors that use handles
template <class R> void with_signal(int n) {
  reset<R>(); int64_t l0 = base_live();
  {
    World<R> w; G<R> = &w; for (int i = 0; i < n; ++i) w.add((uint8_t)(i + 1)); int x = vp_pick(n, "x"); static const int acts[] = {A_NONE, A_DISC, A_BLOCK, A_QUERY, A_SCOPED, A_DISCSELF}; w.who = x; w.act = acts[vp_pick(6, "act")]; w.arg = w.act == A_NONE || w.act == A_DISCSELF ? x : (x + 1 + vp_pick(n - 1, "arg")) % n; if (w.act == A_SCOPED) w.own = new sig::scoped_connection(w.c[w.arg]); armed[x] = true; int how = vp_pick(4, "how"); vp_cover(1 + how); vp_cover(20 + w.act);
    for (int i = 0; i < n; ++i) w.conn[i] = false; w.m = 0; w.alive = false; sig::signal<R(int)> other; 
    switch (how) { case 0: delete w.s; w.s = nullptr; break; case 1: *w.s = sig::signal<R(int)>(); break; case 2: { auto d = other.connect([](int x) { TR.add(77, x); return mk<R>(77); }); *w.s = std::move(other); VP_ASSERT(d.connected(), "moved in"); TR.clear(); (*w.s)(1); VP_ASSERT(TR.n == 1 && TR.id[0] == 77, "new content"); break; } case 3: { auto* t = new sig::signal<R(int)>(std::move(*w.s)); w.s->connect([](int x) { TR.add(78, x); return mk<R>(78); }); for (int i = 0; i < n; ++i) VP_ASSERT(live[i] == 1 && w.c[i].connected(), "moved"); delete t; TR.clear(); (*w.s)(1); VP_ASSERT(TR.n == 1 && TR.id[0] == 78, "source reusable"); break; } }
    for (int i = 0; i < n; ++i) VP_ASSERT(live[i] == 0 && !w.c[i].connected() && !w.c[i].disconnect(), "all callables destroyed and handles inert"); VP_ASSERT(w.fired == 1, "destructor ran"); delete w.own; delete w.s;
  }
  VP_ASSERT(total == 0 && vp_live() == l0, "nothing leaked");
}
// histories without reentrant destructors: counts are exact after every operation
template <class R> void history(int steps, int start) {
  reset<R>(); int64_t l0 = base_live();
  {
    World<R> w; G<R> = &w; for (int i = 0; i < start; ++i) w.add((uint8_t)(i + 1)); sig::slot<R(int)> sl(F<R>(-1, 60)); sig::connection_blocker keep; int kept = -1;   // a blocker held from one operation to the next
    for (int st = 0; st < steps; ++st) {
      int op = vp_pick(9, "op"); vp_cover(1 + op);
      switch (op) {
        case 0: if (w.ns < 8) w.add((uint8_t)(w.ns + 1)); break; case 1: { int i = vp_pick(w.ns, "i"); VP_ASSERT(w.c[i].disconnect() == w.conn[i], "disconnect"); w.mrem(i); break; } case 2: { int i = vp_pick(w.ns, "i"); auto n = w.s->disconnect(F<R>(-1, (uint8_t)(i + 1))); VP_ASSERT(n == (w.conn[i] ? 1u : 0u), "erase"); w.mrem(i); break; } case 3: { int i = vp_pick(w.ns, "i"); { sig::scoped_connection sc(w.c[i]); } w.mrem(i); break; }
        case 4: { w.idone = false; w.iwho = w.m ? w.ord[vp_pick(w.m, "iwho")] : -1; w.inact = 1 + vp_pick(5, "inact"); w.iarg = w.inact == 3 ? 0 : vp_pick(w.ns, "iarg"); (*w.s)(1); break; }
        case 5: { int i = vp_pick(w.ns, "i"); bool was = w.conn[i]; keep = w.c[i].blocker(); if (was) w.blk[i] = true; if (kept >= 0) w.blk[kept] = false; kept = i; VP_ASSERT(w.c[i].blocked() == (was && w.blk[i]), "blocker"); break; }
        case 6: { auto* t = new sig::signal<R(int)>(std::move(*w.s)); delete w.s; w.s = t; break; } case 7: { sig::signal<R(int)> t; t = std::move(*w.s); *w.s = std::move(t); break; }
        case 8: { int t0 = total; { auto c = w.s->connect(sl); VP_ASSERT(total == t0 + 1, "a connected slot is one more callable"); c.disconnect(); } VP_ASSERT(total == t0, "destroyed at once"); break; }
      }
      verify(w);
    }
    bool early = vp_pick(2, "early"); if (early) for (auto& c : w.c) c = sig::connection(); delete w.s; for (int i = 0; i < w.ns; ++i) VP_ASSERT(live[i] == 0, "gone with the signal"); VP_ASSERT(total == 1, "only the user's slot is left");
  }
  VP_ASSERT(total == 0 && vp_live() == l0, "nothing leaked");
}
// a callable that owns the scoped connection of its own slot, or of a chain of slots
template <class R> struct Own { std::shared_ptr<sig::scoped_connection> sc; int id; R operator()(int x) { TR.add(id, x); return mk<R>(id); } };
template <class R> void chain(int n) {
  TR.clear(); int64_t l0 = base_live();
  {
    auto* s = new sig::signal<R(int)>; sig::connection c[5]; auto self = std::make_shared<sig::scoped_connection>(); bool own_self = vp_pick(2, "self"); int how = vp_pick(3, "how"); vp_cover(1 + how); std::shared_ptr<sig::scoped_connection> prev;
    for (int i = 0; i < n; ++i) { c[i] = s->connect(Own<R>{prev, i}); prev = std::make_shared<sig::scoped_connection>(c[i]); if (i == 0 && own_self) { auto sc = s->connect(Own<R>{self, 9}); *self = sig::scoped_connection(sc); } } auto hold = prev; prev.reset(); self.reset(); 
    TR.clear(); (*s)(1); VP_ASSERT(TR.n == n + own_self, "all run");
    if (how == 0) { hold.reset(); for (int i = 0; i < n; ++i) VP_ASSERT(!c[i].connected(), "ending the last one ends the chain"); TR.clear(); (*s)(1); VP_ASSERT(TR.n == own_self, "chain gone"); } else if (how == 1) { c[0].disconnect(); TR.clear(); (*s)(1); VP_ASSERT(TR.n == n - 1 + own_self, "only the first"); hold.reset(); TR.clear(); (*s)(1); VP_ASSERT(TR.n == own_self, "rest"); }
    delete s; for (int i = 0; i < n; ++i) VP_ASSERT(!c[i].connected() && !c[i].disconnect(), "inert"); hold.reset();
  }
  VP_ASSERT(vp_live() == l0, "nothing leaked");
}
}
extern "C" void c24_reenter_void() { reenter<void>(Q(3, 4)); }
extern "C" void c24_reenter_int() { reenter<int>(Q(3, 4)); }
extern "C" void c24_signal_void() { with_signal<void>(Q(3, 4)); }
extern "C" void c24_signal_int() { with_signal<int>(Q(3, 4)); }
extern "C" void c24_hist_void() { history<void>(Q(2, 3), Q(3, 3)); }
extern "C" void c24_hist_int() { history<int>(Q(2, 3), Q(2, 3)); }
extern "C" void c24_chain() { if (vp_pick(2, "r")) chain<void>(vp_pick(Q(4, 5), "n") + 1); else chain<Obj>(vp_pick(Q(4, 5), "n") + 1); }
// operations made outside emissions and by slots while the signal is emitting
namespace { const int in_ops[] = {inem::STOP, inem::DISC, inem::ERASE, inem::SC_OWN, inem::SC_END, inem::CONNECT, inem::EMIT, inem::DELETE, inem::ASSIGN_EMPTY, inem::MOVE_OUT, inem::THROW}; }
extern "C" void c24_in_void() { inem::run<void>(inem::conf(in_ops, inem::K_FO, 3, 0, Q(2, 3), true)); }
extern "C" void c24_in_int() { inem::run<int>(inem::conf(in_ops, inem::K_FO, 2, Q(1, 2), 2, true)); }
// longer sequences of fewer kinds of operation
namespace { const int seq_seq_void[] = {inem::STOP, inem::DISC, inem::CONNECT, inem::ERASE, inem::EMIT}; }
extern "C" void c24_seq_void() { inem::run<void>(inem::conf(seq_seq_void, inem::K_FO, 2, Q(0, 0), Q(4, 5), true)); }
namespace { const int seq_seq_int[] = {inem::STOP, inem::SC_OWN, inem::SC_END, inem::CONNECT, inem::EMIT}; }
extern "C" void c24_seq_int() { inem::run<int>(inem::conf(seq_seq_int, inem::K_FO, 2, Q(1, 1), Q(3, 3), true)); }
namespace { const int dup_void[] = {inem::STOP, inem::ERASE, inem::CONNECT, inem::EMIT, inem::DISC}; }
extern "C" void c24_dup_void() { inem::run<void>(inem::conf(dup_void, inem::K_DUP, 3, Q(0, 1), Q(3, 4), true)); }
