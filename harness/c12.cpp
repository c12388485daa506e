// C12: connections outlive their signal safely.
#include "common.h"
#include "inem.h"
namespace {
int born, died;
template <class R> struct F {
  int id; uint8_t key; int ret; bool real; F(int i, uint8_t k, int r) : id(i), key(k), ret(r) { ++born; } F(const F& o) : id(o.id), key(o.key), ret(o.ret) { ++born; } ~F() { ++died; id = -1; }
  R operator()(int x) { TR.add(id, x); return mk<R>(ret); } bool operator==(const F& o) const { return key == o.key; }
};
template <class R> struct T { int id = 0; R call(int x) { TR.add(id, x); return mk<R>(id); } };
// handles made before the destruction, used in any order after it
template <class R> void after(int steps) {
  TR.clear(); born = died = 0; int64_t l0 = base_live();
  {
    auto* s = new sig::signal<R(int)>; T<R> t; auto sp = std::make_shared<T<R>>(); auto sp2 = std::make_shared<T<R>>(); sig::connection c[4]; c[0] = s->connect(F<R>(0, 0, 0)); c[1] = s->connect(&T<R>::call, &t); c[2] = s->connect(&T<R>::call, sp); c[3] = s->connect(F<R>(3, 3, 3));
    auto* sc = new sig::scoped_connection(s->connect_scoped(F<R>(4, 4, 4))); auto* b = new sig::connection_blocker(c[3].blocker()); auto* b2 = new sig::connection_blocker(sc->blocker()); if (vp_pick(2, "d")) c[0].disconnect(); if (vp_pick(2, "e")) (*s)(1);
    delete s; VP_ASSERT(born == died, "every callable is destroyed exactly once with its signal");
    for (int k = 0; k < steps; ++k) {
      int op = vp_pick(12, "op"); if (op == 0) break; int i = op >= 1 && op <= 7 ? vp_pick(4, "i") : 0;
      switch (op) {
      case 1: VP_ASSERT(!c[i].connected(), "not connected"); break; case 2: VP_ASSERT(!c[i].disconnect(), "disconnect returns false"); break; case 3: c[i].block(); break; case 4: c[i].unblock(); break; case 5: { auto x = c[i].blocker(); break; } case 6: { sig::connection d(c[i]); c[i] = std::move(d); break; } case 7: { sig::scoped_connection d(c[i]); VP_ASSERT(!d.connected(), "not connected"); break; }
      case 8: *sc = sig::scoped_connection(); break; case 9: { auto r = sc->release(); VP_ASSERT(!r.connected() && !r.disconnect(), "inert"); break; } case 10: *b = std::move(*b2); break; default: b->swap(*b2); break; }
      vp_cover(op);
    }
    for (auto& x : c) VP_ASSERT(!x.connected() && !x.disconnect() && !x.blocked(), "every connection is inert"); VP_ASSERT(!sc->connected() && !sc->disconnect(), "scoped connection is inert"); delete sc; delete b; delete b2; VP_ASSERT(born == died, "callables destroyed exactly once"); VP_ASSERT(sp.use_count() == 1, "tracked object not kept");
  }
  VP_ASSERT(vp_live() == l0, "nothing leaked");
}
// a slot destroys its signal during an emission
template <class R> void inside() {
  TR.clear(); born = died = 0; int64_t l0 = base_live();
  {
    auto* s = new sig::signal<R(int)>; int n = 4; int who = vp_pick(n, "who"), depth = vp_pick(2, "depth"), use = vp_pick(9, "use"), tgt = vp_pick(n, "tgt"); sig::connection c[4]; sig::scoped_connection sc; auto* bl = new sig::connection_blocker; bool gone = false; auto sp = std::make_shared<T<R>>(); int key = 0;
    for (int i = 0; i < n; ++i) c[i] = s->connect([&, i](int d) {
      TR.add(i, d);
      if (i == who && !gone) {
        if (d < depth) { (*s)(d + 1); }
        else {
          delete s; gone = true; VP_ASSERT(!c[tgt].connected(), "not connected once the signal is destroyed");
          switch (use) { case 0: VP_ASSERT(!c[tgt].disconnect(), "disconnect returns false"); break; case 1: c[tgt].block(); break; case 2: c[tgt].unblock(); break; case 3: { auto x = c[tgt].blocker(); break; } case 4: sc = sig::scoped_connection(); break; case 5: { sig::scoped_connection x(c[tgt]); break; } case 6: *bl = sig::connection_blocker(); break; case 7: { auto x = sc.release(); VP_ASSERT(!x.connected(), "inert"); break; } default: { sig::connection x(c[tgt]); c[0] = x; break; } }
          for (auto& x : c) VP_ASSERT(!x.connected() && !x.disconnect(), "every connection is inert");
        }
      }
      return mk<R>(i); });
    sc = s->connect_scoped(F<R>(5, 5, 5)); *bl = c[3].blocker(); c[3].unblock();
    (*s)(0);
    VP_ASSERT(gone, "signal destroyed"); int e = 0; for (int d = 0; d <= depth; ++d) for (int i = 0; i <= who; ++i) { VP_ASSERT(e < TR.n && TR.id[e] == i && TR.arg[e] == d, "slots before the destruction ran"); ++e; }
    VP_ASSERT(TR.n == e, "no slot runs after its signal was destroyed"); for (auto& x : c) VP_ASSERT(!x.connected() && !x.disconnect(), "inert afterwards"); VP_ASSERT(!sc.connected(), "scoped inert"); VP_ASSERT(born == died, "callables destroyed exactly once"); vp_cover(1 + use); delete bl; vp_log(TR.n);
  }
  VP_ASSERT(vp_live() == l0, "nothing leaked");
}
// destruction with n slots of every kind in any state; also a signal that was moved from or move-assigned
template <class R> void destroy_states() {
  TR.clear(); born = died = 0; int64_t l0 = base_live();
  {
    sig::connection c[6]; T<R> t; auto sp = std::make_shared<T<R>>(); int n = vp_pick(Q(4, 6), "n");
    {
      sig::signal<R(int)> s; for (int i = 0; i < n; ++i) { int k = vp_pick(3, "k"); c[i] = k == 0 ? s.connect(F<R>(i, (uint8_t)i, i)) : k == 1 ? s.connect(&T<R>::call, &t) : s.connect(&T<R>::call, sp); int st = vp_pick(3, "st"); if (st == 1) c[i].block(); if (st == 2) c[i].disconnect(); }
      sig::signal<R(int)>* d = nullptr; switch (vp_pick(3, "mv")) { case 1: d = new sig::signal<R(int)>(std::move(s)); break; case 2: d = new sig::signal<R(int)>; d->connect(F<R>(9, 9, 9)); *d = std::move(s); break; }
      if (d) { delete d; VP_ASSERT(born == died, "callables gone with the destination"); for (int i = 0; i < n; ++i) VP_ASSERT(!c[i].connected() && !c[i].disconnect(), "inert"); s.connect(F<R>(8, 8, 8)); TR.clear(); s(1); VP_ASSERT(TR.n == 1, "source usable"); }
    }
    for (int i = 0; i < n; ++i) VP_ASSERT(!c[i].connected() && !c[i].disconnect(), "inert"); VP_ASSERT(born == died, "callables destroyed exactly once"); vp_cover(1);
  }
  VP_ASSERT(vp_live() == l0, "nothing leaked");
}
// many connections outliving a large signal
void large() {
  int64_t l0 = base_live(); born = died = 0;
  {
    const int sizes[] = {17, 70, 140}; int n = sizes[vp_pick(3, "size")]; static sig::connection c[150]; auto* s = new sig::signal<int(int)>; for (int i = 0; i < n; ++i) c[i] = s->connect(F<int>(i, (uint8_t)i, i)); int rm = vp_pick(3, "rm"); for (int i = 0; i < n; ++i) if (rm && i % rm == 0) VP_ASSERT(c[i].disconnect(), "disconnect"); delete s; VP_ASSERT(born == died, "callables destroyed exactly once"); for (int i = 0; i < n; ++i) { VP_ASSERT(!c[i].connected() && !c[i].disconnect() && !c[i].blocked(), "inert"); c[i].block(); c[i].unblock(); c[i] = sig::connection(); } vp_cover(1);
  }
  VP_ASSERT(vp_live() == l0, "nothing leaked");
}
// tracked objects expiring around a destruction or an assignment over the signal, while an emission still holds the slots
template <class R> void expired() {
  TR.clear(); born = died = 0; int64_t l0 = base_live();
  {
    using S = sig::signal<R(int)>; auto* s = new S; S other; sig::connection c[4]; sig::connection_blocker bl; auto sp = std::make_shared<T<R>>(), sq = std::make_shared<T<R>>(); sp->id = 1; sq->id = 2;
    int when = vp_pick(4, "when"), how = vp_pick(3, "how"), use = vp_pick(5, "use"), depth = vp_pick(2, "depth"); bool first = vp_pick(2, "first"), done = false, gone = false; auto o = other.connect(F<R>(7, 7, 7));
    auto runner = [&](int d) {
      TR.add(0, d);
      if (!done) {
        if (d < depth) { (*s)(d + 1); return mk<R>(0); }
        done = true; if (when == 1) { sp.reset(); gone = true; }
        VP_ASSERT(c[1].connected() == !gone, "an expired object's connection is over");
        if (how == 0) delete s; else if (how == 1) *s = S(); else *s = std::move(other);
        if (how == 2) VP_ASSERT(o.connected(), "moved along"); if (when == 2) { sp.reset(); gone = true; }
        for (auto& x : c) VP_ASSERT(!x.connected(), "over with its signal");
        switch (use) { case 0: VP_ASSERT(!c[1].disconnect(), "disconnect returns false"); break; case 1: bl = c[1].blocker(); break; case 2: c[1].block(); c[2].unblock(); break; case 3: { sig::scoped_connection x(c[1]); break; } default: break; }
        for (auto& x : c) VP_ASSERT(!x.connected(), "still over");
        if (how == 0) for (auto& x : c) VP_ASSERT(!x.disconnect(), "inert");
      }
      return mk<R>(0); };
    if (first) c[0] = s->connect(runner); c[1] = s->connect(&T<R>::call, sp); c[2] = s->connect(&T<R>::call, sq); if (!first) c[0] = s->connect(runner); c[3] = s->connect(F<R>(3, 3, 3));
    if (vp_pick(2, "blk")) c[1].block(); if (when == 0) { sp.reset(); gone = true; }
    (*s)(0); VP_ASSERT(done, "ran"); if (when == 3) sp.reset(); int after = 0; for (int i = 0; i < TR.n; ++i) after += TR.id[i] == 3; VP_ASSERT(after == 0, "no slot runs once it is over");
    for (auto& x : c) { VP_ASSERT(!x.connected() && !x.disconnect(), "inert"); x.block(); x.unblock(); }
    if (how) { TR.clear(); (*s)(1); VP_ASSERT(TR.n == (how == 2), "only what was assigned runs"); VP_ASSERT(o.connected() && o.disconnect() && !o.connected(), "the other signal's connection is its own"); TR.clear(); (*s)(1); VP_ASSERT(TR.n == 0, "over"); delete s; } else VP_ASSERT(o.connected(), "bystander");
    bl = sig::connection_blocker(); VP_ASSERT(how == 0 ? born == died + 1 : born == died, "callables destroyed exactly once"); VP_ASSERT(!sp || sp.use_count() == 1, "not kept"); VP_ASSERT(sq.use_count() == 1, "not kept"); vp_cover(1 + when);
  }
  VP_ASSERT(born == died, "callables destroyed exactly once"); VP_ASSERT(vp_live() == l0, "nothing leaked");
}
}
extern "C" void c12_expired_void() { expired<void>(); }
extern "C" void c12_expired_int() { expired<int>(); }
extern "C" void c12_after_void() { after<void>(Q(3, 4)); }
extern "C" void c12_after_int() { after<int>(Q(2, 3)); }
extern "C" void c12_in_void() { inside<void>(); }
extern "C" void c12_in_int() { inside<int>(); }
extern "C" void c12_states() { if (vp_pick(2, "r")) destroy_states<void>(); else destroy_states<Obj>(); }
extern "C" void c12_large() { large(); }
// operations made outside emissions and by slots while the signal is emitting
namespace { const int in_ops[] = {inem::STOP, inem::DELETE, inem::BLOCK, inem::UNBLOCK, inem::DISC, inem::SC_OWN, inem::BL_MAKE, inem::BL_END, inem::EMIT}; }
extern "C" void c12_ops_void() { inem::run<void>(inem::conf(in_ops, inem::K_PLAIN, 3, 0, Q(2, 3))); }
extern "C" void c12_ops_int() { inem::run<int>(inem::conf(in_ops, inem::K_PLAIN, 2, Q(1, 2), 2)); }
// longer sequences of fewer kinds of operation
namespace { const int seq_seq_void[] = {inem::STOP, inem::DELETE, inem::DISC, inem::BL_MAKE, inem::EMIT}; }
extern "C" void c12_seq_void() { inem::run<void>(inem::conf(seq_seq_void, inem::K_FO, 2, Q(0, 1), Q(4, 4))); }
namespace { const int seq_seq_int[] = {inem::STOP, inem::DELETE, inem::DISC, inem::SC_OWN, inem::CONNECT}; }
extern "C" void c12_seq_int() { inem::run<int>(inem::conf(seq_seq_int, inem::K_FO, 2, Q(2, 3), Q(2, 2))); }
