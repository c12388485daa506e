// C08: tracked objects are never called dead, kept alive, or destroyed mid-call.
#include "common.h"
#include "inem.h"
namespace cust {   // a user-defined pointer that takes part in tracking through to_weak() found by ADL
template <class T> struct wptr { std::weak_ptr<T> w; bool expired() const { return w.expired(); } std::shared_ptr<T> lock() const { return w.lock(); } void reset() { w.reset(); } };
template <class T> struct sptr { std::shared_ptr<T> s; T& operator*() const { return *s; } };
template <class T> wptr<T> to_weak(sptr<T> p) { return wptr<T>{p.s}; }
}
namespace {
int alive_objs, calls, in_call; bool destroyed_in_call; std::shared_ptr<void>* owner_to_drop; int destroyed_total;
template <class R> struct T0 {
  int canary = 0x5a5a; int id = 0; int ret = 0; int running = 0;
  T0() { ++alive_objs; } T0(const T0& o) : id(o.id), ret(o.ret) { ++alive_objs; } virtual ~T0() { if (running) destroyed_in_call = true; canary = 0; --alive_objs; ++destroyed_total; }
  virtual R call(int x) {
    VP_ASSERT(canary == 0x5a5a, "invoked on a dead object"); ++running; ++calls; TR.add(id, x);
    if (owner_to_drop) { owner_to_drop->reset(); owner_to_drop = nullptr; VP_ASSERT(canary == 0x5a5a && !destroyed_in_call, "the object is kept alive during the call"); ret += 0; }
    --running; return mk<R>(ret);
  }
  R ccall(int x) const { VP_ASSERT(canary == 0x5a5a, "invoked on a dead object"); ++calls; if (TR.n < 90) TR.add(id, x); return mk<R>(ret); }
};
template <class R> struct D0 : T0<R> { R call(int x) override { return T0<R>::call(x); } };
void reset_all() { alive_objs = calls = in_call = destroyed_total = 0; destroyed_in_call = false; owner_to_drop = nullptr; TR.clear(); }
enum { SHARED, WEAK, CUSTOM, CONSTM, DERIVED, NKIND };
template <class R> struct W {
  sig::signal<R(int)> s; std::shared_ptr<T0<R>> own; sig::connection c, before, after; int kind; int ret;
  void conn(sig::signal<R(int)>& sg, sig::connection& out) {
    switch (kind) { case SHARED: out = sg.connect(&T0<R>::call, own); break; case WEAK: { std::weak_ptr<T0<R>> wp(own); out = sg.connect(sig::slot<R(int)>(&T0<R>::call, wp)); break; }
      case CUSTOM: out = sg.connect(&T0<R>::call, cust::sptr<T0<R>>{own}); break; case CONSTM: out = sg.connect(&T0<R>::ccall, own); break; default: { sig::slot<R(int)> sl(&T0<R>::call, own); out = sg.connect(sl); break; } }
  }
};
template <class R> void machine(int steps) {
  reset_all();
  {
    W<R> w; w.kind = vp_pick(NKIND, "kind"); w.ret = vp_int("ret");
    if (w.kind == DERIVED) w.own = std::make_shared<D0<R>>(); else w.own = vp_pick(2, "mk") ? std::make_shared<T0<R>>() : std::shared_ptr<T0<R>>(new T0<R>);
    w.own->id = 1; w.own->ret = w.ret; int uc = w.own.use_count();
    w.before = w.s.connect(Fn<R>{0, 0, 5}); w.conn(w.s, w.c); w.after = w.s.connect(Fn<R>{2, 2, 6});
    VP_ASSERT(w.own.use_count() == uc, "connecting does not keep the object alive"); VP_ASSERT(alive_objs == 1, "no copy of the object is made");
    std::weak_ptr<T0<R>> watch(w.own); std::shared_ptr<void> hold(w.own); w.own.reset();
    bool gone = false, blk = false, disc = false;
    for (int k = 0; k < steps; ++k) {
      int op = vp_pick(7, "op"); if (op == 0) break;
      if (op == 1) { if (gone) break; hold.reset(); gone = true; VP_ASSERT(watch.expired() && alive_objs == 0, "the object dies with its last outside owner"); VP_ASSERT(!w.c.connected(), "reports disconnected from that moment"); vp_cover(1); }
      else if (op == 2 || op == 3) {
        if (op == 3 && (gone || blk || disc || w.kind == CONSTM)) break;
        TR.clear(); calls = 0; bool runs = !gone && !blk && !disc; if (op == 3) owner_to_drop = &hold;
        auto r = w.s(9); VP_ASSERT(calls == (runs ? 1 : 0), "invoked exactly while the object is alive"); VP_ASSERT(TR.n == 2 + (runs ? 1 : 0) && TR.id[0] == 0, "other slots are unaffected"); VP_ASSERT(res_is(r, true, disc && TR.n == 2 ? 6 : 6), "result");
        VP_ASSERT(!destroyed_in_call, "never destroyed while its slot runs");
        if (op == 3) { gone = true; VP_ASSERT(alive_objs == 0 && watch.expired(), "not kept alive beyond the call in progress"); VP_ASSERT(!w.c.connected(), "reports disconnected"); vp_cover(3); } else vp_cover(runs ? 2 : 4);
        vp_log(TR.n);
      }
      else if (op == 4) { blk = !blk; if (blk) w.c.block(); else w.c.unblock(); vp_cover(5); }
      else if (op == 5) { if (gone || disc) break; VP_ASSERT(w.c.disconnect(), "disconnect of a live tracked slot"); disc = true; VP_ASSERT(alive_objs == 1, "disconnecting does not destroy the object"); vp_cover(6); }
      else { w.c.disconnect(); if (gone || disc) { VP_ASSERT(!w.c.connected(), "still disconnected"); } disc = true; vp_cover(7); }
      VP_ASSERT(w.c.connected() == (!gone && !disc), "connected() is true exactly while the object lives and the slot is connected"); VP_ASSERT(w.before.connected() && w.after.connected(), "other connections are unaffected"); VP_ASSERT(alive_objs == (gone ? 0 : 1), "object lifetime follows its owners only");
    }
    TR.clear(); calls = 0; auto r = w.s(1); VP_ASSERT(calls == (!gone && !blk && !disc), "final emission");
  }
  VP_ASSERT(alive_objs == 0, "everything destroyed");
}
// slots used alone, and data members
template <class R> void alone() {
  reset_all();
  {
    auto own = std::make_shared<T0<R>>(); own->id = 1; int v = vp_int("v"); own->ret = v; std::weak_ptr<T0<R>> wp(own);
    sig::slot<R(int)> a = vp_pick(2, "how") ? sig::slot<R(int)>(&T0<R>::call, own) : sig::slot<R(int)>(&T0<R>::call, wp); sig::slot<R(int)> b(a); VP_ASSERT(own.use_count() == 1, "slots do not own the object");
    auto r = a(3); auto r2 = b(4); VP_ASSERT(calls == 2 && res_is(r, true, v) && res_is(r2, true, v), "live object is called"); 
    bool during = vp_pick(2, "during"); std::shared_ptr<void> h(own); own.reset();
    if (during) { owner_to_drop = &h; auto r3 = a(5); VP_ASSERT(calls == 3 && res_is(r3, true, v) && !destroyed_in_call && alive_objs == 0, "kept alive for the call, not longer"); vp_cover(1); } else { h.reset(); VP_ASSERT(alive_objs == 0, "slot does not keep the object"); vp_cover(2); }
    calls = 0; VP_ASSERT(!a.connected() && !b.connected(), "expired slots are not connected"); auto r4 = a(6); auto r5 = b(7); VP_ASSERT(calls == 0 && !r4 && !r5, "an expired slot yields nothing and calls nothing"); auto r6 = a(8); VP_ASSERT(calls == 0 && !r6, "again");
    sig::slot<R(int)> c(a); VP_ASSERT(!c(1) && calls == 0, "copy of an expired slot"); sig::signal<R(int)> s; auto cn = s.connect(a); VP_ASSERT(!cn.connected() && !s(1) && calls == 0, "connecting an expired slot calls nothing"); vp_cover(3);
  }
}
struct Dat { int v; ~Dat() { v = -1; } };
void pmd() {
  auto own = std::make_shared<Dat>(); own->v = vp_int("v"); sig::signal<int()> s; auto c = s.connect(&Dat::v, own); auto r = s(); VP_ASSERT(r && *r == own->v, "tracked data member"); VP_ASSERT(own.use_count() == 1, "not owned");
  own->v = vp_int("v2"); auto r2 = s(); VP_ASSERT(r2 && *r2 == own->v, "current value of the data member"); own.reset(); VP_ASSERT(!c.connected(), "expired"); auto r3 = s(); VP_ASSERT(!r3, "expired data member"); vp_cover(1);
}
// other ways to own an object: aliased, null, const, several owners, released by its own deleter, shared_from_this
struct Self : std::enable_shared_from_this<Self> { int v = 0; int f(int) { ++calls; auto me = shared_from_this(); return v; } };
void owners() {
  reset_all(); int v = vp_int("v"); int how = vp_pick(6, "how"); sig::signal<int(int)> s; sig::connection c, after = s.connect(Fn<int>{9, 9, 77}); after.block();
  switch (how) {
  case 0: { struct Pair { T0<int> a, b; }; auto own = std::make_shared<Pair>(); own->b.ret = v; own->b.id = 2; std::shared_ptr<T0<int>> al(own, &own->b); bool viaslot = vp_pick(2, "slot"); if (viaslot) c = s.connect(sig::slot<int(int)>(&T0<int>::call, std::weak_ptr<T0<int>>(al))); else c = s.connect(&T0<int>::call, al); al.reset(); VP_ASSERT(c.connected(), "alive while the owner is"); auto r = s(1); VP_ASSERT(calls == 1 && r && *r == v && TR.id[0] == 2, "the aliased object"); own.reset(); VP_ASSERT(!c.connected() && alive_objs == 0, "gone with the owner"); auto q = s(1); VP_ASSERT(!q && calls == 1, "not called"); break; }
  case 1: { std::shared_ptr<T0<int>> none; c = s.connect(&T0<int>::call, none); VP_ASSERT(!c.connected(), "no object"); auto r = s(1); VP_ASSERT(!r && calls == 0, "nothing to call"); sig::slot<int(int)> sl(&T0<int>::call, std::weak_ptr<T0<int>>()); VP_ASSERT(!sl.connected() && !sl(1) && calls == 0, "nothing to call alone"); break; }
  case 2: { auto m = std::make_shared<T0<int>>(); m->ret = v; std::shared_ptr<const T0<int>> own = m; m.reset(); c = s.connect(&T0<int>::ccall, own); auto r = s(1); VP_ASSERT(r && *r == v && calls == 1, "a const object"); own.reset(); auto q = s(1); VP_ASSERT(!q && calls == 1 && !c.connected() && alive_objs == 0, "gone"); break; }
  case 3: { auto a = std::make_shared<T0<int>>(); a->ret = v; auto b = a; c = s.connect(&T0<int>::call, std::move(b)); VP_ASSERT(a.use_count() <= 2, "at most the moved-from argument is left"); b.reset(); VP_ASSERT(a.use_count() == 1, "not owned"); auto d = a; a.reset(); VP_ASSERT(c.connected(), "another owner"); auto r = s(1); VP_ASSERT(r && *r == v, "called"); d.reset(); VP_ASSERT(!c.connected() && alive_objs == 0 && !s(1), "gone with the last"); break; }
  case 4: { T0<int> local; local.ret = v; int freed = 0; std::shared_ptr<T0<int>> own(&local, [&](T0<int>*) { ++freed; }); c = s.connect(&T0<int>::call, own); auto r = s(1); VP_ASSERT(r && *r == v && freed == 0, "called"); own.reset(); VP_ASSERT(freed == 1 && !c.connected() && !s(1) && calls == 1, "released once"); break; }
  default: { auto own = std::make_shared<Self>(); own->v = v; c = s.connect(&Self::f, own); VP_ASSERT(own.use_count() == 1, "not owned"); auto r = s(1); VP_ASSERT(r && *r == v && calls == 1 && own.use_count() == 1, "called"); own.reset(); VP_ASSERT(!c.connected() && !s(1) && calls == 1, "gone"); break; }
  }
  after.unblock(); auto r = s(2); VP_ASSERT(r && *r == 77 && !c.disconnect(), "the rest of the signal goes on"); vp_cover(10 + how);
}
// two objects, one emission: dropping the later object's owner from an earlier slot; dropping the earlier one's
template <class R> void cross() {
  reset_all();
  {
    sig::signal<R(int)> s; auto a = std::make_shared<T0<R>>(), b = std::make_shared<T0<R>>(); a->id = 1; b->id = 2; auto ca = s.connect(&T0<R>::call, a), cb = s.connect(&T0<R>::call, b); auto cl = s.connect(Fn<R>{3, 0, 3});
    int which = vp_pick(2, "which"); std::shared_ptr<void> h(which ? b : a); (which ? b : a).reset(); owner_to_drop = &h; (which ? b : a).reset();
    s(1); // slot of a drops h
    if (which) { VP_ASSERT(TR.n == 2 && TR.id[0] == 1 && TR.id[1] == 3, "an object that died earlier in the emission is skipped"); VP_ASSERT(ca.connected() && !cb.connected(), "reports"); vp_cover(1); } else { VP_ASSERT(TR.n == 3, "all ran"); VP_ASSERT(!ca.connected() && cb.connected(), "reports"); vp_cover(2); }
    TR.clear(); s(2); VP_ASSERT(TR.n == 2, "next emission runs only the living"); VP_ASSERT(alive_objs == 1, "one left");
  }
}
// many tracked slots, any residue class of the objects expires
void manytracked() {
  reset_all(); const int N = 130; static std::shared_ptr<T0<int>> o[140]; static sig::connection c[140];
  {
    sig::signal<int(int)> s; for (int i = 0; i < N; ++i) { o[i] = std::make_shared<T0<int>>(); o[i]->id = i & 63; o[i]->ret = i; c[i] = s.connect(&T0<int>::ccall, o[i]); } int st = vp_pick(4, "st") + 1; int last = -1, n = 0; for (int i = 0; i < N; ++i) if (i % st == 0) o[i].reset(); else { last = i; ++n; }
    calls = 0; TR.clear(); auto r = s(1); VP_ASSERT(calls == n && bool(r) == (n > 0) && (!n || *r == last), "exactly the living objects are called"); VP_ASSERT(alive_objs == n, "lifetime follows the owners"); for (int i = 0; i < N; ++i) VP_ASSERT(c[i].connected() == (i % st != 0), "connected() follows the object"); for (int k = 0; k < 3; ++k) { TR.clear(); calls = 0; s(2); VP_ASSERT(calls == n, "again"); } for (int i = 0; i < N; ++i) o[i].reset(); calls = 0; auto r2 = s(1); VP_ASSERT(calls == 0 && !r2, "all expired"); VP_ASSERT(alive_objs == 0, "all destroyed"); vp_cover(1); for (auto& x : c) x = sig::connection();
  }
}
}
extern "C" void c08_void() { machine<void>(Q(4, 6)); }
extern "C" void c08_int() { machine<int>(Q(4, 6)); }
extern "C" void c08_obj() { machine<Obj>(Q(3, 5)); }
extern "C" void c08_alone_void() { alone<void>(); }
extern "C" void c08_alone_int() { alone<int>(); }
extern "C" void c08_alone_obj() { alone<Obj>(); }
extern "C" void c08_misc() { switch (vp_pick(3, "m")) { case 0: pmd(); break; case 1: cross<void>(); break; default: cross<int>(); break; } }
extern "C" void c08_many() { manytracked(); }
// operations made outside emissions and by slots while the signal is emitting
namespace { const int in_ops[] = {inem::STOP, inem::EXPIRE, inem::DISC, inem::BLOCK, inem::UNBLOCK, inem::EMIT, inem::MOVE_OUT}; }
extern "C" void c08_in_void() { inem::run<void>(inem::conf(in_ops, inem::K_TRACKED, 3, 0, Q(2, 3))); }
extern "C" void c08_in_int() { inem::run<int>(inem::conf(in_ops, inem::K_TRACKED, 2, Q(1, 2), 2)); }
// longer sequences of fewer kinds of operation
namespace { const int seq_seq_void[] = {inem::STOP, inem::EXPIRE, inem::DISC, inem::CONNECT, inem::EMIT}; }
extern "C" void c08_seq_void() { inem::run<void>(inem::conf(seq_seq_void, inem::K_TRACKED, 2, Q(0, 1), Q(4, 4))); }
extern "C" void c08_owners() { owners(); }
