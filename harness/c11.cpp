// C11: a failed connect has no effect.
#include "common.h"
namespace {
struct CEx {}; int copy_arm = -1;   // callable copies left until one throws (-1: never)
int fn_live;
template <class R> struct F {
  int id; uint8_t key; int ret; F(int i, uint8_t k, int r) : id(i), key(k), ret(r) { ++fn_live; } F(const F& o) : id(o.id), key(o.key), ret(o.ret) { if (copy_arm >= 0 && copy_arm-- == 0) throw CEx(); ++fn_live; } ~F() { --fn_live; }
  R operator()(int x) { TR.add(id, x); return mk<R>(ret); } bool operator==(const F& o) const { return key == o.key; }
};
template <class R> struct T { int id = 0, ret = 0; R call(int x) { TR.add(id, x); return mk<R>(ret); } };
enum { FUN, FUNL, PMF, TRK, SLOT, COPYOBJ, SCOPED, SCOPEDSLOT, SCOPEDPMF, FPTR, NK };
int nret; template <class R> R fp(int x) { TR.add(50, x); return mk<R>(nret); }
template <class R> struct W {
  sig::signal<R(int)> s; static const int MX = 8; sig::connection c[MX]; bool blk[MX] = {}; int ord[MX], m = 0, rv[MX + 1]; T<R> t; std::shared_ptr<T<R>> sp = std::make_shared<T<R>>(); sig::slot<R(int)>* sl; F<R> lv; sig::scoped_connection sc;
  W() : sl((nret = vp_int("nret"), new sig::slot<R(int)>(F<R>(50, 50, nret)))), lv(50, 50, nret) { t.id = 50; t.ret = nret; sp->id = 50; sp->ret = nret; for (int& x : rv) x = vp_int("ret"); }
  ~W() { delete sl; }
  bool try_connect(int kind, sig::connection& out) {
    try {
      switch (kind) { case FUN: out = s.connect(F<R>(50, 50, nret)); break; case FUNL: out = s.connect(lv); break; case PMF: out = s.connect(&T<R>::call, &t); break; case TRK: out = s.connect(&T<R>::call, sp); break; case SLOT: out = s.connect(*sl); break; case COPYOBJ: out = s.connect(&T<R>::call, t); break;
        case SCOPED: sc = s.connect_scoped(F<R>(50, 50, nret)); out = sc; break; case SCOPEDSLOT: sc = s.connect_scoped(*sl); out = sc; break; case SCOPEDPMF: sc = s.connect_scoped(&T<R>::call, sp); out = sc; break; default: out = s.connect(&fp<R>); break; }
      return true;
    } catch (const std::bad_alloc&) { return false; } catch (const CEx&) { return false; }
  }
  void check(bool extra) {
    int a = vp_int("arg"); TR.clear(); auto r = s(a); int j = 0, last = -1; for (int i = 0; i < m; ++i) if (!blk[ord[i]]) { VP_ASSERT(j < TR.n && TR.id[j] == ord[i] && TR.arg[j] == a, "same slots in the same order"); last = ord[i]; ++j; }
    if (extra) { VP_ASSERT(j < TR.n && TR.id[j] == 50 && TR.arg[j] == a, "the new slot is last"); last = 50; ++j; }
    VP_ASSERT(j == TR.n, "no other slot"); VP_ASSERT(res_is(r, last >= 0, last == 50 ? nret : last >= 0 ? rv[last] : 0), "result"); for (int i = 0; i < m; ++i) VP_ASSERT(c[ord[i]].connected() && c[ord[i]].blocked() == blk[ord[i]], "same states"); vp_log(TR.n);
  }
};
template <class R> void direct(int maxpre, int budget) {
  TR.clear(); fn_live = 0; copy_arm = -1; int64_t l00 = base_live();
  {
    W<R> w; int pre = vp_pick(maxpre + 1, "pre"); int kind = vp_pick(NK, "kind"); for (int i = 0; i < pre; ++i) { w.c[i] = w.s.connect(F<R>(i, (uint8_t)i, w.rv[i])); w.ord[w.m++] = i; }
    if (pre && vp_pick(2, "rm")) { w.c[0].disconnect(); w.ord[0] = w.ord[w.m - 1]; --w.m; if (w.m) { w.c[w.ord[0]].block(); w.blk[w.ord[0]] = true; } }
    int f0 = fn_live; sig::connection nc;
    vp_faults(true, budget); bool ok = w.try_connect(kind, nc); vp_faults(false, 0);
    if (!ok) { VP_ASSERT(fn_live == f0, "a failed connect keeps no callable"); VP_ASSERT(!nc.connected(), "no connection"); vp_cover(1); vp_cover(20 + kind); } else { VP_ASSERT(nc.connected(), "connected"); vp_cover(2); }
    w.check(ok);
    if (!ok) { VP_ASSERT(w.try_connect(kind, nc) && nc.connected(), "a later connect succeeds"); w.check(true); }
    VP_ASSERT(nc.disconnect(), "and can be ended"); w.check(false);
    for (int i = 0; i < w.m; ++i) VP_ASSERT(w.c[w.ord[i]].disconnect(), "old slots can be ended"); w.m = 0; w.check(false);
  }
  VP_ASSERT(vp_live() == l00 && fn_live == 0, "nothing leaked at the end");
}
// the connect is made by a slot during an emission (the list is shared with the running emission, once or twice)
template <class R> void inside(int budget, int maxpre) {
  TR.clear(); fn_live = 0; copy_arm = -1; int64_t l00 = base_live();
  {
    W<R> w; int pre = vp_pick(maxpre + 1, "pre"); int kind = vp_pick(NK, "kind"); bool done = false, ok = false; sig::connection nc; bool deep = vp_pick(2, "deep");
    auto me = w.s.connect([&](int x) { TR.add(40, x); if (!done) { if (deep && x == 1) { w.s(0); } else { done = true; int f0 = fn_live; vp_faults(true, budget); ok = w.try_connect(kind, nc); vp_faults(false, 0); if (!ok) { VP_ASSERT(fn_live <= f0, "a failed connect inside an emission keeps no callable"); vp_cover(1); } else vp_cover(2); } } return mk<R>(40); });
    for (int i = 0; i < pre; ++i) { w.c[i] = w.s.connect(F<R>(i, (uint8_t)i, w.rv[i])); }
    w.s(1); int outer = 0; for (int j = 0; j < TR.n; ++j) if (TR.arg[j] == 1 || deep) ++outer; VP_ASSERT(TR.n == (1 + pre) * (deep ? 2 : 1), "the emission itself is not affected"); vp_log(TR.n);
    TR.clear(); w.s(1); VP_ASSERT(TR.n == 1 + pre + ok, "same slots (plus the new one if it succeeded)"); VP_ASSERT(TR.id[0] == 40, "order"); for (int i = 0; i < pre; ++i) VP_ASSERT(TR.id[1 + i] == i, "order"); if (ok) VP_ASSERT(TR.id[1 + pre] == 50 && nc.connected(), "new slot last");
    if (!ok) { VP_ASSERT(w.try_connect(kind, nc), "a later connect succeeds"); TR.clear(); w.s(1); VP_ASSERT(TR.n == 2 + pre, "and runs"); }
  }
  VP_ASSERT(vp_live() == l00 && fn_live == 0, "nothing leaked at the end");
}
// the callable's copy throws
template <class R> void copy_throws() {
  TR.clear(); fn_live = 0; copy_arm = -1; int64_t l00 = base_live();
  {
    W<R> w; int pre = vp_pick(4, "pre"); int kinds[] = {FUN, FUNL, SLOT, SCOPED, SCOPEDSLOT}; int kind = kinds[vp_pick(5, "kind")]; for (int i = 0; i < pre; ++i) { w.c[i] = w.s.connect(F<R>(i, (uint8_t)i, w.rv[i])); w.ord[w.m++] = i; }
    int f0 = fn_live; sig::connection nc; copy_arm = vp_pick(4, "at"); bool ok = w.try_connect(kind, nc); copy_arm = -1;
    if (!ok) { VP_ASSERT(fn_live == f0, "a failed connect keeps no callable"); vp_cover(1); } else vp_cover(2); w.check(ok); if (!ok) { VP_ASSERT(w.try_connect(kind, nc), "a later connect succeeds"); w.check(true); }
  }
  VP_ASSERT(vp_live() == l00 && fn_live == 0, "nothing leaked at the end");
}
// first use of a moved-from signal
template <class R> void moved() {
  TR.clear(); fn_live = 0; copy_arm = -1; int64_t l00 = base_live();
  {
    sig::signal<R(int)> a; auto c = a.connect(F<R>(1, 1, 1)); sig::signal<R(int)> b(std::move(a)); bool ok = false; sig::connection nc; vp_faults(true, 1); try { nc = a.connect(F<R>(2, 2, 2)); ok = true; } catch (const std::bad_alloc&) {} vp_faults(false, 0);
    TR.clear(); a(1); VP_ASSERT(TR.n == ok, "moved-from signal"); TR.clear(); b(1); VP_ASSERT(TR.n == 1 && TR.id[0] == 1, "destination unaffected"); if (!ok) { a.connect(F<R>(2, 2, 2)); TR.clear(); a(1); VP_ASSERT(TR.n == 1, "later connect"); vp_cover(1); }
  }
  VP_ASSERT(vp_live() == l00 && fn_live == 0, "nothing leaked at the end");
}
// a failing connect at every growth step of a larger signal
template <class R> void growth(int maxn) {
  TR.clear(); fn_live = 0; copy_arm = -1; int64_t l00 = base_live();
  {
    static sig::connection c[140]; sig::signal<R(int)> s; const int sizes[] = {7, 8, 15, 16, 31, 32, 63, 64, 127, 128}; int n = sizes[vp_pick(maxn, "n")]; for (int i = 0; i < n; ++i) c[i] = s.connect(BFn<R>{i, i, i}); int kind = vp_pick(2, "kind"); bool ok = true; sig::connection nc; vp_faults(true, 1);
    try { if (kind) nc = s.connect(BFn<R>{200, 200, 200}); else { sig::scoped_connection x = s.connect_scoped(BFn<R>{200, 200, 200}); nc = x.release(); } } catch (const std::bad_alloc&) { ok = false; } vp_faults(false, 0); VP_ASSERT(nc.connected() == ok, "connected"); if (!ok) vp_cover(1); else vp_cover(2);
    BT.clear(); auto r = s(1); VP_ASSERT(BT.n == n + ok, "slot count"); for (int i = 0; i < n; ++i) VP_ASSERT(BT.id[i] == i, "same slots in the same order"); VP_ASSERT(res_is(r, true, ok ? 200 : n - 1), "result"); if (!ok) { nc = s.connect(BFn<R>{200, 200, 200}); BT.clear(); s(1); VP_ASSERT(BT.n == n + 1 && BT.id[n] == 200, "a later connect succeeds"); } for (int i = 0; i < n; ++i) VP_ASSERT(c[i].disconnect(), "ended"); VP_ASSERT(nc.disconnect(), "ended"); BT.clear(); s(1); VP_ASSERT(BT.n == 0, "empty"); for (int i = 0; i < n; ++i) c[i] = sig::connection();
  }
  VP_ASSERT(vp_live() == l00, "nothing leaked");
}
}
extern "C" void c11_void() { direct<void>(Q(5, 6), Q(1, 2)); }
extern "C" void c11_int() { direct<int>(Q(5, 6), Q(1, 2)); }
extern "C" void c11_in_void() { inside<void>(1, Q(4, 6)); }
extern "C" void c11_in_int() { inside<int>(1, Q(4, 6)); }
extern "C" void c11_copy() { if (vp_pick(2, "r")) copy_throws<void>(); else copy_throws<int>(); }
extern "C" void c11_moved() { if (vp_pick(2, "r")) moved<void>(); else moved<int>(); }
extern "C" void c11_growth() { if (vp_pick(2, "r")) growth<void>(10); else growth<int>(10); }
