// C14: slots are values.
#include "common.h"
namespace {
// comparable functor with a symbolic key, own call counter and result
template <class R, int TY> struct K {
  int id; uint8_t key; int ret; int calls = 0;
  K(int i, uint8_t k, int r) : id(i), key(k), ret(r) {}
  R operator()(int x) { TR.add(id, x); ++calls; return mk<R>(ret + calls); }
  bool operator==(const K& o) const { return key == o.key; }
};
template <class R> struct NC { int id, ret; R operator()(int x) { TR.add(id, x); return mk<R>(ret); } };   // not comparable
template <class R> struct T { int id = 0, ret = 0; R call(int x) { TR.add(id, x); return mk<R>(ret); } R other(int x) { TR.add(id + 20, x); return mk<R>(ret); } };
template <class R> struct V { int id = 0, ret = 0; R call(int x) { TR.add(id, x); return mk<R>(ret); } bool operator==(const V& o) const { return id == o.id; } };
enum { EMPTY, FA, FB, FP, PMF, OBJ, TRK, NCF, NKIND };
struct M { int kind = EMPTY; int id = 0; uint8_t key = 0; int ret = 0; int calls = 0; bool blk = false; int tgt = 0, mem = 0; };
template <class R> struct W {
  using S = sig::slot<R(int)>; static const int N = 3; S* s[N]; M m[N]; T<R> t[2]; std::shared_ptr<T<R>> sp[2]; int nid = 0;
  W() { for (auto& p : s) p = new S; for (int i = 0; i < 2; ++i) { t[i].id = 40 + i; t[i].ret = vp_int("tret"); sp[i] = std::make_shared<T<R>>(); sp[i]->id = 44 + i; sp[i]->ret = vp_int("sret"); f_id[i] = 48 + i; f_ret[i] = vp_int("fret"); } }
  ~W() { for (auto p : s) delete p; }
  S make(int kind, M& x) {
    x = M(); x.kind = kind; x.id = nid++; x.key = sym8("key"); x.ret = vp_int("ret");
    switch (kind) {
      case FA: return S(K<R, 0>(x.id, x.key, x.ret)); case FB: return S(K<R, 1>(x.id, x.key, x.ret)); case NCF: return S(NC<R>{x.id, x.ret});
      case FP: x.tgt = vp_pick(2, "fn"); x.id = f_id[x.tgt]; x.ret = f_ret[x.tgt]; return x.tgt ? S(&freefn<R, 1>) : S(&freefn<R, 0>);
      case PMF: x.tgt = vp_pick(2, "tgt"); x.mem = vp_pick(2, "mem"); x.id = t[x.tgt].id + 20 * x.mem; x.ret = t[x.tgt].ret; return x.mem ? S(&T<R>::other, &t[x.tgt]) : S(&T<R>::call, &t[x.tgt]);
      case OBJ: { V<R> v; v.id = x.id = (int)x.key; v.ret = x.ret; return S(&V<R>::call, v); }
      case TRK: x.tgt = vp_pick(2, "sp"); x.id = 44 + x.tgt; x.ret = sp[x.tgt] ? sp[x.tgt]->ret : 0; return S(&T<R>::call, sp[x.tgt]);
      default: return S();
    }
  }
  bool live(const M& x) const { return x.kind != EMPTY && (x.kind != TRK || sp[x.tgt]); }
  // invoke a slot and compare with the model
  static void invoke(S& s, M& x, bool live) {
    int a = vp_int("arg"); TR.clear(); auto r = s(std::move(a));
    bool runs = live && !x.blk; if (runs && (x.kind == FA || x.kind == FB)) ++x.calls;
    VP_ASSERT(TR.n == (runs ? 1 : 0), "an active slot is called once, an empty, blocked or expired one not at all"); if (runs) VP_ASSERT(TR.id[0] == x.id && TR.arg[0] == a, "the right callable gets the argument");
    VP_ASSERT(res_is(r, runs, x.ret + x.calls), "result of the slot"); vp_log(TR.n);
  }
  void check(int i) { VP_ASSERT(bool(*s[i]) == (m[i].kind != EMPTY), "emptiness"); VP_ASSERT(s[i]->connected() == live(m[i]), "a slot holding a live callable is connected"); VP_ASSERT(s[i]->blocked() == m[i].blk, "blocked state"); invoke(*s[i], m[i], live(m[i])); }
};
// 1 equal, 0 different, -1 not comparable
int oracle(const M& a, const M& b) {
  if (a.kind == EMPTY || b.kind == EMPTY) return a.kind == b.kind; if (a.kind != b.kind) return 0;
  switch (a.kind) { case FA: case FB: case OBJ: return a.key == b.key; case FP: return a.tgt == b.tgt; case PMF: return a.tgt == b.tgt && a.mem == b.mem; default: return -1; }
}
template <class S> void cmp(const S& a, const S& b, const M& x, const M& y) {
  int o = oracle(x, y);
  try { bool e = a == b; VP_ASSERT(o >= 0, "comparison of incomparable callables is refused"); VP_ASSERT(e == (o == 1), "slots are equal exactly when both are empty or hold equal callables of the same type"); VP_ASSERT((a != b) == !e, "inequality is the opposite of equality"); vp_cover(o ? 20 : 21); }
  catch (const sig::not_comparable_exception&) { VP_ASSERT(o < 0, "comparable slots compare"); vp_cover(22); }
}
enum { COPY, COPYA, SELFA, MOVE, MOVEA, SWAP, BLOCK, UNBLOCK, REPL, EXPIRE, NOPS };
template <class R> void machine(int steps, bool eq) {
  TR.clear(); int64_t l0 = base_live();
  {
    W<R> w; using S = typename W<R>::S;
    for (int i = 0; i < 2; ++i) { M x; static const int few[] = {EMPTY, FA, TRK, FP}; S v = w.make(i && !TIER ? few[vp_pick(3, "kind")] : vp_pick(NKIND, "kind"), x); *w.s[i] = std::move(v); w.m[i] = x; VP_ASSERT(!v, "a moved-from slot is empty"); }
    for (int st = 0; st < steps; ++st) {
      int op = vp_pick(NOPS, "op"); vp_cover(1 + op);
      switch (op) {
        case COPY: { int i = vp_pick(2, "i"); bool c = i; const S& cs = *w.s[i]; S* n = c ? new S(cs) : new S(*w.s[i]); delete w.s[2]; w.s[2] = n; w.m[2] = w.m[i]; break; }
        case COPYA: { int i = vp_pick(3, "i"), j = (i + 1 + vp_pick(2, "d")) % 3; const S& cs = *w.s[j]; if (i == 1) *w.s[i] = cs; else *w.s[i] = *w.s[j]; w.m[i] = w.m[j]; break; }
        case SELFA: { int i = vp_pick(3, "i"); S& r = *w.s[i]; *w.s[i] = r; break; }
        case MOVE: { int i = vp_pick(2, "i"); S* n = new S(std::move(*w.s[i])); delete w.s[2]; w.s[2] = n; w.m[2] = w.m[i]; w.m[i] = M(); VP_ASSERT(!*w.s[i], "a moved-from slot is empty"); break; }
        case MOVEA: { int i = vp_pick(3, "i"), j = (i + 1 + vp_pick(2, "d")) % 3; *w.s[i] = std::move(*w.s[j]); w.m[i] = w.m[j]; w.m[j] = M(); VP_ASSERT(!*w.s[j], "a moved-from slot is empty"); break; }
        case SWAP: { int i = vp_pick(3, "i"), j = (i + 1) % 3; std::swap(*w.s[i], *w.s[j]); std::swap(w.m[i], w.m[j]); break; }
        case BLOCK: { int i = vp_pick(3, "i"); w.s[i]->block(); if (w.m[i].kind != EMPTY) w.m[i].blk = true; break; }
        case UNBLOCK: { int i = vp_pick(3, "i"); w.s[i]->unblock(); w.m[i].blk = false; break; }
        case REPL: { M x; S v = w.make(vp_pick(3, "nk"), x); *w.s[1] = v; w.m[1] = x; break; }
        case EXPIRE: { int i = vp_pick(2, "i"); w.sp[i].reset(); break; }
      }
    }
    for (int i = 0; i < 3; ++i) w.check(i);
    if (eq) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) cmp(*w.s[i], *w.s[j], w.m[i], w.m[j]);
  }
  VP_ASSERT(vp_live() == l0, "nothing leaked");
}
// equality over three arbitrary slots
template <class R> void equality() {
  W<R> w; using S = typename W<R>::S; for (int i = 0; i < 3; ++i) { M x; *w.s[i] = w.make(vp_pick(NKIND, "kind"), x); w.m[i] = x; }
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) cmp(*w.s[i], *w.s[j], w.m[i], w.m[j]);
  for (int i = 0; i < 3; ++i) { const S& o = *w.s[i]; S c(o), d; d = o; cmp(c, o, w.m[i], w.m[i]); cmp(o, c, w.m[i], w.m[i]); cmp(c, d, w.m[i], w.m[i]); }
  try { bool ab = *w.s[0] == *w.s[1], ba = *w.s[1] == *w.s[0], bc = *w.s[1] == *w.s[2], ac = *w.s[0] == *w.s[2]; VP_ASSERT(ab == ba, "symmetric"); VP_ASSERT(!(ab && bc) || ac, "transitive"); VP_ASSERT(*w.s[0] == *w.s[0], "reflexive"); if (ab && bc) vp_cover(1); } catch (const sig::not_comparable_exception&) { vp_cover(2); }
}
// a slot connected to signals: the signals hold independent copies
template <class R> void connected() {
  TR.clear(); int64_t l0 = base_live();
  {
    W<R> w; using S = typename W<R>::S; M x; S v = w.make(vp_pick(NKIND, "kind"), x); sig::signal<R(int)> a, b; auto c0 = a.connect(NC<R>{30, 0});
    auto ca = a.connect(v), cb = b.connect(v); bool e = x.kind == EMPTY; VP_ASSERT(ca.connected() == !e && cb.connected() == !e, "connecting an empty slot adds nothing"); M xa = x, xb = x;
    auto emit = [&](sig::signal<R(int)>& s, M& y, bool on, bool pre) { TR.clear(); s(7); int n = pre; bool runs = on && !y.blk && w.live(y); if (runs && (y.kind == FA || y.kind == FB)) ++y.calls; VP_ASSERT(TR.n == n + runs, "invocations"); if (runs) VP_ASSERT(TR.id[n] == y.id, "the slot's callable"); };
    bool oa = !e, ob = !e;
    for (int st = 0; st < Q(2, 3); ++st) {
      int op = vp_pick(8, "op"); vp_cover(1 + op);
      switch (op) {
        case 0: v.block(); if (x.kind != EMPTY) x.blk = true; break; case 1: v.unblock(); x.blk = false; break; case 2: ca.block(); if (oa) xa.blk = true; break; case 3: VP_ASSERT(ca.disconnect() == (oa && w.live(xa)) || !w.live(xa), "disconnect"); oa = false; break;
        case 4: cb.block(); if (ob) xb.blk = true; break; case 5: { v = S(); x = M(); break; } case 6: { TR.clear(); W<R>::invoke(v, x, w.live(x)); break; } case 7: { S o(v); o.block(); v = o; v.unblock(); x.blk = false; break; }
      }
      emit(a, xa, oa, true); emit(b, xb, ob, false); if (w.live(xa)) VP_ASSERT(ca.connected() == oa && ca.blocked() == (oa && xa.blk), "first signal's copy"); if (w.live(xb)) VP_ASSERT(cb.connected() == ob && cb.blocked() == (ob && xb.blk), "second signal's copy");
      VP_ASSERT(v.blocked() == x.blk && bool(v) == (x.kind != EMPTY) && v.connected() == w.live(x), "the user's slot");
    }
    VP_ASSERT(c0.connected(), "bystander"); W<R>::invoke(v, x, w.live(x));
  }
  VP_ASSERT(vp_live() == l0, "nothing leaked");
}
}
extern "C" void c14_void() { machine<void>(Q(1, 2), false); }
extern "C" void c14_int() { machine<int>(2, true); }
extern "C" void c14_obj() { machine<Obj>(Q(1, 2), TIER); }
extern "C" void c14_eq() { if (vp_pick(2, "r")) equality<void>(); else equality<int>(); }
extern "C" void c14_sig() { if (vp_pick(2, "r")) connected<void>(); else connected<int>(); }
// slots made from the same callable passed as an lvalue, a const lvalue or an rvalue are equal, and mean the same
namespace {
template <class T, class F> void each(int how, const T& v, F f) { T l(v); const T c(v); switch (how) { case 0: f(l); break; case 1: f(c); break; default: f(T(v)); } }
template <class R> void cats() {
  using S = sig::slot<R(int)>; TR.clear(); S a, b; int kind = vp_pick(4, "kind"), h1 = vp_pick(3, "h1"), h2 = vp_pick(3, "h2"); bool eq; uint8_t k = sym8("k"), q = sym8("q"); int r = vp_int("r"); T<R> t[2]; t[0].id = t[1].id = 3; t[0].ret = t[1].ret = r; int w = vp_pick(2, "w");
  switch (kind) {
    case 0: each(h1, K<R, 0>(3, k, r), [&](auto&& f) { a = S(std::forward<decltype(f)>(f)); }); each(h2, K<R, 0>(3, q, r), [&](auto&& f) { b = S(std::forward<decltype(f)>(f)); }); eq = k == q; break;
    case 1: f_id[0] = f_id[1] = 3; f_ret[0] = f_ret[1] = r; if (h1 == 0) a = S(freefn<R, 0>); else if (h1 == 1) a = S(&freefn<R, 0>); else { auto p = &freefn<R, 0>; a = S(p); } if (h2 == 0) b = w ? S(freefn<R, 1>) : S(freefn<R, 0>); else if (h2 == 1) b = w ? S(&freefn<R, 1>) : S(&freefn<R, 0>); else { R (*const p)(int) = w ? &freefn<R, 1> : &freefn<R, 0>; b = S(p); } eq = !w; break;
    case 2: each(h1, &t[0], [&](auto&& p) { a = S(&T<R>::call, std::forward<decltype(p)>(p)); }); each(h2, &t[w], [&](auto&& p) { b = S(&T<R>::call, std::forward<decltype(p)>(p)); }); eq = !w; break;
    default: { V<R> v; v.id = k; v.ret = r; V<R> u; u.id = q; u.ret = r; each(h1, v, [&](auto&& p) { a = S(&V<R>::call, V<R>(p)); }); if (h2) b = S(&V<R>::call, u); else b = S(&V<R>::call, std::move(u)); eq = k == q; break; }
  }
  VP_ASSERT((a == b) == eq && (b == a) == eq && (a != b) == !eq, "equal exactly when the callables are, however they were passed"); VP_ASSERT(a == a && b == b, "reflexive"); S c(a); VP_ASSERT(c == a && (c == b) == eq, "copies");
  int x = vp_int("x"), y = x; auto ra = a(std::move(x)); auto rb = b(std::move(y)); VP_ASSERT(TR.n == 2 && TR.arg[0] == TR.arg[1], "both call"); int ret = r + (kind == 0); VP_ASSERT(res_is(ra, true, ret) && res_is(rb, true, ret), "results"); vp_cover(1 + kind); vp_cover(eq ? 10 : 11);
}
}
extern "C" void c14_cat_void() { cats<void>(); }
extern "C" void c14_cat_int() { cats<int>(); }
