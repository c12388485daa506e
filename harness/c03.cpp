// C03: the emission result is the combiner's result over the slots' results in order.
#include "common.h"
namespace {
const int MX = 5;
enum { ACTIVE, BLOCKED, GONE, EXPIRED };
template <class Sig, class R> struct Setup {
  int n, st[MX], ret[MX]; int ord[MX], m = 0; sig::connection c[MX]; std::shared_ptr<Target<R>> sp[MX]; Target<R> t[MX];
  void make(Sig& s, int maxn) {
    n = vp_pick(maxn + 1, "n");
    for (int i = 0; i < n; ++i) {
      st[i] = vp_pick(4, "st"); ret[i] = std::is_same<R, bool>::value ? (int)(vp_sym(1, "ret")) : vp_int("ret"); ord[m++] = i;
      if (st[i] == EXPIRED) { sp[i] = std::make_shared<Target<R>>(); sp[i]->id = i; sp[i]->ret = ret[i]; c[i] = s.connect(&Target<R>::call, sp[i]); }
      else if (i & 1) { t[i].id = i; t[i].ret = ret[i]; c[i] = s.connect(&Target<R>::call, &t[i]); }
      else c[i] = s.connect(Fn<R>{i, (uint8_t)i, ret[i]});
    }
    for (int i = 0; i < n; ++i) {
      if (st[i] == BLOCKED) c[i].block();
      if (st[i] == EXPIRED) sp[i].reset();
      if (st[i] == GONE) { c[i].disconnect(); int p = 0; while (ord[p] != i) ++p; ord[p] = ord[--m]; }
    }
  }
};
template <class R> void deflt(int maxn) {
  sig::signal<R(int)> s; Setup<sig::signal<R(int)>, R> u; TR.clear(); u.make(s, maxn);
  int last = -1; for (int i = 0; i < u.m; ++i) if (u.st[u.ord[i]] == ACTIVE) last = u.ord[i];
  for (int k = 0; k < 2; ++k) { auto r = s(3); VP_ASSERT(res_is(r, last >= 0, last >= 0 ? u.ret[last] : 0), "result of the last slot that produced a value, or nothing"); vp_log(!!r); }
  vp_cover(last >= 0 ? 1 : 2);
}
void dvoid(int maxn) { sig::signal<void(int)> s; Setup<sig::signal<void(int)>, void> u; u.make(s, maxn); TR.clear(); auto r = s(3); VP_ASSERT(!r && !r.has_value(), "void slots give a disengaged result"); vp_cover(1); }
// ---- user supplied combiners
struct Plan { int mode; unsigned mask; int stop; int magic; } plan;
struct Seen { int n = 0; bool deref[12]; bool eng[12]; int val[12]; int start[12]; int inv[12]; int ret = 0; };
template <class R> struct Get { static void get(opt::optional<R> o, bool& e, int& v) { e = bool(o); v = e ? (int)*o : 0; } };
template <> struct Get<Obj> { static void get(opt::optional<Obj> o, bool& e, int& v) { e = bool(o); v = e ? o->v : 0; } };
template <> struct Get<void> { static void get(opt::optional<void> o, bool& e, int& v) { e = bool(o); v = 0; } };
template <class R> struct Probe {
  using result_type = Seen;
  template <class It> Seen operator()(It first, It last) const {
    Seen s; It b(first); VP_ASSERT(b == first, "iterator copies compare equal");
    while (first != last) {
      VP_ASSERT(!(first == last), "== and != agree"); VP_ASSERT(s.n < 12, "too many elements");
      int k = s.n; s.deref[k] = false; s.eng[k] = false; s.val[k] = 0; s.inv[k] = TR.n;
      if (plan.mode == 1 && k == plan.stop) break;
      if (plan.mode == 2 && !((plan.mask >> k) & 1)) { ++first; ++s.n; continue; }
      s.deref[k] = true;
      if (plan.mode == 3) { It old = first++; VP_ASSERT(old != first, "post-increment returns the old position"); Get<R>::get(*old, s.eng[k], s.val[k]); ++s.n; s.inv[k] = TR.n - s.inv[k]; continue; }
      Get<R>::get(*first, s.eng[k], s.val[k]); s.inv[k] = TR.n - s.inv[k];
      It& f2 = ++first; VP_ASSERT(&f2 == &first, "pre-increment returns itself"); ++s.n;
    }
    s.ret = plan.magic; return s;
  }
};
template <class R> void custom(int maxn) {
  using Sig = sig::signal<R(int), Probe<R>>; Sig s; Setup<Sig, R> u; TR.clear(); u.make(s, maxn);
  plan.mode = vp_pick(4, "mode"); plan.mask = 0; plan.stop = 99; plan.magic = vp_int("magic");
  if (plan.mode == 1) plan.stop = vp_pick(maxn + 1, "stop");
  if (plan.mode == 2) plan.mask = vp_pick(1u << (u.m > 4 ? 4 : u.m), "mask");
  TR.clear(); Seen r = s(7); VP_ASSERT(r.ret == plan.magic, "the emission returns what the combiner returns");
  // elements: one per connected slot in order; an expired slot may or may not have one
  int k = 0, inv = 0; bool stopped = false;
  for (int i = 0; i < u.m && !stopped; ++i) {
    int id = u.ord[i];
    if (plan.mode == 1 && k == plan.stop) { stopped = true; break; }
    if (u.st[id] == EXPIRED) { if (k < r.n && !(r.deref[k] && r.eng[k]) && !(r.deref[k] && r.inv[k])) ++k; continue; }
    VP_ASSERT(k < r.n, "one element per connected slot");
    if (r.deref[k]) {
      bool act = u.st[id] == ACTIVE; VP_ASSERT(r.inv[k] == (act ? 1 : 0), "a dereference invokes the active slot once, and a blocked one not at all");
      if (act) { VP_ASSERT(TR.id[inv] == id, "the slot that belongs to the element"); ++inv; }
      if (!std::is_void<R>::value) { VP_ASSERT(r.eng[k] == act, "element of a blocked slot is disengaged, of an active slot engaged"); if (act) VP_ASSERT(r.val[k] == u.ret[id], "element value is the slot's result"); }
      else VP_ASSERT(!r.eng[k], "void element");
    }
    ++k;
  }
  VP_ASSERT(TR.n == inv, "slots whose element is not dereferenced are not invoked"); VP_ASSERT(k == r.n, "no surplus elements");
  vp_cover(10 + plan.mode); vp_log(TR.n); vp_log(r.n);
}
// ---- other result types
struct Sum { using result_type = long long; template <class It> long long operator()(It f, It l) const { long long t = 0; for (; f != l; ++f) { auto o = *f; if (o) t += *o; } return t; } };
struct Any { using result_type = bool; template <class It> bool operator()(It f, It l) const { while (f != l) { if (auto o = *f) if (*o > 0) return true; ++f; } return false; } };
struct Count { using result_type = int; template <class It> int operator()(It f, It l) const { int n = 0; for (; f != l; ++f) { *f; ++n; } return n; } };
struct Stateful { using result_type = int; int seen = 0, total = 0; template <class It> int operator()(It f, It l) { for (; f != l; ++f) { auto o = *f; ++seen; if (o) total = (int)((unsigned)total * 3u + (unsigned)*o); } return seen > 9 ? -5 : total; } };   // every emission starts afresh
struct Uniq { using result_type = std::unique_ptr<int>; template <class It> std::unique_ptr<int> operator()(It f, It l) const { std::unique_ptr<int> r; for (; f != l; ++f) { auto o = *f; if (o) r.reset(new int(*o)); } return r; } };
struct First { using result_type = opt::optional<int>; template <class It> opt::optional<int> operator()(It f, It l) const { for (; f != l; ++f) { opt::optional<int> o = *f; if (o) return o; } return opt::nullopt; } };
struct Nothing { using result_type = Obj; template <class It> Obj operator()(It, It) const { return Obj(4711); } };
void types() {
  int n = vp_pick(Q(4, 5), "n"); int v[5]; TR.clear(); for (int i = 0; i < n; ++i) v[i] = vp_int("v");
  switch (vp_pick(7, "t")) {
  case 4: { sig::signal<int(int), Stateful> s; unsigned e = 0; for (int i = 0; i < n; ++i) { s.connect(Fn<int>{i, 0, v[i]}); e = e * 3u + (unsigned)v[i]; } for (int k = 0; k < 4; ++k) { VP_ASSERT(s(1) == (int)e, "the combiner's result for this emission"); VP_ASSERT(TR.n == n * (k + 1), "each slot once per emission"); } sig::signal<int(int), Stateful> o; VP_ASSERT(o(1) == 0, "another signal's emission"); vp_cover(24); break; }
  case 5: { sig::signal<int(int), Uniq> s; for (int i = 0; i < n; ++i) s.connect(Fn<int>{i, 0, v[i]}); std::unique_ptr<int> r = s(1), q = s(1); VP_ASSERT(!!r == (n > 0) && !!q == (n > 0) && (!n || (*r == v[n - 1] && *q == v[n - 1] && r != q)), "a move-only combined result"); vp_cover(25); break; }
  case 6: { sig::signal<int(int), First> s; sig::connection c[5]; int b = vp_pick(n + 1, "b"); for (int i = 0; i < n; ++i) { c[i] = s.connect(Fn<int>{i, 0, v[i]}); if (i < b) c[i].block(); } auto r = s(1); VP_ASSERT(bool(r) == (b < n) && (b >= n || *r == v[b]) && TR.n == (b < n), "the first result, and no slot after it"); vp_cover(26); break; }
  case 0: { sig::signal<int(int), Sum> s; long long e = 0; for (int i = 0; i < n; ++i) { s.connect(Fn<int>{i, 0, v[i]}); e += v[i]; } VP_ASSERT(s(1) == e, "sum of all results"); vp_cover(20); break; }
  case 1: { sig::signal<int(int), Any> s; int k = 0; bool e = false; for (int i = 0; i < n; ++i) s.connect(Fn<int>{i, 0, v[i]}); bool r = s(1); for (int i = 0; i < n && !e; ++i) { ++k; if (v[i] > 0) e = true; } VP_ASSERT(r == e, "any"); VP_ASSERT(TR.n == k, "slots after the combiner stopped are not invoked"); vp_cover(21); break; }
  case 2: { sig::signal<void(int), Count> s; for (int i = 0; i < n; ++i) s.connect(Fn<void>{i, 0, v[i]}); VP_ASSERT(s(1) == n && TR.n == n, "count of void slots"); vp_cover(22); break; }
  default: { sig::signal<int(int), Nothing> s; for (int i = 0; i < n; ++i) s.connect(Fn<int>{i, 0, v[i]}); Obj o = s(1); VP_ASSERT(o.v == 4711 && TR.n == 0, "a combiner that dereferences nothing invokes nothing"); vp_cover(23); break; }
  }
}
// many slots: the last result, and the whole range to a combiner
struct Col { using result_type = long; template <class It> long operator()(It f, It l) const { long t = 0, k = 1; for (; f != l; ++f) { auto o = *f; if (o) { t += k * *o; ++k; } } return t; } };
void manyslots() {
  const int sizes[] = {17, 33, 70, 130}; int n = sizes[vp_pick(4, "size")]; int v = vp_int("v"); vp_assume(v >= 0 && v < 1000); int at = vp_pick(3, "at"); int p = at == 0 ? 0 : at == 1 ? n / 2 : n - 1; static sig::connection c[140];
  {
    sig::signal<int(int)> s; sig::signal<int(int), Col> t; long e = 0, k = 1; bool b = vp_pick(2, "blk"); for (int i = 0; i < n; ++i) { int x = i == p ? v : i; c[i] = s.connect(BFn<int>{i, i, x}); auto d = t.connect(BFn<int>{i, i, x}); if (b && i % 5 == 0) { c[i].block(); d.block(); } else { e += k * x; ++k; } }
    BT.clear(); auto r = s(1); int last = n - 1; while (b && last % 5 == 0) --last; VP_ASSERT(r && *r == (last == p ? v : last), "the last active slot's result"); BT.clear(); VP_ASSERT(t(1) == e, "the combiner sees every result in order");
  }
  for (auto& x : c) x = sig::connection(); vp_cover(1);
}
// ---- emissions inside emissions and in other threads: each has its own result
sig::signal<int(int)>* NS_; sig::signal<Obj(int)>* NO_; int nv[3]; int nwho, nlvl, inner[3]; bool innere[3];
int n_int(int id, int d) { if (id == nwho && d < nlvl) { auto r = (*NS_)(d + 1); innere[d + 1] = bool(r); inner[d + 1] = r ? *r : 0; } return (int)((unsigned)nv[id] + d); }
Obj n_obj(int id, int d) { if (id == nwho && d < nlvl) { auto r = (*NO_)(d + 1); innere[d + 1] = bool(r); inner[d + 1] = r ? r->v : 0; } return Obj((int)((unsigned)nv[id] + d)); }
void nested() {
  sig::signal<int(int)> si; sig::signal<Obj(int)> so; NS_ = &si; NO_ = &so; for (int& x : nv) x = vp_int("nv"); nwho = vp_pick(3, "who"); nlvl = vp_pick(3, "lvl"); int blk = vp_pick(4, "blk"); for (bool& e : innere) e = false; bool obj = vp_pick(2, "obj");
  sig::connection c[3]; for (int i = 0; i < 3; ++i) { c[i] = obj ? so.connect([i](int d) { return n_obj(i, d); }) : si.connect([i](int d) { return n_int(i, d); }); if (blk == i) c[i].block(); }
  int last = blk == 2 ? 1 : 2; bool ran = blk != nwho; bool e; int v; if (obj) { auto r = so(0); e = bool(r); v = r ? r->v : 0; } else { auto r = si(0); e = bool(r); v = r ? *r : 0; }
  VP_ASSERT(e && v == nv[last], "the outer emission's result"); for (int d = 1; d <= 2; ++d) { VP_ASSERT(innere[d] == (ran && d <= nlvl), "inner emission ran"); if (innere[d]) VP_ASSERT(inner[d] == (int)((unsigned)nv[last] + d), "the inner emission's own result"); } vp_cover(1);
}
struct T3 { sig::signal<int(int)> s; int x[2], res[2]; bool eng[2]; } * T3W;
void t3_body(void* q) { int t = *static_cast<int*>(q); auto r = T3W->s(T3W->x[t]); T3W->eng[t] = bool(r); T3W->res[t] = r ? *r : 0; }
void threads(bool third) {
  T3 w; T3W = &w; for (int& x : w.x) x = vp_int("x"); auto sp = std::make_shared<int>(0); auto a = w.s.connect([](int x) { return (int)((unsigned)x + 1); }); auto b = w.s.connect([](int x) { return (int)((unsigned)x * 3u); }); if (third) w.s.connect([](int x) { return x ^ 5; }); bool blk = vp_pick(2, "blk"); if (blk) (third ? a : b).block();
  int id[2] = {0, 1}; void (*fs[])(void*) = {t3_body, t3_body}; void* as[] = {&id[0], &id[1]}; vp_parallel(2, fs, as);
  for (int t = 0; t < 2; ++t) VP_ASSERT(w.eng[t] && w.res[t] == (third ? w.x[t] ^ 5 : blk ? (int)((unsigned)w.x[t] + 1) : (int)((unsigned)w.x[t] * 3u)), "each emission returns its own last result"); vp_cover(1);
}
}
extern "C" void c03_nested() { nested(); }
extern "C" void c03_threads() { threads(TIER); }
extern "C" void c03_int() { deflt<int>(Q(4, 5)); }
extern "C" void c03_bool() { deflt<bool>(Q(3, 5)); }
extern "C" void c03_obj() { deflt<Obj>(Q(4, 5)); }
extern "C" void c03_void() { dvoid(3); }
extern "C" void c03_cint() { custom<int>(Q(3, 4)); }
extern "C" void c03_cobj() { custom<Obj>(Q(2, 4)); }
extern "C" void c03_cvoid() { custom<void>(Q(3, 4)); }
extern "C" void c03_types() { types(); }
extern "C" void c03_many() { manyslots(); }
