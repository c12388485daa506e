// C02: every slot receives the emission's arguments intact.
#include "common.h"
namespace {
int live_objs = 0;
// Argument type: a consumed object is recognisable, and so is a use of a dead one.
struct Arg {
  int v; int tag; Arg(int x = 0, int t = 0) : v(x), tag(t) { ++live_objs; } Arg(const Arg& o) : v(o.v), tag(o.tag) { ++live_objs; }
  Arg(Arg&& o) noexcept : v(o.v), tag(o.tag) { o.v = -7777; o.tag = -1; ++live_objs; }
  Arg& operator=(const Arg& o) { v = o.v; tag = o.tag; return *this; } Arg& operator=(Arg&& o) noexcept { v = o.v; tag = o.tag; o.v = -7777; o.tag = -1; return *this; } ~Arg() { v = -8888; --live_objs; }
};
int X, TAG, calls; const void* ADDR; int order[8];
void got(int v, int t) { VP_ASSERT(v == X, "argument value intact"); VP_ASSERT(t == TAG, "all parts of the argument intact"); ++calls; }
// ---- by value signature; slots take it in every way and consume it
template <class R> R f_val(Arg a) { got(a.v, a.tag); Arg b(std::move(a)); a.v = 1; return mk<R>(b.v); }
template <class R> R f_ref(const Arg& a) { got(a.v, a.tag); return mk<R>(a.v); }
template <class R> R f_rv(Arg&& a) { got(a.v, a.tag); Arg b(std::move(a)); return mk<R>(b.v); }
template <class R> struct Obj2 {
  R val(Arg a) { got(a.v, a.tag); Arg b = std::move(a); a.v = 3; return mk<R>(b.v); }
  R rv(Arg&& a) { got(a.v, a.tag); Arg b(std::move(a)); return mk<R>(b.v); }
  R ref(const Arg& a) const { got(a.v, a.tag); return mk<R>(a.v); }
};
template <class R> struct FunVal { R operator()(Arg a) { got(a.v, a.tag); a.v = 9; return mk<R>(X); } };
template <class R> struct FunRv { R operator()(Arg&& a) const { got(a.v, a.tag); a.v = 11; a.tag = 12; return mk<R>(X); } };
template <class R> void byvalue(int maxn) {
  int l0 = live_objs;
  {
    sig::signal<R(Arg)> s; Obj2<R> o; auto sp = std::make_shared<Obj2<R>>(); calls = 0;
    int n = vp_pick(maxn, "n") + 1;
    for (int i = 0; i < n; ++i) switch (vp_pick(9, "kind")) {
      case 0: s.connect(&f_val<R>); break; case 1: s.connect(&f_ref<R>); break; case 2: s.connect(&f_rv<R>); break;
      case 3: s.connect(&Obj2<R>::val, &o); break; case 4: s.connect(&Obj2<R>::rv, sp); break; case 5: s.connect(&Obj2<R>::ref, o); break;
      case 6: s.connect(FunVal<R>()); break; case 7: s.connect(FunRv<R>()); break; default: s.connect([](Arg a) { got(a.v, a.tag); a.v = -5; Arg c(std::move(a)); return mk<R>(X); }); break; }
    X = vp_int("x"); TAG = vp_int("tag"); Arg a(X, TAG);
    auto r = s(a); VP_ASSERT(calls == n, "every slot ran"); VP_ASSERT(a.v == X && a.tag == TAG, "the caller's by-value argument is not modified"); vp_cover(1);
    auto r2 = s(a); VP_ASSERT(calls == 2 * n, "every slot ran again"); VP_ASSERT(a.v == X && a.tag == TAG, "the caller's by-value argument is not modified");
    auto r3 = s(Arg(X, TAG)); VP_ASSERT(calls == 3 * n, "temporary argument"); vp_cover(2);
    if (vp_pick(2, "mv")) { auto r4 = s(std::move(a)); VP_ASSERT(calls == 4 * n, "moved argument"); vp_cover(3); }
    vp_log(calls); vp_log((uint32_t)X);
  }
  VP_ASSERT(live_objs == l0, "argument copies are all destroyed");
}
// ---- reference signatures alias the caller's object
int step_ = 0;
template <class R> struct Inc {
  int d; R operator()(Arg& a) { VP_ASSERT(&a == ADDR, "reference parameter is the caller's object"); VP_ASSERT(a.v == X + step_, "changes of earlier slots are seen"); a.v += d; step_ += d; ++calls; return mk<R>(a.v); }
};
template <class R> struct IncP {
  int d; R go(Arg& a) { VP_ASSERT(&a == ADDR, "reference parameter is the caller's object"); VP_ASSERT(a.v == X + step_, "changes of earlier slots are seen"); a.v += d; step_ += d; ++calls; return mk<R>(a.v); }
};
template <class R> void byref(int maxn) {
  sig::signal<R(Arg&)> s; calls = 0; step_ = 0; int n = vp_pick(maxn + 1, "n"); IncP<R> p{vp_int("d")}; auto sp = std::make_shared<IncP<R>>(); sp->d = vp_int("d");
  for (int i = 0; i < n; ++i) switch (vp_pick(4, "kind")) {
    case 0: s.connect(Inc<R>{vp_int("d")}); break; case 1: s.connect(&IncP<R>::go, &p); break; case 2: s.connect(&IncP<R>::go, sp); break;
    default: s.connect([](Arg a) { VP_ASSERT(a.v == X + step_, "by-value slot sees current value"); a.v = 0; ++calls; return mk<R>(0); }); break; }
  X = vp_int("x"); Arg a(X, 3); ADDR = &a; s(a); VP_ASSERT(calls == n, "every slot ran"); VP_ASSERT(a.v == X + step_ && a.tag == 3, "changes are seen by the caller"); vp_cover(1);
  vp_log((uint32_t)a.v);
}
template <class R> void bycref(int maxn) {
  sig::signal<R(const Arg&)> s; calls = 0; int n = vp_pick(maxn + 1, "n"); Obj2<R> o; auto sp = std::make_shared<Obj2<R>>();
  for (int i = 0; i < n; ++i) switch (vp_pick(5, "kind")) {
    case 0: s.connect([](const Arg& a) { VP_ASSERT(&a == ADDR, "const reference is the caller's object"); got(a.v, a.tag); return mk<R>(0); }); break;
    case 1: s.connect(&f_val<R>); break; case 2: s.connect(&Obj2<R>::val, &o); break; case 3: s.connect(&Obj2<R>::ref, sp); break; default: s.connect(&f_ref<R>); break; }
  X = vp_int("x"); TAG = vp_int("tag"); Arg a(X, TAG); ADDR = &a; s(a); s(a); VP_ASSERT(calls == 2 * n, "every slot ran"); VP_ASSERT(a.v == X && a.tag == TAG, "caller's object not modified"); vp_cover(1); vp_log(calls);
}
template <class R> void byrref() {
  sig::signal<R(Arg&&)> s; calls = 0; int n = vp_pick(3, "n");
  for (int i = 0; i < n; ++i) { if (vp_pick(2, "kind")) s.connect([](Arg&& a) { VP_ASSERT(&a == ADDR, "rvalue reference is the caller's object"); got(a.v, a.tag); return mk<R>(0); }); else s.connect([](const Arg& a) { VP_ASSERT(&a == ADDR, "reference is the caller's object"); got(a.v, a.tag); return mk<R>(0); }); }
  bool eat = vp_pick(2, "eat"); if (eat) s.connect(&f_rv<R>);
  X = vp_int("x"); TAG = vp_int("tag"); Arg a(X, TAG); ADDR = &a; s(std::move(a)); VP_ASSERT(calls == n + eat, "every slot ran"); VP_ASSERT(a.v == (eat ? -7777 : X), "only the slot's own move changes the caller's object"); vp_cover(1);
}
// ---- move-only argument
struct MO { int v; MO(int x) : v(x) {} MO(MO&& o) noexcept : v(o.v) { o.v = -7777; } MO(const MO&) = delete; };
template <class R> void moveonly() {
  sig::signal<R(MO)> s; calls = 0; int n = vp_pick(3, "n"); X = vp_int("x");
  for (int i = 0; i < n; ++i) s.connect([](const MO& a) { VP_ASSERT(a.v == X, "move-only argument intact"); ++calls; return mk<R>(0); });
  bool last = vp_pick(2, "last"); if (last) s.connect([](MO a) { VP_ASSERT(a.v == X, "move-only argument intact"); ++calls; return mk<R>(0); });
  s(MO(X)); VP_ASSERT(calls == n + last, "every slot ran"); vp_cover(1);
}
// ---- several arguments of mixed kinds: nothing mixed up
struct Many { int a; long long b; unsigned char c; int* d; Arg* e; int n = 0; } M;
template <class R> R many(int a, long long b, unsigned char c, int& d, Arg e) {
  VP_ASSERT(a == M.a && b == M.b && c == M.c && &d == M.d, "arguments in their places"); VP_ASSERT(e.v == M.e->v && e.tag == M.e->tag, "fifth argument"); d += 1; ++M.n; e.v = 0; Arg f(std::move(e)); return mk<R>(a);
}
template <class R> struct ManyO { R m(int a, long long b, unsigned char c, int& d, Arg e) { return many<R>(a, b, c, d, std::move(e)); } R mr(const int& a, const long long& b, unsigned char c, int& d, Arg&& e) { return many<R>(a, b, c, d, std::move(e)); } };
template <class R> void five() {
  sig::signal<R(int, long long, unsigned char, int&, Arg)> s; ManyO<R> o; auto sp = std::make_shared<ManyO<R>>(); int n = vp_pick(3, "n") + 1;
  for (int i = 0; i < n; ++i) switch (vp_pick(4, "kind")) { case 0: s.connect(&many<R>); break; case 1: s.connect(&ManyO<R>::m, &o); break; case 2: s.connect(&ManyO<R>::mr, sp); break;
    default: s.connect([](int a, long long b, unsigned char c, int& d, const Arg& e) { return many<R>(a, b, c, d, e); }); break; }
  M = Many(); M.a = vp_int("a"); M.b = (long long)vp_sym(64, "b"); M.c = sym8("c"); int d0 = vp_int("d"), d = d0; M.d = &d; Arg e(vp_int("e1"), vp_int("e2")); M.e = &e; int ev = e.v, et = e.tag;
  s(M.a, M.b, M.c, d, e); VP_ASSERT(M.n == n && d == (int)((unsigned)d0 + n), "reference argument changed by each slot"); VP_ASSERT(e.v == ev && e.tag == et, "by-value argument unchanged"); vp_cover(1); vp_log(M.n); vp_log((uint32_t)d);
}
template <class R> void zero() { int k = 0; sig::signal<R()> s; int n = vp_pick(4, "n"); int v = vp_int("v"); for (int i = 0; i < n; ++i) s.connect([&] { ++k; return mk<R>(v); }); auto r = s(); VP_ASSERT(k == n, "no-argument slots"); VP_ASSERT(res_is(r, n > 0, v), "result"); vp_cover(1); }
// ---- argument types of every category, consumed in every way, by few and by many slots
enum class En : short { A, B };
struct Pod { int a; int b; bool operator==(const Pod& o) const { return a == o.a && b == o.b; } };
struct BigPod { long long a[5]; unsigned char c; bool operator==(const BigPod& o) const { for (int i = 0; i < 5; ++i) if (a[i] != o.a[i]) return false; return c == o.c; } };
struct TrivCopy { int a; TrivCopy() = default; TrivCopy(const TrivCopy&) = default; TrivCopy& operator=(const TrivCopy&) = default; bool operator==(const TrivCopy& o) const { return a == o.a; } };   // no separate move
struct CopyOnly { int a; CopyOnly(int x = 0) : a(x) {} CopyOnly(const CopyOnly& o) : a(o.a) {} CopyOnly& operator=(const CopyOnly& o) { a = o.a; return *this; } ~CopyOnly() { a = -8888; } bool operator==(const CopyOnly& o) const { return a == o.a; } };
struct Thrower { int a; Thrower(int x = 0) : a(x) {} Thrower(const Thrower& o) : a(o.a) {} Thrower(Thrower&& o) noexcept(false) : a(o.a) { o.a = -7777; } Thrower& operator=(const Thrower&) = default; Thrower& operator=(Thrower&& o) noexcept(false) { a = o.a; o.a = -7777; return *this; } bool operator==(const Thrower& o) const { return a == o.a; } };
template <class T> const T* WANT; int gots; int dummy_int[2];
template <class T> void other_value(T& x) { x = T(); }
template <> void other_value(int& x) { x ^= 1; } template <> void other_value(unsigned char& x) { x ^= 3; } template <> void other_value(En& x) { x = x == En::A ? En::B : En::A; } template <> void other_value(int*& x) { x = x == dummy_int ? dummy_int + 1 : dummy_int; }
template <> void other_value(Pod& x) { x.b ^= 1; } template <> void other_value(BigPod& x) { x.a[4] ^= 1; x.c ^= 1; } template <> void other_value(TrivCopy& x) { x.a ^= 1; } template <> void other_value(CopyOnly& x) { x.a ^= 1; } template <> void other_value(Thrower& x) { x.a ^= 1; }
template <class T> void seen(const T& x) { VP_ASSERT(x == *WANT<T>, "argument value intact"); ++gots; }
template <class R, class T> struct Take {
  R val(T x) { seen<T>(x); other_value(x); return mk<R>(1); } R rv(T&& x) { seen<T>(x); T y(std::move(x)); other_value(x); (void)y; return mk<R>(2); } R ref(const T& x) { seen<T>(x); return mk<R>(3); }
  static R sval(T x) { seen<T>(x); other_value(x); return mk<R>(4); } static R srv(T&& x) { seen<T>(x); other_value(x); return mk<R>(5); } static R sref(const T& x) { seen<T>(x); return mk<R>(6); }
};
template <class R, class T> void takes(const T& want, int n, bool every) {
  sig::signal<R(T)> s; Take<R, T> o; auto sp = std::make_shared<Take<R, T>>(); gots = 0; int pat = every ? 0 : vp_pick(3, "pattern");
  for (int i = 0; i < n; ++i) switch (every ? (int)vp_pick(7, "kind") : pat == 0 ? i % 7 : pat == 1 ? 1 : 5 - i % 4) {
    case 0: s.connect(&Take<R, T>::val, &o); break; case 1: s.connect(&Take<R, T>::rv, &o); break; case 2: s.connect(&Take<R, T>::ref, &o); break; case 3: s.connect(&Take<R, T>::rv, sp); break;
    case 4: s.connect(&Take<R, T>::srv); break; case 5: s.connect(&Take<R, T>::sval); break; default: s.connect([](T&& x) { seen<T>(x); other_value(x); return mk<R>(7); }); break; }
  const T keep(want); WANT<T> = &keep; T a(want); s(a); VP_ASSERT(gots == n && a == keep, "every slot ran, the caller's object is not modified"); s(T(want)); VP_ASSERT(gots == 2 * n, "temporary argument"); s(want); VP_ASSERT(gots == 3 * n && want == keep, "constant argument"); vp_log(gots);
}
template <class R> void types(int n, bool every) {
  switch (vp_pick(10, "type")) {
  case 0: takes<R, int>(vp_int("x"), n, every); break; case 1: takes<R, unsigned char>(sym8("x"), n, every); break; case 2: takes<R, En>(vp_flag("x") ? En::A : En::B, n, every); break; case 3: takes<R, int*>(dummy_int, n, every); break;
  case 4: takes<R, Pod>(Pod{vp_int("x"), vp_int("y")}, n, every); break; case 5: { BigPod b{}; for (auto& q : b.a) q = (long long)vp_sym(64, "q"); b.c = sym8("c"); takes<R, BigPod>(b, n, every); break; } case 6: { TrivCopy t; t.a = vp_int("x"); takes<R, TrivCopy>(t, n, every); break; } case 7: takes<R, CopyOnly>(CopyOnly(vp_int("x")), n, every); break;
  case 8: takes<R, Thrower>(Thrower(vp_int("x")), n, every); break; default: { auto p = std::make_shared<int>(3); takes<R, std::shared_ptr<int>>(p, n, every); VP_ASSERT(p.use_count() == 1, "no copy of the argument is kept"); break; } }
  vp_cover(1);
}
// ---- emissions inside emissions, with other arguments: each slot still gets its own emission's
struct NestW { sig::signal<void(int, Arg, int&)>* s; int x[3], y[3]; int* r[3]; int seen[3]; int at; int who, lvl; sig::connection c[4]; };
NestW* NW;
void nest_slot(int id, int x, Arg a, int& r) {
  int d = a.tag; VP_ASSERT(d >= 0 && d < 3 && x == NW->x[d] && a.v == NW->y[d] && &r == NW->r[d], "arguments of this emission, not of another one under way"); ++NW->seen[d]; r = (int)((unsigned)r + 1);
  if (id == NW->who && d < NW->lvl) { switch (NW->at) { case 1: NW->c[2].disconnect(); NW->c[2] = NW->s->connect([](int x2, Arg a2, int& r2) { nest_slot(9, x2, std::move(a2), r2); }); break; case 2: NW->c[2].block(); break; } (*NW->s)(NW->x[d + 1], Arg(NW->y[d + 1], d + 1), *NW->r[d + 1]); }
  x = 0; a.v = 1; a.tag = 77;
}
void nestedargs() {
  sig::signal<void(int, Arg, int&)> s; NestW w; NW = &w; w.s = &s; int r[3], r0[3]; for (int i = 0; i < 3; ++i) { w.x[i] = vp_int("x"); w.y[i] = vp_int("y"); r0[i] = r[i] = vp_int("r"); w.r[i] = &r[i]; w.seen[i] = 0; }
  w.who = vp_pick(3, "who"); w.lvl = vp_pick(3, "lvl"); w.at = vp_pick(3, "at");
  w.c[0] = s.connect([](int x, Arg a, int& q) { nest_slot(0, x, a, q); }); w.c[1] = s.connect([](int x, const Arg& a, int& q) { nest_slot(1, x, a, q); }); w.c[2] = s.connect([](int&& x, Arg&& a, int& q) { int xx = x; Arg b(std::move(a)); x = 5; nest_slot(2, xx, std::move(b), q); });
  s(w.x[0], Arg(w.y[0], 0), r[0]); VP_ASSERT(w.seen[0] >= 2, "slots ran"); for (int i = 0; i < 3; ++i) VP_ASSERT(r[i] == (int)((unsigned)r0[i] + w.seen[i]), "reference arguments are the caller's own"); vp_cover(1); vp_log(w.seen[0] * 100 + w.seen[1] * 10 + w.seen[2]);
}
// ---- emissions of other signals (of the same type, with other numbers of slots) inside slots: the arguments of the outer emission stay what they are
struct OthW { int v[3], tag[3], seen[3]; void* next[3]; int who[3], how; };
OthW* OW;
template <class Sig, class R> R oth_slot(int lvl, int id, Arg a) {
  OthW& w = *OW; VP_ASSERT(a.v == w.v[lvl] && a.tag == w.tag[lvl], "arguments of this emission, whatever other signals emitted meanwhile"); ++w.seen[lvl];
  if (lvl < 2 && w.next[lvl + 1] && w.who[lvl] == id) {
    Sig& q = *static_cast<Sig*>(w.next[lvl + 1]); Arg b(w.v[lvl + 1], w.tag[lvl + 1]);
    switch (w.how) { case 0: q(b); break; case 1: q(std::move(b)); break; default: { w.v[lvl + 1] = a.v; w.tag[lvl + 1] = a.tag; q(a); VP_ASSERT(a.v == w.v[lvl] && a.tag == w.tag[lvl], "the argument passed on is intact"); } }
  }
  Arg c(std::move(a)); a.v = 3; return mk<R>(c.v);
}
template <class Sig, class R> void oth_fill(Sig& s, int lvl, int n, bool mix) {
  for (int i = 0; i < n; ++i) switch (mix ? i % 3 : 0) {
    case 0: s.connect([lvl, i](Arg a) { return oth_slot<Sig, R>(lvl, i, std::move(a)); }); break; case 1: s.connect([lvl, i](Arg&& a) { Arg b(std::move(a)); return oth_slot<Sig, R>(lvl, i, std::move(b)); }); break;
    default: s.connect([lvl, i](const Arg& a) { return oth_slot<Sig, R>(lvl, i, a); }); break; }
}
template <class Sig, class R> void others(int maxn) {
  Sig s0, s1, s2; OthW w; OW = &w; for (int i = 0; i < 3; ++i) { w.v[i] = vp_int("v"); w.tag[i] = vp_int("tag"); w.seen[i] = 0; w.next[i] = nullptr; w.who[i] = 0; }
  int n0 = vp_pick(maxn, "n0") + 1, n1 = vp_pick(3, "n1"), n2 = n1 ? vp_pick(3, "n2") : 0; bool mix = vp_pick(2, "mix"); w.next[1] = &s1; w.next[2] = n2 ? &s2 : nullptr; w.who[0] = vp_pick(n0, "who0"); w.who[1] = n2 ? vp_pick(n1, "who1") : 0; w.how = vp_pick(3, "how");
  oth_fill<Sig, R>(s0, 0, n0, mix); oth_fill<Sig, R>(s1, 1, n1, mix); oth_fill<Sig, R>(s2, 2, n2, mix);
  Arg a(w.v[0], w.tag[0]); int v0 = w.v[0], t0 = w.tag[0]; s0(a); VP_ASSERT(w.seen[0] == n0 && w.seen[1] == n1 && w.seen[2] == n2, "every slot of every signal ran, once for each emission"); VP_ASSERT(a.v == v0 && a.tag == t0, "the caller's by-value argument is not modified");
  vp_cover(1); vp_log(w.seen[0] * 100 + w.seen[1] * 10 + w.seen[2]);
}
// ---- combiners that look at results in unusual ways: whenever a slot runs, it gets the emission's arguments
struct Way { typedef int result_type; template <class O> static void add(int& s, O&& o) { s = (int)((unsigned)s + (o ? (unsigned)*o : 0u)); }
  template <class It> int operator()(It b, It e) const { int sum = 0; switch (OW->how) {
    case 0: for (It i = b; i != e; ++i) add(sum, *i); for (It i = b; i != e; ++i) add(sum, *i); break;                  // the whole range, twice
    case 1: for (It i = b; i != e;) { add(sum, *i); It j = i; ++i; if (i != e) add(sum, *i); add(sum, *j); } break;      // backwards and forwards
    case 2: for (It i = b; i != e;) { It j = i++; add(sum, *j); } break;
    case 3: if (b != e) { add(sum, *b); for (It i = ++b; i != e; ++i) ; for (; b != e; ++b) add(sum, *b); } break;       // one pass without invocations in between
    default: for (; b != e; ++b) { add(sum, *b); add(sum, *b); } } return sum; } };
void ways() {
  typedef sig::signal<int(Arg), Way> Sig; Sig s; OthW w; OW = &w; for (int i = 0; i < 3; ++i) { w.v[i] = vp_int("v"); w.tag[i] = vp_int("tag"); w.seen[i] = 0; w.next[i] = nullptr; w.who[i] = 0; }
  int n = vp_pick(4, "n"); w.how = vp_pick(5, "how"); oth_fill<Sig, int>(s, 0, n, vp_pick(2, "mix")); Arg a(w.v[0], w.tag[0]); s(a); s(std::move(a)); VP_ASSERT(w.seen[0] >= 2 * n, "every slot ran"); vp_cover(1); vp_log(w.seen[0]);
}
// ---- threads emitting at the same time, each with its own arguments
struct TArg { int v, tag; TArg(int a, int b) : v(a), tag(b) {} TArg(const TArg& o) : v(o.v), tag(o.tag) {} TArg(TArg&& o) : v(o.v), tag(o.tag) { o.v = -7777; o.tag = -1; } ~TArg() { v = -8888; } };
struct ThW { sig::signal<int(int, int&, TArg)> s; int x[2], v[2], ref[2], n[2] = {0, 0}, res[2]; bool eng[2]; } * TW;
int th_slot(int k, int x, int& r, TArg a) { int t = a.tag; VP_ASSERT(t == 0 || t == 1, "one of the emissions"); VP_ASSERT(x == TW->x[t] && a.v == TW->v[t] && &r == &TW->ref[t], "arguments of this thread's emission"); r = (int)((unsigned)r + k); ++TW->n[t]; return (int)((unsigned)x + k); }
struct ThO { int m(int x, int& r, TArg&& a) { TArg b(std::move(a)); return th_slot(2, x, r, b); } };
void th_body(void* p) { int t = *static_cast<int*>(p); TArg a(TW->v[t], t); auto o = TW->s(TW->x[t], TW->ref[t], a); TW->eng[t] = bool(o); TW->res[t] = o ? *o : 0; }
void threads(bool extra) {
  ThW w; TW = &w; ThO o; auto sp = std::make_shared<ThO>(); int r0[2]; for (int t = 0; t < 2; ++t) { w.x[t] = vp_int("x"); w.v[t] = vp_int("v"); r0[t] = w.ref[t] = vp_int("r"); }
  int n = 0, sum = 0, lastk = 0; auto c1 = w.s.connect([](int x, int& r, TArg a) { return th_slot(1, x, r, std::move(a)); }); ++n; sum += 1; lastk = 1;
  switch (vp_pick(3, "second")) { case 0: w.s.connect(&ThO::m, &o); ++n; sum += 2; lastk = 2; break; case 1: w.s.connect(&ThO::m, sp); ++n; sum += 2; lastk = 2; break; default: break; } if (extra) { w.s.connect([](const int& x, int& r, const TArg& a) { return th_slot(4, x, r, a); }); ++n; sum += 4; lastk = 4; }
  int id[2] = {0, 1}; void (*fs[])(void*) = {th_body, th_body}; void* as[] = {&id[0], &id[1]}; vp_parallel(2, fs, as);
  for (int t = 0; t < 2; ++t) { VP_ASSERT(w.n[t] == n, "every slot ran for each emission"); VP_ASSERT(w.ref[t] == (int)((unsigned)r0[t] + sum), "reference argument"); VP_ASSERT(w.eng[t] && w.res[t] == (int)((unsigned)w.x[t] + lastk), "result computed from this emission's arguments"); } vp_cover(1);
}
}
extern "C" void c02_nested() { nestedargs(); }
extern "C" void c02_others_void() { others<sig::signal<void(Arg)>, void>(Q(3, 5)); }
extern "C" void c02_others_int() { others<sig::signal<int(Arg)>, int>(Q(3, 5)); }
extern "C" void c02_ways() { ways(); }
extern "C" void c02_threads() { threads(TIER); }
extern "C" void c02_val_void() { byvalue<void>(Q(2, 3)); }
extern "C" void c02_val_int() { byvalue<int>(Q(2, 3)); }
extern "C" void c02_ref_void() { byref<void>(Q(2, 4)); }
extern "C" void c02_ref_int() { byref<int>(Q(2, 4)); }
extern "C" void c02_cref_void() { bycref<void>(Q(2, 3)); }
extern "C" void c02_cref_int() { bycref<int>(Q(2, 3)); }
extern "C" void c02_misc() { switch (vp_pick(8, "m")) { case 0: byrref<void>(); break; case 1: byrref<int>(); break; case 2: moveonly<void>(); break; case 3: moveonly<int>(); break; case 4: five<void>(); break; case 5: five<int>(); break; case 6: zero<void>(); break; default: zero<int>(); break; } }
extern "C" void c02_types_void() { types<void>(Q(2, 3), true); }
extern "C" void c02_types_int() { types<int>(2, true); }
extern "C" void c02_many() { static const int sizes[] = {1, 4, 9, 17, 40}; int n = sizes[vp_pick(5, "size")]; if (vp_pick(2, "r")) types<void>(n, false); else types<int>(n, false); }
