// C15: invoking any supported callable through a slot equals calling it directly.
#include "common.h"
#include <functional>
namespace {
int calls; int last_a, last_b, last_who;
void rec(int who, int a, int b = 0) { ++calls; last_who = who; last_a = a; last_b = b; }
int fn(int a, int b) { rec(1, a, b); return a * 3 + b; }
int fn_nx(int a, int b) noexcept { rec(2, a, b); return a - b; }
void vfn(int a, int b) { rec(3, a, b); }
long fn_l(short a, unsigned char b) { rec(4, a, b); return (long)a * 1000 + b; }        // needs conversions
int fn_def(int a, int b) { rec(5, a, b); return a ^ b; }
struct Fun { int k; int operator()(int a, int b) const { rec(10, a, b); return a + b * k; } };
struct Cnt { int n; int operator()(int a, int) { rec(11, a, n); return n += a; } };      // own state
struct Over { int operator()(int a, int b) & { rec(12, a, b); return a; } int operator()(int a, int b) const& { rec(13, a, b); return b; } };
struct Base {
  int x = 0; virtual ~Base() {} virtual int vf(int a, int b) { rec(20, a, b); return x + a + b; } int nf(int a, int b) { rec(21, a, b); x += a; return x - b; } int cf(int a, int b) const { rec(22, a, b); return x ^ a ^ b; } int xf(int a, int b) noexcept { rec(23, a, b); return x + a - b; } void v(int a, int b) { rec(24, a, b); x = a; } static int sf(int a, int b) { rec(25, a, b); return a | b; }
  int rf(int a, int b) & { rec(27, a, b); return x + 2 * a + b; }
};
struct Other { int pad = 5; virtual int of(int a, int b) { rec(30, a, b); return pad + a; } virtual ~Other() {} };
struct Der : Other, Base { int y = 0; int vf(int a, int b) override { rec(26, a, b); return y - a - b; } int of(int a, int b) override { rec(31, a, b); return y + b; } };
using S = sig::slot<int(int, int)>;
// invoke a slot through one of the available routes
template <class SL> opt::optional<int> route(SL& s, int via, int a, int b) {
  switch (via) { case 0: { int x = a, y = b; return s(std::move(x), std::move(y)); }
    case 1: { SL c(s); int x = a, y = b; return c(std::move(x), std::move(y)); }
    case 2: { sig::signal<int(int, int)> sg; sg.connect(s); return sg(a, b); }
    default: { SL c(s); SL d(std::move(c)); c = d; int x = a, y = b; return c(std::move(x), std::move(y)); } }
}
void expect(opt::optional<int> r, int who, int a, int b, int v) {
  VP_ASSERT(calls == 1, "the callable is called exactly once"); VP_ASSERT(last_who == who && last_a == a && last_b == b, "the right callable with the right arguments"); VP_ASSERT(r.has_value(), "a value is produced"); VP_ASSERT(*r == v, "the value is the direct call's"); vp_log(*r);
}
template <class SL> void one(SL s, int who, int a, int b, int v) { int via = vp_pick(4, "via"); calls = 0; auto r = route(s, via, a, b); expect(r, who, a, b, v); vp_cover(20 + via); }
// the same callable connected directly
template <class... F> void direct(int who, int a, int b, int v, F&&... f) { sig::signal<int(int, int)> sg; if (vp_pick(2, "scoped")) { auto c = sg.connect_scoped(std::forward<F>(f)...); calls = 0; expect(sg(a, b), who, a, b, v); } else { sg.connect(std::forward<F>(f)...); calls = 0; expect(sg(a, b), who, a, b, v); } }
void kinds() {
  int a = vp_int("a"), b = vp_int("b"), k = vp_int("k"); int w = vp_pick(14, "what"); vp_cover(w + 1); bool dir = vp_pick(2, "direct");
  Fun f{k}; int cap = k; auto lam = [cap](int x, int y) { rec(40, x, y); return cap + x - y; }; auto rlam = [&cap](int x, int y) { rec(41, x, y); return cap - x + y; }; auto mut = [cap](int x, int y) mutable { rec(42, x, y); cap += x; return cap; };
  std::function<int(int, int)> sf = f; auto bnd = std::bind(&fn, std::placeholders::_2, std::placeholders::_1); int (*fp)(int, int) = fn_def;
  switch (w) {
    case 0: dir ? direct(1, a, b, a * 3 + b, &fn) : one(S(&fn), 1, a, b, a * 3 + b); break;
    case 1: dir ? direct(1, a, b, a * 3 + b, fn) : one(S(&fn), 1, a, b, a * 3 + b); break;
    case 2: dir ? direct(2, a, b, a - b, &fn_nx) : one(S(&fn_nx), 2, a, b, a - b); break;
    case 3: { long e = (long)(short)a * 1000 + (unsigned char)b; sig::signal<int(int, int)> sg; S s(&fn_l); if (dir) sg.connect(&fn_l); else sg.connect(s); calls = 0; auto r = sg(a, b); VP_ASSERT(calls == 1 && last_who == 4 && last_a == (short)a && last_b == (unsigned char)b, "converted arguments"); VP_ASSERT(r && *r == (int)e, "converted result"); break; }
    case 4: dir ? direct(5, a, b, a ^ b, fp) : one(S(fp), 5, a, b, a ^ b); break;
    case 5: dir ? direct(10, a, b, a + b * k, f) : one(S(f), 10, a, b, a + b * k); break;
    case 6: dir ? direct(10, a, b, a + b * k, Fun{k}) : one(S(Fun{k}), 10, a, b, a + b * k); break;
    case 7: { const Fun cf{k}; dir ? direct(10, a, b, a + b * k, cf) : one(S(cf), 10, a, b, a + b * k); break; }
    case 8: dir ? direct(40, a, b, k + a - b, lam) : one(S(lam), 40, a, b, k + a - b); break;
    case 9: dir ? direct(41, a, b, k - a + b, rlam) : one(S(rlam), 41, a, b, k - a + b); break;
    case 10: dir ? direct(42, a, b, k + a, mut) : one(S(mut), 42, a, b, k + a); break;
    case 11: dir ? direct(10, a, b, a + b * k, sf) : one(S(sf), 10, a, b, a + b * k); break;
    case 12: { int v = b * 3 + a; sig::signal<int(int, int)> sg; S s(bnd); if (dir) sg.connect(bnd); else sg.connect(s); calls = 0; auto r = sg(a, b); VP_ASSERT(calls == 1 && last_who == 1 && last_a == b && last_b == a && r && *r == v, "bound function"); break; }
    case 13: { auto cr = std::ref(f); int k2 = vp_int("k2"); S s(cr); sig::signal<int(int, int)> sg; if (dir) sg.connect(cr); else sg.connect(s); f.k = k2; calls = 0; auto r = sg(a, b); VP_ASSERT(calls == 1 && r && *r == a + b * k2, "a reference to a function object uses the original"); break; }
  }
}
template <class P> void member(P&& p, int how, int a, int b, int x, int y, bool der) {
  // expected results of the six members
  switch (how) {
    case 0: one(S(&Base::vf, p), der ? 26 : 20, a, b, der ? y - a - b : x + a + b); break;
    case 1: { S s(&Base::nf, p); calls = 0; int u = a, v = b; auto r = s(std::move(u), std::move(v)); expect(r, 21, a, b, x + a - b); break; }
    case 2: one(S(&Base::cf, p), 22, a, b, x ^ a ^ b); break;
    case 3: one(S(&Base::xf, p), 23, a, b, x + a - b); break;
    case 4: one(S(&Base::sf), 25, a, b, a | b); break;
    case 5: one(S(&Base::rf, p), 27, a, b, x + 2 * a + b); break;
    default: { sig::signal<int(int, int)> sg; if (how == 6) sg.connect(&Base::vf, p); else sg.connect(&Base::cf, p); calls = 0; auto r = sg(a, b); if (how == 6) expect(r, der ? 26 : 20, a, b, der ? y - a - b : x + a + b); else expect(r, 22, a, b, x ^ a ^ b); }
  }
  vp_cover(30 + how);
}
void members() {
  int a = vp_int("a"), b = vp_int("b"), x = vp_int("x"), y = vp_int("y"); int how = vp_pick(8, "how"), obj = vp_pick(9, "obj"); vp_cover(1 + obj);
  Base bo; bo.x = x; Der d; d.x = x; d.y = y; Base* pb = &d; auto sb = std::make_shared<Base>(); sb->x = x; auto sd = std::make_shared<Der>(); sd->x = x; sd->y = y; std::shared_ptr<Base> sdb = sd;
  switch (obj) {
    case 0: member(&bo, how, a, b, x, y, false); break; case 1: member(&d, how, a, b, x, y, true); break; case 2: member(pb, how, a, b, x, y, true); break;
    case 3: member(bo, how, a, b, x, y, false); break; case 4: member(d, how, a, b, x, y, true); break; case 5: member(std::ref(d), how, a, b, x, y, true); break;
    case 6: member(sb, how, a, b, x, y, false); break; case 7: member(sd, how, a, b, x, y, true); break; case 8: member(sdb, how, a, b, x, y, true); break;
  }
}
// which object a member slot works on: object copies are the slot's own, the others are the original
void which() {
  int n = vp_int("n"), a = vp_int("a"), a2 = vp_int("a2"); int how = vp_pick(6, "how"); bool viasig = vp_pick(2, "sig"); Base o; o.x = n; auto sp = std::make_shared<Base>(); sp->x = n; std::weak_ptr<Base> wp = sp;
  S s = how == 0 ? S(&Base::nf, &o) : how == 1 ? S(&Base::nf, o) : how == 2 ? S(&Base::nf, std::ref(o)) : how == 3 ? S(&Base::nf, sp) : how == 4 ? S(&Base::nf, wp) : S(&Base::nf, Base(o));
  sig::signal<int(int, int)> sg; if (viasig) sg.connect(s); int d = vp_int("d"); o.x = n + d; sp->x = n + d; bool own = how == 1 || how == 5; int base = own ? n : n + d;
  auto call = [&](int v) { int w = v, z = 0; return viasig ? sg(v, 0) : s(std::move(w), std::move(z)); };
  calls = 0; auto r = call(a); expect(r, 21, a, 0, base + a); auto r2 = call(a2); VP_ASSERT(calls == 2 && *r2 == base + a + a2, "the bound object keeps its state between invocations");
  Base& orig = how == 3 || how == 4 ? *sp : o; VP_ASSERT(orig.x == (own ? n + d : base + a + a2), "object copies leave the original alone, pointers and references use it"); vp_cover(1 + how);
  if (!viasig) { S c(s); s = S(); int w = a, z = 0; auto r3 = c(std::move(w), std::move(z)); VP_ASSERT(*r3 == base + a + a2 + a, "a copied slot continues from the copied state"); if (own) { S c2(c); int w1 = a, z1 = 0; c(std::move(w1), std::move(z1)); int w2 = a, z2 = 0; VP_ASSERT(*c2(std::move(w2), std::move(z2)) == base + a + a2 + a + a, "copies do not share the object"); } }
}
// function objects are stored by value and keep their own state
void state() {
  int n = vp_int("n"), a = vp_int("a"), b = vp_int("b"); bool lv = vp_pick(2, "lvalue"); Cnt c{n}; sig::signal<int(int, int)> sg; if (lv) sg.connect(c); else sg.connect(Cnt{n}); sg.connect(c); S s(c); c.n = vp_int("m"); int m = c.n;
  calls = 0; auto r = sg(a, 0); VP_ASSERT(calls == 2 && *r == n + a, "own state"); r = sg(b, 0); VP_ASSERT(calls == 4 && *r == n + a + b, "kept between invocations"); int u = b, z = 0; VP_ASSERT(*s(std::move(u), std::move(z)) == n + b, "independent of other slots"); VP_ASSERT(c.n == m, "the original object is not touched"); vp_cover(1);
}
struct Data { int v = 0; const int c = 9; Obj o; };
struct DataD : Other, Data {};
// pointers to data members
void data() {
  int n = vp_int("n"), m = vp_int("m"); int how = vp_pick(6, "how"); bool conn = vp_pick(2, "conn"); Data d; d.v = n; d.o.v = n; DataD e; e.v = n; auto sp = std::make_shared<Data>(); sp->v = n; using D = sig::slot<int()>; sig::signal<int()> sg; D s; int exp = m;
  switch (how) {
    case 0: s = D(&Data::v, &d); if (conn) sg.connect(&Data::v, &d); break; case 1: s = D(&Data::v, d); if (conn) sg.connect(&Data::v, d); exp = n; break; case 2: s = D(&Data::v, std::ref(d)); if (conn) sg.connect(&Data::v, std::ref(d)); break;
    case 3: s = D(&Data::v, sp); if (conn) sg.connect(&Data::v, sp); break; case 4: s = D(&Data::v, &e); if (conn) sg.connect(&Data::v, &e); break; default: s = D(&Data::c, &d); if (conn) sg.connect(&Data::c, &d); exp = 9; break;
  }
  d.v = m; e.v = m; sp->v = m; if (!conn) sg.connect(s); auto r = s(); VP_ASSERT(r && *r == exp, "a data member slot yields the member"); auto r2 = sg(); VP_ASSERT(r2 && *r2 == exp, "also through a signal"); VP_ASSERT(d.v == m && e.v == m && sp->v == m, "reading changes nothing"); vp_cover(1 + how);
  sig::slot<Obj()> os(&Data::o, &d); auto ro = os(); VP_ASSERT(ro && ro->v == n && d.o.v == n, "class member is copied"); ro = os(); VP_ASSERT(ro && ro->v == n, "again");
}
// result kinds
struct Conv { int v; operator int() const { return v; } };
void results() {
  int a = vp_int("a"), b = vp_int("b"); int w = vp_pick(12, "w"); vp_cover(1 + w);
  switch (w) {
    case 0: { sig::slot<void(int, int)> s(&vfn); calls = 0; int x = a, y = b; auto r = s(std::move(x), std::move(y)); VP_ASSERT(!r && calls == 1 && last_who == 3 && last_a == a && last_b == b, "void slot"); break; }
    case 1: { Base o; sig::slot<void(int, int)> s(&Base::v, &o); calls = 0; int x = a, y = b; s(std::move(x), std::move(y)); VP_ASSERT(calls == 1 && o.x == a, "void member"); break; }
    case 2: { sig::slot<bool(int, int)> s([](int x, int y) { rec(50, x, y); return x < y; }); int x = a, y = b; auto r = s(std::move(x), std::move(y)); VP_ASSERT(r && *r == (a < b), "bool result"); break; }
    case 3: { sig::slot<Obj(int, int)> s([](int x, int y) { rec(51, x, y); return Obj(x - y); }); calls = 0; int x = a, y = b; auto r = s(std::move(x), std::move(y)); VP_ASSERT(r && r->v == a - b && calls == 1, "class result"); break; }
    case 4: { sig::slot<long long(int, int)> s([](int x, int y) { rec(52, x, y); return (long long)x * y; }); int x = a, y = b; auto r = s(std::move(x), std::move(y)); VP_ASSERT(r && *r == (long long)a * b, "wide result"); break; }
    case 5: { sig::slot<void(int, int)> s([](int x, int y) { rec(53, x, y); return x; }); calls = 0; int x = a, y = b; auto r = s(std::move(x), std::move(y)); VP_ASSERT(!r && calls == 1 && last_a == a, "ignored result"); break; }
    case 7: { int g[2] = {a, b}; sig::slot<int&(int)> s([&g](int k) -> int& { ++calls; return g[k & 1]; }); calls = 0; int k = vp_pick(2, "k"); int kk = k; auto r = s(std::move(kk)); VP_ASSERT(r && calls == 1 && &*r == &g[k] && *r == (k ? b : a), "a returned reference is the object itself"); *r = 77; VP_ASSERT(g[k] == 77, "and can be written through"); break; }
    case 8: { sig::slot<std::unique_ptr<int>(int)> s([](int x) { ++calls; return std::unique_ptr<int>(new int(x)); }); calls = 0; int x = a; auto r = s(std::move(x)); VP_ASSERT(r && *r && **r == a && calls == 1, "move-only result"); break; }
    case 9: { Base o; o.x = b; const Base* cp = &o; sig::signal<int(int, int)> sg; S s(&Base::cf, cp); auto c1 = sg.connect(s); auto c2 = sg.connect(&Base::cf, cp); auto c3 = sg.connect(&Base::cf, std::cref(o)); calls = 0; auto r = sg(a, b); VP_ASSERT(calls == 3 && r && *r == (b ^ a ^ b), "const members of const objects"); break; }
    case 10: { Over ov; S s(ov); const Over& co = ov; S s2(co); calls = 0; int x = a, y = b; auto r = s(std::move(x), std::move(y)); VP_ASSERT(calls == 1 && last_who == 12 && r && *r == a, "called as the stored object"); x = a; y = b; r = s2(std::move(x), std::move(y)); VP_ASSERT(calls == 2 && last_who == 12 && r && *r == a, "also when it was given as const"); break; }
    case 11: { Data d; d.v = a; sig::slot<int&(Data&)> s(&Data::v); auto r = s(d); VP_ASSERT(r && &*r == &d.v, "a data member of an argument is the object itself"); Base o; o.x = b; sig::slot<int(Base&, int, int)> f(&Base::nf); calls = 0; int x = a, y = b; auto q = f(o, std::move(x), std::move(y)); VP_ASSERT(calls == 1 && last_who == 21 && o.x == (int)((unsigned)b + (unsigned)a) && q && *q == (int)((unsigned)o.x - (unsigned)b), "a member of an argument"); break; }
    case 6: { int arr[3] = {a, b, a}; sig::slot<int*(int*)> s([](int* p) { rec(54, *p); return p + 1; }); int* p = arr; auto r = s(std::move(p)); VP_ASSERT(r && *r == arr + 1 && **r == b && last_a == a, "pointer result"); break; }
  }
}
// arity
void arity() {
  int a = vp_int("a"), b = vp_int("b"), c = vp_int("c"), d = vp_int("d"), e = vp_int("e"); sig::signal<int()> s0; s0.connect([&] { rec(60, 0); return a; }); calls = 0; auto r = s0(); VP_ASSERT(r && *r == a && calls == 1, "no argument");
  sig::signal<int(int, short, int&, const Obj&, unsigned char)> s5; int seen = 0, ref = c; s5.connect([&](int p, short q, int& rr, const Obj& o, unsigned char u) { rec(61, p, q); seen = o.v + u; rr += 1; return p - q; }); Obj o(d); calls = 0; auto r5 = s5(a, (short)b, ref, o, (unsigned char)e); VP_ASSERT(r5 && *r5 == a - (short)b && seen == d + (unsigned char)e && ref == c + 1 && calls == 1 && o.v == d, "five arguments"); vp_cover(1);
}
}
extern "C" void c15_kinds() { kinds(); }
extern "C" void c15_members() { members(); }
extern "C" void c15_which() { which(); }
extern "C" void c15_state() { state(); }
extern "C" void c15_data() { data(); }
extern "C" void c15_results() { results(); }
extern "C" void c15_arity() { arity(); }
