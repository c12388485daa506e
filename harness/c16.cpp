// C16: copy-on-write handles.
#include "common.h"
namespace {
int born, died, copies;
struct X {
  int v, w; int tag = 777; X(int a, int b) : v(a), w(b) { ++born; } X() : v(0), w(0) { ++born; } X(const X& o) : v(o.v), w(o.w) { VP_ASSERT(o.tag == 777, "copied from a live value"); ++born; ++copies; }
  X& operator=(const X& o) { v = o.v; w = o.w; return *this; } ~X() { VP_ASSERT(tag == 777, "a value is destroyed once"); tag = 0; ++died; }
};
using P = sig::detail::cow_ptr<X>;
enum { COPYC, COPYA, MOVEC, MOVEA, SELFA, SETP, RESET, WSTAR, WARROW, WCONV, WDATA, WWRITE, READ, SWAP, MAKE, CONSTC, NOPS };
// reference model: every handle names a cell; cells hold a symbolic value
struct Mdl { static const int N = 4, C = 24; int cell[N]; int v[C], w[C], rc[C]; int n = 0; Mdl() { for (int& c : cell) c = -1; } int fresh(int a, int b) { v[n] = a; w[n] = b; rc[n] = 0; return n++; } void set(int i, int c) { if (c >= 0) ++rc[c]; if (cell[i] >= 0) --rc[cell[i]]; cell[i] = c; } };
template <bool Full> void machine(int steps, int handles, int nstart) {
  born = died = copies = 0; int64_t l0 = vp_live();
  {
    P* h[Mdl::N]; Mdl m; for (int i = 0; i < handles; ++i) h[i] = new P;
    for (int i = 0; i < nstart; ++i) { int a = vp_int("a"), b = vp_int("b"); *h[i] = P(new X(a, b)); m.set(i, m.fresh(a, b)); }
    auto read = [&](int i) { const P& c = *h[i]; VP_ASSERT(bool(c) == (m.cell[i] >= 0), "a handle is empty exactly when it holds nothing"); { P& n = *h[i]; bool t = false; if (n) t = true; VP_ASSERT(t == (m.cell[i] >= 0) && !n == !t && bool(n) == t, "testing a handle that could be written"); } if (c) { int k = m.cell[i]; int pick = i & 3; const X* p = pick == 0 ? &*c : pick == 1 ? c.operator->() : pick == 2 ? c.data() : &c.read(); const X* q = c; VP_ASSERT(p == q && p == &c.read(), "read accessors agree"); VP_ASSERT(p->v == m.v[k] && p->w == m.w[k], "a handle reads the last value written through it or before it was copied"); } };
    for (int st = 0; st < steps; ++st) {
      int op = vp_pick(NOPS, "op"); vp_cover(1 + op); int i = vp_pick(handles, "i"); int c0 = copies; int b0 = born;
      switch (op) {
        case COPYC: case CONSTC: { int j = vp_pick(handles, "j"); const P& cj = *h[j]; P* n = op == COPYC ? new P(*h[j]) : new P(cj); m.set(i, m.cell[j]); delete h[i]; h[i] = n; break; }
        case COPYA: { int j = vp_pick(handles, "j"); *h[i] = static_cast<const P&>(*h[j]); m.set(i, m.cell[j]); break; }
        case MOVEC: { int j = vp_pick(handles, "j"); if (j == i) { P* n = new P(std::move(*h[i])); VP_ASSERT(!*h[i], "moved-from handle is empty"); delete h[i]; h[i] = n; break; } P* n = new P(std::move(*h[j])); delete h[i]; h[i] = n; int c = m.cell[j]; m.set(i, c); m.set(j, -1); break; }
        case MOVEA: { int j = vp_pick(handles, "j"); if (i == j) break; *h[i] = std::move(*h[j]); int c = m.cell[j]; m.set(i, c); m.set(j, -1); break; }
        case SELFA: { P& r = *h[i]; *h[i] = r; break; }
        case SETP: { int a = vp_int("a"), b = vp_int("b"); *h[i] = new X(a, b); m.set(i, m.fresh(a, b)); b0 = born; break; }
        case RESET: { *h[i] = P(); m.set(i, -1); break; }
        case READ: { read(i); break; }
        case SWAP: { int j = vp_pick(handles, "j"); std::swap(*h[i], *h[j]); int c = m.cell[i]; m.cell[i] = m.cell[j]; m.cell[j] = c; break; }
        case MAKE: { int a = vp_int("a"), b = vp_int("b"); *h[i] = sig::detail::make_cow<X>(a, b); m.set(i, m.fresh(a, b)); b0 = born; break; }
        default: {
          if (m.cell[i] < 0) { P& e = *h[i]; if (op == WDATA) VP_ASSERT(e.data() == nullptr, "an empty handle has no data"); break; }
          bool shared = m.rc[m.cell[i]] > 1; const X* before = static_cast<const P&>(*h[i]).data(); int nv = vp_int("nv"); X* p = nullptr;
          switch (op) { case WSTAR: (**h[i]).v = nv; p = &**h[i]; break; case WARROW: (*h[i])->v = nv; p = h[i]->operator->(); break; case WCONV: { X* q = *h[i]; q->v = nv; p = q; break; } case WDATA: p = h[i]->data(); p->v = nv; break; default: h[i]->write().v = nv; p = &h[i]->write(); break; }
          VP_ASSERT(copies == c0 + (shared ? 1 : 0), "a write copies a shared value once and an unshared one never"); VP_ASSERT((p == before) == !shared, "writing through the only handle is in place, otherwise on a new value"); VP_ASSERT(p == static_cast<const P&>(*h[i]).data(), "the handle now refers to the written value");
          if (shared) { int c = m.cell[i]; m.set(i, m.fresh(nv, m.w[c])); vp_cover(30); } else { m.v[m.cell[i]] = nv; vp_cover(31); } c0 = copies; b0 = born; break;
        }
      }
      VP_ASSERT(copies == c0 && born == b0, "copying, moving, assigning and reading handles never copies the value");
      for (int k = 0; k < handles; ++k) read(k);
      int alive = 0; for (int k = 0; k < m.n; ++k) alive += m.rc[k] > 0; VP_ASSERT(born - died == alive, "a value is destroyed when its last handle is gone, and not before");
      for (int k = 0; k < handles; ++k) for (int j = 0; j < k; ++j) { VP_ASSERT((*h[k] == *h[j]) == (m.cell[k] == m.cell[j]), "handles are equal exactly when they share"); VP_ASSERT((*h[k] != *h[j]) == (m.cell[k] != m.cell[j]), "inequality"); }
    }
    for (int k = 0; k < handles; ++k) vp_log(m.cell[k] + 1);
    // destroy the handles in one of two orders, the others keep their values
    bool rev = handles == 3 && vp_pick(2, "rev"); for (int q = 0; q < handles; ++q) { int k = rev ? handles - 1 - q : q; delete h[k]; m.set(k, -1); h[k] = nullptr; for (int j = 0; j < handles; ++j) if (h[j]) read(j); }
  }
  VP_ASSERT(born == died, "every value is destroyed exactly once"); VP_ASSERT(vp_live() == l0, "nothing leaked");
}
// copying the value fails during a write: nothing changes
struct Ex {}; int arm; struct Y { int v; Y(int a) : v(a) {} Y(const Y& o) : v(o.v) { if (arm) throw Ex(); } };
void failing() {
  int64_t l0 = vp_live();
  {
    int a = vp_int("a"), b = vp_int("b"); auto p = sig::detail::make_cow<Y>(a); auto q = p; int how = vp_pick(5, "how"); bool mem = vp_pick(2, "mem"); bool thrown = false; arm = !mem; if (mem) vp_faults(true, 1);
    try { switch (how) { case 0: (*p).v = b; break; case 1: p->v = b; break; case 2: { Y* y = p; y->v = b; break; } case 3: p.data()->v = b; break; default: p.write().v = b; } } catch (const Ex&) { thrown = true; } catch (const std::bad_alloc&) { thrown = true; }
    arm = 0; vp_faults(false, 0); const auto& cp = p; const auto& cq = q; VP_ASSERT(cq->v == a, "the other handle's value is unchanged"); VP_ASSERT(cp->v == (thrown ? a : b), "a failed write changes nothing"); if (thrown) { vp_cover(1); VP_ASSERT(cp == cq, "still shared"); p->v = b; VP_ASSERT(cp->v == b && cq->v == a, "and can be written later"); }
  }
  VP_ASSERT(vp_live() == l0, "nothing leaked");
}
// a handle assigned while it shares with itself through a value that owns handles
struct Node { int v; sig::detail::cow_ptr<Node> next; Node(int a) : v(a) {} };
void nested() {
  int64_t l0 = vp_live();
  {
    using N = sig::detail::cow_ptr<Node>; int a = vp_int("a"), b = vp_int("b"), c = vp_int("c"); N x(new Node(a)); { N y(new Node(b)); x->next = y; y->v = c; VP_ASSERT(static_cast<const N&>(x)->next.read().v == b, "a nested handle keeps its value"); } N z = x; z->next.write().v = c; const N& cx = x; const N& cz = z; VP_ASSERT(cx->next.read().v == b && cz->next.read().v == c && cx->v == a && cz->v == a, "writes through a copy of the outer value stay there");
    if (vp_pick(2, "assign")) { N t = static_cast<const Node&>(cx.read()).next; x = t; VP_ASSERT(static_cast<const N&>(x)->v == b, "a handle can be assigned from inside its own value"); VP_ASSERT(cz->v == a && cz->next.read().v == c, "others unaffected"); } vp_cover(1);
  }
  VP_ASSERT(vp_live() == l0, "nothing leaked");
}
// many handles sharing one value
void shared(int n) {
  born = died = copies = 0; int64_t l0 = vp_live();
  {
    static P* h[600]; int a = vp_int("a"), b = vp_int("b"), c = vp_int("c"); h[0] = new P(new X(a, b)); for (int i = 1; i < n; ++i) h[i] = new P(*h[i / 2]); VP_ASSERT(copies == 0 && born == 1, "sharing copies nothing");
    int w = vp_pick(3, "w"); int k = w == 0 ? 0 : w == 1 ? n - 1 : n / 2; (*h[k])->v = c; VP_ASSERT(copies == 1, "one copy"); for (int i = 0; i < n; ++i) VP_ASSERT(static_cast<const P&>(*h[i])->v == (i == k ? c : a) && static_cast<const P&>(*h[i])->w == b, "only the writing handle changes"); (*h[k])->w = c; VP_ASSERT(copies == 1, "then in place");
    int keep = (k + 1) % n; for (int i = 0; i < n; ++i) if (i != keep) { delete h[i]; if (i % 16 == 0) VP_ASSERT(static_cast<const P&>(*h[keep])->v == a, "the last handle keeps the value"); } VP_ASSERT(born - died == 1, "one value left"); h[keep]->write().v = c; VP_ASSERT(copies == 1, "the only handle writes in place"); VP_ASSERT(static_cast<const P&>(*h[keep])->v == c, "written"); delete h[keep]; vp_cover(1);
  }
  VP_ASSERT(born == died && vp_live() == l0, "nothing leaked");
}
// construction from a list
struct L { int a, b, n; L(std::initializer_list<int> il, int x) : a(0), b(x), n(0) { for (int v : il) { a = (int)((unsigned)a * 3u + v); ++n; } } };
void list() { int x = vp_int("x"), y = vp_int("y"), z = vp_int("z"); auto p = sig::detail::make_cow<L>({x, y}, z); auto q = p; const auto& cq = q; VP_ASSERT(cq->n == 2 && cq->a == (int)((unsigned)x * 3u + y) && cq->b == z, "made from a list"); p->b = x; VP_ASSERT(cq->b == z && p.read().b == x, "independent"); vp_cover(1); }
// handles of one value in different threads
struct V { int v, w; V(int a, int b) : v(a), w(b) {} V(const V& o) : v(o.v), w(o.w) {} ~V() { v = w = -1; } };
using PV = sig::detail::cow_ptr<V>;
struct TH { PV* h; int op, nv; int sv, sw; bool wr; };
void th(void* q) {
  auto& t = *static_cast<TH*>(q); const PV& c = *t.h; t.wr = false;
  switch (t.op) { case 0: t.h->write().v = t.nv; t.wr = true; break; case 1: (*t.h)->v = t.nv; t.wr = true; break; case 2: { PV k(c); k.write().w = t.nv; VP_ASSERT(k.read().w == t.nv && c.read().w == t.sw, "a write through a copy stays there"); break; } case 3: delete t.h; t.h = nullptr; return; case 4: { PV k(std::move(*t.h)); k.data()->w = t.nv; *t.h = std::move(k); t.sw = t.nv; break; } default: break; }
  VP_ASSERT(c.read().v == (t.wr ? t.nv : t.sv) && c.read().w == t.sw, "each thread reads the value of its own handle");
}
void threads(int nt) {
  int64_t l0 = vp_live();
  {
    int a = vp_int("a"), b = vp_int("b"); PV first(new V(a, b)); TH t[3]; for (int k = 0; k < nt; ++k) { t[k].op = vp_pick(6, "op"); t[k].nv = vp_int("nv"); t[k].sv = a; t[k].sw = b; t[k].h = new PV(first); vp_cover(1 + t[k].op); } bool keep = vp_pick(2, "keep"); if (!keep) first = PV();
    void (*fs[])(void*) = {th, th, th}; void* as[] = {&t[0], &t[1], &t[2]}; vp_parallel(nt, fs, as);
    if (keep) VP_ASSERT(first.read().v == a && first.read().w == b, "the handle nobody wrote through keeps its value"); for (int k = 0; k < nt; ++k) if (t[k].h) { const PV& c = *t[k].h; VP_ASSERT(c.read().v == (t[k].wr ? t[k].nv : a) && c.read().w == t[k].sw, "every handle has its own value afterwards"); delete t[k].h; }
  }
  VP_ASSERT(vp_live() == l0, "nothing leaked");
}
}
extern "C" void c16_list() { list(); }
extern "C" void c16_threads() { threads(2); }
extern "C" void c16_threads3() { threads(3); }
extern "C" void c16_two() { machine<true>(Q(3, 4), 2, 1); }
extern "C" void c16_three() { machine<true>(Q(2, 3), 3, 2); }
extern "C" void c16_four() { machine<true>(2, 4, Q(1, 3)); }
extern "C" void c16_fail() { failing(); }
extern "C" void c16_nested() { nested(); }
// past every 16-bit count
extern "C" void c16_wrap() {
  int x = vp_int("x"), y = vp_int("y"); using P = sig::detail::cow_ptr<int>; const int T = 65600; P a = sig::detail::make_cow<int>(x); P* h = new P[T]; int how = vp_pick(2, "how");
  for (int k = 0; k < T; ++k) { vp_cover(255); if (how == 0) h[k] = a; else { P t(a); h[0] = t; } }
  if (how == 1) h[T - 1] = h[0]; a.write() = y; VP_ASSERT(a.read() == y && h[0].read() == x && h[T - 1].read() == x, "a write through one handle is not seen by the others"); h[0].write() = 7; VP_ASSERT(a.read() == y && h[T - 1].read() == x && h[0].read() == 7, "again"); delete[] h; VP_ASSERT(a.read() == y, "kept"); vp_cover(1);
}
extern "C" void c16_shared() { shared(Q(300, 600)); }
