// C18: an optional constructs and destroys its element exactly once, also when element operations throw.
#include "common.h"
#include "optional.hpp"
namespace {
using opt::optional; using opt::nullopt;
struct Ex { int at; };
// Elements register themselves; every operation checks that the elements involved are alive. A symbolic fault can strike any constructing or assigning operation.
struct E; const E* reg[64]; int nreg, born, died; bool faults; bool thrown_ctor, thrown_assign; int nops;
bool strike() { ++nops; return faults && vp_pick(2, "throw"); }
void add(const E* p) { for (int i = 0; i < nreg; ++i) VP_ASSERT(reg[i] != p, "an element is constructed over a live one"); VP_ASSERT(nreg < 64, "too many"); reg[nreg++] = p; ++born; }
void del(const E* p) { for (int i = 0; i < nreg; ++i) if (reg[i] == p) { reg[i] = reg[--nreg]; ++died; return; } VP_ASSERT(false, "an element is destroyed that is not alive"); }
void alive(const E* p) { for (int i = 0; i < nreg; ++i) if (reg[i] == p) return; VP_ASSERT(false, "an element is accessed outside its lifetime"); }
struct E {
  int v;
  E(int x) : v(x) { if (strike()) { thrown_ctor = true; faults = false; throw Ex{1}; } add(this); }
  E(int x, int y) : v(x + y) { if (strike()) { thrown_ctor = true; faults = false; throw Ex{2}; } add(this); }
  E(std::initializer_list<int> l, int y = 0) : v(*l.begin() + y) { if (strike()) { thrown_ctor = true; faults = false; throw Ex{7}; } add(this); }
  E(const E& o) : v(0) { alive(&o); if (strike()) { thrown_ctor = true; faults = false; throw Ex{3}; } v = o.v; add(this); }
  E(E&& o) : v(0) { alive(&o); if (strike()) { thrown_ctor = true; faults = false; throw Ex{4}; } v = o.v; add(this); }
  E& operator=(const E& o) { alive(this); alive(&o); if (strike()) { thrown_assign = true; faults = false; throw Ex{5}; } v = o.v; return *this; }
  E& operator=(E&& o) { alive(this); alive(&o); if (strike()) { thrown_assign = true; faults = false; throw Ex{6}; } v = o.v; return *this; }
  ~E() { del(this); }
  void touch() const { alive(this); }
};
struct Src { int v; operator int() const { return v; } };
using O = optional<E>;
// after every operation the registered elements are exactly those of the engaged optionals
void inv(O* const* o, int n, int extra = 0) { int e = 0; for (int i = 0; i < n; ++i) if (o[i] && o[i]->has_value()) { (*o[i])->touch(); ++e; } VP_ASSERT(nreg == e + extra, "one live element per engaged optional, none else"); }
enum { C_COPYV, C_MOVEV, C_COND, C_COPY, C_MOVE, C_INPL, C_INPLIF, C_CONVC, C_CONVM, C_IL, A_LV, A_RV, A_COPY, A_MOVE, A_SELF, A_NONE, A_CONVC, A_CONVM, A_RESET, A_EMPL, A_EMPL2, A_EMPLIL, A_SWAP, A_SSWAP, A_OR, D_DEL, NOPS };
void machine(int steps, int nf) {
  nreg = born = died = nops = 0; faults = false; int64_t l0 = vp_live();
  {
    O* o[3] = {new O, new O, new O}; optional<int> u; if (vp_flag("u")) u = vp_int("uv"); for (int i = 0; i < 2; ++i) if (vp_flag("init")) o[i]->emplace(vp_int("v")); inv(o, 3);
    int fstep = (int)vp_pick(steps, "fstep");      // faults can strike in this step
    for (int s = 0; s < steps; ++s) {
      int op = vp_pick(NOPS, "op"), i = vp_pick(2, "i"), j = 1 - i; int v = vp_int("v"); bool was = o[i]->has_value(); int wv = was ? (*o[i])->v : 0; bool jw = o[j]->has_value(); int jv = jw ? (*o[j])->v : 0; O* fresh = nullptr; bool thrown = false; thrown_ctor = thrown_assign = false; vp_cover(1 + op); int tmp = 0;
      O* victim = o[i];
      try {
        faults = s == fstep;
        switch (op) {
          case C_COPYV: { faults = false; const E e(v); faults = s == fstep; fresh = new O(e); faults = false; break; }
          case C_MOVEV: { faults = false; E e(v); faults = s == fstep; fresh = new O(std::move(e)); faults = false; break; }
          case C_COND: { faults = false; E e(v); faults = s == fstep; fresh = new O(vp_flag("cond"), std::move(e)); faults = false; break; }
          case C_COPY: fresh = new O(static_cast<const O&>(*o[j])); break;
          case C_MOVE: fresh = new O(std::move(*o[j])); break;
          case C_INPL: fresh = new O(opt::in_place, v, 1); break;
          case C_INPLIF: fresh = new O(opt::in_place_if, vp_flag("cond"), v); break;
          case C_CONVC: fresh = new O(static_cast<const optional<int>&>(u)); break;
          case C_CONVM: { optional<int> t(u); fresh = new O(std::move(t)); break; }
          case C_IL: fresh = new O(opt::in_place, {v, v}, 1); break;
          case A_LV: { faults = false; E e(v); faults = s == fstep; *o[i] = e; faults = false; break; }
          case A_RV: { faults = false; E e(v); faults = s == fstep; *o[i] = std::move(e); faults = false; break; }
          case A_COPY: *o[i] = static_cast<const O&>(*o[j]); break;
          case A_MOVE: *o[i] = std::move(*o[j]); break;
          case A_SELF: { O& r = *o[i]; *o[i] = r; break; }
          case A_NONE: { int d0 = died; *o[i] = nullopt; VP_ASSERT(died == d0 + was, "assigning nullopt destroys the element at once"); break; }
          case A_CONVC: *o[i] = static_cast<const optional<int>&>(u); break;
          case A_CONVM: { optional<int> t(u); *o[i] = std::move(t); break; }
          case A_RESET: { int d0 = died; o[i]->reset(); VP_ASSERT(died == d0 + was, "reset destroys the element at once"); break; }
          case A_EMPL: o[i]->emplace(v); break;
          case A_EMPL2: o[i]->emplace(v, 2); break;
          case A_EMPLIL: o[i]->emplace({v, 2}, 2); break;
          case A_SWAP: o[i]->swap(*o[j]); break;
          case A_SSWAP: std::swap(*o[i], *o[j]); break;
          case A_OR: { faults = false; E f(v); faults = s == fstep; E r = o[i]->value_or(f); r.touch(); VP_ASSERT(r.v == (was ? wv : v), "value_or"); faults = false; break; }
          case D_DEL: { delete o[2]; o[2] = new O; break; }
        }
        faults = false;
      } catch (const Ex& e) { faults = false; thrown = true; VP_ASSERT(e.at >= 1 && e.at <= 7, "the exception reaches the caller unchanged"); vp_cover(40 + op); }
      VP_ASSERT(o[i] == victim, "harness"); (void)tmp;
      VP_ASSERT(thrown == (thrown_ctor || thrown_assign), "an exception of the element is neither swallowed nor replaced");
      inv(o, 3, fresh && fresh->has_value() ? 1 : 0);
      if (thrown) {
        bool empl = op == A_EMPL || op == A_EMPL2 || op == A_EMPLIL, assign = op == A_LV || op == A_RV || op == A_COPY || op == A_MOVE || op == A_CONVC || op == A_CONVM || op == A_SELF;
        if (empl) VP_ASSERT(!o[i]->has_value(), "a failed emplace leaves the optional disengaged");
        else if (assign) { VP_ASSERT(o[i]->has_value() == was, "a failed construction leaves it disengaged, a failed assignment engaged"); }
        else if (op < A_LV) { VP_ASSERT(o[i]->has_value() == was && o[j]->has_value() == jw, "a failed construction leaves the other optionals alone"); if (jw) VP_ASSERT((*o[j])->v == jv, "and their values"); }
        if (assign && op != A_SELF) VP_ASSERT(o[j]->has_value() == jw, "the source of a failed assignment keeps its state");
      }
      if (fresh) { delete o[2]; o[2] = fresh; fresh = nullptr; }
      inv(o, 3); vp_log(nreg);
    }
    // a disengaged optional is usable after failures
    if (!o[0]->has_value()) { *o[0] = O(9); VP_ASSERT(o[0]->has_value() && (*o[0])->v == 9, "usable"); } inv(o, 3);
    int d0 = died, e = o[0]->has_value(); delete o[0]; o[0] = nullptr; VP_ASSERT(died == d0 + e, "the element dies with its optional"); inv(o, 3); delete o[1]; delete o[2];
  }
  VP_ASSERT(nreg == 0 && born == died, "every element is destroyed exactly once"); VP_ASSERT(vp_live() == l0, "nothing leaked");
}
// scalar optionals: only the argument's conversion can throw
struct Th { int v; bool t; operator int() const { if (t) throw Ex{9}; return v; } operator short() const { if (t) throw Ex{9}; return (short)v; } };
void scalar() {
  optional<int> o; int v = vp_int("v"), w = vp_int("w"); bool init = vp_flag("init"); if (init) o = v; bool t = vp_flag("t"); bool thrown = false; int k = vp_pick(3, "k");
  try { switch (k) { case 0: o.emplace(Th{w, t}); break; case 1: { optional<int> p(opt::in_place, Th{w, t}); o = p; break; } case 2: { optional<Th> th(Th{w, t}); o = th; break; } } } catch (const Ex&) { thrown = true; }
  VP_ASSERT(thrown == t, "the exception reaches the caller"); if (!t) VP_ASSERT(o && *o == w, "value"); else if (k == 0) { VP_ASSERT(!o, "a failed emplace leaves the optional disengaged"); vp_cover(1); } else { VP_ASSERT(bool(o) == init && (!init || *o == v), "unchanged"); vp_cover(2); }
  optional<short> q; bool th2 = false; try { q.emplace(Th{w, t}); } catch (const Ex&) { th2 = true; } VP_ASSERT(th2 == t && bool(q) == !t, "emplace into an empty one");
}
// elements in emissions and combiners: results are destroyed exactly once
void results(int n) {
  nreg = born = died = 0; faults = false; int64_t l0 = vp_live();
  { sig::signal<E(int)> s; int k = vp_pick(n + 1, "n"); int v = vp_int("v"); for (int i = 0; i < k; ++i) s.connect([i](int x) { return E(x + i); }); { auto r = s(v); VP_ASSERT(bool(r) == (k > 0) && (!k || r->v == v + k - 1), "result"); VP_ASSERT(nreg == (k > 0), "only the result is alive"); faults = true; bool thrown = false; try { auto q = s(v); faults = false; VP_ASSERT(bool(q) == (k > 0), "engaged"); } catch (const Ex&) { thrown = true; vp_cover(1); } faults = false; VP_ASSERT(nreg == (k > 0), "a throwing result leaks nothing"); (void)thrown; r = s(v); VP_ASSERT(nreg == (k > 0), "usable"); } VP_ASSERT(nreg == 0, "gone"); }
  VP_ASSERT(born == died && vp_live() == l0, "nothing leaked");
}
}
extern "C" void c18_machine() { machine(Q(2, 3), 1); }
extern "C" void c18_scalar() { scalar(); }
extern "C" void c18_results() { results(Q(3, 4)); }
