// C01: emission runs exactly the active slots, once each, in the documented order.
#include "common.h"
#include "inem.h"
namespace {
const int MAXS = 10;
// Reference model: list of slot ids in invocation order, with swap-with-last removal.
struct Model {
  int ord[MAXS]; int n = 0; bool blocked[MAXS] = {}; bool conn[MAXS] = {}; bool dead[MAXS] = {}; bool silent(int i) const { return blocked[i] || dead[i]; } uint8_t key[MAXS] = {}; bool has_key[MAXS] = {}; int ids = 0;
  int add(uint8_t k, bool hk) { int i = ids++; ord[n++] = i; conn[i] = true; key[i] = k; has_key[i] = hk; return i; }
  bool remove(int id) { if (!conn[id]) return false; conn[id] = false; int p = 0; while (ord[p] != id) ++p; ord[p] = ord[n - 1]; --n; return true; }
};
template <class R> struct W {
  sig::signal<R(int)> s; sig::connection c[MAXS]; sig::scoped_connection sc[MAXS]; bool scoped[MAXS] = {}; Target<R> t[MAXS]; std::shared_ptr<Target<R>> sp[MAXS]; int ret[MAXS]; Model m; uint8_t keys[3];
  void connect(int kind) {
    int i = m.ids; ret[i] = vp_int("ret"); uint8_t k = 0; bool hk = false;
    switch (kind) {
    case 0: k = sym8("key"); hk = true; c[i] = s.connect(Fn<R>{i, k, ret[i]}); break;
    case 1: t[i].id = i; t[i].ret = ret[i]; c[i] = s.connect(&Target<R>::call, &t[i]); break;
    case 2: sp[i] = std::make_shared<Target<R>>(); sp[i]->id = i; sp[i]->ret = ret[i]; c[i] = s.connect(&Target<R>::call, sp[i]); break;
    case 3: { sig::slot<R(int)> sl(Fn<R>{i, k = sym8("key"), ret[i]}); hk = true; c[i] = s.connect(sl); break; }
    default: k = sym8("key"); hk = true; sc[i] = s.connect_scoped(Fn<R>{i, k, ret[i]}); scoped[i] = true; break;
    }
    m.add(k, hk);
  }
  sig::connection& con(int i) { return scoped[i] ? sc[i] : c[i]; }
  // some order of removing the matched slots one by one gives the order seen
  static bool reach(const int* o, int n, const bool* match, const int* seen, int m) {
    bool any = false; for (int i = 0; i < n; ++i) if (match[o[i]]) { any = true; int p[MAXS]; for (int j = 0; j < n; ++j) p[j] = o[j]; p[i] = p[n - 1]; if (reach(p, n - 1, match, seen, m)) return true; }
    if (any || n != m) return false; for (int i = 0; i < n; ++i) if (o[i] != seen[i]) return false; return true;
  }
  void emit_check(const bool* match = nullptr, const int* before = nullptr, int nbefore = 0) {
    int x = vp_int("arg"); TR.clear(); auto r = s(x);
    int j = 0; int last = -1;
    if (match) {  // after a removal of several slots at once the order of the single removals is open: take over the real result
      int seen[MAXS] = {};
      for (int i = 0; i < TR.n; ++i) { VP_ASSERT(TR.id[i] >= 0 && TR.id[i] < m.ids, "unknown slot invoked"); ++seen[TR.id[i]]; }
      for (int i = 0; i < m.ids; ++i) VP_ASSERT(seen[i] == (m.conn[i] && !m.silent(i) ? 1 : 0), "exactly the active slots are invoked, once each");
      int o[MAXS], n = 0, q = 0;   // blocked slots keep an unknown place: only adopt when no slot is blocked
      for (int i = 0; i < m.n; ++i) if (m.silent(m.ord[i])) q = 1;
      if (!q) { for (int i = 0; i < TR.n; ++i) o[n++] = TR.id[i]; for (int i = 0; i < n; ++i) m.ord[i] = o[i]; VP_ASSERT(n == m.n, "slot count"); VP_ASSERT(reach(before, nbefore, match, o, n), "each removal moves the last slot into the vacated position"); } else vp_assume(false);
      return;
    }
    for (int i = 0; i < m.n; ++i) if (!m.silent(m.ord[i])) {
      VP_ASSERT(j < TR.n, "an active slot was not invoked"); VP_ASSERT(TR.id[j] == m.ord[i], "slots are invoked in the documented order"); VP_ASSERT(TR.arg[j] == x, "argument"); last = m.ord[i]; ++j;
    }
    VP_ASSERT(j == TR.n, "a slot that is not active was invoked, or one was invoked twice");
    VP_ASSERT(res_is(r, last >= 0, last >= 0 ? ret[last] : 0), "result of the last active slot");
    for (int i = 0; i < TR.n; ++i) vp_log(TR.id[i]);
    vp_log(1000 + TR.n);
  }
};
template <class R> void ops(int maxpre, int steps) {
  TR.clear();
  {
    W<R> w; W<R>* o = &w;
    sig::signal<R(int)> other; int othern = 0; auto oc = other.connect(Fn<R>{90, 1, 5}); auto oc2 = other.connect(Fn<R>{91, 2, 6});   // a bystander
    int pre = vp_pick(maxpre + 1, "pre"); int rot = vp_pick(5, "rot");
    for (int i = 0; i < pre; ++i) w.connect((i + rot) % 5);
    for (int k = 0; k < steps; ++k) {
      int op = vp_pick(8, "op");
      if (op == 0) break;
      if (op == 1) { if (w.m.ids >= MAXS) break; w.connect(k % 5); vp_cover(1); continue; }
      if (op == 2) { w.emit_check(); vp_cover(2); continue; }
      if (op == 3) {  // disconnect by callable with a symbolic key
        uint8_t q = sym8("q"); int exp = 0; bool match[MAXS] = {};
        for (int i = 0; i < w.m.ids; ++i) if (w.m.conn[i] && w.m.has_key[i] && w.m.key[i] == q) { match[i] = true; ++exp; }
        // the scan order is the emission order; a single match is a plain removal
        size_t n = w.s.disconnect(Fn<R>{-1, q, 0}); VP_ASSERT((int)n == exp, "number of slots removed by callable");
        if (exp == 1) { for (int i = 0; i < w.m.ids; ++i) if (match[i]) w.m.remove(i); vp_cover(3); }
        else if (exp > 1) { int before[MAXS], nb = w.m.n; for (int i = 0; i < nb; ++i) before[i] = w.m.ord[i]; for (int i = 0; i < w.m.ids; ++i) if (match[i]) w.m.remove(i); w.emit_check(match, before, nb); vp_cover(4); }
        continue;
      }
      if (w.m.ids == 0) break;
      int i = vp_pick(w.m.ids, "slot");
      if (op == 4) { if (w.m.dead[i]) break; bool d = w.con(i).disconnect(); VP_ASSERT(d == w.m.remove(i), "disconnect reports whether it ended the connection"); vp_cover(5); }
      if (op == 5) { w.con(i).block(); if (w.m.conn[i]) w.m.blocked[i] = true; vp_cover(6); }
      if (op == 6) { w.con(i).unblock(); w.m.blocked[i] = false; vp_cover(7); }
      if (op == 7) { if (w.scoped[i]) { w.sc[i] = sig::scoped_connection(); w.m.remove(i); vp_cover(8); } else if (w.sp[i]) { w.sp[i].reset(); w.m.dead[i] = true; if (w.m.conn[i]) vp_cover(9); } else break; }   // an expired slot keeps its place, silent for ever
    }
    w.emit_check(); w.emit_check();
    TR.clear(); int y = vp_int("oarg"); auto r = other(y);
    VP_ASSERT(TR.n == 2 && TR.id[0] == 90 && TR.id[1] == 91 && TR.arg[0] == y && TR.arg[1] == y && res_is(r, true, 6), "another signal is not affected");
    vp_cover(10);
  }
}
// many slots: capacity boundaries and swap-with-last removal at every pair of positions
void wide(int n, int removals) {
  sig::signal<int(int)> s; sig::connection c[40]; int ord[40], m = 0; TR.clear();
  int extra = vp_pick(2, "extra"); int total = n + extra;
  for (int i = 0; i < total; ++i) { c[i] = s.connect(Fn<int>{i, (uint8_t)i, i * 3}); ord[m++] = i; }
  for (int k = 0; k < removals; ++k) {
    int i = vp_pick(total, "rm"); int p = -1; for (int j = 0; j < m; ++j) if (ord[j] == i) p = j;
    bool byfn = vp_pick(2, "how");
    if (byfn) { size_t r = s.disconnect(Fn<int>{99, (uint8_t)i, 0}); VP_ASSERT((int)r == (p >= 0), "removal by callable"); } else VP_ASSERT(c[i].disconnect() == (p >= 0), "disconnect result");
    if (p >= 0) { ord[p] = ord[m - 1]; --m; }
  }
  c[total] = s.connect(Fn<int>{total, 200, 7}); ord[m++] = total;
  TR.clear(); auto r = s(vp_int("x")); VP_ASSERT(TR.n == m, "every slot is invoked once"); for (int i = 0; i < m; ++i) VP_ASSERT(TR.id[i] == ord[i], "documented order"); VP_ASSERT(r && *r == 7, "result");
  for (int i = 0; i <= total; ++i) { bool in = false; for (int j = 0; j < m; ++j) if (ord[j] == i) in = true; VP_ASSERT(c[i].connected() == in, "connected() of every slot"); }
  vp_cover(1);
}
// sizes across allocation and counter thresholds; one removal anywhere
template <class R> void scale() {
  const int sizes[] = {31, 64, 100, 260}; int n = sizes[vp_pick(4, "size")]; static sig::connection c[300]; int ord[300], m = 0; BT.clear(); int ret = vp_int("ret");
  {
    sig::signal<R(int)> s; for (int i = 0; i < n; ++i) { c[i] = s.connect(BFn<R>{i, i, i == n - 1 ? ret : i}); ord[m++] = i; }
    int at = vp_pick(4, "at"); int i = at == 0 ? 0 : at == 1 ? n / 2 : at == 2 ? n - 2 : n - 1; bool byfn = vp_pick(2, "how");
    if (byfn) VP_ASSERT(s.disconnect(BFn<R>{0, i, 0}) == 1, "removal by callable"); else VP_ASSERT(c[i].disconnect(), "disconnect result"); ord[i] = ord[--m];
    c[3].block(); auto r = s(1); int j = 0, last = -1; for (int k = 0; k < m; ++k) if (ord[k] != 3) { VP_ASSERT(j < BT.n && BT.id[j] == ord[k], "documented order"); last = ord[k]; ++j; } VP_ASSERT(j == BT.n, "every active slot once"); VP_ASSERT(res_is(r, true, last == n - 1 ? ret : last), "result");
    for (int k = 0; k < n; ++k) { VP_ASSERT(c[k].connected() == (k != i), "connected() of every slot"); VP_ASSERT(c[k].blocked() == (k == 3), "blocked() of every slot"); }
    // take every slot away again, from the front
    for (int k = 0; k < n; ++k) VP_ASSERT(c[k].disconnect() == (k != i), "every slot can be removed"); BT.clear(); auto r2 = s(1); VP_ASSERT(BT.n == 0 && res_is(r2, false, 0), "empty"); auto nc = s.connect(BFn<R>{7, 7, 7}); s(1); VP_ASSERT(BT.n == 1 && BT.id[0] == 7, "usable"); vp_cover(1); vp_log(last);
  }
  for (auto& x : c) x = sig::connection();
}
// the same signal used again and again: many emissions, connects, disconnects and blocks
template <class R> void churn(int times) {
  sig::signal<R(int)> s; auto a = s.connect(BFn<R>{0, 0, 1}); auto b = s.connect(BFn<R>{1, 1, 2}); int how = vp_pick(4, "how"); int ret = vp_int("ret");
  for (int k = 0; k < times; ++k) {
    BT.clear(); auto c = s.connect(BFn<R>{2, 2, ret}); auto r = s(k); VP_ASSERT(BT.n == 3 && BT.id[0] == 0 && BT.id[1] == 1 && BT.id[2] == 2 && res_is(r, true, ret), "three slots in order");
    if (how == 0) VP_ASSERT(c.disconnect(), "disconnect"); else if (how == 1) VP_ASSERT(s.disconnect(BFn<R>{0, 2, 0}) == 1, "by callable"); else if (how == 2) { sig::scoped_connection x(c); } else { b.block(); BT.clear(); s(k); VP_ASSERT(BT.n == 2 && BT.id[1] == 2, "blocked"); b.unblock(); VP_ASSERT(c.disconnect(), "disconnect"); }
    BT.clear(); auto r2 = s(k); VP_ASSERT(BT.n == 2 && BT.id[0] == 0 && BT.id[1] == 1 && res_is(r2, true, 2), "two slots in order"); VP_ASSERT(a.connected() && b.connected() && !c.connected(), "states");
  }
  vp_cover(1);
}
// past every 16-bit count: emissions, connections over the life of the signal, slots at one time
int CN, CL; struct CFn { int id; int ret; int operator()(int x) const { ++CN; CL = id; if (CN % 512 == 0) vp_cover(255); return ret; } bool operator==(const CFn& o) const { return id == o.id; } };
void wrap_life() {
  sig::signal<int(int)> s; int ret = vp_int("ret"); auto a = s.connect(CFn{0, ret}); const int T = 65600;
  for (int k = 0; k < T; ++k) { auto c = s.connect(CFn{1, k}); CN = 0; auto r = s(k); VP_ASSERT(CN == 2 && CL == 1 && r && *r == k, "two slots, in order"); VP_ASSERT(c.disconnect(), "disconnect"); vp_cover(255); }
  CN = 0; auto r = s(1); VP_ASSERT(CN == 1 && CL == 0 && r && *r == ret && a.connected(), "the first slot is unaffected"); vp_cover(1);
}
void wrap_slots() {
  const int T = 65600; int ret = vp_int("ret"); sig::signal<int(int)> s; sig::connection keep[4]; 
  for (int k = 0; k < T; ++k) { auto c = s.connect(CFn{k, k == T - 2 ? ret : k}); vp_cover(255); if (k < 2) keep[k] = c; if (k >= T - 2) keep[k - T + 4] = c; }
  CN = 0; auto r = s(1); VP_ASSERT(CN == T && CL == T - 1 && r && *r == T - 1, "every slot once, in order");
  VP_ASSERT(keep[3].disconnect() && keep[0].disconnect() && !keep[0].connected() && keep[1].connected() && keep[2].connected(), "removed"); CN = 0; r = s(1); VP_ASSERT(CN == T - 2 && CL == T - 3 && r && *r == T - 3, "the last slot took the place of the first");
  VP_ASSERT(keep[2].disconnect() && s.disconnect(CFn{1, 0}) == 1 && !keep[1].connected(), "removed"); CN = 0; s(1); VP_ASSERT(CN == T - 4, "the others"); vp_cover(1);
}
}
extern "C" void c01_wlife() { wrap_life(); }
extern "C" void c01_wslots() { wrap_slots(); }
extern "C" void c01_void() { ops<void>(Q(3, 4), Q(3, 4)); }
extern "C" void c01_int() { ops<int>(Q(3, 4), Q(3, 4)); }
extern "C" void c01_obj() { ops<Obj>(Q(2, 3), Q(3, 4)); }
extern "C" void c01_wide() { wide(Q(15, 17), 2); }
extern "C" void c01_scale() { if (vp_pick(2, "r")) scale<void>(); else scale<int>(); }
extern "C" void c01_churn() { if (vp_pick(2, "r")) churn<void>(Q(300, 1100)); else churn<int>(Q(300, 1100)); }
// operations made outside emissions and by slots while the signal is emitting
namespace { const int in_ops[] = {inem::STOP, inem::DISC, inem::ERASE, inem::BLOCK, inem::UNBLOCK, inem::CONNECT, inem::EMIT}; }
extern "C" void c01_in_void() { inem::run<void>(inem::conf(in_ops, inem::K_ALL, 3, 0, Q(2, 3))); }
extern "C" void c01_in_int() { inem::run<int>(inem::conf(in_ops, inem::K_ALL, 2, Q(1, 2), 2)); }
// longer sequences of fewer kinds of operation
namespace { const int seq_seq_void[] = {inem::STOP, inem::DISC, inem::ERASE, inem::CONNECT, inem::EMIT}; }
extern "C" void c01_seq_void() { inem::run<void>(inem::conf(seq_seq_void, inem::K_FO, 2, Q(0, 0), Q(4, 5))); }
namespace { const int seq_seq_int[] = {inem::STOP, inem::DISC, inem::BLOCK, inem::UNBLOCK, inem::CONNECT}; }
extern "C" void c01_seq_int() { inem::run<int>(inem::conf(seq_seq_int, inem::K_FO, 3, Q(2, 3), Q(1, 2))); }
