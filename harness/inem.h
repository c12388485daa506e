// Operations made outside emissions and by slots while the signal is emitting: every handle is checked after every
// operation, and every emission (also nested ones) against the slots present at its start.
#pragma once
#include "common.h"
namespace inem {
const int MS = 6, NB = 2, MF = 6;
enum Op { STOP, DISC, ERASE, BLOCK, UNBLOCK, BL_MAKE, BL_END, SC_OWN, SC_END, SC_RELEASE, CONNECT, EMIT, EXPIRE, DELETE, MOVE_OUT, ASSIGN_EMPTY, ASSIGN_FROM, THROW, NOPS };
enum Kind { FO, PM, TS, FO_SLOT, TW_SLOT, PM_SCSLOT, PM_SC, FO_SC, DUP, NKIND, OTHER };   // function object / member / tracked; how it is connected
template <class R> struct World;
template <class R> World<R>* G;
struct Oops { int v; };
template <class R> struct Fo { int id; uint8_t key; int canary = 0x1234; Fo(int i, uint8_t k); Fo(const Fo& o); ~Fo(); R operator()(int d); bool operator==(const Fo& o) const { return key == o.key; } };
template <class R> struct Ob { int id; R call(int d); };
struct Frame { int snap[MS], n, pos; bool loose; };
struct Conf { const int* ops; int nops; const int* kinds; int nkinds; int nslots, pre, in; bool prompt; };
template <class R> struct World {
  using S = sig::signal<R(int)>; using Sl = sig::slot<R(int)>;
  S* s = new S; S* from = nullptr; S* husk[2] = {}; int nh = 0; sig::connection c[MS]; int kind[MS]; Ob<R> ob[MS]; std::shared_ptr<Ob<R>> sp[MS];
  int ns = 0, ord[MS], m = 0; bool conn[MS] = {}, blk[MS] = {}, here[MS] = {}; bool alive = true, shuffled = false; int running[MS] = {}, live[MS] = {}; bool tmp = false;
  sig::connection_blocker* bl[NB]; int bt[NB]; sig::scoped_connection* sc[NB]; int st[NB];
  Frame fr[MF]; int nf = 0; const Conf& F; int budget; int thrown = 0;
  World(const Conf& f) : F(f), budget(0) { G<R> = this; for (int k = 0; k < NB; ++k) { bl[k] = new sig::connection_blocker; sc[k] = new sig::scoped_connection; bt[k] = st[k] = -1; } }
  ~World() { for (auto* x : bl) delete x; for (auto* x : sc) delete x; if (alive) delete s; delete from; for (auto* x : husk) delete x; G<R> = nullptr; }
  static bool fo(int k) { return k == FO || k == FO_SLOT || k == FO_SC || k == DUP || k == OTHER; }
  static bool tr(int k) { return k == TS || k == TW_SLOT; }
  uint8_t key(int i) const { return kind[i] == DUP ? 200 : (uint8_t)i; }   // DUP: all equal
  void real(S& g, int i, int kd) {
    kind[i] = kd; ob[i].id = i; if (tr(kd)) { sp[i] = std::make_shared<Ob<R>>(); sp[i]->id = i; }
    switch (kd) {
    case PM: c[i] = g.connect(&Ob<R>::call, &ob[i]); break; case TS: c[i] = g.connect(&Ob<R>::call, sp[i]); break; case FO_SLOT: { Sl x(Fo<R>(i, (uint8_t)i)); c[i] = g.connect(x); break; }
    case TW_SLOT: { std::weak_ptr<Ob<R>> w(sp[i]); Sl x(&Ob<R>::call, w); c[i] = g.connect(x); break; } case PM_SCSLOT: { Sl x(&Ob<R>::call, &ob[i]); auto q = g.connect_scoped(x); c[i] = q.release(); break; }
    case PM_SC: { auto q = g.connect_scoped(&Ob<R>::call, &ob[i]); c[i] = q.release(); break; } case FO_SC: { auto q = g.connect_scoped(Fo<R>(i, (uint8_t)i)); c[i] = q.release(); break; } default: c[i] = g.connect(Fo<R>(i, key(i))); break; }
  }
  int add(int kd) { int i = ns++; conn[i] = here[i] = true; ord[m++] = i; real(*s, i, kd); return i; }
  bool has(int o) const { for (int k = 0; k < F.nops; ++k) if (F.ops[k] == o) return true; return false; }
  void gone(int i) { if (i < 0 || !conn[i]) return; conn[i] = false; if (!here[i]) return; here[i] = false; int p = 0; while (ord[p] != i) ++p; ord[p] = ord[--m]; }
  void unb(int k) { if (bt[k] >= 0) blk[bt[k]] = false; bt[k] = -1; }
  bool expired(int i) const { return tr(kind[i]) && !sp[i] && !running[i]; }
  bool up(int i) const { return conn[i] && !expired(i); }
  void check() {
    for (int i = 0; i < ns; ++i) { VP_ASSERT(c[i].connected() == up(i), "connected() tells the truth"); if (up(i)) VP_ASSERT(c[i].blocked() == blk[i], "blocked exactly if the last blocking action was a block"); }
    for (int k = 0; k < NB; ++k) VP_ASSERT(sc[k]->connected() == (st[k] >= 0 && up(st[k])), "a scoped connection reports its slot");
    if (F.prompt) for (int i = 0; i < ns; ++i) if (fo(kind[i])) { VP_ASSERT(!conn[i] || live[i] == 1, "the signal holds one copy of a connected callable"); VP_ASSERT(conn[i] || nf > 0 || live[i] == 0, "the callable of a disconnected slot is destroyed once no emission uses it"); }
  }
  void skip(Frame& f) { while (f.pos < f.n && !(up(f.snap[f.pos]) && !blk[f.snap[f.pos]])) ++f.pos; }
  void emission(int d) {
    if (!alive) return; VP_ASSERT(nf < MF, "depth"); int me = nf++; Frame& f = fr[me]; f.n = m; f.pos = 0; f.loose = false; for (int i = 0; i < m; ++i) f.snap[i] = ord[i];
    int t0 = thrown; try { (*s)(d); } catch (const Oops& o) { VP_ASSERT(thrown > t0 && o.v == thrown, "the slot's own exception arrives"); VP_ASSERT(nf == me + 1, "no emission inside survives it"); --nf; throw; }
    VP_ASSERT(nf == me + 1, "nesting"); skip(f); VP_ASSERT(f.loose || f.pos == f.n, "every slot present at the start and still active at its turn is invoked"); --nf;
  }
  struct Run { World& w; int i; Run(World& x, int k) : w(x), i(k) { ++w.running[i]; } ~Run() { --w.running[i]; } };
  void enter(int i, int d) {
    VP_ASSERT(nf > 0, "invoked outside an emission"); Frame& f = fr[nf - 1]; skip(f); if (f.loose) while (f.pos < f.n && f.snap[f.pos] != i) { ++f.pos; skip(f); }
    if (shuffled) { bool ok = false; for (int k = f.pos; k < f.n; ++k) if (f.snap[k] == i && up(i) && !blk[i]) { for (int j = k; j > f.pos; --j) f.snap[j] = f.snap[j - 1]; f.snap[f.pos] = i; ok = true; break; } VP_ASSERT(ok, "only active slots present at the start are invoked, once each"); }
    VP_ASSERT(f.pos < f.n && f.snap[f.pos] == i, "slots are invoked or skipped as specified, in order"); ++f.pos;
    Run r(*this, i); while (budget > 0) { --budget; if (!perform(d)) break; check(); }
  }
  int slot() { return vp_pick(ns, "slot"); }
  bool perform(int d) {
    int op = F.ops[vp_pick(F.nops, "op")]; vp_cover(op);
    switch (op) {
    case DISC: { int i = slot(); bool u = up(i); gone(i); VP_ASSERT(c[i].disconnect() == u, "disconnect() is true exactly when it ended a live connection"); VP_ASSERT(!c[i].disconnect(), "a second disconnect returns false"); break; }
    case ERASE: { if (!alive) return false; int i = slot(); if (tr(kind[i])) vp_assume(false); size_t e = 0; for (int j = 0; j < ns; ++j) if ((j == i || (kind[i] == DUP && kind[j] == DUP)) && here[j] && conn[j]) { ++e; gone(j); } if (e > 1) shuffled = true; tmp = true; bool viaslot = i & 1; size_t g; if (fo(kind[i])) g = viaslot ? s->disconnect(Sl(Fo<R>(-3, key(i)))) : s->disconnect(Fo<R>(-3, key(i))); else g = viaslot ? s->disconnect(Sl(&Ob<R>::call, &ob[i])) : s->disconnect(&Ob<R>::call, &ob[i]); tmp = false; VP_ASSERT(g == e, "number of slots removed by callable"); break; }
    case BLOCK: { int i = slot(); c[i].block(); if (up(i)) blk[i] = true; break; }
    case UNBLOCK: { int i = slot(); c[i].unblock(); if (up(i)) blk[i] = false; break; }
    case BL_MAKE: { int k = vp_pick(NB, "bl"), i = slot(); if (up(i)) blk[i] = true; unb(k); *bl[k] = c[i].blocker(); bt[k] = i; break; }
    case BL_END: { int k = vp_pick(NB, "bl"); delete bl[k]; unb(k); bl[k] = new sig::connection_blocker; break; }
    case SC_OWN: { int k = vp_pick(NB, "sc"), i = slot(); gone(st[k]); st[k] = i; *sc[k] = sig::scoped_connection(c[i]); break; }
    case SC_END: { int k = vp_pick(NB, "sc"); gone(st[k]); st[k] = -1; delete sc[k]; sc[k] = new sig::scoped_connection; break; }
    case SC_RELEASE: { int k = vp_pick(NB, "sc"); auto r = sc[k]->release(); VP_ASSERT(r.connected() == (st[k] >= 0 && up(st[k])), "release hands the slot over"); st[k] = -1; break; }
    case CONNECT: if (!alive || ns >= MS) return false; add(F.kinds[vp_pick(F.nkinds < 2 ? F.nkinds : 2, "kd")]); break;
    case EMIT: if (!alive || d >= 2) return false; if (has(THROW)) { bool thru = nf > 0 && vp_pick(2, "through"); int keep = nf; try { emission(d + 1); } catch (const Oops&) { VP_ASSERT(nf == keep, "frames"); if (thru) throw; } } else emission(d + 1); break;
    case EXPIRE: { int i = slot(); if (!sp[i]) vp_assume(false); sp[i].reset(); shuffled = true; break; }
    case DELETE: { if (!alive) return false; alive = false; for (int i = 0; i < ns; ++i) if (here[i]) conn[i] = here[i] = false; m = 0; S* x = s; delete x; break; }
    case MOVE_OUT: { if (!alive || nh >= 2) return false; for (int k = 0; k < nf; ++k) fr[k].loose = true; husk[nh++] = s; S* x = s; s = new S(std::move(*x)); break; }
    case ASSIGN_EMPTY: { if (!alive) return false; for (int i = 0; i < ns; ++i) if (here[i]) conn[i] = here[i] = false; m = 0; *s = S(); break; }
    case ASSIGN_FROM: { if (!alive || !from) return false; for (int i = 0; i < ns; ++i) if (here[i]) conn[i] = here[i] = false; m = 0; for (int i = 0; i < ns; ++i) if (kind[i] == OTHER) { kind[i] = FO; if (conn[i]) { here[i] = true; ord[m++] = i; } } *s = std::move(*from); delete from; from = nullptr; break; }
    case THROW: if (nf == 0) return false; throw Oops{++thrown};
    default: return false;
    }
    return true;
  }
  void outside(int n) { budget = n; while (budget > 0) { --budget; if (!perform(-1)) break; check(); } budget = 0; }
  void top() { try { emission(0); } catch (const Oops&) {} VP_ASSERT(nf == 0, "no emission under way"); check(); }
  void other() { from = new S; for (int q = 0; q < 2; ++q) { int i = ns++; conn[i] = true; real(*from, i, OTHER); } }
};
template <class R> Fo<R>::Fo(int i, uint8_t k) : id(i), key(k) { if (id >= 0 && G<R>) ++G<R>->live[id]; }
template <class R> Fo<R>::Fo(const Fo& o) : id(o.id), key(o.key) { if (id >= 0 && G<R>) ++G<R>->live[id]; }
template <class R> Fo<R>::~Fo() { VP_ASSERT(canary == 0x1234, "a callable is destroyed once"); if (id >= 0 && G<R>) --G<R>->live[id]; canary = 0; id = -1; }
template <class R> R Fo<R>::operator()(int d) { int me = id; VP_ASSERT(canary == 0x1234, "a destroyed callable is invoked"); G<R>->enter(me, d); VP_ASSERT(canary == 0x1234 && id == me, "the callable is not destroyed while it runs"); return mk<R>(me); }
template <class R> R Ob<R>::call(int d) { int me = id; G<R>->enter(me, d); VP_ASSERT(id == me, "the object is not destroyed while its slot runs"); return mk<R>(me); }
const int K_ALL[] = {FO, PM, TS, FO_SLOT, TW_SLOT, PM_SCSLOT, PM_SC, FO_SC}, K_PLAIN[] = {FO, PM, FO_SLOT, PM_SC, FO_SC, PM_SCSLOT}, K_TRACKED[] = {TS, TW_SLOT, FO}, K_FO[] = {FO, FO_SLOT, FO_SC}, K_DUP[] = {DUP, FO};
template <class R> void run(const Conf& F) {
  TR.clear(); int64_t l0 = base_live();
  {
    World<R> w(F); if (w.has(ASSIGN_FROM)) w.other(); int k0 = vp_pick(F.nkinds, "k0"); for (int i = 0; i < F.nslots; ++i) w.add(F.kinds[(k0 + i) % F.nkinds]); int nslots = F.nslots;
    if (w.has(UNBLOCK) || w.has(BL_END)) { int p = vp_pick(nslots + 1, "preblk"); if (p) { int i = w.ord[p - 1]; if (w.has(BL_END)) { *w.bl[0] = w.c[i].blocker(); w.bt[0] = i; } else w.c[i].block(); w.blk[i] = true; } }
    if (w.has(SC_END)) { int i = w.ord[nslots - 1]; *w.sc[0] = sig::scoped_connection(w.c[i]); w.st[0] = i; }
    w.check(); w.outside(F.pre); w.budget = F.in; w.top(); for (int i = 0; i < w.nh; ++i) { delete w.husk[i]; w.husk[i] = nullptr; } w.check();
    w.budget = 0; w.top(); for (int i = 0; i < w.ns; ++i) vp_log(w.up(i) + 2 * w.blk[i]);
    for (int i = 0; i < w.ns; ++i) { bool u = w.up(i); w.gone(i); VP_ASSERT(w.c[i].disconnect() == u, "every connection can still be ended"); w.check(); } w.top();
  }
  VP_ASSERT(vp_live() == l0, "nothing leaked");
}
template <size_t N, size_t K> Conf conf(const int (&ops)[N], const int (&kinds)[K], int nslots, int pre, int in, bool prompt = false) { return Conf{ops, (int)N, kinds, (int)K, nslots, pre, in, prompt}; }
}
