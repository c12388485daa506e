// sigsym: symbolic execution of LLVM IR, Z3 decides every branch, every assertion and every address.
#include "sigsym.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/ReplaceConstant.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <set>
#include <algorithm>
#include <sys/resource.h>
#include <unistd.h>
using namespace llvm;

typedef std::chrono::steady_clock Clk;
static double now() { return std::chrono::duration<double>(Clk::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ options / stats
static std::string optEntry = "entry", optOut, optSmtDir;
static double optTime = 600; static uint64_t optSteps = 6000000; static int optPreempt = -1, optSamples = 40; static uint64_t optSeed = 1;
static uint32_t sliceI = 0, sliceM = 1, sliceDepth = 2; static uint64_t optMem = 6000; static int optMaxViol = 1; static bool optTrace = false; static bool optLines = false;
static uint64_t optMaxPaths = 0; static bool optNoRace = false;
struct Stats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, asserts = 0, assertQueries = 0, forks = 0, paths = 0, pruned = 0, steps = 0, assumeKilled = 0, schedPoints = 0, values = 0, maxDepth = 0, faults = 0, scheds = 0; double solver = 0; } ST;
static std::string inconclusive;      // non-empty: run cannot be called a success
static void inconc(const std::string& s) { if (inconclusive.empty()) inconclusive = s; }

// ------------------------------------------------------------------ Z3
static Z3_context C; static Z3_solver SV; static std::vector<Z3_ast> svStack;
Model::~Model() { Z3_model_dec_ref(C, m); }
static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); inconc(std::string("z3 error ") + Z3_get_error_msg(c, e)); }
static Z3_sort bvs[129];
static Z3_sort BVS(unsigned w) { if (!bvs[w]) bvs[w] = Z3_mk_bv_sort(C, w); return bvs[w]; }
static inline uint64_t mask(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static Z3_ast num(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(C, v & mask(w), BVS(w)); }
static Z3_ast ex(const Val& v, unsigned w) {
  if (v.e) return v.e;
  if (w == 1) return (v.c & 1) ? Z3_mk_true(C) : Z3_mk_false(C);
  return num(v.c, w);
}
static Val fromE(Z3_ast e, unsigned w) {
  e = Z3_simplify(C, e);
  Val v;
  if (w == 1) {
    Z3_lbool b = Z3_get_bool_value(C, e);
    if (b != Z3_L_UNDEF) { v.c = b == Z3_L_TRUE; return v; }
  } else if (Z3_get_ast_kind(C, e) == Z3_NUMERAL_AST) {
    uint64_t u = 0; if (Z3_get_numeral_uint64(C, e, &u)) { v.c = u; return v; }
  }
  v.e = e; return v;
}
static Z3_ast mkNot(Z3_ast a) { return Z3_simplify(C, Z3_mk_not(C, a)); }
static Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(C, b, num(1, 1), num(0, 1)); }

static void svSync(const State& S) {
  size_t k = 0; while (k < svStack.size() && k < S.pc.size() && svStack[k] == S.pc[k]) ++k;
  if (svStack.size() > k) { Z3_solver_pop(C, SV, svStack.size() - k); svStack.resize(k); }
  for (; k < S.pc.size(); ++k) { Z3_solver_push(C, SV); Z3_solver_assert(C, SV, S.pc[k]); svStack.push_back(S.pc[k]); }
}
static int dumpN = 0;
static Z3_lbool check(State& S, Z3_ast extra, std::shared_ptr<Model>* out, const char* why = "path") {
  double t = now();
  svSync(S);
  if (extra) { Z3_solver_push(C, SV); Z3_solver_assert(C, SV, extra); }
  if (!optSmtDir.empty() && dumpN < 400 && (ST.queries % 7) == 0) {
    std::string fn = optSmtDir + "/q" + std::to_string(dumpN++) + ".smt2"; FILE* f = fopen(fn.c_str(), "w");
    if (f) { fputs("(set-logic QF_BV)\n", f); fputs(Z3_solver_to_string(C, SV), f); fputs("\n(check-sat)\n", f); fclose(f); }
  }
  Z3_lbool r = Z3_solver_check(C, SV);
  ++ST.queries; if (r == Z3_L_TRUE) ++ST.sat; else if (r == Z3_L_FALSE) ++ST.unsat; else { ++ST.unknown; inconc(std::string("solver returned unknown (") + why + ")"); }
  if (!optSmtDir.empty() && dumpN > 0 && ((ST.queries - 1) % 7) == 0) {
    std::string fn = optSmtDir + "/q" + std::to_string(dumpN - 1) + ".expect"; FILE* f = fopen(fn.c_str(), "w");
    if (f) { fputs(r == Z3_L_TRUE ? "sat\n" : r == Z3_L_FALSE ? "unsat\n" : "unknown\n", f); fclose(f); }
  }
  if (r == Z3_L_TRUE && out) { auto m = std::make_shared<Model>(); m->m = Z3_solver_get_model(C, SV); Z3_model_inc_ref(C, m->m); *out = m; }
  if (extra) Z3_solver_pop(C, SV, 1);
  ST.solver += now() - t;
  return r;
}
static uint64_t evalU(const std::shared_ptr<Model>& m, Z3_ast e, unsigned w) {
  Z3_ast r = nullptr;
  if (!Z3_model_eval(C, m->m, e, true, &r)) return 0;
  if (w == 1) return Z3_get_bool_value(C, r) == Z3_L_TRUE;
  uint64_t u = 0; Z3_get_numeral_uint64(C, r, &u); return u;
}
static bool ensureModel(State& S) {
  if (S.modelOk) return true;
  std::shared_ptr<Model> m;
  if (check(S, nullptr, &m) != Z3_L_TRUE) return false;
  S.model = m; S.modelOk = true; return true;
}

// ------------------------------------------------------------------ objects
static inline uint64_t addrOf(uint32_t id) { return (uint64_t)(id + 1) << 24; }
static inline uint32_t idOf(uint64_t a) { return (uint32_t)(a >> 24) - 1; }
static inline uint64_t offOf(uint64_t a) { return a & 0xffffff; }
static void objRel(Obj* o) { if (o && --o->rc == 0) delete o; }
State::State(const State& o)
  : chunks(o.chunks), nobj(o.nobj), th(o.th), cur(o.cur), par(o.par), pc(o.pc), model(o.model), modelOk(o.modelOk), inputs(o.inputs), nfresh(o.nfresh),
    known(o.known), excs(o.excs), mtx(o.mtx), arel(o.arel), sleep(o.sleep), sched(o.sched), preempt(o.preempt), lastT(o.lastT), depth(o.depth), log(o.log), covers(o.covers),
    steps(o.steps), lastSched(o.lastSched), heapLive(o.heapLive), faultsLeft(o.faultsLeft), faultsOn(o.faultsOn), nalloc(o.nalloc), sliceN(o.sliceN), sliceIdx(o.sliceIdx), glob(o.glob), notes(o.notes) {
  for (auto* c : chunks) ++c->rc;
}
static void chunkRel(Chunk* c) { if (--c->rc == 0) { for (auto* x : c->o) objRel(x); delete c; } }
State::~State() { for (auto* c : chunks) chunkRel(c); }
static Chunk* wrChunk(State& S, uint32_t ci) {
  Chunk* c = S.chunks[ci];
  if (c->rc > 1) { auto* n = new Chunk; memcpy(n->o, c->o, sizeof c->o); for (auto* x : n->o) if (x) ++x->rc; --c->rc; S.chunks[ci] = n; c = n; }
  return c;
}
static inline Obj* rdObj(State& S, uint32_t id) { return id < S.nobj ? S.chunks[id >> 6]->o[id & 63] : nullptr; }
static Obj* wrObj(State& S, uint32_t id) {
  Chunk* c = wrChunk(S, id >> 6); Obj*& o = c->o[id & 63];
  if (o->rc > 1) { auto* n = new Obj(*o); n->rc = 1; --o->rc; o = n; }
  return o;
}
static uint32_t newObj(State& S, uint64_t size, ObjKind k, bool zero) {
  uint32_t id = S.nobj++;
  if ((id >> 6) >= S.chunks.size()) { auto* c = new Chunk; memset(c->o, 0, sizeof c->o); S.chunks.push_back(c); }
  auto* o = new Obj; o->size = size; o->kind = k; o->data.assign(size, 0); o->st.assign(size, zero ? 0 : 1); o->owner = S.cur; o->id = id;
  wrChunk(S, id >> 6)->o[id & 63] = o; return id;
}

// ------------------------------------------------------------------ module tables
static Module* M; static const DataLayout* DL; static LLVMContext LC;
static std::unordered_map<const Function*, FuncInfo*> FI; static std::vector<FuncInfo*> FIv;
static std::unordered_map<const GlobalValue*, uint64_t> GA;
static std::map<uint64_t, std::string> extName;     // address of named globals
static std::vector<State*> work; static State* initS;

struct Violation { std::string kind, msg, where; std::vector<std::pair<std::string, std::pair<uint32_t, uint64_t>>> inputs; std::vector<uint8_t> sched; std::vector<std::string> stack; std::vector<uint64_t> log; };
static std::vector<Violation> viols;
struct Sample { std::vector<std::string> names; std::vector<uint64_t> in; std::vector<uint64_t> log; std::vector<uint8_t> sched; };
static std::vector<Sample> samples; static uint64_t sampleSeen = 0;
static std::set<uint32_t> coversHit;
static uint64_t rngS = 1; static uint64_t rnd() { rngS ^= rngS << 13; rngS ^= rngS >> 7; rngS ^= rngS << 17; return rngS; }

struct PathEnd {};                     // thrown to end the current path
static std::string locOf(const Instruction* I) {
  if (!I) return "?";
  std::string s;
  if (auto& d = I->getDebugLoc()) { const DILocation* L = d.get(); s = (L->getFilename() + ":" + Twine(L->getLine())).str(); }
  return s + " in " + demangle(I->getFunction()->getName().str());
}
static const Ins* curIns(State& S) { auto& t = S.th[S.cur]; if (t.st.empty()) return nullptr; auto& f = t.st.back(); if (!f.fi->decoded || f.pc >= f.fi->bbs[f.bb].ins.size()) return nullptr; return &f.fi->bbs[f.bb].ins[f.pc]; }
// The schedule is a vector of symbolic picks, 21 picks of 3 bits to a variable; a path fixes their values.
static void schedPC(State& S) {
  for (size_t i = 0; i < S.sched.size(); i += 21) {
    uint64_t v = 0; unsigned n = 0; for (; n < 21 && i + n < S.sched.size(); ++n) v |= (uint64_t)S.sched[i + n] << (3 * n);
    S.pc.push_back(Z3_mk_eq(C, Z3_mk_const(C, Z3_mk_string_symbol(C, ("schedule#" + std::to_string(i / 21)).c_str()), BVS(63)), num(v, 63)));
  }
}
static void violation(State& S, const std::string& kind, const std::string& msg, Z3_ast extra = nullptr) {
  // report only if the path (plus the failing condition) is really satisfiable
  std::shared_ptr<Model> m;
  size_t base = S.pc.size(); schedPC(S);
  Z3_lbool r = check(S, extra, &m, "violation"); S.pc.resize(base);
  if (r != Z3_L_TRUE) { return; }
  Violation v; v.kind = kind; v.msg = msg;
  const Ins* I = curIns(S); v.where = I ? locOf(I->src) : "?";
  for (auto& in : S.inputs) v.inputs.push_back({in.name, {in.bits, evalU(m, in.e, in.bits)}});
  for (auto& l : S.log) v.log.push_back(l.e ? evalU(m, l.e, 64) : l.c);
  v.sched = S.sched;
  auto& t = S.th[S.cur];
  for (size_t i = t.st.size(); i-- > 0 && v.stack.size() < 14;) { auto& f = t.st[i]; if (f.fi->decoded && f.pc < f.fi->bbs[f.bb].ins.size()) v.stack.push_back(locOf(f.fi->bbs[f.bb].ins[f.pc].src)); }
  viols.push_back(v);
}
[[noreturn]] static void fail(State& S, const std::string& kind, const std::string& msg) { violation(S, kind, msg); throw PathEnd(); }

static void addPC(State& S, Z3_ast c) { S.pc.push_back(c); }

// Decide a branch condition; forks the state (the clone re-executes the current instruction).
static bool decide(State& S, Z3_ast c) {
  auto it = S.known.find(c);
  if (it != S.known.end()) return it->second != 0;
  if (!ensureModel(S)) throw PathEnd();
  bool mv = evalU(S.model, c, 1);
  Z3_ast nc = mkNot(c);
  Z3_ast other = mv ? nc : c;
  std::shared_ptr<Model> om;
  Z3_lbool r = check(S, other, &om, "branch");
  if (r == Z3_L_UNDEF) throw PathEnd();
  if (r == Z3_L_TRUE) {
    ++ST.forks;
    auto* T = new State(S);
    addPC(*T, other); T->known[c] = !mv; T->known[nc] = mv; T->model = om; T->modelOk = true;
    work.push_back(T);
    addPC(S, mv ? c : nc);
  }
  S.known[c] = mv; S.known[nc] = !mv;
  return mv;
}
static uint64_t conc(State& S, const Val& v, unsigned w) {
  if (!v.e) return v.c;
  if (w == 1) return decide(S, v.e);
  auto it = S.known.find(v.e);
  if (it != S.known.end()) return it->second;
  // enumerate all feasible values with the solver; the final unsat answer shows none is missing
  std::vector<std::pair<uint64_t, std::shared_ptr<Model>>> vs;
  size_t base = S.pc.size();
  for (;;) {
    std::shared_ptr<Model> m; Z3_lbool r = check(S, nullptr, &m, "address");
    if (r == Z3_L_UNDEF) throw PathEnd();
    if (r == Z3_L_FALSE) break;
    uint64_t u = evalU(m, v.e, w); vs.push_back({u, m}); ++ST.values;
    if (vs.size() > 256) { inconc("more than 256 feasible values for an address or size"); throw PathEnd(); }
    addPC(S, mkNot(Z3_mk_eq(C, v.e, num(u, w))));
  }
  S.pc.resize(base);
  if (vs.empty()) throw PathEnd();
  for (size_t i = 1; i < vs.size(); ++i) {
    ++ST.forks; auto* T = new State(S); addPC(*T, Z3_mk_eq(C, v.e, num(vs[i].first, w))); T->known[v.e] = vs[i].first; T->model = vs[i].second; T->modelOk = true; work.push_back(T);
  }
  addPC(S, Z3_mk_eq(C, v.e, num(vs[0].first, w))); S.known[v.e] = vs[0].first; S.model = vs[0].second; S.modelOk = true;
  return vs[0].first;
}
static Z3_ast freshVar(State& S, const std::string& name, unsigned bits, bool input) {
  std::string n = name + "#" + std::to_string(S.nfresh++);
  Z3_ast e = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), bits == 1 ? Z3_mk_bool_sort(C) : BVS(bits));
  if (input) S.inputs.push_back({name, bits, e});
  return e;
}

// ------------------------------------------------------------------ memory access
static std::string describe(State& S, uint64_t a) {
  Obj* o = a >= addrOf(0) ? rdObj(S, idOf(a)) : nullptr;
  char b[200];
  if (!o) { snprintf(b, sizeof b, "address 0x%llx", (unsigned long long)a); return b; }
  const char* k[] = {"global", "stack", "heap", "function", "exception", "tls"};
  snprintf(b, sizeof b, "%s object of size %llu at offset %lld", k[o->kind], (unsigned long long)o->size, (long long)offOf(a));
  std::string s = b; if (o->allocI) s += " allocated at " + locOf(o->allocI); if (o->freed && o->freeI) s += " freed at " + locOf(o->freeI);
  return s;
}
static Obj* access(State& S, uint64_t a, uint64_t n, bool wr, const char* what) {
  if (a < addrOf(0)) fail(S, "memory", std::string(what) + " through a null or invalid pointer");
  Obj* o = rdObj(S, idOf(a));
  if (!o) fail(S, "memory", std::string(what) + " through a wild pointer");
  if (o->freed) fail(S, "memory", std::string(what) + (o->kind == OB_STACK ? " after return (dead stack object): " : " after free: ") + describe(S, a));
  if (o->kind == OB_FUNC) fail(S, "memory", std::string(what) + " of code memory");
  if (offOf(a) + n > o->size) fail(S, "memory", std::string(what) + " out of bounds: " + describe(S, a));
  if (wr && o->ro) fail(S, "memory", std::string(what) + ": write to constant data");
  if (wr) o = wrObj(S, idOf(a));
  return o;
}
static void raceAcc(State& S, Obj* ro, uint64_t a, uint64_t n, bool wr, bool atomic) {
  if (!S.par || optNoRace) return;
  if (ro->kind == OB_EXC || (ro->kind == OB_STACK && ro->owner == S.cur)) return;
  if (ro->ro) return;
  Obj* o = wrObj(S, ro->id);
  if (o->sh.empty()) o->sh.resize(o->size);
  Thread& t = S.th[S.cur]; int me = S.cur; uint64_t off = offOf(a);
  for (uint64_t i = off; i < off + n; ++i) {
    Shadow& h = o->sh[i]; int bad = -1; const char* prev = "";
    if (h.nwt != me && h.nwc > t.vc[h.nwt]) { bad = h.nwt; prev = "write"; }
    if (!atomic) for (int u = 0; u < (int)S.th.size() && bad < 0; ++u) if (u != me) {
      if (h.aw[u] > t.vc[u]) { bad = u; prev = "atomic write"; }
      else if (wr && h.ar[u] > t.vc[u]) { bad = u; prev = "atomic read"; }
    }
    if (wr) for (int u = 0; u < (int)S.th.size() && bad < 0; ++u) if (u != me && h.nr[u] > t.vc[u]) { bad = u; prev = "read"; }
    if (bad >= 0) fail(S, "race", std::string("data race: ") + (atomic ? "atomic " : "") + (wr ? "write" : "read") + " by thread " + std::to_string(me) + " unordered with earlier " + prev + " by thread " + std::to_string(bad) + ": " + describe(S, a));
    if (atomic) { if (wr) h.aw[me] = t.vc[me]; h.ar[me] = t.vc[me]; }
    else if (wr) { h.nwt = me; h.nwc = t.vc[me]; }
    else h.nr[me] = t.vc[me];
  }
}
static Val loadP(State& S, Obj* o, uint64_t off, unsigned w) {
  unsigned n = (w + 7) / 8; Val v;
  bool plain = true; for (unsigned i = 0; i < n; ++i) if (o->st[off + i]) { plain = false; break; }
  if (plain && n <= 8) { memcpy(&v.c, &o->data[off], n); v.c &= mask(w); return v; }
  // materialise uninitialised bytes as fresh unconstrained symbols
  bool uninit = false; for (unsigned i = 0; i < n; ++i) if (o->st[off + i] == 1) uninit = true;
  if (uninit) {
    Obj* q = wrObj(S, o->id); if (q->sym.empty()) q->sym.resize(q->size);
    for (unsigned i = 0; i < n; ++i) if (q->st[off + i] == 1) { q->st[off + i] = 2; q->sym[off + i] = {freshVar(S, "uninit", 8, true), 0}; }
    o = q;
  }
  auto byteE = [&](unsigned i) -> Z3_ast {
    if (o->st[off + i] == 0) return num(o->data[off + i], 8);
    Z3_ast e = o->sym[off + i].first; unsigned bi = o->sym[off + i].second;
    unsigned ew = Z3_get_bv_sort_size(C, Z3_get_sort(C, e));
    if (ew == 8) return e;
    return Z3_mk_extract(C, bi * 8 + 7, bi * 8, e);
  };
  // whole expression?
  if (o->st[off] == 2 && o->sym[off].second == 0) {
    Z3_ast e = o->sym[off].first; bool whole = Z3_get_bv_sort_size(C, Z3_get_sort(C, e)) == n * 8;
    for (unsigned i = 1; whole && i < n; ++i) whole = o->st[off + i] == 2 && o->sym[off + i].first == e && o->sym[off + i].second == i;
    if (whole) { if (w == n * 8) { v.e = e; return v; } Z3_ast x = w == 1 ? Z3_mk_eq(C, Z3_mk_extract(C, 0, 0, e), num(1, 1)) : Z3_mk_extract(C, w - 1, 0, e); return fromE(x, w); }
  }
  // consecutive bytes of one expression: keep the extract unsimplified, so that a later store and load can reassemble it
  if (o->st[off] == 2 && w == n * 8) {
    Z3_ast b = o->sym[off].first; unsigned bi = o->sym[off].second; bool run = true;
    for (unsigned i = 1; run && i < n; ++i) run = o->st[off + i] == 2 && o->sym[off + i].first == b && o->sym[off + i].second == bi + i;
    if (run) { v.e = Z3_mk_extract(C, (bi + n) * 8 - 1, bi * 8, b); return v; }
  }
  Z3_ast e = byteE(0);
  for (unsigned i = 1; i < n; ++i) e = Z3_mk_concat(C, byteE(i), e);
  if (w != n * 8) e = w == 1 ? Z3_mk_eq(C, Z3_mk_extract(C, 0, 0, e), num(1, 1)) : Z3_mk_extract(C, w - 1, 0, e);
  return fromE(e, w);
}
static void storeE(Obj* o, uint64_t off, unsigned n, Z3_ast e, unsigned b0) {   // bytes b0..b0+n of e
  if (Z3_get_ast_kind(C, e) == Z3_NUMERAL_AST) { uint64_t u = 0; if (Z3_get_numeral_uint64(C, e, &u)) { for (unsigned i = 0; i < n; ++i) { o->data[off + i] = (uint8_t)(u >> (8 * (b0 + i))); o->st[off + i] = 0; } return; } }
  if (Z3_get_ast_kind(C, e) == Z3_APP_AST) {
    Z3_app a = Z3_to_app(C, e); Z3_func_decl d = Z3_get_app_decl(C, a); Z3_decl_kind k = Z3_get_decl_kind(C, d);
    if (k == Z3_OP_EXTRACT) { unsigned lo = Z3_get_decl_int_parameter(C, d, 1); if (lo % 8 == 0) { storeE(o, off, n, Z3_get_app_arg(C, a, 0), b0 + lo / 8); return; } }
    if (k == Z3_OP_CONCAT) {
      unsigned pos = 0; bool al = true, first = true; std::vector<std::pair<unsigned, Z3_ast>> ps;
      for (unsigned i = Z3_get_app_num_args(C, a); i-- > 0;) { Z3_ast x = Z3_get_app_arg(C, a, i); unsigned w = Z3_get_bv_sort_size(C, Z3_get_sort(C, x)); if (w % 8) al = false; ps.push_back({pos, x}); pos += w; }
      (void)first;
      if (al) { for (auto& q : ps) { unsigned w = Z3_get_bv_sort_size(C, Z3_get_sort(C, q.second)) / 8, s = q.first / 8; unsigned lo = std::max(s, b0), hi = std::min(s + w, b0 + n); if (lo < hi) storeE(o, off + (lo - b0), hi - lo, q.second, lo - s); } return; }
    }
  }
  for (unsigned i = 0; i < n; ++i) { o->st[off + i] = 2; o->sym[off + i] = {e, b0 + i}; }
}
static uint64_t gChg = 0;   // counts changes of memory and locks (a store of the value already there is none)
static void storeP(Obj* o, uint64_t off, unsigned w, const Val& v) {
  unsigned n = (w + 7) / 8;
  if (!v.e) { uint64_t c = v.c & mask(w); bool same = !memcmp(&o->data[off], &c, n); for (unsigned i = 0; i < n && same; ++i) if (o->st[off + i]) same = false; if (!same) ++gChg; memcpy(&o->data[off], &c, n); for (unsigned i = 0; i < n; ++i) o->st[off + i] = 0; return; }
  Z3_ast e = v.e;
  if (w == 1) e = Z3_mk_ite(C, e, num(1, 8), num(0, 8)); else if (w != n * 8) e = Z3_mk_zero_ext(C, n * 8 - w, e);
  if (o->sym.empty()) o->sym.resize(o->size);
  if (o->st[off] != 2 || o->sym[off].first != e || o->sym[off].second != 0) ++gChg;
  storeE(o, off, n, e, 0);
}
static uint64_t rd64(State& S, uint64_t a, const char* what) { Obj* o = access(S, a, 8, false, what); Val v = loadP(S, o, offOf(a), 64); return conc(S, v, 64); }
static uint32_t rd32(State& S, uint64_t a, const char* what) { Obj* o = access(S, a, 4, false, what); Val v = loadP(S, o, offOf(a), 32); return conc(S, v, 32); }
static std::string rdStr(State& S, uint64_t a) {
  std::string s; for (int i = 0; i < 400; ++i) { Obj* o = access(S, a + i, 1, false, "string read"); Val v = loadP(S, o, offOf(a + i), 8); char ch = (char)conc(S, v, 8); if (!ch) break; s += ch; } return s;
}
static void copyMem(State& S, uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return; ++gChg;
  Obj* so = access(S, s, n, false, "memcpy source"); raceAcc(S, so, s, n, false, false);
  so = rdObj(S, idOf(s));
  std::vector<uint8_t> da(so->data.begin() + offOf(s), so->data.begin() + offOf(s) + n), st(so->st.begin() + offOf(s), so->st.begin() + offOf(s) + n);
  std::vector<std::pair<Z3_ast, uint32_t>> sy; if (!so->sym.empty()) sy.assign(so->sym.begin() + offOf(s), so->sym.begin() + offOf(s) + n);
  Obj* o = access(S, d, n, true, "memcpy destination"); raceAcc(S, o, d, n, true, false); o = wrObj(S, idOf(d));
  uint64_t off = offOf(d);
  std::copy(da.begin(), da.end(), o->data.begin() + off); std::copy(st.begin(), st.end(), o->st.begin() + off);
  if (!sy.empty()) { if (o->sym.empty()) o->sym.resize(o->size); std::copy(sy.begin(), sy.end(), o->sym.begin() + off); }
}
static void killObj(State& S, uint32_t id, const Instruction* I, bool dropData) {
  Obj* o = wrObj(S, id); o->freed = true; o->freeI = const_cast<Instruction*>(I);
  if (dropData) { o->data.clear(); o->data.shrink_to_fit(); o->st.clear(); o->st.shrink_to_fit(); o->sym.clear(); o->sym.shrink_to_fit(); o->sh.clear(); o->sh.shrink_to_fit(); }
}

// ------------------------------------------------------------------ decoding
enum BI { B_NONE = 0, B_UNKNOWN, B_EXCCUR, B_EXCREF, B_EXCUNREF, B_EXCTHROW, B_SYM, B_PICK, B_ASSUME, B_ASSERT, B_COVER, B_LOG, B_PARALLEL, B_EVENT, B_FAULTS, B_AFAULT, B_MALLOC, B_FREE, B_LIVE, B_FLAG,
  B_MEMCPY, B_MEMSET, B_MEMCMP, B_STRLEN, B_STRCMP, B_MEMCHR, B_CALLOC,
  B_MLOCK, B_MUNLOCK, B_MTRY, B_RDLOCK, B_WRLOCK, B_RWUNLOCK, B_TRYRD, B_TRYWR, B_RET0, B_NOP, B_SELF, B_TATEXIT,
  B_CXAALLOC, B_CXATHROW, B_CXABEGIN, B_CXAEND, B_CXARETHROW, B_CXAFREE, B_DYNCAST, B_TERMINATE, B_ABORT, B_ASSERTFAIL, B_PUREV, B_GUARDA, B_GUARDR, B_UNCAUGHT, B_GETEXC, B_CURTYPE,
  B_TYPEID, B_EXPECT, B_TRAP, B_OVF, B_MINMAX, B_ABS, B_BIT, B_SAT, B_FSH, B_OBJSIZE, B_TLS, B_ISCONST, B_COPY1, B_STACKSAVE, B_LIFEEND, B_LIFESTART, B_LASSUME, B_FABS };
static int builtinOf(const Function* F) {
  if (F->isIntrinsic()) {
    switch (F->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return B_MEMCPY;
    case Intrinsic::memset: return B_MEMSET;
    case Intrinsic::lifetime_end: return B_LIFEEND; case Intrinsic::lifetime_start: return B_LIFESTART;
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::sideeffect: case Intrinsic::var_annotation: return B_NOP;
    case Intrinsic::assume: return B_LASSUME;
    case Intrinsic::stacksave: return B_STACKSAVE;
    case Intrinsic::eh_typeid_for: return B_TYPEID;
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::expect_with_probability: case Intrinsic::ssa_copy: case Intrinsic::ptr_annotation: return B_COPY1;
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: return B_TRAP;
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: return B_OVF;
    case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: return B_MINMAX;
    case Intrinsic::abs: return B_ABS;
    case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: case Intrinsic::bswap: case Intrinsic::bitreverse: return B_BIT;
    case Intrinsic::uadd_sat: case Intrinsic::usub_sat: return B_SAT;
    case Intrinsic::fshl: case Intrinsic::fshr: return B_FSH;
    case Intrinsic::objectsize: return B_OBJSIZE;
    case Intrinsic::threadlocal_address: return B_TLS;
    case Intrinsic::is_constant: return B_ISCONST;
    case Intrinsic::fabs: case Intrinsic::ceil: case Intrinsic::floor: case Intrinsic::trunc: return B_FABS;
    default: return B_UNKNOWN;
    }
  }
  static const std::map<std::string, int> T = {
    {"vp_sym", B_SYM}, {"vp_pick", B_PICK}, {"vp_assume", B_ASSUME}, {"vp_assert_at", B_ASSERT}, {"vp_cover", B_COVER}, {"vp_log", B_LOG}, {"vp_parallel", B_PARALLEL}, {"vp_event", B_EVENT},
    {"vp_faults", B_FAULTS}, {"vp_alloc_fault", B_AFAULT}, {"vp_malloc", B_MALLOC}, {"vp_free", B_FREE}, {"vp_live", B_LIVE}, {"vp_flag", B_FLAG},
    {"malloc", B_MALLOC}, {"free", B_FREE}, {"calloc", B_CALLOC}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"strlen", B_STRLEN}, {"strcmp", B_STRCMP}, {"memchr", B_MEMCHR},
    {"pthread_mutex_lock", B_MLOCK}, {"pthread_mutex_unlock", B_MUNLOCK}, {"pthread_mutex_trylock", B_MTRY}, {"__gthrw_pthread_mutex_lock", B_MLOCK},
    {"pthread_rwlock_rdlock", B_RDLOCK}, {"pthread_rwlock_wrlock", B_WRLOCK}, {"pthread_rwlock_unlock", B_RWUNLOCK}, {"pthread_rwlock_tryrdlock", B_TRYRD}, {"pthread_rwlock_trywrlock", B_TRYWR},
    {"pthread_spin_lock", B_MLOCK}, {"pthread_spin_unlock", B_MUNLOCK}, {"pthread_spin_trylock", B_MTRY},
    {"pthread_mutex_init", B_RET0}, {"pthread_mutex_destroy", B_RET0}, {"pthread_rwlock_init", B_RET0}, {"pthread_rwlock_destroy", B_RET0}, {"sched_yield", B_EVENT}, {"nanosleep", B_RET0}, {"usleep", B_RET0},
    {"pthread_self", B_SELF}, {"__cxa_atexit", B_RET0}, {"__cxa_thread_atexit", B_TATEXIT}, {"atexit", B_RET0}, {"pthread_cond_init", B_RET0}, {"pthread_cond_destroy", B_RET0}, {"vp_exc_current", B_EXCCUR}, {"vp_exc_ref", B_EXCREF}, {"vp_exc_unref", B_EXCUNREF}, {"vp_exc_rethrow", B_EXCTHROW},
    {"__cxa_allocate_exception", B_CXAALLOC}, {"__cxa_throw", B_CXATHROW}, {"__cxa_begin_catch", B_CXABEGIN}, {"__cxa_end_catch", B_CXAEND}, {"__cxa_rethrow", B_CXARETHROW}, {"__cxa_free_exception", B_CXAFREE},
    {"__cxa_get_exception_ptr", B_GETEXC}, {"__cxa_current_exception_type", B_CURTYPE},
    {"__dynamic_cast", B_DYNCAST}, {"_ZSt9terminatev", B_TERMINATE}, {"abort", B_ABORT}, {"__assert_fail", B_ASSERTFAIL}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", B_ASSERTFAIL}, {"__cxa_pure_virtual", B_PUREV}, {"__cxa_deleted_virtual", B_PUREV}, {"__cxa_call_unexpected", B_TERMINATE}, {"__cxa_call_terminate", B_TERMINATE},
    {"__cxa_guard_acquire", B_GUARDA}, {"__cxa_guard_release", B_GUARDR}, {"__cxa_guard_abort", B_NOP}, {"_ZSt19uncaught_exceptionsv", B_UNCAUGHT}, {"_ZSt18uncaught_exceptionv", B_UNCAUGHT} };
  auto it = T.find(F->getName().str());
  if (it != T.end()) return it->second;
  return F->isDeclaration() ? B_UNKNOWN : B_NONE;
}
static bool visibleBI(int b) { return b == B_MLOCK || b == B_MUNLOCK || b == B_MTRY || b == B_RDLOCK || b == B_WRLOCK || b == B_RWUNLOCK || b == B_TRYRD || b == B_TRYWR || b == B_EVENT; }

static uint32_t slotsOf(Type* T) {
  if (T->isVoidTy() || T->isMetadataTy() || T->isTokenTy() || T->isLabelTy()) return 0;
  if (auto* s = dyn_cast<StructType>(T)) { uint32_t n = 0; for (auto* e : s->elements()) n += slotsOf(e); return n; }
  if (auto* a = dyn_cast<ArrayType>(T)) return a->getNumElements() * slotsOf(a->getElementType());
  if (auto* v = dyn_cast<FixedVectorType>(T)) return v->getNumElements();
  return 1;
}
static uint32_t widthOf(Type* T) {
  if (T->isPointerTy()) return 64;
  if (T->isIntegerTy()) return T->getIntegerBitWidth();
  if (T->isFloatTy()) return 32; if (T->isDoubleTy()) return 64;
  if (auto* v = dyn_cast<FixedVectorType>(T)) return widthOf(v->getElementType());
  return T->isSized() && !T->isAggregateType() ? DL->getTypeSizeInBits(T) : 0;
}
static void piecesOf(Type* T, uint64_t off, uint32_t& slot, std::vector<Piece>& out) {
  if (auto* s = dyn_cast<StructType>(T)) { auto* L = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); ++i) piecesOf(s->getElementType(i), off + L->getElementOffset(i), slot, out); return; }
  if (auto* a = dyn_cast<ArrayType>(T)) { uint64_t es = DL->getTypeAllocSize(a->getElementType()); for (unsigned i = 0; i < a->getNumElements(); ++i) piecesOf(a->getElementType(), off + i * es, slot, out); return; }
  if (auto* v = dyn_cast<FixedVectorType>(T)) { uint64_t es = DL->getTypeStoreSize(v->getElementType()); for (unsigned i = 0; i < v->getNumElements(); ++i) { out.push_back({slot++, (uint32_t)(off + i * es), widthOf(v->getElementType())}); } return; }
  out.push_back({slot++, (uint32_t)off, widthOf(T)});
}
static FuncInfo* infoOf(const Function* F);
static uint64_t gaddr(const GlobalValue* g);

static void constVals(const Constant* K, std::vector<Val>& out) {
  Type* T = K->getType();
  if (isa<UndefValue>(K) || isa<ConstantAggregateZero>(K) || isa<ConstantPointerNull>(K)) { for (uint32_t i = 0; i < slotsOf(T); ++i) out.push_back(Val()); return; }
  if (auto* i = dyn_cast<ConstantInt>(K)) { Val v; v.c = i->getValue().getLoBits(std::min(64u, i->getBitWidth())).zextOrTrunc(64).getZExtValue(); out.push_back(v); return; }
  if (auto* f = dyn_cast<ConstantFP>(K)) { Val v; v.c = f->getValueAPF().bitcastToAPInt().zextOrTrunc(64).getZExtValue(); out.push_back(v); return; }
  if (auto* g = dyn_cast<GlobalValue>(K)) { Val v; v.c = gaddr(g); out.push_back(v); return; }
  if (auto* a = dyn_cast<ConstantAggregate>(K)) { for (auto& o : a->operands()) constVals(cast<Constant>(o), out); return; }
  if (auto* d = dyn_cast<ConstantDataSequential>(K)) { for (unsigned i = 0; i < d->getNumElements(); ++i) constVals(d->getElementAsConstant(i), out); return; }
  if (auto* d = dyn_cast<DSOLocalEquivalent>(K)) { constVals(d->getGlobalValue(), out); return; }
  if (auto* c = dyn_cast<ConstantExpr>(K)) {
    auto one = [&](unsigned i) { std::vector<Val> t; constVals(c->getOperand(i), t); return t[0].c; };
    Val v; unsigned w = widthOf(T);
    switch (c->getOpcode()) {
    case Instruction::GetElementPtr: { APInt off(64, 0); if (cast<GEPOperator>(c)->accumulateConstantOffset(*DL, off)) v.c = one(0) + off.getSExtValue(); else { errs() << "gep constexpr? " << *c << "\n"; inconc("constant expression"); } break; }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::Trunc: v.c = one(0) & mask(w); break;
    case Instruction::Add: v.c = (one(0) + one(1)) & mask(w); break;
    case Instruction::Sub: v.c = (one(0) - one(1)) & mask(w); break;
    case Instruction::Xor: v.c = (one(0) ^ one(1)) & mask(w); break;
    case Instruction::ICmp: { uint64_t a = one(0), b = one(1); v.c = c->getPredicate() == CmpInst::ICMP_EQ ? a == b : c->getPredicate() == CmpInst::ICMP_NE ? a != b : a < b; break; }
    default: errs() << "constexpr? " << *c << "\n"; inconc("constant expression");
    }
    out.push_back(v); return;
  }
  errs() << "constant? " << *K << "\n"; inconc("constant"); for (uint32_t i = 0; i < slotsOf(T); ++i) out.push_back(Val());
}
static void writeConst(Obj* o, uint64_t off, const Constant* K) {
  if (isa<UndefValue>(K) || isa<ConstantAggregateZero>(K) || isa<ConstantPointerNull>(K)) { return; }
  if (auto* s = dyn_cast<ConstantStruct>(K)) { auto* L = DL->getStructLayout(s->getType()); for (unsigned i = 0; i < s->getNumOperands(); ++i) writeConst(o, off + L->getElementOffset(i), s->getOperand(i)); return; }
  if (auto* a = dyn_cast<ConstantArray>(K)) { uint64_t es = DL->getTypeAllocSize(a->getType()->getElementType()); for (unsigned i = 0; i < a->getNumOperands(); ++i) writeConst(o, off + i * es, a->getOperand(i)); return; }
  if (auto* d = dyn_cast<ConstantDataSequential>(K)) { StringRef r = d->getRawDataValues(); memcpy(&o->data[off], r.data(), r.size()); return; }
  std::vector<Val> v; constVals(K, v); std::vector<Piece> p; uint32_t sl = 0; piecesOf(K->getType(), 0, sl, p);
  for (auto& q : p) storeP(o, off + q.off, q.width, v[q.slot]);
}
static uint64_t gaddr(const GlobalValue* g) {
  if (auto* a = dyn_cast<GlobalAlias>(g)) { std::vector<Val> t; constVals(a->getAliasee(), t); return t[0].c; }
  if (g->hasExternalWeakLinkage() && g->isDeclaration()) { auto* f = dyn_cast<Function>(g); if (!f || builtinOf(f) == B_UNKNOWN) return 0; }
  auto it = GA.find(g); if (it != GA.end()) return it->second;
  errs() << "no address for " << g->getName() << "\n"; inconc("global without address"); return 0;
}
static bool syncVisible(AtomicOrdering) { return true; }

static void decode(FuncInfo* fi) {
  if (fi->decoded) return;
  fi->decoded = true; Function* F = fi->f;
  std::unordered_map<const Value*, int32_t> slot; std::unordered_map<const BasicBlock*, uint32_t> bbi;
  uint32_t n = 0;
  for (auto& A : F->args()) { fi->argSlots.push_back(n); slot[&A] = n; n += slotsOf(A.getType()); }
  fi->nargs = n; uint32_t b = 0;
  for (auto& B : *F) { bbi[&B] = b++; for (auto& I : B) { uint32_t s = slotsOf(I.getType()); if (s) { slot[&I] = n; n += s; } } }
  fi->nregs = n; fi->bbs.resize(b);
  std::unordered_map<const Constant*, int32_t> cs;
  auto opnd = [&](const Value* V) -> int32_t {
    auto it = slot.find(V); if (it != slot.end()) return it->second;
    if (auto* K = dyn_cast<Constant>(V)) { auto j = cs.find(K); if (j != cs.end()) return j->second; int32_t idx = -(int32_t)fi->consts.size() - 1; constVals(K, fi->consts); cs[K] = idx; return idx; }
    return INT32_MIN;
  };
  auto mkEdge = [&](const BasicBlock* from, const BasicBlock* to) { Edge e; e.bb = bbi[to]; for (auto& P : to->phis()) e.phis.push_back({slot[&P], opnd(P.getIncomingValueForBlock(from)), slotsOf(P.getType())}); return e; };
  for (auto& B : *F) {
    auto& out = fi->bbs[bbi[&B]].ins;
    for (auto& I : B) {
      if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
      if (auto* ii = dyn_cast<IntrinsicInst>(&I)) if (builtinOf(ii->getCalledFunction()) == B_NOP || ii->isLifetimeStartOrEnd()) continue;
      Ins x; x.src = &I; x.k = K_UNSUP; x.w = widthOf(I.getType()); x.nslots = slotsOf(I.getType()); if (x.nslots) x.dst = slot[&I];
      auto addOp = [&](const Value* V) { x.ops.push_back(opnd(V)); x.opn.push_back(slotsOf(V->getType())); };
      if (auto* bo = dyn_cast<BinaryOperator>(&I)) { x.k = I.getType()->isFPOrFPVectorTy() ? K_FBIN : K_BIN; x.sub = bo->getOpcode() - Instruction::BinaryOpsBegin; addOp(bo->getOperand(0)); addOp(bo->getOperand(1)); }
      else if (auto* u = dyn_cast<UnaryOperator>(&I)) { x.k = K_FNEG; addOp(u->getOperand(0)); }
      else if (auto* ic = dyn_cast<ICmpInst>(&I)) { x.k = K_ICMP; x.sub = ic->getPredicate(); x.w2 = widthOf(ic->getOperand(0)->getType()); addOp(ic->getOperand(0)); addOp(ic->getOperand(1)); }
      else if (auto* fc = dyn_cast<FCmpInst>(&I)) { x.k = K_FCMP; x.sub = fc->getPredicate(); x.w2 = widthOf(fc->getOperand(0)->getType()); addOp(fc->getOperand(0)); addOp(fc->getOperand(1)); }
      else if (auto* ca = dyn_cast<CastInst>(&I)) {
        addOp(ca->getOperand(0)); x.w2 = widthOf(ca->getOperand(0)->getType()); x.sub = ca->getOpcode() - Instruction::CastOpsBegin;
        switch (ca->getOpcode()) { case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPTrunc: case Instruction::FPExt: x.k = K_FCAST; break;
        default: x.k = K_CAST; }
        if (ca->getOpcode() == Instruction::BitCast && (ca->getType()->isVectorTy() || ca->getOperand(0)->getType()->isVectorTy()) && slotsOf(ca->getType()) != slotsOf(ca->getOperand(0)->getType())) x.k = K_UNSUP;
      }
      else if (auto* l = dyn_cast<LoadInst>(&I)) { x.k = K_LOAD; addOp(l->getPointerOperand()); uint32_t s = 0; piecesOf(l->getType(), 0, s, x.pieces); x.imm = DL->getTypeStoreSize(l->getType()); x.atomic = l->isAtomic(); x.visible = x.atomic; x.order = (uint8_t)l->getOrdering(); }
      else if (auto* s = dyn_cast<StoreInst>(&I)) { x.k = K_STORE; addOp(s->getValueOperand()); addOp(s->getPointerOperand()); uint32_t q = 0; piecesOf(s->getValueOperand()->getType(), 0, q, x.pieces); x.imm = DL->getTypeStoreSize(s->getValueOperand()->getType()); x.atomic = s->isAtomic(); x.visible = x.atomic; x.order = (uint8_t)s->getOrdering(); }
      else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
        x.k = K_GEP; addOp(g->getPointerOperand()); if (g->getType()->isVectorTy()) x.k = K_UNSUP;
        for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
          Value* idx = it.getOperand();
          if (auto* st = it.getStructTypeOrNull()) { x.goff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
          uint64_t sc = DL->getTypeAllocSize(it.getIndexedType());
          if (auto* ci = dyn_cast<ConstantInt>(idx)) { x.goff += ci->getSExtValue() * (int64_t)sc; continue; }
          x.gep.push_back({opnd(idx), sc, widthOf(idx->getType())});
        }
      }
      else if (auto* br = dyn_cast<BranchInst>(&I)) { if (br->isConditional()) { x.k = K_CBR; addOp(br->getCondition()); } else x.k = K_BR; for (unsigned i = 0; i < br->getNumSuccessors(); ++i) x.edges.push_back(mkEdge(&B, br->getSuccessor(i))); }
      else if (auto* sw = dyn_cast<SwitchInst>(&I)) { x.k = K_SWITCH; addOp(sw->getCondition()); x.w2 = widthOf(sw->getCondition()->getType()); x.edges.push_back(mkEdge(&B, sw->getDefaultDest())); for (auto& c : sw->cases()) { x.cases.push_back(c.getCaseValue()->getZExtValue()); x.edges.push_back(mkEdge(&B, c.getCaseSuccessor())); } }
      else if (auto* r = dyn_cast<ReturnInst>(&I)) { x.k = K_RET; if (r->getReturnValue()) addOp(r->getReturnValue()); }
      else if (isa<CallInst>(I) || isa<InvokeInst>(I)) {
        auto* cb = cast<CallBase>(&I); x.k = isa<CallInst>(I) ? K_CALL : K_INVOKE;
        if (cb->isInlineAsm()) { x.k = cast<InlineAsm>(cb->getCalledOperand())->getAsmString().empty() ? K_COPY : K_UNSUP; if (x.nslots && cb->arg_size()) addOp(cb->getArgOperand(0)); out.push_back(x); continue; }
        const Function* cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
        if (!cf) if (auto* ga = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) cf = dyn_cast<Function>(ga->getAliaseeObject());
        if (cf) { x.callee = infoOf(cf); x.visible = x.callee->visibleB; x.sub = cf->isIntrinsic() ? 1 : 0; x.imm = cf->isIntrinsic() ? cf->getIntrinsicID() : 0; }
        x.ops.push_back(cf ? INT32_MIN : opnd(cb->getCalledOperand())); x.opn.push_back(1);
        for (auto& A : cb->args()) { if (A->getType()->isMetadataTy()) continue; addOp(A); x.gep.push_back({0, 0, widthOf(A->getType())}); }
        if (auto* iv = dyn_cast<InvokeInst>(&I)) { x.edges.push_back(mkEdge(&B, iv->getNormalDest())); x.edges.push_back(mkEdge(&B, iv->getUnwindDest())); }
      }
      else if (auto* se = dyn_cast<SelectInst>(&I)) { x.k = K_SELECT; addOp(se->getCondition()); addOp(se->getTrueValue()); addOp(se->getFalseValue()); }
      else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) { x.k = K_EXTRACT; addOp(ev->getAggregateOperand()); Type* T = ev->getAggregateOperand()->getType(); uint64_t o = 0; for (unsigned ix : ev->indices()) { if (auto* st = dyn_cast<StructType>(T)) { for (unsigned j = 0; j < ix; ++j) o += slotsOf(st->getElementType(j)); T = st->getElementType(ix); } else { T = cast<ArrayType>(T)->getElementType(); o += ix * slotsOf(T); } } x.imm = o; }
      else if (auto* iv = dyn_cast<InsertValueInst>(&I)) { x.k = K_INSERT; addOp(iv->getAggregateOperand()); addOp(iv->getInsertedValueOperand()); Type* T = iv->getAggregateOperand()->getType(); uint64_t o = 0; for (unsigned ix : iv->indices()) { if (auto* st = dyn_cast<StructType>(T)) { for (unsigned j = 0; j < ix; ++j) o += slotsOf(st->getElementType(j)); T = st->getElementType(ix); } else { T = cast<ArrayType>(T)->getElementType(); o += ix * slotsOf(T); } } x.imm = o; }
      else if (auto* al = dyn_cast<AllocaInst>(&I)) { x.k = K_ALLOCA; x.imm = DL->getTypeAllocSize(al->getAllocatedType()); addOp(al->getArraySize()); }
      else if (auto* rm = dyn_cast<AtomicRMWInst>(&I)) { x.k = K_RMW; x.sub = rm->getOperation(); addOp(rm->getPointerOperand()); addOp(rm->getValOperand()); x.atomic = x.visible = true; x.order = (uint8_t)rm->getOrdering(); x.imm = DL->getTypeStoreSize(rm->getType()); }
      else if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&I)) { x.k = K_CMPXCHG; addOp(cx->getPointerOperand()); addOp(cx->getCompareOperand()); addOp(cx->getNewValOperand()); x.w = widthOf(cx->getCompareOperand()->getType()); x.atomic = x.visible = true; x.order = (uint8_t)cx->getSuccessOrdering(); x.order2 = (uint8_t)cx->getFailureOrdering(); x.imm = DL->getTypeStoreSize(cx->getCompareOperand()->getType()); }
      else if (auto* fe = dyn_cast<FenceInst>(&I)) { x.k = K_FENCE; x.order = (uint8_t)fe->getOrdering(); }
      else if (auto* lp = dyn_cast<LandingPadInst>(&I)) { x.k = K_LPAD; x.cleanup = lp->isCleanup(); for (unsigned i = 0; i < lp->getNumClauses(); ++i) { if (lp->isCatch(i)) { std::vector<Val> t; constVals(lp->getClause(i), t); x.clauses.push_back({0, t[0].c}); } else x.clauses.push_back({1, 0}); } }
      else if (auto* re = dyn_cast<ResumeInst>(&I)) { x.k = K_RESUME; addOp(re->getOperand(0)); }
      else if (isa<UnreachableInst>(I)) x.k = K_UNREACH;
      else if (auto* fr = dyn_cast<FreezeInst>(&I)) { x.k = K_COPY; addOp(fr->getOperand(0)); }
      else if (auto* xe = dyn_cast<ExtractElementInst>(&I)) { x.k = K_XELT; addOp(xe->getVectorOperand()); addOp(xe->getIndexOperand()); }
      else if (auto* ie = dyn_cast<InsertElementInst>(&I)) { x.k = K_IELT; addOp(ie->getOperand(0)); addOp(ie->getOperand(1)); addOp(ie->getOperand(2)); }
      else if (auto* sv = dyn_cast<ShuffleVectorInst>(&I)) { x.k = K_SHUF; addOp(sv->getOperand(0)); addOp(sv->getOperand(1)); for (int m : sv->getShuffleMask()) x.cases.push_back((uint64_t)(int64_t)m); }
      out.push_back(std::move(x));
    }
  }
}
static FuncInfo* infoOf(const Function* F) {
  auto it = FI.find(F); if (it != FI.end()) return it->second;
  auto* fi = new FuncInfo; fi->f = const_cast<Function*>(F); fi->name = F->getName().str(); fi->builtin = builtinOf(F); fi->visibleB = visibleBI(fi->builtin);
  fi->retSlots = slotsOf(F->getReturnType()); fi->addr = GA.count(F) ? GA[F] : 0; FI[F] = fi; FIv.push_back(fi); return fi;
}
static void initGlobals(State& S) {
  for (auto& F : *M) { uint32_t id = newObj(S, 0, OB_FUNC, true); GA[&F] = addrOf(id); }
  for (auto& F : *M) { auto* fi = infoOf(&F); fi->addr = GA[&F]; Obj* o = rdObj(S, idOf(GA[&F])); o->fn = fi; }
  for (auto& G : M->globals()) {
    uint64_t sz = G.hasInitializer() || G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 0;
    if (G.isDeclaration()) sz = std::max<uint64_t>(sz, 128);
    uint32_t id = newObj(S, sz, OB_GLOBAL, true); GA[&G] = addrOf(id); extName[addrOf(id)] = G.getName().str();
  }
  for (auto& G : M->globals()) if (G.isDeclaration() && G.getName().startswith("_ZTI")) {   // type_info objects of the C++ runtime: give them their names
    std::string nm = G.getName().substr(4).str(); uint32_t id = newObj(S, nm.size() + 1, OB_GLOBAL, true); Obj* o = rdObj(S, id); for (size_t i = 0; i <= nm.size(); ++i) { Val v; v.c = i < nm.size() ? (uint8_t)nm[i] : 0; storeP(o, i, 8, v); } o->ro = true;
    Val a; a.c = addrOf(id); storeP(rdObj(S, idOf(GA[&G])), 8, 64, a);
  }
  for (auto& G : M->globals()) { Obj* o = rdObj(S, idOf(GA[&G])); if (G.hasInitializer()) writeConst(o, 0, G.getInitializer()); o->ro = G.isConstant(); }
}

// ------------------------------------------------------------------ exceptions / RTTI
static int tiKind(State& S, uint64_t ti) {   // 0 class/fundamental, 1 si, 2 vmi
  uint64_t vp = rd64(S, ti, "type_info"); if (vp < addrOf(0)) return 0;
  auto it = extName.find(addrOf(idOf(vp))); if (it == extName.end()) return 0;
  if (it->second.find("20__si_class_type_info") != std::string::npos) return 1;
  if (it->second.find("21__vmi_class_type_info") != std::string::npos) return 2;
  return 0;
}
struct Sub { uint64_t ti; int64_t off; bool pub; };
static void subobjs(State& S, uint64_t ti, int64_t off, uint64_t objBase, bool pub, std::vector<Sub>& out) {
  out.push_back({ti, off, pub});
  int k = tiKind(S, ti);
  if (k == 1) subobjs(S, rd64(S, ti + 16, "type_info"), off, objBase, pub, out);
  else if (k == 2) {
    uint32_t n = rd32(S, ti + 20, "type_info");
    for (uint32_t i = 0; i < n; ++i) {
      uint64_t b = rd64(S, ti + 24 + 16 * i, "type_info"); int64_t of = (int64_t)rd64(S, ti + 32 + 16 * i, "type_info"); bool p = of & 2; int64_t bo = of >> 8;
      if (of & 1) { if (!objBase) continue; uint64_t vp = rd64(S, objBase + off, "vtable pointer"); bo = (int64_t)rd64(S, vp + bo, "vtable"); }
      subobjs(S, b, off + bo, objBase, pub && p, out);
    }
  }
}
static bool tiMatch(State& S, uint64_t thrown, uint64_t want, uint64_t obj, uint64_t& adj) {
  adj = obj;
  if (!want || thrown == want) return true;
  if (tiKind(S, thrown) == 0) { return false; }
  std::vector<Sub> v; subobjs(S, thrown, 0, obj, true, v);
  for (auto& s : v) if (s.ti == want && s.pub) { adj = obj + s.off; return true; }
  return false;
}
static uint64_t typeidFor(uint64_t ti) { return ti ? (idOf(ti) & 0x3fffffff) + 1 : 0x7ffffff0; }

static void popFrame(State& S, Thread& t) {
  Frame& f = t.st.back(); for (uint32_t id : f.allocas) killObj(S, id, nullptr, true);
  t.st.pop_back();
}
static void takeEdge(State& S, Frame& f, const Edge& e) {
  if (!e.phis.empty()) {
    static thread_local std::vector<Val> tmp; tmp.clear();
    for (auto& p : e.phis) for (uint32_t i = 0; i < p.n; ++i) tmp.push_back(p.src >= 0 ? f.r[p.src + i] : f.fi->consts[-p.src - 1 + i]);
    size_t k = 0; for (auto& p : e.phis) for (uint32_t i = 0; i < p.n; ++i) f.r[p.dst + i] = tmp[k++];
  }
  f.bb = e.bb; f.pc = 0;
}
static void unwind(State& S, int exIdx) {
  Thread& t = S.th[S.cur];
  for (;;) {
    if (t.st.empty()) { t.done = true; throw PathEnd(); }
    Frame& f = t.st.back();
    const Ins& I = f.fi->bbs[f.bb].ins[f.pc];
    if (f.special) { fail(S, "terminate", "exception escaped from a destructor of an exception or a static initialiser"); }
    if (I.k == K_INVOKE) {
      const Edge& e = I.edges[1]; const Ins* lp = nullptr;
      for (auto& x : f.fi->bbs[e.bb].ins) if (x.k == K_LPAD) { lp = &x; break; }
      bool enter = lp->cleanup; uint64_t sel = 0; Exc ex = S.excs[exIdx];
      for (auto& c : lp->clauses) {
        if (c.first == 1) { sel = 0xffffffff; enter = true; break; }
        uint64_t adj; if (tiMatch(S, ex.ti, c.second, ex.obj, adj)) { sel = typeidFor(c.second); S.excs[exIdx].adj = adj; enter = true; break; }
      }
      if (enter) { t.pendExc = exIdx; t.pendSel = sel; takeEdge(S, f, e); return; }
    }
    if (t.st.size() == 1) fail(S, "terminate", "uncaught exception (std::terminate)");
    popFrame(S, t);
  }
}
static void endCatchDestroy(State& S, uint32_t exi) {
  Exc& e = S.excs[exi]; e.live = false;
  uint32_t oid = idOf(e.obj);
  if (e.dtor) {
    Obj* fo = rdObj(S, idOf(e.dtor)); FuncInfo* fi = fo ? fo->fn : nullptr;
    if (fi && !fi->builtin) { decode(fi); Frame nf; nf.fi = fi; nf.r.resize(fi->nregs); if (fi->nargs) nf.r[0].c = e.obj; nf.special = true; nf.freeOnRet = oid + 1; ++fi->execs; S.th[S.cur].st.push_back(std::move(nf)); return; }
  }
  killObj(S, oid, nullptr, false);
}

// ------------------------------------------------------------------ threads
static void joinVC(uint16_t* a, const uint16_t* b) { for (int i = 0; i < MAXT; ++i) a[i] = std::max(a[i], b[i]); }
static bool acqO(uint8_t o) { auto a = (AtomicOrdering)o; return a == AtomicOrdering::Acquire || a == AtomicOrdering::AcquireRelease || a == AtomicOrdering::SequentiallyConsistent; }
static bool relO(uint8_t o) { auto a = (AtomicOrdering)o; return a == AtomicOrdering::Release || a == AtomicOrdering::AcquireRelease || a == AtomicOrdering::SequentiallyConsistent; }
static void atomicLoadHB(State& S, uint64_t a, uint32_t len, uint8_t o) {
  if (!S.par) return; Thread& t = S.th[S.cur];
  for (auto it = S.arel.lower_bound(a >= 16 ? a - 16 : 0); it != S.arel.end() && it->first < a + len; ++it) if (it->first + it->second.len > a) joinVC(acqO(o) ? t.vc : t.acq, it->second.vc);
}
static void atomicStoreHB(State& S, uint64_t a, uint32_t len, uint8_t o, bool rmw) {
  if (!S.par) return; Thread& t = S.th[S.cur]; auto& r = S.arel[a]; r.len = std::max(r.len, len);
  if (!rmw) memset(r.vc, 0, sizeof r.vc);
  if (relO(o)) { joinVC(r.vc, t.vc); ++t.vc[S.cur]; } else joinVC(r.vc, t.rel);
}
static bool dependent(const OpSig& a, const OpSig& b) {
  if (a.kind == 0 || b.kind == 0) return false;
  if (a.kind == 3 || b.kind == 3) return false;
  if (a.kind != b.kind) return false;
  if (a.kind == 2) return a.addr == b.addr && (a.wr || b.wr);
  if (!(a.wr || b.wr)) return false;
  return a.addr < b.addr + b.len && b.addr < a.addr + a.len;
}
static Val& R(Frame& f, int32_t i);
static inline const Val& OP(const Frame& f, int32_t i) { return i >= 0 ? f.r[i] : f.fi->consts[-i - 1]; }
static OpSig sigOf(State& S, Frame& f, const Ins& I) {
  OpSig s; auto ad = [&](int k) { return conc(S, OP(f, I.ops[k]), 64); };
  switch (I.k) {
  case K_LOAD: s.kind = 1; s.addr = ad(0); s.len = I.imm; break;
  case K_STORE: s.kind = 1; s.wr = true; s.addr = ad(1); s.len = I.imm; break;
  case K_RMW: case K_CMPXCHG: s.kind = 1; s.wr = true; s.addr = ad(0); s.len = I.imm; break;
  case K_CALL: case K_INVOKE:
    if (I.callee->builtin == B_EVENT) { s.kind = 3; break; }
    s.kind = 2; s.wr = !(I.callee->builtin == B_RDLOCK || I.callee->builtin == B_TRYRD); s.addr = ad(1); s.len = 1; break;
  default: break;
  }
  return s;
}
static bool anyReaders(const MutexSt& m, int except) { for (int i = 0; i < MAXT; ++i) if (i != except && m.readers[i]) return true; return false; }
static bool enabledT(State& S, int ti) {
  Thread& t = S.th[ti]; Frame& f = t.st.back(); const Ins& I = f.fi->bbs[f.bb].ins[f.pc];
  if (t.spin >= 0) return t.spin != S.glob;   // busy waiting: nothing changes until another thread changes something
  if (t.sig.kind != 2) return true;
  int b = I.callee->builtin; auto it = S.mtx.find(t.sig.addr); if (it == S.mtx.end()) return true; auto& m = it->second;
  if (b == B_MLOCK) return m.owner == 0xff || m.owner == ti;
  if (b == B_WRLOCK) return (m.owner == 0xff || m.owner == ti) && !anyReaders(m, ti);
  if (b == B_RDLOCK) return m.owner == 0xff || m.owner == ti;
  return true;
}
// Pick the next thread. Every pick among several is a symbolic schedule variable with one path per thread.
static void schedule(State& S) {
  for (size_t i = 1; i < S.th.size(); ++i) if (!S.th[i].done && !S.th[i].parked) { S.cur = i; return; }
  bool alive = false; std::vector<int> en;
  for (size_t i = 1; i < S.th.size(); ++i) if (!S.th[i].done) { alive = true; if (enabledT(S, i)) en.push_back(i); }
  if (!alive) {
    for (size_t i = 1; i < S.th.size(); ++i) joinVC(S.th[0].vc, S.th[i].vc);
    ++S.th[0].vc[0]; S.par = false; S.cur = 0; S.sleep.clear(); S.arel.clear(); S.th.resize(1);
    auto& f = S.th[0].st.back(); const Ins& I = f.fi->bbs[f.bb].ins[f.pc]; if (I.k == K_INVOKE) takeEdge(S, f, I.edges[0]); else ++f.pc;   // vp_parallel returns
    return;
  }
  if (en.empty()) { for (size_t i = 1; i < S.th.size(); ++i) if (!S.th[i].done) S.cur = i; fail(S, "deadlock", "deadlock: every unfinished thread waits"); }
  ++ST.schedPoints; S.lastSched = S.steps;
  std::vector<int> cand;
  if (optPreempt >= 0) {
    bool lastEn = std::find(en.begin(), en.end(), S.lastT) != en.end();
    if (lastEn && S.preempt >= optPreempt) cand.push_back(S.lastT); else { cand = en; if (lastEn) { cand.erase(std::find(cand.begin(), cand.end(), S.lastT)); cand.insert(cand.begin(), S.lastT); } }
  } else {
    for (int t : en) { bool sl = false; for (auto& z : S.sleep) if (z.first == t) sl = true; if (!sl) cand.push_back(t); }
    if (cand.empty()) { ++ST.pruned; throw PathEnd(); }
  }
  auto grant = [&](State& X, int t, size_t idx) {
    if (optPreempt >= 0) { bool lastEn = std::find(en.begin(), en.end(), X.lastT) != en.end(); if (lastEn && t != X.lastT) ++X.preempt; }
    else {
      std::vector<std::pair<uint8_t, OpSig>> z;
      for (auto& q : X.sleep) if (!dependent(q.second, X.th[t].sig)) z.push_back(q);
      for (size_t j = 0; j < idx; ++j) if (!dependent(X.th[cand[j]].sig, X.th[t].sig)) z.push_back({(uint8_t)cand[j], X.th[cand[j]].sig});
      X.sleep.swap(z);
    }
    X.lastT = t; X.cur = t; X.th[t].granted = true; X.th[t].parked = false; X.sched.push_back(t);
  };
  for (size_t i = cand.size(); i-- > 1;) { ++ST.forks; ++ST.scheds; auto* T = new State(S); grant(*T, cand[i], i); work.push_back(T); }
  grant(S, cand[0], 0);
}

// ------------------------------------------------------------------ arithmetic
static uint64_t sext(uint64_t v, unsigned w) { return w >= 64 ? v : (uint64_t)((int64_t)(v << (64 - w)) >> (64 - w)); }
static Val binop(State& S, unsigned op, unsigned w, const Val& a, const Val& b) {
  Val r; unsigned o = op + Instruction::BinaryOpsBegin;
  if (o == Instruction::UDiv || o == Instruction::SDiv || o == Instruction::URem || o == Instruction::SRem) {
    bool z = b.e ? decide(S, Z3_simplify(C, Z3_mk_eq(C, ex(b, w), num(0, w)))) : (b.c & mask(w)) == 0;
    if (z) fail(S, "arith", "division by zero");
  }
  if (!a.e && !b.e) {
    uint64_t x = a.c, y = b.c;
    switch (o) {
    case Instruction::Add: r.c = x + y; break; case Instruction::Sub: r.c = x - y; break; case Instruction::Mul: r.c = x * y; break;
    case Instruction::UDiv: r.c = x / y; break; case Instruction::URem: r.c = x % y; break;
    case Instruction::SDiv: r.c = (int64_t)sext(y, w) == -1 ? 0 - sext(x, w) : (uint64_t)((int64_t)sext(x, w) / (int64_t)sext(y, w)); break;
    case Instruction::SRem: r.c = (int64_t)sext(y, w) == -1 ? 0 : (uint64_t)((int64_t)sext(x, w) % (int64_t)sext(y, w)); break;
    case Instruction::Shl: r.c = y >= w ? 0 : x << y; break; case Instruction::LShr: r.c = y >= w ? 0 : x >> y; break;
    case Instruction::AShr: r.c = (uint64_t)((int64_t)sext(x, w) >> std::min<uint64_t>(y, 63)); break;
    case Instruction::And: r.c = x & y; break; case Instruction::Or: r.c = x | y; break; case Instruction::Xor: r.c = x ^ y; break;
    }
    r.c &= mask(w); return r;
  }
  if (w == 1) {
    Z3_ast x = ex(a, 1), y = ex(b, 1), v[2] = {x, y};
    switch (o) { case Instruction::And: case Instruction::Mul: return fromE(Z3_mk_and(C, 2, v), 1); case Instruction::Or: return fromE(Z3_mk_or(C, 2, v), 1); case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return fromE(Z3_mk_xor(C, x, y), 1); default: return a; }
  }
  Z3_ast x = ex(a, w), y = ex(b, w), e = nullptr;
  switch (o) {
  case Instruction::Add: e = Z3_mk_bvadd(C, x, y); break; case Instruction::Sub: e = Z3_mk_bvsub(C, x, y); break; case Instruction::Mul: e = Z3_mk_bvmul(C, x, y); break;
  case Instruction::UDiv: e = Z3_mk_bvudiv(C, x, y); break; case Instruction::URem: e = Z3_mk_bvurem(C, x, y); break; case Instruction::SDiv: e = Z3_mk_bvsdiv(C, x, y); break; case Instruction::SRem: e = Z3_mk_bvsrem(C, x, y); break;
  case Instruction::Shl: e = Z3_mk_bvshl(C, x, y); break; case Instruction::LShr: e = Z3_mk_bvlshr(C, x, y); break; case Instruction::AShr: e = Z3_mk_bvashr(C, x, y); break;
  case Instruction::And: e = Z3_mk_bvand(C, x, y); break; case Instruction::Or: e = Z3_mk_bvor(C, x, y); break; case Instruction::Xor: e = Z3_mk_bvxor(C, x, y); break;
  }
  return fromE(e, w);
}
static Val icmp(unsigned p, unsigned w, const Val& a, const Val& b) {
  Val r;
  if (!a.e && !b.e) {
    uint64_t x = a.c & mask(w), y = b.c & mask(w); int64_t sx = sext(x, w), sy = sext(y, w);
    switch (p) { case CmpInst::ICMP_EQ: r.c = x == y; break; case CmpInst::ICMP_NE: r.c = x != y; break; case CmpInst::ICMP_UGT: r.c = x > y; break; case CmpInst::ICMP_UGE: r.c = x >= y; break; case CmpInst::ICMP_ULT: r.c = x < y; break; case CmpInst::ICMP_ULE: r.c = x <= y; break;
    case CmpInst::ICMP_SGT: r.c = sx > sy; break; case CmpInst::ICMP_SGE: r.c = sx >= sy; break; case CmpInst::ICMP_SLT: r.c = sx < sy; break; case CmpInst::ICMP_SLE: r.c = sx <= sy; break; }
    return r;
  }
  Z3_ast x = ex(a, w), y = ex(b, w);
  if (w == 1) { if (p == CmpInst::ICMP_EQ) return fromE(Z3_mk_iff(C, x, y), 1); if (p == CmpInst::ICMP_NE) return fromE(Z3_mk_xor(C, x, y), 1); x = b2bv(x); y = b2bv(y); }
  Z3_ast e = nullptr;
  switch (p) { case CmpInst::ICMP_EQ: e = Z3_mk_eq(C, x, y); break; case CmpInst::ICMP_NE: e = Z3_mk_not(C, Z3_mk_eq(C, x, y)); break; case CmpInst::ICMP_UGT: e = Z3_mk_bvugt(C, x, y); break; case CmpInst::ICMP_UGE: e = Z3_mk_bvuge(C, x, y); break; case CmpInst::ICMP_ULT: e = Z3_mk_bvult(C, x, y); break; case CmpInst::ICMP_ULE: e = Z3_mk_bvule(C, x, y); break;
  case CmpInst::ICMP_SGT: e = Z3_mk_bvsgt(C, x, y); break; case CmpInst::ICMP_SGE: e = Z3_mk_bvsge(C, x, y); break; case CmpInst::ICMP_SLT: e = Z3_mk_bvslt(C, x, y); break; case CmpInst::ICMP_SLE: e = Z3_mk_bvsle(C, x, y); break; }
  return fromE(e, 1);
}
static Val castv(unsigned opc, unsigned from, unsigned to, const Val& a) {
  Val r; unsigned o = opc + Instruction::CastOpsBegin;
  if (o == Instruction::PtrToInt || o == Instruction::IntToPtr || o == Instruction::BitCast || o == Instruction::AddrSpaceCast) o = to < from ? Instruction::Trunc : to > from ? Instruction::ZExt : Instruction::BitCast;
  if (!a.e) {
    switch (o) { case Instruction::Trunc: r.c = a.c & mask(to); break; case Instruction::ZExt: r.c = a.c & mask(from); break; case Instruction::SExt: r.c = sext(a.c, from) & mask(to); break; default: r.c = a.c; }
    return r;
  }
  switch (o) {
  case Instruction::Trunc: if (to == 1) return fromE(Z3_mk_eq(C, Z3_mk_extract(C, 0, 0, a.e), num(1, 1)), 1); return fromE(Z3_mk_extract(C, to - 1, 0, a.e), to);
  case Instruction::ZExt: if (from == 1) return fromE(Z3_mk_ite(C, a.e, num(1, to), num(0, to)), to); return fromE(Z3_mk_zero_ext(C, to - from, a.e), to);
  case Instruction::SExt: if (from == 1) return fromE(Z3_mk_ite(C, a.e, num(~0ULL, to), num(0, to)), to); return fromE(Z3_mk_sign_ext(C, to - from, a.e), to);
  default: return a;
  }
}
static double asF(uint64_t c, unsigned w) { if (w == 32) { float f; uint32_t u = c; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &c, 8); return d; }
static uint64_t fromF(double d, unsigned w) { if (w == 32) { float f = d; uint32_t u; memcpy(&u, &f, 4); return u; } uint64_t u; memcpy(&u, &d, 8); return u; }

#include "exec.inc"
