// Instruction interpreter, builtins, path management, main().
static Val& R(Frame& f, int32_t i) { return f.r[i]; }
static uint64_t seqLimit() { return optSteps; }

static void advance(State& S, Frame& f, const Ins& I) { if (I.k == K_INVOKE) takeEdge(S, f, I.edges[0]); else ++f.pc; }
static void pushCall(State& S, FuncInfo* fi, const std::vector<Val>& args, bool special) {
  decode(fi); Thread& t = S.th[S.cur];
  if (t.st.size() > 8000) fail(S, "stack", "unbounded recursion (call depth over 8000): " + demangle(fi->name));
  ++fi->execs;
  t.st.emplace_back(); Frame& n = t.st.back(); n.fi = fi; n.r.resize(fi->nregs); n.special = special;
  for (size_t i = 0; i < args.size() && i < fi->nargs; ++i) n.r[i] = args[i];
}
// the end of a thread: its thread-local objects are destroyed, the latest constructed first
static void threadEnd(State& S, Thread& t) {
  if (!t.tlsDtors.empty()) { auto d = t.tlsDtors.back(); t.tlsDtors.pop_back(); Obj* fo = rdObj(S, idOf(d.first)); FuncInfo* fi = fo ? fo->fn : nullptr; if (fi && !fi->builtin) { Val a; a.c = d.second; pushCall(S, fi, {a}, true); return; } threadEnd(S, t); return; }
  for (auto& q : t.tls) killObj(S, idOf(q.second), nullptr, false);
  t.done = true;
}
static Val loadAt(State& S, uint64_t a, unsigned bytes, const char* what) { Obj* o = access(S, a, bytes, false, what); raceAcc(S, o, a, bytes, false, false); o = rdObj(S, idOf(a)); return loadP(S, o, offOf(a), bytes * 8); }
static void storeAt(State& S, uint64_t a, unsigned bytes, const Val& v, const char* what) { Obj* o = access(S, a, bytes, true, what); raceAcc(S, o, a, bytes, true, false); o = wrObj(S, idOf(a)); storeP(o, offOf(a), bytes * 8, v); }
static int excOf(State& S, uint64_t p) { for (size_t i = S.excs.size(); i-- > 0;) if (S.excs[i].obj == p) return (int)i; fail(S, "terminate", "unknown exception object"); }
static std::string tiName(State& S, uint64_t ti) { try { return demangle("_Z" + rdStr(S, rd64(S, ti + 8, "type_info"))); } catch (PathEnd&) { throw; } }

static uint64_t doMalloc(State& S, uint64_t n, ObjKind k, const Ins& I, bool zero) {
  if (n > 0xfffff0) { inconc("allocation larger than 16 MB"); throw PathEnd(); }
  uint32_t id = newObj(S, n, k, zero); Obj* o = rdObj(S, id); o->allocI = I.src; if (k == OB_HEAP) { ++S.heapLive; ++S.nalloc; }
  return addrOf(id);
}
static void doFree(State& S, uint64_t a, const Ins& I) {
  if (!a) return;
  Obj* o = a >= addrOf(0) ? rdObj(S, idOf(a)) : nullptr;
  if (!o || o->kind != OB_HEAP || offOf(a)) fail(S, "memory", "free of a pointer that was not allocated: " + describe(S, a));
  if (o->freed) fail(S, "memory", "double free: " + describe(S, a));
  raceAcc(S, o, addrOf(idOf(a)), o->size, true, false);
  for (auto& m : S.mtx) if (idOf(m.first) == idOf(a) && (m.second.owner != 0xff || anyReaders(m.second, -1))) fail(S, "memory", "a locked mutex was destroyed");
  for (auto it = S.mtx.lower_bound(addrOf(idOf(a))); it != S.mtx.end() && idOf(it->first) == idOf(a);) it = S.mtx.erase(it);
  killObj(S, idOf(a), I.src, true); --S.heapLive;
}

// returns true when the builtin has already advanced (or replaced) the frame
static bool builtin(State& S, const Ins& I, FuncInfo* fi) {
  Thread* t = &S.th[S.cur]; Frame* f = &t->st.back();
  auto A = [&](int k) -> const Val& { return OP(*f, I.ops[k + 1]); };
  auto W = [&](int k) -> unsigned { return I.gep[k].width; };
  auto U = [&](int k) -> uint64_t { return conc(S, A(k), W(k)); };
  auto ret = [&](const Val& v) { if (I.dst >= 0) f->r[I.dst] = v; };
  auto retc = [&](uint64_t c) { Val v; v.c = c; ret(v); };
  switch (fi->builtin) {
  case B_NOP: case B_LIFEEND: case B_LIFESTART: return false;
  case B_RET0: retc(0); return false;
  case B_TATEXIT: { if (S.cur != 0) t->tlsDtors.push_back({U(0), U(1)}); retc(0); return false; }
  case B_SELF: retc(S.cur + 1); return false;
  case B_UNKNOWN: inconc("call of an external function the engine does not model: " + demangle(fi->name)); throw PathEnd();
  case B_SYM: { unsigned b = U(0); if (b < 1 || b > 64) b = 64; std::string nm = rdStr(S, U(1)); Z3_ast e = freshVar(S, nm, b, true); Val v; v.e = b == 64 ? e : b == 1 ? Z3_mk_ite(C, e, num(1, 64), num(0, 64)) : Z3_mk_zero_ext(C, 64 - b, e); ret(v); return false; }
  case B_FLAG: { std::string nm = rdStr(S, U(0)); Val v; v.e = freshVar(S, nm, 1, true); ret(v); return false; }
  case B_PICK: {
    uint32_t n = U(0); std::string nm = rdStr(S, U(1)); Z3_ast e = freshVar(S, nm, 32, true); std::vector<uint32_t> ch;
    bool sl = S.sliceN < sliceDepth; if (sl) ++S.sliceN; uint64_t base = S.sliceIdx;
    for (uint32_t i = 0; i < n; ++i) ch.push_back(i);
    if (sl && S.sliceN == sliceDepth && sliceM > 1) { std::vector<uint32_t> c2; for (uint32_t i : ch) if (((base * n + i) * 2654435761u >> 8) % sliceM == sliceI) c2.push_back(i); ch.swap(c2); }
    if (ch.empty()) throw PathEnd();
    for (size_t i = ch.size(); i-- > 0;) {
      State* T = &S; if (i) { ++ST.forks; T = new State(S); }
      Thread& tt = T->th[T->cur]; Frame& ff = tt.st.back();
      addPC(*T, Z3_mk_eq(C, e, num(ch[i], 32))); if (sl) T->sliceIdx = base * n + ch[i];
      if (I.dst >= 0) { Val v; v.c = ch[i]; ff.r[I.dst] = v; }
      advance(*T, ff, I); if (i) work.push_back(T);
    }
    return true; }
  case B_AFAULT: {
    if (!S.faultsOn || S.faultsLeft <= 0) { retc(0); return false; }
    Z3_ast e = freshVar(S, "allocfault", 1, true); ++ST.faults; ++ST.forks;
    auto* T = new State(S); { Frame& ff = T->th[T->cur].st.back(); addPC(*T, e); --T->faultsLeft; Val v; v.c = 1; if (I.dst >= 0) ff.r[I.dst] = v; advance(*T, ff, I); work.push_back(T); }
    addPC(S, mkNot(e)); retc(0); return false; }
  case B_FAULTS: S.faultsOn = U(0) & 1; S.faultsLeft = (int)U(1); return false;
  case B_ASSUME: {
    const Val& v = A(0); if (!v.e) { if (!(v.c & 1)) { ++ST.assumeKilled; throw PathEnd(); } return false; }
    if (S.known.count(v.e)) { if (!S.known[v.e]) { ++ST.assumeKilled; throw PathEnd(); } return false; }
    Z3_ast e = v.e; if (!ensureModel(S)) throw PathEnd();
    if (!evalU(S.model, e, 1)) { std::shared_ptr<Model> m; if (check(S, e, &m, "assume") != Z3_L_TRUE) { ++ST.assumeKilled; throw PathEnd(); } S.model = m; S.modelOk = true; }
    addPC(S, e); S.known[e] = 1; return false; }
  case B_ASSERT: {
    ++ST.asserts; const Val& v = A(0);
    if (!v.e) { if (!(v.c & 1)) fail(S, "assert", rdStr(S, U(1))); return false; }
    auto it = S.known.find(v.e); if (it != S.known.end() && it->second) return false;
    Z3_ast e = v.e; ++ST.assertQueries;
    std::shared_ptr<Model> m; Z3_lbool r = check(S, mkNot(e), &m, "assert");
    if (r == Z3_L_UNDEF) throw PathEnd();
    if (r == Z3_L_TRUE) { violation(S, "assert", rdStr(S, U(1)), mkNot(e)); if (check(S, e, &m, "assert") != Z3_L_TRUE) throw PathEnd(); S.model = m; S.modelOk = true; addPC(S, e); }
    S.known[e] = 1; return false; }
  case B_COVER: { uint32_t id = U(0); if (id == 255) S.lastSched = S.steps; else S.covers.push_back((uint8_t)id); return false; }   // 255: a long history made progress
  case B_LOG: { ++gChg; Val v = A(0); S.log.push_back(v); return false; }
  case B_PARALLEL: {
    if (S.par) { inconc("nested vp_parallel"); throw PathEnd(); }
    uint32_t n = U(0); uint64_t fa = U(1), aa = U(2);
    if (n + 1 > MAXT) { inconc("too many threads"); throw PathEnd(); }
    std::vector<std::pair<FuncInfo*, uint64_t>> w;
    for (uint32_t i = 0; i < n; ++i) { uint64_t fp = rd64(S, fa + 8 * i, "thread table"); uint64_t ap = rd64(S, aa + 8 * i, "thread table"); Obj* fo = rdObj(S, idOf(fp)); if (!fo || !fo->fn) { inconc("thread function"); throw PathEnd(); } w.push_back({fo->fn, ap}); }
    S.th.resize(n + 1); ++S.th[0].vc[0];
    for (uint32_t i = 0; i < n; ++i) {
      Thread& x = S.th[i + 1]; x = Thread(); memcpy(x.vc, S.th[0].vc, sizeof x.vc); ++x.vc[i + 1];
      decode(w[i].first); ++w[i].first->execs; x.st.emplace_back(); Frame& nf = x.st.back(); nf.fi = w[i].first; nf.r.resize(nf.fi->nregs); if (nf.fi->nargs) nf.r[0].c = w[i].second;
    }
    S.par = true; S.sleep.clear(); S.arel.clear(); S.lastT = -1; S.preempt = 0; S.lastSched = S.steps; S.cur = 1;
    return true; }
  case B_EVENT: retc(0); return false;
  case B_MALLOC: { ++gChg; uint64_t n = U(0); retc(doMalloc(S, n, OB_HEAP, I, false)); return false; }
  case B_CALLOC: { uint64_t n = U(0) * U(1); retc(doMalloc(S, n, OB_HEAP, I, true)); return false; }
  case B_FREE: { ++gChg; doFree(S, U(0), I); return false; }
  case B_LIVE: retc((uint64_t)S.heapLive); return false;
  case B_MEMCPY: { uint64_t d = U(0), s = U(1), n = U(2); if (d != s) copyMem(S, d, s, n); retc(d); return false; }
  case B_MEMSET: {
    uint64_t d = U(0), n = U(2); Val v = A(1); if (!n) { retc(d); return false; }
    if (W(1) != 8) v = castv(Instruction::Trunc - Instruction::CastOpsBegin, W(1), 8, v);
    Obj* o = access(S, d, n, true, "memset"); raceAcc(S, o, d, n, true, false); o = wrObj(S, idOf(d)); for (uint64_t i = 0; i < n; ++i) storeP(o, offOf(d) + i, 8, v); retc(d); return false; }
  case B_MEMCMP: {
    uint64_t a = U(0), b = U(1), n = U(2); Val r;
    for (uint64_t i = 0; i < n; ++i) { Val x = loadAt(S, a + i, 1, "memcmp"), y = loadAt(S, b + i, 1, "memcmp"); Val q = icmp(CmpInst::ICMP_EQ, 8, x, y); if (!conc(S, q, 1)) { Val lt = icmp(CmpInst::ICMP_ULT, 8, x, y); retc(conc(S, lt, 1) ? 0xffffffffULL : 1); return false; } }
    ret(r); return false; }
  case B_STRLEN: { uint64_t a = U(0), i = 0; for (;; ++i) if (!conc(S, loadAt(S, a + i, 1, "strlen"), 8)) break; retc(i); return false; }
  case B_STRCMP: {
    uint64_t a = U(0), b = U(1);
    for (uint64_t i = 0;; ++i) { uint64_t x = conc(S, loadAt(S, a + i, 1, "strcmp"), 8), y = conc(S, loadAt(S, b + i, 1, "strcmp"), 8); if (x != y) { retc(x < y ? 0xffffffffULL : 1); return false; } if (!x) { retc(0); return false; } } }
  case B_MEMCHR: { uint64_t a = U(0), c = U(1) & 255, n = U(2); for (uint64_t i = 0; i < n; ++i) if (conc(S, loadAt(S, a + i, 1, "memchr"), 8) == c) { retc(a + i); return false; } retc(0); return false; }
  case B_MLOCK: case B_MTRY: case B_WRLOCK: case B_TRYWR: case B_RDLOCK: case B_TRYRD: {
    uint64_t a = U(0); Obj* mo = access(S, a, 40, false, "lock of a mutex"); int me = S.cur; bool rec = false;
    int b = fi->builtin; bool rw = b == B_WRLOCK || b == B_TRYWR || b == B_RDLOCK || b == B_TRYRD; bool rd = b == B_RDLOCK || b == B_TRYRD;
    if (!rw) { Val k = loadP(S, mo, offOf(a) + 16, 32); rec = conc(S, k, 32) == 1; }
    auto& m = S.mtx[a]; bool tr = b == B_MTRY || b == B_TRYWR || b == B_TRYRD;
    bool busy = rd ? m.owner != 0xff : (m.owner != 0xff || anyReaders(m, -1));
    if (busy && m.owner == me && rec) busy = false;
    if (busy) {
      if (tr) { retc(16); return false; }
      fail(S, "deadlock", m.owner == me || m.readers[me] ? "deadlock: a thread locks a mutex it already holds" : "deadlock: lock held by another thread");
    }
    ++gChg; ++S.glob; if (rd) ++m.readers[me]; else { m.owner = me; ++m.cnt; }
    joinVC(t->vc, m.vc); retc(0); return false; }
  case B_MUNLOCK: case B_RWUNLOCK: {
    uint64_t a = U(0); access(S, a, 40, false, "unlock of a mutex"); auto& m = S.mtx[a]; int me = S.cur; ++gChg; ++S.glob;
    if (m.owner == me) { if (--m.cnt == 0) m.owner = 0xff; }
    else if (m.readers[me]) --m.readers[me];
    else fail(S, "lock", "unlock of a mutex that is not held");
    if (S.par) { joinVC(m.vc, t->vc); ++t->vc[me]; } else memcpy(m.vc, t->vc, sizeof m.vc);
    retc(0); return false; }
  case B_CXAALLOC: { uint64_t n = U(0); retc(doMalloc(S, std::max<uint64_t>(n, 1), OB_EXC, I, false)); return false; }
  case B_CXAFREE: { uint64_t a = U(0); killObj(S, idOf(a), I.src, true); return false; }
  case B_CXATHROW: { ++gChg; Exc e; e.obj = U(0); e.ti = U(1); e.dtor = U(2); e.adj = e.obj; S.excs.push_back(e); ++t->unc; unwind(S, (int)S.excs.size() - 1); return true; }
  case B_CXABEGIN: { uint64_t p = U(0); int i = excOf(S, p); ++S.excs[i].handlers; S.excs[i].rethrown = false; if (t->unc) --t->unc; t->caught.push_back(i); retc(S.excs[i].adj); return false; }
  case B_GETEXC: { retc(S.excs[excOf(S, U(0))].adj); return false; }
  case B_CXAEND: {
    if (t->caught.empty()) { inconc("__cxa_end_catch without a caught exception"); throw PathEnd(); }
    uint32_t i = t->caught.back(); Exc& e = S.excs[i];
    t->caught.pop_back();
    if (--e.handlers == 0 && !e.rethrown && !e.refs && e.live) { advance(S, *f, I); endCatchDestroy(S, i); return true; }
    return false; }
  case B_CXARETHROW: { if (t->caught.empty()) fail(S, "terminate", "rethrow without a current exception (std::terminate)"); uint32_t i = t->caught.back(); S.excs[i].rethrown = true; ++t->unc; unwind(S, i); return true; }
  case B_EXCCUR: { if (t->caught.empty()) { retc(0); return false; } Exc& e = S.excs[t->caught.back()]; ++e.refs; retc(e.obj); return false; }
  case B_EXCREF: { ++S.excs[excOf(S, U(0))].refs; return false; }
  case B_EXCUNREF: { uint32_t i = excOf(S, U(0)); Exc& e = S.excs[i]; if (--e.refs == 0 && !e.handlers && !e.rethrown && e.live) { advance(S, *f, I); endCatchDestroy(S, i); return true; } return false; }
  case B_EXCTHROW: { uint32_t i = excOf(S, U(0)); S.excs[i].rethrown = true; ++t->unc; unwind(S, i); return true; }
  case B_CURTYPE: { retc(t->caught.empty() ? 0 : S.excs[t->caught.back()].ti); return false; }
  case B_UNCAUGHT: retc(t->unc); return false;
  case B_DYNCAST: {
    uint64_t p = U(0), dst = U(2); if (!p) { retc(0); return false; }
    uint64_t vp = rd64(S, p, "vtable pointer"); int64_t ot = (int64_t)rd64(S, vp - 16, "vtable"); uint64_t wt = rd64(S, vp - 8, "vtable"); uint64_t whole = p + ot;
    if (wt == dst) { retc(whole); return false; }
    std::vector<Sub> v; subobjs(S, wt, 0, whole, true, v); uint64_t r = 0; int cnt = 0; for (auto& s : v) if (s.ti == dst && s.pub) { if (r != whole + s.off) ++cnt; r = whole + s.off; }
    retc(cnt == 1 ? r : 0); return false; }
  case B_TERMINATE: fail(S, "terminate", "std::terminate called");
  case B_ABORT: fail(S, "terminate", "abort called");
  case B_ASSERTFAIL: fail(S, "terminate", "assertion in the code failed: " + rdStr(S, U(0)));
  case B_PUREV: fail(S, "terminate", "pure virtual function called");
  case B_TRAP: fail(S, "trap", "trap instruction (undefined behaviour) reached");
  case B_GUARDA: { uint64_t a = U(0); Val v = loadP(S, access(S, a, 1, false, "guard"), offOf(a), 8); retc(conc(S, v, 8) ? 0 : 1); return false; }
  case B_GUARDR: { uint64_t a = U(0); Obj* o = access(S, a, 1, true, "guard"); Val one; one.c = 1; storeP(o, offOf(a), 8, one); return false; }
  case B_TYPEID: { retc(typeidFor(U(0))); return false; }
  case B_COPY1: ret(A(0)); return false;
  case B_LASSUME: { const Val& v = A(0); if (!v.e && !(v.c & 1)) fail(S, "trap", "llvm.assume violated (undefined behaviour)"); if (v.e && !decide(S, v.e)) fail(S, "trap", "llvm.assume violated (undefined behaviour)"); return false; }
  case B_STACKSAVE: retc(0); return false;
  case B_OBJSIZE: retc(~0ULL); return false;
  case B_ISCONST: retc(0); return false;
  case B_TLS: {
    uint64_t a = U(0); if (S.cur == 0) { retc(a); return false; }
    for (auto& q : t->tls) if ((uint64_t)(uintptr_t)q.first == a) { retc(q.second); return false; }
    Obj* o = rdObj(S, idOf(a)); auto* no = new Obj(*initS->chunks[idOf(a) >> 6]->o[idOf(a) & 63]); no->rc = 1; (void)o;
    uint32_t id = newObj(S, 0, OB_TLS, true); Chunk* c = wrChunk(S, id >> 6); objRel(c->o[id & 63]); no->id = id; no->kind = OB_TLS; no->sh.clear(); c->o[id & 63] = no;
    t->tls.push_back({(const GlobalVariable*)(uintptr_t)a, addrOf(id)}); retc(addrOf(id)); return false; }
  case B_OVF: {
    unsigned w = W(0); const Val &a = A(0), &b = A(1); auto id = I.imm; Val r, o;
    unsigned op = id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow ? Instruction::Add : id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow ? Instruction::Sub : Instruction::Mul;
    r = binop(S, op - Instruction::BinaryOpsBegin, w, a, b);
    Z3_ast x = ex(a, w), y = ex(b, w), ok = nullptr, t2[2];
    switch (id) {
    case Intrinsic::uadd_with_overflow: ok = Z3_mk_bvadd_no_overflow(C, x, y, false); break; case Intrinsic::usub_with_overflow: ok = Z3_mk_bvuge(C, x, y); break; case Intrinsic::umul_with_overflow: ok = Z3_mk_bvmul_no_overflow(C, x, y, false); break;
    case Intrinsic::sadd_with_overflow: t2[0] = Z3_mk_bvadd_no_overflow(C, x, y, true); t2[1] = Z3_mk_bvadd_no_underflow(C, x, y); ok = Z3_mk_and(C, 2, t2); break;
    case Intrinsic::ssub_with_overflow: t2[0] = Z3_mk_bvsub_no_overflow(C, x, y); t2[1] = Z3_mk_bvsub_no_underflow(C, x, y, true); ok = Z3_mk_and(C, 2, t2); break;
    default: t2[0] = Z3_mk_bvmul_no_overflow(C, x, y, true); t2[1] = Z3_mk_bvmul_no_underflow(C, x, y); ok = Z3_mk_and(C, 2, t2); break;
    }
    o = fromE(Z3_mk_not(C, ok), 1); f->r[I.dst] = r; f->r[I.dst + 1] = o; return false; }
  case B_MINMAX: {
    unsigned w = W(0); unsigned n = I.nslots;
    for (unsigned i = 0; i < n; ++i) {
      const Val &a = OP(*f, I.ops[1] >= 0 ? I.ops[1] + (int)i : I.ops[1] - (int)i), &b = OP(*f, I.ops[2] >= 0 ? I.ops[2] + (int)i : I.ops[2] - (int)i);
      unsigned p = I.imm == Intrinsic::umin ? CmpInst::ICMP_ULT : I.imm == Intrinsic::umax ? CmpInst::ICMP_UGT : I.imm == Intrinsic::smin ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT;
      Val c = icmp(p, w, a, b); f->r[I.dst + i] = c.e ? fromE(Z3_mk_ite(C, c.e, ex(a, w), ex(b, w)), w) : c.c ? a : b;
    }
    return false; }
  case B_ABS: { unsigned w = W(0); const Val& a = A(0); Val z; Val c = icmp(CmpInst::ICMP_SLT, w, a, z); Val ng = binop(S, Instruction::Sub - Instruction::BinaryOpsBegin, w, z, a); ret(c.e ? fromE(Z3_mk_ite(C, c.e, ex(ng, w), ex(a, w)), w) : c.c ? ng : a); return false; }
  case B_SAT: { unsigned w = W(0); const Val &a = A(0), &b = A(1); bool add = I.imm == Intrinsic::uadd_sat; Val r = binop(S, (add ? Instruction::Add : Instruction::Sub) - Instruction::BinaryOpsBegin, w, a, b); Val c = icmp(CmpInst::ICMP_ULT, w, add ? r : a, add ? a : b); Val sat; sat.c = add ? mask(w) : 0; ret(c.e ? fromE(Z3_mk_ite(C, c.e, ex(sat, w), ex(r, w)), w) : c.c ? sat : r); return false; }
  case B_FSH: {
    unsigned w = W(0); uint64_t s = U(2) % w; const Val &a = A(0), &b = A(1); bool l = I.imm == Intrinsic::fshl; if (!s) { ret(l ? a : b); return false; }
    unsigned sh = l ? s : w - s; Val r = fromE(Z3_mk_bvor(C, Z3_mk_bvshl(C, ex(a, w), num(sh, w)), Z3_mk_bvlshr(C, ex(b, w), num(w - sh, w))), w); ret(r); return false; }
  case B_BIT: {
    unsigned w = W(0); uint64_t x = U(0) & mask(w), r = 0;
    switch (I.imm) {
    case Intrinsic::ctpop: r = __builtin_popcountll(x); break; case Intrinsic::ctlz: r = x ? __builtin_clzll(x) - (64 - w) : w; break; case Intrinsic::cttz: r = x ? __builtin_ctzll(x) : w; break;
    case Intrinsic::bswap: for (unsigned i = 0; i < w / 8; ++i) r |= ((x >> (8 * i)) & 255) << (w - 8 - 8 * i); break; case Intrinsic::bitreverse: for (unsigned i = 0; i < w; ++i) if (x >> i & 1) r |= 1ULL << (w - 1 - i); break; }
    retc(r); return false; }
  case B_FABS: { const Val& a = A(0); if (a.e) { inconc("symbolic floating point"); throw PathEnd(); } double d = asF(a.c, W(0)); auto id = I.imm; retc(fromF(id == Intrinsic::ceil ? __builtin_ceil(d) : id == Intrinsic::floor ? __builtin_floor(d) : id == Intrinsic::trunc ? __builtin_trunc(d) : __builtin_fabs(d), W(0))); return false; }
  default: inconc("builtin not implemented: " + fi->name); throw PathEnd();
  }
}

static void step(State& S) {
  Thread& t = S.th[S.cur]; Frame& f = t.st.back(); const Ins& I = f.fi->bbs[f.bb].ins[f.pc];
  auto opi = [&](int k, unsigned i) -> const Val& { int32_t o = I.ops[k]; return o >= 0 ? f.r[o + i] : f.fi->consts[-o - 1 + i]; };
  switch (I.k) {
  case K_BIN: for (unsigned i = 0; i < I.nslots; ++i) { Val v = binop(S, I.sub, I.w, opi(0, i), opi(1, i)); f.r[I.dst + i] = v; } ++f.pc; return;
  case K_ICMP: for (unsigned i = 0; i < I.nslots; ++i) f.r[I.dst + i] = icmp(I.sub, I.w2, opi(0, i), opi(1, i)); ++f.pc; return;
  case K_CAST: for (unsigned i = 0; i < I.nslots; ++i) f.r[I.dst + i] = castv(I.sub, I.w2, I.w, opi(0, i)); ++f.pc; return;
  case K_COPY: for (unsigned i = 0; i < I.nslots; ++i) { Val v = I.ops.empty() ? Val() : opi(0, i); f.r[I.dst + i] = v; } ++f.pc; return;
  case K_LOAD: {
    uint64_t a = conc(S, opi(0, 0), 64); Obj* o = access(S, a, I.imm, false, "read");
    raceAcc(S, o, a, I.imm, false, I.atomic); o = rdObj(S, idOf(a));
    for (auto& p : I.pieces) { Val v = loadP(S, o, offOf(a) + p.off, p.width); o = rdObj(S, idOf(a)); f.r[I.dst + p.slot] = v; }
    if (I.atomic) atomicLoadHB(S, a, I.imm, I.order);
    ++f.pc; return; }
  case K_STORE: {
    uint64_t a = conc(S, opi(1, 0), 64); Obj* o = access(S, a, I.imm, true, "write");
    raceAcc(S, o, a, I.imm, true, I.atomic); o = wrObj(S, idOf(a));
    uint64_t g0 = gChg; for (auto& p : I.pieces) storeP(o, offOf(a) + p.off, p.width, opi(0, p.slot));
    if (I.atomic) { if (g0 != gChg) ++S.glob; } else if (o->kind == OB_STACK && o->owner == S.cur) gChg = g0;   // own stack: part of the thread's hash
    if (I.atomic) atomicStoreHB(S, a, I.imm, I.order, false);
    ++f.pc; return; }
  case K_RMW: {
    uint64_t a = conc(S, opi(0, 0), 64); Obj* o = access(S, a, I.imm, true, "atomic update"); unsigned w = I.w;
    Val old = loadP(S, o, offOf(a), w); const Val& b = opi(1, 0); Val nv; int op = -1;
    switch (I.sub) {
    case AtomicRMWInst::Xchg: nv = b; break; case AtomicRMWInst::Add: op = Instruction::Add; break; case AtomicRMWInst::Sub: op = Instruction::Sub; break; case AtomicRMWInst::And: op = Instruction::And; break;
    case AtomicRMWInst::Or: op = Instruction::Or; break; case AtomicRMWInst::Xor: op = Instruction::Xor; break;
    default: inconc("atomicrmw kind"); throw PathEnd(); }
    if (op >= 0) nv = binop(S, op - Instruction::BinaryOpsBegin, w, old, b);
    raceAcc(S, o, a, I.imm, true, true); o = wrObj(S, idOf(a)); uint64_t g0 = gChg; storeP(o, offOf(a), w, nv); if (g0 != gChg) ++S.glob;
    atomicLoadHB(S, a, I.imm, I.order); atomicStoreHB(S, a, I.imm, I.order, true);
    f.r[I.dst] = old; ++f.pc; return; }
  case K_CMPXCHG: {
    uint64_t a = conc(S, opi(0, 0), 64); Obj* o = access(S, a, I.imm, true, "atomic compare-exchange"); unsigned w = I.w;
    Val old = loadP(S, o, offOf(a), w); Val q = icmp(CmpInst::ICMP_EQ, w, old, opi(1, 0)); bool eq = conc(S, q, 1);
    raceAcc(S, o, a, I.imm, eq, true); o = wrObj(S, idOf(a));
    if (eq) { uint64_t g0 = gChg; storeP(o, offOf(a), w, opi(2, 0)); if (g0 != gChg) ++S.glob; atomicLoadHB(S, a, I.imm, I.order); atomicStoreHB(S, a, I.imm, I.order, true); }
    else atomicLoadHB(S, a, I.imm, I.order2);
    f.r[I.dst] = old; Val e; e.c = eq; f.r[I.dst + 1] = e; ++f.pc; return; }
  case K_FENCE:
    if (S.par) { if (acqO(I.order)) joinVC(t.vc, t.acq); if (relO(I.order)) { memcpy(t.rel, t.vc, sizeof t.rel); ++t.vc[S.cur]; } }
    ++f.pc; return;
  case K_GEP: {
    Val v = opi(0, 0); if (!v.e) v.c += I.goff; else if (I.goff) v = fromE(Z3_mk_bvadd(C, v.e, num((uint64_t)I.goff, 64)), 64);
    for (auto& g : I.gep) {
      const Val& x = g.op >= 0 ? f.r[g.op] : f.fi->consts[-g.op - 1];
      if (!x.e && !v.e) v.c += sext(x.c, g.width) * g.scale;
      else { Z3_ast xe = x.e ? (g.width < 64 ? Z3_mk_sign_ext(C, 64 - g.width, x.e) : x.e) : num(sext(x.c, g.width), 64); v = fromE(Z3_mk_bvadd(C, ex(v, 64), Z3_mk_bvmul(C, xe, num(g.scale, 64))), 64); }
    }
    f.r[I.dst] = v; ++f.pc; return; }
  case K_BR: takeEdge(S, f, I.edges[0]); return;
  case K_CBR: { bool b = conc(S, opi(0, 0), 1) & 1; takeEdge(S, f, I.edges[b ? 0 : 1]); return; }
  case K_SWITCH: {
    const Val& v = opi(0, 0); size_t hit = 0;
    if (!v.e) { for (size_t i = 0; i < I.cases.size(); ++i) if (I.cases[i] == v.c) { hit = i + 1; break; } }
    else for (size_t i = 0; i < I.cases.size(); ++i) if (decide(S, Z3_simplify(C, Z3_mk_eq(C, v.e, num(I.cases[i], I.w2))))) { hit = i + 1; break; }
    takeEdge(S, f, I.edges[hit]); return; }
  case K_RET: {
    std::vector<Val> rv; if (!I.ops.empty()) for (unsigned i = 0; i < I.opn[0]; ++i) rv.push_back(opi(0, i));
    bool special = f.special; uint32_t fo = f.freeOnRet;
    popFrame(S, t);
    if (special) { if (fo) killObj(S, fo - 1, nullptr, false); if (t.st.empty()) threadEnd(S, t); return; }
    if (t.st.empty()) { threadEnd(S, t); return; }
    Frame& c = t.st.back(); const Ins& CI = c.fi->bbs[c.bb].ins[c.pc];
    for (size_t i = 0; i < rv.size() && CI.dst >= 0 && i < CI.nslots; ++i) c.r[CI.dst + i] = rv[i];
    advance(S, c, CI); return; }
  case K_CALL: case K_INVOKE: {
    FuncInfo* fi = I.callee;
    if (!fi) {
      uint64_t a = conc(S, OP(f, I.ops[0]), 64); Obj* o = a >= addrOf(0) ? rdObj(S, idOf(a)) : nullptr;
      if (!o || o->kind != OB_FUNC || !o->fn || offOf(a)) fail(S, "memory", "call through a null or invalid function pointer");
      fi = o->fn;
    }
    if (fi->builtin) { if (fi->builtin != B_NONE && !builtin(S, I, fi)) { Thread& t2 = S.th[S.cur]; advance(S, t2.st.back(), I); } return; }
    std::vector<Val> args; args.reserve(fi->nargs + 2);
    for (size_t k = 1; k < I.ops.size(); ++k) for (unsigned i = 0; i < I.opn[k]; ++i) args.push_back(opi(k, i));
    pushCall(S, fi, args, false); return; }
  case K_SELECT: {
    unsigned n = I.nslots; bool vec = I.opn[0] > 1;
    for (unsigned i = 0; i < n; ++i) {
      const Val& c = opi(0, vec ? i : 0);
      if (!c.e) { Val v = (c.c & 1) ? opi(1, i) : opi(2, i); f.r[I.dst + i] = v; continue; }
      if (I.w == 0 || I.src->getType()->isPointerTy() || n > 1) { Val v = decide(S, c.e) ? opi(1, i) : opi(2, i); f.r[I.dst + i] = v; continue; }
      f.r[I.dst + i] = fromE(Z3_mk_ite(C, c.e, ex(opi(1, i), I.w), ex(opi(2, i), I.w)), I.w);
    }
    ++f.pc; return; }
  case K_EXTRACT: for (unsigned i = 0; i < I.nslots; ++i) { Val v = opi(0, I.imm + i); f.r[I.dst + i] = v; } ++f.pc; return;
  case K_INSERT: for (unsigned i = 0; i < I.nslots; ++i) { Val v = (i >= I.imm && i < I.imm + I.opn[1]) ? opi(1, i - I.imm) : opi(0, i); f.r[I.dst + i] = v; } ++f.pc; return;
  case K_ALLOCA: { uint64_t n = conc(S, opi(0, 0), 64); uint32_t id = newObj(S, I.imm * n, OB_STACK, false); rdObj(S, id)->allocI = I.src; f.allocas.push_back(id); Val v; v.c = addrOf(id); f.r[I.dst] = v; ++f.pc; return; }
  case K_LPAD: { int x = t.pendExc; Val p, s; p.c = S.excs[x].obj; s.c = t.pendSel; f.r[I.dst] = p; f.r[I.dst + 1] = s; ++f.pc; return; }
  case K_RESUME: { uint64_t p = conc(S, opi(0, 0), 64); unwind(S, excOf(S, p)); return; }
  case K_UNREACH: fail(S, "trap", "undefined behaviour: unreachable code reached (for example a missing return)");
  case K_FBIN: for (unsigned i = 0; i < I.nslots; ++i) {
    const Val &a = opi(0, i), &b = opi(1, i); if (a.e || b.e) { inconc("symbolic floating point"); throw PathEnd(); }
    double x = asF(a.c, I.w), y = asF(b.c, I.w), r = 0; switch (I.sub + Instruction::BinaryOpsBegin) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = __builtin_fmod(x, y); }
    Val v; v.c = fromF(r, I.w); f.r[I.dst + i] = v; } ++f.pc; return;
  case K_FNEG: { const Val& a = opi(0, 0); if (a.e) { inconc("symbolic floating point"); throw PathEnd(); } Val v; v.c = fromF(-asF(a.c, I.w), I.w); f.r[I.dst] = v; ++f.pc; return; }
  case K_FCMP: {
    const Val &a = opi(0, 0), &b = opi(1, 0); if (a.e || b.e) { inconc("symbolic floating point"); throw PathEnd(); }
    double x = asF(a.c, I.w2), y = asF(b.c, I.w2); bool un = x != x || y != y, r = false;
    switch (I.sub) { case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_OGT: r = !un && x > y; break; case CmpInst::FCMP_OGE: r = !un && x >= y; break; case CmpInst::FCMP_OLT: r = !un && x < y; break; case CmpInst::FCMP_OLE: r = !un && x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break;
    case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; case CmpInst::FCMP_TRUE: r = true; break; default: break; }
    Val v; v.c = r; f.r[I.dst] = v; ++f.pc; return; }
  case K_FCAST: {
    const Val& a = opi(0, 0); if (a.e) { inconc("symbolic floating point"); throw PathEnd(); } Val v;
    switch (I.sub + Instruction::CastOpsBegin) { case Instruction::FPToUI: v.c = (uint64_t)asF(a.c, I.w2) & mask(I.w); break; case Instruction::FPToSI: v.c = (uint64_t)(int64_t)asF(a.c, I.w2) & mask(I.w); break; case Instruction::UIToFP: v.c = fromF((double)(a.c & mask(I.w2)), I.w); break; case Instruction::SIToFP: v.c = fromF((double)(int64_t)sext(a.c, I.w2), I.w); break; default: v.c = fromF(asF(a.c, I.w2), I.w); }
    f.r[I.dst] = v; ++f.pc; return; }
  case K_XELT: { uint64_t i = conc(S, opi(1, 0), 64); Val v = opi(0, i); f.r[I.dst] = v; ++f.pc; return; }
  case K_IELT: { uint64_t k = conc(S, opi(2, 0), 64); for (unsigned i = 0; i < I.nslots; ++i) { Val v = i == k ? opi(1, 0) : opi(0, i); f.r[I.dst + i] = v; } ++f.pc; return; }
  case K_SHUF: { unsigned n0 = I.opn[0]; std::vector<Val> r; for (unsigned i = 0; i < I.nslots; ++i) { int64_t m = (int64_t)I.cases[i]; r.push_back(m < 0 ? Val() : (uint64_t)m < n0 ? opi(0, m) : opi(1, m - n0)); } for (unsigned i = 0; i < I.nslots; ++i) f.r[I.dst + i] = r[i]; ++f.pc; return; }
  default: { std::string s; raw_string_ostream os(s); os << *I.src; inconc("instruction not supported: " + os.str()); throw PathEnd(); }
  }
}

static double tStart; static bool stopAll = false;
static uint64_t rssMB() { FILE* f = fopen("/proc/self/statm", "r"); unsigned long a = 0, b = 0; if (f) { if (fscanf(f, "%lu %lu", &a, &b) != 2) b = 0; fclose(f); } return b * 4096 / 1048576; }

static void pathDone(State& S) {
  std::shared_ptr<Model> m;
  schedPC(S); if (check(S, nullptr, &m, "path end") != Z3_L_TRUE) return;
  ++ST.paths; for (auto c : S.covers) coversHit.insert(c);
  ST.maxDepth = std::max<uint64_t>(ST.maxDepth, S.pc.size());
  // reservoir of witnesses for native validation
  size_t slot = samples.size(); ++sampleSeen;
  if ((int)samples.size() >= optSamples) { uint64_t r = rnd() % sampleSeen; if (r >= (uint64_t)optSamples) return; slot = r; } else samples.emplace_back();
  Sample s; for (auto& in : S.inputs) { s.names.push_back(in.name); s.in.push_back(evalU(m, in.e, in.bits)); }
  for (auto& l : S.log) s.log.push_back(l.e ? evalU(m, l.e, 64) : l.c);
  s.sched = S.sched; samples[slot] = s;
}
// Busy waiting: a thread that comes back to the same point with the same registers, without having changed anything and
// without anything having been changed by others, would repeat itself: it waits until another thread changes something.
static void notePark(State& S, Thread& t) {
  Frame& f = t.st.back(); uint64_t h = 1469598103934665603ULL; auto mix = [&](uint64_t x) { h = (h ^ x) * 1099511628211ULL; h ^= h >> 29; };
  for (auto& q : t.st) { mix((uint64_t)(uintptr_t)q.fi); mix(q.bb); mix(q.pc); for (auto& v : q.r) { mix(v.c); if (v.e) mix((uint64_t)(uintptr_t)v.e); } for (uint32_t id : q.allocas) { Obj* o = rdObj(S, id); for (size_t i = 0; i + 8 <= o->data.size(); i += 8) { uint64_t x; memcpy(&x, &o->data[i], 8); mix(x); } for (size_t i = o->data.size() & ~7ULL; i < o->data.size(); ++i) mix(o->data[i]); for (auto& y : o->sym) if (y.first) mix((uint64_t)(uintptr_t)y.first); } }
  t.spin = -1; uint32_t d = t.st.size();
  for (auto& p : t.parks) if (p.fi == f.fi && p.bb == f.bb && p.pc == f.pc && p.depth == d) {
    if (p.hash == h && p.own == t.own && p.glob == (uint64_t)S.glob) t.spin = S.glob;
    p.hash = h; p.own = t.own; p.glob = S.glob; return;
  }
  if (t.parks.size() >= 24) t.parks.erase(t.parks.begin());
  t.parks.push_back({f.fi, f.bb, f.pc, d, h, t.own, (uint64_t)S.glob});
}
static void run(State& S) {
  for (;;) {
    if (S.par) { Thread& t = S.th[S.cur]; if (t.done || t.parked) { schedule(S); continue; } }
    else if (S.th[0].done) { pathDone(S); return; }
    Thread& t = S.th[S.cur]; Frame& f = t.st.back(); const Ins& I = f.fi->bbs[f.bb].ins[f.pc];
    if (S.par && I.visible && !t.granted) { t.sig = sigOf(S, f, I); notePark(S, t); t.parked = true; continue; }
    ++S.steps; ++ST.steps;
    if ((ST.steps & 8191) == 0) {
      if (now() - tStart > optTime) { inconc("time limit reached"); stopAll = true; return; }
      if ((ST.steps & 0xfffff) == 0 && rssMB() > optMem) { inconc("memory limit reached"); stopAll = true; return; }
    }
    if (S.steps - S.lastSched > seqLimit()) fail(S, "nontermination", "no progress after " + std::to_string(seqLimit()) + " steps");
    if (S.steps > 40 * seqLimit()) { inconc("step limit of a path reached"); return; }
    if (optTrace) { fprintf(stderr, "[%d:%zu] %s", S.cur, t.st.size(), locOf(I.src).c_str()); std::string s; raw_string_ostream os(s); os << *I.src; fprintf(stderr, " | %s\n", os.str().c_str()); }
    int cur = S.cur; bool vis = S.par && I.visible; uint64_t g0 = gChg; I.hit = true;
    step(S);
    if (gChg != g0 && S.par && cur < (int)S.th.size()) ++S.th[cur].own;
    if (vis && cur < (int)S.th.size()) S.th[cur].granted = false;
  }
}

static std::string js(const std::string& s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r + "\""; }
static void output(bool complete) {
  FILE* o = optOut.empty() ? stdout : fopen(optOut.c_str(), "w"); if (!o) return;
  std::set<std::string> fns; size_t nexec = 0;
  for (auto* fi : FIv) if (fi->execs) { ++nexec; std::string d = demangle(fi->name); if (d.find("sig::") != std::string::npos || d.find("opt::") != std::string::npos) { auto p = d.find('('); (void)p; if (d.size() > 160) d = d.substr(0, 160) + "..."; fns.insert(d); } }
  fprintf(o, "{\"complete\": %s, \"inconclusive\": %s,\n", complete ? "true" : "false", js(inconclusive).c_str());
  fprintf(o, "\"stats\": {\"paths\": %llu, \"steps\": %llu, \"forks\": %llu, \"pruned\": %llu, \"queries\": %llu, \"sat\": %llu, \"unsat\": %llu, \"unknown\": %llu, \"asserts\": %llu, \"assert_queries\": %llu, \"assume_killed\": %llu, \"sched_points\": %llu, \"sched_forks\": %llu, \"fault_points\": %llu, \"solver_seconds\": %.3f, \"seconds\": %.3f, \"rss_mb\": %llu, \"functions_executed\": %zu},\n",
    (unsigned long long)ST.paths, (unsigned long long)ST.steps, (unsigned long long)ST.forks, (unsigned long long)ST.pruned, (unsigned long long)ST.queries, (unsigned long long)ST.sat, (unsigned long long)ST.unsat, (unsigned long long)ST.unknown, (unsigned long long)ST.asserts, (unsigned long long)ST.assertQueries, (unsigned long long)ST.assumeKilled, (unsigned long long)ST.schedPoints, (unsigned long long)ST.scheds, (unsigned long long)ST.faults, ST.solver, now() - tStart, (unsigned long long)rssMB(), nexec);
  fprintf(o, "\"functions\": ["); bool first = true; for (auto& s : fns) { fprintf(o, "%s%s", first ? "" : ",\n ", js(s).c_str()); first = false; } fprintf(o, "],\n\"lines\": [");
  std::set<std::string> lines; for (auto* fi : FIv) for (auto& b : fi->bbs) for (auto& I : b.ins) if (I.hit && I.src) for (const DILocation* L = I.src->getDebugLoc().get(); L; L = L->getInlinedAt()) { StringRef fn = L->getFilename(); if (L->getLine() && (fn.ends_with("signals.hpp") || fn.ends_with("optional.hpp"))) { auto* sp = L->getScope()->getSubprogram(); lines.insert((fn.substr(fn.rfind('/') + 1) + ":" + Twine(L->getLine()) + (optLines && sp ? " " + demangle((sp->getLinkageName().empty() ? sp->getName() : sp->getLinkageName()).str()) : "")).str()); } }
  first = true; for (auto& s : lines) { fprintf(o, "%s%s", first ? "" : ", ", js(s).c_str()); first = false; } fprintf(o, "],\n\"covers\": [");
  first = true; for (auto c : coversHit) { fprintf(o, "%s%u", first ? "" : ", ", c); first = false; }
  fprintf(o, "],\n\"violations\": ["); first = true;
  for (auto& v : viols) {
    fprintf(o, "%s{\"kind\": %s, \"msg\": %s, \"where\": %s, \"inputs\": [", first ? "" : ",\n", js(v.kind).c_str(), js(v.msg).c_str(), js(v.where).c_str()); first = false;
    bool f2 = true; for (auto& i : v.inputs) { fprintf(o, "%s[%s, %llu]", f2 ? "" : ", ", js(i.first).c_str(), (unsigned long long)i.second.second); f2 = false; }
    fprintf(o, "], \"log\": ["); f2 = true; for (auto l : v.log) { fprintf(o, "%s%llu", f2 ? "" : ", ", (unsigned long long)l); f2 = false; }
    fprintf(o, "], \"sched\": ["); f2 = true; for (auto l : v.sched) { fprintf(o, "%s%u", f2 ? "" : ", ", l); f2 = false; }
    fprintf(o, "], \"stack\": ["); f2 = true; for (auto& l : v.stack) { fprintf(o, "%s%s", f2 ? "" : ", ", js(l).c_str()); f2 = false; } fprintf(o, "]}");
  }
  fprintf(o, "],\n\"samples\": ["); first = true;
  for (auto& s : samples) {
    fprintf(o, "%s{\"inputs\": [", first ? "" : ",\n"); first = false; bool f2 = true;
    for (size_t i = 0; i < s.in.size(); ++i) { fprintf(o, "%s[%s, %llu]", f2 ? "" : ", ", js(s.names[i]).c_str(), (unsigned long long)s.in[i]); f2 = false; }
    fprintf(o, "], \"log\": ["); f2 = true; for (auto l : s.log) { fprintf(o, "%s%llu", f2 ? "" : ", ", (unsigned long long)l); f2 = false; }
    fprintf(o, "], \"sched\": ["); f2 = true; for (auto l : s.sched) { fprintf(o, "%s%u", f2 ? "" : ", ", l); f2 = false; } fprintf(o, "]}");
  }
  fprintf(o, "]}\n"); if (o != stdout) fclose(o);
}
// clang addresses some thread-local variables (the guards of function-local ones, constructor and destructor arguments) directly: route every use through
// llvm.threadlocal.address, which gives each thread its own object
static void lowerTls() {
  SmallVector<Constant*, 8> tl; for (auto& g : M->globals()) if (g.isThreadLocal()) tl.push_back(&g);
  if (tl.empty()) return;
  convertUsersOfConstantsToInstructions(tl);
  Function* TA = Intrinsic::getDeclaration(M, Intrinsic::threadlocal_address, {PointerType::getUnqual(LC)});
  for (auto* g : tl) {
    std::vector<Use*> us; for (auto& u : g->uses()) if (isa<Instruction>(u.getUser())) us.push_back(&u);
    for (auto* u : us) {
      auto* i = cast<Instruction>(u->getUser()); if (auto* ii = dyn_cast<IntrinsicInst>(i)) if (ii->getIntrinsicID() == Intrinsic::threadlocal_address) continue;
      Instruction* at = i; if (auto* ph = dyn_cast<PHINode>(i)) at = ph->getIncomingBlock(*u)->getTerminator();
      auto* c = CallInst::Create(TA, {g}, "", at); c->setDebugLoc(i->getDebugLoc()); u->set(c);
    }
  }
}
int main(int argc, char** argv) {
  std::string in;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(++i < argc ? argv[i] : ""); };
    if (a == "-entry") optEntry = nx(); else if (a == "-o") optOut = nx(); else if (a == "-smt") optSmtDir = nx(); else if (a == "-lines") optLines = true; else if (a == "-time") optTime = atof(nx().c_str());
    else if (a == "-steps") optSteps = strtoull(nx().c_str(), 0, 10); else if (a == "-preempt") optPreempt = atoi(nx().c_str()); else if (a == "-samples") optSamples = atoi(nx().c_str()); else if (a == "-seed") optSeed = strtoull(nx().c_str(), 0, 10);
    else if (a == "-slice") { std::string s = nx(); sscanf(s.c_str(), "%u/%u", &sliceI, &sliceM); } else if (a == "-slicedepth") sliceDepth = atoi(nx().c_str()); else if (a == "-mem") optMem = strtoull(nx().c_str(), 0, 10);
    else if (a == "-maxviol") optMaxViol = atoi(nx().c_str()); else if (a == "-trace") optTrace = true; else if (a == "-maxpaths") optMaxPaths = strtoull(nx().c_str(), 0, 10); else if (a == "-norace") optNoRace = true; else in = a;
  }
  rngS = optSeed * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL + sliceI; tStart = now();
  Z3_config cfg = Z3_mk_config(); C = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(C, z3err);
  SV = getenv("SIGSYM_SIMPLE") ? Z3_mk_simple_solver(C) : Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_FD")); Z3_solver_inc_ref(C, SV);
  { Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), 60000); Z3_solver_set_params(C, SV, p); Z3_params_dec_ref(C, p); }
  SMDiagnostic err; auto mod = parseIRFile(in, err, LC); if (!mod) { err.print("sigsym", errs()); return 3; }
  M = mod.get(); DL = &M->getDataLayout(); lowerTls();
  auto* S0 = new State; S0->th.resize(1); S0->th[0].vc[0] = 1; initGlobals(*S0);
  Function* F = M->getFunction(optEntry); if (!F || F->isDeclaration()) { fprintf(stderr, "no entry %s\n", optEntry.c_str()); return 3; }
  pushCall(*S0, infoOf(F), {}, false);
  if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (auto* ar = dyn_cast<ConstantArray>(gc->getInitializer()))
    for (unsigned i = ar->getNumOperands(); i-- > 0;) { auto* st = cast<ConstantStruct>(ar->getOperand(i)); if (auto* cf = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) pushCall(*S0, infoOf(cf), {}, true); }
  initS = new State(*S0);
  work.push_back(S0);
  while (!work.empty() && !stopAll) {
    State* s = work.back(); work.pop_back();
    try { run(*s); } catch (PathEnd&) {}
    delete s;
    if ((int)viols.size() >= optMaxViol) break;
    if (optMaxPaths && ST.paths >= optMaxPaths) { inconc("path limit"); break; }
  }
  output(work.empty() && inconclusive.empty() && viols.empty());
  fflush(nullptr);
  _exit(viols.empty() ? (inconclusive.empty() ? 0 : 2) : 1);
}
