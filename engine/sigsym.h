// sigsym: a small symbolic executor for LLVM 18 IR with Z3 as the deciding solver.
#pragma once
#include <z3.h>
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

namespace llvm { class Function; class Instruction; class BasicBlock; class GlobalVariable; class Type; class Constant; class Value; }

static const int MAXT = 5;   // main + up to 4 worker threads

struct Val { uint64_t c = 0; Z3_ast e = nullptr; };

// ---------------------------------------------------------------- decoded code
enum OpK : uint8_t {
  K_BIN, K_ICMP, K_CAST, K_LOAD, K_STORE, K_GEP, K_BR, K_CBR, K_SWITCH, K_RET, K_CALL, K_INVOKE,
  K_SELECT, K_EXTRACT, K_INSERT, K_ALLOCA, K_RMW, K_CMPXCHG, K_FENCE, K_LPAD, K_RESUME, K_UNREACH,
  K_COPY, K_FBIN, K_FCMP, K_FCAST, K_XELT, K_IELT, K_SHUF, K_UNSUP, K_FNEG
};
struct Piece { uint32_t slot; uint32_t off; uint32_t width; };   // flattened memory access
struct GepIdx { int32_t op; uint64_t scale; uint32_t width; };
struct PhiCopy { int32_t dst; int32_t src; uint32_t n; };
struct Edge { uint32_t bb; std::vector<PhiCopy> phis; };
struct FuncInfo;
struct Ins {
  OpK k; uint8_t sub = 0; uint16_t w = 0, w2 = 0; bool atomic = false; bool visible = false; uint8_t order = 0, order2 = 0;
  int32_t dst = -1; uint32_t nslots = 0;
  std::vector<int32_t> ops;        // operand slot indexes (first slot of each operand)
  std::vector<uint32_t> opn;       // slots per operand
  std::vector<Piece> pieces;       // load / store
  std::vector<GepIdx> gep; int64_t goff = 0;
  uint64_t imm = 0;
  std::vector<Edge> edges;
  std::vector<uint64_t> cases;     // switch
  std::vector<std::pair<int,uint64_t>> clauses; bool cleanup = false; // landingpad: (0 catch,1 filter), typeinfo address
  FuncInfo* callee = nullptr;
  llvm::Instruction* src = nullptr; mutable bool hit = false;
};
struct Block { std::vector<Ins> ins; };
struct FuncInfo {
  llvm::Function* f = nullptr; std::string name; int builtin = 0; bool decoded = false; bool visibleB = false;
  uint32_t nregs = 0, nargs = 0; std::vector<Block> bbs; std::vector<Val> consts; std::vector<uint32_t> argSlots;
  uint64_t addr = 0; uint64_t execs = 0; uint32_t retSlots = 0; bool vararg = false;
};

// ---------------------------------------------------------------- memory
struct Shadow { uint16_t nwc = 0; uint8_t nwt = 0; uint16_t nr[MAXT] = {0}, aw[MAXT] = {0}, ar[MAXT] = {0}; };
enum ObjKind : uint8_t { OB_GLOBAL, OB_STACK, OB_HEAP, OB_FUNC, OB_EXC, OB_TLS };
struct Obj {
  int rc = 1; uint64_t size = 0; ObjKind kind = OB_HEAP; bool freed = false, ro = false; uint8_t owner = 0; uint32_t id = 0;
  std::vector<uint8_t> data, st;                       // st: 0 concrete, 1 uninitialised, 2 symbolic
  std::vector<std::pair<Z3_ast,uint32_t>> sym;         // (expr, byte index)
  std::vector<Shadow> sh;
  llvm::Instruction* allocI = nullptr; llvm::Instruction* freeI = nullptr;
  FuncInfo* fn = nullptr; const char* name = nullptr;
};
struct Chunk { int rc = 1; Obj* o[64]; };

// ---------------------------------------------------------------- state
typedef uint16_t VC[MAXT];
struct Frame {
  FuncInfo* fi = nullptr; uint32_t bb = 0, pc = 0; std::vector<Val> r; std::vector<uint32_t> allocas;
  uint32_t freeOnRet = 0; bool special = false;
};
struct Exc { uint64_t obj, ti, dtor; int handlers = 0; uint64_t adj = 0; bool live = true; bool rethrown=false; int refs = 0; };
struct OpSig { uint8_t kind = 0; bool wr = false; uint64_t addr = 0; uint32_t len = 0; };  // 0 none, 1 atomic, 2 mutex, 3 event
struct Park { FuncInfo* fi; uint32_t bb, pc, depth; uint64_t hash, own, glob; };   // a point where a thread waited, to recognise busy waiting
struct Thread {
  std::vector<Frame> st; bool done = false, parked = false, granted = false;
  std::vector<uint32_t> caught;             // indices in State::excs
  uint32_t unc = 0;                         // uncaught exceptions
  int pendExc = -1; uint64_t pendSel = 0;
  uint16_t vc[MAXT] = {0}, acq[MAXT] = {0}, rel[MAXT] = {0};
  OpSig sig; std::vector<Park> parks; uint64_t own = 0; int64_t spin = -1;   // own: changes made by this thread; spin: value of State::glob it busy-waits on
  std::vector<std::pair<const llvm::GlobalVariable*, uint64_t>> tls; std::vector<std::pair<uint64_t, uint64_t>> tlsDtors;
};
struct MutexSt { uint8_t owner = 0xff; uint16_t cnt = 0; uint16_t readers[MAXT] = {0}; uint16_t vc[MAXT] = {0}; };
struct Input { std::string name; uint32_t bits; Z3_ast e; };
struct Model { Z3_model m; ~Model(); };
struct AtomRel { uint16_t vc[MAXT] = {0}; uint32_t len = 0; };
struct State {
  std::vector<Chunk*> chunks; uint32_t nobj = 0;
  std::vector<Thread> th; int cur = 0; bool par = false;
  std::vector<Z3_ast> pc; std::shared_ptr<Model> model; bool modelOk = false;
  std::vector<Input> inputs; uint32_t nfresh = 0;
  std::unordered_map<Z3_ast, uint64_t> known;     // concretisations implied by pc
  std::vector<Exc> excs;
  std::map<uint64_t, MutexSt> mtx;
  std::map<uint64_t, AtomRel> arel;
  std::vector<std::pair<uint8_t, OpSig>> sleep;
  std::vector<uint8_t> sched; int preempt = 0; int lastT = -1; uint32_t depth = 0;
  std::vector<Val> log;
  std::vector<uint8_t> covers;
  uint64_t steps = 0, lastSched = 0; int64_t heapLive = 0; int faultsLeft = 0; bool faultsOn = false; uint32_t nalloc = 0;
  uint32_t sliceN = 0; uint64_t sliceIdx = 0; int64_t glob = 0;   // glob: changes of atomic variables and locks
  std::vector<std::string> notes;
  State() = default;
  State(const State& o);
  ~State();
  State& operator=(const State&) = delete;
};
