// bsx: symbolic executor for LLVM 18 bitcode. Executes `main` of a linked harness+library module; every input made by
// bsx_sym is a solver variable, every branch/assert/memory access is decided by Z3 over the path condition.
#include "expr.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <atomic>
#include <set>
#include <unordered_set>
#include <deque>
#include <functional>
using namespace llvm;
typedef uint64_t u64;

// ---------------------------------------------------------------- options / shared state
static u64 optMaxSteps = 3000000, optSample = 40, optMaxViol = 12; static int optPreempt = 2, optSpin = 40; static unsigned optMaxDepth = 3000;
static double optDeadline = 1e18; static std::string optOut = "."; static u64 optMemMB = 6000; static u64 optStopForks = 0;
static u64 optReset = 2000000, optProp = 20000000, optCross = 211; static u64 optRlimit1 = 3000000, optRlimit2 = 400000000; static u64 optIteMax = 300;
static std::vector<std::string> optRepoPrefix;
struct Shared { std::atomic<int> tokens; };
struct Shared2 { std::atomic<u64> paths, viols, sampled, stop, violAt; }; // violAt: seconds (monotonic) at which the first violation was found
static Shared* g_sh; static Shared2* g_sh2;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double g_t0;
static void noteViol() { u64 z = 0; g_sh2->violAt.compare_exchange_strong(z, (u64)now() + 1); }
static void writeOut();
static bool graceOver() { u64 v = g_sh2->violAt.load(); return v && now() > v + 30; }

static Module* g_M; static const DataLayout* g_DL;
struct PathEnd { std::string kind, msg; };             // kind: "ok","assume","violation:*","unsupported","steplimit",...
struct Violation { std::string kind, msg; };

// ---------------------------------------------------------------- memory
struct Bytes { std::vector<uint8_t> c; std::vector<const Expr*> s; std::vector<uint8_t> u; };
enum Kind : uint8_t { K_GLOBAL, K_CONST, K_HEAP, K_STACK, K_NEW, K_NEWARR };
struct Obj { u64 base = 0, size = 0; std::shared_ptr<Bytes> b; Kind kind = K_GLOBAL; bool alive = true; const Instruction* site = nullptr; const Instruction* fsite = nullptr; uint32_t seq = 0; };
struct PVec { // chunked copy-on-write vector ordered by base
  static const unsigned N = 32; struct Chunk { Obj o[N]; };
  std::vector<std::shared_ptr<Chunk>> ch; size_t n = 0;
  Obj& at(size_t i) { auto& p = ch[i / N]; if(p.use_count() > 1) p = std::make_shared<Chunk>(*p); return p->o[i % N]; }
  const Obj& get(size_t i) const { return ch[i / N]->o[i % N]; }
  void push(const Obj& o) { if(n % N == 0) ch.push_back(std::make_shared<Chunk>()); at(n++) = o; }
  long find(u64 a) const { // last object with base<=a
    if(!n) return -1; long lo = 0, hi = (long)n - 1, r = -1;
    while(lo <= hi) { long m = (lo + hi) / 2; if(get(m).base <= a) { r = m; lo = m + 1; } else hi = m - 1; } return r; }
};
static const u64 GBASE = 0x10000000ULL, HBASE = 0x600000000000ULL, SBASE = 0x700000000000ULL, SSTRIDE = 0x1000000000ULL, FBASE = 0x400000ULL;

struct FnInfo;
struct Frame { FnInfo* fn; int ip = 0, bb = 0, prev = -1; std::vector<Val> regs; size_t stackMark = 0; const Instruction* call = nullptr; int dst = -1; std::vector<Val> va; uint32_t concN = 0; };
struct Thread { std::vector<Frame> st; std::vector<Obj> stack; u64 sp; int status = 0; int joining = -1; u64 spin = 0; u64 waitVer = ~0ull; std::vector<std::pair<const void*, u64>> hist; Val exc, sel; std::map<const GlobalVariable*, u64> tls; void* waitAddr = nullptr; };
struct Input { std::string name; unsigned bytes; const Expr* e; u64 conc; };
struct State {
  std::vector<Thread> th; int cur = 0; PVec glob, heap; u64 hp = HBASE; u64 liveObjs = 0, liveBytes = 0;
  std::vector<const Expr*> pc; std::shared_ptr<Model> model; std::unordered_set<const Expr*> pcset;
  std::vector<Input> inputs; std::vector<Val> outs; u64 steps = 0; u64 depth = 0; uint32_t nundef = 0, nobj = 0;
  std::vector<std::pair<u64, int>> sched; u64 yields = 0; int preempt = 0; std::vector<int> nsw;
  std::vector<u64> covers; std::map<std::string, int> occ; std::map<std::string, u64> marks; bool incomplete = false; u64 totalSpin = 0, wver = 0; bool allocFailPossible = false; u64 progress = 0;
  std::vector<std::pair<u64, u64>> caught; bool forceConsider = false; u64 lastYieldDone = ~0ULL;
};
typedef std::unique_ptr<State> StateP;
static std::vector<StateP> g_work;

// ---------------------------------------------------------------- precompiled functions
struct Opnd { int r; };
struct II { unsigned op; const Instruction* I; int dst = -1; std::vector<Opnd> o; unsigned w = 0; unsigned a = 0; u64 off = 0; std::vector<std::pair<Opnd, u64>> sc; Function* callee = nullptr; int bi = -1; Type* ty = nullptr; bool isvec = false; };
struct FnInfo { Function* F; std::string name; std::vector<II> code; std::vector<int> bbStart; std::vector<const BasicBlock*> bbs; std::vector<Val> consts; unsigned nregs = 0; bool repo = false; bool hit = false; bool done = false; };
static std::unordered_map<const Function*, FnInfo*> g_fn; static std::unordered_map<const GlobalValue*, u64> g_addr; static std::unordered_map<u64, Function*> g_fnByAddr;
typedef bool (*Builtin)(State& s, Frame& f, II& in); // returns true if instruction completed (ip advance), false if it handled control itself
static std::unordered_map<std::string, int> g_bidx; static std::vector<std::pair<std::string, std::function<bool(State&, Frame&, II&)>>> g_b;

static u64 stInstr, stForks, stQueries, stQSat, stQUnsat, stQUnk, stCacheHit, stModelHit, stPathsOk, stPathsAssume, stPathsSteps, stPathsUnsup, stPathsViol, stUndefReads; static double stSolver;
static std::map<std::string, u64> g_unsup; static std::set<std::string> g_hitFns; static std::map<std::string, u64> g_cov; static std::map<std::string, u64> g_ext;
static std::vector<std::string> g_violJson, g_sampleJson; static std::map<std::string, int> g_violKey;

static unsigned tw(Type* t) {
  if(t->isIntegerTy()) return t->getIntegerBitWidth(); if(t->isPointerTy()) return 64; if(t->isFloatTy()) return 32; if(t->isDoubleTy()) return 64; if(t->isX86_FP80Ty()) return 80;
  if(t->isHalfTy()) return 16; return 0;
}
[[noreturn]] static void unsup(const std::string& m) { throw PathEnd{ "unsupported", m }; }
[[noreturn]] static void viol(const std::string& k, const std::string& m) { throw Violation{ k, m }; }

static Val constVal(const Constant* c);
static Val mkAgg(std::vector<Val> v) { Val r; r.agg = std::make_shared<std::vector<Val>>(std::move(v)); return r; }
static Val zeroOf(Type* t) {
  if(auto st = dyn_cast<StructType>(t)) { std::vector<Val> v; for(auto e : st->elements()) v.push_back(zeroOf(e)); return mkAgg(v); }
  if(auto at = dyn_cast<ArrayType>(t)) { std::vector<Val> v; for(u64 i = 0; i < at->getNumElements(); ++i) v.push_back(zeroOf(at->getElementType())); return mkAgg(v); }
  if(auto vt = dyn_cast<FixedVectorType>(t)) { std::vector<Val> v; for(unsigned i = 0; i < vt->getNumElements(); ++i) v.push_back(zeroOf(vt->getElementType())); return mkAgg(v); }
  return Val(tw(t), 0);
}
static u128 apU(const APInt& a) { u128 r = a.getRawData()[0]; if(a.getBitWidth() > 64) r |= (u128)a.getRawData()[1] << 64; return r & maskw(a.getBitWidth()); }
static Val constVal(const Constant* c) {
  Type* t = c->getType();
  if(auto x = dyn_cast<ConstantInt>(c)) return Val(tw(t), apU(x->getValue()));
  if(auto x = dyn_cast<ConstantFP>(c)) return Val(tw(t), apU(x->getValueAPF().bitcastToAPInt()));
  if(isa<ConstantPointerNull>(c)) return Val(64, 0);
  if(isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroOf(t);
  if(auto g = dyn_cast<GlobalValue>(c)) {
    if(auto ga = dyn_cast<GlobalAlias>(g)) return constVal(ga->getAliasee());
    auto i = g_addr.find(g); if(i == g_addr.end()) unsup("global " + g->getName().str()); return Val(64, i->second); }
  if(auto x = dyn_cast<ConstantDataSequential>(c)) { std::vector<Val> v; for(unsigned i = 0; i < x->getNumElements(); ++i) v.push_back(constVal(x->getElementAsConstant(i))); return mkAgg(v); }
  if(isa<ConstantAggregate>(c)) { std::vector<Val> v; for(unsigned i = 0; i < c->getNumOperands(); ++i) v.push_back(constVal(cast<Constant>(c->getOperand(i)))); return mkAgg(v); }
  if(auto x = dyn_cast<ConstantExpr>(c)) {
    switch(x->getOpcode()) {
    case Instruction::GetElementPtr: { APInt off(64, 0); auto gep = cast<GEPOperator>(x); if(!gep->accumulateConstantOffset(*g_DL, off)) unsup("const gep"); Val b = constVal(cast<Constant>(gep->getPointerOperand())); return Val(64, b.c + off.getZExtValue()); }
    case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(x->getOperand(0));
    case Instruction::PtrToInt: return vZext(vExtract(constVal(x->getOperand(0)), 0, std::min(64u, tw(t))), tw(t));
    case Instruction::IntToPtr: { Val v = constVal(x->getOperand(0)); return v.w > 64 ? vExtract(v, 0, 64) : vZext(v, 64); }
    case Instruction::Trunc: return vExtract(constVal(x->getOperand(0)), 0, tw(t));
    case Instruction::Add: return vBin(O_ADD, constVal(x->getOperand(0)), constVal(x->getOperand(1)));
    case Instruction::Sub: return vBin(O_SUB, constVal(x->getOperand(0)), constVal(x->getOperand(1)));
    case Instruction::ICmp: { Val a = constVal(x->getOperand(0)), b = constVal(x->getOperand(1)); bool r; switch(x->getPredicate()) { case CmpInst::ICMP_EQ: r = a.c == b.c; break; case CmpInst::ICMP_NE: r = a.c != b.c; break; default: unsup("const icmp"); } return Val(1, r); }
    default: unsup(std::string("constexpr ") + x->getOpcodeName());
    }
  }
  unsup("constant kind");
}

static std::string locOf(const Instruction* I) {
  std::string r; if(!I) return "?";
  if(auto& dl = I->getDebugLoc()) { r = dl->getScope()->getFilename().str() + ":" + std::to_string(dl.getLine()); }
  if(I->getFunction()) r += " in " + demangle(I->getFunction()->getName().str());
  return r;
}
static FnInfo* compileFn(Function* F) {
  auto& slot = g_fn[F]; if(slot) return slot;
  FnInfo* fi = new FnInfo; slot = fi; fi->F = F; fi->name = F->getName().str();
  if(auto sp = F->getSubprogram()) { std::string fn = (sp->getFilename().empty() ? "" : (sp->getFilename()[0] == '/' ? "" : sp->getDirectory().str() + "/") + sp->getFilename().str()); for(auto& p : optRepoPrefix) if(fn.find(p) != std::string::npos) fi->repo = true; }
  std::unordered_map<const Value*, int> reg; std::unordered_map<const Value*, int> cidx; int nr = 0;
  for(auto& a : F->args()) reg[&a] = nr++;
  std::unordered_map<const BasicBlock*, int> bbi; for(auto& bb : *F) { bbi[&bb] = fi->bbs.size(); fi->bbs.push_back(&bb); for(auto& I : bb) if(!I.getType()->isVoidTy()) reg[&I] = nr++; }
  fi->nregs = nr;
  auto op = [&](const Value* v) -> Opnd {
    if(isa<Constant>(v)) { auto it = cidx.find(v); if(it != cidx.end()) return Opnd{ -1 - it->second }; int k = fi->consts.size(); fi->consts.push_back(constVal(cast<Constant>(v))); cidx[v] = k; return Opnd{ -1 - k }; }
    if(isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) return Opnd{ 0 };
    return Opnd{ reg[v] }; };
  for(auto& bb : *F) {
    fi->bbStart.push_back(fi->code.size());
    for(auto& I : bb) {
      if(isa<DbgInfoIntrinsic>(&I)) continue;
      II in; in.op = I.getOpcode(); in.I = &I; in.ty = I.getType(); if(!in.ty->isVoidTy()) { in.dst = reg[&I]; in.w = tw(in.ty); }
      in.isvec = in.ty->isVectorTy();
      if(auto g = dyn_cast<GetElementPtrInst>(&I)) {
        if(in.ty->isVectorTy()) unsup("vector gep");
        in.o.push_back(op(g->getPointerOperand()));
        for(auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
          Value* idx = it.getOperand();
          if(auto st = it.getStructTypeOrNull()) in.off += g_DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
          else { u64 sz = g_DL->getTypeAllocSize(it.getIndexedType()); if(auto ci = dyn_cast<ConstantInt>(idx)) in.off += sz * (u64)ci->getSExtValue(); else in.sc.push_back({ op(idx), sz }); }
        }
      } else if(auto p = dyn_cast<PHINode>(&I)) { for(unsigned i = 0; i < p->getNumIncomingValues(); ++i) { in.o.push_back(op(p->getIncomingValue(i))); in.o.push_back(Opnd{ bbi[p->getIncomingBlock(i)] }); } }
      else if(auto b = dyn_cast<BranchInst>(&I)) { if(b->isConditional()) { in.o.push_back(op(b->getCondition())); in.o.push_back(Opnd{ bbi[b->getSuccessor(0)] }); in.o.push_back(Opnd{ bbi[b->getSuccessor(1)] }); } else in.o.push_back(Opnd{ bbi[b->getSuccessor(0)] }); }
      else if(auto sw = dyn_cast<SwitchInst>(&I)) { in.o.push_back(op(sw->getCondition())); in.o.push_back(Opnd{ bbi[sw->getDefaultDest()] }); for(auto& c : sw->cases()) { in.o.push_back(op(c.getCaseValue())); in.o.push_back(Opnd{ bbi[c.getCaseSuccessor()] }); } }
      else if(auto cb = dyn_cast<CallBase>(&I)) {
        for(auto& a : cb->args()) in.o.push_back(op(a.get()));
        Value* cv = cb->getCalledOperand()->stripPointerCasts(); if(auto ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
        if(auto f = dyn_cast<Function>(cv)) in.callee = f; else if(!isa<InlineAsm>(cv)) in.o.push_back(op(cb->getCalledOperand()));
        if(auto iv = dyn_cast<InvokeInst>(&I)) { in.a = bbi[iv->getNormalDest()]; in.off = bbi[iv->getUnwindDest()]; }
        in.bi = -2;
      } else for(auto& o : I.operands()) in.o.push_back(op(o.get()));
      fi->code.push_back(in);
    }
  }
  return fi;
}

// ---------------------------------------------------------------- solver
static const Model* g_curModel = nullptr;
static u128 evalM(const Expr* e, const std::shared_ptr<Model>& m) { if(m.get() != g_curModel) { newEvalEpoch(); g_curModel = m.get(); } return evalE(e, *m); }
static u128 evalV(const Val& v, State& s) { return v.e ? evalM(v.e, s.model) : v.c; }
static std::shared_ptr<Model> newModel(const Model& m) { g_curModel = nullptr; return std::make_shared<Model>(m); }
static std::unordered_map<u64, std::pair<int, std::shared_ptr<Model>>> g_qcache;
static std::vector<std::shared_ptr<Model>> g_recent; static size_t g_recentPos = 0;
static bool hasFP(const Expr* e) { static std::unordered_map<const Expr*, bool> m; auto i = m.find(e); if(i != m.end()) return i->second; bool r = e->op >= O_FADD; for(int k = 0; k < e->nk && !r; ++k) r = hasFP(e->k[k]); return m[e] = r; }
#include "blast.h"
#include "order.h"
static u64 stCross = 0, stReduced = 0;
static int z3check(const std::vector<const Expr*>& cs, std::shared_ptr<Model>& out, const std::vector<uint32_t>& vars) {
  bool fp = false; for(auto e : cs) if(hasFP(e)) fp = true;
  double t = now(); int res = 0; ++stQueries;
  static Z3_ast one = nullptr; if(!one) { one = Z3_mk_unsigned_int64(g_z3, 1, Z3_mk_bv_sort(g_z3, 1)); Z3_inc_ref(g_z3, one); }
  static std::unordered_map<const Expr*, Z3_ast> bools;
  auto asBool = [&](const Expr* e) { auto i = bools.find(e); if(i != bools.end()) return i->second; Z3_ast r = Z3_mk_eq(g_z3, toZ3(e), one); Z3_inc_ref(g_z3, r); return bools[e] = r; };
  bool cross = false; static u64 nUnsatSeen = 0;
  for(int round = 0; round < 2; ++round) {
    if(fp && round == 0) continue;
    Z3_solver sv;
    if(round == 0) {
      auto mm = std::make_shared<Model>(); OrderRed od; std::vector<const Expr*> cs2;
      if(od.reduce(cs, cs2)) { ++stReduced; if(od.unsat) res = -1; else { std::vector<const Expr*> sy; for(auto v : vars) { const Expr* e = mkSym(g_syms[v].name, g_syms[v].w); auto it = od.symMap.find(e); sy.push_back(it == od.symMap.end() ? e : it->second.first); } res = blastCheck(cs2, *mm, optProp, optReset, sy); if(res == 1) od.back(*mm); } }
      else { std::vector<const Expr*> sy; for(auto v : vars) sy.push_back(mkSym(g_syms[v].name, g_syms[v].w)); res = blastCheck(cs, *mm, optProp, optReset, sy); }
      if(res == 1) { auto m2 = std::make_shared<Model>(); for(auto v : vars) m2->v[v] = mm->get(v); out = m2; }
      if(res == -1 && (++nUnsatSeen % optCross) == 1) { ++stCross; cross = true; res = 0; continue; }
      if(res) break; continue;
    }
    {
      Z3_tactic tc;
      auto T = [](const char* n) { Z3_tactic t = Z3_mk_tactic(g_z3, n); Z3_tactic_inc_ref(g_z3, t); return t; }; auto AND = [](Z3_tactic a, Z3_tactic b) { Z3_tactic t = Z3_tactic_and_then(g_z3, a, b); Z3_tactic_inc_ref(g_z3, t); return t; };
      tc = T("simplify"); tc = AND(tc, T("propagate-values"));
      if(fp) { tc = AND(tc, T("fpa2bv")); tc = AND(tc, T("simplify")); }
      tc = AND(tc, AND(T("solve-eqs"), AND(T("simplify"), AND(T("max-bv-sharing"), AND(T("bit-blast"), T("sat"))))));
      sv = Z3_mk_solver_from_tactic(g_z3, tc); Z3_solver_inc_ref(g_z3, sv);
    }
    Z3_params p = Z3_mk_params(g_z3); Z3_params_inc_ref(g_z3, p); u64 rl = cross ? optRlimit1 : optRlimit2; if(rl > 0xFFFFFFF0ULL) rl = 0xFFFFFFF0ULL;
    Z3_params_set_uint(g_z3, p, Z3_mk_string_symbol(g_z3, "rlimit"), (unsigned)rl); Z3_solver_set_params(g_z3, sv, p); Z3_params_dec_ref(g_z3, p);
    for(auto e : cs) Z3_solver_assert(g_z3, sv, asBool(e));
    Z3_lbool r = Z3_solver_check(g_z3, sv);
    if(r == Z3_L_TRUE) {
      res = 1; Z3_model m = Z3_solver_get_model(g_z3, sv); Z3_model_inc_ref(g_z3, m);
      auto mm = std::make_shared<Model>();
      for(auto v : vars) {
        unsigned w = g_syms[v].w; Z3_ast sym = toZ3(mkSym(g_syms[v].name, w)); u128 val = 0;
        for(unsigned lo = 0; lo < w; lo += 64) {
          unsigned hi = std::min(w, lo + 64); Z3_ast piece = (lo == 0 && hi == w) ? sym : Z3_mk_extract(g_z3, hi - 1, lo, sym); Z3_inc_ref(g_z3, piece); Z3_ast o = nullptr; uint64_t x = 0;
          if(Z3_model_eval(g_z3, m, piece, true, &o) && o) { Z3_inc_ref(g_z3, o); if(!Z3_get_numeral_uint64(g_z3, o, &x)) x = 0; Z3_dec_ref(g_z3, o); }
          Z3_dec_ref(g_z3, piece); val |= (u128)x << lo;
        }
        mm->v[v] = val;
      }
      Z3_model_dec_ref(g_z3, m); out = mm;
    } else if(r == Z3_L_FALSE) res = -1; else res = 0;
    Z3_solver_dec_ref(g_z3, sv);
    if(cross) { if(res == 1) { fprintf(stderr, "bsx: FATAL solver disagreement\n"); _exit(9); } if(res == 0) { --stCross; res = -1; } }
    if(res) break;
  }
  stSolver += now() - t;
  if(res == 1) { // validate model
    newEvalEpoch(); g_curModel = nullptr; for(auto e : cs) if(!evalE(e, *out)) { if(fp) { res = 0; break; } fprintf(stderr, "bsx: model validation failure\n"); res = 0; break; } newEvalEpoch();
  }
  if(res == 1) ++stQSat; else if(res == -1) ++stQUnsat; else ++stQUnk;
  return res;
}
static std::string pr(const Expr* e, int d = 0) { static const char* nm[] = { "const","sym","+","-","*","/u","/s","%u","%s","&","|","^","<<",">>u",">>s","==","<u","<=u","<s","<=s","ite","cat","ext","zx","sx" };
  if(e->op == O_CONST) return std::to_string((long long)sx(e->c, e->w)); if(e->op == O_SYM) return g_syms[e->aux].name; if(d > 7) return "..";
  std::string r = "("; r += e->op <= O_SEXT ? nm[e->op] : "fp"; for(int i = 0; i < e->nk; ++i) r += " " + pr(e->k[i], d + 1); return r + ")"; }
// Order-theory front end: constraints of the form [not](x<y), x<=y, x==y over shared terms; detects unsatisfiable cycles (signed and unsigned orders separately).
static u64 stOrder = 0;
static bool orderUnsat(const std::vector<const Expr*>& cs) {
  for(int sg = 0; sg < 2; ++sg) {
    std::unordered_map<const Expr*, int> id; std::vector<const Expr*> nodes; struct Edge { int a, b; bool strict; }; std::vector<Edge> ed; std::vector<std::pair<int, int>> ne; unsigned width = 0; bool mixed = false;
    auto N = [&](const Expr* e) { auto it = id.find(e); if(it != id.end()) return it->second; int k = nodes.size(); nodes.push_back(e); return id[e] = k; };
    for(auto e : cs) { bool neg = false; const Expr* x = e; while(x->op == O_XOR && x->w == 1 && x->k[1]->op == O_CONST && x->k[1]->c == 1) { neg = !neg; x = x->k[0]; }
      if(x->op == (sg ? O_SLT : O_ULT)) { if(!neg) ed.push_back({ N(x->k[0]), N(x->k[1]), true }); else ed.push_back({ N(x->k[1]), N(x->k[0]), false }); }
      else if(x->op == (sg ? O_SLE : O_ULE)) { if(!neg) ed.push_back({ N(x->k[0]), N(x->k[1]), false }); else ed.push_back({ N(x->k[1]), N(x->k[0]), true }); }
      else if(x->op == O_EQ && x->k[0]->w > 1) { int a = N(x->k[0]), b = N(x->k[1]); if(!neg) { ed.push_back({ a, b, false }); ed.push_back({ b, a, false }); } else ne.push_back({ a, b }); } }
    int n = nodes.size(); if(n < 2 || n > 60) continue; (void)width; (void)mixed;
    for(int i = 0; i < n; ++i) if(nodes[i]->op == O_CONST) for(int j = 0; j < n; ++j) if(j != i && nodes[j]->op == O_CONST && nodes[j]->w == nodes[i]->w) { bool lt = sg ? sx(nodes[i]->c, nodes[i]->w) < sx(nodes[j]->c, nodes[j]->w) : nodes[i]->c < nodes[j]->c; if(lt) ed.push_back({ i, j, true }); }
    std::vector<uint8_t> m(n * n, 0); for(auto& x : ed) { uint8_t& c = m[x.a * n + x.b]; c = std::max<uint8_t>(c, x.strict ? 2 : 1); }
    for(int k = 0; k < n; ++k) for(int i = 0; i < n; ++i) if(m[i * n + k]) for(int j = 0; j < n; ++j) if(m[k * n + j]) { uint8_t v = std::max(m[i * n + k], m[k * n + j]); if(v > m[i * n + j]) m[i * n + j] = v; }
    for(int i = 0; i < n; ++i) if(m[i * n + i] == 2) return true;
    for(auto& q : ne) if(m[q.first * n + q.second] == 1 && m[q.second * n + q.first] == 1) return true;
  }
  return false;
}
// Is pc && cond satisfiable? 1 yes (model returned), -1 no, 0 unknown
static int feasible(State& s, const Val& cond, std::shared_ptr<Model>* mout) {
  if(!cond.e) { if(cond.c && mout) *mout = s.model; return cond.c ? 1 : -1; }
  if(evalM(cond.e, s.model)) { if(mout) *mout = s.model; return 1; }
  if(s.pcset.count(cond.e)) { if(mout) *mout = s.model; return 1; }
  Val nc = vNot(cond); if(nc.e && s.pcset.count(nc.e)) return -1;
  // slice
  std::vector<const Expr*> cs; std::vector<const Expr*> stk{ cond.e };
  while(!stk.empty()) { const Expr* e = stk.back(); stk.pop_back(); bool ng = e->op == O_XOR && e->w == 1 && e->k[1]->op == O_CONST;
    if(e->op == O_AND) { stk.push_back(e->k[0]); stk.push_back(e->k[1]); }
    else if(ng && e->k[0]->op == O_OR) for(int i = 0; i < 2; ++i) { Val v = vNot(fromE(e->k[0]->k[i])); if(v.e) stk.push_back(v.e); else if(!v.c) return -1; }
    else cs.push_back(e); }
  size_t nc0 = cs.size(); std::unordered_set<uint32_t> vars(symsOf(cond.e).begin(), symsOf(cond.e).end());
  std::vector<char> used(s.pc.size(), 0); bool ch = true;
  while(ch) { ch = false; for(size_t i = 0; i < s.pc.size(); ++i) if(!used[i]) { auto& sy = symsOf(s.pc[i]); bool hit = false; for(auto v : sy) if(vars.count(v)) { hit = true; break; } if(hit) { used[i] = 1; cs.push_back(s.pc[i]); for(auto v : sy) if(vars.insert(v).second) ch = true; } } }
  std::sort(cs.begin() + nc0, cs.end(), [](const Expr* a, const Expr* b) { return a->id < b->id; });
  u64 key = 1469598103934665603ULL; for(auto e : cs) { key ^= e->id; key *= 1099511628211ULL; key ^= key >> 29; }
  int r; std::shared_ptr<Model> m;
  auto it = g_qcache.find(key);
  if(it != g_qcache.end()) { r = it->second.first; m = it->second.second; ++stCacheHit; }
  else {
    r = 0;
    for(size_t i = 0; i < g_recent.size() && !r; ++i) { auto& c = g_recent[g_recent.size() - 1 - i]; newEvalEpoch(); g_curModel = nullptr; bool ok = true; for(auto e : cs) if(!evalE(e, *c)) { ok = false; break; } if(ok) { auto mm = std::make_shared<Model>(); for(auto v : vars) mm->v[v] = c->get(v); m = mm; r = 1; ++stModelHit; } }
    newEvalEpoch(); g_curModel = nullptr;
    if(!r && orderUnsat(cs)) { if(++stOrder % optCross != 1) r = -1; }
    if(!r) { std::vector<uint32_t> vv(vars.begin(), vars.end()); r = z3check(cs, m, vv); if(getenv("BSX_DBG")) { fprintf(stderr, "Q %d @%s\n", r, locOf(s.th[s.cur].st.back().fn->code[s.th[s.cur].st.back().ip].I).c_str()); for(auto e : cs) fprintf(stderr, "   %s\n", pr(e).c_str()); } if(r == 1) { if(g_recent.size() >= 24) g_recent.erase(g_recent.begin()); g_recent.push_back(m); } }
    if(g_qcache.size() > 400000) g_qcache.clear();
    g_qcache[key] = { r, m };
  }
  if(r == 1 && mout) { auto nm = newModel(*s.model); for(auto& kv : m->v) nm->v[kv.first] = kv.second; *mout = nm; }
  return r;
}
static void addPc(State& s, const Val& c) { if(!c.e) return;
  if(c.e->op == O_AND && c.e->w == 1) { addPc(s, fromE(c.e->k[0])); addPc(s, fromE(c.e->k[1])); s.pcset.insert(c.e); return; }
  if(c.e->op == O_XOR && c.e->w == 1 && c.e->k[1]->op == O_CONST && c.e->k[0]->op == O_OR) { addPc(s, vNot(fromE(c.e->k[0]->k[0]))); addPc(s, vNot(fromE(c.e->k[0]->k[1]))); s.pcset.insert(c.e); return; }
  if(s.pcset.insert(c.e).second) s.pc.push_back(c.e); }
static StateP cloneS(State& s) { ++stForks; return StateP(new State(s)); }
static void incompl(State& s, const std::string& why) { s.incomplete = true; ++g_unsup[why]; }

// Decide a condition: returns the side to follow for s (and forks the other side, restarting current instruction with condition fixed by pc).
static bool branchOn(State& s, const Val& cond) {
  if(!cond.e) return cond.c;
  bool side = evalM(cond.e, s.model) != 0; Val keep = side ? cond : vNot(cond), other = vNot(keep);
  if(s.pcset.count(keep.e)) return side;
  std::shared_ptr<Model> m; int r = feasible(s, other, &m);
  if(r == 1) { StateP n = cloneS(s); addPc(*n, other); n->model = m; n->depth++; g_work.push_back(std::move(n)); s.depth++; addPc(s, keep); }
  else if(r == 0) { incompl(s, "solver-unknown"); addPc(s, keep); }
  else s.pcset.insert(keep.e); // implied by the path condition
  return side;
}
static u128 concretize(State& s, const Val& v) {
  if(!v.e) return v.c;
  u128 c = evalM(v.e, s.model); Val eq = vCmp(O_EQ, v, Val(v.w, c)); if(!eq.e) return c;
  if(s.pcset.count(eq.e)) return c;
  std::shared_ptr<Model> m; int r = feasible(s, vNot(eq), &m);
  if(r == 1) { Frame& f = s.th[s.cur].st.back(); if(++f.concN > 5000) { incompl(s, "concretize-limit"); f.concN = 0; } else { StateP n = cloneS(s); addPc(*n, vNot(eq)); n->model = m; n->depth++; g_work.push_back(std::move(n)); } s.depth++; addPc(s, eq); }
  else if(r == 0) { incompl(s, "solver-unknown"); addPc(s, eq); }
  return c;
}
// A violated check: cond must hold for every value; if some value breaks it raise on a forked state and continue with cond assumed.
static void reportViolation(State& s, const std::string& kind, const std::string& msg);
static void require(State& s, const Val& cond, const std::string& kind, const std::string& msg) {
  if(!cond.e) { if(!cond.c) viol(kind, msg); return; }
  if(s.pcset.count(cond.e)) return;
  Val n = vNot(cond); std::shared_ptr<Model> m;
  if(!evalM(cond.e, s.model)) { // current model violates; is the good side feasible?
    std::shared_ptr<Model> m2; int r = feasible(s, cond, &m2); auto keepM = s.model; auto pcs = s.pc;
    { StateP t = cloneS(s); addPc(*t, n); reportViolation(*t, kind, msg); }
    if(r != 1) throw PathEnd{ "violpath", "" };
    addPc(s, cond); s.model = m2; return;
  }
  int r = feasible(s, n, &m);
  if(r == 1) { StateP t = cloneS(s); addPc(*t, n); t->model = m; reportViolation(*t, kind, msg); }
  else if(r == 0) incompl(s, "solver-unknown-assert");
  addPc(s, cond);
}

// ---------------------------------------------------------------- memory access
static u64 alignUp(u64 a, u64 n) { return (a + n - 1) & ~(n - 1); }
static Obj mkObj(State& s, u64 base, u64 size, Kind k, const Instruction* site, bool undef) {
  Obj o; o.base = base; o.size = size; o.kind = k; o.site = site; o.b = std::make_shared<Bytes>(); o.b->c.assign(size, 0); if(undef) o.b->u.assign(size, 1); o.seq = ++s.nobj; return o;
}
static u64 heapAlloc(State& s, u64 size, u64 align, Kind k, const Instruction* site, bool undef = true) {
  if(size > (1ULL << 26)) unsup("huge allocation");
  u64 base;
  if(align <= 16) { base = alignUp(s.hp + 32, 16); while(base % 64 != 16) base += 16; } else { base = alignUp(s.hp + 32, align); if(base % (2 * align) == 0) base += align; }
  s.hp = base + size; s.heap.push(mkObj(s, base, size, k, site, undef)); s.liveObjs++; s.liveBytes += size; return base;
}
static u64 stackAlloc(State& s, Thread& t, u64 size, u64 align, const Instruction* site) {
  if(align < 16) align = 16; u64 base = alignUp(t.sp + 16, align); t.sp = base + size; if(t.sp > SBASE + SSTRIDE * (u64)(&t - &s.th[0] + 1) - 0x10000) unsup("stack region exhausted");
  t.stack.push_back(mkObj(s, base, size, K_STACK, site, true)); return base;
}
struct Ref { int region; long idx; int tid; }; // 0 none 1 glob 2 heap 3 stack
static const Obj* lookup(State& s, u64 a, Ref& r) {
  if(a >= SBASE) { int tid = (a - SBASE) / SSTRIDE; if(tid < (int)s.th.size()) { auto& st = s.th[tid].stack; long lo = 0, hi = (long)st.size() - 1, k = -1; while(lo <= hi) { long m = (lo + hi) / 2; if(st[m].base <= a) { k = m; lo = m + 1; } else hi = m - 1; } if(k >= 0) { r = { 3, k, tid }; return &st[k]; } } r = { 0, -1, 0 }; return nullptr; }
  if(a >= HBASE) { long k = s.heap.find(a); if(k >= 0) { r = { 2, k, 0 }; return &s.heap.get(k); } r = { 0, -1, 0 }; return nullptr; }
  if(a >= GBASE) { long k = s.glob.find(a); if(k >= 0) { r = { 1, k, 0 }; return &s.glob.get(k); } }
  r = { 0, -1, 0 }; return nullptr;
}
static Bytes& wbytes(State& s, const Ref& r) {
  Obj& o = r.region == 1 ? s.glob.at(r.idx) : r.region == 2 ? s.heap.at(r.idx) : s.th[r.tid].stack[r.idx];
  if(o.b.use_count() > 1) o.b = std::make_shared<Bytes>(*o.b); return *o.b;
}
static std::string hexs(u64 v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); return b; }
static std::string describe(State& s, u64 a, u64 n, const Obj* o) {
  std::string m = "address " + hexs(a) + " size " + std::to_string(n);
  if(a < 4096) return m + " (null page)";
  if(o) { m += std::string(" near ") + (o->kind == K_STACK ? "stack" : o->kind == K_GLOBAL ? "global" : o->kind == K_CONST ? "constant" : "heap") + " object of size " + std::to_string(o->size) + " at offset " + std::to_string((long long)(a - o->base)) + " allocated at " + locOf(o->site); if(!o->alive) m += " freed at " + locOf(o->fsite); }
  return m;
}
// check concrete access; throws Violation
static const Obj* access(State& s, u64 a, u64 n, bool write, Ref& r) {
  const Obj* o = lookup(s, a, r);
  if(!o || a - o->base + n > o->size || a - o->base > o->size) viol(a < 4096 ? "null-deref" : "out-of-bounds", (write ? std::string("write to ") : std::string("read of ")) + describe(s, a, n, o));
  if(!o->alive) viol("use-after-free", (write ? std::string("write to ") : std::string("read of ")) + describe(s, a, n, o));
  if(write && o->kind == K_CONST) viol("const-write", describe(s, a, n, o));
  return o;
}
static Val readByte(State& s, const Obj* o, const Ref& r, u64 off) {
  Bytes* b = o->b.get();
  if(!b->s.empty() && b->s[off]) return fromE(b->s[off]);
  if(!b->u.empty() && b->u[off]) {
    ++stUndefReads; const Expr* e = mkSym("undef_" + std::to_string(s.nundef++), 8); Bytes& wb = wbytes(s, r); if(wb.s.empty()) wb.s.assign(wb.c.size(), nullptr); wb.s[off] = e; wb.u[off] = 0; return fromE(e);
  }
  return Val(8, b->c[off]);
}
static const Obj* reobj(State& s, const Ref& r) { return r.region == 1 ? &s.glob.get(r.idx) : r.region == 2 ? &s.heap.get(r.idx) : &s.th[r.tid].stack[r.idx]; }
static Val readN(State& s, const Obj* o, const Ref& r, u64 off, unsigned n) {
  Bytes* b = o->b.get();
  if(b->s.empty() && b->u.empty()) { u128 v = 0; memcpy(&v, &b->c[off], n); return Val(8 * n, v); }
  bool any = false; for(unsigned i = 0; i < n && !any; ++i) any = (!b->s.empty() && b->s[off + i]) || (!b->u.empty() && b->u[off + i]);
  if(!any) { u128 v = 0; memcpy(&v, &b->c[off], n); return Val(8 * n, v); }
  if(!b->u.empty()) { bool all = true; for(unsigned i = 0; i < n && all; ++i) all = b->u[off + i]; if(all && n > 1) { // one fresh variable for a fully undefined word
      ++stUndefReads; Val v = fromE(mkSym("undef_" + std::to_string(s.nundef++), 8 * n)); Bytes& wb = wbytes(s, r); if(wb.s.empty()) wb.s.assign(wb.c.size(), nullptr);
      for(unsigned i = 0; i < n; ++i) { wb.s[off + i] = vExtract(v, 8 * i, 8).e; wb.u[off + i] = 0; } return v; } }
  Val v = readByte(s, reobj(s, r), r, off);
  for(unsigned i = 1; i < n; ++i) v = vConcat(readByte(s, reobj(s, r), r, off + i), v);
  return v;
}
static void writeN(State& s, const Ref& r, u64 off, const Val& v, unsigned n) {
  Bytes& b = wbytes(s, r);
  if(!v.e) { memcpy(&b.c[off], &v.c, n); if(!b.u.empty()) memset(&b.u[off], 0, n); if(!b.s.empty()) for(unsigned i = 0; i < n; ++i) b.s[off + i] = nullptr; return; }
  if(b.s.empty()) b.s.assign(b.c.size(), nullptr);
  for(unsigned i = 0; i < n; ++i) { Val x = vExtract(v, 8 * i, 8); if(x.e) b.s[off + i] = x.e; else { b.s[off + i] = nullptr; b.c[off + i] = (uint8_t)x.c; } }
  if(!b.u.empty()) memset(&b.u[off], 0, n);
}
// Resolve a symbolic address: ensures (by forking) that it lies inside one object; returns object. Address value stays symbolic.
static const Obj* resolve(State& s, const Val& addr, u64 n, bool write, Ref& r) {
  u64 a = (u64)evalM(addr.e, s.model); const Obj* o = lookup(s, a, r);
  bool good = o && o->alive && a - o->base + n <= o->size && a - o->base <= o->size && !(write && o->kind == K_CONST);
  if(!good) { // violating model: is there any good value? fork the rest so that it is explored
    // exclude this address (restart) so other resolutions are explored; then report
    std::shared_ptr<Model> m; Val ne;
    if(o && a - o->base >= o->size && o->size) { // exclude the whole gap after the object
      Ref r2; u64 nextBase = ~0ULL; if(r.region == 1 && r.idx + 1 < (long)s.glob.n) nextBase = s.glob.get(r.idx + 1).base; else if(r.region == 2 && r.idx + 1 < (long)s.heap.n) nextBase = s.heap.get(r.idx + 1).base; else if(r.region == 3 && r.idx + 1 < (long)s.th[r.tid].stack.size()) nextBase = s.th[r.tid].stack[r.idx + 1].base;
      Val lo = vCmp(O_ULT, addr, Val(64, o->base + o->size)); Val hi = nextBase == ~0ULL ? Val(1, 0) : vCmp(O_ULE, Val(64, nextBase), addr); ne = vBin(O_OR, lo, hi); (void)r2;
    } else ne = vNot(vCmp(O_EQ, addr, Val(64, a)));
    if(feasible(s, ne, &m) == 1) { StateP t = cloneS(s); addPc(*t, ne); t->model = m; Frame& f = t->th[t->cur].st.back(); if(++f.concN < 200) g_work.push_back(std::move(t)); else incompl(s, "resolve-limit"); }
    addPc(s, vCmp(O_EQ, addr, Val(64, a)));
    access(s, a, n, write, r); unsup("resolve");
  }
  Val in = vBin(O_AND, vCmp(O_ULE, Val(64, o->base), addr), vCmp(O_ULE, addr, Val(64, o->base + o->size - n)));
  if(in.e && !s.pcset.count(in.e)) {
    std::shared_ptr<Model> m; Val out = vNot(in); int q = feasible(s, out, &m);
    if(q == 1) { StateP t = cloneS(s); addPc(*t, out); t->model = m; t->depth++; g_work.push_back(std::move(t)); addPc(s, in); s.depth++; }
    else if(q == 0) { incompl(s, "solver-unknown"); addPc(s, in); }
  }
  return o;
}
static Val readTree(State& s, const Val& addr, const Ref& r, u64 base, const std::vector<u64>& offs, size_t lo, size_t hi, unsigned n) {
  if(hi - lo == 1) return readN(s, reobj(s, r), r, offs[lo], n);
  size_t m = (lo + hi) / 2; Val a = readTree(s, addr, r, base, offs, lo, m, n), b = readTree(s, addr, r, base, offs, m, hi, n);
  if(a.e == b.e && a.c == b.c) return a;
  return vIte(vCmp(O_ULT, addr, Val(64, base + offs[m])), a, b);
}
static std::vector<u64> candOffs(State& s, const Val& addr, const Obj* o, u64 n) {
  std::vector<u64> v; u64 a0 = (u64)evalM(addr.e, s.model); u64 step = 1;
  for(u64 st : { n, (u64)16, (u64)8, (u64)4, (u64)2 }) { if(st < 2 || (st & (st - 1)) || st > 64) continue; Val d = vExtract(addr, 0, __builtin_ctzll(st)); Val ne = vNot(vCmp(O_EQ, d, Val(d.w, a0))); if(feasible(s, ne, nullptr) == -1) { step = st; break; } }
  u64 first = (a0 - o->base) % step; for(u64 x = first; x + n <= o->size; x += step) v.push_back(x);
  return v;
}
static Val loadScalar(State& s, const Val& addr, unsigned n) {
  Ref r;
  if(!addr.e) { const Obj* o = access(s, (u64)addr.c, n, false, r); return readN(s, o, r, (u64)addr.c - o->base, n); }
  const Obj* o = resolve(s, addr, n, false, r);
  auto offs = candOffs(s, addr, o, n);
  if(offs.size() > optIteMax) { u64 a = (u64)concretize(s, addr); o = access(s, a, n, false, r); return readN(s, o, r, a - o->base, n); }
  return readTree(s, addr, r, o->base, offs, 0, offs.size(), n);
}
static void storeScalar(State& s, const Val& addr, const Val& v, unsigned n) {
  Ref r;
  if(!addr.e) { const Obj* o = access(s, (u64)addr.c, n, true, r); writeN(s, r, (u64)addr.c - o->base, v, n); return; }
  const Obj* o = resolve(s, addr, n, true, r); auto offs = candOffs(s, addr, o, n);
  if(offs.size() > 64) { u64 a = (u64)concretize(s, addr); o = access(s, a, n, true, r); writeN(s, r, a - o->base, v, n); return; }
  for(u64 x : offs) { u64 base = reobj(s, r)->base; Val c = vCmp(O_EQ, addr, Val(64, base + x)); if(feasible(s, c, nullptr) == -1) continue; Val old = readN(s, reobj(s, r), r, x, n); writeN(s, r, x, vIte(c, v, old), n); }
}
static Val loadTy(State& s, const Val& addr, Type* t) {
  if(unsigned w = tw(t)) { unsigned n = (w + 7) / 8; Val v = loadScalar(s, addr, n); return w == 8 * n ? v : vExtract(v, 0, w); }
  std::vector<Val> v; auto at = [&](u64 off) { return vBin(O_ADD, addr, Val(64, off)); };
  if(auto st = dyn_cast<StructType>(t)) { auto L = g_DL->getStructLayout(st); for(unsigned i = 0; i < st->getNumElements(); ++i) v.push_back(loadTy(s, at(L->getElementOffset(i)), st->getElementType(i))); return mkAgg(v); }
  Type* et; u64 n; if(auto a = dyn_cast<ArrayType>(t)) et = a->getElementType(), n = a->getNumElements(); else { auto x = cast<FixedVectorType>(t); et = x->getElementType(); n = x->getNumElements(); if(et->isIntegerTy(1)) unsup("bit vector load"); }
  u64 sz = g_DL->getTypeAllocSize(et); for(u64 i = 0; i < n; ++i) v.push_back(loadTy(s, at(i * sz), et)); return mkAgg(v);
}
static void storeTy(State& s, const Val& addr, const Val& x, Type* t) {
  if(unsigned w = tw(t)) { unsigned n = (w + 7) / 8; storeScalar(s, addr, w == 8 * n ? x : vZext(x, 8 * n), n); return; }
  auto at = [&](u64 off) { return vBin(O_ADD, addr, Val(64, off)); };
  if(addr.e) unsup("aggregate store to symbolic address");
  if(auto st = dyn_cast<StructType>(t)) { auto L = g_DL->getStructLayout(st); for(unsigned i = 0; i < st->getNumElements(); ++i) storeTy(s, at(L->getElementOffset(i)), (*x.agg)[i], st->getElementType(i)); return; }
  Type* et; if(auto a = dyn_cast<ArrayType>(t)) et = a->getElementType(); else et = cast<FixedVectorType>(t)->getElementType();
  u64 sz = g_DL->getTypeAllocSize(et); for(size_t i = 0; i < x.agg->size(); ++i) storeTy(s, at(i * sz), (*x.agg)[i], et);
}
static void memCopy(State& s, u64 d, u64 sp, u64 n) {
  if(!n) return; Ref rd, rs; const Obj* so = access(s, sp, n, false, rs); u64 soff = sp - so->base; auto sb = so->b; // keep alive snapshot
  std::vector<uint8_t> c(sb->c.begin() + soff, sb->c.begin() + soff + n); std::vector<const Expr*> es; std::vector<uint8_t> us; if(!sb->s.empty()) es.assign(sb->s.begin() + soff, sb->s.begin() + soff + n); if(!sb->u.empty()) us.assign(sb->u.begin() + soff, sb->u.begin() + soff + n);
  sb.reset(); const Obj* dob = access(s, d, n, true, rd); u64 doff = d - dob->base; Bytes& b = wbytes(s, rd); memcpy(&b.c[doff], c.data(), n);
  bool anyS = false; for(auto e : es) if(e) anyS = true; bool anyU = false; for(auto e : us) if(e) anyU = true;
  if(anyS && b.s.empty()) b.s.assign(b.c.size(), nullptr); if(anyU && b.u.empty()) b.u.assign(b.c.size(), 0);
  if(!b.s.empty()) for(u64 i = 0; i < n; ++i) b.s[doff + i] = es.empty() ? nullptr : es[i];
  if(!b.u.empty()) for(u64 i = 0; i < n; ++i) b.u[doff + i] = us.empty() ? 0 : us[i];
}
static void memSet(State& s, u64 d, const Val& v, u64 n) {
  if(!n) return; Ref rd; const Obj* o = access(s, d, n, true, rd); u64 off = d - o->base; Bytes& b = wbytes(s, rd);
  if(!v.e) { memset(&b.c[off], (int)v.c, n); if(!b.s.empty()) for(u64 i = 0; i < n; ++i) b.s[off + i] = nullptr; } else { if(b.s.empty()) b.s.assign(b.c.size(), nullptr); for(u64 i = 0; i < n; ++i) b.s[off + i] = v.e; }
  if(!b.u.empty()) memset(&b.u[off], 0, n);
}
static std::string readStr(State& s, u64 a) { std::string r; for(;; ++a) { Ref rf; const Obj* o = access(s, a, 1, false, rf); Val v = readByte(s, o, rf, a - o->base); if(v.e) v = Val(8, evalV(v, s)); if(!v.c) return r; r += (char)v.c; if(r.size() > 100000) return r; } }
static void heapFree(State& s, u64 p, const Instruction* site, int want) {
  if(!p) return; Ref r; const Obj* o = lookup(s, p, r);
  if(!o || r.region != 2 || o->base != p) viol("bad-free", "free of " + describe(s, p, 0, o));
  if(!o->alive) viol("double-free", "free of " + describe(s, p, 0, o));
  (void)want;
  Obj& w = s.heap.at(r.idx); w.alive = false; w.fsite = site; s.liveObjs--; s.liveBytes -= w.size; w.b = std::make_shared<Bytes>();
}

// ---------------------------------------------------------------- reporting
static std::string jesc(const std::string& s) { std::string r = "\""; for(unsigned char c : s) { if(c == '"' || c == '\\') { r += '\\'; r += c; } else if(c == '\n') r += "\\n"; else if(c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static std::string inputsJson(State& s) { std::string r = "["; bool first = true; for(auto& i : s.inputs) { if(!first) r += ","; first = false; u128 v = i.e ? evalM(i.e, s.model) : i.conc; r += "[" + jesc(i.name) + ",\"" + u128hex(v, i.bytes) + "\"]"; } return r + "]"; }
static std::string schedJson(State& s) { std::string r = "["; bool first = true; for(auto& p : s.sched) { if(!first) r += ","; first = false; r += "[" + std::to_string(p.first) + "," + std::to_string(p.second) + "]"; } return r + "]"; }
static std::string backtrace(State& s) { std::string r; auto& t = s.th[s.cur]; int n = 0; for(int i = (int)t.st.size() - 1; i >= 0 && n < 14; --i, ++n) { auto& f = t.st[i]; const Instruction* I = f.ip < (int)f.fn->code.size() ? f.fn->code[f.ip].I : nullptr; r += (n ? " <- " : "") + locOf(I); } return r; }
static bool dependsUndef(const Expr* e) { for(auto v : symsOf(e)) if(g_syms[v].name.compare(0, 6, "undef_") == 0) return true; return false; }
static void reportViolation(State& s, const std::string& kind, const std::string& msg) {
  ++stPathsViol;
  std::string where = backtrace(s), key = kind + "|" + msg.substr(0, msg.find("address")) + "|" + where.substr(0, where.find(" <- "));
  if(g_violKey[key]++ >= 3) return; // enough witnesses of the same site
  if(g_violJson.size() > 60) return;
  bool und = false; for(auto e : s.pc) if(dependsUndef(e)) und = true;
  std::string undv = "{"; { bool first = true; for(auto& kv : s.model->v) if(g_syms[kv.first].name.compare(0, 6, "undef_") == 0) { if(!first) undv += ","; first = false; undv += jesc(g_syms[kv.first].name) + ":\"" + u128hex(kv.second, g_syms[kv.first].w / 8) + "\""; } undv += "}"; }
  g_violJson.push_back("{\"kind\":" + jesc(kind) + ",\"msg\":" + jesc(msg) + ",\"where\":" + jesc(where) + ",\"uses_undef\":" + (und ? "true" : "false") + ",\"undef\":" + undv + ",\"inputs\":" + inputsJson(s) + ",\"sched\":" + schedJson(s) + "}"); writeOut(); // kept even if a later query never returns
  g_sh2->viols++; noteViol();
}
static void finishOk(State& s) {
  ++stPathsOk; u64 n = ++g_sh2->paths;
  for(auto c : s.covers) g_cov[std::to_string(c)]++;
  bool take = n <= 6 || (n & (n - 1)) == 0 || n % 97 == 0;
  if(take && g_sh2->sampled < optSample) {
    bool und = false; for(auto& v : s.outs) if(v.e && dependsUndef(v.e)) und = true;
    for(auto e : s.pc) if(dependsUndef(e)) und = true;
    if(!und) { g_sh2->sampled++; std::string o = "["; for(size_t i = 0; i < s.outs.size(); ++i) { if(i) o += ","; o += "\"" + u128hex(evalV(s.outs[i], s), 8) + "\""; } o += "]"; g_sampleJson.push_back("{\"inputs\":" + inputsJson(s) + ",\"sched\":" + schedJson(s) + ",\"outs\":" + o + "}"); }
  }
}

// ---------------------------------------------------------------- interpreter
static inline const Val& get(Frame& f, Opnd o) { return o.r >= 0 ? f.regs[o.r] : f.fn->consts[-1 - o.r]; }
static void pushFrame(State& s, Thread& t, Function* F, std::vector<Val> args, const Instruction* call, int dst) {
  FnInfo* fi = compileFn(F); if(!fi->hit) { fi->hit = true; if(fi->repo) g_hitFns.insert(demangle(fi->name)); }
  Frame f; f.fn = fi; f.regs.resize(fi->nregs); size_t na = F->arg_size();
  for(size_t i = 0; i < na && i < args.size(); ++i) f.regs[i] = args[i];
  for(size_t i = na; i < args.size(); ++i) f.va.push_back(args[i]);
  f.call = call; f.dst = dst; f.stackMark = t.stack.size();
  // byval arguments: copy
  for(size_t i = 0; i < na; ++i) if(F->hasParamAttribute(i, Attribute::ByVal)) { Type* bt = F->getParamByValType(i); u64 sz = g_DL->getTypeAllocSize(bt); u64 a = stackAlloc(s, t, sz, 16, call); memCopy(s, a, (u64)f.regs[i].c, sz); f.regs[i] = Val(64, a); }
  if(t.st.size() > optMaxDepth) viol("stack-overflow", "call depth exceeds " + std::to_string(optMaxDepth));
  t.st.push_back(std::move(f));
}
static void gotoBB(Frame& f, int bb) {
  f.prev = f.bb; f.bb = bb; f.ip = f.fn->bbStart[bb]; f.concN = 0;
  if(f.fn->code[f.ip].op == Instruction::PHI) {
    std::vector<std::pair<int, Val>> tmp; int ip = f.ip;
    while(f.fn->code[ip].op == Instruction::PHI) { II& in = f.fn->code[ip]; bool ok = false; for(size_t i = 0; i < in.o.size(); i += 2) if(in.o[i + 1].r == f.prev) { tmp.push_back({ in.dst, get(f, in.o[i]) }); ok = true; break; } if(!ok) unsup("phi"); ++ip; }
    for(auto& p : tmp) f.regs[p.first] = p.second; f.ip = ip;
  }
}
static void doReturn(State& s, const Val* rv) {
  Thread& t = s.th[s.cur]; Frame& f = t.st.back(); t.stack.resize(f.stackMark); const Instruction* call = f.call; int dst = f.dst; Val v; if(rv) v = *rv; t.st.pop_back();
  if(t.st.empty()) { t.status = 1; return; }
  Frame& c = t.st.back(); if(dst >= 0) c.regs[dst] = v;
  if(call && isa<InvokeInst>(call)) gotoBB(c, c.fn->code[c.ip].a); else if(call) ++c.ip;
}
template<class F> static Val mapVec(const Val& a, F fn) { if(!a.agg) return fn(a); std::vector<Val> v; for(auto& x : *a.agg) v.push_back(fn(x)); return mkAgg(v); }
template<class F> static Val mapVec2(const Val& a, const Val& b, F fn) { if(!a.agg) return fn(a, b); std::vector<Val> v; for(size_t i = 0; i < a.agg->size(); ++i) v.push_back(fn((*a.agg)[i], (*b.agg)[i])); return mkAgg(v); }
static Val vSel(const Val& c, const Val& a, const Val& b) {
  if(c.agg) { std::vector<Val> v; for(size_t i = 0; i < a.agg->size(); ++i) v.push_back(vSel((*c.agg)[i], (*a.agg)[i], (*b.agg)[i])); return mkAgg(v); }
  if(!c.e) return c.c ? a : b;
  if(a.agg) { std::vector<Val> v; for(size_t i = 0; i < a.agg->size(); ++i) v.push_back(vSel(c, (*a.agg)[i], (*b.agg)[i])); return mkAgg(v); }
  return vIte(c, a, b);
}
static Val shiftX86(Op op, const Val& a, const Val& b) { // x86: count masked to 5/6 bits (32/64-bit operands); narrower types are promoted by C so cannot exceed in practice
  unsigned w = a.w; u128 m = w == 64 ? 63 : w == 32 ? 31 : w == 128 ? 127 : 0; Val c = m ? vBin(O_AND, b, Val(w, m)) : b; return vBin(op, a, c);
}
static Val icmpV(unsigned p, const Val& a, const Val& b) {
  switch(p) {
  case CmpInst::ICMP_EQ: return vCmp(O_EQ, a, b); case CmpInst::ICMP_NE: return vNot(vCmp(O_EQ, a, b));
  case CmpInst::ICMP_ULT: return vCmp(O_ULT, a, b); case CmpInst::ICMP_ULE: return vCmp(O_ULE, a, b); case CmpInst::ICMP_UGT: return vCmp(O_ULT, b, a); case CmpInst::ICMP_UGE: return vCmp(O_ULE, b, a);
  case CmpInst::ICMP_SLT: return vCmp(O_SLT, a, b); case CmpInst::ICMP_SLE: return vCmp(O_SLE, a, b); case CmpInst::ICMP_SGT: return vCmp(O_SLT, b, a); case CmpInst::ICMP_SGE: return vCmp(O_SLE, b, a);
  } unsup("icmp");
}
static Val fcmpV(unsigned p, const Val& a, const Val& b) {
  auto F = [&](Op o, const Val& x, const Val& y) { return vF(o, 1, x, &y); };
  switch(p) {
  case CmpInst::FCMP_FALSE: return Val(1, 0); case CmpInst::FCMP_TRUE: return Val(1, 1);
  case CmpInst::FCMP_OEQ: return F(O_FEQ, a, b); case CmpInst::FCMP_OLT: return F(O_FLT, a, b); case CmpInst::FCMP_OLE: return F(O_FLE, a, b); case CmpInst::FCMP_OGT: return F(O_FLT, b, a); case CmpInst::FCMP_OGE: return F(O_FLE, b, a);
  case CmpInst::FCMP_UNE: return vNot(F(O_FEQ, a, b)); case CmpInst::FCMP_UGE: return vNot(F(O_FLT, a, b)); case CmpInst::FCMP_UGT: return vNot(F(O_FLE, a, b)); case CmpInst::FCMP_ULE: return vNot(F(O_FLT, b, a)); case CmpInst::FCMP_ULT: return vNot(F(O_FLE, b, a));
  case CmpInst::FCMP_UNO: return F(O_FUNO, a, b); case CmpInst::FCMP_ORD: return vNot(F(O_FUNO, a, b));
  case CmpInst::FCMP_ONE: return vBin(O_AND, vNot(F(O_FEQ, a, b)), vNot(F(O_FUNO, a, b))); case CmpInst::FCMP_UEQ: return vBin(O_OR, F(O_FEQ, a, b), F(O_FUNO, a, b));
  } unsup("fcmp");
}
static Val fneg(const Val& a) { return vBin(O_XOR, a, Val(a.w, (u128)1 << (a.w - 1))); }
static Val fabsV(const Val& a) { return vBin(O_AND, a, Val(a.w, maskw(a.w) >> 1)); }
static Val ctpopV(const Val& a) { if(!a.e) { unsigned n = __builtin_popcountll((u64)a.c) + __builtin_popcountll((u64)(a.c >> 64)); return Val(a.w, n); } Val r(a.w, 0); for(unsigned i = 0; i < a.w; ++i) r = vBin(O_ADD, r, vZext(vExtract(a, i, 1), a.w)); return r; }
static Val ctlzV(const Val& a) { Val r(a.w, a.w); for(unsigned i = 0; i < a.w; ++i) r = vIte(vCmp(O_EQ, vExtract(a, i, 1), Val(1, 1)), Val(a.w, a.w - 1 - i), r); return r; }
static Val cttzV(const Val& a) { Val r(a.w, a.w); for(int i = (int)a.w - 1; i >= 0; --i) r = vIte(vCmp(O_EQ, vExtract(a, i, 1), Val(1, 1)), Val(a.w, i), r); return r; }

static void unwind(State& s); // exception unwinding
static u64 tlsAddr(State& s, const GlobalVariable* g);
static void initGlobal(State& s, u64 base, const Constant* c);

static bool callFunction(State& s, Frame& f, II& in, Function* F, unsigned nargs);
static void schedSwitch(State& s, int to, bool preempt) { s.sched.push_back({ s.yields, to }); if(preempt) s.preempt++; s.cur = to; Thread& t = s.th[to]; t.waitVer = ~0ull; t.hist.clear(); t.spin = 0; }
// a write that changed shared memory: threads waiting in a loop may proceed
static void noteStore(State& s, const Val& addr) { if(s.th.size() < 2) return; if(!addr.e && (u64)addr.c >= SBASE && ((u64)addr.c - SBASE) / SSTRIDE == (u64)s.cur) return; s.wver++; s.th[s.cur].hist.clear(); }
static bool changed(const Val& a, const Val& b) { return a.e || b.e || a.agg || b.agg || a.c != b.c; }

// Handles one yield point. May fork states that switch to other threads. Returns after choosing for s to continue in s.cur.
static void yieldPoint(State& s, bool forced, bool interesting, const void* at = nullptr, u64 addr = 0) {
  s.yields++; Thread& t = s.th[s.cur];
  std::vector<int> others; for(int i = 0; i < (int)s.th.size(); ++i) if(i != s.cur && s.th[i].status == 0) others.push_back(i);
  if(others.empty()) { if(forced && ++s.totalSpin > 400) viol("livelock", "every runnable thread is waiting"); if(++t.spin > 20000) viol("livelock", "the only runnable thread waits for ever"); return; }
  t.spin++;
  if(at) { // a thread that repeats the same access without having changed anything is waiting for the others
    int c = 0; for(auto& h : t.hist) if(h.first == at && h.second == addr) ++c;
    if(c >= 3) forced = true; else t.hist.push_back({ at, addr }); if(c >= 2) interesting = false;
  }
  if(t.spin > (u64)optSpin * 25) forced = true;
  if(forced) {
    if(++s.totalSpin > 60 * s.th.size()) viol("livelock", "no thread makes progress under a fair schedule");
    std::vector<int> en; for(int o : others) if(s.th[o].waitVer == ~0ull || s.th[o].waitVer != s.wver) en.push_back(o);
    t.hist.clear(); if(en.empty()) { t.spin = 0; return; }
    t.waitVer = s.wver; t.spin = 0;
    for(size_t i = 1; i < en.size(); ++i) { StateP n = cloneS(s); schedSwitch(*n, en[i], false); g_work.push_back(std::move(n)); }
    schedSwitch(s, en[0], false); return;
  }
  if(!interesting || s.preempt >= optPreempt) return;
  for(int o : others) { if(s.th[o].waitVer != ~0ull && s.th[o].waitVer == s.wver) continue; StateP n = cloneS(s); n->th[n->cur].spin = 0; schedSwitch(*n, o, true); n->totalSpin = 0; g_work.push_back(std::move(n)); }
}

#define ARG(i) get(f, in.o[i])
static void setRes(Frame& f, II& in, const Val& v) { if(in.dst >= 0) f.regs[in.dst] = v; }

static void execCall(State& s, II& in);
static bool g_advance;

static void step(State& s) {
  Thread& t = s.th[s.cur]; Frame& f = t.st.back(); II& in = f.fn->code[f.ip]; ++stInstr; ++s.steps;
  switch(in.op) {
  case Instruction::Ret: { if(in.o.empty()) doReturn(s, nullptr); else { Val v = ARG(0); doReturn(s, &v); } return; }
  case Instruction::Br: {
    if(in.o.size() == 1) { gotoBB(f, in.o[0].r); return; }
    const Val& c = ARG(0);
    if(!c.e) { gotoBB(f, c.c ? in.o[1].r : in.o[2].r); return; }
    bool b = branchOn(s, c); gotoBB(f, b ? in.o[1].r : in.o[2].r); return; }
  case Instruction::Switch: {
    const Val& c = ARG(0);
    if(!c.e) { for(size_t i = 2; i < in.o.size(); i += 2) if(get(f, in.o[i]).c == c.c) { gotoBB(f, in.o[i + 1].r); return; } gotoBB(f, in.o[1].r); return; }
    // group cases by target
    std::map<int, Val> conds; Val dflt(1, 1);
    for(size_t i = 2; i < in.o.size(); i += 2) { Val e = vCmp(O_EQ, c, get(f, in.o[i])); auto it = conds.find(in.o[i + 1].r); if(it == conds.end()) conds[in.o[i + 1].r] = e; else it->second = vBin(O_OR, it->second, e); dflt = vBin(O_AND, dflt, vNot(e)); }
    { auto it = conds.find(in.o[1].r); if(it == conds.end()) conds[in.o[1].r] = dflt; else it->second = vBin(O_OR, it->second, dflt); }
    int mine = -1; Val mineC; std::vector<std::pair<int, std::pair<Val, std::shared_ptr<Model>>>> oth;
    for(auto& kv : conds) { if(mine < 0 && evalV(kv.second, s)) { mine = kv.first; mineC = kv.second; continue; } std::shared_ptr<Model> m; int r = feasible(s, kv.second, &m); if(r == 1) oth.push_back({ kv.first, { kv.second, m } }); else if(r == 0) incompl(s, "solver-unknown"); }
    for(auto& o : oth) { StateP n = cloneS(s); addPc(*n, o.second.first); n->model = o.second.second; n->depth++; gotoBB(n->th[n->cur].st.back(), o.first); g_work.push_back(std::move(n)); }
    if(!oth.empty()) s.depth++; addPc(s, mineC); gotoBB(f, mine); return; }
  case Instruction::Unreachable: viol("unreachable", "reached unreachable code (missing return or noreturn call returned)");
  case Instruction::Add: setRes(f, in, mapVec2(ARG(0), ARG(1), [](const Val& a, const Val& b) { return vBin(O_ADD, a, b); })); break;
  case Instruction::Sub: setRes(f, in, mapVec2(ARG(0), ARG(1), [](const Val& a, const Val& b) { return vBin(O_SUB, a, b); })); break;
  case Instruction::Mul: setRes(f, in, mapVec2(ARG(0), ARG(1), [](const Val& a, const Val& b) { return vBin(O_MUL, a, b); })); break;
  case Instruction::And: setRes(f, in, mapVec2(ARG(0), ARG(1), [](const Val& a, const Val& b) { return vBin(O_AND, a, b); })); break;
  case Instruction::Or: setRes(f, in, mapVec2(ARG(0), ARG(1), [](const Val& a, const Val& b) { return vBin(O_OR, a, b); })); break;
  case Instruction::Xor: setRes(f, in, mapVec2(ARG(0), ARG(1), [](const Val& a, const Val& b) { return vBin(O_XOR, a, b); })); break;
  case Instruction::Shl: setRes(f, in, mapVec2(ARG(0), ARG(1), [](const Val& a, const Val& b) { return shiftX86(O_SHL, a, b); })); break;
  case Instruction::LShr: setRes(f, in, mapVec2(ARG(0), ARG(1), [](const Val& a, const Val& b) { return shiftX86(O_LSHR, a, b); })); break;
  case Instruction::AShr: setRes(f, in, mapVec2(ARG(0), ARG(1), [](const Val& a, const Val& b) { return shiftX86(O_ASHR, a, b); })); break;
  case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
    unsigned op = in.op;
    setRes(f, in, mapVec2(ARG(0), ARG(1), [&](const Val& a, const Val& b) {
      require(s, vNot(vCmp(O_EQ, b, Val(b.w, 0))), "div-by-zero", "integer division by zero");
      if(op == Instruction::SDiv || op == Instruction::SRem) { if(a.w >= 32) require(s, vNot(vBin(O_AND, vCmp(O_EQ, b, Val(b.w, maskw(b.w))), vCmp(O_EQ, a, Val(a.w, (u128)1 << (a.w - 1))))), "div-overflow", "INT_MIN / -1"); }
      return vBin(op == Instruction::UDiv ? O_UDIV : op == Instruction::URem ? O_UREM : op == Instruction::SDiv ? O_SDIV : O_SREM, a, b); })); break; }
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
    Op o = in.op == Instruction::FAdd ? O_FADD : in.op == Instruction::FSub ? O_FSUB : in.op == Instruction::FMul ? O_FMUL : in.op == Instruction::FDiv ? O_FDIV : O_FREM;
    setRes(f, in, mapVec2(ARG(0), ARG(1), [&](const Val& a, const Val& b) { return vF(o, a.w, a, &b); })); break; }
  case Instruction::FNeg: setRes(f, in, mapVec(ARG(0), [](const Val& a) { return fneg(a); })); break;
  case Instruction::ICmp: { unsigned p = cast<CmpInst>(in.I)->getPredicate(); setRes(f, in, mapVec2(ARG(0), ARG(1), [&](const Val& a, const Val& b) { return icmpV(p, a, b); })); break; }
  case Instruction::FCmp: { unsigned p = cast<CmpInst>(in.I)->getPredicate(); setRes(f, in, mapVec2(ARG(0), ARG(1), [&](const Val& a, const Val& b) { return fcmpV(p, a, b); })); break; }
  case Instruction::Select: setRes(f, in, vSel(ARG(0), ARG(1), ARG(2))); break;
  case Instruction::Freeze: setRes(f, in, ARG(0)); break;
  case Instruction::Trunc: { unsigned w = tw(in.ty->getScalarType()); setRes(f, in, mapVec(ARG(0), [&](const Val& a) { return vExtract(a, 0, w); })); break; }
  case Instruction::ZExt: { unsigned w = tw(in.ty->getScalarType()); setRes(f, in, mapVec(ARG(0), [&](const Val& a) { return vZext(a, w); })); break; }
  case Instruction::SExt: { unsigned w = tw(in.ty->getScalarType()); setRes(f, in, mapVec(ARG(0), [&](const Val& a) { return vSext(a, w); })); break; }
  case Instruction::PtrToInt: case Instruction::IntToPtr: { const Val& a = ARG(0); setRes(f, in, in.w <= a.w ? vExtract(a, 0, in.w) : vZext(a, in.w)); break; }
  case Instruction::BitCast: {
    const Val& a = ARG(0); Type* st = in.I->getOperand(0)->getType();
    if(!a.agg && !in.isvec) { setRes(f, in, a); break; }
    Val flat; if(a.agg) { for(size_t i = 0; i < a.agg->size(); ++i) flat = i ? vConcat((*a.agg)[i], flat) : (*a.agg)[0]; if(g_DL->getTypeSizeInBits(st) > 128) { if(in.isvec && cast<FixedVectorType>(in.ty)->getNumElements() == a.agg->size()) { setRes(f, in, a); break; } unsup("wide bitcast"); } } else flat = a;
    if(in.isvec) { auto vt = cast<FixedVectorType>(in.ty); unsigned ew = tw(vt->getElementType()); std::vector<Val> v; for(unsigned i = 0; i < vt->getNumElements(); ++i) v.push_back(vExtract(flat, i * ew, ew)); setRes(f, in, mkAgg(v)); } else setRes(f, in, flat);
    break; }
  case Instruction::FPToSI: case Instruction::FPToUI: { unsigned w = tw(in.ty->getScalarType()); Op o = in.op == Instruction::FPToSI ? O_FTOSI : O_FTOUI;
    setRes(f, in, mapVec(ARG(0), [&](const Val& a) { if(w < 32) { Val x = vF(O_FTOSI, 32, a); return vExtract(x, 0, w); } if(o == O_FTOUI && w == 32) return vExtract(vF(O_FTOSI, 64, a), 0, 32);
      if(o == O_FTOUI && w == 64) { // x86-64 lowering: values >= 2^63 subtract 2^63
        if(!a.e) return vF(O_FTOUI, 64, a); Val lim = a.w == 32 ? Val(32, 0x5f000000) : Val(64, 0x43e0000000000000ULL); Val big = fcmpV(CmpInst::FCMP_OGE, a, lim); return vIte(big, vBin(O_XOR, vF(O_FTOSI, 64, vF(O_FSUB, a.w, a, &lim)), Val(64, (u128)1 << 63)), vF(O_FTOSI, 64, a)); }
      return vF(o, w, a); })); break; }
  case Instruction::SIToFP: case Instruction::UIToFP: { unsigned w = tw(in.ty->getScalarType()); Op o = in.op == Instruction::SIToFP ? O_SITOF : O_UITOF; setRes(f, in, mapVec(ARG(0), [&](const Val& a) { return vF(o, w, a); })); break; }
  case Instruction::FPExt: case Instruction::FPTrunc: { unsigned w = tw(in.ty->getScalarType()); Op o = in.op == Instruction::FPExt ? O_FEXT : O_FTRUNC; setRes(f, in, mapVec(ARG(0), [&](const Val& a) { return vF(o, w, a); })); break; }
  case Instruction::GetElementPtr: {
    Val a = ARG(0); if(in.off) a = vBin(O_ADD, a, Val(64, in.off));
    for(auto& p : in.sc) { Val i = get(f, p.first); i = i.w < 64 ? vSext(i, 64) : i.w > 64 ? vExtract(i, 0, 64) : i; a = vBin(O_ADD, a, vBin(O_MUL, i, Val(64, p.second))); }
    setRes(f, in, a); break; }
  case Instruction::Alloca: { auto al = cast<AllocaInst>(in.I); u64 n = (u64)concretize(s, ARG(0)); u64 sz = g_DL->getTypeAllocSize(al->getAllocatedType()) * n; if(sz > (1 << 26)) unsup("huge alloca"); setRes(f, in, Val(64, stackAlloc(s, t, sz, al->getAlign().value(), in.I))); break; }
  case Instruction::Load: { Val v = loadTy(s, ARG(0), in.ty); setRes(f, in, v); break; }
  case Instruction::Store: { storeTy(s, ARG(1), ARG(0), in.I->getOperand(0)->getType()); noteStore(s, ARG(1)); break; }
  case Instruction::ExtractValue: { Val v = ARG(0); for(auto i : cast<ExtractValueInst>(in.I)->indices()) { Val n = (*v.agg)[i]; v = n; } setRes(f, in, v); break; }
  case Instruction::InsertValue: { std::function<Val(const Val&, ArrayRef<unsigned>)> ins = [&](const Val& a, ArrayRef<unsigned> ix) -> Val { if(ix.empty()) return ARG(1); std::vector<Val> v(*a.agg); v[ix[0]] = ins(v[ix[0]], ix.slice(1)); return mkAgg(v); }; setRes(f, in, ins(ARG(0), cast<InsertValueInst>(in.I)->getIndices())); break; }
  case Instruction::ExtractElement: { u64 i = (u64)concretize(s, ARG(1)); Val v = (*ARG(0).agg).at(i); setRes(f, in, v); break; }
  case Instruction::InsertElement: { u64 i = (u64)concretize(s, ARG(2)); std::vector<Val> v(*ARG(0).agg); v.at(i) = ARG(1); setRes(f, in, mkAgg(v)); break; }
  case Instruction::ShuffleVector: { auto sv = cast<ShuffleVectorInst>(in.I); std::vector<Val> v; auto& a = *ARG(0).agg; auto& b = *ARG(1).agg; for(int m : sv->getShuffleMask()) { if(m < 0) v.push_back(Val(a[0].w, 0)); else if((size_t)m < a.size()) v.push_back(a[m]); else v.push_back(b[m - a.size()]); } setRes(f, in, mkAgg(v)); break; }
  case Instruction::Fence: break;
  case Instruction::AtomicRMW: {
    auto rm = cast<AtomicRMWInst>(in.I); Type* ty = rm->getValOperand()->getType(); Val o = loadTy(s, ARG(0), ty), v = ARG(1), r;
    switch(rm->getOperation()) {
    case AtomicRMWInst::Xchg: r = v; break; case AtomicRMWInst::Add: r = vBin(O_ADD, o, v); break; case AtomicRMWInst::Sub: r = vBin(O_SUB, o, v); break; case AtomicRMWInst::And: r = vBin(O_AND, o, v); break; case AtomicRMWInst::Or: r = vBin(O_OR, o, v); break; case AtomicRMWInst::Xor: r = vBin(O_XOR, o, v); break;
    case AtomicRMWInst::Nand: r = vBin(O_XOR, vBin(O_AND, o, v), Val(v.w, maskw(v.w))); break;
    case AtomicRMWInst::Max: r = vIte(vCmp(O_SLT, o, v), v, o); break; case AtomicRMWInst::Min: r = vIte(vCmp(O_SLT, o, v), o, v); break; case AtomicRMWInst::UMax: r = vIte(vCmp(O_ULT, o, v), v, o); break; case AtomicRMWInst::UMin: r = vIte(vCmp(O_ULT, o, v), o, v); break;
    default: unsup("atomicrmw"); }
    storeTy(s, ARG(0), r, ty); if(changed(o, r)) noteStore(s, ARG(0)); setRes(f, in, o); break; }
  case Instruction::AtomicCmpXchg: {
    auto cx = cast<AtomicCmpXchgInst>(in.I); Type* ty = cx->getCompareOperand()->getType();
    u64 al = g_DL->getTypeStoreSize(ty); if(al == 16) { const Val& pa = ARG(0); if(!pa.e && (pa.c & 15)) viol("misaligned", "16-byte compare-and-swap on an address that is not 16-byte aligned"); }
    Val o = loadTy(s, ARG(0), ty); Val eq = vCmp(O_EQ, o, ARG(1)); Val nv = ARG(2); Val w = vIte(eq, nv, o); storeTy(s, ARG(0), w, ty); if(changed(o, w)) noteStore(s, ARG(0)); setRes(f, in, mkAgg({ o, eq })); break; }
  case Instruction::Call: case Instruction::Invoke: execCall(s, in); return;
  case Instruction::LandingPad: { // selector computed during unwinding
    setRes(f, in, mkAgg({ t.exc, t.sel })); break; }
  case Instruction::Resume: { t.exc = (*ARG(0).agg)[0]; unwind(s); return; }
  case Instruction::VAArg: unsup("va_arg instruction");
  default: unsup(std::string("instruction ") + in.I->getOpcodeName());
  }
  ++f.ip;
}

// exceptions -----------------------------------------------------------------
static std::map<u64, int> g_tids; // typeinfo address -> selector id
static int tidOf(u64 ti) { auto it = g_tids.find(ti); if(it != g_tids.end()) return it->second; int id = (int)(ti - GBASE) | 1; return g_tids[ti] = (int)((ti >> 3) & 0x7fffffff); }
static bool derives(const Value* ti, const Value* base, int depth = 0) {
  if(ti == base) return true; if(depth > 8) return false; auto g = dyn_cast<GlobalVariable>(ti); 
  if(g && g->hasInitializer()) if(auto cs = dyn_cast<ConstantStruct>(g->getInitializer())) { for(unsigned i = 2; i < cs->getNumOperands(); ++i) { const Value* o = cs->getOperand(i)->stripPointerCasts(); if(isa<GlobalVariable>(o) && derives(o, base, depth + 1)) return true; } }
  if(g && base) { std::string a = g->getName().str(), b = base->getName().str(); // libstdc++ hierarchy for external typeinfos
    static const std::map<std::string, std::string> par = { {"_ZTISt13runtime_error","_ZTISt9exception"},{"_ZTISt11logic_error","_ZTISt9exception"},{"_ZTISt12out_of_range","_ZTISt11logic_error"},{"_ZTISt12length_error","_ZTISt11logic_error"},{"_ZTISt16invalid_argument","_ZTISt11logic_error"},{"_ZTISt9bad_alloc","_ZTISt9exception"} };
    for(int i = 0; i < 4; ++i) { auto it = par.find(a); if(it == par.end()) break; a = it->second; if(a == b) return true; } }
  return false;
}
static std::unordered_map<u64, const GlobalVariable*> g_gvByAddr;
static void unwind(State& s) {
  Thread& t = s.th[s.cur]; u64 exc = (u64)t.exc.c; u64 ti = 0; for(auto& p : s.caught) if(p.first == exc) ti = p.second;
  const Value* tiv = g_gvByAddr.count(ti) ? g_gvByAddr[ti] : nullptr;
  // pop the throwing frame's call instruction owner upward
  bool first = true;
  while(!t.st.empty()) {
    Frame& f = t.st.back(); II& in = f.fn->code[f.ip];
    if(in.op == Instruction::Invoke) {
      const LandingPadInst* lp = cast<InvokeInst>(in.I)->getLandingPadInst(); int sel = 0; bool enter = lp->isCleanup();
      for(unsigned i = 0; i < lp->getNumClauses(); ++i) if(lp->isCatch(i)) { const Value* c = lp->getClause(i)->stripPointerCasts(); if(isa<ConstantPointerNull>(c)) { sel = tidOf(0); enter = true; break; } if(tiv && derives(tiv, c)) { sel = tidOf(g_addr[cast<GlobalValue>(c)]); enter = true; break; } } else { enter = true; }
      if(enter) { t.sel = Val(32, (u64)(unsigned)sel); gotoBB(f, (int)in.off); return; }
    }
    first = false; if(t.st.size() == 1) break; t.stack.resize(f.stackMark); t.st.pop_back();
  }
  (void)first; viol("uncaught-exception", std::string("exception ") + (tiv ? demangle(tiv->getName().str()) : "?") + " leaves the program");
}

// inline assembly ------------------------------------------------------------
static void execAsm(State& s, Frame& f, II& in, const InlineAsm* ia) {
  std::string a = ia->getAsmString(), c = ia->getConstraintString();
  auto done = [&](const Val& v) { setRes(f, in, v); };
  // memory operand pointer is the (indirect) pointer argument
  auto cb = cast<CallBase>(in.I); int pi = -1; std::vector<int> vi; for(unsigned i = 0; i < cb->arg_size(); ++i) { if(cb->getArgOperand(i)->getType()->isPointerTy() && cb->paramHasAttr(i, Attribute::ElementType)) { if(pi < 0) pi = i; } else vi.push_back(i); }
  if(a.find("xadd") != std::string::npos) { if(pi < 0 || vi.empty()) unsup("asm " + a); Val v = ARG(vi[0]); unsigned n = v.w / 8; Val o = loadScalar(s, ARG(pi), n); storeScalar(s, ARG(pi), vBin(O_ADD, o, v), n); noteStore(s, ARG(pi)); done(o); return; }
  if(a.find("xchgl %eax") != std::string::npos) { done(Val(32, 0)); return; } // CPU barrier
  if(a.find("xchg") != std::string::npos) { if(pi < 0 || vi.empty()) unsup("asm " + a); Val v = ARG(vi[0]); unsigned n = v.w / 8; Val o = loadScalar(s, ARG(pi), n); storeScalar(s, ARG(pi), v, n); if(changed(o, v)) noteStore(s, ARG(pi)); done(o); return; }
  bool bts = a.find("bts") != std::string::npos, btr = a.find("btr") != std::string::npos;
  if((bts || btr) && pi >= 0 && !vi.empty()) {
    Type* ety = cb->getParamElementType(pi); unsigned w = tw(ety), n = w / 8; Val b = ARG(vi[0]); b = b.w < w ? vZext(b, w) : vExtract(b, 0, w); b = vBin(O_AND, b, Val(w, w - 1));
    Val o = loadScalar(s, ARG(pi), n), bit = vBin(O_SHL, Val(w, 1), b); Val was = vExtract(vBin(O_LSHR, o, b), 0, 1); Val nv = bts ? vBin(O_OR, o, bit) : vBin(O_AND, o, vBin(O_XOR, bit, Val(w, maskw(w))));
    storeScalar(s, ARG(pi), nv, n); if(changed(o, nv)) noteStore(s, ARG(pi)); if(in.dst >= 0) { done(vZext(was, in.w)); return; }
    for(unsigned i = pi + 1; i < cb->arg_size(); ++i) if(cb->getArgOperand(i)->getType()->isPointerTy() && cb->paramHasAttr(i, Attribute::ElementType)) { unsigned rw = tw(cb->getParamElementType(i)); storeScalar(s, ARG(i), vZext(was, rw), rw / 8); return; }
    unsup("inline asm without result: " + a);
  }
  if(a.empty()) { if(in.dst >= 0) unsup("empty asm with result"); return; }
  if(a.find("pause") != std::string::npos) { yieldPoint(s, true, true); return; }
  unsup("inline asm: " + a + " / " + c);
}

static void execCall(State& s, II& in) {
  Thread& t = s.th[s.cur]; Frame& f = t.st.back(); auto cb = cast<CallBase>(in.I); Function* F = in.callee; unsigned na = cb->arg_size();
  if(!F) {
    if(auto ia = dyn_cast<InlineAsm>(cb->getCalledOperand())) { execAsm(s, f, in, ia); Frame& g = s.th[s.cur].st.back(); (void)g; f.ip++; return; }
    u64 a = (u64)concretize(s, ARG(na)); auto it = g_fnByAddr.find(a); if(it == g_fnByAddr.end()) viol("bad-call", "indirect call to " + hexs(a) + " which is not a function"); F = it->second;
  }
  if(in.bi == -2 || !in.callee) {
    auto it = g_bidx.find(F->getName().str()); int bi = it == g_bidx.end() ? -1 : it->second; if(bi >= 0 && !F->isDeclaration() && (F->getName() == "clock_gettime" || F->getName() == "fwrite" || F->getName() == "fclose")) bi = -1; // a harness may bring its own clock or files
    if(bi < 0 && F->isIntrinsic()) { std::string n = F->getName().str(); while(bi < 0) { size_t p = n.rfind('.'); if(p == std::string::npos || p <= 4) break; n = n.substr(0, p); auto j = g_bidx.find(n); if(j != g_bidx.end()) bi = j->second; } }
    if(bi < 0 && F->isDeclaration()) unsup("external function " + F->getName().str());
    in.bi = bi;
  }
  if(in.bi >= 0) {
    if(!in.callee) { int bi = in.bi; in.bi = -2; if(F->isDeclaration()) g_ext[F->getName().str()]++; if(g_b[bi].second(s, f, in)) { if(in.op == Instruction::Invoke) gotoBB(f, in.a); else ++f.ip; } return; }
    if(!F->isIntrinsic()) g_ext[F->getName().str()]++;
    // note: builtins may switch s.cur; f remains valid (threads vector is not resized during a builtin unless it says so)
    int tid = s.cur; if(g_b[in.bi].second(s, f, in)) { Frame& g = s.th[tid].st.back(); if(in.op == Instruction::Invoke) gotoBB(g, in.a); else ++g.ip; } return;
  }
  std::vector<Val> args; args.reserve(na); for(unsigned i = 0; i < na; ++i) args.push_back(ARG(i));
  int dst = in.dst; const Instruction* I = in.I; if(!in.callee) in.bi = -2;
  pushFrame(s, t, F, std::move(args), I, dst);
}

// ---------------------------------------------------------------- builtins
#define B(name) g_bidx[name] = g_b.size(); g_b.emplace_back(name, [](State& s, Frame& f, II& in) -> bool
static u64 C64(State& s, const Val& v) { return (u64)concretize(s, v); }
static Val cmpBytes(State& s, u64 a, u64 b, u64 n, bool wide) { // memcmp as expression: sign of first difference
  Val r(32, 0);
  for(u64 i = n; i-- > 0;) { Val x = loadScalar(s, Val(64, a + i), 1), y = loadScalar(s, Val(64, b + i), 1); Val d = vBin(O_SUB, vZext(x, 32), vZext(y, 32)); r = vIte(vCmp(O_EQ, x, y), r, d); }
  (void)wide; return r;
}
static void addInput(State& s, const std::string& nm, unsigned bytes, const Expr* e) { s.inputs.push_back({ nm, bytes, e, 0 }); }
static Val symInput(State& s, const std::string& base, unsigned bytes) {
  int k = s.occ[base]++; std::string nm = base + (k ? "#" + std::to_string(k) : ""); const Expr* e = mkSym(nm, 8 * bytes); addInput(s, nm, bytes, e); return fromE(e);
}
static std::vector<Val> vaArgs(Frame& f, II& in, unsigned from) { std::vector<Val> v; for(unsigned i = from; i < cast<CallBase>(in.I)->arg_size(); ++i) v.push_back(get(f, in.o[i])); return v; }
// formats with concrete arguments only
static std::string doFormat(State& s, const std::string& fmt, std::function<Val(char)> next) {
  std::string out;
  for(size_t i = 0; i < fmt.size(); ++i) {
    if(fmt[i] != '%') { out += fmt[i]; continue; }
    size_t j = i + 1; std::string spec = "%"; int lng = 0;
    while(j < fmt.size() && !isalpha((unsigned char)fmt[j]) && fmt[j] != '%') { if(fmt[j] == '*') { Val v = next('i'); spec += std::to_string((int)sx(concretize(s, v), 32)); } else spec += fmt[j]; ++j; }
    while(j < fmt.size() && strchr("lhzjtLq", fmt[j])) { if(fmt[j] == 'l') ++lng; if(fmt[j] == 'z' || fmt[j] == 'j' || fmt[j] == 't') lng = 2; ++j; }
    char c = fmt[j]; char buf[512]; buf[0] = 0;
    if(c == '%') { out += '%'; i = j; continue; }
    if(strchr("diouxXc", c)) { Val v = next('i'); u128 x = concretize(s, v); if(c == 'c') snprintf(buf, 512, (spec + "c").c_str(), (int)x); else if(c == 'd' || c == 'i') snprintf(buf, 512, (spec + "lld").c_str(), lng ? (long long)sx(x, 64) : (long long)sx(x, 32)); else snprintf(buf, 512, (spec + "ll" + c).c_str(), lng ? (unsigned long long)x : (unsigned long long)(uint32_t)x); out += buf; }
    else if(strchr("fFeEgGaA", c)) { Val v = next('f'); u64 x = (u64)concretize(s, v); double d; memcpy(&d, &x, 8); snprintf(buf, 512, (spec + c).c_str(), d); out += buf; }
    else if(c == 's') { Val v = next('i'); std::string t = readStr(s, (u64)concretize(s, v)); std::vector<char> bb(t.size() + 512); snprintf(bb.data(), bb.size(), (spec + "s").c_str(), t.c_str()); out += bb.data(); }
    else if(c == 'p') { Val v = next('i'); snprintf(buf, 512, "%p", (void*)(u64)concretize(s, v)); out += buf; }
    else unsup("format " + fmt);
    i = j;
  }
  return out;
}
static Val writeFormatted(State& s, u64 dst, u64 n, const std::string& r) {
  if(n) { u64 k = std::min<u64>(r.size(), n - 1); Ref rf; access(s, dst, k + 1, true, rf); for(u64 i = 0; i < k; ++i) storeScalar(s, Val(64, dst + i), Val(8, (uint8_t)r[i]), 1); storeScalar(s, Val(64, dst + k), Val(8, 0), 1); }
  return Val(32, r.size());
}
static std::function<Val(char)> vaListReader(State& s, u64 ap) { // our va_list: gp_offset/fp_offset exhausted; overflow area used
  return [&s, ap](char) -> Val { Val p = loadScalar(s, Val(64, ap + 8), 8); u64 a = (u64)p.c; Val v = loadScalar(s, Val(64, a), 8); storeScalar(s, Val(64, ap + 8), Val(64, a + 8), 8); return v; };
}
typedef double (*LibM1)(double); typedef double (*LibM2)(double, double);
static void regM1(const char* nm, LibM1 fn) { std::string n = nm;
  g_bidx[n] = g_b.size(); g_b.emplace_back(n, [fn](State& s, Frame& f, II& in) -> bool { const Val& v = ARG(0); if(v.e) unsup("libm on symbolic value"); double d; u64 x = (u64)v.c; memcpy(&d, &x, 8); d = fn(d); memcpy(&x, &d, 8); setRes(f, in, Val(64, x)); return true; });
  g_bidx[n + "f"] = g_b.size(); g_b.emplace_back(n + "f", [fn](State& s, Frame& f, II& in) -> bool { const Val& v = ARG(0); if(v.e) unsup("libm on symbolic value"); float d; uint32_t x = (uint32_t)v.c; memcpy(&d, &x, 4); d = (float)fn(d); memcpy(&x, &d, 4); setRes(f, in, Val(32, x)); return true; });
}
static void regM2(const char* nm, LibM2 fn) { std::string n = nm;
  g_bidx[n] = g_b.size(); g_b.emplace_back(n, [fn](State& s, Frame& f, II& in) -> bool { const Val &v = ARG(0), &v2 = ARG(1); if(v.e || v2.e) unsup("libm on symbolic value"); double d, e; u64 x = (u64)v.c, y = (u64)v2.c; memcpy(&d, &x, 8); memcpy(&e, &y, 8); d = fn(d, e); memcpy(&x, &d, 8); setRes(f, in, Val(64, x)); return true; });
  g_bidx[n + "f"] = g_b.size(); g_b.emplace_back(n + "f", [fn](State& s, Frame& f, II& in) -> bool { const Val &v = ARG(0), &v2 = ARG(1); if(v.e || v2.e) unsup("libm on symbolic value"); float d, e; uint32_t x = (uint32_t)v.c, y = (uint32_t)v2.c; memcpy(&d, &x, 4); memcpy(&e, &y, 4); d = (float)fn(d, e); memcpy(&x, &d, 4); setRes(f, in, Val(32, x)); return true; });
}
static void regRound(const char* nm, unsigned kind) { for(std::string n : { std::string(nm), std::string(nm) + "f", std::string("llvm.") + nm }) { g_bidx[n] = g_b.size(); g_b.emplace_back(n, [kind](State& s, Frame& f, II& in) -> bool { setRes(f, in, mapVec(ARG(0), [&](const Val& a) { return vF(O_FRND, a.w, a, nullptr, kind); })); return true; }); } }
static void regInt2(const char* nm, std::function<Val(const Val&, const Val&)> fn) { g_bidx[nm] = g_b.size(); g_b.emplace_back(nm, [fn](State& s, Frame& f, II& in) -> bool { setRes(f, in, mapVec2(ARG(0), ARG(1), fn)); return true; }); }
static Val ovfAdd(const Val& a, const Val& b, bool sub, bool sg) {
  unsigned w = a.w; if(w >= 128) unsup("128-bit overflow op"); Val x = sg ? vSext(a, w + 1) : vZext(a, w + 1), y = sg ? vSext(b, w + 1) : vZext(b, w + 1); Val r = vBin(sub ? O_SUB : O_ADD, x, y), t = vExtract(r, 0, w);
  Val back = sg ? vSext(t, w + 1) : vZext(t, w + 1); return mkAgg({ t, vNot(vCmp(O_EQ, back, r)) });
}
static Val ovfMul(const Val& a, const Val& b, bool sg) { unsigned w = a.w; if(w > 64) unsup("mul overflow width"); Val x = sg ? vSext(a, 2 * w) : vZext(a, 2 * w), y = sg ? vSext(b, 2 * w) : vZext(b, 2 * w); Val r = vBin(O_MUL, x, y), t = vExtract(r, 0, w); Val back = sg ? vSext(t, 2 * w) : vZext(t, 2 * w); return mkAgg({ t, vNot(vCmp(O_EQ, back, r)) }); }

static void regBuiltins() {
  // ---- harness API
  B("bsx_sym") { u64 p = C64(s, ARG(0)), n = C64(s, ARG(1)); std::string nm = readStr(s, C64(s, ARG(2)));
    if(n == 1 || n == 2 || n == 4 || n == 8) storeScalar(s, Val(64, p), symInput(s, nm, n), n); else for(u64 i = 0; i < n; ++i) storeScalar(s, Val(64, p + i), symInput(s, nm + "[" + std::to_string(i) + "]", 1), 1);
    return true; });
  B("bsx_choice") { // symbolic selector below n, made concrete by solver-decided forking
    u64 n = C64(s, ARG(0)); std::string nm = readStr(s, C64(s, ARG(1))); Frame* fr = &f; const char* key = "choice"; (void)key; (void)fr;
    std::string mk = "c:" + nm + "@" + std::to_string(s.inputs.size()); auto it = s.occ.find(nm); int k = it == s.occ.end() ? 0 : it->second; std::string full = nm + (k ? "#" + std::to_string(k) : "");
    Val v = fromE(mkSym(full, 32)); Val lt = vCmp(O_ULT, v, Val(32, n)); std::shared_ptr<Model> m;
    if(!s.pcset.count(toE(lt))) { if(n == 0) throw PathEnd{ "assume", "" }; if(feasible(s, lt, &m) != 1) throw PathEnd{ "assume", "" }; s.model = m; addPc(s, lt); }
    u64 c = (u64)concretize(s, v); s.occ[nm] = k + 1; addInput(s, full, 4, toE(v)); setRes(f, in, Val(32, c)); return true; });
  B("bsx_assume") { Val c = vNot(vCmp(O_EQ, ARG(0), Val(ARG(0).w, 0))); if(!c.e) { if(!c.c) throw PathEnd{ "assume", "" }; return true; } std::shared_ptr<Model> m; int r = feasible(s, c, &m); if(r == 0) { incompl(s, "solver-unknown-assume"); throw PathEnd{ "assume", "" }; } if(r < 0) throw PathEnd{ "assume", "" }; s.model = m; addPc(s, c); return true; });
  B("bsx_check") { Val c = vNot(vCmp(O_EQ, ARG(0), Val(ARG(0).w, 0))); std::string msg = readStr(s, C64(s, ARG(1))); require(s, c, "assert", msg); return true; });
  B("bsx_cover") { s.covers.push_back(C64(s, ARG(0))); return true; });
  B("bsx_out") { Val v = ARG(0); s.outs.push_back(v.w < 64 ? vZext(v, 64) : v); return true; });
  B("bsx_live") { setRes(f, in, Val(64, s.liveObjs)); return true; });
  B("bsx_concrete") { setRes(f, in, Val(64, C64(s, ARG(0)))); return true; });
  B("bsx_is_symbolic_run") { setRes(f, in, Val(32, 1)); return true; });
  B("bsx_undef") { u64 p = C64(s, ARG(0)), n = C64(s, ARG(1)); Ref r; const Obj* o = access(s, p, n, true, r); u64 off = p - o->base; Bytes& b = wbytes(s, r); if(b.u.empty()) b.u.assign(b.c.size(), 0); for(u64 i = 0; i < n; ++i) { b.u[off + i] = 1; if(!b.s.empty()) b.s[off + i] = nullptr; } return true; });
  B("bsx_spawn") { u64 fn = C64(s, ARG(0)); Val arg = ARG(1); auto it = g_fnByAddr.find(fn); if(it == g_fnByAddr.end()) unsup("spawn"); int id = s.th.size(); setRes(f, in, Val(32, id)); if(in.op == Instruction::Invoke) gotoBB(f, in.a); else ++f.ip;
    Thread nt; nt.sp = SBASE + SSTRIDE * id + 0x1000; s.th.push_back(nt); pushFrame(s, s.th.back(), it->second, { arg }, nullptr, -1); return false; });
  B("bsx_join") { u64 id = C64(s, ARG(0)); if(s.th.at(id).status == 1) return true; // blocked: hand over to another runnable thread
    std::vector<int> oth; for(int i = 0; i < (int)s.th.size(); ++i) if(i != s.cur && s.th[i].status == 0) oth.push_back(i); if(oth.empty()) viol("deadlock", "join with no runnable thread"); s.yields++;
    // waiting thread is parked until its target finishes
    s.th[s.cur].status = 2; s.th[s.cur].joining = (int)id;
    for(size_t i = 1; i < oth.size(); ++i) { StateP n = cloneS(s); schedSwitch(*n, oth[i], false); g_work.push_back(std::move(n)); } schedSwitch(s, oth[0], false); return false; });
  B("__bsx_yield") { u64 y = s.yields; (void)y; const Val& p = ARG(0); bool interesting = true; if(!p.e) { u64 a = (u64)p.c; if(a >= SBASE && (a - SBASE) / SSTRIDE == (u64)s.cur && s.cur != 0) interesting = false; } 
    const void* at = &in; u64 pa = p.e ? ~0ull : (u64)p.c; Frame& fr = s.th[s.cur].st.back(); if(in.op == Instruction::Invoke) gotoBB(fr, in.a); else ++fr.ip; yieldPoint(s, false, interesting, at, pa); return false; });
  B("bsx_relax") { Frame& fr = s.th[s.cur].st.back(); if(in.op == Instruction::Invoke) gotoBB(fr, in.a); else ++fr.ip; yieldPoint(s, true, true); return false; });
  B("bsx_progress") { s.totalSpin = 0; s.th[s.cur].spin = 0; return true; });
  B("bsx_tid") { setRes(f, in, Val(32, s.cur)); return true; });
  // ---- memory
  auto alloc = [](Kind k) { return [k](State& s, Frame& f, II& in) -> bool { u64 n = C64(s, ARG(0)); setRes(f, in, Val(64, heapAlloc(s, n, 16, k, in.I))); return true; }; };
  auto reg = [](const char* n, std::function<bool(State&, Frame&, II&)> fn) { g_bidx[n] = g_b.size(); g_b.emplace_back(n, fn); };
  reg("malloc", alloc(K_HEAP)); reg("_Znwm", alloc(K_NEW)); reg("_Znam", alloc(K_NEWARR)); reg("_ZnwmRKSt9nothrow_t", alloc(K_NEW)); reg("_ZnamRKSt9nothrow_t", alloc(K_NEWARR));
  auto fre = [](State& s, Frame& f, II& in) -> bool { heapFree(s, C64(s, ARG(0)), in.I, 0); return true; };
  for(const char* n : { "free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvmSt11align_val_t" }) reg(n, fre);
  auto alal = [](State& s, Frame& f, II& in) -> bool { u64 n = C64(s, ARG(0)), a = C64(s, ARG(1)); setRes(f, in, Val(64, heapAlloc(s, n, a, K_NEW, in.I))); return true; };
  reg("_ZnwmSt11align_val_t", alal); reg("_ZnamSt11align_val_t", alal);
  B("aligned_alloc") { u64 a = C64(s, ARG(0)), n = C64(s, ARG(1)); setRes(f, in, Val(64, heapAlloc(s, n, a, K_HEAP, in.I))); return true; }); g_bidx["memalign"] = g_bidx["aligned_alloc"];
  B("posix_memalign") { u64 p = C64(s, ARG(0)), a = C64(s, ARG(1)), n = C64(s, ARG(2)); storeScalar(s, Val(64, p), Val(64, heapAlloc(s, n, a, K_HEAP, in.I)), 8); setRes(f, in, Val(32, 0)); return true; });
  B("calloc") { u64 n = C64(s, ARG(0)) * C64(s, ARG(1)); setRes(f, in, Val(64, heapAlloc(s, n, 16, K_HEAP, in.I, false))); return true; });
  B("realloc") { u64 p = C64(s, ARG(0)), n = C64(s, ARG(1)); if(p && !n) { heapFree(s, p, in.I, 0); setRes(f, in, Val(64, 0)); return true; }
    u64 osz = 0; if(p) { Ref r; const Obj* o = lookup(s, p, r); if(!o || r.region != 2 || o->base != p) viol("bad-free", "realloc of " + describe(s, p, 0, o)); if(!o->alive) viol("use-after-free", "realloc of " + describe(s, p, 0, o)); osz = o->size; }
    u64 q = heapAlloc(s, n, 16, K_HEAP, in.I); if(p) { memCopy(s, q, p, std::min(osz, n)); heapFree(s, p, in.I, 0); } setRes(f, in, Val(64, q)); return true; });
  B("malloc_usable_size") { u64 p = C64(s, ARG(0)); Ref r; const Obj* o = p ? lookup(s, p, r) : nullptr; setRes(f, in, Val(64, o ? o->size : 0)); return true; });
  auto mcpy = [](State& s, Frame& f, II& in) -> bool { u64 d = C64(s, ARG(0)), p = C64(s, ARG(1)), n = C64(s, ARG(2)); bool nonOverlap = g_b[in.bi >= 0 ? in.bi : 0].first == "memcpy" || g_b[in.bi >= 0 ? in.bi : 0].first == "llvm.memcpy";
    if(nonOverlap && n && d != p && d < p + n && p < d + n) viol("memcpy-overlap", "memcpy with overlapping ranges"); memCopy(s, d, p, n); setRes(f, in, Val(64, d)); return true; };
  for(const char* n : { "memcpy", "memmove", "llvm.memcpy", "llvm.memmove" }) reg(n, mcpy);
  auto mset = [](State& s, Frame& f, II& in) -> bool { u64 d = C64(s, ARG(0)), n = C64(s, ARG(2)); Val v = vExtract(ARG(1), 0, 8); memSet(s, d, v, n); setRes(f, in, Val(64, d)); return true; };
  reg("memset", mset); reg("llvm.memset", mset);
  auto mcmp = [](State& s, Frame& f, II& in) -> bool { u64 a = C64(s, ARG(0)), b = C64(s, ARG(1)), n = C64(s, ARG(2)); setRes(f, in, cmpBytes(s, a, b, n, false)); return true; };
  reg("memcmp", mcmp); reg("bcmp", mcmp);
  // ---- termination
  B("exit") { throw PathEnd{ "exit", "" }; return true; }); B("_exit") { throw PathEnd{ "exit", "" }; return true; });
  B("abort") { viol("abort", "abort() called"); return true; });
  B("__assert_fail") { viol("library-assert", readStr(s, C64(s, ARG(0))) + " at " + readStr(s, C64(s, ARG(1))) + ":" + std::to_string(C64(s, ARG(2)))); return true; });
  B("llvm.trap") { viol("trap", "trap"); return true; });
  B("_ZSt9terminatev") { viol("terminate", "std::terminate"); return true; }); B("__clang_call_terminate") { viol("terminate", "std::terminate"); return true; });
  for(const char* n : { "_ZSt20__throw_length_errorPKc", "_ZSt19__throw_logic_errorPKc", "_ZSt17__throw_bad_allocv", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt20__throw_out_of_rangePKc", "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt25__throw_bad_function_callv", "_ZSt24__throw_invalid_argumentPKc" }) { std::string nm = n; g_bidx[nm] = g_b.size(); g_b.emplace_back(nm, [nm](State&, Frame&, II&) -> bool { viol("uncaught-exception", demangle(nm)); return true; }); }
  B("__cxa_pure_virtual") { viol("pure-virtual", "pure virtual call"); return true; });
  // ---- c++ runtime
  B("__cxa_atexit") { setRes(f, in, Val(32, 0)); return true; }); B("__cxa_thread_atexit") { setRes(f, in, Val(32, 0)); return true; });
  B("__cxa_guard_acquire") { u64 g = C64(s, ARG(0)); Val v = loadScalar(s, Val(64, g), 1); setRes(f, in, Val(32, v.c ? 0 : 1)); return true; });
  B("__cxa_guard_release") { storeScalar(s, Val(64, C64(s, ARG(0))), Val(8, 1), 1); return true; }); B("__cxa_guard_abort") { return true; });
  B("__cxa_allocate_exception") { u64 a = heapAlloc(s, C64(s, ARG(0)), 16, K_HEAP, in.I); s.liveObjs--; s.liveBytes -= C64(s, ARG(0)); setRes(f, in, Val(64, a)); return true; });
  B("__cxa_free_exception") { return true; });
  B("__cxa_throw") { u64 e = C64(s, ARG(0)), ti = C64(s, ARG(1)); s.caught.push_back({ e, ti }); s.th[s.cur].exc = Val(64, e); unwind(s); return false; });
  B("__cxa_rethrow") { if(s.caught.empty()) viol("terminate", "rethrow without exception"); s.th[s.cur].exc = Val(64, s.caught.back().first); unwind(s); return false; });
  B("_Unwind_Resume") { s.th[s.cur].exc = ARG(0); unwind(s); return false; });
  B("__cxa_begin_catch") { setRes(f, in, ARG(0)); return true; }); B("__cxa_end_catch") { return true; }); B("__cxa_get_exception_ptr") { setRes(f, in, ARG(0)); return true; });
  B("llvm.eh.typeid.for") { setRes(f, in, Val(32, (u64)(unsigned)tidOf(C64(s, ARG(0))))); return true; });
  B("__gxx_personality_v0") { unsup("personality called"); return true; });
  for(const char* n : { "_ZNSt13runtime_errorC1EPKc", "_ZNSt13runtime_errorC2EPKc", "_ZNSt13runtime_errorD1Ev", "_ZNSt13runtime_errorD2Ev", "_ZNSt11logic_errorC1EPKc", "_ZNSt11logic_errorD1Ev", "_ZNSt12out_of_rangeC1EPKc", "_ZNSt12out_of_rangeD1Ev", "_ZNSt16invalid_argumentC1EPKc", "_ZNSt16invalid_argumentD1Ev", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "_ZNSt9exceptionD1Ev", "_ZNSt9exceptionD2Ev" }) reg(n, [](State&, Frame&, II&) -> bool { return true; });
  // ---- misc libc
  for(const char* n : { "printf", "puts", "putchar", "fflush", "fputs", "fputc", "fwrite", "perror", "vprintf", "vfprintf", "fprintf", "srand", "setlocale", "fclose", "OutputDebugStringA" }) reg(n, [](State&, Frame& f, II& in) -> bool { if(in.dst >= 0) setRes(f, in, Val(in.w, 0)); return true; });
  B("snprintf") { u64 d = C64(s, ARG(0)), n = C64(s, ARG(1)); std::string fm = readStr(s, C64(s, ARG(2))); auto va = vaArgs(f, in, 3); size_t k = 0; std::string r = doFormat(s, fm, [&](char) { if(k >= va.size()) unsup("format args"); return va[k++]; }); setRes(f, in, writeFormatted(s, d, n, r)); return true; });
  B("sprintf") { u64 d = C64(s, ARG(0)); std::string fm = readStr(s, C64(s, ARG(1))); auto va = vaArgs(f, in, 2); size_t k = 0; std::string r = doFormat(s, fm, [&](char) { if(k >= va.size()) unsup("format args"); return va[k++]; }); setRes(f, in, writeFormatted(s, d, r.size() + 1, r)); return true; });
  B("vsnprintf") { u64 d = C64(s, ARG(0)), n = C64(s, ARG(1)); std::string fm = readStr(s, C64(s, ARG(2))); std::string r = doFormat(s, fm, vaListReader(s, C64(s, ARG(3)))); setRes(f, in, writeFormatted(s, d, n, r)); return true; });
  B("bsx_strtod") { std::string t = readStr(s, C64(s, ARG(0))); u64 p = C64(s, ARG(0)), e = C64(s, ARG(1)); for(size_t i = 0; i < t.size(); ++i) t[i] = (char)concretize(s, loadScalar(s, Val(64, p + i), 1)); char* end; double d = strtod(t.c_str(), &end); u64 x; memcpy(&x, &d, 8); if(e) storeScalar(s, Val(64, e), Val(64, p + (end - t.c_str())), 8); setRes(f, in, Val(64, x)); return true; });
  B("time") { setRes(f, in, Val(64, 1600000000)); return true; });
  B("clock_gettime") { u64 p = C64(s, ARG(1)); storeScalar(s, Val(64, p), Val(64, 1000), 8); storeScalar(s, Val(64, p + 8), Val(64, 0), 8); setRes(f, in, Val(32, 0)); return true; });
  B("sched_yield") { setRes(f, in, Val(32, 0)); Frame& fr = s.th[s.cur].st.back(); if(in.op == Instruction::Invoke) gotoBB(fr, in.a); else ++fr.ip; yieldPoint(s, true, true); return false; });
  g_bidx["pthread_yield"] = g_bidx["sched_yield"];
  B("nanosleep") { setRes(f, in, Val(32, 0)); Frame& fr = s.th[s.cur].st.back(); if(in.op == Instruction::Invoke) gotoBB(fr, in.a); else ++fr.ip; yieldPoint(s, true, true); return false; });
  B("llvm.x86.sse2.pause") { Frame& fr = s.th[s.cur].st.back(); ++fr.ip; yieldPoint(s, true, true); return false; });
  B("pthread_self") { setRes(f, in, Val(64, 0x1000 + s.cur)); return true; });
  // ---- intrinsics
  for(const char* n : { "llvm.lifetime.start", "llvm.lifetime.end", "llvm.dbg", "llvm.assume", "llvm.prefetch", "llvm.donothing", "llvm.va_end", "llvm.stackrestore", "llvm.invariant.start", "llvm.invariant.end", "llvm.experimental.noalias.scope.decl", "llvm.x86.sse2.mfence", "llvm.x86.sse.sfence", "llvm.x86.sse2.lfence", "llvm.x86.sse.ldmxcsr" }) reg(n, [](State&, Frame& f, II& in) -> bool { if(in.dst >= 0) setRes(f, in, Val(64, 0)); return true; });
  for(const char* n : { "llvm.expect", "llvm.launder.invariant.group", "llvm.strip.invariant.group", "llvm.ptr.annotation", "llvm.threadlocal.address" }) reg(n, [](State& s, Frame& f, II& in) -> bool { setRes(f, in, ARG(0)); return true; });
  B("llvm.stacksave") { setRes(f, in, Val(64, 0)); return true; });
  B("llvm.is.constant") { setRes(f, in, Val(1, 0)); return true; });
  B("llvm.objectsize") { setRes(f, in, Val(in.w, maskw(in.w))); return true; });
  B("llvm.threadlocal.address") { const Value* g = cast<CallBase>(in.I)->getArgOperand(0); setRes(f, in, Val(64, tlsAddr(s, cast<GlobalVariable>(g)))); return true; });
  B("llvm.va_start") { Thread& t = s.th[s.cur]; u64 ap = C64(s, ARG(0)); u64 n = 0; for(auto& v : f.va) n += (v.w > 64 ? 16 : 8); u64 a = stackAlloc(s, t, n ? n : 8, 16, in.I), p = a; for(auto& v : f.va) { Val x = v; if(x.agg) unsup("aggregate vararg"); if(x.w < 64) x = vZext(x, 64); storeScalar(s, Val(64, p), x.w > 64 ? vZext(x, 128) : x, x.w > 64 ? 16 : 8); p += x.w > 64 ? 16 : 8; }
    storeScalar(s, Val(64, ap), Val(32, 48), 4); storeScalar(s, Val(64, ap + 4), Val(32, 304), 4); storeScalar(s, Val(64, ap + 8), Val(64, a), 8); storeScalar(s, Val(64, ap + 16), Val(64, 0), 8); return true; });
  B("llvm.va_copy") { memCopy(s, C64(s, ARG(0)), C64(s, ARG(1)), 24); return true; });
  auto un = [&](const char* n, Val (*fn)(const Val&)) { reg(n, [fn](State& s, Frame& f, II& in) -> bool { setRes(f, in, mapVec(ARG(0), fn)); return true; }); };
  un("llvm.ctpop", ctpopV); un("llvm.ctlz", ctlzV); un("llvm.cttz", cttzV); un("llvm.fabs", fabsV); un("fabs", fabsV); un("fabsf", fabsV);
  un("llvm.bswap", [](const Val& a) { Val r; for(unsigned i = 0; i < a.w / 8; ++i) { Val b = vExtract(a, 8 * i, 8); r = i ? vConcat(r, b) : b; } return r; });
  un("llvm.bitreverse", [](const Val& a) { Val r; for(unsigned i = 0; i < a.w; ++i) { Val b = vExtract(a, i, 1); r = i ? vConcat(r, b) : b; } return r; });
  un("llvm.abs", [](const Val& a) { return vIte(vCmp(O_SLT, a, Val(a.w, 0)), vBin(O_SUB, Val(a.w, 0), a), a); });
  un("abs", [](const Val& a) { return vIte(vCmp(O_SLT, a, Val(a.w, 0)), vBin(O_SUB, Val(a.w, 0), a), a); }); un("labs", [](const Val& a) { return vIte(vCmp(O_SLT, a, Val(a.w, 0)), vBin(O_SUB, Val(a.w, 0), a), a); }); un("llabs", [](const Val& a) { return vIte(vCmp(O_SLT, a, Val(a.w, 0)), vBin(O_SUB, Val(a.w, 0), a), a); });
  un("llvm.sqrt", [](const Val& a) { return vF(O_FSQRT, a.w, a); }); un("sqrt", [](const Val& a) { return vF(O_FSQRT, a.w, a); }); un("sqrtf", [](const Val& a) { return vF(O_FSQRT, a.w, a); });
  un("tolower", [](const Val& a) { Val u = vBin(O_AND, vCmp(O_SLE, Val(32, 'A'), a), vCmp(O_SLE, a, Val(32, 'Z'))); return vIte(u, vBin(O_ADD, a, Val(32, 32)), a); });
  un("toupper", [](const Val& a) { Val u = vBin(O_AND, vCmp(O_SLE, Val(32, 'a'), a), vCmp(O_SLE, a, Val(32, 'z'))); return vIte(u, vBin(O_SUB, a, Val(32, 32)), a); });
  regInt2("llvm.umin", [](const Val& a, const Val& b) { return vIte(vCmp(O_ULT, a, b), a, b); }); regInt2("llvm.umax", [](const Val& a, const Val& b) { return vIte(vCmp(O_ULT, a, b), b, a); });
  regInt2("llvm.smin", [](const Val& a, const Val& b) { return vIte(vCmp(O_SLT, a, b), a, b); }); regInt2("llvm.smax", [](const Val& a, const Val& b) { return vIte(vCmp(O_SLT, a, b), b, a); });
  regInt2("llvm.uadd.with.overflow", [](const Val& a, const Val& b) { return ovfAdd(a, b, false, false); }); regInt2("llvm.sadd.with.overflow", [](const Val& a, const Val& b) { return ovfAdd(a, b, false, true); });
  regInt2("llvm.usub.with.overflow", [](const Val& a, const Val& b) { return ovfAdd(a, b, true, false); }); regInt2("llvm.ssub.with.overflow", [](const Val& a, const Val& b) { return ovfAdd(a, b, true, true); });
  regInt2("llvm.umul.with.overflow", [](const Val& a, const Val& b) { return ovfMul(a, b, false); }); regInt2("llvm.smul.with.overflow", [](const Val& a, const Val& b) { return ovfMul(a, b, true); });
  regInt2("llvm.usub.sat", [](const Val& a, const Val& b) { return vIte(vCmp(O_ULT, a, b), Val(a.w, 0), vBin(O_SUB, a, b)); }); regInt2("llvm.uadd.sat", [](const Val& a, const Val& b) { Val r = vBin(O_ADD, a, b); return vIte(vCmp(O_ULT, r, a), Val(a.w, maskw(a.w)), r); });
  regInt2("llvm.copysign", [](const Val& a, const Val& b) { return vConcat(vExtract(b, b.w - 1, 1), vExtract(a, 0, a.w - 1)); }); g_bidx["copysign"] = g_bidx["copysignf"] = g_bidx["llvm.copysign"];
  auto fmx = [](bool mx) { return [mx](const Val& a, const Val& b) { Val nanA = vF(O_FUNO, 1, a, &a), nanB = vF(O_FUNO, 1, b, &b); Val lt = mx ? vF(O_FLT, 1, a, &b) : vF(O_FLT, 1, b, &a); return vIte(nanA, b, vIte(nanB, a, vIte(lt, b, a))); }; };
  regInt2("fmax", fmx(true)); regInt2("fmaxf", fmx(true)); regInt2("fmin", fmx(false)); regInt2("fminf", fmx(false)); regInt2("llvm.maxnum", fmx(true)); regInt2("llvm.minnum", fmx(false));
  auto fsh = [&](const char* n, bool left) { reg(n, [left](State& s, Frame& f, II& in) -> bool { Val a = ARG(0), b = ARG(1), c = ARG(2); unsigned w = a.w; if(w > 64 || (w & (w - 1))) unsup("fsh"); Val sh = vZext(vBin(O_AND, c, Val(w, w - 1)), 2 * w); Val x = vConcat(a, b); setRes(f, in, left ? vExtract(vBin(O_SHL, x, sh), w, w) : vExtract(vBin(O_LSHR, x, sh), 0, w)); return true; }); };
  fsh("llvm.fshl", true); fsh("llvm.fshr", false);
  B("llvm.fmuladd") { std::vector<Val> r; const Val &a = ARG(0), &b = ARG(1), &c = ARG(2); if(a.agg) { for(size_t i = 0; i < a.agg->size(); ++i) { Val m = vF(O_FMUL, (*a.agg)[i].w, (*a.agg)[i], &(*b.agg)[i]); r.push_back(vF(O_FADD, m.w, m, &(*c.agg)[i])); } setRes(f, in, mkAgg(r)); } else { Val m = vF(O_FMUL, a.w, a, &b); setRes(f, in, vF(O_FADD, m.w, m, &c)); } return true; });
  // ---- SSE
  auto sseMM = [&](const char* n, bool mx, bool scalar) { reg(n, [mx, scalar](State& s, Frame& f, II& in) -> bool { auto &a = *ARG(0).agg, &b = *ARG(1).agg; std::vector<Val> v; for(size_t i = 0; i < a.size(); ++i) { if(scalar && i) { v.push_back(a[i]); continue; } Val c = mx ? vF(O_FLT, 1, b[i], &a[i]) : vF(O_FLT, 1, a[i], &b[i]); v.push_back(vIte(c, a[i], b[i])); } setRes(f, in, mkAgg(v)); return true; }); };
  sseMM("llvm.x86.sse.max.ps", true, false); sseMM("llvm.x86.sse.min.ps", false, false); sseMM("llvm.x86.sse.max.ss", true, true); sseMM("llvm.x86.sse.min.ss", false, true); sseMM("llvm.x86.sse2.max.pd", true, false); sseMM("llvm.x86.sse2.min.pd", false, false); sseMM("llvm.x86.sse2.max.sd", true, true); sseMM("llvm.x86.sse2.min.sd", false, true);
  for(const char* n : { "llvm.x86.sse.cvtss2si", "llvm.x86.sse2.cvtsd2si", "llvm.x86.sse.cvtss2si64", "llvm.x86.sse2.cvtsd2si64" }) reg(n, [](State& s, Frame& f, II& in) -> bool { setRes(f, in, vF(O_FTOSI_RNE, in.w, (*ARG(0).agg)[0])); return true; });
  for(const char* n : { "llvm.x86.sse.cvttss2si", "llvm.x86.sse2.cvttsd2si", "llvm.x86.sse.cvttss2si64", "llvm.x86.sse2.cvttsd2si64" }) reg(n, [](State& s, Frame& f, II& in) -> bool { setRes(f, in, vF(O_FTOSI, in.w, (*ARG(0).agg)[0])); return true; });
  B("llvm.x86.sse2.cvtps2dq") { setRes(f, in, mapVec(ARG(0), [](const Val& a) { return vF(O_FTOSI_RNE, 32, a); })); return true; });
  B("llvm.x86.sse2.cvttps2dq") { setRes(f, in, mapVec(ARG(0), [](const Val& a) { return vF(O_FTOSI, 32, a); })); return true; });
  B("llvm.x86.sse.movmsk.ps") { auto& a = *ARG(0).agg; Val r(32, 0); for(size_t i = 0; i < a.size(); ++i) r = vBin(O_OR, r, vBin(O_SHL, vZext(vExtract(a[i], a[i].w - 1, 1), 32), Val(32, i))); setRes(f, in, r); return true; });
  g_bidx["llvm.x86.sse2.movmsk.pd"] = g_bidx["llvm.x86.sse2.pmovmskb.128"] = g_bidx["llvm.x86.sse.movmsk.ps"];
  auto cmpS = [&](const char* n, bool scalar) { reg(n, [scalar](State& s, Frame& f, II& in) -> bool { auto &a = *ARG(0).agg, &b = *ARG(1).agg; u64 p = (u64)ARG(2).c & 7; std::vector<Val> v; for(size_t i = 0; i < a.size(); ++i) { if(scalar && i) { v.push_back(a[i]); continue; } static const unsigned pr[8] = { CmpInst::FCMP_OEQ, CmpInst::FCMP_OLT, CmpInst::FCMP_OLE, CmpInst::FCMP_UNO, CmpInst::FCMP_UNE, CmpInst::FCMP_UGE, CmpInst::FCMP_UGT, CmpInst::FCMP_ORD }; v.push_back(vSext(fcmpV(pr[p], a[i], b[i]), a[i].w)); } setRes(f, in, mkAgg(v)); return true; }); };
  cmpS("llvm.x86.sse.cmp.ps", false); cmpS("llvm.x86.sse.cmp.ss", true); cmpS("llvm.x86.sse2.cmp.pd", false); cmpS("llvm.x86.sse2.cmp.sd", true);
  // ---- libm
  regRound("floor", 0); regRound("ceil", 1); regRound("trunc", 2); regRound("rint", 3); regRound("nearbyint", 3); regRound("round", 4);
  regM1("sin", sin); regM1("cos", cos); regM1("tan", tan); regM1("asin", asin); regM1("acos", acos); regM1("atan", atan); regM1("exp", exp); regM1("log", log); regM1("log2", log2); regM1("log10", log10); regM1("exp2", exp2); regM1("cbrt", cbrt); regM1("sinh", sinh); regM1("cosh", cosh); regM1("tanh", tanh);
  regM2("pow", pow); regM2("atan2", atan2); regM2("fmod", fmod); regM2("hypot", hypot); regM2("nextafter", nextafter);
  for(const char* n : { "sin", "cos", "exp", "log", "log2", "log10", "exp2", "pow" }) { int d = g_bidx[n], sgl = g_bidx[std::string(n) + "f"]; g_bidx[std::string("llvm.") + n + ".f64"] = d; g_bidx[std::string("llvm.") + n + ".f32"] = sgl; }
  for(const char* n : { "llvm.log.f80", "logl" }) reg(n, [](State& s, Frame& f, II& in) -> bool { const Val& v = ARG(0); if(v.e) unsup("libm on symbolic value"); long double d = 0; u128 x = v.c; memcpy(&d, &x, 10); d = logl(d); x = 0; memcpy(&x, &d, 10); setRes(f, in, Val(80, x)); return true; });
  B("__isnan") { setRes(f, in, vZext(vF(O_FUNO, 1, ARG(0), &ARG(0)), 32)); return true; });
  B("llvm.is.fpclass") { Val a = ARG(0); u64 m = (u64)ARG(1).c; if(m == 3) setRes(f, in, vF(O_FUNO, 1, a, &a)); else if(m == 0x204) { Val i = a.w == 32 ? Val(32, 0x7f800000) : Val(64, 0x7ff0000000000000ULL); setRes(f, in, vCmp(O_EQ, fabsV(a), i)); } else if(m == 0x1f8) { Val i = a.w == 32 ? Val(32, 0x7f800000) : Val(64, 0x7ff0000000000000ULL); setRes(f, in, vCmp(O_ULT, fabsV(a), i)); } else unsup("fpclass"); return true; });
  B("__errno_location") { Thread& t = s.th[s.cur]; static const GlobalVariable* key = nullptr; auto it = t.tls.find(key); if(it == t.tls.end()) { u64 a = heapAlloc(s, 8, 16, K_HEAP, in.I, false); s.liveObjs--; s.liveBytes -= 8; t.tls[key] = a; setRes(f, in, Val(64, a)); } else setRes(f, in, Val(64, it->second)); return true; });
}

// ---------------------------------------------------------------- globals
static void initGlobal(State& s, u64 base, const Constant* c) {
  Type* t = c->getType();
  if(isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if(auto cd = dyn_cast<ConstantDataSequential>(c)) { StringRef d = cd->getRawDataValues(); Ref r; const Obj* o = lookup(s, base, r); Bytes& b = wbytes(s, r); memcpy(&b.c[base - o->base], d.data(), d.size()); return; }
  if(auto st = dyn_cast<StructType>(t)) { if(!isa<ConstantAggregate>(c)) unsup("global init"); auto L = g_DL->getStructLayout(st); for(unsigned i = 0; i < st->getNumElements(); ++i) initGlobal(s, base + L->getElementOffset(i), cast<Constant>(c->getOperand(i))); return; }
  if(isa<ArrayType>(t) || isa<FixedVectorType>(t)) { Type* et = isa<ArrayType>(t) ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType(); u64 sz = g_DL->getTypeAllocSize(et); for(unsigned i = 0; i < c->getNumOperands(); ++i) initGlobal(s, base + i * sz, cast<Constant>(c->getOperand(i))); return; }
  Val v = constVal(c); unsigned n = (v.w + 7) / 8; Ref r; const Obj* o = lookup(s, base, r); if(v.w != 8 * n) v = vZext(v, 8 * n); writeN(s, r, base - o->base, v, n);
}
static u64 tlsAddr(State& s, const GlobalVariable* g) {
  if(!g->isThreadLocal()) return g_addr[g];
  Thread& t = s.th[s.cur]; auto it = t.tls.find(g); if(it != t.tls.end()) return it->second;
  u64 sz = g_DL->getTypeAllocSize(g->getValueType()); u64 a = heapAlloc(s, sz, 16, K_HEAP, nullptr, false); s.liveObjs--; s.liveBytes -= sz; t.tls[g] = a;
  if(g->hasInitializer()) initGlobal(s, a, g->getInitializer()); return a;
}

// ---------------------------------------------------------------- exploration
static void runState(StateP sp) {
  State& s = *sp; g_curModel = nullptr;
  try {
    for(;;) {
      Thread& t = s.th[s.cur];
      if(t.status != 0 || t.st.empty()) {
        if(t.st.empty() && t.status == 0) t.status = 1;
        if(s.cur == 0 && t.status == 1) { finishOk(s); return; }
        // wake joiners
        for(auto& x : s.th) if(x.status == 2 && s.th[x.joining].status == 1) { x.status = 0; }
        std::vector<int> run; for(int i = 0; i < (int)s.th.size(); ++i) if(s.th[i].status == 0) run.push_back(i);
        if(run.empty()) viol("deadlock", "no runnable thread");
        s.totalSpin = 0; s.yields++;
        for(size_t i = 1; i < run.size(); ++i) { StateP n = cloneS(s); schedSwitch(*n, run[i], false); g_work.push_back(std::move(n)); } schedSwitch(s, run[0], false); continue;
      }
      step(s);
      if((stInstr & 0xFFFF) == 0) { if(now() > optDeadline || g_sh2->stop || graceOver()) { ++g_unsup["deadline"]; return; } struct rusage ru; getrusage(RUSAGE_SELF, &ru); if((u64)ru.ru_maxrss / 1024 > optMemMB) { ++g_unsup["memory-limit"]; g_sh2->stop = 1; return; } }
      if(s.steps > optMaxSteps) { ++stPathsSteps; if(g_violKey["steplimit"]++ < 3) { g_violJson.push_back("{\"kind\":\"steplimit\",\"msg\":\"path exceeds " + std::to_string(optMaxSteps) + " instructions\",\"where\":" + jesc(backtrace(s)) + ",\"uses_undef\":false,\"undef\":{},\"inputs\":" + inputsJson(s) + ",\"sched\":" + schedJson(s) + "}"); g_sh2->viols++; noteViol(); } return; }
    }
  } catch(PathEnd& e) {
    if(e.kind == "assume") ++stPathsAssume; else if(e.kind == "exit") finishOk(s); else if(e.kind == "violpath") {} else { ++stPathsUnsup; std::string w = backtrace(s); ++g_unsup[e.msg + " @ " + w.substr(0, w.find(" <- "))]; }
  } catch(Violation& v) { reportViolation(s, v.kind, v.msg); }
  catch(std::string& m) { ++stPathsUnsup; ++g_unsup[m]; }
}

static std::vector<pid_t> g_kids;
static void writeOut() {
  std::string p = optOut + "/w." + std::to_string(getpid()) + ".json"; FILE* fo = fopen(p.c_str(), "w"); if(!fo) return;
  auto mp = [&](const char* n, std::map<std::string, u64>& m) { fprintf(fo, "\"%s\":{", n); bool f = true; for(auto& k : m) { fprintf(fo, "%s%s:%llu", f ? "" : ",", jesc(k.first).c_str(), (unsigned long long)k.second); f = false; } fprintf(fo, "}"); };
  fprintf(fo, "{\"instr\":%llu,\"forks\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache\":%llu,\"modelhit\":%llu,\"ok\":%llu,\"assume\":%llu,\"steps\":%llu,\"unsup\":%llu,\"viol\":%llu,\"undef\":%llu,\"cross\":%llu,\"order\":%llu,\"solver_s\":%.4f,",
    (unsigned long long)stInstr, (unsigned long long)stForks, (unsigned long long)stQueries, (unsigned long long)stQSat, (unsigned long long)stQUnsat, (unsigned long long)stQUnk, (unsigned long long)stCacheHit, (unsigned long long)stModelHit, (unsigned long long)stPathsOk, (unsigned long long)stPathsAssume, (unsigned long long)stPathsSteps, (unsigned long long)stPathsUnsup, (unsigned long long)stPathsViol, (unsigned long long)stUndefReads, (unsigned long long)stCross, (unsigned long long)stOrder, stSolver);
  mp("incomplete", g_unsup); fprintf(fo, ","); mp("covers", g_cov); fprintf(fo, ","); mp("externals", g_ext); fprintf(fo, ",\"functions\":["); bool f = true; for(auto& x : g_hitFns) { fprintf(fo, "%s%s", f ? "" : ",", jesc(x).c_str()); f = false; }
  fprintf(fo, "],\"violations\":["); f = true; for(auto& x : g_violJson) { fprintf(fo, "%s%s", f ? "" : ",", x.c_str()); f = false; } fprintf(fo, "],\"samples\":["); f = true; for(auto& x : g_sampleJson) { fprintf(fo, "%s%s", f ? "" : ",", x.c_str()); f = false; } fprintf(fo, "]}\n"); fclose(fo);
}
static void resetStats() { stInstr = stForks = stQueries = stQSat = stQUnsat = stQUnk = stCacheHit = stModelHit = stPathsOk = stPathsAssume = stPathsSteps = stPathsUnsup = stPathsViol = stUndefReads = stCross = stOrder = 0; stSolver = 0; g_unsup.clear(); g_hitFns.clear(); g_cov.clear(); g_ext.clear(); g_violJson.clear(); g_sampleJson.clear(); for(auto& p : g_fn) if(p.second) p.second->hit = false; }

static bool takeToken() { int c = g_sh->tokens.load(); while(c > 0) if(g_sh->tokens.compare_exchange_weak(c, c - 1)) return true; return false; }
static void explore() {
  bool child = false; u64 iter = 0; double lastFork = 0;
  while(!g_work.empty()) {
    if(now() > optDeadline || g_sh2->stop || graceOver() || g_sh2->viols.load() > optMaxViol) { g_unsup[g_sh2->viols.load() ? "stopped-after-violations" : "deadline"] += g_work.size(); break; }
    ++iter; double tn = now();
    if(g_work.size() >= 2 && tn - g_t0 > 0.15 && tn - lastFork > 0.03 && takeToken()) {
      lastFork = tn; pid_t p = fork();
      if(p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); // child: takes every other state from the bottom (largest subtrees)
        child = true; g_kids.clear(); resetStats(); std::vector<StateP> mine; for(size_t i = 0; i < g_work.size(); i += 2) mine.push_back(std::move(g_work[i])); g_work = std::move(mine);
      } else if(p > 0) { std::vector<StateP> mine; for(size_t i = 1; i < g_work.size(); i += 2) mine.push_back(std::move(g_work[i])); g_work = std::move(mine); g_kids.push_back(p); }
      else g_sh->tokens++;
      if(g_work.empty()) break;
    }
    for(size_t i = 0; i < g_kids.size();) { int st; if(waitpid(g_kids[i], &st, WNOHANG) == g_kids[i]) { if(!WIFEXITED(st) || WEXITSTATUS(st)) ++g_unsup["worker-crash"]; g_kids.erase(g_kids.begin() + i); } else ++i; }
    StateP s = std::move(g_work.back()); g_work.pop_back(); runState(std::move(s));
  }
  g_work.clear();
  if(child) g_sh->tokens++;
  writeOut();
  for(auto k : g_kids) { int st; waitpid(k, &st, 0); if(!WIFEXITED(st) || WEXITSTATUS(st)) ++g_unsup["worker-crash"]; }
  writeOut();
  if(child) _exit(0);
}

// ---------------------------------------------------------------- instrumentation (threads): call __bsx_yield(ptr) before every shared-memory access
// Inline bit-test-and-set/-reset becomes plain IR first: without a lock prefix it is a read and a separate write; without a size suffix an immediate
// operand ("i" among its constraints, which optimising compilers use) assembles to the 32-bit form, whose bit number wraps at 32.
static void lowerAsm(Module& M) {
  for(auto& F : M) { std::vector<CallBase*> as; for(auto& BB : F) for(auto& I : BB) if(auto cb = dyn_cast<CallBase>(&I)) if(cb->isInlineAsm()) as.push_back(cb);
    for(auto cb : as) { auto ia = cast<InlineAsm>(cb->getCalledOperand()); std::string a = ia->getAsmString(), c = ia->getConstraintString();
      size_t m = a.find("bts"); bool set = m != std::string::npos; if(!set) m = a.find("btr"); bool bt = m != std::string::npos, xa = !bt && a.find("xadd") != std::string::npos; bool lock = a.find("lock") != std::string::npos;
      if(!bt && !(xa && !lock)) continue;
      int pi = -1, ri = -1; std::vector<int> vi; for(unsigned i = 0; i < cb->arg_size(); ++i) { if(cb->getArgOperand(i)->getType()->isPointerTy() && cb->paramHasAttr(i, Attribute::ElementType)) { if(pi < 0) pi = i; else if(ri < 0) ri = i; } else vi.push_back(i); }
      if(pi < 0 || vi.empty()) continue; Type* ty = cb->getParamElementType(pi); if(!ty->isIntegerTy() || (!xa && ty->getIntegerBitWidth() < 16)) continue; unsigned w = ty->getIntegerBitWidth(), e = w; IRBuilder<> b(cb); Value* p = cb->getArgOperand(pi); Value* v = cb->getArgOperand(vi[0]); if(v->getType() != ty) { if(!v->getType()->isIntegerTy()) continue; v = b.CreateZExtOrTrunc(v, ty); }
      Align al(w / 8); if(xa) { if(cb->getType() != ty) continue; Value* o = b.CreateAlignedLoad(ty, p, al); b.CreateAlignedStore(b.CreateAdd(o, v), p, al); cb->replaceAllUsesWith(o); cb->eraseFromParent(); continue; }
      if(cb->getType()->isVoidTy() && (ri < 0 || !cb->getParamElementType(ri)->isIntegerTy())) continue; if(!cb->getType()->isVoidTy() && !cb->getType()->isIntegerTy()) continue;
      char sfx = m + 3 < a.size() ? a[m + 3] : ' '; if(sfx == 'l') e = 32; else if(sfx == 'q') e = 64; else if(sfx == 'w') e = 16; else { std::string k; size_t q = 0; std::vector<std::string> cs; while(q <= c.size()) { size_t z = c.find(',', q); if(z == std::string::npos) z = c.size(); cs.push_back(c.substr(q, z - q)); q = z + 1; } bool imm = false; for(auto& x : cs) if(!x.empty() && x[0] != '=' && x[0] != '~' && x[0] != '*' && x[0] != '+') imm |= x.find_first_of("iInJ") != std::string::npos; if(imm && w == 64) e = 32; }
      if(e > w) e = w; v = b.CreateAnd(v, ConstantInt::get(ty, e - 1)); Value* bit = b.CreateShl(ConstantInt::get(ty, 1), v); Value* o;
      if(lock) o = b.CreateAtomicRMW(set ? AtomicRMWInst::Or : AtomicRMWInst::And, p, set ? bit : b.CreateNot(bit), al, AtomicOrdering::SequentiallyConsistent);
      else { o = b.CreateAlignedLoad(ty, p, al); b.CreateAlignedStore(set ? b.CreateOr(o, bit) : b.CreateAnd(o, b.CreateNot(bit)), p, al); }
      Value* was = b.CreateTrunc(b.CreateLShr(o, v), Type::getInt1Ty(M.getContext()));
      if(cb->getType()->isVoidTy()) b.CreateStore(b.CreateZExt(was, cb->getParamElementType(ri)), cb->getArgOperand(ri)); else cb->replaceAllUsesWith(b.CreateZExt(was, cb->getType()));
      cb->eraseFromParent(); } }
}
static int instrument(Module& M, const std::string& out) {
  lowerAsm(M); auto& C = M.getContext(); FunctionCallee y = M.getOrInsertFunction("__bsx_yield", Type::getVoidTy(C), PointerType::getUnqual(C)); u64 n = 0;
  for(auto& F : M) {
    if(F.isDeclaration() || F.getName().starts_with("bsx_") || F.getName().starts_with("rt_") || F.getName().starts_with("_GLOBAL__") || F.getName().starts_with("__cxx_global")) continue;
    if(F.getSection() == ".bsx_noyield") continue;
    std::vector<Instruction*> pts;
    for(auto& BB : F) for(auto& I : BB) {
      Value* p = nullptr; if(auto l = dyn_cast<LoadInst>(&I)) p = l->getPointerOperand(); else if(auto st = dyn_cast<StoreInst>(&I)) p = st->getPointerOperand(); else if(isa<AtomicRMWInst>(&I) || isa<AtomicCmpXchgInst>(&I)) p = I.getOperand(0);
      else if(auto cb = dyn_cast<CallBase>(&I)) if(cb->isInlineAsm()) { for(auto& a : cb->args()) if(a->getType()->isPointerTy()) p = a; }
      if(!p) continue; Value* b = p->stripInBoundsOffsets(); if(isa<AllocaInst>(b)) continue; if(auto g = dyn_cast<GlobalVariable>(b)) if(g->isConstant()) continue;
      pts.push_back(&I);
    }
    for(auto I : pts) { Value* p = nullptr; if(auto l = dyn_cast<LoadInst>(I)) p = l->getPointerOperand(); else if(auto st = dyn_cast<StoreInst>(I)) p = st->getPointerOperand(); else if(isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) p = I->getOperand(0); else for(auto& a : cast<CallBase>(I)->args()) if(a->getType()->isPointerTy()) p = a; IRBuilder<> bld(I); bld.CreateCall(y, { p }); ++n; }
  }
  std::error_code ec; raw_fd_ostream o(out, ec); WriteBitcodeToFile(M, o); return 0;
}

int main(int argc, char** argv) {
  { struct rlimit rl; getrlimit(RLIMIT_STACK, &rl); if(rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ULL << 31) && !getenv("BSX_RE")) { rlim_t want = 4ULL << 30; if(rl.rlim_max != RLIM_INFINITY && want > rl.rlim_max) want = rl.rlim_max; rl.rlim_cur = want; setrlimit(RLIMIT_STACK, &rl); setenv("BSX_RE", "1", 1); execv("/proc/self/exe", argv); } }
  std::string in, tok, instr; double tmo = 1e9; std::string entry = "main";
  for(int i = 1; i < argc; ++i) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if(a == "--out") optOut = nx(); else if(a == "--tokens") tok = nx(); else if(a == "--timeout") tmo = atof(nx().c_str()); else if(a == "--steps") optMaxSteps = strtoull(nx().c_str(), 0, 10); else if(a == "--preempt") optPreempt = atoi(nx().c_str()); else if(a == "--spin") optSpin = atoi(nx().c_str());
    else if(a == "--instrument") instr = nx(); else if(a == "--samples") optSample = strtoull(nx().c_str(), 0, 10); else if(a == "--repo") optRepoPrefix.push_back(nx()); else if(a == "--maxviol") optMaxViol = strtoull(nx().c_str(), 0, 10); else if(a == "--rlimit") optRlimit2 = strtoull(nx().c_str(), 0, 10); else if(a == "--mem") optMemMB = strtoull(nx().c_str(), 0, 10); else if(a == "--itemax") optIteMax = strtoull(nx().c_str(), 0, 10); else if(a == "--reset") optReset = strtoull(nx().c_str(), 0, 10); else if(a == "--depth") optMaxDepth = atoi(nx().c_str()); else in = a; }
  LLVMContext ctx; SMDiagnostic err; auto M = parseIRFile(in, err, ctx); if(!M) { err.print("bsx", errs()); return 3; }
  if(!instr.empty()) return instrument(*M, instr);
  g_M = M.get(); DataLayout DL(M.get()); g_DL = &DL; g_t0 = now(); optDeadline = g_t0 + tmo;
  if(tok.empty()) { g_sh = (Shared*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); g_sh->tokens = 0; if(const char* j = getenv("BSX_J")) g_sh->tokens = atoi(j); }
  else { int fd = open(tok.c_str(), O_RDWR); if(fd < 0) { perror("tokens"); return 3; } g_sh = (Shared*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); }
  g_sh2 = (Shared2*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  Z3_config cfg = Z3_mk_config(); g_z3 = Z3_mk_context_rc(cfg); Z3_set_error_handler(g_z3, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); throw std::string("z3 error"); });
  regBuiltins();
  StateP s(new State); s->model = std::make_shared<Model>(); Thread t; t.sp = SBASE + 0x1000; s->th.push_back(t);
  u64 fa = FBASE; for(auto& F : *M) { g_addr[&F] = fa; g_fnByAddr[fa] = &F; fa += 16; }
  u64 ga = GBASE; try {
  for(auto& G : M->globals()) { u64 sz = G.getValueType()->isSized() ? (u64)DL.getTypeAllocSize(G.getValueType()) : 8; if(!G.hasInitializer() && sz < 64) sz = 64; u64 al = std::max<u64>(16, G.getAlign() ? G.getAlign()->value() : 1); ga = alignUp(ga + 32, al); g_addr[&G] = ga; g_gvByAddr[ga] = &G; Obj o = mkObj(*s, ga, sz, K_GLOBAL, nullptr, false); s->glob.push(o); ga += sz; }
  for(auto& G : M->globals()) if(G.hasInitializer()) { initGlobal(*s, g_addr[&G], G.getInitializer()); }
  for(size_t i = 0; i < s->glob.n; ++i) { auto g = g_gvByAddr[s->glob.get(i).base]; if(g->isConstant() && g->hasInitializer()) s->glob.at(i).kind = K_CONST; }
  } catch(PathEnd& e) { fprintf(stderr, "bsx: global init: %s\n", e.msg.c_str()); return 3; }
  Function* mainF = M->getFunction("main"); if(!mainF) { fprintf(stderr, "no main\n"); return 3; }
  try { // constructors run first: push main then constructors above it in reverse order
    pushFrame(*s, s->th[0], mainF, { Val(32, 1), Val(64, 0), Val(64, 0) }, nullptr, -1);
    if(auto gc = M->getGlobalVariable("llvm.global_ctors")) if(gc->hasInitializer()) if(auto ca = dyn_cast<ConstantArray>(gc->getInitializer())) { std::vector<std::pair<u64, Function*>> v; for(unsigned i = 0; i < ca->getNumOperands(); ++i) { auto cs = cast<ConstantStruct>(ca->getOperand(i)); if(auto fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({ cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn }); } std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; }); for(size_t i = v.size(); i-- > 0;) pushFrame(*s, s->th[0], v[i].second, {}, nullptr, -1); }
  } catch(PathEnd& e) { fprintf(stderr, "bsx: init: %s\n", e.msg.c_str()); return 3; }
  g_work.push_back(std::move(s)); explore(); return 0;
}
