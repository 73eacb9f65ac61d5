// Symbolic executor for LLVM bitcode.
#include <sys/resource.h>
#include <unistd.h>
#include "exec.hpp"
#include "ksprim.h"
#include "prove.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Analysis/PostDominators.h>
#include <chrono>
#include <algorithm>
#include <cstring>
#include <cstdarg>
#include <unistd.h>
using namespace llvm;

static LLVMContext ctx; static std::unique_ptr<Module> mod; static const DataLayout* DL;
static std::vector<Fn*> fns; static std::map<const Function*, int> fnIdx; static std::map<const GlobalVariable*, u64> gaddr;
static std::vector<std::string> locs; static std::map<std::string, int> locIdx;
static std::map<std::string, long long> params;
static std::vector<Violation> violations; static std::map<std::string, u64> covers; static std::map<std::string, std::string> notes;
static u64 nForks = 0, nPaths = 0, nIns = 0, nOblig = 0, nTrivial = 0, nSolver = 0, nSweepEq = 0, nMerge = 0, nLaneCex = 0, nEqBytes = 0;
static std::vector<std::string> problems; // inconclusive reasons
static u64 maxIns = 2000000000ull; static double tStart, tLimit = 600;
static bool optCanon = true; static bool optUB = false, optWipe = false, optUninit = true; static int symw = 1; static bool symBE = true;
static bool optGlobal = false;
static int qTimeout = 20000; static std::vector<Ob> pending; static u32 globalsEnd = 0; static bool stopOnViolation = true;
static u64 nWipeChecked = 0, nWipeBytes = 0, nMem = 0, nAllocFail = 0;
static bool finished = false;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
struct Abort { std::string why; };
[[noreturn]] static void giveUp(const std::string& why) { throw Abort{why}; }

static const u64 OFF0 = 0x10000000ull;
static u64 heapAddr(u32 i) { return ((u64)(i + 1) << 32) | OFF0; }
// regions of which only the first bytes are modelled (ks_edge) lie 64 GiB apart
static const u64 EDGE = 0x2000000000000000ull;
static u64 edgeAddr(u32 i) { return EDGE | ((u64)(i + 1) << 36) | OFF0; }
static u64 stackAddr(u32 i) { return ((u64)(i + 1) << 32) | OFF0 | 0x4000000000000000ull; }
static const u64 FNBASE = 0x7F00000000000000ull;

static int locOf(const Instruction* I) {
  std::string s;
  if (const DebugLoc& d = I->getDebugLoc()) { s = d->getFilename().str() + ":" + std::to_string(d->getLine()); }
  else s = I->getFunction()->getName().str();
  auto it = locIdx.find(s); if (it != locIdx.end()) return it->second;
  locs.push_back(s); return locIdx[s] = locs.size() - 1;
}

// ------------------------------------------------------------------ compilation
static bool isLibFile(const Function* F) {
  if (auto* sp = F->getSubprogram()) { std::string f = sp->getFilename().str(); if (sp->getFile()) f = (sp->getDirectory() + "/" + sp->getFilename()).str(); return f.find("/verif/") == std::string::npos && f.find("harness/") == std::string::npos && f.find("/ref/") == std::string::npos && f.find("ref/") != 0; }
  return true;
}
static T constTerm(const Constant* C, u64* off = nullptr);
static u64 constAddr(const Constant* C) {
  if (isa<ConstantPointerNull>(C)) return 0;
  if (auto* F = dyn_cast<Function>(C)) { auto it = fnIdx.find(F); if (it == fnIdx.end()) giveUp("address of unknown function"); return FNBASE + 16 * it->second; }
  if (auto* G = dyn_cast<GlobalVariable>(C)) { auto it = gaddr.find(G); if (it == gaddr.end()) giveUp("unknown global " + G->getName().str()); return it->second; }
  if (auto* CE = dyn_cast<ConstantExpr>(C)) {
    switch (CE->getOpcode()) {
    case Instruction::GetElementPtr: { APInt o(64, 0); if (!cast<GEPOperator>(CE)->accumulateConstantOffset(*DL, o)) giveUp("constexpr gep"); return constAddr(CE->getOperand(0)) + o.getSExtValue(); }
    case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: return constAddr(CE->getOperand(0));
    case Instruction::Sub: return constAddr(CE->getOperand(0)) - constAddr(CE->getOperand(1));
    case Instruction::Add: return constAddr(CE->getOperand(0)) + constAddr(CE->getOperand(1));
    default: giveUp("constexpr");
    }
  }
  if (auto* CI = dyn_cast<ConstantInt>(C)) return CI->getZExtValue();
  if (isa<GlobalAlias>(C)) return constAddr(cast<GlobalAlias>(C)->getAliasee());
  giveUp("constant address");
}
static unsigned tyBits(Type* t) {
  if (t->isPointerTy()) return 64;
  if (t->isIntegerTy()) { unsigned b = t->getIntegerBitWidth(); if (b > 64) giveUp("integer wider than 64 bits"); return b; }
  if (t->isVoidTy()) return 0;
  return 255; // unsupported (float, vector, aggregate): only an error if executed
}
static T constTerm(const Constant* C, u64*) {
  Type* t = C->getType();
  if (auto* CI = dyn_cast<ConstantInt>(C)) { if (CI->getBitWidth() > 64) giveUp("wide constant"); return mkConst(CI->getZExtValue(), CI->getBitWidth()); }
  if (isa<UndefValue>(C)) { static int n = 0; if (tyBits(t) == 255) return mkConst(0, 8); return mkVar("undef!" + std::to_string(n++), tyBits(t), VF_UNDEF); }
  if (t->isPointerTy() || t->isIntegerTy()) return mkConst(constAddr(C), tyBits(t));
  return nullptr;
}
static int getLoc(const Instruction* I) { return locOf(I); }

static void compileFn(Fn* f) {
  Function* F = (Function*)f->llvm; f->compiled = true;
  std::map<const Value*, int> reg; int nr = 0;
  for (auto& A : F->args()) reg[&A] = nr++;
  f->nargs = nr;
  std::map<const BasicBlock*, int> bbi; int nb = 0;
  for (auto& B : *F) { bbi[&B] = nb++; for (auto& I : B) if (!I.getType()->isVoidTy()) reg[&I] = nr++; }
  f->nregs = nr; f->blocks.resize(nb);
  std::map<const Value*, int> cidx;
  auto opnd = [&](Value* v) -> int {
    auto it = reg.find(v); if (it != reg.end()) return it->second;
    auto c = cidx.find(v); if (c != cidx.end()) return c->second;
    if (auto* C = dyn_cast<Constant>(v)) { T t = nullptr; try { t = constTerm(C); } catch (Abort&) { t = nullptr; } f->consts.push_back(t); return cidx[v] = -(int)f->consts.size(); }
    f->consts.push_back(nullptr); return cidx[v] = -(int)f->consts.size();
  };
  PostDominatorTree pdt(*F);
  for (auto& B : *F) {
    Block& b = f->blocks[bbi[&B]];
    auto* node = pdt.getNode(&B); b.ipdom = -1;
    if (node && node->getIDom() && node->getIDom()->getBlock()) b.ipdom = bbi[node->getIDom()->getBlock()];
    bool haveP = false;
    for (auto& I : B) {
      if (auto* P = dyn_cast<PHINode>(&I)) {
        if (!haveP) { for (unsigned i = 0; i < P->getNumIncomingValues(); i++) b.preds.push_back(bbi[P->getIncomingBlock(i)]); haveP = true; }
        std::vector<int> src; for (int p : b.preds) { int k = -1; for (unsigned i = 0; i < P->getNumIncomingValues(); i++) if (bbi[P->getIncomingBlock(i)] == p) k = i; src.push_back(opnd(P->getIncomingValue(k))); }
        b.phiSrc.push_back(src); b.phiDst.push_back(reg[P]); continue;
      }
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      Ins x; x.opc = I.getOpcode(); x.w = 0; x.pred = 0; x.callee = -1; x.tgt0 = x.tgt1 = -1; x.loc = getLoc(&I);
      x.dst = I.getType()->isVoidTy() ? -1 : reg[&I];
      try { x.w = tyBits(I.getType()); } catch (Abort&) { x.w = 255; }
      switch (I.getOpcode()) {
      case Instruction::Alloca: { auto* A = cast<AllocaInst>(&I); x.imm.push_back(DL->getTypeAllocSize(A->getAllocatedType())); x.ops.push_back(opnd(A->getArraySize())); break; }
      case Instruction::Load: x.ops.push_back(opnd(I.getOperand(0))); x.imm.push_back(DL->getTypeStoreSize(I.getType())); break;
      case Instruction::Store: x.ops.push_back(opnd(I.getOperand(0))); x.ops.push_back(opnd(I.getOperand(1))); x.imm.push_back(DL->getTypeStoreSize(I.getOperand(0)->getType())); break;
      case Instruction::GetElementPtr: {
        auto* G = cast<GetElementPtrInst>(&I); x.ops.push_back(opnd(G->getPointerOperand())); u64 off = 0;
        for (auto gti = gep_type_begin(G), e = gep_type_end(G); gti != e; ++gti) {
          Value* v = gti.getOperand();
          if (StructType* st = gti.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(v)->getZExtValue()); continue; }
          u64 sz = DL->getTypeAllocSize(gti.getIndexedType());
          if (auto* ci = dyn_cast<ConstantInt>(v)) off += sz * ci->getSExtValue();
          else { x.ops.push_back(opnd(v)); x.imm.push_back(sz); }
        }
        x.imm.push_back(off); break; }
      case Instruction::ICmp: x.pred = cast<ICmpInst>(&I)->getPredicate(); x.ops = {opnd(I.getOperand(0)), opnd(I.getOperand(1))}; break;
      case Instruction::Br: { auto* br = cast<BranchInst>(&I); x.tgt0 = bbi[br->getSuccessor(0)]; if (br->isConditional()) { x.tgt1 = bbi[br->getSuccessor(1)]; x.ops.push_back(opnd(br->getCondition())); } break; }
      case Instruction::Switch: { auto* sw = cast<SwitchInst>(&I); x.ops.push_back(opnd(sw->getCondition())); x.tgt0 = bbi[sw->getDefaultDest()]; for (auto& c : sw->cases()) { x.imm.push_back(c.getCaseValue()->getZExtValue()); x.imm.push_back(bbi[c.getCaseSuccessor()]); } break; }
      case Instruction::Ret: if (I.getNumOperands()) x.ops.push_back(opnd(I.getOperand(0))); break;
      case Instruction::Call: {
        auto* c = cast<CallInst>(&I); for (auto& a : c->args()) x.ops.push_back(opnd(a.get()));
        if (c->isInlineAsm()) { x.callee = -2; x.imm.push_back((u64)(uintptr_t)new std::string(cast<InlineAsm>(c->getCalledOperand())->getAsmString())); }
        else if (auto* cf = dyn_cast<Function>(c->getCalledOperand()->stripPointerCastsAndAliases())) { x.callee = fnIdx[cf]; if (auto* ii = dyn_cast<IntrinsicInst>(c)) x.imm.push_back(ii->getIntrinsicID()); }
        else x.ops.insert(x.ops.begin(), opnd(c->getCalledOperand()));
        break; }
      default:
        for (auto& o : I.operands()) if (!isa<BasicBlock>(o.get())) x.ops.push_back(opnd(o.get()));
        if (isa<BinaryOperator>(&I)) if (auto* ov = dyn_cast<OverflowingBinaryOperator>(&I)) x.pred = ov->hasNoSignedWrap();
      }
      b.ins.push_back(x);
    }
  }
}

// ------------------------------------------------------------------ violations and obligations
static bool lanesSat(const std::vector<T>& pc, int l) { for (T c : pc) if (!c->sig[l]) return false; return true; }

static void report(State& s, const std::string& kind, const std::string& msg, const std::string& loc, const std::unordered_map<u32, u64>* model, int lane) {
  Violation v; v.kind = kind; v.msg = msg; v.loc = loc; v.choices = s.choices; v.fromLanes = !model;
  for (auto& vi : g_vars) {
    u64 x; if (model) { auto it = model->find(vi.term->id); x = it == model->end() ? 0 : it->second; } else x = vi.term->sig[lane < 0 ? 0 : lane];
    v.model[vi.name] = x;
  }
  violations.push_back(v);
}
static int probes = getenv("KSYM_PROBE") ? atoi(getenv("KSYM_PROBE")) : 0;
// does the model really falsify cond under pc? (stand-ins for uninterpreted functions)
static bool confirm(const std::vector<T>& pc, T cond, const std::unordered_map<u32, u64>& model) {
  Eval ev; ev.var = [&](T t) -> u64 { auto cd = g_cutDef.find(t->id); if (cd != g_cutDef.end()) return ev(cd->second); auto it = model.find(t->id); return it == model.end() ? 0ull : it->second; };
  for (T c : pc) if (!ev(c)) return false;
  return !ev(cond);
}
T sweepProve(const std::vector<T>& pc, T cond, double budget);

// decide pc => cond. returns 1 proved, 0 violated (reported), -1 unknown
static size_t coneSize(const std::vector<T>& r) { std::set<u32> seen; std::vector<T> st(r.begin(), r.end()); while (!st.empty()) { T t = st.back(); st.pop_back(); if (!seen.insert(t->id).second) continue; for (u32 i = 0; i < t->n; i++) st.push_back(t->args[i]); } return seen.size(); }
static bool usesUF(const std::vector<T>& r) { std::set<u32> seen; std::vector<T> st(r.begin(), r.end()); while (!st.empty()) { T t = st.back(); st.pop_back(); if (!seen.insert(t->id).second) continue; if (t->op == O_UF || t->op == O_PERM) return true; for (u32 i = 0; i < t->n; i++) st.push_back(t->args[i]); } return false; }
static int decide(State& s, const std::vector<T>& pc, T cond, const std::string& kind, const std::string& msg, const std::string& loc) {
  nOblig++;
  if (isTrue(cond)) { nTrivial++; return 1; }
  if (getenv("KSYM_DEBUG")) fprintf(stderr, "[%.1f] obligation %s %s @%s: %s\n", now() - tStart, kind.c_str(), msg.c_str(), loc.c_str(), show(cond, 3).c_str());
  for (int l = 0; l < NL; l++) if (!cond->sig[l] && lanesSat(pc, l)) { nLaneCex++; report(s, kind, msg, loc, nullptr, l); return 0; }
  std::vector<T> q = pc; q.push_back(mkNot(cond));
  size_t cs = coneSize(q);
  std::unordered_map<u32, u64> model;
  nSolver++;
  SatRes r = UNKNOWN;
  if (cs < 30000) r = smtCheck(q, cs < 3000 ? std::min(qTimeout, 8000) : 4000, &model);
  if (r == UNKNOWN && cs > 40) {
    T c2 = sweepProve(pc, cond, std::min(200.0, std::max(10.0, tLimit - (now() - tStart) - 20)));
    if (getenv("KSYM_DEBUG")) fprintf(stderr, "[%.1f] after sweep: %s\n", now() - tStart, show(c2, 3).c_str());
    if (isTrue(c2)) { nSweepEq++; return 1; }
    q = pc; q.push_back(mkNot(c2)); model.clear();
    r = smtCheck(q, qTimeout, &model);
  }
  if (r == UNSAT) return 1;
  if (r == SAT) {
    if (confirm(pc, cond, model)) { report(s, kind, msg, loc, &model, -1); return 0; }
    if (usesUF(q)) { // the solver's model interprets the uninterpreted functions freely: report, replay will use the stand-ins
      report(s, kind, msg + " (uninterpreted-function model)", loc, &model, -1); return 0;
    }
    problems.push_back("model did not confirm: " + msg + " @" + loc); return -1;
  }
  problems.push_back("solver undecided: " + kind + ": " + msg + " @" + loc); return -1;
}
// feasibility of a condition
[[noreturn]] static void giveUp(const std::string& why);
static bool feasible(State& s, T c) {
  if (isConst(c)) return c->val;
  for (int l = 0; l < NL; l++) if (c->sig[l] && lanesSat(s.pc, l)) return true;
  std::vector<T> q = s.pc; q.push_back(c); std::unordered_map<u32, u64> m;
  if (now() - tStart > tLimit) giveUp("time limit");
  if (coneSize({c}) < 400) { // a condition over variables the path does not constrain: search a witness
    std::vector<T> cv, pv; collectVars({c}, cv); collectVars(s.pc, pv); std::set<u32> ps; for (T v : pv) ps.insert(v->id);
    bool dis = true; for (T v : cv) if (ps.count(v->id)) dis = false;
    if (dis) { u64 z = g_seed * 31 + 7; for (int n = 0; n < 48; n++) { Eval ev; ev.var = [&](T) -> u64 { z ^= z << 13; z ^= z >> 7; z ^= z << 17; return z * 0x9E3779B97F4A7C15ull >> 3; }; Eval e2; std::unordered_map<u32, u64> m; e2.var = [&](T v) -> u64 { auto it = m.find(v->id); if (it != m.end()) return it->second; return m[v->id] = ev.var(v) & maskw(v->w); }; if (e2(c)) return true; } }
  }
  // queries that time out count as feasible; after a few of them, ask more briefly
  static int slow = 0; if (slow >= 10) return true; double tq = now();
  SatRes r = smtCheck(q, slow >= 6 ? 100 : slow >= 3 ? 400 : 3000, &m);
  static double spent = 0; spent += now() - tq; if (spent > 20) slow = 10;
  if (r == UNKNOWN) slow++;
  return r != UNSAT;
}
static std::string curLoc(State& s) {
  for (size_t i = s.st.size(); i-- > 0;) { Frame& f = s.st[i]; Block& b = f.fn->blocks[f.bb]; int ip = std::min<int>(std::max(0, f.ip - (i + 1 < s.st.size())), (int)b.ins.size() - 1); if (ip >= 0 && !f.harness) return f.fn->name + " " + locs[b.ins[ip].loc]; }
  Frame& f = s.st.back(); return f.fn->name + " " + locs[f.fn->blocks[f.bb].ins[std::min<size_t>(f.ip, f.fn->blocks[f.bb].ins.size() - 1)].loc];
}
// an immediate safety obligation: afterwards the path continues under cond
static bool oblige(State& s, T cond, const char* kind, const std::string& msg) {
  if (isTrue(cond)) return true;
  int r = isFalse(cond) ? 0 : decide(s, s.pc, cond, kind, msg, curLoc(s));
  if (isFalse(cond)) { nOblig++; bool any = false; for (int l = 0; l < NL; l++) if (lanesSat(s.pc, l)) { report(s, kind, msg, curLoc(s), nullptr, l); any = true; break; }
    if (!any) { std::unordered_map<u32, u64> m; SatRes q = smtCheck(s.pc, qTimeout, &m); if (q == UNSAT) { s.dead = true; return false; } if (q == UNKNOWN) problems.push_back("undecided path: " + msg); else report(s, kind, msg, curLoc(s), &m, -1); } }
  if (r == 0) { s.dead = true; return false; }
  s.pc.push_back(cond); return true;
}

// ------------------------------------------------------------------ memory
static std::shared_ptr<Obj>& objSlot(State& s, u64 addr, bool& ok) {
  static std::shared_ptr<Obj> none; ok = true; u64 hi = addr >> 32;
  if (hi & 0x40000000ull) { u64 i = (hi & 0x3fffffff) - 1; if (i < s.stack.size()) return s.stack[i]; }
  else if (hi & 0x20000000ull) { u64 i = ((hi & 0x1fffffff) >> 4) - 1; if (i < s.heap.size()) return s.heap[i]; }
  else { u64 i = hi - 1; if (hi && i < s.heap.size()) return s.heap[i]; }
  ok = false; return none;
}
static u64 baseOf(u64 addr) { if ((addr & (EDGE | 0x4000000000000000ull)) == EDGE) return (addr & ~0xfffffffffull) | OFF0; return (addr & 0xffffffff00000000ull) | OFF0; }
static Obj& writable(std::shared_ptr<Obj>& p) { if (p.use_count() > 1) p = std::make_shared<Obj>(*p); return *p; }
static int undefCount = 0;
static T cellByte(Cell& c) {
  if (!c.t) return nullptr;
  return c.t->w == 8 ? c.t : mkExtract(c.t, c.lo * 8 + 7, c.lo * 8);
}
static T loadConc(State& s, Obj& o, u64 off, unsigned n) {
  Cell* c = &o.cells[off];
  if (c[0].t && c[0].lo == 0 && c[0].t->w == n * 8) {
    bool ok = true; for (unsigned i = 1; i < n && ok; i++) ok = c[i].t == c[0].t && c[i].lo == i;
    if (ok) return c[0].t;
  }
  std::vector<T> p;
  for (unsigned i = n; i-- > 0;) {
    if (!c[i].t) { T u = mkVar("uninit!" + std::to_string(undefCount++) + "!" + o.name, 8, VF_UNDEF); c[i].t = u; c[i].lo = 0; }
    // group descending runs of the same term
    unsigned j = i; while (j > 0 && c[j - 1].t == c[i].t && c[j].lo == c[j - 1].lo + 1) j--;
    if (c[i].t->w == 8) p.push_back(c[i].t); else p.push_back(mkExtract(c[i].t, c[i].lo * 8 + 7, c[j].lo * 8));
    i = j;
  }
  return p.size() == 1 ? p[0] : mkConcat(p);
}
static void storeConc(Obj& o, u64 off, T v) { unsigned n = v->w / 8; for (unsigned i = 0; i < n; i++) { o.cells[off + i].t = v; o.cells[off + i].lo = i; } }

struct NeedFork { T cond; };
static T firstIte(T a) { if (a->op == O_ITE) return a->args[0]; if (a->op == O_ADD) for (u32 i = 0; i < a->n; i++) if (a->args[i]->op == O_ITE && a->args[i]->w == 64) return a->args[i]->args[0]; return nullptr; }

static bool checkObj(State& s, std::shared_ptr<Obj>& p, bool ok, u64 addr, const char* what) {
  if (!ok || !p) { oblige(s, mkBool(false), "memory", std::string(what) + (addr < 4096 ? " through a null pointer" : " of memory that is no object")); return false; }
  if (!p->alive) { oblige(s, mkBool(false), "memory", std::string(what) + " of freed memory (" + p->name + ")"); return false; }
  return true;
}
static bool pastEdge(State& s, Obj& o) { if (!o.edge) return false; covers["end"]++; covers["beyond the edge"]++; nPaths++; s.dead = true; return true; }
struct SymAcc { u64 c0; u64 st; unsigned k; T idx; };
// an address as a sum over its parts, looking through narrowed sums that do not wrap
static void linExpand(T t, u64 m, std::vector<std::pair<u64, T>>& xs, u64& c, int d = 0) {
  if (isConst(t)) { c += m * t->val; return; }
  if (d < 6 && t->op == O_ADD && t->w == 64) { c += m * t->val; for (u32 i = 0; i < t->n; i++) linExpand(t->args[i], m * t->coef[i], xs, c, d + 1); return; }
  if (d < 6 && t->op == O_CONCAT && t->n == 2 && isConst(t->args[0]) && !t->args[0]->val && t->args[1]->op == O_ADD) {
    T in = t->args[1]; u128 mx = in->val; for (u32 i = 0; i < in->n; i++) mx += (u128)in->coef[i] * umax(in->args[i]);
    if (mx <= maskw(in->w)) { c += m * in->val; for (u32 i = 0; i < in->n; i++) linExpand(mkZext(in->args[i], 64), m * in->coef[i], xs, c, d + 1); return; }
  }
  if (d < 6 && t->op == O_XOR && t->w == 64 && t->val && !(t->val & ~t->ko)) { c += m * t->val; linExpand(mkXorN({t}, t->val, 64), m, xs, c, d + 1); return; }
  if (d < 6 && t->op == O_CONCAT && t->n == 2 && isConst(t->args[0]) && !t->args[0]->val && t->args[1]->op == O_XOR && t->args[1]->val && !(t->args[1]->val & ~t->args[1]->ko)) { T in = t->args[1]; c += m * in->val; linExpand(mkZext(mkXorN({in}, in->val, in->w), 64), m, xs, c, d + 1); return; }
  if (d < 6 && t->op == O_CONCAT && t->n >= 2 && (isConst(t->args[0]) || isConst(t->args[t->n - 1]))) { // constant ends of a concatenation
    unsigned lo = 0, hi = t->w; u64 k = 0;
    if (isConst(t->args[t->n - 1])) { lo = t->args[t->n - 1]->w; k += t->args[t->n - 1]->val; }
    if (isConst(t->args[0])) { hi -= t->args[0]->w; k += t->args[0]->val << hi; }
    if (hi > lo && (lo || k) && hi - lo < 64) { T mid = mkZext(mkExtract(t, hi - 1, lo), 64); c += m * k; linExpand(mid, m << lo, xs, c, d + 1); return; }
  }
  xs.push_back({m, t});
}
static bool symAccess(State& s, T addr, unsigned n, std::shared_ptr<Obj>*& slot, SymAcc& a, const char* what) {
  u64 base;
  if (addr->op == O_ADD) base = addr->val; else base = addr->ko;
  bool ok; slot = &objSlot(s, base, ok);
  if (!ok || !*slot) {
    if (T c = firstIte(addr)) throw NeedFork{c};
    // maybe a slightly negative offset
    slot = &objSlot(s, base + OFF0, ok);
    if (!ok || !*slot) { if (T c = firstIte(addr)) throw NeedFork{c}; giveUp(std::string("cannot resolve symbolic address: ") + show(addr, 3) + " @" + curLoc(s)); }
    base += OFF0;
  }
  if (s.ct && !s.st.back().harness) { if (!oblige(s, mkBool(false), "ct", "memory address depends on secret data")) return false; }
  if (dependsOn(addr, VF_UNDEF)) { if (getenv("KSYM_DEBUG")) { std::vector<T> vs; collectVars({addr}, vs); for (T v : vs) fprintf(stderr, "%s ", g_vars[v->val].name.c_str()); fprintf(stderr, "\n%s\n", show(addr, 5).c_str()); } oblige(s, mkBool(false), "uninit", "address depends on uninitialised memory"); return false; }
  if (!checkObj(s, *slot, true, base, what)) return false;
  u64 b = baseOf(base); T off = mkAddN({{1, addr}}, 0 - b, 64);
  std::vector<std::pair<u64, T>> lx; u64 lc = 0; linExpand(off, 1, lx, lc);
  { size_t n2 = 0; for (auto& q : lx) { bool f = false; for (size_t i = 0; i < n2 && !f; i++) if (lx[i].second == q.second) { lx[i].first += q.first; f = true; } if (!f) lx[n2++] = q; } lx.resize(n2); }
  u64 size = (*slot)->size;
  if (size < n) { oblige(s, mkBool(false), "memory", std::string(what) + " out of bounds"); return false; }
  if (lx.size() == 1 && lc < size) { // constant + stride * index
    T x = lx[0].second; u64 xv = ~x->kz & maskw(x->w);
    if (xv && !x->ko) { unsigned h = 63 - __builtin_clzll(xv), l = __builtin_ctzll(xv); u64 st = lx[0].first << l;
      if (h - l < 13 && lx[0].first < (1ull << 40) && (u128)lc + (u128)(umax(x) >> l) * st <= size - n) { a.c0 = lc; a.st = st; a.k = h - l + 1; a.idx = mkExtract(x, h, l); nMem++; return true; } }
  }
  if (maxVal(off) > size - n) {
    T inb = mkNot(mkUlt(mkConst(size - n, 64), off));
    if (!oblige(s, inb, "memory", std::string(what) + " out of bounds of " + (*slot)->name)) return false;
  }
  // off = c0 + var
  T v = off; a.c0 = 0;
  if (off->op == O_ADD && off->val) { a.c0 = off->val; v = mkAddN({{1, off}}, 0 - off->val, 64); }
  if (off->op == O_CONCAT && off->n == 2 && isConst(off->args[0]) && off->args[0]->val == 0 && off->args[1]->op == O_ADD) { // a narrowed sum that does not wrap
    T in = off->args[1]; u128 mx = in->val; for (u32 i = 0; i < in->n; i++) mx += (u128)in->coef[i] * umax(in->args[i]);
    if (mx <= maskw(in->w)) { a.c0 = in->val; std::vector<std::pair<u64, T>> xs; for (u32 i = 0; i < in->n; i++) xs.push_back({in->coef[i], mkZext(in->args[i], 64)}); v = mkAddN(xs, 0, 64); }
  }
  if (v->ko) { a.c0 += v->ko; v = mkXorN({v}, v->ko, 64); }
  T lin = v;
  if (lin->op == O_CONCAT && lin->n == 2 && isConst(lin->args[0]) && lin->args[0]->val == 0 && lin->args[1]->op == O_ADD) lin = lin->args[1];
  if (lin->op == O_ADD && lin->n == 1 && !lin->val && lin->coef[0] > 1 && (lin->coef[0] & (lin->coef[0] - 1)) && (u128)umax(lin->args[0]) * lin->coef[0] <= std::min<u64>(size, maskw(lin->w))) { // a stride that is no power of two
    T x = lin->args[0]; u64 xv = ~x->kz & maskw(x->w); unsigned h = xv ? 63 - __builtin_clzll(xv) : 0, l = xv ? __builtin_ctzll(xv) : 0;
    if (h - l < 13 && !x->ko) { a.st = lin->coef[0] << l; a.k = h - l + 1; a.idx = mkExtract(x, h, l); nMem++; return true; }
  }
  u64 var = ~v->kz; if (v->op == O_CONCAT || v->op == O_ADD || v->op == O_LOOKUP || 1) var &= ~0ull;
  unsigned lo = var ? __builtin_ctzll(var) : 0, hi = var ? 63 - __builtin_clzll(var) : 0;
  if (hi - lo + 1 > 13) { // use the bound on the object instead
    u64 mx = size; unsigned need = 0; while ((mx >> need) && need < 64) need++;
    if (a.c0 == 0 && need >= lo && need - lo <= 13) hi = std::max(lo, need - 1 > lo ? need - 1 : lo);
    else giveUp("symbolic index too wide @" + curLoc(s));
  }
  a.st = 1ull << lo; a.k = hi - lo + 1; a.idx = mkExtract(v, hi, lo);
  nMem++;
  return true;
}
static T loadMem(State& s, T addr, unsigned n) {
  if (isConst(addr)) {
    bool ok; auto& p = objSlot(s, addr->val, ok);
    if (!checkObj(s, p, ok, addr->val, "read")) return nullptr;
    u64 off = addr->val - baseOf(addr->val);
    if (off > p->size || p->size - off < n) { if (pastEdge(s, *p)) return nullptr; oblige(s, mkBool(false), "memory", "read out of bounds of " + p->name + " (offset " + std::to_string((i64)off) + ", " + std::to_string(n) + " bytes, size " + std::to_string(p->size) + ")"); return nullptr; }
    bool un = false; for (unsigned i = 0; i < n; i++) if (!p->cells[off + i].t) un = true;
    if (un) return loadConc(s, writable(p), off, n);
    return loadConc(s, *p, off, n);
  }
  std::shared_ptr<Obj>* slot; SymAcc a;
  if (!symAccess(s, addr, n, slot, a, "read")) return nullptr;
  u64 N = 1ull << a.k; std::vector<T> e(N); bool allc = true; std::vector<u64> cv(N);
  Obj& o = **slot;
  for (u64 j = 0; j < N; j++) {
    u64 off = a.c0 + (j * a.st);
    if (off > o.size || o.size - off < n) { e[j] = mkConst(0, n * 8); }
    else { bool un = false; for (unsigned i = 0; i < n; i++) if (!o.cells[off + i].t) un = true; e[j] = un ? loadConc(s, writable(*slot), off, n) : loadConc(s, o, off, n); }
    if (!isConst(e[j])) allc = false; else cv[j] = e[j]->val;
  }
  if (allc) return mkLookup(mkTable(cv, a.k, n * 8), a.idx);
  return mkTupleLookup(mkTuple(e), a.idx);
}
static bool storeMem(State& s, T addr, T v, bool fromLib) {
  unsigned n = v->w / 8;
  if (isConst(addr)) {
    bool ok; auto& p = objSlot(s, addr->val, ok);
    if (!checkObj(s, p, ok, addr->val, "write")) return false;
    u64 off = addr->val - baseOf(addr->val);
    if (off > p->size || p->size - off < n) { if (pastEdge(s, *p)) return false; oblige(s, mkBool(false), "memory", "write out of bounds of " + p->name + " (offset " + std::to_string((i64)off) + ", " + std::to_string(n) + " bytes, size " + std::to_string(p->size) + ")"); return false; }
    if (p->ro) { oblige(s, mkBool(false), "memory", "write to constant memory " + p->name); return false; }
    if (optGlobal && p->global && fromLib && !p->harness) { oblige(s, mkBool(false), "global", "library writes global memory " + p->name); return false; }
    storeConc(writable(p), off, v); return true;
  }
  std::shared_ptr<Obj>* slot; SymAcc a;
  if (!symAccess(s, addr, n, slot, a, "write")) return false;
  if ((*slot)->ro) { oblige(s, mkBool(false), "memory", "write to constant memory"); return false; }
  if (optGlobal && (*slot)->global && fromLib && !(*slot)->harness) { oblige(s, mkBool(false), "global", "library writes global memory"); return false; }
  Obj& o = writable(*slot);
  for (u64 j = 0; j < (1ull << a.k); j++) {
    u64 off = a.c0 + (j * a.st); if (off > o.size || o.size - off < n) continue;
    T old = loadConc(s, o, off, n); T w = mkIte(mkEq(a.idx, mkConst(j, a.k)), v, old); if (w != old) storeConc(o, off, w);
  }
  return true;
}
static u64 newHeap(State& s, u64 size, const std::string& name, bool heapObj) {
  auto o = std::make_shared<Obj>(); o->size = size; o->alive = true; o->heap = heapObj; o->global = o->ro = o->harness = false; o->name = name; o->site = 0; o->cells.assign(size, Cell{nullptr, 0});
  s.heap.push_back(o); if (heapObj) s.live++; return heapAddr(s.heap.size() - 1);
}

// ------------------------------------------------------------------ merging
static bool sameShape(State& a, State& b) {
  if (a.st.size() != b.st.size() || a.heap.size() != b.heap.size() || a.stack.size() != b.stack.size()) return false;
  if (a.choices != b.choices || a.failAt != b.failAt || a.allocs != b.allocs || a.live != b.live || a.names != b.names || a.ct != b.ct) return false;
  for (size_t i = 0; i < a.st.size(); i++) if (a.st[i].fn != b.st[i].fn || a.st[i].bb != b.st[i].bb || a.st[i].ip != b.st[i].ip) return false;
  for (size_t i = 0; i < a.heap.size(); i++) if (a.heap[i] != b.heap[i] && (a.heap[i]->alive != b.heap[i]->alive || a.heap[i]->size != b.heap[i]->size)) return false;
  for (size_t i = 0; i < a.stack.size(); i++) if (a.stack[i] != b.stack[i] && a.stack[i]->size != b.stack[i]->size) return false;
  return true;
}
static bool looksPtr(T t) { return t->w == 64 && isConst(t) && t->val >= (1ull << 32); }
static void mergeObj(std::shared_ptr<Obj>& pa, std::shared_ptr<Obj>& pb, T c) {
  if (pa == pb || !pa->alive) return;
  Obj& a = writable(pa); Obj& b = *pb;
  for (u64 i = 0; i < a.size;) {
    Cell& x = a.cells[i]; Cell& y = b.cells[i];
    if (x.t == y.t && x.lo == y.lo) { i++; continue; }
    if (!x.t || !y.t) { T u = mkVar("uninit!" + std::to_string(undefCount++) + "!" + a.name, 8, VF_UNDEF); T r = mkIte(c, x.t ? cellByte(x) : u, y.t ? cellByte(y) : u); x.t = r; x.lo = 0; i++; continue; }
    unsigned n = x.t->w / 8; bool word = x.lo == 0 && y.lo == 0 && y.t->w == x.t->w && i + n <= a.size;
    for (unsigned k = 1; word && k < n; k++) word = a.cells[i + k].t == x.t && a.cells[i + k].lo == k && b.cells[i + k].t == y.t && b.cells[i + k].lo == k;
    if (word) { T r = mkIte(c, x.t, y.t); for (unsigned k = 0; k < n; k++) { a.cells[i + k].t = r; a.cells[i + k].lo = k; } i += n; }
    else { T r = mkIte(c, cellByte(x), cellByte(y)); x.t = r; x.lo = 0; i++; }
  }
}
static State* tryMergeStates(State* a, State* b) {
  if (!sameShape(*a, *b)) return nullptr;
  // registers holding different pointers cannot be joined well
  for (size_t f = 0; f < a->st.size(); f++) for (size_t r = 0; r < a->st[f].regs.size(); r++) { T x = a->st[f].regs[r], y = b->st[f].regs[r]; if (x && y && x != y && looksPtr(x) && looksPtr(y) && (x->val >> 32) != (y->val >> 32)) return nullptr; }
  size_t k = 0; while (k < a->pc.size() && k < b->pc.size() && a->pc[k] == b->pc[k]) k++;
  T ca = mkBool(true), cb = mkBool(true); for (size_t i = k; i < a->pc.size(); i++) ca = mkAnd(ca, a->pc[i]); for (size_t i = k; i < b->pc.size(); i++) cb = mkAnd(cb, b->pc[i]);
  T either = mkOr(ca, cb);
  T c = ca;
  if (a->pc.size() > k && b->pc.size() > k && b->pc[k] == mkNot(a->pc[k])) c = a->pc[k];
  a->pc.resize(k); if (!isTrue(either)) a->pc.push_back(either);
  for (size_t f = 0; f < a->st.size(); f++) for (size_t r = 0; r < a->st[f].regs.size(); r++) { T x = a->st[f].regs[r], y = b->st[f].regs[r]; if (x && y && x != y) { if (x->w == y->w && x->op != O_TUPLE && y->op != O_TUPLE) a->st[f].regs[r] = mkIte(c, x, y); } else if (!x) a->st[f].regs[r] = y; }
  for (size_t i = 0; i < a->heap.size(); i++) mergeObj(a->heap[i], b->heap[i], c);
  for (size_t i = 0; i < a->stack.size(); i++) mergeObj(a->stack[i], b->stack[i], c);
  nMerge++; delete b; return a;
}

// ------------------------------------------------------------------ interpretation
typedef std::vector<State*> States;
static States run(State* s, size_t depth, int join);
static State* clone(State* s) { return new State(*s); }

static T getOp(Frame& f, int i) { if (i >= 0) return f.regs[i]; T t = f.fn->consts[-i - 1]; if (!t) giveUp("unsupported constant in " + f.fn->name); return t; }

// take the edge to block b: evaluate phis. returns through s.atJoin whether the join was reached
static void enterBlock(State& s, int b) {
  Frame& f = s.st.back(); int from = f.bb; Block& B = f.fn->blocks[b];
  if (!B.phiDst.empty()) {
    int p = -1; for (size_t i = 0; i < B.preds.size(); i++) if (B.preds[i] == from) p = i;
    std::vector<T> v(B.phiDst.size()); for (size_t i = 0; i < v.size(); i++) { int o = B.phiSrc[i][p]; v[i] = o >= 0 ? f.regs[o] : f.fn->consts[-o - 1]; }
    for (size_t i = 0; i < v.size(); i++) f.regs[B.phiDst[i]] = v[i];
  }
  f.bb = b; f.ip = 0;
}
static std::string cstr(State& s, T p) {
  std::string r; if (!isConst(p)) giveUp("symbolic string"); u64 a = p->val;
  while (true) { T c = loadMem(s, mkConst(a++, 64), 1); if (!c || !isConst(c)) giveUp("symbolic string"); if (!c->val) return r; r += (char)c->val; }
}
static void finishPath(State& s) {
  nPaths++;
  (void)s;
}
static u64 cval(T t, const char* what) { if (!isConst(t)) giveUp(std::string("symbolic ") + what); return t->val; }
static bool memRange(State& s, T p, u64 n, bool write, const char* what, std::shared_ptr<Obj>*& slot, u64& off) {
  if (!isConst(p)) { if (T c = firstIte(p)) throw NeedFork{c}; giveUp(std::string("symbolic pointer in ") + what + " @" + curLoc(s)); }
  bool ok; auto& o = objSlot(s, p->val, ok); if (!checkObj(s, o, ok, p->val, write ? "write" : "read")) return false;
  off = p->val - baseOf(p->val);
  if (off > o->size || o->size - off < n) { if (pastEdge(s, *o)) return false; oblige(s, mkBool(false), "memory", std::string(write ? "write" : "read") + " out of bounds of " + o->name + " in " + what + " (offset " + std::to_string((i64)off) + ", " + std::to_string(n) + " bytes, size " + std::to_string(o->size) + ")"); return false; }
  if (write && o->ro) { oblige(s, mkBool(false), "memory", std::string("write to constant memory in ") + what); return false; }
  slot = &o; return true;
}
static void concretise(State& s, T t, std::vector<u64>& vals) { // all feasible values of a narrow term
  u64 unk = ~(t->kz | t->ko) & maskw(t->w);
  if (__builtin_popcountll(unk) <= 8) { u64 x = 0; do { u64 v = t->ko | x; if (feasible(s, mkEq(t, mkConst(v, t->w)))) vals.push_back(v); x = (x - unk) & unk; } while (x); return; }
  // enumerate with the solver
  std::vector<T> q = s.pc;
  for (int i = 0; i < 300; i++) {
    std::unordered_map<u32, u64> m; SatRes r = smtCheck(q, qTimeout, &m); if (r == UNKNOWN) giveUp("cannot concretise"); if (r == UNSAT) return;
    Eval ev; ev.var = [&](T v) { auto it = m.find(v->id); return it == m.end() ? 0ull : it->second; }; u64 v = ev(t); vals.push_back(v); q.push_back(mkNot(mkEq(t, mkConst(v, t->w))));
  }
  giveUp("too many values for a symbolic length @" + curLoc(s));
}
struct NeedConc { int reg; }; // fork over all values of a register operand

static bool rotAsm(const std::string& a, T x, T amt, T& r) {
  size_t p = a.find_first_not_of(" \t"); std::string m = a.substr(p == std::string::npos ? 0 : p, 4);
  if (m.substr(0, 3) == "rol" || m.substr(0, 3) == "ror") {
    bool left = m[2] == 'l'; size_t d = a.find("$$"); T k;
    if (d != std::string::npos) k = mkConst(strtoul(a.c_str() + d + 2, nullptr, 0), 8); else if (a.find("%cl") != std::string::npos && amt) k = mkExtract(amt, 7, 0); else if (a.find(',') == std::string::npos) k = mkConst(1, 8); else return false;
    static const std::map<char, unsigned> W = {{'b', 8}, {'w', 16}, {'l', 32}, {'q', 64}}; auto it = W.find(m[3]); if (it == W.end() || it->second != x->w) return false;
    r = left ? mkRotl(x, k) : mkRotr(x, k); return true;
  }
  if (a.find("bswap") != std::string::npos) { std::vector<T> b; for (unsigned i = 0; i < x->w; i += 8) b.push_back(mkExtract(x, i + 7, i)); r = mkConcat(b); return true; }
  return false;
}
// builtin functions. returns 0 not a builtin, 1 done, 2 path died, 3 forked (states in out)
static int builtin(State*& sp, const std::string& name, Ins& x, std::vector<T>& a, size_t depth, int join, States& out) {
  State& s = *sp; Frame& f = s.st.back(); bool lib = !f.harness;
  auto ret = [&](T t) { if (x.dst >= 0) f.regs[x.dst] = t; };
  if (name == "malloc" || name == "calloc") {
    u64 n; if (!isConst(a[0])) throw NeedConc{0}; if (name == "calloc") { if (__builtin_mul_overflow(a[0]->val, (u64)cval(a[1], "calloc size"), &n)) n = ~0ull; } else n = a[0]->val;
    i64 k = s.allocs++;
    if (s.failAt >= 0 && k == s.failAt) { nAllocFail++; ret(mkConst(0, 64)); return 1; }
    if (n > (1ull << 26)) { ret(mkConst(0, 64)); return 1; }
    u64 p = newHeap(s, n, "heap:" + f.fn->name + "#" + std::to_string(k), true); s.heap.back()->harness = !lib;
    if (name == "calloc") for (auto& c : s.heap.back()->cells) { c.t = mkConst(0, 8); c.lo = 0; }
    ret(mkConst(p, 64)); return 1;
  }
  if (name == "free" || name == "realloc") {
    if (!isConst(a[0])) { if (T c = firstIte(a[0])) throw NeedFork{c}; giveUp("free of a symbolic pointer"); }
    u64 p = a[0]->val; if (p == 0 && name == "free") return 1;
    if (name == "realloc") giveUp("realloc is not modelled");
    bool ok; auto& o = objSlot(s, p, ok);
    if (!ok || !o || !o->heap || p != baseOf(p)) { oblige(s, mkBool(false), "memory", "free of a pointer that was not allocated"); return 2; }
    if (!o->alive) { oblige(s, mkBool(false), "memory", "double free of " + o->name); return 2; }
    if (optWipe && lib) {
      nWipeChecked++;
      for (u64 i = 0; i < o->size; i++) { Cell& c = o->cells[i]; nWipeBytes++; if (!c.t) continue; T b = cellByte(c); if (dependsOn(b, VF_SECRET)) {
        // really dependent? two copies of the secret must be able to give different bytes
        std::vector<T> vars; collectVars({b}, vars); std::map<u32, T> m2; for (T v : vars) m2[v->id] = (v->fn & VF_SECRET) ? mkVar(g_vars[v->val].name + "'", v->w, v->fn) : v;
        std::unordered_map<u32, T> memo; std::function<T(T)> sub = [&](T t) -> T { auto it = memo.find(t->id); if (it != memo.end()) return it->second; T r = t->op == O_VAR ? m2[t->id] : rebuild(t, sub); memo[t->id] = r; return r; };
        T b2 = sub(b); if (!oblige(s, mkEq(b, b2), "wipe", "freed memory still depends on secret data: byte " + std::to_string(i) + " of " + o->name)) return 2;
      } }
    }
    Obj& w = writable(o); w.alive = false; w.cells.clear(); w.cells.shrink_to_fit(); s.live--; return 1;
  }
  if (name == "memcpy" || name == "memmove" || name == "llvm.memcpy" || name == "llvm.memmove") {
    if (!isConst(a[2])) throw NeedConc{2};
    u64 n = a[2]->val; if (n == 0) { ret(a[0]); return 1; }
    std::shared_ptr<Obj>*d, *q; u64 od, oq; if (!memRange(s, a[0], n, true, "memcpy", d, od) || !memRange(s, a[1], n, false, "memcpy", q, oq)) return 2;
    if (optGlobal && (*d)->global && lib && !(*d)->harness) { oblige(s, mkBool(false), "global", "library writes global memory " + (*d)->name); return 2; }
    if (*d == *q && name.find("memcpy") != std::string::npos && od != oq && !(od + n <= oq || oq + n <= od)) { oblige(s, mkBool(false), "memory", "memcpy between overlapping regions"); return 2; }
    std::vector<Cell> t((*q)->cells.begin() + oq, (*q)->cells.begin() + oq + n); Obj& o = writable(*d); std::copy(t.begin(), t.end(), o.cells.begin() + od); ret(a[0]); return 1;
  }
  if (name == "memset" || name == "llvm.memset" || name == "explicit_bzero") {
    if (name == "explicit_bzero") { a = {a[0], mkConst(0, 32), a[1]}; }
    if (!isConst(a[2])) throw NeedConc{2};
    u64 n = a[2]->val; if (n == 0) { ret(a[0]); return 1; }
    std::shared_ptr<Obj>* d; u64 od; if (!memRange(s, a[0], n, true, "memset", d, od)) return 2;
    if (optGlobal && (*d)->global && lib && !(*d)->harness) { oblige(s, mkBool(false), "global", "library writes global memory " + (*d)->name); return 2; }
    T v = mkExtract(a[1], 7, 0); Obj& o = writable(*d); for (u64 i = 0; i < n; i++) { o.cells[od + i].t = v; o.cells[od + i].lo = 0; } ret(a[0]); return 1;
  }
  if (name == "memcmp" || name == "bcmp") {
    if (!isConst(a[2])) throw NeedConc{2};
    u64 n = a[2]->val; T r = mkConst(0, 32); if (s.ct && lib) { oblige(s, mkBool(false), "ct", "memcmp on secret data"); return 2; }
    for (u64 i = n; i-- > 0;) { T p = loadMem(s, mkAddN({{1, a[0]}}, i, 64), 1), q = loadMem(s, mkAddN({{1, a[1]}}, i, 64), 1); if (!p || !q) return 2; r = mkIte(mkEq(p, q), r, mkSub(mkZext(p, 32), mkZext(q, 32))); }
    ret(r); return 1;
  }
  if (name == "strlen") { ret(mkConst(cstr(s, a[0]).size(), 64)); return 1; }
  if (name == "abort" || name == "__assert_fail" || name == "exit") {
    std::string m = name; if (name == "__assert_fail") m = "assertion failed: " + cstr(s, a[0]);
    oblige(s, mkBool(false), "assert", m); return 2;
  }
  if (name.compare(0, 3, "ks_") != 0) return 0;
  // ---------------- harness interface
  if (name == "ks_sym" || name == "ks_secret") {
    u64 n = cval(a[1], "length"); std::string nm = cstr(s, a[2]); int k = s.names[nm]++; if (k) nm += "#" + std::to_string(k);
    if (n == 0) return 1;
    std::shared_ptr<Obj>* d; u64 od; if (!memRange(s, a[0], n, true, "ks_sym", d, od)) return 2; Obj& o = writable(*d);
    static std::map<std::string, T> vars; u32 fl = name == "ks_secret" ? VF_SECRET : 0;
    for (u64 i = 0; i < n;) {
      unsigned w = symw; while (w > 1 && i + w > n) w /= 2;
      std::string vn = nm + "[" + std::to_string(i) + "]" + (w > 1 ? "/" + std::to_string(w) : ""); auto it = vars.find(vn); T v = it != vars.end() ? it->second : (vars[vn] = mkVar(vn, w * 8, fl));
      for (unsigned j = 0; j < w; j++) { o.cells[od + i + j].t = v; o.cells[od + i + j].lo = symBE ? w - 1 - j : j; }
      i += w;
    }
    return 1;
  }
  if (name == "ks_choose") {
    u64 lo = cval(a[0], "bound"), hi = cval(a[1], "bound"); std::string nm = cstr(s, a[2]); int k = s.names[nm]++; if (k) nm += "#" + std::to_string(k);
    auto fx = params.find("fix." + nm); if (fx != params.end()) lo = hi = fx->second;
    s.st.back().ip++;
    for (u64 v = lo; v <= hi; v++) {
      State* c = v == hi ? sp : clone(sp); c->choices.push_back({nm, v}); if (x.dst >= 0) c->st.back().regs[x.dst] = mkConst(v, x.w);
      if (v != hi) nForks++;
      States r = run(c, depth, join); out.insert(out.end(), r.begin(), r.end());
      if (stopOnViolation && !violations.empty()) { if (v != hi) delete sp; break; }
    }
    sp = nullptr; return 3;
  }
  if (name == "ks_param") {
    std::string nm = cstr(s, a[0]); auto it = params.find(nm); ret(mkConst(it == params.end() ? cval(a[1], "default") : (u64)it->second, x.w)); return 1;
  }
  if (name == "ks_assume") {
    T c = mkNot(mkEq(a[0], mkConst(0, a[0]->w))); if (isTrue(c)) return 1; if (!feasible(s, c)) { s.dead = true; return 2; } s.pc.push_back(c); return 1;
  }
  if (name == "ks_assert") {
    T c = mkNot(mkEq(a[0], mkConst(0, a[0]->w))); std::string m = cstr(s, a[1]);
    if (isTrue(c)) { nOblig++; nTrivial++; return 1; }
    if (dependsOn(c, VF_UNDEF)) m += " (depends on uninitialised memory)";
    if (!oblige(s, c, "assert", m)) return 2; return 1;
  }
  if (name == "ks_eq") {
    u64 n = cval(a[2], "length"); std::string m = cstr(s, a[3]); std::vector<T> cs; nEqBytes += n;
    for (u64 i = 0; i < n;) {
      unsigned w = n - i >= 8 ? 8 : 1;
      T p = loadMem(s, mkAddN({{1, a[0]}}, i, 64), w), q = loadMem(s, mkAddN({{1, a[1]}}, i, 64), w); if (!p || !q) return 2;
      if (optUninit && (dependsOn(p, VF_UNDEF) || dependsOn(q, VF_UNDEF))) { oblige(s, mkBool(false), "uninit", m + ": result depends on uninitialised memory"); return 2; }
      T c = mkEq(p, q);
      if (isFalse(c)) { oblige(s, c, "assert", m + " (byte " + std::to_string(i) + ")"); return 2; }
      nOblig++; if (isTrue(c)) nTrivial++; else { nOblig--; cs.push_back(c); }
      i += w;
    }
    if (!cs.empty()) { T c = mkAndN(cs, 1); if (!oblige(s, c, "assert", m)) return 2; }
    return 1;
  }
  if (name == "ks_init") { // region must not depend on uninitialised memory
    u64 n = cval(a[1], "length"); std::string m = cstr(s, a[2]);
    for (u64 i = 0; i < n; i++) { T p = loadMem(s, mkAddN({{1, a[0]}}, i, 64), 1); if (!p) return 2; nOblig++; if (dependsOn(p, VF_UNDEF)) { oblige(s, mkBool(false), "uninit", m + ": depends on uninitialised memory (byte " + std::to_string(i) + ")"); return 2; } nTrivial++; }
    return 1;
  }
  if (name == "ks_uf") { // fn, in, nin, out, nout
    u64 fn = cval(a[0], "fn"), ni = cval(a[2], "len"), no = cval(a[4], "len"); std::vector<T> in; for (u64 i = 0; i < ni; i++) { T b = loadMem(s, mkAddN({{1, a[1]}}, i, 64), 1); if (!b) return 2; in.push_back(b); }
    for (u64 i = 0; i < no; i++) if (!storeMem(s, mkAddN({{1, a[3]}}, i, 64), mkUF(fn, i, in), false)) return 2;
    return 1;
  }
  if (name == "ks_perm") { // fn, dir, key, nkey, in, out, bs
    u64 fn = cval(a[0], "fn"), dir = cval(a[1], "dir"), nk = cval(a[3], "nkey"), bs = cval(a[6], "bs"); std::vector<T> in;
    for (u64 i = 0; i < nk; i++) { T b = loadMem(s, mkAddN({{1, a[2]}}, i, 64), 1); if (!b) return 2; in.push_back(b); }
    for (u64 i = 0; i < bs; i++) { T b = loadMem(s, mkAddN({{1, a[4]}}, i, 64), 1); if (!b) return 2; in.push_back(b); }
    for (u64 i = 0; i < bs; i++) if (!storeMem(s, mkAddN({{1, a[5]}}, i, 64), mkPerm(fn, dir, i, nk, bs, in), false)) return 2;
    return 1;
  }
  if (name == "ks_fail_alloc") { i64 k = (i64)(int)cval(a[0], "n"); s.failAt = k < 0 ? -1 : s.allocs + k; return 1; }
  if (name == "ks_alloc_count") { ret(mkConst(s.allocs, x.w)); return 1; }
  if (name == "ks_live") { ret(mkConst(s.live, x.w)); return 1; }
  if (name == "ks_cover") {
    std::string m = cstr(s, a[0]); covers[m]++;
    // self-test of the replay (tools/probe.py): an input that gets here
    if (m == "end" && probes-- > 0) {
      int l = 0; while (l < NL && !lanesSat(s.pc, l)) l++;
      std::unordered_map<u32, u64> model;
      if (l < NL) report(s, "probe", m, "", nullptr, l); else if (smtCheck(s.pc, qTimeout, &model) == SAT) report(s, "probe", m, "", &model, -1);
    }
    return 1;
  }
  if (name == "ks_note") { notes[cstr(s, a[0])] = std::to_string(cval(a[1], "note")); return 1; }
  if (name == "ks_ct") { s.ct = cval(a[0], "flag"); return 1; }
  if (name == "ks_wipe_mode") { optWipe = cval(a[0], "flag"); return 1; }
  if (name == "ks_is_symbolic") { ret(mkConst(!isConst(a[0]), x.w)); return 1; }
  if (name == "ks_edge") { u64 n = cval(a[0], "edge"); newHeap(s, n, "far region", false); s.heap.back()->edge = true; for (auto& c : s.heap.back()->cells) { c.t = mkConst(0, 8); c.lo = 0; } ret(mkConst(edgeAddr(s.heap.size() - 1), 64)); return 1; }
  if (name == "ks_native") { ret(mkConst(0, x.w)); return 1; }
  if (name == "ks_objsize") { std::shared_ptr<Obj>* d; u64 od; if (!memRange(s, a[0], 1, false, "ks_objsize", d, od)) return 2; ret(mkConst((*d)->cells.size() - od, x.w)); return 1; }
  giveUp("unknown harness call " + name);
}

static T binop(State& s, unsigned opc, T a, T b, bool nsw, bool& ok) {
  ok = true;
  switch (opc) {
  case Instruction::Add: {
    if (nsw && optUB && a->w >= 32 && !(isConst(a) && isConst(b)) && a->w <= 63) { T wa = mkAdd(mkSext(a, 64), mkSext(b, 64)); T c = mkEq(wa, mkSext(mkAdd(a, b), 64)); if (!isTrue(c) && umax(a) + umax(b) >= (1ull << (a->w - 1))) ok = oblige(s, c, "ub", "signed overflow in addition"); }
    return mkAdd(a, b); }
  case Instruction::Sub: return mkSub(a, b);
  case Instruction::Mul:
    if (nsw && optUB && a->w == 32) { if (!((a->kz >> 31 & 1) && (b->kz >> 31 & 1) && (u128)umax(a) * umax(b) < (1ull << 31)) && !(isConst(a) && isConst(b))) { T wa = mkMul(mkSext(a, 64), mkSext(b, 64)); T c = mkEq(wa, mkSext(mkMul(a, b), 64)); ok = oblige(s, c, "ub", "signed overflow in multiplication"); } }
    return mkMul(a, b);
  case Instruction::And: return mkAnd(a, b);
  case Instruction::Or: return mkOr(a, b);
  case Instruction::Xor: return mkXor(a, b);
  case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
    if (umax(b) >= a->w) { ok = oblige(s, mkUlt(b, mkConst(a->w, b->w)), "ub", "shift amount not less than the width"); if (!ok) return nullptr; }
    return opc == Instruction::Shl ? mkShl(a, b) : opc == Instruction::LShr ? mkLshr(a, b) : mkAshr(a, b);
  case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
    if (!isConst(b) || b->val == 0) { ok = oblige(s, mkNot(mkEq(b, mkConst(0, b->w))), "ub", "division by zero"); if (!ok) return nullptr; }
    return opc == Instruction::UDiv ? mkUdiv(a, b) : opc == Instruction::SDiv ? mkSdiv(a, b) : opc == Instruction::URem ? mkUrem(a, b) : mkSrem(a, b);
  }
  giveUp(std::string("unsupported operation ") + Instruction::getOpcodeName(opc) + " @" + curLoc(s));
}
static T icmp(unsigned p, T a, T b) {
  switch (p) {
  case CmpInst::ICMP_EQ: return mkEq(a, b); case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
  case CmpInst::ICMP_ULT: return mkUlt(a, b); case CmpInst::ICMP_UGT: return mkUlt(b, a);
  case CmpInst::ICMP_ULE: return mkNot(mkUlt(b, a)); case CmpInst::ICMP_UGE: return mkNot(mkUlt(a, b));
  case CmpInst::ICMP_SLT: return mkSlt(a, b); case CmpInst::ICMP_SGT: return mkSlt(b, a);
  case CmpInst::ICMP_SLE: return mkNot(mkSlt(b, a)); default: return mkNot(mkSlt(a, b));
  }
}
static bool popFrame(State& s, T rv) { // false when the whole run ended
  int rr = s.st.back().retReg; s.stack.resize(s.st.back().sbase); s.st.pop_back();
  if (s.st.empty()) return false;
  if (rr >= 0) s.st.back().regs[rr] = rv;
  return true;
}
static bool stopped(State& s, size_t depth, int join) { return s.st.size() < depth || (s.st.size() == depth && join >= 0 && s.st.back().bb == join && s.st.back().ip == 0 && s.atJoin); }

static void joinAll(States& v, States& out) { // merge states that stopped at the same place
  for (State* s : v) {
    bool done = false;
    if (!params.count("nomerge")) for (size_t i = 0; i < out.size() && !done; i++) if (State* m = tryMergeStates(out[i], s)) { out[i] = m; done = true; }
    if (!done) out.push_back(s);
  }
}

static States run(State* sp, size_t depth, int join) {
  States out;
  if (stopped(*sp, depth, join)) { out.push_back(sp); return out; }
  std::vector<T> av;
  auto dieNow = [&]() { finishPath(*sp); delete sp; };
  auto forkOn = [&](T c, bool merge) -> States { // fork at the current instruction (re-executed under c / !c)
    States r; nForks++;
    State* o = clone(sp); sp->pc.push_back(c); o->pc.push_back(mkNot(c)); bool fa = feasible(*sp, mkBool(true)), fb = true;
    (void)fa; (void)fb; (void)merge;
    // re-execution must see the decided condition: substitute in registers
    for (int k = 0; k < 2; k++) { State* x = k ? o : sp; for (auto& fr : x->st) for (T& t : fr.regs) if (t && t->w == 64) { if (t->op == O_ITE && t->args[0] == c) t = k ? t->args[2] : t->args[1]; else if (t->op == O_ADD) { std::vector<std::pair<u64, T>> xs; bool ch = false; for (u32 i = 0; i < t->n; i++) { T q = t->args[i]; if (q->op == O_ITE && q->args[0] == c) { q = k ? q->args[2] : q->args[1]; ch = true; } xs.push_back({t->coef[i], q}); } if (ch) t = mkAddN(xs, t->val, 64); } } }
    States a, b;
    { std::vector<T> pcA(sp->pc); pcA.pop_back(); State probe = *sp; probe.pc = pcA; if (feasible(probe, c)) a = run(sp, depth, join); else delete sp; if (feasible(probe, mkNot(c))) b = run(o, depth, join); else delete o; }
    joinAll(a, r); joinAll(b, r); return r;
  };
  while (true) {
    State& s = *sp; Frame& f = s.st.back(); Block& B = f.fn->blocks[f.bb]; Ins& x = B.ins[f.ip];
    nIns++; f.fn->execIns++; s.atJoin = false;
    if (((nIns & 0xffff) == 0 && now() - tStart > tLimit) || nIns > maxIns) { // possibly a loop without end: the replay decides
      if (violations.empty()) for (int l = 0; l < NL; l++) if (lanesSat(s.pc, l)) { report(s, "hang", "no end of the execution within the limits", curLoc(s), nullptr, l); break; }
      giveUp("time or instruction limit @" + curLoc(s));
    }
    try {
    switch (x.opc) {
    case Instruction::Alloca: {
      u64 n = x.imm[0] * cval(getOp(f, x.ops[0]), "alloca size (variable-length array)");
      auto o = std::make_shared<Obj>(); o->size = n; o->alive = true; o->heap = o->global = o->ro = o->harness = false; o->name = "local of " + f.fn->name; o->cells.assign(n, Cell{nullptr, 0});
      s.stack.push_back(o); f.regs[x.dst] = mkConst(stackAddr(s.stack.size() - 1), 64); f.ip++; break; }
    case Instruction::Load: {
      if (x.w == 255) giveUp("load of an unsupported type @" + curLoc(s));
      T r = loadMem(s, getOp(f, x.ops[0]), x.imm[0]); if (!r) { dieNow(); return out; }
      if (r->w != x.w) r = mkExtract(r, x.w - 1, 0);
      f.regs[x.dst] = optCanon ? canon(r) : r; f.ip++; break; }
    case Instruction::Store: {
      T v = getOp(f, x.ops[0]); if (v->w % 8) v = mkZext(v, x.imm[0] * 8);
      if (!storeMem(s, getOp(f, x.ops[1]), v, !f.harness)) { dieNow(); return out; }
      f.ip++; break; }
    case Instruction::GetElementPtr: {
      T p = getOp(f, x.ops[0]); std::vector<std::pair<u64, T>> xs{{1, p}};
      for (size_t i = 1; i < x.ops.size(); i++) { T o = getOp(f, x.ops[i]); if (o->w < 64) o = mkSext(o, 64); xs.push_back({x.imm[i - 1], o}); }
      f.regs[x.dst] = xs.size() == 1 && isConst(p) ? mkConst(p->val + x.imm.back(), 64) : mkAddN(xs, x.imm.back(), 64); f.ip++; break; }
    case Instruction::ICmp: f.regs[x.dst] = icmp(x.pred, getOp(f, x.ops[0]), getOp(f, x.ops[1])); f.ip++; break;
    case Instruction::ZExt: f.regs[x.dst] = mkZext(getOp(f, x.ops[0]), x.w); f.ip++; break;
    case Instruction::SExt: f.regs[x.dst] = mkSext(getOp(f, x.ops[0]), x.w); f.ip++; break;
    case Instruction::Trunc: { T r = mkTrunc(getOp(f, x.ops[0]), x.w); f.regs[x.dst] = optCanon ? canon(r) : r; f.ip++; break; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: { T t = getOp(f, x.ops[0]); f.regs[x.dst] = t->w < x.w ? mkZext(t, x.w) : t->w > x.w ? mkTrunc(t, x.w) : t; f.ip++; break; }
    case Instruction::BitCast: case Instruction::Freeze: f.regs[x.dst] = getOp(f, x.ops[0]); f.ip++; break;
    case Instruction::Select: f.regs[x.dst] = mkIte(getOp(f, x.ops[0]), getOp(f, x.ops[1]), getOp(f, x.ops[2])); f.ip++; break;
    case Instruction::Br: {
      if (x.tgt1 < 0) { enterBlock(s, x.tgt0); s.atJoin = true; if (stopped(s, depth, join)) { out.push_back(sp); return out; } break; }
      T c = getOp(f, x.ops[0]);
      if (isConst(c)) { enterBlock(s, c->val ? x.tgt0 : x.tgt1); s.atJoin = true; if (stopped(s, depth, join)) { out.push_back(sp); return out; } break; }
      if (s.ct && !f.harness) { if (!oblige(s, mkBool(false), "ct", "branch depends on secret data")) { dieNow(); return out; } }
      if (dependsOn(c, VF_UNDEF)) { oblige(s, mkBool(false), "uninit", "branch depends on uninitialised memory"); dieNow(); return out; }
      bool fa = feasible(s, c), fb = feasible(s, mkNot(c));
      if (!fa && !fb) { delete sp; return out; }
      if (!fa || !fb) { s.pc.push_back(fa ? c : mkNot(c)); enterBlock(s, fa ? x.tgt0 : x.tgt1); s.atJoin = true; if (stopped(s, depth, join)) { out.push_back(sp); return out; } break; }
      nForks++;
      int J = B.ipdom; size_t d = s.st.size();
      State* o = clone(sp); sp->pc.push_back(c); o->pc.push_back(mkNot(c));
      enterBlock(*sp, x.tgt0); enterBlock(*o, x.tgt1); sp->atJoin = o->atJoin = true;
      States a = run(sp, d, J); States m; joinAll(a, m);
      if (stopOnViolation && !violations.empty()) { delete o; for (State* q : m) delete q; return out; }
      States b = run(o, d, J); joinAll(b, m);
      States res; for (State* q : m) { q->atJoin = J >= 0; if (stopped(*q, depth, join)) { res.push_back(q); continue; } if (q->st.empty()) { res.push_back(q); continue; } States r = run(q, depth, join); for (State* z : r) res.push_back(z); }
      if (m.size() > 1) { States r2; joinAll(res, r2); return r2; }
      return res; }
    case Instruction::Switch: {
      T c = getOp(f, x.ops[0]);
      if (!isConst(c)) { // fork on the first case
        for (size_t i = 0; i < x.imm.size(); i += 2) { T e = mkEq(c, mkConst(x.imm[i], c->w)); if (isFalse(e)) continue;
          std::vector<u64> vals; concretise(s, c, vals); States res;
          if (s.ct && !f.harness) { oblige(s, mkBool(false), "ct", "switch depends on secret data"); dieNow(); return out; }
          int J = B.ipdom; size_t d = s.st.size(); States m;
          for (u64 v : vals) { State* q = clone(sp); q->pc.push_back(mkEq(c, mkConst(v, c->w))); int t = x.tgt0; for (size_t k = 0; k < x.imm.size(); k += 2) if (x.imm[k] == v) t = x.imm[k + 1]; enterBlock(*q, t); q->atJoin = true; States r = run(q, d, J); joinAll(r, m); }
          delete sp; for (State* q : m) { q->atJoin = J >= 0; if (stopped(*q, depth, join) || q->st.empty()) { res.push_back(q); continue; } States r = run(q, depth, join); joinAll(r, res); }
          return res; }
        enterBlock(s, x.tgt0); s.atJoin = true; if (stopped(s, depth, join)) { out.push_back(sp); return out; } break;
      }
      int t = x.tgt0; for (size_t i = 0; i < x.imm.size(); i += 2) if (x.imm[i] == c->val) t = x.imm[i + 1];
      enterBlock(s, t); s.atJoin = true; if (stopped(s, depth, join)) { out.push_back(sp); return out; } break; }
    case Instruction::Ret: {
      T rv = x.ops.empty() ? nullptr : getOp(f, x.ops[0]);
      if (!popFrame(s, rv)) { finishPath(s); out.push_back(sp); return out; }
      if (s.st.size() < depth) { out.push_back(sp); return out; }
      break; }
    case Instruction::Unreachable: { oblige(s, mkBool(false), "assert", "unreachable code reached"); dieNow(); return out; }
    case Instruction::Call: {
      av.clear();
      if (x.callee == -2) {
        for (int o : x.ops) av.push_back(getOp(f, o));
        T r; if (av.empty() || !rotAsm(*(std::string*)(uintptr_t)x.imm[0], av[0], av.size() > 1 ? av[1] : nullptr, r)) { if (av.empty()) { f.ip++; break; } giveUp("unmodelled inline assembly: " + *(std::string*)(uintptr_t)x.imm[0]); }
        f.regs[x.dst] = r; f.ip++; break;
      }
      Fn* callee; size_t a0 = 0;
      if (x.callee >= 0) callee = fns[x.callee];
      else {
        T p = getOp(f, x.ops[0]); a0 = 1;
        if (!isConst(p)) { if (T c = firstIte(p)) throw NeedFork{c}; giveUp("call through a symbolic pointer @" + curLoc(s)); }
        if (p->val < FNBASE || (p->val - FNBASE) % 16 || (p->val - FNBASE) / 16 >= fns.size()) { oblige(s, mkBool(false), "memory", "call through an invalid function pointer"); dieNow(); return out; }
        callee = fns[(p->val - FNBASE) / 16];
      }
      for (size_t i = a0; i < x.ops.size(); i++) { if (x.ops[i] < 0 && !f.fn->consts[-x.ops[i] - 1]) { av.push_back(nullptr); continue; } av.push_back(getOp(f, x.ops[i])); }
      Function* F = (Function*)callee->llvm;
      if (F->isDeclaration()) {
        std::string nm = callee->name;
        if (F->isIntrinsic()) {
          unsigned id = F->getIntrinsicID();
          if (id == Intrinsic::memcpy || id == Intrinsic::memcpy_inline) nm = "llvm.memcpy"; else if (id == Intrinsic::memmove) nm = "llvm.memmove"; else if (id == Intrinsic::memset) nm = "llvm.memset";
          else if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::dbg_declare || id == Intrinsic::dbg_value || id == Intrinsic::dbg_label || id == Intrinsic::assume || id == Intrinsic::prefetch || id == Intrinsic::experimental_noalias_scope_decl) { f.ip++; break; }
          else if (id == Intrinsic::fshl || id == Intrinsic::fshr) {
            T k = av[2]; T r; if (av[0] == av[1]) r = id == Intrinsic::fshl ? mkRotl(av[0], k) : mkRotr(av[0], k);
            else { if (!isConst(k)) giveUp("funnel shift"); unsigned w = av[0]->w, kk = k->val % w; if (id == Intrinsic::fshr) kk = (w - kk) % w; if (!kk) r = id == Intrinsic::fshl ? av[0] : av[1]; else r = mkConcat({mkExtract(av[0], w - 1 - kk, 0), mkExtract(av[1], w - 1, w - kk)}); }
            f.regs[x.dst] = r; f.ip++; break; }
          else if (id == Intrinsic::bswap) { std::vector<T> b; for (unsigned i = 0; i < av[0]->w; i += 8) b.push_back(mkExtract(av[0], i + 7, i)); f.regs[x.dst] = mkConcat(b); f.ip++; break; }
          else if (id == Intrinsic::umin || id == Intrinsic::umax || id == Intrinsic::smin || id == Intrinsic::smax) { T c = (id == Intrinsic::umin || id == Intrinsic::umax) ? mkUlt(av[0], av[1]) : mkSlt(av[0], av[1]); bool mn = id == Intrinsic::umin || id == Intrinsic::smin; f.regs[x.dst] = mkIte(c, mn ? av[0] : av[1], mn ? av[1] : av[0]); f.ip++; break; }
          else if (id == Intrinsic::abs) { f.regs[x.dst] = mkIte(mkExtract(av[0], av[0]->w - 1, av[0]->w - 1), mkNeg(av[0]), av[0]); f.ip++; break; }
          else if (id == Intrinsic::expect) { f.regs[x.dst] = av[0]; f.ip++; break; }
          else if (id == Intrinsic::stacksave || id == Intrinsic::stackrestore) { if (x.dst >= 0) f.regs[x.dst] = mkConst(0, 64); f.ip++; break; }
          else giveUp("unmodelled intrinsic " + nm);
        }
        for (T t : av) if (!t) giveUp("unsupported argument type in call to " + nm);
        int r = builtin(sp, nm, x, av, depth, join, out);
        if (r == 0) giveUp("call of unmodelled external function " + nm + " @" + curLoc(s));
        if (r == 1) { f.ip++; break; }
        if (r == 2) { dieNow(); return out; }
        return out;
      }
      if (!callee->compiled) compileFn(callee);
      callee->calls++;
      if (s.st.size() > 400) giveUp("recursion too deep");
      for (T t : av) if (!t) giveUp("unsupported argument type in call to " + callee->name);
      f.ip++;
      Frame nf; nf.fn = callee; nf.regs.assign(callee->nregs, nullptr); nf.bb = 0; nf.ip = 0; nf.retReg = x.dst; nf.sbase = s.stack.size(); nf.harness = !callee->lib;
      for (int i = 0; i < callee->nargs && i < (int)av.size(); i++) nf.regs[i] = av[i];
      s.st.push_back(std::move(nf));
      break; }
    case Instruction::ExtractValue: case Instruction::InsertValue: giveUp("aggregate value @" + curLoc(s));
    default: {
      if (x.ops.size() != 2 || x.w == 255) giveUp(std::string("unsupported instruction ") + Instruction::getOpcodeName(x.opc) + " @" + curLoc(s));
      bool ok; T r = binop(s, x.opc, getOp(f, x.ops[0]), getOp(f, x.ops[1]), x.pred, ok); if (!ok) { dieNow(); return out; }
      f.regs[x.dst] = optCanon ? canon(r) : r; f.ip++; }
    }
    if (stopOnViolation && !violations.empty()) { delete sp; return out; }
    } catch (NeedFork& nf) {
      return forkOn(nf.cond, true);
    } catch (NeedConc& nc) {
      int oi = x.ops[nc.reg + (x.callee == -1 ? 1 : 0)]; T t = getOp(f, oi); std::vector<u64> vals; concretise(s, t, vals); States r;
      for (u64 v : vals) { State* q = clone(sp); q->pc.push_back(mkEq(t, mkConst(v, t->w))); if (oi >= 0) q->st.back().regs[oi] = mkConst(v, t->w); nForks++; States z = run(q, depth, join); joinAll(z, r); }
      delete sp; return r;
    }
  }
}

// ------------------------------------------------------------------ sweeping
// Simulation-guided merging of equal subterms, each merge proved by the solver over a bounded cone.
T sweepProve(const std::vector<T>& pc, T cond, double budget) {
  double t0 = now();
  std::vector<T> nodes; { std::vector<bool> seen(g_terms.size(), false); std::vector<T> st{cond}; while (!st.empty()) { T t = st.back(); st.pop_back(); if (seen[t->id]) continue; seen[t->id] = true; nodes.push_back(t); for (u32 i = 0; i < t->n; i++) st.push_back(t->args[i]); } }
  std::sort(nodes.begin(), nodes.end(), [](T a, T b) { return a->id < b->id; });
  const int L = 32; 
  std::unordered_map<u32, std::vector<u64>> sig; u64 seed = g_seed * 77 + 5;
  auto rnd = [&]() { seed += 0x9E3779B97F4A7C15ull; u64 z = seed; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); };
  std::function<const std::vector<u64>&(T)> S = [&](T t) -> const std::vector<u64>& {
    auto it = sig.find(t->id); if (it != sig.end()) return it->second;
    // iterative evaluation
    std::vector<std::pair<T, u32>> st{{t, 0}};
    while (!st.empty()) {
      T u = st.back().first; if (sig.count(u->id)) { st.pop_back(); continue; }
      if (st.back().second < u->n) { T c = u->args[st.back().second++]; if (!sig.count(c->id)) st.push_back({c, 0}); continue; }
      std::vector<u64> r(L);
      if (u->op == O_VAR) { for (int l = 0; l < L; l++) r[l] = l < NL ? u->sig[l] : rnd() & maskw(u->w); }
      else if (u->op == O_TLOOKUP) { auto& ix = sig[u->args[1]->id]; for (int l = 0; l < L; l++) r[l] = ix[l] < u->args[0]->n ? sig[u->args[0]->args[ix[l]]->id][l] : 0; }
      else if (u->op != O_TUPLE) { std::vector<const std::vector<u64>*> as(u->n); for (u32 i = 0; i < u->n; i++) as[i] = &sig[u->args[i]->id]; std::vector<u64> a(u->n + 1); for (int l = 0; l < L; l++) { for (u32 i = 0; i < u->n; i++) a[i] = (*as[i])[l]; r[l] = evalNode(u, a.data()); } }
      sig[u->id] = std::move(r); st.pop_back();
    }
    return sig[t->id];
  };
  std::map<std::pair<u8, u64>, std::vector<T>> cls; std::unordered_map<u32, T> rep; u64 tried = 0, ok = 0;
  auto hashSig = [&](T t) { auto& v = S(t); u64 h = 1469598103934665603ull; for (u64 x : v) { h ^= x; h *= 1099511628211ull; h ^= h >> 31; } return h; };
  auto prove = [&](T a, T b) -> bool {
    T e = mkEq(a, b); if (isTrue(e)) return true; if (isFalse(e)) return false;
    for (int d : {4, 8, 16, 40}) {
      // nodes at distance > d are cut
      std::unordered_map<u32, int> dist; std::vector<T> q{e}; dist[e->id] = 0; bool full = true;
      for (size_t i = 0; i < q.size(); i++) { T t = q[i]; int dd = dist[t->id]; if (dd >= d && t->op != O_TUPLE) { if (t->n) full = false; continue; } for (u32 k = 0; k < t->n; k++) if (!dist.count(t->args[k]->id)) { dist[t->args[k]->id] = dd + (t->op == O_CONCAT || t->op == O_EXTRACT || t->op == O_TUPLE ? 0 : 1); q.push_back(t->args[k]); } if (q.size() > 6000) break; }
      if (q.size() > 6000) return false;
      std::function<bool(T)> cut = [&](T t) { if (t->op == O_CONST || t->op == O_TUPLE) return false; auto it = dist.find(t->id); return it == dist.end() || it->second >= d; };
      SatRes r = smtCheck({mkNot(e)}, d <= 8 ? 1500 : 4000, nullptr, &cut);
      if (r == UNSAT) return true;
      if (r == SAT && full) return false;
      if (r == UNKNOWN && d >= 16) return false;
      if (now() - t0 > budget) return false;
    }
    return false;
  };
  for (T t : nodes) {
    T r = rebuild(t, [&](T a) { auto it = rep.find(a->id); return it == rep.end() ? a : it->second; });
    auto itr = rep.find(r->id); if (itr != rep.end()) r = itr->second;
    if (r->op != O_TUPLE && r->op != O_CONST && r->w >= 4 && r->op != O_CONCAT && now() - t0 < budget) {
      auto& c = cls[{r->w, hashSig(r)}]; bool found = false; int n = 0;
      for (T q : c) { if (q == r) { found = true; break; } if (n++ >= 4) break; tried++; if (prove(r, q)) { ok++; rep[r->id] = q; r = q; found = true; break; } }
      if (!found) c.push_back(r);
    }
    rep[t->id] = r;
  }
  if (getenv("KSYM_DEBUG")) fprintf(stderr, "sweep: %zu nodes, %llu candidate pairs, %llu merged, %.1fs\n", nodes.size(), (unsigned long long)tried, (unsigned long long)ok, now() - t0);
  return rep[cond->id];
}

// ------------------------------------------------------------------ main
static std::string jstr(const std::string& s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r + "\""; }
static void initGlobal(Obj& o, u64 off, const Constant* C) {
  Type* t = C->getType(); u64 n = DL->getTypeStoreSize(t);
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) { for (u64 i = 0; i < DL->getTypeAllocSize(t); i++) o.cells[off + i] = {mkConst(0, 8), 0}; return; }
  if (auto* CD = dyn_cast<ConstantDataSequential>(C)) { u64 es = CD->getElementByteSize(); for (unsigned i = 0; i < CD->getNumElements(); i++) { u64 v = CD->getElementType()->isIntegerTy() ? CD->getElementAsInteger(i) : 0; storeConc(o, off + i * es, mkConst(v, es * 8)); } return; }
  if (auto* CA = dyn_cast<ConstantArray>(C)) { u64 es = DL->getTypeAllocSize(CA->getType()->getElementType()); for (unsigned i = 0; i < CA->getNumOperands(); i++) initGlobal(o, off + i * es, CA->getOperand(i)); return; }
  if (auto* CS = dyn_cast<ConstantStruct>(C)) { auto* sl = DL->getStructLayout(CS->getType()); for (unsigned i = 0; i < CS->getNumOperands(); i++) initGlobal(o, off + sl->getElementOffset(i), CS->getOperand(i)); return; }
  if (t->isIntegerTy() || t->isPointerTy()) { T v = constTerm(C); if (v->w % 8) v = mkZext(v, n * 8); storeConc(o, off, v); return; }
  if (t->isFloatingPointTy()) { for (u64 i = 0; i < n; i++) o.cells[off + i] = {mkConst(0, 8), 0}; return; }
  giveUp("global initialiser");
}
int main(int argc, char** argv) {
  { // deep terms are walked recursively: run with a large stack
    struct rlimit rl;
    if (!getenv("KSYM_STACK") && !getrlimit(RLIMIT_STACK, &rl) && rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ull << 30)) {
      rl.rlim_cur = rl.rlim_max == RLIM_INFINITY || rl.rlim_max > (2ull << 30) ? (2ull << 30) : rl.rlim_max;
      setenv("KSYM_STACK", "1", 1);
      if (!setrlimit(RLIMIT_STACK, &rl)) execv("/proc/self/exe", argv);
    }
  }
  std::string file, entry = "ks_main", outf;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--entry") entry = argv[++i];
    else if (a == "--param") { std::string p = argv[++i]; size_t e = p.find('='); params[p.substr(0, e)] = strtoll(p.c_str() + e + 1, nullptr, 0); }
    else if (a == "--out") outf = argv[++i];
    else if (a == "--gran") g_gran = atoi(argv[++i]);
    else if (a == "--symw") symw = atoi(argv[++i]);
    else if (a == "--le") symBE = false;
    else if (a == "--seed") g_seed = strtoull(argv[++i], nullptr, 0);
    else if (a == "--time") tLimit = atof(argv[++i]);
    else if (a == "--qtime") qTimeout = atoi(argv[++i]);
    else if (a == "--solver") g_solver = argv[++i];
    else if (a == "--dump") g_dumpdir = argv[++i];
    else if (a == "--ub") optUB = true;
    else if (a == "--wipe") optWipe = true;
    else if (a == "--global") optGlobal = true;
    else if (a == "--flat") g_xorflat = atoi(argv[++i]);
    else if (a == "--nocanon") optCanon = false;
    else if (a == "--cut") g_cutN = atoi(argv[++i]);
    else if (a == "--keep-going") stopOnViolation = false;
    else file = a;
  }
  tStart = now();
  std::string status = "ok", why;
  try {
    SMDiagnostic err; mod = parseIRFile(file, err, ctx);
    if (!mod) { fprintf(stderr, "cannot read %s: %s\n", file.c_str(), err.getMessage().str().c_str()); return 3; }
    DL = &mod->getDataLayout();
    for (auto& F : *mod) { Fn* f = new Fn; f->name = F.getName().str(); f->llvm = &F; f->compiled = false; f->lib = isLibFile(&F); f->nregs = f->nargs = 0; f->vararg = F.isVarArg(); fnIdx[&F] = fns.size(); fns.push_back(f); }
    State* s = new State; s->failAt = -1; s->allocs = 0; s->live = 0; s->dead = false; s->ct = false; s->atJoin = false;
    std::vector<std::pair<const GlobalVariable*, u32>> gl;
    for (auto& G : mod->globals()) {
      if (G.getName().starts_with("llvm.")) continue;
      u64 n = DL->getTypeAllocSize(G.getValueType()); u64 p = newHeap(*s, n, "global " + G.getName().str(), false); gaddr[&G] = p; gl.push_back({&G, (u32)s->heap.size() - 1});
    }
    for (auto& g : gl) { Obj& o = *s->heap[g.second]; o.global = true; o.ro = g.first->isConstant(); StringRef n = g.first->getName(); o.harness = n.starts_with("h_") || n.starts_with("ref_") || n.contains(".ref_"); if (g.first->hasInitializer()) { initGlobal(o, 0, g.first->getInitializer()); for (auto& c : o.cells) if (!c.t) c = {mkConst(0, 8), 0}; } }
    Function* F = mod->getFunction(entry); if (!F || F->isDeclaration()) { fprintf(stderr, "no function %s\n", entry.c_str()); return 3; }
    Fn* f = fns[fnIdx[F]]; compileFn(f);
    Frame fr; fr.fn = f; fr.regs.assign(f->nregs, nullptr); fr.bb = fr.ip = 0; fr.retReg = -1; fr.sbase = 0; fr.harness = true; s->st.push_back(fr);
    States r = run(s, 1, -1);
    (void)r;
  } catch (Abort& a) { status = "inconclusive"; why = a.why; }
  if (!violations.empty()) status = "violation";
  else if (status == "ok" && !problems.empty()) { status = "inconclusive"; why = problems[0]; }
  std::string j = "{\"status\":" + jstr(status) + ",\"why\":" + jstr(why);
  j += ",\"problems\":["; for (size_t i = 0; i < problems.size() && i < 20; i++) j += (i ? "," : "") + jstr(problems[i]); j += "]";
  char b[1024];
  snprintf(b, sizeof b, ",\"paths\":%llu,\"forks\":%llu,\"merges\":%llu,\"instructions\":%llu,\"obligations\":%llu,\"by_normal_form\":%llu,\"by_solver\":%llu,\"by_sweep\":%llu,\"eq_bytes\":%llu,\"queries\":%llu,\"unsat\":%llu,\"sat\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,\"terms\":%zu,\"vars\":%zu,\"wall_s\":%.3f,\"freed_blocks\":%llu,\"freed_bytes\":%llu,\"alloc_failures\":%llu,\"sym_accesses\":%llu",
    (unsigned long long)nPaths, (unsigned long long)nForks, (unsigned long long)nMerge, (unsigned long long)nIns, (unsigned long long)nOblig, (unsigned long long)nTrivial, (unsigned long long)nSolver, (unsigned long long)nSweepEq, (unsigned long long)nEqBytes,
    (unsigned long long)g_smt.queries, (unsigned long long)g_smt.unsat, (unsigned long long)g_smt.sat, (unsigned long long)g_smt.unknown, g_smt.secs, g_terms.size(), g_vars.size(), now() - tStart, (unsigned long long)nWipeChecked, (unsigned long long)nWipeBytes, (unsigned long long)nAllocFail, (unsigned long long)nMem);
  j += b;
  snprintf(b, sizeof b, ",\"prove_candidates\":%llu,\"prove_linear\":%llu,\"prove_table\":%llu,\"prove_smt\":%llu,\"prove_failed\":%llu,\"prove_s\":%.3f", g_prove.cand, g_prove.linear, g_prove.table, g_prove.smt, g_prove.failed, g_prove.secs); j += b;
  j += ",\"covers\":{"; bool first = true; for (auto& c : covers) { j += (first ? "" : ",") + jstr(c.first) + ":" + std::to_string(c.second); first = false; } j += "}";
  j += ",\"notes\":{"; first = true; for (auto& c : notes) { j += (first ? "" : ",") + jstr(c.first) + ":" + c.second; first = false; } j += "}";
  j += ",\"functions\":{"; first = true; for (Fn* f : fns) if (f->calls && f->lib) { j += (first ? "" : ",") + jstr(f->name) + ":" + std::to_string(f->execIns); first = false; } j += "}";
  j += ",\"violations\":["; 
  for (size_t i = 0; i < violations.size(); i++) { Violation& v = violations[i]; if (i) j += ",";
    j += "{\"kind\":" + jstr(v.kind) + ",\"msg\":" + jstr(v.msg) + ",\"loc\":" + jstr(v.loc) + ",\"choices\":["; for (size_t k = 0; k < v.choices.size(); k++) j += (k ? "," : "") + std::string("[") + jstr(v.choices[k].first) + "," + std::to_string(v.choices[k].second) + "]";
    j += "],\"model\":{"; first = true; for (auto& m : v.model) { if (m.first.find('!') != std::string::npos) continue; snprintf(b, sizeof b, "\"%llx\"", (unsigned long long)m.second); j += (first ? "" : ",") + jstr(m.first) + ":" + b; first = false; } j += "}}"; }
  j += "]}\n";
  if (outf.empty()) fputs(j.c_str(), stdout); else { FILE* o = fopen(outf.c_str(), "w"); if (o) { fputs(j.c_str(), o); fclose(o); } }
  smtClose(); fflush(stdout);
  _exit(status == "ok" ? 0 : status == "violation" ? 1 : 2);
}
