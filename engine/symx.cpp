// symx: symbolic executor for LLVM IR.  See ../DESIGN.md.
#include "solver.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <map>
#include <memory>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cmath>

using namespace llvm;
typedef uint64_t u64;

static ExprPool* POOL; static Solver* SOLVER;
#define P (*POOL)

struct V { u64 v; E e; };
static inline V C(u64 v) { return V{v, nullptr}; }
static inline V mkV(E e) { if (ExprPool::isC(e)) return V{e->val, nullptr}; return V{0, e}; }
static inline E toE(const V& v, unsigned w) { return v.e ? v.e : P.cst(v.v, w); }

// ---------------------------------------------------------------- memory
enum OK { O_HEAP, O_STACK, O_GLOBAL, O_FUNC };
struct SB { E e; uint8_t idx; };
struct Obj { int rc; uint32_t size; uint8_t kind; bool ro; uint8_t* d; SB* s; };
static const unsigned OFFB = 24; static const u64 OFFM = (1ull << OFFB) - 1;
struct Page { int rc; Obj* o[64]; };
static void objUnref(Obj* o) { if (--o->rc == 0) { free(o->d); free(o->s); delete o; } }
static Obj* objNew(uint32_t size, OK k, uint8_t fill) {
  Obj* o = new Obj; o->rc = 1; o->size = size; o->kind = k; o->ro = false; o->s = nullptr;
  o->d = (uint8_t*)malloc(size ? size : 1); memset(o->d, fill, size); return o;
}
struct Mem {
  std::vector<Page*> pg; u64 next = 1;
  Mem() {}
  Mem(const Mem& m) : pg(m.pg), next(m.next) { for (auto p : pg) if (p) p->rc++; }
  Mem& operator=(const Mem&) = delete;
  ~Mem() { for (auto p : pg) unref(p); }
  static void unref(Page* p) { if (p && --p->rc == 0) { for (auto o : p->o) if (o) objUnref(o); delete p; } }
  Obj* get(u64 id) const { u64 pi = id >> 6; if (pi >= pg.size() || !pg[pi]) return nullptr; return pg[pi]->o[id & 63]; }
  Page* wpage(u64 pi) {
    if (pi >= pg.size()) pg.resize(pi + 1, nullptr);
    Page* p = pg[pi];
    if (!p) { p = new Page; p->rc = 1; memset(p->o, 0, sizeof p->o); pg[pi] = p; }
    else if (p->rc > 1) { Page* q = new Page; q->rc = 1; memcpy(q->o, p->o, sizeof q->o); for (auto o : q->o) if (o) o->rc++; p->rc--; pg[pi] = p = q; }
    return p;
  }
  Obj* wobj(u64 id) {
    Page* p = wpage(id >> 6); Obj* o = p->o[id & 63];
    if (o->rc > 1) { Obj* n = new Obj(*o); n->rc = 1; n->d = (uint8_t*)malloc(o->size ? o->size : 1); memcpy(n->d, o->d, o->size);
      if (o->s) { n->s = (SB*)malloc(sizeof(SB) * o->size); memcpy(n->s, o->s, sizeof(SB) * o->size); }
      o->rc--; p->o[id & 63] = o = n; }
    return o;
  }
  u64 alloc(uint32_t size, OK k, uint8_t fill) {
    u64 id = next++; wpage(id >> 6)->o[id & 63] = objNew(size, k, fill); return id;
  }
  void freeObj(u64 id) {
    Page* p = wpage(id >> 6); objUnref(p->o[id & 63]); p->o[id & 63] = nullptr;
    bool any = false; for (auto o : p->o) if (o) { any = true; break; }
    if (!any && (next >> 6) != (id >> 6)) { delete p; pg[id >> 6] = nullptr; }
  }
};

// ---------------------------------------------------------------- bytecode
struct Op { int32_t slot; u64 c; };
enum IK : uint8_t { I_BIN, I_ICMP, I_SELECT, I_TRUNC, I_ZEXT, I_SEXT, I_COPY, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_CBR, I_SWITCH,
  I_RET, I_CALL, I_INVOKE, I_LPAD, I_RESUME, I_EXTRACT, I_INSERT, I_UNREACH, I_FBIN, I_FCMP, I_FCAST, I_RMW, I_CMPXCHG, I_NOP, I_BAD };
struct FlatEl { uint32_t off; uint16_t w; bool fp; };
struct Func;
struct SwCase { u64 v; int blk; };
struct Inst {
  IK k; uint8_t w = 0, w2 = 0; uint8_t sub = 0; bool fp = false;
  int32_t dst = -1; uint32_t nd = 0;          // dst slots
  std::vector<Op> ops; std::vector<FlatEl> fl; // load/store layout
  std::vector<u64> scales; u64 base = 0;       // GEP / alloca size / insert index
  int b0 = -1, b1 = -1; std::vector<SwCase> cases;
  const Function* callee = nullptr; int builtin = -1; std::vector<uint32_t> argn; std::vector<uint16_t> argw;
  const Instruction* I = nullptr;
};
struct Phi { int32_t dst; uint32_t n; std::vector<Op> src; };  // src: n per pred edge
struct Blk { std::vector<Inst> in; std::map<int, std::vector<std::pair<int32_t, Op>>> phis; uint64_t hits = 0; };
struct Func {
  const Function* F; std::vector<Blk> b; int nslots = 0; std::vector<std::pair<int32_t, uint32_t>> args; bool compiled = false; bool entered = false;
};

struct Frame { Func* f; int blk, ip; const Inst* call; std::vector<V> r; std::vector<u64> allocas; u64 va = 0; };
struct Exc { u64 obj, ti; };
struct State {
  std::vector<Frame> st; Mem mem; std::vector<E> cs; std::vector<u64> model; std::vector<uint32_t> syms;
  std::vector<Exc> caught; u64 steps = 0; u64 lastExcObj = 0, lastExcTi = 0; u64 nbr = 0;
  std::unordered_map<E, u64> eqs; const VarSet* eqVars = nullptr; std::vector<std::pair<std::string, V>> dumps;   // known equalities, used to simplify
};

struct Shared { volatile int slot[64]; volatile int pid[64]; volatile int stop; volatile int nviol; volatile int wrong; volatile u64 paths; volatile int forks; };

struct Violation { std::string kind, msg, loc; std::vector<std::pair<std::string, u64>> as; std::vector<unsigned> ws; };

struct Term { int kind; };   // thrown to end the current path
struct Refork {};            // not used

struct Exec {
  LLVMContext ctx; std::unique_ptr<Module> M; const DataLayout* DL;
  std::unordered_map<const Function*, Func*> funcs; std::unordered_map<const GlobalValue*, u64> gaddr; std::unordered_map<u64, const Function*> fnById;
  std::unordered_map<u64, const GlobalVariable*> gvById;
  std::vector<State*> stack; State* S = nullptr;
  Shared* sh; int mySlot = 0; int nworkers = 8; std::string outdir; double t0, maxTime = 600; u64 maxSteps = 50000000; int maxViol = 3; u64 maxRssMB = 3500;
  // stats
  u64 paths = 0, pathsOk = 0, forks = 0, steps = 0, checksSolver = 0, checksConst = 0, infeasible = 0, unsupported = 0, timeouts = 0, unknowns = 0;
  std::map<std::string, u64> reach; std::map<std::string, u64> unsup; std::vector<Violation> viol; std::set<std::string> vseen;
  std::map<std::string, u64> checkMsgs;
  std::unordered_map<std::string, E> varByName;
  typedef void (*BFn)(Exec&, const Inst&, std::vector<V>&, std::vector<V>&);
  std::vector<BFn> bfn; std::unordered_map<std::string, int> bidx; bool jumped = false; bool trace = false;
  std::vector<std::string> samples;

  // ---------- flatten types
  unsigned nsl(Type* t) {
    if (auto* s = dyn_cast<StructType>(t)) { unsigned n = 0; for (auto* e : s->elements()) n += nsl(e); return n; }
    if (auto* a = dyn_cast<ArrayType>(t)) return a->getNumElements() * nsl(a->getElementType());
    if (auto* v = dyn_cast<FixedVectorType>(t)) return v->getNumElements() * nsl(v->getElementType());
    if (t->isVoidTy()) return 0;
    return 1;
  }
  unsigned width(Type* t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; if (t->isX86_FP80Ty()) return 80; return 0; }
  void flat(Type* t, u64 off, std::vector<FlatEl>& o) {
    if (auto* s = dyn_cast<StructType>(t)) { auto* L = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) flat(s->getElementType(i), off + L->getElementOffset(i), o); return; }
    if (auto* a = dyn_cast<ArrayType>(t)) { u64 z = DL->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); i++) flat(a->getElementType(), off + i * z, o); return; }
    if (auto* v = dyn_cast<FixedVectorType>(t)) { u64 z = DL->getTypeAllocSize(v->getElementType()); for (unsigned i = 0; i < v->getNumElements(); i++) flat(v->getElementType(), off + i * z, o); return; }
    FlatEl f; f.off = off; f.w = width(t); f.fp = t->isFloatingPointTy(); o.push_back(f);
  }
  void constSlots(const Constant* c, std::vector<u64>& o) {
    Type* t = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) { for (unsigned i = 0, n = nsl(t); i < n; i++) o.push_back(0); return; }
    if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) { o.push_back(ci->getValue().getRawData()[0]); return; } o.push_back(ci->getZExtValue()); return; }
    if (auto* f = dyn_cast<ConstantFP>(c)) { o.push_back(f->getValueAPF().bitcastToAPInt().getRawData()[0]); return; }
    if (auto* g = dyn_cast<GlobalValue>(c)) { if (auto* ga = dyn_cast<GlobalAlias>(g)) { constSlots(ga->getAliasee(), o); return; } o.push_back(gaddr.at(g)); return; }
    if (auto* ds = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < ds->getNumElements(); i++) constSlots(ds->getElementAsConstant(i), o); return; }
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) { for (auto& op : ca->operands()) constSlots(cast<Constant>(op), o); return; }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
      if (auto* gep = dyn_cast<GEPOperator>(ce)) {
        std::vector<u64> b; constSlots(cast<Constant>(gep->getPointerOperand()), b);
        APInt off(64, 0); if (!gep->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "const gep\n"); exit(3); }
        o.push_back(b[0] + off.getSExtValue()); return; }
      std::vector<u64> a; for (auto& op : ce->operands()) constSlots(cast<Constant>(op), a);
      unsigned w = width(ce->getOperand(0)->getType()), rw = width(t);
      switch (ce->getOpcode()) {
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::ZExt: o.push_back(a[0] & maskw(rw)); return;
        case Instruction::Trunc: o.push_back(a[0] & maskw(rw)); return;
        case Instruction::SExt: o.push_back(sx(a[0], w) & maskw(rw)); return;
        case Instruction::Add: o.push_back((a[0] + a[1]) & maskw(rw)); return;
        case Instruction::Sub: o.push_back((a[0] - a[1]) & maskw(rw)); return;
        case Instruction::And: o.push_back(a[0] & a[1]); return; case Instruction::Or: o.push_back(a[0] | a[1]); return; case Instruction::Xor: o.push_back(a[0] ^ a[1]); return;
        case Instruction::ICmp: { auto pr = (CmpInst::Predicate)ce->getPredicate(); bool r = pr == CmpInst::ICMP_EQ ? a[0] == a[1] : pr == CmpInst::ICMP_NE ? a[0] != a[1] : a[0] < a[1]; o.push_back(r); return; }
        default: break;
      }
    }
    std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "symx: unhandled constant %s\n", s.c_str()); exit(3);
  }

  // ---------- compile
  Func* getFunc(const Function* F) {
    auto it = funcs.find(F); Func* f;
    if (it == funcs.end()) { f = new Func; f->F = F; funcs[F] = f; } else f = it->second;
    if (!f->compiled) compile(f);
    return f;
  }
  void compile(Func* f) {
    f->compiled = true; const Function& F = *f->F;
    std::unordered_map<const Value*, int> slot; int n = 0;
    for (auto& a : F.args()) { slot[&a] = n; unsigned k = nsl(a.getType()); f->args.push_back({n, k}); n += k; }
    std::unordered_map<const BasicBlock*, int> bi; int bn = 0;
    for (auto& b : F) { bi[&b] = bn++; for (auto& i : b) if (!i.getType()->isVoidTy() && !i.getType()->isTokenTy()) { slot[&i] = n; n += nsl(i.getType()); } }
    f->nslots = n; f->b.resize(bn);
    auto ops = [&](const Value* v, std::vector<Op>& o) {
      if (auto* c = dyn_cast<Constant>(v)) { std::vector<u64> x; constSlots(c, x); for (auto y : x) o.push_back(Op{-1, y}); return; }
      if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) { o.push_back(Op{-1, 0}); return; }
      int s = slot.at(v); for (unsigned i = 0, k = nsl(v->getType()); i < k; i++) o.push_back(Op{s + (int)i, 0});
    };
    for (auto& b : F) {
      Blk& B = f->b[bi[&b]];
      for (auto& I : b) {
        if (auto* ph = dyn_cast<PHINode>(&I)) {
          for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) {
            std::vector<Op> o; ops(ph->getIncomingValue(i), o); auto& lst = B.phis[bi[ph->getIncomingBlock(i)]];
            bool dup = false; for (auto& q : lst) if (q.first == slot[ph]) dup = true;
            if (dup) continue;
            for (unsigned j = 0; j < o.size(); j++) lst.push_back({slot[ph] + (int)j, o[j]}); }
          continue;
        }
        Inst X; X.I = &I; X.k = I_BAD;
        if (!I.getType()->isVoidTy() && !I.getType()->isTokenTy()) { X.dst = slot[&I]; X.nd = nsl(I.getType()); }
        Type* T0 = I.getNumOperands() ? I.getOperand(0)->getType() : nullptr;
        X.w = std::min(255u, T0 ? width(T0) : 0); X.w2 = std::min(255u, width(I.getType()));
        if (auto* bo = dyn_cast<BinaryOperator>(&I)) {
          ops(bo->getOperand(0), X.ops); ops(bo->getOperand(1), X.ops);
          if (bo->getType()->isFPOrFPVectorTy()) { X.k = I_FBIN; X.sub = bo->getOpcode(); X.w = width(bo->getType()->getScalarType()); }
          else { X.k = I_BIN; X.w = width(bo->getType()->getScalarType());
            switch (bo->getOpcode()) {
              case Instruction::Add: X.sub = K_ADD; break; case Instruction::Sub: X.sub = K_SUB; break; case Instruction::Mul: X.sub = K_MUL; break;
              case Instruction::UDiv: X.sub = K_UDIV; break; case Instruction::SDiv: X.sub = K_SDIV; break; case Instruction::URem: X.sub = K_UREM; break; case Instruction::SRem: X.sub = K_SREM; break;
              case Instruction::And: X.sub = K_AND; break; case Instruction::Or: X.sub = K_OR; break; case Instruction::Xor: X.sub = K_XOR; break;
              case Instruction::Shl: X.sub = K_SHL; break; case Instruction::LShr: X.sub = K_LSHR; break; case Instruction::AShr: X.sub = K_ASHR; break; default: X.k = I_BAD; }
            if (X.w == 0 || X.w > 64) X.k = I_BAD; }
        } else if (auto* ic = dyn_cast<ICmpInst>(&I)) { X.k = I_ICMP; X.sub = ic->getPredicate(); X.w = width(T0->getScalarType()); ops(ic->getOperand(0), X.ops); ops(ic->getOperand(1), X.ops); if (X.w > 64) X.k = I_BAD; }
        else if (auto* fc = dyn_cast<FCmpInst>(&I)) { X.k = I_FCMP; X.sub = fc->getPredicate(); ops(fc->getOperand(0), X.ops); ops(fc->getOperand(1), X.ops); }
        else if (isa<SelectInst>(&I)) { X.k = I_SELECT; ops(I.getOperand(0), X.ops); ops(I.getOperand(1), X.ops); ops(I.getOperand(2), X.ops); flat(I.getType(), 0, X.fl); if (T0->isVectorTy()) X.sub = 1; }
        else if (isa<CastInst>(&I)) {
          ops(I.getOperand(0), X.ops); X.w = width(T0->getScalarType()); X.w2 = width(I.getType()->getScalarType());
          switch (I.getOpcode()) {
            case Instruction::Trunc: X.k = I_TRUNC; break; case Instruction::ZExt: X.k = I_ZEXT; break; case Instruction::SExt: X.k = I_SEXT; break;
            case Instruction::PtrToInt: case Instruction::IntToPtr: X.k = X.w2 < X.w ? I_TRUNC : X.w2 > X.w ? I_ZEXT : I_COPY; break;
            case Instruction::BitCast: X.k = nsl(T0) == X.nd ? I_COPY : I_BAD; break; case Instruction::AddrSpaceCast: X.k = I_COPY; break;
            default: X.k = I_FCAST; X.sub = I.getOpcode(); X.w = std::min(255u, width(T0)); }
          if (X.w > 64 || X.w2 > 64) if (X.k != I_FCAST) X.k = I_BAD;
        } else if (isa<FreezeInst>(&I)) { X.k = I_COPY; ops(I.getOperand(0), X.ops); }
        else if (auto* l = dyn_cast<LoadInst>(&I)) { X.k = I_LOAD; ops(l->getPointerOperand(), X.ops); flat(l->getType(), 0, X.fl); }
        else if (auto* s = dyn_cast<StoreInst>(&I)) { X.k = I_STORE; ops(s->getPointerOperand(), X.ops); ops(s->getValueOperand(), X.ops); flat(s->getValueOperand()->getType(), 0, X.fl); }
        else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
          X.k = I_GEP; ops(g->getPointerOperand(), X.ops); int64_t cst = 0;
          if (g->getType()->isVectorTy()) X.k = I_BAD;
          else for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
            if (StructType* st = gi.getStructTypeOrNull()) { cst += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue()); continue; }
            int64_t z = DL->getTypeAllocSize(gi.getIndexedType());
            if (auto* ci = dyn_cast<ConstantInt>(gi.getOperand())) { cst += ci->getSExtValue() * z; continue; }
            ops(gi.getOperand(), X.ops); X.scales.push_back(z); X.argw.push_back(width(gi.getOperand()->getType())); }
          X.base = cst;
        } else if (auto* a = dyn_cast<AllocaInst>(&I)) { X.k = I_ALLOCA; X.base = DL->getTypeAllocSize(a->getAllocatedType()); ops(a->getArraySize(), X.ops); }
        else if (auto* br = dyn_cast<BranchInst>(&I)) {
          if (br->isConditional()) { X.k = I_CBR; ops(br->getCondition(), X.ops); X.b0 = bi[br->getSuccessor(0)]; X.b1 = bi[br->getSuccessor(1)]; }
          else { X.k = I_BR; X.b0 = bi[br->getSuccessor(0)]; }
        } else if (auto* sw = dyn_cast<SwitchInst>(&I)) { X.k = I_SWITCH; ops(sw->getCondition(), X.ops); X.b0 = bi[sw->getDefaultDest()]; for (auto& c : sw->cases()) X.cases.push_back({c.getCaseValue()->getZExtValue(), bi[c.getCaseSuccessor()]}); }
        else if (isa<ReturnInst>(&I)) { X.k = I_RET; if (I.getNumOperands()) ops(I.getOperand(0), X.ops); }
        else if (auto* cb = dyn_cast<CallBase>(&I)) {
          X.k = isa<InvokeInst>(cb) ? I_INVOKE : I_CALL;
          if (auto* iv = dyn_cast<InvokeInst>(cb)) { X.b0 = bi[iv->getNormalDest()]; X.b1 = bi[iv->getUnwindDest()]; }
          const Value* cv = cb->getCalledOperand()->stripPointerCasts();
          if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
          bool nop = isa<DbgInfoIntrinsic>(cb);
          if (auto* fn = dyn_cast<Function>(cv)) { X.callee = fn; std::string nm = fn->getName().str();
            if (nm.compare(0, 13, "llvm.lifetime") == 0 || nm.compare(0, 11, "llvm.assume") == 0 || nm.rfind("llvm.experimental.noalias", 0) == 0 || nm.compare(0, 9, "llvm.dbg.") == 0 || nm.compare(0, 14, "llvm.invariant") == 0) nop = true;
            X.builtin = findBuiltin(nm, fn); }
          if (nop) { X.k = I_NOP; B.in.push_back(X); continue; }
          if (!X.callee) ops(cv, X.ops); else X.ops.push_back(Op{-1, 0});
          for (auto& a : cb->args()) { unsigned z = X.ops.size(); ops(a.get(), X.ops); X.argn.push_back(X.ops.size() - z); X.argw.push_back(width(a->getType())); }
        } else if (isa<LandingPadInst>(&I)) X.k = I_LPAD;
        else if (isa<ResumeInst>(&I)) { X.k = I_RESUME; ops(I.getOperand(0), X.ops); }
        else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) { X.k = I_EXTRACT; ops(ev->getAggregateOperand(), X.ops); X.base = aggIdx(ev->getAggregateOperand()->getType(), ev->getIndices()); }
        else if (auto* iv = dyn_cast<InsertValueInst>(&I)) { X.k = I_INSERT; X.base = aggIdx(iv->getType(), iv->getIndices()); ops(iv->getAggregateOperand(), X.ops); ops(iv->getInsertedValueOperand(), X.ops); }
        else if (auto* ee = dyn_cast<ExtractElementInst>(&I)) { if (auto* ci = dyn_cast<ConstantInt>(ee->getIndexOperand())) { X.k = I_EXTRACT; ops(ee->getVectorOperand(), X.ops); X.base = ci->getZExtValue(); } }
        else if (auto* ie = dyn_cast<InsertElementInst>(&I)) { if (auto* ci = dyn_cast<ConstantInt>(ie->getOperand(2))) { X.k = I_INSERT; ops(ie->getOperand(0), X.ops); ops(ie->getOperand(1), X.ops); X.base = ci->getZExtValue(); } }
        else if (auto* sv = dyn_cast<ShuffleVectorInst>(&I)) { X.k = I_COPY; std::vector<Op> a; ops(sv->getOperand(0), a); ops(sv->getOperand(1), a); for (int m : sv->getShuffleMask()) X.ops.push_back(m < 0 ? Op{-1, 0} : a[m]); }
        else if (isa<UnreachableInst>(&I)) X.k = I_UNREACH;
        else if (isa<FenceInst>(&I)) X.k = I_NOP;
        else if (auto* rm = dyn_cast<AtomicRMWInst>(&I)) { X.k = I_RMW; X.sub = rm->getOperation(); ops(rm->getPointerOperand(), X.ops); ops(rm->getValOperand(), X.ops); X.w = width(rm->getType()); }
        else if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&I)) { X.k = I_CMPXCHG; ops(cx->getPointerOperand(), X.ops); ops(cx->getCompareOperand(), X.ops); ops(cx->getNewValOperand(), X.ops); X.w = width(cx->getCompareOperand()->getType()); }
        B.in.push_back(std::move(X));
      }
    }
  }
  unsigned aggIdx(Type* t, ArrayRef<unsigned> ix) {
    unsigned n = 0;
    for (unsigned i : ix) {
      if (auto* s = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) n += nsl(s->getElementType(j)); t = s->getElementType(i); }
      else { auto* a = cast<ArrayType>(t); n += i * nsl(a->getElementType()); t = a->getElementType(); } }
    return n;
  }
  int findBuiltin(const std::string& nm, const Function* fn);

  // ---------- location / violation
  std::string locOf(const Instruction* I) {
    if (!I) return "?";
    std::string fn = demangle(I->getFunction()->getName().str()); if (fn.size() > 90) fn = fn.substr(0, 90) + "...";
    if (auto& d = I->getDebugLoc()) { auto* sc = cast<DIScope>(d->getScope()); return fn + " " + sc->getFilename().str() + ":" + std::to_string(d.getLine()); }
    return fn;
  }
  std::string stackStr() {
    std::string s;
    for (size_t i = S->st.size(), n = 0; i-- > 0 && n < 14; n++) { auto& f = S->st[i]; auto& B = f.f->b[f.blk]; int ip = f.ip < (int)B.in.size() ? f.ip : (int)B.in.size() - 1; s += (n ? " < " : "") + locOf(B.in[ip].I); }
    return s;
  }
  void report(const std::string& kind, const std::string& msg, const std::vector<u64>& model) {
    std::string loc = stackStr();
    std::string key = kind + "|" + msg + "|" + locOf(S->st.back().f->b[S->st.back().blk].in[S->st.back().ip].I);
    if (!vseen.insert(key).second) return;
    Violation v; v.kind = kind; v.msg = msg; v.loc = loc;
    for (uint32_t i : S->syms) { v.as.push_back({P.varNames[i], (i < model.size() ? model[i] : 0) & maskw(P.vars[i]->w)}); v.ws.push_back(P.vars[i]->w); }
    viol.push_back(v);
    if (__sync_add_and_fetch(&sh->nviol, 1) >= maxViol) sh->stop = 1;
  }
  [[noreturn]] void crash(const std::string& kind, const std::string& msg) { report(kind, msg, S->model); throw Term{1}; }
  [[noreturn]] void unsupp(const std::string& msg) { unsupported++; unsup[msg + " @ " + stackStr()]++; throw Term{2}; }

  // ---------- path condition
  void addC(E e) {
    if (ExprPool::isC(e)) return;
    if (e->k == K_AND && e->w == 1) { addC(e->a); addC(e->b); return; }
    if (P.isNot(e) && e->a->k == K_OR && e->a->w == 1) { addC(P.notE(e->a->a)); addC(P.notE(e->a->b)); return; }
    for (E c : S->cs) if (c == e) return;
    S->cs.push_back(e);
    if (e->k == K_EQ && ExprPool::isC(e->b) && e->a->w > 1) addEq(e->a, e->b->val);
    int sv = Solver::singleVar(e->vs);
    if (sv >= 0 && P.vars[sv]->w <= 16 && !S->eqs.count(P.vars[sv])) {
      std::vector<const std::vector<u64>*> ts; for (E c : S->cs) if (c->vs == e->vs) ts.push_back(SOLVER->tt(c, sv));
      int cnt = 0; u64 val = 0;
      for (size_t i = 0; i < ts[0]->size() && cnt < 2; i++) { u64 m = ~0ull; for (auto* t : ts) { m &= (*t)[i]; if (!m) break; } if (m) { cnt += __builtin_popcountll(m); val = i * 64 + __builtin_ctzll(m); } }
      if (cnt == 1) addEq(P.vars[sv], val);
    }
  }
  void addEq(E e, u64 v) { S->eqs[e] = v; S->eqVars = S->eqVars ? P.uni(S->eqVars, e->vs) : e->vs; }
  std::unordered_map<E, E> rwMemo;
  E rw1(E e) {
    if (ExprPool::isC(e) || !ExprPool::inter(e->vs, S->eqVars)) return e;
    auto q = S->eqs.find(e); if (q != S->eqs.end()) return P.cst(q->second, e->w);
    if (e->k == K_VAR) return e;
    auto it = rwMemo.find(e); if (it != rwMemo.end()) return it->second;
    E a = e->a ? rw1(e->a) : nullptr, r;
    if (e->k == K_ITE && ExprPool::isC(a)) { r = a->val ? rw1(e->b) : rw1(e->c); rwMemo[e] = r; return r; }
    E b = e->b ? rw1(e->b) : nullptr, c = e->c ? rw1(e->c) : nullptr;
    if (a == e->a && b == e->b && c == e->c) r = e;
    else switch (e->k) {
      case K_ITE: r = P.ite(a, b, c); break; case K_CONCAT: r = P.concat(a, b); break; case K_EXTRACT: r = P.extract(a, e->lo, e->w); break;
      case K_ZEXT: r = P.zext(a, e->w); break; case K_SEXT: r = P.sext(a, e->w); break; default: r = P.bin(e->k, a, b); }
    rwMemo[e] = r; return r;
  }
  E rewrite(E e) { if (!S->eqVars || ExprPool::isC(e) || !ExprPool::inter(e->vs, S->eqVars)) return e; rwMemo.clear(); return rw1(e); }
  State* cloneState() { forks++; State* n = new State(*S); return n; }
  bool decide(E cond) {
    if (ExprPool::isC(cond)) return cond->val;
    E nc = P.notE(cond);
    for (size_t i = S->cs.size(); i-- > 0;) { if (S->cs[i] == cond) return true; if (S->cs[i] == nc) return false; }
    E rc = rewrite(cond); if (rc != cond) return decide(rc);
    bool v = P.eval(cond, S->model);
    std::vector<u64> m = S->model;
    static bool ql = getenv("SX_QLOG") != nullptr; uint64_t q0 = SOLVER->st.queries; double qt = SOLVER->st.solverTime;
    int r = SOLVER->check(S->cs, v ? nc : cond, m);
    if (ql && SOLVER->st.queries > q0) fprintf(stderr, "Q %d %.2fms %s\n", r, 1000 * (SOLVER->st.solverTime - qt), stackStr().substr(0, 260).c_str());
    if (r == 0) return v;
    if (r < 0) { unknowns++; addC(v ? cond : nc); return v; }
    State* o = cloneState(); o->model = m;
    State* me = S; S = o; addC(v ? nc : cond); S = me; stack.push_back(o);
    addC(v ? cond : nc); S->nbr++;
    return v;
  }
  u64 conc(const V& x, unsigned w) {   // concretise by forking
    if (!x.e) return x.v;
    E e = rewrite(x.e); if (ExprPool::isC(e)) return e->val;
    u64 v = P.eval(e, S->model);
    E eq = P.bin(K_EQ, e, P.cst(v, w));
    decide(eq); addEq(e, v); addEq(x.e, v);
    return v;
  }
  void assume(E c) {
    if (ExprPool::isC(c)) { if (!c->val) { infeasible++; throw Term{3}; } return; }
    if (!P.eval(c, S->model)) {
      std::vector<u64> m = S->model; int r = SOLVER->check(S->cs, c, m);
      if (r <= 0) { if (r < 0) unknowns++; infeasible++; throw Term{3}; }
      S->model = m; }
    addC(c);
  }

  // ---------- memory access
  Obj* access(u64 addr, u64 n, bool wr) {
    u64 id = addr >> OFFB, off = addr & OFFM;
    Obj* o = id ? S->mem.get(id) : nullptr;
    if (!o) crash("memory", addr < 4096 ? "null pointer access" : "access to freed or invalid memory");
    if (off + n > o->size) crash("memory", "out-of-bounds access");
    if (o->kind == O_FUNC) crash("memory", "access to function memory");
    if (wr && o->ro) crash("memory", "write to read-only memory");
    return wr ? S->mem.wobj(id) : o;
  }
  E byteE(Obj* o, u64 off) { if (o->s && o->s[off].e) { SB& b = o->s[off]; return P.extract(b.e, b.idx * 8, 8); } return P.cst(o->d[off], 8); }
  V loadC(u64 addr, unsigned w) {
    unsigned n = (w + 7) / 8; Obj* o = access(addr, n, false); u64 off = addr & OFFM;
    if (o->s) {
      bool any = false; for (unsigned i = 0; i < n; i++) if (o->s[off + i].e) { any = true; break; }
      if (any) {
        E e0 = o->s[off].e;
        if (e0 && o->s[off].idx == 0 && e0->w == n * 8) { bool all = true; for (unsigned i = 1; i < n; i++) if (o->s[off + i].e != e0 || o->s[off + i].idx != i) { all = false; break; } if (all) { if (S->eqVars) { auto q = S->eqs.find(e0); if (q != S->eqs.end()) return C(q->second & maskw(w)); } return mkV(P.extract(e0, 0, w)); } }
        E r = byteE(o, off); for (unsigned i = 1; i < n; i++) r = P.concat(byteE(o, off + i), r);
        return mkV(P.extract(r, 0, w)); } }
    u64 v = 0; memcpy(&v, o->d + off, n); return C(v & maskw(w));
  }
  void storeC(u64 addr, unsigned w, const V& v) {
    unsigned n = (w + 7) / 8; Obj* o = access(addr, n, true); u64 off = addr & OFFM;
    if (!v.e) { u64 x = v.v & maskw(w); memcpy(o->d + off, &x, n); if (o->s) for (unsigned i = 0; i < n; i++) o->s[off + i].e = nullptr; return; }
    if (!o->s) { o->s = (SB*)calloc(o->size ? o->size : 1, sizeof(SB)); }
    E e = P.zext(v.e, n * 8);
    if (ExprPool::isC(e)) { storeC(addr, n * 8, C(e->val)); return; }
    for (unsigned i = 0; i < n; i++) { o->s[off + i].e = e; o->s[off + i].idx = i; }
  }
  bool okAddr(u64 a, u64 n, bool wr) { u64 id = a >> OFFB; Obj* o = id ? S->mem.get(id) : nullptr; return o && o->kind != O_FUNC && (a & OFFM) + n <= o->size && !(wr && o->ro); }
  // Turn a symbolic address into a constant-leaf tree all of whose leaves are valid, or a concrete address.
  V resolve(const V& a, u64 n, bool wr) {
    if (!a.e) return a;
    E e = rewrite(a.e); if (ExprPool::isC(e)) return C(e->val);
    if (!e->cl) {
      u64 mv = P.eval(e, S->model); u64 id = mv >> OFFB; Obj* o = id ? S->mem.get(id) : nullptr;
      if (!o || (mv & OFFM) + n > o->size) { // confirm region: this path violates
        E inside = P.bin(K_EQ, e, P.cst(mv, 64)); decide(inside); return C(mv); }
      u64 base = id << OFFB; u64 lim = o->size - n;
      E in = P.bin(K_ULE, P.bin(K_SUB, e, P.cst(base, 64)), P.cst(lim, 64));
      if (!decide(in)) return resolve(a, n, wr);
      unsigned t = ExprPool::tz(e); u64 st = t >= 12 ? 4096 : (1ull << t);
      u64 cnt = lim / st + 1;
      if (cnt > 1024) return C(conc(a, 64));
      // narrow the range using the model-independent bound
      std::function<E(u64, u64)> tree = [&](u64 lo, u64 hi) -> E { if (lo == hi) return P.cst(base + lo * st, 64); u64 mid = (lo + hi) / 2;
        return P.ite(P.bin(K_ULE, e, P.cst(base + mid * st, 64)), tree(lo, mid), tree(mid + 1, hi)); };
      e = tree(0, cnt - 1);
      return mkV(e);
    }
    if (e->nleaf > 600) return C(conc(a, 64));
    std::vector<u64> lv; P.leaves(e, lv);
    std::vector<u64> bad; u64 good = 0; bool anyGood = false;
    for (u64 x : lv) if (!okAddr(x, n, wr)) bad.push_back(x); else { good = x; anyGood = true; }
    if (!bad.empty()) {
      E isbad = P.fls; for (u64 x : bad) isbad = P.orE(isbad, P.bin(K_EQ, e, P.cst(x, 64)));
      if (decide(isbad)) return C(conc(a, 64));
      if (!anyGood) return C(conc(a, 64));
      std::set<u64> bs(bad.begin(), bad.end());
      e = P.mapLeaves(e, [&](u64 x) { return P.cst(bs.count(x) ? good : x, 64); });
    }
    return mkV(e);
  }
  V loadR(const V& ra, u64 off, unsigned w) { // ra resolved
    if (!ra.e) return loadC(ra.v + off, w);
    return mkV(P.mapLeaves(ra.e, [&](u64 x) { return toE(loadC(x + off, w), w); }));
  }
  void storeR(const V& ra, u64 off, unsigned w, const V& v) {
    if (!ra.e) { storeC(ra.v + off, w, v); return; }
    std::vector<u64> lv; P.leaves(ra.e, lv); std::sort(lv.begin(), lv.end()); lv.erase(std::unique(lv.begin(), lv.end()), lv.end());
    for (u64 x : lv) { E old = toE(loadC(x + off, w), w); storeC(x + off, w, mkV(P.ite(P.bin(K_EQ, ra.e, P.cst(x, 64)), toE(v, w), old))); }
  }
  V load(const V& a, unsigned w) { V r = resolve(a, (w + 7) / 8, false); return loadR(r, 0, w); }
  void store(const V& a, unsigned w, const V& v) { V r = resolve(a, (w + 7) / 8, true); if (r.e && r.e->nleaf > 64) r = C(conc(r, 64)); storeR(r, 0, w, v); }
  std::string cstr(u64 a) { std::string s; for (;; a++) { V c = loadC(a, 8); char ch = (char)conc(c, 8); if (!ch) break; s += ch; if (s.size() > 4096) break; } return s; }
  u64 mallocC(u64 n) { if (n > OFFM / 2) unsupp("allocation of more than 8 MB"); return S->mem.alloc(n, O_HEAP, 0xBE) << OFFB; }
  void freeC(u64 a) {
    if (!a) return; Obj* o = S->mem.get(a >> OFFB);
    if (!o || (a & OFFM)) crash("memory", "invalid or double free");
    if (o->kind != O_HEAP) crash("memory", "free of non-heap memory");
    S->mem.freeObj(a >> OFFB);
  }

  // ---------- values
  inline V get(Frame& f, const Op& o) { return o.slot < 0 ? C(o.c) : f.r[o.slot]; }
  static V binV(Kind k, unsigned w, const V& a, const V& b) {
    if (!a.e && !b.e) return C(ExprPool::foldBin(k, w, a.v, b.v));
    return mkV(P.bin(k, toE(a, w), toE(b, w)));
  }
  static V icmpV(unsigned pr, unsigned w, const V& a, const V& b) {
    switch (pr) {
      case CmpInst::ICMP_EQ: return binV(K_EQ, w, a, b);
      case CmpInst::ICMP_NE: { V r = binV(K_EQ, w, a, b); if (!r.e) return C(!r.v); return mkV(P.notE(r.e)); }
      case CmpInst::ICMP_ULT: return binV(K_ULT, w, a, b); case CmpInst::ICMP_ULE: return binV(K_ULE, w, a, b);
      case CmpInst::ICMP_UGT: return binV(K_ULT, w, b, a); case CmpInst::ICMP_UGE: return binV(K_ULE, w, b, a);
      case CmpInst::ICMP_SLT: return binV(K_SLT, w, a, b); case CmpInst::ICMP_SLE: return binV(K_SLE, w, a, b);
      case CmpInst::ICMP_SGT: return binV(K_SLT, w, b, a); case CmpInst::ICMP_SGE: return binV(K_SLE, w, b, a);
    }
    abort();
  }
  void jump(Frame& f, int to) {
    Blk& B = f.f->b[to]; B.hits++;
    if (!B.phis.empty()) {
      auto it = B.phis.find(f.blk);
      if (it != B.phis.end()) {
        auto& L = it->second; static V tmp[512]; size_t n = L.size(); if (n > 512) unsupp("too many phis");
        for (size_t i = 0; i < n; i++) tmp[i] = get(f, L[i].second);
        for (size_t i = 0; i < n; i++) f.r[L[i].first] = tmp[i]; } }
    f.blk = to; f.ip = 0;
  }
  void pushFrame(Func* f, const Inst* call, std::vector<V>& args) {
    if (S->st.size() > 4000) crash("recursion", "stack overflow (call depth > 4000)");
    S->st.emplace_back(); Frame& n = S->st.back(); n.f = f; n.blk = 0; n.ip = 0; n.call = call; n.r.resize(f->nslots, C(0));
    f->entered = true; f->b[0].hits++;
    size_t k = 0; for (auto& a : f->args) for (unsigned i = 0; i < a.second; i++) { if (k < args.size()) n.r[a.first + i] = args[k]; k++; }
    if (f->F->isVarArg() && call) {                // the variable arguments, 8 bytes each
      u64 id = S->mem.alloc(8 * (args.size() > k ? args.size() - k : 1), O_STACK, 0); S->st.back().allocas.push_back(id); S->st.back().va = id << OFFB;
      for (size_t i = k; i < args.size(); i++) { V v = args[i]; unsigned w = i < call->argw.size() ? call->argw[i] : 64; if (v.e && w < 64) v = mkV(P.zext(v.e, 64)); storeC((id << OFFB) + 8 * (i - k), 64, v); }
    }
  }
  void popFrame() { Frame& f = S->st.back(); for (u64 id : f.allocas) S->mem.freeObj(id); S->st.pop_back(); }

  // ---------- exceptions
  bool derives(u64 ti, u64 want) {
    if (ti == want) return true;
    u64 vt = loadC(ti, 64).v; auto it = gvById.find(vt >> OFFB); std::string n = it == gvById.end() ? "" : it->second->getName().str();
    if (n.find("__si_class_type_info") != std::string::npos) return derives(loadC(ti + 16, 64).v, want);
    if (n.find("__vmi_class_type_info") != std::string::npos) { u64 cnt = loadC(ti + 20, 32).v; for (u64 i = 0; i < cnt; i++) if (derives(loadC(ti + 24 + i * 16, 64).v, want)) return true; }
    return false;
  }
  int selector(const LandingPadInst* lp, u64 ti) {
    for (unsigned i = 0; i < lp->getNumClauses(); i++) {
      if (lp->isCatch(i)) { std::vector<u64> a; constSlots(lp->getClause(i), a); if (a[0] == 0) return 1; if (derives(ti, a[0])) return (int)(a[0] >> OFFB); }
      else { return -1; } }
    return 0;
  }
  const LandingPadInst* lpOf(const Inst* inv) { return cast<InvokeInst>(inv->I)->getUnwindDest()->getLandingPadInst(); }
  void throwExc(u64 obj, u64 ti) {
    // search phase
    bool found = false;
    for (size_t i = S->st.size(); i-- > 0;) {
      const Inst* c = i + 1 == S->st.size() ? curInst() : S->st[i + 1].call;
      if (c && c->k == I_INVOKE) { int s = selector(lpOf(c), ti); if (s > 0) { found = true; break; } if (s < 0) break; } }
    if (!found) {
      std::string nm = "?"; auto it = gvById.find(ti >> OFFB); if (it != gvById.end()) nm = demangle(it->second->getName().str());
      crash("exception", "uncaught exception (" + nm + ")"); }
    unwind(obj, ti);
  }
  const Inst* curInst() { Frame& f = S->st.back(); return &f.f->b[f.blk].in[f.ip]; }
  void unwind(u64 obj, u64 ti) { // at the current frame's current instruction
    S->lastExcObj = obj; S->lastExcTi = ti;
    const Inst* c = curInst();
    for (;;) {
      if (c && c->k == I_INVOKE) {
        const LandingPadInst* lp = lpOf(c); int s = selector(lp, ti);
        if (s != 0 || lp->isCleanup()) {
          Frame& f = S->st.back(); jump(f, c->b1);
          Blk& B = f.f->b[f.blk]; size_t k = 0; while (k < B.in.size() && B.in[k].k != I_LPAD) k++;
          f.r[B.in[k].dst] = C(obj); f.r[B.in[k].dst + 1] = C((u64)(uint32_t)s); f.ip = k + 1; jumped = true; return; } }
      c = S->st.back().call; popFrame();
      if (S->st.empty()) { fprintf(stderr, "unwound off the stack\n"); exit(3); }
    }
  }

  // ---------- the interpreter
  void callBuiltin(const Inst& X, int b, std::vector<V>& args) {
    static std::vector<V> ret; ret.clear(); jumped = false;
    bfn[b](*this, X, args, ret);
    if (jumped) return;
    Frame& f = S->st.back();
    for (unsigned i = 0; i < X.nd; i++) f.r[X.dst + i] = i < ret.size() ? ret[i] : C(0);
    if (X.k == I_INVOKE) jump(f, X.b0); else f.ip++;
  }
  void doCall(const Inst& X) {
    Frame& f = S->st.back(); const Function* fn = X.callee; int b = X.builtin;
    if (!fn) {
      u64 a = conc(get(f, X.ops[0]), 64); auto it = fnById.find(a >> OFFB);
      if (it == fnById.end() || (a & OFFM)) crash("memory", "call through an invalid function pointer");
      fn = it->second; b = findBuiltin(fn->getName().str(), fn); }
    static std::vector<V> args; args.clear();
    for (size_t i = 1; i < X.ops.size(); i++) args.push_back(get(f, X.ops[i]));
    if (b >= 0) { callBuiltin(X, b, args); return; }
    if (fn->isDeclaration()) unsupp("external function " + fn->getName().str());
    pushFrame(getFunc(fn), &X, args);
  }
  void checkSplit();
  void run() {
    for (;;) {
      Frame& f = S->st.back(); Blk& B = f.f->b[f.blk]; const Inst& X = B.in[f.ip];
      steps++; S->steps++;
      if ((steps & 0x3fff) == 0) { checkSplit(); if (sh->stop) throw Term{4}; if (nowS() - t0 > maxTime) { timeouts++; throw Term{5}; } }
      if (S->steps > maxSteps) crash("hang", "instruction budget exceeded (possible endless loop)");
      switch (X.k) {
        case I_NOP: f.ip++; break;
        case I_BIN: {
          unsigned n = X.nd;
          for (unsigned i = 0; i < n; i++) {
            V a = get(f, X.ops[i]), b = get(f, X.ops[n + i]);
            if (X.sub >= K_UDIV && X.sub <= K_SREM) { E z = P.bin(K_EQ, toE(b, X.w), P.cst(0, X.w)); if (decide(z)) crash("arith", "division by zero"); }
            f.r[X.dst + i] = binV((Kind)X.sub, X.w, a, b); }
          f.ip++; break; }
        case I_ICMP: { unsigned n = X.nd; for (unsigned i = 0; i < n; i++) f.r[X.dst + i] = icmpV(X.sub, X.w, get(f, X.ops[i]), get(f, X.ops[n + i])); f.ip++; break; }
        case I_SELECT: {
          V c = get(f, X.ops[0]); if (X.sub) { unsupp("vector select"); }
          unsigned n = X.nd;
          for (unsigned i = 0; i < n; i++) {
            V a = get(f, X.ops[1 + i]), b = get(f, X.ops[1 + n + i]);
            if (!c.e) f.r[X.dst + i] = c.v ? a : b;
            else f.r[X.dst + i] = mkV(P.ite(c.e, toE(a, X.fl[i].w), toE(b, X.fl[i].w))); }
          f.ip++; break; }
        case I_TRUNC: for (unsigned i = 0; i < X.nd; i++) { V a = get(f, X.ops[i]); f.r[X.dst + i] = a.e ? mkV(P.extract(a.e, 0, X.w2)) : C(a.v & maskw(X.w2)); } f.ip++; break;
        case I_ZEXT: for (unsigned i = 0; i < X.nd; i++) { V a = get(f, X.ops[i]); f.r[X.dst + i] = a.e ? mkV(P.zext(a.e, X.w2)) : a; } f.ip++; break;
        case I_SEXT: for (unsigned i = 0; i < X.nd; i++) { V a = get(f, X.ops[i]); f.r[X.dst + i] = a.e ? mkV(P.sext(a.e, X.w2)) : C((u64)sx(a.v, X.w) & maskw(X.w2)); } f.ip++; break;
        case I_COPY: for (unsigned i = 0; i < X.nd; i++) { V a = get(f, X.ops[i]); f.r[X.dst + i] = a; } f.ip++; break;
        case I_LOAD: {
          V a = get(f, X.ops[0]);
          if (X.fl.size() == 1) { if (X.fl[0].w > 64) unsupp("wide load"); V v = load(a, X.fl[0].w); S->st.back().r[X.dst] = v; }
          else { u64 last = X.fl.empty() ? 0 : X.fl.back().off + (X.fl.back().w + 7) / 8; V r = resolve(a, last, false); for (size_t i = 0; i < X.fl.size(); i++) f.r[X.dst + i] = loadR(r, X.fl[i].off, X.fl[i].w); }
          f.ip++; break; }
        case I_STORE: {
          V a = get(f, X.ops[0]);
          if (X.fl.size() == 1) { if (X.fl[0].w > 64) unsupp("wide store"); store(a, X.fl[0].w, get(f, X.ops[1])); }
          else { u64 last = X.fl.empty() ? 0 : X.fl.back().off + (X.fl.back().w + 7) / 8; V r = C(conc(resolve(a, last, true), 64)); for (size_t i = 0; i < X.fl.size(); i++) storeR(r, X.fl[i].off, X.fl[i].w, get(f, X.ops[1 + i])); }
          f.ip++; break; }
        case I_GEP: {
          V a = get(f, X.ops[0]); a = a.e ? binV(K_ADD, 64, a, C(X.base)) : C(a.v + X.base);
          for (size_t i = 0; i < X.scales.size(); i++) {
            V ix = get(f, X.ops[1 + i]); unsigned iw = X.argw[i];
            if (!ix.e && !a.e) a.v += (u64)sx(ix.v, iw) * X.scales[i];
            else { V e = ix.e ? mkV(P.sext(ix.e, 64)) : C((u64)sx(ix.v, iw)); a = binV(K_ADD, 64, a, binV(K_MUL, 64, e, C(X.scales[i]))); } }
          f.r[X.dst] = a; f.ip++; break; }
        case I_ALLOCA: { u64 n = conc(get(f, X.ops[0]), 64); u64 id = S->mem.alloc(n * X.base, O_STACK, 0xBE); f.allocas.push_back(id); f.r[X.dst] = C(id << OFFB); f.ip++; break; }
        case I_BR: jump(f, X.b0); break;
        case I_CBR: {
          V c = get(f, X.ops[0]); bool t = c.e ? decide(c.e) : (c.v & 1);
          jump(f, t ? X.b0 : X.b1); break; }
        case I_SWITCH: {
          V c = get(f, X.ops[0]);
          if (!c.e) { int to = X.b0; for (auto& k : X.cases) if (k.v == c.v) { to = k.blk; break; } jump(f, to); break; }
          // one decision per distinct destination
          u64 mv = P.eval(c.e, S->model); int to = X.b0; for (auto& k : X.cases) if (k.v == mv) { to = k.blk; break; }
          E cond = P.fls;
          if (to == X.b0) { cond = P.tru; for (auto& k : X.cases) if (k.blk != X.b0) cond = P.andE(cond, P.notE(P.bin(K_EQ, c.e, P.cst(k.v, X.w)))); }
          else for (auto& k : X.cases) if (k.blk == to) cond = P.orE(cond, P.bin(K_EQ, c.e, P.cst(k.v, X.w)));
          decide(cond); jump(f, to); break; }
        case I_RET: {
          const Inst* c = f.call; static std::vector<V> rv; rv.clear(); for (auto& o : X.ops) rv.push_back(get(f, o));
          if (!c) { popFrame(); return; }
          popFrame(); Frame& g = S->st.back();
          for (unsigned i = 0; i < c->nd; i++) g.r[c->dst + i] = i < rv.size() ? rv[i] : C(0);
          if (c->k == I_INVOKE) jump(g, c->b0); else g.ip++;
          break; }
        case I_CALL: case I_INVOKE: doCall(X); break;
        case I_LPAD: fprintf(stderr, "landingpad executed\n"); exit(3);
        case I_RESUME: { u64 o = get(f, X.ops[0]).v; u64 ti = S->lastExcTi; // continue unwinding in the caller
          const Inst* c = S->st.back().call; popFrame();
          if (S->st.empty()) { fprintf(stderr, "resume off the stack\n"); exit(3); }
          (void)c; unwind(o, ti); break; }
        case I_EXTRACT: for (unsigned i = 0; i < X.nd; i++) f.r[X.dst + i] = get(f, X.ops[X.base + i]); f.ip++; break;
        case I_INSERT: { unsigned n = X.nd; for (unsigned i = 0; i < n; i++) f.r[X.dst + i] = get(f, X.ops[i]); for (unsigned i = n; i < X.ops.size(); i++) f.r[X.dst + X.base + i - n] = get(f, X.ops[i]); f.ip++; break; }
        case I_UNREACH: crash("unreachable", "reached code the compiler assumes unreachable (undefined behaviour)");
        case I_FBIN: fbin(f, X); f.ip++; break;
        case I_FCMP: fcmp(f, X); f.ip++; break;
        case I_FCAST: fcast(f, X); f.ip++; break;
        case I_RMW: { V a = get(f, X.ops[0]), v = get(f, X.ops[1]); V o = load(a, X.w); V n = v;
          if (X.sub == AtomicRMWInst::Add) n = binV(K_ADD, X.w, o, v); else if (X.sub == AtomicRMWInst::Sub) n = binV(K_SUB, X.w, o, v); else if (X.sub != AtomicRMWInst::Xchg) unsupp("atomicrmw");
          store(a, X.w, n); f.r[X.dst] = o; f.ip++; break; }
        case I_CMPXCHG: { V a = get(f, X.ops[0]); V o = load(a, X.w); V eq = binV(K_EQ, X.w, o, get(f, X.ops[1])); bool t = eq.e ? decide(eq.e) : eq.v; if (t) store(a, X.w, get(f, X.ops[2])); f.r[X.dst] = o; f.r[X.dst + 1] = C(t); f.ip++; break; }
        case I_BAD: { std::string s; raw_string_ostream os(s); X.I->print(os); unsupp("instruction " + s); }
      }
    }
  }
  static double asF(u64 v, unsigned w) { if (w == 32) { float x; uint32_t y = v; memcpy(&x, &y, 4); return x; } double d; memcpy(&d, &v, 8); return d; }
  static u64 frF(double d, unsigned w) { if (w == 32) { float x = d; uint32_t y; memcpy(&y, &x, 4); return y; } u64 v; memcpy(&v, &d, 8); return v; }
  void fbin(Frame& f, const Inst& X) {
    if (X.nd != 1 || X.w > 64) unsupp("fp vector");
    double a = asF(conc(get(f, X.ops[0]), X.w), X.w), b = asF(conc(get(f, X.ops[1]), X.w), X.w), r = 0;
    switch (X.sub) { case Instruction::FAdd: r = a + b; break; case Instruction::FSub: r = a - b; break; case Instruction::FMul: r = a * b; break; case Instruction::FDiv: r = a / b; break; default: r = fmod(a, b); }
    f.r[X.dst] = C(frF(r, X.w));
  }
  void fcmp(Frame& f, const Inst& X) {
    double a = asF(conc(get(f, X.ops[0]), X.w), X.w), b = asF(conc(get(f, X.ops[1]), X.w), X.w); bool un = std::isnan(a) || std::isnan(b); bool r;
    switch (X.sub) {
      case CmpInst::FCMP_OEQ: r = !un && a == b; break; case CmpInst::FCMP_OGT: r = !un && a > b; break; case CmpInst::FCMP_OGE: r = !un && a >= b; break;
      case CmpInst::FCMP_OLT: r = !un && a < b; break; case CmpInst::FCMP_OLE: r = !un && a <= b; break; case CmpInst::FCMP_ONE: r = !un && a != b; break;
      case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = un || a == b; break; case CmpInst::FCMP_UGT: r = un || a > b; break;
      case CmpInst::FCMP_UGE: r = un || a >= b; break; case CmpInst::FCMP_ULT: r = un || a < b; break; case CmpInst::FCMP_ULE: r = un || a <= b; break; case CmpInst::FCMP_UNE: r = un || a != b; break; default: r = X.sub == CmpInst::FCMP_TRUE; }
    f.r[X.dst] = C(r);
  }
  void fcast(Frame& f, const Inst& X) {
    u64 v = conc(get(f, X.ops[0]), X.w); u64 r;
    switch (X.sub) {
      case Instruction::UIToFP: r = frF((double)v, X.w2); break; case Instruction::SIToFP: r = frF((double)sx(v, X.w), X.w2); break;
      case Instruction::FPToUI: r = (u64)asF(v, X.w) & maskw(X.w2); break; case Instruction::FPToSI: r = (u64)(int64_t)asF(v, X.w) & maskw(X.w2); break;
      case Instruction::FPExt: case Instruction::FPTrunc: r = frF(asF(v, X.w), X.w2); break; default: unsupp("fp cast"); }
    f.r[X.dst] = C(r);
  }

  // ---------- driver
  void load(const char* file) {
    SMDiagnostic err; M = parseIRFile(file, err, ctx); if (!M) { fprintf(stderr, "cannot load %s\n", file); exit(3); } DL = &M->getDataLayout();
  }
  void writeConst(u64 addr, const Constant* c) {
    Obj* o = S->mem.wobj(addr >> OFFB); std::vector<FlatEl> fl;
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    flat(c->getType(), 0, fl); std::vector<u64> v; constSlots(c, v);
    for (size_t i = 0; i < fl.size(); i++) { unsigned n = (fl[i].w + 7) / 8; memcpy(o->d + (addr & OFFM) + fl[i].off, &v[i], n > 8 ? 8 : n); }
  }
  void initGlobals() {
    S = new State; S->model.clear();
    for (auto& F : *M) { u64 id = S->mem.alloc(1, O_FUNC, 0); gaddr[&F] = id << OFFB; fnById[id] = &F; }
    for (auto& G : M->globals()) { u64 sz = G.isDeclaration() ? 512 : (u64)DL->getTypeAllocSize(G.getValueType()); u64 id = S->mem.alloc(sz, O_GLOBAL, 0); gaddr[&G] = id << OFFB; gvById[id] = &G; }
    for (auto& A : M->aliases()) { (void)A; }
    for (auto& G : M->globals()) if (G.hasInitializer()) { writeConst(gaddr[&G], G.getInitializer()); if (G.isConstant()) S->mem.get(gaddr[&G] >> OFFB)->ro = true; }
  }
  void runConcrete(const Function* F, std::vector<V> args) {
    pushFrame(getFunc(F), nullptr, args);
    try { run(); } catch (Term&) { fprintf(stderr, "symx: global constructor failed\n"); writeResults(); _exit(3); }
    S->steps = 0;
  }
  void ctors() {
    auto* G = M->getGlobalVariable("llvm.global_ctors"); if (!G || !G->hasInitializer()) return;
    auto* A = dyn_cast<ConstantArray>(G->getInitializer()); if (!A) return;
    std::vector<std::pair<u64, Function*>> v;
    for (auto& o : A->operands()) { auto* s = cast<ConstantStruct>(o); v.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), cast<Function>(s->getOperand(1)->stripPointerCasts())}); }
    std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& p : v) runConcrete(p.second, {});
  }
  void explore() {
    while (!stack.empty()) {
      if (sh->stop) break;
      S = stack.back(); stack.pop_back();
      try { run(); pathsOk++; if (samples.size() < 3) sample(); paths++; }
      catch (Term& t) { paths++; if (t.kind == 5) { timeouts += stack.size(); delete S; break; } }
      catch (z3::exception& z) { unsup[std::string("z3: ") + z.msg()]++; unsupported++; paths++; }
      delete S; S = nullptr; checkSplit();
    }
  }
  void sample() {   // an input that drives this path, and the values dumped along it
    std::string s = "{\"assign\":{"; char b[64]; bool first = true; std::set<uint32_t> seen;
    for (uint32_t i : S->syms) if (seen.insert(i).second) { snprintf(b, 64, ":%llu", (unsigned long long)((i < S->model.size() ? S->model[i] : 0) & maskw(P.vars[i]->w))); s += std::string(first ? "\"" : ",\"") + esc(P.varNames[i]) + "\"" + b; first = false; }
    s += "},\"dumps\":["; first = true;
    for (auto& d : S->dumps) { snprintf(b, 64, "%llu", (unsigned long long)(d.second.e ? P.eval(d.second.e, S->model) : d.second.v)); s += std::string(first ? "" : ",") + "[\"" + esc(d.first) + "\"," + b + "]"; first = false; }
    samples.push_back(s + "]}");
  }
  static std::string esc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
  void writeResults() {
    std::string fn = outdir + "/res." + std::to_string(getpid()) + ".json"; FILE* f = fopen(fn.c_str(), "w"); if (!f) return;
    Stats& q = SOLVER->st;
    fprintf(f, "{\"paths\":%llu,\"paths_completed\":%llu,\"forks\":%llu,\"steps\":%llu,\"checks_solver\":%llu,\"checks_const\":%llu,\"assume_pruned\":%llu,\"unsupported\":%llu,\"timeouts\":%llu,\"unknowns\":%llu,\"queries\":%llu,\"cache_hits\":%llu,\"sat\":%llu,\"unsat\":%llu,\"domain_sat\":%llu,\"domain_unsat\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"exprs\":%zu,\n",
      (unsigned long long)paths, (unsigned long long)pathsOk, (unsigned long long)forks, (unsigned long long)steps, (unsigned long long)checksSolver, (unsigned long long)checksConst, (unsigned long long)infeasible, (unsigned long long)unsupported, (unsigned long long)timeouts, (unsigned long long)(unknowns), (unsigned long long)q.queries, (unsigned long long)q.cacheHits, (unsigned long long)q.sat, (unsigned long long)q.unsat, (unsigned long long)q.ttSat, (unsigned long long)q.ttUnsat, q.solverTime, q.maxQuery, P.byId.size());
    auto mp = [&](const char* n, std::map<std::string, u64>& m) { fprintf(f, "\"%s\":{", n); bool first = true; for (auto& p : m) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", esc(p.first).c_str(), (unsigned long long)p.second); first = false; } fprintf(f, "},\n"); };
    mp("reach", reach); mp("unsup", unsup); mp("check_msgs", checkMsgs);
    fprintf(f, "\"samples\":["); for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s%s", i ? "," : "", samples[i].c_str()); fprintf(f, "],\n\"functions\":{");
    bool first = true;
    for (auto& p : funcs) if (p.second->entered) {
      auto* sp = p.first->getSubprogram(); if (!sp) continue; std::string file = sp->getFilename().str(); std::string dir = sp->getDirectory().str();
      if (file.empty() || (file[0] == '/' ? file.find("/repo/") != 0 : dir.find("/repo") != 0)) continue;
      size_t cov = 0; for (auto& b : p.second->b) if (b.hits) cov++;
      std::string dn = demangle(p.first->getName().str()); if (dn.size() > 160) dn = dn.substr(0, 160);
      fprintf(f, "%s\"%s\":[%zu,%zu]", first ? "" : ",", esc(dn + " [" + file + "]").c_str(), cov, p.second->b.size()); first = false; }
    fprintf(f, "},\n\"violations\":[");
    for (size_t i = 0; i < viol.size(); i++) { auto& v = viol[i]; fprintf(f, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"loc\":\"%s\",\"assign\":{", i ? "," : "", esc(v.kind).c_str(), esc(v.msg).c_str(), esc(v.loc).c_str());
      for (size_t j = 0; j < v.as.size(); j++) fprintf(f, "%s\"%s\":%llu", j ? "," : "", esc(v.as[j].first).c_str(), (unsigned long long)v.as[j].second);
      fprintf(f, "}}"); }
    fprintf(f, "]}\n"); fclose(f);
  }
  void resetStats() { paths = pathsOk = forks = steps = checksSolver = checksConst = infeasible = unsupported = timeouts = unknowns = 0; reach.clear(); unsup.clear(); viol.clear(); checkMsgs.clear(); samples.clear(); SOLVER->st = Stats(); }
};

void Exec::checkSplit() {
  if (stack.size() < 2) return;
  for (int i = 0; i < nworkers; i++) if (sh->slot[i] == 0 && __sync_bool_compare_and_swap(&sh->slot[i], 0, 1)) {
    fflush(nullptr);
    pid_t p = fork();
    if (p < 0) { sh->slot[i] = 0; return; }
    size_t h = stack.size() / 2;
    if (p == 0) {
      mySlot = i; sh->pid[i] = getpid(); resetStats();
      // take the older half
      for (size_t k = h; k < stack.size(); k++) delete stack[k];
      stack.resize(h);
      if (S) { delete S; S = nullptr; }
      explore(); writeResults(); sh->pid[mySlot] = 0; sh->slot[mySlot] = 0; _exit(0);
    }
    __sync_add_and_fetch(&sh->forks, 1);
    for (size_t k = 0; k < h; k++) delete stack[k];
    stack.erase(stack.begin(), stack.begin() + h);
    if (stack.size() < 2) return;
  }
}

// ---------------------------------------------------------------- builtins
#define BF [](Exec& X, const Inst& I, std::vector<V>& a, std::vector<V>& r)
static void copyMem(Exec& X, const V& dst, const V& src, u64 n) {
  if (!n) return;
  V s = X.resolve(src, n, false); V d = X.resolve(dst, n, true); if (d.e) d = C(X.conc(d, 64));
  if (!s.e) {
    Obj* so = X.access(s.v, n, false); Obj* dO = X.access(d.v, n, true); so = X.access(s.v, n, false);
    u64 sf = s.v & OFFM, df = d.v & OFFM;
    memmove(dO->d + df, so->d + sf, n);
    if (so->s) { if (!dO->s) dO->s = (SB*)calloc(dO->size, sizeof(SB)); memmove(dO->s + df, so->s + sf, n * sizeof(SB)); }
    else if (dO->s) memset(dO->s + df, 0, n * sizeof(SB));
    return;
  }
  std::vector<V> t; u64 i = 0;
  std::vector<unsigned> ws;
  while (i < n) { unsigned w = (n - i >= 8) ? 64 : (n - i >= 4) ? 32 : (n - i >= 2) ? 16 : 8; t.push_back(X.loadR(s, i, w)); ws.push_back(w); i += w / 8; }
  i = 0; for (size_t k = 0; k < t.size(); k++) { X.storeC(d.v + i, ws[k], t[k]); i += ws[k] / 8; }
}
static E memcmpE(Exec& X, const V& a, const V& b, u64 n, bool eqOnly) {
  E res = P.cst(0, 32); V ra = X.resolve(a, n, false), rb = X.resolve(b, n, false);
  for (u64 i = n; i-- > 0;) {
    V x = X.loadR(ra, i, 8), y = X.loadR(rb, i, 8);
    if (!x.e && !y.e) { if (x.v != y.v) res = P.cst(x.v < y.v ? (uint32_t)-1 : 1, 32); continue; }
    E ex = toE(x, 8), ey = toE(y, 8); E eq = P.bin(K_EQ, ex, ey);
    E d = eqOnly ? P.cst(1, 32) : P.ite(P.bin(K_ULT, ex, ey), P.cst((uint32_t)-1, 32), P.cst(1, 32));
    res = P.ite(eq, res, d); }
  return res;
}
static V strlenV(Exec& X, const V& a) {
  V r = X.resolve(a, 1, false);
  auto one = [&](u64 ad) -> u64 { u64 n = 0; for (;; n++) { V c = X.loadC(ad + n, 8); if (c.e) { E z = P.bin(K_EQ, c.e, P.cst(0, 8)); if (X.decide(z)) return n; } else if (!c.v) return n; } };
  if (!r.e) return C(one(r.v));
  return mkV(P.mapLeaves(r.e, [&](u64 x) { return P.cst(one(x), 64); }));
}
static V minmax(unsigned pr, unsigned w, const V& a, const V& b) { V c = Exec::icmpV(pr, w, a, b); if (!c.e) return c.v ? a : b; return mkV(P.ite(c.e, toE(a, w), toE(b, w))); }

static std::unordered_map<std::string, Exec::BFn>& btab() {
  static std::unordered_map<std::string, Exec::BFn> t;
  if (!t.empty()) return t;
  // --- harness interface
  t["sx_sym"] = BF { std::string n = X.cstr(X.conc(a[0], 64)); unsigned w = a[1].v; auto& var = X.varByName[n + ":" + std::to_string(w)]; if (!var) var = P.newVar(n, w);
    X.S->syms.push_back(var->val); if (X.S->model.size() <= var->val) X.S->model.resize(var->val + 1, 0); r.push_back(mkV(P.zext(var, 64))); };
  t["sx_assume"] = BF { X.assume(P.notE(P.bin(K_EQ, toE(a[0], I.argw[0]), P.cst(0, I.argw[0])))); };
  t["sx_check"] = BF { E c = P.notE(P.bin(K_EQ, toE(a[0], I.argw[0]), P.cst(0, I.argw[0]))); std::string m = X.cstr(X.conc(a[1], 64)); X.checkMsgs[m]++;
    if (ExprPool::isC(c)) { X.checksConst++; if (!c->val) { X.report("check", m, X.S->model); throw Term{1}; } return; }
    E rc = X.rewrite(c); if (ExprPool::isC(rc) && rc->val) { X.checksSolver++; return; }
    X.checksSolver++; std::vector<u64> md = X.S->model; E nc = P.notE(c);
    for (E k : X.S->cs) { if (k == c) return; }
    int q = P.eval(c, md) ? SOLVER->check(X.S->cs, nc, md) : 1;
    if (q < 0) X.unknowns++;
    if (q == 1) { X.report("check", m, md); X.assume(c); } };
  t["sx_reach"] = BF { X.reach[X.cstr(X.conc(a[0], 64))]++; };
  t["sx_conc"] = BF { r.push_back(C(X.conc(a[0], 64))); };
  t["sx_select"] = BF { E c = P.notE(P.bin(K_EQ, toE(a[0], I.argw[0]), P.cst(0, I.argw[0]))); r.push_back(ExprPool::isC(c) ? (c->val ? a[1] : a[2]) : mkV(P.ite(c, toE(a[1], 64), toE(a[2], 64)))); };
  t["sx_is_symbolic"] = BF { r.push_back(C(a[0].e != nullptr)); };
  t["sx_unsupported"] = BF { X.unsupp(X.cstr(X.conc(a[0], 64))); };
  t["sx_native"] = BF { r.push_back(C(0)); };
  t["sx_prune"] = BF { X.infeasible++; throw Term{3}; };
  t["sx_dump"] = BF { X.S->dumps.push_back({X.cstr(X.conc(a[0], 64)), a[1]}); };
  // --- memory
  auto mal = BF { E big; u64 n; if (a[0].e) { n = X.conc(a[0], 64); } else n = a[0].v; (void)big; r.push_back(C(X.mallocC(n))); };
  t["malloc"] = mal; t["_Znwm"] = mal; t["_Znam"] = mal;
  t["_ZnwmRKSt9nothrow_t"] = mal; t["_ZnamRKSt9nothrow_t"] = mal;
  t["calloc"] = BF { u64 n = X.conc(a[0], 64) * X.conc(a[1], 64); u64 p = X.mallocC(n); memset(X.S->mem.get(p >> OFFB)->d, 0, n); r.push_back(C(p)); };
  t["realloc"] = BF { u64 o = X.conc(a[0], 64), n = X.conc(a[1], 64); u64 p = X.mallocC(n); if (o) { Obj* b = X.S->mem.get(o >> OFFB); if (!b || (o & OFFM)) X.crash("memory", "invalid realloc"); copyMem(X, C(p), C(o), std::min<u64>(n, b->size)); X.freeC(o); } r.push_back(C(p)); };
  auto fre = BF { X.freeC(X.conc(a[0], 64)); };
  t["free"] = fre; t["_ZdlPv"] = fre; t["_ZdaPv"] = fre; t["_ZdlPvm"] = fre; t["_ZdaPvm"] = fre;
  auto mcpy = BF { u64 n = X.conc(a[2], 64); copyMem(X, a[0], a[1], n); r.push_back(a[0]); };
  t["memcpy"] = mcpy; t["memmove"] = mcpy;
  auto mset = BF { u64 n = X.conc(a[2], 64); if (n) { u64 d = X.conc(a[0], 64); X.access(d, n, true); V b = a[1].e ? mkV(P.extract(a[1].e, 0, 8)) : C(a[1].v & 255); if (!b.e) { Obj* o = X.access(d, n, true); memset(o->d + (d & OFFM), b.v, n); if (o->s) memset(o->s + (d & OFFM), 0, n * sizeof(SB)); } else for (u64 i = 0; i < n; i++) X.storeC(d + i, 8, b); } r.push_back(a[0]); };
  t["memset"] = mset;
  t["memcmp"] = BF { u64 n = X.conc(a[2], 64); r.push_back(n ? mkV(memcmpE(X, a[0], a[1], n, false)) : C(0)); };
  t["bcmp"] = BF { u64 n = X.conc(a[2], 64); r.push_back(n ? mkV(memcmpE(X, a[0], a[1], n, true)) : C(0)); };
  t["strlen"] = BF { r.push_back(strlenV(X, a[0])); };
  t["memchr"] = BF { u64 n = X.conc(a[2], 64), s = X.conc(a[0], 64); E c = a[1].e ? P.extract(a[1].e, 0, 8) : P.cst(a[1].v, 8);
    for (u64 i = 0; i < n; i++) { E b = toE(X.loadC(s + i, 8), 8); if (X.decide(P.bin(K_EQ, b, c))) { r.push_back(C(s + i)); return; } } r.push_back(C(0)); };
  t["strcmp"] = BF { u64 x = X.conc(a[0], 64), y = X.conc(a[1], 64); for (u64 i = 0;; i++) { E p = toE(X.loadC(x + i, 8), 8), q = toE(X.loadC(y + i, 8), 8); if (X.decide(P.bin(K_EQ, p, q))) { if (X.decide(P.bin(K_EQ, p, P.cst(0, 8)))) { r.push_back(C(0)); return; } continue; } r.push_back(C(X.decide(P.bin(K_ULT, p, q)) ? (uint32_t)-1 : 1)); return; } };
  t["strncmp"] = BF { u64 x = X.conc(a[0], 64), y = X.conc(a[1], 64), n = X.conc(a[2], 64); for (u64 i = 0; i < n; i++) { E p = toE(X.loadC(x + i, 8), 8), q = toE(X.loadC(y + i, 8), 8); if (X.decide(P.bin(K_EQ, p, q))) { if (X.decide(P.bin(K_EQ, p, P.cst(0, 8)))) break; continue; } r.push_back(C(X.decide(P.bin(K_ULT, p, q)) ? (uint32_t)-1 : 1)); return; } r.push_back(C(0)); };
  t["strchr"] = BF { u64 s = X.conc(a[0], 64); E c = a[1].e ? P.extract(a[1].e, 0, 8) : P.cst(a[1].v, 8); for (u64 i = 0;; i++) { E b = toE(X.loadC(s + i, 8), 8); if (X.decide(P.bin(K_EQ, b, c))) { r.push_back(C(s + i)); return; } if (X.decide(P.bin(K_EQ, b, P.cst(0, 8)))) { r.push_back(C(0)); return; } } };
  // --- process
  t["abort"] = BF { X.crash("abort", "abort() called"); };
  t["__assert_fail"] = BF { X.crash("assert", "assertion failed: " + X.cstr(X.conc(a[0], 64))); };
  t["__assert_perror_fail"] = t["abort"];
  t["_ZSt21__glibcxx_assert_failPKciS0_S0_"] = BF { X.crash("assert", "libstdc++ assertion failed: " + X.cstr(X.conc(a[3], 64))); };
  t["_ZSt9terminatev"] = BF { X.crash("exception", "std::terminate called"); };
  t["__clang_call_terminate"] = t["_ZSt9terminatev"];
  t["exit"] = BF { X.crash("exit", "exit() called"); };
  t["__cxa_atexit"] = BF { r.push_back(C(0)); };
  t["atexit"] = t["__cxa_atexit"];
  t["__cxa_pure_virtual"] = BF { X.crash("abort", "pure virtual call"); };
  t["__cxa_guard_acquire"] = BF { V g = X.loadC(a[0].v, 8); r.push_back(C(g.v == 0)); };
  t["__cxa_guard_release"] = BF { X.storeC(a[0].v, 8, C(1)); };
  t["__cxa_guard_abort"] = BF {};
  // --- exceptions
  t["__cxa_allocate_exception"] = BF { r.push_back(C(X.mallocC(a[0].v))); };
  t["__cxa_free_exception"] = BF { X.freeC(a[0].v); };
  t["__cxa_throw"] = BF { X.throwExc(a[0].v, a[1].v); X.jumped = true; };
  t["__cxa_begin_catch"] = BF { X.S->caught.push_back({a[0].v, X.S->lastExcTi}); r.push_back(a[0]); };
  t["__cxa_get_exception_ptr"] = BF { r.push_back(a[0]); };
  t["__cxa_end_catch"] = BF { if (!X.S->caught.empty()) X.S->caught.pop_back(); };
  t["__cxa_rethrow"] = BF { if (X.S->caught.empty()) X.crash("exception", "rethrow without exception"); Exc e = X.S->caught.back(); X.throwExc(e.obj, e.ti); X.jumped = true; };
  t["_Unwind_Resume"] = BF { X.unwind(a[0].v, X.S->lastExcTi); };
  t["llvm.eh.typeid.for"] = BF { r.push_back(C((uint32_t)(a[0].v >> OFFB))); };
  t["__dynamic_cast"] = BF { u64 o = X.conc(a[0], 64), want = a[2].v; u64 vp = X.loadC(o, 64).v, full = o + X.loadC(vp - 16, 64).v, ti = X.loadC(vp - 8, 64).v;
    std::function<int64_t(u64)> off = [&](u64 t) -> int64_t { if (t == want) return 0; u64 vt = X.loadC(t, 64).v; auto it = X.gvById.find(vt >> OFFB); std::string n = it == X.gvById.end() ? "" : it->second->getName().str();
      if (n.find("__si_class") != std::string::npos) return off(X.loadC(t + 16, 64).v);
      if (n.find("__vmi_class") != std::string::npos) { u64 cnt = X.loadC(t + 20, 32).v; for (u64 i = 0; i < cnt; i++) { int64_t fl = (int64_t)X.loadC(t + 32 + i * 16, 64).v; if (fl & 1) X.unsupp("dynamic_cast with virtual bases"); int64_t d = off(X.loadC(t + 24 + i * 16, 64).v); if (d >= 0) return d + (fl >> 8); } }
      return -1; };
    int64_t d = off(ti); r.push_back(C(d < 0 ? 0 : full + (u64)d)); };
  // --- intrinsics
  t["llvm.va_start"] = BF { u64 p = X.conc(a[0], 64); X.storeC(p, 32, C(48)); X.storeC(p + 4, 32, C(304)); X.storeC(p + 8, 64, C(X.S->st.back().va)); X.storeC(p + 16, 64, C(0)); };
  t["llvm.va_end"] = BF {}; t["llvm.threadlocal.address"] = BF { r.push_back(a[0]); };
  t["llvm.va_copy"] = BF { for (int i = 0; i < 24; i += 8) X.storeC(X.conc(a[0], 64) + i, 64, X.loadC(X.conc(a[1], 64) + i, 64)); };
  t["llvm.memcpy"] = mcpy; t["llvm.memmove"] = mcpy; t["llvm.memset"] = mset;
  t["llvm.umax"] = BF { r.push_back(minmax(CmpInst::ICMP_UGT, I.argw[0], a[0], a[1])); };
  t["llvm.umin"] = BF { r.push_back(minmax(CmpInst::ICMP_ULT, I.argw[0], a[0], a[1])); };
  t["llvm.smax"] = BF { r.push_back(minmax(CmpInst::ICMP_SGT, I.argw[0], a[0], a[1])); };
  t["llvm.smin"] = BF { r.push_back(minmax(CmpInst::ICMP_SLT, I.argw[0], a[0], a[1])); };
  t["llvm.abs"] = BF { unsigned w = I.argw[0]; V n = Exec::binV(K_SUB, w, C(0), a[0]); V c = Exec::icmpV(CmpInst::ICMP_SLT, w, a[0], C(0)); r.push_back(c.e ? mkV(P.ite(c.e, toE(n, w), toE(a[0], w))) : c.v ? n : a[0]); };
  t["llvm.expect"] = BF { r.push_back(a[0]); };
  t["llvm.is.constant"] = BF { r.push_back(C(0)); };
  t["llvm.objectsize"] = BF { r.push_back(C(~0ull)); };
  t["llvm.launder.invariant.group"] = t["llvm.expect"]; t["llvm.strip.invariant.group"] = t["llvm.expect"]; t["llvm.ssa.copy"] = t["llvm.expect"];
  t["llvm.stacksave"] = BF { r.push_back(C(0)); }; t["llvm.stackrestore"] = BF {}; t["llvm.prefetch"] = BF {};
  t["llvm.trap"] = BF { X.crash("abort", "trap"); }; t["llvm.ubsantrap"] = t["llvm.trap"];
  t["llvm.ctlz"] = BF { unsigned w = I.argw[0]; u64 v = X.conc(a[0], w); r.push_back(C(v ? __builtin_clzll(v) - (64 - w) : w)); };
  t["llvm.cttz"] = BF { unsigned w = I.argw[0]; u64 v = X.conc(a[0], w); r.push_back(C(v ? __builtin_ctzll(v) : w)); };
  t["llvm.ctpop"] = BF { unsigned w = I.argw[0]; r.push_back(C(__builtin_popcountll(X.conc(a[0], w)))); };
  t["llvm.bswap"] = BF { unsigned w = I.argw[0]; if (!a[0].e) { r.push_back(C(__builtin_bswap64(a[0].v) >> (64 - w))); return; } E e = P.extract(a[0].e, w - 8, 8); for (int i = w - 16; i >= 0; i -= 8) e = P.concat(P.extract(a[0].e, i, 8), e); r.push_back(mkV(e)); };
  auto fsh = [](bool left, Exec& X, const Inst& I, std::vector<V>& a, std::vector<V>& r) { unsigned w = I.argw[0]; u64 s = X.conc(a[2], w) % w; V x = a[0], y = a[1];
    if (left) { if (!s) { r.push_back(x); return; } r.push_back(Exec::binV(K_OR, w, Exec::binV(K_SHL, w, x, C(s)), Exec::binV(K_LSHR, w, y, C(w - s)))); }
    else { if (!s) { r.push_back(y); return; } r.push_back(Exec::binV(K_OR, w, Exec::binV(K_SHL, w, x, C(w - s)), Exec::binV(K_LSHR, w, y, C(s)))); } };
  static auto fs = fsh;
  t["llvm.fshl"] = BF { fs(true, X, I, a, r); }; t["llvm.fshr"] = BF { fs(false, X, I, a, r); };
  t["llvm.usub.sat"] = BF { unsigned w = I.argw[0]; V c = Exec::icmpV(CmpInst::ICMP_ULT, w, a[0], a[1]); V d = Exec::binV(K_SUB, w, a[0], a[1]); r.push_back(c.e ? mkV(P.ite(c.e, P.cst(0, w), toE(d, w))) : c.v ? C(0) : d); };
  t["llvm.uadd.sat"] = BF { unsigned w = I.argw[0]; V d = Exec::binV(K_ADD, w, a[0], a[1]); V c = Exec::icmpV(CmpInst::ICMP_ULT, w, d, a[0]); r.push_back(c.e ? mkV(P.ite(c.e, P.cst(~0ull, w), toE(d, w))) : c.v ? C(maskw(w)) : d); };
  t["llvm.uadd.with.overflow"] = BF { unsigned w = I.argw[0]; V d = Exec::binV(K_ADD, w, a[0], a[1]); r.push_back(d); r.push_back(Exec::icmpV(CmpInst::ICMP_ULT, w, d, a[0])); };
  t["llvm.usub.with.overflow"] = BF { unsigned w = I.argw[0]; r.push_back(Exec::binV(K_SUB, w, a[0], a[1])); r.push_back(Exec::icmpV(CmpInst::ICMP_ULT, w, a[0], a[1])); };
  t["llvm.umul.with.overflow"] = BF { unsigned w = I.argw[0]; u64 x = X.conc(a[0], w), y = X.conc(a[1], w); unsigned __int128 p = (unsigned __int128)x * y; r.push_back(C((u64)p & maskw(w))); r.push_back(C(p > maskw(w))); };
  t["llvm.sadd.with.overflow"] = BF { unsigned w = I.argw[0]; if (w > 32) { int64_t x = sx(X.conc(a[0], w), w), y = sx(X.conc(a[1], w), w), z; bool o = __builtin_add_overflow(x, y, &z); r.push_back(C((u64)z & maskw(w))); r.push_back(C(o)); return; }
    E x = P.sext(toE(a[0], w), 64), y = P.sext(toE(a[1], w), 64); E z = P.bin(K_ADD, x, y); E lo = P.extract(z, 0, w); r.push_back(mkV(lo)); r.push_back(mkV(P.notE(P.bin(K_EQ, P.sext(lo, 64), z)))); };
  t["llvm.ssub.with.overflow"] = BF { unsigned w = I.argw[0]; if (w > 32) { int64_t x = sx(X.conc(a[0], w), w), y = sx(X.conc(a[1], w), w), z; bool o = __builtin_sub_overflow(x, y, &z); r.push_back(C((u64)z & maskw(w))); r.push_back(C(o)); return; }
    E x = P.sext(toE(a[0], w), 64), y = P.sext(toE(a[1], w), 64); E z = P.bin(K_SUB, x, y); E lo = P.extract(z, 0, w); r.push_back(mkV(lo)); r.push_back(mkV(P.notE(P.bin(K_EQ, P.sext(lo, 64), z)))); };
  t["llvm.smul.with.overflow"] = BF { unsigned w = I.argw[0]; if (w > 32) { int64_t x = sx(X.conc(a[0], w), w), y = sx(X.conc(a[1], w), w), z; bool o = __builtin_mul_overflow(x, y, &z); r.push_back(C((u64)z & maskw(w))); r.push_back(C(o)); return; }
    E x = P.sext(toE(a[0], w), 64), y = P.sext(toE(a[1], w), 64); E z = P.bin(K_MUL, x, y); E lo = P.extract(z, 0, w); r.push_back(mkV(lo)); r.push_back(mkV(P.notE(P.bin(K_EQ, P.sext(lo, 64), z)))); };
  t["llvm.fabs"] = BF { unsigned w = I.argw[0]; r.push_back(C(X.conc(a[0], w) & (maskw(w) >> 1))); };
  t["llvm.ceil"] = BF { unsigned w = I.argw[0]; r.push_back(C(Exec::frF(ceil(Exec::asF(X.conc(a[0], w), w)), w))); };
  return t;
}
int Exec::findBuiltin(const std::string& nm, const Function* fn) {
  auto& t = btab(); auto it = bidx.find(nm); if (it != bidx.end()) return it->second;
  int r = -1; auto f = t.find(nm);
  if (f == t.end() && nm.compare(0, 5, "llvm.") == 0) { std::string b = nm; while (f == t.end()) { size_t p = b.rfind('.'); if (p == std::string::npos || p <= 4) break; b = b.substr(0, p); f = t.find(b); } }
  if (f != t.end() && (fn->isDeclaration() || nm == "__clang_call_terminate")) { bfn.push_back(f->second); r = bfn.size() - 1; }
  bidx[nm] = r; return r;
}

int main(int argc, char** argv) {
  Exec X; const char* bc = nullptr; std::string entry = "sx_main"; u64 dumpN = 0;
  for (int i = 1; i < argc; i++) { std::string s = argv[i];
    if (s == "--out") X.outdir = argv[++i]; else if (s == "--entry") entry = argv[++i]; else if (s == "--workers") X.nworkers = atoi(argv[++i]);
    else if (s == "--max-time") X.maxTime = atof(argv[++i]); else if (s == "--max-steps") X.maxSteps = strtoull(argv[++i], 0, 10); else if (s == "--max-viol") X.maxViol = atoi(argv[++i]);
    else if (s == "--dump-smt2") dumpN = strtoull(argv[++i], 0, 10); else bc = argv[i]; }
  if (!bc || X.outdir.empty()) { fprintf(stderr, "usage: symx --out DIR file.bc\n"); return 3; }
  POOL = new ExprPool; SOLVER = new Solver(*POOL); SOLVER->dumpMax = dumpN; SOLVER->dumpDir = X.outdir;
  struct rlimit rl = {512ul << 20, RLIM_INFINITY}; setrlimit(RLIMIT_STACK, &rl);
  X.t0 = nowS(); X.load(bc);
  X.sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void*)X.sh, 0, sizeof(Shared)); SOLVER->wrongFlag = &X.sh->wrong;
  X.sh->slot[0] = 1; X.sh->pid[0] = getpid();
  signal(SIGCHLD, SIG_IGN);
  X.initGlobals(); X.ctors();
  const Function* F = X.M->getFunction(entry); if (!F) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  std::vector<V> none; X.pushFrame(X.getFunc(F), nullptr, none);
  X.stack.push_back(X.S); X.S = nullptr;
  X.explore(); X.writeResults();
  X.sh->pid[0] = 0; X.sh->slot[0] = 0;
  int rc = 0;
  for (;;) { // wait for the others; detect dead workers
    bool busy = false;
    for (int i = 0; i < X.nworkers; i++) if (X.sh->slot[i]) { busy = true; int p = X.sh->pid[i]; if (p && kill(p, 0) != 0) { usleep(20000); if (X.sh->slot[i] && X.sh->pid[i] == p) { fprintf(stderr, "symx: worker %d died\n", p); X.sh->slot[i] = 0; rc = 4; } } }
    if (!busy) break; usleep(10000);
    if (nowS() - X.t0 > X.maxTime + 90) { for (int i = 0; i < X.nworkers; i++) if (X.sh->slot[i] && X.sh->pid[i] > 0) kill(X.sh->pid[i], SIGKILL); rc = 4; break; }
  }
  if (X.sh->wrong) rc = 5;
  return rc;
}
