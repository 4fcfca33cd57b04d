// LLVM pass that turns a translation unit into a concolic (symbolic + native) one.
//
// Every integer/pointer SSA value gets a parallel 32-bit "shadow": the id of a symbolic expression
// node held by the runtime (0 = concrete).  The original instructions stay in place and run natively;
// next to each of them the pass emits a call that builds the node describing its result.  Branches,
// switches, symbolic addresses and symbolic arguments of uninstrumented functions become path events.
#include "llvm/IR/Function.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/IR/InstVisitor.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include <map>
#include <set>
#include <string>

using namespace llvm;

namespace {

// keep in step with engine/sx.cpp
enum Op { ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, SHL, LSHR, ASHR, AND, OR, XOR,
          EQ, NE, ULT, ULE, UGT, UGE, SLT, SLE, SGT, SGE, UMIN, UMAX, SMIN, SMAX,
          UADDO, USUBO, UMULO, SADDO, SSUBO, SMULO, UADDS, USUBS };
enum Cast { ZEXT, SEXT, TRUNC };
enum Un { CTPOP, CTLZ, CTTZ, BSWAP, ABS };

constexpr unsigned MAXARGS = 32;

struct Sx {
    Module &M;
    LLVMContext &C;
    Type *i1, *i8, *i32, *i64, *voidTy;
    PointerType *ptr;
    FunctionCallee fBin, fCast, fUn, fSel, fBranch, fSwitch, fLoad, fStore, fMemcpy, fMemset, fMemcmp,
        fConc, fConcPtr, fClear, fExtArg, fFunnel, fUnsup, fLoadPtr, fLoadVec, fClearRange, fExtWrite;
    GlobalVariable *gArgs, *gByval, *gCallee, *gRet;
    unsigned site = 0;

    explicit Sx(Module &m) : M(m), C(m.getContext()) {
        i1 = Type::getInt1Ty(C); i8 = Type::getInt8Ty(C); i32 = Type::getInt32Ty(C); i64 = Type::getInt64Ty(C);
        voidTy = Type::getVoidTy(C); ptr = PointerType::getUnqual(C);
        fBin = M.getOrInsertFunction("__sx_bin", i32, i32, i32, i32, i32, i64, i64, i64, i64);
        fCast = M.getOrInsertFunction("__sx_cast", i32, i32, i32, i32, i32);
        fUn = M.getOrInsertFunction("__sx_un", i32, i32, i32, i32);
        fSel = M.getOrInsertFunction("__sx_select", i32, i32, i1, i32, i32, i32, i64, i64, i64, i64);
        fFunnel = M.getOrInsertFunction("__sx_funnel", i32, i32, i32, i32, i32, i32, i64, i64, i64);
        fBranch = M.getOrInsertFunction("__sx_branch", voidTy, i32, i1, i32);
        fSwitch = M.getOrInsertFunction("__sx_switch", voidTy, i32, i32, i64, ptr, i32, i32);
        fLoad = M.getOrInsertFunction("__sx_load", i32, ptr, i32, i32);
        fStore = M.getOrInsertFunction("__sx_store", voidTy, ptr, i32, i32);
        fMemcpy = M.getOrInsertFunction("__sx_memcpy", voidTy, ptr, ptr, i64);
        fMemset = M.getOrInsertFunction("__sx_memset", voidTy, ptr, i32, i64);
        fMemcmp = M.getOrInsertFunction("__sx_memcmp", i32, ptr, ptr, i64, i32, i32);
        fConc = M.getOrInsertFunction("__sx_concretize", voidTy, i32, i32);
        fLoadPtr = M.getOrInsertFunction("__sx_load_ptr", i32, ptr, i32, i32, i32, i32);
        fConcPtr = M.getOrInsertFunction("__sx_concretize_ptr", voidTy, i32, i32);
        fExtArg = M.getOrInsertFunction("__sx_ext_arg", voidTy, i32, i32);
        fExtWrite = M.getOrInsertFunction("__sx_ext_write", voidTy, ptr);
        fClear = M.getOrInsertFunction("__sx_clear", voidTy, ptr, i64);
        fClearRange = M.getOrInsertFunction("__sx_clear_alloc", voidTy, ptr, i64);
        fUnsup = M.getOrInsertFunction("__sx_unsupported", voidTy, i32, i32, ptr);
        fLoadVec = M.getOrInsertFunction("__sx_load_concrete", voidTy, ptr, i64);
        auto ext = [&](const char *n, Type *t) {
            auto *g = M.getNamedGlobal(n);
            if (!g) g = new GlobalVariable(M, t, false, GlobalValue::ExternalLinkage, nullptr, n);
            return g;
        };
        gArgs = ext("__sx_args", ArrayType::get(i32, MAXARGS));
        gByval = ext("__sx_byval", ArrayType::get(i64, MAXARGS));
        gCallee = ext("__sx_callee", ptr);
        gRet = ext("__sx_ret", ArrayType::get(i32, 16));
    }

    static bool skipName(StringRef n) {
        return n.starts_with("__sx") || n.contains("sxraw") || n.starts_with("llvm.");
    }
    static bool instrumentable(const Function &F) { return !F.isDeclaration() && !skipName(F.getName()); }
};

struct Fn {
    Sx &S;
    Function &F;
    const DataLayout &DL;
    DenseMap<Value *, Value *> sh;
    std::vector<std::pair<PHINode *, PHINode *>> phis;

    Fn(Sx &s, Function &f) : S(s), F(f), DL(f.getParent()->getDataLayout()) {}

    bool scalar(Type *t) { return t->isIntegerTy() || t->isPointerTy(); }
    unsigned width(Type *t) { return t->isPointerTy() ? 64 : t->getIntegerBitWidth(); }
    // shadow type of an SSA type, nullptr when the value is never symbolic
    Type *shTy(Type *t) {
        if (scalar(t)) return S.i32;
        if (auto *st = dyn_cast<StructType>(t)) {
            std::vector<Type *> e;
            for (auto *x : st->elements()) { auto *y = shTy(x); e.push_back(y ? y : S.i32); }
            return StructType::get(S.C, e);
        }
        if (auto *at = dyn_cast<ArrayType>(t)) {
            auto *y = shTy(at->getElementType());
            return ArrayType::get(y ? y : S.i32, at->getNumElements());
        }
        return nullptr;
    }
    Value *zero(Type *t) { return Constant::getNullValue(t); }
    Value *shadow(Value *v) {
        auto it = sh.find(v);
        if (it != sh.end()) return it->second;
        auto *t = shTy(v->getType());
        return t ? zero(t) : (Value *)ConstantInt::get(S.i32, 0);
    }
    bool isZero(Value *s) { auto *c = dyn_cast<Constant>(s); return c && c->isNullValue(); }
    // concrete value of an operand as (lo, hi)
    std::pair<Value *, Value *> conc(IRBuilder<> &B, Value *v) {
        Type *t = v->getType();
        if (t->isPointerTy()) return {B.CreatePtrToInt(v, S.i64), B.getInt64(0)};
        unsigned w = t->getIntegerBitWidth();
        if (w <= 64) return {B.CreateZExt(v, S.i64), B.getInt64(0)};
        Value *lo = B.CreateTrunc(v, S.i64);
        Value *hi = B.CreateTrunc(B.CreateLShr(v, 64), S.i64);
        return {lo, hi};
    }
    Value *c32(IRBuilder<> &B, unsigned v) { return B.getInt32(v); }

    Value *bin(IRBuilder<> &B, unsigned op, Value *a, Value *b) {
        Value *sa = shadow(a), *sb = shadow(b);
        if (isZero(sa) && isZero(sb)) return B.getInt32(0);
        unsigned w = width(a->getType());
        if (w > 128) { unsupported(B, B.CreateOr(sa, sb), "wide binary"); return B.getInt32(0); }
        auto ca = conc(B, a), cb = conc(B, b);
        return B.CreateCall(S.fBin, {c32(B, op), c32(B, w), sa, sb, ca.first, ca.second, cb.first, cb.second});
    }
    void unsupported(IRBuilder<> &B, Value *s, StringRef what) {
        if (isZero(s)) return;
        B.CreateCall(S.fUnsup, {s, B.getInt32(S.site++), B.CreateGlobalStringPtr(what)});
    }
    void concretize(IRBuilder<> &B, Value *v) {
        if (!scalar(v->getType())) return;
        Value *s = shadow(v);
        if (isZero(s)) return;
        B.CreateCall(S.fConc, {s, B.getInt32(S.site++)});
    }
    void concretizePtr(IRBuilder<> &B, Value *v) {
        Value *s = shadow(v);
        if (isZero(s)) return;
        B.CreateCall(S.fConcPtr, {s, B.getInt32(S.site++)});
    }

    void run() {
        std::vector<Instruction *> insts;
        ReversePostOrderTraversal<Function *> rpo(&F);
        for (auto *bb : rpo) for (auto &I : *bb) insts.push_back(&I);
        // argument shadows
        {
            IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt());
            bool any = false;
            for (auto &A : F.args()) if (A.getArgNo() < MAXARGS && (shTy(A.getType()) && scalar(A.getType()))) any = true;
            if (any) {
                Value *ok = B.CreateICmpEQ(B.CreateLoad(S.ptr, S.gCallee), &F);
                for (auto &A : F.args()) {
                    if (A.getArgNo() >= MAXARGS || !scalar(A.getType())) continue;
                    Value *p = B.CreateConstInBoundsGEP2_32(S.gArgs->getValueType(), S.gArgs, 0, A.getArgNo());
                    Value *v = B.CreateLoad(S.i32, p);
                    sh[&A] = B.CreateSelect(ok, v, B.getInt32(0));
                    if (A.hasByValAttr()) {
                        Value *q = B.CreateConstInBoundsGEP2_32(S.gByval->getValueType(), S.gByval, 0, A.getArgNo());
                        Value *src = B.CreateLoad(S.i64, q);
                        Value *n = B.CreateSelect(ok, B.getInt64(DL.getTypeAllocSize(A.getParamByValType())), B.getInt64(0));
                        B.CreateCall(S.fMemcpy, {&A, B.CreateIntToPtr(src, S.ptr), n});
                        sh[&A] = B.getInt32(0);
                    }
                }
                B.CreateStore(ConstantPointerNull::get(S.ptr), S.gCallee);
            }
        }
        for (auto *I : insts) visit(*I);
        for (auto &p : phis) {
            for (unsigned i = 0; i < p.first->getNumIncomingValues(); i++)
                p.second->addIncoming(shadow(p.first->getIncomingValue(i)), p.first->getIncomingBlock(i));
        }
    }

    void visit(Instruction &I) {
        if (auto *phi = dyn_cast<PHINode>(&I)) {
            auto *t = shTy(phi->getType());
            if (!t) return;
            IRBuilder<> B(phi);
            auto *sp = B.CreatePHI(t, phi->getNumIncomingValues());
            phis.push_back({phi, sp});
            sh[phi] = sp;
            return;
        }
        if (auto *CB = dyn_cast<CallBase>(&I)) { call(*CB); return; }
        IRBuilder<> B(&I);
        if (auto *br = dyn_cast<BranchInst>(&I)) {
            if (br->isConditional()) {
                Value *s = shadow(br->getCondition());
                if (!isZero(s)) B.CreateCall(S.fBranch, {s, br->getCondition(), B.getInt32(S.site++)});
            }
            return;
        }
        if (auto *sw = dyn_cast<SwitchInst>(&I)) {
            Value *s = shadow(sw->getCondition());
            if (isZero(s)) return;
            unsigned w = width(sw->getCondition()->getType());
            if (w > 64) { unsupported(B, s, "wide switch"); return; }
            std::vector<Constant *> cs;
            for (auto &c : sw->cases()) cs.push_back(ConstantInt::get(S.i64, c.getCaseValue()->getZExtValue()));
            auto *at = ArrayType::get(S.i64, cs.size());
            auto *g = new GlobalVariable(S.M, at, true, GlobalValue::InternalLinkage, ConstantArray::get(at, cs));
            B.CreateCall(S.fSwitch, {s, B.getInt32(w), B.CreateZExt(sw->getCondition(), S.i64), g,
                                     B.getInt32(cs.size()), B.getInt32(S.site++)});
            return;
        }
        if (auto *ret = dyn_cast<ReturnInst>(&I)) {
            Value *v = ret->getReturnValue();
            if (!v) return;
            auto *t = shTy(v->getType());
            if (!t) return;
            storeRet(B, shadow(v), t);
            return;
        }
        if (auto *bo = dyn_cast<BinaryOperator>(&I)) {
            if (!bo->getType()->isIntegerTy()) { if (bo->getType()->isVectorTy()) {} return; }
            static const std::map<unsigned, unsigned> m = {
                {Instruction::Add, ADD}, {Instruction::Sub, SUB}, {Instruction::Mul, MUL}, {Instruction::UDiv, UDIV},
                {Instruction::SDiv, SDIV}, {Instruction::URem, UREM}, {Instruction::SRem, SREM}, {Instruction::Shl, SHL},
                {Instruction::LShr, LSHR}, {Instruction::AShr, ASHR}, {Instruction::And, AND}, {Instruction::Or, OR},
                {Instruction::Xor, XOR}};
            auto it = m.find(bo->getOpcode());
            if (it == m.end()) return;
            sh[&I] = bin(B, it->second, bo->getOperand(0), bo->getOperand(1));
            return;
        }
        if (auto *ic = dyn_cast<ICmpInst>(&I)) {
            if (!scalar(ic->getOperand(0)->getType())) return;
            static const std::map<unsigned, unsigned> m = {
                {CmpInst::ICMP_EQ, EQ}, {CmpInst::ICMP_NE, NE}, {CmpInst::ICMP_ULT, ULT}, {CmpInst::ICMP_ULE, ULE},
                {CmpInst::ICMP_UGT, UGT}, {CmpInst::ICMP_UGE, UGE}, {CmpInst::ICMP_SLT, SLT}, {CmpInst::ICMP_SLE, SLE},
                {CmpInst::ICMP_SGT, SGT}, {CmpInst::ICMP_SGE, SGE}};
            sh[&I] = bin(B, m.at(ic->getPredicate()), ic->getOperand(0), ic->getOperand(1));
            return;
        }
        if (auto *ci = dyn_cast<CastInst>(&I)) {
            Value *v = ci->getOperand(0);
            Type *from = v->getType(), *to = ci->getType();
            Value *s = shadow(v);
            if (!scalar(from)) {
                return;   // fp -> int : concrete (its integer source was concretised)
            }
            if (!scalar(to)) { concretize(B, v); return; }   // int -> fp / vector
            if (isZero(s)) return;
            unsigned wf = width(from), wt = width(to);
            if (wf == wt) { sh[&I] = s; return; }
            unsigned k = wt < wf ? TRUNC : (isa<SExtInst>(ci) ? SEXT : ZEXT);
            sh[&I] = B.CreateCall(S.fCast, {c32(B, k), c32(B, wf), c32(B, wt), s});
            return;
        }
        if (auto *se = dyn_cast<SelectInst>(&I)) {
            Value *a = se->getTrueValue(), *b = se->getFalseValue(), *c = se->getCondition();
            if (!c->getType()->isIntegerTy(1)) return;
            auto *t = shTy(se->getType());
            Value *sc = shadow(c);
            if (!t || !scalar(se->getType())) {
                concretize(B, c);
                if (t) sh[&I] = B.CreateSelect(c, shadow(a), shadow(b));
                return;
            }
            Value *sa = shadow(a), *sb = shadow(b);
            if (isZero(sc)) {
                if (isZero(sa) && isZero(sb)) return;
                sh[&I] = B.CreateSelect(c, sa, sb);
                return;
            }
            if (se->getType()->isPointerTy()) {
                // symbolic choice between two pointers: make it a path decision
                B.CreateCall(S.fBranch, {sc, c, B.getInt32(S.site++)});
                sh[&I] = B.CreateSelect(c, sa, sb);
                return;
            }
            unsigned w = width(se->getType());
            if (w > 128) {
                B.CreateCall(S.fBranch, {sc, c, B.getInt32(S.site++)});
                sh[&I] = B.CreateSelect(c, sa, sb);
                return;
            }
            auto ca = conc(B, a), cb = conc(B, b);
            sh[&I] = B.CreateCall(S.fSel, {sc, c, c32(B, w), sa, sb, ca.first, ca.second, cb.first, cb.second});
            return;
        }
        if (auto *ld = dyn_cast<LoadInst>(&I)) {
            Type *t = ld->getType();
            Value *ps = shadow(ld->getPointerOperand());
            if (scalar(t) && !isZero(ps)) {
                IRBuilder<> A(ld->getNextNode());
                sh[&I] = A.CreateCall(S.fLoadPtr, {ld->getPointerOperand(), A.getInt32(DL.getTypeStoreSize(t)), A.getInt32(width(t)), ps, A.getInt32(S.site++)});
                return;
            }
            concretizePtr(B, ld->getPointerOperand());
            if (scalar(t)) {
                IRBuilder<> A(ld->getNextNode());
                sh[&I] = A.CreateCall(S.fLoad, {ld->getPointerOperand(), A.getInt32(DL.getTypeStoreSize(t)), A.getInt32(width(t))});
            } else {
                B.CreateCall(S.fLoadVec, {ld->getPointerOperand(), B.getInt64(DL.getTypeStoreSize(t))});
            }
            return;
        }
        if (auto *st = dyn_cast<StoreInst>(&I)) {
            concretizePtr(B, st->getPointerOperand());
            Type *t = st->getValueOperand()->getType();
            IRBuilder<> A(st->getNextNode());
            if (scalar(t)) {
                A.CreateCall(S.fStore, {st->getPointerOperand(), A.getInt32(DL.getTypeStoreSize(t)), shadow(st->getValueOperand())});
            } else {
                A.CreateCall(S.fClear, {st->getPointerOperand(), A.getInt64(DL.getTypeStoreSize(t))});
            }
            return;
        }
        if (auto *gep = dyn_cast<GetElementPtrInst>(&I)) {
            if (!gep->getType()->isPointerTy()) return;
            gepShadow(B, *gep);
            return;
        }
        if (auto *al = dyn_cast<AllocaInst>(&I)) {
            if (al->isArrayAllocation()) return;
            Instruction *n = al->getNextNode();
            while (isa<AllocaInst>(n)) n = n->getNextNode();
            IRBuilder<> A(n);
            A.CreateCall(S.fClear, {al, A.getInt64(DL.getTypeAllocSize(al->getAllocatedType()))});
            return;
        }
        if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
            if (!shTy(ev->getType())) return;
            Value *s = shadow(ev->getAggregateOperand());
            if (isZero(s)) return;
            sh[&I] = B.CreateExtractValue(s, ev->getIndices());
            return;
        }
        if (auto *iv = dyn_cast<InsertValueInst>(&I)) {
            Value *s = shadow(iv->getAggregateOperand());
            Value *e = shadow(iv->getInsertedValueOperand());
            sh[&I] = B.CreateInsertValue(s, e, iv->getIndices());
            return;
        }
        if (isa<FreezeInst>(&I)) { if (shTy(I.getType())) sh[&I] = shadow(I.getOperand(0)); return; }
        if (auto *rmw = dyn_cast<AtomicRMWInst>(&I)) {
            concretizePtr(B, rmw->getPointerOperand());
            concretize(B, rmw->getValOperand());
            B.CreateCall(S.fLoadVec, {rmw->getPointerOperand(), B.getInt64(DL.getTypeStoreSize(rmw->getType()))});
            B.CreateCall(S.fClear, {rmw->getPointerOperand(), B.getInt64(DL.getTypeStoreSize(rmw->getType()))});
            return;
        }
        if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&I)) {
            unsigned n = DL.getTypeStoreSize(cx->getCompareOperand()->getType());
            concretizePtr(B, cx->getPointerOperand());
            B.CreateCall(S.fLoadVec, {cx->getPointerOperand(), B.getInt64(n)});
            B.CreateCall(S.fClear, {cx->getPointerOperand(), B.getInt64(n)});
            return;
        }
        if (I.getType()->isVectorTy()) {
            for (auto &op : I.operands()) if (scalar(op->getType())) concretize(B, op);
        }
    }

    void gepShadow(IRBuilder<> &B, GetElementPtrInst &gep) {
        Value *base = gep.getPointerOperand();
        Value *sbase = shadow(base);
        bool any = !isZero(sbase);
        for (auto &ix : gep.indices()) if (!isZero(shadow(ix))) any = true;
        if (!any) return;
        // ptr = base + sum(index * scale)
        Value *cur = sbase;
        Value *curV = B.CreatePtrToInt(base, S.i64);
        auto addTerm = [&](Value *s, Value *v) {
            cur = B.CreateCall(S.fBin, {c32(B, ADD), c32(B, 64), cur, s, curV, B.getInt64(0), v, B.getInt64(0)});
            curV = B.CreateAdd(curV, v);
        };
        Type *t = nullptr;
        bool first = true;
        Type *src = gep.getSourceElementType();
        for (auto &ixu : gep.indices()) {
            Value *ix = ixu.get();
            uint64_t scale = 0;
            if (first) { t = src; scale = DL.getTypeAllocSize(t); first = false; }
            else if (auto *st = dyn_cast<StructType>(t)) {
                unsigned k = cast<ConstantInt>(ix)->getZExtValue();
                addTerm(B.getInt32(0), B.getInt64(DL.getStructLayout(st)->getElementOffset(k)));
                t = st->getElementType(k);
                continue;
            } else {
                t = cast<ArrayType>(t)->getElementType();
                scale = DL.getTypeAllocSize(t);
            }
            Value *s = shadow(ix);
            unsigned w = ix->getType()->getIntegerBitWidth();
            Value *v = B.CreateSExtOrTrunc(ix, S.i64);
            if (!isZero(s)) {
                if (w < 64) s = B.CreateCall(S.fCast, {c32(B, SEXT), c32(B, w), c32(B, 64), s});
                s = B.CreateCall(S.fBin, {c32(B, MUL), c32(B, 64), s, B.getInt32(0), v, B.getInt64(0), B.getInt64(scale), B.getInt64(0)});
            }
            addTerm(s, B.CreateMul(v, B.getInt64(scale)));
        }
        sh[&gep] = cur;
    }

    void flatten(Type *t, std::vector<std::vector<unsigned>> &out, std::vector<unsigned> &p) {
        if (auto *st = dyn_cast<StructType>(t)) {
            for (unsigned i = 0; i < st->getNumElements(); i++) { p.push_back(i); flatten(st->getElementType(i), out, p); p.pop_back(); }
        } else if (auto *at = dyn_cast<ArrayType>(t)) {
            for (unsigned i = 0; i < at->getNumElements(); i++) { p.push_back(i); flatten(at->getElementType(), out, p); p.pop_back(); }
        } else out.push_back(p);
    }
    void storeRet(IRBuilder<> &B, Value *s, Type *t) {
        std::vector<std::vector<unsigned>> leaves; std::vector<unsigned> p;
        flatten(t, leaves, p);
        for (unsigned i = 0; i < leaves.size() && i < 16; i++) {
            Value *v = leaves[i].empty() ? s : B.CreateExtractValue(s, leaves[i]);
            B.CreateStore(v, B.CreateConstInBoundsGEP2_32(S.gRet->getValueType(), S.gRet, 0, i));
        }
    }
    Value *loadRet(IRBuilder<> &B, Type *t) {
        std::vector<std::vector<unsigned>> leaves; std::vector<unsigned> p;
        flatten(t, leaves, p);
        Value *r = leaves.size() == 1 && leaves[0].empty() ? nullptr : zero(t);
        for (unsigned i = 0; i < leaves.size() && i < 16; i++) {
            Value *v = B.CreateLoad(S.i32, B.CreateConstInBoundsGEP2_32(S.gRet->getValueType(), S.gRet, 0, i));
            if (leaves[i].empty()) return v;
            r = B.CreateInsertValue(r, v, leaves[i]);
        }
        return r;
    }

    void intrinsic(IntrinsicInst &I) {
        IRBuilder<> B(&I);
        auto ovf = [&](unsigned op, unsigned opo) {
            Value *r = bin(B, op, I.getArgOperand(0), I.getArgOperand(1));
            Value *o = bin(B, opo, I.getArgOperand(0), I.getArgOperand(1));
            Value *z = zero(shTy(I.getType()));
            z = B.CreateInsertValue(z, r, {0u});
            sh[&I] = B.CreateInsertValue(z, o, {1u});
        };
        auto un = [&](unsigned k) {
            Value *s = shadow(I.getArgOperand(0));
            if (!isZero(s)) sh[&I] = B.CreateCall(S.fUn, {c32(B, k), c32(B, width(I.getType())), s});
        };
        if (I.getType()->isVectorTy()) return;
        switch (I.getIntrinsicID()) {
            case Intrinsic::umin: sh[&I] = bin(B, UMIN, I.getArgOperand(0), I.getArgOperand(1)); return;
            case Intrinsic::umax: sh[&I] = bin(B, UMAX, I.getArgOperand(0), I.getArgOperand(1)); return;
            case Intrinsic::smin: sh[&I] = bin(B, SMIN, I.getArgOperand(0), I.getArgOperand(1)); return;
            case Intrinsic::smax: sh[&I] = bin(B, SMAX, I.getArgOperand(0), I.getArgOperand(1)); return;
            case Intrinsic::uadd_sat: sh[&I] = bin(B, UADDS, I.getArgOperand(0), I.getArgOperand(1)); return;
            case Intrinsic::usub_sat: sh[&I] = bin(B, USUBS, I.getArgOperand(0), I.getArgOperand(1)); return;
            case Intrinsic::uadd_with_overflow: ovf(ADD, UADDO); return;
            case Intrinsic::usub_with_overflow: ovf(SUB, USUBO); return;
            case Intrinsic::umul_with_overflow: ovf(MUL, UMULO); return;
            case Intrinsic::sadd_with_overflow: ovf(ADD, SADDO); return;
            case Intrinsic::ssub_with_overflow: ovf(SUB, SSUBO); return;
            case Intrinsic::smul_with_overflow: ovf(MUL, SMULO); return;
            case Intrinsic::ctpop: un(CTPOP); return;
            case Intrinsic::ctlz: un(CTLZ); return;
            case Intrinsic::cttz: un(CTTZ); return;
            case Intrinsic::bswap: un(BSWAP); return;
            case Intrinsic::abs: un(ABS); return;
            case Intrinsic::expect:
            case Intrinsic::expect_with_probability:
            case Intrinsic::launder_invariant_group:
            case Intrinsic::strip_invariant_group:
                sh[&I] = shadow(I.getArgOperand(0)); return;
            case Intrinsic::fshl:
            case Intrinsic::fshr: {
                Value *a = I.getArgOperand(0), *b = I.getArgOperand(1), *c = I.getArgOperand(2);
                Value *any = B.CreateOr(B.CreateOr(shadow(a), shadow(b)), shadow(c));
                if (isZero(any)) return;
                unsigned w = width(I.getType());
                if (w > 64) { unsupported(B, any, "wide funnel"); return; }
                concretize(B, c);
                unsigned dir = I.getIntrinsicID() == Intrinsic::fshl ? 0 : 1;
                sh[&I] = B.CreateCall(S.fFunnel, {c32(B, dir), c32(B, w), shadow(a), shadow(b), B.getInt32(0),
                                                  conc(B, a).first, conc(B, b).first, conc(B, c).first});
                return;
            }
            case Intrinsic::memcpy:
            case Intrinsic::memcpy_inline:
            case Intrinsic::memmove: {
                concretizePtr(B, I.getArgOperand(0)); concretizePtr(B, I.getArgOperand(1)); concretize(B, I.getArgOperand(2));
                B.CreateCall(S.fMemcpy, {I.getArgOperand(0), I.getArgOperand(1), B.CreateZExtOrTrunc(I.getArgOperand(2), S.i64)});
                return;
            }
            case Intrinsic::memset: {
                concretizePtr(B, I.getArgOperand(0)); concretize(B, I.getArgOperand(2));
                B.CreateCall(S.fMemset, {I.getArgOperand(0), shadow(I.getArgOperand(1)), B.CreateZExtOrTrunc(I.getArgOperand(2), S.i64)});
                return;
            }
            default: {
                if (I.isAssumeLikeIntrinsic() || I.getType()->isVoidTy()) return;
                for (auto &a : I.args()) concretize(B, a.get());
                return;
            }
        }
    }

    void call(CallBase &CB) {
        if (auto *ii = dyn_cast<IntrinsicInst>(&CB)) { intrinsic(*ii); return; }
        if (CB.isInlineAsm()) return;
        IRBuilder<> B(&CB);
        Function *callee = CB.getCalledFunction();
        StringRef name = callee ? callee->getName() : "";
        IRBuilder<> *A = nullptr;
        Instruction *after = nullptr;
        auto afterPoint = [&]() -> Instruction * {
            if (after) return after;
            if (auto *inv = dyn_cast<InvokeInst>(&CB)) {
                BasicBlock *nd = inv->getNormalDest();
                if (!nd->getSinglePredecessor() || isa<PHINode>(&nd->front())) {
                    BasicBlock *nb = BasicBlock::Create(S.C, "sx.inv", &F, nd);
                    BranchInst::Create(nd, nb);
                    inv->setNormalDest(nb);
                    for (auto &phi : nd->phis()) {
                        int ix = phi.getBasicBlockIndex(inv->getParent());
                        if (ix >= 0) phi.setIncomingBlock(ix, nb);
                    }
                    // shadow phis still being built take their blocks from the originals afterwards
                    after = &*nb->getFirstInsertionPt();
                } else after = &*nd->getFirstInsertionPt();
            } else after = CB.getNextNode();
            return after;
        };
        (void)A;
        // ---- engine intrinsics -------------------------------------------------------------
        if (name == "__sx_shadow64") {       // uint32_t __sx_shadow64(uint64_t v): shadow of v, 0 if concrete
            Value *s = shadow(CB.getArgOperand(0));
            CB.replaceAllUsesWith(s);
            return;   // call left in place, harmless
        }
        if (name == "__sx_taint1" || name == "__sx_taint64" || name == "__sx_taint32") {  // T f(T concrete, uint32_t node)
            sh[&CB] = CB.getArgOperand(1);
            return;
        }
        if (name.starts_with("__sx")) return;
        if (callee && callee->isDeclaration()) {
            if (name == "memcpy" || name == "memmove") {
                concretizePtr(B, CB.getArgOperand(0)); concretizePtr(B, CB.getArgOperand(1)); concretize(B, CB.getArgOperand(2));
                B.CreateCall(S.fMemcpy, {CB.getArgOperand(0), CB.getArgOperand(1), CB.getArgOperand(2)});
                return;
            }
            if (name == "memset") {
                concretizePtr(B, CB.getArgOperand(0)); concretize(B, CB.getArgOperand(2));
                Value *s = shadow(CB.getArgOperand(1));
                if (!isZero(s)) s = B.CreateCall(S.fCast, {c32(B, TRUNC), c32(B, 32), c32(B, 8), s});
                B.CreateCall(S.fMemset, {CB.getArgOperand(0), s, CB.getArgOperand(2)});
                return;
            }
            if (name == "memcmp" || name == "bcmp") {
                concretizePtr(B, CB.getArgOperand(0)); concretizePtr(B, CB.getArgOperand(1)); concretize(B, CB.getArgOperand(2));
                sh[&CB] = B.CreateCall(S.fMemcmp, {CB.getArgOperand(0), CB.getArgOperand(1), CB.getArgOperand(2),
                                                   B.getInt32(name == "bcmp"), B.getInt32(S.site++)});
                return;
            }
            if (name == "_Znwm" || name == "_Znam" || name == "malloc" || name == "_ZnwmSt11align_val_t") {
                concretize(B, CB.getArgOperand(0));
                IRBuilder<> A2(afterPoint());
                A2.CreateCall(S.fClearRange, {&CB, CB.getArgOperand(0)});
                return;
            }
            // uninstrumented code: symbolic scalar arguments become path decisions
            for (auto &a : CB.args()) if (scalar(a->getType())) {
                Value *s = shadow(a.get());
                if (!isZero(s)) B.CreateCall(S.fExtArg, {s, B.getInt32(S.site++)});
            }
            return;
        }
        // ---- instrumented (or indirect) callee ---------------------------------------------
        Value *tag = CB.getCalledOperand();
        {
            Value *st = shadow(tag);
            if (!isZero(st)) concretizePtr(B, tag);
        }
        if (callee && !Sx::instrumentable(*callee)) {
            for (auto &a : CB.args()) if (scalar(a->getType())) {
                Value *s = shadow(a.get());
                if (!isZero(s)) B.CreateCall(S.fExtArg, {s, B.getInt32(S.site++)});
            }
            return;
        }
        for (unsigned i = 0; i < CB.arg_size(); i++) {
            Value *a = CB.getArgOperand(i);
            if (i >= MAXARGS) { concretize(B, a); continue; }
            if (!scalar(a->getType())) continue;
            B.CreateStore(shadow(a), B.CreateConstInBoundsGEP2_32(S.gArgs->getValueType(), S.gArgs, 0, i));
            if (CB.isByValArgument(i))
                B.CreateStore(B.CreatePtrToInt(a, S.i64), B.CreateConstInBoundsGEP2_32(S.gByval->getValueType(), S.gByval, 0, i));
        }
        B.CreateStore(tag, S.gCallee);
        auto *t = shTy(CB.getType());
        if (t && !CB.getType()->isVoidTy()) {
            if (!callee) {
                // an indirect callee may be uninstrumented: make sure a stale shadow is not picked up
                storeRet(B, zero(t), t);
            }
            IRBuilder<> A2(afterPoint());
            sh[&CB] = loadRet(A2, t);
        }
    }
};

struct SxPass : PassInfoMixin<SxPass> {
    PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
        Sx S(M);
        std::vector<Function *> fs;
        for (auto &F : M) if (Sx::instrumentable(F)) fs.push_back(&F);
        for (auto *F : fs) {   // __sx_sel64(c, a, b): branch-free choice for oracles
            std::vector<CallInst *> sel;
            for (auto &BB : *F) for (auto &I : BB) if (auto *C = dyn_cast<CallInst>(&I)) if (auto *G = C->getCalledFunction()) if (G->getName() == "__sx_sel64") sel.push_back(C);
            for (auto *C : sel) {
                IRBuilder<> B(C);
                Value *c = C->getArgOperand(0);
                if (!c->getType()->isIntegerTy(1)) c = B.CreateTrunc(c, B.getInt1Ty());
                C->replaceAllUsesWith(B.CreateSelect(c, C->getArgOperand(1), C->getArgOperand(2)));
                C->eraseFromParent();
            }
        }
        if (const char *fl = getenv("SX_FNLIST")) {
            std::error_code ec; raw_fd_ostream os(fl, ec);
            for (auto *F : fs) if (auto *SP = F->getSubprogram()) {
                std::string path = SP->getFilename().str(); size_t at = path.find("include/nil/");
                if (at != std::string::npos && path.find("/verif/") == std::string::npos) os << SP->getName() << " (" << path.substr(at + 8) << ":" << SP->getLine() << ")\n";
            }
        }
        for (auto *F : fs) { Fn f(S, *F); f.run(); }
        // the added calls have side effects: drop memory attributes inferred before instrumentation
        for (auto &F : M) {
            if (F.isIntrinsic()) continue;
            F.removeFnAttr(Attribute::Memory);
            F.removeFnAttr(Attribute::NoSync);
            F.removeFnAttr(Attribute::Speculatable);
            for (auto &A : F.args()) { A.removeAttr(Attribute::ReadNone); A.removeAttr(Attribute::ReadOnly); A.removeAttr(Attribute::WriteOnly); }
            for (auto &BB : F) for (auto &I : BB) if (auto *CB = dyn_cast<CallBase>(&I)) {
                if (isa<IntrinsicInst>(CB)) continue;
                CB->removeFnAttr(Attribute::Memory);
                for (unsigned i = 0; i < CB->arg_size(); i++) {
                    CB->removeParamAttr(i, Attribute::ReadNone); CB->removeParamAttr(i, Attribute::ReadOnly); CB->removeParamAttr(i, Attribute::WriteOnly);
                }
            }
        }
        return PreservedAnalyses::none();
    }
    static bool isRequired() { return true; }
};

}  // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
    return {LLVM_PLUGIN_API_VERSION, "SxPass", "1", [](PassBuilder &PB) {
                PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(SxPass()); });
            }};
}
