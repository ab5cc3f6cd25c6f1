// irdump: LLVM bitcode -> one JSON record per function/global (dvc front end).
// Nothing is dropped except debug info, attributes and metadata.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/ADT/MapVector.h>
#include <llvm/ADT/SmallString.h>
#include <cstdio>
#include <map>
#include <set>
#include <string>
using namespace llvm;
static const DataLayout* DL;
static std::map<const Value*, int> ids;
static std::string q(StringRef s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
static std::string ty(Type* t) {
    if (t->isVoidTy()) return "\"v\"";
    if (t->isIntegerTy()) return "\"i" + std::to_string(t->getIntegerBitWidth()) + "\"";
    if (t->isDoubleTy()) return "\"d\"";
    if (t->isFloatTy()) return "\"f\"";
    if (t->isX86_FP80Ty()) return "\"ld\"";
    if (t->isPointerTy()) return "\"p\"";
    if (auto* s = dyn_cast<StructType>(t)) {
        std::string r = "[\"s\"";
        const StructLayout* L = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); i++)
            r += ",[" + std::to_string((uint64_t)L->getElementOffset(i)) + "," + ty(s->getElementType(i)) + "]";
        return r + "]";
    }
    if (auto* a = dyn_cast<ArrayType>(t))
        return "[\"a\"," + std::to_string(a->getNumElements()) + "," +
               std::to_string((uint64_t)DL->getTypeAllocSize(a->getElementType())) + "," + ty(a->getElementType()) + "]";
    if (auto* a = dyn_cast<FixedVectorType>(t))
        return "[\"vec\"," + std::to_string(a->getNumElements()) + "," +
               std::to_string((uint64_t)DL->getTypeAllocSize(a->getElementType())) + "," + ty(a->getElementType()) + "]";
    return "\"?\"";
}
static std::string num(const APFloat& f0) {
    APFloat f = f0;
    bool lose;
    f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lose);
    double d = f.convertToDouble();
    if (f.isNaN()) return "\"nan\"";
    if (f.isInfinity()) return f.isNegative() ? "\"-inf\"" : "\"inf\"";
    char b[64];
    snprintf(b, 64, "\"%a\"", d);
    return b;
}
static std::string op(const Value* v);
static std::string cst(const Constant* c) {
    if (auto* k = dyn_cast<ConstantInt>(c)) {
        SmallString<64> s;
        if (k->getBitWidth() == 1) return std::string("[\"i\",1,") + (k->isOne() ? "1]" : "0]");
        k->getValue().toString(s, 10, true);
        return "[\"i\"," + std::to_string(k->getBitWidth()) + "," + s.c_str() + "]";
    }
    if (auto* k = dyn_cast<ConstantFP>(c)) return "[\"f\"," + num(k->getValueAPF()) + "]";
    if (isa<ConstantPointerNull>(c)) return "[\"n\"]";
    if (isa<UndefValue>(c)) return "[\"u\"," + ty(c->getType()) + "]";
    if (c->getType()->isPointerTy()) {
        APInt off(64, 0);
        const Value* b = c->stripAndAccumulateConstantOffsets(*DL, off, true);
        if (auto* al = dyn_cast<GlobalAlias>(b)) b = al->getAliasee()->stripPointerCasts();
        if (isa<GlobalValue>(b)) return "[\"g\"," + q(b->getName()) + "," + std::to_string(off.getSExtValue()) + "]";
        if (isa<ConstantPointerNull>(b)) return "[\"ip\"," + std::to_string(off.getSExtValue()) + "]";
        if (auto* ce = dyn_cast<ConstantExpr>(b))
            if (ce->getOpcode() == Instruction::IntToPtr)
                return "[\"i2p\"," + op(ce->getOperand(0)) + "," + std::to_string(off.getSExtValue()) + "]";
        return "[\"?\",\"pconst\"]";
    }
    if (isa<ConstantAggregateZero>(c)) return "[\"z\"," + ty(c->getType()) + "]";
    if (auto* a = dyn_cast<ConstantAggregate>(c)) {
        std::string r = "[\"S\"";
        for (unsigned i = 0; i < a->getNumOperands(); i++) r += "," + op(a->getOperand(i));
        return r + "]";
    }
    if (auto* a = dyn_cast<ConstantDataSequential>(c)) {
        std::string r = "[\"S\"";
        for (unsigned i = 0; i < a->getNumElements(); i++) r += "," + cst(a->getElementAsConstant(i));
        return r + "]";
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        std::string r = std::string("[\"ce\",") + q(ce->getOpcodeName()) + "," + ty(ce->getType());
        for (unsigned i = 0; i < ce->getNumOperands(); i++) r += "," + op(ce->getOperand(i));
        return r + "]";
    }
    return "[\"?\",\"const\"]";
}
static std::string op(const Value* v) {
    if (auto* c = dyn_cast<Constant>(v)) return cst(c);
    auto it = ids.find(v);
    if (it == ids.end()) return "[\"?\",\"val\"]";
    return std::to_string(it->second);
}
static void flat(const Constant* c, uint64_t off, std::string& out) {
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;  // zero fill
    Type* t = c->getType();
    if (auto* s = dyn_cast<StructType>(t)) {
        const StructLayout* L = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); i++)
            flat(c->getAggregateElement(i), off + (uint64_t)L->getElementOffset(i), out);
        return;
    }
    if (t->isArrayTy() || t->isVectorTy()) {
        Type* e = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
        uint64_t n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        uint64_t sz = DL->getTypeAllocSize(e);
        for (uint64_t i = 0; i < n; i++) flat(c->getAggregateElement(i), off + i * sz, out);
        return;
    }
    if (!out.empty()) out += ",";
    out += "[" + std::to_string(off) + "," + std::to_string((uint64_t)DL->getTypeStoreSize(t)) + "," + op(c) + "]";
}
int main(int argc, char** argv) {
    LLVMContext ctx;
    SMDiagnostic err;
    std::unique_ptr<Module> M = parseIRFile(argv[1], err, ctx);
    if (!M) { err.print("irdump", errs()); return 2; }
    DL = &M->getDataLayout();
    FILE* o = fopen(argv[2], "w");
    for (auto& g : M->globals()) {
        std::string s;
        if (g.hasInitializer()) flat(g.getInitializer(), 0, s);
        uint64_t sz = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 0;
        fprintf(o, "G\t%s\t{\"size\":%lu,\"init\":%d,\"const\":%d,\"cells\":[%s]}\n", g.getName().str().c_str(), sz,
                (int)g.hasInitializer(), (int)g.isConstant(), s.c_str());
    }
    for (auto& a : M->aliases())
        fprintf(o, "A\t%s\t%s\n", a.getName().str().c_str(), q(a.getAliasee()->stripPointerCasts()->getName()).c_str());
    for (auto& F : *M) {
        if (F.isDeclaration()) {
            fprintf(o, "D\t%s\t{\"ret\":%s,\"noret\":%d}\n", F.getName().str().c_str(), ty(F.getReturnType()).c_str(), (int)F.doesNotReturn());
            continue;
        }
        ids.clear();
        int n = 0;
        std::map<const BasicBlock*, int> bid;
        for (auto& a : F.args()) ids[&a] = n++;
        for (auto& B : F) bid[&B] = (int)bid.size();
        for (auto& B : F)
            for (auto& I : B) ids[&I] = n++;
        std::string s = "{\"ret\":" + ty(F.getReturnType()) + ",\"nv\":" + std::to_string(n) + ",\"args\":[";
        bool first = true;
        for (auto& a : F.args()) {
            if (!first) s += ",";
            first = false;
            uint64_t bv = a.hasByValAttr() ? (uint64_t)DL->getTypeAllocSize(a.getParamByValType()) : 0;
            s += "[" + ty(a.getType()) + "," + std::to_string(bv) + "]";
        }
        s += "],\"blocks\":[";
        for (auto& B : F) {
            if (&B != &F.getEntryBlock()) s += ",\n";
            s += "[";
            bool fi = true;
            for (auto& I : B) {
                if (isa<DbgInfoIntrinsic>(&I)) continue;
                if (!fi) s += ",";
                fi = false;
                std::string d = std::to_string(ids[&I]);
                std::string h = std::string("[\"") + I.getOpcodeName() + "\"," + d + ",";
                auto B_ = [&](const BasicBlock* b) { return std::to_string(bid[b]); };
                if (auto* p = dyn_cast<PHINode>(&I)) {
                    s += h + ty(I.getType()) + ",[";
                    for (unsigned i = 0; i < p->getNumIncomingValues(); i++)
                        s += (i ? ",[" : "[") + B_(p->getIncomingBlock(i)) + "," + op(p->getIncomingValue(i)) + "]";
                    s += "]]";
                } else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
                    MapVector<Value*, APInt> vo;
                    APInt co(64, 0);
                    if (!cast<GEPOperator>(g)->collectOffset(*DL, 64, vo, co)) { s += "[\"unsup\"," + d + ",\"gep\"]"; continue; }
                    s += h + op(g->getPointerOperand()) + "," + std::to_string(co.getSExtValue()) + ",[";
                    bool f2 = true;
                    for (auto& kv : vo) {
                        s += std::string(f2 ? "[" : ",[") + op(kv.first) + "," + std::to_string(kv.second.getSExtValue()) + "," +
                             std::to_string(kv.first->getType()->getIntegerBitWidth()) + "]";
                        f2 = false;
                    }
                    s += "]]";
                } else if (auto* a = dyn_cast<AllocaInst>(&I)) {
                    s += h + std::to_string((uint64_t)DL->getTypeAllocSize(a->getAllocatedType())) + "," + op(a->getArraySize()) + "]";
                } else if (auto* l = dyn_cast<LoadInst>(&I)) {
                    s += h + ty(I.getType()) + "," + op(l->getPointerOperand()) + "," +
                         std::to_string((uint64_t)DL->getTypeStoreSize(I.getType())) + "]";
                } else if (auto* l = dyn_cast<StoreInst>(&I)) {
                    Type* t = l->getValueOperand()->getType();
                    s += h + ty(t) + "," + op(l->getValueOperand()) + "," + op(l->getPointerOperand()) + "," +
                         std::to_string((uint64_t)DL->getTypeStoreSize(t)) + "]";
                } else if (auto* b = dyn_cast<BranchInst>(&I)) {
                    if (b->isConditional())
                        s += h + op(b->getCondition()) + "," + B_(b->getSuccessor(0)) + "," + B_(b->getSuccessor(1)) + "]";
                    else
                        s += h + B_(b->getSuccessor(0)) + "]";
                } else if (auto* w = dyn_cast<SwitchInst>(&I)) {
                    s += h + op(w->getCondition()) + "," + B_(w->getDefaultDest()) + ",[";
                    bool f2 = true;
                    for (auto& c : w->cases()) {
                        s += std::string(f2 ? "[" : ",[") + op(c.getCaseValue()) + "," + B_(c.getCaseSuccessor()) + "]";
                        f2 = false;
                    }
                    s += "]]";
                } else if (auto* c = dyn_cast<CmpInst>(&I)) {
                    s += h + q(CmpInst::getPredicateName(c->getPredicate())) + "," + ty(c->getOperand(0)->getType()) + "," +
                         op(c->getOperand(0)) + "," + op(c->getOperand(1)) + "]";
                } else if (auto* c = dyn_cast<CallBase>(&I)) {
                    s += h + ty(I.getType()) + "," + op(c->getCalledOperand()) + ",[";
                    for (unsigned i = 0; i < c->arg_size(); i++) {
                        if (c->getArgOperand(i)->getType()->isMetadataTy()) continue;
                        s += (i ? "," : "") + op(c->getArgOperand(i));
                    }
                    s += "]";
                    if (auto* v = dyn_cast<InvokeInst>(c))
                        s += "," + B_(v->getNormalDest()) + "," + B_(v->getUnwindDest());
                    s += "]";
                } else if (auto* e = dyn_cast<ExtractValueInst>(&I)) {
                    s += h + op(e->getAggregateOperand()) + ",[";
                    for (unsigned i = 0; i < e->getNumIndices(); i++) s += (i ? "," : "") + std::to_string(e->getIndices()[i]);
                    s += "]]";
                } else if (auto* e = dyn_cast<InsertValueInst>(&I)) {
                    s += h + op(e->getAggregateOperand()) + "," + op(e->getInsertedValueOperand()) + ",[";
                    for (unsigned i = 0; i < e->getNumIndices(); i++) s += (i ? "," : "") + std::to_string(e->getIndices()[i]);
                    s += "]]";
                } else if (auto* lp = dyn_cast<LandingPadInst>(&I)) {
                    s += h + std::to_string((int)lp->isCleanup()) + ",[";
                    for (unsigned i = 0; i < lp->getNumClauses(); i++)
                        s += std::string(i ? ",[" : "[") + (lp->isCatch(i) ? "1," : "0,") + op(lp->getClause(i)) + "]";
                    s += "]]";
                } else if (auto* sv = dyn_cast<ShuffleVectorInst>(&I)) {
                    s += h + op(sv->getOperand(0)) + "," + op(sv->getOperand(1)) + ",[";
                    auto m = sv->getShuffleMask();
                    for (unsigned i = 0; i < m.size(); i++) s += (i ? "," : "") + std::to_string(m[i]);
                    s += "]]";
                } else if (isa<CastInst>(&I) || isa<BinaryOperator>(&I) || isa<UnaryOperator>(&I) || isa<SelectInst>(&I) ||
                           isa<ReturnInst>(&I) || isa<ResumeInst>(&I) || isa<UnreachableInst>(&I) || isa<FreezeInst>(&I) ||
                           isa<ExtractElementInst>(&I) || isa<InsertElementInst>(&I) || isa<AtomicRMWInst>(&I) || isa<AtomicCmpXchgInst>(&I)) {
                    s += h + ty(I.getType()) + ",[";
                    for (unsigned i = 0; i < I.getNumOperands(); i++) s += (i ? "," : "") + op(I.getOperand(i));
                    s += "]";
                    if (isa<CastInst>(&I)) s += "," + ty(I.getOperand(0)->getType());
                    if (auto* a = dyn_cast<AtomicRMWInst>(&I)) s += ",\"" + AtomicRMWInst::getOperationName(a->getOperation()).str() + "\"";
                    if (auto* bo = dyn_cast<OverflowingBinaryOperator>(&I))
                        s += std::string(",") + (bo->hasNoSignedWrap() ? "1," : "0,") + (bo->hasNoUnsignedWrap() ? "1" : "0");
                    s += "]";
                } else {
                    s += std::string("[\"unsup\",") + d + "," + q(I.getOpcodeName()) + "]";
                }
            }
            s += "]";
        }
        s += "],\"loops\":[";
        DominatorTree DT(F);
        LoopInfo LI(DT);
        bool f3 = true;
        for (auto* L : LI.getLoopsInPreorder()) {
            s += std::string(f3 ? "" : ",") + "{\"h\":" + std::to_string(bid[L->getHeader()]) + ",\"d\":" + std::to_string(L->getLoopDepth()) + ",\"b\":[";
            f3 = false;
            bool f4 = true;
            for (auto* B : L->blocks()) { s += std::string(f4 ? "" : ",") + std::to_string(bid[B]); f4 = false; }
            s += "]}";
        }
        s += "]}";
        for (auto& ch : s) if (ch == '\n') ch = ' ';
        fprintf(o, "F\t%s\t%s\n", F.getName().str().c_str(), s.c_str());
    }
    // constructors of globals
    std::string s;
    if (auto* g = M->getGlobalVariable("llvm.global_ctors")) {
        if (g->hasInitializer() && isa<ConstantArray>(g->getInitializer())) {
            auto* a = cast<ConstantArray>(g->getInitializer());
            for (unsigned i = 0; i < a->getNumOperands(); i++)
                s += std::string(i ? "," : "") + q(cast<Constant>(a->getOperand(i))->getAggregateElement(1)->getName());
        }
    }
    fprintf(o, "C\tctors\t[%s]\n", s.c_str());
    fclose(o);
}
