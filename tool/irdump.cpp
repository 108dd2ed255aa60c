// irdump: normalise linked LLVM bitcode and dump it as JSON for the analyses in /verif/lib.
//   irdump [-noinline] [-keep a,b,c] in.bc out.json
// Normalisation (semantics preserving, so that the analyses judge what the code
// does and not how it is written): every non recursive function of internal linkage is inlined
// into its callers, llvm.expect/llvm.is.constant are lowered, locals are promoted to SSA.
#include "llvm/ADT/SCCIterator.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/Analysis/LazyValueInfo.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/Local.h"
#include <map>
#include <set>
using namespace llvm;
using json::Array; using json::Object;
using JV = json::Value;

static const DataLayout *DL;

static std::string tystr(Type *T) { std::string s; raw_string_ostream o(s); T->print(o, false, true); return o.str(); }

static std::string ditype(const DIType *T, int d = 0) {
    if (!T) return "void";
    if (d > 8) return "...";
    if (auto *D = dyn_cast<DIDerivedType>(T)) {
        switch (D->getTag()) {
        case dwarf::DW_TAG_pointer_type: return "*" + ditype(D->getBaseType(), d + 1);
        case dwarf::DW_TAG_const_type: return "const " + ditype(D->getBaseType(), d + 1);
        case dwarf::DW_TAG_volatile_type: return "volatile " + ditype(D->getBaseType(), d + 1);
        case dwarf::DW_TAG_typedef: {
            std::string b = ditype(D->getBaseType(), d + 1);
            // keep struct/enum/pointer shape visible through the typedef
            if (b.size() && (b[0] == '*' || b.rfind("struct ", 0) == 0 || b.rfind("union ", 0) == 0 || b.rfind("const ", 0) == 0 || b.rfind("fn", 0) == 0)) return b;
            return D->getName().str();
        }
        default: return ditype(D->getBaseType(), d + 1);
        }
    }
    if (auto *C = dyn_cast<DICompositeType>(T)) {
        switch (C->getTag()) {
        case dwarf::DW_TAG_structure_type: return "struct " + C->getName().str();
        case dwarf::DW_TAG_union_type: return "union " + C->getName().str();
        case dwarf::DW_TAG_enumeration_type: return "enum " + C->getName().str();
        case dwarf::DW_TAG_array_type: {
            std::string n;
            for (auto *E : C->getElements()) if (auto *S = dyn_cast<DISubrange>(E)) if (auto CI = dyn_cast_if_present<ConstantInt *>(S->getCount())) n += "[" + std::to_string(CI->getSExtValue()) + "]";
            return "arr" + n + " " + ditype(C->getBaseType(), d + 1);
        }
        }
        return C->getName().str();
    }
    if (isa<DISubroutineType>(T)) return "fn";
    return T->getName().str();
}

static JV constval(const Constant *C) {
    if (auto *I = dyn_cast<ConstantInt>(C)) {
        if (I->getBitWidth() <= 64) return Array{"c", (I->getBitWidth() == 64 || I->isNegative()) ? I->getSExtValue() : (int64_t)I->getZExtValue(), (int64_t)I->getBitWidth()};
        SmallString<40> s; I->getValue().toStringUnsigned(s); return Array{"cw", s.str().str(), (int64_t)I->getBitWidth()};
    }
    if (isa<ConstantPointerNull>(C)) return Array{"n"};
    if (isa<UndefValue>(C)) return Array{"u"};
    if (isa<ConstantAggregateZero>(C)) return Array{"z", (int64_t)DL->getTypeAllocSize(C->getType())};
    if (auto *F = dyn_cast<Function>(C)) return Array{"f", F->getName().str()};
    if (auto *G = dyn_cast<GlobalValue>(C)) return Array{"g", G->getName().str(), 0};
    if (auto *F = dyn_cast<ConstantFP>(C)) { SmallString<32> s; F->getValueAPF().toString(s); return Array{"fp", s.str().str()}; }
    if (auto *E = dyn_cast<ConstantExpr>(C)) {
        if (E->getOpcode() == Instruction::GetElementPtr) {
            APInt off(64, 0);
            auto *G = cast<GEPOperator>(E);
            if (G->accumulateConstantOffset(*DL, off)) {
                JV b = constval(cast<Constant>(G->getPointerOperand()));
                if (auto *A = b.getAsArray()) if (A->size() == 3 && (*A)[0] == JV("g")) return Array{"g", (*A)[1], (int64_t)(*(*A)[2].getAsInteger() + off.getSExtValue())};
                return Array{"ce", "gep", Array{b, off.getSExtValue()}};
            }
        }
        Array ops; for (auto &o : E->operands()) ops.push_back(constval(cast<Constant>(o)));
        return Array{"ce", Instruction::getOpcodeName(E->getOpcode()), std::move(ops)};
    }
    if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
        Array a;
        for (unsigned i = 0; i < D->getNumElements(); ++i) {
            if (D->getElementType()->isIntegerTy()) a.push_back((int64_t)D->getElementAsInteger(i));
            else a.push_back(nullptr);
        }
        return Array{"d", (int64_t)DL->getTypeAllocSize(D->getElementType()), std::move(a)};
    }
    if (auto *S = dyn_cast<ConstantStruct>(C)) {
        Array a; auto *L = DL->getStructLayout(S->getType());
        for (unsigned i = 0; i < S->getNumOperands(); ++i) a.push_back(Array{(int64_t)L->getElementOffset(i), constval(S->getOperand(i))});
        return Array{"s", std::move(a)};
    }
    if (auto *S = dyn_cast<ConstantArray>(C)) {
        Array a; for (auto &o : S->operands()) a.push_back(constval(cast<Constant>(o)));
        return Array{"a", (int64_t)DL->getTypeAllocSize(S->getType()->getElementType()), std::move(a)};
    }
    return Array{"?"};
}

static std::string fileOf(const DIScope *S) { return S && S->getFile() ? S->getFile()->getFilename().str() : std::string(); }

// number of elements of the array type being indexed, or -1 for pointer arithmetic
template <class It> static int64_t nelems(It it, GetElementPtrInst *G) {
    Type *T = G->getSourceElementType(); auto j = gep_type_begin(G); if (j == it) return -1; ++j;
    for (;; ++j) { 
        if (j == it) { if (auto *A = dyn_cast<ArrayType>(T)) return (int64_t)A->getNumElements(); return -1; }
        if (auto *S = dyn_cast<StructType>(T)) T = S->getElementType(cast<ConstantInt>(j.getOperand())->getZExtValue());
        else if (auto *A = dyn_cast<ArrayType>(T)) T = A->getElementType(); else return -1;
    }
}

struct FnDump {
    Function &F; std::map<const llvm::Value *, int> id; std::map<const BasicBlock *, int> bid;
    LazyValueInfo *LVI; ScalarEvolution *SE;
    JV ref(const llvm::Value *V) {
        if (auto it = id.find(V); it != id.end()) return it->second;
        if (auto *C = dyn_cast<Constant>(V)) return constval(C);
        if (isa<InlineAsm>(V)) return Array{"asm"};
        if (auto *M = dyn_cast<MetadataAsValue>(V)) return Array{"md"};
        return Array{"?"};
    }
    Array locOf(const Instruction &I) {
        Array a; DILocation *L = I.getDebugLoc().get();
        while (L) {
            std::string fn; if (auto *S = L->getScope()->getSubprogram()) fn = S->getName().str();
            a.push_back(Array{fileOf(L->getScope()), (int64_t)L->getLine(), fn}); L = L->getInlinedAt();
        }
        return a;
    }
    Array rangeOf(llvm::Value *V, Instruction *At) {
        unsigned w = V->getType()->getIntegerBitWidth();
        ConstantRange R = LVI->getConstantRange(V, At, false);
        if (SE->isSCEVable(V->getType())) {
            R = R.intersectWith(SE->getUnsignedRange(SE->getSCEV(V)));
        }
        (void)w;
        if (R.isEmptySet()) return Array{"empty"};
        APInt lo = R.getUnsignedMin(), hi = R.getUnsignedMax(), sl = R.getSignedMin(), sh = R.getSignedMax();
        return Array{std::to_string(lo.getZExtValue()), std::to_string(hi.getZExtValue()), std::to_string(sl.getSExtValue()), std::to_string(sh.getSExtValue())};
    }
    Object instr(Instruction &I) {
        Object o; o["i"] = id[&I]; o["o"] = I.getOpcodeName(); o["t"] = tystr(I.getType());
        Array loc = locOf(I); if (!loc.empty()) o["l"] = std::move(loc);
        Array ops;
        if (auto *P = dyn_cast<PHINode>(&I)) {
            for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) ops.push_back(Array{bid[P->getIncomingBlock(i)], ref(P->getIncomingValue(i))});
        } else if (auto *B = dyn_cast<BranchInst>(&I)) {
            if (B->isConditional()) ops.push_back(ref(B->getCondition()));
            Array s; for (unsigned k = 0; k < B->getNumSuccessors(); ++k) s.push_back(bid[B->getSuccessor(k)]); o["s"] = std::move(s);
        } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
            ops.push_back(ref(S->getCondition()));
            Array cs; for (auto &c : S->cases()) cs.push_back(Array{constval(c.getCaseValue()), bid[c.getCaseSuccessor()]});
            o["cases"] = std::move(cs); o["def"] = bid[S->getDefaultDest()];
        } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
            ops.push_back(ref(G->getPointerOperand()));
            int64_t off = 0; Array vars, names; Type *T = nullptr;
            std::string st; Array arrs;
            for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
                llvm::Value *ix = it.getOperand();
                if (StructType *ST = it.getStructTypeOrNull()) {
                    unsigned f = cast<ConstantInt>(ix)->getZExtValue(); int64_t fo = DL->getStructLayout(ST)->getElementOffset(f);
                    off += fo; names.push_back(Array{ST->hasName() ? ST->getName().str() : std::string(), fo});
                    T = ST->getElementType(f);
                } else {
                    int64_t sc = DL->getTypeAllocSize(it.getIndexedType());
                    int64_t nelem = nelems(it, G);
                    if (auto *c = dyn_cast<ConstantInt>(ix)) {
                        off += c->getSExtValue() * sc;
                        if (nelem >= 0) arrs.push_back(Array{nelem, Array{"c", c->getSExtValue()}, nullptr, sc});
                    } else {
                        vars.push_back(Array{sc, ref(ix)});
                        Array r = rangeOf(ix, &I);
                        arrs.push_back(Array{nelem, ref(ix), std::move(r), sc});
                    }
                    names.push_back(Array{"[]", nelem});
                    T = it.getIndexedType();
                }
            }
            o["off"] = off; o["vars"] = std::move(vars); o["path"] = std::move(names); if (!arrs.empty()) o["arr"] = std::move(arrs);
            o["st"] = tystr(G->getSourceElementType());
        } else if (auto *C = dyn_cast<CallBase>(&I)) {
            for (auto &a : C->args()) ops.push_back(ref(a.get()));
            if (auto *F = dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts())) o["callee"] = F->getName().str();
            else if (C->isInlineAsm()) { o["callee"] = "asm"; o["asm"] = cast<InlineAsm>(C->getCalledOperand())->getAsmString(); }
            else o["ind"] = ref(C->getCalledOperand());
        } else if (auto *A = dyn_cast<AllocaInst>(&I)) {
            ops.push_back(ref(A->getArraySize())); o["sz"] = (int64_t)DL->getTypeAllocSize(A->getAllocatedType()); o["at"] = tystr(A->getAllocatedType());
        } else {
            for (auto &x : I.operands()) ops.push_back(ref(x.get()));
            if (auto *C = dyn_cast<CmpInst>(&I)) { o["p"] = CmpInst::getPredicateName(C->getPredicate()).str(); o["ot"] = tystr(C->getOperand(0)->getType()); }
            if (auto *L = dyn_cast<LoadInst>(&I)) { if (L->isVolatile()) o["vol"] = true; if (L->isAtomic()) o["ord"] = toIRString(L->getOrdering()); o["sz"] = (int64_t)DL->getTypeStoreSize(I.getType()); }
            if (auto *S = dyn_cast<StoreInst>(&I)) { if (S->isVolatile()) o["vol"] = true; if (S->isAtomic()) o["ord"] = toIRString(S->getOrdering()); o["sz"] = (int64_t)DL->getTypeStoreSize(S->getValueOperand()->getType()); o["vt"] = tystr(S->getValueOperand()->getType()); }
            if (auto *R = dyn_cast<AtomicRMWInst>(&I)) { o["rmw"] = AtomicRMWInst::getOperationName(R->getOperation()).str(); o["ord"] = toIRString(R->getOrdering()); }
            if (auto *X = dyn_cast<AtomicCmpXchgInst>(&I)) { o["ord"] = toIRString(X->getSuccessOrdering()); o["ford"] = toIRString(X->getFailureOrdering()); if (X->isWeak()) o["weak"] = true; }
            if (auto *R = dyn_cast<FenceInst>(&I)) o["ord"] = toIRString(R->getOrdering());
            if (auto *E = dyn_cast<ExtractValueInst>(&I)) { Array ix; for (unsigned x : E->indices()) ix.push_back((int64_t)x); o["ix"] = std::move(ix); }
            if (auto *E = dyn_cast<InsertValueInst>(&I)) { Array ix; for (unsigned x : E->indices()) ix.push_back((int64_t)x); o["ix"] = std::move(ix); }
            if (isa<CastInst>(&I)) o["ft"] = tystr(I.getOperand(0)->getType());
            if (auto *B = dyn_cast<OverflowingBinaryOperator>(&I)) { if (B->hasNoSignedWrap()) o["nsw"] = true; if (B->hasNoUnsignedWrap()) o["nuw"] = true; }
        }
        if (!ops.empty()) o["a"] = std::move(ops);
        return o;
    }
};

int main(int argc, char **argv) {
    bool inl = true; std::vector<std::string> pos; std::set<std::string> keep;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "-noinline") inl = false;
        else if (a == "-keep") { StringRef s(argv[++i]); SmallVector<StringRef, 8> p; s.split(p, ','); for (auto &x : p) keep.insert(x.str()); }
        else pos.push_back(a);
    }
    LLVMContext ctx; SMDiagnostic err; auto M = parseIRFile(pos[0], err, ctx);
    if (!M) { err.print("irdump", errs()); return 2; }
    DL = &M->getDataLayout();
    std::set<Function *> rec;
    { CallGraph CG(*M);
      for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it) if (it.hasCycle()) for (auto *N : *it) if (N->getFunction()) rec.insert(N->getFunction()); }
    auto srcname = [](Function &F) { auto *S = F.getSubprogram(); return S ? S->getName().str() : F.getName().str(); };
    for (auto &F : *M) {
        F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::AlwaysInline);
        if (inl && !F.isDeclaration() && F.hasLocalLinkage() && !rec.count(&F) && !F.isVarArg() && !keep.count(srcname(F))) F.addFnAttr(Attribute::AlwaysInline);
    }
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM; PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    std::string pipe = std::string("function(lower-expect,sroa<modify-cfg>),") + (inl ? "always-inline," : "") + "function(sroa<modify-cfg>,lower-constant-intrinsics,instsimplify,sroa<modify-cfg>,adce)";
    if (auto E = PB.parsePassPipeline(MPM, pipe)) { errs() << toString(std::move(E)) << "\n"; return 2; }
    MPM.run(*M, MAM);
    for (auto &F : *M) if (!F.isDeclaration()) { removeUnreachableBlocks(F); }
    MAM.clear(); FAM.clear(); CGAM.clear(); LAM.clear();

    Object root; Object types;
    DebugInfoFinder DIF; DIF.processModule(*M);
    for (auto *T : DIF.types()) if (auto *C = dyn_cast<DICompositeType>(T)) if (C->getTag() == dwarf::DW_TAG_structure_type || C->getTag() == dwarf::DW_TAG_union_type) {
        if (C->getName().empty()) continue;
        Array mem;
        for (auto *E : C->getElements()) if (auto *D = dyn_cast<DIDerivedType>(E)) if (D->getTag() == dwarf::DW_TAG_member)
            mem.push_back(Array{D->getName().str(), (int64_t)(D->getOffsetInBits() / 8), ditype(D->getBaseType()), (int64_t)((D->getSizeInBits() + 7) / 8)});
        if (mem.empty()) continue;
        types[C->getName().str()] = Object{{"size", (int64_t)(C->getSizeInBits() / 8)}, {"m", std::move(mem)}, {"u", C->getTag() == dwarf::DW_TAG_union_type}};
    }
    root["types"] = std::move(types);
    Array globs;
    for (auto &G : M->globals()) {
        Object o; o["name"] = G.getName().str(); o["const"] = G.isConstant(); o["local"] = G.hasLocalLinkage(); o["decl"] = G.isDeclaration();
        o["hidden"] = G.hasHiddenVisibility(); o["size"] = (int64_t)DL->getTypeAllocSize(G.getValueType()); o["tls"] = G.isThreadLocal();
        SmallVector<DIGlobalVariableExpression *, 1> es; G.getDebugInfo(es);
        if (!es.empty()) { auto *V = es[0]->getVariable(); o["src"] = V->getName().str(); o["file"] = fileOf(V->getScope() ? V->getScope() : nullptr); if (V->getFile()) o["file"] = V->getFile()->getFilename().str(); o["line"] = (int64_t)V->getLine(); o["dt"] = ditype(V->getType()); if (auto *SP = dyn_cast_or_null<DISubprogram>(V->getScope())) o["infn"] = SP->getName().str(); else if (V->getScope() && isa<DILocalScope>(V->getScope())) o["infn"] = cast<DILocalScope>(V->getScope())->getSubprogram()->getName().str(); }
        if (G.hasInitializer()) o["init"] = constval(G.getInitializer());
        globs.push_back(std::move(o));
    }
    root["globals"] = std::move(globs);
    Array aliases; for (auto &A : M->aliases()) aliases.push_back(A.getName().str()); root["aliases"] = std::move(aliases);
    Array fns;
    for (auto &F : *M) {
        Object o; o["name"] = F.getName().str(); o["decl"] = F.isDeclaration(); o["local"] = F.hasLocalLinkage(); o["hidden"] = F.hasHiddenVisibility(); o["ret"] = tystr(F.getReturnType());
        o["va"] = F.isVarArg(); o["noret"] = F.doesNotReturn(); o["rec"] = rec.count(&F) > 0;
        FnDump D{F, {}, {}, nullptr, nullptr};
        if (!F.isDeclaration()) { D.LVI = &FAM.getResult<LazyValueAnalysis>(F); D.SE = &FAM.getResult<ScalarEvolutionAnalysis>(F); }
        if (auto *S = F.getSubprogram()) {
            o["src"] = S->getName().str(); o["file"] = fileOf(S); o["line"] = (int64_t)S->getLine();
            Array dt; for (auto *T : S->getType()->getTypeArray()) dt.push_back(ditype(T)); o["dt"] = std::move(dt);
        }
        int n = 0; Array args; for (auto &A : F.args()) { D.id[&A] = n++; args.push_back(Array{A.getName().str(), tystr(A.getType())}); }
        o["args"] = std::move(args);
        if (!F.isDeclaration()) {
            int b = 0; for (auto &B : F) { D.bid[&B] = b++; for (auto &I : B) D.id[&I] = n++; }
            Array bl;
            for (auto &B : F) { Array is; for (auto &I : B) { if (isa<DbgInfoIntrinsic>(I)) continue; if (auto *II = dyn_cast<IntrinsicInst>(&I)) if (II->isLifetimeStartOrEnd()) continue; is.push_back(D.instr(I)); } bl.push_back(std::move(is)); }
            o["blocks"] = std::move(bl);
        }
        fns.push_back(std::move(o));
    }
    root["functions"] = std::move(fns);
    std::error_code ec; raw_fd_ostream out(pos[1], ec); if (ec) { errs() << ec.message() << "\n"; return 2; }
    out << JV(std::move(root)); out << "\n";
    return 0;
}
