// mirdump: normalise LLVM bitcode of the analysed program and dump the
// functions under analysis (CFG, instructions, loops, scalar evolution, vtables, debug-info layouts) as JSON.
// Nothing is executed: the tool only runs IR-to-IR normalisation passes and prints the result.
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Analysis/AliasAnalysis.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/Analysis/DomTreeUpdater.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/PostDominators.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Bitcode/BitcodeReader.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include <fstream>
#include <map>
#include <set>
#include <sstream>
using namespace llvm;
namespace js = llvm::json;

struct Config {
    std::vector<std::pair<std::string, Regex *>> rules;
    std::map<std::string, std::string> opts;
    std::vector<std::string> pipelines;
};
static Config C;
static bool matches(const char *kind, StringRef name) {
    for (auto &r : C.rules)
        if (r.first == kind && r.second->match(name)) return true;
    return false;
}
static std::map<const Function *, std::string> demCache;
static const std::string &dem(const Function &F) {
    auto it = demCache.find(&F);
    if (it != demCache.end()) return it->second;
    return demCache[&F] = llvm::demangle(F.getName().str());
}
static bool isRepoFile(StringRef f) {
    return f.contains(C.opts["root"]) || f.contains(C.opts["wit"]);
}
static std::string fileOf(const DIFile *f) {
    if (!f) return "";
    StringRef n = f->getFilename();
    if (n.starts_with("/") || f->getDirectory().empty()) return n.str();
    return (f->getDirectory() + "/" + n).str();
}
static bool isRepoFn(const Function &F) {
    if (auto *sp = F.getSubprogram()) return isRepoFile(fileOf(sp->getFile()));
    return false;
}

// ---- ids -------------------------------------------------------------
struct FnDump {
    std::map<const Value *, int> ids;
    std::map<const BasicBlock *, int> bbs;
    int id(const Value *v) {
        auto it = ids.find(v);
        if (it != ids.end()) return it->second;
        int n = ids.size();
        ids[v] = n;
        return n;
    }
};
static std::string tyStr(Type *t) {
    std::string s;
    raw_string_ostream o(s);
    t->print(o, false, true);
    return o.str();
}
static js::Value opnd(FnDump &D, const Value *v, int depth = 0) {
    if (auto *ci = dyn_cast<ConstantInt>(v)) {
        if (ci->getBitWidth() > 64) return js::Array{"k", "big"};
        return js::Array{"c", ci->getSExtValue(), (int)ci->getBitWidth()};
    }
    if (auto *cf = dyn_cast<ConstantFP>(v)) {
        SmallString<32> s;
        cf->getValueAPF().toString(s);
        return js::Array{"f", s.str().str()};
    }
    if (isa<ConstantPointerNull>(v)) return js::Array{"n"};
    if (isa<PoisonValue>(v)) return js::Array{"p"};
    if (isa<UndefValue>(v)) return js::Array{"u"};
    if (isa<ConstantAggregateZero>(v)) return js::Array{"z"};
    if (auto *gv = dyn_cast<GlobalValue>(v)) return js::Array{"g", gv->getName()};
    if (auto *ce = dyn_cast<ConstantExpr>(v)) {
        js::Array ops;
        if (auto *gep = dyn_cast<GEPOperator>(ce)) {
            APInt off(64, 0);
            extern const DataLayout *gDL;
            if (gep->accumulateConstantOffset(*gDL, off))
                return js::Array{"e", "gepc", js::Array{opnd(D, gep->getPointerOperand(), depth + 1), js::Array{"c", off.getSExtValue(), 64}}};
        }
        for (auto &o : ce->operands()) ops.push_back(opnd(D, o, depth + 1));
        return js::Array{"e", ce->getOpcodeName(), std::move(ops)};
    }
    if (auto *ag = dyn_cast<ConstantAggregate>(v)) {
        js::Array ops;
        for (auto &o : ag->operands()) ops.push_back(opnd(D, o, depth + 1));
        return js::Array{"a", std::move(ops)};
    }
    if (auto *cds = dyn_cast<ConstantDataSequential>(v)) {
        js::Array ops;
        for (unsigned i = 0; i < cds->getNumElements() && i < 4096; ++i) ops.push_back(opnd(D, cds->getElementAsConstant(i), depth + 1));
        return js::Array{"a", std::move(ops)};
    }
    if (auto *mv = dyn_cast<MetadataAsValue>(v)) {
        if (auto *ms = dyn_cast<MDString>(mv->getMetadata())) return js::Array{"m", ms->getString()};
        return js::Array{"m", ""};
    }
    if (isa<InlineAsm>(v)) return js::Array{"asm"};
    if (isa<BasicBlock>(v)) return js::Array{"b", D.bbs[cast<BasicBlock>(v)]};
    return js::Array{"v", D.id(v)};
}
const DataLayout *gDL = nullptr;

static js::Value scevJ(FnDump &D, ScalarEvolution &SE, const SCEV *s, int depth = 0) {
    if (depth > 24) return js::Array{"deep"};
    auto list = [&](const char *n, auto ops) {
        js::Array a{n};
        for (const SCEV *o : ops) a.push_back(scevJ(D, SE, o, depth + 1));
        return js::Value(std::move(a));
    };
    switch (s->getSCEVType()) {
    case scConstant: {
        auto *ci = cast<SCEVConstant>(s)->getValue();
        if (ci->getBitWidth() > 64) return js::Array{"big"};
        return js::Array{"c", ci->getSExtValue(), (int)ci->getBitWidth()};
    }
    case scTruncate: return js::Array{"trunc", (int)SE.getTypeSizeInBits(s->getType()), scevJ(D, SE, cast<SCEVCastExpr>(s)->getOperand(), depth + 1)};
    case scZeroExtend: return js::Array{"zext", (int)SE.getTypeSizeInBits(s->getType()), scevJ(D, SE, cast<SCEVCastExpr>(s)->getOperand(), depth + 1)};
    case scSignExtend: return js::Array{"sext", (int)SE.getTypeSizeInBits(s->getType()), scevJ(D, SE, cast<SCEVCastExpr>(s)->getOperand(), depth + 1)};
    case scPtrToInt: return js::Array{"ptrtoint", scevJ(D, SE, cast<SCEVCastExpr>(s)->getOperand(), depth + 1)};
    case scAddExpr: return list("add", cast<SCEVNAryExpr>(s)->operands());
    case scMulExpr: return list("mul", cast<SCEVNAryExpr>(s)->operands());
    case scUDivExpr: return js::Array{"udiv", scevJ(D, SE, cast<SCEVUDivExpr>(s)->getLHS(), depth + 1), scevJ(D, SE, cast<SCEVUDivExpr>(s)->getRHS(), depth + 1)};
    case scSMaxExpr: return list("smax", cast<SCEVNAryExpr>(s)->operands());
    case scUMaxExpr: return list("umax", cast<SCEVNAryExpr>(s)->operands());
    case scSMinExpr: return list("smin", cast<SCEVNAryExpr>(s)->operands());
    case scUMinExpr: return list("umin", cast<SCEVNAryExpr>(s)->operands());
    case scSequentialUMinExpr: return list("umin", cast<SCEVNAryExpr>(s)->operands());
    case scAddRecExpr: {
        auto *ar = cast<SCEVAddRecExpr>(s);
        js::Array a{"rec", D.bbs[ar->getLoop()->getHeader()]};
        for (const SCEV *o : ar->operands()) a.push_back(scevJ(D, SE, o, depth + 1));
        return js::Value(std::move(a));
    }
    case scUnknown: return js::Array{"val", opnd(D, cast<SCEVUnknown>(s)->getValue())};
    case scVScale: return js::Array{"vscale"};
    case scCouldNotCompute: return js::Array{"cnc"};
    }
    return js::Array{"?"};
}

static js::Value locJ(const Instruction &I) {
    const DILocation *L = I.getDebugLoc();
    if (!L) return nullptr;
    // innermost location + innermost enclosing repo location
    const DILocation *R = L;
    while (R && !isRepoFile(fileOf(R->getFile()))) R = R->getInlinedAt();
    if (!R) R = L;
    js::Array chain;
    for (const DILocation *P = L; P; P = P->getInlinedAt()) {
        auto *sp = P->getScope()->getSubprogram();
        if (sp) chain.push_back(sp->getLinkageName().empty() ? sp->getName() : sp->getLinkageName());
    }
    return js::Array{fileOf(R->getFile()), (int)R->getLine(), (int)R->getColumn(), std::move(chain)};
}

static std::string diTypeName(const DIType *t, int depth = 0);
static std::string scopeName(const DIScope *s) {
    if (!s || isa<DIFile>(s) || isa<DICompileUnit>(s)) return "";
    std::string p = scopeName(s->getScope());
    std::string n = s->getName().str();
    if (n.empty()) n = "(anon)";
    return p.empty() ? n : p + "::" + n;
}
static std::string diTypeName(const DIType *t, int depth) {
    if (!t) return "void";
    if (depth > 12) return "...";
    if (auto *d = dyn_cast<DIDerivedType>(t)) {
        switch (d->getTag()) {
        case dwarf::DW_TAG_pointer_type: return diTypeName(d->getBaseType(), depth + 1) + "*";
        case dwarf::DW_TAG_reference_type: return diTypeName(d->getBaseType(), depth + 1) + "&";
        case dwarf::DW_TAG_rvalue_reference_type: return diTypeName(d->getBaseType(), depth + 1) + "&&";
        case dwarf::DW_TAG_const_type: return "const " + diTypeName(d->getBaseType(), depth + 1);
        case dwarf::DW_TAG_volatile_type: return "volatile " + diTypeName(d->getBaseType(), depth + 1);
        case dwarf::DW_TAG_typedef: return diTypeName(d->getBaseType(), depth + 1);
        default: return diTypeName(d->getBaseType(), depth + 1);
        }
    }
    if (isa<DISubroutineType>(t)) return "fn";
    if (auto *c = dyn_cast<DICompositeType>(t))
        if (c->getTag() == dwarf::DW_TAG_array_type) {
            std::string n = diTypeName(c->getBaseType(), depth + 1);
            for (auto *e : c->getElements())
                if (auto *sr = dyn_cast<DISubrange>(e))
                    if (auto *ci = dyn_cast_if_present<ConstantInt *>(sr->getCount())) n += "[" + std::to_string(ci->getSExtValue()) + "]";
            return n;
        }
    return scopeName(t);
}

static js::Value dumpFn(Function &F, FunctionAnalysisManager &FAM) {
    FnDump D;
    js::Object o;
    o["name"] = F.getName();
    o["dem"] = dem(F);
    auto *sp = F.getSubprogram();
    if (sp) {
        o["file"] = fileOf(sp->getFile());
        o["line"] = (int)sp->getLine();
        o["scope"] = scopeName(sp->getScope());
        o["sname"] = sp->getName();
        js::Array ats;
        if (auto *st = sp->getType()) for (auto *t : st->getTypeArray()) ats.push_back(diTypeName(t));
        o["ditypes"] = std::move(ats);
    }
    o["ret"] = tyStr(F.getReturnType());
    js::Array args;
    for (auto &A : F.args()) {
        D.id(&A);
        args.push_back(js::Object{{"id", D.id(&A)}, {"n", A.getName()}, {"t", tyStr(A.getType())}, {"sret", A.hasStructRetAttr()}});
    }
    o["args"] = std::move(args);
    int b = 0;
    for (auto &BB : F) D.bbs[&BB] = b++;
    // ids in order
    for (auto &BB : F)
        for (auto &I : BB) D.id(&I);
    auto &LI = FAM.getResult<LoopAnalysis>(F);
    auto &SE = FAM.getResult<ScalarEvolutionAnalysis>(F);
    auto &DT = FAM.getResult<DominatorTreeAnalysis>(F);
    auto &PDT = FAM.getResult<PostDominatorTreeAnalysis>(F);
    js::Array blocks;
    js::Object scevs;
    // variable names from dbg.value (last writer wins; informational only)
    js::Object vnames;
    for (auto &BB : F) {
        js::Array ins;
        for (auto &I : BB) {
            if (auto *dv = dyn_cast<DbgVariableIntrinsic>(&I)) {
                if (auto *val = dv->getVariableLocationOp(0))
                    if (!isa<Constant>(val) && !isa<MetadataAsValue>(val)) vnames[std::to_string(D.id(val))] = dv->getVariable()->getName();
                continue;
            }
            if (I.isDebugOrPseudoInst()) continue;
            js::Object io;
            io["i"] = D.id(&I);
            io["o"] = I.getOpcodeName();
            if (!I.getType()->isVoidTy()) io["t"] = tyStr(I.getType());
            io["l"] = locJ(I);
            js::Array ops;
            if (auto *phi = dyn_cast<PHINode>(&I)) {
                for (unsigned k = 0; k < phi->getNumIncomingValues(); ++k) ops.push_back(js::Array{opnd(D, phi->getIncomingValue(k)), D.bbs[phi->getIncomingBlock(k)]});
            } else if (auto *cb = dyn_cast<CallBase>(&I)) {
                for (auto &a : cb->args()) ops.push_back(opnd(D, a.get()));
                if (auto *cf = cb->getCalledFunction()) {
                    io["f"] = cf->getName();
                    io["d"] = dem(*cf);
                    if (cf->isIntrinsic()) io["intr"] = true;
                } else
                    io["fp"] = opnd(D, cb->getCalledOperand());
                if (cb->doesNotReturn()) io["noret"] = true;
                if (cb->hasStructRetAttr()) io["sret"] = true;
                if (auto *ft = cb->getFunctionType()) io["nargs"] = (int)ft->getNumParams();
            } else {
                for (auto &op : I.operands()) ops.push_back(opnd(D, op.get()));
            }
            io["a"] = std::move(ops);
            if (auto *cmp = dyn_cast<CmpInst>(&I)) io["p"] = CmpInst::getPredicateName(cmp->getPredicate());
            if (auto *al = dyn_cast<AllocaInst>(&I)) {
                io["at"] = tyStr(al->getAllocatedType());
                if (auto sz = al->getAllocationSize(F.getParent()->getDataLayout())) io["asz"] = (int64_t)sz->getFixedValue();
            }
            if (auto *gep = dyn_cast<GetElementPtrInst>(&I)) {
                // decompose: const offset + sum(scale*var)
                unsigned bw = 64;
                MapVector<Value *, APInt> vars;
                APInt cst(bw, 0);
                if (gep->collectOffset(F.getParent()->getDataLayout(), bw, vars, cst)) {
                    js::Array va;
                    for (auto &kv : vars) va.push_back(js::Array{opnd(D, kv.first), kv.second.getSExtValue()});
                    io["gep"] = js::Array{cst.getSExtValue(), std::move(va)};
                }
                io["gt"] = tyStr(gep->getSourceElementType());
            }
            if (auto *ld = dyn_cast<LoadInst>(&I)) { if (ld->isVolatile()) io["vol"] = true; if (ld->isAtomic()) io["atomic"] = true; }
            if (auto *st = dyn_cast<StoreInst>(&I)) {
                io["st"] = tyStr(st->getValueOperand()->getType());
                io["ssz"] = (int64_t)F.getParent()->getDataLayout().getTypeStoreSize(st->getValueOperand()->getType());
                if (st->isAtomic()) io["atomic"] = true;
            }
            if (auto *ldd = dyn_cast<LoadInst>(&I)) io["ssz"] = (int64_t)F.getParent()->getDataLayout().getTypeStoreSize(ldd->getType());
            if (auto *sw = dyn_cast<SwitchInst>(&I)) {
                js::Array cs;
                for (auto &c : sw->cases()) cs.push_back(js::Array{c.getCaseValue()->getSExtValue(), D.bbs[c.getCaseSuccessor()]});
                io["cases"] = std::move(cs);
                io["def"] = D.bbs[sw->getDefaultDest()];
            }
            if (auto *ev = dyn_cast<ExtractValueInst>(&I)) { js::Array ix; for (auto k : ev->indices()) ix.push_back((int)k); io["ix"] = std::move(ix); }
            if (auto *ev = dyn_cast<InsertValueInst>(&I)) { js::Array ix; for (auto k : ev->indices()) ix.push_back((int)k); io["ix"] = std::move(ix); }
            if (isa<OverflowingBinaryOperator>(&I)) {
                if (cast<OverflowingBinaryOperator>(&I)->hasNoSignedWrap()) io["nsw"] = true;
                if (cast<OverflowingBinaryOperator>(&I)->hasNoUnsignedWrap()) io["nuw"] = true;
            }
            if (I.isTerminator()) {
                js::Array su;
                for (unsigned k = 0; k < I.getNumSuccessors(); ++k) su.push_back(D.bbs[I.getSuccessor(k)]);
                io["su"] = std::move(su);
            }
            if (SE.isSCEVable(I.getType()) && (LI.getLoopFor(&BB) || C.opts.count("allscev"))) scevs[std::to_string(D.id(&I))] = scevJ(D, SE, SE.getSCEV(&I));
            ins.push_back(std::move(io));
        }
        js::Object bo;
        bo["b"] = D.bbs[&BB];
        bo["ins"] = std::move(ins);
        auto *dn = DT.getNode(&BB);
        if (dn && dn->getIDom()) bo["idom"] = D.bbs[dn->getIDom()->getBlock()];
        auto *pn = PDT.getNode(&BB);
        if (pn && pn->getIDom() && pn->getIDom()->getBlock()) bo["ipdom"] = D.bbs[pn->getIDom()->getBlock()];
        bo["reach"] = (dn != nullptr);
        blocks.push_back(std::move(bo));
    }
    o["blocks"] = std::move(blocks);
    o["names"] = std::move(vnames);
    o["scev"] = std::move(scevs);
    js::Array loops;
    for (Loop *L : LI.getLoopsInPreorder()) {
        js::Object lo;
        lo["header"] = D.bbs[L->getHeader()];
        js::Array bl;
        for (auto *x : L->blocks()) bl.push_back(D.bbs[x]);
        lo["blocks"] = std::move(bl);
        if (L->getLoopLatch()) lo["latch"] = D.bbs[L->getLoopLatch()];
        if (L->getLoopPreheader()) lo["pre"] = D.bbs[L->getLoopPreheader()];
        if (L->getParentLoop()) lo["parent"] = D.bbs[L->getParentLoop()->getHeader()];
        lo["btc"] = scevJ(D, SE, SE.getBackedgeTakenCount(L));
        lo["smax"] = scevJ(D, SE, SE.getSymbolicMaxBackedgeTakenCount(L));
        SmallVector<BasicBlock *, 4> ex;
        L->getExitingBlocks(ex);
        js::Array exa;
        for (auto *e : ex) exa.push_back(js::Array{D.bbs[e], scevJ(D, SE, SE.getExitCount(L, e))});
        lo["exits"] = std::move(exa);
        loops.push_back(std::move(lo));
    }
    o["loops"] = std::move(loops);
    return js::Value(std::move(o));
}

// part of the function around it, whatever that function is kept for
static bool isLambda(const std::string &d) {
    return (d.rfind("_ZZ", 0) == 0 && d.find("$_") != std::string::npos) || d.find("::$_") != std::string::npos || d.find("::'lambda") != std::string::npos || d.find("::{lambda") != std::string::npos;
}

int main(int argc, char **argv) {
    // mirdump config in1.bc in2.bc ... out.json
    if (argc < 4) { errs() << "usage: mirdump config in.bc... out.json\n"; return 2; }
    {
        std::ifstream f(argv[1]);
        std::string line;
        while (std::getline(f, line)) {
            if (line.empty() || line[0] == '#') continue;
            auto p = line.find(' ');
            std::string k = line.substr(0, p), v = p == std::string::npos ? "" : line.substr(p + 1);
            if (k == "opt") { auto q = v.find(' '); C.opts[v.substr(0, q)] = q == std::string::npos ? "1" : v.substr(q + 1); }
            else if (k == "pipeline") C.pipelines.push_back(v);
            else {
                auto *R = new Regex(v);
                std::string e;
                if (!R->isValid(e)) { errs() << "bad regex " << v << ": " << e << "\n"; return 2; }
                C.rules.push_back({k, R});
            }
        }
    }
    LLVMContext Ctx;
    SMDiagnostic Err;
    auto M = parseIRFile(argv[2], Err, Ctx);
    if (!M) { Err.print("mirdump", errs()); return 2; }
    for (int i = 3; i < argc - 1; ++i) {
        auto M2 = parseIRFile(argv[i], Err, Ctx);
        if (!M2) { Err.print("mirdump", errs()); return 2; }
        if (Linker::linkModules(*M, std::move(M2))) { errs() << "link failed\n"; return 2; }
    }
    DataLayout DLv = M->getDataLayout();
    gDL = &DLv;
    DebugInfoFinder DIF;
    DIF.processModule(*M);      // before any body is dropped
    // 1. classify
    std::set<Function *> recursive;
    {
        CallGraph CG(*M);
        for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it)
            if (it.hasCycle())
                for (auto *n : *it)
                    if (n->getFunction()) recursive.insert(n->getFunction());
    }
    js::Array opaqueList, recList;
    js::Object callers;                       // direct calls before anything is inlined
    {
        std::map<std::string, std::set<std::string>> cs;
        for (auto &F : *M)
            for (auto &I : instructions(F))
                if (auto *cb = dyn_cast<CallBase>(&I))
                    if (auto *g = cb->getCalledFunction())
                        if (!g->isIntrinsic() && isRepoFn(*g)) cs[g->getName().str()].insert(F.getName().str());
        for (auto &[g, l] : cs) {
            js::Array a;
            for (auto &x : l) a.push_back(x);
            callers[g] = std::move(a);
        }
    }
    for (auto &F : *M) {
        if (F.isIntrinsic()) continue;
        F.removeFnAttr(Attribute::OptimizeNone);
        F.removeFnAttr(Attribute::NoInline);
        F.removeFnAttr(Attribute::AlwaysInline);
        F.removeFnAttr(Attribute::MustProgress);
        if (F.isDeclaration()) continue;
        const std::string &d = dem(F);
        bool repo = isRepoFn(F);
        bool op = matches("opaque", d) && !matches("transparent", d);
        if (op) {
            F.deleteBody();
            F.setComdat(nullptr);
            F.setLinkage(GlobalValue::ExternalLinkage);
            opaqueList.push_back(d);
            continue;
        }
        if (matches("keep", d) && !matches("inline", d) && !isLambda(d)) { F.addFnAttr(Attribute::NoInline); continue; }
        if (recursive.count(&F)) { F.addFnAttr(Attribute::NoInline); if (repo) recList.push_back(d); continue; }
        (void)repo;
        F.addFnAttr(Attribute::AlwaysInline);
        // entries that nothing calls would be discarded once inlined
        if (C.opts.count("keepentries") && F.isDiscardableIfUnused() && (matches("entry", d) || matches("entry", F.getName()))) F.setLinkage(GlobalValue::WeakODRLinkage);
    }
    for (auto &F : *M)
        if (F.isDeclaration() && !F.isIntrinsic()) {
            if (matches("pure", dem(F))) { F.setMemoryEffects(MemoryEffects::inaccessibleMemOnly()); F.setDoesNotThrow(); F.setWillReturn(); }
            if (matches("argmem", dem(F))) { F.setMemoryEffects(MemoryEffects::inaccessibleOrArgMemOnly()); F.setDoesNotThrow(); F.setWillReturn(); }
        }
    if (C.opts.count("strip_globals")) {}
    PassBuilder PB;
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    bool pureV = C.opts.count("purevcalls");
    for (auto &pl : C.pipelines) {
        if (pl == "@purevcalls") {
            for (auto &F : *M)
                for (auto &I : instructions(F))
                    if (auto *cb = dyn_cast<CallBase>(&I))
                        if (!cb->getCalledFunction() && !cb->isInlineAsm()) {
                            cb->setMemoryEffects(MemoryEffects::inaccessibleMemOnly());
                            cb->setDoesNotThrow();
                            cb->addFnAttr(Attribute::WillReturn);
                        }
            MAM.invalidate(*M, PreservedAnalyses::none());
            continue;
        }
        if (pl == "@drop") {
            // after inlining: delete bodies of functions that are not entries (speed)
            for (auto &F : *M) {
                if (F.isDeclaration()) continue;
                if (matches("entry", dem(F)) || matches("entry", F.getName()) || matches("keep", dem(F))) continue;
                F.deleteBody(); F.setComdat(nullptr); F.setLinkage(GlobalValue::ExternalLinkage);
            }
            MAM.invalidate(*M, PreservedAnalyses::none());
            continue;
        }
        ModulePassManager MPM;
        if (auto e = PB.parsePassPipeline(MPM, pl)) { errs() << "pipeline: " << toString(std::move(e)) << "\n"; return 2; }
        MPM.run(*M, MAM);
    }
    (void)pureV;
    js::Object out;
    js::Array fns;
    std::set<std::string> listed;
    for (auto &F : *M) {
        if (F.isDeclaration()) continue;
        if (matches("entry", dem(F)) || matches("entry", F.getName())) fns.push_back(dumpFn(F, FAM));
    }
    out["callers"] = std::move(callers);
    out["functions"] = std::move(fns);
    // inventory of repo functions
    js::Array inv;
    for (auto &F : *M)
        if (auto *sp = F.getSubprogram())
            if (isRepoFile(fileOf(sp->getFile()))) inv.push_back(js::Object{{"name", F.getName()}, {"dem", dem(F)}, {"file", fileOf(sp->getFile())}, {"line", (int)sp->getLine()}, {"decl", F.isDeclaration()}});
    out["inventory"] = std::move(inv);
    // vtables
    js::Object vts;
    FnDump dummy;
    for (auto &G : M->globals()) {
        if (!G.getName().starts_with("_ZTV") || !G.hasInitializer()) continue;
        js::Array parts;
        if (auto *cs = dyn_cast<ConstantStruct>(G.getInitializer()))
            for (auto &arr : cs->operands()) {
                js::Array a;
                for (auto &e : cast<Constant>(arr)->operands()) {
                    const Value *v = e->stripPointerCasts();
                    if (auto *ga = dyn_cast<GlobalAlias>(v)) v = ga->getAliaseeObject();
                    if (auto *gv = dyn_cast<GlobalValue>(v)) a.push_back(gv->getName());
                    else if (auto *ce = dyn_cast<ConstantExpr>(v)) { (void)ce; a.push_back("#"); }
                    else a.push_back(nullptr);
                }
                parts.push_back(std::move(a));
            }
        js::Array tys;
        SmallVector<MDNode *, 4> tm;
        G.getMetadata(LLVMContext::MD_type, tm);
        for (auto *t : tm) {
            std::string nm;
            if (auto *s = dyn_cast<MDString>(t->getOperand(1))) nm = s->getString().str();
            int64_t off = 0;
            if (auto *cm = dyn_cast<ConstantAsMetadata>(t->getOperand(0))) off = cast<ConstantInt>(cm->getValue())->getSExtValue();
            tys.push_back(js::Array{off, nm});
        }
        vts[G.getName()] = js::Object{{"parts", std::move(parts)}, {"types", std::move(tys)}, {"cls", llvm::demangle(G.getName().str())}};
    }
    out["vtables"] = std::move(vts);
    // globals with constant initialisers (strings, tables)
    js::Object gl;
    for (auto &G : M->globals()) {
        if (!G.hasInitializer() || G.getName().starts_with("_ZT") || G.getName().starts_with("llvm.")) continue;
        js::Object go;
        go["const"] = G.isConstant();
        if (auto *cda = dyn_cast<ConstantDataArray>(G.getInitializer()); cda && cda->isString()) go["str"] = std::string(cda->getAsString().str().c_str());
        go["t"] = tyStr(G.getValueType());
        go["init"] = opnd(dummy, G.getInitializer());
        SmallVector<DIGlobalVariableExpression *, 2> gve;
        G.getDebugInfo(gve);
        if (!gve.empty()) { go["dn"] = scopeName(gve[0]->getVariable()->getScope()) + "::" + gve[0]->getVariable()->getName().str(); go["file"] = fileOf(gve[0]->getVariable()->getFile()); go["line"] = (int)gve[0]->getVariable()->getLine(); go["mutable"] = !G.isConstant();
            const DIType *ty = gve[0]->getVariable()->getType();
            go["ty"] = ty ? diTypeName(ty) : "";
            for (bool more = true; more && ty;) {       // const in itself, behind a typedef or as the element of an array
                more = false;
                if (auto *d = dyn_cast<DIDerivedType>(ty)) {
                    if (d->getTag() == dwarf::DW_TAG_const_type) { go["constty"] = true; break; }
                    if (d->getTag() == dwarf::DW_TAG_typedef || d->getTag() == dwarf::DW_TAG_volatile_type) { ty = d->getBaseType(); more = true; }
                } else if (auto *c = dyn_cast<DICompositeType>(ty); c && c->getTag() == dwarf::DW_TAG_array_type) { ty = c->getBaseType(); more = true; }
            } }
        go["tls"] = G.isThreadLocal();
        bool ro = true;         // nothing but reads of it
        SmallVector<const Value *, 8> todo{&G};
        while (!todo.empty() && ro) {
            const Value *v = todo.pop_back_val();
            for (auto *u : v->users()) {
                if (auto *l = dyn_cast<LoadInst>(u)) { ro &= !l->isVolatile(); continue; }
                if (isa<GEPOperator>(u) || isa<BitCastOperator>(u)) { todo.push_back(u); continue; }
                if (auto *mt = dyn_cast<MemTransferInst>(u); mt && mt->getRawSource() == v && mt->getRawDest() != v) continue;
                if (isa<IntrinsicInst>(u) && cast<IntrinsicInst>(u)->isAssumeLikeIntrinsic()) continue;
                ro = false;
            }
        }
        go["ro"] = ro;
        gl[G.getName()] = std::move(go);
    }
    out["globals"] = std::move(gl);
    // struct layouts
    js::Object st;
    for (auto *t : DIF.types()) {
        auto *c = dyn_cast<DICompositeType>(t);
        if (!c || c->isForwardDecl()) continue;
        if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
            if (!isRepoFile(fileOf(c->getFile()))) continue;
            js::Object eo;
            for (auto *e : c->getElements()) if (auto *en = dyn_cast<DIEnumerator>(e)) eo[en->getName()] = en->getValue().getSExtValue();
            st["enum " + diTypeName(c)] = std::move(eo);
            continue;
        }
        if (c->getTag() != dwarf::DW_TAG_class_type && c->getTag() != dwarf::DW_TAG_structure_type) continue;
        std::string n = diTypeName(c);
        js::Array mem, bases, vbases, meth;
        for (auto *e : c->getElements()) {
            if (auto *d = dyn_cast<DIDerivedType>(e)) {
                if (d->getTag() == dwarf::DW_TAG_member && !d->isStaticMember())
                    mem.push_back(js::Array{d->getName(), (int64_t)(d->getOffsetInBits() / 8), (int64_t)(d->getSizeInBits() / 8), diTypeName(d->getBaseType())});
                else if (d->getTag() == dwarf::DW_TAG_inheritance && (d->getFlags() & DINode::FlagVirtual)) {
                    vbases.push_back(diTypeName(d->getBaseType()));
                    bases.push_back(js::Array{diTypeName(d->getBaseType()), (int64_t)(d->getOffsetInBits() / 8)});
                } else if (d->getTag() == dwarf::DW_TAG_inheritance)
                    bases.push_back(js::Array{diTypeName(d->getBaseType()), (int64_t)(d->getOffsetInBits() / 8)});
            } else if (auto *s = dyn_cast<DISubprogram>(e)) {
                if (isRepoFile(fileOf(c->getFile()))) meth.push_back(js::Array{s->getName(), s->getLinkageName(), (int)s->getVirtuality()});
            }
        }
        st[n] = js::Object{{"size", (int64_t)(c->getSizeInBits() / 8)}, {"file", fileOf(c->getFile())}, {"line", (int)c->getLine()}, {"members", std::move(mem)}, {"bases", std::move(bases)}, {"vbases", std::move(vbases)}, {"methods", std::move(meth)}};
    }
    out["structs"] = std::move(st);
    out["opaque"] = std::move(opaqueList);
    out["recursive"] = std::move(recList);
    std::error_code EC;
    raw_fd_ostream os(argv[argc - 1], EC);
    os << js::Value(std::move(out));
    if (C.opts.count("ll")) { raw_fd_ostream lo(C.opts["ll"], EC); M->print(lo, nullptr); }
    return 0;
}
