// Dumps LLVM bitcode as compact JSON for the python analysis engine.
// usage: irdump in.bc out.json
#include <llvm/ADT/SmallString.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <map>
#include <string>
#include <vector>
#include <cstdio>
using namespace llvm;

static std::string out;
static const DataLayout* DL;
static std::map<Type*, int> typeIds;
static std::vector<std::string> types;
static std::map<std::string, int> locIds;
static std::vector<std::string> locs;

static std::string q(StringRef s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r + "\"";
}
static std::string N(long long v) { return std::to_string(v); }

static int typeId(Type* t) {
    auto it = typeIds.find(t);
    if (it != typeIds.end()) return it->second;
    std::string s;
    if (auto i = dyn_cast<IntegerType>(t)) s = "[\"i\"," + N(i->getBitWidth()) + "," + N(DL->getTypeAllocSize(t)) + "]";
    else if (t->isPointerTy()) s = "[\"p\",64,8]";
    else if (t->isFloatingPointTy()) s = "[\"f\"," + N(DL->getTypeSizeInBits(t)) + "," + N(DL->getTypeAllocSize(t)) + "]";
    else if (auto st = dyn_cast<StructType>(t)) {
        if (st->isOpaque()) s = "[\"o\",0,0]";
        else {
            auto l = DL->getStructLayout(st);
            std::string f;
            for (unsigned i = 0; i < st->getNumElements(); ++i) {
                if (i) f += ",";
                f += "[" + N((long long)l->getElementOffset(i).getFixedValue()) + "," + N(typeId(st->getElementType(i))) + "]";
            }
            s = "[\"s\",[" + f + "]," + N(DL->getTypeAllocSize(t)) + "]";
        }
    }
    else if (auto at = dyn_cast<ArrayType>(t)) {
        std::string f;
        auto es = DL->getTypeAllocSize(at->getElementType());
        if (at->getNumElements() <= 64)
        for (unsigned i = 0; i < at->getNumElements(); ++i) {
            if (i) f += ",";
            f += "[" + N(i * es) + "," + N(typeId(at->getElementType())) + "]";
        }
        s = "[\"s\",[" + f + "]," + N(DL->getTypeAllocSize(t)) + "]";
    }
    else if (auto vt = dyn_cast<FixedVectorType>(t)) s = "[\"v\",0," + N(DL->getTypeAllocSize(vt)) + "]";
    else s = "[\"o\",0,0]";
    int id = int(types.size());
    types.push_back(s);
    typeIds[t] = id;
    return id;
}

static int locId(const DebugLoc& d) {
    if (!d) return -1;
    std::string s;
    auto l = d.get();
    std::string dir = l->getDirectory().str(), fn = l->getFilename().str();
    if (!fn.empty() && fn[0] != '/') fn = dir + "/" + fn;
    s = "[" + q(fn) + "," + N(l->getLine()) + "," + N(l->getColumn()) + "]";
    auto it = locIds.find(s);
    if (it != locIds.end()) return it->second;
    int id = int(locs.size());
    locs.push_back(s);
    locIds[s] = id;
    return id;
}

static std::map<const Value*, int> regs;
static std::string operand(const Value* v);

static std::string constant(const Constant* c) {
    if (auto i = dyn_cast<ConstantInt>(c)) {
        if (i->getBitWidth() <= 64) return "[\"i\"," + std::to_string(i->getZExtValue()) + "]";
        SmallString<64> s; i->getValue().toStringUnsigned(s); return "[\"i\"," + s.str().str() + "]";
    }
    if (isa<ConstantPointerNull>(c)) return "[\"i\",0]";
    if (isa<UndefValue>(c)) return "[\"u\"," + N(typeId(c->getType())) + "]";
    if (auto a = dyn_cast<GlobalAlias>(c)) return constant(a->getAliasee());
    if (auto g = dyn_cast<GlobalValue>(c)) return "[\"g\"," + q(g->getName()) + ",0]";
    if (isa<ConstantFP>(c)) { std::string s; raw_string_ostream o(s); c->print(o); return "[\"x\"," + q(o.str()) + "]"; }
    if (isa<ConstantAggregateZero>(c)) return "[\"z\"," + N(typeId(c->getType())) + "]";
    if (auto ag = dyn_cast<ConstantAggregate>(c)) {
        std::string s = "[\"a\",[";
        for (unsigned i = 0; i < ag->getNumOperands(); ++i) { if (i) s += ","; s += constant(cast<Constant>(ag->getOperand(i))); }
        return s + "]]";
    }
    if (auto ds = dyn_cast<ConstantDataSequential>(c)) {
        std::string s = "[\"a\",[";
        for (unsigned i = 0; i < ds->getNumElements(); ++i) { if (i) s += ","; s += constant(ds->getElementAsConstant(i)); }
        return s + "]]";
    }
    if (auto ce = dyn_cast<ConstantExpr>(c)) {
        if (ce->getOpcode() == Instruction::GetElementPtr || ce->isCast()) {
            APInt off(64, 0);
            if (ce->getType()->isPointerTy()) {
                const Value* b = ce->stripAndAccumulateConstantOffsets(*DL, off, true);
                if (b != ce) {
                    if (auto a = dyn_cast<GlobalAlias>(b)) b = a->getAliasee();
                    if (auto g = dyn_cast<GlobalValue>(b)) return "[\"g\"," + q(g->getName()) + "," + N(off.getSExtValue()) + "]";
                    if (isa<ConstantPointerNull>(b)) return "[\"i\"," + N(off.getSExtValue()) + "]";
                }
            }
            if (ce->isCast()) return constant(cast<Constant>(ce->getOperand(0)));
        }
    }
    std::string s; raw_string_ostream o(s); c->print(o);
    return "[\"x\"," + q(o.str()) + "]";
}

static std::string operand(const Value* v) {
    if (auto c = dyn_cast<Constant>(v)) return constant(c);
    auto it = regs.find(v);
    if (it != regs.end()) return "[\"r\"," + N(it->second) + "]";
    if (isa<InlineAsm>(v)) return "[\"asm\"]";
    if (isa<MetadataAsValue>(v)) return "[\"m\"]";
    return "[\"x\",\"?\"]";
}

// flatten initializers of globals: list of [off,size,operand]
static void flatten(const Constant* c, uint64_t off, std::string& o, bool& first) {
    Type* t = c->getType();
    auto put = [&](const std::string& v, uint64_t size) {
        if (!first) o += ",";
        first = false;
        o += "[" + N(off) + "," + N(size) + "," + v + "]";
    };
    if (isa<ConstantAggregateZero>(c)) { put("[\"i\",0]", DL->getTypeAllocSize(t)); return; }
    if (auto st = dyn_cast<ConstantStruct>(c)) {
        auto l = DL->getStructLayout(st->getType());
        for (unsigned i = 0; i < st->getNumOperands(); ++i) flatten(st->getOperand(i), off + l->getElementOffset(i), o, first);
        return;
    }
    if (auto ca = dyn_cast<ConstantArray>(c)) {
        auto es = DL->getTypeAllocSize(ca->getType()->getElementType());
        for (unsigned i = 0; i < ca->getNumOperands(); ++i) flatten(ca->getOperand(i), off + i * es, o, first);
        return;
    }
    if (auto cd = dyn_cast<ConstantDataSequential>(c)) {
        auto es = cd->getElementByteSize();
        for (unsigned i = 0; i < cd->getNumElements(); ++i) flatten(cd->getElementAsConstant(i), off + i * es, o, first);
        return;
    }
    put(constant(c), DL->getTypeAllocSize(t));
}

static const char* ord(AtomicOrdering o) {
    switch (o) {
        case AtomicOrdering::NotAtomic: return "na";
        case AtomicOrdering::Unordered: return "unordered";
        case AtomicOrdering::Monotonic: return "relaxed";
        case AtomicOrdering::Acquire: return "acquire";
        case AtomicOrdering::Release: return "release";
        case AtomicOrdering::AcquireRelease: return "acq_rel";
        case AtomicOrdering::SequentiallyConsistent: return "seq_cst";
    }
    return "?";
}

static std::map<const BasicBlock*, int> bbs;

static std::string inst(const Instruction& I) {
    int dst = -1;
    if (!I.getType()->isVoidTy()) dst = regs[&I];
    std::string head = "," + N(dst) + "," + N(locId(I.getDebugLoc()));
    auto O = [&](unsigned i) { return operand(I.getOperand(i)); };
    auto T = [&](Type* t) { return N(typeId(t)); };
    std::string s;
    if (auto a = dyn_cast<AllocaInst>(&I)) {
        s = "[\"alloca\"" + head + "," + N(DL->getTypeAllocSize(a->getAllocatedType())) + "," + operand(a->getArraySize()) + "," + N(a->getAlign().value()) + "," + q(a->getName()) + "]";
    } else if (auto l = dyn_cast<LoadInst>(&I)) {
        s = "[\"load\"" + head + "," + T(l->getType()) + "," + O(0) + "," + q(ord(l->getOrdering())) + "]";
    } else if (auto st = dyn_cast<StoreInst>(&I)) {
        s = "[\"store\"" + head + "," + T(st->getValueOperand()->getType()) + "," + O(0) + "," + O(1) + "," + q(ord(st->getOrdering())) + "]";
    } else if (auto g = dyn_cast<GetElementPtrInst>(&I)) {
        long long off = 0;
        std::string var;
        for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
            const Value* idx = it.getOperand();
            if (auto stt = it.getStructTypeOrNull()) {
                off += DL->getStructLayout(stt)->getElementOffset(unsigned(cast<ConstantInt>(idx)->getZExtValue()));
            } else {
                long long sc = (long long)DL->getTypeAllocSize(it.getIndexedType()).getFixedValue();
                if (auto ci = dyn_cast<ConstantInt>(idx)) off += ci->getSExtValue() * sc;
                else { if (!var.empty()) var += ","; var += "[" + operand(idx) + "," + N(sc) + "]"; }
            }
        }
        s = "[\"gep\"" + head + "," + O(0) + "," + N(off) + ",[" + var + "]]";
    } else if (auto c = dyn_cast<CastInst>(&I)) {
        s = "[\"cast\"" + head + "," + q(c->getOpcodeName()) + "," + T(c->getSrcTy()) + "," + T(c->getDestTy()) + "," + O(0) + "]";
    } else if (isa<FreezeInst>(&I)) {
        s = "[\"cast\"" + head + ",\"freeze\"," + T(I.getType()) + "," + T(I.getType()) + "," + O(0) + "]";
    } else if (I.isBinaryOp()) {
        s = "[\"bin\"" + head + "," + q(I.getOpcodeName()) + "," + T(I.getType()) + "," + O(0) + "," + O(1) + "]";
    } else if (auto ic = dyn_cast<ICmpInst>(&I)) {
        s = "[\"icmp\"" + head + "," + q(CmpInst::getPredicateName(ic->getPredicate())) + "," + T(I.getOperand(0)->getType()) + "," + O(0) + "," + O(1) + "]";
    } else if (auto b = dyn_cast<BranchInst>(&I)) {
        if (b->isConditional()) s = "[\"cbr\"" + head + "," + operand(b->getCondition()) + "," + N(bbs[b->getSuccessor(0)]) + "," + N(bbs[b->getSuccessor(1)]) + "]";
        else s = "[\"br\"" + head + "," + N(bbs[b->getSuccessor(0)]) + "]";
    } else if (auto sw = dyn_cast<SwitchInst>(&I)) {
        std::string cs;
        for (auto& k : sw->cases()) { if (!cs.empty()) cs += ","; cs += "[" + constant(k.getCaseValue()) + "," + N(bbs[k.getCaseSuccessor()]) + "]"; }
        s = "[\"switch\"" + head + "," + operand(sw->getCondition()) + "," + N(bbs[sw->getDefaultDest()]) + ",[" + cs + "]]";
    } else if (auto r = dyn_cast<ReturnInst>(&I)) {
        s = "[\"ret\"" + head + (r->getReturnValue() ? "," + operand(r->getReturnValue()) : std::string(",null")) + "]";
    } else if (auto cb = dyn_cast<CallBase>(&I)) {
        std::string args;
        for (unsigned i = 0; i < cb->arg_size(); ++i) {
            if (i) args += ",";
            args += operand(cb->getArgOperand(i));
        }
        std::string bv;
        for (unsigned i = 0; i < cb->arg_size(); ++i) if (cb->isByValArgument(i)) {
            if (!bv.empty()) bv += ",";
            bv += "[" + N(i) + "," + N(DL->getTypeAllocSize(cb->getParamByValType(i))) + "]";
        }
        std::string dest = "null";
        if (auto iv = dyn_cast<InvokeInst>(&I)) dest = "[" + N(bbs[iv->getNormalDest()]) + "," + N(bbs[iv->getUnwindDest()]) + "]";
        s = "[\"call\"" + head + "," + T(I.getType()) + "," + operand(cb->getCalledOperand()) + ",[" + args + "]," + (cb->doesNotThrow() ? "1" : "0") + "," + (cb->doesNotReturn() ? "1" : "0") + "," + dest + ",[" + bv + "]]";
    } else if (auto lp = dyn_cast<LandingPadInst>(&I)) {
        std::string cl;
        for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
            if (i) cl += ",";
            cl += std::string("[\"") + (lp->isCatch(i) ? "catch" : "filter") + "\"," + constant(lp->getClause(i)) + "]";
        }
        s = "[\"lpad\"" + head + "," + (lp->isCleanup() ? "1" : "0") + ",[" + cl + "]]";
    } else if (isa<ResumeInst>(&I)) {
        s = "[\"resume\"" + head + "," + O(0) + "]";
    } else if (isa<UnreachableInst>(&I)) {
        s = "[\"unreachable\"" + head + "]";
    } else if (auto p = dyn_cast<PHINode>(&I)) {
        std::string in;
        for (unsigned i = 0; i < p->getNumIncomingValues(); ++i) {
            if (i) in += ",";
            in += "[" + N(bbs[p->getIncomingBlock(i)]) + "," + operand(p->getIncomingValue(i)) + "]";
        }
        s = "[\"phi\"" + head + ",[" + in + "]]";
    } else if (isa<SelectInst>(&I)) {
        s = "[\"select\"" + head + "," + O(0) + "," + O(1) + "," + O(2) + "]";
    } else if (auto ev = dyn_cast<ExtractValueInst>(&I)) {
        std::string ix; for (auto i : ev->indices()) { if (!ix.empty()) ix += ","; ix += N(i); }
        s = "[\"extract\"" + head + "," + O(0) + ",[" + ix + "]]";
    } else if (auto iv = dyn_cast<InsertValueInst>(&I)) {
        std::string ix; for (auto i : iv->indices()) { if (!ix.empty()) ix += ","; ix += N(i); }
        s = "[\"insert\"" + head + "," + T(iv->getType()) + "," + O(0) + "," + O(1) + ",[" + ix + "]]";
    } else if (auto rmw = dyn_cast<AtomicRMWInst>(&I)) {
        s = "[\"rmw\"" + head + "," + q(AtomicRMWInst::getOperationName(rmw->getOperation())) + "," + T(rmw->getType()) + "," + O(0) + "," + O(1) + "," + q(ord(rmw->getOrdering())) + "]";
    } else if (auto cx = dyn_cast<AtomicCmpXchgInst>(&I)) {
        s = "[\"cmpxchg\"" + head + "," + T(cx->getCompareOperand()->getType()) + "," + O(0) + "," + O(1) + "," + O(2) + "," + q(ord(cx->getSuccessOrdering())) + "," + q(ord(cx->getFailureOrdering())) + "," + (cx->isWeak() ? "1" : "0") + "]";
    } else if (auto f = dyn_cast<FenceInst>(&I)) {
        s = "[\"fence\"" + head + "," + q(ord(f->getOrdering())) + "," + N(f->getSyncScopeID()) + "]";
    } else {
        s = "[\"other\"" + head + "," + q(I.getOpcodeName()) + "]";
    }
    return s;
}

int main(int argc, char** argv) {
    if (argc < 3) return 2;
    LLVMContext ctx;
    SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, ctx);
    if (!M) { err.print("irdump", errs()); return 2; }
    DL = &M->getDataLayout();
    std::string g;
    for (auto& G : M->globals()) {
        if (!g.empty()) g += ",\n";
        std::string init = "null";
        if (G.hasInitializer()) {
            std::string o; bool first = true;
            flatten(G.getInitializer(), 0, o, first);
            init = "[" + o + "]";
        }
        g += q(G.getName()) + ":{\"dm\":" + q(demangle(G.getName().str())) + ",\"const\":" + (G.isConstant() ? "1" : "0") +
            ",\"size\":" + N(G.getValueType()->isSized() ? (long long)DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 0) +
            ",\"tls\":" + (G.isThreadLocal() ? "1" : "0") + ",\"init\":" + init + "}";
    }
    std::string fs;
    for (auto& F : *M) {
        regs.clear(); bbs.clear();
        if (!fs.empty()) fs += ",\n";
        int n = 0;
        std::string params;
        for (auto& A : F.args()) {
            regs[&A] = n++;
            if (!params.empty()) params += ",";
            long long bv = A.hasByValAttr() ? (long long)DL->getTypeAllocSize(A.getParamByValType()).getFixedValue() : 0;
            params += "[" + q(A.getName()) + "," + N(typeId(A.getType())) + "," + N(bv) + "," + (A.hasStructRetAttr() ? "1" : "0") + "]";
        }
        int b = 0;
        for (auto& BB : F) { bbs[&BB] = b++; for (auto& I : BB) if (!I.getType()->isVoidTy()) regs[&I] = n++; }
        std::string blocks;
        for (auto& BB : F) {
            if (!blocks.empty()) blocks += ",\n ";
            std::string is;
            for (auto& I : BB) {
                if (isa<DbgInfoIntrinsic>(&I)) continue;
                if (!is.empty()) is += ",\n  ";
                is += inst(I);
            }
            blocks += "[" + is + "]";
        }
        std::string file; int line = 0;
        if (auto sp = F.getSubprogram()) {
            file = sp->getFilename().str(); if (!file.empty() && file[0] != '/') file = sp->getDirectory().str() + "/" + file;
            line = int(sp->getLine());
        }
        fs += q(F.getName()) + ":{\"dm\":" + q(demangle(F.getName().str())) + ",\"file\":" + q(file) + ",\"line\":" + N(line) +
            ",\"ret\":" + N(typeId(F.getReturnType())) + ",\"nounwind\":" + (F.doesNotThrow() ? "1" : "0") + ",\"noreturn\":" + (F.doesNotReturn() ? "1" : "0") +
            ",\"va\":" + (F.isVarArg() ? "1" : "0") +
            ",\"params\":[" + params + "],\"blocks\":[" + blocks + "]}";
    }
    out = "{\"globals\":{" + g + "},\n\"funcs\":{" + fs + "},\n\"types\":[";
    for (size_t i = 0; i < types.size(); ++i) { if (i) out += ","; out += types[i]; }
    out += "],\n\"locs\":[";
    for (size_t i = 0; i < locs.size(); ++i) { if (i) out += ","; out += locs[i]; }
    out += "]}\n";
    FILE* f = fopen(argv[2], "wb");
    if (!f) return 2;
    fwrite(out.data(), 1, out.size(), f);
    fclose(f);
    return 0;
}
