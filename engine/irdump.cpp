// Dumps an LLVM module (mechanically produced from /repo's sources by clang) as JSON
// for the deductive verifier in vc.py.  No semantic transformation happens here.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/MapVector.h>
#include <map>
#include <set>
using namespace llvm;
static const DataLayout* DL;
static json::Value ty(Type* t) {
    if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
    if (t->isPointerTy()) return "ptr";
    if (t->isVoidTy()) return "void";
    if (t->isDoubleTy()) return "double";
    if (t->isFloatTy()) return "float";
    if (auto* s = dyn_cast<StructType>(t)) {
        json::Array a; a.push_back("s"); a.push_back((int64_t)DL->getTypeAllocSize(t));
        json::Array m; auto* sl = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); ++i) {
            json::Array e; e.push_back((int64_t)(uint64_t)sl->getElementOffset(i)); e.push_back(ty(s->getElementType(i)));
            m.push_back(std::move(e));
        }
        a.push_back(std::move(m)); return a;
    }
    if (auto* s = dyn_cast<ArrayType>(t)) {
        json::Array a; a.push_back("a"); a.push_back((int64_t)DL->getTypeAllocSize(t));
        a.push_back((int64_t)s->getNumElements()); a.push_back(ty(s->getElementType())); 
        a.push_back((int64_t)DL->getTypeAllocSize(s->getElementType())); return a;
    }
    return "other";
}
struct FnCtx { std::map<const Value*, int64_t> ids; };
static json::Value opnd(const Value* v, FnCtx& c);
static json::Value cst(const Constant* v, FnCtx& c) {
    json::Array a;
    if (auto* i = dyn_cast<ConstantInt>(v)) {
        SmallString<40> s; i->getValue().toStringUnsigned(s);
        a.push_back("c"); a.push_back((int64_t)i->getBitWidth()); a.push_back(s.str().str()); return a;
    }
    if (isa<ConstantPointerNull>(v)) { a.push_back("n"); return a; }
    if (isa<UndefValue>(v)) { a.push_back("u"); a.push_back(ty(v->getType())); return a; }
    if (auto* f = dyn_cast<Function>(v)) { a.push_back("f"); a.push_back(f->getName().str()); return a; }
    if (auto* g = dyn_cast<GlobalAlias>(v)) { return cst(g->getAliasee(), c); }
    if (auto* g = dyn_cast<GlobalVariable>(v)) { a.push_back("g"); a.push_back(g->getName().str()); a.push_back((int64_t)0); return a; }
    if (auto* f = dyn_cast<ConstantFP>(v)) {
        SmallString<40> s; f->getValueAPF().bitcastToAPInt().toStringUnsigned(s);
        a.push_back("fp"); a.push_back(ty(v->getType())); a.push_back(s.str().str()); return a;
    }
    if (isa<ConstantAggregateZero>(v)) { a.push_back("z"); a.push_back(ty(v->getType())); return a; }
    if (auto* g = dyn_cast<ConstantAggregate>(v)) {
        a.push_back("agg"); a.push_back(ty(v->getType())); json::Array m;
        for (auto& o : g->operands()) m.push_back(cst(cast<Constant>(o), c));
        a.push_back(std::move(m)); return a;
    }
    if (auto* d = dyn_cast<ConstantDataSequential>(v)) {
        a.push_back("agg"); a.push_back(ty(v->getType())); json::Array m;
        for (unsigned i = 0; i < d->getNumElements(); ++i) m.push_back(cst(d->getElementAsConstant(i), c));
        a.push_back(std::move(m)); return a;
    }
    if (auto* ce = dyn_cast<ConstantExpr>(v)) {
        if (auto* g = dyn_cast<GEPOperator>(ce)) {
            APInt off(64, 0);
            if (g->accumulateConstantOffset(*DL, off)) {
                a.push_back("gep"); a.push_back(opnd(g->getPointerOperand(), c)); a.push_back(off.getSExtValue()); return a;
            }
        }
        a.push_back("ce"); a.push_back(ce->getOpcodeName()); a.push_back(ty(ce->getType()));
        json::Array m; for (auto& o : ce->operands()) m.push_back(opnd(o.get(), c));
        a.push_back(std::move(m)); return a;
    }
    a.push_back("x"); return a;
}
static json::Value opnd(const Value* v, FnCtx& c) {
    if (auto* k = dyn_cast<Constant>(v)) return cst(k, c);
    auto it = c.ids.find(v);
    if (it != c.ids.end()) { json::Array a; a.push_back("v"); a.push_back(it->second); return a; }
    if (isa<BasicBlock>(v)) { json::Array a; a.push_back("bb"); return a; }
    json::Array a; a.push_back("m"); return a; // metadata, inline asm
}
static std::string ditname(const DIType* t) {
    if (!t) return "void";
    if (auto* d = dyn_cast<DIDerivedType>(t)) {
        switch (d->getTag()) {
            case dwarf::DW_TAG_pointer_type: return ditname(d->getBaseType()) + "*";
            case dwarf::DW_TAG_reference_type: return ditname(d->getBaseType()) + "&";
            case dwarf::DW_TAG_rvalue_reference_type: return ditname(d->getBaseType()) + "&&";
            case dwarf::DW_TAG_const_type: return "const " + ditname(d->getBaseType());
            case dwarf::DW_TAG_volatile_type: case dwarf::DW_TAG_typedef: return ditname(d->getBaseType());
            default: return d->getName().str();
        }
    }
    std::string n = t->getName().str();
    for (const DIScope* s = t->getScope(); s; s = s->getScope()) {
        if (isa<DINamespace>(s) || isa<DICompositeType>(s)) {
            std::string nn = s->getName().str();
            if (!nn.empty()) n = nn + "::" + n;
        } else break;
    }
    if (auto* c = dyn_cast<DICompositeType>(t)) if (c->getTag() == dwarf::DW_TAG_array_type) return ditname(c->getBaseType()) + "[]";
    return n;
}
int main(int argc, char** argv) {
    LLVMContext ctx; SMDiagnostic err;
    auto mod = parseIRFile(argv[1], err, ctx);
    if (!mod) { err.print(argv[0], errs()); return 2; }
    DL = &mod->getDataLayout();
    json::Object out;
    // debug types
    DebugInfoFinder fnd; fnd.processModule(*mod);
    json::Object types;
    for (auto* t : fnd.types()) {
        auto* c = dyn_cast<DICompositeType>(t);
        if (!c || c->isForwardDecl()) continue;
        if (c->getTag() != dwarf::DW_TAG_structure_type && c->getTag() != dwarf::DW_TAG_class_type && c->getTag() != dwarf::DW_TAG_union_type) {
            if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
                json::Object o; o["size"] = (int64_t)(c->getSizeInBits() / 8); json::Object e;
                for (auto* el : c->getElements()) if (auto* en = dyn_cast<DIEnumerator>(el)) e[en->getName()] = en->getValue().getSExtValue();
                o["enum"] = std::move(e); types[ditname(c)] = std::move(o);
            }
            continue;
        }
        json::Object o; o["size"] = (int64_t)(c->getSizeInBits() / 8);
        json::Array ms;
        for (auto* el : c->getElements()) {
            auto* d = dyn_cast<DIDerivedType>(el);
            if (!d || d->isStaticMember()) continue;
            json::Array m;
            std::string nm = d->getName().str();
            if (d->getTag() == dwarf::DW_TAG_inheritance) nm = "<base>";
            else if (d->getTag() != dwarf::DW_TAG_member) continue;
            m.push_back(nm); m.push_back((int64_t)(d->getOffsetInBits() / 8)); 
            const DIType* bt = d->getBaseType();
            int64_t sz = d->getSizeInBits() / 8; if (!sz && bt) sz = bt->getSizeInBits() / 8;
            m.push_back(sz); m.push_back(ditname(bt)); 
            ms.push_back(std::move(m));
        }
        o["members"] = std::move(ms);
        types[ditname(c)] = std::move(o);
    }
    out["types"] = std::move(types);
    json::Object globs; FnCtx gc;
    for (auto& g : mod->globals()) {
        json::Object o; 
        if (g.getName().startswith("llvm.")) continue;
        o["size"] = (int64_t)DL->getTypeAllocSize(g.getValueType()); o["const"] = g.isConstant();
        if (g.hasInitializer()) { o["ty"] = ty(g.getValueType()); o["init"] = cst(g.getInitializer(), gc); }
        globs[g.getName()] = std::move(o);
    }
    out["globals"] = std::move(globs);
    json::Object fns;
    for (auto& f : *mod) {
        json::Object fo; fo["dem"] = demangle(f.getName().str());
        fo["ret"] = ty(f.getReturnType());
        FnCtx c; int64_t id = 0; json::Array args;
        for (auto& a : f.args()) { 
            json::Array x; x.push_back(id); x.push_back(ty(a.getType())); 
            if (a.hasStructRetAttr()) { x.push_back("sret"); x.push_back((int64_t)DL->getTypeAllocSize(a.getParamStructRetType())); }
            if (a.hasByValAttr()) { x.push_back("byval"); x.push_back((int64_t)DL->getTypeAllocSize(a.getParamByValType())); }
            args.push_back(std::move(x)); c.ids[&a] = id++; }
        fo["args"] = std::move(args);
        if (auto* sp = f.getSubprogram()) { fo["line"] = (int64_t)sp->getLine(); fo["file"] = sp->getFilename().str(); }
        if (!f.isDeclaration()) {
            std::map<const BasicBlock*, int64_t> bid; int64_t b = 0;
            for (auto& bb : f) { bid[&bb] = b++; for (auto& i : bb) c.ids[&i] = id++; }
            json::Array blocks;
            for (auto& bb : f) {
                json::Array insts;
                for (auto& i : bb) {
                    if (isa<DbgInfoIntrinsic>(i)) continue;
                    json::Object o; o["op"] = i.getOpcodeName(); o["id"] = c.ids[&i]; o["ty"] = ty(i.getType());
                    if (auto& dl = i.getDebugLoc()) { o["ln"] = (int64_t)dl.getLine(); }
                    if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
                        MapVector<Value*, APInt> vo; APInt co(64, 0);
                        o["base"] = opnd(g->getPointerOperand(), c);
                        if (g->collectOffset(*DL, 64, vo, co)) {
                            o["off"] = co.getSExtValue(); json::Array va;
                            for (auto& kv : vo) { json::Array e; e.push_back(opnd(kv.first, c)); e.push_back(ty(kv.first->getType())); e.push_back(kv.second.getSExtValue()); va.push_back(std::move(e)); }
                            o["var"] = std::move(va);
                        } else o["bad"] = true;
                        insts.push_back(std::move(o)); continue;
                    }
                    if (auto* p = dyn_cast<PHINode>(&i)) {
                        json::Array in;
                        for (unsigned k = 0; k < p->getNumIncomingValues(); ++k) {
                            json::Array e; e.push_back(bid[p->getIncomingBlock(k)]); e.push_back(opnd(p->getIncomingValue(k), c)); in.push_back(std::move(e));
                        }
                        o["in"] = std::move(in); insts.push_back(std::move(o)); continue;
                    }
                    json::Array ops; json::Array oty;
                    if (auto* cb = dyn_cast<CallBase>(&i)) {
                        o["callee"] = opnd(cb->getCalledOperand(), c);
                        if (cb->isInlineAsm()) o["asm"] = true;
                        for (auto& a : cb->args()) { ops.push_back(opnd(a.get(), c)); oty.push_back(ty(a->getType()->isMetadataTy() ? Type::getVoidTy(ctx) : a->getType())); }
                        if (auto* iv = dyn_cast<InvokeInst>(cb)) { o["to"] = bid[iv->getNormalDest()]; o["unw"] = bid[iv->getUnwindDest()]; }
                        if (auto* fn = cb->getCalledFunction()) o["intr"] = fn->isIntrinsic();
                        if (cb->doesNotReturn()) o["noreturn"] = true;
                    } else if (auto* br = dyn_cast<BranchInst>(&i)) {
                        if (br->isConditional()) { ops.push_back(opnd(br->getCondition(), c)); }
                        json::Array t; for (unsigned k = 0; k < br->getNumSuccessors(); ++k) t.push_back(bid[br->getSuccessor(k)]);
                        o["succ"] = std::move(t);
                    } else if (auto* sw = dyn_cast<SwitchInst>(&i)) {
                        ops.push_back(opnd(sw->getCondition(), c)); oty.push_back(ty(sw->getCondition()->getType())); o["def"] = bid[sw->getDefaultDest()];
                        json::Array cs; for (auto& k : sw->cases()) { json::Array e; SmallString<40> s; k.getCaseValue()->getValue().toStringUnsigned(s); e.push_back(s.str().str()); e.push_back(bid[k.getCaseSuccessor()]); cs.push_back(std::move(e)); }
                        o["cases"] = std::move(cs);
                    } else {
                        for (auto& a : i.operands()) { ops.push_back(opnd(a.get(), c)); oty.push_back(ty(a->getType())); }
                        if (auto* al = dyn_cast<AllocaInst>(&i)) { o["aty"] = ty(al->getAllocatedType()); o["asz"] = (int64_t)DL->getTypeAllocSize(al->getAllocatedType()); }
                        if (auto* ic = dyn_cast<CmpInst>(&i)) o["pred"] = CmpInst::getPredicateName(ic->getPredicate()).str();
                        if (auto* ev = dyn_cast<ExtractValueInst>(&i)) { json::Array x; for (auto k : ev->indices()) x.push_back((int64_t)k); o["idx"] = std::move(x); }
                        if (auto* ev = dyn_cast<InsertValueInst>(&i)) { json::Array x; for (auto k : ev->indices()) x.push_back((int64_t)k); o["idx"] = std::move(x); }
                        if (auto* pe = dyn_cast<PossiblyExactOperator>(&i)) if (pe->isExact()) o["exact"] = true;
                        if (auto* rm = dyn_cast<AtomicRMWInst>(&i)) o["rmw"] = AtomicRMWInst::getOperationName(rm->getOperation()).str();
                        if (auto* ob = dyn_cast<OverflowingBinaryOperator>(&i)) { if (ob->hasNoSignedWrap()) o["nsw"] = true; }
                    }
                    o["ops"] = std::move(ops); o["oty"] = std::move(oty);
                    insts.push_back(std::move(o));
                }
                blocks.push_back(std::move(insts));
            }
            fo["blocks"] = std::move(blocks);
            DominatorTree dt(f); LoopInfo li(dt); json::Array loops;
            for (auto* l : li.getLoopsInPreorder()) {
                json::Object lo; lo["h"] = bid[l->getHeader()]; json::Array bs; for (auto* bb : l->blocks()) bs.push_back(bid[bb]);
                lo["b"] = std::move(bs); lo["depth"] = (int64_t)l->getLoopDepth();
                if (auto sl = l->getStartLoc()) lo["ln"] = (int64_t)sl.getLine();
                loops.push_back(std::move(lo));
            }
            fo["loops"] = std::move(loops);
        }
        fns[f.getName()] = std::move(fo);
    }
    out["functions"] = std::move(fns);
    outs() << json::Value(std::move(out)) << "\n";
    return 0;
}
