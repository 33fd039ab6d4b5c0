// Dumps an LLVM module as JSON for the verification-condition generator (vc/*.py).
// Every instruction of every defined function is written out; nothing is interpreted here.
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/ADT/SmallString.h>
#include <map>
using namespace llvm;
typedef json::Value V;
static const DataLayout *DL;
static std::map<const Value *, int> ids;

static V ty(Type *t) {
    if (t->isVoidTy()) return "void";
    if (t->isPointerTy()) return "ptr";
    if (t->isIntegerTy()) return int64_t(t->getIntegerBitWidth());
    if (auto *s = dyn_cast<StructType>(t)) {
        json::Array a;
        for (unsigned i = 0; i < s->getNumElements(); i++)
            a.push_back(json::Array{int64_t(DL->getStructLayout(s)->getElementOffset(i)), ty(s->getElementType(i))});
        return json::Object{{"struct", std::move(a)}, {"size", int64_t(DL->getTypeAllocSize(t))}};
    }
    if (auto *s = dyn_cast<ArrayType>(t))
        return json::Object{{"array", int64_t(s->getNumElements())}, {"elem", ty(s->getElementType())}, {"size", int64_t(DL->getTypeAllocSize(t))}};
    std::string r; raw_string_ostream o(r); t->print(o);
    return "?" + o.str();
}
static int64_t size_of(Type *t) { return t->isSized() ? int64_t(DL->getTypeAllocSize(t)) : 0; }

static V operand(const Value *v) {
    if (auto *c = dyn_cast<ConstantInt>(v)) {
        SmallString<64> s; c->getValue().toString(s, 10, false);
        return json::Array{"i", int64_t(c->getBitWidth()), std::string(s.str())};
    }
    if (isa<ConstantPointerNull>(v)) return json::Array{"null"};
    if (isa<UndefValue>(v)) return json::Array{"undef", ty(v->getType())};
    if (auto *g = dyn_cast<GlobalAlias>(v)) return operand(g->getAliasee());
    if (auto *f = dyn_cast<Function>(v)) return json::Array{"f", f->getName().str()};
    if (auto *g = dyn_cast<GlobalValue>(v)) return json::Array{"g", g->getName().str(), 0};
    if (isa<ConstantAggregateZero>(v)) return json::Array{"zero", ty(v->getType())};
    if (auto *c = dyn_cast<ConstantExpr>(v)) {
        if (auto *gep = dyn_cast<GEPOperator>(c)) {
            APInt off(64, 0);
            if (gep->accumulateConstantOffset(*DL, off)) {
                V base = operand(gep->getPointerOperand());
                auto *a = base.getAsArray();
                if (a && (*a)[0] == V("g")) return json::Array{"g", (*a)[1], *(*a)[2].getAsInteger() + off.getSExtValue()};
                return json::Array{"gepc", std::move(base), off.getSExtValue()};
            }
        }
        if (c->isCast()) return json::Array{"cast", c->getOpcodeName(), operand(c->getOperand(0)), ty(c->getType())};
        json::Array a{"expr", c->getOpcodeName()};
        for (auto &o : c->operands()) a.push_back(operand(o));
        return a;
    }
    if (auto *c = dyn_cast<ConstantAggregate>(v)) {
        json::Array a{"agg"};
        for (auto &o : c->operands()) a.push_back(operand(o));
        return a;
    }
    if (auto *c = dyn_cast<ConstantDataSequential>(v)) {
        json::Array a{"agg"};
        for (unsigned i = 0; i < c->getNumElements(); i++) a.push_back(operand(c->getElementAsConstant(i)));
        return a;
    }
    auto it = ids.find(v);
    if (it != ids.end()) return json::Array{"l", it->second};
    if (isa<MetadataAsValue>(v)) return json::Array{"md"};
    return json::Array{"?"};
}
static void flatten(const Constant *c, int64_t off, json::Array &out) {
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) { out.push_back(json::Array{off, size_of(c->getType()), json::Array{"zero"}}); return; }
    if (auto *s = dyn_cast<ConstantStruct>(c)) {
        auto *l = DL->getStructLayout(s->getType());
        for (unsigned i = 0; i < s->getNumOperands(); i++) flatten(s->getOperand(i), off + l->getElementOffset(i), out);
        return;
    }
    if (auto *s = dyn_cast<ConstantArray>(c)) {
        int64_t e = size_of(s->getType()->getElementType());
        for (unsigned i = 0; i < s->getNumOperands(); i++) flatten(s->getOperand(i), off + i * e, out);
        return;
    }
    if (auto *s = dyn_cast<ConstantDataSequential>(c)) {
        if (s->isString()) {
            std::string hex; static const char *d = "0123456789abcdef";
            for (unsigned char ch : s->getAsString()) { hex += d[ch >> 4]; hex += d[ch & 15]; }
            out.push_back(json::Array{off, size_of(c->getType()), json::Array{"bytes", hex}});
            return;
        }
        int64_t e = size_of(s->getElementType());
        for (unsigned i = 0; i < s->getNumElements(); i++) flatten(s->getElementAsConstant(i), off + i * e, out);
        return;
    }
    out.push_back(json::Array{off, size_of(c->getType()), operand(c)});
}
int main(int argc, char **argv) {
    LLVMContext ctx; SMDiagnostic err;
    auto m = parseIRFile(argv[1], err, ctx);
    if (!m) { err.print(argv[0], errs()); return 1; }
    DL = &m->getDataLayout();
    json::Object funcs, globals;
    for (auto &g : m->globals()) {
        json::Object o{{"size", size_of(g.getValueType())}, {"const", g.isConstant()}, {"demangled", demangle(g.getName().str())}};
        if (g.hasInitializer()) { json::Array a; flatten(g.getInitializer(), 0, a); o["init"] = std::move(a); }
        globals[g.getName()] = std::move(o);
    }
    for (auto &f : *m) {
        json::Object fo{{"demangled", demangle(f.getName().str())}, {"decl", f.isDeclaration()}, {"ret", ty(f.getReturnType())}, {"noreturn", f.doesNotReturn()}};
        ids.clear(); int n = 0;
        json::Array args;
        for (auto &a : f.args()) {
            ids[&a] = n++;
            args.push_back(json::Object{{"ty", ty(a.getType())}, {"name", a.getName().str()}, {"sret", a.hasStructRetAttr()}, {"byval", a.hasByValAttr()}, {"bytes", int64_t(a.hasByValAttr() ? size_of(a.getParamByValType()) : a.hasStructRetAttr() ? size_of(a.getParamStructRetType()) : 0)}});
        }
        fo["args"] = std::move(args);
        std::map<const BasicBlock *, int> bid; int bn = 0;
        for (auto &b : f) { bid[&b] = bn++; for (auto &i : b) ids[&i] = n++; }
        json::Array blocks;
        for (auto &b : f) {
            json::Array insts;
            for (auto &i : b) {
                if (isa<DbgInfoIntrinsic>(&i)) continue;
                json::Object o{{"op", i.getOpcodeName()}, {"id", ids[&i]}, {"ty", ty(i.getType())}};
                if (auto *q = dyn_cast<OverflowingBinaryOperator>(&i)) { if (q->hasNoSignedWrap()) o["nsw"] = true; if (q->hasNoUnsignedWrap()) o["nuw"] = true; }
                if (auto *q = dyn_cast<AllocaInst>(&i)) { o["size"] = size_of(q->getAllocatedType()); o["aty"] = ty(q->getAllocatedType()); if (q->isArrayAllocation()) o["count"] = operand(q->getArraySize()); }
                else if (auto *q = dyn_cast<GetElementPtrInst>(&i)) {
                    o["base"] = operand(q->getPointerOperand());
                    MapVector<Value *, APInt> var; APInt c(64, 0);
                    if (q->collectOffset(*DL, 64, var, c)) {
                        o["off"] = c.getSExtValue(); json::Array va;
                        for (auto &kv : var) va.push_back(json::Array{operand(kv.first), kv.second.getSExtValue()});
                        o["var"] = std::move(va);
                    } else o["bad"] = true;
                } else if (auto *q = dyn_cast<PHINode>(&i)) {
                    json::Array a;
                    for (unsigned k = 0; k < q->getNumIncomingValues(); k++) a.push_back(json::Array{bid[q->getIncomingBlock(k)], operand(q->getIncomingValue(k))});
                    o["in"] = std::move(a);
                } else if (auto *q = dyn_cast<BranchInst>(&i)) {
                    if (q->isConditional()) { o["cond"] = operand(q->getCondition()); o["t"] = bid[q->getSuccessor(0)]; o["f"] = bid[q->getSuccessor(1)]; }
                    else o["t"] = bid[q->getSuccessor(0)];
                } else if (auto *q = dyn_cast<SwitchInst>(&i)) {
                    o["cond"] = operand(q->getCondition()); o["def"] = bid[q->getDefaultDest()]; json::Array a;
                    for (auto &c : q->cases()) a.push_back(json::Array{operand(c.getCaseValue()), bid[c.getCaseSuccessor()]});
                    o["cases"] = std::move(a);
                } else if (auto *q = dyn_cast<CallBase>(&i)) {
                    o["op"] = "call"; o["callee"] = operand(q->getCalledOperand()); json::Array a, bv;
                    for (unsigned k = 0; k < q->arg_size(); k++) { a.push_back(operand(q->getArgOperand(k))); bv.push_back(int64_t(q->isByValArgument(k) ? size_of(q->getParamByValType(k)) : 0)); }
                    o["args"] = std::move(a); o["byval"] = std::move(bv);
                    if (auto *iv = dyn_cast<InvokeInst>(&i)) o["t"] = bid[iv->getNormalDest()];
                } else if (auto *q = dyn_cast<ICmpInst>(&i)) {
                    o["pred"] = CmpInst::getPredicateName(q->getPredicate()).str(); o["a"] = operand(q->getOperand(0)); o["b"] = operand(q->getOperand(1));
                    o["oty"] = ty(q->getOperand(0)->getType());
                } else if (auto *q = dyn_cast<ExtractValueInst>(&i)) {
                    o["a"] = operand(q->getAggregateOperand()); json::Array a; for (unsigned k : q->indices()) a.push_back(int64_t(k)); o["idx"] = std::move(a);
                } else if (auto *q = dyn_cast<InsertValueInst>(&i)) {
                    o["a"] = operand(q->getAggregateOperand()); o["b"] = operand(q->getInsertedValueOperand()); json::Array a; for (unsigned k : q->indices()) a.push_back(int64_t(k)); o["idx"] = std::move(a);
                } else {
                    json::Array a; for (auto &x : i.operands()) a.push_back(operand(x));
                    o["ops"] = std::move(a);
                    if (isa<StoreInst>(&i)) { o["vty"] = ty(i.getOperand(0)->getType()); o["size"] = int64_t(DL->getTypeStoreSize(i.getOperand(0)->getType())); }
                    if (isa<LoadInst>(&i)) o["size"] = int64_t(DL->getTypeStoreSize(i.getType()));
                    if (isa<CastInst>(&i)) o["from"] = ty(i.getOperand(0)->getType());
                }
                if (auto &dl = i.getDebugLoc()) o["line"] = int64_t(dl.getLine());
                insts.push_back(std::move(o));
            }
            blocks.push_back(std::move(insts));
        }
        fo["blocks"] = std::move(blocks);
        funcs[f.getName()] = std::move(fo);
    }
    outs() << V(json::Object{{"functions", std::move(funcs)}, {"globals", std::move(globals)}}) << "\n";
}
