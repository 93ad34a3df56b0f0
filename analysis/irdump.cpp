// irdump: LLVM IR (one .ll/.bc file) -> JSON description used by the abstract interpreter (engine.py).
// Purely a front end: it does not interpret anything.
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/JSON.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <map>
#include <set>
using namespace llvm;
static const DataLayout* DL;
static std::map<const Value*, int> ids;
static std::string str(const APInt& v, bool sgn = true){ SmallString<40> s; v.toString(s, 10, sgn); return s.str().str(); }
static json::Value num(const APInt& v){ if (v.getBitWidth() <= 64 || v.getSignificantBits() <= 64) return json::Value((int64_t)v.getSExtValue()); return json::Value(json::Object{{"big", str(v)}}); }
static json::Value op(const Value* v);
static json::Value constOp(const Constant* c)
{
	if (auto ci = dyn_cast<ConstantInt>(c)) return json::Array{"i", num(ci->getValue())};
	if (isa<ConstantPointerNull>(c)) return json::Array{"n"};
	if (isa<UndefValue>(c)) return json::Array{"u"};
	if (auto f = dyn_cast<Function>(c)) return json::Array{"f", f->getName().str()};
	if (auto g = dyn_cast<GlobalVariable>(c)) return json::Array{"g", g->getName().str(), 0};
	if (auto a = dyn_cast<GlobalAlias>(c)) return constOp(a->getAliasee());
	if (auto fp = dyn_cast<ConstantFP>(c)) { SmallString<40> s; fp->getValueAPF().toString(s); return json::Array{"d", s.str().str()}; }
	if (isa<ConstantAggregateZero>(c) || isa<ConstantAggregate>(c) || isa<ConstantDataSequential>(c))
	{
		json::Array arr; unsigned n = 0;
		if (auto st = dyn_cast<StructType>(c->getType())) n = st->getNumElements();
		else if (auto at = dyn_cast<ArrayType>(c->getType())) n = at->getNumElements();
		else if (auto vt = dyn_cast<FixedVectorType>(c->getType())) n = vt->getNumElements();
		if (n <= 64) for (unsigned i = 0; i < n; i++) arr.push_back(constOp(c->getAggregateElement(i)));
		return json::Array{"a", std::move(arr)};
	}
	if (auto ce = dyn_cast<ConstantExpr>(c))
	{
		if (ce->getOpcode() == Instruction::GetElementPtr)
		{
			APInt off(64, 0);
			if (cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off))
			{
				const Value* b = cast<GEPOperator>(ce)->getPointerOperand();
				auto base = op(b);
				auto* ar = base.getAsArray();
				if (ar && (*ar)[0].getAsString() == StringRef("g")) { (*ar)[2] = (*ar)[2].getAsInteger().value() + off.getSExtValue(); return base; }
				if (ar && (*ar)[0].getAsString() == StringRef("n")) return json::Array{"np", off.getSExtValue()};
			}
		}
		if (ce->getOpcode() == Instruction::BitCast || ce->getOpcode() == Instruction::AddrSpaceCast) return op(ce->getOperand(0));
		json::Array arr; for (auto& o : ce->operands()) arr.push_back(op(o.get()));
		return json::Array{"ce", ce->getOpcodeName(), std::move(arr)};
	}
	return json::Array{"?", "const"};
}
static json::Value op(const Value* v)
{
	if (auto c = dyn_cast<Constant>(v)) return constOp(c);
	auto it = ids.find(v);
	if (it != ids.end()) return json::Array{"v", it->second};
	if (auto bb = dyn_cast<BasicBlock>(v)) return json::Array{"b", ids[bb]};
	if (isa<MetadataAsValue>(v)) return json::Array{"m"};
	return json::Array{"?", "val"};
}
static json::Value ty(Type* t)
{
	if (t->isIntegerTy()) return json::Array{"i", (int64_t)t->getIntegerBitWidth()};
	if (t->isPointerTy()) return json::Array{"p", 64};
	if (t->isFloatingPointTy()) return json::Array{"d", (int64_t)t->getPrimitiveSizeInBits()};
	if (t->isVoidTy()) return json::Array{"void", 0};
	if (auto st = dyn_cast<StructType>(t))
	{
		json::Array arr; auto* sl = DL->getStructLayout(st);
		for (unsigned i = 0; i < st->getNumElements(); i++) arr.push_back(json::Array{(int64_t)sl->getElementOffset(i), ty(st->getElementType(i))});
		return json::Array{"s", (int64_t)DL->getTypeAllocSize(t), std::move(arr)};
	}
	if (auto at = dyn_cast<ArrayType>(t))
	{
		json::Array arr; int64_t es = DL->getTypeAllocSize(at->getElementType());
		if (at->getNumElements() <= 64) for (unsigned i = 0; i < at->getNumElements(); i++) arr.push_back(json::Array{es * i, ty(at->getElementType())});
		return json::Array{"s", (int64_t)DL->getTypeAllocSize(t), std::move(arr)};
	}
	if (t->isSized()) return json::Array{"x", (int64_t)DL->getTypeAllocSizeInBits(t)};
	return json::Array{"?", 0};
}
static void flatten(const Constant* c, int64_t off, json::Array& out)
{
	Type* t = c->getType();
	if (isa<ConstantAggregateZero>(c)) { out.push_back(json::Array{off, (int64_t)DL->getTypeAllocSize(t), json::Array{"zero"}}); return; }
	if (isa<UndefValue>(c)) return;
	if (auto st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flatten(c->getAggregateElement(i), off + sl->getElementOffset(i), out); return; }
	if (auto at = dyn_cast<ArrayType>(t)) { int64_t es = DL->getTypeAllocSize(at->getElementType()); if (at->getNumElements() <= 4096) for (unsigned i = 0; i < at->getNumElements(); i++) flatten(c->getAggregateElement(i), off + es * i, out); else out.push_back(json::Array{off, (int64_t)DL->getTypeAllocSize(t), json::Array{"?", "big"}}); return; }
	out.push_back(json::Array{off, (int64_t)DL->getTypeStoreSize(t), constOp(c)});
}
static json::Value locOf(const Instruction& I)
{
	if (auto& dl = I.getDebugLoc()) { auto* sc = cast<DIScope>(dl.getScope()); return json::Array{sc->getFilename().str(), (int64_t)dl.getLine()}; }
	return nullptr;
}
#include <llvm/BinaryFormat/Dwarf.h>
int main(int argc, char** argv)
{
	LLVMContext ctx; SMDiagnostic err;
	auto M = parseIRFile(argv[1], err, ctx);
	if (!M) { err.print("irdump", errs()); return 2; }
	DL = &M->getDataLayout();
	json::Object root;
	json::Object globals;
	for (auto& g : M->globals())
	{
		json::Object o; o["size"] = (int64_t)DL->getTypeAllocSize(g.getValueType()); o["const"] = g.isConstant(); o["decl"] = g.isDeclaration(); o["tls"] = g.isThreadLocal();
		o["dem"] = demangle(g.getName().str());
		o["linkage"] = (int64_t)g.getLinkage();
		if (g.hasInitializer()) { json::Array a; flatten(g.getInitializer(), 0, a); o["init"] = std::move(a); }
		SmallVector<DIGlobalVariableExpression*, 1> dies; g.getDebugInfo(dies);
		if (!dies.empty()) { auto* v = dies[0]->getVariable(); o["file"] = v->getFilename().str(); o["line"] = (int64_t)v->getLine(); o["name"] = v->getName().str(); if (auto t = v->getType()) { o["type"] = t->getName().str(); if (auto* dt = dyn_cast<DIDerivedType>(t)) o["cq"] = dt->getTag() == dwarf::DW_TAG_const_type; } }
		globals[g.getName().str()] = std::move(o);
	}
	root["globals"] = std::move(globals);
	json::Object funcs;
	for (auto& F : *M)
	{
		json::Object fo; fo["dem"] = demangle(F.getName().str()); fo["ret"] = ty(F.getReturnType()); fo["nounwind"] = F.doesNotThrow(); fo["noreturn"] = F.doesNotReturn();
		fo["vararg"] = F.isVarArg();
		if (auto sp = F.getSubprogram()) { fo["file"] = sp->getFilename().str(); fo["line"] = (int64_t)sp->getLine(); fo["name"] = sp->getName().str(); }
		ids.clear(); int next = 0;
		json::Array args;
		for (auto& A : F.args()) { ids[&A] = next++; json::Object ao; ao["name"] = A.getName().str(); ao["ty"] = ty(A.getType()); if (A.hasByValAttr()) ao["byval"] = (int64_t)DL->getTypeAllocSize(A.getParamByValType()); if (A.hasStructRetAttr()) ao["sret"] = true; args.push_back(std::move(ao)); }
		fo["args"] = std::move(args);
		if (F.isDeclaration()) { fo["decl"] = true; funcs[F.getName().str()] = std::move(fo); continue; }
		std::map<const BasicBlock*, int> bid; int nb = 0;
		for (auto& B : F) { bid[&B] = nb++; for (auto& I : B) ids[&I] = next++; }
		json::Array blocks;
		for (auto& B : F)
		{
			json::Array insts;
			for (auto& I : B)
			{
				if (isa<DbgInfoIntrinsic>(I)) continue;
				json::Object o; o["id"] = ids[&I]; o["op"] = I.getOpcodeName(); auto l = locOf(I); if (l.getAsArray()) o["loc"] = l;
				o["ty"] = ty(I.getType());
				auto A = [&](unsigned i){ return op(I.getOperand(i)); };
				if (auto x = dyn_cast<AllocaInst>(&I)) { o["size"] = (int64_t)DL->getTypeAllocSize(x->getAllocatedType()); o["n"] = op(x->getArraySize()); o["name"] = x->getName().str(); }
				else if (auto x = dyn_cast<LoadInst>(&I)) { o["p"] = A(0); o["size"] = (int64_t)DL->getTypeStoreSize(x->getType()); o["atomic"] = x->isAtomic(); o["vol"] = x->isVolatile(); }
				else if (auto x = dyn_cast<StoreInst>(&I)) { o["val"] = A(0); o["p"] = A(1); o["size"] = (int64_t)DL->getTypeStoreSize(x->getValueOperand()->getType()); o["vty"] = ty(x->getValueOperand()->getType()); o["atomic"] = x->isAtomic(); }
				else if (auto x = dyn_cast<GetElementPtrInst>(&I))
				{
					o["base"] = A(0); int64_t c = 0; json::Array idx;
					for (auto gi = gep_type_begin(x), ge = gep_type_end(x); gi != ge; ++gi)
					{
						if (auto st = gi.getStructTypeOrNull()) { c += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue()); }
						else { int64_t sc = DL->getTypeAllocSize(gi.getIndexedType()); if (auto ci = dyn_cast<ConstantInt>(gi.getOperand())) c += sc * ci->getSExtValue(); else idx.push_back(json::Array{op(gi.getOperand()), sc}); }
					}
					o["off"] = c; o["idx"] = std::move(idx);
				}
				else if (auto x = dyn_cast<CmpInst>(&I)) { o["pred"] = CmpInst::getPredicateName(x->getPredicate()).str(); o["a"] = A(0); o["b"] = A(1); o["aty"] = ty(x->getOperand(0)->getType()); }
				else if (auto x = dyn_cast<PHINode>(&I)) { json::Array in; for (unsigned i = 0; i < x->getNumIncomingValues(); i++) in.push_back(json::Array{op(x->getIncomingValue(i)), bid[x->getIncomingBlock(i)]}); o["in"] = std::move(in); }
				else if (auto x = dyn_cast<BranchInst>(&I)) { if (x->isConditional()) { o["cond"] = A(0); o["t"] = bid[x->getSuccessor(0)]; o["f"] = bid[x->getSuccessor(1)]; } else o["t"] = bid[x->getSuccessor(0)]; }
				else if (auto x = dyn_cast<SwitchInst>(&I)) { o["cond"] = op(x->getCondition()); o["def"] = bid[x->getDefaultDest()]; json::Array cs; for (auto& c : x->cases()) cs.push_back(json::Array{num(c.getCaseValue()->getValue()), bid[c.getCaseSuccessor()]}); o["cases"] = std::move(cs); o["aty"] = ty(x->getCondition()->getType()); }
				else if (auto x = dyn_cast<CallBase>(&I))
				{
					o["op"] = isa<InvokeInst>(I) ? "invoke" : "call"; o["callee"] = op(x->getCalledOperand()); json::Array as; json::Array bv;
					for (unsigned i = 0; i < x->arg_size(); i++) { as.push_back(op(x->getArgOperand(i))); bv.push_back(x->isByValArgument(i) ? (int64_t)DL->getTypeAllocSize(x->getParamByValType(i)) : (int64_t)0); }
					o["args"] = std::move(as); o["byval"] = std::move(bv);
					json::Array atys; for (unsigned i = 0; i < x->arg_size(); i++) atys.push_back(ty(x->getArgOperand(i)->getType())); o["atys"] = std::move(atys);
					o["nounwind"] = x->doesNotThrow();
					if (auto iv = dyn_cast<InvokeInst>(&I)) { o["t"] = bid[iv->getNormalDest()]; o["u"] = bid[iv->getUnwindDest()]; }
				}
				else if (auto x = dyn_cast<LandingPadInst>(&I)) { json::Array cl; for (unsigned i = 0; i < x->getNumClauses(); i++) cl.push_back(json::Array{x->isCatch(i) ? "catch" : "filter", op(x->getClause(i))}); o["clauses"] = std::move(cl); o["cleanup"] = x->isCleanup(); }
				else if (auto x = dyn_cast<ExtractValueInst>(&I)) { o["a"] = A(0); json::Array ix; for (auto i : x->indices()) ix.push_back((int64_t)i); o["ix"] = std::move(ix); }
				else if (auto x = dyn_cast<InsertValueInst>(&I)) { o["a"] = A(0); o["b"] = A(1); json::Array ix; for (auto i : x->indices()) ix.push_back((int64_t)i); o["ix"] = std::move(ix); }
				else if (auto x = dyn_cast<AtomicRMWInst>(&I)) { o["rmw"] = AtomicRMWInst::getOperationName(x->getOperation()).str(); o["p"] = op(x->getPointerOperand()); o["val"] = op(x->getValOperand()); o["size"] = (int64_t)DL->getTypeStoreSize(x->getType()); }
				else if (auto x = dyn_cast<AtomicCmpXchgInst>(&I)) { o["p"] = op(x->getPointerOperand()); o["cmp"] = op(x->getCompareOperand()); o["new"] = op(x->getNewValOperand()); o["size"] = (int64_t)DL->getTypeStoreSize(x->getCompareOperand()->getType()); }
				else if (auto x = dyn_cast<CastInst>(&I)) { o["a"] = A(0); o["from"] = ty(x->getSrcTy()); o["to"] = ty(x->getDestTy()); }
				else { json::Array as; for (auto& u : I.operands()) as.push_back(op(u.get())); o["ops"] = std::move(as); if (auto bo = dyn_cast<BinaryOperator>(&I)) { o["exact"] = isa<PossiblyExactOperator>(bo) && cast<PossiblyExactOperator>(bo)->isExact(); if (auto ob = dyn_cast<OverflowingBinaryOperator>(bo)) { o["nsw"] = ob->hasNoSignedWrap(); } } }
				insts.push_back(std::move(o));
			}
			blocks.push_back(std::move(insts));
		}
		fo["blocks"] = std::move(blocks);
		DominatorTree DT(F); LoopInfo LI(DT);
		json::Array loops;
		for (auto* L : LI.getLoopsInPreorder()) { json::Object lo; lo["h"] = bid[L->getHeader()]; json::Array bs; for (auto* b : L->blocks()) bs.push_back(bid[b]); lo["b"] = std::move(bs); loops.push_back(std::move(lo)); }
		fo["loops"] = std::move(loops);
		funcs[F.getName().str()] = std::move(fo);
	}
	root["funcs"] = std::move(funcs);
	// record layouts from debug info
	DebugInfoFinder dif; dif.processModule(*M);
	json::Object recs;
	for (auto* t : dif.types())
		if (auto* ct = dyn_cast<DICompositeType>(t))
		{
			if (ct->getTag() != dwarf::DW_TAG_structure_type && ct->getTag() != dwarf::DW_TAG_class_type) continue;
			if (ct->isForwardDecl()) continue;
			std::string full; for (const DIScope* s = ct->getScope(); s; s = s->getScope()) if (isa<DINamespace>(s) || isa<DICompositeType>(s)) full = s->getName().str() + "::" + full;
			full += ct->getName().str();
			json::Object ro; ro["size"] = (int64_t)(ct->getSizeInBits() / 8); json::Array fs; json::Array bs;
			for (auto* e : ct->getElements())
				if (auto* d = dyn_cast<DIDerivedType>(e))
				{
					if (d->getTag() == dwarf::DW_TAG_member && !d->isStaticMember()) {
						const DIType* bt = d->getBaseType(); while (bt) { auto* dd = dyn_cast<DIDerivedType>(bt); if (!dd || dd->getTag() == dwarf::DW_TAG_pointer_type) break; bt = dd->getBaseType(); }
						bool ptr = bt && isa<DIDerivedType>(bt);
						fs.push_back(json::Array{d->getName().str(), (int64_t)(d->getOffsetInBits() / 8), (int64_t)(d->getSizeInBits() / 8), ptr});
					}
					if (d->getTag() == dwarf::DW_TAG_inheritance) { std::string bn; if (auto* bt = dyn_cast<DICompositeType>(d->getBaseType())) { std::string f2; for (const DIScope* s = bt->getScope(); s; s = s->getScope()) if (isa<DINamespace>(s) || isa<DICompositeType>(s)) f2 = s->getName().str() + "::" + f2; bn = f2 + bt->getName().str(); } bs.push_back(json::Array{bn, (int64_t)(d->getOffsetInBits() / 8), (d->getFlags() & DINode::FlagVirtual) != 0}); }
				}
			ro["fields"] = std::move(fs); ro["bases"] = std::move(bs);
			recs[full] = std::move(ro);
		}
	root["records"] = std::move(recs);
	outs() << json::Value(std::move(root)) << "\n";
}
