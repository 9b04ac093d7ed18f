// irx: normalise LLVM IR (selective inlining + canonicalisation) and dump facts as JSON.
// It never executes the program; it only transforms and prints the intermediate representation.
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/PostDominators.h"
#include "llvm/Analysis/InstructionSimplify.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/GlobalVariable.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Scalar/Scalarizer.h"
#include "llvm/Transforms/Utils/LoopPeel.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Analysis/OptimizationRemarkEmitter.h"
#include "llvm/Analysis/TargetTransformInfo.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/LCSSA.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Utils/LoopUtils.h"
#include "llvm/Transforms/Utils/UnrollLoop.h"
#include <fstream>
#include <map>
#include <set>
#include <cmath>
#include <numeric>
#include <string>
using namespace llvm;

static std::string str(Type* t) { std::string s; raw_string_ostream o(s); t->print(o, false, true); return o.str(); }
static std::map<const Value*, int> ids;
static std::map<const BasicBlock*, int> bbids;

static json::Value operandJ(const Value* v);

static json::Value constJ(const Constant* c) {
	json::Object o;
	if (auto* ci = dyn_cast<ConstantInt>(c)) {
		SmallString<40> s;
		ci->getValue().toString(s, 10, true);
		return json::Object{ { "k", "int" }, { "v", std::string(s.str()) }, { "ty", str(c->getType()) } };
	}
	if (auto* cf = dyn_cast<ConstantFP>(c)) {
		SmallString<40> s;
		APFloat f = cf->getValueAPF();
		bool li;
		f.convert(APFloat::IEEEquad(), APFloat::rmNearestTiesToEven, &li);
		cf->getValueAPF().toString(s, 40, 0);
		SmallString<40> hex;
		cf->getValueAPF().bitcastToAPInt().toString(hex, 16, false);
		return json::Object{ { "k", "fp" }, { "v", std::string(s.str()) }, { "hex", std::string(hex.str()) }, { "ty", str(c->getType()) } };
	}
	if (isa<ConstantPointerNull>(c)) return json::Object{ { "k", "null" } };
	if (isa<UndefValue>(c)) return json::Object{ { "k", isa<PoisonValue>(c) ? "poison" : "undef" }, { "ty", str(c->getType()) } };
	if (auto* f = dyn_cast<Function>(c)) return json::Object{ { "k", "fn" }, { "v", f->getName() }, { "dem", demangle(f->getName().str()) } };
	if (auto* g = dyn_cast<GlobalVariable>(c)) return json::Object{ { "k", "glob" }, { "v", g->getName() }, { "dem", demangle(g->getName().str()) } };
	if (isa<ConstantAggregateZero>(c)) return json::Object{ { "k", "zero" }, { "ty", str(c->getType()) } };
	if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
		json::Array a;
		unsigned n = cd->getNumElements();
		for (unsigned i = 0; i < n && i < 4096; ++i) a.push_back(constJ(cd->getElementAsConstant(i)));
		return json::Object{ { "k", "agg" }, { "ty", str(c->getType()) }, { "el", std::move(a) } };
	}
	if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
		json::Array a;
		for (auto& op : ca->operands()) a.push_back(constJ(cast<Constant>(op)));
		return json::Object{ { "k", "agg" }, { "ty", str(c->getType()) }, { "el", std::move(a) } };
	}
	if (auto* ce = dyn_cast<ConstantExpr>(c)) {
		json::Array a;
		for (auto& op : ce->operands()) a.push_back(constJ(cast<Constant>(op)));
		json::Object r{ { "k", "cexpr" }, { "op", ce->getOpcodeName() }, { "ty", str(c->getType()) }, { "el", std::move(a) } };
		if (auto* gep = dyn_cast<GEPOperator>(ce)) r["srcty"] = str(gep->getSourceElementType());
		return std::move(r);
	}
	return json::Object{ { "k", "const?" } };
}

static json::Value operandJ(const Value* v) {
	if (auto* a = dyn_cast<Argument>(v)) return json::Object{ { "k", "arg" }, { "v", (int)a->getArgNo() } };
	if (auto* i = dyn_cast<Instruction>(v)) return json::Object{ { "k", "i" }, { "v", ids[i] } };
	if (auto* b = dyn_cast<BasicBlock>(v)) return json::Object{ { "k", "bb" }, { "v", bbids[b] } };
	if (auto* c = dyn_cast<Constant>(v)) return constJ(c);
	if (isa<MetadataAsValue>(v)) return json::Object{ { "k", "md" } };
	if (isa<InlineAsm>(v)) return json::Object{ { "k", "asm" } };
	return json::Object{ { "k", "?" } };
}

static json::Value scevJ(const SCEV* s, int depth = 0) {
	if (depth > 40) return json::Object{ { "t", "deep" } };
	auto list = [&](auto* n) {
		json::Array a;
		for (auto* op : n->operands()) a.push_back(scevJ(op, depth + 1));
		return a;
	};
	switch (s->getSCEVType()) {
		case scConstant: {
			SmallString<40> t;
			cast<SCEVConstant>(s)->getAPInt().toString(t, 10, true);
			return json::Object{ { "t", "const" }, { "v", std::string(t.str()) } };
		}
		case scUnknown: return json::Object{ { "t", "unk" }, { "v", operandJ(cast<SCEVUnknown>(s)->getValue()) } };
		case scAddExpr: return json::Object{ { "t", "add" }, { "ops", list(cast<SCEVAddExpr>(s)) } };
		case scMulExpr: return json::Object{ { "t", "mul" }, { "ops", list(cast<SCEVMulExpr>(s)) } };
		case scUDivExpr: return json::Object{ { "t", "udiv" }, { "l", scevJ(cast<SCEVUDivExpr>(s)->getLHS(), depth + 1) }, { "r", scevJ(cast<SCEVUDivExpr>(s)->getRHS(), depth + 1) } };
		case scAddRecExpr: return json::Object{ { "t", "rec" }, { "ops", list(cast<SCEVAddRecExpr>(s)) }, { "loop", bbids[cast<SCEVAddRecExpr>(s)->getLoop()->getHeader()] } };
		case scSMaxExpr: return json::Object{ { "t", "smax" }, { "ops", list(cast<SCEVSMaxExpr>(s)) } };
		case scUMaxExpr: return json::Object{ { "t", "umax" }, { "ops", list(cast<SCEVUMaxExpr>(s)) } };
		case scSMinExpr: return json::Object{ { "t", "smin" }, { "ops", list(cast<SCEVSMinExpr>(s)) } };
		case scUMinExpr: return json::Object{ { "t", "umin" }, { "ops", list(cast<SCEVUMinExpr>(s)) } };
		case scSequentialUMinExpr: return json::Object{ { "t", "umin" }, { "ops", list(cast<SCEVSequentialUMinExpr>(s)) } };
		case scZeroExtend: return json::Object{ { "t", "zext" }, { "op", scevJ(cast<SCEVCastExpr>(s)->getOperand(), depth + 1) } };
		case scSignExtend: return json::Object{ { "t", "sext" }, { "op", scevJ(cast<SCEVCastExpr>(s)->getOperand(), depth + 1) } };
		case scTruncate: return json::Object{ { "t", "trunc" }, { "op", scevJ(cast<SCEVCastExpr>(s)->getOperand(), depth + 1) }, { "ty", str(s->getType()) } };
		case scPtrToInt: return scevJ(cast<SCEVCastExpr>(s)->getOperand(), depth + 1);
		default: return json::Object{ { "t", "none" } };
	}
}

static json::Value locJ(const Instruction& I) {
	json::Array chain;
	for (const DILocation* d = I.getDebugLoc(); d; d = d->getInlinedAt()) {
		json::Object o;
		std::string fn = d->getFilename().str();
		o["f"] = fn;
		o["l"] = (int)d->getLine();
		if (auto* sp = d->getScope()->getSubprogram()) o["s"] = sp->getName();
		chain.push_back(std::move(o));
	}
	return std::move(chain);
}

static json::Value typeLayoutJ(const DataLayout& DL, Type* t) {
	return json::Object{ { "ty", str(t) } };
}

// Fully unrolls innermost loops whose trip count is a small constant (e.g. sums over the lanes of one batch).
struct UnrollConst : PassInfoMixin<UnrollConst> {
	unsigned limit;
	explicit UnrollConst(unsigned l) : limit(l) {}
	PreservedAnalyses run(Function& F, FunctionAnalysisManager& AM) {
		auto& LI = AM.getResult<LoopAnalysis>(F);
		auto& SE = AM.getResult<ScalarEvolutionAnalysis>(F);
		auto& DT = AM.getResult<DominatorTreeAnalysis>(F);
		auto& AC = AM.getResult<AssumptionAnalysis>(F);
		auto& TTI = AM.getResult<TargetIRAnalysis>(F);
		OptimizationRemarkEmitter ORE(&F);
		bool changed = false, again = true;
		while (again) {
			again = false;
			for (Loop* L : LI.getLoopsInPreorder()) {
				if (!L->isInnermost()) continue;
				unsigned tc = 0;
				SmallVector<BasicBlock*, 4> exb;
				L->getExitingBlocks(exb);
				for (auto* x : exb) if (unsigned t = SE.getSmallConstantTripCount(L, x)) tc = tc ? std::min(tc, t) : t;
				if (tc == 0 || tc > limit) continue;
				unsigned cost = 0;
				for (auto* b : L->blocks()) cost += b->size();
				if (cost * tc > 4000) continue;
				UnrollLoopOptions o{};
				o.Count = tc;
				o.Force = true;
				o.AllowExpensiveTripCount = true;
				if (UnrollLoop(L, o, &LI, &SE, &DT, &AC, &TTI, &ORE, true) == LoopUnrollResult::Unmodified) continue;
				SE.forgetAllLoops();
				changed = again = true;
				break;
			}
		}
		return changed ? PreservedAnalyses::none() : PreservedAnalyses::all();
	}
};

// Specialisation: fully unrolls every loop (innermost first) with a constant trip count.
struct UnrollAll : PassInfoMixin<UnrollAll> {
	PreservedAnalyses run(Function& F, FunctionAnalysisManager& AM) {
		auto& LI = AM.getResult<LoopAnalysis>(F);
		auto& SE = AM.getResult<ScalarEvolutionAnalysis>(F);
		auto& DT = AM.getResult<DominatorTreeAnalysis>(F);
		auto& AC = AM.getResult<AssumptionAnalysis>(F);
		auto& TTI = AM.getResult<TargetIRAnalysis>(F);
		OptimizationRemarkEmitter ORE(&F);
		bool changed = false, again = true;
		size_t total = 0;
		for (auto& b : F) total += b.size();
		while (again && total < 60000) {
			again = false;
			for (Loop* L : LI.getLoopsInPreorder()) {
				bool inner = L->isInnermost();
				if (!inner) {
					// an outer loop is unrolled only when what it contains cannot be
					bool known = false;
					for (auto* S : L->getSubLoops()) if (SE.getSmallConstantMaxTripCount(S)) known = true;
					if (known) continue;
				}
				unsigned tc = 0;
				SmallVector<BasicBlock*, 4> exb;
				L->getExitingBlocks(exb);
				for (auto* x : exb) if (unsigned t = SE.getSmallConstantTripCount(L, x)) tc = tc ? std::min(tc, t) : t;
				if (inner && tc == 0) for (auto* x : exb) if (unsigned t = SE.getSmallConstantMaxTripCount(L)) tc = t;
				if (tc == 0 || tc > 300) continue;
				unsigned cost = 0;
				for (auto* b : L->blocks()) cost += b->size();
				if (cost * tc > 40000) continue;
				UnrollLoopOptions o{};
				o.Count = tc;
				o.Force = true;
				o.AllowExpensiveTripCount = true;
				if (UnrollLoop(L, o, &LI, &SE, &DT, &AC, &TTI, &ORE, true) == LoopUnrollResult::Unmodified) continue;
				SE.forgetAllLoops();
				total += cost * tc;
				changed = again = true;
				break;
			}
		}
		return changed ? PreservedAnalyses::none() : PreservedAnalyses::all();
	}
};

// Specialisation: magnitudes of constants.
struct FoldAbs : PassInfoMixin<FoldAbs> {
	PreservedAnalyses run(Function& F, FunctionAnalysisManager& AM) {
		SmallVector<CallInst*, 16> todo;
		for (auto& b : F) for (auto& i : b) if (auto* c = dyn_cast<CallInst>(&i)) if (auto* g = c->getCalledFunction()) if (g->getName() == "cabsf" || g->getName() == "cabs") todo.push_back(c);
		bool changed = false;
		for (auto* c : todo) {
			Constant *x = nullptr, *y = nullptr;
			auto* a0 = dyn_cast<Constant>(c->getArgOperand(0));
			if (c->arg_size() == 2) { x = a0; y = dyn_cast<Constant>(c->getArgOperand(1)); }
			else if (a0 && a0->getType()->isVectorTy()) { x = a0->getAggregateElement(0u); y = a0->getAggregateElement(1u); }
			auto *fx = dyn_cast_or_null<ConstantFP>(x), *fy = dyn_cast_or_null<ConstantFP>(y);
			if (!fx || !fy || c->getType() != fx->getType()) continue;
			auto v = [](ConstantFP* f) { return f->getType()->isFloatTy() ? double(f->getValueAPF().convertToFloat()) : f->getValueAPF().convertToDouble(); };
			c->replaceAllUsesWith(ConstantFP::get(c->getType(), std::hypot(v(fx), v(fy))));
			c->eraseFromParent();
			changed = true;
		}
		// the greatest common divisor of constants (a stand-in of std::gcd), and whatever it makes constant
		SmallVector<Instruction*, 64> work;
		auto gcd = [](Instruction* i) { auto* c = dyn_cast<CallInst>(i); auto* g = c ? c->getCalledFunction() : nullptr; return g && g->getName() == "constant_gcd" && c->arg_size() == 2 ? c : nullptr; };
		for (auto& b : F) for (auto& i : b) if (gcd(&i)) work.push_back(&i);
		SmallPtrSet<Instruction*, 32> gone;
		SimplifyQuery q(F.getParent()->getDataLayout());
		while (!work.empty()) {
			Instruction* i = work.pop_back_val();
			if (gone.count(i)) continue;
			Value* v = nullptr;
			if (auto* c = gcd(i)) {
				auto *x = dyn_cast<ConstantInt>(c->getArgOperand(0)), *y = dyn_cast<ConstantInt>(c->getArgOperand(1));
				if (x && y) v = ConstantInt::get(c->getType(), std::gcd(x->getSExtValue(), y->getSExtValue()));
			}
			else if (!i->getType()->isVoidTy() && !isa<PHINode>(i)) v = simplifyInstruction(i, q.getWithInstruction(i));
			if (!v || v == i) continue;
			for (auto* u : i->users()) if (auto* k = dyn_cast<Instruction>(u)) work.push_back(k);
			i->replaceAllUsesWith(v);
			gone.insert(i);
			changed = true;
		}
		for (auto* i : gone) if (i->use_empty() && !i->mayHaveSideEffects()) i->eraseFromParent();
		return changed ? PreservedAnalyses::none() : PreservedAnalyses::all();
	}
};

// Specialisation: peels iterations off loops whose trip count depends on values that are constants in memory.
struct PeelAll : PassInfoMixin<PeelAll> {
	PreservedAnalyses run(Function& F, FunctionAnalysisManager& AM) {
		auto& LI = AM.getResult<LoopAnalysis>(F);
		auto& SE = AM.getResult<ScalarEvolutionAnalysis>(F);
		auto& DT = AM.getResult<DominatorTreeAnalysis>(F);
		auto& AC = AM.getResult<AssumptionAnalysis>(F);
		size_t total = 0;
		for (auto& b : F) total += b.size();
		bool changed = false;
		for (Loop* L : SmallVector<Loop*, 16>(LI.getLoopsInPreorder())) {
			if (total > 20000) break;
			if (!L->isInnermost() || SE.getSmallConstantMaxTripCount(L) || !canPeel(L)) continue;
			unsigned cost = 0;
			for (auto* b : L->blocks()) cost += b->size();
			if (cost > 2000) continue;
			ValueToValueMapTy vm;
			if (!peelLoop(L, 3, &LI, &SE, DT, &AC, true, vm)) continue;
			SE.forgetAllLoops();
			total += cost * 3;
			changed = true;
		}
		return changed ? PreservedAnalyses::none() : PreservedAnalyses::all();
	}
};

// Specialisation: rewrites memcpy/memmove/memset of constant size into loads and stores of one element type; words of
// which single bytes are accessed somewhere (directly, or in an object they are copied from or to) are copied bytewise.
struct ExpandMem : PassInfoMixin<ExpandMem> {
	unsigned word;
	uint64_t limit;
	ExpandMem(unsigned w, uint64_t l) : word(w), limit(l) {}
	PreservedAnalyses run(Function& F, FunctionAnalysisManager& AM) {
		const DataLayout& DL = F.getParent()->getDataLayout();
		SmallVector<MemIntrinsic*, 16> todo;
		std::map<const Value*, std::set<int64_t>> bytes;
		auto base = [&](Value* p, int64_t& off) -> const Value* {
			APInt o(DL.getIndexTypeSizeInBits(p->getType()), 0);
			const Value* v = p->stripAndAccumulateConstantOffsets(DL, o, true);
			off = o.getSExtValue();
			return v;
		};
		for (auto& b : F) for (auto& i : b) {
			if (auto* m = dyn_cast<MemIntrinsic>(&i)) { if (auto* n = dyn_cast<ConstantInt>(m->getLength())) if (n->getZExtValue() <= limit) todo.push_back(m); }
			else if (isa<LoadInst>(&i) || isa<StoreInst>(&i)) {
				Type* t = isa<LoadInst>(&i) ? i.getType() : cast<StoreInst>(&i)->getValueOperand()->getType();
				if (!t->isIntegerTy(8) && !t->isIntegerTy(16)) continue;
				int64_t o = 0;
				const Value* v = base(const_cast<Value*>(getLoadStorePointerOperand(&i)), o);
				bytes[v].insert(o - (((o % int64_t(word)) + word) % int64_t(word)));
			}
		}
		// two words copied at once, as an integer, between objects that hold single words: one by one
		if (word == 4) {
			std::set<const Value*> single, whole;
			auto copied = [](Instruction* i) { // a load that is only stored again
				auto* l = dyn_cast<LoadInst>(i);
				if (!l || !l->getType()->isIntegerTy(64) || l->use_empty() || l->isVolatile()) return false;
				for (auto* u : l->users()) { auto* s = dyn_cast<StoreInst>(u); if (!s || s->getValueOperand() != l) return false; }
				return true;
			};
			for (auto& b : F) for (auto& i : b) {
				auto* p = const_cast<Value*>(getLoadStorePointerOperand(&i));
				if (!p) continue;
				Type* t = isa<LoadInst>(&i) ? i.getType() : cast<StoreInst>(&i)->getValueOperand()->getType();
				int64_t o = 0;
				const Value* v = base(p, o);
				if (t->isFloatTy()) single.insert(v);
				else if (isa<StoreInst>(&i) && isa<Instruction>(cast<StoreInst>(&i)->getValueOperand()) && copied(cast<Instruction>(cast<StoreInst>(&i)->getValueOperand()))) continue;
				else if (!copied(&i)) whole.insert(v);
			}
			SmallVector<LoadInst*, 16> pairs;
			for (auto& b : F) for (auto& i : b) if (copied(&i)) {
				int64_t o = 0;
				const Value* v = base(cast<LoadInst>(&i)->getPointerOperand(), o);
				bool words = single.count(v), other = whole.count(v);
				for (auto* u : i.users()) { const Value* d = base(cast<StoreInst>(u)->getPointerOperand(), o); words |= single.count(d) != 0; other |= whole.count(d) != 0; }
				if (words && !other) pairs.push_back(cast<LoadInst>(&i));
			}
			for (auto* l : pairs) {
				SmallVector<StoreInst*, 4> us;
				for (auto* u : l->users()) us.push_back(cast<StoreInst>(u));
				IRBuilder<> B(l);
				Value* h[2];
				for (int k = 0; k < 2; ++k) h[k] = B.CreateAlignedLoad(B.getFloatTy(), B.CreateConstInBoundsGEP1_64(B.getInt8Ty(), l->getPointerOperand(), 4 * k), Align(1));
				for (auto* u : us) {
					B.SetInsertPoint(u);
					for (int k = 0; k < 2; ++k) B.CreateAlignedStore(h[k], B.CreateConstInBoundsGEP1_64(B.getInt8Ty(), u->getPointerOperand(), 4 * k), Align(1));
					u->eraseFromParent();
				}
				l->eraseFromParent();
			}
		}
		for (bool again = true; again;) {
			again = false;
			for (auto* m : todo) if (auto* t = dyn_cast<MemTransferInst>(m)) {
				int64_t so, d0, n = cast<ConstantInt>(m->getLength())->getZExtValue();
				const Value *s = base(t->getRawSource(), so), *d = base(t->getRawDest(), d0);
				auto copy = [&](const Value* x, int64_t xo, const Value* y, int64_t yo) { for (int64_t q : std::set<int64_t>(bytes[x])) if (q >= xo && q < xo + n && bytes[y].insert(q - xo + yo).second) again = true; };
				copy(s, so, d, d0);
				copy(d, d0, s, so);
			}
		}
		for (auto* m : todo) {
			uint64_t n = cast<ConstantInt>(m->getLength())->getZExtValue();
			IRBuilder<> B(m);
			SmallVector<Value*, 16> v;
			SmallVector<std::pair<uint64_t, Type*>, 16> at;
			int64_t d0;
			const Value* d = base(m->getRawDest(), d0);
			auto& bs = bytes[d];
			// pieces of a split structure start anywhere: the alignment is that of the other side
			int64_t al = d0;
			auto piece = [&](const Value* x) { auto* a = dyn_cast<AllocaInst>(x); return a && a->getAllocatedType()->isArrayTy() && a->getAllocatedType()->getArrayElementType()->isIntegerTy(8); };
			if (auto* t = dyn_cast<MemTransferInst>(m); t && piece(d)) {
				int64_t so;
				const Value* s = base(t->getRawSource(), so);
				if (!piece(s)) al = so;
				else if (auto at = cast<AllocaInst>(d)->getAllocatedType()->getArrayNumElements(); at % word) al = so = int64_t(word) - int64_t(at % word) + d0;
			}
			else if (piece(d)) if (auto at = cast<AllocaInst>(d)->getAllocatedType()->getArrayNumElements(); at % word) al = int64_t(word) - int64_t(at % word) + d0;
			for (uint64_t o = 0; o < n;) {
				const int64_t ph = (((al + int64_t(o)) % int64_t(word)) + word) % int64_t(word);
				if (ph != 0) { at.push_back({ o, B.getInt8Ty() }); ++o; continue; }
				if (n - o >= word && !bs.count(d0 + int64_t(o))) { at.push_back({ o, word == 4 ? B.getFloatTy() : B.getDoubleTy() }); o += word; }
				else for (uint64_t e = std::min<uint64_t>(n, o + word); o < e; ++o) at.push_back({ o, B.getInt8Ty() });
			}
			if (auto* t = dyn_cast<MemTransferInst>(m)) for (auto& [o, ty] : at) v.push_back(B.CreateAlignedLoad(ty, B.CreateConstInBoundsGEP1_64(B.getInt8Ty(), t->getRawSource(), o), Align(1)));
			else if (auto* t = dyn_cast<MemSetInst>(m)) {
				auto* c = dyn_cast<ConstantInt>(t->getValue());
				if (!c || !c->isZero()) continue;
				for (auto& [o, ty] : at) v.push_back(Constant::getNullValue(ty));
			}
			else continue;
			for (size_t k = 0; k < at.size(); ++k) B.CreateAlignedStore(v[k], B.CreateConstInBoundsGEP1_64(B.getInt8Ty(), m->getRawDest(), at[k].first), Align(1));
			m->eraseFromParent();
		}
		return todo.empty() && word != 4 ? PreservedAnalyses::all() : PreservedAnalyses::none();
	}
};

int main(int argc, char** argv) {
	int unrec = 0;
	std::string in, out, passes, entryRe = "^e_", mode = "facts";
	std::vector<std::string> opaque, keepBody, noop;
	bool noInline = false, withScev = true, withLoc = true, outLL = false;
	std::string llOut;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto next = [&]() { return std::string(argv[++i]); };
		if (a == "--in") in = next();
		else if (a == "--out") out = next();
		else if (a == "--passes") passes = next();
		else if (a == "--llvm") { std::string o = next(); const char* av[] = { "irx", o.c_str() }; cl::ParseCommandLineOptions(2, av); }
		else if (a == "--unrec") unrec = atoi(next().c_str());
		else if (a == "--entry") entryRe = next();
		else if (a == "--opaque") opaque.push_back(next());
		else if (a == "--opaque-file") {
			std::ifstream f(next());
			std::string l;
			while (std::getline(f, l)) if (!l.empty() && l[0] != '#') opaque.push_back(l);
		}
		else if (a == "--keep-body") keepBody.push_back(next());
		else if (a == "--noop") noop.push_back(next());
		else if (a == "--no-inline") noInline = true;
		else if (a == "--no-scev") withScev = false;
		else if (a == "--no-loc") withLoc = false;
		else if (a == "--ll") llOut = next();
		else { errs() << "unknown option " << a << "\n"; return 2; }
	}
	LLVMContext ctx;
	SMDiagnostic err;
	auto M = parseIRFile(in, err, ctx);
	if (!M) { err.print("irx", errs()); return 2; }

	std::vector<Regex> ore, kre;
	for (auto& s : opaque) { ore.emplace_back(s); std::string e; if (!ore.back().isValid(e)) { errs() << "bad regex " << s << ": " << e << "\n"; return 2; } }
	for (auto& s : keepBody) kre.emplace_back(s);
	Regex ere(entryRe);

	std::map<std::string, std::vector<std::string>> stats;
	if (unrec > 0) { // a function that calls itself becomes a chain of copies, the last of which calls an unknown function
		std::vector<Function*> fs;
		for (Function& F : *M) if (!F.isDeclaration() && !ere.match(F.getName())) fs.push_back(&F);
		for (Function* F : fs) {
			auto calls = [&](Function* in) { std::vector<CallBase*> r; for (auto& I : instructions(*in)) if (auto* cb = dyn_cast<CallBase>(&I)) if (cb->getCalledFunction() == F) r.push_back(cb); return r; };
			if (calls(F).empty()) continue;
			std::vector<Function*> level{ F };
			for (int n = 1; n <= unrec; ++n) { ValueToValueMapTy map; auto* q = CloneFunction(F, map); q->setName(F->getName() + ".r" + std::to_string(n)); q->setComdat(nullptr); q->setLinkage(GlobalValue::InternalLinkage); level.push_back(q); }
			auto* end = Function::Create(F->getFunctionType(), GlobalValue::ExternalLinkage, F->getName() + ".rec", *M);
			for (size_t n = 0; n < level.size(); ++n) for (auto* cb : calls(level[n])) cb->setCalledFunction(n + 1 < level.size() ? level[n + 1] : end);
		}
	}
	for (Function& F : *M) {
		F.removeFnAttr(Attribute::OptimizeNone);
		if (F.isDeclaration()) continue;
		std::string dem = demangle(F.getName().str());
		// A type-erased copy of the demangled name without the return type ambiguity is matched as a whole.
		bool isEntry = ere.match(F.getName());
		bool isKeep = false;
		for (auto& r : kre) if (r.match(dem)) isKeep = true;
		bool isOpaque = false;
		if (!isEntry) for (auto& r : ore) if (r.match(dem)) { isOpaque = true; break; }
		if (!isEntry && F.getReturnType()->isVoidTy()) {
			bool empty = false;
			for (auto& s : noop) if (Regex(s).match(dem)) empty = true;
			if (empty) {
				F.deleteBody();
				ReturnInst::Create(ctx, BasicBlock::Create(ctx, "", &F));
				F.setComdat(nullptr);
				F.setLinkage(GlobalValue::InternalLinkage);
				F.addFnAttr(Attribute::AlwaysInline);
				continue;
			}
		}
		if (noInline) continue;
		if (isOpaque) {
			F.deleteBody();
			F.removeFnAttr(Attribute::AlwaysInline);
			F.setComdat(nullptr);
			F.setLinkage(GlobalValue::ExternalLinkage);
			stats["opaque"].push_back(dem);
			continue;
		}
		if (isEntry || isKeep) {
			F.removeFnAttr(Attribute::AlwaysInline);
			F.addFnAttr(Attribute::NoInline);
			F.setComdat(nullptr);
			F.setLinkage(GlobalValue::ExternalLinkage);
			continue;
		}
		F.removeFnAttr(Attribute::NoInline);
		F.addFnAttr(Attribute::AlwaysInline);
		F.setComdat(nullptr);
		F.setLinkage(GlobalValue::InternalLinkage);
	}
	for (GlobalVariable& G : M->globals()) {
		if (!G.isDeclaration() && G.hasLinkOnceLinkage()) { G.setComdat(nullptr); G.setLinkage(GlobalValue::InternalLinkage); }
	}

	PassBuilder PB;
	LoopAnalysisManager LAM;
	FunctionAnalysisManager FAM;
	CGSCCAnalysisManager CGAM;
	ModuleAnalysisManager MAM;
	PB.registerPipelineParsingCallback([](StringRef name, FunctionPassManager& FPM, ArrayRef<PassBuilder::PipelineElement>) {
		if (name == "unroll-const") FPM.addPass(UnrollConst(16));
		else if (name == "unroll-all") FPM.addPass(UnrollAll());
		else if (name == "fold-abs") FPM.addPass(FoldAbs());
		else if (name == "peel-all") FPM.addPass(PeelAll());
		else if (name == "scalarize") { ScalarizerPassOptions o; o.ScalarizeLoadStore = true; o.ScalarizeVariableInsertExtract = true; FPM.addPass(ScalarizerPass(o)); }
		else if (name == "expand-mem4") FPM.addPass(ExpandMem(4, 8192));
		else if (name == "expand-mem8") FPM.addPass(ExpandMem(8, 8192));
		else if (name == "expand-small4") FPM.addPass(ExpandMem(4, 8));
		else if (name == "expand-small8") FPM.addPass(ExpandMem(8, 8));
		else return false;
		return true;
	});
	PB.registerModuleAnalyses(MAM);
	PB.registerCGSCCAnalyses(CGAM);
	PB.registerFunctionAnalyses(FAM);
	PB.registerLoopAnalyses(LAM);
	PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
	if (!passes.empty()) {
		ModulePassManager MPM;
		if (auto e = PB.parsePassPipeline(MPM, passes)) { errs() << toString(std::move(e)) << "\n"; return 2; }
		MPM.run(*M, MAM);
	}
	if (!llOut.empty()) { std::error_code ec; raw_fd_ostream o(llOut, ec); M->print(o, nullptr); }

	json::Object root;
	// functions are written as they are done: a module's worth of json values takes gigabytes
	std::error_code ec;
	raw_fd_ostream os(out.empty() ? "-" : out, ec);
	os << "{\"functions\":[";
	bool first = true;
	auto put = [&](json::Object&& o) { if (!first) os << ","; first = false; os << json::Value(std::move(o)); };
	const DataLayout& DL = M->getDataLayout();
	for (Function& F : *M) {
		std::string dem = demangle(F.getName().str());
		json::Object fo{ { "name", F.getName() }, { "dem", dem }, { "decl", F.isDeclaration() }, { "ret", str(F.getReturnType()) } };
		if (auto* sp = F.getSubprogram()) { fo["file"] = sp->getFilename(); fo["line"] = (int)sp->getLine(); }
		json::Array as;
		for (auto& a : F.args()) {
			json::Object ao{ { "ty", str(a.getType()) }, { "name", a.getName() } };
			if (a.hasStructRetAttr()) { ao["sret"] = true; ao["sretTy"] = str(a.getParamStructRetType()); ao["size"] = (int64_t)DL.getTypeAllocSize(a.getParamStructRetType()); }
			if (a.hasByValAttr()) { ao["byval"] = true; ao["size"] = (int64_t)DL.getTypeAllocSize(a.getParamByValType()); }
			as.push_back(std::move(ao));
		}
		fo["args"] = std::move(as);
		fo["readnone"] = F.doesNotAccessMemory();
		fo["noreturn"] = F.doesNotReturn();
		if (F.isDeclaration()) { put(std::move(fo)); continue; }
		ids.clear();
		bbids.clear();
		int n = 0, b = 0;
		for (auto& BB : F) bbids[&BB] = b++;
		for (auto& I : instructions(F)) ids[&I] = n++;
		auto& SE = FAM.getResult<ScalarEvolutionAnalysis>(F);
		auto& LI = FAM.getResult<LoopAnalysis>(F);
		auto& DT = FAM.getResult<DominatorTreeAnalysis>(F);
		auto& PDT = FAM.getResult<PostDominatorTreeAnalysis>(F);
		json::Array bbs;
		for (auto& BB : F) {
			json::Object bo{ { "id", bbids[&BB] } };
			if (auto* nd = DT.getNode(&BB)) { if (nd->getIDom()) bo["idom"] = bbids[nd->getIDom()->getBlock()]; }
			else bo["dead"] = true;
			if (auto* nd = PDT.getNode(&BB)) { if (nd->getIDom() && nd->getIDom()->getBlock()) bo["ipdom"] = bbids[nd->getIDom()->getBlock()]; }
			if (auto* l = LI.getLoopFor(&BB)) bo["loop"] = bbids[l->getHeader()];
			json::Array su;
			for (auto* s : successors(&BB)) su.push_back(bbids[s]);
			bo["succ"] = std::move(su);
			json::Array is;
			for (auto& I : BB) {
				if (isa<DbgInfoIntrinsic>(I)) continue;
				json::Object io{ { "id", ids[&I] }, { "op", I.getOpcodeName() }, { "ty", str(I.getType()) } };
				json::Array ops;
				if (auto* cb = dyn_cast<CallBase>(&I)) {
					if (auto* cf = cb->getCalledFunction()) {
						io["callee"] = cf->getName();
						io["dem"] = demangle(cf->getName().str());
						if (cf->isIntrinsic()) io["intr"] = true;
					}
					else io["calleev"] = operandJ(cb->getCalledOperand());
					for (auto& a : cb->args()) ops.push_back(operandJ(a));
					json::Array at;
					for (unsigned i = 0; i < cb->arg_size(); ++i) {
						json::Object q;
						if (cb->paramHasAttr(i, Attribute::StructRet)) { q["sret"] = true; q["size"] = (int64_t)DL.getTypeAllocSize(cb->getParamStructRetType(i)); }
						if (cb->isByValArgument(i)) { q["byval"] = true; q["size"] = (int64_t)DL.getTypeAllocSize(cb->getParamByValType(i)); }
						if (cb->onlyReadsMemory(i)) q["ro"] = true;
						at.push_back(std::move(q));
					}
					io["at"] = std::move(at);
					if (cb->doesNotAccessMemory()) io["pure"] = true;
					if (cb->onlyReadsMemory()) io["ronly"] = true;
					if (cb->doesNotReturn()) io["noret"] = true;
				}
				else for (auto& op : I.operands()) ops.push_back(operandJ(op));
				io["ops"] = std::move(ops);
				if (auto* pe = dyn_cast<PossiblyExactOperator>(&I)) if (pe->isExact()) io["exact"] = true;
				if (auto* c = dyn_cast<CmpInst>(&I)) io["pred"] = CmpInst::getPredicateName(c->getPredicate());
				if (auto* p = dyn_cast<PHINode>(&I)) {
					json::Array inc;
					for (auto* x : p->blocks()) inc.push_back(bbids[x]);
					io["in"] = std::move(inc);
				}
				if (auto* ev = dyn_cast<ExtractValueInst>(&I)) { json::Array x; for (auto q : ev->indices()) x.push_back((int)q); io["idx"] = std::move(x); }
				if (auto* ev = dyn_cast<InsertValueInst>(&I)) { json::Array x; for (auto q : ev->indices()) x.push_back((int)q); io["idx"] = std::move(x); }
				if (auto* sv = dyn_cast<ShuffleVectorInst>(&I)) { json::Array x; for (auto q : sv->getShuffleMask()) x.push_back((int)q); io["mask"] = std::move(x); }
				if (auto* al = dyn_cast<AllocaInst>(&I)) { io["aty"] = str(al->getAllocatedType()); auto sz = al->getAllocationSize(DL); if (sz) io["size"] = (int64_t)sz->getFixedValue(); io["vn"] = al->getName(); }
				if (auto* ld = dyn_cast<LoadInst>(&I)) { io["size"] = (int64_t)DL.getTypeStoreSize(ld->getType()); if (ld->isVolatile() || ld->isAtomic()) io["vol"] = true; }
				if (auto* st = dyn_cast<StoreInst>(&I)) { io["size"] = (int64_t)DL.getTypeStoreSize(st->getValueOperand()->getType()); io["vty"] = str(st->getValueOperand()->getType()); if (st->isVolatile() || st->isAtomic()) io["vol"] = true; }
				if (auto* gep = dyn_cast<GetElementPtrInst>(&I)) {
					// decompose into base + const + sum(scale*var)
					unsigned bw = DL.getIndexSizeInBits(0);
					MapVector<Value*, APInt> vars;
					APInt c(bw, 0);
					if (gep->collectOffset(DL, bw, vars, c)) {
						io["goff"] = (int64_t)c.getSExtValue();
						json::Array va;
						for (auto& kv : vars) va.push_back(json::Array{ operandJ(kv.first), (int64_t)kv.second.getSExtValue() });
						io["gvar"] = std::move(va);
					}
				}
				if (auto* sw = dyn_cast<SwitchInst>(&I)) {
					json::Array cs;
					for (auto& c : sw->cases()) cs.push_back(json::Array{ constJ(c.getCaseValue()), bbids[c.getCaseSuccessor()] });
					io["cases"] = std::move(cs);
					io["def"] = bbids[sw->getDefaultDest()];
				}
				if (withScev && SE.isSCEVable(I.getType()) && !I.getType()->isVoidTy()) io["scev"] = scevJ(SE.getSCEVAtScope(SE.getSCEV(&I), LI.getLoopFor(&BB)));
				if (isa<FPMathOperator>(&I) && I.isFast()) io["fast"] = true;
				if (withLoc) io["loc"] = locJ(I);
				is.push_back(std::move(io));
			}
			bo["ins"] = std::move(is);
			bbs.push_back(std::move(bo));
		}
		fo["blocks"] = std::move(bbs);
		json::Array loops;
		for (Loop* L : LI.getLoopsInPreorder()) {
			json::Object lo{ { "header", bbids[L->getHeader()] }, { "depth", (int)L->getLoopDepth() } };
			if (L->getParentLoop()) lo["parent"] = bbids[L->getParentLoop()->getHeader()];
			json::Array bl, ex, exing;
			for (auto* x : L->blocks()) bl.push_back(bbids[x]);
			SmallVector<std::pair<BasicBlock*, BasicBlock*>, 4> ee;
			L->getExitEdges(ee);
			for (auto& e : ee) ex.push_back(json::Array{ bbids[e.first], bbids[e.second] });
			lo["blocks"] = std::move(bl);
			lo["exits"] = std::move(ex);
			if (auto* x = L->getLoopLatch()) lo["latch"] = bbids[x];
			if (auto* x = L->getLoopPreheader()) lo["pre"] = bbids[x];
			auto* btc = SE.getBackedgeTakenCount(L);
			if (!isa<SCEVCouldNotCompute>(btc)) lo["btc"] = scevJ(btc);
			json::Array eb;
			SmallVector<BasicBlock*, 4> exb;
			L->getExitingBlocks(exb);
			for (auto* x : exb) {
				auto* c = SE.getExitCount(L, x);
				json::Object q{ { "b", bbids[x] } };
				if (!isa<SCEVCouldNotCompute>(c)) q["count"] = scevJ(c);
				eb.push_back(std::move(q));
			}
			lo["exiting"] = std::move(eb);
			loops.push_back(std::move(lo));
		}
		fo["loops"] = std::move(loops);
		put(std::move(fo));
		FAM.clear(F, F.getName());
	}
	json::Array gl;
	for (GlobalVariable& G : M->globals()) {
		json::Object go{ { "name", G.getName() }, { "dem", demangle(G.getName().str()) }, { "const", G.isConstant() }, { "tls", G.isThreadLocal() }, { "decl", G.isDeclaration() }, { "ty", str(G.getValueType()) } };
		SmallVector<DIGlobalVariableExpression*, 2> gv;
		G.getDebugInfo(gv);
		if (!gv.empty()) { go["file"] = gv[0]->getVariable()->getFilename(); go["line"] = (int)gv[0]->getVariable()->getLine(); }
		if (G.hasInitializer() && G.isConstant()) go["init"] = constJ(G.getInitializer());
		gl.push_back(std::move(go));
	}
	root["globals"] = std::move(gl);
	json::Array op;
	for (auto& s : stats["opaque"]) op.push_back(s);
	root["opaque"] = std::move(op);
	std::string rest;
	raw_string_ostream rs(rest);
	rs << json::Value(std::move(root));
	rs.flush();
	os << "]," << rest.substr(1) << "\n";
	return 0;
}
