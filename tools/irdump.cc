// irdump: reads one LLVM bitcode/IR module and prints it as JSON for the VC generator.
// The only transformation applied here is lowering of GEPs to byte offsets.
#include "llvm/IR/Module.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/ADT/APFloat.h"
#include "llvm/ADT/DenseMap.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include <functional>
using namespace llvm;

static const DataLayout *DL;
typedef DenseMap<const Value *, int> IdMap;

static std::string tyS(Type *T) {
	if (T->isVoidTy()) return "void";
	if (T->isIntegerTy()) return "i" + std::to_string(T->getIntegerBitWidth());
	if (T->isPointerTy()) return "ptr";
	if (T->isDoubleTy()) return "double";
	if (T->isFloatTy()) return "float";
	if (T->isX86_FP80Ty()) return "x86_fp80";
	if (auto *S = dyn_cast<StructType>(T)) {
		if (S->isOpaque()) return "opaque";
		std::string r = "{";
		for (unsigned i = 0; i < S->getNumElements(); ++i) {
			if (i) r += ",";
			r += tyS(S->getElementType(i)) + "@" + std::to_string(DL->getStructLayout(S)->getElementOffset(i));
		}
		return r + "}" + std::to_string(DL->getTypeAllocSize(T));
	}
	if (auto *A = dyn_cast<ArrayType>(T)) return "[" + std::to_string(A->getNumElements()) + "x" + tyS(A->getElementType()) + "]";
	std::string s; raw_string_ostream os(s); T->print(os); return "?" + os.str();
}

static json::Value constV(const Constant *C);

static bool constGep(const Constant *C, std::string &g, int64_t &off) {
	if (auto *G = dyn_cast<GlobalValue>(C)) { g = G->getName().str(); off = 0; return true; }
	if (auto *CE = dyn_cast<ConstantExpr>(C)) {
		if (CE->getOpcode() == Instruction::GetElementPtr) {
			APInt o(64, 0);
			if (cast<GEPOperator>(CE)->accumulateConstantOffset(*DL, o)) {
				int64_t inner;
				if (!constGep(CE->getOperand(0), g, inner)) return false;
				off = inner + o.getSExtValue();
				return true;
			}
		} else if (CE->getOpcode() == Instruction::BitCast || CE->getOpcode() == Instruction::AddrSpaceCast) {
			return constGep(CE->getOperand(0), g, off);
		}
	}
	return false;
}

static json::Value constV(const Constant *C) {
	json::Object o;
	o["t"] = tyS(C->getType());
	if (auto *I = dyn_cast<ConstantInt>(C)) {
		SmallString<40> s; I->getValue().toString(s, 10, false); o["k"] = "i"; o["v"] = s.str().str(); return o;
	}
	if (auto *F = dyn_cast<ConstantFP>(C)) {
		SmallString<40> s; F->getValueAPF().bitcastToAPInt().toString(s, 10, false); o["k"] = "f"; o["v"] = s.str().str(); return o;
	}
	if (isa<ConstantPointerNull>(C)) { o["k"] = "null"; return o; }
	if (isa<UndefValue>(C)) { o["k"] = "undef"; return o; }
	std::string g; int64_t off;
	if (C->getType()->isPointerTy() && constGep(C, g, off)) { o["k"] = "g"; o["v"] = g; o["off"] = off; return o; }
	if (isa<ConstantAggregateZero>(C)) { o["k"] = "zero"; return o; }
	if (auto *A = dyn_cast<ConstantAggregate>(C)) {
		json::Array a; for (auto &op : A->operands()) a.push_back(constV(cast<Constant>(op)));
		o["k"] = "agg"; o["v"] = std::move(a); return o;
	}
	if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
		json::Array a; for (unsigned i = 0; i < D->getNumElements(); ++i) a.push_back(constV(D->getElementAsConstant(i)));
		o["k"] = "agg"; o["v"] = std::move(a); return o;
	}
	if (auto *CE = dyn_cast<ConstantExpr>(C)) {
		json::Array a; for (auto &op : CE->operands()) a.push_back(constV(cast<Constant>(op)));
		o["k"] = "ce"; o["op"] = CE->getOpcodeName(); o["v"] = std::move(a); return o;
	}
	o["k"] = "unknown";
	return o;
}

static json::Value val(const Value *V, IdMap &ids) {
	if (auto *C = dyn_cast<Constant>(V)) return constV(C);
	if (auto *B = dyn_cast<BasicBlock>(V)) return json::Object{{"k", "b"}, {"v", ids[B]}};
	if (isa<MetadataAsValue>(V)) return json::Object{{"k", "md"}};
	if (isa<InlineAsm>(V)) return json::Object{{"k", "asm"}};
	return json::Object{{"k", "r"}, {"v", ids.lookup(V)}, {"t", tyS(V->getType())}};
}

// flatten global initialiser: list of [offset, size, value] for scalars
static void flat(const Constant *C, uint64_t off, json::Array &out) {
	Type *T = C->getType();
	if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return; // zero default
	if (auto *S = dyn_cast<StructType>(T)) {
		for (unsigned i = 0; i < S->getNumElements(); ++i)
			flat(C->getAggregateElement(i), off + DL->getStructLayout(S)->getElementOffset(i), out);
		return;
	}
	if (auto *A = dyn_cast<ArrayType>(T)) {
		uint64_t es = DL->getTypeAllocSize(A->getElementType());
		for (unsigned i = 0; i < A->getNumElements(); ++i) flat(C->getAggregateElement(i), off + i * es, out);
		return;
	}
	out.push_back(json::Array{(int64_t)off, (int64_t)(uint64_t)DL->getTypeStoreSize(T), constV(C)});
}

int main(int argc, char **argv) {
	LLVMContext ctx; SMDiagnostic err;
	auto M = parseIRFile(argv[1], err, ctx);
	if (!M) { err.print(argv[0], errs()); return 2; }
	DL = &M->getDataLayout();
	json::Object root, gl, fns;
	for (auto &G : M->globals()) {
		json::Object o;
		o["const"] = G.isConstant();
		o["decl"] = G.isDeclaration();
		if (G.getValueType()->isSized()) o["size"] = (int64_t)(uint64_t)DL->getTypeAllocSize(G.getValueType());
		o["ty"] = tyS(G.getValueType());
		o["internal"] = G.hasLocalLinkage();
		if (G.hasInitializer()) { json::Array a; flat(G.getInitializer(), 0, a); o["init"] = std::move(a); }
		gl[G.getName().str()] = std::move(o);
	}
	json::Object al;
	for (auto &A : M->aliases()) {
		std::string g; int64_t off;
		if (constGep(A.getAliasee(), g, off)) al[A.getName().str()] = g;
	}
	root["aliases"] = std::move(al);
	for (auto &F : *M) {
		json::Object fo;
		fo["dem"] = demangle(F.getName().str());
		fo["decl"] = F.isDeclaration();
		fo["internal"] = F.hasLocalLinkage();
		fo["ret"] = tyS(F.getReturnType());
		fo["noreturn"] = F.doesNotReturn();
		fo["nounwind"] = F.doesNotThrow();
		fo["vararg"] = F.isVarArg();
		IdMap ids; int n = 1;
		json::Array args;
		for (auto &A : F.args()) {
			ids[&A] = n++;
			json::Object ao; ao["id"] = ids[&A]; ao["t"] = tyS(A.getType()); ao["name"] = A.getName().str();
			if (A.hasStructRetAttr()) { ao["sret"] = (int64_t)(uint64_t)DL->getTypeAllocSize(A.getParamStructRetType()); ao["sty"] = tyS(A.getParamStructRetType()); }
			if (A.hasByValAttr()) ao["byval"] = (int64_t)(uint64_t)DL->getTypeAllocSize(A.getParamByValType());
			args.push_back(std::move(ao));
		}
		fo["args"] = std::move(args);
		if (auto *SP = F.getSubprogram()) {
			fo["file"] = SP->getFile() ? (SP->getFile()->getDirectory() + "/" + SP->getFile()->getFilename()).str() : "";
			if (SP->getFile() && SP->getFile()->getFilename().starts_with("/")) fo["file"] = SP->getFile()->getFilename().str();
			fo["line"] = (int64_t)SP->getLine();
		}
		if (!F.isDeclaration()) {
			int b = 0;
			for (auto &B : F) { ids[&B] = b++; for (auto &I : B) ids[&I] = n++; }
			json::Array blocks;
			for (auto &B : F) {
				json::Array insts;
				for (auto &I : B) {
					if (isa<DbgInfoIntrinsic>(&I)) continue;
					json::Object io;
					io["op"] = I.getOpcodeName();
					io["id"] = ids[&I];
					io["t"] = tyS(I.getType());
					if (auto &L = I.getDebugLoc()) io["line"] = (int64_t)L.getLine();
					json::Array ops;
					if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
						APInt off(64, 0); MapVector<Value *, APInt> vo;
						if (!G->collectOffset(*DL, 64, vo, off)) errs() << "collectOffset failed\n";
						io["off"] = off.getSExtValue();
						ops.push_back(val(G->getPointerOperand(), ids));
						json::Array sc;
						for (auto &p : vo) { ops.push_back(val(p.first, ids)); sc.push_back(p.second.getSExtValue()); }
						io["scale"] = std::move(sc);
						io["inbounds"] = G->isInBounds();
					} else if (auto *C = dyn_cast<CallBase>(&I)) {
						for (auto &A : C->args()) ops.push_back(val(A.get(), ids));
						io["callee"] = val(C->getCalledOperand(), ids);
						io["nounwind"] = C->doesNotThrow();
						json::Array bv; for (unsigned i = 0; i < C->arg_size(); ++i) bv.push_back(C->isByValArgument(i) ? (int64_t)(uint64_t)DL->getTypeAllocSize(C->getParamByValType(i)) : (int64_t)0);
						io["byval"] = std::move(bv);
						if (auto *IV = dyn_cast<InvokeInst>(C)) { io["normal"] = ids[IV->getNormalDest()]; io["unwind"] = ids[IV->getUnwindDest()]; }
					} else if (auto *P = dyn_cast<PHINode>(&I)) {
						json::Array in;
						for (unsigned i = 0; i < P->getNumIncomingValues(); ++i)
							in.push_back(json::Array{ids[P->getIncomingBlock(i)], val(P->getIncomingValue(i), ids)});
						io["in"] = std::move(in);
					} else if (auto *S = dyn_cast<SwitchInst>(&I)) {
						ops.push_back(val(S->getCondition(), ids));
						io["default"] = ids[S->getDefaultDest()];
						json::Array cs;
						for (auto &c : S->cases()) cs.push_back(json::Array{constV(c.getCaseValue()), ids[c.getCaseSuccessor()]});
						io["cases"] = std::move(cs);
					} else if (auto *Br = dyn_cast<BranchInst>(&I)) {
						if (Br->isConditional()) ops.push_back(val(Br->getCondition(), ids));
						json::Array s; for (unsigned k = 0; k < Br->getNumSuccessors(); ++k) s.push_back(ids[Br->getSuccessor(k)]);
						io["succ"] = std::move(s);
					} else if (auto *LP = dyn_cast<LandingPadInst>(&I)) {
						io["cleanup"] = LP->isCleanup();
						json::Array cl;
						for (unsigned i = 0; i < LP->getNumClauses(); ++i)
							cl.push_back(json::Object{{"catch", LP->isCatch(i)}, {"v", constV(LP->getClause(i))}});
						io["clauses"] = std::move(cl);
					} else {
						for (auto &o : I.operands()) ops.push_back(val(o.get(), ids));
						if (auto *C = dyn_cast<CmpInst>(&I)) io["pred"] = CmpInst::getPredicateName(C->getPredicate()).str();
						if (auto *A = dyn_cast<AllocaInst>(&I)) { io["size"] = (int64_t)(uint64_t)DL->getTypeAllocSize(A->getAllocatedType()); io["aty"] = tyS(A->getAllocatedType()); io["name"] = A->getName().str(); }
						if (auto *S = dyn_cast<StoreInst>(&I)) { io["sty"] = tyS(S->getValueOperand()->getType()); io["size"] = (int64_t)(uint64_t)DL->getTypeStoreSize(S->getValueOperand()->getType()); }
						if (isa<LoadInst>(&I)) io["size"] = (int64_t)(uint64_t)DL->getTypeStoreSize(I.getType());
						if (auto *E = dyn_cast<ExtractValueInst>(&I)) { json::Array a; for (auto x : E->indices()) a.push_back((int64_t)x); io["idx"] = std::move(a); }
						if (auto *E = dyn_cast<InsertValueInst>(&I)) { json::Array a; for (auto x : E->indices()) a.push_back((int64_t)x); io["idx"] = std::move(a); }
						if (auto *O = dyn_cast<OverflowingBinaryOperator>(&I)) { if (O->hasNoSignedWrap()) io["nsw"] = true; if (O->hasNoUnsignedWrap()) io["nuw"] = true; }
					}
					io["ops"] = std::move(ops);
					insts.push_back(std::move(io));
				}
				json::Array preds;
				blocks.push_back(json::Object{{"id", ids[&B]}, {"name", B.getName().str()}, {"insts", std::move(insts)}});
			}
			fo["blocks"] = std::move(blocks);
		}
		fns[F.getName().str()] = std::move(fo);
	}
	// class layouts from debug info (names only; offsets are the compiler's)
	DebugInfoFinder dif; dif.processModule(*M);
	json::Object types;
	for (auto *T : dif.types()) {
		auto *C = dyn_cast<DICompositeType>(T);
		if (!C || C->isForwardDecl() || C->getName().empty()) continue;
		unsigned tag = C->getTag();
		if (tag != dwarf::DW_TAG_class_type && tag != dwarf::DW_TAG_structure_type && tag != dwarf::DW_TAG_enumeration_type) continue;
		std::string qn = C->getName().str();
		for (DIScope *sc = C->getScope(); sc; sc = sc->getScope()) {
			if (isa<DINamespace>(sc) || isa<DICompositeType>(sc)) {
				StringRef n = sc->getName(); qn = (n.empty() ? std::string("(anonymous namespace)") : n.str()) + "::" + qn;
			}
		}
		if (StringRef(qn).starts_with("std::") || StringRef(qn).starts_with("__gnu_cxx::")) continue;
		json::Object o, virt; json::Array mem;
		o["size"] = (int64_t)(C->getSizeInBits() / 8);
		std::function<void(const DICompositeType *, uint64_t)> walk = [&](const DICompositeType *CC, uint64_t base) {
			for (auto *E : CC->getElements()) {
				if (auto *D = dyn_cast_or_null<DIDerivedType>(E)) {
					if (D->getTag() == dwarf::DW_TAG_member && !D->isStaticMember()) {
						std::string bt; uint64_t sz = D->getSizeInBits() / 8;
						const DIType *B = D->getBaseType();
						const DIType *S = B;
						while (S && isa<DIDerivedType>(S) && (S->getTag() == dwarf::DW_TAG_typedef || S->getTag() == dwarf::DW_TAG_const_type)) S = cast<DIDerivedType>(S)->getBaseType();
						if (S) { bt = S->getName().str(); if (S->getTag() == dwarf::DW_TAG_pointer_type) bt = "*"; if (S->getTag() == dwarf::DW_TAG_array_type) bt = "[]"; if (S->getTag() == dwarf::DW_TAG_union_type && D->getName().empty()) { walk(cast<DICompositeType>(S), base + D->getOffsetInBits() / 8); continue; } }
						mem.push_back(json::Array{D->getName().str(), (int64_t)(base + D->getOffsetInBits() / 8), (int64_t)sz, bt});
					} else if (D->getTag() == dwarf::DW_TAG_inheritance) {
						const DIType *S = D->getBaseType();
						while (S && isa<DIDerivedType>(S)) S = cast<DIDerivedType>(S)->getBaseType();
						if (auto *BC = dyn_cast_or_null<DICompositeType>(S)) walk(BC, base + D->getOffsetInBits() / 8);
					}
				} else if (auto *SP = dyn_cast_or_null<DISubprogram>(E)) {
					if (SP->getVirtuality()) { if (!virt.get(std::to_string(SP->getVirtualIndex()))) virt[std::to_string(SP->getVirtualIndex())] = demangle(SP->getLinkageName().str()); }
				} else if (auto *En = dyn_cast_or_null<DIEnumerator>(E)) {
					mem.push_back(json::Array{En->getName().str(), (int64_t)En->getValue().getSExtValue()});
				}
			}
		};
		walk(C, 0);
		o["members"] = std::move(mem); o["virt"] = std::move(virt);
		if (!types.get(qn)) types[qn] = std::move(o);
	}
	// anonymous enums: enumerators by name
	json::Object enums;
	for (auto *T : dif.types()) if (auto *C = dyn_cast<DICompositeType>(T)) if (C->getTag() == dwarf::DW_TAG_enumeration_type)
		for (auto *E : C->getElements()) if (auto *En = dyn_cast_or_null<DIEnumerator>(E)) enums[En->getName().str()] = En->getValue().getSExtValue();
	root["enums"] = std::move(enums);
	root["types"] = std::move(types);
	root["globals"] = std::move(gl);
	root["functions"] = std::move(fns);
	outs() << json::Value(std::move(root)) << "\n";
	return 0;
}
