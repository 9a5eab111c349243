// Binds a harness to the generated C library: bindc IN OUT. IN is the harness, compiled against the C++ sources, linked with the C library.
// Every C++ library function that has a twin of the same name in the C library becomes a call of that twin, every global becomes its twin.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <map>
#include <set>
using namespace llvm;
static bool starts(std::string const& s, std::string const& p) { return s.compare(0, p.size(), p) == 0; }
static std::string ctype(std::string t) // the C library's containers, by what they hold
{
	static std::map<std::string, std::string> M = { { "unsigned char", "gen_u8" }, { "char", "gen_u8" }, { "long long", "gen_ssize" }, { "gen::Str", "gen_StrCached" }, { "gen::Token", "gen_Token" }, { "gen::Pool", "gen_Pool" }, { "gen::Arena", "gen_Arena" }, { "gen::ADT_Node", "gen_ADT_Node" }, { "gen::CodeTypename", "gen_CodeTypename" } };
	auto i = M.find(t); return i == M.end() ? "" : i->second;
}
static std::string table(std::string t) { return t == "gen::Str" ? "gen_StringTable" : t == "gen::Macro" ? "MacroTable" : ""; }
static std::vector<std::string> twins(std::string d) // names the twin may have
{
	std::vector<std::string> r; size_t paren = std::string::npos; int depth = 0;
	for (size_t i = 0; i < d.size(); i++) { if (d[i] == '<') depth++; else if (d[i] == '>') depth--; else if (d[i] == '(' && !depth) { paren = i; break; } }
	if (paren == std::string::npos) paren = d.size(); else if (d.find("::", paren) != std::string::npos && d.find(")::", paren) != std::string::npos) return r; // a local
	std::string q = d.substr(0, paren); depth = 0; size_t at = 0; for (size_t i = q.size(); i-- > 0;) { if (q[i] == '>') depth++; else if (q[i] == '<') depth--; else if (q[i] == ' ' && !depth) { at = i + 1; break; } } q = q.substr(at);
	if (!starts(q, "gen::")) return r; q = q.substr(5); std::string targ; size_t lt = q.find('<'); if (lt != std::string::npos) { targ = q.substr(lt + 1, q.rfind('>') - lt - 1); q = q.substr(0, lt); }
	if (q.find("::") != std::string::npos) return r;
	if (targ.size())
	{
		if (starts(q, "array_")) { std::string c = ctype(targ); if (c.size()) r.push_back("gen_Array_" + c + q.substr(5)); if (starts(targ, "gen::HashTableEntry<")) { c = table(targ.substr(20, targ.size() - 21)); if (c.size()) { r.push_back((starts(c, "gen_") ? "gen_Arr_HTE_" : "gen_Arr_HTE_") + (starts(c, "gen_") ? c.substr(4) : c) + q.substr(5)); } } }
		if (starts(q, "hashtable_")) { std::string c = table(targ); if (c.size()) { r.push_back(c + q.substr(9)); r.push_back(c + "_" + q.substr(9)); } }
		return r;
	}
	r.push_back("gen_" + q); for (auto p : { "code_", "def_", "constructor_", "destructor_" }) if (starts(q, p)) r.push_back("gen_" + std::string(p) + "_" + q.substr(strlen(p))); r.push_back(q); return r;
}
static bool castable(Type* a, Type* b, DataLayout const& dl) { if (a == b) return true; if (!a->isSized() || !b->isSized()) return false; return (a->isIntOrPtrTy() && b->isIntOrPtrTy()) && dl.getTypeSizeInBits(a) == dl.getTypeSizeInBits(b); }
static Value* cast(IRBuilder<>& b, Value* v, Type* t) { if (v->getType() == t) return v; return v->getType()->isPointerTy() ? b.CreatePtrToInt(v, t) : t->isPointerTy() ? b.CreateIntToPtr(v, t) : b.CreateBitCast(v, t); }
static bool fits(Function* f, Function* c, DataLayout const& dl)
{
	if (f->arg_size() != c->arg_size() || f->isVarArg() != c->isVarArg() || f->hasStructRetAttr() != c->hasStructRetAttr()) return false;
	if (!f->getReturnType()->isVoidTy() && !castable(f->getReturnType(), c->getReturnType(), dl)) return false; if (f->getReturnType()->isVoidTy() != c->getReturnType()->isVoidTy()) return false;
	for (unsigned i = 0; i < f->arg_size(); i++) if (!castable(f->getArg(i)->getType(), c->getArg(i)->getType(), dl)) return false;
	return true;
}
int main(int argc, char** argv)
{
	LLVMContext x; SMDiagnostic e; auto m = parseIRFile(argv[1], e, x); if (!m) { e.print("bindc", errs()); return 2; } auto& dl = m->getDataLayout(); int bound = 0, vars = 0, rc = 0;
	std::map<std::string, StructType*> types; for (auto* t : m->getIdentifiedStructTypes()) if (t->hasName() && t->isSized()) types[t->getName().str()] = t;
	for (auto& p : types) for (auto kind : { "struct.", "union." }) { std::string k = std::string(kind) + "gen::"; if (!starts(p.first, k)) continue; for (auto kc : { "struct.gen_", "union.gen_" }) { auto c = types.find(kc + p.first.substr(k.size())); if (c != types.end() && dl.getTypeAllocSize(p.second) != dl.getTypeAllocSize(c->second)) { errs() << "the size of " << p.first.substr(k.size()) << " differs between the C++ and the C library\n"; rc = 4; } } }
	if (auto* o = m->getFunction("other_crc32")) if (auto* c = m->getFunction("gen_crc32")) { c->replaceAllUsesWith(o); c->setName("gen_crc32_real"); o->setName("gen_crc32"); }
	std::vector<Function*> fs; for (auto& f : *m) if (starts(f.getName().str(), "_ZN3gen") || starts(f.getName().str(), "_ZNK3gen")) fs.push_back(&f);
	std::set<std::string> none;
	for (auto* f : fs)
	{
		std::string d = demangle(f->getName().str()); Function* c = nullptr; for (auto& n : twins(d)) { auto* t = m->getFunction(n); if (t && !t->isDeclaration() && t != f && fits(f, t, dl)) { c = t; break; } }
		if (!c) { if (!f->isDeclaration() && twins(d).size()) none.insert(d); continue; }
		bound++;
		if (f->isVarArg())
		{
			std::vector<CallBase*> calls; for (auto* u : f->users()) if (auto* cb = dyn_cast<CallBase>(u)) if (cb->getCalledOperand() == f) calls.push_back(cb);
			for (auto* cb : calls)
			{
				IRBuilder<> b(cb); std::vector<Value*> a; for (unsigned i = 0; i < cb->arg_size(); i++) a.push_back(i < c->arg_size() ? cast(b, cb->getArgOperand(i), c->getArg(i)->getType()) : cb->getArgOperand(i));
				auto* n = b.CreateCall(c->getFunctionType(), c, a); n->setCallingConv(c->getCallingConv()); n->setAttributes(cb->getAttributes()); if (auto dbg = cb->getDebugLoc()) n->setDebugLoc(dbg);
				if (!cb->getType()->isVoidTy()) cb->replaceAllUsesWith(cast(b, n, cb->getType())); cb->eraseFromParent();
			}
			f->replaceAllUsesWith(c); continue;
		}
		f->deleteBody(); f->setSubprogram(nullptr); f->setComdat(nullptr); f->setLinkage(GlobalValue::InternalLinkage);
		auto* bb = BasicBlock::Create(x, "", f); IRBuilder<> b(bb); std::vector<Value*> a; for (unsigned i = 0; i < f->arg_size(); i++) a.push_back(cast(b, f->getArg(i), c->getArg(i)->getType()));
		auto* n = b.CreateCall(c->getFunctionType(), c, a); n->setCallingConv(c->getCallingConv()); if (c->hasStructRetAttr()) n->addParamAttr(0, c->getParamAttribute(0, Attribute::StructRet)); if (f->getReturnType()->isVoidTy()) b.CreateRetVoid(); else b.CreateRet(cast(b, n, f->getReturnType()));
	}
	for (auto& g : m->globals()) if (starts(g.getName().str(), "_ZN3gen"))
		for (auto& n : twins(demangle(g.getName().str()))) { auto* t = m->getGlobalVariable(n, true); if (!t || t == &g) continue; if (dl.getTypeAllocSize(t->getValueType()) != dl.getTypeAllocSize(g.getValueType())) { errs() << "the size of " << n << " differs between the C++ and the C library\n"; rc = 4; break; } g.replaceAllUsesWith(t); vars++; break; }
	if (argc > 3) { for (auto& n : none) outs() << "no twin: " << n << "\n"; outs() << bound << " functions and " << vars << " globals bound\n"; }
	std::error_code ec; raw_fd_ostream o(argv[2], ec); WriteBitcodeToFile(*m, o); return rc;
}
