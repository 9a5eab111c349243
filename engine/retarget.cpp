// Rewrites a harness module compiled for the library's Windows target so that the same code runs natively here:
// same data layout of every type, Win64 calling convention kept, only the object format differs.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Bitcode/BitcodeWriter.h>
using namespace llvm;
int main(int argc, char** argv) {
	LLVMContext c; SMDiagnostic e; auto m = parseIRFile(argv[1], e, c); if (!m) { e.print("retarget", errs()); return 2; }
	bool asan = argc > 3;
	m->setTargetTriple("x86_64-unknown-linux-gnu");
	std::string dl = m->getDataLayoutStr(); size_t p = dl.find("m:w"); if (p != std::string::npos) dl.replace(p, 3, "m:e"); m->setDataLayout(dl);
	for (auto& f : *m) {
		f.setDLLStorageClass(GlobalValue::DefaultStorageClass);
		if (f.isIntrinsic()) continue;
		f.setCallingConv(CallingConv::Win64);
		if (!f.isDeclaration() && asan) f.addFnAttr(Attribute::SanitizeAddress);
		for (auto& b : f) for (auto& i : b) if (auto* cb = dyn_cast<CallBase>(&i)) { if (cb->isInlineAsm()) continue; Function* t = cb->getCalledFunction(); if (t && t->isIntrinsic()) continue; cb->setCallingConv(CallingConv::Win64); }
	}
	for (auto& g : m->globals()) g.setDLLStorageClass(GlobalValue::DefaultStorageClass);
	if (auto* g = m->getGlobalVariable("llvm.global_ctors")) { // constructors are called with the native convention, without arguments: compatible
		(void)g;
	}
	std::error_code ec; raw_fd_ostream o(argv[2], ec); WriteBitcodeToFile(*m, o); return 0;
}
