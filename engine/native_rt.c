// Runtime for replaying one assignment of the inputs natively. Everything the library sees uses the Win64 convention.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <stdarg.h>
#define W __attribute__((ms_abi))
typedef unsigned long long u64;
static u64* in; static size_t nin, pin; static int fatal_ok; static int ran_out;
static u64 next(void) { if (pin < nin) return in[pin++]; ran_out = 1; return 0; }
extern W void harness(void);
static struct { const char* p; u64 n; char* copy; } blk[4096]; static int nblk;
static void finish(int code, const char* what, const char* msg) {
	if (code == 0) for (int i = 0; i < nblk; i++) if (blk[i].copy && memcmp(blk[i].copy, blk[i].p, blk[i].n)) { code = 42; what = "check"; msg = "an input that must not be written was written"; }
	printf("REPLAY %s %s\n", what, msg); fflush(stdout); _exit(code);
}
static void on_ill(int s) { if (fatal_ok) finish(0, "rejected", "fatal error accepted here"); finish(43, "fatal", "the library stopped with a fatal error"); }
W void sym_bytes(void* p, u64 n, const char* name) { for (u64 i = 0; i < n; i++) ((unsigned char*)p)[i] = next(); }
W int sym_range(int lo, int hi, const char* name) { u64 v = next(); int x = (int)v; if (x < lo || x > hi) x = lo; return x; }
W u64 sym_u64(const char* name) { return next(); }
W void sym_assume(int c) { if (!c) finish(0, "assumed-away", ""); }
W void sym_check(int c, const char* msg) { if (!c) finish(42, "check", msg); }
W void sym_known(const char* id, const char* msg) { finish(45, "known", id); }
W void sym_reach(const char* label) { printf("REACH %s\n", label); }
W long long sym_concrete(long long v) { return v; }
W void sym_fatal_ok(int on) { fatal_ok = on; }
W void* sym_alloc(u64 n) { char* p = malloc(n); memset(p, 0xCD, n); if (nblk < 4096) { blk[nblk].p = p; blk[nblk].n = n; blk[nblk].copy = 0; nblk++; } return p; }
W void sym_free(void* p) { for (int i = 0; i < nblk; i++) if (blk[i].p == p) { free(blk[i].copy); blk[i] = blk[--nblk]; break; } free(p); }
W void sym_readonly(const void* p, int on) {
	for (int i = 0; i < nblk; i++) if ((const char*)p >= blk[i].p && (const char*)p < blk[i].p + blk[i].n) {
		if (on) { blk[i].copy = malloc(blk[i].n); memcpy(blk[i].copy, blk[i].p, blk[i].n); }
		else { if (blk[i].copy && memcmp(blk[i].copy, blk[i].p, blk[i].n)) finish(42, "check", "an input that must not be written was written"); blk[i].copy = 0; }
	}
}
W void sym_note(const char* msg, long long v) { printf("NOTE %s %lld\n", msg, v); fflush(stdout); }
W int sym_option(const char* name) { char b[128]; snprintf(b, sizeof b, "OPT_%s", name); const char* v = getenv(b); return v ? atoi(v) : -1; }
W void* _aligned_malloc(u64 n, u64 a) { void* p = 0; if (a < 8) a = 8; if (posix_memalign(&p, a, n ? n : 1)) return 0; memset(p, 0xCD, n); return p; }
W void _aligned_free(void* p) { free(p); }
W int __mingw_vfprintf(void* f, const char* fmt, void* va) { return 0; }
W void* __acrt_iob_func(unsigned i) { return 0; }
W void ExitProcess(unsigned c) { finish(0, "exit", ""); }
W void* GetStdHandle(unsigned i) { return (void*)(u64)(i & 0xff); }
W __attribute__((weak)) unsigned GetLastError(void) { return 0; }
#define WEAK0(n) W __attribute__((weak)) u64 n(void) { finish(47, "unsupported", #n); return 0; }
WEAK0(CloseHandle) WEAK0(CreateFileW) WEAK0(GetSystemInfo) WEAK0(MultiByteToWideChar) WEAK0(ReadFile) WEAK0(SetFilePointerEx) WEAK0(VirtualAlloc) WEAK0(VirtualFree) WEAK0(VirtualQuery) WEAK0(WriteFile)
int main(int argc, char** argv) {
	FILE* f = fopen(argv[1], "r"); if (!f) return 46;
	size_t cap = 0; u64 v; while (fscanf(f, "%llu", &v) == 1) { if (nin == cap) in = realloc(in, (cap = cap ? cap * 2 : 64) * 8); in[nin++] = v; } fclose(f);
	signal(SIGILL, on_ill); signal(SIGTRAP, on_ill); alarm(argc > 2 ? atoi(argv[2]) : 20);
	harness();
	finish(0, "ok", "");
}
