// Every harness is one translation unit: the library's own sources plus a driver.
#pragma once
#if defined(SINGLE) // the generated single header
#define GEN_IMPLEMENTATION
#include "gen.hpp"
#elif defined(SEGMENTED) // the generated, segmented library
#include "gen.cpp"
#include "gen.builder.cpp"
#include "gen.scanner.cpp"
#else
#include "gen.cpp"
#endif
#include "../engine/sym.h"
#undef min
#undef max
using namespace gen;
#ifdef CLIB // bound to the C library (engine/bindc.cpp), in which the macros the library defines itself have its prefix
#define OWN_MACRO "gen_enum_underlying"
#else
#define OWN_MACRO "enum_underlying"
#endif
#include "winfiles.hpp"

#define CHECK(c, m)  sym_check((c) ? 1 : 0, m)
#define ASSUME(c)    sym_assume((c) ? 1 : 0)
#define REACH(l)     sym_reach(l)
#undef name
#undef code
#undef args
#define ENTRY(n)     extern "C" void n()

static inline gen::Str mkstr(char const* p, long long n) { gen::Str s = { p, n }; return s; }
static inline bool bytes_eq(char const* a, char const* b, long long n) { bool r = true; for (long long i = 0; i < n; i++) r = r & (a[i] == b[i]); return r; }
static inline long long zlen(char const* s) { long long n = 0; while (s[n]) n++; return n; }
static inline bool str_is(gen::Str a, char const* lit) { long long n = zlen(lit); return a.Len == n && bytes_eq(a.Ptr, lit, n); }
// A copy of n bytes in an object of exactly n bytes (no terminator): any access beyond it is a violation.
static inline char* exact(char const* src, long long n) { char* p = (char*)sym_alloc(n ? n : 1); for (long long i = 0; i < n; i++) p[i] = src[i]; return p; }
static inline int pick(int lo, int hi, char const* name) { return (int)sym_concrete(sym_range(lo, hi, name)); } // one path per value
static inline int option(char const* name, int def) { int v = sym_option(name); return v < 0 ? def : v; }

// A context with small blocks so that growth paths are within reach; every size here is a user-visible setting.
static gen::Context g_ctx;
static inline void ctx_small()
{
	g_ctx.CodePool_NumBlocks = 64; g_ctx.SizePer_StringArena = 4096; g_ctx.InitSize_BuilderBuffer = 1024; g_ctx.InitSize_LexerTokens = 64;
	g_ctx.InitSize_Fallback_Allocator_Bucket_Size = 1 << 16;
	gen::init(&g_ctx);
}
