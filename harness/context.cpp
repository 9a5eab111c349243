#include "common.hpp"
#include "gram.hpp"
#include "decls.hpp"
// The sizes in the context, the length of what is printed, and what was done before make no difference to what is read and printed.
enum { NSIZES = 20 };
static void sizes(Context* c, int v)
{
	c->CodePool_NumBlocks = 64; c->SizePer_StringArena = 4096; c->InitSize_BuilderBuffer = 1024; c->InitSize_LexerTokens = 64; c->InitSize_Fallback_Allocator_Bucket_Size = 1 << 16;
	bool all = v == 14 || v == 15;
	if (v == 0 || v == 10 || all) c->CodePool_NumBlocks = 1;
	if (v == 1) c->CodePool_NumBlocks = 3;
	if (v == 2 || v == 11 || all) c->SizePer_StringArena = 40;
	if (v == 3) c->SizePer_StringArena = 100;
	if (v == 4 || all) c->InitSize_LexerTokens = 1;
	if (v == 5) c->InitSize_LexerTokens = 2;
	if (v == 6 || v == 15) c->InitSize_Fallback_Allocator_Bucket_Size = 200;
	if (v == 7 || v == 14) c->InitSize_Fallback_Allocator_Bucket_Size = 5000;
	if (v == 8 || all) c->Max_StrCacheLength = 1;
	if (v == 9) c->Max_StrCacheLength = 4;
	if (v == 10 || all) c->InitSize_CodePoolsArray = 1;
	if (v == 11 || all) c->InitSize_StringArenasArray = 1;
	if (v == 12 || all) c->InitSize_BuilderBuffer = 1;
	if (v == 13 || all) c->Max_CommentLineLength = 1;
	if (v == 16 || v == 17) { AllocatorInfo h = heap(); c->Allocator_DyanmicContainers = h; c->Allocator_Pool = h; c->Allocator_StrCache = h; c->Allocator_Temp = h; }
	if (v == 17) { c->CodePool_NumBlocks = 2; c->SizePer_StringArena = 72; c->InitSize_LexerTokens = 1; }
	if (v == 18) c->Allocator_Temp = heap();
	if (v == 19) { c->Allocator_Pool = heap(); c->Allocator_StrCache = heap(); c->CodePool_NumBlocks = 1; c->SizePer_StringArena = 33; }
}
static bool text(int w, int k)
{
	skip_ = false; Name cn; bool in = w == 1; fresh();
	if (w == 1) { lit("class "); cn = id(); lit("{ "); } if (w == 2) lit("namespace N1{ ");
	decl(k, in ? &cn : nullptr); if (w == 1) lit(" };"); if (w == 2) lit(" }");
	return !skip_;
}
static CodeBody read(char const* m)
{
	CodeBody b = parse_global_body(source()); CHECK(b && b->Type == CT_Global_Body && b->NumEntries >= 1, "it is read"); return b;
}
static void shown(CodeBody b) { StrBuilder o = code_to_strbuilder((Code)b); bool ok = same_tokens(X.b, X.n, o, strbuilder_length(o)); if (!ok) { sym_note("got:", 0); sym_note(o, 0); sym_note(g_why, 0); } CHECK(ok, "it is printed as written"); }
ENTRY(h_ctx_sizes)
{
	g_symbolic = 0; int v = pick(0, NSIZES - 1, "sizes"), k = pick(0, NKINDS - 1, "kind"), w = pick(0, 2, "where"); if (!text(w, k)) return;
	sizes(&g_ctx, v); gen::init(&g_ctx);
	CodeBody a = read(0); shown(a); Text first = X;
	fresh(); lit("struct "); id(); lit("{ int "); id(); lit("; "); id(); lit("* "); id(); lit("(); };"); CodeBody b = read(0); shown(b);
	X = first; shown(a); REACH("read");
}
ENTRY(h_ctx_default) // nothing set at all
{
	g_symbolic = 0; if (!text(1, pick(0, 3, "kind"))) return;
	gen::init(&g_ctx); CHECK(g_ctx.Max_StrCacheLength && g_ctx.Max_CommentLineLength && g_ctx.InitSize_BuilderBuffer && g_ctx.CodePool_NumBlocks && g_ctx.SizePer_StringArena && g_ctx.InitSize_LexerTokens && g_ctx.InitSize_Fallback_Allocator_Bucket_Size, "every size has a default");
	shown(read(0)); deinit(&g_ctx); CHECK(get_context() == nullptr && !g_ctx.CodePool_NumBlocks, "nothing is left of the context"); REACH("read");
}
ENTRY(h_ctx_long) // built with a small print buffer
{
	g_symbolic = 0; int k = pick(0, NKINDS - 1, "kind"), w = pick(0, 2, "where"); if (!text(w, k)) return;
	ctx_small(); shown(read(0)); REACH("printed");
}
static void consts() // the constants are intact
{
	StrBuilder o = code_to_strbuilder((Code)t_auto); CHECK(strbuilder_are_equal_str(o, txt("auto")), "the constant types are intact");
	o = code_to_strbuilder((Code)spec_const); CHECK(same_tokens("const", 5, o, strbuilder_length(o)), "the constant specifiers are intact");
	o = code_to_strbuilder((Code)pragma_once); CHECK(same_tokens("#pragma once\n", 13, o, strbuilder_length(o)), "the constant pragma is intact");
	CHECK(Code_Invalid->Type == CT_Invalid && access_public->Type == CT_Access_Public && fmt_newline->Type == CT_NewLine, "the constant codes are intact");
}
static void own() // the library's own macro is there, the user's are not
{
	CHECK(lookup_macro(txt(OWN_MACRO)) != nullptr, "the library's own macro is registered"); CHECK(lookup_macro(txt("Mm")) == nullptr, "macros are those of this context");
	Macro m = {}; m.Name = txt("Mm"); m.Type = MT_Statement; register_macro(m); CHECK(lookup_macro(txt("Mm")) != nullptr, "a macro is registered");
}
static CodeBody one(int k, int w) { int g = g_names; if (!text(w, k)) return NullCode; CodeBody b = read(0); shown(b); (void)g; return b; }
static Context g_two;
ENTRY(h_ctx_again)
{
	g_symbolic = 0; int v = pick(0, option("n", 1) - 1, "sizes"), k = pick(0, NKINDS - 1, "kind"), w = pick(0, 2, "where"), sc = pick(0, 7, "history"); static const int vs[] = { 15, 99, 16, 17 }; v = vs[v];
	if (!text(w, k)) return;
	sizes(&g_ctx, v); gen::init(&g_ctx); own(); CodeBody a = one(k, w); Text ta = X;
	switch (sc) {
	case 0: gen::deinit(&g_ctx); CHECK(get_context() == nullptr, "no context is left"); sizes(&g_ctx, v); gen::init(&g_ctx); break;
	case 1: gen::reset(&g_ctx); break;
	case 2: gen::reset(&g_ctx); own(); one(k, w); gen::reset(&g_ctx); break;
	case 3: { sizes(&g_two, v); gen::init(&g_two); own(); CodeBody b = one(k, w); Text tb = X; set_context(&g_ctx); CHECK(lookup_macro(txt("Mm")) != nullptr, "macros of the first context"); one(k, w); X = ta; shown(a); X = tb; shown(b); consts(); deinit(&g_two); CHECK(get_context() == &g_ctx, "the current context stays"); X = ta; shown(a); } one(k, w); consts(); REACH("again"); return;
	case 4: { sizes(&g_two, v); gen::init(&g_two); own(); one(k, w); deinit(&g_two); set_context(&g_ctx); CHECK(lookup_macro(txt("Mm")) != nullptr, "macros of the first context"); X = ta; shown(a); } one(k, w); consts(); REACH("again"); return;
	case 5: { sizes(&g_two, v); gen::init(&g_two); own(); CodeBody b = one(k, w); Text tb = X; set_context(&g_ctx); gen::reset(&g_ctx); own(); set_context(&g_two); X = tb; shown(b); consts(); set_context(&g_ctx); } one(k, w); consts(); REACH("again"); return;
	case 6: { sizes(&g_two, v); gen::init(&g_two); own(); one(k, w); gen::reset(&g_two); own(); one(k, w); consts(); set_context(&g_ctx); X = ta; shown(a); } one(k, w); consts(); REACH("again"); return;
	case 7: { sizes(&g_two, v); gen::init(&g_two); own(); one(k, w); set_context(&g_ctx); gen::reset(&g_two); CHECK(get_context() == &g_ctx, "the current context stays"); X = ta; shown(a); set_context(&g_two); own(); one(k, w); set_context(&g_ctx); } one(k, w); consts(); REACH("again"); return;
	}
	consts(); own(); one(k, w); Text tc = X; consts(); fresh(); CodeBody c = one(0, 0); (void)c; (void)tc; REACH("again");
}
