// Names are told apart by their text, whatever their checksums: the library is compiled with its checksum replaced by one with many collisions.
#ifndef CRC_MASK
#define CRC_MASK 0x5F
#endif
#define crc32 crc32_real
#include "gen.dep.cpp"
#undef crc32
#define GEN_ROLL_OWN_DEPENDENCIES
GEN_NS_BEGIN
u32 crc32(void const* data, ssize len) { u8 const* p = (u8 const*)data; u32 r = 0; for (ssize i = 0; i < len; i++) r ^= p[i]; return r & (u32)CRC_MASK; }
GEN_NS_END
#include "common.hpp"
#include "gram.hpp"
#include "decls.hpp"
static Str bytes(int n, char const* name) { char* p = (char*)sym_alloc(n); sym_bytes(p, n, name); return mkstr(p, n); }
static bool same(Str a, Str b) { return a.Len == b.Len && bytes_eq(a.Ptr, b.Ptr, a.Len); }
ENTRY(h_names_token)
{
	Str t = bytes(pick(1, option("n", 3), "length"), "t"); TokType k = str_to_toktype(t); CHECK(k >= 0 && k < Tok_NumTokens, "a kind of token");
	if (k != Tok_Invalid) { CHECK(same(toktype_to_str(k), t), "a token's kind is that of its text"); REACH("token"); } else REACH("none");
}
ENTRY(h_names_spec)
{
	Str t = bytes(pick(1, option("n", 5), "length"), "t"); Specifier k = str_to_specifier(t); if (k != Spec_Invalid) { CHECK(same(spec_to_str(k), t), "a specifier is that of its text"); REACH("specifier"); } else REACH("none");
}
// Any two strings with the same checksum, with a third stored before.
ENTRY(h_names_cache)
{
	ctx_small(); Str a = bytes(pick(1, option("n", 2), "first"), "a"), b = bytes(pick(1, option("n", 2), "second"), "b"); ASSUME(crc32(a.Ptr, a.Len) == crc32(b.Ptr, b.Len));
	int o = pick(0, 2, "before"); if (o) { Str c = bytes(1, "c"); if (o == 1) { ASSUME(crc32(c.Ptr, 1) == crc32(a.Ptr, a.Len)); } StrCached k = cache_str(c); CHECK(same(k, c), "a string is kept"); }
	StrCached x = cache_str(a), y = cache_str(b); CHECK(same(x, a) && same(y, b), "a string is stored as written, whatever was before"); CHECK((x.Ptr == y.Ptr) == same(a, b), "strings are one when their text is");
	StrCached x2 = cache_str(a), y2 = cache_str(b); CHECK(x2.Ptr == x.Ptr && y2.Ptr == y.Ptr && same(x2, a) && same(y2, b), "a string stored is found again"); if (same(a, b)) REACH("same"); else REACH("different");
}
ENTRY(h_names_macro)
{
	ctx_small(); int n = option("n", 2), how = pick(0, 3, "how"); Str a = bytes(pick(1, n, "first"), "a"), b = bytes(pick(1, n, "second"), "b"); ASSUME(crc32(a.Ptr, a.Len) == crc32(b.Ptr, b.Len));
	CHECK(lookup_macro(a) == nullptr || same(a, txt(OWN_MACRO)), "nothing is found before it is registered");
	Macro m = {}, q = {}; m.Name = a; m.Type = MT_Statement; q.Name = b; q.Type = MT_Typename; q.Flags = MF_Functional; Macro both[2] = { m, q };
	if (how == 0) { register_macro(m); CHECK(same(a, b) == (lookup_macro(b) != nullptr), "a macro is found by its own name only"); register_macro(q); }
	if (how == 1) { Str c = bytes(1, "c"); StrCached k = cache_str(c); register_macro(m); register_macro(q); CHECK(same(k, c), "strings stay"); }
	if (how == 2) register_macros_arr(2, both);
	if (how == 3) { register_macro(m); register_macro(q); register_macro(m); }
	bool s = same(a, b); Macro* x = lookup_macro(a); Macro* y = lookup_macro(b); CHECK(x && y, "a macro registered is found"); bool second = s && how != 3;
	CHECK(same(x->Name, a) && x->Type == (second ? MT_Typename : MT_Statement) && x->Flags == (second ? MF_Functional : 0), "the first macro is as registered"); bool firstly = s && how == 3;
	CHECK(same(y->Name, b) && y->Type == (firstly ? MT_Statement : MT_Typename), "the second macro is as registered");
	Str d = bytes(1, "d"); CHECK((lookup_macro(d) != nullptr) == (same(d, a) || same(d, b)), "no other name is found"); REACH("registered");
}
// Templates: <a> and <b> (and <c>, which is not given), any letters.
ENTRY(h_names_tmpl)
{
	ctx_small(); int n = option("n", 2), la = pick(1, n, "first"), lb = pick(1, n, "second"); char* a = (char*)sym_alloc(la + 1); char* b = (char*)sym_alloc(lb + 1); sym_bytes(a, la, "a"); sym_bytes(b, lb, "b"); a[la] = 0; b[lb] = 0;
	for (int i = 0; i < la; i++) ASSUME(a[i] >= 'A' && a[i] <= 'z'); for (int i = 0; i < lb; i++) ASSUME(b[i] >= 'A' && b[i] <= 'z'); ASSUME(!same(mkstr(a, la), mkstr(b, lb)));
	char f[16]; int k = 0; auto put = [&](char const* s, int l) { f[k++] = '<'; for (int i = 0; i < l; i++) f[k++] = s[i]; f[k++] = '>'; };
	put(a, la); put(b, lb); char c = (char)sym_range('A', 'z', "c"); ASSUME(!(la == 1 && a[0] == c) && !(lb == 1 && b[0] == c)); put(&c, 1); f[k] = 0;
	Str va = txt("11"), vb = txt("22"); Str r = token_fmt_impl(3, a, va, b, vb, f); char w[8] = { '1', '1', '2', '2', '<', c, '>', 0 };
	CHECK(same(r, mkstr(w, 7)), "every token is replaced by its own value"); REACH("replaced");
}
static bool text(int w, int k)
{
	skip_ = false; Name cn; bool in = w == 1; fresh();
	if (w == 1) { lit("class "); cn = id(); lit("{ "); } if (w == 2) lit("namespace N1{ ");
	decl(k, in ? &cn : nullptr); if (w == 1) lit(" };"); if (w == 2) lit(" }");
	return !skip_;
}
// Every kind of declaration, whose names share checksums.
ENTRY(h_names_decl)
{
	g_symbolic = option("n", 0); int k = pick(0, NKINDS - 1, "kind"), w = pick(0, 2, "where"); if (!text(w, k)) return;
	ctx_small(); CodeBody b = parse_global_body(source()); CHECK(b && b->Type == CT_Global_Body && b->NumEntries >= 1, "it is read");
	StrBuilder o = code_to_strbuilder((Code)b); bool ok = same_tokens(X.b, X.n, o, strbuilder_length(o)); if (!ok) { sym_note(o, 0); sym_note(g_why, 0); } CHECK(ok, "it is printed as written"); REACH("read");
}
