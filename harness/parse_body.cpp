#include "common.hpp"
#include "gram.hpp"
#include "decls.hpp"
static int sep(int k) { switch (k) { case 0: src(" "); break; case 1: src("\n"); break; case 2: src("\n\n\t"); break; } return 0; }
// The entries of a body that are not layout, in order, all linked to it.
static void check_entries(CodeBody b, int* want, int n)
{
	int k = 0, total = 0; Code prev = NullCode;
	for (Code c = b->Front; c && total < 40; c = c->Next)
	{
		total++; CHECK(c->Parent.ast == (AST*)b.ast || c->Type == CT_NewLine || (c->Type >= CT_Access_Private && c->Type <= CT_Access_Public) || c->Type == CT_Preprocess_Else || c->Type == CT_Preprocess_EndIf, "every entry knows the body it is in");
		if (prev) CHECK(c->Prev.ast == prev.ast || c->Type == CT_NewLine, "entries are linked both ways");
		prev = c;
		if (c->Type == CT_NewLine) continue;
		CHECK(k < n && (int)c->Type == want[k], "the entries have the kinds written, in order"); k++;
		if (k > n) break;
	}
	CHECK(k == n, "every entry is kept"); CHECK(total == b->NumEntries && b->Back.ast == prev.ast, "the body counts its entries and knows its last");
}
static bool open_body(int w, Name* cn)
{
	switch (w) {
	case 0: return false;
	case 1: lit("namespace "); id(); lit("{"); return false;
	case 2: lit("extern \"C\" {"); return false;
	case 3: lit("export {"); return false;
	case 4: lit("class "); *cn = id(); lit("{"); return true;
	case 5: lit("struct "); *cn = id(); lit("{"); return true;
	case 6: lit("template<class "); id(); lit("> class "); *cn = id(); lit("{"); return true;
	case 7: lit("namespace "); id(); lit("{ namespace "); id(); lit("{"); return false;
	}
	return false;
}
static CodeBody body_of(CodeBody g, int w)
{
	if (!w) return g;
	Code c = g->Front; CHECK(c.ast != nullptr, "the declaration parses");
	switch (w) {
	case 1: return ((CodeNS)c)->Body; case 2: return ((CodeExtern)c)->Body; case 3: return (CodeBody)c; case 4: return ((CodeClass)c)->Body; case 5: return ((CodeStruct)c)->Body;
	case 6: return ((CodeClass)((CodeTemplate)c)->Declaration)->Body; case 7: return ((CodeNS)((CodeNS)c)->Body->Front)->Body;
	}
	return g;
}
static void body_case(int w, int* kinds, int n, int sp_)
{
	fresh(); skip_ = false; in_extern_ = w == 2; in_export_ = w == 3; Name cn; int want[16];
	bool in = open_body(w, &cn);
	for (int i = 0; i < n; i++) { if ((i || w) && ((kinds[i] >= 23 && kinds[i] <= 32) || kinds[i] == 21 || kinds[i] == 22) && sp_ == 0) src("\n"); else if (i || w) sep(sp_); want[i] = decl(kinds[i], in ? &cn : nullptr); if (skip_) return; }
	if (w) { sep(sp_); lit(w >= 4 && w <= 6 ? "};" : "}"); if (w == 7) lit("}"); }
	CodeBody b = parse_global_body(source());
	CHECK(valid((Code)b, CT_Global_Body), "a body parses");
	check_entries(body_of(b, w), want, n);
	check_output((Code)b, "a parsed body serializes to its own tokens");
	REACH("body");
}
// every kind of declaration alone in every kind of body
ENTRY(h_body_one) { ctx_small(); int w = pick(0, 7, "where"), k = pick(0, NKINDS - 1, "kind"); body_case(w, &k, 1, pick(0, 2, "sep")); }
// every ordered pair of declarations
ENTRY(h_body_two) { ctx_small(); g_symbolic = 1; int w = pick(0, 7, "where"), k[2]; k[0] = pick(0, NKINDS - 1, "first"); k[1] = pick(0, NKINDS - 1, "second"); body_case(w, k, 2, pick(0, 1, "sep")); }
// many declarations in one body
ENTRY(h_body_many) { ctx_small(); g_symbolic = 1; int w = pick(0, 7, "where"), k[14], n = option("n", 9), f = pick(0, NKINDS - 1, "first"), st = pick(0, 3, "step"); static int const ST[] = { 1, 5, 23, 31 }; bool in = w >= 4 && w <= 6; int x = f; for (int i = 0; i < n; i++) { while (x == 52 || x == 74 || (in ? (x >= 46 && x <= 54) : x >= 55)) x = (x + 1) % NKINDS; k[i] = x; x = (x + ST[st]) % NKINDS; } body_case(w, k, n, option("seps", 0) ? pick(0, 1, "sep") : st & 1); }
