#include "common.hpp"
#include "gram.hpp"
// Bodies, parameter lists, specifiers and interfaces under every history of operations, against plain arrays.
enum { NB = 3, NN = 5, MAXE = 24 };
struct Seq { int n; int at[MAXE]; };
static Code nodes[NN]; static CodeBody bodies[NB]; static Seq seqs[NB]; static bool inside[NB];
static char name_of(int i) { return (char)('a' + i); }
static void put(Seq* s, int x) { ASSUME(s->n < MAXE); s->at[s->n++] = x; }
// the text a node prints: "<name>1;" -- node 3 is an export block of two entries, node 4 the shared line break
static void text_of(Text* t, int i) { if (i == 3) { for (char const* s = "export { x1; y1; }"; *s; s++) to(t, *s); } else if (i == 4) to(t, '\n'); else { to(t, name_of(i)); to(t, '1'); to(t, ';'); } }
static void check_list(CodeBody b, Seq* s)
{
	CHECK(b->NumEntries == s->n && code_has_entries((Code)b) == (s->n > 0), "a body counts its entries");
	Code prev = NullCode; int k = 0;
	for (Code c = begin_CodeBody(b); c != end_CodeBody(b) && k <= s->n; c = next_CodeBody(b, c), k++)
	{
		CHECK(k < s->n, "iteration visits each entry once");
		int id = s->at[k]; CHECK(c->Type == nodes[id]->Type && (id == 3 || c->Name.Ptr == nodes[id]->Name.Ptr), "the entries stay in order");
		CHECK(c->Prev.ast == prev.ast && c->Parent.ast == (AST*)b.ast, "entries are linked back and know their body");
		Code* e = code_entry((Code)b, k); CHECK(e && e->ast == c.ast, "an entry is found by its index"); prev = c;
	}
	CHECK(k == s->n, "iteration reaches every entry"); CHECK(b->Back.ast == prev.ast && b->Front.ast == (s->n ? code_entry((Code)b, 0)->ast : nullptr), "a body knows its ends");
	Code* past = code_entry((Code)b, s->n + pick(0, 1, "beyond")); CHECK(!past || !past->ast, "there is nothing behind the last entry");
}
ENTRY(h_list_body)
{
	ctx_small(); int n = option("n", 4); static CodeType const KINDS[NB] = { CT_Global_Body, CT_Function_Body, CT_Namespace_Body };
	static char const* T[] = { "a1;", "b1;", "c1;" };
	for (int i = 0; i < 3; i++) { nodes[i] = (Code)untyped_str(mkstr(T[i], 3)); }
	nodes[3] = (Code)def_export_body(2, untyped_str(mkstr("x1;", 3)), untyped_str(mkstr("y1;", 3))); nodes[4] = (Code)fmt_newline;
	for (int j = 0; j < NB; j++) { bodies[j] = def_body(KINDS[j]); CHECK(valid((Code)bodies[j], KINDS[j]), "an empty body is made"); seqs[j].n = 0; check_list(bodies[j], &seqs[j]); }
	for (int s = 0; s < n; s++)
	{
		int op = pick(0, NN, "op"), j = pick(0, 1, "body");
		if (op < NN) { body_append(bodies[j], nodes[op]); put(&seqs[j], op); }
		else { int from = 1 - j; if (pick(0, 1, "by append")) body_append(bodies[j], (Code)bodies[from]); else body_append_body(bodies[j], bodies[from]); int m = seqs[from].n; for (int q = 0; q < m; q++) put(&seqs[j], seqs[from].at[q]); }
	}
	for (int j = 0; j < 2; j++)
	{
		check_list(bodies[j], &seqs[j]); fresh(); for (int k = 0; k < seqs[j].n; k++) text_of(&X, seqs[j].at[k]);
		StrBuilder o = body_to_strbuilder(bodies[j]); CHECK(same_tokens(X.b, X.n, o, strbuilder_length(o)), "a body prints its entries in order");
	}
	CHECK(((CodeBody)nodes[3])->NumEntries == 2, "what is appended keeps its own entries"); REACH("list");
}
// --- parameters
ENTRY(h_list_params)
{
	ctx_small(); int n = option("n", 4); CodeParams p[5]; char nm_[2]; Seq q[2] = { { 1, { 0 } }, { 1, { 1 } } };
	for (int i = 0; i < 5; i++) { nm_[0] = name_of(i); nm_[1] = '1'; p[i] = def_param(t_int, mkstr(nm_, 2)); }
	for (int s = 0; s < n; s++) { int j = pick(0, 1, "list"), x = pick(2, 4, "which"); params_append(p[j], p[x]); put(&q[j], x); }
	if (pick(0, 1, "entry of the other")) { int i = pick(0, 2, "index"); if (i > 0 && i < q[0].n) { CodeParams e = params_get(p[0], i); params_append(p[1], e); put(&q[1], q[0].at[i]); } }
	for (int j = 0; j < 2; j++)
	{
		CHECK(p[j]->NumEntries == q[j].n && params_has_entries(p[j]), "a parameter list counts its entries"); int k = 0; fresh();
		for (CodeParams c = begin_CodeParams(p[j]); c != end_CodeParams(p[j]) && k <= q[j].n; c = next_CodeParams(p[j], c), k++)
		{
			CHECK(k < q[j].n, "iteration visits each parameter once"); CHECK(c->Name.Ptr == p[q[j].at[k]]->Name.Ptr && c->ValueType.ast == t_int.ast, "the parameters stay in order");
			CodeParams e = params_get(p[j], k); CHECK(e.ast == c.ast, "a parameter is found by its index");
			if (k) ex(","); ex("int "); to(&X, name_of(q[j].at[k])); to(&X, '1');
		}
		CHECK(k == q[j].n, "iteration reaches every parameter"); CHECK(!params_get(p[j], q[j].n), "there is nothing behind the last parameter"); CHECK(!params_get(p[j], q[j].n + 2), "there is nothing behind the last parameter");
		check_output((Code)p[j], "a parameter list prints its entries in order"); StrBuilder o = params_to_strbuilder(p[j]); CHECK(same_tokens(X.b, X.n, o, strbuilder_length(o)), "a parameter list prints its entries in order");
	}
	REACH("list");
}
// --- specifiers
ENTRY(h_list_specs)
{
	ctx_small(); int n = option("n", 4), m = 0; Specifier have[AST_ArrSpecs_Cap + 1], any[3]; bool full = pick(0, 1, "full");
	for (int k = 0; k < 3; k++) any[k] = (Specifier)sym_range(Spec_Consteval, Spec_NumSpecifiers - 1, "spec");
	ASSUME((any[0] != any[1]) & (any[0] != any[2]) & (any[1] != any[2]));
	CodeSpecifiers s = def_specifiers(1, any[0]); have[m++] = any[0]; CHECK(valid((Code)s, CT_Specifiers), "specifiers are made");
	if (full) { int upto = AST_ArrSpecs_Cap - pick(0, 1, "short of full"); while (m < upto) { Specifier x = any[m % 3]; CHECK(specifiers_append(s, x), "a specifier is added while there is room"); have[m++] = x; } if (n > 3) n = 3; }
	for (int i = 0; i < n; i++)
	{
		Specifier x = any[pick(0, 2, "which")]; int first = -1, count = 0;
		for (int k = m - 1; k >= 0; k--) if (have[k] == x) { first = k; count++; }
		CHECK(specifiers_has(s, x) == (first >= 0) && specifiers_index_of(s, x) == first, "a specifier is found exactly when it was added and not removed");
		if (m < AST_ArrSpecs_Cap && pick(0, 1, "add")) { CHECK(specifiers_append(s, x), "a specifier is added while there is room"); have[m++] = x; }
		else { int r = specifiers_remove(s, x); CHECK((r >= 0) == (count > 0) && (r < 0 || have[r] == x), "removing tells whether it was there"); int k2 = 0; for (int k = 0; k < m; k++) if (have[k] != x) have[k2++] = have[k]; m = k2; }
		CHECK(s->NumEntries == m, "specifiers are counted"); int k = 0; bool same = true;
		for (Specifier* e = begin_CodeSpecifiers(s); e != end_CodeSpecifiers(s) && k < m; e = next_CodeSpecifiers(s, e)) same = same & (*e == have[k++]);
		CHECK(same && k == m, "the specifiers stay in order");
	}
	if (m == AST_ArrSpecs_Cap) { sym_fatal_ok(1); CHECK(!specifiers_append(s, any[1]), "a full list takes no more"); }
	REACH("list");
}
// --- base types: the same types shared by several classes
ENTRY(h_list_bases)
{
	ctx_small(); CodeTypename t[4]; static char const* T[] = { "A1", "B1", "C1", "D1" }; for (int i = 0; i < 4; i++) t[i] = def_type(mkstr(T[i], 2));
	bool cls = pick(0, 1, "class"); Code c[2]; int q[2][4], n[2] = { 0, 0 }, arity[2]; CodeBody b = NullCode; CodeTypename none = NullCode;
	for (int j = 0; j < 2; j++)
	{
		Opts_def_struct o = {}; CodeTypename ifs[2]; o.body = cls ? def_class_body(1, untyped_str(txt("m1;"))) : def_struct_body(1, untyped_str(txt("m1;")));
		if (pick(0, 1, "parent")) { int x = pick(0, 1, "parent type"); o.parent = t[x]; o.parent_access = AccessSpec_Public; q[j][n[j]++] = x; }
		int m = pick(0, 1, "interfaces"); for (int k = 0; k < m; k++) { int x = pick(0, 2, "interface"); ifs[k] = t[x]; q[j][n[j]++] = x; } o.interfaces = ifs; o.num_interfaces = m;
		c[j] = cls ? (Code)def_class(mkstr(j ? "L2" : "L1", 2), o) : (Code)def_struct(mkstr(j ? "L2" : "L1", 2), o);
	}
	for (int s = 0; s < option("n", 2); s++) { int j = pick(0, 1, "to"), x = pick(2, 3, "type"); if (cls) class_add_interface((CodeClass)c[j], t[x]); else struct_add_interface((CodeStruct)c[j], t[x]); q[j][n[j]++] = x; if (n[j] > 3) return; }
	for (int j = 0; j < 2; j++)
	{
		fresh(); ex(cls ? "class " : "struct "); ex(j ? "L2" : "L1"); if (n[j]) ex(":"); for (int k = 0; k < n[j]; k++) { if (k) ex(","); if (cls || !k) ex("public "); ex(T[q[j][k]]); } ex("{m1;};");
		check_output(c[j], "every class keeps exactly its own bases");
	}
	for (int i = 0; i < 4; i++) CHECK(!t[i]->Next, "the types themselves are not changed"); REACH("list");
}
