#include "common.hpp"
#include "gram.hpp"
// --- parameters, functions, operators, constructors, destructors, casts
static int g_np; static Name g_pn[8]; // the names of the parameters written so far
static void value(int k)
{
	switch (k) {
	case 0: digit(); break;
	case 1: id(); lit("("); digit(); lit(","); sp(); digit(); lit(")"); break;
	case 2: lit("{"); digit(); lit(","); digit(); lit("}"); break;
	case 3: lit("\"),\""); break;
	case 4: id(); lit("->"); id(); break;
	case 5: id(); lit("<"); id(); lit(","); id(); lit("<"); id(); lit(">>"); lit("("); lit(")"); break;
	case 6: digit(); lit(">>"); digit(); break;
	case 7: lit("("); id(); lit(","); digit(); lit(")"); break;
	case 8: id(); lit(">="); digit(); break;
	case 9: lit("','"); break;
	case 10: lit("{}"); break;
	case 11: id(); lit("{"); id(); lit("(("); digit(); lit("),{"); digit(); lit("})}"); break;
	case 12: id(); lit("("); id(); lit("(("); digit(); lit(")),"); id(); lit("())"); break;
	case 13: lit("["); id(); lit(","); sp(); id(); lit("](int "); id(); lit("){return "); digit(); lit(";}"); break;
	}
}
static void param(int t, int s, int n, int v)
{
	if (t == 10) { src("const int"); ex("int const"); } else { type_base(t); if (t < 2) type_suffix(s); }
	if (n) { lit(" "); Name x = id(); g_pn[g_np++] = x; if (n == 2) { lit("["); digit(); lit("]"); } if (n == 3) { lit("[]["); id(); lit("]"); } }
	if (v >= 0) { sp(); lit("="); sp(); value(v); }
}
// -1: nothing; otherwise one of several lists
static void params(int k)
{
	g_np = 0; lit("(");
	switch (k) {
	case 0: break;
	case 1: param(pick(0, 10, "type"), pick(0, 9, "suffix"), pick(0, 3, "name"), -1); break;
	case 2: param(pick(0, 1, "type"), 0, 1, pick(0, 13, "value")); break;
	case 3: param(0, 0, 1, -1); lit(","); sp(); param(pick(0, 10, "type"), 1, pick(0, 3, "name"), -1); break;
	case 4: param(0, 0, 1, pick(0, 13, "value")); lit(","); param(1, 5, 1, pick(0, 13, "value")); break;
	case 5: param(0, 0, 1, -1); lit(","); param(4, 5, 2, -1); lit(","); param(1, 1, 1, pick(-1, 3, "value")); break;
	case 6: lit("..."); break;
	case 7: param(1, 5, pick(0, 1, "name"), -1); lit(","); sp(); lit("..."); break;
	case 8: param(0, 0, 1, -1); lit(","); param(1, 0, 1, -1); lit(","); param(1, 1, 0, -1); lit(","); param(3, 5, 1, 0); break;
	case 9: if (pick(0, 1, "lead")) { param(0, 0, 1, -1); lit(","); } type_base(pick(0, 6, "type")); type_suffix(pick(0, 6, "suffix")); lit("... "); g_pn[g_np++] = id(); break;
	case 10: type_base(1); lit("&&..."); break;
	}
	lit(")");
}
static void body(int k)
{
	lit("{"); sp();
	switch (k) {
	case 0: break;
	case 1: id(); lit("("); digit(); lit(")"); lit(";"); break;
	case 2: lit("if("); id(); lit(")"); lit("{"); id(); lit("();"); lit("}"); sp(); lit("else"); lit("{"); lit("}"); break;
	case 3: id(); lit("(\"}\\\"{\");"); break;
	case 4: id(); lit("('}');"); lit("/*}*/"); id(); lit(";"); break;
	case 5: id(); lit("//}"); id(); lit("\n"); id(); lit(";"); break;
	case 6: lit("return"); lit(" "); id(); lit("[]("); lit("int "); id(); lit("){"); lit("return "); digit(); lit(";}"); lit(";"); break;
	case 7: lit("for(;;){{"); id(); lit(";}}"); lit("{"); lit("}"); id(); lit(";"); break;
	}
	sp(); lit("}");
}
static void check_params(CodeParams p)
{
	CodeParams x = p; int k = 0;
	for (; k < g_np && x; k++)
	{
		while (x && !x->Name.Len) x = (CodeParams)x->Next;
		if (!x) break;
		CHECK(x->Name.Len == 2 && bytes_eq(x->Name.Ptr, g_pn[k].c, 2), "the parameters are kept in order with their names");
		x = (CodeParams)x->Next;
	}
	CHECK(k == g_np, "every named parameter is kept");
	if (p) { int n = 0; for (CodeParams y = p; y && n < 9; y = (CodeParams)y->Next) n++; CHECK(n == p->NumEntries, "the parameter list knows how many it has"); }
}
static char const* PRE[] = { "", "static ", "inline ", "constexpr ", "static inline ", "extern ", "consteval ", "neverinline ", "forceinline static " };
static Specifier PRE_S[][2] = { {Spec_Invalid, Spec_Invalid}, {Spec_Static, Spec_Invalid}, {Spec_Inline, Spec_Invalid}, {Spec_Constexpr, Spec_Invalid}, {Spec_Static, Spec_Inline}, {Spec_External_Linkage, Spec_Invalid}, {Spec_Consteval, Spec_Invalid}, {Spec_NeverInline, Spec_Invalid}, {Spec_ForceInline, Spec_Static} };
static char const* ATTRS[] = { "", "[[nodiscard]] ", "__attribute__((unused)) ", "__declspec(dllexport) ", "[[nodiscard(\"]]\")]] ", "[[x]] [[y(1,2)]] " };
static int nspecs(CodeSpecifiers s) { return s ? s->NumEntries : 0; }
static void comment(int k) { switch (k) { case 0: break; case 1: lit(" //"); id(); lit("\n"); break; case 2: lit(" /*"); id(); lit("*/"); lit("\n"); break; } }
// the specifier, attribute and return type of a function; its parameters; its ending
ENTRY(h_fn)
{
	ctx_small(); fresh();
	int e = pick(0, 1, "export"), a = pick(0, 5, "attr"), p = e && a ? 0 : pick(0, 8, "pre"), b = pick(0, 8, "base");
	int sfx = (!a && !p && !e) ? pick(0, 9, "suffix") : 0, q = (b < 2) ? pick(0, 2, "end") : 0;
	if (e) lit("export ");
	lit(ATTRS[a]); lit(PRE[p]); type_base(b); type_suffix(sfx);
	lit(" "); Name n = id(); sp();
	g_np = 0; lit("()"); 
	if (q == 2) body(1); else { if (q) { lit(" const"); } lit(";"); comment(pick(0, 2, "comment")); }
	CodeFn f = parse_function(source());
	CHECK(valid((Code)f, q == 2 ? CT_Function : CT_Function_Fwd), "a function parses");
	CHECK(named((Code)f, n), "the function has its name");
	CHECK(f->ReturnType && !f->Params && (f->Body.ast != nullptr) == (q == 2), "the function has its parts");
	CHECK(((f->ModuleFlags & ModuleFlag_Export) != 0) == (e == 1) && (f->Attributes.ast != nullptr) == (a != 0), "the function keeps export and attributes");
	int want = (PRE_S[p][0] != Spec_Invalid) + (PRE_S[p][1] != Spec_Invalid) + (q == 1);
	CHECK(nspecs(f->Specs) == want && (!want || ((PRE_S[p][0] == Spec_Invalid || specifiers_has(f->Specs, PRE_S[p][0])) && (PRE_S[p][1] == Spec_Invalid || specifiers_has(f->Specs, PRE_S[p][1])) && (q != 1 || specifiers_has(f->Specs, Spec_Const)))), "the function has exactly its specifiers");
	check_output((Code)f, "a parsed function serializes to its own tokens");
	REACH("fn");
}
ENTRY(h_fn_params)
{
	ctx_small(); fresh();
	int q = pick(0, 1, "def"), k = pick(0, 10, "params");
	lit("void "); Name n = id(); params(k); if (q) body(0); else lit(";");
	CodeFn f = parse_function(source());
	CHECK(valid((Code)f, q ? CT_Function : CT_Function_Fwd), "a function parses"); CHECK(named((Code)f, n), "the function has its name");
	CHECK((f->Params.ast != nullptr) == (k != 0), "the function has its parameters");
	check_params(f->Params);
	check_output((Code)f, "a parsed function serializes to its own tokens");
	REACH("params");
}
ENTRY(h_fn_body)
{
	ctx_small(); fresh();
	int k = pick(0, 7, "body"), t = pick(0, 3, "tail"); static char const* T[] = { "", " const", " override", " const final" };
	lit("void "); Name n = id(); lit("()"); lit(T[t]); sp(); body(k);
	CodeFn f = parse_function(source());
	CHECK(valid((Code)f, CT_Function), "a function parses"); CHECK(named((Code)f, n), "the function has its name"); CHECK(f->Body.ast != nullptr, "the function has its body");
	check_output((Code)f, "a parsed function serializes to its own tokens");
	REACH("body");
}
ENTRY(h_fn_tail)
{
	ctx_small(); fresh();
	int t = pick(0, 6, "tail"); static char const* T[] = { " = 0", " = delete", " const = 0", " override", " const override", " final", " const override final" };
	lit("void "); Name n = id(); params(pick(0, 1, "params") * 3); lit(T[t]); lit(";"); comment(pick(0, 2, "comment"));
	CodeFn f = parse_function(source());
	CHECK(valid((Code)f, CT_Function_Fwd), "a function parses"); CHECK(named((Code)f, n), "the function has its name");
	CHECK(specifiers_has(f->Specs, Spec_Pure) == (t == 0 || t == 2) && specifiers_has(f->Specs, Spec_Delete) == (t == 1) && specifiers_has(f->Specs, Spec_Override) == (t == 3 || t == 4 || t == 6), "the function has exactly its specifiers");
	check_output((Code)f, "a parsed function serializes to its own tokens");
	REACH("tail");
}
// --- operators
struct OpRow { char const* txt; Operator op[2]; int params; }; // the operator with one parameter and with two (or none and one)
#define ROW(t, a, b) { t, { Op_##a, Op_##b }, 1 }
static OpRow OPS[] = {
	ROW("=", Assign, Invalid), ROW("+=", Assign_Add, Invalid), ROW("-=", Assign_Subtract, Invalid), ROW("*=", Assign_Multiply, Invalid), ROW("/=", Assign_Divide, Invalid), ROW("%=", Assign_Modulo, Invalid), ROW("&=", Assign_BAnd, Invalid), ROW("|=", Assign_BOr, Invalid), ROW("^=", Assign_BXOr, Invalid), ROW("<<=", Assign_LShift, Invalid), ROW(">>=", Assign_RShift, Invalid),
	ROW("==", LEqual, LEqual), ROW("!=", LNot, LNot), ROW("<", Lesser, Lesser), ROW(">", Greater, Greater), ROW("<=", LesserEqual, LesserEqual), ROW(">=", GreaterEqual, GreaterEqual),
	ROW("+", Add, Add), ROW("-", Subtract, Subtract), ROW("*", Multiply, Multiply), ROW("/", Divide, Divide), ROW("%", Modulo, Modulo), ROW("&", BAnd, BAnd), ROW("|", BOr, BOr), ROW("^", BXOr, BXOr), ROW("<<", LShift, LShift), ROW(">>", RShift, RShift), ROW("&&", LAnd, LAnd), ROW("||", LOr, LOr),
	ROW("()", FunctionCall, FunctionCall), ROW("[]", Subscript, Subscript), ROW("->*", MemberOfPointer, MemberOfPointer), ROW(",", Comma, Comma), 
};
ENTRY(h_op)
{
	ctx_small(); fresh();
	int o = pick(0, (int)(sizeof(OPS) / sizeof(OPS[0])) - 1, "op"), t = pick(0, 3, "type"), q = pick(0, 2, "end");
	static char const* PS[] = { "", "inline ", "static ", "constexpr " };
	int p = t == 0 ? pick(0, 3, "pre") : 0, a = t == 1 ? pick(0, 2, "attr") : 0;
	lit(ATTRS[a]); lit(PS[p]); type_base(t); type_suffix(t == 1 ? 5 : 0); lit(" operator"); sp(); lit(OPS[o].txt); sp(); 
	lit("("); id(); lit(" const&"); id(); lit(")");
	if (q == 1) lit(" const"); if (q == 2) body(1); else { lit(";"); comment(pick(0, 2, "comment")); }
	CodeOperator c = parse_operator(source());
	CHECK(c.ast && (c->Type == CT_Operator || c->Type == CT_Operator_Member || c->Type == CT_Operator_Fwd || c->Type == CT_Operator_Member_Fwd), "an operator parses");
	CHECK((c->Type == CT_Operator || c->Type == CT_Operator_Member) == (q == 2), "the operator has its body");
	check_output((Code)c, "a parsed operator serializes to its own tokens");
	REACH("op");
}
// as a member or with two parameters
ENTRY(h_op_more)
{
	ctx_small(); fresh();
	int k = pick(0, 4, "kind");
	static char const* UN[] = { "*", "&", "+", "-", "!", "~", "++", "--", "->", "()" };
	static char const* NW[] = { "new", "new[]", "delete", "delete[]" };
	static char const* BI[] = { "+", "-", "*", "/", "%", "==", "!=", "<", ">", "<=", ">=", "<<", ">>", "&&", "||", "&", "|", "^", "," };
	int q = pick(0, 2, "end");
	// (the library insists on a bool result of `!`)
	int u = pick(0, 9, "op"); if (k == 1 || k == 2 || k == 3) u = 0;
	if ((k == 0 || k == 4) && u == 4) lit("bool"); else type_base(pick(0, 1, "type"));
	lit(" ");
	switch (k) {
	case 0: lit("operator"); lit(UN[u]); lit("()"); break;
	case 1: lit("operator"); sp(); lit(BI[pick(0, 18, "op")]); lit("("); id(); lit(" const&"); id(); lit(","); sp(); id(); lit(" "); id(); lit(")"); break;
	case 2: id(); lit("::"); lit("operator"); lit(BI[pick(5, 18, "op")]); lit("("); id(); lit("&"); id(); lit(")"); break;
	case 3: lit("operator "); lit(NW[pick(0, 3, "op")]); lit("("); id(); lit(" "); id(); lit(")"); break;
	case 4: id(); lit("::"); id(); lit("::"); lit("operator"); lit(UN[u]); lit("()"); break;
	}
	if (q == 1) lit(" const"); if (q == 2) body(pick(1, 3, "body")); else lit(";");
	CodeOperator c = parse_operator(source());
	CHECK(c.ast && (c->Type == CT_Operator || c->Type == CT_Operator_Member || c->Type == CT_Operator_Fwd || c->Type == CT_Operator_Member_Fwd), "an operator parses");
	check_output((Code)c, "a parsed operator serializes to its own tokens");
	REACH("more");
}
ENTRY(h_opcast)
{
	ctx_small(); fresh();
	int q = pick(0, 3, "end"), b = pick(0, 8, "base"), s = b < 2 ? pick(0, 9, "suffix") : 0, p = b == 0 ? pick(0, 2, "pre") : 0; static char const* PS[] = { "", "explicit ", "inline " };
	if (b == 7) return;
	lit(PS[p]); lit("operator "); type_base(b); type_suffix(s); lit("()");
	if (q == 1 || q == 3) lit(" const"); if (q >= 2) body(1); else { lit(";"); comment(pick(0, 1, "comment")); }
	CodeOpCast c = parse_operator_cast(source());
	CHECK(valid((Code)c, q >= 2 ? CT_Operator_Cast : CT_Operator_Cast_Fwd) && c->ValueType.ast, "a conversion parses");
	check_output((Code)c, "a parsed conversion serializes to its own tokens");
	REACH("opcast");
}
ENTRY(h_ctor)
{
	ctx_small(); fresh();
	int q = pick(0, 5, "end"), k = pick(0, 8, "params"), p = 0, o = pick(0, 1, "outside"); static char const* PS[] = { "", "explicit ", "inline ", "constexpr " };
	if (k > 1) { if (q > 2) return; } else p = pick(0, 3, "pre");
	lit(PS[p]); if (o) { Name c = id(); lit("::"); use(c); } else id(); sp();
	if (k == 4 || k == 8) params(0); else params(k);
	switch (q) {
	case 0: lit(";"); comment(pick(0, 2, "comment")); break;
	case 1: body(1); break;
	case 2: lit(":"); sp(); id(); lit("("); digit(); lit(","); digit(); lit(")"); lit(","); id(); lit("("); lit(")"); body(0); break;
	case 3: lit(" = default;"); comment(pick(0, 1, "comment")); break;
	case 4: lit(" = delete;"); break;
	case 5: lit(":"); id(); lit("("); id(); lit("("); digit(); lit(")"); lit(")"); body(2); break;
	}
	CodeConstructor c = parse_constructor(source());
	CHECK(valid((Code)c, q == 1 || q == 2 || q == 5 ? CT_Constructor : CT_Constructor_Fwd), "a constructor parses");
	check_params(c->Params); CHECK((c->InitializerList.ast != nullptr) == (q == 2 || q == 5), "the constructor has its initializers");
	check_output((Code)c, "a parsed constructor serializes to its own tokens");
	REACH("ctor");
}
ENTRY(h_dtor)
{
	ctx_small(); fresh();
	int q = pick(0, 6, "end"), p = pick(0, 1, "pre"), o = pick(0, 1, "outside"); static char const* PS[] = { "", "virtual " };
	lit(PS[p]); if (o) { Name c = id(); lit("::~"); use(c); } else { lit("~"); sp(); id(); } lit("("); sp(); lit(")");
	switch (q) {
	case 0: lit(";"); comment(pick(0, 2, "comment")); break;
	case 1: body(1); break;
	case 2: lit(" = default;"); break;
	case 3: lit(" = 0;"); comment(pick(0, 1, "comment")); break;
	case 4: lit(" override;"); break;
	case 5: lit(" override"); body(2); break;
	case 6: lit(" final = default;"); break;
	}
	CodeDestructor c = parse_destructor(source());
	CHECK(valid((Code)c, q == 1 || q == 5 ? CT_Destructor : CT_Destructor_Fwd), "a destructor parses");
	check_output((Code)c, "a parsed destructor serializes to its own tokens");
	REACH("dtor");
}
