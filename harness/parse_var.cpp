#include "common.hpp"
#include "gram.hpp"
static char const* SPECS[] = { "", "static ", "constexpr ", "static constexpr ", "extern ", "mutable ", "thread_local ", "inline ", "static inline ", "register " };

ENTRY(h_var)
{
	ctx_small(); fresh();
	int sp_ = pick(0, 8, "spec"), b = pick(0, 9, "base"), s = 0, i = 0;
	if (sp_ == 0 || b == 0) s = pick(0, 9, "suffix"); 
	if (sp_ == 0 && b <= 1 || s == 1) i = pick(0, 19, "init");
	lit(SPECS[sp_]);
	type_base(b); type_suffix(s);
	lit(" "); Name n = id();
	init_of(i); sp(); lit(";");
	Code c = (Code)parse_variable(source());
	CHECK(valid(c, CT_Variable), "a variable declaration parses");
	CHECK(named(c, n), "the variable has its name");
	check_output(c, "a parsed variable serializes to its own tokens");
	REACH("var");
}

static char const* ATTRS[] = { "", "__declspec(dllexport) ", "__attribute__((unused)) ", "[[nodiscard]] ", "[[gnu::aligned(8), deprecated(\"x\")]] ", "__attribute__((aligned(8))) " };
// attributes, export, inline comments
ENTRY(h_var_extra)
{
	ctx_small(); fresh();
	int e = pick(0, 1, "export"), a = pick(0, 5, "attr"), sp_ = pick(0, 3, "spec"), b = pick(0, 1, "base"), i = pick(0, 9, "init"), cm = pick(0, 3, "comment");
	if (e) lit("export ");
	lit(ATTRS[a]); lit(SPECS[sp_]); type_base(b); lit(" "); Name n = id(); init_of(i); lit(";");
	if (cm == 1) { lit(" // "); id(); }
	if (cm == 2) { lit(" /* "); id(); lit(" */"); }
	if (cm == 3) { lit(" // "); id(); lit("\n"); }
	Code c = (Code)parse_variable(source());
	CHECK(valid(c, CT_Variable), "a variable declaration parses");
	CHECK(named(c, n), "the variable has its name");
	check_output(c, "a parsed variable serializes to its own tokens");
	REACH("extra");
}
static void next_decl(int k) { lit(","); sp(); switch (k) { case 0: id(); break; case 1: lit("*"); id(); break; case 2: id(); lit("="); digit(); break; case 3: id(); lit("["); digit(); lit("]"); break; case 4: id(); lit(":"); digit(); break;
	case 5: id(); lit("("); digit(); lit(")"); break; case 6: lit("&"); id(); lit("="); id(); break; case 7: lit("*"); lit("const "); id(); lit("="); digit(); break; case 8: lit("**"); id(); lit("["); digit(); lit("]["); digit(); lit("]"); lit("={"); lit("}"); break; } }
// several declarators in one declaration
ENTRY(h_var_list)
{
	ctx_small(); fresh();
	int m = pick(1, 2, "more"), sp_ = pick(0, 1, "spec"), i = pick(0, m == 1 ? 14 : 9, "init"); if (i > 9) i += 5;
	lit(SPECS[sp_]); type_base(sp_); lit(" "); Name n = id(); init_of(i);
	for (int k = 0; k < m; k++) next_decl(pick(0, 8, "next"));
	lit(";");
	Code c = (Code)parse_variable(source());
	CHECK(valid(c, CT_Variable), "a variable declaration parses");
	CHECK(named(c, n), "the variable has its name");
	check_output(c, "a list of declarators serializes to its own tokens");
	CodeVar v = (CodeVar)c; int k = 0; for (Code x = (Code)v; x && k < 5; k++) { if (k) CHECK(x->Parent.ast != nullptr && ((CodeVar)x->Parent)->NextVar.ast == (AST_Var*)x.ast, "each declarator knows the one before"); x = (Code)((CodeVar)x)->NextVar; }
	CHECK(k == m + 1, "every declarator is in the chain");
	REACH("list");
}
