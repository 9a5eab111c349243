#include "common.hpp"
#include "gram.hpp"
// --- registered macros as statements, types, attributes, specifiers, identifiers and values in every position they may take
static void reg(char const* n, MacroType t, int flags) { Macro m; m.Name = mkstr(n, zlen(n)); m.Type = t; m.Flags = (MacroFlags)flags; register_macro(m); }
static void setup()
{
	ctx_small(); fresh();
	reg("M_ST", MT_Statement, 0); reg("M_SF", MT_Statement, MF_Functional); reg("M_SB", MT_Statement, MF_Functional | MF_Expects_Body); reg("M_SN", MT_Statement, MF_Expects_Body);
	reg("M_TY", MT_Typename, 0); reg("M_TF", MT_Typename, MF_Functional);
	reg("M_AT", MT_Expression, MF_Allow_As_Attribute); reg("M_AF", MT_Expression, MF_Allow_As_Attribute | MF_Functional);
	reg("M_EX", MT_Expression, 0); reg("M_EF", MT_Expression, MF_Functional); reg("M_SP", MT_Expression, MF_Functional | MF_Allow_As_Specifier);
}
static void args(int k) { switch (k) { case 0: lit("()"); break; case 1: lit("("); id(); lit(","); sp(); digit(); lit(")"); break; case 2: lit("("); id(); lit("("); digit(); lit("),("); id(); lit("))"); break; case 3: lit("(\")\")"); break; case 4: lit("("); id(); lit("(("); digit(); lit(")("); id(); lit("())),("); digit(); lit("))"); break; } }
static void check_body(int want)
{
	CodeBody b = parse_global_body(source());
	CHECK(valid((Code)b, CT_Global_Body), "a body with macros parses"); 
	check_output((Code)b, "a body with macros serializes to its own tokens");
	REACH("macro");
}
static void wrap(int w, bool open) { static char const* O[] = { "", "namespace N {", "class K {", "struct K {", "extern \"C\" {", "union K {", "struct K { int y; struct L {" }, * C[] = { "", "}", "};", "};", "}", "};", "}; };" }; lit((open ? O : C)[w]); }
// statement macros in bodies, with and without arguments, braces and semicolons, around declarations
ENTRY(h_macro_stmt)
{
	setup(); int w = pick(0, 6, "where"), k = pick(0, 3, "kind"), semi = pick(0, 2, "semi"), around = pick(0, 3, "around");
	if (w == 5 && k >= 2) return;
	wrap(w, true); src("\n");
	if (around & 1) { lit("int "); id(); lit(";"); src("\n"); }
	switch (k) {
	case 0: lit("M_ST"); break;
	case 1: lit("M_SF"); args(pick(0, 4, "args")); break;
	case 2: lit("M_SB"); args(pick(0, 4, "args")); sp(); lit("{"); id(); lit("();"); lit("{"); lit("}"); lit("}"); break;
	case 3: lit("M_SN"); sp(); lit("{"); id(); lit("=\"}\";"); lit("}"); break;
	}
	if (k < 2) { if (semi == 1) lit(";"); if (semi == 2) { sp(); lit(";"); } }
	src("\n"); if (k == 0 && semi == 0) ex("\n");
	if (around & 2) { id(); lit(" "); id(); lit(w == 5 ? ";" : "();"); src("\n"); }
	wrap(w, false);
	check_body(0);
}
// types given by a macro
ENTRY(h_macro_type)
{
	setup(); int w = pick(0, 3, "where"), k = pick(0, 8, "kind"), f = pick(0, 1, "args"), a = f ? pick(0, 4, "list") : 0;
	wrap(w, true); src("\n");
#define TY { lit(f ? "M_TF" : "M_TY"); if (f) args(a); }
	switch (k) {
	case 0: TY lit(" "); id(); lit(";"); break;
	case 1: TY lit(" "); id(); lit("("); lit("int "); id(); lit(");"); break;
	case 2: lit("void "); id(); lit("("); TY lit(" "); id(); lit(");"); break;
	case 3: lit("typedef "); TY lit(" "); id(); lit(";"); break;
	case 4: lit("typedef "); TY lit(";"); break;
	case 5: lit("using "); id(); lit("="); TY lit(";"); break;
	case 6: lit("static "); TY lit(" "); id(); lit("="); digit(); lit(";"); break;
	case 7: lit("inline "); TY lit(" "); id(); lit("() {return "); digit(); lit(";}"); break;
	case 8: TY lit("* "); id(); lit(";"); break;
	}
	src("\n"); wrap(w, false);
	check_body(0);
}
// macros standing for attributes and specifiers
ENTRY(h_macro_attr)
{
	setup(); int w = pick(0, 3, "where"), k = pick(0, 10, "kind"), f = pick(0, 1, "args"), a = f ? pick(0, 4, "list") : 0;
	wrap(w, true); src("\n");
#define AT { lit(f ? "M_AF" : "M_AT"); if (f) args(a); lit(" "); }
	switch (k) {
	case 0: AT lit("int "); id(); lit(";"); break;
	case 1: AT id(); lit(" "); id(); lit("("); lit("int "); id(); lit(");"); break;
	case 2: lit("class "); AT id(); lit("{"); lit("};"); break;
	case 3: lit("struct "); AT id(); lit(";"); break;
	case 4: AT lit("static "); id(); lit("* "); id(); lit("=");  digit(); lit(";"); break;
	case 5: lit("enum class "); AT id(); lit("{"); id(); lit("};"); break;
	case 6: lit("void "); id(); lit("() M_SP"); args(a); lit(";"); break;
	case 7: lit("union "); AT id(); lit("{int "); id(); lit(";};"); break;
	case 8: AT lit("void "); id(); lit("(){"); id(); lit("();}"); break;
	case 9: lit("template<class "); id(); lit("> struct "); AT id(); lit("{};"); break;
	case 10: lit("enum "); AT id(); lit("{"); id(); lit("};"); break;
	}
	src("\n"); wrap(w, false);
	check_body(0);
}
// macros in parameter lists, enumerations and values
ENTRY(h_macro_value)
{
	setup(); int w = pick(0, 3, "where"), k = pick(0, 9, "kind"), f = pick(0, 1, "args"), a = f ? pick(0, 4, "list") : 0;
	wrap(w, true); src("\n");
#define EX { lit(f ? "M_EF" : "M_EX"); if (f) args(a); }
	switch (k) {
	case 0: lit("int "); id(); lit("="); EX lit(";"); break;
	case 1: lit("void "); id(); lit("("); lit("int "); id(); lit("="); EX lit(");"); break;
	case 2: lit("void "); id(); lit("("); EX lit(" int "); id(); lit(");"); break;
	case 3: lit("void "); id(); lit("("); lit("int "); id(); lit(" "); EX lit(");"); break;
	case 4: lit("enum "); id(); lit("{"); id(); lit("="); EX lit(","); id(); lit("};"); break;
	case 5: lit("enum "); id(); lit("{"); id(); lit(" "); EX lit(","); id(); lit("};"); break;
	case 6: lit("int "); id(); lit("["); EX lit("];"); break;
	case 7: lit("void "); id(); lit("(int "); id(); lit(", "); EX lit(" "); id(); lit(" "); id(); lit(");"); break;
	case 8: lit("enum "); id(); lit("{ M_SF"); args(a); lit("\n"); id(); lit(","); id(); lit("};"); break;
	case 9: lit("enum "); id(); lit(" " OWN_MACRO "(int) {"); id(); lit("};"); break;
	}
	src("\n"); wrap(w, false);
	check_body(0);
}
