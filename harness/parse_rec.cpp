#include "common.hpp"
#include "gram.hpp"
// --- records, enumerations, aliases, templates, friends, linkage: headers and parts
static char const* ATTRS[] = { "", "[[deprecated]] ", "__declspec(dllexport) ", "__attribute__((packed)) ", "[[x, y(\"]]\")]] " };
static void comment(int k) { switch (k) { case 0: break; case 1: lit(" //"); id(); lit("\n"); break; case 2: lit(" /*"); id(); lit("*/"); lit("\n"); break; } }
static Name g_parent[9]; static int g_access[9];
static char const* ACC[] = { "", "public ", "private ", "protected " };
static AccessSpec ACC_S[] = { AccessSpec_Default, AccessSpec_Public, AccessSpec_Private, AccessSpec_Protected };
static void base_class(int acc, int form, int i)
{
	g_access[i] = acc; g_parent[i] = Name{ { 0, 0 } }; lit(ACC[acc]);
	switch (form) { case 0: g_parent[i] = id(); break; case 1: id(); lit("::"); id(); break; case 2: id(); lit("<"); id(); lit(","); sp(); digit(); lit(">"); break; }
}
static void members(int k)
{
	switch (k) {
	case 0: break;
	case 1: lit("int "); id(); lit(";"); break;
	case 2: lit("public:"); lit("int "); id(); lit(";"); lit("private:"); id(); lit(" "); id(); lit("();"); break;
	case 3: lit("void "); id(); lit("(){"); id(); lit("();}"); break;
	case 4: lit("struct "); id(); lit("{"); lit("int "); id(); lit(";"); lit("};"); break;
	case 5: lit("union {"); lit("int "); id(); lit(";"); lit("struct {"); id(); lit(" "); id(); lit(";};"); lit("};"); break;
	}
}
ENTRY(h_record)
{
	ctx_small(); fresh();
	int st = pick(0, 1, "struct"), e = pick(0, 1, "export"), a = pick(0, 4, "attr"), fin = pick(0, 1, "final"), np = pick(0, 8, "parents"), m = 0, cm = 0;
	if (np == 0) { m = pick(0, 5, "members"); if (m < 2) cm = pick(0, 2, "comment"); }
	if (e) lit("export ");
	lit(st ? "struct " : "class "); lit(ATTRS[a]); Name n = id(); if (fin) lit(" final"); sp();
	for (int i = 0; i < np; i++) { if (!i) lit(":"); else lit(","); sp(); 
		// (a further base is public: written without an access on a struct, with one on a class; the first one then is public as well)
		int acc = np == 1 ? pick(0, 3, "access") : (st && i) ? 0 : 1;
		base_class(acc, np > 3 ? i % 3 : acc < 2 ? pick(0, 2, "form") : 0, i); }
	lit("{"); sp(); members(m); lit("}"); sp(); lit(";"); comment(cm);
	Code c = st ? (Code)parse_struct(source()) : (Code)parse_class(source());
	CHECK(valid(c, st ? CT_Struct : CT_Class), "a class parses"); CHECK(named(c, n), "the class has its name");
	CodeClass k = (CodeClass)c;
	CHECK(((k->ModuleFlags & ModuleFlag_Export) != 0) == (e == 1) && (k->Attributes.ast != nullptr) == (a != 0) && (k->Specs.ast != nullptr) == (fin == 1), "the class keeps export, attributes and final");
	CHECK((k->ParentType.ast != nullptr) == (np > 0) && (!np || k->ParentAccess == ACC_S[g_access[0]]), "the class keeps its first base and its access");
	int cnt = 0; for (Code p = (Code)k->ParentType; p && cnt < 10; p = p->Next) { if (g_parent[cnt].c[0]) CHECK(named(p, g_parent[cnt]), "the bases are kept in order"); cnt++; }
	CHECK(cnt == np, "every base is kept");
	check_output(c, "a parsed class serializes to its own tokens");
	REACH("record");
}
ENTRY(h_record_fwd)
{
	ctx_small(); fresh();
	int k = pick(0, 2, "kind"), e = pick(0, 1, "export"), a = pick(0, 4, "attr"), cm = pick(0, 2, "comment"); static char const* K[] = { "class ", "struct ", "union " };
	if (e) lit("export "); lit(K[k]); lit(ATTRS[a]); Name n = id(); sp(); lit(";"); comment(cm);
	Code c = k == 0 ? (Code)parse_class(source()) : k == 1 ? (Code)parse_struct(source()) : (Code)parse_union(source());
	CHECK(valid(c, k == 0 ? CT_Class_Fwd : k == 1 ? CT_Struct_Fwd : CT_Union_Fwd), "a forward declaration parses"); CHECK(named(c, n), "it has its name");
	CHECK(((c->ModuleFlags & ModuleFlag_Export) != 0) == (e == 1), "it keeps export");
	check_output(c, "a forward declaration serializes to its own tokens");
	REACH("fwd");
}
ENTRY(h_union)
{
	ctx_small(); fresh();
	int e = pick(0, 1, "export"), a = pick(0, 4, "attr"), nm = pick(0, 1, "name"), m = pick(0, 2, "members");
	if (e) lit("export "); lit("union "); lit(ATTRS[a]); Name n; if (nm) n = id(); lit("{");
	for (int i = 0; i < m; i++) switch (pick(0, 6, "member")) {
	case 0: lit("int "); id(); lit(";"); break;
	case 1: id(); lit("* "); id(); lit("["); digit(); lit("];"); break;
	case 2: lit("struct {"); lit("int "); id(); lit(";"); lit("};"); break;
	case 3: lit("struct {"); id(); lit(" "); id(); lit(";} "); id(); lit(";"); break;
	case 4: lit("//"); id(); lit("\n"); break;
	case 5: lit("\n#if "); id(); lit("\n"); lit("int "); id(); lit(";\n"); lit("#endif\n"); break;
	case 6: lit("int "); id(); lit(":"); digit(); lit(";"); break;
	}
	lit("};");
	Code c = (Code)parse_union(source());
	CHECK(valid(c, CT_Union), "a union parses"); if (nm) CHECK(named(c, n), "the union has its name");
	check_output(c, "a parsed union serializes to its own tokens");
	REACH("union");
}
static void entry_value(int k) { switch (k) { case 0: break; case 1: sp(); lit("="); digit(); break; case 2: lit("="); id(); lit("<<"); digit(); lit("|"); id(); break; case 3: lit("="); lit("("); id(); lit(","); digit(); lit(")"); break; case 4: lit("="); id(); lit("("); digit(); lit(","); sp(); id(); lit(")"); break; case 5: lit(" = -"); digit(); break; case 6: lit("='"); lit(",'"); break; case 7: lit("= "); id(); lit("::"); id(); break; } }
ENTRY(h_enum)
{
	ctx_small(); fresh();
	int cl = pick(0, 1, "class"), a = pick(0, 4, "attr"), u = pick(0, 3, "under"), m = pick(0, 3, "entries"), tr = pick(0, 1, "trailing"), cm = m == 1 ? pick(0, 2, "comment") : 0;
	lit(cl ? "enum class " : "enum "); lit(ATTRS[a]); Name n = id();
	if (u) { sp(); lit(":"); sp(); if (u == 1) lit("int"); else if (u == 2) id(); else lit("unsigned char"); }
	lit("{"); sp();
	for (int i = 0; i < m; i++) { if (i) lit(","); id(); if (a == 0 && u < 2) { if (m < 3 || i == 1) entry_value(pick(0, 7, "value")); } else entry_value(1); }
	if (tr && m) lit(","); sp(); lit("}"); lit(";"); comment(cm);
	Code c = (Code)parse_enum(source());
	CHECK(valid(c, cl ? CT_Enum_Class : CT_Enum), "an enumeration parses"); CHECK(named(c, n), "the enumeration has its name");
	CHECK((((CodeEnum)c)->UnderlyingType.ast != nullptr) == (u != 0) && (((CodeEnum)c)->Attributes.ast != nullptr) == (a != 0), "the enumeration keeps its parts");
	check_output(c, "a parsed enumeration serializes to its own tokens");
	REACH("enum");
}
// comments, blank lines, directives and attributes between entries
ENTRY(h_enum_layout)
{
	ctx_small(); fresh();
	lit("enum "); Name n = id(); lit("{\n");
	for (int i = 0; i < 3; i++) switch (pick(0, 5, "part")) {
	case 0: id(); lit(","); src("\n"); break;
	case 1: id(); lit(" = "); digit(); lit(","); src(" "); lit("//"); id(); lit("\n"); break;
	case 2: lit("//"); id(); lit("\n"); break;
	case 3: lit("\n#ifdef "); id(); lit("\n"); break;
	case 4: src("\n"); break;
	case 5: id(); lit(" [[deprecated]],\n"); break;
	}
	id(); lit("\n};");
	Code c = (Code)parse_enum(source());
	CHECK(valid(c, CT_Enum), "an enumeration parses"); CHECK(named(c, n), "the enumeration has its name");
	check_output(c, "a parsed enumeration serializes to its own tokens");
	REACH("layout");
}
ENTRY(h_enum_fwd)
{
	ctx_small(); fresh();
	int cl = pick(0, 1, "class"), a = pick(0, 4, "attr"), u = pick(0, 3, "under"), cm = pick(0, 2, "comment"); if (!cl && !u) return;
	lit(cl ? "enum class " : "enum "); lit(ATTRS[a]); Name n = id();
	if (u) { sp(); lit(":"); sp(); if (u == 1) lit("int"); else if (u == 2) id(); else lit("unsigned char"); }
	lit(";"); comment(cm);
	Code c = (Code)parse_enum(source());
	CHECK(valid(c, cl ? CT_Enum_Class_Fwd : CT_Enum_Fwd), "an enumeration parses"); CHECK(named(c, n), "the enumeration has its name");
	check_output(c, "a declared enumeration serializes to its own tokens");
	REACH("efwd");
}
ENTRY(h_using)
{
	ctx_small(); fresh();
	int k = pick(0, 5, "kind"), e = k < 3 ? pick(0, 1, "export") : 0, cm = pick(0, 2, "comment"); Name n = { { 0, 0 } };
	if (e) lit("export "); lit("using ");
	switch (k) {
	case 0: n = id(); lit("="); { int b = pick(0, 8, "base"); type_base(b); if (b < 2) type_suffix(pick(0, 9, "suffix")); } break;
	case 1: n = id(); lit(" [[deprecated]]"); lit("="); id(); break;
	case 2: n = id(); lit("="); id(); lit(" (*)("); id(); lit(","); sp(); lit("int)"); break;
	case 3: lit("namespace "); n = id(); break;
	case 4: id(); lit("::"); id(); break;
	case 5: lit("namespace "); id(); lit("::"); id(); break;
	}
	lit(";"); comment(cm);
	Code c = (Code)parse_using(source());
	CHECK(valid(c, k == 3 || k == 5 ? CT_Using_Namespace : CT_Using), "an alias parses"); if (n.c[0]) CHECK(named(c, n), "the alias has its name");
	check_output(c, "a parsed alias serializes to its own tokens");
	REACH("using");
}
ENTRY(h_typedef)
{
	ctx_small(); fresh();
	int k = pick(0, 12, "kind"), e = pick(0, 1, "export"), cm = pick(0, 2, "comment"); Name n = { { 0, 0 } };
	if (e) lit("export "); lit("typedef ");
	switch (k) {
	case 0: { int b = pick(0, 8, "base"); type_base(b); if (b < 2) type_suffix(pick(0, 9, "suffix")); lit(" "); n = id(); } break;
	case 1: id(); lit(" "); n = id(); lit("["); digit(); lit("]"); break;
	case 2: lit("int"); sp(); lit("(*"); id(); lit(")("); /* (named as declared: with the star) */ id(); lit("* "); id(); lit(","); lit("int)"); break;
	case 3: lit("struct "); id(); lit("{"); lit("int "); id(); lit(";"); lit("} "); n = id(); break;
	case 4: lit("struct {"); id(); lit(" "); id(); lit(";} "); n = id(); break;
	case 5: lit("enum "); id(); lit("{"); id(); lit(","); id(); lit("="); digit(); lit("} "); n = id(); break;
	case 6: lit("union {"); lit("int "); id(); lit(";} "); n = id(); break;
	case 7: id(); lit(" "); n = id(); lit("("); id(); lit(" "); id(); lit(","); id(); lit("&)"); break;
	case 8: id(); lit("* "); n = id(); lit("["); digit(); lit("]["); id(); lit("]"); break;
	case 9: lit("enum class "); id(); lit(":int{"); id(); lit("} "); n = id(); break;
	case 10: lit("struct {"); lit("struct {int "); id(); lit(";};"); lit("int "); id(); lit(";} "); n = id(); break;
	case 11: lit("struct "); id(); lit("{union {int "); id(); lit(";"); id(); lit("* "); id(); lit(";} "); id(); lit(";"); lit("int "); id(); lit(";} "); n = id(); break;
	case 12: lit("union {struct {int "); id(); lit(";} "); id(); lit(";struct {int "); id(); lit(";};int "); id(); lit(";} "); n = id(); break;
	}
	lit(";"); comment(cm);
	Code c = (Code)parse_typedef(source());
	CHECK(valid(c, CT_Typedef), "a typedef parses"); if (n.c[0]) CHECK(named(c, n), "the typedef has its name");
	check_output(c, "a parsed typedef serializes to its own tokens");
	REACH("typedef");
}
static void tparam(int k)
{
	switch (k) {
	case 0: lit("class "); id(); break;
	case 1: lit("typename "); id(); break;
	case 2: lit("int "); id(); break;
	case 3: lit("class "); id(); lit("="); id(); lit("<"); id(); lit(">"); sp(); break;
	case 4: lit("typename... "); id(); break;
	case 5: lit("bool "); id(); lit("="); lit("true"); break;
	case 6: id(); lit("<"); id(); lit("> "); id(); break;
	case 7: lit("class"); break;
	case 8: lit("int "); id(); lit(" = "); digit(); lit("+"); id(); break;
	case 9: lit("typename "); id(); lit(" = "); lit("int"); break;
	case 10: id(); lit("* "); id(); lit("="); lit("nullptr"); break;
	case 11: id(); lit(" const*... "); id(); break;
	case 12: lit("int... "); id(); break;
	case 13: lit("class..."); break;
	case 14: lit("class "); id(); lit("="); id(); lit("<"); id(); lit("<"); id(); lit(",int>,"); id(); lit(">"); sp(); break;
	case 15: id(); lit("<"); id(); lit(">&... "); id(); break;
	case 16: lit("auto "); id(); lit("="); id(); lit("["); digit(); lit(","); id(); lit("]"); break;
	case 17: lit("int "); id(); lit("="); id(); lit("("); id(); lit("<"); id(); lit(",int>(),"); digit(); lit(")"); break;
	}
}
enum { NTPARAMS = 18 };
ENTRY(h_template)
{
	ctx_small(); fresh();
	int np = pick(0, 2, "params"), d = pick(0, 11, "decl"), e = np < 2 ? pick(0, 1, "export") : 0;
	if (e) lit("export "); lit("template<");
	for (int i = 0; i < np; i++) { if (i) { lit(","); sp(); } tparam(pick(0, NTPARAMS - 1, "param")); }
	lit(">"); src(" ");
	int want = 0;
	switch (d) {
	case 0: lit("class "); id(); lit(";"); want = CT_Class_Fwd; break;
	case 1: lit("struct "); id(); lit("{"); id(); lit(" "); id(); lit(";"); lit("};"); want = CT_Struct; break;
	case 2: id(); lit(" "); id(); lit("("); id(); lit(" "); id(); lit(")"); lit("{return "); id(); lit(";}"); want = CT_Function; break;
	case 3: lit("inline "); id(); lit("* "); id(); lit("();"); want = CT_Function_Fwd; break;
	case 4: lit("using "); id(); lit("="); id(); lit("<"); id(); lit(">;"); want = CT_Using; break;
	case 5: lit("constexpr "); id(); lit(" "); id(); lit("="); digit(); lit(";"); want = CT_Variable; break;
	case 6: lit("struct "); id(); lit("<"); id(); lit("*>{"); lit("};"); want = CT_Struct; break;
	case 7: id(); lit("& operator<<("); id(); lit("& "); id(); lit(","); id(); lit(" "); id(); lit(");"); want = CT_Operator_Fwd; break;
	case 8: id(); lit(" "); id(); lit("<"); id(); lit(">::"); id(); lit("(int "); id(); lit("){}"); want = CT_Function; break;
	case 9: lit("union "); id(); lit("{int "); id(); lit(";};"); want = CT_Union; break;
	case 10: lit("[[nodiscard]] "); id(); lit(" "); id(); lit("();"); want = CT_Function_Fwd; break;
	case 11: lit("class "); id(); lit(":public "); id(); lit("{};"); want = CT_Class; break;
	}
	Code c = (Code)parse_template(source());
	CHECK(valid(c, CT_Template), "a template parses"); Code dc = ((CodeTemplate)c)->Declaration;
	CHECK(valid(dc, want), "the template declares what was written");
	CodeParams ps = ((CodeTemplate)c)->Params; CHECK((ps ? ps->NumEntries : 0) == np, "the template keeps its parameters");
	CHECK(((c->ModuleFlags & ModuleFlag_Export) != 0) == (e == 1), "the template keeps export");
	check_output(c, "a parsed template serializes to its own tokens");
	REACH("template");
}
ENTRY(h_friend)
{
	ctx_small(); fresh();
	int k = pick(0, 7, "kind"), cm = k < 4 ? pick(0, 2, "comment") : 0;
	lit("friend ");
	switch (k) {
	case 0: lit("class "); id(); lit(";"); break;
	case 1: id(); lit(";"); break;
	case 2: lit("struct "); id(); lit("<"); id(); lit(">;"); break;
	case 3: id(); lit("::"); id(); lit(";"); break;
	case 4: { int b = pick(0, 8, "base"); type_base(b); if (b < 2) type_suffix(pick(0, 9, "suffix")); lit(" "); id(); lit("("); id(); lit(" "); id(); lit(");"); } break;
	case 5: id(); lit("& operator+("); id(); lit(" const& "); id(); lit(","); id(); lit(" "); id(); lit(");"); break;
	case 6: lit("inline void "); id(); lit("(int "); id(); lit("){"); id(); lit("();}"); break;
	case 7: lit("bool operator==("); id(); lit(" "); id(); lit(","); id(); lit(" "); id(); lit("){return "); digit(); lit(";}"); break;
	}
	comment(cm);
	Code c = (Code)parse_friend(source());
	CHECK(valid(c, CT_Friend) && ((CodeFriend)c)->Declaration.ast, "a friend parses");
	check_output(c, "a parsed friend serializes to its own tokens");
	REACH("friend");
}
ENTRY(h_space)
{
	ctx_small(); fresh();
	int k = pick(0, 3, "kind"), m = pick(0, 5, "members"), e = 0; // (export of a namespace: bodies)
	if (m == 2) return; // (access labels)
	Name n = { { 0, 0 } };
	switch (k) {
	case 0: if (e) lit("export "); lit("namespace "); n = id(); break;
	case 1: lit("namespace "); id(); lit("::"); id(); break;
	case 2: lit("extern \"C\""); break;
	case 3: lit("export"); break;
	}
	sp(); lit("{"); sp(); members(m); lit("\n"); members(1); lit("}");
	Code c = k < 2 ? (Code)parse_namespace(source()) : k == 2 ? (Code)parse_extern_link(source()) : (Code)parse_export_body(source());
	CHECK(valid(c, k < 2 ? CT_Namespace : k == 2 ? CT_Extern_Linkage : CT_Export_Body), "a block parses"); if (n.c[0]) CHECK(named(c, n), "the block has its name");
	check_output(c, "a parsed block serializes to its own tokens");
	REACH("space");
}
