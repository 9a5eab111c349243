#include "common.hpp"
#include "gram.hpp"
// Declarations built by the upfront constructors out of parts. The strings handed over are exact, unterminated, and gone afterwards.
static char* held_[64]; static int nheld_;
static Str keep(char const* p, long long n) { char* q = exact(p, n); held_[nheld_++] = q; return mkstr(q, n); }
static Str str(char const* s) { return keep(s, zlen(s)); }
static Str str(Name n) { return keep(n.c, 2); }
static void drop() { while (nheld_) { nheld_--; held_[nheld_][0] = '#'; sym_free(held_[nheld_]); } }
static void begin() { ctx_small(); fresh(); nheld_ = 0; }
static Name nm() { return fresh_name(); }
static void exn(Name n) { use(&X, n); }
static Code raw(char const* s) { return untyped_str(str(s)); }
static void done(Code c, int type, char const* what)
{
	CHECK(valid(c, type), "the constructor gives a node of its kind");
	drop(); // the node owns its strings
	check_output(c, what);
	check_output(c, "serializing again gives the same");
	REACH("built");
}
// --- parts; each gives the node and appends its tokens
static CodeAttributes attr(int k) { switch (k) { case 1: ex("[[nodiscard]] "); return def_attributes(str("[[nodiscard]]")); case 2: ex("__declspec(dllexport) "); return def_attributes(str("__declspec(dllexport)")); } return NullCode; }
static CodeSpecifiers specs(int k)
{
	Specifier two[] = { Spec_Static, Spec_Inline };
	switch (k) {
	case 1: ex("static "); return def_specifier(Spec_Static);
	case 2: ex("inline "); return def_specifiers(1, Spec_Inline);
	case 3: ex("static constexpr "); return def_specifiers(2, Spec_Static, Spec_Constexpr);
	case 4: ex("static inline "); return def_specifiers_arr(2, two);
	case 5: ex("extern "); return def_specifier(Spec_External_Linkage);
	}
	return NullCode;
}
static CodeTypename type(int k)
{
	Name n;
	switch (k) {
	case 0: ex("int "); return t_int;
	case 1: { n = nm(); exn(n); return def_type(str(n)); }
	case 2: { n = nm(); exn(n); ex("*"); return def_type(str(n), { Tag_None, NullCode, def_specifier(Spec_Ptr), NullCode }); }
	case 3: { n = nm(); exn(n); ex(" const"); return def_type(str(n), { Tag_None, NullCode, def_specifier(Spec_Const), NullCode }); }
	case 4: { n = nm(); exn(n); ex(" const*"); return def_type(str(n), { Tag_None, NullCode, def_specifiers(2, Spec_Const, Spec_Ptr), NullCode }); }
	case 5: { n = nm(); exn(n); ex(" const&"); return def_type(str(n), { Tag_None, NullCode, def_specifiers(2, Spec_Const, Spec_Ref), NullCode }); }
	case 6: { n = nm(); ex("struct "); exn(n); return def_type(str(n), { Tag_Struct, NullCode, NullCode, NullCode }); }
	case 7: { n = nm(); ex("enum "); exn(n); ex("*"); return def_type(str(n), { Tag_Enum, NullCode, def_specifier(Spec_Ptr), NullCode }); }
	case 8: { n = nm(); exn(n); ex("<"); exn(n); ex(">"); char b[6] = { n.c[0], n.c[1], '<', n.c[0], n.c[1], '>' }; return def_type(keep(b, 6)); }
	case 9: ex("void "); return t_void;
	case 10: { n = nm(); exn(n); ex("&&"); return def_type(str(n), { Tag_None, NullCode, def_specifier(Spec_RValue), NullCode }); }
	}
	return NullCode;
}
enum { NTYPES = 11 };
static Code value(int k)
{
	switch (k) {
	case 1: ex("1+f(2,{3})"); return raw("1 + f( 2, {3} )");
	case 2: { char d = (char)sym_range('0', '9', "digit"); to(&X, d); return untyped_str(keep(&d, 1)); }
	case 3: ex("\"x;\""); return raw("\"x;\"");
	}
	return NullCode;
}
static CodeParams params(int k)
{
	Name a = nm(), b = nm(); int v;
	switch (k) {
	case 0: return NullCode;
	case 1: { CodeTypename t = type(pick(0, NTYPES - 1, "type")); ex(" "); exn(a); v = pick(0, 2, "value"); if (v) ex("="); Code c = value(v); return def_param(t, str(a), { c }); }
	case 2: { ex("int "); exn(a); ex(","); CodeParams p = def_param(t_int, str(a)); CodeTypename t = type(pick(0, 5, "type")); ex(" "); exn(b); return def_params(2, p, def_param(t, str(b))); }
	case 3: { ex("int "); exn(a); v = pick(0, 2, "value"); if (v) ex("="); CodeParams p[3]; p[0] = def_param(t_int, str(a), { value(v) }); ex(","); CodeTypename t = type(2); ex(" "); exn(b); if (v) ex("="); p[1] = def_param(t, str(b), { value(v) }); return def_params_arr(2, p); }
	case 4: { ex("int "); exn(a); ex(",int "); exn(b); ex(",int "); exn(a); return def_params(3, def_param(t_int, str(a)), def_param(t_int, str(b)), def_param(t_int, str(a))); }
	case 5: { CodeParams p = def_param(type(1), str(a)); ex(" "); exn(a); return def_params_arr(1, &p); }
	case 6: { CodeParams p = def_param(type(1), str(a)); ex(" "); exn(a); return def_params(1, p); }
	}
	return NullCode;
}
enum { NPARAMS = 7 };
static int nparams(int k) { static int const N[] = { 0, 1, 2, 2, 3, 1, 1 }; return N[k]; }
static CodeBody fnbody(int k)
{
	ex("{"); CodeBody r = NullCode;
	switch (k) {
	case 0: { ex("f(1);"); r = def_function_body(1, raw("f(1);")); break; }
	case 1: { ex("f(1);g();"); Code c[2] = { raw("f(1);"), raw("\ng();") }; r = def_function_body_arr(2, c); break; }
	case 2: { ex("return 2;"); r = def_function_body(1, def_execution(str("return 2;"))); break; }
	case 3: { Name n = nm(); ex("int "); exn(n); ex(";f();"); r = def_function_body(2, def_variable(t_int, str(n)), raw("f();")); break; }
	case 4: { ex("f();"); r = cast(CodeBody, raw("f();")); break; }
	case 5: { ex("f();"); r = cast(CodeBody, (Code)def_execution(str("f();"))); break; }
	}
	ex("}"); return r;
}
static ModuleFlag flags(int e) { if (e) ex("export "); return e ? ModuleFlag_Export : ModuleFlag_None; }

ENTRY(h_up_var)
{
	begin(); Opts_def_variable o = {}; o.mflags = flags(pick(0, 1, "export"));
	o.attributes = attr(pick(0, 2, "attr")); o.specifiers = specs(pick(0, 5, "specs"));
	CodeTypename t = type(pick(0, NTYPES - 1, "type")); Name n = nm(); ex(" "); exn(n);
	int v = pick(0, 3, "value"); if (v) ex("="); o.value = value(v); ex(";");
	CodeVar c = def_variable(t, str(n), o);
	CHECK(named((Code)c, n) && c->ValueType.ast == t.ast && c->Value.ast == o.value.ast && c->Attributes.ast == o.attributes.ast && c->Specs.ast == o.specifiers.ast, "the variable holds its parts");
	done((Code)c, CT_Variable, "a variable prints as its parts");
}
ENTRY(h_up_fn)
{
	begin(); Opts_def_function o = {}; o.mflags = flags(pick(0, 1, "export")); int a = pick(0, 2, "attr"), s = a ? 0 : pick(0, 7, "specs"), t = (a || s) ? 1 : pick(-1, NTYPES - 1, "ret"), p = (a || s) ? pick(0, 1, "params") : pick(0, NPARAMS - 1, "params"), b = pick(-1, 5, "body");
	o.attrs = attr(a); CodeSpecifiers after = NullCode; if (s < 6) o.specs = specs(s); else if (s == 6) o.specs = def_specifier(Spec_Const); else { ex("virtual "); o.specs = def_specifiers(3, Spec_Virtual, Spec_Const, Spec_Override); }
	if (t >= 0) o.ret_type = type(t); else ex("void");
	Name n = nm(); ex(" "); exn(n); ex("("); o.params = params(p); ex(")"); if (s == 6) ex("const"); if (s == 7) ex("const override");
	if (b >= 0) o.body = fnbody(b); else ex(";");
	CodeFn f = def_function(str(n), o);
	CHECK(named((Code)f, n) && f->Params.ast == o.params.ast && f->Body.ast == o.body.ast && f->Specs.ast == o.specs.ast && (t < 0 || f->ReturnType.ast == o.ret_type.ast), "the function holds its parts");
	CHECK((f->Params ? f->Params->NumEntries : 0) == nparams(p), "the parameter list knows how many it has");
	done((Code)f, b >= 0 ? CT_Function : CT_Function_Fwd, "a function prints as its parts");
}
static Code member(int k, bool cls)
{
	Name n = nm(); Code c = NullCode;
	switch (k) {
	case 0: ex("int "); exn(n); ex(";"); c = (Code)def_variable(t_int, str(n)); break;
	case 1: { ex("f();"); c = raw("f();\n"); break; }
	case 2: ex("//x\n"); c = (Code)def_comment(str("x")); break;
	case 3: ex("public:"); c = (Code)access_public; break;
	case 4: { ex("typedef int "); exn(n); ex(";"); c = (Code)def_typedef(str(n), (Code)t_int); break; }
	case 5: { ex("struct "); exn(n); ex(";"); c = (Code)def_struct(str(n)); break; }
	case 6: { ex("using "); exn(n); ex("="); CodeTypename t = type(4); ex(";"); c = (Code)def_using(str(n), t); break; }
	}
	return c;
}
static CodeBody recbody(int k, bool cls)
{
	ex("{"); CodeBody r = NullCode; Code c[3];
	switch (k) {
	case 0: c[0] = member(pick(0, 6, "member"), cls); r = cls ? def_class_body(1, c[0]) : def_struct_body(1, c[0]); break;
	case 1: c[0] = member(pick(0, 6, "member"), cls); c[1] = member(pick(0, 1, "member2"), cls); r = cls ? def_class_body(2, c[0], c[1]) : def_struct_body(2, c[0], c[1]); break;
	case 2: c[0] = member(0, cls); c[1] = member(pick(0, 6, "member"), cls); c[2] = member(0, cls); r = cls ? def_class_body_arr(3, c) : def_struct_body_arr(3, c); break;
	}
	CHECK(valid((Code)r, cls ? CT_Class_Body : CT_Struct_Body), "the body is of its kind");
	ex("};"); return r;
}
ENTRY(h_up_record)
{
	begin(); Opts_def_struct o = {}; o.mflags = flags(pick(0, 1, "export")); bool cls = pick(0, 1, "class"); int b = pick(-1, 2, "body"), np = pick(0, 4, "bases"), fin = b >= 0 ? pick(0, 1, "final") : 0, acc = pick(0, 3, "access");
	if (b < 0 && np) return; if (!np && acc) return; // (a forward declaration has no bases)
	ex(cls ? "class " : "struct "); o.attributes = attr(pick(0, 2, "attr")); Name n = nm(), bn[4]; exn(n); if (fin) { ex(" final"); o.specifiers = def_specifier(Spec_Final); }
	static AccessSpec const AC[] = { AccessSpec_Default, AccessSpec_Private, AccessSpec_Protected, AccessSpec_Public }; CodeTypename ifs[3];
	for (int i = 0; i < np; i++) bn[i] = nm();
	if (np)
	{
		ex(":"); bool pub = np > 1; // (further bases make the first one public)
		o.parent = def_type(str(bn[0])); o.parent_access = AC[acc];
		if (pub || acc == 3) ex("public "); else if (acc == 1) ex("private "); else if (acc == 2) ex("protected ");
		exn(bn[0]); for (int i = 1; i < np; i++) { ex(cls ? ",public " : ","); exn(bn[i]); ifs[i - 1] = def_type(str(bn[i])); } o.interfaces = ifs; o.num_interfaces = np - 1;
	}
	if (b >= 0) o.body = recbody(b, cls); else ex(";");
	Code c = cls ? (Code)def_class(str(n), o) : (Code)def_struct(str(n), o);
	CHECK(named(c, n), "the type has its name");
	done(c, cls ? (b >= 0 ? CT_Class : CT_Class_Fwd) : (b >= 0 ? CT_Struct : CT_Struct_Fwd), "a record prints as its parts");
}
ENTRY(h_up_enum)
{
	begin(); Opts_def_enum o = {}; o.mflags = flags(pick(0, 1, "export")); bool cls = pick(0, 1, "class"); int b = pick(-1, 2, "body"), t = pick(-1, 1, "under"), a = pick(0, 2, "attr");
	if (b < 0 && t < 0 && !cls) return; // (needs an underlying type)
	o.specifier = cls ? EnumDecl_Class : EnumDecl_Regular; ex(cls ? "enum class " : "enum "); o.attributes = attr(a); Name n = nm(); exn(n);
	if (t >= 0) { ex(":"); o.type = type(t); }
	if (b >= 0)
	{
		ex("{"); Code c[3]; Name x = nm(), y = nm(); char e[3] = { x.c[0], x.c[1], ',' }; exn(x); ex(",");
		c[0] = untyped_str(keep(e, 3));
		if (b == 0) o.body = def_enum_body(1, c[0]);
		if (b == 1) { ex("//q\n"); exn(y); ex("=2"); c[1] = (Code)def_comment(str("q")); char f[4] = { y.c[0], y.c[1], '=', '2' }; c[2] = untyped_str(keep(f, 4)); o.body = def_enum_body(3, c[0], c[1], c[2]); }
		if (b == 2) { exn(y); c[1] = untyped_str(str(y)); o.body = def_enum_body_arr(2, c); }
		CHECK(valid((Code)o.body, CT_Enum_Body), "the body is of its kind");
		ex("};");
	}
	else ex(";");
	CodeEnum c = def_enum(str(n), o);
	CHECK(named((Code)c, n), "the type has its name");
	done((Code)c, cls ? (b >= 0 ? CT_Enum_Class : CT_Enum_Class_Fwd) : (b >= 0 ? CT_Enum : CT_Enum_Fwd), "an enumeration prints as its parts");
}
// Everything else that is built from parts.
ENTRY(h_up_more)
{
	begin(); int k = pick(0, 11, "kind"); Name n = nm(), m = nm(); Code c = NullCode; int want = 0, e, a;
	switch (k) {
	case 0: { Opts_def_using o = {}; o.mflags = flags(pick(0, 1, "export")); ex("using "); exn(n); ex(" "); o.attributes = attr(pick(0, 2, "attr")); ex("="); CodeTypename t = type(pick(0, NTYPES - 1, "type")); ex(";"); c = (Code)def_using(str(n), t, o); want = CT_Using; break; }
	case 1: ex("using namespace "); exn(n); ex(";"); c = (Code)def_using_namespace(str(n)); want = CT_Using_Namespace; break;
	case 2: { Opts_def_typedef o = {}; o.mflags = flags(pick(0, 1, "export")); ex("typedef "); CodeTypename t = type(pick(0, NTYPES - 1, "type")); ex(" "); exn(n); ex(";"); c = (Code)def_typedef(str(n), (Code)t, o); want = CT_Typedef; break; }
	case 3: { Opts_def_union o = {}; o.mflags = flags(pick(0, 1, "export")); ex("union "); o.attributes = attr(pick(0, 2, "attr")); exn(n); ex("{int a;//q\nint b;};"); Code p[3] = { raw("int a;"), (Code)def_comment(str("q")), raw("int b;") }; CodeBody b = pick(0, 1, "arr") ? def_union_body_arr(3, p) : def_union_body(3, p[0], p[1], p[2]); c = (Code)def_union(str(n), b, o); want = CT_Union; break; }
	case 4: { Opts_def_namespace o = {}; o.mflags = flags(pick(0, 1, "export")); ex("namespace "); exn(n); ex("{int "); exn(m); ex(";f();}"); Code p[2] = { (Code)def_variable(t_int, str(m)), raw("f();") }; CodeBody b = pick(0, 1, "arr") ? def_namespace_body_arr(2, p) : def_namespace_body(2, p[0], p[1]); CHECK(valid((Code)b, CT_Namespace_Body), "the body is of its kind"); c = (Code)def_namespace(str(n), b, o); want = CT_Namespace; break; }
	case 5: { ex("extern \"C\"{int "); exn(m); ex(";f();}"); Code p[2] = { (Code)def_variable(t_int, str(m)), raw("f();") }; CodeBody b = pick(0, 1, "arr") ? def_extern_link_body_arr(2, p) : def_extern_link_body(2, p[0], p[1]); c = (Code)def_extern_link(str("C"), b); want = CT_Extern_Linkage; break; }
	case 6: { ex("export {int "); exn(m); ex(";f();}"); Code p[2] = { (Code)def_variable(t_int, str(m)), raw("f();") }; c = (Code)(pick(0, 1, "arr") ? def_export_body_arr(2, p) : def_export_body(2, p[0], p[1])); want = CT_Export_Body; break; }
	case 7: { ex("int "); exn(m); ex(";f();//q\n"); Code p[3] = { (Code)def_variable(t_int, str(m)), raw("f();"), (Code)def_comment(str("q")) }; c = (Code)(pick(0, 1, "arr") ? def_global_body_arr(3, p) : def_global_body(3, p[0], p[1], p[2])); want = CT_Global_Body; break; }
	case 8: { ex("friend "); int d = pick(0, 2, "decl"); Code q; if (d == 0) { ex("class "); exn(n); ex(";"); q = (Code)def_class(str(n)); } else if (d == 1) { ex("struct "); exn(n); ex(";"); q = (Code)def_struct(str(n)); } else { ex("void "); exn(n); ex("("); Opts_def_function o = {}; o.params = params(pick(0, NPARAMS - 1, "params")); ex(");"); q = (Code)def_function(str(n), o); } c = (Code)def_friend(q); want = CT_Friend; break; }
	case 9: { Opts_def_template o = {}; o.mflags = flags(pick(0, 1, "export")); ex("template<"); CodeParams p = params(pick(0, NPARAMS - 1, "params")); ex(">"); int d = pick(0, 4, "decl"); Code q;
		switch (d) {
		case 0: { Opts_def_struct r = {}; ex("class "); exn(n); r.body = recbody(0, true); q = (Code)def_class(str(n), r); break; }
		case 1: { Opts_def_struct r = {}; ex("struct "); exn(n); r.body = recbody(0, false); q = (Code)def_struct(str(n), r); break; }
		case 2: { Opts_def_function r = {}; ex("void "); exn(n); ex("()"); r.body = fnbody(0); q = (Code)def_function(str(n), r); break; }
		case 3: { ex("int "); exn(n); ex(";"); q = (Code)def_variable(t_int, str(n)); break; }
		case 4: { ex("using "); exn(n); ex("=int;"); q = (Code)def_using(str(n), t_int); break; }
		}
		c = (Code)def_template(p, q, o); want = CT_Template; break; }
	case 10: { Opts_def_operator_cast o = {}; ex("operator "); CodeTypename t = type(pick(0, NTYPES - 1, "type")); ex("()"); if (pick(0, 1, "const")) { ex(" const"); o.specs = def_specifier(Spec_Const); } int b = pick(-1, 4, "body"); if (b >= 0) o.body = fnbody(b == 4 ? 5 : b); else ex(";"); c = (Code)def_operator_cast(t, o); want = b >= 0 ? CT_Operator_Cast : CT_Operator_Cast_Fwd; break; }
	case 11: { bool cls = pick(0, 1, "class"); ex(cls ? "class " : "struct "); exn(n); ex("{"); Opts_def_constructor o = {}; int b = pick(-1, 2, "body"), d = pick(-1, 2, "dbody"), v = pick(0, 1, "virtual"); exn(n); ex("("); o.params = params(pick(0, NPARAMS - 1, "params")); ex(")"); if (b >= 0 && pick(0, 1, "init")) { ex(":a(1)"); o.initializer_list = raw("a(1)"); } if (b >= 0) o.body = (Code)fnbody(b); else ex(";"); CodeConstructor q = def_constructor(o); CHECK(valid((Code)q, b >= 0 ? CT_Constructor : CT_Constructor_Fwd), "a constructor is declared or defined as given"); Opts_def_destructor p = {}; if (v) { ex("virtual "); p.specifiers = def_specifier(Spec_Virtual); } ex("~"); exn(n); ex("()"); if (d >= 0) p.body = (Code)fnbody(d); else ex(";"); CodeDestructor r = def_destructor(p); CHECK(valid((Code)r, d >= 0 ? CT_Destructor : CT_Destructor_Fwd), "a destructor is declared or defined as given"); ex("};"); Opts_def_struct s = {}; s.body = cls ? def_class_body(2, (Code)q, (Code)r) : def_struct_body(2, (Code)q, (Code)r); c = cls ? (Code)def_class(str(n), s) : (Code)def_struct(str(n), s); want = cls ? CT_Class : CT_Struct; break; }
	}
	done(c, want, "what was built prints as its parts");
}
ENTRY(h_up_text)
{
	begin(); int k = pick(0, 9, "kind"); Name n = nm(); Code c = NullCode; int want = 0;
	switch (k) {
	case 0: ex("#define "); exn(n); { int v = pick(0, 2, "content"); Opts_def_define o = {}; if (v == 1) { ex(" 1+a"); o.content = str("1+a"); } if (v == 2) { ex(" f(\"x\")"); o.content = str("f(\"x\")"); } o.dont_register_to_preprocess_macros = pick(0, 1, "dont"); o.flags = MF_Allow_As_Attribute; ex("\n"); c = (Code)def_define(str(n), MT_Expression, o); Macro* m = lookup_macro(str(n)); CHECK((m != nullptr) == !o.dont_register_to_preprocess_macros, "a define registers its macro unless told not to"); if (m) CHECK(m->Type == MT_Expression && m->Flags == MF_Allow_As_Attribute, "the macro is registered as given"); want = CT_Preprocess_Define; } break;
	case 1: ex("#include <"); exn(n); ex(">\n"); c = (Code)def_include(str(n), { true }); want = CT_Preprocess_Include; break;
	case 2: ex("#include \""); exn(n); ex("\"\n"); c = (Code)def_include(str(n)); want = CT_Preprocess_Include; break;
	case 3: ex("#pragma "); exn(n); ex("\n"); c = (Code)def_pragma(str(n)); want = CT_Preprocess_Pragma; break;
	case 4: ex("#if "); exn(n); ex("\n"); c = (Code)def_preprocess_cond(PreprocessCond_If, str(n)); want = CT_Preprocess_If; break;
	case 5: ex("#ifdef "); exn(n); ex("\n"); c = (Code)def_preprocess_cond(PreprocessCond_IfDef, str(n)); want = CT_Preprocess_IfDef; break;
	case 6: ex("#ifndef "); exn(n); ex("\n"); c = (Code)def_preprocess_cond(PreprocessCond_IfNotDef, str(n)); want = CT_Preprocess_IfNotDef; break;
	case 7: ex("#elif "); exn(n); ex("\n"); c = (Code)def_preprocess_cond(PreprocessCond_ElIf, str(n)); want = CT_Preprocess_ElIf; break;
	case 8: exn(n); c = (Code)def_execution(str(n)); want = CT_Execution; break;
	case 9: { ex("[["); exn(n); ex("]]"); char b[6] = { '[', '[', n.c[0], n.c[1], ']', ']' }; c = (Code)def_attributes(keep(b, 6)); want = CT_PlatformAttributes; break; }
	case 10: { ModuleFlag f = pick(0, 1, "export") ? ModuleFlag_Export : ModuleFlag_Import; ex(f == ModuleFlag_Export ? "export " : "import "); exn(n); ex(";"); c = (Code)def_module(str(n), { f }); want = CT_Module; break; }
	}
	CHECK(valid(c, want), "the constructor gives a node of its kind");
	if (k < 8 && pick(0, 1, "followed")) { ex("int z;"); c = (Code)def_global_body(2, c, (Code)def_variable(t_int, str("z"))); want = CT_Global_Body; }
	done(c, want, "a line prints as its content");
}
// comments: every line of the text becomes one line comment
ENTRY(h_up_comment)
{
	begin(); int n = pick(1, option("n", 4), "n"); char t[8]; for (int i = 0; i < n; i++) { int c = sym_range(0, 2, "char"); t[i] = c == 0 ? 'a' : c == 1 ? '\n' : ' '; }
	char w[64]; int m = 0; w[m++] = '/'; w[m++] = '/'; for (int i = 0; i < n; i++) { w[m++] = t[i]; if (t[i] == '\n') { w[m++] = '/'; w[m++] = '/'; } } w[m++] = '\n';
	CodeComment c = def_comment(keep(t, n));
	CHECK(valid((Code)c, CT_Comment), "a comment is built"); drop();
	StrBuilder o = code_to_strbuilder((Code)c); bool same = strbuilder_length(o) == m && bytes_eq(o, w, m);
	if (!same) { w[m] = 0; sym_note("wanted:", 0); sym_note(w, 0); sym_note("got:", 0); sym_note(o, 0); }
	CHECK(same, "every line of the text is one line comment"); REACH("built");
}
// --- parts of the wrong kind: a node of every kind is offered in every place
static CodeType const B_[] = { CT_Class_Body, CT_Enum_Body, CT_Export_Body, CT_Extern_Linkage_Body, CT_Function_Body, CT_Global_Body, CT_Namespace_Body, CT_Struct_Body, CT_Union_Body };
static bool any(CodeType t, int n, ...) { va_list v; va_start(v, n); bool r = false; while (n--) r = r | (t == (CodeType)va_arg(v, int)); va_end(v); return r; }
static Code odd; static CodeType oddt;
static void offer() { oddt = (CodeType)sym_range(CT_Invalid + 1, CT_NumTypes - 1, "type of the part"); odd = make_code(); odd->Type = oddt; odd->Name = cache_str(str("q")); odd->NumEntries = 0; }
enum { NPLACES = 45 };
static Code offered(int k, Name n, bool* ok)
{
	Str s = str(n); Code const q = odd; CodeBody const qb = cast(CodeBody, q); CodeTypename const qt = cast(CodeTypename, q);
	switch (k) {
#define OK_(...) *ok = any(oddt, __VA_ARGS__); if (!*ok) sym_fatal_ok(1); if (*ok) sym_reach("good"); else sym_reach("bad")
#define PART(N, T, F, ALLOW, CALL) case N: { T o = {}; F; OK_ ALLOW; return (Code)CALL; }
#define F1(f) o.f = cast(decltype(o.f), q)
#define Tn 1, CT_Typename
#define Un 1, CT_Untyped
#define At 1, CT_PlatformAttributes
#define Sp 1, CT_Specifiers
#define Pa 1, CT_Parameters
	case 0: OK_(Tn); return (Code)def_variable(qt, s);
	PART(1, Opts_def_variable, F1(value), (Un), def_variable(t_int, s, o))
	PART(2, Opts_def_variable, F1(specifiers), (Sp), def_variable(t_int, s, o))
	PART(3, Opts_def_variable, F1(attributes), (At), def_variable(t_int, s, o))
	PART(4, Opts_def_function, F1(params), (Pa), def_function(s, o))
	PART(5, Opts_def_function, F1(ret_type), (Tn), def_function(s, o))
	PART(6, Opts_def_function, F1(specs), (Sp), def_function(s, o))
	PART(7, Opts_def_function, F1(attrs), (At), def_function(s, o))
	PART(8, Opts_def_function, F1(body), (3, CT_Function_Body, CT_Execution, CT_Untyped), def_function(s, o))
	PART(9, Opts_def_struct, F1(attributes), (At), def_class(s, o))
	PART(10, Opts_def_struct, F1(parent), (4, CT_Typename, CT_Class, CT_Struct, CT_Untyped), def_class(s, o))
	PART(11, Opts_def_struct, F1(body), (2, CT_Class_Body, CT_Untyped), def_class(s, o))
	PART(12, Opts_def_struct, F1(attributes), (At), def_struct(s, o))
	PART(13, Opts_def_struct, F1(parent), (Tn), def_struct(s, o))
	PART(14, Opts_def_struct, F1(body), (1, CT_Struct_Body), def_struct(s, o))
	PART(15, Opts_def_enum, F1(type), (Tn), def_enum(s, o))
	PART(16, Opts_def_enum, o.type = t_int; F1(attributes), (At), def_enum(s, o))
	PART(17, Opts_def_enum, F1(body), (2, CT_Enum_Body, CT_Untyped), def_enum(s, o))
	case 18: OK_(1, CT_Union_Body); return (Code)def_union(s, qb);
	PART(19, Opts_def_union, F1(attributes), (At), def_union(s, def_union_body(1, raw("a")), o))
	case 20: OK_(2, CT_Namespace_Body, CT_Untyped); return (Code)def_namespace(s, qb);
	case 21: OK_(2, CT_Extern_Linkage_Body, CT_Untyped); return (Code)def_extern_link(s, qb);
	PART(22, Opts_def_operator_cast, F1(body), (2, CT_Function_Body, CT_Execution), def_operator_cast(t_int, o))
	case 23: OK_(Tn); return (Code)def_operator_cast(qt);
	PART(24, Opts_def_constructor, F1(params), (Pa), def_constructor(o))
	PART(25, Opts_def_constructor, F1(body), (2, CT_Function_Body, CT_Untyped), def_constructor(o))
	PART(26, Opts_def_destructor, F1(specifiers), (Sp), def_destructor(o))
	PART(27, Opts_def_destructor, F1(body), (2, CT_Function_Body, CT_Untyped), def_destructor(o))
	case 28: OK_(Tn); return (Code)def_param(qt, s);
	PART(29, Opts_def_param, F1(value), (Un), def_param(t_int, s, o))
	PART(30, Opts_def_using, F1(attributes), (At), def_using(s, t_int, o))
	case 31: OK_(11, CT_Class, CT_Class_Fwd, CT_Enum, CT_Enum_Fwd, CT_Enum_Class, CT_Enum_Class_Fwd, CT_Function_Fwd, CT_Struct, CT_Struct_Fwd, CT_Union, CT_Typename); return (Code)def_typedef(s, q);
	PART(32, Opts_def_typedef, F1(attributes), (At), def_typedef(s, (Code)t_int, o))
	case 33: OK_(Pa); return (Code)def_template(cast(CodeParams, q), (Code)def_variable(t_int, s));
	case 34: OK_(5, CT_Class, CT_Function, CT_Struct, CT_Variable, CT_Using); return (Code)def_template(NullCode, q);
	PART(35, Opts_def_type, F1(attributes), (At), def_type(s, o))
	PART(36, Opts_def_type, F1(specifiers), (Sp), def_type(s, o))
	PART(37, Opts_def_type, F1(array_expr), (Un), def_type(s, o))
	case 38: OK_(8, CT_Class_Fwd, CT_Function_Fwd, CT_Operator_Fwd, CT_Struct_Fwd, CT_Class, CT_Function, CT_Operator, CT_Struct); return (Code)def_friend(q);
	PART(39, Opts_def_operator, o.ret_type = t_int; o.params = def_param(t_int, s); F1(attributes), (At), def_operator(Op_Add, mkstr("", 0), o))
	PART(40, Opts_def_operator, o.ret_type = t_int; o.params = def_param(t_int, s); F1(specifiers), (Sp), def_operator(Op_Add, mkstr("", 0), o))
	PART(41, Opts_def_operator, o.params = def_param(t_int, s); F1(ret_type), (Tn), def_operator(Op_Add, mkstr("", 0), o))
	PART(42, Opts_def_operator, o.ret_type = t_int; o.params = def_param(t_int, s); F1(body), (3, CT_Function_Body, CT_Execution, CT_Untyped), def_operator(Op_Add, mkstr("", 0), o))
	case 43: { CodeParams p = def_param(t_int, s), x[2] = { p, cast(CodeParams, q) }; OK_(Pa); return (Code)(pick(0, 1, "arr") ? def_params_arr(2, x) : def_params(2, x[0], x[1])); }
	case 44: { CodeParams p = def_param(t_int, s), x[2] = { cast(CodeParams, q), p }; OK_(Pa); return (Code)(pick(0, 1, "arr") ? def_params_arr(2, x) : def_params(2, x[0], x[1])); }
	}
	return NullCode;
}
ENTRY(h_up_wrong_part)
{
	begin(); offer(); Name n = nm(); bool ok = false; Code r = offered(pick(0, NPLACES - 1, "place"), n, &ok);
	CHECK(ok == !!(r && r->Type != CT_Invalid), "a part is accepted exactly when it is of a kind that fits"); REACH("decided");
}
// bodies: each kind of body with an entry of every kind
static Code in_body(int k, int arr, Code e, Code f)
{
	Code c[3] = { e, f, e };
	switch (k) {
#define BODY(N, F) case N: return (Code)(arr ? F##_arr(2, c) : F(2, e, f));
	BODY(0, def_class_body) BODY(1, def_struct_body) BODY(2, def_function_body) BODY(3, def_global_body) BODY(4, def_namespace_body) BODY(5, def_extern_link_body) BODY(6, def_export_body) BODY(7, def_enum_body) BODY(8, def_union_body)
	}
	return NullCode;
}
static CodeType const BODYKIND[] = { CT_Class_Body, CT_Struct_Body, CT_Function_Body, CT_Global_Body, CT_Namespace_Body, CT_Extern_Linkage_Body, CT_Export_Body, CT_Enum_Body, CT_Union_Body };
ENTRY(h_up_wrong_entry)
{
	begin(); offer(); int k = pick(0, 8, "body"), arr = pick(0, 1, "arr"), first = pick(0, 1, "first"); Code other = raw("a"); CodeType t = oddt;
	bool part = any(t, 10, CT_PlatformAttributes, CT_Parameters, CT_Specifiers, CT_Typename, CT_Class_Body, CT_Struct_Body, CT_Enum_Body, CT_Function_Body, CT_Namespace_Body, CT_Global_Body); // never an entry by itself
	bool member = any(t, 6, CT_Access_Private, CT_Access_Protected, CT_Access_Public, CT_Friend, CT_Operator_Member, CT_Operator_Member_Fwd);
	bool plain = any(t, 20, CT_Untyped, CT_NewLine, CT_Comment, CT_Variable, CT_Typedef, CT_Using, CT_Class, CT_Class_Fwd, CT_Struct, CT_Struct_Fwd, CT_Union, CT_Enum, CT_Enum_Class, CT_Preprocess_Define, CT_Preprocess_If, CT_Preprocess_IfDef, CT_Preprocess_IfNotDef, CT_Preprocess_Else, CT_Preprocess_EndIf, CT_Preprocess_Pragma);
	bool good, bad;
	if (k >= 7) { good = any(t, 2, CT_Untyped, CT_Comment); bad = !good; }
	else if (k <= 1) { good = plain | member | any(t, 5, CT_Function, CT_Constructor, CT_Constructor_Fwd, CT_Destructor, CT_Destructor_Fwd); bad = part | any(t, 4, CT_Namespace, CT_Extern_Linkage, CT_Operator, CT_Operator_Fwd); }
	else if (k == 2) { good = plain | (t == CT_Execution); bad = part | member | any(t, 4, CT_Namespace, CT_Extern_Linkage, CT_Operator, CT_Operator_Fwd); }
	else { good = plain | any(t, 6, CT_Function, CT_Function_Fwd, CT_Operator, CT_Operator_Fwd, CT_Namespace, CT_Extern_Linkage); bad = (part | member | (t == CT_Execution)) & (t != CT_Global_Body); }
	if (k == 3 && t == CT_Global_Body) { odd = (Code)def_global_body(2, raw("b"), raw("c")); good = true; } // merged into the body it is put in
	ASSUME(good | bad); bool ok = good; if (!ok) sym_fatal_ok(1);
	if (arr && pick(0, 1, "validate"))
	{
		CodeBody v = def_body(BODYKIND[k]); code_append((Code)v, first ? odd : other); code_append((Code)v, first ? other : odd); CHECK(code_validate_body((Code)v) == ok, "a body is valid exactly when its entries fit in it"); REACH("validated"); return;
	}
	Code b = first ? in_body(k, arr, odd, other) : in_body(k, arr, other, odd);
	CHECK(ok == !!(b && b->Type != CT_Invalid), "an entry is accepted exactly when it fits in the body");
	if (ok)
	{
		CHECK(valid(b, BODYKIND[k]), "the body is of its kind"); CodeBody B = cast(CodeBody, b);
		if (k == 3 && t == CT_Global_Body) CHECK(B->NumEntries == 3 && B->Front && B->Front->Next && B->Front->Next->Next && B->Front->Next->Next.ast == B->Back.ast && !B->Back->Next && (first ? B->Back.ast == other.ast : B->Front.ast == other.ast), "the entries of a global body are merged in order");
		else CHECK(B->NumEntries == 2 && B->Front.ast == (first ? odd.ast : other.ast) && B->Back.ast == (first ? other.ast : odd.ast) && B->Front->Next.ast == B->Back.ast && B->Back->Prev.ast == B->Front.ast && !B->Front->Prev && !B->Back->Next && B->Front->Parent.ast == b.ast && B->Back->Parent.ast == b.ast, "the entries are linked in the order given");
	}
	REACH("decided");
}
// missing names, parts and entries
ENTRY(h_up_missing)
{
	begin(); Name n = nm(); Str const s = str(n); int e = pick(0, 2, "empty"); char const* nul = nullptr; Str no = e == 0 ? mkstr(s.Ptr, 0) : e == 1 ? mkstr(nul, 0) : mkstr(nul, 2); Code r = NullCode, c[3] = { raw("a"), NullCode, NullCode }; CodeParams p[2] = { def_param(t_int, s), NullCode };
	CodeBody const nb = NullCode; CodeTypename const nt = NullCode; Code const u = raw("a"); Opts_def_enum oe = {}; oe.type = t_int; int k = pick(0, 34, "what"), arr;
	sym_fatal_ok(1);
	switch (k) {
	case 0: r = (Code)def_variable(t_int, no); break;
	case 1: r = (Code)def_function(no); break;
	case 2: r = (Code)def_class(no); break;
	case 3: r = (Code)def_param(t_int, no); break;
	case 4: r = (Code)def_type(no); break;
	case 5: r = (Code)def_enum(no, oe); break;
	case 6: r = (Code)def_using(no, t_int); break;
	case 7: r = (Code)def_using_namespace(no); break;
	case 8: r = (Code)def_namespace(no, cast(CodeBody, u)); break;
	case 9: r = (Code)def_extern_link(no, cast(CodeBody, u)); break;
	case 10: r = (Code)def_module(no); break;
	case 11: r = (Code)def_include(no); break;
	case 12: r = (Code)def_pragma(no); break;
	case 13: r = (Code)def_preprocess_cond(PreprocessCond_If, no); break;
	case 14: r = (Code)def_comment(no); break;
	case 15: r = (Code)def_attributes(no); break;
	case 16: r = (Code)def_execution(no); break;
	case 17: r = (Code)def_define(no, MT_Expression); break;
	case 18: r = (Code)def_variable(nt, s); break;
	case 19: r = (Code)def_param(nt, s); break;
	case 20: r = (Code)def_using(s, nt); break;
	case 21: r = (Code)def_namespace(s, nb); break;
	case 22: r = (Code)def_extern_link(s, nb); break;
	case 23: r = (Code)def_union(s, nb); break;
	case 24: r = (Code)def_typedef(s, NullCode); break;
	case 25: r = (Code)def_template(p[0], NullCode); break;
	case 26: r = (Code)def_friend(NullCode); break;
	case 27: r = (Code)def_operator_cast(nt); break;
	case 28: r = in_body(pick(0, 8, "body"), pick(0, 1, "arr"), c[0], NullCode); break;
	case 29: r = in_body(pick(0, 8, "body"), pick(0, 1, "arr"), NullCode, c[0]); break;
	case 30: r = (Code)(pick(0, 1, "arr") ? def_params_arr(2, p) : def_params(2, p[0], p[1])); break;
	case 31: r = (Code)(pick(0, 1, "arr") ? def_params_arr(1, p + 1) : def_params(1, p[1])); break;
	case 32: switch (pick(0, 8, "body")) {
#define NONE(N, F) case N: r = (Code)(pick(0, 1, "arr") ? F##_arr(0, c) : F(0)); break;
		NONE(0, def_class_body) NONE(1, def_struct_body) NONE(2, def_function_body) NONE(3, def_global_body) NONE(4, def_namespace_body) NONE(5, def_extern_link_body) NONE(6, def_export_body) NONE(7, def_enum_body) NONE(8, def_union_body)
		} break;
	case 33: r = (Code)(pick(0, 1, "arr") ? def_params_arr(0, p) : def_params(0)); break;
	case 34: { Specifier x[1] = { Spec_Const }; int m = pick(0, 1, "many") ? AST_ArrSpecs_Cap + 1 : 0; r = (Code)(pick(0, 1, "arr") ? def_specifiers_arr(m, x) : def_specifiers(m)); break; }
	}
	CHECK(!(r && r->Type != CT_Invalid), "what is missing is refused"); REACH("refused");
}
// --- operators: every operator in each of its forms; one operand fewer than it takes means the other one is the object it is a member of
struct OpForm { Operator op; char const* text; int fewest, most; }; // how many operands it takes in all
static OpForm const OPFORMS[] = {
	{ Op_Assign, "=", 2, 2 }, { Op_Assign_Add, "+=", 2, 2 }, { Op_Assign_Subtract, "-=", 2, 2 }, { Op_Assign_Multiply, "*=", 2, 2 }, { Op_Assign_Divide, "/=", 2, 2 }, { Op_Assign_Modulo, "%=", 2, 2 }, { Op_Assign_BAnd, "&=", 2, 2 }, { Op_Assign_BOr, "|=", 2, 2 }, { Op_Assign_BXOr, "^=", 2, 2 }, { Op_Assign_LShift, "<<=", 2, 2 }, { Op_Assign_RShift, ">>=", 2, 2 },
	{ Op_Increment, "++", 1, 2 }, { Op_Decrement, "--", 1, 2 }, { Op_Unary_Plus, "+", 1, 1 }, { Op_Unary_Minus, "-", 1, 1 }, { Op_UnaryNot, "!", 1, 1 }, { Op_BNot, "~", 1, 1 }, { Op_Indirection, "*", 1, 1 }, { Op_AddressOf, "&", 1, 1 }, { Op_MemberOfPointer, "->", 1, 1 },
	{ Op_Add, "+", 2, 2 }, { Op_Subtract, "-", 2, 2 }, { Op_Multiply, "*", 2, 2 }, { Op_Divide, "/", 2, 2 }, { Op_Modulo, "%", 2, 2 }, { Op_BAnd, "&", 2, 2 }, { Op_BOr, "|", 2, 2 }, { Op_BXOr, "^", 2, 2 }, { Op_LShift, "<<", 2, 2 }, { Op_RShift, ">>", 2, 2 },
	{ Op_LAnd, "&&", 2, 2 }, { Op_LOr, "||", 2, 2 }, { Op_LEqual, "==", 2, 2 }, { Op_LNot, "!=", 2, 2 }, { Op_Lesser, "<", 2, 2 }, { Op_Greater, ">", 2, 2 }, { Op_LesserEqual, "<=", 2, 2 }, { Op_GreaterEqual, ">=", 2, 2 }, { Op_PtrToMemOfPtr, "->*", 2, 2 }, { Op_Comma, ",", 2, 2 },
	{ Op_Subscript, "[]", 2, 2 }, { Op_FunctionCall, "()", 1, 3 },
};
enum { NOPS = sizeof(OPFORMS) / sizeof(OPFORMS[0]) };
ENTRY(h_up_operator)
{
	begin(); OpForm const& f = OPFORMS[pick(0, NOPS - 1, "op")]; int total = pick(f.fewest, f.most, "operands"); bool only = f.op == Op_Assign || f.op == Op_Subscript || f.op == Op_FunctionCall || f.op == Op_MemberOfPointer, member = only || pick(0, 1, "member"); int given = total - member;
	Opts_def_operator o = {}; int b = pick(-1, 5, "body"), a = b == 0 ? pick(0, 2, "attr") : 0, s = b == 0 && !a ? pick(0, 3, "specs") : 0; Name t = nm(), p1 = nm(), p2 = nm();
	o.mflags = flags(b == 1 && pick(0, 1, "export")); o.attributes = attr(a); if (s && s < 3) o.specifiers = specs(s); if (s == 3) o.specifiers = def_specifier(Spec_Const);
	bool inc = f.op == Op_Increment || f.op == Op_Decrement, post = inc && total == 2; CodeTypename T;
	if (f.op == Op_UnaryNot) { ex("bool"); T = t_bool; } else { exn(t); T = def_type(str(t)); }
	ex(" "); Str ns = mkstr("", 0); if (b == 2 && pick(0, 1, "qualified")) { exn(p1); ex("::"); char q[4] = { p1.c[0], p1.c[1], ':', ':' }; ns = keep(q, 4); }
	ex("operator"); ex(f.text); ex("("); CodeParams p[2] = { NullCode, NullCode };
	for (int i = 0; i < given; i++)
	{
		if (i) ex(",");
		bool in = post && i == given - 1; if (in) ex("int "); else { exn(t); ex(" "); } exn(i ? p2 : p1);
		p[i] = def_param(in ? t_int : def_type(str(t)), str(i ? p2 : p1));
	}
	ex(")"); if (s == 3) ex("const"); if (given == 1) o.params = p[0]; if (given == 2) o.params = def_params_arr(2, p);
	o.ret_type = T; if (b >= 0) o.body = fnbody(b); else ex(";");
	CodeOperator c = def_operator(f.op, ns, o);
	CHECK(valid((Code)c, member ? (b >= 0 ? CT_Operator_Member : CT_Operator_Member_Fwd) : (b >= 0 ? CT_Operator : CT_Operator_Fwd)), "an operator is a member exactly when one operand is left out");
	CHECK(c->Op == f.op && c->Params.ast == o.params.ast && c->ReturnType.ast == T.ast && c->Specs.ast == o.specifiers.ast && c->Body.ast == o.body.ast, "the operator holds its parts");
	done((Code)c, c->Type, "an operator prints as its parts");
}
ENTRY(h_up_wrong_operator)
{
	begin(); int i = pick(0, 37, "op"); OpForm const& f = OPFORMS[i]; bool const assign = f.op == Op_Assign; int given = pick(0, 3, "given"); Name n = nm();
	if (given >= f.fewest - 1 && given <= f.most) { if (!assign || given < 2) return; }
	if (f.op == Op_MemberOfPointer && given == 1) return;
	Opts_def_operator o = {}; CodeTypename T = f.op == Op_UnaryNot ? t_bool : t_int; CodeParams p[3]; for (int j = 0; j < 3; j++) p[j] = def_param(t_int, str(n));
	if (given) o.params = def_params_arr(given, p); o.ret_type = T; sym_fatal_ok(1);
	CodeOperator c = def_operator(f.op, mkstr("", 0), o);
	CHECK(!(c && c->Type != CT_Invalid), "an operator with too few or too many operands is refused"); REACH("decided");
}
