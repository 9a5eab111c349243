#pragma once
// One declaration, and the kind of node it should give. cls: the name of the class whose body holds it, null outside.
static bool skip_, in_extern_, in_export_; // this shape does not exist here
enum { G_ = 1, C_ = 2 };
static int line_(int t) { lit("\n"); return t; }
static int decl(int k, Name* cls)
{
	int where = cls ? C_ : G_;
#define ONLY(w) if (!((w) & where)) { skip_ = true; return 0; }
	switch (k) {
	case 0: lit("int "); id(); lit(";"); return CT_Variable;
	case 1: lit("static constexpr "); id(); lit(" "); id(); sp(); lit("="); digit(); lit(";"); return CT_Variable;
	case 2: lit("void "); id(); lit("(int "); id(); lit(");"); return CT_Function_Fwd;
	case 3: lit("inline "); id(); lit("* "); id(); lit("()"); sp(); lit("{ return "); digit(); lit("; }"); return CT_Function;
	case 4: lit("class "); id(); lit(";"); return CT_Class_Fwd;
	case 5: lit("class "); id(); lit("{"); lit("int "); id(); lit(";"); lit("};"); return CT_Class;
	case 6: lit("struct "); id(); lit("{"); sp(); lit("};"); return CT_Struct;
	case 7: lit("struct "); id(); sp(); lit(";"); return CT_Struct_Fwd;
	case 8: lit("enum "); id(); lit("{"); id(); lit(","); id(); lit("="); digit(); lit("};"); return CT_Enum;
	case 9: lit("enum class "); id(); lit(":"); lit("int"); lit("{"); id(); lit("};"); return CT_Enum_Class;
	case 10: lit("enum class "); id(); lit(": "); id(); lit(";"); return CT_Enum_Class_Fwd;
	case 11: lit("enum "); id(); lit(":int;"); return CT_Enum_Fwd;
	case 12: lit("union "); id(); lit("{"); lit("int "); id(); lit(";"); id(); lit(" "); id(); lit(";"); lit("};"); return CT_Union;
	case 13: lit("using "); id(); lit("="); id(); lit("<"); id(); lit(">"); lit(";"); return CT_Using;
	case 14: lit("typedef "); id(); lit("* "); id(); lit(";"); return CT_Typedef;
	case 15: lit("typedef int"); lit("(*"); id(); lit(")("); id(); lit(" "); id(); lit(");"); return CT_Typedef;
	case 16: lit("template<class "); id(); lit("> struct "); id(); lit("{};"); return CT_Template;
	case 17: lit("template<"); id(); lit(" "); id(); lit(","); lit("class "); id(); lit("> "); id(); lit(" "); id(); lit("("); id(); lit(" "); id(); lit(");"); return CT_Template;
	case 18: lit("static_assert("); id(); lit("<"); digit(); lit(",\"x;)\");"); return CT_Untyped;
	case 19: id(); lit("& operator+=("); id(); lit(" const& "); id(); lit(");"); return CT_Operator_Member_Fwd;
	case 20: lit("bool operator==("); id(); lit(" "); id(); lit(","); id(); lit(" "); id(); lit("){ return "); digit(); lit("; }"); return CT_Operator;
	case 21: lit("//"); id(); return line_(CT_Comment);
	case 22: lit("/* "); id(); lit(" { */"); return CT_Comment;
	case 23: lit("#define "); id(); lit(" "); digit(); return line_(CT_Preprocess_Define);
	case 24: lit("#include <"); id(); lit(">"); return line_(CT_Preprocess_Include);
	case 25: lit("#if "); id(); lit("<"); digit(); return line_(CT_Preprocess_If);
	case 26: lit("#ifdef "); id(); return line_(CT_Preprocess_IfDef);
	case 27: lit("#ifndef "); id(); return line_(CT_Preprocess_IfNotDef);
	case 28: lit("#elif "); id(); return line_(CT_Preprocess_ElIf);
	case 29: lit("#else"); return line_(CT_Preprocess_Else);
	case 30: lit("#endif"); return line_(CT_Preprocess_EndIf);
	case 31: lit("#pragma "); id(); return line_(CT_Preprocess_Pragma);
	case 32: lit("#error "); id(); return line_(CT_Untyped);
	case 33: lit("struct "); id(); lit("{int "); id(); lit(";} "); id(); lit(";"); return CT_Variable;
	case 34: lit("[[nodiscard]] "); lit("int "); id(); lit("();"); return CT_Function_Fwd;
	case 35: lit("__declspec(align("); digit(); lit(")) "); id(); lit(" "); id(); lit(";"); return CT_Variable;
	case 36: lit("typedef struct "); id(); lit(" "); id(); lit(";"); return CT_Typedef;
	case 37: lit("enum "); id(); lit("{"); id(); lit("} "); id(); lit(";"); return CT_Variable;
	case 38: lit("union {"); lit("int "); id(); lit(";};"); return CT_Union;
	case 39: lit("int "); id(); lit(","); sp(); lit("*"); id(); lit(";"); return CT_Variable;
	case 40: id(); lit("<"); id(); lit("> const& "); id(); lit("("); id(); lit(" "); id(); lit("="); digit(); lit(");"); return CT_Function_Fwd;
	case 41: lit("unsigned int "); id(); lit("["); digit(); lit("];"); return CT_Variable;
	case 42: lit("struct "); id(); lit(" "); id(); lit(";"); return CT_Variable;
	case 43: lit("struct "); id(); lit("* "); id(); lit("(struct "); id(); lit("* "); id(); lit(");"); return CT_Function_Fwd;
	case 44: lit("int "); id(); lit("; //"); id(); return line_(CT_Variable);
	case 45: lit("const "); { S.n -= 6; } src("const int "); X.n -= 6; ex("int const "); id(); lit("="); digit(); lit(";"); return CT_Variable;
	// outside classes only
	case 46: ONLY(G_); lit("namespace "); id(); lit("{ int "); id(); lit("; }"); return CT_Namespace;
	case 47: ONLY(G_); lit("using namespace "); id(); lit(";"); return CT_Using_Namespace;
	case 48: ONLY(G_); lit("int "); id(); lit("::"); id(); lit("("); id(); lit(" "); id(); lit(") const {"); id(); lit("();}"); return CT_Function;
	case 49: ONLY(G_); { Name n = id(); lit("::"); use(n); lit("("); id(); lit(" "); id(); lit("):"); id(); lit("("); digit(); lit("){}"); } return CT_Constructor;
	case 50: ONLY(G_); { Name n = id(); lit("::~"); use(n); lit("(){}"); } return CT_Destructor;
	case 51: ONLY(G_); id(); lit("::operator "); id(); lit("() const{ return "); digit(); lit("; }"); return CT_Operator_Cast;
	case 52: ONLY(G_); if (in_extern_) { skip_ = true; return 0; } lit("extern \"C\" { int "); id(); lit("; }"); return CT_Extern_Linkage;
	case 53: ONLY(G_); id(); lit(" "); id(); lit("::"); id(); lit("="); digit(); lit(";"); return CT_Variable;
	case 54: ONLY(G_); lit("extern int "); id(); lit(";"); return CT_Variable;
	// inside classes only
	case 55: ONLY(C_); lit("public:"); return CT_Access_Public;
	case 56: ONLY(C_); lit("private:"); return CT_Access_Private;
	case 57: ONLY(C_); lit("protected"); sp(); lit(":"); return CT_Access_Protected;
	case 58: ONLY(C_); use(*cls); lit("();"); return CT_Constructor_Fwd;
	case 59: ONLY(C_); lit("explicit "); use(*cls); lit("(int "); id(); lit("):"); id(); lit("("); digit(); lit("){}"); return CT_Constructor;
	case 60: ONLY(C_); lit("~"); use(*cls); lit("();"); return CT_Destructor_Fwd;
	case 61: ONLY(C_); lit("virtual ~"); use(*cls); lit("(){ }"); return CT_Destructor;
	case 62: ONLY(C_); lit("operator "); id(); lit("() const;"); return CT_Operator_Cast_Fwd;
	case 63: ONLY(C_); lit("explicit operator bool() const { return "); digit(); lit(";}"); return CT_Operator_Cast;
	case 64: ONLY(C_); lit("virtual "); id(); lit(" "); id(); lit("() const = 0;"); return CT_Function_Fwd;
	case 65: ONLY(C_); lit("friend class "); id(); lit(";"); return CT_Friend;
	case 66: ONLY(C_); lit("friend "); id(); lit(" "); id(); lit("("); id(); lit(");"); return CT_Friend;
	case 67: ONLY(C_); lit("int "); id(); lit(":"); digit(); lit(";"); return CT_Variable;
	case 68: ONLY(C_); lit("mutable "); id(); lit(" "); id(); lit("{"); digit(); lit("};"); X.n -= 4; { char d = X.b[X.n + 1]; X.b[X.n] = 0; ex("={"); to(&X, d); ex("};"); } return CT_Variable;
	case 69: ONLY(C_); use(*cls); lit("& operator=("); use(*cls); lit(" const&);"); return CT_Operator_Member_Fwd;
	case 70: ONLY(C_); lit("static int "); id(); lit("("); use(*cls); lit("* "); id(); lit(");"); return CT_Function_Fwd;
	case 71: ONLY(C_); use(*cls); lit("* "); id(); lit(";"); return CT_Variable;
	case 72: ONLY(C_); lit("using "); id(); lit("::"); id(); lit(";"); return CT_Using;
	case 73: ONLY(C_); lit("void "); id(); lit("() override;"); return CT_Function_Fwd;
	case 74: ONLY(G_); if (in_extern_ || in_export_) { skip_ = true; return 0; } lit("export { int "); id(); lit(";"); lit("class "); id(); lit("; }"); return CT_Export_Body;
	}
	skip_ = true; return 0;
}
enum { NKINDS = 75 };
