#include "common.hpp"
#include "gram.hpp"
// Comparing declarations: every two of a group differ in something other than the text of an expression, a body or a comment.
#define GROUP(n, ...) static char const* const n[] = { __VA_ARGS__, nullptr }
GROUP(g_class, "class A;", "class B;", "struct A;", "struct B;", "class A{};", "struct A{};", "class B{};", "class A{int a;};", "class A{int b;};", "class A{char a;};", "class A{int a;int b;};", "class A{int b;int a;};", "class A{int a;int b;int a;};", "class A{void a();};", "class A{public:int a;};", "class A{private:int a;};",
	"class A{int a;private:};", "class A:public B{};", "class A:private B{};", "class A:public C{};", "class A:public B,public C{};", "class A:public B,public D{};", "class A:public B,public C,public D{};", "class [[x]] A{};", "export class A{};", "class A{class B{};};", "class A{class C{};};", "class A{struct B{};};", "class A{class B;};", "class A final{};", "union A{int a;};", "enum A{a};", "struct A{int a;};", "struct A:B{};", "struct A:B,C{};", "template<class T> class A{};");
GROUP(g_func, "int A();", "int B();", "char A();", "int* A();", "int const* A();", "int A(int a);", "int A(int b);", "int A(char a);", "int A(int* a);", "int A(int const a);", "int A(int a,int b);", "int A(int b,int a);", "int A(int a,char b);", "int A(int a,int b,int c);", "int A(int,int);", "int A(int);", "int A(int a=1);", "int A(int a,int b=1);", "int A(int a[2]);", "int A(int a,int b[2]);", "int A(int a[2],int b);", "static int A();", "inline int A();",
	"static inline int A();", "inline static int A();", "int A(){}", "int B(){}", "int A(int a){}", "static int A(){}", "export int A();", "[[x]] int A();", "[[x]] int A(){}", "int A(int a,...);", "void A();", "int B::A();", "int A;", "A<B> C();", "A<C> C();");
GROUP(g_var, "int a;", "int b;", "char a;", "int* a;", "int** a;", "int& a;", "int const a=1;", "static int a;", "extern int a;", "int a=1;", "int a,b;", "int a,c;", "int a,b,c;", "int a,*b;", "int a,b=1;", "int a[2];", "A<B> c;", "A<C> c;", "A c;", "A::B c;", "unsigned int a;", "long int a;", "export int a;", "[[x]] int a;", "struct A c;", "int a{1},b;", "constexpr int a=1;", "static constexpr int a=1;", "thread_local int a;", "static thread_local int a;");
GROUP(g_enum, "enum A{};", "enum B{};", "enum class A{};", "enum A:int{};", "enum A:char{};", "enum class A:int{};", "enum A:int;", "enum A:char;", "enum B:int;", "enum class A:int;", "enum class A;", "enum class B;", "enum A{a};", "enum [[x]] A{};", "export enum A{};", "enum A{a} b;", "enum A b;", "enum class A:char;", "enum class [[x]] A;", "union A{};", "union B{};", "union A{int a;};", "union A{int b;};", "union A{int a;int b;};", "union A{char a;};", "union A{int a;} b;", "union [[x]] A{};", "export union A{};", "union A;", "union B;");
GROUP(g_using, "using A=B;", "using A=C;", "using C=B;", "using A=B*;", "using A=B<C>;", "using A=B<D>;", "using A=B[2];", "using namespace A;", "using namespace B;", "using A::B;", "using A::C;", "export using A=B;", "typedef A B;", "typedef A C;", "typedef B C;", "typedef A* B;", "typedef A const B;", "typedef int(*A)(int);", "typedef int(*A)(char);", "typedef int(*B)(int);", "typedef char(*A)(int);", "typedef int(*A)(int,int);", "typedef int(*A)(int a);", "typedef int(*A)();", "typedef int A(int);", "typedef int A(char);", "typedef A B[2];", "typedef struct A B;", "typedef struct A C;", "typedef struct A{int a;} B;", "typedef struct A{int b;} B;", "typedef struct{int a;} B;", "typedef enum A{a} B;", "typedef union A{int a;} B;", "export typedef A B;");
GROUP(g_op, "A operator+(A a,A b);", "A operator-(A a,A b);", "B operator+(A a,A b);", "A operator+(A a,B b);", "A operator+(A a,A c);", "A operator+(A a,A b){}", "A operator-(A a,A b){}", "static A operator+(A a,A b);", "[[x]] A operator+(A a,A b);", "A operator*(A a,A b);", "A& operator*(A& a,A& b);", "bool operator==(A a,A b);", "bool operator!=(A a,A b);", "bool operator!(A a);", "A operator-(A const& a);", "A operator~(A a);", "A::operator B(){}", "A::operator C(){}", "B::operator B(){}", "A::operator B()const{}", "export A operator+(A a,A b);");
GROUP(g_member, "A();", "A(int a);", "A(int b);", "A(char a);", "A(int a,int b);", "A(int a=1);", "explicit A(int a);", "A(){}", "A(int a){}", "A():a(1){}", "~A();", "virtual ~A();", "~A(){}", "virtual ~A(){}", "operator B();", "operator C();", "operator B()const;", "explicit operator B();", "operator B(){}", "operator C(){}", "operator B*();", "A& operator=(A a);", "A& operator=(B a);", "A& operator+=(A a);", "A& operator=(A a){}", "friend class B;", "friend class C;", "friend struct B;", "friend int B();", "friend int C();", "friend int B(int a);", "int a;", "int a:1;", "int a:1,b;", "public:", "private:", "protected:", "void f() const;", "void f();", "virtual void f();", "void f() override;", "virtual void f()=0;", "A* a;", "B* a;", "static A f();", "using B::c;", "using B=c;");
GROUP(g_tmpl, "template<class A> struct B;", "template<class C> struct B;", "template<typename A> struct B;", "template<int A> struct B;", "template<class A> struct C;", "template<class A> class B;", "template<class A,class C> struct B;", "template<class A=int> struct B;", "template<class... A> struct B;", "template<class A> struct B{};", "template<class A> struct B{A a;};", "template<class A> struct B{A b;};", "template<class A> A B();", "template<class A> A B(A a);", "template<class A> A C();", "template<class A> A B(){}", "template<class A> using B=A;", "template<class A> using B=C;", "template<class A> A b;", "export template<class A> struct B;", "template<> struct B<A>;", "template<> struct B<C>;", "template<int... A> struct B;", "template<int A=1> struct B;");
GROUP(g_scope, "namespace A{}", "namespace B{}", "namespace A{int a;}", "namespace A{int b;}", "namespace A{int a;int a;}", "namespace A{namespace B{}}", "namespace A{namespace B{int a;}}", "extern \"C\"{}", "extern \"C++\"{}", "extern \"C\"{int a;}", "extern \"C\"{int b;}", "extern \"C\"{int a;int b;}", "export{int a;}", "export{int b;}", "export{int a;int b;}", "export namespace A{}", "namespace A{extern \"C\"{int a;}}", "namespace A{extern \"C\"{int b;}}", "namespace A{export{int a;}}", "namespace A{export{int b;}}", "namespace A{enum B{};}");
GROUP(g_pre, "#define A 1\n", "#define B 1\n", "#define F(x) 1\n", "#define F(x,y) 1\n", "#define F(y) 1\n", "#define F(x,z) 1\n", "#define G(x) 1\n", "#if A\n", "#ifdef A\n", "#ifndef A\n", "#elif A\n", "#else\n", "#endif\n", "#pragma A\n", "#include <A>\n", "// A\n", "int Z;", "static_assert(A);");
static char const* const* const GROUPS[] = { g_class, g_func, g_var, g_enum, g_using, g_op, g_member, g_tmpl, g_scope, g_pre };
enum { MEMBER = 6, NG = 10 };
static Code read(int g, char const* s)
{
	char* t = (char*)sym_alloc(400); int n = 0; char const* pre = g == MEMBER ? "struct A{" : ""; while (*pre) t[n++] = *pre++; while (*s) t[n++] = *s++; if (g == MEMBER) { t[n++] = '}'; t[n++] = ';'; }
	CodeBody b = parse_global_body(mkstr(exact(t, n), n)); CHECK(valid((Code)b, CT_Global_Body) && b->Front, "the declaration parses"); return (Code)b;
}
static Code inner(int g, Code b) { Code c = ((CodeBody)b)->Front; return g == MEMBER ? ((CodeStruct)c)->Body->Front : c; }
static void pair(int g, int i, int j)
{
	sym_note(GROUPS[g][i], 0); sym_note(GROUPS[g][j], 0); Code a = read(g, GROUPS[g][i]), b = read(g, GROUPS[g][j]); bool want = i == j;
	CHECK(code_is_equal(inner(g, a), inner(g, b)) == want, want ? "the same declaration is equal to itself read again" : "declarations that differ are not equal");
	CHECK(code_is_equal(a, b) == want, want ? "bodies of the same declarations are equal" : "bodies of different declarations are not equal");
	if (want)
	{
		Code c = inner(g, a), d = code_duplicate(c); CHECK(d.ast != c.ast && !d->Parent && code_is_equal(c, d) && code_is_equal(d, c), "a duplicate is another node equal to its original");
		StrBuilder s = code_to_strbuilder(c), t = code_to_strbuilder(d); CHECK(strbuilder_length(s) == strbuilder_length(t) && bytes_eq(s, t, strbuilder_length(s)), "a duplicate prints as its original");
		code_debug_str(c); code_debug_str(a); REACH("same");
	}
	else REACH("other");
}
static int count(int g) { int n = 0; while (GROUPS[g][n]) n++; return n; }
ENTRY(h_eq_pairs) { ctx_small(); int g = pick(0, NG - 1, "group"), n = count(g), i = pick(0, n - 1, "first"), j = pick(0, n - 1, "second"); pair(g, i, j); }
// one name of a declaration (they are the upper-case letters) is any letter
ENTRY(h_eq_names)
{
	ctx_small(); static int const G[] = { 0, 1, 2, 3, 4, 7, 8 }; int g = G[pick(0, 6, "group")], n = count(g), i = pick(0, n - 1, "declaration"); char const* s = GROUPS[g][i]; char t[64]; int at[8], m = 0, k = 0;
	for (; s[k]; k++) { t[k] = s[k]; if (s[k] == ':' && s[k + 1] == ':') return; bool in = k && s[k - 1] == '"'; if (s[k] >= 'A' && s[k] <= 'Z' && !in && m < 8) at[m++] = k; } t[k] = 0; if (!m) return;
	int w = at[pick(0, m - 1, "name")]; t[w] = (char)sym_range('A', 'Z', "letter"); sym_note(s, 0);
	Code a = read(g, s), b = read(g, t); bool want = t[w] == s[w];
	CHECK(code_is_equal(inner(g, a), inner(g, b)) == want, "declarations are equal exactly when their names are"); CHECK(code_is_equal(b, a) == want, "declarations are equal exactly when their names are"); REACH("named");
}
