// Source texts built piece by piece together with the token sequence their serialization must have.
#pragma once
struct Text { char b[2048]; int n; };
static Text S, X; // the source, and the tokens expected back
static void to(Text* t, char c) { t->b[t->n++] = c; t->b[t->n] = 0; }
static void put(Text* t, char const* s) { while (*s) to(t, *s++); }
static void src(char const* s) { put(&S, s); }
static void ex (char const* s) { put(&X, s); }
static void lit(char const* s) { src(s); ex(s); }
static void fresh() { S.n = X.n = 0; S.b[0] = X.b[0] = 0; }
// A name: an upper-case letter and one more word character, both symbolic. The library's keywords are lower case.
struct Name { char c[2]; };
static int g_symbolic = 1000; // how many names are symbolic; the rest are fixed
static int g_names;  // the k-th name starts with one of two letters of its own, so that names differ
static Name fresh_name() { Name r; int k = g_names++ % 13; if (g_names > g_symbolic) { r.c[0] = (char)('A' + 2 * k); r.c[1] = (char)('a' + (g_names / 13 + 16) % 26); return r; } r.c[0] = (char)sym_range('A' + 2 * k, 'B' + 2 * k, "name"); r.c[1] = (char)sym_range('a', 'z', "name"); return r; }
static void use(Text* t, Name n) { to(t, n.c[0]); to(t, n.c[1]); }
static void use(Name n) { use(&S, n); use(&X, n); }
static Name id() { Name n = fresh_name(); use(n); return n; }
static void digit() { char c = (char)sym_range('0', '9', "digit"); to(&S, c); to(&X, c); }
static void sp() { char c = (char)sym_range(9, 32, "space"); ASSUME((c == 9) | (c == 32)); to(&S, c); } // white space in the source only
static Str  source() { sym_note("source:", 0); sym_note(S.b, 0); char* p = (char*)sym_alloc(S.n + 1); for (int i = 0; i <= S.n; i++) p[i] = S.b[i]; return mkstr(p, S.n); }

static bool g_space(char c) { return (c == ' ') | (c == '\t') | (c == '\n') | (c == '\r') | (c == '\v') | (c == '\f'); }
static bool g_word (char c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | ((c >= '0') & (c <= '9')) | (c == '_'); }
// Same tokens: equal apart from white space, which may come and go between tokens but neither joins two words nor splits one,
// neither joins nor splits an operator, and stays as it is inside literals. A line comment ends at its line's end.
static bool g_glue(char a, char b) // would a and b, written together, be one operator token (or part of one)
{
	if (a == b) return a == '+' || a == '-' || a == '&' || a == '|' || a == '<' || a == '=' || a == ':' || a == '.' || a == '[';
	if (b == '=') return a == '+' || a == '-' || a == '*' || a == '/' || a == '%' || a == '^' || a == '&' || a == '|' || a == '!' || a == '<' || a == '>' || a == '=';
	return a == '-' && b == '>';
}
static char const* g_why = "";
static bool same_tokens(char const* a, long long an, char const* b, long long bn)
{
	long long i = 0, j = 0; bool ok = true; char last = 0; char quote = 0; bool line = false, block = false;
	for (;;)
	{
		bool wa = false, wb = false, na = false, nb = false;
		if (!quote)
		{
			while (i < an && g_space(a[i])) { na |= a[i] == '\n'; wa = true; i++; }
			while (j < bn && g_space(b[j])) { nb |= b[j] == '\n'; wb = true; j++; }
			if (line) { if (i < an && j < bn && na != nb) { g_why = na ? "a line comment or directive swallowed what follows" : "a line comment or directive was broken"; return false; } if (na) line = false; }
			if (!line && !block && i < an && j < bn && a[i] == '#') { if (j && !nb) { g_why = "a directive does not start a line"; return false; } line = true; }
		}
		if (i == an || j == bn) { if (i != an || j != bn) { g_why = i == an ? "extra text" : "missing text"; return false; } return ok; }
		char x = a[i], y = b[j];
		if (last && wa != wb && !quote && !block)
		{
			if (g_word(last) && g_word(x)) { g_why = "words joined or split"; return false; }
			if (g_glue(last, x)) { g_why = "operators joined or split"; return false; }
		}
		ok &= x == y;
		if (block) { if (x == '/' && last == '*' && !wa) { block = false; last = 0; } else last = x; }
		else if (quote) { if (x == '\\' && i + 1 < an && j + 1 < bn) { ok &= a[i + 1] == b[j + 1]; i++; j++; } else if (x == quote) { quote = 0; } last = 0; }
		else if ((x == '"' || x == '\'') && !line) { quote = x; last = 0; }
		else { if (x == '/' && last == '/' && !wa) line = true; if (x == '*' && last == '/' && !wa && !line) { block = true; last = 0; } else last = x; }
		i++; j++;
	}
}
static void check_output(Code c, char const* what)
{
	StrBuilder o = code_to_strbuilder(c);
	bool same = same_tokens(X.b, X.n, o, strbuilder_length(o));
	if (!same) { sym_note("wanted:", 0); sym_note(X.b, 0); sym_note("got:", 0); sym_note(o, 0); sym_note(g_why, 0); }
	CHECK(same, what);
	CHECK(o[strbuilder_length(o)] == 0 && zlen(o) == strbuilder_length(o), "the text is terminated and holds no NUL");
}
static bool valid(Code c, int type) { return c.ast != nullptr && c->Type == type; }
static bool named(Code c, Name n) { return c->Name.Len == 2 && bytes_eq(c->Name.Ptr, n.c, 2); }
// --- types and initial values
static void type_base(int k)
{
	switch (k) {
	case 0: lit("int"); break;
	case 1: id(); break;
	case 2: lit("unsigned"); sp(); ex(" "); lit("long"); sp(); ex(" "); lit("long"); break;
	case 3: id(); lit("::"); id(); break;
	case 4: id(); lit("<"); id(); lit(">"); break;
	case 5: id(); lit("<"); id(); lit(","); sp(); id(); lit("<"); id(); lit(">"); sp(); lit(">"); break;
	case 6: id(); lit("<"); digit(); lit(">::"); id(); break;
	case 7: lit("struct"); sp(); ex(" "); id(); break;
	case 8: lit("char"); break;
	case 9: lit("auto"); break;
	}
}
static void type_suffix(int k)
{
	switch (k) {
	case 0: break;
	case 1: lit("*"); break;
	case 2: lit(" const"); break;
	case 3: lit(" const"); lit("*"); break;
	case 4: lit("*"); sp(); lit("const"); break;
	case 5: lit("&"); break;
	case 6: lit("&&"); break;
	case 7: lit(" const"); lit("*"); lit("*"); lit("const"); break;
	case 8: lit("*&"); break;
	case 9: lit(" const&"); break;
	}
}
static void init_of(int k)
{
	switch (k) {
	case 0: break;
	case 1: sp(); lit("="); sp(); digit(); break;
	case 2: lit("="); id(); lit("("); digit(); lit(","); id(); lit(")"); sp(); break;
	case 3: lit("="); lit("\""); to(&S, 'x'); to(&X, 'x'); lit(";,"); lit("\""); break;
	case 4: lit("="); lit("{"); digit(); lit(","); sp(); digit(); lit("}"); break;
	case 5: src("{"); ex("={"); digit(); lit("}"); break;
	case 6: lit("("); digit(); lit("+"); id(); lit(")"); break;
	case 7: lit("="); id(); lit("<<"); digit(); lit("|"); id(); lit("["); digit(); lit("]"); break;
	case 8: lit(":"); digit(); break;
	case 9: lit("["); digit(); lit("]"); break;
	case 10: lit("["); digit(); lit("]"); lit("["); id(); sp(); lit("+"); digit(); lit("]"); lit("="); lit("{"); lit("}"); break;
	case 11: lit("[]"); lit("="); lit("{"); digit(); lit("}"); break;
	case 12: lit("="); lit("'"); lit("\\''"); break;
	case 13: lit("="); id(); lit("=="); id(); lit("?"); digit(); lit(":"); digit(); break;
	case 15: lit("={"); id(); lit("("); digit(); lit("),"); digit(); lit("}"); break;
	case 16: lit("="); id(); lit("({"); id(); lit("(("); digit(); lit(")),"); digit(); lit("},"); id(); lit("{"); digit(); lit("},"); digit(); lit(")"); break;
	case 17: lit("="); lit("["); id(); lit(","); sp(); lit("&"); id(); lit("](int "); id(); lit("){"); id(); lit("();return "); id(); lit(";}"); break;
	case 18: src("{"); ex("={"); digit(); lit(",{"); digit(); lit(","); id(); lit("{}},"); id(); lit("("); digit(); lit(",{})"); lit("}"); break;
	case 19: lit("("); id(); lit("("); digit(); lit(","); id(); lit("()),{"); digit(); lit(","); digit(); lit("})"); break;
	case 14: lit("="); lit("-"); id(); lit("."); id(); lit("->"); id(); break;
	}
}
