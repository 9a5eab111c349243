#include "common.hpp"
// --- the token list of any text
static char* g_text; static long long g_len;
static char const* ALPHA[] = { 0, "/*\nA\"'\\", "-><=&: A", "[].(A0", "#\n A\"\\", "0x1.fu A", "+|^%!=~*", ";} \r\n\tA/", "{,?*=&A0", "\"\\A\n\r'" };
static bool in_set(char const* set, char c) { bool r = false; for (; *set; set++) r |= c == *set; return r; }
static bool ws(char c) { return (c == ' ') | (c == '\t') | (c == '\n') | (c == '\r') | (c == '\v') | (c == '\f'); }
static char at(long long i) { return i >= 0 && i < g_len ? g_text[i] : 0; }
static bool alpha(char c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_'); }
static bool digit_(char c) { return (c >= '0') & (c <= '9'); }
static bool alnum(char c) { return alpha(c) | digit_(c); }
static int op_len(long long i) // the longest operator or punctuation at i
{
	char a = at(i), b = at(i + 1), c = at(i + 2);
	switch (a) {
	case '.': return b == '.' && c == '.' ? 3 : 1;
	case '&': return b == '&' || b == '=' ? 2 : 1;
	case ':': return b == ':' ? 2 : 1;
	case '*': case '/': return b == '=' ? 2 : 1;
	case '=': return b == '=' ? 2 : 1;
	case '-': if (b == '>') return c == '*' ? 3 : 2; // fallthrough
	case '+': case '%': case '^': case '~': case '!': case '<': case '>': case '|':
		if (b == '=') return 2;
		if ((a == '<' || a == '>') && b == a && c == '=') return 3;
		return b == a ? 2 : 1; // two of the same sign stay together
	}
	return 1;
}
static void check_tokens(TokArray t)
{
	long long n = array_num(t.Arr), end = 0; bool order = true, gaps = true, nonempty = true, pos = true, kind = true;
	int line = 1, col = 1; long long seen = 0; bool attr = false; bool pp = false; // pp: on a directive's line
	for (long long k = 0; k < n; k++)
	{
		Token* x = &t.Arr[k]; long long b = x->Text.Ptr - g_text, l = x->Text.Len;
		if (x->Type == Tok_Preprocess_Unsupported && k) end = t.Arr[k - 1].Text.Ptr - g_text; // covers its own '#'
		if (b < end || b + l > g_len) { CHECK(false, "tokens are slices of the text, in order"); return; }
		nonempty &= l > 0 || x->Type == Tok_Preprocess_Content;
		for (long long i = end; i < b; i++) gaps &= ws(g_text[i]) || (pp && g_text[i] == '\\');
		for (; seen < b; seen++) { if (g_text[seen] == '\n') { line++; col = 1; } else col++; }
		if (x->Type == Tok_Preprocess_Hash) pp = true;
		if (x->Type == Tok_NewLine) pp = false;
		if (!pp) pos &= x->Line == line && x->Column == col;
		end = b + l;
		char c = at(b);
		if (pp) continue;
		if (x->Type == Tok_NewLine) kind &= at(end - 1) == '\n' && l == (c == '\r' ? 2 : 1);
		else if (alpha(c))
		{
			for (long long i = b; i < end; i++) kind &= alnum(g_text[i]);
			kind &= !alnum(at(end));
			kind &= x->Type == Tok_Identifier || (x->Type > Tok_Invalid && x->Type < Tok___Attributes_Start && str_are_equal(toktype_to_str(x->Type), x->Text)) || (x->Type == Tok_Spec_Extern && l == 6) || lookup_macro(x->Text) != nullptr;
		}
		else if (digit_(c)) { kind &= x->Type == Tok_Number; for (long long i = b; i < end; i++) kind &= alnum(g_text[i]) | (g_text[i] == '.'); kind &= !digit_(at(end)) | alpha(at(end - 1)); }
		else if (c == '"' || c == '\'')
		{
			kind &= x->Type == (c == '"' ? Tok_String : Tok_Char);
			long long i = b + 1; while (i < g_len && g_text[i] != c) { if (g_text[i] == '\\' && (c == '"' || i == b + 1)) i++; i++; }
			long long e = i < g_len ? i + 1 : g_len; kind &= end == e;
		}
		else if (c == '/' && at(b + 1) == '/')
		{
			long long i = b; while (i < g_len && g_text[i] != '\n' && g_text[i] != '\r') i++;
			if (at(i) == '\r') i++;
			if (at(i) == '\n') i++;
			kind &= x->Type == Tok_Comment && end == i;
		}
		else if (c == '/' && at(b + 1) == '*')
		{
			long long i = b + 2; while (i < g_len && !(g_text[i] == '*' && at(i + 1) == '/')) i++;
			i = i < g_len ? i + 2 : g_len;
			if (at(i) == '\r') i++;
			if (at(i) == '\n') i++;
			kind &= x->Type == Tok_Comment && end == i;
		}
		else if (c == '[' || c == ']')
		{
			if (c == '[' && at(b + 1) == ']') kind &= l == 2 && x->Type == Tok_Operator;
			else if (c == '[' && at(b + 1) == '[' && !attr) { kind &= l == 2 && x->Type == Tok_Attribute_Open; attr = true; }
			else if (x->Type == Tok_Attribute_Close) { kind &= attr && l == 2 && at(b + 1) == ']'; attr = false; }
			else kind &= l == 1 && x->Type == (c == '[' ? Tok_BraceSquare_Open : Tok_BraceSquare_Close);
		}
		else
		{
			kind &= l == op_len(b);
			TokType want = l == 1 ? (c == '{' ? Tok_BraceCurly_Open : c == '}' ? Tok_BraceCurly_Close : c == '(' ? Tok_Paren_Open : c == ')' ? Tok_Paren_Close : c == ',' ? Tok_Comma : c == ';' ? Tok_Statement_End : c == ':' ? Tok_Assign_Classifer : c == '.' ? Tok_Access_MemberSymbol : c == '&' ? Tok_Ampersand : c == '*' ? Tok_Star : Tok_Operator)
				: c == '.' ? Tok_Varadic_Argument : c == ':' ? Tok_Access_StaticSymbol : c == '&' && at(b + 1) == '&' ? Tok_Ampersand_DBL : c == '*' ? Tok_Star : Tok_Operator;
			kind &= x->Type == want;
			kind &= ((x->Flags & TF_Assign) != 0) == (c == '=' ? l == 1 : l > 1 && at(b + l - 1) == '=' );
			kind &= ((x->Flags & TF_EndDefinition) != 0) == (c == ';' || c == '}');
		}
	}
	for (long long i = end; i < g_len; i++) gaps &= ws(g_text[i]);
	CHECK(nonempty, "no token is empty"); CHECK(gaps, "only white space lies between tokens"); CHECK(pos, "tokens know their line and column"); CHECK(kind, "each token has the longest match and kind of what it starts with");
}
static void lex_all(char const* pre, int n, char const* set, char const* post)
{
	ctx_small(); sym_fatal_ok(1);
	long long a = zlen(pre), z = zlen(post); g_len = a + n + z; char* p = (char*)sym_alloc(g_len ? g_len : 1); g_text = p; sym_bytes(p + a, n, "t");
	for (long long i = 0; i < a; i++) p[i] = pre[i]; for (long long i = 0; i < z; i++) p[a + n + i] = post[i];
	if (set) for (int i = 0; i < n; i++) ASSUME(in_set(set, p[a + i]));
	TokArray t = lex(mkstr(p, g_len));
	CHECK(t.Arr != nullptr && array_num(t.Arr) > 0, "a text that can be read gives tokens");
	check_tokens(t); REACH("lexed");
}
ENTRY(h_lex_any)  { int n = option("n", 2); lex_all("", pick(1, n, "n"), 0, ""); }
ENTRY(h_lex_sets) { int n = option("n", 4); int k = pick(1, 9, "set"); lex_all("", n, ALPHA[k], ""); }
// --- preprocessor directives: the expected tokens are written down next to the text
struct Want { TokType type; int off, len; };
static Want W[32]; static int nW; static char B[256]; static int nB;
static void w_raw(char const* s) { while (*s) B[nB++] = *s++; }
static void w_sp() { if (pick(0, 1, "sp")) { char c = (char)sym_range(9, 32, "space"); ASSUME((c == 9) | (c == 32)); B[nB++] = c; } }
static void w_tok(TokType t, char const* s) { W[nW].type = t; W[nW].off = nB; w_raw(s); W[nW].len = nB - W[nW].off; nW++; }
static void w_name(TokType t, char first) { W[nW].type = t; W[nW].off = nB; B[nB++] = first; char c = (char)sym_range('0', 'z', "c"); ASSUME(alnum(c)); B[nB++] = c; W[nW].len = 2; nW++; }
static bool g_cut; // the text ends inside the directive's content
static void w_content(TokType t, int n, char const* bad)
{
	W[nW].type = t; W[nW].off = nB;
	for (int i = 0; i < n; i++) { char c = (char)sym_range(1, 127, "content"); ASSUME((c != '\n') & (c != '\r') & (c != '\\') & !in_set(bad, c)); if (i == 0) ASSUME(!ws(c)); B[nB++] = c; }
	W[nW].len = nB - W[nW].off; nW++;
}
static void w_end(bool eats) // how the line ends: newline, CR newline, or the text's end
{
	int k = pick(0, 2, "end"); int off = nB;
	if (k == 1) B[nB++] = '\r';
	if (k <= 1) { B[nB++] = '\n'; if (!eats) { W[nW].type = Tok_NewLine; W[nW].off = off; W[nW].len = nB - off; nW++; } }
	if (k <= 1 && pick(0, 1, "more")) w_name(Tok_Identifier, 'Z');
}
static void w_check(char const* what)
{
	char* p = exact(B, nB); TokArray t = lex(mkstr(p, nB)); bool ok = t.Arr && array_num(t.Arr) == nW;
	if (ok) for (int i = 0; i < nW; i++) { Token* x = &t.Arr[i]; ok &= x->Type == W[i].type && x->Text.Ptr == p + W[i].off && x->Text.Len == W[i].len; }
	if (!ok) { B[nB] = 0; sym_note(B, nB); if (t.Arr) for (int i = 0; i < array_num(t.Arr); i++) sym_note("tok", t.Arr[i].Type * 1000000 + (t.Arr[i].Text.Ptr - p) * 1000 + t.Arr[i].Text.Len); for (int i = 0; i < nW; i++) sym_note("want", W[i].type * 1000000 + W[i].off * 1000 + W[i].len); }
	CHECK(ok, what);
}
// a literal that may hold the other kind of quote or an escaped one, then perhaps a continued line
static void w_quoted(bool inner = false)
{
	int q = pick(0, 1, "q"); char qc = q ? '\'' : '"', oc = q ? '"' : '\''; int m = pick(0, 3, "inside"), ct = pick(0, 2, "continued");
	B[nB++] = qc; if (m & 1) B[nB++] = oc; char c = (char)sym_range(32, 126, "in"); ASSUME((c != '\\') & (c != '\'') & (c != '"')); B[nB++] = c; if (m & 2) { B[nB++] = '\\'; B[nB++] = qc; } B[nB++] = qc;
	if (ct) { w_raw(ct == 1 ? " \\\n" : " \\\r\n"); char d = (char)sym_range(32, 126, "next"); ASSUME((d != '\\') & (d != '\'') & (d != '"')); B[nB++] = d; }
	if (!inner) w_raw(pick(0, 1, "crlf") ? "\r\n" : "\n");
}
ENTRY(h_lex_directives)
{
	ctx_small(); nW = nB = 0;
	w_tok(Tok_Preprocess_Hash, "#"); w_sp();
	int k = pick(0, 9, "directive"); static char const* N[] = { "define", "if", "ifdef", "ifndef", "elif", "else", "endif", "include", "pragma", "error" };
	if (k == 9 && pick(0, 1, "quoted")) { W[nW].type = Tok_Preprocess_Unsupported; W[nW].off = 0; w_raw("error "); nW++; w_quoted(); W[nW - 1].len = nB; w_name(Tok_Identifier, 'Z'); w_check("an unknown directive is kept whole"); REACH("unsupported"); return; }
	if (k == 9) { B[nB] = 0; W[nW].type = Tok_Preprocess_Unsupported; W[nW].off = 0; w_raw("error "); nW++; int n = pick(0, 2, "n"); for (int i = 0; i < n; i++) { char c = (char)sym_range(1, 127, "content"); ASSUME((c != '\n') & (c != '\r') & (c != '\\')); B[nB++] = c; } int e = pick(0, 2, "end"); if (e == 1) B[nB++] = '\r'; if (e <= 1) B[nB++] = '\n'; W[nW - 1].len = nB; if (e <= 1 && pick(0, 1, "more")) w_name(Tok_Identifier, 'Z'); w_check("an unknown directive is kept whole"); REACH("unsupported"); return; }
	w_tok((TokType)(k == 0 ? Tok_Preprocess_Define : k == 1 ? Tok_Preprocess_If : k == 2 ? Tok_Preprocess_IfDef : k == 3 ? Tok_Preprocess_IfNotDef : k == 4 ? Tok_Preprocess_ElIf : k == 5 ? Tok_Preprocess_Else : k == 6 ? Tok_Preprocess_EndIf : k == 7 ? Tok_Preprocess_Include : Tok_Preprocess_Pragma), N[k]);
	if (k == 5 || k == 6) { if (pick(0, 1, "sp")) w_raw("  "); w_end(true); w_check("else and endif are single words"); REACH("else"); return; }
	w_raw(" "); w_sp();
	if (k == 7) { int q = pick(0, 1, "quote"); W[nW].type = Tok_String; W[nW].off = nB; w_raw(q ? "<" : "\""); int n = pick(0, 2, "n"); for (int i = 0; i < n; i++) { char c = (char)sym_range(1, 127, "path"); ASSUME((c != '"') & (c != '>') & (c != '\n')); B[nB++] = c; } w_raw(q ? ">" : "\""); W[nW].len = nB - W[nW].off; nW++; w_end(true); w_check("an include names its file, quotes included"); REACH("include"); return; }
	if (k == 0)
	{
		w_name(Tok_Identifier, 'M');
		int a = pick(0, 4, "params");
		if (a) { w_tok(Tok_Paren_Open, "("); if (a > 1) { w_sp(); if (a == 3) { w_tok(Tok_Preprocess_Define_Param, "..."); w_sp(); } else { w_name(Tok_Preprocess_Define_Param, 'p'); w_sp(); if (a == 4) { w_tok(Tok_Comma, ","); w_sp(); w_name(Tok_Preprocess_Define_Param, '_'); } } } w_tok(Tok_Paren_Close, ")"); }
		W[nW].type = Tok_Preprocess_Content; W[nW].off = nB; W[nW].len = 0; int c = pick(0, 4, "content");
		if (c) { w_raw(" "); int n = pick(1, 2, "n"); for (int i = 0; i < n; i++) { char x = (char)sym_range(1, 127, "content"); ASSUME((x != '\n') & (x != '\r') & (x != '\\') & !in_set("'\"", x)); B[nB++] = x; }
			if (c == 2) { w_raw(pick(0, 1, "cr") ? "\\\r\n" : "\\\n"); char x = (char)sym_range(32, 127, "content"); ASSUME((x != '\\') & !in_set("'\"", x)); B[nB++] = x; }
			if (c == 4) w_quoted(true);
			if (c == 3) { w_raw("\"\\\"\" \\\nx"); } }
		W[nW].len = nB - W[nW].off; nW++;
		w_end(false); w_check("a define gives its name, parameters and content"); REACH("define"); return;
	}
	w_content(Tok_Preprocess_Content, pick(1, 2, "n"), "");
	w_end(false); w_check("a directive keeps its line"); REACH("line");
}
// --- macros: a registered macro is recognized by its exact name, as its kind, when used with the arguments it takes
ENTRY(h_lex_macro)
{
	ctx_small(); nW = nB = 0; char nm[4]; nm[0] = 'M'; nm[1] = (char)sym_range('a', 'z', "name"); nm[2] = 0;
	int kind = pick(0, 2, "kind"), fl = pick(0, 7, "flags"), args = pick(0, 1, "args"), ctxk = pick(0, 2, "after");
	MacroFlags f = (MacroFlags)(((fl & 1) ? MF_Functional : 0) | ((fl & 2) ? MF_Allow_As_Attribute : 0) | ((fl & 4) ? MF_Allow_As_Specifier : 0));
	MacroType mt = kind == 0 ? MT_Expression : kind == 1 ? MT_Statement : MT_Typename;
	Macro m = { mkstr(nm, 2), mt, f }; switch (pick(0, 2, "how")) { case 0: register_macro(m); break; case 1: register_macros(2, Macro{ mkstr("Other", 5), MT_Typename, MF_Functional }, m); break; case 2: { Macro two[2] = { m, { mkstr("Other", 5), MT_Typename, MF_Functional } }; register_macros_arr(2, two); break; } }
	Macro* got = lookup_macro(mkstr(exact(nm, 2), 2)); CHECK(got && got->Type == mt && got->Flags == f, "a registered macro is found by its name");
	char u[2]; u[0] = 'M'; u[1] = (char)sym_range('a', 'z', "use");
	bool same = u[1] == nm[1]; B[0] = u[0]; B[1] = u[1]; nB = 2; if (args) w_raw("(a)"); w_raw(ctxk == 0 ? " " : ctxk == 1 ? "\n" : ";");
	char* p = exact(B, nB); TokArray t = lex(mkstr(p, nB)); Token* x = &t.Arr[0];
	bool resolves = same && (args != 0) == ((fl & 1) != 0);
	TokType want = !resolves ? Tok_Identifier : kind == 0 ? Tok_Preprocess_Macro_Expr : kind == 1 ? Tok_Preprocess_Macro_Stmt : Tok_Preprocess_Macro_Typename;
	CHECK(x->Type == want && x->Text.Len == 2, "a name is a macro exactly when it is registered and used as registered");
	if (resolves) CHECK(((x->Flags & TF_Attribute) != 0) == ((fl & 2) != 0) && ((x->Flags & TF_Specifier) != 0) == ((fl & 4) != 0) && ((x->Flags & TF_Macro_Functional) != 0) == (args != 0), "what a macro may stand for is as registered");
	if (resolves) REACH("macro"); else REACH("name");
}
ENTRY(h_lex_many) // more tokens than the list was made for
{
	ctx_small(); int n = option("n", 150); char* p = (char*)sym_alloc(2 * n); for (int i = 0; i < n; i++) { p[2 * i] = (char)sym_range('0', '9', "d"); p[2 * i + 1] = ','; }
	TokArray t = lex(mkstr(p, 2 * n)); CHECK(array_num(t.Arr) == 2 * n, "every token is kept"); bool ok = true;
	for (int i = 0; i < 2 * n; i++) ok &= t.Arr[i].Text.Ptr == p + i && t.Arr[i].Text.Len == 1 && t.Arr[i].Type == (i & 1 ? Tok_Comma : Tok_Number) && t.Arr[i].Column == i + 1;
	CHECK(ok, "every token is kept as it was"); REACH("many");
}
