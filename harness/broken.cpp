#include "common.hpp"
#include "gram.hpp"
#include "decls.hpp"
// Texts that are no longer declarations: each is refused with a report or read as something; never a bad access, never without end.
static int g_kind, g_from;
static int text(int w)
{
	g_symbolic = 0; fresh(); skip_ = false; Name cn; int k = pick(0, NKINDS - 1, "kind"); g_kind = k; bool in = w == 1;
	if (w == 1) { lit("class "); cn = id(); lit("{ "); } if (w == 2) lit("namespace N1{ "); g_from = S.n;
	decl(k, in ? &cn : nullptr); if (w == 1) lit(" };"); if (w == 2) lit(" }");
	for (int i = 0; i < S.n; i++) if (S.b[i] != (char)sym_concrete((unsigned char)S.b[i])) return 0;
	return skip_ ? 0 : S.n;
}
static int strip(char const* a, int n, char* o) { int m = 0; for (int i = 0; i < n; i++) { if (a[i] == '=') { int j = i + 1; while (j < n && a[j] == ' ') j++; if (j < n && a[j] == '{') continue; } o[m++] = a[i]; } o[m] = 0; return m; }
static int g_keep;
static void run(char* t, int n)
{
	sym_fatal_ok(1); t[n] = 0; sym_note(t, 0);
	CodeBody b = parse_global_body(mkstr(exact(t, n), n));
	if (b && b->Type != CT_Invalid)
	{
		CHECK(b->Type == CT_Global_Body, "a body is made"); int total = 0; Code prev = NullCode;
		for (Code c = b->Front; c && total < 60; c = c->Next) { total++; CHECK(!prev || c->Prev.ast == prev.ast || c->Type == CT_NewLine, "entries are linked both ways"); prev = c; }
		CHECK(total == b->NumEntries && b->Back.ast == prev.ast, "the body counts its entries"); StrBuilder o = code_to_strbuilder((Code)b); CHECK(o[strbuilder_length(o)] == 0, "what was read can be printed");
		if (g_keep) { static char t2[800], o2[800]; int tn = strip(t, n, t2), on = strip(o, strbuilder_length(o), o2); bool ok = same_tokens(t2, tn, o2, on); if (!ok) { sym_note("got:", 0); sym_note(o, 0); sym_note(g_why, 0); } CHECK(ok, "what was read keeps its tokens"); }
		REACH("read");
	}
	REACH("ended");
}
// the tokens are compared where the text is not an untyped piece (macro, execution body, template parameters) that carries whatever it holds
static void keep(bool same) { g_keep = same && g_kind != 45 && g_kind != 24 && g_kind != 29 && g_kind != 30; }
ENTRY(h_broken_cut)  { ctx_small(); int n = text(pick(0, 2, "where")); if (!n) return; int k = pick(1, n, "length"); char t[400]; for (int i = 0; i < k; i++) t[i] = S.b[i]; keep(true); run(t, k); }
ENTRY(h_broken_byte) { ctx_small(); int n = text(pick(0, 2, "where")); if (!n) return; int k = pick(0, n - 1, "at"); char t[400]; for (int i = 0; i < n; i++) t[i] = S.b[i]; char c = (char)sym_range(1, 126, "byte"); t[k] = c;
	keep(k >= g_from && !(g_kind >= 21 && g_kind <= 32) && c != ';' && c != '\r' && (c != '&' || k < 2 || t[k-2] != '&')); run(t, n); }
ENTRY(h_broken_drop) { ctx_small(); int n = text(pick(0, 2, "where")); if (!n) return; int k = pick(0, n - 1, "from"), l = pick(1, 3, "length"); if (k + l > n) return; char t[400]; int m = 0; for (int i = 0; i < n; i++) if (i < k || i >= k + l) t[m++] = S.b[i]; keep(k >= g_from); run(t, m); }
