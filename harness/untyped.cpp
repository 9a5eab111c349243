#include "common.hpp"
#include "gram.hpp"
// Templates with <tokens>, and the untyped code made from them, against a plain expander.
static char fmt_[16]; static int nf_; enum { MAXV = 3 };
static char const* tok_[4]; static char vals_[4][MAXV + 1]; static int vlen_[4], np_; static char want_[64]; static int nw_;
static bool is_tok(int i, int from, int to) { int n = 0; while (tok_[i][n]) n++; if (n != to - from) return false; for (int k = 0; k < n; k++) if (fmt_[from + k] != tok_[i][k]) return false; return true; }
static void expand()
{
	nw_ = 0;
	for (int i = 0; i < nf_;)
	{
		if (fmt_[i] == '<')
		{
			int e = i + 1; while (e < nf_ && fmt_[e] != '>') e++;
			if (e < nf_) { int hit = -1; for (int p = 0; p < np_; p++) if (is_tok(p, i + 1, e)) hit = p; if (hit >= 0) { for (int k = 0; k < vlen_[hit]; k++) want_[nw_++] = vals_[hit][k]; i = e + 1; continue; } }
		}
		want_[nw_++] = fmt_[i++];
	}
}
static void template_of(int n)
{
	char* f = (char*)sym_alloc(n + 1); sym_bytes(fmt_, n, "template");
	for (int i = 0; i < n; i++) { ASSUME(fmt_[i] != 0); f[i] = fmt_[i]; } f[n] = 0; fmt_[n] = 0; nf_ = n;
}
static Str value(int p) { vlen_[p] = pick(0, 1, "value") ? 2 : 0; sym_bytes(vals_[p], 2, "value"); return Str { exact(vals_[p], vlen_[p]), vlen_[p] }; }
static void check_text(char const* t, ssize n, char const* what) { expand(); CHECK(n == nw_ && bytes_eq(t, want_, nw_), what); }
static char* fresh_fmt() { char* f = (char*)sym_alloc(nf_ + 1); for (int i = 0; i < nf_; i++) f[i] = fmt_[i]; f[nf_] = 0; return f; }
// every template over the characters that matter
ENTRY(h_tmpl_text)
{
	ctx_small(); template_of(pick(0, option("n", 5), "length")); char* f = fresh_fmt(); tok_[0] = "a"; tok_[1] = "aT"; np_ = pick(0, 2, "pairs"); Str r;
	if (np_ == 0) r = token_fmt(f); else if (np_ == 1) { Str a = value(0); r = token_fmt("a", a, f); } else { Str a = value(0), b = value(1); r = token_fmt("a", a, "aT", b, f); }
	check_text(r.Ptr, r.Len, "every token is replaced by its value and everything else is kept"); REACH("expanded");
}
// values holding tokens themselves, tokens of an earlier call, the same token twice
ENTRY(h_tmpl_calls)
{
	ctx_small(); tok_[0] = "a"; tok_[1] = "b2"; tok_[2] = "long_token_name"; static char const* F[] = { "<a><b2><long_token_name>", "x <a> <a>;<b2>", "<<a>>", "<a", "<b2>a>", "<A><long_token_nam><long_token_name >", "" };
	for (int c = 0; c < 2; c++)
	{
		char const* f = F[pick(0, 6, "template")]; nf_ = 0; fmt_[0] = 0; static char big[40]; int n = 0; while (f[n]) { big[n] = f[n]; n++; } big[n] = 0;
		int m = pick(0, 3, "pairs"); Str v[3]; for (int p = 0; p < 3; p++) { int k = pick(0, 1, "value"); static char const* V[] = { "<a>", "<b2" }; vlen_[p] = k ? 0 : p == 2 ? 1 : 3; for (int q = 0; q < vlen_[p]; q++) vals_[p][q] = V[p & 1][q]; v[p] = Str { exact(vals_[p], vlen_[p]), vlen_[p] }; if (p >= m) break; }
		Str r = m == 0 ? token_fmt(f) : m == 1 ? token_fmt("a", v[0], f) : m == 2 ? token_fmt("a", v[0], "b2", v[1], f) : token_fmt("a", v[0], "b2", v[1], "long_token_name", v[2], f);
		static char w[200]; int nw = 0;
		for (int i = 0; i < n;) { int hit = -1, e = i + 1; if (big[i] == '<') { while (e < n && big[e] != '>') e++; if (e < n) for (int p = 0; p < m; p++) { int l = 0; while (tok_[p][l]) l++; if (l == e - i - 1) { bool s = true; for (int q = 0; q < l; q++) s = s && big[i + 1 + q] == tok_[p][q]; if (s) hit = p; } } } if (hit >= 0) { for (int q = 0; q < vlen_[hit]; q++) w[nw++] = vals_[hit][q]; i = e + 1; } else w[nw++] = big[i++]; }
		CHECK(r.Len == nw && bytes_eq(r.Ptr, w, nw), "a call replaces exactly its own tokens, once");
	}
	REACH("called");
}
static ssize va_(char* b, usize n, int num, ...) { va_list va; va_start(va, num); ssize r = token_fmt_va(b, n, num, va); va_end(va); return r; }
// buffers of every size: nothing outside is written; what does not fit is reported
ENTRY(h_tmpl_room)
{
	ctx_small(); sym_fatal_ok(1); int t = pick(0, 3, "template"); static char const* F[] = { "<a>", "xy<a>z", "plain", "<a><b" }; nf_ = 0; while (F[t][nf_]) { fmt_[nf_] = F[t][nf_]; nf_++; } tok_[0] = "a"; np_ = 1; Str v = value(0); expand();
	int room = pick(0, 7, "room"); char* b = (char*)sym_alloc(room); ssize r = va_(b, room, 2, "a", v, F[t]);
	CHECK(nw_ <= room, "what does not fit is reported"); CHECK(r == nw_ && bytes_eq(b, want_, nw_), "what fits is complete"); REACH("fits");
}
// untyped code
static void untyped_is(Code c, char const* w, int n)
{
	CHECK(valid(c, CT_Untyped), "untyped code is made"); CHECK(c->Content.Len == n && bytes_eq(c->Content.Ptr, w, n) && c->Name.Ptr == c->Content.Ptr && c->Name.Len == n, "untyped code holds the text");
	StrBuilder o = code_to_strbuilder(c); CHECK(strbuilder_length(o) == n && bytes_eq(o, w, n), "untyped code prints the text as it is");
}
ENTRY(h_tmpl_untyped)
{
	ctx_small(); int how = pick(0, 4, "how"); char t[5]; sym_bytes(t, 4, "text"); for (int i = 0; i < 4; i++) ASSUME(t[i] != 0); int n = pick(1, 4, "length"); char* z = (char*)sym_alloc(n + 1); for (int i = 0; i < n; i++) z[i] = t[i]; z[n] = 0; Str s = { exact(t, n), n }; char w[16]; int k = 0;
	switch (how) {
	case 0: for (int i = 0; i < n; i++) w[k++] = t[i]; untyped_is((Code)untyped_str(s), w, k); break;
	case 1: w[k++] = '{'; for (int i = 0; i < n; i++) w[k++] = t[i]; w[k++] = '}'; untyped_is((Code)untyped_fmt("{%s}", z), w, k); break;
	case 2: for (int i = 0; i < n; i++) w[k++] = t[i]; w[k++] = '7'; untyped_is((Code)untyped_fmt("%S%d", s, 7), w, k); break;
	case 3: w[k++] = '['; for (int i = 0; i < n; i++) w[k++] = t[i]; w[k++] = '>'; untyped_is((Code)untyped_token_fmt(1, "[<x>>", "x", s), w, k); break;
	case 4: w[k++] = 'q'; for (int i = 0; i < n; i++) w[k++] = t[i]; untyped_is((Code)untyped_token_fmt(2, "<y><x><z", "x", s, "y", Str { "q", 1 }), (w[k++] = '<', w[k++] = 'z', w), k); break;
	}
	REACH("untyped");
}
// code parsed from a template
ENTRY(h_tmpl_parse)
{
	ctx_small(); fresh(); Name n = fresh_name(), t = fresh_name(), m = fresh_name(); Str ns = { exact(n.c, 2), 2 }, ts = { exact(t.c, 2), 2 }, ms = { exact(m.c, 2), 2 }; Code c;
	switch (pick(0, 3, "what"))
	{
	case 0: c = (Code)parse_fmt(struct, "name", ns, "type", ts, "member", ms, "struct <name> { <type> <member>; <name>* <member>2; };"); ex("struct "); use(&X, n); ex("{"); use(&X, t); ex(" "); use(&X, m); ex(";"); use(&X, n); ex("* "); use(&X, m); ex("2;};"); break;
	case 1: c = (Code)parse_fmt(function, "name", ns, "type", ts, "member", ms, "<type> <name>_<member>( <type>* a ) { return a < <name>; }"); use(&X, t); ex(" "); use(&X, n); ex("_"); use(&X, m); ex("("); use(&X, t); ex("* a){ return a < "); use(&X, n); ex("; }"); break;
	case 2: c = (Code)parse_fmt(variable, "type", ts, "name", ns, "<type><<name>> v;"); use(&X, t); ex("<"); use(&X, n); ex("> v;"); break;
	case 3: c = (Code)code_fmt("type", ts, "name", ns, "do(<type>, <name>)"); ex("do("); use(&X, t); ex(", "); use(&X, n); ex(")"); break;
	}
	check_output(c, "code parsed from a template has the values in it"); REACH("parsed");
}
