#include "common.hpp"
#include "gram.hpp"
#include "decls.hpp"
// Files written with a builder, and files read back by the scanner.
static char g_want[4096]; static int g_wn;
static void want(char const* t, long long n) { for (long long i = 0; i < n; i++) g_want[g_wn++] = t[i]; }
static bool file_is(char const* name) { int i = wf_find(name); return i >= 0 && wf_files[i].size == g_wn && bytes_eq(wf_files[i].data, g_want, g_wn); }
static Code some(int k) { fresh(); int g = g_names; if (g > 40) g_names = 0; skip_ = false; decl(k, nullptr); return skip_ ? NullCode : (Code)parse_global_body(source()); }
static void step(Builder* b, int which)
{
	static const int kinds[] = { 0, 3, 5, 8, 14, 21, 23, 46, 20 };
	switch (pick(0, 3, "step"))
	{
	case 0: { Code c = some(kinds[pick(0, 8, "kind")]); StrBuilder t = code_to_strbuilder(c); want(t, strbuilder_length(t)); builder_print(b, c); break; }
	case 1: { int n = pick(-1, 3, "lines"); builder_pad_lines(b, n); for (int i = 0; i < n; i++) want("\n", 1); break; }
	case 2: { char t[4]; sym_bytes(t, 3, "text"); for (int i = 0; i < 3; i++) ASSUME(t[i] != 0); t[3] = 0; int v = pick(-2, 12, "number"); builder_print_fmt(b, "%s=%d;", t, v); want(t, 3); want("=", 1); if (v < 0) want("-", 1); int a = v < 0 ? -v : v; char d[2] = { (char)('0' + a / 10), (char)('0' + a % 10) }; if (a > 9) want(d, 2); else want(d + 1, 1); want(";", 1); break; }
	case 3: { b->print(t_int); want("int", 3); b->pad_lines(1); want("\n", 1); b->print_fmt("%c", 'x'); want("x", 1); break; }
	}
}
ENTRY(h_builder)
{
	g_symbolic = 0; ctx_small(); int have = pick(0, 1, "existing"), per = pick(0, 1, "transfer") * 3, fail = pick(-1, 2, "fault"); if (have) wf_make("o", "abcdefgh", 8); if (pick(0, 5, "open fails") == 0) { wf_fail_open = 0; sym_fatal_ok(1); }
	Builder b = builder_open("o"); CHECK(wf_fail_open < 0 && wf_opened == 1, "a file that cannot be opened is reported"); CHECK(wf_files[wf_find("o")].size == 0, "the file is emptied"); int n = option("n", 2); for (int i = 0; i < n; i++) step(&b, 0);
	wf_short = per; wf_fail_write = fail; int calls = g_wn == 0 ? 0 : per ? (g_wn + per - 1) / per : 1; if (fail >= 0 && fail < calls) sym_fatal_ok(1);
	builder_write(&b); CHECK(fail < 0 || fail >= calls, "a failed write is reported"); CHECK(file_is("o"), "the file is what was printed, in order"); CHECK(wf_opened == wf_closed, "the file is closed"); REACH("written");
}
ENTRY(h_builder_two) // two builders at once
{
	g_symbolic = 0; ctx_small(); Builder a = builder_open("a"), b = builder_open("b"); static char wa[4096]; int na = 0; static char wb[4096]; int nb = 0;
	for (int i = 0; i < 3; i++) { bool second = pick(0, 1, "which"); g_wn = 0; step(second ? &b : &a, 0); for (int j = 0; j < g_wn; j++) if (second) wb[nb++] = g_want[j]; else wa[na++] = g_want[j]; }
	if (pick(0, 1, "order")) { builder_write(&b); builder_write(&a); } else { builder_write(&a); builder_write(&b); }
	g_wn = 0; want(wa, na); CHECK(file_is("a"), "the first file is what was printed to it"); g_wn = 0; want(wb, nb); CHECK(file_is("b"), "the second file is what was printed to it"); CHECK(wf_opened == wf_closed, "the files are closed"); REACH("two");
}
ENTRY(h_parse_file) // a file read, printed to another and read again
{
	g_symbolic = 0; ctx_small(); int k = pick(0, NKINDS - 1, "kind"), have = pick(-1, 1, "existing"), per = pick(0, 1, "transfer") * 5; fresh(); skip_ = false; decl(k, nullptr); if (skip_) return;
	if (have < 0) { sym_fatal_ok(1); parse_file("i"); CHECK(false, "a missing file is reported"); }
	if (have == 0) { sym_fatal_ok(1); wf_make("i", "", 0); parse_file("i"); CHECK(false, "an empty file is reported"); }
	wf_make("i", S.b, S.n); wf_short = per; CodeBody c = parse_file("i"); CHECK(c && c->Type == CT_Global_Body, "the file is read");
	Builder b = builder_open("o"); b.print(c); b.write(); WFile* o = wf_files + wf_find("o"); CHECK(same_tokens(X.b, X.n, o->data, (int)o->size), "the file written has the tokens of the file read"); CHECK(wf_opened == wf_closed, "the files are closed");
	CodeBody d = parse_file("o"); CHECK(d && d->Type == CT_Global_Body, "the file written is read"); StrBuilder t = code_to_strbuilder((Code)d); CHECK(same_tokens(X.b, X.n, t, strbuilder_length(t)), "the file written reads as the same code"); Code x = c->Front, y = d->Front;
	while (x || y) { while (x && x->Type == CT_NewLine) x = x->Next; while (y && y->Type == CT_NewLine) y = y->Next; CHECK((x && y) || (!x && !y), "as many declarations"); if (!x) break; CHECK(x->Type == y->Type && str_are_equal(x->Name, y->Name), "the same declarations"); x = x->Next; y = y->Next; }
	REACH("again");
}
// --- scan_file: text, with the INTELLISENSE_DIRECTIVES block at its start left out
static char const* LINES[] = { "int a;", "#ifdef INTELLISENSE_DIRECTIVES", "#endif", "#include \"x.hpp\"", "#ifdef OTHER", "#pragma once", "# ifdef INTELLISENSE_DIRECTIVES", "#\tendif // x", "", "#", "#e", "#i", "#ifdef", "x #y" };
enum { NLINES = 14 };
ENTRY(h_scan)
{
	g_symbolic = 0; ctx_small(); int n = pick(1, option("n", 3), "lines"), nl = pick(0, 2, "line end"), last = pick(0, 1, "ends"), cut = -1; bool in = false; fresh(); char t[512]; int k = 0;
	for (int i = 0; i < n; i++)
	{
		int l = pick(0, NLINES - 1, "line"); char const* p = LINES[l]; for (; *p; p++) t[k++] = *p; if (i + 1 < n || last) { if (nl == 1) t[k++] = '\r'; if (nl < 2) t[k++] = '\n'; else t[k++] = '\r'; }
		if (cut < 0 && in && (l == 2 || l == 7)) cut = k; if (l == 1 || l == 6) in = true;
	}
	char sy[2]; sym_bytes(sy, 2, "tail"); for (int i = 0; i < 2; i++) { ASSUME(sy[i] != '#' && sy[i] != '\n' && sy[i] != '\r' && sy[i] != ' ' && sy[i] != '\t' && sy[i] != '\v' && sy[i] != '\f'); } if (last && pick(0, 1, "more")) { t[k++] = sy[0]; t[k++] = sy[1]; }
	wf_make("i", t, k); wf_short = pick(0, 1, "transfer") * 7; int fail = pick(-1, 0, "fault"); wf_fail_read = fail; int from = cut < 0 ? 0 : cut; if (from == k || fail == 0) sym_fatal_ok(1);
	Code c = scan_file("i"); CHECK(fail < 0 && k > 0, "what cannot be read is reported"); CHECK(c->Type == CT_Untyped && c->Content.Len == k - from && bytes_eq(c->Content.Ptr, t + from, k - from), "the text of the file behind the skipped block"); CHECK(wf_opened == wf_closed, "the file is closed"); REACH("scanned");
}
ENTRY(h_scan_missing) { ctx_small(); sym_fatal_ok(1); if (pick(0, 1, "there")) { wf_make("i", "x", 1); if (pick(0, 1, "fails")) wf_fail_open = 0; else { Code c = scan_file("i"); CHECK(str_is(c->Content, "x"), "the text of the file"); REACH("there"); return; } } scan_file("i"); CHECK(false, "a missing file is reported"); }
