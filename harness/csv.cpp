#include "common.hpp"
// Tables: cells separated by a delimiter, rows by line ends, quoted cells.
enum { MAXC = 3, MAXR = 3 };
static char g_t[512]; static int g_k; static char g_cell[MAXR][MAXC][16]; static int g_len[MAXR][MAXC]; static char g_delim; static int g_at, g_any, g_anys; // the cells written in any form: g_anys of them from g_any on, the others are plain
static void o(char c) { g_t[g_k++] = c; }
static void os(char const* s) { while (*s) o(*s++); }
static void blank(char c) { if (c != g_delim) o(c); }
static int cell(int r, int c, bool alone) // writes a cell in some form
{
	char* w = g_cell[r][c]; int n = 0, at = g_at++, form = at >= g_any && at < g_any + g_anys ? pick(alone ? 1 : 0, option("forms", 6), "form") : 1; char t[2]; sym_bytes(t, 2, "t"); ASSUME(t[0] != 0 && t[1] != 0);
	bool q = form >= 3 && form != 6; char d = g_delim;
	if (q) { ASSUME(t[0] != '"' && t[1] != '"'); } else if (form == 1 || form == 2) { for (int i = 0; i < 2; i++) ASSUME(t[i] != '"' && t[i] != d && t[i] != '\n' && t[i] != ' ' && t[i] != '\t' && t[i] != '\r' && t[i] != '\v' && t[i] != '\f'); }
	switch (form)
	{
	case 0: break;
	case 1: o(t[0]); o(t[1]); w[n++] = t[0]; w[n++] = t[1]; break;
	case 2: blank(' '); blank('\t'); o(t[0]); blank(' '); o('"'); o(t[1]); w[n++] = t[0]; if (d != ' ') w[n++] = ' '; w[n++] = '"'; w[n++] = t[1]; blank(' '); blank('\t'); break;
	case 3: o('"'); o(t[0]); o(t[1]); o('"'); w[n++] = t[0]; w[n++] = t[1]; break;
	case 4: blank(' '); o('"'); o(t[0]); o('"'); o('"'); o(t[1]); o('"'); w[n++] = t[0]; w[n++] = '"'; w[n++] = t[1]; blank(' '); break;
	case 5: { o('"'); int e = pick(0, 2, "quotes"); for (int i = 0; i < e; i++) { o('"'); o('"'); w[n++] = '"'; } o('"'); break; }
	case 6: os("0x1F"); for (char const* p = "0x1F"; *p; p++) w[n++] = *p; break;
	}
	w[n] = 0; g_len[r][c] = n; return form;
}
static void line_end(int nl) { if (nl == 1) o('\r'); o('\n'); }
static void table(int R, int C, int nl, bool end, bool gaps)
{
	g_at = 0; g_anys = option("any", 1); g_any = pick(0, R * C - g_anys > 0 ? R * C - g_anys : 0, "place");
	for (int r = 0; r < R; r++) { for (int c = 0; c < C; c++) { if (c) o(g_delim); cell(r, c, C == 1); } if (r + 1 < R || end) line_end(nl); if (gaps && r + 1 < R) { blank(' '); line_end(nl); } }
}
static char* text() { char* p = (char*)sym_alloc(g_k + 1); for (int i = 0; i < g_k; i++) p[i] = g_t[i]; p[g_k] = 0; return p; }
static bool cell_is(ADT_Node* n, int r, int c) { return n->type == EADT_TYPE_STRING && n->string && zlen(n->string) == g_len[r][c] && bytes_eq(n->string, g_cell[r][c], g_len[r][c]); }
static void check(CSV_Object* t, int R, int C, bool head)
{
	CHECK((long long)array_num(t->nodes) == C, "as many columns");
	for (int c = 0; c < C; c++)
	{
		ADT_Node* col = t->nodes + c; CHECK(col->type == EADT_TYPE_ARRAY && (long long)array_num(col->nodes) == R - head, "as many rows");
		if (head) CHECK(zlen(col->name) == g_len[0][c] && bytes_eq(col->name, g_cell[0][c], g_len[0][c]), "a column's name is its first cell"); else CHECK(!col->name, "columns have no names");
		for (int r = head; r < R; r++) CHECK(cell_is(col->nodes + (r - head), r, c), "a cell holds its text");
	}
}
ENTRY(h_csv_table)
{
	static const char ds[] = { ',', ';', '\t', ' ' }; g_delim = ds[pick(0, 3, "delimiter")]; int R = pick(1, option("r", 2), "rows"), C = pick(1, option("c", 2), "columns"), nl = pick(0, 1, "line end"), end = pick(0, 1, "ends"), head = pick(0, 1, "header"), gaps = pick(0, 1, "gaps"); if (gaps && g_delim == ' ') return;
	if (g_delim == ' ' && nl == 1) return; // a carriage return next to an empty cell
	table(R, C, nl, end, gaps); char* p = text(); CSV_Object t; u8 e = pick(0, 1, "plain") && g_delim == ',' ? csv_parse(&t, p, heap(), head) : csv_parse_delimiter(&t, p, heap(), head, g_delim);
	CHECK(e == ECSV_Error__NONE, "a table is read"); check(&t, R, C, head); REACH("table");
	if (R == head) return;
	StrBuilder s = pick(0, 1, "plain") && g_delim == ',' ? csv_write_string(heap(), &t) : csv_write_strbuilder_delimiter(heap(), &t, g_delim); CSV_Object u; char* z = exact(s, strbuilder_length(s) + 1);
	// an unquoted cell is written as it is, so one column of empty cells is not a table
	bool empty = false; if (C == 1) for (int r = 0; r < R; r++) empty |= g_len[r][0] == 0; if (empty) { csv_free(&t); return; }
	e = csv_parse_delimiter(&u, z, heap(), head, g_delim); CHECK(e == ECSV_Error__NONE, "a written table is read"); check(&u, R, C, head); csv_free(&t); check(&u, R, C, head); csv_free(&u); REACH("written");
}
ENTRY(h_csv_broken)
{
	g_delim = pick(0, 1, "delimiter") ? ';' : ','; int kind = pick(0, 5, "kind"), nl = pick(0, 1, "line end"), C = pick(1, 3, "columns"), D = pick(1, 3, "other"), w = 0; CSV_Object t; char a[3]; sym_bytes(a, 2, "x"); for (int i = 0; i < 2; i++) ASSUME(a[i] != '"' && a[i] != 0 && a[i] != g_delim && a[i] != ' ' && a[i] != '\t' && a[i] != '\r' && a[i] != '\n' && a[i] != '\v' && a[i] != '\f'); a[2] = 0;
	switch (kind)
	{
	case 0: if (C == D) return; for (int c = 0; c < C; c++) { if (c) o(g_delim); os(a); } line_end(nl); for (int c = 0; c < D; c++) { if (c) o(g_delim); os(a); } if (pick(0, 1, "ends")) line_end(nl); w = ECSV_Error__MISMATCHED_ROWS; break;
	case 1: if (C == D) return; for (int r = 0; r < 2; r++) { for (int c = 0; c < C; c++) { if (c) o(g_delim); os(a); } line_end(nl); } for (int c = 0; c < D; c++) { if (c) o(g_delim); os(a); } w = ECSV_Error__MISMATCHED_ROWS; break;
	case 2: for (int c = 1; c < C; c++) { os(a); o(g_delim); } o('"'); os(a); if (pick(0, 1, "more")) { o('"'); o('"'); } if (pick(0, 1, "line")) { line_end(nl); os(a); } w = ECSV_Error__UNEXPECTED_END_OF_INPUT; break;
	case 3: w = ECSV_Error__UNEXPECTED_END_OF_INPUT; break;
	case 4: for (int i = 1; i < C; i++) line_end(nl); if (pick(0, 1, "blank")) o(' '); w = ECSV_Error__UNEXPECTED_END_OF_INPUT; break;
	case 5: o('"'); o(a[0]); o('"'); if (pick(0, 1, "blank")) o(' '); os(a); if (pick(0, 1, "more")) { o(g_delim); os(a); } w = ECSV_Error__INTERNAL; break;
	}
	u8 e = csv_parse_delimiter(&t, text(), heap(), pick(0, 1, "header"), g_delim); CHECK(e == w, "what is no table is refused"); REACH("broken");
}
ENTRY(h_csv_file)
{
	ctx_small(); g_delim = ','; int R = pick(1, 2, "rows"), C = pick(1, 3, "columns"), two = pick(0, 1, "two"), bad = pick(0, 3, "fault"); table(R, C, 0, true, false); if (bad == 1) os("x,y,z,w\n"); if (bad != 2) wf_make("t", g_t, g_k); if (bad == 3) wf_fail_read = 0;
	if (bad || (two && C < 2)) { sym_fatal_ok(1); }
	if (two) { CSV_Columns2 t = parse_csv_two_columns(heap(), "t"); CHECK(!bad && C >= 2, "what is no table of two columns is reported"); CHECK((long long)array_num(t.Col_1) == R && (long long)array_num(t.Col_2) == R, "as many rows"); for (int r = 0; r < R; r++) CHECK(cell_is(t.Col_1 + r, r, 0) && cell_is(t.Col_2 + r, r, 1), "the cells of both columns"); check(&t.ADT, R, C, false); }
	else { CSV_Column t = parse_csv_one_column(heap(), "t"); CHECK(!bad, "what is no table is reported"); CHECK((long long)array_num(t.Content) == R, "as many rows"); for (int r = 0; r < R; r++) CHECK(cell_is(t.Content + r, r, 0), "the cells of the column"); check(&t.ADT, R, C, false); }
	CHECK(wf_opened == wf_closed, "the file is closed"); REACH("file");
}
