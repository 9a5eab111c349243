#include "common.hpp"
// Reference predicates
static int ref_cmp(char const* a, char const* b) { int i = 0; while (a[i] && a[i] == b[i]) i++; return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; }
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static char const WS[] = " \t\r\n\v\f";
static bool ws(char c) { bool r = false; for (int i = 0; i < 6; i++) r = r | (c == WS[i]); return r; }
static void nonul(char const* p, int n) { for (int i = 0; i < n; i++) ASSUME(p[i] != 0); }
// a terminated copy in an object of exactly n + 1 bytes
static char* zex(char const* s, int n) { char* p = (char*)sym_alloc(n + 1); for (int i = 0; i < n; i++) p[i] = s[i]; p[n] = 0; return p; }

ENTRY(h_chars)
{
	char c; sym_bytes(&c, 1, "c"); unsigned char u = c;
	bool up = u >= 65 && u <= 90, lo = u >= 97 && u <= 122, di = u >= 48 && u <= 57, hx = di || (u >= 65 && u <= 70) || (u >= 97 && u <= 102);
	CHECK(!!char_is_alpha(c) == (up || lo), "letters"); CHECK(!!char_is_digit(c) == di, "digits"); CHECK(!!char_is_alphanumeric(c) == (up || lo || di), "letters and digits");
	CHECK(!!char_is_hex_digit(c) == hx, "hexadecimal digits"); CHECK(!!char_is_space(c) == (u == 32 || (u >= 9 && u <= 13)), "white space");
	CHECK(char_to_lower(c) == (char)(up ? u + 32 : u), "lower case"); CHECK(char_to_upper(c) == (char)(lo ? u - 32 : u), "upper case");
	CHECK(hex_digit_to_int(c) == (di ? u - 48 : u >= 65 && u <= 70 ? u - 55 : u >= 97 && u <= 102 ? u - 87 : -1), "value of a hexadecimal digit");
	if (di) CHECK(digit_to_int(c) == u - 48, "value of a digit"); REACH("chars");
}
ENTRY(h_cstr_cmp)
{
	int m = option("n", 4), n = pick(0, m, "length a"), k = pick(0, m, "length b"), len = pick(0, m + 1, "limit"); char t[24]; sym_bytes(t, n + k, "bytes"); nonul(t, n + k);
	char *a = zex(t, n), *b = zex(t + n, k); int want = ref_cmp(a, b);
	CHECK(sgn(c_str_compare(a, b)) == sgn(want), "comparison of whole strings");
	int w = 0; for (int i = 0; i < len; i++) { if (a[i] != b[i]) { w = (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1; break; } if (!a[i]) break; }
	CHECK(sgn(c_str_compare_len(a, b, len)) == w, "comparison of prefixes"); CHECK(c_str_compare_len(a, a, len) == 0, "equal to itself"); REACH("cmp");
}
ENTRY(h_cstr_misc)
{
	int m = option("n", 6), n = pick(0, m, "length"); char t[24]; sym_bytes(t, n ? n : 1, "bytes"); nonul(t, n); char* a = zex(t, n); char c; sym_bytes(&c, 1, "c"); sym_readonly(a, 1);
	CHECK(c_str_len(a) == n && c_str_len(nullptr) == 0, "length"); int cap = pick(0, m, "cap"); if (cap <= n + 1) CHECK(c_str_len_capped(a, cap) == (cap < n ? cap : cap == n + 1 ? n : cap), "capped length");
	int f = n; for (int i = n; i-- > 0;) f = t[i] == c ? i : f;
	char const* r = char_first_occurence(a, c); CHECK(r == (f < n || c == 0 ? a + f : nullptr), "first occurrence");
	CHECK(c_str_skip(a, c) == a + f, "skip to a character");
	char l[3]; l[0] = c; sym_bytes(l + 1, 1, "other"); l[2] = 0; ASSUME(l[0] != 0 && l[1] != 0); int g = n; for (int i = n; i-- > 0;) g = (t[i] == l[0]) | (t[i] == l[1]) ? i : g;
	CHECK(c_str_skip_any(a, l) == a + g, "skip to any of some characters");
	int nl = pick(0, 1, "stop at newline"); int s = 0; while (s < n && ws(t[s]) && !(nl && t[s] == '\n')) s++;
	CHECK(c_str_trim(a, nl) == a + s, "skip white space"); sym_readonly(a, 0);
	c_str_reverse(a); bool ok = true; for (int i = 0; i < n; i++) ok = ok & (a[i] == t[n - 1 - i]); CHECK(ok && a[n] == 0, "reversed");
	char* u = zex(t, n); c_str_to_upper(u); ok = true; for (int i = 0; i < n; i++) ok = ok & (u[i] == (char)(t[i] >= 'a' && t[i] <= 'z' ? t[i] - 32 : t[i])); CHECK(ok, "to upper");
	u = zex(t, n); c_str_to_lower(u); ok = true; for (int i = 0; i < n; i++) ok = ok & (u[i] == (char)(t[i] >= 'A' && t[i] <= 'Z' ? t[i] + 32 : t[i])); CHECK(ok, "to lower");
	c_str_to_lower(nullptr); REACH("misc");
}
ENTRY(h_cstr_copy)
{
	int m = option("n", 6), n = pick(0, m, "length"), len = pick(0, m + 2, "room"); char t[24]; sym_bytes(t, n ? n : 1, "bytes"); nonul(t, n); char* a = zex(t, n);
	char* d = (char*)sym_alloc(len ? len : 1); CHECK(c_str_copy(d, a, len) == d, "copy returns the destination"); bool ok = true; for (int i = 0; i < len; i++) ok = ok & (d[i] == (i < n ? t[i] : 0)); CHECK(ok, "copied and padded with zeros");
	char* e = (char*)sym_alloc(len ? len : 1); CHECK(c_str_copy_nulpad(e, a, len) == (len < n ? len : n), "copied count"); CHECK(bytes_eq(e, d, len), "same as copy"); REACH("copy");
}
// Length-delimited strings: never read beyond their length
ENTRY(h_str)
{
	int m = option("n", 4), n = pick(0, m, "length"), k = pick(0, 3, "length of part"); char t[24]; sym_bytes(t, n + k, "bytes"); nonul(t, n + k);
	Str a = { exact(t, n), n }, b = { exact(t + n, k), k };
	bool eq = n == k && bytes_eq(t, t + n, n); CHECK(str_are_equal(a, b) == eq, "equality");
	bool st = k <= n && bytes_eq(t, t + n, k); CHECK(!!str_starts_with(a, b) == st, "starts with");
	bool in = false; for (int i = 0; i + k <= n; i++) in = in | bytes_eq(t + i, t + n, k); CHECK(str_contains(a, b) == in, "contains");
	if (n) CHECK(str_back(a) == a.Ptr + n - 1, "last character"); CHECK(str_end(a) - str_begin(a) == n, "range");
	Str d = str_duplicate(a, heap()); CHECK(d.Len == n && bytes_eq(d.Ptr, t, n) && d.Ptr[n] == 0 && d.Ptr != a.Ptr, "duplicate");
	char* z = zex(t, n); Str w = to_str_from_c_str(z); CHECK(w.Ptr == z && w.Len == n, "from a C string"); REACH("str");
}
static int glyph(char c, unsigned char* o) { switch (c) { case ' ': o[0] = 0xC2; o[1] = 0xB7; return 2; case '\t': o[0] = 0xE2; o[1] = 0x86; o[2] = 0x92; return 3; case '\n': o[0] = 0xE2; o[1] = 0x86; o[2] = 0xB5; return 3; case '\r': o[0] = 0xE2; o[1] = 0x8F; o[2] = 0x8E; return 3; case '\v': o[0] = 0xE2; o[1] = 0x87; o[2] = 0x95; return 3; case '\f': o[0] = 0xE2; o[1] = 0x8C; o[2] = 0x82; return 3; } o[0] = c; return 1; }
ENTRY(h_visualize)
{
	int n = pick(0, option("n", 4), "length"); char t[16]; sym_bytes(t, n ? n : 1, "bytes"); unsigned char w[64]; int k = 0; Str a = { exact(t, n), n };
	for (int i = 0; i < n; i++) k += glyph(t[i], w + k);
	Str r = str_visualize_whitespace(a, heap()); CHECK(r.Len == k && bytes_eq(r.Ptr, (char*)w, k) && r.Ptr[k] == 0, "visible white space");
	StrBuilder b = strbuilder_make_str(heap(), a), v = strbuilder_visualize_whitespace(b); CHECK(strbuilder_length(v) == k && bytes_eq(v, (char*)w, k), "visible white space of a builder"); REACH("vis");
}
static void same(StrBuilder s, char const* m, int n) { CHECK(strbuilder_length(s) == n, "length"); CHECK(bytes_eq(s, m, n), "contents"); CHECK(((char*)s)[n] == 0, "terminated"); CHECK(strbuilder_capacity(s) >= n && strbuilder_avail_space(s) == strbuilder_capacity(s) - n, "capacity covers the contents"); }
// Builders against a plain buffer, for every sequence of operations
ENTRY(h_builder)
{
	int steps = option("steps", 4); char v[64]; int nv = 0; sym_bytes(v, 40, "bytes"); nonul(v, 40); char m[400]; int n = 0; StrBuilder s;
	switch (pick(0, 3, "made by")) { case 0: s = strbuilder_make_reserve(heap(), pick(0, 2, "reserve")); break; case 1: s = strbuilder_make_length(heap(), v, 2); m[0] = v[0]; m[1] = v[1]; n = 2; break; case 2: s = strbuilder_make_c_str(heap(), zex(v, 3)); for (n = 0; n < 3; n++) m[n] = v[n]; break; case 3: { Str e = { exact(v, 1), 1 }; s = strbuilder_make_str(heap(), e); m[0] = v[0]; n = 1; } break; }
	nv = 3; same(s, m, n);
	for (int i = 0; i < steps; i++) {
		switch (pick(0, 8, "op")) {
			case 0: CHECK(strbuilder_append_char(&s, v[nv]), "append"); m[n++] = v[nv++]; REACH("char"); break;
			case 1: { int k = pick(0, 3, "k"); CHECK(strbuilder_append_c_str(&s, zex(v + nv, k)), "append"); for (int j = 0; j < k; j++) m[n++] = v[nv++]; REACH("cstr"); } break;
			case 2: { int k = pick(0, 3, "k"); Str e = { exact(v + nv, k), k }; CHECK(strbuilder_append_str(&s, e), "append"); for (int j = 0; j < k; j++) m[n++] = v[nv++]; } break;
			case 3: { StrBuilder o = strbuilder_make_length(heap(), v + nv, 2); CHECK(strbuilder_append_string(&s, o), "append"); m[n++] = v[nv++]; m[n++] = v[nv++]; strbuilder_free(&o); } break;
			case 4: { StrBuilder d = strbuilder_duplicate(s, heap()); CHECK((char*)d != (char*)s, "own copy"); same(d, m, n); CHECK(strbuilder_are_equal_string(s, d), "equal to the copy"); strbuilder_free(&s); s = d; REACH("dup"); } break;
			case 5: strbuilder_clear(s); n = 0; REACH("clear"); break;
			case 6: { int b = 0, e = n; while (b < e && ws(m[b])) b++; while (e > b && ws(m[e - 1])) e--; strbuilder_trim_space(s); for (int j = b; j < e; j++) m[j - b] = m[j]; n = e - b; REACH("trim"); } break;
			case 7: { int k = 0; strbuilder_strip_space(s); for (int j = 0; j < n; j++) if (!ws(m[j])) m[k++] = m[j]; n = k; REACH("strip"); } break;
			case 8: CHECK(strbuilder_make_space_for(&s, "", pick(0, 9, "room")), "room"); break;
		}
		same(s, m, n);
	}
	Str t = strbuilder_to_str(s); CHECK(t.Ptr == (char*)s && t.Len == n, "as a view"); if (n) CHECK(strbuilder_back(s) == (char*)s + n - 1, "last character"); CHECK(strbuilder_end(s) - strbuilder_begin(s) == n, "range");
	strbuilder_free(&s); REACH("end");
}
ENTRY(h_builder_q)
{
	int m = option("n", 4), n = pick(0, m, "length"), k = pick(0, 3, "length of part"); char t[24]; sym_bytes(t, n + k, "bytes"); nonul(t, n + k);
	StrBuilder a = strbuilder_make_length(heap(), t, n), b = strbuilder_make_length(heap(), t + n, k); Str e = { exact(t + n, k), k };
	bool eq = n == k && bytes_eq(t, t + n, n); CHECK(strbuilder_are_equal_string(a, b) == eq && strbuilder_are_equal_str(a, e) == eq, "equality");
	bool st = k <= n && bytes_eq(t, t + n, k); CHECK(!!strbuilder_starts_with_str(a, e) == st && !!strbuilder_starts_with_string(a, b) == st, "starts with");
	bool in = false; for (int i = 0; i + k <= n; i++) in = in | bytes_eq(t + i, t + n, k); CHECK(strbuilder_contains_StrC(a, e) == in && strbuilder_contains_string(a, b) == in, "contains"); REACH("q");
}
ENTRY(h_builder_trim)
{
	int n = pick(0, option("n", 5), "length"); char t[16]; sym_bytes(t, n ? n : 1, "bytes"); nonul(t, n); char cut[3]; sym_bytes(cut, 2, "cut set"); cut[2] = 0; nonul(cut, 2);
	int b = 0, e = n; while (b < e && ((t[b] == cut[0]) | (t[b] == cut[1]))) b++; while (e > b && ((t[e - 1] == cut[0]) | (t[e - 1] == cut[1]))) e--;
	StrBuilder s = strbuilder_make_length(heap(), t, n); strbuilder_trim(s, cut); CHECK(strbuilder_length(s) == e - b && bytes_eq(s, t + b, e - b) && ((char*)s)[e - b] == 0, "trimmed at both ends only"); REACH("trimmed");
}
ENTRY(h_builder_join)
{
	char v[16]; sym_bytes(v, 12, "bytes"); nonul(v, 12); int k = pick(0, 3, "parts"), l = pick(0, 2, "part length"), g = pick(0, 2, "glue length"); char const* p[3]; char m[64]; int n = 0; char* gl = zex(v + 8, g);
	for (int i = 0; i < k; i++) { p[i] = zex(v + i * 2, l); for (int j = 0; j < l; j++) m[n++] = v[i * 2 + j]; if (i + 1 < k) for (int j = 0; j < g; j++) m[n++] = v[8 + j]; }
	StrBuilder s = strbuilder_join(heap(), p, k, gl); same(s, m, n);
	StrBuilder q = strbuilder_make_c_str(heap(), "a"); strbuilder_append_fmt(&q, "%s-%S|%d", "xy", txt("zw"), 42); same(q, "axy-zw|42", 9); char buf[64]; StrBuilder f = strbuilder_fmt(heap(), buf, 64, "%s=%d", "k", 7); same(f, "k=7", 3);
	StrBuilder h = strbuilder_fmt_buf(heap(), "<%SB>", (char*)f); same(h, "<k=7>", 5); REACH("join");
}
ENTRY(h_builder_skip)
{
	StrBuilder s = strbuilder_make_c_str(heap(), "ab\ncd"); strbuilder_skip_line(s); Str t = strbuilder_to_str(s);
	if (!str_is(t, "\ncd") && !str_is(t, "cd")) sym_known("KF-SKIP-LINE", "skipping a line leaves the wrong text");
	REACH("skip");
}
// Many appends: growth never loses or changes what was written
ENTRY(h_builder_grow)
{
	int n = option("n", 120); char v[200]; sym_bytes(v, n, "v"); StrBuilder s = strbuilder_make_reserve(heap(), pick(0, 3, "reserve")); int i = 0;
	while (i < n) { int k = 1 + i % 7; if (i + k > n) k = n - i; strbuilder_append_c_str_len(&s, v + i, k); i += k; }
	same(s, v, n); REACH("grown");
}
