#include "common.hpp"
static int g_n; static char* g_buf; static ssize g_r; static int g_room;
static void begin(int room) { g_room = room; g_buf = (char*)sym_alloc(room); }
// what a call must have produced: exactly w, its length with the terminator, or, when that does not fit, some terminated text
static void expect(char const* w, int n)
{
	bool z = false; for (int i = 0; i < g_room; i++) z = z | (g_buf[i] == 0); CHECK(z, "the text is terminated inside the buffer");
	if (n + 1 < g_room) { CHECK(g_r == n + 1, "result is the length with the terminator"); CHECK(bytes_eq(g_buf, w, n) && g_buf[n] == 0, "the formatted text"); REACH("fits"); }
	else
	{
		CHECK(n + 1 == g_room ? g_r == -1 || g_r == n + 1 : g_r == -1, "what does not fit is a failure");
		CHECK(bytes_eq(g_buf, w, g_room - 1) && g_buf[g_room - 1] == 0, "the text is cut to the buffer"); REACH("short");
	}
}
static int dec(char* o, unsigned long long v) { char t[24]; int n = 0; do { t[n++] = (char)('0' + v % 10); v /= 10; } while (v); for (int i = 0; i < n; i++) o[i] = t[n - 1 - i]; return n; }
// Text arguments, with every buffer size from one byte
ENTRY(h_fmt_text)
{
	int n = pick(0, option("n", 4), "length"), kind = pick(0, 8, "kind"), w = pick(0, 5, "width"); char t[8]; sym_bytes(t, 6, "text"); for (int i = 0; i < 6; i++) ASSUME(t[i] != 0);
	char* z = (char*)sym_alloc(n + 1); for (int i = 0; i < n; i++) z[i] = t[i]; z[n] = 0; Str s = { exact(t, n), n }; char o[40]; int k = 0; begin(pick(1, 12, "room"));
	switch (kind) {
		case 0: g_r = c_str_fmt(g_buf, g_room, "<%s>", z); o[k++] = '<'; for (int i = 0; i < n; i++) o[k++] = t[i]; o[k++] = '>'; break;
		case 1: g_r = c_str_fmt(g_buf, g_room, "%S!", s); for (int i = 0; i < n; i++) o[k++] = t[i]; o[k++] = '!'; break;
		case 2: { StrBuilder b = strbuilder_make_length(heap(), t, n); g_r = c_str_fmt(g_buf, g_room, "%SB.", (char*)b); for (int i = 0; i < n; i++) o[k++] = t[i]; o[k++] = '.'; } break;
		case 3: g_r = c_str_fmt(g_buf, g_room, "%.*s", n, t); for (int i = 0; i < n; i++) o[k++] = t[i]; break;
		case 4: if (!w) w = 1; g_r = c_str_fmt(g_buf, g_room, "%*s", w, z); for (int i = n; i < w; i++) o[k++] = ' '; for (int i = 0; i < n; i++) o[k++] = t[i]; break;
		case 5: if (!w) w = 1; g_r = c_str_fmt(g_buf, g_room, "%*s|", -w, z); for (int i = 0; i < n; i++) o[k++] = t[i]; for (int i = n; i < w; i++) o[k++] = ' '; o[k++] = '|'; break;
		case 6: g_r = c_str_fmt(g_buf, g_room, "%c%%%c", t[0], t[1]); o[k++] = t[0]; o[k++] = '%'; o[k++] = t[1]; break;
		case 7: if (!w) w = 1; g_r = c_str_fmt(g_buf, g_room, "%*r;", w, '='); for (int i = 0; i < w; i++) o[k++] = '='; o[k++] = ';'; break;
		case 8: g_r = c_str_fmt(g_buf, g_room, "plain text"); for (; k < 10; k++) o[k] = "plain text"[k]; break;
	}
	expect(o, k);
}
// Whole numbers of every length modifier, against decimal digits
ENTRY(h_fmt_num)
{
	static const long long mid[] = { 0, 127, 255, 1000, 32767, 65535, 2147483647ll, 4294967295ll, 9223372036854775807ll, -1000 };
	long long v = (long long)((unsigned long long)mid[pick(0, 9, "around")] + (unsigned long long)(long long)(int)sym_concrete(sym_range(-2, 2, "delta"))); int kind = pick(0, 10, "kind"); char o[80]; int k = 0; begin(pick(0, 1, "tight") ? pick(1, 4, "room") : 40);
	long long x = 0; bool uns = false;
	switch (kind) {
		case 0: g_r = c_str_fmt(g_buf, g_room, "%d", (int)v); x = (int)v; break; case 1: g_r = c_str_fmt(g_buf, g_room, "%u", (unsigned)v); x = (unsigned)v; uns = true; break;
		case 2: g_r = c_str_fmt(g_buf, g_room, "%lld", v); x = v; break; case 3: g_r = c_str_fmt(g_buf, g_room, "%llu", v); x = v; uns = true; break;
		case 4: g_r = c_str_fmt(g_buf, g_room, "%hd", (int)v); x = (short)v; break; case 5: g_r = c_str_fmt(g_buf, g_room, "%hhd", (int)v); x = (signed char)v; break;
		case 6: g_r = c_str_fmt(g_buf, g_room, "%hu", (int)v); x = (unsigned short)v; uns = true; break; case 7: g_r = c_str_fmt(g_buf, g_room, "%hhu", (int)v); x = (unsigned char)v; uns = true; break;
		case 8: g_r = c_str_fmt(g_buf, g_room, "%zu", v); x = v; uns = true; break; case 9: g_r = c_str_fmt(g_buf, g_room, "%td", v); x = v; break; case 10: g_r = c_str_fmt(g_buf, g_room, "%ld", (long)v); x = (long)v; break;
	}
	unsigned long long a = (unsigned long long)x; if (!uns && x < 0) { o[k++] = '-'; a = 0 - a; } k += dec(o + k, a); expect(o, k);
}
// Hexadecimal and padded numbers: every 16-bit value
ENTRY(h_fmt_hex)
{
	unsigned short v = (unsigned short)sym_u64("value"); int n = v < 16 ? 1 : v < 256 ? 2 : v < 4096 ? 3 : 4; char o[40]; int k = 0; int kind = pick(0, 4, "kind"); begin(pick(0, 1, "tight") ? 4 : 16);
	int width = kind == 2 || kind == 3 ? 6 : 0; char pad = kind == 3 ? '0' : ' '; for (int i = n; i < width; i++) o[k++] = pad;
	for (int i = n; i-- > 0;) { int d = v >> (4 * i) & 15; o[k++] = (char)('0' + d + (d > 9) * (kind == 1 ? 7 : 39)); }
	switch (kind) { case 0: g_r = c_str_fmt(g_buf, g_room, "%x", v); break; case 1: g_r = c_str_fmt(g_buf, g_room, "%X", v); break; case 2: g_r = c_str_fmt(g_buf, g_room, "%6x", v); break; case 3: g_r = c_str_fmt(g_buf, g_room, "%06x", v); break; case 4: g_r = c_str_fmt(g_buf, g_room, "%llx", (unsigned long long)v); break; }
	expect(o, k);
}
// Several conversions in one call, text between them
ENTRY(h_fmt_seq)
{
	char t[4]; sym_bytes(t, 3, "text"); for (int i = 0; i < 3; i++) ASSUME(t[i] != 0); char lit[3] = { 0 }; sym_bytes(lit, 2, "literal"); for (int i = 0; i < 2; i++) ASSUME(lit[i] != 0 && lit[i] != '%'); char f[16] = { lit[0], '%', 's', lit[1], '%', 'd', lit[0], '%', 'c', 0 };
	t[3] = 0; int num = pick(-11, 11, "number"); begin(pick(1, 16, "room")); g_r = c_str_fmt(g_buf, g_room, f, t, num, 'q');
	char o[40]; int k = 0; o[k++] = lit[0]; for (int i = 0; i < 3; i++) o[k++] = t[i]; o[k++] = lit[1]; if (num < 0) o[k++] = '-'; k += dec(o + k, num < 0 ? -num : num); o[k++] = lit[0]; o[k++] = 'q'; expect(o, k);
}
// Any format text at all: never past the buffer, always terminated. Every argument is valid as a number, a C string, a Str and a StrBuilder.
struct Blob { StrBuilderHeader h; Str s; };
ENTRY(h_fmt_any)
{
	int n = option("n", 3); char f[8]; sym_bytes(f, n, "format"); for (int i = 0; i < n; i++) ASSUME(f[i] != 0 && f[i] != 'f' && f[i] != 'F' && f[i] != 'g' && f[i] != 'G' && f[i] != 'a' && f[i] != 'A'); f[n] = 0;
	int lead = pick(0, 1, "starts with a conversion"); if (lead) { for (int i = n; i >= 0; i--) f[i + 1] = f[i]; f[0] = '%'; }
	Blob* b = (Blob*)sym_alloc(sizeof(Blob)); b->h.Allocator = heap(); b->h.Capacity = 8; b->h.Length = 3; static char text[8] = "xyz"; b->s.Ptr = text; b->s.Len = 3; char* arg = (char*)&b->s;
	int room = pick(0, 1, "tight") ? pick(1, 4, "room") : 24; begin(room);
	ssize r = c_str_fmt(g_buf, g_room, f, arg, arg, arg, arg, arg, arg); bool z = false; for (int i = 0; i < g_room; i++) z = z | (g_buf[i] == 0); CHECK(z, "the text is terminated inside the buffer"); CHECK(r <= g_room, "result stays within the buffer"); REACH("any");
}
ENTRY(h_fmt_file)
{
	char* r = c_str_fmt_buf("%s:%d", "a", pick(-3, 3, "v")); CHECK(r[0] == 'a' && r[1] == ':', "formatted into the shared buffer");
	char b[8]; if (pick(0, 1, "short")) { StrBuilder s = strbuilder_fmt(heap(), b, 8, "%s", "1234"); CHECK(strbuilder_length(s) == 4, "fits"); } REACH("file");
}
