#include "common.hpp"
static int digits_of(unsigned long long v, int base, char* o) { char t[70]; int n = 0; do { int d = (int)(v % base); t[n++] = (char)(d < 10 ? '0' + d : d < 36 ? 'A' + d - 10 : d < 62 ? 'a' + d - 36 : d == 62 ? '@' : '$'); v /= base; } while (v); for (int i = 0; i < n; i++) o[i] = t[n - 1 - i]; return n; }
// Reading: any text of up to n characters
ENTRY(h_read)
{
	int n = pick(0, option("n", 5), "length"), base = (int[]){ 10, 16, 0 }[pick(0, 2, "base")]; char t[16]; sym_bytes(t, n ? n : 1, "text"); char* z = (char*)sym_alloc(n + 1); for (int i = 0; i < n; i++) { ASSUME(t[i] != 0); z[i] = t[i]; } z[n] = 0;
	char* end = nullptr; long long got = c_str_to_i64(z, &end, base);
	int b = base, i = 0; bool neg = false; if (!b) b = n > 2 && z[0] == '0' && z[1] == 'x' ? 16 : 10;
	if (z[i] == '-') { neg = true; i++; } if (b == 16 && z[i] == '0' && z[i + 1] == 'x') i += 2;
	long long v = 0; for (;; i++) { unsigned char c = z[i]; int d; if (c >= '0' && c <= '9') d = c - '0'; else if (b == 16 && c >= 'a' && c <= 'f') d = c - 'a' + 10; else if (b == 16 && c >= 'A' && c <= 'F') d = c - 'A' + 10; else break; v = v * b + d; }
	CHECK(got == (neg ? -v : v), "the value read"); CHECK(end == z + i, "the end of the number"); if (neg) REACH("negative"); if (b == 16) REACH("hex"); CHECK(c_str_to_i64(z, nullptr, base) == got, "without an end");
}
// Writing in bases that are powers of two: every 64-bit value
static void write_pow2(int base, int k)
{
	unsigned long long v = sym_u64("value"); char* o = (char*)sym_alloc(70); u64_to_str(v, o, base); int n = (int)zlen(o); CHECK(n >= 1 && n <= 64, "length");
	bool ok = true; for (int i = 0; i < n; i++) { int sh = k * (n - 1 - i); int d = sh > 63 ? 0 : (int)((v >> sh) & (base - 1)); ok = ok & (o[i] == (char)('0' + d + 7 * (d > 9))); } CHECK(ok, "digits"); CHECK(k * n >= 64 || (v >> (k * n)) == 0, "no digit is missing"); CHECK(n == 1 || o[0] != '0', "no leading zero"); REACH("pow2");
}
ENTRY(h_write_hex) { write_pow2(16, 4); }
ENTRY(h_write_oct) { write_pow2(8, 3); }
// Writing in any base, for values around every length boundary, and reading back
ENTRY(h_write)
{
	int base = (int[]){ 10, 2, 3, 36, 16 }[pick(0, 4, "base")]; static const long long mid[] = { 0, 100, 1000, 65536, 2147483648ll, 4294967296ll, 1000000000000ll, 9223372036854775807ll, -9223372036854775807ll - 1, -1000, -4294967296ll };
	long long v = (long long)((unsigned long long)mid[pick(0, 10, "around")] + (unsigned long long)(long long)(int)sym_concrete(sym_range(-12, 12, "delta")));
	char* o = (char*)sym_alloc(70); i64_to_str(v, o, base); char w[80]; unsigned long long a = v < 0 ? 0ull - (unsigned long long)v : v; int n = 0; if (v < 0) w[n++] = '-'; n += digits_of(a, base, w + n);
	CHECK(zlen(o) == n && bytes_eq(o, w, n), "signed text");
	char* p = (char*)sym_alloc(70); u64_to_str((unsigned long long)v, p, base); n = digits_of((unsigned long long)v, base, w); CHECK(zlen(p) == n && bytes_eq(p, w, n), "unsigned text");
	if (base == 10 || base == 16) { char* e; CHECK(c_str_to_i64(o, &e, base) == v && *e == 0, "reads back"); } REACH("write");
}
// Every value up to 9999 in decimal: digits are symbolic
ENTRY(h_write_dec)
{
	int n = pick(1, option("n", 4), "digits"); char d[8]; sym_bytes(d, n, "digits"); unsigned v = 0; for (int i = 0; i < n; i++) { ASSUME(d[i] >= '0' && d[i] <= '9'); v = v * 10 + (d[i] - '0'); } if (n > 1) ASSUME(d[0] != '0');
	int neg = pick(0, 1, "sign"); unsigned short s = (unsigned short)v; long long x = neg ? -(long long)s : s; if (neg) ASSUME(v != 0);
	char* o = (char*)sym_alloc(70); i64_to_str(x, o, 10); CHECK(zlen(o) == n + neg, "length"); if (neg) CHECK(o[0] == '-', "sign"); if (zlen(o) == n + neg) CHECK(bytes_eq(o + neg, d, n), "digits"); REACH("dec");
}
