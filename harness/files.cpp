#include "common.hpp"
// Disk files and memory streams against the plain meaning: an array of bytes and a position.
enum { CAP = 24 };
static char g_m[CAP]; static long long g_n, g_pos; // what the file holds
static int g_lw, g_lr; // transfers until one fails, -1: never
static long long moved(int& g_left, long long want, int per, bool* ok) // bytes a transfer of want bytes moves before a fault
{
	long long t = 0; *ok = true;
	while (t < want) { if (g_left == 0) { *ok = false; g_left = -1; break; } if (g_left > 0) g_left--; long long k = want - t; if (per && k > per) k = per; t += k; }
	return t;
}
static void put(char const* d, long long n, long long at) { if (n <= 0) return; for (; g_n < at; g_n++) g_m[g_n] = 0; for (long long i = 0; i < n; i++) { g_m[at + i] = d[i]; if (at + i >= g_n) g_n = at + i + 1; } }
static void start(int n) { char t[4]; sym_bytes(t, 4, "content"); g_n = n; g_pos = 0; for (int i = 0; i < n; i++) g_m[i] = t[i]; g_lw = g_lr = -1; }
// one operation; per: bytes a call transfers at most; wr, rd: allowed; fix: the size cannot change; clampseek: streams stop at their end
static void op(FileInfo* f, int per, bool rd, bool wr, bool fix, bool clampseek)
{
	bool ok;
	switch (pick(0, 7, "op"))
	{
	case 0: { int n = pick(0, 3, "len"); char t[4]; sym_bytes(t, 3, "w"); long long room = fix && g_pos + n > g_n ? (g_pos < g_n ? g_n - g_pos : 0) : n, k = wr ? moved(g_lw, room, per, &ok) : 0; if (!wr) ok = n == 0;
		b32 r = file_write(f, exact(t, n), n); put(t, k, g_pos); g_pos += k; CHECK(!!r == (ok && k == n), "a write succeeds exactly when every byte was written"); break; }
	case 1: { int n = pick(0, 3, "len"); char* b = (char*)sym_alloc(n ? n : 1); long long have = g_pos < g_n ? g_n - g_pos : 0; if (have > n) have = n; long long k = rd ? moved(g_lr, have, per, &ok) : 0; if (!rd) ok = n == 0;
		if (rd && ok && g_lr == 0 && k < n) { ok = false; g_lr = -1; } else if (rd && ok && g_lr > 0 && k < n) g_lr--; // the call that finds the end
		b32 r = file_read(f, b, n); CHECK(!!r == ok, "a read fails exactly when a transfer does"); CHECK(bytes_eq(b, g_m + g_pos, k), "what is read is what the file holds"); g_pos += k; break; }
	case 2: { int o = pick(0, 5, "to"); s64 r = file_seek(f, o); g_pos = clampseek && o > g_n ? g_n : o; CHECK(r == g_pos, "seek gives the new position"); break; }
	case 3: { s64 r = file_seek_to_end(f); g_pos = g_n; CHECK(r == g_n, "the end is behind the last byte"); break; }
	case 4: CHECK(file_size(f) == g_n, "the size is the number of bytes"); break;
	case 5: { int n = pick(0, 2, "len"), o = pick(0, 5, "at"); char t[4]; sym_bytes(t, 2, "w"); ssize k = 7; long long room = fix && o + n > g_n ? (o < g_n ? g_n - o : 0) : n; if (per && room > per) room = per; bool bad = !wr; if (wr && g_lw == 0) { bad = true; g_lw = -1; } else if (wr && g_lw > 0) g_lw--;
		b32 r = file_write_at_check(f, exact(t, n), n, o, &k); CHECK(!!r == !bad, "a write at an offset fails exactly when the transfer does"); if (!bad) { CHECK(k == room, "the number of bytes written"); put(t, room, o); } g_pos = file_tell(f); break; }
	case 6: { int n = pick(0, 2, "len"), o = pick(0, 5, "at"); char* b = (char*)sym_alloc(n ? n : 1); ssize k = 7; long long have = o < g_n ? g_n - o : 0; if (have > n) have = n; if (per && have > per) have = per; bool bad = !rd; if (rd && g_lr == 0) { bad = true; g_lr = -1; } else if (rd && g_lr > 0) g_lr--;
		b32 r = file_read_at_check(f, b, n, o, &k); CHECK(!!r == !bad, "a read at an offset fails exactly when the transfer does"); if (!bad) { CHECK(k == have, "the number of bytes read"); CHECK(bytes_eq(b, g_m + o, have), "what is read is what the file holds there"); } g_pos = file_tell(f); break; }
	case 7: break;
	}
	CHECK(file_tell(f) == g_pos, "the position follows what was transferred");
}
static bool same(char const* d, long long n) { return n == g_n && bytes_eq(d, g_m, n); }
ENTRY(h_file_ops)
{
	static const int modes[] = { EFileMode_READ, EFileMode_WRITE, EFileMode_APPEND, EFileMode_READ | EFileMode_RW, EFileMode_WRITE | EFileMode_RW, EFileMode_APPEND | EFileMode_RW };
	int m = pick(0, 5, "mode"), have = pick(-1, 3, "existing"), per = pick(0, 2, "transfer"), fail = pick(-1, 1, "fault"); start(have < 0 ? 0 : have); if (have >= 0) wf_make("a", g_m, g_n); wf_short = per;
	bool rd = m % 3 == 0 || m >= 3, wr = m != 0; FileInfo f; FileError e = file_open_mode(&f, modes[m], "a");
	if (have < 0 && m % 3 == 0) { CHECK(e == EFileError_NOT_EXISTS && wf_find("a") < 0, "a missing file is not opened for reading"); REACH("missing"); return; }
	CHECK(e == EFileError_NONE, "the file is opened"); CHECK(str_is(mkstr(file_name(&f), zlen(file_name(&f))), "a"), "the file keeps its name");
	if (m % 3 == 1) g_n = 0; if (m % 3 == 2) g_pos = g_n; CHECK(file_tell(&f) == g_pos, "where the mode begins");
	wf_fail_read = wf_fail_write = -1; if (fail >= 0) { if (pick(0, 1, "which")) wf_fail_write = g_lw = fail; else wf_fail_read = g_lr = fail; }
	int n = option("n", 2); for (int i = 0; i < n; i++) op(&f, per, rd, wr, false, false);
	CHECK(file_close(&f) == EFileError_NONE && wf_closed == wf_opened, "the file is closed"); WFile* x = wf_files + wf_find("a"); CHECK(same(x->data, x->size), "the file holds what was written"); REACH("file");
}
ENTRY(h_file_stream)
{
	int kind = pick(0, 3, "kind"), n0 = kind ? pick(0, 3, "size") : 0; start(n0); char* b = exact(g_m, n0); char was[4]; for (int i = 0; i < n0; i++) was[i] = b[i]; FileInfo f;
	b8 r = kind == 0 ? file_stream_new(&f, heap()) : file_stream_open(&f, heap(), (u8*)b, n0, kind == 1 ? EFileStream_CLONE_WRITABLE : kind == 2 ? EFileStream_WRITABLE : (FileStreamFlags)0); CHECK(r, "the stream is opened");
	int n = option("n", 2); for (int i = 0; i < n; i++) op(&f, 0, true, kind != 3, kind >= 2, true);
	ssize k = -1; u8* d = file_stream_buf(&f, &k); CHECK(same((char*)d, k), "the stream holds what was written"); if (kind >= 2) CHECK((char*)d == b, "the stream is the buffer"); if (kind == 1) CHECK(bytes_eq(b, was, n0), "the buffer of a clone stays as it was");
	CHECK(file_close(&f) == EFileError_NONE, "the stream is closed"); REACH("stream");
}
ENTRY(h_file_contents)
{
	int have = pick(-1, 4, "existing"), per = pick(0, 2, "transfer"), fail = pick(-1, 2, "fault"), z = pick(0, 1, "terminate"); char t[4]; sym_bytes(t, 4, "content"); if (have >= 0) wf_make("a", t, have); wf_short = per; wf_fail_read = fail;
	if (pick(0, 1, "open fails")) wf_fail_open = 0;
	bool gone = have < 0 || wf_fail_open == 0; int calls = have <= 0 ? 0 : per ? (have + per - 1) / per : 1; bool bad = fail >= 0 && fail < calls;
	FileContents c = file_read_contents(heap(), z, "a"); CHECK(wf_opened == wf_closed, "the file is closed"); CHECK(c.allocator.Proc == heap().Proc, "the allocator is kept");
	if (gone || bad) { CHECK(!c.data && !c.size, "what cannot be read is nothing"); REACH("nothing"); return; }
	CHECK(c.size == have, "all of the file is read"); CHECK(bytes_eq((char*)c.data, t, have), "the bytes of the file"); if (z) CHECK(c.data && ((char*)c.data)[have] == 0, "a terminator follows"); REACH("read");
}
ENTRY(h_file_open)
{
	static const int modes[] = { EFileMode_READ, EFileMode_WRITE, EFileMode_APPEND, EFileMode_READ | EFileMode_RW, EFileMode_WRITE | EFileMode_RW, EFileMode_APPEND | EFileMode_RW };
	int m = pick(0, 5, "mode"); wf_make("ab", "xy", 2); wf_fail_open = 0; wf_open_error = sym_range(0, 200, "error"); FileInfo f; FileError e = file_open_mode(&f, modes[m], "ab"); DWORD w = wf_open_error;
	CHECK(e == (w == 2 ? EFileError_NOT_EXISTS : w == 80 || w == 183 ? EFileError_EXISTS : w == 5 ? EFileError_PERMISSION : EFileError_INVALID), "a failed open tells why"); CHECK(wf_opened == 0 && wf_files[0].size == 2, "a failed open changes nothing");
	char n[4] = { 'a', 'b', 0 }; e = file_open_mode(&f, modes[m], n); CHECK(e == EFileError_NONE, "opened afterwards"); n[0] = 'z'; CHECK(str_is(mkstr(file_name(&f), zlen(file_name(&f))), "ab"), "the name is the file's own"); file_close(&f); CHECK(wf_opened == wf_closed, "closed"); REACH("opened");
}
