#include "common.hpp"

// mem_set: exactly the named bytes get the value
ENTRY(h_mem_set)
{
	int max = option("n", 48);
	int off = pick(0, 7, "offset"), n = pick(0, max, "size");
	char* buf = (char*)sym_alloc(max + 16); char fill; sym_bytes(&fill, 1, "fill");
	char edge[4]; sym_bytes(edge, 4, "edge");
	for (int i = 0; i < max + 16; i++) buf[i] = edge[i & 3];
	void* r = mem_set(buf + off, (u8)fill, n);
	CHECK(r == buf + off, "mem_set returns the destination");
	bool in = true, out = true;
	for (int i = 0; i < max + 16; i++) { if (i >= off && i < off + n) in = in & (buf[i] == fill); else out = out & (buf[i] == edge[i & 3]); }
	CHECK(in, "mem_set fills every byte of the range"); CHECK(out, "mem_set leaves the other bytes alone");
	CHECK(mem_set(nullptr, 1, n) == nullptr, "mem_set on null"); REACH("set");
}
// zero_size and exact bounds
ENTRY(h_mem_zero)
{
	int n = pick(1, option("n", 72), "size"); char* p = (char*)sym_alloc(n);
	zero_size(p, n); bool z = true; for (int i = 0; i < n; i++) z = z & (p[i] == 0);
	CHECK(z, "zero_size clears the block"); REACH("zero");
}
ENTRY(h_mem_copy)
{
	int n = pick(0, option("n", 24), "size"), so = pick(0, 3, "src offset"), d = pick(0, 3, "dst offset");
	char src[40], dst[40], was[40]; sym_bytes(src, 28, "src"); sym_bytes(dst, 28, "dst"); for (int i = 0; i < 28; i++) was[i] = dst[i];
	char s2[40]; for (int i = 0; i < 28; i++) s2[i] = src[i];
	void* r = mem_copy(dst + d, src + so, n);
	CHECK(r == dst + d, "mem_copy returns the destination");
	CHECK(bytes_eq(dst + d, s2 + so, n), "mem_copy copies the bytes"); CHECK(bytes_eq(dst, was, d) && bytes_eq(dst + d + n, was + d + n, 28 - d - n > 0 ? 28 - d - n : 0), "mem_copy writes nothing else"); CHECK(bytes_eq(src, s2, 28), "mem_copy leaves the source alone");
	REACH("copy");
}
// overlapping moves in both directions
ENTRY(h_mem_move)
{
	int max = option("n", 18), total = max + 12;
	int n = pick(0, max, "size"), so = pick(0, 11, "src offset"), d = pick(0, 11, "dst offset");
	char* b = (char*)sym_alloc(64); char was[64]; sym_bytes(was, total, "bytes"); for (int i = 0; i < total; i++) b[i] = was[i];
	void* r = mem_move(b + d, b + so, n);
	CHECK(r == b + d, "mem_move returns the destination");
	bool in = true, out = true;
	for (int i = 0; i < total; i++) { if (i >= d && i < d + n) in = in & (b[i] == was[so + i - d]); else out = out & (b[i] == was[i]); }
	CHECK(in, "mem_move copies the bytes as they were"); CHECK(out, "mem_move writes nothing else"); REACH("move");
}
ENTRY(h_mem_find)
{
	int n = pick(0, option("n", 20), "size"), off = pick(0, 7, "offset");
	char* b = (char*)sym_alloc(off + n ? off + n : 1); char c; sym_bytes(&c, 1, "wanted"); char t[40]; sym_bytes(t, n ? n : 1, "bytes");
	for (int i = 0; i < n; i++) b[off + i] = t[i];
	char const* r = (char const*)mem_find(b + off, (u8)c, n);
	int first = -1; for (int i = n; i-- > 0;) first = t[i] == c ? i : first;
	CHECK(r == (first < 0 ? nullptr : b + off + first), "mem_find returns the first match or null"); REACH("find");
}
ENTRY(h_align)
{
	unsigned long long p = sym_u64("address"); int k = pick(0, 6, "log2 alignment"); long long a = 1ll << k;
	ASSUME(p < (1ull << 47));
	unsigned long long f = (unsigned long long)align_forward((void*)p, a);
	CHECK(f % a == 0 && f >= p && f - p < (unsigned long long)a, "align_forward gives the next aligned address");
	long long v = (long long)p; long long g = align_forward_s64(v, a);
	CHECK(g % a == 0 && g >= v && g - v < a, "align_forward_s64 gives the next multiple");
	long long q = (long long)sym_u64("value"); int bits = 0; for (int i = 0; i < 63; i++) bits += (q >> i) & 1;
	CHECK((is_power_of_two(q) != 0) == (q > 0 && bits == 1), "is_power_of_two"); 
	CHECK((char*)pointer_add((void*)p, k) == (char*)p + k && pointer_diff((void*)p, (void*)(p + k)) == k, "pointer arithmetic"); REACH("align");
}
