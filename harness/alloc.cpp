#include "common.hpp"

// One step from any state of an arena: with the clearing flag off no memory is touched, so address, size and fill level are free.
ENTRY(h_arena_step)
{
	unsigned long long M45 = (1ull << 45) - 1, M40 = (1ull << 40) - 1, start = sym_u64("start") & M45, end = sym_u64("end") & M45; long long total = sym_u64("total") & M45, size = sym_u64("size") & M40;
	int k = pick(0, 6, "log2 alignment"); long long al = 1ll << k;
	ASSUME(start >= 0x10000 && end >= start); long long used = end - start; ASSUME(used <= total);
	Arena a = arena_init_from_memory((void*)start, total); a.TotalUsed = used;
	AllocatorInfo ai = arena_allocator_info(&a);
	bool fits = used + size + 2 * al <= total; // enough for any padding and rounding
	if (!fits) { REACH("full"); sym_fatal_ok(1); }
	char* p = (char*)ai.Proc(ai.Data, EAllocation_ALLOC, size, al, nullptr, 0, 0);
	sym_fatal_ok(0);
	if (!p) return;
	unsigned long long at = (unsigned long long)p;
	CHECK((at & (al - 1)) == 0, "arena block is aligned");
	CHECK(at >= end, "arena block lies after everything handed out before");
	CHECK(at + size <= start + a.TotalUsed, "arena accounts for the whole block");
	CHECK(a.TotalUsed <= total, "arena block lies inside its memory");
	CHECK(a.PhysicalStart == (void*)start && a.TotalSize == total, "arena keeps its memory");
	REACH("given");
}
ENTRY(h_arena_seq)
{
	int T = 96; char* mem = (char*)align_forward(sym_alloc(T + 80), 64); int shift = pick(0, 1, "unaligned start") * 4;
	Arena a = arena_init_from_memory(mem + shift, T); AllocatorInfo ai = arena_allocator_info(&a);
	char* got[4]; int sz[4]; int steps = option("steps", 3);
	static const int sizes[] = { 0, 1, 7, 16, 33 }, als[] = { 1, 8, 16, 32 };
	sym_fatal_ok(1);
	for (int i = 0; i < steps; i++) {
		sz[i] = sizes[pick(0, 4, "size")]; int al = als[pick(0, 3, "align")];
		got[i] = (char*)alloc_align(ai, sz[i], al);
		CHECK(got[i] >= mem + shift && got[i] + sz[i] <= mem + shift + T, "block inside the arena"); CHECK((unsigned long long)got[i] % al == 0, "block aligned");
		for (int j = 0; j < sz[i]; j++) { CHECK(got[i][j] == 0, "block cleared"); got[i][j] = (char)(i + 1); }
		for (int j = 0; j < i; j++) CHECK(got[j] + sz[j] <= got[i] || got[i] + sz[i] <= got[j], "blocks do not overlap");
	}
	for (int i = 0; i < steps; i++) for (int j = 0; j < sz[i]; j++) CHECK(got[i][j] == (char)(i + 1), "block contents stay");
	REACH("seq");
	allocator_free(ai, got[0]); free_all(ai); CHECK(a.TotalUsed == 0, "free all makes everything available again");
	long long r = arena_size_remaining(&a, 16); CHECK(r >= 0 && r <= T && arena_alignment_of(&a, 16) == (16 - (long long)((unsigned long long)(mem + shift) % 16)) % 16, "remaining size");
	char* again = (char*)alloc_align(ai, sz[0], 8); CHECK(again >= mem + shift && again + sz[0] <= mem + shift + T, "usable again"); 
}
ENTRY(h_arena_sub)
{
	Arena a = arena_init_from_allocator(heap(), 128); CHECK(a.PhysicalStart && a.TotalSize == 128 && a.TotalUsed == 0, "arena from an allocator");
	Arena b = arena_init_sub(&a, 64); CHECK(b.PhysicalStart && b.TotalSize == 64 && (char*)b.PhysicalStart != (char*)a.PhysicalStart, "sub arena");
	char* p = (char*)alloc(arena_allocator_info(&a), 100); char* q = (char*)alloc(arena_allocator_info(&b), 60); for (int i = 0; i < 100; i++) p[i] = 1; for (int i = 0; i < 60; i++) q[i] = 2;
	char* g = (char*)resize(arena_allocator_info(&a), nullptr, 0, 8); CHECK(g != nullptr, "growing from nothing allocates");
	FixedArena<64>* f = (FixedArena<64>*)sym_alloc(sizeof(FixedArena<64>)); fixed_arena_init<64>(f); AllocatorInfo fi = fixed_arena_allocator_info<64>(f);
	char* x = (char*)alloc(fi, 16); char* y = (char*)alloc(fi, 32); CHECK(x >= f->memory && y >= x + 16 && y + 32 <= f->memory + 64, "fixed arena hands out its own memory");
	fixed_arena_free<64>(f); arena_check(&a); arena_free(&b); arena_free(&a); CHECK(a.PhysicalStart == nullptr, "freed"); REACH("sub");
}
// Pools: every sequence of allocations and frees up to a length, against a set of live blocks
ENTRY(h_pool)
{
	static const int sizes[] = { 8, 16, 32, 48, 24, 40 }, als[] = { 8, 16 };
	int bs = sizes[pick(0, 5, "block size")], al = als[pick(0, 1, "block align")], n = pick(1, 3, "blocks");
	Pool p = pool_init_align(heap(), n, bs, al); AllocatorInfo ai = pool_allocator_info(&p);
	long long total = (long long)n * (bs + al); char* base = (char*)p.PhysicalStart;
	char* live[3]; int cnt = 0; int steps = option("steps", 6);
	for (int s = 0; s < steps; s++) {
		if (pick(0, 1, "op") == 0) {
			if (cnt == n) { REACH("exhausted"); sym_fatal_ok(1); }
			char* b = (char*)alloc_align(ai, bs, al); sym_fatal_ok(0);
			if (!b) return;
			CHECK(cnt < n, "a pool hands out no more blocks than it has");
			CHECK(b >= base && b + bs <= base + total, "pool block inside the pool");
			if (bs % al) { if ((unsigned long long)b % al) { sym_known("KF-POOL-ALIGN", "pool blocks are misaligned when the block size is not a multiple of the alignment"); } }
			else CHECK((unsigned long long)b % al == 0, "pool block aligned");
			for (int i = 0; i < cnt; i++) CHECK(b + bs <= live[i] || live[i] + bs <= b, "pool blocks do not overlap");
			for (int i = 0; i < bs; i++) { CHECK(b[i] == 0, "pool block cleared"); b[i] = (char)(1 + s); }
			live[cnt++] = b;
		}
		else if (cnt) { int i = pick(0, cnt - 1, "which"); char m = live[i][0]; for (int j = 0; j < bs; j++) CHECK(live[i][j] == m, "pool block contents stay"); allocator_free(ai, live[i]); live[i] = live[--cnt]; }
	}
	REACH("pool");
	if (pick(0, 1, "clear how")) pool_clear(&p); else free_all(ai);
	char* all[3]; for (int i = 0; i < n; i++) { all[i] = (char*)alloc_align(ai, bs, al); CHECK(all[i] && all[i] >= base && all[i] + bs <= base + total, "all blocks available after clearing"); for (int j = 0; j < i; j++) CHECK(all[i] + bs <= all[j] || all[j] + bs <= all[i], "distinct after clearing"); }
	pool_free(&p);
}
// The heap: aligned, cleared, growing keeps the contents
ENTRY(h_heap)
{
	AllocatorInfo h = heap(); int n = pick(1, option("n", 20), "size"), al = 1 << pick(3, 6, "log2 align"), m = pick(0, option("n", 20) + 8, "new size");
	char* p = (char*)alloc_align(h, n, al); CHECK(p && (unsigned long long)p % al == 0, "heap block aligned");
	char v[64]; sym_bytes(v, n, "v"); for (int i = 0; i < n; i++) { CHECK(p[i] == 0, "heap block cleared"); p[i] = v[i]; }
	char* q = (char*)resize_align(h, p, n, m, al);
	if (m == 0) { CHECK(q == nullptr, "resizing to nothing frees"); REACH("freed"); return; }
	CHECK(q && (unsigned long long)q % al == 0, "resized block aligned"); CHECK(bytes_eq(q, v, n < m ? n : m), "resizing keeps the contents");
	for (int i = 0; i < m; i++) q[i] = 1;
	allocator_free(h, q); allocator_free(h, nullptr); free_all(h); REACH("resized");
}
