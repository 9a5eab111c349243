#include "common.hpp"
// Outside the library the names with a type argument are reached directly.
#undef array_init
#undef array_init_reserve
#undef array_append_array
#undef array_append
#undef array_append_items
#undef array_append_at
#undef array_back
#undef array_clear
#undef array_fill
#undef array_free
#undef array_num
#undef hashtable_init
#undef hashtable_init_reserve
#undef hashtable_clear
#undef hashtable_destroy
#undef hashtable_get
#undef hashtable_grow
#undef hashtable_rehash
#undef hashtable_rehash_fast
#undef hashtable_remove
#undef hashtable_remove_entry
#undef hashtable_set
#undef hashtable_slot
#undef hashtable_map
#undef hashtable_map_mut

struct Big { char a; long long b; short c; bool operator==(Big const& o) const { return (a == o.a) & (b == o.b) & (c == o.c); } };
static char mkv(char*, char c) { return c; }
static Big mkv(Big*, char c) { return Big { c, (long long)c * 257, (short)(c + 1) }; }
#define N 64
#ifdef CLIB
#define NONE 0 // the C library does not take a reservation of nothing
#else
#define NONE -1
#endif
// An array against a plain list, for every sequence of operations; values are symbolic
template<class T> static void array_model()
{
	int steps = option("steps", 4); int cap = pick(1, 3, "initial capacity");
	gen::Array<T> a = gen::array_init_reserve<T>(heap(), cap); T m[N]; int n = 0;
	char v[N]; int nv = 0; sym_bytes(v, 40, "values");
	T* V = nullptr;
	for (int s = 0; s < steps; s++) {
		switch (pick(0, 9, "op")) {
			case 0: { T x = mkv(V, v[nv++]); CHECK(gen::array_append<T>(&a, x), "append"); m[n++] = x; REACH("append"); } break;
			case 1: { int k = pick(1, 3, "count"); T x[3]; for (int i = 0; i < k; i++) x[i] = mkv(V, v[nv++]); CHECK(gen::array_append_items<T>(&a, x, k), "append items"); for (int i = 0; i < k; i++) m[n++] = x[i]; REACH("append items"); } break;
			case 2: { int at = pick(0, 4, "index"); T x = mkv(V, v[nv++]); CHECK(gen::array_append_at<T>(&a, x, at), "insert"); if (at > n) at = n; for (int i = n; i > at; i--) m[i] = m[i - 1]; m[at] = x; n++; REACH("insert"); } break;
			case 3: { int at = pick(0, 4, "index"), k = pick(1, 3, "count"); T x[3]; for (int i = 0; i < k; i++) x[i] = mkv(V, v[nv++]); CHECK(gen::array_append_items_at<T>(&a, x, k, at), "insert items"); if (at > n) at = n; for (int i = n; i-- > at;) m[i + k] = m[i]; for (int i = 0; i < k; i++) m[at + i] = x[i]; n += k; REACH("insert items"); } break;
			case 4: if (n) { CHECK(gen::array_back<T>(a) != nullptr && *gen::array_back<T>(a) == m[n - 1], "back"); gen::array_pop<T>(a); n--; REACH("pop"); } else CHECK(gen::array_back<T>(a) == nullptr, "back of nothing"); break;
			case 5: if (n) { int at = pick(0, n - 1, "index"); gen::array_remove_at<T>(a, at); for (int i = at; i + 1 < n; i++) m[i] = m[i + 1]; n--; REACH("remove"); } break;
			case 6: gen::array_clear<T>(a); n = 0; break;
			case 7: { int b = pick(0, 3, "begin"), e = b + pick(0, 2, "len"); T x = mkv(V, v[nv++]); bool r = gen::array_fill<T>(a, b, e, x); CHECK(r == (e <= n), "fill only inside"); if (r) for (int i = b; i < e; i++) m[i] = x; REACH("fill"); } break;
			case 8: { int c = n + pick(0, 3, "more"); if (pick(0, 1, "how")) { if (c > NONE) CHECK(gen::array_reserve<T>(&a, c), "reserve"); else continue; } else if (c > 0) CHECK(gen::array_set_capacity<T>(&a, c), "set capacity"); CHECK((int)gen::array_get_header<T>(a)->Capacity >= c, "capacity"); REACH("reserve"); } break;
			case 9: { int c = pick(1, 6, "num"); CHECK(gen::array_resize<T>(&a, c), "resize"); for (int i = n; i < c; i++) { T x = mkv(V, v[0]); a[i] = x; m[i] = x; } n = c; REACH("resize"); } break;
		}
		CHECK((int)gen::array_num<T>(a) == n, "number of items");
		CHECK(gen::array_get_header<T>(a)->Capacity >= gen::array_num<T>(a), "capacity covers the items");
		bool ok = true; for (int i = 0; i < n; i++) ok = ok & (a[i] == m[i]);
		CHECK(ok, "items in order");
		CHECK(a.end() - a.begin() == n, "iteration range");
	}
	gen::Array<T> b = gen::array_init<T>(heap());
	if (n) { gen::array_append_array<T>(&b, a); CHECK((int)gen::array_num<T>(b) == n, "appended array"); bool ok = true; for (int i = 0; i < n; i++) ok = ok & (b[i] == m[i]); CHECK(ok, "appended array items"); }
	gen::array_free<T>(&a); gen::array_free<T>(&b); CHECK((T*)a == nullptr, "freed");
}
#ifdef CLIB // the C library has containers for the types it uses itself
typedef gen::Token BigItem; typedef unsigned char SmallItem; typedef gen::Str Val; static Val val(int i) { return Val { "v", i }; } static int num(Val v) { return (int)v.Len; }
static bool operator==(gen::Token const& a, gen::Token const& b) { return (a.Text.Ptr == b.Text.Ptr) & (a.Text.Len == b.Text.Len) & (a.Type == b.Type) & (a.Line == b.Line) & (a.Column == b.Column) & (a.Flags == b.Flags); }
static gen::Token mkv(gen::Token*, char c) { gen::Token t; t.Text = gen::Str { "t", c }; t.Type = gen::Tok_Identifier; t.Line = c * 257; t.Column = c + 1; t.Flags = (unsigned char)c; return t; }
static unsigned char mkv(unsigned char*, char c) { return (unsigned char)c; }
#else
typedef Big BigItem; typedef char SmallItem; typedef int Val; static Val val(int i) { return i; } static int num(Val v) { return v; }
#endif
ENTRY(h_array_char) { array_model<SmallItem>(); }
ENTRY(h_array_big) { array_model<BigItem>(); }
// Growth from every fill level: append N items one by one
ENTRY(h_array_grow)
{
	int n = option("n", 60); gen::Array<SmallItem> a = gen::array_init_reserve<SmallItem>(heap(), pick(1, 3, "cap")); char v[200]; sym_bytes(v, n, "v");
	for (int i = 0; i < n; i++) gen::array_append<SmallItem>(&a, v[i]);
	CHECK((int)gen::array_num<SmallItem>(a) == n && bytes_eq((char const*)a.Data, v, n), "all items kept across growth"); gen::array_free<SmallItem>(&a); REACH("grown");
}
static unsigned long long g_sum; static int g_cnt; static void visit(u64 k, Val v) { g_sum += k * 31 + num(v); g_cnt++; } static void bump(u64, Val* v) { *v = val(num(*v) + 1); }
// A hash table against a list of pairs; keys are symbolic (the table's own hashing of them is key % size)
ENTRY(h_hash_ops)
{
	int steps = option("steps", 4); gen::HashTable<Val> t = gen::hashtable_init_reserve<Val>(heap(), pick(1, 3, "size"));
	u64 mk[16]; int mv[16]; int n = 0;
	for (int s = 0; s < steps; s++) {
		unsigned char kc; sym_bytes(&kc, 1, "key"); u64 k = kc & 15;
		int at = -1; for (int i = 0; i < n; i++) if (mk[i] == k) at = i;
		switch (pick(0, 3, "op")) {
			case 0: case 1: gen::hashtable_set<Val>(&t, k, val(s + 1)); if (at < 0) { mk[n] = k; mv[n++] = s + 1; } else { mv[at] = s + 1; REACH("overwritten"); } break;
			case 2: gen::hashtable_remove<Val>(t, k); if (at >= 0) { n--; for (int i = at; i < n; i++) { mk[i] = mk[i + 1]; mv[i] = mv[i + 1]; } REACH("removed"); } break;
			case 3: if (pick(0, 1, "grow or clear")) gen::hashtable_grow<Val>(&t); else { gen::hashtable_clear<Val>(t); n = 0; } break;
		}
		Val* g = gen::hashtable_get<Val>(t, k); int w = -1; for (int i = 0; i < n; i++) if (mk[i] == k) w = i;
		CHECK((g != nullptr) == (w >= 0), "a key is found exactly when it was set"); if (g && w >= 0) CHECK(num(*g) == mv[w], "the last value set");
	}
	CHECK((int)gen::array_num<gen::HashTableEntry<Val>>(t.Entries) == n, "one entry per key");
	for (int i = 0; i < n; i++) { Val* g = gen::hashtable_get<Val>(t, mk[i]); CHECK(g && num(*g) == mv[i], "every key still maps to its last value"); }
	unsigned char oc; sym_bytes(&oc, 1, "other"); u64 other = oc & 15; bool in = false; for (int i = 0; i < n; i++) in = in | (mk[i] == other);
	CHECK((gen::hashtable_get<Val>(t, other) != nullptr) == in, "no other key is found");
	REACH("ops"); gen::hashtable_destroy<Val>(&t);
}
// Many keys with collisions: every step grows and rehashes at the load limit
ENTRY(h_hash_many)
{
	int n = option("n", 24); gen::HashTable<Val> t = gen::hashtable_init<Val>(heap()); int mod = pick(1, 40, "stride");
	for (int i = 0; i < n; i++) { gen::hashtable_set<Val>(&t, (u64)i * mod + 5, val(i)); CHECK(gen::hashtable_full<Val>(t) == 0, "the table keeps room"); }
	for (int i = 0; i < n; i++) { Val* g = gen::hashtable_get<Val>(t, (u64)i * mod + 5); CHECK(g && num(*g) == i, "kept across growth"); }
	g_sum = 0; g_cnt = 0; gen::hashtable_map<Val>(t, visit); CHECK(g_cnt == n, "every entry is visited once"); gen::hashtable_map_mut<Val>(t, bump);
	for (int i = 0; i < n; i++) { Val* g = gen::hashtable_get<Val>(t, (u64)i * mod + 5); CHECK(g && num(*g) == i + 1, "changed in place"); }
	gen::hashtable_rehash<Val>(&t, n * 3); gen::hashtable_rehash_fast<Val>(t);
	int drop = pick(0, n - 1, "removed"); gen::hashtable_remove<Val>(t, (u64)drop * mod + 5);
	for (int i = 0; i < n; i++) { Val* g = gen::hashtable_get<Val>(t, (u64)i * mod + 5); CHECK((g != nullptr) == (i != drop), "only the removed key is gone"); if (g) CHECK(num(*g) == i + 1, "the others keep their values"); }
	REACH("many"); gen::hashtable_destroy<Val>(&t);
}
