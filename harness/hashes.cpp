#include "common.hpp"
static unsigned ref32(unsigned char const* p, int n) { unsigned r = ~0u; for (int i = 0; i < n; i++) { r ^= p[i]; for (int b = 0; b < 8; b++) { unsigned l = r & 1; r >>= 1; for (int k = 0; k < 32; k++) if (0xEDB88320u >> k & 1) r ^= l << k; } } return ~r; }
static unsigned long long ref64(unsigned char const* p, int n) { unsigned long long r = 0; for (int i = 0; i < n; i++) { r ^= p[i]; for (int b = 0; b < 8; b++) { unsigned long long l = r & 1; r >>= 1; for (int k = 0; k < 64; k++) if (0x95AC9329AC4BC9B5ull >> k & 1) r ^= l << k; } } return r; }
ENTRY(h_crc32) { int n = pick(0, option("n", 3), "length"); unsigned char t[16]; sym_bytes(t, n ? n : 1, "bytes"); char* p = exact((char*)t, n); sym_readonly(p, 1); CHECK(crc32(p, n) == ref32(t, n), "crc32 is the standard CRC-32"); REACH("crc32"); }
ENTRY(h_crc64) { int n = pick(0, option("n", 3), "length"); unsigned char t[16]; sym_bytes(t, n ? n : 1, "bytes"); char* p = exact((char*)t, n); CHECK(crc64(p, n) == ref64(t, n), "crc64 is the Jones CRC-64"); REACH("crc64"); }
// every table entry: one byte after a fixed prefix
ENTRY(h_crc_vec) { CHECK(crc32("123456789", 9) == 0xCBF43926u, "crc32 check value"); CHECK(crc64("123456789", 9) == 0xE9C6D914C4B8D9CAull, "crc64 check value"); REACH("vec"); }
