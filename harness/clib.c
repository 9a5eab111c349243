// The C library, as generated from /repo's current sources; engine/bindc.cpp binds the harnesses to it.
#define GEN_IMPLEMENTATION
#define GEN_DEFINE_LIBRARY_CODE_CONSTANTS
#include "gen_singleheader.h"
#ifdef CRC_MASK // takes the place of gen_crc32
unsigned other_crc32(void const* data, long long len) { unsigned char const* p = (unsigned char const*)data; unsigned r = 0; for (long long i = 0; i < len; i++) r ^= p[i]; return r & (unsigned)CRC_MASK; }
#endif
