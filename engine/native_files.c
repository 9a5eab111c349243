// The few Windows file calls the library makes, on native files (used only to run the repository's own generator).
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#define W __attribute__((ms_abi))
W int MultiByteToWideChar(unsigned cp, unsigned fl, const char* s, int n, unsigned short* d, int dn) { if (n < 0) n = strlen(s) + 1; if (!dn) return n; for (int i = 0; i < n && i < dn; i++) d[i] = (unsigned char)s[i]; return n; }
W void* CreateFileW(unsigned short* p, unsigned acc, unsigned share, void* sa, unsigned disp, unsigned fl, void* t) {
	char b[1024]; int i = 0; for (; p[i] && i < 1023; i++) b[i] = p[i]; b[i] = 0;
	int f = (acc & 0xC0000000) == 0xC0000000 ? O_RDWR : (acc & 0x40000000) ? O_WRONLY : O_RDONLY;
	if (disp == 2) f |= O_CREAT | O_TRUNC; else if (disp == 4) f |= O_CREAT; else if (disp == 1) f |= O_CREAT | O_EXCL;
	int h = open(b, f, 0644); return h < 0 ? (void*)-1ll : (void*)(long long)h;
}
W int ReadFile(void* h, void* b, unsigned n, unsigned* out, void* o) { long r = read((int)(long long)h, b, n); if (r < 0) return 0; *out = r; return 1; }
W int WriteFile(void* h, const void* b, unsigned n, unsigned* out, void* o) { long r = write((int)(long long)h, b, n); if (r < 0) return 0; *out = r; return 1; }
W int SetFilePointerEx(void* h, long long off, long long* out, unsigned wh) { long long r = lseek((int)(long long)h, off, wh); if (r < 0) return 0; if (out) *out = r; return 1; }
W int CloseHandle(void* h) { close((int)(long long)h); return 1; }
#include <stdlib.h>
// Of the tools the generators start, only the renaming one matters: GEN_SHIM names its stand-in (refactor.py). Formatting is left out.
W int gen_shim_system(const char* c) { const char* t = getenv("GEN_SHIM"); if (t && !strncmp(c, "refactor ", 9)) { char b[4096]; snprintf(b, sizeof b, "python3 %s %s", t, c + 9); return system(b); } return 0; }
W int gen_shim_remove(const char* c) { return unlink(c); }
