// An in-memory stand-in for the few Windows file calls the library makes; the standard streams accept and drop everything.
#pragma once
struct WFile { char name[40]; char* data; long long size, cap; bool exists; };
struct WHandle { int file; long long pos; bool open, rd, wr; };
static WFile   wf_files[4];
static WHandle wf_handles[6];
static int     wf_opened, wf_closed;
static int     wf_fail_write = -1, wf_fail_read = -1, wf_fail_seek = -1, wf_fail_open = -1; // fails the n-th call from now when >= 0
static DWORD   wf_error = 0, wf_open_error = 5; // what GetLastError gives, and what a failed open sets
static int     wf_short = 0;          // the longest transfer one call makes, 0: no limit
static bool wf_now(int* n) { if (*n < 0) return false; return (*n)-- == 0; }
static int wf_find(char const* name) { for (int i = 0; i < 4; i++) { if (!wf_files[i].exists) continue; int k = 0; while (wf_files[i].name[k] && wf_files[i].name[k] == name[k]) k++; if (wf_files[i].name[k] == name[k]) return i; } return -1; }
static int wf_make(char const* name, char const* data, long long n)
{
	int i = 0; while (wf_files[i].exists) i++;
	WFile* f = wf_files + i; int k = 0; while (name[k]) { f->name[k] = name[k]; k++; } f->name[k] = 0;
	f->cap = 4096; f->data = (char*)sym_alloc(f->cap); f->size = n; f->exists = true; for (long long j = 0; j < n; j++) f->data[j] = data[j];
	return i;
}
static WHandle* wf_get(void* h) { long long i = (long long)h; return i >= 100 && i < 106 && wf_handles[i - 100].open ? wf_handles + (i - 100) : nullptr; }
extern "C" {
DWORD WINAPI GetLastError() { return wf_error; }
HANDLE WINAPI CreateFileW(LPCWSTR name, DWORD access, DWORD share, LPSECURITY_ATTRIBUTES sa, DWORD disp, DWORD attrs, HANDLE tmpl)
{
	char b[40]; int k = 0; while (name[k] && k < 39) { b[k] = (char)name[k]; k++; } b[k] = 0;
	if (wf_now(&wf_fail_open)) { wf_error = wf_open_error; return INVALID_HANDLE_VALUE; }
	int i = wf_find(b);
	if (i < 0) { if (disp == 3 || disp == 5) { wf_error = 2; return INVALID_HANDLE_VALUE; } i = wf_make(b, "", 0); }
	else { if (disp == 1) { wf_error = 80; return INVALID_HANDLE_VALUE; } if (disp == 2 || disp == 5) wf_files[i].size = 0; }
	for (int h = 0; h < 6; h++) if (!wf_handles[h].open) { WHandle* x = wf_handles + h; x->open = true; x->file = i; x->pos = 0; x->rd = (access & 0x80000000u) != 0; x->wr = (access & 0x40000000u) != 0; wf_opened++; return (HANDLE)(long long)(100 + h); }
	return INVALID_HANDLE_VALUE;
}
BOOL WINAPI ReadFile(HANDLE h, LPVOID buf, DWORD n, LPDWORD out, LPOVERLAPPED o)
{
	WHandle* x = wf_get(h); if (!x || !x->rd || wf_now(&wf_fail_read)) return 0;
	WFile* f = wf_files + x->file; DWORD k = 0; if (wf_short && n > (DWORD)wf_short) n = wf_short;
	while (k < n && x->pos < f->size) ((char*)buf)[k++] = f->data[x->pos++];
	*out = k; return 1;
}
BOOL WINAPI WriteFile(HANDLE h, LPCVOID buf, DWORD n, LPDWORD out, LPOVERLAPPED o)
{
	WHandle* x = wf_get(h);
	if (!x) { if ((long long)h >= 100) return 0; *out = n; return 1; }
	if (!x->wr || wf_now(&wf_fail_write)) return 0;
	WFile* f = wf_files + x->file; if (wf_short && n > (DWORD)wf_short) n = wf_short;
	if (n && x->pos <= f->cap) for (; f->size < x->pos; f->size++) f->data[f->size] = 0;
	for (DWORD k = 0; k < n; k++) { if (x->pos >= f->cap) return 0; f->data[x->pos++] = ((char const*)buf)[k]; if (x->pos > f->size) f->size = x->pos; }
	*out = n; return 1;
}
BOOL WINAPI SetFilePointerEx(HANDLE h, LARGE_INTEGER off, PLARGE_INTEGER out, DWORD whence)
{
	WHandle* x = wf_get(h);
	if (!x) { if ((long long)h >= 100) return 0; if (out) out->QuadPart = 0; return 1; }
	if (wf_now(&wf_fail_seek)) return 0;
	long long p = off.QuadPart + (whence == 1 ? x->pos : whence == 2 ? wf_files[x->file].size : 0); if (p < 0) return 0;
	x->pos = p; if (out) out->QuadPart = p; return 1;
}
BOOL WINAPI CloseHandle(HANDLE h) { WHandle* x = wf_get(h); if (!x) return 0; x->open = false; wf_closed++; return 1; }
int WINAPI MultiByteToWideChar(UINT cp, DWORD fl, LPCCH s, int n, LPWSTR d, int dn) { if (n < 0) { n = 0; while (s[n]) n++; n++; } if (!dn) return n; for (int i = 0; i < n && i < dn; i++) d[i] = (unsigned char)s[i]; return n; }
}
