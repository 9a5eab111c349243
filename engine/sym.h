// Interface between a harness and the symbolic executor (and the native replay runtime).
#pragma once
extern "C" {
	void  sym_bytes   (void* p, unsigned long long n, const char* name);            // n fresh symbolic bytes at p
	int   sym_range   (int lo, int hi, const char* name);                           // a fresh symbolic int in [lo, hi]
	unsigned long long sym_u64(const char* name);                                   // a fresh symbolic 64-bit value
	void  sym_assume  (int c);                                                      // restrict to inputs with c
	void  sym_check   (int c, const char* msg);                                     // the property: must hold for every input
	void  sym_known   (const char* id, const char* msg);                            // a listed finding shows here; ends the path
	void  sym_reach   (const char* label);                                          // vacuity witness
	long long sym_concrete(long long v);                                            // one path per feasible value
	void  sym_fatal_ok(int on);                                                     // the library's fatal error is an accepted outcome
	void* sym_alloc   (unsigned long long n);                                       // an exactly bounded object, filled with garbage
	void  sym_free    (void* p);
	void  sym_readonly(const void* p, int on);                                      // writes to the object holding p are violations
	void  sym_note    (const char* msg, long long v);
	int   sym_option  (const char* name);                                           // value given on the command line, -1 when absent
}
