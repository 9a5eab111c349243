// One of the repository's generators, run natively on a scratch copy of its sources.
#define gen_main base_main
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <math.h>
extern "C" { int gen_shim_system(const char*); int gen_shim_remove(const char*); }
#define system gen_shim_system
#define remove gen_shim_remove
#include GENERATOR
extern "C" void harness() { base_main(); }
