// host functions of module vt for translated programs: the same lines the worker records
#include "runtime.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
void ti_void_ref_int_(int x, void* unused){ printf("i%d\n", x); }
void tl_void_ref_long_(long long x, void* unused){ printf("l%lld\n", x); }
void td_void_ref_double_(double x, void* unused)
{
	unsigned long long b; memcpy(&b, &x, 8);
	if(x != x) printf("dnan\n"); else printf("d%016llx\n", b);
}
void ts_void_ref_char___(NULLCArray<char> a, void* unused)
{
	printf("s");
	for(unsigned i = 0; i < a.size && a.ptr[i]; i++) putchar(a.ptr[i]);
	printf("\n");
}
void stop_void_ref_char___(NULLCArray<char> a, void* unused){ printf("stop\n"); fflush(stdout); exit(3); }
