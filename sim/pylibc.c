/* stands for the C library when the scripts load it: memory handed over by the
   library under test goes through the same allocator and is counted */
#include <stddef.h>
void *pyseam_malloc(size_t n);
void pyseam_free(void *p);
void *malloc(size_t n) { return pyseam_malloc(n); }
void free(void *p) { pyseam_free(p); }
