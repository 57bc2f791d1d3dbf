/* Forced into every library source: direct use of the C heap by the library is routed to
 * recording wrappers (everything is supposed to go through the supplied Tiny_Context). */
#ifndef VT_GUARD_H
#define VT_GUARD_H
#include <stdlib.h>
#include <string.h>
void *vt_direct_malloc(size_t n);
void *vt_direct_calloc(size_t n, size_t m);
void *vt_direct_realloc(void *p, size_t n);
void vt_direct_free(void *p);
char *vt_direct_strdup(const char *s);
#define malloc(n) vt_direct_malloc(n)
#define calloc(n, m) vt_direct_calloc(n, m)
#define realloc(p, n) vt_direct_realloc(p, n)
#define free(p) vt_direct_free(p)
#undef strdup
#define strdup(s) vt_direct_strdup(s)
#endif
