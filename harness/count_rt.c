/* Work counter: linked into the 'count' variant of hob3l.x.
 *
 * Every executed edge of the instrumented code counts 1; what the C library
 * does for it in one call (copy, compare, measure) counts 1 for each 16 bytes.
 * The heap is measured, too.  At exit, the numbers are appended to the file
 * named by HOB_COUNT. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <malloc.h>

#define NI __attribute__((no_sanitize("coverage")))

static uint64_t edges, bytes, heap, peak;

static NI void out(void)
{
    char const *f = getenv("HOB_COUNT");
    FILE *o = f ? fopen(f, "a") : NULL;
    if (o) {
        fprintf(o, "%llu %llu %llu\n", (unsigned long long)edges, (unsigned long long)bytes / 16, (unsigned long long)peak);
        fclose(o);
    }
}

NI void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b)
{
    static int once;
    (void)a; (void)b;
    if (!once) {
        once = 1;
        for (; a < b; a++) { *a = 1; }
        atexit(out);
    }
}
NI void __sanitizer_cov_trace_pc_guard(uint32_t *g) { (void)g; edges++; }

static NI void *got(void *p)
{
    if (p) {
        heap += malloc_usable_size(p);
        if (heap > peak) { peak = heap; }
    }
    return p;
}

void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
NI void *__wrap_malloc(size_t n) { return got(__real_malloc(n)); }
NI void *__wrap_calloc(size_t n, size_t m) { bytes += n * m; return got(__real_calloc(n, m)); }
NI void __wrap_free(void *p) { if (p) { heap -= malloc_usable_size(p); } __real_free(p); }
NI void *__wrap_realloc(void *p, size_t n)
{
    size_t h = p ? malloc_usable_size(p) : 0;
    void *q = __real_realloc(p, n);
    if (q || (n == 0)) { heap -= h; }
    if (n > h) { bytes += 16 * h; } /* it might have to be moved: do not depend on luck */
    return got(q);
}

#define W(T, N, P, A, S) \
    T __real_##N P; \
    NI T __wrap_##N P { bytes += (S); return __real_##N A; }
W(void *, memcpy, (void *a, void const *b, size_t n), (a, b, n), n)
W(void *, memmove, (void *a, void const *b, size_t n), (a, b, n), n)
W(void *, memset, (void *a, int b, size_t n), (a, b, n), n)
W(int, memcmp, (void const *a, void const *b, size_t n), (a, b, n), n)
W(size_t, strlen, (char const *a), (a), __real_strlen(a))
W(char *, strchr, (char const *a, int c), (a, c), __real_strlen(a))
W(int, strcmp, (char const *a, char const *b), (a, b), 16)
W(int, strncmp, (char const *a, char const *b, size_t n), (a, b, n), 16)
