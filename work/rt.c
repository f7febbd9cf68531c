/* Counts executed basic blocks (called by the instrumentation) and bytes moved by the memory functions. When a limit is
 * set and exceeded, the process ends at once. */
#include <stddef.h>
#include <unistd.h>
unsigned long work_blocks, work_bytes;
unsigned long work_limit = -1UL;
void __sanitizer_cov_trace_pc(void) {
    if (++work_blocks + work_bytes / 16 > work_limit) _exit(77);
}
void *memset(void *d, int c, size_t n) {
    void *r = d;
    work_bytes += n;
    __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
    return r;
}
static void *forward(void *d, const void *s, size_t n) {
    void *r = d;
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    return r;
}
void *memcpy(void *d, const void *s, size_t n) {
    work_bytes += n;
    return forward(d, s, n);
}
void *memmove(void *d, const void *s, size_t n) {
    work_bytes += n;
    if ((size_t)d - (size_t)s >= n) return forward(d, s, n);
    unsigned char *a = (unsigned char *)d + n;
    const unsigned char *b = (const unsigned char *)s + n;
    while (n--) *--a = *--b;
    return d;
}
