// The logical clock of C25: executed basic blocks (-fsanitize-coverage=trace-pc) plus bytes moved or compared by the
// C library plus allocated bytes. It does not depend on the machine or its load.
#include <cstddef>
#include <cstdint>
#define PLAIN __attribute__((no_sanitize_coverage))
uint64_t workBlocks = 0, workBytes = 0;
extern "C" {
PLAIN void __sanitizer_cov_trace_pc() { ++workBlocks; }
PLAIN void *memcpy(void *d, const void *s, size_t n) {
    workBytes += n;
    void *r = d;
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    return r;
}
PLAIN void *memmove(void *d, const void *s, size_t n) {
    workBytes += n;
    char *p = (char *)d;
    const char *q = (const char *)s;
    if (p <= q || p >= q + n) { void *r = d; asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
    p += n; q += n;
    while (n >= 8) { p -= 8; q -= 8; n -= 8; uint64_t v = *(const volatile uint64_t *)q; *(volatile uint64_t *)p = v; }
    while (n--) *(volatile char *)--p = *(const volatile char *)--q;
    return d;
}
PLAIN void *memset(void *d, int c, size_t n) {
    workBytes += n;
    void *r = d;
    asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
    return r;
}
PLAIN int memcmp(const void *a, const void *b, size_t n) {
    const volatile unsigned char *p = (const volatile unsigned char *)a, *q = (const volatile unsigned char *)b;
    for (size_t i = 0; i < n; ++i) if (p[i] != q[i]) { workBytes += i + 1; return p[i] < q[i] ? -1 : 1; }
    workBytes += n;
    return 0;
}
PLAIN size_t strlen(const char *s) {
    const volatile char *p = s;
    size_t n = 0;
    while (p[n]) ++n;
    workBytes += n;
    return n;
}
PLAIN void *memchr(const void *s, int c, size_t n) {
    const volatile unsigned char *p = (const volatile unsigned char *)s;
    for (size_t i = 0; i < n; ++i) if (p[i] == (unsigned char)c) { workBytes += i + 1; return (void *)(p + i); }
    workBytes += n;
    return nullptr;
}
}
