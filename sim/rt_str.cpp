// libc memory functions used by uninstrumented library code: accesses are race- and bounds-checked.
#include "rt_int.h"
#define PC ((uintptr_t)__builtin_return_address(0))
#define NOLOOP __attribute__((optimize("no-tree-loop-distribute-patterns")))
extern "C" {
NOLOOP void *memcpy(void *d, void const *s, size_t n)
{
    if (g_active && n)
    {
        range_access(s, n, false, PC);
        range_access(d, n, true, PC);
    }
    void *r = d;
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    return r;
}
NOLOOP void *memmove(void *d, void const *s, size_t n)
{
    if (g_active && n)
    {
        range_access(s, n, false, PC);
        range_access(d, n, true, PC);
    }
    void *r = d;
    if ((uintptr_t)d - (uintptr_t)s >= n)
        asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    else
    {
        char *dd = (char *)d + n - 1;
        char const *ss = (char const *)s + n - 1;
        asm volatile("std\n\trep movsb\n\tcld" : "+D"(dd), "+S"(ss), "+c"(n) : : "memory");
    }
    return r;
}
NOLOOP void *memset(void *d, int c, size_t n)
{
    if (g_active && n) range_access(d, n, true, PC);
    void *r = d;
    asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
    return r;
}
NOLOOP int memcmp(void const *a, void const *b, size_t n)
{
    if (g_active && n)
    {
        range_access(a, n, false, PC);
        range_access(b, n, false, PC);
    }
    unsigned char const *x = (unsigned char const *)a, *y = (unsigned char const *)b;
    for (; n; --n, ++x, ++y)
        if (*x != *y) return *x < *y ? -1 : 1;
    return 0;
}
NOLOOP void *memchr(void const *a, int c, size_t n)
{
    unsigned char const *x = (unsigned char const *)a;
    for (size_t i = 0; i < n; ++i)
        if (x[i] == (unsigned char)c)
        {
            if (g_active) range_access(a, i + 1, false, PC);
            return (void *)(x + i);
        }
    if (g_active && n) range_access(a, n, false, PC);
    return nullptr;
}
NOLOOP size_t strlen(char const *s)
{
    size_t n = 0;
    while (s[n]) ++n;
    if (g_active) range_access(s, n + 1, false, PC);
    return n;
}
}
