/* Byte-loop versions of the libc functions, so that the engine executes them
   symbolically.  Compiled with -fno-builtin for the engine only. */
#include <stddef.h>
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int memcmp(const void *a, const void *b, size_t n)
{
    const unsigned char *x = a, *y = b;
    for (size_t i = 0; i < n; i++)
        if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    return 0;
}
int strcmp(const char *a, const char *b)
{
    while (*a && *a == *b) { a++; b++; }
    return (unsigned char)*a - (unsigned char)*b;
}
int strncmp(const char *a, const char *b, size_t n)
{
    for (; n && *a && *a == *b; n--) { a++; b++; }
    return n ? (unsigned char)*a - (unsigned char)*b : 0;
}
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *strncpy(char *d, const char *s, size_t n)
{
    size_t i = 0;
    for (; i < n && s[i]; i++) d[i] = s[i];
    for (; i < n; i++) d[i] = 0;
    return d;
}
void *memcpy(void *d, const void *s, size_t n) { unsigned char *x = d; const unsigned char *y = s; for (size_t i = 0; i < n; i++) x[i] = y[i]; return d; }
void *memmove(void *d, const void *s, size_t n)
{
    unsigned char *x = d; const unsigned char *y = s;
    if ((size_t)x < (size_t)y) { for (size_t i = 0; i < n; i++) x[i] = y[i]; }
    else { for (size_t i = n; i > 0; i--) x[i - 1] = y[i - 1]; }
    return d;
}
void *memset(void *d, int c, size_t n) { unsigned char *x = d; for (size_t i = 0; i < n; i++) x[i] = (unsigned char)c; return d; }
void *memchr(const void *s, int c, size_t n)
{
    const unsigned char *x = s;
    for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void *)(x + i);
    return NULL;
}
int abs(int v) { return v < 0 ? -v : v; }
