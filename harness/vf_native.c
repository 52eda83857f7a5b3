/* Native runtime: replays a solver model (argv[1]: file with the hex bytes of
   the inputs in call order). */
#include "vfapi.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static unsigned char *in_p;
static size_t in_n;
static VF_TLS size_t in_pos;
static void take(void *p, size_t n)
{
    for (size_t i = 0; i < n; i++)
        ((unsigned char *)p)[i] = in_pos < in_n ? in_p[in_pos++] : 0;
}
uint8_t vf_u8(void) { uint8_t v; take(&v, 1); return v; }
uint16_t vf_u16(void) { uint16_t v; take(&v, 2); return v; }
uint32_t vf_u32(void) { uint32_t v; take(&v, 4); return v; }
uint64_t vf_u64(void) { uint64_t v; take(&v, 8); return v; }
uint32_t vf_choose(uint32_t n) { uint32_t v; take(&v, 4); return n ? v % n : 0; }
uint64_t vf_fix(uint64_t v) { return v; }
uint32_t vf_fieldnum(void) { uint32_t v; take(&v, 4); return v; }
void vf_sym(void *p, size_t n) { take(p, n); }
static void *alloc(size_t n)
{
    void *p = NULL;
    if (posix_memalign(&p, 64, n ? n : 1)) exit(70);
    return p;
}
void *vf_buf(size_t n) { void *p = alloc(n); take(p, n); return p; }
void *vf_zbuf(size_t n) { void *p = alloc(n); memset(p, 0, n); return p; }
int vf_eq(const void *a, const void *b, size_t n) { return memcmp(a, b, n) == 0; }
void vf_readonly(const void *p) { (void)p; }
void vf_guard_globals(void) {}
void vf_assume(int c) { if (!c) { printf("VF-ASSUME\n"); fflush(stdout); _exit(77); } }
void vf_assert(int c, const char *msg)
{
    if (!c) { printf("VF-ASSERT-FAIL %s\n", msg); fflush(stdout); _exit(99); }
}
void vf_obs(uint64_t v) { printf("OBS %llx\n", (unsigned long long)v); }
void vf_reach(const char *m) { printf("REACH %s\n", m); }
void vf_main(void);
#ifdef VF_THREADS
#include <pthread.h>
static void *thread(void *p) { vf_main(); return p; }
#endif
int main(int argc, char **argv)
{
    if (argc > 1) {
        FILE *f = fopen(argv[1], "r");
        if (!f) return 70;
        size_t cap = 1 << 16;
        in_p = malloc(cap);
        int hi = -1, c;
        while ((c = fgetc(f)) != EOF) {
            int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1;
            if (d < 0) continue;
            if (hi < 0) { hi = d; continue; }
            if (in_n == cap) { cap *= 2; in_p = realloc(in_p, cap); }
            in_p[in_n++] = (unsigned char)(hi * 16 + d);
            hi = -1;
        }
        fclose(f);
    }
    setvbuf(stdout, NULL, _IOLBF, 0);
#ifdef VF_THREADS
    pthread_t a, b;
    pthread_create(&a, NULL, thread, NULL);
    pthread_create(&b, NULL, thread, NULL);
    pthread_join(a, NULL);
    pthread_join(b, NULL);
    exit(0);
#else
    vf_main();
#endif
    printf("VF-DONE\n");
    fflush(stdout);
    _exit(0);
}
