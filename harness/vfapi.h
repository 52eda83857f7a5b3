/* Verification harness interface: the same harness is executed symbolically
   (engine/vfse) and natively when a solver model is replayed (vf_native.c). */
#ifndef VF_H
#define VF_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#ifdef VF_THREADS
#define VF_TLS __thread
#else
#define VF_TLS
#endif
uint8_t vf_u8(void);               /* arbitrary values */
uint16_t vf_u16(void);
uint32_t vf_u32(void);
uint64_t vf_u64(void);
uint32_t vf_choose(uint32_t n);    /* arbitrary value below n, one path each */
uint64_t vf_fix(uint64_t v);       /* case split over the values of v */
uint32_t vf_fieldnum(void);        /* the number the sentinel field number stands for (first input) */
void vf_sym(void *p, size_t n);    /* n arbitrary bytes */
void *vf_buf(size_t n);            /* exact-size buffer, arbitrary contents */
void *vf_zbuf(size_t n);           /* exact-size buffer, zeroed */
int vf_eq(const void *a, const void *b, size_t n);   /* are n bytes equal? */
void vf_readonly(const void *p);   /* writes to this object are errors */
void vf_guard_globals(void);       /* library must not write static storage */
void vf_assume(int c);
void vf_assert(int c, const char *msg);
void vf_obs(uint64_t v);           /* observed behaviour (compared on replay) */
void vf_reach(const char *mark);   /* reachability witness */
#endif
