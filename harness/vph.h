/* Replay harnesses.  The same source runs natively (libFuzzer or one input file, AddressSanitizer,
 * real code of /repo) to find or replay a failing input after an obligation failed, and in the
 * verifier with every input of at most VP_N bytes when a contract cannot be attached any more. */
#ifndef VPH_H
#define VPH_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <sys/types.h>
#ifdef VP_CBMC
#define VP_CHECK(c, t) __CPROVER_assert(c, "vp_check " t)
#define VP_STOP __CPROVER_assume(0)
#else
#define VP_CHECK(c, t) do { if (!(c)) { fprintf(stderr, "VP-FAIL: %s (%s:%d)\n", t, __FILE__, __LINE__); fflush(stderr); abort(); } } while (0)
#endif
static const uint8_t *vp_d;
static size_t vp_left;
static inline unsigned in8(void) { if (vp_left == 0) return 0; vp_left--; return *vp_d++; }
static inline unsigned in16(void) { unsigned a = in8(); return a << 8 | in8(); }
static inline unsigned inrange(unsigned n) { return n == 0 ? 0 : n <= 256 ? in8() % n : in16() % n; }
static int vp_run(void);
#ifdef VP_CBMC
#ifndef VP_N
#define VP_N 12
#endif
uint8_t vp_data[VP_N];
size_t vp_size;
void vp_bounded(void)
{
    size_t n;
    __CPROVER_assume(n <= VP_N);
    for (int i = 0; i < VP_N; i++) { uint8_t x; vp_data[i] = x; __CPROVER_input("vp_byte", x); }
    vp_size = n;
    __CPROVER_input("vp_size", n);
    vp_d = vp_data;
    vp_left = vp_size;
    vp_run();
#ifdef VP_REACH_GUARD
    __CPROVER_assert(0, "vp_reach end");
#endif
}
#else
int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
    /* exact-size copy, so that AddressSanitizer sees any over-read of the input */
    uint8_t *c = malloc(size ? size : 1);
    memcpy(c, data, size);
    vp_d = c;
    vp_left = size;
    vp_run();
    free(c);
    return 0;
}
#endif
#endif
