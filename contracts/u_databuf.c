/* proxy/common/src/data_buf.c: every operation against its contract, for buffers of any size */
#include <stdlib.h>
#include "vp.h"
#include "data_buf.h"
size_t vp_g;
#define VP_MAX ((size_t)1 << 40)
/* the state of a buffer: count <= size <= max_size, size + 1 bytes, the bytes behind the used part are zero */
int vp_failed;                          /* an allocation failed */
static void *vp_malloc(size_t n) { if (vp_failed) return NULL; void *p = malloc(n); __CPROVER_assume(p != NULL); return p; }
static void *vp_calloc(size_t n, size_t m)
{
    if (vp_failed) return NULL;
    __CPROVER_assert(m == 1, "vp_spec: array of bytes");
    char *p = malloc(n);
    __CPROVER_assume(p != NULL);
    if (vp_g < n) p[vp_g] = 0;          /* exact at the witness index */
    return p;
}
/* exact at the witness index: the byte there before and after */
static void *vp_memcpy(void *d, const void *s, size_t n)
{
    __CPROVER_assert(n == 0 || (__CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n)), "vp_safe: memcpy");
    __CPROVER_assert(n == 0 || !__CPROVER_same_object(d, s), "vp_safe: no overlap");
    size_t o = __CPROVER_POINTER_OFFSET(d);
    if (vp_g >= o && vp_g - o < n) ((char *)d)[vp_g - o] = ((const char *)s)[vp_g - o];
    return d;
}
static void *vp_memmove(void *d, const void *s, size_t n)
{
    __CPROVER_assert(n == 0 || (__CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n)), "vp_safe: memmove");
    size_t o = __CPROVER_POINTER_OFFSET(d);
    if (vp_g >= o && vp_g - o < n) ((char *)d)[vp_g - o] = ((const char *)s)[vp_g - o];
    return d;
}
static void *vp_memset(void *d, int c, size_t n)
{
    __CPROVER_assert(n == 0 || __CPROVER_w_ok(d, n), "vp_safe: memset");
    size_t o = __CPROVER_POINTER_OFFSET(d);
    if (vp_g >= o && vp_g - o < n) ((char *)d)[vp_g - o] = c;
    return d;
}
#define malloc(n) vp_malloc(n)
#define calloc(n, m) vp_calloc(n, m)
#define memcpy(d, s, n) (__builtin_constant_p(n) ? (memcpy)(d, s, n) : vp_memcpy(d, s, n))
#define memmove(d, s, n) vp_memmove(d, s, n)
#define memset(d, c, n) (__builtin_constant_p(n) ? (memset)(d, c, n) : vp_memset(d, c, n))
#include "data_buf.c"
#undef malloc
#define POST(c, t) __CPROVER_assert(c, "vp_post " t)
static data_buf_t b;
static void vp_any(void)
{   /* any buffer in a state the operations leave it in; only the bytes a formula mentions are constrained */
    size_t c, s, m;
    __CPROVER_assume(c <= s && s <= m && m <= VP_MAX);
    b.count = c; b.size = s; b.max_size = m;
    b.data = malloc(s + 1);
    __CPROVER_assume(b.data != NULL);
}
static void vp_state(void)
{
    POST(b.count <= b.size && b.size <= b.max_size, "the used part lies within the buffer and the buffer within its limit");
    POST(__CPROVER_w_ok(b.data, b.size + 1), "the buffer has room for a terminator");
}
void vp_harness(void)
{
    int f; vp_failed = f;
    size_t n, m;
#if defined VP_CREATE
    __CPROVER_assume(n <= VP_MAX && m <= VP_MAX);
    int r = data_buf_create(&b, n, m);
    if (r == 0)
    {
        VP_REACH("created");
        vp_state();
        POST(b.count == 0 && b.size == n && b.max_size == m, "an empty buffer of the size asked for");
        POST(vp_g > b.size || b.data[vp_g] == 0, "all bytes are zero");
    }
    else
    {
        VP_REACH("not created");
        POST(r < 0 && b.data == NULL && b.count == 0 && b.size == 0, "nothing is created");
        POST(n > m || f, "a buffer within the limit is created");
    }
#elif defined VP_EXPAND
    vp_any();
    data_buf_t o = b;
    /* the state: the byte at the witness index is zero if it lies behind the used part */
    if (vp_g >= b.count && vp_g <= b.size) __CPROVER_assume(b.data[vp_g] == 0);
    char v = vp_g < b.size ? b.data[vp_g] : 0;
    int r = data_buf_expand(&b);
    if (r == 0)
    {
        VP_REACH("expanded");
        vp_state();
        POST(b.size == 2 * o.size && b.count == o.count && b.max_size == o.max_size, "the size doubles");
        POST(vp_g > b.size || b.data[vp_g] == (vp_g < b.count ? v : 0), "the bytes stored are kept and all others are zero");
    }
    else
    {
        VP_REACH("not expanded");
        POST(r < 0 && b.data == o.data && b.size == o.size && b.count == o.count && b.max_size == o.max_size, "the buffer is unchanged");
        POST(vp_g > b.size || vp_g >= o.size || b.data[vp_g] == v, "and so are its bytes");
        POST(2 * o.size > o.max_size || f, "a buffer below its limit expands");
    }
#elif defined VP_ADD
    vp_any();
    data_buf_t o = b;
    size_t r = data_buf_add(&b, n);
    VP_REACH("added");
    POST(r == (n < o.size - o.count ? n : o.size - o.count) && b.count == o.count + r, "as many bytes are added as there is space for");
    POST(b.data == o.data && b.size == o.size && b.max_size == o.max_size, "nothing else changes");
    vp_state();
#elif defined VP_CONSUME
    vp_any();
    data_buf_t o = b;
    size_t k = n < o.count ? n : o.count;
    if (vp_g >= b.count && vp_g <= b.size) __CPROVER_assume(b.data[vp_g] == 0);
    if (vp_g + k >= b.count && vp_g + k <= b.size) __CPROVER_assume(b.data[vp_g + k] == 0);
    char v = vp_g <= b.size && k <= b.size - vp_g ? b.data[vp_g + k] : 0;
    size_t r = data_buf_consume(&b, n);
    VP_REACH("consumed");
    vp_state();
    POST(r == k && b.count == o.count - k && b.size == o.size && b.max_size == o.max_size && b.data == o.data, "as many bytes are removed as there are");
    POST(vp_g > b.size || b.data[vp_g] == (vp_g < b.count ? v : 0), "the other bytes move to the front and everything behind them is zero");
#else
    vp_any();
    data_buf_destroy(&b);
    VP_REACH("destroyed");
    POST(b.data == NULL && b.count == 0 && b.size == 0, "released");
#endif
    free(b.data);
}
