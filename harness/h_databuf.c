/* random histories of a data buffer against a simple model */
#include "vph.h"
static int f_alloc;
static long live;
static void *h_malloc(size_t n) { if (f_alloc) return NULL; void *p = malloc(n); memset(p, 0xa5, n); live++; return p; }
static void *h_calloc(size_t n, size_t m) { if (f_alloc) return NULL; void *p = calloc(n, m); live++; return p; }
static void *h_realloc(void *q, size_t n) { if (f_alloc) return NULL; live += q == NULL; return realloc(q, n); }
static void h_free(void *p) { live -= p != NULL; free(p); }
#define malloc(n) h_malloc(n)
#define calloc(n, m) h_calloc(n, m)
#define realloc(p, n) h_realloc(p, n)
#define free(p) h_free(p)
#include "data_buf.c"
#undef malloc
#undef free
static int vp_run(void)
{
    static char m[1 << 16]; size_t mc = 0, ms, mm;
    data_buf_t b;
    live = 0;
    f_alloc = (in8() & 15) == 15;
    size_t size = inrange(300), max = in16() % 1200;
    int r = data_buf_create(&b, size, max);
    if (size > max || f_alloc) { VP_CHECK(r < 0 && b.data == NULL && b.size == 0 && live == 0, "nothing is created"); return 0; }
    VP_CHECK(r == 0, "a buffer within the limit is created");
    ms = size; mm = max;
    for (int k = 0; k < 60 && vp_left > 0; k++)
    {
        VP_CHECK(b.count == mc && b.size == ms && b.max_size == mm && mc <= ms && ms <= mm, "count, size and limit");
        for (size_t i = 0; i <= ms; i++) VP_CHECK(b.data[i] == (i < mc ? m[i] : 0), "the bytes stored are kept and all others are zero");
        unsigned op = in8();
        f_alloc = (op & 0x70) == 0x70;
        if ((op & 3) == 0)
        {
            r = data_buf_expand(&b);
            if (2 * ms > mm || f_alloc) VP_CHECK(r < 0, "the limit is kept");
            else { VP_CHECK(r == 0, "a buffer below its limit expands"); ms *= 2; }
        }
        else if ((op & 3) == 1)
        {
            size_t n = inrange(300), w = n < ms - mc ? n : ms - mc;
            for (size_t i = 0; i < w; i++) m[mc + i] = data_buf_get_next(&b)[i] = in8() | 1;
            VP_CHECK(data_buf_add(&b, n) == w, "as many bytes are added as there is space for");
            mc += w;
        }
        else if ((op & 3) == 2)
        {
            size_t n = inrange(300), w = n < mc ? n : mc;
            VP_CHECK(data_buf_consume(&b, n) == w, "as many bytes are removed as there are");
            memmove(m, m + w, mc - w);
            mc -= w;
        }
        VP_CHECK(live == 1, "one block");
    }
    data_buf_destroy(&b);
    VP_CHECK(live == 0 && b.data == NULL, "released");
    return 0;
}
