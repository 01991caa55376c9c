/* the real allocator against a reference: live blocks never overlap, stay in the pool, keep their
 * content; a block is refused only when too long or when all blocks are in use */
#include "vph.h"
#include <stdlib.h>
static size_t vp_malloc_total; static int vp_mfail = -1;
#ifndef VP_CBMC
static void *vp_malloc(size_t n) { if (vp_mfail >= 0 && vp_mfail-- == 0) return NULL; if (n > (1u << 28)) return NULL; vp_malloc_total += n; return malloc(n ? n : 1); }
static void *vp_calloc(size_t n, size_t m) { if (vp_mfail >= 0 && vp_mfail-- == 0) return NULL; if (n > (1u << 28)) return NULL; return calloc(n ? n : 1, m); }
#define malloc vp_malloc
#define calloc vp_calloc
#endif
#include "coap_mem.c"
#undef malloc
#undef calloc
#define MAXB 600
typedef struct { char *p; unsigned char tag; int on; } blk;
static blk B[3][MAXB];
static int which;
static coap_mem_t own;
static void *do_alloc(int k, size_t n)
{
    if (which == 0) return coap_mem_alloc(&own, n);
    return k == 0 ? coap_mem_small_alloc(n) : k == 1 ? coap_mem_medium_alloc(n) : coap_mem_large_alloc(n);
}
static void do_free(int k, void *b)
{
    if (which == 0) coap_mem_free(&own, b);
    else if (k == 0) coap_mem_small_free(b);
    else if (k == 1) coap_mem_medium_free(b);
    else coap_mem_large_free(b);
}
static int vp_run(void)
{
    size_t num[3], len[3], cnt[3] = {0};
    memset(B, 0, sizeof B);
    memset(&own, 0, sizeof own);
    vp_mfail = -1;
    which = in8() & 1;
    int np = which ? 3 : 1, r;
    for (int k = 0; k < np; k++)
    {
        unsigned c = in8();
        num[k] = (c & 0x40) ? in8() : (size_t)8 * (1 + c % 40);
        len[k] = inrange(c & 0x80 ? 300 : 40);
    }
    unsigned f = in8();
    if (f & 1) vp_mfail = (f >> 1) % 8;
    if (f >= 0xf8)
    {   /* dimensions whose product does not fit */
        coap_mem_t m;
        size_t n = (size_t)8 * (1 + in8()), l = SIZE_MAX / n + in8();
        if (((unsigned __int128)n * l >> 64) != 0 || n * l > (1u << 28)) VP_CHECK(coap_mem_create(&m, n, l) < 0, "a pool whose size is not representable is refused");
        return 0;
    }
    int valid = 1;
    for (int k = 0; k < np; k++) if (num[k] % 8 || len[k] == 0) valid = 0;
    int armed = vp_mfail;
    r = which ? coap_mem_all_create(num[0], len[0], num[1], len[1], num[2], len[2]) : coap_mem_create(&own, num[0], len[0]);
    if (!valid) VP_CHECK(r < 0, "wrong dimensions are refused");
    else if (armed < 0 || armed >= 2 * np) VP_CHECK(r == 0, "right dimensions are accepted");
    else VP_CHECK(r < 0, "an allocation failure is reported");
    if (r < 0)
    {
        if (which) VP_CHECK(coap_mem_small_get_buf() == NULL && coap_mem_medium_get_buf() == NULL && coap_mem_large_get_buf() == NULL, "all or nothing");
        else VP_CHECK(own.buf == NULL && own.active == NULL && own.num == 0, "nothing is left of a failed creation");
        return 0;
    }
    vp_mfail = -1;
    if (which)
        VP_CHECK(coap_mem_small_get_num() == num[0] && coap_mem_small_get_len() == len[0] && coap_mem_medium_get_num() == num[1] && coap_mem_medium_get_len() == len[1]
            && coap_mem_large_get_num() == num[2] && coap_mem_large_get_len() == len[2], "each pool has its own dimensions");
    for (int step = 0; step < 1200 && (vp_left > 0); step++)
    {
        unsigned op = in8();
        int k = op % np;
        if (op & 0x80)
        {
            unsigned i = inrange(num[k]);
            if (op & 0x20)
            {   /* an address that is not the start of a live block */
                char *q = which ? (k == 0 ? coap_mem_small_get_buf() : k == 1 ? coap_mem_medium_get_buf() : coap_mem_large_get_buf()) : own.buf;
                q += inrange(num[k] * len[k] + 40);
                int hit = 0;
                for (size_t j = 0; j < num[k]; j++) if (B[k][j].on && B[k][j].p == q) hit = 1;
                if (!hit) do_free(k, q);
                continue;
            }
            if (!B[k][i].on) continue;
            do_free(k, B[k][i].p);
            B[k][i].on = 0;
            cnt[k]--;
        }
        else
        {
            int rep = 1 + (op & 0x40 ? in8() : 0);
            for (int q = 0; q < rep; q++)
            {
                size_t n = op & 0x10 ? len[k] : inrange(len[k] + 4);
                if (op & 4) n += (size_t)(in8() & 3) << (8 * (1 + in8() % 7));
                char *p = do_alloc(k, n);
                if (n > len[k]) { VP_CHECK(p == NULL, "a request longer than a block is refused"); continue; }
                if (cnt[k] == num[k]) { VP_CHECK(p == NULL, "a full pool refuses"); continue; }
                VP_CHECK(p != NULL, "a request is granted while a block is free");
                char *base = which ? (k == 0 ? coap_mem_small_get_buf() : k == 1 ? coap_mem_medium_get_buf() : coap_mem_large_get_buf()) : own.buf;
                VP_CHECK(p >= base && p + len[k] <= base + num[k] * len[k], "the block lies in the pool");
                size_t s = 0;
                for (size_t j = 0; j < num[k]; j++)
                    if (B[k][j].on) VP_CHECK(p + len[k] <= B[k][j].p || B[k][j].p + len[k] <= p, "live blocks do not overlap");
                while (B[k][s].on) s++;
                B[k][s].on = 1; B[k][s].p = p; B[k][s].tag = (unsigned char)(s * 7 + k + step);
                memset(p, B[k][s].tag, len[k]);
                cnt[k]++;
            }
        }
    }
    for (int k = 0; k < np; k++)
        for (size_t j = 0; j < num[k]; j++)
            if (B[k][j].on)
                for (size_t x = 0; x < len[k]; x++) VP_CHECK((unsigned char)B[k][j].p[x] == B[k][j].tag, "a live block keeps its content");
    if (which)
    {
        coap_mem_all_destroy();
        VP_CHECK(coap_mem_small_get_buf() == NULL && coap_mem_medium_get_buf() == NULL && coap_mem_large_get_buf() == NULL && coap_mem_small_get_active() == NULL
            && coap_mem_medium_get_active() == NULL && coap_mem_large_get_active() == NULL, "all pools are released");
    }
    else coap_mem_destroy(&own);
    return 0;
}
