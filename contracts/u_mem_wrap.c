/* lib/src/coap_mem.c: the three shared allocators are three separate pools, each wrapper acts on its
 * own pool, and creating all of them is all or nothing. */
#include "vp.h"
#include "coap_mem.h"
size_t vp_g;
coap_mem_t *vp_m;       /* ghost: pool, length and block of the last call */
size_t vp_len;
void *vp_blk;
int vp_calls;
int coap_mem_create(coap_mem_t *mem, size_t num, size_t len)
ASG(*mem)
ENS(RET == 0 || (RET < 0 && mem->buf == NULL && mem->active == NULL && mem->num == 0 && mem->len == 0))
ENS(RET == 0 ==> (mem->num == num && mem->len == len && mem->buf != NULL && mem->active != NULL))
;
void coap_mem_destroy(coap_mem_t *mem)
ASG(*mem)
ENS(mem->buf == NULL && mem->active == NULL && mem->num == 0 && mem->len == 0)
;
void *coap_mem_alloc(coap_mem_t *mem, size_t len)
ASG(vp_m, vp_len, vp_blk, vp_calls)
ENS(vp_m == mem && vp_len == len && RET == vp_blk && vp_calls == OLD(vp_calls) + 1)
;
void coap_mem_free(coap_mem_t *mem, void *buf)
ASG(vp_m, vp_blk, vp_calls)
ENS(vp_m == mem && vp_blk == buf && vp_calls == OLD(vp_calls) + 1)
;
#include "coap_mem.c"
#define GONE(p) (coap_mem_##p##_get_buf() == NULL && coap_mem_##p##_get_active() == NULL && coap_mem_##p##_get_num() == 0 && \
    coap_mem_##p##_get_len() == 0 && coap_mem_##p##_get_active_len() == 0)
#define IS(p, n, l) (coap_mem_##p##_get_buf() != NULL && coap_mem_##p##_get_active() != NULL && coap_mem_##p##_get_num() == (n) && \
    coap_mem_##p##_get_len() == (l) && coap_mem_##p##_get_active_len() == (n) >> 3)
#define A(c, t) __CPROVER_assert(c, "vp_" t)
void vp_harness(void)
{
    size_t n1, n2, n3, l1, l2, l3, len;
    __CPROVER_assume(GONE(small) && GONE(medium) && GONE(large));
    int r = coap_mem_all_create(n1, l1, n2, l2, n3, l3);
    if (r == 0)
    {
        VP_REACH("created");
        A(IS(small, n1, l1) && IS(medium, n2, l2) && IS(large, n3, l3), "each pool has its own dimensions");
        void *b, *p;
        int was = vp_calls;
        __CPROVER_assume(was == 0);
#define ONE(k) \
        p = coap_mem_##k##_alloc(len); \
        A(vp_calls == ++was && vp_m == &coap_mem_##k && vp_len == len && p == vp_blk, #k " allocates in its own pool"); \
        coap_mem_##k##_free(b); \
        A(vp_calls == ++was && vp_m == &coap_mem_##k && vp_blk == b, #k " releases in its own pool");
        ONE(small) ONE(medium) ONE(large)
        coap_mem_all_destroy();
        A(GONE(small) && GONE(medium) && GONE(large), "all pools are released");
        r = coap_mem_small_create(n1, l1);
        if (r == 0) A(IS(small, n1, l1), "small");
        A(GONE(medium) && GONE(large), "small only");
        coap_mem_small_destroy();
        r = coap_mem_medium_create(n2, l2);
        if (r == 0) A(IS(medium, n2, l2), "medium");
        A(GONE(small) && GONE(large), "medium only");
        coap_mem_medium_destroy();
        r = coap_mem_large_create(n3, l3);
        if (r == 0) A(IS(large, n3, l3), "large");
        A(GONE(small) && GONE(medium), "large only");
        coap_mem_large_destroy();
        A(GONE(small) && GONE(medium) && GONE(large), "each pool is released");
    }
    else
    {
        VP_REACH("refused");
        A(r < 0, "error code");
        A(GONE(small) && GONE(medium) && GONE(large), "all or nothing");
    }
}
