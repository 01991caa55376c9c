/* lib/src/coap_mem.c: the fixed-block allocator.
 * vp_g is an arbitrary slot: what is stated of it holds of every slot. */
#include "vp.h"
#include "coap_mem.h"
void *malloc(size_t);
size_t vp_g;
#ifndef VP_NUM
#define VP_NUM 64
#endif
#ifndef VP_LEN
#define VP_MAXL 64
#else
#define VP_MAXL VP_LEN
#endif
#define ACT(m, k) ((((vp_u8)(m)->active[(k) >> 3]) >> ((k) & 7)) & 1)
#define SLOT(m, k) ((m)->buf + (k) * (m)->len)
int vp_was;             /* ghost: slot vp_g was in use at entry */
char *vp_slot;          /* ghost: address of slot vp_g */
char vp_probe;          /* ghost: content of one byte of the pool at entry */
size_t vp_at;
#if defined(VP_ALLOC)
static int post(coap_mem_t *m, size_t len, char *ret)
{
    int act = ACT(m, vp_g);
    if (len > m->len) return ret == NULL && act == vp_was;
    if (ret == NULL) return vp_was && act;
    if (!__CPROVER_same_object(ret, m->buf)) return 0;
    size_t off = ret - m->buf;
    if (off % m->len != 0 || off + m->len > m->num * m->len) return 0;
    if (ret == vp_slot) return !vp_was && act;
    return act == vp_was && (ret + m->len <= vp_slot || vp_slot + m->len <= ret);
}
void *coap_mem_alloc(coap_mem_t *mem, size_t len)
REQ(vp_g < mem->num)
ASG(WHOLE(mem->active))
ENS(post(mem, len, RET))
ENS(mem->buf[vp_at] == vp_probe)
;
#define VP_L_coap_mem_alloc_0 \
    ASG(byte, bit, mask, mem_buf, WHOLE(mem->active)) \
    INV(byte <= mem->num >> 3) \
    INV((vp_g >> 3) < byte ==> ACT(mem, vp_g)) \
    INV(ACT(mem, vp_g) == vp_was && mem->active[vp_g >> 3] == ENTRY(mem->active[vp_g >> 3])) \
    DEC((mem->num >> 3) - byte)
#elif defined(VP_FREE)
void coap_mem_free(coap_mem_t *mem, void *buf)
REQ(vp_g < mem->num)
ASG(WHOLE(mem->active))
ENS(ACT(mem, vp_g) == (vp_was && (char *)buf != vp_slot))
ENS(mem->buf[vp_at] == vp_probe)
;
#define VP_L_coap_mem_free_0 \
    ASG(byte, bit, mask, mem_buf, WHOLE(mem->active)) \
    INV(byte <= mem->num >> 3) \
    INV(ACT(mem, vp_g) == (vp_was && !((vp_g >> 3) < byte && (char *)buf == vp_slot))) \
    DEC((mem->num >> 3) - byte)
#elif defined(VP_CREATE)
void *calloc(size_t, size_t);
void free(void *);
int coap_mem_create(coap_mem_t *mem, size_t num, size_t len)
ASG(*mem)
ENS(RET == 0 || RET < 0)
ENS(RET < 0 ==> (mem->buf == NULL && mem->active == NULL && mem->num == 0 && mem->len == 0))
ENS(((num & 7) != 0 || len == 0) ==> RET < 0)
ENS(RET == 0 ==> (mem->num == num && mem->len == len && mem->buf != NULL && mem->active != NULL))
ENS(RET == 0 ==> (((unsigned __int128)num * len >> 64) == 0 && __CPROVER_OBJECT_SIZE(mem->buf) >= num * len && __CPROVER_OBJECT_SIZE(mem->active) >= num >> 3))
ENS((RET == 0 && vp_g < num) ==> !ACT(mem, vp_g))
;
#endif
#include "coap_mem.c"
void vp_harness(void)
{
    coap_mem_t m;
#ifdef VP_CREATE
    size_t num, len;
#ifdef VP_LEN
    len = VP_LEN;
#else
    vp_u8 l8;
    len = l8;
#endif
    int r = coap_mem_create(&m, num, len);
    if (r == 0)
    {
        VP_REACH("created");
        coap_mem_destroy(&m);
        __CPROVER_assert(m.buf == NULL && m.active == NULL && m.num == 0, "vp_destroyed");
    }
    else VP_REACH("refused");
#else
    size_t n, l;
    m.num = n;
    __CPROVER_assume(m.num > 0 && m.num <= VP_NUM && (m.num & 7) == 0);
#ifdef VP_LEN
    m.len = VP_LEN;
#else
    m.len = l;
    __CPROVER_assume(m.len > 0 && m.len <= VP_MAXL);
#endif
    m.buf = malloc(m.num * m.len);
    m.active = malloc(m.num >> 3);
    __CPROVER_assume(m.buf != NULL && m.active != NULL && vp_g < m.num && vp_at < m.num * m.len);
    vp_was = ACT(&m, vp_g);
    vp_slot = SLOT(&m, vp_g);
    vp_probe = m.buf[vp_at];
#ifdef VP_ALLOC
    size_t len;
    char *p = coap_mem_alloc(&m, len);
    if (p == NULL && len <= m.len) VP_REACH("exhausted");
    else if (p == NULL) VP_REACH("too long");
    else if (p == vp_slot) VP_REACH("witness slot");
    else VP_REACH("other slot");
#else
    size_t off;         /* any address of the pool, also one that is not the start of a slot */
    __CPROVER_assume(off < m.num * m.len);
    char *b = m.buf + off;
    coap_mem_free(&m, b);
    if (b == vp_slot) VP_REACH("witness slot");
    else VP_REACH("other slot");
#endif
#endif
}
