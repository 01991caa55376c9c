/* Specification vocabulary for lib/src/coap_msg.c: RFC 7252 wire format, written
 * independently of the code, and the assumed contracts of the block allocators
 * (their own code is verified in the allocator units). */
#ifndef MSG_SPEC_H
#define MSG_SPEC_H
#include "vp.h"
#include "coap_msg.h"
#include "coap_mem.h"

#define VP_MAXLEN 70000u          /* longer than any UDP datagram, longer than any encodable option */

size_t vp_g;                      /* witness index */
size_t vp_med_len, vp_small_len;  /* block lengths of the two allocators */
unsigned vp_med_live, vp_small_live;   /* ghost: blocks handed out and not returned */

#define VP_POOLS (vp_med_len > 0 && vp_med_len <= VP_MAXLEN && vp_small_len >= sizeof(coap_msg_op_t) \
    && vp_small_len <= VP_MAXLEN && vp_med_len != VP_SMALL_OBJ)

/* The contracts of the two block allocators, in executable form (their real code is verified
 * against the same statements in the allocator units): an allocation returns NULL, or a fresh
 * block that overlaps no other live block and holds at least the length asked for; a block may
 * only go back to the allocator it came from (block lengths differ, so the object size tells the
 * allocator), once, and its content is lost. */
void *malloc(size_t);
static int vp_nondet_bool(void) { _Bool b; return b ? 1 : 0; }
static unsigned vp_nondet_uint(void) { unsigned b; return b; }
static int vp_nondet_int(void) { int b; return b; }
static size_t vp_nondet_size(void) { size_t b; return b; }
#ifndef VP_SMALL_OBJ
#define VP_SMALL_OBJ sizeof(coap_msg_op_t)
#endif
#ifndef VP_NO_POOL_STUBS
void *coap_mem_medium_alloc(size_t len)
{
    if (len > vp_med_len || vp_nondet_bool()) return NULL;
    void *p = malloc(vp_med_len);
    __CPROVER_assume(p != NULL);
    vp_med_live++;
    return p;
}
void *coap_mem_small_alloc(size_t len)
{
    __CPROVER_assert(len <= VP_SMALL_OBJ, "vp_spec: small block request is a list node");
    if (len > vp_small_len || vp_nondet_bool()) return NULL;
    void *p = malloc(VP_SMALL_OBJ);
    __CPROVER_assume(p != NULL);
    vp_small_live++;
    return p;
}
void coap_mem_medium_free(void *buf)
{
    __CPROVER_assert(buf != NULL && __CPROVER_POINTER_OFFSET(buf) == 0 && __CPROVER_OBJECT_SIZE(buf) == vp_med_len,
                     "vp_pool: only a live medium block is returned to the medium allocator");
    vp_med_live--;
}
void coap_mem_small_free(void *buf)
{
    __CPROVER_assert(buf != NULL && __CPROVER_POINTER_OFFSET(buf) == 0 && __CPROVER_OBJECT_SIZE(buf) == VP_SMALL_OBJ,
                     "vp_pool: only a live small block is returned to the small allocator");
    vp_small_live--;
}
size_t coap_mem_medium_get_len(void) { return vp_med_len; }
size_t coap_mem_small_get_len(void) { return vp_small_len; }
#endif

/* RFC 7252 section 3.1: one option at b[0..len) */
static int vp_op_wf(const char *bb, size_t len, unsigned *delta, unsigned *oplen, size_t *hdr)
{
    const vp_u8 *b = (const vp_u8 *)bb;
    if (len < 1) return 0;
    unsigned d = b[0] >> 4, l = b[0] & 15;
    if (d == 15 || l == 15) return 0;
    size_t ed = d == 13 ? 1 : d == 14 ? 2 : 0, el = l == 13 ? 1 : l == 14 ? 2 : 0;
    if (len < 1 + ed + el) return 0;
    *delta = d == 13 ? 13u + b[1] : d == 14 ? 269u + 256u * b[1] + b[2] : d;
    *oplen = l == 13 ? 13u + b[1 + ed] : l == 14 ? 269u + 256u * b[1 + ed] + b[2 + ed] : l;
    *hdr = 1 + ed + el;
    return len - *hdr >= *oplen;
}
/* size of the encoding of an option */
static size_t vp_op_size(unsigned delta, unsigned oplen)
{
    return 1 + (delta >= 269 ? 2 : delta >= 13 ? 1 : 0) + (oplen >= 269 ? 2 : oplen >= 13 ? 1 : 0) + (size_t)oplen;
}
/* RFC 7252 section 3 and 4.1-4.3: consistency of code, type, token, options, payload */
static int vp_msg_ok(unsigned type, unsigned cls, unsigned det, unsigned tkl, int has_ops, size_t pl)
{
    if (cls == 0 && det == 0) return type != 1 && tkl == 0 && !has_ops && pl == 0;
    return type != 3;
}
#endif
