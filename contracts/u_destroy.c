/* coap_msg_destroy / coap_msg_reset: every option node and value, and the payload, goes back to its
 * allocator exactly once, and the message is left empty. */
#define VP_NO_POOL_STUBS
#include "list_spec.h"
size_t vp_mfree, vp_sfree, vp_pfree;    /* ghost: option values, option nodes, payloads returned */
char *vp_val;                           /* ghost: value of the node reached */
coap_msg_op_t *vp_node;                 /* ghost: the node reached */
char *vp_pay;                           /* ghost: payload of the message */
void coap_mem_medium_free(void *buf)
{
    if (buf == vp_pay && vp_pay != NULL && vp_pfree == 0) { vp_pfree++; return; }
    __CPROVER_assert(buf == vp_val && vp_mfree + 1 == vp_i, "vp_pool: a value block is returned once, to the medium allocator");
    vp_mfree++;
}
void coap_mem_small_free(void *buf)
{
    coap_msg_op_t junk;
    __CPROVER_assert(buf == vp_node && vp_sfree + 1 == vp_i, "vp_pool: a node block is returned once, to the small allocator");
    vp_sfree++;
    *vp_node = junk;    /* the content is gone */
}
#ifdef VP_RESET
#define FN coap_msg_reset
#define VER 1
#else
#define FN coap_msg_destroy
#define VER 0
#endif
void FN(coap_msg_t *msg)
REQ(vp_i == 0 && vp_mfree == 0 && vp_sfree == 0 && vp_pfree == 0)
ASG(*msg, vp_a, vp_b, vp_i, vp_mfree, vp_sfree, vp_pfree, vp_val, vp_node)
ENS(vp_mfree == vp_n && vp_sfree == vp_n && vp_i == vp_n)
ENS(vp_pfree == (vp_pay != NULL))
ENS(msg->op_list.first == NULL && msg->op_list.last == NULL && msg->payload == NULL && msg->payload_len == 0)
ENS(msg->token_len == 0 && msg->msg_id == 0 && msg->type == 0 && msg->code_class == 0 && msg->code_detail == 0)
ENS(msg->ver == VER && (vp_g < 8 ==> msg->token[vp_g] == 0))
;
#define VP_L_coap_msg_op_list_destroy_0 \
    ASG(op, prev, vp_i, vp_a, vp_b, vp_mfree, vp_sfree, vp_pfree, vp_val, vp_node) \
    INV(VP_AT(op) && vp_mfree == vp_i && vp_sfree == vp_i) INV(vp_pfree == 0) DEC(vp_n - vp_i)
#define VP_B_coap_msg_op_list_destroy_0 VP_STEP(op) vp_node = op; vp_val = op->val; __CPROVER_assume(vp_val != vp_pay);
#include "libc_spec.h"
#include "coap_msg.c"
void vp_harness(void)
{
    coap_msg_t m;
    char blk;
    VP_LIST_SETUP(&m);
    m.payload = vp_pay = vp_nondet_bool() ? &blk : NULL;
    vp_mfree = vp_sfree = vp_pfree = 0;
    FN(&m);
    VP_REACH("end");
}
