/* coap_msg_check_critical_ops / coap_msg_check_unsafe_ops */
#include "list_spec.h"
size_t vp_w;            /* witness position in the list */
unsigned vp_wnum;       /* option number at that position */
#define known(n) ((n) == 1 || (n) == 3 || (n) == 4 || (n) == 5 || (n) == 7 || (n) == 8 || (n) == 11 || (n) == 12 || (n) == 14 \
    || (n) == 15 || (n) == 17 || (n) == 20 || (n) == 23 || (n) == 27 || (n) == 28 || (n) == 35 || (n) == 39 || (n) == 60)
#ifdef VP_UNSAFE
#define FN coap_msg_check_unsafe_ops
#define BAD(n) (((n) & 2) && !known(n))
#else
#define FN coap_msg_check_critical_ops
#define BAD(n) (((n) & 1) && !known(n))
#endif
unsigned FN(coap_msg_t *msg)
REQ(vp_i == 0)
ASG(vp_i, vp_a, vp_b, vp_wnum)
ENS(RET == 0 ==> (vp_i == vp_n && (vp_w < vp_n ==> !BAD(vp_wnum))))
ENS(RET != 0 ==> (vp_i > 0 && BAD(RET) && RET == VP_NODE(vp_i - 1)->num))
;
#define VP_LC \
    ASG(op, num, vp_i, vp_a, vp_b, vp_wnum) INV(VP_AT(op) && (vp_w < vp_i ==> !BAD(vp_wnum))) DEC(vp_n - vp_i)
#define VP_BC if (vp_i == vp_w) vp_wnum = VP_NODE(vp_i)->num; VP_STEP(op)
#ifdef VP_UNSAFE
#define VP_L_coap_msg_check_unsafe_ops_0 VP_LC
#define VP_B_coap_msg_check_unsafe_ops_0 VP_BC
#else
#define VP_L_coap_msg_check_critical_ops_0 VP_LC
#define VP_B_coap_msg_check_critical_ops_0 VP_BC
#endif
#include "libc_spec.h"
#include "coap_msg.c"
void vp_harness(void)
{
    coap_msg_t m;
    VP_LIST_SETUP(&m);
    vp_w = vp_nondet_size();

    unsigned r = FN(&m);
    if (r == 0) VP_REACH("pass");
    else VP_REACH("fail");
}
