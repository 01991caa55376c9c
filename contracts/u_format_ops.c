/* coap_msg_format_ops: each option of the list, in list order and once, is handed to
 * coap_msg_format_op with its predecessor's number, directly after the previous encoding and
 * with the space that is left. */
#include "list_spec.h"
char *vp_pos, *vp_end;          /* ghost: next write position, end of buffer */
coap_msg_op_t *vp_next;         /* ghost: option that must come next */
unsigned vp_prev;               /* ghost: number of the option before */
int vp_err;
static ssize_t coap_msg_format_op(coap_msg_op_t *op, unsigned prev_num, char *buf, size_t len)
REQ(op != NULL && op == vp_next && prev_num == vp_prev)
REQ(buf == vp_pos && len == (size_t)(vp_end - buf) && !vp_err)
ASG(vp_pos, vp_next, vp_prev, vp_err)
ENS(RET < 0 || (RET > 0 && RET <= len))
ENS(RET > 0 ==> (vp_pos == buf + RET && vp_next == op->next && vp_prev == op->num))
ENS(vp_err == (RET < 0))
;
static ssize_t coap_msg_format_ops(coap_msg_t *msg, char *buf, size_t len)
REQ(len <= VP_MAXLEN && vp_i == 0)
REQ(vp_pos == buf && vp_end == buf + len && vp_err == 0 && vp_prev == 0 && vp_next == msg->op_list.first)
ASG(vp_i, vp_a, vp_b, vp_pos, vp_next, vp_prev, vp_err)
ENS(vp_err == (RET < 0))
ENS(RET >= 0 ==> (RET <= len && vp_pos == buf + RET && vp_next == NULL))
;
#define VP_L_coap_msg_format_ops_0 \
    ASG(vp_i, vp_a, vp_b, op, prev_num, num, p, len, vp_pos, vp_next, vp_prev, vp_err) \
    INV(VP_AT(op)) \
    INV(op == vp_next && prev_num == vp_prev && vp_pos == p && !vp_err) \
    INV(__CPROVER_same_object(p, buf) && len <= ENTRY(len) && p == buf + (ENTRY(len) - len)) \
    DEC(vp_n - vp_i)
#define VP_B_coap_msg_format_ops_0 VP_STEP(op)
#include "libc_spec.h"
#include "coap_msg.c"
void vp_harness(void)
{
    coap_msg_t m;
    size_t len;
    __CPROVER_assume(len <= VP_MAXLEN);
    char *b = malloc(len);
    __CPROVER_assume(b != NULL);
    VP_LIST_SETUP(&m);
    vp_pos = b;
    vp_end = b + len;
    vp_err = 0;
    vp_prev = 0;
    vp_next = m.op_list.first;
    ssize_t r = coap_msg_format_ops(&m, b, len);
    if (r > 3) VP_REACH("ok");
    else if (r < 0) VP_REACH("err");
}
