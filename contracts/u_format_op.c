/* coap_msg_format_op: writes exactly the RFC 7252 encoding of one option, and only if it fits. */
#include "msg_spec.h"
static int post(ssize_t ret, coap_msg_op_t *op, unsigned prev, char *buf, size_t len)
{
    unsigned d, l;
    size_t h, need = vp_op_size(op->num - prev, op->len);
    if (need > len) return ret < 0;
    if (ret != (ssize_t)need) return 0;
    return vp_op_wf(buf, need, &d, &l, &h) && d == op->num - prev && l == op->len && h + l == need
        && (vp_g >= l || buf[h + vp_g] == op->val[vp_g]);
}
static ssize_t coap_msg_format_op(coap_msg_op_t *op, unsigned prev_num, char *buf, size_t len)
REQ(op->num >= prev_num && op->num - prev_num <= 65535 + 269 && op->len <= 65535 + 269)
REQ(len <= 2 * VP_MAXLEN)
ASG(UPTO(buf, len))
ENS(post(RET, op, prev_num, buf, len))
;
#include "libc_spec.h"
#include "coap_msg.c"
void vp_harness(void)
{
    coap_msg_op_t op;
    unsigned prev;
    size_t len;
    __CPROVER_assume(len <= 2 * VP_MAXLEN && op.len <= VP_MAXLEN);
    op.val = malloc(op.len);
    char *b = malloc(len);
    __CPROVER_assume(b != NULL && op.val != NULL);
    ssize_t r = coap_msg_format_op(&op, prev, b, len);
    if (r > 300) VP_REACH("long");
    else if (r > 0) VP_REACH("short");
    else VP_REACH("err");
}
