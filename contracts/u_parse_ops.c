/* coap_msg_parse_ops: every option of the message is handed to coap_msg_parse_op exactly once,
 * in wire order, with the rest of the message as its bound, until the payload marker or the end. */
#include "msg_spec.h"
char *vp_pos;           /* ghost: where the next option must start */
char *vp_end;           /* ghost: end of the message */
int vp_err;             /* ghost: an option was rejected */
static ssize_t coap_msg_parse_op(coap_msg_t *msg, char *buf, size_t len)
REQ(buf == vp_pos && len == (size_t)(vp_end - buf) && len > 0 && !vp_err)
REQ((vp_u8)buf[0] != 0xff)
ASG(msg->op_list, vp_pos, vp_err, vp_med_live, vp_small_live)
ENS(RET < 0 || (RET > 0 && RET <= len))
ENS(RET > 0 ==> vp_pos == buf + RET)
ENS(vp_err == (RET < 0))
;
static ssize_t coap_msg_parse_ops(coap_msg_t *msg, char *buf, size_t len)
REQ(len <= VP_MAXLEN)
REQ(vp_pos == buf && vp_end == buf + len && vp_err == 0)
ASG(msg->op_list, vp_pos, vp_err, vp_med_live, vp_small_live)
ENS(vp_err == (RET < 0))
ENS(RET >= 0 ==> (RET <= len && vp_pos == buf + RET))
ENS(RET >= 0 ==> (RET == len || (vp_u8)buf[RET] == 0xff))
;
#define VP_L_coap_msg_parse_ops_0 \
    ASG(p, len, num, msg->op_list, vp_pos, vp_err, vp_med_live, vp_small_live) \
    INV(vp_pos == p && !vp_err && __CPROVER_same_object(p, buf) && len <= ENTRY(len) && p == buf + (ENTRY(len) - len)) \
    DEC(len)
#include "libc_spec.h"
#include "coap_msg.c"
void vp_harness(void)
{
    coap_msg_t m;
    size_t len;
    __CPROVER_assume(len <= VP_MAXLEN);
    char *b = malloc(len);
    __CPROVER_assume(b != NULL);
    vp_pos = b;
    vp_end = b + len;
    vp_err = 0;
    ssize_t r = coap_msg_parse_ops(&m, b, len);
    if (r > 3) VP_REACH("ok");
    else if (r < 0) VP_REACH("err");
}
