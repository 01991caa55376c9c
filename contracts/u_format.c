/* coap_msg_format: the exact RFC 7252 encoding, if and only if the message is valid and it fits. */
#include "msg_spec.h"
char *vp_buf;
size_t vp_ops_at, vp_ops_room, vp_ops_len;      /* ghost: where options were written, room, bytes */
int vp_ops_err, vp_ops_calls;
static ssize_t coap_msg_format_ops(coap_msg_t *msg, char *buf, size_t len)
REQ(__CPROVER_same_object(buf, vp_buf) && buf >= vp_buf && len <= __CPROVER_OBJECT_SIZE(vp_buf) - (size_t)(buf - vp_buf))
ASG(vp_ops_at, vp_ops_room, vp_ops_len, vp_ops_err, vp_ops_calls)
ENS(vp_ops_at == (size_t)(buf - vp_buf) && vp_ops_room == len && vp_ops_err == (RET < 0) && vp_ops_calls == OLD(vp_ops_calls) + 1)
ENS(RET >= 0 ==> (RET <= len && vp_ops_len == RET))
ENS(RET >= 0 ==> (RET > 0) == (msg->op_list.first != NULL))
;
static int post(ssize_t ret, coap_msg_t *m, char *bb, size_t len)
{
    const vp_u8 *b = (const vp_u8 *)bb;
    unsigned tkl = m->token_len;
    size_t pl = m->payload_len;
    if (!vp_msg_ok(m->type, m->code_class, m->code_detail, tkl, m->op_list.first != NULL, pl)) return ret < 0;
    if (len < 4 + tkl) return ret < 0;
    if (vp_ops_calls != 1 || vp_ops_at != 4 + tkl || vp_ops_room != len - 4 - tkl) return 0;
    if (vp_ops_err) return ret < 0;
    size_t need = 4 + tkl + vp_ops_len + (pl ? 1 + pl : 0);
    if (need > len) return ret < 0;
    return ret == (ssize_t)need
        && b[0] == (0x40 | ((unsigned)m->type << 4) | tkl) && b[1] == ((m->code_class << 5) | m->code_detail)
        && b[2] == m->msg_id >> 8 && b[3] == (m->msg_id & 255)
        && (vp_g >= tkl || b[4 + vp_g] == (vp_u8)m->token[vp_g])
        && (pl == 0 || b[4 + tkl + vp_ops_len] == 0xff)
        && (vp_g >= pl || b[5 + tkl + vp_ops_len + vp_g] == (vp_u8)m->payload[vp_g]);
}
ssize_t coap_msg_format(coap_msg_t *msg, char *buf, size_t len)
REQ(len <= VP_MAXLEN && vp_ops_calls == 0)
REQ(msg->token_len <= 8 && (unsigned)msg->type <= 3 && msg->code_class <= 7 && msg->code_detail <= 31 && msg->msg_id <= 65535)
REQ(msg->payload_len <= VP_MAXLEN)
ASG(UPTO(buf, len), vp_ops_at, vp_ops_room, vp_ops_len, vp_ops_err, vp_ops_calls)
ENS(post(RET, msg, buf, len))
;
#include "libc_spec.h"
#include "coap_msg.c"
void vp_harness(void)
{
    coap_msg_t m;
    coap_msg_op_t op;
    size_t len;
    __CPROVER_assume(len <= VP_MAXLEN && m.payload_len <= VP_MAXLEN);
    char *b = malloc(len);
    m.payload = malloc(m.payload_len);
    __CPROVER_assume(b != NULL && m.payload != NULL);
    m.op_list.first = m.op_list.last = vp_nondet_bool() ? &op : NULL;
    vp_buf = b;
    vp_ops_calls = 0;
    ssize_t r = coap_msg_format(&m, b, len);
    if (r > 20) VP_REACH("ok");
    else if (r < 0) VP_REACH("err");
}
