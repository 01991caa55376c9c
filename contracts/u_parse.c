/* coap_msg_parse: a datagram is accepted only if it is a well-formed RFC 7252 message, and the
 * message structure then holds exactly what is on the wire. */
#include "msg_spec.h"
size_t vp_ops_at;       /* ghost: offset at which the options were parsed */
size_t vp_ops_len;      /* ghost: bytes taken by options */
int vp_ops_err;         /* ghost: the options were malformed */
int vp_ops_any;         /* ghost: there is at least one option */
int vp_lists;           /* ghost: option lists in existence */
int vp_med0;            /* ghost: medium blocks at the start that do not belong to the message */
char *vp_buf;           /* ghost: start of the datagram */
coap_msg_op_t vp_node;
static ssize_t coap_msg_parse_ops(coap_msg_t *msg, char *buf, size_t len)
REQ(buf >= vp_buf && __CPROVER_same_object(buf, vp_buf) && (len == 0 || __CPROVER_r_ok(buf, len)))
REQ(len == __CPROVER_OBJECT_SIZE(vp_buf) - (size_t)(buf - vp_buf))
REQ(msg->op_list.first == NULL && msg->op_list.last == NULL)
ASG(msg->op_list, vp_ops_at, vp_ops_len, vp_ops_err, vp_ops_any, vp_lists)
ENS(vp_lists == OLD(vp_lists) + vp_ops_any)
ENS(vp_ops_at == (size_t)(buf - vp_buf) && vp_ops_err == (RET < 0))
ENS(RET >= 0 ==> (RET <= len && vp_ops_len == RET && (RET == len || (vp_u8)buf[RET] == 0xff)))
ENS(vp_ops_any == (msg->op_list.first != NULL) && (RET >= 0 ==> vp_ops_any == (RET > 0)))
;
void coap_msg_destroy(coap_msg_t *msg)
REQ(__CPROVER_rw_ok(msg, sizeof(*msg)))
ASG(*msg, vp_med_live, vp_lists)
ENS(vp_lists == OLD(vp_lists) - (OLD(msg->op_list.first) != NULL) && vp_med_live == OLD(vp_med_live) - (OLD(msg->payload) != NULL))
ENS(msg->op_list.first == NULL && msg->op_list.last == NULL && msg->payload == NULL && msg->payload_len == 0)
ENS(msg->ver == 0 && msg->token_len == 0 && msg->msg_id == 0 && msg->type == 0 && msg->code_class == 0 && msg->code_detail == 0)
;
static int post(ssize_t ret, coap_msg_t *m, char *bb, size_t len)
{
    const vp_u8 *b = (const vp_u8 *)bb;
    if (ret > 0) return 0;
    /* nothing is lost, whatever the outcome: what exists is what the message holds */
    if (vp_lists != (m->op_list.first != NULL) || vp_med_live != vp_med0 + (m->payload != NULL)) return 0;
    /* header */
    int hdr = len >= 4 && (b[0] >> 6) == 1 && (b[0] & 15) <= 8
           && ((b[1] >> 5) == 0 || (b[1] >> 5) == 2 || (b[1] >> 5) == 4 || (b[1] >> 5) == 5) && len - 4 >= (b[0] & 15);
    if (!hdr) return ret < 0;
    unsigned tkl = b[0] & 15;
    if (vp_ops_at != 4 + tkl) return 0;
    if (vp_ops_err) return ret < 0;
    size_t pay = 4 + tkl + vp_ops_len;      /* offset of the payload marker, or len */
    if (pay < len && (b[pay] != 0xff || pay + 1 == len)) return ret < 0;
    size_t pl = pay < len ? len - pay - 1 : 0;
    int ok = vp_msg_ok((b[0] >> 4) & 3, b[1] >> 5, b[1] & 31, tkl, vp_ops_len > 0, pl);
    if (!ok) return ret < 0;
    if (ret < 0) return ret == -ENOMEM && pl > 0;   /* only the payload allocation may fail now */
    return m->ver == 1 && m->type == ((b[0] >> 4) & 3) && m->token_len == tkl && m->code_class == (b[1] >> 5)
        && m->code_detail == (b[1] & 31) && m->msg_id == 256u * b[2] + b[3]
        && (vp_g >= tkl || (vp_u8)m->token[vp_g] == b[4 + vp_g])
        && m->payload_len == pl && (pl == 0) == (m->payload == NULL)
        && (vp_g >= pl || (vp_u8)m->payload[vp_g] == b[pay + 1 + vp_g])
        && (pl == 0 || __CPROVER_OBJECT_SIZE(m->payload) == vp_med_len);
}
ssize_t coap_msg_parse(coap_msg_t *msg, char *buf, size_t len)
REQ(VP_POOLS)
REQ(len <= VP_MAXLEN)
REQ(vp_lists == (msg->op_list.first != NULL) && vp_med0 >= 0 && vp_med0 < 100000 && vp_med_live == vp_med0 + (msg->payload != NULL))
ASG(*msg, vp_ops_at, vp_ops_len, vp_ops_err, vp_ops_any, vp_med_live, vp_small_live, vp_lists)
ENS(post(RET, msg, buf, len))
;
#include "libc_spec.h"
#include "coap_msg.c"
void vp_harness(void)
{
    coap_msg_t m;
    size_t len;
    __CPROVER_assume(len <= VP_MAXLEN);
    char *b = malloc(len);
    __CPROVER_assume(b != NULL);
    vp_buf = b;
    ssize_t r = coap_msg_parse(&m, b, len);
    if (r == 0 && m.payload_len > 0) VP_REACH("payload");
    else if (r == 0) VP_REACH("no payload");
    else VP_REACH("err");
}
