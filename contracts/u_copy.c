/* coap_msg_copy: header, token, every option (in order, once, same number and value) and payload. */
#include "list_spec.h"
coap_msg_t *vp_dst;
coap_msg_op_t vp_sav;
size_t vp_adds;
int vp_add_err;
int coap_msg_add_op(coap_msg_t *msg, unsigned num, unsigned len, const char *val)
REQ(msg == vp_dst && vp_adds + 1 == vp_i && !vp_add_err)
REQ(num == vp_sav.num && len == vp_sav.len && val == vp_sav.val)
ASG(vp_adds, vp_add_err, msg->op_list)
ENS(RET <= 0 && vp_add_err == (RET < 0) && vp_adds == OLD(vp_adds) + (RET == 0))
;
static int post(int ret, coap_msg_t *d, coap_msg_t *s, unsigned om)
{
    if (ret > 0) return 0;
    if (ret < 0) return vp_add_err || s->payload_len > 0;
    return vp_adds == vp_n && d->ver == s->ver && d->type == s->type && d->code_class == s->code_class && d->code_detail == s->code_detail
        && d->msg_id == s->msg_id && d->token_len == s->token_len && (vp_g >= s->token_len || d->token[vp_g] == s->token[vp_g])
        && d->payload_len == s->payload_len && (s->payload_len == 0) == (d->payload == NULL) && (d->payload == NULL || d->payload != s->payload)
        && (vp_g >= s->payload_len || d->payload[vp_g] == s->payload[vp_g])
        && vp_med_live == om + (s->payload_len > 0);
}
int coap_msg_copy(coap_msg_t *dst, coap_msg_t *src)
REQ(VP_POOLS && vp_i == 0 && vp_adds == 0 && vp_add_err == 0)
REQ(src->token_len <= 8 && (unsigned)src->type <= 3 && src->code_class <= 7 && src->code_detail <= 31 && src->msg_id <= 65535)
ASG(*dst, vp_adds, vp_add_err, vp_i, vp_a, vp_b, vp_sav, vp_med_live)
ENS(post(RET, dst, src, OLD(vp_med_live)))
;
#define VP_L_coap_msg_copy_0 \
    ASG(op, ret, vp_i, vp_a, vp_b, vp_sav, vp_adds, vp_add_err, dst->op_list) \
    INV(VP_AT(op) && vp_adds == vp_i && !vp_add_err) DEC(vp_n - vp_i)
#define VP_B_coap_msg_copy_0 VP_STEP(op) vp_sav = *op;
#include "libc_spec.h"
#include "coap_msg.c"
void vp_harness(void)
{
    coap_msg_t d, s;
    VP_LIST_SETUP(&s);
    __CPROVER_assume(s.payload_len <= VP_MAXLEN);
    s.payload = malloc(s.payload_len);
    __CPROVER_assume(s.payload != NULL);
    d.payload = NULL;
    vp_dst = &d;
    vp_adds = 0;
    vp_add_err = 0;
    int r = coap_msg_copy(&d, &s);
    if (r == 0) VP_REACH("ok");
    else VP_REACH("err");
}
