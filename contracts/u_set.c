/* setters of the message structure */
#include "msg_spec.h"
#define UNCH(f) (msg->f == OLD(msg->f))
#define SAME_HDR(m, o) ((m)->ver == (o).ver && (m)->op_list.first == (o).op_list.first && (m)->op_list.last == (o).op_list.last)
#ifdef VP_TYPE
int coap_msg_set_type(coap_msg_t *msg, unsigned type)
ASG(msg->type)
ENS(type <= 3 ? (RET == 0 && msg->type == type) : (RET < 0 && UNCH(type)))
;
#define CALL coap_msg_set_type(&m, a)
#elif defined VP_CODE
int coap_msg_set_code(coap_msg_t *msg, unsigned code_class, unsigned code_detail)
ASG(msg->code_class, msg->code_detail)
ENS(code_class <= 7 && code_detail <= 31 ? (RET == 0 && msg->code_class == code_class && msg->code_detail == code_detail)
                                        : (RET < 0 && UNCH(code_class) && UNCH(code_detail)))
;
#define CALL coap_msg_set_code(&m, a, b)
#elif defined VP_ID
int coap_msg_set_msg_id(coap_msg_t *msg, unsigned msg_id)
ASG(msg->msg_id)
ENS(msg_id <= 65535 ? (RET == 0 && msg->msg_id == msg_id) : (RET < 0 && UNCH(msg_id)))
;
#define CALL coap_msg_set_msg_id(&m, a)
#elif defined VP_TOKEN
int coap_msg_set_token(coap_msg_t *msg, char *buf, size_t len)
ASG(msg->token, msg->token_len)
ENS(len <= 8 ? (RET == 0 && msg->token_len == len && (vp_g < len ==> msg->token[vp_g] == buf[vp_g])) : (RET < 0 && UNCH(token_len)))
;
#define CALL coap_msg_set_token(&m, v, n)
#elif defined VP_PAYLOAD
int coap_msg_set_payload(coap_msg_t *msg, char *buf, size_t len)
REQ(VP_POOLS)
ASG(msg->payload, msg->payload_len, vp_med_live; msg->payload != NULL: WHOLE(msg->payload))
ENS(RET == 0 || RET == -ENOMEM)
ENS(RET < 0 ==> (len > 0 && msg->payload == NULL && msg->payload_len == 0))
ENS(RET == 0 ==> (msg->payload_len == len && (len == 0) == (msg->payload == NULL)))
ENS((RET == 0 && vp_g < len) ==> msg->payload[vp_g] == buf[vp_g])
ENS((RET == 0 && len > 0) ==> __CPROVER_OBJECT_SIZE(msg->payload) == vp_med_len)
ENS(vp_med_live == OLD(vp_med_live) - (OLD(msg->payload) != NULL) + (msg->payload != NULL))
;
#define CALL coap_msg_set_payload(&m, v, n)
#elif defined VP_CLEAR
void coap_msg_clear_payload(coap_msg_t *msg)
REQ(VP_POOLS)
ASG(msg->payload, msg->payload_len, vp_med_live; msg->payload != NULL: WHOLE(msg->payload))
ENS(msg->payload == NULL && msg->payload_len == 0 && vp_med_live == OLD(vp_med_live) - (OLD(msg->payload) != NULL))
;
#define CALL (coap_msg_clear_payload(&m), 0)
#endif
#include "libc_spec.h"
#include "coap_msg.c"
void vp_harness(void)
{
    coap_msg_t m;
    unsigned a, b;
    size_t n;
    __CPROVER_assume(VP_POOLS && n <= VP_MAXLEN);
    char *v = malloc(n);
    m.payload = NULL;
    if (vp_nondet_bool()) { m.payload = malloc(vp_med_len); __CPROVER_assume(m.payload != NULL); }
    __CPROVER_assume(v != NULL);
    int r = CALL;
    if (r == 0) VP_REACH("ok");
#ifndef VP_CLEAR
    else VP_REACH("err");
#endif
}
