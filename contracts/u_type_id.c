/* coap_msg_parse_type_msg_id */
#include "msg_spec.h"
static int post(int ret, char *bb, size_t len, unsigned t, unsigned id, unsigned ot, unsigned oid)
{
    const vp_u8 *b = (const vp_u8 *)bb;
    if (len < 4) return ret < 0 && t == ot && id == oid;
    return ret == 0 && t == ((b[0] >> 4) & 3) && id == 256u * b[2] + b[3];
}
int coap_msg_parse_type_msg_id(char *buf, size_t len, unsigned *type, unsigned *msg_id)
REQ(len <= VP_MAXLEN)
ASG(*type, *msg_id)
ENS(post(RET, buf, len, *type, *msg_id, OLD(*type), OLD(*msg_id)))
;
#include "libc_spec.h"
#include "coap_msg.c"
void vp_harness(void)
{
    size_t len;
    unsigned t, id;
    __CPROVER_assume(len <= VP_MAXLEN);
    char *b = malloc(len);
    __CPROVER_assume(b != NULL);
    int r = coap_msg_parse_type_msg_id(b, len, &t, &id);
    if (r == 0) VP_REACH("ok");
    else VP_REACH("err");
}
