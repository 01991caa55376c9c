/* coap_msg_parse_op (with coap_msg_op_list_add_last and coap_msg_op_new inlined): one option on
 * the wire becomes exactly one option at the end of the list, or an error and no change. */
#include "msg_spec.h"
unsigned vp_prev;       /* number of the option before */
static int post(ssize_t ret, coap_msg_t *msg, char *buf, size_t len, coap_msg_op_t *oldfirst, coap_msg_op_t *oldlast,
                unsigned om, unsigned os)
{
    unsigned d, l;
    size_t h;
    int wf = vp_op_wf(buf, len, &d, &l, &h);
    coap_msg_op_t *n = msg->op_list.last;
    if (ret < 0)
        return (!wf || ret == -ENOMEM) && n == oldlast && msg->op_list.first == oldfirst
            && (oldlast == NULL || oldlast->next == NULL) && vp_med_live == om && vp_small_live == os;
    return wf && ret == (ssize_t)(h + l) && n != NULL && n != oldlast && n->num == vp_prev + d && n->len == l && n->next == NULL
        && msg->op_list.first == (oldfirst == NULL ? n : oldfirst) && (oldlast == NULL || oldlast->next == n)
        && (vp_g >= l || n->val[vp_g] == buf[h + vp_g])
        && vp_med_live == om + 1 && vp_small_live == os + 1
        && __CPROVER_OBJECT_SIZE(n) == VP_SMALL_OBJ && __CPROVER_POINTER_OFFSET(n) == 0
        && __CPROVER_OBJECT_SIZE(n->val) == vp_med_len && __CPROVER_POINTER_OFFSET(n->val) == 0;
}
static ssize_t coap_msg_parse_op(coap_msg_t *msg, char *buf, size_t len)
REQ(VP_POOLS && len <= VP_MAXLEN)
REQ((msg->op_list.first == NULL) == (msg->op_list.last == NULL))
REQ(msg->op_list.last == NULL || msg->op_list.last->next == NULL)
REQ(vp_prev == (msg->op_list.last == NULL ? 0 : msg->op_list.last->num))
ASG(vp_med_live, vp_small_live, msg->op_list; msg->op_list.last != NULL: msg->op_list.last->next)
ENS(post(RET, msg, buf, len, OLD(msg->op_list.first), OLD(msg->op_list.last), OLD(vp_med_live), OLD(vp_small_live)))
;
#include "libc_spec.h"
#include "coap_msg.c"
void vp_harness(void)
{
    coap_msg_t m;
    coap_msg_op_t last, first;
    size_t len;
    __CPROVER_assume(len <= VP_MAXLEN);
    char *b = malloc(len);
    __CPROVER_assume(b != NULL);
    if (vp_nondet_bool()) m.op_list.first = m.op_list.last = NULL;
    else
    {
        m.op_list.last = &last;
        m.op_list.first = vp_nondet_bool() ? &last : &first;
    }
    ssize_t r = coap_msg_parse_op(&m, b, len);
    if (r > 0) VP_REACH("ok");
    else VP_REACH("err");
}
