/* Lemma over the real code: an option formatted and parsed again is the same option. */
#include "msg_spec.h"
#include "libc_spec.h"
#include "coap_msg.c"
void vp_harness(void)
{
    coap_msg_op_t op, last;
    coap_msg_t m;
    size_t len;
    unsigned prev;
    __CPROVER_assume(VP_POOLS);
    __CPROVER_assume(len <= 2 * VP_MAXLEN && op.len <= 65535 + 269);
    __CPROVER_assume(prev <= op.num && op.num - prev <= 65535 + 269);
    op.val = malloc(op.len);
    char *b = malloc(len);
    __CPROVER_assume(b != NULL && op.val != NULL);
    ssize_t r = coap_msg_format_op(&op, prev, b, len);
    if (r < 0) return;
    if (prev == 0 && vp_nondet_bool()) m.op_list.first = m.op_list.last = NULL;
    else m.op_list.first = m.op_list.last = &last;
    last.num = prev;
    size_t rest;
    __CPROVER_assume(rest >= (size_t)r && rest <= len);
    ssize_t q = coap_msg_parse_op(&m, b, rest);
    __CPROVER_assert(q == r || q == -ENOMEM, "vp_rt: the formatted option is accepted and consumed exactly");
    if (q < 0) { VP_REACH("no memory"); return; }
    __CPROVER_assert(m.op_list.last->num == op.num, "vp_rt: option number survives");
    __CPROVER_assert(m.op_list.last->len == op.len, "vp_rt: option length survives");
    __CPROVER_assert(vp_g >= op.len || m.op_list.last->val[vp_g] == op.val[vp_g], "vp_rt: option value survives");
    VP_REACH("round trip");
}
