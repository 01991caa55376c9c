/* coap_msg_add_op (coap_msg_op_list_add, coap_msg_op_new inlined): the new option goes after every
 * option whose number is not greater and before every option whose number is greater. */
#define VP_NODE(i) ((i) + 1 == vp_n ? &vp_z : (i) & 1 ? &vp_b : &vp_a)
#include "list_spec.h"
coap_msg_op_t vp_z;             /* the last node */
coap_msg_op_t vp_sav;           /* content of the node reached, before */
unsigned vp_num;
#define VP_SAME(x, y) ((x).num == (y).num && (x).len == (y).len && (x).val == (y).val)
static int newop(coap_msg_op_t *n, unsigned num, unsigned len, const char *val)
{
    return n != NULL && n != &vp_a && n != &vp_b && n != &vp_z && n->num == num && n->len == len
        && __CPROVER_OBJECT_SIZE(n) == VP_SMALL_OBJ && __CPROVER_OBJECT_SIZE(n->val) == vp_med_len
        && (vp_g >= len || n->val[vp_g] == val[vp_g]);
}
static int post(int ret, coap_msg_t *m, unsigned num, unsigned len, const char *val, coap_msg_op_t *of, coap_msg_op_t *ol,
                unsigned ofnum, unsigned om, unsigned os)
{
    coap_msg_op_t *f = m->op_list.first, *l = m->op_list.last;
    if (ret < 0) return f == of && l == ol && vp_med_live == om && vp_small_live == os;
    if (vp_med_live != om + 1 || vp_small_live != os + 1 || ret != 0) return 0;
    if (vp_n == 0) return f == l && newop(f, num, len, val) && f->next == NULL;
    if (num < ofnum) return newop(f, num, len, val) && f->next == of && l == ol;
    if (f != of) return 0;
    if (l != ol) return newop(l, num, len, val) && l->next == NULL && vp_z.next == l && vp_z.num <= num;
    if (vp_i == 0 || vp_i >= vp_n) return 0;
    coap_msg_op_t *p = VP_NODE(vp_i - 1), *q = VP_NODE(vp_i);
    return newop(p->next, num, len, val) && p->next->next == q && p->num <= num && num < q->num && VP_SAME(*p, vp_sav);
}
int coap_msg_add_op(coap_msg_t *msg, unsigned num, unsigned len, const char *val)
REQ(VP_POOLS && len <= VP_MAXLEN)
REQ(vp_i == 0 && vp_num == num)
REQ(vp_n == 0 || (vp_z.next == NULL && VP_NODE(0)->num <= vp_z.num))
ASG(msg->op_list, vp_med_live, vp_small_live, vp_a, vp_b, vp_z.next, vp_i, vp_sav)
ENS(post(RET, msg, num, len, val, OLD(msg->op_list.first), OLD(msg->op_list.last), OLD(VP_NODE(0)->num), OLD(vp_med_live), OLD(vp_small_live)))
;
#define VP_L_coap_msg_op_list_add_0 \
    ASG(prev, vp_i, vp_a, vp_b, vp_z.next, vp_sav, op->next) \
    INV(vp_i < vp_n) INV(prev == VP_NODE(vp_i)) INV(VP_NODE(vp_i)->num <= op->num) INV(vp_z.next == NULL) INV(op->next == NULL) \
    DEC(vp_n - vp_i)
#define VP_B_coap_msg_op_list_add_0 \
    VP_PIN(prev, VP_NODE(vp_i)) prev->next = VP_NODE(vp_i + 1); vp_sav = *prev; vp_i++;
#include "libc_spec.h"
#include "coap_msg.c"
unsigned vp_fnum;
void vp_harness(void)
{
    coap_msg_t m;
    unsigned num, len;
    __CPROVER_assume(len <= VP_MAXLEN);
    char *v = malloc(len);
    __CPROVER_assume(v != NULL);
    VP_LIST_SETUP(&m);
    vp_num = num;
    int r = coap_msg_add_op(&m, num, len, v);
    if (r == 0 && m.op_list.first->num == num) VP_REACH("first");
    else if (r == 0 && m.op_list.last->num == num) VP_REACH("last");
    else if (r == 0) VP_REACH("middle");
    else VP_REACH("err");
}
