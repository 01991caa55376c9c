/* lib/src/coap_client.c: block-wise exchanges.  The loop over the blocks is cut at the start of its body:
 * the state there is checked against the invariant (which is the hook VP_B_..., it sees the local
 * variables), replaced by an arbitrary state that satisfies it, one block is exchanged, and the next
 * arrival (or the return) must satisfy the statement about one block.  The first three blocks are also
 * executed without the cut. */
#include <stdlib.h>
#include <stdio.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <netdb.h>
#include <sys/socket.h>
#include <sys/timerfd.h>
#include <sys/select.h>
#include "vp.h"
#include "coap_client.h"
#define VP_OWN_PAYLOAD
#define VP_GHOST \
    int cut, arr;                       /* cut the loop; arrivals at its body */ \
    size_t start; unsigned size;        /* bytes transferred; block size in force */ \
    int nex, ex_ret;                    /* exchanges in this step, result of the last */ \
    int pr; unsigned pn, pm, ps;        /* block option of the response: 0 present, 1 absent, <0 malformed */ \
    int ncopy; char *cp_d; const char *cp_s; size_t cp_n; \
    unsigned f_num, f_more, f_size; int f_ok; \
    int nop1, nop2; unsigned o1n, o1m, o1s, o2n, o2m, o2s; \
    char *pay_p; size_t pay_n; int npay; int other_op; \
    int b1, b2; ssize_t r1, r2; int b2_have; int b1_args, b2_args; size_t pl1;
#include "amsg_spec.h"
#define G vp_G
#define POST(c, t) __CPROVER_assert(c, "vp_post " t)
coap_client_t vp_c;
coap_msg_t vp_req, vp_resp;
char *vp_bodyp; size_t vp_body_len; unsigned vp_b1, vp_b2;
#define SZX(s) ((s) == 16 ? 0 : (s) == 32 ? 1 : (s) == 64 ? 2 : (s) == 128 ? 3 : (s) == 256 ? 4 : (s) == 512 ? 5 : (s) == 1024 ? 6 : -EINVAL)
int coap_msg_op_calc_block_szx(unsigned size) { return SZX(size); }
unsigned coap_msg_block_start_to_num_(unsigned start, unsigned szx);
int coap_msg_op_format_block_val(char *v, unsigned n, unsigned num, unsigned more, unsigned size)
{
    if (SZX(size) < 0 || n < 1 || n > 3) return -EINVAL;
    if (num >= (n == 1 ? 16u : n == 2 ? 4096u : 1048576u)) return -EINVAL;
    G.f_num = num; G.f_more = !!more; G.f_size = size;
    return n;
}
int coap_msg_add_op(coap_msg_t *m, unsigned num, unsigned len, const char *v)
{
    if (vp_nondet_bool()) return -ENOMEM;
    if (m->op_list.first == NULL) { m->op_list.first = m->op_list.last = OPID(1); vp_live++; }
    if (num == COAP_MSG_BLOCK1) { G.nop1++; G.o1n = G.f_num; G.o1m = G.f_more; G.o1s = G.f_size; }
    else if (num == COAP_MSG_BLOCK2) { G.nop2++; G.o2n = G.f_num; G.o2m = G.f_more; G.o2s = G.f_size; }
    else G.other_op++;
    return 0;
}
int coap_msg_set_payload(coap_msg_t *m, char *b, size_t n)
{
    __CPROVER_assert(n == 0 || __CPROVER_r_ok(b, n), "vp_safe: the payload is read from the body");
    vp_live -= (m->payload != NULL);
    m->payload = NULL;
    m->payload_len = 0;
    G.npay++;
    if (n > 0)
    {
        if (vp_nondet_bool()) return -ENOMEM;
        m->payload = PLID(3);
        m->payload_len = n;
        vp_live++;
    }
    G.pay_p = b;
    G.pay_n = n;
    return 0;
}
int coap_msg_parse_block_op(unsigned *num, unsigned *more, unsigned *size, coap_msg_t *m, int type)
{
    __CPROVER_assert(m == &vp_resp, "vp_spec: the option of the response");
#ifdef VP_BLK1
    POST(type == COAP_MSG_BLOCK1, "the confirmation of the block sent is looked at");
#else
    POST(type == COAP_MSG_BLOCK2, "the number of the block received is looked at");
#endif
    if (G.pr == 0) { *num = G.pn; *more = G.pm; *size = G.ps; }
    return G.pr;
}
#define memcpy vp_memcpy_
#define memmove vp_memcpy_
static void *vp_memcpy_(void *d, const void *s, size_t n)
{
    __CPROVER_assert(n == 0 || __CPROVER_w_ok(d, n), "vp_safe: bytes are stored in the body");
    G.ncopy++;
    G.cp_d = d;
    G.cp_s = s;
    G.cp_n = n;
    return d;
}
unsigned vp_resp_cls, vp_resp_det; size_t vp_resp_len; char *vp_resp_pl;       /* the response as received */
static void vp_response(void)
{   /* any response: option and payload as C02 and C08 say they may be */
    vp_any_msg(&vp_resp);
    vp_live += OWN(&vp_resp);
    vp_resp_cls = vp_resp.code_class; vp_resp_det = vp_resp.code_detail; vp_resp_len = vp_resp.payload_len; vp_resp_pl = vp_resp.payload;
    G.pr = vp_nondet_bool() ? 0 : vp_nondet_bool() ? 1 : -EINVAL;
    G.pn = vp_nondet_uint(); G.pm = vp_nondet_bool(); G.ps = vp_nondet_uint();
    __CPROVER_assume(G.pn < 1048576 && SZX(G.ps) >= 0);
}
#define SHIFT(s) ((s) == 16 ? 4 : (s) == 32 ? 5 : (s) == 64 ? 6 : (s) == 128 ? 7 : (s) == 256 ? 8 : (s) == 512 ? 9 : 10)
#define AT(n, s) ((size_t)(n) << SHIFT(s))
#define LEFT (vp_body_len - G.start)
#ifdef VP_BLK1
#define LAST (LEFT <= G.size)
#define PLEN (LAST ? LEFT : G.size)
#else
#define PLEN (vp_resp.payload_len)
#endif
#define NEWSIZE (G.ps < G.size ? G.ps : G.size)
static void vp_begin(void)
{
    G.nex = G.ncopy = G.nop1 = G.nop2 = G.npay = G.other_op = 0;
}
#if defined(VP_BLK1) || defined(VP_BLK2)
static void vp_arrive(size_t *start, unsigned *size, int *szx, coap_msg_t *msg, int *have, unsigned *a, unsigned *b, unsigned *c, unsigned *d);
/* the exchange of one block */
int coap_client_exchange(coap_client_t *c, coap_msg_t *m, coap_msg_t *resp)
{
    POST(c == &vp_c && resp == &vp_resp, "with the server of the client");
    POST(m->type == vp_req.type && SAME_CODE(m, &vp_req) && m->ver == 1 && (vp_req.op_list.first == NULL || m->op_list.first == vp_req.op_list.first) && !G.other_op,
         "the request is a copy of the one given plus block options");
    POST(G.nex == 0, "one exchange per block");
#ifdef VP_BLK1
    POST(G.nop1 == 1 && G.o1s == G.size && AT(G.o1n, G.size) == G.start && G.o1m == !LAST, "the block is numbered by its position and the last one is marked");
    POST(G.npay == 1 && G.pay_p == vp_bodyp + G.start && G.pay_n == PLEN, "the payload is the next part of the body");
    POST(LAST ? G.nop2 == 1 && G.o2n == 0 && G.o2m == 0 && G.o2s == vp_b2 : G.nop2 == 0, "the size of the response blocks is asked for with the last block");
#else
    POST(G.nop1 == 0 && G.nop2 == 1 && G.o2s == G.size && G.o2m == 0 && AT(G.o2n, G.size) == G.start, "the next block is asked for");
#endif
    POST(OWN(&vp_resp) == 0 || G.arr == 1, "the previous response has been released");
    G.nex++;
    vp_live -= OWN(&vp_resp);
    vp_zero(&vp_resp);
    vp_response();
    unsigned id;
    __CPROVER_assume(id <= 65535);
    m->msg_id = id;
    m->token_len = 4;
    G.ex_ret = vp_nondet_bool() ? 0 : vp_neg();
    return G.ex_ret;
}
#endif
#ifdef VP_BLK1
#define VP_B_coap_client_exchange_blockwise1_0 vp_arrive(&block1_start, &block1_size, &block1_szx, &msg, NULL, &payload_len, &block1_more, &block1_num, &tmp_block_size);
#endif
#ifdef VP_BLK2
#define VP_B_coap_client_exchange_blockwise2_0 vp_arrive(&block2_start, &block2_size, &block2_szx, &msg, &have_resp, &payload_len, &block2_more, &block2_num, &tmp_block_size);
#endif
#ifdef VP_TOP
static ssize_t coap_client_exchange_blockwise1(coap_client_t *client, coap_msg_t *req, coap_msg_t *resp, unsigned block1_size, unsigned block2_size, char *body, size_t body_len)
{
    ssize_t r;
    POST(G.b1 == 0 && G.b2 == 0 && client == &vp_c && req == &vp_req && resp == &vp_resp && block1_size == vp_b1 && block2_size == vp_b2 && body == vp_bodyp && body_len == vp_body_len, "the body is sent first, once");
    G.b1++;
    vp_zero(&vp_resp);
    vp_response();
    __CPROVER_assume(r <= (ssize_t)body_len);
    return G.r1 = r;
}
static ssize_t coap_client_exchange_blockwise2(coap_client_t *client, coap_msg_t *req, coap_msg_t *resp, unsigned block2_size, char *body, size_t body_len, int have_resp)
{
    ssize_t r;
    POST(G.b2 == 0 && client == &vp_c && req == &vp_req && resp == &vp_resp && block2_size == vp_b2 && body == vp_bodyp && body_len == vp_body_len, "the body is received, once");
    G.b2++;
    G.b2_have = have_resp;
    __CPROVER_assume(r <= (ssize_t)body_len);
    return G.r2 = r;
}
#endif
#include "coap_client.c"
#undef memcpy
#undef memmove
/* what one accepted block must have done */
#ifdef VP_BLK1
#define ACCEPT (vp_resp_cls == 2 && (vp_resp_det == 31 || vp_resp_det == 1 || vp_resp_det == 4))
#else
#define ACCEPT (vp_resp_cls == 2 && (vp_req.code_detail == COAP_MSG_GET ? vp_resp_det == 31 || vp_resp_det == 5 : vp_resp_det == 31 || vp_resp_det == 1 || vp_resp_det == 4))
#endif
#if defined(VP_BLK1) || defined(VP_BLK2)
static void vp_arrive(size_t *start, unsigned *size, int *szx, coap_msg_t *msg, int *have, unsigned *a, unsigned *b, unsigned *c, unsigned *d)
{
    G.arr++;
    if (G.arr > 1)
    {
#ifdef VP_BLK1
        size_t n = PLEN;
        POST(G.nex == 1 && G.ex_ret == 0 && G.pr == 0 && AT(G.pn, NEWSIZE) == G.start, "the transfer goes on only after the block sent is confirmed");
        POST(G.start + n < vp_body_len, "and not after the last block");
#else
        size_t n = G.cp_n;
        POST(G.nex == !(G.arr == 2 && G.b2_have) && (G.nex == 0 || G.ex_ret == 0) && G.pr == 0 && AT(G.pn, NEWSIZE) == G.start && G.pm == 1, "the transfer goes on only after the block asked for");
        POST(G.ncopy == 1 && n == NEWSIZE && n == vp_resp_len && G.cp_s == vp_resp_pl && G.cp_d == vp_bodyp + G.start && G.start + n <= vp_body_len, "which has been stored in its place");
        POST(*have == 0, "the next block is asked for");
#endif
        POST(ACCEPT, "and only after a response that says so");
        G.start += n;
        G.size = NEWSIZE;
        POST(OWN(&vp_resp) == 0, "the response has been released");
    }
    POST(*start == G.start && *size == G.size && *szx == SZX(G.size) && SZX(G.size) >= 0 && OWN(msg) == 0 && (AT(1, G.size) - 1 & G.start) == 0 && vp_live == OWN(&vp_req) + OWN(&vp_resp)
         && SZX(vp_b2) >= 0, "the invariant of the transfer");
#ifdef VP_BLK1
    POST(G.start < vp_body_len || vp_body_len == 0, "there is something left to send");
#endif
    if (G.cut)
    {
        if (G.arr > 1) { VP_REACH("next block"); __CPROVER_assume(0); }
        unsigned x;
        if (vp_nondet_bool())
        {   /* a transfer under way */
            *start = G.start; unsigned s = vp_nondet_uint(); size_t st;
            __CPROVER_assume(SZX(s) >= 0 && s <= G.size && st < (1u << 30) && (AT(1, s) - 1 & st) == 0);
#ifdef VP_BLK1
            __CPROVER_assume(st < vp_body_len);
#else
            __CPROVER_assume(st <= vp_body_len);
            *have = 0;
            G.b2_have = 0;
#endif
            *start = G.start = st;
            *size = G.size = s;
            *szx = SZX(s);
            vp_live -= OWN(&vp_resp);
            coap_msg_create(&vp_resp);
        }
        *a = vp_nondet_uint(); *b = vp_nondet_uint(); *c = vp_nondet_uint(); *d = vp_nondet_uint();
    }
    else if (G.arr > 3) __CPROVER_assume(0);
    vp_begin();
}
#endif
void vp_harness(void)
{
    coap_client_t cc;
    vp_c = cc;
    vp_any_msg(&vp_req);
    __CPROVER_assume(vp_req.type == COAP_MSG_CON || vp_req.type == COAP_MSG_NON);
    __CPROVER_assume(vp_req.code_class == 0 && vp_req.code_detail != 0 && vp_req.payload == NULL);
    vp_live = OWN(&vp_req);
    vp_zero(&vp_resp);
    vp_response();
    __CPROVER_assume(vp_body_len <= (1u << 31));
    vp_bodyp = malloc(vp_body_len);
    __CPROVER_assume(vp_bodyp != NULL);
    G.arr = 0;
    G.start = 0;
    G.cut = vp_nondet_bool();
    vp_begin();
#if defined(VP_BLK1)
    G.size = vp_b1;
    coap_msg_t q0 = vp_req;
    ssize_t r = coap_client_exchange_blockwise1(&vp_c, &vp_req, &vp_resp, vp_b1, vp_b2, vp_bodyp, vp_body_len);
    int done = G.nex == 1 && G.ex_ret == 0 && G.pr == 0 && AT(G.pn, NEWSIZE) == G.start && vp_resp.code_class == 2 && (vp_resp.code_detail == 31 || vp_resp.code_detail == 1 || vp_resp.code_detail == 4);
    if (r > 0)
    {
        POST(done && LAST && (size_t)r == vp_body_len, "success means that the whole body has been confirmed");
        VP_REACH("sent");
    }
    else if (r == 0 && G.nex)
    {
        POST(G.ex_ret == 0 && ((done && vp_body_len == 0) || vp_resp.code_class != 2 || (vp_resp.code_detail != 31 && vp_resp.code_detail != 1 && vp_resp.code_detail != 4)), "a response that ends the transfer is handed over");
        VP_REACH("refused");
    }
    else
    {
        POST(r < 0, "failure is reported");
        POST(!done, "a confirmed block does not end the transfer");
        if (G.nex && G.ex_ret < 0) { POST(r == G.ex_ret, "a failed exchange ends the transfer"); VP_REACH("exchange failed"); }
        else if (G.nex) { POST(r == -EBADMSG, "a wrong confirmation ends the transfer"); VP_REACH("wrong confirmation"); }
    }
    POST(r < 0 || (SZX(vp_b1) >= 0 && SZX(vp_b2) >= 0), "only valid block sizes are used");
#elif defined(VP_BLK2)
    G.size = vp_b2;
    int have = vp_nondet_bool();
    G.b2_have = have;
    coap_msg_t q0 = vp_req;
    ssize_t r = coap_client_exchange_blockwise2(&vp_c, &vp_req, &vp_resp, vp_b2, vp_bodyp, vp_body_len, have);
    int got = G.arr && G.nex == !(G.b2_have && G.arr == 1) && (G.nex == 0 || G.ex_ret == 0);
    int acc = got && vp_resp.code_class == 2 && (vp_resp.code_detail == 31 || (vp_req.code_detail == COAP_MSG_GET ? vp_resp.code_detail == 5 : vp_resp.code_detail == 1 || vp_resp.code_detail == 4));
    int ok = acc && G.pr == 0 && AT(G.pn, NEWSIZE) == G.start && vp_resp.payload_len <= NEWSIZE && (!G.pm || vp_resp.payload_len == NEWSIZE);
    if (r >= 0 && got && acc)
    {
        POST(ok && !G.pm && (size_t)r == G.start + vp_resp.payload_len && (size_t)r <= vp_body_len, "success means that the last block has been received");
        POST(G.ncopy == 1 && G.cp_n == vp_resp.payload_len && G.cp_d == vp_bodyp + G.start && G.cp_s == vp_resp.payload, "and stored behind the others");
        VP_REACH("received");
    }
    else if (r >= 0)
    {
        POST(r == 0 && got && !acc && G.ncopy == 0, "a response that ends the transfer is handed over");
        VP_REACH("refused");
    }
    else
    {
        POST(!ok || (r == -ENOSPC && G.start + vp_resp.payload_len > vp_body_len), "the block asked for does not end the transfer unless there is no room");
        POST(G.ncopy == 0, "nothing is stored from a wrong block");
        if (G.nex && G.ex_ret < 0) { POST(r == G.ex_ret, "a failed exchange ends the transfer"); VP_REACH("exchange failed"); }
        else if (got && !ok) { POST(r == -EBADMSG, "a wrong block ends the transfer"); VP_REACH("wrong block"); }
        else if (ok) VP_REACH("no room");
    }
    POST(r < 0 || SZX(vp_b2) >= 0, "only valid block sizes are used");
#else
    coap_msg_t q0 = vp_req;
    G.b1 = G.b2 = 0;
    int have = vp_nondet_bool();
    unsigned det = vp_req.code_detail;
    ssize_t r = coap_client_exchange_blockwise(&vp_c, &vp_req, &vp_resp, vp_b1, vp_b2, vp_bodyp, vp_body_len, have);
    if (det == COAP_MSG_GET) { POST(!G.b1 && G.b2 && r == G.r2 && !!G.b2_have == have, "a GET receives a body"); VP_REACH("GET"); }
    else if (det == COAP_MSG_PUT || det == COAP_MSG_POST)
    {
        POST(G.b1, "a PUT or POST sends its body");
        if (G.r1 <= 0) POST(!G.b2 && r == G.r1, "an incomplete body ends the transfer");
        else if (vp_resp.payload_len == 0) { POST(!G.b2 && r == 0, "without a body in the response the transfer is complete"); VP_REACH("no body"); }
        else { POST(G.b2 && G.b2_have && r == G.r2, "a body in the response is received, beginning with this response"); VP_REACH("body"); }
    }
    else POST(!G.b1 && !G.b2 && r == -EINVAL, "other methods are refused");
    vp_live = OWN(&vp_req) + OWN(&vp_resp);
#endif
    POST(SAME_CODE(&vp_req, &q0) && SAME_CONTENT(&vp_req, &q0) && vp_req.type == q0.type, "the request given is unchanged");
    POST(vp_live == OWN(&vp_req) + OWN(&vp_resp), "nothing is leaked");
}
