/* The message interface as seen by the server and client code, in executable form.  The option
 * list and the payload of a message are opaque here: op_list.first and payload are identities of
 * content (NULL: none), so equal identity means equal content.  The code of coap_msg.c is verified
 * against these statements by the message units (C02, C03, C05, C07, C09).  Any call that may run
 * out of memory may fail. */
#ifndef AMSG_SPEC_H
#define AMSG_SPEC_H
#include "vp.h"
#include "coap_msg.h"
#include "coap_mem.h"
#include "coap_log.h"
static int vp_nondet_bool(void) { _Bool b; return b ? 1 : 0; }
static unsigned vp_nondet_uint(void) { unsigned b; return b; }
static int vp_nondet_int(void) { int b; return b; }
static int vp_neg(void) { int b; __CPROVER_assume(b < 0 && b >= -4095); return b; }
#ifndef VP_GHOST
#define VP_GHOST
#endif
struct { int err, live; VP_GHOST } vp_G;       /* all ghost state that the code may change */
#define vp_errno vp_G.err
#define vp_live vp_G.live                      /* option lists and payloads owned by messages */
#undef errno
#define errno vp_errno
static int vp_seterr(void) { int e; __CPROVER_assume(e > 0 && e < 4096); vp_errno = e; return -1; }
size_t vp_g;

char vp_content[256];           /* identities of contents */
#define OWN(m) (((m)->op_list.first != NULL) + ((m)->payload != NULL))
#define OPID(k) ((coap_msg_op_t *)&vp_content[(k) & 63])
#define PLID(k) (&vp_content[64 + ((k) & 63)])
#define TOKEQ(a, b) ((a)[0] == (b)[0] && (a)[1] == (b)[1] && (a)[2] == (b)[2] && (a)[3] == (b)[3] && \
    (a)[4] == (b)[4] && (a)[5] == (b)[5] && (a)[6] == (b)[6] && (a)[7] == (b)[7])
#define TOKPFX1(a, b, n, i) ((n) <= (i) || (a)[i] == (b)[i])
#define TOKPFX(a, b, n) (TOKPFX1(a, b, n, 0) && TOKPFX1(a, b, n, 1) && TOKPFX1(a, b, n, 2) && TOKPFX1(a, b, n, 3) && \
    TOKPFX1(a, b, n, 4) && TOKPFX1(a, b, n, 5) && TOKPFX1(a, b, n, 6) && TOKPFX1(a, b, n, 7))
#define SAME_CODE(m, n) ((m)->code_class == (n)->code_class && (m)->code_detail == (n)->code_detail)
#define SAME_CONTENT(m, n) ((m)->op_list.first == (n)->op_list.first && (m)->payload == (n)->payload && (m)->payload_len == (n)->payload_len)
#define SAME_MSG(m, n) ((m)->ver == (n)->ver && (m)->type == (n)->type && (m)->msg_id == (n)->msg_id && (m)->token_len == (n)->token_len && \
    TOKPFX((m)->token, (n)->token, (m)->token_len) && SAME_CODE(m, n) && SAME_CONTENT(m, n))
#define EMPTY(m) ((m)->code_class == 0 && (m)->code_detail == 0 && (m)->token_len == 0 && (m)->op_list.first == NULL && (m)->payload == NULL)

static void vp_zero(coap_msg_t *m)
{
    coap_msg_t z = {0};
    *m = z;
}
void coap_msg_create(coap_msg_t *m) { vp_zero(m); m->ver = 1; }
void coap_msg_destroy(coap_msg_t *m) { vp_live -= OWN(m); vp_zero(m); }
void coap_msg_reset(coap_msg_t *m) { vp_live -= OWN(m); vp_zero(m); m->ver = 1; }
int coap_msg_set_type(coap_msg_t *m, unsigned t) { if (t > 3) return -EINVAL; m->type = t; return 0; }
int coap_msg_set_code(coap_msg_t *m, unsigned c, unsigned d)
{
    if (c > 7 || d > 31) return -EINVAL;
    m->code_class = c;
    m->code_detail = d;
    return 0;
}
int coap_msg_set_msg_id(coap_msg_t *m, unsigned id) { if (id > 65535) return -EINVAL; m->msg_id = id; return 0; }
int coap_msg_set_token(coap_msg_t *m, char *b, size_t n)
{
    if (n > 8) return -EINVAL;
    if (n > 0) m->token[0] = b[0];
    if (n > 1) m->token[1] = b[1];
    if (n > 2) m->token[2] = b[2];
    if (n > 3) m->token[3] = b[3];
    if (n > 4) m->token[4] = b[4];
    if (n > 5) m->token[5] = b[5];
    if (n > 6) m->token[6] = b[6];
    if (n > 7) m->token[7] = b[7];
    m->token_len = n;
    return 0;
}
#ifndef VP_OWN_PAYLOAD
int coap_msg_set_payload(coap_msg_t *m, char *b, size_t n)
{
    vp_live -= (m->payload != NULL);
    m->payload = NULL;
    m->payload_len = 0;
    if (n > 0)
    {
        if (vp_nondet_bool()) return -ENOMEM;
        m->payload = PLID(vp_nondet_uint());
        m->payload_len = n;
        vp_live++;
    }
    return 0;
}
#endif
void coap_msg_clear_payload(coap_msg_t *m)
{
    vp_live -= (m->payload != NULL);
    m->payload = NULL;
    m->payload_len = 0;
}
int coap_msg_copy(coap_msg_t *d, coap_msg_t *s)
{
    __CPROVER_assert(OWN(d) == 0, "vp_copy: the target of a copy is empty");
    d->ver = s->ver;
    d->type = s->type;
    d->code_class = s->code_class;
    d->code_detail = s->code_detail;
    d->msg_id = s->msg_id;
    coap_msg_set_token(d, s->token, s->token_len);
    if (vp_nondet_bool())
    {   /* out of memory part way */
        if (s->op_list.first != NULL && vp_nondet_bool()) { d->op_list.first = d->op_list.last = OPID(vp_nondet_uint()); vp_live++; }
        return -ENOMEM;
    }
    d->op_list = s->op_list;
    d->payload = s->payload;
    d->payload_len = s->payload_len;
    vp_live += OWN(d);
    return 0;
}
void coap_msg_gen_rand_str(char *b, size_t n)
{
    char c[8];
    __CPROVER_assert(n <= 8, "vp_spec: random string length");
    if (n > 0) b[0] = c[0];
    if (n > 1) b[1] = c[1];
    if (n > 2) b[2] = c[2];
    if (n > 3) b[3] = c[3];
    if (n > 4) b[4] = c[4];
    if (n > 5) b[5] = c[5];
    if (n > 6) b[6] = c[6];
    if (n > 7) b[7] = c[7];
    }
/* what the parser makes of the next datagram */
coap_msg_t vp_rx;
int vp_rx_ret;                  /* parse result: 0, or an error */
#ifndef VP_OWN_PARSE
ssize_t coap_msg_parse(coap_msg_t *m, char *b, size_t n)
{
    __CPROVER_assert(OWN(m) == 0 || vp_live > 0, "vp_spec");
    coap_msg_reset(m);
    if (vp_rx_ret < 0) return vp_rx_ret;
    *m = vp_rx;
    vp_live += OWN(m);
    return 0;
}
#endif
static void vp_any_msg(coap_msg_t *m)
{   /* an accepted message: RFC 7252 section 3 and 4 */
    coap_msg_t r;
    unsigned t;
    *m = r;
    m->ver = 1;
    __CPROVER_assume(t <= 3);
    m->type = t;
    __CPROVER_assume(m->token_len <= 8 && m->code_class <= 7 && m->code_detail <= 31 && m->msg_id <= 65535 && m->payload_len <= 65535);
    __CPROVER_assume(m->code_class == 0 || m->code_class == 2 || m->code_class == 4 || m->code_class == 5);
    m->op_list.first = m->op_list.last = vp_nondet_bool() ? OPID(vp_nondet_uint()) : NULL;
    m->payload = m->payload_len ? PLID(vp_nondet_uint()) : NULL;
    __CPROVER_assume(!(m->code_class == 0 && m->code_detail == 0) || (m->token_len == 0 && m->op_list.first == NULL && m->payload == NULL));
    __CPROVER_assume(m->type != COAP_MSG_RST || (m->code_class == 0 && m->code_detail == 0));
    __CPROVER_assume(m->type != COAP_MSG_NON || !(m->code_class == 0 && m->code_detail == 0));
}
static void vp_old_msg(coap_msg_t *m)
{   /* a message remembered earlier, or none */
    if (vp_nondet_bool()) vp_zero(m);
    else vp_any_msg(m);
}
/* logging has no effect */
void coap_log_error(const char *m, ...) {}
void coap_log_warn(const char *m, ...) {}
void coap_log_notice(const char *m, ...) {}
void coap_log_info(const char *m, ...) {}
void coap_log_debug(const char *m, ...) {}
#endif
