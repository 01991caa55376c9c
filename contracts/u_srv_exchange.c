/* lib/src/coap_server.c: coap_server_exchange, one incoming datagram.  All helpers are inlined except
 * the three searches of the transaction table, the path list and the blockwise step, which have
 * contracts of their own. */
#define VP_GHOST_X unsigned h, b; int hret; coap_msg_t hresp, hreq; int evict, body;
#include "srv_spec.h"
#define vp_h vp_G.h             /* calls of the application's handler */
#define vp_b vp_G.b             /* calls of the blockwise step */
#define vp_hret vp_G.hret
#define vp_hresp vp_G.hresp     /* what the handler or the blockwise step put in the response */
#define vp_hreq vp_G.hreq       /* the request it was shown */
#define vp_evict vp_G.evict     /* calls of find_oldest */
#define vp_body vp_G.body       /* large block held by the transaction */
int vp_found;           /* the table holds a transaction with this client */
int vp_full;            /* every transaction is active */
int vp_sep;             /* the path of the request is on the separate response list */
coap_server_trans_t vp_t0;      /* ghost: the transaction before the exchange */
char vp_large[8];
/* contracts of the callees, in executable form */
static coap_server_trans_t *coap_server_find_trans(coap_server_t *server, coap_ipv_sockaddr_in_t *sin, socklen_t n)
{
    __CPROVER_assert(server == &vp_s && n == sizeof(coap_ipv_sockaddr_in_t) && SINEQ(sin, &vp_from), "vp_req: the sender's transaction is looked up");
    return vp_found ? T : NULL;
}
static coap_server_trans_t *coap_server_find_empty_trans(coap_server_t *server)
{
    __CPROVER_assert(server == &vp_s && !vp_found, "vp_req: a new transaction only for a new client");
    return vp_full ? NULL : T;
}
static coap_server_trans_t *coap_server_find_oldest_trans(coap_server_t *server)
{
    __CPROVER_assert(server == &vp_s && !vp_found && vp_full, "vp_req: eviction only from a full table");
    vp_evict++;
    return T;
}
static int coap_server_path_list_match(coap_server_path_list_t *list, const char *str)
{
    __CPROVER_assert(list == &vp_s.sep_list, "vp_req: the separate response list");
    return vp_sep;
}
static void vp_answer(coap_msg_t *req, coap_msg_t *resp)
{
    coap_msg_t r;
    vp_hreq = *req;
    resp->code_class = r.code_class;
    resp->code_detail = r.code_detail;
    resp->msg_id = r.msg_id;
    __CPROVER_assume(resp->code_class <= 7 && resp->code_detail <= 31 && resp->msg_id <= 65535);
    resp->op_list.first = resp->op_list.last = vp_nondet_bool() ? OPID(vp_nondet_uint()) : NULL;
    resp->payload = vp_nondet_bool() ? PLID(vp_nondet_uint()) : NULL;
    resp->payload_len = r.payload_len;
    vp_live += OWN(resp);
    vp_hret = vp_nondet_bool() ? 0 : vp_neg();
    vp_hresp = *resp;
}
static int coap_server_trans_handle_next_block(coap_server_trans_t *trans, coap_msg_t *req, coap_msg_t *resp)
{
    unsigned ty;
    __CPROVER_assert(trans == T && resp->ver == 1 && EMPTY(resp), "vp_req: the client's transaction and a blank response are passed");
    vp_b++;
    vp_answer(req, resp);
    __CPROVER_assume(ty <= 5);
    trans->type = ty;
    return vp_hret;
}
void coap_mem_large_free(void *b)
{
    __CPROVER_assert(b == vp_large && vp_body == 1, "vp_body: the body of the transaction is released once");
    vp_body = 0;
}
void *coap_mem_large_alloc(size_t n) { return NULL; }
size_t coap_mem_large_get_len(void) { return 8; }
size_t coap_msg_uri_path_to_str(coap_msg_t *m, char *b, size_t n) { size_t r; return r; }
int vp_handler(struct coap_server_trans *t, coap_msg_t *req, coap_msg_t *resp)
{
    __CPROVER_assert(t == T, "vp_handler: the client's transaction is passed");
    __CPROVER_assert(resp->ver == 1 && EMPTY(resp), "vp_handler: the response is blank");
    vp_h++;
    vp_answer(req, resp);
    return vp_hret;
}

#ifdef VP_SAFE
#define POST(c, t)
#else
#define POST(c, t) __CPROVER_assert(c, "vp_post " t)
#endif
/* ---- what one exchange must do ---- */
#define CREATED (vp_found || T->active || vp_nlog > 0)  /* there was a transaction to work with */
#define DUP (vp_found && vp_t0.req.ver != 0 && vp_t0.req.msg_id == vp_rx.msg_id && (vp_rx.type == COAP_MSG_CON || vp_rx.type == COAP_MSG_NON))
#define ACKED (vp_found && vp_t0.resp.ver != 0 && vp_t0.resp.msg_id == vp_rx.msg_id && (vp_rx.type == COAP_MSG_ACK || vp_rx.type == COAP_MSG_RST))
#define ISREQ ((vp_rx.type == COAP_MSG_CON || vp_rx.type == COAP_MSG_NON) && vp_rx.code_class == 0 && vp_rx.code_detail != 0)
#define PARSED (vp_consumed == 1 && vp_rx_ret >= 0)
#define FRESHREQ (PARSED && !DUP && !ACKED && ISREQ)
#define SEP (vp_rx.type == COAP_MSG_CON && vp_sep)
#define BAD (vp_rx.op_list.first != NULL && vp_bad != 0)
#define L(i) (&LOG(i).m)
#define EMPTY_OF(i, ty) (L(i)->ver == 1 && L(i)->type == (ty) && L(i)->msg_id == vp_rx.msg_id && EMPTY(L(i)))
#define RESP_IDX (SEP ? 1 : 0)
static int p_dest(void)
{
    unsigned i = vp_nlog > 0 ? vp_nlog - 1 : 0, j = vp_nlog > 1 ? 0 : i;
    return vp_nlog == 0 || (vp_nlog <= 2 && SINEQ(&LOG(i).to, &vp_from) && LOG(i).sd == vp_s.sd && SINEQ(&LOG(j).to, &vp_from) && LOG(j).sd == vp_s.sd);
}
static int p_calls(void)
{   /* the application sees every new request once, and nothing else */
    if (vp_h + vp_b > 1) return 0;
    if (vp_h + vp_b == 1 && !(FRESHREQ && !BAD)) return 0;
    if (vp_h == 1 && vp_found && vp_t0.type != COAP_SERVER_TRANS_REGULAR) return 0;
    if (vp_b == 1 && !(vp_found && vp_t0.type != COAP_SERVER_TRANS_REGULAR)) return 0;
    if (vp_h == 1 && !SAME_MSG(&vp_hreq, &vp_rx)) return 0;
    if (vp_b == 1 && !(vp_hreq.msg_id == vp_rx.msg_id && vp_hreq.type == vp_rx.type && vp_hreq.code_detail == vp_rx.code_detail && vp_hreq.op_list.first == vp_rx.op_list.first)) return 0;
    return 1;
}
static int p_called(int ret)
{   /* a new request is withheld from the application only after a reported failure */
    if (FRESHREQ && !BAD && ret == 0) return vp_h + vp_b == 1;
    return 1;
}
static int p_quiet(void)
{   /* nothing is sent for a duplicate NON, an acknowledgement, a reset or a non-confirmable that is no request */
    if (!vp_consumed) return vp_nlog == 0;
    if (!PARSED)
        return (vp_rx_ret == -EBADMSG && vp_ti_ret == 0 && vp_ti_type == COAP_MSG_CON) ?
            (vp_nlog == 0 || (vp_nlog == 1 && L(0)->ver == 1 && L(0)->type == COAP_MSG_RST && L(0)->msg_id == vp_ti_id && EMPTY(L(0)))) : vp_nlog == 0;
    if (DUP && vp_rx.type == COAP_MSG_NON) return vp_nlog == 0;
    if (DUP) return vp_nlog <= 1;
    if (ACKED) return vp_nlog == 0;
    if (!ISREQ) return vp_rx.type == COAP_MSG_CON ? vp_nlog == 0 || (vp_nlog == 1 && EMPTY_OF(0, COAP_MSG_RST)) : vp_nlog == 0;
    return vp_nlog <= (unsigned)RESP_IDX + 1;
}
static int p_dup(int ret)
{   /* a duplicate CON gets the recorded response again, or another empty acknowledgement */
    if (!(PARSED && DUP)) return 1;
    if (vp_rx.type == COAP_MSG_CON)
    {
        if (ret == 0 && !(vp_nlog == 1 && LOG(0).ok)) return 0;
        if (vp_nlog == 1 && !(vp_sep ? EMPTY_OF(0, COAP_MSG_ACK) : SAME_MSG(L(0), &vp_t0.resp))) return 0;
    }
    if (ret == 0 && !(T->active && SAME_MSG(&T->req, &vp_t0.req) && SAME_MSG(&T->resp, &vp_t0.resp) && vp_tset == 0 && T->type == vp_t0.type)) return 0;
    return 1;
}
static int p_ack(int ret)
{   /* an acknowledgement or reset of the last response stops its retransmission */
    if (!(PARSED && ACKED)) return 1;
    if (ret == 0) return vp_tset == 1 && vp_tfd == vp_t0.timer_fd && vp_timer.tv_sec == 0 && vp_timer.tv_nsec == 0 && T->num_retrans == 0 && T->active
        && SAME_MSG(&T->req, &vp_t0.req) && SAME_MSG(&T->resp, &vp_t0.resp) && T->type == vp_t0.type;
    return !T->active;
}
static int p_sepack(void)
{   /* a separate response is preceded by an empty acknowledgement */
    if (!(FRESHREQ && SEP)) return 1;
    if (vp_nlog == 0) return vp_h + vp_b == 0;
    return EMPTY_OF(0, COAP_MSG_ACK) && (LOG(0).ok || (vp_nlog == 1 && vp_h + vp_b == 0));
}
static int p_resp(void)
{   /* the response: token of the request; ACK with its ID when piggy-backed, CON when separate, NON to a NON */
    if (!(FRESHREQ && vp_nlog == (unsigned)RESP_IDX + 1)) return 1;
    coap_msg_t *r = L(RESP_IDX);
    if (r->ver != 1 || r->token_len != vp_rx.token_len || !TOKPFX(r->token, vp_rx.token, vp_rx.token_len)) return 0;
    if (vp_rx.type == COAP_MSG_NON) { if (r->type != COAP_MSG_NON) return 0; }
    else if (SEP) { if (r->type != COAP_MSG_CON) return 0; }
    else if (r->type != COAP_MSG_ACK || r->msg_id != vp_rx.msg_id) return 0;
    if (r->msg_id > 65535) return 0;
    if (BAD) return vp_h + vp_b == 0 && r->code_class == 4 && r->code_detail == 2 && r->op_list.first == NULL;
    return vp_h + vp_b == 1 && vp_hret == 0 && SAME_CODE(r, &vp_hresp) && SAME_CONTENT(r, &vp_hresp);
}
unsigned vp_id0;
static int p_msgid(void)
{   /* message IDs chosen by the server: the next in sequence, restarting at a random one */
    if (!(FRESHREQ && vp_nlog == (unsigned)RESP_IDX + 1) || (vp_rx.type == COAP_MSG_CON && !SEP)) return vp_s.msg_id == vp_id0 || FRESHREQ;
    return L(RESP_IDX)->msg_id == vp_s.msg_id && (vp_id0 >= 65535 || vp_s.msg_id == vp_id0 + 1);
}
static int p_done(int ret)
{   /* after a completed exchange request and response are remembered, and a CON response is timed */
    if (!(FRESHREQ && ret == 0)) return 1;
    if (!(vp_nlog == (unsigned)RESP_IDX + 1 && LOG(RESP_IDX).ok)) return 0;
    if (!(T->active && SAME_MSG(&T->req, &vp_rx) && SAME_MSG(&T->resp, L(RESP_IDX)))) return 0;
    if (SEP) return vp_tset >= 1 && vp_tfd == T->timer_fd && vp_timer.tv_sec == 2 && vp_timer.tv_nsec >= 0 && vp_timer.tv_nsec <= 999999999
        && T->timeout.tv_sec == vp_timer.tv_sec && T->timeout.tv_nsec == vp_timer.tv_nsec && T->num_retrans == 0;
    return 1;
}
static int p_stop(int ret)
{   /* what takes the place of an unacknowledged separate response is not retransmitted in its stead */
    if (!(FRESHREQ && ret == 0 && vp_found) || SEP || vp_t0.resp.type != COAP_MSG_CON || vp_t0.resp.ver == 0) return 1;
    return vp_tset >= 1 && vp_timer.tv_sec == 0 && vp_timer.tv_nsec == 0 && vp_tfd == vp_t0.timer_fd;
}
static int p_owner(void)
{   /* nothing leaks and nothing is released twice */
    return vp_live == (T->active ? OWN(&T->req) + OWN(&T->resp) : 0) && vp_tfd_live == (T->active ? 1 : 0)
        && vp_body == (T->active && T->body != NULL);
}
static int p_trans(int ret)
{   /* the transaction belongs to the sender; it is given up only with an error */
    if (T->active && !(SINEQ(&T->client_sin, &vp_from) && T->client_sin_len == sizeof(vp_from) && T->server == &vp_s) && vp_consumed) return 0;
    if (ret == 0 && vp_consumed && !T->active) return 0;
    if (vp_found && !(vp_consumed) && T->active && !(SAME_MSG(&T->req, &vp_t0.req) && SAME_MSG(&T->resp, &vp_t0.resp))) return 0;
    return vp_evict == 0 || (!vp_found && vp_full);
}
static int p_touch(int ret) { return !(ret == 0 && PARSED) || T->last_use == vp_now; }
static int p_err(int ret)
{   /* a failure to send is reported */
    if (PARSED && ISREQ && vp_nlog > 0 && !LOG(vp_nlog - 1).ok) return ret < 0 && !T->active;
    return 1;
}
#define memcmp vp_memcmp
static int vp_memcmp(const void *a, const void *b, size_t n)
{
    __CPROVER_assert(n == sizeof(coap_ipv_sockaddr_in_t), "vp_spec: addresses are compared");
    return SINEQ((coap_ipv_sockaddr_in_t *)a, (coap_ipv_sockaddr_in_t *)b) ? 0 : 1;
}
#define memset vp_memset_
static void *vp_memset_(void *p, int c, size_t n)
{
    if (n == sizeof(coap_server_trans_t)) { coap_server_trans_t z = {0}; *(coap_server_trans_t *)p = z; }
    else if (n == sizeof(T->block_uri)) { ((char *)p)[0] = 0; }
    else __CPROVER_assert(0, "vp_spec: memset");
    return p;
}
#define memcpy vp_memcpy_
static void *vp_memcpy_(void *d, const void *s, size_t n)
{
    __CPROVER_assert(n == sizeof(coap_ipv_sockaddr_in_t), "vp_spec: addresses are copied");
    *(coap_ipv_sockaddr_in_t *)d = *(coap_ipv_sockaddr_in_t *)s;
    return d;
}
int snprintf(char *b, size_t n, const char *f, ...) { b[0] = 'B'; b[1] = 0; return 1; }
#include "coap_server.c"
#undef memset
#undef memcpy
coap_server_t vp_s0;
#define F1(i, f) (vp_s.trans[i].f == vp_s0.trans[i].f)
#define UNCH(i) ((i) == VP_K || (F1(i, active) && F1(i, type) && F1(i, last_use) && F1(i, timer_fd) && F1(i, timeout.tv_sec) && F1(i, timeout.tv_nsec) && \
    F1(i, num_retrans) && F1(i, client_sin_len) && SINEQ(&vp_s.trans[i].client_sin, &vp_s0.trans[i].client_sin) && F1(i, body) && F1(i, body_len) && \
    F1(i, body_end) && F1(i, block1_size) && F1(i, block2_size) && F1(i, block1_next) && F1(i, block2_next) && F1(i, block_detail) && F1(i, block_rx) && \
    F1(i, server) && SAME_MSG(&vp_s.trans[i].req, &vp_s0.trans[i].req) && SAME_MSG(&vp_s.trans[i].resp, &vp_s0.trans[i].resp)))
void vp_harness(void)
{
    coap_server_t s;
    vp_s = s;
    vp_k = vp_nondet_uint();
    __CPROVER_assume(vp_k < COAP_SERVER_NUM_TRANS);
    vp_s.handle = vp_handler;
    __CPROVER_assume(vp_s.sd >= 0 && vp_s.sd < 1024);
    vp_sep = vp_nondet_bool();
    vp_full = vp_nondet_bool();
    vp_found = vp_nondet_bool();
    vp_queued = 1;
    vp_now = vp_nondet_uint();
    __CPROVER_assume(vp_now > 0);
    vp_bad = vp_nondet_uint();
    vp_ti_type = vp_nondet_uint(); vp_ti_id = vp_nondet_uint(); vp_ti_ret = vp_nondet_int();
    __CPROVER_assume(vp_ti_type <= 3 && vp_ti_id <= 65535 && (vp_ti_ret == 0 || vp_ti_ret == -EBADMSG));
    vp_rx_ret = vp_nondet_int();
    __CPROVER_assume(vp_rx_ret == 0 || vp_rx_ret == -EBADMSG || vp_rx_ret == -ENOMEM || vp_rx_ret == -EINVAL);
    vp_any_msg(&vp_rx);
    coap_ipv_sockaddr_in_t f;
    vp_from = f;
    vp_nlog = vp_consumed = vp_tset = vp_h = vp_b = vp_evict = vp_live = vp_tfd_live = vp_body = 0;
    if (vp_found || vp_full)
    {   /* an active transaction of this client, or of another one that may be evicted */
        T->active = 1;
        T->server = &vp_s;
        T->client_sin_len = sizeof(f);
        if (vp_found) T->client_sin = vp_from;
        vp_old_msg(&T->req);
        vp_old_msg(&T->resp);
        T->body = vp_nondet_bool() ? vp_large : NULL;
        vp_body = T->body != NULL;
        unsigned ty;
        __CPROVER_assume(ty <= 5);
        T->type = ty;
        __CPROVER_assume(T->num_retrans <= 4);
        vp_live = OWN(&T->req) + OWN(&T->resp);
        vp_tfd_live = 1;
    }
    else { coap_server_trans_t z = {0}; *T = z; }
    vp_t0 = *T;
    vp_id0 = vp_s.msg_id;
    __CPROVER_assume(vp_id0 <= 65535);
    vp_s0 = vp_s;
    int sd0 = vp_s.sd;
    int r = coap_server_exchange(&vp_s);
    POST(p_dest(), "dest");
    POST(p_calls(), "calls");
    POST(p_called(r), "called");
    POST(p_quiet(), "quiet");
    POST(p_dup(r), "dup");
    POST(p_ack(r), "ack");
    POST(p_sepack(), "sepack");
    POST(p_resp(), "resp");
    POST(p_msgid(), "msgid");
    POST(p_done(r), "done");
    POST(p_stop(r), "stop");
    POST(p_owner(), "owner");
    POST(p_trans(r), "trans");
    POST(p_touch(r), "touch");
    POST(p_err(r), "err");
    POST(UNCH(0) && UNCH(1) && UNCH(2) && UNCH(3) && UNCH(4) && UNCH(5) && UNCH(6) && UNCH(7) && vp_s.sd == sd0 && vp_s.handle == vp_handler, "frame: no other transaction changes");
    if (r == 0 && FRESHREQ && SEP) VP_REACH("separate response");
    if (r == 0 && FRESHREQ && !SEP && vp_rx.type == COAP_MSG_CON && vp_h) VP_REACH("piggy-backed response");
    if (r == 0 && FRESHREQ && vp_rx.type == COAP_MSG_NON && vp_b) VP_REACH("blockwise step");
    if (r == 0 && FRESHREQ && BAD) VP_REACH("bad option");
    if (r == 0 && PARSED && DUP) VP_REACH("duplicate");
    if (r == 0 && PARSED && ACKED) VP_REACH("acknowledged");
    if (r < 0 && PARSED && !ISREQ && vp_nlog) VP_REACH("rejected");
    if (r < 0 && !PARSED && vp_nlog) VP_REACH("malformed");
    if (vp_evict) VP_REACH("evicted");
}
