/* lib/src/coap_server.c: transaction table, retransmission, waiting, separate-response list. */
#ifdef VP_LISTEN
#define VP_GHOST_X int selects, called[8], cret[8], anyerr, rdy_sd, rdy[8], iter_ok;
#else
#define VP_GHOST_X int body;
#endif
#include "srv_spec.h"
#define memcmp vp_memcmp
static int vp_memcmp(const void *a, const void *b, size_t n)
{
    __CPROVER_assert(n == sizeof(coap_ipv_sockaddr_in_t), "vp_spec: addresses are compared");
    return SINEQ((coap_ipv_sockaddr_in_t *)a, (coap_ipv_sockaddr_in_t *)b) ? 0 : 1;
}
#define memset vp_memset_
static void *vp_memset_(void *p, int c, size_t n)
{
    if (n == sizeof(coap_server_trans_t)) { coap_server_trans_t z = {0}; *(coap_server_trans_t *)p = z; }
    else if (n == sizeof(T->block_uri)) { ((char *)p)[0] = 0; }
    else __CPROVER_assert(0, "vp_spec: memset");
    return p;
}
#define POST(c, t) __CPROVER_assert(c, "vp_post " t)
char vp_large[8];
#ifndef VP_LISTEN
#define vp_body vp_G.body
void coap_mem_large_free(void *b)
{
    __CPROVER_assert(b == vp_large && vp_body == 1, "vp_body: the body of the transaction is released once");
    vp_body = 0;
}
#else
void coap_mem_large_free(void *b) {}
#endif
void *coap_mem_large_alloc(size_t n) { return NULL; }
size_t coap_mem_large_get_len(void) { return 8; }
size_t coap_msg_uri_path_to_str(coap_msg_t *m, char *b, size_t n) { size_t r; return r; }
int snprintf(char *b, size_t n, const char *f, ...) { b[0] = 'B'; b[1] = 0; return 1; }
#ifdef VP_LISTEN
static int coap_server_trans_handle_ack_timeout(coap_server_trans_t *t)
{   /* contract: retransmits or gives up this transaction; may fail */
    unsigned i = t - vp_s.trans;
    int r;
    __CPROVER_assert(i < 8 && t->active && vp_G.rdy[i] && !vp_G.called[i] && !vp_G.anyerr, "vp_req: an expired transaction is handled, once");
    vp_G.called[i] = 1;
    __CPROVER_assume(r <= 0);
    if (r == 0 && vp_nondet_bool()) t->active = 0;
    if (r < 0) vp_G.anyerr = r;
    return r;
}
int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv);
/* descriptor sets as one machine word: descriptors below 64 (FD_SETSIZE is 1024; the macros are uniform) */
#undef FD_ZERO
#undef FD_SET
#undef FD_CLR
#undef FD_ISSET
#define FD_ZERO(s) ((void)((s)->fds_bits[0] = 0))
#define FD_SET(d, s) ((void)((s)->fds_bits[0] |= 1ul << vp_fd(d)))
#define FD_CLR(d, s) ((void)((s)->fds_bits[0] &= ~(1ul << vp_fd(d))))
#define FD_ISSET(d, s) (((s)->fds_bits[0] >> vp_fd(d)) & 1)
static int vp_fd(int d) { __CPROVER_assert(d >= 0 && d < 64, "vp_safe: descriptor in range"); return d & 63; }
#endif
#include "coap_server.c"
#undef memset
#undef memcmp
#ifdef VP_LISTEN
coap_server_t vp_s0;
int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    if (vp_G.selects++ == 1)
    {   /* the next iteration starts: what one iteration must have done.  The state is again one from
         * which an arbitrary iteration is verified, so this covers every number of iterations. */
        int ok = 1;
        for (int i = 0; i < 8; i++) if (vp_s0.trans[i].active && vp_G.rdy[i] && !vp_G.called[i]) ok = 0;
        POST(ok && !vp_G.anyerr && !vp_G.rdy_sd, "every expired transaction has been handled");
        VP_REACH("next iteration");
        __CPROVER_assume(0);
    }
    int ok = FD_ISSET(vp_s.sd, r) && n > vp_s.sd && tv == NULL;
    for (int i = 0; i < 8; i++) if (vp_s.trans[i].active && !(FD_ISSET(vp_s.trans[i].timer_fd, r) && n > vp_s.trans[i].timer_fd)) ok = 0;
    POST(ok, "the server waits for its socket and every timer");
    if (vp_nondet_bool()) { vp_G.anyerr = -1; return vp_seterr(); }
    vp_G.rdy_sd = vp_nondet_bool();
    if (!vp_G.rdy_sd) FD_CLR(vp_s.sd, r);
    for (int i = 0; i < 8; i++)
        if (vp_s.trans[i].active) { vp_G.rdy[i] = vp_nondet_bool(); if (!vp_G.rdy[i]) FD_CLR(vp_s.trans[i].timer_fd, r); }
    return 1;
}
#endif
void vp_harness(void)
{
    coap_server_t s;
    vp_s = s;
    vp_now = vp_nondet_uint();
    vp_nlog = vp_tset = 0;
#if defined(VP_FIND)
    coap_ipv_sockaddr_in_t a;
    vp_from = a;
    for (int i = 0; i < COAP_SERVER_NUM_TRANS; i++) { __CPROVER_assume(vp_s.trans[i].last_use > 0); }
    coap_server_t s0 = vp_s;
    coap_server_trans_t *f = coap_server_find_trans(&vp_s, &a, sizeof(a));
    coap_server_trans_t *e = coap_server_find_empty_trans(&vp_s);
    coap_server_trans_t *o = coap_server_find_oldest_trans(&vp_s);
    int anyf = 0, inf = 0, alla = 1, anya = 0, ine = 0, ino = 0, min = 1;
    for (int i = 0; i < COAP_SERVER_NUM_TRANS; i++)
    {
        coap_server_trans_t *t = &vp_s.trans[i];
        if (t->active && t->client_sin_len == sizeof(a) && SINEQ(&t->client_sin, &a)) { anyf = 1; if (f == t) inf = 1; }
        if (!t->active) { alla = 0; if (e == t) ine = 1; }
        else { anya = 1; if (o == t) { ino = 1; for (int j = 0; j < COAP_SERVER_NUM_TRANS; j++) if (vp_s.trans[j].active && vp_s.trans[j].last_use < t->last_use) min = 0; } }
    }
    POST(anyf ? inf : f == NULL, "a transaction is found iff it is active and has exactly this address");
    POST(alla ? e == NULL : ine, "an empty transaction is found iff there is one");
    POST(!anya || (ino && min), "the oldest transaction is active and none was used longer ago");
    if (f != NULL) VP_REACH("found");
    else VP_REACH("not found");
    if (e == NULL) VP_REACH("full");
    if (e != NULL && o == &vp_s.trans[5]) VP_REACH("not full");
#elif defined(VP_TIMEOUT)
    __CPROVER_assume(vp_s.sd >= 0 && vp_s.sd < 1024);
    T->active = 1;
    T->server = &vp_s;
    T->client_sin_len = sizeof(vp_from);
    vp_from = T->client_sin;
    vp_old_msg(&T->req);
    vp_old_msg(&T->resp);
    T->body = vp_nondet_bool() ? vp_large : NULL;
    vp_body = T->body != NULL;
    vp_live = OWN(&T->req) + OWN(&T->resp);
    vp_tfd_live = 1;
    unsigned sec, ms;
    __CPROVER_assume(sec < 48 && ms < 1000);
    T->timeout.tv_sec = sec;
    T->timeout.tv_nsec = (long)ms * 1000000;
    __CPROVER_assume(T->num_retrans <= 4);
    coap_server_trans_t t0 = *T;
    int r = coap_server_trans_handle_ack_timeout(T);
    if (t0.num_retrans >= 4)
    {
        POST(r == 0 && vp_nlog == 0 && vp_tset == 0 && !T->active, "after four retransmissions the transaction ends");
        VP_REACH("gave up");
    }
    else
    {
        POST(T->active, "the transaction stays");
        POST(vp_nlog <= 1 && (r < 0 || (vp_nlog == 1 && vp_G.log0.ok)), "the response is sent again, or a failure is reported");
        POST(vp_nlog == 0 || (SAME_MSG(&vp_G.log0.m, &t0.resp) && SINEQ(&vp_G.log0.to, &t0.client_sin) && vp_G.log0.sd == vp_s.sd), "exactly the recorded response goes to the same client");
        POST(vp_nlog == 0 || vp_tset == 1, "with a timer for the next one");
        if (vp_tset)
        {
            POST(vp_tset == 1 && vp_tfd == t0.timer_fd && T->num_retrans == t0.num_retrans + 1, "the retransmission is counted");
            POST(vp_timer.tv_sec * 1000 + vp_timer.tv_nsec / 1000000 == 2 * (long)(sec * 1000 + ms) && vp_timer.tv_nsec % 1000000 == 0 && vp_timer.tv_nsec >= 0 && vp_timer.tv_nsec < 1000000000,
                 "the timeout doubles");
            POST(T->timeout.tv_sec == vp_timer.tv_sec && T->timeout.tv_nsec == vp_timer.tv_nsec, "and is remembered");
        }
        else POST(T->num_retrans == t0.num_retrans, "not counted");
        POST(SAME_MSG(&T->req, &t0.req) && SAME_MSG(&T->resp, &t0.resp) && T->type == t0.type, "request and response stay on record");
        if (r == 0) VP_REACH("retransmitted");
        else VP_REACH("failed");
    }
    POST(vp_live == (T->active ? OWN(&T->req) + OWN(&T->resp) : 0) && vp_tfd_live == (T->active != 0) && vp_body == (T->active && T->body != NULL), "nothing leaks");
#elif defined(VP_LISTEN)
    __CPROVER_assume(vp_s.sd >= 0 && vp_s.sd < 64);
    for (int i = 0; i < 8; i++)
    {
        __CPROVER_assume(!vp_s.trans[i].active || vp_s.trans[i].timer_fd >= 0 && vp_s.trans[i].timer_fd < 64 && vp_s.trans[i].timer_fd != vp_s.sd);
        for (int j = 0; j < i; j++) __CPROVER_assume(!vp_s.trans[i].active || !vp_s.trans[j].active || vp_s.trans[i].timer_fd != vp_s.trans[j].timer_fd);
        vp_G.called[i] = vp_G.rdy[i] = 0;
    }
    vp_G.selects = vp_G.anyerr = vp_G.rdy_sd = 0;
    vp_s0 = vp_s;
    int r = coap_server_listen(&vp_s);
    POST(r <= 0, "result");
    POST(r == 0 ? vp_G.rdy_sd && !vp_G.anyerr : vp_G.anyerr != 0, "returns when a datagram waits or with the error");
    if (r == 0)
    {
        int n = 0;
        for (int i = 0; i < 8; i++) n += vp_G.called[i];
        POST(n == 0, "a datagram is served first");
        VP_REACH("datagram");
    }
    else VP_REACH("error");
#elif defined(VP_MSGID)
    __CPROVER_assume(vp_s.msg_id <= 65535);
    unsigned was = vp_s.msg_id;
    unsigned id = coap_server_get_next_msg_id(&vp_s);
    POST(id <= 65535 && vp_s.msg_id == id && (was == 65535 || id == was + 1), "the next message ID in sequence, in 16 bits");
    if (was == 65535) VP_REACH("wrapped");
    else VP_REACH("next");
#endif
}
