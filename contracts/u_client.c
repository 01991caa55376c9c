/* lib/src/coap_client.c: one exchange.  The whole of coap_client_exchange with everything it calls is
 * executed from an arbitrary client and request; the cut point is the wait in select(): when the code
 * waits, the state is checked against the waiting invariant and replaced by an arbitrary state that
 * satisfies it, then one arbitrary event is handled; the next wait (or the return) must satisfy the
 * statement about that event.  So the statements hold for exchanges with any number of events. */
#include <stdlib.h>
#include <stdio.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <netdb.h>
#include <sys/socket.h>
#include <sys/timerfd.h>
#include <sys/select.h>
#include "vp.h"
#include "coap_client.h"
#define VP_GHOST \
    coap_msg_t fmt; char *fmt_buf; ssize_t fmt_len;     /* the message formatted last */ \
    coap_msg_t sent; int nsent, sent_ok;                /* messages sent since the event began */ \
    int phase;                                          /* 0: nothing sent, 1: waiting for an acknowledgement, 2: for a separate response, 3: for the response to a non-confirmable request */ \
    int ev;                                             /* 0 none, 1 select failed, 2 datagram, 3 timer, 4 neither */ \
    int rcv;                                            /* 0 none, 1 error, 2 try again, 3 no message, 4 message */ \
    int nrecv, parse_err; \
    int tset, tok; struct timespec timer;               /* timer settings since the event began, successful ones */ \
    unsigned long base;                                 /* first acknowledgement timeout (ms) */ \
    unsigned retrans0; unsigned long tmo0;              /* at the start of the event */ \
    int fmtfail;                                        /* messages that could not be formatted since the event began */
#define VP_OWN_PARSE
#include "amsg_spec.h"
#define G vp_G
#define POST(c, t) __CPROVER_assert(c, "vp_post " t)
coap_client_t vp_c;
coap_msg_t vp_req, vp_resp, vp_req0;    /* request, response; the request as first sent */
#define MS(t) ((unsigned long)(t).tv_sec * 1000 + (unsigned long)(t).tv_nsec / 1000000)
ssize_t coap_msg_format(coap_msg_t *m, char *b, size_t n)
{
    ssize_t r;
    if (vp_nondet_bool()) { G.fmtfail++; return vp_neg(); }
    __CPROVER_assume(r >= 4 && (size_t)r <= n);
    G.fmt = *m;
    G.fmt_buf = b;
    G.fmt_len = r;
    return r;
}
ssize_t send(int sd, const void *b, size_t n, int fl)
{
    POST(b == G.fmt_buf && n == (size_t)G.fmt_len && sd == vp_c.sd, "exactly the formatted message is sent, to the server");
    G.nsent++;
    G.sent = G.fmt;
    G.sent_ok = !vp_nondet_bool();
    return G.sent_ok ? (ssize_t)n : vp_seterr();
}
ssize_t sendto(int sd, const void *b, size_t n, int fl, const struct sockaddr *to, socklen_t tl) { return send(sd, b, n, fl); }
unsigned vp_bad;
unsigned coap_msg_check_critical_ops(coap_msg_t *m) { return m->op_list.first == NULL ? 0 : vp_bad; }
unsigned coap_msg_check_unsafe_ops(coap_msg_t *m) { return m->op_list.first == NULL ? 0 : vp_bad; }
int vp_ti_ret;
unsigned vp_ti_type, vp_ti_id;
int coap_msg_parse_type_msg_id(char *b, size_t n, unsigned *t, unsigned *id)
{
    if (vp_ti_ret < 0) return vp_ti_ret;
    *t = vp_ti_type;
    *id = vp_ti_id;
    return 0;
}
ssize_t recv(int sd, void *b, size_t n, int fl)
{
    ssize_t r;
    POST(sd == vp_c.sd && fl == 0, "the client reads from its socket");
    POST(G.ev == 2 && G.nrecv == 0, "one datagram is read, when there is one");
    __CPROVER_assert(__CPROVER_w_ok(b, n), "vp_safe: receive buffer");
    G.nrecv++;
    G.rcv = 1;
    if (vp_nondet_bool()) { vp_seterr(); if (vp_errno == EAGAIN) G.rcv = 2; return -1; }
    __CPROVER_assume(r >= 0 && (size_t)r <= n);
    return r;
}
ssize_t coap_msg_parse(coap_msg_t *m, char *b, size_t n)
{
    coap_msg_reset(m);
    if (vp_nondet_bool())
    {
        G.rcv = 3;
        G.parse_err = vp_nondet_bool() ? -EBADMSG : vp_neg();
        __CPROVER_assume(G.parse_err != -EAGAIN);
        return G.parse_err;
    }
    G.rcv = 4;
    vp_any_msg(&vp_rx);
    *m = vp_rx;
    vp_live += OWN(m);
    return 0;
}
int timerfd_settime(int fd, int fl, const struct itimerspec *n, struct itimerspec *o)
{
    POST(fd == vp_c.timer_fd && fl == 0 && n->it_interval.tv_sec == 0 && n->it_interval.tv_nsec == 0, "one-shot relative timer");
    G.tset++;
    G.timer = n->it_value;
    if (vp_nondet_bool()) { vp_seterr(); __CPROVER_assume(vp_errno != ETIMEDOUT); return -1; }  /* timerfd_settime(2) has no such error */
    G.tok++;
    return 0;
}
time_t time(time_t *t) { time_t r; return r; }
int rand(void) { int r; __CPROVER_assume(r >= 0); return r; }
void srand(unsigned s) {}
int close(int fd) { return 0; }
int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv);
/* descriptor sets as one machine word: descriptors below 64 (FD_SETSIZE is 1024; the macros are uniform) */
#undef FD_ZERO
#undef FD_SET
#undef FD_CLR
#undef FD_ISSET
#define FD_ZERO(s) ((void)((s)->fds_bits[0] = 0))
#define FD_SET(d, s) ((void)((s)->fds_bits[0] |= 1ul << vp_fd(d)))
#define FD_CLR(d, s) ((void)((s)->fds_bits[0] &= ~(1ul << vp_fd(d))))
#define FD_ISSET(d, s) (((s)->fds_bits[0] >> vp_fd(d)) & 1)
static int vp_fd(int d) { __CPROVER_assert(d >= 0 && d < 64, "vp_safe: descriptor in range"); return d & 63; }
#define memcmp vp_memcmp
static int vp_memcmp(const void *a, const void *b, size_t n)
{
    __CPROVER_assert(n <= 8, "vp_spec: tokens are compared");
    return TOKPFX((const char *)a, (const char *)b, n) ? 0 : 1;
}
#ifdef VP_CON
int vp_seps, vp_sep_ret;
static int coap_client_exchange_sep(coap_client_t *c, coap_msg_t *req, coap_msg_t *resp)
{   /* the wait for a separate response is a unit of its own (VP_SEP) */
    __CPROVER_assert(c == &vp_c && req == &vp_req && resp == &vp_resp, "vp_spec: same exchange");
    vp_seps++;
    vp_sep_ret = vp_nondet_bool() ? 0 : vp_neg();
    return vp_sep_ret;
}
#endif
#ifdef VP_NON
static int coap_client_exchange_con(coap_client_t *c, coap_msg_t *req, coap_msg_t *resp)
{
    POST(0, "only a confirmable request waits for an acknowledgement");
    return 0;
}
#endif
#include "coap_client.c"
#undef memcmp
/* the event just handled */
#define ID_EQ (vp_rx.msg_id == vp_req0.msg_id)
#define TOK_EQ (vp_rx.token_len == vp_req0.token_len && TOKPFX(vp_rx.token, vp_req0.token, vp_req0.token_len))
#define BAD_OPT (vp_rx.op_list.first != NULL && vp_bad != 0)
#define IS_EMPTY (vp_rx.code_class == 0 && vp_rx.code_detail == 0)
#define SENT_EMPTY(t, id) (G.sent.type == (t) && G.sent.msg_id == (id) && EMPTY(&G.sent) && G.sent.ver == 1)
#define SAME_REQ(m) SAME_MSG(m, &vp_req0)
#define LIVE (vp_live == OWN(&vp_req) + OWN(&vp_resp))
#define NOTHING (G.nsent == 0 && G.tset == 0)
/* what a received message means (phase: when it was received) */
#define RESET_BY (ID_EQ && vp_rx.type == COAP_MSG_RST)
#define PIGGY (G.phase == 1 && ID_EQ && vp_rx.type == COAP_MSG_ACK && !IS_EMPTY && TOK_EQ)
#define BARE_ACK (G.phase == 1 && ID_EQ && vp_rx.type == COAP_MSG_ACK && IS_EMPTY)
#define DUP_ACK (G.phase == 2 && ID_EQ && vp_rx.type == COAP_MSG_ACK)
#define SEP (!ID_EQ && TOK_EQ)
#define UNRELATED (!ID_EQ && !TOK_EQ)
/* rejecting a message: a confirmable one is reset */
#define REJECTED (vp_rx.type == COAP_MSG_CON ? G.nsent <= 1 && (G.nsent == 0 || SENT_EMPTY(COAP_MSG_RST, vp_rx.msg_id)) : G.nsent == 0)
#define REJECTED_OK (vp_rx.type == COAP_MSG_CON ? G.nsent == 1 && G.sent_ok && SENT_EMPTY(COAP_MSG_RST, vp_rx.msg_id) : G.nsent == 0)
static void vp_begin_event(void)
{
    G.nsent = G.tset = G.tok = G.nrecv = G.fmtfail = 0;
    G.rcv = 0;
}
int vp_waits;
int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    POST(FD_ISSET(vp_c.sd, r) && FD_ISSET(vp_c.timer_fd, r) && n > vp_c.sd && n > vp_c.timer_fd && tv == NULL, "the client waits for its socket and its timer");
    POST(LIVE, "the messages own what is allocated");
    int next = 0;
    if (G.phase == 0)
    {   /* the first wait */
        vp_req0 = vp_req;
#ifdef VP_SEP
        POST(G.nsent == 0, "the request is not sent again once acknowledged");
        G.phase = 2;
#else
        POST(G.nsent == 1 && G.sent_ok && SAME_REQ(&G.sent), "the request is sent once, as given, before waiting");
        G.phase = vp_req.type == COAP_MSG_CON ? 1 : 3;
#endif
        POST(G.tset == 1, "a timer is started");
        if (G.phase == 1)
        {
            G.base = MS(G.timer);
            POST(G.base >= 2000 && G.base < 3000 && vp_c.num_retrans == 0 && MS(vp_c.timeout) == G.base, "with ACK_TIMEOUT to 1.5 times ACK_TIMEOUT");
        }
        else POST(MS(G.timer) == 30000, "with the response timeout");
        next = 1;
    }
    else
    {   /* one event has been handled and the exchange goes on */
        POST(SAME_REQ(&vp_req), "the request is unchanged");
        if (G.ev == 3)
        {
            POST(G.phase == 1 && G.retrans0 < 4, "only an unacknowledged request goes on after its timeout, four times");
            POST(G.nsent == 1 && G.sent_ok && SAME_REQ(&G.sent), "the same request is sent again, once");
            POST(G.tset == 1 && G.tok == 1 && vp_c.num_retrans == G.retrans0 + 1 && MS(G.timer) == 2 * G.tmo0, "with the timeout doubled");
#ifdef VP_CON
            VP_REACH("retransmission");
#endif
        }
        else if (G.ev == 2)
        {
            if (G.rcv == 2) POST(NOTHING, "no datagram after all: nothing happens");
            else
            {
                POST(G.rcv == 4, "an error ends the exchange");
                POST(BARE_ACK || DUP_ACK || UNRELATED, "only an acknowledgement or an unrelated message lets the exchange go on");
                if (BARE_ACK) POST(0, "an acknowledgement ends the wait for it");
                else if (DUP_ACK)
                {
                    POST(NOTHING, "a duplicate acknowledgement is ignored");
#ifdef VP_SEP
                    VP_REACH("duplicate acknowledgement");
#endif
                }
                else { POST(REJECTED_OK && G.tset == 0, "an unrelated message is rejected"); VP_REACH("unrelated"); }
            }
        }
        else POST(G.ev == 4 && NOTHING, "nothing happened, nothing is done");
        if (G.phase == 1) POST(MS(vp_c.timeout) == G.base << vp_c.num_retrans && vp_c.num_retrans <= 4, "the waiting invariant is kept");
        if (!next) { VP_REACH("goes on"); __CPROVER_assume(0); }
    }
    /* an arbitrary waiting state */
    if (G.phase == 1)
    {
        unsigned k;
        __CPROVER_assume(k <= 4);
        vp_c.num_retrans = k;
        unsigned long t = G.base << k;
        vp_c.timeout.tv_sec = t / 1000;
        vp_c.timeout.tv_nsec = (t % 1000) * 1000000;
    }
    vp_live -= OWN(&vp_resp);
    vp_old_msg(&vp_resp);
    vp_live += OWN(&vp_resp);
    vp_begin_event();
    G.retrans0 = vp_c.num_retrans;
    G.tmo0 = MS(vp_c.timeout);
    /* an arbitrary event */
    G.ev = 1;
    if (vp_nondet_bool()) { return vp_seterr(); }
    int s = vp_nondet_bool(), t = vp_nondet_bool();
    G.ev = s ? 2 : t ? 3 : 4;
    if (!s) FD_CLR(vp_c.sd, r);
    if (!t) FD_CLR(vp_c.timer_fd, r);
    return 1;
}
void vp_harness(void)
{
    coap_client_t c;
    coap_msg_t req, r0;
    vp_c = c;
    __CPROVER_assume(vp_c.sd >= 0 && vp_c.sd < 64 && vp_c.timer_fd >= 0 && vp_c.timer_fd < 64 && vp_c.sd != vp_c.timer_fd);
    vp_any_msg(&vp_req);
#if defined(VP_CON)
    vp_req.type = COAP_MSG_CON;
    vp_seps = 0;
#elif defined(VP_NON)
    unsigned ty;
    __CPROVER_assume(ty <= 3 && ty != COAP_MSG_CON);
    vp_req.type = ty;
#else
    vp_req.type = COAP_MSG_CON;
    __CPROVER_assume(vp_req.code_class == 0 && vp_req.code_detail != 0 && vp_req.token_len == 4);
#endif
    r0 = vp_req;
    vp_old_msg(&vp_resp);
    vp_live = OWN(&vp_req) + OWN(&vp_resp);
    __CPROVER_assume(vp_ti_ret <= 0 && vp_ti_type <= 3 && vp_ti_id <= 65535);
    G.phase = G.ev = 0;
    vp_begin_event();
#ifdef VP_SEP
    int r = coap_client_exchange_sep(&vp_c, &vp_req, &vp_resp);
#else
    int r = coap_client_exchange(&vp_c, &vp_req, &vp_resp);
#endif
#ifdef VP_CON
    if (vp_seps)
    {
        POST(vp_seps == 1 && r == vp_sep_ret && G.ev == 2 && G.rcv == 4 && BARE_ACK && NOTHING && SAME_REQ(&vp_req) && LIVE, "an acknowledgement, and only that, starts the wait for the response");
        VP_REACH("acknowledged");
        return;
    }
#endif
    POST(r <= 0, "success or an error is returned");
    POST(LIVE, "nothing is leaked");
    POST(SAME_CODE(&vp_req, &r0) && SAME_CONTENT(&vp_req, &r0) && vp_req.type == r0.type && vp_req.ver == r0.ver, "only the identifiers of the request are set");
    if (G.phase == 0)
    {
        POST(r < 0 && G.nsent <= 1 && (G.nsent == 0 || !G.sent_ok), "an exchange that does not begin fails");
        if (r0.type == COAP_MSG_ACK || r0.type == COAP_MSG_RST || r0.code_class != 0) 
        {
            POST(r == -EINVAL && G.nsent == 0, "what is no request is not sent");
#ifndef VP_SEP
            VP_REACH("no request");
#endif
        }
    }
    else
    {
        POST((r0.type == COAP_MSG_CON || r0.type == COAP_MSG_NON) && r0.code_class == 0, "only a request is sent");
        POST(vp_req.token_len == 4 && vp_req.msg_id <= 65535, "with a token and an identifier");
        POST(SAME_REQ(&vp_req), "the request is unchanged");
        if (r == 0)
        {
            POST(G.ev == 2 && G.rcv == 4, "success needs a message");
            POST(PIGGY || (SEP && (vp_rx.type == COAP_MSG_CON || vp_rx.type == COAP_MSG_NON)), "only a message that belongs to the request is its response");
            POST(!BAD_OPT, "without unrecognised options that must not be ignored");
            POST(SAME_MSG(&vp_resp, &vp_rx), "exactly the message received is handed over");
            POST(G.tset == 0, "no timer is restarted");
            POST(vp_rx.type == COAP_MSG_CON ? G.nsent == 1 && G.sent_ok && SENT_EMPTY(COAP_MSG_ACK, vp_rx.msg_id) : G.nsent == 0, "a confirmable response is acknowledged, no other");
#ifdef VP_CON
            if (PIGGY) VP_REACH("piggy-backed response");
            else
#endif
            if (vp_rx.type == COAP_MSG_NON) VP_REACH("non-confirmable response");
            else VP_REACH("confirmable response");
        }
        else if (G.ev == 3)
        {
            if (G.phase == 1 && G.retrans0 < 4)
                POST(G.nsent == 0 || (G.nsent == 1 && !G.sent_ok && SAME_REQ(&G.sent)), "a retransmission that fails ends the exchange");
            else { POST(r == -ETIMEDOUT && NOTHING, "no answer: the exchange times out"); VP_REACH("no response"); }
        }
        else if (G.ev == 2 && G.rcv == 3)
        {
            POST(G.nsent <= 1 && G.tset == 0, "at most one reset");
            POST(G.nsent == 0 || (G.parse_err == -EBADMSG && vp_ti_ret == 0 && vp_ti_type == COAP_MSG_CON && SENT_EMPTY(COAP_MSG_RST, vp_ti_id)), "a malformed confirmable message is reset, no other");
            POST(!(G.parse_err == -EBADMSG && vp_ti_ret == 0 && vp_ti_type == COAP_MSG_CON) || G.nsent == 1 || G.fmtfail, "and it is reset");
            if (G.nsent == 1) VP_REACH("malformed");
        }
        else if (G.ev == 2 && G.rcv == 4)
        {
            POST(G.tset == 0, "no timer is restarted");
            if (RESET_BY) { POST(r == -ECONNRESET && G.nsent == 0, "a reset ends the exchange"); VP_REACH("reset"); }
            else if (PIGGY || (SEP && (vp_rx.type == COAP_MSG_CON || vp_rx.type == COAP_MSG_NON)))
            {
                if (BAD_OPT) { POST(r == -EBADMSG && REJECTED, "a response with an option that must not be ignored is rejected"); VP_REACH("bad option"); }
                else POST(vp_rx.type == COAP_MSG_CON && G.nsent <= 1 && (G.nsent == 0 || (!G.sent_ok && SENT_EMPTY(COAP_MSG_ACK, vp_rx.msg_id))), "a response is handed over unless it cannot be acknowledged");
            
            }
            else if (UNRELATED) POST(vp_rx.type == COAP_MSG_CON && REJECTED && !(G.nsent == 1 && G.sent_ok), "an unrelated message does not end the exchange");
            else if (BARE_ACK || DUP_ACK) POST(0, "an acknowledgement does not end the exchange");
            else { POST(r == -EBADMSG && REJECTED, "a message that contradicts the exchange is rejected"); VP_REACH("rejected"); }
        }
        else POST(G.ev == 1 || (G.ev == 2 && G.rcv == 1), "an exchange fails for a reason");
    }
}
