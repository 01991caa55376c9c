/* Environment of lib/src/coap_server.c: network, timers and clock in executable form.  Every call may
 * fail; what is sent and how the timers are set is recorded for the contracts. */
#ifndef SRV_SPEC_H
#define SRV_SPEC_H
#include <stdlib.h>
#include <stdio.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <sys/socket.h>
#include <sys/timerfd.h>
#include <sys/select.h>
#include "coap_server.h"
typedef struct { coap_msg_t m; int sd; coap_ipv_sockaddr_in_t to; int ok; } vp_sent;
#define NLOG 4
#ifndef VP_GHOST_X
#define VP_GHOST_X
#endif
#define VP_GHOST \
    int queued, consumed;                       /* the datagram at the head of the queue */ \
    vp_sent log0, log1; unsigned nlog;          /* messages sent */ \
    coap_msg_t fmt; char *fmt_buf; ssize_t fmt_len;     /* the message formatted last */ \
    struct timespec timer; int tset, tfd;       /* last timer setting, number of settings, descriptor */ \
    int tfd_live;                               /* timer descriptors created minus closed */ \
    VP_GHOST_X
#include "amsg_spec.h"
#define vp_queued vp_G.queued
#define vp_consumed vp_G.consumed
#define vp_nlog vp_G.nlog
#define vp_fmt vp_G.fmt
#define vp_fmt_buf vp_G.fmt_buf
#define vp_fmt_len vp_G.fmt_len
#define vp_timer vp_G.timer
#define vp_tset vp_G.tset
#define vp_tfd vp_G.tfd
#define vp_tfd_live vp_G.tfd_live
#define LOG(i) (*((i) == 0 ? &vp_G.log0 : &vp_G.log1))
#ifndef VP_K
#define VP_K 3
#endif
unsigned vp_k;
coap_server_t vp_s;                             /* the server */
#define T (&vp_s.trans[VP_K])                   /* the transaction under consideration */
/* the datagram at the head of the receive queue */
coap_ipv_sockaddr_in_t vp_from;
#define SINEQ(a, b) ((a)->sin_family == (b)->sin_family && (a)->sin_port == (b)->sin_port && (a)->sin_addr.s_addr == (b)->sin_addr.s_addr && \
    *(uint64_t *)(a)->sin_zero == *(uint64_t *)(b)->sin_zero)
time_t vp_now;
ssize_t coap_msg_format(coap_msg_t *m, char *b, size_t n)
{
    ssize_t r;
    if (vp_nondet_bool()) return vp_neg();
    __CPROVER_assume(r >= 4 && (size_t)r <= n);
    vp_fmt = *m;
    vp_fmt_buf = b;
    vp_fmt_len = r;
    return r;
}
ssize_t sendto(int sd, const void *b, size_t n, int fl, const struct sockaddr *to, socklen_t tl)
{
    __CPROVER_assert(b == vp_fmt_buf && n == (size_t)vp_fmt_len && fl == 0, "vp_send: exactly the formatted message is sent");
    __CPROVER_assert(tl == sizeof(coap_ipv_sockaddr_in_t), "vp_send: address length");
    __CPROVER_assert(vp_nlog < 2, "vp_send: at most two messages per exchange");
    int ok = !vp_nondet_bool();
    if (vp_nlog == 0)
    {
        vp_G.log0.m = vp_fmt;
        vp_G.log0.sd = sd;
        vp_G.log0.to = *(coap_ipv_sockaddr_in_t *)to;
        vp_G.log0.ok = ok;
    }
    else
    {
        vp_G.log1.m = vp_fmt;
        vp_G.log1.sd = sd;
        vp_G.log1.to = *(coap_ipv_sockaddr_in_t *)to;
        vp_G.log1.ok = ok;
    }
    vp_nlog++;
    if (!ok) return vp_seterr();
    return n;
}
ssize_t recvfrom(int sd, void *b, size_t n, int fl, struct sockaddr *from, socklen_t *fl_len)
{
    ssize_t r;
    __CPROVER_assert(sd == vp_s.sd, "vp_recv: the server's socket");
    __CPROVER_assert(__CPROVER_w_ok(b, n), "vp_recv: buffer");
    __CPROVER_assert(*fl_len >= sizeof(coap_ipv_sockaddr_in_t), "vp_recv: address buffer");
    if (!vp_queued || vp_nondet_bool()) return vp_seterr();
    __CPROVER_assume(r >= 0 && (size_t)r <= n);
    *(coap_ipv_sockaddr_in_t *)from = vp_from;
    *fl_len = sizeof(coap_ipv_sockaddr_in_t);
    if (!(fl & MSG_PEEK)) { vp_queued = 0; vp_consumed++; }
    return r;
}
int timerfd_create(int c, int f)
{
    int fd;
    if (vp_nondet_bool()) return vp_seterr();
    __CPROVER_assume(fd >= 0 && fd < 1024);
    vp_tfd_live++;
    return fd;
}
int timerfd_settime(int fd, int fl, const struct itimerspec *n, struct itimerspec *o)
{
    __CPROVER_assert(fl == 0 && o == NULL && n->it_interval.tv_sec == 0 && n->it_interval.tv_nsec == 0, "vp_timer: one-shot relative timer");
    if (vp_nondet_bool()) { vp_seterr(); __CPROVER_assume(vp_errno != ETIMEDOUT); return -1; }  /* timerfd_settime(2) has no such error */
    vp_timer = n->it_value;
    vp_tset++;
    vp_tfd = fd;
    return 0;
}
int close(int fd) { vp_tfd_live--; return 0; }
time_t time(time_t *t) { return vp_now; }
int rand(void) { int r; __CPROVER_assume(r >= 0); return r; }
void srand(unsigned s) {}
const char *inet_ntop(int af, const void *s, char *d, socklen_t n) { if (vp_nondet_bool()) { vp_seterr(); return NULL; } return d; }
/* options of the received message */
unsigned vp_bad;                                /* number of an option that must not be ignored, or 0 */
unsigned coap_msg_check_critical_ops(coap_msg_t *m) { return m->op_list.first == NULL ? 0 : vp_bad; }
unsigned coap_msg_check_unsafe_ops(coap_msg_t *m) { return m->op_list.first == NULL ? 0 : vp_bad; }
/* first bytes of a malformed datagram */
int vp_ti_ret;
unsigned vp_ti_type, vp_ti_id;
int coap_msg_parse_type_msg_id(char *b, size_t n, unsigned *t, unsigned *id)
{
    if (vp_ti_ret < 0) return vp_ti_ret;
    *t = vp_ti_type;
    *id = vp_ti_id;
    return 0;
}
#endif
