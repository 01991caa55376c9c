/* lib/src/coap_server.c on a simulated network: one queued datagram, simulated clock and timers,
 * every message sent is recorded, failures can be injected. */
#include "vph.h"
#include <stdarg.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <sys/socket.h>
#include <sys/timerfd.h>
#include <sys/select.h>
#include "coap_server.h"
#include "coap_mem.h"
#include "pool.h"
void coap_log_error(const char *m, ...) {}
void coap_log_warn(const char *m, ...) {}
void coap_log_notice(const char *m, ...) {}
void coap_log_info(const char *m, ...) {}
void coap_log_debug(const char *m, ...) {}
#define SD 7
#define TFD0 100
#define NTFD 64
static long long sim_ms;                /* clock */
static uint8_t q_buf[2000]; static size_t q_len; static int q_on; static struct sockaddr_in q_from;
typedef struct { struct sockaddr_in to; size_t len; uint8_t b[1200]; int failed; } outm;
static outm out[32]; static int nout;
static struct { int used, armed; long long at; long ms; } tf[NTFD];
static int ev_sets;                     /* timer settings since the event began */
static int f_send = -1, f_recv = -1, f_tset = -1, f_tcre = -1, f_ntop = -1;    /* fail the n-th call */
static long long sim_until;             /* listen returns when no timer is due before */
static int fires[NTFD], nfires;
static int inj(int *f) { return *f >= 0 && (*f)-- == 0; }
static ssize_t sim_recvfrom(int sd, void *b, size_t n, int fl, struct sockaddr *from, socklen_t *l)
{
    VP_CHECK(sd == SD, "the server reads from its socket");
    if (inj(&f_recv)) { errno = EIO; return -1; }
    if (!q_on) { errno = EAGAIN; return -1; }
    size_t k = q_len < n ? q_len : n;
    memcpy(b, q_buf, k);
    size_t al = *l < sizeof q_from ? *l : sizeof q_from;
    memcpy(from, &q_from, al);
    *l = sizeof q_from;
    if (!(fl & MSG_PEEK)) q_on = 0;
    return k;
}
static ssize_t sim_sendto(int sd, const void *b, size_t n, int fl, const struct sockaddr *to, socklen_t l)
{
    VP_CHECK(sd == SD && nout < 32 && n <= 1200 && l == sizeof(struct sockaddr_in), "a message is sent through the server's socket");
    memcpy(&out[nout].to, to, sizeof(struct sockaddr_in));
    memcpy(out[nout].b, b, n);
    out[nout].len = n;
    out[nout].failed = inj(&f_send);
    nout++;
    if (out[nout - 1].failed) { errno = ENOBUFS; return -1; }
    return n;
}
static int sim_tcreate(int c, int f)
{
    if (inj(&f_tcre)) { errno = EMFILE; return -1; }
    for (int i = 0; i < NTFD; i++) if (!tf[i].used) { memset(&tf[i], 0, sizeof tf[i]); tf[i].used = 1; return TFD0 + i; }
    VP_CHECK(0, "timer descriptors do not leak");
    return -1;
}
static int sim_tset(int fd, int fl, const struct itimerspec *n, struct itimerspec *o)
{
    VP_CHECK(fd >= TFD0 && fd < TFD0 + NTFD && tf[fd - TFD0].used, "a live timer is set");
    if (inj(&f_tset)) { errno = EIO; return -1; }
    ev_sets++;
    VP_CHECK(n->it_interval.tv_sec == 0 && n->it_interval.tv_nsec == 0 && fl == 0, "one-shot relative timer");
    VP_CHECK(n->it_value.tv_nsec >= 0 && n->it_value.tv_nsec < 1000000000 && n->it_value.tv_sec >= 0, "valid timer value");
    long ms = n->it_value.tv_sec * 1000 + n->it_value.tv_nsec / 1000000;
    tf[fd - TFD0].armed = n->it_value.tv_sec || n->it_value.tv_nsec;
    tf[fd - TFD0].ms = ms;
    tf[fd - TFD0].at = sim_ms + ms;
    return 0;
}
static int sim_close(int fd)
{
    if (fd == SD) return 0;
    VP_CHECK(fd >= TFD0 && fd < TFD0 + NTFD && tf[fd - TFD0].used, "a live timer is closed, once");
    tf[fd - TFD0].used = 0;
    return 0;
}
static time_t sim_time(time_t *t) { time_t v = 1000000 + sim_ms / 1000; if (t) *t = v; return v; }
static int sim_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    fd_set want = *r;
    FD_ZERO(r);
    nfires = 0;
    if (q_on) { VP_CHECK(FD_ISSET(SD, &want) && n > SD, "the server waits for datagrams"); FD_SET(SD, r); return 1; }
    long long first = -1;
    for (int i = 0; i < NTFD; i++) if (tf[i].used && tf[i].armed && (first < 0 || tf[i].at < first)) first = tf[i].at;
    if (first < 0 || first > sim_until) { sim_ms = sim_until; errno = EINTR; return -1; }
    if (first > sim_ms) sim_ms = first;
    int c = 0;
    for (int i = 0; i < NTFD; i++)
        if (tf[i].used && tf[i].armed && tf[i].at <= sim_ms)
        {
            VP_CHECK(FD_ISSET(TFD0 + i, &want) && n > TFD0 + i, "the server waits for every armed timer");
            FD_SET(TFD0 + i, r);
            fires[nfires++] = i;
            c++;
        }
    return c;
}
static unsigned sim_rnd = 1;
static int sim_rand(void) { sim_rnd = sim_rnd * 1103515245u + 12345u; return (sim_rnd >> 1) & 0x7fffffff; }
static const char *sim_ntop(int af, const void *s, char *d, socklen_t n) { if (inj(&f_ntop)) { errno = ENOSPC; return NULL; } if (n) d[0] = 0; return d; }
#define recvfrom(a, b, c, d, e, f) sim_recvfrom(a, b, c, d, e, f)
#define sendto(a, b, c, d, e, f) sim_sendto(a, b, c, d, e, f)
#define timerfd_create(a, b) sim_tcreate(a, b)
#define timerfd_settime(a, b, c, d) sim_tset(a, b, c, d)
#define close(a) sim_close(a)
#define time(a) sim_time(a)
#define select(a, b, c, d, e) sim_select(a, b, c, d, e)
#define rand() sim_rand()
#define srand(a) ((void)(a))
#define inet_ntop(a, b, c, d) sim_ntop(a, b, c, d)
#include "coap_server.c"
static coap_server_t srv;
static void sim_reset(void)
{
    memset(&srv, 0, sizeof srv);
    srv.sd = SD;
    memset(tf, 0, sizeof tf);
    nout = q_on = 0;
    sim_ms = 0;
    sim_rnd = 1;
    pool_live[0] = pool_live[1] = pool_live[2] = 0;
    pool_fail = -1;
    f_send = f_recv = f_tset = f_tcre = f_ntop = -1;
}
static struct sockaddr_in addr(int c)
{   /* clients share host or port with others */
    struct sockaddr_in a;
    memset(&a, 0, sizeof a);
    a.sin_family = AF_INET;
    a.sin_port = htons(40000 + (c & 3));
    a.sin_addr.s_addr = htonl(0x0a000001 + (c >> 2));
    return a;
}
static int client_of(const struct sockaddr_in *a)
{
    for (int c = 0; c < 12; c++) { struct sockaddr_in b = addr(c); if (memcmp(a, &b, sizeof b) == 0) return c; }
    return -1;
}
/* encoder for requests */
static uint8_t *enc_op(uint8_t *p, unsigned *prev, unsigned num, const void *v, unsigned n)
{
    unsigned d = num - *prev;
    uint8_t *h = p++;
    unsigned dn = d < 13 ? d : d < 269 ? 13 : 14, ln = n < 13 ? n : n < 269 ? 13 : 14;
    *h = dn << 4 | ln;
    if (dn == 13) *p++ = d - 13; else if (dn == 14) { *p++ = (d - 269) >> 8; *p++ = (d - 269) & 255; }
    if (ln == 13) *p++ = n - 13; else if (ln == 14) { *p++ = (n - 269) >> 8; *p++ = (n - 269) & 255; }
    memcpy(p, v, n);
    *prev = num;
    return p + n;
}
static void put_datagram(int c, const uint8_t *b, size_t n) { memcpy(q_buf, b, n); q_len = n; q_on = 1; q_from = addr(c); }
