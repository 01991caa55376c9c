/* lib/src/coap_client.c on a simulated network: a script decides what every wait in select() returns */
#include "vph.h"
#include <stdarg.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <netdb.h>
#include <sys/socket.h>
#include <sys/timerfd.h>
#include <sys/select.h>
#include "coap_client.h"
#include "coap_mem.h"
#include "pool.h"
void coap_log_error(const char *m, ...) {}
void coap_log_warn(const char *m, ...) {}
void coap_log_notice(const char *m, ...) {}
void coap_log_info(const char *m, ...) {}
void coap_log_debug(const char *m, ...) {}
#define SD 7
#define TFD 9
static long long sim_ms;
static int t_armed, t_sets, f_tset = -1, f_send = -1; static long t_ms; static long long t_at;
static uint8_t out_b[1400]; static size_t out_n; static int nout, out_ok;
static int inj(int *f) { return *f >= 0 && (*f)-- == 0; }
static ssize_t sim_send(int sd, const void *b, size_t n, int fl)
{
    VP_CHECK(sd == SD && n <= sizeof out_b, "a message is sent through the client's socket");
    memcpy(out_b, b, n);
    out_n = n;
    nout++;
    out_ok = !inj(&f_send);
    if (!out_ok) { errno = ENOBUFS; return -1; }
    return n;
}
static int sim_tset(int fd, int fl, const struct itimerspec *n, struct itimerspec *o)
{
    VP_CHECK(fd == TFD && fl == 0 && n->it_interval.tv_sec == 0 && n->it_interval.tv_nsec == 0, "one-shot relative timer");
    VP_CHECK(n->it_value.tv_nsec >= 0 && n->it_value.tv_nsec < 1000000000 && n->it_value.tv_sec >= 0, "valid timer value");
    t_sets++;
    if (inj(&f_tset)) { errno = EIO; return -1; }
    t_ms = n->it_value.tv_sec * 1000 + n->it_value.tv_nsec / 1000000;
    t_armed = t_ms > 0;
    t_at = sim_ms + t_ms;
    return 0;
}
static int sim_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv);
static ssize_t sim_recv(int sd, void *b, size_t n, int fl);
static time_t sim_time(time_t *t) { time_t v = 1000000 + sim_ms / 1000; if (t) *t = v; return v; }
static unsigned sim_rnd = 1;
static int sim_rand(void) { sim_rnd = sim_rnd * 1103515245u + 12345u; return (sim_rnd >> 1) & 0x7fffffff; }
static int sim_close(int fd) { return 0; }
#define recv(a, b, c, d) sim_recv(a, b, c, d)
#define send(a, b, c, d) sim_send(a, b, c, d)
#define timerfd_settime(a, b, c, d) sim_tset(a, b, c, d)
#define select(a, b, c, d, e) sim_select(a, b, c, d, e)
#define time(a) sim_time(a)
#define rand() sim_rand()
#define srand(a) ((void)(a))
#define close(a) sim_close(a)
#include "coap_client.c"
#undef recv
#undef send
#undef select
static coap_client_t cli;
static void sim_reset(void)
{
    memset(&cli, 0, sizeof cli);
    cli.sd = SD;
    cli.timer_fd = TFD;
    sim_ms = 0;
    t_armed = t_sets = nout = 0;
    sim_rnd = 1;
    f_tset = f_send = -1;
    pool_live[0] = pool_live[1] = pool_live[2] = 0;
    pool_fail = -1;
}
static uint8_t *enc_op(uint8_t *p, unsigned *prev, unsigned num, const void *v, unsigned n)
{
    unsigned d = num - *prev;
    uint8_t *h = p++;
    unsigned dn = d < 13 ? d : d < 269 ? 13 : 14, ln = n < 13 ? n : n < 269 ? 13 : 14;
    *h = dn << 4 | ln;
    if (dn == 13) *p++ = d - 13; else if (dn == 14) { *p++ = (d - 269) >> 8; *p++ = (d - 269) & 255; }
    if (ln == 13) *p++ = n - 13; else if (ln == 14) { *p++ = (n - 269) >> 8; *p++ = (n - 269) & 255; }
    memcpy(p, v, n);
    *prev = num;
    return p + n;
}
