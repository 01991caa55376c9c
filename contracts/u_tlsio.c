/* proxy/common/src/tls_sock.c: tls_sock_write and tls_sock_read, over contracts of GnuTLS and select */
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <sys/select.h>
#include "vp.h"
#include "tls_sock.h"
#define POST(c, t) __CPROVER_assert(c, "vp_post " t)
#define CUT __CPROVER_assume(0)
int nd_int(void) { int x; return x; }
static tls_sock_t s_; static char *B; static size_t N; static int c0, last, sel, hs;
static ssize_t part(gnutls_session_t t, const void *buf, size_t len)
{
    POST(t == s_.session && buf == B && len == N, "the bytes that were given, and none before or behind them");
    POST(c0 <= 1 || last == GNUTLS_E_AGAIN || last == GNUTLS_E_REHANDSHAKE, "only what was not transferred is tried again");
    int k; __CPROVER_assume(k <= 0 || (size_t)k <= len);
    last = k; sel = 0;
    return k;
}
ssize_t gnutls_record_send(gnutls_session_t t, const void *buf, size_t len) { return part(t, buf, len); }
ssize_t gnutls_record_recv(gnutls_session_t t, void *buf, size_t len) { return part(t, buf, len); }
int select(int n, fd_set *a, fd_set *b, fd_set *c, struct timeval *t)
{
    POST(last <= 0 && (last == GNUTLS_E_AGAIN || hs), "the socket is waited for only if nothing was transferred");
    POST(t != NULL, "and not without a time limit");
    int k; __CPROVER_assume(k >= -1 && k <= 2);
    sel = k;
    if (k == -1) { int e; __CPROVER_assume(e > 0 && e < 200); errno = e; }
    return k;
}
static int tls_sock_handshake(tls_sock_t *s);
#define HOOK if (c0 < 1) { c0 = 1; } else { c0 = 2; POST(last < 0 && sel > 0, "tried again when the socket is ready"); VP_REACH("again"); CUT; }
#ifdef VP_R
#define VP_B_tls_sock_read_0 HOOK
#else
#define VP_B_tls_sock_write_0 HOOK
#endif
#include "tls_sock.c"
static int tls_sock_handshake(tls_sock_t *s) { hs = 1; return nd_int() ? SOCK_OK : SOCK_READ_ERROR; }
void vp_harness(void)
{
    size_t n; __CPROVER_assume(n > 0 && n <= (size_t)1 << 30);
    N = n; B = malloc(n); c0 = 0; last = 1; sel = 0; hs = 0;
    s_.sd = nd_int();
    __CPROVER_assume(B != NULL && s_.sd >= 0 && s_.sd < FD_SETSIZE);
#ifdef VP_R
    ssize_t r = tls_sock_read(&s_, B, n);
#else
    ssize_t r = tls_sock_write(&s_, B, n);
#endif
    if (r > 0) { VP_REACH("some"); POST(r == last, "the number of bytes transferred"); }
    else { VP_REACH("none"); POST(last <= 0 && (r == 0) == (last == 0), "an error, or the end of the connection"); }
}
