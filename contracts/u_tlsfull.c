/* proxy/common/src/tls_sock.c: tls_sock_write_full and tls_sock_read_full, over the contracts of tls_sock_write and tls_sock_read */
#include <stdlib.h>
#include <string.h>
#include "vp.h"
#include "tls_sock.h"
#define POST(c, t) __CPROVER_assert(c, "vp_post " t)
#define INVT(c, t) __CPROVER_assert(c, "vp_inv " t)
#define CUT __CPROVER_assume(0)
int nd_int(void) { int x; return x; }
static tls_sock_t s_; static char *B; static size_t N, at; static int c0, last;
static ssize_t part(tls_sock_t *s, void *buf, size_t len)
{
    POST(s == &s_ && (char *)buf == B + at && len == N - at && len > 0, "the bytes follow those before, none is left out and none repeated");
    int k; __CPROVER_assume(k <= 0 || (size_t)k <= len);
    last = k;
    if (k > 0) at += k;
    return k;
}
ssize_t tls_sock_write(tls_sock_t *s, void *buf, size_t len);
ssize_t tls_sock_read(tls_sock_t *s, void *buf, size_t len);
#define HOOK if (!c0) { INVT(total_bytes == 0, "start"); c0 = 1; size_t k; __CPROVER_assume(k < N); at = k; total_bytes = k; } else { INVT(total_bytes == at && at < N, "bytes transferred so far"); VP_REACH("next part"); CUT; }
#ifdef VP_R
#define VP_B_tls_sock_read_full_0 HOOK
#else
#define VP_B_tls_sock_write_full_0 HOOK
#endif
#include "tls_sock.c"
ssize_t tls_sock_write(tls_sock_t *s, void *buf, size_t len) { return part(s, buf, len); }
ssize_t tls_sock_read(tls_sock_t *s, void *buf, size_t len) { return part(s, buf, len); }
void vp_harness(void)
{
    size_t n; __CPROVER_assume(n <= (size_t)1 << 30);
    N = n; B = malloc(n); at = 0; c0 = 0; last = 1;
    __CPROVER_assume(B != NULL);
#ifdef VP_R
    ssize_t r = tls_sock_read_full(&s_, B, n);
#else
    ssize_t r = tls_sock_write_full(&s_, B, n);
#endif
    if (r > 0) { VP_REACH("all"); POST((size_t)r == n && at == n, "all bytes are transferred"); }
    else if (n > 0) { VP_REACH("failed"); POST(r == last && last <= 0, "an error, or the end of the connection"); }
}
