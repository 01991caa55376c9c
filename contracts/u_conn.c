/* proxy/http_coap/src/connection.c: one connection of the proxy with an HTTP client.
 * The functions of the other modules are contracts that record what they are given. */
#ifndef COAP_DTLS_EN
#define COAP_DTLS_EN
#endif
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <strings.h>
#include <errno.h>
#include <sys/select.h>
#include "vp.h"
#include "connection.h"
#include "http_msg.h"
#include "uri.h"
#include "cross.h"
size_t vp_g;
#define MAXT ((size_t)1 << 30)
#define POST(c, t) __CPROVER_assert(c, "vp_post " t)
#define INVT(c, t) __CPROVER_assert(c, "vp_inv " t)
#define CUT __CPROVER_assume(0)
int nd_int(void) { int x; return x; }
size_t nd_size(void) { size_t x; return x; }
static int err(void) { int e; __CPROVER_assume(e < 0 && e > -4096); return e; }
void coap_log_error(const char *msg, ...) { }
void coap_log_warn(const char *msg, ...) { }
void coap_log_notice(const char *msg, ...) { }
void coap_log_info(const char *msg, ...) { }
void coap_log_debug(const char *msg, ...) { }
static connection_t cn; static tls_sock_t sock; static param_t prm;
static char V[8];                       /* opaque texts */
#define HOST (V + 1)
#define PORT (V + 2)
static struct
{
    int ex, bw, last, body_sent, first_bw; size_t bw_len; int cleared; int retry;    /* exchanges */
    int created, destroyed, dups, frees, to;      /* client connections */
    int live[4]; int mreq, mresp; int translated, answered, errs, code;
    int c0; int gen; size_t gen_len; int written; size_t grown;
    int parsed; size_t num; int consumed, selected, reads, rd_n; int pend;
    int seq;
} G;
static coap_msg_t rq, rs; static http_msg_t hq, hs;
static void *vp_memcpy(void *d, const void *s, size_t k)
{
    __CPROVER_assert(k == 0 || (__CPROVER_w_ok(d, k) && __CPROVER_r_ok(s, k)), "vp_safe: memcpy");
    if (vp_g < k) ((char *)d)[vp_g] = ((const char *)s)[vp_g];
    return d;
}
static void *vp_memset(void *d, int c, size_t k)
{
    __CPROVER_assert(k == 0 || __CPROVER_w_ok(d, k), "vp_safe: memset");
    if (vp_g < k) ((char *)d)[vp_g] = c;
    return d;
}
static int eqh, eqp;                    /* does the URI name the host and the port of the connection */
static int vp_strcasecmp(const char *a, const char *b)
{
    POST((a == HOST && b == V + 3) || (b == HOST && a == V + 3), "hosts are compared");
    return !eqh;
}
static int vp_strcmp(const char *a, const char *b)
{
    POST((a == PORT && b == V + 4) || (b == PORT && a == V + 4), "ports are compared");
    return !eqp;
}
static char *vp_strdup(const char *a)
{
    if (nd_int()) return NULL;
    POST(a == HOST || a == PORT, "a copy of the host or the port");
    G.dups++;
    return a == HOST ? V + 3 : V + 4;
}
static void vp_free(void *p)
{
    G.frees++;
    if (p == V + 3 || p == V + 4) { POST(G.dups > 0, "released once"); G.dups--; }
}
const char *sock_strerror(int e) { return V; }
const char *http_msg_strerror(int e) { return V; }
/* CoAP client */
int coap_client_create(coap_client_t *c, const char *host, const char *port, const char *a, const char *b, const char *d, const char *e, const char *f)
{
    POST(c == &cn.coap_client && host == HOST && port == PORT && G.created == 0, "a connection to the host and the port of the URI");
    if (nd_int()) return err();
    G.created = 1;
    return 0;
}
void coap_client_destroy(coap_client_t *c) { POST(c == &cn.coap_client && G.created == 1, "an open connection is closed, once"); G.created = 0; G.destroyed++; }
#ifdef VP_XCHG
static char *pay; static size_t plen, end0; static int det;
int coap_client_exchange(coap_client_t *c, coap_msg_t *a, coap_msg_t *b)
{
    POST(c == &cn.coap_client && a == &rq && b == &rs && G.ex == 0 && G.bw == 0, "the request is sent to the server of the connection, once");
    POST(a->payload_len == plen && a->payload == pay && a->code_detail == det, "as it is");
    G.ex++;
    if (nd_int()) { G.last = -1; return err(); }
    int x; b->code_class = x; int y; b->code_detail = y;
    return 0;
}
static int blk;
int coap_msg_parse_block_op(unsigned *num, unsigned *more, unsigned *size, coap_msg_t *m, int type)
{
    POST(m == &rs && G.ex == 1 && type == COAP_MSG_BLOCK2, "the first block of the response");
    blk = nd_int();
    __CPROVER_assume(blk <= 1);
    if (blk == 0) { *num = nd_int(); *more = nd_int(); unsigned k; __CPROVER_assume(k >= 16 && k <= 1024 && (k & (k - 1)) == 0); *size = k; }
    return blk < 0 ? -EBADMSG : blk;
}
void coap_msg_clear_payload(coap_msg_t *m) { POST(m == &rq, "payload of the request"); m->payload = NULL; m->payload_len = 0; G.cleared++; }
ssize_t coap_client_exchange_blockwise(coap_client_t *c, coap_msg_t *a, coap_msg_t *b, unsigned s1, unsigned s2, char *body, size_t len, int have)
{
    POST(c == &cn.coap_client && a == &rq && b == &rs && G.bw == 0 && body == cn.body, "the transfer goes on with the server of the connection");
    POST(s1 >= 16 && s1 <= 1024 && (s1 & (s1 - 1)) == 0 && s2 >= 16 && s2 <= 1024 && (s2 & (s2 - 1)) == 0, "block sizes");
    POST(a->code_detail == det, "the method of the request");
    if (det == COAP_MSG_GET) POST(G.ex == 1 && blk == 0 && have && len == cn.body_len, "a response of several blocks is read into the buffer");
    else
    {
        POST((det == COAP_MSG_PUT || det == COAP_MSG_POST) && !have, "a body is sent");
        if (G.ex) POST(b->code_class == COAP_MSG_CLIENT_ERR && b->code_detail == COAP_MSG_REQ_ENT_TOO_LARGE && end0 == 0 && len == plen && (vp_g >= plen || body[vp_g] == pay[vp_g]) && a->payload_len == 0, "the payload is sent again in blocks if it was too large");
        else POST(end0 > 0 && len == end0, "the body kept for a block-wise transfer");
    }
    G.bw++;
    int x; b->code_class = x; int y; b->code_detail = y;
    if (nd_int()) { G.last = -1; return err(); }
    size_t k; __CPROVER_assume(k <= len); G.bw_len = k;
    return k;
}
#endif
/* HTTP messages, URIs, translation */
static int obj(const void *p) { return p == (const void *)&hq ? 2 : p == (const void *)&hs ? 3 : -1; }
#ifdef VP_PROC
static coap_msg_t *mq, *ms;
void coap_msg_create(coap_msg_t *m) { if (G.live[0] == 0 && mq == NULL) { mq = m; G.live[0] = 1; } else { POST(ms == NULL && m != mq, "two messages"); ms = m; G.live[1] = 1; } }
void coap_msg_destroy(coap_msg_t *m) { POST(m != NULL && (m == mq ? G.live[0] == 1 : m == ms && G.live[1] == 1), "a message is released once"); G.live[m == mq ? 0 : 1] = 2; }
int cross_req_http_to_coap(coap_msg_t *a, char *b, size_t n, size_t *e, http_msg_t *h, unsigned *code)
{
    POST(a == mq && G.live[0] == 1 && b == cn.body && n == cn.body_len && e == &cn.body_end && h == &hq, "the request is translated");
    if (nd_int()) { G.code = nd_int() ? 400 : nd_int() ? 406 : nd_int() ? 501 : 502; *code = G.code; G.translated = -1; return err(); }
    *code = 0; G.translated = 1;
    return 0;
}
static int hh, hp, up;
void uri_create(uri_t *u) { memset(u, 0, sizeof *u); }
int uri_parse(uri_t *u, const char *s)
{
    POST(s == V + 7, "the URI of the request");
    G.live[2]++;
    if (nd_int()) { up = 0; return -EBADMSG; }
    up = 1;
    u->host = hh ? HOST : NULL; u->port = hp ? PORT : NULL;
    return 0;
}
void uri_destroy(uri_t *u) { G.live[2] = 0; u->host = u->port = NULL; }
static int conn_to;     /* 1: host and port of the URI */
static int connection_coap_client_create(connection_t *c, uri_t *u)
{
    POST(c == &cn && !cn.coap_client_active && u->host == HOST && u->port == PORT, "a connection to the host and the port of the URI");
    if (nd_int()) { G.last = err(); return G.last; }
    cn.coap_client_active = 1; cn.coap_client_host = V + 3; cn.coap_client_port = V + 4; conn_to = 1;
    return 0;
}
static void connection_coap_client_destroy(connection_t *c) { POST(c == &cn && cn.coap_client_active, "an open connection is closed"); cn.coap_client_active = 0; cn.coap_client_host = cn.coap_client_port = NULL; conn_to = 0; }
static int xr;
static int connection_coap_exchange(connection_t *c, coap_msg_t *a, coap_msg_t *b)
{
    POST(c == &cn && cn.coap_client_active && conn_to && up && hh && hp, "the request is sent to the host and the port of its URI only");
    POST(a == mq && b == ms && G.live[0] == 1 && G.live[1] == 1 && G.translated == 1 && G.ex == 0, "the translated request, once");
    G.ex = 1; xr = nd_int() ? 0 : err();
    return xr;
}
static int connection_gen_error_resp(connection_t *c, http_msg_t *m, unsigned code)
{
    POST(c == &cn && m == &hs, "an error response");
    G.errs++;
    if (G.translated == -1) POST(code == G.code && G.ex == 0, "the status that the translation gives");
    else if (G.ex == 0) POST(code == 400 && up && !(hh && hp), "400 without host or port");
    else if (xr < 0) POST(xr == -ETIMEDOUT ? code == 504 : xr == -EBADMSG ? code == 502 : code == 501, "504 if the server does not answer, 502 if the answer is not understood");
    else POST(G.answered == -1 && code == 502, "502 if the response can not be translated");
    G.last = nd_int() ? 0 : -ENOMEM;
    return G.last;
}
int cross_resp_coap_to_http(http_msg_t *h, coap_msg_t *m, char *b, size_t n, unsigned *code)
{
    POST(h == &hs && m == ms && G.live[1] == 1 && b == cn.body && n == cn.body_end && G.ex == 1 && xr == 0, "the response is translated");
    if (nd_int()) { *code = 502; G.answered = -1; return err(); }
    G.answered = 1;
    return 0;
}
#endif
#ifdef VP_SEND
size_t http_msg_generate(http_msg_t *m, char *buf, size_t len)
{
    POST(m == &hs && buf == cn.send_buf.data && len == cn.send_buf.size, "the response is written to the send buffer");
    size_t k; __CPROVER_assume(k >= 1 && k <= MAXT);
    G.gen = k < len; G.gen_len = k;
    return k;
}
ssize_t tls_sock_write_full(tls_sock_t *s, void *buf, size_t len)
{
    POST(s == &sock && buf == cn.send_buf.data && G.gen && len == G.gen_len, "the whole text of the response is sent");
    G.written++;
    int k; __CPROVER_assume(k < 1);
    return nd_int() ? (ssize_t)len : k;
}
#define VP_B_connection_send_0 if (!G.c0) { G.c0 = 1; size_t z; __CPROVER_assume(z >= 4096 && z <= 32768); cn.send_buf.size = z; } else { INVT(cn.send_buf.size == G.grown && !G.gen, "the buffer grows while the text does not fit"); VP_REACH("grown"); CUT; }
#endif
#if defined VP_SEND || defined VP_RECV
int data_buf_expand(data_buf_t *b)
{
#ifdef VP_SEND
    POST(b == &cn.send_buf && !G.gen, "the buffer is too small");
#else
    POST(b == &cn.recv_buf && G.parsed == 2, "the message is not complete");
#endif
    if (nd_int()) return nd_int() ? -ENOMEM : -EINVAL;
    b->size *= 2; G.grown = b->size;
    return 0;
}
#endif
#ifdef VP_RECV
static size_t rd_at; static int known;  /* 1: all that was received was parsed and is not complete, or nothing was received */
ssize_t http_msg_parse(http_msg_t *m, const char *b, size_t n)
{
    POST(m == &hq && b == cn.recv_buf.data && n == cn.recv_buf.count, "all that was received is parsed");
    known = 1;
    int k = nd_int() % 3;
    if (k == 0) { size_t z; __CPROVER_assume(z >= 1 && z <= n); G.parsed = 1; G.num = z; return z; }
    if (k == 1) { G.parsed = 2; return -EAGAIN; }
    G.parsed = 3;
    int e; __CPROVER_assume(e < 0 && e > -1000 && e != -EAGAIN);
    return e;
}
size_t data_buf_consume(data_buf_t *b, size_t n) { POST(b == &cn.recv_buf && G.parsed == 1 && n == G.num && G.consumed == 0, "the message is removed from the buffer, and no more"); G.consumed++; b->count -= n; return n; }
size_t data_buf_add(data_buf_t *b, size_t n) { POST(b == &cn.recv_buf && G.rd_n > 0 && n == G.rd_n, "what was read is added"); b->count += n; G.rd_n = 0; known = 0; return n; }
size_t vp_pending(void) { G.pend = nd_int() != 0; return G.pend; }
size_t gnutls_record_check_pending(gnutls_session_t s) { return vp_pending(); }
int select(int n, fd_set *a, fd_set *b, fd_set *c, struct timeval *t)
{
    POST(cn.recv_buf.count == 0 || (known && G.parsed == 2), "the proxy waits only if there is no complete message in the buffer");
    POST(G.pend == 0, "the proxy waits only if there are no data in the session");
    int k; __CPROVER_assume(k >= -1 && k <= 1);
    if (k == -1) { int e; __CPROVER_assume(e > 0 && e < 200); errno = e; }
    return k;
}
ssize_t tls_sock_read(tls_sock_t *s, void *b, size_t n)
{
    POST(s == &sock && b == cn.recv_buf.data + cn.recv_buf.count && n == cn.recv_buf.size - cn.recv_buf.count && n > 0, "data are read into the free space of the buffer");
    G.pend = -1;
    int k; __CPROVER_assume(k <= 0 || (size_t)k <= n);
    G.rd_n = k;
    return k;
}
#define VP_B_connection_recv_0 \
    INVT(cn.recv_buf.count <= cn.recv_buf.size && cn.recv_buf.size >= 4096 && cn.recv_buf.size <= 65536 && G.consumed == 0, "the buffer"); \
    if (!G.c0) { G.c0 = 1; G.pend = -1; size_t z, y; __CPROVER_assume(z >= 4096 && z <= 32768 && y <= z); cn.recv_buf.size = z; cn.recv_buf.count = y; known = 0; } else { VP_REACH("more data"); CUT; }
#endif
#ifdef VP_ONE
static int connection_recv(connection_t *c, http_msg_t *m) { POST(c == &cn && m == &hq && G.seq == 0, "a request is received first"); G.seq = 1; G.last = nd_int(); __CPROVER_assume(G.last <= 2); return G.last; }
static int connection_process(connection_t *c, http_msg_t *a, http_msg_t *b) { POST(c == &cn && a == &hq && b == &hs && G.seq == 1 && G.last == 0, "a request that was received is processed"); G.seq = 2; G.last = nd_int(); __CPROVER_assume(G.last <= 0); return G.last; }
static int connection_send(connection_t *c, http_msg_t *m) { POST(c == &cn && m == &hs && G.seq == 2 && G.last == 0, "its response is sent"); G.seq = 3; G.last = nd_int(); __CPROVER_assume(G.last <= 0 || G.last == 2); return G.last; }
#endif
#ifdef VP_TRANS
static http_msg_t *pq, *ps;
void http_msg_create(http_msg_t *m) { if (pq == NULL) { pq = m; G.live[0] = 1; } else { POST(ps == NULL && m != pq, "two messages"); ps = m; G.live[1] = 1; } }
void http_msg_destroy(http_msg_t *m) { POST(m == pq ? G.live[0] == 1 : m == ps && G.live[1] == 1, "a message is released once"); G.live[m == pq ? 0 : 1] = 2; }
static int __connection_exchange(connection_t *c, http_msg_t *a, http_msg_t *b)
{
    POST(c == &cn && ((a == pq && b == ps) || (a == ps && b == pq)) && G.live[0] == 1 && G.live[1] == 1 && G.seq == 0, "one transaction with messages of its own");
    POST(cn.body_end == 0, "no body is left from the transaction before");
    POST(vp_g >= cn.body_len || cn.body[vp_g] == 0, "and no part of it");
    G.seq = 1; G.last = nd_int(); __CPROVER_assume(G.last <= 2); cn.body_end = nd_size();
    return G.last;
}
#endif
#ifdef VP_NEW
static int bufs[2], allocs, cal;
int data_buf_create(data_buf_t *b, size_t s, size_t m)
{
    int i = b == &cn.recv_buf ? 0 : 1;
    POST((i == 0 || b == &cn.send_buf) && bufs[i] == 0 && s <= m && s > 0, "a buffer");
    if (nd_int()) return nd_int() ? -ENOMEM : -EINVAL;
    bufs[i] = 1;
    return 0;
}
void data_buf_destroy(data_buf_t *b) { int i = b == &cn.recv_buf ? 0 : 1; POST((i == 0 || b == &cn.send_buf) && bufs[i] == 1, "a buffer is released once"); bufs[i] = 0; }
static void *vp_calloc(size_t a, size_t b) { POST(a * b == sizeof cn, "a connection"); if (nd_int()) return NULL; memset(&cn, 0, sizeof cn); cal = 1; return &cn; }
static char *nbody; static size_t nlen;
static void *vp_malloc(size_t a) { POST(allocs == 0, "one body"); if (nd_int()) return NULL; allocs = 1; nbody = malloc(a); __CPROVER_assume(nbody != NULL); nlen = a; return nbody; }
static int closed, sockfree;
static void vp_release(void *p)
{
    if (p == &cn) { POST(cal == 1, "the connection is released once"); cal = 0; }
    else if (p == &sock) { POST(closed == 1 && sockfree == 0, "the socket is closed, then released"); sockfree = 1; }
    else { POST(p == nbody && allocs == 1 && p != NULL, "the body is released once"); allocs = 0; }
}
void tls_sock_close(tls_sock_t *s) { POST(s == &sock && closed == 0, "the socket is closed"); closed++; }
void tls_sock_get_addr_string_(char *out, size_t n, sock_in_addr_t a) { __CPROVER_assert(__CPROVER_w_ok(out, n), "vp_safe: address"); }
static void connection_coap_client_destroy(connection_t *c) { POST(c == &cn && cal == 1 && cn.coap_client_active, "the connection with the CoAP server is closed"); cn.coap_client_active = 0; G.destroyed++; }
#define calloc(a, b) vp_calloc(a, b)
#define malloc(a) vp_malloc(a)
#define free(p) vp_release(p)
#endif
#ifdef VP_GERR
static char *pr_at; static unsigned pr_v;
static int vp_snprintf(char *d, size_t k, const char *f, unsigned v)
{
    __CPROVER_assert(__CPROVER_w_ok(d, k) && f[0] == '%' && f[1] == 'u' && f[2] == 0, "vp_spec: format");
    __CPROVER_assert(k >= 4, "vp_post three digits and the end");
    pr_at = d; pr_v = v;
    return 3;
}
#define snprintf(d, k, f, v) vp_snprintf(d, k, f, v)
const char *cross_http_resp_code_to_str(unsigned c) { POST(c == G.code, "the reason of the status"); return V + 5; }
int http_msg_set_start(http_msg_t *m, const char *a, const char *b, const char *c)
{
    POST(m == &hs && a[0] == 'H' && a[4] == '/' && a[5] == '1' && a[6] == '.' && a[7] == '1' && a[8] == 0 && b == pr_at && pr_v == G.code && c == V + 5, "version, status and reason");
    G.answered++;
    G.last = nd_int() ? 0 : -ENOMEM;
    return G.last;
}
#endif
#ifdef VP_THR
static int alive;
void thread_block_signals(void) { }
static int connection_exchange(connection_t *c) { POST(c == &cn && alive && G.last == 0, "the connection goes on while the transactions succeed"); int k; __CPROVER_assume(k <= 2); G.last = k; G.seq = 1; return k; }
void connection_delete(connection_t *c) { POST(c == &cn && alive && G.last != 0 && G.seq, "the connection is released once, after its last transaction"); alive = 0; }
#define VP_B_connection_thread_func_0 if (!G.c0) { G.c0 = 1; } else { INVT(alive && G.last == 0 && status == 0, "the transactions succeed"); VP_REACH("next transaction"); CUT; }
#endif
#define memcpy(d, s, k) vp_memcpy(d, s, k)
#ifdef VP_TRANS
#define memset(d, c, k) vp_memset(d, c, k)
#endif
#if defined VP_PROC || defined VP_CREATE || defined VP_DESTROY
#define strcasecmp(a, b) vp_strcasecmp(a, b)
#define strcmp(a, b) vp_strcmp(a, b)
#define strdup(a) vp_strdup(a)
#define free(p) vp_free(p)
#endif
#include "connection.c"
#undef memcpy
#undef memset
#undef malloc
#undef calloc
#undef free
void vp_harness(void)
{
    int r;
    memset(&G, 0, sizeof G);
    vp_g = nd_size();
    cn.sock = &sock; cn.param = &prm;
    hq.start[1] = V + 7; 
#if defined VP_XCHG
    cn.body_len = 8192; cn.body = malloc(8192);
    size_t k; __CPROVER_assume(k <= COAP_MSG_MAX_PAYLOAD_LEN); plen = k; pay = k ? malloc(k) : NULL;
    size_t e; __CPROVER_assume(e <= 8192); end0 = e; cn.body_end = e;
    int d; __CPROVER_assume(d >= COAP_MSG_GET && d <= COAP_MSG_DELETE); det = d;
    __CPROVER_assume(cn.body != NULL && (k == 0 || pay != NULL) && (e == 0 || k == 0));
    rq.payload = pay; rq.payload_len = plen; rq.code_detail = det; rq.code_class = COAP_MSG_REQ;
    r = connection_coap_exchange(&cn, &rq, &rs);
    if (r == 0)
    {
        VP_REACH("exchanged");
        POST(G.last == 0, "no exchange failed");
        POST(cn.body_end == (G.bw ? G.bw_len : 0), "the body is the one of the response");
        int put = det == COAP_MSG_PUT || det == COAP_MSG_POST;
        if (det == COAP_MSG_GET) POST(G.ex == 1 && (blk == 1 ? G.bw == 0 : blk == 0 && G.bw == 1), "all blocks of the response are read");
        else if (put && end0 > 0) POST(G.ex == 0 && G.bw == 1, "a long body is sent in blocks");
        else POST(G.ex == 1 && (!put || G.bw || !(rs.code_class == COAP_MSG_CLIENT_ERR && rs.code_detail == COAP_MSG_REQ_ENT_TOO_LARGE)), "a payload that is too large for the server is sent in blocks");
    }
    else { VP_REACH("failed"); POST(r < 0 && (G.last == -1 || (det == COAP_MSG_GET && blk < 0)), "an error is one of an exchange"); }
#elif defined VP_CREATE
    uri_t u; u.host = HOST; u.port = PORT;
    cn.coap_client_active = 0;
    r = connection_coap_client_create(&cn, &u);
    if (r == 0) { VP_REACH("connected"); POST(cn.coap_client_active && G.created && cn.coap_client_host == V + 3 && cn.coap_client_port == V + 4 && G.dups == 2, "connected, host and port are known"); }
    else { VP_REACH("failed"); POST(r < 0 && !cn.coap_client_active && !G.created && G.dups == 0 , "nothing is left of a connection that failed"); }
#elif defined VP_DESTROY
    cn.coap_client_active = 1; cn.coap_client_host = V + 3; cn.coap_client_port = V + 4; G.created = 1; G.dups = 2;
    connection_coap_client_destroy(&cn);
    VP_REACH("closed");
    POST(!cn.coap_client_active && !G.created && G.dups == 0 && cn.coap_client_host == NULL && cn.coap_client_port == NULL, "all is released");
#elif defined VP_PROC
    cn.body_len = 8192; char b; cn.body = &b; cn.body_end = nd_size();
    cn.coap_client_active = nd_int() != 0;
    cn.coap_client_host = cn.coap_client_active ? V + 3 : NULL; cn.coap_client_port = cn.coap_client_active ? V + 4 : NULL;
    eqh = nd_int() != 0; eqp = nd_int() != 0; hh = nd_int() != 0; hp = nd_int() != 0;
    conn_to = cn.coap_client_active && eqh && eqp;
    mq = ms = NULL; up = 0; xr = 0;
    r = connection_process(&cn, &hq, &hs);
    POST(G.live[0] == 2 && G.live[1] != 1 && G.live[2] == 0, "all messages and the URI are released");
    if (r == 0) { VP_REACH("answered"); POST(G.errs == 1 ? G.answered != 1 : G.errs == 0 && G.answered == 1, "one response"); POST(G.answered == 1 || G.errs == 1, "a response"); POST(G.translated == 1 && up && hh && hp ? G.ex == 1 : G.ex == 0, "a request is sent to the server if and only if it can be translated"); }
    else { VP_REACH("failed"); POST(r < 0 && G.answered != 1, "error"); POST(!up || G.last < 0, "an error has a reason"); }
#elif defined VP_SEND
    size_t z; __CPROVER_assume(z >= 4096 && z <= 32768);
    cn.send_buf.size = z; cn.send_buf.count = 0; cn.send_buf.data = V; cn.send_buf.max_size = 32768;
    r = connection_send(&cn, &hs);
    if (r == 0) { VP_REACH("sent"); POST(G.written == 1, "the response is sent once"); }
    else { VP_REACH("failed"); POST(G.written <= 1 && (r < 0 || r == CON_RET_CLOSED), "error"); }
#elif defined VP_RECV
    size_t z, y; __CPROVER_assume(z >= 4096 && z <= 32768 && y <= z);
    cn.recv_buf.size = z; cn.recv_buf.count = y; cn.recv_buf.data = malloc(65536); cn.recv_buf.max_size = 32768;
    sock.sd = nd_int(); __CPROVER_assume(sock.sd >= 0 && sock.sd < FD_SETSIZE && cn.recv_buf.data != NULL);
    known = 0;
    r = connection_recv(&cn, &hq);
    if (r == 0) { VP_REACH("received"); POST(G.parsed == 1 && G.consumed == 1, "one message is received"); }
    else { VP_REACH("failed"); POST(G.consumed == 0 && (r < 0 || r == CON_RET_CLOSED || r == CON_RET_TIMEDOUT), "error"); }
#elif defined VP_ONE
    r = __connection_exchange(&cn, &hq, &hs);
    if (r == 0) { VP_REACH("done"); POST(G.seq == 3 && G.last == 0, "request, processing, response"); }
    else { VP_REACH("failed"); POST(G.seq >= 1 && r == G.last, "the first error"); }
#elif defined VP_TRANS
    cn.body_len = 8192; cn.body = malloc(8192); cn.body_end = nd_size(); pq = ps = NULL;
    __CPROVER_assume(cn.body != NULL);
    r = connection_exchange(&cn);
    VP_REACH("done");
    POST(G.seq == 1 && r == G.last && G.live[0] == 2 && G.live[1] == 2, "one transaction, and its messages are released");
#elif defined VP_GERR
    G.code = nd_int(); __CPROVER_assume(G.code >= 100 && G.code <= 999);
    r = connection_gen_error_resp(&cn, &hs, G.code);
    VP_REACH("answered");
    POST(G.answered == 1 && r == G.last, "a start line");
#elif defined VP_THR
    alive = 1;
    connection_thread_func(&cn);
    VP_REACH("ended");
    POST(!alive, "the connection is released");
#elif defined VP_NEW
    bufs[0] = bufs[1] = allocs = cal = closed = sockfree = 0; nbody = NULL;
    connection_t *c = connection_new(&sock, nd_int(), nd_int(), &prm);
    if (c != NULL)
    {
        VP_REACH("created");
        POST(c == &cn && cal && bufs[0] && bufs[1] && allocs && cn.body == nbody && cn.body_len == nlen && nlen >= COAP_MSG_MAX_PAYLOAD_LEN && cn.body_end == 0 && cn.sock == &sock && cn.param == &prm && !cn.coap_client_active, "a connection");
        int act = nd_int() != 0; cn.coap_client_active = act;
        connection_delete(c);
        POST(closed == 1 && sockfree == 1 && G.destroyed == act, "the socket and the connection with the CoAP server are closed");
    }
    else { VP_REACH("failed"); POST(!closed && !sockfree, "the socket stays with the caller"); }
    POST(!bufs[0] && !bufs[1] && !allocs && !cal, "all is released");
#endif
}
