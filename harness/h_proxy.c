/* The proxy: group 1, translation of messages (cross.c) against a reference; group 2, a connection (connection.c)
 * with a stand-in for the TLS session and for the CoAP server. */
#ifndef COAP_DTLS_EN
#define COAP_DTLS_EN
#endif
#include "vph.h"
#include <strings.h>
#include <stdarg.h>
#include "pool.h"
void coap_log_error(const char *msg, ...) { }
void coap_log_warn(const char *msg, ...) { }
void coap_log_notice(const char *msg, ...) { }
void coap_log_info(const char *msg, ...) { }
void coap_log_debug(const char *msg, ...) { }
static int f_alloc; static long live;
static int oom(void) { return f_alloc > 0 && --f_alloc == 0; }
static void *h_calloc(size_t n, size_t m) { if (oom()) return NULL; void *p = calloc(n ? n : 1, m); live++; return p; }
static char *h_strdup(const char *s) { if (oom()) return NULL; live++; return strdup(s); }
static void h_free(void *p) { live -= p != NULL; free(p); }
#define calloc(n, m) h_calloc(n, m)
#define malloc(n) h_calloc(n, 1)
#undef strdup
#define strdup(s) h_strdup(s)
#define free(p) h_free(p)
#include "coap_msg.c"
#include "util.c"
#include "uri.c"
#include "http_msg.c"
#include "cross.c"
#if VP_GROUP == 2
#include "data_buf.c"
#include <sys/select.h>
static int h_select(int n, fd_set *a, fd_set *b, fd_set *c, struct timeval *t);
#define select(n, a, b, c, t) h_select(n, a, b, c, t)
static size_t h_pending(void);
#define gnutls_record_check_pending(s) h_pending()
#include "connection.c"
#undef select
#endif
#undef calloc
#undef malloc
#undef strdup
#undef free
static int dig3(int st, const char *s) { return s != NULL && s[0] == '0' + st / 100 && s[1] == '0' + st / 10 % 10 && s[2] == '0' + st % 10 && s[3] == 0; }
static int status_of(unsigned c, unsigned d)
{
    static const short T2[] = {0, 200, 200, 304, 200, 200}, T4[] = {400, 401, 400, 403, 404, 405, 406, 0, 0, 0, 0, 0, 412, 413, 0, 415}, T5[] = {500, 501, 502, 503, 504, 501};
    return c == 2 && d < 6 ? T2[d] : c == 4 && d < 16 ? T4[d] : c == 5 && d < 6 ? T5[d] : 0;
}
#if VP_GROUP == 1
static struct { unsigned num; char v[300]; size_t n; } X[80]; static int nx;
static void ex(unsigned num, const char *v, size_t n) { if (nx < 80) { X[nx].num = num; X[nx].n = n; memcpy(X[nx].v, v, n); nx++; } }
static void split(unsigned num, const char *s, int c)
{
    while (1) { const char *e = strchr(s, c); size_t n = e ? (size_t)(e - s) : strlen(s); if (n > 0) ex(num, s, n); if (e == NULL) break; s = e + 1; }
}
static void cmpops(coap_msg_t *m)
{   /* the options in order of their numbers, those of one number in the order in which they were added */
    int used[80] = {0}; coap_msg_op_t *op = coap_msg_get_first_op(m);
    for (int k = 0; k < nx; k++)
    {
        int b = -1;
        for (int i = 0; i < nx; i++) if (!used[i] && (b < 0 || X[i].num < X[b].num)) b = i;
        used[b] = 1;
        VP_CHECK(op != NULL, "an option is missing");
        VP_CHECK(coap_msg_op_get_num(op) == X[b].num && coap_msg_op_get_len(op) == X[b].n && memcmp(coap_msg_op_get_val(op), X[b].v, X[b].n) == 0, "an option and its value");
        op = coap_msg_op_get_next(op);
    }
    VP_CHECK(op == NULL, "no other option");
}
static const char *ut[] = {"coap://", "coaps://", "http://", "COAP://", "host", "h:5683", "/", "//", "a", "bc", "?", "&", "x=1", "#f", "%2F", "%26", ":", "@", "[::1]", "temp"};
static int vp_run(void)
{
    http_msg_t h; coap_msg_t m; unsigned code = 0; int r;
    static char body[3000], cb[2048]; char t[400]; size_t n = 0, bl, end = 0, cap;
    live = 0; f_alloc = 0; pool_fail = -1; pool_len[0] = 300; pool_len[1] = 1200; pool_len[2] = 1200; pool_live[0] = pool_live[1] = pool_live[2] = 0;
    http_msg_create(&h); coap_msg_create(&m);
    nx = 0;
    unsigned f = in8();
    if (f & 1)
    {   /* request */
        static const char *meth[] = {"GET", "POST", "PUT", "DELETE", "HEAD", "get", "GETS", "PATCH"};
        int k = in8() & 7;
        if (f & 2) { strcpy(t, "coap://h:1/"); n = 11; }
        while (n < 200 && vp_left > 8) { unsigned q = in8(); const char *w = ut[q % 20]; if (q >= 230) break; strcpy(t + n, w); n += strlen(w); }
        t[n] = 0;
        int nh = in8() % 4, bad406 = 0;
        uri_t u; uri_create(&u);
        int ur = uri_parse(&u, t);
        if (ur == 0 && u.host) ex(COAP_MSG_URI_HOST, u.host, strlen(u.host));
        if (ur == 0 && u.port) ex(COAP_MSG_URI_PORT, u.port, strlen(u.port));
        if (ur == 0 && u.path && u.path[0] == '/') split(COAP_MSG_URI_PATH, u.path + 1, '/');
        if (ur == 0 && u.query) split(COAP_MSG_URI_QUERY, u.query, '&');
        if (http_msg_set_start(&h, meth[k], t, "HTTP/1.1") < 0) return 0;
        for (int i = 0; i < nh && !bad406; i++)
        {
            unsigned q = in8(); char v[40]; unsigned z = in16();
            switch (q % 6)
            {
            case 0: sprintf(v, "e%u", z); ex(COAP_MSG_ETAG, v, strlen(v)); http_msg_set_header(&h, q & 64 ? "ETAG" : "Etag", v); break;
            case 1: sprintf(v, "%smax-age=%u", q & 64 ? "no-store, " : "", z); http_msg_set_header(&h, "cache-control", v); sprintf(v, "%u", z); ex(COAP_MSG_MAX_AGE, v, strlen(v)); break;
            case 2: http_msg_set_header(&h, "Accept", q & 64 ? "text/plain" : "TEXT/Plain; q=1"); ex(COAP_MSG_ACCEPT, "0", 1); break;
            case 3: if (z % 4 == 0) { http_msg_set_header(&h, "accept", "text/html"); bad406 = 1; } break;
            case 4: http_msg_set_header(&h, "Cache-Control", "no-cache"); break;
            default: http_msg_set_header(&h, "Host", "max-age=3"); break;
            }
        }
        bl = in8() & 1 ? 0 : in8() & 1 ? in8() : in16() % 3000;
        for (size_t i = 0; i < bl; i++) body[i] = (char)(i * 7 + bl);
        if (bl) http_msg_set_body(&h, body, bl);
        cap = in8() & 1 ? sizeof cb : 1000 + in16() % 1048;
        memset(cb, 0, sizeof cb);
        if (in8() > 240) pool_fail = in8() % 6;
        if (in8() > 240) f_alloc = 1 + in8() % 4;
        int faults = pool_fail >= 0 || f_alloc > 0;
        end = 77;
        r = cross_req_http_to_coap(&m, cb, cap, &end, &h, &code);
        pool_fail = -1; f_alloc = 0;
        int okm = k < 4, oku = ur == 0 && u.scheme && (strcasecmp(u.scheme, "coap") == 0 || strcasecmp(u.scheme, "coaps") == 0) && !u.fragment && (!u.path || u.path[0] == '/');
        if (r == 0)
        {
            VP_CHECK(code == 0 && okm && oku && !bad406, "a request that can be translated");
            VP_CHECK(coap_msg_get_code_class(&m) == 0 && (int)coap_msg_get_code_detail(&m) == k + 1, "the method of the request");
            VP_CHECK(coap_msg_get_type(&m) == COAP_MSG_CON, "a confirmable request");
            cmpops(&m);
            if (bl <= COAP_MSG_MAX_PAYLOAD_LEN) VP_CHECK(coap_msg_get_payload_len(&m) == bl && (bl == 0 || memcmp(coap_msg_get_payload(&m), body, bl) == 0) && end == 77, "the body is the payload");
            else VP_CHECK(bl <= cap && end == bl && memcmp(cb, body, bl) == 0 && coap_msg_get_payload_len(&m) == 0, "a long body is kept for a block-wise transfer");
        }
        else
        {
            VP_CHECK(r < 0, "status");
            if (!okm) VP_CHECK(code == 501, "other methods are refused");
            else if (!oku && !faults) VP_CHECK(code == 400, "a URI that can not be translated is refused");
            else if (bad406 && !faults) VP_CHECK(code == 406, "what can not be accepted is refused");
            else { VP_CHECK(code == 502 || code == 400 || (bad406 && code == 406), "an error"); VP_CHECK(faults || bl > cap || nx >= 80, "a request that can be translated is translated"); }
        }
        uri_destroy(&u);
    }
    else
    {   /* response */
        unsigned c = f & 2 ? in8() : "\2\4\5"[in8() % 3], d = f & 4 ? in8() : in8() % 16; int nh = in8() % 4, k = 0; char hv[8][300]; int hn[8];
        m.code_class = c; m.code_detail = d;
        int toolong = 0;
        for (int i = 0; i < nh; i++)
        {
            unsigned q = in8(), z = in16(); char v[300]; size_t L;
            switch (q % 5)
            {
            case 0: L = 1 + z % 8; memset(v, 'e', L); v[0] = 'a' + z % 26; if (coap_msg_add_op(&m, COAP_MSG_ETAG, L, v) < 0) return 0; break;
            case 1: sprintf(v, "%u", z); if (coap_msg_add_op(&m, COAP_MSG_MAX_AGE, strlen(v), v) < 0) return 0; break;
            case 2: if (coap_msg_add_op(&m, COAP_MSG_ACCEPT, 1, q & 64 ? "0" : "1") < 0) return 0; break;
            case 3: L = z % 300; memset(v, 'u', L); if (coap_msg_add_op(&m, COAP_MSG_LOCATION_PATH, L, v) < 0) return 0; break;
            default: if (coap_msg_add_op(&m, COAP_MSG_MAX_AGE, 1, "x") < 0) return 0; break;
            }
        }
        for (coap_msg_op_t *op = coap_msg_get_first_op(&m); op; op = coap_msg_op_get_next(op))
        {   /* in the order of the options */
            char *v = coap_msg_op_get_val(op); size_t L = coap_msg_op_get_len(op);
            if (L >= 256) toolong = 1;
            if (op->num == COAP_MSG_ETAG) { hn[k] = 1; memcpy(hv[k], v, L); hv[k][L] = 0; k++; }
            else if (op->num == COAP_MSG_MAX_AGE && v[0] != 'x') { hn[k] = 2; memcpy(hv[k], "max-age=", 8); memcpy(hv[k] + 8, v, L); hv[k][8 + L] = 0; k++; }
            else if (op->num == COAP_MSG_ACCEPT && v[0] == '0') { hn[k] = 3; strcpy(hv[k], "text/plain"); k++; }
        }
        bl = in8() & 1 ? 0 : in16() % 1000; size_t cl = in8() & 1 ? 0 : in16() % 2000;
        for (size_t i = 0; i < 2048; i++) { body[i] = (char)(i * 5 + 1); cb[i] = (char)(i * 3 + 2); }
        if (bl && coap_msg_set_payload(&m, body, bl) < 0) return 0;
        if (in8() > 240) f_alloc = 1 + in8() % 12;
        int faults = f_alloc > 0;
        r = cross_resp_coap_to_http(&h, &m, cb, cl, &code);
        f_alloc = 0;
        int st = status_of(c, d);
        if (r == 0)
        {
            size_t want = cl ? cl : bl; const char *src = cl ? cb : body;
            VP_CHECK(code == 0 && (st ? dig3(st, h.start[1]) : (unsigned)(h.start[1][0] - '0') == c) && strcmp(h.start[0], "HTTP/1.1") == 0, "the status that the response code stands for");
            http_msg_header_t *x = http_msg_get_first_header(&h);
            for (int i = 0; i < k; i++, x = x->next)
            {
                VP_CHECK(x != NULL, "a header is missing");
                VP_CHECK(strcasecmp(x->name, hn[i] == 1 ? "Etag" : hn[i] == 2 ? "Cache-Control" : "Accept") == 0 && strcmp(x->value, hv[i]) == 0, "a header and its value");
            }
            VP_CHECK(http_msg_get_body_len(&h) == want && (want == 0 || memcmp(http_msg_get_body(&h), src, want) == 0), "the body of the response");
            if (want) { char w[20]; sprintf(w, "%zu", want); VP_CHECK(x != NULL && strcasecmp(x->name, "Content-Length") == 0 && strcmp(x->value, w) == 0, "its length"); }
        }
        else { VP_CHECK(r < 0 && code == 502, "an error"); VP_CHECK(st == 0 || faults || toolong, "a response that can be translated is translated"); }
    }
    http_msg_destroy(&h); coap_msg_destroy(&m);
    VP_CHECK(live == 0 && pool_live[0] == 0 && pool_live[1] == 0 && pool_live[2] == 0, "all memory is released");
    return 0;
}
#else
static struct { int m, host, port, L, seen; int st; const char *b; size_t bl; int cut; } R[6], *cur; static int nr, done;
static int faults;
static const char *hosts[] = {"aa", "AA", "b.c", "x"}, *ports[] = {"1", "22"}, *mt[] = {"GET", "POST", "PUT", "DELETE"};
static char in[70000]; static size_t nin, pos, rec[16]; static int nrec, irec; static size_t rest;
static char bodies[10000], rbody[9000];
static int h_select(int n, fd_set *a, fd_set *b, fd_set *c, struct timeval *t) { return irec < nrec; }
static size_t h_pending(void) { return rest; }
ssize_t tls_sock_read(tls_sock_t *s, void *b, size_t n)
{
    if (rest == 0) { if (irec == nrec) return 0; rest = rec[irec++]; }
    if (n > rest) n = rest;
    memcpy(b, in + pos, n);
    pos += n; rest -= n;
    return n;
}
ssize_t tls_sock_write_full(tls_sock_t *s, void *b, size_t n)
{
    char *t = b, e[40]; size_t L = 0;
    VP_CHECK(done < nr, "one response for a request");
    cur = &R[done++];
    if (faults) return n;
    sprintf(e, "HTTP/1.1 %d ", cur->st);
    VP_CHECK(n > strlen(e) && memcmp(t, e, strlen(e)) == 0, "the status of the response");
    for (L = 0; L + 4 <= n && memcmp(t + L, "\r\n\r\n", 4) != 0; L++) ;
    VP_CHECK(L + 4 <= n, "the end of the headers");
    VP_CHECK(n - L - 4 == cur->bl && memcmp(t + L + 4, cur->b, cur->bl) == 0, "the body of the response");
    sprintf(e, "Content-Length: %zu\r\n", cur->bl);
    if (cur->bl) { size_t i; for (i = 0; i < L && strncasecmp(t + i, e, strlen(e)) != 0; i++) ; VP_CHECK(i < L, "its length"); }
    return n;
}
void tls_sock_close(tls_sock_t *s) { }
void tls_sock_get_addr_string_(char *out, size_t n, sock_in_addr_t a) { out[0] = 0; }
const char *sock_strerror(int e) { return ""; }
void thread_block_signals(void) { }
static int c_open; static char c_host[20], c_port[20];
int coap_client_create(coap_client_t *c, const char *host, const char *port, const char *a, const char *b, const char *d, const char *e, const char *f)
{
    VP_CHECK(!c_open, "one connection with a CoAP server");
    if (oom()) return -ECONNREFUSED;
    strcpy(c_host, host); strcpy(c_port, port); c_open = 1;
    return 0;
}
void coap_client_destroy(coap_client_t *c) { VP_CHECK(c_open, "an open connection is closed"); c_open = 0; }
static void seen(coap_msg_t *a)
{
    cur = &R[done];
    VP_CHECK(done < nr && c_open, "a request");
    VP_CHECK(strcasecmp(c_host, hosts[cur->host]) == 0 && strcmp(c_port, ports[cur->port]) == 0, "a request is sent to the host and the port of its URI only");
    VP_CHECK((int)coap_msg_get_code_detail(a) == cur->m + 1, "the method of the request");
}
static unsigned script(void) { return in8(); }
static void reply(coap_msg_t *b, unsigned c, unsigned d, size_t n)
{
    coap_msg_reset(b); b->code_class = c; b->code_detail = d;
    VP_CHECK(n == 0 || coap_msg_set_payload(b, rbody, n) == 0 || faults, "payload");
    cur->st = status_of(c, d); cur->b = rbody; cur->bl = n;
    if (cur->st == 0) { cur->st = 502; cur->bl = 0; }
}
int coap_client_exchange(coap_client_t *c, coap_msg_t *a, coap_msg_t *b)
{
    seen(a);
    VP_CHECK(!cur->seen, "a request is sent once");
    cur->seen = 1;
    VP_CHECK(cur->L <= 1024 ? (int)coap_msg_get_payload_len(a) == cur->L && (cur->L == 0 || memcmp(coap_msg_get_payload(a), bodies, cur->L) == 0) : cur->m == 0 || cur->m == 3, "the body of the request is its payload");
    unsigned q = script();
    cur->bl = 0; cur->b = rbody;
    if (q < 20) { cur->st = q < 8 ? 504 : q < 14 ? 502 : 501; return q < 8 ? -ETIMEDOUT : q < 14 ? -EBADMSG : q == 14 ? -ECONNRESET : q == 15 ? -ENOMEM : q == 16 ? -1 : q == 17 ? -ENOSPC : -EINVAL; }
    if (q < 60 && cur->m == 0)
    {   /* first block of a longer response */
        reply(b, 2, 5, 32);
        char v[1] = {(char)(1 | 8)};
        VP_CHECK(coap_msg_add_op(b, COAP_MSG_BLOCK2, 1, v) == 0 || faults, "option");
        return 0;
    }
    if (q < 60 && (cur->m == 1 || cur->m == 2) && cur->L > 0) { reply(b, 4, 13, 0); cur->bl = 0; return 0; }
    if (q < 70) { reply(b, 2, 0, 5); return 0; }
    if (q < 90) { reply(b, 4, 4, q & 1 ? 9 : 0); return 0; }
    reply(b, 2, cur->m == 3 ? 2 : 5, script() % 3 ? script() * 4 : 0);
    return 0;
}
ssize_t coap_client_exchange_blockwise(coap_client_t *c, coap_msg_t *a, coap_msg_t *b, unsigned s1, unsigned s2, char *body, size_t len, int have)
{
    unsigned q = script(); size_t n;
    seen(a);
    VP_CHECK(cur->seen < 2, "one transfer");
    if (cur->m == 0) { VP_CHECK(have && cur->seen, "the rest of the response"); n = 33 + (q * 40) % 8000; }
    else { VP_CHECK(!have && cur->L > 0 && (int)len == cur->L && memcmp(body, bodies, len) == 0 && cur->seen == (cur->L <= 1024), "the body of the request"); n = q & 1 ? 0 : len < 40 ? len : 40; }
    cur->seen = 2;
    cur->bl = 0; cur->b = rbody;
    if (q > 250) { cur->st = 504; return -ETIMEDOUT; }
    if (n > len) n = len;
    reply(b, 2, cur->m ? 4 : 5, 0);
    memcpy(body, rbody, n);
    cur->bl = n;
    return n;
}
static int vp_run(void)
{
    tls_sock_t *s; param_t prm; connection_t *c;
    live = 0; f_alloc = 0; pool_fail = -1; pool_len[0] = 300; pool_len[1] = 1200; pool_len[2] = 1200; pool_live[0] = pool_live[1] = pool_live[2] = 0;
    nin = pos = rest = 0; nrec = irec = done = c_open = 0; memset(R, 0, sizeof R); memset(&prm, 0, sizeof prm);
    for (size_t i = 0; i < sizeof bodies; i++) bodies[i] = (char)(i * 7 + i / 251);
    for (size_t i = 0; i < sizeof rbody; i++) rbody[i] = (char)(i * 3 + i / 253 + 1);
    nr = 1 + in8() % 4;
    for (int i = 0; i < nr; i++)
    {
        unsigned x = in8(), y = in8();
        R[i].m = x & 3; R[i].host = x >> 2 & 3; R[i].port = x >> 4 & 1;
        R[i].L = y < 90 ? 0 : y < 150 ? y : y < 200 ? y * 20 : y < 230 ? 1000 + y % 40 : y * 37;
        int sch = in8() % 9;
        nin += sprintf(in + nin, "%s %s://%s", sch == 0 ? "HEAD" : mt[R[i].m], sch == 1 ? "http" : "coap", hosts[R[i].host]);
        if (sch != 2) nin += sprintf(in + nin, ":%s", ports[R[i].port]);
        nin += sprintf(in + nin, "/p/q?z HTTP/1.1\r\nContent-Length: %d\r\n\r\n", R[i].L);
        memcpy(in + nin, bodies, R[i].L); nin += R[i].L;
        R[i].b = rbody; R[i].bl = 0;
        R[i].st = sch == 0 ? 501 : sch == 1 || sch == 2 ? 400 : R[i].L > 8192 ? 502 : 0;
        if (sch == 2 && R[i].L > 8192) R[i].st = 502;
    }
    for (size_t p = 0; p < nin; ) { size_t n = nrec == 15 ? nin - p : in8() & 1 ? 1 + in8() * 64 : nin - p; if (n > nin - p) n = nin - p; rec[nrec++] = n; p += n; }
    s = calloc(1, sizeof *s); live++;
    c = connection_new(s, 0, 0, &prm);
    if (c == NULL) { free(s); return 0; }
    /* at times something fails: then safety, ownership and the number of answers are looked at */
    faults = 0;
    if (in8() > 224) { faults = 1; if (in8() & 1) f_alloc = 1 + in8() % 60; else pool_fail = in8() % 30; }
    connection_thread_func(c);
    VP_CHECK(faults || done == nr, "every request that was received is answered");
    VP_CHECK(live == 0 && !c_open && pool_live[0] == 0 && pool_live[1] == 0 && pool_live[2] == 0, "all is released");
    return 0;
}
#endif
