/* proxy/common/src/cross.c: translation between HTTP and CoAP messages.
 * The functions of the HTTP, CoAP and URI modules are contracts that record what they are given. */
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <strings.h>
#include <errno.h>
#include "vp.h"
#include "cross.h"
#include "uri.h"
size_t vp_g;
#define MAXT ((size_t)1 << 30)
#define POST(c, t) __CPROVER_assert(c, "vp_post " t)
#define INVT(c, t) __CPROVER_assert(c, "vp_inv " t)
#define CUT __CPROVER_assume(0)
int nd_int(void) { int x; return x; }
size_t nd_size(void) { size_t x; return x; }
char nd_char(void) { char x; return x; }
static int err(void) { int e; __CPROVER_assume(e < 0 && e > -4096); return e; }
static struct
{
    int c0, c1; size_t o0, o1, k; int hk;
    int added[64], adds; unsigned num; size_t len; const char *val; int fail;
    int destroyed, parsed;
    int cls, det, codes;
    int st, starts; char re;
    int hdrs, hname; int bodies; int pays;
    char wit; int wok; size_t plen;
    int reset;
} G;
static coap_msg_t cm; static http_msg_t hm;
static char *S[2]; static size_t n[2];                  /* path and query, any bytes */
static char V[8];                                       /* opaque texts: scheme, host, port, fragment, header names and values */
static size_t vlen[8]; static int sch, kind, plain, agefound, agenum; static unsigned age;
static http_msg_header_t H[2]; static coap_msg_op_t OP[2];
static int same(const char *a, const char *b)
{   /* strings, one of them a literal of less than 24 characters */
    for (int i = 0; i < 24; i++) { if (a[i] != b[i]) return 0; if (a[i] == 0) return 1; }
    return 0;
}
#define VIS(p, i) ((p) == V + (i))
static size_t vp_strlen(const char *s)
{
    for (int i = 0; i < 2; i++) if (S[i] != NULL && __CPROVER_same_object(s, S[i])) return n[i] - __CPROVER_POINTER_OFFSET(s);
    for (int i = 0; i < 8; i++) if (s == V + i) return vlen[i];
    for (size_t i = 0; i < 29; i++) if (s[i] == 0) return i;
    __CPROVER_assert(0, "vp_spec: strlen");
    return 0;
}
static char *vp_strchr(const char *s, int c)
{
    int q = S[1] != NULL && __CPROVER_same_object(s, S[1]);
    size_t o = __CPROVER_POINTER_OFFSET(s), k;
    __CPROVER_assert((q || (S[0] != NULL && __CPROVER_same_object(s, S[0]))) && o <= n[q], "vp_safe: inside the text");
    POST(c == (q ? '&' : '/'), "a path is split at slashes and a query at ampersands");
    if (nd_int()) { G.hk = 0; return NULL; }
    __CPROVER_assume(k >= o && k < n[q] && S[q][k] == c);
    G.hk = 1; G.k = k;
    return S[q] + k;
}
static int vp_strcmp(const char *a, const char *b) { return !same(a, b); }
static int vp_strcasecmp(const char *a, const char *b)
{
    if (VIS(a, 0)) { if (same(b, "coap")) return sch != 0; if (same(b, "coaps")) return sch != 1; }
    if (VIS(a, 4)) { if (b[0] == 'E' && b[1] == 't') return kind != 0; if (b[0] == 'C' && b[6] == 'C') return kind != 1; if (b[0] == 'A' && b[6] == 0) return kind != 2; }
    __CPROVER_assert(0, "vp_spec: comparison");
    return 1;
}
static int vp_strncasecmp(const char *a, const char *b, size_t k) { __CPROVER_assert(VIS(a, 5) && b[0] == 't' && k == 10, "vp_spec: comparison"); return !plain; }
static char *vp_strstr(const char *a, const char *b) { __CPROVER_assert(VIS(a, 5) && b[0] == 'm' && b[7] == '=', "vp_spec: search"); return agefound ? V + 6 : NULL; }
static int vp_sscanf(const char *a, const char *f, unsigned *p)
{
    if (!agenum) return 0;
    *p = age;
    return 1;
}
/* decimal numbers: what was printed, where */
static char *pr_at; static size_t pr_val; static int pr_n, pr_kind;
static int vp_snprintf(char *d, size_t k, const char *f, size_t v)
{
    __CPROVER_assert(__CPROVER_w_ok(d, k) && k >= 32, "vp_safe: snprintf");
    pr_at = d; pr_val = v; pr_kind = f[0] == 'm' ? 1 : 0;
    __CPROVER_assert(same(f, "%u") || same(f, "%zu") || same(f, "max-age=%u"), "vp_spec: format");
    pr_n = nd_int();
    __CPROVER_assume(pr_n >= 1 && pr_n <= 28);
    for (int i = 0; i < 28; i++) if (i < pr_n) d[i] = '1';
    d[pr_n] = 0;
    return pr_n;
}
static void *vp_memcpy(void *d, const void *s, size_t k)
{
    __CPROVER_assert(k == 0 || (__CPROVER_w_ok(d, k) && __CPROVER_r_ok(s, k)), "vp_safe: memcpy");
    size_t o = __CPROVER_POINTER_OFFSET(d);
    if (vp_g >= o && vp_g - o < k) ((char *)d)[vp_g - o] = ((const char *)s)[vp_g - o];
    return d;
}
#define strlen(a) vp_strlen(a)
#define strchr(a, c) vp_strchr(a, c)
#define strcmp(a, b) vp_strcmp(a, b)
#define strcasecmp(a, b) vp_strcasecmp(a, b)
#define strncasecmp(a, b, k) vp_strncasecmp(a, b, k)
#define strstr(a, b) vp_strstr(a, b)
#define sscanf(a, f, p) vp_sscanf(a, f, p)
#define snprintf(d, k, f, v) vp_snprintf(d, k, f, v)
#define memcpy(d, s, k) vp_memcpy(d, s, k)
static int has[4];
int uri_parse(uri_t *uri, const char *str)
{
    POST(str == hm.start[1] || str == V + 7, "the URI of the request");
    if (nd_int()) { G.parsed = 1; return -EBADMSG; }
    G.parsed = 2;
    uri->scheme = nd_int() ? V : NULL; uri->host = nd_int() ? V + 1 : NULL; uri->port = nd_int() ? V + 2 : NULL; uri->fragment = nd_int() ? V + 3 : NULL;
    has[0] = uri->scheme != NULL; has[1] = uri->host != NULL; has[2] = uri->port != NULL; has[3] = uri->fragment != NULL;
    uri->path = S[0]; uri->query = S[1]; uri->userinfo = NULL;
    return 0;
}
static uri_t *last_uri;
void uri_create(uri_t *uri) { memset(uri, 0, sizeof *uri); }
void uri_destroy(uri_t *uri) { G.destroyed++; memset(uri, 0, sizeof *uri); }
int coap_msg_set_code(coap_msg_t *m, unsigned c, unsigned d) { POST(m == &cm, "message"); G.cls = c; G.det = d; G.codes++; return 0; }
int coap_msg_set_type(coap_msg_t *m, unsigned t) { POST(t == COAP_MSG_CON, "a confirmable request"); return 0; }
void coap_msg_reset(coap_msg_t *m) { POST(m == &cm && G.adds == 0 && G.codes == 0 && G.pays == 0, "the message is empty at first"); G.reset = 1; }
int coap_msg_add_op(coap_msg_t *m, unsigned num, unsigned len, const char *val)
{
    POST(m == &cm, "message");
    if (nd_int()) { G.fail = 1; return err(); }
    G.adds++;
    if (num < 64) G.added[num]++;
    G.num = num; G.len = len; G.val = val;
    G.wok = 0;
    if (num == COAP_MSG_URI_HOST || num == COAP_MSG_URI_PORT) { int i = num == COAP_MSG_URI_HOST ? 1 : 2; POST(has[i] && val == V + i && len == vlen[i], "the host or the port of the URI"); }
    if (num == COAP_MSG_ACCEPT) { POST(len == 1 && val[0] == '0', "text/plain is content format 0"); }
    return 0;
}
int coap_msg_set_payload(coap_msg_t *m, char *buf, size_t len) { POST(m == &cm && buf == hm.body && len == hm.body_len && len <= COAP_MSG_MAX_PAYLOAD_LEN, "the body is the payload"); if (nd_int()) return err(); G.pays++; return 0; }
void http_msg_reset(http_msg_t *m) { POST(m == &hm && G.starts == 0 && G.hdrs == 0, "the message is empty at first"); G.reset = 1; }
int http_msg_set_start(http_msg_t *m, const char *a, const char *b, const char *c)
{
    POST(m == &hm && same(a, "HTTP/1.1"), "version");
    POST(b[0] >= '1' && b[0] <= '9' && b[1] >= '0' && b[1] <= '9' && b[2] >= '0' && b[2] <= '9' && b[3] == 0, "a status of three digits");
    if (nd_int()) return -ENOMEM;
    G.st = (b[0] - '0') * 100 + (b[1] - '0') * 10 + b[2] - '0'; G.re = c[0];
    G.starts++;
    return 0;
}
int http_msg_set_header(http_msg_t *m, const char *name, const char *value)
{
    POST(m == &hm, "message");
    if (nd_int()) return -ENOMEM;
    G.hdrs++;
    G.hname = same(name, "Etag") ? 1 : same(name, "Cache-Control") ? 2 : same(name, "Accept") ? 3 : same(name, "Content-Length") ? 4 : 5;
    if (G.hname == 1) { G.wit = vp_g < 256 ? value[vp_g] : 0; G.wok = OP[0].len < 256 && value[OP[0].len] == 0; }
    if (G.hname == 2) POST(value == pr_at && pr_kind == 1 && pr_val == age, "Max-Age becomes max-age");
    if (G.hname == 3) POST(same(value, "text/plain"), "content format 0 is text/plain");
    if (G.hname == 4) { POST(value == pr_at && pr_kind == 0, "length"); G.plen = pr_val; }
    return 0;
}
static const char *b_buf; static size_t b_len;
int http_msg_set_body(http_msg_t *m, const char *buf, size_t len) { POST(m == &hm, "message"); if (nd_int()) return -ENOMEM; G.bodies++; b_buf = buf; b_len = len; return 0; }
int uri_set_scheme(uri_t *u, const char *s) { return nd_int() ? err() : 0; }
#ifdef VP_OUT
static int o_c[4]; static size_t o_num; static int o_set[4]; static char o_b[2];
static char *tmp_;
static int seth(int i, const char *s)
{   /* the text handed over is a string inside the temporary buffer */
    POST(i > 1 || (OP[0].num == (i ? COAP_MSG_URI_PORT : COAP_MSG_URI_HOST) && OP[0].len < 256 && s[OP[0].len] == 0 && (vp_g >= OP[0].len || s[vp_g] == OP[0].val[vp_g])), "host and port are the values of their options");
    o_set[i]++;
    return nd_int() ? err() : 0;
}
int uri_set_host(uri_t *u, const char *s) { return seth(0, s); }
int uri_set_port(uri_t *u, const char *s) { return seth(1, s); }
static void last(int i, const char *s)
{   /* what the last option added */
    size_t at = o_num + (i == 2 || o_num > 0), e = at + OP[0].len;
    if (!o_c[i]) return;
    if (OP[0].num == (i == 2 ? COAP_MSG_URI_PATH : COAP_MSG_URI_QUERY)) POST(e <= 255 && s[e] == 0 && (at == o_num || s[o_num] == (i == 2 ? '/' : '&')) && (vp_g >= o_num || s[vp_g] == o_b[0]) && (vp_g < at || vp_g >= e || s[vp_g] == OP[0].val[vp_g - at]), "all segments, in order");
    else POST(o_num == 0 ? i == 2 : s[o_num] == 0 && (vp_g >= o_num || s[vp_g] == o_b[0]), "the segments before are kept");
}
int uri_set_path(uri_t *u, const char *s) { last(2, s); POST((s[0] == '/' && (o_num > 0 || s[1] == 0)) || o_c[2], "a path begins with a slash"); return seth(2, s); }
int uri_set_query(uri_t *u, const char *s) { last(3, s); POST(o_c[3], "there is a query"); return seth(3, s); }
size_t uri_generate(uri_t *u, char *buf, size_t len) { G.hk = 1; size_t k; __CPROVER_assume(k <= MAXT); G.k = k; return k; }
static void nextop(void) { OP[0].num = nd_int(); OP[0].next = nd_int() ? &OP[1] : NULL; }
#define NEXTOP(i) if (!o_c[i]) { INVT(op == cm.op_list.first, "the first option"); o_c[i] = 1; op = &OP[0]; nextop(); } else { INVT(op == OP[0].next && (OP[0].num != (i ? COAP_MSG_URI_PORT : COAP_MSG_URI_HOST)), "the next option"); CUT; }
#define NEXTSEG(i, N) if (!o_c[i]) { INVT(op == cm.op_list.first && num == 0, "the first option"); o_c[i] = 1; op = &OP[0]; nextop(); size_t k; __CPROVER_assume(k <= 255); num = k; o_num = k; if (k > 0) tmp[k] = 0; if (vp_g < k)  o_b[0] = tmp[vp_g]; } \
    else { INVT(op == OP[0].next && num <= 255 && (num == 0 || tmp[num] == 0), "a string"); \
        POST(vp_g >= o_num || tmp[vp_g] == o_b[0], "the segments before are kept"); \
        if (OP[0].num == N) { size_t at = o_num + (i == 2 || o_num > 0); POST(num == at + OP[0].len && (at == o_num || tmp[o_num] == (i == 2 ? '/' : '&')), "a segment is put behind"); \
            POST(vp_g < at || vp_g >= num || tmp[vp_g] == OP[0].val[vp_g - at], "its value"); VP_REACH("segment"); } \
        else POST(num == o_num, "other options are passed over"); CUT; }
#define VP_B_cross_uri_coap_to_http_0 NEXTOP(0)
#define VP_B_cross_uri_coap_to_http_1 NEXTOP(1)
#define VP_B_cross_uri_coap_to_http_2 NEXTSEG(2, COAP_MSG_URI_PATH)
#define VP_B_cross_uri_coap_to_http_3 NEXTSEG(3, COAP_MSG_URI_QUERY)
#endif
#ifdef VP_URI
#define SEG(q, C, O, N) \
    if (!G.C) { INVT(str == S[q] + (1 - q), "the first segment"); G.C = 1; size_t o; __CPROVER_assume(o >= 1 - q && o <= n[q]); str = S[q] + o; G.O = o; G.added[N] = 0; } \
    else { INVT(G.hk && str == S[q] + G.k + 1, "the next segment follows the delimiter"); \
        POST(G.added[N] == (G.k > G.O), "a segment that is not empty becomes an option"); \
        POST(G.k == G.O || (G.num == N && G.len == G.k - G.O && G.val == S[q] + G.O), "its value"); VP_REACH("next segment"); CUT; }
#define VP_B_cross_uri_http_to_coap_0 SEG(0, c0, o0, COAP_MSG_URI_PATH)
#define VP_B_cross_uri_http_to_coap_1 vp_pathend(); SEG(1, c1, o1, COAP_MSG_URI_QUERY)
static int path_done;
static void vp_pathend(void)
{
    if (path_done) return;
    path_done = 1;
    if (G.c0) { POST(G.added[COAP_MSG_URI_PATH] == (n[0] > G.o0), "the last segment"); POST(n[0] == G.o0 || (G.num == COAP_MSG_URI_PATH && G.len == n[0] - G.o0 && G.val == S[0] + G.o0), "its value"); }
}
#endif
#ifdef VP_HIN
#define VP_B_cross_headers_http_to_coap_0 \
    if (!G.c0) { INVT(http_header == hm.header.first, "the first header"); G.c0 = 1; http_header = &H[0]; } \
    else { INVT(http_header == H[0].next, "the next header"); \
        POST(G.adds == (kind == 0 || (kind == 1 && agefound && agenum) || kind == 2), "a header that is known becomes an option"); \
        POST(kind != 0 || (G.num == COAP_MSG_ETAG && G.val == V + 5 && G.len == vlen[5]), "Etag"); \
        POST(kind != 1 || G.adds == 0 || (G.num == COAP_MSG_MAX_AGE && G.val == pr_at && pr_val == age && pr_kind == 0 && G.len == pr_n), "Max-Age"); \
        POST(kind != 2 || (plain && G.num == COAP_MSG_ACCEPT), "Accept"); VP_REACH("next header"); CUT; }
#endif
#ifdef VP_HOUT
#define VP_B_cross_headers_coap_to_http_0 \
    if (!G.c0) { INVT(op == cm.op_list.first, "the first option"); G.c0 = 1; op = &OP[0]; } \
    else { INVT(op == OP[0].next, "the next option"); \
        if (OP[0].val != NULL) { \
        POST(OP[0].num != COAP_MSG_ETAG || (G.hdrs == 1 && G.hname == 1 && G.wok && (vp_g >= OP[0].len || G.wit == OP[0].val[vp_g])), "Etag"); \
        POST(OP[0].num != COAP_MSG_MAX_AGE || (G.hdrs == (agenum != 0) && (G.hdrs == 0 || G.hname == 2)), "Max-Age"); \
        POST(OP[0].num != COAP_MSG_ACCEPT || (G.hdrs == (OP[0].len == 1 && OP[0].val[0] == '0') && (G.hdrs == 0 || G.hname == 3)), "Accept"); } \
        POST(OP[0].num == COAP_MSG_ETAG || OP[0].num == COAP_MSG_MAX_AGE || OP[0].num == COAP_MSG_ACCEPT || G.hdrs == 0, "no other option becomes a header"); VP_REACH("next option"); CUT; }
#endif
#ifdef VP_REQ
static int cross_method_http_to_coap(coap_msg_t *coap_msg, http_msg_t *http_msg, unsigned *code);
int cross_uri_http_to_coap(coap_msg_t *coap_msg, const char *http_uri);
static int cross_headers_http_to_coap(coap_msg_t *coap_msg, http_msg_t *http_msg, unsigned *code);
#endif
#ifdef VP_RESP
static int cross_status_coap_to_http(http_msg_t *http_msg, coap_msg_t *coap_msg);
static int cross_headers_coap_to_http(coap_msg_t *coap_msg, http_msg_t *http_msg);
#endif
#include "cross.c"
#undef strlen
#ifdef VP_REQ
static int step[4];
static int cross_method_http_to_coap(coap_msg_t *a, http_msg_t *b, unsigned *code) { POST(a == &cm && b == &hm && G.reset, "method"); step[0]++; if (nd_int()) { *code = nd_int() ? 400 : 501; step[3]++; return -EBADMSG; } return 0; }
int cross_uri_http_to_coap(coap_msg_t *a, const char *u) { POST(a == &cm && u == hm.start[1] && G.reset, "URI"); step[1]++; if (nd_int()) { step[3]++; return err(); } return 0; }
static int cross_headers_http_to_coap(coap_msg_t *a, http_msg_t *b, unsigned *code) { POST(a == &cm && b == &hm && G.reset, "headers"); step[2]++; if (nd_int()) { *code = nd_int() ? 406 : 502; step[3]++; return err(); } return 0; }
#endif
#ifdef VP_RESP
static int step[4];
static int cross_status_coap_to_http(http_msg_t *b, coap_msg_t *a) { POST(a == &cm && b == &hm && G.reset, "status"); step[0]++; if (nd_int()) { step[3]++; return err(); } return 0; }
static int cross_headers_coap_to_http(coap_msg_t *a, http_msg_t *b) { POST(a == &cm && b == &hm && G.reset, "headers"); step[1]++; if (nd_int()) { step[3]++; return err(); } return 0; }
#endif
static int is(const char *a, const char *b) { return same(a, b); }
void vp_harness(void)
{
    int r; unsigned code = nd_int();
    memset(&G, 0, sizeof G);
    vp_g = nd_size();
    S[0] = S[1] = NULL;
    for (int i = 0; i < 8; i++) { size_t k; __CPROVER_assume(k <= MAXT); vlen[i] = k; }
    sch = nd_int(); kind = nd_int(); plain = nd_int() != 0; agefound = nd_int() != 0; agenum = nd_int() != 0; age = nd_int();
    __CPROVER_assume(sch >= 0 && sch <= 2 && kind >= 0 && kind <= 3);
#if defined VP_METHOD
    char m[9]; m[8] = 0;
    hm.start[0] = nd_int() ? m : NULL;
    r = cross_method_http_to_coap(&cm, &hm, &code);
    int want = hm.start[0] == NULL ? 0 : is(m, "GET") ? 1 : is(m, "POST") ? 2 : is(m, "PUT") ? 3 : is(m, "DELETE") ? 4 : 0;
    if (r == 0) { VP_REACH("method"); POST(want != 0 && G.codes == 1 && G.cls == 0 && G.det == want, "the method of the request"); }
    else { VP_REACH("no method"); POST(want == 0 && r < 0 && code == (hm.start[0] == NULL ? 400 : 501), "other methods are refused"); }
#elif defined VP_STATUS
    static const short T2[] = {0, 200, 200, 304, 200, 200}, T4[] = {400, 401, 400, 403, 404, 405, 406, 0, 0, 0, 0, 0, 412, 413, 0, 415}, T5[] = {500, 501, 502, 503, 504, 501};
    unsigned c = nd_int(), d = nd_int();
    cm.code_class = c; cm.code_detail = d;
    r = cross_status_coap_to_http(&hm, &cm);
    int w = c == 2 && d < 6 ? T2[d] : c == 4 && d < 16 ? T4[d] : c == 5 && d < 6 ? T5[d] : 0;
    POST(r < 0 || G.starts == 1, "a start line is set");
    if (r == 0) { VP_REACH("status"); POST(w != 0 ? G.st == w : (unsigned)(G.st / 100) == c, "the status is the one that the response code stands for"); }
    else { VP_REACH("no status"); POST(r == -EBADMSG ? w == 0 : r == -ENOMEM, "a known response code is translated"); }
#elif defined VP_URI
    for (int i = 0; i < 2; i++) if (nd_int())
    {
        size_t k; __CPROVER_assume(k <= MAXT && k >= 1 - i);
        n[i] = k; S[i] = malloc(k + 1); __CPROVER_assume(S[i] != NULL); S[i][k] = 0;
        __CPROVER_assume(i || k == 0 || S[i][0] != 0);
    }
    path_done = 0;
    /* what the parser said is kept here */
    r = cross_uri_http_to_coap(&cm, V + 7);
    POST(G.destroyed >= 1, "the parsed URI is released");
    if (r == 0)
    {
        VP_REACH("translated");
        vp_pathend();
        POST(G.added[COAP_MSG_URI_HOST] == has[1] && G.added[COAP_MSG_URI_PORT] == has[2], "the host and the port of the URI");
        POST(!G.fail, "what can not be added is not left out");
        POST(G.parsed == 2 && sch < 2 && has[0] && !has[3], "only URIs of CoAP are translated");
        POST(G.c0 == (S[0] != NULL) && G.c1 == (S[1] != NULL), "path and query are translated");
        if (G.c1) { POST(G.added[COAP_MSG_URI_QUERY] == (n[1] > G.o1), "the last part"); POST(n[1] == G.o1 || (G.num == COAP_MSG_URI_QUERY && G.len == n[1] - G.o1 && G.val == S[1] + G.o1), "its value"); }
    }
    else VP_REACH("refused");
#elif defined VP_HOST
    r = cross_uri_http_to_coap(&cm, V + 7);
#elif defined VP_HIN
    for (int i = 0; i < 2; i++) { H[i].name = V + 4; H[i].value = V + 5; H[i].next = NULL; }
    H[0].next = nd_int() ? &H[1] : NULL;
    hm.header.first = nd_int() ? &H[0] : NULL;
    r = cross_headers_http_to_coap(&cm, &hm, &code);
    if (r < 0) { VP_REACH("refused"); POST(kind == 2 && !plain ? r == -EBADMSG && code == 406 && G.adds == 0 : code == 502 && G.fail, "what can not be accepted is 406, all else 502"); }
    else { VP_REACH("no more headers"); POST(!G.c0 || H[0].next == NULL, "all headers are looked at"); }
#elif defined VP_HOUT
    size_t L; __CPROVER_assume(L <= 70000);
    OP[0].num = nd_int(); OP[0].len = L; OP[0].val = nd_int() ? malloc(L) : NULL; OP[0].next = nd_int() ? &OP[1] : NULL;
    __CPROVER_assume(L > 0 || 1);
    cm.op_list.first = nd_int() ? &OP[0] : NULL;
    r = cross_headers_coap_to_http(&cm, &hm);
    if (r < 0) { VP_REACH("refused"); POST(r == -ENOMEM || (r == -ENOSPC && L >= 256 - 1), "errors"); }
    else { VP_REACH("no more options"); POST(!G.c0 || OP[0].next == NULL, "all options are looked at"); }
#elif defined VP_OUT
    size_t L, bl; __CPROVER_assume(L <= 70000 && bl >= 1 && bl <= MAXT);
    OP[0].num = nd_int(); OP[0].len = L; OP[0].val = malloc(L); OP[0].next = nd_int() ? &OP[1] : NULL;
    __CPROVER_assume(OP[0].val != NULL);
    for (int i = 0; i < 4; i++) o_c[i] = o_set[i] = 0;
    cm.op_list.first = nd_int() ? &OP[0] : NULL;
    r = cross_uri_coap_to_http(V, bl, &cm);
    POST(G.destroyed >= 1, "the URI is released");
    if (r == 0) { VP_REACH("translated"); POST(G.hk && G.k < bl && o_set[2] == 1, "the text fits"); }
    else { VP_REACH("refused"); POST(r < 0, "error"); }
#elif defined VP_REQ
    size_t bl, cap, end = nd_size(), end0 = end;
    __CPROVER_assume(bl <= MAXT && cap <= MAXT);
    char *cb = malloc(cap); hm.body = bl || nd_int() ? malloc(bl) : NULL; hm.body_len = bl;
    __CPROVER_assume(cb != NULL && (bl == 0 || hm.body != NULL));
    hm.start[1] = V + 7;
    for (int i = 0; i < 4; i++) step[i] = 0;
    r = cross_req_http_to_coap(&cm, cb, cap, &end, &hm, &code);
    if (r == 0)
    {
        VP_REACH("translated");
        POST(G.reset && step[0] == 1 && step[1] == 1 && step[2] == 1 && step[3] == 0 && code == 0, "method, URI and headers are translated");
        POST(bl > COAP_MSG_MAX_PAYLOAD_LEN ? bl <= cap && end == bl && G.pays == 0 && (vp_g >= bl || cb[vp_g] == hm.body[vp_g]) : G.pays == 1 && end == end0, "the body is the payload, or is kept for a block-wise transfer if it is too long for that");
    }
    else { VP_REACH("refused"); POST(r < 0 && (code == 400 || code == 406 || code == 501 || code == 502), "an error, and a status for the client"); POST(step[3] || code == 502, "502 if it can not be translated"); POST(bl <= COAP_MSG_MAX_PAYLOAD_LEN || bl > cap || step[3], "a body that fits is accepted"); }
#elif defined VP_RESP
    size_t cl, pl; char a, b;
    __CPROVER_assume(cl <= MAXT && pl <= MAXT);
    cm.payload = &a; cm.payload_len = pl;
    for (int i = 0; i < 4; i++) step[i] = 0;
    r = cross_resp_coap_to_http(&hm, &cm, &b, cl, &code);
    if (r == 0)
    {
        VP_REACH("translated");
        POST(G.reset && step[0] == 1 && step[1] == 1 && step[3] == 0 && code == 0, "status and headers are translated");
        if (cl > 0) POST(G.bodies == 1 && b_buf == &b && b_len == cl && G.hname == 4 && G.plen == cl, "the body of a block-wise transfer, and its length");
        else if (pl > 0) POST(G.bodies == 1 && b_buf == &a && b_len == pl && G.hname == 4 && G.plen == pl, "the payload, and its length");
        else POST(G.bodies == 0, "no body");
    }
    else { VP_REACH("refused"); POST(r < 0 && code == 502, "502 if it can not be translated"); }
#endif
}
