/* proxy/common/src/http_msg.c: parsing and generation of HTTP messages.
 * The text is an array of n + 1 bytes with any content and a zero behind it.  Library functions that search it
 * are contracts: a result is inside the text and never beyond a zero that is known to be there.  Loops are cut:
 * at the start of a body the state is replaced by an arbitrary one that satisfies the invariant, which is
 * asserted when the body starts the first time and when it starts again. */
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <strings.h>
#include <ctype.h>
#include "vp.h"
#include "http_msg.h"
#include "util.h"
size_t vp_g;
#define MAXT ((size_t)1 << 30)
#define POST(c, t) __CPROVER_assert(c, "vp_post " t)
#define INVT(c, t) __CPROVER_assert(c, "vp_inv " t)
#define CUT __CPROVER_assume(0)
int nd_int(void) { int x; return x; }
size_t nd_size(void) { size_t x; return x; }
char nd_char(void) { char x; return x; }
size_t __CPROVER_uninterpreted_E(size_t);               /* where the line that starts here ends */
unsigned long __CPROVER_uninterpreted_C(size_t);        /* chunk length written here */
unsigned long __CPROVER_uninterpreted_T(size_t);        /* total length of the chunks before this one */
#define E(o) __CPROVER_uninterpreted_E(o)
#define C(o) __CPROVER_uninterpreted_C(o)
#define T(o) __CPROVER_uninterpreted_T(o)
static char *S; static size_t n;                        /* the text */
static struct {
    size_t e;                                           /* end of the line found last */
    int he;
    int c0, c1, c2;                                     /* loop cut */
    size_t o0, o1, o2, oe, start;
    char b0; int z;
    size_t w; char wb;
    size_t live;                                        /* blocks allocated */
    int oom;
    char *t0, *t1; int nt, added; size_t colon; int hcolon;
    size_t sub[3]; int nsub;
    char *body;
    char *cpy;
} G;
static size_t off(const char *p)
{
    __CPROVER_assert(__CPROVER_same_object(p, S) && __CPROVER_POINTER_OFFSET(p) <= n, "vp_safe: inside the text");
    return __CPROVER_POINTER_OFFSET(p);
}
static void vp_text(void)
{
    size_t k;
    __CPROVER_assume(k <= MAXT);
    n = k;
    S = malloc(n + 1);
    __CPROVER_assume(S != NULL);
    S[n] = 0;
    memset(&G, 0, sizeof G);
}
static char *vp_strstr(const char *s, const char *w)
{
    size_t o = off(s), e = E(o);
    __CPROVER_assert(w[0] == '\r' && w[1] == '\n' && w[2] == 0, "vp_spec: end of line");
    if (n < 2 || e > n - 2) return NULL;
    __CPROVER_assume(e >= o && S[e] == '\r' && S[e + 1] == '\n');
    G.e = e; G.he = 1;
    return S + e;
}
static char *vp_strchr(const char *s, int c)
{
    size_t o = off(s), k;
    __CPROVER_assert(c != 0, "vp_spec: a character");
    if (nd_int()) return NULL;
    __CPROVER_assume(o <= k && k < n && S[k] == c && !(G.he && o <= G.e && G.e < k && S[G.e] == 0));
    G.colon = k; G.hcolon = 1;
    return S + k;
}
static size_t vp_strlen(const char *s)
{
    size_t o = off(s), k;
    __CPROVER_assume(o <= k && k <= n && S[k] == 0 && (k == o || S[o] != 0));
    __CPROVER_assume(!(G.he && o <= G.e && G.e < k && S[G.e] == 0) && !(G.hcolon && o <= G.colon && G.colon < k && S[G.colon] == 0));
    return k - o;
}
static unsigned long vp_dec(const char *s);
static unsigned long vp_number(const char *s, int base)
{
    if (base == 16) return C(off(s));
    return vp_dec(s);
}
static int vp_sscanf(const char *s, const char *f, void *p, size_t w)
{
    unsigned long v = vp_number(s, 16);
    if (w == sizeof(unsigned long)) __CPROVER_assert((f[1] == 'l' || f[1] == 'z') && f[2] == 'x' && f[3] == 0, "vp_spec: format");
    else __CPROVER_assert(f[1] == 'x' && f[2] == 0, "vp_spec: format");
    if (nd_int()) return 0;
    if (w == sizeof v) *(unsigned long *)p = v; else *(unsigned *)p = (unsigned)v;
    return 1;
}
static unsigned long vp_strtoul(const char *s, char **end, int base)
{
    unsigned long v = vp_number(s, base);
    if (end != NULL) { size_t k; __CPROVER_assume(k <= n); *end = base == 16 ? S + k : (char *)s; }
    return v;
}
/* the headers of unit http_body: which of them is which, and the length given */
static char NM[2][2], VL[2][2]; static int h_cl[2], h_te[2], h_ch[2], h_n; static unsigned long h_len[2];
static int vp_strcasecmp(const char *a, const char *b)
{
    for (int i = 0; i < 2; i++)
    {
        if (a == NM[i] && b[0] == 'C' && b[8] == 'L') return !h_cl[i];
        if (a == NM[i] && b[0] == 'T' && b[9] == 'E') return !h_te[i];
        if (a == VL[i] && b[0] == 'c' && b[6] == 'd') return !h_ch[i];
    }
    __CPROVER_assert(0, "vp_spec: a header is compared");
    return 1;
}
static unsigned long vp_dec(const char *s) { return s == VL[0] ? h_len[0] : s == VL[1] ? h_len[1] : nd_size(); }
static void *vp_malloc(size_t k) { if (nd_int()) { G.oom = 1; return NULL; } __CPROVER_assume(k <= 2 * MAXT); char *p = malloc(k); __CPROVER_assume(p != NULL); G.live++; return p; }
static void *vp_calloc(size_t k, size_t m)
{
    __CPROVER_assert(m == 1, "vp_spec: array of bytes");
    char *p = vp_malloc(k);
    if (p != NULL && vp_g < k) p[vp_g] = 0;
    return p;
}
static void vp_free(void *p) { if (p != NULL) G.live--; free(p); }
static void *vp_memcpy(void *d, const void *s, size_t k)
{
    __CPROVER_assert(k == 0 || (__CPROVER_w_ok(d, k) && __CPROVER_r_ok(s, k)), "vp_safe: memcpy");
    size_t o = __CPROVER_POINTER_OFFSET(d);
    if (vp_g >= o && vp_g - o < k) ((char *)d)[vp_g - o] = ((const char *)s)[vp_g - o];
    return d;
}
static char *vp_strncpy(char *d, const char *s, size_t k) { return vp_memcpy(d, s, k); }
static void *vp_memset(void *d, int c, size_t k)
{
    __CPROVER_assert(k == 0 || __CPROVER_w_ok(d, k), "vp_safe: memset");
    size_t o = __CPROVER_POINTER_OFFSET(d);
    if (vp_g >= o && vp_g - o < k) ((char *)d)[vp_g - o] = c;
    return d;
}
static int vp_isspace(int c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
static char *vp_strdup(const char *s) { char *p = vp_malloc(1); return p; }
#define strstr(a, b) vp_strstr(a, b)
#define strchr(a, c) vp_strchr(a, c)
#define strlen(a) vp_strlen(a)
#define sscanf(a, f, p) vp_sscanf(a, f, p, sizeof *(p))
#define strtoul(a, e, b) vp_strtoul(a, e, b)
#define atoi(a) ((int)vp_number(a, 10))
#define strcasecmp(a, b) vp_strcasecmp(a, b)
#define calloc(a, b) vp_calloc(a, b)
#define malloc(a) vp_malloc(a)
#define free(a) vp_free(a)
#define strncpy(d, s, k) vp_strncpy(d, s, k)
#define memcpy(d, s, k) vp_memcpy(d, s, k)
#define memset(d, c, k) (__builtin_constant_p(k) ? (memset)(d, c, k) : vp_memset(d, c, k))
#undef isspace
#define isspace(c) vp_isspace(c)
#define strdup(s) vp_strdup(s)
static http_msg_t m;
#if defined VP_HEADERS
static int vp_at(size_t o) { return o <= n; }
#define VP_B_http_msg_parse_headers_0 \
    if (!G.c0) { INVT(off(next) == G.start, "the first header follows the start"); G.c0 = 1; size_t o; __CPROVER_assume(o >= G.start && o <= n); next = S + o; G.o0 = o; } \
    else { INVT(off(next) > G.o0, "each header takes some text"); \
           POST(G.added == 1 && G.t0 == S + G.o0 && G.t1 == S + G.colon + 1 && S[G.colon] == 0, "a header is added whose name is the text before the colon and whose value is the rest of the line"); \
           POST(S[G.e + 2] != ' ' && S[G.e + 2] != '\t', "a header goes on as long as the next line begins with white space"); VP_REACH("next header"); CUT; }
#define VP_B_http_msg_parse_headers_1 \
    if (!G.c1) { INVT(next == name, "lines of a header"); G.c1 = 1; size_t o; __CPROVER_assume(o >= G.o0 && o <= n); next = S + o; G.o1 = o; } \
    else { INVT(off(next) > G.o1, "each continuation line takes some text"); \
           POST(G.e + 2 <= n && (S[G.e + 2] == ' ' || S[G.e + 2] == '\t'), "a line belongs to the header before if it begins with white space"); CUT; }
static char *http_msg_trim_ws(char *s);
static int http_msg_list_add(http_msg_list_t *l, const char *a, const char *v);
#elif defined VP_TRIM
#define VP_B_http_msg_trim_ws_0 \
    if (!G.c0) { INVT(str == S, "start"); G.c0 = 1; size_t o; __CPROVER_assume(o < n && isspace(S[o])); str = S + o; } else { INVT(off(str) < n, "inside"); CUT; }
#define VP_B_http_msg_trim_ws_1 \
    if (!G.c1) { INVT(s == str && d == str && sp == 0, "start"); G.c1 = 1; size_t a, b; int x; \
        __CPROVER_assume(a < n && S[a] != 0 && b <= a && b >= off(str) && (x == 0 || x == 1) && b + x <= a); s = S + a; d = S + b; sp = x; } \
    else { INVT(off(s) < n && off(d) >= off(str) && off(d) + (sp != 0) <= off(s) && S[n] == 0, "the trimmed text does not overtake the text"); CUT; }
#define VP_B_http_msg_trim_ws_2 \
    if (!G.c2) { G.c2 = 1; size_t b; __CPROVER_assume(b >= off(d) && b < off(s)); d = S + b; } else { INVT(off(d) < off(s), "inside"); CUT; }
#elif defined VP_BODY
/* one arbitrary chunk in each pass; it may change its own length line, and no other byte */
#define VP_MARK { size_t k; __CPROVER_assume(k <= n); G.w = k; G.wb = S[k]; }
#define VP_KEPT(o) POST((G.w >= (o) && G.w < E(o) + 2) || S[G.w] == G.wb, "the data of the chunks, and what follows, is as it was")
#define VP_B_http_msg_parse_body_2 \
    if (i == 0) { \
        if (!G.c1) { INVT(next == S && total_len == 0, "the first chunk"); G.c1 = 1; __CPROVER_assume(T(0) == 0); size_t o; __CPROVER_assume(o <= n && T(o) <= o); next = S + o; total_len = T(o); G.o1 = o; VP_MARK } \
        else { INVT(off(next) == E(G.o1) + 2 + C(G.o1) + 2, "the next chunk follows"); INVT(total_len == T(G.o1) + C(G.o1), "the lengths of the chunks are added up"); \
            POST(C(G.o1) > 0 && C(G.o1) <= n && off(next) > G.o1 && total_len <= off(next), "a chunk lies inside the text"); VP_KEPT(G.o1); CUT; } } \
    else { \
        if (!G.c2) { INVT(next == S && dest == m.body, "the first chunk"); G.c2 = 1; G.oe = G.o1; G.body = m.body; size_t o; \
            __CPROVER_assume(o <= G.oe && T(o) <= T(G.oe) && (o == G.oe || (C(o) > 0 && C(o) <= n && E(o) >= o && E(o) + 4 + C(o) <= G.oe && T(o) + C(o) <= T(G.oe)))); \
            next = S + o; dest = m.body + T(o); G.o2 = o; VP_MARK if (vp_g < T(o)) G.b0 = m.body[vp_g]; } \
        else { INVT(off(next) == E(G.o2) + 4 + C(G.o2) && dest == m.body + T(G.o2) + C(G.o2), "the next chunk follows"); \
            POST(vp_g < T(G.o2) || vp_g - T(G.o2) >= C(G.o2) || m.body[vp_g] == S[E(G.o2) + 2 + (vp_g - T(G.o2))], "the data of the chunk is put behind that of the chunks before"); \
            POST(vp_g >= T(G.o2) || m.body[vp_g] == G.b0, "and the data of the chunks before is kept"); VP_KEPT(G.o2); VP_REACH("chunk copied"); CUT; } }
static ssize_t http_msg_parse_headers(http_msg_t *msg, char *str);
#elif defined VP_PARSE
static ssize_t http_msg_parse_start(http_msg_t *msg, char *str);
static ssize_t http_msg_parse_headers(http_msg_t *msg, char *str);
#elif defined VP_DESTROY
static http_msg_header_t *G_h, *G_next; static int G_left;
static http_msg_header_t *vp_header(void)
{   /* an arbitrary header of a list */
    http_msg_header_t *h = (malloc)(sizeof *h);
    __CPROVER_assume(h != NULL);
    h->name = (malloc)(1); h->value = (malloc)(1);
    __CPROVER_assume(h->name != NULL && h->value != NULL);
    h->next = NULL;
    return h;
}
#define VP_B_http_msg_list_destroy_0 \
    if (!G.c0) { INVT(header == list->first, "the first header"); G.c0 = 1; if (nd_int()) { header = vp_header(); header->next = nd_int() ? vp_header() : NULL; } G_next = header->next; G.live = 3 + 3; G_left = 3; } \
    else { INVT(header == G_next, "the next header"); POST(G.live == 3, "a header, its name and its value are released"); VP_REACH("next header"); CUT; }
#elif defined VP_GENERATE
static char *G_src[8]; static size_t G_len[8]; static int G_n;
static http_msg_header_t H;
static char *out; static size_t olen;
#ifndef VP_PART2
#define VP_B_http_msg_generate_0 CUT;
#else
#define VP_B_http_msg_generate_0 \
    if (!G.c0) { POST(str_len == G.o0 && vp_expect(0, 3), "the start line"); VP_REACH("headers"); G.c0 = 1; header = &H; size_t o; __CPROVER_assume(o <= MAXT && o >= G.o0); str_len = o; G.o1 = o; \
        if (vp_g < olen) { G.z = (vp_g >= G.o0 || vp_g == olen - 1) && out[vp_g] == 0; G.b0 = nd_char(); if (G.z && (vp_g >= o || vp_g == olen - 1)) G.b0 = 0; out[vp_g] = G.b0; } } \
    else { POST(header == H.next && str_len == G.o1 + G_len[3] + G_len[4] + 4 && vp_expect(G.o1, 2), "a header line"); \
        INVT(!G.z || vp_g >= olen || (vp_g < str_len && vp_g != olen - 1) || out[vp_g] == 0, "bytes behind the text stay zero"); POST(vp_g >= G.o1 || vp_g >= olen - 1 || out[vp_g] == G.b0, "the text before it is kept"); VP_REACH("next header"); CUT; }
#endif
static int vp_expect(size_t p, int k);
size_t util_strncat(char *dst, const char *src, size_t dst_str_len, size_t dst_len)
{   /* contract, see the unit http_strncat */
    size_t L = 0, k;
    __CPROVER_assert(dst == out && dst_len == olen, "vp_safe: util_strncat is given the buffer");
    for (k = 0; k < 5; k++) if (G_src[k] == src) L = G_len[k];
    if (src != G_src[0] && src != G_src[1] && src != G_src[2] && src != G_src[3] && src != G_src[4])
    {
        for (L = 0; L < 4 && src[L] != 0; L++) ;
        __CPROVER_assert(L < 4, "vp_spec: a short literal");
    }
    if (dst_len == 0) return 0;
    if (vp_g >= dst_str_len && vp_g - dst_str_len < L && vp_g < dst_len - 1) dst[vp_g] = src[vp_g - dst_str_len];
    else if (vp_g == dst_str_len + L && vp_g < dst_len) dst[vp_g] = 0;
    else if (vp_g == dst_len - 1 && dst_str_len + L >= dst_len - 1) dst[vp_g] = 0;
    return dst_str_len + L;
}
#elif defined VP_CHUNK
static char HX[20]; static size_t hl; static const char *cin; static size_t cin_len;
static int vp_snprintf(char *d, size_t k, const char *f, size_t v)
{   /* contract of snprintf for "%zx\r\n" and "\r\n", exact at the witness index */
    const char *t = f; size_t L = 2, o = __CPROVER_POINTER_OFFSET(d);
    if (f[0] == '%')
    {
        __CPROVER_assert(f[1] == 'z' && f[2] == 'x' && f[3] == '\r' && f[4] == '\n' && f[5] == 0, "vp_spec: format");
        POST(v == cin_len, "the length of the chunk is written");
        t = HX; L = hl;
    }
    else __CPROVER_assert(f[0] == '\r' && f[1] == '\n' && f[2] == 0, "vp_spec: format");
    if (k == 0) return L;
    __CPROVER_assert(__CPROVER_w_ok(d, k), "vp_safe: snprintf");
    if (vp_g >= o && vp_g - o < L && vp_g - o < k - 1) d[vp_g - o] = t[vp_g - o];
    else if (vp_g >= o && vp_g - o == (L < k - 1 ? L : k - 1)) d[vp_g - o] = 0;
    return L;
}
#define vp_arg3(a, ...) (a)
#define snprintf(d, k, f, ...) vp_snprintf(d, k, f, vp_arg3(0 __VA_OPT__(+) __VA_ARGS__))
#endif
#if defined VP_STRNCAT || defined VP_STRNCPY
static char *out; static size_t olen, o_str; static char o_b;
#define INVC(c, t) __CPROVER_assert(c, "vp_inv " t)
#define POSD(j) (o_str + (j) < olen - 1 ? o_str + (j) : o_str < olen - 1 ? olen - 1 : o_str)
#define VP_STEP \
    if (!G.c0) { INVC(i == o_str && j == 0, "start"); G.c0 = 1; size_t a; __CPROVER_assume(a < n); j = a; __CPROVER_assume(S[j] != 0); i = POSD(j); G.o0 = j; \
        if (vp_g >= o_str && vp_g < i && vp_g < olen) out[vp_g] = S[vp_g - o_str]; o_b = vp_g < olen ? out[vp_g] : 0; } \
    else { INVC(j == G.o0 + 1 && i == POSD(j), "one more character"); \
        INVC(vp_g >= olen || vp_g >= i || vp_g < o_str || out[vp_g] == S[vp_g - o_str], "the characters are copied in order"); \
        INVC(vp_g >= o_str || vp_g >= olen || out[vp_g] == o_b, "the text in front is kept"); VP_REACH("next character"); CUT; }
#ifdef VP_STRNCAT
#define VP_B_util_strncat_0 VP_STEP
#else
#define VP_B_util_strncpy_0 VP_STEP
#endif
#undef malloc
#undef free
#undef calloc
#include "util.c"
#else
#include "http_msg.c"
#endif
#undef malloc
#undef free
#if defined VP_HEADERS
static char *http_msg_trim_ws(char *s) { off(s); if (off(s) == G.o0 && G.c0) G.t0 = s; else G.t1 = s; return s; }
static int http_msg_list_add(http_msg_list_t *l, const char *a, const char *v)
{
    off(a); off(v);
    POST(l == &m.header && a == G.t0 && v == G.t1, "name and value, both trimmed");
    if (nd_int()) return -ENOMEM;
    G.added++;
    return 0;
}
#endif
#if defined VP_BODY || defined VP_PARSE
static ssize_t http_msg_parse_headers(http_msg_t *msg, char *str)
{
    size_t o = off(str), k;
    int e = nd_int();
    __CPROVER_assert(S[n] == 0, "vp_safe: a terminator follows the text");
#ifdef VP_BODY
    POST(G.c2 && G.o2 == G.oe && C(G.o2) == 0 && o == E(G.o2) + 2, "the trailers follow the last chunk");
    VP_KEPT(G.o2);
#endif
    if (e) { __CPROVER_assume(e == -EAGAIN || e == -EBADMSG || e == -ENOMEM); return e; }
    __CPROVER_assume(k >= 2 && k <= n - o && n >= o);
    if (G.nsub < 3) G.sub[G.nsub++] = k;
    return k;
}
#endif
#if defined VP_PARSE
static ssize_t http_msg_parse_start(http_msg_t *msg, char *str)
{   /* the copy that is being parsed */
    size_t k;
    int e = nd_int();
    __CPROVER_assert(__CPROVER_POINTER_OFFSET(str) == 0 && __CPROVER_w_ok(str, n + 1) && str[n] == 0, "vp_safe: a copy of the message with a terminator");
    POST(vp_g >= n || str[vp_g] == S[vp_g], "the copy is the message");
    S = str;
    if (e) { __CPROVER_assume(e == -EAGAIN || e == -EBADMSG || e == -ENOMEM); return e; }
    __CPROVER_assume(k >= 7 && k <= n);
    G.sub[G.nsub++] = k;
    return k;
}
/* http_msg_parse_body is reached under its contract too: its parameter list may or may not have the length */
static ssize_t vp_body(char *str)
{
    size_t o = off(str), k;
    int e = nd_int();
    if (e) { __CPROVER_assume(e == -EAGAIN || e == -EBADMSG || e == -ENOMEM); return e; }
    __CPROVER_assume(k <= n - o && n >= o);
    G.sub[2] = k; G.nsub = 3;
    return k;
}
static ssize_t http_msg_parse_body(http_msg_t *msg, char *str, size_t len) { POST(len == n - off(str), "the rest of the message is its body"); return vp_body(str); }
#endif
#if defined VP_GENERATE
static int vp_lit(size_t p, const char *s) { size_t k = 0; while (s[k] != 0) k++; return !(vp_g >= p && vp_g - p < k) || out[vp_g] == s[vp_g - p]; }
static int vp_src(size_t p, int k) { return !(vp_g >= p && vp_g - p < G_len[k]) || out[vp_g] == G_src[k][vp_g - p]; }
static int vp_expect(size_t p, int k)
{
    if (olen == 0 || vp_g >= olen - 1) return 1;
    if (k == 3)
    {
        size_t a = p + G_len[0], b = a + 1 + G_len[1], c = b + 1 + G_len[2];
        return vp_src(p, 0) && vp_lit(a, " ") && vp_src(a + 1, 1) && vp_lit(b, " ") && vp_src(b + 1, 2) && vp_lit(c, "\r\n");
    }
    size_t a = p + G_len[3], b = a + 2 + G_len[4];
    return vp_src(p, 3) && vp_lit(a, ": ") && vp_src(a + 2, 4) && vp_lit(b, "\r\n");
}
#endif
void vp_harness(void)
{
    vp_text();
    size_t k;
    ssize_t r;
#if defined VP_START
    r = http_msg_parse_start(&m, S);
    if (r >= 0)
    {
        VP_REACH("start line");
        POST((size_t)r == G.e + 2 && (size_t)r <= n, "the start line is taken, and nothing behind it");
        for (int i = 0; i < 3; i++) POST(m.start[i] != NULL && (vp_g != 0 || m.start[i][0] != 0), "three fields that are not empty");
    }
    else { VP_REACH("no start line"); POST(r == -EAGAIN || r == -EBADMSG || r == -ENOMEM, "error codes"); POST(r != -EAGAIN || !G.he, "incomplete only if the line has no end"); }
    POST(S[n] == 0, "the terminator of the text is kept");
#elif defined VP_HEADERS
    __CPROVER_assume(k <= n);
    G.start = k;
    r = http_msg_parse_headers(&m, S + k);
    if (r >= 0)
    {
        VP_REACH("headers");
        POST(r >= 2 && (size_t)r <= n - k, "the headers and the blank line are taken, and nothing behind them");
        POST(G.e + 2 == k + (size_t)r && G.e == G.o0 && S[G.e] == '\r' && S[G.e + 1] == '\n', "the headers end with a blank line");
    }
    else { VP_REACH("no headers"); POST(r == -EAGAIN || r == -EBADMSG || r == -ENOMEM, "error codes"); }
    POST(S[n] == 0, "the terminator of the text is kept");
#elif defined VP_TRIM
    char *p = http_msg_trim_ws(S);
    VP_REACH("trimmed");
    POST(off(p) <= n && S[n] == 0, "the result is a string inside the text");
    POST(!vp_isspace(*p), "it does not begin with white space");
#elif defined VP_BODY
    http_msg_header_t h[2];
    m.body = NULL; m.body_len = 0;
    h[1].next = NULL;
    h_n = nd_int();
    __CPROVER_assume(h_n >= 0 && h_n <= 2);
    h[0].next = h_n == 2 ? &h[1] : NULL;
    for (int i = 0; i < 2; i++)
    {
        NM[i][1] = VL[i][1] = 0; h[i].name = NM[i]; h[i].value = VL[i];
        h_cl[i] = nd_int() != 0; h_te[i] = nd_int() != 0; h_ch[i] = nd_int() != 0; h_len[i] = nd_size();
        __CPROVER_assume(!(h_cl[i] && h_te[i]));
    }
    __CPROVER_assume(!(h_cl[0] && h_cl[1]) || h_len[0] == h_len[1]);
    int chunked = (h_n > 0 && h_te[0] && h_ch[0]) || (h_n > 1 && h_te[1] && h_ch[1]);
    unsigned long given = h_n > 0 && h_cl[0] ? h_len[0] : h_n > 1 && h_cl[1] ? h_len[1] : 0;
    m.header.first = h_n ? &h[0] : NULL; m.header.last = NULL;
    r = http_msg_parse_body(&m, S, n);
    POST(r >= 0 || r == -EAGAIN || r == -EBADMSG || r == -ENOMEM, "error codes");
    if (r >= 0)
    {
        POST((size_t)r <= n, "nothing behind the text is taken");
        POST(G.c2 == chunked, "a body is in chunks if the headers say so");
        POST(chunked || m.body_len == given, "a body has the length that the headers say");
        if (G.c2)
        {
            VP_REACH("chunked");
            POST(G.o2 == G.oe && m.body != NULL && m.body_len == T(G.oe) && m.body[m.body_len] == 0, "the body has the length of all chunks, and a terminator");
        }
        else if (m.body != NULL)
        {
            VP_REACH("with length");
            POST((size_t)r == m.body_len && m.body[m.body_len] == 0, "the body has the length given, and a terminator");
            POST(vp_g >= m.body_len || m.body[vp_g] == S[vp_g], "the body is the text");
        }
        else { VP_REACH("no body"); POST(r == 0 && m.body_len == 0, "no body"); }
    }
    else
    {
        VP_REACH("incomplete or bad");
        POST(chunked || r != -EAGAIN || given > n, "a body that is all there is taken");
        POST(r != -EBADMSG || chunked, "a body of a given length cannot be malformed");
        POST(r != -ENOMEM || G.oom || G.c2, "only an allocation that failed is reported as such");
    }
    POST(G.live == (m.body != NULL), "the body is the only block kept");
#elif defined VP_PARSE
    size_t tl = n;
    m.header.first = m.header.last = NULL; m.body = NULL;
    for (int i = 0; i < 3; i++) m.start[i] = NULL;
    r = http_msg_parse(&m, S, n);
    if (r >= 0)
    {
        VP_REACH("parsed");
        POST(r > 0 && (size_t)r <= tl && (size_t)r == G.sub[0] + G.sub[1] + G.sub[2], "the start line, the headers and the body are taken");
    }
    else { VP_REACH("not parsed"); POST(r == -EAGAIN || r == -EBADMSG || r == -ENOMEM, "error codes"); }
    POST(G.live == 0, "the copy is released");
#elif defined VP_LIST
    http_msg_header_t a; http_msg_list_t l;
    int e = nd_int();
    l.first = e ? NULL : &a; l.last = e ? NULL : &a; a.next = NULL;
    r = http_msg_list_add(&l, S, S);
    if (r == 0)
    {
        VP_REACH("added");
        POST(l.last != NULL && l.last->next == NULL && l.last->name != NULL && l.last->value != NULL && l.last->name != l.last->value, "a header with a name and a value of its own");
        POST(e ? l.first == l.last : l.first == &a && a.next == l.last, "it is the last one");
        POST(G.live == 3, "blocks");
    }
    else
    {
        VP_REACH("not added");
        POST(r == -ENOMEM && G.live == 0 && l.first == (e ? NULL : &a) && l.last == l.first && a.next == NULL, "nothing changes");
    }
#elif defined VP_DESTROY
    int has = nd_int() != 0, b = nd_int() != 0, st = nd_int() != 0;
    m.header.first = has ? vp_header() : NULL;
    m.header.last = m.header.first;
    m.body = b ? (malloc)(1) : NULL;
    for (int i = 0; i < 3; i++) m.start[i] = st ? (malloc)(1) : NULL;
    __CPROVER_assume((!b || m.body != NULL) && (!st || (m.start[0] != NULL && m.start[1] != NULL && m.start[2] != NULL)));
    G.live = 1000;
    http_msg_destroy(&m);
    VP_REACH("destroyed");
    POST(m.body == NULL && m.header.first == NULL && m.header.last == NULL && m.start[0] == NULL && m.start[1] == NULL && m.start[2] == NULL && m.body_len == 0, "an empty message");
    POST((G.c0 ? 3 - G.live : 1000 - b - G.live) == 3 * st, "the fields of the start line and the body are released");
#elif defined VP_GENERATE
    for (int i = 0; i < 5; i++)
    {
        size_t L;
#ifdef VP_PART2
        __CPROVER_assume(i < 3 ? L == 1 : L <= MAXT);        /* the start line is dealt with in part 1 */
#else
        __CPROVER_assume(i < 3 ? L <= MAXT : L == 1);
#endif
        G_len[i] = L;
        G_src[i] = (malloc)(L + 1);
        __CPROVER_assume(G_src[i] != NULL);
    }
    size_t bl, ol;
    __CPROVER_assume(bl <= MAXT && ol <= MAXT && ol > 0);
    olen = ol;
    out = (malloc)(ol);
    __CPROVER_assume(out != NULL);
    for (int i = 0; i < 3; i++) m.start[i] = G_src[i];
    H.name = G_src[3]; H.value = G_src[4]; H.next = nd_int() ? &H : NULL;
    #ifdef VP_PART2
    m.header.first = m.header.last = &H;
#else
    m.header.first = m.header.last = NULL;
#endif
    m.body = nd_int() ? (malloc)(bl + 1) : NULL;
    m.body_len = m.body ? bl : 0;
    G.o0 = G_len[0] + G_len[1] + G_len[2] + 4;
    size_t tot = http_msg_generate(&m, out, olen);
    size_t hd = G.c0 ? G.o1 + G_len[3] + G_len[4] + 4 : G.o0;
    POST(tot == hd + 2 + m.body_len, "the length of the whole text is returned");
    POST(vp_g >= olen - 1 || vp_lit(hd, "\r\n"), "a blank line ends the headers");
    POST(vp_g >= olen - 1 || vp_g < hd + 2 || vp_g - hd - 2 >= m.body_len || out[vp_g] == m.body[vp_g - hd - 2], "the body follows");
    POST(vp_g != (tot < olen - 1 ? tot : olen - 1) || out[vp_g] == 0, "a terminator follows the text");
#ifndef VP_PART2
    POST(vp_expect(0, 3), "the start line");
#endif
    VP_REACH("generated");
#elif defined VP_CHUNK
    size_t h, ol;
    __CPROVER_assume(h >= 3 && h <= 18 && ol <= MAXT);
    hl = h;
    cin = S; cin_len = n;
    char *out = ol > 0 ? (malloc)(ol) : (malloc)(1);
    __CPROVER_assume(out != NULL);
    size_t w = http_msg_generate_chunk(out, ol, S, n);
    VP_REACH("chunk");
    POST(w == hl + n + 2, "the length of the whole chunk is returned");
    if (ol > 0 && vp_g < ol - 1)
    {
        POST(vp_g >= hl || out[vp_g] == HX[vp_g], "the length of the chunk comes first");
        POST(vp_g < hl || vp_g - hl >= n || out[vp_g] == S[vp_g - hl], "its data follows");
        POST(vp_g != hl + n || out[vp_g] == '\r', "and the end of the line");
        POST(vp_g != hl + n + 1 || out[vp_g] == '\n', "and the end of the line");
    }
    POST(ol == 0 || vp_g != (w < ol - 1 ? w : ol - 1) || out[vp_g] == 0, "a terminator follows");
#elif defined VP_STRNCAT || defined VP_STRNCPY
    size_t ol, os;
    __CPROVER_assume(ol <= MAXT && ol > 0 && os <= MAXT);
    olen = ol;
    out = (malloc)(ol);
    __CPROVER_assume(out != NULL);
    char b = vp_g < ol ? out[vp_g] : 0;
#ifdef VP_STRNCAT
    o_str = os;
    size_t w = util_strncat(out, S, o_str, olen), L = w - o_str;
#else
    o_str = 0;
    size_t w = util_strncpy(out, S, olen), L = w;
#endif
    VP_REACH("copied");
    POST(L <= n && S[L] == 0, "the length of the whole text is returned");
    POST(vp_g < o_str || vp_g - o_str >= L || vp_g >= olen - 1 || out[vp_g] == S[vp_g - o_str], "the text, or as much of it as there is room for, is appended");
    POST(vp_g != (o_str + L < olen - 1 ? o_str + L : olen - 1) || out[vp_g] == 0, "a terminator follows");
    POST(vp_g >= o_str || vp_g >= olen - 1 || out[vp_g] == (G.c0 ? o_b : b), "the text in front is kept");
#endif
}
