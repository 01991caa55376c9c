/* proxy/common/src/uri.c.
 * The text of a URI is an array of n + 1 bytes with any content and a zero at its end.  The places at which it must be
 * split are ghosts, chosen before the call: e (the first '?' or '#'), f (the first '#' behind a '?'), c (the first ':'),
 * and in the authority sl (the first '/'), at (the first '@') and pt (the first ':' outside brackets).  The functions that
 * search the text are contracts; they know the ghosts, the end of the text and every place they ever returned, and at those
 * places they look at the real bytes, so that a terminator written by the code is seen. */
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include <errno.h>
#include "vp.h"
#include "uri.h"
size_t vp_g;
#define MAXT ((size_t)1 << 30)
#define POST(c, t) __CPROVER_assert(c, "vp_post " t)
#define INVT(c, t) __CPROVER_assert(c, "vp_inv " t)
#define CUT __CPROVER_assume(0)
int nd_int(void) { int x; return x; }
size_t nd_size(void) { size_t x; return x; }
char nd_char(void) { char x; return x; }
static char *S, *O; static size_t n;
#ifdef VP_HIER
#define NP 6
#define NG 5
#else
#define NP 10
#endif
#ifndef NG
#define NG 7                                            /* the first places are those of the ghosts */
#endif
static struct { size_t pos[NP]; int np; size_t live; int oom, bad; int c0; size_t a, b; } G;
static struct { size_t b, e, f, c, A, sl, at, pt; int col, auth, hat, hpt, hq, hf, br; } X;
static struct { char *dst; size_t from, to; } D[8]; static int nd;
static size_t off(const char *p)
{
    __CPROVER_assert(__CPROVER_same_object(p, S) && __CPROVER_POINTER_OFFSET(p) <= n, "vp_safe: inside the text");
    return __CPROVER_POINTER_OFFSET(p);
}
static void ghost(int i, size_t k) { G.pos[i] = k; }
static void know(size_t k)
{
    for (int i = 0; i < NG; i++) if (G.pos[i] == k) return;
    if (G.np < NP) G.pos[G.np++] = k; else __CPROVER_assert(0, "vp_spec: more searches than expected");
}
static size_t vp_end(size_t o)
{   /* where the string that starts at o ends */
    size_t r = n;
    for (int i = 0; i < NP; i++) if (G.pos[i] >= o && G.pos[i] < r && S[G.pos[i]] == 0) r = G.pos[i];
    return r;
}
static size_t vp_strlen(const char *s) { size_t o = off(s); return vp_end(o) - o; }
static size_t vp_first(size_t o, size_t z, int c)
{   /* the first c in [o, z), or z */
    size_t k;
    __CPROVER_assume(k >= o && k <= z && (k == z || S[k] == c));
    for (int i = 0; i < NP; i++) if (G.pos[i] >= o && G.pos[i] < z && S[G.pos[i]] == c) __CPROVER_assume(k <= G.pos[i]);
    /* what the ghosts say about bytes that are not of that kind */
    if (c == ':' && o == 0) __CPROVER_assume(k >= (X.col ? X.c : z));
    if (X.auth && c == '/' && o >= X.A && o <= X.sl) __CPROVER_assume(k >= X.sl || k == z);
    if (X.auth && c == '@' && o >= X.A && o <= (X.hat ? X.at : X.sl)) __CPROVER_assume(k >= (X.hat ? X.at : X.sl) || k == z);
    return k;
}
static char *vp_strchr(const char *s, int c)
{
    size_t o = off(s), z = vp_end(o), k;
    __CPROVER_assert(c != 0, "vp_spec: a character");
    k = vp_first(o, z, c);
    if (k == z) return NULL;
    know(k);
    return S + k;
}
static char *vp_strsep(char **q, const char *d)
{
    char *r = *q;
    if (r == NULL) return NULL;
    size_t o = off(r), z = vp_end(o), k;
    if (d[0] == 0) k = z;
    else if (d[0] == '#' && d[1] == 0) { __CPROVER_assume(k >= o && k <= z && (k == z || S[k] == '#')); if (X.hq && o == X.e + 1) __CPROVER_assume(k == (X.hf ? X.f : z)); }
    else
    {
        __CPROVER_assert((d[0] == '?' && d[1] == '#' && d[2] == 0) || (d[0] == '#' && d[1] == '?' && d[2] == 0), "vp_spec: delimiters");
        __CPROVER_assume(k >= o && k <= z && (k == z || S[k] == '#' || S[k] == '?'));
        if (o == X.b) __CPROVER_assume(k == X.e);
    }
    if (k == z) { *q = NULL; return r; }
    know(k);
    S[k] = 0;
    *q = S + k + 1;
    return r;
}
static void *vp_malloc(size_t k) { if (nd_int()) { G.oom = 1; return NULL; } __CPROVER_assume(k <= 4 * MAXT); char *p = malloc(k); __CPROVER_assume(p != NULL); G.live++; return p; }
static void *vp_calloc(size_t k, size_t m)
{
    __CPROVER_assert(m == 1 || k == 1, "vp_spec: array of bytes");
    if (k == 1 && m != 1) k = m;
    char *p = vp_malloc(k);
    if (p != NULL && vp_g < k) p[vp_g] = 0;
    return p;
}
static void vp_free(void *p) { if (p != NULL) G.live--; free(p); }
static char *SD[7]; static int sd_n; static const char *SDS[7];
static char *vp_strdup(const char *s)
{
#ifdef VP_PARSE
    POST(s == O, "the text is copied");
    if (nd_int()) { G.oom = 1; return NULL; }
    G.live++;
    return S;                                            /* S is the copy */
#else
    char *p = vp_malloc(1);
    if (p != NULL && sd_n < 7) { SD[sd_n] = p; SDS[sd_n] = s; sd_n++; }
    return p;
#endif
}
#define strlen(a) vp_strlen(a)
#define strsep(a, b) vp_strsep(a, b)
#define calloc(a, b) vp_calloc(a, b)
#define malloc(a) vp_malloc(a)
#define free(a) vp_free(a)
#define strdup(s) vp_strdup(s)
#define memset(d, c, k) (__builtin_constant_p(k) ? (memset)(d, c, k) : vp_memset(d, c, k))
static void *vp_memset(void *d, int c, size_t k)
{
    __CPROVER_assert(k == 0 || __CPROVER_w_ok(d, k), "vp_safe: memset");
    if (vp_g < k) ((char *)d)[vp_g] = c;
    return d;
}
#if defined VP_PARSE || defined VP_HIER || defined VP_SCHEME || defined VP_QUERY
#define strchr(a, c) vp_strchr(a, c)
#else
static char *vp_lstrchr(const char *s, int c)
{   /* in a literal, or in the host of a URI that is generated */
    if (__CPROVER_same_object(s, S)) return nd_int() ? NULL : S;
    for (int i = 0; i < 16; i++) { if (s[i] == c) return (char *)s + i; if (s[i] == 0) return NULL; }
    __CPROVER_assert(0, "vp_spec: a short literal");
    return NULL;
}
#define strchr(a, c) vp_lstrchr(a, c)
#undef toupper
#undef isalpha
#undef isdigit
#define toupper(c) ((c) >= 'a' && (c) <= 'z' ? (c) - 32 : (c))
#define isalpha(c) (((c) >= 'a' && (c) <= 'z') || ((c) >= 'A' && (c) <= 'Z'))
#define isdigit(c) ((c) >= '0' && (c) <= '9')
#endif
static uri_t u;
static int is_hex(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static int hexval(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
#if defined VP_PARSE
static int uri_parse_scheme(uri_t *uri, char **q);
static int uri_parse_hier_part(uri_t *uri, char **q);
static int uri_parse_query(uri_t *uri, char **q);
static int uri_parse_fragment(uri_t *uri, char **q);
#elif defined VP_HIER || defined VP_SCHEME || defined VP_QUERY
static ssize_t uri_decode_str(char *dest, const char *src, size_t dest_str_len, size_t dest_len);
static char *uri_find_port(char *str);
#elif defined VP_DECODE
static char *out; static size_t olen, o0;
#define VP_B_uri_decode_str_0 \
    if (!G.c0) { INVT(src == S && dest_str_len == o0, "start"); G.c0 = 1; size_t k, d; __CPROVER_assume(k < n && S[k] != 0 && d >= o0 && d - o0 <= k); src = S + k; dest_str_len = d; G.a = k; G.b = d; \
        if (vp_g < olen) { X.sl = out[vp_g]; } } \
    else { size_t k = G.a; int esc = S[k] == '%'; \
        INVT(off(src) == k + (esc ? 3 : 1) && dest_str_len == G.b + 1, "one character, or a percent sign and two digits, gives one octet"); \
        POST(!esc || (is_hex(S[k + 1]) && is_hex(S[k + 2])), "only hexadecimal digits follow a percent sign"); \
        POST(G.b + 1 >= olen || out[G.b] == (char)(esc ? hexval(S[k + 1]) * 16 + hexval(S[k + 2]) : S[k]), "the octet"); \
        POST(vp_g >= olen || vp_g == G.b || out[vp_g] == (char)X.sl, "and nothing else is written"); VP_REACH("next octet"); CUT; }
#elif defined VP_ENCODE || defined VP_COPYSTR
static char *out; static size_t olen, o0;
static const char *xc;
#define VP_STEP(fn) \
    if (!G.c0) { INVT(i == 0 && dest_str_len == o0, "start"); G.c0 = 1; size_t k, d; __CPROVER_assume(k < n && S[k] != 0 && d >= o0 && d <= 4 * MAXT); i = k; dest_str_len = d; G.a = k; G.b = d; \
        if (vp_g < olen) { X.sl = out[vp_g]; } } \
    else { INVT(i == G.a + 1 && (dest_str_len == G.b + 1 || dest_str_len == G.b + 3), "the next character"); vp_step(dest_str_len - G.b); VP_REACH("next character"); CUT; }
static void vp_step(size_t w);
#ifdef VP_ENCODE
#define VP_B_uri_encode_str_0 VP_STEP()
#else
#define VP_B_uri_copy_str_0 VP_STEP()
#endif
#elif defined VP_PORT
#define VP_B_uri_find_port_0 \
    if (!G.c0) { INVT(p == S && in == 0, "start"); G.c0 = 1; size_t k; int x; __CPROVER_assume(k < n && S[k] != 0 && (x == 0 || x == 1)); p = S + k; in = x; G.a = k; G.b = x; } \
    else { INVT(off(p) == G.a + 1 && off(p) < n, "the next character"); \
        POST((in != 0) == (G.b ? S[G.a] != ']' : S[G.a] == '['), "brackets enclose what is between them"); POST(G.b != 0 ? !(S[G.a] == ':' && in == 0) : S[G.a] != ':', "a colon outside brackets is not passed over"); VP_REACH("next character"); CUT; }
#elif defined VP_GENERATE
static char *out; static size_t olen;
static struct { int kind; const char *src; char lit; unsigned xc; } L[24]; static int nl; static size_t lpos;
static size_t uri_encode_str(char *dest, const char *src, size_t dest_str_len, size_t dest_len, char *except);
static size_t uri_copy_str(char *dest, const char *src, size_t dest_str_len, size_t dest_len);
#endif
#include "uri.c"
#undef malloc
#undef free
#undef strlen
#if defined VP_PARSE
static int part(char **p, int set)
{   /* contract of the four parts: a component, or nothing at all */
    int e = nd_int();
    if (e) { __CPROVER_assume(e == -ENOMEM || e == -EBADMSG); if (e == -ENOMEM) G.oom = 1; else G.bad = 1; uri_destroy(&u); return e; }
    if (set) { POST(*p == NULL, "each component is set once"); *p = malloc(1); __CPROVER_assume(*p != NULL); G.live++; }
    return 0;
}
static void zap(size_t k) { if (k < n) S[k] = 0; }
static int uri_parse_scheme(uri_t *uri, char **q)
{
    POST(uri == &u && *q == S && X.at == 0, "the scheme comes first");
    int e = part(&u.scheme, X.col);
    X.at = 1;
    if (e == 0 && X.col) { zap(X.c); *q = S + X.c + 1; }
    return e;
}
static int uri_parse_hier_part(uri_t *uri, char **q)
{
    POST(uri == &u && *q == S + X.b, "then the hierarchical part");
    int e = part(&u.host, 1);
    X.sl = 1;
    if (e == 0) { zap(X.e); *q = X.e < n ? S + X.e + 1 : NULL; }
    return e;
}
static int uri_parse_query(uri_t *uri, char **q)
{
    POST(uri == &u && X.sl && X.hq && *q == S + X.e + 1, "the query is behind the first question mark");
    int e = part(&u.query, 1);
    if (e == 0) { zap(X.f); *q = X.hf ? S + X.f + 1 : NULL; }
    return e;
}
static int uri_parse_fragment(uri_t *uri, char **q)
{
    POST(uri == &u && X.sl && X.hf && *q == S + X.f + 1, "the fragment is behind the first number sign");
    int e = part(&u.fragment, 1);
    if (e == 0) *q = NULL;
    return e;
}
#elif defined VP_HIER || defined VP_SCHEME || defined VP_QUERY
static ssize_t uri_decode_str(char *dest, const char *src, size_t dest_str_len, size_t dest_len)
{   /* contract, see unit uri_decode */
    size_t o = off(src), z = vp_end(o), k;
    __CPROVER_assert(dest_len > z - o && __CPROVER_w_ok(dest, dest_len), "vp_safe: room for the component and a terminator");
    __CPROVER_assert(dest_str_len == 0, "vp_spec: a component is decoded whole");
    if (nd < 8) { D[nd].dst = dest; D[nd].from = o; D[nd].to = z; nd++; } else __CPROVER_assert(0, "vp_spec: components");
    if (nd_int()) { G.bad = 1; return -1; }
    __CPROVER_assume(k <= z - o);
    return k;
}
static char *uri_find_port(char *str)
{   /* contract, see unit uri_port */
    size_t o = off(str), z = vp_end(o), k;
    if (X.auth && o == (X.hat ? X.at + 1 : X.A))
    {
        if (X.hpt && X.pt < z) { know(X.pt); return S + X.pt; }
        if (z <= X.sl) return NULL;
    }
    __CPROVER_assume(k >= o && k <= z && (k == z || S[k] == ':'));
    if (k == z) return NULL;
    know(k);
    return S + k;
}
static void vp_fail(int r)
{
    VP_REACH("not parsed");
    POST(u.scheme == NULL && u.userinfo == NULL && u.host == NULL && u.port == NULL && u.path == NULL && u.query == NULL && u.fragment == NULL, "a URI that is not accepted leaves nothing behind");
    POST(G.live == 0, "everything is released");
    POST((r == -ENOMEM && G.oom) || (r == -EBADMSG && G.bad), "a URI is refused only if its encoding is bad or an allocation fails");
}
static void vp_comp(char *p, int slash, int have, size_t from, size_t to)
{
    int k = -1;
    for (int i = 0; i < 8; i++) if (i < nd && p != NULL && D[i].dst == p + slash) k = i;
    if (!have) { POST(p == NULL, "a component that is not there is not set"); return; }
    POST(k >= 0 && D[k].from == from && D[k].to == to, "a component is the decoded text between its delimiters");
    POST(!slash || p[0] == '/', "a path begins with a slash");
}
#endif
#if defined VP_ENCODE || defined VP_COPYSTR
static int vp_has(const char *s, char c) { for (int i = 0; i < 8; i++) { if (s[i] == 0) return 0; if (s[i] == c) return 1; } return 0; }
static void vp_step(size_t w)
{
    char c = S[G.a]; size_t d = G.b;
    static const char H[] = "0123456789ABCDEF";
#ifdef VP_ENCODE
    POST(w == 3 || isalpha(c) || isdigit(c) || vp_has("-._~!$&", c) || vp_has("'()*+,;", c) || c == '=' || vp_has(xc, c), "a character that is not allowed is percent-encoded");
    if (w == 3)
        POST(d + 3 >= olen || (out[d] == '%' && (out[d + 1] == H[((unsigned char)c) >> 4] || out[d + 1] == (H[((unsigned char)c) >> 4] | 32)) && (out[d + 2] == H[c & 15] || out[d + 2] == (H[c & 15] | 32))), "percent sign and two digits");
#else
    POST(w == 1, "one character");
#endif
    if (w == 1) POST(d + 1 >= olen || out[d] == c, "the character");
    POST(vp_g >= olen || (vp_g >= d && vp_g < d + w && vp_g + 1 < olen) || out[vp_g] == (char)X.sl, "nothing else is written");
}
#endif
#if defined VP_GENERATE
static unsigned bit(char c) { return c == ':' ? 1 : c == '/' ? 2 : c == '?' ? 4 : c == '#' ? 8 : c == '@' ? 16 : c == '[' ? 32 : c == ']' ? 64 : c == '%' ? 128 : 0; }
static size_t vp_log(int kind, char *dest, const char *src, size_t pos, size_t len, const char *xc)
{
    size_t k;
    __CPROVER_assert(dest == out && len == olen, "vp_safe: the buffer and its size");
    INVT(pos == lpos, "each part follows the one before");
    POST(nl < 24, "parts");
    L[nl].kind = kind; L[nl].src = src;
    L[nl].xc = 0;
    if (kind) for (int i = 0; i < 7 && xc[i] != 0; i++) L[nl].xc |= bit(xc[i]);
    L[nl].lit = kind ? 0 : src[0];
    nl++;
    __CPROVER_assume(k <= MAXT);
    lpos = pos + (kind ? k : (src[1] == 0 ? 1 : 2));
    return lpos;
}
static size_t uri_encode_str(char *dest, const char *src, size_t pos, size_t len, char *except) { return vp_log(1, dest, src, pos, len, except); }
static size_t uri_copy_str(char *dest, const char *src, size_t pos, size_t len)
{
    __CPROVER_assert(src[0] != 0 && (src[1] == 0 || (src[0] == '/' && src[1] == '/' && src[2] == 0)), "vp_spec: delimiter");
    return vp_log(0, dest, src, pos, len, "");
}
static int at_;
static void lit(char c) { POST(at_ < nl && L[at_].kind == 0 && L[at_].lit == c, "delimiter"); at_++; }
static void comp(const char *s, const char *bad)
{
    POST(at_ < nl && L[at_].kind == 1 && L[at_].src == s, "component, encoded");
    unsigned m = 128;
    for (int k = 0; k < 6; k++) { if (bad[k] == 0) break; m |= bit(bad[k]); }
    POST(!(L[at_].xc & m), "a delimiter inside a component is encoded");
    at_++;
}
#endif
void vp_harness(void)
{
    size_t k;
    __CPROVER_assume(k <= MAXT && k >= 1);
    n = k;
    vp_g = nd_size();
    (memset)(&G, 0, sizeof G); (memset)(&X, 0, sizeof X);
    nd = 0; G.np = NG;
    for (int i = 0; i < NP; i++) G.pos[i] = k;
    S = malloc(n + 1);
    __CPROVER_assume(S != NULL);
    S[n] = 0;
    u.scheme = u.userinfo = u.host = u.port = u.path = u.query = u.fragment = NULL;
    int r;
#if defined VP_PARSE || defined VP_HIER || defined VP_SCHEME || defined VP_QUERY
    /* where the text has to be split */
    size_t c, e, f, sl, at, pt; int col, hq, hf, hat, hpt;
    __CPROVER_assume(S[0] != 0);
    col = S[0] != '/' && nd_int() != 0;
    if (col) __CPROVER_assume(c < n && S[c] == ':'); else c = n;
    X.col = col; X.c = c; X.b = col ? c + 1 : 0;
    __CPROVER_assume(e >= X.b && e <= n && (e == n || S[e] == '?' || S[e] == '#'));
    X.e = e; hq = e < n && S[e] == '?'; X.hq = hq;
    hf = hq ? nd_int() != 0 : e < n;
    if (hq && hf) __CPROVER_assume(f > e && f < n && S[f] == '#');
    if (!hq && hf) f = e;
    X.hf = hf; X.f = hf ? f : n;
#endif
#if defined VP_PARSE
    O = malloc(n + 1);
    __CPROVER_assume(O != NULL);
    O[0] = S[0]; O[n] = 0; if (col) O[c] = S[c]; if (e < n) O[e] = S[e]; if (hf) O[f] = S[f];
    /* an earlier content, that has to go */
    if (nd_int()) { u.host = malloc(1); u.fragment = malloc(1); __CPROVER_assume(u.host != NULL && u.fragment != NULL); G.live = 2; }
    r = uri_parse(&u, O);
    if (r == 0)
    {
        VP_REACH("parsed");
        POST((u.scheme != NULL) == col && u.host != NULL && (u.query != NULL) == hq && (u.fragment != NULL) == hf, "all parts are read");
        POST(G.live == (u.scheme != NULL) + (u.host != NULL) + (u.query != NULL) + (u.fragment != NULL), "only the components are kept");
        if (col && hq && hf) VP_REACH("all components");
    }
    else
    {
        VP_REACH("not parsed");
        POST(u.scheme == NULL && u.userinfo == NULL && u.host == NULL && u.port == NULL && u.path == NULL && u.query == NULL && u.fragment == NULL, "a URI that is not accepted leaves nothing behind");
        POST(G.live == 0, "everything is released");
        POST((r == -ENOMEM && G.oom) || (r == -EBADMSG && G.bad), "a URI is refused only if its encoding is bad or an allocation fails");
    }
#elif defined VP_HIER
    X.auth = e - X.b >= 2 && S[X.b] == '/' && S[X.b + 1] == '/';
    X.A = X.b + 2;
#ifdef VP_CASE
    __CPROVER_assume(X.auth == (VP_CASE > 0));
    X.auth = VP_CASE > 0;
#endif
    if (X.auth)
    {
        __CPROVER_assume(sl >= X.A && sl <= e && (sl == e || S[sl] == '/'));
#ifdef VP_CASE
        hat = (VP_CASE - 1) & 1; hpt = (VP_CASE - 1) >> 1;
#else
        hat = nd_int() != 0; hpt = nd_int() != 0;
#endif
        if (hat) __CPROVER_assume(at >= X.A && at < sl && S[at] == '@');
        if (hpt) __CPROVER_assume(pt >= (hat ? at + 1 : X.A) && pt < sl && S[pt] == ':');
        X.sl = sl; X.hat = hat; X.at = at; X.hpt = hpt; X.pt = pt;
        ghost(0, sl); if (hat) ghost(1, at); if (hpt) ghost(2, pt);
    }
    ghost(3, e);
    size_t h0 = X.hat ? X.at + 1 : X.A, h1 = X.hpt ? X.pt : X.sl;
    int br = X.auth && h1 - h0 >= 2 && S[h0] == '[' && S[h1 - 1] == ']';
    if (X.auth && h1 > h0) { ghost(4, h1 - 1); __CPROVER_assume(S[h1 - 1] != 0); }
    char *q = S + X.b;
    r = uri_parse_hier_part(&u, &q);
    if (r == 0)
    {
        VP_REACH("parsed");
        POST(q == (e < n ? S + e + 1 : NULL), "it ends before the query or fragment");
        POST(u.scheme == NULL && u.query == NULL && u.fragment == NULL, "nothing else is set");
        POST(G.live == (u.userinfo != NULL) + (u.host != NULL) + (u.port != NULL) + (u.path != NULL), "only the components are kept");
        vp_comp(u.userinfo, 0, X.auth && hat, X.A, at);
        vp_comp(u.host, 0, X.auth && h1 > h0 && !(br && h1 - h0 == 2), br ? h0 + 1 : h0, br ? h1 - 1 : h1);
        vp_comp(u.port, 0, X.auth && hpt, pt + 1, sl);
        if (X.auth) vp_comp(u.path, 1, sl < e, sl + 1, e); else vp_comp(u.path, 0, e > X.b, X.b, e);
        if (sl < e) VP_REACH("with a path");
#if VP_CASE > 0
        if (br) VP_REACH("brackets");
#endif
    }
    else vp_fail(r);
#elif defined VP_SCHEME
    if (col) ghost(3, c);
    __CPROVER_assume(S[0] != '/');
    char *q = S;
    r = uri_parse_scheme(&u, &q);
    if (r == 0)
    {
        VP_REACH("parsed");
        POST(q == S + X.b, "the rest follows the colon");
        vp_comp(u.scheme, 0, col && c > 0, 0, c);
        POST(u.userinfo == NULL && u.host == NULL && u.port == NULL && u.path == NULL && u.query == NULL && u.fragment == NULL && G.live == (u.scheme != NULL), "nothing else is set");
    }
    else vp_fail(r);
#elif defined VP_QUERY
    if (hf) ghost(5, f);
    int frag = nd_int() != 0;
    __CPROVER_assume(frag ? hf : hq);
    char *q = S + (frag ? f : e) + 1;
    if (frag) r = uri_parse_fragment(&u, &q); else r = uri_parse_query(&u, &q);
    if (r == 0)
    {
        VP_REACH("parsed");
        POST(q == (!frag && hf ? S + f + 1 : NULL), "what follows");
        if (frag) vp_comp(u.fragment, 0, 1, f + 1, n); else vp_comp(u.query, 0, 1, e + 1, X.f);
        POST(u.scheme == NULL && u.userinfo == NULL && u.host == NULL && u.port == NULL && u.path == NULL && (frag ? u.query : u.fragment) == NULL && G.live == 1, "nothing else is set");
        if (frag) VP_REACH("fragment"); else VP_REACH("query");
    }
    else vp_fail(r);
#elif defined VP_DECODE
    size_t ol, d;
    __CPROVER_assume(ol <= MAXT && ol >= 1 && d <= MAXT);
    olen = ol; o0 = d;
    out = malloc(ol);
    __CPROVER_assume(out != NULL);
    r = 0;
    ssize_t q = uri_decode_str(out, S, d, ol);
    if (q >= 0) { VP_REACH("decoded"); POST((size_t)q >= d && (size_t)q - d <= n, "not more octets than characters"); }
    else { VP_REACH("refused"); POST(q == -1, "refused"); POST(S[G.a] == (char)0xff || (S[G.a] == '%' && !(is_hex(S[G.a + 1]) && is_hex(S[G.a + 2]))), "only a bad percent encoding is refused"); }
#elif defined VP_ENCODE || defined VP_COPYSTR
    size_t ol, d;
    __CPROVER_assume(ol <= MAXT && d <= MAXT);
    olen = ol; o0 = d;
    out = malloc(ol);
    __CPROVER_assume(out != NULL);
#ifdef VP_ENCODE
    int w = nd_int();
    xc = w == 0 ? "" : w == 1 ? ":" : w == 2 ? "/:@" : "?/:@";
    size_t q = uri_encode_str(out, S, d, ol, (char *)xc);
#else
    size_t q = uri_copy_str(out, S, d, ol);
#endif
    VP_REACH("done");
    POST(q >= d, "length");
#elif defined VP_OCTET
    /* what is encoded decodes to the same octet */
    char c = nd_char(), b[4]; const char *p = b;
    __CPROVER_assume(c != 0);
    b[3] = nd_char();
    uri_encode_octet(b, c);
    r = uri_decode_octet(&p);
    VP_REACH("octet");
    POST((char)r == c && r != -1 && p == b + 3, "an octet that is encoded and decoded again is the same");
    b[0] = c; b[1] = nd_char(); b[2] = nd_char(); p = b;
    if (uri_is_allowed(c)) { r = uri_decode_octet(&p); POST((char)r == c && r != -1 && p == b + 1, "a character that is allowed stands for itself"); }
#elif defined VP_PORT
    char *q = uri_find_port(S);
    if (q != NULL) { VP_REACH("port"); POST(S[off(q)] == ':' && (G.c0 == 0 || (off(q) == G.a && G.b == 0)), "the first colon outside brackets"); }
    else { VP_REACH("no port"); POST(!G.c0 || S[G.a + 1] == 0, "the whole text is searched"); }
#elif defined VP_COPY
    uri_t s; char a[7]; char **f = (char **)&s;
    int w = nd_int(), had = nd_int() != 0;
    s.scheme = w & 1 ? a : NULL; s.userinfo = w & 2 ? a + 1 : NULL; s.host = w & 4 ? a + 2 : NULL; s.port = w & 8 ? a + 3 : NULL;
    s.path = w & 16 ? a + 4 : NULL; s.query = w & 32 ? a + 5 : NULL; s.fragment = w & 64 ? a + 6 : NULL;
    if (had) { u.scheme = malloc(1); u.port = malloc(1); __CPROVER_assume(u.scheme != NULL && u.port != NULL); G.live = 2; }
    sd_n = 0;
    r = uri_copy(&u, &s);
#define CMP(m) if (r == 0) { int k = -1; for (int i = 0; i < 7; i++) if (i < sd_n && SD[i] == u.m && u.m != NULL) k = i; \
        POST(s.m == NULL ? u.m == NULL : k >= 0 && SDS[k] == s.m, "each component is copied"); } else POST(u.m == NULL, "a failed copy leaves nothing behind");
    CMP(scheme) CMP(userinfo) CMP(host) CMP(port) CMP(path) CMP(query) CMP(fragment)
    if (r == 0) { VP_REACH("copied"); POST(G.live == (size_t)sd_n, "live"); }
    else { VP_REACH("not copied"); POST(r == -ENOMEM && G.oom && G.live == 0, "only an allocation that fails makes a copy fail, and everything is released"); }
#elif defined VP_GENERATE
    size_t ol; int w = nd_int();
    __CPROVER_assume(ol <= MAXT);
    olen = ol; out = malloc(ol); nl = 0; lpos = 0; at_ = 0;
    __CPROVER_assume(out != NULL && n >= 7);
    char a[6];
    if (w & 1) u.scheme = a; if (w & 2) u.userinfo = a + 1; if (w & 4) u.host = S; if (w & 8) u.port = a + 2;
    if (w & 16) u.path = a + 3; if (w & 32) u.query = a + 4; if (w & 64) u.fragment = a + 5;
    size_t q = uri_generate(&u, out, ol);
    VP_REACH("generated");
    POST(q == lpos, "the length of the text");
    if (u.scheme) { comp(u.scheme, ":/?#"); lit(':'); }
    if (u.userinfo || u.host || u.port) lit('/');
    if (u.userinfo) { comp(u.userinfo, "@/?#"); lit('@'); }
    if (u.host)
    {
        int b = at_ < nl && L[at_].kind == 0 && L[at_].lit == '[';
        if (b) { lit('['); comp(u.host, "[]@/?#"); lit(']'); } else comp(u.host, ":[@/?#");
    }
    if (u.port) { lit(':'); comp(u.port, "@/?#"); }
    if (u.path) comp(u.path, "?#");
    if (u.query) { lit('?'); comp(u.query, "#"); }
    if (u.fragment) { lit('#'); comp(u.fragment, "%"); }
    POST(at_ == nl, "nothing more");
#endif
}
