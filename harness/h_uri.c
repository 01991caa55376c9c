/* URIs: a text is split as a reference parser splits it, and components survive generation and parsing */
#include "vph.h"
#include <errno.h>
static int f_alloc; static long live;
static int oom(void) { return f_alloc > 0 && --f_alloc == 0; }
static void *h_calloc(size_t n, size_t m) { if (oom()) return NULL; void *p = calloc(n, m); live++; return p; }
static char *h_strdup(const char *s) { if (oom()) return NULL; live++; return strdup(s); }
static void h_free(void *p) { live -= p != NULL; free(p); }
#define calloc(n, m) h_calloc(n, m)
#define malloc(n) h_calloc(n, 1)
#undef strdup
#define strdup(s) h_strdup(s)
#define free(p) h_free(p)
#include "uri.c"
#undef calloc
#undef malloc
#undef strdup
#undef free
static int hexd(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static int ref_bad;
static char rbuf[8][400];
static char *ref(int i, const char *a, const char *b, int slash)
{
    char *d = rbuf[i];
    if (slash) *d++ = '/';
    while (a < b)
    {
        if (*a == '%')
        {
            if (b - a < 3 || hexd(a[1]) < 0 || hexd(a[2]) < 0) { ref_bad = 1; break; }
            *d++ = hexd(a[1]) * 16 + hexd(a[2]); a += 3;
        }
        else { if (*a == (char)0xff) ref_bad = 1; *d++ = *a++; }
    }
    *d = 0;
    return rbuf[i];
}
static const char *find(const char *a, const char *b, int c) { while (a < b && *a != c) a++; return a; }
static int same(const char *a, const char *b) { return (a == NULL) == (b == NULL) && (a == NULL || strcmp(a, b) == 0); }
static void cmp(uri_t *u, uri_t *v, const char *t)
{
    VP_CHECK(same(u->scheme, v->scheme), "scheme"); VP_CHECK(same(u->userinfo, v->userinfo), "user info"); VP_CHECK(same(u->host, v->host), "host");
    VP_CHECK(same(u->port, v->port), "port"); VP_CHECK(same(u->path, v->path), "path"); VP_CHECK(same(u->query, v->query), "query"); VP_CHECK(same(u->fragment, v->fragment), "fragment");
}
static int empty(uri_t *u) { return !u->scheme && !u->userinfo && !u->host && !u->port && !u->path && !u->query && !u->fragment; }
static const char *tok[] = {"coap", "coaps", ":", "/", "//", "@", "?", "#", "[", "]", "%2F", "%3a", "%4", "%", "%zz", "%00", "%fF", "::1", "host", "a", "1", "=", "&", " ", "\xff", "\xe9", "coaps://", "h:5", "~", "+"};
static char *word(int i, int min)
{
    char *d = rbuf[i]; int n = min + in8() % 6;
    while (n-- > 0) { unsigned x = in8(); *d++ = x & 1 ? "/:@?#[]%&= .-~+"[(x >> 1) % 15] : (x >> 1) % 3 ? 'a' + (x >> 3) % 26 : (in8() ? (char)(in8() | 128) : 'Z'); }
    *d = 0;
    return rbuf[i];
}
static int vp_run(void)
{
    char t[400]; uri_t u, v, x;
    live = 0; f_alloc = 0;
    uri_create(&u); uri_create(&v);
    memset(&x, 0, sizeof x);
    if (in8() & 1)
    {   /* parse */
        size_t n = 0;
        while (n < 200 && vp_left > 0) { unsigned k = in8(); const char *w = tok[k % 30]; if (k >= 240) break; strcpy(t + n, w); n += strlen(w); }
        t[n] = 0;
        if (in8() > 200) f_alloc = 1 + in8() % 8;
        int ap = f_alloc != 0;
        const char *b = t, *z = t + n, *e, *f;
        ref_bad = 0;
        if (*t != '/') { const char *c = find(t, z, ':'); if (c < z) { if (c > t) x.scheme = ref(0, t, c, 0); b = c + 1; } }
        for (e = b; e < z && *e != '?' && *e != '#'; e++) ;
        if (e - b >= 2 && b[0] == '/' && b[1] == '/')
        {
            const char *a = b + 2, *sl = find(a, e, '/'), *at = find(a, sl, '@'), *p; int in = 0;
            if (at < sl) { x.userinfo = ref(1, a, at, 0); a = at + 1; }
            for (p = a; p < sl; p++) { if (!in && *p == '[') in = 1; else if (in && *p == ']') in = 0; if (!in && *p == ':') break; }
            const char *he = p;
            if (he - a >= 2 && *a == '[' && he[-1] == ']') { if (he - a > 2) x.host = ref(2, a + 1, he - 1, 0); }
            else if (he > a) x.host = ref(2, a, he, 0);
            if (p < sl) x.port = ref(3, p + 1, sl, 0);
            if (sl < e) x.path = ref(4, sl + 1, e, 1);
        }
        else if (e > b) x.path = ref(4, b, e, 0);
        f = find(e, z, '#');
        if (e < z && *e == '?') x.query = ref(5, e + 1, f, 0);
        if (f < z) x.fragment = ref(6, f + 1, z, 0);
        int r = uri_parse(&u, t);
        if (ap && f_alloc == 0) { VP_CHECK(r == -ENOMEM || (r == -EBADMSG && ref_bad), "out of memory is reported"); VP_CHECK(empty(&u) && live == 0, "nothing is left behind"); return 0; }
        if (ref_bad) { VP_CHECK(r == -EBADMSG && empty(&u) && live == 0, "a bad encoding is refused and nothing is left behind"); return 0; }
        f_alloc = 0;
        VP_CHECK(r == 0, "a good URI is accepted");
        cmp(&u, &x, "parsed");
        unsigned k = in8();
        if (k > 200) f_alloc = k % 8;
        ap = f_alloc != 0;
        r = uri_copy(&v, &u);
        if (ap && f_alloc == 0) { VP_CHECK(r == -ENOMEM && empty(&v), "a failed copy leaves nothing behind"); }
        else { VP_CHECK(r == 0, "a URI is copied"); cmp(&v, &u, "copied"); }
        f_alloc = 0;
        uri_destroy(&v); uri_destroy(&u);
        VP_CHECK(empty(&u) && live == 0, "released");
        return 0;
    }
    /* generate */
    unsigned m = in8();
    if (m & 1) x.scheme = word(0, 1);
    if (m & 2) x.userinfo = word(1, 0);
    if (m & 4) x.host = word(2, 1);
    if (m & 8) x.port = word(3, 0);
    int auth = (m & 14) != 0;
    if (m & 16) { x.path = word(4, 1); if (auth || !x.scheme) x.path[0] = '/'; if (!auth && x.path[0] == '/' && x.path[1] == '/') x.path[1] = 'a'; }
    if (m & 32) x.query = word(5, 0);
    if (m & 64) x.fragment = word(6, 0);
    if (!x.scheme && !auth && !x.path) return 0;
    size_t n = uri_generate(&x, t, sizeof t);
    VP_CHECK(n < sizeof t && strlen(t) == n, "length of the text");
    int r = uri_parse(&u, t);
    VP_CHECK(r == 0, "a generated URI is accepted");
    cmp(&u, &x, "generated and parsed");
    size_t k = inrange(n + 8);
    char *g = malloc(k + 1);
    memset(g, 0x5a, k + 1);
    VP_CHECK(uri_generate(&x, g, k) == n && g[k] == 0x5a, "the length is that of the whole text, and nothing is written behind the buffer");
    if (k > n) VP_CHECK(strcmp(g, t) == 0, "the text");
    else if (k > 0) VP_CHECK(g[k - 1] == 0, "a terminator");
    free(g);
    uri_destroy(&u);
    VP_CHECK(live == 0, "released");
    return 0;
}
