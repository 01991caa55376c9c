/* HTTP messages: parsing of untrusted and of well-formed text, generation; against a model */
#include "vph.h"
#include <ctype.h>
static long live; static int fail_at; static int failed_;
static int h_no(void) { if (fail_at > 0 && --fail_at == 0) { failed_ = 1; return 1; } return 0; }
static void *h_malloc(size_t n) { if (h_no()) return NULL; void *p = malloc(n); if (p) { memset(p, 0xa5, n); live++; } return p; }
static void *h_calloc(size_t n, size_t m) { if (h_no()) return NULL; void *p = calloc(n, m); if (p) live++; return p; }
static void *h_realloc(void *q, size_t n) { if (h_no()) return NULL; live += q == NULL; return realloc(q, n); }
static char *h_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = h_malloc(n); if (p) memcpy(p, s, n); return p; }
static void h_free(void *p) { live -= p != NULL; free(p); }
#undef strdup
#undef strndup
static char *h_strndup(const char *s, size_t n) { n = strnlen(s, n); char *p = h_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
#define malloc(n) h_malloc(n)
#define calloc(n, m) h_calloc(n, m)
#define realloc(p, n) h_realloc(p, n)
#define free(p) h_free(p)
#define strdup(s) h_strdup(s)
#define strndup(s, n) h_strndup(s, n)
#include "util.c"
#include "http_msg.c"
#undef malloc
#undef calloc
#undef realloc
#undef free
#undef strdup
#undef strndup
static char T[20000]; static size_t tn;          /* text of the message */
static void put(const char *s, size_t n) { if (tn + n < sizeof T) { memcpy(T + tn, s, n); tn += n; } }
static void puts_(const char *s) { put(s, strlen(s)); }
static char W[64][80]; static int wn;            /* expected strings */
static char *word(int sp)
{   /* visible text; sp: may contain single spaces inside */
    char *w = W[wn++ & 63];
    int n = 1 + in8() % 12, k = 0;
    for (int i = 0; i < n; i++)
    {
        unsigned c = in8();
        c = c < 200 ? 33 + c % 94 : 0x80 + (c & 0x7f);
        if (sp && (c & 7) == 5 && i > 0 && i + 1 < n && w[k - 1] != ' ') c = ' ';
        if (c == ':' || isspace((int)c) && c != ' ' || c == 0x85 || c == 0xa0) c = 'z';
        w[k++] = c;
    }
    w[k] = 0;
    return w;
}
static void ws(int must)
{
    int n = in8() & 3;
    if (must && n == 0) n = 1;
    for (int i = 0; i < n; i++) { unsigned c = in8() & 7; puts_(c < 4 ? " " : c < 6 ? "\t" : c == 6 ? "\r\n " : "\r\n\t"); }
}
static void cased(const char *s) { for (; *s; s++) { char c = (in8() & 1) ? toupper(*s) : tolower(*s); put(&c, 1); } }
static char B[4000]; static size_t bn;
static char *HN[16], HV[16][200]; static int hn;
static void header(char *name)
{
    HN[hn] = name; HV[hn][0] = 0;
    puts_(name); puts_(":");
    ws(0);
    int n = in8() & 3;
    for (int i = 0; i < n; i++)
    {
        char *w = word(0);
        if (i) { ws(1); strcat(HV[hn], " "); }
        puts_(w); strcat(HV[hn], w);
    }
    ws(0);
    puts_("\r\n");
    hn++;
}
static void fixed(char *name, const char *v) { HN[hn] = name; strcpy(HV[hn], v); cased(name); puts_(": "); cased(v); puts_("\r\n"); hn++; }
static ssize_t parse_exact(http_msg_t *m, const char *t, size_t n)
{
    char *c = malloc(n ? n : 1);
    memcpy(c, t, n);
    ssize_t r = http_msg_parse(m, c, n);
    free(c);
    return r;
}
static void structured(void)
{
    char *st[3]; char num[32]; int body = in8() % 3;
    tn = hn = wn = 0; bn = 0;
    for (int i = 0; i < 3; i++) { st[i] = word(i == 2); puts_(st[i]); puts_(i < 2 ? " " : "\r\n"); }
    for (int i = in8() & 3; i > 0; i--) header(word(0));
    size_t want = body ? (in8() & 7) == 7 ? in16() % 3000 : in8() & 31 : 0;
    for (size_t i = 0; i < want; i++) { unsigned c = i < 40 ? in8() : i * 7; B[i] = (c & 0xe0) == 0x20 ? "\r\n:; 0\t\0"[c & 7] : c; }
    if (body == 1) { sprintf(num, "%zu", want); fixed("Content-Length", num); }
    if (body == 2) fixed("Transfer-Encoding", "chunked");
    for (int i = in8() & 1; i > 0; i--) header(word(0));
    puts_("\r\n");
    bn = want;
    if (body == 1) put(B, bn);
    if (body == 2)
    {
        for (size_t o = 0; o < bn;)
        {
            size_t k = 1 + in8() % 64; if ((in8() & 3) == 3) k = bn;
            if (k > bn - o) k = bn - o;
            sprintf(num, in8() & 1 ? "%zx" : "%04zX", k); puts_(num);
            if ((in8() & 3) == 3) puts_("; a=b");
            puts_("\r\n"); put(B + o, k); puts_("\r\n");
            o += k;
        }
        puts_("0\r\n");
        for (int i = in8() & 1; i > 0; i--) header(word(0));
        puts_("\r\n");
    }
    size_t full = tn;
    int more = in8() & 3;
    for (int i = 0; i < more; i++) { char c = in8(); put(&c, 1); }
    if (more && (T[full] == ' ' || T[full] == '\t')) T[full] = 'G';
    http_msg_t m;
    http_msg_create(&m);
    fail_at = (in8() & 7) == 7 ? 1 + in8() % 20 : 0; failed_ = 0;
    size_t cut = (in8() & 1) ? full : in16() % (full + 1);
    ssize_t r = parse_exact(&m, T, cut == full ? tn : cut);
    if (failed_) VP_CHECK(r == -ENOMEM, "out of memory is reported");
    else if (cut < full) VP_CHECK(r == -EAGAIN, "a message that is not complete yet is not accepted");
    else
    {
        VP_CHECK(r == (ssize_t)full, "a complete message is taken, and nothing behind it");
        for (int i = 0; i < 3; i++) VP_CHECK(http_msg_get_start(&m, i) && strcmp(http_msg_get_start(&m, i), st[i]) == 0, "field of the start line");
        http_msg_header_t *h = http_msg_get_first_header(&m);
        for (int i = 0; i < hn; i++, h = http_msg_header_get_next(h))
        {
            VP_CHECK(h != NULL && strcasecmp(http_msg_header_get_name(h), HN[i]) == 0, "header name");
            VP_CHECK(strcasecmp(http_msg_header_get_value(h), HV[i]) == 0, "header value");
        }
        VP_CHECK(h == NULL, "no other header");
        VP_CHECK(http_msg_get_body_len(&m) == bn && (bn == 0 || memcmp(http_msg_get_body(&m), B, bn) == 0), "the body");
        VP_CHECK(bn == 0 || http_msg_get_body(&m)[bn] == 0, "a terminator follows the body");
    }
    fail_at = 0;
    if (in8() & 1) { r = parse_exact(&m, T, full); VP_CHECK(r == (ssize_t)full, "a message structure can be used again"); }
    http_msg_destroy(&m);
    VP_CHECK(live == 0, "everything is released");
}
static void raw(void)
{
    static char t[1 << 12]; size_t n = 0;
    static const char *frag[] = { "\r\n", " ", ":", "Content-Length: ", "Transfer-Encoding: chunked\r\n", "GET / HTTP/1.1\r\n", "\r\n\r\n", "7fffffff", "ffffffff",
        "ffffffffffffffff", "-1", "0\r\n", "5\r\nhello\r\n", ";", "80000000", "\t", "4294967296", "\r\n ", "a: b\r\n", "fffffffffffffffe\r\n" };
    while (vp_left > 0 && n < 3000)
    {
        unsigned c = in8();
        if (c >= 0xe0) { const char *f = frag[in8() % 20]; memcpy(t + n, f, strlen(f)); n += strlen(f); }
        else t[n++] = c;
    }
    http_msg_t m;
    http_msg_create(&m);
    ssize_t r = parse_exact(&m, t, n);
    VP_CHECK(r < 0 || (r > 0 && (size_t)r <= n), "the number of bytes taken");
    VP_CHECK(r > 0 || r == -EAGAIN || r == -EBADMSG || r == -ENOMEM, "error codes");
    if (r > 0)
    {
        for (int i = 0; i < 3; i++) VP_CHECK(http_msg_get_start(&m, i) != NULL && http_msg_get_start(&m, i)[0] != 0, "three fields");
        for (http_msg_header_t *h = http_msg_get_first_header(&m); h; h = http_msg_header_get_next(h)) VP_CHECK(strlen(h->name) + strlen(h->value) <= n, "header text");
        VP_CHECK(http_msg_get_body_len(&m) <= n, "the body is part of the text");
        if (http_msg_get_body(&m)) VP_CHECK(http_msg_get_body(&m)[http_msg_get_body_len(&m)] == 0, "a terminator follows the body");
    }
    http_msg_destroy(&m);
    VP_CHECK(live == 0, "everything is released");
}
static void long_chunk(void)
{   /* a chunk, or a body, said to be longer than any text */
    char num[32]; unsigned c = in8();
    tn = hn = wn = 0;
    puts_("GET / HTTP/1.1\r\n");
    unsigned long big = (c & 3) == 0 ? 0x7fffffffUL + in8() % 3 : (c & 3) == 1 ? 0xffffffffUL - in8() % 4 : 0UL - 1 - in8() % (c & 4 ? 4 : 64);
    if (c & 8)
    {
        puts_("Transfer-Encoding: chunked\r\n\r\n");
        for (int i = c >> 6; i > 0; i--) puts_("5\r\nhello\r\n");
        sprintf(num, "%lx\r\n", big); puts_(num);
        for (int i = in8() & 3; i > 0; i--) puts_("5\r\nhello\r\n");
        puts_("0\r\n\r\n");
    }
    else { sprintf(num, "%lu", big); puts_("Content-Length: "); puts_(num); puts_("\r\n\r\nhello"); }
    http_msg_t m;
    http_msg_create(&m);
    VP_CHECK(parse_exact(&m, T, tn) < 0, "a message that is not complete yet is not accepted");
    http_msg_destroy(&m);
    VP_CHECK(live == 0, "everything is released");
}
static void check_out(const char *out, size_t len, size_t got)
{
    VP_CHECK(got == tn, "the number of bytes of the whole text is returned");
    if (len == 0) return;
    size_t k = tn < len - 1 ? tn : len - 1;
    VP_CHECK(memcmp(out, T, k) == 0 && out[k] == 0, "the text, or as much of it as there is room for, and a terminator");
}
static void generate(void)
{
    http_msg_t m; char *st[3];
    tn = hn = wn = 0;
    http_msg_create(&m);
    fail_at = (in8() & 7) == 7 ? 1 + in8() % 16 : 0; failed_ = 0;
    int ok = 1;
    for (int i = 0; i < 3; i++) { st[i] = word(i == 2); puts_(st[i]); puts_(i < 2 ? " " : "\r\n"); }
    if (in8() & 1) ok &= http_msg_set_start(&m, "a", "b", "c") == 0;
    ok &= http_msg_set_start(&m, st[0], st[1], st[2]) == 0;
    for (int i = in8() & 3; i > 0; i--) { char *a = word(0), *b = word(1); puts_(a); puts_(": "); puts_(b); puts_("\r\n"); ok &= http_msg_set_header(&m, a, b) == 0; }
    puts_("\r\n");
    if (in8() & 1)
    {
        bn = in8();
        for (size_t i = 0; i < bn; i++) B[i] = i < 16 ? in8() : i * 5;
        if (in8() & 1) ok &= http_msg_set_body(&m, "xyz", 3) == 0;
        put(B, bn);
        ok &= http_msg_set_body(&m, B, bn) == 0;
    }
    VP_CHECK(ok == !failed_, "out of memory is reported");
    fail_at = 0;
    if (ok)
    {
        size_t len = (in8() & 3) ? 1 + in8() % 80 + tn * (in8() & 1) : tn + (in8() & 3);
        if (len == 0) len = 1;
        char *out = malloc(len);
        memset(out, 'q', len);
        check_out(out, len, http_msg_generate(&m, out, len));
        free(out);
    }
    http_msg_destroy(&m);
    VP_CHECK(live == 0, "everything is released");
}
static void chunk(void)
{
    char num[32]; unsigned k = in8() & 3;
    tn = 0; wn = 0;
    bn = inrange(300);
    for (size_t i = 0; i < bn; i++) B[i] = i < 16 ? in8() : i * 5;
    char *a = word(0), *b = word(1);
    if (k < 2) { sprintf(num, "%zx\r\n", bn); puts_(num); put(B, bn); puts_("\r\n"); }
    else if (k == 2) { puts_("0\r\n"); }
    else { puts_(a); puts_(": "); puts_(b); puts_("\r\n"); }
    size_t len = (in8() & 1) ? in8() % 24 : tn + (in8() & 7) - (tn > 3 ? 3 : 0);
    char *out = malloc(len ? len : 1), *in = malloc(bn ? bn : 1);
    memset(out, 'q', len ? len : 1);
    memcpy(in, B, bn);
    size_t r = k < 2 ? http_msg_generate_chunk(out, len, in, bn) : k == 2 ? http_msg_generate_last_chunk(out, len) : http_msg_generate_trailer(out, len, a, b);
    if (len == 0) VP_CHECK(out[0] == 'q', "nothing is written into an empty buffer");
    check_out(out, len, r);
    free(out); free(in);
}
static int vp_run(void)
{
    live = 0; fail_at = 0; failed_ = 0;
    unsigned k = in8();
#if VP_GROUP == 1
    if (k & 1) structured(); else if ((k & 6) == 6) long_chunk(); else raw();
#else
    if (k & 1) generate(); else chunk();
#endif
    return 0;
}
