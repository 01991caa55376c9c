/* block-wise exchanges of the client with a server that answers anything */
#include "clisim.h"
static int mode;                        /* 1 sending, 2 receiving */
static unsigned size, size2, method; static size_t start, body_len; static uint8_t body[3000], body0[3000];
static int over, x_ret_on; static long x_ret; static int steps;
static uint8_t dg[1400]; static size_t dgn; static int r_err;
static uint8_t expect[3000];            /* what the body buffer must hold */
static int have;                        /* the first response is already there */
static coap_msg_t last;                 /* the response as the application must find it */
static unsigned szx(unsigned s) { unsigned k = 0; while (s > 16) { s >>= 1; k++; } return k; }
static int valid(unsigned s) { return s == 16 || s == 32 || s == 64 || s == 128 || s == 256 || s == 512 || s == 1024; }
static void finish(long r) { over = 1; x_ret = r; }
/* the meaning of a response: advances the model */
static size_t sent_len;
static void response(unsigned code, int has1, unsigned n1, unsigned s1, int has2, unsigned n2, unsigned m2, unsigned s2, const uint8_t *pl, size_t pln)
{   /* has: 0 no, 1 yes, 2 malformed */
    int again = 1;
    while (again)
    {
        again = 0;
        if (code >> 5 != 2) { finish(0); return; }
        unsigned d = code & 31;
        if (!(d == 31 || (mode == 2 && method == 1 ? d == 5 : d == 1 || d == 4))) { finish(0); return; }
        if (mode == 1)
        {
            if (has1 != 1) { finish(-EBADMSG); return; }
            unsigned s = s1 < size ? s1 : size;
            if ((size_t)n1 * s != start) { finish(-EBADMSG); return; }
            size = s;
            start += sent_len;
            if (start < body_len) return;
            if (start == 0) { finish(0); return; }
            if (pln == 0) { finish(0); return; }
            mode = 2; start = 0; size = size2;
            again = 1;
        }
        else
        {
            if (has2 != 1) { finish(-EBADMSG); return; }
            unsigned s = s2 < size ? s2 : size;
            if ((size_t)n2 * s != start) { finish(-EBADMSG); return; }
            size = s;
            if (pln > s || (m2 && pln != s)) { finish(-EBADMSG); return; }
            if (start + pln > body_len) { finish(-ENOSPC); return; }
            if (pln) memcpy(expect + start, pl, pln);
            start += pln;
            if (!m2) finish(start);
        }
    }
}
static unsigned g_code, g_n1, g_s1, g_n2, g_m2, g_s2; static int g_h1, g_h2; static uint8_t g_pl[1100]; static size_t g_pln;
static void generate(void)
{   /* mostly what a good server says */
    unsigned a = in8(), b = in8();
    static const unsigned cs[] = {0x5f, 0x44, 0x41, 0x45, 0x80, 0x5f, 0x5f, 0xa0};
    int l = mode == 1 && start + sent_len >= body_len;
    g_h1 = mode == 1; g_s1 = size; g_n1 = size ? start / size : 0;
    g_h2 = mode == 2 || (l && (a & 1)); g_s2 = mode == 2 ? size : size2; g_m2 = (a >> 1) & 1; g_n2 = mode == 2 && size ? start / size : 0;
    g_pln = g_h2 ? (g_m2 ? g_s2 : b % (g_s2 ? g_s2 + 1 : 1)) : 0;
    g_code = mode == 1 ? (l && !(g_h2 && g_m2) ? 0x44 : 0x5f) : (g_m2 ? 0x5f : method == 1 ? 0x45 : 0x44);
    if (a & 4) { unsigned s = 16u << (b & 7) % 7; if (mode == 1) { g_s1 = s; g_n1 = start / (s < size ? s : size ? size : 1); } else { g_s2 = s; if (s < size) { g_n2 = start / s; if (g_m2) g_pln = s; else g_pln %= s + 1; } } }
    if ((a & 0xc0) == 0xc0)
    {   /* something wrong */
        unsigned k = in8();
        switch (k & 15)
        {
        case 0: g_code = cs[in8() & 7]; break;
        case 1: g_h1 = 0; break;
        case 2: g_h2 = 0; break;
        case 3: g_h1 = 2; break;
        case 4: g_h2 = 2; break;
        case 5: g_n1 ^= 1u << (k >> 4); break;
        case 6: g_n2 ^= 1u << (k >> 4); break;
        case 7: g_pln = in16() % 1030; break;
        case 8: g_pln = g_pln ? g_pln - 1 : 1; break;
        case 9: g_m2 ^= 1; break;
        case 10: g_n1 = in16() | in8() << 16; g_n1 &= 0xfffff; break;
        case 11: g_n2 = in16() | in8() << 16; g_n2 &= 0xfffff; break;
        case 12: g_pln++; break;
        default: g_s2 = 16u << ((k >> 4) % 7); break;
        }
    }
    if (g_pln > 1024) g_pln = 1024;
    for (size_t i = 0; i < g_pln; i++) g_pl[i] = a + b + i * 3 + (i >> 5) + steps;
}
static uint8_t *enc_block(uint8_t *p, unsigned *prev, unsigned num, int h, unsigned n, unsigned m, unsigned s)
{
    if (!h) return p;
    unsigned v = n << 4 | m << 3 | (h == 2 ? 7 : szx(s));
    uint8_t b[3] = {v >> 16, v >> 8, v};
    int k = v < 256 ? 1 : v < 65536 ? 2 : 3;
    return enc_op(p, prev, num, b + 3 - k, k);
}
static void block_is(coap_msg_t *m, unsigned num, int want, unsigned n, unsigned more, unsigned s)
{
    int c = 0;
    for (coap_msg_op_t *q = m->op_list.first; q; q = q->next)
        if (q->num == num)
        {
            unsigned v = 0;
            c++;
            VP_CHECK(q->len <= 3, "block option");
            for (unsigned i = 0; i < q->len; i++) v = v << 8 | (uint8_t)q->val[i];
            VP_CHECK(want && v >> 4 == n && (v >> 3 & 1) == more && (v & 7) == szx(s), "the block is numbered by its position, with the size in force");
        }
    VP_CHECK(c == want, "block options are present");
}
static int sim_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    FD_ZERO(r);
    FD_SET(SD, r);
    VP_CHECK(!over, "the transfer ends when it must");
    VP_CHECK(nout == 1 && valid(size), "one request per block");
    nout = 0;
    int sv = pool_fail;
    pool_fail = -1;
    coap_msg_t m;
    coap_msg_create(&m);
    VP_CHECK(coap_msg_parse(&m, (char *)out_b, out_n) >= 0, "the request is well formed");
    VP_CHECK(m.code_class == 0 && m.code_detail == method && m.op_list.first && m.op_list.first->num == 11, "the request is the one given");
    sent_len = 0;
    if (mode == 1)
    {
        size_t left = body_len - start;
        int l = left <= size;
        sent_len = l ? left : size;
        block_is(&m, 27, 1, start / size, !l, size);
        block_is(&m, 23, l, 0, 0, size2);
        VP_CHECK(m.payload_len == sent_len && (sent_len == 0 || memcmp(m.payload, body0 + start, sent_len) == 0), "the payload is the next part of the body");
    }
    else
    {
        block_is(&m, 27, 0, 0, 0, 16);
        block_is(&m, 23, 1, start / size, 0, size);
        VP_CHECK(m.payload_len == 0, "no payload");
    }
    coap_msg_destroy(&m);
    pool_fail = sv;
    steps++;
    r_err = 0;
    if (in8() == 255 || steps > 60) { r_err = ECONNREFUSED; finish(-ECONNREFUSED); return 1; }
    generate();
    uint8_t *p = dg;
    *p++ = 0x64; *p++ = g_code; *p++ = out_b[2]; *p++ = out_b[3];
    memcpy(p, out_b + 4, 4);
    p += 4;
    unsigned prev = 0;
    p = enc_block(p, &prev, 23, g_h2, g_n2, g_m2, g_s2);
    p = enc_block(p, &prev, 27, g_h1, g_n1, 0, g_s1);
    if (g_pln) { *p++ = 0xff; memcpy(p, g_pl, g_pln); p += g_pln; }
    dgn = p - dg;
    response(g_code, g_h1, g_n1, g_s1, g_h2, g_n2, g_m2, g_s2, g_pl, g_pln);
    return 1;
}
static ssize_t sim_recv(int sd, void *b, size_t n, int fl)
{
    if (r_err) { errno = r_err; return -1; }
    size_t l = dgn < n ? dgn : n;
    memcpy(b, dg, l);
    return l;
}
static int vp_run(void)
{
    sim_reset();
    pool_len[0] = 64; pool_len[1] = 1100; pool_len[2] = 1100;
    unsigned a = in8(), b = in8(), c = in8();
    static const unsigned bs[] = {16, 32, 64, 16, 1024, 128, 16, 512};
    static const unsigned mt[] = {1, 2, 3, 1, 2, 3, 1, 2};
    unsigned b1 = bs[b & 7], b2 = bs[(b >> 3) & 7];
    if (b >> 6 == 3) { if (c & 1) b1 = 48; else b2 = 0; }
    method = (a >> 3) == 31 ? 4 : mt[a & 7];
    body_len = c & 0x80 ? (c & 0x7f) * 16 : c;
    if (body_len > 2048) body_len = 2048;
    mode = method == 1 ? 2 : 1;
    size = method == 1 ? b2 : b1; size2 = b2;
    start = steps = over = nout = 0;
    for (size_t i = 0; i < body_len; i++) body[i] = i * 7 + (i >> 4);
    memcpy(body0, body, sizeof body);
    memcpy(expect, body, body_len);
    coap_msg_t req, resp;
    coap_msg_create(&req);
    coap_msg_create(&resp);
    coap_msg_set_type(&req, (a >> 3) & 1);
    coap_msg_set_type(&req, 0);
    coap_msg_set_code(&req, 0, method);
    coap_msg_add_op(&req, 11, 1, "r");
    char *bp = malloc(body_len + 1);        /* exact size: overruns are seen */
    bp = realloc(bp, body_len ? body_len : 1);
    memcpy(bp, body, body_len);
    have = 0;
    if (!(valid(b2) && (method == 1 || valid(b1))) || method == 4) finish(-EINVAL);
    else if (method == 1 && (a & 0x40))
    {   /* the application has received the first response itself */
        have = 1;
        generate();
        uint8_t *p = dg;
        *p++ = 0x64; *p++ = g_code; *p++ = 1; *p++ = 2; memcpy(p, "toke", 4); p += 4;
        unsigned prev = 0;
        p = enc_block(p, &prev, 23, g_h2, g_n2, g_m2, g_s2);
        if (g_pln) { *p++ = 0xff; memcpy(p, g_pl, g_pln); p += g_pln; }
        VP_CHECK(coap_msg_parse(&resp, (char *)dg, p - dg) >= 0, "response");
        response(g_code, 0, 0, 0, g_h2, g_n2, g_m2, g_s2, g_pl, g_pln);
    }
    if ((a & 0x80) && !over) pool_fail = in8() % 40;
    int pf = pool_fail;
    int before = over;
    ssize_t r = coap_client_exchange_blockwise(&cli, &req, &resp, b1, b2, bp, body_len, have);
    int failed = pf >= 0 && pool_fail < 0;
    if (failed) VP_CHECK(r < 0, "a failing allocation is reported");
    else
    {
        VP_CHECK(over, "the transfer goes on when it must");
        VP_CHECK(r == x_ret, "the transfer ends with the right result");
        VP_CHECK(memcmp(bp, expect, body_len) == 0, "the body is exactly what was received");
    }
    (void)before;
    pool_fail = -1;
    coap_msg_destroy(&req);
    coap_msg_destroy(&resp);
    free(bp);
    VP_CHECK(pool_live[0] == 0 && pool_live[1] == 0 && pool_live[2] == 0, "nothing is leaked");
    return 0;
}
