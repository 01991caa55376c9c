/* library-level block-wise transfers of the server, over arbitrary sequences of requests from two
 * clients, against an independent model of the transfer */
#include "srvsim.h"
#define NC 2
typedef struct { int phase; /* 0 none, 1 receiving, 2 sending */ unsigned method, uri, s1, s2, det; size_t next, end; uint8_t body[3000]; } model;
static model M[NC];
static unsigned p_b1, p_b2, p_rxcode, p_rxret; static size_t p_blen, p_rlen; static uint8_t p_body[3000], p_rbody[3000];
static int n_rx, n_h; static uint8_t got[3000]; static size_t got_n; static int no_rx;
static int valid(unsigned s) { return s == 16 || s == 32 || s == 64 || s == 128 || s == 256 || s == 512 || s == 1024; }
static int rx(struct coap_server_trans *t, coap_msg_t *req, coap_msg_t *resp)
{
    n_rx++;
    got_n = coap_server_trans_get_body_end(t);
    VP_CHECK(got_n <= coap_server_trans_get_body_len(t), "the body fits its buffer");
    memcpy(got, coap_server_trans_get_body(t), got_n);
    if (p_rxret) return -EIO;
    int r = coap_msg_set_code(resp, p_rxcode >> 5, p_rxcode & 31);
    size_t n = p_rlen < coap_server_trans_get_body_len(t) ? p_rlen : coap_server_trans_get_body_len(t);
    memcpy(coap_server_trans_get_body(t), p_rbody, n);
    coap_server_trans_set_body_end(t, n);
    return r;
}
static int handler(struct coap_server_trans *t, coap_msg_t *req, coap_msg_t *resp)
{
    n_h++;
    return coap_server_trans_handle_blockwise(t, req, resp, p_b1, p_b2, (char *)p_body, p_blen, no_rx ? NULL : rx);
}
/* expected outcome */
static int e_err, e_rx, e_h; static unsigned e_code; static int e_o1, e_o2; static unsigned e_n1, e_m1, e_s1, e_n2, e_s2; static size_t e_pl; static uint8_t *e_p; static int e_m2 /* -1: either */;
static uint8_t e_buf[3000];
static void expect(int c, unsigned method, unsigned uri, int h1, unsigned n1, unsigned m1, unsigned s1, int h2, unsigned n2, unsigned s2, const uint8_t *pl, size_t pln, int bad1, int bad2)
{
    model *m = &M[c];
    e_err = e_rx = e_h = e_o1 = e_o2 = 0; e_code = 0; e_pl = 0; e_m2 = 0;
    if (m->phase == 0)
    {
        e_h = 1;
        if ((p_b1 && !valid(p_b1)) || (p_b2 && !valid(p_b2)) || p_blen > pool_len[2]) { e_err = 1; return; }
        if (method == 4) { e_code = 0xa1; return; }
        if (method != 1 && no_rx) { e_err = 1; return; }
        m->phase = method == 1 ? 2 : 1; m->method = method; m->uri = uri; m->s1 = p_b1; m->s2 = p_b2; m->next = 0; m->end = 0; m->det = 5;
        if (method == 1) { memcpy(m->body, p_body, p_blen); m->end = p_blen; }
    }
    if (bad1 || bad2) { e_code = 0x80; m->phase = 0; return; }
    if (h1 && s1 < m->s1) m->s1 = s1;
    if (h2 && s2 < m->s2) m->s2 = s2;
    if (m->phase == 1)
    {
        if (method != m->method || uri != m->uri) { e_code = 0x80; m->phase = 0; return; }
        if ((size_t)(h1 ? n1 : 0) * m->s1 != m->next) { e_code = 0x88; m->phase = 0; return; }
        if (pln == 0) { e_code = 0x80; m->phase = 0; return; }
        if (m->s1 == 0) { e_err = 1; m->phase = 0; return; }
        if (m->next + pln > pool_len[2]) { e_code = 0x8d; m->phase = 0; return; }
        e_o1 = 1; e_n1 = m->next / m->s1; e_m1 = h1 ? m1 : 0; e_s1 = m->s1;
        memcpy(m->body + m->next, pl, pln);
        m->next += pln;
        m->end = m->next;
        if (e_m1) { e_code = 0x5f; return; }
        e_rx = 1;
        memcpy(e_buf, m->body, m->end);
        VP_CHECK(n_rx == 1 && got_n == m->end && memcmp(got, m->body, got_n) == 0, "the application gets the body the client sent");
        if (p_rxret) { e_err = 1; m->phase = 0; return; }
        e_code = p_rxcode;
        if (p_rxcode >> 5 != 2) { m->phase = 0; return; }
        size_t n = p_rlen < pool_len[2] ? p_rlen : pool_len[2];
        if (n == 0) { m->phase = 0; return; }
        m->phase = 2; m->det = p_rxcode & 31; m->next = 0; m->end = n;
        memcpy(m->body, p_rbody, n);
    }
    if (method != m->method || uri != m->uri || (size_t)(h2 ? n2 : 0) * m->s2 != m->next) { e_code = 0x80; m->phase = 0; return; }
    if (m->s2 == 0 || m->next / m->s2 >= 1 << 20) { e_err = 1; m->phase = 0; return; }
    e_o2 = 1; e_n2 = m->next / m->s2; e_s2 = m->s2;
    size_t left = m->end - m->next;
    e_pl = left < m->s2 ? left : m->s2;
    memcpy(e_buf, m->body + m->next, e_pl);
    e_m2 = left > m->s2 ? 1 : left < m->s2 ? 0 : -1;
    m->next += e_pl;
    e_code = e_m2 == 1 ? 0x5f : 0x40 | m->det;
    if (e_m2 == 0) m->phase = 0;
}
static uint16_t mid;
static void event(void)
{
    uint8_t b[1600], *p = b;
    unsigned a = in8(), o = in8();
    int c = a & 1;
    static const unsigned mt[] = {1, 2, 3, 1, 2, 3, 4, 2};
    unsigned method = M[c].phase && (a & 2) ? M[c].method : mt[(a >> 2) & 7], uri = M[c].phase && (a & 2) ? M[c].uri : (a >> 5) & 3;
    int h1 = (o & 1) || (o & 3) == 2 && method != 1, h2 = (o >> 2) & 1, bad1 = 0, bad2 = 0;
    unsigned x1 = in8(), x2 = in8();
    unsigned s1 = 16u << (x1 & 7), m1 = (x1 >> 3) & 1, s2 = 16u << (x2 & 7), n1 = x1 >> 4, n2 = x2 >> 4;
    unsigned q1 = s1 < M[c].s1 ? s1 : M[c].s1, q2 = s2 < M[c].s2 ? s2 : M[c].s2;
    if (!(o & 0x10) && M[c].phase == 1 && q1) n1 = M[c].next / q1;
    if (!(o & 0x10) && M[c].phase == 2 && q2) n2 = M[c].next / q2;
    if (!(o & 0x10) && !M[c].phase) n1 = n2 = 0;
    if (!(o & 0x30) && M[c].phase == 2) h2 = 1;
    if ((x1 & 7) == 7) bad1 = h1;
    if ((x2 & 7) == 7) bad2 = h2;
    if ((o & 0xc0) == 0xc0) { n1 = in16(); n2 = in16(); }
    size_t pln = 0;
    if (method != 1 && method != 4)
    {
        pln = (o & 0x20) ? inrange(80) : (o & 8) ? in8() : (M[c].phase == 1 && q1 ? q1 : p_b1 && valid(p_b1) ? (s1 < p_b1 ? s1 : p_b1) : 16);
        if (!(o & 0x38) && h1 && !m1) pln = in8() % (pln + 1);
    }
    if (pln > 1024) pln = 1024;
    if (M[c].phase == 0)
    {   /* what the application will do */
        static const unsigned bs[] = {16, 32, 64, 16, 1024, 128, 0, 48};
        unsigned k = in8(), l = in8();
        p_b1 = bs[k & 7]; p_b2 = bs[(k >> 3) & 7]; no_rx = k >> 6 == 3;
        p_blen = l & 0x80 ? (size_t)(l & 0x7f) * 16 : l;
        if (p_blen > sizeof p_body) p_blen = sizeof p_body;
        for (size_t i = 0; i < p_blen; i++) p_body[i] = l + i * 3 + (i >> 6);
    }
    if (M[c].phase < 2)
    {
        unsigned k = in8(), l = in8();
        static const unsigned cs[] = {0x44, 0x41, 0x44, 0x45, 0x80, 0xa0, 0x84, 0x44};
        p_rxcode = cs[k & 7]; p_rxret = (k >> 3) == 31; p_rlen = (k & 8) ? l : (k & 16) ? 16 * (size_t)l : 0;
        if (p_rlen > sizeof p_rbody) p_rlen = sizeof p_rbody;
        for (size_t i = 0; i < p_rlen; i++) p_rbody[i] = k + i * 5 + (i >> 5);
    }
    *p++ = 0x41; *p++ = method; mid++; *p++ = mid >> 8; *p++ = mid & 255; *p++ = a;
    unsigned prev = 0;
    static const char *const us[] = {"u1", "u2", "u", "u12"};
    p = enc_op(p, &prev, 11, us[uri], strlen(us[uri]));
    unsigned v;
    if (h2) { v = (n2 << 4 | (x2 & 15)); uint8_t bv[3] = {v >> 16, v >> 8, v}; int k = v < 256 ? 1 : v < 65536 ? 2 : 3; if (v == 0 && (o & 0x20)) k = 0; p = enc_op(p, &prev, 23, bv + 3 - k, k); }
    if (h1) { v = (n1 << 4 | (x1 & 15)); uint8_t bv[3] = {v >> 16, v >> 8, v}; int k = v < 256 ? 1 : v < 65536 ? 2 : 3; p = enc_op(p, &prev, 27, bv + 3 - k, k); }
    uint8_t *pl = p + 1;
    if (pln) { *p++ = 0xff; for (size_t i = 0; i < pln; i++) *p++ = mid * 7 + i + (i >> 4); }
    put_datagram(c, b, p - b);
    n_rx = n_h = nout = 0;
    sim_until = sim_ms;
    VP_CHECK(coap_server_listen(&srv) == 0, "a datagram ends the wait");
    int r = coap_server_exchange(&srv);
    size_t start = M[c].phase == 2 ? M[c].next : 0;
    expect(c, method, uri, h1, n1, m1, s1, h2, n2, s2, pl, pln, bad1, bad2);
    VP_CHECK(n_h == e_h && n_rx == e_rx, "the application is called when it should be");
    if (e_err) { VP_CHECK(r < 0 && nout == 0, "a transfer that cannot go on ends with an error"); memset(&M[c], 0, sizeof M[c]); return; }
    VP_CHECK(r == 0 && nout == 1, "every block is answered");
    coap_msg_t m;
    coap_msg_create(&m);
    VP_CHECK(coap_msg_parse(&m, (char *)out[0].b, out[0].len) >= 0, "the response is well formed");
    unsigned num, more, size;
    int g1 = 0, g2 = 0;
    for (coap_msg_op_t *q = m.op_list.first; q; q = q->next)
    {
        if (q->num == 27) { g1++; VP_CHECK(coap_msg_op_parse_block_val(&num, &more, &size, q->val, q->len) == 0 && e_o1 && num == e_n1 && more == e_m1 && size == e_s1, "the block received is confirmed by number and size"); }
        else if (q->num == 23)
        {
            g2++;
            VP_CHECK(coap_msg_op_parse_block_val(&num, &more, &size, q->val, q->len) == 0 && e_o2 && num == e_n2 && size == e_s2, "the block sent is numbered by its position");
            if (e_m2 == -1) { e_m2 = more; e_code = more ? 0x5f : 0x40 | M[c].det; if (!more) M[c].phase = 0; }
            VP_CHECK(more == (unsigned)e_m2, "the last block is marked");
        }
        else VP_CHECK(0, "no other option");
    }
    VP_CHECK(g1 == e_o1 && g2 == e_o2, "block options are present");
    VP_CHECK(m.code_class == e_code >> 5 && m.code_detail == (e_code & 31), "the right code is sent");
    VP_CHECK(m.payload_len == e_pl && (e_pl == 0 || memcmp(m.payload, e_buf, e_pl) == 0), "the next part of the body is sent");
    coap_msg_destroy(&m);
    (void)start;
    int act = 0;
    for (int i = 0; i < NC; i++) act += M[i].phase != 0;
    VP_CHECK(pool_live[2] == act, "a body is held for every transfer under way and no other");
}
static int vp_run(void)
{
    sim_reset();
    memset(M, 0, sizeof M);
    unsigned cfg = in8();
    static const size_t ll[] = {100, 2048, 64, 256, 33, 1024, 1500, 48};
    pool_len[0] = 64; pool_len[1] = 1100; pool_len[2] = ll[cfg & 7];
    srv.handle = handler;
    mid = cfg;
    for (int step = 0; step < 80 && vp_left > 0; step++) event();
    for (int i = 0; i < COAP_SERVER_NUM_TRANS; i++) if (srv.trans[i].active) coap_server_trans_destroy(&srv.trans[i]);
    VP_CHECK(pool_live[0] == 0 && pool_live[1] == 0 && pool_live[2] == 0, "nothing is leaked");
    return 0;
}
