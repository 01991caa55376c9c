/* coap_msg_parse against an independent decoder of RFC 7252 messages */
#include "vph.h"
#include "coap_msg.h"
#include "coap_mem.h"
#include "pool.h"
#ifdef VP_CBMC
#include "coap_msg.c"
#endif
/* decode one option; 0 if malformed */
static int ref_op(const uint8_t *b, size_t n, unsigned *d, unsigned *l, size_t *h)
{
    if (n < 1) return 0;
    unsigned x = b[0] >> 4, y = b[0] & 15;
    size_t o = 1;
    if (x == 15 || y == 15) return 0;
    if (x == 13) { if (n < o + 1) return 0; x = 13 + b[o++]; }
    else if (x == 14) { if (n < o + 2) return 0; x = 269 + b[o] * 256 + b[o + 1]; o += 2; }
    if (y == 13) { if (n < o + 1) return 0; y = 13 + b[o++]; }
    else if (y == 14) { if (n < o + 2) return 0; y = 269 + b[o] * 256 + b[o + 1]; o += 2; }
    if (n - o < y) return 0;
    *d = x; *l = y; *h = o;
    return 1;
}
static int vp_run(void)
{
    coap_msg_t m;
    unsigned cfg = in8();
    pool_live[0] = pool_live[1] = 0;
    pool_fail = -1;
    pool_len[1] = cfg & 1 ? 40 : 1200;
#ifdef VP_CBMC
    pool_len[1] = 16;
#endif
    size_t n = vp_left;
    char *buf = malloc(n ? n : 1);
    if (buf == NULL) return 0;
    for (size_t i = 0; i < n; i++) buf[i] = (char)vp_d[i];
    const uint8_t *b = (const uint8_t *)buf;
    coap_msg_create(&m);
    if (cfg & 2) { coap_msg_add_op(&m, 5, 3, "abc"); coap_msg_set_payload(&m, "xy", 2); }
    if (cfg & 4) pool_fail = (cfg >> 3) & 7;
    int faulty = cfg & 4;
    ssize_t r = coap_msg_parse(&m, buf, n);
#ifdef VP_FUNC
    /* reference decision */
    int ok = 1, nomem = 0, nops = 0;
    size_t o = 4, pl = 0, po = 0;
    if (n < 4 || b[0] >> 6 != 1 || (b[0] & 15) > 8) ok = 0;
    unsigned cls = ok ? b[1] >> 5 : 0, det = ok ? b[1] & 31 : 0, tkl = ok ? b[0] & 15 : 0, type = ok ? (b[0] >> 4) & 3 : 0;
    if (ok && cls != 0 && cls != 2 && cls != 4 && cls != 5) ok = 0;
    if (ok && n - 4 < tkl) ok = 0;
    if (ok)
    {
        o += tkl;
        while (ok && o < n && b[o] != 0xff)
        {
            unsigned d, l;
            size_t h;
            if (!ref_op(b + o, n - o, &d, &l, &h)) ok = 0;
            else { o += h + l; nops++; if (l > pool_len[1]) nomem = 1; }
        }
        if (ok && o < n)
        {
            po = o + 1;
            pl = n - po;
            if (pl == 0) ok = 0;
            if (pl > pool_len[1]) nomem = 1;
        }
    }
    if (ok && cls == 0 && det == 0 && (type == 1 || tkl || nops || pl)) ok = 0;
    if (ok && (cls || det) && type == 3) ok = 0;
    VP_CHECK(r <= 0, "parse returns 0 or an error");
    VP_CHECK(ok || r < 0, "a malformed message is rejected");
    VP_CHECK(!ok || r == 0 || nomem || faulty, "a well-formed message is accepted");
    if (ok && r == 0)
    {
        VP_CHECK(m.ver == 1 && (unsigned)m.type == type && m.code_class == cls && m.code_detail == det, "header fields");
        VP_CHECK(m.msg_id == b[2] * 256u + b[3], "message ID");
        VP_CHECK(m.token_len == tkl && memcmp(m.token, b + 4, tkl) == 0, "token");
        coap_msg_op_t *op = m.op_list.first;
        unsigned num = 0;
        o = 4 + tkl;
        while (o < n && b[o] != 0xff)
        {
            unsigned d = 0, l = 0;
            size_t h = 0;
            ref_op(b + o, n - o, &d, &l, &h);
            num += d;
            VP_CHECK(op != NULL, "no option is lost");
            VP_CHECK(op->num == num && op->len == l, "option number and length");
            VP_CHECK(memcmp(op->val, b + o + h, l) == 0, "option value");
            VP_CHECK(op->next != NULL || m.op_list.last == op, "last option");
            op = op->next;
            o += h + l;
        }
        VP_CHECK(op == NULL, "no option is invented");
        VP_CHECK(m.payload_len == pl && (pl == 0 || memcmp(m.payload, b + po, pl) == 0), "payload");
    }
    unsigned t = 77, id = 77;
    int q = coap_msg_parse_type_msg_id(buf, n, &t, &id);
    VP_CHECK(n < 4 ? q < 0 : q == 0 && t == ((b[0] >> 4) & 3u) && id == b[2] * 256u + b[3], "type and message ID of any message");
#else
    (void)r;
    (void)ref_op;
    (void)b;
    (void)faulty;
    unsigned t = 77, id = 77;
    coap_msg_parse_type_msg_id(buf, n, &t, &id);
#endif
#ifdef VP_LEAK
    if (cfg & 64) coap_msg_reset(&m);
    coap_msg_destroy(&m);
    VP_CHECK(pool_live[0] == 0 && pool_live[1] == 0, "every block of a message is returned");
    VP_CHECK(m.op_list.first == NULL && m.payload == NULL, "a destroyed message is empty");
#else
    pool_fail = -1;
    coap_msg_destroy(&m);
#endif
    free(buf);
    return 0;
}
