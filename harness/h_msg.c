/* Building, copying, formatting and reading back messages, against an independent encoder.
 * VP_GROUP: 1 format, 2 round trip, 3 options/setters/copy, 4 resources, 5 critical/unsafe, 6 uri path */
#include "vph.h"
#include "coap_msg.h"
#include "coap_mem.h"
#include "pool.h"
#ifdef VP_CBMC
#include "coap_msg.c"
#define MAXOPS 3
#define MAXVAL 3
#else
#define MAXOPS 12
#define MAXVAL 700
#endif
#ifndef VP_GROUP
#define VP_GROUP 0
#endif
#define ON(g) (VP_GROUP == 0 || VP_GROUP == (g))
typedef struct { unsigned num, len; char val[MAXVAL]; } rop_t;
static rop_t ref[MAXOPS];
static int nref;
static unsigned pick_num(void)
{
    static const unsigned common[] = {0, 1, 3, 4, 5, 7, 8, 11, 12, 14, 15, 17, 20, 23, 27, 28, 35, 39, 60, 11, 11, 2, 9, 13, 6, 268, 269, 65535, 281, 282};
    unsigned k = in8();
#ifdef VP_CBMC
    return k & 128 ? in16() : k & 63;
#endif
    return k < 90 ? common[k % 30] : k < 150 ? k - 90 : k < 230 ? in16() % 600 : in16();
}
static unsigned pick_len(void)
{
    unsigned k = in8();
#ifdef VP_CBMC
    return k % (MAXVAL + 1);
#endif
    return k < 100 ? k % 14 : k < 200 ? 8 + k % 16 : k < 230 ? 255 + in8() % 32 : in16() % MAXVAL;
}
static void fill(char *p, unsigned n)
{
    unsigned s = in8();
    for (unsigned i = 0; i < n; i++) p[i] = (char)(s + i * 7);
}
static size_t ref_format(coap_msg_t *m, uint8_t *out)
{
    size_t o = 0;
    unsigned prev = 0;
    out[o++] = 0x40 | (unsigned)m->type << 4 | m->token_len;
    out[o++] = m->code_class << 5 | m->code_detail;
    out[o++] = m->msg_id >> 8;
    out[o++] = m->msg_id & 255;
    memcpy(out + o, m->token, m->token_len);
    o += m->token_len;
    for (int i = 0; i < nref; i++)
    {
        unsigned d = ref[i].num - prev, l = ref[i].len;
        unsigned dn = d < 13 ? d : d < 269 ? 13 : 14, ln = l < 13 ? l : l < 269 ? 13 : 14;
        out[o++] = dn << 4 | ln;
        if (dn == 13) out[o++] = d - 13;
        if (dn == 14) { out[o++] = (d - 269) >> 8; out[o++] = (d - 269) & 255; }
        if (ln == 13) out[o++] = l - 13;
        if (ln == 14) { out[o++] = (l - 269) >> 8; out[o++] = (l - 269) & 255; }
        memcpy(out + o, ref[i].val, l);
        o += l;
        prev = ref[i].num;
    }
    if (m->payload_len)
    {
        out[o++] = 0xff;
        memcpy(out + o, m->payload, m->payload_len);
        o += m->payload_len;
    }
    return o;
}
static void same_ops(coap_msg_t *m, const char *what)
{
    coap_msg_op_t *op = m->op_list.first;
    for (int i = 0; i < nref; i++)
    {
        VP_CHECK(op != NULL, "no option is lost");
        VP_CHECK(op->num == ref[i].num, "options are in order of number, equal numbers in order of insertion");
        VP_CHECK(op->len == ref[i].len && memcmp(op->val, ref[i].val, op->len) == 0, "option value");
        if (i == nref - 1) VP_CHECK(m->op_list.last == op, "last option");
        op = op->next;
    }
    VP_CHECK(op == NULL, "no option is invented");
    (void)what;
}
static int vp_run(void)
{
    coap_msg_t m, c;
    unsigned cfg = in8(), flt = in8();
    pool_live[0] = pool_live[1] = 0;
    pool_fail = -1;
    pool_len[1] = MAXVAL;
    if (cfg & 128) pool_len[1] = 20 < MAXVAL ? 20 : MAXVAL;
    nref = 0;
    coap_msg_create(&m);
    coap_msg_create(&c);
    unsigned v = in8(), a = in8();
    if (cfg & 1) a = a & 7;
    int r = coap_msg_set_type(&m, v & 64 ? v : v & 3);
    if (ON(3)) VP_CHECK((v & 64 ? v : v & 3) <= 3 ? r == 0 && (unsigned)m.type == (v & 64 ? v : v & 3) : r < 0, "type setter");
    unsigned cl = a & 8 ? (a >> 4) : (a & 3) == 0 ? 0 : (a & 3) == 1 ? 2 : (a & 3) == 2 ? 4 : 5, de = in8() % 40;
    r = coap_msg_set_code(&m, cl, de);
    if (ON(3)) VP_CHECK(cl <= 7 && de <= 31 ? r == 0 && m.code_class == cl && m.code_detail == de : r < 0 && m.code_class == 0 && m.code_detail == 0, "code setter");
    unsigned id = cfg & 2 ? in16() : in16() * 257u;
    r = coap_msg_set_msg_id(&m, id);
    if (ON(3)) VP_CHECK(id <= 65535 ? r == 0 && m.msg_id == id : r < 0, "message ID setter");
    char tok[16];
    unsigned tl = in8() % 12;
    if (cfg & 32) tl = 0;
    fill(tok, tl);
    r = coap_msg_set_token(&m, tok, tl);
    if (ON(3)) VP_CHECK(tl <= 8 ? r == 0 && m.token_len == tl && memcmp(m.token, tok, tl) == 0 : r < 0 && m.token_len == 0, "token setter");
    unsigned n = in8() % (MAXOPS + 1);
    if (cfg & 64) n = 0;
    for (unsigned i = 0; i < n; i++)
    {
        rop_t o;
        o.num = pick_num();
        o.len = pick_len();
        if (o.len > MAXVAL) o.len = MAXVAL;
        fill(o.val, o.len);
        if (flt & 1) pool_fail = (flt >> 1) & 3;
        int s0 = pool_live[0], s1 = pool_live[1];
        r = coap_msg_add_op(&m, o.num, o.len, o.val);
        int hit = (flt & 1) && pool_fail < 0;
        pool_fail = -1;
        if (r == 0)
        {
            int k = nref++;
            while (k > 0 && ref[k - 1].num > o.num) { ref[k] = ref[k - 1]; k--; }
            ref[k] = o;
        }
        else
        {
            if (ON(3)) VP_CHECK(hit || o.len > pool_len[1], "an option is only refused for lack of memory");
            if (ON(4)) VP_CHECK(pool_live[0] == s0 && pool_live[1] == s1, "a refused option holds no block");
        }
    }
    if (ON(3)) same_ops(&m, "add");
    unsigned pl = cfg & 4 ? pick_len() : 0;
    static char pay[MAXVAL];
    fill(pay, pl);
    r = coap_msg_set_payload(&m, pay, pl);
    if (cfg & 8) { r = coap_msg_set_payload(&m, pay, pl); if (ON(4)) VP_CHECK(pool_live[1] == nref + (m.payload != NULL), "replacing a payload returns the old one"); }
    if (ON(3)) VP_CHECK(pl <= pool_len[1] ? r == 0 && m.payload_len == pl && (pl == 0 || memcmp(m.payload, pay, pl) == 0) : r < 0 && m.payload_len == 0, "payload setter");
    if (ON(3))
    {
        r = coap_msg_copy(&c, &m);
        VP_CHECK(r == 0, "a copy succeeds when memory suffices");
        same_ops(&c, "copy");
        VP_CHECK(c.type == m.type && c.code_class == m.code_class && c.code_detail == m.code_detail && c.msg_id == m.msg_id && c.ver == m.ver, "copied header");
        VP_CHECK(c.token_len == m.token_len && memcmp(c.token, m.token, m.token_len) == 0, "copied token");
        VP_CHECK(c.payload_len == m.payload_len && (m.payload_len == 0 || memcmp(c.payload, m.payload, m.payload_len) == 0), "copied payload");
        same_ops(&m, "source of copy");
    }
    if (ON(4) && (flt & 64))
    {
        pool_fail = flt & 31;
        coap_msg_copy(&c, &m);
        pool_fail = -1;
    }
    if (ON(1) || ON(2))
    {
        static uint8_t want[MAXOPS * (MAXVAL + 5) + MAXVAL + 32];
        int valid = cl <= 7 && de <= 31;
        (void)valid;
        int empty = m.code_class == 0 && m.code_detail == 0;
        int ok = empty ? (m.type != 1 && m.token_len == 0 && nref == 0 && m.payload_len == 0) : m.type != 3;
        size_t need = ref_format(&m, want);
        size_t room = cfg & 16 ? need : in8() & 1 ? need + in8() % 4 : need - 1 - in8() % need;
        if (room > need + 8) room = need;
        char *out = malloc(room ? room : 1);
        if (out == NULL) return 0;
        ssize_t q = coap_msg_format(&m, out, room);
        if (ON(1))
        {
            VP_CHECK(ok || q < 0, "an invalid message is not formatted");
            VP_CHECK(!ok || room >= need || q < 0, "a message that does not fit is refused");
            VP_CHECK(!ok || room < need || q == (ssize_t)need, "a message that fits is formatted");
            VP_CHECK(q < 0 || memcmp(out, want, need) == 0, "exact RFC 7252 encoding");
        }
        if (ON(2) && q > 0)
        {
            coap_msg_t p;
            char *exact = malloc(q);
            if (exact == NULL) return 0;
            memcpy(exact, out, q);
            coap_msg_create(&p);
            int cls_ok = m.code_class == 0 || m.code_class == 2 || m.code_class == 4 || m.code_class == 5;
            ssize_t s = coap_msg_parse(&p, exact, q);
            VP_CHECK(!cls_ok || s == 0, "what was formatted is accepted");
            if (s == 0)
            {
                same_ops(&p, "round trip");
                VP_CHECK(p.type == m.type && p.code_class == m.code_class && p.code_detail == m.code_detail && p.msg_id == m.msg_id, "header survives");
                VP_CHECK(p.token_len == m.token_len && memcmp(p.token, m.token, m.token_len) == 0, "token survives");
                VP_CHECK(p.payload_len == m.payload_len && (m.payload_len == 0 || memcmp(p.payload, m.payload, m.payload_len) == 0), "payload survives");
            }
            coap_msg_destroy(&p);
            free(exact);
        }
        free(out);
    }
    if (ON(5))
    {
        unsigned fc = 0, fu = 0;
        static const unsigned known[] = {1, 3, 4, 5, 7, 8, 11, 12, 14, 15, 17, 20, 23, 27, 28, 35, 39, 60};
        for (int i = 0; i < nref; i++)
        {
            int k = 0;
            for (unsigned j = 0; j < sizeof(known) / sizeof(known[0]); j++) k |= known[j] == ref[i].num;
            if (!k && (ref[i].num & 1) && !fc) fc = ref[i].num;
            if (!k && (ref[i].num & 2) && !fu) fu = ref[i].num;
        }
        unsigned gc = coap_msg_check_critical_ops(&m), gu = coap_msg_check_unsafe_ops(&m);
        VP_CHECK((gc != 0) == (fc != 0), "an unrecognised critical option is reported, and only then");
        VP_CHECK((gu != 0) == (fu != 0), "an unrecognised unsafe option is reported, and only then");
        VP_CHECK(gc == fc && gu == fu, "the option reported is the offending one");
    }
    if (ON(6))
    {
        static char full[MAXOPS * (MAXVAL + 1) + 2];
        size_t t = 0;
        for (int i = 0; i < nref; i++)
            if (ref[i].num == 11) { full[t++] = '/'; memcpy(full + t, ref[i].val, ref[i].len); t += ref[i].len; }
        size_t bl = in16() % (t + 5);
        char *b = malloc(bl ? bl : 1);
        if (b == NULL) return 0;
        size_t g = coap_msg_uri_path_to_str(&m, b, bl);
        if (bl > 0)
        {
            size_t w = t < bl - 1 ? t : bl - 1;
            VP_CHECK(t == 0 || g == t, "untruncated length");
            VP_CHECK(t == 0 || memcmp(b, full, w) == 0, "path text");
            VP_CHECK(t == 0 ? bl == 1 ? b[0] == 0 : b[0] == '/' && b[1] == 0 || bl < 2 : b[w] == 0, "terminated");
        }
        free(b);
    }
    if (cfg & 16) coap_msg_clear_payload(&m);
    if (cfg & 8) coap_msg_reset(&m);
    coap_msg_destroy(&c);
    coap_msg_destroy(&m);
    if (ON(4)) VP_CHECK(pool_live[0] == 0 && pool_live[1] == 0, "every block of a message is returned");
    return 0;
}
