/* one exchange of the client with a server that sends anything, in any order */
#include "clisim.h"
static uint8_t req_b[1400]; static size_t req_n; static unsigned req_id; static uint8_t req_tok[4];
static int phase, ended;                /* 1 ack, 2 separate, 3 non */
static long base; static int k;
static uint8_t dg[1400]; static size_t dgn; static int dg_on, r_err;
/* what must happen before the next wait, or instead of it */
static int x_on, x_go, x_nout, x_type, x_ret, x_any; static unsigned x_id; static int x_resend, x_sets; static long x_ms; static int x_next;
static coap_msg_t *x_msg; static uint8_t x_raw[1400]; static size_t x_rawn;
static void sent_is(int type, unsigned id)
{
    VP_CHECK(out_n == 4 && out_b[0] == (0x40 | type << 4) && out_b[1] == 0 && (unsigned)(out_b[2] << 8 | out_b[3]) == id, "an empty acknowledgement or reset with the identifier of the message");
}
static void reaction(void)
{
    VP_CHECK(nout == x_nout, "the right number of messages is sent");
    if (x_nout && x_resend) VP_CHECK(out_n == req_n && memcmp(out_b, req_b, req_n) == 0, "the same request is sent again");
    else if (x_nout) sent_is(x_type, x_id);
    VP_CHECK(t_sets == x_sets, "the timer is set when it should be");
    if (x_sets) VP_CHECK(t_ms == x_ms, "with the right timeout");
}
static void make(void)
{   /* a datagram, more or less related to the request */
    unsigned a = in8(), b = in8();
    uint8_t *p = dg;
    int type = a & 3, same = (a >> 2) & 1, tk = (a >> 3) & 3, code = (a >> 5) & 3, op = b & 3, mal = (b >> 2) & 15;
    unsigned id = same ? req_id : in16();
    static const uint8_t cs[] = {0, 0x45, 0x84, 0x5f};
    unsigned c = (b >> 6) == 3 ? 1 : cs[code];
    uint8_t t[8];
    int tl = 4;
    memcpy(t, req_tok, 4);
    memset(t + 4, 0, 4);
    if (tk == 1) t[in8() & 3] ^= 1 << (in8() & 7);
    else if (tk == 2) tl = in8() & 3;
    else if (tk == 3) tl = in8() & 1 ? 5 : 8;
    if (c == 0 && mal != 3) tl = 0;
    *p++ = 0x40 | type << 4 | tl;
    *p++ = c; *p++ = id >> 8; *p++ = id & 255;
    memcpy(p, t, tl);
    p += tl;
    unsigned prev = 0;
    if (c)
    {
        if (op == 1) p = enc_op(p, &prev, 12, "", 0);
        if (op == 2) p = enc_op(p, &prev, 14, "x", 1);
        if (op == 3) p = enc_op(p, &prev, 9 + 2 * (in8() & 7), "x", 1);
        if (b & 0x20) { *p++ = 0xff; *p++ = 'p'; *p++ = a; }
    }
    if (mal == 1) *p++ = 0xf1;
    if (mal == 2) p = dg + in8() % (p - dg + 1);
    if (mal == 4) dg[0] = dg[0] & 0x3f | 0x80;
    dgn = p - dg;
    dg_on = 1;
}
static int sim_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    VP_CHECK(FD_ISSET(SD, r) && FD_ISSET(TFD, r) && n > TFD && tv == NULL, "the client waits for its socket and its timer");
    if (phase == 0)
    {
        VP_CHECK(nout == 1 && out_ok && t_sets == 1, "the request is sent once and a timer is started before waiting");
        memcpy(req_b, out_b, out_n);
        req_n = out_n;
        req_id = req_b[2] << 8 | req_b[3];
        memcpy(req_tok, req_b + 4, 4);
        VP_CHECK((req_b[0] & 15) == 4, "a token of four bytes");
        phase = (req_b[0] >> 4 & 3) == 0 ? 1 : 3;
        if (t_armed)
        {
            base = t_ms;
            VP_CHECK(phase == 3 ? base == 30000 : base >= 2000 && base < 3000, "with the right timeout");
        }
        else base = 0;
    }
    else
    {
        VP_CHECK(x_on && x_go, "the exchange ends when it must");
        reaction();
        if (x_next) phase = x_next;
    }
    unsigned s = in8();
    nout = t_sets = 0;
    x_on = 1; x_go = 0; x_nout = 0; x_resend = 0; x_sets = 0; x_next = 0; x_any = 0; x_rawn = 0; x_ret = 0;
    f_send = f_tset = -1;
    if ((s & 0xf0) == 0xf0) f_send = 0;
    if ((s & 0xf0) == 0xe0) f_tset = 0;
    FD_ZERO(r);
    if ((s & 15) == 15) { x_any = 1; x_ret = -EINTR; errno = EINTR; return -1; }
    if ((s & 15) == 14) { x_go = 1; return 0; }
    if (((s & 15) < 4 || vp_left == 0) && base)
    {   /* the timer expires */
        sim_ms = t_at;
        FD_SET(TFD, r);
        if (phase == 1 && k < 4)
        {
            k++;
            if (f_tset == 0) { x_any = 1; x_sets = 1; x_ms = t_ms; return 1; }
            x_sets = 1; x_ms = base << k; x_nout = 1; x_resend = 1;
            if (f_send == 0) x_any = 1; else x_go = 1;
        }
        else { x_ret = -ETIMEDOUT; }
        return 1;
    }
    FD_SET(SD, r);
    if ((s & 15) == 4 || vp_left == 0) { r_err = vp_left && (s & 16) ? EAGAIN : ECONNREFUSED; if (r_err == EAGAIN) x_go = 1; else x_ret = -ECONNREFUSED; dg_on = 0; return 1; }
    make();
    coap_msg_t m;
    coap_msg_create(&m);
    ssize_t pr = coap_msg_parse(&m, (char *)dg, dgn);
    if (pr < 0)
    {
        unsigned t, id;
        x_any = 1;
        if (pr == -EBADMSG && coap_msg_parse_type_msg_id((char *)dg, dgn, &t, &id) == 0 && t == COAP_MSG_CON) { x_nout = 1; x_type = 3; x_id = id; }
        coap_msg_destroy(&m);
        return 1;
    }
    int same = m.msg_id == req_id, tok = m.token_len == 4 && memcmp(m.token, req_tok, 4) == 0, bad = coap_msg_check_critical_ops(&m) != 0, empty = m.code_class == 0 && m.code_detail == 0;
    int rej = 0;
    x_id = m.msg_id;
    if (same)
    {
        if (m.type == COAP_MSG_RST) x_ret = -ECONNRESET;
        else if (m.type == COAP_MSG_ACK && phase == 1 && empty) { x_go = 1; x_next = 2; x_sets = 1; x_ms = f_tset == 0 ? t_ms : 30000; }
        else if (m.type == COAP_MSG_ACK && phase == 1 && tok && !bad) { memcpy(x_raw, dg, x_rawn = dgn); }
        else if (m.type == COAP_MSG_ACK && phase == 2) x_go = 1;
        else { rej = 1; x_ret = -EBADMSG; }
    }
    else if (tok)
    {
        if ((m.type == COAP_MSG_CON || m.type == COAP_MSG_NON) && !bad)
        {
            if (m.type == COAP_MSG_CON) { x_nout = 1; x_type = 2; }
            if (m.type == COAP_MSG_CON && f_send == 0) x_any = 1;
            else memcpy(x_raw, dg, x_rawn = dgn);
        }
        else { rej = 1; x_ret = -EBADMSG; }
    }
    else
    {
        rej = 1;
        if (m.type == COAP_MSG_CON && f_send == 0) x_any = 1;
        else x_go = 1;
    }
    if (rej && m.type == COAP_MSG_CON) { x_nout = 1; x_type = 3; }
    if (x_next && f_tset == 0) base = 0;        /* no timer: do not expire it */
    coap_msg_destroy(&m);
    return 1;
}
static ssize_t sim_recv(int sd, void *b, size_t n, int fl)
{
    VP_CHECK(sd == SD, "the client reads from its socket");
    if (!dg_on) { errno = r_err; return -1; }
    dg_on = 0;
    size_t l = dgn < n ? dgn : n;
    memcpy(b, dg, l);
    return l;
}
static int pools(void) { return pool_live[0] + pool_live[1] + pool_live[2]; }
static int owned(coap_msg_t *m)
{
    int n = m->payload != NULL;
    for (coap_msg_op_t *q = m->op_list.first; q; q = q->next) n += 1 + (q->val != NULL);
    return n;
}
static int vp_run(void)
{
    sim_reset();
    pool_len[0] = 64; pool_len[1] = 256; pool_len[2] = 512;
    coap_msg_t resp;
    coap_msg_create(&resp);
    for (int i = 0; i < 8 && (vp_left || i == 0); i++)
    {
        unsigned c = in8();
        int live = pools() - owned(&resp);
        coap_msg_t req;
        coap_msg_create(&req);
        int ty = (c & 0x38) == 0x38 ? 2 + (c & 1) : c & 1, cls = (c & 0xc0) == 0xc0 ? 2 : 0;
        coap_msg_set_type(&req, ty);
        coap_msg_set_code(&req, cls, 1 + (c & 2));
        if (c & 4) coap_msg_add_op(&req, 11, 1, "r");
        if (c & 2) coap_msg_set_payload(&req, "body", 4);
        phase = k = x_on = nout = t_sets = t_armed = dg_on = 0;
        f_send = f_tset = -1;
        if ((c & 0xf0) == 0xb0) f_send = 0;
        sim_rnd = c * 77 + i;
        int r = coap_client_exchange(&cli, &req, &resp);
        VP_CHECK(r <= 0, "success or an error");
        if (phase == 0)
        {
            if (ty > 1 || cls) VP_CHECK(r == -EINVAL && nout == 0, "what is no request is not sent");
            else VP_CHECK(r < 0 && nout <= 1, "a request that cannot be sent fails");
        }
        else
        {
            VP_CHECK(x_on && !x_go, "the exchange goes on when it must");
            if (x_any) VP_CHECK(r < 0, "an error ends the exchange");
            else VP_CHECK(r == x_ret, "the exchange ends with the right result");
            reaction();
            if (r == 0)
            {
                VP_CHECK(x_rawn, "there is a response");
                char b[1400];
                ssize_t n = coap_msg_format(&resp, b, sizeof b);
                VP_CHECK(n == (ssize_t)x_rawn && memcmp(b, x_raw, n) == 0, "exactly the message received is handed over");
            }
        }
        coap_msg_destroy(&req);
        int now = pools() - owned(&resp);
        VP_CHECK(now == live, "nothing is leaked");
        if (i & 1) coap_msg_reset(&resp);
    }
    coap_msg_destroy(&resp);
    VP_CHECK(pool_live[0] == 0 && pool_live[1] == 0 && pool_live[2] == 0, "nothing is leaked");
    return 0;
}
