/* the request/response layer, deduplication, retransmission and transaction table of the server
 * against an independent model, over arbitrary sequences of datagrams, time and failures */
#include "srvsim.h"
#define NC 10
typedef struct { int on; time_t used; int has; unsigned id; outm resp; unsigned rtype, rid; int timer; long ms; int nret; } model;
static model M[NC];
static int h_calls, h_plan, h_seed, h_client;
static coap_msg_t *cur; static unsigned h_code; static uint8_t h_pl[200]; static size_t h_pln; static int h_op;
static int handler(struct coap_server_trans *t, coap_msg_t *req, coap_msg_t *resp)
{
    struct sockaddr_in a = addr(h_client);
    h_calls++;
    VP_CHECK(memcmp(&t->client_sin, &a, sizeof a) == 0, "the handler is given the sender's transaction");
    VP_CHECK(req->msg_id == cur->msg_id && req->type == cur->type && req->code_class == cur->code_class && req->code_detail == cur->code_detail
        && req->token_len == cur->token_len && memcmp(req->token, cur->token, req->token_len) == 0 && req->payload_len == cur->payload_len
        && (req->payload_len == 0 || memcmp(req->payload, cur->payload, req->payload_len) == 0), "the handler is given the request");
    VP_CHECK(resp->op_list.first == NULL && resp->payload == NULL && resp->token_len == 0, "the handler is given a blank response");
    if (h_plan & 1) return -EIO;
    static const unsigned codes[] = {0x45, 0x44, 0x84, 0x80, 0xa0, 0x41};
    h_code = codes[(h_plan >> 1) % 6];
    int r = coap_msg_set_code(resp, h_code >> 5, h_code & 31);
    if (r < 0) return r;
    h_op = (h_plan >> 5) & 1;
    if (h_op) { r = coap_msg_add_op(resp, 12, 1, "x"); if (r < 0) return r; }
    h_pln = (h_plan & 0x10) ? 1 + h_seed % 100 : 0;
    for (size_t i = 0; i < h_pln; i++) h_pl[i] = h_seed + i;
    if (h_pln) { r = coap_msg_set_payload(resp, (char *)h_pl, h_pln); if (r < 0) return r; }
    return 0;
}
static int n_on(void) { int n = 0; for (int i = 0; i < NC; i++) n += M[i].on; return n; }
static coap_server_trans_t *tr(int c)
{
    struct sockaddr_in a = addr(c);
    coap_server_trans_t *f = NULL;
    for (int i = 0; i < COAP_SERVER_NUM_TRANS; i++)
        if (srv.trans[i].active && memcmp(&srv.trans[i].client_sin, &a, sizeof a) == 0) { VP_CHECK(f == NULL, "one transaction per client"); f = &srv.trans[i]; }
    return f;
}
static void agree(void)
{   /* the table holds exactly the transactions the model expects, with their timers */
    int t = 0;
    for (int c = 0; c < NC; c++)
    {
        coap_server_trans_t *x = tr(c);
        VP_CHECK((x != NULL) == M[c].on, "the table holds the transactions it should");
        if (!x) continue;
        t++;
        int i = x->timer_fd - TFD0;
        VP_CHECK(i >= 0 && i < NTFD && tf[i].used, "a transaction has a timer");
        VP_CHECK(tf[i].armed == M[c].timer, "the timer runs while, and only while, a separate response is unacknowledged");
    }
    int used = 0, act = 0;
    for (int i = 0; i < NTFD; i++) used += tf[i].used;
    for (int i = 0; i < COAP_SERVER_NUM_TRANS; i++) act += srv.trans[i].active != 0;
    VP_CHECK(used == t && act == t, "descriptors and transactions are not lost");
}
static int same(const outm *a, const outm *b) { return a->len == b->len && memcmp(a->b, b->b, a->len) == 0; }
static void is_empty_msg(const outm *o, unsigned type, unsigned id, const char *what)
{
    VP_CHECK(o->len == 4 && o->b[0] == (0x40 | type << 4) && o->b[1] == 0 && o->b[2] == id >> 8 && o->b[3] == (id & 255), "an empty message of the right type and ID is sent");
}
static void drop(int c) { memset(&M[c], 0, sizeof M[c]); }
static int tset_expect;
static void event_datagram(void)
{
    uint8_t b[600], *p = b;
    unsigned k = in8();
    int c = k % NC;
    unsigned shape = in8();
    unsigned type = shape & 3;
    static const unsigned codes[] = {1, 2, 3, 4, 0, 0x45, 0x84, 1};
    unsigned code = codes[(shape >> 2) & 7], id = in8();
    if (id >= 0xf0) id = in16();
    else if (id >= 0xe0) id = 0xffff;
    else if (id >= 0xa0) id = M[c].has ? M[c].rid : id & 7;
    else if (id >= 0x80) id = M[c].has ? M[c].id : id & 7;
    else id &= 7;
    unsigned ops = in8(), tkl = ops & 8 ? in8() % 9 : (ops & 7);
    *p++ = 0x40 | type << 4 | tkl;
    *p++ = code; *p++ = id >> 8; *p++ = id & 255;
    for (unsigned i = 0; i < tkl; i++) *p++ = in8();
    unsigned prev = 0;
    static const char *paths[] = {"sep", "a", "b", "sepx"};
    if (ops & 0x10) p = enc_op(p, &prev, 1, "e", 1);
    if (ops & 0x60) p = enc_op(p, &prev, 11, paths[(ops >> 5) & 3], strlen(paths[(ops >> 5) & 3]));
    if ((ops & 0x87) == 0x82) p = enc_op(p, &prev, 11, "y", 1);
    if (ops & 0x80) { unsigned x = in8(); if (x & 1) p = enc_op(p, &prev, (x & 2) ? 9 + 2 : 65, "q", 1); if (x & 4) p = enc_op(p, &prev, prev <= 2050 && (x & 8) ? 2051 : 2050, "zz", 2); }
    unsigned pl = in8();
    if (pl & 1) { *p++ = 0xff; for (unsigned i = 0; i < (pl >> 1) % 60 + ((pl & 2) ? 0 : 1); i++) *p++ = i + pl; }
    size_t n = p - b;
    unsigned mut = in8();
    if (mut >= 0xf0) n = in8() % (n + 1);
    else if (mut >= 0xe0) b[in8() % n] ^= in8();
    put_datagram(c, b, n);
    h_plan = in8(); h_seed = in8(); h_client = c;
    if (h_plan >= 0x30) h_plan &= ~1;
    unsigned fi = in8();
    int fault = fi >= 0xc0;
    if (fault)
    {
        int nth = fi & 3;
        switch ((fi >> 2) & 7) { case 0: f_send = nth & 1; break; case 1: f_recv = nth % 3; break; case 2: f_tset = nth & 1; break; case 3: f_tcre = 0; break; case 4: f_ntop = 0; break; default: pool_fail = nth + (fi & 0x20 ? 4 : 0); }
    }
    /* what the datagram is */
    coap_msg_t m;
    int pf = pool_fail;
    pool_fail = -1;
    coap_msg_create(&m);
    int pr = coap_msg_parse(&m, (char *)b, n);
    unsigned ty = 0, mi = 0;
    int tr_ = coap_msg_parse_type_msg_id((char *)b, n, &ty, &mi);
    char path[COAP_MSG_OP_URI_PATH_MAX_LEN];
    coap_msg_uri_path_to_str(&m, path, sizeof path);
    int sep = strcmp(path, "/sep") == 0 || strcmp(path, "/b/y") == 0;
    unsigned bad = pr >= 0 ? coap_msg_check_critical_ops(&m) : 0;
    int live0 = pool_live[1];
    pool_fail = pf;
    cur = &m;
    h_calls = 0;
    nout = 0;
    ev_sets = 0;
    sim_until = sim_ms;
    int full = n_on() >= COAP_SERVER_NUM_TRANS, had = M[c].on, victim = -1;
    unsigned id0 = srv.msg_id;
    int lr = coap_server_listen(&srv);
    VP_CHECK(lr == 0, "a datagram ends the wait");
    int r = coap_server_exchange(&srv);
    int hit = fault && (f_send < 0 && f_recv < 0 && f_tset < 0 && f_tcre < 0 && f_ntop < 0 && pool_fail < 0);
    f_send = f_recv = f_tset = f_tcre = f_ntop = pool_fail = -1;
    VP_CHECK(h_calls <= 1, "the handler is called at most once");
    for (int i = 0; i < nout; i++) { int w = client_of(&out[i].to); VP_CHECK(w == c, "messages go to the sender of the datagram only"); }
    int isreq = pr >= 0 && (m.type == COAP_MSG_CON || m.type == COAP_MSG_NON) && m.code_class == 0 && m.code_detail != 0;
    int dup = pr >= 0 && had && M[c].has && M[c].id == m.msg_id && (m.type == COAP_MSG_CON || m.type == COAP_MSG_NON);
    int acked = pr >= 0 && had && M[c].has && M[c].rid == m.msg_id && (m.type == COAP_MSG_ACK || m.type == COAP_MSG_RST);
    if (!had && full)
    {   /* someone made room: the one that has been silent longest */
        time_t min = 0;
        int gone = 0;
        for (int i = 0; i < NC; i++) if (M[i].on && (min == 0 || M[i].used < min)) min = M[i].used;
        for (int i = 0; i < NC; i++) if (M[i].on && tr(i) == NULL) { gone++; victim = i; VP_CHECK(M[i].used == min, "the oldest transaction makes room"); }
        if (!q_on || hit) VP_CHECK(gone <= 1, "one transaction makes room");
        if (!hit) VP_CHECK(gone == 1, "one transaction makes room");
        if (victim >= 0) drop(victim);
    }
    if (h_calls) VP_CHECK(isreq && !dup && !acked && !bad, "the handler sees new, valid requests only");
    if (hit)
    {   /* a failure was injected: the transaction goes or stays, the others are untouched */
        coap_server_trans_t *x = tr(c);
        if (!x) { drop(c); if (r >= 0) VP_CHECK(0, "a transaction is given up only with an error"); }
        else
        {
            M[c].on = 1; M[c].used = x->last_use;
            M[c].timer = tf[x->timer_fd - TFD0].armed;
            if (x->req.ver == 0 || x->resp.ver == 0) M[c].has = 0;
            /* the exchange may have completed although a call failed: stop modelling its content */
            if (r == 0 && isreq && !dup && !acked) { M[c].has = -1; }
        }
        for (int i = 0; i < nout; i++) if (out[i].failed) VP_CHECK(r < 0 || pr < 0, "a failure to send is reported");
        if (h_calls) VP_CHECK(r <= 0, "result");
    }
    else if (pr < 0)
    {
        VP_CHECK(r < 0 && h_calls == 0, "a malformed datagram is an error");
        if (tr_ == 0 && ty == COAP_MSG_CON && pr == -EBADMSG) { VP_CHECK(nout == 1, "a malformed confirmable message is reset"); is_empty_msg(&out[0], COAP_MSG_RST, mi, ""); }
        else VP_CHECK(nout == 0, "a malformed message that is not confirmable is ignored");
        drop(c);
    }
    else if (dup)
    {
        VP_CHECK(r == 0 && h_calls == 0, "a duplicate does not reach the handler");
        if (m.type == COAP_MSG_NON) VP_CHECK(nout == 0, "a duplicate non-confirmable request is not answered again");
        else
        {
            VP_CHECK(nout == 1, "a duplicate confirmable request is answered once");
            if (sep) is_empty_msg(&out[0], COAP_MSG_ACK, m.msg_id, "");
            else VP_CHECK(same(&out[0], &M[c].resp), "a duplicate confirmable request gets the same response again");
        }
        M[c].used = sim_time(NULL);
    }
    else if (acked)
    {
        VP_CHECK(r == 0 && h_calls == 0 && nout == 0, "an acknowledgement or reset is not answered");
        M[c].timer = 0;
        M[c].used = sim_time(NULL);
    }
    else if (!isreq)
    {
        VP_CHECK(r < 0 && h_calls == 0, "what is no request is refused");
        if (m.type == COAP_MSG_CON) { VP_CHECK(nout == 1, "a confirmable message that is no request is reset"); is_empty_msg(&out[0], COAP_MSG_RST, m.msg_id, ""); }
        else VP_CHECK(nout == 0, "nothing is sent for it");
        drop(c);
    }
    else
    {
        int s = m.type == COAP_MSG_CON && sep;
        if (s) { VP_CHECK(nout >= 1, "a separate response is announced"); is_empty_msg(&out[0], COAP_MSG_ACK, m.msg_id, ""); }
        VP_CHECK(h_calls == (bad == 0), "a new request reaches the handler once, one with a bad option never");
        if (!bad && (h_plan & 1)) { VP_CHECK(r < 0 && nout == s, "no response when the handler fails"); drop(c); }
        else
        {
            VP_CHECK(r == 0 && nout == s + 1, "a request is answered once");
            outm *o = &out[s];
            coap_msg_t a;
            coap_msg_create(&a);
            VP_CHECK(coap_msg_parse(&a, (char *)o->b, o->len) >= 0, "the response is well formed");
            VP_CHECK(a.token_len == m.token_len && memcmp(a.token, m.token, m.token_len) == 0, "the response carries the request's token");
            if (m.type == COAP_MSG_NON) VP_CHECK(a.type == COAP_MSG_NON, "NON is answered by NON");
            else if (s) VP_CHECK(a.type == COAP_MSG_CON, "a separate response is confirmable");
            else VP_CHECK(a.type == COAP_MSG_ACK && a.msg_id == m.msg_id, "a piggy-backed response is an acknowledgement with the request's ID");
            if (m.type == COAP_MSG_NON || s) VP_CHECK(a.msg_id == srv.msg_id && (id0 >= 65535 || a.msg_id == id0 + 1), "the server's message IDs do not repeat");
            if (bad) VP_CHECK(a.code_class == 4 && a.code_detail == 2 && a.op_list.first == NULL, "a bad option is answered by 4.02");
            else
            {
                VP_CHECK(a.code_class == h_code >> 5 && a.code_detail == (h_code & 31), "the handler's code is sent");
                VP_CHECK(a.payload_len == h_pln && (h_pln == 0 || memcmp(a.payload, h_pl, h_pln) == 0), "the handler's payload is sent");
                VP_CHECK((a.op_list.first != NULL) == h_op, "the handler's options are sent");
            }
            M[c].on = 1; M[c].has = 1; M[c].id = m.msg_id; M[c].resp = *o; M[c].rtype = a.type; M[c].rid = a.msg_id; M[c].nret = 0;
            M[c].timer = s;
            if (s)
            {
                coap_server_trans_t *x = tr(c);
                VP_CHECK(x != NULL, "the transaction stays");
                M[c].ms = tf[x->timer_fd - TFD0].ms;
                VP_CHECK(M[c].ms >= 2000 && M[c].ms < 3000, "the first timeout is between 2 and 3 seconds");
            }
            M[c].used = sim_time(NULL);
            coap_msg_destroy(&a);
        }
    }
    if (!hit) VP_CHECK(!q_on, "the datagram is consumed");
    q_on = 0;
    coap_msg_destroy(&m);
    agree();
    if (M[c].has == -1) { coap_server_trans_t *x = tr(c); coap_server_trans_destroy(x); drop(c); }
}
static void event_time(void)
{
    unsigned d = in8();
    long dt = d & 0x80 ? 1000 * (d & 0x7f) : 40 * d;
    unsigned fi = in8();
    if (fi >= 0xf0) f_send = fi & 1;
    sim_until = sim_ms + dt;
    for (int guard = 0; guard < 200; guard++)
    {   /* one batch of expiries at a time */
        long long first = -1;
        for (int i = 0; i < NTFD; i++) if (tf[i].used && tf[i].armed && (first < 0 || tf[i].at < first)) first = tf[i].at;
        if (first < 0 || first > sim_until) break;
        int due[NC] = {0}, sent[NC] = {0}, failed[NC] = {0}, any = 0;
        long long w = first > sim_ms ? first : sim_ms;
        for (int c = 0; c < NC; c++)
        {
            coap_server_trans_t *x = tr(c);
            if (x && tf[x->timer_fd - TFD0].armed && tf[x->timer_fd - TFD0].at <= w) due[c] = 1;
        }
        nout = 0;
        long long keep = sim_until;
        sim_until = w;
        int r = coap_server_listen(&srv);
        sim_until = keep;
        VP_CHECK(r < 0, "listen");
        for (int i = 0; i < nout; i++)
        {
            int c = client_of(&out[i].to);
            VP_CHECK(c >= 0 && due[c] && !sent[c], "only an expired response is sent again, once");
            sent[c] = 1;
            failed[c] = out[i].failed;
            any |= failed[c];
            VP_CHECK(M[c].has == 1 && same(&out[i], &M[c].resp) && M[c].rtype == COAP_MSG_CON, "the recorded confirmable response is sent again");
            VP_CHECK(M[c].nret < 4, "a response is retransmitted at most four times");
        }
        for (int c = 0; c < NC; c++)
            if (due[c])
            {
                coap_server_trans_t *x = tr(c);
                if (sent[c])
                {
                    VP_CHECK(x != NULL && tf[x->timer_fd - TFD0].armed && tf[x->timer_fd - TFD0].ms == 2 * M[c].ms, "the timeout doubles with every retransmission");
                    M[c].ms *= 2;
                    M[c].nret++;
                    if (!failed[c]) M[c].used = sim_time(NULL);
                }
                else if (M[c].nret >= 4 && (!any || x == NULL)) { VP_CHECK(x == NULL, "the transaction ends after the last retransmission"); drop(c); }
                else VP_CHECK(any, "an expired response is sent again");
            }
        agree();
        f_send = -1;
    }
    f_send = -1;
    sim_ms = sim_until;
}
static int vp_run(void)
{
    pool_len[0] = 64; pool_len[1] = 256; pool_len[2] = 256;
    sim_reset();
    memset(M, 0, sizeof M);
    srv.handle = handler;
    unsigned cfg = in8();
    srv.msg_id = (cfg & 1) ? 65533 : in16();
    if (cfg & 2) sim_ms = 5000;
    VP_CHECK(coap_server_add_sep_resp_uri_path(&srv, "/sep") == 0 && coap_server_add_sep_resp_uri_path(&srv, "/b/y") == 0, "paths");
    for (int step = 0; step < 60 && vp_left > 0; step++)
    {
        unsigned e = in8();
        if (e & 0x80) event_time();
        else event_datagram();
    }
    for (int i = 0; i < COAP_SERVER_NUM_TRANS; i++) if (srv.trans[i].active) coap_server_trans_destroy(&srv.trans[i]);
    coap_server_destroy(&srv);
    VP_CHECK(pool_live[0] == 0 && pool_live[1] == 0 && pool_live[2] == 0, "nothing is leaked");
    for (int i = 0; i < NTFD; i++) VP_CHECK(!tf[i].used, "no descriptor is leaked");
    return 0;
}
