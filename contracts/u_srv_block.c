/* lib/src/coap_server.c: library-level block-wise transfer.  One step of a transfer from an arbitrary
 * state of it; the state invariant INV is established by the first step and kept by every step, so the
 * statements hold for transfers of any length. */
#define VP_OWN_PAYLOAD
#define VP_GHOST_X int body, r1, r2, nrec, nrx, ncopy, npay, nop1, nop2, wr_other; unsigned n1, m1, s1, n2, m2, s2; \
    char *pay_p; size_t pay_n; char *cp_d; const char *cp_s; size_t cp_n; unsigned f_num, f_more, f_size, op1_num, op1_more, op1_size, op2_num, op2_more, op2_size; \
    int rx_ret; unsigned rx_cls, rx_det; size_t rx_end0, rx_end; int rec_ret, rec_ok; \
    int rec_type; size_t rec_next; unsigned rec_det; size_t rec_end;
#include "srv_spec.h"
#define G vp_G
#define POST(c, t) __CPROVER_assert(c, "vp_post " t)
char *vp_large;                 /* the block from the large allocator */
size_t vp_large_len;
char vp_req_pl[1];
#define vp_body vp_G.body
void coap_mem_large_free(void *b)
{
    __CPROVER_assert(b == vp_large && vp_body == 1, "vp_body: the body of the transaction is released once");
    vp_body = 0;
}
void *coap_mem_large_alloc(size_t n)
{
    if (vp_body || n > vp_large_len || vp_nondet_bool()) return NULL;
    vp_body = 1;
    return vp_large;
}
size_t coap_mem_large_get_len(void) { return vp_large_len; }
char vp_uri;                    /* identity of the path of the request */
size_t coap_msg_uri_path_to_str(coap_msg_t *m, char *b, size_t n) { size_t r; b[0] = vp_uri; b[1] = 0; return r; }
#define strcmp vp_strcmp
static int vp_strcmp(const char *a, const char *b) { return a[0] == b[0] ? 0 : 1; }
#define strncmp vp_strncmp
static int vp_strncmp(const char *a, const char *b, size_t n)
{   /* different paths may have a common beginning */
    if (a[0] == b[0] || n == 0) return 0;
    return n > COAP_MSG_OP_URI_PATH_MAX_LEN ? 1 : vp_nondet_bool();
}
#define strlen vp_strlen
static size_t vp_strlen(const char *a) { size_t n; __CPROVER_assume(n <= COAP_MSG_OP_URI_PATH_MAX_LEN && (a[0] == 0 ? n == 0 : n > 0)); return n; }
int snprintf(char *b, size_t n, const char *f, ...) { b[0] = 'B'; b[1] = 0; return 1; }
int coap_msg_op_calc_block_szx(unsigned size)
{
    return size == 16 ? 0 : size == 32 ? 1 : size == 64 ? 2 : size == 128 ? 3 : size == 256 ? 4 : size == 512 ? 5 : size == 1024 ? 6 : -EINVAL;
}
int coap_msg_parse_block_op(unsigned *num, unsigned *more, unsigned *size, coap_msg_t *m, int type)
{
    if (type == COAP_MSG_BLOCK1)
    {
        if (G.r1 == 0) { *num = G.n1; *more = G.m1; *size = G.s1; }
        return G.r1;
    }
    __CPROVER_assert(type == COAP_MSG_BLOCK2, "vp_spec: block option");
    if (G.r2 == 0) { *num = G.n2; *more = G.m2; *size = G.s2; }
    return G.r2;
}
int coap_msg_op_format_block_val(char *v, unsigned n, unsigned num, unsigned more, unsigned size)
{
    if (coap_msg_op_calc_block_szx(size) < 0 || n < 1 || n > 3) return -EINVAL;
    if (num >= (n == 1 ? 16u : n == 2 ? 4096u : 1048576u)) return -EINVAL;
    G.f_num = num; G.f_more = !!more; G.f_size = size;
    return n;
}
int coap_msg_add_op(coap_msg_t *m, unsigned num, unsigned len, const char *v)
{
    if (vp_nondet_bool()) return -ENOMEM;
    __CPROVER_assert(num == COAP_MSG_BLOCK1 || num == COAP_MSG_BLOCK2, "vp_spec: block option");
    if (num == COAP_MSG_BLOCK1) { G.nop1++; G.op1_num = G.f_num; G.op1_more = G.f_more; G.op1_size = G.f_size; }
    else { G.nop2++; G.op2_num = G.f_num; G.op2_more = G.f_more; G.op2_size = G.f_size; }
    return 0;
}
int coap_msg_set_payload(coap_msg_t *m, char *b, size_t n)
{
    __CPROVER_assert(n == 0 || __CPROVER_r_ok(b, n), "vp_safe: the payload is read from the body");
    m->payload = NULL;
    m->payload_len = 0;
    G.npay++;
    if (n > 0)
    {
        if (vp_nondet_bool()) return -ENOMEM;
        m->payload = PLID(3);
        m->payload_len = n;
    }
    G.pay_p = b;
    G.pay_n = n;
    return 0;
}
#define memset vp_memset_
static void *vp_memset_(void *p, int c, size_t n)
{
    if (n == sizeof(T->block_uri)) ((char *)p)[0] = 0;
    else if (__CPROVER_same_object(p, vp_large)) __CPROVER_assert(__CPROVER_w_ok(p, n), "vp_safe: the body is cleared");
    else __CPROVER_assert(0, "vp_spec: memset");
    return p;
}
#define memcpy vp_memcpy_
#define memmove vp_memcpy_
static void *vp_memcpy_(void *d, const void *s, size_t n)
{
    __CPROVER_assert(n == 0 || (__CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n)), "vp_safe: bytes are copied between valid buffers");
    G.ncopy++;
    G.cp_d = d;
    G.cp_s = s;
    G.cp_n = n;
    return d;
}
int vp_block_rx(struct coap_server_trans *t, coap_msg_t *req, coap_msg_t *resp)
{   /* the application: takes the body, may leave another one in its place */
    coap_msg_t r;
    __CPROVER_assert(t == T && t->body == vp_large && vp_body, "vp_post rx: the application is given the transaction with its body");
    G.nrx++;
    G.rx_end0 = t->body_end;
    G.rx_ret = vp_nondet_bool() ? 0 : vp_neg();
    resp->code_class = r.code_class;
    resp->code_detail = r.code_detail;
    __CPROVER_assume(resp->code_class <= 7 && resp->code_detail <= 31);
    t->body_end = G.rx_end = vp_nondet_bool() ? 0 : t->body_len < 5000 ? t->body_len : 5000;
    size_t e;
    if (e <= t->body_len) t->body_end = G.rx_end = e;
    G.rx_cls = resp->code_class;
    G.rx_det = resp->code_detail;
    return G.rx_ret;
}
/* the second handling of the last block of a request, by the contract of the function itself */
static int coap_server_trans_handle_next_block(coap_server_trans_t *t, coap_msg_t *req, coap_msg_t *resp)
{
    __CPROVER_assert(t == T, "vp_post rec: same transaction");
    G.nrec++;
    G.rec_type = t->type;
    G.rec_next = t->block2_next;
    G.rec_det = t->block_detail;
    G.rec_end = t->body_end;
    G.rec_ok = t->body == vp_large && vp_body;
    G.rec_ret = vp_nondet_bool() ? 0 : vp_neg();
    return G.rec_ret;
}
#include "coap_server.c"
#undef memset
#undef strlen
#undef memcpy
#undef memmove
#define CLEARED (T->type == COAP_SERVER_TRANS_REGULAR && T->body == NULL && !vp_body && T->body_len == 0 && T->body_end == 0 && \
    T->block1_next == 0 && T->block2_next == 0 && T->block1_size == 0 && T->block2_size == 0 && T->block_detail == 0)
#define SIZE(s) ((s) == 0 || coap_msg_op_calc_block_szx(s) >= 0)
#define PHASE2(ty) ((ty) == COAP_SERVER_TRANS_BLOCKWISE_GET || (ty) == COAP_SERVER_TRANS_BLOCKWISE_PUT2 || (ty) == COAP_SERVER_TRANS_BLOCKWISE_POST2)
#define METHOD(ty) ((ty) == COAP_SERVER_TRANS_BLOCKWISE_GET ? COAP_MSG_GET : (ty) == COAP_SERVER_TRANS_BLOCKWISE_PUT1 || (ty) == COAP_SERVER_TRANS_BLOCKWISE_PUT2 ? COAP_MSG_PUT : COAP_MSG_POST)
#define CODE(c, d) (resp.code_class == (c) && resp.code_detail == (d))
/* the state of a transfer between two steps */
#define INV (T->body == vp_large && vp_body == 1 && T->body_len == vp_large_len && T->body_end <= T->body_len && SIZE(T->block1_size) && SIZE(T->block2_size) && \
    T->type >= 1 && T->type <= 5 && (PHASE2(T->type) ? T->block2_next <= T->body_end : T->block1_next == T->body_end && T->block2_next == 0) && \
    (T->type == COAP_SERVER_TRANS_BLOCKWISE_GET || T->block_rx == vp_block_rx))
static void vp_option(void)
{   /* the block options of the request: absent, malformed, or what C08 says they may hold */
    G.r1 = vp_nondet_bool() ? 1 : vp_nondet_bool() ? 0 : -EINVAL;
    G.r2 = vp_nondet_bool() ? 1 : vp_nondet_bool() ? 0 : -EINVAL;
    G.n1 = vp_nondet_uint(); G.n2 = vp_nondet_uint(); G.s1 = vp_nondet_uint(); G.s2 = vp_nondet_uint();
    G.m1 = vp_nondet_bool(); G.m2 = vp_nondet_bool();
    __CPROVER_assume(G.n1 < 1048576 && G.n2 < 1048576 && coap_msg_op_calc_block_szx(G.s1) >= 0 && coap_msg_op_calc_block_szx(G.s2) >= 0);
}
#define SHIFT(s) ((s) == 16 ? 4 : (s) == 32 ? 5 : (s) == 64 ? 6 : (s) == 128 ? 7 : (s) == 256 ? 8 : (s) == 512 ? 9 : 10)
#define START(n, s) ((s) == 0 ? 0 : (size_t)(n) << SHIFT(s))
void vp_harness(void)
{
    coap_server_t s;
    vp_s = s;
    __CPROVER_assume(vp_large_len > 0 && vp_large_len <= (1u << 30));
    vp_large = malloc(vp_large_len);
    __CPROVER_assume(vp_large != NULL);
    T->active = 1;
    coap_msg_t req, resp, r0;
    vp_any_msg(&req);
    __CPROVER_assume(req.code_class == 0 && req.code_detail != 0 && (req.type == COAP_MSG_CON || req.type == COAP_MSG_NON));
    if (req.payload) { req.payload = malloc(req.payload_len); __CPROVER_assume(req.payload != NULL); }
    coap_msg_create(&resp);
    vp_option();
    G.nrec = G.nrx = G.ncopy = G.npay = G.nop1 = G.nop2 = 0;
#ifdef VP_FIRST
    unsigned b1, b2;
    size_t body_len;
    vp_body = vp_nondet_bool();
    T->body = vp_body ? vp_large : NULL;
    unsigned ty;
    __CPROVER_assume(ty <= 5);
    T->type = ty;
    __CPROVER_assume(body_len <= 1u << 30);
    char *body = malloc(body_len);
    __CPROVER_assume(body != NULL);
    coap_server_trans_handler_t rx = vp_nondet_bool() ? vp_block_rx : NULL;
    int r = coap_server_trans_handle_blockwise(T, &req, &resp, b1, b2, body, body_len, rx);
    int good = SIZE(b1) && SIZE(b2) && body_len <= vp_large_len && (req.code_detail == COAP_MSG_GET || ((req.code_detail == COAP_MSG_PUT || req.code_detail == COAP_MSG_POST) && rx != NULL));
    int impl = req.code_detail == COAP_MSG_GET || req.code_detail == COAP_MSG_PUT || req.code_detail == COAP_MSG_POST;
    if (G.nrec)
    {
        POST(G.nrec == 1 && good && r == G.rec_ret, "a transfer begins only with valid parameters");
        POST(INV && T->block1_next == 0 && T->block2_next == 0 && T->block1_size == b1 && T->block2_size == b2 && T->block_uri[0] == vp_uri && T->block_rx == rx
             && METHOD(T->type) == req.code_detail && !(T->type == COAP_SERVER_TRANS_BLOCKWISE_PUT2 || T->type == COAP_SERVER_TRANS_BLOCKWISE_POST2), "and in the initial state");
        POST(req.code_detail == COAP_MSG_GET ? G.ncopy == 1 && G.cp_d == vp_large && G.cp_s == body && G.cp_n == body_len && T->body_end == body_len : T->body_end == 0,
             "holding the body to be sent, or none");
        if (req.code_detail == COAP_MSG_GET) VP_REACH("get");
        else VP_REACH("put or post");
    }
    else
    {
        POST(CLEARED, "no transfer is left behind by a failure");
        POST(r < 0 || (r == 0 && !impl && CODE(5, 1)), "a failure is reported, an unsupported method answered by 5.01");
        if (r < 0) VP_REACH("refused");
        else VP_REACH("not implemented");
    }
#else
    unsigned ty;
    __CPROVER_assume(ty >= 1 && ty <= 5);
    T->type = ty;
    T->body = vp_large;
    vp_body = 1;
    T->block_rx = vp_block_rx;
    __CPROVER_assume(INV);
    unsigned det;
    __CPROVER_assume(det <= 31);
    T->block_detail = det;
    coap_server_trans_t t0 = *T;
    int r = vp_real_coap_server_trans_handle_next_block(T, &req, &resp);
    unsigned s1 = G.r1 == 0 && G.s1 < t0.block1_size ? G.s1 : t0.block1_size, s2 = G.r2 == 0 && G.s2 < t0.block2_size ? G.s2 : t0.block2_size;
    size_t at1 = G.r1 == 0 ? START(G.n1, s1) : 0, at2 = G.r2 == 0 ? START(G.n2, s2) : 0;
    int mine = req.code_detail == METHOD(ty) && vp_uri == t0.block_uri[0];
    POST(r < 0 && !G.nrec ? CLEARED : 1, "a failed step ends the transfer");
    POST(T->type == COAP_SERVER_TRANS_REGULAR || G.nrec ? 1 : INV, "the state invariant is kept");
    POST(T->type != COAP_SERVER_TRANS_REGULAR || G.nrec || CLEARED, "a finished transfer keeps nothing");
    POST(T->active && T->timer_fd == t0.timer_fd && T->last_use == t0.last_use && T->num_retrans == t0.num_retrans, "nothing else changes");
    if (G.r1 < 0 || G.r2 < 0)
    {
        POST(r == 0 && CODE(4, 0) && CLEARED && !G.ncopy && !G.nrx && !G.npay, "a malformed block option is answered by 4.00");
        VP_REACH("malformed");
    }
    else if (PHASE2(ty))
    {
        POST(!G.ncopy && !G.nrx && !G.nrec && !G.nop1, "the body is only read while it is sent");
        if (!mine || at2 != t0.block2_next) { POST(r == 0 && CODE(4, 0) && CLEARED && !G.npay, "a request out of place is answered by 4.00"); VP_REACH("out of place"); }
        else if (r == 0)
        {
            size_t left = t0.body_end - t0.block2_next;
            POST(s2 != 0 && G.nop2 == 1 && G.npay == 1, "one block is sent");
            POST(G.pay_p == vp_large + t0.block2_next && G.pay_n == (left < s2 ? left : s2), "the block is the next part of the body");
            POST(START(G.op2_num, s2) == t0.block2_next && G.op2_size == s2, "numbered by its position");
            POST(G.op2_more ? G.pay_n == s2 : G.pay_n == left, "the last one is marked, and only the last one may be short");
            POST(G.op2_more ? CODE(2, 31) : CODE(2, ty == COAP_SERVER_TRANS_BLOCKWISE_GET ? 5 : t0.block_detail), "with the code of the transfer");
            POST(G.op2_more ? T->type == ty && T->block2_next == t0.block2_next + G.pay_n && T->body_end == t0.body_end && T->block2_size == s2 && T->block_uri[0] == t0.block_uri[0] && T->block_detail == t0.block_detail
                 : CLEARED, "the transfer goes on from there, or ends");
            if (G.op2_more) VP_REACH("block sent");
            else VP_REACH("last block sent");
        }
        else VP_REACH("failed to send");
    }
    else
    {
        size_t n = req.payload_len;
        if (!mine) { POST(r == 0 && CODE(4, 0) && CLEARED && !G.ncopy && !G.nrx, "a request out of place is answered by 4.00"); VP_REACH("not mine"); }
        else if (at1 != t0.block1_next) { POST(r == 0 && CODE(4, 8) && CLEARED && !G.ncopy && !G.nrx, "a block out of sequence is answered by 4.08"); VP_REACH("out of sequence"); }
        else if (req.payload == NULL) { POST(r == 0 && CODE(4, 0) && CLEARED && !G.ncopy && !G.nrx, "a block without content is answered by 4.00"); VP_REACH("no payload"); }
        else if (s1 == 0) POST(r < 0 && !G.ncopy && !G.nrx, "no block size: refused");
        else if (n > t0.body_len - t0.block1_next) { POST(r == 0 && CODE(4, 13) && CLEARED && !G.ncopy && !G.nrx, "a body that does not fit is answered by 4.13"); VP_REACH("too large"); }
        else
        {
            POST(G.ncopy <= 1 && (r < 0 || G.ncopy == 1 || G.nrx), "the block is stored once");
            POST(G.ncopy == 0 || (G.cp_d == vp_large + t0.block1_next && G.cp_s == req.payload && G.cp_n == n), "behind what came before");
            POST(!G.nrx || (G.ncopy == 1 && G.nrx == 1 && (G.r1 != 0 || !G.m1) && G.rx_end0 == t0.block1_next + n), "the application gets the complete body, once");
            if (r == 0 && G.r1 == 0 && G.m1)
            {
                POST(G.nrx == 0 && CODE(2, 31) && T->type == ty && T->block1_next == t0.block1_next + n && T->body_end == t0.body_end + n && T->block1_size == s1 && T->block2_size == s2 && T->block_uri[0] == t0.block_uri[0],
                     "and more are awaited");
                VP_REACH("block stored");
            }
            if (G.ncopy) POST(G.nop1 == 1 && START(G.op1_num, s1) == t0.block1_next && G.op1_more == (G.r1 == 0 && G.m1) && G.op1_size == s1, "each block is confirmed by its number");
            if (G.ncopy && (G.r1 != 0 || !G.m1))
            {
                POST(G.nrx == 1, "the last block completes the body");
                if (G.rx_ret < 0) POST(r == G.rx_ret, "a failing application is reported");
                else if (G.rx_cls != 2) { POST(r == 0 && CODE(G.rx_cls, G.rx_det) && CLEARED && G.nrec == 0, "the application's error code is sent"); VP_REACH("application error"); }
                else if (G.rx_end > 0)
                {
                    __CPROVER_assert(G.nrec == 1, "vp_spec: the response begins by handling the block again");
                    POST(G.rec_ok && G.rec_type == (ty == COAP_SERVER_TRANS_BLOCKWISE_PUT1 ? COAP_SERVER_TRANS_BLOCKWISE_PUT2 : COAP_SERVER_TRANS_BLOCKWISE_POST2)
                         && G.rec_next == 0 && G.rec_det == G.rx_det && G.rec_end == G.rx_end && r == G.rec_ret, "the response body is sent next");
                    VP_REACH("body in response");
                }
                else { POST(r == 0 && CODE(2, G.rx_det) && CLEARED && G.nrec == 0, "the application's code is sent"); VP_REACH("done"); }
            }
            if (r < 0) VP_REACH("failed to store");
        }
    }
#endif
}
