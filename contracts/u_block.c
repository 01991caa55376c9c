/* Block1/Block2 option value codec (RFC 7959 section 2.2) */
#include "list_spec.h"
static int szx_ok(unsigned size) { return size == 16 || size == 32 || size == 64 || size == 128 || size == 256 || size == 512 || size == 1024; }
/* RFC 7959: the value is a 0-3 byte unsigned integer NUM << 4 | M << 3 | SZX */
static unsigned be(const char *val, unsigned len)
{
    const vp_u8 *b = (const vp_u8 *)val;
    return len == 0 ? 0 : len == 1 ? b[0] : len == 2 ? 256u * b[0] + b[1] : 65536u * b[0] + 256u * b[1] + b[2];
}
static int parsed(int ret, const char *val, unsigned len, unsigned num, unsigned more, unsigned size)
{
    if (len > 3) return ret < 0;
    unsigned v = be(val, len);
    if ((v & 7) == 7) return ret < 0;
    return ret == 0 && num == v >> 4 && more == ((v >> 3) & 1) && size == 1u << ((v & 7) + 4);
}
static int formatted(int ret, char *val, unsigned len, unsigned num, unsigned more, unsigned size)
{
    if (len < 1 || len > 3 || !szx_ok(size) || num >= 1u << (8 * len - 4)) return ret < 0;
    if (ret != (int)len) return 0;
    unsigned v = be(val, len);
    return v >> 4 == num && ((v >> 3) & 1) == (more != 0) && 1u << ((v & 7) + 4) == size;
}
#if defined VP_PARSE
int coap_msg_op_parse_block_val(unsigned *num, unsigned *more, unsigned *size, const char *val, unsigned len)
ASG(*num, *more, *size)
ENS(parsed(RET, val, len, *num, *more, *size))
;
#elif defined VP_FORMAT
int coap_msg_op_format_block_val(char *val, unsigned len, unsigned num, unsigned more, unsigned size)
ASG(len > 0: UPTO(val, len))
ENS(formatted(RET, val, len, num, more, size))
;
#elif defined VP_SZX
int coap_msg_op_calc_block_szx(unsigned size)
ASG()
ENS(szx_ok(size) ? (RET >= 0 && RET <= 6 && 1u << (RET + 4) == size) : RET < 0)
;
#elif defined VP_OP
/* coap_msg_parse_block_op: the first option of the wanted number decides */
int vp_type;
size_t vp_w;
unsigned vp_wnum;
int vp_hit;             /* ghost: a node of the wanted number has been reached */
static char vp_valbuf[3];
int coap_msg_op_parse_block_val(unsigned *num, unsigned *more, unsigned *size, const char *val, unsigned len)
REQ(vp_i > 0 && !vp_hit && VP_NODE(vp_i - 1)->num == (unsigned)vp_type && val == VP_NODE(vp_i - 1)->val && len == VP_NODE(vp_i - 1)->len)
ASG(*num, *more, *size, vp_hit)
ENS(vp_hit == 1 && RET <= 0)
;
int coap_msg_parse_block_op(unsigned *num, unsigned *more, unsigned *size, coap_msg_t *msg, int type)
REQ(vp_i == 0 && vp_hit == 0 && vp_type == type && (type == 23 || type == 27))
ASG(*num, *more, *size, vp_hit, vp_i, vp_a, vp_b, vp_wnum)
ENS(RET > 0 ? (RET == 1 && !vp_hit && vp_i == vp_n && *num == OLD(*num) && *more == OLD(*more) && *size == OLD(*size)) : vp_hit)
;
#define VP_L_coap_msg_parse_block_op_0 \
    ASG(op, op_num, op_len, op_val, vp_i, vp_a, vp_b, vp_wnum, vp_hit, *num, *more, *size) \
    INV(VP_AT(op) && !vp_hit && (vp_w < vp_i ==> vp_wnum != (unsigned)vp_type)) \
    INV(*num == ENTRY(*num) && *more == ENTRY(*more) && *size == ENTRY(*size)) DEC(vp_n - vp_i)
#define VP_B_coap_msg_parse_block_op_0 if (vp_i == vp_w) vp_wnum = VP_NODE(vp_i)->num; VP_STEP(op)


#endif
#include "libc_spec.h"
#include "coap_msg.c"
void vp_harness(void)
{
    unsigned num, more, size, len;
    char v[3];
#if defined VP_PARSE
    __CPROVER_assume(len <= VP_MAXLEN);
    char *p = malloc(len);
    __CPROVER_assume(p != NULL);
    int r = coap_msg_op_parse_block_val(&num, &more, &size, p, len);
#elif defined VP_FORMAT
    __CPROVER_assume(len <= VP_MAXLEN);
    char *p = malloc(len);
    __CPROVER_assume(p != NULL);
    int r = coap_msg_op_format_block_val(p, len, num, more, size);
    if (r > 0)
    {
        unsigned n2, m2, s2;
        int q = coap_msg_op_parse_block_val(&n2, &m2, &s2, p, len);
        __CPROVER_assert(q == 0 && n2 == num && m2 == (more != 0) && s2 == size, "vp_rt: block value survives formatting and parsing");
    }
#elif defined VP_SZX
    int r = coap_msg_op_calc_block_szx(size);
#elif defined VP_OP
    coap_msg_t m;
    int type;
    VP_LIST_SETUP(&m);
    vp_hit = 0;
    vp_type = type;
    vp_w = vp_nondet_size();
    int r = coap_msg_parse_block_op(&num, &more, &size, &m, type);
    __CPROVER_assert(!(r == 1 && vp_w < vp_n) || vp_wnum != (unsigned)type, "vp_block: 'not found' only if no option has the number");
#endif
    if (r >= 0) VP_REACH("ok");
    else VP_REACH("err");
}
