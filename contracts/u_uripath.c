/* coap_msg_uri_path_to_str: never writes outside the buffer, always leaves the string terminated,
 * appends "/" and the segment for each Uri-Path option, once and in order, truncated to the
 * buffer, and returns the untruncated length.
 * memcpy and memset are replaced by their contracts in executable form; what they write is
 * tracked by position (vp_wr) instead of by content. */
#include "list_spec.h"
char *vp_buf, *vp_valbuf;
size_t vp_len;
size_t vp_tot;          /* ghost: untruncated length so far */
size_t vp_seg;          /* ghost: length of the segment at the node reached, if it is a Uri-Path */
int vp_phase;           /* ghost: 0 nothing due, 1 separator due, 2 segment due */
size_t vp_wr;           /* ghost: bytes written so far */
int vp_zero;            /* ghost: the whole buffer has been zeroed */
#define VP_MIN(a, b) ((a) < (b) ? (a) : (b))
static void *vp_memcpy(void *dst, const void *src, size_t n)
{
    __CPROVER_assert(n == 0 || (__CPROVER_w_ok(dst, n) && __CPROVER_r_ok(src, n)), "vp_safe: memcpy within bounds");
    __CPROVER_assert(vp_zero && dst == vp_buf + vp_wr, "vp_path: appended after what is there");
    __CPROVER_assert(vp_phase == 1 || vp_phase == 2, "vp_path: only a Uri-Path segment is copied");
    if (vp_phase == 1)
    {
        __CPROVER_assert(n == 0 || *(const char *)src == '/', "vp_path: separator");
        __CPROVER_assert(n == VP_MIN(1, vp_len - 1 - vp_wr), "vp_path: separator written unless the buffer is full");
        vp_tot += 1;
        vp_phase = 2;
    }
    else
    {
        __CPROVER_assert(src == vp_valbuf, "vp_path: the segment's value");
        __CPROVER_assert(n == VP_MIN(vp_seg, vp_len - 1 - vp_wr), "vp_path: the segment as far as it fits, terminator kept");
        vp_tot += vp_seg;
        vp_phase = 0;
    }
    vp_wr += n;
    return dst;
}
static void *vp_memset(void *dst, int c, size_t n)
{
    __CPROVER_assert(n == 0 || __CPROVER_w_ok(dst, n), "vp_safe: memset within bounds");
    __CPROVER_assert(dst == vp_buf && c == 0 && vp_wr == 0, "vp_path: zeroed before use");
    if (n == vp_len) vp_zero = 1;
    return dst;
}
size_t coap_msg_uri_path_to_str(coap_msg_t *msg, char *buf, size_t len)
REQ(vp_i == 0 && vp_tot == 0 && len <= VP_MAXLEN)
ASG(vp_i, vp_a, vp_b, vp_tot, vp_seg, vp_phase, vp_wr, vp_zero; len > 0: UPTO(buf, len))
ENS(len == 0 ==> RET == 0)
ENS(len > 0 ==> (vp_zero && vp_i == vp_n && vp_phase == 0 && vp_wr == VP_MIN(vp_tot, len - 1)))
ENS((len > 0 && vp_tot > 0) ==> RET == vp_tot)
ENS((len > 1 && vp_tot == 0) ==> (RET == 1 && buf[0] == '/'))
;
#define VP_L_coap_msg_uri_path_to_str_0 \
    ASG(op, n, m, c, p, vp_i, vp_a, vp_b, vp_tot, vp_seg, vp_phase, vp_wr) \
    INV(VP_AT(op)) \
    INV(vp_phase == 0 && vp_wr == VP_MIN(vp_tot, len - 1) && vp_tot <= 1ul << 41) \
    INV(c == vp_tot && n == len - 1 - vp_wr && p == buf + vp_wr) DEC(vp_n - vp_i)
#define VP_B_coap_msg_uri_path_to_str_0 \
    VP_STEP(op) __CPROVER_assume(vp_tot <= 1ul << 40); __CPROVER_assume(op->len <= VP_MAXLEN); op->val = vp_valbuf; if (op->num == 11) { vp_seg = op->len; vp_phase = 1; }
#define VP_A_coap_msg_uri_path_to_str_0 VP_PIN(p, buf + vp_wr)
#define memcpy(d, s, n) vp_memcpy(d, s, n)
#define memset(d, c, n) vp_memset(d, c, n)
#include "coap_msg.c"
void vp_harness(void)
{
    coap_msg_t m;
    size_t len;
    __CPROVER_assume(len <= VP_MAXLEN);
    char *b = malloc(len);
    vp_valbuf = malloc(VP_MAXLEN);
    __CPROVER_assume(b != NULL && vp_valbuf != NULL);
    VP_LIST_SETUP(&m);
    vp_tot = vp_wr = 0;
    vp_phase = vp_zero = 0;
    vp_len = len;
    vp_buf = b;
    size_t r = coap_msg_uri_path_to_str(&m, b, len);
    if (r > 3) VP_REACH("ok");
    else VP_REACH("short");
}
