/* Block1/Block2 option values against RFC 7959 */
#include "vph.h"
#include "coap_msg.h"
#include "coap_mem.h"
#include "pool.h"
#ifdef VP_CBMC
#include "coap_msg.c"
#endif
static int vp_run(void)
{
    unsigned sel = in8(), len = in8() % 7, num = 9, more = 9, size = 9;
    char *v = malloc(len ? len : 1);
    if (v == NULL) return 0;
    for (unsigned i = 0; i < len; i++) v[i] = (char)in8();
    uint32_t x = 0;
    for (unsigned i = 0; i < len && i < 3; i++) x = x << 8 | (uint8_t)v[i];
    int bad = len > 3 || (x & 7) == 7;
    int r = coap_msg_op_parse_block_val(&num, &more, &size, v, len);
    VP_CHECK(bad ? r < 0 : r == 0 && num == x >> 4 && more == ((x >> 3) & 1) && size == 16u << (x & 7), "block value decoded");
    unsigned n2 = in16() << 8 | in8(), m2 = in8(), s2 = sel & 1 ? 16u << (in8() % 8) : in16();
    if (sel & 2) n2 >>= 8;
    if (sel & 4) n2 >>= 12;
    if (sel & 8) n2 = 1u << (in8() % 25);
    if (sel & 16) n2 = (1u << (in8() % 25)) - 1;
    free(v);
    v = malloc(len ? len : 1);
    if (v == NULL) return 0;
    r = coap_msg_op_format_block_val(v, len, n2, m2, s2);
    int sok = s2 == 16 || s2 == 32 || s2 == 64 || s2 == 128 || s2 == 256 || s2 == 512 || s2 == 1024;
    int fit = len >= 1 && len <= 3 && n2 < 1u << (8 * len - 4);
    VP_CHECK(sok && fit ? r == (int)len : r < 0, "block value encoded if and only if representable");
    VP_CHECK((coap_msg_op_calc_block_szx(s2) >= 0) == sok, "block size exponent");
    if (r > 0)
    {
        int q = coap_msg_op_parse_block_val(&num, &more, &size, v, len);
        VP_CHECK(q == 0 && num == n2 && more == (m2 != 0) && size == s2, "block value survives");
    }
    free(v);
    /* selection of the option */
    pool_live[0] = pool_live[1] = 0;
    pool_fail = -1;
    coap_msg_t m;
    coap_msg_create(&m);
    unsigned k = in8() % 4, have = 0, wl = 0;
    uint32_t w = 0;
    int type = sel & 32 ? COAP_MSG_BLOCK1 : COAP_MSG_BLOCK2;
    for (unsigned i = 0; i < k; i++)
    {
        static const unsigned nums[] = {11, 23, 27, 28, 23, 27, 12, 60};
        unsigned nn = nums[in8() % 8], l = in8() % 5;
        char vv[4] = {0};
        for (unsigned j = 0; j < l; j++) vv[j] = (char)in8();
        if (coap_msg_add_op(&m, nn, l, vv) == 0 && nn == (unsigned)type && !have)
        {
            have = 1;
            wl = l;
            for (unsigned j = 0; j < l && j < 3; j++) w = w << 8 | (uint8_t)vv[j];
        }
    }
    num = 12345;
    r = coap_msg_parse_block_op(&num, &more, &size, &m, type);
    if (!have) VP_CHECK(r == 1, "no block option");
    else if (wl > 3 || (w & 7) == 7) VP_CHECK(r < 0, "a malformed block option is reported");
    else VP_CHECK(r == 0 && num == w >> 4 && more == ((w >> 3) & 1) && size == 16u << (w & 7), "the first block option of the type is decoded");
    coap_msg_destroy(&m);
    return 0;
}
