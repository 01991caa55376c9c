/* Assumed contracts of the libc block operations.  A call with a constant small size keeps
 * the verifier's exact built-in; any other call goes to a contract that is exact at the
 * witness index vp_g (hence, vp_g being arbitrary, at every index) and at the first 4 bytes. */
#ifndef LIBC_SPEC_H
#define LIBC_SPEC_H
#include "vp.h"
#define VP_B(p, i) (((const char *)(p))[i])
#ifndef VP_CPY_EXTRA
#define VP_CPY_EXTRA
#endif
void *vp_memcpy(void *dst, const void *src, size_t n)
REQ(n == 0 || (__CPROVER_w_ok(dst, n) && __CPROVER_r_ok(src, n)))
REQ(n == 0 || !__CPROVER_same_object(dst, src) || (char *)dst + n <= (char *)src || (char *)src + n <= (char *)dst)
ASG(n > 0: UPTO(dst, n))
ENS(RET == dst)
ENS(vp_g < n ==> VP_B(dst, vp_g) == VP_B(src, vp_g))
ENS(n > 0 ==> VP_B(dst, 0) == VP_B(src, 0))
ENS(n > 1 ==> VP_B(dst, 1) == VP_B(src, 1))
VP_CPY_EXTRA
;
void *vp_memset(void *dst, int c, size_t n)
REQ(n == 0 || __CPROVER_w_ok(dst, n))
ASG(n > 0: UPTO(dst, n))
ENS(RET == dst)
ENS(vp_g < n ==> VP_B(dst, vp_g) == (char)c)
ENS(n > 0 ==> VP_B(dst, 0) == (char)c)
;
#define VP_LIBC {"vp_memcpy", "vp_memset"}
#define memcpy(d, s, n) (__builtin_constant_p(n) ? (memcpy)(d, s, n) : vp_memcpy(d, s, n))
#define memset(d, c, n) (__builtin_constant_p(n) ? (memset)(d, c, n) : vp_memset(d, c, n))
#endif
