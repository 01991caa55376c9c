/* Common ghost vocabulary of the contract files. */
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <errno.h>
#include <sys/types.h>
#define REQ(x) __CPROVER_requires(x)
#define ENS(x) __CPROVER_ensures(x)
#define ASG(...) __CPROVER_assigns(__VA_ARGS__)
#define OLD(x) __CPROVER_old(x)
#define RET __CPROVER_return_value
#define FRESH(p, n) __CPROVER_is_fresh(p, n)
#define INV(x) __CPROVER_loop_invariant(x)
#define DEC(x) __CPROVER_decreases(x)
#define ENTRY(x) __CPROVER_loop_entry(x)
#define WHOLE(p) __CPROVER_object_whole(p)
#define UPTO(p, n) __CPROVER_object_upto(p, n)
/* must be reachable: the run fails unless the verifier REFUTES this assertion */
#define VP_REACH(tag) __CPROVER_assert(0, "vp_reach " tag)
typedef unsigned char vp_u8;
/* arbitrary but fixed witness index: a postcondition about byte vp_g is a postcondition
 * about every byte (vp_g is never assigned and nondeterministic) */
extern size_t vp_g;
#endif
