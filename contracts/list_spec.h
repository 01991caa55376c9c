/* Unbounded option lists.  The list has vp_n nodes, vp_n symbolic.  Only the node a loop has
 * reached and its successor are represented, by the two objects vp_a and vp_b in turn: their
 * content is arbitrary at every iteration (the loop contracts havoc both), so what holds for
 * the node at index vp_i holds for every node of every list.  VP_STEP gives the node reached the
 * link that the precondition "every node links to the next one, the last to NULL" says it has.
 * VP_PIN(v, e) proves v == e and then replaces v by e, for the benefit of the alias analysis.
 */
#ifndef LIST_SPEC_H
#define LIST_SPEC_H
#include "msg_spec.h"
#define VP_MAXNODES 1000000u
coap_msg_op_t vp_a, vp_b;
size_t vp_n;                    /* number of nodes */
size_t vp_i;                    /* ghost: index of the node a loop has reached */
#ifndef VP_NODE
#define VP_NODE(i) ((i) & 1 ? &vp_b : &vp_a)
#endif
#define VP_AT(op) (vp_i <= vp_n && (op) == (vp_i < vp_n ? VP_NODE(vp_i) : NULL))
#define VP_PIN(v, e) __CPROVER_assert((v) == (e), "vp_pin: " #v " is the node reached"); (v) = (e);
#define VP_STEP(op) VP_PIN(op, VP_NODE(vp_i)) (op)->next = vp_i + 1 < vp_n ? VP_NODE(vp_i + 1) : NULL; vp_i++;
#define VP_LIST_SETUP(m) do { \
    vp_n = vp_nondet_size(); vp_i = 0; \
    __CPROVER_assume(vp_n <= VP_MAXNODES); \
    (m)->op_list.first = vp_n ? VP_NODE(0) : NULL; \
    (m)->op_list.last = vp_n ? VP_NODE(vp_n - 1) : NULL; } while (0)
#endif
