/* Block allocators for the message harnesses, with the interface of lib/src/coap_mem.c: one heap
 * object per block (AddressSanitizer sees overruns and use after free), fault injection, and a
 * count of live blocks.  The real allocator has harnesses of its own. */
static size_t pool_len[3] = {64, 128, 256};
static int pool_live[3];
static int pool_fail = -1;      /* fail the n-th allocation from now */
static void *pool_alloc(int k, size_t len)
{
    if (len > pool_len[k]) return NULL;
    if (pool_fail >= 0 && pool_fail-- == 0) return NULL;
    char *p = malloc(pool_len[k] + 8);
    if (p == NULL) return NULL;
    p[0] = 'P'; p[1] = (char)k;
#ifndef VP_CBMC
    memset(p + 8, 0xa5, pool_len[k]);
#endif
    pool_live[k]++;
    return p + 8;
}
static void pool_release(int k, void *b)
{
    VP_CHECK(b != NULL, "a null block is returned");
    char *p = (char *)b - 8;
    VP_CHECK(p[0] == 'P' && p[1] == (char)k, "a block is returned to the allocator it came from");
    pool_live[k]--;
    free(p);
}
void *coap_mem_small_alloc(size_t n) { return pool_alloc(0, n); }
void coap_mem_small_free(void *b) { pool_release(0, b); }
size_t coap_mem_small_get_len(void) { return pool_len[0]; }
void *coap_mem_medium_alloc(size_t n) { return pool_alloc(1, n); }
void coap_mem_medium_free(void *b) { pool_release(1, b); }
size_t coap_mem_medium_get_len(void) { return pool_len[1]; }
void *coap_mem_large_alloc(size_t n) { return pool_alloc(2, n); }
void coap_mem_large_free(void *b) { pool_release(2, b); }
size_t coap_mem_large_get_len(void) { return pool_len[2]; }
