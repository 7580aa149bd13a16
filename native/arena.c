/* The interpreter of the analysis recurses deeply; CPython maps and unmaps a frame chunk every time a call crosses
   a chunk boundary.  This keeps freed chunks on free lists by size instead. */
#include <stddef.h>
#include <sys/mman.h>
struct node { struct node *next; };
static struct { size_t n; struct node *head; } bins[8];
static void *vx_alloc(void *ctx, size_t n) {
    (void)ctx;
    for (int i = 0; i < 8; i++)
        if (bins[i].n == n && bins[i].head) {
            struct node *p = bins[i].head;
            bins[i].head = p->next;
            return p;
        }
    void *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    return p == MAP_FAILED ? NULL : p;
}
static void vx_free(void *ctx, void *p, size_t n) {
    (void)ctx;
    for (int i = 0; i < 8; i++) {
        if (bins[i].n == 0) bins[i].n = n;
        if (bins[i].n == n) {
            ((struct node *)p)->next = bins[i].head;
            bins[i].head = p;
            return;
        }
    }
    munmap(p, n);
}
struct { void *ctx; void *(*alloc)(void *, size_t); void (*free)(void *, void *, size_t); } vx_arena = {NULL, vx_alloc, vx_free};
