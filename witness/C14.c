/* random requests to the slice allocator; the C library's blocks are recorded and fail on demand */
#include "wit.h"
#include "mem/base/hev-memory-allocator.h"
#include "mem/slice/hev-memory-allocator-slice.h"

extern void *__libc_malloc (size_t), *__libc_realloc (void *, size_t), __libc_free (void *);
#define NB 16384
#define LIMIT CONFIG_MEMALLOC_SLICE_MAX_COUNT
static struct { char *p; size_t n; } lib[NB];
static int nlib, on, failing, failed, peak;

static int
at (void *p)
{
    int i;
    for (i = nlib - 1; i >= 0; i--)
        if (lib[i].p == p)
            return i;
    return -1;
}
void *
malloc (size_t n)
{
    char *p;
    if (!on)
        return __libc_malloc (n);
    if ((failing && below (4) == 0) || n > (1u << 24) || nlib == NB) {
        failed = 1;
        return NULL;
    }
    p = __libc_malloc (n);
    memset (p, 0xc3, n);
    lib[nlib].p = p;
    lib[nlib++].n = n;
    return p;
}
void
free (void *p)
{
    int i;
    if (!on || !p) {
        __libc_free (p);
        return;
    }
    i = at (p);
    if (i < 0)
        FAIL ("releases %p, which is not a block (any more)", p);
    memset (p, 0xdd, lib[i].n);
    lib[i] = lib[--nlib];
    __libc_free (p);
}
void *
realloc (void *p, size_t n)
{
    int i;
    if (!on || !p)
        return p ? __libc_realloc (p, n) : malloc (n);
    i = at (p);
    if (i < 0)
        FAIL ("reallocates %p, which is not a block (any more)", p);
    if ((failing && below (4) == 0) || n > (1u << 24)) {
        failed = 1;
        return NULL;
    }
    void *q = __libc_malloc (n);
    memset (q, 0xc3, n);
    memcpy (q, p, n < lib[i].n ? n : lib[i].n);
    memset (p, 0xdd, lib[i].n);
    __libc_free (p);
    lib[i].p = q;
    lib[i].n = n;
    return q;
}
#define NU 1600
static struct { unsigned char *p; size_t n; unsigned char v; } u[NU];
static int nu;

static size_t
size (void)
{
    switch (below (12)) {
    case 0: return 0;
    case 1: return CONFIG_MEMALLOC_SLICE_MAX_SIZE - 2 + below (70);
    case 2: return (1ull << (32 + below (32))) + below (5000);
    case 3: return -1 - below (200);
    case 4: return below (9000);
    case 5: return 64 * below (66) + below (3);
    case 6: return 1 + below (64);
    default: return 1 + below (300);
    }
}
static void
good (unsigned char *p, size_t n, int k)
{
    int i, b = -1;
    for (i = 0; i < nlib; i++)
        if ((char *)p >= lib[i].p && (char *)p < lib[i].p + lib[i].n)
            b = i;
    if (b < 0)
        FAIL ("returns %p, which is in no block", p);
    if (lib[b].p + lib[b].n - (char *)p < n || n > lib[b].n)
        FAIL ("returns a block of %zu bytes with %zu left for a request of %zu", lib[b].n, (size_t)(lib[b].p + lib[b].n - (char *)p), n);
    if ((uintptr_t)p % 16)
        FAIL ("returns the unaligned %p", p);
    if (n <= CONFIG_MEMALLOC_SLICE_MAX_SIZE && lib[b].n > n + 4 * CONFIG_MEMALLOC_SLICE_ALIGN)
        FAIL ("serves a request of %zu with a cached block of %zu", n, lib[b].n);
    for (i = 0; i < nu; i++)
        if (i != k && p < u[i].p + u[i].n && u[i].p < p + n)
            FAIL ("returns a block that overlaps one in use");
}
static void
same (unsigned char *p, size_t n, unsigned char v)
{
    size_t k;
    for (k = 0; k < n; k++)
        if (p[k] != v)
            FAIL ("a block in use lost its content at %zu of %zu", k, n);
}

int
main (int argc, char **argv)
{
    int it, i, j;
    wit_init (argc, argv);
    alarm (100);
    for (it = 0; it < 40; it++) {
        HevMemoryAllocator *a;
        int steps = it % 4 == 0 ? 9000 : 600, few = below (2), up = 1;
        failing = 0;
        nlib = nu = 0;
        on = 1;
        a = hev_memory_allocator_slice_new ();
        on = 0;
        if (!a)
            return 0;
        for (j = 0; j < steps; j++) {
            size_t n = few && below (3) ? 1 + below (200) : size ();
            void *p;
            failing = it & 1;
            failed = 0;
            if (steps == 9000 ? (up ? nu == NU : nu < 100) : below (500) == 0)
                up = !up;
            if (!nu || (below (10) < (up ? 8 : 1) && nu < NU)) {
                CTX ("run %d, step %d: alloc %zu", it, j, n);
                on = 1;
                p = a->alloc (a, n);
                on = 0;
                if (!p) {
                    if (n && n <= 8192 && !failed)
                        FAIL ("returns NULL although there is memory");
                    continue;
                }
                if (!n)
                    continue;
                good (p, n, -1);
                u[nu].p = p;
                u[nu].n = n;
                u[nu].v = rnd ();
                memset (p, u[nu].v, n);
                nu++;
            } else if (below (5) == 0) {
                i = below (nu);
                CTX ("run %d, step %d: realloc %zu to %zu", it, j, u[i].n, n);
                same (u[i].p, u[i].n, u[i].v);
                on = 1;
                p = a->realloc (a, u[i].p, n);
                on = 0;
                if (!n) {
                    u[i] = u[--nu];
                } else if (p) {
                    good (p, n, i);
                    same (p, n < u[i].n ? n : u[i].n, u[i].v);
                    u[i].p = p;
                    u[i].n = n;
                    memset (p, u[i].v, n);
                } else {
                    if (n <= 8192 && !failed)
                        FAIL ("returns NULL although there is memory");
                    if (at (u[i].p - 16) < 0)
                        FAIL ("a failed reallocation released the old block");
                    same (u[i].p, u[i].n, u[i].v);
                }
            } else {
                i = below (nu);
                CTX ("run %d, step %d: free a block of %zu", it, j, u[i].n);
                same (u[i].p, u[i].n, u[i].v);
                on = 1;
                a->free (a, u[i].p);
                on = 0;
                u[i] = u[--nu];
            }
            if (nlib - 1 - nu > LIMIT)
                FAIL ("%d blocks are cached", nlib - 1 - nu);
            if (nlib - 1 - nu < 0)
                FAIL ("a block in use was released");
        }
        CTX ("run %d: destroy with %d cached", it, nlib - 1 - nu);
        on = 1;
        if (a->destroy)
            a->destroy (a);
        on = 0;
        if (nlib - 1 != nu)
            FAIL ("%d blocks are neither in use nor released", nlib - 1 - nu);
        for (i = 0; i < nu; i++)
            same (u[i].p, u[i].n, u[i].v);
    }
    return wit_done ();
}
