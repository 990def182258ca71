/* a default allocator that records blocks, fails on demand and notices misuse */
#ifndef WALLOC_H
#define WALLOC_H
#include "mem/base/hev-memory-allocator.h"
#define WA_MAX 4096
static struct { unsigned char *p; size_t n; int live; } wa_b[WA_MAX];
static int wa_n, wa_live;
static long wa_fail = -1; /* fail the allocation after this many */
static int wa_failed;
static HevMemoryAllocator *wa_old;

static int
wa_find (void *p)
{
    int i;
    for (i = wa_n - 1; i >= 0; i--)
        if (wa_b[i].p == p)
            return i;
    return -1;
}
static void *
wa_alloc (HevMemoryAllocator *a, size_t n)
{
    unsigned char *p;
    if (wa_fail == 0) {
        wa_fail = -1;
        wa_failed++;
        return NULL;
    }
    if (wa_fail > 0)
        wa_fail--;
    if (n > (1u << 26) || wa_n == WA_MAX || !(p = malloc (n + 64)))
        return NULL;
    memset (p, 0xa5, n + 64);
    wa_b[wa_n].p = p;
    wa_b[wa_n].n = n;
    wa_b[wa_n++].live = 1;
    wa_live++;
    return p;
}
static void
wa_check (int i)
{
    size_t k;
    for (k = 0; k < 64; k++)
        if (wa_b[i].p[wa_b[i].n + k] != 0xa5)
            FAIL ("wrote %zu bytes past the end of a block of %zu", k + 1, wa_b[i].n);
    if (!wa_b[i].live)
        for (k = 0; k < wa_b[i].n; k++)
            if (wa_b[i].p[k] != 0x5a)
                FAIL ("wrote at offset %zu of a released block", k);
}
static void
wa_free (HevMemoryAllocator *a, void *p)
{
    int i;
    if (!p)
        return;
    i = wa_find (p);
    if (i < 0)
        FAIL ("released a block that was never handed out");
    if (!wa_b[i].live)
        FAIL ("released a block twice");
    wa_check (i);
    wa_b[i].live = 0;
    wa_live--;
    memset (p, 0x5a, wa_b[i].n);
}
static void *
wa_realloc (HevMemoryAllocator *a, void *p, size_t n)
{
    void *q = wa_alloc (a, n);
    int i = wa_find (p);
    if (!q)
        return NULL;
    if (p) {
        if (i < 0 || !wa_b[i].live)
            FAIL ("reallocated a block that is not live");
        memcpy (q, p, wa_b[i].n < n ? wa_b[i].n : n);
        wa_free (a, p);
    }
    return q;
}
static void
wa_destroy (HevMemoryAllocator *a)
{
}
static HevMemoryAllocator wa = { wa_alloc, wa_realloc, wa_free, wa_destroy, 1000 };
static void
wa_install (void)
{
    wa_old = hev_memory_allocator_set_default (&wa);
}
static void
wa_purge (void)
{
    int i;
    for (i = 0; i < wa_n; i++) {
        wa_check (i);
        free (wa_b[i].p);
    }
    wa_n = wa_live = 0;
}
static void
wa_remove (void)
{
    if (wa_live)
        FAIL ("%d blocks are never released", wa_live);
    hev_memory_allocator_set_default (wa_old);
    wa_purge ();
}
#endif
