#include "wit.h"
#include "mem/base/hev-memory-allocator.h"
#include "mem/api/hev-memory-allocator-api.h"

static int destroyed, asked;
static void *keep;
static int fail;
static size_t last;
static unsigned char pool[8192] __attribute__ ((aligned (16)));
static void *
t_alloc (HevMemoryAllocator *a, size_t n)
{
    asked++;
    last = n;
    if (fail || n > sizeof (pool))
        return NULL;
    memset (pool, 0xa5, sizeof (pool));
    return pool;
}
static void *rp, *fp;
static size_t rs;
static void *
t_realloc (HevMemoryAllocator *a, void *p, size_t n)
{
    rp = p;
    rs = n;
    return pool + 16;
}
static void
t_free (HevMemoryAllocator *a, void *p)
{
    fp = p;
}
static void
t_destroy (HevMemoryAllocator *a)
{
    destroyed++;
}
static void
zero (const unsigned char *p, size_t n)
{
    size_t i;
    for (i = 0; i < n; i++)
        if (p[i])
            FAIL ("byte %zu is not zero", i);
}
static void
calloc_case (uint64_t n, uint64_t s)
{
    unsigned char *p;
    unsigned __int128 full = (unsigned __int128)n * s;
    CTX ("hev_calloc (%llu, %llu)", (unsigned long long)n, (unsigned long long)s);
    asked = 0;
    p = hev_calloc (n, s);
    if (full > sizeof (pool) || fail)
        REQUIRE (p == NULL);
    else if (full) {
        REQUIRE (p == pool);
        REQUIRE (last >= full);
        zero (p, full);
    }
}

int
main (int argc, char **argv)
{
    HevMemoryAllocator *t, *d;
    uint64_t a = 0, b = 0;
    int i, k;
    wit_init (argc, argv);
    CTX ("default allocator");
    d = hev_memory_allocator_default ();
    REQUIRE (d && d == hev_memory_allocator_default ());
    t = malloc (sizeof (*t));
    memset (t, 0, sizeof (*t));
    t->alloc = t_alloc;
    t->realloc = t_realloc;
    t->free = t_free;
    t->destroy = t_destroy;
    t->ref_count = 1;
    REQUIRE (hev_memory_allocator_set_default (t) == d);
    REQUIRE (hev_memory_allocator_default () == t);
    if (arg ("nmemb", &a) && arg ("size", &b))
        calloc_case (a, b);
    for (i = 0; i < 3000; i++) {
        uint64_t n, s;
        unsigned char *p;
        fail = !below (10);
        n = below (4) ? below (90) : rnd () >> below (64);
        s = below (4) ? below (90) : rnd () >> below (64);
        calloc_case (n, s);
        if (n && s) {
            s = UINT64_MAX / n + 1 + below (3);
            calloc_case (n, s);
        }
        n = below (sizeof (pool) + 1);
        CTX ("hev_malloc0 (%llu)%s", (unsigned long long)n, fail ? " without memory" : "");
        p = hev_malloc0 (n);
        REQUIRE (p == (fail ? NULL : pool));
        if (p)
            zero (p, n);
        CTX ("hev_malloc (%llu)%s", (unsigned long long)n, fail ? " without memory" : "");
        p = hev_malloc (n);
        REQUIRE (p == (fail ? NULL : pool) && last == n);
        REQUIRE (hev_realloc (pool + 1, n) == pool + 16 && rp == pool + 1 && rs == n);
        hev_free (pool + 7);
        REQUIRE (fp == pool + 7);
    }
    for (i = 1; i < 70000; i = i * 3 + 1) {
        CTX ("%d references", i);
        for (k = 1; k < i; k++)
            REQUIRE (hev_memory_allocator_ref (t) == t);
        for (k = 1; k < i; k++) {
            hev_memory_allocator_unref (t);
            REQUIRE (destroyed == 0);
        }
    }
    hev_memory_allocator_set_default (d);
    hev_memory_allocator_unref (t);
    REQUIRE (destroyed == 1);
    CTX ("malloc backed allocator");
    {
        void *p = hev_malloc (100);
        REQUIRE (p);
        memset (p, 1, 100);
        p = hev_realloc (p, 5000);
        REQUIRE (p && ((char *)p)[99] == 1);
        memset (p, 2, 5000);
        hev_free (p);
    }
    REQUIRE (hev_memory_allocator_set_default (NULL) == d);
    hev_memory_allocator_unref (d);
    return wit_done ();
}
