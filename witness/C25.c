#include "wit.h"
#include <pthread.h>
#include <hev-object.h>
#include <hev-object-atomic.h>

static int gone;
static HevObjectClass mine;
static void
destruct (HevObject *o)
{
    __atomic_fetch_add (&gone, 1, __ATOMIC_SEQ_CST);


}
static pthread_barrier_t bar;
static HevObject *shared;
#define T 6
#define R 3000
static void *
thr (void *d)
{
    int i;
    for (i = 0; i < R; i++) {
        hev_object_ref (shared);
        if (i & 1)
            hev_object_unref (shared);
    }
    for (i = 0; i < R; i += 2)
        hev_object_unref (shared);
    return d;
}
static volatile int phase;
static void *
last (void *d)
{
    int i;
    for (i = 1; i <= 60000; i++) {
        while (__atomic_load_n (&phase, __ATOMIC_ACQUIRE) < i)
            ;
        hev_object_unref (shared);
        pthread_barrier_wait (&bar);
    }
    return d;
}

int
main (int argc, char **argv)
{
    int i, k, a;
    wit_init (argc, argv);
    for (a = 0; a < 2; a++) {
        static const unsigned cnt[] = { 1, 2, 3, 10, 255, 256, 257, 65535, 65536, 65537, 200000 };
        for (i = 0; i < 11; i++) {
            HevObjectAtomic o;
            HevObject *b = (HevObject *)&o;
            unsigned j;
            CTX ("%s object, %u references", a ? "atomic" : "plain", cnt[i]);
            REQUIRE ((a ? hev_object_atomic_construct (&o) : hev_object_construct (b)) == 0);
            mine = *b->klass;
            mine.destruct = destruct;
            b->klass = &mine;
            gone = 0;
            for (j = 1; j < cnt[i]; j++)
                hev_object_ref (b);
            for (j = 1; j < cnt[i]; j++) {
                hev_object_unref (b);
                if (gone)
                    FAIL ("destructed with %u references left", cnt[i] - j);
            }
            hev_object_unref (b);
            REQUIRE (gone == 1);
        }
    }
    for (i = 0; i < 60; i++) {
        HevObjectAtomic o;
        pthread_t t[T];
        CTX ("round %d, %d threads taking and releasing references", i, T);
        hev_object_atomic_construct (&o);
        shared = (HevObject *)&o;
        mine = *shared->klass;
        mine.destruct = destruct;
        shared->klass = &mine;
        gone = 0;
        for (k = 0; k < T; k++)
            pthread_create (&t[k], NULL, thr, NULL);
        for (k = 0; k < T; k++)
            pthread_join (t[k], NULL);
        REQUIRE (gone == 0);
        hev_object_unref (shared);
        REQUIRE (gone == 1);
    }
    pthread_barrier_init (&bar, NULL, 3);
    {
        static HevObjectAtomic o;
        pthread_t t[2];
        shared = (HevObject *)&o;
        for (k = 0; k < 2; k++)
            pthread_create (&t[k], NULL, last, NULL);
        for (i = 1; i <= 60000; i++) {
            CTX ("round %d, two threads release the last two references", i);
            hev_object_atomic_construct (&o);
            mine = *shared->klass;
            mine.destruct = destruct;
            shared->klass = &mine;
            gone = 0;
            hev_object_ref (shared);
            __atomic_store_n (&phase, i, __ATOMIC_RELEASE);
            pthread_barrier_wait (&bar);
            REQUIRE (gone == 1);
        }
    }
    return wit_done ();
}
