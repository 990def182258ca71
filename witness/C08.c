/* condition variable: controller and random waiters, releases counted */
#include "wit.h"
#include <hev-task.h>
#include <hev-task-system.h>
#include <hev-task-mutex.h>
#include <hev-task-cond.h>

#define MAX 8
static HevTaskMutex mx;
static HevTaskCond cd;
static HevTask *tasks[MAX];
static struct { int kind, state, ret, ms; } w[MAX]; /* state 0 new 1 waiting 2 back */
static int n, held;

static long long
now_us (void)
{
    struct timespec t;
    clock_gettime (CLOCK_MONOTONIC, &t);
    return t.tv_sec * 1000000ll + t.tv_nsec / 1000;
}

static void
entry (void *data)
{
    int me = (intptr_t)data, r;
    long long t0;
    hev_task_mutex_lock (&mx);
    t0 = now_us ();
    w[me].state = 1;
    held = 0;
    if (w[me].kind == 0)
        r = hev_task_cond_wait (&cd, &mx);
    else
        r = hev_task_cond_timedwait (&cd, &mx, w[me].ms);
    if (held)
        FAIL ("waiter %d returns while somebody else holds the mutex", me);
    if (hev_task_mutex_trylock (&mx) != -1)
        FAIL ("waiter %d returns without the mutex", me);
    w[me].state = 2;
    w[me].ret = r;
    if (r && w[me].kind == 0)
        FAIL ("plain wait returns %d", r);
    if (r && r != -1)
        FAIL ("timed wait returns %d", r);
    if (r && now_us () - t0 < (w[me].ms - 3) * 1000ll)
        FAIL ("timed wait of %d ms gives up after %lld us", w[me].ms, now_us () - t0);
    hev_task_mutex_unlock (&mx);
}

static int
count (int st)
{
    int i, c = 0;
    for (i = 0; i < n; i++)
        c += w[i].state == st;
    return c;
}

static void
settle (void)
{
    int i;
    for (i = 0; i < 40; i++)
        hev_task_yield (HEV_TASK_YIELD);
}

static void
expire (void)
{
    int i, again = 1;
    while (again) {
        hev_task_sleep (4);
        settle ();
        again = 0;
        for (i = 0; i < n; i++)
            if (w[i].kind == 2 && w[i].state == 1) {
                static int tries;
                again = ++tries < 2000;
            }
    }
    for (i = 0; i < n; i++)
        if (w[i].kind == 2 && w[i].state == 1)
            FAIL ("timed wait of %d ms does not end", w[i].ms);
}

static void
control (void *data)
{
    int i, k, started = 0, sig = 0, ended_sig = 0;
    for (i = 0; i < n; i++) {
        tasks[i] = hev_task_ref (hev_task_new (-1));
        hev_task_set_priority (tasks[i], 0);
        hev_task_run (tasks[i], entry, (void *)(intptr_t)i);
        settle ();
        if (w[i].state != 1 && !(w[i].kind == 2))
            FAIL ("waiter %d returns without any signal", i);
        k = below (i + 1);
        if (below (6) == 0 && w[k].state == 1)
            hev_task_wakeup (tasks[k]);
        settle ();
    }
    if (below (2))
        expire ();
    for (k = below (n + 2); k > 0; k--) {
        int b, a, s = 0;
        for (i = 0, b = 0; i < n; i++)
            b += w[i].state == 1 && w[i].kind != 2;
        if (below (2))
            expire ();
        for (i = 0; i < n; i++)
            s += w[i].state == 1 && w[i].kind == 2;
        if (s)
            expire ();
        hev_task_mutex_lock (&mx);
        held = 1;
        if (hev_task_cond_signal (&cd))
            FAIL ("signal fails");
        held = 0;
        hev_task_mutex_unlock (&mx);
        settle ();
        for (i = 0, a = 0; i < n; i++)
            a += w[i].state == 1 && w[i].kind != 2;
        if (b && a != b - 1)
            FAIL ("a signal with %d waiting tasks released %d", b, b - a);
    }
    if (below (3))
        expire ();
    hev_task_mutex_lock (&mx);
    held = 1;
    hev_task_cond_broadcast (&cd);
    held = 0;
    hev_task_mutex_unlock (&mx);
    settle ();
    if (count (1))
        FAIL ("%d tasks still wait after a broadcast", count (1));
    for (i = 0; i < n; i++)
        if (w[i].kind != 2 && w[i].ret)
            FAIL ("waiter %d was signalled but got %d", i, w[i].ret);
    /* a signal now must not touch anybody */
    hev_task_cond_signal (&cd);
}

int
main (int argc, char **argv)
{
    int k, i;
    wit_init (argc, argv);
    for (k = 0; k < 250; k++) {
        HevTask *d;
        char kinds[MAX + 1] = { 0 };
        hev_task_system_init ();
        hev_task_mutex_init (&mx);
        hev_task_cond_init (&cd);
        n = 1 + below (MAX - 1);
        held = 0;
        for (i = 0; i < n; i++) {
            w[i].kind = below (3);
            w[i].state = 0;
            w[i].ret = 99;
            w[i].ms = w[i].kind == 2 ? (below (4) ? below (4) : 10) : 100000;
            kinds[i] = "PLS"[w[i].kind];
        }
        CTX ("cond: waiters %s (Plain, Long timeout, Short timeout), case %d", kinds, k);
        alarm (20);
        d = hev_task_new (-1);
        hev_task_set_priority (d, 15);
        hev_task_run (d, control, NULL);
        hev_task_system_run ();
        for (i = 0; i < n; i++)
            hev_task_unref (tasks[i]);
        hev_task_system_fini ();
    }
    return wit_done ();
}
