/* mutex: random tasks, each operation checked against the real holder */
#include "wit.h"
#include <hev-task.h>
#include <hev-task-system.h>
#include <hev-task-mutex.h>

#define MAX 6
static HevTaskMutex mx;
static HevTask *tasks[MAX];
static int holder, n, rounds, live, inlock[MAX + 1];

static void
maybe_yield (void)
{
    int k = below (3);
    while (k--)
        hev_task_yield (HEV_TASK_YIELD);
}

static void
entry (void *data)
{
    int me = (intptr_t)data, i;
    for (i = 0; i < rounds; i++) {
        maybe_yield ();
        if (below (3) == 0) {
            int h = holder, r = hev_task_mutex_trylock (&mx);
            if (h && r != -1)
                FAIL ("trylock of task %d returns %d while task %d holds the mutex", me, r, h);
            if (!h && r != 0)
                FAIL ("trylock of task %d returns %d on a free mutex", me, r);
            if (r)
                continue;
        } else {
            int r;
            inlock[me] = 1;
            r = hev_task_mutex_lock (&mx);
            inlock[me] = 0;
            if (r)
                FAIL ("lock returns %d", r);
            if (holder)
                FAIL ("lock of task %d succeeds while task %d holds the mutex", me, holder);
        }
        holder = me;
        maybe_yield ();
        if (holder != me)
            FAIL ("two holders");
        holder = 0;
        if (hev_task_mutex_unlock (&mx))
            FAIL ("unlock fails");
    }
    live--;
}

/* wakes waiting tasks for no reason: a wait must survive it */
static void
disturb (void *data)
{
    while (live) {
        int k = below (n);
        if (inlock[k + 1] && below (2))
            hev_task_wakeup (tasks[k]);
        hev_task_yield (HEV_TASK_YIELD);
    }
}

static void
watch (int s)
{
    int i, w = 0;
    for (i = 1; i <= n; i++)
        w += inlock[i];
    printf ("FAILED [%s]: %d tasks wait for the mutex for ever, holder %d\n", wit_ctx, w, holder);
    fflush (stdout);
    _exit (1);
}

int
main (int argc, char **argv)
{
    int k, i;
    wit_init (argc, argv);
    signal (SIGALRM, watch);
    for (k = 0; k < 400; k++) {
        HevTask *d = NULL;
        hev_task_system_init ();
        hev_task_mutex_init (&mx);
        n = 1 + below (MAX);
        rounds = 1 + below (30);
        holder = 0;
        live = n;
        CTX ("mutex: %d tasks, %d rounds, case %d", n, rounds, k);
        alarm (20);
        for (i = 0; i < n; i++) {
            tasks[i] = hev_task_ref (hev_task_new (-1));
            hev_task_set_priority (tasks[i], below (HEV_TASK_PRIORITY_MAX + 1));
            hev_task_run (tasks[i], entry, (void *)(intptr_t)(i + 1));
        }
        if (below (2)) {
            d = hev_task_new (-1);
            hev_task_set_priority (d, HEV_TASK_PRIORITY_MAX);
            hev_task_run (d, disturb, NULL);
        }
        hev_task_system_run ();
        if (live)
            FAIL ("system ended with %d tasks left", live);
        for (i = 0; i < n; i++)
            hev_task_unref (tasks[i]);
        hev_task_system_fini ();
    }
    return wit_done ();
}
