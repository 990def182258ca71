/* tasks joining tasks that end in either way, before or while being joined */
#include "wit.h"
#include <hev-task.h>
#include <hev-task-system.h>

#define N 8
static HevTask *t[N];
static int ended[N], steps[N], how[N], joined[N], left;
static void
body (void *d)
{
    int me = (long)d;
    hev_task_yield (HEV_TASK_YIELD);
    while (steps[me]--) {
        if (below (8))
            hev_task_yield (HEV_TASK_YIELD);
        else
            hev_task_usleep (1 + below (100));
    }
    ended[me] = 1;
    if (how[me])
        hev_task_exit ();
}
static void
joiner (void *d)
{
    int i, r, k = 2 + below (4), x;
    while (k--) {
        i = below (N);
        for (x = below (4); x; x--)
            hev_task_yield (HEV_TASK_YIELD);
        if (joined[i]) {
            HevTaskState s = hev_task_get_state (t[i]);
            /* somebody is still registered */
            r = hev_task_join (t[i]);
            if (r != -1)
                FAIL ("a second join returned %d", r);
            if (hev_task_get_state (t[i]) != s)
                FAIL ("a refused join changed the task's state");
            continue;
        }
        joined[i] = 1;
        r = hev_task_join (t[i]);
        joined[i] = 0;
        if (r != 0)
            FAIL ("join returned %d", r);
        if (!ended[i] || hev_task_get_state (t[i]) != HEV_TASK_STOPPED)
            FAIL ("join returned before the task ended");
        if (below (2)) {
            ended[i] = 0;
            steps[i] = below (6);
            how[i] = below (2);
            hev_task_ref (t[i]);
            hev_task_run (t[i], body, (void *)(long)i);
        }
    }
    left--;
}
int
main (int argc, char **argv)
{
    int k, i, n;
    wit_init (argc, argv);
    for (k = 0; k < 2000; k++) {
        if (hev_task_system_init ())
            FAIL ("init");
        n = 1 + below (6);
        CTX ("%d joining tasks, case %d", n, k);
        left = n;
        for (i = 0; i < N; i++) {
            t[i] = hev_task_ref (hev_task_new (16384));
            ended[i] = joined[i] = 0;
            steps[i] = below (10);
            how[i] = below (2);
            hev_task_set_priority (t[i], 1 + below (15));
            hev_task_run (t[i], body, (void *)(long)i);
        }
        for (i = 0; i < n; i++) {
            HevTask *j = hev_task_new (16384);
            hev_task_run (j, joiner, NULL);
        }
        alarm (5);
        hev_task_system_run ();
        alarm (0);
        if (left)
            FAIL ("run() returned with %d joining tasks waiting", left);
        for (i = 0; i < N; i++)
            hev_task_unref (t[i]);
        hev_task_system_fini ();
    }
    return wit_done ();
}
