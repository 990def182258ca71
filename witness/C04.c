/* random lives of tasks with a recording allocator and recorded mappings */
#include "wit.h"
#include "walloc.h"
#include <hev-task.h>
#include <hev-task-system.h>
#include <sys/syscall.h>

static long maps, map_fail = -1;
void *
mmap (void *a, size_t n, int p, int f, int fd, off_t o)
{
    void *r;
    if (map_fail == 0) {
        map_fail = -1;
        errno = ENOMEM;
        return MAP_FAILED;
    }
    if (map_fail > 0)
        map_fail--;
    r = (void *)syscall (SYS_mmap, a, n, p, f, fd, o);
    if (r != MAP_FAILED)
        maps += n;
    return r;
}
int
munmap (void *a, size_t n)
{
    int r = syscall (SYS_munmap, a, n);
    if (r == 0)
        maps -= n;
    return r;
}

#define N 12
static HevTask *t[N];
static int refs[N], runs[N], st[N], prio[N], token[N], base;
static int
alive (int i)
{
    int k = t[i] ? wa_find (t[i]) : -1;
    return k >= 0 && wa_b[k].live;
}
static void
look (void)
{
    int i;
    for (i = 0; i < N; i++) {
        if (!t[i])
            continue;
        if ((refs[i] > 0 || st[i] == 1) != alive (i))
            FAIL ("task %d with %d references, %s: %s", i, refs[i], st[i] == 1 ? "started" : "not started", alive (i) ? "still there" : "released");
        if (!alive (i))
            t[i] = NULL;
        else if (hev_task_get_priority (t[i]) != prio[i])
            FAIL ("priority %d, expected %d", hev_task_get_priority (t[i]), prio[i]);
    }
}
static void body (void *d);
static void
other (void *d)
{
    FAIL ("a second start of a task that is not stopped took effect");
}
static int
clamp (int p)
{
    return p < HEV_TASK_PRIORITY_MIN ? HEV_TASK_PRIORITY_MIN : p > HEV_TASK_PRIORITY_MAX ? HEV_TASK_PRIORITY_MAX : p;
}
static void
act (void)
{
    int i = below (N), k;
    switch (below (7)) {
    case 0:
    case 1:
        if (!t[i]) {
            int live = wa_live;
            long m = maps, f = below (4) == 0, g = below (8) == 0;
            wa_fail = f ? below (3) : -1;
            map_fail = g ? 0 : -1;
            t[i] = hev_task_new (below (3) ? (int)(4096 * (1 + below (8))) : -1);
            wa_fail = map_fail = -1;
            if (!t[i]) {
                if (wa_live != live || maps != m)
                    FAIL ("a failed creation keeps %d blocks and %ld mapped bytes", wa_live - live, maps - m);
                break;
            }
            refs[i] = 1;
            st[i] = 0;
            prio[i] = HEV_TASK_PRIORITY_DEFAULT;
            if (hev_task_get_state (t[i]) != HEV_TASK_STOPPED)
                FAIL ("a new task is not stopped");
        }
        break;
    case 2:
        if (t[i] && refs[i]) {
            if (hev_task_ref (t[i]) != t[i])
                FAIL ("ref returns something else");
            refs[i]++;
        }
        break;
    case 3:
        if (t[i] && refs[i]) {
            refs[i]--;
            hev_task_unref (t[i]);
        }
        break;
    case 4:
        if (t[i] && refs[i] && st[i] == 0 && hev_task_get_state (t[i]) == HEV_TASK_STOPPED) {
            st[i] = 1;
            runs[i] = 0;
            refs[i]--;
            hev_task_run (t[i], body, &token[i]);
        } else if (t[i] && st[i] == 1)
            hev_task_run (t[i], other, NULL);
        break;
    default:
        if (t[i] && (refs[i] || st[i] == 1)) {
            k = below (2) ? (int)rnd () : (int)below (60) - 20;
            hev_task_set_priority (t[i], k);
            prio[i] = clamp (k);
        }
    }
    look ();
}
static void
body (void *d)
{
    int me = (int *)d - token, k = below (6);
    if (me < 0 || me >= N || hev_task_self () != t[me])
        FAIL ("started with somebody else's data");
    if (runs[me]++)
        FAIL ("body runs twice");
    while (k--) {
        act ();
        if (below (4))
            hev_task_yield (HEV_TASK_YIELD);
        else
            hev_task_usleep (1 + below (50));
        look ();
    }
    st[me] = 0;
    if (refs[me] == 0)
        t[me] = NULL;
    if (below (3) == 0)
        hev_task_exit ();
}
int
main (int argc, char **argv)
{
    int k, i, j;
    wit_init (argc, argv);
    for (k = 0; k < 1500; k++) {
        long m;
        if (hev_task_system_init ())
            FAIL ("init");
        wa_install ();
        m = maps;
        CTX ("case %d", k);
        for (j = 0; j < 30; j++)
            act ();
        alarm (10);
        hev_task_system_run ();
        alarm (0);
        look ();
        for (i = 0; i < N; i++)
            while (t[i] && refs[i]) {
                refs[i]--;
                hev_task_unref (t[i]);
                look ();
            }
        if (maps != m)
            FAIL ("%ld bytes of stacks stay mapped", maps - m);
        wa_remove ();
        hev_task_system_fini ();
    }
    return wit_done ();
}
