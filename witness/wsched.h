/* random tasks against a model of the scheduler: states, virtual times, order, events */
#include "wit.h"
#include <hev-task.h>
#include <hev-task-system.h>

#define MAX 120
enum { NEW, RUN, WAIT, STOP };
static HevTask *t[MAX];
static struct { int st, prio, next, steps, fd[2], reg; uint64_t key, seq; long resumed; } m[MAX];
static int n, io, started, live, current, in_kernel, inited;
static uint64_t seq;
static char trace[400];

static void
tr (const char *f, ...)
{
    va_list a;
    size_t l = strlen (trace);
    if (l > 350) {
        memmove (trace, trace + 100, l - 100 + 1);
        l -= 100;
    }
    va_start (a, f);
    vsnprintf (trace + l, sizeof (trace) - l, f, a);
    va_end (a);
}
#define BAD(...)                                    \
    do {                                            \
        size_t l = strlen (wit_ctx);                \
        snprintf (wit_ctx + l, sizeof (wit_ctx) - l, "; last:%s", trace); \
        FAIL (__VA_ARGS__);                         \
    } while (0)

static int
least (void)
{
    int i, b = -1;
    for (i = 0; i < n; i++)
        if (m[i].st == RUN && (b < 0 || m[i].key < m[b].key || (m[i].key == m[b].key && m[i].seq < m[b].seq)))
            b = i;
    return b;
}
static uint64_t
minkey (void)
{
    int b = least ();
    return b < 0 ? 0 : m[b].key;
}
static void
queue (int i)
{
    m[i].prio = m[i].next;
    m[i].seq = ++seq;
    m[i].st = RUN;
}
static void
check_states (void)
{
    static const char *nm[] = { "stopped", "running", "waiting" };
    int i;
    for (i = 0; i < n; i++) {
        int s = hev_task_get_state (t[i]);
        int w = m[i].st == RUN ? HEV_TASK_RUNNING : m[i].st == WAIT ? HEV_TASK_WAITING : HEV_TASK_STOPPED;
        if (io && m[i].st == WAIT && m[i].reg && s == HEV_TASK_RUNNING)
            continue; /* an event may have come */
        if (s != w)
            BAD ("task %d is %d, expected %s", i, s, nm[w]);
    }
}
static void
resumed (int me)
{
    int b;
    if (m[me].st == STOP)
        BAD ("task %d is run after it finished", me);
    if (m[me].st == WAIT) {
        char c;
        if (!(io && m[me].reg && read (m[me].fd[0], &c, 1) == 1))
            BAD ("waiting task %d is run although nobody woke it", me);
        m[me].st = RUN;
    } else if (!io) {
        b = least ();
        if (b != me)
            BAD ("task %d (virtual time %llu) is run, but %d (%llu) comes first", me, (unsigned long long)m[me].key, b, (unsigned long long)m[b].key);
    }
    current = me;
    check_states ();
}
static void
give (int me, int wait)
{
    tr (" %d:%s", me, wait ? "wait" : "yield");
    m[me].key += m[me].prio;
    if (wait) {
        m[me].st = WAIT;
        m[me].key = m[me].next;
    } else {
        queue (me);
    }
    hev_task_yield (wait ? HEV_TASK_WAITIO : HEV_TASK_YIELD);
    resumed (me);
}
static void entry (void *d);
static void
start (int i)
{
    tr (" run%d(p%d)", i, m[i].next);
    hev_task_run (t[i], entry, (void *)(intptr_t)i);
    m[i].key = m[i].next + (in_kernel ? 0 : minkey ());
    queue (i);
    started++;
    live++;
}
static void
wake (int i)
{
    tr (" wake%d", i);
    hev_task_wakeup (t[i]);
    if (m[i].st == WAIT) {
        m[i].key += minkey ();
        queue (i);
    }
}
static int
stuck (int me)
{
    int i;
    for (i = 0; i < n; i++)
        if (i != me && m[i].st == RUN)
            return 0;
    return 1;
}
static void
entry (void *d)
{
    int me = (intptr_t)d, i, k;
    if (m[me].reg) {
        hev_task_add_fd (hev_task_self (), m[me].fd[0], POLLIN);
    }
    resumed (me);
    if (hev_task_self () != t[me])
        BAD ("task %d runs with the wrong self", me);
    while (m[me].steps-- > 0) {
        switch (below (io ? 8 : 6)) {
        case 0:
        case 1:
            give (me, 0);
            break;
        case 2:
            if (stuck (me) && !(io && m[me].reg))
                break;
            if (io && m[me].reg && stuck (me) && write (m[me].fd[1], "x", 1) != 1)
                BAD ("write");
            if (io && m[me].reg) {
                char c;
                while (0 && read (m[me].fd[0], &c, 1) == 1)
                    ;
                if (poll (&(struct pollfd){ .fd = m[me].fd[0], .events = POLLIN }, 1, 0) > 0) {
                    while (read (m[me].fd[0], &c, 1) == 1)
                        ;
                    if (stuck (me))
                        break;
                }
            }
            give (me, 1);
            break;
        case 3:
            for (k = 0; k < 4; k++) {
                i = below (n);
                if (m[i].st != RUN && m[i].st != WAIT)
                    continue;
                if (io && m[i].reg)
                    continue;
                wake (i);
                check_states ();
                break;
            }
            break;
        case 4:
            i = below (n);
            k = below (4) ? below (HEV_TASK_PRIORITY_MAX + 1) : HEV_TASK_PRIORITY_MAX + below (9);
            if (m[i].st == STOP)
                break;
            tr (" prio%d=%d", i, k);
            hev_task_set_priority (t[i], k);
            m[i].next = k > HEV_TASK_PRIORITY_MAX ? HEV_TASK_PRIORITY_MAX : k;
            break;
        case 5:
            i = below (n);
            if (below (2) && (m[i].st == RUN || m[i].st == WAIT)) {
                tr (" rerun%d", i);
                hev_task_run (t[i], entry, NULL);
                check_states ();
            }
            for (i = 0; i < n; i++)
                if (m[i].st == NEW) {
                    start (i);
                    check_states ();
                    break;
                }
            break;
        default:
            for (k = 0; k < 3; k++) {
                i = below (n);
                if (m[i].st == WAIT && m[i].reg) {
                    tr (" event%d", i);
                    if (write (m[i].fd[1], "x", 1) != 1)
                        BAD ("write");
                }
            }
        }
    }
    /* nobody may be left waiting for ever */
    for (i = 0; i < n; i++) {
        if (m[i].st == NEW) {
            start (i);
        } else if (m[i].st == WAIT) {
            if (m[i].reg) {
                tr (" event%d", i);
                if (write (m[i].fd[1], "x", 1) != 1)
                    BAD ("write");
            } else
                wake (i);
        }
    }
    check_states ();
    if (m[me].reg)
        hev_task_del_fd (hev_task_self (), m[me].fd[0]);
    tr (" %d:end", me);
    m[me].st = STOP;
    live--;
    if (below (3) == 0)
        hev_task_exit ();
}
int
main (int argc, char **argv)
{
    int k, i;
    wit_init (argc, argv);
    for (k = 0; k < 1500; k++) {
        if (hev_task_system_init ())
            FAIL ("init");
        io = k % 3 == 2;
        n = k % 40 == 38 ? 70 + below (MAX - 70) : 1 + below (10);
        started = live = 0;
        seq = 0;
        trace[0] = 0;
        in_kernel = 1;
        CTX ("%d tasks, %s, case %d", n, io ? "with descriptor events" : "no events", k);
        for (i = 0; i < n; i++) {
            memset (&m[i], 0, sizeof (m[i]));
            t[i] = hev_task_ref (hev_task_new (16384));
            m[i].next = m[i].prio = HEV_TASK_PRIORITY_DEFAULT;
            if (below (2)) {
                m[i].next = below (HEV_TASK_PRIORITY_MAX + 1);
                hev_task_set_priority (t[i], m[i].next);
            }
            m[i].steps = below (n > 20 ? 4 : 14);
            if (io && below (2)) {
                m[i].reg = 1;
                if (pipe2 (m[i].fd, O_NONBLOCK))
                    FAIL ("pipe");
            }
        }
        check_states ();
        start (0);
        for (i = 1; i < n; i++)
            if (below (3))
                start (i);
        alarm (10);
        in_kernel = 0;
        hev_task_system_run ();
        alarm (0);
        if (live)
            BAD ("run() returned with %d of %d tasks unfinished", live, started);
        check_states ();
        for (i = 0; i < n; i++) {
            hev_task_unref (t[i]);
            if (m[i].reg) {
                close (m[i].fd[0]);
                close (m[i].fd[1]);
            }
        }
        hev_task_system_fini ();
    }
    return wit_done ();
}
