/* sleeping tasks on a virtual clock: the timer calls of the library are recorded and served here */
#include "wit.h"
#include <sys/epoll.h>
#include <sys/timerfd.h>
#include <hev-task.h>
#include <hev-task-system.h>

#define TFD 1000
#define MAX 12
typedef long long ll;
#define G 1000000000ll
static ll now, armed;
static int is_armed, still, virt;
static void *tdata;
static uint32_t tevents;
static struct { int sleeping, woken; ll t0, us; uint64_t ms; HevTask *t; int left, unit; } k[MAX];
static int n;

int
clock_gettime (clockid_t c, struct timespec *t)
{
    if (c != CLOCK_MONOTONIC)
        FAIL ("clock %d is read", (int)c);
    if (!still && below (2))
        now += below (300);
    t->tv_sec = now / G;
    t->tv_nsec = now % G;
    return 0;
}
int
timerfd_create (int c, int f)
{
    if (c != CLOCK_MONOTONIC)
        FAIL ("timer on clock %d", c);
    is_armed = 0;
    return TFD;
}
int
timerfd_settime (int fd, int f, const struct itimerspec *v, struct itimerspec *o)
{
    if (fd != TFD || f != TFD_TIMER_ABSTIME)
        FAIL ("timerfd_settime(%d, %d)", fd, f);
    if (v->it_value.tv_nsec < 0 || v->it_value.tv_nsec >= G || v->it_value.tv_sec < 0)
        FAIL ("the timer is armed with %lld s %lld ns", (ll)v->it_value.tv_sec, (ll)v->it_value.tv_nsec);
    armed = v->it_value.tv_sec * G + v->it_value.tv_nsec;
    is_armed = armed != 0;
    return 0;
}
int
epoll_ctl (int e, int op, int fd, struct epoll_event *ev)
{
    if (fd == TFD && ev) {
        tdata = ev->data.ptr;
        tevents = ev->events;
    }
    return 0;
}
int
epoll_wait (int e, struct epoll_event *ev, int m, int to)
{
    int i, first = -1;
    for (i = 0; i < n; i++)
        if (k[i].sleeping && !k[i].woken && (first < 0 || k[i].t0 + k[i].us * 1000 < k[first].t0 + k[first].us * 1000))
            first = i;
    if (to != 0 && first >= 0) {
        if (!is_armed)
            FAIL ("task %d sleeps but the timer is not armed", first);
        if (armed > k[first].t0 + k[first].us * 1000 + 100000)
            FAIL ("the timer is armed for %lld ns, task %d is due at %lld ns", armed, first, k[first].t0 + k[first].us * 1000);
    }
    if (to != 0 && !is_armed)
        FAIL ("waits for ever");
    if (is_armed && (to != 0 || armed <= now)) {
        if (armed > now)
            now = armed + (below (3) ? below (50) : below (3000000));
        is_armed = 0;
        ev->events = EPOLLIN;
        ev->data.ptr = tdata;
        return 1;
    }
    return 0;
}
static void
entry (void *d)
{
    int i = (intptr_t)d, w;
    unsigned r;
    ll el, left;
    while (k[i].left-- > 0) {
        k[i].unit = below (2) ? 1 : 1000;
        k[i].ms = below (4) ? below (5000) : below (2) ? below (4000000) : rnd () & 0xffffffff;
        if (k[i].unit == 1 && below (6) == 0)
            k[i].ms = 1000000 * (1 + below (3)); /* whole seconds */
        k[i].us = k[i].ms * k[i].unit;
        still = below (8) == 0;
        if (still) { /* expiry at a whole second */
            ll nx = (now / G + 1) * G - (k[i].us % 1000000) * 1000 % G;
            if (nx >= now && nx - now < G)
                now = nx;
        }
        k[i].t0 = now;
        k[i].woken = 0;
        k[i].sleeping = 1;
        r = k[i].unit == 1 ? hev_task_usleep (k[i].ms) : hev_task_sleep (k[i].ms);
        k[i].sleeping = 0;
        w = k[i].woken;
        still = 0;
        el = now - k[i].t0;
        left = k[i].us * 1000 - el;
        if (r == 0 && left >= k[i].unit * 1000ll)
            FAIL ("%s(%llu) returns 0 after %lld ns", k[i].unit == 1 ? "usleep" : "sleep", (unsigned long long)k[i].ms, el);
        if (r > k[i].ms)
            FAIL ("%s(%llu) returns %u", k[i].unit == 1 ? "usleep" : "sleep", (unsigned long long)k[i].ms, r);
        if (r && (ll)r * k[i].unit * 1000 > left + 3000)
            FAIL ("%s(%llu) returns %u after %lld ns", k[i].unit == 1 ? "usleep" : "sleep", (unsigned long long)k[i].ms, r, el);
        if (r && left - (ll)r * k[i].unit * 1000 > k[i].unit * 1000 + 3000)
            FAIL ("%s(%llu) returns %u after %lld ns", k[i].unit == 1 ? "usleep" : "sleep", (unsigned long long)k[i].ms, r, el);
        if (r && !w)
            FAIL ("%s(%llu) ends early although nobody woke the task", k[i].unit == 1 ? "usleep" : "sleep", (unsigned long long)k[i].ms);
        if (below (3) == 0) {
            int j = below (n);
            if (k[j].sleeping) {
                k[j].woken = 1;
                hev_task_wakeup (k[j].t);
            }
        }
        if (below (3) == 0) {
            now += below (2000000);
            hev_task_yield (HEV_TASK_YIELD);
        }
    }
}
int
main (int argc, char **argv)
{
    int c, i;
    wit_init (argc, argv);
    for (c = 0; c < 3000; c++) {
        now = (1 + below (100000)) * G + below (G);
        n = 1 + below (MAX);
        CTX ("%d sleeping tasks, case %d", n, c);
        if (hev_task_system_init ())
            FAIL ("init");
        for (i = 0; i < n; i++) {
            memset (&k[i], 0, sizeof (k[i]));
            k[i].left = 1 + below (6);
            k[i].t = hev_task_new (16384);
            hev_task_run (k[i].t, entry, (void *)(intptr_t)i);
        }
        alarm (10);
        hev_task_system_run ();
        alarm (0);
        hev_task_system_fini ();
    }
    return wit_done ();
}
