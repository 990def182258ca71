/* pipes that become ready at chosen moments, early wakeups, and a counting poll(2) */
#include "wit.h"
#include <sys/syscall.h>
#include <hev-task.h>
#include <hev-task-system.h>
#include <hev-task-io-poll.h>

#define N 7
static int block, fail, on, asked, n, fd[N][2], target, delay, wakes, over, finished;
static struct pollfd *given;
static HevTask *waiter;

int
poll (struct pollfd *f, nfds_t k, int timeout)
{
    if (on) {
        asked++;
        if (timeout)
            FAIL ("the kernel is asked with timeout %d: every task of the thread waits", timeout);
        if (f != given || k != (nfds_t)n)
            FAIL ("the kernel is not asked about the caller's array");
        if (fail > 0 && asked >= fail) {
            fail = -1;
            errno = EINTR;
            return -1;
        }
        if (fail == -1)
            FAIL ("the kernel is asked again although it failed");
        if (asked > 40)
            FAIL ("the kernel is asked %d times: the call does not wait", asked);
    }
    return syscall (SYS_poll, f, k, timeout);
}
static uint64_t
ms (void)
{
    struct timespec t;
    clock_gettime (CLOCK_MONOTONIC, &t);
    return t.tv_sec * 1000ull + t.tv_nsec / 1000000;
}
static void
other (void *d)
{
    int i;
    hev_task_sleep (1);
    for (i = 0; i < wakes; i++) {
        if (finished)
            return;
        hev_task_wakeup (waiter);
        hev_task_yield (HEV_TASK_YIELD);
    }
    hev_task_sleep (delay);
    if (target >= 0 && !finished && write (fd[target][1], "x", 1) != 1)
        FAIL ("write");
    if (block && !finished) /* no task runs until the time is over */
        usleep (block * 1000);
    for (i = 0; i < 150 && !finished; i++)
        hev_task_sleep (2);
    if (!finished && target >= 0 && !over)
        FAIL ("descriptor %d is ready but the task is never woken", target);
}
static void
entry (void *d)
{
    struct pollfd p[N], q[N];
    int i, r, timeout = *(int *)d, early = below (3) == 0, pre = below (3) == 0, ready = 0;
    uint64_t t0, t1;
    for (i = 0; i < n; i++) {
        p[i].fd = fd[i][0];
        p[i].events = POLLIN;
        p[i].revents = 0;
        if (i != target && below (4) == 0)
            p[i].fd = -1;
        else if (pre && below (2))
            hev_task_add_fd (hev_task_self (), fd[i][0], below (2) ? POLLOUT : POLLIN);
    }
    if (early && target >= 0 && write (fd[target][1], "x", 1) == 1)
        ready = 1;
    memcpy (q, p, sizeof (q));
    given = p;
    asked = 0;
    t0 = ms ();
    on = 1;
    r = hev_task_io_poll (p, n, timeout);
    on = 0;
    t1 = ms ();
    finished = 1;
    if (fail) {
        if (fail == -1 && r != -1)
            FAIL ("returns %d although the kernel failed", r);
        if (fail == -1)
            return;
    }
    if (block && r == 0)
        FAIL ("descriptor %d is ready when the call returns and is not reported", target);
    if (timeout == 0) {
        if (asked != 1)
            FAIL ("the kernel is asked %d times with timeout 0", asked);
        if (r != ready)
            FAIL ("returns %d with timeout 0", r);
    }
    if (timeout < 0 && r == 0)
        FAIL ("returns 0 although it may wait for ever");
    if (r == 0 && t1 - t0 + 1 + wakes < (uint64_t)timeout)
        FAIL ("the time is over after %d of %d ms", (int)(t1 - t0), timeout);
    if (r == 1 && (target < 0 || !(p[target].revents & POLLIN)))
        FAIL ("a ready descriptor is reported that is not");
    if (r < 0 || r > 1)
        FAIL ("returns %d", r);
    if (timeout > 200 && r == 0 && target >= 0)
        FAIL ("descriptor %d is ready long before the time is over and is not reported", target);
    for (i = 0; i < n; i++) {
        if (p[i].fd != q[i].fd || p[i].events != q[i].events)
            FAIL ("the caller's request %d is changed", i);
        hev_task_del_fd (hev_task_self (), fd[i][0]);
    }
    on = 1;
    n = 1;
    given = p;
    p[0].fd = -1;
    p[0].events = 1 << 5;
    asked = 0;
    if ((r = hev_task_io_poll (p, 1, 0)) != syscall (SYS_poll, p, 1, 0) || asked != 1)
        FAIL ("returns %d for a descriptor that is not one", r);
    on = 0;
}

int
main (int argc, char **argv)
{
    int it, i, k, timeout;
    wit_init (argc, argv);
    alarm (100);
    for (it = 0; it < 120; it++) {
        HevTask *o;
        k = n = 1 + below (N);
        for (i = 0; i < n; i++)
            if (pipe2 (fd[i], O_NONBLOCK) < 0)
                return 0;
        target = below (n);
        delay = 1 + below (8);
        wakes = below (4);
        finished = over = 0;
        block = 0;
        fail = below (4) == 0 ? 1 + below (2) : 0;
        switch (it % 5) {
        case 4: timeout = delay + 10; over = 1; wakes = 0; fail = 0; block = 30; break;
        case 0: timeout = 0; if (below (2)) target = -1; break;
        case 1: timeout = -1 - (int)below (2) * 0x7fffffff; break;
        case 2: timeout = 220; break;
        default: timeout = 1 + below (15); over = 1; if (below (2)) target = -1;
        }
        CTX ("%d descriptors, number %d gets ready, timeout %d, %d early wakeups", n, target, timeout, wakes);
        if (hev_task_system_init () < 0)
            return 0;
        waiter = hev_task_new (-1);
        o = hev_task_new (-1);
        hev_task_ref (waiter);
        hev_task_run (waiter, entry, &timeout);
        hev_task_run (o, other, NULL);
        hev_task_system_run ();
        hev_task_unref (waiter);
        hev_task_system_fini ();
        for (i = 0; i < k; i++) {
            close (fd[i][0]);
            close (fd[i][1]);
        }
    }
    return wit_done ();
}
