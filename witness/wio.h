/* system calls with scripted answers; everything else goes to the kernel */
#ifndef WIO_H
#define WIO_H
#include "wit.h"
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <hev-task.h>
#include <hev-task-system.h>
#include <hev-task-io.h>
#include <hev-task-io-socket.h>
#include <hev-task-io-pipe.h>

#define FD 777
static int s_on, s_blocks, s_attempts, s_err, s_blocked_now, s_stopped, s_stop_at, s_yields, s_again;
static long s_res;
static uint64_t s_arg[6];
static int s_narg;
static struct iovec *s_iov;
static int s_niov;
static struct msghdr *s_msg;

static long
answer (const char *fn, int n, uint64_t a, uint64_t b, uint64_t c, uint64_t d, uint64_t e, uint64_t f)
{
    uint64_t v[6] = { a, b, c, d, e, f };
    int i;
    if (s_blocked_now)
        FAIL ("%s: attempt without giving up the CPU first", fn);
    if (s_stopped)
        FAIL ("%s: attempt after the yielder asked to stop", fn);
    for (i = 0; i < n; i++)
        if (v[i] != s_arg[i])
            FAIL ("%s: argument %d is %llx instead of %llx", fn, i, (long long)v[i], (long long)s_arg[i]);
    if (s_attempts > s_blocks)
        FAIL ("%s: attempt after the operation completed", fn);
    if (s_attempts++ < s_blocks) {
        s_blocked_now = 1;
        errno = s_again;
        return -1;
    }
    if (s_res < 0)
        errno = s_err;
    return s_res;
}

static int
yielder (HevTaskYieldType t, void *d)
{
    if (t != HEV_TASK_WAITIO)
        FAIL ("yielder called with type %d", t);
    if (d != (void *)&s_on)
        FAIL ("yielder called with foreign data");
    if (!s_blocked_now)
        FAIL ("gives up the CPU although the attempt did not block");
    s_blocked_now = 0;
    s_yields++;
    errno = EBADF;
    if (s_stop_at && s_yields == s_stop_at) {
        s_stopped = 1;
        return 1 + below (3) * 7;
    }
    return 0;
}
#endif
