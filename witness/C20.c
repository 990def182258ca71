/* splice between pipes and sockets: everything written comes out, nothing is left behind */
#include "wit.h"
#include <dirent.h>
#include <sys/resource.h>
#include <hev-task.h>
#include <hev-task-io.h>
#include <hev-task-system.h>

#define MAXB 400000
static unsigned char *data[2];
static size_t len[2], got[2], limit[2];
static int src[2], dst[2], sfd[4], slow[2], stopat, yields, stopped, ended, sunk, sharedfd;

static int
nfds (void)
{
    int n = 0;
    DIR *d = opendir ("/proc/self/fd");
    while (readdir (d))
        n++;
    closedir (d);
    return n;
}
static int
yielder (HevTaskYieldType t, void *p)
{
    if (p != &yields)
        FAIL ("the yielder gets other data");
    if (stopped)
        FAIL ("goes on after the yielder asked to stop");
    if (stopat && ++yields >= stopat)
        return stopped = 1;
    hev_task_yield (t);
    return 0;
}
static void
feeder (void *p)
{
    int i = (intptr_t)p;
    size_t o = 0;
    hev_task_add_fd (hev_task_self (), src[i], POLLOUT);
    while (o < len[i]) {
        size_t n = 1 + below (slow[i] ? 3000 : 70000);
        ssize_t r;
        if (n > len[i] - o)
            n = len[i] - o;
        r = write (src[i], data[i] + o, n);
        if (r > 0)
            o += r;
        else if (r < 0 && errno == EAGAIN && !ended)
            hev_task_yield (HEV_TASK_WAITIO);
        else
            break;
        if (!below (4))
            hev_task_yield (HEV_TASK_YIELD);
        if (slow[i] && !below (20))
            hev_task_sleep (1);
    }
    if (below (2))
        hev_task_sleep (below (3));
    hev_task_del_fd (hev_task_self (), src[i]);
    if (sharedfd)
        shutdown (src[i], SHUT_WR);
    else
        close (src[i]);
}
static void
sink (void *p)
{
    int i = (intptr_t)p;
    static unsigned char b[2][70000];
    hev_task_add_fd (hev_task_self (), dst[i], POLLIN);
    while (got[i] < limit[i]) {
        ssize_t r = read (dst[i], b[i], 1 + below (slow[!i] ? 3000 : 70000));
        if (r < 0 && errno == EAGAIN) {
            hev_task_yield (HEV_TASK_WAITIO);
            continue;
        }
        if (r <= 0)
            break;
        if (got[i] + r > len[i] || memcmp (b[i], data[i] + got[i], r))
            FAIL ("direction %d: bytes from %zu on differ from those written", i, got[i]);
        got[i] += r;
        if (!below (6))
            hev_task_yield (HEV_TASK_YIELD);
        if (!below (60))
            hev_task_sleep (1);
    }
    hev_task_del_fd (hev_task_self (), dst[i]);
    close (dst[i]);
}
static void
splicer (void *p)
{
    int i, before, use = (intptr_t)p;
    for (i = 0; i < 4; i++)
        if (i < 2 || sfd[i] != sfd[i - 2])
            hev_task_add_fd (hev_task_self (), sfd[i], sharedfd ? POLLIN | POLLOUT : i < 2 ? POLLIN : POLLOUT);
    before = nfds ();
    /* sfd: a_i b_i b_o a_o by direction: data[0] a_i -> b_o, data[1] b_i -> a_o */
    hev_task_io_splice (sfd[0], sfd[3], sfd[1], sfd[2], 1 + below (20000), use ? yielder : NULL, use ? &yields : NULL);
    ended = 1;
    (void)before;
    for (i = 0; i < 4; i++)
        if (sfd[i] >= 0 && (i < 2 || (sfd[i] != sfd[0] && sfd[i] != sfd[1]))) {
            hev_task_del_fd (hev_task_self (), sfd[i]);
            close (sfd[i]);
        }
}
static void
round_ (int r)
{
    int i, a, v[2], n0 = nfds (), use = below (2);
    HevTask *t;
    sharedfd = !below (5);
    stopat = use && !below (3) ? 1 + below (40) : 0;
    yields = stopped = ended = 0;
    for (i = 0; i < 2; i++) {
        len[i] = below (3) ? below (MAXB) : below (20);
        limit[i] = len[i] + 1;
        got[i] = 0;
        slow[i] = below (2);
    }
    if (!below (4))
        limit[below (2)] = below (50000);
    CTX ("round %d: %zu and %zu bytes, sinks take %zu and %zu%s%s", r, len[0], len[1], limit[0], limit[1], stopat ? ", yielder stops" : "", sharedfd ? ", sockets" : "");
    if (sharedfd) {
        for (i = 0; i < 2; i++) {
            if (socketpair (AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, v))
                _exit (2);
            src[i] = v[0];
            sfd[i] = v[1];
        }
        sfd[2] = sfd[1]; /* b_o */
        sfd[3] = sfd[0]; /* a_o */
        dst[0] = dup (src[1]);
        dst[1] = dup (src[0]);
    } else {
        for (i = 0; i < 4; i++) {
            if (pipe2 (v, O_NONBLOCK))
                _exit (2);
            if (i < 2)
                src[i] = v[1], sfd[i] = v[0];
            else
                dst[i - 2] = v[0], sfd[i] = v[1];
        }
    }
    alarm (10);
    for (i = 0; i < 2; i++) {
        hev_task_run (hev_task_new (-1), feeder, (void *)(intptr_t)i);
        hev_task_run (hev_task_new (-1), sink, (void *)(intptr_t)i);
    }
    t = hev_task_new (-1);
    hev_task_run (t, splicer, (void *)(intptr_t)use);
    hev_task_system_run ();
    alarm (0);
    if (sharedfd) {
        close (src[0]);
        close (src[1]);
    }
    a = nfds ();
    if (a != n0)
        FAIL ("%d descriptors before, %d after", n0, a);
    for (i = 0; i < 2; i++)
        if (!sharedfd && !stopped && limit[i] > len[i] && got[i] != len[i])
            FAIL ("direction %d: %zu of %zu bytes come out", i, got[i], len[i]);
    for (i = 0; i < 2; i++)
        if (sharedfd && !stopped && limit[0] > len[0] && limit[1] > len[1] && !got[0] != !len[0] && got[1] != len[1])
            FAIL ("neither direction is complete: %zu of %zu, %zu of %zu bytes come out", got[0], len[0], got[1], len[1]);
}
static void
hang (int s)
{
    printf ("FAILED [%s]: hangs with %zu of %zu and %zu of %zu bytes through\n", wit_ctx, got[0], len[0], got[1], len[1]);
    fflush (stdout);
    _exit (1);
}
/* descriptors run out while the call sets itself up */
static int few;
static void
lacking (void *p)
{
    int v[4], a, k = 0, hole[200];
    struct rlimit l, l0;
    getrlimit (RLIMIT_NOFILE, &l0);
    l = l0;
    l.rlim_cur = 64;
    setrlimit (RLIMIT_NOFILE, &l);
    if (pipe2 (v, O_NONBLOCK) || pipe2 (v + 2, O_NONBLOCK))
        _exit (2);
    while ((hole[k] = dup (0)) >= 0)
        k++;
    for (a = 0; a < few; a++)
        close (hole[--k]);
    a = 0;
    hev_task_io_splice (v[0], v[1], v[2], v[3], 1000, yielder, &yields);
    for (; (hole[k] = dup (0)) >= 0; a++)
        k++;
    if (a != few)
        FAIL ("%d descriptors were free before the call, %d after", few, a);
    while (k)
        close (hole[--k]);
    for (a = 0; a < 4; a++)
        close (v[a]);
    setrlimit (RLIMIT_NOFILE, &l0);
}
int
main (int argc, char **argv)
{
    int r, i;
    size_t k;
    wit_init (argc, argv);
    signal (SIGALRM, hang);
    for (i = 0; i < 2; i++) {
        data[i] = malloc (MAXB);
        for (k = 0; k < MAXB; k++)
            data[i][k] = rnd ();
    }
    if (hev_task_system_init ())
        return 2;
    for (r = 0; r < 120; r++)
        round_ (r);
    for (few = 0; few < 7; few++) {
        CTX ("%d descriptors available", few);
        stopat = 1;
        yields = stopped = 0;
        alarm (10);
        hev_task_run (hev_task_new (-1), lacking, NULL);
        hev_task_system_run ();
        alarm (0);
    }
    hev_task_system_fini ();
    return wit_done ();
}
