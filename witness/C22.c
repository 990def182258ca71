/* stacked streams: every operation through every arrangement of layers, scripted answers */
#include "wio.h"
#include <sys/un.h>
#include <netinet/in.h>
#include <hev-object.h>
#include <hev-task-cio.h>
#include <hev-task-cio-fd.h>
#include <hev-task-cio-null.h>
#include <hev-task-cio-socket.h>
#include "walloc.h"

static HevTask *self;
static int alive;

/* ---- script: what the serving layer or the kernel answers ---- */
static int k_on, k_op, k_fd[2];
static uint64_t k_arg[3];
static int k_alen, k_yielder;
static int closes[2], kfds;

static void
turn (const char *fn)
{
    if (s_blocked_now && !k_yielder)
        s_blocked_now = 0, s_yields++; /* the waker let us run again */
    if (s_blocked_now)
        FAIL ("%s: attempt without giving up the CPU first", fn);
    if (s_stopped)
        FAIL ("%s: attempt after the yielder asked to stop", fn);
    if (s_attempts > s_blocks)
        FAIL ("%s: attempt after the operation completed", fn);
}
static long
reply (int *err)
{
    if (s_attempts++ < s_blocks) {
        s_blocked_now = 1;
        *err = EAGAIN;
        return -1;
    }
    if (s_res < 0)
        *err = s_err;
    return s_res;
}
static const char *opn[] = { "read", "write", "readv", "writev", "read_dgram", "write_dgram", "readv_dgram", "writev_dgram", "ctrl" };

/* ---- a layer of our own ---- */
typedef struct
{
    HevTaskCIO base;
    int id, gone;
} Lay;
static HevTaskCIOClass lay_class;
static Lay *expect_layer;

static long
low (HevTaskCIO *c, int op, uint64_t a, uint64_t b, uint64_t d)
{
    long r;
    turn (opn[op]);
    if (c != (HevTaskCIO *)expect_layer)
        FAIL ("%s: served by another layer", opn[op]);
    if (op != k_op)
        FAIL ("%s of the next layer called for %s", opn[op], opn[k_op]);
    if (a != k_arg[0] || b != k_arg[1] || d != k_arg[2])
        FAIL ("%s: arguments changed on the way down", opn[op]);
    r = reply (&c->err);
    return r;
}
static ssize_t l0 (HevTaskCIO *c, void *a, size_t b) { return low (c, 0, (uint64_t)a, b, 0); }
static ssize_t l1 (HevTaskCIO *c, const void *a, size_t b) { return low (c, 1, (uint64_t)a, b, 0); }
static ssize_t l2 (HevTaskCIO *c, const struct iovec *a, int b) { return low (c, 2, (uint64_t)a, b, 0); }
static ssize_t l3 (HevTaskCIO *c, const struct iovec *a, int b) { return low (c, 3, (uint64_t)a, b, 0); }
static ssize_t l4 (HevTaskCIO *c, void *a, size_t b, void *d) { return low (c, 4, (uint64_t)a, b, (uint64_t)d); }
static ssize_t l5 (HevTaskCIO *c, const void *a, size_t b, const void *d) { return low (c, 5, (uint64_t)a, b, (uint64_t)d); }
static ssize_t l6 (HevTaskCIO *c, const struct iovec *a, int b, void *d) { return low (c, 6, (uint64_t)a, b, (uint64_t)d); }
static ssize_t l7 (HevTaskCIO *c, const struct iovec *a, int b, const void *d) { return low (c, 7, (uint64_t)a, b, (uint64_t)d); }
static long l8 (HevTaskCIO *c, int a, long b, void *d) { return low (c, 8, a, b, (uint64_t)d); }

static void
lay_destruct (HevObject *o)
{
    Lay *l = (Lay *)o;
    if (l->gone++)
        FAIL ("layer %d destroyed twice", l->id);
    HEV_TASK_CIO_TYPE->destruct (o);
}
/* a layer that implements nothing: the base class, with an observed destructor */
static HevTaskCIOClass plain_class;

static void
lay_init (Lay *l, int id, int plain)
{
    memset (l, 0, sizeof (*l));
    l->id = id;
    REQUIRE (hev_task_cio_construct (&l->base) == 0);
    if (!plain_class.base.name) {
        memcpy (&plain_class, HEV_TASK_CIO_TYPE, sizeof (plain_class));
        plain_class.base.destruct = lay_destruct;
        lay_class = plain_class;
        lay_class.read = l0;
        lay_class.write = l1;
        lay_class.readv = l2;
        lay_class.writev = l3;
        lay_class.read_dgram = l4;
        lay_class.write_dgram = l5;
        lay_class.readv_dgram = l6;
        lay_class.writev_dgram = l7;
        lay_class.ctrl = l8;
    }
    l->base.base.klass = plain ? &plain_class.base : &lay_class.base;
    REQUIRE (l->base.base.ref_count == 1);
}

/* ---- the kernel ---- */
static long
kern (const char *fn, int op, int fd, uint64_t a, uint64_t b, uint64_t c, uint64_t alen)
{
    long r;
    int e = 0;
    turn (fn);
    if (op != k_op)
        FAIL ("%s called for %s", fn, opn[k_op]);
    if (fd != k_fd[op & 1])
        FAIL ("%s on descriptor %d", fn, fd);
    if (a != k_arg[0] || b != k_arg[1] || c != k_arg[2])
        FAIL ("%s: the caller's arguments changed", fn);
    if (op >= 4 && c && alen != (uint64_t)k_alen)
        FAIL ("%s: address size %lu instead of %d", fn, (long)alen, k_alen);
    r = reply (&e);
    if (e)
        errno = e;
    return r;
}
#define KFD(f) (k_on && ((f) == k_fd[0] || (f) == k_fd[1] || k_on == 2))
ssize_t read (int f, void *b, size_t n) { return KFD (f) ? kern ("read", 0, f, (uint64_t)b, n, 0, 0) : syscall (SYS_read, f, b, n); }
ssize_t write (int f, const void *b, size_t n) { return KFD (f) ? kern ("write", 1, f, (uint64_t)b, n, 0, 0) : syscall (SYS_write, f, b, n); }
ssize_t readv (int f, const struct iovec *v, int n) { return KFD (f) ? kern ("readv", 2, f, (uint64_t)v, n, 0, 0) : syscall (SYS_readv, f, v, n); }
ssize_t writev (int f, const struct iovec *v, int n) { return KFD (f) ? kern ("writev", 3, f, (uint64_t)v, n, 0, 0) : syscall (SYS_writev, f, v, n); }
ssize_t
recvfrom (int f, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l)
{
    long r;
    if (!KFD (f))
        return syscall (SYS_recvfrom, f, b, n, fl, a, l);
    if (fl)
        FAIL ("recvfrom: flags %x", fl);
    r = kern ("recvfrom", k_op == 0 ? 0 : 4, f, (uint64_t)b, n, (uint64_t)a, l ? *l : 0);
    if (l && r >= 0)
        *l = 7;
    return r;
}
ssize_t
sendto (int f, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t l)
{
    if (!KFD (f))
        return syscall (SYS_sendto, f, b, n, fl, a, l);
    if (fl)
        FAIL ("sendto: flags %x", fl);
    return kern ("sendto", k_op == 1 ? 1 : 5, f, (uint64_t)b, n, (uint64_t)a, l);
}
ssize_t recv (int f, void *b, size_t n, int fl) { return recvfrom (f, b, n, fl, NULL, NULL); }
ssize_t send (int f, const void *b, size_t n, int fl) { return sendto (f, b, n, fl, NULL, 0); }
ssize_t
recvmsg (int f, struct msghdr *m, int fl)
{
    long r;
    if (!KFD (f))
        return syscall (SYS_recvmsg, f, m, fl);
    if (fl || m->msg_controllen)
        FAIL ("recvmsg: flags %x or control data", fl);
    r = kern ("recvmsg", k_op == 2 ? 2 : 6, f, (uint64_t)m->msg_iov, m->msg_iovlen, (uint64_t)m->msg_name, m->msg_namelen);
    if (r >= 0)
        m->msg_namelen = 7;
    return r;
}
ssize_t
sendmsg (int f, const struct msghdr *m, int fl)
{
    if (!KFD (f))
        return syscall (SYS_sendmsg, f, m, fl);
    if (fl || m->msg_controllen)
        FAIL ("sendmsg: flags %x or control data", fl);
    return kern ("sendmsg", k_op == 3 ? 3 : 7, f, (uint64_t)m->msg_iov, m->msg_iovlen, (uint64_t)m->msg_name, m->msg_namelen);
}
int
close (int f)
{
    if (k_on) {
        if (kfds > 0 && f == k_fd[0])
            closes[0]++;
        else if (kfds > 1 && f == k_fd[1])
            closes[1]++;
        else
            FAIL ("closes descriptor %d", f);
        return 0;
    }
    return syscall (SYS_close, f);
}

static void
waker (void *d)
{
    while (alive) {
        hev_task_wakeup (self);
        hev_task_yield (HEV_TASK_YIELD);
    }
}

static int
yld (HevTaskYieldType t, void *d)
{
    return yielder (t, d);
}

static struct iovec iov[3];

static long
run (HevTaskCIO *c, int op, uint64_t addr)
{
    HevTaskIOYielder y = k_yielder ? yld : NULL;
    void *d = &s_on, *b = (void *)k_arg[0];
    switch (op) {
    case 0: return hev_task_cio_read (c, b, k_arg[1], y, d);
    case 1: return hev_task_cio_write (c, b, k_arg[1], y, d);
    case 2: return hev_task_cio_readv (c, b, k_arg[1], y, d);
    case 3: return hev_task_cio_writev (c, b, k_arg[1], y, d);
    case 4: return hev_task_cio_read_dgram (c, b, k_arg[1], (void *)addr, y, d);
    case 5: return hev_task_cio_write_dgram (c, b, k_arg[1], (void *)addr, y, d);
    case 6: return hev_task_cio_readv_dgram (c, b, k_arg[1], (void *)addr, y, d);
    case 7: return hev_task_cio_writev_dgram (c, b, k_arg[1], (void *)addr, y, d);
    }
    return hev_task_cio_flush (c, y, d);
}

static void
script (int op)
{
    static const int errs[] = { EIO, EPIPE, ECONNREFUSED, EINTR, ENOTCONN, EINVAL };
    int r = below (4);
    s_attempts = s_stopped = s_blocked_now = s_yields = 0;
    s_blocks = below (3);
    s_err = errs[below (6)];
    s_res = r == 0 ? -1 : r == 1 ? 0 : op == 8 ? below (1 << 20) : r == 2 ? below (5000) : below (1ul << 40);
    k_yielder = below (3) != 0;
    s_stop_at = k_yielder && s_blocks && !below (3) ? 1 + below (s_blocks) : 0;
    k_op = op;
    k_arg[2] = 0;
    if (op == 8) {
        k_arg[0] = HEV_TASK_CIO_CTRL_FLUSH;
        k_arg[1] = 0;
        return;
    }
    if (op & 2) {
        k_arg[0] = (uint64_t)iov;
        k_arg[1] = below (4);
    } else {
        k_arg[0] = (uint64_t)iov + below (9);
        k_arg[1] = below (2) ? below (100) : below (1ul << 40);
    }
    if (op >= 4)
        k_arg[2] = below (5) ? (uint64_t)&iov[1] : 0;
}

/* the operation is served by a layer below or the kernel */
static void
served (HevTaskCIO *c, int op)
{
    long r;
    c->err = below (2) ? EAGAIN : 0;
    r = run (c, op, k_arg[2]);
    if (s_stopped) {
        if (r != -2)
            FAIL ("returns %ld after the yielder asked to stop", r);
        return;
    }
    if (s_blocked_now)
        FAIL ("returns %ld while the operation would block", r);
    if (s_attempts != s_blocks + 1)
        FAIL ("%d attempts instead of %d", s_attempts, s_blocks + 1);
    if (r != s_res)
        FAIL ("returns %ld instead of %ld", r, s_res);
    if (r < 0 && c->err != s_err)
        FAIL ("error %d instead of %d", c->err, s_err);
    if (s_yields != s_blocks)
        FAIL ("gave up the CPU %d times instead of %d", s_yields, s_blocks);
}

static void
refused (HevTaskCIO *c, int op)
{
    long r;
    s_blocks = 0;
    k_yielder = 1;
    s_stop_at = 0;
    s_blocked_now = 0;
    c->err = below (2) ? EAGAIN : 0;
    r = run (c, op, k_arg[2]);
    if (r != -1)
        FAIL ("returns %ld with no layer left", r);
    if (s_attempts)
        FAIL ("a layer was asked");
}

static void
stacks (int n)
{
    Lay l[4];
    int i, op, depth, served_at, popped, d;
    for (i = 0; i < n; i++) {
        int k, refs = 1 + below (3);
        depth = 1 + below (4);
        served_at = below (depth + 1); /* == depth: no layer serves */
        for (k = 0; k < depth; k++)
            lay_init (&l[k], k, k != served_at);
        CTX ("stack of %d layers, layer %d serves, %d references", depth, served_at, refs);
        for (k = depth - 1; k > 0; k--) {
            REQUIRE (hev_task_cio_push (&l[k - 1].base, &l[k].base) == &l[k - 1].base);
            REQUIRE (l[k].base.base.ref_count == 1 && l[k - 1].base.base.ref_count == 1);
        }
        expect_layer = &l[served_at];
        for (op = 0; op < 9; op++) {
            CTX ("%s, stack of %d layers, layer %d serves", opn[op], depth, served_at);
            script (op);
            if (served_at < depth)
                served (&l[0].base, op);
            else
                refused (&l[0].base, op);
        }
        /* descriptor queries */
        d = below (3);
        CTX ("get_fd %d, stack of %d layers, layer %d serves", d, depth, served_at);
        script (8);
        s_blocks = 0;
        k_yielder = 1;
        k_arg[0] = HEV_TASK_CIO_CTRL_GET_FD;
        k_arg[1] = d;
        k = hev_task_cio_get_fd (&l[0].base, d);
        if (k != (served_at < depth ? s_res : -1))
            FAIL ("get_fd says %d", k);
        CTX ("end of a stack of %d layers, %d references", depth, refs);
        for (k = 1; k < refs; k++)
            hev_object_ref (&l[0].base.base);
        popped = below (2);
        if (popped) {
            HevTaskCIO *x = hev_task_cio_pop (&l[0].base);
            if (x != (depth > 1 ? &l[1].base : NULL))
                FAIL ("pop returns another layer");
            refs--;
            if (l[0].gone != (refs == 0))
                FAIL ("pop with %d references left: destroyed %d times", refs, l[0].gone);
            for (k = 1; k < depth; k++)
                if (l[k].gone)
                    FAIL ("pop destroys layer %d", k);
            if (depth > 1)
                hev_object_unref (&x->base);
            for (k = 1; k < depth; k++)
                if (!l[k].gone)
                    FAIL ("layer %d is never destroyed", k);
        }
        for (; refs > 0; refs--) {
            if (l[0].gone)
                FAIL ("destroyed with %d references left", refs);
            hev_object_unref (&l[0].base.base);
        }
        for (k = 0; k < depth; k++)
            if (l[k].gone != 1)
                FAIL ("layer %d destroyed %d times", k, l[k].gone);
    }
}

static void
streams (int n)
{
    static const int fam[] = { AF_UNIX, AF_INET, AF_INET6 };
    static const int len[] = { sizeof (struct sockaddr_un), sizeof (struct sockaddr_in), sizeof (struct sockaddr_in6) };
    int i, j, op, kind, k;
    for (i = 0; i < n; i++) {
        HevTaskCIO *c;
        HevTaskCIO *x;
        Lay below_;
        int stacked, pop, two = below (2);
        kind = below (3);
        j = below (3);
        k_fd[0] = below (4) ? below (3) ? 700 + below (50) : 0 : -1 - (int)below (2);
        k_fd[1] = kind == 1 ? k_fd[0] : below (4) ? below (3) ? 800 + below (50) : 0 : -1 - (int)below (2);
        if (kind == 0 && k_fd[0] == k_fd[1])
            continue;
        kfds = kind == 0 ? 2 : kind == 1 ? 1 : 0;
        closes[0] = closes[1] = 0;
        k_alen = len[j];
        wa_install ();
        CTX ("%s stream, descriptors %d %d, family %d", kind == 0 ? "descriptor" : kind == 1 ? "socket" : "null", k_fd[0], k_fd[1], fam[j]);
        c = kind == 0 ? HEV_TASK_CIO (hev_task_cio_fd_new (k_fd[0], k_fd[1])) :
            kind == 1 ? HEV_TASK_CIO (hev_task_cio_socket_new (fam[j], k_fd[0])) : HEV_TASK_CIO (hev_task_cio_null_new ());
        REQUIRE (c && c->base.ref_count == 1 && !c->next);
        stacked = below (3) != 0;
        lay_init (&below_, 1, 0);
        expect_layer = &below_;
        if (stacked)
            REQUIRE (hev_task_cio_push (c, &below_.base) == c);
        for (op = 0; op < 8 * (1 + two); op++) {
            int o = op % 8;
            CTX ("%s on a %s stream, descriptors %d %d, family %d%s", opn[o], kind == 0 ? "descriptor" : kind == 1 ? "socket" : "null", k_fd[0], k_fd[1], fam[j],
                 stacked ? ", stacked" : "");
            script (o);
            if (kind == 2) {
                long r, w = 0;
                s_blocks = -1; /* nobody is asked */
                c->err = below (2) ? EAGAIN : 0;
                k_on = 2;
                if (o & 2)
                    for (k = 0; k < 3; k++)
                        iov[k].iov_len = below (1ul << 40);
                r = run (c, o, k_arg[2]);
                k_on = 0;
                if (o & 1) {
                    if (o & 2)
                        for (k = 0; k < (int)k_arg[1]; k++)
                            w += iov[k].iov_len;
                    else
                        w = k_arg[1];
                }
                if (r != w)
                    FAIL ("returns %ld instead of %ld", r, w);
                continue;
            }
            if (kind == 0 && o >= 4) {
                if (stacked)
                    served (c, o);
                else
                    refused (c, o);
                continue;
            }
            k_on = 2;
            served (c, o);
            k_on = 0;
        }
        CTX ("flush of a stream");
        k_on = 2;
        c->err = EAGAIN;
        k_yielder = 1;
        s_blocked_now = 0;
        s_blocks = -1;
        REQUIRE (hev_task_cio_flush (c, yld, &s_on) == 0);
        CTX ("descriptors of a stream %d %d", k_fd[0], k_fd[1]);
        for (k = 0; k < 3; k++) {
            int f = hev_task_cio_get_fd (c, k);
            if (f != (kind == 2 ? -1 : k_fd[k ? 1 : 0]))
                FAIL ("get_fd %d says %d", k, f);
        }
        CTX ("end of a %s stream, descriptors %d %d%s", kind == 0 ? "descriptor" : kind == 1 ? "socket" : "null", k_fd[0], k_fd[1], stacked ? ", stacked" : "");
        hev_object_ref (&c->base);
        hev_object_unref (&c->base);
        REQUIRE (!closes[0] && !closes[1] && !below_.gone);
        k_on = 1;
        pop = below (2);
        if (pop) {
            x = hev_task_cio_pop (c);
            if (x != (stacked ? &below_.base : NULL))
                FAIL ("pop returns another layer");
        } else {
            hev_object_unref (&c->base);
        }
        k_on = 0;
        for (k = 0; k < kfds; k++)
            if (closes[k] != (k_fd[k] >= 0))
                FAIL ("descriptor %d closed %d times", k_fd[k], closes[k]);
        if (below_.gone != (stacked && !pop))
            FAIL ("the layer below destroyed %d times", below_.gone);
        wa_remove ();
    }
}

static void
entry (void *d)
{
    stacks (3000);
    streams (3000);
    alive = 0;
}

int
main (int argc, char **argv)
{
    HevTask *t;
    wit_init (argc, argv);
    alarm (60);
    hev_task_system_init ();
    alive = 1;
    self = hev_task_new (-1);
    hev_task_run (self, entry, NULL);
    t = hev_task_new (-1);
    hev_task_set_priority (t, 1);
    hev_task_run (t, waker, NULL);
    hev_task_system_run ();
    hev_task_system_fini ();
    return wit_done ();
}
