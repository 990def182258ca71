/* wrappers against scripted kernel answers */
#include "wio.h"

#define U (uint64_t)
#define S(fn, n, a, b, c, d, e, f, real) \
    if (s_on && (int)(a) == FD)          \
        return answer (fn, n, U (a), U (b), U (c), U (d), U (e), U (f)); \
    return real
ssize_t read (int fd, void *b, size_t n) { S ("read", 3, fd, b, n, 0, 0, 0, syscall (SYS_read, fd, b, n)); }
ssize_t write (int fd, const void *b, size_t n) { S ("write", 3, fd, b, n, 0, 0, 0, syscall (SYS_write, fd, b, n)); }
ssize_t readv (int fd, const struct iovec *b, int n) { S ("readv", 3, fd, b, n, 0, 0, 0, syscall (SYS_readv, fd, b, n)); }
ssize_t writev (int fd, const struct iovec *b, int n) { S ("writev", 3, fd, b, n, 0, 0, 0, syscall (SYS_writev, fd, b, n)); }
ssize_t recv (int fd, void *b, size_t n, int f) { S ("recv", 4, fd, b, n, f, 0, 0, -1); }
ssize_t send (int fd, const void *b, size_t n, int f) { S ("send", 4, fd, b, n, f, 0, 0, -1); }
ssize_t recvfrom (int fd, void *b, size_t n, int f, struct sockaddr *a, socklen_t *l) { S ("recvfrom", 6, fd, b, n, f, a, l, -1); }
ssize_t sendto (int fd, const void *b, size_t n, int f, const struct sockaddr *a, socklen_t l) { S ("sendto", 6, fd, b, n, f, a, l, -1); }
int connect (int fd, const struct sockaddr *a, socklen_t l) { S ("connect", 3, fd, a, l, 0, 0, 0, -1); }
int accept (int fd, struct sockaddr *a, socklen_t *l) { S ("accept", 3, fd, a, l, 0, 0, 0, -1); }
int ioctl (int fd, unsigned long r, ...) { return 0; }
static int
same (const struct msghdr *m)
{
    size_t i;
    if (m->msg_name != s_msg->msg_name || m->msg_control != s_msg->msg_control || m->msg_iovlen != s_niov)
        return 0;
    if (m->msg_namelen != 16 || m->msg_controllen != 24)
        return 0;
    for (i = 0; i < m->msg_iovlen; i++)
        if (m->msg_iov[i].iov_base != s_iov[i].iov_base || m->msg_iov[i].iov_len != s_iov[i].iov_len)
            return 0;
    return 1;
}
ssize_t
recvmsg (int fd, struct msghdr *m, int f)
{
    ssize_t r;
    if (!same (m))
        FAIL ("recvmsg: header differs from the caller's");
    r = answer ("recvmsg", 3, fd, s_arg[1], f, 0, 0, 0);
    if (r >= 0) {
        m->msg_namelen = 5;
        m->msg_controllen = 6;
        m->msg_flags = 7;
    }
    return r;
}
ssize_t
sendmsg (int fd, const struct msghdr *m, int f)
{
    if (!same (m))
        FAIL ("sendmsg: header differs from the caller's");
    return answer ("sendmsg", 3, fd, s_arg[1], f, 0, 0, 0);
}

static const char *names[] = { "read", "write", "readv", "writev", "recv", "send", "recvfrom", "sendto", "connect", "accept", "recvmsg", "sendmsg" };
static HevTask *self;
static int alive;
static void
waker (void *d)
{
    while (alive) {
        if (hev_task_get_state (self) == HEV_TASK_WAITING) {
            s_blocked_now = 0;
            s_yields++;
            hev_task_wakeup (self);
        }
        hev_task_yield (HEV_TASK_YIELD);
    }
}

static void
entry (void *data)
{
    static char buf[64];
    struct iovec iov[40];
    struct msghdr m;
    int it;
    for (it = 0; it < 30000; it++) {
        int op = it % 12, own = it / 12 % 2, i;
        HevTaskIOYielder y = own ? NULL : yielder;
        void *yd = &s_on;
        long r, want;
        int fl = below (2) ? 0x40 : 0;
        memset (s_arg, 0, sizeof (s_arg));
        s_blocks = below (5);
        s_attempts = s_blocked_now = s_stopped = s_yields = 0;
        s_stop_at = own ? 0 : below (3) ? 0 : 1 + below (4);
        s_res = below (3) ? (long)below (100) : -1;
        if (op == 9 && s_res >= 0)
            s_res = 500;
        if (op == 8 && s_res > 0)
            s_res = 0;
        s_err = below (2) ? EPIPE : op == 8 ? EISCONN : op == 9 ? ECONNABORTED : EINTR;
        s_again = op == 8 ? (below (2) ? EINPROGRESS : EALREADY) : EAGAIN;
        CTX ("%s: %d would-block answers, then result %ld errno %d; yielder %s, stops at %d", names[op], s_blocks, s_res, s_res < 0 ? s_err : 0, y ? "given" : "none", s_stop_at);
        s_arg[0] = FD;
        s_arg[1] = U buf;
        s_arg[2] = below (1000);
        s_arg[3] = fl;
        s_arg[4] = 0x1234500;
        s_arg[5] = 0x5678;
        s_on = 1;
        errno = 0;
        switch (op) {
        case 0: r = hev_task_io_read (FD, buf, s_arg[2], y, yd); break;
        case 1: r = hev_task_io_write (FD, buf, s_arg[2], y, yd); break;
        case 2: r = hev_task_io_readv (FD, (void *)buf, s_arg[2], y, yd); break;
        case 3: r = hev_task_io_writev (FD, (void *)buf, s_arg[2], y, yd); break;
        case 4: r = hev_task_io_socket_recv (FD, buf, s_arg[2], fl, y, yd); break;
        case 5: r = hev_task_io_socket_send (FD, buf, s_arg[2], fl, y, yd); break;
        case 6: r = hev_task_io_socket_recvfrom (FD, buf, s_arg[2], fl, (void *)s_arg[4], (void *)s_arg[5], y, yd); break;
        case 7: r = hev_task_io_socket_sendto (FD, buf, s_arg[2], fl, (void *)s_arg[4], s_arg[5], y, yd); break;
        case 8: r = hev_task_io_socket_connect (FD, (void *)buf, s_arg[2], y, yd); break;
        case 9: s_arg[2] = 0x999900; r = hev_task_io_socket_accept (FD, (void *)buf, (void *)s_arg[2], y, yd); break;
        default:
            memset (&m, 0, sizeof (m));
            s_niov = below (4);
            for (i = 0; i < s_niov; i++) {
                iov[i].iov_base = buf + i;
                iov[i].iov_len = below (3) * 100;
            }
            s_iov = iov;
            s_msg = &m;
            m.msg_name = buf + 40;
            m.msg_namelen = 16;
            m.msg_control = buf + 50;
            m.msg_controllen = 24;
            m.msg_iov = iov;
            m.msg_iovlen = s_niov;
            s_arg[2] = fl;
            if (op == 10) {
                r = hev_task_io_socket_recvmsg (FD, &m, fl, y, yd);
                if (r >= 0 && (m.msg_namelen != 5 || m.msg_controllen != 6 || m.msg_flags != 7))
                    FAIL ("the kernel's address/control/flags results are not reported");
            } else {
                r = hev_task_io_socket_sendmsg (FD, &m, fl, y, yd);
                if (m.msg_namelen != 16 || m.msg_controllen != 24 || m.msg_flags)
                    FAIL ("the caller's header is modified");
            }
            if (m.msg_iov != iov || m.msg_iovlen != s_niov)
                FAIL ("the caller's vectors are modified");
        }
        s_on = 0;
        want = s_res;
        if (op == 8 && s_res < 0 && s_err == EISCONN)
            want = 0;
        if (s_stopped) {
            if (r != -2)
                FAIL ("returns %ld after the yielder asked to stop", r);
            continue;
        }
        if (r != want)
            FAIL ("returns %ld, the kernel said %ld", r, s_res);
        if (want < 0 && errno != s_err)
            FAIL ("errno is %d, the kernel said %d", errno, s_err);
        if (s_attempts != s_blocks + 1)
            FAIL ("%d attempts instead of %d", s_attempts, s_blocks + 1);
        if (s_yields != s_blocks)
            FAIL ("gave up the CPU %d times instead of %d", s_yields, s_blocks);
    }
    alive = 0;
}

int
main (int argc, char **argv)
{
    HevTask *t;
    wit_init (argc, argv);
    alarm (60);
    hev_task_system_init ();
    alive = 1;
    self = hev_task_new (-1);
    hev_task_run (self, entry, NULL);
    t = hev_task_new (-1);
    hev_task_set_priority (t, 1);
    hev_task_run (t, waker, NULL);
    hev_task_system_run ();
    hev_task_system_fini ();
    return wit_done ();
}
