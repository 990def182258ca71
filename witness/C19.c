/* descriptors really made by the kernel; FIONBIO fails on demand */
#include "wio.h"
#include <sys/stat.h>
#include <fcntl.h>

static int calls, fail_at, sys_fail, closed[16], nclosed;
static char dir[] = "/tmp/dv-wit-XXXXXX";

int
ioctl (int fd, unsigned long r, ...)
{
    va_list ap;
    void *p;
    va_start (ap, r);
    p = va_arg (ap, void *);
    va_end (ap);
    if (s_on && r == FIONBIO && ++calls == fail_at) {
        errno = EPERM;
        return -1;
    }
    return syscall (SYS_ioctl, fd, r, p);
}

static int
nopen (void)
{
    int i, n = 0;
    for (i = 3; i < 64; i++)
        n += fcntl (i, F_GETFD) >= 0;
    return n;
}
#define NB(fd) (fcntl ((fd), F_GETFL) & O_NONBLOCK)

int
main (int argc, char **argv)
{
    int it;
    char path[64];
    wit_init (argc, argv);
    alarm (60);
    if (!mkdtemp (dir))
        return 0;
    snprintf (path, sizeof (path), "%s/f", dir);
    umask (0);
    for (it = 0; it < 2000; it++) {
        int op = it % 9, n0, r, v[2] = { -7, -7 }, mine = 0, ls = -1, cs = -1, base, made = 1;
        struct stat sb;
        struct sockaddr_storage ss;
        socklen_t sl = sizeof (ss);
        unlink (path);
        fail_at = below (3);
        sys_fail = below (4) == 0;
        calls = 0;
        base = open ("/dev/null", O_RDWR);
        if (op == 8) {
            struct sockaddr_in { short f; unsigned short p; unsigned a; char z[8]; } sa = { AF_INET, 0, 0x0100007f };
            ls = socket (AF_INET, SOCK_STREAM, 0);
            if (ls < 0 || bind (ls, (void *)&sa, 16) || listen (ls, 4) || getsockname (ls, (void *)&ss, &sl))
                op = 0;
            else {
                cs = socket (AF_INET, SOCK_STREAM, 0);
                connect (cs, (void *)&ss, sl);
            }
        }
        n0 = nopen ();
        CTX ("operation %d, FIONBIO failing at %d, system call %s", op, fail_at, sys_fail ? "failing" : "working");
        s_on = 1;
        switch (op) {
        case 0: r = hev_task_io_open (sys_fail ? "/nonexistent/x" : path, O_CREAT | O_RDWR, 0640); break;
        case 1: r = hev_task_io_creat (sys_fail ? "/nonexistent/x" : path, 0640); break;
        case 2: r = hev_task_io_openat (AT_FDCWD, sys_fail ? "/nonexistent/x" : path, O_CREAT | O_RDWR, 0640); break;
        case 3: r = hev_task_io_dup (sys_fail ? 900 : base); break;
        case 4: r = hev_task_io_dup2 (sys_fail ? 900 : base, 40); break;
        case 5: r = hev_task_io_socket_socket (sys_fail ? 999 : AF_UNIX, SOCK_STREAM, 0); break;
        case 6: r = hev_task_io_pipe_pipe (v); made = 2; sys_fail = 0; break;
        case 7: r = hev_task_io_socket_socketpair (sys_fail ? 999 : AF_UNIX, SOCK_STREAM, 0, v); made = 2; break;
        case 8: r = hev_task_io_socket_accept (ls, NULL, NULL, yielder, &s_on); sys_fail = 0; break;
        }
        s_on = 0;
        if (r >= 0) {
            if (sys_fail)
                FAIL ("returns %d although the system call failed", r);
            if (nopen () != n0 + made)
                FAIL ("%d descriptors open instead of %d", nopen () - n0, made);
            if (made == 1 ? !NB (r) : !NB (v[0]) || !NB (v[1]))
                FAIL ("a returned descriptor is in blocking mode");
            if (made == 2 && r != 0)
                FAIL ("returns %d", r);
            if (op <= 2 && (fstat (r, &sb) || (sb.st_mode & 0777) != 0640))
                FAIL ("file made with mode %o", sb.st_mode & 0777);
            if (op == 4 && r != 40)
                FAIL ("dup2 returns %d", r);
            if (op <= 2 && (fcntl (r, F_GETFL) & O_ACCMODE) != (op == 1 ? O_WRONLY : O_RDWR))
                FAIL ("opened with other flags");
            if (fail_at && calls >= fail_at)
                FAIL ("succeeds although a descriptor could not be prepared");
            if (made == 1)
                close (r);
            else {
                close (v[0]);
                close (v[1]);
            }
        } else {
            if (!sys_fail && (!fail_at || calls < fail_at))
                FAIL ("fails with %d for no reason", r);
            if (nopen () != n0)
                FAIL ("fails with %d and leaves %d descriptor(s) open", r, nopen () - n0);
        }
        close (base);
        if (ls >= 0)
            close (ls);
        if (cs >= 0)
            close (cs);
    }
    unlink (path);
    rmdir (dir);
    return wit_done ();
}
