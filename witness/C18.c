/* MSG_WAITALL transfers in random pieces against a byte stream */
#include "wio.h"

static unsigned char stream[4096], out[4096];
static size_t pos, end;
static int err_at_end, nfail, blk;

static ssize_t
piece (struct iovec *v, int n, int sending, int flags)
{
    size_t total = 0, k, i, m;
    int j;
    if (s_blocked_now)
        FAIL ("attempt without giving up the CPU first");
    if (s_stopped)
        FAIL ("attempt after the yielder asked to stop");
    if (flags & MSG_WAITALL)
        FAIL ("MSG_WAITALL passed to a non-blocking call");
    if (nfail)
        FAIL ("attempt after the end or an error");
    for (j = 0; j < n; j++)
        total += v[j].iov_len;
    if (blk && below (3) == 0) {
        s_blocked_now = 1;
        errno = EAGAIN;
        return -1;
    }
    if (pos == end) {
        nfail = 1;
        errno = EPIPE;
        return err_at_end ? -1 : 0;
    }
    k = 1 + below (below (2) ? 5 : 400);
    if (k > total)
        k = total;
    if (k > end - pos)
        k = end - pos;
    for (j = 0, i = 0; j < n && i < k; j++) {
        m = v[j].iov_len < k - i ? v[j].iov_len : k - i;
        if (sending)
            memcpy (out + pos + i, v[j].iov_base, m);
        else
            memcpy (v[j].iov_base, stream + pos + i, m);
        i += m;
    }
    pos += k;
    return k;
}
static struct msghdr *s_msg2;
static ssize_t
flat (const void *b, size_t n, int f, int sending)
{
    struct iovec v = { (void *)b, n };
    return piece (&v, 1, sending, f);
}
ssize_t recv (int fd, void *b, size_t n, int f) { return flat (b, n, f, 0); }
ssize_t send (int fd, const void *b, size_t n, int f) { return flat (b, n, f, 1); }
ssize_t recvfrom (int fd, void *b, size_t n, int f, struct sockaddr *a, socklen_t *l) { return flat (b, n, f, 0); }
ssize_t sendto (int fd, const void *b, size_t n, int f, const struct sockaddr *a, socklen_t l) { return flat (b, n, f, 1); }
ssize_t
recvmsg (int fd, struct msghdr *m, int f)
{
    ssize_t r = piece (m->msg_iov, m->msg_iovlen, 0, f);
    if (r >= 0) {
        m->msg_namelen = 3;
        m->msg_controllen = 4;
        m->msg_flags = 5;
    }
    return r;
}
ssize_t sendmsg (int fd, const struct msghdr *m, int f) { return piece (m->msg_iov, m->msg_iovlen, 1, f); }

static void
entry (void *data)
{
    static unsigned char mem[4096 + 64];
    struct iovec iov[8], keep[8];
    struct msghdr m, mk;
    int it;
    size_t i;
    for (i = 0; i < sizeof (stream); i++)
        stream[i] = 1 + i % 251;
    for (it = 0; it < 60000; it++) {
        int op = it % 6, sending = op & 1, n = 0, j;
        size_t len = below (2) ? below (12) : below (700), sum = 0, cut;
        ssize_t r, want;
        pos = nfail = 0;
        s_blocked_now = s_stopped = s_yields = 0;
        blk = below (2);
        s_stop_at = below (4) ? 0 : 1 + below (3);
        err_at_end = below (2);
        memset (mem, 0, sizeof (mem));
        memset (out, 0, sizeof (out));
        if (op >= 4) {
            n = below (7);
            for (j = 0; j < n; j++) {
                iov[j].iov_base = mem + sum + 1;
                iov[j].iov_len = below (3) ? below (9) : below (2) * below (150);
                sum += iov[j].iov_len;
            }
            len = sum;
        }
        end = below (2) ? 4000 : below (len + 2);
        if (sending)
            for (i = 0; i < len; i++)
                mem[1 + i] = stream[i];
        CTX ("operation %d, %zu bytes in %d vectors, stream ends at %zu", op, len, n, end);
        if (len == 0)
            continue;
        switch (op) {
        case 0: r = hev_task_io_socket_recv (FD, mem + 1, len, MSG_WAITALL, yielder, &s_on); break;
        case 1: r = hev_task_io_socket_send (FD, mem + 1, len, MSG_WAITALL, yielder, &s_on); break;
        case 2: r = hev_task_io_socket_recvfrom (FD, mem + 1, len, MSG_WAITALL, NULL, NULL, yielder, &s_on); break;
        case 3: r = hev_task_io_socket_sendto (FD, mem + 1, len, MSG_WAITALL, NULL, 0, yielder, &s_on); break;
        default:
            memset (&m, 0, sizeof (m));
            m.msg_iov = iov;
            m.msg_iovlen = n;
            m.msg_namelen = 16;
            m.msg_controllen = 24;
            mk = m;
            memcpy (keep, iov, sizeof (iov));
            if (op == 4) {
                r = hev_task_io_socket_recvmsg (FD, &m, MSG_WAITALL, yielder, &s_on);
                if (r >= 0 && (m.msg_namelen != 3 || m.msg_controllen != 4 || m.msg_flags != 5))
                    FAIL ("the kernel's address/control/flags results are not reported");
            } else {
                r = hev_task_io_socket_sendmsg (FD, &m, MSG_WAITALL, yielder, &s_on);
                if (memcmp (&m, &mk, sizeof (m)))
                    FAIL ("the caller's header is modified");
            }
            if (memcmp (keep, iov, sizeof (iov[0]) * n))
                FAIL ("the caller's vectors are modified");
        }
        want = pos ? (ssize_t)pos : err_at_end ? -1 : 0;
        if (s_stopped)
            want = -2;
        if (r != want)
            FAIL ("returns %zd, expected %zd (%zu bytes transferred)", r, want, pos);
        if (!s_stopped && pos < len && !nfail)
            FAIL ("returns %zd of %zu although the stream goes on", r, len);
        cut = pos;
        for (i = 0; i < cut; i++)
            if (sending ? out[i] != stream[i] : mem[1 + i] != stream[i])
                FAIL ("byte %zu of %zu is wrong", i, len);
        if (!sending && (mem[0] || mem[1 + cut]))
            FAIL ("bytes outside the transferred range changed");
    }
}

int
main (int argc, char **argv)
{
    wit_init (argc, argv);
    alarm (60);
    entry (NULL);
    return wit_done ();
}
