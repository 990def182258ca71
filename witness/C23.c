/* buffered stream over a layer with scripted answers: every byte compared with its position */
#include "wit.h"
#include <hev-task.h>
#include <hev-task-io.h>
#include <hev-task-system.h>
#include <hev-object.h>
#include <hev-task-cio.h>
#include <hev-task-cio-buffer.h>
#include "walloc.h"

static unsigned char
byte (uint64_t p)
{
    return p * 37 + (p >> 8) * 11 + 5;
}

typedef struct
{
    HevTaskCIO base;
    int gone;
} Lay;
static HevTaskCIOClass k;
static uint64_t in_pos, in_end, out_pos; /* bytes delivered by, and taken by, the lower stream */
static int l_res, l_err, l_asked, l_flushed, l_flush_res;

/* how much the lower stream moves: -1 error, 0, or up to n */
static ssize_t
amount (HevTaskCIO *c, size_t n)
{
    int r = below (8);
    l_asked++;
    if (r == 0 || r == 1) {
        c->err = l_err = r ? EAGAIN : EPIPE;
        return l_res = -1;
    }
    if (below (2))
        c->err = EBADF; /* left by an earlier call */
    if (r == 2)
        return l_res = n ? 1 : 0;
    if (r == 3)
        return l_res = n;
    return l_res = below (n + 1);
}
static ssize_t
l_readv (HevTaskCIO *c, const struct iovec *v, int n)
{
    size_t t = 0, i, j;
    ssize_t r;
    for (i = 0; i < (size_t)n; i++)
        t += v[i].iov_len;
    if (t > in_end - in_pos)
        t = in_end - in_pos;
    r = amount (c, t);
    if (r == 0 && t)
        r = l_res = 1; /* only the end of the stream reads as nothing */
    for (i = j = 0; r > 0 && j < (size_t)r; i++) {
        size_t x;
        for (x = 0; x < v[i].iov_len && j < (size_t)r; x++, j++)
            ((unsigned char *)v[i].iov_base)[x] = byte (in_pos++);
    }
    return r;
}
static ssize_t
l_writev (HevTaskCIO *c, const struct iovec *v, int n)
{
    size_t t = 0, i, j;
    ssize_t r;
    for (i = 0; i < (size_t)n; i++)
        t += v[i].iov_len;
    r = amount (c, t);
    for (i = j = 0; r > 0 && j < (size_t)r; i++) {
        size_t x;
        for (x = 0; x < v[i].iov_len && j < (size_t)r; x++, j++)
            if (((unsigned char *)v[i].iov_base)[x] != byte (out_pos++))
                FAIL ("byte %lu passed on is another one", (long)out_pos - 1);
    }
    return r;
}
static ssize_t
l_read (HevTaskCIO *c, void *b, size_t n)
{
    struct iovec v = { b, n };
    return l_readv (c, &v, 1);
}
static ssize_t
l_write (HevTaskCIO *c, const void *b, size_t n)
{
    struct iovec v = { (void *)b, n };
    return l_writev (c, &v, 1);
}
static long
l_ctrl (HevTaskCIO *c, int op, long l, void *p)
{
    if (op == HEV_TASK_CIO_CTRL_FLUSH) {
        l_flushed++;
        if (l_flush_res < 0)
            c->err = EIO;
        return l_flush_res;
    }
    return op == HEV_TASK_CIO_CTRL_GET_FD ? 55 + l : -1;
}
static void
l_destruct (HevObject *o)
{
    if (((Lay *)o)->gone++)
        FAIL ("lower layer destroyed twice");
}

static void
scenario (int n)
{
    static unsigned char data[4][4096];
    Lay low;
    HevTaskCIO *c;
    HevTaskCIOClass *q;
    size_t rs = below (5) ? 1 + below (below (2) ? 9 : 300) : 0, ws = below (5) ? 1 + below (below (2) ? 9 : 300) : 0;
    uint64_t rpos = 0, wpos = 0; /* bytes read from and accepted by the buffered stream */
    wa_install ();
    memset (&low, 0, sizeof (low));
    REQUIRE (hev_task_cio_construct (&low.base) == 0);
    if (!k.base.name) {
        memcpy (&k, HEV_TASK_CIO_TYPE, sizeof (k));
        k.base.destruct = l_destruct;
        k.read = l_read;
        k.write = l_write;
        k.readv = l_readv;
        k.writev = l_writev;
        k.ctrl = l_ctrl;
    }
    low.base.base.klass = &k.base;
    in_pos = out_pos = 0;
    in_end = below (3000);
    c = HEV_TASK_CIO (hev_task_cio_buffer_new (rs, ws));
    REQUIRE (c);
    REQUIRE (hev_task_cio_push (c, &low.base) == c);
    q = HEV_OBJECT_GET_CLASS (c);
    while (n--) {
        int op = below (7), m, i, j, vec;
        struct iovec v[4];
        size_t t = 0, held;
        ssize_t r, x;
        for (i = 0; i < 4; i++) {
            v[i].iov_base = data[i];
            v[i].iov_len = below (3) ? below (below (2) ? 8 : 700) : 0;
        }
        vec = op == 1 || op == 3;
        m = op > 3 ? 1 : vec ? 1 + below (4) : 1;
        for (i = 0; i < m; i++)
            t += v[i].iov_len;
        l_asked = l_res = l_flushed = 0;
        l_flush_res = -(int)below (2);
        c->err = 4711;
        CTX ("%s of %lu bytes in %d vectors (%lu %lu %lu %lu), buffers %lu %lu", op == 0 ? "read" : op == 1 ? "readv" : op == 2 ? "write" : op == 3 ? "writev" : op == 4 ? "peek" : op == 5 ? "peekv" : "flush",
             (long)t, m, (long)v[0].iov_len, (long)v[1].iov_len, (long)v[2].iov_len, (long)v[3].iov_len, (long)rs, (long)ws);
        switch (op) {
        case 0:
        case 1:
            held = in_pos - rpos;
            r = vec ? q->readv (c, v, m) : q->read (c, v[0].iov_base, v[0].iov_len);
            if (r > (ssize_t)t)
                FAIL ("returns %ld", (long)r);
            for (i = 0, x = 0; i < m && x < r; i++)
                for (j = 0; j < (int)v[i].iov_len && x < r; j++, x++)
                    if (data[i][j] != byte (rpos++))
                        FAIL ("byte %lu read is another one", (long)rpos - 1);
            if (rpos > in_pos)
                FAIL ("more bytes than the lower stream delivered");
            if (!rs && rpos != in_pos)
                FAIL ("bytes are held without a buffer");
            if (r <= 0 && t) {
                if (held)
                    FAIL ("returns %ld with %lu bytes buffered", (long)r, (long)held);
                if (!l_asked || l_res > 0)
                    FAIL ("returns %ld, the lower stream said %d", (long)r, l_res);
                if (r != l_res || (r < 0 && c->err != l_err))
                    FAIL ("returns %ld error %d, the lower stream said %d error %d", (long)r, c->err, l_res, l_err);
            }
            break;
        case 2:
        case 3:
            for (i = 0, x = 0; i < m; i++)
                for (j = 0; j < (int)v[i].iov_len; j++)
                    data[i][j] = byte (wpos + x++);
            r = vec ? q->writev (c, v, m) : q->write (c, v[0].iov_base, v[0].iov_len);
            if (r > (ssize_t)t)
                FAIL ("returns %ld", (long)r);
            if (r > 0)
                wpos += r;
            if (out_pos > wpos)
                FAIL ("bytes passed on that were not accepted (%ld)", (long)r);
            if (!ws && wpos != out_pos)
                FAIL ("bytes are held without a buffer");
            if (ws && r <= 0 && t) {
                if (r == 0 || !l_asked)
                    FAIL ("returns %ld, lower stream asked %d times", (long)r, l_asked);
                if (c->err != (l_res < 0 ? l_err : EAGAIN))
                    FAIL ("error %d, the lower stream said %d error %d", c->err, l_res, l_err);
            }
            break;
        case 4:
            r = hev_task_cio_buffer_peek (HEV_TASK_CIO_BUFFER (c), data[0], t);
            if (!rs) {
                REQUIRE (r == -1);
                break;
            }
            if (r < 0 || r > (ssize_t)t || r > (ssize_t)(in_pos - rpos))
                FAIL ("returns %ld", (long)r);
            if (!r && t && in_pos != rpos)
                FAIL ("shows nothing of %lu bytes", (long)(in_pos - rpos));
            for (j = 0; j < r; j++)
                if (data[0][j] != byte (rpos + j))
                    FAIL ("byte %lu shown is another one", (long)rpos + j);
            break;
        case 5:
            r = hev_task_cio_buffer_peekv (HEV_TASK_CIO_BUFFER (c), v);
            if (!rs) {
                REQUIRE (r == -1);
                break;
            }
            REQUIRE (r >= 0 && r <= 2);
            for (i = 0, x = 0; i < r; i++)
                for (j = 0; j < (int)v[i].iov_len; j++)
                    if (((unsigned char *)v[i].iov_base)[j] != byte (rpos + x++))
                        FAIL ("byte %lu shown is another one", (long)(rpos + x) - 1);
            if (x != (ssize_t)(in_pos - rpos))
                FAIL ("shows %ld of %lu bytes", (long)x, (long)(in_pos - rpos));
            break;
        case 6:
            r = q->ctrl (c, HEV_TASK_CIO_CTRL_FLUSH, 0, NULL);
            if (l_flushed > 1 || (l_flushed && wpos != out_pos))
                FAIL ("lower stream flushed %d times with %lu bytes held", l_flushed, (long)(wpos - out_pos));
            if (l_flushed && (r != l_flush_res || (r < 0 && c->err != EIO)))
                FAIL ("flush says %ld error %d, the lower one %d", (long)r, c->err, l_flush_res);
            if (!l_flushed && (r >= 0 || wpos == out_pos))
                FAIL ("flush says %ld with %lu bytes held, lower stream not flushed", (long)r, (long)(wpos - out_pos));
            if (!l_flushed && c->err != (l_res < 0 ? l_err : EAGAIN))
                FAIL ("error %d, the lower stream said %d error %d", c->err, l_res, l_err);
            break;
        }
    }
    CTX ("end of a buffered stream, buffers %lu %lu", (long)rs, (long)ws);
    REQUIRE (hev_task_cio_get_fd (c, 1) == 56);
    hev_object_unref (&c->base);
    REQUIRE (low.gone == 1);
    wa_remove ();
}

int
main (int argc, char **argv)
{
    int i;
    wit_init (argc, argv);
    alarm (60);
    for (i = 0; i < 4000; i++)
        scenario (40);
    return wit_done ();
}
