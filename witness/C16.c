#include "wit.h"
#include <hev-circular-buffer.h>

/* reference: a queue of bytes */
static unsigned char q[1 << 16];
static size_t qh, qt;

static void
history (size_t cap, int ops)
{
    HevCircularBuffer *b = hev_circular_buffer_new (cap);
    unsigned refs = 1;
    unsigned char next = 1;
    int i, k, n;
    if (!b)
        return;
    qh = qt = 0;
    for (i = 0; i < ops; i++) {
        struct iovec iov[4];
        size_t use = qt - qh, tot = 0, pos = 0, m;
        CTX ("capacity %zu, operation %d, used %zu", cap, i, use);
        REQUIRE (hev_circular_buffer_get_max_size (b) == cap);
        REQUIRE (hev_circular_buffer_get_use_size (b) == use);
        n = hev_circular_buffer_reading (b, iov);
        REQUIRE (n >= 0 && n <= 2);
        for (k = 0; k < n; k++) {
            size_t j;
            REQUIRE (iov[k].iov_len > 0);
            tot += iov[k].iov_len;
            REQUIRE (tot <= use);
            for (j = 0; j < iov[k].iov_len; j++, pos++)
                if (((unsigned char *)iov[k].iov_base)[j] != q[qh + pos])
                    FAIL ("byte %zu of the queue differs", pos);
        }
        REQUIRE (tot == use);
        if (use && below (2)) {
            m = below (3) ? below (use + 1) : use;
            hev_circular_buffer_read_finish (b, m);
            qh += m;
        } else if (qt + cap < sizeof (q)) {
            n = hev_circular_buffer_writing (b, iov);
            REQUIRE (n >= 0 && n <= 2);
            for (tot = 0, k = 0; k < n; k++)
                tot += iov[k].iov_len;
            REQUIRE (tot == cap - use);
            m = below (3) ? below (tot + 1) : tot;
            for (pos = 0, k = 0; k < n; k++) {
                size_t j;
                for (j = 0; j < iov[k].iov_len && pos < m; j++, pos++)
                    q[qt + pos] = ((unsigned char *)iov[k].iov_base)[j] = next++;
            }
            REQUIRE (pos == m);
            hev_circular_buffer_write_finish (b, m);
            qt += m;
        }
        if (!below (8) && refs < 4) {
            REQUIRE (hev_circular_buffer_ref (b) == b);
            refs++;
        } else if (!below (8) && refs > 1) {
            hev_circular_buffer_unref (b);
            refs--;
        }
    }
    while (refs--)
        hev_circular_buffer_unref (b);
}

/* bring a large buffer into the given state and look at the segments only */
static void
state (size_t cap, size_t rp, size_t use)
{
    HevCircularBuffer *b;
    struct iovec r[4], w[4];
    size_t tr = 0, tw = 0;
    int n, m, k;
    CTX ("capacity %zu, read position %zu, used %zu", cap, rp, use);
    b = hev_circular_buffer_new (cap);
    if (!b)
        return;
    REQUIRE (hev_circular_buffer_reading (b, r) == 0);
    hev_circular_buffer_write_finish (b, rp);
    hev_circular_buffer_read_finish (b, rp);
    hev_circular_buffer_write_finish (b, use);
    REQUIRE (hev_circular_buffer_get_use_size (b) == use);
    REQUIRE (hev_circular_buffer_get_max_size (b) == cap);
    n = hev_circular_buffer_reading (b, r);
    m = hev_circular_buffer_writing (b, w);
    REQUIRE (n >= 0 && n <= 2 && m >= 0 && m <= 2);
    for (k = 0; k < n; k++)
        tr += r[k].iov_len;
    for (k = 0; k < m; k++)
        tw += w[k].iov_len;
    REQUIRE (tr == use);
    REQUIRE (tw == cap - use);
    if (n == 2)
        REQUIRE ((char *)r[0].iov_base + r[0].iov_len == (char *)r[1].iov_base + cap);
    if (m == 2)
        REQUIRE ((char *)w[0].iov_base + w[0].iov_len == (char *)w[1].iov_base + cap);
    if (n == 1 && m)
        REQUIRE ((char *)r[0].iov_base + use == (char *)w[0].iov_base ||
                 (char *)r[0].iov_base + use == (char *)w[0].iov_base + cap);
    hev_circular_buffer_unref (b);
}

int
main (int argc, char **argv)
{
    static const size_t caps[] = { 1, 2, 3, 4, 5, 7, 8, 16, 63, 64, 100 };
    uint64_t v;
    int i;
    wit_init (argc, argv);
    {
        size_t big[] = { SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - 31, SIZE_MAX - 27, SIZE_MAX / 2 + 1 };
        for (i = 0; i < 5; i++) {
            CTX ("new (%zu)", big[i]);
            REQUIRE (hev_circular_buffer_new (big[i]) == NULL);
        }
    }
    {
        uint64_t m, r, u;
        if (arg ("max_size", &m) && arg ("rp", &r) && arg ("use_size", &u) && m && r < m && u <= m && m < (1ull << 40))
            state (m, r, u);
        for (i = 0; i < 400; i++) {
            size_t cap = (1 + below (64)) << below (30);
            cap -= below (2) && cap > 1;
            state (cap, below (cap), below (cap + 1));
        }
    }
    if (arg ("max_size", &v) && v) {
        if (v > (1ull << 40)) {
            CTX ("new (%llu)", (unsigned long long)v);
            if (hev_circular_buffer_new (v))
                FAIL ("a block that size cannot exist");
        } else if (v < 4096) {
            for (i = 0; i < 50; i++)
                history (v, 40);
        }
    }
    for (i = 0; i < 3000; i++)
        history (caps[below (11)], 60);
    return wit_done ();
}
