/* random tasks on channels against a model: one reader and one writer per end */
#include "wit.h"
#include <sys/resource.h>
#include <hev-task.h>
#include <hev-task-system.h>
#include <hev-task-channel.h>
#include <hev-task-channel-select.h>

#define MAXM 40
#define BIG 300
struct dir { /* messages written at one end, read at the other */
    int k, stop, wrote, taken, unread_gone, rgone, late;
    size_t len[MAXM];
    unsigned char tag[MAXM];
};
static HevTaskChannel *end[2];
static struct dir d[2]; /* d[i]: written at end i */
static HevTask *task[4], *ctl;
static int cap, live, inop[4], parked[4], granted[4], left[2], gone[2], sent[2];
static unsigned msize;
static char trace[300];

static void
tr (const char *f, ...)
{
    va_list a;
    size_t l = strlen (trace);
    if (l > 250) {
        memmove (trace, trace + 80, l - 80 + 1);
        l -= 80;
    }
    va_start (a, f);
    vsnprintf (trace + l, sizeof (trace) - l, f, a);
    va_end (a);
}
#define BAD(...)                                    \
    do {                                            \
        size_t l = strlen (wit_ctx);                \
        snprintf (wit_ctx + l, sizeof (wit_ctx) - l, "; last:%s", trace); \
        FAIL (__VA_ARGS__);                         \
    } while (0)

static void
some (void)
{
    int k = below (4);
    if (k == 3)
        k = below (6);
    while (k--)
        hev_task_yield (HEV_TASK_YIELD);
}

static void
finish (int e)
{
    if (--left[e])
        return;
    tr (" destroy%d", e);
    gone[e] = 1;
    d[!e].unread_gone = sent[!e] - d[!e].taken;
    hev_task_channel_destroy (end[e]);
}

/* wait for a wakeup only the controlling task gives */
static void
park (int me)
{
    if (below (2))
        return;
    parked[me] = 1;
    granted[me] = 0;
    hev_task_yield (HEV_TASK_WAITIO);
    if (!granted[me])
        BAD ("task %d, which does not wait on a channel any more, is woken by it", me);
    parked[me] = 0;
}

static void
writer (void *p)
{
    int me = (intptr_t)p, e = me & 1, i;
    struct dir *x = &d[e];
    unsigned char *b = malloc (BIG + 1);
    for (i = 0; i < x->k; i++) {
        size_t n = x->len[i], want = n, j;
        ssize_t r;
        int was = gone[!e];
        unsigned char *bb = b + below (2);
        some ();
        was = gone[!e];
        for (j = 0; j < n; j++)
            bb[j] = x->tag[i] + j * 7;
        if (cap && want > msize)
            want = msize;
        if (!gone[!e])
            sent[e]++;
        tr (" w%d(%zu)", e, n);
        inop[me] = 1;
        r = hev_task_channel_write (end[e], bb, n);
        inop[me] = 0;
        tr ("=%zd", r);
        for (j = 0; j < n; j++)
            if (bb[j] != (unsigned char)(x->tag[i] + j * 7))
                BAD ("write of %zu bytes changes the writer's buffer", n);
        if (r < 0) {
            if (r != -1 || !gone[!e])
                BAD ("write at end %d returns %zd although the peer is there", e, r);
            break;
        }
        if (was)
            BAD ("write at end %d returns %zd although the peer was destroyed before", e, r);
        if (r != (ssize_t)want)
            BAD ("write of %zu bytes returns %zd, message size %u, %d buffers", n, r, msize, cap);
        x->wrote = i + 1;
        if (!gone[!e] && x->wrote - x->taken > cap)
            BAD ("write returns with %d messages unread, only %d buffers", x->wrote - x->taken, cap);
        if (gone[!e] && x->unread_gone > cap)
            BAD ("write returns %zd although the peer was destroyed with %d messages unread, %d buffers", r, x->unread_gone, cap);
    }
    finish (e);
    park (me);
    free (b);
    live--;
    if (!live)
        hev_task_wakeup (ctl);
}

static void
reader (void *p)
{
    int me = (intptr_t)p, e = me & 1, i;
    struct dir *x = &d[!e];
    unsigned char *b = malloc (BIG * 2);
    for (i = 0; i < x->stop; i++) {
        size_t n = below (4) ? BIG : below (BIG), want, j;
        ssize_t r;
        some ();
        memset (b, 0xa5, BIG * 2);
        tr (" r%d(%zu)", e, n);
        inop[me] = 1;
        r = hev_task_channel_read (end[e], b, n);
        inop[me] = 0;
        tr ("=%zd", r);
        if (r < 0) {
            if (r != -1 || !gone[!e])
                BAD ("read at end %d returns %zd although the peer is there", e, r);
            if (i < x->wrote)
                BAD ("read at end %d fails although %d of %d written messages are unread", e, x->wrote - i, x->wrote);
            for (j = 0; j < BIG * 2; j++)
                if (b[j] != 0xa5)
                    BAD ("failing read changes the buffer");
            break;
        }
        if (i >= sent[!e])
            BAD ("read at end %d returns %zd, but only %d messages were sent", e, r, sent[!e]);
        want = x->len[i];
        if (cap && want > msize)
            want = msize;
        if (want > n)
            want = n;
        if (r != (ssize_t)want)
            BAD ("message %d has %zu bytes, message size %u, buffer %zu, but read returns %zd", i, x->len[i], msize, n, r);
        for (j = 0; j < BIG * 2; j++)
            if (b[j] != (j < want ? (unsigned char)(x->tag[i] + j * 7) : 0xa5))
                BAD ("message %d of %zu bytes, read with a buffer of %zu: byte %zu is wrong", i, x->len[i], n, j);
        x->taken = i + 1;
    }
    x->rgone = 1;
    finish (e);
    park (me);
    free (b);
    live--;
    if (!live)
        hev_task_wakeup (ctl);
}

/* wakes waiting tasks for no reason: a wait must survive it */
static void
control (void *p)
{
    int noise = (intptr_t)p, idle = 0;
    while (live) {
        int k = below (4), j, busy = 0;
        if (noise && inop[k] && !below (3))
            hev_task_wakeup (task[k]);
        for (j = 0; j < 4; j++)
            if (!parked[j] || !granted[j])
                busy |= !parked[j];
        /* parked tasks go on at random, or when all others are through */
        for (j = 0; j < 4; j++)
            if (parked[j] && !granted[j] && (!busy || !below (12))) {
                granted[j] = 1;
                hev_task_wakeup (task[j]);
            }
        if (++idle > 200000)
            BAD ("tasks wait for ever: writers %d %d, readers %d %d; messages sent %d %d, taken %d %d, %d buffers", inop[0], inop[1], inop[2], inop[3], sent[0], sent[1], d[0].taken, d[1].taken, cap);
        hev_task_yield (HEV_TASK_YIELD);
    }
}

static void
round_ (int r)
{
    int i, j, early = below (3), noise = below (2);
    static const size_t sz[] = { 0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16 };
    cap = below (3) ? below (5) : (int)below (12);
    if (!below (3))
        cap = 0;
    msize = cap ? (below (2) ? sz[1 + below (10)] : 1 + below (BIG)) : 0;
    trace[0] = 0;
    memset (d, 0, sizeof (d));
    for (i = 0; i < 2; i++) {
        left[i] = 2;
        gone[i] = sent[i] = 0;
        d[i].k = below (4) ? below (MAXM) : below (3);
        d[i].stop = d[i].k + !below (2);
        for (j = 0; j < MAXM; j++) {
            d[i].len[j] = below (2) ? sz[below (11)] : below (BIG);
            d[i].tag[j] = rnd ();
        }
    }
    if (early < 2)
        d[early].stop = below (d[early].k + 1);
    if (d[0].stop > d[0].k && d[1].stop > d[1].k)
        d[1].stop = d[1].k;
    CTX ("round %d: %d buffers of %u bytes, %d and %d messages, %d and %d read%s", r, cap, msize, d[0].k, d[1].k, d[0].stop, d[1].stop, noise ? ", spurious wakeups" : "");
    if (hev_task_channel_new_with_buffers (&end[0], &end[1], msize, cap))
        FAIL ("no channel");
    live = 4;
    memset (inop, 0, sizeof (inop));
    memset (parked, 0, sizeof (parked));
    for (i = 0; i < 4; i++) {
        task[i] = hev_task_ref (hev_task_new (-1));
        hev_task_run (task[i], i < 2 ? writer : reader, (void *)(intptr_t)i);
    }
    ctl = hev_task_new (-1);
    alarm (3);
    hev_task_run (ctl, control, (void *)(intptr_t)noise);
    hev_task_system_run ();
    alarm (0);
    for (i = 0; i < 4; i++)
        hev_task_unref (task[i]);
}

static void
huge_ (void *p)
{
    static const unsigned t[][2] = { { 0x40000000, 3 }, { 0x80000000u, 1 }, { 0x10000000, 15 }, { 16, 0xffffffffu }, { 0xffffffffu, 0xfffffffeu }, { 0x20000001, 7 }, { 0, 0xffffffffu } };
    unsigned i, j, k;
    static char b[50000];
    for (i = 0; i < sizeof (t) / sizeof (t[0]); i++) {
        HevTaskChannel *c[2] = { NULL, NULL };
        int r;
        CTX ("new_with_buffers (%u, %u)", t[i][0], t[i][1]);
        r = hev_task_channel_new_with_buffers (&c[0], &c[1], t[i][0], t[i][1]);
        if (r) {
            if (r != -1)
                FAIL ("failure is %d", r);
            continue;
        }
        for (j = 0; j < t[i][1] && j < 15; j++) {
            memset (b, j + 1, sizeof (b));
            k = t[i][0] < sizeof (b) ? t[i][0] : sizeof (b);
            if (hev_task_channel_write (c[0], b, k) != (ssize_t)k)
                FAIL ("write");
        }
        for (j = 0; j < t[i][1] && j < 15; j++) {
            unsigned char q[50000];
            unsigned n;
            k = t[i][0] < sizeof (b) ? t[i][0] : sizeof (b);
            if (hev_task_channel_read (c[1], q, sizeof (q)) != (ssize_t)k)
                FAIL ("message %u has the wrong length", j);
            for (n = 0; n < k; n++)
                if (q[n] != (unsigned char)(j + 1))
                    FAIL ("byte %u of message %u is %u: there is no room for it", n, j, q[n]);
        }
        hev_task_channel_destroy (c[0]);
        hev_task_channel_destroy (c[1]);
    }
}
static void
huge (void)
{
    HevTask *t = hev_task_new (1 << 20);
    struct rlimit l = { 10l << 30, 10l << 30 };
    setrlimit (RLIMIT_AS, &l);
    alarm (20);
    hev_task_run (t, huge_, NULL);
    hev_task_system_run ();
    alarm (0);
}

/* the peer makes room and is destroyed before the blocked writer runs */
static HevTaskChannel *gc[2];
static int gres;
static void
gw (void *p)
{
    int i;
    for (i = 0; i <= cap + 1; i++)
        gres = hev_task_channel_write (gc[0], "x", 1);
}
static void
gr (void *p)
{
    char c;
    int i, n = 1 + below (cap + 1);
    hev_task_yield (HEV_TASK_YIELD);
    hev_task_yield (HEV_TASK_YIELD);
    for (i = 0; i < n; i++)
        if (hev_task_channel_read (gc[1], &c, 1) != 1 || c != 'x')
            FAIL ("read");
    hev_task_channel_destroy (gc[1]);
}
static void
gone_with_room (void)
{
    HevTask *a = hev_task_new (-1), *b = hev_task_new (-1);
    cap = below (5);
    CTX ("%d buffers, the reader makes room and is destroyed before the blocked writer goes on", cap);
    if (hev_task_channel_new_with_buffers (&gc[0], &gc[1], 1, cap))
        FAIL ("no channel");
    alarm (3);
    hev_task_run (a, gw, NULL);
    hev_task_run (b, gr, NULL);
    hev_task_system_run ();
    alarm (0);
    if (gres != -1)
        FAIL ("the write to the destroyed end returns %d", gres);
    hev_task_channel_destroy (gc[0]);
}

/* ---- select */
#define NP 5
static struct { HevTaskChannel *e[2]; int cap, in[2], out[2], wgone, added; } q[NP];
static int np, sel_done;
static HevTaskChannelSelect *sel;

static int
rready (int i)
{
    return q[i].added && q[i].in[0] > q[i].out[0];
}
static int
wready (int i)
{
    return q[i].added && !q[i].wgone && q[i].in[1] - q[i].out[1] < q[i].cap;
}
static int
any (int w)
{
    int i, n = 0;
    for (i = 0; i < np; i++)
        n += w ? wready (i) : rready (i);
    return n;
}
static int
added (void)
{
    int i, n = 0;
    for (i = 0; i < np; i++)
        n += q[i].added;
    return n;
}
/* worker of pair i: writes q.e[1] -> e[0] and reads what e[0] sends */
static void
worker (void *p)
{
    int i = (intptr_t)p;
    unsigned v;
    while (!sel_done) {
        int k = below (4);
        while (k--)
            hev_task_yield (HEV_TASK_YIELD);
        if (sel_done)
            break;
        if (!below (8)) {
            hev_task_sleep (1 + below (2));
            continue;
        }
        if (below (2)) {
            if (q[i].cap ? q[i].in[0] - q[i].out[0] < q[i].cap : 1) {
                v = q[i].in[0]++;
                if (hev_task_channel_write (q[i].e[1], &v, 4) != 4)
                    break;
            }
        } else if (q[i].in[1] > q[i].out[1]) {
            unsigned w;
            v = q[i].out[1]++;
            if (hev_task_channel_read (q[i].e[1], &w, 4) != 4 || w != v)
                BAD ("pair %d: wrong message", i);
        }
    }
    hev_task_channel_destroy (q[i].e[1]);
    q[i].wgone = 1;
}
static void
selector (void *p)
{
    int n = 60 + below (60), i, j;
    unsigned v;
    for (j = 0; j < n; j++) {
        int w = below (2), to = below (3) == 0 ? -1 : below (8) ? (int)below (3) : 40, k, yes;
        struct timespec t0, t1;
        HevTaskChannel *c;
        alarm (3);
        if (!below (3)) {
            i = below (np);
            if (q[i].added) {
                tr (" del%d", i);
                hev_task_channel_select_del (sel, q[i].e[0]);
            } else {
                tr (" add%d", i);
                hev_task_channel_select_add (sel, q[i].e[0]);
            }
            q[i].added = !q[i].added;
        }
        if (!below (6))
            hev_task_sleep (1);
        for (i = k = 0; i < np; i++)
            k += q[i].added && (q[i].cap || !w);
        if (w && to < 0 && !k && added ())
            to = 1;
        yes = any (w);
        tr (" s%c(%d)", w ? 'w' : 'r', to);
        clock_gettime (CLOCK_MONOTONIC, &t0);
        c = w ? hev_task_channel_select_write (sel, to) : hev_task_channel_select_read (sel, to);
        clock_gettime (CLOCK_MONOTONIC, &t1);
        if (!c) {
            tr ("=0");
            if (!added ())
                continue;
            if (to < 0)
                BAD ("select without a timeout returns nothing, %d channels added", added ());
            if (to == 40 && (t1.tv_sec - t0.tv_sec) * 1000 + (t1.tv_nsec - t0.tv_nsec) / 1000000 < 10)
                BAD ("select with a timeout of %d ms returns nothing too early", to);
            if (any (w) || yes)
                BAD ("select for %s returns nothing although %d channels are ready", w ? "writing" : "reading", any (w));
            continue;
        }
        for (i = 0; i < np; i++)
            if (q[i].e[0] == c)
                break;
        tr ("=%d", i);
        if (i == np || !(w ? wready (i) : rready (i)))
            BAD ("select for %s returns channel %d, which is %s", w ? "writing" : "reading", i, i < np && q[i].added ? "not ready" : "not in the selector");
        /* drain: everything ready must come up */
        for (k = below (3) ? 1 : 1000; k-- && c;) {
            for (i = 0; i < np; i++)
                if (q[i].e[0] == c)
                    break;
            if (i == np || !(w ? wready (i) : rready (i)))
                BAD ("select for %s returns channel %d, which is not ready", w ? "writing" : "reading", i);
            if (w) {
                v = q[i].in[1]++;
                if (hev_task_channel_write (c, &v, 4) != 4)
                    BAD ("write");
            } else {
                unsigned y = 0;
                v = q[i].out[0]++;
                if (hev_task_channel_read (c, &y, 4) != 4 || y != v)
                    BAD ("pair %d: wrong message", i);
            }
            if (k) {
                c = w ? hev_task_channel_select_write (sel, 0) : hev_task_channel_select_read (sel, 0);
                if (!c && any (w))
                    BAD ("select for %s finds nothing although %d channels are ready", w ? "writing" : "reading", any (w));
            }
        }
    }
    sel_done = 1;
    for (i = 0; i < np; i++) {
        unsigned y;
        while (hev_task_channel_read (q[i].e[0], &y, 4) >= 0)
            ;
        if (q[i].added)
            hev_task_channel_select_del (sel, q[i].e[0]);
        hev_task_channel_destroy (q[i].e[0]);
    }
    hev_task_channel_select_destroy (sel);
}
static void
sround (int r)
{
    int i;
    np = 1 + below (NP);
    trace[0] = 0;
    sel_done = 0;
    memset (q, 0, sizeof (q));
    CTX ("select round %d: %d channels", r, np);
    sel = hev_task_channel_select_new ();
    if (!sel)
        FAIL ("no selector");
    for (i = 0; i < np; i++) {
        size_t l = strlen (wit_ctx);
        q[i].cap = below (4) ? 1 + below (4) : 0;
        snprintf (wit_ctx + l, sizeof (wit_ctx) - l, ", %d", q[i].cap);
        if (hev_task_channel_new_with_buffers (&q[i].e[0], &q[i].e[1], 4, q[i].cap))
            FAIL ("no channel");
    }
    alarm (3);
    hev_task_run (hev_task_new (-1), selector, NULL);
    for (i = 0; i < np; i++)
        hev_task_run (hev_task_new (-1), worker, (void *)(intptr_t)i);
    hev_task_system_run ();
    alarm (0);
}

static void
hang (int s)
{
    printf ("FAILED [%s]: tasks wait for ever (writers in write %d %d, readers in read %d %d); last:%s\n", wit_ctx, inop[0], inop[1], inop[2], inop[3], trace);
    fflush (stdout);
    _exit (1);
}
static int
chan_main (int argc, char **argv, int what)
{
    int r;
    wit_init (argc, argv);
    signal (SIGALRM, hang);
    if (hev_task_system_init ())
        return 2;
    if (what == 9)
        huge ();
    if (what == 11)
        for (r = 0; r < 60; r++)
            sround (r);
    else
        for (r = 0; r < 700; r++) {
            round_ (r);
            if (what == 10 && r < 40)
                gone_with_room ();
        }
    hev_task_system_fini ();
    return wit_done ();
}
