/* every step of starting the task system fails in turn; what is left is compared with before */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <dirent.h>
#include <pthread.h>
#include "wit.h"
#include "mem/base/hev-memory-allocator.h"
#include <hev-task.h>
#include <hev-task-system.h>
#include <hev-task-dns.h>

static int armed, left, hit;
static long blocks;
extern void *__libc_malloc (size_t), *__libc_calloc (size_t, size_t), __libc_free (void *);
static int
fails (void)
{
    if (!armed)
        return 0;
    if (left-- == 0) {
        hit = 1;
        return 1;
    }
    return 0;
}
void *
malloc (size_t n)
{
    if (armed) {
        if (fails ())
            return NULL;
        blocks++;
    }
    return __libc_malloc (n);
}
void
free (void *p)
{
    if (armed && p)
        blocks--;
    __libc_free (p);
}
#define REAL(n, ...) ((typeof (&n))dlsym (RTLD_NEXT, #n)) (__VA_ARGS__)
int epoll_create (int);
int epoll_create1 (int);
int timerfd_create (int, int);
int
epoll_create (int n)
{
    return fails () ? (errno = EMFILE, -1) : REAL (epoll_create, n);
}
int
epoll_create1 (int n)
{
    return fails () ? (errno = EMFILE, -1) : REAL (epoll_create1, n);
}
int
timerfd_create (int c, int f)
{
    return fails () ? (errno = EMFILE, -1) : REAL (timerfd_create, c, f);
}
int
fcntl (int fd, int op, ...)
{
    va_list a;
    long x;
    va_start (a, op);
    x = va_arg (a, long);
    va_end (a);
    return fails () ? (errno = EINVAL, -1) : REAL (fcntl, fd, op, x);
}
struct epoll_event;
int epoll_ctl (int e, int o, int f, struct epoll_event *v);
int
epoll_ctl (int e, int o, int f, struct epoll_event *v)
{
    return fails () ? (errno = ENOMEM, -1) : REAL (epoll_ctl, e, o, f, v);
}
int
pthread_setspecific (pthread_key_t k, const void *v)
{
    return v && armed > 1 && fails () ? ENOMEM : REAL (pthread_setspecific, k, v);
}
static int sigs;
int
sigaltstack (const stack_t *s, stack_t *o)
{
    return o && fails () ? (errno = EPERM, -1) : REAL (sigaltstack, s, o);
}
int
sigaction (int n, const struct sigaction *a, struct sigaction *o)
{
    return a && o && fails () ? (errno = EINVAL, -1) : REAL (sigaction, n, a, o);
}

static int
fds (void)
{
    int i, n = 0;
    for (i = 0; i < 64; i++)
        n += REAL (fcntl, i, F_GETFD) >= 0;
    return n;
}
static void *u_alloc (HevMemoryAllocator *a, size_t n) { return malloc (n); }
static void *u_realloc (HevMemoryAllocator *a, void *p, size_t n) { return realloc (p, n); }
static void u_free (HevMemoryAllocator *a, void *p) { free (p); }
static int gone;
static void u_destroy (HevMemoryAllocator *a) { gone++; }

static void
ask (void *d)
{
    struct addrinfo h, *r = NULL;
    memset (&h, 0, sizeof (h));
    h.ai_flags = AI_NUMERICHOST;
    if (hev_task_dns_getaddrinfo ("127.0.0.1", NULL, &h, &r) == 0)
        freeaddrinfo (r);
}

int
main (int argc, char **argv)
{
    int user, k, r;
    wit_init (argc, argv);
    hev_memory_allocator_default ();
    hev_memory_allocator_unref (hev_memory_allocator_set_default (NULL));
    for (user = 0; user < 2; user++)
        for (k = 0; k < 40; k++) {
            HevMemoryAllocator *u = NULL, *d;
            struct sigaction b0, s0, b1, s1;
            stack_t a0, a1;
            int n = fds (), ok;
            gone = 0;
            if (user) {
                u = __libc_calloc (1, sizeof (*u));
                u->alloc = u_alloc, u->realloc = u_realloc, u->free = u_free, u->destroy = u_destroy, u->ref_count = 1;
                hev_memory_allocator_set_default (u);
            }
            CTX ("%s allocator, step %d fails", user ? "own" : "no", k);
            sigaction (SIGBUS, NULL, &b0), sigaction (SIGSEGV, NULL, &s0), sigaltstack (NULL, &a0);
            blocks = 0;
            hit = 0;
            left = k;
            armed = 1;
            r = hev_task_system_init ();
            armed = 0;
            ok = r == 0;
            sigaction (SIGBUS, NULL, &b1), sigaction (SIGSEGV, NULL, &s1), sigaltstack (NULL, &a1);
            if (r) {
                long bl = blocks;
                if (r != -1)
                    FAIL ("returns %d", r);
                if (!hit)
                    FAIL ("fails although no step failed");
                if (fds () != n)
                    FAIL ("a failed start leaves %d descriptors open", fds () - n);
                if (b0.sa_sigaction != b1.sa_sigaction || s0.sa_sigaction != s1.sa_sigaction || a0.ss_sp != a1.ss_sp)
                    FAIL ("a failed start leaves signal handlers or the signal stack changed");
                if (bl != 0)
                    FAIL ("a failed start leaves %ld blocks", bl);
                d = hev_memory_allocator_set_default (NULL);
                if (d != u)
                    FAIL ("a failed start replaced the default allocator");
                if (user && gone)
                    FAIL ("a failed start released the thread's allocator");
                if (d)
                    hev_memory_allocator_unref (d);
            } else {
                armed = 1;
                left = 1000;
                d = hev_memory_allocator_default ();
                if (hev_task_system_init () != -1)
                    FAIL ("a second start succeeds");
                if (hev_memory_allocator_default () != d)
                    FAIL ("a second start replaced the default allocator");
                hev_task_system_fini ();
                armed = 0;
                if (fds () != n)
                    FAIL ("%d descriptors stay open", fds () - n);
                if (blocks != (user ? -1 : 0))
                    FAIL ("%ld blocks stay allocated", blocks + user);
                sigaction (SIGBUS, NULL, &b1), sigaction (SIGSEGV, NULL, &s1), sigaltstack (NULL, &a1);
                if (b0.sa_sigaction != b1.sa_sigaction || s0.sa_sigaction != s1.sa_sigaction || a0.ss_sp != a1.ss_sp)
                    FAIL ("signal handlers or the signal stack stay changed");
                if (!hit)
                    break;
            }
            (void)ok;
        }
    for (k = 0; k < 3; k++) {
        int n = fds ();
        HevTask *t;
        CTX ("a name was looked up");
        if (hev_task_system_init () < 0)
            FAIL ("fails although no step failed");
        t = hev_task_new (-1);
        hev_task_run (t, ask, NULL);
        hev_task_system_run ();
        hev_task_system_fini ();
        if (k && fds () != n)
            FAIL ("%d descriptors stay open", fds () - n);
    }
    return wit_done ();
}
