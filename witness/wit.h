/* helpers for the witness programs (native runs of the real library) */
#ifndef WIT_H
#define WIT_H
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

static uint64_t wit_x = 88172645463325252ull;
static long wit_n;
static char wit_ctx[512];

static inline uint64_t
rnd (void)
{
    wit_x ^= wit_x << 13;
    wit_x ^= wit_x >> 7;
    wit_x ^= wit_x << 17;
    return wit_x;
}
static inline uint64_t
below (uint64_t n)
{
    return n ? rnd () % n : 0;
}
static void
CTX (const char *f, ...)
{
    va_list a;
    va_start (a, f);
    vsnprintf (wit_ctx, sizeof (wit_ctx), f, a);
    va_end (a);
    wit_n++;
}
#define FAIL(...)                                          \
    do {                                                   \
        printf ("FAILED [%s] line %d: ", wit_ctx, __LINE__); \
        printf (__VA_ARGS__);                              \
        printf ("\n");                                     \
        fflush (stdout);                                   \
        _exit (1);                                         \
    } while (0)
#define REQUIRE(c)                       \
    do {                                 \
        if (!(c))                        \
            FAIL ("expected %s", #c);    \
    } while (0)

static int wit_argc;
static char **wit_argv;
static int
arg (const char *name, uint64_t *v)
{
    size_t n = strlen (name);
    int i;
    for (i = 2; i < wit_argc; i++)
        if (!strncmp (wit_argv[i], name, n) && wit_argv[i][n] == '=') {
            *v = strtoull (wit_argv[i] + n + 1, NULL, 10);
            return 1;
        }
    return 0;
}
static void
wit_sig (int s)
{
    printf ("FAILED [%s]: the real code died with signal %d\n", wit_ctx, s);
    fflush (stdout);
    _exit (1);
}
static char wit_altstack[65536];
static void
wit_init (int argc, char **argv)
{
    stack_t ss = { .ss_sp = wit_altstack, .ss_size = sizeof (wit_altstack) };
    struct sigaction sa;
    int sg[] = { SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGALRM };
    unsigned i;
    wit_argc = argc;
    wit_argv = argv;
    if (argc > 1)
        wit_x ^= strtoull (argv[1], NULL, 10) * 0x9e3779b97f4a7c15ull;
    if (!wit_x)
        wit_x = 1;
    sigaltstack (&ss, NULL);
    memset (&sa, 0, sizeof (sa));
    sa.sa_handler = wit_sig;
    sa.sa_flags = SA_ONSTACK;
    for (i = 0; i < sizeof (sg) / sizeof (sg[0]); i++)
        sigaction (sg[i], &sa, NULL);
    signal (SIGPIPE, SIG_IGN);
}
static int
wit_done (void)
{
    printf ("scenarios=%ld\n", wit_n);
    return 0;
}
#endif
