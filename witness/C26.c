/* stacks of many sizes with recorded mappings and failing steps; calls on separate stacks */
#include "wit.h"
#include "kern/task/hev-task-stack.h"
#include "kern/task/hev-task-call.h"
#include "mem/base/hev-memory-allocator.h"
#include "walloc.h"
#include <sys/syscall.h>

static long mapped;
static int fail_map, fail_prot;
void *
mmap (void *a, size_t n, int p, int f, int fd, off_t o)
{
    void *r;
    if (fail_map) {
        errno = ENOMEM;
        return MAP_FAILED;
    }
    r = (void *)syscall (SYS_mmap, a, n, p, f, fd, o);
    if (r != MAP_FAILED)
        mapped += (n + 4095) & ~4095ul;
    return r;
}
int
munmap (void *a, size_t n)
{
    int r = syscall (SYS_munmap, a, n);
    if (!r)
        mapped -= (n + 4095) & ~4095ul;
    return r;
}
int
mprotect (void *a, size_t n, int p)
{
    if (fail_prot) {
        errno = ENOMEM;
        return -1;
    }
    return syscall (SYS_mprotect, a, n, p);
}
static int pip[2];
static int
readable (char *p)
{
    char c;
    if (write (pip[1], p, 1) != 1)
        return 0;
    return read (pip[0], &c, 1) == 1;
}
static void
stack (uint64_t size)
{
    long m = mapped;
    HevTaskStack *s;
    char *top, *p;
    CTX ("stack of %lu bytes%s%s", (unsigned long)size, fail_map ? ", mmap fails" : "", fail_prot ? ", mprotect fails" : "");
    s = hev_task_stack_new ((int)size);
    if (!s) {
        if (mapped != m || wa_live)
            FAIL ("a failed creation keeps %ld bytes mapped and %d blocks", mapped - m, wa_live);
        return;
    }
    top = hev_task_stack_get_bottom (s);
    if ((uintptr_t)top & 15)
        FAIL ("the top %p is not aligned", top);
    p = top - 1;
    if (size > 1 << 20) {
        if (!readable (p) || !readable (top - size))
            FAIL ("not %lu usable bytes", (unsigned long)size);
        p = (char *)(((uintptr_t)top - size) & ~4095ul) + 4095;
    }
    for (; readable (p); p = (char *)((uintptr_t)p & ~4095ul) - 1)
        if ((uint64_t)(top - p) > size + (1 << 20))
            FAIL ("no guard below the stack");
    p++;
    if ((uint64_t)(top - p) < size)
        FAIL ("%ld usable bytes", (long)(top - p));
    if (size)
        top[-1] = p[0] = 1;
    if ((char *)hev_task_stack_get_base (s) > p - 4096)
        FAIL ("the guard is not part of the stack's mapping");
    hev_task_stack_destroy (s);
    if (mapped != m || wa_live)
        FAIL ("%ld bytes stay mapped", mapped - m);
}
static HevTaskCall *cur;
static size_t cbase, cstack;
static int ran;
static void
entry (HevTaskCall *c)
{
    char v;
    uintptr_t fp = (uintptr_t)__builtin_frame_address (0);
    ran++;
    if (c != cur)
        FAIL ("runs with another call");
    if (&v < (char *)c + cbase || &v >= (char *)c + cbase + cstack)
        FAIL ("runs outside its own stack");
    if (fp & 15)
        FAIL ("runs on a misaligned stack");
    hev_task_call_set_retval (c, (void *)0x1234567);
}
int
main (int argc, char **argv)
{
    uint64_t s;
    int k;
    wit_init (argc, argv);
    if (pipe (pip))
        FAIL ("pipe");
    wa_install ();
    if (arg ("size", &s))
        stack ((uint32_t)s);
    for (k = 0; k < 3000; k++) {
        wa_fail = below (10) == 0 ? 0 : -1;
        fail_map = below (10) == 0;
        fail_prot = below (10) == 0;
        switch (below (4)) {
        case 0: s = below (5) * 4096 + below (3) - (k % 5 ? 0 : 1); break;
        case 1: s = below (200000); break;
        case 2: s = 0x7fffffff - below (20000); break;
        default: s = below (64) << 12;
        }
        if ((int)s < 0)
            s = 1;
        stack (s);
    }
    wa_fail = -1;
    fail_map = fail_prot = 0;
    for (k = 0; k < 500; k++) {
        void *r;
        cbase = sizeof (HevTaskCall) + below (100);
        cstack = 4096 + below (9000);
        CTX ("call with %zu bytes of data and %zu of stack", cbase, cstack);
        cur = hev_task_call_new (cbase, cstack);
        ran = 0;
        if ((uintptr_t)cur->stack_top & 15 || (char *)cur->stack_top > (char *)cur + cbase + cstack || (char *)cur->stack_top < (char *)cur + cbase + cstack - 15)
            FAIL ("stack top %p of block %p", cur->stack_top, cur);
        r = hev_task_call_jump (cur, entry);
        if (ran != 1 || r != (void *)0x1234567)
            FAIL ("ran %d times, returned %p", ran, r);
        hev_task_call_destroy (cur);
    }
    wa_remove ();
    return wit_done ();
}
