"""C03 wakeups and events"""
import z3
from dv.harness import *
from props.C01 import proofs, ASSUMPTIONS as A1
from props.sched import Sched, TASK, MT

EPOLLET = 1 << 31
POLLIN, POLLOUT, POLLERR = 1, 4, 8


def p_register(cx):
    """descriptors are registered with the identity of the task, edge triggered, for exactly the events asked for"""
    S = Sched(cx, ('wake',))
    cx.eng.loop_policy = None
    e = cx.eng
    for fn, op, nargs in (("hev_task_add_fd", 1, 3), ("hev_task_mod_fd", 3, 3), ("hev_task_del_fd", 2, 2)):
        st = cx.state()
        S.context(st)
        X = S.task(st, "task", 'in')
        S.consistent(st, X, (X,))
        fd, ev, rfd = cx.inp(st, "fd", 32), cx.inp(st, "events", 32), cx.inp(st, "reactor_fd", 32)
        e.poke(st, S.reactor(st), 0, 4, rfd)
        res = fresh("res", 32)
        st.assume(z3.Or(res == 0, res == -1))

        def ctl(eng, s, a, I, fn=fn, op=op):
            TRUST.use("epoll_ctl", "registers, changes or removes the descriptor as its arguments say, or fails with -1")
            eng.check(s, bool(not s.ghost.get('ctl')), f"{fn}: one registration")
            s.ghost['ctl'] = True
            eng.check(s, z3.And(eng.as_bv(s, a[0], 32) == rfd, eng.as_bv(s, a[1], 32) == op, eng.as_bv(s, a[2], 32) == fd), f"{fn}: the descriptor and operation asked for")
            if op == 2:
                return [(s, res)]
            p = eng.as_ptr(a[3])
            (s, bits), = eng.load(s, p, 4, 'i', "epoll_ctl reads the event")
            (s, data), = eng.load(s, p.plus(4), 8, 'ptr', "epoll_ctl reads the event")
            for b in (POLLIN, POLLOUT):
                eng.check(s, (bits & b) == (ev & b), f"{fn}: waits for exactly the events asked for")
            eng.check(s, bits & ~(POLLIN | POLLOUT | POLLERR | EPOLLET) == 0, f"{fn}: no other events")
            eng.check(s, bits & EPOLLET != 0, f"{fn}: each change of readiness is reported once")
            ok = bool(data.obj == X and data.off.const() == S.ent)
            eng.check(s, ok, f"{fn}: events of the descriptor name this task")
            return [(s, res)]
        e.stubs['epoll_ctl'] = ctl
        S.allowed = lambda s: ()
        for s, r in e.call(st, fn, [Ptr(X), fd, ev][:nargs]):
            e.cover(s, fn)
            e.check(s, bool(s.ghost.get('ctl')), f"{fn}: reaches the kernel")
            e.check(s, (r < 0) == (res < 0), f"{fn}: failure is reported")


PROOFS = proofs(('wake', 'frame'), ("kernel", "wakeup")) + [Proof("register", p_register, ["hev_task_add_fd", "hev_task_mod_fd", "hev_task_del_fd", "hev_task_io_reactor_setup",
                                                                                       "hev_task_io_reactor_setup_event_gen", "hev_task_io_reactor_setup_event_set"])]
ASSUMPTIONS = A1
