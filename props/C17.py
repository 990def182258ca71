"""C17 cooperative I/O wrappers: retry while the kernel would block, true results otherwise"""
import z3
from dv.harness import *
from props.io import *

# wrapper, system call, (name, width) of the arguments
SIMPLE = [
    ("hev_task_io_read", "read", [("fd", 32), ("buf", 64), ("count", 64)]),
    ("hev_task_io_write", "write", [("fd", 32), ("buf", 64), ("count", 64)]),
    ("hev_task_io_readv", "readv", [("fd", 32), ("iov", 64), ("iovcnt", 32)]),
    ("hev_task_io_writev", "writev", [("fd", 32), ("iov", 64), ("iovcnt", 32)]),
    ("hev_task_io_socket_recv", "recv", [("fd", 32), ("buf", 64), ("len", 64), ("flags", 32)]),
    ("hev_task_io_socket_send", "send", [("fd", 32), ("buf", 64), ("len", 64), ("flags", 32)]),
    ("hev_task_io_socket_recvfrom", "recvfrom", [("fd", 32), ("buf", 64), ("len", 64), ("flags", 32), ("addr", 64), ("addr_len", 64)]),
    ("hev_task_io_socket_sendto", "sendto", [("fd", 32), ("buf", 64), ("len", 64), ("flags", 32), ("addr", 64), ("addr_len", 32)]),
]


def mk(st, cx, spec):
    vs, args = [], []
    for n, w in spec:
        v = z3.BitVec(n, w)
        note_input(st, n, v)
        vs.append(v)
        args.append(v if w == 32 or n in ("count", "len") else Ptr(None, v))
    return vs, args


def simple(fname, sysname, spec):
    def proof(cx):
        for yld in (False, True):
            io = IO(cx, fname)
            st = cx.state()
            vs, args = mk(st, cx, spec)
            ws = [w for _, w in spec]
            for (n, _), v in zip(spec, vs):
                if n == "flags":
                    st.assume(v & MSG_WAITALL == 0)

            def sysc(eng, s, a, I):
                TRUST.use(sysname, "returns a result >= -1 and sets errno on -1")
                got = bvs(s, eng, a, ws)
                eng.check(s, z3.And([x == y for x, y in zip(got, vs)] + [z3.BoolVal(len(got) == len(vs))]), f"{fname}: every attempt uses the caller's arguments")
                r = fresh("res", 64)
                s.assume(r >= -1)
                io.attempt(eng, s, r)
                return [(s, r)]
            y = io.start(st, yld)
            cx.eng.stubs[sysname] = sysc
            for s, r in cx.eng.call(st, fname, args + y):
                io.finish(s, r)
    return Proof(fname[len("hev_task_io_"):], proof, [fname])


def p_connect(cx):
    fname = "hev_task_io_socket_connect"
    for yld in (False, True):
        io = IO(cx, fname, blocks=lambda s, e: z3.And(s < 0, z3.Or(e == EINPROGRESS, e == EALREADY)))
        st = cx.state()
        spec = [("fd", 32), ("addr", 64), ("addr_len", 32)]
        vs, args = mk(st, cx, spec)

        def sysc(eng, s, a, I):
            TRUST.use("connect", "returns 0 or -1 with errno; EINPROGRESS/EALREADY while connecting, EISCONN once connected")
            eng.check(s, z3.And([x == y for x, y in zip(bvs(s, eng, a, (32, 64, 32)), vs)]), f"{fname}: every attempt uses the caller's arguments")
            r = fresh("res", 32)
            s.assume(z3.Or(r == 0, r == -1))
            io.attempt(eng, s, r)
            return [(s, r)]
        y = io.start(st, yld)
        cx.eng.stubs["connect"] = sysc
        for s, r in cx.eng.call(st, fname, args + y):
            g = s.ghost['g']
            io.finish(s, r, want=lambda s: z3.If(z3.And(g['s'] < 0, g['e'] == EISCONN), BV(0, 64), g['s']))


def p_accept(cx):
    fname = "hev_task_io_socket_accept"
    for yld in (False, True):
        io = IO(cx, fname)
        st = cx.state()
        spec = [("fd", 32), ("addr", 64), ("addr_len", 64)]
        vs, args = mk(st, cx, spec)

        def sysc(eng, s, a, I):
            TRUST.use("accept", "returns a new descriptor or -1 with errno")
            eng.check(s, z3.And([x == y for x, y in zip(bvs(s, eng, a, (32, 64, 64)), vs)]), f"{fname}: every attempt uses the caller's arguments")
            r = fresh("res", 32)
            s.assume(r >= -1)
            io.attempt(eng, s, r)
            return [(s, r)]

        def ioctl(eng, s, a, I):
            r = fresh("ioctl", 32)
            s.assume(z3.Or(r == 0, r == -1))
            set_errno(eng, s, simp(z3.If(r < 0, fresh("err", 32), get_errno(eng, s))))
            s.ghost['ioctl_failed'] = r < 0
            return [(s, r)]

        def close(eng, s, a, I):
            set_errno(eng, s, fresh("errno", 32))
            s.ghost['closed'] = True
            return [(s, BV(0, 32))]
        y = io.start(st, yld)
        cx.eng.stubs.update(accept=sysc, ioctl=ioctl, close=close)
        for s, r in cx.eng.call(st, fname, args + y):
            c = s.ghost.get('ioctl_failed')
            if c is not None:
                for s2, bad in cx.eng.branch(s, c):
                    if bad:
                        cx.eng.check(s2, r < 0, f"{fname}: fails when the new descriptor cannot be prepared (see C19)")
                    else:
                        io.finish(s2, r)
            else:
                io.finish(s, r)


def msg(fname, sysname):
    def proof(cx):
        from props.msg import Msg
        for yld in (False, True):
            io = IO(cx, fname)
            st = cx.state()
            m = Msg(cx, io, fname, sysname, st, waitall=False)
            y = io.start(st, yld, **m.ghost())
            m.install()
            for s, r in cx.eng.call(st, fname, m.args + y):
                io.finish(s, r)
                m.after(s, r)
    return Proof(fname[len("hev_task_io_"):], proof, [fname])


PROOFS = [simple(*x) for x in SIMPLE] + [
    Proof("socket_connect", p_connect, ["hev_task_io_socket_connect"]),
    Proof("socket_accept", p_accept, ["hev_task_io_socket_accept"]),
    msg("hev_task_io_socket_recvmsg", "recvmsg"), msg("hev_task_io_socket_sendmsg", "sendmsg"),
]
ASSUMPTIONS = ["system calls behave as stated in the trusted base; giving up the CPU may change errno arbitrarily",
               "a yielder returns, and its result 0 means go on"]
