"""C18 MSG_WAITALL: complete transfers across short results"""
import z3
from dv.harness import *
from props.io import *
from props.C17 import mk
from props.msg import Msg

FLAT = [
    ("hev_task_io_socket_recv", "recv", [("fd", 32), ("buf", 64), ("len", 64), ("flags", 32)]),
    ("hev_task_io_socket_send", "send", [("fd", 32), ("buf", 64), ("len", 64), ("flags", 32)]),
    ("hev_task_io_socket_recvfrom", "recvfrom", [("fd", 32), ("buf", 64), ("len", 64), ("flags", 32), ("addr", 64), ("addr_len", 64)]),
    ("hev_task_io_socket_sendto", "sendto", [("fd", 32), ("buf", 64), ("len", 64), ("flags", 32), ("addr", 64), ("addr_len", 32)]),
]
NOPEEK = 0x2 | 0x20         # MSG_PEEK, MSG_TRUNC: results that are no transfer


def result(io, fname, total, s, r):
    g = s.ghost['g']

    def want(s):
        return z3.If(z3.And(g['s'] <= 0, g['done'] == 0), g['s'], g['done'])
    for s2, stop in io.e.branch(s, g['stop'] != 0):
        if not stop:
            io.e.check(s2, z3.Or(g['s'] <= 0, g['done'] == total), f"{fname}: stops early only at the end of the stream or a failure")
    io.finish(s, r, want=want)


class All(IO):
    total = None

    def again(self, g):
        return z3.Or(super().again(g), z3.And(g['s'] > 0, g['done'] < self.total))


def flat(fname, sysname, spec):
    def proof(cx):
        for yld in (False, True):
            io = All(cx, fname)
            st = cx.state()
            vs, args = mk(st, cx, spec)
            v = {n: x for (n, _), x in zip(spec, vs)}
            io.total = v['len']
            ws = [w for _, w in spec]
            st.assume(v['flags'] & MSG_WAITALL != 0)
            st.assume(v['flags'] & NOPEEK == 0)
            st.assume(v['len'] >= 0)

            def sysc(eng, s, a, I):
                TRUST.use(sysname, "transfers between 0 and the number of bytes asked for (-1 and errno on failure) starting at the pointer it is given")
                got = {n: x for (n, _), x in zip(spec, bvs(s, eng, a, ws))}
                g = s.ghost['g']
                eng.check(s, got['buf'] == v['buf'] + g['done'], f"{fname}: every attempt continues right after the bytes transferred")
                eng.check(s, got['len'] == v['len'] - g['done'], f"{fname}: every attempt asks for exactly the rest")
                eng.check(s, got['flags'] == v['flags'] & ~MSG_WAITALL, f"{fname}: flags passed on without MSG_WAITALL")
                eng.check(s, z3.And([got[n] == v[n] for n in got if n not in ('buf', 'len', 'flags')]), f"{fname}: other arguments passed on")
                r = fresh("res", 64)
                s.assume(z3.And(r >= -1, r <= v['len'] - g['done']))
                io.attempt(eng, s, r)
                io.g(s, done=g['done'] + z3.If(r > 0, r, BV(0, 64)))
                return [(s, r)]
            y = io.start(st, yld, done=BV(0, 64))
            io.cands = [("not beyond the end", lambda e, s: z3.And(s.ghost['g']['done'] >= 0, s.ghost['g']['done'] <= v['len']))]
            cx.eng.stubs[sysname] = sysc
            for s, r in cx.eng.call(st, fname, args + y):
                result(io, fname, v['len'], s, r)
    return Proof(fname[len("hev_task_io_"):], proof, [fname])


def vec(fname, sysname, yld):
    def proof(cx):
        if True:
            io = All(cx, fname)
            st = cx.state()
            m = Msg(cx, io, fname, sysname, st, waitall=True)
            st.assume(m.flags & NOPEEK == 0)
            io.total = m.S(m.n)
            y = io.start(st, yld, **m.ghost())
            m.install()
            for s, r in cx.eng.call(st, fname, m.args + y):
                result(io, fname, io.total, s, r)
                m.after(s, r)
    return Proof(fname[len("hev_task_io_"):] + ("_yielder" if yld else ""), proof, [fname])


PROOFS = [vec(f"hev_task_io_socket_{x}", x, y) for x in ("recvmsg", "sendmsg") for y in (False, True)] + [flat(*x) for x in FLAT]
BUDGET = 400
ASSUMPTIONS = ["MSG_PEEK and MSG_TRUNC are not combined with MSG_WAITALL", "the vectors of a message describe less than 2^47 bytes (the size of the address space) and number at most 1024 (the kernel refuses more)",
               "system calls behave as stated in the trusted base; giving up the CPU may change errno arbitrarily"]
