"""C19 descriptors made by the library are non-blocking; failures leak none"""
import z3
from dv.harness import *
from props.io import *

O_NONBLOCK, O_CREAT, O_TMPFILE = 0o4000, 0o100, 0o20000000
FIONBIO, F_GETFL, F_SETFL, F_DUPFD, F_DUPFD_CLOEXEC = 0x5421, 3, 4, 0, 1030


class Fds:
    """descriptors made so far: ghost list of [value, non-blocking, closed]"""

    def __init__(self, cx, fname):
        self.cx, self.e, self.f = cx, cx.eng, fname
        e = self.e

        def ioctl(eng, s, a, I):
            TRUST.use("ioctl(FIONBIO)", "sets or clears non-blocking mode, or fails with -1")
            fd, req = eng.as_bv(s, a[0], 32), eng.as_bv(s, a[1], 64)
            eng.check(s, req == FIONBIO, f"{fname}: only changes the blocking mode")
            rs = eng.load(s, eng.as_ptr(a[2]), 4, 'i', "FIONBIO argument")
            out = []
            for s, v in rs:
                for s2, bad in eng.branch(s, freshb("ioctl_fails")):
                    if bad:
                        self.err(s2)
                        out.append((s2, BV(-1, 32)))
                    else:
                        self.touch(s2, fd, nb=(v != 0))
                        out.append((s2, BV(0, 32)))
            return out

        def fcntl(eng, s, a, I):
            fd, cmd = eng.as_bv(s, a[0], 32), cval(eng.as_bv(s, a[1], 32))
            out = []
            for s2, bad in eng.branch(s, freshb("fcntl_fails")):
                if bad:
                    self.err(s2)
                    out.append((s2, BV(-1, 32)))
                elif cmd == F_GETFL:
                    r = fresh("fl", 32)
                    s2.assume(r >= 0)
                    out.append((s2, r))
                elif cmd == F_SETFL:
                    self.touch(s2, fd, nb=eng.as_bv(s2, a[2], 32) & O_NONBLOCK != 0)
                    out.append((s2, BV(0, 32)))
                else:
                    raise Unsupported("fcntl command")
            return out

        def close(eng, s, a, I):
            TRUST.use("close", "closes the descriptor; may change errno")
            self.touch(s, eng.as_bv(s, a[0], 32), close=True)
            self.err(s)
            return [(s, BV(0, 32))]
        e.stubs.update(ioctl=ioctl, fcntl=fcntl, close=close)

    def err(self, s):
        er = fresh("err", 32)
        s.assume(z3.And(er > 0, er < 4096))
        set_errno(self.e, s, er)

    def new(self, s, nb=False):
        v = fresh("newfd", 32)
        s.assume(z3.And(v >= 0, v != 0x7fffffff))
        l = s.ghost.get('fds', ())
        for x, _, _ in l:
            s.assume(v != x)
        s.ghost['fds'] = l + ((v, nb, False),)
        return v

    def touch(self, s, fd, nb=None, close=False):
        l = list(s.ghost.get('fds', ()))
        for i, (v, n, c) in enumerate(l):
            if self.e.valid(s, fd == v):
                self.e.check(s, not c, f"{self.f}: a closed descriptor is not used")
                l[i] = (v, n if nb is None else nb, c or close)
                s.ghost['fds'] = tuple(l)
                return
        self.e.check(s, False, f"{self.f}: only touches the descriptors it made")

    def outcome(self, s, r, made, ret):
        """made: number of descriptors a successful call provides; ret: expected result on success"""
        e, f = self.e, self.f
        l = s.ghost.get('fds', ())
        for s2, ok in e.branch(s, r >= 0):
            l = s2.ghost.get('fds', ())
            if ok:
                e.cover(s2, f"{f} succeeds")
                e.check(s2, len(l) == made, f"{f}: succeeds only with its descriptors made")
                e.check(s2, r == ret(s2, l), f"{f}: returns the kernel's result")
                for v, n, c in l:
                    e.check(s2, not c, f"{f}: returned descriptors are open")
                    e.check(s2, n if not isinstance(n, bool) else z3.BoolVal(n), f"{f}: returned descriptors are non-blocking")
            else:
                e.cover(s2, f"{f} fails" + (" after making descriptors" if l else ""))
                for v, n, c in l:
                    e.check(s2, c, f"{f}: a failing call leaves no descriptor open")


def one(name, fname, sysname, spec, nbflag=None):
    """calls that make one descriptor; nbflag: index of an argument that may carry a non-blocking request"""
    def proof(cx):
        st = cx.state()
        fds = Fds(cx, fname)
        vs, args = [], []
        for n, w in spec:
            v = z3.BitVec(n, w)
            note_input(st, n, v)
            vs.append(v)
            args.append(v if w == 32 else Ptr(None, v))

        def sysc(eng, s, a, I):
            TRUST.use(sysname, "returns a new descriptor or -1")
            got = [eng.as_bv(s, x, w) for x, (_, w) in zip(a, spec)]
            nb = False
            for i, (x, y) in enumerate(zip(got, vs)):
                if i == nbflag:
                    eng.check(s, x & ~O_NONBLOCK == y & ~O_NONBLOCK, f"{fname}: arguments passed through")
                    nb = x & O_NONBLOCK != 0
                else:
                    eng.check(s, x == y, f"{fname}: arguments passed through")
            eng.check(s, not s.ghost.get('fds'), f"{fname}: makes one descriptor")
            out = []
            for s2, bad in eng.branch(s, freshb("sys_fails")):
                if bad:
                    fds.err(s2)
                    out.append((s2, BV(-1, 32)))
                else:
                    v = fds.new(s2, nb)
                    if sysname == "dup2":
                        s2.assume(v == vs[1])
                    out.append((s2, v))
            return out
        cx.eng.stubs[sysname] = sysc
        set_errno(cx.eng, st, fresh("errno0", 32))
        for s, r in cx.eng.call(st, fname, args):
            fds.outcome(s, r, 1, lambda s, l: l[0][0])
    return Proof(name, proof, [fname])


def pair(name, fname, sysname, spec):
    def proof(cx):
        st = cx.state()
        fds = Fds(cx, fname)
        vs, args = [], []
        for n, w in spec:
            v = z3.BitVec(n, w)
            vs.append(v)
            args.append(v)
        arr = st.new_obj("fd_pair", 8, 'input')
        cx.eng.poke(st, arr.id, 0, 4, fresh("old0", 32))
        cx.eng.poke(st, arr.id, 4, 4, fresh("old1", 32))

        def sysc(eng, s, a, I):
            TRUST.use(sysname, "stores two new descriptors, or returns -1")
            for x, y in zip(a, vs):
                eng.check(s, eng.as_bv(s, x, 32) == y, f"{fname}: arguments passed through")
            p = eng.as_ptr(a[len(spec)])
            out = []
            for s2, bad in eng.branch(s, freshb("sys_fails")):
                if bad:
                    fds.err(s2)
                    out.append((s2, BV(-1, 32)))
                else:
                    for o in (0, 4):
                        s3 = eng.store(s2, p.plus(o), 4, fds.new(s2), "kernel stores a descriptor")
                        if not s3:
                            return out
                        s2 = s3[0]
                    out.append((s2, BV(0, 32)))
            return out
        cx.eng.stubs[sysname] = sysc
        set_errno(cx.eng, st, fresh("errno0", 32))
        for s, r in cx.eng.call(st, fname, args + [Ptr(arr.id)]):
            fds.outcome(s, r, 2, lambda s, l: BV(0, 32))
            for s2, ok in cx.eng.branch(s, r >= 0):
                if ok and len(s2.ghost.get('fds', ())) == 2:
                    for i, o in enumerate((0, 4)):
                        for s3, v in cx.eng.load(s2, Ptr(arr.id, o), 4, 'i', "result"):
                            cx.eng.check(s3, v == s3.ghost['fds'][i][0], f"{fname}: the caller gets the descriptors in order")
    return Proof(name, proof, [fname])


def opener(name, fname, at, creat=False):
    def proof(cx):
        e = cx.eng
        sysname = "openat" if at else "open"
        for has_mode in ((True,) if creat else (False, True)):
            st = cx.state()
            fds = Fds(cx, fname)
            path, flags, mode, dirfd = z3.BitVec("path", 64), z3.BitVec("flags", 32), z3.BitVec("mode", 32), z3.BitVec("dirfd", 32)
            note_input(st, "flags", flags)
            note_input(st, "mode", mode)
            st.assume(flags & O_TMPFILE == 0)
            if creat:
                st.assume(flags == O_CREAT | 1 | 0o1000)        # what creat() means
            else:
                st.assume((flags & O_CREAT != 0) if has_mode else (flags & O_CREAT == 0))

            def sysc(eng, s, a, I):
                TRUST.use(sysname, "returns a new descriptor, non-blocking if O_NONBLOCK is given, or -1")
                if at:
                    eng.check(s, eng.as_bv(s, a[0], 32) == dirfd, f"{fname}: arguments passed through")
                    a = a[1:]
                eng.check(s, eng.as_bv(s, a[0], 64) == path, f"{fname}: arguments passed through")
                fl = eng.as_bv(s, a[1], 32)
                eng.check(s, fl & ~O_NONBLOCK == flags & ~O_NONBLOCK, f"{fname}: flags passed through")
                if has_mode:
                    eng.check(s, len(a) > 2, f"{fname}: mode passed through")
                    if len(a) > 2:
                        eng.check(s, eng.as_bv(s, a[2], 32) == mode, f"{fname}: mode passed through")
                out = []
                for s2, bad in eng.branch(s, freshb("sys_fails")):
                    if bad:
                        fds.err(s2)
                        out.append((s2, BV(-1, 32)))
                    else:
                        out.append((s2, fds.new(s2, fl & O_NONBLOCK != 0)))
                return out
            e.stubs[sysname] = sysc
            if at:
                e.stubs.pop("open", None)
            set_errno(e, st, fresh("errno0", 32))
            a = ([dirfd] if at else []) + [Ptr(None, path)] + ([mode] if creat else [flags] + ([mode] if has_mode else []))
            for s, r in e.call(st, fname, a):
                fds.outcome(s, r, 1, lambda s, l: l[0][0])
    return Proof(name, proof, [fname])


def p_accept(cx):
    fname = "hev_task_io_socket_accept"
    for yld in (False, True):
        io = IO(cx, fname)
        st = cx.state()
        fds = Fds(cx, fname)
        vs = [z3.BitVec("fd", 32), z3.BitVec("addr", 64), z3.BitVec("addr_len", 64)]

        def sysc(eng, s, a, I):
            TRUST.use("accept", "returns a new descriptor or -1 with errno")
            out = []
            eng.check(s, not s.ghost.get('fds'), f"{fname}: makes one descriptor")
            for s2, bad in eng.branch(s, freshb("accept_fails")):
                if bad:
                    io.attempt(eng, s2, BV(-1, 32))
                    out.append((s2, BV(-1, 32)))
                else:
                    v = fds.new(s2)
                    io.attempt(eng, s2, v)
                    out.append((s2, v))
            return out
        y = io.start(st, yld)
        cx.eng.stubs["accept"] = sysc
        for s, r in cx.eng.call(st, fname, [vs[0], Ptr(None, vs[1]), Ptr(None, vs[2])] + y):
            fds.outcome(s, r, 1, lambda s, l: l[0][0])


PROOFS = [
    opener("open", "hev_task_io_open", False), opener("creat", "hev_task_io_creat", False, True), opener("openat", "hev_task_io_openat", True),
    one("dup", "hev_task_io_dup", "dup", [("oldfd", 32)]),
    one("dup2", "hev_task_io_dup2", "dup2", [("oldfd", 32), ("newfd", 32)]),
    one("socket", "hev_task_io_socket_socket", "socket", [("domain", 32), ("type", 32), ("protocol", 32)], 1),
    pair("pipe", "hev_task_io_pipe_pipe", "pipe", []),
    pair("socketpair", "hev_task_io_socket_socketpair", "socketpair", [("domain", 32), ("type", 32), ("protocol", 32)]),
    Proof("accept", p_accept, ["hev_task_io_socket_accept"]),
]
ASSUMPTIONS = ["O_TMPFILE is not used (the library only passes a mode on with O_CREAT)",
               "FIONBIO and F_SETFL either succeed or leave the descriptor unchanged"]
