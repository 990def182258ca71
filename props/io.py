"""cooperative I/O calls: the kernel, the yielder and the scheduler as contracts, ghost history
of the attempts (last result, last error, must-wait, asked-to-stop, bytes transferred)."""
import z3
from dv.harness import *

EAGAIN, EINPROGRESS, EALREADY, EISCONN = 11, 115, 114, 106
MSG_WAITALL = 0x100


def b2i(c):
    return z3.If(c, BV(1, 64), BV(0, 64))


class GLoop(LoopSpec):
    """loop whose ghost history is generalised; which of the standing facts hold at its head is inferred"""
    name = "ghost history"

    def __init__(self, io, extra=()):
        self.io = io
        self.extra = extra

    def owned(self, eng, st):
        return [st.ghost['errno']] + [o for o in st.ghost.get('owned', ())]

    def quantities(self, eng, st):
        return dict(st.ghost['g'])

    def havoc(self, eng, st):
        # what no iteration changes keeps its value (checked at the end of the iteration)
        st.ghost['g'] = {k: fresh("g_" + k, 64) if f"${k} unchanged" in self.dropped else v for k, v in st.ghost['g'].items()}
        self.kept = {k for k in st.ghost['g'] if f"${k} unchanged" not in self.dropped}
        set_errno(eng, st, fresh("errno", 32))
        return [st]

    def back(self, eng, st):
        for k in sorted(self.kept):
            eng.check(st, st.ghost['g'][k] == self.g0[k], f"{self.io.fname}: loop invariant [{k} unchanged] preserved", "invariant")

    def candidates(self, eng, st0):
        g0 = self.g0 = st0.ghost['g']
        out = []
        for k in g0:
            out.append((f"${k} unchanged", lambda e, s, k=k: s.ghost['g'][k] == g0[k]))
            out.append((f"${k} >= initial", lambda e, s, k=k: s.ghost['g'][k] >= g0[k]))
        if 'wait' in g0:
            out.append(("not complete", lambda e, s: self.io.again(s.ghost['g'])))
            out.append(("waiting pending iff the last attempt would block", lambda e, s: (s.ghost['g']['wait'] != 0) == self.io.blocks(s.ghost['g']['s'], s.ghost['g']['e'])))
            out.append(("errno of the last attempt", lambda e, s: z3.ZeroExt(32, get_errno(e, s)) == s.ghost['g']['e']))
            out.append(("errno of the last failed attempt", lambda e, s: z3.Implies(s.ghost['g']['s'] < 0, z3.ZeroExt(32, get_errno(e, s)) == s.ghost['g']['e'])))
        return out + list(self.io.cands) + list(self.extra)


class IO:
    """one proof about one wrapper"""

    def __init__(self, cx, fname, blocks=None, cands=()):
        self.cx, self.e, self.fname = cx, cx.eng, fname
        self.blocks = blocks or (lambda s, e: z3.And(s < 0, e == EAGAIN))
        self.cands = cands
        self.WAITIO = cx.const("HEV_TASK_WAITIO")
        self.YIELD = cx.const("HEV_TASK_YIELD")

    def start(self, st, yielder, **g):
        set_errno(self.e, st, fresh("errno0", 32))
        z = BV(0, 64)
        st.ghost['g'] = dict(s=z, e=z, wait=z, stop=z, calls=z)
        st.ghost['g'].update(g)
        self.yielder = yielder
        self.ydata = z3.BitVec("yielder_data", 64)
        self.install()
        return [Ptr("fn:yielder!") if yielder else NULL, Ptr(None, self.ydata)]

    def g(self, st, **kw):
        st.ghost['g'] = dict(st.ghost['g'], **{k: simp(v) if not isinstance(v, int) else BV(v, 64) for k, v in kw.items()})

    def again(self, g):
        """may the operation be attempted (again)"""
        return z3.Or(g['calls'] == 0, self.blocks(g['s'], g['e']))

    def waiting(self, eng, st, typ):
        f = self.fname
        t = cval(typ)
        eng.check(st, typ == self.WAITIO, f"{f}: gives up the CPU as a waiting task")
        eng.check(st, st.ghost['g']['wait'] != 0, f"{f}: waits only after an attempt that would block")
        eng.check(st, st.ghost['g']['stop'] == 0, f"{f}: does not go on after being asked to stop")

    def install(self):
        e = self.e

        def yield_(eng, st, args, I):
            eng.check(st, not self.yielder, f"{self.fname}: uses the caller's yielder")
            self.waiting(eng, st, args[0])
            eng.cover(st, f"{self.fname} waits")
            self.g(st, wait=0)
            set_errno(eng, st, fresh("errno", 32))
            return [(st, None)]

        def yielder(eng, st, args, I):
            self.waiting(eng, st, args[0])
            eng.check(st, eng.as_bv(st, args[1], 64) == self.ydata, f"{self.fname}: yielder gets its own data")
            r = fresh("yielder", 32)
            set_errno(eng, st, fresh("errno", 32))
            self.g(st, wait=0, stop=b2i(r != 0))
            return [(st, r)]
        e.stubs['hev_task_yield'] = yield_
        e.stubs['yielder!'] = yielder
        e.loop_policy = lambda eng, s, fn, h: GLoop(self)

    def attempt(self, eng, st, s, limit=None):
        """common part of a system call: history, result"""
        f = self.fname
        g = st.ghost['g']
        eng.check(st, g['wait'] == 0, f"{f}: gives up the CPU between attempts")
        eng.check(st, g['stop'] == 0, f"{f}: no attempt after being asked to stop")
        eng.check(st, self.again(g), f"{f}: repeats only an attempt that did not complete the operation")
        er = fresh("err", 32)
        st.assume(z3.And(er > 0, er < 4096))
        s64_ = s if s.size() == 64 else z3.SignExt(64 - s.size(), s)
        old = get_errno(eng, st)
        set_errno(eng, st, simp(z3.If(s64_ < 0, er, old)))
        ee = simp(z3.If(s64_ < 0, z3.ZeroExt(32, er), z3.ZeroExt(32, old)))
        self.g(st, s=s64_, e=ee, wait=b2i(self.blocks(s64_, ee)), calls=1)

    def finish(self, st, r, want=None, err=None):
        """return value against the history"""
        e, f = self.e, self.fname
        g = st.ghost['g']
        r64 = r if r.size() == 64 else z3.SignExt(64 - r.size(), r)
        for s, stop in e.branch(st, g['stop'] != 0):
            if stop:
                e.cover(s, f"{f} stopped by the yielder")
                e.check(s, r64 == -2, f"{f}: -2 when the yielder asks to stop")
                continue
            e.cover(s, f"{f} returns")
            e.check(s, g['calls'] != 0, f"{f}: the operation was attempted")
            e.check(s, g['wait'] == 0, f"{f}: does not return while the operation would block")
            e.check(s, r64 == (want(s) if want else g['s']), f"{f}: returns the kernel's result")
            en = z3.ZeroExt(32, get_errno(e, s))
            e.check(s, z3.Implies(r64 < 0, en == g['e']), f"{f}: the kernel's error is visible")


def bvs(st, eng, args, ws):
    return [eng.as_bv(st, a, w) for a, w in zip(args, ws)]
