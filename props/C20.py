"""C20 two-way splice"""
import z3
from dv.harness import *
from props.io import GLoop, b2i, EAGAIN

F = "hev_task_io_splice"
NONBLOCK, O_NONBLOCK = 2, 0o4000


def neg(x):
    return z3.Extract(31, 31, x) == 1


def done(q, k):
    return z3.Or(q[f'ofail{k}'] != 0, z3.And(q[f'eof{k}'] != 0, q[f'cont{k}'] == 0))


class SpliceLoop(GLoop):
    def cell_candidates(self, eng, st0, cells):
        out = []
        for n, g in cells.items():
            for k in (0, 1):
                for nm, f in (("is what the pipe holds", lambda x, q, k: x == q[f'cont{k}']),
                              ("negative only if the direction ended", lambda x, q, k: z3.Implies(neg(x), done(q, k))),
                              ("negative if the output failed", lambda x, q, k: z3.Implies(q[f'ofail{k}'] != 0, neg(x))),
                              ("set only if the direction ended", lambda x, q, k: z3.Implies(x != 0, done(q, k))),
                              ("set if the output failed", lambda x, q, k: z3.Implies(q[f'ofail{k}'] != 0, x != 0)),
                              ("zero only if the direction ended", lambda x, q, k: z3.Implies(x == 0, done(q, k))),
                              ("zero if the output failed", lambda x, q, k: z3.Implies(q[f'ofail{k}'] != 0, x == 0))):
                    def cond(e, s, f=f, g=g, k=k):
                        x = g(e, s)
                        return None if x is None else f(x, s.ghost['g'], k)
                    out.append((f"{n} {nm} {k}", cond))
        return out


class P:
    def __init__(self, cx, yielder):
        self.cx, self.fname, self.yielder = cx, F, yielder
        e = cx.eng
        self.st = st = cx.state()
        self.ai, self.ao, self.bi, self.bo = self.fds = [cx.inp(st, n, 32) for n in ("fd_a_i", "fd_a_o", "fd_b_i", "fd_b_o")]
        for f in self.fds:
            st.assume(z3.And(f >= 0, f < 1 << 20))
        st.assume(self.ai != self.bi)
        # descriptors of the pipes, none of the caller's
        self.p = [[z3.BitVec(f"pipe{k}{w}", 32) for w in "rw"] for k in (0, 1)]
        allp = sum(self.p, [])
        for f in allp:
            st.assume(z3.And(f >= 0, f < 1 << 20, *[f != x for x in self.fds]))
        st.assume(z3.Distinct(*allp))
        z = BV(0, 64)
        st.ghost['g'] = dict(stop=z, failed=z, made=z)
        for k in (0, 1):
            for n in ('src', 'cont', 'eof', 'ofail', 'inblk', 'outblk', 'or', 'ow'):
                st.ghost['g'][f"{n}{k}"] = z
        st.ghost['npipes'] = 0
        st.ghost['me'] = st.new_obj("me", 8, 'heap').id
        set_errno(e, st, fresh("errno", 32))
        self.ydata = z3.BitVec("yielder_data", 64)
        self.cands = []
        for k in (0, 1):
            for d in (1, 2):
                self.cands.append((f"pipe {k} serves direction {d}", lambda e, s, k=k, d=d: z3.Or(s.ghost['g'][f'src{k}'] == 0, s.ghost['g'][f'src{k}'] == d)))
                self.cands.append((f"pipe {k} in use", lambda e, s, k=k: z3.Or(s.ghost['g'][f'src{k}'] != 0, z3.And(s.ghost['g'][f'cont{k}'] == 0, s.ghost['g'][f'eof{k}'] == 0, s.ghost['g'][f'ofail{k}'] == 0))))
            self.cands.append((f"pipe {k} in bounds", lambda e, s, k=k: z3.And(s.ghost['g'][f'cont{k}'] >= 0, s.ghost['g'][f'cont{k}'] < 1 << 40)))
        no = lambda n: (lambda eng, st, a, I: (_ for _ in ()).throw(Unsupported(n)))
        e.stubs.update({'pipe2': self.pipe2, 'pipe': no("blocking pipes"), 'splice': self.splice, 'close': self.close, 'fcntl': self.fcntl, 'hev_task_yield': self.yield_, 'yielder!': self.yielder_,
                        'hev_task_self': lambda eng, st, a, I: [(st, Ptr(st.ghost['me']))], 'hev_task_add_fd': self.add, 'hev_task_mod_fd': self.add, 'hev_task_del_fd': lambda eng, st, a, I: [(st, BV(0, 32))]})
        e.loop_policy = lambda eng, s, fn, h: SpliceLoop(self)

    def g(self, st, **kw):
        st.ghost['g'] = dict(st.ghost['g'], **{k: simp(v) if not isinstance(v, int) else BV(v, 64) for k, v in kw.items()})

    def fail(self, eng, st, ok):
        """a step that may fail -> [(state, result)]"""
        f = st.fork()
        self.g(f, failed=1)
        er = fresh("err", 32)
        f.assume(er > 0)
        set_errno(eng, f, er)
        return [(st, ok), (f, BV(-1, 32))]

    def pipe2(self, eng, st, a, I):
        TRUST.use("pipe2", "two fresh descriptors, or -1 and nothing")
        k = st.ghost['npipes']
        if k > 1:
            raise Unsupported("more than two pipes")
        eng.check(st, (a[1] & O_NONBLOCK) != 0, "pipes never block the thread")
        outs = self.fail(eng, st, BV(0, 32))
        s = outs[0][0]
        s.ghost['npipes'] = k + 1
        p = eng.as_ptr(a[0])
        self.g(s, **{f'or{k}': 1, f'ow{k}': 1, 'made': k + 1})
        res = [outs[1]]
        for i, off in enumerate((0, 4)):
            eng.store(s, p.plus(off), 4, self.p[k][i])
        return [(s, BV(0, 32))] + res

    def add(self, eng, st, a, I):
        TRUST.use("hev_task_add_fd", "as proved under C03")
        return self.fail(eng, st, BV(0, 32))

    def fcntl(self, eng, st, a, I):
        TRUST.use("fcntl", "F_GETPIPE_SZ of a pipe returns its size")
        if cval(a[1]) != 1032:
            raise Unsupported("fcntl")
        r = fresh("pipe.size", 32)
        st.assume(z3.And(r > 0, r < 1 << 30))
        return [(st, r)]

    def close(self, eng, st, a, I):
        for k in (0, 1):
            for w, f in zip("rw", self.p[k]):
                if eng.valid(st, a[0] == f):
                    eng.check(st, st.ghost['g'][f'o{w}{k}'] == 1, "a pipe is closed once")
                    self.g(st, **{f'o{w}{k}': 0})
                    return [(st, BV(0, 32))]
        eng.check(st, False, "closes only its own pipes")
        return []

    def splice(self, eng, st, a, I):
        TRUST.use("splice", "moves 1 to len bytes in order; 0 at the end of the input; -1 with errno otherwise (EAGAIN: nothing moved, try later); from an empty pipe EAGAIN")
        fi, fo, n, fl = a[0], a[2], a[4], a[5]
        eng.check(st, z3.And(same_ptr(eng, eng.as_ptr(a[1]), NULL), same_ptr(eng, eng.as_ptr(a[3]), NULL)), "moves at the current positions")
        eng.check(st, (fl & NONBLOCK) != 0, "never blocks the thread in the kernel")
        eng.check(st, z3.And(n != 0, z3.ULT(n, 1 << 62)), "asks for at least one byte")
        q = st.ghost['g']
        eng.check(st, q['stop'] == 0, "moves nothing after being asked to stop")
        r = fresh("moved", 64)
        er = fresh("err", 32)
        st.assume(z3.And(er > 0, er < 4096, r >= -1, r <= n))
        set_errno(eng, st, simp(z3.If(r < 0, er, get_errno(eng, st))))
        blk = z3.And(r < 0, er == EAGAIN)
        for k in (0, 1):
            if eng.valid(st, fo == self.p[k][1]):
                return self.take(eng, st, k, fi, r, er, blk)
            if eng.valid(st, fi == self.p[k][0]):
                return self.give(eng, st, k, fo, r, er, blk)
        eng.check(st, False, "moves bytes through its own pipes")
        return []

    def take(self, eng, st, k, fi, r, er, blk):
        q = st.ghost['g']
        eng.check(st, q[f'ow{k}'] == 1, "moves bytes through open pipes")
        src = q[f'src{k}']
        d = simp(z3.If(fi == self.ai, BV(1, 64), z3.If(fi == self.bi, BV(2, 64), BV(3, 64))))
        eng.check(st, d != 3, "reads from the inputs")
        eng.check(st, z3.Or(src == 0, src == d), "directions are not mixed")
        eng.check(st, z3.Or(q[f'src{1-k}'] == 0, q[f'src{1-k}'] != d), "one pipe for each direction")
        eng.check(st, q[f'ofail{k}'] == 0, "nothing is read for an output that failed")
        c = q[f'cont{k}']
        st.assume(c + r < 1 << 40)
        eng.cover(st, f"input {k} moves")
        self.g(st, **{f'src{k}': d, f'cont{k}': z3.If(r > 0, c + r, c), f'eof{k}': b2i(z3.And(r <= 0, z3.Not(blk))), f'inblk{k}': b2i(blk)})
        return [(st, r)]

    def give(self, eng, st, k, fo, r, er, blk):
        q = st.ghost['g']
        eng.check(st, q[f'or{k}'] == 1, "moves bytes through open pipes")
        src, c = q[f'src{k}'], q[f'cont{k}']
        eng.check(st, fo == z3.If(src == 1, self.bo, self.ao), "each direction has its own output")
        eng.check(st, q[f'ofail{k}'] == 0, "nothing is written to an output that failed")
        st.assume(z3.If(c == 0, blk, z3.And(r != 0, r <= c)))
        eng.cover(st, f"output {k} moves")
        self.g(st, **{f'cont{k}': z3.If(r > 0, c - r, c), f'outblk{k}': b2i(z3.And(blk, c > 0)), f'ofail{k}': b2i(z3.And(r < 0, z3.Not(blk)))})
        return [(st, r)]

    def ended(self, q):
        shared = z3.Or(self.ai == self.ao, self.bi == self.bo)
        a, b = done(q, 0), done(q, 1)
        return z3.Or(z3.And(a, b), z3.And(shared, z3.Or(a, b)))

    def wait(self, eng, st, typ):
        q = st.ghost['g']
        eng.check(st, q['stop'] == 0, "does not go on after being asked to stop")
        eng.check(st, q['made'] == 2, "waits only when set up")
        W, Y = self.cx.const("HEV_TASK_WAITIO"), self.cx.const("HEV_TASK_YIELD")
        eng.check(st, z3.Or(typ == W, typ == Y), "gives up the CPU as waiting or as runnable")
        for s, w in eng.branch(st, typ == W):
            q = s.ghost['g']
            if w:
                eng.cover(s, "waits")
                eng.check(s, z3.Not(self.ended(q)), "does not wait when there is nothing left to do")
                for k in (0, 1):
                    eng.check(s, z3.Or(done(q, k), q[f'outblk{k}'] != 0, z3.And(q[f'inblk{k}'] != 0, q[f'cont{k}'] == 0)), "waits only when neither direction could progress")
            else:
                eng.cover(s, "goes on")
            set_errno(eng, s, fresh("errno", 32))
            self.g(s, inblk0=0, inblk1=0, outblk0=0, outblk1=0)
            yield s

    def yield_(self, eng, st, a, I):
        eng.check(st, not self.yielder, "uses the caller's yielder")
        return [(s, None) for s in self.wait(eng, st, a[0])]

    def yielder_(self, eng, st, a, I):
        eng.check(st, eng.as_bv(st, a[1], 64) == self.ydata, "yielder gets its own data")
        outs = []
        for s in self.wait(eng, st, a[0]):
            r = fresh("yielder", 32)
            self.g(s, stop=b2i(r != 0))
            outs.append((s, r))
        return outs


def proof(yielder):
    def f(cx):
        p = P(cx, yielder)
        e, st = cx.eng, p.st
        n = cx.inp(st, "buf_size")
        st.assume(z3.And(n != 0, z3.ULT(n, 1 << 30)))
        for s, _ in e.call(st, F, p.fds + [n, Ptr("fn:yielder!") if yielder else NULL, Ptr(None, p.ydata)]):
            q = s.ghost['g']
            for k in (0, 1):
                e.check(s, z3.And(q[f'or{k}'] == 0, q[f'ow{k}'] == 0), "everything acquired is released")
            for s2, bad in e.branch(s, q['failed'] != 0):
                if bad:
                    e.cover(s2, "cannot be set up")
                    continue
                e.cover(s2, "returns")
                e.check(s2, z3.Or(q['stop'] != 0, p.ended(q)), "returns only when done or asked to stop")
                if not yielder:
                    e.check(s2, q['stop'] == 0, "nobody asks to stop")
    return f


PROOFS = [Proof(n, proof(y), [F]) for n, y in (("yield", False), ("yielder", True))]
ASSUMPTIONS = ["the variant with splice(2), which configs.mk selects; the two inputs are different descriptors, registered with the task by the caller"]
