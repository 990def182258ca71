"""C21 cooperative poll"""
import z3
from dv.harness import *
from props.io import GLoop, b2i

F = "hev_task_io_poll"


class PollLoop(GLoop):
    def cell_candidates(self, eng, st0, cells):
        out = []
        K = st0.ghost['K']
        for n, g in cells.items():
            def cond(e, s, f, g=g):
                x = g(e, s)
                return None if x is None else f(x, s.ghost['g'])
            for nm, f in (("> K registered", lambda x, q: z3.Implies(z3.UGT(x, K), q['seen'] != 0)),
                          ("<= K registered", lambda x, q: z3.Implies(z3.ULE(x, K), q['seen'] != 0)),
                          ("beyond K registered", lambda x, q: z3.Implies(z3.UGT(x, 8 * K), q['seen'] != 0)),
                          ("up to K registered", lambda x, q: z3.Implies(z3.ULE(x, 8 * K), q['seen'] != 0)),
                          ("at most the end", lambda x, q: z3.ULE(x, 8 * z3.ZeroExt(32, self.io.n))),
                          ("is the time left", lambda x, q: x == self.io.t0 - q['t']),
                          ("negative", lambda x, q: z3.Extract(31, 31, x) == 1),
                          ("at most nfds", lambda x, q: z3.ULE(x, z3.ZeroExt(32, self.io.n))),
                          ("result", lambda x, q: z3.Extract(31, 0, x) == z3.Extract(31, 0, q['res']))):
                out.append((f"{n} {nm}", lambda e, s, f=f, cond=cond: cond(e, s, f)))
        return out

    def owned(self, eng, st):
        return list(super().owned(eng, st)) + [st.ghost['fds']]

    def havoc(self, eng, st):
        outs = super().havoc(eng, st)
        for s in outs:
            fresh_revents(s)
        return outs


def fresh_revents(st):
    o = st.wobj(st.ghost['fds'])
    o.soa = dict(o.soa)
    o.soa[6] = z3.Array(f"revents{fresh('x', 8)}", B(64), B(16))


class P:
    def __init__(self, cx, kind):
        self.cx, self.kind, self.fname = cx, kind, F
        e = cx.eng
        self.st = st = cx.state()
        self.n = cx.inp(st, "nfds", 32)
        self.t = cx.inp(st, "timeout", 32)
        st.assume({'zero': self.t == 0, 'positive': self.t > 0, 'negative': self.t < 0}[kind])
        st.assume(z3.ULE(self.n, 1 << 20))
        self.t0 = z3.SignExt(32, self.t)
        self.fd, self.ev = z3.Array("fd", B(64), B(32)), z3.Array("events", B(64), B(16))
        o = st.new_obj("fds", simp(z3.ZeroExt(32, self.n) * 8), 'input')
        o.soa = {0: self.fd, 4: self.ev, 6: z3.Array("revents", B(64), B(16))}
        o.stride = 8
        st.ghost['fds'] = o.id
        st.ghost['me'] = me = st.new_obj("me", 8, 'heap').id
        K = z3.BitVec("which", 64)
        st.assume(z3.Or(self.n == 0, z3.ULT(K, z3.ZeroExt(32, self.n))))
        st.ghost['K'] = K
        z = BV(0, 64)
        st.ghost['g'] = dict(seen=b2i(self.n == 0), t=z, res=z, polled=z, waits=z, polls=z)
        set_errno(e, st, fresh("errno", 32))
        self.cands = [("time within the timeout", lambda e, s: z3.And(s.ghost['g']['t'] >= 0, s.ghost['g']['t'] <= z3.If(self.t0 > 0, self.t0, 0))),
                      ("time left", lambda e, s: s.ghost['g']['t'] < self.t0),
                      ("last result 0 or not asked", lambda e, s: z3.Or(s.ghost['g']['polled'] == 0, s.ghost['g']['res'] == 0)),
                      ("result asked for", lambda e, s: s.ghost['g']['polled'] != 0),
                      ("asked since the last wait", lambda e, s: z3.Or(s.ghost['g']['waits'] == 0, s.ghost['g']['polled'] != 0)),
                      ("registered", lambda e, s: s.ghost['g']['seen'] != 0)]
        e.stubs.update({'poll': self.poll, 'hev_task_sleep': self.sleep, 'hev_task_usleep': self.nosleep, 'hev_task_yield': self.yield_,
                        'hev_task_self': lambda eng, st, a, I: [(st, Ptr(st.ghost['me']))], 'hev_task_mod_fd': self.reg('mod'), 'hev_task_add_fd': self.reg('add')})
        e.loop_policy = lambda eng, s, fn, h: PollLoop(self)
        TRUST.use("poll", "with timeout 0 returns the number of ready descriptors of the array, 0 if none, or -1, without waiting")

    def g(self, st, **kw):
        st.ghost['g'] = dict(st.ghost['g'], **{k: simp(v) if not isinstance(v, int) else BV(v, 64) for k, v in kw.items()})

    def poll(self, eng, st, a, I):
        p = eng.as_ptr(a[0])
        eng.check(st, bool(p.obj == st.ghost['fds'] and p.off.const() == 0), "asks the kernel about the caller's array")
        n = a[1]
        eng.check(st, n == z3.ZeroExt(n.size() - 32, self.n), "asks the kernel about all descriptors")
        eng.check(st, a[2] == 0, "never blocks the thread in the kernel")
        q = st.ghost['g']
        eng.check(st, z3.Or(q['polled'] == 0, q['res'] == 0), "a result is not thrown away")
        r = fresh("ready", 32)
        st.assume(z3.And(r >= -1, r <= self.n))
        fresh_revents(st)
        self.g(st, res=z3.SignExt(32, r), polled=1, polls=q['polls'] + 1)
        return [(st, r)]

    def wait(self, eng, st):
        q = st.ghost['g']
        eng.check(st, bool(self.kind != 'zero'), "timeout 0 never waits")
        eng.check(st, q['seen'] != 0, "every descriptor is registered with its events before waiting")
        eng.check(st, z3.Or(q['waits'] == 0, q['polled'] != 0), "asks the kernel after every wait")
        eng.check(st, z3.Or(q['polled'] == 0, q['res'] == 0), "waits again only while nothing is ready")
        eng.cover(st, f"waits ({self.kind})")

    def sleep(self, eng, st, a, I):
        TRUST.use("hev_task_sleep", "returns the time left, at most the one asked for; 0 only when it is over (proved under C06)")
        self.wait(eng, st)
        ms = z3.ZeroExt(32, a[0])
        q = st.ghost['g']
        eng.check(st, bool(self.kind == 'positive'), "a negative timeout waits without limit")
        eng.check(st, z3.And(ms > 0, ms <= self.t0 - q['t']), "waits for no longer than the time left")
        r = fresh("left", 32)
        st.assume(z3.ULE(r, a[0]))
        self.g(st, t=q['t'] + ms - z3.ZeroExt(32, r), polled=0, waits=1)
        return [(st, r)]

    def nosleep(self, eng, st, a, I):
        raise Unsupported("usleep")

    def yield_(self, eng, st, a, I):
        self.wait(eng, st)
        eng.check(st, a[0] == self.cx.const("HEV_TASK_WAITIO"), "waits as a waiting task")
        eng.check(st, bool(self.kind == 'negative'), "a positive timeout is honoured while waiting")
        self.g(st, polled=0, waits=1)
        return [(st, None)]

    def reg(self, how):
        def h(eng, st, a, I):
            p = eng.as_ptr(a[0])
            eng.check(st, bool(p.obj == st.ghost['me']), "registers the calling task")
            fd, ev = a[1], a[2]
            K = st.ghost['K']
            hit = z3.And(fd == self.fd[K], z3.Or(ev == z3.SignExt(16, self.ev[K]), ev == z3.ZeroExt(16, self.ev[K])))
            r = fresh(how, 32)
            st.assume(z3.And(r >= -1, r <= 0))
            if how == 'mod':
                hit = z3.And(hit, r >= 0)
            self.g(st, seen=b2i(z3.Or(st.ghost['g']['seen'] != 0, hit)))
            return [(st, r)]
        return h


def proof(kind):
    def f(cx):
        p = P(cx, kind)
        e = cx.eng
        for s, r in e.call(p.st, F, [Ptr(p.st.ghost['fds']), p.n, p.t]):
            q = s.ghost['g']
            e.cover(s, f"returns ({kind})")
            e.check(s, q['polled'] != 0, "the kernel is asked after the last wait")
            e.check(s, z3.SignExt(32, r) == q['res'], "returns the kernel's result")
            if kind == 'zero':
                e.check(s, q['polls'] == 1, "timeout 0 asks exactly once")
            elif kind == 'positive':
                e.check(s, z3.Implies(r == 0, q['t'] == p.t0), "returns 0 only when the time is over")
            else:
                e.check(s, r != 0, "a negative timeout never returns 0")
            o = s.objs[s.ghost['fds']]
            k = fresh("k", 64)
            e.check(s, z3.And(o.soa[0][k] == p.fd[k], o.soa[4][k] == p.ev[k]), "descriptors and requested events are not modified")
    return f


PROOFS = [Proof(k, proof(k), [F]) for k in ('zero', 'positive', 'negative')]
ASSUMPTIONS = ["hev_task_mod_fd and hev_task_add_fd register the descriptor as proved under C03; a descriptor occurs once in the array (a later entry for the same descriptor replaces the registration)",
               "time passes only while waiting"]
