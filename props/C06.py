"""C06 sleeping: the timer serves the earliest expiry, results are the time left"""
import z3
from dv.harness import *
from props.common import Env
from props.tree import Tree, Descent

NODE, MOD = "_HevTaskTimerNode", "hev-task-timer"
ABSTIME, MONOTONIC = 1, 1
SEC = 1000000000
CLOCK_MAX = 1 << 40


class Timer:
    def __init__(self, cx):
        self.cx, self.e = cx, cx.eng
        e = cx.eng
        self.ns = cx.prog.struct(NODE, MOD)
        self.ts = cx.prog.struct("_HevTaskTimer", MOD)
        self.fs = cx.prog.struct("_HevTaskTimerTimerFD", "hev-task-timer-timerfd")
        self.exp = self.ns['expire'][0]
        self.task_off = self.ns['task'][0]
        self.env = Env(cx, self.on_yield)
        self.tree = Tree(cx, self.ns['base'][0], self.member, self.key, 128, strict=False)
        self.tree.fname = "sleepers"
        cs = cx.prog.struct("_HevTaskSystemContext", "hev-task")
        self.cs = cs
        e.stubs.update({'hev_task_system_get_context': lambda eng, st, a, I: [(st, Ptr(st.ghost['ctx']))],
                        'clock_gettime': self.s_clock, 'timerfd_settime': self.s_settime})
        e.loop_policy = self.policy
        e.ints_first = e.defdiv = True
        cx.prog.global_symbolic = lambda key: False      # the dummy task: its state is part of the invariant checked below
        self.dsc = Descent(self.tree, self.newobj)
        self.dsc.cut = lambda eng, st: self.cut(eng, st, self.newobj(st))
        TRUST.use("ordered tree", "hev_rbtree_cached_insert_color and _erase keep the order of the other members and the cached first element (proved under C12)")
        TRUST.use("clock", "CLOCK_MONOTONIC readings are well-formed, below 2^40 s and never go back")

    def policy(self, eng, st, fn, h):
        return self.dsc if 'tree' in st.ghost else None

    def newobj(self, st):
        for o in sorted(st.objs.values(), key=lambda o: -o.id):
            if o.kind == 'stack' and o.size_const() == self.ns[''][1] if hasattr(o, 'size_const') else (o.kind == 'stack' and cval(bv(o.size)) == self.ns[''][1]):
                if isinstance(self.e.raw(st, o.id, self.exp), z3.BitVecRef):
                    return o.id
        return None

    def field(self, st, o, off):
        return self.e.as_bv(st, self.e.raw(st, o, off), 64)

    def key(self, eng, st, o):
        return z3.Concat(self.field(st, o, self.exp), self.field(st, o, self.exp + 8))

    def wellformed(self, s, n):
        return z3.And(z3.ULT(s, CLOCK_MAX * 2), z3.ULT(n, SEC))

    def member(self, eng, st):
        o = st.new_obj("sleeper", self.ns[''][1], 'heap')
        s, n = fresh("exp_s", 64), fresh("exp_n", 64)
        st.assume(z3.And(self.wellformed(s, n), z3.Or(s != 0, n != 0)))
        eng.poke(st, o.id, self.exp, 8, s)
        eng.poke(st, o.id, self.exp + 8, 8, n)
        eng.poke(st, o.id, self.task_off, 8, Ptr(self.env.task(st, "sleeping")))
        return o.id

    def setup(self, st):
        e = self.e
        me = self.env.me(st)
        c = st.new_obj("context", self.cs[''][1], 'heap').id
        t = st.new_obj("timer", self.fs[''][1], 'heap').id
        st.ghost.update(ctx=c, timer=t)
        e.poke(st, c, self.cs['timer'][0], 8, Ptr(t))
        e.poke(st, c, self.cs['current_task'][0], 8, Ptr(me))
        self.fd = self.cx.inp(st, "timerfd", 32)
        e.poke(st, t, self.fs['fd'][0], 4, self.fd)
        st.ghost['now'] = self.clock(st)
        return self.generic(st, ())

    def clock(self, st, after=None):
        s, n = fresh("now_s", 64), fresh("now_n", 64)
        st.assume(z3.And(z3.ULT(s, CLOCK_MAX), z3.ULT(n, SEC)))
        if after is not None:
            st.assume(z3.Or(z3.ULT(after[0], s), z3.And(after[0] == s, z3.ULE(after[1], n))))
        return s, n

    def generic(self, st, known):
        """any state in which the timer serves the earliest sleeper"""
        e = self.e
        N = fresh("sleepers", 64)
        st.assume(z3.ULT(N, 1 << 31))
        t = st.ghost['timer']
        ent = self.ts['sched_entity'][0]
        outs = []
        self.tree.init(st, t, self.ts['sort_tree'][0], N, known)
        for s, f in self.tree.r_first(e, st):
            if f.is_null():
                for s2, a, p in ((s.fork(), None, NULL), (s, (fresh("armed_s", 64), fresh("armed_n", 64)), self.dummy(s))):
                    s2.ghost['armed'] = a
                    e.poke(s2, t, ent, 8, p)
                    outs.append(s2)
            else:
                s.ghost['armed'] = (self.field(s, f.obj, self.exp), self.field(s, f.obj, self.exp + 8))
                e.poke(s, t, ent, 8, e.raw(s, f.obj, self.task_off))
                outs.append(s)
        return outs

    def dummy(self, st):
        if 'dummy' not in st.ghost:
            o = st.new_obj("dummy", self.cx.prog.struct("_HevTask", "hev-task")[''][1], 'heap')
            View(self.cx, st, o.id, "_HevTask", module="hev-task").set('state', self.cx.const("HEV_TASK_RUNNING"))
            st.ghost['dummy'] = o.id
        return Ptr(st.ghost['dummy'])

    def check_inv(self, st, where):
        e = self.e
        outs = []
        t = st.ghost['timer']
        for o, k in self.tree.members(st).items():
            e.check(st, bool(st.objs[o].alive), f"{where}: every registered sleeper exists")
            e.check(st, self.key(e, st, o) == k, f"{where}: the sleepers are in order")
        for s, f in self.tree.r_first(e, st):
            p = e.as_ptr(e.raw(s, t, self.ts['sched_entity'][0]))
            a = s.ghost['armed']
            if f.is_null():
                ok = a is None
                if not ok and p.obj is not None:
                    # nobody sleeps: the event may only reach something that is never waiting
                    ok = p.obj not in s.ghost['run'] and p.off.const() == 0 and e.as_bv(s, e.peek(s, p.obj, View(self.cx, s, p.obj, "_HevTask", module="hev-task").off('state'), 4), 32) == self.cx.const("HEV_TASK_RUNNING")
                e.check(s, ok, f"{where}: with nobody asleep the timer wakes no task")
            else:
                e.check(s, bool(a is not None), f"{where}: the timer is armed while somebody sleeps")
                if a is None:
                    continue
                e.check(s, z3.And(a[0] == self.field(s, f.obj, self.exp), a[1] == self.field(s, f.obj, self.exp + 8)), f"{where}: the timer is armed for the earliest expiry")
                e.check(s, same_ptr(e, p, e.as_ptr(e.raw(s, f.obj, self.task_off))), f"{where}: the timer's event wakes the task of the earliest expiry")
            outs.append(s)
        return outs

    # ---- environment
    def s_clock(self, eng, st, a, I):
        who = st.frames[-1].fn.name
        eng.check(st, eng.as_bv(st, a[0], 32) == MONOTONIC, f"{who}: reads the clock the timer runs on")
        st.ghost['now'] = s, n = self.clock(st, st.ghost['now'])
        if st.ghost.get('began') is None:
            st.ghost['began'] = (s, n)
        p = eng.as_ptr(a[1])
        for s2 in eng.store(st, p, 8, s, "clock_gettime"):
            pass
        for s2 in eng.store(st, p.plus(8), 8, n, "clock_gettime"):
            pass
        return [(st, BV(0, 32))]

    def s_settime(self, eng, st, a, I):
        TRUST.use("timerfd_settime", "arms the timer for the given absolute time; its event is reported to the entity registered for the timer (also when the time has passed already)")
        f = "arming the timer"
        eng.check(st, eng.as_bv(st, a[0], 32) == self.fd, f"{f}: the timer's own descriptor")
        eng.check(st, eng.as_bv(st, a[1], 32) == ABSTIME, f"{f}: an absolute time")
        p = eng.as_ptr(a[2])
        v = []
        for off in (0, 8, 16, 24):
            (st, x), = eng.load(st, p.plus(off), 8, 'i', "timerfd_settime")
            v.append(eng.as_bv(st, x, 64))
        eng.check(st, z3.And(v[0] == 0, v[1] == 0), f"{f}: fires once")
        eng.check(st, z3.And(v[2] >= 0, v[3] >= 0, v[3] < SEC), f"{f}: the time is well-formed")
        eng.check(st, z3.Or(v[2] != 0, v[3] != 0), f"{f}: not disarmed while a task sleeps")
        st.ghost['armed'] = (v[2], v[3])
        return [(st, BV(0, 32))]

    def cut(self, eng, s, o):
        """the expiry is the requested time from now; go on with that fact alone"""
        if s.ghost.get('expiry') is not None or o is None:
            return
        b, us = s.ghost.get('began'), s.ghost['us']
        q, r = eng.divmod(s, us, 1000000)
        n = b[1] + r * 1000
        es, en = z3.If(z3.UGE(n, SEC), b[0] + q + 1, b[0] + q), z3.If(z3.UGE(n, SEC), n - SEC, n)
        eng.check(s, z3.And(self.field(s, o, self.exp) == es, self.field(s, o, self.exp + 8) == en), "sleep: expires exactly the requested time from now")
        x, y = fresh("exp_s", 64), fresh("exp_n", 64)
        # the same as one equation in nanoseconds, used for the result
        lem = lambda p, q: z3.And(z3.ULT(p - b[0], 1 << 24), (p - b[0]) * SEC + q - b[1] == us * 1000)
        eng.check(s, lem(es, en), "sleep: expiry minus now is the requested time")
        s.ghost['lemma'] = lem(x, y)
        s.pc = type(s.pc)(c for c in s.pc if not any(v.startswith(('quot', 'rem')) for v in eng._vars(c)))
        s.assume(z3.And(self.wellformed(x, y), z3.UGE(x, b[0]), z3.Or(x != 0, y != 0)))
        s.ghost['div'] = {}
        eng.poke(s, o, self.exp, 8, x)
        eng.poke(s, o, self.exp + 8, 8, y)
        s.ghost['expiry'] = (x, y)

    def on_yield(self, eng, st, waitio):
        eng.check(st, bool(waitio), "sleep: the task waits instead of staying runnable")
        own = [o for o in self.tree.members(st) if st.objs[o].kind == 'stack']
        eng.check(st, bool(len(own) == 1), "sleep: the sleeper is registered while it waits")
        outs = []
        for s in self.check_inv(st, "sleep, before waiting"):
            if len(own) == 1:
                o = own[0]
                eng.check(s, same_ptr(eng, eng.as_ptr(eng.raw(s, o, self.task_off)), Ptr(s.ghost['me'])), "sleep: the sleeper is the calling task")
                self.cut(eng, s, o)
            s.ghost['yielded'] = s.ghost.get('yielded', 0) + 1
            s.ghost['now'] = self.clock(s, s.ghost['now'])
            outs += self.generic(s, tuple(own))
        return outs


def lemma_remaining(cx, st, brw):
    """integers: what remains of a time that started at b, ends at x = b + us and is read at n >= b
    is at most us (all values are far below 2^64, so the machine arithmetic is the integers')"""
    b0, b1, x0, x1, n0, n1, us, q, r = z3.Ints("b0 b1 x0 x1 n0 n1 us q r")
    ds, dn = x0 - n0 - (1 if brw else 0), x1 - n1 + (SEC if brw else 0)
    hyp = [v >= 0 for v in (b0, b1, x0, x1, n0, n1, us, q, r)] + [v < SEC for v in (b1, x1, n1)]
    hyp += [(x0 - b0) * SEC + x1 - b1 == us * 1000, z3.Or(n0 > b0, z3.And(n0 == b0, n1 >= b1)), x0 >= b0, x0 - b0 < 1 << 24,
            z3.Or(x0 > n0, z3.And(x0 == n0, x1 > n1)), (x1 < n1) if brw else (x1 >= n1), dn == 1000 * q + r, r < 1000]
    s = z3.Solver()
    s.add(*hyp)
    s.add(z3.Not(z3.And(ds >= 0, ds < 1 << 24, ds * 1000000 + q <= us)))
    cx.eng.check(st, bool(s.check() == z3.unsat), "lemma (integers): never more remains than requested")


def p_sleep(cx, fn, unit):
    T = Timer(cx)
    e = cx.eng
    st = cx.state()
    arg = cx.inp(st, "time", 32)
    st.ghost['us'] = z3.ZeroExt(32, arg) * unit
    for st in T.setup(st):
        for s, r in e.call(st, fn, [arg]):
            e.cover(s, fn)
            r = z3.ZeroExt(32, e.as_bv(s, r, 32))
            for o in T.tree.members(s):
                e.check(s, bool(s.objs[o].kind != 'stack'), f"{fn}: the sleeper is gone on return")
            T.check_inv(s, f"{fn}, on return")
            if not s.ghost.get('yielded'):
                e.check(s, z3.And(arg == 0, r == 0), f"{fn}: sleeps unless the time is 0")
                continue
            x, now = s.ghost['expiry'], s.ghost['now']
            keep = set()
            for t in (x + now + s.ghost['began'] + (r, s.ghost['lemma'])):
                keep |= e._vars(t)
            # (dropping facts is sound)
            s.pc = tuple(c for c in s.pc if all(v in keep or v.startswith(('now_', 'quot', 'rem')) for v in e._vars(c)))
            past = z3.Or(z3.ULT(x[0], now[0]), z3.And(x[0] == now[0], z3.ULE(x[1], now[1])))
            for s, gone in e.branch(s, past):
                if gone:
                    e.check(s, r == 0, f"{fn}: nothing remains once the time is over")
                    continue
                for s, brw in e.branch(s, z3.ULT(x[1], now[1])):
                    ds = x[0] - now[0] - (1 if brw else 0)
                    dn = x[1] - now[1] + (SEC if brw else 0)
                    # ds seconds and dn < 1e9 nanoseconds are left
                    us = ds * 1000000 + e.divmod(s, dn, 1000)[0]
                    lemma_remaining(cx, s, brw)
                    s.assume(z3.ULE(us, s.ghost['us']))
                    left = us if unit == 1 else e.divmod(s, us, unit)[0]
                    e.check(s, r == left, f"{fn}: returns the time remaining, 0 only when less than a unit remains")
                    e.check(s, z3.ULE(left, z3.ZeroExt(32, arg)), f"{fn}: never reports more than requested")


PROOFS = [Proof("usleep", lambda cx: p_sleep(cx, "hev_task_usleep", 1), ["hev_task_usleep", "hev_task_timer_wait", "hev_task_timer_node_compare", "hev_task_timer_get_expire", "hev_task_timer_get_time", "hev_task_timer_set_time"]),
          Proof("sleep", lambda cx: p_sleep(cx, "hev_task_sleep", 1000), ["hev_task_sleep"])]
ASSUMPTIONS = ["other tasks change the sleepers and the timer only through the functions verified here (rely/guarantee over the points where the task gives up the CPU)",
               "epoll reports the timer's event to the registered entity (hev_task_timer_new registers it: C27)"]
