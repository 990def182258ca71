"""the scheduler: generic consistent states, contracts, and the loops of the kernel part.

A task is 'in' (runnable, queued), 'out' (waiting, not queued) or 'stopped'.  The run queue is the
abstract sorted sequence of props/tree.py; its contracts are C12's."""
import z3
from dv.harness import *
from props.tree import Tree, Descent, T

CTX, TASK = "_HevTaskSystemContext", "_HevTask"
MC, MT = "hev-task-system-schedule", "hev-task-system-schedule"
KEYMAX = 1 << 62


class Sched:
    def __init__(self, cx, tags):
        self.cx, self.e, self.tags = cx, cx.eng, set(tags)
        e = self.e
        for n in ("RUNNING", "WAITING", "STOPPED", "YIELD", "WAITIO", "YIELD_COUNT", "RUN_SCHEDULER", "SCHED_REMOVE", "PRIORITY_MIN", "PRIORITY_MAX"):
            setattr(self, n, cx.const("HEV_TASK_" + n))
        self.ts = cx.prog.struct(TASK, MT)
        self.cs = cx.prog.struct(CTX, MC)
        self.ent = self.ts['sched_entity'][0]
        self.tree = t = Tree(cx, self.ts['sched_node'][0], self.member, self.key, 64, strict=True)
        t.fname = "run queue"
        t.quiet = not ({'order'} & self.tags)
        t.pre_insert, t.on_insert, t.on_erase = self.pre_insert, self.on_insert, self.on_erase
        self.fname = "schedule"
        self.on_jump = None
        self.allowed = None
        e.stubs.update({'hev_task_system_get_context': lambda eng, st, a, I: [(st, Ptr(st.ghost['ctx']))],
                        '_longjmp': self.s_longjmp, 'longjmp': self.s_longjmp, 'siglongjmp': self.s_longjmp,
                        '_setjmp': self.s_setjmp, 'epoll_wait': self.s_epoll_wait,
                        'hev_task_unref': self.s_unref, 'hev_task_execute': self.s_execute})
        e.loop_policy = self.policy
        e.on_store = self.on_store
        self.cx.prog.alloca_hook = None
        TRUST.use("ordered tree", "hev_rbtree_cached_insert_color and _erase keep the order of the other members and the cached first element (proved under C12)")
        TRUST.use("setjmp/longjmp", "longjmp resumes after the setjmp that filled the buffer; unmodified locals keep their values")

    def chk(self, tag, st, c, name, kind="post"):
        if self.tags & set(tag.split()):
            self.e.check(st, c, name, kind)

    # ---- objects
    def tv(self, st, o):
        return View(self.cx, st, o, TASK, module=MT)

    def cv(self, st):
        return View(self.cx, st, st.ghost['ctx'], CTX, module=MC)

    def key(self, eng, st, o):
        return self.tv(st, o).get('sched_key')

    def task(self, st, name, status):
        e = self.e
        o = st.new_obj(name, self.ts[''][1], 'heap')
        v = self.tv(st, o.id)
        k = fresh(name + ".key", 64)
        v.set('sched_key', k)
        np = fresh(name + ".next_priority", 32)
        pr = fresh(name + ".priority", 32)
        for x in (np, pr):
            st.assume(z3.And(x >= self.PRIORITY_MIN, x <= self.PRIORITY_MAX))
        v.set('next_priority', np)
        v.set('priority', pr)
        v.set('state', {'in': self.RUNNING, 'out': self.WAITING, 'stopped': self.STOPPED}[status])
        e.poke(st, o.id, self.ent, 8, Ptr(o.id))
        st.assume(z3.ULT(k, KEYMAX))
        if status == 'out':
            st.assume(z3.And(z3.UGE(k, self.PRIORITY_MIN), z3.ULE(k, self.PRIORITY_MAX)))
        self.status(st, o.id, status)
        st.ghost['key0'] = dict(st.ghost.get('key0', {})) | {o.id: k}
        return o.id

    def status(self, st, o, s):
        st.ghost['tasks'] = dict(st.ghost.get('tasks', {})) | {o: s}

    def member(self, eng, st):
        return self.task(st, "queued", 'in')

    def context(self, st):
        o = st.new_obj("context", self.cs[''][1], 'heap')
        st.ghost['ctx'] = o.id
        return o.id

    def consistent(self, st, current=None, known=()):
        """an arbitrary consistent state of the scheduler in which the given tasks are queued"""
        st.ghost.setdefault('tasks', {})
        v = self.cv(st)
        N, tot = fresh("runnable", 64), fresh("live", 64)
        st.assume(z3.And(z3.ULT(N, 1 << 31), z3.ULT(tot, 1 << 31), z3.ULE(N, tot)))
        note_input(st, "running_task_count", N)
        note_input(st, "total_task_count", tot)
        v.set('running_task_count', z3.Extract(31, 0, N))
        v.set('total_task_count', z3.Extract(31, 0, tot))
        st.ghost['total'] = tot
        v.set('current_task', NULL if current is None else Ptr(current))
        v.set('reactor', Ptr(self.reactor(st)))
        st.assume(tot - N >= len([1 for x in st.ghost['tasks'].values() if x == 'out']))
        self.tree.init(st, st.ghost['ctx'], self.cs['running_tasks'][0], N, known)
        st.ghost['polls'] = 0
        return N, tot

    def reactor(self, st):
        if st.ghost.get('reactor') is None:
            st.ghost['reactor'] = st.new_obj("reactor", 16, 'heap').id
        return st.ghost['reactor']

    # ---- obligations
    def check_consistent(self, st, where):
        v = self.cv(st)
        t = st.ghost['tree']
        for o, s in st.ghost['tasks'].items():
            if not st.objs[o].alive:
                continue
            want = {'in': self.RUNNING, 'out': self.WAITING, 'stopped': self.STOPPED}[s]
            self.chk('state', st, self.tv(st, o).get('state') == want, f"{where}: a task's state says whether it is queued")
        self.chk('state', st, z3.ZeroExt(32, v.get('running_task_count')) == t['N'], f"{where}: the count of runnable tasks is exact")
        self.chk('state', st, z3.ZeroExt(32, v.get('total_task_count')) == st.ghost['total'], f"{where}: the count of live tasks is exact")
        for o, k in t['known'].items():
            self.chk('order', st, self.key(self.e, st, o) == k, f"{where}: the queue is in order of virtual time")

    def pre_insert(self, eng, st, o):
        s0 = st.ghost['tasks'].get(o)
        self.chk('state', st, bool(s0 in ('out', 'stopped')), f"run queue: only a task that is not queued is queued")
        if s0 not in ('out', 'stopped') or 'order' not in self.tags:
            return [st]
        outs = []
        exp = st.ghost.get('expect', {}).get(o)
        v = self.tv(st, o)
        if exp is not None:
            eng.check(st, v.get('sched_key') == exp, "run queue: virtual time as accounted")
            return [st]
        base = st.ghost['key0'][o]
        if st.ghost.get('no_min'):
            eng.check(st, v.get('sched_key') == base, "run queue: before the system runs a task starts at its own priority")
            return [st]
        for s, f in self.tree.r_first(eng, st):
            mn = BV(0, 64) if f.is_null() else s.ghost['tree']['known'][f.obj]
            eng.check(s, self.tv(s, o).get('sched_key') == base + mn, "run queue: a new or woken task starts at its priority above the minimum")
            outs.append(s)
        return outs

    def on_insert(self, eng, st, o):
        v = self.tv(st, o)
        self.chk('order', st, v.get('priority') == v.get('next_priority'), "run queue: a changed priority takes effect when the task is queued")
        self.status(st, o, 'in')
        st.ghost['inserted'] = st.ghost.get('inserted', ()) + (o,)

    def on_erase(self, eng, st, o):
        self.status(st, o, 'out')
        self.chk('state', st, bool(st.ghost.get('may_leave') == o), "run queue: only the task that gave up the CPU leaves the queue")

    def on_store(self, eng, st, o, off, n, v):
        """frame: which tasks may be written"""
        if o.id in st.ghost.get('tasks', {}) and self.allowed is not None and o.id not in self.allowed(st):
            c = off.const()
            nd = self.ts['sched_node']
            link = c is not None and nd[0] <= c < nd[0] + nd[1]
            self.chk('frame', st, bool(link), f"{self.fname}: no other task is changed", "frame")

    # ---- contracts
    def s_unref(self, eng, st, args, I):
        p = eng.as_ptr(args[0])
        cur = st.ghost.get('ending')
        self.chk('state life', st, bool(cur is not None and p.obj == cur and p.off.const() == 0 and not st.ghost.get('unreffed')), f"{self.fname}: exactly the finished task gives up the scheduler's reference, once")
        if p.obj is None or p.obj != cur:
            return []
        self.chk('state life', st, bool(st.ghost['tasks'][cur] == 'out'), f"{self.fname}: a finished task is off the queue before it may be released")
        v = self.tv(st, cur)
        self.chk('state life', st, v.get('state') == self.STOPPED, f"{self.fname}: a finished task is stopped")
        self.status(st, cur, 'stopped')
        st.ghost['unreffed'] = True
        dead = st.fork()
        dead.wobj(cur).alive = False
        return [(st, None), (dead, None)]

    def s_execute(self, eng, st, args, I):
        p = eng.as_ptr(args[0])
        f = eng.as_ptr(args[1])
        self.chk('state', st, bool(p.obj == st.ghost.get('newtask') and p.off.const() == 0), f"{self.fname}: prepares the started task")
        self.chk('state', st, bool(isinstance(f.obj, str) and f.obj.endswith('hev_task_executer')), f"{self.fname}: a task starts in the executer")
        self.chk('state', st, bool(st.ghost['tasks'].get(p.obj) == 'stopped'), f"{self.fname}: prepared before it is queued")
        TRUST.use("hev_task_execute (assembly)", "fills the task's context so that resuming it starts the executer on the task's stack; touches nothing else")
        st.ghost['executed'] = True
        return [(st, None)]

    def s_setjmp(self, eng, st, args, I):
        p = eng.as_ptr(args[0])
        cur = st.ghost.get('in_task')
        if cur is not None:
            ok = bool(p.obj == cur and p.off.const() == self.ts['context'][0])
            self.chk('state', st, ok, f"{self.fname}: the task's own context is saved")
            s2 = st.fork()
            s2.ghost['resumed'] = True
            st.ghost['saved'] = True
            return [(st, BV(0, 32)), (s2, fresh_nz(s2))]
        ok = bool(p.obj == st.ghost['ctx'] and p.off.const() == self.cs['kernel_context'][0])
        self.chk('state', st, ok, f"{self.fname}: the kernel context is saved")
        outs = []
        for t in (self.YIELD, self.WAITIO, self.SCHED_REMOVE):
            s = st.fork()
            s.ghost['tasks'] = {}
            C = self.task(s, "current", 'in')
            self.consistent(s, C, (C,))
            s.ghost['cause'] = t
            s.ghost['C'] = C
            s.ghost['may_leave'] = C
            v = self.tv(s, C)
            k0, pr, np = v.get('sched_key'), v.get('priority'), v.get('next_priority')
            s.ghost['np'] = np
            if t == self.YIELD:
                s.ghost['expect'] = {C: k0 + z3.SignExt(32, pr)}
            if t == self.WAITIO:
                s.ghost['key0'] = dict(s.ghost['key0']) | {C: z3.SignExt(32, np)}
            if t == self.SCHED_REMOVE:
                s.ghost['ending'] = C
            s.note(f"kernel resumed with {t}")
            outs.append((s, BV(t, 32)))
        st.ghost['cause'] = 0
        outs.append((st, BV(0, 32)))
        return outs

    def settle(self, st, where):
        """the task that gave up the CPU has been dealt with"""
        if st.ghost.get('settled') or not st.ghost.get('cause'):
            return
        st.ghost['settled'] = True
        C, t = st.ghost['C'], st.ghost['cause']
        s = st.ghost['tasks'][C]
        tot = st.ghost['total']
        if t == self.YIELD:
            self.chk('state', st, bool(s == 'in' and C in st.ghost['tree']['known']), f"{where}: a yielding task stays runnable and queued once")
            self.chk('order', st, bool(st.ghost.get('inserted', ())[:1] == (C,)), f"{where}: a yielding task is queued anew, behind its equals")
        elif t == self.WAITIO:
            self.chk('state', st, bool(s == 'out'), f"{where}: a waiting task is not queued")
            self.chk('order', st, z3.Implies(bool(s == 'out'), self.key(self.e, st, C) == z3.SignExt(32, st.ghost['np'])), f"{where}: a waiting task restarts at its own priority")
        else:
            self.chk('state life', st, bool(s == 'stopped' and st.ghost.get('unreffed')), f"{where}: a finished task is removed and released")
            st.ghost['total'] = simp(tot - 1)
        if t != self.SCHED_REMOVE and 'inserted' in st.ghost:
            pass
        st.ghost['expect'] = {}
        st.ghost['may_leave'] = None
        self.check_consistent(st, where)

    def s_epoll_wait(self, eng, st, args, I):
        self.settle(st, f"{self.fname} before polling")
        f = self.fname
        ep, n, tmo = eng.as_ptr(args[1]), eng.as_bv(st, args[2], 32), eng.as_bv(st, args[3], 32)
        N = st.ghost['tree']['N']
        self.chk('wake', st, z3.Implies(N != 0, tmo == 0), f"{f}: never blocks while a task is runnable")
        self.chk('wake', st, z3.Implies(N == 0, tmo < 0), f"{f}: blocks for events while no task is runnable")
        self.handled(st, f"{f} before polling again")
        o = eng.deref(st, ep, 12, "epoll_wait")
        if o is None:
            return []
        sz = o.size if isinstance(o.size, int) else None
        k = cval(n)
        ok = bool(k is not None and sz is not None and k >= 1 and ep.off.const() is not None and ep.off.const() + 12 * k <= sz)
        eng.check(st, ok, f"{f}: room for the events asked for", "memory")
        if not ok:
            return []
        TRUST.use("epoll_wait", "reports at most the number of events asked for, each with the data registered for its descriptor, or fails")
        cnt = fresh("events", 32)
        st.assume(z3.And(cnt >= -1, cnt <= k))
        J = fresh("J", 64)
        W = None
        oo = st.wobj(o.id)
        oo.cells = {}
        oo.elems, oo.stride, oo.ebase = [], 12, ep.off.const()
        sched = self

        def egen(eng, s, o2, idx, cells):
            cells[0] = (4, fresh("evbits", 32))
            cells[4] = (8, Lazy(lambda eng, s, idx=idx: sched.r_event(eng, s, idx), "event"))
        oo.egen = egen
        outs = []
        st.ghost['polls'] = st.ghost['polls'] + 1
        for how in ('in', 'out'):
            s = st.fork()
            if how == 'out':
                s.assume(s.ghost['total'] - s.ghost['tree']['N'] >= 1 + len([1 for x in s.ghost['tasks'].values() if x == 'out']))
            W = self.task(s, "watched", how)
            if how == 'in':
                s.assume(z3.UGT(s.ghost['tree']['N'], len(s.ghost['tree']['known'])))
                self.tree.add_known(s, W, self.key(eng, s, W))
            s.ghost['ev'] = dict(obj=o.id, count=cnt, J=J, W=W)
            if eng.feasible(s):
                outs.append((s, cnt))
        # the watched event may also be for a task known already
        for x, how in st.ghost['tasks'].items():
            if how == 'out' and st.objs[x].alive:
                s = st.fork()
                s.ghost['ev'] = dict(obj=o.id, count=cnt, J=J, W=x)
                outs.append((s, cnt))
        return outs

    def r_event(self, eng, st, idx):
        """the data of event number idx"""
        ev = st.ghost['ev']
        eng.check(st, z3.And(idx >= 0, idx < z3.SignExt(32, ev['count'])), f"{self.fname}: only reported events are looked at", "memory")
        outs = []
        for s, hit in eng.branch(st, idx == ev['J']):
            if hit:
                outs.append((s, Ptr(ev['W'], self.ent)))
                continue
            for o, how in s.ghost['tasks'].items():
                if how != 'stopped' and s.objs[o].alive:
                    outs.append((s.fork(), Ptr(o, self.ent)))
            for how in ('in', 'out'):
                s2 = s.fork()
                t = s2.ghost['tree']
                if how == 'out':
                    s2.assume(s2.ghost['total'] - t['N'] > len([1 for x in s2.ghost['tasks'].values() if x == 'out']))
                o = self.task(s2, "event task", how)
                # a runnable one may also be the stand-in of the timer, which is never queued
                if eng.feasible(s2):
                    outs.append((s2, Ptr(o, self.ent)))
        return outs

    def handled(self, st, where):
        ev = st.ghost.get('ev')
        if ev:
            cnt = z3.SignExt(32, ev['count'])
            self.chk('wake', st, z3.Implies(z3.And(ev['J'] >= 0, ev['J'] < cnt), bool(st.ghost['tasks'][ev['W']] == 'in')), f"{where}: every event reported made its task runnable")
            st.ghost['ev'] = None

    def s_longjmp(self, eng, st, args, I):
        p, val = eng.as_ptr(args[0]), eng.as_bv(st, args[1], 32)
        self.on_jump(eng, st, p, val)
        return []

    def use_wakeup_contract(self):
        """the kernel part relies on the contract of the wakeup function, which the proof `wakeup` discharges"""
        f = self.cx.prog.func("hev_task_system_wakeup_task_with_context")
        if f is None or len(f.params) != 2:
            return

        def wake(eng, st, args, I):
            c, p = eng.as_ptr(args[0]), eng.as_ptr(args[1])
            o = p.obj
            ok = bool(c.obj == st.ghost['ctx'] and c.off.const() == 0 and o in st.ghost['tasks'] and p.off.const() == 0 and st.objs[o].alive and st.ghost['tasks'][o] != 'stopped')
            eng.check(st, ok, f"{self.fname}: wakes a live task that has been started", "memory")
            if not ok:
                return []
            if st.ghost['tasks'][o] == 'in':
                return [(st, None)]
            v = self.tv(st, o)
            v.set('state', self.RUNNING)
            v.set('priority', v.get('next_priority'))
            k = fresh("key", 64)
            st.assume(z3.ULT(k, KEYMAX))
            v.set('sched_key', k)
            t = st.ghost['tree']
            self.tree.g(st, N=simp(t['N'] + 1), first=None)
            self.tree.add_known(st, o, k)
            self.tree.reset(st)
            self.status(st, o, 'in')
            w = self.cv(st)
            w.set('running_task_count', simp(w.get('running_task_count') + 1))
            st.wset = st.wset | {(st.ghost['ctx'], self.cs['running_task_count'][0], 4)}
            return [(st, None)]
        self.e.stubs['hev_task_system_wakeup_task_with_context'] = wake

    # ---- loops
    def policy(self, eng, st, fn, h):
        calls = eng.loop_calls(fn, h)
        if calls & {'epoll_wait', 'hev_task_system_wakeup_task_with_context', 'hev_rbtree_cached_insert_color', 'hev_rbtree_cached_erase', 'hev_task_unref', '_setjmp'}:
            return StateLoop(self, 'epoll_wait' in calls)
        return Descent(self.tree, self.newobj)

    def newobj(self, st):
        """the task being queued: the one off the queue whose state says otherwise, or that was just erased"""
        c = st.ghost.get('newtask')
        if c is not None:
            return c
        r = [o for o, s in st.ghost['tasks'].items() if s == 'out' and st.objs[o].alive]
        run = [o for o in r if cval(self.tv(st, o).get('state')) == self.RUNNING]
        if len(run) == 1:
            return run[0]
        return None


def fresh_nz(s):
    v = fresh("jmp", 32)
    s.assume(v != 0)
    return v


class StateLoop(LoopSpec):
    """an iteration starts in a consistent state of the scheduler"""
    name = "consistent scheduler state"
    pair_candidates = False

    def __init__(self, sc, polls):
        self.sc, self.polls = sc, polls

    def entry(self, eng, st):
        self.sc.settle(st, f"{self.sc.fname} before the events")
        self.inv(eng, st, "entry")

    def inv(self, eng, st, when):
        self.sc.check_consistent(st, f"{self.sc.fname} between events")
        if self.polls:
            self.sc.handled(st, f"{self.sc.fname} between polls")

    def owned(self, eng, st):
        self.N0 = st.ghost['tree']['N']
        return [st.ghost['ctx']] + [o for o in st.ghost['tasks']] + ([st.ghost['ev']['obj']] if st.ghost.get('ev') else [])

    def havoc(self, eng, st):
        sc = self.sc
        t = st.ghost['tree']
        ev = st.ghost.get('ev')
        v = sc.cv(st)
        cur = v.ptr('current_task')
        keep = {o for o in st.ghost['tasks'] if o == st.ghost.get('C') or ev and o == ev['W'] or not st.objs[o].alive or st.ghost['tasks'][o] == 'stopped'}
        outs = [st]
        res = []
        while outs:
            s = outs.pop()
            todo = [o for o in keep if s.ghost['tasks'][o] == 'out' and o not in s.ghost.get('split', ())]
            if todo:
                s.ghost['split'] = s.ghost.get('split', ()) + (todo[0],)
                b = s.fork()
                sc.status(b, todo[0], 'in')
                sc.tv(b, todo[0]).set('state', sc.RUNNING)
                bv = sc.tv(b, todo[0])
                k = fresh("key", 64)
                b.assume(z3.ULT(k, KEYMAX))
                bv.set('sched_key', k)
                bv.set('priority', bv.get('next_priority'))
                outs += [s, b]
                continue
            s.ghost['split'] = ()
            s.ghost['tasks'] = {o: x for o, x in s.ghost['tasks'].items() if o in keep}
            N = fresh("runnable", 64)
            kn = [o for o, x in s.ghost['tasks'].items() if x == 'in']
            s.assume(z3.And(z3.UGE(N, self.N0), z3.ULE(N, s.ghost['total'])))
            s.assume(s.ghost['total'] - N >= len([1 for x in s.ghost['tasks'].values() if x == 'out']))
            w = sc.cv(s)
            w.set('running_task_count', z3.Extract(31, 0, N))
            sc.tree.init(s, s.ghost['ctx'], sc.cs['running_tasks'][0], N, kn)
            if ev:
                o = s.wobj(ev['obj'])
                o.elems = []
            if eng.feasible(s):
                res.append(s)
        return res

    def candidates(self, eng, st0):
        n0 = st0.ghost['tree']['N']
        return [("as many runnable tasks as before", lambda e, s: s.ghost['tree']['N'] == n0), ("no runnable task", lambda e, s: s.ghost['tree']['N'] == 0),
                ("some runnable task", lambda e, s: s.ghost['tree']['N'] != 0)]

    def cell_candidates(self, eng, st0, cells):
        ev = st0.ghost.get('ev')
        out = []
        if ev:
            for nm, g in cells.items():
                for d in (0, 1):
                    def c(e, s, g=g, d=d):
                        x = g(e, s)
                        if x is None:
                            return None
                        if s.ghost['tasks'][ev['W']] == 'in':
                            return z3.BoolVal(True)
                        return z3.Not(z3.And(ev['J'] >= 0, ev['J'] < x + d))
                    out.append((f"events before {nm}{'+1' if d else ''} are handled", c))

                    def c2(e, s, g=g, d=d):
                        x = g(e, s)
                        if x is None:
                            return None
                        if s.ghost['tasks'][ev['W']] == 'in':
                            return z3.BoolVal(True)
                        return z3.Not(z3.And(ev['J'] >= x + d, ev['J'] < z3.SignExt(32, ev['count'])))
                    out.append((f"events from {nm}{'+1' if d else ''} on are handled", c2))
                out.append((f"{nm} at most the number of events", lambda e, s, g=g: None if g(e, s) is None else z3.Or(z3.SignExt(32, ev['count']) < 0, g(e, s) <= z3.SignExt(32, ev['count']))))
        return out
