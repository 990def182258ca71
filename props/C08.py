"""C08 condition variable.

The waiter chain is a doubly linked list of nodes on the stacks of the waiting tasks; a node is
on the chain exactly while its `task` is set.  A waiter sees its two neighbours, the rest is opaque."""
import z3
from dv.harness import *
from props.common import Env, SharedLoop

CND, NODE, MOD = "_HevTaskCond", "_HevTaskCondNode", "hev-task-cond"


class C:
    def __init__(self, cx, env):
        self.cx, self.env = cx, env
        self.n = cx.prog.struct(NODE, MOD)

    def build(self, st):
        o = st.new_obj("cond", self.cx.prog.struct(CND, MOD)[''][1], 'input')
        self.oid = o.id

    def v(self, st):
        return View(self.cx, st, self.oid, CND, module=MOD)

    def lazy(self, tag):
        def fn(eng, st):
            raise Unsupported("walks along the waiters")
        return Lazy(fn, tag)

    def f(self, st, node, fld):
        v = self.cx.eng.raw(st, node.obj, (node.off.const() or 0) + self.n[fld][0])
        return UNDEF if v is None else v

    def setf(self, st, node, fld, v):
        self.cx.eng.poke(st, node.obj, (node.off.const() or 0) + self.n[fld][0], 8, v)

    def node(self, st, name, prev, nxt, task=None):
        o = st.new_obj(name, self.n[''][1], 'input')
        p = Ptr(o.id)
        t = task or self.env.task(st, name + ".task")
        self.setf(st, p, 'prev', prev)
        self.setf(st, p, 'next', nxt)
        self.setf(st, p, 'task', Ptr(t))
        return p, t

    def same(self, st, a, b):
        """equality of link values, opaque ones by identity"""
        if isinstance(a, Lazy) or isinstance(b, Lazy):
            return z3.BoolVal(a is b)
        if isinstance(a, Undef) or isinstance(b, Undef):
            return z3.BoolVal(False)
        return same_ptr(self.cx.eng, a, b)

    def unchanged(self, st, snap):
        """conjunction: every node in snap still has its fields"""
        return z3.And([z3.BoolVal(True)] + [self.same(st, self.f(st, Ptr(n), fld), v) for (n, fld), v in snap.items()])

    def snap(self, st, nodes):
        return {(p.obj, fld): self.f(st, p, fld) for p in nodes for fld in ('prev', 'next', 'task')}


def waiter(cx, fname, timed):
    e = cx.eng

    def registered(st):
        w = c.v(st).ptr('waiters')
        if w.obj in st.objs and st.objs[w.obj].kind == 'stack' and st.objs[w.obj].alive:
            t = c.f(st, w, 'task')
            if isinstance(t, Ptr) and t.obj == st.ghost['me']:
                return w
        return None

    def enter(eng, st, where):
        """at the first point where others may run: own node pushed, everybody else still there"""
        mine = registered(st)
        eng.check(st, bool(mine is not None), f"{fname}: the waiter is registered before others run")
        if mine is None:
            return None
        st.ghost['mine'] = mine
        below = st.ghost['below']
        eng.check(st, c.same(st, c.f(st, mine, 'prev'), NULL), f"{fname}: nobody before the new first waiter")
        eng.check(st, c.same(st, c.f(st, mine, 'next'), below), f"{fname}: earlier waiters stay registered")
        if below.obj is not None:
            eng.check(st, c.same(st, c.f(st, below, 'prev'), mine), f"{fname}: the former first waiter knows its new neighbour")
        return mine

    def rely(st):
        """whatever others did in between: signalled and off the chain, or still on it between any neighbours"""
        mine = st.ghost['mine']
        outs = []
        sig = st.ghost.get('signalled')
        if sig is not True:
            for hp in (0, 1, 2):
                for hn in (0, 1):
                    s = st.fork()
                    a = b = NULL
                    if hn:
                        b, _ = c.node(s, "after", mine, c.lazy("after.."))
                    if hp:
                        a, _ = c.node(s, "before", NULL if hp == 1 else c.lazy("..before"), mine)
                    c.setf(s, mine, 'prev', a)
                    c.setf(s, mine, 'next', b)
                    c.setf(s, mine, 'task', Ptr(s.ghost['me']))
                    if hp == 0:
                        c.v(s).set('waiters', mine)
                    elif hp == 1:
                        c.v(s).set('waiters', a)
                    else:
                        h, _ = c.node(s, "head", NULL, c.lazy("head.."))
                        c.v(s).set('waiters', h)
                    s.ghost['nb'] = (a, b)
                    s.ghost['signalled'] = False
                    outs.append(s)
        for hw in (0, 1):
            s = st.fork()
            c.setf(s, mine, 'task', NULL)
            c.setf(s, mine, 'prev', c.lazy("stale prev"))
            c.setf(s, mine, 'next', c.lazy("stale next"))
            if hw:
                h, _ = c.node(s, "head", NULL, c.lazy("head.."))
                c.v(s).set('waiters', h)
            else:
                c.v(s).set('waiters', NULL)
            s.ghost['signalled'] = True
            s.ghost['nb'] = None
            outs.append(s)
        for s in outs:
            w = c.v(s).ptr('waiters')
            nodes = [Ptr(o) for o, ob in s.objs.items() if ob.name in ("head", "before", "after")]
            s.ghost['snap'] = c.snap(s, nodes)
            s.ghost['w'] = w
        return outs

    def others(eng, st, why):
        if st.ghost.get('mine') is None:
            if enter(eng, st, why) is None:
                return []
        else:
            intact(eng, st, f"while waiting")
        return rely(st)

    def intact(eng, st, when):
        if 'snap' in st.ghost:
            eng.check(st, z3.And(c.same(st, c.v(st).ptr('waiters'), st.ghost['w']), c.unchanged(st, st.ghost['snap'])), f"{fname}: chain untouched {when}")

    def on_yield(eng, st, waiting):
        eng.check(st, bool(not st.ghost['held']), f"{fname}: mutex released while waiting")
        if st.ghost.get('mine') is not None and 'snap' in st.ghost:
            eng.check(st, bool(st.ghost.get('signalled') is not True), f"{fname}: does not go on waiting once signalled")
        eng.cover(st, f"{fname} waits")
        return others(eng, st, "yield")

    env = Env(cx, on_yield)
    c = C(cx, env)
    st = cx.state()
    env.me(st)
    c.build(st)
    mtx = st.new_obj("mutex", cx.prog.struct("_HevTaskMutex", "hev-task-mutex")[''][1], 'input')
    st.ghost['held'] = True
    ms = None

    def lock(eng, st, args, I):
        p = eng.as_ptr(args[0])
        eng.check(st, bool(p.obj == mtx.id), f"{fname}: locks the given mutex")
        eng.check(st, bool(not st.ghost['held']), f"{fname}: locks once")
        outs = others(eng, st, "lock")
        for s in outs:
            s.ghost['held'] = True
        return [(s, BV(0, 32)) for s in outs]

    def unlock(eng, st, args, I):
        p = eng.as_ptr(args[0])
        eng.check(st, bool(p.obj == mtx.id), f"{fname}: unlocks the given mutex")
        eng.check(st, bool(st.ghost['held']), f"{fname}: unlocks what it holds")
        st.ghost['held'] = False
        return [(st, BV(0, 32))]

    def sleep(eng, st, args, I):
        TRUST.use("hev_task_sleep", "returns at most the requested time (its contract is C06); other tasks run meanwhile")
        eng.check(st, bool(timed), f"{fname}: sleeps only in the timed variant")
        eng.check(st, bool(not st.ghost['held']), f"{fname}: mutex released while waiting")
        if 'snap' in st.ghost:
            eng.check(st, bool(st.ghost.get('signalled') is not True), f"{fname}: does not go on waiting once signalled")
        eng.cover(st, f"{fname} waits")
        x = args[0]
        outs = []
        for s in others(eng, st, "sleep"):
            r = fresh("left", 32)
            s.assume(z3.ULE(r, x))
            if not s.ghost['signalled']:
                pass
            s.ghost['rem'] = simp(s.ghost['rem'] - (x - r))
            outs.append((s, r))
        return outs
    e.stubs.update(hev_task_mutex_lock=lock, hev_task_mutex_unlock=unlock, hev_task_sleep=sleep)
    args = [Ptr(c.oid), Ptr(mtx.id)]
    if timed:
        ms = z3.BitVec("ms", 32)
        st.ghost['inputs'] = dict(ms=ms)
        st.ghost['rem'] = ms
        args.append(ms)
    s1, s2 = st, st.fork()
    c.v(s1).set('waiters', NULL)
    s1.ghost['below'] = NULL
    b, _ = c.node(s2, "first", NULL, c.lazy("rest"))
    c.v(s2).set('waiters', b)
    s2.ghost['below'] = b

    class Wait(SharedLoop):
        def quantities(self, eng, st):
            return {'rem': z3.SignExt(32, st.ghost['rem'])} if timed else {}

    def owned(st):
        r = [c.oid]
        m = st.ghost.get('mine') or registered(st)
        if m is not None:
            r.append(m.obj)
        return r + [o for o, ob in st.objs.items() if ob.name in ("first", "head", "before", "after")]

    def havoc(eng, st):
        if st.ghost.get('mine') is None:
            m = registered(st)
            if m is None:
                return [st]
            st.ghost['mine'] = m
        if timed:
            st.ghost['rem'] = fresh("rem", 32)
        st.ghost.pop('signalled', None)
        return rely(st)

    def inv(eng, st, when):
        if st.ghost.get('mine') is None:
            enter(eng, st, when)
            st.ghost.pop('mine', None)
        else:
            intact(eng, st, "around the wait loop")
    def unsig(eng, st):
        return z3.BoolVal(st.ghost.get('signalled') is not True)
    e.loop_policy = lambda eng, s, fn, h: Wait(owned, havoc, inv, [('still to wait', unsig)])
    for s0 in (s1, s2):
        for s, r in e.call(s0, fname, args):
            e.check(s, bool(s.ghost['held']), f"{fname}: returns with the mutex locked")
            e.check(s, bool(s.ghost.get('mine') is not None), f"{fname}: waited")
            if s.ghost.get('mine') is None:
                continue
            if s.ghost['signalled']:
                e.cover(s, f"{fname} returns signalled")
                e.check(s, r == 0, f"{fname}: 0 when signalled")
                intact(e, s, "on return after a signal")
                continue
            e.check(s, z3.And(bool(timed), r == -1), f"{fname}: returns unsignalled only with -1 from the timed variant")
            if not timed:
                continue
            e.cover(s, f"{fname} times out")
            e.check(s, s.ghost['rem'] == 0, f"{fname}: gives up only when the whole time is over")
            a, b = s.ghost['nb']
            snap = dict(s.ghost['snap'])
            w = c.v(s).ptr('waiters')
            if a.obj is None:
                e.check(s, c.same(s, w, b), f"{fname}: timeout of the first waiter leaves the others registered")
            else:
                snap[(a.obj, 'next')] = b
                e.check(s, c.same(s, w, s.ghost['w']), f"{fname}: timeout leaves the first waiter registered")
            if b.obj is not None:
                snap[(b.obj, 'prev')] = a
            e.check(s, c.unchanged(s, snap), f"{fname}: timeout joins the neighbours and changes nothing else")


def p_wait(cx):
    waiter(cx, "hev_task_cond_wait", False)


def p_timedwait(cx):
    waiter(cx, "hev_task_cond_timedwait", True)


def p_init(cx):
    e = cx.eng
    c = C(cx, Env(cx))
    st = cx.state()
    c.build(st)
    for s, r in e.call(st, "hev_task_cond_init", [Ptr(c.oid)]):
        e.cover(s, "init")
        e.check(s, z3.And(r == 0, same_ptr(e, c.v(s).ptr('waiters'), NULL)), "init: nobody waiting")


def p_signal(cx):
    e = cx.eng
    env = Env(cx)
    c = C(cx, env)
    st = cx.state()
    env.me(st)
    c.build(st)
    cases = []
    s = st.fork()
    c.v(s).set('waiters', NULL)
    cases.append((s, None, NULL, None))
    s = st.fork()
    h, t = c.node(s, "first", NULL, NULL)
    c.v(s).set('waiters', h)
    cases.append((s, h, NULL, t))
    s = st.fork()
    h, t = c.node(s, "first", NULL, NULL)
    n, _ = c.node(s, "second", h, c.lazy("rest"))
    c.setf(s, h, 'next', n)
    c.v(s).set('waiters', h)
    cases.append((s, h, n, t))
    for s0, h, n, t in cases:
        snap = c.snap(s0, [n]) if n.obj is not None else {}
        for s, r in e.call(s0, "hev_task_cond_signal", [Ptr(c.oid)]):
            e.cover(s, "signal")
            e.check(s, r == 0, "signal: reports success")
            e.check(s, bool(tuple(s.ghost.get('woken', ())) == ((t,) if t else ())), "signal: wakes exactly the waiter it releases")
            e.check(s, c.same(s, c.v(s).ptr('waiters'), n), "signal: the others stay registered")
            if h:
                e.check(s, c.same(s, c.f(s, h, 'task'), NULL), "signal: the released waiter sees that it was signalled")
            if n.obj is not None:
                sn = dict(snap)
                sn[(n.obj, 'prev')] = NULL
                e.check(s, c.unchanged(s, sn), "signal: the new first waiter has nobody before it and is otherwise unchanged")


def p_broadcast(cx):
    e = cx.eng
    env = Env(cx)
    c = C(cx, env)
    st = cx.state()
    env.me(st)
    c.build(st)

    def more(prev):
        """next link of a node on the chain: the end, or one more waiter"""
        def fn(eng, st):
            s1, s2 = st, st.fork()
            s1.ghost['end'] = True
            o, t = c.node(s2, "waiter", c.lazy("prev of released or earlier node"), NULL)
            c.setf(s2, o, 'next', more(o))
            s2.ghost['chain'] = tuple(s2.ghost.get('chain', ())) + ((o.obj, t),)
            return [(s1, NULL), (s2, o)]
        return Lazy(fn, "next waiter")

    def fresh_chain(st):
        s1, s2 = st, st.fork()
        c.v(s1).set('waiters', NULL)
        s1.ghost['end'] = True
        s1.ghost['chain'] = ()
        s2.ghost['chain'] = ()
        s2.ghost['end'] = False
        o, t = c.node(s2, "waiter", NULL, NULL)
        c.setf(s2, o, 'next', more(o))
        s2.ghost['chain'] = ((o.obj, t),)
        c.v(s2).set('waiters', o)
        for s in (s1, s2):
            s.ghost['woken'] = ()
        return [s1, s2]

    def released(eng, st, upto, when):
        ch = st.ghost['chain'][:upto]
        eng.check(st, bool(tuple(sorted(st.ghost.get('woken', ()))) == tuple(sorted(t for _, t in ch))), f"broadcast: wakes every waiter it passed ({when})")
        eng.check(st, z3.And([z3.BoolVal(True)] + [c.same(st, c.f(st, Ptr(o), 'task'), NULL) for o, _ in ch]), f"broadcast: every waiter it passed sees the signal ({when})")

    class Walk(LoopSpec):
        name = "released prefix"

        def owned(self, eng, st):
            return [c.oid] + [o for o, _ in st.ghost['chain']]

        def inv(self, eng, st, when):
            ch = st.ghost['chain']
            w = c.v(st).ptr('waiters')
            pos = [i for i, (o, _) in enumerate(ch) if o == w.obj]
            if w.obj is None:
                eng.check(st, bool(st.ghost['end']), f"broadcast: stops only at the end of the chain ({when})")
                released(eng, st, len(ch), when)
            else:
                eng.check(st, bool(pos), f"broadcast: stays on the chain ({when})")
                if pos:
                    eng.check(st, z3.And([z3.BoolVal(True)] + [z3.Not(c.same(st, c.f(st, Ptr(o), 'task'), NULL)) for o, _ in ch[pos[0]:]]), f"broadcast: the rest is still to be released ({when})")
                    released(eng, st, pos[0], when)

        def havoc(self, eng, st):
            return fresh_chain(st)
    e.loop_policy = lambda eng, s, fn, h: Walk()
    for s0 in fresh_chain(st):
        for s, r in e.call(s0, "hev_task_cond_broadcast", [Ptr(c.oid)]):
            e.cover(s, "broadcast")
            e.check(s, r == 0, "broadcast: reports success")
            e.check(s, bool(s.ghost['end']), "broadcast: reaches the end of the chain")
            e.check(s, c.same(s, c.v(s).ptr('waiters'), NULL), "broadcast: nobody stays registered")
            released(e, s, len(s.ghost['chain']), "return")


PROOFS = [Proof("wait", p_wait, ["hev_task_cond_wait"]), Proof("timedwait", p_timedwait, ["hev_task_cond_timedwait"]),
          Proof("signal", p_signal, ["hev_task_cond_signal"]), Proof("broadcast", p_broadcast, ["hev_task_cond_broadcast"]),
          Proof("init", p_init, ["hev_task_cond_init"])]
ASSUMPTIONS = ["a condition variable is used by the tasks of one thread only, with its mutex held on wait",
               "hev_task_mutex_lock/unlock, hev_task_sleep, hev_task_yield, hev_task_wakeup are used through their contracts (C07, C06, C01, C03)",
               "rely: other tasks change a condition variable only through these functions"]
