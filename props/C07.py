"""C07 mutex: mutual exclusion and no lost wakeup.

Rely/guarantee over the points where a task gives up the CPU.  Invariant of every mutex at
those points:  free and somebody waiting  ==>  the first waiter's task is runnable.
The waiter chain is a visible part around the own node plus opaque rest."""
import z3
from dv.harness import *
from props.common import Env, SharedLoop

MTX, NODE, MOD = "_HevTaskMutex", "_HevTaskMutexNode", "hev-task-mutex"


class M:
    def __init__(self, cx, env):
        self.cx, self.env = cx, env
        self.m = cx.prog.struct(MTX, MOD)
        self.n = cx.prog.struct(NODE, MOD)

    def build(self, st):
        o = st.new_obj("mutex", self.m[''][1], 'input')
        self.oid = o.id
        lk = fresh("locker", 32)
        v = View(self.cx, st, o.id, MTX, module=MOD)
        v.set('locker', lk)
        st.assume(z3.ULE(lk, 1))
        st.ghost['inputs'] = dict(st.ghost['inputs'], locker=lk)
        return lk

    def v(self, st):
        return View(self.cx, st, self.oid, MTX, module=MOD)

    def node(self, st, name, nxt):
        """a node of some other task waiting for this mutex"""
        o = st.new_obj(name, self.n[''][1], 'input')
        o.ro = True
        t = self.env.task(st, name + ".task")
        e = self.cx.eng
        e.poke(st, o.id, self.n['next'][0], 8, nxt)
        e.poke(st, o.id, self.n['task'][0], 8, Ptr(t))
        return o.id, t

    def opaque(self, tag):
        def fn(eng, st):
            raise Unsupported("walks along the waiters")
        return Lazy(fn, tag)

    def rest(self):
        """the chain from here on: its end, or one more waiter"""
        def fn(eng, st):
            s1, s2 = st, st.fork()
            h, t = self.node(s2, "later", self.rest())
            s2.ghost['tail'] = tuple(s2.ghost.get('tail', ())) + (t,)
            return [(s1, NULL), (s2, Ptr(h))]
        return Lazy(fn, "rest")

    def initial(self, st):
        """no waiter, or waiters of which the first is visible"""
        s1, s2 = st, st.fork()
        self.v(s1).set('waiters', NULL)
        s1.ghost['below'] = NULL
        h, t = self.node(s2, "first", self.rest())
        self.v(s2).set('waiters', Ptr(h))
        s2.ghost['below'] = Ptr(h)
        s2.ghost['head_task'] = t
        s2.assume(z3.Implies(self.v(s2).get('locker') == 0, self.env.running(s2, t)))
        return [("no waiters", s1), ("waiters", s2)]

    def mine(self, st, me):
        """the node through which I wait, if the head of the chain is it"""
        w = self.v(st).ptr('waiters')
        if w.obj is None or w.obj not in st.objs or not st.objs[w.obj].alive:
            return None
        t = self.cx.eng.raw(st, w.obj, self.n['task'][0] + (w.off.const() or 0))
        if isinstance(t, Ptr) and t.obj == me:
            return w
        return None

    def after(self, st, mine):
        """any state other tasks may leave: nodes on top of mine, the lock free or taken"""
        lk = fresh("locker", 32)
        self.v(st).set('locker', lk)
        st.assume(z3.ULE(lk, 1))
        outs = []
        s2 = st.fork()
        s3 = st.fork()
        self.v(st).set('waiters', mine)
        st.ghost['above'] = None
        outs.append(st)
        for s, nx in ((s2, mine), (s3, self.opaque("newer.."))):
            h, t = self.node(s, "newer", nx)
            s.objs[h].ro = False
            self.v(s).set('waiters', Ptr(h))
            s.assume(z3.Implies(lk == 0, self.env.running(s, t)))
            s.ghost['above'] = h
            outs.append(s)
        for s in outs:
            s.ghost['run'] = dict(s.ghost['run'])
            s.ghost['run'][s.ghost['me']] = z3.BoolVal(True)
            s.ghost['owner'] = None
        return outs


def p_lock(cx):
    e = cx.eng
    holder = {}

    def on_yield(eng, st, waiting):
        mine = m.mine(st, st.ghost['me']) if st.ghost.get('mine') is None else st.ghost['mine']
        eng.check(st, bool(mine is not None), "lock: a waiting task is registered with the mutex")
        if mine is None:
            return []
        first = st.ghost.get('mine') is None
        st.ghost['mine'] = mine
        w = m.v(st).ptr('waiters')
        eng.check(st, bool(w.obj is not None), "lock: waiters are kept")
        if first:
            nx = eng.raw(st, mine.obj, (mine.off.const() or 0) + m.n['next'][0])
            eng.check(st, same_ptr(eng, nx if nx is not None else UNDEF, st.ghost['below']), "lock: earlier waiters stay registered behind the new one")
        if waiting:
            lk = m.v(st).get('locker')
            if w.obj == mine.obj:
                eng.check(st, lk != 0, "lock: never waits as first waiter of a free mutex")
            eng.cover(st, "lock waits")
        eng.check(st, bool(st.ghost.get('owner') is None), "lock: does not wait while holding")
        return m.after(st, mine)

    env = Env(cx, on_yield)
    m = M(cx, env)
    st = cx.state()
    env.me(st)
    m.build(st)
    lko = m.m['locker'][0]

    def on_store(eng, st, o, off, n, v):
        if o.id != m.oid or off.const() is None or off.const() != lko or st.ghost.get('owner') == 'me':
            return
        old = m.v(st).get('locker')
        nv = v if isinstance(v, z3.BitVecRef) else eng.as_bv(st, v, 32)
        eng.check(st, z3.Implies(nv != 0, old == 0), "lock: taken only while free")
        if cval(nv) not in (None, 0):
            st.ghost['owner'] = 'me'

    def owned(st):
        return [m.oid]

    def havoc(eng, st):
        mine = st.ghost.get('mine') or m.mine(st, st.ghost['me'])
        if mine is None:
            return [st]
        st.ghost['mine'] = mine
        return m.after(st, mine)

    def inv(eng, st, when):
        mine = st.ghost.get('mine') or m.mine(st, st.ghost['me'])
        eng.check(st, bool(mine is not None), f"lock: registered while waiting ({when})")
        if mine is not None and when == "entry" and st.ghost.get('mine') is None:
            nx = eng.raw(st, mine.obj, (mine.off.const() or 0) + m.n['next'][0])
            eng.check(st, same_ptr(eng, nx if nx is not None else UNDEF, st.ghost['below']), "lock: earlier waiters stay registered behind the new one")
        if mine is not None:
            w = m.v(st).ptr('waiters')
            eng.check(st, bool(w.obj is not None and (w.obj == mine.obj or st.objs[w.obj].name == "newer")), f"lock: chain of waiters intact ({when})")

    def about_to_wait(eng, st):
        mine = st.ghost.get('mine') or m.mine(st, st.ghost['me'])
        if mine is not None and m.v(st).ptr('waiters').obj == mine.obj:
            return m.v(st).get('locker') != 0
        return z3.BoolVal(True)
    e.on_store = on_store
    e.loop_policy = lambda eng, s, fn, h: SharedLoop(owned, havoc, inv, [('not first waiter of a free mutex', about_to_wait)])
    for nm, s0 in m.initial(st):
        for s, r in e.call(s0, "hev_task_mutex_lock", [Ptr(m.oid)]):
            waited = s.ghost.get('mine') is not None
            e.cover(s, f"lock returns ({nm}, {'waited' if waited else 'at once'})")
            e.check(s, r == 0, "lock: reports success")
            e.check(s, m.v(s).get('locker') != 0, "lock: held on return")
            e.check(s, bool(s.ghost.get('owner') == 'me'), "lock: taken by this call, while it was free")
            # own node is off the chain, everybody else still on it
            top = s.ghost.get('above')
            e.check(s, same_ptr(e, m.v(s).ptr('waiters'), Ptr(top) if top else s.ghost['below']), "lock: no other waiter is dropped")
            if top:
                nx = e.raw(s, top, m.n['next'][0])
                e.check(s, bool(isinstance(nx, Ptr)) and same_ptr(e, nx, s.ghost['below']), "lock: own node removed from between the others")


def p_trylock(cx):
    e = cx.eng
    env = Env(cx, None)
    m = M(cx, env)
    st = cx.state()
    env.me(st)
    lk = m.build(st)
    for nm, s0 in m.initial(st):
        w0 = m.v(s0).ptr('waiters')
        for s, r in e.call(s0, "hev_task_mutex_trylock", [Ptr(m.oid)]):
            v = m.v(s)
            e.check(s, same_ptr(e, v.ptr('waiters'), w0), "trylock: waiters untouched")
            e.check(s, bool(not s.ghost.get('woken')), "trylock: wakes nobody")
            for s2, ok in e.branch(s, r == 0):
                e.cover(s2, f"trylock {'succeeds' if ok else 'fails'} ({nm})")
                if ok:
                    e.check(s2, lk == 0, "trylock: succeeds only on a free mutex")
                    e.check(s2, v.at(s2).get('locker') != 0, "trylock: held on success")
                else:
                    e.check(s2, z3.And(r == -1, lk != 0), "trylock: fails with -1 only on a held mutex")
                    e.check(s2, v.at(s2).get('locker') == lk, "trylock: failure leaves the lock with its holder")


def p_unlock(cx):
    e = cx.eng
    env = Env(cx, None)
    m = M(cx, env)
    st = cx.state()
    env.me(st)
    lk = m.build(st)
    st.assume(lk == 1)
    for nm, s0 in m.initial(st):
        w0 = m.v(s0).ptr('waiters')
        for s, r in e.call(s0, "hev_task_mutex_unlock", [Ptr(m.oid)]):
            v = m.v(s)
            e.cover(s, f"unlock ({nm})")
            e.check(s, r == 0, "unlock: reports success")
            e.check(s, v.get('locker') == 0, "unlock: free afterwards")
            e.check(s, same_ptr(e, v.ptr('waiters'), w0), "unlock: waiters stay registered until they take the lock")
            if nm == "waiters":
                e.check(s, env.running(s, s.ghost['head_task']), "unlock: the first waiter is runnable")
                e.check(s, bool(set(s.ghost.get('woken', ())) <= {s.ghost['head_task']} | set(s.ghost.get('tail', ()))), "unlock: wakes only waiters")
            else:
                e.check(s, bool(not s.ghost.get('woken')), "unlock: nobody to wake")


def p_init(cx):
    e = cx.eng
    env = Env(cx, None)
    m = M(cx, env)
    st = cx.state()
    m.build(st)
    for s, r in e.call(st, "hev_task_mutex_init", [Ptr(m.oid)]):
        e.cover(s, "init")
        e.check(s, z3.And(r == 0, m.v(s).get('locker') == 0, same_ptr(e, m.v(s).ptr('waiters'), NULL)), "init: free, nobody waiting")


PROOFS = [Proof("lock", p_lock, ["hev_task_mutex_lock"]), Proof("trylock", p_trylock, ["hev_task_mutex_trylock"]),
          Proof("unlock", p_unlock, ["hev_task_mutex_unlock"]), Proof("init", p_init, ["hev_task_mutex_init"])]
ASSUMPTIONS = ["a mutex is used by the tasks of one thread only, unlocked only by its holder, not destroyed while in use",
               "rely: other tasks change a mutex only through these four functions (each of which is proved to keep the invariant used as rely)"]
