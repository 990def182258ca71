"""C05 join: returns 0 only after the end, always woken, usable again"""
import z3
from dv.harness import *
from props.common import Env, SharedLoop

TASK, MOD = "_HevTask", "hev-task"


def base(cx, on_yield=None):
    env = Env(cx, on_yield)
    e = cx.eng
    e.stubs['hev_task_system_wakeup_task'] = e.stubs['hev_task_wakeup']
    e.stubs['hev_task_system_get_context'] = lambda eng, st, a, I: [(st, Ptr(st.ghost['ctx']))]
    return env


def context(cx, st, cur):
    cs = cx.prog.struct("_HevTaskSystemContext", MOD)
    c = st.new_obj("context", cs[''][1], 'heap').id
    st.ghost['ctx'] = c
    st.ghost['me'] = cur
    cx.eng.poke(st, c, cs['current_task'][0], 8, Ptr(cur))
    return c, cs


def p_join(cx):
    STOPPED = cx.const("HEV_TASK_STOPPED")
    e = cx.eng

    def v(st):
        return View(cx, st, st.ghost['joined'], TASK, module=MOD)

    def anystate(st):
        x = fresh("state", 32)
        st.assume(z3.Or([x == cx.const("HEV_TASK_" + n) for n in ("STOPPED", "RUNNING", "WAITING")]))
        v(st).set('state', x)
        return x

    def on_yield(eng, st, waitio):
        w = v(st)
        eng.check(st, z3.Not(w.get('state') == STOPPED) if waitio else True, "join: waits only while the joined task has not ended")
        eng.check(st, same_ptr(eng, w.ptr('joiner'), Ptr(st.ghost['me'])) if waitio else True, "join: the joined task knows whom to wake before the caller waits")
        anystate(st)
        # once it has ended the registration may be cleared by whoever ends it
        s2 = st.fork()
        s2.assume(v(s2).get('state') == STOPPED)
        v(s2).set('joiner', NULL)
        return [st, s2] if waitio else [st]
    base(cx, on_yield)
    wake0 = e.stubs['hev_task_wakeup']

    def wake(eng, st, a, I):
        p = eng.as_ptr(a[0])
        if p.obj == st.ghost['joined']:
            eng.check(st, v(st).get('state') != STOPPED, "join: a task that has ended is not woken")
        return wake0(eng, st, a, I)
    e.stubs['hev_task_wakeup'] = e.stubs['hev_task_system_wakeup_task'] = wake

    def havoc(eng, st):
        anystate(st)
        outs = [st]
        if st.ghost.get('regd'):
            s2 = st.fork()
            s2.assume(v(s2).get('state') == STOPPED)
            v(s2).set('joiner', NULL)
            outs.append(s2)
        return outs

    def inv(eng, st, when):
        st.ghost['regd'] = True
        w = v(st)
        eng.check(st, z3.Or(same_ptr(eng, w.ptr('joiner'), Ptr(st.ghost['me'])), w.get('state') == STOPPED), f"join: registered while it looks ({when})")
    cands = [('not ended', lambda eng, st: v(st).get('state') != STOPPED),
             ('registered', lambda eng, st: same_ptr(eng, v(st).ptr('joiner'), Ptr(st.ghost['me'])))]
    e.loop_policy = lambda eng, s, fn, h: SharedLoop(lambda st: {st.ghost['joined']}, havoc, inv, cands)
    for other in (False, True):
        st = cx.state()
        me = None
        env = Env.__new__(Env)
        env.cx = cx
        me = env.task(st, "me", True)
        T, O = env.task(st, "joined"), env.task(st, "other")
        st.ghost['joined'] = T
        context(cx, st, me)
        j = Ptr(O) if other else NULL
        v(st).set('joiner', j)
        x = anystate(st)
        for s, r in e.call(st, "hev_task_join", [Ptr(T)]):
            w = v(s)
            if other:
                e.cover(s, "join refused")
                e.check(s, r == -1, "join: a second simultaneous join is refused with -1")
                e.check(s, bool(w.ptr('joiner').obj == O), "join: a refused join leaves the first one registered")
                e.check(s, w.get('state') == x, "join: a refused join changes nothing")
                e.check(s, bool(not s.ghost.get('woken') and not s.ghost.get('yields')), "join: a refused join neither wakes nor waits")
                continue
            e.cover(s, "joined")
            e.check(s, r == 0, "join: succeeds otherwise")
            e.check(s, w.get('state') == STOPPED, "join: returns 0 only after the task has ended")
            e.check(s, bool(w.ptr('joiner').is_null()), "join: can be joined again later")


def p_end(cx, how):
    """whichever way a task ends, the task that joined it is woken before it is gone"""
    e = cx.eng
    env = base(cx)
    REMOVE = cx.const("HEV_TASK_SCHED_REMOVE")
    for joined in (False, True):
        st = cx.state()
        T, J, O = env.task(st, "task", True), env.task(st, "joiner"), env.task(st, "other")
        c, cs = context(cx, st, T)
        v = lambda s: View(cx, s, T, TASK, module=MOD)
        data = z3.BitVec("data", 64)
        v(st).set('data', Ptr(None, data))
        v(st).set('entry', Ptr("fn:$entry"))
        # before its body runs: joined already, by somebody else, or not at all
        v(st).set('joiner', NULL if how == 'return' else (Ptr(J) if joined else NULL))

        def entry(eng, s, a, I):
            eng.check(s, e.as_bv(s, a[0], 64) == data, "the body gets the task's own data")
            eng.check(s, bool(not s.ghost.get('entered')), "the body runs once")
            s.ghost['entered'] = True
            v(s).set('joiner', Ptr(J) if joined else NULL)
            return [(s, None)]

        def setjmp(eng, s, a, I):
            p = eng.as_ptr(a[0])
            eng.check(s, bool(p.obj == T and p.off.const() == v(s).off('context')), "saves into the task's own context")
            s2 = s.fork()
            s2.ghost['started'] = True
            return [(s, BV(0, 32)), (s2, BV(1, 32))]

        def longjmp(eng, s, a, I):
            p = eng.as_ptr(a[0])
            eng.check(s, bool(p.obj == c and p.off.const() == cs['kernel_context'][0]), "end: goes to the scheduler")
            eng.check(s, eng.as_bv(s, a[1], 32) == REMOVE, "end: tells the scheduler that the task has ended")
            eng.cover(s, f"{how}, {'joined' if joined else 'not joined'}")
            woken = s.ghost.get('woken', ())
            if joined:
                eng.check(s, bool(J in woken), "end: the joining task is made runnable")
            eng.check(s, bool(set(woken) <= ({J} if joined else set())), "end: nobody else is woken")
            if how == 'return':
                eng.check(s, bool(s.ghost.get('entered')), "end: after the body")
            s.ghost['ended'] = True
            return []
        e.stubs.update({'$entry': entry, '_setjmp': setjmp, '_longjmp': longjmp, 'longjmp': longjmp, 'siglongjmp': longjmp})
        if how == 'return':
            for s, _ in e.call(st, "hev_task_executer", [Ptr(T)]):
                e.cover(s, "prepared")
                e.check(s, bool(not s.ghost.get('started') and not s.ghost.get('entered')), "executer: returns only when preparing the task")
        else:
            for s, _ in e.call(st, "hev_task_exit", []):
                e.check(s, False, "exit: does not return")


PROOFS = [Proof("join", p_join, ["hev_task_join", "hev_task_get_state"]),
          Proof("return", lambda cx: p_end(cx, 'return'), ["hev_task_executer", "hev_task_system_kill_current_task"]),
          Proof("exit", lambda cx: p_end(cx, 'exit'), ["hev_task_exit", "hev_task_system_kill_current_task"])]
ASSUMPTIONS = ["hev_task_wakeup makes a waiting task runnable and the scheduler stops an ended task before any other task runs (proved under C01 and C03)",
               "a task joins another one, not itself, and holds a reference to it",
               "only hev_task_join registers a joiner; a task in hev_task_join has not ended"]
