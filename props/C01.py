"""C01 task states, run queue membership and counts"""
import z3
from dv.harness import *
from props.sched import Sched

TAGS = ('state',)


def p_kernel(cx, tags=TAGS):
    """the scheduler's main part: first entry and every resumption"""
    S = Sched(cx, tags)
    e = cx.eng
    S.fname = "schedule"
    S.use_wakeup_contract()
    st = cx.state()
    S.context(st)
    S.consistent(st)
    st.ghost['tasks'] = {}

    def jump(eng, s, p, val):
        S.settle(s, "schedule before picking")
        S.handled(s, "schedule before picking")
        v = S.cv(s)
        t = s.ghost['tree']
        eng.cover(s, f"picks after {s.ghost['cause']}")
        S.chk('state', s, s.ghost['total'] != 0, "schedule: runs a task only while some are live")
        S.chk('wake', s, z3.Implies(z3.ULT(t['N'], s.ghost['total']), bool(s.ghost['polls'] > 0)), "schedule: looks for events before each pick while tasks wait")
        if s.ghost['cause'] == 0:
            S.check_consistent(s, "schedule: first pick")
        else:
            S.check_consistent(s, "schedule: pick")
        cur = v.ptr('current_task')
        ok = cur.obj is not None and s.ghost['tasks'].get(cur.obj) == 'in' and cur.off.const() == 0
        S.chk('state', s, bool(ok), "schedule: the task picked is runnable and queued")
        if not ok:
            return
        ok = bool(p.obj == cur.obj and p.off.const() == S.ts['context'][0])
        S.chk('state', s, ok, "schedule: resumes the task it picked")
        S.chk('state', s, val != 0, "schedule: the resumed task can tell that it was resumed")
        if 'order' in S.tags:
            for s2, f in S.tree.r_first(eng, s):
                eng.check(s2, same_ptr(eng, f, Ptr(cur.obj, S.ts['sched_node'][0])), "schedule: the task picked is the first of the queue")
    S.on_jump = jump
    for s, _ in e.call(st, "hev_task_system_schedule", [BV(S.RUN_SCHEDULER, 32)]):
        S.settle(s, "schedule before returning")
        e.cover(s, "run() ends")
        S.chk('state', s, s.ghost['total'] == 0, "schedule: run() ends only when no live task is left")
        S.chk('wake', s, s.ghost['total'] == 0, "schedule: returns only when no live task is left")
        S.chk('state', s, bool(S.cv(s).ptr('current_task').is_null()), "schedule: no current task after run() ended")
        S.check_consistent(s, "schedule: return")


def p_switch(cx, tags=TAGS):
    """giving up the CPU inside a task: save, go to the kernel with the reason; on resumption nothing is touched"""
    S = Sched(cx, tags)
    e = cx.eng
    S.fname = "yield"
    st = cx.state()
    S.context(st)
    C = S.task(st, "current", 'in')
    S.consistent(st, C, (C,))
    st.ghost['in_task'] = C
    S.allowed = lambda s: ()
    typ = cx.inp(st, "type", 32)
    st.assume(z3.And(typ > 0, typ < S.YIELD_COUNT))

    def jump(eng, s, p, val):
        eng.cover(s, "switches to the kernel")
        S.chk('state', s, bool(s.ghost.get('saved')), "yield: the context is saved before leaving")
        S.chk('state', s, bool(p.obj == s.ghost['ctx'] and p.off.const() == S.cs['kernel_context'][0]), "yield: continues in the kernel")
        S.chk('state', s, val == typ, "yield: the kernel learns why")
        S.check_consistent(s, "yield")
        S.chk('state', s, same_ptr(eng, S.cv(s).ptr('current_task'), Ptr(C)), "yield: the kernel knows who gave up the CPU")
    S.on_jump = jump
    for s, _ in e.call(st, "hev_task_yield", [typ]):
        e.cover(s, "resumed")
        S.chk('state', s, bool(s.ghost.get('resumed')), "yield: returns only when resumed")
        S.check_consistent(s, "yield resumed")


def p_kill(cx, tags=TAGS):
    S = Sched(cx, tags)
    e = cx.eng
    for fn in ("hev_task_system_kill_current_task",):
        S.fname = fn
        st = cx.state()
        S.context(st)
        C = S.task(st, "current", 'in')
        S.consistent(st, C, (C,))
        S.allowed = lambda s: ()

        def jump(eng, s, p, val):
            eng.cover(s, "leaves for good")
            S.chk('state', s, bool(p.obj == s.ghost['ctx'] and p.off.const() == S.cs['kernel_context'][0]), f"{fn}: ends in the kernel")
            S.chk('state', s, val == S.SCHED_REMOVE, f"{fn}: the kernel is told to remove the task")
            S.check_consistent(s, fn)
            S.chk('state', s, same_ptr(eng, S.cv(s).ptr('current_task'), Ptr(C)), f"{fn}: the kernel knows who ended")
        S.on_jump = jump
        for s, _ in e.call(st, fn, []):
            S.chk('state', s, False, f"{fn}: does not return")


def p_wakeup(cx, tags=TAGS):
    S = Sched(cx, tags)
    e = cx.eng
    S.fname = "wakeup"
    for how in ('in', 'out'):
        for cur in (False, True):
            st = cx.state()
            S.context(st)
            X = S.task(st, "task", how)
            C = S.task(st, "current", 'in') if cur else None
            N, tot = S.consistent(st, C, tuple(x for x in (X if how == 'in' else None, C) if x))
            S.allowed = lambda s: (X,) if how == 'out' else ()
            S.on_jump = lambda eng, s, p, v: S.chk('wake', s, False, "wakeup: does not switch")
            k0 = S.key(e, st, X)
            for s, _ in e.call(st, "hev_task_wakeup", [Ptr(X)]):
                e.cover(s, f"wakes a task that is {how}")
                S.chk('wake', s, bool(s.ghost['tasks'][X] == 'in'), "wakeup: the task is queued")
                S.chk('wake', s, S.tv(s, X).get('state') == S.RUNNING, "wakeup: the task is runnable")
                S.chk('wake', s, s.ghost['tree']['N'] == (N if how == 'in' else N + 1), "wakeup: queued exactly once")
                S.chk('wake', s, z3.ZeroExt(32, S.cv(s).get('running_task_count')) == s.ghost['tree']['N'], "wakeup: the count of runnable tasks is exact")
                S.chk('wake', s, same_ptr(e, S.cv(s).ptr('current_task'), Ptr(C) if C else NULL), "wakeup: the current task stays")
                if how == 'in':
                    S.chk('wake', s, S.key(e, s, X) == k0, "wakeup: no effect on a runnable task")
                S.check_consistent(s, "wakeup")


def p_run(cx, tags=TAGS):
    """hev_task_run: start a stopped task; a task that is not stopped is left alone"""
    S = Sched(cx, tags)
    e = cx.eng
    S.fname = "run"
    for how in ('stopped', 'in', 'out'):
        for cur in (False, True):
            st = cx.state()
            S.context(st)
            X = S.task(st, "task", how)
            C = S.task(st, "current", 'in') if cur else None
            N, tot = S.consistent(st, C, tuple(x for x in (X if how == 'in' else None, C) if x))
            if how == 'stopped':
                st.ghost['newtask'] = X
                np = S.tv(st, X).get('next_priority')
                st.ghost['key0'] = dict(st.ghost['key0']) | {X: z3.SignExt(32, np)}
                if not cur:
                    st.ghost['no_min'] = True
            S.allowed = lambda s: (X,) if how == 'stopped' else ()
            S.on_jump = lambda eng, s, p, v: S.chk('state', s, False, "run: does not switch")
            ent, dat = z3.BitVec("entry", 64), z3.BitVec("data", 64)
            k0 = S.key(e, st, X)
            for s, _ in e.call(st, "hev_task_run", [Ptr(None, ent), Ptr(None, dat)][:0] + [Ptr(X), Ptr(None, ent), Ptr(None, dat)]):
                e.cover(s, f"run on a task that is {how}")
                v = S.tv(s, X)
                if how == 'stopped':
                    S.chk('state start', s, bool(s.ghost['tasks'][X] == 'in' and s.ghost.get('executed')), "run: the task is prepared and queued")
                    S.chk('state start', s, s.ghost['tree']['N'] == N + 1, "run: queued exactly once")
                    s.ghost['total'] = simp(tot + 1)
                    S.chk('state start', s, z3.And(e.as_bv(s, v.ptr('entry'), 64) == ent, e.as_bv(s, v.ptr('data'), 64) == dat), "run: starts with its own entry and data")
                else:
                    S.chk('state start', s, bool(s.ghost['tasks'][X] == how and not s.ghost.get('executed')), "run: a task that is not stopped is left alone")
                    S.chk('state start', s, s.ghost['tree']['N'] == N, "run: a task that is not stopped is not queued again")
                    S.chk('order', s, S.key(e, s, X) == k0, "run: a task that is not stopped keeps its place")
                S.chk('state', s, same_ptr(e, S.cv(s).ptr('current_task'), Ptr(C) if C else NULL), "run: the current task stays")
                S.check_consistent(s, "run")


def proofs(tags, which):
    all_ = [("kernel", p_kernel, ["hev_task_system_schedule", "hev_task_system_pick_current_task", "hev_task_system_io_poll", "hev_task_system_update_sched_key",
                                  "hev_task_system_reinsert_current_task", "hev_task_system_remove_current_task",
                                  "hev_task_system_insert_task", "_hev_task_system_insert_task", "hev_task_io_reactor_wait"]),
            ("switch", p_switch, ["hev_task_yield", "hev_task_system_schedule"]),
            ("kill", p_kill, ["hev_task_system_kill_current_task"]),
            ("wakeup", p_wakeup, ["hev_task_wakeup", "hev_task_system_wakeup_task", "hev_task_system_wakeup_task_with_context", "_hev_task_system_insert_task"]),
            ("run", p_run, ["hev_task_run", "hev_task_system_run_new_task", "hev_task_system_insert_task"])]
    return [Proof(n, (lambda f: lambda cx: f(cx, tags))(f), fs) for n, f, fs in all_ if n in which]


PROOFS = proofs(TAGS, ("kernel", "switch", "kill", "wakeup", "run"))
ASSUMPTIONS = ["fewer than 2^31 tasks are live and no virtual time reaches 2^62",
               "a stopped task is not woken (hev_task_wakeup aborts on one) and no descriptor stays registered for a task that ended",
               "hev_task_yield is called with one of its documented reasons"]
