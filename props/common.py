"""the task environment as seen by one cooperative task: who am I, waking others, giving up the CPU"""
import z3
from dv.harness import *


class Env:
    def __init__(self, cx, on_yield=None, stop_ok=False):
        self.cx = cx
        self.on_yield = on_yield
        self.yields = 0
        e = cx.eng
        self.WAITIO = cx.const("HEV_TASK_WAITIO")
        self.YIELD = cx.const("HEV_TASK_YIELD")

        def self_(eng, st, args, I):
            return [(st, Ptr(st.ghost['me']))]

        def wake(eng, st, args, I):
            p = eng.as_ptr(args[0])
            who = st.frames[-1].fn.name if st.frames else "?"
            ok = p.obj is not None and p.obj in st.ghost['run'] and p.off.const() == 0 and st.objs[p.obj].alive
            eng.check(st, bool(ok), f"{who}: wakes a live, started task", "memory")
            if not ok:
                return []
            st.ghost['run'] = dict(st.ghost['run'])
            st.ghost['run'][p.obj] = z3.BoolVal(True)
            st.ghost['woken'] = tuple(st.ghost.get('woken', ())) + (p.obj,)
            return [(st, None)]

        def yield_(eng, st, args, I):
            t = cval(args[0])
            who = st.frames[-1].fn.name if st.frames else "?"
            if t is None:
                raise Unsupported("symbolic yield type")
            eng.check(st, bool(t in (self.WAITIO, self.YIELD)), f"{who}: gives up the CPU in a defined way")
            if self.on_yield is None:
                eng.check(st, False, f"{who}: does not give up the CPU")
                return []
            st.ghost['yields'] = st.ghost.get('yields', 0) + 1
            return [(s, None) for s in self.on_yield(eng, st, t == self.WAITIO)]
        e.stubs.update({'hev_task_self': self_, 'hev_task_wakeup': wake, 'hev_task_yield': yield_,
                        'hev_task_system_wakeup_task': wake, 'hev_task_system_schedule': yield_})

    def task(self, st, name, running=None):
        # only its identity matters here: the content is the scheduler's
        o = st.new_obj(name, self.cx.prog.struct("_HevTask", "hev-task")[''][1], 'heap')
        st.ghost['run'] = dict(st.ghost.get('run', {}))
        st.ghost['run'][o.id] = freshb(name + ".running") if running is None else z3.BoolVal(running)
        return o.id

    def me(self, st):
        o = self.task(st, "me", True)
        st.ghost['me'] = o
        return o

    def running(self, st, oid):
        return st.ghost['run'][oid]


class SharedLoop(LoopSpec):
    """loop around a wait: the shared state at the loop head is any state the rely condition allows"""
    name = "wait loop"

    def __init__(self, owned, havoc, inv=None, cands=()):
        self._owned, self._havoc, self._inv, self._cands = owned, havoc, inv, cands

    def candidates(self, eng, st):
        return list(self._cands)

    def owned(self, eng, st):
        return self._owned(st)

    def havoc(self, eng, st):
        return self._havoc(eng, st)

    def inv(self, eng, st, when):
        if self._inv:
            self._inv(eng, st, when)
