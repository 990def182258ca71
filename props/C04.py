"""C04 life of a task: creation, references, priority, start"""
import z3
from dv.harness import *
from props.C01 import proofs, ASSUMPTIONS as A1

TASK, MOD = "_HevTask", "hev-task"


class Env:
    def __init__(self, cx):
        self.cx, e = cx, cx.eng
        self.ts = cx.prog.struct(TASK, MOD)
        self.cs = cx.prog.struct("_HevTaskSystemContext", MOD)
        e.stubs.update({'hev_task_system_get_context': lambda eng, st, a, I: [(st, Ptr(st.ghost['ctx']))],
                         'hev_task_stack_new': self.s_stack_new, 'hev_task_stack_destroy': self.s_stack_destroy,
                        'hev_task_stack_get_bottom': self.s_bottom, 'hev_list_add_tail': self.s_add, 'hev_list_del': self.s_del})
        mem_stubs(e)
        TRUST.use("stack", "hev_task_stack_new, _get_bottom and _destroy as specified under C26")
        TRUST.use("list", "hev_list_add_tail and hev_list_del as proved under C13")

    def state(self):
        st = self.cx.state()
        st.ghost['ctx'] = st.new_obj("context", self.cs[''][1], 'heap').id
        st.ghost.update(listed=(), stacks=(), gone=())
        return st

    def task(self, st, listed=True):
        o = st.new_obj("task", self.ts[''][1], 'heap')
        o.meta['base'] = True
        k = st.new_obj("stack", 16, 'heap')
        v = self.v(st, o.id)
        v.set('stack', Ptr(k.id))
        st.ghost['stacks'] = (k.id,)
        if listed:
            st.ghost['listed'] = (o.id,)
        return o.id

    def v(self, st, o):
        return View(self.cx, st, o, TASK, module=MOD)

    def s_stack_new(self, eng, st, a, I):
        st.ghost['asked'] = eng.as_bv(st, a[0], 32)
        f = st.fork()
        o = st.new_obj("stack", 16, 'heap')
        st.ghost['stacks'] = st.ghost['stacks'] + (o.id,)
        return [(f, NULL), (st, Ptr(o.id))]

    def s_bottom(self, eng, st, a, I):
        p = eng.as_ptr(a[0])
        ok = bool(p.obj in st.ghost['stacks'] and st.objs[p.obj].alive)
        eng.check(st, ok, "top of a live stack", "memory")
        if not ok:
            return []
        b = st.ghost.setdefault('bottom', {})
        if p.obj not in b:
            st.ghost['bottom'] = dict(b) | {p.obj: fresh("top", 64)}
        return [(st, Ptr(None, st.ghost['bottom'][p.obj]))]

    def s_stack_destroy(self, eng, st, a, I):
        p = eng.as_ptr(a[0])
        who = st.frames[-1].fn.name
        ok = bool(p.obj in st.ghost['stacks'] and st.objs[p.obj].alive and p.off.const() == 0)
        eng.check(st, ok, f"{who}: releases a live stack exactly once", "memory")
        if not ok:
            return []
        st.wobj(p.obj).alive = False
        return [(st, None)]

    def node(self, eng, st, a, what):
        l, n = eng.as_ptr(a[0]), eng.as_ptr(a[1])
        ok = bool(l.obj == st.ghost['ctx'] and l.off.const() == self.cs['all_tasks'][0] and n.obj in st.objs and n.off.const() == self.ts['list_node'][0] and st.objs[n.obj].alive)
        eng.check(st, ok, f"{what}: the node of a live task, in the list of the calling thread's tasks")
        return n.obj if ok else None

    def s_add(self, eng, st, a, I):
        o = self.node(eng, st, a, "adding to the list of tasks")
        if o is None:
            return []
        eng.check(st, bool(o not in st.ghost['listed']), "adding to the list of tasks: not listed yet")
        st.ghost['listed'] = st.ghost['listed'] + (o,)
        return [(st, None)]

    def s_del(self, eng, st, a, I):
        o = self.node(eng, st, a, "removing from the list of tasks")
        if o is None:
            return []
        eng.check(st, bool(o in st.ghost['listed']), "removing from the list of tasks: listed")
        st.ghost['listed'] = tuple(x for x in st.ghost['listed'] if x != o)
        return [(st, None)]


def p_new(cx):
    E = Env(cx)
    e = cx.eng
    st = E.state()
    size = cx.inp(st, "stack_size", 32)
    for s, r in e.call(st, "hev_task_new", [size]):
        p = e.as_ptr(r)
        live = [o for o in s.ghost.get('allocs', ()) if s.objs[o].alive]
        stacks = [o for o in s.ghost['stacks'] if s.objs[o].alive]
        if p.is_null():
            e.cover(s, "creation fails")
            e.check(s, bool(not live and not stacks), "new: a failed creation releases everything")
            e.check(s, bool(not s.ghost['listed']), "new: a failed creation leaves no trace in the list of tasks")
            e.check(s, bool(s.ghost.get('alloc_failed') or len(s.ghost['stacks']) == 0), "new: fails only without memory")
            continue
        e.cover(s, "created")
        ok = p.obj is not None and live == [p.obj] and p.off.const() == 0
        e.check(s, bool(ok), "new: one block, handed to the caller")
        if not ok:
            continue
        v = E.v(s, p.obj)
        e.check(s, z3.And(bv(s.objs[p.obj].size, 64) == E.ts[''][1]), "new: room for a whole task")
        e.check(s, v.get('ref_count') == 1, "new: one reference, the caller's")
        e.check(s, v.get('state') == cx.const("HEV_TASK_STOPPED"), "new: stopped")
        e.check(s, z3.And(v.get('next_priority') >= cx.const("HEV_TASK_PRIORITY_MIN"), v.get('next_priority') <= cx.const("HEV_TASK_PRIORITY_MAX")), "new: priority in range")
        e.check(s, bool(v.ptr('joiner').is_null()), "new: nobody joined")
        k = v.ptr('stack')
        e.check(s, bool(len(stacks) == 1 and k.obj == stacks[0]), "new: owns its stack")
        if len(stacks) == 1 and k.obj == stacks[0]:
            e.check(s, e.as_bv(s, v.get('stack_bottom'), 64) == s.ghost.get('bottom', {}).get(k.obj, fresh("unset", 64)), "new: starts at the top of its own stack")
        e.check(s, z3.Implies(size >= 0, s.ghost['asked'] == size), "new: a stack of the size asked for")
        e.check(s, s.ghost['asked'] > 0 if False else z3.Implies(size < 0, s.ghost['asked'] > 0), "new: a default stack otherwise")
        e.check(s, bool(v.ptr('sched_entity').obj == p.obj and v.ptr('sched_entity').off.const() == 0), "new: its events name itself")
        e.check(s, bool(s.ghost['listed'] == (p.obj,)), "new: listed once")


def p_ref(cx):
    E = Env(cx)
    e = cx.eng
    st = E.state()
    t = E.task(st)
    n = cx.inp(st, "ref_count", 32)
    st.assume(z3.And(n >= 1, n < (1 << 31) - 1))
    E.v(st, t).set('ref_count', n)
    for s, r in e.call(st, "hev_task_ref", [Ptr(t)]):
        e.cover(s, "ref")
        e.check(s, same_ptr(e, r, Ptr(t)), "ref: the task itself")
        e.check(s, E.v(s, t).get('ref_count') == n + 1, "ref: one more reference")


def p_unref(cx):
    E = Env(cx)
    e = cx.eng
    st = E.state()
    t = E.task(st)
    n = cx.inp(st, "ref_count", 32)
    st.assume(n >= 1)
    E.v(st, t).set('ref_count', n)
    for s, _ in e.call(st, "hev_task_unref", [Ptr(t)]):
        k = s.ghost['stacks'][0]
        for s, last in e.branch(s, n == 1):
            e.cover(s, f"unref {'last' if last else ''}")
            if last:
                e.check(s, bool(not s.objs[t].alive and not s.objs[k].alive), "unref: the last one releases the task and its stack")
                e.check(s, bool(s.ghost['listed'] == ()), "unref: the last one takes the task off the list")
            else:
                e.check(s, bool(s.objs[t].alive and s.objs[k].alive), "unref: nothing is released while references remain")
                e.check(s, bool(s.ghost['listed'] == (t,)), "unref: a referenced task stays listed")
                if s.objs[t].alive:
                    e.check(s, E.v(s, t).get('ref_count') == n - 1, "unref: one reference less")


def p_priority(cx):
    E = Env(cx)
    e = cx.eng
    st = E.state()
    t = E.task(st)
    lo, hi = cx.const("HEV_TASK_PRIORITY_MIN"), cx.const("HEV_TASK_PRIORITY_MAX")
    p = cx.inp(st, "priority", 32)
    for s, _ in e.call(st, "hev_task_set_priority", [Ptr(t), p]):
        for s, r in e.call(s, "hev_task_get_priority", [Ptr(t)]):
            e.cover(s, "priority")
            e.check(s, z3.And(r >= lo, r <= hi), "priority: always in the documented range")
            e.check(s, r == z3.If(p < lo, BV(lo, 32), z3.If(p > hi, BV(hi, 32), p)), "priority: the one asked for, or the nearest limit")


PROOFS = [Proof("new", p_new, ["hev_task_new"]), Proof("ref", p_ref, ["hev_task_ref"]), Proof("unref", p_unref, ["hev_task_unref"]),
          Proof("priority", p_priority, ["hev_task_set_priority", "hev_task_get_priority"])] + proofs(('life',), ("kernel",)) + proofs(('start', 'frame'), ("run",))
ASSUMPTIONS = A1 + ["callers drop only references they hold and start only tasks they hold a reference to"]
