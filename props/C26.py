"""C26 stacks: size, alignment, guard, release; calls on a separate stack"""
import z3
from dv.harness import *

STACK, SMOD = "_HevTaskStack", "hev-task-stack-mmap"
CALL, CMOD = "_HevTaskCall", "hev-task-call"
PAGES = (4096, 16384, 65536)
PROT_NONE, PROT_RW, MAP_FIXED, MAP_ANON, MAP_PRIVATE = 0, 3, 0x10, 0x20, 0x2
LIM = 1 << 47


class Maps:
    """the address space: ghost list of mappings"""

    def __init__(self, cx, page):
        self.cx, self.page = cx, page
        TRUST.use("mmap/mprotect/munmap", "a mapping is a fresh page-aligned range of the length asked for rounded up to pages, readable and writable as asked; fails for length 0 and beyond 2^47; "
                  "protection and removal apply to the pages of the range given")
        TRUST.use("getpagesize", "the page size: 4096, 16384 or 65536")
        cx.eng.stubs.update({'mmap': self.mmap, 'mprotect': self.mprotect, 'munmap': self.munmap,
                             'getpagesize': lambda e, st, a, I: [(st, BV(page, 32))],
                             'sysconf': lambda e, st, a, I: [(st, BV(page, 64))]})

    def mmap(self, eng, st, a, I):
        n = eng.as_bv(st, a[1], 64)
        prot, flags = cval(a[2]), cval(a[3])
        eng.check(st, bool(prot is not None and flags is not None and flags & MAP_ANON and flags & MAP_PRIVATE), "new: private memory")
        eng.check(st, bool(not flags & MAP_FIXED), "new: no existing mapping is replaced")
        outs = []
        f = st.fork()
        f.ghost['map_failed'] = True
        outs.append((f, Ptr(None, BV(-1, 64))))
        st.assume(z3.And(n != 0, z3.ULE(n, LIM)))
        if not eng.feasible(st):
            return outs
        o = st.new_obj("mapping", n, 'map')
        o.meta['align'] = self.page
        st.ghost['map'] = dict(id=o.id, n=n, prot=prot, guard=None)
        st.ghost['maps'] = st.ghost.get('maps', 0) + 1
        return outs + [(st, Ptr(o.id))]

    def rng(self, eng, st, p, n, what):
        m = st.ghost.get('map')
        ok = m is not None and p.obj == m['id'] and st.objs[m['id']].alive
        eng.check(st, bool(ok), f"{what}: a range of the stack's own mapping", "memory")
        return ok

    def mprotect(self, eng, st, a, I):
        p, n, prot = eng.as_ptr(a[0]), eng.as_bv(st, a[1], 64), cval(a[2])
        if not self.rng(eng, st, p, n, "protect"):
            return []
        m = st.ghost['map']
        off = p.off.bv()
        eng.check(st, z3.And(off & (self.page - 1) == 0, z3.ULE(off, m['n']), z3.ULE(n, m['n'] - off)), "protect: pages of the stack's own mapping")
        f = st.fork()
        st.ghost['map'] = dict(m, guard=(off, (n + self.page - 1) & ~(self.page - 1), prot))
        return [(f, BV(-1, 32)), (st, BV(0, 32))]

    def munmap(self, eng, st, a, I):
        p, n = eng.as_ptr(a[0]), eng.as_bv(st, a[1], 64)
        if not self.rng(eng, st, p, n, "release"):
            return []
        m = st.ghost['map']
        up = lambda x: (x + self.page - 1) & BV(-self.page, 64)
        eng.check(st, z3.And(p.off.bv() == 0, up(n) == up(m['n'])), "release: exactly the mapped range")
        st.wobj(m['id']).alive = False
        return [(st, BV(0, 32))]


def setup(cx, page, cached):
    M = Maps(cx, page)
    mem_stubs(cx.eng)
    st = cx.state()
    cx.prog.global_symbolic = lambda key: False
    return M, st


def p_stack(page):
    def proof(cx):
        e = cx.eng
        M, st = setup(cx, page, False)
        size = cx.inp(st, "size", 32)
        st.assume(size >= 0)
        for rnd in range(2):    # the first call and, with the page size remembered, any later one
            for s, r in e.call(st.fork() if rnd else st.fork(), "hev_task_stack_new", [size]):
                again(cx, M, s, r, size, rnd)
            if rnd == 0:
                # go on after a failed first call (nothing stays allocated: proved above)
                s2 = [s for s, r in e.call(st, "hev_task_stack_new", [BV(0, 32)]) if e.as_ptr(r).is_null()][0]
                s2.ghost.pop('map', None)
                s2.ghost.pop('map_failed', None)
                s2.ghost.pop('alloc_failed', None)
                s2.ghost['allocs'] = ()
                st = s2
    return proof


def again(cx, M, s, r, size, rnd):
    e, page = cx.eng, M.page
    p = e.as_ptr(r)
    m = s.ghost.get('map')
    live = [o for o in s.ghost.get('allocs', ()) if s.objs[o].alive]
    mapped = m is not None and s.objs[m['id']].alive
    if p.is_null():
        e.cover(s, "creation fails")
        e.check(s, bool(not live and not mapped), "new: a failed creation leaves nothing allocated or mapped")
        return
    e.cover(s, "created")
    e.check(s, bool(live == [p.obj] and mapped), "new: the stack owns one mapping")
    if live != [p.obj] or not mapped:
        return
    for s, base in e.call(s, "hev_task_stack_get_base", [p]):
        for s, top in e.call(s, "hev_task_stack_get_bottom", [p]):
            b, t = e.as_ptr(base), e.as_ptr(top)
            ok = b.obj == m['id'] and t.obj == m['id']
            e.check(s, bool(ok), "base and top are in the mapping")
            if not ok:
                continue
            top = t.off.bv()
            e.check(s, bool(m['prot'] & PROT_RW == PROT_RW), "new: the stack can be read and written")
            e.check(s, z3.ULE(top, m['n']), "new: the top is inside the mapping")
            e.check(s, z3.And(top & 15 == 0), "new: the top is aligned")
            e.check(s, b.off.bv() == 0, "new: the base is the start of the mapping")
            g = m['guard']
            e.check(s, bool(g is not None and g[2] == PROT_NONE), "new: part of the mapping is inaccessible")
            if g is None:
                continue
            low = g[0] + g[1]
            e.check(s, z3.And(g[1] != 0, z3.ULE(low, top)), "new: the page just below the usable area is inaccessible")
            e.check(s, z3.UGE(top - low, z3.SignExt(32, size)), "new: at least the size asked for between guard and top")
            for s, _ in e.call(s, "hev_task_stack_destroy", [p]):
                e.cover(s, "destroyed")
                e.check(s, bool(not s.objs[m['id']].alive and not s.objs[p.obj].alive), "destroy: mapping and block are released")


def p_call(cx):
    e = cx.eng
    st = cx.state()

    def skew(eng, st, o):
        o.meta['skew'] = fresh("address", 64)
        st.assume(o.meta['skew'] & 7 == 0)
        st.assume(z3.ULE(o.meta['skew'], LIM))
    mem_stubs(e, on_new=skew)
    base, stack = cx.inp(st, "base_size", 32), cx.inp(st, "stack_size", 32)
    cs = cx.prog.struct(CALL, CMOD)
    st.assume(z3.And(base >= cs[''][1], stack >= 16))
    for s, r in e.call(st, "hev_task_call_new", [base, stack]):
        p = e.as_ptr(r)
        live = [o for o in s.ghost.get('allocs', ()) if s.objs[o].alive]
        if p.is_null():
            e.cover(s, "no memory")
            e.check(s, bool(not live), "call: a failed creation leaves nothing allocated")
            continue
        e.cover(s, "created")
        e.check(s, bool(live == [p.obj] and p.off.const() == 0), "call: one block")
        if live != [p.obj]:
            continue
        o = s.objs[p.obj]
        v = View(cx, s, p.obj, CALL, module=CMOD)
        t = v.ptr('stack_top')
        e.check(s, bool(t.obj == p.obj), "call: the stack is inside its own block")
        if t.obj != p.obj:
            continue
        off, need = t.off.bv(), z3.SignExt(32, base) + z3.SignExt(32, stack)
        size = BV(o.size, 64) if isinstance(o.size, int) else o.size
        e.check(s, z3.UGE(size, need), "call: room for the data and the stack")
        e.check(s, z3.ULE(off, size), "call: the top of the stack is inside the block")
        e.check(s, (o.meta['skew'] + off) & 15 == 0, "call: the stack is aligned")
        e.check(s, z3.And(z3.ULE(z3.SignExt(32, base), off), z3.ULE(z3.SignExt(32, stack) - 15, off - z3.SignExt(32, base))), "call: the size asked for lies between the data and the top")
        calls = []

        def execute(eng, s, a, I):
            TRUST.use("hev_task_execute", "assembly: calls entry (call) on the stack ending at call->stack_top and returns when it returns")
            eng.check(s, bool(eng.as_ptr(a[0]).obj == p.obj and eng.as_ptr(a[0]).off.const() == 0), "jump: runs with its own call")
            eng.check(s, bool(eng.as_ptr(a[1]).obj == "fn:$entry"), "jump: runs the given function")
            eng.check(s, bool(not s.ghost.get('ran')), "jump: runs it once")
            s.ghost['ran'] = True
            w = View(cx, s, p.obj, CALL, module=CMOD)
            eng.check(s, same_ptr(eng, w.ptr('stack_top'), t), "jump: on its own stack")
            s.ghost['ret'] = fresh("retval", 64)
            w.set('retval', Ptr(None, s.ghost['ret']))
            return [(s, None)]
        e.stubs['hev_task_execute'] = execute
        v.set('retval', Ptr(None, fresh("old", 64)))
        for s, r in e.call(s, "hev_task_call_jump", [p, Ptr("fn:$entry")]):
            e.cover(s, "jumped")
            e.check(s, bool(s.ghost.get('ran')), "jump: runs the function")
            if s.ghost.get('ran'):
                e.check(s, e.as_bv(s, r, 64) == s.ghost['ret'], "jump: hands back its value")
            for s, _ in e.call(s, "hev_task_call_destroy", [p]):
                e.check(s, bool(not s.objs[p.obj].alive), "call: destroying releases the block")


PROOFS = [Proof(f"stack-{n}", p_stack(n), ["hev_task_stack_new", "hev_task_stack_destroy", "hev_task_stack_get_base", "hev_task_stack_get_bottom"]) for n in PAGES] + [
    Proof("call", p_call, ["hev_task_call_new", "hev_task_call_jump", "hev_task_call_destroy"])]
ASSUMPTIONS = ["a call is made with room for its header (base_size >= sizeof (HevTaskCall)) and a stack of at least 16 bytes",
               "an allocator returns blocks aligned to 8 bytes or more",
               "the stack growing downwards from the top given to it (hev_task_execute, setjmp based start) is assembly, outside the contracts (C29)"]
