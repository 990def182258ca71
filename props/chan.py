"""channels C09 (content, order), C10 (waking, closing), C11 (select).

Two ends A and B of one channel with any capacity, message size, position and fill of the
rings.  The invariant of a pair of ends holds whenever a task gives up the CPU: ring
positions, who is listed with which selector, and that a registered waiter whose condition
is over is runnable.  Giving up the CPU = any change the operations of the other tasks
may make (one reader and one writer per end).  Slots of a ring are materialised when touched."""
import time
import z3
from dv.harness import *
from props.common import Env
from props.io import GLoop

MOD, SMOD = "hev-task-channel", "hev-task-channel-select"
CH, SEL = "_HevTaskChannel", "_HevTaskChannelSelect"
COPY = "hev_task_channel_data_copy"
OPT = ('select', 'task', 'read.task', 'write.task')
NUM = ('read.used', 'write.used', 'rd_idx', 'wr_idx', 'max_size', 'use_count', 'max_count', 'ref_count')


def zx(v):
    return z3.ZeroExt(32, v)


def eqv(a, b):
    return a is b or (isinstance(a, z3.BitVecRef) and isinstance(b, z3.BitVecRef) and a.eq(b))


def names(t, memo={}):
    k = t.get_id()
    if k not in memo:
        s, todo, seen = set(), [t], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                s.add(x.decl().name())
            todo += x.children()
        memo[k] = (t, s)
    return memo[k][1]


def sliced(eng, st, c, memo={}):
    """does c follow from the facts about its own variables alone (ring arithmetic; the facts used are remembered)"""
    c = simp(c)
    if eng.dry or z3.is_true(c):
        return False
    v = names(c)
    cs = [x for x in st.pc if names(x) and names(x) <= v] + [z3.Not(c)]
    here = {x.get_id() for x in cs}
    if any(core <= here for core, _ in memo.get(c.get_id(), ())):
        return True
    s = z3.Solver()
    s.set("timeout", 20000)
    ps = {}
    for x in {x.get_id(): x for x in cs}.values():
        q = z3.Bool(f"core!{x.get_id()}")
        ps[q.get_id()] = x
        s.assert_and_track(x, q)
    t = time.time()
    r = s.check() == z3.unsat
    eng.queries += 1
    eng.solver_time += time.time() - t
    if r:
        core = [ps[q.get_id()] for q in s.unsat_core()]
        memo.setdefault(c.get_id(), []).append((frozenset(x.get_id() for x in core), core + [c]))
    return r


def copy_stub(eng, st, a, I):
    TRUST.use(COPY, "copies the bytes and returns their number (proved under C09)")
    return [(s, a[2]) for s in eng.copy_bytes(st, eng.as_ptr(a[0]), eng.as_ptr(a[1]), a[2], "copy")]


def p_copy(cx):
    e, st = cx.eng, cx.state()
    n = cx.inp(st, "size")
    st.assume(z3.ULT(n, SIZE_LIMIT))
    src, dst = bytes_obj(st, "src", simp(n)), bytes_obj(st, "dst", simp(n))
    src.ro = True
    a, d = src.arr, dst.arr
    for s, r in e.call(st, COPY, [Ptr(dst.id), Ptr(src.id), n]):
        e.cover(s, "copies")
        e.check(s, r == n, "copy: returns the size")
        k = fresh("k", 64)
        s.assume(z3.ULT(k, n))
        if e.feasible(s):
            e.check(s, s.objs[dst.id].arr[k] == a[k], "copy: every byte arrives")


class Pair:
    def __init__(self, cx, pid, kind, linked=True, opt_tasks=True):
        self.cx, self.pid, self.kind, self.e = cx, pid, kind, cx.eng
        self.f = cx.prog.struct(CH, MOD)
        self.sf = cx.prog.struct(SEL, SMOD)
        for k in OPT + NUM + ('peer', 'buffers'):
            if k not in self.f:
                raise Unsupported(f"channel without field {k}")
        self.env = Env(cx, self.on_yield)
        self.act = None         # what other tasks may do: 'read' / 'write' operation in progress on A
        self.st = st = cx.state()
        self.me = self.env.me(st)
        self.mx = cx.inp(st, "max_count", 32)
        self.ms = cx.inp(st, "max_size", 32)
        st.assume(self.mx == 1 if kind == 'unbuffered' else z3.UGT(self.mx, 1))
        self.opt = {}
        self.slots = {}
        st.ghost['mem'] = {}
        st.ghost['msgs'] = {}
        self.A, self.B = (self.make(st, n) for n in "AB")
        self.ends = (self.A, self.B)
        self.linked = linked
        for x, y in ((self.A, self.B), (self.B, self.A)):
            self.e.poke(st, x, self.f['peer'][0], 8, Ptr(y) if linked else NULL)
        if not linked:
            st.wobj(self.B).alive = False
        for x in self.ends:
            for k in NUM:
                self.set(st, x, k, fresh(k, 32))
            self.set(st, x, 'max_count', self.mx)
            self.set(st, x, 'max_size', self.ms)
            self.set(st, x, 'ref_count', BV(1, 32))
        for k in ('rd_idx', 'wr_idx', 'use_count'):
            for n, x in zip("AB", self.ends):
                st.ghost['inputs'][f"{n}.{k}"] = self.get(st, x, k)
        for x in self.ends:
            self.options(st, x)
        self.lists(st)
        self.assume_inv(st)
        self.snap(st)
        e = self.e
        e.stubs.update({'hev_list_add_tail': self.ladd, 'hev_list_del': self.ldel})
        e.stubs[COPY] = copy_stub
        mem_stubs(e)
        e.loop_policy = lambda eng, s, fn, h: ChanLoop(self)

    # ---- representation
    def make(self, st, n):
        f = self.f
        sl = st.new_obj(n + ".slots", simp(16 * zx(self.mx)), 'heap')
        sl.elems, sl.stride, sl.ebase, sl.egen = [], 16, 0, self.slot
        o = st.new_obj(n, simp(f['buffers'][0] + 16 * zx(self.mx)), 'heap')
        o.meta['regions'] = [(f['buffers'][0], sl.size, sl.id)]
        self.slots[o.id] = sl.id
        for k in OPT:
            if k == 'select':
                self.opt[o.id, k] = st.new_obj(n + ".selector", self.sf[''][1], 'heap').id
            else:
                self.opt[o.id, k] = self.env.task(st, f"{n}.{k}")
        return o.id

    def slot(self, eng, st, o, idx, cells):
        """a slot of a ring seen for the first time"""
        n = fresh("message.size", 64)
        d = st.new_obj("message", n if self.kind == 'unbuffered' else zx(self.ms), 'input')
        d.arr = z3.Array(f"message!{d.id}", B(64), B(8))
        st.assume(z3.ULE(n, zx(self.ms)) if self.kind != 'unbuffered' else z3.ULT(n, SIZE_LIMIT))
        cells[0], cells[8] = (8, n), (8, Ptr(d.id))
        st.ghost['msgs'] = dict(st.ghost['msgs'])
        st.ghost['msgs'][o.id, len(o.elems) - 1] = (idx, n, d.id, d.arr)

    def get(self, st, x, k):
        v = self.e.raw(st, x, self.f[k][0])
        if not isinstance(v, z3.BitVecRef) or v.size() != 32:
            raise Unsupported(f"unexpected content of {k}")
        return v

    def set(self, st, x, k, v):
        self.e.poke(st, x, self.f[k][0], 4, v)

    def ptr(self, st, x, k):
        return self.e.raw(st, x, self.f[k][0])

    def option(self, st, x, k, b):
        """pointer field that is set or not, b telling which"""
        t = self.opt[x, k]

        def fn(eng, s):
            f = s.fork()
            s.assume(b)
            f.assume(z3.Not(b))
            return [(q, v) for q, v in ((s, Ptr(t)), (f, NULL)) if eng.feasible(q)]
        z = Lazy(fn, k)
        z.b = b
        self.e.poke(st, x, self.f[k][0], 8, z)

    def has(self, st, x, k):
        v = self.ptr(st, x, k)
        if isinstance(v, Lazy):
            return v.b
        v = self.e.as_ptr(v)
        return z3.Not(same_ptr(self.e, v, NULL))

    def options(self, st, x, keep=()):
        sel = freshb("selected")
        for k in OPT:
            if k not in keep:
                self.option(st, x, k, sel if k in ('select', 'task') else freshb(k))

    def none(self, st, x):
        for k in OPT:
            self.e.poke(st, x, self.f[k][0], 8, NULL)

    def alive(self, st):
        return st.objs[self.B].alive

    def peer(self, st, x=None):
        """concrete: does A still have its peer"""
        v = self.ptr(st, x or self.A, 'peer')
        v = self.e.as_ptr(v)
        return not v.is_null()

    def lists(self, st):
        """membership goes with the flags"""
        st.ghost['mem'] = dict(st.ghost['mem'])
        for x in self.ends:
            for w in ('read', 'write'):
                st.ghost['mem'][x, w] = self.get(st, x, w + '.used') != 0

    def sel(self, st, x):
        return self.has(st, x, 'select')

    # ---- invariant, as (property, name, condition)
    def inv(self, st):
        for x, y, n in ((self.A, self.B, "A"), (self.B, self.A, "B")):
            if not st.objs[x].alive:
                continue
            live = self.peer(st, x) and st.objs[y].alive
            g = lambda k: self.get(st, x, k)
            rd, wr, use = g('rd_idx'), g('wr_idx'), g('use_count')
            yield 'C09', "positions inside the ring", z3.And(z3.ULT(rd, self.mx), z3.ULT(wr, self.mx), z3.ULE(use, self.mx))
            yield 'C09', "the write position follows the unread messages", z3.Or(z3.And(z3.UGE(wr, rd), use == wr - rd), z3.And(z3.ULE(wr, rd), use == wr - rd + self.mx))
            yield 'C09', "capacity unchanged", z3.And(g('max_count') == self.mx, g('max_size') == self.ms)
            run = lambda k: self.env.running(st, self.opt[x, k])
            if live:
                yield 'C10', "a waiting reader with a message is runnable", z3.Implies(z3.And(self.has(st, x, 'read.task'), use != 0), run('read.task'))
                yu = self.get(st, y, 'use_count')
                yield 'C10', "a waiting writer with room is runnable", z3.Implies(z3.And(self.has(st, x, 'write.task'), z3.ULT(yu, self.mx)), run('write.task'))
            else:
                yield 'C10', "waiting tasks of a closed channel are runnable", z3.And(*[z3.Implies(self.has(st, x, k), run(k)) for k in ('read.task', 'write.task')])
            sel = self.sel(st, x)
            m = st.ghost['mem']
            ru, wu = g('read.used'), g('write.used')
            yield 'C11', "listed for reading exactly with a message", z3.And((ru != 0) == m[x, 'read'], m[x, 'read'] == z3.And(sel, use != 0))
            yield 'C11', "listed exactly if marked", (wu != 0) == m[x, 'write']
            yield 'C11', "listed only with a selector", z3.Implies(m[x, 'write'], sel)
            if live:
                yu = self.get(st, y, 'use_count')
                yield 'C11', "listed for writing exactly with a free buffer", m[x, 'write'] == z3.And(sel, z3.ULT(zx(yu) + 1, zx(self.mx)))
            yield 'C11', "selector and its task go together", self.has(st, x, 'task') == sel

    def assume_inv(self, st):
        for _, _, c in self.inv(st):
            st.assume(c)

    def ck(self, pid, st, c, name):
        if pid == self.pid or pid == '*':
            if pid == 'C09' and not isinstance(c, bool) and sliced(self.e, st, c):
                st.assume(c)
            self.e.check(st, bool(c) if isinstance(c, bool) else c, name)

    def check_inv(self, st, what):
        for p, n, c in self.inv(st):
            self.ck(p, st, c, f"{what}: {n}")
        for x in self.ends:
            if st.objs[x].alive:
                old = st.ghost['snapmem']
                for w in ('read', 'write'):
                    self.ck('C11', st, z3.Implies(z3.And(st.ghost['mem'][x, w], z3.Not(old[x, w])),
                                                  z3.Or(self.env.running(st, self.opt[x, 'task']), z3.BoolVal(self.opt[x, 'task'] == self.me))), f"{what}: the selecting task is woken when a channel becomes ready")

    # ---- what happened since other tasks last ran
    def snap(self, st):
        st.ghost['snap'] = {x: {k: self.ptr(st, x, k) for k in OPT + NUM + ('peer',)} for x in self.ends}
        st.ghost['snapmem'] = dict(st.ghost['mem'])
        st.ghost['snapmsg'] = set(st.ghost['msgs'])

    def frame(self, st, allowed, what, tag='*'):
        """nothing but `allowed` {(end, field)} differs"""
        for x, n in zip(self.ends, "AB"):
            if not st.objs[x].alive:
                continue
            for k, old in st.ghost['snap'][x].items():
                new = self.ptr(st, x, k)
                if (x, k) in allowed or eqv(old, new):
                    continue
                c = self.same(st, x, k, old, new)
                self.ck(tag, st, c, f"{what}: {'own' if x == self.A else 'other'} end's {k} is not touched")

    def same(self, st, x, k, old, new):
        if isinstance(new, Lazy):
            return z3.BoolVal(False)
        if isinstance(old, Lazy):
            return z3.If(old.b, same_ptr(self.e, new, Ptr(self.opt[x, k])), same_ptr(self.e, new, NULL))
        if isinstance(old, Ptr) or isinstance(new, Ptr):
            return same_ptr(self.e, old, new)
        return old == new

    def slots_same(self, st, x, what, but=None):
        """contents of the ring of x are as they were, except for slot `but`"""
        sl = st.objs[self.slots[x]]
        for k, (idx, cells) in enumerate(sl.elems):
            m = st.ghost['msgs'].get((sl.id, k))
            if m is None:
                continue
            _, n, d, arr = m
            ok = eqv(cells[0][1], n) and isinstance(cells[8][1], Ptr) and cells[8][1].obj == d and st.objs[d].arr is arr
            if ok:
                continue
            self.ck('C09', st, idx == zx(but) if but is not None else False, f"{what}: no other message is touched")

    # ---- lists of the selectors (C13)
    def which(self, eng, st, a):
        l, n = eng.as_ptr(a[0]), eng.as_ptr(a[1])
        for x in self.ends:
            for w, ln in (('read.node', 'read_list'), ('write.node', 'write_list'), ('chan_node', 'chan_list')):
                if n.obj == x and n.off.const() == self.f[w][0]:
                    k = w.split('.')[0]
                    k = 'chan' if k == 'chan_node' else k
                    s = self.opt[x, 'select']
                    ok = l.obj == s and l.off.const() == self.sf[ln][0]
                    self.ck('*', st, bool(ok), f"{k} list: a channel is listed with its own selector")
                    return (x, k) if ok else None
        raise Unsupported("list of something else")

    def ladd(self, eng, st, a, I):
        TRUST.use("list", "hev_list_add_tail and hev_list_del as proved under C13")
        k = self.which(eng, st, a)
        if k is None:
            return []
        self.ck('*', st, z3.Not(st.ghost['mem'][k]), f"{k[1]} list: a channel is listed once")
        st.ghost['mem'] = dict(st.ghost['mem'])
        st.ghost['mem'][k] = z3.BoolVal(True)
        return [(st, None)]

    def ldel(self, eng, st, a, I):
        k = self.which(eng, st, a)
        if k is None:
            return []
        self.ck('*', st, st.ghost['mem'][k], f"{k[1]} list: only a listed channel is removed")
        st.ghost['mem'] = dict(st.ghost['mem'])
        st.ghost['mem'][k] = z3.BoolVal(False)
        return [(st, None)]

    # ---- other tasks
    def others(self, st):
        """everything other tasks may do while this one is away -> states"""
        outs = []
        e = self.e
        A, Bx = self.A, self.B
        st.ghost['ran'] = st.ghost.get('ran', 0) + 1
        was = self.peer(st)
        if self.act == 'write':
            now = self.posted(st)
            if now and not st.ghost['posted'] and not was:
                st.ghost['late'] = True
            st.ghost['posted'] = now
        for gone in ((False, True) if was else (True,)):
            s = st.fork()
            s.ghost['run'] = {t: z3.BoolVal(True) if t == self.me else freshb("running") for t in s.ghost['run']}
            mine = self.act + '.task'
            self.options(s, A, keep=('select', 'task', mine))
            if self.act == 'read':
                u = fresh("use", 32)
                s.assume(z3.UGE(u, self.get(st, A, 'use_count')))
                self.set(s, A, 'use_count', u)
                self.set(s, A, 'wr_idx', fresh("wr", 32))
                if gone:
                    s.wobj(Bx).alive = False
                else:
                    for k in ('rd_idx', 'wr_idx', 'use_count', 'read.used', 'write.used'):
                        self.set(s, Bx, k, fresh(k, 32))
                    self.options(s, Bx)
                sl = s.wobj(self.slots[A])
                sl.elems = []
                s.ghost['msgs'] = {k: v for k, v in s.ghost['msgs'].items() if k[0] != sl.id}
            else:
                for k in ('rd_idx', 'wr_idx', 'use_count'):
                    self.set(s, A, k, fresh(k, 32))
                if s.objs[Bx].alive:
                    u = fresh("use", 32)
                    s.assume(z3.ULE(u, self.get(st, Bx, 'use_count')))
                    self.set(s, Bx, 'use_count', u)
                    self.set(s, Bx, 'rd_idx', fresh("rd", 32))
                    for k in ('read.used', 'write.used'):
                        self.set(s, Bx, k, fresh(k, 32))
                    if gone:
                        self.none(s, Bx)
                        e.poke(s, Bx, self.f['peer'][0], 8, Ptr(A))
                        if was:
                            r = simp(self.get(st, Bx, 'ref_count') - 1)
                            self.set(s, Bx, 'ref_count', r)
                            if e.valid(s, r == 0):
                                s.wobj(Bx).alive = False
                    else:
                        self.options(s, Bx)
            for k in ('read.used', 'write.used'):
                self.set(s, A, k, fresh(k, 32))
            if gone:
                e.poke(s, A, self.f['peer'][0], 8, NULL)
            self.lists(s)
            self.assume_inv(s)
            self.snap(s)
            if e.feasible(s):
                outs.append(s)
        return outs

    def on_yield(self, eng, st, waiting):
        w = self.act
        if w is None:
            eng.check(st, False, "does not give up the CPU")
            return []
        self.check_inv(st, f"{w}: when giving up the CPU")
        full = self.get(st, self.A if w == 'read' else self.B, 'use_count')
        if waiting:
            eng.cover(st, f"{w} waits")
            self.ck('C10', st, full == 0 if w == 'read' else full == self.mx, f"{w}: waits only on an {'empty' if w == 'read' else 'full'} ring")
            self.ck('C10', st, self.peer(st), f"{w}: never waits for a destroyed peer")
            v = self.ptr(st, self.A, w + '.task')
            self.ck('C10', st, not isinstance(v, Lazy) and same_ptr(eng, v, Ptr(self.me)), f"{w}: registered while waiting")
        self.frame(st, self.allowed(st), f"{w} before waiting")
        return self.others(st)

    def posted(self, st):
        return not eqv(self.get(st, self.B, 'wr_idx'), st.ghost['wr0']) if st.objs[self.B].alive else True

    def allowed(self, st):
        A, Bx = self.A, self.B
        if self.act == 'read':
            return {(A, 'rd_idx'), (A, 'use_count'), (A, 'read.used'), (A, 'read.task'), (Bx, 'write.used')}
        return {(Bx, 'wr_idx'), (Bx, 'use_count'), (Bx, 'read.used'), (Bx, 'ref_count'), (A, 'write.used'), (A, 'write.task')}


class ChanLoop(LoopSpec):
    name = "other tasks run"

    def __init__(self, p):
        self.p = p

    def owned(self, eng, st):
        p = self.p
        return list(p.ends) + list(p.slots.values()) + [i for i, o in st.objs.items() if o.name == "message"]

    def mine(self, eng, st):
        return self.p.ptr(st, self.p.A, self.p.act + '.task')

    def candidates(self, eng, st0):
        v0 = self.mine(eng, st0)

        def same(e, s):
            v = self.mine(e, s)
            if v is v0:
                return z3.BoolVal(True)
            return z3.BoolVal(False) if isinstance(v, Lazy) or isinstance(v0, Lazy) else same_ptr(e, v, v0)
        n = st0.ghost.get('ran', 0)
        return [("registration as on entry", same), ("nobody else ran", lambda e, s: z3.BoolVal(s.ghost.get('ran', 0) == n))]

    def entry(self, eng, st):
        self.p.check_inv(st, f"{self.p.act}: at the wait loop")
        self.p.frame(st, self.p.allowed(st), f"{self.p.act} before the wait loop")
        self.msgs = dict(st.ghost['msgs'])

    def havoc(self, eng, st):
        p = self.p
        outs = []
        for s in (p.others(st) if "nobody else ran" in self.dropped else [st]):
            if "registration as on entry" in self.dropped:
                f = s.fork()
                for q, v in ((s, NULL), (f, Ptr(p.me))):
                    eng.poke(q, p.A, p.f[p.act + '.task'][0], 8, v)
                    p.snap(q)
                    outs.append(q)
            else:
                outs.append(s)
        return outs

    def back(self, eng, st):
        p = self.p
        for x in p.ends:
            if not st.objs[x].alive:
                continue
            for k, old in st.ghost['snap'][x].items():
                new = p.ptr(st, x, k)
                if (x, k) == (p.A, p.act + '.task') or eqv(old, new):
                    continue
                c = p.same(st, x, k, old, new)
                if not eng.valid(st, c):
                    raise Unsupported(f"wait loop changes {k}")
        for m, v in st.ghost['msgs'].items():
            if m not in self.msgs:
                raise Unsupported("wait loop handles messages")


# ------------------------------------------------------------------ read

def p_read(pid, kind, linked):
    def f(cx):
        p = Pair(cx, pid, kind, linked)
        e = cx.eng
        p.act = 'read'
        st = p.st
        n = cx.inp(st, "count")
        st.assume(z3.ULT(n, SIZE_LIMIT))
        e.poke(st, p.A, p.f['read.task'][0], 8, NULL)
        p.snap(st)
        dst = bytes_obj(st, "buffer", n)
        arr0 = dst.arr
        for s, r in e.call(st, "hev_task_channel_read", [Ptr(p.A), Ptr(dst.id), n]):
            sn = s.ghost['snap'][p.A]
            rd0, use0 = sn['rd_idx'], sn['use_count']
            v = p.ptr(s, p.A, 'read.task')
            p.ck('C10', s, not isinstance(v, Lazy) and same_ptr(e, v, NULL), "read: not registered any more on return")
            p.frame(s, p.allowed(s), "read")
            p.check_inv(s, "read")
            p.slots_same(s, p.A, "read")
            p.ck('*', s, bool(s.objs[p.A].alive), "read: the end stays")
            woke = set(s.ghost.get('woken', ()))
            for s2, neg in e.branch(s, r < 0):
                if neg:
                    e.cover(s2, "read fails")
                    p.ck('C10', s2, z3.And(r == -1, use0 == 0, z3.BoolVal(not p.peer(s2))), "read: fails with -1 only when empty and the peer is gone")
                    p.frame(s2, {(p.A, 'read.task')}, "failing read")
                    p.ck('C09', s2, bool(s2.objs[dst.id].arr is arr0), "read: failure leaves the buffer alone")
                    continue
                e.cover(s2, "read succeeds")
                p.ck('C09', s2, use0 != 0, "read: delivers only what was written")
                nr = zx(rd0) + 1
                p.ck('C09', s2, z3.And(zx(p.get(s2, p.A, 'rd_idx')) == z3.If(nr == zx(p.mx), 0, nr), p.get(s2, p.A, 'use_count') == use0 - 1,
                                       p.get(s2, p.A, 'wr_idx') == sn['wr_idx']), "read: consumes exactly the oldest message")
                hit = [m for (o, k), m in s2.ghost['msgs'].items() if o == p.slots[p.A] and e.valid(s2, m[0] == zx(rd0))]
                if not hit:
                    p.ck('C09', s2, use0 == 0, "read: takes the oldest message")
                    continue
                _, mn, d, marr = hit[0]
                want = z3.If(z3.ULT(mn, n), mn, n)
                p.ck('C09', s2, r == want, "read: the length is the message's, cut to the buffer")
                k = fresh("k", 64)
                arr = s2.objs[dst.id].arr
                s2.assume(z3.ULT(k, n))
                if e.feasible(s2):
                    p.ck('C09', s2, arr[k] == z3.If(z3.ULT(k, want), marr[k], arr0[k]), "read: exactly the message's bytes arrive")
    return f


# ------------------------------------------------------------------ write

def p_write(pid, kind, linked):
    def f(cx):
        p = Pair(cx, pid, kind, linked)
        e = cx.eng
        p.act = 'write'
        st = p.st
        n = cx.inp(st, "count")
        st.assume(z3.ULT(n, SIZE_LIMIT))
        e.poke(st, p.A, p.f['write.task'][0], 8, NULL)
        if linked:      # as every write leaves it
            st.assume(z3.ULT(p.get(st, p.B, 'use_count'), p.mx))
        p.snap(st)
        src = bytes_obj(st, "buffer", n)
        src.ro = True
        arr0 = src.arr
        wr0 = p.get(st, p.B, 'wr_idx')
        st.ghost['wr0'] = wr0
        st.ghost['posted'] = False
        want = n if kind == 'unbuffered' else z3.If(z3.ULT(zx(p.ms), n), zx(p.ms), n)
        for s, r in e.call(st, "hev_task_channel_write", [Ptr(p.A), Ptr(src.id), n]):
            v = p.ptr(s, p.A, 'write.task')
            p.ck('C10', s, not isinstance(v, Lazy) and same_ptr(e, v, NULL), "write: not registered any more on return")
            p.frame(s, p.allowed(s), "write")
            p.slots_same(s, p.A, "write")
            gone = not p.peer(s)
            freed = p.B in s.ghost.get('freed', ())
            if linked:
                p.ck('C10', s, bool(freed) if gone else bool(s.objs[p.B].alive) and p.get(s, p.B, 'ref_count') == 1,
                     "write: the other end is given back, and released exactly if it was destroyed meanwhile")
            p.ck('*', s, bool(s.objs[p.A].alive), "write: the end stays")
            p.check_inv(s, "write")
            for s2, neg in e.branch(s, r < 0):
                if neg:
                    e.cover(s2, "write fails")
                    p.ck('C10', s2, z3.And(r == -1, z3.BoolVal(gone)), "write: fails with -1 only when the peer is gone")
                    continue
                if not linked:
                    p.ck('C10', s2, False, "write: fails without a peer")
                    continue
                e.cover(s2, f"write succeeds ({'peer gone meanwhile' if gone else 'peer there'})")
                wr = zx(wr0) + 1
                if not gone:
                    p.ck('C09', s2, zx(p.get(s2, p.B, 'wr_idx')) == z3.If(wr == zx(p.mx), 0, wr), "write: adds exactly one message")
                    sn = s2.ghost['snap'][p.B]
                    p.ck('C09', s2, p.get(s2, p.B, 'use_count') == sn['use_count'] + (0 if s2.ghost['posted'] else 1), "write: counts exactly one message")
                    u = p.get(s2, p.B, 'use_count')
                    p.ck('C10', s2, z3.ULT(u, p.mx), "write: leaves room for the next write")
                    p.ck('C09', s2, z3.ULT(u, p.mx), "write: returns only when no more than the configured messages are outstanding")
                    if kind == 'unbuffered':
                        p.ck('C10', s2, u == 0, "write: an unbuffered write returns only after the message was taken")
                else:
                    p.ck('C10', s2, bool(s2.ghost['posted'] and not s2.ghost.get('late')), "write: nothing is written to a destroyed end")
                    u = p.get(s2, p.B, 'use_count')
                    p.ck('C10', s2, z3.ULT(u, p.mx), "write: fails when the peer goes before the message was taken over")
                p.slots_same(s2, p.B, "write", but=wr0)
                p.ck('C09', s2, r == want, "write: the length is the one given, cut to the message size")
                message(p, s2, wr0, src, arr0, n, want)
    return f


def message(p, s, wr0, src, arr0, n, want):
    """slot wr0 of B holds the message"""
    e = p.e
    sl = s.objs[p.slots[p.B]]
    hit = [c for i, c in sl.elems if e.valid(s, i == zx(wr0))]
    if not hit:
        p.ck('C09', s, False, "write: the message goes to the next free slot")
        return
    c = hit[0]
    sz, d = c[0][1], c[8][1]
    p.ck('C09', s, sz == want, "write: the message has its length")
    if not isinstance(d, Ptr) or d.obj not in s.objs or d.off.const() != 0:
        p.ck('C09', s, False, "write: the message has its bytes")
        return
    if p.kind == 'unbuffered' and d.obj == src.id:
        return
    arr = s.objs[d.obj].arr
    k = fresh("k", 64)
    s.assume(z3.ULT(k, want))
    if e.feasible(s):
        p.ck('C09', s, arr[k] == arr0[k], "write: the message has its bytes")
        if p.kind == 'unbuffered':
            raise Unsupported("unbuffered message is copied")


# ------------------------------------------------------------------ destroy

def p_destroy(pid, linked):
    def f(cx):
        p = Pair(cx, pid, 'buffered', linked)
        e = cx.eng
        st = p.st
        ref = cx.inp(st, "ref_count", 32)
        st.assume(z3.And(z3.UGE(ref, 1), z3.ULE(ref, 2)))
        p.set(st, p.A, 'ref_count', ref)
        p.none(st, p.A)         # an end is removed from its selector and not in use when it is destroyed
        st.assume(z3.Not(st.ghost['mem'][p.A, 'read']))
        st.assume(z3.Not(st.ghost['mem'][p.A, 'write']))
        p.snap(st)
        for s, _ in e.call(st, "hev_task_channel_destroy", [Ptr(p.A)]):
            freed = p.A in s.ghost.get('freed', ())
            e.cover(s, f"destroy ({'released' if freed else 'still used by a writer'})")
            p.ck('C10', s, (ref == 1) == z3.BoolVal(bool(freed)), "destroy: the memory goes with its last user")
            if not freed:
                p.ck('C10', s, p.get(s, p.A, 'ref_count') == ref - 1, "destroy: gives up one reference")
            if linked:
                p.ck('C10', s, not p.peer(s, p.B), "destroy: the peer learns of it")
                for k in ('read.task', 'write.task'):
                    p.ck('C10', s, z3.Implies(p.has(s, p.B, k), p.env.running(s, p.opt[p.B, k])), f"destroy: releases a blocked {k.split('.')[0]}r" if k[0] == 'w' else "destroy: releases a blocked reader")
            p.frame(s, {(p.B, 'peer'), (p.A, 'ref_count'), (p.A, 'peer')}, "destroy")
            p.slots_same(s, p.B, "destroy")
            p.ck('C11', s, z3.And(*[s.ghost['mem'][k] == v for k, v in s.ghost['snapmem'].items() if k[0] == p.B]), "destroy: the lists of the peer's selector stay")
    return f


# ------------------------------------------------------------------ creation

class NewLoop(GLoop):
    def cell_candidates(self, eng, st0, cells):
        out = []
        K = self.io.K
        for n, g in cells.items():
            def cond(e, s, f, g=g):
                x = g(e, s)
                return None if x is None else f(x, s.ghost['g'])
            done = lambda q: z3.And(q['seen1'] != 0, q['seen2'] != 0)
            for nm, f in (("> K set", lambda x, q: z3.Implies(z3.UGT(x, K), done(q))), ("<= K set", lambda x, q: z3.Implies(z3.ULE(x, K), done(q))),
                          ("> K set (32)", lambda x, q: z3.Implies(z3.UGT(x & 0xffffffff, K), done(q))), ("at most all", lambda x, q: z3.ULE(x & 0xffffffff, self.io.cnt)),
                          ("in 32 bits", lambda x, q: z3.ULE(x, self.io.cnt)),
                          ("is the slot's place", lambda x, q: z3.BoolVal(True))):
                out.append((f"{n} {nm}", lambda e, s, f=f, cond=cond: cond(e, s, f)))
        return out


class New:
    fname = "hev_task_channel_new_with_buffers"
    cands = ()

    def __init__(self, cx, fixed=False):
        self.cx, e = cx, cx.eng
        self.f = f = cx.prog.struct(CH, MOD)
        self.st = st = cx.state()
        self.size = BV(0, 32) if fixed else cx.inp(st, "size", 32)
        self.buffers = BV(0, 32) if fixed else cx.inp(st, "buffers", 32)
        self.cnt = simp(zx(self.buffers) + 1)
        self.K = z3.BitVec("which", 64)
        st.assume(z3.ULT(self.K, self.cnt))
        z = BV(0, 64)
        st.ghost['g'] = dict(seen1=z, seen2=z)
        set_errno(e, st, fresh("errno", 32))
        e.stubs['hev_malloc'] = alloc_stub('hev_malloc', on_new=self.block)
        e.stubs['hev_malloc0'] = alloc_stub('hev_malloc0', zero=True, on_new=self.block)
        e.stubs['hev_free'] = free_stub('hev_free')
        e.loop_policy = lambda eng, s, fn, h: NewLoop(self)

    def block(self, eng, st, o):
        sub = st.new_obj(o.name + ".slots", simp(16 * self.cnt), 'heap')
        no = len(st.ghost.get('allocs', ()))
        sub.meta['sink'] = lambda eng, s, off, n, v, no=no, me=o.id: self.slot(eng, s, off, n, v, no, me)
        o.meta['regions'] = [(self.f['buffers'][0], sub.size, sub.id)]

    def place(self, i):
        """where the data of slot i lives"""
        return self.f['buffers'][0] + 16 * self.cnt + zx(self.size) * i

    def slot(self, eng, st, off, n, v, no, me):
        fld = off.c % 16
        if any(sc % 16 for sc, _ in off.t) or n != 8:
            raise Unsupported("odd access to a slot")
        if fld == 0:
            return [st]
        idx = simp(z3.UDiv(off.add(-fld).bv(), BV(16, 64)))
        i = BV(off.c // 16, 64)
        for sc, x in off.t:
            i = i + (x if sc == 16 else BV(sc // 16, 64) * x)
        p = eng.as_ptr(v)
        eng.check(st, bool(p.obj == me), "new: a slot's data lies in its own channel")
        if p.obj != me:
            return []
        good = p.off.bv() == self.place(i)
        eng.check(st, good, "new: every slot has its own place for the data")
        k = f"seen{no}"
        st.ghost['g'] = dict(st.ghost['g'])
        st.ghost['g'][k] = simp(z3.If(z3.And(i == self.K), BV(1, 64), st.ghost['g'][k]))
        return [st]


def lemma(e, st):
    """places of different slots do not overlap and end inside the block (integers)"""
    size, k, j, b = z3.Ints("size k j b")
    s = z3.Solver()
    s.set("timeout", 20000)
    s.add(size >= 0, k >= 0, k < j, j < b, z3.Or(size * k + size > size * j, size * j + size > size * b))
    return s.check() == z3.unsat


def p_new(fixed):
    def f(cx):
        p = New(cx, fixed)
        e, st = cx.eng, p.st
        out = [st.new_obj(n, 8, 'input') for n in ("chan1", "chan2")]
        a = [Ptr(o.id) for o in out] + ([] if fixed else [p.size, p.buffers])
        ok = lemma(e, st)
        for s, r in e.call(st, "hev_task_channel_new" if fixed else p.fname, a):
            live = [o for o in s.ghost.get('allocs', ()) if s.objs[o].alive]
            for s2, neg in e.branch(s, r < 0):
                if neg:
                    e.cover(s2, "new fails")
                    e.check(s2, r == -1, "new: failure is -1")
                    e.check(s2, bool(not live), "new: failure keeps no memory")
                    cap = 128 + 2 * (16 * p.cnt)
                    few = z3.And(z3.ULE(p.buffers, 0xffffff), z3.ULE(p.size, 0xffffff))
                    e.check(s2, z3.Or(z3.BoolVal(bool(s2.ghost.get('alloc_failed'))), z3.Not(few)), "new: fails only without memory")
                    continue
                e.cover(s2, "new succeeds")
                e.check(s2, r == 0, "new: success is 0")
                c = [e.as_ptr(e.peek(s2, o.id, 0, 8, 'ptr')) for o in out]
                good = all(x.obj in live and x.off.const() == 0 for x in c) and len(live) == 2 and c[0].obj != c[1].obj
                e.check(s2, bool(good), "new: two ends, nothing else")
                if not good:
                    continue
                for x, y in (c, c[::-1]):
                    v = View(cx, s2, x.obj, CH, module=MOD)
                    e.check(s2, same_ptr(e, v.ptr('peer'), Ptr(y.obj)), "new: the ends are connected")
                    e.check(s2, z3.And(zx(v.get('max_count')) == p.cnt, v.get('max_size') == p.size), "new: capacity and message size as asked for")
                    e.check(s2, z3.And(v.get('rd_idx') == 0, v.get('wr_idx') == 0, v.get('use_count') == 0, v.get('ref_count') == 1), "new: empty, one user")
                    for k in OPT:
                        e.check(s2, same_ptr(e, v.ptr(k), NULL), f"new: no {k}")
                    e.check(s2, z3.And(v.get('read.used') == 0, v.get('write.used') == 0), "new: listed nowhere")
                    sz = bv(s2.objs[x.obj].size)
                    head = p.f['buffers'][0]
                    for s3, un in e.branch(s2, p.buffers == 0):
                        if un:
                            e.check(s3, z3.UGE(sz, head + 16), "new: room for the slot of an unbuffered channel")
                            continue
                        e.check(s3, z3.And(s3.ghost['g']['seen1'] != 0, s3.ghost['g']['seen2'] != 0), "new: every slot gets its place")
                        c = zx(p.buffers + 1)
                        e.check(s3, c == p.cnt, "new: one slot more than buffers asked for")
                        fits = z3.BVAddNoOverflow(zx(p.size) * c, 16 * c + head, False)
                        room = z3.And(fits, z3.UGE(sz, head + 16 * c + zx(p.size) * c))
                        if sliced(e, s3, room):
                            s3.assume(room)
                        e.check(s3, room, "new: room for all messages")
                        e.check(s3, bool(ok), "new: lemma: places of slots are disjoint")
    return f


# ------------------------------------------------------------------ selectors

def p_add(pid, linked):
    def f(cx):
        p = Pair(cx, pid, 'buffered', linked)
        return add(cx, p, linked)
    return f


def add(cx, p, linked):
    e, st = cx.eng, p.st
    f = p.f
    st.ghost['mem'][p.A, 'chan'] = z3.BoolVal(False)
    for k in ('select', 'task'):
        e.poke(st, p.A, f[k][0], 8, NULL)
    for w in ('read', 'write'):
        p.set(st, p.A, w + '.used', BV(0, 32))
        st.ghost['mem'][p.A, w] = z3.BoolVal(False)
    p.opt[p.A, 'task'] = p.me
    p.snap(st)
    S = p.opt[p.A, 'select']
    for s, _ in e.call(st, "hev_task_channel_select_add", [Ptr(S), Ptr(p.A)]):
        e.cover(s, "add")
        p.ck('C11', s, same_ptr(e, p.ptr(s, p.A, 'select'), Ptr(S)), "add: the channel belongs to the selector")
        p.ck('C11', s, same_ptr(e, p.ptr(s, p.A, 'task'), Ptr(p.me)), "add: the calling task will be woken")
        p.ck('C11', s, s.ghost['mem'][p.A, 'chan'], "add: the selector knows the channel")
        if not linked:
            p.ck('C11', s, z3.Not(s.ghost['mem'][p.A, 'write']), "add: not writable without a peer")
        p.check_inv(s, "add")
        p.frame(s, {(p.A, k) for k in ('select', 'task', 'read.used', 'write.used')}, "add")


def p_del(pid, linked):
    def f(cx):
        p = Pair(cx, pid, 'buffered', linked)
        e, st = cx.eng, p.st
        st.ghost['mem'][p.A, 'chan'] = z3.BoolVal(True)
        st.assume(p.sel(st, p.A))
        for k in ('select', 'task'):
            e.poke(st, p.A, p.f[k][0], 8, Ptr(p.opt[p.A, k]))
        p.snap(st)
        S = p.opt[p.A, 'select']
        for s, _ in e.call(st, "hev_task_channel_select_del", [Ptr(S), Ptr(p.A)]):
            e.cover(s, "del")
            p.ck('C11', s, z3.Not(z3.Or(*[s.ghost['mem'][p.A, k] for k in ('read', 'write', 'chan')])), "del: the channel is not reported any more")
            p.ck('C11', s, z3.And(same_ptr(e, p.ptr(s, p.A, 'select'), NULL), same_ptr(e, p.ptr(s, p.A, 'task'), NULL)), "del: the selector and its task are forgotten")
            p.frame(s, {(p.A, k) for k in ('select', 'task', 'read.used', 'write.used')}, "del")
            p.ck('C11', s, z3.And(p.get(s, p.A, 'read.used') == 0, p.get(s, p.A, 'write.used') == 0), "del: marks are cleared")
    return f


def p_selnew(cx):
    e, st = cx.eng, cx.state()
    sf = cx.prog.struct(SEL, SMOD)
    mem_stubs(e)
    for s, r in e.call(st, "hev_task_channel_select_new", []):
        r = e.as_ptr(r)
        if r.is_null():
            e.cover(s, "new fails")
            e.check(s, bool(s.ghost.get('alloc_failed')), "select new: fails only without memory")
            continue
        e.cover(s, "new succeeds")
        v = View(cx, s, r.obj, SEL, module=SMOD)
        for l in ('chan_list', 'read_list', 'write_list'):
            e.check(s, z3.And(same_ptr(e, v.ptr(l + '.head'), NULL), same_ptr(e, v.ptr(l + '.tail'), NULL)), f"select new: {l} is empty")
        for s2, _ in e.call(s, "hev_task_channel_select_destroy", [Ptr(r.obj)]):
            e.cover(s2, "destroy")
            e.check(s2, bool(r.obj in s2.ghost.get('freed', ())), "select destroy: released")


class SelLoop(GLoop):
    def owned(self, eng, st):
        return list(super().owned(eng, st)) + [st.ghost['S']]

    def havoc(self, eng, st):
        outs = super().havoc(eng, st)
        for s in outs:
            self.io.ready(s)
        return outs

    def cell_candidates(self, eng, st0, cells):
        out = []
        for n, g in cells.items():
            def cond(e, s, f, g=g):
                x = g(e, s)
                return None if x is None else f(x, s.ghost['g'])
            for nm, f in (("is the time left", lambda x, q: (x & 0xffffffff) == ((self.io.t64 - q['t']) & 0xffffffff)), ("negative", lambda x, q: z3.Extract(31, 31, x) == 1)):
                out.append((f"{n} {nm}", lambda e, s, f=f, cond=cond: cond(e, s, f)))
        return out


class Select:
    def __init__(self, cx, w, kind):
        self.cx, self.w, self.kind = cx, w, kind
        e = cx.eng
        self.fname = f"hev_task_channel_select_{w}"
        self.f, self.sf = cx.prog.struct(CH, MOD), cx.prog.struct(SEL, SMOD)
        self.st = st = cx.state()
        self.t = cx.inp(st, "timeout", 32)
        st.assume({'zero': self.t == 0, 'positive': self.t > 0, 'negative': self.t < 0}[kind])
        self.t64 = z3.SignExt(32, self.t)
        z = BV(0, 64)
        st.ghost['g'] = dict(t=z, waits=z)
        set_errno(e, st, fresh("errno", 32))
        st.ghost['S'] = st.new_obj("selector", self.sf[''][1], 'heap').id
        st.ghost['X'] = st.new_obj("ready", self.f[''][1], 'heap').id
        st.ghost['O'] = st.new_obj("other", self.f[''][1], 'heap').id
        self.any = freshb("has_channels")
        for l in ('chan_list', 'read_list', 'write_list'):
            e.poke(st, st.ghost['S'], self.sf[l + '.tail'][0], 8, Lazy(self.no, l))
        self.lz(st, 'chan_list', self.any, Ptr(st.ghost['X'], self.f['chan_node'][0]))
        self.ready(st)
        self.cands = [("time within the timeout", lambda e, s: z3.And(s.ghost['g']['t'] >= 0, s.ghost['g']['t'] <= z3.If(self.t64 > 0, self.t64, 0))),
                      ("has channels", lambda e, s: self.any)]
        e.stubs.update({'hev_task_sleep': self.sleep, 'hev_task_yield': self.yield_})
        e.loop_policy = lambda eng, s, fn, h: SelLoop(self)

    def no(self, eng, st):
        raise Unsupported("walks along the channels")

    def lz(self, st, l, b, p):
        def fn(eng, s):
            f = s.fork()
            s.assume(b)
            f.assume(z3.Not(b))
            return [(q, v) for q, v in ((s, p), (f, NULL)) if eng.feasible(q)]
        self.cx.eng.poke(st, st.ghost['S'], self.sf[l + '.head'][0], 8, Lazy(fn, l))

    def ready(self, st):
        """which lists have a first element now"""
        st.ghost['ready'] = {}
        for w, o in (('read', 'X' if self.w == 'read' else 'O'), ('write', 'X' if self.w == 'write' else 'O')):
            b = freshb(w + "able")
            st.assume(z3.Implies(b, self.any))
            st.ghost['ready'][w] = b
            self.lz(st, w + '_list', b, Ptr(st.ghost[o], self.f[w + '.node'][0]))

    def wait(self, eng, st):
        eng.check(st, self.any, "select: never waits without channels")
        eng.check(st, z3.Not(st.ghost['ready'][self.w]), "select: never waits while a channel is ready")
        eng.check(st, bool(self.kind != 'zero'), "select: timeout 0 never waits")
        eng.cover(st, f"select {self.w} waits ({self.kind})")

    def sleep(self, eng, st, a, I):
        TRUST.use("hev_task_sleep", "returns the time left, at most the one asked for; 0 only when it is over (proved under C06)")
        self.wait(eng, st)
        q = st.ghost['g']
        ms = zx(a[0])
        eng.check(st, bool(self.kind == 'positive'), "select: a negative timeout waits without limit")
        eng.check(st, z3.And(ms > 0, ms <= self.t64 - q['t']), "select: waits for no longer than the time left")
        r = fresh("left", 32)
        st.assume(z3.ULE(r, a[0]))
        st.ghost['g'] = dict(q, t=simp(q['t'] + ms - zx(r)))
        self.ready(st)
        return [(st, r)]

    def yield_(self, eng, st, a, I):
        self.wait(eng, st)
        eng.check(st, a[0] == self.cx.const("HEV_TASK_WAITIO"), "select: waits as a waiting task")
        eng.check(st, bool(self.kind == 'negative'), "select: a timeout is honoured while waiting")
        self.ready(st)
        return [(st, None)]


def p_select(w, kind):
    def f(cx):
        p = Select(cx, w, kind)
        e = cx.eng
        S, X = p.st.ghost['S'], p.st.ghost['X']
        for s, r in e.call(p.st, p.fname, [Ptr(S), p.t]):
            r = e.as_ptr(r)
            rd = s.ghost['ready'][w]
            if r.is_null():
                e.cover(s, f"select {w} reports nothing ({kind})")
                e.check(s, z3.Or(z3.Not(p.any), z3.And(z3.Not(rd), p.t >= 0, s.ghost['g']['t'] == p.t64)), "select: nothing only without channels or when the time is over with none ready")
                continue
            e.cover(s, f"select {w} reports a channel ({kind})")
            e.check(s, bool(r.obj == X and r.off.const() == 0), "select: reports a ready channel")
            e.check(s, rd, "select: the reported channel is ready")
            e.check(s, bool(not [k for k in s.wset if k[0] in (S, X)]), "select: changes nothing")
    return f


RD, WR, DE = "hev_task_channel_read", "hev_task_channel_write", "hev_task_channel_destroy"


def ops(pid):
    out = []
    for kind in ('unbuffered', 'buffered'):
        for linked in (True, False):
            t = f"{kind}{'' if linked else ', peer gone'}"
            out.append(Proof(f"read {t}", p_read(pid, kind, linked), [RD]))
            if linked or kind == 'buffered':
                out.append(Proof(f"write {t}", p_write(pid, kind, linked), [WR]))
    for linked in (True, False):
        out.append(Proof(f"destroy{'' if linked else ', peer gone'}", p_destroy(pid, linked), [DE]))
    return out


ASSUME = ["one task at a time reads and one writes on an end; an end is not destroyed while an operation on that end itself is in progress, and is removed from its selector first",
          "all tasks of a channel and its selectors belong to one thread",
          "rely: other tasks change a channel only through the functions of this module (each of which is proved to keep the invariant used as rely)"]
