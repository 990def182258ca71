"""C14 slice allocator.

The cache is an arbitrary number of size classes' chains of blocks and the list of the
classes in use.  The classes near the place of interest are visible, their numbers being
symbolic; opaque segments stand for the rest.  All totals are symbolic."""
import re
import z3
from dv.harness import *

MOD, SELF, BASE, SLICE, NODE = "hev-memory-allocator-slice", "_HevMemoryAllocatorSlice", "_HevMemoryAllocator", "_HevMemorySlice", "_HevMemoryLRUNode"


def config(cx, name):
    for f in cx.prog.flags:
        m = re.match(rf"-D{name}=(\d+)$", f)
        if m:
            return int(m.group(1))
    raise Unsupported(f"{name} not configured")


def unseen(eng, st):
    raise Unsupported("walks into the unseen part of the cache")


class C:
    def __init__(self, cx):
        self.cx = cx
        e = cx.eng
        self.ALIGN, self.LIMIT = config(cx, "CONFIG_MEMALLOC_SLICE_ALIGN"), config(cx, "CONFIG_MEMALLOC_SLICE_MAX_COUNT")
        self.MAX = config(cx, "CONFIG_MEMALLOC_SLICE_MAX_SIZE")
        self.CLASSES = self.MAX // self.ALIGN
        cx.prog.mod(MOD)
        self.f, self.n, self.l = cx.prog.struct(SELF, MOD), cx.prog.struct(NODE, MOD), cx.prog.struct(SLICE, MOD)
        self.HEAD = self.l[''][1]
        e.stubs.update({'malloc': alloc_stub('malloc', on_new=self.data), 'calloc': calloc_stub('calloc'), 'free': free_stub('free'),
                        'realloc': self.realloc, 'printf': lambda eng, st, a, I: [(st, BV(0, 32))]})
        # the operations are those the constructor installs
        st = cx.state()
        self.ops = {}
        for s, r in e.call(st, "hev_memory_allocator_slice_new", []):
            p = e.as_ptr(r)
            if p.obj in s.objs:
                v = View(cx, s, p.obj, BASE, module=MOD)
                self.ops = {k: v.ptr(k).obj[3:] for k in ('alloc', 'realloc', 'free', 'destroy')}

    def data(self, eng, st, o):
        if isinstance(o.size, int) and o.size == self.f[''][1]:
            return      # the allocator itself
        o.arr = z3.Array(f"{o.name}.data!{o.id}", B(64), B(8))
        o.arr_base = self.HEAD

    def realloc(self, eng, st, a, I):
        TRUST.use("realloc", "NULL and the old block as it was, or a block of the size asked for with the old content up to the smaller size, the old block being gone")
        p, n = eng.as_ptr(a[0]), a[1]
        if p.is_null():
            return eng.stubs['malloc'](eng, st, [n], I)
        o = st.objs.get(p.obj)
        eng.check(st, bool(o is not None and o.alive and o.kind == 'heap' and p.off.const() == 0), "realloc gets a live block", "memory")
        if o is None:
            return []
        f = st.fork()
        f.ghost['alloc_failed'] = 1
        outs = [(f, NULL)]
        st.assume(z3.And(n != 0, z3.ULT(n, SIZE_LIMIT)))
        if not eng.feasible(st):
            return outs
        new = st.new_obj("moved", n, 'heap')
        new.cells = {k: v for k, v in o.cells.items() if k < self.HEAD}
        k = z3.BitVec(f"k!{new.id}", 64)
        old, junk = o.arr, z3.Array(f"moved.junk!{new.id}", B(64), B(8))
        sz = bv(o.size)
        eng.check(st, z3.UGE(n, self.HEAD), "realloc keeps the header")
        new.arr = z3.Lambda([k], z3.If(z3.And(z3.ULT(k, n - self.HEAD), z3.ULT(k, sz - self.HEAD)), old[k], junk[k]))
        new.arr_base = self.HEAD
        st.wobj(p.obj).alive = False
        st.ghost['moved'] = (p.obj, new.id)
        return outs + [(st, Ptr(new.id))]

    # ---- a cache
    def block(self, st, name, cls):
        """a block of class cls (64 bit; None: of no class)"""
        o = st.new_obj(name, fresh(name + ".size", 64), 'heap')
        o.arr = z3.Array(f"{name}.data!{o.id}", B(64), B(8))
        o.arr_base = self.HEAD
        need = self.HEAD + (cls + 1) * self.ALIGN if cls is not None else BV(self.HEAD, 64)
        st.assume(z3.And(z3.UGE(o.size, need), z3.ULT(o.size, SIZE_LIMIT if cls is None else need + self.ALIGN)))
        v = View(self.cx, st, o.id, SLICE, module=MOD)
        v.set('index', z3.Extract(31, 0, cls) if cls is not None else BV(-1, 32))
        return o.id

    def chain(self, st, cls, k):
        """first block of a class in use; what follows is decided when it is read"""
        rest = fresh("rest", 64)
        st.assume(z3.And(rest >= 0, rest <= self.LIMIT))
        b = self.block(st, f"cached{k}", cls)

        def nxt(eng, s, b=b, rest=rest):
            f = s.fork()
            f.assume(rest == 0)
            s.assume(rest > 0)
            g = s.ghost
            s2 = self.block(s, f"next{k}", cls)
            r2 = simp(rest - 1)
            tok = Lazy(unseen, f"chain{k}")
            self.cx.eng.poke(s, s2, self.l['next'][0], 8, tok)
            g['orig'] = dict(g['orig'])
            g['orig'][b] = Ptr(s2)
            g['orig'][s2] = tok
            f.ghost['orig'] = dict(f.ghost['orig'])
            f.ghost['orig'][b] = NULL
            return [(x, v) for x, v in ((f, NULL), (s, Ptr(s2))) if eng.feasible(x)]
        tok = Lazy(nxt, f"chain{k}")
        self.cx.eng.poke(st, b, self.l['next'][0], 8, tok)
        st.ghost['orig'] = dict(st.ghost.get('orig', {}))
        st.ghost['orig'][b] = tok
        return b, rest

    def make(self, st, cls, before, after, used):
        """the allocator with class `cls` (64 bit number, or None) at its place in the list if used;
        before/after: other classes in use, 's' = opaque segment of any length"""
        cx, e = self.cx, self.cx.eng
        o = st.new_obj("allocator", self.f[''][1], 'heap')
        me = o.id
        lru = st.new_obj("lru_nodes", self.f['lru_nodes'][1], 'heap')
        lru.elems, lru.stride, lru.ebase, lru.egen = [], self.n[''][1], 0, None
        mem = st.new_obj("cached_mslices", self.f['cached_mslices'][1], 'heap')
        mem.elems, mem.stride, mem.ebase, mem.egen = [], 8, 0, None
        o.meta['regions'] = [(self.f['lru_nodes'][0], self.f['lru_nodes'][1], lru.id), (self.f['cached_mslices'][0], self.f['cached_mslices'][1], mem.id)]
        items, total, seg = [], BV(0, 64), 0
        idx = []

        def other(tag):
            k = fresh(tag, 64)
            st.assume(z3.And(z3.ULT(k, self.CLASSES), *[k != x for x in idx + ([cls] if cls is not None else [])]))
            idx.append(k)
            return k
        for i, x in enumerate(before):
            items.append(('seg', f"b{i}") if x == 's' else other(f"before{i}"))
        if used:
            items.append(cls)
            idx.append(cls)
        for i, x in enumerate(after):
            items.append(('seg', f"a{i}") if x == 's' else other(f"after{i}"))
        toks, first, hidden = {}, {}, False
        for t in [x for x in items if isinstance(x, tuple)]:
            hidden = True
            toks[t[1]] = (Lazy(unseen, t[1] + ".first"), Lazy(unseen, t[1] + ".last"))
            r = fresh("segment", 64)
            st.assume(z3.And(r >= 0, r <= self.LIMIT))
            total = total + r
        vis = [x for x in items if not isinstance(x, tuple)]
        for i, x in enumerate(items):
            if isinstance(x, tuple):
                continue

            def link(j, end):
                if j < 0 or j >= len(items):
                    return NULL
                return self.node(me, items[j]) if not isinstance(items[j], tuple) else toks[items[j][1]][end]
            lru.elems.append((x, {self.n['prev'][0]: (8, link(i - 1, 1)), self.n['next'][0]: (8, link(i + 1, 0))}))
            b, rest = self.chain(st, x, len(first))
            first[i] = b
            total = total + 1 + rest
            mem.elems.append((x, {0: (8, Ptr(b))}))
        if cls is not None and not used:
            lru.elems.append((cls, {}))
            mem.elems.append((cls, {0: (8, NULL)}))
        v = View(cx, st, me, SELF, module=MOD)
        v.set('lru_head', self.node(me, items[0]) if items else NULL)
        v.set('lru_tail', self.node(me, items[-1]) if items else NULL)
        count = cx.inp(st, "cached_count", 32)
        v.set('cached_count', count)
        st.assume(z3.And(z3.ULE(count, self.LIMIT), z3.ZeroExt(32, count) == total))
        st.ghost['cache'] = dict(me=me, lru=lru.id, mem=mem.id, items=items, toks=toks, first=[(items[i], b) for i, b in first.items()], count=count)
        return me

    def node(self, me, k):
        return Ptr(me, Off(self.f['lru_nodes'][0]).add(0, ((self.n[''][1], k),)))

    # ---- the cache afterwards
    def walk(self, s, p):
        """blocks from p -> (ids, end); end: NULL or what is unseen"""
        ids = []
        while isinstance(p, Ptr) and p.obj is not None and p.obj in s.objs and p.off.const() == 0 and p.obj not in ids:
            ids.append(p.obj)
            c = s.objs[p.obj].cells.get(self.l['next'][0])
            p = c[1] if c else UNDEF
            if isinstance(p, z3.BitVecRef) and cval(p) == 0:
                p = NULL
        return ids, p

    def check(self, s, what, added=None, taken=None):
        """the cache is well formed and holds the blocks it held, plus `added` = [(block, class)], less those
        taken or released; returns the number of blocks gained"""
        e = self.cx.eng
        g = s.ghost['cache']
        me = g['me']
        if not s.objs[me].alive:
            e.check(s, False, f"{what}: the allocator stays")
            return
        before, now = {}, {}
        gained = 0
        mem, lru = s.objs[g['mem']], s.objs[g['lru']]
        use = []        # classes in use afterwards (elements of mem)
        for i, (k, cells) in enumerate(mem.elems):
            ids0, end0 = [], NULL
            for x, b in g['first']:
                if x is k:
                    ids0, p = [], Ptr(b)
                    while isinstance(p, Ptr) and not p.is_null():
                        ids0.append(p.obj)
                        p = s.ghost['orig'][p.obj]
                    end0 = p
            c = cells.get(0)
            p = c[1] if c else UNDEF
            if isinstance(p, z3.BitVecRef) and cval(p) == 0:
                p = NULL
            ids, end = self.walk(s, p)
            e.check(s, bool(end is end0 or (isinstance(end, Ptr) and end.is_null() and isinstance(end0, Ptr) and end0.is_null())), f"{what}: each class keeps its chain of blocks")
            want = [b for b in ids0 if s.objs[b].alive and b != taken]
            for b, bc in added or ():
                if bc is k and s.objs[b].alive:
                    want.append(b)
            e.check(s, bool(sorted(ids) == sorted(want)), f"{what}: a class holds exactly its blocks that are neither in use nor released")
            e.check(s, bool(all(s.objs[b].alive for b in ids)), f"{what}: no released block is cached")
            for b in ids:
                x = View(self.cx, s, b, SLICE, module=MOD).get('index')
                e.check(s, z3.SignExt(32, x) == k, f"{what}: a block is cached in its own class")
            gained += len(ids) - len(ids0)
            if ids:
                use.append(k)
        v = View(self.cx, s, me, SELF, module=MOD)
        n = v.get('cached_count')
        e.check(s, n == g['count'] + gained, f"{what}: the count is the number of cached blocks")
        e.check(s, z3.ULE(n, self.LIMIT), f"{what}: the cache keeps its limit")
        # the list of classes
        nodes = lru.elems
        segs = dict(g['toks'])
        seen, cur, prev = [], e.raw(s, me, self.f['lru_head'][0]), NULL
        bad = None
        for _ in range(40):
            if isinstance(cur, z3.BitVecRef) and cval(cur) == 0:
                cur = NULL
            if isinstance(cur, Lazy):
                t = [x for x, (a, b) in segs.items() if a is cur]
                if not t:
                    bad = "an unknown node"
                    break
                # the unseen part still points at its old neighbours
                i = [n for n, x in enumerate(g['items']) if isinstance(x, tuple) and x[1] == t[0]][0]
                bad = None if seen and seen[-1] is g['items'][i - 1] else "segment moved"
                if bad:
                    break
                prev = segs.pop(t[0])[1]
                cur = self.node(me, g['items'][i + 1])
                continue
            if not isinstance(cur, Ptr):
                bad = "no pointer"
                break
            if cur.is_null():
                break
            k = None
            for x, cells in nodes:
                if cur.obj == me and e.valid(s, same_ptr(e, cur, self.node(me, x))):
                    k, at = x, cells
            if k is None or any(k is x for x in seen):
                bad = "no node of the list"
                break
            c = at.get(self.n['prev'][0])
            pv = c[1] if c else UNDEF
            if isinstance(prev, Lazy):
                okp = pv is prev
            else:
                okp = not isinstance(pv, (Lazy, Undef)) and e.valid(s, same_ptr(e, pv, prev))
            if not okp:
                bad = "backward link"
                break
            seen.append(k)
            prev = self.node(me, k)
            c = at.get(self.n['next'][0])
            cur = c[1] if c else UNDEF
        e.check(s, bool(bad is None), f"{what}: the list of classes is well formed")
        e.check(s, bool(not segs), f"{what}: no class is lost from the list")
        tail = e.raw(s, me, self.f['lru_tail'][0])
        if bad is None and not isinstance(tail, (Lazy, Undef)) and tail is not None:
            e.check(s, same_ptr(e, tail, prev), f"{what}: the last class of the list is right")
        else:
            e.check(s, False, f"{what}: the last class of the list is right")
        e.check(s, bool(len(use) == len(seen) and all(any(k is x for x in seen) for k in use)), f"{what}: the list holds exactly the classes with cached blocks")


SIDES = [[], ["n"], ["n", "n"], ["n", "s", "n", "n"]]
LEFT = [[], ["n"], ["n", "n"], ["n", "n", "s", "n"]]


def shapes(cls):
    """(name, before, after, class in use)"""
    for a in SIDES:
        yield f"class empty, {len(a)} others", [], a, False
    if cls:
        for b in LEFT:
            for a in SIDES:
                yield f"class in use, {len(b)} before, {len(a)} after", b, a, True


def in_use(cx, c, st, blk, off):
    """a block as its user holds it"""


def p_alloc(cx, part):
    c = C(cx)
    e = cx.eng
    for nm, b, a, used in shapes(True):
        if (part == 'new') == used:
            continue
        st = cx.state()
        size = cx.inp(st, "size", 64)
        up = (size + (c.ALIGN - 1)) & ~BV(c.ALIGN - 1, 64)
        small = z3.And(size != 0, z3.ULE(size, c.MAX))
        cls = simp(z3.UDiv(up, BV(c.ALIGN, 64)) - 1)
        k = fresh("class", 64)
        st.assume(z3.ULT(k, c.CLASSES))
        st.assume(z3.Implies(small, k == cls))
        if used:
            st.assume(small)
        me = c.make(st, k, b, a, used)
        g = st.ghost['cache']
        for s, r in e.call(st, c.ops['alloc'], [Ptr(me), size]):
            p = e.as_ptr(r)
            if p.is_null():
                e.cover(s, "alloc returns NULL") if not used else None
                e.check(s, z3.Or(size == 0, z3.UGT(size, (1 << 64) - c.ALIGN)) if not s.ghost.get('alloc_failed') else z3.BoolVal(True), "alloc: NULL only when there is no memory")
                c.check(s, "failed alloc")
                continue
            e.cover(s, f"alloc: {nm}")
            result(cx, c, s, p, size, "alloc")
            c.check(s, "alloc", taken=p.obj)


def result(cx, c, s, p, size, what):
    """p is a good block for a request of that size"""
    e = cx.eng
    o = s.objs.get(p.obj)
    e.check(s, bool(o is not None and o.kind == 'heap' and o.alive), f"{what}: returns a live block")
    if o is None:
        return
    e.check(s, bool(p.off.const() == c.HEAD and c.HEAD % 16 == 0), f"{what}: the user's part follows the header and is aligned")
    e.check(s, z3.And(z3.UGE(bv(o.size), c.HEAD), z3.ULE(size, bv(o.size) - c.HEAD)), f"{what}: the block has room for the size asked for")
    x = z3.SignExt(32, View(cx, s, p.obj, SLICE, module=MOD).get('index'))
    e.check(s, z3.Or(x < 0, z3.And(x < c.CLASSES, z3.UGE(bv(o.size), c.HEAD + (x + 1) * c.ALIGN), z3.ULT(bv(o.size), c.HEAD + (x + 2) * c.ALIGN))),
            f"{what}: the block is as big as the class it will be cached in")


def p_free(cx, part):
    c = C(cx)
    e = cx.eng
    for nm, b, a, used in shapes(part != 'big'):
        if part in ('new', 'used') and (part == 'used') != used:
            continue
        st = cx.state()
        k = cx.inp(st, "class", 64) if part != 'big' else None
        if k is not None:
            st.assume(z3.ULT(k, c.CLASSES))
        me = c.make(st, k, b, a, used)
        blk = c.block(st, "block", k)
        for s, _ in e.call(st, c.ops['free'], [Ptr(me), Ptr(blk, c.HEAD)]):
            e.cover(s, f"free: {nm}")
            c.check(s, "free", added=[(blk, k)])
            if k is None:
                e.check(s, bool(not s.objs[blk].alive), "free: a block of no class is released")
            else:
                e.cover(s, "free caches a block") if s.objs[blk].alive else None
            e.cover(s, "free evicts") if part != 'big' and s.ghost.get('freed') else None


def p_realloc(cx):
    c = C(cx)
    e = cx.eng
    for nm, b, a, used in [("empty", [], [], False), ("others", [], ["n", "s", "n", "n"], False)]:
        for big in (False, True):
            for zero in (False, True):
                st = cx.state()
                size = cx.inp(st, "size", 64)
                old = cx.inp(st, "old_size", 64)
                st.assume((size == 0) if zero else (size != 0))
                k = None if big else cx.inp(st, "class", 64)
                if k is not None:
                    st.assume(z3.ULT(k, c.CLASSES))
                me = c.make(st, k, b, a, used)
                blk = c.block(st, "block", k)
                o = st.objs[blk]
                st.assume(z3.ULE(old, o.size - c.HEAD))
                arr = o.arr
                x0 = View(cx, st, blk, SLICE, module=MOD).get('index')
                for s, r in e.call(st, c.ops['realloc'], [Ptr(me), Ptr(blk, c.HEAD), size]):
                    p = e.as_ptr(r)
                    if zero:
                        e.cover(s, "realloc to 0")
                        e.check(s, bool(p.is_null()), "realloc: size 0 returns NULL")
                        c.check(s, "realloc to 0", added=[(blk, k)])
                        continue
                    if p.is_null():
                        e.cover(s, "realloc fails")
                        e.check(s, z3.UGT(size, (1 << 64) - c.ALIGN) if not s.ghost.get('alloc_failed') else z3.BoolVal(True), "realloc: NULL only when there is no memory")
                        j = fresh("j", 64)
                        e.check(s, bool(s.objs[blk].alive), "failed realloc: the old block stays")
                        e.check(s, z3.Implies(z3.ULT(j, old), s.objs[blk].arr[j] == arr[j]), "failed realloc: the old block keeps its content")
                        e.check(s, View(cx, s, blk, SLICE, module=MOD).get('index') == x0, "failed realloc: the old block keeps its class")
                        c.check(s, "failed realloc")
                        continue
                    e.cover(s, "realloc works")
                    result(cx, c, s, p, size, "realloc")
                    if p.obj in s.objs and s.objs[p.obj].arr is not None:
                        j = fresh("j", 64)
                        e.check(s, z3.Implies(z3.And(z3.ULT(j, old), z3.ULT(j, size)), s.objs[p.obj].arr[j] == arr[j]), "realloc: the content is kept up to the smaller size")
                    e.check(s, bool(p.obj == blk or not s.objs[blk].alive or k is not None), "realloc: the old block is not lost")
                    c.check(s, "realloc", added=[(blk, k)] if p.obj != blk and s.objs[blk].alive else None, taken=p.obj)


def p_new(cx):
    c = C(cx)
    e = cx.eng
    st = cx.state()
    for s, r in e.call(st, "hev_memory_allocator_slice_new", []):
        p = e.as_ptr(r)
        if p.is_null():
            e.cover(s, "new fails")
            e.check(s, bool(s.ghost.get('alloc_failed')), "new: fails only without memory")
            continue
        e.cover(s, "new works")
        e.check(s, bool(p.obj in s.objs and s.objs[p.obj].kind == 'heap' and p.off.const() == 0), "new: a block of its own")
        v = View(cx, s, p.obj, SELF, module=MOD)
        e.check(s, z3.And(same_ptr(e, v.ptr('lru_head'), NULL), same_ptr(e, v.ptr('lru_tail'), NULL)), "new: no class in the list")
        e.check(s, v.get('cached_count') == 0, "new: nothing cached")
        b, n = c.f['cached_mslices']
        for k in range(0, n, 8):
            e.check(s, same_ptr(e, e.peek(s, p.obj, b + k, 8, 'ptr'), NULL), "new: every class is empty")
        e.check(s, View(cx, s, p.obj, BASE, module=MOD).get('ref_count') == 1, "new: one reference")


class Outer(LoopSpec):
    """over the classes in use"""
    name = "classes in use"
    all_roles = True

    def __init__(self, c):
        self.c = c

    def entry(self, eng, st):
        a = st.ghost['cache']['start']
        if not any(isinstance(c[1], Ptr) and eng._same(c[1], a) for o in st.objs.values() if o.kind == 'stack' and o.alive for c in o.cells.values()):
            raise Unsupported("destroy does not follow the list of classes")

    def owned(self, eng, st):
        g = st.ghost['cache']
        return [g['lru'], g['mem']]

    def views(self, eng, st):
        it = st.ghost.get('it')
        g = st.ghost['cache']
        if it is None:
            return [{'node': g['start']}]
        if it['k'] is None:
            return [{'node': NULL}]
        for k, cells in st.objs[g['lru']].elems:
            if k is it['k']:
                v = cells.get(self.c.n['next'][0])
                if v is not None and isinstance(v[1], Ptr):
                    return [{'node': v[1]}]
        return [{}]

    def havoc(self, eng, st):
        g = st.ghost['cache']
        c = self.c
        done = st.fork()
        done.ghost['it'] = dict(k=None)
        done.ghost['view'] = {'node': NULL}
        done.ghost['all'] = True
        for o in (g['lru'], g['mem']):
            st.wobj(o).elems = []
            done.wobj(o).elems = []
        k = fresh("class", 64)
        st.assume(z3.ULT(k, c.CLASSES))
        c.visit(st, k)
        st.ghost['it'] = dict(k=k)
        st.ghost['in'] = None
        st.ghost['cleared'] = False
        st.ghost['view'] = {'node': c.node(g['me'], k)}
        return [done, st]

    def back(self, eng, st):
        eng.check(st, bool(st.ghost.get('cleared')), "destroy: every block of a class is released")


class Inner(LoopSpec):
    """over the blocks of a class"""
    name = "blocks of a class"
    all_roles = True

    def __init__(self, c):
        self.c = c

    def views(self, eng, st):
        it = st.ghost.get('in')
        if it is None:
            return [{'iter': Ptr(st.ghost['first'])}]
        if it['b'] is None:
            return [{'iter': NULL}]
        v = st.ghost['orig'].get(it['b'])
        return [{'iter': v}] if isinstance(v, Ptr) else [{}]

    def entry(self, eng, st):
        eng.check(st, bool(st.objs[st.ghost['first']].alive), "destroy: starts with the first block of the class")

    def havoc(self, eng, st):
        c = self.c
        for b in list(st.ghost['orig']):
            if b in st.objs:
                st.wobj(b).alive = False
        done = st.fork()
        done.ghost['in'] = dict(b=None)
        done.ghost['cleared'] = True
        done.ghost['view'] = {'iter': NULL}
        b = c.link(st, st.ghost['it']['k'], "cur")
        st.ghost['in'] = dict(b=b)
        st.ghost['view'] = {'iter': Ptr(b)}
        return [done, st]

    def back(self, eng, st):
        b = st.ghost['in']['b']
        eng.check(st, bool(b is not None and not st.objs[b].alive), "destroy: each block is released")


def visit(c, st, k):
    """class k of the list, in use, as yet untouched"""
    g = st.ghost['cache']
    b = c.link(st, k, "first")
    st.ghost['first'] = b
    st.wobj(g['mem']).elems = [(k, {0: (8, Ptr(b))})]

    def nb(tag):
        def fn(eng, s):
            f = s.fork()
            k2 = fresh(tag, 64)
            s.assume(z3.And(z3.ULT(k2, c.CLASSES), k2 != k))
            s.wobj(g['lru']).elems.append((k2, {}))
            return [(f, NULL), (s, c.node(g['me'], k2))]
        return Lazy(fn, tag)
    st.wobj(g['lru']).elems = [(k, {c.n['prev'][0]: (8, nb("prev")), c.n['next'][0]: (8, nb("next"))})]


def link(c, st, k, name):
    b = c.block(st, name, k)

    def nxt(eng, s):
        f = s.fork()
        b2 = c.block(s, "following", k)
        c.cx.eng.poke(s, b2, c.l['next'][0], 8, Lazy(unseen))
        for x, v in ((f, NULL), (s, Ptr(b2))):
            x.ghost['orig'] = dict(x.ghost['orig'])
            x.ghost['orig'][b] = v
        return [(f, NULL), (s, Ptr(b2))]
    c.cx.eng.poke(st, b, c.l['next'][0], 8, Lazy(nxt))
    st.ghost['orig'] = dict(st.ghost.get('orig', {}))
    st.ghost['orig'][b] = None
    return b


C.visit, C.link = visit, link


def p_destroy(cx):
    c = C(cx)
    e = cx.eng

    def policy(eng, s, fn, h):
        if 'cache' not in s.ghost:
            return None
        it = s.ghost.get('it')
        if it is None:
            return Outer(c)
        return Inner(c) if it['k'] is not None else None
    e.loop_policy = policy
    for empty in (True, False):
        st = cx.state()
        me = c.make(st, None, [], [], False)
        g = st.ghost['cache']
        v = View(cx, st, me, SELF, module=MOD)
        st.ghost['orig'] = {}
        if empty:
            g['start'] = NULL
        else:
            k = fresh("first", 64)
            st.assume(z3.ULT(k, c.CLASSES))
            c.visit(st, k)
            g['start'] = c.node(me, k)
            v.set('lru_head', g['start'])
            v.set('lru_tail', Lazy(unseen))
            st.pc = tuple(x for x in st.pc if 'cached_count' not in str(x))
        for s, _ in e.call(st, c.ops['destroy'], [Ptr(me)]):
            e.cover(s, f"destroy {'an empty' if empty else 'a'} cache")
            e.check(s, bool(s.ghost.get('all') or empty), "destroy: every class in use is visited")
            e.check(s, bool(s.objs[me].alive), "destroy: the allocator itself is released by its owner")


def p_simple(cx):
    e = cx.eng
    got = {}

    def rec(name, ret):
        def h(eng, st, a, I):
            st.ghost['did'] = tuple(st.ghost.get('did', ())) + ((name, tuple(a)),)
            return [(st, ret(st))]
        return h
    stm = alloc_stub('malloc')
    e.stubs.update({'malloc': stm})
    ops = {}
    MS = "hev-memory-allocator-simple"
    cx.prog.mod(MS)
    for s, r in e.call(cx.state(), "hev_memory_allocator_simple_new", []):
        p = e.as_ptr(r)
        if p.is_null():
            e.check(s, bool(s.ghost.get('alloc_failed')), "simple new: fails only without memory")
            continue
        v = View(cx, s, p.obj, BASE, module=MS)
        e.check(s, v.get('ref_count') == 1, "simple new: one reference")
        e.check(s, same_ptr(e, v.ptr('destroy'), NULL) if not isinstance(v.ptr('destroy').obj, str) else z3.BoolVal(True), "simple new: nothing else to release")
        ops = {k: v.ptr(k).obj[3:] for k in ('alloc', 'realloc', 'free')}
        e.cover(s, "simple new")
    res = {}
    for nm in ('malloc', 'realloc', 'free'):
        e.stubs[nm] = rec(nm, (lambda nm: lambda st: Ptr(st.ghost['res']) if nm != 'free' else None)(nm))
    for op, args, fn in (('alloc', ('size',), 'malloc'), ('realloc', ('ptr', 'size'), 'realloc'), ('free', ('ptr',), 'free')):
        st = cx.state()
        me = st.new_obj("allocator", 64, 'heap').id
        size = cx.inp(st, "size", 64)
        blk = st.new_obj("block", 64, 'heap').id
        st.ghost['res'] = st.new_obj("result", 64, 'heap').id
        av = [Ptr(me)] + [Ptr(blk) if x == 'ptr' else size for x in args]
        for s, r in e.call(st, ops[op], av):
            d = s.ghost.get('did', ())
            e.check(s, bool(len(d) == 1 and d[0][0] == fn), f"simple {op}: done by the C library")
            if len(d) == 1 and d[0][0] == fn:
                for x, y in zip(d[0][1], av[1:]):
                    e.check(s, same_ptr(e, x, y) if isinstance(y, Ptr) else x == y, f"simple {op}: same arguments")
            if op != 'free':
                e.check(s, same_ptr(e, e.as_ptr(r), Ptr(s.ghost['res'])), f"simple {op}: hands on the result")
            e.cover(s, f"simple {op}")


A, F, R, D = "_hev_memory_allocator_alloc", "_hev_memory_allocator_free", "_hev_memory_allocator_realloc", "_hev_memory_allocator_destroy"
LI, LR = "_hev_memory_allocator_lru_insert", "_hev_memory_allocator_lru_remove"
PROOFS = [Proof("new", p_new, ["hev_memory_allocator_slice_new"]),
          Proof("alloc, class empty or none", lambda cx: p_alloc(cx, 'new'), [A]),
          Proof("alloc, class in use", lambda cx: p_alloc(cx, 'used'), [A, LI, LR]),
          Proof("free, class empty", lambda cx: p_free(cx, 'new'), [F, LI, LR]),
          Proof("free, class in use", lambda cx: p_free(cx, 'used'), [F, LR]),
          Proof("free, no class", lambda cx: p_free(cx, 'big'), [F]),
          Proof("realloc", p_realloc, [R, F]),
          Proof("destroy", p_destroy, [D]),
          Proof("simple allocator", p_simple, ["hev_memory_allocator_simple_new"])]
ASSUMPTIONS = ["a block given to free or realloc is one this allocator returned and is still in use; the cache is as the operations leave it (proved to be kept)",
               "an allocator is used by one thread at a time"]
