"""the ordered tree as its users see it: a sorted sequence of members of unknown length.

Only what the code looks at is made explicit: links on the way down (each with the keys of its
in-order neighbours), the first member, and members the proof knows by name.  The tree functions
themselves are used through their contracts, which C12 proves."""
import z3
from dv.harness import *

RIGHT, LEFT = "right", "left"


class Pos:
    """a place in the order: keys of the neighbours (None: unknown whether there is one is `has`)"""

    def __init__(self, owner, hasl, lo, hasr, hi, null=False):
        self.owner, self.hasl, self.lo, self.hasr, self.hi, self.null = owner, hasl, lo, hasr, hi, null


T, F = z3.BoolVal(True), z3.BoolVal(False)


class Tree:
    """`root`, `leftmost`: (object, offset) of the tree's cells; `member(eng, st)` makes an arbitrary
    member object, `key(eng, st, oid)` its key as bit vector, `node` the offset of its tree node"""

    def __init__(self, cx, node, member, key, kw, strict):
        self.cx, self.node, self.member, self.key, self.kw, self.strict = cx, node, member, key, kw, strict
        n = cx.prog.struct("_HevRBTreeNode", "hev-rbtree")
        self.off = {RIGHT: n['right'][0], LEFT: n['left'][0]}
        self.pc = n['__parent_color'][0]
        t = cx.prog.struct("_HevRBTreeCached", "hev-rbtree-cached")
        self.leftmost = t['leftmost'][0]
        e = cx.eng
        e.stubs['hev_rbtree_cached_insert_color'] = self.s_insert
        e.stubs['hev_rbtree_cached_erase'] = self.s_erase
        self.on_insert = self.on_erase = None
        self.pre_insert = None      # (eng, st, oid) -> states
        self.fname = "tree"

        self.quiet = False          # positions are another property's concern

    def order(self, st, c, name):
        if not self.quiet:
            self.cx.eng.check(st, c, name)

    # ---- ghost
    def init(self, st, oid, base, N, known=()):
        """known: member object ids"""
        st.ghost['tree'] = dict(obj=oid, base=base, N=N, known={k: self.key(self.cx.eng, st, k) for k in known}, first=None, pos={}, made=())
        st.assume(z3.UGE(N, len(known)))
        self.reset(st)

    def g(self, st, **kw):
        st.ghost['tree'] = dict(st.ghost['tree'], **kw)
        return st.ghost['tree']

    def reset(self, st):
        t = st.ghost['tree']
        e = self.cx.eng
        link = (t['obj'], t['base'])
        self.g(st, pos={link: Pos(None, F, BV(0, self.kw), F, BV(0, self.kw))}, made=())
        e.poke(st, t['obj'], t['base'], 8, self.lazy(link))
        e.poke(st, t['obj'], t['base'] + self.leftmost, 8, Lazy(self.r_first, "first"))

    def setpos(self, st, link, p):
        t = st.ghost['tree']
        self.g(st, pos=dict(t['pos'], **{}) | {link: p})

    def members(self, st):
        return st.ghost['tree']['known']

    def add_known(self, st, oid, key):
        self.g(st, known=dict(st.ghost['tree']['known']) | {oid: key})

    def within(self, p, k):
        return z3.And(z3.Implies(p.hasl, z3.ULE(p.lo, k)), z3.Implies(p.hasr, z3.ULE(k, p.hi)))

    # ---- reading
    def r_first(self, eng, st):
        t = st.ghost['tree']
        if t['first'] is not None:
            return [(st, Ptr(t['first'], self.node))]
        outs = []
        for s, empty in eng.branch(st, t['N'] == 0):
            if empty:
                outs.append((s, NULL))
                continue
            ks = s.ghost['tree']['known']
            for o in ks:
                s2 = s.fork()
                s2.assume(z3.And([z3.ULE(ks[o], ks[x]) for x in ks if x != o] + [T]))
                if eng.feasible(s2):
                    self.g(s2, first=o)
                    outs.append((s2, Ptr(o, self.node)))
            s2 = s.fork()
            s2.assume(z3.UGT(t['N'], len(ks)))
            if eng.feasible(s2):
                o = self.member(eng, s2)
                k = self.key(eng, s2, o)
                for x in ks:
                    s2.assume(z3.ULE(k, ks[x]))
                self.add_known(s2, o, k)
                self.g(s2, first=o)
                outs.append((s2, Ptr(o, self.node)))
        return outs

    def lazy(self, link):
        return Lazy(lambda eng, st: self.r_link(eng, st, link), "link")

    def sorted_now(self, eng, st):
        for o, k in st.ghost['tree']['known'].items():
            self.order(st, self.key(eng, st, o) == k, f"{self.fname}: the tree is in order when it is searched")

    def r_link(self, eng, st, link):
        t = st.ghost['tree']
        p = t['pos'].get(link)
        if p is None:
            raise Unsupported("link of a tree that has changed meanwhile")
        self.sorted_now(eng, st)
        outs = []
        root = p.owner is None
        s = st.fork()
        if root:
            s.assume(t['N'] == 0)
        if eng.feasible(s):
            self.setpos(s, link, Pos(p.owner, p.hasl, p.lo, p.hasr, p.hi, True))
            outs.append((s, NULL))
        if root:
            st.assume(t['N'] != 0)
            if not eng.feasible(st):
                return outs
        o = self.member(eng, st)
        k = self.key(eng, st, o)
        st.assume(self.within(p, k))
        if not eng.feasible(st):
            return outs
        self.links(st, o, p, k)
        self.g(st, made=st.ghost['tree']['made'] + (o,))
        outs.append((st, Ptr(o, self.node)))
        return outs

    def links(self, st, o, p, k):
        e = self.cx.eng
        for side, q in ((LEFT, Pos(o, p.hasl, p.lo, T, k)), (RIGHT, Pos(o, T, k, p.hasr, p.hi))):
            link = (o, self.node + self.off[side])
            self.setpos(st, link, q)
            e.poke(st, link[0], link[1], 8, self.lazy(link))

    # ---- contracts of the tree functions
    def s_insert(self, eng, st, args, I):
        f = self.fname
        t = st.ghost['tree']
        tp, np, flag = eng.as_ptr(args[0]), eng.as_ptr(args[1]), eng.as_bv(st, args[2], 32)
        ok = bool(tp.obj == t['obj'] and tp.off.const() == t['base'] and np.obj is not None and not isinstance(np.obj, str) and np.off.const() == self.node)
        eng.check(st, ok, f"{f}: inserts a member into the tree")
        if not ok:
            return []
        o = np.obj
        at = [l for l in t['pos'] if isinstance(eng.raw(st, *l), Ptr) and eng.raw(st, *l).obj == o and eng.raw(st, *l).off.const() == self.node]
        ok = bool(o not in t['known'] and len(at) == 1)
        eng.check(st, ok, f"{f}: the member is not in the tree yet and linked at one place")
        if not ok:
            return []
        outs = []
        for s in (self.pre_insert(eng, st, o) if self.pre_insert else [st]):
            outs += self.inserted(eng, s, o, at[0], flag)
        return outs

    def inserted(self, eng, st, o, at, flag):
        f = self.fname
        t = st.ghost['tree']
        p = t['pos'][at]
        eng.check(st, bool(p.null), f"{f}: the member is linked at an empty place")
        own = NULL if p.owner is None else Ptr(p.owner, self.node)
        par = eng.raw(st, o, self.node + self.pc)
        eng.check(st, same_ptr(eng, eng.as_ptr(par), own), f"{f}: the member's parent is the owner of that place")
        for side in (LEFT, RIGHT):
            eng.check(st, bool(eng.as_ptr(eng.raw(st, o, self.node + self.off[side])).is_null()), f"{f}: the member has no children")
        k = self.key(eng, st, o)
        for x, kx in t['known'].items():
            self.order(st, self.key(eng, st, x) == kx, f"{f}: the tree is in order")
        self.order(st, z3.Implies(p.hasl, z3.ULE(p.lo, k)), f"{f}: no later member before the inserted one")
        self.order(st, z3.Implies(p.hasr, z3.ULT(k, p.hi) if self.strict else z3.ULE(k, p.hi)), f"{f}: no earlier{' or equal' if self.strict else ''} member after the inserted one")
        self.order(st, (flag != 0) == z3.Not(p.hasl), f"{f}: reported as first exactly if it is")
        outs = []
        for s, first in eng.branch(st, z3.Not(p.hasl)):
            t = s.ghost['tree']
            old = t['first']
            self.g(s, N=simp(t['N'] + 1), first=o if first else old)
            if first:
                for x, kx in t['known'].items():
                    s.assume(z3.ULE(k, kx) if not self.strict else z3.ULT(k, kx))
            else:
                s.assume(t['N'] != 0)
                if old is not None:
                    s.assume(z3.ULE(t['known'][old], k))
            self.add_known(s, o, k)
            self.reset(s)
            if eng.feasible(s):
                if self.on_insert:
                    self.on_insert(eng, s, o)
                outs.append((s, None))
        return outs

    def s_erase(self, eng, st, args, I):
        f = self.fname
        t = st.ghost['tree']
        tp, np = eng.as_ptr(args[0]), eng.as_ptr(args[1])
        ok = bool(tp.obj == t['obj'] and tp.off.const() == t['base'] and np.obj in t['known'] and np.off.const() == self.node)
        eng.check(st, ok, f"{f}: erases a member of the tree")
        if not ok:
            return []
        ks = dict(t['known'])
        del ks[np.obj]
        self.g(st, N=simp(t['N'] - 1), known=ks, first=None if t['first'] == np.obj else t['first'])
        self.reset(st)
        if self.on_erase:
            self.on_erase(eng, st, np.obj)
        return [(st, None)]


class Descent(LoopSpec):
    """search from the root: the position reached is consistent with the comparisons made"""
    name = "position in the order"

    def __init__(self, tree, newobj):
        self.t, self.newobj = tree, newobj
        self.pair_candidates = False

    def views(self, eng, st):
        out = []
        for link, p in st.ghost['tree']['pos'].items():
            v = dict(link=Ptr(*link), owner=NULL if p.owner is None else Ptr(p.owner, self.t.node))
            c = eng.raw(st, *link)
            if isinstance(c, Ptr):
                v['content'] = c
            v['$'] = link
            out.append(v)
        return out[::-1]

    def cur(self, st):
        return st.ghost['tree']['pos'].get(st.ghost['view']['$'])

    cut = None      # (eng, st): facts about the new member's key to go on with

    def havoc(self, eng, st):
        if self.cut:
            self.cut(eng, st)
        if not self.roles:
            return [st]
        t = self.t
        outs = []
        a, b = st, st.fork()
        root = (a.ghost['tree']['obj'], a.ghost['tree']['base'])
        a.ghost['view'] = dict(link=Ptr(*root), owner=NULL)
        a.ghost['view']['$'] = root
        outs.append(a)
        b.assume(b.ghost['tree']['N'] != 0)
        o = t.member(eng, b)
        k = t.key(eng, b, o)
        p = Pos(None, freshb("hasl"), fresh("lo", t.kw), freshb("hasr"), fresh("hi", t.kw))
        b.assume(t.within(p, k))
        t.links(b, o, p, k)
        for side in (LEFT, RIGHT):
            s = b.fork()
            link = (o, t.node + t.off[side])
            s.ghost['view'] = dict(link=Ptr(*link), owner=Ptr(o, t.node))
            s.ghost['view']['$'] = link
            outs.append(s)
        if any('content' in rs and len(rs) == 1 for rs in self.roles.values()):
            res = []
            for s in outs:
                link = s.ghost['view']['$']
                for s2, v in eng.load(s, Ptr(*link), 8, 'ptr', "link"):
                    s2.ghost['view'] = dict(s2.ghost['view'], content=v)
                    res.append(s2)
            outs = res
        return outs

    def candidates(self, eng, st0):
        t, n = self.t, self.newobj(st0)
        if n is None:
            return []
        k = lambda e, s: t.key(e, s, n)
        return [("nothing later passed", lambda e, s: z3.Implies(self.cur(s).hasl, z3.ULE(self.cur(s).lo, k(e, s)))),
                ("nothing earlier passed", lambda e, s: z3.Implies(self.cur(s).hasr, z3.ULE(k(e, s), self.cur(s).hi))),
                ("nothing equal passed", lambda e, s: z3.Implies(self.cur(s).hasr, z3.ULT(k(e, s), self.cur(s).hi)))]

    def cell_candidates(self, eng, st0, cells):
        out = []
        for nm, g in cells.items():
            def set_(e, s, g=g):
                x = g(e, s)
                return None if x is None else (x != 0) == z3.Not(self.cur(s).hasl)

            def clr(e, s, g=g):
                x = g(e, s)
                return None if x is None else (x == 0) == z3.Not(self.cur(s).hasl)
            out += [(f"{nm} set iff at the front", set_), (f"{nm} clear iff at the front", clr), (f"{nm} is 0 or 1", lambda e, s, g=g: None if g(e, s) is None else z3.Or(g(e, s) == 0, g(e, s) == 1))]
        return out
