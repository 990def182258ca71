"""C13 intrusive doubly linked list.

An arbitrary list is given as a few visible nodes around the place of interest and
opaque segments between them; a link into an opaque segment is a token nobody may
read or replace.  Any list of any length has this form, so the proof is unbounded."""
import z3
from dv.harness import *

LIST, NODE, MOD = "_HevList", "_HevListNode", "hev-list"


class L:
    """sequence of items: node ids (int) and opaque segments (str)"""

    def __init__(self, cx, st):
        self.cx = cx
        self.st = st
        self.f = cx.prog.struct(NODE, MOD)
        self.l = cx.prog.struct(LIST, MOD)
        self.o = st.new_obj("list", self.l[''][1], 'input')
        self.tok = {}

    def node(self, name):
        # the intrusive node sits in a bigger object that must not be touched
        return self.st.new_obj(name, self.f[''][1], 'input').id

    def token(self, name):
        if name not in self.tok:
            def fn(eng, st):
                raise Unsupported("walks into the unseen part of the list")
            self.tok[name] = Lazy(fn, name)
        return self.tok[name]

    def lay(self, seq):
        """write the links of seq (list of ids / segment names)"""
        e, st = self.cx.eng, self.st

        def at(k):
            if k < 0 or k >= len(seq):
                return NULL
            x = seq[k]
            return Ptr(x) if isinstance(x, int) else None
        for k, x in enumerate(seq):
            if not isinstance(x, int):
                continue
            n, p = at(k + 1), at(k - 1)
            e.poke(st, x, self.f['next'][0], 8, n if n is not None else self.token(seq[k + 1] + ".first"))
            e.poke(st, x, self.f['prev'][0], 8, p if p is not None else self.token(seq[k - 1] + ".last"))
        e.poke(st, self.o.id, self.l['head'][0], 8, at(0))
        e.poke(st, self.o.id, self.l['tail'][0], 8, at(len(seq) - 1))

    def same(self, st, oid, off, want):
        v = self.cx.eng.raw(st, oid, off)
        if isinstance(want, Lazy):
            return bool(v is want)
        return same_ptr(self.cx.eng, v if v is not None else UNDEF, want)

    def check(self, st, seq, what):
        """the heap is exactly the list seq, in both directions"""
        e = self.cx.eng

        def at(k, side):
            if k < 0 or k >= len(seq):
                return NULL
            x = seq[k]
            return Ptr(x) if isinstance(x, int) else self.token(x + side)
        e.check(st, self.same(st, self.o.id, self.l['head'][0], at(0, ".first")), f"{what}: first node is right")
        e.check(st, self.same(st, self.o.id, self.l['tail'][0], at(len(seq) - 1, ".last")), f"{what}: last node is right")
        for k, x in enumerate(seq):
            if isinstance(x, int):
                e.check(st, self.same(st, x, self.f['next'][0], at(k + 1, ".first")), f"{what}: forward order")
                e.check(st, self.same(st, x, self.f['prev'][0], at(k - 1, ".last")), f"{what}: backward order")


def shapes(cx):
    """name, left part, right part (around a middle node)"""
    if cx.eng.bounded is not None:
        return [(f"{a} before", ["n"] * a) for a in range(4)]
    return [("nothing before", []), ("one before", ["n"]), ("two before", ["n", "n"]), ("many before", ["n", "s", "n"])]


def build(l, side, tag):
    return [l.node(f"{tag}{i}") if x == "n" else f"{tag}seg{i}" for i, x in enumerate(side)]


def p_add(cx):
    e = cx.eng
    for nm, left in shapes(cx):
        st = cx.state()
        l = L(cx, st)
        seq = build(l, left, "n")
        new = l.node("new")
        l.lay(seq)
        for s, _ in e.call(st, "hev_list_add_tail", [Ptr(l.o.id), Ptr(new)]):
            e.cover(s, f"add to list with {nm}")
            l.check(s, seq + [new], "add_tail")


def p_del(cx):
    e = cx.eng
    for nm, left in shapes(cx):
        for nm2, right in shapes(cx):
            st = cx.state()
            l = L(cx, st)
            a, b = build(l, left, "a"), build(l, right[::-1], "b")
            node = l.node("node")
            l.lay(a + [node] + b)
            for s, _ in e.call(st, "hev_list_del", [Ptr(l.o.id), Ptr(node)]):
                e.cover(s, f"del with {nm}, {nm2} (after)")
                l.check(s, a + b, "del")


def p_walk(cx):
    e = cx.eng
    for nm, left in shapes(cx):
        st = cx.state()
        l = L(cx, st)
        seq = build(l, left, "n")
        l.lay(seq)
        ids = [x for x in seq if isinstance(x, int)]
        for fn, want in (("hev_list_first", seq[0] if seq else None), ("hev_list_last", seq[-1] if seq else None)):
            for s, r in e.call(st.fork(), fn, [Ptr(l.o.id)]):
                e.cover(s, f"{fn} {nm}")
                e.check(s, same_ptr(e, r, Ptr(want) if want else NULL), f"{fn}: right node")
                l.check(s, seq, f"{fn} changes nothing")
        for k, x in enumerate(seq):
            for fn, j in (("hev_list_node_next", k + 1), ("hev_list_node_prev", k - 1)):
                nb = seq[j] if 0 <= j < len(seq) else None
                if not isinstance(x, int) or isinstance(nb, str):
                    continue
                for s, r in e.call(st.fork(), fn, [Ptr(x)]):
                    e.cover(s, f"{fn} {nm}")
                    e.check(s, same_ptr(e, r, Ptr(nb) if nb else NULL), f"{fn}: right neighbour")
                    l.check(s, seq, f"{fn} changes nothing")


PROOFS = [Proof("add_tail", p_add, ["hev_list_add_tail"]), Proof("del", p_del, ["hev_list_del"]),
          Proof("walk", p_walk, ["hev_list_first", "hev_list_last", "hev_list_node_next", "hev_list_node_prev"])]
ASSUMPTIONS = ["the list passed in is well formed, an added node is in no list, a deleted node is in this list (callers' obligations)"]
