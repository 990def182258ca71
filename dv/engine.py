"""Symbolic verification-condition generator over LLVM IR.

A state is explored for *all* values of its symbolic inputs.  Every `check` is an
obligation: path condition implies condition, decided by Z3.  Calls go to a
contract if the running proof registered one for the callee, otherwise to the
callee's own IR (helpers are executed in place).  Loops are cut with inductive
invariants (see `LoopSpec`); a loop without one is only accepted when its exit
is forced on every path (complete unrolling) - anything else is an engine error
(never silently accepted), except in the explicitly labelled bounded mode.
"""
import itertools
import os
import re
import time
import z3

BV = z3.BitVecVal
_ids = itertools.count(1)


class Unsupported(Exception):
    """The engine cannot treat this construct: no answer, never a verdict."""


class Budget(Exception):
    pass


_fresh_n = itertools.count()


def fresh(name, w):
    return z3.BitVec(f"{name}!{next(_fresh_n)}", w)


def freshb(name):
    return z3.Bool(f"{name}!{next(_fresh_n)}")


def simp(e):
    return z3.simplify(e)


def cval(e):
    """concrete value of a BV expr or None"""
    if isinstance(e, int):
        return e
    if z3.is_bv_value(e):
        return e.as_long()
    return None


def s64(v):
    v &= (1 << 64) - 1
    return v - (1 << 64) if v >> 63 else v


class Off:
    """byte offset: const + sum(scale * term)"""
    __slots__ = ("c", "t")

    def __init__(self, c=0, t=()):
        self.c = s64(c)
        self.t = tuple(t)

    def add(self, c=0, terms=()):
        d = {}
        order = []
        for s, e in tuple(self.t) + tuple(terms):
            v = cval(e)
            if v is not None:
                c += s * s64(v)
                continue
            if s in d:
                d[s] = d[s] + e
            else:
                d[s] = e
                order.append(s)
        out = []
        for s in order:
            e = simp(d[s])
            v = cval(e)
            if v is not None:
                c += s * s64(v)
            else:
                out.append((s, e))
        return Off(self.c + c, out)

    def const(self):
        return self.c if not self.t else None

    def bv(self):
        r = BV(self.c, 64)
        for s, e in self.t:
            r = r + (e if s == 1 else BV(s, 64) * e)
        return simp(r)

    def __repr__(self):
        return f"Off({self.c}{''.join('+%d*%s' % (s, e) for s, e in self.t)})"


class Ptr:
    """pointer value: object id plus offset; obj None = raw address (0 = NULL);
    obj a string 'fn:NAME' = function."""
    __slots__ = ("obj", "off")

    def __init__(self, obj, off=0):
        self.obj = obj
        if isinstance(off, int):
            off = Off(off)
        elif not isinstance(off, Off):
            off = Off(0).add(0, ((1, off),))
        self.off = off

    def is_null(self):
        return self.obj is None and self.off.const() == 0

    def plus(self, c=0, terms=()):
        return Ptr(self.obj, self.off.add(c, terms))

    def __repr__(self):
        if self.is_null():
            return "NULL"
        return f"Ptr({self.obj},{self.off})"


NULL = Ptr(None, 0)


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class Lazy:
    """cell content decided at first read: fn(eng, st) -> [(st, value)]"""

    def __init__(self, fn, tag=None):
        self.fn = fn
        self.tag = tag

    def __repr__(self):
        return f"Lazy({self.tag})"


class Obj:
    __slots__ = ("id", "name", "size", "cells", "default", "arr", "arr_base", "alive", "kind", "meta",
                 "elems", "stride", "ebase", "egen", "ro", "soa")

    def __init__(self, name, size, kind="heap", default="undef"):
        self.id = next(_ids)
        self.name = name
        self.size = size
        self.cells = {}
        self.default = default
        self.arr = None
        self.arr_base = 0
        self.alive = True
        self.kind = kind
        self.meta = {}
        self.elems = None
        self.stride = 0
        self.ebase = 0
        self.egen = None
        self.ro = False
        self.soa = None         # {field offset: z3 array index -> 64 bit value} (array of plain structs)

    def clone(self):
        o = Obj.__new__(Obj)
        for s in Obj.__slots__:
            setattr(o, s, getattr(self, s))
        o.cells = dict(self.cells)
        o.meta = dict(self.meta)
        if self.soa is not None:
            o.soa = dict(self.soa)
        if self.elems is not None:
            o.elems = [(i, dict(c)) for i, c in self.elems]
        return o


class Frame:
    __slots__ = ("fn", "blk", "ip", "regs", "prev", "allocas", "active", "iters", "ret_reg", "sid", "entered")
    _sid = itertools.count(1)

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn, f.blk, f.ip, f.prev, f.ret_reg, f.sid = self.fn, self.blk, self.ip, self.prev, self.ret_reg, self.sid
        f.regs = dict(self.regs)
        f.allocas = list(self.allocas)
        f.active = dict(self.active)
        f.iters = dict(self.iters)
        f.entered = self.entered
        return f


class State:
    def __init__(self):
        self.objs = {}
        self.owned = set()
        self.frames = []
        self.pc = ()
        self.ghost = {}
        self.trace = None
        self.wset = frozenset()
        self.depth0 = 0
        self.bounded = False

    def fork(self):
        s = State.__new__(State)
        s.objs = dict(self.objs)
        s.owned = set()
        self.owned = set()
        s.frames = [f.clone() for f in self.frames]
        s.pc = self.pc
        s.ghost = {k: (v.clone() if hasattr(v, "clone") else (list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else set(v) if isinstance(v, set) else v))
                   for k, v in self.ghost.items()}
        s.trace = self.trace
        s.wset = self.wset
        s.depth0 = self.depth0
        s.bounded = self.bounded
        return s

    def assume(self, c):
        if isinstance(c, bool):
            c = z3.BoolVal(c)
        c = simp(c)
        if z3.is_true(c):
            return
        self.pc = self.pc + (c,)

    def obj(self, i):
        return self.objs[i]

    def wobj(self, i):
        if i not in self.owned:
            self.objs[i] = self.objs[i].clone()
            self.owned.add(i)
        return self.objs[i]

    def new_obj(self, name, size, kind="heap", default="undef"):
        o = Obj(name, size, kind, default)
        self.objs[o.id] = o
        self.owned.add(o.id)
        return o

    def note(self, what):
        self.trace = (what, self.trace)

    def trace_list(self):
        out, t = [], self.trace
        while t:
            out.append(t[0])
            t = t[1]
        return out[::-1]


SLOW = float(os.environ.get("DV_SLOW", "0"))


class FArr:
    """array given by a function index -> value"""

    def __init__(self, fn, width, cases=None):
        self.fn, self.width = fn, width
        self.cases = cases      # index -> [(condition, value)], to load by cases

    def __getitem__(self, i):
        return self.fn(i)


def soa_width(a):
    return a.width if isinstance(a, FArr) else a.range().size()


def soa_store(a, i, v):
    if isinstance(a, FArr):
        return FArr(lambda k: z3.If(k == i, v, a[k]), a.width)
    return z3.Store(a, i, v)


class LoopSpec:
    """Invariant for a loop.  Override what is needed."""
    name = "loop"
    pair_candidates = True
    all_roles = False       # pointers into objects that exist before the loop follow roles, too

    def entry(self, eng, st):
        """assert the invariant on entry"""
        self.inv(eng, st, "entry")

    def back(self, eng, st):
        self.inv(eng, st, "preserved")

    def inv(self, eng, st, when):
        pass

    def havoc(self, eng, st):
        """make the heap/ghost part generic and assume the invariant; -> [states]"""
        return [st]

    def owned(self, eng, st):
        """object ids whose contents the spec itself makes generic in havoc()"""
        return ()

    def quantities(self, eng, st):
        """ghost quantities {name: BV64} for linear candidate invariants"""
        return {}

    def candidates(self, eng, st0):
        """[(name, fn(eng, st) -> z3 bool or None)]"""
        return []

    def cell_candidates(self, eng, st0, cells):
        """candidates over the modified cells {name: getter(eng, st) -> BV64 or None}"""
        return []

    def views(self, eng, st):
        """the ways a state can be read as a position in a linked structure, each {role: pointer}.
        Pointers carried around the loop that play the same role in every iteration become, at the
        arbitrary iteration, st.ghost['view'][role] of the states made by havoc()"""
        return None


class LoopCtx:
    def __init__(self, spec, header, dry):
        self.spec = spec
        self.header = header
        self.dry = dry
        self.backs = []
        self.cands = []
        self.frame_sid = None


class Failure:
    def __init__(self, name, kind, model, trace, pc, extra=None):
        self.name = name
        self.kind = kind
        self.model = model
        self.trace = trace
        self.extra = extra or {}
        self.pc = pc


class Obl:
    __slots__ = ("name", "n", "ok", "failed", "unknown", "time")

    def __init__(self, name):
        self.name = name
        self.n = self.ok = self.failed = self.unknown = 0
        self.time = 0.0


def canonical(cs):
    names = {}
    return re.sub(r"[A-Za-z_.]\w*![0-9]+", lambda m: names.setdefault(m.group(0), f"{m.group(0).split('!')[0]}${len(names)}"), "\n".join(c.sexpr() for c in cs))


class Engine:
    def __init__(self, prog, timeout_ms=20000, max_steps=400000, max_paths=20000, deadline=None):
        self.prog = prog
        self.stubs = {}
        self.obls = {}
        self.failures = []
        self.unknowns = []
        self.shaky = False          # an invariant was given up because the solver ran out of time
        self.patience = 1
        self.dry = 0
        self.loop_policy = None
        self.bounded = None       # None: proof mode; int: unroll bound (bounded mode)
        self.bounded_cuts = 0
        self.covers = {}
        self.inlined = set()
        self.external_used = set()
        self.asserted_assumes = {}
        self.solver_time = 0.0
        self.queries = 0
        self.timeout_ms = timeout_ms
        self.max_steps = max_steps
        self.steps = 0
        self.deadline = deadline
        self._stack = []
        self._solver = None
        self.gobjs_template = {}
        self.loops_cut = {}
        self.loop_memo = {}
        self._var_memo = {}
        self._proved = set()         # queries found unsatisfiable, up to names of symbols
        self.max_fail = 40
        self.complete_unrolls = 0
        self.prefix = ""
        self.unroll_limit = 300
        self.on_store = None
        self.models = []
        self.portfolio = 0
        self.defdiv = False         # division by constants by its defining equation
        self.ints_first = False      # arithmetic-heavy functions: integer translation before bit blasting
        self.in_atomic = False
        self.after_atomic = None
        self.default_loop = None

    # ------------------------------------------------------------ solver
    def _sync(self, pc):
        if self._solver is None or self.queries % 4000 == 3999:
            self._solver = z3.Solver()
            self._solver.set("timeout", self.patience * (100 if self.ints_first else 600))
            self._stack = []
        s = self._solver
        k = 0
        n = min(len(self._stack), len(pc))
        while k < n and self._stack[k] is pc[k]:
            k += 1
        if len(self._stack) > k:
            s.pop(len(self._stack) - k)
            del self._stack[k:]
        for c in pc[k:]:
            s.push()
            s.add(c)
            self._stack.append(c)
        return s

    def sat(self, st, *conds):
        """'sat' / 'unsat' / 'unknown'"""
        cs = []
        for c in conds:
            c = z3.BoolVal(c) if isinstance(c, bool) else simp(c)
            if z3.is_false(c):
                return 'unsat'
            if not z3.is_true(c):
                cs.append(c)
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget exhausted")
        s = self._sync(st.pc)
        self.queries += 1
        t = time.time()
        s.push()
        try:
            for c in cs:
                s.add(c)
            r = s.check()
            self._last = r
            if r == z3.sat:
                self.model = s.model()
        finally:
            s.pop()
        if r == z3.unknown:
            key = canonical(list(st.pc) + cs) if self.ints_first else None
            if key is not None and key in self._proved:
                r = z3.unsat
            else:
                r = self._retry(st.pc, cs)
                if key is not None and r == z3.unsat:
                    self._proved.add(key)
        self.solver_time += time.time() - t
        if SLOW and time.time() - t > SLOW:
            if os.environ.get("DV_DUMP"):
                d = z3.Solver()
                d.add(*st.pc, *cs)
                open(os.environ["DV_DUMP"] + f"/q{self.queries}.smt2", "w").write(d.to_smt2())
            print(f"slow {time.time() - t:.1f}s {r} dry={self.dry}", [str(c).replace("\n", " ")[:300] for c in cs], "pc", len(st.pc), flush=True)
        return str(r)

    def _retry(self, pc, cs):
        """the incremental bit-blasting core gave up quickly: portfolio of fresh solvers.
        `bv.solver=2` decides bit-vector terms as integers (bounds and wrap-around included)."""
        def ints():
            x = z3.SimpleSolver()
            x.set("bv.solver", 2)
            return x
        def bits():
            return z3.Tactic('qfaufbv').solver()
        first = self.ints_first
        if self._relevant(pc, cs, ints if first else bits):
            return z3.unsat
        for k, mk in enumerate((ints, bits, bits, ints) if first else (bits, ints, bits, ints)):
            if k in (0, 2) and not (first and k == 0) and self._cases(pc, cs, 1000 if k == 0 else 4000):
                return z3.unsat
            s = mk()
            s.set("timeout", self.patience * [1500, 2000, 8000, self.timeout_ms][k])
            for c in list(pc) + cs:
                s.add(c)
            self.portfolio += 1
            try:
                r = s.check()
            except z3.Z3Exception:
                continue
            if r == z3.sat:
                m = s.model()
                # an answer from the integer translation is only used after evaluation
                if all(z3.is_true(m.eval(c, model_completion=True)) for c in list(pc) + cs):
                    self.model = m
                    return r
                continue
            if r == z3.unsat:
                return r
        return z3.unknown

    def _vars(self, t):
        r = self._var_memo.get(t)
        if r is None:
            r, todo, seen = set(), [t], set()
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_quantifier(x):
                    todo.append(x.body())
                elif z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    r.add(x.decl().name())
                else:
                    todo += x.children()
            self._var_memo[t] = r
        return r

    def _relevant(self, pc, cs, mk):
        """unsat already from the facts about the goal's own symbols (fewer facts: sound)"""
        goal = set()
        for c in cs:
            goal |= self._vars(c)
        last = None
        for ms in (1000, 1500, 1500) if self.ints_first else (1000, 1500):
            sub = [c for c in pc if self._vars(c) <= goal]
            if len(sub) == len(pc) or len(sub) == last:
                break
            last = len(sub)
            s = mk()
            s.set("timeout", ms)
            s.add(*sub)
            s.add(*cs)
            self.portfolio += 1
            try:
                if s.check() == z3.unsat:
                    return True
            except z3.Z3Exception:
                pass
            # equations that define further symbols
            goal = set(goal)
            for c in pc:
                v = self._vars(c)
                if len(v - goal) == 1 and z3.is_eq(c):
                    goal |= v
        return False

    def _cases(self, pc, cs, ms):
        """unsat by splitting on the conditions of the goal's if-terms"""
        conds = []

        def walk(t, seen):
            if t.get_id() in seen or z3.is_quantifier(t):
                return
            seen.add(t.get_id())
            for x in t.children():
                walk(x, seen)
            if z3.is_app_of(t, z3.Z3_OP_ITE) and not any(t.arg(0).eq(c) for c in conds):
                conds.append(t.arg(0))
        seen = set()
        for c in cs:
            walk(c, seen)
        if not conds or len(conds) > 4:
            return False
        todo = [[]]
        for c in conds:
            todo = [t + [(c, b)] for t in todo for b in (True, False)]
        for case in todo:
            sub = [(c, z3.BoolVal(b)) for c, b in case]
            s = z3.Tactic('qfaufbv').solver()
            s.set("timeout", ms)
            s.add(*pc)
            s.add(*[c if b else z3.Not(c) for c, b in case])
            s.add(*[z3.simplify(z3.substitute(c, *sub)) for c in cs])
            self.portfolio += 1
            if s.check() != z3.unsat:
                return False
        return True

    def feasible(self, st, c=True):
        return self.sat(st, c) != 'unsat'

    def valid(self, st, c):
        if isinstance(c, bool):
            return c
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c) and not st.pc:
            return False
        return self.sat(st, z3.Not(c)) == 'unsat'

    def branch(self, st, c):
        """-> [(state, bool)] feasible outcomes of condition c"""
        if isinstance(c, bool):
            return [(st, c)]
        c = simp(c)
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        t = self.feasible(st, c)
        f = self.feasible(st, z3.Not(c))
        if t and f:
            s2 = st.fork()
            st.assume(c)
            s2.assume(z3.Not(c))
            return [(st, True), (s2, False)]
        if t:
            return [(st, True)]
        if f:
            return [(st, False)]
        return []

    # ------------------------------------------------------------ obligations
    def check(self, st, cond, name, kind="post", extra=None):
        """obligation: pc => cond.  Afterwards cond is assumed on this path."""
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)
        cond = simp(cond)
        if self.dry:
            st.assume(cond)
            return True
        name = self.prefix + name
        o = self.obls.get(name)
        if o is None:
            o = self.obls[name] = Obl(name)
        o.n += 1
        t = time.time()
        if z3.is_true(cond):
            o.ok += 1
            return True
        r = self.sat(st, z3.Not(cond))
        o.time += time.time() - t
        if r == 'unsat':
            o.ok += 1
            st.assume(cond)
            return True
        if r == 'sat':
            o.failed += 1
            if len(self.failures) < self.max_fail:
                model = self.model
                ins = [v for v in st.ghost.get('inputs', {}).values() if isinstance(v, z3.BitVecRef)]
                if len(self.failures) < 4 and ins:
                    for lim in (16, 1 << 20, 1 << 30):
                        small = [z3.ULE(v, lim) for v in ins if v.size() > 30]
                        if small and self.sat(st, z3.Not(cond), *small) == 'sat':
                            model = self.model
                            break
                self.failures.append(Failure(name, kind, model, st.trace_list(), st.pc,
                                             dict(extra or {}, inputs=dict(st.ghost.get('inputs', {})))))
        else:
            o.unknown += 1
            self.unknowns.append(name)
        st.assume(cond)
        return False

    def cover(self, st, name):
        """vacuity guard: this point must be reachable under its assumptions"""
        if self.dry:
            return
        name = self.prefix + name
        if self.covers.get(name):
            return
        self.covers[name] = self.sat(st) == 'sat'

    # ------------------------------------------------------------ values
    def fit(self, v, w):
        return v

    def as_bv(self, st, v, w):
        if isinstance(v, Undef):
            return fresh("undef", w)
        if isinstance(v, Ptr):
            if v.obj is None:
                return simp(z3.Extract(w - 1, 0, v.off.bv())) if w < 64 else v.off.bv()
            raise Unsupported(f"pointer used as integer ({v})")
        if v.size() != w:
            raise Unsupported("width mismatch")
        return v

    def as_ptr(self, v):
        if isinstance(v, Ptr):
            return v
        if isinstance(v, Undef):
            return Ptr(None, fresh("undefptr", 64))
        return Ptr(None, v)

    def _same(self, a, b):
        r = self.ptr_eq(a, b)
        return r if isinstance(r, bool) else z3.is_true(r)

    def ptr_eq(self, a, b):
        """z3 bool/py bool: a == b"""
        if a.obj == b.obj:
            if a.off.c == b.off.c and len(a.off.t) == len(b.off.t) == 0:
                return True
            return simp(a.off.bv() == b.off.bv())
        if a.obj is None or b.obj is None:
            r = a if a.obj is None else b
            if r.off.const() is not None:
                return False      # NULL or a small constant never equals an object address
            raise Unsupported("comparison of a raw address with an object pointer")
        return False

    # ------------------------------------------------------------ memory
    def bounds(self, st, o, off, n, what):
        c = off.const()
        if isinstance(o.size, int) and c is not None and isinstance(n, int):
            cond = 0 <= c and c + n <= o.size
        else:
            b = off.bv()
            nn = BV(n, 64) if isinstance(n, int) else n
            sz = BV(o.size, 64) if isinstance(o.size, int) else o.size
            cond = z3.And(z3.ULE(nn, sz), z3.ULE(b, sz - nn))
        if cond is True:
            return
        self.check(st, cond, f"{what} inside object {o.name}", "memory")

    def deref(self, st, p, n, what):
        """obligation: p points to n valid bytes; returns obj or None"""
        if p.obj is None or isinstance(p.obj, str):
            self.check(st, False, f"{what}: valid pointer", "memory")
            return None
        o = st.objs[p.obj]
        if not o.alive:
            self.check(st, False, f"{what}: object {o.name} is live", "memory")
            return None
        self.bounds(st, o, p.off, n, what)
        return o

    def elem(self, st, o, off):
        """symbolic element access -> [(st, elem position, field offset)]"""
        fld = (off.c - o.ebase) % o.stride
        base = (off.c - o.ebase) // o.stride
        idx = BV(base, 64)
        for s, e in off.t:
            if s % o.stride:
                raise Unsupported(f"irregular element access in {o.name}: {off}")
            k = s // o.stride
            idx = idx + (e if k == 1 else BV(k, 64) * e)
        idx = simp(idx)
        out = []
        cur = [st]
        res = []
        n = len(o.elems)
        for k in range(n):
            nxt = []
            for s in cur:
                ki = s.objs[o.id].elems[k][0]
                for s2, t in self.branch(s, simp(ki == idx)):
                    if t:
                        res.append((s2, k, fld))
                    else:
                        nxt.append(s2)
            cur = nxt
        for s in cur:
            oo = s.wobj(o.id)
            cells = {}
            oo.elems.append((idx, cells))
            k = len(oo.elems) - 1
            if oo.egen:
                oo.egen(self, s, oo, idx, cells)
            res.append((s, k, fld))
        return res

    # o.meta['sink']: stores into o go to this function (eng, state, offset, bytes, value) -> states
    def _region(self, st, o, p):
        """an array field kept as an object of its own (o.meta['regions'] = [(base, length, object)]):
        -> [(state, pointer into that object, or p itself for the rest of o)]"""
        outs, cur = [], st
        for base, ln, sub in o.meta['regions']:
            q = Ptr(sub, p.off.add(-base))
            c = p.off.const()
            inside = base <= c < base + ln if c is not None else z3.ULT(q.off.bv(), ln)
            nxt = None
            for s, t in self.branch(cur, inside):
                if t:
                    outs.append((s, q))
                else:
                    nxt = s
            cur = nxt
            if cur is None:
                return outs
        return outs + [(cur, p)]

    def soa_at(self, o, off, n):
        """array-of-structs access -> (field, index)"""
        fld = off.c % o.stride
        idx = BV(off.c // o.stride, 64)
        for sc, e in off.t:
            if sc % o.stride:
                raise Unsupported(f"irregular element access in {o.name}: {off}")
            k = sc // o.stride
            idx = idx + (e if k == 1 else BV(k, 64) * e)
        if fld not in o.soa or soa_width(o.soa[fld]) != 8 * n:
            raise Unsupported(f"odd field access in {o.name}")
        return fld, simp(idx)

    def _cells_load(self, st, getcells, setcell, off, n, default, label, oid):
        cells = getcells(st)
        c = cells.get(off)
        if c is not None and c[0] == n:
            v = c[1]
            if isinstance(v, Lazy):
                outs = v.fn(self, st)
                res = []
                for s, val in outs:
                    setcell(s, off, (n, val))
                    res.append((s, val))
                return res
            return [(st, v)]
        over = [(o, cc) for o, cc in cells.items() if o < off + n and off < o + cc[0]]
        if not over:
            v = default(self, st, off, n)
            setcell(st, off, (n, v))
            return [(st, v)]
        # assemble bytes
        for o, cc in over:
            if isinstance(cc[1], Lazy):
                outs = cc[1].fn(self, st)
                res = []
                for s, val in outs:
                    setcell(s, o, (cc[0], val))
                    res += self._cells_load(s, getcells, setcell, off, n, default, label, oid)
                return res
        bs = []
        for k in range(n):
            b = off + k
            for o, (m, v) in over:
                if o <= b < o + m:
                    if isinstance(v, Undef):
                        v = fresh("undef", 8 * m)
                        setcell(st, o, (m, v))
                        return self._cells_load(st, getcells, setcell, off, n, default, label, oid)
                    if isinstance(v, Ptr):
                        if v.obj is None:
                            v = v.off.bv()
                        else:
                            raise Unsupported(f"partial read of a pointer in {label}")
                    bs.append(z3.Extract(8 * (b - o) + 7, 8 * (b - o), v))
                    break
            else:
                d = default(self, st, b, 1)
                setcell(st, b, (1, d))
                return self._cells_load(st, getcells, setcell, off, n, default, label, oid)
        v = bs[0] if n == 1 else z3.Concat(*bs[::-1])
        return [(st, simp(v))]

    def _default(self, o):
        d = o.default
        if d == "zero":
            return lambda e, s, off, n: BV(0, 8 * n)
        if d == "undef":
            return lambda e, s, off, n: (fresh(f"{o.name}+{off}", 8 * n) if n <= 64 else fresh(f"{o.name}+{off}", 8 * n))
        return lambda e, s, off, n: d(e, s, o, off, n)

    def interfere(self, st, o, c):
        """a cell shared with other threads takes any value its rely condition allows"""
        sh = st.ghost.get('shared')
        if sh and c is not None and (o.id, c) in sh:
            n, rely = sh[(o.id, c)]
            v = fresh("shared", 8 * n)
            st.wobj(o.id).cells[c] = (n, v)
            st.assume(rely(v))

    def load(self, st, p, n, want, what="load"):
        """-> [(st, value)]"""
        o = self.deref(st, p, n, what)
        if o is None:
            return []
        c = p.off.const()
        self.interfere(st, o, c)
        if 'regions' in o.meta:
            outs = []
            for s, q in self._region(st, o, p):
                if q is not p:
                    outs += self.load(s, q, n, want, what)
                elif c is None:
                    raise Unsupported(f"symbolic offset {p.off} into {o.name} ({what})")
                else:
                    outs += [(x, self._conv(v, n, want)) for x, v in self._cells_load(
                        s, lambda s_: s_.objs[o.id].cells, lambda s_, of, cell: s_.wobj(o.id).cells.__setitem__(of, cell),
                        c, n, self._default(o), o.name, o.id)]
            return outs
        if o.soa is not None:
            fld, idx = self.soa_at(o, p.off, n)
            a = o.soa[fld]
            if isinstance(a, FArr) and a.cases:
                outs = []
                for c, v in a.cases(idx):
                    if self.feasible(st, c):
                        s2 = st.fork()
                        s2.assume(c)
                        outs.append((s2, self._conv(simp(v), n, want)))
                return outs
            return [(st, self._conv(simp(a[idx]), n, want))]
        if o.arr is not None and (c is None or c >= o.arr_base):
            if c is None and o.arr_base:
                self.check(st, z3.UGE(p.off.bv(), o.arr_base), f"{what}: stays in data area of {o.name}", "memory")
            b = p.off.bv() - o.arr_base
            v = [z3.Select(o.arr, simp(b + k)) for k in range(n)]
            r = v[0] if n == 1 else z3.Concat(*v[::-1])
            r = simp(r)
            return [(st, self.as_ptr(r) if want == 'ptr' else r)]
        if o.elems is not None and (c is None or c >= o.ebase):
            res = []
            for s, k, fld in self.elem(st, o, p.off):
                def getc(s_, k=k):
                    return s_.objs[o.id].elems[k][1]

                def setc(s_, of, cell, k=k):
                    s_.wobj(o.id).elems[k][1][of] = cell
                for s2, v in self._cells_load(s, getc, setc, fld, n, self._default(o), o.name, o.id):
                    res.append((s2, self._conv(v, n, want)))
            return res
        if c is None:
            raise Unsupported(f"symbolic offset {p.off} into {o.name} ({what})")
        oid = o.id
        return [(s, self._conv(v, n, want)) for s, v in self._cells_load(
            st, lambda s_: s_.objs[oid].cells, lambda s_, of, cell: s_.wobj(oid).cells.__setitem__(of, cell),
            c, n, self._default(o), o.name, oid)]

    def _conv(self, v, n, want):
        if want == 'ptr':
            return self.as_ptr(v)
        if isinstance(v, Ptr) and v.obj is None and want == 'i':
            return v.off.bv() if n == 8 else simp(z3.Extract(8 * n - 1, 0, v.off.bv()))
        return v

    def _cells_store(self, cells, off, n, v):
        c = cells.get(off)
        if c is not None and c[0] == n:
            cells[off] = (n, v)
            return
        for o in [o for o, cc in cells.items() if o < off + n and off < o + cc[0]]:
            m, old = cells.pop(o)
            if o >= off and o + m <= off + n:
                continue
            if isinstance(old, (Lazy,)) or (isinstance(old, Ptr) and old.obj is not None):
                raise Unsupported("partial overwrite of a pointer")
            if isinstance(old, Ptr):
                old = old.off.bv()
            if isinstance(old, Undef):
                old = fresh("undef", 8 * m)
            if o < off:
                k = off - o
                cells[o] = (k, simp(z3.Extract(8 * k - 1, 0, old)))
            if o + m > off + n:
                k = off + n - o
                cells[off + n] = (m - k, simp(z3.Extract(8 * m - 1, 8 * k, old)))
        cells[off] = (n, v)

    def store(self, st, p, n, v, what="store"):
        """-> [st]"""
        o = self.deref(st, p, n, what)
        if o is None:
            return []
        if o.ro:
            self.check(st, False, f"{what}: {o.name} is not modified", "frame")
        if self.on_store:
            self.on_store(self, st, o, p.off, n, v)
        c = p.off.const()
        if 'sink' in o.meta:
            return o.meta['sink'](self, st, p.off, n, v)
        if 'regions' in o.meta:
            outs = []
            for s, q in self._region(st, o, p):
                if q is not p:
                    outs += self.store(s, q, n, v, what)
                elif c is None:
                    raise Unsupported(f"symbolic offset {p.off} into {o.name} ({what})")
                else:
                    self._cells_store(s.wobj(o.id).cells, c, n, v)
                    s.wset = s.wset | {(o.id, c, n)}
                    outs.append(s)
            return outs
        if o.soa is not None:
            fld, idx = self.soa_at(o, p.off, n)
            o = st.wobj(o.id)
            o.soa[fld] = soa_store(o.soa[fld], idx, self.as_bv(st, v, 8 * n))
            st.wset = st.wset | {(o.id, 'soa', 0)}
            return [st]
        if o.arr is not None and (c is None or c >= o.arr_base):
            if c is None and o.arr_base:
                self.check(st, z3.UGE(p.off.bv(), o.arr_base), f"{what}: stays in data area of {o.name}", "memory")
            o = st.wobj(o.id)
            b = p.off.bv() - o.arr_base
            vv = self.as_bv(st, v, 8 * n)
            a = o.arr
            for k in range(n):
                a = z3.Store(a, simp(b + k), simp(z3.Extract(8 * k + 7, 8 * k, vv)))
            o.arr = a
            st.wset = st.wset | {(o.id, 'arr', 0)}
            return [st]
        if o.elems is not None and (c is None or c >= o.ebase):
            res = []
            for s, k, fld in self.elem(st, o, p.off):
                oo = s.wobj(o.id)
                self._cells_store(oo.elems[k][1], fld, n, v)
                s.wset = s.wset | {(o.id, 'elems', 0)}
                res.append(s)
            return res
        if c is None:
            raise Unsupported(f"symbolic offset {p.off} into {o.name} ({what})")
        o = st.wobj(o.id)
        self._cells_store(o.cells, c, n, v)
        st.wset = st.wset | {(o.id, c, n)}
        return [st]

    # convenience for specs: fixed-offset field access on an object id
    def peek(self, st, oid, off, n=8, want='i'):
        """read a cell that is known to be deterministic (single outcome)"""
        r = self.load(st, Ptr(oid, off), n, want, "spec read")
        if len(r) != 1:
            raise Unsupported("spec read forks")
        return r[0][1]

    def raw(self, st, oid, off):
        c = st.objs[oid].cells.get(off)
        return None if c is None else c[1]

    def poke(self, st, oid, off, n, v):
        o = st.wobj(oid)
        self._cells_store(o.cells, off, n, v)

    def copy_bytes(self, st, dst, src, n, what="memcpy"):
        """n python int or BV64 -> [st]"""
        k = cval(n) if not isinstance(n, int) else n
        if k == 0:
            return [st]
        nn = BV(k, 64) if k is not None else n
        if k is None:
            # size zero needs no valid pointers
            outs = []
            for s, z in self.branch(st, n == 0):
                if z:
                    outs.append(s)
                else:
                    outs += self._copy_sym(s, dst, src, n, what)
            return outs
        so = self.deref(st, src, k, what + " source")
        do = self.deref(st, dst, k, what + " destination")
        if so is None or do is None:
            return []
        if so.arr is None and do.arr is None and so.elems is None and do.elems is None and so.soa is None and do.soa is None:
            sc, dc = src.off.const(), dst.off.const()
            if sc is None or dc is None:
                raise Unsupported("memcpy at symbolic offset")
            # copy cell-wise
            cur = [st]
            cells = st.objs[so.id].cells
            pts = sorted(o for o in cells if sc <= o and o + cells[o][0] <= sc + k)
            segs, pos = [], sc
            for o in pts:
                if o < pos:
                    continue
                if o > pos:
                    segs.append((pos, o - pos))
                segs.append((o, cells[o][0]))
                pos = o + cells[o][0]
            if pos < sc + k:
                segs.append((pos, sc + k - pos))
            vals = []
            cur = [(st, [])]
            for o, m in segs:
                nxt = []
                for s, vs in cur:
                    for s2, v in self.load(s, Ptr(so.id, o), m, 'any', what):
                        nxt.append((s2, vs + [(o, m, v)]))
                cur = nxt
            out = []
            for s, vs in cur:
                ss = [s]
                for o, m, v in vs:
                    ss = [x for y in ss for x in self.store(y, Ptr(do.id, dc + o - sc), m, v, what)]
                out += ss
            return out
        if k <= 64 or so.arr is None or do.arr is None:
            # byte by byte
            cur = [(st, [])]
            step = 8 if k % 8 == 0 else 1
            for i in range(0, k, step):
                nxt = []
                for s, vs in cur:
                    for s2, v in self.load(s, src.plus(i), step, 'i', what):
                        nxt.append((s2, vs + [v]))
                cur = nxt
            out = []
            for s, vs in cur:
                ss = [s]
                for i, v in enumerate(vs):
                    ss = [x for y in ss for x in self.store(y, dst.plus(i * step), step, v, what)]
                out += ss
            return out
        return self._copy_sym(st, dst, src, nn, what)

    def _copy_sym(self, st, dst, src, n, what):
        so = self.deref(st, src, n, what + " source")
        do = self.deref(st, dst, n, what + " destination")
        if so is None or do is None:
            return []
        if so.ro is False and do.ro:
            self.check(st, False, f"{what}: {do.name} is not modified", "frame")
        if so.soa is not None and do.soa is not None and so.id != do.id and so.stride == do.stride and set(so.soa) == set(do.soa):
            try:
                f0, si = self.soa_at(so, src.off, soa_width(so.soa[0]) // 8)
                f1, di = self.soa_at(do, dst.off, soa_width(do.soa[0]) // 8)
            except KeyError:
                f0 = None
            if f0 == 0 and f1 == 0 and self.valid(st, z3.URem(n, BV(so.stride, 64)) == 0):
                do = st.wobj(do.id)
                cnt = simp(z3.UDiv(n, BV(so.stride, 64)))
                for fld in list(do.soa):
                    do.soa[fld] = FArr(lambda k, a=do.soa[fld], b=so.soa[fld]: z3.If(z3.ULT(k - di, cnt), b[k - di + si], a[k]), soa_width(do.soa[fld]))
                st.wset = st.wset | {(do.id, 'soa', 0)}
                return [st]
        self.to_arr(st, so.id)
        self.to_arr(st, do.id)
        so, do = st.objs[so.id], st.wobj(do.id)
        sb = simp(src.off.bv() - so.arr_base)
        db = simp(dst.off.bv() - do.arr_base)
        if so.id == do.id:
            ov = z3.And(z3.ULT(sb - db, n), z3.ULT(BV(0, 64), n))
            self.check(st, z3.And(z3.Not(z3.ULT(sb - db, n)), z3.Not(z3.ULT(db - sb, n))), f"{what}: ranges do not overlap", "memory")
        i = z3.BitVec("i!l", 64)
        do.arr = z3.Lambda([i], z3.If(z3.ULT(i - db, n), z3.Select(so.arr, i - db + sb), z3.Select(do.arr, i)))
        st.wset = st.wset | {(do.id, 'arr', 0)}
        if self.on_store:
            self.on_store(self, st, do, dst.off, n, None)
        return [st]

    def to_arr(self, st, oid, base=0):
        o = st.objs[oid]
        if o.arr is not None:
            return
        if o.elems is not None:
            raise Unsupported(f"bulk access to {o.name}")
        o = st.wobj(oid)
        a = z3.K(z3.BitVecSort(64), BV(0, 8)) if o.default == 'zero' else z3.Array(f"{o.name}.bytes!{next(_fresh_n)}", z3.BitVecSort(64), z3.BitVecSort(8))
        for off, (n, v) in list(o.cells.items()):
            if off < base:
                continue
            if isinstance(v, Lazy) or (isinstance(v, Ptr) and v.obj is not None):
                raise Unsupported(f"bulk access to {o.name} holding pointers")
            if isinstance(v, Undef):
                continue
            if isinstance(v, Ptr):
                v = v.off.bv()
            for k in range(n):
                a = z3.Store(a, BV(off - base + k, 64), simp(z3.Extract(8 * k + 7, 8 * k, v)))
            del o.cells[off]
        o.arr = a
        o.arr_base = base

    def fill(self, st, dst, byte, n, what="memset"):
        k = cval(n) if not isinstance(n, int) else n
        if k == 0:
            return [st]
        if k is None:
            outs = []
            for s, z in self.branch(st, n == 0):
                if z:
                    outs.append(s)
                else:
                    outs += self._fill(s, dst, byte, n, what)
            return outs
        return self._fill(st, dst, byte, k, what)

    def _fill(self, st, dst, byte, n, what):
        o = self.deref(st, dst, n, what)
        if o is None:
            return []
        k = n if isinstance(n, int) else None
        if k is not None and o.arr is None and dst.off.const() is not None and (o.elems is None or dst.off.const() + k <= o.ebase):
            v = z3.Concat(*([byte] * k)) if k > 1 else byte
            return self.store(st, dst, k, simp(v), what)
        if o.elems is not None:
            raise Unsupported("memset over elements")
        self.to_arr(st, o.id)
        o = st.wobj(o.id)
        db = simp(dst.off.bv() - o.arr_base)
        nn = BV(n, 64) if isinstance(n, int) else n
        i = z3.BitVec("i!l", 64)
        o.arr = z3.Lambda([i], z3.If(z3.ULT(i - db, nn), byte, z3.Select(o.arr, i)))
        st.wset = st.wset | {(o.id, 'arr', 0)}
        return [st]

    # ------------------------------------------------------------ operands
    def opnd(self, st, o):
        k = o[0]
        if k == 'r':
            return st.frames[-1].regs[o[1]]
        if k == 'c':
            return BV(o[2], o[1])
        if k == 'null':
            return NULL
        if k == 'undef':
            t = o[1]
            return NULL if t[0] == 'ptr' else UNDEF
        if k == 'g':
            return Ptr(self.global_obj(st, o[1], st.frames[-1].fn.module if st.frames else None))
        if k == 'f':
            return Ptr('fn:' + self.prog.fn_key(o[1], st.frames[-1].fn.module if st.frames else None))
        if k == 'cegep':
            return self.opnd(st, o[1]).plus(o[2])
        if k == 'ce':
            if o[1] in ('bitcast', 'addrspacecast', 'ptrtoint', 'inttoptr'):
                v = self.opnd(st, o[2][0])
                return self.as_ptr(v) if o[1] == 'inttoptr' else v
        if k == 'zero':
            return BV(0, 8 * o[1])
        raise Unsupported(f"operand {o[:2]}")

    def global_obj(self, st, name, module):
        key = self.prog.global_key(name, module)
        gm = st.ghost.get('globals')
        if gm is None:
            gm = st.ghost['globals'] = {}
        if key in gm:
            return gm[key]
        g, mod = self.prog.global_def(key)
        size = g['size'] if g else 1 << 20
        o = st.new_obj('global ' + key, size, 'global', 'zero')
        gm[key] = o.id
        if g and g['init'] is not None:
            if g['const']:
                o.ro = True
            self._init(st, o, 0, g['init'], g['ty'], mod)
            if not g['const'] and self.prog.global_symbolic(key):
                o.cells.clear()
                o.default = 'undef'
        elif not g or g['init'] is None:
            o.default = 'undef'
        return o.id

    def _init(self, st, o, off, init, ty, mod):
        k = init[0]
        if k == 'zero':
            return
        if k == 'agg':
            for p, v, t in init[2]:
                self._init(st, o, off + p, v, t, mod)
            return
        if k == 'undef':
            return
        if k == 'c':
            o.cells[off] = (max(1, init[1] // 8), BV(init[2], max(8, init[1])))
            return
        if k == 'null':
            o.cells[off] = (8, NULL)
            return
        if k == 'f':
            o.cells[off] = (8, Ptr('fn:' + self.prog.fn_key(init[1], mod)))
            return
        if k == 'g':
            o.cells[off] = (8, Ptr(self.global_obj(st, init[1], mod)))
            return
        if k == 'cegep' and init[1][0] == 'g':
            o.cells[off] = (8, Ptr(self.global_obj(st, init[1][1], mod), init[2]))
            return
        raise Unsupported(f"global initialiser {init[:2]}")

    # ------------------------------------------------------------ running
    def call(self, st, fname, args, module=None):
        """run function by name with given argument values; -> [(st, ret)]"""
        fn = self.prog.func(fname, module)
        if fn is None:
            raise Unsupported(f"function {fname} not found in the source")
        return self.call_fn(st, fn, args)

    def call_fn(self, st, fn, args):
        depth = len(st.frames)
        st.frames = list(st.frames)
        self.push(st, fn, args, None)
        return self.explore([st], depth)

    def push(self, st, fn, args, ret_reg):
        if len(args) < len(fn.params):
            raise Unsupported(f"arity of {fn.name}")
        if len(st.frames) > 40:
            raise Unsupported("call depth")
        f = Frame.__new__(Frame)
        f.fn = fn
        f.blk = 0
        f.ip = 0
        f.prev = None
        f.regs = dict(zip(fn.params, args))
        if len(args) > len(fn.params):
            f.regs['...'] = list(args[len(fn.params):])
        f.allocas = []
        f.active = {}
        f.iters = {}
        f.ret_reg = ret_reg
        f.sid = next(Frame._sid)
        f.entered = False
        fn.loops()
        if fn.irreducible:
            raise Unsupported(f"irreducible control flow in {fn.name}")
        st.frames.append(f)
        self.inlined.add(fn.qual)

    def explore(self, states, depth):
        """run until the frame stack is back at `depth`; -> [(st, ret)]"""
        done = []
        work = list(states)
        while work:
            st = work.pop()
            while True:
                outs = self.step(st)
                if outs is None:     # same state continues
                    continue
                nxt = []
                for s in outs:
                    if isinstance(s, tuple):
                        s2, rv = s
                        if len(s2.frames) == depth:
                            done.append((s2, rv))
                            continue
                        raise Unsupported("frame accounting")
                    nxt.append(s)
                if not nxt:
                    break
                work.extend(nxt[1:])
                st = nxt[0]
                # a state can also come back with fewer frames (stub-level unwinding)
        return done

    def where(self, st):
        f = st.frames[-1]
        ins = f.fn.blocks[f.blk].ins
        ln = ins[min(f.ip, len(ins) - 1)].line
        return f"{f.fn.name}:{ln}"

    def loop_calls(self, fn, h):
        """names of the functions a loop may call, directly or not"""
        memo = self.__dict__.setdefault('_loop_calls', {})
        if (fn, h) in memo:
            return memo[(fn, h)]
        out, work = set(), []

        def scan(f, blks):
            for b in blks:
                for I in f.blocks[b].ins:
                    if I.op == 'call' and I.x[0] == 'f' and not I.x[1].startswith('llvm.'):
                        work.append((I.x[1], f.module))
                    elif I.op == 'call' and I.x[0] not in ('f', 'asm'):
                        out.add('*')
        scan(fn, fn.loops()[h])
        seen = set()
        while work:
            n, m = work.pop()
            k = self.prog.fn_key(n, m)
            if k in seen:
                continue
            seen.add(k)
            out.add(n)
            if k in self.stubs or n in self.stubs:
                continue
            g = self.prog.by_key(k)
            if g is not None:
                scan(g, range(len(g.blocks)) if isinstance(g.blocks, list) else list(g.blocks))
        memo[(fn, h)] = out
        return out

    def step(self, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget("step budget exhausted")
        f = st.frames[-1]
        if not f.entered:
            f.entered = True
        I = f.fn.blocks[f.blk].ins[f.ip]
        h = getattr(self, 'i_' + I.op, None)
        if h is None:
            raise Unsupported(f"instruction {I.op} at {self.where(st)}")
        return h(st, f, I)

    def setr(self, st, I, v):
        f = st.frames[-1]
        f.regs[I.res] = v
        f.ip += 1

    # --- control
    def goto(self, st, target):
        """transfer control inside the current frame -> list of states or None"""
        f = st.frames[-1]
        src = f.blk
        loops = f.fn.loops()
        # leaving loops?
        for h in list(f.active):
            if target not in loops[h]:
                ctx = f.active.pop(h)
                if ctx.dry:
                    return []
        for h in list(f.iters):
            if target not in loops[h]:
                del f.iters[h]
        if target in loops:
            body = loops[target]
            if target in f.active and src in body:
                return self.back_edge(st, target, src)
            f.prev, f.blk, f.ip = src, target, 0
            if src in body and target in f.iters:
                return self.unrolled_again(st, target)
            return self.first_arrival(st, target)
        f.prev, f.blk, f.ip = src, target, 0
        return None

    def unrolled_again(self, st, h):
        f = st.frames[-1]
        f.iters[h] += 1
        if self.bounded is not None:
            if f.iters[h] > self.bounded:
                self.bounded_cuts += 1
                return []
            return None
        # complete unrolling: accepted only if the loop terminates by itself within the limit
        if f.iters[h] > self.unroll_limit:
            raise Unsupported(f"loop in {f.fn.name} needs an invariant")
        return None

    def first_arrival(self, st, h):
        f = st.frames[-1]
        spec = None
        if self.bounded is None and self.loop_policy is not None:
            spec = self.loop_policy(self, st, f.fn, h)
        if spec is None and self.bounded is None and self.default_loop is not None:
            spec = self.default_loop()
        if spec is None:
            f.iters[h] = 1
            return None
        return self.cut_loop(st, h, spec)

    def back_edge(self, st, h, src):
        f = st.frames[-1]
        ctx = f.active[h]
        f.prev, f.blk, f.ip = src, h, 0
        if ctx.dry:
            ctx.backs.append(st)
            return []
        ctx.alts_check(st)
        for nm, fn in ctx.cands:
            c = fn(self, st)
            self.check(st, z3.BoolVal(False) if c is None else c, f"{f.fn.name}: loop invariant [{nm}] preserved", "invariant")
        ctx.spec.back(self, st)
        return []

    # --- loop cutting
    def cut_loop(self, st, h, spec):
        f = st.frames[-1]
        sid = f.sid
        depth = len(st.frames)
        fi = depth - 1
        self.loops_cut[f"{f.fn.name}"] = spec.name
        spec.entry(self, st)
        if self.failures and not self.dry and self.bounded is None and not self.feasible(st):
            return []
        owned = set(spec.owned(self, st))
        if not self.dry:
            self.loop_memo = {}
        # facts found not to be invariant on an earlier visit by the same path (dropping more is sound)
        memo = self.loop_memo.setdefault((f.fn.name, h, tuple(st.trace_list())), set()) if self.dry else set()
        M = {}          # (oid, off, n) -> alternatives set
        cands = None
        phis = [I for I in f.fn.blocks[h].ins if I.op == 'phi']
        if phis:
            raise Unsupported("phi at loop head")

        def cellval(s, key):
            oid, off, n = key
            if off in ('arr', 'elems', 'soa'):
                return None
            o = s.objs[oid]
            c = o.cells.get(off)
            if c is None:
                return UNDEF
            if c[0] != n:
                return None
            return c[1]

        def kind_of(v, s):
            if isinstance(v, Undef) or isinstance(v, Lazy):
                return ('any',)
            if isinstance(v, Ptr):
                if v.obj is None:
                    return ('null',) if v.is_null() else ('int',)
                t = tuple(sc for sc, _ in v.off.t)
                return ('obj', v.obj)
            return ('int',)

        roles = {}      # pointer cells that follow a role: key -> roles seen every time
        spec.roles = roles

        def lost(eng, s):
            raise Unsupported(f"loop-carried pointer of {f.fn.name} without a role")

        def view_match(s, keys):
            """choose the view of s that fits the cells best -> {key: roles matched}"""
            vs = spec.views(self, s)
            if vs is None:
                return None
            best = None
            for vw in vs:
                mt = {}
                for key in keys:
                    v = cellval(s, key)
                    mt[key] = {n for n, p in vw.items() if isinstance(p, Ptr) and isinstance(v, Ptr) and (v.obj is not None or v.is_null()) and self._same(p, v)}
                    if isinstance(v, z3.BitVecRef) and cval(v) == 0:
                        mt[key] = {n for n, p in vw.items() if isinstance(p, Ptr) and p.is_null()}
                sc = sum(1 for key in keys if mt[key] & roles.get(key, mt[key]))
                if best is None or sc > best[0]:
                    best = (sc, vw, mt)
            s.ghost['view'] = best[1]
            return best[2]

        def make_generic():
            s = st.fork()
            outs = [s]
            for key in sorted(M, key=str):
                oid, off, n = key
                if oid in owned or key in roles:
                    continue
                if oid not in s.objs:
                    continue
                if off == 'arr':
                    for x in outs:
                        o = x.wobj(oid)
                        o.arr = z3.Array(f"{o.name}.havoc!{next(_fresh_n)}", z3.BitVecSort(64), z3.BitVecSort(8))
                        x.wset = x.wset | {key}
                    continue
                if off == 'soa':
                    for x in outs:
                        o = x.wobj(oid)
                        for fld in o.soa:
                            o.soa[fld] = z3.Array(f"{o.name}.{fld}!{next(_fresh_n)}", z3.BitVecSort(64), z3.BitVecSort(soa_width(o.soa[fld])))
                        x.wset = x.wset | {key}
                    continue
                if off == 'elems':
                    raise Unsupported(f"loop writes elements of {st.objs[oid].name}")
                alts = M[key]
                nxt = []
                for x in outs:
                    al = sorted(alts, key=str)
                    if ('any',) in al and len(al) == 1:
                        vals = [UNDEF]
                    else:
                        vals = []
                        al = [a for a in al if a != ('any',)] + ([('any',)] if ('any',) in al else [])
                        for a in al:
                            if a == ('int',):
                                vals.append(fresh(f"h{off}_{x.objs[oid].name}", 8 * n))
                            elif a == ('null',):
                                if ('int',) in al:
                                    continue
                                vals.append(NULL)
                            elif a == ('any',):
                                # uninitialised on entry: arbitrary, but of a kind seen
                                if len(al) == 1:
                                    vals.append(UNDEF)
                                continue
                            else:
                                vals.append(self._generic_ptr(x, a[1], off_samples.get((key, a[1]), [])))
                    for i, v in enumerate(vals):
                        y = x if i == len(vals) - 1 else x.fork()
                        o = y.wobj(oid)
                        self._cells_store(o.cells, off, n, v)
                        y.wset = y.wset | {key}
                        nxt.append(y)
                outs = nxt
            res = []
            for x in outs:
                for y in spec.havoc(self, x):
                    for key, rs in roles.items():
                        v = y.ghost['view'][min(rs, key=lambda x: (x not in y.ghost['view'], x))] if rs else Lazy(lost)
                        self._cells_store(y.wobj(key[0]).cells, key[1], key[2], v)
                        y.wset = y.wset | {key}
                    res.append(y)
            final = []
            for y in res:
                for nm, fn in cands:
                    c = fn(self, y)
                    if c is not None:
                        y.assume(c)
                if self.feasible(y):
                    final.append(y)
            return final

        off_samples = {}

        def sample(key, v):
            if isinstance(v, Ptr) and v.obj is not None and not isinstance(v.obj, str):
                off_samples.setdefault((key, v.obj), []).append(v.off)

        if spec.all_roles:
            ks = [(i, off, c[0]) for i, o in st.objs.items() if o.kind == 'stack' for off, c in o.cells.items() if isinstance(c[1], Ptr)]
            roles.update({k: r for k, r in view_match(st, ks).items() if r})
        rounds = 0
        cands = []
        base_cands_key = None
        dropped = memo
        spec.dropped = dropped
        while True:
            rounds += 1
            if rounds > 60:
                raise Unsupported(f"loop inference does not stabilise in {f.fn.name}")
            view_match(st, list(roles) or [(i, off, c[0]) for i, o in st.objs.items() if o.kind == 'stack' for off, c in o.cells.items() if isinstance(c[1], Ptr) and c[1].obj is not None])
            # candidate set depends on modified cells
            ck = frozenset((k, frozenset(v)) for k, v in M.items())
            if ck != base_cands_key:
                base_cands_key = ck
                pool = self.loop_candidates(st, spec, M, owned, cellval)
                cands = self.holding(st, [(nm, fn) for nm, fn in pool if nm not in dropped], dropped)
            gens = make_generic()
            ctx = LoopCtx(spec, h, True)
            self.dry += 1
            try:
                starts = []
                for gst in gens:
                    g2 = gst.fork()
                    g2.wset = frozenset()
                    g2.frames[fi].active[h] = ctx
                    starts.append(g2)
                self.explore_dry(starts, depth)
                changed = False
                for b in ctx.backs:
                    pk = [k for k in b.wset if k[0] in st.objs and k[0] not in owned and isinstance(cellval(b, k), Ptr)]
                    mt = view_match(b, sorted(set(pk) | set(roles), key=str))
                    if mt is not None:
                        made = [k for k in mt if k not in roles and isinstance(cellval(b, k), Ptr) and not isinstance(cellval(b, k).obj, str)
                                and cellval(b, k).obj is not None and cellval(b, k).obj not in st.objs]
                        if roles or made or spec.all_roles:
                            known = [k for k in mt if kind_of(cellval(st, k), st) != ('any',)]
                            mt0 = view_match(st, known)
                            for k in mt:
                                if k in roles:
                                    new = roles[k] & mt[k]
                                elif k not in known:
                                    continue
                                else:
                                    new = mt0[k] & mt[k]
                                    if not new and k not in made:
                                        continue
                                if spec.all_roles and k in roles and not new and k not in b.wset:
                                    del roles[k]        # the loop does not touch it
                                    changed = True
                                elif roles.get(k) != new:
                                    roles[k] = new
                                    changed = True
                            if changed:
                                view_match(b, list(mt))
                    # only cells of objects that exist at the loop head
                    for key in b.wset:
                        if key[0] not in st.objs or key[0] in owned or key in roles:
                            continue
                        if st.objs[key[0]].kind == 'ghost':
                            continue
                        v = cellval(b, key)
                        if v is None and key[1] not in ('arr', 'elems', 'soa'):
                            # cell layout changed; treat by the layout at the back edge
                            continue
                        if key not in M:
                            M[key] = set()
                            changed = True
                            if key[1] not in ('arr', 'elems', 'soa'):
                                v0 = cellval(st, key)
                                if isinstance(v0, Undef) and st.objs[key[0]].kind != 'stack':
                                    r0 = self.load(st, Ptr(key[0], key[1]), key[2], 'any', 'loop entry')
                                    if len(r0) != 1:
                                        raise Unsupported('undetermined cell at loop entry')
                                    v0 = r0[0][1]
                                if v0 is None:
                                    raise Unsupported(f"cell layout of {st.objs[key[0]].name} changes in loop")
                                M[key].add(kind_of(v0, st))
                                sample(key, v0)
                        if key[1] in ('arr', 'elems', 'soa'):
                            continue
                        kd = kind_of(v, b)
                        if kd[0] == 'obj' and not isinstance(kd[1], str) and kd[1] not in st.objs:
                            kd = ('any',) if kind_of(cellval(st, key), st) == ('any',) else kd
                            if kd != ('any',):
                                raise Unsupported(f"pointer to an object made in the loop kept across iterations ({st.objs[key[0]].name})")
                        sample(key, v)
                        if kd not in M[key]:
                            M[key].add(kd)
                            changed = True
                if changed:
                    continue
                keep = cands
                for b in ctx.backs:
                    keep = self.holding(b, keep, dropped)
                if len(keep) != len(cands):
                    cands = keep
                    continue
            finally:
                self.dry -= 1
            break
        # final pass
        fin = LoopCtx(spec, h, False)
        fin.cands = cands
        alts = {k: set(v) for k, v in M.items()}

        def alts_check(b):
            mt = view_match(b, list(roles))
            for key, rs in roles.items():
                if not rs <= mt[key]:
                    raise Unsupported("loop-carried pointer leaves its role")
            for key, al in alts.items():
                if key[1] in ('arr', 'elems', 'soa') or key[0] in owned or key in roles:
                    continue
                v = cellval(b, key)
                kd = kind_of(v, b)
                if kd[0] == 'obj' and not isinstance(kd[1], str) and kd[1] not in st.objs:
                    kd = ('any',)
                if kd not in al and not (kd == ('null',) and ('int',) in al):
                    raise Unsupported("loop-carried value of unexpected kind")
            for key in b.wset - st.wset:
                if key[0] in st.objs and key[0] not in owned and key not in M and key not in roles and st.objs[key[0]].kind != 'ghost':
                    raise Unsupported("loop modifies an unexpected cell")
        fin.alts_check = alts_check
        outs = []
        for gst in make_generic():
            gst.frames[fi].active[h] = fin
            gst.note(f"loop head {f.fn.name}:{f.fn.blocks[h].ins[0].line} (arbitrary iteration)")
            gst.wset = frozenset()
            outs.append(gst)
        if not self.dry:
            for nm, _ in cands:
                n = f"{self.prefix}{f.fn.name}: loop invariant [{nm}] on entry"
                o = self.obls.setdefault(n, Obl(n))
                o.n += 1
                o.ok += 1
        # restore the write set of the enclosing context
        for gst in outs:
            gst.wset = st.wset | frozenset(k for k in M) | frozenset(roles)
        return outs

    def holding(self, st, cands, dropped):
        """the candidates valid in st; models of failed ones refute others cheaply"""
        live = []
        for nm, fn in cands:
            c = fn(self, st)
            c = None if c is None else simp(z3.BoolVal(c) if isinstance(c, bool) else c)
            if c is None or (z3.is_false(c) and self.feasible(st)):
                dropped.add(nm)
            else:
                live.append((nm, fn, c))
        sure = [x for x in live if z3.is_true(x[2])]
        rest = [x for x in live if not z3.is_true(x[2])]
        tries = 0
        while rest and tries < 40:
            tries += 1
            s = self._sync(st.pc)
            self.queries += 1
            t = time.time()
            s.push()
            s.add(z3.Or([z3.Not(c) for _, _, c in rest]))
            r = s.check()
            m = s.model() if r == z3.sat else None
            s.pop()
            self.solver_time += time.time() - t
            if r == z3.unsat:
                sure += rest
                rest = []
                break
            if m is None:
                break
            keep = [x for x in rest if z3.is_true(m.eval(x[2], model_completion=True))]
            if len(keep) == len(rest):
                break
            for x in rest:
                if not any(x is y for y in keep):
                    dropped.add(x[0])
            rest = keep
        for x in rest:
            v = self.sat(st, z3.Not(x[2]))
            if v == 'unsat':
                sure.append(x)
            else:
                self.shaky |= v == 'unknown'
                dropped.add(x[0])
        names = {x[0] for x in sure}
        return [(nm, fn) for nm, fn in cands if nm in names]

    def _generic_ptr(self, st, oid, samples):
        if isinstance(oid, str):
            return Ptr(oid, 0)
        consts = {s.const() for s in samples}
        if len(consts) == 1 and None not in consts:
            return Ptr(oid, consts.pop())
        o = st.objs[oid]
        if o.soa is not None and all(s.c % o.stride == samples[0].c % o.stride and all(sc % o.stride == 0 for sc, _ in s.t) for s in samples):
            return Ptr(oid, Off(samples[0].c % o.stride, ((o.stride, self._index(st, o.stride)),)))
        if o.elems is not None and all((s.c - o.ebase) % o.stride == (samples[0].c - o.ebase) % o.stride and
                                       all(sc % o.stride == 0 for sc, _ in s.t) for s in samples):
            fld = (samples[0].c - o.ebase) % o.stride
            return Ptr(oid, Off(o.ebase + fld, ((o.stride, self._index(st, o.stride)),)))
        return Ptr(oid, Off(0, ((1, fresh("hoff", 64)),)))

    def _index(self, st, stride):
        i = fresh("hidx", 64)
        if not stride & (stride - 1):       # the representative of least size: stride * i does not wrap
            st.assume(z3.And(i >= -((1 << 63) // stride), i < (1 << 63) // stride))
        return i

    def loop_candidates(self, st, spec, M, owned, cellval):
        pool = []
        q = {}

        def getter(key):
            def g(eng, s):
                v = cellval(s, key)
                if isinstance(v, Ptr):
                    if v.obj is None:
                        return v.off.bv()
                    return v.off.bv()
                if v is None or isinstance(v, (Undef, Lazy)):
                    return None
                if v.size() < 64:
                    return z3.SignExt(64 - v.size(), v)
                if v.size() > 64:
                    return None
                return v
            return g
        for key in sorted(M, key=str):
            if key[1] in ('arr', 'elems', 'soa') or key[0] in owned:
                continue
            g = getter(key)
            if g(self, st) is None:
                continue
            q[f"{st.objs[key[0]].name}+{key[1]}" if key[1] else st.objs[key[0]].name] = g
        ghost = list(spec.quantities(self, st))
        for nm in ghost:
            q['$' + nm] = (lambda nm: lambda eng, s: spec.quantities(eng, s).get(nm))(nm)
        names = sorted(q)
        v0 = {n: q[n](self, st) for n in names}

        def mk(f, *ns):
            def h(eng, s):
                xs = [q[n](eng, s) for n in ns]
                if any(x is None for x in xs):
                    return None
                return f(*xs)
            return h
        for n in names:
            if n.startswith('$'):
                continue
            e0 = v0[n]
            pool.append((f"{n} unchanged", mk(lambda x, e0=e0: x == e0, n)))
            pool.append((f"{n} <= initial", mk(lambda x, e0=e0: x <= e0, n)))
            pool.append((f"{n} >= initial", mk(lambda x, e0=e0: x >= e0, n)))
            pool.append((f"{n} >= 0", mk(lambda x: x >= 0, n)))
            pool.append((f"{n} > 0", mk(lambda x: x > 0, n)))
            pool.append((f"{n} u<= initial", mk(lambda x, e0=e0: z3.ULE(x, e0), n)))
            pool.append((f"{n} u>= initial", mk(lambda x, e0=e0: z3.UGE(x, e0), n)))
        if spec.pair_candidates and len(names) <= 24:
            for i, a in enumerate(names):
                for b in names[i + 1:]:
                    if a.startswith('$') and b.startswith('$'):
                        continue
                    d0, p0 = v0[a] - v0[b], v0[a] + v0[b]
                    pool.append((f"{a} - {b} constant", mk(lambda x, y, d0=d0: x - y == d0, a, b)))
                    pool.append((f"{a} + {b} constant", mk(lambda x, y, p0=p0: x + y == p0, a, b)))
        pool += spec.candidates(self, st)
        pool += spec.cell_candidates(self, st, {n: g for n, g in q.items() if not n.startswith('$')})
        return pool

    def explore_dry(self, states, depth):
        """run until every path has left the loop, returned below depth, or hit the back edge"""
        work = list(states)
        while work:
            st = work.pop()
            while st is not None:
                if len(st.frames) < depth:
                    break
                if len(st.frames) == depth and not any(c.dry for c in st.frames[-1].active.values()):
                    break
                outs = self.step(st)
                if outs is None:
                    continue
                nxt = [s for s in outs if not isinstance(s, tuple)]
                if not nxt:
                    break
                work.extend(nxt[1:])
                st = nxt[0]

    # --- instructions
    def i_br(self, st, f, I):
        if len(I.x) == 1:
            return self.goto(st, I.x[0])
        c = self.as_bv(st, self.opnd(st, I.ops[0]), 1)
        outs = []
        br = self.branch(st, c == 1)
        for s, t in br:
            if len(br) > 1:
                s.note(f"{f.fn.name}:{I.line} {'true' if t else 'false'}")
            r = self.goto(s, I.x[0] if t else I.x[1])
            outs += [s] if r is None else r
        return outs

    def i_switch(self, st, f, I):
        v = self.opnd(st, I.ops[0])
        w = I.ops[0][1] if I.ops[0][0] == 'c' else v.size()
        v = self.as_bv(st, v, w)
        outs = []
        cur = [st]
        groups = {}
        for c, tgt in I.x[1]:
            groups.setdefault(tgt, []).append(c[2])
        for tgt, cs in groups.items():
            nxt = []
            if len(cs) > 2 and sorted(cs) == list(range(min(cs), max(cs) + 1)):
                cond = z3.And(z3.UGE(v, min(cs)), z3.ULE(v, max(cs)))
            else:
                cond = z3.Or([v == BV(c, w) for c in cs])
            for s in cur:
                for s2, t in self.branch(s, cond):
                    if t:
                        s2.note(f"{f.fn.name}:{I.line} case {cs[0]}" + (f"..{cs[-1]}" if len(cs) > 1 else ""))
                        r = self.goto(s2, tgt)
                        outs += [s2] if r is None else r
                    else:
                        nxt.append(s2)
            cur = nxt
        for s in cur:
            r = self.goto(s, I.x[0])
            outs += [s] if r is None else r
        return outs

    def i_ret(self, st, f, I):
        v = self.opnd(st, I.ops[0]) if I.ops else None
        for ctx in f.active.values():
            if ctx.dry:
                return []
        for oid in f.allocas:
            o = st.wobj(oid)
            o.alive = False
        st.frames.pop()
        if f.ret_reg is None:
            return [(st, v)]
        caller = st.frames[-1]
        if v is not None:
            caller.regs[f.ret_reg] = v
        caller.ip += 1
        return [st]

    def i_unreachable(self, st, f, I):
        self.check(st, False, f"{f.fn.name}: unreachable code is not reached", "memory")
        return []

    def i_alloca(self, st, f, I):
        n = self.opnd(st, I.ops[0])
        k = cval(n)
        size = I.x[0] * k if k is not None else None
        if size is None:
            w = n.size()
            nn = z3.ZeroExt(64 - w, n) if w < 64 else n
            o = st.new_obj(I.name or "vla", simp(nn * I.x[0]), 'stack')
            o.elems = []
            o.stride = I.x[0]
        else:
            o = st.new_obj(I.name or f"tmp{I.res}", size, 'stack')
            t = I.x[1]
            if t[0] == 'array' and t[3][0] == 'struct' and t[1] > 1:
                o.elems = []
                o.stride = t[2]
        o.meta['local'] = f.fn.name
        st.wset = st.wset
        f.allocas.append(o.id)
        self.setr(st, I, Ptr(o.id))
        if self.prog.alloca_hook:
            self.prog.alloca_hook(self, st, f, I, o)
        return None

    def width(self, t):
        if t[0] == 'i':
            return t[1]
        if t[0] == 'ptr':
            return 64
        if t[0] == 'struct':
            return t[1] * 8
        if t[0] == 'array':
            return t[1] * t[2] * 8
        raise Unsupported(f"type {t}")

    def i_load(self, st, f, I):
        p = self.as_ptr(self.opnd(st, I.ops[0]))
        w = self.width(I.ty)
        n = (w + 7) // 8
        outs = []
        rs = self.load(st, p, n, 'ptr' if I.ty[0] == 'ptr' else 'i', f"{f.fn.name}: load")
        for s, v in rs:
            if isinstance(v, Undef) and I.ty[0] == 'i':
                v = fresh("undef", w)
            elif isinstance(v, z3.BitVecRef) and v.size() != w:
                v = simp(z3.Extract(w - 1, 0, v))
            self.setr(s, I, v)
            outs.append(s)
        return outs

    def i_store(self, st, f, I):
        v = self.opnd(st, I.ops[0])
        p = self.as_ptr(self.opnd(st, I.ops[1]))
        t = I.x[0]
        w = self.width(t)
        n = (w + 7) // 8
        if isinstance(v, z3.BitVecRef) and v.size() != n * 8:
            v = simp(z3.ZeroExt(n * 8 - v.size(), v))
        outs = self.store(st, p, n, v, f"{f.fn.name}: store")
        for s in outs:
            s.frames[-1].ip += 1
        return outs

    def i_gep(self, st, f, I):
        base, off, dyn = I.x
        p = self.as_ptr(self.opnd(st, base))
        terms = []
        for o, sc, w in dyn:
            v = self.opnd(st, o)
            if isinstance(v, Ptr):
                v = self.as_bv(st, v, 64)
            v = self.as_bv(st, v, w)
            if w < 64:
                v = simp(z3.SignExt(64 - w, v))
            terms.append((sc, v))
        self.setr(st, I, p.plus(off, terms))
        return None

    def _norm(self, p):
        return p

    def binop(self, st, I, w):
        a, b = self.opnd(st, I.ops[0]), self.opnd(st, I.ops[1])
        op = I.op
        if isinstance(a, Ptr) and a.obj is None:
            a = a.off.bv()
        if isinstance(b, Ptr) and b.obj is None:
            b = b.off.bv()
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            # tagged pointers and pointer differences
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj != b.obj:
                    raise Unsupported("difference of pointers into different objects")
                r = a.off.add(0, tuple((s, simp(-e)) for s, e in b.off.t))
                return Off(r.c - b.off.c, r.t).bv()
            if op == 'urem' and cval(b) and not cval(b) & (cval(b) - 1):
                op, b = 'and', BV(cval(b) - 1, 64)
            if op in ('add', 'or', 'and', 'sub', 'xor'):
                p, x = (a, b) if isinstance(a, Ptr) else (b, a)
                if isinstance(x, Ptr):
                    raise Unsupported("integer operation on two pointers")
                xv = cval(x)
                if op == 'add':
                    return p.plus(0, ((1, x),))
                if op == 'sub' and p is a:
                    return p.plus(0, ((1, simp(-x)),))
                skew = None if isinstance(p.obj, str) else st.objs[p.obj].meta.get('skew')
                if op == 'and' and skew is not None:        # address of the object modulo any alignment is arbitrary
                    r = simp((skew + p.off.bv()) & x)
                    if xv is not None and xv >> 63:
                        return p.plus(0, ((1, simp(r - skew - p.off.bv())),))
                    return r
                c = p.off.const()
                if op == 'or' and c is not None:
                    if xv is not None and xv < 8:
                        return Ptr(p.obj, c | xv)
                    if c % 8 == 0 and self.valid(st, z3.ULT(x, 8)):
                        return p.plus(0, ((1, x),))
                if op == 'and' and xv is not None and c is not None:
                    if xv < 8:
                        return BV(c & xv, 64)
                    if ((~xv) & ((1 << 64) - 1)) < 8:
                        return Ptr(p.obj, c & s64(xv))
                if op == 'and' and xv is not None and c is None:
                    o = p.off.bv()
                    if xv < 8:
                        return simp(o & xv)
                    if ((~xv) & ((1 << 64) - 1)) < 8:
                        r = simp(o & xv)
                        return Ptr(p.obj, r)
                # alignment of an address that is only known modulo its object
                al = self.prog_align(st, p)
                if op == 'and' and xv is not None and al:
                    if xv < al:
                        return simp(p.off.bv() & x)
                    if ((~xv) & ((1 << 64) - 1)) < al:
                        return Ptr(p.obj, simp(p.off.bv() & x))
            raise Unsupported(f"pointer arithmetic {op} at {self.where(st)}")
        a, b = self.as_bv(st, a, w), self.as_bv(st, b, w)
        if op == 'add':
            return a + b
        if op == 'sub':
            return a - b
        if op == 'mul':
            return a * b
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            self.check(st, b != 0, f"{st.frames[-1].fn.name}: divisor is not zero", "memory")
            if op == 'urem' and cval(b) is None:
                # a mod b with a < 2b needs no division (keeps the queries linear)
                if self.valid(st, z3.ULT(a, b)):
                    return a
                if self.valid(st, z3.ULE(a, b)):
                    return z3.If(a == b, BV(0, w), a)
                if self.valid(st, z3.And(z3.Extract(w - 1, w - 1, b) == 0, z3.ULT(a, b + b))):
                    return z3.If(z3.ULT(a, b), a, a - b)
            if self.defdiv and cval(b) and cval(b) & (cval(b) - 1) and cval(b) >> (w - 1) == 0 and cval(a) is None:
                if op[0] == 'u' or self.valid(st, a >= 0):
                    return self.divmod(st, a, cval(b))[op[1:] == 'rem']
            return {'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda x, y: x / y, 'srem': z3.SRem}[op](a, b)
        if op == 'shl':
            return a << b
        if op == 'lshr':
            return z3.LShR(a, b)
        if op == 'ashr':
            return a >> b
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        raise Unsupported(op)

    def divmod(self, st, a, c):
        """quotient and remainder by their defining equation"""
        a = simp(a)
        w = a.size()
        memo = st.ghost.get('div', {})
        k = (a, c)
        if k not in memo:
            q, r = fresh(f"quot{w}", w), fresh(f"rem{w}", w)
            st.assume(z3.And(a == q * c + r, z3.ULT(r, c), z3.ULE(q, ((1 << w) - 1) // c)))
            # no wrap-around: q * c + r < 2^w
            if ((1 << w) - 1) // c * c + c > 1 << w:
                st.assume(z3.Implies(q == ((1 << w) - 1) // c, z3.ULE(r, ((1 << w) - 1) % c)))
            st.ghost['div'] = dict(memo) | {k: (q, r)}
        return st.ghost['div'][k]

    def prog_align(self, st, p):
        if p.obj is None or isinstance(p.obj, str):
            return 0
        o = st.objs[p.obj]
        return o.meta.get('align', 16)

    def _bin(self, st, f, I):
        r = self.binop(st, I, I.ty[1])
        if not isinstance(r, Ptr):
            r = simp(r)
        self.setr(st, I, r)
        return None
    i_add = i_sub = i_mul = i_udiv = i_sdiv = i_urem = i_srem = i_shl = i_lshr = i_ashr = i_and = i_or = i_xor = _bin

    def i_icmp(self, st, f, I):
        a, b = self.opnd(st, I.ops[0]), self.opnd(st, I.ops[1])
        pr = I.x
        one = lambda c: z3.BoolVal(c) if isinstance(c, bool) else c
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            a, b = self.as_ptr(a), self.as_ptr(b)
            if pr in ('eq', 'ne'):
                c = one(self.ptr_eq(a, b))
                if pr == 'ne':
                    c = z3.Not(c)
            elif a.obj == b.obj:
                x, y = a.off.bv(), b.off.bv()
                c = self._cmp(pr, x, y)
            elif a.obj is None or b.obj is None:
                raise Unsupported("order of a raw address and an object pointer")
            else:
                # order of distinct objects: unknown, but a fixed total order
                k = ('ord', min(a.obj, b.obj), max(a.obj, b.obj))
                d = st.ghost.setdefault('ptr_order', {})
                if k not in d:
                    d[k] = freshb("ptrorder")
                lt = d[k] if a.obj < b.obj else z3.Not(d[k])
                c = lt if pr in ('ult', 'ule') else z3.Not(lt)
        else:
            w = (a if isinstance(a, z3.BitVecRef) else b).size() if (isinstance(a, z3.BitVecRef) or isinstance(b, z3.BitVecRef)) else 64
            a, b = self.as_bv(st, a, w), self.as_bv(st, b, w)
            c = self._cmp(pr, a, b)
        self.setr(st, I, simp(z3.If(c, BV(1, 1), BV(0, 1))))
        return None

    def _cmp(self, pr, a, b):
        return {'eq': lambda: a == b, 'ne': lambda: a != b, 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b),
                'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'sgt': lambda: a > b, 'sge': lambda: a >= b,
                'slt': lambda: a < b, 'sle': lambda: a <= b}[pr]()

    def i_zext(self, st, f, I):
        v = self.as_bv(st, self.opnd(st, I.ops[0]), I.x[1])
        self.setr(st, I, simp(z3.ZeroExt(I.ty[1] - I.x[1], v)))

    def i_sext(self, st, f, I):
        v = self.as_bv(st, self.opnd(st, I.ops[0]), I.x[1])
        self.setr(st, I, simp(z3.SignExt(I.ty[1] - I.x[1], v)))

    def i_trunc(self, st, f, I):
        v = self.opnd(st, I.ops[0])
        if isinstance(v, Ptr) and v.obj is not None:
            c = v.off.const()
            if I.ty[1] <= 3 and c is not None:
                self.setr(st, I, BV(c & ((1 << I.ty[1]) - 1), I.ty[1]))
                return None
            if I.ty[1] == 32 and c is not None:
                # low half of an address: only its alignment bits are known
                hi = fresh("addrlo", 28)
                self.setr(st, I, simp(z3.Concat(hi, BV(c & 15, 4))))
                return None
        v = self.as_bv(st, v, I.x[1])
        self.setr(st, I, simp(z3.Extract(I.ty[1] - 1, 0, v)))

    def i_ptrtoint(self, st, f, I):
        self.setr(st, I, self.opnd(st, I.ops[0]))

    def i_inttoptr(self, st, f, I):
        self.setr(st, I, self.as_ptr(self.opnd(st, I.ops[0])))
    i_bitcast = i_ptrtoint
    i_freeze = i_ptrtoint

    def i_select(self, st, f, I):
        c = self.as_bv(st, self.opnd(st, I.ops[0]), 1)
        a, b = self.opnd(st, I.ops[1]), self.opnd(st, I.ops[2])
        if isinstance(a, z3.BitVecRef) and isinstance(b, z3.BitVecRef):
            self.setr(st, I, simp(z3.If(c == 1, a, b)))
            return None
        outs = []
        for s, t in self.branch(st, c == 1):
            self.setr(s, I, a if t else b)
            outs.append(s)
        return outs

    def i_phi(self, st, f, I):
        # evaluate all phis of the block together
        blk = f.fn.blocks[f.blk]
        vals = []
        k = f.ip
        while blk.ins[k].op == 'phi':
            J = blk.ins[k]
            for o, b in J.x:
                if b == f.prev:
                    vals.append((J, self.opnd(st, o)))
                    break
            else:
                raise Unsupported("phi without matching edge")
            k += 1
        for J, v in vals:
            f.regs[J.res] = v
        f.ip = k
        return None

    def i_fence(self, st, f, I):
        f.ip += 1

    def i_extractvalue(self, st, f, I):
        v = self.opnd(st, I.ops[0])
        for k in I.x:
            v = v[k]
        self.setr(st, I, v)

    def i_insertvalue(self, st, f, I):
        agg = self.opnd(st, I.ops[0])
        v = self.opnd(st, I.ops[1])
        d = dict(agg) if isinstance(agg, dict) else {}
        d[I.x[0]] = v
        self.setr(st, I, d)

    def i_atomicrmw(self, st, f, I):
        p = self.as_ptr(self.opnd(st, I.ops[0]))
        x = self.opnd(st, I.ops[1])
        w = I.ty[1]
        outs = []
        for s, v in self.load(st, p, w // 8, 'i', f"{f.fn.name}: atomic"):
            v = self.as_bv(s, v, w)
            r = {'add': lambda: v + x, 'sub': lambda: v - x, 'xchg': lambda: x, 'and': lambda: v & x,
                 'or': lambda: v | x, 'xor': lambda: v ^ x}.get(I.x)
            if r is None:
                raise Unsupported("atomicrmw " + I.x)
            new = simp(r())
            self.in_atomic = True
            ss = self.store(s, p, w // 8, new, f"{f.fn.name}: atomic")
            self.in_atomic = False
            for s2 in ss:
                if self.after_atomic:
                    self.after_atomic(self, s2, p, v, new)
                s2.ghost['atomics'] = s2.ghost.get('atomics', 0) + 1
                self.setr(s2, I, v)
                outs.append(s2)
        return outs

    def i_cmpxchg(self, st, f, I):
        p = self.as_ptr(self.opnd(st, I.ops[0]))
        e = self.opnd(st, I.ops[1])
        n = self.opnd(st, I.ops[2])
        w = e.size()
        outs = []
        for s, v in self.load(st, p, w // 8, 'i', f"{f.fn.name}: atomic"):
            v = self.as_bv(s, v, w)
            for s2, t in self.branch(s, v == e):
                self.in_atomic = True
                ss = self.store(s2, p, w // 8, n, f"{f.fn.name}: atomic") if t else [s2]
                self.in_atomic = False
                for s3 in ss:
                    if t and self.after_atomic:
                        self.after_atomic(self, s3, p, v, n)
                    s3.ghost['atomics'] = s3.ghost.get('atomics', 0) + 1
                    self.setr(s3, I, {0: v, 1: BV(1 if t else 0, 1)})
                    outs.append(s3)
        return outs

    # --- calls
    def i_call(self, st, f, I):
        co = I.x
        if co[0] == 'asm':
            # compiler barriers only: no operands that produce values
            if I.ty[0] != 'void':
                # used as value laundering
                raise Unsupported("inline asm with a result")
            f.ip += 1
            return None
        args = [self.opnd(st, o) for o in I.ops]
        if co[0] == 'f':
            name = co[1]
            if name.startswith('llvm.'):
                return self.intrinsic(st, f, I, name, args)
            return self.do_call(st, f, I, name, f.fn.module, args)
        p = self.as_ptr(self.opnd(st, co))
        if isinstance(p.obj, str) and p.obj.startswith('fn:'):
            key = p.obj[3:]
            return self.do_call_key(st, f, I, key, args)
        h = self.stubs.get('*indirect')
        if h:
            return self.finish_stub(h(self, st, [p] + args, I), I)
        self.check(st, False, f"{f.fn.name}: call through a valid function pointer", "memory")
        return []

    def do_call(self, st, f, I, name, module, args):
        return self.do_call_key(st, f, I, self.prog.fn_key(name, module), args)

    def do_call_key(self, st, f, I, key, args):
        name = key.split(':')[-1]
        h = self.stubs.get(key) or self.stubs.get(name)
        if h is not None:
            return self.finish_stub(h(self, st, args, I), I)
        fn = self.prog.by_key(key)
        if fn is None:
            raise Unsupported(f"call to {name}, which has neither contract nor body ({self.where(st)})")
        if sum(fr.fn is fn for fr in st.frames) >= 3:
            raise Unsupported(f"recursion in {name}")
        self.push(st, fn, args, I.res)
        return None

    def finish_stub(self, outs, I):
        res = []
        for o in outs:
            if isinstance(o, tuple):
                s, v = o
                if s.frames is None:
                    continue
                self.setr(s, I, v)
                res.append(s)
            else:
                res.append(o)
        return res

    def intrinsic(self, st, f, I, name, args):
        if name.startswith(('llvm.lifetime', 'llvm.assume', 'llvm.donothing', 'llvm.prefetch', 'llvm.va_end')):
            f.ip += 1
            return None
        if name.startswith('llvm.va_start'):
            # System V x86-64 va_list over integer arguments
            np = len(f.fn.params)
            area = st.new_obj("varargs", 176, 'stack')
            for i, a in enumerate(f.regs.get('...', [])):
                if isinstance(a, z3.BitVecRef) and a.size() < 64:
                    a = simp(z3.ZeroExt(64 - a.size(), a))
                area.cells[8 * (np + i)] = (8, a)
            if np + len(f.regs.get('...', [])) > 6:
                raise Unsupported("many variable arguments")
            p = self.as_ptr(args[0])
            o = st.wobj(p.obj)
            b = p.off.const()
            for off, n, v in ((0, 4, BV(8 * np, 32)), (4, 4, BV(48, 32)), (8, 8, NULL), (16, 8, Ptr(area.id))):
                if o.elems is not None:
                    raise Unsupported("va_list array")
                self._cells_store(o.cells, b + off, n, v)
            f.ip += 1
            return None
        if name.startswith('llvm.stacksave'):
            self.setr(st, I, NULL)
            return None
        if name.startswith('llvm.stackrestore'):
            f.ip += 1
            return None
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            outs = self.copy_bytes(st, args[0], args[1], args[2], f"{f.fn.name}: memcpy")
            for s in outs:
                s.frames[-1].ip += 1
            return outs
        if name.startswith('llvm.memset'):
            outs = self.fill(st, args[0], args[1], args[2], f"{f.fn.name}: memset")
            for s in outs:
                s.frames[-1].ip += 1
            return outs
        if name.startswith('llvm.expect'):
            self.setr(st, I, args[0])
            return None
        w = I.ty[1] if I.ty[0] == 'i' else 0
        if name.startswith(('llvm.umul.with.overflow', 'llvm.uadd.with.overflow', 'llvm.usub.with.overflow',
                            'llvm.smul.with.overflow', 'llvm.sadd.with.overflow', 'llvm.ssub.with.overflow')):
            a, b = args
            w = a.size()
            if name[5] == 'u':
                ext = lambda x: z3.ZeroExt(w, x)
            else:
                ext = lambda x: z3.SignExt(w, x)
            k = name[6:9]
            full = {'mul': ext(a) * ext(b), 'add': ext(a) + ext(b), 'sub': ext(a) - ext(b)}[k]
            lo = z3.Extract(w - 1, 0, full)
            if k == 'mul' and name[5] == 'u':
                ov = z3.Not(z3.BVMulNoOverflow(a, b, False))
            else:
                ov = ext(lo) != full
            self.setr(st, I, {0: simp(lo), 1: simp(z3.If(ov, BV(1, 1), BV(0, 1)))})
            return None
        if name.startswith(('llvm.smin', 'llvm.smax', 'llvm.umin', 'llvm.umax')):
            a, b = args
            c = {'smin': a < b, 'smax': a > b, 'umin': z3.ULT(a, b), 'umax': z3.UGT(a, b)}[name[5:9]]
            self.setr(st, I, simp(z3.If(c, a, b)))
            return None
        if name.startswith('llvm.ctlz') or name.startswith('llvm.cttz'):
            a = args[0]
            w = a.size()
            r = BV(w, w)
            rng = range(w) if name.startswith('llvm.ctlz') else range(w - 1, -1, -1)
            for k in rng:
                n = w - 1 - k if name.startswith('llvm.ctlz') else k
                r = z3.If(z3.Extract(k, k, a) == 1, BV(n, w), r)
            self.setr(st, I, simp(r))
            return None
        if name.startswith('llvm.trap'):
            self.check(st, False, f"{f.fn.name}: no trap", "memory")
            return []
        raise Unsupported(f"intrinsic {name}")
