"""Proof harness helpers shared by all contracts: symbolic inputs and the trusted
contracts of the C library / kernel."""
import z3
from .engine import (Engine, FArr, Ptr, NULL, Off, Lazy, LoopSpec, Unsupported, Budget, State, BV, fresh, freshb, simp,
                     cval, UNDEF, Undef)

SIZE_LIMIT = 1 << 63
B = z3.BitVecSort


def bv(v, w=64):
    return BV(v, w) if isinstance(v, int) else v


class TRUST:
    """names of trusted contracts used in this process (reported in the evidence)"""
    used = {}

    @classmethod
    def use(cls, name, text):
        cls.used[name] = text


class Proof:
    """one verification task: harness over the real function(s)"""

    def __init__(self, name, fn, functions=(), tier="quick"):
        self.name = name
        self.fn = fn
        self.functions = functions
        self.tier = tier


class Cx:
    """context handed to a proof function"""

    def __init__(self, prog, name, eng):
        self.prog = prog
        self.eng = eng
        self.name = name
        eng.prefix = name + ": "
        std_stubs(self)

    def S(self, sname, field, module=None):
        return self.prog.struct(sname, module)[field]

    def const(self, name):
        """value of a constant of the repository's headers"""
        g, _ = self.prog.global_def("dv_const_" + name)
        if g is None or g['init'] is None:
            raise Unsupported(f"constant {name} not found")
        i = g['init']
        if i[0] == 'zero':
            return 0
        v = i[2]
        return v - (1 << 64) if v >> 63 else v

    def state(self):
        st = State()
        st.ghost['globals'] = {}
        st.ghost['inputs'] = {}
        return st

    def inp(self, st, name, w=64):
        v = z3.BitVec(name, w)
        st.ghost['inputs'][name] = v
        return v


def note_input(st, name, v):
    st.ghost['inputs'] = dict(st.ghost['inputs'])
    st.ghost['inputs'][name] = v


class View:
    """typed access to a struct object"""

    def __init__(self, cx, st, oid, sname, base=0, module=None):
        self.cx, self.st, self.oid, self.sname, self.base = cx, st, oid, sname, base
        self.fields = cx.prog.struct(sname, module)
        self.w = {}

    def off(self, f):
        return self.base + self.fields[f][0]

    def get(self, f, want='i'):
        o, n = self.fields[f]
        v = self.cx.eng.peek(self.st, self.oid, self.base + o, n, want)
        w = self.w.get(f)
        if w and isinstance(v, z3.BitVecRef) and v.size() != w:
            v = z3.ZeroExt(w - v.size(), v) if v.size() < w else z3.Extract(w - 1, 0, v)
        return v

    def ptr(self, f):
        return self.get(f, 'ptr')

    def set(self, f, v):
        o, n = self.fields[f]
        if isinstance(v, int):
            v = BV(v, 8 * n)
        x = v
        if isinstance(v, z3.BitVecRef) and v.size() != 8 * n:
            # the field has another width than the contract's value: only representable values
            self.w[f] = v.size()
            if v.size() > 8 * n:
                x = z3.Extract(8 * n - 1, 0, v)
                self.st.assume(z3.ZeroExt(v.size() - 8 * n, x) == v)
                x = simp(x)
            else:
                x = simp(z3.ZeroExt(8 * n - v.size(), v))
        if isinstance(x, Ptr) and n != 8:
            raise Unsupported(f"field {f} is no pointer any more")
        v, x = x, v
        self.cx.eng.poke(self.st, self.oid, self.base + o, n, v)
        return x

    def addr(self, f):
        return Ptr(self.oid, self.base + self.fields[f][0])

    def at(self, st):
        v = View.__new__(View)
        v.__dict__.update(self.__dict__)
        v.st = st
        return v


# ---------------------------------------------------------------- memory contracts

def alloc_stub(kind_name, zero=False, on_new=None, may_fail=True):
    def h(eng, st, args, I):
        TRUST.use(kind_name, "returns NULL or a fresh block of the requested size; a block is smaller than 2^63 bytes")
        size = args[0]
        outs = []
        if may_fail:
            s0 = st.fork()
            s0.ghost['alloc_failed'] = s0.ghost.get('alloc_failed', 0) + 1
            outs.append((s0, NULL))
        k = cval(size)
        if k is None:
            st.assume(z3.ULT(size, SIZE_LIMIT))
            if not eng.feasible(st):
                return outs
        elif k >= SIZE_LIMIT:
            return outs
        o = st.new_obj(f"block{len(st.ghost.get('allocs', ()))}", k if k is not None else size, 'heap',
                       'zero' if zero else 'undef')
        o.meta['base'] = True
        st.ghost['allocs'] = tuple(st.ghost.get('allocs', ())) + (o.id,)
        if on_new:
            on_new(eng, st, o)
        outs.append((st, Ptr(o.id)))
        return outs
    return h


def calloc_stub(kind_name, **kw):
    h = alloc_stub(kind_name, zero=True, **kw)

    def c(eng, st, args, I):
        n, m = args[0], args[1]
        outs = []
        if cval(n) is None or cval(m) is None:
            fits = z3.BVMulNoOverflow(n, m, False)
            f = st.fork()
            f.assume(z3.Not(fits))
            if eng.feasible(f):
                outs.append((f, NULL))
            st.assume(fits)
        return outs + h(eng, st, [z3.simplify(n * m)], I)
    return c


def mem_stubs(eng, **kw):
    """the allocation interface as proved under C15"""
    eng.stubs.update({'hev_malloc': alloc_stub('hev_malloc', **kw), 'hev_malloc0': alloc_stub('hev_malloc0', zero=True, **kw),
                      'hev_calloc': calloc_stub('hev_calloc', **kw), 'hev_free': free_stub('hev_free')})


def free_stub(name, null_ok=True):
    def h(eng, st, args, I):
        p = eng.as_ptr(args[0])
        if p.is_null() and null_ok:
            return [(st, None)]
        who = st.frames[-1].fn.name if st.frames else "?"
        if p.obj is None or isinstance(p.obj, str):
            eng.check(st, False, f"{who}: {name} gets a valid block", "memory")
            return []
        o = st.objs[p.obj]
        eng.check(st, bool(o.alive and o.kind == 'heap' and p.off.const() == 0), f"{who}: {name} releases a live block exactly once", "memory")
        o = st.wobj(p.obj)
        o.alive = False
        st.ghost['freed'] = tuple(st.ghost.get('freed', ())) + (p.obj,)
        return [(st, None)]
    return h


def std_stubs(cx):
    eng = cx.eng

    def errno_loc(eng, st, args, I):
        oid = st.ghost.get('errno')
        if oid is None:
            o = st.new_obj("errno", 4, 'global')
            st.ghost['errno'] = oid = o.id
        return [(st, Ptr(oid))]

    def abort(eng, st, args, I):
        if st.ghost.get('abort_ok'):
            st.ghost['aborted'] = True
            return []
        who = st.frames[-1].fn.name if st.frames else "?"
        eng.check(st, False, f"{who}: abort() is not reached", "memory")
        return []
    eng.stubs['__errno_location'] = errno_loc
    eng.stubs['abort'] = abort


def get_errno(eng, st):
    oid = st.ghost.get('errno')
    if oid is None:
        o = st.new_obj("errno", 4, 'global')
        st.ghost['errno'] = oid = o.id
    return eng.peek(st, oid, 0, 4)


def set_errno(eng, st, v):
    oid = st.ghost.get('errno')
    if oid is None:
        o = st.new_obj("errno", 4, 'global')
        st.ghost['errno'] = oid = o.id
    eng.poke(st, oid, 0, 4, BV(v, 32) if isinstance(v, int) else v)


def bytes_obj(st, name, size, kind='input'):
    o = st.new_obj(name, size, kind)
    o.arr = z3.Array(name + ".bytes", B(64), B(8))
    return o


def same_ptr(eng, a, b):
    r = eng.ptr_eq(eng.as_ptr(a), eng.as_ptr(b))
    return z3.BoolVal(r) if isinstance(r, bool) else r
