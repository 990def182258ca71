"""C22 stacked streams: dispatch through the class tables, ownership of layers and descriptors"""
import z3
from dv.harness import *
from props.io import *

CIO, KLS, MOD = "_HevTaskCIO", "_HevTaskCIOClass", "hev-task-cio"
OBJ, OKLS = "_HevObject", "_HevObjectClass"
# operation, wrapper, (name, width) of the arguments
OPS = [
    ("read", [("buf", 64), ("count", 64)]),
    ("write", [("buf", 64), ("count", 64)]),
    ("readv", [("iov", 64), ("iovcnt", 32)]),
    ("writev", [("iov", 64), ("iovcnt", 32)]),
    ("read_dgram", [("buf", 64), ("count", 64), ("addr", 64)]),
    ("write_dgram", [("buf", 64), ("count", 64), ("addr", 64)]),
    ("readv_dgram", [("iov", 64), ("iovcnt", 32), ("addr", 64)]),
    ("writev_dgram", [("iov", 64), ("iovcnt", 32), ("addr", 64)]),
    ("ctrl", [("ctrl", 32), ("larg", 64), ("parg", 64)]),
]
SPEC = dict(OPS)
FAM = {1: 110, 2: 16, 10: 28}      # address sizes of AF_UNIX, AF_INET, AF_INET6


class Cx22:
    """a stack under construction: the layer of interest over one any layer whose operations,
    reference handling and destructor are observed"""

    def __init__(self, cx, fname, yld):
        self.cx, self.e, self.fname = cx, cx.eng, fname
        cx.prog.global_symbolic = lambda key: False       # class tables start out empty
        self.io = IO(cx, fname)
        self.yld = yld
        mem_stubs(cx.eng)
        self.expect = None                # (operation, argument values): what the lower layer must see
        self.calls = 0

        def op(name):
            def h(eng, st, args, I):
                low = st.ghost['low']
                eng.check(st, same_ptr(eng, args[0], Ptr(low)), f"{fname}: the next layer is called on itself")
                eng.check(st, bool(self.expect is not None and self.expect[0] == name), f"{fname}: the same operation of the next layer")
                if self.expect is None or self.expect[0] != name:
                    return []
                for (n, w), x, v in zip(SPEC[name], args[1:], self.expect[1]):
                    eng.check(st, eng.as_bv(st, x, w) == v, f"{fname}: the next layer gets the same {n}")
                st.ghost['lowered'] = True
                r = fresh("res", 64)
                if name == "ctrl":
                    st.assume(z3.And(r >= -1, r < 1 << 31))
                else:
                    st.assume(r >= -1)
                self.io.attempt(eng, st, r)
                View(cx, st, low, CIO, module=MOD).set('err', simp(z3.Extract(31, 0, st.ghost['g']['e'])))
                return [(st, r)]
            return h
        for n, _ in OPS:
            self.e.stubs['low_' + n + '!'] = op(n)

        def destruct(eng, st, args, I):
            p = eng.as_ptr(args[0])
            ok = bool(p.obj == st.ghost['low'] and p.off.const() == 0)
            eng.check(st, ok, f"{fname}: the lower layer's destructor gets the lower layer")
            if not ok:
                return []
            eng.check(st, bool(st.objs[p.obj].alive), f"{fname}: the lower layer is destroyed at most once")
            st.wobj(p.obj).alive = False
            return [(st, None)]

        def ref(eng, st, args, I):
            p = eng.as_ptr(args[0])
            ok = bool(p.obj == st.ghost['low'] and p.off.const() == 0)
            eng.check(st, ok, f"{fname}: references of the lower layer are taken on it")
            if not ok:
                return []
            d = cval(eng.as_bv(st, args[1], 32))
            v = View(cx, st, p.obj, OBJ, module=MOD)
            if d == 0 and cval(v.get('ref_count')) == 1:
                return destruct(eng, st, args, I)
            v.set('ref_count', simp(v.get('ref_count') + (1 if d else -1)))
            return [(st, None)]
        self.e.stubs['low_destruct!'] = destruct
        self.e.stubs['low_ref!'] = ref

    def low(self, st):
        """a layer of any kind"""
        d = self.cx.prog.struct(KLS, MOD)
        k = st.new_obj("any class", d[''][1] + 32, 'heap')
        kv = View(self.cx, st, k.id, KLS, module=MOD)
        for n, _ in OPS:
            kv.set(n, Ptr('fn:low_' + n + '!'))
        ov = View(self.cx, st, k.id, OKLS, module=MOD)
        ov.set('name', Ptr(bytes_obj(st, "name", 8).id))
        ov.set('destruct', Ptr('fn:low_destruct!'))
        ov.set('ref', Ptr('fn:low_ref!'))
        ov.set('iface', NULL)
        k.ro = True
        o = st.new_obj("any layer", self.cx.prog.struct(CIO, MOD)[''][1] + 64, 'heap')
        View(self.cx, st, o.id, OBJ, module=MOD).set('klass', Ptr(k.id))
        View(self.cx, st, o.id, OBJ, module=MOD).set('ref_count', 1)
        v = View(self.cx, st, o.id, CIO, module=MOD)
        v.set('err', fresh("low_err", 32))
        v.set('next', NULL)
        st.ghost['low'] = o.id
        st.ghost['owned'] = ()
        return o.id

    def err(self, st, top):
        return View(self.cx, st, top, CIO, module=MOD).get('err')

    def stale(self, st, top):
        """earlier operations left any error"""
        View(self.cx, st, top, CIO, module=MOD).set('err', z3.BitVec("earlier_err", 32))

    def call(self, st, op, args, top):
        """[(state, result)] of the wrapper of an operation on the stack"""
        y = self.io.start(st, self.yld)
        self.stale(st, top)
        return self.e.call(st, self.fname, [Ptr(top)] + args + y)

    def done(self, s, r, top):
        """the wrapper's result against what the serving layer said"""
        self.io.finish(s, r)
        g = s.ghost['g']
        r64 = r if r.size() == 64 else z3.SignExt(64 - r.size(), r)
        self.e.check(s, z3.Implies(z3.And(g['stop'] == 0, r64 < 0), z3.ZeroExt(32, self.err(s, top)) == g['e']),
                     f"{self.fname}: the serving layer's error is visible")

    def refused(self, s, r, top):
        """no layer serves the operation"""
        e, f = self.e, self.fname
        e.cover(s, f"{f} has no layer left")
        r64 = r if r.size() == 64 else z3.SignExt(64 - r.size(), r)
        e.check(s, r64 == -1, f"{f}: fails with no layer left")
        e.check(s, s.ghost['g']['calls'] == 0, f"{f}: nothing is called with no layer left")


def values(st, op):
    vs, args = [], []
    for n, w in SPEC[op]:
        v = z3.BitVec(n, w)
        note_input(st, n, v)
        vs.append(v)
        args.append(v if w == 32 or n in ("count", "larg") else Ptr(None, v))
    return vs, args


def wrapper(op):
    return "hev_task_cio_flush" if op == "ctrl" else "hev_task_cio_" + op


def request(cx, st, op):
    """arguments of the wrapper and what the layers must see"""
    if op == "ctrl":
        return [], [BV(cx.const("HEV_TASK_CIO_CTRL_FLUSH"), 32), BV(0, 64), BV(0, 64)]
    vs, args = values(st, op)
    return args, vs


def nostep(e, fname):
    """no yield, no wait outside the cooperative wrappers"""
    def y(eng, st, args, I):
        eng.check(st, False, f"{fname}: does not give up the CPU")
        return []
    e.stubs['hev_task_yield'] = y


def frame(c, st, oid):
    v = View(c.cx, st, oid, OBJ, module=MOD)
    return v.ptr('klass'), v.get('ref_count'), View(c.cx, st, oid, CIO, module=MOD).ptr('next')


def kept(c, s, oid, f, who):
    e = c.e
    k, n, x = frame(c, s, oid)
    e.check(s, same_ptr(e, k, f[0]), f"{c.fname}: class of {who} unchanged")
    e.check(s, n == f[1], f"{c.fname}: references of {who} unchanged")
    e.check(s, same_ptr(e, x, f[2]), f"{c.fname}: stacking of {who} unchanged")


def p_direct(op):
    """the topmost layer serves the operation itself"""
    def proof(cx):
        for yld in (False, True):
            c = Cx22(cx, wrapper(op), yld)
            st = cx.state()
            low = c.low(st)
            args, vs = request(cx, st, op)
            c.expect = (op, vs)
            f = frame(c, st, low)
            for s, r in c.call(st, op, args, low):
                c.done(s, r, low)
                kept(c, s, low, f, "the layer")
    return Proof("top_" + op, proof, [wrapper(op)])


def base(c, st):
    """a layer that implements nothing, made by the real constructor"""
    o = st.new_obj("plain layer", c.cx.prog.struct(CIO, MOD)[''][1], 'heap', 'zero')
    out = []
    for s, r in c.e.call(st, "hev_task_cio_construct", [Ptr(o.id)]):
        c.e.check(s, r == 0, "construct: reports success")
        v = View(c.cx, s, o.id, OBJ, module=MOD)
        c.e.check(s, v.get('ref_count') == 1, "construct: one reference")
        kp = v.ptr('klass')
        ok = bool(kp.obj is not None and not isinstance(kp.obj, str) and kp.off.const() == 0)
        c.e.check(s, ok, "construct: class is set")
        if ok:
            out.append((s, o.id))
    return out


def push(c, st, top, low):
    out = []
    f = frame(c, st, low)
    g = frame(c, st, top)
    for s, r in c.e.call(st, "hev_task_cio_push", [Ptr(top), Ptr(low)]):
        c.e.check(s, same_ptr(c.e, r, Ptr(top)), "push: returns the upper layer")
        kept(c, s, low, f, "the pushed layer")
        h = frame(c, s, top)
        c.e.check(s, same_ptr(c.e, h[0], g[0]), "push: class unchanged")
        c.e.check(s, h[1] == g[1], "push: references of the upper layer unchanged")
        c.e.check(s, same_ptr(c.e, h[2], Ptr(low)), "push: the layers are stacked")
        out.append(s)
    return out


def passed(c, op, st, top, full=True):
    """an operation the top layer does not implement"""
    for has in (True, False):
        s0 = st.fork()
        low = c.low(s0)
        f = frame(c, s0, low)
        args, vs = request(c.cx, s0, op)
        c.expect = (op, vs) if has else None
        for s1 in (push(c, s0, top, low) if has else [s0]):
            g = frame(c, s1, top)
            for s, r in c.call(s1, op, args, top):
                if has:
                    c.done(s, r, top)
                else:
                    c.refused(s, r, top)
                kept(c, s, low, f, "the lower layer")
                kept(c, s, top, g, "the upper layer")


def p_pass(op):
    """a layer that does not implement the operation hands it down"""
    def proof(cx):
        for yld in (False, True):
            c = Cx22(cx, wrapper(op), yld)
            for s, o in base(c, cx.state()):
                passed(c, op, s, o)
    return Proof("next_" + op, proof, [wrapper(op), "hev_task_cio_next_" + op, "hev_task_cio_construct", "hev_task_cio_class", "hev_task_cio_push"])


def p_getfd(cx):
    """asking for a descriptor reaches the first layer that answers"""
    fn = "hev_task_cio_get_fd"
    GET = cx.const("HEV_TASK_CIO_CTRL_GET_FD")
    c = Cx22(cx, fn, False)
    for st, o in base(c, cx.state()):
        for has in (True, False):
            s0 = st.fork()
            low = c.low(s0)
            d = cx.inp(s0, "dir", 32)
            c.expect = ("ctrl", [BV(GET, 32), z3.SignExt(32, d), BV(0, 64)]) if has else None
            for top in (low, o) if has else (o,):
                s1 = s0.fork()
                for s1 in (push(c, s1, top, low) if has and top != low else [s1]):
                    c.io.start(s1, False)
                    c.stale(s1, top)
                    nostep(cx.eng, fn)
                    for s, r in cx.eng.call(s1, fn, [Ptr(top), d]):
                        g = s.ghost['g']
                        if has:
                            cx.eng.cover(s, "get_fd asks a layer")
                            cx.eng.check(s, g['calls'] == 1, f"{fn}: a layer was asked")
                            cx.eng.check(s, z3.SignExt(32, r) == g['s'], f"{fn}: the layer's answer is returned")
                        else:
                            c.refused(s, r, top)


def p_life(cx):
    """pop, reference and destruction of stacked layers"""
    fn = "hev_task_cio_pop"
    e = cx.eng
    c = Cx22(cx, fn, False)
    for st, o in base(c, cx.state()):
        low = c.low(st)
        # the upper layer is embedded in a user's one: its memory is released by nobody here
        for s0 in push(c, st, o, low):
            rc = cx.inp(s0, "ref_count", 32)
            s0.assume(rc != 0)
            View(cx, s0, o, OBJ, module=MOD).set('ref_count', rc)
            # observe whether the upper layer is destroyed: a class of its own
            for what in ("pop", "unref", "ref"):
                s1 = s0.fork()
                if what == "ref":
                    s1.assume(rc != 0xffffffff)
                f = frame(c, s1, low)

                k = View(cx, s1, frame(c, s1, o)[0].obj, OKLS, module=MOD)
                n = cx.prog.struct(KLS, MOD)[''][1]
                d = s1.new_obj("derived class", n, 'heap')
                for off in range(0, n, 8):
                    e.poke(s1, d.id, off, 8, e.peek(s1, k.oid, off, 8, 'ptr'))
                dv = View(cx, s1, d.id, OKLS, module=MOD)
                real = dv.ptr('destruct')

                def destruct(eng, s, args, I, real=real, o=o, what=what):
                    p = eng.as_ptr(args[0])
                    eng.check(s, bool(p.obj == o and p.off.const() == 0), f"{what}: the destructor gets the layer")
                    eng.check(s, bool(not s.ghost.get('gone')), f"{what}: destroyed at most once")
                    s.ghost['gone'] = True
                    return eng.call(s, real.obj[3:], args)
                e.stubs['top_destruct!'] = destruct
                dv.set('destruct', Ptr('fn:top_destruct!'))
                View(cx, s1, o, OBJ, module=MOD).set('klass', Ptr(d.id))
                call = {"pop": fn, "unref": "hev_object_unref", "ref": "hev_object_ref"}[what]
                for s, r in e.call(s1, call, [Ptr(o)]):
                    gone = bool(s.ghost.get('gone'))
                    alive = bool(s.objs[low].alive)
                    e.check(s, bool(not s.ghost.get('freed')), f"{what}: memory of the layers is not released twice")
                    if gone:
                        e.cover(s, f"{what} destroys")
                        e.check(s, rc == 1, f"{what}: destroys only with the last reference")
                    else:
                        e.cover(s, f"{what} keeps")
                        e.check(s, View(cx, s, o, OBJ, module=MOD).get('ref_count') == (rc + 1 if what == "ref" else rc - 1), f"{what}: counts the reference")
                        if what != "ref":
                            e.check(s, rc != 1, f"{what}: the last reference destroys")
                    if what == "ref":
                        e.check(s, not gone, "ref: destroys nothing")
                    e.check(s, alive == (not (gone and what == "unref")), f"{what}: the lower layer is destroyed exactly when the stack is")
                    if what == "pop":
                        e.check(s, same_ptr(e, r, Ptr(low)), "pop: returns the lower layer")
                        if not gone:
                            e.check(s, bool(View(cx, s, o, CIO, module=MOD).ptr('next').is_null()), "pop: the layer is taken off the stack")
                    if alive:
                        kept(c, s, low, f, "the lower layer")
    # popping a layer with nothing below
    c2 = Cx22(cx, fn, False)
    for st, o in base(c2, cx.state()):
        View(cx, st, o, OBJ, module=MOD).set('ref_count', 2)
        for s, r in e.call(st, fn, [Ptr(o)]):
            e.check(s, bool(e.as_ptr(r).is_null()), "pop: nothing below")


def new(c, st, fn, args, size=None):
    """[(state, stream)] a stream from its constructor; failure releases everything"""
    e = c.e
    out = []
    for s, r in e.call(st, fn, args):
        p = e.as_ptr(r)
        a = s.ghost.get('allocs', ())
        live = [x for x in a if s.objs[x].alive]
        if p.is_null():
            e.cover(s, f"{fn} fails")
            e.check(s, bool(s.ghost.get('alloc_failed')), f"{fn}: fails only for lack of memory")
            e.check(s, bool(not live), f"{fn}: failure leaves nothing behind")
            continue
        e.cover(s, f"{fn} succeeds")
        ok = bool(live == [p.obj] and p.off.const() == 0)
        e.check(s, ok, f"{fn}: the stream is the one block taken")
        if not ok:
            continue
        f = frame(c, s, p.obj)
        e.check(s, f[1] == 1, f"{fn}: one reference")
        e.check(s, bool(f[2].is_null()), f"{fn}: nothing below yet")
        e.check(s, bool(not s.ghost.get('closed')), f"{fn}: descriptors stay open")
        # the class is the same the second time
        s2 = s.fork()
        for s3, r3 in e.call(s2, fn, args):
            q = e.as_ptr(r3)
            if not q.is_null():
                e.check(s3, same_ptr(e, frame(c, s3, q.obj)[0], f[0]), f"{fn}: same class every time")
        out.append((s, p.obj))
    return out


def closer(c):
    def close(eng, st, args, I):
        TRUST.use("close", "releases the descriptor")
        st.ghost['closed'] = tuple(st.ghost.get('closed', ())) + (eng.as_bv(st, args[0], 32),)
        return [(st, fresh("close", 32))]
    c.e.stubs['close'] = close


def death(c, st, top, fds):
    """the last reference goes, with and without a layer below; pop with a layer below"""
    e, fn = c.e, c.fname
    for what in ("unref", "unref alone", "pop", "shared"):
        s0 = st.fork()
        low = c.low(s0)
        for s1 in (push(c, s0, top, low) if what in ("unref", "pop") else [s0]):
            if what == "shared":
                View(c.cx, s1, top, OBJ, module=MOD).set('ref_count', 2)
            for s, r in e.call(s1, "hev_task_cio_pop" if what == "pop" else "hev_object_unref", [Ptr(top)]):
                cl = s.ghost.get('closed', ())
                fr = s.ghost.get('freed', ())
                if what == "shared":
                    e.check(s, bool(not cl and not fr and s.objs[top].alive), f"{fn}: kept while referenced")
                    continue
                e.cover(s, f"{fn} {what}")
                e.check(s, bool(fr == (top,)), f"{fn}: memory released exactly once")
                e.check(s, bool(s.objs[low].alive) == (what != "unref"), f"{fn}: the layer below is destroyed with the stack, and only then")
                for d in fds:
                    n = sum([z3.If(x == d, BV(1, 32), BV(0, 32)) for x in cl], BV(0, 32))
                    e.check(s, n == z3.If(d >= 0, BV(1, 32), BV(0, 32)), f"{fn}: each descriptor closed exactly once")
                for x in cl:
                    e.check(s, z3.Or([x == d for d in fds]) if fds else False, f"{fn}: no other descriptor closed")
                if what == "pop":
                    e.check(s, same_ptr(e, r, Ptr(low)), f"{fn}: pop returns the layer below")


def kernel(c, top, op, vs, fd, alen):
    """system calls that may serve the operation: descriptor, memory, address as given"""
    e, cx, fn = c.e, c.cx, c.fname
    rd = op.startswith("read")
    dgram = op.endswith("dgram")
    z = BV(0, 64)
    addr = vs[2] if dgram else z

    def serve(name, fits, decode):
        def h(eng, st, a, I):
            TRUST.use(name, "returns a result >= -1 and sets errno on -1")
            eng.check(st, bool(fits), f"{fn}: served by a system call of its kind")
            if not fits:
                return []
            got = decode(eng, st, a)
            eng.check(st, eng.as_bv(st, a[0], 32) == fd, f"{fn}: on the stream's descriptor")
            for n, x, v in got:
                eng.check(st, x == v, f"{fn}: kernel gets the caller's {n}")
            r = fresh("res", 64)
            st.assume(r >= -1)
            c.io.attempt(eng, st, r)
            return [(st, r)]
        e.stubs[name] = h
    b = lambda eng, st, x, w=64: eng.as_bv(st, x, w)
    one = op in ("read", "write")
    vec = op in ("readv", "writev")
    flat = op.split("_")[0] in ("read", "write")

    def plain(eng, st, a):
        return [("buffer", b(eng, st, a[1]), vs[0]), ("length", b(eng, st, a[2]), vs[1])]

    def pv(eng, st, a):
        return [("vectors", b(eng, st, a[1]), vs[0]), ("vector count", b(eng, st, a[2], 32), vs[1])]

    def flagged(eng, st, a):
        return plain(eng, st, a) + [("flags", b(eng, st, a[3], 32), BV(0, 32))]

    def named(eng, st, a):
        out = flagged(eng, st, a) + [("address", b(eng, st, a[4]), addr)]
        if rd:
            p = eng.as_ptr(a[5])
            if not dgram:
                return out
            if p.is_null():
                return out + [("address size", alen, z3.If(addr == 0, alen, ~alen))]
            x = eng.load(st, p, 4, 'i', "kernel reads the address size")
            if p.obj is not None:
                eng.store(st, p, 4, fresh("address_size", 32), "kernel writes the address size")
            return out + [("address size", z3.If(addr == 0, alen, x[0][1]), alen)]
        return out + ([("address size", b(eng, st, a[5], 32), alen)] if dgram else [])

    def msg(eng, st, a):
        p = eng.as_ptr(a[1])

        def ld(o, w, want='i'):
            r = eng.load(st, p.plus(o), w, want, "kernel reads the header")
            return eng.as_bv(st, r[0][1], 8 * w)
        return [("address", ld(0, 8, 'ptr'), addr)] + ([("address size", z3.If(addr == 0, alen, ld(8, 4)), alen)] if dgram else []) + \
            [("vectors", ld(16, 8, 'ptr'), vs[0]), ("vector count", ld(24, 8), z3.SignExt(32, vs[1])),
             ("control data", z3.If(ld(40, 8) == 0, z, ld(32, 8, 'ptr')), z), ("flags", b(eng, st, a[2], 32), BV(0, 32))]
    serve("read", one and rd, plain)
    serve("write", one and not rd, plain)
    serve("recv", one and rd, flagged)
    serve("send", one and not rd, flagged)
    serve("readv", vec and rd, pv)
    serve("writev", vec and not rd, pv)
    serve("recvfrom", flat and rd, named)
    serve("sendto", flat and not rd, named)
    serve("recvmsg", not flat and rd, msg)
    serve("sendmsg", not flat and not rd, msg)


def p_fd(op):
    def proof(cx):
        for yld in (False, True):
            c = Cx22(cx, wrapper(op), yld)
            closer(c)
            st = cx.state()
            fi, fo = cx.inp(st, "fdi", 32), cx.inp(st, "fdo", 32)
            for s0, top in new(c, st, "hev_task_cio_fd_new", [fi, fo]):
                if op.endswith("dgram"):
                    passed(c, op, s0, top)
                    continue
                served(c, op, s0, top, fi if op.startswith("read") else fo, None)
    return Proof("fd_" + op, proof, [wrapper(op), "hev_task_cio_fd_new", "hev_task_cio_fd_construct", "hev_task_cio_fd_class"] +
                 ([] if op.endswith("dgram") else ["_hev_task_cio_fd_" + op]))


def served(c, op, s0, top, fd, alen):
    """an operation the stream serves itself, whatever is below"""
    low = c.low(s0)
    c.expect = None
    for s1 in push(c, s0, top, low):
        args, vs = request(c.cx, s1, op)
        if op == "ctrl":
            c.io.start(s1, c.yld)
            c.stale(s1, top)
            for s, r in c.e.call(s1, c.fname, [Ptr(top), Ptr("fn:yielder!") if c.yld else NULL, NULL]):
                c.e.check(s, r == 0, "flush: nothing to flush")
            continue
        kernel(c, top, op, vs, fd, alen)
        f, g = frame(c, s1, top), frame(c, s1, low)
        again = []
        for s, r in c.call(s1, op, args, top):
            c.done(s, r, top)
            kept(c, s, top, f, "the stream")
            kept(c, s, low, g, "the layer below")
            again.append(s)
        # the stream's own record of itself is as before: the next operation works the same way
        for s in again:
            if op.endswith("dgram"):
                for s2, r in c.call(s, op, args, top):
                    c.done(s2, r, top)


def control(c, s0, top, fdof):
    """descriptor queries and unknown requests"""
    e, cx = c.e, c.cx
    low = c.low(s0)
    c.expect = None
    for s1 in push(c, s0, top, low):
        c.io.start(s1, False)
        nostep(e, "hev_task_cio_get_fd")
        d = cx.inp(s1, "dir", 32)
        for s, r in e.call(s1.fork(), "hev_task_cio_get_fd", [Ptr(top), d]):
            e.check(s, r == fdof(d), "get_fd: the descriptor of that direction")


def p_fd_life(cx):
    c = Cx22(cx, "hev_task_cio_fd", False)
    closer(c)
    st = cx.state()
    fi, fo = cx.inp(st, "fdi", 32), cx.inp(st, "fdo", 32)
    st.assume(fi != fo)
    for s0, top in new(c, st, "hev_task_cio_fd_new", [fi, fo]):
        death(c, s0, top, [fi, fo])
        control(c, s0.fork(), top, lambda d: z3.If(d == 0, fi, fo))


def p_sock(op):
    def proof(cx):
        for yld in (False, True):
            c = Cx22(cx, wrapper(op), yld)
            closer(c)
            st = cx.state()
            fam, fd = cx.inp(st, "family", 32), cx.inp(st, "fd", 32)
            alen = BV(0, 32)
            for k, n in FAM.items():
                alen = z3.If(fam == k, BV(n, 32), alen)
            st.assume(z3.Or([fam == k for k in FAM]))
            for s0, top in new(c, st, "hev_task_cio_socket_new", [fam, fd]):
                served(c, op, s0, top, fd, alen)
    return Proof("socket_" + op, proof, [wrapper(op), "hev_task_cio_socket_new", "hev_task_cio_socket_construct", "hev_task_cio_socket_class",
                                         "_hev_task_cio_socket_" + op])


def p_sock_life(cx):
    c = Cx22(cx, "hev_task_cio_socket", False)
    closer(c)
    st = cx.state()
    fam, fd = cx.inp(st, "family", 32), cx.inp(st, "fd", 32)
    for s0, top in new(c, st, "hev_task_cio_socket_new", [fam, fd]):
        death(c, s0, top, [fd])
        control(c, s0.fork(), top, lambda d: fd)


class SumLoop(GLoop):
    """adding up lengths: a variable holds the total of the first k vectors, k another variable"""
    S = None
    n = None

    def cell_candidates(self, eng, st0, cells):
        out = []
        for a, ga in cells.items():
            for b, gb in cells.items():
                if a == b:
                    continue

                def f(e, s, ga=ga, gb=gb):
                    x, k = ga(e, s), gb(e, s)
                    return None if x is None or k is None else x == self.S(k)
                out.append((f"{a} is the total of the first {b}", f))

                def h(e, s, ga=ga, gb=gb):
                    x, k = ga(e, s), gb(e, s)
                    return None if x is None or k is None else x == self.S(self.n) - self.S(simp(k + 1))
                out.append((f"{a} is the total behind {b}", h))

                def p(e, s, ga=ga, gb=gb):
                    x, k = ga(e, s), gb(e, s)
                    return None if x is None or k is None else x == self.S(simp(z3.LShR(k, 4)))
                out.append((f"{a} is the total before the pointer {b}", p))
        for b, gb in cells.items():
            def w(e, s, gb=gb):
                k = gb(e, s)
                return None if k is None else z3.And(k >= 0, k <= z3.If(self.n > 0, self.n, BV(0, 64)))
            out.append((f"{b} counts vectors", w))

            def m(e, s, gb=gb):
                k = gb(e, s)
                return None if k is None else z3.And(k >= -1, k < self.n)
            out.append((f"{b} counts vectors down", m))

            def q(e, s, gb=gb):
                k = gb(e, s)
                return None if k is None else z3.And(k >= 0, k <= self.n << 4, k & 15 == 0)
            out.append((f"{b} is at a vector", q))
        return out


def p_null(op):
    def proof(cx):
        e = cx.eng
        for yld in (False, True):
            c = Cx22(cx, wrapper(op), yld)
            closer(c)
            st = cx.state()
            for s0, top in new(c, st, "hev_task_cio_null_new", []):
                low = c.low(s0)
                c.expect = None
                args, vs = request(cx, s0, op)
                want = BV(0, 64)
                y = c.io.start(s0, yld)
                if op.startswith("write"):
                    if "v" in op:
                        n = z3.SignExt(32, vs[1])
                        S = z3.Function("sum", B(64), B(64))
                        s0.assume(S(BV(0, 64)) == 0)
                        s0.assume(z3.And(vs[1] >= 0, vs[1] <= 1024))
                        u = s0.new_obj("user_iov", simp(n * 16), 'input')
                        ub = z3.Array("iov_base", B(64), B(64))
                        u.soa = {0: ub, 8: FArr(lambda k: S(simp(k + 1)) - S(simp(k)), 64)}
                        u.stride = 16
                        u.ro = True
                        s0.ghost['owned'] = ()
                        args[0] = Ptr(u.id)
                        want = S(n)

                        def pol(eng, s, fn, h, S=S, n=n, io=c.io):
                            l = SumLoop(io)
                            l.S, l.n = S, n
                            return l
                        e.loop_policy = pol
                    else:
                        want = vs[1]
                s0.assume(want >= 0)
                for s1 in push(c, s0, top, low):
                    f, g = frame(c, s1, top), frame(c, s1, low)
                    c.stale(s1, top)
                    for s, r in e.call(s1, c.fname, [Ptr(top)] + args + y):
                        e.cover(s, f"{c.fname} null")
                        r64 = r if r.size() == 64 else z3.SignExt(32, r)
                        e.check(s, r64 == want, f"{c.fname}: the null stream " + ("takes everything" if op.startswith("write") else "has nothing"))
                        kept(c, s, top, f, "the stream")
                        kept(c, s, low, g, "the layer below")
    return Proof("null_" + op, proof, [wrapper(op), "hev_task_cio_null_new", "hev_task_cio_null_construct", "hev_task_cio_null_class", "_hev_task_cio_null_" + op])


def p_null_life(cx):
    c = Cx22(cx, "hev_task_cio_null", False)
    closer(c)
    for s0, top in new(c, cx.state(), "hev_task_cio_null_new", []):
        death(c, s0, top, [])
        control(c, s0.fork(), top, lambda d: BV(-1, 32))


NAMES = [n for n, _ in OPS]
PROOFS = [p_direct(n) for n in NAMES] + [p_pass(n) for n in NAMES] + \
    [Proof("get_fd", p_getfd, ["hev_task_cio_get_fd"]), Proof("life", p_life, ["hev_task_cio_pop", "hev_task_cio_push", "hev_object_ref", "hev_object_unref", "_hev_task_cio_destruct", "hev_task_cio_next_destruct"])] + \
    [p_fd(n) for n in NAMES] + [Proof("fd_life", p_fd_life, ["_hev_task_cio_fd_destruct", "_hev_task_cio_fd_ctrl", "hev_task_cio_fd_new"])] + \
    [p_sock(n) for n in NAMES] + [Proof("socket_life", p_sock_life, ["_hev_task_cio_socket_destruct", "_hev_task_cio_socket_ctrl", "hev_task_cio_socket_new"])] + \
    [p_null(n) for n in NAMES] + [Proof("null_life", p_null_life, ["_hev_task_cio_null_destruct", "_hev_task_cio_null_ctrl", "hev_task_cio_null_new"])]
ASSUMPTIONS = ["a layer pushed under another is owned by it (transferred, as documented): nobody else holds a reference to it when the stack ends",
               "a descriptor stream's two descriptors are different",
               "a lower layer answers as its contract says: at least -1, error recorded in the layer",
               "vectors written to the null stream number at most 1024 and describe less than 2^63 bytes",
               "system calls behave as stated in the trusted base; giving up the CPU may change errno arbitrarily"]
