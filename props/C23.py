"""C23 buffered stream: bytes pass in order, exactly once.

The circular buffers are taken by their contract (decided under C16): `reading` shows the bytes held,
oldest first, `writing` the free room behind them, each in one or two segments; the two finish calls
drop and add.  Ghost history: bytes held, bytes copied or handed on but not yet dropped or added,
bytes exchanged with the caller.  The caller's vectors lie 2^48 apart, so that an address tells the
vector and the position in it."""
import z3
from dv.harness import *
from props.io import *
from props.C22 import Cx22, CIO, KLS, MOD, OBJ, OPS, SPEC, frame, kept, new, closer, push, same_ptr, wrapper, passed

LIM = 1 << 46


class User:
    """the caller's memory: any number of vectors"""

    def __init__(self, cx, st, single):
        self.single = single
        self.base = z3.BitVec("buf", 64)
        note_input(st, "buf", self.base)
        # addresses of user space that are no other object's
        st.assume(z3.And(z3.UGT(self.base, 1 << 32), z3.ULT(self.base, 1 << 33)))
        if single:
            self.total = z3.BitVec("count", 64)
            note_input(st, "count", self.total)
            st.assume(z3.ULT(self.total, LIM))
            self.args = [Ptr(None, self.base), self.total]
            return
        self.n = n = cx.inp(st, "iovcnt", 32)
        st.assume(z3.And(n >= 0, n <= 1024))
        ul, su = z3.Array("iov_len", B(16), B(46)), z3.Function("sum", B(16), B(47))
        self.ul = lambda k: z3.ZeroExt(18, ul[simp(z3.Extract(15, 0, k))])
        self.S = lambda k: z3.ZeroExt(17, su(simp(z3.Extract(15, 0, k))))
        self.N = z3.SignExt(32, n)
        self.total = self.S(self.N)
        st.assume(self.S(BV(0, 64)) == 0)
        st.assume(z3.ULT(self.total, LIM))
        if cx.eng.bounded is not None:       # no invariants: the sums the unrolled loops meet
            for k in range(cx.eng.bounded + 2):
                self.ax(st, BV(k, 64))
        u = st.new_obj("user_iov", simp(self.N * 16), 'input')
        u.soa = {0: FArr(lambda k: self.base + self.S(k) + (k << 48), 64), 8: FArr(self.ul, 64)}
        u.stride = 16
        u.ro = True
        self.u = u.id
        self.args = [Ptr(u.id), n]

    def ax(self, st, k):
        k = simp(k)
        seen = st.ghost.get('ax', frozenset())
        if k in seen:
            return
        st.ghost['ax'] = seen | {k}
        st.assume(z3.Implies(z3.ULT(k, self.N), z3.And(self.S(k + 1) == self.S(k) + self.ul(k), self.S(k + 1) <= self.total)))
        st.assume(z3.Implies(z3.ULE(k, self.N), self.S(k) <= self.total))

    def at(self, eng, st, p, pos, n, what):
        """address p of n bytes is the caller's position pos"""
        d = simp(eng.as_bv(st, p, 64) - self.base)
        if self.single:
            eng.check(st, d == pos, f"{what}: at the caller's next byte")
            eng.check(st, z3.And(z3.ULE(n, self.total), pos <= self.total - n), f"{what}: inside the caller's memory")
            return
        i, x = simp(z3.LShR(d, 48)), simp(d & ((1 << 48) - 1))
        self.ax(st, i)
        self.ax(st, i - 1)
        eng.check(st, z3.ULT(i, self.N), f"{what}: in one of the caller's vectors")
        eng.check(st, x == pos, f"{what}: at the caller's next byte")
        eng.check(st, z3.And(self.S(i) <= pos, z3.ULE(n, self.ul(i)), pos + n <= self.S(i + 1)), f"{what}: inside the caller's vector")


class VLoop(GLoop):
    """going through the caller's vectors"""
    user = None

    def cell_candidates(self, eng, st0, cells):
        u, out = self.user, []
        for a, ga in cells.items():
            def most(e, s, ga=ga):
                i = ga(e, s)
                return None if i is None else z3.And(i >= 0, i <= u.N)
            out.append((f"{a} counts vectors", most))

            def at(e, s, ga=ga):
                i = ga(e, s)
                return None if i is None else z3.And(i >= 0, i <= u.N << 4, i & 15 == 0)
            out.append((f"{a} is at a vector", at))

            def got(e, s, ga=ga):
                x = ga(e, s)
                return None if x is None else x == s.ghost['g']['got']
            out.append((f"{a} is what was exchanged", got))
            for nm, f in (("", lambda i: i), (" (pointer)", lambda i: z3.LShR(i, 4))):
                def psum(e, s, ga=ga, f=f):
                    i = ga(e, s)
                    if i is None:
                        return None
                    i = simp(f(i))
                    u.ax(s, i)
                    u.ax(s, i - 1)
                    return s.ghost['g']['got'] == u.S(i)
                out.append((f"exchanged the first {a}{nm}", psum))
        return out


class C(Cx22):
    def __init__(self, cx, fname):
        super().__init__(cx, fname, False)
        e = self.e
        closer(self)
        self.user = None
        self.mode = None
        base_copy = type(e).copy_bytes

        def copy(st, dst, src, n, what="memcpy"):
            d, s = e.as_ptr(dst), e.as_ptr(src)
            segs = st.ghost.get('segs', {})
            if d.obj not in segs and s.obj not in segs:
                return base_copy(e, st, dst, src, n, what)
            nn = BV(n, 64) if isinstance(n, int) else n
            self.copied(st, d, s, nn, segs)
            return [st]
        e.copy_bytes = copy
        for n in ("new", "unref", "ref", "get_max_size", "get_use_size", "reading", "read_finish", "writing", "write_finish"):
            e.stubs["hev_circular_buffer_" + n] = getattr(self, "cb_" + n)
        TRUST.use("hev_circular_buffer_*", "as decided under C16")
        for n in ("read", "write", "readv", "writev", "ctrl"):
            self.e.stubs['low_' + n + '!'] = self.lower(n, self.e.stubs['low_' + n + '!'])

    # ---- circular buffers by contract
    def buf(self, eng, st, p):
        p = eng.as_ptr(p)
        b = st.ghost.get('bufs', {}).get(p.obj)
        eng.check(st, bool(b and p.off.const() == 0 and st.objs[p.obj].alive), f"{self.fname}: works on a live buffer")
        return b if b and st.objs[p.obj].alive else None

    def cb_new(self, eng, st, a, I):
        f = st.fork()
        f.ghost['alloc_failed'] = 1
        b = st.new_obj("buffer", 64, 'input')
        nb = dict(st.ghost.get('bufs', {}))
        nb[b.id] = (f"b{len(nb)}_", eng.as_bv(st, a[0], 64))
        st.ghost['bufs'] = nb
        self.io.g(st, **{nb[b.id][0] + "use": 0, nb[b.id][0] + "pend": 0, nb[b.id][0] + "fin": 0})
        return [(f, NULL), (st, Ptr(b.id))]

    def cb_ref(self, eng, st, a, I):
        eng.check(st, False, f"{self.fname}: buffers are not shared")
        return []

    def cb_unref(self, eng, st, a, I):
        b = self.buf(eng, st, a[0])
        if b is None:
            return []
        st.wobj(eng.as_ptr(a[0]).obj).alive = False
        return [(st, None)]

    def cb_get_max_size(self, eng, st, a, I):
        b = self.buf(eng, st, a[0])
        return [(st, b[1])] if b else []

    def cb_get_use_size(self, eng, st, a, I):
        b = self.buf(eng, st, a[0])
        return [(st, st.ghost['g'][b[0] + "use"])] if b else []

    def segments(self, eng, st, a, kind, b, total):
        """one or two segments of that total length into the caller's vectors"""
        out = []
        for s, none in eng.branch(st, total == 0):
            if none:
                out.append((s, BV(0, 32)))
                continue
            s2 = s.fork()
            l0 = fresh("seg", 64)
            s2.assume(z3.And(z3.UGT(l0, 0), z3.ULT(l0, total)))
            for s, lens in ((s, [total]), (s2, [l0, simp(total - l0)])):
                if len(lens) == 2 and not eng.feasible(s):
                    continue
                segs = dict(s.ghost.get('segs', {}))
                pos = BV(0, 64)
                cur = [s]
                for k, l in enumerate(lens):
                    o = s.new_obj(f"{kind} segment {k}", l, 'input')
                    segs[o.id] = (kind, b, pos, l, k, len(lens))
                    pos = simp(pos + l)
                    p = eng.as_ptr(a[1])
                    cur = [s2_ for s1 in cur for s2_ in eng.store(s1, p.plus(16 * k), 8, Ptr(o.id), "segment")]
                    cur = [s2_ for s1 in cur for s2_ in eng.store(s1, p.plus(16 * k + 8), 8, l, "segment")]
                for s1 in cur:
                    s1.ghost['segs'] = segs
                    out.append((s1, BV(len(lens), 32)))
        return out

    def cb_reading(self, eng, st, a, I):
        b = self.buf(eng, st, a[0])
        return self.segments(eng, st, a, 'held', b, st.ghost['g'][b[0] + "use"]) if b else []

    def cb_writing(self, eng, st, a, I):
        b = self.buf(eng, st, a[0])
        return self.segments(eng, st, a, 'free', b, simp(b[1] - st.ghost['g'][b[0] + "use"])) if b else []

    def stale_segs(self, st, kind, b):
        for k, v in st.ghost.get('segs', {}).items():
            if v[0] == kind and v[1][0] == b[0]:
                st.wobj(k).alive = False

    def cb_read_finish(self, eng, st, a, I):
        b = self.buf(eng, st, a[0])
        if not b:
            return []
        g = st.ghost['g']
        n = eng.as_bv(st, a[1], 64)
        eng.check(st, n == g[b[0] + "fin"], f"{self.fname}: drops exactly the bytes passed on")
        eng.check(st, bool(self.mode != 'peek'), f"{self.fname}: peeking consumes nothing")
        self.io.g(st, **{b[0] + "use": g[b[0] + "use"] - n, b[0] + "fin": 0})
        self.stale_segs(st, 'held', b)
        return [(st, None)]

    def cb_write_finish(self, eng, st, a, I):
        b = self.buf(eng, st, a[0])
        if not b:
            return []
        g = st.ghost['g']
        n = eng.as_bv(st, a[1], 64)
        eng.check(st, n == g[b[0] + "pend"], f"{self.fname}: adds exactly the bytes put behind")
        self.io.g(st, **{b[0] + "use": g[b[0] + "use"] + n, b[0] + "pend": 0})
        self.stale_segs(st, 'free', b)
        return [(st, None)]

    # ---- bytes between the caller and a buffer
    def copied(self, st, d, s, n, segs):
        e, f = self.e, self.fname
        g = st.ghost['g']
        if s.obj in segs and d.obj not in segs:
            (kind, b, pos, l, _, _), off, cell, want, user = segs[s.obj], s.off.bv(), "fin", "held", d
            live, side = st.objs[s.obj].alive, 'r'
        elif d.obj in segs and s.obj not in segs:
            (kind, b, pos, l, _, _), off, cell, want, user = segs[d.obj], d.off.bv(), "pend", "free", s
            live, side = st.objs[d.obj].alive, 'w'
        else:
            raise Unsupported("copy inside the buffer")
        e.check(st, bool(live and kind == want and b[0] == self.side.get(side)), f"{f}: copies bytes held to the caller, or the caller's into free room")
        if not (live and kind == want and b[0] == self.side.get(side)):
            return
        e.check(st, z3.And(z3.ULE(off, l), z3.ULE(n, l - off)), f"{f}: copies inside the segment")
        k = b[0] + cell
        e.check(st, z3.Implies(n != 0, pos + off == g[k]), f"{f}: next byte of the buffer in order")
        # a copy of nothing needs no valid place
        if e.feasible(st, n != 0):
            s2 = st.fork()
            s2.assume(n != 0)
            self.user.at(e, s2, user, g['got'], n, f)
        self.io.g(st, **{k: g[k] + n, 'got': g['got'] + n})

    # ---- the layer below
    def result(self, eng, st, limit):
        r, er = fresh("res", 64), fresh("err", 32)
        st.assume(z3.And(r >= -1, r <= limit, er > 0, er < 4096))
        View(self.cx, st, st.ghost['low'], CIO, module=MOD).set('err', simp(z3.If(r < 0, er, fresh("err", 32))))
        self.io.g(st, low=r, lowe=simp(z3.ZeroExt(32, er)), asked=1)
        return r

    def lower(self, name, plain):
        def h(eng, st, a, I):
            f = self.fname
            if self.expect is not None:
                return plain(eng, st, a, I)
            eng.check(st, same_ptr(eng, a[0], Ptr(st.ghost['low'])), f"{f}: the next layer is called on itself")
            g = st.ghost['g']
            kind = name[0]
            if name == "ctrl":
                eng.check(st, bool(self.mode == 'flush'), f"{f}: passes on only what it was asked")
                w = self.side.get('w')
                if w:
                    eng.check(st, z3.And(g[w + "use"] == 0, g[w + "fin"] == 0, g[w + "pend"] == 0), f"{f}: the flush goes on only with nothing left in the buffer")
                for (n, wd), x, v in zip(SPEC[name], a[1:], self.ctl):
                    eng.check(st, eng.as_bv(st, x, wd) == v, f"{f}: the next layer gets the same {n}")
                self.io.g(st, ctl=1)
                return [(st, self.result(eng, st, BV(0, 64)))]
            b = self.side.get(kind)
            eng.check(st, bool(b and self.mode in {'r': ('read', 'peek'), 'w': ('write', 'flush')}[kind]), f"{f}: only transfers of its own direction")
            if not b:
                return []
            if name in ("read", "write"):
                n = eng.as_bv(st, a[2], 64)
                eng.check(st, z3.And(g[b + "use"] == 0, g[b + "fin"] == 0, g[b + "pend"] == 0), f"{f}: bypasses the buffer only when it is empty")
                eng.check(st, bool(self.mode in ('read', 'write')), f"{f}: peeking and flushing touch no memory of the caller")
                if self.mode not in ('read', 'write'):
                    return []
                self.user.at(eng, st, a[1], g['got'], n, f)
                r = self.result(eng, st, n)
                self.io.g(st, got=g['got'] + z3.If(r > 0, r, BV(0, 64)))
                return [(st, r)]
            # the vectors are the segments of the free room (reading) or of the bytes held (writing), in order
            cnt = cval(eng.as_bv(st, a[2], 32))
            want = 'free' if kind == 'r' else 'held'
            cell = b + ("pend" if kind == 'r' else "fin")
            eng.check(st, bool(cnt is not None and cnt > 0), f"{f}: asks the next layer only with room or bytes")
            if not cnt:
                return []
            eng.check(st, g[cell] == 0, f"{f}: earlier bytes are accounted for first")
            total, segs, full = BV(0, 64), st.ghost.get('segs', {}), True
            for k in range(cnt):
                p = eng.as_ptr(a[1]).plus(16 * k)
                q = eng.as_ptr(eng.load(st, p, 8, 'ptr', "vector")[0][1])
                l = eng.load(st, p.plus(8), 8, 'i', "vector")[0][1]
                v = segs.get(q.obj)
                ok = bool(v and v[0] == want and v[1][0] == b and st.objs[q.obj].alive and v[4] == k and q.off.const() == 0)
                eng.check(st, ok, f"{f}: the next layer gets the buffer's segments in order")
                if not ok:
                    return []
                eng.check(st, z3.ULE(l, v[3]), f"{f}: vector inside the segment")
                if k + 1 < cnt:
                    eng.check(st, l == v[3], f"{f}: vectors without gap")
                total = simp(total + l)
            r = self.result(eng, st, total)
            self.io.g(st, **{cell: z3.If(r > 0, r, BV(0, 64))})
            return [(st, r)]
        return h


def stream(cx, fname, which, single=True):
    """[(C, state, stream)]: a buffered stream over any layer, its buffers in any state"""
    c = C(cx, fname)
    st = cx.state()
    c.io.start(st, False, got=BV(0, 64), low=BV(0, 64), lowe=BV(0, 64), asked=BV(0, 64), ctl=BV(0, 64))
    rs, ws = cx.inp(st, "rsize", 64), cx.inp(st, "wsize", 64)
    for v, on in ((rs, 'r' in which), (ws, 'w' in which)):
        st.assume(z3.And(v != 0, z3.ULT(v, LIM)) if on else v == 0)
    out = []
    for s, top in new(c, st, "hev_task_cio_buffer_new", [rs, ws]):
        b = s.ghost.get('bufs', {})
        if len(b) != len(which):
            continue        # no memory for a buffer: as without
        names = {}
        for k, (nm, size) in b.items():
            # which one is which: by size
            i = len(names)
            d = which[i]
            cx.eng.check(s, size == (rs if d == 'r' else ws), "new: the buffers have the sizes asked for")
            names[d] = nm
            u = cx.inp(s, d + "_use", 64)
            s.assume(z3.ULE(u, size))
            c.io.g(s, **{nm + "use": u})
        low = c.low(s)
        for s1 in push(c, s, top, low):
            s1.ghost['names'] = names
            out.append((s1, top))
    return c, out


def method(c, s, top, op):
    """the operation of the stream's class"""
    k = frame(c, s, top)[0]
    p = View(c.cx, s, k.obj, KLS, module=MOD).ptr(op)
    c.e.check(s, bool(isinstance(p.obj, str) and p.obj.startswith('fn:')), f"{c.fname}: the class has the operation")
    return p.obj[3:]


def invariants(c, s, top, low, f, g):
    e, io = c.e, s.ghost['g']
    kept(c, s, top, f, "the stream")
    kept(c, s, low, g, "the layer below")
    for k, (nm, size) in s.ghost.get('bufs', {}).items():
        e.check(s, bool(s.objs[k].alive), f"{c.fname}: the buffer stays")
        e.check(s, io[nm + "pend"] == 0, f"{c.fname}: every byte put behind is added")
        e.check(s, z3.ULE(io[nm + "use"], size), f"{c.fname}: no more than the buffer holds")
        if c.mode != 'peek':
            e.check(s, io[nm + "fin"] == 0, f"{c.fname}: every byte passed on is dropped")


def p_move(op, which):
    """read, readv, write, writev"""
    rd = op[0] == 'r'
    fn = "_hev_task_cio_buffer_" + op

    def proof(cx):
        e = cx.eng
        single = not op.endswith("v")
        c, sts = stream(cx, fn, which, single)
        for st, top in sts:
            c.side = st.ghost['names']
            c.mode = 'read' if rd else 'write'
            u = c.user = User(cx, st, single)
            low = st.ghost['low']
            f, g = frame(c, st, top), frame(c, st, low)

            def pol(eng, s, fun, h):
                if single or len(s.frames) > 1:
                    return None
                l = VLoop(c.io)
                l.user = u
                return l
            e.loop_policy = pol
            sizes = {nm: size for nm, size in st.ghost['bufs'].values()}
            c.io.cands = [(f"{nm} fits", lambda e_, s, nm=nm, size=size: z3.ULE(s.ghost['g'][nm + "use"], size)) for nm, size in sizes.items()] + \
                [("not beyond the end", lambda e_, s: z3.And(s.ghost['g']['got'] >= 0, s.ghost['g']['got'] <= u.total))]
            c.stale(st, top)
            for s, r in e.call(st, method(c, st, top, op), [Ptr(top)] + u.args):
                q = s.ghost['g']
                invariants(c, s, top, low, f, g)
                for s2, some in e.branch(s, q['got'] != 0):
                    if some:
                        e.cover(s2, f"{fn} transfers")
                        e.check(s2, r == q['got'], f"{fn}: returns the number of bytes exchanged")
                        continue
                    for s3, none in e.branch(s2, u.total == 0):
                        if none:
                            e.check(s3, z3.Or(r == 0, z3.And(q['asked'] != 0, r < 0)), f"{fn}: nothing wanted, nothing done")
                            continue
                        e.cover(s3, f"{fn} transfers nothing")
                        err = z3.ZeroExt(32, c.err(s3, top))
                        e.check(s3, q['asked'] != 0, f"{fn}: nothing only when the next layer was asked")
                        if rd:
                            e.check(s3, q['low'] <= 0, f"{fn}: nothing only when the next layer has nothing")
                            e.check(s3, r == q['low'], f"{fn}: the next layer's answer")
                            e.check(s3, z3.Implies(r < 0, err == q['lowe']), f"{fn}: the next layer's error")
                        else:
                            e.check(s3, r < 0, f"{fn}: nothing accepted is no success")
                            e.check(s3, err == z3.If(q['low'] < 0, q['lowe'], BV(EAGAIN, 64)), f"{fn}: the next layer's error, or would block")
    return Proof(f"{op}_{which}", proof, [fn, "hev_task_cio_buffer_new", "hev_task_cio_buffer_construct", "hev_task_cio_buffer_class"] + (["_hev_task_cio_buffer_flush"] if not rd else []))


def p_none(op, which):
    """without a buffer of that direction: handed down as it is"""
    fn = wrapper(op)

    def proof(cx):
        c = C(cx, fn)
        st = cx.state()
        c.io.start(st, False, got=BV(0, 64), low=BV(0, 64), lowe=BV(0, 64), asked=BV(0, 64), ctl=BV(0, 64))
        rs, ws = cx.inp(st, "rsize", 64), cx.inp(st, "wsize", 64)
        for v, on in ((rs, 'r' in which), (ws, 'w' in which)):
            st.assume(v != 0 if on else v == 0)
        for s, top in new(c, st, "hev_task_cio_buffer_new", [rs, ws]):
            if not s.ghost.get('bufs'):
                passed(c, op, s, top)
    return Proof(f"{op}_unbuffered", proof, [fn, "hev_task_cio_buffer_new"])


def p_flush(which):
    fn = "hev_task_cio_buffer flush"

    def proof(cx):
        e = cx.eng
        FLUSH = cx.const("HEV_TASK_CIO_CTRL_FLUSH")
        c, sts = stream(cx, fn, which)
        for st, top in sts:
            c.side, c.mode = st.ghost['names'], 'flush'
            e.loop_policy = lambda eng, s, fun, h: None
            low = st.ghost['low']
            f, g = frame(c, st, top), frame(c, st, low)
            la, pa = cx.inp(st, "larg", 64), cx.inp(st, "parg", 64)
            c.ctl = [BV(FLUSH, 32), la, pa]
            c.stale(st, top)
            w = c.side.get('w')
            for s, r in e.call(st, method(c, st, top, "ctrl"), [Ptr(top), BV(FLUSH, 32), la, Ptr(None, pa)]):
                q = s.ghost['g']
                invariants(c, s, top, low, f, g)
                err = z3.ZeroExt(32, c.err(s, top))
                for s2, on in e.branch(s, q['ctl'] != 0):
                    if on:
                        e.cover(s2, f"{fn} done")
                        e.check(s2, r == q['low'], f"{fn}: the next layer's answer")
                        e.check(s2, z3.Implies(r < 0, err == q['lowe']), f"{fn}: the next layer's error")
                    else:
                        e.cover(s2, f"{fn} not done")
                        e.check(s2, r < 0, f"{fn}: success only with nothing left and the layers below flushed")
                        e.check(s2, err == z3.If(q['low'] < 0, q['lowe'], BV(EAGAIN, 64)), f"{fn}: the next layer's error, or would block")
    return Proof("flush_" + which, proof, ["_hev_task_cio_buffer_ctrl", "_hev_task_cio_buffer_flush"])


def p_peek(vec):
    fn = "hev_task_cio_buffer_peekv" if vec else "hev_task_cio_buffer_peek"

    def proof(cx):
        e = cx.eng
        for which in ("r", "rw", "w"):
            c, sts = stream(cx, fn, which)
            for st, top in sts:
                c.side, c.mode = st.ghost['names'], 'peek'
                e.loop_policy = lambda eng, s, fun, h: None
                low = st.ghost['low']
                f, g = frame(c, st, top), frame(c, st, low)
                u = c.user = User(cx, st, True)
                io = st.new_obj("iov", 32, 'heap')
                args = [Ptr(io.id)] if vec else u.args
                c.stale(st, top)
                for s, r in e.call(st, fn, [Ptr(top)] + args):
                    q = s.ghost['g']
                    invariants(c, s, top, low, f, g)
                    if 'r' not in c.side:
                        e.check(s, r == -1, f"{fn}: fails without a buffer")
                        continue
                    b = c.side['r']
                    e.cover(s, f"{fn} looks")
                    if vec:
                        n = cval(r)
                        if n is None:
                            raise Unsupported("number of segments")
                        tot, segs = BV(0, 64), s.ghost.get('segs', {})
                        for k in range(max(n, 0)):
                            p = e.as_ptr(e.peek(s, io.id, 16 * k, 8, 'ptr'))
                            v = segs.get(p.obj)
                            ok = bool(v and v[0] == 'held' and v[4] == k and s.objs[p.obj].alive and p.off.const() == 0)
                            e.check(s, ok, f"{fn}: shows the bytes held in order")
                            if ok:
                                tot = tot + e.peek(s, io.id, 16 * k + 8, 8)
                        e.check(s, tot == q[b + "use"], f"{fn}: shows all bytes held")
                    else:
                        e.check(s, r == q['got'], f"{fn}: returns the number of bytes shown")
                        e.check(s, q['got'] == q[b + "fin"], f"{fn}: nothing is consumed")
                        e.check(s, z3.Implies(z3.And(r == 0, u.total != 0), z3.And(q[b + "use"] == 0, q['asked'] != 0)), f"{fn}: nothing only when there is nothing")
    return Proof("peekv" if vec else "peek", proof, [fn])


def p_life(cx):
    """the buffers are released with the stream, once"""
    e = cx.eng
    fn = "_hev_task_cio_buffer_destruct"
    for which in ("", "r", "w", "rw"):
        c, sts = stream(cx, fn, which)
        for st, top in sts:
            low = st.ghost['low']
            for what in ("hev_object_unref", "hev_task_cio_pop"):
                for s, r in e.call(st.fork(), what, [Ptr(top)]):
                    e.cover(s, f"{fn} {which}")
                    e.check(s, bool(s.ghost.get('freed') == (top,)), f"{fn}: memory released exactly once")
                    for k in s.ghost.get('bufs', {}):
                        e.check(s, bool(not s.objs[k].alive), f"{fn}: buffers are released")
                    e.check(s, bool(s.objs[low].alive) == (what == "hev_task_cio_pop"), f"{fn}: the layer below goes with the stack, and only then")


PROOFS = [p_move(o, w) for o in ("read", "readv") for w in ("r", "rw")] + [p_move(o, w) for o in ("write", "writev") for w in ("w", "rw")] + \
    [p_none("read", "w"), p_none("readv", "w"), p_none("write", "r"), p_none("writev", "r")] + \
    [p_flush(w) for w in ("", "r", "w", "rw")] + [p_peek(False), p_peek(True), Proof("life", p_life, ["_hev_task_cio_buffer_destruct"])]
ASSUMPTIONS = ["circular buffers as decided under C16", "buffer and request sizes are below 2^46 bytes, vectors number at most 1024",
               "a lower layer answers as its contract says: at least -1 and no more than it was given, error recorded in the layer",
               "behaviour does not depend on where the caller's vectors lie (they are laid out 2^48 apart)",
               "a layer pushed under another is owned by it"]
