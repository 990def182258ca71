"""scatter/gather transfers: the caller's header with any number of vectors.

Vectors are two arrays (base, length) over the index; S(k) is the length of the first k vectors.
A header offered to the kernel must describe exactly the bytes not yet transferred."""
import z3
from dv.harness import *
from props.io import *

HDR = dict(name=(0, 8), namelen=(8, 4), iov=(16, 8), iovlen=(24, 8), control=(32, 8), controllen=(40, 8), flags=(48, 4))
HDR_SIZE = 56
LIM = BV(1 << 47, 64)


class Msg:
    def __init__(self, cx, io, fname, sysname, st, waitall):
        self.cx, self.io, self.fname, self.sys, self.waitall = cx, io, fname, sysname, waitall
        self.recv = sysname == "recvmsg"
        e = cx.eng
        self.n = n = z3.BitVec("iovlen", 64)
        note_input(st, "iovlen", n)
        st.assume(z3.ULE(n, 1024))
        self.ub = z3.Array("iov_base", B(64), B(64))
        ul, su = z3.Array("iov_len", B(16), B(48)), z3.Function("sum", B(16), B(48))
        self.ul = FArr(lambda k: z3.ZeroExt(16, ul[z3.Extract(15, 0, k)]), 64)
        self.S = lambda k: z3.ZeroExt(16, su(simp(z3.Extract(15, 0, k))))
        st.assume(self.S(BV(0, 64)) == 0)
        st.assume(z3.And(self.S(n) >= 0, self.S(n) < LIM))
        if e.bounded is not None:       # no invariants: the sums the unrolled loops meet
            for k in range(e.bounded + 2):
                self.ax(st, BV(k, 64))
        u = st.new_obj("user_iov", simp(n * 16), 'input')
        u.soa = {0: self.ub, 8: self.ul}
        u.stride = 16
        u.ro = True
        m = st.new_obj("msg", HDR_SIZE, 'input')
        m.ro = not self.recv
        self.h = {}
        for k, (o, w) in HDR.items():
            if k == 'iov':
                v = Ptr(u.id)
            elif k == 'iovlen':
                v = n
            else:
                v = z3.BitVec("msg_" + k, 8 * w)
                self.h[k] = v
                v = Ptr(None, v) if k in ('name', 'control') else v
            e.poke(st, m.id, o, w, v)
        self.m, self.u = m.id, u.id
        self.fd, self.flags = z3.BitVec("fd", 32), z3.BitVec("flags", 32)
        for k in ("fd", "flags"):
            note_input(st, k, getattr(self, k))
        st.assume(self.flags & MSG_WAITALL == (MSG_WAITALL if waitall else 0))
        self.args = [self.fd, Ptr(m.id), self.flags]
        io.extra = self

    def ghost(self):
        z = BV(0, 64)
        g = dict(done=z, prev=z)
        if self.recv:       # what the kernel last reported
            g.update({"k_" + k: sx(self.h[k]) for k in ('namelen', 'controllen', 'flags')})
        return g

    def ax(self, st, k):
        """instance of the definition of S at k (and of its monotonicity)"""
        n = self.n
        k = simp(k)
        seen = st.ghost.get('ax', frozenset())
        if k in seen:
            return
        st.ghost['ax'] = seen | {k}
        st.assume(z3.Implies(z3.ULT(k, n), z3.And(self.S(k + 1) == self.S(k) + self.ul[k], self.ul[k] >= 0, self.ul[k] <= self.S(n),
                                                  self.S(k + 1) <= self.S(n))))
        st.assume(z3.Implies(z3.ULE(k, n), z3.And(self.S(k) >= 0, self.S(k) <= self.S(n))))

    def hdr(self, eng, st, p, k):
        o, w = HDR[k]
        r = eng.load(st, p.plus(o), w, 'ptr' if k == 'iov' else 'i', "kernel reads the header")
        if len(r) != 1:
            raise Unsupported("header")
        return r[0][1] if r[0][1] is not UNDEF else fresh("undef", 8 * w)

    def vec(self, st, p):
        """(arrays, start index) the header's vector pointer designates"""
        o = st.objs.get(p.obj)
        if o is None or o.soa is None or p.off.c % 16:
            return None
        q = BV(p.off.c // 16, 64)
        for sc, t in p.off.t:
            if sc != 16:
                return None
            q = q + t
        return o.soa[0], o.soa[8], simp(q)

    def remaining(self, eng, st, p, c, done):
        """formula: vectors (p, c) are the bytes from `done` to the end"""
        v = self.vec(st, p)
        if v is None:
            return None
        ab, al, q = v
        pp = simp(self.n - c)
        x = simp(ab[q] - self.ub[pp])           # bytes of the first vector already done
        k = fresh("k", 64)
        for i in (pp, pp + k):
            self.ax(st, i)
        one = z3.And(z3.ULT(k, c), k != 0)
        return [("number", z3.ULE(c, self.n)),
                ("nothing left", z3.Implies(c == 0, done == self.S(self.n))),
                ("offset", z3.Implies(c != 0, x >= 0)),
                ("offset in the vector", z3.Implies(c != 0, x <= self.ul[pp])),
                ("position", z3.Implies(c != 0, self.S(pp) + x == done)),
                ("first length", z3.Implies(c != 0, al[q] == self.ul[pp] - x)),
                ("addresses", z3.Implies(one, ab[q + k] == self.ub[pp + k])),
                ("lengths", z3.Implies(one, al[q + k] == self.ul[pp + k]))]

    def install(self):
        eng = self.cx.eng

        def hook(eng, st, f, I, o):
            if o.elems is not None and o.stride == 16 and not isinstance(o.size, int):
                o.elems = None
                o.soa = {0: z3.Array("vla_base", B(64), B(64)), 8: z3.Array("vla_len", B(64), B(64))}
                st.ghost['vla'] = o.id
        self.cx.prog.alloca_hook = hook

        def sysc(eng, s, a, I):
            f = self.fname
            TRUST.use(self.sys, "transfers at most the bytes described, from the front; updates name/control lengths and flags of a received message")
            fd, p, fl = eng.as_bv(s, a[0], 32), eng.as_ptr(a[1]), eng.as_bv(s, a[2], 32)
            g = s.ghost['g']
            eng.check(s, z3.And(fd == self.fd, fl == self.flags & ~MSG_WAITALL), f"{f}: every attempt uses the caller's descriptor and flags")
            for k in ('name', 'control'):
                eng.check(s, eng.as_bv(s, self.hdr(eng, s, p, k), 64) == self.h[k], f"{f}: the caller's {k} is used")
            if not self.recv:
                for k in ('namelen', 'controllen'):
                    eng.check(s, self.hdr(eng, s, p, k) == self.h[k], f"{f}: the caller's {k} is used")
            else:
                for k in ('namelen', 'controllen'):
                    eng.check(s, z3.Implies(g['done'] == 0, self.hdr(eng, s, p, k) == self.h[k]), f"{f}: the caller's {k} is used")
            ip, c = self.hdr(eng, s, p, 'iov'), self.hdr(eng, s, p, 'iovlen')
            cond = self.remaining(eng, s, ip, c, g['done'])
            if cond is None:
                raise Unsupported("vectors in an unknown form")
            for nm, c1 in cond:
                eng.check(s, c1, f"{f}: the vectors offered are exactly the bytes not yet transferred ({nm})")
            o = s.objs[ip.obj]
            q = self.vec(s, ip)[2]
            sz = o.size if not isinstance(o.size, int) else BV(o.size, 64)
            eng.check(s, z3.ULE((q + c) * 16, sz), f"{f}: the vectors offered are inside their array", "memory")
            r = fresh("res", 64)
            s.assume(z3.And(r >= -1, r <= self.S(self.n) - g['done']))
            self.io.attempt(eng, s, r)
            if self.recv:
                upd = {}
                self.io.g(s)
                for k in ('namelen', 'controllen', 'flags'):
                    w = HDR[k][1]
                    v = fresh("k_" + k, 8 * w)
                    old = self.hdr(eng, s, p, k)
                    upd[k] = simp(z3.If(r >= 0, v, old))
                    eng.store(s, p.plus(HDR[k][0]), w, upd[k], "kernel writes the header")
                self.io.g(s, **{"k_" + k: sx(v) for k, v in upd.items()})
            pos = z3.If(r > 0, r, BV(0, 64))
            d = fresh("done", 64)
            s.assume(d == g['done'] + pos)
            s.assume(z3.And(d >= g['done'], d <= self.S(self.n)))       # follows from the range of r
            self.io.g(s, prev=z3.If(r > 0, g['done'], g['prev']), done=d)
            return [(s, r)]
        eng.stubs[self.sys] = sysc
        self.cx.eng.loop_policy = lambda e, s, fn, h: MsgLoop(self)

    def mh(self, st):
        """the header the function works on"""
        if st.ghost.get('vla') is None:
            return None
        c = [o for o in st.objs.values() if o.kind == 'stack' and o.size == HDR_SIZE and o.alive]
        return c[0].id if len(c) == 1 else None

    def after(self, s, r):
        if not self.recv:
            return
        e = self.cx.eng
        for s2, ok in e.branch(s, r >= 0):
            if ok:
                for f in ('namelen', 'controllen', 'flags'):
                    e.check(s2, sx(self.hdr(e, s2, Ptr(self.m), f)) == s2.ghost['g']["k_" + f], f"{self.fname}: the caller gets the kernel's {f}")
                e.check(s2, z3.And(eng_same(e, s2, self, 'name'), eng_same(e, s2, self, 'control'), self.hdr(e, s2, Ptr(self.m), 'iovlen') == self.n,
                                   same_ptr(e, self.hdr(e, s2, Ptr(self.m), 'iov'), Ptr(self.u))), f"{self.fname}: the rest of the caller's header is untouched")


def sx(v):
    return v if v.size() == 64 else z3.SignExt(64 - v.size(), v)


def eng_same(e, s, m, k):
    return e.as_bv(s, m.hdr(e, s, Ptr(m.m), k), 64) == m.h[k]


class MsgLoop(GLoop):
    def __init__(self, m):
        super().__init__(m.io)
        self.m = m

    def owned(self, eng, st):
        r = list(super().owned(eng, st))
        self.layout = self.has_layout(eng, st)
        self.copying = st.ghost.get('vla') is not None and not self.layout and st.ghost.get('copied') is None
        if self.layout or self.copying:
            r.append(st.ghost['vla'])
        return r

    def has_layout(self, eng, st):
        m = self.m
        o = m.mh(st)
        if o is None:
            return False
        ip, c = eng.raw(st, o, HDR['iov'][0]), eng.raw(st, o, HDR['iovlen'][0])
        if not isinstance(ip, Ptr) or ip.obj != st.ghost['vla'] or c is None or isinstance(c, Undef):
            return False
        f = m.remaining(eng, st, ip, c, st.ghost['g']['done'])
        return f is not None and eng.valid(st, z3.And([c1 for _, c1 in f] + [m.vec(st, ip)[2] == m.n - c]))

    def cur(self, eng, st):
        o = self.m.mh(st)
        return eng.raw(st, o, HDR['iov'][0]), eng.raw(st, o, HDR['iovlen'][0])

    def copied(self, eng, st):
        """the number of vectors known to be copied: the head's, plus this iteration's"""
        m, j = self.m, st.ghost['copied']
        if eng.valid(st, self.agree(st, j)):
            return simp(j + 1)
        return j

    def agree(self, st, k):
        m, o = self.m, st.objs[st.ghost['vla']]
        return z3.And(o.soa[0][k] == m.ub[k], o.soa[8][k] == m.ul[k])

    def quantities(self, eng, st):
        q = super().quantities(eng, st)
        if self.copying:
            q['copied'] = self.copied(eng, st) if st.ghost.get('copied') is not None else BV(0, 64)
        return q

    def back(self, eng, st):
        super().back(eng, st)
        if self.copying:
            j, k = self.copied(eng, st), fresh("k", 64)
            eng.check(st, z3.Implies(z3.ULT(k, j), self.agree(st, k)), f"{self.m.fname}: vectors copied so far (loop invariant)", "invariant")
        if not self.layout:
            return
        m = self.m
        ip, c = self.cur(eng, st)
        f = m.remaining(eng, st, ip, c, st.ghost['g']['done'])
        if f is None:
            raise Unsupported("vectors in an unknown form")
        # by cases: still in the same vector or a later one
        for s2, _ in eng.branch(st.fork(), c == st.ghost['c']):
            for nm, c1 in f:
                eng.check(s2, c1, f"{m.fname}: what is left to transfer (loop invariant, {nm})", "invariant")
        q = m.vec(st, ip)[2]
        if not eng.valid(st, q == m.n - c):
            raise Unsupported("vectors moved in their array")

    def havoc(self, eng, st):
        outs = super().havoc(eng, st)
        m = self.m
        if self.copying:
            for s in outs:
                j = fresh("copied", 64)
                s.ghost['copied'] = j
                o = s.wobj(s.ghost['vla'])
                for f, u in ((0, m.ub), (8, m.ul)):
                    junk = z3.Array(f"junk!{f}_{next_id()}", B(64), B(64))
                    o.soa[f] = FArr(lambda i, junk=junk, u=u, j=j: z3.If(z3.ULT(i, j), u[i], junk[i]), 64)
        if self.layout:
            for s in outs:
                ip, c = self.cur(eng, s)
                # the first vector left is pp, x bytes of it are done
                pp, x = fresh("pp", 64), fresh("x", 64)
                m.ax(s, pp)
                s.assume(z3.And(z3.ULE(pp, m.n), z3.If(pp == m.n, x == 0, z3.And(x >= 0, x <= m.ul[pp]))))
                s.ghost['c'] = simp(m.n - pp)
                eng.poke(s, m.mh(s), HDR['iovlen'][0], 8, s.ghost['c'])
                s.ghost['g'] = dict(s.ghost['g'], done=m.S(pp) + x)
                eng.poke(s, m.mh(s), HDR['iov'][0], 8, Ptr(s.ghost['vla'], Off(0, ((16, pp),))))
                o = s.wobj(s.ghost['vla'])
                jb, jl = z3.Array(f"junk!b{next_id()}", B(64), B(64)), z3.Array(f"junk!l{next_id()}", B(64), B(64))

                def view(junk, first, user, pp=pp):
                    return FArr(lambda i: z3.If(z3.ULT(i, pp), junk[i], z3.If(i == pp, first, user[i])), 64,
                                lambda i: [(z3.ULT(i, pp), junk[i]), (i == pp, first), (z3.UGT(i, pp), user[i])])
                o.soa[0] = view(jb, m.ub[pp] + x, m.ub)
                o.soa[8] = view(jl, m.ul[pp] - x, m.ul)
        return outs

    def candidates(self, eng, st0):
        m = self.m
        out = super().candidates(eng, st0)

        def range_(e, s):
            d = s.ghost['g']['done']
            return z3.And(d >= 0, d <= m.S(m.n))
        out.append(("transferred within the total", range_))
        out.append(("not all transferred", lambda e, s: s.ghost['g']['done'] < m.S(m.n)))
        if m.recv:
            for k in ('namelen', 'controllen', 'flags'):
                out.append((f"nothing received, {k} as given", lambda e, s, k=k: z3.Implies(s.ghost['g']['done'] == 0, s.ghost['g']["k_" + k] == sx(m.h[k]))))
        return out

    def cell_candidates(self, eng, st0, cells):
        m = self.m
        out = []
        vla = st0.ghost.get('vla')
        for a, ga in cells.items():
            def most(e, s, ga=ga):
                i = ga(e, s)
                return None if i is None else z3.ULE(i, m.n)

            out.append((f"{a} at most the number of vectors", most))
            for b, gb in cells.items():
                if a == b:
                    continue

                def psum(e, s, ga=ga, gb=gb):
                    i, x = ga(e, s), gb(e, s)
                    if i is None or x is None:
                        return None
                    m.ax(s, i)
                    m.ax(s, i - 1)
                    return x == m.S(i)
                out.append((f"{b} is the length of the first {a} vectors", psum))

                def left(e, s, which, ga=ga, gb=gb):
                    i, x = ga(e, s), gb(e, s)
                    o = m.mh(s)
                    if i is None or x is None or o is None:
                        return None
                    c = e.raw(s, o, HDR['iovlen'][0])
                    if not isinstance(c, z3.BitVecRef):
                        return None
                    pp = simp(m.n - c)
                    g = s.ghost['g']
                    for k in (pp, pp + i, pp + i - 1):
                        m.ax(s, k)
                    if which == 0:
                        return z3.And(z3.ULE(i, c), x >= 0)
                    if which == 1:
                        return z3.Implies(i == 0, x == g['done'] - g['prev'])
                    return z3.Implies(i != 0, x + m.S(pp + i) == g['done'])
                for w in range(3):
                    out.append((f"{b} is what the vectors from {a} on received ({w})", lambda e, s, w=w, left=left: left(e, s, w)))
        return out


_n = [0]


def next_id():
    _n[0] += 1
    return _n[0]
