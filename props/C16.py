"""C16 circular buffer."""
import z3
from dv.harness import *

SN = "_HevCircularBuffer"
MOD = "hev-circular-buffer"


def mk(cx, name="cb"):
    """arbitrary valid buffer"""
    st = cx.state()
    mx = cx.inp(st, "max_size")
    rp = cx.inp(st, "rp")
    use = cx.inp(st, "use_size")
    ref = cx.inp(st, "ref_count", 32)
    d = cx.prog.struct(SN, MOD)
    o = st.new_obj(name, simp(d[''][0] + d['data'][0] + (BV(d[''][1] - d['data'][0], 64) + mx)), 'heap')
    st.assume(z3.And(mx != 0, z3.ULT(mx, SIZE_LIMIT - 64), z3.ULT(rp, mx), z3.ULE(use, mx), ref != 0))
    v = View(cx, st, o.id, SN, module=MOD)
    v.set('max_size', mx)
    v.set('rp', rp)
    v.set('use_size', use)
    v.set('ref_count', ref)
    cx.eng.to_arr(st, o.id, d['data'][0])
    return st, v, mx, rp, use


def wrap(mx, x):
    """x mod mx for x < 2*mx"""
    return z3.If(z3.ULT(x, mx), x, x - mx)


def inv(cx, st, v, mx, what):
    e = cx.eng
    v = v.at(st)
    e.check(st, z3.And(z3.ULT(v.get('rp'), mx), z3.ULE(v.get('use_size'), mx), v.get('max_size') == mx),
            f"{what}: positions stay inside the buffer")


def segs(cx, which):
    """reading / writing: segments describe exactly the used / free bytes in order"""
    e = cx.eng
    st, v, mx, rp, use = mk(cx)
    data = v.off('data')
    iov = st.new_obj("iov", 32, 'input')
    arr0 = st.objs[v.oid].arr
    r = e.call(st, f"hev_circular_buffer_{which}", [Ptr(v.oid), Ptr(iov.id)])
    start = rp if which == "reading" else wrap(mx, rp + use)
    total = use if which == "reading" else mx - use
    for s, ret in r:
        n = cval(ret)
        w = v.at(s)
        if n is None:
            for s2, t in e.branch(s, z3.UGT(ret, 2)):
                e.check(s2, not t, f"{which}: at most two segments")
        e.check(s, z3.ULE(ret, 2), f"{which}: at most two segments")
        e.check(s, z3.And(w.get('rp') == rp, w.get('use_size') == use, w.get('max_size') == mx), f"{which}: changes nothing")
        e.check(s, bool(s.objs[v.oid].arr is arr0), f"{which}: does not touch the bytes")
        for cnt in (0, 1, 2):
            s1 = s.fork()
            s1.assume(ret == cnt)
            if not e.feasible(s1):
                continue
            e.cover(s1, f"{which}: {cnt} segments")
            lens, offs = [], []
            for k in range(cnt):
                b = e.peek(s1, iov.id, 16 * k, 8, 'ptr')
                e.check(s1, bool(b.obj == v.oid), f"{which}: segment {k} lies in the buffer")
                lens.append(e.peek(s1, iov.id, 16 * k + 8, 8))
                offs.append(simp(b.off.bv() - data))
            tot = BV(0, 64)
            for l in lens:
                tot = tot + l
            e.check(s1, tot == total, f"{which}: total length is exact")
            for k in range(cnt):
                e.check(s1, z3.And(lens[k] != 0, z3.ULE(lens[k], mx), z3.ULE(offs[k], mx - lens[k])), f"{which}: segment {k} inside the buffer")
            # byte j of the concatenation is position (start + j) mod max
            j = fresh("j", 64)
            s1.assume(z3.ULT(j, total))
            if cnt and e.feasible(s1):
                a = offs[0] + j if cnt == 1 else z3.If(z3.ULT(j, lens[0]), offs[0] + j, offs[1] + (j - lens[0]))
                e.check(s1, a == wrap(mx, start + j), f"{which}: byte j is at its queue position")
                if which == "writing":
                    u = fresh("u", 64)
                    s1.assume(z3.ULT(u, use))
                    if e.feasible(s1):
                        e.check(s1, a != wrap(mx, rp + u), "writing: free space never overlaps unread bytes")
            if cnt == 0:
                e.check(s1, total == 0, f"{which}: nothing offered only when nothing is there")


def finish(cx, which):
    e = cx.eng
    st, v, mx, rp, use = mk(cx)
    n = cx.inp(st, "size")
    st.assume(z3.ULE(n, use if which == "read" else mx - use))
    arr0 = st.objs[v.oid].arr
    ref0 = v.get('ref_count')
    for s, _ in e.call(st, f"hev_circular_buffer_{which}_finish", [Ptr(v.oid), n]):
        w = v.at(s)
        e.cover(s, f"{which}_finish returns")
        inv(cx, s, v, mx, f"{which}_finish")
        e.check(s, bool(s.objs[v.oid].arr is arr0), f"{which}_finish: does not touch the bytes")
        e.check(s, w.get('ref_count') == ref0, f"{which}_finish: reference count unchanged")
        if which == "read":
            e.check(s, w.get('use_size') == use - n, "read_finish: consumes exactly size bytes")
            # an emptied queue has no bytes, so its position is free (subject to the invariant)
            e.check(s, z3.Implies(n != use, w.get('rp') == wrap(mx, rp + n)), "read_finish: remaining bytes keep their positions")
        else:
            e.check(s, w.get('use_size') == use + n, "write_finish: commits exactly size bytes")
            e.check(s, z3.Or(use == 0, w.get('rp') == rp), "write_finish: unread bytes keep their positions")
            e.check(s, w.get('rp') == rp, "write_finish: committed bytes are the ones offered")


def p_new(cx):
    e = cx.eng
    st = cx.state()
    mx = cx.inp(st, "max_size")
    st.assume(mx != 0)
    e.stubs['hev_malloc'] = alloc_stub('hev_malloc')
    d = cx.prog.struct(SN, MOD)
    for s, r in e.call(st, "hev_circular_buffer_new", [mx]):
        r = e.as_ptr(r)
        if r.is_null():
            e.cover(s, "new fails")
            e.check(s, bool(not [o for o in s.ghost.get('allocs', ()) if s.objs[o].alive]), "new: failure keeps no memory")
            continue
        e.cover(s, "new succeeds")
        e.check(s, bool(r.obj is not None and r.off.const() == 0), "new: returns the block")
        v = View(cx, s, r.obj, SN, module=MOD)
        sz = bv(s.objs[r.obj].size)
        e.check(s, z3.And(z3.ULT(mx, SIZE_LIMIT), z3.UGE(sz, mx), z3.UGE(sz - mx, d['data'][0])), "new: room for max_size bytes")
        e.check(s, z3.And(v.get('use_size') == 0, z3.ULT(v.get('rp'), mx), v.get('max_size') == mx, v.get('ref_count') == 1), "new: empty buffer of the requested size, one reference")


def p_ref(cx):
    e = cx.eng
    st, v, mx, rp, use = mk(cx)
    ref = v.get('ref_count')
    st.assume(ref != 0xffffffff)
    for s, r in e.call(st, "hev_circular_buffer_ref", [Ptr(v.oid)]):
        e.cover(s, "ref returns")
        w = v.at(s)
        e.check(s, same_ptr(e, r, Ptr(v.oid)), "ref: returns the buffer")
        e.check(s, z3.And(w.get('ref_count') == ref + 1, w.get('rp') == rp, w.get('use_size') == use, w.get('max_size') == mx), "ref: adds one reference only")


def p_unref(cx):
    e = cx.eng
    st, v, mx, rp, use = mk(cx)
    ref = v.get('ref_count')
    e.stubs['hev_free'] = free_stub('hev_free')
    for s, _ in e.call(st, "hev_circular_buffer_unref", [Ptr(v.oid)]):
        alive = s.objs[v.oid].alive
        e.cover(s, f"unref {'keeps' if alive else 'frees'}")
        if alive:
            w = v.at(s)
            e.check(s, z3.And(ref != 1, w.get('ref_count') == ref - 1, w.get('rp') == rp, w.get('use_size') == use, w.get('max_size') == mx), "unref: drops one reference and keeps the content")
        else:
            e.check(s, ref == 1, "unref: released only with the last reference")


def p_sizes(cx):
    e = cx.eng
    st, v, mx, rp, use = mk(cx)
    for nm, val in (("max", mx), ("use", use)):
        for s, r in e.call(st.fork(), f"hev_circular_buffer_get_{nm}_size", [Ptr(v.oid)]):
            e.cover(s, f"get_{nm}_size returns")
            w = v.at(s)
            e.check(s, r == val, f"get_{nm}_size is exact")
            e.check(s, z3.And(w.get('rp') == rp, w.get('use_size') == use, w.get('max_size') == mx), f"get_{nm}_size changes nothing")


PROOFS = [Proof("reading", lambda c: segs(c, "reading"), ["hev_circular_buffer_reading"]),
          Proof("writing", lambda c: segs(c, "writing"), ["hev_circular_buffer_writing"]),
          Proof("read_finish", lambda c: finish(c, "read"), ["hev_circular_buffer_read_finish"]),
          Proof("write_finish", lambda c: finish(c, "write"), ["hev_circular_buffer_write_finish"]),
          Proof("new", p_new, ["hev_circular_buffer_new"]),
          Proof("ref", p_ref, ["hev_circular_buffer_ref"]),
          Proof("unref", p_unref, ["hev_circular_buffer_unref"]),
          Proof("sizes", p_sizes, ["hev_circular_buffer_get_max_size", "hev_circular_buffer_get_use_size"])]
ASSUMPTIONS = ["callers pass a capacity of at least 1 and commit/consume no more than was offered (documented protocol)"]
