"""C15 allocation API and allocator references."""
import z3
from dv.harness import *

ALC, MOD = "_HevMemoryAllocator", "hev-memory-allocator"


def setup(cx, may_fail=True):
    """a thread whose default allocator is unset or some allocator obeying the allocator contract"""
    e = cx.eng
    st = cx.state()
    d = cx.prog.struct(ALC, MOD)
    TRUST.use("pthread_once/getspecific/setspecific", "one value per thread, NULL until set; setting succeeds")

    def alloc(eng, st, args, I):
        eng.check(st, bool(args[0].obj == st.ghost['alc'] and args[0].off.const() == 0), "allocator gets itself")
        st.ghost['asked'] = tuple(st.ghost.get('asked', ())) + (args[1],)
        return alloc_stub('allocator->alloc', may_fail=True)(eng, st, [args[1]], I)

    def realloc(eng, st, args, I):
        eng.check(st, bool(args[0].obj == st.ghost['alc']), "allocator gets itself")
        st.ghost['re'] = (args[1], args[2])
        r = st.new_obj("moved", 8, 'heap')
        st.ghost['re_ret'] = Ptr(r.id)
        return [(st, Ptr(r.id))]

    def free(eng, st, args, I):
        eng.check(st, bool(args[0].obj == st.ghost['alc']), "allocator gets itself")
        st.ghost['fr'] = tuple(st.ghost.get('fr', ())) + (args[1],)
        return [(st, None)]

    def destroy(eng, st, args, I):
        o = st.objs[args[0].obj] if args[0].obj in st.objs else None
        eng.check(st, bool(o is not None and o.alive and args[0].off.const() == 0), "destroy gets the live allocator")
        st.ghost['destroyed'] = st.ghost.get('destroyed', 0) + 1
        return [(st, None)]
    e.stubs.update({'$alloc': alloc, '$realloc': realloc, '$free': free, '$destroy': destroy})

    def mk(st, name, destroy=True):
        o = st.new_obj(name, d[''][1], 'heap')
        v = View(cx, st, o.id, ALC, module=MOD)
        v.set('alloc', Ptr('fn:$alloc'))
        v.set('realloc', Ptr('fn:$realloc'))
        v.set('free', Ptr('fn:$free'))
        v.set('destroy', Ptr('fn:$destroy') if destroy else NULL)
        return o.id

    def once(eng, st, args, I):
        st.ghost['once'] = True
        return [(st, BV(0, 32))]

    def getspec(eng, st, args, I):
        eng.check(st, bool(st.ghost.get('once')), "thread key exists before it is used")
        return [(st, st.ghost['tls'])]

    def setspec(eng, st, args, I):
        eng.check(st, bool(st.ghost.get('once')), "thread key exists before it is used")
        st.ghost['tls'] = eng.as_ptr(args[1])
        return [(st, BV(0, 32))]

    def simple_new(eng, st, args, I):
        o = mk(st, "default allocator")
        View(cx, st, o, ALC, module=MOD).set('ref_count', 1)
        st.ghost['alc'] = o
        st.ghost['made'] = st.ghost.get('made', 0) + 1
        return [(st, Ptr(o))]
    e.stubs.update({'pthread_once': once, 'pthread_getspecific': getspec, 'pthread_setspecific': setspec,
                    'hev_memory_allocator_simple_new': simple_new, 'pthread_key_create': lambda eng, st, a, I: [(st, BV(0, 32))]})
    s2 = st.fork()
    a = mk(st, "allocator")
    st.ghost['alc'] = a
    st.ghost['tls'] = Ptr(a)
    View(cx, st, a, ALC, module=MOD).set('ref_count', cx.inp(st, "ref_count", 32))
    s2.ghost['tls'] = NULL
    return [("set", st), ("unset", s2)], mk


def p_malloc(cx, fn, zero):
    e = cx.eng
    for nm, st in setup(cx)[0]:
        size = cx.inp(st, "size")
        for s, r in e.call(st, fn, [size]):
            asked = s.ghost.get('asked', ())
            e.check(s, bool(len(asked) == 1), f"{fn}: one request to the default allocator")
            for a in asked[:1]:
                e.check(s, z3.UGE(a, size), f"{fn}: asks for the size given")
            if e.as_ptr(r).is_null():
                e.cover(s, f"{fn} out of memory ({nm})")
                e.check(s, bool(s.ghost.get('alloc_failed')), f"{fn}: NULL only when the allocator has none")
                continue
            e.cover(s, f"{fn} ok ({nm})")
            blk = s.ghost['allocs'][0] if s.ghost.get('allocs') else None
            e.check(s, bool(r.obj == blk and r.off.const() == 0), f"{fn}: hands on the allocator's block")
            if zero and r.obj == blk:
                zero_all(cx, s, blk, size, fn)


def zero_all(cx, s, blk, n, what):
    e = cx.eng
    j = fresh("j", 64)
    s.assume(z3.ULT(j, n))
    if not e.feasible(s):
        return
    o = s.objs[blk]
    if o.arr is None:
        e.to_arr(s, blk)
        o = s.objs[blk]
    e.check(s, z3.Select(o.arr, j) == 0, f"{what}: every byte is zero")


def p_calloc(cx):
    e = cx.eng
    for nm, st in setup(cx)[0]:
        n = cx.inp(st, "nmemb")
        size = cx.inp(st, "size")
        no_ov = z3.BVMulNoOverflow(n, size, False)
        for s, r in e.call(st, "hev_calloc", [n, size]):
            if e.as_ptr(r).is_null():
                e.cover(s, f"calloc NULL ({nm})")
                for s2, z in e.branch(s, z3.Or(n == 0, size == 0)):
                    if not z and not s2.ghost.get('alloc_failed'):
                        e.check(s2, z3.Not(no_ov), "calloc: refuses only what does not fit or has no memory")
                continue
            e.cover(s, f"calloc ok ({nm})")
            blk = s.ghost['allocs'][0] if s.ghost.get('allocs') else None
            ok = bool(r.obj == blk and r.off.const() == 0)
            e.check(s, ok, "calloc: hands on the allocator's block")
            if ok:
                e.check(s, no_ov, "calloc: the product fits")
                e.check(s, z3.UGE(bv(s.objs[blk].size), n * size), "calloc: room for nmemb * size bytes")
                zero_all(cx, s, blk, bv(s.objs[blk].size), "calloc")


def p_pass(cx):
    """realloc and free hand their arguments on unchanged"""
    e = cx.eng
    for nm, st in setup(cx)[0]:
        size = cx.inp(st, "size")
        b = st.new_obj("user block", 16, 'heap')
        for s, r in e.call(st.fork(), "hev_realloc", [Ptr(b.id), size]):
            e.cover(s, f"realloc {nm}")
            q = s.ghost.get('re')
            e.check(s, bool(q is not None), "realloc: asks the default allocator")
            if q:
                e.check(s, same_ptr(e, q[0], Ptr(b.id)), "realloc: block handed on")
                e.check(s, q[1] == size, "realloc: size handed on")
                e.check(s, same_ptr(e, r, s.ghost['re_ret']), "realloc: result handed on")
        for s, _ in e.call(st.fork(), "hev_free", [Ptr(b.id)]):
            e.cover(s, f"free {nm}")
            q = s.ghost.get('fr', ())
            e.check(s, bool(len(q) == 1), "free: asks the default allocator once")
            if q:
                e.check(s, same_ptr(e, q[0], Ptr(b.id)), "free: block handed on")


def p_default(cx):
    e = cx.eng
    states, mk = setup(cx)
    for nm, st in states:
        old = st.ghost['tls']
        for s, r in e.call(st.fork(), "hev_memory_allocator_default", []):
            e.cover(s, f"default {nm}")
            r = e.as_ptr(r)
            if nm == "set":
                e.check(s, same_ptr(e, r, old), "default: the thread's allocator")
            else:
                e.check(s, bool(not r.is_null()), "default: made on first use")
            e.check(s, same_ptr(e, s.ghost['tls'], r), "default: stays the thread's allocator")
            for s2, r2 in e.call(s, "hev_memory_allocator_default", []):
                e.check(s2, same_ptr(e, r2, r), "default: same allocator every time")
        for what in ("allocator", "NULL"):
            s0 = st.fork()
            new = Ptr(mk(s0, "new allocator")) if what == "allocator" else NULL
            for s, r in e.call(s0, "hev_memory_allocator_set_default", [new]):
                e.cover(s, f"set_default {nm} {what}")
                e.check(s, same_ptr(e, r, old), "set_default: hands back the old default")
                e.check(s, same_ptr(e, s.ghost['tls'], new), "set_default: installs the new one")
                e.check(s, bool(not s.ghost.get('destroyed')), "set_default: releases nothing")


def p_ref(cx):
    e = cx.eng
    for dest in (True, False):
        states, mk = setup(cx)
        st = states[0][1]
        o = mk(st, "counted allocator", dest)
        v = View(cx, st, o, ALC, module=MOD)
        rc = cx.inp(st, "rc", 32)
        v.set('ref_count', rc)
        e.stubs['free'] = free_stub('free')
        s1 = st.fork()
        s1.assume(z3.And(rc != 0, rc != 0xffffffff))
        for s, r in e.call(s1, "hev_memory_allocator_ref", [Ptr(o)]):
            e.cover(s, "ref")
            e.check(s, same_ptr(e, r, Ptr(o)), "ref: returns the allocator")
            e.check(s, v.at(s).get('ref_count') == rc + 1, "ref: one more")
        s1 = st.fork()
        s1.assume(rc != 0)
        for s, _ in e.call(s1, "hev_memory_allocator_unref", [Ptr(o)]):
            if s.objs[o].alive:
                e.cover(s, "unref keeps")
                e.check(s, z3.And(rc != 1, v.at(s).get('ref_count') == rc - 1), "unref: one less, kept")
                e.check(s, bool(not s.ghost.get('destroyed')), "unref: not destroyed while referenced")
            else:
                e.cover(s, f"unref destroys ({'with' if dest else 'without'} destroy method)")
                e.check(s, rc == 1, "unref: destroyed only with the last reference")
                e.check(s, bool(s.ghost.get('destroyed', 0) == (1 if dest else 0)), "unref: destroy method run exactly once")


def p_simple(cx):
    """the malloc-backed allocator obeys the allocator contract"""
    e = cx.eng
    st = cx.state()
    d = cx.prog.struct(ALC, MOD)
    e.stubs['malloc'] = alloc_stub('malloc')
    e.stubs['free'] = free_stub('free')

    def realloc(eng, st, args, I):
        TRUST.use("realloc", "C library contract")
        st.ghost['re'] = (args[0], args[1])
        r = st.new_obj("moved", 8, 'heap')
        st.ghost['re_ret'] = Ptr(r.id)
        return [(st, Ptr(r.id))]
    e.stubs['realloc'] = realloc
    for s, r in e.call(st, "hev_memory_allocator_simple_new", []):
        r = e.as_ptr(r)
        if r.is_null():
            e.cover(s, "simple_new fails")
            e.check(s, bool(s.ghost.get('alloc_failed')), "simple_new: NULL only without memory")
            continue
        e.cover(s, "simple_new ok")
        v = View(cx, s, r.obj, ALC, module=MOD)
        e.check(s, v.get('ref_count') == 1, "simple_new: one reference")
        size = cx.inp(s, "size")
        n0 = len(s.ghost['allocs'])
        for s2, q in e.call(s.fork(), "hev_memory_allocator_alloc", [r, size]):
            q = e.as_ptr(q)
            if q.is_null():
                e.check(s2, bool(s2.ghost.get('alloc_failed')), "simple alloc: NULL only without memory")
            else:
                e.cover(s2, "simple alloc")
                e.check(s2, bool(q.obj in s2.ghost['allocs'][n0:] and q.off.const() == 0), "simple alloc: a fresh block")
                e.check(s2, z3.UGE(bv(s2.objs[q.obj].size), size), "simple alloc: room for the size")
                for s3, _ in e.call(s2, "hev_memory_allocator_free", [r, q]):
                    e.cover(s3, "simple free")
                    e.check(s3, bool(not s3.objs[q.obj].alive), "simple free: released")
        b = s.new_obj("user block", 16, 'heap')
        for s2, q in e.call(s.fork(), "hev_memory_allocator_realloc", [r, Ptr(b.id), size]):
            e.cover(s2, "simple realloc")
            e.check(s2, bool('re' in s2.ghost), "simple realloc: done by the C library")
            if 're' in s2.ghost:
                e.check(s2, z3.And(same_ptr(e, s2.ghost['re'][0], Ptr(b.id)), s2.ghost['re'][1] == size, same_ptr(e, q, s2.ghost['re_ret'])), "simple realloc: block, size and result handed on")
        for s2, _ in e.call(s.fork(), "hev_memory_allocator_unref", [r]):
            e.cover(s2, "simple unref")
            e.check(s2, bool(not s2.objs[r.obj].alive), "simple: released with its last reference")


PROOFS = [Proof("malloc", lambda c: p_malloc(c, "hev_malloc", False), ["hev_malloc"]),
          Proof("malloc0", lambda c: p_malloc(c, "hev_malloc0", True), ["hev_malloc0"]),
          Proof("calloc", p_calloc, ["hev_calloc"]),
          Proof("pass", p_pass, ["hev_realloc", "hev_free", "hev_memory_allocator_realloc", "hev_memory_allocator_free", "hev_memory_allocator_alloc"]),
          Proof("default", p_default, ["hev_memory_allocator_default", "hev_memory_allocator_set_default"]),
          Proof("ref", p_ref, ["hev_memory_allocator_ref", "hev_memory_allocator_unref"]),
          Proof("simple", p_simple, ["hev_memory_allocator_simple_new"])]
ASSUMPTIONS = ["the default allocator object itself can be created (hev_memory_allocator_simple_new succeeds on first use)"]
