"""C25 reference counted objects (plain and atomic)."""
import z3
from dv.harness import *

OBJ, KLS, MOD = "_HevObject", "_HevObjectClass", "hev-object"


def setup(cx, atomic):
    """construct an object through the real constructor, then give it a derived class
    whose destructor is the observer"""
    e = cx.eng
    cx.prog.global_symbolic = lambda key: False       # program start: class tables not filled in yet
    d = cx.prog.struct(OBJ, MOD)
    k = cx.prog.struct(KLS, MOD)

    def destruct(eng, st, args, I):
        p = eng.as_ptr(args[0])
        eng.check(st, bool(p.obj == st.ghost['obj'] and p.off.const() == 0), "destructor gets the object")
        eng.check(st, bool(st.ghost.get('destructed', 0) == 0), "destructed at most once")
        st.ghost['destructed'] = st.ghost.get('destructed', 0) + 1
        st.wobj(st.ghost['obj']).alive = False
        return [(st, None)]
    e.stubs['$destruct'] = destruct
    st = cx.state()
    o = st.new_obj("object", d[''][1] + 64, 'heap')
    st.ghost['obj'] = o.id
    fn = "hev_object_atomic_construct" if atomic else "hev_object_construct"
    outs = []
    for s, r in e.call(st, fn, [Ptr(o.id)]):
        e.check(s, r == 0, "construct: reports success")
        v = View(cx, s, o.id, OBJ, module=MOD)
        e.check(s, v.get('ref_count') == 1, "construct: one reference")
        kp = v.ptr('klass')
        ok = bool(kp.obj is not None and not isinstance(kp.obj, str) and kp.off.const() == 0)
        e.check(s, ok, "construct: class is set")
        if not ok:
            continue
        name = e.peek(s, kp.obj, k['name'][0], 8, 'ptr')
        e.check(s, bool(not name.is_null()), "construct: class is filled in")
        kc = View(cx, s, kp.obj, KLS, module=MOD)
        c2 = s.new_obj("derived class", k[''][1] + 32, 'heap')
        k2 = View(cx, s, c2.id, KLS, module=MOD)
        for f in ('name', 'ref', 'iface'):
            k2.set(f, kc.ptr(f))
        k2.set('destruct', Ptr('fn:$destruct'))
        # constructing a second object of the class must give the same table
        s2 = s.fork()
        o2 = s2.new_obj("object2", d[''][1] + 64, 'heap')
        for s3, r3 in e.call(s2, fn, [Ptr(o2.id)]):
            w = View(cx, s3, o2.id, OBJ, module=MOD)
            e.check(s3, same_ptr(e, w.ptr('klass'), kp), "construct: same class every time")
            kk = View(cx, s3, kp.obj, KLS, module=MOD)
            for f in ('name', 'ref', 'destruct'):
                e.check(s3, same_ptr(e, kk.ptr(f), kc.at(s).ptr(f)), "construct: class table is stable")
        v.set('klass', Ptr(c2.id))
        outs.append((s, v))
    return outs


def p_plain(cx):
    e = cx.eng
    for st, v in setup(cx, False):
        rc = cx.inp(st, "ref_count", 32)
        v.set('ref_count', rc)
        kp = v.ptr('klass')
        s1 = st.fork()
        s1.assume(z3.And(rc != 0, rc != 0xffffffff))
        for s, _ in e.call(s1, "hev_object_ref", [Ptr(v.oid)]):
            e.cover(s, "ref")
            w = v.at(s)
            e.check(s, bool(not s.ghost.get('destructed')), "ref: does not destruct")
            e.check(s, w.get('ref_count') == rc + 1, "ref: one more reference")
            e.check(s, same_ptr(e, w.ptr('klass'), kp), "ref: class unchanged")
        s1 = st.fork()
        s1.assume(rc != 0)
        for s, _ in e.call(s1, "hev_object_unref", [Ptr(v.oid)]):
            if s.ghost.get('destructed'):
                e.cover(s, "unref destructs")
                e.check(s, rc == 1, "unref: destructed only with the last reference")
            else:
                e.cover(s, "unref keeps")
                w = v.at(s)
                e.check(s, z3.And(rc != 1, w.get('ref_count') == rc - 1), "unref: one reference less, kept")
                e.check(s, same_ptr(e, w.ptr('klass'), kp), "unref: class unchanged")


def p_atomic(cx):
    """other threads hold references too: the count changes under our feet at any time (rely: it
    covers every reference held, so it is at least our own one); our own updates are guaranteed to be
    single atomic steps"""
    e = cx.eng
    TRUST.use("atomic read-modify-write", "x86-64 atomics are sequentially consistent; memory ordering arguments are not interpreted")
    d = cx.prog.struct(OBJ, MOD)
    off = d['ref_count'][0]

    def on_store(eng, st, o, of, n, v):
        if o.id == st.ghost.get('obj') and not st.ghost.get('setup') and (of.const() is None or of.const() < off + 4 and off < of.const() + (n if isinstance(n, int) else 4)):
            eng.check(st, bool(eng.in_atomic), "the shared count is changed only by atomic operations")

    def after(eng, st, p, old, new):
        if p.obj != st.ghost['obj'] or p.off.const() != off:
            return
        st.ghost['steps'] = st.ghost.get('steps', ()) + ((old, new),)
        if st.ghost['mode'] == 'unref':
            # from here on the object belongs to the others, unless ours was the last reference
            for s, last in [(st, None)]:
                st.ghost['old'] = old
    for st, v in setup(cx, True):
        e.on_store, e.after_atomic = on_store, after
        st.ghost['shared'] = {(v.oid, off): (4, lambda x: z3.And(z3.UGE(x, 1), z3.ULT(x, 0xffffffff)))}
        s1 = st.fork()
        s1.ghost['mode'] = 'ref'
        for s, _ in e.call(s1, "hev_object_ref", [Ptr(v.oid)]):
            e.cover(s, "ref")
            e.check(s, bool(not s.ghost.get('destructed')), "atomic ref: does not destruct")
            chg = s.ghost.get('steps', ())
            e.check(s, bool(len(chg) == 1), "atomic ref: exactly one update")
            for old, new in chg[:1]:
                e.check(s, new == old + 1, "atomic ref: adds one")
        s1 = st.fork()
        s1.ghost['mode'] = 'unref'
        e.touch_after = None

        def after2(eng, st, p, old, new):
            after(eng, st, p, old, new)
            if p.obj == st.ghost['obj'] and len(st.ghost.get('steps', ())) == 1:
                # the count is ours alone only if this was the last reference; otherwise any further
                # access races with the destruction by another thread
                st.ghost['shared'] = {}
                st.ghost['released'] = True
        e.after_atomic = after2
        for s, _ in e.call(s1, "hev_object_unref", [Ptr(v.oid)]):
            chg = s.ghost.get('steps', ())
            e.check(s, bool(len(chg) == 1), "atomic unref: exactly one update")
            for old, new in chg[:1]:
                e.check(s, new == old - 1, "atomic unref: drops one")
                if s.ghost.get('destructed'):
                    e.cover(s, "unref destructs")
                    e.check(s, old == 1, "atomic unref: destructed only by the thread that dropped the last reference")
                else:
                    e.cover(s, "unref keeps")
                    e.check(s, old != 1, "atomic unref: the thread dropping the last reference destructs")
                    e.check(s, bool(not s.ghost.get('late')), "atomic unref: object not touched after giving up the reference")


def p_touch(cx):
    """as above, with every access after the release recorded"""
    e = cx.eng
    d = cx.prog.struct(OBJ, MOD)
    off = d['ref_count'][0]

    def after(eng, st, p, old, new):
        if p.obj == st.ghost['obj'] and not st.ghost.get('released'):
            st.ghost['released'] = old
    real = e.load

    def load(st, p, n, want, what="load"):
        if p.obj is not None and p.obj == st.ghost.get('obj') and st.ghost.get('released') is not None and not st.ghost.get('destructed'):
            e.check(st, st.ghost['released'] == 1, "atomic unref: object not touched after giving up a reference that was not the last")
        return real(st, p, n, want, what)
    for st, v in setup(cx, True):
        e.load = load
        e.after_atomic = after
        st.ghost['shared'] = {(v.oid, off): (4, lambda x: z3.And(z3.UGE(x, 1), z3.ULT(x, 0xffffffff)))}
        for s, _ in e.call(st, "hev_object_unref", [Ptr(v.oid)]):
            e.cover(s, "unref returns")
            e.check(s, bool(s.ghost.get('released') is not None), "atomic unref: releases")


PROOFS = [Proof("plain", p_plain, ["hev_object_construct", "hev_object_class", "hev_object_ref", "hev_object_unref"]),
          Proof("atomic", p_atomic, ["hev_object_atomic_construct", "hev_object_atomic_class", "_hev_object_atomic_ref"]),
          Proof("touch", p_touch, ["_hev_object_atomic_ref"])]
ASSUMPTIONS = ["callers release only references they hold; fewer than 2^32-1 references exist",
               "class tables are filled in before several threads use them (hev_object_class itself is not synchronised)"]
