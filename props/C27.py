"""C27 starting and stopping the task system"""
import z3
from dv.harness import *

CTX, MOD = "_HevTaskSystemContext", "hev-task-system"


def live(s):
    return [o for o in s.ghost.get('allocs', ()) if s.objs[o].alive]


class Fds:
    """descriptors: every one made is open until closed"""

    def __init__(self, cx):
        self.cx = cx
        TRUST.use("epoll_create, timerfd_create, fcntl, epoll_ctl, close", "return a new descriptor or fail with a negative value; closing releases it")
        e = cx.eng
        e.stubs.update({'epoll_create': self.make('epoll'), 'epoll_create1': self.make('epoll'), 'timerfd_create': self.make('timer'),
                        'close': self.close, 'fcntl': self.fcntl, 'epoll_ctl': self.ctl})

    def make(self, kind):
        def h(eng, st, a, I):
            f = st.fork()
            f.ghost['failed'] = True
            k = len(st.ghost.get('fds', ()))
            fd = fresh(f"{kind}_fd", 32)
            st.assume(z3.And(fd >= 0, fd < 1 << 20))
            for o in st.ghost.get('fds', ()):
                st.assume(o['fd'] != fd)
            st.ghost['fds'] = tuple(st.ghost.get('fds', ())) + (dict(kind=kind, fd=fd, open=True, cloexec=kind == 'timer' and bool(cval(a[1]) & 0o2000000)
                                                                    or I.callee == 'epoll_create1' if hasattr(I, 'callee') else kind == 'timer'),)
            return [(f, BV(-1, 32)), (st, fd)]
        return h

    def find(self, eng, st, fd, what):
        for i, o in enumerate(st.ghost.get('fds', ())):
            if z3.is_true(simp(o['fd'] == fd)):
                eng.check(st, bool(o['open']), f"{what}: an open descriptor")
                return i
        eng.check(st, False, f"{what}: a descriptor of its own")
        return None

    def upd(self, st, i, **kw):
        l = list(st.ghost['fds'])
        l[i] = dict(l[i], **kw)
        st.ghost['fds'] = tuple(l)

    def close(self, eng, st, a, I):
        i = self.find(eng, st, eng.as_bv(st, a[0], 32), "close")
        if i is None:
            return []
        self.upd(st, i, open=False)
        return [(st, BV(0, 32))]

    def fcntl(self, eng, st, a, I):
        i = self.find(eng, st, eng.as_bv(st, a[0], 32), "fcntl")
        if i is None:
            return []
        f = st.fork()
        f.ghost['failed'] = True
        r = fresh("flags", 32)
        st.assume(r >= 0)
        return [(f, BV(-1, 32)), (st, r)]

    def ctl(self, eng, st, a, I):
        ep = self.find(eng, st, eng.as_bv(st, a[0], 32), "register")
        i = self.find(eng, st, eng.as_bv(st, a[2], 32), "register")
        if ep is None or i is None:
            return []
        eng.check(st, bool(st.ghost['fds'][ep]['kind'] == 'epoll'), "register: with the reactor")
        f = st.fork()
        f.ghost['failed'] = True
        ev = eng.as_ptr(a[3])
        d = eng.as_ptr(eng.raw(st, ev.obj, (ev.off.const() or 0) + 4))
        self.upd(st, i, registered=(ep, d, cval(a[1])))
        return [(f, BV(-1, 32)), (st, BV(0, 32))]


def opened(st):
    return [o['kind'] for o in st.ghost.get('fds', ()) if o['open']]


class Sys:
    """thread specific values, allocators, signal state"""

    def __init__(self, cx, whole):
        self.cx = cx
        e = cx.eng
        self.fds = Fds(cx)
        self.mod = cx.prog
        cx.prog.global_symbolic = lambda key: False
        TRUST.use("pthread_once/getspecific/setspecific", "one value per thread and key; setting may fail with a positive error")
        e.stubs.update({'pthread_once': lambda eng, st, a, I: [(st, BV(0, 32))], 'pthread_key_create': lambda eng, st, a, I: [(st, BV(0, 32))],
                        'pthread_getspecific': self.getspec, 'pthread_setspecific': self.setspec,
                        'malloc': alloc_stub('malloc'), 'free': free_stub('free')})
        mem_stubs(e, on_new=self.owner)
        e.stubs['hev_free'] = self.hev_free
        e.stubs.update({'hev_memory_allocator_slice_new': self.slice_new, 'hev_memory_allocator_set_default': self.set_default,
                        'hev_memory_allocator_unref': self.unref, 'hev_memory_allocator_ref': self.ref, 'hev_memory_allocator_default': self.default,
                        'sigemptyset': lambda eng, st, a, I: [(st, BV(0, 32))], 'sigaction': self.sigaction, 'sigaltstack': self.sigaltstack,
                        'hev_task_dns_proxy_destroy': self.dns_destroy})
        TRUST.use("sigaction/sigaltstack", "install the new and report the previous setting, or fail changing nothing")

    def state(self):
        st = self.cx.state()
        st.ghost.update(spec=NULL, alloc='none', refs={}, sig={7: 'old', 11: 'old', 'alt': 'old'}, fds=(), dns=None)
        return st

    # thread value
    def getspec(self, eng, st, a, I):
        return [(st, st.ghost['spec'])]

    def setspec(self, eng, st, a, I):
        p = eng.as_ptr(a[1])
        outs = []
        if not p.is_null():
            f = st.fork()
            f.ghost['failed'] = True
            r = fresh("error", 32)
            f.assume(r > 0)
            outs.append((f, r))
        st.ghost['spec'] = p
        return outs + [(st, BV(0, 32))]

    # allocators: named tokens with a count; 'none' is no default yet (made on demand)
    def obj(self, st, name):
        oids = st.ghost.setdefault('oids', {})
        if name not in oids:
            o = st.new_obj("allocator " + name, 40, 'heap')
            st.ghost['oids'] = dict(oids) | {name: o.id}
        return Ptr(st.ghost['oids'][name])

    def name(self, eng, st, p, what):
        for n, o in st.ghost.get('oids', {}).items():
            if o == p.obj:
                return n
        eng.check(st, False, f"{what}: an allocator")

    def slice_new(self, eng, st, a, I):
        f = st.fork()
        f.ghost['refs'] = dict(f.ghost['refs'])
        p = self.obj(st, 'slice')
        st.ghost['refs'] = dict(st.ghost['refs'], slice=1)
        return [(f, NULL), (st, p)]

    def ondemand(self, st):
        if st.ghost['alloc'] == 'none':
            self.obj(st, 'simple')
            st.ghost['refs'] = dict(st.ghost['refs'], simple=1)
            st.ghost['alloc'] = 'simple'

    def default(self, eng, st, a, I):
        self.ondemand(st)
        return [(st, self.obj(st, st.ghost['alloc']))]

    def set_default(self, eng, st, a, I):
        p = eng.as_ptr(a[0])
        old = st.ghost['alloc']
        if p.is_null():
            st.ghost['alloc'] = 'none'
        else:
            n = self.name(eng, st, p, "set_default")
            if n is None:
                return []
            st.ghost['alloc'] = n
        return [(st, NULL if old == 'none' else self.obj(st, old))]

    def unref(self, eng, st, a, I):
        n = self.name(eng, st, eng.as_ptr(a[0]), "unref")
        if n is None:
            return []
        c = st.ghost['refs'].get(n, 0)
        eng.check(st, bool(c >= 1), "allocator released exactly once")
        eng.check(st, bool(not (c == 1 and st.ghost['alloc'] == n)), "the allocator in use is not released")
        st.ghost['refs'] = dict(st.ghost['refs'], **{n: c - 1})
        return [(st, None)]

    def ref(self, eng, st, a, I):
        n = self.name(eng, st, eng.as_ptr(a[0]), "ref")
        st.ghost['refs'] = dict(st.ghost['refs'], **{n: st.ghost['refs'].get(n, 0) + 1})
        return [(st, a[0])]

    def owner(self, eng, st, o):
        self.ondemand(st)
        o.meta['from'] = st.ghost['alloc']

    def hev_free(self, eng, st, a, I):
        p = eng.as_ptr(a[0])
        if p.obj in st.objs and 'from' in st.objs[p.obj].meta:
            eng.check(st, bool(st.objs[p.obj].meta['from'] == st.ghost['alloc']), "a block goes back to the allocator it came from")
        return free_stub('hev_free')(eng, st, a, I)

    # signals: the saved setting is the tag kept in the buffer's cells
    def tag(self, st, p):
        return st.ghost.get('tags', {}).get((p.obj, p.off.const()))

    def settag(self, st, p, v):
        st.ghost['tags'] = dict(st.ghost.get('tags', {})) | {(p.obj, p.off.const()): v}

    def sig(self, eng, st, key, new, old, what):
        f = st.fork()
        f.ghost['failed'] = True
        if not old.is_null():
            self.settag(st, old, (key, st.ghost['sig'][key]))
        t = self.tag(st, new)
        v = t[1] if t is not None else 'new'
        if t is not None:
            eng.check(st, bool(t[0] == key), f"{what}: the setting saved for it is restored")
            outs = []
        else:
            outs = [(f, BV(-1, 32))]
        st.ghost['sig'] = dict(st.ghost['sig'], **{}) | {key: v}
        return outs + [(st, BV(0, 32))]

    def sigaction(self, eng, st, a, I):
        n = cval(a[0])
        eng.check(st, bool(n in (7, 11)), "sigaction: SIGBUS or SIGSEGV")
        if n not in (7, 11):
            return []
        return self.sig(eng, st, n, eng.as_ptr(a[1]), eng.as_ptr(a[2]), "sigaction")

    def sigaltstack(self, eng, st, a, I):
        new = eng.as_ptr(a[0])
        if self.tag(st, new) is None:
            sp = eng.as_ptr(eng.raw(st, new.obj, new.off.const()))
            n = cval(eng.raw(st, new.obj, new.off.const() + 16))
            ok = sp.obj in st.objs and st.objs[sp.obj].alive and n is not None and sp.off.const() is not None and sp.off.const() + n <= st.objs[sp.obj].size
            eng.check(st, bool(ok), "the signal stack lies in a live block", "memory")
            st.ghost['altobj'] = sp.obj
        return self.sig(eng, st, 'alt', new, eng.as_ptr(a[1]), "sigaltstack")

    def dns_destroy(self, eng, st, a, I):
        p = eng.as_ptr(a[0])
        eng.check(st, bool(st.ghost['dns'] is not None and p.obj == st.ghost['dns'] and st.objs[p.obj].alive), "fini: the DNS proxy is released exactly once")
        st.wobj(p.obj).alive = False
        return [(st, None)]


def clean(e, s, before, what):
    e.check(s, bool(not live(s)), f"{what}: every block is released")
    e.check(s, bool(not opened(s)), f"{what}: every descriptor is closed")
    e.check(s, bool(set(s.ghost['sig'].values()) == {'old'}), f"{what}: signal handlers and signal stack are as before")


def p_init(cx):
    S = Sys(cx, True)
    e = cx.eng
    cs = cx.prog.struct(CTX, MOD)
    for before in ('none', 'user'):
        st = S.state()
        if before == 'user':
            S.obj(st, 'user')
            st.ghost.update(alloc='user', refs={'user': 1})
        for s, r in e.call(st, "hev_task_system_init", []):
            refs = {k: v for k, v in s.ghost['refs'].items() if v}
            for s, ok in e.branch(s, r == 0):
                if not ok:
                    e.cover(s, f"init fails, default allocator {before}")
                    e.check(s, r == -1, "init: -1 on failure")
                    e.check(s, bool(s.ghost['spec'].is_null()), "init: the thread has no context after a failure")
                    clean(e, s, before, "failed init")
                    e.check(s, bool(s.ghost['alloc'] == before and refs == ({'user': 1} if before == 'user' else {})), "failed init: the thread's allocator is as before")
                    e.check(s, bool(s.ghost.get('failed') or s.ghost.get('alloc_failed')), "init: fails only when a step fails")
                    continue
                e.cover(s, f"init succeeds, default allocator {before}")
                c = s.ghost['spec']
                good = c.obj in s.objs and s.objs[c.obj].alive and c.off.const() == 0
                e.check(s, bool(good), "init: the thread gets a context")
                if not good:
                    continue
                e.check(s, bool(not s.ghost.get('failed')), "init: succeeds only when every step does")
                e.check(s, bool(s.ghost['alloc'] != before or before == 'none' and s.ghost['alloc'] == 'simple'), "init: a new default allocator")
                e.check(s, bool(refs == {s.ghost['alloc']: 1}), "init: the former allocator is released, the new one kept")
                v = View(cx, s, c.obj, CTX, module=MOD)
                lv = live(s)
                parts = [v.ptr(k).obj for k in ('timer', 'reactor', 'stack_detector')]
                e.check(s, bool(len(lv) == 4 and set(lv) == set(parts) | {c.obj}), "init: timer, reactor and stack detector belong to the context, nothing else is kept")
                e.check(s, z3.And(v.get('total_task_count') == 0, v.get('running_task_count') == 0), "init: no tasks")
                nul = [v.ptr(k) for k in ('dns_proxy', 'current_task', 'running_tasks.base.root', 'running_tasks.leftmost', 'all_tasks.head', 'all_tasks.tail') if k in cs]
                e.check(s, bool(all(p.is_null() for p in nul) and len(nul) >= 4), "init: empty queues")
                e.check(s, bool(sorted(opened(s)) == ['epoll', 'timer']), "init: one reactor and one timer descriptor")
                e.check(s, bool(s.ghost['sig'] == {7: 'new', 11: 'new', 'alt': 'new'}), "init: stack overflow handling installed")
                e.check(s, bool(s.ghost.get('altobj') == v.ptr('stack_detector').obj), "init: the signal stack belongs to the context")
                tm = [o for o in s.ghost['fds'] if o['kind'] == 'timer'][0]
                reg = tm.get('registered')
                tp = v.ptr('timer')
                e.check(s, bool(reg is not None and reg[1].obj == tp.obj and reg[2] == 1), "init: timer events reach the timer's entity")
                # stopping it again, with or without a DNS proxy
                for dns in (False, True):
                    s2 = s.fork()
                    w = View(cx, s2, c.obj, CTX, module=MOD)
                    if dns:
                        o = s2.new_obj("dns", 64, 'heap')
                        s2.ghost['dns'] = o.id
                        w.set('dns_proxy', Ptr(o.id))
                    for s3, _ in e.call(s2, "hev_task_system_fini", []):
                        e.cover(s3, "fini")
                        e.check(s3, bool(s3.ghost['spec'].is_null()), "fini: the thread has no context")
                        clean(e, s3, before, "fini")
                        e.check(s3, bool(not dns or not s3.objs[s3.ghost['dns']].alive), "fini: the DNS proxy is released exactly once")
                        e.check(s3, bool(s3.ghost['alloc'] == 'none' and not any(s3.ghost['refs'].values())), "fini: the allocator of the system is released")
                # starting twice
                for s2, r2 in e.call(s.fork(), "hev_task_system_init", []):
                    e.cover(s2, "init twice")
                    e.check(s2, r2 == -1, "second init: fails")
                    e.check(s2, bool(s2.ghost['spec'] == c or same_ptr(e, s2.ghost['spec'], c)), "second init: the context stays")
                    e.check(s2, bool(live(s2) == lv and sorted(opened(s2)) == ['epoll', 'timer'] and s2.ghost['sig'] == s.ghost['sig']), "second init: nothing acquired or released")
                    e.check(s2, bool(s2.ghost['alloc'] == s.ghost['alloc'] and {k: x for k, x in s2.ghost['refs'].items() if x} == refs), "second init: the allocator stays")


FUNCS = ["hev_task_system_init", "hev_task_system_fini", "hev_task_io_reactor_new", "hev_task_io_reactor_destroy", "hev_task_timer_new", "hev_task_timer_destroy",
         "hev_task_stack_detector_new", "hev_task_stack_detector_destroy", "hev_task_io_reactor_setup"]
PROOFS = [Proof("system", p_init, FUNCS)]
ASSUMPTIONS = ["restoring a signal setting saved before succeeds; clearing the thread's value succeeds", "hev_task_system_fini is called with a context and without tasks",
               "the DNS proxy's own resources are C28's, allocators C14's and C15's"]
