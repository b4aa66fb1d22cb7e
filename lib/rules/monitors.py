"""M01: object monitors and the synchronized methods that use them"""
import absint
import prog
from absint import Eval, Model, St, Stop, TooComplex, strip_casts, norm, mkop
from prog import AnalysisBroken, rel
from rules.runtime import A, PTR, U32, simp, evalc2

T1, T2, T3 = 0x1000, 0x2000, 0x3000
MON, HEAD, OBJ = 0x5000, 0x6000, 0x7000
NODE = 0x6100
NAMES = {T1: 'the current thread', T2: 'a second thread', T3: 'a third thread', 0: 'nobody'}


def C(v):
    return ('c', v)


class Mon(Model):
    """memory is a table of objects with numbered addresses; every value is concrete"""
    max_visits = 12
    max_paths = 400
    hooks = ()

    def __init__(self, P, heap, env=(), truth=None, inner=True, spurious=0, prims=()):
        self.P, self.env, self.truth, self.prims = P, list(env), truth or {}, prims
        self.heap = dict(heap)

    def start(self):
        st = St()
        st.x['h'] = dict(self.heap)
        st.x['ev'] = []
        st.x['new'] = 0
        st.x['step'] = 0
        st.x['res'] = []
        return st

    def num(self, t):
        v = evalc2(t, {})
        return v if isinstance(v, int) else None

    def addr(self, t):
        v = self.num(strip_casts(t)) if isinstance(t, tuple) else None
        return v

    def load(self, st, f, i, lv):
        if lv[1] == 'mem':
            b = self.addr(lv[2])
            if b is not None:
                if (b, lv[3]) in st.x['h']:
                    return C(st.x['h'][b, lv[3]])
                if lv[3] in self.truth:
                    return C(self.truth[lv[3]])
                return C(b + 1 + sum(map(ord, lv[3])) * 16) if lv[3] in ('lock', 'systemThread', 'm', 'stateLock', 'classLock', 'classpath') else C(0)
            if lv[3] in self.truth:
                return C(self.truth[lv[3]])
        return None

    def store(self, st, f, i, lv, v):
        if lv[1] == 'mem':
            b = self.addr(lv[2])
            n = self.num(v)
            if b is not None:
                st.x['h'][b, lv[3]] = n if n is not None else '?'
                st.x['ev'].append(('set', b, lv[3], n))
                return True
        return False

    def decide(self, st, t):
        v = evalc2(t, {})
        return v if isinstance(v, int) else None

    def inline(self, g):
        return g.file.endswith(('/machine.h', '/machine.cpp', '/compile.cpp', '/common.h', 'type-declarations.cpp')) and len(g.x) < 700 and g.n.split('::')[-1] not in self.prims

    def outside(self, st):
        """what other threads do while this one waits"""
        k = st.x['step']
        st.x['step'] = k + 1
        if k < len(self.env):
            if self.env[k] is not None:
                self.env[k](st.x['h'])
            return True
        raise Stop('blocked')

    def call(self, ev, st, f, i, fn, a):
        n = f.x[i]
        c = n.get('c', ())
        last = fn.split('::')[-1].split('<')[0]
        L = lambda k: ev.load(f, c[k], st, a[k]) if a[k][0] == 'lv' else a[k]
        N = lambda k: self.num(L(k))
        h, e = st.x['h'], st.x['ev']
        if n['k'] == 'Ctor':
            if 'MonitorResource' in fn and 'Object' not in fn and 'Raw' not in fn:
                e.append(('lock', N(1)))
                st.x['res'].append(('lock', N(1)))
                return ('guard', fn)
            if 'ObjectMonitorResource' in fn or 'RawMonitorResource' in fn:
                return ('guard', fn)
            if 'StateResource' in fn:
                e.append(('state', self.state(N(1))))
                st.x['res'].append(('state', N(1)))
                return ('guard', fn)
            return ('guard', fn)
        hook = self.truth.get('call:' + last)
        if hook:
            r = hook(ev, st, [L(k) if a[k][0] != '?' else a[k] for k in range(len(a))])
            if r is not None:
                return r
        if last in ('expect', 'assertT'):
            v = N(1)
            if last == 'expect' and v == 0:
                raise Stop('abort')
            return ('void',)
        if last in ('cast', 'cast_as', 'as', 'as_object', '__builtin_expect'):
            return L(len(a) - 1 if last != '__builtin_expect' else 0)
        if last.endswith('Barrier'):
            e.append(('barrier', last))
            st.x['bar'] = st.x.get('bar', 0) + 1
            act = self.truth.get('barrier')
            if act and act[0] == st.x['bar']:
                act[1](h)
            return ('void',)
        if last in ('mark', 'stress', 'fprintf', 'vfprintf'):
            return ('void',)
        if last == 'throwNew':
            raise Stop('throw', N(1))
        if last == 'throw_':
            raise Stop('throw', 'exception')
        if last in ('atomicCompareAndSwap', '__sync_bool_compare_and_swap'):
            p = strip_casts(a[0])
            lv = p[1] if p[0] == 'addr' else None
            if lv is None or lv[0] != 'lv':
                return None
            cur, old = self.num(ev.load(f, i, st, lv)), N(1)
            if cur is None or old is None:
                return None
            if cur == old:
                ev.assign(f, i, st, lv, L(2))
                return C(1)
            return C(0)
        if n.get('obj') and fn.startswith('vm::Gc') and len(a) == 1 and n.get('f') in self.P.funcs:
            r = accessor(self.P.funcs[n['f']])
            if r:
                return ('lv', 'mem', L(0), 'off%d' % r)
        if last in ('fieldAtOffset', 'field_cast', 'field_at'):
            off = N(1)
            if off is None:
                return None
            return ('lv', 'mem', L(0), 'off%d' % off)
        if last == 'setField':
            off = N(2)
            ev.assign(f, i, st, ('lv', 'mem', L(1), 'off%d' % off), L(3))
            return ('void',)
        if last in ('makeMonitorNode',):
            st.x['new'] += 1
            q = NODE + 0x100 * st.x['new']
            h[q, self.off('MonitorNode', 'value')] = N(1)
            h[q, self.off('MonitorNode', 'next')] = N(2)
            e.append(('allocate',))
            return C(q)
        if n.get('obj') and 'System' in fn and last in ('wait', 'waitAndClearInterrupted', 'notify', 'notifyAll', 'acquire', 'release', 'tryAcquire'):
            lk = N(0)
            e.append((last, lk) + tuple(N(k) for k in range(2, len(a))))
            if last.startswith('wait'):
                self.outside(st)
                return C(self.truth.get('interrupted', 0)) if last != 'wait' else ('void',)
            return ('void',)
        if last in ('getFlags',):
            return C(h.get((N(0), 'flags'), 0))
        if last == 'setFlag':
            h[N(0), 'flags'] = h.get((N(0), 'flags'), 0) | N(1)
            return ('void',)
        if last == 'clearFlag':
            h[N(0), 'flags'] = h.get((N(0), 'flags'), 0) & ~N(1)
            return ('void',)
        if last in ('acquireSystem', 'releaseSystem'):
            e.append((last, N(1)))
            return C(self.truth.get('acquireSystem', 1))
        if last in self.prims:
            e.append((last,) + tuple(simp(L(k)) for k in range(1, len(a))))
            return self.truth.get('prim:' + last, ('void',))
        return None

    def dtor(self, ev, st, f, e):
        if st.x['res'] and (('MonitorResource' in e['fn'] and 'Object' not in e['fn'] and 'Raw' not in e['fn']) or 'StateResource' in e['fn']):
            k, v = st.x['res'].pop()
            st.x['ev'].append(('unlock' if k == 'lock' else 'unstate', v))

    def state(self, n):
        return {v: k.split('::')[-1] for e in self.P.enums.values() if any(x.endswith('IdleState') for x in e) for k, v in e.items()}.get(n, n)

    def off(self, cls, name):
        return offset(self.P, cls, name)


def offset(P, cls, name):
    """the generated field an accessor names"""
    g = next((g for g in P.funcs.values() if g.n == 'vm::Gc%s::%s' % (cls, name) and g.b), None)
    r = g and accessor(g)
    if not r:
        raise AnalysisBroken('the field %s of %s was not found' % (name, cls))
    return 'off%d' % r


def accessor(g):
    if len(g.x) > 16:
        return None
    r = {n['cv'] for n in g.x if n['k'] == 'Ref' and n.get('dk') == 'g' and 'cv' in n}
    return r.pop() if len(r) == 1 else None


class World:
    def __init__(self, P):
        self.P = P
        o = lambda c, n: offset(P, c, n)
        self.owner, self.depth, self.wh, self.wt = o('Monitor', 'owner'), o('Monitor', 'depth'), o('Monitor', 'waitHead'), o('Monitor', 'waitTail')
        self.ah, self.at, self.nx, self.val = o('Monitor', 'acquireHead'), o('Monitor', 'acquireTail'), o('MonitorNode', 'next'), o('MonitorNode', 'value')
        self.waiting = next(v for e in P.enums.values() for k, v in e.items() if k.endswith('::WaitingFlag')) if any(
            k.endswith('::WaitingFlag') for e in P.enums.values() for k in e) else 1 << 1

    def heap(self, owner, depth, waiters=(), queue=()):
        h = {(MON, self.owner): owner, (MON, self.depth): depth}
        h[HEAD, self.val] = h[HEAD, self.nx] = 0
        h[MON, self.ah] = h[MON, self.at] = HEAD
        for t in queue:
            self.enqueue(h, t)
        h[MON, self.wh] = h[MON, self.wt] = 0
        for t in (T1, T2, T3):
            h[t, 'waitNext'] = 0
            h[t, 'flags'] = 0
            h[t, 'lock'] = t + 1
            h[t, 'systemThread'] = t + 2
        for t in waiters:
            self.await_(h, t)
        return h

    def enqueue(self, h, t):
        n = 0x8000 + t
        while (n, self.val) in h:
            n += 16
        h[n, self.val], h[n, self.nx] = t, 0
        h[h[MON, self.at], self.nx] = n
        h[MON, self.at] = n

    def dequeue(self, h, t):
        n = h[h[MON, self.ah], self.nx]
        if n and h[n, self.val] == t:
            h[MON, self.ah] = n

    def await_(self, h, t):
        if h[MON, self.wt]:
            h[h[MON, self.wt], 'waitNext'] = t
        else:
            h[MON, self.wh] = t
        h[MON, self.wt] = t
        h[t, 'flags'] |= self.waiting

    def unwait(self, h, t):
        l = self.view(h)['waiting']
        if l == '?' or t not in l:
            return
        h[MON, self.wh] = h[MON, self.wt] = 0
        for x in l:
            h[x, 'waitNext'] = 0
        h[t, 'flags'] &= ~self.waiting
        for x in l:
            if x != t:
                h[x, 'flags'] &= ~self.waiting
                self.await_(h, x)

    def own(self, t, d):
        def go(h):
            h[MON, self.owner], h[MON, self.depth] = t, d
            self.dequeue(h, t)
        return go

    def free(self):
        def go(h):
            h[MON, self.owner], h[MON, self.depth] = 0, 0
        return go

    def view(self, h):
        q, n, k = [], h[MON, self.ah], 0
        while n and k < 9 and (n, self.nx) in h:
            n = h[n, self.nx]
            if n:
                q.append(h.get((n, self.val), '?'))
            k += 1
        w, n, last = [], h[MON, self.wh], 0
        while isinstance(n, int) and n and len(w) < 9:
            w.append(n)
            last, n = n, h.get((n, 'waitNext'), 0)
        if h[MON, self.wt] != last:
            w = '?'
        return dict(owner=h[MON, self.owner], depth=h[MON, self.depth], queue=q, waiting=w,
                    flagged=sorted(t for t in (T1, T2, T3) if h.get((t, 'flags'), 0) & self.waiting))


def say(v):
    nm = lambda l: '?' if l == '?' else ' '.join(NAMES.get(x, '?') for x in l) or 'nobody'
    return 'owned by %s, depth %s, queued: %s, waiting: %s%s' % (NAMES.get(v['owner'], '?'), v['depth'], nm(v['queue']), nm(v['waiting']),
                                                             '' if v['waiting'] == '?' or v['flagged'] == sorted(v['waiting']) else ' (flagged as waiting: %s)' % nm(v['flagged']))


def held(ev, k):
    """locks held when event k happens"""
    s = []
    for e in ev[:k]:
        if e[0] == 'lock':
            s.append(e[1])
        elif e[0] == 'unlock' and e[1] in s:
            s.remove(e[1])
    return s


def idle(ev, k):
    s = []
    for e in ev[:k]:
        if e[0] == 'state':
            s.append(e[1])
        elif e[0] == 'unstate' and s:
            s.pop()
    return bool(s) and s[-1] == 'IdleState'


class Check:
    def __init__(self, res, P):
        self.res, self.P, self.W = res, P, World(P)

    def fn(self, name, n):
        c = [g for g in self.P.funcs.values() if g.b and g.n.split('::')[-1] == name and len(g.params) == n and g.file.endswith(('/machine.h', '/machine.cpp', '/compile.cpp', '/interpret.cpp')) and
             'Monitor *' not in (g.vars[g.params[-1]][1] if name in ('acquire', 'release') else '') and 'Reference' not in (g.vars[g.params[-1]][1] if g.params else '')]
        if len(c) != 1:
            raise AnalysisBroken('%s was not found' % name)
        return c[0]

    def run(self, name, args, heap, env=(), **truth):
        g = self.fn(name, len(args))
        W = self.W
        snap = []

        def wrap(e):
            def go(h):
                snap.append(W.view(h))
                if e:
                    e(h)
            return go
        m = Mon(self.P, heap, [wrap(e) for e in env], truth)
        outs = []
        try:
            outs = Eval(self.P, m).run(g, [C(x) for x in args], st=m.start())
        except TooComplex:
            self.res.count('cases too complex to evaluate')
            return g, None, snap
        self.res.count('monitor operations evaluated', floor=40)
        return g, outs, snap

    def bad(self, g, case, text):
        self.res.bad('monitor|%s|%s' % (g.n.split('::')[-1], case), rel(g.file), g.l, g.n, text)

    def one(self, g, outs, what):
        """the single outcome of a concrete evaluation"""
        if outs is None:
            return None
        if len(outs) != 1:
            self.res.count('cases too complex to evaluate')
            return None
        return outs[0]

    def final(self, g, o, what, **want):
        s, k, v = o
        if k != 'return':
            self.bad(g, 'end', 'must return %s but %s' % (what, {'blocked': 'goes on waiting', 'abort': 'aborts the VM', 'loop': 'does not end', 'throw': 'throws an exception'}.get(k, k)))
            return False
        got = self.W.view(s.x['h'])
        want.setdefault('queue', [])
        want.setdefault('waiting', [])
        want['flagged'] = sorted(want['waiting'])
        if got != want:
            self.bad(g, 'state', 'must leave the monitor %s (%s) but leaves it %s' % (say(want), what, say(got)))
            return False
        return True

    def waits(self, g, o, what, thread=T1):
        """the thread waits idle, holding its own lock from before it announces itself"""
        ev = o[0].x['ev']
        for k, e in enumerate(ev):
            if e[0] in ('wait', 'waitAndClearInterrupted'):
                if e[1] != thread + 1 or thread + 1 not in held(ev, k):
                    self.bad(g, 'wait lock', 'must wait on the lock of the current thread, holding it (%s)' % what)
                elif not idle(ev, k):
                    self.bad(g, 'wait state', 'must wait in the idle state (%s)' % what)

    def notified(self, g, o, what, threads):
        ev = o[0].x['ev']
        got = []
        for k, e in enumerate(ev):
            if e[0] in ('notify', 'notifyAll'):
                got.append(e[1])
                if e[1] not in held(ev, k):
                    self.bad(g, 'notify lock', 'must hold the lock of the thread it wakes (%s)' % what)
        if got != [t + 1 for t in threads]:
            self.bad(g, 'notify', 'must wake %s (%s) but wakes %s' % (', '.join(NAMES[t] for t in threads) or 'nobody', what, ', '.join(NAMES.get(x - 1, '?') for x in got) or 'nobody'))

    def acquire(self):
        W = self.W
        A3 = [T1, MON, 0]
        for d in (0, 1, 3):
            for q in ((), (T2,)):
                if not d and q:
                    continue
                what = 'when the monitor is %s%s' % ('held by the current thread' if d else 'free', ' and another thread is queued' if q else '')
                g, outs, snap = self.run('monitorAcquire', A3, W.heap(T1 if d else 0, d, queue=q))
                o = self.one(g, outs, what)
                if o and self.final(g, o, what, owner=T1, depth=d + 1, queue=list(q)) and snap:
                    self.bad(g, 'blocks', 'must not wait ' + what)
        for what, q, env in (('when another thread holds the monitor and releases it', (), [W.free()]),
                             ('when it is woken without reason', (), [None, None, W.free()]),
                             ('when a third thread is queued first', (T3,), [W.own(T3, 1), None, W.free()]),
                             ('when a third thread is queued first and slow to take the monitor', (T3,), [W.free(), W.own(T3, 2), W.free()]),
                             ('when another thread queues up behind it', (), [lambda h: W.enqueue(h, T3), W.free()])):
            g, outs, snap = self.run('monitorAcquire', A3, W.heap(T2, 2, queue=q), env)
            o = self.one(g, outs, what)
            if not o:
                continue
            if self.final(g, o, what, owner=T1, depth=1, queue=[T3] if 'behind' in what else []):
                if snap and snap[0]['queue'] != list(q) + [T1]:
                    self.bad(g, 'queue', 'must queue up behind the threads that wait for the monitor (%s)' % what)
                if len(snap) != len(env):
                    self.bad(g, 'early', 'takes the monitor while another thread holds it or is first in line (%s)' % what)
            self.waits(g, o, what)

    def release(self):
        W = self.W
        for d in (1, 2, 4):
            for q in ((), (T2,), (T2, T3)):
                what = 'at depth %d with %d queued' % (d, len(q))
                g, outs, snap = self.run('monitorRelease', [T1, MON], W.heap(T1, d, queue=q))
                o = self.one(g, outs, what)
                if not o:
                    continue
                if self.final(g, o, what, owner=T1 if d > 1 else 0, depth=d - 1, queue=list(q)):
                    self.notified(g, o, what, q[:1] if d == 1 else ())
                    if d == 1:
                        ev = o[0].x['ev']
                        k = [n for n, e in enumerate(ev) if e[0] == 'set' and e[1:3] == (MON, W.owner)]
                        b = [n for n, e in enumerate(ev) if e[0] == 'barrier' and k and n > k[-1]]
                        if not b or ev[b[0]][1] not in ('storeLoadMemoryBarrier', 'memoryBarrier'):
                            self.bad(g, 'barrier', 'must order giving up the monitor before looking for a queued thread')
                        nt = [n for n, e in enumerate(ev) if e[0] == 'notify']
                        if k and nt and nt[0] < k[-1]:
                            self.bad(g, 'order', 'wakes a thread before the monitor is free')
        g, outs, snap = self.run('monitorRelease', [T1, MON], W.heap(T2, 1))
        for s, k, v in outs or ():
            if k == 'return' and W.view(s.x['h'])['owner'] != T2:
                self.bad(g, 'owner', 'releases a monitor that another thread holds')

    def queue(self):
        """the lock-free queue, with another thread changing it at any of the points between two reads"""
        W = self.W

        def half(h):
            t = h[MON, W.at]
            W.enqueue(h, T3)
            h[MON, W.at] = t

        def both(h):
            W.enqueue(h, T3)
            W.dequeue(h, T2)
        for q in ((), (T2,)):
            for k in range(0, 8):
                for nm, act in (('joins the queue', lambda h: W.enqueue(h, T3)), ('is about to join the queue', half), ('leaves the queue while a third joins', both),
                                ('leaves the queue', lambda h: W.dequeue(h, T2))):
                    if 'leaves' in nm and not q:
                        continue
                    what = 'when another thread %s %s' % (nm, 'before' if not k else 'meanwhile')
                    heap = W.heap(T2, 1, queue=q)
                    if not k:
                        act(heap)
                    want = list(q)
                    if 'leaves' in nm:
                        want.remove(T2)
                    if 'join' in nm:
                        want.append(T3)
                    seen = []

                    def at(h):
                        act(h)
                        seen.append(1)
                    g, outs, snap = self.run('monitorAtomicAppendAcquire', [T1, MON, 0], heap, barrier=(k, at))
                    o = self.one(g, outs, what)
                    if o and (seen or not k):
                        v = W.view(o[0].x['h'])
                        h = o[0].x['h']
                        nodes, n = [], h[MON, W.ah]
                        while n and len(nodes) < 9:
                            nodes.append(n)
                            n = h.get((n, W.nx), 0)
                        if o[1] != 'return' or sorted(v['queue']) != sorted(want + [T1]):
                            self.bad(g, 'append', 'must leave %s queued %s but leaves %s' % (' '.join(NAMES[x] for x in want + [T1]), what, ' '.join(NAMES.get(x, '?') for x in v['queue']) or 'nobody'))
                        elif h[MON, W.at] not in nodes:
                            self.bad(g, 'append tail', 'leaves the end of the queue outside it %s' % what)
                    for remove in (0, 1):
                        seen.clear()
                        first = q[0] if q else None
                        heap = W.heap(T2, 1, queue=q)
                        if not k:
                            act(heap)
                        g, outs, snap = self.run('monitorAtomicPollAcquire', [T1, MON, remove], heap, barrier=(k, at))
                        o = self.one(g, outs, what)
                        if not o or k and not seen:
                            continue
                        h = o[0].x['h']
                        r = evalc2(o[2], {}) if o[2] else None
                        ok = {want[0] if want else 0}
                        if k:
                            ok.add(q[0] if q else 0)
                        left = W.view(h)['queue']
                        if o[1] != 'return' or r not in ok:
                            self.bad(g, 'poll', 'must return the first queued thread %s but returns %s' % (what, NAMES.get(r, '?')))
                        elif left != want and not (remove and r and left == want[1:]) and not (remove and r and r not in left and left == want):
                            self.bad(g, 'poll queue', 'must %s %s but leaves %s queued' % ('remove just the first thread' if remove else 'keep the queue', what, ' '.join(NAMES.get(x, '?') for x in left) or 'nobody'))
                        elif remove and r and r in left:
                            self.bad(g, 'poll remove', 'must remove the first thread %s' % what)

    def wait(self):
        W = self.W
        for d in (1, 3):
            for inter in (0, 1):
                for what, w, q, env, left in (
                        ('timeout', (), (), [None], []),
                        ('timeout with another thread waiting', (T2,), (), [None], [T2]),
                        ('timeout behind two waiting threads', (T2, T3), (), [None], [T2, T3]),
                        ('notified behind two waiting threads', (T2, T3), (), [lambda h: (W.unwait(h, T2), W.unwait(h, T1))], [T3]),
                        ('timeout in front of two waiting threads', (), (), [lambda h: (W.await_(h, T2), W.await_(h, T3))], [T2, T3]),
                        ('timeout with another thread waiting behind', (), (), [lambda h: W.await_(h, T2)], [T2]),
                        ('timeout between two waiting threads', (T2,), (), [lambda h: W.await_(h, T3)], [T2, T3]),
                        ('notified', (), (), [lambda h: W.unwait(h, T1)], []),
                        ('notified after another waiting thread', (T2,), (), [lambda h: W.unwait(h, T1)], [T2]),
                        ('notified by a thread that still holds the monitor', (), (), [lambda h: (W.unwait(h, T1), W.own(T2, 2)(h)), None, W.free()], []),
                        ('timeout while another thread holds the monitor', (T3,), (), [lambda h: W.own(T2, 2)(h), None, W.free()], [T3]),
                        ('timeout with a queued thread that takes the monitor', (), (T2,), [lambda h: W.own(T2, 1)(h), W.free()], []),
                ):
                    what = '%s, depth %d' % (what, d)
                    g, outs, snap = self.run('monitorWait', [T1, MON, 77], W.heap(T1, d, waiters=w, queue=q), env, interrupted=inter)
                    o = self.one(g, outs, what)
                    if not o:
                        continue
                    if self.final(g, o, what, owner=T1, depth=d, waiting=left):
                        z = dict(owner=0, depth=0, queue=list(q), waiting=list(w) + [T1], flagged=sorted(list(w) + [T1]))
                        if not snap or snap[0] != z:
                            self.bad(g, 'parked', 'must wait with the monitor %s but waits with it %s (%s)' % (say(z), say(snap[0]) if snap else 'untouched', what))
                        r = evalc2(o[2], {}) if o[2] else None
                        if r is None or bool(r) != bool(inter):
                            self.bad(g, 'interrupted', 'must return whether the thread was interrupted')
                    ev = o[0].x['ev']
                    k = next((n for n, e in enumerate(ev) if e[0] == 'waitAndClearInterrupted'), None)
                    if k is None or ev[k][2:] != (77,):
                        self.bad(g, 'time', 'must wait for the time it is given')
                    self.waits(g, o, what)
                    own = next((n for n, e in enumerate(ev) if e[0] == 'set' and e[1:] == (MON, W.owner, 0)), None)
                    if k is not None and own is not None and T1 + 1 not in held(ev, own):
                        self.bad(g, 'lost', 'gives up the monitor before holding the lock it waits on: a notification in between is lost')
                    self.notified(g, o, what, q)

    def notify(self):
        W = self.W
        for w in ((), (T2,), (T2, T3), (T3, T2)):
            for name in ('monitorNotify', 'monitorNotifyAll'):
                what = 'with %d threads waiting' % len(w)
                g, outs, snap = self.run(name, [T1, MON], W.heap(T1, 2, waiters=w))
                o = self.one(g, outs, what)
                if not o:
                    continue
                n = len(w) if name.endswith('All') else 1
                if self.final(g, o, what, owner=T1, depth=2, waiting=list(w[n:])):
                    self.notified(g, o, what, w[:n])
                    if any(o[0].x['h'].get((t, 'waitNext')) for t in w[:n]):
                        self.bad(g, 'unlink', 'leaves a woken thread linked to the threads that still wait')

    def types(self, n):
        for e in self.P.enums.values():
            for k, v in e.items():
                if v == n and k.endswith('ExceptionType'):
                    return k.split('::')[-1][:-4]
        return '?'

    def objects(self):
        W = self.W
        ops = {'monitorAcquire', 'monitorRelease', 'monitorWait', 'monitorNotify', 'monitorNotifyAll'}
        for name, n, op in (('acquire', 2, 'monitorAcquire'), ('release', 2, 'monitorRelease'), ('wait', 3, 'monitorWait'), ('notify', 2, 'monitorNotify'), ('notifyAll', 2, 'monitorNotifyAll')):
            for mon in (0, 1):
                for owner in (T1, T2, 0):
                    if not mon and (owner or name == 'release'):
                        continue
                    if name in ('acquire', 'release') and owner != T1 and mon:
                        continue
                    for inter in ((0, 1) if name == 'wait' else (0,)):
                        calls = []

                        def om(e, st, v):
                            q = [evalc2(x, {}) for x in v]
                            st.x['ev'].append(('objectMonitor', q[1], q[2]))
                            return C(MON) if mon or q[2] else C(0)
                        truth = {'call:objectMonitor': om, 'alive': 1}
                        for x in ops:
                            truth['call:' + x] = lambda e, st, v, x=x: (st.x['ev'].append((x,) + tuple(evalc2(y, {}) for y in v[1:])), C(inter))[1]
                        truth['call:clearInterrupted'] = lambda e, st, v: (st.x['ev'].append(('clear',)), ('void',))[1]
                        truth['call:alive'] = None
                        g, outs, snap = self.run(name, [T1, OBJ] + ([55] if name == 'wait' else []), W.heap(owner, 1), **truth)
                        if outs is None:
                            continue
                        owned = mon and owner == T1 or name == 'acquire'
                        what = 'of an object whose monitor %s' % ('does not exist' if not mon else 'the current thread holds' if owner == T1 else 'another thread holds' if owner else 'is free')
                        for s, k, v in outs:
                            es = [e for e in s.x['ev'] if e[0] in ops]
                            look = [e for e in s.x['ev'] if e[0] == 'objectMonitor']
                            if any(e[1] != OBJ for e in look):
                                self.bad(g, 'object', 'uses the monitor of another object')
                            if owned:
                                want = [(op, MON) + ((55,) if name == 'wait' else ())]
                                if [e[:len(want[0])] for e in es] != want:
                                    self.bad(g, 'op', 'must do %s once %s' % (op, what))
                                if name == 'wait':
                                    ok = k == 'throw' and self.types(v) == 'InterruptedException' if inter else k == 'return'
                                    if not ok:
                                        self.bad(g, 'interrupt', 'must %s when the wait is %sinterrupted' % ('throw InterruptedException' if inter else 'return', '' if inter else 'not '))
                                    elif inter and ('clear',) not in s.x['ev']:
                                        self.bad(g, 'interrupt status', 'must clear the interrupt status of the thread that InterruptedException reports')
                                elif k != 'return':
                                    self.bad(g, 'end', 'must return %s' % what)
                            elif es or k != 'throw' or self.types(v) != 'IllegalMonitorStateException':
                                self.bad(g, 'owner', 'must throw IllegalMonitorStateException %s' % what)

    def table(self):
        """one monitor for each object"""
        g = self.fn('objectMonitor', 3)
        for create in (0, 1):
            for first in (0, 1):
                for second in ((0, 1) if create and not first else (first,)):
                    def find(e, st, v):
                        st.x['step'] += 1
                        st.x['ev'].append(('find', evalc2(v[2], {}), idle_of(st.x['ev'])))
                        return C(MON if (first if st.x['step'] == 1 else second) else 0)

                    def insert(e, st, v):
                        st.x['ev'].append(('insert', evalc2(v[2], {}), evalc2(v[3], {}), idle_of(st.x['ev'])))
                        return ('void',)

                    def make(e, st, v):
                        st.x['ev'].append(('make',) + tuple(evalc2(x, {}) for x in v[1:]))
                        return C(0xa000)
                    fin = lambda e, st, v: (st.x['ev'].append(('finalizer', evalc2(v[1], {}), repr(v[2]))), ('void',))[1]
                    g, outs, snap = self.run('objectMonitor', [T1, OBJ, create], {}, **{'call:hashMapFind': find, 'call:hashMapInsert': insert, 'call:makeMonitor': make, 'call:addFinalizer': fin})
                    what = '%s%s' % ('when the object has a monitor' if first else 'when another thread creates the monitor meanwhile' if second else 'when the object has no monitor',
                                     '' if create else ' and none is wanted')
                    for s, k, v in outs or ():
                        ev = s.x['ev']
                        ins = [e for e in ev if e[0] == 'insert']
                        r = evalc2(v, {}) if v else None
                        if any(e[1] != OBJ for e in ev if e[0] in ('find', 'insert')):
                            self.bad(g, 'key', 'looks for the monitor of another object')
                        if k != 'return':
                            self.bad(g, 'end', 'must return %s' % what)
                        elif first or second:
                            if ins or r != MON:
                                self.bad(g, 'second', 'must return the existing monitor %s' % what)
                        elif not create:
                            if ins or r != 0:
                                self.bad(g, 'none', 'must return nothing %s' % what)
                        else:
                            mk = [e for e in ev if e[0] == 'make']
                            fi = [e for e in ev if e[0] == 'finalizer']
                            fs = [e for e in ev if e[0] == 'find']
                            if len(ins) != 1 or r != 0xa000 or ins[0][2] != 0xa000:
                                self.bad(g, 'insert', 'must create, enter and return one new monitor %s' % what)
                            elif ins[0][3] != 'ExclusiveState' or fs[-1][2] != 'ExclusiveState':
                                self.bad(g, 'exclusive', 'must look again and enter the new monitor while every other thread is stopped')
                            elif len(mk) != 1 or mk[0][1:4] != (0, 0, 0) or mk[0][4] != mk[0][5] or not mk[0][4] or mk[0][6] != 0:
                                self.bad(g, 'fresh', 'must create a monitor without owner, waiting threads and depth, whose queue holds just its dummy node')
                            elif len(fi) != 1 or fi[0][1] != OBJ or 'removeMonitor' not in fi[0][2]:
                                self.bad(g, 'finalizer', 'must have the monitor removed when its object dies')


RETURNS = (('return_', ''), ('ireturn', 'i'), ('lreturn', 'l'), ('freturn', 'f'), ('dreturn', 'd'), ('areturn', 'o'))
FLAGS = (0, 8, 0x20, 0x28, 0x21, 0x31)


def method(fl):
    return '%s%smethod' % ('static ' if fl & 8 else '', 'synchronized ' if fl & 0x20 else '')


def compiled(res, P):
    """compiled methods take the monitor before their first instruction and give it up before each return"""
    from rules import interp, jit, jitops
    f, d = jit.find(P)
    ops = interp.opcode_enum(P)
    blocks = interp.case_blocks(f, d)
    names = jit.Names(P)

    def lock(e):
        return e[0] == 'called' and e[2][0] == 'thunk' and 'onitor' in e[2][1]

    def right(e, fl, kind, own):
        t = e[2][1]
        args = tuple(jitops.canon(x) for x in e[6])
        if fl & 8:
            return t.startswith(kind + 'MonitorForClass') and args == (('thread',), jitops.canon(jitops.obj(('class_', A('method', PTR)))))
        return t.startswith(kind + 'MonitorForObject') and args in [(('thread',), jitops.canon(('local', ('c', x)))) for x in own]
    ML = 20
    for op, st in RETURNS:
        if ops[op] not in blocks:
            continue
        for fl in FLAGS:
            if op != 'return_' and fl & 0x30 == 0x30:
                continue
            outs = jit.evaluate(P, names, f, d, blocks[ops[op]], dict(op=op, stack=[jitops.TYP[c] for c in st], mflags=fl, maxlocals=ML))
            for o in outs:
                res.count('entrances and exits of compiled methods evaluated', floor=20)
                ev = [e for e in o.eff if lock(e) or e[0] == 'return_']
                key = 'monitor|exit|%s|%s' % (op, method(fl))
                bad = lambda text: res.bad(key, rel(f.file), interp.first_line(f, blocks[ops[op]]), '%s of the JIT compiler' % op.rstrip('_'), text)
                if not ev or ev[-1][0] != 'return_':
                    bad('must return last in a ' + method(fl))
                elif len(ev) - 1 != (1 if fl & 0x20 else 0):
                    bad('must release %s in a %s but releases %d' % ('the monitor once' if fl & 0x20 else 'nothing', method(fl), len(ev) - 1))
                elif fl & 0x20 and not right(ev[0], fl, 'release', (ML,)):
                    bad('must release the monitor %s before it returns from a %s' % ('of the class' if fl & 8 else 'of the receiver saved at the entrance', method(fl)))
    g = [h for h in P.funcs.values() if h.b and h.n.split('::')[-1] == 'handleEntrance' and h.file.endswith('/compile.cpp')]
    if len(g) != 1 or len(g[0].params) != 2:
        raise AnalysisBroken('handleEntrance was not found')
    g = g[0]
    for fl in FLAGS:
        m = jit.Jit(P, names, dict(op='nop', mflags=fl, maxlocals=ML), {}, g)
        st = St()
        m.init(st)
        marked = []
        try:
            outs = Eval(P, m).run(g, [A('t', PTR), A('frame', PTR)], st=st)
        except TooComplex:
            res.count('cases too complex to evaluate')
            continue
        for s, k, v in outs:
            res.count('entrances and exits of compiled methods evaluated')
            bad = lambda text: res.bad('monitor|entrance|%s' % method(fl), rel(g.file), g.l, g.n, text)
            ev = [e for e in s.eff if lock(e) or e[0] == 'storeLocal']
            lk = [e for e in ev if lock(e)]
            if k != 'return' or len(lk) != (1 if fl & 0x20 else 0):
                bad('must acquire %s on entering a %s but acquires %d' % ('the monitor once' if fl & 0x20 else 'nothing', method(fl), len(lk)))
                continue
            if not fl & 0x20:
                continue
            me = jit.PARAMS - 1
            sv = [jitops.canon(e) for e in ev if e[0] == 'storeLocal']
            if not fl & 8 and jitops.canon(('storeLocal', jit.jv('object', ('local', ('c', me))), ('c', ML))) not in sv:
                bad('must save the receiver of a %s where its exit finds it' % method(fl))
            elif not right(lk[0], fl, 'acquire', (ML, me)):
                bad('must acquire the monitor of the %s on entering a %s' % ('class' if fl & 8 else 'receiver', method(fl)))
            elif not lk[0][2][1].endswith('OnEntranceThunk'):
                bad('must note while the monitor of a %s is being acquired that it is not held yet' % method(fl))
            elif not fl & 8 and not any(e[0] == 'log' and e[2:] and norm(e[2], 32) == ('c', ML) for e in s.eff):
                bad('must let a collection find the saved receiver of a %s' % method(fl))
    entered(res, P, f, g)
    g = [h for h in P.funcs.values() if h.b and h.n.split('::')[-1] == 'localSize' and h.file.endswith('/compile.cpp') and not h.cls]
    for h in g[:1]:
        for fl in FLAGS:
            m = jit.Jit(P, names, dict(op='nop', mflags=fl, maxlocals=ML), {}, h)
            m2 = m.call
            m.call = lambda ev, st, f, i, fn, a: m2(ev, st, f, i, fn, a) if fn.split('::')[-1] != 'localSize' else None
            st = St()
            m.init(st)
            for s, k, v in Eval(P, m).run(h, [A('t', PTR), A('method', PTR)], st=st):
                n = norm(v, 32) if v else None
                if n and n[0] == 'c' and n[1] < ML + (fl & 0x28 == 0x20):
                    res.bad('monitor|localSize', rel(h.file), h.l, h.n, 'must leave room for the saved receiver of a %s' % method(fl))
    # the functions called at the entrance note that the monitor is not held until it is
    for nm, cls in (('acquireMonitorForObjectOnEntrance', False), ('acquireMonitorForClassOnEntrance', True)):
        g = [h for h in P.funcs.values() if h.b and h.n.split('::')[-1] == nm and len(h.params) == 2]
        if len(g) != 1:
            continue
        g = g[0]
        acq = lambda e, st, v: (st.x['ev'].append(('acquire', evalc2(v[1], {}))), ('void',))[1]
        m = Mon(P, {(T1, 'methodLockIsClean'): 1}, (), {'call:acquire': acq, 'call:getJClass': lambda e, st, v: C(0x7700) if evalc2(v[1], {}) == OBJ else None})
        for s, k, v in Eval(P, m).run(g, [C(T1), C(OBJ)], st=m.start()):
            res.count('entrances and exits of compiled methods evaluated')
            ev = [e for e in s.x['ev'] if e[0] == 'acquire' or e[0] == 'set' and e[2] == 'methodLockIsClean']
            want = [('set', T1, 'methodLockIsClean', 0), ('acquire', 0x7700 if cls else OBJ), ('set', T1, 'methodLockIsClean', 1)]
            if k != 'return' or ev != want:
                res.bad('monitor|%s' % nm, rel(g.file), g.l, g.n, 'must note that the monitor is not held, acquire the monitor of the %s and note that it is held, in this order' % (
                    'class object' if cls else 'receiver'))


def entered(res, P, loop, g):
    """the code for the entrance comes before the code of the method"""
    key = {id(h): k for k, h in P.funcs.items()}
    for h in P.funcs.values():
        if not h.b or not h.file.endswith('/compile.cpp') or h is loop:
            continue
        ent = [(b, k) for b, bl in h.b.items() for k, e in enumerate(bl['e']) if isinstance(e, int) and h.x[e]['k'] == 'Call' and h.x[e].get('f') == key[id(g)]]
        if not ent or h is g:
            continue
        body = [(b, k) for b, bl in h.b.items() for k, e in enumerate(bl['e']) if isinstance(e, int) and h.x[e]['k'] == 'Call' and h.x[e].get('f') == key[id(loop)]]
        res.count('bodies compiled after their entrance', len(body))
        seen, work = set(), [h.entry]
        first = {}
        for b, k in ent:
            first[b] = min(first.get(b, k), k)
        while work:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b)
            for bb, k in body:
                if bb == b and k < first.get(b, 1 << 30):
                    res.bad('monitor|entered', rel(h.file), h.x[h.b[b]['e'][k]].get('l', h.l), h.n, 'translates the method before the code that acquires its monitor')
            if b not in first:
                work.extend(x for x in h.b[b]['s'] if x >= 0)
        return
    raise AnalysisBroken('no call of handleEntrance was found')


def idle_of(ev):
    s = []
    for e in ev:
        if e[0] == 'state':
            s.append(e[1])
        elif e[0] == 'unstate' and s:
            s.pop()
    return s[-1] if s else None


class OnlyMonitors:
    """passes on what a check says about monitors"""

    def __init__(self, res):
        self.res = res

    def count(self, n, k=1, floor=None):
        if n == 'calls across the boundary evaluated':
            self.res.count('calls of native methods evaluated', k, floor=40)
        elif n.startswith('cases too complex'):
            self.res.count(n, k)

    def bad(self, key, file, line, where, what):
        if 'monitor' in key or 'push the frame' in key:
            self.res.bad(key.replace('nativecall', 'monitor|native'), file, line, where, what)


def natives(res, P):
    """synchronized native methods"""
    from rules import nativecalls as nc
    g = nc.find(P, 'invokeNativeSlow', 3, '/compile.cpp')
    if g is None:
        raise AnalysisBroken('invokeNativeSlow was not found')
    nc.setup(OnlyMonitors(res), P)
    nc.native(OnlyMonitors(res), P, g, False)
    Q = prog.world('interpret')
    g = nc.find(Q, 'invokeNativeSlow', 3, '/interpret.cpp')
    if g is None:
        raise AnalysisBroken('invokeNativeSlow was not found')
    nc.native(OnlyMonitors(res), Q, g, True)


def interpreted(res):
    """the frames of the interpreter take and give up the monitor"""
    from rules import nativecalls as nc
    Q = prog.world('interpret')
    push, pop = nc.find(Q, 'pushFrame', 2, '/interpret.cpp'), nc.find(Q, 'popFrame', 1, '/interpret.cpp')
    if push is None or pop is None:
        raise AnalysisBroken('pushFrame or popFrame was not found')
    stack = ('get', 'stack', ('a', 't'))
    SP, PF, ML = 40, 2, 5
    base = SP - PF
    for fl in FLAGS + tuple(x | 0x100 for x in FLAGS if not x & 0x400):
        nat, static = fl & 0x100, fl & 8
        what = ('native ' if nat else '') + method(fl)
        oops = lambda g, text: res.bad('monitor|frame|%s|%s' % (g.n.split('::')[-1], text), rel(g.file), g.l, g.n, 'for a %s: %s' % (what, text))

        def read(st, b, o, n, ty):
            if b == stack:
                k = o // 16
                if o % 16 == 8 and base <= k < base + PF:
                    return C(0x7f0000 + k)
            return None

        def model(g, rd):
            mod = nc.Nm(Q, g, {}, rd, prims=nc.Ex.PR - {'pushFrame', 'popFrame', 'value'})
            take = lambda n: lambda e, st, f, c, a, v: st.x.setdefault('ev', []).append((n, v[1])) or ('void',)
            mod.truth.update({'.flags': ('c', fl), '.parameterFootprint': ('c', PF), '.maxLocals': ('c', ML), 'call:acquire': take('acquire'), 'call:release': take('release'),
                              'call:getJClass': lambda e, st, f, c, a, v: ('jclass', v[1]), 'call:memset': lambda *z: ('void',), '.code': ('code',), 'call:stackSizeInWords': lambda *z: C(1 << 20),
                              '.sp': ('c', SP), '.frame': ('c', 20)})
            return mod
        mod = model(push, read)
        for st, k, v in nc.run(OnlyMonitors(res), Q, push, mod, [nc.T, nc.M]):
            if k not in ('return', 'end'):
                continue
            res.count('frames pushed and popped', floor=4)
            evs = nc.events(st)
            lock = [e[1] for e in evs if e[0] == 'acquire']
            want = [] if not fl & 0x20 else [('jclass', ('get', 'class_', ('a', 'm')))] if static else [C(0x7f0000 + base)]
            if lock != want or any(e[0] == 'release' for e in evs):
                oops(push, 'must enter %s' % ('no monitor' if not want else 'the monitor of the class once' if static else 'the monitor of the receiver once'))
                continue
            at = [j for j, e in enumerate(evs) if e[0] == 'acquire']
            if at and any(e[0] == 'set' and e[1] in ('frame', 'sp', 'code', 'ip') for e in evs[:at[0]]):
                oops(push, 'must enter the monitor before the frame can be unwound')
            cells = {q[2][1]: w for q, w in st.env.items() if isinstance(q, tuple) and q[0] == 'idx' and q[1] == stack and q[2][0] == 'c'}
            members = {q[2]: w for q, w in st.env.items() if isinstance(q, tuple) and q[0] == 'mem' and len(q) > 2 and q[2] in ('frame', 'sp')}
            if 'frame' not in members:
                continue

            def after(st, b, o, n, ty, cells=cells):
                if b == stack and o % 8 == 0:
                    j = o // 8
                    if not nat and base <= j // 2 < base + ML and j % 2:
                        return C(0x666000 + j)        # the method stores to its local variables
                    if j in cells:
                        return cells[j]
                    return read(st, b, o, n, ty)
                return None
            mod = model(pop, after)
            mod.truth['.frame'] = members['frame']
            mod.truth['.sp'] = members.get('sp', C(SP + 20))
            for st2, k2, v2 in nc.run(OnlyMonitors(res), Q, pop, mod, [nc.T]):
                if k2 not in ('return', 'end'):
                    continue
                got = [e[1] for e in nc.events(st2) if e[0] == 'release']
                if [nc.strip_casts(x) for x in got] != want:
                    oops(pop, 'must give up %s' % ('no monitor' if not want else 'the monitor that was entered, once'))


def check(res, tier):
    res.rule('The monitor operations, evaluated on concrete monitors (owner, depth, queue, waiting threads) with other threads acting while the current one waits, leave the specified '
             'owner, depth, queue and waiting threads, wake exactly the specified threads, and hold the lock that prevents a lost notification.')
    P = prog.world('jit')
    K = Check(res, P)
    K.acquire()
    K.release()
    K.queue()
    K.wait()
    K.notify()
    K.objects()
    K.table()
    compiled(res, P)
    natives(res, P)
    interpreted(res)
