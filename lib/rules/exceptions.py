"""X01: which handler an exception reaches; M01: the monitor of a synchronized method is held exactly while the method runs"""
import absint
import prog
from absint import Eval, St, Stop, TooComplex, normx, norm
from prog import AnalysisBroken, rel
from rules import runtime
from rules.runtime import Rt, A, PTR, U32, U64, G, V, plain, simp, sh, evalc2

T, M = A('t', PTR), A('m', PTR)
m = normx(M)


def table(entries):
    return [(s << 48) | (e << 32) | (ip << 16) | ct for s, e, ip, ct in entries]


class Ex(Rt):
    max_visits = 14
    PR = {'methodForIp', 'nextFrame', 'findExceptionHandler', 'releaseLock', 'stackForFrame', 'localOffset', 'localSize', 'getIp', 'stackOffsetFromFrame', 'expect', 'resolveClassInPool',
          'makeIntArray', 'makeArray', 'truncateIntArray', 'truncateArray', 'machineIp', 'value', 'frameReturnAddressSize', 'framePointerOffset', 'returnAddressOffset', 'instanceOf',
          'dynamicCall', 'acquire', 'release', 'popFrame', 'pushFrame', 'throwNew', 'marshalArguments', 'pushResult', 'getMethodRuntimeData', 'fieldType', 'fieldCode', 'dispose', 'resolveNative',
          'exceptionMatch', 'difference', 'methodCompiled'}
    inner = ()

    def __init__(self, P, g, val, truth, prims=None, files=('/compile.cpp', '/interpret.cpp')):
        Rt.__init__(self, P, g, val, truth)
        self.pr = prims if prims is not None else self.PR
        self.files = files

    def call(self, ev, st, f, i, fn, a):
        n = f.x[i]
        c = n.get('c', ())
        last = fn.split('::')[-1].split('<')[0]
        L = lambda k: ev.load(f, c[k], st, a[k]) if a[k][0] == 'lv' else a[k]
        h = self.truth.get('call:' + last)
        if h is not None:
            r = h(ev, st, f, c, a, [simp(L(k)) if a[k][0] != '?' else a[k] for k in range(len(a))])
            if r is not None:
                return r
        if last in ('expect', 'assertT'):
            return ('void',)
        return Rt.call(self, ev, st, f, i, fn, a)

    def inline(self, g):
        return g.file.endswith(self.files + ('/machine.h', '/process.h')) and len(g.x) < 600 and g.n.split('::')[-1] not in self.pr


def find(P, name, n, file):
    c = [g for g in P.funcs.values() if g.b and g.n.split('::')[-1] == name and len(g.params) == n and g.file.endswith(file)]
    return c[0] if len(c) == 1 else None


def ev(st, *a):
    st.x.setdefault('ev', []).append(a)


def events(s):
    return tuple(s.x.get('ev', ()))


# handlers in source order: [start, end) and whether the type matches
RANGES = (((10, 20), (20, 30)), ((10, 20), (10, 20)), ((10, 30), (15, 20)), ((15, 20), (10, 30)), ((0, 5), (5, 6)), ((0, 0), (0, 40)))
KEYS = (0, 4, 5, 6, 9, 10, 11, 15, 19, 20, 21, 29, 30, 39, 40)


def choose(entries, key, ok):
    for k, (s, e) in enumerate(entries):
        if s <= key < e and ok[k]:
            return k
    return None


def lookup(res, P, file, interp):
    g = find(P, 'findExceptionHandler', 3, file)
    if g is None:
        raise AnalysisBroken('findExceptionHandler was not found in ' + file)
    vm = 'interpreter' if interp else 'JIT compiler'

    def bad(case, text):
        res.bad('exception|findExceptionHandler|%s|%s' % (vm, case), rel(g.file), g.l, g.n, text)
    for entries in RANGES:
        for ok in ((True, True), (True, False), (False, True), (False, False)):
            for key in KEYS:
                res.count('exception table lookups evaluated', floor=200)
                tr = {'.exception': ('c', 1), '.length': ('c', 2 if interp else 3)}
                if interp:
                    enc = table([(s, e, 100 + k, k + 1) for k, (s, e) in enumerate(entries)])

                    def at(x, k):
                        if k[0] != 'c' or not 0 <= k[1] < 2:
                            return None
                        return ('c', enc[k[1]])
                    tr['[]'] = at
                    tr['call:resolveClassInPool'] = lambda e, st, f, c, a, v: ('v', 'catch', v[2][1]) if v[2][0] == 'c' else None
                    tr['call:exceptionMatch'] = lambda e, st, f, c, a, v: ('c', int(ok[v[1][2]])) if v[1][:2] == ('v', 'catch') and 0 <= v[1][2] < 2 else None
                    args = [T, M, ('c', key + 1)]
                else:
                    idx = [w for k, (s, e) in enumerate(entries) for w in (s, e, 100 + k)]

                    def at(x, k):
                        if k[0] != 'c':
                            return None
                        if x == G('body', G('exceptionHandlerTable', G('code', m))):
                            return ('index',) if k[1] == 0 else ('v', 'catch', k[1] - 1) if 1 <= k[1] <= 2 else None
                        return ('c', idx[k[1]]) if x == G('body', ('index',)) and 0 <= k[1] < len(idx) else None
                    tr['[]'] = at
                    tr['difference'] = key + 1
                    tr['call:exceptionMatch'] = lambda e, st, f, c, a, v: ('c', int(ok[v[1][2]])) if v[1][:2] == ('v', 'catch') and 0 <= v[1][2] < 2 else None
                    args = [T, M, A('ip', PTR)]
                mod = Ex(P, g, {'__nonnull': 1}, tr)
                try:
                    outs = [o for o in Eval(P, mod).run(g, args) if o[1] != 'abort']
                except TooComplex:
                    res.count('cases too complex to evaluate')
                    return
                want = choose(entries, key, ok)
                got = set()
                for s, k, v in outs:
                    if k == 'return' and skipped(s, interp):
                        continue
                    v = plain(v) if v is not None else None
                    if k != 'return':
                        got.add('?')
                    elif v == ('c', 0):
                        got.add(None)
                    elif interp:
                        n = evalc2(v, {})
                        got.add(enc.index(n) if n in enc else '?')
                    else:
                        got.add(v[3][1] - 100 if v[0] == 'padd' and v[3][0] == 'c' and 'methodCompiled' in repr(v[2]) else '?')
                if got != {want}:
                    name = lambda x: 'no handler' if x is None else 'handler %s' % x
                    bad('%r %r %r' % (entries, ok, key), 'must find %s for an exception at offset %d with the ranges %s (types match: %s) but finds %s' % (
                        name(want), key, ' '.join('[%d, %d)' % r for r in entries), ' '.join(map(str, ok)), ', '.join(map(name, sorted(got, key=str))) or 'nothing'))
                    return


def skipped(s, interp):
    """paths that assume there is no table or no exception"""
    for t, v in s.dec.items():
        r = repr(t)
        if not v and ('exceptionHandlerTable' in r and 'length' not in r and 'body' not in r):
            return True
        if not v and interp and "'catch'" in r:
            return True
    return False


def matching(res, P):
    g = find(P, 'exceptionMatch', 3, '/machine.h')
    if g is None:
        return
    for typ in (0, 1):
        for shut in (0, 1):
            for inst in (0, 1):
                res.count('exception type matches evaluated')
                exc = ('a', 'exc', PTR)
                down = {'.shutdownInProgress': exc if shut else ('c', 99)}
                mod = Ex(P, g, {'exc': 55, 'type': typ}, {'call:shutdownInProgress': lambda e, st, f, c, a, v: exc if shut else ('c', 99), '.exception': exc,
                                              'call:instanceOf': lambda e, st, f, c, a, v: ('c', inst) if 'type' in repr(v[1]) and 'exc' in repr(v[2]) else None})
                want = not typ or not shut and inst
                for s, k, v in Eval(P, mod).run(g, [T, A('type', PTR), exc]):
                    r = evalc2(v, {'exc': 55, 'type': typ}) if v is not None else None
                    if k == 'return' and r != int(bool(want)):
                        res.bad('exception|exceptionMatch', rel(g.file), g.l, g.n, 'must %s a handler %s for %s but returns %s' % (
                            'accept' if want else 'reject', 'of any exception' if not typ else 'of a class',
                            'the exception that shuts the VM down' if shut else 'an instance of it' if inst else 'an exception of another class', sh(v)))


def unwinding(res, P):
    """frames are left one by one, each without a handler releasing its monitor, up to the first with a handler"""
    g = find(P, 'findUnwindTarget', 5, '/compile.cpp')
    if g is None:
        raise AnalysisBroken('findUnwindTarget was not found')

    def bad(case, text):
        res.bad('exception|findUnwindTarget|' + case, rel(g.file), g.l, g.n, text)
    for frames in (0, 1, 2, 3):
        for handler in list(range(frames)) + [None]:
            res.count('unwindings evaluated')

            def nextf(e, st, f, c, a, v):
                """moves ip and stack, which are passed by address"""
                k = st.x['frame'] = st.x.get('frame', 0) + 1
                for q, nm in ((1, 'ip'), (2, 'stack')):
                    t = a[q]
                    if t[0] == 'addr':
                        e.assign(f, c[q], st, t[1], A('%s%d' % (nm, k), PTR))
                ev(st, 'next', v[3], v[4])
                return ('void',)

            def mfor(e, st, f, c, a, v):
                x = v[1]
                k = 0 if x[:2] != ('a', x[1]) or not str(x[1]).startswith('ip') else int(x[1][2:])
                if st.x.get('frame', 0) != k:
                    return ('c', 0) if k >= frames else ('v', 'method', k)
                return ('v', 'method', k) if k < frames else ('c', 0)

            def feh(e, st, f, c, a, v):
                if v[1][:2] != ('v', 'method'):
                    return ('?',)
                ev(st, 'lookup', v[1][2], v[2])
                return ('v', 'handler', v[1][2]) if v[1][2] == handler else ('c', 0)

            def rel_(e, st, f, c, a, v):
                ev(st, 'release', v[1], v[2])
                return ('void',)
            tr = {'.exception': ('v', 'exc'), '.traceContext': ('c', 0), 'call:getIp': lambda e, st, f, c, a, v: A('ip0', PTR), 'call:nextFrame': nextf, 'call:methodForIp': mfor,
                  'call:findExceptionHandler': feh, 'call:releaseLock': rel_, '.targetMethod': ('v', 'target'), '.stack': A('stack0', PTR)}
            mod = Ex(P, g, {'__nonnull': 1}, tr)
            mod.decide = lambda st, t, d=mod.decide: nonnull(t, d(st, t))
            args = [T] + [A('out%d' % k, PTR) for k in range(4)]
            try:
                outs = [o for o in Eval(P, mod).run(g, args) if o[1] != 'abort']
            except TooComplex:
                res.count('cases too complex to evaluate')
                return
            outs = [o for o in outs if o[1] == 'return' and not contin(o[0])]
            if not outs:
                bad('none', 'does not find a target for %d frames' % frames)
            for s, k, v in outs:
                es = events(s)
                seen = [e for e in es if e[0] == 'lookup']
                reach = range(frames if handler is None else handler + 1)
                case = '%d compiled frames, %s' % (frames, 'none with a handler' if handler is None else 'a handler in frame %d' % handler)
                if [e[1] for e in seen] != list(reach):
                    bad('lookup', 'must look for a handler in frames %s (%s) but does so in %s' % (list(reach), case, [e[1] for e in seen]))
                    continue
                if [e[2] for e in seen] != [('a', 'ip%d' % q) for q in reach]:
                    bad('ip', 'looks for a handler with another instruction pointer than that of the frame (%s)' % case)
                rls = [e for e in es if e[0] == 'release']
                need = [q for q in reach if q != handler]
                if [e[1][2] if e[1][:2] == ('v', 'method') else '?' for e in rls] != need:
                    bad('release', 'must release the monitors of frames %s, which are abandoned (%s), but does so for %s' % (need, case, [e[1][2] if e[1][:2] == ('v', 'method') else '?' for e in rls]))
                elif [e[2] for e in rls] != [('a', 'stack%d' % (q + 1)) for q in need]:
                    bad('release stack', 'must pass the frame of the abandoned method to releaseLock (%s) but passes %s' % (case, [sh(e[2]) for e in rls]))
                nx = [e for e in es if e[0] == 'next']
                tgt = [('v', 'target')] + [('v', 'method', q) for q in range(len(nx))]
                if [e[1] for e in nx] != [('v', 'method', q) for q in range(len(nx))] or [e[2] for e in nx] != tgt[:len(nx)] or len(nx) != len(reach):
                    bad('next', 'does not step from frame to frame: %s (%s)' % (['%s called by %s' % (sh(e[2]), sh(e[1])) for e in nx], case))
                exc = [e for e in es if e[0] == 'set' and e[1] == 'exception']
                if handler is not None:
                    st_ = [e for e in s.eff if e[0] == 'store' and ('v', 'exc') == simp(e[2])]
                    if not st_ or not any('localOffset' in repr(e[1]) and repr(('v', 'method', handler)) in repr(e[1]) for e in st_):
                        bad('value', 'must leave the exception in the first operand stack slot of the frame with the handler (%s)' % case)
                    if not exc or exc[-1][3] != ('c', 0):
                        bad('clear', 'must clear the pending exception when a handler is found (%s)' % case)
                elif exc:
                    bad('keep', 'must keep the exception pending when no frame handles it (%s)' % case)
                ip = [e for e in s.eff if e[0] == 'store' and e[1][1] == 'deref' and 'out0' in repr(e[1])]
                last = simp(ip[-1][2]) if ip else None
                if last != (('v', 'handler', handler) if handler is not None else ('a', 'ip%d' % frames)):
                    bad('target', 'continues at %s (%s)' % (sh(last), case))
    g = find(P, 'releaseLock', 3, '/compile.cpp')
    if g is None:
        raise AnalysisBroken('releaseLock was not found')
    S = A('s', PTR)
    for fl in (0, 8, 0x20, 0x28):
        for clean in (0, 1):
            res.count('unwindings evaluated')
            mod = Ex(P, g, {}, {'.flags': ('c', fl), '.methodLockIsClean': ('c', clean)}, prims=Ex.PR | {'stackForFrame', 'localObject', 'savedTargetIndex'})
            for s, k, v in Eval(P, mod).run(g, [T, M, S]):
                es = events(s)
                rls = [e for e in es if e[0] == 'release']
                what = '%s%smethod%s' % ('static ' if fl & 8 else '', 'synchronized ' if fl & 0x20 else '', '' if clean else ' whose monitor was not acquired')
                if k != 'return':
                    continue
                if len(rls) != (1 if fl & 0x20 and clean else 0):
                    res.bad('exception|releaseLock|count', rel(g.file), g.l, g.n, 'must %s when the frame of a %s is abandoned but %s' % (
                        'release the monitor once' if fl & 0x20 and clean else 'release nothing', what, 'releases %d' % len(rls)))
                elif rls:
                    x = rls[0][1]
                    ok = x == V('getJClass', G('class_', m)) if fl & 8 else 'localObject' in repr(x) and 'savedTargetIndex' in repr(x) and 'stackForFrame' in repr(x) and repr(m) in repr(x)
                    if not ok:
                        res.bad('exception|releaseLock|object', rel(g.file), g.l, g.n, 'releases %s when the frame of a %s is abandoned' % (sh(x), what))
                if fl & 0x20 and not clean:
                    w = [e for e in es if e[0] == 'set' and e[1] == 'methodLockIsClean']
                    if not w or w[-1][3] != ('c', 1):
                        res.bad('exception|releaseLock|clean', rel(g.file), g.l, g.n, 'does not note that the monitors of the next frames are held')


def contin(s):
    """paths on which there is a continuation"""
    return any(v and ('ontinuation' in repr(t)) for t, v in s.dec.items())


def nonnull(t, r):
    if r is not None:
        return r
    if t[0] == 'op' and t[1] in ('!=', '==') and t[4] == ('c', 0) and isinstance(t[3], tuple) and t[3] and (t[3][0] == 'v' and t[3][1] in ('handler', 'method', 'exc')):
        return int(t[1] == '!=')
    return None


def translated(res, P):
    """the table of the compiled code has the entries of the class file, in their order, with the addresses of the same instructions"""
    g = find(P, 'translateExceptionHandlerTable', 4, '/compile.cpp')
    if g is None:
        raise AnalysisBroken('translateExceptionHandlerTable was not found')

    def bad(case, text):
        res.bad('exception|translateExceptionHandlerTable|' + case, rel(g.file), g.l, g.n, text)
    LEN = 12
    full = [1] * LEN
    some = [1, 0, 1, 1, 0, 1, 0, 0, 0, 1, 1, 0]
    # (entries, instructions that were compiled, {entry: (start, end)} expected)
    cases = [(((0, 5, 9, 0), (5, 9, 10, 3)), full, [(0, 0, 5, 9, 0), (1, 5, 9, 10, 3)]),
             (((2, 3, 9, 7), (0, 9, 10, 0)), some, [(0, 2, 3, 9, 7), (1, 0, 9, 10, 0)]),
             (((1, 5, 9, 2), (4, 9, 10, 0)), some, [(0, 2, 5, 9, 2), (1, 5, 9, 10, 0)]),
             (((6, 9, 10, 2), (0, 5, 9, 4)), some, [(1, 0, 5, 9, 4)]),
             (((6, 9, 10, 2), (7, 8, 9, 4)), some, []),
             (((3, LEN, 2, 0), (0, 3, 5, 1)), full, [(0, 3, 'end', 2, 0), (1, 0, 3, 5, 1)])]
    for entries, visit, want in cases:
        res.count('exception tables translated', floor=5)
        enc = table(entries)

        def at(x, k):
            if x[:2] == ('get', 'visitTable') and k[0] == 'c' and 0 <= k[1] < LEN:
                return ('c', visit[k[1]])
            return ('c', enc[k[1]]) if k[0] == 'c' and x == G('body', OLD) and 0 <= k[1] < len(enc) else ('slot', x, k)
        OLD = G('exceptionHandlerTable', G('code', G('method', ('a', 'context'))))
        tr = {'[]': at, '.subroutineCount': ('c', 0), 'call:machineIp': lambda e, st, f, c, a, v: ('v', 'mip', v[-1]),
              'call:value': lambda e, st, f, c, a, v: v[0] if v[0][:2] == ('v', 'mip') else None,
              '.length': lambda x: ('c', len(enc)) if x == OLD else ('c', LEN) if x == G('code', G('method', ('a', 'context'))) else None,
              'call:resolveClassInPool': lambda e, st, f, c, a, v: V('catch', v[2]),
              'call:makeIntArray': lambda e, st, f, c, a, v: (ev(st, 'index', v[1]), ('v', 'index'))[1], 'call:makeArray': lambda e, st, f, c, a, v: (ev(st, 'table', v[1]), ('v', 'table'))[1],
              'call:truncateIntArray': lambda e, st, f, c, a, v: (ev(st, 'cut index', v[2]), v[1])[1], 'call:truncateArray': lambda e, st, f, c, a, v: (ev(st, 'cut table', v[2]), v[1])[1],
              'call:setBodyElement': lambda e, st, f, c, a, v: (ev(st, 'element', v[0], v[-2], v[-1]), ('void',))[1], 'visit': visit}
        mod = Ex(P, g, {'__nonnull': 1}, tr)
        mod.max_visits = 40
        try:
            outs = [o for o in Eval(P, mod).run(g, [T, A('context', PTR), A('start', ('i', 64)), A('end', ('i', 64))]) if o[1] == 'return']
        except TooComplex:
            res.count('cases too complex to evaluate')
            return
        outs = [o for o in outs if not any(not v and 'exceptionHandlerTable' in repr(t) for t, v in o[0].dec.items())]
        what = 'for the table %s' % ' '.join('[%d, %d) -> %d' % x[:3] for x in entries)
        if not outs:
            bad('none', 'does not return ' + what)
        for s, k, v in outs:
            es = events(s)
            sto = {e[1][2][1]: simp(e[2]) for e in s.eff if e[0] == 'store' and e[1][0] == 'slot' and e[1][1] == G('body', ('v', 'index')) and e[1][2][0] == 'c'}
            el = {e[2][1]: e[3] for e in es if e[0] == 'element' and e[1] == ('v', 'table') and e[2][0] == 'c'}
            exp, cls = {}, {0: ('v', 'index')}
            for n, (o, a, b, h, ct) in enumerate(want):
                exp[3 * n], exp[3 * n + 1], exp[3 * n + 2] = a, b, h
                cls[n + 1] = V('catch', ('c', ct - 1)) if ct else ('c', 0)
            rel_ = {k2: reladdr(x) for k2, x in sto.items()}
            if rel_ != exp:
                show = lambda d: ' '.join('%s:%s' % (k2, d[k2]) for k2 in sorted(d))
                bad('ranges', 'must record [%s] %s but records [%s]' % (show(exp), what, show(rel_)))
            if {k2: plain(x) for k2, x in el.items()} != cls:
                bad('types', 'records the wrong catch types %s: %s' % (what, ' '.join('%s:%s' % (k2, sh(x)) for k2, x in sorted(el.items()))))
            size = [e for e in es if e[0] in ('table', 'cut table')]
            n = size[-1][1] if size else None
            if n != ('c', len(want) + 1) or plain(v) != ('v', 'table'):
                bad('size', 'must return a table of %d entries %s but its length is %s' % (len(want), what, sh(n)))


def reladdr(x):
    """address of an instruction relative to the start of the code"""
    r = repr(x)
    n = x
    while n[0] in ('low', 'sext', 'zext', 'cast', 't'):
        n = n[2]
    if n[0] == 'lin':
        d = dict(n[1])
        if d.pop(('a', 'start'), 0) in (-1, 2**32 - 1, 2**64 - 1) and len(d) == 1:
            (q, c), = d.items()
            if c == 1:
                while q[0] in ('low', 'sext', 'zext', 'cast', 't'):
                    q = q[2]
                if q == ('a', 'end'):
                    return 'end'
                if q[:2] == ('v', 'mip') and q[2][0] == 'c':
                    return q[2][1]
    return '?' + r[:80]


def check(res, tier):
    res.rule('findExceptionHandler of both VMs, evaluated over concrete exception tables, positions and sets of matching types, returns the first entry, in table order, '
             'whose range contains the instruction and whose type matches, and 0 if there is none; exceptionMatch accepts every type for a finally handler and instances otherwise.')
    res.rule('findUnwindTarget goes from frame to frame, releases the monitor of each synchronized method it leaves exactly once, and stops at the first frame with a handler, '
             'with the exception stored in that frame\'s slot and cleared in the thread, or at the frame that called into compiled code.')
    res.rule('translateExceptionHandlerTable keeps the entries in order and maps start, end and handler to the code compiled for them.')
    P = prog.world('jit')
    Q = prog.world('interpret')
    lookup(res, P, '/compile.cpp', False)
    lookup(res, Q, '/interpret.cpp', True)
    matching(res, P)
    unwinding(res, P)
    translated(res, P)
