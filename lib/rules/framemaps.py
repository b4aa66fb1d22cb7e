"""G03: the frame maps of compiled code mark exactly the references, and the collector visits what they mark"""
import itertools
import absint
import prog
from absint import Eval, Stop, TooComplex, normx, norm, strip_casts
from prog import AnalysisBroken, rel
from rules import runtime
from rules.runtime import A, PTR, U32, U64, simp, evalc2
from rules.exceptions import events, find
from rules.nativecalls import Nm, where, esize, run, T, M

CTX = A('context', PTR)
FILES = ('/compile.cpp', '/common.h', '/math.h')
KINDS = ('PushContextEvent', 'PopContextEvent', 'IpEvent', 'MarkEvent', 'ClearEvent', 'PushExceptionHandlerEvent', 'TraceEvent')


class Fm(Nm):
    """maps are arrays of words: ('local', ..), ('a', 'orig'), ('v', 'table'), ('v', 'map', k)"""
    max_visits = 80

    def __init__(self, P, g, truth, read, prims=()):
        Nm.__init__(self, P, g, {}, read, files=FILES, prims=set(prims))
        self.truth.update({'call:memcpy': self.memcpy, 'call:memset': self.memset, 'call:fprintf': lambda *z: ('void',), 'call:printSet': lambda *z: ('void',)})
        self.truth.update(truth)

    def decide(self, st, t):
        x = strip_casts(t)
        if x[0] == 'op' and x[1] in ('!=', '==') and x[4] == ('c', 0) and x[2][0] == 'p':
            x = strip_casts(x[3])
            if x[0] in ('a', 'v', 'te', 'local'):
                return int(t[1] == '!=')
        if x[0] == 'a' and x[2] == PTR or x[0] in ('te',):
            return 1
        if x[0] == 'c' and isinstance(x[1], int):
            return x[1]
        return Nm.decide(self, st, t)

    words = 0

    def word(self, st, b, k):
        if self.words and not 0 <= k < self.words and (b[0] in ('local', 'a', 'te') or b[:2] == ('v', 'map')):
            raise Stop('outside', 'reads outside a map')
        b = b[:2] if b[0] == 'a' else b
        v = st.env.get(('idx', b, ('c', k)))
        if v is None:
            v = self.read(st, b, k * 8, 8, 'unsigned long')
        return v

    def put(self, st, b, k, v):
        if self.words and not 0 <= k < self.words and (b[0] in ('local', 'a', 'te') or b[:2] == ('v', 'map')):
            raise Stop('outside', 'writes outside a map')
        st.env[('idx', b[:2] if b[0] == 'a' else b, ('c', k))] = v

    def load(self, st, f, i, lv):
        if lv[1] in ('idx', 'deref'):
            b, o = where(lv[2] if lv[1] == 'deref' else ('padd', f.type(i), lv[2], lv[3]))
            if b == ('tab',) and o is not None and esize(f.type(i)) == 4:
                if not 0 <= o < 4 * self.size(st):
                    raise Stop('outside', 'reads outside the table of frame maps')
                return st.env.get(('tab', o // 4), ('c', 0))
            if o is not None and esize(f.type(i)) == 8 and o % 8 == 0:
                v = self.word(st, b, o // 8)
                if v is not None:
                    return v
        return Nm.load(self, st, f, i, lv)

    def size(self, st):
        return st.x.get('table', 0)

    def store(self, st, f, i, lv, v):
        if lv[1] in ('idx', 'deref'):
            b, o = where(lv[2] if lv[1] == 'deref' else ('padd', f.type(i), lv[2], lv[3]))
            if b == ('tab',) and o is not None and esize(f.type(i)) == 4:
                if not 0 <= o < 4 * self.size(st):
                    raise Stop('outside', 'writes outside the table of frame maps')
                st.env[('tab', o // 4)] = simp(v)
                return True
            if o is not None and esize(f.type(i)) == 8 and o % 8 == 0:
                self.put(st, b, o // 8, v)
                return True
        return Nm.store(self, st, f, i, lv, v)

    def memcpy(self, e, st, f, c, a, v):
        n = evalc2(v[2], {})
        (d, o), (s, q) = where(v[0]), where(v[1])
        if n is None or n % 8 or o is None or q is None:
            return None
        x = [self.word(st, s, q // 8 + k) for k in range(n // 8)]
        if None in x:
            raise TooComplex('copy of unknown words')
        for k, w in enumerate(x):
            self.put(st, d, o // 8 + k, w)
        return ('void',)

    def memset(self, e, st, f, c, a, v):
        n = evalc2(v[2], {})
        d, o = where(v[0])
        b = evalc2(v[1], {})
        if n is None or n % 8 or o is None or b is None:
            return None
        b &= 255
        for k in range(n // 8):
            self.put(st, d, o // 8 + k, ('c', int.from_bytes(bytes([b]) * 8, 'little')))
        return ('void',)


# ---- the event log --------------------------------------------------------

class Log:
    """the log as bytes: what is at an offset, as it was appended"""

    def __init__(self, events):
        self.at, self.n = {}, 0
        for e in events:
            for size, v in e:
                self.at[self.n] = (size, v)
                self.n += size

    def hooks(self):
        def get(size):
            def h(e, st, f, c, a, v):
                if len(v) < 2:
                    return None
                o = evalc2(v[1], {})
                s, x = self.at.get(o, (None, None))
                if s != size:
                    raise Stop('misread', 'reads %s byte(s) at offset %s of the event log where %s were appended' % (size, o, s))
                return x
            return h
        one, addr = get(1), get(8)

        def anyget(e, st, f, c, a, v):
            if len(v) == 2:
                return one(e, st, f, c, a, v)
            if len(v) == 4:
                n = evalc2(v[3], {})
                x = get(n)(e, st, f, c, a, v)
                d = strip_casts(v[2])
                if d[0] == 'addr' and isinstance(d[1], tuple) and d[1][0] == 'lv':
                    st.env[d[1][1:]] = x
                    return ('void',)
            return None
        return {'call:get': anyget, 'call:get2': get(2), 'call:get4': get(4), 'call:getAddress': addr, 'call:length': lambda e, st, f, c, a, v: ('c', self.n)}


def appended(st):
    return [e[1:] for e in events(st) if e[0] == 'log']


APPEND = {'append': 1, 'append2': 2, 'append4': 4, 'appendAddress': 8}


def append(size):
    def h(e, st, f, c, a, v):
        if size == 1 and len(v) == 3:
            return None
        x = v[1]
        n = evalc2(x, {})
        if n is not None:
            x = ('c', n & ((1 << (8 * size)) - 1))
        st.x.setdefault('ev', []).append(('log', size, x))
        return ('void',)
    return h


LOGGING = {'call:' + k: append(v) for k, v in APPEND.items()}


def producers(res, P, ek):
    """{kind: function from operands to the appended entries}, from the code that appends them"""
    frame = {g.n.split('::')[-1]: g for g in P.funcs.values() if g.b and g.file.endswith('/compile.cpp') and '::Frame::' in g.n and g.n.split('::')[-1] in ('set', 'startLogicalIp', 'visitLogicalIp', 'dispose', 'trace')}
    ctor = [g for g in P.funcs.values() if g.b and g.file.endswith('/compile.cpp') and g.n.endswith('::Frame::Frame') and len(g.params) == 2]
    for k in ('set', 'startLogicalIp', 'visitLogicalIp', 'dispose', 'trace'):
        if k not in frame:
            raise AnalysisBroken('Frame::%s was not found' % k)
    sub = A('sub', PTR)

    def log(g, args, truth, this=('frame',)):
        mod = Fm(P, g, dict(LOGGING, **{'call:localSize': lambda *z: ('c', 4), 'call:maxStack': lambda *z: ('c', 4), 'call:frameSize': lambda *z: ('c', 8), '.context': lambda x: CTX, '.t': lambda x: T,
                                        'call:visitLogicalIp': lambda e, st, f, c, a, v: ev(st, 'ip', v[1]), 'call:startLogicalIp': lambda e, st, f, c, a, v: ev(st, 'ip', v[1]),
                                        **truth}), lambda *z: None)
        out = []
        for st, k, v in Eval(P, mod).run(g, args, this=this):
            if k == 'return':
                out.append((st, v))
        if not out:
            raise TooComplex('no path')
        return out

    def bad(g, case, what):
        res.bad('framemap|log|%s|%s' % (g.n.split('::')[-1], case), rel(g.file), g.l, g.n, what)
    made = {}
    for g in (frame['startLogicalIp'], frame['visitLogicalIp']):
        for base in (0, 300, 70000):
            outs = log(g, [('c', 17)], {'.subroutine': ('c', 0) if base == 0 else sub, '.duplicatedBaseIp': ('c', base)})
            res.count('appends to the event log evaluated', floor=10)
            for st, v in outs:
                a = appended(st)
                ips = [simp(e[1]) for e in events(st) if e[0] == 'ip']
                if [x[0] for x in a[:1]] != [1] or evalc2(a[0][1], {}) != ek['IpEvent'] or len(a) != 2:
                    bad(g, 'kind', 'must append an IpEvent with one operand when the compiler reaches an instruction, but appends %r' % (a,))
                elif a[1][1] != ('c', 17 + base):
                    bad(g, 'operand%d' % base, 'logs instruction 17 of a subroutine copied to %d as instruction %s: the maps of that copy are merged with those of other instructions or not merged at all' % (base, a[1][1][1:]))
                elif ips and ips[-1] != ('c', 17 + base):
                    bad(g, 'compiler', 'must tell the code generator the same instruction as the event log')
                else:
                    made['ip'] = a[1][0]
    for ty in ('object', 'i4', 'i8', 'f8', 'iptr'):
        for ix in (0, 3, 5, 300):
            g = frame['set']
            outs = log(g, [('c', ix), ('ty', ty)], {'call:operator==': lambda e, st, f, c, a, v: ('c', int(v[0] == v[1])), 'call:operator!=': lambda e, st, f, c, a, v: ('c', int(v[0] != v[1])), 'call:object': lambda *z: ('ty', 'object'), 'call:i4': lambda *z: ('ty', 'i4')})
            res.count('appends to the event log evaluated', floor=10)
            for st, v in outs:
                a = appended(st)
                want = ek['MarkEvent' if ty == 'object' else 'ClearEvent']
                if len(a) != 2 or evalc2(a[0][1], {}) != want or a[1][1] != ('c', ix):
                    bad(g, 'object' if ty == 'object' else 'other', 'a slot that receives %s must be %s in the event log' % ('a reference' if ty == 'object' else 'something else than a reference', 'marked' if ty == 'object' else 'cleared'))
                else:
                    made['slot'] = a[1][0]
    for lv in (0, 1, 2, 3):
        outs = log(frame['dispose'], [], {'.level': ('c', lv)})
        for st, v in outs:
            a = [evalc2(x[1], {}) for x in appended(st)]
            res.count('appends to the event log evaluated', floor=10)
            if a != ([ek['PopContextEvent']] if lv > 1 else []):
                bad(frame['dispose'], 'level', 'leaving a path must append PopContextEvent exactly if entering it appended PushContextEvent')
    dtor = [g for g in P.funcs.values() if g.b and g.file.endswith('/compile.cpp') and '::Frame::' in g.n and g.n.split('::')[-1] == '~Frame']
    for g in dtor:
        for lv in (1, 2, 3):
            for st, v in log(g, [], {'.level': ('c', lv)}):
                a = [evalc2(x[1], {}) for x in appended(st)]
                res.count('appends to the event log evaluated', floor=10)
                if a != ([ek['PopContextEvent']] if lv > 1 else []):
                    bad(g, 'level', 'leaving a path must append PopContextEvent exactly if entering it appended PushContextEvent')
    for g in ctor:
        if not any(f.endswith('Frame *') for f in (g.vars[p][1] for p in g.params)):
            continue
        for lv in (0, 1, 2):
            outs = log(g, [('outer',), A('map', PTR)], {'.level': lambda x, lv=lv: ('c', lv) if x == ('outer',) else None, 'call:memcpy': lambda *z: ('void',)}, this=('obj', 0, 'Frame'))
            for st, v in outs:
                a = [evalc2(x[1], {}) for x in appended(st)]
                res.count('appends to the event log evaluated', floor=10)
                if a != ([ek['PushContextEvent']] if lv + 1 > 1 else []):
                    bad(g, 'level', 'entering a path at level %d must append %s' % (lv + 1, 'PushContextEvent' if lv else 'nothing'))
    return made


def ty(x):
    while x[0] == 'r' and len(x) > 3 and len(x[3]) == 1:
        x = x[3][0]
    return x


def ev(st, *a):
    st.x.setdefault('ev', []).append(a)
    return ('void',)


# ---- one event ------------------------------------------------------------

def conj(*t):
    """parts of a conjunction of words"""
    r = set()
    for x in t:
        x = normx(x)
        while isinstance(x, tuple) and x[0] in ('zext', 'sext') and x[1] == 64:
            x = x[2]
        if x[0] == '&':
            r |= conj(*x[1:])
        elif x == ('c', (1 << 64) - 1) or x == ('c', -1):
            pass
        else:
            r.add(x)
    return frozenset(r)


W = 2
IP = 3


def events_of(ek, made):
    k = lambda n: (1, ('c', ek[n]))
    ip, sl = made.get('ip', 2), made.get('slot', 2)
    return {'push': [k('PushContextEvent')], 'pop': [k('PopContextEvent')], 'ip': [k('IpEvent'), (ip, ('c', IP))], 'mark5': [k('MarkEvent'), (sl, ('c', 5))], 'mark70': [k('MarkEvent'), (sl, ('c', 70))],
            'clear5': [k('ClearEvent'), (sl, ('c', 5))], 'clear70': [k('ClearEvent'), (sl, ('c', 70))], 'trace': [k('TraceEvent'), (8, ('te',))],
            'handler': [k('PushExceptionHandlerEvent'), (made.get('range', 2), ('c', 11)), (made.get('range', 2), ('c', 22))]}


R = [A('R%d' % k, U64) for k in range(W)]
TB = [A('T%d' % k, U64) for k in range(W)]
H = [A('H%d' % k, U64) for k in range(W)]
OLD = [A('M%d' % k, U64) for k in range(W)]


def step(res, P, ek, made):
    g = find(P, 'calculateFrameMaps', 5, '/compile.cpp')
    if g is None:
        raise AnalysisBroken('calculateFrameMaps was not found')
    E = events_of(ek, made)
    done = set()

    def bad(case, what):
        if (case, what) not in done:
            done.add((case, what))
            res.bad('framemap|%s|%s' % (case, what), rel(g.file), g.l, g.n, what)

    def evaluate(seq, visits=1, watch=None, orig=True):
        log = Log([E[x] for x in seq])

        def read(st, b, o, n, t):
            b = strip_casts(b)
            if b == ('a', 'orig') or b[:2] == ('a', 'orig'):
                return R[o // 8] if o is not None and 0 <= o < 8 * W else None
            if b == ('v', 'table'):
                return TB[o // 8 - IP * W] if o is not None and 0 <= o // 8 - IP * W < W else ('outside',)
            if b == ('te', 'map'):
                return OLD[o // 8] if o is not None and 0 <= o < 8 * W else ('outside',)
            return None
        mod = None

        def inner(e, st, f, c, a, v):
            b, o = where(v[2])
            x = tuple(mod.word(st, b, o // 8 + k) for k in range(W)) if o is not None and b[0] in ('local', 'a') else None
            ev(st, 'nested', x, evalc2(v[3], {}), simp(v[4]))
            return ('c', log.n)

        def roots(e, st, f, c, a, v):
            b, o = where(v[1])
            ev(st, 'handler roots', evalc2(v[3], {}), evalc2(v[4], {}), evalc2(v[2], {}))
            for k in range(W):
                mod.put(st, b, o // 8 + k, H[k])
            return ('void',)

        def visited(e, st, f, c, a, v):
            if 'visitTable' in repr(v[0]):
                if v[1] != ('c', IP):
                    raise Stop('misread', 'looks up the number of visits of another instruction')
                return ('c', visits)
            return None
        mod = Fm(P, g, dict(log.hooks(), **{
            'call:frameMapSizeInWords': lambda *z: ('c', W), 'call:calculateFrameMaps': inner, 'call:calculateTryCatchRoots': roots, 'call:operator[]': visited,
            'call:begin': lambda e, st, f, c, a, v: ('v', 'table') if 'rootTable' in repr(v[0]) else None, '.map': lambda x: ('te', 'map') if x == ('te',) else None,
            '.watch': lambda x: None if watch is None or x != ('te',) else ('c', watch), '.dirtyRoots': None}), read)
        mod.words = W
        res.count('events of the analysis evaluated', floor=30)
        try:
            outs = [o for o in Eval(P, mod).run(g, [T, CTX, A('orig', PTR) if orig else ('c', 0), ('c', 0), A('result', PTR)]) if o[1] != 'abort']
        except TooComplex:
            res.count('cases too complex to evaluate')
            return
        for st, k, v in outs:
            if k == 'misread':
                bad('log', v)
            if k == 'outside':
                bad('bounds', v)
            if k != 'return':
                continue
            yield st, v, mod, log

    def final(st, mod):
        b = A('result', PTR)
        for key in st.env:
            if isinstance(key, tuple) and key[0] == 'idx' and strip_casts(key[1])[:2] == ('a', 'result'):
                b = key[1]
        return [st.env.get(('idx', b, ('c', k))) for k in range(W)]

    def nested(st):
        return [e for e in events(st) if e[0] == 'nested']

    def dirty(st):
        x = None
        for e in events(st):
            if e[0] == 'set' and e[1] == 'dirtyRoots':
                x = evalc2(e[3], {})
        return x

    def changed(st):
        """whether the words were found to differ: True, False or not looked at"""
        r = []
        for t, v in st.dec.items():
            t = normx(t)
            if t[0] == 'cmp' and t[1] in ('==', '!='):
                r.append(v == (t[1] == '!='))
        return r
    # what flows on is observed as what a nested path is given
    for st, v, mod, log in evaluate(['push']):
        n = nested(st)
        if len(n) != 1 or n[0][1] is None or [conj(x) for x in n[0][1]] != [conj(x) for x in R] or n[0][2] != 1:
            bad('push', 'a path that branches off must start with the map at the branch')
        if v is None or evalc2(v, {}) != log.n:
            bad('push', 'must continue after the events of the path that branched off')
    for st, v, mod, log in evaluate(['push'], orig=False):
        n = nested(st)
        if len(n) != 1 or n[0][1] is None or any(evalc2(x, {}) != 0 for x in n[0][1]):
            bad('entry', 'must start with no slot marked')
    for st, v, mod, log in evaluate(['pop', 'mark5']):
        if v is None or evalc2(v, {}) != 1:
            bad('pop', 'the end of a path must end its analysis, just after the event')
    for name, bit in (('mark5', (0, 5)), ('mark70', (1, 6))):
        for st, v, mod, log in evaluate([name, 'push']):
            n = nested(st)
            w = [list(R), list(R)][0]
            if len(n) != 1 or n[0][1] is None or [normx(x) for x in n[0][1]] != [normx(absint.mkop('|', U64, R[k], ('c', 1 << bit[1])) if k == bit[0] else R[k]) for k in range(W)]:
                bad('mark', 'storing a reference must mark exactly its slot')
    for name, bit in (('clear5', (0, 5)), ('clear70', (1, 6))):
        for st, v, mod, log in evaluate([name, 'push']):
            n = nested(st)
            if len(n) != 1 or n[0][1] is None or [normx(x) for x in n[0][1]] != [normx(absint.mkop('&', U64, R[k], ('c', ~(1 << bit[1]) & (2**64 - 1))) if k == bit[0] else R[k]) for k in range(W)]:
                bad('clear', 'storing something else than a reference must clear exactly the slot')
    # joins
    for visits in (1, 2, 3):
        for nxt in ((), ('pop',), ('handler',), ('push',), ('mark5',), ('trace',), ('ip',)):
            ends = nxt in ((), ('pop',), ('handler',))
            for st, v, mod, log in evaluate(['ip'] + list(nxt), visits):
                tab = [None] * W
                for key, x in st.env.items():
                    if isinstance(key, tuple) and key[0] == 'idx' and key[1] == ('v', 'table') and key[2][0] == 'c':
                        k = key[2][1] - IP * W
                        if not 0 <= k < W:
                            bad('join', 'writes the map of another instruction')
                        else:
                            tab[k] = x
                for k in range(W):
                    got = conj(tab[k]) if tab[k] is not None else None
                    if visits > 1 and (got is None or not got >= {('a', 'T%d' % k), ('a', 'R%d' % k)}) or got is not None and not got <= {('a', 'T%d' % k), ('a', 'R%d' % k)}:
                        bad('join', 'where paths join, a slot is marked only if it is marked on all of them')
                ch = changed(st)
                if visits > 1 and ends and any(ch) and dirty(st) != 1:
                    bad('dirty', 'a path that ends by joining code which was analysed before must have that code analysed again if it marks fewer slots%s' % (', also if the next event is that of an exception handler' if nxt == ('handler',) else ''))
                if visits > 1 and ends and not ch and dirty(st) != 1:
                    bad('dirty', 'a path that ends by joining code which was analysed before must have that code analysed again if it marks fewer slots%s' % (', also if the next event is that of an exception handler' if nxt == ('handler',) else ''))
                if dirty(st) == 0:
                    bad('dirty', 'must not forget that code has to be analysed again')
                if visits <= 1 and dirty(st) == 1 and not any(ch):
                    bad('dirty', 'must not have code analysed again if nothing changed')
        for st, v, mod, log in evaluate(['ip', 'push'], visits):
            n = nested(st)
            for k in range(W):
                got = conj(n[0][1][k]) if len(n) == 1 and n[0][1] else None
                if got is None or not got <= {('a', 'T%d' % k), ('a', 'R%d' % k)} or visits > 1 and len(got) != 2 or ('a', 'R%d' % k) not in got:
                    bad('join', 'after a join the slots marked on all paths stay marked')
    # places that can be interrupted
    for watch in (0, 1):
        for st, v, mod, log in evaluate(['trace', 'push'], watch=watch):
            n = nested(st)
            new = [st.env.get(('idx', ('te', 'map'), ('c', k))) for k in range(W)]
            if [x if x is None else conj(x) for x in new] != [conj(x) for x in R]:
                bad('trace', 'the map of a place that can be interrupted must be the one of the path that reaches it')
            if len(n) != 1 or n[0][1] is None or [conj(x) for x in n[0][1]] != [conj(x) for x in R] or n[0][2] != log.n:
                bad('trace', 'must go on with the same map and the next event')
            ch = changed(st)
            if watch and (any(ch) or not ch) and dirty(st) != 1:
                bad('watch', 'a place in the range of an exception handler whose map changes must have the handler analysed again')
            if dirty(st) == 0 or not watch and dirty(st) == 1 and not any(ch):
                bad('watch', 'must not forget that code has to be analysed again')
    for st, v, mod, log in evaluate(['handler']):
        n = nested(st)
        hr = [e for e in events(st) if e[0] == 'handler roots']
        if [x[1:] for x in hr] != [(11, 22, W)]:
            bad('handler', 'must start from the maps of the places in the range of the handler')
        if len(n) != 1 or n[0][1] is None or [conj(x) for x in n[0][1]] != [conj(x) for x in H] or n[0][2] != log.n:
            bad('handler', 'a handler must start with the slots marked at all places in its range')


def handler_roots(res, P):
    g = find(P, 'calculateTryCatchRoots', 5, '/compile.cpp')
    if g is None:
        raise AnalysisBroken('calculateTryCatchRoots was not found')
    done = set()
    for ips in ((), (10,), (11,), (21,), (22,), (11, 15), (5, 12), (12, 40), (10, 11, 21, 22), (13, 14, 15)):
        def read(st, b, o, n, t):
            b = strip_casts(b)
            if b[:2] == ('v', 'map') and o is not None and 0 <= o < 8 * W:
                return A('M%d_%d' % (b[2], o // 8), U64)
            return None
        mod = Fm(P, g, {'.traceLog': ('te', 0) if ips else ('c', 0), '.next': lambda x: (('te', x[1] + 1) if x[1] + 1 < len(ips) else ('c', 0)) if x[0] == 'te' else None,
                        '.ip': lambda x: ('c', ips[x[1]]) if x[0] == 'te' else None, '.map': lambda x: ('v', 'map', x[1])}, read)
        mod.words = W
        for st, k, v in run(res, P, g, mod, [CTX, A('roots', PTR), ('c', W), ('c', 11), ('c', 22)]):
            if k == 'outside' and v not in done:
                done.add(v)
                res.bad('framemap|handler range|bounds', rel(g.file), g.l, g.n, v)
            if k != 'return':
                continue
            res.count('handler ranges evaluated', floor=8)
            inside = [j for j, x in enumerate(ips) if 11 <= x < 22]
            got = [None] * W
            for key, x in st.env.items():
                if isinstance(key, tuple) and key[0] == 'idx' and strip_casts(key[1])[:2] == ('a', 'roots') and key[2][0] == 'c' and key[2][1] < W:
                    got[key[2][1]] = conj(x)
            want = [frozenset(('a', 'M%d_%d' % (j, q)) for j in inside) for q in range(W)]
            watched = sorted(e[2][1] for e in events(st) if e[0] == 'set' and e[1] == 'watch' and evalc2(e[3], {}) == 1)
            what = 'the slots marked at the start of a handler must be those marked at every place in its range, and at no other' if got != want else \
                'a place in the range of a handler must be watched for changes' if not set(inside) <= set(watched) else None
            if what and what not in done:
                done.add(what)
                res.bad('framemap|handler range|' + what, rel(g.file), g.l, g.n, what)


def space(res, P):
    """the maps at joins start with every slot marked and have room for every instruction"""
    ctor = [h for h in P.funcs.values() if h.b and h.file.endswith('/compile.cpp') and h.n.endswith('::Context::Context') and len(h.params) == 3 and any(h.vars[q][1].endswith('BootContext *') for q in h.params)]
    ext = [h for h in P.funcs.values() if h.b and h.file.endswith('/compile.cpp') and '::Context::' in h.n and len(h.params) == 1 and h.n.endswith('extendLogicalCode')]
    if not ctor or not ext:
        raise AnalysisBroken('the constructor of Context or extendLogicalCode was not found')
    ones = lambda x: evalc2(x, {}) in (2**64 - 1, -1)
    for g, n, args in ((ctor[0], 3, [T, A('boot', PTR), M]), (ext[0], 2, [('c', 30)])):
        def made(e, st, f, c, a, v):
            x = v[-1]
            if x[0] == 'addr' and isinstance(x[1], tuple) and x[1][0] == 'lv':
                x = st.env.get(x[1][1:], x)
            if x[0] == 'tmp':
                x = x[1]
            ev(st, 'made', simp(v[-2]), simp(x))
            return ('slice', len(events(st)))
        mod = Fm(P, g, {'call:allocAndSet': made, 'call:cloneAndSet': made, 'call:frameMapSizeInWords': lambda *z: ('c', W), '.length': lambda x: ('c', 100), '.count': lambda x: ('c', 100 * W) if 'rootTable' in repr(x) else ('c', 100) if 'visitTable' in repr(x) else None}, lambda *z: None)
        for st, k, v in run(res, P, g, mod, args, this=CTX):
            if k != 'return':
                continue
            res.count('tables of the analysis evaluated', floor=2)
            m = [e[1:] for e in events(st) if e[0] == 'made']
            size = 100 if g is ctor[0] else 130
            if len(m) != 2 or any(evalc2(x, {}) is None for y in m for x in y):
                res.count('cases too complex to evaluate')
                continue
            n = [(evalc2(a, {}), x) for a, x in m]
            maps, visits = [a for a, x in n if ones(x)], [a for a, x in n if evalc2(x, {}) == 0]
            what = 'a map at a join must start with every slot marked, and an instruction as not visited: only what the paths have in common remains' if not maps or not visits else \
                'must have room for a map and a count for each instruction' if min(maps) < size * W or min(visits) < size else None
            if what:
                res.bad('framemap|space|%s|%s' % (g.n.split('::')[-1], what), rel(g.file), g.l, g.n, what)


# ---- what the instructions log --------------------------------------------

def bytecodes(res, P, ek):
    """after each instruction the log marks the slots that hold references: those of the operand stack and the locals"""
    from rules import interp, jit, jitops
    f, d = jit.find(P)
    ops = interp.opcode_enum(P)
    blocks = interp.case_blocks(f, d)
    names = jit.Names(P)
    seen = set()
    for c in jitops.cases(P):
        if ops.get(c.op) not in blocks:
            continue
        b = blocks[ops[c.op]]
        w = c.scen.get('alt') or c.want

        def bad(what, c=c, b=b):
            if (c.op, what) not in seen:
                seen.add((c.op, what))
                res.bad('framemap|bytecode|%s|%s' % (c.op.rstrip('_'), what), rel(f.file), interp.first_line(f, b), 'translation of ' + c.op.rstrip('_'), what)
        sc = jitops.scenario(P, ops, c)
        sc['try'] = False
        try:
            outs = jit.evaluate(P, names, f, d, b, sc)
        except TooComplex:
            res.count('cases too complex to evaluate')
            continue
        for o in outs:
            if o.kind in ('abort', 'loop', 'throw') or o.faults:
                continue
            res.count('translations whose marks were compared', floor=200)
            base = jit.LOCALS + jit.FILL
            marks = {}
            p = base
            for t in sc['stack']:
                for q in range(jit.slots(t)):
                    marks[p] = t == 'object'
                    p += 1
            first = {y for y, m in marks.items() if m}
            log = [e for e in o.eff if e[0] in ('log', 'storeLocal', 'trace')]
            k = 0
            want, local = {}, {}
            while k < len(log):
                e = log[k]
                k += 1
                if e[0] == 'trace':
                    if not {y for y, m in marks.items() if m} <= first:
                        bad('a slot must not be marked before the place where the instruction can be interrupted if it is filled after it')
                    continue
                if e[0] == 'storeLocal':
                    x = norm(e[2], 32)
                    for q in range(jit.slots(e[1][1]) if x[0] == 'c' and c.stack and x[1] < 65534 else 0):
                        want[x[1] + q] = e[1][1] == 'object'
                    continue
                kind = evalc2(e[2], {}) if e[1] == 'append' else None
                if kind in (ek['MarkEvent'], ek['ClearEvent']) and k < len(log) and log[k][0] == 'log':
                    x = norm(log[k][2], 32)
                    k += 1
                    if x[0] != 'c':
                        continue
                    (local if x[1] in want or x[1] < jit.LOCALS else marks)[x[1]] = kind == ek['MarkEvent']
            for y, m in want.items():
                if local.get(y) is not m:
                    bad('a local variable that receives %s must be %s' % (('a reference', 'marked') if m else ('something else than a reference', 'cleared')))
            for y in local:
                if y not in want and c.stack and 1 <= y < 65534:
                    bad('must not mark or clear a local variable it does not store into')
            if w.end == 'end':
                continue
            p = base
            for v, n in zip(o.stack, o.slots):
                for q in range(n):
                    if bool(marks.get(p)) != (v[1] == 'object'):
                        bad('a slot of the operand stack must be marked exactly if it holds a reference')
                    p += 1
            for y, m in marks.items():
                if p <= y < base + 64 and m:
                    bad('a slot that was taken from the operand stack must be cleared')


# ---- the tables and their readers -----------------------------------------

def pick(res, P, name, n):
    c = [g for g in P.funcs.values() if g.b and not g.cls and g.n.split('::')[-1] == name and len(g.params) == n and g.file.endswith('/compile.cpp')]
    if len(c) != 1:
        raise AnalysisBroken(name + ' was not found')
    return c[0]


def slot(e, st, f, c, a, v):
    x = v[0]
    b = ('tab',) if x == ('get', 'body', ('tab',)) else None
    return ('lv', 'deref', ('padd', 'int', b, v[1])) if b else None


def tables(res, P):
    """what is stored for a place is what is found for it"""
    C = prog.world('cont')
    make, visit, walk = pick(res, P, 'makeSimpleFrameMapTable', 5), pick(res, P, 'visitStackAndLocals', 5), pick(res, C, 'walkContinuationBody', 4)
    body = [x['cv'] for x in C.globals if x['n'] == 'vm::ContinuationBody' and isinstance(x.get('cv'), int)]
    if not body:
        raise AnalysisBroken('the layout of continuations was not found')
    body = body[0] // 8
    pat = [0x5a3c96c35aa5c3f1, 0xfedcba9876543210, 0x8000000180000001, 0xffffffffffffffff, 0]
    done = set()

    def bad(g, what):
        if (g.n, what) not in done:
            done.add((g.n, what))
            res.bad('framemap|table|%s|%s' % (g.n.split('::')[-1], what), rel(g.file), g.l, g.n, what)
    for bits, n in ((1, 1), (5, 3), (31, 2), (32, 2), (33, 3), (40, 1), (63, 2), (64, 2), (70, 3), (0, 2)):
        for cut in (bits, bits // 2):
            offs = [24, 100, 70000][:n]

            def read(st, b, o, size, t):
                b = strip_casts(b)
                if b[:2] == ('v', 'map') and size == 8 and o is not None:
                    return ('c', pat[(b[2] + o // 8) % len(pat)])
                return None

            def array(e, st, f, c, a, v):
                st.x['table'] = evalc2(v[1], {})
                return ('tab',)
            common = {'call:operator[]': slot, '.length': None, 'call:frameMapSizeInBits': lambda *z: ('c', bits), '.stackMap': ('tab',)}
            mod = Fm(P, make, dict(common, **{'call:makeIntArray': array, '.map': lambda x: ('v', 'map', x[1]), '.argumentIndex': ('c', cut), '.ip': ('c', 0),
                                              'call:value': lambda e, st, f, c, a, v: ('c', 5000 + offs[v[0][2][1]]) if v[0][:2] == ('get', 'address') else None}), read)
            mod.max_visits = 600
            elems = A('elements', PTR)
            own = mod.read
            mod.read = lambda st, b, o, size, t, own=own: ('te', o // 8) if strip_casts(b)[:2] == ('a', 'elements') else own(st, b, o, size, t)
            mod.truth['.length'] = lambda x: None
            res.count('tables of frame maps evaluated', floor=16)
            try:
                outs = Eval(P, mod).run(make, [T, CTX, ('c', 5000), elems, ('c', n)])
            except TooComplex:
                res.count('cases too complex to evaluate')
                continue
            for st, k, v in outs:
                if k == 'outside':
                    bad(make, v)
                if k != 'return':
                    continue
                tab = {q[1]: evalc2(x, {}) for q, x in st.env.items() if isinstance(q, tuple) and q[0] == 'tab'}
                size = st.x.get('table')
                for j, off in enumerate(offs):
                    base = BASE + body
                    want = [b for b in range(min(bits, cut)) if pat[(j + b // 64) % len(pat)] >> (b % 64) & 1]
                    for g, args in ((visit, [T, A('visitor', PTR), A('stack', PTR), M, A('ip', PTR)]), (walk, [T, A('walker', PTR), A('cont', PTR), ('c', 0)]), (walk, [T, A('walker', PTR), A('cont', PTR), ('c', base + 600 - bits // 2)])):
                        seen = []

                        def seen_(e, st, f, c, a, v):
                            x = v[-1]
                            seen.append(x)
                            return ('c', 1)
                        W2 = P if g is visit else C
                        m2 = Fm(W2, g, dict(common, **{
                            'call:difference': lambda *z: ('c', off), '.length': lambda x: ('c', size) if x == ('tab',) else None, 'call:visit': seen_, 'call:stackForFrame': lambda *z: ('v', 'stack'),
                            'call:localObject': lambda e, st, f, c, a, v: ('slot', v[3]), 'call:methodAddress': lambda *z: ('c', 0), 'call:follow': lambda e, st, f, c, a, v: v[-1],
                            'call:framePointerOffset': lambda e, st, f, c, a, v: ('c', 1024 if v and strip_casts(v[0])[:2] == ('a', 'cont') else 3), 'call:stackOffsetFromFrame': lambda *z: ('c', 20),
                            'call:localOffsetFromStack': lambda e, st, f, c, a, v: ('c', 600 - evalc2(v[1], {})) if evalc2(v[1], {}) is not None else None}), lambda *z: None)
                        m2.max_visits = 600
                        m2.size = lambda st: size
                        from absint import St
                        s0 = St()
                        for q, x in tab.items():
                            s0.env[('tab', q)] = ('c', x)
                        try:
                            o2 = Eval(W2, m2).run(g, args, st=s0)
                        except TooComplex:
                            res.count('cases too complex to evaluate')
                            continue
                        ends = [o for o in o2 if o[1] != 'abort' or True]
                        if len(ends) != 1 or ends[0][1] == 'loop':
                            res.count('cases too complex to evaluate')
                            continue
                        if ends[0][1] == 'outside':
                            bad(g, ends[0][2])
                        elif ends[0][1] == 'abort' and bits:
                            bad(g, 'must find the frame map of a place in the table')
                        elif g is visit:
                            got = sorted(evalc2(x[1], {}) if x[0] == 'slot' else -1 for x in seen)
                            if got != want:
                                bad(g, 'must visit exactly the slots that the frame map marks')
                        else:
                            got = [evalc2(x, {}) for x in seen]
                            if got != sorted(got, key=lambda x: x if x is not None else -1) or None in got:
                                bad(g, 'must walk the slots in the order of their addresses')
                            elif bits:
                                b2 = sorted(base + 600 - b for b in want)
                                b2 = [x for x in b2 if x >= evalc2(args[3], {})]
                                if got != b2:
                                    bad(g, 'must visit exactly the slots of a continuation that the frame map marks, from the given position on')


# a continuation's frame starts at its frame pointer less the words below it; its slots are 600 - slot further
BASE = 1024 // 8 - 3 - 20


def arguments(res, P):
    from rules.nativecalls import SPECS, parse
    g = pick(res, P, 'visitArguments', 4)
    done = set()
    for spec in SPECS:
        for static in (0, 1):
            seen = []

            def vis(e, st, f, c, a, v):
                b, o = where(v[1])
                seen.append(o // 8 if b[:2] == ('a', 'stack') and o is not None else None)
                return ('void',)

            def read(st, b, o, n, t):
                if 'spec' in repr(b) and b[0] != 'local' and o is not None and 0 <= o < len(spec):
                    return ('c', ord(spec[o]))
                return None
            mod = Fm(P, g, {'.flags': ('c', 8 if static else 0), 'call:visit': vis, 'call:frameReturnAddressSize': lambda *z: ('c', 2), 'call:frameFooterSize': lambda *z: ('c', 3)}, read)
            mod.inline = lambda h, own=mod.inline: own(h) or 'MethodSpecIterator' in h.n
            want, k = [], 0
            if not static:
                want, k = [5], 1
            for d in parse(spec)[0]:
                if d[0] in 'L[':
                    want.append(5 + k)
                k += 2 if d in 'JD' else 1
            outs = run(res, P, g, mod, [T, A('visitor', PTR), A('stack', PTR), M])
            if len(outs) != 1 or outs[0][1] != 'return':
                continue
            res.count('argument lists evaluated', floor=16)
            if seen != want and spec not in done:
                done.add(spec)
                res.bad('framemap|arguments|' + ('missing' if set(want) - set(seen) else 'extra'), rel(g.file), g.l, g.n,
                        'the references among the arguments of %s%s are words %s of its arguments but words %s are visited' % ('static ' if static else '', spec, [w - 5 for w in want], [None if w is None else w - 5 for w in seen]))


def stack(res, P):
    """frames and arguments that are visited, for stacks made of segments of compiled frames with native code between them"""
    g = pick(res, P, 'visitStack', 2)
    done = set()

    def bad(what):
        if what not in done:
            done.add(what)
            res.bad('framemap|stack|' + what, rel(g.file), g.l, g.n, what)
    for segs, targets in (([1], []), ([2], [1]), ([3], [0]), ([0], [0]), ([0], [1]), ([1, 1], [1, 1]), ([2, 1], [0, 1]), ([1, 2], [1, 0]), ([0, 2], [1, 1]), ([2, 0, 1], [1, 1, 1]), ([1, 0, 2], [0, 0, 1]), ([2, 3], [0]), ([1, 1, 1], [1, 0])):
        # segment s starts at stack ('stk', s, 0) and ip ('ip', s, 0); trace s leads to segment s + 1; targets[s] says whether trace s has a target method
        def method(e, st, f, c, a, v):
            x = v[1]
            if x[0] != 'ip':
                raise Stop('misread', 'looks up a method by something else than an instruction of the stack')
            return ('method', x[1], x[2]) if x[2] < segs[x[1]] else ('c', 0)

        def nxt(e, st, f, c, a, v):
            p, q = a[1], a[2]
            if p[0] != 'addr' or q[0] != 'addr':
                return None
            i, s = st.env.get(p[1][1:]), st.env.get(q[1][1:])
            i = strip_casts(i)
            ev(st, 'next', i, strip_casts(s), v[3], v[4], evalc2(v[5], {}))
            if i[0] != 'ip':
                raise Stop('misread', 'x')
            st.env[p[1][1:]] = ('ip', i[1], i[2] + 1)
            st.env[q[1][1:]] = ('stk', i[1], i[2] + 1)
            return ('void',)
        tr = lambda k: ('trace', k) if k < len(targets) else ('c', 0)
        mod = Fm(P, g, {'call:getIp': lambda *z: ('ip', 0, 0), '.stack': lambda x: ('stk', 0, 0) if x == ('a', 't') else ('stk', x[1] + 1, 0) if x[0] == 'trace' and x[1] + 1 < len(segs) else ('c', 0) if x[0] == 'trace' else None,
                        '.ip': lambda x: ('ip', x[1] + 1, 0) if x[0] == 'trace' and x[1] + 1 < len(segs) else None, '.trace': lambda x: tr(0), '.next': lambda x: tr(x[1] + 1) if x[0] == 'trace' else None,
                        '.targetMethod': lambda x: (('target', x[1]) if targets[x[1]] else ('c', 0)) if x[0] == 'trace' else None, 'call:methodForIp': method, 'call:nextFrame': nxt,
                        'call:visitArguments': lambda e, st, f, c, a, v: ev(st, 'args', v[2], v[3]), 'call:visitStackAndLocals': lambda e, st, f, c, a, v: ev(st, 'frame', v[2], v[3], v[4])}, lambda *z: None)
        own = mod.decide

        def decide(st, t):
            x = strip_casts(t)
            inv = None
            if x[0] == 'op' and x[1] in ('!=', '==') and strip_casts(x[4]) == ('c', 0):
                inv = x[1] == '=='
                x = strip_casts(x[3])
            if x[0] in ('stk', 'trace', 'target', 'method', 'ip'):
                return int(not inv) if inv is not None else 1
            return own(st, t)
        mod.decide = decide
        want = []
        for s, n in enumerate(segs):
            if s < len(targets) and targets[s]:
                want.append(('args', ('stk', s, 0), ('target', s)))
            for k in range(n):
                want.append(('frame', ('stk', s, k + 1), ('method', s, k), ('ip', s, k)))
            if s >= len(targets):
                break
        for st, k, v in run(res, P, g, mod, [T, A('visitor', PTR)]):
            if k == 'misread':
                bad(v)
            if k != 'return':
                continue
            res.count('stacks evaluated', floor=10)
            got = [e for e in events(st) if e[0] in ('args', 'frame')]
            if [e for e in got if e[0] == 'frame'] != [e for e in want if e[0] == 'frame']:
                bad('must visit every frame of compiled code on the stack, with the map of the instruction it stopped at')
            elif [e for e in got if e[0] == 'args'] != [e for e in want if e[0] == 'args']:
                bad('must visit the arguments of a method that is about to be called')
            m = [e for e in events(st) if e[0] == 'next']
            first = True
            for e in m:
                s, q = e[1][1], e[1][2]
                tgt = ('method', s, q - 1) if q else (('target', s) if s < len(targets) and targets[s] else ('c', 0))
                if e[4] != tgt or e[5] != int(s == 0 and q == 0) or e[3] != ('method', s, q):
                    bad('must tell the frame walker which method each frame called, and which frame is the innermost')


def entry(res, P, ek):
    """the marks of the parameters, the events of the handlers, and the passes over the log"""
    from rules.nativecalls import SPECS, parse
    g = [h for h in P.funcs.values() if h.b and h.file.endswith('/compile.cpp') and h.n.endswith('::compile') and len(h.params) == 2 and h.vars[h.params[1]][1].endswith('Context *')]
    if len(g) != 1:
        raise AnalysisBroken('compile(MyThread*, Context*) was not found')
    g = g[0]
    done = set()
    sizes = {}

    def bad(what):
        if what not in done:
            done.add(what)
            res.bad('framemap|compile|' + what, rel(g.file), g.l, g.n, what)

    def evaluate(spec, static, handlers=(), starts=(), dirty=()):
        ps = parse(spec)[0]
        foot = sum(2 if d in 'JD' else 1 for d in ps) + (not static)

        def read(st, b, o, n, t):
            if 'spec' in repr(b) and b[0] != 'local' and o is not None and 0 <= o < len(spec):
                return ('c', ord(spec[o]))
            return None

        def type_(name):
            return lambda e, st, f, c, a, v: ('ty', name)

        def visited(e, st, f, c, a, v):
            if 'visitTable' in repr(v[0]):
                return ('c', 1)
            if 'exceptionHandlerTable' in repr(v[0]) and v[1][0] == 'c':
                h = handlers[v[1][1]]
                return ('c', h[0] << 48 | h[1] << 32 | h[2] << 16)
            return None

        def maps(e, st, f, c, a, v):
            b = st.x.setdefault('passes', 0)
            st.x['passes'] = b + 1
            k = dirty[b] if b < len(dirty) else 0
            ev(st, 'analyse', simp(v[2]), simp(v[3]), simp(v[4]))
            if k:
                st.env[('mem', CTX, 'dirtyRoots')] = ('c', 1)
                ev(st, 'dirty')
            return ('v', 'position', b)

        def zero(e, st, f, c, a, v):
            if strip_casts(v[0])[0] == 'local':
                st.x['zeroed'] = evalc2(v[1], {}) == 0
            return ('void',)
        mod = Fm(P, g, dict(LOGGING, **{
            'call:operator[]': visited, 'call:calculateFrameMaps': maps, '.method': M, '.parameterFootprint': ('c', foot), '.flags': ('c', 8 if static else 0), '.maxStack': ('c', 3), 'call:localSize': lambda *z: ('c', 9),
            'call:set': lambda e, st, f, c, a, v: ev(st, 'set', v[0], v[1], ty(v[2])), 'call:initLocal': lambda e, st, f, c, a, v: ev(st, 'init', v[1], v[2]),
            'call:malloc': lambda *z: ('c', 0x1000), 'call:free': lambda *z: ('void',), 'call:alignedFrameSize': lambda *z: ('c', 12), 'call:handleEntrance': lambda *z: ('void',),
            'call:saveState': lambda *z: ('state',), 'call:restoreState': lambda e, st, f, c, a, v: ev(st, 'restore', v[1]), 'call:init': lambda *z: ('void',),
            'call:compile': lambda e, st, f, c, a, v: ev(st, 'compile', tuple(v[2:])), 'call:resolveIpForwards': lambda e, st, f, c, a, v: ('c', starts[min(range(len(handlers)), key=lambda q: 0 if v[1] == ('c', handlers[q][0]) and v[2] == ('c', handlers[q][1]) else 1)]),
            '.exceptionHandlerTable': lambda x: ('get', 'exceptionHandlerTable', x) if handlers else ('c', 0), '.length': lambda x: ('c', len(handlers)) if 'exceptionHandlerTable' in repr(x) else ('c', 1000),
            '.subroutineCount': ('c', 0), 'call:memset': zero, **{'call:' + n: type_(n) for n in ('object', 'i4', 'i8', 'f4', 'f8')}}), read)
        mod.inline = lambda h, own=mod.inline: (own(h) or 'MethodSpecIterator' in h.n or h.n.split('::')[-1].startswith('exceptionHandler')) and not h.n.split('::')[-1].startswith('~')
        mod.max_visits = 30
        own = mod.load

        def load(st, f, i, lv):
            if lv[1] == 'mem' and lv[3] == 'dirtyRoots':
                return st.env.get(('mem', CTX, 'dirtyRoots'), ('c', 1))
            if lv[1] in ('idx', 'deref') and (strip_casts(lv[2])[0] == 'local' and 'bool' in repr(lv[2]) or 'visited' in repr(lv)):
                return st.env.get(lv[1:], ('c', 0) if st.x.get('zeroed') else None)
            return own(st, f, i, lv)
        mod.load = load
        ost = mod.store

        def store(st, f, i, lv, v):
            if lv[1] == 'mem' and lv[3] == 'dirtyRoots':
                st.env[('mem', CTX, 'dirtyRoots')] = simp(v)
                ev(st, 'reset' if evalc2(v, {}) == 0 else 'dirty')
                return True
            return ost(st, f, i, lv, v)
        mod.store = store
        own2 = mod.decide

        def decide(st, t):
            if 'exceptionHandlerTable' in repr(t):
                x = strip_casts(t)
                return int(x[1] != '==') if x[0] == 'op' else 1
            return own2(st, t)
        mod.decide = decide
        return ps, foot, [o for o in run(res, P, g, mod, [T, CTX]) if o[1] == 'return']
    for spec in SPECS:
        for static in (0, 1):
            ps, foot, outs = evaluate(spec, static)
            for st, k, v in outs:
                res.count('method entries evaluated', floor=16)
                marks, k = {}, foot
                for d in ([] if static else ['L']) + ps:
                    for q in range(2 if d in 'JD' else 1):
                        k -= 1
                        marks[k] = d[0] in 'L['
                got = {}
                for e in events(st):
                    if e[0] == 'set' and e[2][0] == 'c':
                        got[e[2][1]] = e[3] == ('ty', 'object')
                if any(got.get(q) is not m for q, m in marks.items() if m) or any(got.get(q) for q, m in marks.items() if not m):
                    bad('the parameters of a method that are references must be marked on entry, and no others')
                elif any(q not in marks and m for q, m in got.items()):
                    bad('only parameters may be marked on entry')
                an = [e for e in events(st) if e[0] == 'analyse']
                ix = [n for n, e in enumerate(events(st)) if e[0] == 'compile']
                if not an or an[0][1:3] != (('c', 0), ('c', 0)) or not ix or [e[0] for e in events(st)].index('analyse') < ix[0]:
                    bad('must analyse the events of the method from the start once its code has been translated')
                c = [e for e in events(st) if e[0] == 'compile']
                if not c or c[0][1][:1] != (('c', 0),):
                    bad('must translate a method from its first instruction')
    H = ((0, 20, 100), (30, 40, 35), (12, 60, 200))
    for dirty in ((), (1,), (1, 1), (0, 1), (1, 0, 0, 1), (0, 0, 0, 0, 1), (0, 0, 0, 1, 1, 1)):
        for hs in (0, 1, 2, 3):
            ps, foot, outs = evaluate('(I)V', 1, H[:hs], (0, 30, 12), dirty)
            for st, k, v in outs:
                res.count('analyses of methods evaluated', floor=12)
                e = events(st)
                an = [x for x in e if x[0] == 'analyse']
                full = [n for n, x in enumerate(e) if x[0] == 'analyse' and x[1:3] == (('c', 0), ('c', 0))]
                # after the last complete pass nothing is dirty, and that pass saw all events
                lastlog = max([n for n, x in enumerate(e) if x[0] in ('log', 'compile')] or [0])
                d = [n for n, x in enumerate(e) if x[0] == 'dirty']
                r = [n for n, x in enumerate(e) if x[0] == 'reset']
                if d and not any(n > lastlog and n < q for n in r for q in full if not [z for z in d if z > n]):
                    bad('as long as a pass over the events leaves something to be analysed again, another pass must follow')
                for q in range(hs):
                    hp = [n for n, x in enumerate(e) if x[0] == 'compile' and len(x[1]) == 2 and x[1][0] == ('c', H[q][2])]
                    if len(hp) != 1:
                        bad('must translate every exception handler once')
                        continue
                    n = hp[0]
                    prev = max([z for z in range(n) if e[z][0] in ('compile', 'analyse')] or [0])
                    lg = [x for x in e[prev:n] if x[0] == 'log']
                    if not any(x == ('restore', ('state',)) for x in e[prev:n]):
                        bad('a handler must be translated from the state of the code generator at the start of the method')
                    start = (0, 30, 12)[q]
                    end = H[q][2] if start <= H[q][2] < H[q][1] else H[q][1]
                    if len(lg) < 3 or evalc2(lg[0][2], {}) != ek['PushExceptionHandlerEvent'] or lg[1][2] != ('c', start) or lg[2][2] != ('c', end) or lg[1][1] != lg[2][1]:
                        bad('the events of a handler must begin with the range it covers, up to the handler itself')
                    else:
                        sizes['range'] = lg[1][1]
                    cl = {x[2][1] for x in e[prev:n] if x[0] == 'set' and x[2][0] == 'c' and x[3] != ('ty', 'object')}
                    if not {10, 11} <= cl:
                        bad('a handler must start with all slots of the operand stack cleared but that of the exception')
                    if any(x[0] == 'set' and x[3] == ('ty', 'object') for x in e[prev:n]):
                        bad('must not mark a slot at the start of a handler')
                    rest = e[n + 1:]
                    nx = [x for x in rest if x[0] in ('log', 'analyse', 'compile')]
                    if not nx or nx[0][0] != 'log' or evalc2(nx[0][2], {}) != ek['PopContextEvent'] or len(nx) < 2 or nx[1][0] != 'analyse':
                        bad('the events of a handler must end its context and be analysed')
                    elif nx[1][1] != ('c', 0) or nx[1][2] != ('v', 'position', len([x for x in e[:n] if x[0] == 'analyse']) - 1):
                        bad('the events of a handler must be analysed from where the analysis before it ended')
    return sizes


def check(res, tier):
    res.rule('every kind of event of the analysis of frame maps is evaluated on symbolic maps and compared with the transfer function of the event')
    P = prog.world('jit')
    ek = [e for e in P.enums.values() if 'PushExceptionHandlerEvent' in e]
    if len(ek) != 1 or any(k not in ek[0] for k in KINDS):
        raise AnalysisBroken('the kinds of events were not found')
    ek = ek[0]
    made = producers(res, P, ek)
    made.update(entry(res, P, ek))
    step(res, P, ek, made)
    space(res, P)
    handler_roots(res, P)
    bytecodes(res, P, ek)
    tables(res, P)
    arguments(res, P)
    stack(res, P)
