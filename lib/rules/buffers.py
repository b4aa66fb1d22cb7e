"""Q01: buffers stay inside their memory, their limits and their mode, and channels move them by what they transferred"""
import jsym
from linear import Prover
from prog import AnalysisBroken
from rules.data import Lib, where, file

THIS = ('p', 0)
I, J = (lambda n: ('i', n)), (lambda n: ('j', n))
EXC = 'java/nio/'
SIZES = {'Short': 2, 'Int': 4, 'Long': 8, 'Float': 4, 'Double': 8, '': 1}


class Buf:
    """a buffer object: its fields at entry, and the invariant that holds between calls"""

    def __init__(self, L, obj, cls):
        self.o, self.cls = obj, cls
        self.f = {}
        c = cls
        while c and c in L.c:
            for g in L.c[c].fields:
                if not g.acc & 8:
                    self.f.setdefault(g.name, ('fld', obj, g.name, 0, g.desc))
            c = L.c[c].super
        self.direct = L.isa(cls, 'java/nio/DirectByteBuffer')
        for k in ('position', 'limit', 'capacity', 'readonly') + (('address',) if self.direct else ('array', 'arrayOffset')):
            if k not in self.f:
                raise AnalysisBroken('%s has no field %s' % (cls, k))
        f = self.f
        self.pos, self.lim, self.cap = f['position'], f['limit'], f['capacity']
        self.facts = [('>=', self.pos, I(0)), ('<=', self.pos, self.lim), ('<=', self.lim, self.cap), ('>=', self.cap, I(0)), ('>=', f['readonly'], I(0)), ('<=', f['readonly'], I(1))]
        if self.direct:
            self.facts += [('>=', f['address'], J(1)), ('<=', f['address'], J(2**62))]
        if 'array' in f and not self.direct:
            self.facts += [('>=', f['arrayOffset'], I(0)), ('<=', f['arrayOffset'], ('len', f['array'])), ('<=', self.cap, ('isub', ('len', f['array']), f['arrayOffset']))]

    def heap(self):
        return {('fld', self.o, k): v for k, v in self.f.items()}


def final(p, o, name, dflt):
    v = dflt
    for e in p.events:
        if e[0] == 'put' and e[2][0] == o and e[2][1] == name:
            v = e[2][2]
    return v


class Run:
    """paths of a method of a buffer, down to the memory accesses"""

    def __init__(self, L, m, cls, others=(), args=None, this=True):
        self.L, self.m = L, m
        self.bufs = ([Buf(L, THIS, cls)] if this else []) + list(others)
        self.args = args
        self.types = {}
        for j, d in enumerate(([] if m.static else ['L;']) + m.params()):
            self.types[j] = d
        heap, facts = {}, [('>=', BASE, I(0)), ('<=', BASE, I(64))]
        for j, d in self.types.items():
            if d[0] == '[':
                facts.append(('<=', ('len', ('p', j)), I(2**31 - 128)))
        for b in self.bufs:
            if not b.direct:
                facts.append(('<=', ('len', b.f['array']), I(2**31 - 128)))
            heap.update(b.heap())
            facts += b.facts
        self.facts = facts
        self.paths = []
        for p in jsym.paths(m, inline=self.inline, args=args, pure=lambda *a: True, heap=heap):
            if not self.possible(p):
                continue
            pr = self.prover(p)
            if pr.contradictory():
                continue
            self.paths.append((p, pr))

    def cls(self, o):
        for b in self.bufs:
            if b.o == o:
                return b.cls
        if o[0] == 'new' and o[2] in self.L.c and self.L.isa(o[2], 'java/nio/Buffer'):
            return o[2]
        return None

    def inline(self, i, c, name, desc, args):
        if not c.startswith('java/nio/') and c != self.m.cls.name or name in ('toString',):
            return None
        if i.op == 'invokestatic':
            g = self.L.find(c, name, desc)
            return g if g is not None and g.code is not None else None
        k = self.cls(args[0])
        if k is None and args[0] == THIS and c == self.m.cls.name and not self.m.static:
            k = c
        if k is None:
            return None
        g = self.L.find(c if i.op == 'invokespecial' else k, name, desc)
        return g if g is not None and g.code is not None else None

    def possible(self, p):
        for op, a, b in p.facts:
            for x, y in ((a, b), (b, a)):
                if x[0] == 'instanceof' and y == ('i', 0):
                    k = self.cls(x[1])
                    if k is not None and self.L.isa(k, x[2]) != (op == '!='):
                        return False
                if x == ('null',) and y[0] in ('fld', 'p', 'new') and op == '==':
                    return False
            os = [q.o for q in self.bufs]
            if op in ('==', '!=') and (a in os or a[0] == 'new') and (b in os or b[0] == 'new') and (a == b) != (op == '=='):
                return False
        return True

    def prover(self, p):
        base = jsym.view(self.types)

        def view(t):
            if t == THIS and not self.m.static or t[0] in ('new', 'null', 'instanceof') or t[0] == 'fld' and t[4][0] in 'L[':
                return ('atom', None, None)
            return base(t)
        keep = [f for f in p.facts if not any(x == ('null',) or x[0] == 'new' or x in [b.o for b in self.bufs] for x in f[1:])]
        extra = []
        for e in p.events:
            if e[0] == 'newarray':
                extra.append(('>=', e[2][0][3], I(0)))
        pr = Prover(view, self.facts + extra + keep)
        pr.again()
        return pr


BASE = ('fld', None, 'java/nio/DirectByteBuffer.baseOffset', 0, 'I')


def add(a, b):
    return a if b == I(0) else b if a == I(0) else ('iadd', a, b)


def sub(a, b):
    return ('isub', a, b)


class Access:
    """memory of a buffer ('buf', b) or of another array ('arr', a), from an offset, a number of units"""

    def __init__(self, mem, off, n, write):
        self.mem, self.off, self.n, self.write = mem, off, n, write


def accesses(r, p, pr):
    """[(kind, ...)] in order: ('copy', Access, Access) or ('one', Access, value)"""
    out = []
    arrs = {b.f['array']: b for b in r.bufs if 'array' in b.f and not b.direct}
    dirs = {b.f['address']: b for b in r.bufs if b.direct}

    def strip(x):
        if x[0] == 'fld' and x[2].endswith('.baseOffset'):
            return BASE
        return x

    def arr(a, x, n, w):
        b = arrs.get(a)
        if b is not None:
            return Access(('buf', b), sub(x, b.f['arrayOffset']), n, w)
        return Access(('arr', a), x, n, w)

    def addr(x, n, w):
        """x = address + offset"""
        t = terms(x)
        a = [q for s, q in t if q in dirs]
        if len(a) != 1:
            return Access(('?',), x, n, w)
        return Access(('buf', dirs[a[0]]), ('lsub', x, a[0]), n, w)

    def mem(o, x, n, w):
        if o == ('null',):
            return addr(x, n, w)
        if o in arrs:
            return Access(('buf', arrs[o]), ('lsub', ('lsub', x, ('i2l', BASE)), ('i2l', arrs[o].f['arrayOffset'])), n, w)
        return Access(('arr', o), ('lsub', x, ('i2l', BASE)), n, w)
    for e in p.events:
        if e[0] == 'call':
            name, args, val = e[2][2], e[2][4], e[2][7]
            c = e[2][1]
            if (c, name) == ('java/lang/System', 'arraycopy'):
                out.append(('copy', arr(args[0], args[1], args[4], False), arr(args[2], args[3], args[4], True), e))
            elif c == 'sun/misc/Unsafe' and name == 'copyMemory':
                if len(args) == 6:
                    out.append(('copy', mem(args[1], norm(args[2]), args[5], False), mem(args[3], norm(args[4]), args[5], True), e))
                else:
                    out.append(('copy', addr(norm(args[1]), args[3], False), addr(norm(args[2]), args[3], True), e))
            elif c == 'sun/misc/Unsafe' and name == 'getByte':
                out.append(('one', addr(norm(args[1]), I(1), False), val, e))
            elif c == 'sun/misc/Unsafe' and name == 'putByte':
                out.append(('one', addr(norm(args[1]), I(1), True), args[2], e))
        elif e[0] == 'aload':
            if e[2][0] in arrs:
                out.append(('one', arr(e[2][0], e[2][1], I(1), False), None, e))
        elif e[0] == 'astore':
            if e[2][0] in arrs:
                out.append(('one', arr(e[2][0], e[2][1], I(1), True), e[2][2], e))
    return out


def norm(t):
    if t[0] == 'fld' and t[1] is None and t[2].endswith('.baseOffset'):
        return BASE
    if t[0] in ('ladd', 'lsub', 'iadd', 'isub', 'i2l'):
        return (t[0],) + tuple(norm(x) for x in t[1:])
    return t


def terms(t, k=1):
    if t[0] in ('ladd', 'lsub'):
        return terms(t[1], k) + terms(t[2], k if t[0] == 'ladd' else -k)
    return [(k, t)]


class Reporter:
    def __init__(self, res):
        self.res, self.done = res, set()

    def __call__(self, m, case, what):
        k = (m.id, case)
        if k not in self.done:
            self.done.add(k)
            self.res.bad('buffer|%s|%s' % (m.id, case), file(m), m.line(), where(m), what)


def invariants(rep, r, p, pr, m):
    """the buffer is in a possible state at the end of the path, and so is every buffer made on it"""
    for b in r.bufs:
        pos, lim, cap = (final(p, b.o, k, b.f[k]) for k in ('position', 'limit', 'capacity'))
        if not (pr.prove('>=', pos, I(0)) and pr.prove('<=', pos, lim) and pr.prove('<=', lim, cap)):
            rep(m, 'state' + p.end, 'can %s with 0 <= position <= limit <= capacity broken' % ('return' if p.end == 'return' else 'throw an exception'))
        for k in ('capacity', 'array', 'arrayOffset', 'address', 'readonly'):
            if k in b.f and final(p, b.o, k, b.f[k]) != b.f[k]:
                rep(m, 'frozen', 'changes the %s of a buffer' % k)


def made(p):
    return [e[2] for e in p.events if e[0] == 'new']


def created(rep, r, L, p, pr, m):
    """checks each new buffer; returns them with their fields"""
    out = []
    for o in made(p):
        if o[2] not in L.c or not L.isa(o[2], 'java/nio/Buffer'):
            continue
        f = {k: final(p, o, k, None) for k in ('position', 'limit', 'capacity', 'array', 'arrayOffset', 'address', 'readonly')}
        d = I(0)
        pos, lim, cap = f['position'] or d, f['limit'] or d, f['capacity'] or d
        f.update(position=pos, limit=lim, capacity=cap, readonly=f['readonly'] or d)
        if not (pr.prove('>=', pos, I(0)) and pr.prove('<=', pos, lim) and pr.prove('<=', lim, cap)):
            rep(m, 'new state', 'can make a buffer without 0 <= position <= limit <= capacity')
        if L.isa(o[2], 'java/nio/DirectByteBuffer'):
            a = norm(f['address'])
            par = [b for b in r.bufs if b.direct and any(q == b.f['address'] for _, q in terms(a))]
            nat = [e for e in p.events if e[0] == 'call' and e[2][2] == 'allocateFixed']
            if par:
                off = ('lsub', a, par[0].f['address'])
                if not (pr.prove('>=', off, J(0)) and pr.prove('<=', ('ladd', off, ('i2l', cap)), ('i2l', par[0].cap))):
                    rep(m, 'new memory', 'can make a buffer over memory outside that of its origin')
            elif len(nat) == 1:
                if not (pr.prove('<=', cap, nat[0][2][4][0]) and a[0] == 'el' and a[1] == nat[0][2][4][1] and pr.prove('>=', nat[0][2][4][0], I(0))):
                    rep(m, 'new memory', 'can make a direct buffer over more memory than was allocated')
            else:
                rep(m, 'new memory', 'makes a direct buffer over memory of unknown origin')
        elif f['array'] is not None:
            n = f['array'][3] if f['array'][0] == 'new' and f['array'][3] is not None else ('len', f['array'])
            off = f['arrayOffset'] or d
            if not (pr.prove('>=', off, I(0)) and pr.prove('<=', off, n) and pr.prove('<=', cap, ('isub', n, off))):
                rep(m, 'new memory', 'can make a buffer that reaches outside its array')
            par = [b for b in r.bufs if not b.direct and b.f['array'] == f['array']]
            if par:
                o0 = par[0].f['arrayOffset']
                if not (pr.prove('>=', off, o0) and pr.prove('<=', ('isub', off, o0), sub(par[0].cap, cap))):
                    rep(m, 'new memory', 'can make a buffer over memory outside that of its origin')
        out.append((o, f))
    return out


def exc(p):
    return p.value[2].rpartition('/')[2] if p.value is not None and p.value[0] == 'new' else None


def bounds(rep, r, p, pr, m, acc):
    """every access is inside the memory of its buffer or array, and a read-only buffer is not written"""
    for a in acc:
        for x in a[1:3] if a[0] == 'copy' else a[1:2]:
            k = x.mem[0]
            w = J(0) if x.off[0][0] == 'l' else I(0)
            n = x.n
            if k == '?':
                rep(m, 'memory', 'accesses memory that does not belong to a buffer')
            elif k == 'buf':
                b = x.mem[1]
                hi = b.lim if m.name != 'compact' else b.cap
                if not (pr.prove('>=', x.off, w) and pr.prove('>=', n, I(0)) and pr.prove('<=', ('ladd', long(x.off), long(n)), long(hi))):
                    rep(m, 'bounds', 'can access memory outside the limit of the buffer')
                if x.write and not pr.prove('==', b.f['readonly'], I(0)):
                    rep(m, 'readonly', 'can write into a read-only buffer')
            elif a[3][2][1] == 'sun/misc/Unsafe':
                ln = x.mem[1][3] if x.mem[1][0] == 'new' and x.mem[1][3] is not None else ('len', x.mem[1])
                if not (pr.prove('>=', x.off, w) and pr.prove('>=', n, I(0)) and pr.prove('<=', ('ladd', long(x.off), long(n)), long(ln))):
                    rep(m, 'array bounds', 'can access memory outside the array it was given')


def long(t):
    return t if t[0] in ('j', 'i2l', 'ladd', 'lsub') else J(t[1]) if t[0] == 'i' else t


def same(pr, a, b):
    return a == b or pr.prove('==', a, b)


def span(pr, acc, write, b):
    """(lowest offset, one past the highest) if the accesses of kind write to b make one range"""
    xs = [x for a in acc for x in (a[1:3] if a[0] == 'copy' else a[1:2]) if x.mem == ('buf', b) and x.write == write]
    if not xs:
        return None
    lo = [x for x in xs if all(pr.prove('<=', x.off, y.off) for y in xs)]
    if not lo:
        return None
    at, left = lo[0].off, list(xs)
    end = None
    while left:
        nx = [x for x in left if same(pr, long(x.off), long(end) if end is not None else long(at))]
        if not nx:
            return None
        end = ('ladd', long(nx[0].off), long(nx[0].n))
        left.remove(nx[0])
    return at, end


def accessors(res, rep, L, cls, unit):
    """get, put and their typed forms"""
    n = 0
    seen = set()
    c = cls
    while c and c in L.c:
        for m in L.c[c].methods:
            key = (m.name, m.desc.split(')')[0])
            if m.static or m.code is None or not m.acc & 1 or key in seen or m.acc & 0x1000:
                continue
            seen.add(key)
            for pre in ('get', 'put'):
                t = m.name[3:]
                if not m.name.startswith(pre) or t not in SIZES:
                    continue
                n += accessor(res, rep, L, cls, m, pre, SIZES[t], unit)
        c = L.c[c].super
    return n


def accessor(res, rep, L, cls, m, pre, k, unit):
    ps = m.params()
    prim = [d for d in ps if len(d) == 1]
    bulk = bool(ps) and ps[0] == '[' + unit
    src = bool(ps) and ps[0].startswith('Ljava/nio/') and pre == 'put'
    if not bulk and not src and len(prim) != len(ps):
        return 0
    absolute = not bulk and not src and len(ps) == (1 if pre == 'get' else 2)
    n = 0
    runs = []
    if src:
        S = ('new', ('source',), None, None)
        for sc in CONCRETE[unit]:
            runs.append((Run(L, m, cls, [Buf(L, S, sc)], [THIS, S]), S))
        runs.append((Run(L, m, cls, [], [THIS, THIS]), THIS))
    else:
        runs.append((Run(L, m, cls), None))
    for r, S in runs:
        b = r.bufs[0]
        s = r.bufs[1] if S is not None and S != THIS else None
        rets = 0
        if any(p.end in ('loop', 'stop') for p, pr in r.paths):
            res.count('cases too complex to evaluate')
            continue
        for p, pr in r.paths:
            n += 1
            acc = accesses(r, p, pr)
            invariants(rep, r, p, pr, m)
            bounds(rep, r, p, pr, m, acc)
            start = ('p', 1) if absolute else b.pos
            if bulk:
                ln = ('len', ('p', 1)) if len(ps) == 1 else ('p', 3)
            elif src:
                ln = sub(s.lim, s.pos) if s else None
            else:
                ln = I(k)
            pos = final(p, b.o, 'position', b.pos)
            if p.end == 'throw':
                e = exc(p)
                if not same(pr, pos, b.pos) or s and not same(pr, final(p, s.o, 'position', s.pos), s.pos) or final(p, b.o, 'limit', b.lim) != b.lim:
                    rep(m, 'throw state', 'must leave the position as it was if it throws an exception')
                if [a for a in acc if a[0] == 'one' and a[1].write or a[0] == 'copy' and a[2].write and a[2].mem[0] == 'buf']:
                    rep(m, 'throw write', 'must not write before it refuses the request')
                want = {'get': 'BufferUnderflowException', 'put': 'BufferOverflowException'}[pre] if not absolute else 'IndexOutOfBoundsException'
                if S == THIS:
                    continue
                if e == 'ReadOnlyBufferException':
                    if pre == 'get' or not pr.prove('!=', b.f['readonly'], I(0)):
                        rep(m, 'readonly exception', 'throws ReadOnlyBufferException for a buffer that can be written')
                elif e == want or absolute and e is not None and e.endswith('IndexOutOfBoundsException'):
                    ok = sub(b.lim, start)
                    q = Prover(pr.view, pr.facts + [('>=', start, I(0)), ('>=', ln, I(0)), ('<=', ('ladd', long(start), long(ln)), long(b.lim))])
                    q.again()
                    if not q.contradictory():
                        rep(m, 'refuses', 'refuses a request that fits between position and limit')
                elif bulk and e is not None and e.endswith('IndexOutOfBoundsException'):
                    off = I(0) if len(ps) == 1 else ('p', 2)
                    q = Prover(pr.view, pr.facts + [('>=', off, I(0)), ('>=', ln, I(0)), ('<=', ('ladd', long(off), long(ln)), long(('len', ('p', 1))))])
                    q.again()
                    if not q.contradictory():
                        rep(m, 'refuses array', 'refuses a range that is inside the array')
                else:
                    rep(m, 'exception', 'must throw %s for a request that does not fit, not %s' % (want, e))
                continue
            rets += 1
            # the accesses come before the positions move
            idx = {id(e): q for q, e in enumerate(p.events)}
            last = max([idx[id(a[3])] for a in acc] or [-1])
            moves = [q for q, e in enumerate(p.events) if e[0] == 'put' and e[2][1] == 'position' and e[2][0] in [x.o for x in r.bufs]]
            if bulk and moves and last >= 0 and min(moves) < max([idx[id(a[3])] for a in acc if a[0] == 'copy'] or [-1]):
                rep(m, 'order', 'must not move the position before the transfer, which can fail')
            if S == THIS:
                rep(m, 'self', 'must refuse to put a buffer into itself')
                continue
            wantpos = b.pos if absolute else ('ladd', long(b.pos), long(ln))
            if not same(pr, long(pos), long(wantpos) if not absolute else wantpos):
                rep(m, 'position', 'must leave the position where it is' if absolute else 'must move the position on by the number of units transferred')
            if s and not same(pr, final(p, s.o, 'position', s.pos), s.lim):
                rep(m, 'source position', 'must move the position of the source on by the number of units transferred')
            sp = span(pr, acc, pre == 'put', b)
            empty = pr.prove('==', ln, I(0))
            if sp is None:
                if not empty:
                    rep(m, 'range', 'must transfer exactly the units at the position')
            elif not (same(pr, sp[0], start) and same(pr, sp[1], ('ladd', long(start), long(ln)))):
                rep(m, 'range', 'must transfer exactly the %s at %s' % ('units' if bulk or src else '%d unit%s' % (k, 's' * (k > 1)), 'the given index' if absolute else 'the position'))
            if s:
                sp = span(pr, acc, False, s)
                if sp is None and not empty or sp is not None and not (same(pr, sp[0], s.pos) and same(pr, sp[1], s.lim)):
                    rep(m, 'source range', 'must transfer the units from position to limit of the source')
            if bulk:
                off = I(0) if len(ps) == 1 else ('p', 2)
                xs = [x for a in acc if a[0] == 'copy' for x in a[1:3] if x.mem == ('arr', ('p', 1))]
                if not empty and (len(xs) != 1 or not same(pr, xs[0].off, off) or not same(pr, xs[0].n, ln) or xs[0].write != (pre == 'get')):
                    rep(m, 'array range', 'must transfer exactly the given range of the array')
        if not rets and S != THIS:
            rep(m, 'never', 'never returns')
    return n


CONCRETE = {}


def simple(res, rep, L, cls, unit):
    """position, limit, clear, flip, rewind, remaining, compact, slice, duplicate, asReadOnlyBuffer"""
    n = 0
    B = 'java/nio/Buffer'
    for name, desc in (('limit', '(I)'), ('position', '(I)'), ('clear', '()'), ('flip', '()'), ('rewind', '()'), ('compact', '()'), ('slice', '()'), ('duplicate', '()'), ('asReadOnlyBuffer', '()'),
                       ('remaining', '()'), ('hasRemaining', '()'), ('position', '()'), ('limit', '()'), ('capacity', '()'), ('isReadOnly', '()')):
        m, c = None, cls
        while c and c in L.c and m is None:
            m = next((x for x in L.c[c].methods if x.name == name and x.desc.startswith(desc) and not x.static and not x.acc & 0x1000 and x.code is not None), None)
            c = L.c[c].super
        if m is None:
            continue
        r = Run(L, m, cls)
        b = r.bufs[0]
        rem = sub(b.lim, b.pos)
        if any(p.end in ('loop', 'stop') for p, pr in r.paths):
            res.count('cases too complex to evaluate')
            continue
        for p, pr in r.paths:
            n += 1
            acc = accesses(r, p, pr)
            invariants(rep, r, p, pr, m)
            bounds(rep, r, p, pr, m, acc)
            new = created(rep, r, L, p, pr, m)
            pos, lim = final(p, THIS, 'position', b.pos), final(p, THIS, 'limit', b.lim)
            if p.end == 'throw':
                if not same(pr, pos, b.pos) or not same(pr, lim, b.lim):
                    rep(m, 'throw state', 'must leave the buffer as it was if it throws an exception')
                hi = {'limit': b.cap, 'position': b.lim}.get(name)
                if hi is not None and desc == '(I)':
                    q = Prover(pr.view, pr.facts + [('>=', ('p', 1), I(0)), ('<=', ('p', 1), hi)])
                    q.again()
                    if not q.contradictory():
                        rep(m, 'refuses', 'refuses a possible ' + name)
                elif name == 'compact' and exc(p) == 'ReadOnlyBufferException' and pr.prove('!=', b.f['readonly'], I(0)):
                    pass
                else:
                    rep(m, 'throws', 'must not fail')
                continue
            if name == 'limit' and desc == '(I)':
                want = (None, ('p', 1))
                if pr.prove('<=', b.pos, ('p', 1)):
                    want = (b.pos, ('p', 1))
                elif pr.prove('>', b.pos, ('p', 1)):
                    want = (('p', 1), ('p', 1))
            else:
                want = {'position': (('p', 1) if desc == '(I)' else b.pos, b.lim), 'clear': (I(0), b.cap), 'flip': (I(0), b.pos), 'rewind': (I(0), b.lim), 'compact': (rem, b.cap)}.get(name, (b.pos, b.lim))
            if want[0] is not None and not same(pr, pos, want[0]) or not same(pr, lim, want[1]):
                rep(m, 'cursor', 'leaves position or limit where they do not belong')
            if name == 'compact' and not pr.prove('==', b.pos, I(0)) and not pr.prove('==', rem, I(0)):
                sp, sq = span(pr, acc, True, b), span(pr, acc, False, b)
                if sp is None or sq is None or not (same(pr, sp[0], I(0)) and same(pr, sp[1], long(rem)) and same(pr, sq[0], b.pos) and same(pr, sq[1], long(b.lim))):
                    rep(m, 'move', 'must move the units from position to limit to the start of the buffer')
            if name in ('remaining', 'position', 'limit', 'capacity') and desc == '()':
                if not same(pr, p.value, {'remaining': rem, 'position': b.pos, 'limit': b.lim, 'capacity': b.cap}[name]):
                    rep(m, 'value', 'returns something else')
            if name in ('hasRemaining', 'isReadOnly'):
                v = b.f['readonly'] if name == 'isReadOnly' else rem
                if p.value[0] == 'i' and not (pr.prove('!=', v, I(0)) if p.value[1] else pr.prove('==', v, I(0))) or p.value[0] != 'i' and not same(pr, p.value, v):
                    rep(m, 'value', 'returns something else')
            if name in ('slice', 'duplicate', 'asReadOnlyBuffer'):
                x = [f for o, f in new if o == p.value]
                if len(x) != 1:
                    rep(m, 'result', 'must return a new buffer')
                    continue
                f = x[0]
                w = {'position': I(0), 'limit': rem, 'capacity': rem} if name == 'slice' else {'position': b.pos, 'limit': b.lim, 'capacity': b.cap}
                w['readonly'] = I(1) if name == 'asReadOnlyBuffer' else b.f['readonly']
                for q, v in w.items():
                    if not same(pr, f[q], v):
                        rep(m, q, 'must return a buffer with %s' % {'position': 'the right position', 'limit': 'the right limit', 'capacity': 'the right capacity', 'readonly': 'read-only memory' if name == 'asReadOnlyBuffer' else 'memory that is read-only exactly if that of the buffer is'}[q])
                at = b.pos if name == 'slice' else I(0)
                if b.direct:
                    ok = same(pr, norm(f['address']), ('ladd', b.f['address'], long(at)))
                else:
                    ok = f['array'] == b.f['array'] and same(pr, f['arrayOffset'] or I(0), add(b.f['arrayOffset'], at))
                if not ok:
                    rep(m, 'memory', 'must return a buffer over the same memory')
    return n


def factories(res, rep, L):
    n = 0
    for cls in ('java/nio/ByteBuffer', 'java/nio/CharBuffer', 'java/nio/FixedArrayByteBuffer'):
        for m in L.c[cls].methods:
            if not m.static or m.code is None or 'Buffer;' not in m.desc.split(')')[1]:
                continue
            r = Run(L, m, cls, this=False)
            for p, pr in r.paths:
                n += 1
                if p.end in ('loop', 'stop'):
                    res.count('cases too complex to evaluate')
                    continue
                new = created(rep, r, L, p, pr, m)
                ps = m.params()
                if p.end == 'return':
                    x = [f for o, f in new if o == p.value]
                    if len(x) != 1:
                        rep(m, 'result', 'must return a new buffer')
                        continue
                    f = x[0]
                    cap = ('p', 0) if ps == ['I'] else ('len', ('p', 0)) if len(ps) == 1 else ('p', 2)
                    if not same(pr, f['capacity'], cap) or not same(pr, f['limit'], f['capacity']) or not same(pr, f['position'], I(0)) or not same(pr, f['readonly'], I(0)):
                        rep(m, 'buffer', 'must return a buffer for all of the memory that can be written')
                    if ps[0] != 'I' and (f['array'] != ('p', 0) or not same(pr, f['arrayOffset'] or I(0), I(0) if len(ps) == 1 else ('p', 1))):
                        rep(m, 'memory', 'must return a buffer over the given range')
                elif len(ps) in (1, 3):
                    if len(ps) == 3:
                        some = [('>=', ('p', 1), I(0)), ('>=', ('p', 2), I(0)), ('<=', ('ladd', ('p', 1), ('p', 2)), ('len', ('p', 0)))]
                    else:
                        some = [('>=', ('p', 0), I(0))] if ps == ['I'] else []
                    q = Prover(pr.view, pr.facts + some)
                    q.again()
                    if not q.contradictory():
                        rep(m, 'refuses', 'refuses memory that is there')
    return n


def channels(res, rep, L):
    """methods outside java.nio's buffers that hand the memory of a buffer on"""
    n = 0
    for cn, c in sorted(L.c.items()):
        if cn.startswith('java/nio/') and '/channels/' not in cn:
            continue
        for m in c.methods:
            if m.code is None:
                continue
            ps = ([] if m.static else ['L%s;' % cn]) + m.params()
            ix = [j for j, d in enumerate(ps) if d in ('Ljava/nio/ByteBuffer;', 'Ljava/nio/CharBuffer;') and (j or m.static)]
            if len(ix) != 1 or m.name == '<init>':
                continue
            unit = 'B' if ps[ix[0]].endswith('ByteBuffer;') else 'C'
            if not hands(L, m) and not (m.name in ('read', 'write') and m.desc == '(Ljava/nio/ByteBuffer;)I' and not m.acc & 0x1000):
                continue
            ever = False
            S = ('new', ('buffer',), None, None)
            cls = [k for k in CONCRETE[unit] if not L.isa(k, 'java/nio/DirectByteBuffer')][0]
            args = [S if j == ix[0] else ('p', j) for j in range(len(ps))]
            try:
                r = Run(L, m, cls, [Buf(L, S, cls)], args, this=False)
            except jsym.TooMany:
                res.count('cases too complex to evaluate')
                continue
            b = r.bufs[0]
            rem = sub(b.lim, b.pos)
            if any(p.end in ('loop', 'stop') for p, pr in r.paths):
                res.count('cases too complex to evaluate')
                continue
            for p, pr in r.paths:
                calls = [e for e in p.events if e[0] == 'call' and b.f['array'] in e[2][4]]
                n += 1
                ever = ever or bool(calls)
                pos = final(p, S, 'position', b.pos)
                lim = final(p, S, 'limit', b.lim)
                if lim != b.lim:
                    rep(m, 'limit', 'must not change the limit of the buffer')
                if p.end == 'throw' and calls:
                    # a transfer of more than was asked for cannot happen
                    continue
                if p.end != 'return':
                    continue
                if not calls:
                    if not same(pr, pos, b.pos):
                        rep(m, 'position', 'must not move the position if nothing was transferred')
                    if p.value is not None and p.value[0] in 'ij' and p.value[1] > 0:
                        rep(m, 'count', 'must return the number of units transferred')
                    if p.value is not None and p.value in (I(0), J(0)) and not pr.prove('==', rem, I(0)):
                        rep(m, 'nothing', 'transfers nothing although there are units between position and limit')
                    continue
                if len(calls) > 1:
                    res.count('cases too complex to evaluate')
                    continue
                a, v = calls[0][2][4], calls[0][2][7]
                # what the receiver of the memory promises: no more than it was asked for
                pr = Prover(pr.view, pr.facts + ([('<=', v, rem), ('>=', v, I(-1))] if not calls[0][2][3].endswith(')V') else []))
                pr.again()
                if pr.contradictory():
                    continue
                k = a.index(b.f['array'])
                if len(a) < k + 3 or not same(pr, a[k + 1], add(b.f['arrayOffset'], b.pos)) or not same(pr, a[k + 2], rem):
                    rep(m, 'range', 'must transfer to or from the memory between position and limit of the buffer')
                    continue
                moved = [e for e in p.events if e[0] == 'put' and e[2][0] == S and e[2][1] == 'position']
                if calls[0][2][3].endswith(')V'):
                    if not same(pr, pos, b.lim):
                        rep(m, 'position', 'must move the position on by the number of units transferred')
                elif pr.prove('>', v, I(0)):
                    if p.value is not None and m.desc[-1] in 'IJ' and not same(pr, long(p.value), long(v)):
                        rep(m, 'count', 'must return the number of units transferred')
                    if not same(pr, long(pos), ('ladd', long(b.pos), long(v))):
                        rep(m, 'position', 'must move the position on by the number of units transferred')
                elif pr.prove('<=', v, I(0)):
                    if not same(pr, pos, b.pos):
                        rep(m, 'position', 'must not move the position if nothing was transferred')
                else:
                    rep(m, 'position', 'must move the position on by the number of units transferred, if any were')
            if not ever:
                rep(m, 'never', 'never transfers anything')
    return n


def hands(L, m, seen=()):
    """m takes the array of a buffer, itself or in another method of its class"""
    for i in m.ins.values():
        if not i.op.startswith('invoke'):
            continue
        if i.arg[2] == 'array' and i.arg[1].startswith('java/nio/'):
            return True
        if i.arg[1] == m.cls.name and 'Buffer;' in i.arg[3]:
            g = L.find(i.arg[1], i.arg[2], i.arg[3])
            if g is not None and g.code is not None and g.id not in seen and hands(L, g, seen + (m.id,)):
                return True
    return False


def check(res, tier):
    res.rule('every path of the methods of the buffer classes is evaluated symbolically, and its memory accesses and final state are proved from the invariant of the buffer')
    L = Lib()
    rep = Reporter(res)
    CONCRETE.clear()
    for unit, base in (('B', 'java/nio/ByteBuffer'), ('C', 'java/nio/CharBuffer')):
        CONCRETE[unit] = sorted(c for c in L.c if L.isa(c, base) and not L.c[c].acc & 0x400)
        if not CONCRETE[unit]:
            raise AnalysisBroken('no classes of ' + base)
    for unit, cs in CONCRETE.items():
        for cls in cs:
            res.count('paths of accessors', accessors(res, rep, L, cls, unit), 40)
            res.count('paths of cursor and view methods', simple(res, rep, L, cls, unit), 15)
    res.count('paths of factories', factories(res, rep, L), 8)
    res.count('paths of channels', channels(res, rep, L), 12)
