"""N03: arguments and results cross the boundary between Java and native code unchanged"""
import struct
import absint
import prog
from absint import Eval, St, Stop, TooComplex, normx, norm, strip_casts
from prog import AnalysisBroken, rel
from rules import exceptions, runtime
from rules.runtime import A, PTR, U32, U64, F32, F64, plain, simp, sh, evalc2, prog_type
from rules.exceptions import Ex, find, events

T, M = A('t', PTR), A('m', PTR)
SIZE = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'bool': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'float': 4, 'jvalue': 8}
SLOT = 0x5000            # contents of the argument slots
GPR = {'Z': 1, 'B': 1, 'C': 2, 'S': 2, 'I': 4, 'J': 8, 'F': 4, 'D': 8, 'L': 8}


def esize(t):
    return SIZE.get(t.replace('const ', '').strip(), 8)


def where(p):
    """(base, offset in bytes) of a pointer"""
    off = 0
    p = strip_casts(p)
    while True:
        if p[0] in ('padd', 'psub'):
            k = evalc2(p[3], {})
            if k is None:
                return p, None
            off += (k if p[0] == 'padd' else -k) * esize(p[1])
            p = strip_casts(p[2])
        elif p[0] == 'addr' and isinstance(p[1], tuple) and len(p[1]) > 1 and p[1][0] == 'lv' and p[1][1] in ('idx', 'deref'):
            if p[1][1] == 'idx':
                k = evalc2(p[1][3], {})
                if k is None:
                    return p, None
                off += k * 8
            p = strip_casts(p[1][2])
        elif p[0] == 'cast':
            p = p[2]
        else:
            return p, off


class Nm(Ex):
    """memory by address: read(base, offset, size) gives the contents of what the evaluated function did not write"""
    arrays = True
    max_visits = 60

    def __init__(self, P, g, truth, read, files=('/compile.cpp', '/interpret.cpp'), prims=None):
        Ex.__init__(self, P, g, {'__nonnull': 1}, truth, prims if prims is not None else Ex.PR - {'fieldType', 'marshalArguments', 'pushResult', 'pushFrame'}, files)
        self.read = read

    def load(self, st, f, i, lv):
        if lv[1] in ('idx', 'deref'):
            p = lv[2] if lv[1] == 'deref' else ('padd', f.type(i), lv[2], lv[3])
            b, o = where(p)
            if o is not None:
                if b[0] == 'local':
                    v = st.env.get(('idx', b, ('c', o // esize(b[3]))))
                    if v is not None:
                        return v
                v = self.read(st, b, o, esize(f.type(i)), f.type(i))
                if v is not None:
                    return v
        return Ex.load(self, st, f, i, lv)

    def decide(self, st, t):
        x = t[3] if t[0] == 'op' and t[1] in ('!=', '==') and t[4] == ('c', 0) else t
        if where(strip_casts(x))[0][0] in ('local', 'get') and strip_casts(x)[0] in ('padd', 'local'):
            return t[1] != '==' if t[0] == 'op' else 1
        return Ex.decide(self, st, t)

    def ctor(self, g):
        return g.n.split('::')[-1] in ('MethodSpecIterator', 'ArgumentList')

    def dtor(self, ev, st, f, e):
        g = self.P.funcs.get(e.get('f'))
        for n in g.x if g is not None else ():
            if n['k'] == 'Asg' and g.x[n['c'][0]].get('d', '').endswith('::noThrow'):
                st.x.setdefault('ev', []).append(('restored',))
            if n['k'] == 'Call' and n.get('fn', '').split('::')[-1] == 'popFrame':
                st.x.setdefault('ev', []).append(('popFrame',))
        Ex.dtor(self, ev, st, f, e)

    def store(self, st, f, i, lv, v):
        if lv[1] == 'mem' and isinstance(lv[2], tuple) and lv[2][0] == 'obj':
            st.env[lv[1:]] = v
            return True
        if lv[1] in ('idx', 'deref'):
            b, o = where(lv[2] if lv[1] == 'deref' else ('padd', f.type(i), lv[2], lv[3]))
            if o is not None and b[0] in ('local', 'a', 'get'):
                st.env[('idx', b, ('c', o // (esize(b[3]) if b[0] == 'local' else esize(f.type(i)))))] = v
                return True
        return Ex.store(self, st, f, i, lv, v)

    def inline(self, g):
        n = g.n.split('::')
        return Ex.inline(self, g) or g.file.endswith('/machine.h') and len(n) > 2 and n[-2] == 'MethodSpecIterator' or n[-1] == 'fieldType' and g.n not in self.pr or \
            n[-1] == 'fieldCode' and g.n not in self.pr

    def call(self, ev, st, f, i, fn, a):
        n = f.x[i]
        if n['k'] == 'Ctor' and 'MethodSpecIterator' in fn:
            return None
        if 'fe' in n and 'indirect' in self.truth:
            c = n['c']
            return self.truth['indirect'](ev, st, f, c, a, [simp(ev.load(f, c[k], st, a[k]) if a[k][0] == 'lv' else a[k]) for k in range(len(a))])
        return Ex.call(self, ev, st, f, i, fn, a)


def run(res, P, g, mod, args, **kw):
    res.count('calls across the boundary evaluated')
    try:
        return [o for o in Eval(P, mod).run(g, args, **kw) if o[1] != 'abort']
    except TooComplex:
        res.count('cases too complex to evaluate')
        return []


SPECS = ['()V', '(I)I', '(J)J', '(BCSZ)Z', '(FD)F', '(Ljava/lang/String;)Ljava/lang/Object;', '([I[[Lx/Y;J)[I', '(IJLa;DF[J)D', '([[BLb;[Lc;I)S', '(ZJD[DLd;J)C', '(DIDIJ)B',
         '(LI;J)V', '([LJ;D)J', '(LD;[[DJ[LF;F)V']


def parse(spec):
    """descriptors of the parameters and of the result"""
    i, r = 1, []
    while spec[i] != ')':
        j = i
        while spec[j] == '[':
            j += 1
        j = spec.index(';', j) + 1 if spec[j] == 'L' else j + 1
        r.append(spec[i:j])
        i = j
    return r, spec[i + 1:]


def code(d):
    return 'L' if d[0] in 'L[' else d[0]


def specreader(spec):
    return lambda st, b, o, n, ty: ('c', ord(spec[o])) if b[:2] == ('a', 's') and 0 <= o < len(spec) else ('c', 0) if b[:2] == ('a', 's') else None


def width(d):
    return 2 if d[0] in 'JD' else 1


def enum(P, name):
    for e in P.enums.values():
        if name in e:
            return e
    raise AnalysisBroken('no enumeration with ' + name)


def descriptors(res, P):
    fc = enum(P, 'ByteField')
    codes = {'V': fc['VoidField'], 'B': fc['ByteField'], 'C': fc['CharField'], 'D': fc['DoubleField'], 'F': fc['FloatField'], 'I': fc['IntField'], 'J': fc['LongField'], 'S': fc['ShortField'],
             'Z': fc['BooleanField'], 'L': fc['ObjectField'], '[': fc['ObjectField']}
    g = [h for h in P.funcs.values() if h.b and h.n == 'vm::fieldCode']
    for h in g:
        for c, want in codes.items():
            outs = run(res, P, h, Nm(P, h, {}, lambda *z: None), [T, ('c', ord(c))])
            if {evalc2(v, {}) if v is not None else None for s, k, v in outs if k == 'return'} != {want}:
                res.bad('nativecall|fieldCode', rel(h.file), h.l, h.n, 'must classify a type that begins with %s as %s' % (c, [k for k, v in fc.items() if v == want][0]))
    s = A('s', PTR)
    g = [h for h in P.funcs.values() if h.b and h.n == 'vm::scanMethodSpec' and len(h.params) == 6]
    h2 = [h for h in P.funcs.values() if h.b and h.n == 'vm::parameterFootprint' and len(h.params) == 3]
    if not g or not h2:
        raise AnalysisBroken('scanMethodSpec or parameterFootprint was not found')
    for spec in SPECS:
        ps, r = parse(spec)
        for static in (0, 1):
            foot = sum(map(width, ps)) + (1 - static)
            res.count('method descriptors evaluated', floor=10)
            h = h2[0]
            outs = run(res, P, h, Nm(P, h, {}, specreader(spec)), [T, s, ('c', static)])
            got = {evalc2(v, {}) if k == 'return' else k for _, k, v in outs}
            if outs and got != {foot}:
                res.bad('nativecall|parameterFootprint', rel(h.file), h.l, h.n, 'must count %d slots for the parameters of a%s method %s but gives %s' % (foot, ' static' if static else 'n instance', spec, got))
            h = g[0]
            p = [A(x, PTR) for x in ('pc', 'pf', 'rc')]
            outs = run(res, P, h, Nm(P, h, {}, specreader(spec), prims=Ex.PR), [T, s, ('c', static)] + p)
            for st, k, v in outs:
                if k == 'loop':
                    continue
                got = [st.env.get(('deref', x)) or st.env.get(('idx', x, ('c', 0))) for x in p]
                got = [evalc2(x, {}) if x is not None else None for x in got]
                if got != [len(ps), foot, codes[r[0]]]:
                    res.bad('nativecall|scanMethodSpec', rel(h.file), h.l, h.n, 'must find %d parameters in %d slots and the result kind %d in a%s method %s but finds %s' % (
                        len(ps), foot, codes[r[0]], ' static' if static else 'n instance', spec, got))



GARBAGE = 0xA5A5A5A500000000
BASE = 10                 # first slot of the frame in the interpreter's stack


class Slots:
    """the argument slots of a call"""

    def __init__(self, ps, static, interp, null=None):
        self.kinds = ([] if static else ['L']) + [code(d) for d in ps]
        self.interp = interp
        self.words, self.at = [], []
        for k, c in enumerate(self.kinds):
            self.at.append(len(self.words))
            v = 0x1234560080 + k * 0x101010101 & 0xffffffff | 0x80000000
            if c in 'JD':
                x = v << 32 | (v ^ 0x7f7f)
                self.words += [x >> 32, x & 0xffffffff] if interp else [x, GARBAGE]
            elif c == 'L':
                self.words.append(0 if k == null else 0x7f0000000000 + 16 * k)
            else:
                self.words.append(v | GARBAGE)

    def value(self, k):
        c, w = self.kinds[k], self.words[self.at[k]]
        if c in 'JD' and self.interp:
            return w << 32 | self.words[self.at[k] + 1]
        return w if c in 'JDL' else w & 0xffffffff

    def read(self, st, b, o, n, ty):
        """contents of the stack"""
        if b == ('get', 'stack', ('a', 't')):
            k = o // 8 - 5
            if self.interp:
                k = o // 16 - BASE
                if o % 16 == 0:
                    return ('c', 1 if k in self.at and self.kinds[self.at.index(k)] == 'L' else 0)
                if o % 16 != 8:
                    return None
            if 0 <= k < len(self.words) and o % 8 == 0:
                return ('c', absint.wrap(self.words[k], absint.ty(ty)) if absint.ty(ty)[0] in 'iu' else self.words[k])
        if b == ('c', RESULT) and o == 0:
            st.x.setdefault('ev', []).append(('result read',))
            return ('c', OBJECT)
        return None

    def address(self, p):
        """slot whose address p is"""
        b, o = where(p)
        if b == ('get', 'stack', ('a', 't')) and o is not None:
            return (o // 16 - BASE if o % 16 == 8 else None) if self.interp else (o // 8 - 5 if o % 8 == 0 else None)
        return None


RESULT, OBJECT = 0x91b2c3d4e5f68798, 0x7f0000aaaa00
BYTES = {'Z': (1, 1), 'B': (1, 1), 'C': (2, 0), 'S': (2, 1), 'I': (4, 1), 'F': (4, 0), 'J': (8, 0), 'D': (8, 0)}


def result(c):
    """the value of type c that the raw result is"""
    n, sg = BYTES[c]
    v = RESULT & (1 << 8 * n) - 1
    return v - (1 << 8 * n) if sg and v >> 8 * n - 1 else v


def contents(st, b):
    """{index: value} of what was stored through pointer b"""
    b, o = where(b)
    if o is None:
        return {}
    w = esize(b[3]) if b[0] == 'local' else 8
    return {k[2][1] - o // w: v for k, v in st.env.items() if isinstance(k, tuple) and k[0] == 'idx' and k[1] == b and k[2][0] == 'c'}


def copied(mod):
    """memcpy of one word"""
    def h(e, st, f, c, a, v):
        n = evalc2(v[2], {})
        if n != 8:
            return None
        x = strip_casts(v[1])
        if x[0] == 'addr' and isinstance(x[1], tuple) and x[1][0] == 'lv' and isinstance(x[1][1], int):
            w = st.env.get(x[1][1:])
        else:
            b, o = where(x)
            w = mod.read(st, b, o, 8, 'unsigned long') if o is not None else None
        b, o = where(v[0])
        x = strip_casts(v[0])
        if x[0] == 'addr' and isinstance(x[1], tuple) and x[1][0] == 'lv' and isinstance(x[1][1], int) and w is not None:
            st.env[x[1][1:]] = w
            return ('void',)
        if w is None or o is None:
            return None
        st.env[('idx', b, ('c', o // (esize(b[3]) if b[0] == 'local' else 8)))] = w
        return ('void',)
    return h


def common(mod, spec, ps, static, sync):
    """what is known about the called method"""
    fl = 0x100 | (8 if static else 0) | (0x20 if sync else 0)
    mod.truth.update({
        '.flags': ('c', fl), '.parameterFootprint': ('c', sum(map(width, ps)) + (1 - static)), '.parameterCount': ('c', len(ps)), 'call:frameFooterSize': lambda *z: ('c', 3),
        'call:frameReturnAddressSize': lambda *z: ('c', 2), 'call:memcpy': copied(mod), '.noThrow': ('c', 0), 'call:getMethodRuntimeData': lambda *z: ('data',),
        'call:frameBase': lambda *z: ('c', BASE)})
    own = mod.read

    def read(st, b, o, n, ty):
        if 'spec' in repr(b) and b[0] != 'local' and 0 <= o < len(spec):
            return ('c', ord(spec[o]))
        return own(st, b, o, n, ty)
    mod.read = read


def references(mod):
    """the list of local references of the thread, of which the native method makes two"""
    def ref(x):
        return None
    load = mod.load

    def ld(st, f, i, lv):
        if lv[1] == 'mem' and lv[3] == 'reference':
            return ('c', 0x4000 + 16 * st.x.get('refs', 0))
        return load(st, f, i, lv)
    mod.load = ld

    def dispose(e, st, f, c, a, v):
        if st.x.get('refs', 0) <= 0:
            raise Stop('disposes a reference that the native method did not make')
        st.x['refs'] -= 1
        st.x.setdefault('ev', []).append(('dispose',))
        return ('void',)
    mod.truth['call:dispose'] = dispose


def native(res, P, g, interp):
    fc = enum(P, 'ByteField')
    codes = {'V': fc['VoidField'], 'B': fc['ByteField'], 'C': fc['CharField'], 'D': fc['DoubleField'], 'F': fc['FloatField'], 'I': fc['IntField'], 'J': fc['LongField'], 'S': fc['ShortField'],
             'Z': fc['BooleanField'], 'L': fc['ObjectField']}
    types = TYPES
    vmn = 'interpreter' if interp else 'JIT compiler'
    done = set()

    def bad(what, case):
        if what not in done:
            done.add(what)
            res.bad('nativecall|slow|%s|%s' % (vmn, what), rel(g.file), g.l, g.n, 'a call of %s: %s' % (case, what))
    for spec in SPECS:
        ps, r = parse(spec)
        r = code(r)
        for static in (0, 1):
            refs = [k for k, c in enumerate(([] if static else ['L']) + [code(d) for d in ps]) if c == 'L' and (k or static)]
            for null in [None] + refs[:2] + refs[-1:]:
                for sync, exc, zero in ((0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0)) + (((0, 0, 1),) if r == 'L' else ()):
                    if null is not None and (sync or exc or zero):
                        continue
                    slots = Slots(ps, static, interp, null)
                    mod = Nm(P, g, {}, slots.read)
                    common(mod, spec, ps, static, sync)
                    references(mod)
                    mod.truth['.returnCode'] = ('c', codes[r])
                    mod.truth['.exception'] = ('c', 0x7f00dead if exc else 0)
                    mod.truth['call:getJClass'] = lambda e, st, f, c, a, v: ('v', 'getJClass', v[1])
                    for q in ('pushFrame', 'popFrame', 'pushInt', 'pushLong', 'pushObject', 'pushFloat', 'pushDouble', 'acquire', 'release'):
                        mod.truth['call:' + q] = lambda e, st, f, c, a, v, q=q: st.x.setdefault('ev', []).append((q,) + tuple(v[1:])) or ('void',)

                    def call(e, st, f, c, a, v):
                        args, ty = contents(st, v[1]), contents(st, v[2])
                        nt = where(v[1])[0]
                        st.x.setdefault('ev', []).append(('call', v[0], args, ty, v[3], v[5], dict(st.env), where(v[1])[0], where(v[2])[0]))
                        st.x['refs'] = st.x.get('refs', 0) + 2
                        return ('c', 0 if zero else RESULT)
                    mod.truth['call:dynamicCall'] = call
                    case = '%s%s%s' % ('static ' if static else '', 'synchronized ' if sync else '', spec)
                    for st, k, v in run(res, P, g, mod, [T, M, A('function', PTR)]):
                        if k == 'loop':
                            bad('does not end', case)
                            continue
                        verdict(bad, case, st, k, v, slots, ps, r, static, sync, exc, zero, interp, null, types)
    res.count('native method descriptors evaluated', len(SPECS), floor=10)


TYPES = {}


def verdict(bad, case, st, k, v, slots, ps, r, static, sync, exc, zero, interp, null, types):
    evs = events(st)
    calls = [j for j, e in enumerate(evs) if e[0] == 'call']
    if len(calls) != 1:
        return bad('calls the native function %d times' % len(calls), case)
    j = calls[0]
    _, fn, args, ty, count, rt, env, la, lt = evs[j]
    if fn != ('a', 'function'):
        bad('does not call the function it was given', case)
    n = len(ps) + 2
    if evalc2(count, {}) != n:
        bad('passes a wrong number of arguments', case)
    want = [types['L'], types['L']] + [types[code(d)] for d in ps]
    got = [evalc2(ty[q], {}) if q in ty else None for q in range(n)]
    if got != want:
        bad('describes the types of the arguments wrongly', case)
    if evalc2(rt, {}) != types[r]:
        bad('describes the type of the result wrongly', case)
    for l, a in ((la, args), (lt, ty)):
        if l[0] == 'local':
            size = evalc2(l[2], {})
            if size is None or any(not 0 <= q < size for q in a):
                bad('writes arguments beyond the end of their array', case)
    if 0 not in args or simp(args[0]) != ('a', 't'):
        bad('does not pass the thread as first argument', case)
    x = args.get(1)
    if x is not None:
        if static:
            x = strip_casts(x)
            if x[0] != 'addr' or not isinstance(x[1], tuple) or env.get(x[1][1:]) != ('v', 'getJClass', ('get', 'class_', ('a', 'm'))):
                bad('does not pass a reference to the class object as second argument of a static method', case)
        elif slots.address(x) != 0:
            bad('does not pass a reference to the receiver as second argument', case)
    else:
        bad('does not pass a second argument', case)
    for q, d in enumerate(ps):
        s = q + 1 - static
        x = args.get(q + 2)
        c = code(d)
        if x is None:
            bad('does not pass an argument of type ' + c, case)
        elif c == 'L':
            if s == null and simp(x) != ('c', 0):
                bad('passes a reference to a slot in place of null', case)
            if s != null and slots.address(x) != slots.at[s]:
                bad('does not pass a reference to the slot of a reference argument', case)
        else:
            y = evalc2(x, {})
            if y is None or y & ((1 << 64) - 1 if c in 'JD' else 0xffffffff) != slots.value(s):
                bad('does not pass the value of an argument of type ' + c, case)
    if not any(e[0] == 'state' and strip_casts(e[1]) == ('c', IDLE[0]) for e in evs[:j]):
        bad('runs the native function while it holds up collections', case)
    if ('c', 1) not in [e[3] for e in evs[:j] if e[0] == 'set' and e[1] == 'noThrow']:
        bad('lets exceptions unwind through the native function', case)
    if not any(e[0] == 'restored' or e[0] == 'set' and e[1] == 'noThrow' and evalc2(e[3], {}) == 0 for e in evs[j:]):
        bad('leaves the thread unable to throw after the native function returned', case)
    # monitors
    if not interp:
        lock = ('v', 'getJClass', ('get', 'class_', ('a', 'm'))) if static else ('c', slots.words[0])
        before = [e for e in evs[:j] if e[0] in ('acquire', 'release')]
        after = [e for e in evs[j:] if e[0] in ('acquire', 'release')]
        if before != ([('acquire', lock)] if sync else []) or after != ([('release', lock)] if sync else []):
            bad('must %s' % ('hold the monitor of the %s exactly while the native function runs' % ('class object' if static else 'receiver') if sync else 'not enter or leave a monitor'), case)
    else:
        before = [e[0] for e in evs[:j] if e[0] in ('pushFrame', 'popFrame')]
        after = [e[0] for e in evs[j:] if e[0] in ('pushFrame', 'popFrame')]
        if before != ['pushFrame'] or after != ['popFrame']:
            bad('must push the frame of the method before the native function runs and pop it afterwards', case)
    if st.x.get('refs') and not interp:   # in the interpreter they are slots of the frame
        bad('leaves the local references that the native function made behind' + (' when it threw' if exc else ''), case)
    ds = [q for q, e in enumerate(evs) if e[0] == 'dispose']
    rd = [q for q, e in enumerate(evs) if e[0] == 'result read']
    if ds and rd and ds[0] < rd[-1]:
        bad('frees the local reference that the native function returned before reading it', case)
    if exc:
        if k != 'throw' or evalc2(v, {}) != 0x7f00dead if isinstance(v, tuple) else True:
            bad('must throw the exception that the native function left', case)
        elif not any(e[0] == 'set' and e[1] == 'exception' and e[3] == ('c', 0) for e in evs[j:]):
            bad('must clear the pending exception before throwing it', case)
        return
    if k != 'return':
        return bad('throws without an exception' if k == 'throw' else 'ends with ' + str(k), case)
    delivered(bad, case, evs, v, r, zero, interp, OBJECT)


def delivered(bad, case, evs, v, r, zero, interp, obj):
    """the result reaches the caller at the width of its type"""
    if interp:
        p = [e for e in evs if e[0].startswith('push') and e[0] != 'pushFrame']
        want = {'V': None, 'J': 'pushLong', 'D': 'pushLong', 'L': 'pushObject'}.get(r, 'pushInt')
        if [e[0] for e in p] != ([want] if want else []):
            if not (r == 'F' and [e[0] for e in p] == ['pushFloat'] or r == 'D' and [e[0] for e in p] == ['pushDouble']):
                bad('must push a result of type %s' % r if want else 'must push no result', case)
            return
        v = p[0][-1] if p else None
    if r == 'V':
        return
    y = evalc2(v, {}) if v is not None else None
    if r == 'L':
        if y is None or y & (1 << 64) - 1 != (0 if zero else obj):
            bad('must return the object that the reference returned by the native function leads to' if not zero else 'must return null for a null reference', case)
    elif y is None or y & ((1 << 64) - 1 if r in 'JD' else 0xffffffff) != result(r) & ((1 << 64) - 1 if r in 'JD' else 0xffffffff):
        bad('must return the result of type %s at its width' % r, case)



def direct(res, P, interp):
    """built-in natives, which take the thread, the method and the argument slots"""
    name = 'invokeNative' if interp else 'invokeNative2'
    g = find(P, name, 2, '/interpret.cpp' if interp else '/compile.cpp')
    if g is None:
        raise AnalysisBroken('the function that calls native methods was not found')
    vmn = 'interpreter' if interp else 'JIT compiler'
    fc = enum(P, 'ByteField')
    codes = {'V': 'VoidField', 'B': 'ByteField', 'C': 'CharField', 'D': 'DoubleField', 'F': 'FloatField', 'I': 'IntField', 'J': 'LongField', 'S': 'ShortField', 'Z': 'BooleanField', 'L': 'ObjectField'}
    done = set()
    for fast in (1, 0):
        for spec in SPECS:
            ps, r = parse(spec)
            r = code(r)
            for static in (0, 1):
                slots = Slots(ps, static, interp)
                mod = Nm(P, g, {}, slots.read, prims=Ex.PR - {'fieldType', 'marshalArguments', 'pushResult'} | {'invokeNativeSlow'})
                common(mod, spec, ps, static, 0)
                took = lambda n, q=None: lambda e, st, f, c, a, v: st.x.setdefault('ev', []).append((n,) + tuple(v[1:])) or (q or ('void',))
                mod.truth.update({'.fast': ('c', fast), '.function': ('v', 'the function'), '.returnCode': ('c', fc[codes[r]]), 'call:resolveNative': took('resolve'), 'call:invokeNativeSlow': took('slow', ('v', 'slow')),
                                  'indirect': None})
                for q in ('pushFrame', 'popFrame', 'pushInt', 'pushLong', 'pushObject', 'pushFloat', 'pushDouble'):
                    mod.truth['call:' + q] = took(q)

                def fun(e, st, f, c, a, v):
                    st.x.setdefault('ev', []).append(('call', v[0], v[1], v[2], contents(st, v[2])))
                    return ('c', RESULT)
                mod.truth['call:memcpy'] = lambda e, st, f, c, a, v, own=mod.truth['call:memcpy']: ('void',) if 'FastNativeFunction' in repr(v[0]) else own(e, st, f, c, a, v)
                mod.truth['indirect'] = fun
                case = '%sbuilt-in %s' % ('static ' if static else '', spec)

                def bad(what, case):
                    if what not in done:
                        done.add(what)
                        res.bad('nativecall|fast|%s|%s' % (vmn, what), rel(g.file), g.l, g.n, 'a call of %s: %s' % (case, what))
                for st, k, v in run(res, P, g, mod, [T, M]):
                    if k != 'return':
                        bad('ends with ' + str(k), case)
                        continue
                    res.count('calls of built-in natives evaluated', floor=20)
                    evs = events(st)
                    calls = [j for j, e in enumerate(evs) if e[0] == ('call' if fast else 'slow')]
                    if len(calls) != 1 or any(e[0] == ('slow' if fast else 'call') for e in evs):
                        bad('must call the function by the convention it was registered for', case)
                        continue
                    j = calls[0]
                    if interp and not any(e[0] == 'resolve' for e in evs[:j]):
                        bad('must find the native function first', case)
                    if not fast:
                        if evs[j][1:] != (M[:2], ('v', 'the function')) or strip_casts(v) != ('v', 'slow'):
                            bad('must pass on the method and its function and return the result', case)
                        continue
                    t, m, args = evs[j][1:4]
                    if simp(t)[:2] != ('a', 't') or simp(m)[:2] != ('a', 'm'):
                        bad('must pass the thread and the method', case)
                    if interp:
                        fr = [e[0] for e in evs if e[0] in ('pushFrame', 'popFrame', 'call')]
                        if fr != ['pushFrame', 'call', 'popFrame']:
                            bad('must push the frame of the method before the native function runs and pop it afterwards', case)
                        got, at = evs[j][4], 0
                        for q, c in enumerate(slots.kinds):
                            y = evalc2(got[at], {}) if at in got else None
                            if y is None or y & ((1 << 64) - 1 if c in 'JDL' else 0xffffffff) != slots.value(q):
                                bad('does not pass the value of an argument of type ' + c, case)
                            at += 2 if c in 'JD' else 1
                    elif slots.kinds and slots.address(args) != 0:
                        bad('must pass the address of the argument slots', case)
                    if interp:
                        if evalc2(v, {}) != fc[codes[r]]:
                            bad('must return the kind of the result', case)
                        delivered(bad, case, evs, None, r, 0, True, RESULT)
                    elif (evalc2(v, {}) or 0) & (1 << 64) - 1 != RESULT:
                        bad('must return the result', case)


def interpreted(res, P):
    """a call from native code of a bytecode method of the interpreter"""
    g = find(P, 'invoke', 2, '/interpret.cpp')
    done = set()

    def bad(what):
        if what not in done:
            done.add(what)
            res.bad('nativecall|invoke|interpreter|' + what, rel(g.file), g.l, g.n, what)
    R = A('receiver', PTR)
    for virt in (0, 1):
        for iface in (0, 1):
            for static in (0, 1):
                if static and virt:
                    continue
                for exc in (0, 1):
                    mod = Nm(P, g, {}, lambda st, b, o, n, ty: None, prims=Ex.PR - {'fieldType'} | {'interpret', 'checkStack'})
                    took = lambda n, q=None: lambda e, st, f, c, a, v: st.x.setdefault('ev', []).append((n,) + tuple(v[1:])) or (q or ('void',))
                    found = ('v', 'found')
                    mod.truth.update({'.flags': lambda x: ('c', (8 if static else 0) if x in (M, M[:2], found) else 0x200 if iface else 0), '.exception': ('c', 0x7f00dead if exc else 0), '.sp': ('c', 20), '.parameterFootprint': ('c', 3),
                                      'call:methodVirtual': lambda *z: ('c', virt), 'call:interpret': took('interpret', ('v', 'result')), 'call:findInterfaceMethod': took('interface', found),
                                      'call:findVirtualMethod': took('virtual', found), 'call:initClass': took('init'), 'call:checkStack': took('check'), '.vmFlags': ('c', 0),
                                      'call:peekObject': lambda e, st, f, c, a, v: R if evalc2(v[1], {}) == 17 else ('v', 'another slot'), 'call:objectClass': lambda e, st, f, c, a, v: ('v', 'class of', v[1])})
                    for q in ('pushFrame', 'popFrame'):
                        mod.truth['call:' + q] = took(q)
                    for st, k, v in run(res, P, g, mod, [T, M]):
                        res.count('results of calls evaluated', floor=20)
                        evs = [e for e in events(st) if e[0] in ('interpret', 'interface', 'virtual', 'init', 'check', 'pushFrame', 'popFrame')]
                        target = found if virt else M[:2]
                        look = [e for e in evs if e[0] in ('interface', 'virtual')]
                        if [e[0] for e in look] != (['interface' if iface else 'virtual'] if virt else []):
                            bad('must call the method of the class of the receiver that overrides a virtual or interface method, and any other method itself')
                            continue
                        if look and (look[0][1] != M[:2] or look[0][2][:2] != ('v', 'class of') or look[0][2][2][:2] != R[:2]):
                            bad('must look for the method in the class of the receiver')
                        if static and not any(e[0] == 'init' for e in evs):
                            bad('must initialize the class of a static method')
                        fr = [e for e in evs if e[0] in ('check', 'pushFrame', 'interpret', 'popFrame', 'init')]
                        names = [e[0] for e in fr if e[0] != 'init']
                        if names != ['check', 'pushFrame', 'interpret'] + ([] if exc else ['popFrame']):
                            bad('must push the frame of the method, run it, and pop the frame if it returned')
                            continue
                        if any(e[1] != target for e in fr if e[0] in ('check', 'pushFrame')):
                            bad('must run the method that was called')
                        if exc:
                            if k != 'throw' or evalc2(v, {}) != 0x7f00dead or not any(e[0] == 'set' and e[1] == 'exception' and e[3] == ('c', 0) for e in events(st)):
                                bad('must rethrow the exception of the method')
                        elif k != 'return' or strip_casts(v) != ('v', 'result'):
                            bad('must return the result of the method')


def registers(res, P):
    """the calling convention of the x86-64 ABI: six integer registers, eight vector registers, the rest on the stack in order"""
    g = [h for h in P.funcs.values() if h.b and h.n == 'vm::dynamicCall' and len(h.params) == 6]
    if len(g) != 1:
        raise AnalysisBroken('dynamicCall was not found')
    g = g[0]
    seqs = ['LL', 'LLI', 'LLIJZBCSL', 'LLFD', 'LLFFFFFFFF', 'LLDDDDDDDDD', 'LLFIFIFIFIFIFIFIFIFIFI', 'LLDDDDDDDDFFJJJJJJLF', 'LLIIIIFFFFFFFFFI', 'LLJJJJJDDDDDDDDDDJ', 'LLSCBZJLI' + 'D' * 10]
    for seq in seqs:
        for ret in 'VJFD':
            def read(st, b, o, n, ty):
                if b[:2] == ('a', 'arguments') and o % 8 == 0 and 0 <= o // 8 < len(seq):
                    return ('c', 0x1000 + o // 8)
                if b[:2] == ('a', 'types') and 0 <= o < len(seq):
                    return ('c', TYPES[seq[o]])
                return None
            mod = Nm(P, g, {}, read)
            rec = []

            def call(e, st, f, c, a, v):
                tab = []
                for x in (v[1], v[3], v[4]):
                    b = where(x)[0]
                    t = contents(st, x)
                    size = evalc2(b[2], {}) if b[0] == 'local' else 1 << 30
                    tab.append('null' if simp(x) == ('c', 0) else 'overflow' if size is not None and any(not 0 <= q < size for q in t) else
                               [evalc2(t[q], {}) - 0x1000 if q in t and evalc2(t[q], {}) is not None else None for q in range(max(t) + 1 if t else 0)])
                rec.append((v[0], tab, evalc2(v[2], {}), evalc2(v[5], {})))
                return ('v', 'raw')
            mod.truth['call:vmNativeCall'] = call
            outs = run(res, P, g, mod, [A('function', PTR), A('arguments', PTR), A('types', PTR), ('c', len(seq)), ('c', 8 * len(seq)), ('c', TYPES[ret])])
            if not outs:
                continue
            res.count('native argument lists evaluated', floor=20)
            fl = [k for k, c in enumerate(seq) if c in 'FD']
            ints = [k for k, c in enumerate(seq) if c not in 'FD']
            stack = sorted(fl[8:] + ints[6:])
            say = lambda what: res.bad('nativecall|dynamicCall|' + what, rel(g.file), g.l, g.n, 'for arguments of the types %s: %s' % (seq, what))
            if len(rec) != 1 or any(o[1] != 'return' or o[2] != ('v', 'raw') for o in outs):
                say('must call the function once and return its result')
                continue
            fn, (st_, gp, ss), size, rt = rec[0]
            if fn != ('a', 'function') or rt != TYPES[ret]:
                say('must pass on the function and the type of its result')
            if gp != ints[:6]:
                say('must put the first six integers and references, in order, into the integer registers')
            if ss != fl[:8] and not (ss == 'null' and not fl):
                say('must put the first eight floating point numbers, in order, into the vector registers')
            if size != 8 * len(stack) or (stack and st_ != stack):
                say('must put the other arguments, in order, on the stack')


BOXES = {'Z': 'Boolean', 'B': 'Byte', 'C': 'Char', 'S': 'Short', 'I': 'Int', 'J': 'Long', 'F': 'Float', 'D': 'Double', 'L': 'String'}


class Args:
    """the actual arguments of a call from native code, offered as variable arguments, jvalues or boxes"""
    INTS = {'Z': 1, 'B': -2, 'C': 0xfffe, 'S': -0x7ffe, 'I': -0x7ffffffe, 'J': -0x7ffffffefffffff0}

    def __init__(self, ps, null=None):
        self.kinds = [code(d) for d in ps]
        self.null = null
        self.vals = []
        self.boxes = list(self.kinds)
        for k, c in enumerate(self.kinds):
            if c in 'FD':
                self.vals.append(1.5 + k)
            elif c == 'L':
                self.vals.append(0 if k == null else 0x7f0000000000 + 16 * k)
            elif c == 'Z':
                self.vals.append(1)
            else:
                self.vals.append(self.INTS[c] + k)

    def raw(self, k, c=None):
        """the bits of the value as the called method reads them"""
        c, v = c or self.kinds[k], self.vals[k]
        if c in 'FD':
            return struct.unpack('<I' if c == 'F' else '<Q', struct.pack('<f' if c == 'F' else '<d', v))[0]
        return v & ((1 << 64) - 1 if c in 'JL' else 0xffffffff)

    def memory(self, k, n, garbage):
        """the union or box that holds the value, of which n bytes are read"""
        w = GPR[self.boxes[k] if self.boxes[k] in GPR else self.kinds[k]]
        b = (self.raw(k, self.boxes[k]) & (1 << 8 * w) - 1).to_bytes(w, 'little') + bytes([0xA5 if garbage else 0]) * 8
        return int.from_bytes(b[:n], 'little')


class In(Nm):
    """calls from native code"""

    def __init__(self, P, g, args, interp):
        Nm.__init__(self, P, g, {}, lambda *z: None, prims=Ex.PR - {'fieldType'})
        self.args, self.interp = args, interp
        self.boxed = False
        self.val = dict(self.val, **{'fp%d' % k: v for k, v in enumerate(args.vals) if args.kinds[k] in 'FD'})

    def tnum(self, c):
        if not hasattr(self, 'tn'):
            self.tn = {v: k for k, v in self.types.items()}
        return self.tn[BOXES[c] + 'Type']

    def inline(self, g):
        return Nm.inline(self, g) or self.boxed and g.file.endswith('/machine.cpp') and len(g.x) < 600

    def va_arg(self, st, f, i):
        t = f.type(i).strip()
        fp = t in ('double', 'float')
        at = st.x.setdefault('va', {'fp': 0, 'gp': 0})
        q = [k for k, c in enumerate(self.args.kinds) if (c in 'FD') == fp]
        k = at['fp' if fp else 'gp']
        at['fp' if fp else 'gp'] = k + 1
        if k >= len(q):
            st.memo['va_arg'] = ('v', 'beyond the arguments')
            return True
        k = q[k]
        if fp:
            st.memo['va_arg'] = ('a', 'fp%d' % k, absint.ty(t))
        elif t.endswith('*'):
            v = self.args.vals[k]
            st.memo['va_arg'] = ('c', v) if not self.indirect else ('ref', k) if v else ('c', 0)
        else:
            st.memo['va_arg'] = ('c', absint.wrap(self.args.vals[k], absint.ty(t)))
        return True

    def load(self, st, f, i, lv):
        if lv[1] == 'mem' and isinstance(lv[2], tuple) and lv[2][0] in ('lv', 'ld') and lv[3] in ('z', 'b', 'c', 's', 'i', 'j', 'f', 'd', 'l'):
            p = lv[2][2] if lv[2][1] == 'deref' else ('padd', 'jvalue', lv[2][2], lv[2][3]) if lv[2][1] == 'idx' else None
            b, o = where(p) if p is not None else (None, None)
            if b is not None and b[:2] == ('a', 'arguments') and o is not None and o % 8 == 0 and 0 <= o // 8 < len(self.args.kinds):
                k, m = o // 8, lv[3]
                if m in 'fd':
                    return ('a', 'fp%d' % k, F32 if m == 'f' else F64) if self.args.kinds[k] == m.upper() else ('v', 'a number that is none')
                if m == 'l':
                    v = self.args.vals[k]
                    return ('c', 0) if self.args.kinds[k] != 'L' or not v else ('ref', k)
                w = GPR[m.upper()]
                v = self.args.memory(k, w, True)
                return ('c', absint.wrap(v, ('u' if m in 'zc' else 'i', 8 * w)))
        if lv[1] in ('deref', 'idx') and lv[2][0] == 'ref':
            return ('c', self.args.vals[lv[2][1]])
        return Nm.load(self, st, f, i, lv)

    def decide(self, st, t):
        x = t[3] if t[0] == 'op' and t[1] in ('!=', '==') and t[4] == ('c', 0) else t
        if strip_casts(x)[0] in ('ref', 'box'):
            return t[1] != '==' if t[0] == 'op' else 1
        return Nm.decide(self, st, t)

    def call(self, ev, st, f, i, fn, a):
        last = fn.split('::')[-1].split('<')[0]
        c = f.x[i].get('c', ())
        if f.x[i]['k'] == 'Ctor' and 'Resource' in last and not any(x in last for x in ('State', 'Monitor', 'Field')):
            st.x.setdefault('ev', []).append(('wrap',))
        if last in ('objectClass', 'type', 'value') or f.x[i]['k'] == 'Call':
            x = [simp(ev.load(f, c[k], st, a[k]) if a[k][0] == 'lv' else a[k]) for k in range(len(a))]
            self.boxed = any(y[0] == 'box' for y in x)
            if last == 'objectClass' and x[-1][0] == 'box':
                return ('c', 0x700000 + self.tnum(self.args.boxes[x[-1][1]]))
            if last == 'type' and len(x) == 2 and x[1][0] == 'c':
                return ('c', 0x700000 + x[1][1])
            if last == 'value' and len(x) == 1 and x[0][0] == 'box':
                k = x[0][1]
                if fn.split('::')[-2] != 'Gc' + BOXES[self.args.boxes[k]]:
                    raise Stop('reads a box as one of another class')
                t = absint.ty(prog_type(f, i))
                return ('c', absint.wrap(self.args.raw(k, self.args.boxes[k]), t))
        if last == 'fieldAtOffset':
            x = [simp(ev.load(f, c[k], st, a[k]) if a[k][0] == 'lv' else a[k]) for k in range(len(a))]
            if x[0][0] == 'box':
                t = absint.ty(prog_type(f, i))
                v = self.args.memory(x[0][1], t[1] // 8, True) if t[0] in 'iu' and x[1] == ('c', 8) else 0xBAD0BAD
                return ('c', absint.wrap(v, t))
        return Nm.call(self, ev, st, f, i, fn, a)

    def number(self, t):
        def sub(t):
            if not isinstance(t, tuple):
                return t
            if t and t[0] == 'bitsto':
                v = evalc2(sub(t[2]), self.val)
                if v is None:
                    return t
                n = 32 if t[1] == F32 else 64
                nm = 'fp@%d.%d' % (n, v)
                self.val[nm] = struct.unpack('<f' if n == 32 else '<d', (v & (1 << n) - 1).to_bytes(n // 8, 'little'))[0]
                return ('a', nm, t[1])
            if t and t[0] == 'bits':
                v = evalc2(sub(t[2]), self.val)
                if v is None:
                    return t
                return ('c', struct.unpack('<I' if t[1][1] == 32 else '<Q', struct.pack('<f' if t[1][1] == 32 else '<d', v))[0])
            if t and t[0] in ('low', 'zext', 'sext'):
                v = evalc2(sub(t[2]), self.val)
                if v is None:
                    return t
                v &= (1 << t[1]) - 1
                return ('c', v - (1 << t[1]) if t[0] == 'sext' and v >> t[1] - 1 else v)
            return tuple(sub(x) for x in t)
        return evalc2(sub(t), self.val)

    def ctor(self, g):
        return Nm.ctor(self, g)


def calls_in(res, P, interp):
    file = '/interpret.cpp' if interp else '/compile.cpp'
    vmn = 'interpreter' if interp else 'JIT compiler'
    fns = [h for h in P.funcs.values() if h.b and h.file.endswith(file) and h.n.split('::')[-1] in ('invokeArray', 'invokeList')]
    res.count('ways to call Java from native code', len(fns), floor=4)
    fc = enum(P, 'ByteField')
    for g in fns:
        done = set()
        byname = len(g.params) > 5
        kind = g.vars[g.params[-1]][1]
        form = 'a list of variable arguments' if 'va_list' in kind else 'jvalues' if 'jvalue' in kind else 'boxes'

        def bad(what, case):
            if what not in done:
                done.add(what)
                res.bad('nativecall|%s|%s|%s|%s' % (g.n.split('::')[-1], form, vmn, what), rel(g.file), g.l, g.n, 'called for %s with %s: %s' % (case, form, what))
        for spec in SPECS:
            ps, r = parse(spec)
            refs = [k for k, d in enumerate(ps) if code(d) == 'L']
            for static in (0, 1):
                for ind in ((0, 1) if 'va_list' in kind and not byname else (0,)):
                    for null in [None] + refs[:1] + refs[-1:]:
                        args = Args(ps, null)
                        mod = In(P, g, args, interp)
                        mod.indirect = ind
                        rec = []
                        pass_in(P, mod, args, rec, interp, spec, ps, static)
                        this = ('c', 0x7f00000f0000) if not static else ('c', 0)
                        actual = {'object': A('arguments', PTR)}
                        argv = [T, M, this] if not byname else [T, A('loader', PTR), A('cn', PTR), A('mn', PTR), A('spec', PTR), this]
                        if 'va_list' in kind and not byname:
                            argv.append(('c', ind))
                        argv.append(A('arguments', PTR))
                        if len(argv) != len(g.params):
                            raise AnalysisBroken('the parameters of %s changed' % g.n)
                        outs = run(res, P, g, mod, argv)
                        case = ('static ' if static else '') + spec
                        for st, k, v in outs:
                            if k not in ('called', 'throw'):
                                bad('does not call the method', case)
                        if not outs:
                            continue
                        res.count('argument lists passed to Java evaluated', floor=100)
                        for q in rec:
                            slots_in(bad, case, q, args, mod, this[1], interp)


def pass_in(P, mod, args, rec, interp, spec, ps, static):
    fc = enum(P, 'ByteField')
    common(mod, spec, ps, static, 0)
    mod.truth.update({
        '.sp': ('c', 20), 'call:objectArrayBody': lambda e, st, f, c, a, v: None if v[2][0] != 'c' else ('box', v[2][1]) if args.kinds[v[2][1]] != 'L' else ('c', args.vals[v[2][1]]),
        'call:findMethod': lambda e, st, f, c, a, v: ('v', 'found', v[1]), 'call:stackSizeInWords': lambda *z: ('c', 1 << 20), '.stackLimit': ('c', 1),
        'call:resolveMethod': lambda e, st, f, c, a, v: M, '.returnCode': ('c', fc['VoidField']), '.exception': ('c', 0)})
    def take(e, st, f, c, a, v):
        if not interp:
            b = where(v[2])[0]
            rec.append((contents(st, v[2]), evalc2(v[3], {}), evalc2(b[2], {}) if b[0] == 'local' else None, masks(st)))
        else:
            q = {k[2][1]: w for k, w in st.env.items() if isinstance(k, tuple) and k[0] == 'idx' and k[1] == ('get', 'stack', ('a', 't')) and k[2][0] == 'c'}
            sp = evalc2(next((w for k, w in st.env.items() if isinstance(k, tuple) and k[0] == 'mem' and k[2] == 'sp'), ('c', 20)), {})
            rec.append((q, sp, None, None))
        raise Stop('called')
    mod.truth['call:' + ('invoke' if interp else 'vmInvoke')] = take
    mod.truth['call:memset'] = cleared


def cleared(e, st, f, c, a, v):
    b, o = where(v[0])
    n = evalc2(v[2], {})
    if b[0] == 'local' and o is not None and n is not None and n < 4096 and simp(v[1]) == ('c', 0):
        w = esize(b[3])
        for k in range(o // w, (o + n) // w):
            st.env[('idx', b, ('c', k))] = ('c', 0)
        return ('void',)
    return None


def masks(st):
    """which slots of the list are reported as references to the collector"""
    r = [k[1] for k in st.env if isinstance(k, tuple) and k[0] == 'idx' and k[1][0] == 'local' and esize(k[1][3]) == 1]
    return {k[2][1]: evalc2(v, {}) for k, v in st.env.items() if isinstance(k, tuple) and k[0] == 'idx' and k[1] == r[0] and k[2][0] == 'c'} if len(set(r)) == 1 else None


def slots_in(bad, case, q, args, mod, this, interp):
    got, size, room, mask = q
    kinds = (['L'] if this else []) + args.kinds
    vals = ([this] if this else []) + [args.raw(k) for k in range(len(args.kinds))]
    n = sum(2 if c in 'JD' else 1 for c in kinds)
    if interp:
        if size is None or size - 20 != n:
            bad('does not push as many slots as the parameters need', case)
    else:
        if size != 8 * n or room is not None and any(not 0 <= k < room for k in got):
            bad('does not pass as many slots as the parameters need', case)
    at = 0
    for c, v in zip(kinds, vals):
        w = 2 if c in 'JD' else 1
        if interp:
            words = [v >> 32, v & 0xffffffff] if w == 2 else [v]
            for k, x in enumerate(words):
                tag, y = got.get(2 * (20 + at + k)), got.get(2 * (20 + at + k) + 1)
                y = mod.number(y) if y is not None else None
                if y is None or y & ((1 << 64) - 1 if c == 'L' else 0xffffffff) != x:
                    bad('does not pass the value of an argument of type ' + c, case)
                if tag is None or evalc2(tag, {}) != (1 if c == 'L' else 0):
                    bad('marks the slot of an argument of type %s wrongly for the collector' % c, case)
        else:
            y = got.get(at)
            y = mod.number(y) if y is not None else None
            if y is None or y & ((1 << 64) - 1 if c in 'JDL' else 0xffffffff) != v:
                bad('does not pass the value of an argument of type ' + c, case)
            if mask is not None and [bool(mask.get(at + k, c != 'L')) for k in range(w)] != [c == 'L'] * w:
                bad('marks the slot of an argument of type %s wrongly for the collector' % c, case)
        at += w


JTYPES = {'Object': 'L', 'Boolean': 'Z', 'Byte': 'B', 'Char': 'C', 'Short': 'S', 'Int': 'I', 'Long': 'J', 'Float': 'F', 'Double': 'D', 'Void': 'V'}
RESULTS = {'Z': (0, 1), 'B': (-3, 100), 'C': (0xfffe, 1), 'S': (-0x7ffe, 3), 'I': (-5, 0x7ffffff0), 'J': (-0x7ffffffefffffff0, 0x123456789a), 'F': (0x40200000, 0xbf800000), 'D': (0x400921fb54442d18, 0xc000000000000000)}


def bits(t):
    """number, or the bits of a floating point value made from bits"""
    t = strip_casts(t) if t[0] == 'cast' and t[1][0] == 'p' else t
    if t[0] == 'bitsto':
        return evalc2(t[2], {})
    return evalc2(t, {})


def environment(res, P):
    import re
    fns = {}
    for h in P.funcs.values():
        if h.b and h.file.endswith('/jnienv.cpp'):
            m = re.match(r'^(?:Call(Static|Nonvirtual)?(%s)Method|New(Object))(V|A)?$' % '|'.join(JTYPES), h.n.split('::')[-1])
            if m:
                fns[h.n.split('::')[-1]] = (h, m)
    res.count('JNI functions that call Java methods', len(fns), floor=60)
    key = {k: h for k, h in P.funcs.items()}
    for name, (h, m) in sorted(fns.items()):
        static, ty, new, form = m.group(1), m.group(2), m.group(3), m.group(4)
        c = 'L' if new else JTYPES[ty]
        par = [A(h.vars[p][0], PTR) for p in h.params]

        def bad(what):
            res.bad('nativecall|jni|%s|%s' % (name, what), rel(h.file), h.l, h.n, what)

        def model(g):
            return Nm(P, g, {}, lambda *z: None, files=('/jnienv.cpp',), prims=Ex.PR | {'getMethod', 'getStaticMethod', 'makeLocalReference', 'make', 'initClass', 'run'})
        if form is None:
            mod = model(h)
            rec = []

            def deleg(e, st, f, cc, a, v):
                rec.append(v)
                return ('v', 'delegated')
            mod.truth['call:' + name + 'V'] = deleg
            started = []
            mod.truth['call:__builtin_va_start'] = lambda e, st, f, cc, a, v: started.append(len(rec)) or ('void',)
            outs = run(res, P, h, mod, par)
            if started[:1] != [0]:
                bad('must open the list of its arguments before it passes it on')
            if len(rec) != 1 or [simp(x) for x in rec[0][:len(par)]] != [simp(x) for x in par] or any(o[1] != 'return' or c != 'V' and strip_casts(o[2]) != ('v', 'delegated') for o in outs):
                bad('must call the method with its own arguments and return what it returns')
            continue
        for raw in RESULTS.get(c, (0,)):
            seen = []

            def run1(e, st, f, cc, a, v, seen=seen):
                fn = v[1]
                seen.append((fn, contents(st, v[2])))
                return final[0]
            final = [('c', 0)]
            mod = model(h)
            mod.truth['call:run'] = run1
            run(res, P, h, mod, par)
            if len(seen) != 1 or seen[0][0][0] != 'fn' or key.get(seen[0][0][1]) is None:
                bad('must run exactly one function in the virtual machine')
                break
            g, args = key[seen[0][0][1]], seen[0][1]
            mod = model(g)
            mod.read = lambda st, b, o, n, t, args=args: args.get(o // 8) if b[:2] == ('a', 'arguments') and o % 8 == 0 else None
            calls = []

            def inv(e, st, f, cc, a, v, calls=calls):
                calls.append(v)
                return ('v', 'result')
            mod.truth.update({'call:invokeList': inv, 'call:invokeArray': inv, '.value': ('c', raw), 'call:make': lambda e, st, f, cc, a, v: ('v', 'made', v[1]),
                              'call:makeLocalReference': lambda e, st, f, cc, a, v: ('v', 'local', v[1]), 'call:getMethod': lambda e, st, f, cc, a, v: ('v', 'method', v[1]),
                              'call:getStaticMethod': lambda e, st, f, cc, a, v: ('v', 'method', v[1])})
            outs = run(res, P, g, mod, [T, A('arguments', PTR)])
            if not outs:
                break
            res.count('JNI calls evaluated', floor=60)
            o, mm, last = par[1], par[2], par[3]
            made = None
            if new and not all(any(e[0] == 'call' and e[1].endswith('initClass') or e[0] == 'initClass' for e in st.eff + list(events(st))) for st, k, r in outs):
                bad('must initialize the class before it makes an object of it')
            if len(calls) != 1:
                bad('must call the method exactly once')
                break
            v = [simp(x) for x in calls[0][-(4 if form == 'A' else 5):]]
            want = ('c', 0) if static == 'Static' else ('v', 'made') if new else None
            if v[1] != ('v', 'method', normx(mm)):
                bad('must call the method with the given identifier')
            if want is None and v[2] != ('ld', 'deref', normx(o)) and strip_casts(v[2]) != ('ld', 'deref', o) or want is not None and v[2][:2] != want[:2]:
                bad('must call it on the given object')
            x = strip_casts(v[-1])
            if form == 'A' and x != normx(last) and x != last or form == 'V' and repr(normx(last)) [:-1] not in repr(x):
                bad('must pass the given arguments')
            if form == 'V' and v[3] != ('c', 1):
                bad('must read the arguments as JNI references')
            for st, k, r in outs:
                if k != 'return':
                    bad('ends with ' + str(k))
                    continue
                if c == 'L':
                    if strip_casts(r) != ('v', 'local', v[2] if new else ('v', 'result')):
                        bad('must return a local reference to ' + ('the new object' if new else 'the result'))
                    final[0] = ('v', 'handle')
                elif c != 'V':
                    final[0] = ('c', evalc2(r, {}))
                    if final[0][1] is None:
                        bad('must return the result of the call')
            mod = model(h)
            mod.truth['call:run'] = run1
            for st, k, r in run(res, P, h, mod, par):
                if k != 'return':
                    bad('ends with ' + str(k))
                elif c == 'L':
                    if strip_casts(r) != ('v', 'handle'):
                        bad('must return the reference to the result')
                elif c != 'V' and bits(r) != raw and not (bits(r) is not None and c in 'FD' and bits(r) & (1 << (32 if c == 'F' else 64)) - 1 == raw):
                    bad('must return the result of the call but %d becomes %s' % (raw, bits(r)))


def results(res, P, Q):
    """what Java methods and reflection return to native code"""
    fc = enum(P, 'ByteField')
    codes = {'V': 'VoidField', 'B': 'ByteField', 'C': 'CharField', 'D': 'DoubleField', 'F': 'FloatField', 'I': 'IntField', 'J': 'LongField', 'S': 'ShortField', 'Z': 'BooleanField', 'L': 'ObjectField'}
    def made(e, st, f, c, a, v, n):
        return ('made', n) + tuple(v[1:])
    for g, interp in ((find(P, 'invoke', 3, '/compile.cpp'), False), (find(Q, 'invoke', 2, '/interpret.cpp'), True)):
        if g is None:
            raise AnalysisBroken('the function that calls Java methods was not found')
        vmn = 'interpreter' if interp else 'JIT compiler'
        for c, nm in codes.items():
            for exc in (0, 1):
                mod = Nm(Q if interp else P, g, {}, lambda *z: None)
                for x in ('makeInt', 'makeLong', 'makeFloat', 'makeDouble'):
                    mod.truth['call:' + x] = lambda e, st, f, cc, a, v, x=x: ('made', x) + tuple(v[1:])
                mod.truth.update({'.returnCode': ('c', fc[nm]), '.exception': ('c', 0x7f00dead if exc else 0), '.stackLimit': ('c', 1), '.position': ('c', 3), '.size': ('c', 3), '.flags': ('c', 0x108),
                                  'call:getFlags': lambda *z: ('c', 0), 'call:methodVirtual': lambda *z: ('c', 0),
                                  'call:vmInvoke': lambda e, st, f, cc, a, v: st.x.setdefault('ev', []).append(('vmInvoke', simp(v[5]))) or ('c', RESULT),
                                  'call:invokeNative': lambda *z, q=fc[nm]: ('c', q), 'call:popInt': lambda *z: ('c', RESULT & 0xffffffff), 'call:popLong': lambda *z: ('c', RESULT), 'call:popObject': lambda *z: ('c', RESULT)})
                if interp and exc:
                    continue
                outs = run(res, Q if interp else P, g, mod, [T, M] + ([A('arguments', PTR)] if not interp else []))
                case = 'for a method that returns %s: ' % nm[:-5]
                bad = lambda what: res.bad('nativecall|invoke|%s|%s' % (vmn, what), rel(g.file), g.l, g.n, case + what)
                for st, k, v in outs:
                    if k == 'throw' and 'StackOverflow' in str(v):
                        continue
                    res.count('results of calls evaluated', floor=20)
                    if not interp and [e[1] for e in events(st) if e[0] == 'vmInvoke'] != [('c', TYPES[c])]:
                        bad('must tell the type of the result')
                    if exc:
                        if k != 'throw' or evalc2(v, {}) != 0x7f00dead or not any(e[0] == 'set' and e[1] == 'exception' and e[3] == ('c', 0) for e in events(st)):
                            bad('must rethrow the exception of the method')
                        continue
                    if k != 'return':
                        bad('must return the result')
                        continue
                    x = strip_casts(v) if v is not None else None
                    if c == 'V' and evalc2(x, {}) != 0:
                        bad('must return null')
                    if c == 'L' and (evalc2(x, {}) or 0) & (1 << 64) - 1 != RESULT:
                        bad('must return the object')
                    if c in 'JD' and not (x[:2] == ('made', 'makeLong') and (evalc2(x[2], {}) or 0) & (1 << 64) - 1 == RESULT):
                        bad('must return all 64 bits of the result')
                    if c in 'ZBCSIF' and not (x[:2] == ('made', 'makeInt') and (evalc2(x[2], {}) or 0) & 0xffffffff == RESULT & 0xffffffff):
                        bad('must return the result')
    g = [h for h in P.funcs.values() if h.b and h.n == 'vm::translateInvokeResult' and len(h.params) == 3]
    if not g:
        raise AnalysisBroken('translateInvokeResult was not found')
    g = g[0]
    for c, nm in codes.items():
        for raw in RESULTS.get(c, (0,)):
            mod = Nm(P, g, {}, lambda *z: None)
            for x in 'Byte Boolean Char Short Int Long Float Double'.split():
                mod.truth['call:make' + x] = lambda e, st, f, cc, a, v, x=x: ('made', x) + tuple(v[1:])
            mod.truth['.value'] = ('c', raw)
            for st, k, v in run(res, P, g, mod, [T, ('c', fc[nm]), A('o', PTR)]):
                x = strip_casts(v) if v is not None else None
                if c in 'VLIJ':
                    ok = x == ('a', 'o') or x == A('o', PTR)
                else:
                    w = {'Z': 'Boolean', 'B': 'Byte', 'C': 'Char', 'S': 'Short', 'F': 'Float', 'D': 'Double'}[c]
                    n = evalc2(x[2], {}) if x and x[0] == 'made' else None
                    m = (1 << 8 * GPR[c]) - 1
                    ok = n is not None and x[1] == w and n & m == raw & m
                if k != 'return' or not ok:
                    res.bad('nativecall|translateInvokeResult', rel(g.file), g.l, g.n, 'must return the result of a method that returns %s as a box of its type with its value' % nm[:-5])


IDLE = [None]


def setup(res, P):
    e = enum(P, 'IdleState')
    IDLE[0] = e['IdleState']
    h = [h for h in P.funcs.values() if h.b and h.n == 'vm::fieldType']
    fc = enum(P, 'ByteField')
    names = {'V': 'VoidField', 'B': 'ByteField', 'C': 'CharField', 'D': 'DoubleField', 'F': 'FloatField', 'I': 'IntField', 'J': 'LongField', 'S': 'ShortField', 'Z': 'BooleanField', 'L': 'ObjectField'}
    # avian/arch.h, avian/types: the codes dynamicCall dispatches on
    want = {'V': 0, 'Z': 1, 'B': 1, 'C': 2, 'S': 2, 'I': 3, 'J': 4, 'F': 5, 'D': 6, 'L': 7}
    if not h:
        raise AnalysisBroken('fieldType was not found')
    for c, nm in names.items():
        outs = run(res, P, h[0], Nm(P, h[0], {}, lambda *z: None), [T, ('c', fc[nm])])
        got = {evalc2(v, {}) if v is not None else None for s, k, v in outs if k == 'return'}
        TYPES[c] = want[c]
        if got != {want[c]}:
            res.bad('nativecall|fieldType', rel(h[0].file), h[0].l, h[0].n, 'must give the native type of %s' % nm)


WIDEN = {'B': 'SIJFD', 'S': 'IJFD', 'C': 'IJFD', 'I': 'JFD', 'J': 'FD', 'F': 'D', 'Z': '', 'D': '', 'L': ''}


def widened(src, dst, v):
    """the bits of value v of the primitive type src as the type dst"""
    if dst in 'FD':
        return struct.unpack('<I' if dst == 'F' else '<Q', struct.pack('<f' if dst == 'F' else '<d', float(v)))[0]
    return v & ((1 << 64) - 1 if dst == 'J' else 0xffffffff)


def conversions(res, P, interp):
    """boxes of every class passed for parameters of every primitive type"""
    file = '/interpret.cpp' if interp else '/compile.cpp'
    vmn = 'interpreter' if interp else 'JIT compiler'
    g = [h for h in P.funcs.values() if h.b and h.file.endswith(file) and h.n.split('::')[-1] == 'invokeArray' and 'jvalue' not in h.vars[h.params[-1]][1]]
    if len(g) != 1:
        raise AnalysisBroken('the function that calls a method with boxed arguments was not found')
    g = g[0]
    done = set()
    for src in 'ZBCSIJFDL':
        for dst in 'ZBCSIJFD':
            spec = '(%s)V' % dst
            args = Args(['Lx;' if src == 'L' else src])
            args.kinds = [dst]
            args.boxes = [src]
            args.vals = [args.vals[0] if src != 'L' else 0]
            ok = src == dst or dst in WIDEN[src]
            mod = In(P, g, args, interp)
            if src in 'FD':
                mod.val['fp0'] = args.vals[0]
            rec = []
            pass_in(P, mod, args, rec, interp, spec, [dst], 1)
            outs = run(res, P, g, mod, [T, M, ('c', 0), A('arguments', PTR)])
            case = 'a box of class %s for a parameter of type %s: ' % (BOXES[src], dst)

            def bad(what, key):
                if key not in done:
                    done.add(key)
                    res.bad('nativecall|unbox|%s|%s' % (vmn, key), rel(g.file), g.l, g.n, case + what)
            if not outs:
                continue
            res.count('conversions of boxed arguments evaluated', floor=80)
            for st, k, v in outs:
                if k == 'throw':
                    if v == 'StackOverflowError':
                        continue
                    if ok:
                        bad('must be accepted', 'rejects')
                    elif v != 'IllegalArgumentException':
                        bad('must throw IllegalArgumentException, not ' + str(v), 'exception')
                elif k == 'called':
                    if not ok:
                        bad('must be rejected', 'accepts')
                elif k != 'loop':
                    bad(k, k)
            if ok:
                args2 = Args([dst])
                want = widened(src, dst, args.vals[0])
                args2.raw = lambda k, c=None, want=want: want
                for q in rec:
                    slots_in(lambda what, cs: bad(what, what), case, q, args2, mod, 0, interp)


def reflection(res, P):
    """the check of arguments before a reflective call"""
    g = [h for h in P.funcs.values() if h.b and h.n == 'vm::invokeMethod' and len(h.params) == 4]
    if not g:
        raise AnalysisBroken('the function behind Method.invoke was not found')
    g = g[0]
    done = set()
    spec = '(Ljava/lang/String;I[[J)V'
    ps, r = parse(spec)
    for null in (None, 0, 2):
        for wrong in (None, 0, 1, 2):
            if wrong is not None and wrong == null:
                continue
            args = Args(ps, null)
            if wrong == 1:
                args.boxes[1] = 'L'
            mod = In(P, g, args, False)
            mod.pr = mod.pr | {'translateInvokeResult', 'resolveClassBySpec'}
            mod.files = mod.files + ('/classpath-common.h',)
            rec = []
            body = lambda e, st, f, c, a, v, args=args: None if v[-1][0] != 'c' else ('box', v[-1][1]) if args.kinds[v[-1][1]] != 'L' else ('c', args.vals[v[-1][1]])
            common(mod, spec, ps, 1, 0)
            own = mod.read

            def read(st, b, o, n, t, own=own):
                if b[0] == 'local' and o is not None and 0 <= o < len(spec):
                    src = st.x.get('spec copy')
                    if src == b:
                        return ('c', ord(spec[o]))
                return own(st, b, o, n, t)
            mod.read = read

            def copy(e, st, f, c, a, v):
                if 'spec' in repr(v[1]) and evalc2(v[2], {}) in (len(spec), len(spec) + 1):
                    st.x['spec copy'] = where(v[0])[0]
                    return ('void',)
                return None

            def cls(e, st, f, c, a, v):
                b, o = where(v[2])
                n = evalc2(v[3], {})
                return ('v', 'class', spec[o:o + n]) if o is not None and n is not None and (b == st.x.get('spec copy') or 'spec' in repr(b)) else ('v', 'class?')

            def inst(e, st, f, c, a, v, args=args, wrong=wrong):
                x = evalc2(v[2], {})
                if x == 0:
                    return ('c', 0)
                k = [q for q in range(3) if args.kinds[q] == 'L' and args.vals[q] == x]
                if len(k) != 1 or v[1] != ('v', 'class', ps[k[0]]):
                    raise Stop('checks an argument against the type of no or another parameter')
                return ('c', int(k[0] != wrong))

            def call(e, st, f, c, a, v, rec=rec):
                rec.append([simp(x) for x in v])
                return ('v', 'result')

            def guard(e, st, f, c, a, v):
                return None
            mod.truth.update({'call:objectArrayBody': body, 'call:memcpy': copy, 'call:resolveClassBySpec': cls, 'call:instanceOf': inst, 'call:invokeArray': call, '.returnCode': ('c', 0),
                              '.length': ('c', len(spec) + 1), 'call:translateInvokeResult': lambda e, st, f, c, a, v: ('v', 'translated', v[-1]), '.exception': ('c', 0),
                              'call:initClass': lambda *z: ('void',)})
            outs = run(res, P, g, mod, [T, M, A('instance', PTR), A('args', PTR)])
            case = 'called by reflection with %s: ' % ('arguments of the declared types' if wrong is None else 'an argument that is not of type ' + ps[wrong])

            def bad(what):
                if what not in done:
                    done.add(what)
                    res.bad('nativecall|reflection|' + what, rel(g.file), g.l, g.n, case + what)
            for st, k, v in outs:
                if k == 'loop':
                    continue
                res.count('reflective calls evaluated', floor=8)
                if wrong is not None:
                    if k != 'throw' or v != 'IllegalArgumentException':
                        bad('must throw IllegalArgumentException')
                    elif any(e[0] == 'wrap' for e in events(st)):
                        bad('must not wrap the IllegalArgumentException in an InvocationTargetException')
                elif k != 'return':
                    bad('must call the method but ends with %s %s' % (k, v if isinstance(v, str) else ''))
                elif ('v', 'result') not in strip_casts(v):
                    bad('must return the result of the method')
                elif not any(e[0] == 'wrap' for e in events(st)):
                    bad('must wrap the exception of the method in an InvocationTargetException')
            if wrong is None and outs and any([x[:2] for x in q[-3:]] != [('a', 'm'), ('a', 'instance'), ('a', 'args')] for q in rec):
                bad('must pass on the method, the receiver and the arguments')


def identifiers(res, P):
    """identifiers of methods and fields lead back to what they were made from"""
    for get, make, table in (('getMethod', 'methodID', 'jNIMethodTable'), ('getStaticMethod', 'methodID', 'jNIMethodTable'), ('getField', 'fieldID', 'jNIFieldTable'), ('getStaticField', 'fieldID', 'jNIFieldTable')):
        g, h = find(P, get, 2, '/jnienv.cpp'), find(P, make, 2, '/jnienv.cpp')
        if g is None or h is None:
            raise AnalysisBroken('%s or %s was not found' % (get, make))
        mod = Nm(P, g, {}, lambda *z: None, files=('/jnienv.cpp',))
        for st, k, v in run(res, P, g, mod, [T, ('c', 7)]):
            res.count('identifiers evaluated', floor=6)
            if k != 'return' or table not in repr(v) or ('c', 6) not in (v[-1] if isinstance(v[-1], tuple) else ()):
                res.bad('nativecall|id|' + get, rel(g.file), g.l, g.n, 'must return what was added to the table when its size became the identifier')
        mod = Nm(P, h, {}, lambda *z: None, files=('/jnienv.cpp',))
        made = False
        for st, k, v in run(res, P, h, mod, [T, M]):
            res.count('identifiers evaluated', floor=6)
            put = [e for e in st.eff if e[0] == 'store' and e[1][:2] == ('get', 'nativeID')]
            app = [j for j, e in enumerate(st.eff) if e[0] == 'call' and e[1].endswith('vectorAppend')]
            root = [j for j, e in enumerate(st.eff) if e[0] == 'call' and e[1].lower().endswith('::set' + table.lower())]
            if k != 'return' or 'nativeID' not in repr(v):
                res.bad('nativecall|id|%s|result' % make, rel(h.file), h.l, h.n, 'must return the identifier')
            if not put and not app and not root:
                continue
            made = True
            if len(put) != 1 or len(app) != 1 or len(root) != 1 or not app[0] < root[0] < st.eff.index(put[0]) or put[0][1][2][:2] != M[:2] or put[0][2][:3] != ('get', 'size', put[0][2][2]) or table not in repr(put[0][2]) or \
                    table not in repr(st.eff[app[0]]) or M[:2] not in [x[:2] for x in st.eff[app[0]][2]]:
                res.bad('nativecall|id|%s|add' % make, rel(h.file), h.l, h.n, 'must append to the table and then store its size as the identifier')
        if not made:
            res.bad('nativecall|id|%s|none' % make, rel(h.file), h.l, h.n, 'must append to the table and then store its size as the identifier')


def wrapping(res, P):
    """an exception of a method called by reflection is wrapped"""
    for h in [h for h in P.funcs.values() if h.b and h.n.startswith('vm::invokeMethod') and '::~Resource' in h.n]:
        for exc in (0, 0x7f00dead):
            mod = Nm(P, h, {}, lambda *z: None)
            mod.truth['.exception'] = ('c', exc)
            mod.truth['call:makeThrowable'] = lambda e, st, f, c, a, v: ('v', 'made', mod.name(v[1]), v[-1])
            for st, k, v in run(res, P, h, mod, [('this',)]):
                got = [e[3] for e in events(st) if e[0] == 'set' and e[1] == 'exception']
                if got != ([('v', 'made', 'InvocationTargetException', ('c', exc))] if exc else []):
                    res.bad('nativecall|reflection|wrap', rel(h.file), h.l, 'vm::invokeMethod', 'must wrap an exception of the method, and only that, in an InvocationTargetException')


def check(res, tier):
    res.rule('For method descriptors that cover every kind of type, the code that passes arguments and results between Java frames, JNI argument lists, boxed values and native functions '
             'is evaluated on distinct contents of each slot and must place each value, at its width, where the receiver reads it.')
    P = prog.world('jit')
    setup(res, P)
    descriptors(res, P)
    registers(res, P)
    g = find(P, 'invokeNativeSlow', 3, '/compile.cpp')
    if g is None:
        raise AnalysisBroken('invokeNativeSlow was not found')
    native(res, P, g, False)
    direct(res, P, False)
    calls_in(res, P, False)
    conversions(res, P, False)
    reflection(res, P)
    wrapping(res, P)
    identifiers(res, P)
    Q = prog.world('interpret')
    g = find(Q, 'invokeNativeSlow', 3, '/interpret.cpp')
    if g is None:
        raise AnalysisBroken('invokeNativeSlow was not found')
    native(res, Q, g, True)
    direct(res, Q, True)
    interpreted(res, Q)
    calls_in(res, Q, True)
    conversions(res, Q, True)
    results(res, P, Q)
    environment(res, P)
