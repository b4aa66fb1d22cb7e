"""I02: what the JIT compiler's translation of each bytecode asks of the code generator, against the JVM specification"""
import absint
from absint import mkop, mkcast, norm, strip_casts, show, TooComplex, Stop
import prog
from prog import AnalysisBroken, rel
from rules import interp, jit
from rules.interp import A, U32, U64, I32, I64, PTR
from rules.jit import jv, slots, INT

TYP = dict(i='i4', l='i8', f='f4', d='f8', o='object')
IGNORE = ('store', 'resolve', 'test', 'note', 'log', 'intry', 'trace', 'saveLocals', 'divide', 'read', 'call', 'wpop', 'initLocalsFromLogicalIp')
POLLS = ('idleIfNecessaryThunk', 'gcIfNecessaryThunk')
B1 = A('b1', ('u', 8))
S8 = mkcast(I32, mkcast(('i', 8), B1, ('u', 8)), ('i', 8))
POOL8 = mkop('-', I32, mkcast(I32, B1, ('u', 8)), ('c', 1))


def be16(k, signed):
    b = lambda n: mkcast(I32, A('b%d' % n, ('u', 8)), ('u', 8))
    t = mkop('|', I32, mkop('<<', I32, b(k), ('c', 8)), b(k + 1))
    y = ('i' if signed else 'u', 16)
    return mkcast(I32, mkcast(y, t, I32), y)


POOL16 = mkop('-', I32, be16(1, False), ('c', 1))
ANY = ('any',)


def s(n):
    return ('s', n)


def at(x, w):
    return x if x[0] in ('op', 'cast', 'un', 'c', 'a') else ('a', x, w)


def canon(x):
    if not isinstance(x, tuple) or not x:
        return x
    h = x[0]
    if h == 'a' and len(x) == 2:
        return x
    if h == 'jv':
        return (x[1], value(x[1], x[2]))
    if h in ('op', 'cast', 'un', 'c', 'a'):
        y = strip_casts(x)
        if y[0] not in ('op', 'cast', 'un', 'c', 'a'):
            return canon(y)
        if y[0] == 'a' and y[2] == PTR:
            return canon(y[1]) if isinstance(y[1], tuple) else y
        return norm(deep(x), 32)
    return tuple(canon(y) for y in x)


def deep(x):
    """canonical atoms within an arithmetic term"""
    if x[0] == 'a' and len(x) == 2:
        return ('a', x, U32)
    if x[0] == 'a':
        return ('a', canon(x[1]), x[2]) if isinstance(x[1], tuple) else x
    if x[0] in ('op',):
        return x[:3] + (deep(x[3]) if isinstance(x[3], tuple) else x[3], deep(x[4]) if isinstance(x[4], tuple) else x[4])
    if x[0] == 'cast':
        k = x[2]
        return x[:2] + (deep(k) if k[0] in ('op', 'cast', 'un', 'c', 'a', 'fc') else ('a', canon(k), x[3]),) + x[3:]
    if x[0] == 'un':
        return x[:3] + tuple(deep(y) for y in x[3:])
    if x[0] in ('c', 'fc'):
        return x
    return ('a', canon(x), U32)


def value(t, term):
    if t in INT:
        w = INT[t]
        n = norm(deep(at(term, w)), w[1])
        return n[2] if n[0] == 'low' and n[1] == w[1] else n
    return canon(term)


class Want:
    def __init__(self, stack=(), ev=(), end='next', ip=None, fault=False, tail=None, ws=None):
        self.stack, self.ev, self.end, self.ip, self.fault, self.tail, self.ws = list(stack), list(ev), end, ip, fault, tail, ws


class Case:
    def __init__(self, op, stack, want, label='', **scen):
        self.op, self.label, self.want, self.scen = op, label, want, scen
        self.stack = [TYP.get(c, c) for c in stack]


def obj(x):
    return ('obj', x)


def ref(pool):
    return obj(('pair', A('method', PTR), ('poolobj', pool)))


RES = A('resolved', PTR)
THREAD = ('thread',)
PAD = ('pad',)


def called(thunk, rt, *args, **k):
    return ('called', 'nativeCall', ('thunk', thunk), ('c', k.get('flags', 0)), ANY if k.get('free') else ('trace', ('c', 0), ('c', 0)), rt, tuple(args))


def result(c):
    return ('result',) + c[1:]


def mem(t, base, disp, index=None):
    return ('mem', t, base, disp, index)


def ld(t, dt, ext, base, disp, index=None):
    return ('ld', ext, t, dt, base, disp, index)


LOADS = {'iaload': ('i4', 'i4', '='), 'laload': ('i8', 'i8', '='), 'faload': ('f4', 'f4', '='), 'daload': ('f8', 'f8', '='), 'aaload': ('object', 'object', '='),
         'baload': ('i1', 'i4', 'Signed'), 'caload': ('i2', 'i4', 'Unsigned'), 'saload': ('i2', 'i4', 'Signed')}
STORES = {'iastore': ('i4', 'i4'), 'lastore': ('i8', 'i8'), 'fastore': ('f4', 'f4'), 'dastore': ('f8', 'f8'), 'bastore': ('i1', 'i4'), 'castore': ('i2', 'i4'),
          'sastore': ('i2', 'i4')}
FIELDS = {'BooleanField': ('i1', 'i4', 'Signed'), 'ByteField': ('i1', 'i4', 'Signed'), 'CharField': ('i2', 'i4', 'Unsigned'), 'ShortField': ('i2', 'i4', 'Signed'),
          'IntField': ('i4', 'i4', '='), 'LongField': ('i8', 'i8', '='), 'FloatField': ('f4', 'f4', '='), 'DoubleField': ('f8', 'f8', '='),
          'ObjectField': ('object', 'object', '=')}
IFS = {'eq': 'JumpIfEqual', 'ne': 'JumpIfNotEqual', 'lt': 'JumpIfLess', 'ge': 'JumpIfGreaterOrEqual', 'gt': 'JumpIfGreater', 'le': 'JumpIfLessOrEqual'}
SHIFTS = {'shl': 'ShiftLeft', 'shr': 'ShiftRight', 'ushr': 'UnsignedShiftRight'}
ARITH = {'add': '+', 'sub': '-', 'mul': '*', 'and': '&', 'or': '|', 'xor': '^'}


def binop(t, op, a, b):
    w = INT[t]
    return mkop(op, w, at(a, w), at(b, w))


def local(i, n, param):
    """where the value of JVM local i lives: parameters are found where the caller pushed them"""
    return ('local', ('c', jit.PARAMS - i - n if param else i))


def bounds(arr, ix):
    return ('checkBounds', jv('object', arr), ('c', 8), jv('i4', ix), ('thunk', 'aioobThunk'))


def cases(P):
    K = Case
    yield K('nop', '', Want())
    yield K('aconst_null', '', Want([jv('object', ('c', 0))]))
    for n in range(-1, 6):
        yield K('iconst_%s' % ('m1' if n < 0 else n), '', Want([jv('i4', ('c', n))]))
    for n in (0, 1):
        yield K('lconst_%d' % n, '', Want([jv('i8', ('c', n))]))
        yield K('dconst_%d' % n, '', Want([jv('f8', ('fbits', float(n)))]))
    for n in (0, 1, 2):
        yield K('fconst_%d' % n, '', Want([jv('f4', ('fbits', float(n)))]))
    yield K('bipush', '', Want([jv('i4', S8)], ip=2))
    yield K('sipush', '', Want([jv('i4', be16(1, True))], ip=3))
    for op, pool, ln in (('ldc', POOL8, 2), ('ldc_w', POOL16, 3)):
        yield K(op, '', Want([jv('i4', ('poolvalue', pool))], ip=ln), 'int')
        yield K(op, '', Want([jv('f4', ('poolvalue', pool))], ip=ln), 'float', bit=True)
        c = called('getJClassFromReferenceThunk', 'object', THREAD, ref(pool))
        yield K(op, '', Want([jv('object', result(c))], [c], ip=ln), 'unresolved class', isobject=True, pool='GcReference', resolved=False)
        for k in ('GcReference', 'GcClass'):
            c = called('getJClass64Thunk', 'object', THREAD, obj(RES if k == 'GcReference' else ('poolobj', pool)))
            yield K(op, '', Want([jv('object', result(c))], [c], ip=ln), 'class', isobject=True, pool=k, rkind='GcClass')
        yield K(op, '', Want([jv('object', obj(('poolobj', pool)))], ip=ln), 'string', isobject=True, pool='GcString')
    yield K('ldc2_w', '', Want([jv('i8', ('pool8', POOL16))], ip=3), 'long')
    yield K('ldc2_w', '', Want([jv('f8', ('pool8', POOL16))], ip=3), 'double', bit=True)
    for c, t in TYP.items():
        n = slots(t)
        p = 'a' if c == 'o' else c
        for i, param in ((0, True), (jit.PARAMS - n, True), (jit.PARAMS, False), (255, False)):
            yield K(p + 'load', '', Want([jv(t, local(i, n, param))], ip=2), 'local %d' % i, bytes={1: i})
            yield K(p + 'store', c, Want([], [('storeLocal', jv(t, s(0)), local(i, n, param)[1])], ip=2), 'local %d' % i, bytes={1: i})
        for i in (0, jit.PARAMS, 32767, 32768, 65535):
            param = i < jit.PARAMS
            b = {1: ('op', p + 'load'), 2: i >> 8, 3: i & 255}
            yield K('wide', '', Want([jv(t, local(i, n, param))], ip=4), p + 'load of local %d' % i, bytes=b)
            yield K('wide', c, Want([], [('storeLocal', jv(t, s(0)), local(i, n, param)[1])], ip=4), p + 'store to local %d' % i,
                    bytes={**b, 1: ('op', p + 'store')})
        for i in range(4):
            yield K('%sload_%d' % (p, i), '', Want([jv(t, local(i, n, True))]))
            yield K('%sstore_%d' % (p, i), c, Want([], [('storeLocal', jv(t, s(0)), local(i, n, True)[1])]))
            if c != 'o' or True:
                yield K('%sload_%d' % (p, i), '', Want([jv(t, local(i, n, False))]), 'no parameters', params=0)
    S82 = mkcast(I32, mkcast(('i', 8), A('b2', ('u', 8)), ('u', 8)), ('i', 8))
    for i, param in ((0, True), (jit.PARAMS - 1, True), (jit.PARAMS, False), (255, False)):
        yield K('iinc', '', Want([], [('storeLocal', jv('i4', mkop('+', U32, at(local(i, 1, param), U32), S82)), local(i, 1, param)[1])], ip=3),
                'local %d' % i, bytes={1: i})
    for i in (0, jit.PARAMS, 32767, 32768, 65535):
        param = i < jit.PARAMS
        yield K('wide', '', Want([], [('storeLocal', jv('i4', mkop('+', U32, at(local(i, 1, param), U32), be16(4, True))), local(i, 1, param)[1])],
                                 ip=6), 'iinc of local %d' % i, bytes={1: ('op', 'iinc'), 2: i >> 8, 3: i & 255})
    # stack manipulation
    for c in 'if':
        t = TYP[c]
        a, b, d = jv(t, s(0)), jv(t, s(1)), jv(t, s(2))
        yield K('pop_', c, Want([]), c)
        yield K('dup', c, Want([a, a]), c)
        yield K('swap', c + c, Want([a, b]), c)
        yield K('dup_x1', c + c, Want([a, b, a]), c)
        yield K('dup_x2', c * 3, Want([a, d, b, a]), c)
        yield K('pop2', c + c, Want([]), c)
        yield K('dup2', c + c, Want([b, a, b, a]), c)
        yield K('dup2_x1', c * 3, Want([b, a, d, b, a]), c)
        e = jv(t, s(3))
        yield K('dup2_x2', c * 4, Want([b, a, e, d, b, a]), c)
    o0, o1 = jv('object', s(0)), jv('object', s(1))
    yield K('dup', 'o', Want([o0, o0]), 'object')
    yield K('swap', 'io', Want([o0, jv('i4', s(1))]), 'mixed')
    yield K('dup_x1', 'io', Want([o0, jv('i4', s(1)), o0]), 'mixed')
    yield K('dup_x2', 'oio', Want([o0, jv('object', s(2)), jv('i4', s(1)), o0]), 'mixed')
    yield K('dup2', 'oi', Want([o1, jv('i4', s(0)), o1, jv('i4', s(0))]), 'mixed')
    for c in 'ld':
        t = TYP[c]
        a = jv(t, s(0))
        i1, i2 = jv('i4', s(1)), jv('i4', s(2))
        yield K('pop2', c, Want([]), c)
        yield K('dup2', c, Want([a, a]), c)
        yield K('dup_x2', c + 'i', Want([jv('i4', s(0)), jv(t, s(1)), jv('i4', s(0))]), c)
        yield K('dup2_x1', 'i' + c, Want([a, i1, a]), c)
        yield K('dup2_x1', 'o' + c, Want([a, o1, a]), 'object ' + c)
        yield K('dup2_x2', 'ii' + c, Want([a, i2, i1, a]), 'two slots ' + c)
        yield K('dup2_x2', c + 'ii', Want([i1, jv('i4', s(0)), jv(t, s(2)), i1, jv('i4', s(0))]), 'wide below ' + c)
        yield K('dup2_x2', c + c, Want([a, jv(t, s(1)), a]), 'wide wide ' + c)
    # each form of the instruction, by the number of slots of its operands (top last), with every mix of references and numbers
    import itertools
    for op, form, res in (('dup', '1', (0, 0)), ('swap', '11', (0, 1)), ('dup_x1', '11', (0, 1, 0)), ('dup_x2', '111', (0, 2, 1, 0)), ('dup_x2', '21', (0, 1, 0)),
                          ('dup2', '11', (1, 0, 1, 0)), ('dup2_x1', '111', (1, 0, 2, 1, 0)), ('dup2_x1', '12', (0, 1, 0)),
                          ('dup2_x2', '1111', (1, 0, 3, 2, 1, 0)), ('dup2_x2', '112', (0, 2, 1, 0)), ('dup2_x2', '211', (1, 0, 2, 1, 0))):
        for st in itertools.product(*['io' if k == '1' else 'ld' for k in form]):
            if 'o' in st:
                n = len(st)
                yield K(op, ''.join(st), Want([jv(TYP[st[n - 1 - k]], s(k)) for k in res]), 'operands ' + ''.join(st))
    # arrays
    for op, (t, dt, e) in LOADS.items():
        yield K(op, 'oi', Want([jv(dt, ld(t, dt, e, s(1), ('c', 16), s(0)))], [bounds(s(1), s(0)), ('load', mem(t, s(1), ('c', 16), s(0)))], fault=True))
    for op, (t, vt) in STORES.items():
        c = [k for k, v in TYP.items() if v == vt][0]
        yield K(op, 'oi' + c, Want([], [bounds(s(2), s(1)), ('put', mem(t, s(2), ('c', 16), s(1)), jv(vt, s(0)))], fault=True))
    yield K('aastore', 'oio', Want([], [bounds(s(2), s(1)), called('setMaybeNullThunk', 'void_', THREAD, s(2),
                                                                  mkop('+', U32, ('a', ('bin', 'ShiftLeft', 'i4', s(1), ('c', 3)), U32), ('c', 16)), s(0))], fault=True))
    yield K('arraylength', 'o', Want([jv('i4', ld('iptr', 'i4', '=', s(0), ('c', 8)))], [('load', mem('iptr', s(0), ('c', 8)))], fault=True))
    # arithmetic
    for c in 'il':
        t = TYP[c]
        for n, op in ARITH.items():
            yield K(c + n, c + c, Want([jv(t, binop(t, op, s(1), s(0)))]))
        for n, op in SHIFTS.items():
            yield K(c + n, c + 'i', Want([jv(t, ('bin', op, t, s(1), s(0)))]))
        for n, op in (('div', 'Divide'), ('rem', 'Remainder')):
            yield K(c + n + ('_' if c + n == 'ldiv' else ''), c + c, Want([jv(t, ('bin', op, t, s(1), s(0)))], fault=True))
        yield K(c + 'neg', c, Want([jv(t, binop(t, '-', ('c', 0), s(0)))]))
    for c in 'fd':
        t = TYP[c]
        for n in ('add', 'sub', 'mul', 'div', 'rem'):
            op = 'Float' + {'add': 'Add', 'sub': 'Subtract', 'mul': 'Multiply', 'div': 'Divide', 'rem': 'Remainder'}[n]
            yield K(c + n, c + c, Want([jv(t, ('bin', op, t, s(1), s(0)))]))
        yield K(c + 'neg', c, Want([jv(t, ('unop', 'FloatNegate', t, s(0)))]))
    for a in 'ilfd':
        for b in 'ilfd':
            if a == b:
                continue
            x, y = TYP[a], TYP[b]
            r = {'il': ('extend', 'Signed', y, x, s(0)), 'li': ('truncate', y, x, s(0))}.get(a + b)
            if r is None:
                k = ('f' if a in 'fd' else 'i') + '2' + ('f' if b in 'fd' else 'i')
                r = (k, y, x, s(0))
            yield K(a + '2' + b, a, Want([jv(y, r)]))
    for op, e, t in (('i2b', 'Signed', 'i1'), ('i2c', 'Unsigned', 'i2'), ('i2s', 'Signed', 'i2')):
        yield K(op, 'i', Want([jv('i4', ('extend', e, 'i4', t, s(0)))]))
    # comparisons, alone and joined with the branch that follows
    cm = {'lcmp': ('l', 'compareLongsThunk', ''), 'fcmpg': ('f', 'compareFloatsGThunk', 'Float'), 'fcmpl': ('f', 'compareFloatsLThunk', 'Float'),
          'dcmpg': ('d', 'compareDoublesGThunk', 'Float'), 'dcmpl': ('d', 'compareDoublesLThunk', 'Float')}
    nan = {('g', 'gt'): 'GreaterOrUnordered', ('g', 'ge'): 'GreaterOrEqualOrUnordered', ('l', 'lt'): 'LessOrUnordered', ('l', 'le'): 'LessOrEqualOrUnordered'}
    for op, (c, th, pre) in cm.items():
        t = TYP[c]
        args = (PAD, s(0), PAD, s(1)) if slots(t) == 2 else (s(0), s(1))
        k = called(th, 'i4', *args, free=True)
        yield K(op, c + c, Want([jv('i4', result(k))], [k]), 'alone', bytes={1: ('op', 'istore_1')})
        yield K(op, c + c, Want([jv('i4', result(k))], [k]), 'last', bytes={1: ('op', 'iadd')})
        for cc, j in IFS.items():
            if pre:
                suf = nan.get((op[-1], cc)) or {'eq': 'Equal', 'ne': 'NotEqual', 'lt': 'Less', 'ge': 'GreaterOrEqual', 'gt': 'Greater', 'le': 'LessOrEqual'}[cc]
                j = 'JumpIfFloat' + suf
            for off in (-7, 20):
                yield K(op, c + c, Want([], [('condJump', j, jv(t, s(0)), jv(t, s(1)), jv('iptr', ('ip', ('c', 1001 + off))))], 'start', ip=1001 + off, ws=1004), 'if' + cc + ' %+d' % off,
                        bytes={1: ('op', 'if' + cc), 2: (off >> 8) & 255, 3: off & 255}, ip=1000, back=off < 0)
    for off in (-5, 0, 300):
        hi, lo = (off >> 8) & 255, off & 255
        for cc, j in IFS.items():
            for k, st, a in (('if' + cc, 'i', ('c', 0)), ('if_icmp' + cc, 'ii', s(0))):
                yield K(k, st, Want([], [('condJump', j, jv('i4', a), jv('i4', s(len(st) - 1)), jv('iptr', ('ip', ('c', 1000 + off))))], 'start', ip=1000 + off, ws=1003), '%+d' % off,
                        bytes={1: hi, 2: lo}, ip=1000, back=off <= 0)
        for k, st, j, a in (('if_acmpeq', 'oo', 'eq', s(0)), ('if_acmpne', 'oo', 'ne', s(0)), ('ifnull', 'o', 'eq', ('c', 0)), ('ifnonnull', 'o', 'ne', ('c', 0))):
            yield K(k, st, Want([], [('condJump', IFS[j], jv('object', a), jv('object', s(len(st) - 1)), jv('iptr', ('ip', ('c', 1000 + off))))], 'start', ip=1000 + off, ws=1003),
                    '%+d' % off, bytes={1: hi, 2: lo}, ip=1000, back=off <= 0)
        yield K('goto_', '', Want([], [('jmp', jv('iptr', ('ip', ('c', 1000 + off))))], ip=1000 + off), '%+d' % off, bytes={1: hi, 2: lo}, ip=1000, back=off <= 0)
        yield K('goto_w', '', Want([], [('jmp', jv('iptr', ('ip', ('c', 1000 + off))))], ip=1000 + off), '%+d' % off,
                bytes={1: hi and 255, 2: hi and 255, 3: hi, 4: lo} if off < 0 else {1: 0, 2: 0, 3: hi, 4: lo}, ip=1000, back=off <= 0)
    # fields
    codes = {n.split('::')[-1]: v for n, v in P.enum('vm::FieldCode').items()}
    for n, (t, dt, e) in FIELDS.items():
        c = [k for k, v in TYP.items() if v == dt][0]
        kw = dict(code=codes[n])
        off = ('offset', RES)
        cls = ('method:class_', RES)
        for static in (False, True):
            st = ['', 'o'][not static]
            fl = 8 if static else 0
            tab = obj(('staticTable', ('class_', RES)))
            base = tab if static else s(0)
            nm = 'getstatic' if static else 'getfield'
            fv = [] if static else [s(0)]
            u = called('getStaticFieldValueFromReferenceThunk' if static else 'getFieldValueFromReferenceThunk', ANY, THREAD, ref(POOL16), *fv)
            for init in ((False, True) if static else (False,)):
                pre = [called('tryInitClassThunk', 'void_', THREAD, obj(('class_', RES)))] if init else []
                yield K(nm, st, Want([jv(dt, ld(t, dt, e, base, off))], pre + [('load', mem(t, base, off))], ip=3, fault=not static), n, flags=fl, needsinit=init, **kw)
            yield K(nm, st, Want([jv(dt, result(u))], [u], ip=3), n + ' unresolved', flags=fl, resolved=False, **kw)
            nm = 'putstatic' if static else 'putfield'
            base = tab if static else s(1)
            fv = [] if static else [s(1)]
            val = [PAD, s(0)] if slots(dt) == 2 else [s(0)]
            k = 'Long' if slots(dt) == 2 else 'Object' if dt == 'object' else ''
            u = called(('setStatic' if static else 'set') + k + 'FieldValueFromReferenceThunk', ANY, THREAD, ref(POOL16), *(fv + val))
            for init in ((False, True) if static else (False,)):
                pre = [called('tryInitClassThunk', 'void_', THREAD, obj(('class_', RES)))] if init else []
                if dt == 'object':
                    w = called('setObjectThunk' if static else 'setMaybeNullThunk', 'void_', THREAD, base, off, s(0), free=static)
                else:
                    w = ('put', mem(t, base, off), jv(dt, s(0)))
                yield K(nm, st + c, Want([], pre + [w], ip=3, fault=not static), n, flags=fl, needsinit=init, **kw)
            yield K(nm, st + c, Want([], [u], ip=3), n + ' unresolved', flags=fl, resolved=False, **kw)
    # objects
    k = called('makeNew64Thunk', 'object', THREAD, obj(RES))
    yield K('new_', '', Want([jv('object', result(k))], [k], ip=3))
    k = called('makeNewGeneral64Thunk', 'object', THREAD, obj(RES))
    yield K('new_', '', Want([jv('object', result(k))], [k], ip=3), 'with finalizer or weak', vmflags='HasFinalizerFlag')
    yield K('new_', '', Want([jv('object', result(k))], [k], ip=3), 'weak reference', vmflags='WeakReferenceFlag')
    k = called('makeNewFromReferenceThunk', 'object', THREAD, ref(POOL16))
    yield K('new_', '', Want([jv('object', result(k))], [k], ip=3), 'unresolved', resolved=False)
    k = called('makeBlankArrayThunk', 'object', THREAD, B1, s(0))
    yield K('newarray', 'i', Want([jv('object', result(k))], [k], ip=2))
    for r in (True, False):
        lab = '' if r else 'unresolved'
        arg = obj(RES) if r else ref(POOL16)
        fr = '' if r else 'FromReference'
        k = called('makeBlankObjectArray%sThunk' % fr, 'object', THREAD, arg, s(0))
        yield K('anewarray', 'i', Want([jv('object', result(k))], [k], ip=3), lab, resolved=r)
        for dims in (1, 2, 3):
            k = called('makeMultidimensionalArray%sThunk' % fr, 'object', THREAD, arg, ('c', dims), ANY)
            yield K('multianewarray', 'i' * dims, Want([jv('object', result(k))], [k], ip=4), '%d dimensions %s' % (dims, lab), resolved=r, bytes={3: dims})
        k = called('instanceOf%sThunk' % (fr or '64'), 'i4', THREAD, arg, s(0))
        yield K('instanceof', 'o', Want([jv('i4', result(k))], [k], ip=3), lab, resolved=r)
        k = called('checkCast%sThunk' % fr, 'void_', THREAD, arg, s(0))
        yield K('checkcast', 'o', Want([o0], [k], ip=3), lab, resolved=r)
    yield K('monitorenter', 'o', Want([], [called('acquireMonitorForObjectThunk', 'void_', THREAD, s(0))]))
    yield K('monitorexit', 'o', Want([], [called('releaseMonitorForObjectThunk', 'void_', THREAD, s(0))]))
    k = called('throw_Thunk', 'void_', THREAD, s(0), flags=2)
    yield K('athrow', 'o', Want([], [k, ('nullaryOp', 'Trap')], 'end'))
    # invocations: the receiver and arguments as the caller pushed them, the target the instruction names, the result type of the method
    types = {n.split('::')[-1]: v for n, v in P.enum('vm::FieldCode').items()}
    rts = {'VoidField': 'void_', 'BooleanField': 'i4', 'ByteField': 'i4', 'CharField': 'i4', 'ShortField': 'i4', 'IntField': 'i4', 'LongField': 'i8',
           'FloatField': 'f4', 'DoubleField': 'f8', 'ObjectField': 'object'}
    T00 = ('trace', ('c', 0), ('c', 0))

    def invoke(target, rt, n, args, trace=T00):
        c = ('called', 'stackCall', target, ANY, trace, rt, args)
        return c, [jv(rt if rt != 'i4' else 'i4', result(c))] if rt != 'void_' else []

    for rc, rt in rts.items():
        kw = dict(rcode=types[rc], flags=0)
        for st, args in (('oi', (s(1), s(0))), ('ol', (s(1), s(0), s(0)))):
            n = len(args)
            kw['footprint'] = n
            for op in ('invokestatic', 'invokespecial', 'invokevirtual'):
                st_ = dict(kw, flags=8 if op == 'invokestatic' else 0, virtual=op == 'invokevirtual')
                if op == 'invokevirtual':
                    vt = ('mem', 'object', ('bin', 'And', 'iptr', ('mem', 'object', s(1), ('c', 0), None), ANY), ANY, None)
                    c, out = invoke(vt, rt, n, args)
                    yield K(op, st, Want(out, [c], ip=3, fault=True), rc, **st_)
                    st_.update(virtual=0, flags=2, private=True)
                    lab = rc + ', private'
                else:
                    lab = rc
                c, out = invoke(('maddr', RES), rt, n, args, ANY)
                yield K(op, st, Want(out, [c], ip=3), lab, **st_)
                c, out = invoke(('thunk', 'defaultThunk'), rt, n, args, ('trace', RES, ANY))
                yield K(op, st, Want(out, [c], ip=3), lab + ', not yet compiled', unlinked=True, **st_)
                yield K(op, st, Want(out, [c], ip=3), lab + ', class not initialised', needsinit=True, **st_)
                if rt == 'void_':
                    yield K(op, st, Want(out, [c], ip=3), lab + ', empty, class not initialised', needsinit=True, empty=True, **st_)
                nat = dict(st_, flags=st_['flags'] | 0x100)
                c, out = invoke(('maddr', RES), rt, n, args, ('trace', RES, ANY))
                yield K(op, st, Want(out, [c], ip=3), lab + ', native', **nat)
                if op == 'invokespecial':
                    c, out = invoke(('maddr', RES), rt, n, args, ANY)
                    yield K(op, st, Want(out, [c], ip=3, fault=True), lab + ', private', **dict(st_, flags=2, private=True))
                    yield K(op, st, Want(out, [c], ip=3), lab + ', constructor', **dict(st_, flags=2, named=('C', '<init>', '()V')))
                    sup = ('found', RES, ('super', ('class_', A('method', PTR))))
                    c, out = invoke(('maddr', sup), rt, n, args, ANY)
                    yield K(op, st, Want(out, [c], ip=3), lab + ', of a superclass', special=True, **st_)
                    g = called('getMethodAddressThunk', 'iptr', THREAD, obj(RES))
                    c, out = invoke(result(g), rt, n, args)
                    yield K(op, st, Want(out, [g, c], ip=3), lab + ', abstract', abstract=True, **st_)
                g = called({'invokestatic': 'findStaticMethodFromReferenceThunk', 'invokespecial': 'findSpecialMethodFromReferenceThunk',
                            'invokevirtual': 'findVirtualMethodFromReferenceThunk'}[op], 'iptr', THREAD, ref(POOL16), *([s(1)] if op == 'invokevirtual' else []))
                c, out = invoke(result(g), rt, n, args)
                yield K(op, st, Want(out, [g, c], ip=3), lab + ', unresolved', resolved=False, **st_)
            g = called('findInterfaceMethodFromInstanceThunk', 'iptr', THREAD, obj(RES), s(1))
            c, out = invoke(result(g), rt, n, args)
            yield K('invokeinterface', st, Want(out, [g, c], ip=5), rc, **kw)
            g = called('findInterfaceMethodFromInstanceAndReferenceThunk', 'iptr', THREAD, ref(POOL16), s(1))
            c, out = invoke(result(g), rt, n, args)
            yield K('invokeinterface', st, Want(out, [g, c], ip=5), rc + ', unresolved', resolved=False, **kw)
    # methods that may be compiled inline instead of being called
    for (cls, name, spec), (st, want) in intrinsics().items():
        static = cls.endswith('Math')
        rt = rts[{'B': 'ByteField', 'S': 'ShortField', 'C': 'CharField', 'I': 'IntField', 'J': 'LongField', 'F': 'FloatField', 'D': 'DoubleField', 'V': 'VoidField'}[spec[-1]]]
        op = 'invokestatic' if static else 'invokevirtual'
        kw = dict(rcode=[types[k] for k, v in rts.items() if v == rt][0], flags=0x108 if static else 0x101, virtual=not static, named=(cls, name, spec))
        args = []
        for k, c in enumerate(st):
            args += [s(len(st) - 1 - k)] * jit.slots(TYP[c])
        kw['footprint'] = len(args)
        c, out = invoke(ANY, rt, len(args), tuple(args), ANY)
        yield K(op, st, Want(want.stack, want.ev, ip=3), '%s.%s' % (cls.replace('/', '.'), name), alt=Want(out, [c], ip=3), **kw)
    for cls, name, spec in (('java/lang/Math', 'absolute', '(I)I'), ('java/lang/StrictMat', 'abs', '(I)I'), ('sun/misc/Unsafe', 'getInt', '(I)I'),
                            ('java/lang/Math', 'sqrt', '(I)I'), ('My', 'getByte', '(I)I'), ('sun/misc/Unsaf', 'getLong', '(I)I')):
        c, out = invoke(('maddr', RES), 'i4', 1, (s(0),), ANY)
        yield K('invokestatic', 'i', Want(out, [c], ip=3), 'a method like ' + name, rcode=types['IntField'], flags=8, footprint=1, named=(cls, name, spec))
    # leaving the method
    rel_ = called('releaseMonitorForObjectThunk', 'void_', THREAD, ANY)
    for c, t in TYP.items():
        op = ('a' if c == 'o' else c) + 'return'
        yield K(op, c, Want([], [('return_', jv(t, s(0)))], 'end'))
    yield K('return_', '', Want([], [('return_',)], 'end'))


def intrinsics():
    r = {}
    M, Un = 'java/lang/Math', 'sun/misc/Unsafe'
    r[M, 'sqrt', '(D)D'] = 'd', Want([jv('f8', ('unop', 'FloatSquareRoot', 'f8', s(0)))])
    r[M, 'abs', '(I)I'] = 'i', Want([jv('i4', ('unop', 'Absolute', 'i4', s(0)))])
    r[M, 'abs', '(J)J'] = 'l', Want([jv('i8', ('unop', 'Absolute', 'i8', s(0)))])
    r[M, 'abs', '(F)F'] = 'f', Want([jv('f4', ('unop', 'FloatAbsolute', 'f4', s(0)))])
    r[M, 'abs', '(D)D'] = 'd', Want([jv('f8', ('unop', 'FloatAbsolute', 'f8', s(0)))])
    for n, sp, c, mt, ext in (('Byte', 'B', 'i', 'i1', 'Signed'), ('Short', 'S', 'i', 'i2', 'Signed'), ('Char', 'C', 'i', 'i2', 'Unsigned'), ('Int', 'I', 'i', 'i4', '='),
                              ('Long', 'J', 'l', 'i8', '='), ('Float', 'F', 'f', 'f4', '='), ('Double', 'D', 'd', 'f8', '='), ('Address', 'J', 'l', 'iptr', '=')):
        t = TYP[c]
        r[Un, 'get' + n, '(J)' + sp] = 'ol', Want([jv(t, ld(mt, t, ext, s(0), ('c', 0)))], [('load', mem(mt, s(0), ('c', 0)))])
        r[Un, 'put' + n, '(J%s)V' % sp] = 'ol' + c, Want([], [('put', mem(mt, s(1), ('c', 0)), jv(t, s(0)))])
    return r


def constant(name):
    """value of a header constant"""
    import re, os
    for base, _, fs in os.walk(os.path.join(prog.REPO, 'src/avian')):
        for fn in fs:
            m = re.search(r'const\s+unsigned\s+%s\s*=\s*([0-9xXa-fA-F<\s]+);' % name, open(os.path.join(base, fn), errors='replace').read())
            if m:
                return eval(m.group(1))
    raise AnalysisBroken('constant %s not found' % name)


def scenario(P, ops, c):
    sc = dict(c.scen)
    sc['op'] = c.op
    sc['stack'] = ['i4'] + c.stack
    sc['bytes'] = {k: ops[v[1]] if isinstance(v, tuple) else v for k, v in sc.get('bytes', {}).items()}
    if isinstance(sc.get('vmflags'), str):
        sc['vmflags'] = constant(sc['vmflags'])
    return sc


def essential(e):
    if e[0] in IGNORE:
        return False
    if e[0] == 'nullaryOp' and e[1] != 'Trap':
        return False
    if e[0] == 'called' and e[2][0] == 'thunk' and e[2][1] in POLLS:
        return False
    return True


def match(a, b):
    """b may hold wildcards"""
    if b == ANY:
        return True
    if isinstance(b, tuple) and isinstance(a, tuple):
        return len(a) == len(b) and all(match(x, y) for x, y in zip(a, b))
    return a == b


def text(x):
    if not isinstance(x, tuple):
        return str(x)
    if x and x[0] in ('lin', 'zext', 'sext', 'and', 'or', 'bits', 'prod', 'c', 'a'):
        try:
            return str(show(x))
        except Exception:
            pass
    if len(x) == 2 and x[0] == 's':
        return 'operand %d' % x[1]
    return '(' + ' '.join(text(y) for y in x) + ')'


def run(bad, P, names, f, d, block, ops, c, intry):
    alt = c.scen.get('alt')
    if alt:
        got = []
        n = run1(lambda *a: got.append(a), P, names, f, d, block, ops, c, intry, c.want)
        if got:
            other = []
            run1(lambda *a: other.append(a), P, names, f, d, block, ops, c, intry, alt)
            if other:
                bad(*got[0])
        return n
    return run1(bad, P, names, f, d, block, ops, c, intry, c.want)


def run1(bad, P, names, f, d, block, ops, c, intry, w):
    sc = scenario(P, ops, c)
    sc['try'] = intry
    name = c.op.rstrip('_') + (' (%s)' % c.label if c.label else '') + (' in a try block' if intry else '')
    outs = jit.evaluate(P, names, f, d, block, sc)
    if not outs:
        bad(name, 'is not translated')
        return 0
    for o in outs:
        for t in o.faults:
            bad(name, t)
        if o.kind != w.end:
            bad(name, {'abort': 'is not translated: the compiler aborts', 'loop': 'does not come to an end'}.get(
                o.kind, 'translation goes on with "%s" where "%s" is expected' % (o.kind, w.end)))
            continue
        got = [canon(v) for v in o.stack]
        want = [('i4', value('i4', s(len(c.stack))))] + [canon(v) for v in w.stack]
        if w.end != 'end' and not match(tuple(got), tuple(want)):
            bad(name, 'leaves %s on the operand stack; %s is specified' % (' '.join(text(x) for x in got) or 'nothing', ' '.join(text(x) for x in want)))
            continue
        ev = [canon(e) for e in o.eff if essential(e)]
        wev = [canon(e) for e in w.ev]
        if not match(tuple(ev), tuple(wev)):
            k = 0
            while k < min(len(ev), len(wev)) and match(ev[k], wev[k]):
                k += 1
            bad(name, 'asks for %s where %s is specified' % (text(ev[k]) if k < len(ev) else 'nothing more', text(wev[k]) if k < len(wev) else 'nothing more'))
            continue
        if w.end != 'end':
            ip = norm(o.vars['ip'], 32)
            wip = ('c', w.ip) if sc.get('ip') is not None else norm(mkop('+', U32, A('ip0', U32), ('c', w.ip or 1)), 32)
            if ip != wip:
                bad(name, 'translation continues at %s instead of %s' % (text(ip), text(wip)))
            n = sum(o.slots)
            sp = o.sp[1] if o.sp and o.sp[0] == 'c' else None
            base = jit.LOCALS + jit.FILL
            if sp != base + n:
                bad(name, 'leaves the recorded stack depth %s off' % ('unknown' if sp is None else sp - base - n))
            else:
                p = base
                for v, k in zip(o.stack, o.slots):
                    for q in range(k):
                        if o.map.get(p + q) != v[1] and jit.FLAVOR.get(o.map.get(p + q)) != jit.FLAVOR.get(v[1]):
                            bad(name, 'records a stack slot as %s while it holds %s' % (o.map.get(p + q), v[1]))
                    p += k
        if w.ws is not None:
            ws = o.st.x['ws']
            if len(ws) != 3 or strip_casts(ws[0])[0] != 'state' or norm(ws[1], 32) != ('c', w.ws) or ws[2] != ('c', unbranch(P)):
                bad(name, 'does not come back for the instruction that follows when the branch is not taken')
            elif [canon(v) for v, n in strip_casts(ws[0])[2]] != got:
                bad(name, 'saves a different operand stack for the instruction that follows')
        if sc.get('back') and not any(e[0] == 'called' and e[2][1] in POLLS and e[4] != ('c', 0) for e in o.eff):
            bad(name, 'jumps backwards without a safe point')
        for e in o.eff:
            if e[0] == 'resolve' and norm(e[2], 32) not in (norm(POOL8, 32), norm(POOL16, 32)):
                bad(name, 'resolves %s of the constant pool instead of the entry the instruction names' % text(norm(e[2], 32)))
        if any(e[0] == 'called' and e[1] == 'stackCall' for e in o.eff) and \
                not any(e[0] == 'store' and e[1][1] == 'mem' and e[1][3] == 'leaf' and e[2] == ('c', 0) for e in o.eff):
            bad(name, 'calls another method but leaves the method recorded as one that calls nothing and needs no stack check')
        if sc.get('private') and sc.get('resolved', True):
            k = [e[0] for e in o.eff].index('called')
            if not any(e[0] == 'read' and strip_casts(e[1][2]) == s(1) for e in o.eff[:k]):
                bad(name, 'calls a method directly without reading through the receiver, which may be null')
        if intry:
            tries(bad, name, o, w)
    return len(outs)


def unbranch(P):
    for e in P.enums.values():
        for k, v in e.items():
            if k.split('::')[-1] == 'Unbranch':
                return v
    raise AnalysisBroken('the work list tags of compile() were not found')


def tries(bad, name, o, w):
    for e in o.eff:
        if e[0] == 'intry' and norm(e[1], 32) not in (('a', 'ip0'), norm(A('ip0', U32), 32), ('c', 1000)):
            bad(name, 'asks whether %s is in a try block, not the instruction itself' % text(norm(e[1], 32)))
    if not w.fault:
        return
    sv = tr = False
    for e in o.eff:
        if e[0] == 'saveLocals':
            sv = True
        elif e[0] == 'trace':
            tr = True
        elif e[0] in ('load', 'put', 'read', 'divide', 'checkBounds', 'called') and faulty(e):
            if not (sv and tr):
                bad(name, 'can raise an exception in a try block before the locals the handler reads are saved')
            return


def faulty(e):
    if e[0] in ('load', 'put', 'read'):
        return strip_casts(e[1][2])[0] == 's'
    if e[0] == 'called':
        return e[1] == 'stackCall' and dereferenced(e[2])
    return True


def dereferenced(t):
    # the call's target is read through an operand
    if not isinstance(t, tuple):
        return False
    if t and t[0] == 'mem' and strip_casts(t[2])[0] == 's':
        return True
    return any(dereferenced(x) for x in t)


def w32(o, v):
    return {o + k: (v >> (24 - 8 * k)) & 255 for k in range(4)}


def tag(P, name):
    for e in P.enums.values():
        if any(k.split('::')[-1] == 'Unbranch' for k in e):
            for k, v in e.items():
                if k.split('::')[-1] == name:
                    return v
    raise AnalysisBroken('the work list tag %s was not found' % name)


def switches(bad, P, names, f, d, blocks, ops):
    n = 0
    for at0 in (1000, 1001, 1002, 1003):
        pad = ((at0 + 4) & ~3) - at0
        # tableswitch: default 500, -1..1 -> +50, -30, +70
        for bottom, top in ((-1, 1), (0, 2), (5, 7)):
            by = {}
            for o, v in ((0, 500), (4, bottom), (8, top), (12, 50), (16, -30), (20, 70)):
                by.update(w32(pad + o, v & 0xffffffff))
            outs = jit.evaluate(P, names, f, d, blocks[ops['tableswitch']], dict(op='tableswitch', stack=['i4', 'i4'], bytes=by, ip=at0))
            nm = 'tableswitch at alignment %d' % (at0 & 3)
            for o in outs:
                n += 1
                ev = [canon(e) for e in o.eff if essential(e)]
                tg = [at0 + 50, at0 - 30, at0 + 70]
                want = [('poolAppendPromise', ('ip', ('c', x))) for x in tg]
                want += [('condJump', 'JumpIfLess', jv('i4', ('c', bottom)), jv('i4', s(0)), jv('iptr', ('ip', ('c', at0 + 500)))), ('save', ('ty', 'i4'), jv('i4', s(0)))]
                got = [e for e in ev if e[0] in ('poolAppendPromise', 'condJump', 'save', 'jmp', 'called')]
                if o.kind != 'start' or norm(o.vars['ip'], 32) != ('c', at0 + 500):
                    bad('tableswitch', nm, 'does not translate the default target first (%s)' % o.kind)
                    continue
                if not match(tuple(got), tuple(canon(x) for x in want)):
                    bad('tableswitch', nm, 'builds its jump table or range test differently than specified: %s' % text(first(got, [canon(x) for x in want])))
                table(bad, 'tableswitch', nm, o, tg)
                sw = o.st.x.get('sw') or {}
                ok = norm(sw.get('count', ('c', -1)), 32) == ('c', 3) and norm(sw.get('defaultIp', ('c', -1)), 32) == ('c', at0 + 500) and \
                    norm(sw.get('bottom', ('c', 99)), 32) == norm(('c', bottom), 32) and norm(sw.get('top', ('c', 99)), 32) == norm(('c', top), 32) and \
                    canon(sw.get('key')) == canon(jv('i4', s(0))) and strip_casts(sw.get('start', ('?',)))[0] == 'pool' and \
                    canon(strip_casts(sw['start'])[2]) == ('ip', ('c', tg[0])) and strip_casts(sw.get('state', ('?',)))[0] == 'state'
                if not ok:
                    bad('tableswitch', nm, 'records other bounds, targets or table than the instruction has')
                if [x for x in o.st.x['ws']] != [('c', tag(P, 'Untable0'))]:
                    bad('tableswitch', nm, 'does not come back for the rest of the range test')
        by = {}
        for o, v in ((0, 500), (4, 2), (8, -9), (12, 50), (16, 77), (20, -70)):
            by.update(w32(pad + o, v & 0xffffffff))
        nm = 'lookupswitch at alignment %d' % (at0 & 3)
        for o in jit.evaluate(P, names, f, d, blocks[ops['lookupswitch']], dict(op='lookupswitch', stack=['i4', 'i4'], bytes=by, ip=at0)):
            n += 1
            got = [canon(e) for e in o.eff if essential(e) and e[0] in ('poolAppendPromise', 'poolAppend', 'condJump', 'save', 'jmp', 'called')]
            tg = [at0 + 50, at0 - 70]
            c = ('called', 'nativeCall', ('thunk', 'lookUpAddressThunk'), ('c', 0), ANY, 'iptr', (s(0), ('promise', ('pool', ANY, ('c', -9))), ('c', 2),
                 ('promise', ('ip', ('c', at0 + 500)))))
            want = []
            for k, x in zip((-9, 77), tg):
                want += [('poolAppend', ('c', k)), ('poolAppendPromise', ('ip', ('c', x)))]
            want += [c, ('jmp', jv('iptr', result(c)))]
            if not match(tuple(got), tuple(canon(x) for x in want)):
                bad('lookupswitch', nm, 'builds its table or lookup differently than specified: %s' % text(first(got, [canon(x) for x in want])))
            table(bad, 'lookupswitch', nm, o, tg)
            sw = o.st.x.get('sw') or {}
            if norm(sw.get('count', ('c', -1)), 32) != ('c', 2) or norm(sw.get('defaultIp', ('c', -1)), 32) != ('c', at0 + 500) or \
                    strip_casts(sw.get('state', ('?',)))[0] != 'state':
                bad('lookupswitch', nm, 'records another number of cases or default than the instruction has')
        by = {}
        for o, v in ((0, 500), (4, 0)):
            by.update(w32(pad + o, v))
        for o in jit.evaluate(P, names, f, d, blocks[ops['lookupswitch']], dict(op='lookupswitch', stack=['i4', 'i4'], bytes=by, ip=at0)):
            n += 1
            got = [canon(e) for e in o.eff if essential(e)]
            if o.kind != 'next' or norm(o.vars['ip'], 32) != ('c', at0 + 500) or not match(tuple(got), (canon(('jmp', jv('iptr', ('ip', ('c', at0 + 500))))),)):
                bad('lookupswitch', nm + ' without cases', 'does not jump to the default target')
    return n


def first(a, b):
    for x, y in zip(a, b):
        if not match(x, y):
            return x
    return a[len(b)] if len(a) > len(b) else ('missing', b[len(a)])


def table(bad, op, nm, o, tg):
    st = {}
    for e in o.eff:
        if e[0] == 'store' and e[1][1] == 'idx' and strip_casts(e[1][2])[0] == 'wspace':
            st[norm(e[1][3], 32)] = norm(e[2], 32)
        elif e[0] == 'store' and e[1][1] == 'deref':
            b, k = e[1][2], 0
            while b[0] == 'padd' and k is not None:
                k = k + b[3][1] if b[3][0] == 'c' else None
                b = b[2]
            if strip_casts(b)[0] == 'wspace':
                st[('c', k)] = norm(e[2], 32)
    if st != {('c', k): ('c', x) for k, x in enumerate(tg)}:
        bad(op, nm, 'does not record every target for translation')


def worklist(bad, P, names, f, d, blocks, ops):
    """what happens where a path of translation ends: the rest of the branch or switch that started it"""
    n = 0
    W = lambda k: A(k, U64)
    sw = dict(state=('a', 'sw.state', PTR), count=('c', 3), index=('c', 0), defaultIp=A('sw.default', U32), key=jv('i4', ('swkey',)), start=('a', 'sw.start', PTR),
              bottom=('c', 0), top=('c', 9))

    def go(name, **k):
        sc = dict(op='return_', stack=[], after=True, ws=[W('low'), W('second'), W('third'), ('c', tag(P, name))])
        sc['sw'] = dict(sw, **k)
        outs = jit.evaluate(P, names, f, d, blocks[ops['return_']], sc)
        for o in outs:
            o.ev = [canon(e) for e in o.eff if essential(e) and e[0] not in ('return_', 'disposed')]
        return outs

    key = lambda what: ('next', 'the end of a path (%s)' % what)
    for o in go('Return'):
        n += 1
        if o.kind != 'return':
            bad(*key('last path'), 'does not end translation')
    for o in go('Unbranch'):
        n += 1
        if o.kind != 'next' or norm(o.vars['ip'], 32) != norm(W('third'), 32) or o.ev != [canon(('restoreState', W('second')))] or o.st.x['ws'] != [W('low')]:
            bad(*key('branch not taken'), 'does not resume after the branch with the state it was left in')
    for o in go('Untable0'):
        n += 1
        want = [('restoreState', sw['state']), ('condJump', 'JumpIfGreater', jv('i4', ('c', 9)), sw['key'], jv('iptr', ('ip', sw['defaultIp']))),
                ('save', ('ty', 'i4'), sw['key'])]
        if o.kind != 'start' or o.ev != [canon(x) for x in want] or norm(o.vars['ip'], 32) != norm(sw['defaultIp'], 32) or o.st.x['ws'][-1] != ('c', tag(P, 'Untable1')):
            bad(*key('tableswitch, upper bound'), 'does not send keys above the range to the default target: %s' % text(first(o.ev, [canon(x) for x in want])))
    for bottom in (0, 5, -3):
        for o in go('Untable1', bottom=('c', bottom)):
            n += 1
            ix = jv('i4', mkop('-', U32, at(('swkey',), U32), ('c', bottom)) if bottom else ('swkey',))
            m = mem('iptr', ('promise', sw['start']), ('c', 0), ix[2])
            want = [('restoreState', sw['state']), ('load', m), ('jmp', jv('iptr', ('ld', '=', 'iptr', 'iptr') + m[2:]))]
            got = [plain(x) for x in o.ev]
            if got != [plain(canon(x)) for x in want]:
                bad(*key('tableswitch, dispatch'), 'does not jump through the entry of the key: %s' % text(first(got, [plain(canon(x)) for x in want])))
            body(bad, key, P, o, 0)
    for k in range(4):
        for o in go('Unswitch', index=('c', k)):
            n += 1
            if o.ev != [canon(('restoreState', sw['state']))]:
                bad(*key('switch'), 'does not restore the state the switch was left in')
            body(bad, key, P, o, k)
    return n


def plain(x):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'a' and isinstance(x[1], tuple):
            return plain(x[1])
        return tuple(plain(y) for y in x)
    return x


def body(bad, key, P, o, k):
    ip = norm(o.vars['ip'], 32)
    if k < 3:
        if o.kind != 'start' or ip != ('a', ('iptable', k)) and ip != ('a', ('iptable', ('c', k))) or o.st.x['ws'][-1] != ('c', tag(P, 'Unswitch')) or \
                norm(o.st.x['sw']['index'], 32) != ('c', k + 1):
            bad(*key('switch'), 'does not translate the targets of a switch one after the other')
    elif o.kind != 'next' or ip != ('a', 'sw.default') or len(o.st.x['ws']) != 3:
        bad(*key('switch'), 'does not go on at the default target after the last case')


def check(res, tier):
    res.rule('Each translation of a bytecode, evaluated abstractly from its opcode to the next dispatch for every shape of operands, asks the code generator for exactly '
             'the specified operations on the specified operands, leaves the specified result and slot types, continues at the specified position, has a safe point before '
             'a backward jump, and saves the locals before anything in a try block can throw.')
    P = prog.world('jit')
    f, d = jit.find(P)
    ops = interp.opcode_enum(P)
    blocks = interp.case_blocks(f, d)
    names = jit.Names(P)
    done = set()
    seen = set()
    for c in cases(P):
        if c.op not in ops:
            raise AnalysisBroken('opcode %s is not in the opcode table' % c.op)
        if ops[c.op] not in blocks:
            continue
        b = blocks[ops[c.op]]

        def bad(name, what, c=c, b=b):
            key = '%s:%s' % (c.op.rstrip('_'), what[:60])
            if key not in seen:
                seen.add(key)
                res.bad(key, rel(f.file), interp.first_line(f, b), '%s of the JIT compiler' % name, what)
        for intry in (False, True):
            try:
                n = run(bad, P, names, f, d, b, ops, c, intry)
            except TooComplex:
                res.count('cases too complex to evaluate')
                n = 0
            res.count('translations evaluated', n)
        done.add(c.op)
    def bad2(op, name, what):
        key = '%s:%s:%s' % (op, name, what[:60])
        if key not in seen:
            seen.add(key)
            b = blocks.get(ops.get(op, ops['return_']))
            res.bad(key, rel(f.file), interp.first_line(f, b), '%s of the JIT compiler' % name, what)

    res.count('translations evaluated', switches(bad2, P, names, f, d, blocks, ops))
    res.count('translations evaluated', worklist(bad2, P, names, f, d, blocks, ops))
    res.count('bytecodes compared with their specification', len(done), 150)
