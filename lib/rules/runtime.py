"""I03: the functions compiled code calls do what the bytecode they stand in for specifies"""
import math
import absint
import prog
from absint import Eval, Model, St, Stop, TooComplex, mkop, mkcast, norm, normx, show, strip_casts
from prog import AnalysisBroken, rel
from rules.interp import A, U32, U64, I32, I64, F32, F64, PTR, evalc

MININT, MAXINT, MINLONG, MAXLONG = -2**31, 2**31 - 1, -2**63, 2**63 - 1
FILES = ('/compile.cpp', '/codegen/runtime.cpp')
# calls that are not looked into: (name without scope) -> number of leading arguments that are the thread
PRIM = {'resolveMethod', 'resolveField', 'resolveClass', 'initClass', 'prepareMethodForCall', 'findVirtualMethod', 'findInterfaceMethod', 'isSpecialMethod', 'objectClass',
        'getJClass', 'instanceOf', 'isAssignableFrom', 'makeObjectArray', 'makeNew', 'makeNewGeneral', 'setField', 'acquire', 'release', 'makeArray', 'setObjectClass',
        'populateMultiArray', 'methodAddress', 'unresolved', 'classNeedsInit', 'methodAbstract', 'compile', 'collect', 'stress', 'codeAllocator', 'ensure', 'traceSize', 'replace',
        'exceptionMatch', 'methodCompiled', 'localObject', 'stackForFrame', 'savedTargetIndex', 'difference', 'resolveClassInObject', 'findInHierarchy', 'enter', 'isSuperclass', 'getFlags', 'getThunk'} | {
        'make%sArray' % x for x in ('Boolean', 'Byte', 'Char', 'Short', 'Int', 'Long', 'Float', 'Double')}
QUIET = {'objectClass', 'isSpecialMethod', 'methodAddress', 'unresolved', 'classNeedsInit', 'methodAbstract', 'codeAllocator', 'traceSize', 'isAssignableFrom', 'instanceOf', 'stackForFrame',
         'savedTargetIndex', 'localObject', 'methodCompiled', 'difference', 'stress', 'getJClass', 'replace', 'ensure', 'resolveMethod', 'resolveClass', 'resolveField', 'findVirtualMethod',
         'findInterfaceMethod', 'resolveClassInObject', 'findInHierarchy', 'isSuperclass', 'getFlags', 'getThunk'}
SPECIAL = {'float': (0.0, -0.0, 1.5, -1.5, 1e9, -1e9, 2.0**31, -2.0**31, 2.5e9, -2.5e9, 2.0**62, 2.0**63, -2.0**63, 1e19, -1e19, 1e30, -1e30, math.inf, -math.inf, math.nan)}


class Rt(Model):
    max_visits = 12
    max_paths = 4000

    def __init__(self, P, g, val, truth):
        self.P, self.g, self.val, self.truth = P, g, val, truth
        self.types = {v: k for e in P.enums.values() if 'NullPointerExceptionType' in e for k, v in e.items()}

    def deref(self, ev, f, c, st, a, k):
        return ev.load(f, c[k], st, a[k]) if a[k][0] == 'lv' else a[k]

    def name(self, t):
        t = strip_casts(t)
        return self.types.get(t[1], '?')[:-4] if t[0] == 'c' else '?'

    def call(self, ev, st, f, i, fn, a):
        n = f.x[i]
        c = n.get('c', ())
        last = fn.split('::')[-1].split('<')[0]
        L = lambda k: ev.load(f, c[k], st, a[k]) if a[k][0] == 'lv' else a[k]
        X = lambda k: simp(L(k))
        e = st.x.setdefault('ev', [])
        if n['k'] == 'Ctor':
            cls = last
            if 'FieldReadResource' in fn or 'FieldWriteResource' in fn:
                x = simp(L(1))
                e.append(('enter', 'read' if 'Read' in fn else 'write', x))
                return ('res', 'read' if 'Read' in fn else 'write', x)
            if 'StateResource' in fn:
                e.append(('state', X(1)))
                return ('guard', fn)
            if 'Protector' in fn or 'Resource' in fn or 'RuntimeArray' in fn:
                return ('guard', fn)
            return None
        if last == 'throwNew':
            raise Stop('throw', self.name(L(1)))
        if last == 'throw_':
            if f is self.g or not (self.P.funcs.get(n.get('f')) and self.P.funcs[n['f']].file.endswith('/compile.cpp')):
                raise Stop('throw', X(1))
        if last in ('bitsToDouble', 'bitsToFloat'):
            v = L(len(a) - 1)
            w = 64 if 'Double' in last else 32
            t = F64 if w == 64 else F32
            if v[0] == 'bits' and v[1] == t:
                return v[2]
            v = norm(v, w)
            return ('a', v[1], t) if v[0] == 'a' else ('bitsto', t, v)
        if last in ('doubleToBits', 'floatToBits'):
            return ('bits', F64 if last[0] == 'd' else F32, L(len(a) - 1))
        if last in ('fpclassify', '__builtin_fpclassify'):
            v = fval(L(len(a) - 1), self.val)
            if v is None:
                return None
            k = 0 if v != v else 1 if math.isinf(v) else 2 if v == 0 else 4
            return a[{0: 0, 1: 1, 4: 2, 2: 4}[k]] if last == '__builtin_fpclassify' else ('c', k)
        if last in ('isnan', '__builtin_isnan'):
            v = fval(L(0), self.val)
            return None if v is None else ('c', int(v != v))
        if last in ('isinf', '__builtin_isinf', '__builtin_isinf_sign'):
            v = fval(L(0), self.val)
            return None if v is None else ('c', (math.isinf(v) and (1 if v > 0 else -1)) if 'sign' in last else int(math.isinf(v)))
        if last in ('signbit', '__builtin_signbit', '__builtin_signbitf'):
            v = fval(L(0), self.val)
            return None if v is None else ('c', int(math.copysign(1, v) < 0))
        if last in ('sqrt', 'sqrtf', 'fabs', 'fabsf', 'fmod', 'fmodf', '__builtin_sqrt', '__builtin_fabs', '__builtin_fabsf', '__builtin_fmod'):
            return ('math', last.replace('__builtin_', '').rstrip('f') if last.endswith('sf') or last in ('sqrtf', 'fmodf') else last.replace('__builtin_', '')) + tuple(L(k) for k in range(len(a)))
        if last in ('cast', 'cast_as') or fn in ('vm::GcObject::as', 'vm::GcObject::as_object'):
            return L(len(a) - 1)
        if last == 'fieldAtOffset':
            t, x, o = prog_type(f, i), X(0), X(1)
            e.append(('field', t, x, o))
            return ('fld', t, x, o)
        if n.get('obj') and fn.startswith('vm::Gc') and len(a) == 1:
            v = self.truth.get('.' + last)
            v = v(X(0)) if callable(v) else v
            return v if v is not None else ('get', last, X(0))
        if last == 'operator[]' and len(a) == 2 and '[]' in self.truth:
            v = self.truth['[]'](X(0), X(1))
            if v is not None:
                return v
        if n.get('obj') and fn.startswith('vm::Gc') and len(a) == 2 and (last.startswith('set') or last == 'operator[]'):
            e.append((last, X(0), X(1)))
            return ('void',)
        if last in ('setFlag', 'clearFlag'):
            return ('void',)
        if last in PRIM:
            args = tuple(simp(L(k)) for k in range(1, len(a)))
            if last == 'populateMultiArray' and len(args) == 4:
                args = (args[0], contents(st, L(2))) + args[2:]
            k = (last,) + args
            if last not in QUIET:
                e.append(k)
            v = self.truth.get(last)
            if v is not None:
                v = v(args) if callable(v) else v
            if v is not None:
                return ('c', int(v)) if not isinstance(v, tuple) else v
            return ('v',) + k
        return None

    def dtor(self, ev, st, f, e):
        v = st.memo
        if 'FieldReadResource' in e.get('fn', '') or 'FieldWriteResource' in e.get('fn', ''):
            st.x.setdefault('ev', []).append(('leave', 'read' if 'Read' in e['fn'] else 'write'))

    def load(self, st, f, i, lv):
        if lv[1] in ('idx', 'deref') and ('table' in self.val):
            b, k = base(lv)
            if b is not None and k is not None and 0 <= k < len(self.val['table']):
                return ('c', self.val['table'][k])
        if lv[1] == 'mem':
            k = (lv[3], simp(lv[2]) if isinstance(lv[2], tuple) else lv[2])
            v = self.truth.get('.' + lv[3])
            v = v(k[1]) if callable(v) else v
            if v is not None:
                return v
            return ('get', lv[3], k[1])
        return None

    def store(self, st, f, i, lv, v):
        if lv[1] == 'mem' and self.truth.get('nostore') != lv[3]:
            st.x.setdefault('ev', []).append(('set', lv[3], simp(lv[2]) if isinstance(lv[2], tuple) else lv[2], simp(v)))
            st.env[lv[1:]] = v
            return True
        return False

    def inline(self, g):
        return g.file.endswith(FILES) and len(g.x) < 600

    def decide(self, st, t):
        v = evalc2(t, self.val)
        return v


def contents(st, b):
    """what was stored in the array b"""
    b = simp(strip_casts(b))
    r = {}
    for k, v in st.env.items():
        if isinstance(k, tuple) and k[0] == 'idx' and simp(strip_casts(k[1])) == b:
            n = norm(k[2], 32)
            if n[0] == 'c':
                r[n[1]] = norm(v, 32)
    return ('array',) + tuple(sorted(r.items()))


def prog_type(f, i):
    return f.type(i).replace(' &', '').replace('&', '').strip()


def base(lv):
    """constant index into the table a parameter points to"""
    t, b = (lv[3], lv[2]) if lv[1] == 'idx' else (('c', 0), lv[2])
    while isinstance(b, tuple) and b[0] == 'padd':
        t = mkop('+', U64, b[3], t)
        b = b[2]
    b = strip_casts(b) if isinstance(b, tuple) else b
    k = norm(t, 64)
    return ('start' if b == ('a', 'start', PTR) or isinstance(b, tuple) and b[:2] == ('get', 'stack') else None), (k[1] if k[0] == 'c' else None)


def fval(t, val):
    v = evalc2(t, val)
    return v if v is None or isinstance(v, float) else float(v)


def f32(v):
    import struct
    try:
        return struct.unpack('f', struct.pack('f', v))[0]
    except OverflowError:
        return math.copysign(math.inf, v)


def evalc2(t, val):
    if t[0] == 'cast' and t[1][0] == 'f':
        v = evalc2(t[2], val)
        return None if v is None else f32(float(v)) if t[1][1] == 32 else float(v)
    if t[0] == 'un' and t[1] == '-' and t[2][0] == 'f':
        v = evalc2(t[3], val)
        return None if v is None else -v
    if t[0] == 'op' and t[2][0] == 'f':
        a, b = evalc2(t[3], val), evalc2(t[4], val)
        if a is None or b is None:
            return None
        r = {'<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b, '==': lambda: a == b, '!=': lambda: a != b}.get(t[1])
        return int(r()) if r else None
    if t[0] == 'op' and t[1] in ('<', '>', '<=', '>=', '==', '!='):
        a, b = evalc2(t[3], val), evalc2(t[4], val)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            if t[2][0] in 'iu':
                a, b = absint.wrap(int(a), t[2]), absint.wrap(int(b), t[2])
            return int({'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b}[t[1]])
        return None
    if t[0] == 'un' and t[1] == '!':
        a = evalc2(t[3], val)
        return None if a is None else int(not a)
    return evalc(t, val)


def simp(t):
    t = normx(strip_casts(t)) if t[0] in ('cast', 'op', 'un', 'c', 'a') else t
    if t[0] in ('zext', 'sext', 'low') and t[1] == 32 and t[2][0] == 'c':
        return t[2]
    return t


def wide(t, w=64):
    """a returned value"""
    return norm(t, w)


class Tests:
    def __init__(self, P, res):
        self.P, self.res = P, res
        by = {}
        for g in P.funcs.values():
            if g.file.endswith(FILES) and g.b:
                by.setdefault(g.n.split('::')[-1], []).append(g)
        self.by = by
        self.done = set()
        self.miss = []

    def fn(self, name, n):
        c = [g for g in self.by.get(name, ()) if len(g.params) == n]
        if len(c) != 1:
            self.miss.append(name)
            return None
        return c[0]

    def run(self, name, args, val=None, truth=None):
        """[(events, kind, value)] of the paths under the assumptions"""
        g = self.fn(name, len(args))
        if g is None:
            return None, []
        if name not in self.done:
            self.done.add(name)
            self.res.count('runtime functions compared with their specification', floor=60)
        m = Rt(self.P, g, dict(val or {}), dict(truth or {}))
        self.res.count('runtime function cases evaluated')
        try:
            outs = Eval(self.P, m).run(g, list(args))
        except TooComplex:
            self.res.count('cases too complex to evaluate')
            return None, []
        return g, [(tuple(s.x.get('ev', ())) + tuple(('store', e[1][1:], e[2]) for e in s.eff if e[0] == 'store' and e[1][0] == 'fld'), k, v) for s, k, v in outs if k != 'abort']

    def bad(self, g, case, text):
        self.res.bad('runtime|%s|%s' % (g.n.split('::')[-1], case), rel(g.file), g.l, g.n, text)


def tell(o):
    ev, k, v = o
    r = '; '.join(sh(x) for x in ev)
    return (r + ('; ' if r else '')) + (('throws %s' % sh(v)) if k == 'throw' else 'returns %s' % sh(v) if v is not None else k)


def sh(x):
    if isinstance(x, str):
        return x
    if isinstance(x, (int, float)):
        return repr(x)
    if x is None:
        return '-'
    if x and x[0] == 'get':
        return '%s.%s' % (sh(x[2]), x[1])
    if x and x[0] == 'v':
        return '%s(%s)' % (x[1], ', '.join(sh(y) for y in x[2:]))
    if x and isinstance(x[0], str) and x[0] in ('enter', 'leave', 'field', 'fld') or x and x[0] in PRIM:
        return '%s(%s)' % (x[0], ', '.join(sh(y) for y in x[1:]))
    try:
        return show(x)
    except Exception:
        return repr(x)[:120]


def numbers(T):
    """comparison, conversion and arithmetic"""
    nan, inf = math.nan, math.inf
    for nm, t, w in (('Doubles', F64, U64), ('Floats', F32, U32)):
        for sfx, un in (('G', 1), ('L', -1)):
            name = 'compare' + nm + sfx
            for a, b, want in ((1.0, 2.0, -1), (2.0, 1.0, 1), (1.0, 1.0, 0), (0.0, -0.0, 0), (-0.0, 0.0, 0), (inf, 1.0, 1), (-inf, 1.0, -1), (1.0, inf, -1), (inf, inf, 0), (-inf, -inf, 0),
                               (nan, 1.0, un), (1.0, nan, un), (nan, nan, un), (nan, inf, un), (-inf, nan, un)):
                g, outs = T.run(name, [A('b', w), A('a', w)], {'a': a, 'b': b})
                for o in outs:
                    if o[1] != 'return' or evalc2(o[2], {}) != want:
                        T.bad(g, 'case', 'must return %d for %r and %r but %s' % (want, a, b, tell(o)))
    for a, b in ((1, 2), (2, 1), (1, 1), (-1, 1), (1, -1), (MINLONG, MAXLONG), (MAXLONG, MINLONG), (MINLONG, 0), (0, -1), (-2, -1), (1 << 32, 1), (1, 1 << 32), (0, 1 << 40)):
        want = (a > b) - (a < b)
        g, outs = T.run('compareLongs', [A('b', U64), A('a', U64)], {'a': a, 'b': b})
        for o in outs:
            if o[1] != 'return' or evalc2(o[2], {'a': a, 'b': b}) != want:
                T.bad(g, 'case', 'must return %d for %d and %d but %s' % (want, a, b, tell(o)))
    # conversions from floating point saturate and map NaN to zero
    for nm, t, w in (('double', F64, I64), ('float', F32, I32)):
        for to, lo, hi, it in (('Int', MININT, MAXINT, I32), ('Long', MINLONG, MAXLONG, I64)):
            for v in SPECIAL['float']:
                if t == F32 and f32(v) != v and v == v and not math.isinf(v):
                    v = f32(v)
                want = 0 if v != v else lo if v <= lo else hi if v >= hi else int(v)
                g, outs = T.run('%sTo%s' % (nm, to), [A('a', w)], {'a': v})
                for o in outs:
                    got = None
                    if o[1] == 'return' and o[2] is not None:
                        got = trunc(o[2], v)
                    if got != want:
                        T.bad(g, 'case', 'must return %d for %r but %s' % (want, v, tell(o) if got is None or o[2][0] == 'c' else 'converts a value out of the range of the result type' if got == 'range' else tell(o)))
    a = lambda t: A('a', t)
    b = lambda t: A('b', t)
    bits = lambda t, x: ('bits', t, x)
    for nm, t, w in (('Double', F64, U64), ('Float', F32, U32)):
        for op, name in (('+', 'add'), ('-', 'subtract'), ('*', 'multiply'), ('/', 'divide')):
            same(T, name + nm, [b(w), a(w)], bits(t, mkop(op, t, a(t), b(t))))
        same(T, 'modulo' + nm, [b(w), a(w)], bits(t, ('math', 'fmod', a(t), b(t))))
        same(T, 'negate' + nm, [a(w)], bits(t, ('un', '-', t, a(t))))
    same(T, 'squareRootDouble', [a(U64)], bits(F64, ('math', 'sqrt', a(F64))))
    same(T, 'absoluteFloat', [a(U32)], bits(F32, ('math', 'fabs', a(F32))))
    same(T, 'doubleToFloat', [a(I64)], bits(F32, mkcast(F32, a(F64), F64)))
    same(T, 'floatToDouble', [a(I32)], bits(F64, mkcast(F64, a(F32), F32)))
    for nm, it in (('int', I32), ('long', I64)):
        same(T, nm + 'ToDouble', [a(it)], bits(F64, mkcast(F64, a(it), it)))
        same(T, nm + 'ToFloat', [a(it)], bits(F32, mkcast(F32, a(it), it)))
    # integers
    for nm, it, lo, hi in (('Int', I32, MININT, MAXINT), ('Long', I64, MINLONG, MAXLONG)):
        for v in (0, 1, -1, 5, -5, lo, hi, lo + 1):
            g, outs = T.run('absolute' + nm, [a(it)], {'a': v})
            for o in outs:
                got = evalc2(o[2], {'a': v}) if o[1] == 'return' else None
                if got is None or absint.wrap(got, it) != absint.wrap(abs(v), it):
                    T.bad(g, 'case', 'must return %d for %d but %s' % (absint.wrap(abs(v), it), v, tell(o)))
        for name, div in (('divide', True), ('modulo', False)):
            for x in (0, 7, -7, lo, hi, lo + 1):
                for y in (0, 1, -1, 2, -2, 3, lo, hi):
                    g, outs = T.run(name + nm, [A('t', PTR), b(it), a(it)], {'a': x, 'b': y})
                    for o in outs:
                        if y == 0:
                            if o[1] != 'throw' or o[2] != 'ArithmeticException' and 'arithmetic' not in repr(o[2]):
                                T.bad(g, 'zero', 'must throw an ArithmeticException when the divisor is 0 but ' + tell(o))
                            continue
                        q = abs(x) // abs(y)
                        q = -q if (x < 0) != (y < 0) else q
                        want = absint.wrap(q if div else x - q * y, it)
                        got = evalc2(o[2], {'a': x, 'b': y}) if o[1] == 'return' and o[2] is not None else None
                        if got is None or absint.wrap(got, it) != want:
                            T.bad(g, 'case', 'must return %d for %d and %d but %s' % (want, x, y, tell(o)))
                        elif x == lo and y == -1 and divides(o[2]):
                            T.bad(g, 'overflow', 'divides %d by -1, which traps' % x)


def divides(t):
    if not isinstance(t, tuple):
        return False
    if t and t[0] == 'op' and t[1] in ('/', '%'):
        return True
    return any(divides(x) for x in t)


def trunc(t, v):
    """value of a returned term, where a floating-point number converted to an integer must be in its range"""
    if t[0] == 'cast' and t[1][0] in 'iu':
        if t[3][0] == 'f':
            x = evalc2(t[2], {'a': v})
            if x is None or x != x or math.isinf(x):
                return 'range'
            x = int(x)
            return x if absint.wrap(x, t[1]) == x else 'range'
        x = trunc(t[2], v)
        return absint.wrap(x, t[1]) if isinstance(x, int) else x
    return evalc2(t, {'a': v})


def eqv(x, y):
    """equality of two terms up to irrelevant conversions and commutation"""
    if x == y:
        return True
    if not isinstance(x, tuple) or not isinstance(y, tuple) or not x or not y:
        return False
    if x[0] == 'bits' and y[0] == 'bits' and x[1] == y[1]:
        return eqv(x[2], y[2])
    # float operations done in double and rounded back give the same result for + - * / and sqrt; fmod is exact
    if x[0] == 'cast' and x[1] == F32 and y[0] in ('math', 'op'):
        return eqv(x[2], y) if not (y[0] == 'op') else False
    if x[0] == 'cast' and x[1] == F64 and x[3] == F32 and y[0] == 'a' and y[2] == F32:
        return eqv(x[2], y)
    if x[0] == y[0] == 'math' and x[1] == y[1] and len(x) == len(y):
        return all(eqv(p, q) for p, q in zip(x[2:], y[2:]))
    if x[0] == y[0] == 'op' and x[1] == y[1] and x[2] == y[2]:
        return eqv(x[3], y[3]) and eqv(x[4], y[4]) or x[1] in '+*' and eqv(x[3], y[4]) and eqv(x[4], y[3])
    if x[0] == y[0] == 'un' and x[1:3] == y[1:3]:
        return eqv(x[3], y[3])
    if x[0] == y[0] == 'cast':
        return x[1] == y[1] and x[3] == y[3] and eqv(x[2], y[2])
    return False


def same(T, name, args, want):
    g, outs = T.run(name, args)
    for o in outs:
        v = o[2]
        while v is not None and v[0] == 'cast' and v[2][0] in ('bits', 'cast') and v[1][0] in 'iu':
            v = v[2]
        if o[1] != 'return' or v is None or not eqv(v, want):
            T.bad(g, 'value', 'must return %s but %s' % (sh2(want), tell((o[0], o[1], v))))


def sh2(x):
    if isinstance(x, tuple) and x and x[0] == 'bits':
        return 'the bits of ' + sh2(x[2])
    if isinstance(x, tuple) and x and x[0] == 'math':
        return '%s(%s)' % (x[1], ', '.join(sh2(y) for y in x[2:]))
    return sh(x)



def V(name, *a):
    return ('v', name) + a


def G(name, x):
    return ('get', name, x)


PAIR, OBJ, CLS, MTH, THR = A('pair', PTR), A('o', PTR), A('c', PTR), A('m', PTR), A('t', PTR)
PR = ('a', 'pair')
LOADER = G('loader', G('class_', G('first', PR)))
NAME = G('name', G('second', PR))


def is_class(x):
    """the class named by the pair, resolved by the loader of the class of the method that refers to it"""
    return isinstance(x, tuple) and x[:4] == V('resolveClass', LOADER, NAME) and all(y == ('c', 1) for y in x[4:5])


def plain(x):
    """a returned reference or word"""
    while isinstance(x, tuple) and x and x[0] == 'cast':
        x = x[2]
    return x


def expect(T, name, args, want, case, val=None, truth=None, ret=None, throws=None):
    """every path has the events, and returns the value or throws the exception"""
    g, outs = T.run(name, args, val, truth)
    if g is None:
        return
    what = ' in the case: ' + case if case else ''
    if not outs:
        T.bad(g, case, 'neither returns nor throws' + what)
    for ev, k, v in outs:
        o = (ev, k, v)
        if throws is not None:
            if k != 'throw' or not (v == throws or callable(throws) and throws(v)):
                T.bad(g, case, 'must throw %s%s but %s' % (throws if isinstance(throws, str) else 'it', what, tell(o)))
            elif match(ev, want) is False:
                T.bad(g, case, 'must do [%s] before it throws%s but does [%s]' % (say(want), what, '; '.join(sh(x) for x in ev)))
            continue
        if k != 'return':
            T.bad(g, case, 'must return%s but %s' % (what, tell(o)))
            continue
        if match(ev, want) is False:
            T.bad(g, case, 'must do [%s]%s but does [%s]' % (say(want), what, '; '.join(sh(x) for x in ev)))
        if ret is not None and not (ret(v) if callable(ret) else plain(v) == ret):
            T.bad(g, case, 'returns %s%s' % (sh(plain(v)), what))


def say(want):
    return '; '.join(w.__doc__ or '?' if callable(w) else sh(w) for w in want)


def match(ev, want):
    ev = list(ev)
    if len(ev) != len(want):
        return False
    return all(w(e) if callable(w) else e == w for e, w in zip(ev, want))


def once(T, ev):
    """consecutive initializations of one class are one"""
    return ev


FT = {'ByteField': (('signed char', 'char', 'int8_t'), I32, 8), 'BooleanField': (('signed char', 'char', 'unsigned char'), I32, 8), 'CharField': (('unsigned short',), I32, 16),
      'ShortField': (('short',), I32, 16), 'IntField': (('int', 'unsigned int'), I32, 32), 'FloatField': (('int', 'unsigned int', 'float'), I32, 32),
      'LongField': (('long', 'unsigned long', 'long long'), I64, 64), 'DoubleField': (('long', 'unsigned long', 'double'), I64, 64),
      'ObjectField': (('long', 'unsigned long', 'vm::GcObject *', 'vm::object'), I64, 64)}


def objects(T):
    P = T.P
    codes = next((e for e in P.enums.values() if 'ObjectField' in e and 'ByteField' in e), {})
    tcodes = next((e for e in P.enums.values() if 'T_BOOLEAN' in e), None) or {'T_BOOLEAN': 4, 'T_CHAR': 5, 'T_FLOAT': 6, 'T_DOUBLE': 7, 'T_BYTE': 8, 'T_SHORT': 9, 'T_INT': 10, 'T_LONG': 11}
    NPE = 'NullPointerException'
    # arrays
    for n in (-1, MININT):
        for t in tcodes.values():
            expect(T, 'makeBlankArray', [THR, ('c', t), A('n', I32)], [], 'length %d' % n, {'n': n}, throws='NegativeArraySizeException')
        expect(T, 'makeBlankObjectArray', [THR, CLS, A('n', I32)], [], 'length %d' % n, {'n': n}, throws='NegativeArraySizeException')
    for n in (0, 1, MAXINT):
        for nm, t in tcodes.items():
            mk = 'make%sArray' % nm[2:].capitalize()
            expect(T, 'makeBlankArray', [THR, ('c', t), A('n', I32)], [lambda e, mk=mk: e[0] == mk and isn(e[1])], '%s, length %d' % (nm, n), {'n': n},
                   ret=lambda v, mk=mk: plain(v)[:2] == ('v', mk))
        mk = 'makeObjectArray'
        expect(T, mk.replace('make', 'makeBlank'), [THR, CLS, A('n', I32)], [lambda e: e[0] == mk and e[1] == normx(CLS) and isn(e[2])], 'length %d' % n, {'n': n},
               ret=lambda v: plain(v)[:2] == ('v', mk))
        expect(T, 'makeBlankObjectArrayFromReference', [THR, PAIR, A('n', I32)], [lambda e: e[0] == mk and is_class(e[1])], 'length %d' % n, {'n': n},
               ret=lambda v: plain(v)[:2] == ('v', mk))
    # null checks
    o, v = normx(OBJ), normx(A('v', PTR))
    J = ('v', 'getJClass', o)
    clean = lambda x: ('set', 'methodLockIsClean', normx(THR), ('c', x))
    for nm, args, ev in (('setMaybeNull', [THR, OBJ, A('off'), A('v', PTR)], [('setField', o, normx(A('off')), v)]),
                         ('acquireMonitorForObject', [THR, OBJ], [('acquire', o)]), ('releaseMonitorForObject', [THR, OBJ], [('release', o)]),
                         ('releaseMonitorForClass', [THR, OBJ], [('release', J)]),
                         ('acquireMonitorForObjectOnEntrance', [THR, OBJ], [clean(0), ('acquire', o), clean(1)]),
                         ('acquireMonitorForClassOnEntrance', [THR, OBJ], [clean(0), ('acquire', J), clean(1)])):
        expect(T, nm, args, [], 'null', {'o': 0}, throws=NPE)
        expect(T, nm, args, ev, '', {'o': 1})
    expect(T, 'throw_', [THR, OBJ], [], 'null', {'o': 0}, throws=NPE)
    expect(T, 'throw_', [THR, OBJ], [], '', {'o': 1}, throws=lambda x: x == o)
    # casts and type tests
    c = normx(CLS)
    oc = V('objectClass', o)
    asg = lambda r, k=lambda x: x == c: {'isAssignableFrom': lambda a: r if len(a) == 2 and k(a[0]) and a[1] == oc else None}
    for nm, first, k in (('checkCast', CLS, lambda x: x == c), ('checkCastFromReference', PAIR, is_class)):
        expect(T, nm, [THR, first, OBJ], [], 'null', {'o': 0})
        expect(T, nm, [THR, first, OBJ], [], 'an instance', {'o': 1}, asg(1, k))
        expect(T, nm, [THR, first, OBJ], [], 'not an instance', {'o': 1}, asg(0, k), throws='ClassCastException')
    expect(T, 'instanceOf64', [THR, CLS, OBJ], [], '', ret=V('instanceOf', c, o))
    expect(T, 'instanceOfFromReference', [THR, PAIR, OBJ], [], '', ret=lambda x: plain(x)[:2] == ('v', 'instanceOf') and is_class(plain(x)[2]) and plain(x)[3] == o)
    # instance creation
    for nm, mk in (('makeNew64', 'makeNew'), ('makeNewGeneral64', 'makeNewGeneral')):
        expect(T, nm, [THR, CLS], [('initClass', c), (mk, c)], '', ret=V(mk, c))
    g, outs = T.run('makeNewFromReference', [THR, PAIR])
    for ev, k, x in outs:
        ev = list(ev)
        ok = k == 'return' and len(ev) >= 2 and all(e[0] == 'initClass' and is_class(e[1]) for e in ev[:-1]) and ev[-1][0] in ('makeNew', 'makeNewGeneral') and is_class(ev[-1][1])
        if not ok or plain(x)[:2] != ('v', ev[-1][0]):
            T.bad(g, '', 'must initialize the class the reference names, then create an instance of it and return it, but ' + tell((ev, k, x)))
        elif ev[-1][0] == 'makeNew':
            T.bad(g, '', 'creates an instance without regard to finalizers and weak references')
    expect(T, 'getJClass64', [THR, CLS], [], '', ret=V('getJClass', c))
    expect(T, 'getJClassFromReference', [THR, PAIR], [], '', ret=lambda x: plain(x)[:2] == ('v', 'getJClass') and is_class(plain(x)[2]))
    expect(T, 'tryInitClass', [THR, CLS], [('initClass', c)], '')
    # fields
    F = V('resolveField', normx(PAIR))
    off, sobj = G('offset', F), G('staticTable', G('class_', F))
    for static in (True, False):
        base = sobj if static else o
        init = [('initClass', G('class_', F))] if static else []
        args = [THR, PAIR] + ([] if static else [OBJ])
        val = {} if static else {'o': 1}
        S = 'Static' if static else ''
        for nm, code in codes.items():
            if nm == 'VoidField' or nm not in FT:
                continue
            types, it, w = FT[nm]
            tr = {'.code': ('c', code)}
            fld = lambda e, types=types, base=base: e[0] == 'field' and e[1] in types and e[2:] == (base, off)
            rv = lambda x, w=w, nm=nm, types=types, base=base: fieldterm(x, types, base, off, w, nm)
            if not static:
                expect(T, 'getFieldValueFromReference', args, [], nm + ', null', {'o': 0}, tr, throws=NPE)
            acc = init + [('enter', 'read', F), fld, ('leave', 'read')]
            expect(T, 'get%sFieldValueFromReference' % S, args, acc, nm, val, tr, ret=rv)
            if nm == 'ObjectField':
                setter, st, vt = 'Object', [lambda e, base=base: e == ('setField', base, off, v)], A('v', PTR)
            elif w == 64:
                setter, vt = 'Long', A('v', U64)
                st = [lambda e, types=types + ('short', 'unsigned short') * (w == 16), base=base: e[0] == 'field' and e[1] in types and e[2:] == (base, off)]
            else:
                setter, vt = '', A('v', U32)
                st = [lambda e, types=types + ('short', 'unsigned short') * (w == 16), base=base: e[0] == 'field' and e[1] in types and e[2:] == (base, off)]
            sts = types + ('short',) if w == 16 else types
            store = [] if nm == 'ObjectField' else [lambda e, types=sts, base=base, w=w: e[0] == 'store' and e[1][0] in types and e[1][1:] == (base, off) and lowbits(e[2], w)]
            name = 'set%s%sFieldValueFromReference' % (S, setter)
            if not static:
                expect(T, name, args + [vt], [], nm + ', null', {'o': 0}, tr, throws=NPE)
            expect(T, name, args + [vt], init + [('enter', 'write', F)] + st + [('leave', 'write')] + store, nm, val, tr)
    # methods
    M = V('resolveMethod', normx(PAIR))
    mf = lambda static: {'.flags': ('c', 8 if static else 0)}
    prep = lambda m: [('prepareMethodForCall', m)]
    done = lambda m: V('prepareMethodForCall', m)
    OC = V('objectClass', o)
    expect(T, 'findStaticMethodFromReference', [THR, PAIR], prep(M), 'a static method', truth=mf(True), ret=done(M))
    expect(T, 'findStaticMethodFromReference', [THR, PAIR], [], 'an instance method', truth=mf(False), throws='IncompatibleClassChangeError')
    sup = V('findVirtualMethod', M, G('super', G('class_', G('first', PR))))
    spec = lambda r: {'isSpecialMethod': lambda a: r if a == (M, G('class_', G('first', PR))) else None}
    expect(T, 'findSpecialMethodFromReference', [THR, PAIR], prep(M), 'a method of the class', truth=dict(mf(False), **spec(0)), ret=done(M))
    expect(T, 'findSpecialMethodFromReference', [THR, PAIR], prep(sup), 'a method of a superclass', truth=dict(mf(False), **spec(1)), ret=done(sup))
    expect(T, 'findSpecialMethodFromReference', [THR, PAIR], [], 'a static method', truth=dict(mf(True), **spec(0)), throws='IncompatibleClassChangeError')
    vm = V('findVirtualMethod', M, OC)
    expect(T, 'findVirtualMethodFromReference', [THR, PAIR, OBJ], prep(vm), 'an instance method', {'o': 1}, mf(False), ret=done(vm))
    expect(T, 'findVirtualMethodFromReference', [THR, PAIR, OBJ], [], 'a static method', {'o': 1}, mf(True), throws='IncompatibleClassChangeError')
    expect(T, 'findVirtualMethodFromReference', [THR, PAIR, OBJ], [], 'null', {'o': 0}, mf(False), throws=NPE)
    im = V('findInterfaceMethod', normx(MTH), OC)
    expect(T, 'findInterfaceMethodFromInstance', [THR, MTH, OBJ], prep(im), '', {'o': 1}, ret=done(im))
    expect(T, 'findInterfaceMethodFromInstance', [THR, MTH, OBJ], [], 'null', {'o': 0}, throws=NPE)
    im = V('findInterfaceMethod', M, OC)
    expect(T, 'findInterfaceMethodFromInstanceAndReference', [THR, PAIR, OBJ], prep(im), '', {'o': 1}, ret=done(im))
    expect(T, 'findInterfaceMethodFromInstanceAndReference', [THR, PAIR, OBJ], [], 'null', {'o': 0}, throws=NPE)
    m = normx(MTH)
    expect(T, 'getMethodAddress', [THR, MTH], prep(m), '', ret=done(m))
    if 'prepareMethodForCall' not in T.by:
        raise AnalysisBroken('prepareMethodForCall was not found')
    for ab in (1, 0):
        for un in (1, 0):
            for fl in (0, 8, 0x100, 0x108):
                for ni in (1, 0):
                    if ab and fl & 0x100:
                        continue
                    tr = {'methodAbstract': ab, 'unresolved': lambda a, un=un: un if a == (V('methodAddress', m),) else None, '.flags': ('c', fl),
                          'classNeedsInit': lambda a, ni=ni: ni if a == (G('class_', m),) else None}
                    case = '%s%s%s%s' % ('abstract ' if ab else '', 'uncompiled ' if un else '', 'static ' if fl & 8 else '', 'native' if fl & 0x100 else '')
                    if ab:
                        expect(T, 'prepareMethodForCall', [THR, MTH], [], case, truth=tr, throws='AbstractMethodError')
                        continue
                    comp = [lambda e: e[0] == 'compile' and e[-1] == m] if un or fl & 8 and ni else []
                    nat = [('set', 'nativeMethod', G('trace', normx(THR)), m)] if fl & 0x100 else []
                    expect(T, 'prepareMethodForCall', [THR, MTH], comp + nat, case, truth=tr, ret=V('methodAddress', m))
    # method resolution and field resolution
    for nm, find, exc in (('resolveMethod', 'findMethodInClass', 'NoSuchMethodErrorType'), ('resolveField', 'findFieldInClass', 'NoSuchFieldErrorType')):
        g = T.fn(nm, 2)
        g2, outs = T.run(nm, [THR, PAIR])
        ref = G('second', PR)
        for ev, k, x in outs:
            x = plain(x) if k == 'return' else x
            cl = lambda y: isinstance(y, tuple) and y[:2] == ('v', 'resolveClassInObject') and y[2:4] == (LOADER, ref)
            if k != 'return' or x[:2] != ('v', 'findInHierarchy') or not cl(x[2]) or x[3:5] != (G('name', ref), G('spec', ref)) or find not in repr(x[5]):
                T.bad(g2, '', 'must find the member the reference names in the class it names but ' + tell((ev, k, x)))
    # the binary search of a lookupswitch, for every table of at most seven keys and every position of the key among them
    for n in range(8):
        keys = [(MININT, -5, -1, 0, 3, 7, MAXINT)[k] for k in range(n)] if n < 7 else [MININT, -5, -1, 0, 3, 7, MAXINT]
        table = [x for k, key in enumerate(keys) for x in (key & 0xffffffffffffffff, 1000 + k)]
        for key in sorted({x for k in keys for x in (k - 1, k, k + 1) if MININT <= x <= MAXINT} | {0}):
            want = 1000 + keys.index(key) if key in keys else 77
            g, outs = T.run('lookUpAddress', [('c', key), A('start', PTR), ('c', n), ('c', 77)], {'table': table})
            for o in outs:
                v = o[2]
                if o[1] != 'return' or v is None or evalc2(v, {}) != want:
                    T.bad(g, 'n', 'must find %s for key %d among %r but %s' % ('entry %d' % (want - 1000) if want != 77 else 'the default', key, keys, tell(o)))
    # arrays of arrays: the sizes are on the operand stack, the last one on top
    for n in (1, 2, 3):
        for counts in [[3, 4, 5][:n], [0, 7, 2][:n], [2, 0, 1][:n]] + [[-9 if k == j else 3 + k for k in range(n)] for j in range(n)] + [[0 if k != j else -1 for k in range(n)] for j in range(n)]:
            for nm in ('makeMultidimensionalArray2', 'makeMultidimensionalArray', 'makeMultidimensionalArrayFromReference'):
                at = 0 if nm.endswith('2') else 3
                table = [99] * at + [k & 0xffffffffffffffff for k in reversed(counts)] + [98]
                cl = PAIR if nm.endswith('Reference') else CLS
                args = [THR, cl, A('start', PTR), ('c', n)] if nm.endswith('2') else [THR, cl, ('c', n), ('c', at)]
                g, outs = T.run(nm, args, {'table': table})
                for o in outs:
                    ev, k, x = o
                    if min(counts) < 0:
                        if k != 'throw' or x != 'NegativeArraySize' + 'Exception':
                            T.bad(g, 'negative', 'must throw NegativeArraySizeException for the sizes %r but %s' % (counts, tell(o)))
                        continue
                    mk = [e for e in ev if e[0] == 'makeArray']
                    po = [e for e in ev if e[0] == 'populateMultiArray']
                    sc = [e for e in ev if e[0] == 'setObjectClass']
                    if k != 'return' or len(mk) != 1 or norm(mk[0][1], 32) != ('c', counts[0]) or len(sc) != 1 or not is_class(sc[0][2]) and sc[0][2] != c:
                        T.bad(g, 'array', 'must make an array of the class and the first size of %r but %s' % (counts, tell(o)))
                    elif n > 1 and (len(po) != 1 or po[0][2] != ('array',) + tuple((j, ('c', counts[j])) for j in range(n)) or po[0][3:] != (('c', 0), ('c', n))):
                        T.bad(g, 'elements', 'must fill the array according to the sizes %r but %s' % (counts, tell(o)))
    pm = [g for g in T.P.funcs.values() if g.n == 'vm::populateMultiArray' and g.b]
    if len(pm) == 1:
        T.by['populateMultiArray'] = pm
        nested(T)
    # polls
    expect(T, 'gcIfNecessary', [THR], [lambda e: e[0] == 'collect'], 'the backup heap is in use', truth={'getFlags': 0xffff})
    expect(T, 'gcIfNecessary', [THR], [], 'the backup heap is not in use', truth={'getFlags': 0})
    expect(T, 'idleIfNecessary', [THR], [lambda e: e[0] == 'state' and e[1][0] == 'c'], 'another thread asks for exclusive access', truth={'.exclusive': ('c', 1)})
    expect(T, 'idleIfNecessary', [THR], [], 'no thread asks for exclusive access', truth={'.exclusive': ('c', 0)})


def nested(T):
    """each element of an array of arrays is an array of the element class and the next size, filled in turn"""
    for counts, ix in (([3], 0), ([2, 3], 0), ([2, 3], 1), ([0, 3], 0), ([1, 3], 0), ([2, 0, 4], 0), ([4, 2, 5], 1), ([3, 2, 1], 2)):
        for size in (1, 4, 8):
            g, outs = T.run('populateMultiArray', [THR, A('o', PTR), A('start', PTR), ('c', ix), ('c', len(counts))], {'table': counts}, {
                '.arrayElementSize': ('c', size), '.length': lambda x: ('lv', 'mem', x, 'length') if 'makeArray' in repr(x) else ('c', 11)})
            n = 0 if ix + 1 >= len(counts) else counts[ix]
            for o in outs:
                ev = [e for e in o[0] if e[0] != 'makeByteArray']
                what = 'must fill level %d of an array with the sizes %r ' % (ix, counts)
                if o[1] != 'return' or len(ev) != 5 * n:
                    T.bad(g, 'count', what + 'with %d arrays but %s' % (n, tell(o)))
                    continue
                for k in range(n):
                    e = {x[0] if x[0] != 'set' else x[1]: x for x in ev[5 * k:5 * k + 5]}
                    if set(e) != {'makeArray', 'length', 'setObjectClass', 'setField', 'populateMultiArray'}:
                        T.bad(g, 'steps', what + 'with arrays of their own but ' + tell(o))
                        break
                    arr = plain(('v',) + tuple(e['makeArray']))
                    w = wordcount(e['makeArray'][1])
                    if w is None or w < -(-counts[ix + 1] * size // 8) or w > -(-counts[ix + 1] * size // 8) + 1:
                        T.bad(g, 'size', what + 'with arrays large enough for %d elements of %d bytes but allocates %s words' % (counts[ix + 1], size, sh(e['makeArray'][1])))
                    if plain(e['length'][2]) != arr or norm(e['length'][3], 32) != ('c', counts[ix + 1]) or plain(e['setObjectClass'][1]) != arr:
                        T.bad(g, 'length', what + 'with arrays of length %d but %s' % (counts[ix + 1], tell(o)))
                    if e['setField'][1] != ('a', 'o') and e['setField'][1] != 'o' and plain(e['setField'][1]) != plain(A('o', PTR)) or norm(e['setField'][2], 32) != ('c', 16 + 8 * k) or \
                            plain(e['setField'][3]) != arr:
                        T.bad(g, 'element', what + 'by storing each array in its element but ' + tell(o))
                    p = e['populateMultiArray']
                    if plain(p[1]) != arr or norm(p[3], 32) != ('c', ix + 1) or norm(p[4], 32) != ('c', len(counts)):
                        T.bad(g, 'next', what + 'by filling each array with the remaining sizes but ' + tell(o))


def wordcount(t):
    t = strip_casts(t)
    if t[0] == 'c':
        return t[1]
    if t[0] == 'v' and t[1] == 'ceilingDivide' or t[0] == 'get':
        return None
    s = [x for x in t if isinstance(x, tuple)]
    if 'ceilingDivide' in repr(t):
        k = [norm(x, 32) for x in s if isinstance(x, tuple) and x[0] != 'fn']
        k = [x[1] for x in k if x[0] == 'c']
        if len(k) == 2 and k[1]:
            return -(-k[0] // k[1])
    return None


def thunks(T):
    """the function the code generator calls for an operation it has no instruction for"""
    P, res = T.P, T.res
    lir = {k: v for e in P.enums.values() if 'FloatSquareRoot' in e or 'FloatRemainder' in e or 'JumpIfFloatLess' in e and 'Divide' in e for k, v in e.items()}
    th = next((e for e in P.enums.values() if 'compareLongsThunk' in e), None)
    if not th or 'FloatRemainder' not in lir or 'Float2Int' not in lir:
        raise AnalysisBroken('the enumerations of operations and thunks were not found')
    names = {v: k for k, v in th.items()}
    two = {('Absolute', 8, 8): 'absoluteLong', ('FloatNegate', 8, 8): 'negateDouble', ('FloatSquareRoot', 8, 8): 'squareRootDouble', ('Float2Float', 8, 4): 'doubleToFloat',
           ('Float2Int', 8, 8): 'doubleToLong', ('Float2Int', 8, 4): 'doubleToInt', ('Int2Float', 8, 8): 'longToDouble', ('Int2Float', 8, 4): 'longToFloat',
           ('Absolute', 4, 4): 'absoluteInt', ('FloatNegate', 4, 4): 'negateFloat', ('FloatAbsolute', 4, 4): 'absoluteFloat', ('Float2Float', 4, 8): 'floatToDouble',
           ('Float2Int', 4, 4): 'floatToInt', ('Float2Int', 4, 8): 'floatToLong', ('Int2Float', 4, 4): 'intToFloat', ('Int2Float', 4, 8): 'intToDouble'}
    three = {}
    for w, i, f in ((8, 'Long', 'Double'), (4, 'Int', 'Float')):
        three.update({('Divide', w): 'divide' + i, ('Remainder', w): 'modulo' + i, ('FloatAdd', w): 'add' + f, ('FloatSubtract', w): 'subtract' + f,
                      ('FloatMultiply', w): 'multiply' + f, ('FloatDivide', w): 'divide' + f, ('FloatRemainder', w): 'modulo' + f})
    for g in P.funcs.values():
        if not g.b or g.n.split('::')[-1] != 'getThunk' or not g.file.endswith('/compile.cpp') or not g.cls:
            continue
        kind = [g.vars[p][1] for p in g.params]
        if 'BinaryOperation' in kind[0]:
            table = [((lir[o], a, b), n, o) for (o, a, b), n in two.items()]
        elif 'TernaryOperation' in kind[0]:
            table = [((lir[o], a, a), n, o) for (o, a), n in three.items()]
        else:
            continue
        for (o, a, b), n, nm in table:
            m = Rt(P, g, {}, {})
            args = [('c', o), ('c', a), ('c', b), A('flag', PTR)]
            outs = [x for x in Eval(P, m).run(g, args, this=A('client', PTR)) if x[1] != 'abort']
            res.count('thunks for operations without an instruction', floor=20)
            got = None
            for s, k, v in outs:
                v = plain(v) if v is not None else None
                got = names.get(v[2][1], '?') if k == 'return' and v and v[:2] == ('v', 'getThunk') and v[2][0] == 'c' else '?'
                if got != n + 'Thunk':
                    T.bad(g, nm, 'must use %sThunk for %s of %d bytes but uses %s' % (n, nm, a, got))
                if len(args) == 4 and 'Ternary' in kind[0]:
                    st = [e[2] for e in s.eff if e[0] == 'store' and 'flag' in repr(e[1])]
                    if not st or st[-1] != ('c', int(nm in ('Divide', 'Remainder'))):
                        T.bad(g, nm + ' thread', '%s pass the thread to %sThunk' % ('must' if nm in ('Divide', 'Remainder') else 'must not', n))
            if not outs:
                T.bad(g, nm, 'aborts for %s of %d bytes' % (nm, a))


def isn(x):
    while x[0] in ('low', 'sext', 'zext', 'cast'):
        x = x[2]
    return x[:2] == ('a', 'n')


def lowbits(v, w):
    n = norm(v, w)
    while n[0] in ('low', 'sext', 'zext') and n[1] >= min(w, n[1]):
        n = n[2]
    return n == ('a', 'v')


def fieldterm(x, types, base, off, w, nm):
    """the value, in the low 32 (64) bits, widened as the type demands"""
    n = x
    steps = []
    while n[0] == 'cast':
        steps.append((n[1], n[3]))
        n = n[2]
    if n[0] != 'fld' or n[1] not in types or n[2:] != (base, off):
        return False
    for to, fr in steps:
        if to[0] in 'iu' and to[1] < min(w, 32):
            return False
    if w < 32 and steps:
        first = steps[-1][1]
        if nm in ('ByteField', 'ShortField') and first[0] != 'i' or nm == 'CharField' and first[0] != 'u':
            return False
    return True


def check(res, tier):
    res.rule('each function that compiled code calls is evaluated for every class of operands, and its result, its exceptions and the order of its effects are compared with the bytecode it implements')
    P = prog.world('jit')
    T = Tests(P, res)
    numbers(T)
    objects(T)
    thunks(T)
    return T
