"""The interpreter implements every bytecode as the JVM specification defines it: each handler is evaluated abstractly from the dispatch of
its opcode to the next dispatch, and what it takes from the operand stack, leaves there, reads and writes is compared with the table below."""
import re, math
import prog
from prog import rel, AnalysisBroken
import absint
from absint import Eval, Model, St, Stop, TooComplex, norm, normx, mkop, mkcast, ty, wrap, show

U32, U64, I32, I64, F32, F64, PTR = ('u', 32), ('u', 64), ('i', 32), ('i', 64), ('f', 32), ('f', 64), ('p', 64)


def A(name, t=U32):
    return ('a', name, t)


def evalc(t, val):
    """value of a term under assumptions about the atoms, or None"""
    k = t[0]
    if k == 'c':
        return t[1]
    if k == 'exc':
        return 1
    if k == 'fc':
        try:
            return float(t[1])
        except (TypeError, ValueError):
            return None
    if k == 'a':
        v = val.get(t[1])
        if v is None:
            return None
        return wrap(v, t[2]) if t[2][0] in 'iu' and isinstance(v, int) else v
    if k == 'op':
        a, b = evalc(t[3], val), evalc(t[4], val)
        op = t[1]
        if op == '&' and (a == 0 or b == 0):
            return 0
        if a is None or b is None:
            return None
        if isinstance(a, float) or isinstance(b, float):
            f = {'<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b, '==': lambda: a == b, '!=': lambda: a != b}.get(op)
            return int(f()) if f else None
        if op in absint.FOLD:
            if op in ('<', '>', '<=', '>=', '==', '!=') and t[2][0] in 'iu':
                a, b = wrap(a, t[2]), wrap(b, t[2])
            v = absint.FOLD[op](a, b)
            return v if op in ('<', '>', '<=', '>=', '==', '!=') else wrap(v, t[2])
        if op in '/%' and b != 0:
            q = abs(a) // abs(b)
            q = -q if (a < 0) != (b < 0) else q
            return q if op == '/' else a - q * b
        return None
    if k == 'un':
        a = evalc(t[3], val)
        if a is None:
            return None
        return {'!': lambda: int(not a), '-': lambda: wrap(-a, t[2]), '~': lambda: wrap(~a, t[2])}.get(t[1], lambda: None)()
    if k == 'cast':
        a = evalc(t[2], val)
        if a is None:
            return None
        if t[1][0] in 'iu' and isinstance(a, int):
            return wrap(a, t[1])
        if t[1][0] == 'f':
            try:
                return float(a)
            except OverflowError:
                return None
        return None
    return None


class Interp(Model):
    max_paths = 4000
    max_visits = 3

    def __init__(self, P, f, dispatch, val, stops):
        if 'ip' in val:
            self.max_visits = 12
        self.P, self.f, self.dispatch, self.val, self.stops = P, f, dispatch, val, stops
        self.types = {v: k for k, v in P.enum('vm::Gc::Type').items()}
        self.fp = None

    def init(self, st):
        st.x['sp'] = 0
        st.x['slots'] = {}
        st.x['kinds'] = {}
        st.x['ip'] = mkop('+', U32, A('ip'), ('c', 1)) if 'ip' not in self.val else ('c', self.val['ip'] + 1)
        st.x['loc'] = []
        st.x['exc'] = None
        st.x['framepop'] = 0

    # operand stack
    def get(self, st, pos):
        return st.x['slots'].get(pos, ('s', -1 - pos))

    def pop1(self, st, kind):
        st.x['sp'] -= 1
        s = self.get(st, st.x['sp'])
        if s[0] == 's':
            st.x['kinds'][s[1]] = kind
        return s

    def push1(self, st, s):
        st.x['slots'][st.x['sp']] = s
        st.x['sp'] += 1

    def asint(self, s, t=U32):
        if s[0] == 's':
            return A('s%d' % s[1], t)
        if s[0] == 'I':
            return mkcast(t, s[1], s[2]) if s[2] != t else s[1]
        if s[0] == 'F':
            return ('fbits', s[1])
        return ('word', s)

    def aslong(self, hi, lo, t=U64):
        if hi[0] == 's' and lo[0] == 's' and hi[1] == lo[1] + 1:
            return A('j%d' % lo[1], t)
        if hi[0] == 'hi' and lo[0] == 'lo' and hi[1] == lo[1]:
            return hi[1]
        return ('pair', hi, lo)

    def call(self, ev, st, f, i, fn, a):
        n = f.x[i]
        c = n.get('c', ())
        last = fn.split('::')[-1]
        L = lambda k: ev.load(f, c[k], st, a[k]) if a[k][0] == 'lv' else a[k]
        if fn.startswith(('local::', '(anonymous namespace)::')) and f is not None:
            if last == 'popInt':
                return self.asint(self.pop1(st, 'I'))
            if last == 'popFloat':
                s = self.pop1(st, 'I')
                return A('s%d' % s[1], F32) if s[0] == 's' else s[1] if s[0] == 'F' else ('bitsf', s)
            if last in ('popLong', 'popDouble'):
                lo = self.pop1(st, 'I')
                hi = self.pop1(st, 'I')
                return self.aslong(hi, lo, U64 if last == 'popLong' else F64)
            if last == 'popObject':
                s = self.pop1(st, 'O')
                return A('s%d' % s[1], PTR) if s[0] == 's' else s[1] if s[0] == 'O' else ('word', s)
            if last == 'pushInt':
                v = L(1)
                self.push1(st, ('F', v[1]) if v[0] == 'fbits' else ('I', v, U32))
                return ('void',)
            if last == 'pushFloat':
                self.push1(st, ('F', L(1)))
                return ('void',)
            if last == 'pushObject':
                self.push1(st, ('O', L(1)))
                return ('void',)
            if last in ('pushLong', 'pushDouble'):
                v = L(1)
                if last == 'pushDouble':
                    v = ('dbl', v) if v[0] != 'a' else v
                self.push1(st, ('hi', v))
                self.push1(st, ('lo', v))
                return ('void',)
            if last in ('peekObject', 'peekInt', 'peekLong'):
                p = self.spos(st, L(1))
                if p is not None:
                    s = self.get(st, p)
                    if last == 'peekObject':
                        return A('s%d' % s[1], PTR) if s[0] == 's' else s[1]
                    if last == 'peekInt':
                        return self.asint(s)
                elif last == 'peekObject' and self.footprint(st, L(1)):
                    return A('receiver', PTR)
            if last in ('localInt', 'localObject', 'localLong'):
                ix = show(norm(L(1), 32))
                for kind, name, v in reversed(st.x['loc']):
                    if name == ix:
                        return v
                return A('L[%s]%s' % (ix, {'localInt': 'I', 'localObject': 'O', 'localLong': 'J'}[last]),
                         {'localInt': U32, 'localObject': PTR, 'localLong': U64}[last])
            if last in ('setLocalInt', 'setLocalObject', 'setLocalLong'):
                v = L(2)
                st.x['loc'].append(({'L': 'J'}.get(last[8], last[8]), show(norm(L(1), 32)), v[1] if v[0] == 'dbl' else v))
                return ('void',)
            if last == 'findExceptionHandler':
                if self.val.get('__handler'):
                    return A('handler', U64)
                raise Stop('throw')
            if last == 'popFrame':
                st.x['framepop'] += 1
                st.x['sp'], st.x['slots'] = 1000, {}
                return ('void',)
            if last == 'safePoint':
                st.eff.append(('safepoint',))
                return ('void',)
            if last == 'frameBase':
                return A('fbase')
        if fn.startswith('vm::'):
            if last == 'isSpecialMethod':
                return A('special', ('u', 1))
            if last == 'instanceOf' and len(a) == 3:
                o = evalc(L(2), self.val)
                st.eff.append(('instanceOf', normx(L(2))))
                return ('c', 0) if o == 0 else A('instanceOf')
            if last in ('makeThrowable', 'throwNew') and len(a) > 1:
                t = L(1)
                st.eff.append(('throwable', self.types.get(t[1], '?').replace('Type', '') if t[0] == 'c' else '?'))
                return ('exc', self.types.get(t[1], '?')[:-4] if t[0] == 'c' else '?')
            if last == 'objectArrayLength' or (last == 'length' and n.get('obj') and re.match(r'vm::Gc\w*Array::length$', fn)):
                return A('len(%s)' % show(normx(L(0 if last == 'length' else 1))), U64)
            if last.startswith('fieldAtOffset'):
                o, off = L(0), L(1)
                if self.val.get('__array') and off == ('c', 8):
                    return A('len(%s)' % show(normx(o)), ty(f.type(i)))
                return ('fld', f.type(i), o, off)
            if last == 'objectArrayBody':
                return ('elem', 'GcObjectArray', ('p', 64), normx(L(1)), norm(L(2), 32))
            if re.match(r'vm::Gc\w*Array::body$', fn):
                return ('abody', fn.split('::')[1], L(0))
            if last == 'body' and fn == 'vm::GcCode::body':
                return ('code',)
            if last == 'cast' and len(a) >= 2:
                return L(len(a) - 1)
            if fn in ('vm::GcObject::as', 'vm::GcObject::as_object') or last == 'as' and n.get('obj'):
                return L(0)
            if last == 'safePoint':
                st.eff.append(('safepoint',))
                return ('void',)
            if last == 'doubleToBits':
                return L(0) if L(0)[0] == 'a' else ('dbl', L(0))
            if last == 'bitsToDouble':
                v = L(0)
                return ('a', v[1], F64) if v[0] == 'a' else v[1] if v[0] == 'dbl' else ('bitsd', v)
            if last == 'floatToBits':
                return ('fbits', L(0)) if L(0)[0] != 'a' else L(0)
            if last == 'bitsToFloat':
                v = L(0)
                return ('a', v[1], F32) if v[0] == 'a' else v[1] if v[0] == 'fbits' else ('bitsf', v)
            if last == 'isNaN':
                v = evalc(L(0), self.val)
                return ('c', int(v != v)) if v is not None else ('isnan', L(0))
            if fn == 'vm::GcField::code':
                return A('fieldcode')
            if fn == 'vm::GcField::offset':
                return A('fieldoffset', ty(f.type(i)))
            if fn == 'vm::GcField::flags':
                return A('fieldflags')
            if fn in ('vm::GcMethod::flags', 'vm::GcMethod::vmFlags'):
                return A('methodflags', ty(f.type(i)))
            if last == 'setField':
                st.eff.append(('setfield', normx(L(1)), norm(L(2), 32), normx(L(3))))
                return ('void',)
            if last in ('acquire', 'release') and len(a) == 2:
                st.eff.append((last, normx(L(1))))
                return ('void',)
            if last in ('storeStoreMemoryBarrier', 'storeLoadMemoryBarrier', 'loadMemoryBarrier', 'memoryBarrier'):
                st.eff.append(('barrier', last))
                return ('void',)
        if last == 'operator[]' and a:
            base = a[0]
            if base == ('code',):
                return self.operand(L(1))
            if base[0] == 'abody':
                return ('elem', base[1], ty(f.type(i)), normx(base[2]), norm(L(1), 32))
        if last in ('memcpy', '__builtin_memcpy', 'memmove', '__builtin_memmove') and len(a) == 3:
            return self.copy(ev, st, f, a[0], a[1], L(2), c)
        if last in ('__builtin_isnan', 'isnan') or fn == 'std::isnan':
            v = evalc(L(0), self.val)
            return ('c', int(v != v)) if v is not None else ('isnan', L(0))
        if last == '__builtin_fpclassify' or last == 'fpclassify':
            v = evalc(a[-1] if a[-1][0] != 'lv' else L(len(a) - 1), self.val)
            if v is not None:
                k = 0 if v != v else 1 if math.isinf(v) else 2 if v == 0 else 4
                if last == '__builtin_fpclassify':
                    return a[{0: 0, 1: 1, 4: 2, 2: 4}[k]]
                return ('c', k)
        if last in ('__builtin_signbit', 'signbit', '__builtin_signbitf'):
            v = evalc(L(0), self.val)
            if v is not None:
                return ('c', int(math.copysign(1, v) < 0))
        if last in ('isinf', '__builtin_isinf', '__builtin_isinf_sign'):
            v = evalc(L(0), self.val)
            if v is not None:
                return ('c', int(math.isinf(v)))
        return None

    def inline(self, g):
        return g is not self.f and (g.file.endswith(('/interpret.cpp', '/process.h')) and len(g.x) < 700 or
                                    g.n.split('::')[-1] in ('min', 'max', 'abs')) and \
            g.n.split('::')[-1] not in ('interpret3', 'pushFrame', 'checkStack', 'invokeNative', 'marshalArguments', 'isSuperclass', 'isSpecialMethod',
                                        'resolveMethod', 'resolveField', 'findMethod', 'findVirtualMethod', 'findInterfaceMethod')

    def spos(self, st, t):
        """stack position relative to the entry top, of an index into the operand stack"""
        x = norm(t, 32)
        if x == ('a', 'sp'):
            return 0
        if x[0] == 'lin':
            d = dict(x[1])
            if d.get(('a', 'sp')) == 1 and set(d) <= {('a', 'sp'), 1}:
                return wrap(d.get(1, 0), I32)
        return None

    def footprint(self, st, t):
        """is this stack index the one of the first argument of a call?"""
        x = norm(t, 32)
        if x[0] != 'lin':
            return False
        d = dict(x[1])
        if d.pop(('a', 'sp'), 0) != 1 or len(d) != 1:
            return False
        (k, v), = d.items()
        return v == 0xffffffff and 'parameterFootprint' in repr(k)

    def waddr(self, t):
        """(position, word) of an address within the stack array"""
        if t[0] == 'addr' and t[1][0] == 'lv' and t[1][1] == 'idx':
            return self.waddr(('padd', '', t[1][2], t[1][3]))
        if t[0] in ('padd',):
            base = t[2]
            if base != ('stackbase',):
                return None
            x = norm(t[3], 32)
            d = dict(x[1]) if x[0] == 'lin' else {x: 1}
            if d.get(('a', 'sp')) == 2 and set(d) <= {('a', 'sp'), 1}:
                k = wrap(d.get(1, 0), I32)
                return k // 2, k % 2
        return None

    def localaddr(self, t):
        """index of the local variable at an address within the stack array"""
        if t[0] == 'addr' and t[1][0] == 'lv' and t[1][1] == 'idx':
            return self.localaddr(('padd', '', t[1][2], t[1][3]))
        if t[0] != 'padd' or t[2] != ('stackbase',):
            return None
        x = norm(t[3], 32)
        d = dict(x[1]) if x[0] == 'lin' else {x: 1}
        if d.pop(('a', 'fbase'), 0) != 2 or any(v % 2 for v in d.values()):
            return None
        d = {k: v // 2 for k, v in d.items()}
        if not d:
            return ('c', 0)
        if list(d) == [1]:
            return ('c', d[1])
        if len(d) == 1 and list(d.values()) == [1]:
            return list(d)[0]
        return ('lin', tuple(sorted(d.items(), key=repr)))

    def copy(self, ev, st, f, d, s, n, c):
        if n[0] != 'c':
            return None
        if d[0] == 'addr' and d[1][0] == 'elem':
            v = s[1] if s[0] == 'addr' else s
            if v[0] == 'lv':
                v = ev.load(f, c[1], st, v)
            st.eff.append(('storeelem', d[1], v, n[1]))
            return ('void',)
        sp = self.waddr(s)
        if sp is not None and sp[1] == 0 and n[1] % 16 == 0:
            items = [self.get(st, sp[0] + k) for k in range(n[1] // 16)]
        elif s[0] == 'lv' and ('tmp',) + s[1:] in st.env:
            items = st.env[('tmp',) + s[1:]]
        else:
            if d[0] == 'addr' and d[1][0] == 'lv' and s[0] == 'addr':
                v = s[1]
                st.env[d[1][1:]] = ev.load(f, c[1], st, v) if v[0] == 'lv' else v
                return ('void',)
            return None
        dp = self.waddr(d)
        ix = self.localaddr(d)
        if ix is not None:
            for k, it in enumerate(items):
                st.x['loc'].append(('*', show(norm(mkop('+', U32, ix, ('c', k)), 32)) if k else show(ix), slot(it)))
            return ('void',)
        if dp is not None and dp[1] == 0:
            for k, it in enumerate(items):
                st.x['slots'][dp[0] + k] = it
            return ('void',)
        if d[0] == 'lv':
            st.env[('tmp',) + d[1:]] = items
            return ('void',)
        return None

    def operand(self, t):
        x = norm(t, 32)
        if x[0] == 'lin':
            d = dict(x[1])
            if d.get(('a', 'ip')) == 1 and set(d) <= {('a', 'ip'), 1}:
                return A('b%d' % wrap(d.get(1, 0), I32), ('u', 8))
        if x[0] == 'c':
            nm = 'b@%d' % x[1]
            return ('c', self.val[nm]) if nm in self.val else A(nm, ('u', 8))
        return A('b[%s]' % show(x), ('u', 8))

    def load(self, st, f, i, lv):
        if lv[1] == 'mem':
            m = lv[3]
            if m == 'sp':
                return mkop('+', U32, A('sp'), ('c', st.x['sp'])) if st.x['sp'] else A('sp')
            if m == 'ip':
                return st.x['ip']
            if m == 'stack':
                return ('stackbase',)
            if m == 'exception':
                return st.x['exc'] if st.x['exc'] is not None else ('c', 0)
            if m in ('frame', 'code'):
                return A(m, ty(f.type(i)))
        if lv[1] == 'idx' and lv[2] == ('stackbase',):
            w = self.waddr(('padd', '', lv[2], lv[3]))
            if w is not None:
                s = self.get(st, w[0])
                if w[1] == 1:
                    if s[0] == 's':
                        return A('s%d' % s[1], U64)
                    return s[1]
                return ('tag', s)
        return None

    def store(self, st, f, i, lv, v):
        if lv[1] == 'mem':
            m = lv[3]
            if m == 'sp':
                p = self.spos(st, v)
                if p is None and self.val.get('__handler') and norm(v, 32) == norm(mkop('+', U32, A('frame', I32), ('c', self.footprint_words())), 32):
                    st.x['framepop'], st.x['sp'], st.x['slots'] = 1, 1000, {}
                    return True
                if p is None:
                    return False
                st.x['sp'] = p
                return True
            if m == 'ip':
                st.x['ip'] = v
                return True
            if m == 'exception':
                st.x['exc'] = v
                return True
        return False

    def footprint_words(self):
        """words of a frame above the locals: what pushFrame adds to the frame to get the empty operand stack"""
        for g in self.P.funcs.values():
            if g.file == self.f.file and g.n.split('::')[-1] == 'pushFrame' and g.b:
                m = Raw(self.P)
                st = St()
                m.init(st)
                for s2, k, _ in Eval(self.P, m).run(g, [A('t', PTR), ('a', 'method', PTR)], st=st):
                    if k == 'return':
                        d = norm(mkop('-', U32, s2.x['f']['sp'], s2.x['f']['frame']), 32)
                        if d[0] == 'c':
                            return d[1]
        return -1

    def decide(self, st, t):
        return evalc(t, self.val)

    def stop(self, f, b):
        if f is self.f and b in self.stops:
            return self.stops[b]
        return None


# ---- outcome of a path -----------------------------------------------------

class Out:
    def __init__(self, m, st, kind, val):
        self.kind, self.val = kind, val
        x = st.x
        self.throws = None
        if x['exc'] is not None and x['exc'][0] == 'exc':
            self.throws = x['exc'][1]
        elif x['exc'] is not None and x['exc'] != ('c', 0):
            self.throws = normx(x['exc'])
        self.sp = x['sp']
        self.framepop = x['framepop']
        lo = min([p for p in x['slots']] + [0, x['sp']] + [-1 - k for k in x['kinds']])
        if self.framepop:
            self.pop = None
            self.push = [slot(m.get(st, p)) for p in range(1000, x['sp'])]
        else:
            # trim unchanged bottom
            while lo < min(0, x['sp']) and m.get(st, lo) == ('s', -1 - lo):
                lo += 1
            self.pop = -lo
            self.push = [slot(m.get(st, p)) for p in range(lo, x['sp'])]
        self.top = m.get(st, x['sp'] - 1)[0] if not self.framepop else None
        self.dec = st.dec
        self.kinds = x['kinds']
        self.ip = norm(x['ip'], 32)
        self.loc = x['loc']
        self.eff = st.eff


def slot(s):
    if s[0] == 's':
        return ('a', 's%d' % s[1])
    if s[0] == 'I':
        return norm(s[1], 32)
    if s[0] == 'F':
        return normx(s[1])
    if s[0] == 'O':
        return normx(s[1])
    v = s[1]
    if v[0] == 'dbl':
        return (s[0], normx(v[1]))
    n = norm(v, 64)
    if n[0] == 't':
        n = n[2]
    return (s[0], n)


def describe(o):
    if o.kind == 'throw':
        return 'throws %s' % (o.throws if isinstance(o.throws, str) else 'a pending exception' if o.throws is None else show(o.throws))
    s = 'leaves [%s] in place of the top %s words' % (', '.join(show(p) for p in o.push), o.pop)
    if o.framepop:
        s = 'pops the frame and leaves [%s]' % ', '.join(show(p) for p in o.push)
    if o.kind == 'return':
        return 'leaves the interpreter with %s' % (show(normx(o.val)) if o.val else 'nothing')
    if o.kind != 'dispatch':
        return 'ends in ' + o.kind if o.kind != 'loop' else 'does not terminate'
    return s


def dispatcher(P):
    c = [f for f in P.funcs.values() if f.file.endswith('/interpret.cpp') and any(
        b.get('t') == 'SwitchStmt' and len([s for s in b['s'] if s >= 0]) > 120 for b in f.b.values())]
    if len(c) != 1:
        raise AnalysisBroken('the interpreter loop was not found (%d candidates)' % len(c))
    f = c[0]
    d = [b for b, bl in f.b.items() if bl.get('t') == 'SwitchStmt' and len([s for s in bl['s'] if s >= 0]) > 120]
    return f, d[0]


def opcode_enum(P):
    for e in P.enums.values():
        if 'aastore' in e and 'wide' in e:
            return e
    raise AnalysisBroken('the opcode table was not found')


def case_blocks(f, d):
    out = {}
    for s in f.b[d]['s']:
        if s >= 0 and f.b[s].get('case') is not None:
            for v in absint.as_list(f.b[s]['case']):
                out[v] = s
    return out


def fetch_block(f, d):
    """the block in which the next opcode is fetched: the dispatch block or a block that dominates it, back to a loop head"""
    # every handler returns to the block from which the dispatch is reached after a fetch: the earliest block on the chain of single
    # successors/predecessors that leads to the dispatch and is entered from more than one handler
    seen, b = set(), d
    while b not in seen:
        seen.add(b)
        ps = [p for p in f.pred[b]]
        if len(ps) > 20:
            return b
        # join points of the debug printing in between
        dom = common_pred(f, b)
        if dom is None:
            return b
        b = dom
    return d


def common_pred(f, b):
    """immediate dominator of b, by intersection over a simple dominator computation"""
    if not hasattr(f, 'T'):
        return None
    dom = doms(f)
    c = [x for x in dom.get(b, ()) if x != b]
    return max(c, key=lambda x: len(dom[x])) if c else None


_dom = {}


def doms(f):
    r = _dom.get(f.m)
    if r is None:
        order, seen, st = [], set(), [(f.entry, iter(f.succ(f.entry)))]
        seen.add(f.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(f.succ(s))))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        dom = {f.entry: {f.entry}}
        ch = True
        while ch:
            ch = False
            for b in order:
                if b == f.entry:
                    continue
                ps = [dom[p] for p in f.pred[b] if p in dom]
                new = set.intersection(*ps) | {b} if ps else {b}
                if dom.get(b) != new:
                    dom[b] = new
                    ch = True
        _dom[f.m] = r = dom
    return r


# ---- the table ---------------------------------------------------------------

def bop(op, t, a='s1', b='s0'):
    return mkop(op, t, A(a, t), A(b, t))


def be16(k, signed):
    t = mkop('|', I32, mkop('<<', I32, mkcast(I32, A('b%d' % k, ('u', 8)), ('u', 8)), ('c', 8)), mkcast(I32, A('b%d' % (k + 1), ('u', 8)), ('u', 8)))
    return mkcast(('i' if signed else 'u', 16), t, I32), ('i' if signed else 'u', 16)


def be32(k, at=False):
    p = 'b@%d' if at else 'b%d'
    b = [mkcast(I32, A(p % (k + j), ('u', 8)), ('u', 8)) for j in range(4)]
    t = mkop('|', I32, mkop('|', I32, mkop('|', I32, mkop('<<', I32, b[0], ('c', 24)), mkop('<<', I32, b[1], ('c', 16))),
                            mkop('<<', I32, b[2], ('c', 8))), b[3])
    return t


def ival(t, fr=I32):
    return norm(mkcast(U32, t, fr), 32)


class Exp:
    """expected outcome of one scenario"""

    def __init__(self, pop=0, push=(), kinds='', throws=None, ip=None, loc=None, eff=None, kind='dispatch', alt=None, framepop=None, ret=None, never=(),
                 allow_throw=False, pushany=False):
        self.pop, self.push, self.kinds, self.throws, self.ip, self.loc, self.eff, self.kind = pop, list(push), kinds, throws, ip, loc, eff, kind
        self.pool, self.safepoint = None, False
        self.alt, self.framepop, self.ret, self.never, self.allow_throw, self.pushany = alt, framepop, ret, never, allow_throw, pushany


def J(t):
    n = norm(t, 64)
    if n[0] == 't':
        n = n[2]
    return [('hi', n), ('lo', n)]


def D(t):
    n = normx(t)
    return [('hi', n), ('lo', n)]


def mask(a, m):
    return mkop('&', I32, A(a, U32), ('c', m))


def table():
    """opcode name -> (instruction length or None, [(scenario, assumptions, Exp)])"""
    T = {}

    def op(names, length, *scen):
        for nm in names.split():
            T[nm] = (length, list(scen))

    def simple(names, length, **k):
        op(names, length, ('always', {}, Exp(**k)))

    s0, s1 = A('s0'), A('s1')
    f0, f1, d0, d2 = A('s0', F32), A('s1', F32), A('j0', F64), A('j2', F64)
    j0, j2, j1 = A('j0', U64), A('j2', U64), A('j1', U64)
    simple('nop', 1)
    simple('aconst_null', 1, push=[('c', 0)])
    for k in range(-1, 6):
        simple('iconst_m1' if k < 0 else 'iconst_%d' % k, 1, push=[('c', k & 0xffffffff)])
    for k in (0, 1):
        simple('lconst_%d' % k, 1, push=[('hi', ('c', k)), ('lo', ('c', k))])
    simple('bipush', 2, push=[norm(mkcast(I32, mkcast(('i', 8), A('b1', ('u', 8)), ('u', 8)), ('i', 8)), 32)])
    t, tt = be16(1, True)
    simple('sipush', 3, push=[norm(mkcast(I32, t, tt), 32)])
    # locals
    for p, kind, n in (('i', 'I', 1), ('f', 'I', 1), ('a', 'O', 1), ('l', 'J', 2), ('d', 'J', 2)):
        for k in (None, 0, 1, 2, 3):
            ix = 'zext8(b1)' if k is None else str(k)
            nm = '%sload%s' % (p, '' if k is None else '_%d' % k)
            v = ('a', 'L[%s]%s' % (ix, kind))
            simple(nm, 2 if k is None else 1, push=[v] if n == 1 else [('hi', v), ('lo', v)])
            nm = '%sstore%s' % (p, '' if k is None else '_%d' % k)
            if p != 'a':
                simple(nm, 2 if k is None else 1, pop=n, kinds='I' * n, loc=[(kind, ix, ('a', 's0' if n == 1 else 'j0'))])
            else:
                T[nm] = (2 if k is None else 1, [('always', {}, Exp(pop=1, loc=[('*', ix, ('a', 's0'))]))])
    # integer arithmetic
    for nm, o, t in (('add', '+', I32), ('sub', '-', I32), ('mul', '*', I32), ('and', '&', I32), ('or', '|', I32), ('xor', '^', I32)):
        simple('i' + nm, 1, pop=2, kinds='II', push=[norm(bop(o, U32), 32)])
        simple('l' + nm, 1, pop=4, kinds='IIII', push=J(bop(o, U64, 'j2', 'j0')))
    simple('ineg', 1, pop=1, kinds='I', push=[norm(('un', '-', I32, s0), 32)])
    simple('lneg', 1, pop=2, kinds='II', push=J(('un', '-', I64, j0)))
    for nm, o, t in (('shl', '<<', 'i'), ('shr', '>>', 'i'), ('ushr', '>>', 'u')):
        simple('i' + nm, 1, pop=2, kinds='II', push=[norm(mkop(o, (t, 32), A('s1', (t, 32)), mask('s0', 31)), 32)])
        simple('l' + nm, 1, pop=3, kinds='III', push=J(mkop(o, (t, 64), A('j1', (t, 64)), mask('s0', 63))))
    for nm, o in (('div', '/'), ('rem', '%')):
        op('i' + nm, 1,
           ('the divisor is zero', {'s0': 0, 's1': 7}, Exp(throws='ArithmeticException')),
           ('the divisor is an ordinary value', {'s0': 3, 's1': 7}, Exp(pop=2, kinds='II', push=[norm(mkop(o, I32, A('s1', I32), A('s0', I32)), 32)])),
           ('the divisor is negative', {'s0': -3, 's1': 7}, Exp(pop=2, kinds='II', push=[norm(mkop(o, I32, A('s1', I32), A('s0', I32)), 32)])),
           ('the divisor is -1', {'s0': -1, 's1': -(1 << 31)}, Exp(pop=2, kinds='II', push=[norm(('un', '-', I32, s1), 32) if o == '/' else ('c', 0)],
                                                                  alt=[[('a', 's1')] if o == '/' else [('c', 0)], [('c', 1 << 31)] if o == '/' else [('c', 0)]])))
        op('l' + nm + ('_' if nm == 'div' else ''), 1,
           ('the divisor is zero', {'j0': 0, 'j2': 7}, Exp(throws='ArithmeticException')),
           ('the divisor is an ordinary value', {'j0': 3, 'j2': 7}, Exp(pop=4, kinds='IIII', push=J(mkop(o, I64, A('j2', I64), A('j0', I64))))),
           ('the divisor is negative', {'j0': -3, 'j2': 7}, Exp(pop=4, kinds='IIII', push=J(mkop(o, I64, A('j2', I64), A('j0', I64))))),
           ('the divisor is -1', {'j0': -1, 'j2': -(1 << 63)}, Exp(pop=4, kinds='IIII', push=J(('un', '-', I64, j2)) if o == '/' else [('hi', ('c', 0)), ('lo', ('c', 0))],
                                                                  alt=[[('hi', ('a', 'j2')), ('lo', ('a', 'j2'))], [('hi', ('c', 1 << 63)), ('lo', ('c', 1 << 63))]] if o == '/' else None)))
    b1 = mkcast(I32, mkcast(('i', 8), A('b2', ('u', 8)), ('u', 8)), ('i', 8))
    simple('iinc', 3, loc=[('I', 'zext8(b1)', mkop('+', U32, A('L[zext8(b1)]I'), mkcast(U32, b1, I32)))])
    # floating point
    for nm, o in (('add', '+'), ('sub', '-'), ('mul', '*'), ('div', '/')):
        simple('f' + nm, 1, pop=2, kinds='II', push=[normx(mkop(o, F32, f1, f0))])
        simple('d' + nm, 1, pop=4, kinds='IIII', push=D(mkop(o, F64, d2, d0)))
    simple('fneg', 1, pop=1, kinds='I', push=[normx(('un', '-', F32, f0))])
    simple('dneg', 1, pop=2, kinds='II', push=D(('un', '-', F64, d0)))
    T['frem'] = (1, [('always', {}, Exp(pop=2, kinds='II', pushany='fmod'))])
    T['drem'] = (1, [('always', {}, Exp(pop=4, kinds='IIII', pushany='fmod'))])
    for k in (0, 1, 2):
        T['fconst_%d' % k] = (1, [('always', {}, Exp(push=[('c', k)], alt=[[('fc', float(k))]]))])
    for k in (0, 1):
        T['dconst_%d' % k] = (1, [('always', {}, Exp(push=[('hi', ('c', k)), ('lo', ('c', k))], alt=[[('hi', ('fc', float(k))), ('lo', ('fc', float(k)))]]))])
    # conversions
    simple('i2l', 1, pop=1, kinds='I', push=J(mkcast(I64, A('s0', I32), I32)))
    simple('i2b', 1, pop=1, kinds='I', push=[norm(mkcast(I32, mkcast(('i', 8), s0, U32), ('i', 8)), 32)])
    simple('i2c', 1, pop=1, kinds='I', push=[norm(mkcast(I32, mkcast(('u', 16), s0, U32), ('u', 16)), 32)])
    simple('i2s', 1, pop=1, kinds='I', push=[norm(mkcast(I32, mkcast(('i', 16), s0, U32), ('i', 16)), 32)])
    simple('l2i', 1, pop=2, kinds='II', push=[norm(j0, 32)])
    simple('i2f', 1, pop=1, kinds='I', push=[normx(mkcast(F32, A('s0', I32), I32))])
    simple('i2d', 1, pop=1, kinds='I', push=D(mkcast(F64, A('s0', I32), I32)))
    simple('l2f', 1, pop=2, kinds='II', push=[normx(mkcast(F32, A('j0', I64), I64))])
    simple('l2d', 1, pop=2, kinds='II', push=D(mkcast(F64, A('j0', I64), I64)))
    simple('f2d', 1, pop=1, kinds='I', push=D(mkcast(F64, f0, F32)))
    simple('d2f', 1, pop=2, kinds='II', push=[normx(mkcast(F32, d0, F64))])
    inf = float('inf')
    for nm, a, fr, to, w in (('f2i', f0, F32, I32, 32), ('f2l', f0, F32, I64, 64), ('d2i', d0, F64, I32, 32), ('d2l', d0, F64, I64, 64)):
        pn = 1 if fr == F32 else 2
        mk = (lambda t: [norm(t, 32)]) if w == 32 else J
        hi, lo = (1 << (w - 1)) - 1, -(1 << (w - 1))
        ex = lambda t: Exp(pop=pn, kinds='I' * pn, push=mk(t))
        op(nm, 1,
           ('the value is NaN', {a[1]: float('nan')}, ex(('c', 0))),
           ('the value is positive infinity', {a[1]: inf}, ex(('c', hi))),
           ('the value is negative infinity', {a[1]: -inf}, ex(('c', lo))),
           ('the value is larger than the largest integer', {a[1]: 1e30}, ex(('c', hi))),
           ('the value is smaller than the smallest integer', {a[1]: -1e30}, ex(('c', lo))),
           ('the value is in range', {a[1]: 1.5}, ex(mkcast(to, a, fr))),
           ('the value is negative and in range', {a[1]: -1.5}, ex(mkcast(to, a, fr))))
    # comparisons
    one, zero, neg = ('c', 1), ('c', 0), ('c', 0xffffffff)
    op('lcmp', 1, *[(d, {'j2': x, 'j0': y}, Exp(pop=4, kinds='IIII', push=[r])) for d, x, y, r in
                    (('the first is greater', 5, -3, one), ('both are equal', 5, 5, zero), ('the first is less', -3, 5, neg))])
    for nm, a, b, pn, nan in (('fcmpg', 's1', 's0', 2, one), ('fcmpl', 's1', 's0', 2, neg), ('dcmpg', 'j2', 'j0', 4, one), ('dcmpl', 'j2', 'j0', 4, neg)):
        n = float('nan')
        op(nm, 1, *[(d, {a: x, b: y}, Exp(pop=pn, kinds='I' * pn, push=[r])) for d, x, y, r in
                    (('the first is greater', 5., 2., one), ('both are equal', 5., 5., zero), ('the first is less', 2., 5., neg),
                     ('the first is NaN', n, 2., nan), ('the second is NaN', 2., n, nan), ('both are NaN', n, n, nan))])
    # stack
    for nm, pop, push in (('pop_', 1, ''), ('pop2', 2, ''), ('dup', 1, '00'), ('dup_x1', 2, '010'), ('dup_x2', 3, '0210'), ('dup2', 2, '1010'),
                          ('dup2_x1', 3, '10210'), ('dup2_x2', 4, '103210'), ('swap', 2, '01')):
        T[nm] = (1, [('always', {}, Exp(pop=pop, push=[('a', 's' + c) for c in push]))])
    # branches
    t, tt = be16(1, True)
    tgt = norm(mkop('+', U32, A('ip'), mkcast(U32, t, tt)), 32)
    nxt = norm(mkop('+', U32, A('ip'), ('c', 3)), 32)
    rel_ = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'lt': lambda a, b: a < b, 'ge': lambda a, b: a >= b, 'gt': lambda a, b: a > b, 'le': lambda a, b: a <= b}
    for r, fnc in rel_.items():
        op('if' + r, None, *[('the value is %d' % x, {'s0': x}, Exp(pop=1, kinds='I', ip=tgt if fnc(x, 0) else nxt)) for x in (-5, 0, 5)])
        op('if_icmp' + r, None, *[('the values are %d and %d' % (x, y), {'s1': x, 's0': y}, Exp(pop=2, kinds='II', ip=tgt if fnc(x, y) else nxt))
                                  for x, y in ((-5, 3), (3, 3), (3, -5))])
    for r in ('eq', 'ne'):
        op('if_acmp' + r, None, *[('the references %s' % ('are the same' if x == y else 'differ'), {'s1': x, 's0': y}, Exp(pop=2, kinds='OO', ip=tgt if (x == y) == (r == 'eq') else nxt))
                                  for x, y in ((1, 1), (1, 2))])
    op('ifnull', None, ('the reference is null', {'s0': 0}, Exp(pop=1, kinds='O', ip=tgt)), ('the reference is not null', {'s0': 1}, Exp(pop=1, kinds='O', ip=nxt)))
    op('ifnonnull', None, ('the reference is null', {'s0': 0}, Exp(pop=1, kinds='O', ip=nxt)), ('the reference is not null', {'s0': 1}, Exp(pop=1, kinds='O', ip=tgt)))
    op('goto_', None, ('always', {}, Exp(ip=tgt)))
    w32 = be32(1)
    wt = norm(mkop('+', U32, A('ip'), mkcast(U32, w32, I32)), 32)
    op('goto_w', None, ('always', {}, Exp(ip=wt)))
    op('jsr', None, ('always', {}, Exp(ip=tgt, push=[nxt])))
    op('jsr_w', None, ('always', {}, Exp(ip=wt, push=[norm(mkop('+', U32, A('ip'), ('c', 5)), 32)])))
    op('ret', None, ('always', {}, Exp(ip=('a', 'L[zext8(b1)]I'))))
    # arrays
    NPE, AIOOBE = 'NullPointerException', 'ArrayIndexOutOfBoundsException'
    for nm, arr, et in (('iaload', ('GcIntArray',), ('i', 32)), ('faload', ('GcFloatArray',), ('i', 32)), ('laload', ('GcLongArray',), ('i', 64)),
                        ('daload', ('GcDoubleArray',), ('i', 64)), ('baload', ('GcByteArray', 'GcBooleanArray'), ('i', 8)),
                        ('caload', ('GcCharArray',), ('u', 16)), ('saload', ('GcShortArray',), ('i', 16)), ('aaload', ('GcObjectArray',), PTR)):
        base = {'__array': 1}
        sc = [('the array is null', {'s1': 0, 's0': 0}, Exp(throws=NPE))]
        for d, i in (('the index is negative', -1), ('the index equals the length', 4), ('the index is beyond the length', 9)):
            sc.append((d, {'s1': 1, 's0': i, 'len(s1)': 4}, Exp(throws=AIOOBE)))
        sc.append(('the array is empty', {'s1': 1, 's0': 0, 'len(s1)': 0}, Exp(throws=AIOOBE)))
        for d, i in (('the index is zero', 0), ('the index is the last', 3)):
            sc.append((d, {'s1': 1, 's0': i, 'len(s1)': 4}, Exp(pop=2, kinds='IO', pushany=('elem', arr, et))))
        op(nm, 1, *[(a, dict(b, **base), c) for a, b, c in sc])
    for nm, arr, et, w in (('iastore', ('GcIntArray',), ('i', 32), 1), ('fastore', ('GcFloatArray',), ('i', 32), 1), ('lastore', ('GcLongArray',), ('i', 64), 2),
                           ('dastore', ('GcDoubleArray',), ('i', 64), 2), ('bastore', ('GcByteArray', 'GcBooleanArray'), ('i', 8), 1),
                           ('castore', ('GcCharArray',), ('u', 16), 1), ('sastore', ('GcShortArray',), ('i', 16), 1), ('aastore', ('GcObjectArray',), PTR, 1)):
        ai, ii = ('s2', 's1') if w == 1 else ('s3', 's2')
        base = {'__array': 1}
        if et == PTR:
            base['__store'] = 1
        sc = [('the array is null', {ai: 0, ii: 0}, Exp(throws=NPE))]
        for d, i in (('the index is negative', -1), ('the index equals the length', 4), ('the index is beyond the length', 9)):
            sc.append((d, {ai: 1, ii: i, 'len(%s)' % ai: 4}, Exp(throws=AIOOBE)))
        sc.append(('the array is empty', {ai: 1, ii: 0, 'len(%s)' % ai: 0}, Exp(throws=AIOOBE)))
        for d, i in (('the index is zero', 0), ('the index is the last', 3)):
            sc.append((d, {ai: 1, ii: i, 'len(%s)' % ai: 4}, Exp(pop=2 + w, kinds=('O' if et == PTR else 'I' * w) + 'IO', eff=('storeelem', arr, et, ai, ii, 's0' if w == 1 else 'j0'))))
        op(nm, 1, *[(a, dict(b, **base), c) for a, b, c in sc])
    op('arraylength', 1, ('the array is null', {'s0': 0, '__array': 1}, Exp(throws=NPE)),
       ('the array is not null', {'s0': 1, '__array': 1}, Exp(pop=1, kinds='O', push=[('low', 32, ('a', 'len(s0)'))])))
    op('newarray', 2, ('the count is negative', {'s0': -1}, Exp(throws='NegativeArraySizeException')),
       *[('the element type is %s' % n, {'s0': 3, 'b1': c}, Exp(pop=1, kinds='I', pushany=('call', 'make%sArray' % n, 's0'))) for n, c in
         (('Boolean', 4), ('Char', 5), ('Float', 6), ('Double', 7), ('Byte', 8), ('Short', 9), ('Int', 10), ('Long', 11))])
    op('anewarray', 3, ('the count is negative', {'s0': -1}, Exp(throws='NegativeArraySizeException')),
       ('the count is zero', {'s0': 0}, Exp(pop=1, kinds='I', pushany=('call', 'makeObjectArray', 's0'))),
       ('the count is positive', {'s0': 3}, Exp(pop=1, kinds='I', pushany=('call', 'makeObjectArray', 's0'))))
    op('new_', 3, ('always', {}, Exp(pop=0, pushany=('call', 'make', None), never=())))
    # objects
    op('checkcast', 3, ('the reference is null', {'s0': 0}, Exp()),
       ('the object is an instance', {'s0': 1, 'instanceOf': 1}, Exp()),
       ('the object is not an instance', {'s0': 1, 'instanceOf': 0}, Exp(throws='ClassCastException')))
    op('instanceof', 3, ('the reference is null', {'s0': 0}, Exp(pop=1, kinds='O', push=[zero])),
       ('the object is an instance', {'s0': 1, 'instanceOf': 1}, Exp(pop=1, kinds='O', push=[one])),
       ('the object is not an instance', {'s0': 1, 'instanceOf': 0}, Exp(pop=1, kinds='O', push=[zero])))
    op('monitorenter', 1, ('the reference is null', {'s0': 0}, Exp(throws=NPE)),
       ('the reference is not null', {'s0': 1}, Exp(pop=1, kinds='O', eff=('acquire', ('a', 's0')))))
    op('monitorexit', 1, ('the reference is null', {'s0': 0}, Exp(throws=NPE)),
       ('the reference is not null', {'s0': 1}, Exp(pop=1, kinds='O', eff=('release', ('a', 's0')))))
    op('athrow', None, ('the reference is null', {'s0': 0}, Exp(throws=NPE)),
       ('the reference is not null', {'s0': 1}, Exp(throws=('a', 's0'))))
    i8 = norm(mkop('+', U32, mkcast(U32, A('b1', ('u', 8)), ('u', 8)), ('c', -1)), 32)
    i16 = norm(mkop('+', U32, mkcast(U32, be16(1, False)[0], ('u', 16)), ('c', -1)), 32)
    op('ldc', 2, ('always', {}, Exp(pushany=('pool', i8, 1))))
    op('ldc_w', 3, ('always', {}, Exp(pushany=('pool', i16, 1))))
    op('ldc2_w', 3, ('always', {}, Exp(pushany=('pool', i16, 2))))
    for nm, n in (('invokevirtual', 3), ('invokespecial', 3), ('invokestatic', 3), ('invokeinterface', 5)):
        sc = []
        if nm != 'invokestatic':
            sc.append(('the receiver is null', {'receiver': 0}, Exp(throws=NPE)))
        for d, fl in (('the method is native', 0x100), ('the method is not native', 0)):
            for sp in ((0, 1) if nm == 'invokespecial' else (0,)):
                sc.append(((d + (', super call' if sp else '')), {'receiver': 1, 'methodflags': fl | (8 if nm == 'invokestatic' else 0), 'special': sp}, Exp(eff=('invoke', nm, fl, sp))))
        op(nm, n, *sc)
    return T


POOL = ('getfield', 'putfield', 'getstatic', 'putstatic', 'new_', 'anewarray', 'checkcast', 'instanceof', 'invokevirtual', 'invokespecial', 'invokestatic', 'invokeinterface')


FIELDS = (('ByteField', ('i', 8), 1), ('BooleanField', ('i', 8), 1), ('CharField', ('u', 16), 1), ('ShortField', ('i', 16), 1), ('IntField', ('i', 32), 1),
          ('FloatField', ('i', 32), 1), ('LongField', ('i', 64), 2), ('DoubleField', ('i', 64), 2), ('ObjectField', PTR, 1))


def fields(P):
    codes = next((e for e in P.enums.values() if 'ObjectField' in e and 'ByteField' in e), None)
    if codes is None:
        raise AnalysisBroken('the field type codes were not found')
    T = {'getfield': (3, []), 'putfield': (3, []), 'getstatic': (3, []), 'putstatic': (3, [])}
    NPE = 'NullPointerException'
    for nm, et, w in FIELDS:
        v = {'fieldcode': codes[nm]}
        T['getfield'][1].append(('the object is null, %s' % nm, dict(v, s0=0), Exp(throws=NPE)))
        T['getfield'][1].append((nm, dict(v, s0=1), Exp(pop=1, kinds='O', pushany=('fld', et, 's0'))))
        T['getstatic'][1].append((nm, dict(v), Exp(pop=0, pushany=('fld', et, None))))
        o = 's1' if w == 1 else 's2'
        k = 'O' if nm == 'ObjectField' else 'I' * w
        T['putfield'][1].append(('the object is null, %s' % nm, {**v, o: 0}, Exp(throws=NPE)))
        T['putfield'][1].append((nm, {**v, o: 1}, Exp(pop=1 + w, kinds=k + 'O', eff=('setfld', et, o, 's0' if w == 1 else 'j0'))))
        T['putstatic'][1].append((nm, dict(v), Exp(pop=w, kinds=k, eff=('setfld', et, None, 's0' if w == 1 else 'j0'))))
    return T


def returns():
    T = {}
    for nm, w, k, mk in (('ireturn', 1, 'I', 'makeInt'), ('freturn', 1, 'I', 'makeInt'), ('areturn', 1, 'O', None), ('lreturn', 2, 'II', 'makeLong'), ('dreturn', 2, 'II', 'makeLong'),
                         ('return_', 0, '', None)):
        v = [] if w == 0 else [('a', 's0')] if w == 1 else [('hi', ('a', 'j0')), ('lo', ('a', 'j0'))]
        T[nm] = (None, [('the caller is interpreted', {'frame': 9, 'base': 3}, Exp(framepop=1, push=v, kinds=k)),
                        ('the method was called from outside', {'frame': 3, 'base': 3}, Exp(kind='return', kinds=k, ret=(mk, w)))])
    return T


def check(res, tier):
    res.rule('Each interpreter handler, evaluated abstractly from its opcode to the next dispatch under every listed class of operand values, takes the '
             'operands the JVM specification lists (count, kind), leaves exactly the specified result (operation, operand order, width, signedness, '
             'conversion), moves the instruction pointer past the operands or to the branch target, and throws exactly where the specification says.')
    P = prog.world('interpret')
    f, d = dispatcher(P)
    ops = opcode_enum(P)
    cases = case_blocks(f, d)
    head = fetch_block(f, d)
    T = table()
    T.update(fields(P))
    T.update(returns())
    nxt = norm(mkop('+', U32, A('ip'), ('c', 3)), 32)
    for nm, (length, scen) in T.items():
        if nm.startswith(('if', 'goto')):
            for _, _, e in scen:
                e.safepoint = e.ip != nxt
        if nm in POOL:
            for sn, _, e in scen:
                if e.throws is None and sn != 'the reference is null':
                    e.pool = norm(mkop('+', U32, mkcast(U32, be16(1, False)[0], ('u', 16)), ('c', -1)), 32)
    missing = []
    for nm, (length, scen) in sorted(T.items()):
        code = ops.get(nm)
        if code is None:
            raise AnalysisBroken('opcode %s is not in the opcode table' % nm)
        b = cases.get(code)
        if b is None:
            res.bad('interp|%s|missing' % nm, rel(f.file), f.l, f.n, 'no handler for the opcode ' + nm)
            continue
        line = first_line(f, b)
        for name, val, ex in scen:
            res.count('bytecode cases evaluated', floor=300)
            run_case(res, P, f, d, head, nm, b, line, length, name, val, ex)
        res.count('bytecodes compared with the specification', floor=150)
    catch(res, P, f, d, head, ops, cases)
    handlers(res, P, f)
    helpers(res, P)
    results(res, P, f, d)
    switches(res, P, f, d, head, ops, cases)
    wide(res, P, f, d, head, ops, cases)


def catch(res, P, f, d, head, ops, cases):
    """entering an exception handler"""
    b = cases.get(ops['athrow'])
    m, outs = evaluate(P, f, d, head, b, {'__op': ops['athrow'], 's0': 1, '__handler': 1, 'handler': 5})
    n = 0
    for o in outs:
        if o.kind != 'dispatch':
            continue
        n += 1
        say = lambda w: res.bad('interp|catch', rel(f.file), first_line(f, b), 'exception handling of the interpreter', w)
        if o.push != [('a', 's0')] or o.framepop != 1:
            say('a handler must start with just the exception on the operand stack but ' + describe(o))
        if 'exceptionHandlerIp' not in repr(o.ip):
            say('does not continue at the handler: ' + show(o.ip))
        if o.throws is not None:
            say('leaves the exception pending while the handler runs')
    if n:
        res.count('handler entries evaluated')


def facts(dec):
    """relations a < b and a <= b that the branch decisions of a path established"""
    out = set()
    for t, v in dec.items():
        n = normx(t)
        neg = not v
        while n[0] in ('!', 'bool'):
            neg ^= n[0] == '!'
            n = n[1]
        if n[0] == 'cmp' and n[1] in ('<', '<='):
            a, b = n[3], n[4]
            out.add(({'<': '<=', '<=': '<'}[n[1]], b, a) if neg else (n[1], a, b))
        else:
            out.add(('not' if neg else 'is', n, None))
    return out


def handlers(res, P, f0):
    """the handler chosen is one whose range contains the throwing instruction and whose type matches"""
    class M(Model):
        max_visits = 3
        max_paths = 2000

        def call(self, ev, st, f, i, fn, a):
            last = fn.split('::')[-1]
            c = f.x[i].get('c', ())
            L = lambda k: ev.load(f, c[k], st, a[k]) if a[k][0] == 'lv' else a[k]
            if last.startswith('exceptionHandler') and len(a) == 1:
                return ('h', last[16:], normx(L(0)))
            if last == 'exceptionMatch':
                return ('match', normx(L(len(a) - 1)))
            if last == 'cast':
                return L(len(a) - 1)
            if last in ('length', 'body', 'code', 'exceptionHandlerTable', 'resolveClassInPool'):
                return ('m', last, normx(L(len(a) - 1)))
            if last == 'operator[]':
                return ('entry', normx(L(1)))
            return None
    for g in P.funcs.values():
        if g.file == f0.file and g.n.split('::')[-1] == 'findExceptionHandler' and len(g.params) == 3 and g.b:
            try:
                outs = Eval(P, M()).run(g, [A('t', PTR), A('method', PTR), A('ip')])
            except TooComplex:
                continue
            at = norm(mkop('-', U32, A('ip'), ('c', 1)), 32)
            for st, kind, v in outs:
                if kind != 'return' or v is None:
                    continue
                res.count('exception table paths evaluated')
                fs = facts(st.dec)
                hs = {x for fct in fs for x in subterms(fct) if x[0] == 'h'}
                ent = {x[2] for x in hs}
                ok = set()
                for e in ent:
                    lo = any(r == '<=' and peel(b) == at and has(a, ('h', 'Start', e)) for r, a, b in fs)
                    hi = any(r == '<' and peel(a) == at and has(b, ('h', 'End', e)) for r, a, b in fs if b is not None)
                    if lo and hi:
                        ok.add(e)
                # the last match decision on the path belongs to the entry examined last
                match = [(t, x) for t, x in st.dec.items() if 'match' in repr(t)]
                say = lambda w: res.bad('interp|findExceptionHandler', rel(g.file), g.l, g.n, w)
                if v != ('c', 0):
                    e = [x for x in ent if has(normx(v), x)]
                    if not ok & set(e):
                        say('returns a handler whose range was not found to contain the instruction at ip - 1')
                    elif not any(x for _, x in match):
                        say('returns a handler without having found that its type matches')


def results(res, P, f0, d):
    """the result of a native method is pushed as its return type says"""
    codes = next((e for e in P.enums.values() if 'ObjectField' in e and 'ByteField' in e), {})
    for g in P.funcs.values():
        if g.file != f0.file or g.n.split('::')[-1] != 'pushResult' or len(g.params) != 4:
            continue
        x = A('result', U64)
        word = lambda t: norm(mkcast(U32, mkcast(t, x, U64), t), 32)
        for nm, want in (('ByteField', [word(('i', 8))]), ('BooleanField', [word(('i', 8))]), ('CharField', [word(('u', 16))]), ('ShortField', [word(('i', 16))]),
                         ('IntField', [norm(x, 32)]), ('FloatField', [norm(x, 32)]), ('LongField', J(x)), ('DoubleField', J(x)), ('VoidField', [])):
            m = Interp(P, f0, d, {}, {})
            st = St()
            m.init(st)
            for s2, kind, _ in Eval(P, m).run(g, [A('t', PTR), ('c', codes[nm]), x, ('c', 1)], st=st):
                if kind != 'return':
                    continue
                res.count('native result types evaluated', floor=7)
                o = Out(m, s2, 'dispatch', None)
                if not same(o.push, want) and not (nm == 'BooleanField' and same(o.push, [word(('u', 8))])):
                    res.bad('interp|pushResult|' + nm, rel(g.file), g.l, g.n, 'must push [%s] for %s but %s' % (', '.join(map(show, want)), nm, describe(o)))


def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            st.extend(x)


def has(t, x):
    return any(y == x for y in subterms(t))


def first_line(f, b):
    seen = set()
    while b not in seen:
        seen.add(b)
        ls = [f.line(e) for e in f.b[b]['e'] if isinstance(e, int)]
        if ls:
            return min(ls)
        s = f.succ(b)
        if not s:
            break
        b = s[0]
    return f.l


def evaluate(P, f, d, head, b, val):
    val = dict({'frame': 9, 'base': 3}, **val)
    m = Interp(P, f, d, val, {head: 'dispatch', d: 'dispatch'})
    ev = Eval(P, m)
    st = St()
    m.init(st)
    fid = ev.fid = 1
    # reference variables of the interpreter loop alias thread fields
    for e in range(len(f.x)):
        n = f.x[e]
        if n['k'] == 'Decl':
            for v, init in n['vars']:
                if '&' in f.vars[v][1] and init >= 0:
                    j = f.strip(init)
                    if f.x[j]['k'] == 'Mem' and 'f' not in f.x[j]:
                        st.env[('alias', fid, v)] = ('lv', 'mem', A('t', PTR), f.x[j]['d'].split('::')[-1])
                elif init >= 0 and f.x[f.strip(init)]['k'] == 'Mem' and f.x[f.strip(init)]['d'].endswith('::stack'):
                    st.env[(fid, v)] = ('stackbase',)
    for k, p in enumerate(f.params):
        st.env[(fid, p)] = A(f.vars[p][0], ty(f.vars[p][1]))
    if '__op' in val:
        for v, (nm, t, kk, ln) in enumerate(f.vars):
            if v in dispatch_vars(f, d):
                st.env[(fid, v)] = ('c', val['__op'])
    outs = ev.run(f, start=b, st=st, fid=fid)
    return m, [Out(m, s, k, v) for s, k, v in outs]


def dispatch_vars(f, d):
    tc = f.b[d]['tc']
    return {f.x[j]['v'] for j in f.sub(tc) if f.x[j]['k'] == 'Ref' and f.x[j].get('dk') == 'v'}


def run_case(res, P, f, d, head, nm, b, line, length, name, val, ex):
    ops = opcode_enum(P)
    v = dict(val)
    v['__op'] = ops[nm]
    try:
        m, outs = evaluate(P, f, d, head, b, v)
    except TooComplex:
        res.count('cases too complex to evaluate')
        return
    where = '%s of the interpreter' % nm.rstrip('_')

    def bad(key, text):
        res.bad('interp|%s|%s' % (nm, key), rel(f.file), line, where, '%s: %s' % (name if name != 'always' else 'always', text))

    real = [o for o in outs if o.kind != 'abort' and not (o.kind == 'throw' and o.throws is None)]
    real = [o for o in real if not any(k == 'pendingexc' for k, *_ in o.eff)]
    if not real:
        if outs:
            bad(name, 'aborts' if any(o.kind == 'abort' for o in outs) else 'reaches neither a result nor an exception')
        return
    for o in real:
        if o.kind == 'loop':
            continue
        if ex.throws is not None:
            if o.kind != 'throw':
                bad(name, 'must throw %s but %s' % (ex.throws if isinstance(ex.throws, str) else show(ex.throws), describe(o)))
            elif o.throws != ex.throws:
                bad(name, 'must throw %s but %s' % (ex.throws if isinstance(ex.throws, str) else show(ex.throws), describe(o)))
            continue
        if o.kind == 'throw':
            if isinstance(o.throws, str):
                bad(name, 'throws %s where the specification has a result' % o.throws)
            continue
        compare(bad, P, m, name, o, ex, length, nm)


def compare(bad, P, m, name, o, ex, length, nm):
    if ex.kind == 'return':
        if o.kind != 'return':
            bad(name, 'must return from the interpreter but ' + describe(o))
            return
        mk, w = ex.ret
        v = normx(o.val) if o.val else None
        src = 's0' if w == 1 else 'j0'
        if w and (v is None or ('a', src) not in atoms(v)):
            bad(name, 'does not return the value on the stack: ' + describe(o))
        elif mk and (v[0] != 'r' or v[1].split('::')[-1] != mk):
            bad(name, 'must box the result with %s but %s' % (mk, describe(o)))
        elif not mk and w and v != ('a', src):
            bad(name, 'does not return the value on the stack unchanged: ' + describe(o))
        return
    if o.kind != 'dispatch':
        bad(name, 'does not continue with the next instruction: ' + describe(o))
        return
    if ex.framepop:
        if o.framepop != ex.framepop:
            bad(name, 'pops %d frames instead of one' % o.framepop)
        elif not same(o.push, ex.push):
            bad(name, 'must pop the frame and leave [%s] but %s' % (', '.join(map(show, ex.push)), describe(o)))
        kinds(bad, name, o, ex)
        return
    if o.framepop:
        bad(name, 'pops a frame')
        return
    net = ex.pop if ex.pushany is False else None
    if ex.pushany:
        bad_any = pushed(o, ex, m)
        if bad_any:
            bad(name, bad_any)
    else:
        want = ex.push
        # bring both to the same number of consumed words
        if not same_effect(o, ex.pop, want) and not any(same_effect(o, ex.pop, a) for a in (ex.alt or ())):
            bad(name, 'must replace the top %d words by [%s] but %s' % (ex.pop, ', '.join(map(show, want)), describe(o)))
    kinds(bad, name, o, ex)
    if ex.pool is not None and not any(e[0] == 'call' and any(contains(normx(x), ex.pool) for x in e[2]) for e in o.eff):
        bad(name + '|pool', 'does not resolve the entry %s of the constant pool' % show(ex.pool))
    if ex.safepoint and ('safepoint',) not in o.eff:
        bad(name + '|safepoint', 'jumps without passing a safe point')
    # instruction pointer
    want = ex.ip
    if want is None and length:
        want = norm(mkop('+', U32, A('ip'), ('c', length)), 32)
    if want is not None and o.ip != want:
        bad(name + '|ip', 'continues at %s instead of %s' % (show(o.ip), show(want)))
    # locals
    want = ex.loc or []
    got = [(k, ix, v if k == '*' else ('a', v[1]) if v[0] == 'a' and v[2][0] == 'f' else norm(v, 32 if k != 'J' else 64) if k != 'O' else normx(v)) for k, ix, v in o.loc]
    exp = [(k, ix, (norm(v, 32 if k != 'J' else 64) if len(v) == 3 or v[0] != 'a' else v)) for k, ix, v in want]
    if len(got) != len(exp) or any(not (('*' in (e[0], g[0]) or e[0] == g[0]) and g[1] == e[1] and g[2] == e[2]) for g, e in zip(got, exp)):
        bad(name + '|locals', 'must set [%s] but sets [%s]' % (', '.join('%s = %s' % (ix, show(v)) for k, ix, v in exp), ', '.join('%s = %s (%s)' % (ix, show(v), k) for k, ix, v in got)))
    # effects
    if ex.eff:
        effects(bad, name, o, ex.eff)
    else:
        for e in o.eff:
            if e[0] in ('storeelem', 'setfield', 'acquire', 'release') or (e[0] == 'store' and e[1][0] in ('elem', 'fld')):
                bad(name + '|extra', 'also performs `%s`' % showeff(e))


def same(a, b):
    return len(a) == len(b) and all(x == y or (x[0] == 'fc' and y == ('c', x[1])) for x, y in zip(a, b))


def same_effect(o, pop, push):
    gp, gs = o.pop, list(o.push)
    ep, es = pop, list(push)
    n = max(gp, ep)
    gs = [('a', 's%d' % k) for k in range(n - 1, gp - 1, -1)] + gs
    es = [('a', 's%d' % k) for k in range(n - 1, ep - 1, -1)] + es
    return same(gs, es)


def kinds(bad, name, o, ex):
    for k, want in enumerate(ex.kinds):
        got = o.kinds.get(k)
        if got is not None and got != want:
            bad(name + '|kind%d' % k, 'takes operand %d as %s where it is %s' % (k, {'I': 'a number', 'O': 'a reference'}[got], {'I': 'a number', 'O': 'a reference'}[want]))


def atoms(t):
    out = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if len(x) >= 2 and x[0] == 'a':
                out.add(('a', x[1]))
            st.extend(x)
    return out


def pushed(o, ex, m):
    """checks of a result that is described rather than spelled out"""
    p = ex.pushany
    wide = 2 if (isinstance(p, tuple) and p[0] == 'pool' and p[2] == 2) or (isinstance(p, tuple) and p[0] in ('elem', 'fld') and p[-2 if p[0] == 'fld' else 2][1] == 64 and (p[1] if p[0] == 'fld' else p[2]) != PTR) or (p == 'fmod' and ex.pop == 4) else 1
    gp, gs = o.pop, list(o.push)
    if len(gs) - gp != wide - ex.pop:
        return 'leaves a stack of the wrong depth: ' + describe(o)
    top = gs[-wide:]
    rest = gs[:-wide]
    n = max(gp, ex.pop)
    rest = [('a', 's%d' % k) for k in range(n - 1, gp - 1, -1)] + rest
    if rest != [('a', 's%d' % k) for k in range(n - 1, ex.pop - 1, -1)]:
        return 'disturbs other stack words: ' + describe(o)
    v = top[-1]
    if wide == 2:
        if top[0][0] != 'hi' or top[1][0] != 'lo' or top[0][1] != top[1][1]:
            return 'does not leave a two-word value: ' + describe(o)
        v = top[0][1]
    if p == 'fmod':
        a, b = (('a', 'j2'), ('a', 'j0')) if ex.pop == 4 else (('a', 's1'), ('a', 's0'))
        x = v
        while x[0] == 'fcast':
            x = x[3]
        if x[0] != 'r' or x[1].split('::')[-1] not in ('fmod', 'fmodf', '__builtin_fmod'):
            return 'must leave the floating-point remainder but ' + describe(o)
        ar = [y[3] if y[0] == 'fcast' else y for y in x[3:]]
        if ar != [a, b]:
            return 'takes the remainder of %s' % ', '.join(map(show, ar))
        return None
    if p[0] == 'elem':
        e = find(v, 'elem')
        if e is None:
            return 'must load the array element but ' + describe(o)
        if e[1] not in p[1]:
            return 'loads from a %s' % e[1]
        if e[3] != ('a', 's1') or e[4] != ('a', 's0'):
            return 'loads element %s of %s' % (show(e[4]), show(e[3]))
        return width(v, e, e[2], p[2], o)
    if p[0] == 'fld':
        e = find(v, 'fld')
        if e is None:
            return 'must load the field but ' + describe(o)
        if p[2] and normx(e[2]) != ('a', p[2]):
            return 'loads a field of %s' % show(normx(e[2]))
        if p[2] is None and 'staticTable' not in repr(e[2]):
            return 'does not load from the static fields of the class: ' + show(normx(e[2]))
        if not off(e[3]):
            return 'loads at offset %s' % show(normx(e[3]))
        return width(v, e, ty(e[1]), p[1], o)
    if p[0] == 'call':
        x = v
        if x[0] == 't':
            x = x[2]
        if x[0] != 'r' or x[1].split('::')[-1] != p[1]:
            return 'must leave the result of %s but %s' % (p[1], describe(o))
        if p[2] and ('a', p[2]) not in x[3:] and not any(('a', p[2]) in atoms(y) for y in x[3:]):
            return 'does not use the count from the stack: ' + describe(o)
        return None
    if p[0] == 'pool':
        if not contains(v, p[1]):
            return 'must leave constant %s of the pool but %s' % (show(p[1]), describe(o))
        isobj = [x for t, x in o.dec.items() if t[0] == 'r' and t[1].split('::')[-1] == 'singletonIsObject']
        if isobj and isobj[0] != (o.top == 'O'):
            return 'leaves %s where the constant is %s' % (('a number', 'a reference') if isobj[0] else ('a reference', 'a number'))
        return None
    return None


def contains(t, x):
    return t == x or isinstance(t, tuple) and any(contains(y, x) for y in t)


def without(t, e):
    if t is e or t == e:
        return ('loaded',)
    return tuple(without(x, e) for x in t) if isinstance(t, tuple) else t


def off(t):
    n = normx(t)
    while n[0] in ('zext', 'sext'):
        n = n[2]
    return n == ('a', 'fieldoffset')


def find(t, k):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple) and x:
            if x[0] == k:
                return x
            st.extend(x)
    return None


def width(v, e, got, want, o):
    """is the loaded value extended as its type says?"""
    if want == PTR:
        return None if got[0] == 'p' else 'loads a reference as a %d-bit number' % got[1]
    if got[1] != want[1] or got[0] == 'f':
        return 'loads %d bits where the type has %d' % (got[1], want[1])
    # extension
    v = without(v, e)
    if want[1] < 32 and got[0] != want[0] and e[1] != 'GcBooleanArray':
        # an explicit conversion in between may repair it
        if repr(v).count("'zext', %d" % want[1]) if want[0] == 'u' else repr(v).count("'sext', %d" % want[1]):
            return None
        return '%s-extends a value that the type %s' % ('zero' if got[0] == 'u' else 'sign', 'sign-extends' if want[0] == 'i' else 'zero-extends')
    return None


def showeff(e):
    try:
        return e[0] + ' ' + ', '.join(show(normx(x)) if isinstance(x, tuple) else str(x) for x in e[1:])
    except Exception:
        return str(e)[:80]


def effects(bad, name, o, ex):
    k = ex[0]
    if k == 'invoke':
        return invoked(bad, name, o, *ex[1:])
    st = [e for e in o.eff if e[0] in ('storeelem', 'setfield', 'acquire', 'release') or (e[0] == 'store' and isinstance(e[1], tuple) and e[1][0] in ('elem', 'fld'))]
    if k in ('acquire', 'release'):
        if [e[:2] for e in st] != [(k, ex[1])]:
            bad(name + '|effect', 'must %s the monitor of %s but does: %s' % (k, show(ex[1]), '; '.join(map(showeff, st)) or 'nothing'))
        return
    if len(st) != 1:
        bad(name + '|effect', 'must store one value but does: %s' % ('; '.join(map(showeff, st)) or 'nothing'))
        return
    e = st[0]
    if k == 'storeelem':
        _, arr, et, ai, ii, src = ex
        if e[0] == 'setfield':
            if et != PTR:
                bad(name + '|effect', 'stores a reference')
                return
            want = norm(mkop('+', U32, mkop('*', U32, A(ii), ('c', 8)), ('c', 16)), 32)
            if e[1] != ('a', ai) or e[2] != want or e[3] != ('a', src):
                bad(name + '|effect', 'stores %s into %s at byte %s' % (show(e[3]), show(e[1]), show(e[2])))
            return
        if et == PTR:
            bad(name + '|effect', 'stores a reference without the write barrier')
            return
        el = e[1]
        if el[1] not in arr:
            bad(name + '|effect', 'stores into a %s' % el[1])
        elif el[3] != ('a', ai) or el[4] != ('a', ii):
            bad(name + '|effect', 'stores to element %s of %s' % (show(el[4]), show(el[3])))
        elif el[2][1] != et[1]:
            bad(name + '|effect', 'stores %d bits where an element has %d' % (el[2][1], et[1]))
        else:
            val(bad, name, e[2], et, src)
    elif k == 'setfld':
        _, et, oi, src = ex
        if e[0] == 'setfield':
            if et != PTR:
                bad(name + '|effect', 'stores a reference into a field of another type')
            elif (oi and e[1] != ('a', oi)) or (not oi and 'staticTable' not in repr(e[1])) or not off(e[2]) or e[3] != ('a', src):
                bad(name + '|effect', 'stores %s into %s at byte %s' % (show(e[3]), show(e[1]), show(e[2])))
            return
        if et == PTR:
            bad(name + '|effect', 'stores a reference without the write barrier')
            return
        fl = e[1]
        if (oi and normx(fl[2]) != ('a', oi)) or (not oi and 'staticTable' not in repr(fl[2])) or not off(fl[3]):
            bad(name + '|effect', 'stores to %s at byte %s' % (show(normx(fl[2])), show(normx(fl[3]))))
        elif ty(fl[1])[1] != et[1]:
            bad(name + '|effect', 'stores %d bits where the field has %d' % (ty(fl[1])[1], et[1]))
        else:
            val(bad, name, e[2], et, src)


def invoked(bad, name, o, nm, flags, special):
    calls = [(e[1].split('::')[-1], e[2]) for e in o.eff if e[0] == 'call']
    run = [(n, a) for n, a in calls if n in ('pushFrame', 'invokeNative')]
    want = 'invokeNative' if flags & 0x100 else 'pushFrame'
    if [n for n, _ in run] != [want]:
        bad(name + '|call', 'must call the method with %s but does: %s' % (want, ', '.join(n for n, _ in run) or 'nothing'))
        return
    m = normx(run[0][1][1])
    res = find2(m, 'resolveMethod')
    if res is None:
        bad(name + '|method', 'calls %s, which is not derived from the method in the constant pool' % show(m))
        return
    by = {'invokevirtual': 'findVirtualMethod', 'invokeinterface': 'findInterfaceMethod'}.get(nm, 'findVirtualMethod' if special else None)
    if by is None:
        if m != res:
            bad(name + '|method', 'must call the resolved method itself but calls %s' % show(m))
    else:
        sel = find2(m, by)
        if sel is None or sel != m:
            bad(name + '|method', 'must select the method with %s but calls %s' % (by, show(m)))
            return
        if nm == 'invokespecial':
            if 'super' not in repr(sel[5:]):
                bad(name + '|method', 'does not select from the superclass: ' + show(sel))
        elif ('a', 'receiver') not in atoms(sel):
            bad(name + '|method', 'does not select by the class of the receiver: ' + show(sel))
    if nm == 'invokestatic' and not any(n == 'initClass' and find2(normx(a[1]), 'resolveMethod') for n, a in calls):
        bad(name + '|init', 'does not initialize the class of the method')


def find2(t, name):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple) and x:
            if x[0] == 'r' and isinstance(x[1], str) and x[1].split('::')[-1] == name:
                return x
            st.extend(x)
    return None


def val(bad, name, v, et, src):
    w = et[1]
    n = normx(v) if v[0] == 'a' else norm(v, w) if v[0] != 'dbl' else normx(v[1])
    ok = (('a', src), ('low', w, ('a', src)))
    if n not in ok:
        bad(name + '|effect', 'stores %s instead of the value on the stack' % show(n))


def switches(res, P, f, d, head, ops, cases):
    """tableswitch and lookupswitch, for each alignment of the instruction"""
    for nm in ('tableswitch', 'lookupswitch'):
        b = cases.get(ops[nm])
        if b is None:
            res.bad('interp|%s|missing' % nm, rel(f.file), f.l, f.n, 'no handler for the opcode ' + nm)
            continue
        line = first_line(f, b)

        def bad(key, text):
            res.bad('interp|%s|%s' % (nm, key), rel(f.file), line, '%s of the interpreter' % nm, text)
        for ip in (100, 101, 102, 103):
            a = (ip // 4 + 1) * 4
            word = lambda at, v: {'b@%d' % (at + k): (v >> (24 - 8 * k)) & 255 for k in range(4)}
            base = {'ip': ip, '__op': ops[nm]}
            base.update(word(a, 1000))
            sc = []
            if nm == 'tableswitch':
                base.update(word(a + 4, (-2) & 0xffffffff))
                base.update(word(a + 8, 1))
                for k in range(4):
                    base.update(word(a + 12 + 4 * k, 50 + k))
                for key, off in ((-3, 1000), (-2, 50), (-1, 51), (0, 52), (1, 53), (2, 1000), (-(1 << 31), 1000), ((1 << 31) - 1, 1000)):
                    sc.append((key, off))
            else:
                keys = [-7, 0, 5]
                base.update(word(a + 4, len(keys)))
                for k, x in enumerate(keys):
                    base.update(word(a + 8 + 8 * k, x & 0xffffffff))
                    base.update(word(a + 12 + 8 * k, 50 + k))
                for key, off in ((-8, 1000), (-7, 50), (-6, 1000), (0, 51), (5, 52), (6, 1000), (3, 1000)):
                    sc.append((key, off))
            for key, off in sc:
                v = dict(base)
                v['s0'] = key
                res.count('switch cases evaluated', floor=40)
                try:
                    m, outs = evaluate(P, f, d, head, b, v)
                except TooComplex:
                    continue
                for o in outs:
                    if o.kind != 'dispatch':
                        if o.kind != 'abort':
                            bad('end|%d' % key, 'key %d: %s' % (key, describe(o)))
                        continue
                    if o.pop != 1 or o.push:
                        bad('stack|%d' % key, 'key %d: %s' % (key, describe(o)))
                    got = wrap(evalc_term(o.ip, v), U32) if evalc_term(o.ip, v) is not None else None
                    if got is not None and got != ip + off:
                        bad('target|%d' % key, 'with the instruction at an offset of %d modulo 4 and key %d the next instruction is at %+d instead of %+d' % (ip % 4, key, wrap(got - ip, I32), off))


def evalc_term(n, v):
    """value of a normal form"""
    k = n[0]
    if k == 'c':
        return n[1]
    if k == 'a':
        return v.get(n[1])
    if k == 'lin':
        s = 0
        for a, b in n[1]:
            x = 1 if a == 1 else evalc_term(a, v)
            if x is None:
                return None
            s += x * b
        return s
    if k in ('sext', 'zext'):
        x = evalc_term(n[2], v)
        return None if x is None else wrap(x, ('i' if k == 'sext' else 'u', n[1]))
    if k in ('|', '&', '^'):
        a, b = evalc_term(n[1], v), evalc_term(n[2], v)
        return None if a is None or b is None else absint.FOLD[k](a, b)
    if k == '<<':
        a, b = evalc_term(n[1], v), evalc_term(n[2], v)
        return None if a is None or b is None else (a << b) & 0xffffffff
    return None


def wide(res, P, f, d, head, ops, cases):
    b = cases.get(ops['wide'])
    line = first_line(f, b)
    ix, t16 = be16(2, False)
    ix = show(norm(mkcast(U32, ix, t16), 32))
    ct, c16 = be16(4, True)
    T = {}
    for p, kind, n in (('i', 'I', 1), ('f', 'I', 1), ('a', 'O', 1), ('l', 'J', 2), ('d', 'J', 2)):
        v = ('a', 'L[%s]%s' % (ix, kind))
        T[p + 'load'] = (4, Exp(push=[v] if n == 1 else [('hi', v), ('lo', v)]))
        T[p + 'store'] = (4, Exp(pop=n, kinds='I' * n if p != 'a' else '', loc=[(kind if p != 'a' else '*', ix, ('a', 's0' if n == 1 else 'j0'))]))
    T['iinc'] = (6, Exp(loc=[('I', ix, mkop('+', U32, A('L[%s]I' % ix), mkcast(U32, ct, c16)))]))
    T['ret'] = (None, Exp(ip=('a', 'L[%s]I' % ix)))
    for nm, (length, ex) in sorted(T.items()):
        res.count('wide forms evaluated', floor=10)
        v = {'__op': ops['wide'], 'b1': ops[nm]}

        def bad(key, text, nm=nm):
            res.bad('interp|wide %s|%s' % (nm, key), rel(f.file), line, 'wide %s of the interpreter' % nm, text)
        try:
            m, outs = evaluate(P, f, d, head, b, v)
        except TooComplex:
            continue
        if all(o.kind == 'abort' for o in outs):
            bad('missing', 'the wide form aborts the VM')
        for o in outs:
            if o.kind == 'abort':
                continue
            compare(bad, P, m, 'always', o, ex, length, nm)


# ---- operand stack, local and frame primitives -----------------------------------

class Raw(Model):
    """the stack array is memory addressed by normalized indexes"""
    max_visits = 2

    def __init__(self, P, flags=0, outer=True):
        self.P, self.flags, self.outer = P, flags, outer

    def init(self, st):
        st.x.update(mem={}, f={'sp': A('sp'), 'ip': A('ip'), 'frame': A('frame', I32), 'code': A('code', PTR)}, mon=[])

    def key(self, lv):
        t = lv[3]
        b = lv[2]
        while b[0] == 'padd':
            t = mkop('+', U32, b[3], t)
            b = b[2]
        return show(norm(t, 32)) if b == ('stackbase',) else None

    def load(self, st, f, i, lv):
        if lv[1] == 'mem':
            if lv[3] == 'stack':
                return ('stackbase',)
            if lv[3] in st.x['f']:
                return st.x['f'][lv[3]]
        if lv[1] == 'idx':
            k = self.key(lv)
            if k is not None:
                return st.x['mem'].get(k, ('a', 'M[%s]' % k, U64))
        return None

    def store(self, st, f, i, lv, v):
        if lv[1] == 'mem' and lv[3] in st.x['f']:
            st.x['f'][lv[3]] = v
            return True
        if lv[1] == 'idx':
            k = self.key(lv)
            if k is not None:
                st.x['mem'][k] = v
                return True
        return False

    def addr(self, t):
        if t[0] == 'addr' and t[1][0] == 'lv' and t[1][1] == 'idx':
            return mkop('+', U32, t[1][3], ('c', 0)) if t[1][2] == ('stackbase',) else None
        if t[0] == 'padd' and t[2] == ('stackbase',):
            return t[3]
        return ('c', 0) if t == ('stackbase',) else None

    def call(self, ev, st, f, i, fn, a):
        c = f.x[i].get('c', ())
        last = fn.split('::')[-1]
        L = lambda k: ev.load(f, c[k], st, a[k]) if a[k][0] == 'lv' else a[k]
        if last in ('doubleToBits', 'floatToBits', 'bitsToDouble', 'bitsToFloat', 'cast', 'getJClass'):
            v = L(len(a) - 1)
            if last.startswith(('double', 'float', 'bits')) and v[0] == 'a':
                return ('a', v[1], {'doubleToBits': U64, 'floatToBits': U32, 'bitsToDouble': F64, 'bitsToFloat': F32}[last])
            if last in ('bitsToDouble', 'bitsToFloat'):
                w = 64 if 'Double' in last else 32
                n = whole(norm(v, w))
                if n[0] == 'a':
                    return ('a', n[1], F64 if w == 64 else F32)
            return v if last != 'getJClass' else ('jclass', v)
        if fn in ('vm::GcMethod::flags',):
            return ('c', self.flags)
        if fn in ('vm::GcMethod::parameterFootprint', 'vm::GcCode::maxLocals', 'vm::GcCode::maxStack'):
            return A(last, ty(f.type(i)))
        if fn in ('vm::GcMethod::code', 'vm::GcMethod::class_'):
            return (last, normx(L(0)))
        if last in ('acquire', 'release') and len(a) == 2:
            st.x['mon'].append((last, normx(L(1))))
            return ('void',)
        if last in ('memcpy', '__builtin_memcpy') and len(a) == 3:
            d, s, n = self.addr(a[0]), self.addr(a[1]), L(2)
            if d is not None and s is not None and n[0] == 'c' and n[1] % 8 == 0:
                vs = []
                for k in range(n[1] // 8):
                    q = show(norm(mkop('+', U32, s, ('c', k)), 32))
                    vs.append(st.x['mem'].get(q, ('a', 'M[%s]' % q, U64)))
                for k, v in enumerate(vs):
                    st.x['mem'][show(norm(mkop('+', U32, d, ('c', k)), 32))] = v
                return ('void',)
        if last in ('memset', '__builtin_memset'):
            st.x['cleared'] = [(show(norm(self.addr(a[0]), 32)) if self.addr(a[0]) is not None else '?', show(norm(L(2), 32)))]
            return ('void',)
        return None

    def inline(self, g):
        return g.file.endswith('/interpret.cpp') and len(g.x) < 600

    def decide(self, st, t):
        if t[0] == 'op' and t[1] in ('>=', '<') and normx(t[3]) == ('a', 'frame') and t[4] == ('c', 0):
            return self.outer == (t[1] == '>=')
        return None


def whole(n):
    """(zext32(high half) << 32) | zext32(low half) of one value is that value"""
    if n[0] in ('|', '^') or n[0] == 'lin' and len(n[1]) == 2:
        parts = [n[1], n[2]] if n[0] != 'lin' else [x for x, k in n[1] if k == 1]
        hi = [x for x in parts if x[0] == '<<' and x[2] == ('c', 32)]
        lo = [x for x in parts if not (x[0] == '<<')]
        if len(hi) == 1 and len(lo) == 1:
            h, l = peel(hi[0][1]), peel(lo[0])
            if h[0] == 'shr' and h[1] == 64 and h[3] == ('c', 32) and h[2] == l or h == ('a', l[1] + '.hi') if l[0] == 'a' else False:
                return l
    return n


def peel(x):
    while x[0] in ('zext', 'sext', 'low', 't'):
        if x[0] != 't' and x[1] != 32:
            break
        x = x[2]
    return x


def helpers(res, P):
    """what is pushed is popped, what is stored in a local is loaded from it, and leaving a frame restores what entering it saved"""
    byname = {}
    f0, _ = dispatcher(P)
    for g in P.funcs.values():
        if g.file == f0.file and g.b:
            byname.setdefault(g.n.split('::')[-1], []).append(g)

    def fn(name, n):
        c = [g for g in byname.get(name, ()) if len(g.params) == n]
        return c[0] if len(c) == 1 else None
    T = A('t', PTR)

    def seq(calls, flags=0, outer=True):
        m = Raw(P, flags, outer)
        st = St()
        m.init(st)
        val = None
        ev = Eval(P, m)
        for g, args in calls:
            r = [x for x in ev.run(g, [T] + list(args), st=st) if x[1] == 'return']
            res.count('primitive calls evaluated', floor=20)
            if len(r) != 1:
                return None
            st, _, val = r[0]
        return m, st, val

    def bad(g, what):
        res.bad('interp|%s' % g.n.split('::')[-1], rel(g.file), g.l, g.n, what)
    tags = {}
    pairs = (('Int', U32, 1), ('Object', PTR, 1), ('Float', F32, 1), ('Long', U64, 2), ('Double', F64, 2))
    for nm, t, w in pairs:
        pu, po = fn('push' + nm, 2), fn('pop' + nm, 1)
        if pu and po:
            res.count('stack and frame primitives evaluated', floor=8)
            r = seq([(pu, [A('x', t)])])
            if r and norm(r[1].x['f']['sp'], 32) != norm(mkop('+', U32, A('sp'), ('c', w)), 32):
                bad(pu, 'moves the top of the stack to %s' % show(norm(r[1].x['f']['sp'], 32)))
            if r and w == 1:
                q = r[1].x['mem'].get('(2*sp)')
                tags['O' if nm == 'Object' else 'I'] = q
                if q is None or q[0] != 'c' or q[1] != {'Object': tag(P, 'ObjectTag'), 'Int': tag(P, 'IntTag'), 'Float': tag(P, 'IntTag')}[nm]:
                    bad(pu, 'does not tag the word as %s' % ('a reference' if nm == 'Object' else 'a number'))
            r = seq([(pu, [A('x', t)]), (po, [])])
            if r:
                v = whole(norm(r[2], 64)) if t[0] == 'u' and w == 2 else normx(r[2]) if t[0] in 'fp' else norm(r[2], 32)
                if peel(v) != ('a', 'x'):
                    bad(po, 'does not return what %s left: %s' % (pu.n.split('::')[-1], show(v)))
                if norm(r[1].x['f']['sp'], 32) != ('a', 'sp'):
                    bad(po, 'moves the top of the stack to %s' % show(norm(r[1].x['f']['sp'], 32)))
    for st_, ld, nargs in (('poke', 'peek', 0), ('setLocal', 'local', 0)):
        for nm, t, w in (('Int', U32, 1), ('Object', PTR, 1), ('Long', U64, 2)):
            s, l = fn(st_ + nm, 3), fn(ld + nm, 2)
            if s and l:
                res.count('stack and frame primitives evaluated')
                r = seq([(s, [A('k'), A('x', t)]), (l, [A('k')])])
                if r:
                    v = whole(norm(r[2], 64)) if w == 2 else normx(r[2]) if t == PTR else norm(r[2], 32)
                    if peel(v) != ('a', 'x'):
                        bad(l, 'does not return what %s stored: %s' % (s.n.split('::')[-1], show(v)))
                    tg = [x for x in r[1].x['mem'].values() if x[0] == 'c']
                    if w == 1 and [x[1] for x in tg] != [tag(P, 'ObjectTag' if nm == 'Object' else 'IntTag')]:
                        bad(s, 'does not tag the word as %s' % ('a reference' if nm == 'Object' else 'a number'))
    # a long pushed on the stack and read as a local has the same word order
    pu, l, s, po = fn('pushLong', 2), fn('peekLong', 2), fn('pokeLong', 3), fn('popLong', 1)
    if pu and l:
        r = seq([(pu, [A('x', U64)]), (l, [A('sp')])])
        if r and peel(whole(norm(r[2], 64))) != ('a', 'x'):
            bad(l, 'reads the two words of a long in another order than they are pushed: ' + show(norm(r[2], 64)))
    # astore
    g, l, pu = fn('store', 2), fn('localObject', 2), fn('pushObject', 2)
    if g and l and pu:
        r = seq([(pu, [A('x', PTR)]), (g, [A('k')]), (l, [A('k')])])
        if r and normx(r[2]) != ('a', 'x'):
            bad(g, 'does not store the word on top of the stack in the local variable: ' + show(normx(r[2])))
    # frames
    pu, po = fn('pushFrame', 2), fn('popFrame', 1)
    if pu is None or po is None:
        raise AnalysisBroken('pushFrame and popFrame were not found')
    for flags in (0, 0x20, 0x28):
        for outer in (True, False):
            res.count('stack and frame primitives evaluated')
            first = seq([(pu, [('a', 'method', PTR)])], flags, outer)
            if first is None:
                continue
            m, st, _ = first
            fx = dict(st.x['f'])
            m.outer = True
            ev = Eval(P, m)
            base = norm(mkop('-', U32, A('sp'), mkcast(U32, A('parameterFootprint', ('u', 8)), ('u', 8))), 32)
            cl = st.x.get('cleared')
            if cl is None:
                bad(pu, 'does not clear the local variables that are not parameters')
            elif cl[0][0] != '(2*sp)' or 'maxLocals' not in cl[0][1] or 'parameterFootprint' not in cl[0][1] or '16*' not in cl[0][1]:
                bad(pu, 'clears %s bytes at word %s instead of the local variables that are not parameters' % (cl[0][1], cl[0][0]))
            # now the frame that was just entered is current
            r = [x for x in ev.run(po, [T], st=st.copy()) if x[1] == 'return']
            what = {0: '', 0x20: ' of a synchronized method', 0x28: ' of a static synchronized method'}[flags]
            for s2, _, _ in r:
                back = {k: normx(v) for k, v in s2.x['f'].items()}
                if back['frame'] != ('a', 'frame') and peel(back['frame']) != ('a', 'frame'):
                    bad(po, 'does not return to the frame that was current%s: %s' % (what, show(back['frame'])))
                if outer and peel(back['ip']) != ('a', 'ip'):
                    bad(po, 'does not restore the instruction pointer%s: %s' % (what, show(back['ip'])))
                sp = show(back['sp'])
                if 'parameterFootprint' not in sp or back['sp'] != norm(mkop('-', U32, A('sp'), mkcast(U32, A('parameterFootprint', ('u', 8)), ('u', 8))), 32) and not sploose(back['sp']):
                    bad(po, 'does not remove the arguments from the stack%s: %s' % (what, sp))
                mon = s2.x['mon']
                if flags and not (len(mon) == 2 and mon[0][0] == 'acquire' and mon[1][0] == 'release' and mon[0][1] == mon[1][1]):
                    bad(po, 'does not release what was acquired on entry%s: %s' % (what, '; '.join('%s %s' % (k, show(v)) for k, v in mon)))
                if not flags and mon:
                    bad(po, 'uses a monitor for a method that is not synchronized')
                if flags and len(mon) == 2 and (flags == 0x28) != ('jclass' in repr(mon[0][1])):
                    bad(pu, 'locks %s on entry%s' % (show(mon[0][1]), what))


def tag(P, name):
    for e in P.enums.values():
        if name in e:
            return e[name]
    raise AnalysisBroken('the tag %s was not found' % name)


def sploose(n):
    """sp - parameterFootprint up to the width of the accessor"""
    if n[0] != 'lin':
        return False
    d = dict(n[1])
    return d.pop(('a', 'sp'), 0) == 1 and len(d) == 1 and list(d.values()) == [0xffffffff] and 'parameterFootprint' in repr(list(d)[0])

