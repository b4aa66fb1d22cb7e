"""The JIT compiler translates every bytecode as the JVM specification defines it: each case of compile() is evaluated abstractly up to the
operations it asks of the code generator, and what they compute is compared with the table below."""
import re
import prog
from prog import rel, AnalysisBroken
import absint
from absint import Eval, Model, St, Stop, TooComplex, mkop, mkcast, normx, norm, show, strip_casts
from rules import interp
from rules.interp import A, U32, U64, I32, I64, PTR

NS = 'avian::codegen::'
C = NS + 'Compiler::'
TY = {'void_': 0, 'object': -1, 'iptr': -1, 'i1': 1, 'i2': 2, 'i4': 4, 'i8': 8, 'f4': 4, 'f8': 8, 'addr': -1}
FLAVOR = {'object': 0, 'iptr': 1, 'i1': 1, 'i2': 1, 'i4': 1, 'i8': 1, 'f4': 2, 'f8': 2, 'addr': 3, 'void_': 4}
LOCALS, FILL, PARAMS = 100, 40, 7
INT = {'i4': U32, 'i8': U64}


def T(n):
    return ('ty', n)


def jv(t, term):
    """a run-time value of the compiled program: type and what it is"""
    return ('jv', t, term)


def slots(t):
    return 2 if t in ('i8', 'f8') else 1


class Names:
    """enumerators by value"""

    def __init__(self, P):
        self.P = P
        self.c = {}

    def of(self, enum, v):
        e = self.c.get(enum)
        if e is None:
            d = self.P.enum(enum)
            e = self.c[enum] = {x: n.split('::')[-1] for n, x in d.items()}
        return e.get(v, '?%s' % v)


class Jit(Model):
    max_paths = 600
    max_visits = 4

    def __init__(self, P, names, scen, stops=None, entry=None):
        self.P, self.names, self.scen, self.stops = P, names, scen, stops or {}
        self.entry = entry
        self.bad = []

    # -- the operand stack of the code generator: list of (value, slots), top last
    def init(self, st):
        st.x['cs'] = []
        st.x['map'] = {}
        st.x['ws'] = list(self.scen.get('ws', ()))
        sp = LOCALS + FILL
        for k, t in enumerate(self.scen.get('stack', ())):
            n = len(self.scen['stack']) - 1 - k
            st.x['cs'].append((jv(t, ('s', n)), slots(t)))
            for _ in range(slots(t)):
                st.x['map'][sp] = t
                sp += 1
        st.x['sp0'] = sp
        st.env[('mem', A('frame', PTR), 'sp')] = ('c', sp)
        if self.scen.get('sw'):
            st.x['sw'] = dict(self.scen['sw'])

    def fault(self, st, text):
        st.x.setdefault('faults', [])
        st.x['faults'] = st.x['faults'] + [text]

    def pop(self, st, t):
        cs = st.x['cs']
        n = slots(t)
        if not cs:
            self.fault(st, 'takes more operands than the instruction has')
            return jv(t, ('below', len(st.eff)))
        v, k = cs.pop()
        if k != n:
            self.fault(st, 'takes a %d-slot operand as %d slots' % (k, n))
        return v

    def typed(self, v, t):
        return v

    def num(self, t):
        return t[1] if t[0] == 'c' else None

    def op(self, st, name, t, a, b):
        """b op a"""
        av, bv = self.term(a), self.term(b)
        w = INT.get(t)
        ops = {'Add': '+', 'Subtract': '-', 'Multiply': '*', 'And': '&', 'Or': '|', 'Xor': '^'}
        if w and name in ops:
            return jv(t, mkop(ops[name], w, self.lift(bv, w), self.lift(av, w)))
        return jv(t, ('bin', name, t, bv, av))

    def lift(self, term, w):
        return term if term[0] in ('c', 'op', 'a', 'un', 'cast') else ('a', term, w)

    def mem(self, base, t, disp, index):
        return ('m', t, base, disp, index)

    def call(self, ev, st, f, i, fn, a):
        s = fn.split('::')[-1]
        cell = lambda k: ev.load(f, f.x[i]['c'][k], st, a[k]) if a[k][0] == 'lv' else a[k]
        if fn.startswith(NS + 'ir::Type::'):
            if s in TY and not a:
                return T(s)
            if s == 'Type':
                return cell(len(a) - 1)
            v = [cell(k) for k in range(len(a))]
            if s in ('operator==', 'operator!=') and v[0][0] == 'ty' and v[1][0] == 'ty':
                return ('c', int((v[0] == v[1]) == (s == 'operator==')))
            if s == 'rawSize' and v[0][0] == 'ty':
                return ('c', TY[v[0][1]])
            if s == 'flavor' and v[0][0] == 'ty':
                return ('c', FLAVOR[v[0][1]])
            if s == 'size' and v[0][0] == 'ty':
                return ('c', 8 if TY[v[0][1]] < 0 else TY[v[0][1]])
            if s == 'operator=':
                ev.assign(f, i, st, a[0], v[1])
                return a[0]
            return None
        if fn.startswith(C):
            return self.compiler(ev, st, f, i, s, [cell(k) for k in range(len(a))][1:])
        if s == 'Slice' and 'util::Slice' in fn and len(a) == 2:
            n = self.num(cell(1))
            return ('slice',) + tuple(self.element(st, strip_casts(cell(0)), k) for k in range(n)) if n is not None and n < 64 else None
        if s == 'operator Slice' or (s == 'Slice' and 'util::Slice' in fn):
            return cell(0)
        if s == 'length' and fn.startswith('vm::GcCode'):
            return ('c', 60000)
        if s == 'body' and fn.startswith('vm::GcCode'):
            return ('body',)
        if s in ('SingleProtector', 'startLogicalIp'):
            if s == 'startLogicalIp':
                raise Stop('next')
            return ('void',)
        if s == 'args':
            return ('args',) + tuple(('pad',) if cell(k) == ('c', 0) else cell(k) for k in range(len(a)))
        v = None
        if s in ('localSize',):
            return ('c', LOCALS)
        if s in ('stackSize', 'frameSize', 'maxStack'):
            return ('c', LOCALS + 1000)
        if s == 'parameterFootprint' and len(a) == 1:
            o = cell(0)
            return ('c', self.scen.get('params', PARAMS)) if o == A('method', PTR) else ('c', self.scen.get('footprint', 0))
        if s == 'trace' and fn.endswith('Frame::trace'):
            fr = ev.load(f, i, st, ('lv', 'mem', A('frame', PTR), 'ip'))
            st.eff.append(('trace', cell(1), cell(2)))
            return ('trace', cell(1), cell(2))
        if s == 'append' and fn.endswith('Frame::append'):
            return jv('object', ('obj', cell(1)))
        if s in ('machineIpValue',):
            return jv('iptr', ('ip', cell(1)))
        if s == 'machineIp' and fn.endswith('Frame::machineIp'):
            return ('ip', cell(1))
        if s == 'addressPromise' and fn.endswith('Frame::addressPromise'):
            return cell(1)
        if s == 'addressOperand' or s == 'absoluteAddressOperand':
            return jv('iptr', ('promise', cell(1)))
        if s in ('aioobThunk', 'stackOverflowThunk', 'defaultThunk', 'virtualThunk', 'nativeThunk', 'bootThunk'):
            return ('thunk', s)
        if s == 'getThunk' and len(a) == 2:
            n = self.num(cell(1))
            if n is None:
                return None
            return ('thunk', self.names.of('(anonymous namespace)::local::Thunk', n))
        if s == 'inTryBlock':
            st.eff.append(('intry', cell(2)))
            return ('c', int(bool(self.scen.get('try'))))
        if s in ('resolveField', 'resolveMethod', 'resolveClassInPool'):
            st.eff.append(('resolve', s, cell(2)))
            return A('resolved', PTR) if self.scen.get('resolved', True) else ('c', 0)
        if s == 'singletonObject':
            return ('poolobj', cell(2))
        if s == 'singletonIsObject':
            st.eff.append(('resolve', s, cell(2)))
            return ('c', int(bool(self.scen.get('isobject'))))
        if s == 'singletonBit':
            st.eff.append(('resolve', s, cell(3)))
            return ('c', int(bool(self.scen.get('bit'))))
        if s == 'singletonValue':
            return ('lv', 'idx', ('poolvalue',), cell(2))
        if s in ('memcpy', '__builtin_memcpy') or s == 'memcpy':
            d, src = a[0], a[1]
            if d[0] == 'addr' and src[0] == 'addr':
                ev.assign(f, i, st, d[1], ('pool8', src[1][3]))
                return ('c', 0)
            return None
        if s == 'makePair':
            return ('pair', cell(1), cell(2))
        if s == 'cast' and len(a) == 2 and 'f' in f.x[i]:
            return cell(1)
        if s == 'intrinsic' and self.scen.get('named'):
            return None
        if s in ('name', 'spec') and len(a) == 1 and fn.startswith('vm::Gc'):
            o = strip_casts(cell(0))
            r = A('resolved', PTR)
            q = self.scen.get('named') or ('C', 'priv', '()V')
            k = q[0] if o == ('class_', r) and s == 'name' else (q[1] if s == 'name' else q[2]) if o == r else None
            return ('text', k) if k is not None else None
        if a and s in ('length', 'body', 'begin'):
            o = strip_casts(cell(0))
            if o[0] == 'text':
                return ('c', len(o[1]) + 1) if s == 'length' else o
        if s in ('strcmp', '__builtin_strcmp') and len(a) == 2:
            o = [self.literal(st, cell(k)) for k in range(2)]
            return ('c', int(o[0] != o[1])) if None not in o else None
        flag = {'emptyMethod': 'empty', 'methodAbstract': 'abstract', 'isSpecialMethod': 'special', 'unresolved': 'unlinked', 'useLongJump': 'longjump',
                'needsReturnBarrier': 'barrier', 'intrinsic': 'intrinsic'}.get(s)
        if flag:
            return ('c', int(bool(self.scen.get(flag))))
        if s == 'methodVirtual':
            return ('c', int(bool(self.scen.get('virtual', 1))))
        if s == 'maxLocals' and fn.startswith('vm::Gc') and 'maxlocals' in self.scen:
            return ('c', self.scen['maxlocals'])
        if s == 'methodAddress':
            return ('maddr', cell(1))
        if s == 'findVirtualMethod':
            return ('found', cell(1), cell(2))
        if s == 'super' and fn.startswith('vm::Gc'):
            return ('super', strip_casts(cell(0)))
        if s in ('classNeedsInit',):
            st.eff.append(('test', s, cell(1)))
            return ('c', int(bool(self.scen.get('needsinit'))))
        if s == 'targetFieldOffset':
            return ('offset', cell(1))
        if s == 'fieldCode' and len(a) == 2:
            return ('c', self.scen['code'])
        if s in ('code', 'returnCode') and len(a) == 1 and fn.startswith('vm::Gc'):
            o = cell(0)
            if s == 'returnCode' or o == A('resolved', PTR):
                return ('c', self.scen.get('code', 0)) if s == 'code' else ('c', self.scen.get('rcode', 0))
            return ('a', 'code', PTR)
        if s == 'flags' and len(a) == 1 and fn.startswith('vm::Gc'):
            return ('c', self.scen.get('mflags' if cell(0) == A('method', PTR) else 'flags', 0))
        if s in ('methodReferenceParameterFootprint',):
            return ('c', self.scen.get('footprint', 0) + (self.scen.get('op') == 'invokestatic') - int(bool(self.num(cell(2)))))
        if s in ('methodReferenceReturnCode',):
            return ('c', self.scen.get('rcode', 0))
        if s == 'objectClass' and len(a) == 2:
            return ('classof', strip_casts(cell(1)))
        if s == 'type' and fn == 'vm::type':
            return ('typeclass', self.names.of('vm::Gc::Type', self.num(cell(1))))
        if s in ('class_', 'staticTable') and fn.startswith('vm::Gc'):
            return (s, strip_casts(cell(0)))
        if s == 'vmFlags' and fn.startswith('vm::Gc'):
            return ('c', self.scen.get('vmflags', 0))
        if s == 'dispose' and fn.endswith('Frame::dispose'):
            if not self.scen.get('after'):
                raise Stop('end')
            st.eff.append(('disposed',))
            return ('void',)
        if s in ('checkField', 'checkMethod', 'loadMemoryBarrier', 'visitLogicalIp'):
            st.eff.append(('note', s) + tuple(cell(k) for k in range(1, len(a))))
            return ('void',)
        if s in ('operator[]', 'begin') and 'Slice' in fn and len(a) >= 1:
            b = cell(0)
            if s == 'begin':
                return b
            return ('lv', 'idx', b, cell(1))
        if s in ('floatToBits', 'doubleToBits'):
            x = cell(0)
            x = strip_casts(x)
            if x[0] == 'fc':
                return ('fbits', float(x[1]))
            if x[0] == 'c':
                return ('fbits', float(x[1]))
            return None
        if s in ('append', 'append2', 'appendAddress') and 'Vector' in fn:
            st.eff.append(('log', s) + tuple(cell(k) for k in range(1, len(a))))
            return ('void',)
        if s == 'log' and len(a) == 1:
            n = self.num(cell(0))
            if n:
                return ('c', n.bit_length() - 1)
        # the explicit stack of compile()
        if fn.endswith('local::Stack::pushValue'):
            st.x['ws'] = st.x['ws'] + [cell(1)]
            return ('void',)
        if fn.endswith('local::Stack::popValue'):
            ws = st.x['ws']
            if not ws:
                raise Stop('worklist')
            st.x['ws'] = ws[:-1]
            return ws[-1]
        if fn.endswith('local::Stack::push'):
            st.n += 1
            return ('wspace', st.n, cell(1))
        if fn.endswith('local::Stack::pop'):
            st.eff.append(('wpop', cell(1)))
            return ('void',)
        if fn.endswith('local::Stack::peek'):
            return ('wpeek', cell(1))
        if fn.endswith('Frame::Frame'):
            raise Stop('start')
        if fn.endswith('SwitchState::SwitchState'):
            v = [cell(k) for k in range(len(a))]
            names = [f2.vars[p][0] for f2 in [self.P.funcs[u] for u in self.P.funcs if self.P.funcs[u].n == fn][:1] for p in f2.params]
            if len(names) != len(v):
                return None
            st.x['sw'] = dict(zip(names, v), index=('c', 0))
            st.eff.append(('switch',) + tuple(v))
            return ('switchstate',)
        return None

    def literal(self, st, x):
        x = strip_casts(x)
        if x[0] == 'text':
            return x[1]
        if x[0] == 'str':
            return x[1]
        return None

    def element(self, st, base, k):
        for (key, v) in st.env.items():
            if not isinstance(key, tuple) or key[0] not in ('deref', 'idx'):
                continue
            b, n = key[1], 0
            if key[0] == 'idx':
                n = self.num(key[2])
            while b[0] == 'padd' and n is not None:
                q = self.num(b[3])
                n = None if q is None else n + q
                b = b[2]
            if n == k and strip_casts(b) == base:
                return self.term(v)
        return ('unset', k)

    def compiler(self, ev, st, f, i, s, a):
        E = st.eff.append
        if s == 'push':
            t, v = a[0], a[1]
            if t[0] != 'ty' or v[0] != 'jv':
                self.fault(st, 'pushes something that is not a value')
                return ('void',)
            st.x['cs'] = st.x['cs'] + [(v, slots(t[1]))]
            return ('void',)
        if s == 'pushed':
            st.x['cs'] = st.x['cs'] + [(jv(a[0][1], ('pushed',)), slots(a[0][1]))]
            return ('void',)
        if s == 'pop':
            st.x['cs'] = list(st.x['cs'])
            return self.pop(st, a[0][1])
        if s == 'popped':
            n = self.num(a[0])
            st.x['cs'] = list(st.x['cs'])
            while n and n > 0:
                if not st.x['cs']:
                    self.fault(st, 'takes more operands than the instruction has')
                    break
                v, k = st.x['cs'].pop()
                n -= k
            if n:
                self.fault(st, 'takes half of an operand')
            return ('void',)
        if s == 'peek':
            fp, idx = self.num(a[0]), self.num(a[1])
            if fp is None or idx is None:
                return jv('?', ('peek', a[0], a[1]))
            pos = 0
            for v, k in reversed(st.x['cs']):
                if pos == idx or (k == 2 and idx == pos + 1 and fp == 1):
                    return v if k == fp or fp == 1 else jv('?', ('part', v))
                pos += k
            return jv('?', ('below', idx))
        if s == 'topOfStack':
            return ('top', tuple(v for v, k in st.x['cs']))
        if s == 'constant':
            return jv(a[1][1], a[0])
        if s == 'promiseConstant':
            return jv(a[1][1], ('promise', a[0]))
        if s == 'address':
            return jv(a[0][1], ('address', a[1]))
        if s == 'memory':
            base, t = a[0], a[1]
            disp = a[2] if len(a) > 2 else ('c', 0)
            index = a[3] if len(a) > 3 else ('c', 0)
            return jv(t[1], ('mem', t[1], self.term(base), disp, self.term(index) if index[0] == 'jv' else None))
        if s == 'threadRegister':
            return jv('iptr', ('thread',))
        if s == 'load':
            ext, m, dt = a
            E(('load', m[2]))
            return jv(dt[1], self.loaded(ext, m, dt[1]))
        if s == 'store':
            E(('put', a[1][2], a[0]))
            return ('void',)
        if s in ('condJump', 'jmp', 'return_', 'exit', 'saveLocals', 'nullaryOp', 'checkBounds', 'restoreState', 'save', 'initLocalsFromLogicalIp', 'storeLocal',
                 'poolAppend', 'poolAppendPromise'):
            if s == 'condJump':
                E((s, self.names.of('avian::codegen::lir::TernaryOperation', self.num(a[0]))) + tuple(a[1:]))
            elif s == 'nullaryOp':
                E((s, self.names.of('avian::codegen::lir::Operation', self.num(a[0]))))
            else:
                E((s,) + tuple(a))
            if s.startswith('poolAppend'):
                st.n += 1
                return ('pool', st.n, a[0])
            return ('void',)
        if s == 'saveState':
            st.n += 1
            return ('state', st.n, tuple(st.x['cs']))
        if s == 'loadLocal':
            return jv(a[0][1], ('local', a[1]))
        if s == 'binaryOp':
            n = self.names.of('avian::codegen::lir::TernaryOperation', self.num(a[0]))
            for v in a[2:]:
                if v[0] == 'jv' and v[2][0] == 'mem':
                    E(('read', v[2]))
            if n in ('Divide', 'Remainder'):
                E(('divide', n, a[2]))
            return self.op(st, n, a[1][1], a[2], a[3])
        if s == 'unaryOp':
            n = self.names.of('avian::codegen::lir::BinaryOperation', self.num(a[0]))
            v = a[1]
            if n == 'Negate' and v[1] in INT:
                return jv(v[1], mkop('-', INT[v[1]], ('c', 0), self.lift(v[2], INT[v[1]])))
            return jv(v[1], ('unop', n, v[1], v[2]))
        if s in ('f2f', 'f2i', 'i2f', 'truncate'):
            return jv(a[0][1], (s, a[0][1], a[1][1], a[1][2]))
        if s == 'truncateThenExtend':
            ext, dt, tt, v = a
            return jv(dt[1], ('extend', self.ext(ext), dt[1], tt[1], v[2]))
        if s in ('nativeCall', 'stackCall'):
            fnv, flags, tr, rt, ar = a
            t = ('called', s, self.term(fnv), flags, tr, rt[1], tuple(self.term(x) for x in ar[1:]) if ar[0] in ('args', 'slice') else ar)
            E(t)
            st.n += 1
            return jv(rt[1], ('result',) + t[1:])
        E(('other', s) + tuple(a))
        return None

    def ext(self, e):
        n = self.num(e)
        return {0: 'Signed', 1: 'Unsigned'}.get(n, '?')

    def term(self, v):
        return v[2] if v[0] == 'jv' else v

    def loaded(self, ext, m, dt):
        if m[2][0] != 'mem':
            return ('conv', self.ext(ext), m[1], dt, m[2])
        mt = m[2][1]
        e = self.ext(ext) if size(mt) < size(dt) else '='
        return ('ld', e, mt, dt) + m[2][2:]

    def inline(self, g):
        return g.file.endswith('/compile.cpp') or g.n.split('::')[-1] in ('codeReadInt16', 'codeReadInt32', 'codeReadInt64', 'fieldSize', 'resultSize')

    def load(self, st, f, i, lv):
        k = lv[1]
        if k == 'mem':
            b, n = lv[2], lv[3]
            if b[0] == 'wpeek' and n in st.x.get('sw', ()):
                return st.x['sw'][n]
            if n == 'type' and b[0] == 'jv':
                return T(b[1])
            if b == A('frame', PTR):
                r = {'c': A('c', PTR), 'context': A('context', PTR), 't': A('t', PTR), 'ip': A('ip0', U32), 'subroutine': ('c', 0),
                     'stackMap': ('stackmap',), 'level': ('c', 0)}.get(n)
                return r
            if b == A('context', PTR):
                return {'method': A('method', PTR), 'compiler': A('c', PTR), 'thread': A('t', PTR), 'bootContext': ('c', 0)}.get(n)
        if k == 'idx':
            b, ix = lv[2], lv[3]
            if strip_casts(b)[0] == 'text':
                p = self.num(normx(ix))
                return ('c', ord((strip_casts(b)[1] + '\0')[p])) if p is not None and p <= len(strip_casts(b)[1]) else None
            if b == ('stackmap',):
                p = self.num(normx(ix))
                if p is None:
                    return None
                t = st.x['map'].get(p + LOCALS)
                return T(t) if t else T('i4')
            if b == ('body',):
                return self.byte(ix)
            if b[0] == 'psub' and root(b)[0] == 'wpeek':
                return ('a', ('iptable', self.num(norm(ix, 32))), U32)
            if b == ('poolvalue',):
                return ('poolvalue', ix)
        return None

    def byte(self, ix):
        o = offset(ix)
        if o is None:
            return None
        o -= self.scen.get('ip') or 0
        bs = self.scen.get('bytes')
        if bs is not None and o in bs:
            return ('c', bs[o])
        return A('b%d' % o, ('u', 8))

    def store(self, st, f, i, lv, v):
        if lv[1] == 'mem' and lv[2][0] == 'wpeek' and lv[3] in st.x.get('sw', ()):
            st.x['sw'] = dict(st.x['sw'], **{lv[3]: v})
            return True
        if lv[1] == 'idx' and lv[2] == ('stackmap',):
            p = self.num(normx(lv[3]))
            if p is not None and v[0] == 'ty':
                st.x['map'][p + LOCALS] = v[1]
            return True
        return False

    def decide(self, st, t):
        u = strip_casts(t)
        if u == A('resolved', PTR) or u[0] in ('poolobj', 'obj'):
            return 1
        if t[0] == 'op' and t[1] in ('==', '!=') and ('c', 0) in t[3:]:
            u = strip_casts(t[3] if t[4] == ('c', 0) else t[4])
            if u == A('resolved', PTR) or u[0] in ('poolobj', 'obj'):
                return int(t[1] == '!=')
        if t[0] == 'op' and t[1] in ('==', '!='):
            a, b = strip_casts(t[3]), strip_casts(t[4])
            if b[0] == 'classof':
                a, b = b, a
            if a[0] == 'classof' and b[0] == 'typeclass':
                k = self.scen.get('pool') if a[1][0] == 'poolobj' else self.scen.get('rkind')
                if k:
                    return int((b[1] == k[2:] + 'Type') == (t[1] == '=='))
        return None

    def stop(self, f, b):
        if f is self.entry:
            return self.stops.get(b)
        return None


def root(b):
    while b[0] in ('psub', 'padd'):
        b = b[2]
    return b


def size(t):
    return 8 if TY[t] < 0 else TY[t]


def offset(ix):
    """k when the index is ip0 + k"""
    t = norm(strip_casts(ix), 32)
    if t[0] == 'c':
        return t[1]
    if t == ('a', 'ip0'):
        return 0
    if t[0] == 'lin':
        d = dict(t[1])
        if d.get(('a', 'ip0')) == 1 and set(d) <= {('a', 'ip0'), 1}:
            return absint.wrap(d.get(1, 0), I32)
    return None


class Out:
    def __init__(self, m, st, kind, val, fid, vars_):
        self.m, self.st, self.kind, self.eff = m, st, kind, st.eff
        self.stack = [v for v, k in st.x['cs']]
        self.slots = [k for v, k in st.x['cs']]
        self.sp = st.env.get(('mem', A('frame', PTR), 'sp'))
        self.map = st.x['map']
        self.faults = st.x.get('faults', [])
        self.vars = {n: st.env.get((fid, v)) for n, v in vars_.items()}


def find(P):
    c = [g for g in P.funcs.values() if g.file.endswith('/compile.cpp') and any(
        b.get('t') == 'SwitchStmt' and len([s for s in b['s'] if s >= 0]) > 120 for b in g.b.values())]
    if len(c) != 1:
        raise AnalysisBroken('the translation loop of the compiler was not found (%d candidates)' % len(c))
    f = c[0]
    d = [b for b, bl in f.b.items() if bl.get('t') == 'SwitchStmt' and len([s for s in bl['s'] if s >= 0]) > 120][0]
    return f, d


def heads(f, d):
    out = {interp.fetch_block(f, d), d}
    for b, bl in f.b.items():
        if len([s for s in bl['s'] if s >= 0]) == 2 and any(
                not isinstance(e, dict) and (f.x[e].get('fn') or '').endswith('GcCode::length') for e in bl['e']):
            out.add(b)
    return out


def evaluate(P, names, f, d, start, scen):
    ops = interp.opcode_enum(P)
    m = Jit(P, names, scen, {b: 'next' for b in heads(f, d)}, f)
    ev = Eval(P, m)
    st = St()
    m.init(st)
    fid = ev.fid = 1
    vs = {}
    for v, x in enumerate(f.vars):
        vs.setdefault(x[0], v)
    for n, v in {'frame': A('frame', PTR), 'c': A('c', PTR), 'context': A('context', PTR), 't': A('t', PTR), 'code': A('code', PTR)}.items():
        for k, x in enumerate(f.vars):
            if x[0] == n and k != vs[n] and x[1] != f.vars[vs[n]][1]:
                continue
            if x[0] == n:
                st.env[(fid, k)] = v
    st.env[(fid, vs['ip'])] = mkop('+', U32, A('ip0', U32), ('c', 1))
    if scen.get('ip') is not None:
        st.env[(fid, vs['ip'])] = ('c', scen['ip'] + 1)
    for v in interp.dispatch_vars(f, d):
        st.env[(fid, v)] = ('c', ops[scen['op']])
    outs = ev.run(f, start=start, st=st, fid=fid)
    return [Out(m, s, k, v, fid, vs) for s, k, v in outs]
