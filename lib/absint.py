"""Abstract evaluation of functions over their control-flow graphs: values are terms over named inputs, branches are decided from the
constants and value classes a rule assumes (all branches are taken where they are not), calls are modelled, inlined or recorded."""
import re
import prog
from prog import AnalysisBroken

INT = {'bool': ('u', 1), '_Bool': ('u', 1), 'char': ('i', 8), 'signed char': ('i', 8), 'unsigned char': ('u', 8), 'short': ('i', 16),
       'unsigned short': ('u', 16), 'int': ('i', 32), 'unsigned int': ('u', 32), 'long': ('i', 64), 'unsigned long': ('u', 64),
       'long long': ('i', 64), 'unsigned long long': ('u', 64), 'wchar_t': ('i', 32), 'char16_t': ('u', 16),
       'int8_t': ('i', 8), 'uint8_t': ('u', 8), 'int16_t': ('i', 16), 'uint16_t': ('u', 16), 'int32_t': ('i', 32), 'uint32_t': ('u', 32),
       'int64_t': ('i', 64), 'uint64_t': ('u', 64), 'size_t': ('u', 64), 'uintptr_t': ('u', 64), 'intptr_t': ('i', 64)}
FLT = {'float': ('f', 32), 'double': ('f', 64)}


def ty(s):
    s = s.replace('const ', '').replace('volatile ', '').replace('&', '').strip()
    if s.endswith(' const'):
        s = s[:-6]
    if s in INT:
        return INT[s]
    if s in FLT:
        return FLT[s]
    if s.endswith('*'):
        return ('p', 64)
    if 'enum' in s:
        return ('u', 32)
    return ('x', 0)


def wrap(v, t):
    k, w = t
    if k in 'iu' and isinstance(v, int):
        if w == 1:
            return int(bool(v))
        v &= (1 << w) - 1
        if k == 'i' and v >> (w - 1):
            v -= 1 << w
    return v


class St:
    __slots__ = ('env', 'memo', 'eff', 'x', 'dec', 'n', 'depth')

    def __init__(self):
        self.env, self.memo, self.eff, self.x, self.dec, self.n, self.depth = {}, {}, [], {}, {}, 0, 0

    def copy(self):
        s = St.__new__(St)
        s.env, s.memo, s.eff, s.dec = dict(self.env), dict(self.memo), list(self.eff), dict(self.dec)
        s.x = {k: (list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v) for k, v in self.x.items()}
        s.n, s.depth = self.n, self.depth
        return s


class TooComplex(Exception):
    pass


class Stop(Exception):
    """raised by a model: the path ends here"""

    def __init__(self, kind, val=None):
        self.kind, self.val = kind, val


class Model:
    """what a rule assumes; override"""
    max_paths = 3000
    max_visits = 2
    arrays = False      # local arrays are objects of their own: ('local', number, size, element type)

    def call(self, ev, st, f, i, fn, args):
        """a term, or None when the call is not modelled"""
        return None

    def inline(self, g):
        return False

    def va_arg(self, st, f, i):
        """true when the next variable argument was put into st.memo['va_arg']"""
        return None

    def ctor(self, g):
        """whether a constructor makes an object whose members are tracked"""
        return False

    def decide(self, st, term):
        return None

    def load(self, st, f, i, lv):
        return None

    def store(self, st, f, i, lv, val):
        return False

    def dtor(self, ev, st, f, e):
        pass

    def stop(self, f, b):
        """kind under which a path ends on reaching block b"""
        return None


class Eval:
    def __init__(self, P, model):
        self.P, self.model = P, model
        self.paths = 0
        self.nr = P.noreturn()
        self.fid = 0

    # ---- driving ---------------------------------------------------------
    def run(self, f, args=None, start=None, st=None, this=None, fid=None):
        """list of (state, kind, value) at the ends of all paths; kind 'return', 'abort', 'loop' or a model's stop"""
        st = st or St()
        if fid is None:
            self.fid += 1
            fid = self.fid
        for k, v in enumerate(args or ()):
            if k < len(f.params):
                st.env[(fid, f.params[k])] = v
        if this is not None:
            st.env[(fid, 'this')] = this
        out = []
        work = [(start if start is not None else f.entry, st, {}, 0)]
        while work:
            b, st, visits, skip = work.pop()
            while True:
                if b == f.exit:
                    out.append((st, 'return', st.env.pop((fid, 'ret'), None)))
                    self.note()
                    break
                if not skip:
                    k = self.model.stop(f, b)
                    if k and not (visits == {} and b == start):
                        out.append((st, k, None))
                        self.note()
                        break
                    v = visits.get(b, 0)
                    if v >= self.model.max_visits:
                        out.append((st, 'loop', None))
                        self.note()
                        break
                    visits = dict(visits)
                    visits[b] = v + 1
                es = f.b[b]['e']
                ended = False
                pos = skip
                skip = 0
                while pos < len(es):
                    e = es[pos]
                    pos += 1
                    if not isinstance(e, int):
                        if 'i' in e and e.get('x', -1) >= 0:
                            o = st.env.get((fid, 'this'))
                            if o is not None and o[0] == 'obj':
                                st.env[('mem', o, e['i'].split('::')[-1])] = self.rvalue(f, e['x'], st, fid)
                                continue
                        self.model.dtor(self, st, f, e)
                        continue
                    try:
                        r = self.element(f, e, st, fid)
                    except Stop as s:
                        out.append((st, s.kind, s.val))
                        self.note()
                        ended = True
                        break
                    if r is None:
                        continue
                    # inlined call: several continuations
                    first = True
                    conts = []
                    for s2, kind, val in r:
                        if kind == 'return':
                            s2.memo[(fid, e)] = val if val is not None else ('void',)
                            conts.append(s2)
                        else:
                            out.append((s2, kind, val))
                    if not conts:
                        ended = True
                        break
                    for s2 in conts[1:]:
                        work.append((b, s2, visits, pos))
                        self.note()
                    st = conts[0]
                if ended:
                    break
                bl = f.b[b]
                succ = [s for s in bl['s']]
                live = [s for s in succ if s is not None and s >= 0]
                if not live:
                    out.append((st, 'abort', None))
                    break
                if bl.get('t') == 'SwitchStmt':
                    c = self.value(f, bl['tc'], st, fid)
                    v = self.const(c)
                    if v is None:
                        v = self.model.decide(st, c)
                    if v is not None:
                        hit = [s for s in live if f.b[s].get('case') is not None and v in as_list(f.b[s]['case'])]
                        if not hit:
                            hit = [s for s in live if f.b[s].get('case') is None][-1:] or live[-1:]
                        b = hit[0]
                        continue
                    for s in live[1:]:
                        work.append((s, st.copy(), visits, 0))
                        self.note()
                    b = live[0]
                    continue
                if len(succ) == 2 and bl.get('tc', -1) is not None and bl.get('tc', -1) >= 0:
                    c = bl.get('lc', bl['tc'])
                    t = self.value(f, c, st, fid)
                    v = self.truth(st, t)
                    if v is None:
                        if succ[0] is not None and succ[0] >= 0 and succ[1] is not None and succ[1] >= 0:
                            s2 = st.copy()
                            s2.dec[t] = False
                            s2.memo[(fid, c)] = ('c', 0)
                            work.append((succ[1], s2, visits, 0))
                            self.note()
                            st.dec[t] = True
                            st.memo[(fid, c)] = ('c', 1) if not f.type(c).endswith('*') else t
                        b = succ[0] if succ[0] is not None and succ[0] >= 0 else succ[1]
                        continue
                    st.memo[(fid, c)] = ('c', int(v))
                    b = succ[0] if v else succ[1]
                    if b is None or b < 0:
                        b = live[0]
                    continue
                if len(live) > 1:
                    for s in live[1:]:
                        work.append((s, st.copy(), visits, 0))
                        self.note()
                b = live[0]
        return out

    def note(self):
        self.paths += 1
        if self.paths > self.model.max_paths:
            raise TooComplex()

    # ---- values ----------------------------------------------------------
    def value(self, f, i, st, fid):
        r = st.memo.get((fid, i))
        if r is None:
            self.element(f, i, st, fid)
            r = st.memo.get((fid, i))
        return r if r is not None else ('?', f.m, i)

    def rvalue(self, f, i, st, fid):
        v = self.value(f, i, st, fid)
        if v[0] == 'lv':
            return self.load(f, i, st, v)
        return v

    def load(self, f, i, st, lv):
        r = st.env.get(lv[1:])
        if r is not None:
            return r
        m = self.model.load(st, f, i, lv)
        if m is not None:
            return m
        if lv[1] == 'mem' or lv[1] == 'deref' or lv[1] == 'idx':
            return ('ld',) + lv[1:]
        return ('a', 'v:%s' % str(f.vars[lv[2]][0] if isinstance(lv[2], int) and lv[2] < len(f.vars) else lv[2]), ty(f.type(i)))

    def const(self, t):
        return t[1] if t and t[0] == 'c' else None

    def truth(self, st, t):
        v = self.const(t)
        if v is not None:
            return bool(v)
        if t in st.dec:
            return st.dec[t]
        if t[0] == 'un' and t[1] == '!':
            r = self.truth(st, t[3])
            return None if r is None else not r
        if t[0] == 'cast' and t[1] in (('u', 1), ('i', 32), ('i', 64), ('u', 32), ('u', 64)) and t[2][0] in ('op', 'un') and is_bool(t[2]):
            return self.truth(st, t[2])
        if t[0] == 'op' and t[1] in ('!=', '==') and t[4] == ('c', 0):
            if is_bool(strip_casts(t[3])):
                r = self.truth(st, strip_casts(t[3]))
                if r is not None:
                    return r if t[1] == '!=' else not r
        v = self.model.decide(st, t)
        return None if v is None else bool(v)

    def element(self, f, i, st, fid):
        n = f.x[i]
        k = n['k']
        c = n.get('c', ())
        key = (fid, i)
        put = lambda t: st.memo.__setitem__(key, t)
        if 'cv' in n and k not in ('Asg', 'CAsg', 'Call'):
            put(('c', n['cv']))
            return None
        if k == 'Int' or k == 'Bool':
            put(('c', n.get('cv', 0)))
        elif k == 'Float':
            put(('fc', n.get('fv', n.get('s'))))
        elif k == 'Str':
            put(('str', n.get('s', '')))
        elif k in ('Null', 'NullPtr'):
            put(('c', 0))
        elif k == 'This':
            put(st.env.get((fid, 'this'), ('a', 'this', ('p', 64))))
        elif k == 'Ref':
            if n.get('dk') == 'v':
                v = n['v']
                t = f.vars[v][1]
                al = st.env.get(('alias', fid, v))
                if al is not None:
                    put(al)
                else:
                    put(('lv', fid, v))
            elif n.get('dk') == 'f':
                put(('fn', n['f']))
            else:
                put(('lv', 'glob', n.get('d', '?')))
        elif k == 'Mem':
            if 'f' in n:
                put(('fn', n['f']))
                return None
            base = self.rvalue(f, c[0], st, fid) if c else st.env.get((fid, 'this'), ('a', 'this', ('p', 64)))
            bl = st.memo.get((fid, c[0])) if c else None
            if bl is not None and bl[0] == 'lv' and not n.get('arrow'):
                o = st.env.get(bl[1:])
                base = o if o is not None and o[0] == 'obj' else bl
            if base[0] == 'addr' and isinstance(base[1], tuple):
                o = st.env.get(base[1][1:])
                if o is not None and o[0] == 'obj':
                    base = o
            put(('lv', 'mem', base, n['d'].split('::')[-1]))
        elif k == 'Idx':
            put(('lv', 'idx', self.rvalue(f, c[0], st, fid), self.rvalue(f, c[1], st, fid)))
        elif k == 'Cast':
            self.cast(f, i, n, c, st, fid, put)
        elif k in ('Bin',):
            self.binary(f, i, n, c, st, fid, put)
        elif k == 'Un':
            self.unary(f, i, n, c, st, fid, put)
        elif k == 'Asg':
            v = self.rvalue(f, c[1], st, fid)
            lv = self.value(f, c[0], st, fid)
            self.assign(f, i, st, lv, v)
            put(lv)
        elif k == 'CAsg':
            lv = self.value(f, c[0], st, fid)
            a = self.load(f, c[0], st, lv) if lv[0] == 'lv' else lv
            b = self.rvalue(f, c[1], st, fid)
            t = ty(f.type(c[0]))
            if t[0] == 'p' and n['op'] in ('+=', '-='):
                v = ('padd' if n['op'] == '+=' else 'psub', elem(f.type(c[0])), a, b)
            else:
                v = mkop(n['op'].rstrip('='), t if t[1] >= 32 else ('i', 32), a, b)
            if t[1] < 32:
                v = mkcast(t, v, ('i', 32))
            self.assign(f, i, st, lv, v)
            put(lv)
        elif k == 'Decl':
            for v, init in n.get('vars', ()):
                if init < 0:
                    m = self.model.arrays and re.match(r'^(.*\S)\s*\[(.*)\]$', f.vars[v][1])
                    if m:
                        size = self.rvalue(f, n['vla'][1], st, fid) if n.get('vla', (None,))[0] == v else \
                            ('c', int(m.group(2))) if m.group(2).isdigit() else None
                        if size is not None:
                            st.n += 1
                            st.env[(fid, v)] = ('local', st.n, size, m.group(1))
                    continue
                if '&' in f.vars[v][1]:
                    x = self.value(f, init, st, fid)
                    if x[0] == 'lv':
                        st.env[('alias', fid, v)] = x
                        continue
                    st.env[(fid, v)] = x
                else:
                    x = self.rvalue(f, init, st, fid)
                    m = self.model.arrays and x[0] == 'x' and x[1] == 'InitList' and re.match(r'^(.*\S)\s*\[(\d*)\]$', f.vars[v][1])
                    if m:
                        st.n += 1
                        b = ('local', st.n, ('c', int(m.group(2) or len(x) - 2)), m.group(1))
                        for q, y in enumerate(x[2:]):
                            st.env[('idx', b, ('c', q))] = y
                        x = b
                    st.env[(fid, v)] = x
        elif k == 'Return':
            if c and c[0] >= 0:
                st.env[(fid, 'ret')] = self.value(f, c[0], st, fid) if '&' in f.ret else self.rvalue(f, c[0], st, fid)
        elif k == 'Cond':
            t = self.value(f, c[0], st, fid)
            v = self.cond_truth(f, c[0], st, fid)
            if v is None:
                put(('ite', t, self.rvalue(f, c[1], st, fid), self.rvalue(f, c[2], st, fid)))
            else:
                put(self.value(f, c[1] if v else c[2], st, fid))
        elif k in ('Call', 'New', 'Ctor'):
            return self.call(f, i, n, st, fid, put)
        elif k in ('Stmt', 'Init', 'InitList', 'Paren', 'Tmp', 'Bind') and len(c) == 1:
            put(self.value(f, c[0], st, fid))
        elif k == 'VAArg' and self.model.va_arg(st, f, i) is not None:
            put(st.memo.pop('va_arg'))
        else:
            put(('x', k) + tuple(self.rvalue(f, j, st, fid) for j in c if j >= 0))
        return None

    def cond_truth(self, f, i, st, fid):
        """truth of a condition whose parts may have been decided by branches"""
        i0 = i
        m = st.memo.get((fid, i))
        n = f.x[i]
        if n['k'] == 'Bin' and n['op'] in ('&&', '||'):
            a = self.cond_truth(f, n['c'][0], st, fid)
            if a is not None:
                if n['op'] == '&&' and not a:
                    return False
                if n['op'] == '||' and a:
                    return True
                return self.cond_truth(f, n['c'][1], st, fid)
            return None
        if m is not None and m[0] == 'c':
            return bool(m[1])
        if n['k'] == 'Cast' and n.get('c'):
            r = self.cond_truth(f, n['c'][0], st, fid)
            if r is not None:
                return r
        if m is None:
            return None
        return self.truth(st, m)

    def assign(self, f, i, st, lv, v):
        if lv[0] != 'lv':
            st.eff.append(('store', lv, v))
            return
        if self.model.store(st, f, i, lv, v):
            return
        st.env[lv[1:]] = v
        if lv[1] in ('mem', 'idx', 'deref', 'glob'):
            st.eff.append(('store', lv, v))

    def cast(self, f, i, n, c, st, fid, put):
        ck = n.get('ck')
        a = self.value(f, c[0], st, fid)
        if ck == 'LValueToRValue':
            put(self.load(f, c[0], st, a) if a[0] == 'lv' else a)
            return
        if a[0] == 'lv' and ck in ('ArrayToPointerDecay', 'NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'LValueBitCast', 'BitCast'):
            put(a)
            return
        if a[0] == 'lv':
            a = self.load(f, c[0], st, a)
        to, fr = ty(n_type(f, i)), ty(f.type(c[0]))
        if ck in ('IntegralCast', 'IntegralToBoolean', 'BooleanToSignedIntegral', 'FloatingToIntegral', 'IntegralToFloating', 'FloatingCast',
                  'FloatingToBoolean'):
            if ck == 'IntegralToBoolean':
                put(a if is_bool(a) else mkop('!=', fr, a, ('c', 0)))
            else:
                put(mkcast(to, a, fr))
        elif ck == 'PointerToBoolean':
            put(mkop('!=', ('p', 64), a, ('c', 0)))
        elif ck == 'NullToPointer':
            put(('c', 0))
        else:
            put(a)

    def binary(self, f, i, n, c, st, fid, put):
        op = n['op']
        if op in ('&&', '||'):
            v = self.cond_truth(f, i, st, fid)
            if v is not None:
                put(('c', int(v)))
            else:
                # value of the last operand decides
                put(self.rvalue(f, c[1], st, fid))
            return
        if op == ',':
            put(self.value(f, c[1], st, fid))
            return
        a, b = self.rvalue(f, c[0], st, fid), self.rvalue(f, c[1], st, fid)
        ta, tb = ty(f.type(c[0])), ty(f.type(c[1]))
        if ta[0] == 'p' and tb[0] in 'iu' and op in '+-':
            put(('padd' if op == '+' else 'psub', elem(f.type(c[0])), a, b))
        elif ta[0] == 'p' and tb[0] == 'p' and op == '-' and pbase(a)[0] == pbase(b)[0] and None not in (pbase(a)[1], pbase(b)[1]):
            put(('c', pbase(a)[1] - pbase(b)[1]))
        elif op in ('<', '>', '<=', '>=', '==', '!='):
            put(mkop(op, ta, a, b))
        else:
            put(mkop(op, ty(n_type(f, i)), a, b))

    def unary(self, f, i, n, c, st, fid, put):
        op = n['op']
        if op in ('++', '--'):
            lv = self.value(f, c[0], st, fid)
            old = self.load(f, c[0], st, lv) if lv[0] == 'lv' else lv
            t = ty(f.type(c[0]))
            if t[0] == 'p':
                new = ('padd' if op == '++' else 'psub', elem(f.type(c[0])), old, ('c', 1))
            else:
                new = mkop('+' if op == '++' else '-', t if t[1] >= 32 else ('i', 32), old, ('c', 1))
                if t[1] < 32:
                    new = mkcast(t, new, ('i', 32))
            self.assign(f, i, st, lv, new)
            put(old if n.get('post') else lv)
            return
        if op == '&':
            a = self.value(f, c[0], st, fid)
            put(('addr', a) if a[0] == 'lv' else ('addr', a))
            return
        a = self.rvalue(f, c[0], st, fid)
        if op == '*':
            put(a[1] if a[0] == 'addr' else ('lv', 'deref', a))
        elif op == '!':
            v = self.const(a)
            put(('c', int(not v)) if v is not None else ('un', '!', ('u', 1), a))
        elif op == '+':
            put(a)
        else:
            t = ty(n_type(f, i))
            v = self.const(a)
            if v is not None and t[0] in 'iu':
                put(('c', wrap(-v if op == '-' else ~v, t)))
            else:
                put(('un', op, t, a))

    def call(self, f, i, n, st, fid, put):
        c = n.get('c', ())
        vals = []
        for j in c:
            vals.append(self.value(f, j, st, fid) if j >= 0 else ('?', 0, 0))
        fn = n.get('fn') or n.get('cls') or ''
        if fn == '__builtin_expect':
            put(self.rvalue(f, c[0], st, fid))
            return None
        r = self.model.call(self, st, f, i, fn, vals)
        if r is not None:
            put(r)
            return None
        if n['k'] == 'Call' and (n.get('nr') or ('f' in n and n['f'] in self.nr)):
            st.eff.append(('call', fn, tuple(vals)))
            raise Stop('abort')
        g = self.P.funcs.get(n.get('f')) if n['k'] == 'Call' and not n.get('virt') else None
        new = False
        if n['k'] == 'Ctor' and self.P.funcs.get(n.get('f')) is not None and self.model.ctor(self.P.funcs[n['f']]):
            g, new = self.P.funcs[n['f']], True
            st.n += 1
            vals = [('obj', st.n, g.cls)] + vals
        if g is not None and st.depth < 6 and (new or self.model.inline(g)) and g.b:
            st.depth += 1
            a = vals
            this = None
            if g.cls and 'st' not in g.flags:
                this, a = (vals[0] if vals else None), vals[1:]
            self.fid += 1
            sub = self.fid
            for k, v in enumerate(a):
                if k < len(g.params):
                    p = g.params[k]
                    if '&' in g.vars[p][1]:
                        if v[0] == 'lv':
                            st.env[('alias', sub, p)] = v
                        else:
                            st.env[(sub, p)] = v
                    else:
                        st.env[(sub, p)] = self.load(f, c[k + (1 if this is not None and not new else 0)], st, v) if v[0] == 'lv' else v
            res = self.run(g, None, st=st, this=this, fid=sub)
            for s, _, _ in res:
                s.depth -= 1
            if new:
                return [(s, kind, this if kind == 'return' else v) for s, kind, v in res]
            return res
        vals = tuple(self.load(f, j, st, v) if v[0] == 'lv' and not byref(v) else v for j, v in zip(c, vals))
        st.n += 1
        t = ('r', fn, st.n, vals)
        st.eff.append(('call', fn, vals))
        put(t)
        return None


def byref(v):
    return False


def as_list(v):
    return v if isinstance(v, list) else [v]


def n_type(f, i):
    return f.type(i)


def elem(s):
    return s.strip().rstrip('*').strip()


def is_bool(t):
    return t[0] == 'op' and t[1] in ('<', '>', '<=', '>=', '==', '!=') or t[0] == 'un' and t[1] == '!'


def strip_casts(t):
    while t[0] == 'cast':
        t = t[2]
    return t


FOLD = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '&': lambda a, b: a & b, '|': lambda a, b: a | b,
        '^': lambda a, b: a ^ b, '<<': lambda a, b: a << b if 0 <= b < 64 else 0, '>>': lambda a, b: a >> b if 0 <= b < 64 else 0,
        '<': lambda a, b: int(a < b), '>': lambda a, b: int(a > b), '<=': lambda a, b: int(a <= b), '>=': lambda a, b: int(a >= b),
        '==': lambda a, b: int(a == b), '!=': lambda a, b: int(a != b)}


def pbase(p):
    """(base, number of elements) of a pointer that counts elements of one type"""
    p = strip_casts(p)
    n, t = 0, None
    while p[0] in ('padd', 'psub') and t in (None, p[1]):
        if p[3][0] != 'c':
            return p, None
        n += p[3][1] if p[0] == 'padd' else -p[3][1]
        t = p[1]
        p = strip_casts(p[2])
    return p, n


def mkop(op, t, a, b):
    if a[0] == 'c' and b[0] == 'c' and op in FOLD and isinstance(a[1], int) and isinstance(b[1], int):
        x, y = (wrap(a[1], t), wrap(b[1], t)) if op in ('<', '>', '<=', '>=', '==', '!=') else (a[1], b[1])
        v = FOLD[op](x, y)
        return ('c', v if op in ('<', '>', '<=', '>=', '==', '!=') else wrap(v, t))
    if a[0] == 'c' and b[0] == 'c' and op in '/%' and b[1] != 0 and isinstance(a[1], int):
        q = abs(a[1]) // abs(b[1])
        q = -q if (a[1] < 0) != (b[1] < 0) else q
        return ('c', wrap(q if op == '/' else a[1] - q * b[1], t))
    return ('op', op, t, a, b)


def mkcast(to, a, fr):
    if a[0] == 'c' and to[0] == 'f' and isinstance(a[1], int):
        return ('fc', float(a[1]))
    if a[0] == 'fc' and to[0] == 'f' and fl(a[1]) is not None and (to[1] == 64 or fl(a[1]) == int(fl(a[1])) and abs(fl(a[1])) < 1 << 24):
        return ('fc', fl(a[1]))
    if a[0] == 'c' and to[0] in 'iu' and isinstance(a[1], int):
        return ('c', wrap(a[1], to))
    if to == fr:
        return a
    return ('cast', to, a, fr)


# ---- normal forms ---------------------------------------------------------

def fl(x):
    try:
        v = float(x)
        return v if v == v and abs(v) != float('inf') else None
    except (TypeError, ValueError):
        return None


def norm(t, w):
    """the low w bits of an integer term, independent of how it is written"""
    k = t[0]
    if k == 'c':
        return ('c', t[1] & ((1 << w) - 1)) if isinstance(t[1], int) else t
    if k == 'cast' and t[1][0] in 'iu' and t[3][0] in 'iu':
        to, fr = t[1], t[3]
        if to[1] == 1:
            return ('bool', normx(t[2]))
        if to[1] >= w:
            if fr[1] >= w:
                return norm(t[2], w)
            return ext(fr, norm(t[2], fr[1]))
        return ext(to, norm(t[2], to[1]) if fr[1] >= to[1] else norm(t, to[1]) if False else (norm(t[2], fr[1]) if fr[1] == to[1] else norm2(t, to)))
    if k == 'a':
        aw = t[2][1]
        if aw == w or aw == 0:
            return ('a', t[1])
        if aw > w:
            return ('low', w, ('a', t[1]))
        return ext(t[2], ('a', t[1]))
    if k == 'op':
        op, ot = t[1], t[2]
        if op in ('+', '-'):
            return lin(t, w)
        if op == '*':
            a, b = norm(t[3], w), norm(t[4], w)
            if a[0] == 'c' or b[0] == 'c':
                return lin(t, w)
            return ('*',) + tuple(sorted((a, b), key=repr))
        if op in ('&', '|', '^'):
            a, b = norm(t[3], w), norm(t[4], w)
            if a[0] == 'c' and b[0] == 'c':
                return ('c', FOLD[op](a[1], b[1]))
            full = (1 << w) - 1
            for x, y in ((a, b), (b, a)):
                if x[0] == 'c':
                    if op == '&' and x[1] == full:
                        return y
                    if op in '|^' and x[1] == 0:
                        return y
                    if op == '&' and x[1] == 0:
                        return ('c', 0)
                    # and with 2^k-1 is a zero extension
                    if op == '&' and (x[1] & (x[1] + 1)) == 0 and x[1].bit_length() in (8, 16, 32) and x[1].bit_length() < w:
                        q = x[1].bit_length()
                        z = norm(t[4] if y is b else t[3], q)
                        return ext(('u', q), z)
            return (op,) + tuple(sorted((a, b), key=repr))
        if op == '<<':
            a, b = norm(t[3], w), shamt(t[4])
            if b[0] == 'c' and a[0] == 'c':
                return ('c', (a[1] << b[1]) & ((1 << w) - 1))
            return ('<<', a, b)
        if op == '>>':
            ow = ot[1]
            a, b = norm(t[3], ow), shamt(t[4])
            r = ('sar' if ot[0] == 'i' else 'shr', ow, a, b)
            return r if ow == w else (('low', w, r) if ow > w else ext(ot, r))
        if op in ('/', '%'):
            ow = ot[1]
            r = (op, ot, norm(t[3], ow), norm(t[4], ow))
            return r if ow == w else (('low', w, r) if ow > w else ext(ot, r))
        if op in ('<', '>', '<=', '>=', '==', '!='):
            return ('bool', normx(t))
    if k == 'un':
        if t[1] == '-':
            return lin(t, w)
        if t[1] == '~':
            return lin(t, w)
        if t[1] == '!':
            return ('bool', normx(t))
    return ('t', w, normx(t))


def norm2(t, to):
    fr = t[3]
    return ext(fr, norm(t[2], fr[1])) if fr[1] < to[1] else norm(t[2], to[1])


def shamt(t):
    """a shift amount"""
    t0 = t
    while t[0] == 'cast' and t[1][0] in 'iu' and t[3][0] in 'iu' and t[1][1] >= 8 and t[3][1] >= 8:
        t = t[2]
    if t[0] == 'op' and t[1] == '&':
        for x, y in ((t[3], t[4]), (t[4], t[3])):
            x = strip_casts(x) if strip_casts(x)[0] == 'c' else x
            if x[0] == 'c' and x[1] in (31, 63):
                return ('mask', x[1], shamt(y))
    if t[0] == 'c':
        return t
    return norm(t, 8) if t[0] != 'a' else ('low', 8, ('a', t[1]))


def ext(fr, x):
    if x[0] == 'c':
        return ('c', wrap(x[1], fr) if True else 0)
    if x[0] in ('sext', 'zext') and x[1] <= fr[1]:
        # extension of an extension to a wider type keeps the inner one when signs agree or the inner one is a zero extension
        if x[0] == 'zext' and x[1] < fr[1]:
            return x
        if x[0] == 'sext' and fr[0] == 'i':
            return x
    return ('sext' if fr[0] == 'i' else 'zext', fr[1], x)


def lin(t, w):
    """linear combination modulo 2^w"""
    acc = {}

    def add(t, c):
        k = t[0]
        if k == 'op' and t[1] in '+-' and t[2][0] in 'iu' and t[2][1] >= w:
            add(t[3], c)
            add(t[4], c if t[1] == '+' else -c)
            return
        if k == 'un' and t[1] == '-' and t[2][0] in 'iu' and t[2][1] >= w:
            add(t[3], -c)
            return
        if k == 'un' and t[1] == '~' and t[2][0] in 'iu' and t[2][1] >= w:
            add(t[3], -c)
            acc[1] = acc.get(1, 0) - c
            return
        if k == 'op' and t[1] == '*' and t[2][0] in 'iu' and t[2][1] >= w:
            for x, y in ((t[3], t[4]), (t[4], t[3])):
                xx = norm(x, w)
                if xx[0] == 'c':
                    add(y, c * wrap(xx[1], ('i', w)))
                    return
        if k == 'cast' and t[1][0] in 'iu' and t[3][0] in 'iu' and t[1][1] >= w and t[3][1] >= w:
            add(t[2], c)
            return
        x = norm(t, w) if not (k in ('op', 'un') and t[1] in ('+', '-', '~')) else ('t', w, normx(t))
        if x[0] == 'c':
            acc[1] = acc.get(1, 0) + c * x[1]
        elif x[0] == 'lin':
            for a, b in x[1]:
                acc[a] = acc.get(a, 0) + b * c
        else:
            acc[x] = acc.get(x, 0) + c

    add(t, 1)
    m = (1 << w) - 1
    acc = {k: v & m for k, v in acc.items() if v & m}
    if not acc:
        return ('c', 0)
    if list(acc) == [1]:
        return ('c', acc[1])
    if len(acc) == 1 and list(acc.values()) == [1]:
        return list(acc)[0]
    return ('lin', tuple(sorted(acc.items(), key=repr)))


FLIP = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}


def normx(t):
    """normal form of any term"""
    if not isinstance(t, tuple) or not t:
        return t
    k = t[0]
    if k in ('c', 'fn', 'str'):
        return t
    if k == 'fc':
        try:
            return ('fc', float(t[1]))
        except (TypeError, ValueError):
            return t
    if k == 'a':
        return ('a', t[1])
    if k == 'op':
        op, ot = t[1], t[2]
        if op in FLIP:
            if ot[0] in 'iu':
                a, b = norm(t[3], ot[1]), norm(t[4], ot[1])
            else:
                a, b = normx(t[3]), normx(t[4])
            if op in ('>', '>='):
                op, a, b = FLIP[op], b, a
            elif op in ('==', '!='):
                a, b = sorted((a, b), key=repr)
            return ('cmp', op, ot[0] if op not in ('==', '!=') or ot[0] not in 'iu' else 'i', a, b)
        if ot[0] in 'iu':
            return norm(t, ot[1])
        if ot[0] == 'f':
            a, b = normx(t[3]), normx(t[4])
            if op in ('+', '*'):
                a, b = sorted((a, b), key=repr)
            return ('f' + op, ot[1], a, b)
    if k == 'un':
        if t[1] == '!':
            x = normx(t[3])
            inv = {'<': '>=', '<=': '>', '==': '!=', '!=': '=='}
            if x[0] == 'cmp' and x[2] != 'f':
                op = inv[x[1]]
                a, b = x[3], x[4]
                if op in ('>', '>='):
                    op, a, b = FLIP[op], b, a
                return ('cmp', op, x[2], a, b)
            return ('!', x)
        if t[2][0] in 'iu':
            return norm(t, t[2][1])
        return ('f' + t[1], t[2][1], normx(t[3]))
    if k == 'cast':
        to, fr = t[1], t[3]
        if to[0] in 'iu' and fr[0] in 'iu':
            return norm(t, to[1])
        if to[0] == 'f' and fr[0] == 'f':
            return ('fcast', to[1], fr[1], normx(t[2]))
        if to[0] == 'f':
            return ('i2f', to[1], fr, norm(t[2], fr[1]) if fr[0] in 'iu' else normx(t[2]))
        if fr[0] == 'f':
            return ('f2i', to, fr[1], normx(t[2]))
        return normx(t[2])
    if k == 'r':
        return ('r', t[1], t[2]) + tuple(normx(x) for x in t[3])
    return tuple(normx(x) if isinstance(x, tuple) else x for x in t)


def show(t, d=0):
    """readable rendering of a normal form"""
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    k = t[0]
    s = lambda x: show(x, d + 1)
    if k == 'c':
        return str(t[1])
    if k == 'a':
        return t[1]
    if k == 'fc':
        return '%sf' % t[1]
    if k == 'lin':
        return '(' + ' + '.join((str(b) if a == 1 else s(a) if b == 1 else '%d*%s' % (b, s(a))) for a, b in t[1]) + ')'
    if k in ('sext', 'zext', 'low'):
        return '%s%d(%s)' % (k, t[1], s(t[2]))
    if k == 'cmp':
        return '(%s %s %s)' % (s(t[3]), t[1], s(t[4]))
    if k in ('*', '&', '|', '^', '<<'):
        return '(%s %s %s)' % (s(t[1]), k, s(t[2]))
    if k == 'r':
        return '%s(%s)' % (t[1].split('::')[-1], ', '.join(s(x) for x in t[3:]))
    if k == 'mask':
        return '(%s & %d)' % (s(t[2]), t[1])
    return '%s(%s)' % (k, ', '.join(s(x) if isinstance(x, tuple) else str(x) for x in t[1:]))
