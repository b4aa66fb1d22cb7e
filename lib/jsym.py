"""Symbolic paths through the bytecode of a method.

Values are hash-consable tuples:
  ('i', n)  ('j', n)  ('f', x)  ('null',)  ('s', text)  ('cls', name)
  ('p', k)                 parameter k (0 = this in instance methods)
  ('new', site, desc, n)   object or array made at pc (arrays: n = length value)
  ('len', v)               length of array v
  ('fld', obj, name, ver)  field; obj None for a static one
  ('el', arr, idx, ver)    array element
  ('call', pc, name, args, n)  result of a call
  ('h', site, slot, kind)  unknown value of a local at a loop head
  ('exc', pc)              exception caught
  (op, a, b) / (op, a)     arithmetic, op as in the bytecode ('iadd', 'i2l', ...)
A loop is entered once with every local it changes unknown, so a path stands for all its iterations.
"""
from jclass import parse_desc

CMP = {'eq': '==', 'ne': '!=', 'lt': '<', 'ge': '>=', 'gt': '>', 'le': '<='}
NEG = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}


class TooMany(Exception):
    pass


class Path:
    __slots__ = ('end', 'value', 'facts', 'events', 'pc')
    # end: 'return', 'throw', 'loop' (back to a loop head), 'stop'


def wide(v):
    return v[0] == 'W'


def size(d):
    return 2 if d in ('J', 'D') else 1


def loops(m):
    """{head pc: set of pcs in the loop}"""
    r = getattr_cache.get(id(m))
    if r is not None:
        return r
    succ = {p: [t for t in m.succ(p)] + [h for h, _ in m.handlers(p)] for p in m.order}
    pred = {}
    for p, ss in succ.items():
        for s in ss:
            pred.setdefault(s, set()).add(p)
    color, back = {}, set()
    st = [(m.order[0], iter(succ[m.order[0]]))]
    color[m.order[0]] = 1
    while st:
        p, it = st[-1]
        for s in it:
            if color.get(s) == 1:
                back.add((p, s))
            elif s not in color:
                color[s] = 1
                st.append((s, iter(succ[s])))
                break
        else:
            color[p] = 2
            st.pop()
    out = {}
    for p, h in back:
        body = out.setdefault(h, {h})
        w = [p]
        while w:
            x = w.pop()
            if x not in body:
                body.add(x)
                w += pred.get(x, ())
    getattr_cache[id(m)] = out
    keep.append(m)
    return out


getattr_cache, keep = {}, []
ICONST = {'iconst_m1': -1, **{'iconst_%d' % i: i for i in range(6)}}
BIN = {o for t in 'ilfd' for o in (t + 'add', t + 'sub', t + 'mul', t + 'div', t + 'rem')} | \
    {t + o for t in 'il' for o in ('shl', 'shr', 'ushr', 'and', 'or', 'xor')} | {'lcmp', 'fcmpl', 'fcmpg', 'dcmpl', 'dcmpg'}
UN = {'ineg', 'lneg', 'fneg', 'dneg', 'i2l', 'i2f', 'i2d', 'l2i', 'l2f', 'l2d', 'f2i', 'f2l', 'f2d', 'd2i', 'd2l', 'd2f', 'i2b', 'i2c', 'i2s'}


class State:
    __slots__ = ('pc', 'loc', 'st', 'facts', 'ev', 'ver', 'heap', 'heads', 'count', 'frames')

    def copy(self):
        s = State()
        s.pc, s.loc, s.st, s.facts, s.ev = self.pc, dict(self.loc), list(self.st), self.facts, self.ev
        s.ver, s.heap, s.heads, s.count = self.ver, dict(self.heap), self.heads, dict(self.count)
        s.frames = self.frames
        return s


def fold(op, a, b=None):
    """constant folding of int arithmetic, comparison of equals"""
    if a[0] == 'i' and (b is None or b[0] == 'i'):
        x, y = a[1], b[1] if b else None
        w = lambda v: ('i', (v + 2**31) % 2**32 - 2**31)
        if op == 'iadd':
            return w(x + y)
        if op == 'isub':
            return w(x - y)
        if op == 'imul':
            return w(x * y)
        if op == 'ishl':
            return w(x << (y & 31))
        if op == 'ishr':
            return w(x >> (y & 31))
        if op == 'iushr':
            return w((x & 0xffffffff) >> (y & 31))
        if op == 'iand':
            return w(x & y)
        if op == 'ior':
            return w(x | y)
        if op == 'ixor':
            return w(x ^ y)
        if op == 'ineg':
            return w(-x)
        if op == 'i2l':
            return ('j', x)
        if op == 'i2b':
            return ('i', (x + 128) % 256 - 128)
        if op == 'i2c':
            return ('i', x & 0xffff)
        if op == 'i2s':
            return ('i', (x + 2**15) % 2**16 - 2**15)
    return (op, a) if b is None else (op, a, b)


def truth(c, a, b):
    if a[0] in 'ij' and b[0] in 'ij' and len(a) == 2 == len(b) and a[0] == b[0]:
        x, y = a[1], b[1]
    elif a == b and a[0] not in ('call',):
        x = y = 0
    elif (a[0] == 'new' and b == ('null',)) or (a[0] == 'p' and a[1] == 'this' and b == ('null',)):
        x, y = 1, 0
    else:
        return None
    return {'==': x == y, '!=': x != y, '<': x < y, '>=': x >= y, '>': x > y, '<=': x <= y}[c]


def paths(m, inline=None, handlers=False, limit=3000, args=None, pure=None, facts=(), heap=None, keepall=True):
    """all symbolic paths of method m.

    inline(call name, receiver class, args) -> Method to step into, or None
    handlers: also follow exception handlers from the calls they cover
    pure(name) -> True if a call changes no field or array
    """
    out = []
    s = State()
    s.pc, s.st, s.facts, s.ev, s.ver, s.heads, s.count = m.order[0], [], tuple(facts), (), 0, frozenset(), {}
    s.heap = dict(heap or {})
    s.loc, k = {}, 0
    ps = ([] if m.static else ['L%s;' % m.cls.name]) + m.params()
    for i, d in enumerate(ps):
        s.loc[k] = args[i] if args is not None else ('p', i)
        k += size(d)
    s.frames = ((m, None, None, None),)
    work = [s]
    n = 0
    while work:
        s = work.pop()
        n += 1
        if n > limit:
            raise TooMany(m.id)
        r = step(s, inline, handlers, pure, out, m)
        work.extend(r)
        if len(out) > limit:
            raise TooMany(m.id)
    return out


def done(out, s, end, value):
    p = Path()
    p.end, p.value, p.facts, p.events, p.pc = end, value, s.facts, s.ev, s.pc
    out.append(p)


def two(v):
    return v


def unrolled(s, m, pc):
    """the test at the head of a loop has a known result: the loop is followed turn by turn"""
    key = (len(s.frames), m.id, pc)
    if key in s.heads:
        return False
    n = s.count.get(('turn', key), 0)
    if n > 64:
        return False
    st, q = [], pc
    for _ in range(12):
        i = m.ins[q]
        o = i.op
        if o in ICONST:
            st.append(('i', ICONST[o]))
        elif o in ('bipush', 'sipush'):
            st.append(('i', i.arg))
        elif o in ('iload', 'aload'):
            st.append(s.loc.get(i.arg, ('undef', i.arg)))
        elif o == 'arraylength' and st:
            v = st.pop()
            st.append(v[3] if v[0] == 'new' and v[3] is not None else ('len', v))
        elif o in ('iadd', 'isub') and len(st) > 1:
            b, a = st.pop(), st.pop()
            st.append(fold(o, a, b))
        elif o.startswith('if_icmp') and len(st) > 1:
            t = truth(CMP[o[-2:]], st[-2], st[-1])
            break
        elif o in ('ifeq', 'ifne', 'iflt', 'ifge', 'ifgt', 'ifle') and st:
            t = truth(CMP[o[2:]], st[-1], ('i', 0))
            break
        else:
            return False
        q = i.next
    else:
        return False
    if t is None or st[-1][0] not in "ij":
        return False
    s.count[('turn', key)] = n + 1
    return True


def step(s, inline, handlers, pure, out, root):
    """run s until it branches or ends; the list of continuing states"""
    while True:
        m = s.frames[-1][0]
        pc = s.pc
        lp = loops(m)
        if pc in lp and not unrolled(s, m, pc):
            key = (len(s.frames), m.id, pc)
            if key in s.heads:
                done(out, s, 'loop', (pc, dict(s.loc)))
                return []
            body = lp[pc]
            before, site = dict(s.loc), (m.id, pc, len(s.ev))
            s.heads = s.heads | {key}
            for q in body:
                i = m.ins[q]
                if i.op in ('istore', 'lstore', 'fstore', 'dstore', 'astore'):
                    s.loc[i.arg] = ('h', site, i.arg, i.op[0])
                elif i.op == 'iinc':
                    s.loc[i.arg[0]] = ('h', site, i.arg[0], 'i')
            s.ver += 1
            s.heap = {}
            s.ev = s.ev + (('loop', pc, (m, before, dict(s.loc))),)
        i = m.ins[pc]
        o = i.op
        st = s.st
        s.pc = i.next
        ret = None
        if o in ICONST:
            st.append(('i', ICONST[o]))
        elif o in ('bipush', 'sipush'):
            st.append(('i', i.arg))
        elif o == 'aconst_null':
            st.append(('null',))
        elif o in ('lconst_0', 'lconst_1'):
            st.append(('j', int(o[-1])))
        elif o[1:7] == 'const_':
            st.append(('f', float(o[-1])))
        elif o == 'ldc':
            a = i.arg
            k = a[0]
            if k == 'int':
                st.append(('i', a[1]))
            elif k == 'long':
                st.append(('j', a[1]))
            elif k == 'string':
                st.append(('s', a[1]))
            elif k == 'class':
                st.append(('cls', a[1]))
            else:
                st.append(('f', a[1] if len(a) > 1 else 0))
        elif o in ('iload', 'lload', 'fload', 'dload', 'aload'):
            st.append(s.loc.get(i.arg, ('undef', i.arg)))
        elif o in ('istore', 'lstore', 'fstore', 'dstore', 'astore'):
            s.loc[i.arg] = st.pop()
        elif o == 'iinc':
            s.loc[i.arg[0]] = fold('iadd', s.loc.get(i.arg[0], ('undef', 0)), ('i', i.arg[1]))
        elif o in BIN:
            b, a = st.pop(), st.pop()
            if o in ('idiv', 'irem', 'ldiv', 'lrem'):
                s.ev = s.ev + (('div', pc, (a, b)),)
            st.append(fold(o, a, b))
        elif o in UN:
            st.append(fold(o, st.pop()))
        elif o == 'pop':
            st.pop()
        elif o == 'pop2':
            if not isw(m, i, st.pop(), s):
                st.pop()
        elif o == 'dup':
            st.append(st[-1])
        elif o == 'dup_x1':
            a, b = st.pop(), st.pop()
            st += [a, b, a]
        elif o == 'dup_x2':
            a, b = st.pop(), st.pop()
            if isw(m, i, b, s):
                st += [a, b, a]
            else:
                c = st.pop()
                st += [a, c, b, a]
        elif o == 'dup2':
            if isw(m, i, st[-1], s):
                st.append(st[-1])
            else:
                st += st[-2:]
        elif o == 'dup2_x1':
            a = st.pop()
            if isw(m, i, a, s):
                b = st.pop()
                st += [a, b, a]
            else:
                b, c = st.pop(), st.pop()
                st += [b, a, c, b, a]
        elif o == 'dup2_x2':
            a, b = st.pop(), st.pop()
            if isw(m, i, a, s):
                if isw(m, i, b, s):
                    st += [a, b, a]
                else:
                    c = st.pop()
                    st += [a, c, b, a]
            else:
                c = st.pop()
                if isw(m, i, c, s):
                    st += [b, a, c, b, a]
                else:
                    d = st.pop()
                    st += [b, a, d, c, b, a]
        elif o == 'swap':
            st[-1], st[-2] = st[-2], st[-1]
        elif o[1:] == 'aload':
            x, a = st.pop(), st.pop()
            v = s.heap.get(('el', a, x))
            st.append(v if v is not None else ('el', a, x, s.ver, o[0]))
            s.ev = s.ev + (('aload', pc, (a, x)),)
        elif o[1:] == 'astore':
            v, x, a = st.pop(), st.pop(), st.pop()
            if o[0] == 'b':
                v = fold('i2b', v) if v[0] == 'i' else v
            for k in [k for k in s.heap if k[0] == 'el' and not distinct(k[1], a)]:
                if not (k[1] == a and k[2][0] == 'i' == x[0] and k[2] != x):
                    del s.heap[k]
            if a[0] != 'new':
                s.ver += 1
            s.heap[('el', a, x)] = v if o[0] in 'ilfda' else (({'b': 'i2b', 'c': 'i2c', 's': 'i2s'}[o[0]], v) if v[0] != 'i' else v)
            s.ev = s.ev + (('astore', pc, (a, x, v, o[0])),)
        elif o == 'arraylength':
            v = st.pop()
            st.append(v[3] if v[0] == 'new' and v[3] is not None else ('len', v))
        elif o in ('getfield', 'getstatic'):
            ob = st.pop() if o == 'getfield' else None
            k = ('fld', ob, i.arg[2] if ob is not None else i.arg[1] + '.' + i.arg[2])
            v = s.heap.get(k)
            if v is None:
                v = k + (s.ver, i.arg[3])
                s.heap[k] = v
            st.append(v)
        elif o in ('putfield', 'putstatic'):
            v = st.pop()
            ob = st.pop() if o == 'putfield' else None
            nm = i.arg[2] if ob is not None else i.arg[1] + '.' + i.arg[2]
            for k in [k for k in s.heap if k[0] == 'fld' and k[2] == nm and not (k[1] is not None and ob is not None and distinct(k[1], ob))]:
                del s.heap[k]
            s.heap[('fld', ob, nm)] = v
            s.ev = s.ev + (('put', pc, (ob, nm, v)),)
        elif o.startswith('invoke'):
            r = call(s, m, i, inline, handlers, pure, out)
            if r is not None:
                return r
            continue
        elif o == 'new':
            st.append(('new', (m.id, pc, len(s.frames), len(s.ev)), i.arg[1], None))
            s.ev = s.ev + (('new', pc, st[-1]),)
        elif o == 'newarray' or o == 'anewarray':
            st.append(('new', (m.id, pc, len(s.frames), len(s.ev)), '[' + (i.arg[1] if o[0] == 'a' else str(i.arg)), st.pop()))
            s.ev = s.ev + (('newarray', pc, (st[-1], s.facts)),)
        elif o == 'multianewarray':
            k = i.arg[1]
            ds = st[-k:]
            del st[-k:]
            st.append(('new', (m.id, pc, len(s.frames), len(s.ev)), i.arg[0][1], ds[0]))
        elif o == 'checkcast':
            s.ev = s.ev + (('cast', pc, (st[-1], i.arg[1])),)
        elif o == 'instanceof':
            st.append(('instanceof', st.pop(), i.arg[1]))
        elif o in ('monitorenter', 'monitorexit'):
            s.ev = s.ev + ((o, pc, st.pop()),)
        elif o in ('goto', 'goto_w'):
            s.pc = i.targets[0]
        elif o.startswith('if'):
            if o in ('ifnull', 'ifnonnull'):
                a, b, c = st.pop(), ('null',), '==' if o == 'ifnull' else '!='
            elif o.startswith(('if_icmp', 'if_acmp')):
                b = st.pop()
                a = st.pop()
                c = CMP[o[-2:]]
            else:
                a, b, c = st.pop(), ('i', 0), CMP[o[2:]]
                if a[0] in ('lcmp',) and len(a) == 3:
                    a, b = a[1], a[2]
            t = truth(c, a, b)
            if t is None and (c, a, b) in s.facts:
                t = True
            if t is None and (NEG[c], a, b) in s.facts:
                t = False
            if t is not None:
                if t:
                    s.pc = i.targets[0]
                continue
            x = s.copy()
            x.pc = i.targets[0]
            x.facts = s.facts + ((c, a, b),)
            s.facts = s.facts + ((NEG[c], a, b),)
            return [x, s]
        elif o in ('tableswitch', 'lookupswitch'):
            v = st.pop()
            if v[0] == 'i':
                s.pc = i.arg.get(v[1], i.targets[0])
                continue
            r = []
            for k, t in sorted(i.arg.items()):
                x = s.copy()
                x.pc = t
                x.facts = s.facts + (('==', v, ('i', k)),)
                r.append(x)
            s.pc = i.targets[0]
            s.facts = s.facts + tuple(('!=', v, ('i', k)) for k in sorted(i.arg))
            return r + [s]
        elif o == 'athrow':
            v = st.pop()
            h = m.handlers(pc)
            if len(s.frames) > 1:
                done(out, s, 'throw', v)
                return []
            if handlers and h:
                r = []
                for t, ty in h:
                    x = s.copy()
                    x.pc, x.st = t, [v]
                    x.ev = s.ev + (('catch', pc, (ty, v)),)
                    r.append(x)
                    if ty is None:
                        break
                else:
                    done(out, s, 'throw', v)
                return r
            done(out, s, 'throw', v)
            return []
        elif o.endswith('return'):
            v = st.pop() if o != 'return' else None
            if len(s.frames) > 1:
                _, loc, st2, npc = s.frames[-1]
                s.heads = frozenset(h for h in s.heads if h[0] < len(s.frames))
                s.frames = s.frames[:-1]
                s.loc, s.st, s.pc = dict(loc), list(st2), npc
                if v is not None:
                    s.st.append(v)
                continue
            s.pc = pc
            done(out, s, 'return', v)
            return []
        elif o == 'nop':
            pass
        else:
            s.pc = pc
            done(out, s, 'stop', o)
            return []


def distinct(a, b):
    """the two objects are certainly different"""
    if a == b:
        return False
    if a[0] == 'new' and b[0] == 'new':
        return True
    return (a[0] == 'new' and b[0] in ('p', 'fld', 'el')) or (b[0] == 'new' and a[0] in ('p', 'fld', 'el'))


def isw(m, i, v, s):
    """the value takes two stack slots"""
    k = v[0]
    if k in ('j',):
        return True
    if k in ('i', 'null', 's', 'cls', 'new', 'len', 'exc', 'instanceof'):
        return False
    if k == 'fld':
        return v[4] in 'JD'
    if k == 'el':
        return v[4] in 'ld'
    if k == 'h':
        return v[3] in 'ld'
    if k == 'call':
        return v[2][2].endswith((')J', ')D'))
    if k in BIN or k in UN:
        if k in ('lcmp', 'fcmpl', 'fcmpg', 'dcmpl', 'dcmpg'):
            return False
        t = k[2] if k in UN and k[1] == '2' else k[0]
        return t in 'ld'
    if k == 'p':
        ps = ([] if m.static else ['L;']) + m.params()
        return isinstance(v[1], int) and v[1] < len(ps) and ps[v[1]] in ('J', 'D')
    return False


def call(s, m, i, inline, handlers, pure, out):
    st = s.st
    pc = i.pc
    a = i.arg
    if i.op == 'invokedynamic':
        cls, name, desc = '', a[2], a[3]
        ps, rt = parse_desc(desc)
        args = st[len(st) - len(ps):]
        del st[len(st) - len(ps):]
        st.append(('call', (m.id, pc, len(s.frames)), ('', name, desc), tuple(args), 0))
        return None
    cls, name, desc = a[1], a[2], a[3]
    ps, rt = parse_desc(desc)
    n = len(ps) + (i.op != 'invokestatic')
    args = tuple(st[len(st) - n:]) if n else ()
    if n:
        del st[len(st) - n:]
    g = inline(i, cls, name, desc, args) if inline and len(s.frames) < 12 else None
    if g is not None and g.code is not None and all(f[0] is not g for f in s.frames):
        s.frames = s.frames + ((g, s.loc, s.st, i.next),)
        s.loc, s.st, k = {}, [], 0
        gp = ([] if g.static else ['L;']) + g.params()
        for j, d in enumerate(gp):
            s.loc[k] = args[j]
            k += size(d)
        s.pc = g.order[0]
        return None
    c = s.count.get((len(s.frames), pc), 0)
    s.count[(len(s.frames), pc)] = c + 1
    val = ('call', (m.id, pc, len(s.frames), len(s.ev)), (cls, name, desc), args, c)
    s.ev = s.ev + (('call', pc, (i.op, cls, name, desc, args, s.facts, m, val)),)
    r = []
    if handlers and len(s.frames) == 1:
        for t, ty in m.handlers(pc):
            x = s.copy()
            x.pc, x.st = t, [('exc', (m.id, pc))]
            x.heap = {}
            x.ver += 1
            x.ev = s.ev + (('catch', pc, (ty, None)),)
            r.append(x)
            if ty is None:
                break
    if not (pure and pure(cls, name, desc)):
        s.ver += 1
        esc = set(args)
        s.heap = {k: v for k, v in s.heap.items() if k[1] is not None and k[1][0] == 'new' and k[1] not in esc and not name == '<init>'} \
            if name != '<init>' else {k: v for k, v in s.heap.items() if k[1] is not None and (k[1] not in esc)}
    if rt != 'V':
        st.append(val)
    s.pc = i.next
    if r:
        return r + [s]
    return None


# ------------------------------------------------------------------ integers of a path, for linear.Prover

MAXI, MINI = 2**31 - 1, -2**31


def view(types=None):
    """the view of symbolic integers; types: {parameter number: descriptor}"""
    types = types or {}
    R = {'B': (-128, 127), 'S': (-32768, 32767), 'C': (0, 65535), 'Z': (0, 1), 'I': (MINI, MAXI), 'J': (-2**63, 2**63 - 1)}

    def v(t):
        k = t[0]
        if k in 'ij' and len(t) == 2:
            return ('c', t[1])
        if k == 'len':
            return ('atom', 0, MAXI)
        if k in ('iadd', 'ladd', 'isub', 'lsub'):
            r = R['I' if k[0] == 'i' else 'J']
            return ('sum', [(1, t[1]), (1 if k[1:] == 'add' else -1, t[2])], 0) + r
        if k in ('imul', 'lmul'):
            r = R['I' if k[0] == 'i' else 'J']
            for a, b in ((t[1], t[2]), (t[2], t[1])):
                if b[0] in 'ij' and len(b) == 2:
                    return ('sum', [(b[1], a)], 0) + r
            return ('atom',) + r
        if k in ('ishl', 'lshl') and t[2][0] == 'i':
            r = R['I' if k[0] == 'i' else 'J']
            return ('sum', [(1 << (t[2][1] & (31 if k[0] == 'i' else 63)), t[1])], 0) + r
        if k in ('ineg', 'lneg'):
            return ('sum', [(-1, t[1])], 0) + R['I' if k[0] == 'i' else 'J']
        if k == 'i2l':
            return ('same', t[1], None, None)
        if k == 'l2i':
            return ('same', t[1]) + R['I']
        if k in ('i2b', 'i2s', 'i2c'):
            return ('same', t[1]) + R[k[2].upper()]
        if k == 'iand':
            for b in (t[1], t[2]):
                if b[0] == 'i' and b[1] >= 0:
                    return ('atom', 0, b[1])
        if k == 'iushr' and t[2][0] == 'i' and t[2][1] & 31:
            return ('atom', 0, 2**(32 - (t[2][1] & 31)) - 1)
        if k == 'irem' and t[2][0] == 'i' and t[2][1]:
            return ('atom', -abs(t[2][1]) + 1, abs(t[2][1]) - 1)
        if k == 'idiv' and t[2][0] == 'i' and t[2][1] > 0 and t[1][0] == 'len':
            return ('atom', 0, MAXI // t[2][1], [('<=', t[1])])
        if k == 'call':
            if t[2][:2] == ('java/lang/Math', 'min') and t[2][2] in ('(II)I', '(JJ)J'):
                return ('atom',) + R[t[2][2][1]] + ([('<=', t[3][0]), ('<=', t[3][1])],)
            if t[2][:2] == ('java/lang/Math', 'max') and t[2][2] in ('(II)I', '(JJ)J'):
                return ('atom',) + R[t[2][2][1]] + ([('>=', t[3][0]), ('>=', t[3][1])],)
            if t[2][1:] in (('length', '()I'), ('size', '()I')):
                return ('atom', 0, MAXI)
            d = parse_desc(t[2][2])[1]
        elif k == 'fld':
            d = t[4]
        elif k == 'el':
            d = {'b': 'B', 'c': 'C', 's': 'S', 'l': 'J'}.get(t[4], 'I')
        elif k == 'p':
            d = types.get(t[1], 'I')
        elif k == 'h':
            d = 'J' if t[3] == 'l' else 'I'
        elif k in ('lcmp',):
            return ('atom', -1, 1)
        elif k[0] == 'l':
            d = 'J'
        else:
            d = 'I'
        return ('atom',) + R.get(d, R['I'])
    return v
