"""D01: the byte layout of binary data, decided bit by bit on the bytecode of the class library."""
import build, jclass, jsym
from bits import Bits, src, show

BE, LE = 'big-endian', 'little-endian'
READ = {'readByte': (1, True), 'readUnsignedByte': (1, False), 'readShort': (2, True), 'readUnsignedShort': (2, False),
        'readChar': (2, False), 'readInt': (4, True), 'readLong': (8, True), 'readFloat': (4, 'F'), 'readDouble': (8, 'D')}
WRITE = {'write(I)V': 1, 'writeByte(I)V': 1, 'writeShort(I)V': 2, 'writeChar(I)V': 2, 'writeInt(I)V': 4, 'writeLong(J)V': 8,
         'writeFloat(F)V': 4, 'writeDouble(D)V': 8}
BACK = {'F': ('java/lang/Float', 'intBitsToFloat'), 'D': ('java/lang/Double', 'longBitsToDouble')}
FORTH = {('java/lang/Float', 'floatToIntBits'), ('java/lang/Float', 'floatToRawIntBits'),
         ('java/lang/Double', 'doubleToLongBits'), ('java/lang/Double', 'doubleToRawLongBits')}
THIS = ('p', 0)


class Lib:
    def __init__(self):
        self.c = jclass.load(build.classes())

    def find(self, cls, name, desc):
        seen = set()
        while cls and cls in self.c and cls not in seen:
            seen.add(cls)
            m = self.c[cls].method(name, desc)
            if m is not None:
                return m
            cls = self.c[cls].super
        return None

    def isa(self, cls, base):
        seen, w = set(), [cls]
        while w:
            x = w.pop()
            if x == base:
                return True
            if x in seen or x not in self.c:
                continue
            seen.add(x)
            w += [self.c[x].super] + list(self.c[x].ifaces)
        return False

    def inliner(self, m, prim):
        """steps into methods of the same object and static helpers of the same class or package"""
        cls = m.cls.name
        pk = cls.rpartition('/')[0]

        def f(i, c, name, desc, args):
            if i.op == 'invokestatic':
                if c.rpartition('/')[0] != pk and not c.startswith('avian/'):
                    return None
                g = self.find(c, name, desc)
                return g if g is not None and not prim(name, desc, None, g) else None
            if not args or args[0] != THIS:
                return None
            g = self.find(c if i.op == 'invokespecial' else cls, name, desc)
            if g is None or g.code is None or prim(name, desc, args[0], g):
                return None
            return g
        return f


def where(m):
    return '%s.%s%s' % (m.cls.name.replace('/', '.'), m.name, m.desc)


def file(m):
    return m.cls.srcfile()


def flat(v):
    """(base term, constant) of an index expression"""
    if v[0] == 'i':
        return None, v[1]
    if v[0] in ('iadd', 'isub'):
        a, x = flat(v[1])
        b, y = flat(v[2])
        if v[0] == 'isub':
            if b is not None:
                return v, 0
            y = -y
        if a is None or b is None:
            return (b if a is None else a), x + y
        if v[0] == 'iadd':
            return ('iadd', a, b) if str(a) <= str(b) else ('iadd', b, a), x + y
    return v, 0


def nonneg(facts, v):
    """the facts exclude a negative v"""
    for c, a, b in facts:
        if a[0] == 'i2l' and b[0] == 'j':
            a, b = a[1], ('i', b[1])
        if a == v and b[0] == 'i' and (c == '>=' and b[1] >= 0 or c == '>' and b[1] >= -1 or c == '!=' and b[1] == -1 or c == '==' and b[1] >= 0):
            return True
        if b == v and a[0] == 'i' and (c == '<=' and a[1] >= 0 or c == '<' and a[1] >= -1 or c == '!=' and a[1] == -1):
            return True
    return False


def wantbits(n, signed, width, key=lambda j: ('in', j), order=BE):
    r = []
    for j in range(n):
        s = key(n - 1 - j if order == BE else j)
        r += [('b', s, k) for k in range(8)]
    r += [(r[-1] if signed else 0)] * (width - len(r))
    return r[:width]


# ------------------------------------------------------------------ readers and writers of the data interfaces

def readprim(name, desc, recv, g):
    return name == 'read' and desc == '()I' and recv != THIS or name == 'readFully'


def stream_reads(p):
    """values and array elements that are bytes of the stream, in order"""
    pos, val, el, vals = 0, {}, {}, []
    for e in p.events:
        if e[0] != 'call':
            continue
        op, c, name, desc, args, facts, m, v = e[2]
        if name == 'read' and desc == '()I':
            val[v] = pos
            vals.append(v)
            pos += 1
        elif name == 'readFully':
            a = args[1]
            off, n = (args[2], args[3]) if len(args) == 4 else (('i', 0), a[3] if a[0] == 'new' else None)
            if n is None or n[0] != 'i' or off[0] != 'i':
                return None
            for k in range(n[1]):
                el[(a, ('i', off[1] + k))] = pos + k
            pos += n[1]
        elif name in ('read', 'readBytes', 'skip', 'skipBytes', 'mark', 'reset', 'seek'):
            return None
    return pos, val, el, vals


def reader_leaf(p, sr):
    pos, val, el, vals = sr
    ok, good = set(), False
    for v in reversed(vals):        # at the end of a stream every further read reports the end again
        good = good or nonneg(p.facts, v)
        if good:
            ok.add(v)

    def leaf(v):
        if v in val:
            b = src(('in', val[v]), 8, False, 32)
            if v not in ok:
                b[8:] = [('b', ('end-of-stream flag of byte', val[v]), 0)] * 24
            return b
        if v[0] == 'el' and v[1:3] in el:
            return src(('in', el[v[1:3]]), 8, True, 32)
    return leaf


def check_read(res, L, m, n, kind, order=BE, where_=None):
    w = where_ or where(m)
    try:
        ps = jsym.paths(m, inline=L.inliner(m, readprim))
    except jsym.TooMany:
        res.bad('toomany:' + m.id, file(m), m.line(), w, 'too many paths to follow')
        return
    rets = 0
    for p in ps:
        if p.end != 'return':
            continue
        rets += 1
        sr = stream_reads(p)
        if sr is None or sr[0] != n:
            res.bad('count:' + m.id, file(m), m.line(p.pc), w, 'reads %s bytes of the stream where the format has %d' % ('an unknown number of' if sr is None else sr[0], n))
            continue
        leaf = reader_leaf(p, sr)
        v = p.value
        if kind in ('F', 'D'):
            if v[0] != 'call' or v[2][:2] != BACK[kind]:
                res.bad('value:' + m.id, file(m), m.line(p.pc), w, 'the result is not the %s with the bits read (%s.%s)'
                        % ('float' if kind == 'F' else 'double', BACK[kind][0].split('/')[-1], BACK[kind][1]))
                continue
            v, signed = v[3][0], True
        else:
            signed = kind
        got = Bits(m, leaf)(v)
        want = wantbits(n, signed, len(got), order=order)
        if len(got) < 8 * n or got != want:
            res.bad('value:' + m.id, file(m), m.line(p.pc), w, 'the result is not the %s%d-byte %s value read, with the end of the stream reported as an exception: it is %s, not %s'
                    % ('signed ' if signed else 'unsigned ', n, order, show2(got), show2(want)))
    if not rets:
        res.bad('noreturn:' + m.id, file(m), m.line(), w, 'never returns a value')
    res.count('typed read methods', 1)
    res.count('return paths of typed reads', rets)


def show2(bits):
    out = []
    for i in range(len(bits) - 8, -1, -8):
        b = bits[i:i + 8]
        if all(x in (0, 1) for x in b):
            out.append('%02x' % sum(x << j for j, x in enumerate(b)))
        elif all(isinstance(x, tuple) for x in b):
            ss = {x[1] for x in b}
            if len(ss) == 1:
                s = next(iter(ss))
                ks = [x[2] for x in b]
                nm = 'byte%d' % s[1] if s[0] == 'in' else 'value' if s == 'v' else 'end?' if 'end' in str(s[0]) else '?'
                out.append((nm if ks == list(range(8)) and nm != 'value' else '%s.%d' % (nm, ks[0] // 8) if ks == list(range(ks[0], ks[0] + 8)) and ks[0] % 8 == 0
                            else 'sign(%s)' % nm if len(set(ks)) == 1 else 'mixed'))
            else:
                out.append('mixed')
        else:
            out.append('??')
    return ' '.join(out)


def check_bool_read(res, L, m):
    ps = jsym.paths(m, inline=L.inliner(m, readprim))
    for p in ps:
        if p.end != 'return':
            continue
        sr = stream_reads(p)
        if sr is None or sr[0] != 1:
            res.bad('count:' + m.id, file(m), m.line(p.pc), where(m), 'reads %s bytes where the format has one' % (sr and sr[0]))
            continue
        B = Bits(m, reader_leaf(p, sr))
        ok = False
        for c, a, b in p.facts:
            if b == ('i', 0) and c in ('==', '!=') and p.value == ('i', int(c == '!=')):
                x = B(a)
                if {t for t in x if t != 0} == {('b', ('in', 0), k) for k in range(8)}:
                    ok = True
        if not ok:
            res.bad('value:' + m.id, file(m), m.line(p.pc), where(m), 'the result is not true exactly when the byte read is not zero')
    res.count('typed read methods', 1)


def contents(p, upto, a):
    """{index: value} of what was stored into array a before event number upto"""
    r = {}
    for e in p.events[:upto]:
        if e[0] == 'astore' and e[2][0] == a:
            x = e[2][1]
            if x[0] != 'i':
                return None
            r[x[1]] = e[2][2]
        elif e[0] == 'call' and a in e[2][4]:
            return None
    return r


def writeprim(name, desc, recv, g):
    return name == 'blockData' or (name == 'write' and recv != THIS)


def stream_writes(p):
    out = []
    for n, e in enumerate(p.events):
        if e[0] != 'call':
            continue
        op, c, name, desc, args, facts, m, v = e[2]
        if name == 'write' and desc == '(I)V':
            out.append(args[1])
        elif (name, desc) in (('write', '([B)V'), ('write', '([BII)V'), ('blockData', '([I)V'), ('writeBytes', '(JJ[BII)I')):
            a = args[2] if name == 'writeBytes' else args[1]
            if a[0] != 'new' or a[3][0] != 'i':
                return None
            o, k = 0, a[3][1]
            if len(args) > 3:
                if args[-1][0] != 'i' or args[-2][0] != 'i':
                    return None
                o, k = args[-2][1], args[-1][1]
            t = contents(p, n, a)
            if t is None:
                return None
            out += [t.get(j, ('i', 0)) for j in range(o, o + k)]
        elif name.startswith(('write', 'blockData')):
            return None
    return out


def value_leaf(param):
    def leaf(v):
        if v == param:
            return None
        if v[0] == 'call' and v[2][:2] in FORTH and v[3] == (param,):
            return src('v', 64 if v[2][0].endswith('Double') else 32, True, 64 if v[2][0].endswith('Double') else 32)
    return leaf


def canon(bits, param):
    return [('b', 'v', b[2]) if isinstance(b, tuple) and b[1] == param else b for b in bits]


def lanes(n, order):
    return [[('b', 'v', 8 * (n - 1 - j if order == BE else j) + k) for k in range(8)] for j in range(n)]


def check_write(res, L, m, n, order=BE, param=('p', 1)):
    ps = jsym.paths(m, inline=L.inliner(m, writeprim))
    rets = 0
    for p in ps:
        if p.end != 'return':
            continue
        rets += 1
        ws = stream_writes(p)
        if ws is None or len(ws) != n:
            res.bad('count:' + m.id, file(m), m.line(p.pc), where(m), 'writes %s bytes to the stream where the format has %d' % ('an unknown number of' if ws is None else len(ws), n))
            continue
        B = Bits(m, value_leaf(param))
        got = [canon(B(w)[:8], param) for w in ws]
        if got != lanes(n, order):
            res.bad('value:' + m.id, file(m), m.line(p.pc), where(m), 'the bytes written are not the value in %s order: %s' % (order, ', '.join(show2(g) for g in got)))
    if not rets:
        res.bad('noreturn:' + m.id, file(m), m.line(), where(m), 'never returns')
    res.count('typed write methods', 1)
    res.count('return paths of typed writes', rets)


def check_bool_write(res, L, m):
    for p in jsym.paths(m, inline=L.inliner(m, writeprim)):
        if p.end != 'return':
            continue
        ws = stream_writes(p)
        ok = ws is not None and len(ws) == 1
        if ok:
            b = canon(Bits(m)(ws[0])[:8], ('p', 1))
            if b[1:] != [0] * 7:
                ok = False
            elif b[0] in (0, 1):
                ok = any(c in ('==', '!=') and a == ('p', 1) and x == ('i', 0) and (c == '!=') == (b[0] == 1) for c, a, x in p.facts)
            else:
                ok = b[0] == ('b', 'v', 0)
        if not ok:
            res.bad('value:' + m.id, file(m), m.line(p.pc), where(m), 'does not write 1 for true and 0 for false as one byte')
    res.count('typed write methods', 1)


# ------------------------------------------------------------------ byte buffers

def bufprim(name, desc, recv, g):
    return name in ('doGet', 'doPut') and desc in ('(I)B', '(IB)V')


def check_buffer(res, L):
    c = L.c['java/nio/ByteBuffer']
    POS = 'position'
    n = 0
    for m in c.methods:
        for pre in ('get', 'put'):
            t = m.name[3:]
            k = {'Short': 2, 'Int': 4, 'Long': 8, 'Float': 4, 'Double': 8, '': 1}.get(t)
            if not m.name.startswith(pre) or k is None or m.code is None or m.static:
                continue
            ps_ = m.params()
            if any(d not in 'BSIJFD' for d in ps_):
                continue
            absolute = len(ps_) == (1 if pre == 'get' else 2)
            n += 1
            rets = 0
            for p in jsym.paths(m, inline=L.inliner(m, bufprim)):
                if p.end != 'return':
                    continue
                rets += 1
                old = [('fld', THIS, POS)]
                bad = None

                def off(x):
                    b, d = flat(x)
                    if absolute:
                        return d if b == ('p', 1) else None
                    return d if b is not None and b[:3] == ('fld', THIS, POS) else None
                offs, got = {}, {}
                for e in p.events:
                    if e[0] == 'call' and e[2][2] == 'doGet':
                        offs[e[2][7]] = off(e[2][4][1])
                    elif e[0] == 'call' and e[2][2] == 'doPut':
                        got[off(e[2][4][1])] = e[2][4][2]
                puts = [e[2][2] for e in p.events if e[0] == 'put' and e[2][0] == THIS and e[2][1] == POS]
                if absolute and puts:
                    bad = 'moves the position'
                if not absolute and (not puts or off(puts[-1]) != k):
                    bad = 'does not move the position on by %d' % k
                if pre == 'get':
                    def leaf(v):
                        if v in offs and offs[v] is not None:
                            return src(('in', offs[v]), 8, True, 32)
                    v = p.value
                    if t in ('Float', 'Double'):
                        if v[0] != 'call' or v[2][:2] != BACK[t[0]]:
                            bad = 'does not return the number with the bits read'
                            v = None
                        else:
                            v = v[3][0]
                    if v is not None:
                        g = Bits(m, leaf)(v)
                        if g != wantbits(k, True, len(g)):
                            bad = 'does not return bytes 0 to %d at the position in %s order, sign-extended: %s' % (k - 1, BE, show2(g))
                else:
                    par = ('p', 2 if absolute else 1)
                    B = Bits(m, value_leaf(par))
                    w = [canon(B(got[j])[:8], par) if j in got else None for j in range(k)]
                    if len(got) != k or w != lanes(k, BE):
                        bad = 'does not store the value as bytes 0 to %d at the position in %s order' % (k - 1, BE)
                if bad:
                    res.bad('buffer:' + m.id, file(m), m.line(p.pc), where(m), bad)
            if not rets:
                res.bad('noreturn:' + m.id, file(m), m.line(), where(m), 'never returns')
    res.count('byte buffer accessors', n, 16)


# ------------------------------------------------------------------ any other composition of bytes

def bytesrc(v):
    """the value is one byte of data: an element of a byte array or a byte read from a stream"""
    if v[0] == 'el' and v[4] == 'b':
        return True
    return v[0] == 'call' and (v[2][1:] == ('read', '()I') or v[2][1] in ('readByte', 'doGet'))


def strip(v):
    """the byte source under masks and conversions, or None"""
    while True:
        if bytesrc(v):
            return v
        if v[0] in ('i2l', 'i2b', 'i2c', 'i2s', 'l2i'):
            v = v[1]
        elif v[0] in ('iand', 'land') and v[2][0] in 'ij' and len(v[2]) == 2:
            v = v[2] and v[1]
        elif v[0] in ('iand', 'land') and v[1][0] in 'ij' and len(v[1]) == 2:
            v = v[2]
        else:
            return None


def operands(v):
    """[(byte source, shift)] if v is a composition of shifted bytes, else None"""
    if v[0] in ('ior', 'lor', 'iadd', 'ladd', 'ixor', 'lxor'):
        a, b = operands(v[1]), operands(v[2])
        return a + b if a is not None and b is not None else None
    if v[0] in ('i2l', 'i2s', 'i2c', 'l2i'):
        return operands(v[1])
    if v[0] in ('iand', 'land') and v[2][0] in 'ij' and len(v[2]) == 2:
        return operands(v[1])
    if v[0] in ('ishl', 'lshl') and v[2][0] == 'i':
        a = operands(v[1])
        return [(s, k + v[2][1]) for s, k in a] if a is not None else None
    s = strip(v)
    return [(s, 0)] if s is not None else None


def subterms(v, seen, out):
    if not isinstance(v, tuple) or v in seen or not v or not isinstance(v[0], str):
        return
    seen.add(v)
    if v[0] in ('ior', 'lor', 'iadd', 'ladd', 'ixor', 'lxor'):
        o = operands(v)
        if o is not None and len({s for s, k in o}) > 1:
            out.append((v, o))
            return
    if v[0] in ('i2l', 'i2s', 'i2c', 'l2i', 'iand', 'land', 'ishl', 'lshl'):
        o = operands(v)
        if o is not None and len({s for s, k in o}) > 1:
            out.append((v, o))
            return
    for x in v[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                subterms(x, seen, out)
            else:
                for y in x:
                    if isinstance(y, tuple):
                        subterms(y, seen, out)


def position(s, reads):
    """(where, number) that orders byte sources"""
    if s[0] == 'el':
        b, k = flat(s[2])
        return ('el', s[1], b), k
    if s in reads:
        return ('stream', s[3][0] if s[3] else None), reads[s]
    if s[0] == 'call' and len(s[3]) > 1:
        b, k = flat(s[3][1])
        return ('call', s[2], b), k
    return ('?', s), 0


def check_compose(res, L):
    comps = dec = 0
    for c in L.c.values():
        zipped = c.name.startswith('java/util/zip/')
        want = LE if zipped else BE
        for m in c.methods:
            if m.code is None:
                continue
            ops = {i.op for i in m.ins.values()}
            if not ops & {'ishl', 'lshl', 'ishr', 'iushr', 'lshr', 'lushr'} or not ops & {'bastore', 'baload'} | {o for o in ops if o.startswith('invoke')}:
                continue
            try:
                ps = jsym.paths(m)
            except jsym.TooMany:
                continue
            seenbad = set()
            for p in ps:
                reads, k = {}, 0
                vals = []
                for e in p.events:
                    if e[0] == 'call':
                        if e[2][2:4] == ('read', '()I') or e[2][2] == 'readByte':
                            reads[e[2][7]] = k
                            k += 1
                        vals += e[2][4]
                    elif e[0] == 'put':
                        vals.append(e[2][2])
                    elif e[0] == 'astore':
                        vals.append(e[2][2])
                if p.value is not None and p.end == 'return':
                    vals.append(p.value)
                out, seen = [], set()
                for v in vals:
                    subterms(v, seen, out)
                leaf = reader_leaf(p, (k, {v: n for v, n in reads.items() if v[2][1] == 'read'}, {}, [v for v in reads if v[2][1] == 'read']))
                for v, o in out:
                    if any(s % 8 for _, s in o):
                        continue
                    comps += 1
                    if (m.id, v) in seenbad:
                        continue
                    seenbad.add((m.id, v))
                    B = Bits(m, lambda x: leaf(x) or (src(('el',) + x[1:3], 8, True, 32) if bytesrc(x) and x[0] == 'el' else
                                                      src(('call', x), 8, True, 32) if bytesrc(x) else None))
                    got = B(v)
                    n = len({s for s, _ in o})
                    order = []
                    ok = True
                    for j in range(n):
                        b = got[8 * j:8 * j + 8]
                        ss = {t[1] for t in b if isinstance(t, tuple)}
                        if len(b) < 8 or len(ss) != 1 or [t[2] if isinstance(t, tuple) else None for t in b] != list(range(8)):
                            ok = False
                            break
                        order.append(next(iter(ss)))
                    rest = got[8 * n:]
                    if not ok or any(t is None or isinstance(t, tuple) and (t != got[8 * n - 1]) for t in rest):
                        res.bad('compose:' + m.id, file(m), m.line(p.pc), where(m), 'the %d bytes combined are not kept whole (a sign extension or an end-of-stream value spills into other bytes): %s' % (n, show2(got)))
                        continue
                    pos = []
                    for t in order:
                        if t[0] == 'in':
                            pos.append((('stream',), t[1]))
                        elif t[0] == 'el':
                            b, d = flat(t[2])
                            pos.append(((t[1], b), d))
                        else:
                            x = t[1]
                            pos.append(position(x, reads) if x in reads else (('call', x[2], flat(x[3][1])[0]), flat(x[3][1])[1]) if len(x[3]) > 1 else (None, 0))
                    if len({q for q, _ in pos}) != 1:
                        continue
                    d = [y[1] - x[1] for x, y in zip(pos, pos[1:])]
                    if d != [1 if want == LE else -1] * len(d):
                        res.bad('compose:' + m.id, file(m), m.line(p.pc), where(m), 'the bytes combined are not consecutive bytes in %s order' % want)
                # the other direction: one value stored or written as several bytes
                B = Bits(m)
                groups = {}
                wn = 0
                for e in p.events:
                    if e[0] == 'astore' and e[2][3] == 'b':
                        b, d = flat(e[2][1])
                        g, v = ('el', e[2][0], b), e[2][2]
                    elif e[0] == 'call' and e[2][2:4] == ('write', '(I)V') and len(e[2][4]) == 2:
                        g, d, v = ('stream', e[2][4][0]), wn, e[2][4][1]
                        wn += 1
                    elif e[0] == 'loop':
                        wn += 1000
                        continue
                    else:
                        continue
                    bits = B(v)[:8]
                    ss = {t[1] for t in bits if isinstance(t, tuple)}
                    ks = [t[2] for t in bits if isinstance(t, tuple)]
                    if len(ss) == 1 and len(ks) == 8 and len(set(ks)) == 8:
                        groups.setdefault((g, next(iter(ss))), []).append((d, ks))
                for (g, s), lst in groups.items():
                    if len(lst) < 2 or not any(ks[0] >= 8 for _, ks in lst):
                        continue
                    dec += 1
                    lst.sort(key=lambda x: x[0])
                    n = len(lst)
                    wantk = [list(range(8 * j, 8 * j + 8)) for j in (range(n) if want == LE else range(n - 1, -1, -1))]
                    ds = [x[0] for x in lst]
                    if [x[1] for x in lst] != wantk or ds != list(range(ds[0], ds[0] + n)):
                        res.bad('decompose:' + m.id, file(m), m.line(p.pc), where(m), 'a value is not stored as its %d low bytes in %s order' % (n, want))
    res.count('byte compositions', comps, 6)
    res.count('byte decompositions', dec, 6)


# ------------------------------------------------------------------ single bytes

def check_single(res, L):
    n = w = 0
    for c in L.c.values():
        if L.isa(c.name, 'java/io/InputStream') or c.name == 'java/io/RandomAccessFile':
            m = c.method('read', '()I')
            if m is not None and m.code is not None:
                n += 1
                for p in jsym.paths(m, inline=L.inliner(m, lambda nm, d, r, g: nm in ('read', 'readFully')), handlers=True):
                    if p.end != 'return':
                        continue
                    v = p.value
                    if v[0] == 'call' and v[2][1:] == ('read', '()I') or v == ('i', -1):
                        continue
                    if v[0] == 'call' and L.find(v[2][0], v[2][1], v[2][2]) is not None and L.find(v[2][0], v[2][1], v[2][2]).native:
                        continue
                    b = Bits(m, lambda x: src(x, 8, False, 32) if x[0] == 'call' and x[2][1:] == ('read', '()I') else None)(v)
                    if b[8:] == [0] * 24:
                        continue
                    neg = any(f[1] == v and (f[0] == '<' and f[2] in (('i', 0), ('i', 1)) or f[0] == '<=' and f[2] in (('i', 0), ('i', -1)) or f[0] == '==' and f[2] == ('i', -1)) for f in p.facts)
                    if neg and v[0] == 'call' and v[2][1] == 'read':
                        continue
                    res.bad('single:' + m.id, file(m), m.line(p.pc), where(m), 'returns a value that is neither -1 nor a byte from 0 to 255')
        if L.isa(c.name, 'java/io/OutputStream'):
            m = c.method('write', '(I)V')
            if m is not None and m.code is not None:
                for p in jsym.paths(m, inline=L.inliner(m, lambda nm, d, r, g: nm == 'write')):
                    if p.end != 'return':
                        continue
                    w += 1
                    B = Bits(m)
                    good = False
                    for e in p.events:
                        v = None
                        if e[0] == 'astore' and e[2][3] == 'b':
                            v = e[2][2]
                        elif e[0] == 'call':
                            for a, d in zip(e[2][4][e[2][0] != 'invokestatic':], jclass.parse_desc(e[2][3])[0]):
                                if d in 'BCSI' and canon(B(a)[:8], ('p', 1)) == lanes(1, BE)[0]:
                                    good = True
                        elif e[0] == 'put':
                            v = e[2][2]
                            if len(B(v)) < 8:
                                v = None
                        if v is not None and canon(B(v)[:8], ('p', 1)) == lanes(1, BE)[0]:
                            good = True
                    if not good:
                        res.bad('single:' + m.id, file(m), m.line(p.pc), where(m), 'a path returns without passing on or storing the low eight bits of the byte')
    res.count('read() methods', n, 9)
    res.count('paths of write(int) methods', w, 9)


# ------------------------------------------------------------------ UTF-8

def known_bits(B, facts, atom, n):
    """{bit: value} of an atom that the comparisons with constants fix"""
    r = {}
    for c, a, b in facts:
        if b[0] != 'i':
            continue
        if a == atom and c in ('<', '<=') and n == 16:
            top = b[1] - (c == '<')
            if top >= 0:
                for k in range(top.bit_length(), n):
                    r[k] = 0
        if c == '==':
            for k, t in enumerate(B(a)):
                if isinstance(t, tuple) and t[1] == atom[:3]:
                    r[t[2]] = (b[1] >> k) & 1
    return r


def low(facts, atom):
    lo = 0
    for c, a, b in facts:
        if a == atom and b[0] == 'i':
            if c in ('>=', '=='):
                lo = max(lo, b[1])
            elif c == '>':
                lo = max(lo, b[1] + 1)
    return lo


def since_loop(p):
    ev = p.events
    for k in range(len(ev) - 1, -1, -1):
        if ev[k][0] == 'loop':
            return ev[k + 1:], ev[k]
    return ev, None


def check_utf8(res, L):
    c = L.c.get('avian/Utf8')
    enc = c and c.method('encode', '([CII)[B')
    dec = c and c.method('decode', '([BII)Ljava/lang/Object;')
    if enc is None or dec is None:
        return
    n = 0
    for p in jsym.paths(enc, inline=L.inliner(enc, lambda *a: False)):
        ev, lp = since_loop(p)
        atoms = {('el',) + e[2] for e in ev if e[0] == 'aload' and e[2][0] == ('p', 0)}
        if not atoms or p.end != 'loop':
            continue
        n += 1
        B0 = Bits(enc)
        atom = next(iter(atoms))
        kn = {}
        full = None
        for e in ev:
            if e[0] == 'aload' and e[2][0] == ('p', 0):
                full = atom
        cands = [f[1] for f in p.facts if f[1][:3] == atom]
        at = cands[0] if cands else None
        if at is not None:
            kn = known_bits(B0, p.facts, at, 16)
        lo = low(p.facts, at) if at is not None else 0

        def leaf(v):
            if v[0] == 'el' and v[:3] == atom:
                return [kn.get(k, ('b', 'v', k)) for k in range(16)] + [0] * 16
        B = Bits(enc, leaf)
        w = []
        for e in ev:
            if e[0] == 'call' and e[2][2:4] == ('write', '(I)V'):
                w.append(B(e[2][4][-1])[:8])
            elif e[0] == 'astore' and e[2][3] == 'b':
                w.append(B(e[2][2])[:8])
        v = [kn.get(k, ('b', 'v', k)) for k in range(16)]
        forms = {1: ([v[0:7] + [0]], 0, 7), 2: ([v[6:11] + [0, 1, 1], v[0:6] + [0, 1]], 0x80, 11),
                 3: ([v[12:16] + [0, 1, 1, 1], v[6:12] + [0, 1], v[0:6] + [0, 1]], 0x800, 16)}
        f = forms.get(len(w))
        if f is None or w != f[0] or any(v[k] != 0 for k in range(f[2], 16)) or lo < f[1]:
            res.bad('utf8-encode', file(enc), enc.line(p.pc), where(enc), 'a character is not written in the form UTF-8 gives its range (%d bytes: %s)' % (len(w), ', '.join('..' if None in x else ''.join(str(t) if t in (0, 1) else 'x' for t in reversed(x)) for x in w)))
    for p in jsym.paths(dec, inline=L.inliner(dec, lambda name, *a: name in ('widen', 'trim'))):
        if p.end != 'loop':
            continue
        ev, lp = since_loop(p)
        loads = []
        for e in ev:
            if e[0] == 'aload' and e[2][0] == ('p', 0) and e[2][1] not in loads:
                loads.append(e[2][1])
        st = [e for e in ev if e[0] == 'astore' and e[2][0] != ('p', 0)]
        if not loads:
            continue
        n += 1
        base, off = flat(loads[0])
        atom = ('el', ('p', 0), loads[0])
        facts = p.facts
        B0 = Bits(dec)
        kn = known_bits(B0, facts, atom, 8)
        lead = tuple(kn.get(k) for k in (7, 6, 5, 4))
        k = 1 if lead[0] == 0 else 2 if lead[:3] == (1, 1, 0) else 3 if lead == (1, 1, 1, 0) else 0
        if k == 0:
            continue        # no valid lead byte of a character up to U+FFFF

        def leaf(v):
            if v[0] == 'el' and v[1] == ('p', 0) and flat(v[2])[0] == base:
                j = flat(v[2])[1] - off
                b = [('b', j, i) for i in range(8)]
                if j == 0:
                    b = [kn.get(i, x) for i, x in enumerate(b)]
                return b + [b[7]] * 24
        B = Bits(dec, leaf)
        b = [[('b', j, i) for i in range(8)] for j in range(3)]
        b[0] = [kn.get(i, x) for i, x in enumerate(b[0])]
        want = {1: b[0][:7] + [0] * 9, 2: b[1][:6] + b[0][:5] + [0] * 5, 3: b[2][:6] + b[1][:6] + b[0][:4]}[k]
        bad = None
        if len(st) != 1:
            bad = 'stores %d characters for one' % len(st)
        elif st[0][2][3] == 'c' and B(st[0][2][2])[:16] != want:
            bad = 'does not store the character its %d bytes encode' % k
        elif k == 1 and st[0][2][3] == 'b' and B(st[0][2][2])[:8] != want[:8]:
            bad = 'does not store the character its byte encodes'
        else:
            heads, ends = lp[2][2], p.value[1]
            if base is None or not any(flat(ends.get(q, ('i', 0))) == (base, off + k) for q, x in heads.items() if x == base):
                bad = 'does not continue after the %d bytes of the character' % k
        if bad:
            res.bad('utf8-decode', file(dec), dec.line(st[0][1] if st and st[0][1] in dec.ins else p.pc), where(dec), bad)
    res.count('UTF-8 character forms', n, 6)


def check(res, tier):
    L = Lib()
    res.rule('Every typed read of a DataInput class returns exactly the bytes it takes from the stream, most significant first, extended as the type says, and never mistakes the end of the stream for data.')
    res.rule('Every typed write of a DataOutput class writes exactly the bytes of its argument, most significant first.')
    res.rule('Byte buffer accessors place byte k of a value at position + k and move the position by the size of the value.')
    res.rule('Wherever the library combines bytes to a number or splits a number into bytes, the bytes stay whole, consecutive and in the order of the format (little-endian in zip data, big-endian elsewhere).')
    res.rule('read() returns -1 or 0 to 255; write(int) passes on or stores the low eight bits.')
    res.rule('Utf8.encode writes, and Utf8.decode reads, each character up to U+FFFF in the one-, two- or three-byte form of its range.')
    for c in sorted(L.c.values(), key=lambda c: c.name):
        if c.acc & jclass.ACC_INTERFACE:
            continue
        if L.isa(c.name, 'java/io/DataInput'):
            for m in c.methods:
                if m.code is None or m.static:
                    continue
                if m.name in READ and not m.params():
                    check_read(res, L, m, *READ[m.name])
                elif m.name == 'readBoolean' and not m.params():
                    check_bool_read(res, L, m)
                elif m.name in ('rawShort', 'rawInt', 'rawLong') and not m.params():
                    check_read(res, L, m, {'rawShort': 2, 'rawInt': 4, 'rawLong': 8}[m.name], m.name != 'rawShort')
        if L.isa(c.name, 'java/io/DataOutput'):
            for m in c.methods:
                if m.code is None or m.static:
                    continue
                if m.name + m.desc in WRITE:
                    check_write(res, L, m, WRITE[m.name + m.desc])
                elif m.name + m.desc == 'writeBoolean(Z)V':
                    check_bool_write(res, L, m)
                elif m.name in ('rawShort', 'rawInt', 'rawLong') and len(m.params()) == 1:
                    check_write(res, L, m, {'rawShort': 2, 'rawInt': 4, 'rawLong': 8}[m.name])
    res.floors.update({'typed read methods': 30, 'typed write methods': 16})
    s = L.c.get('avian/Stream')
    for m in s.methods if s else ():
        if m.name in ('read2', 'read4', 'read8') and m.static:
            check_read(res, L, m, int(m.name[4]), m.name != 'read2')
        elif m.name in ('write1', 'write2', 'write4', 'write8') and m.static:
            check_write(res, L, m, int(m.name[5]))
    check_buffer(res, L)
    check_compose(res, L)
    check_single(res, L)
    check_utf8(res, L)
