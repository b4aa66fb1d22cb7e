"""Class files of the Java class library: parser, bytecode decoder, control flow."""
import os, struct

OPN = {}


def _ops():
    t = '''nop aconst_null iconst_m1 iconst_0 iconst_1 iconst_2 iconst_3 iconst_4 iconst_5 lconst_0 lconst_1 fconst_0 fconst_1 fconst_2
    dconst_0 dconst_1 bipush:b sipush:s ldc:c ldc_w:C ldc2_w:C iload:v lload:v fload:v dload:v aload:v iload_0 iload_1 iload_2 iload_3
    lload_0 lload_1 lload_2 lload_3 fload_0 fload_1 fload_2 fload_3 dload_0 dload_1 dload_2 dload_3 aload_0 aload_1 aload_2 aload_3
    iaload laload faload daload aaload baload caload saload istore:v lstore:v fstore:v dstore:v astore:v istore_0 istore_1 istore_2
    istore_3 lstore_0 lstore_1 lstore_2 lstore_3 fstore_0 fstore_1 fstore_2 fstore_3 dstore_0 dstore_1 dstore_2 dstore_3 astore_0
    astore_1 astore_2 astore_3 iastore lastore fastore dastore aastore bastore castore sastore pop pop2 dup dup_x1 dup_x2 dup2 dup2_x1
    dup2_x2 swap iadd ladd fadd dadd isub lsub fsub dsub imul lmul fmul dmul idiv ldiv fdiv ddiv irem lrem frem drem ineg lneg fneg
    dneg ishl lshl ishr lshr iushr lushr iand land ior lor ixor lxor iinc:i i2l i2f i2d l2i l2f l2d f2i f2l f2d d2i d2l d2f i2b i2c i2s
    lcmp fcmpl fcmpg dcmpl dcmpg ifeq:j ifne:j iflt:j ifge:j ifgt:j ifle:j if_icmpeq:j if_icmpne:j if_icmplt:j if_icmpge:j if_icmpgt:j
    if_icmple:j if_acmpeq:j if_acmpne:j goto:j jsr:j ret:v tableswitch:T lookupswitch:L ireturn lreturn freturn dreturn areturn return
    getstatic:C putstatic:C getfield:C putfield:C invokevirtual:C invokespecial:C invokestatic:C invokeinterface:I invokedynamic:D new:C
    newarray:b anewarray:C arraylength athrow checkcast:C instanceof:C monitorenter monitorexit wide:W multianewarray:M ifnull:j
    ifnonnull:j goto_w:J jsr_w:J'''.split()
    for i, x in enumerate(t):
        n, _, k = x.partition(':')
        OPN[i] = (n, k)


_ops()
ACC_PUBLIC, ACC_PRIVATE, ACC_PROTECTED, ACC_STATIC, ACC_FINAL, ACC_SYNC, ACC_VOLATILE, ACC_NATIVE, ACC_INTERFACE, ACC_ABSTRACT = \
    1, 2, 4, 8, 0x10, 0x20, 0x40, 0x100, 0x200, 0x400


class Insn:
    __slots__ = ('pc', 'op', 'arg', 'next', 'line', 'targets')

    def __repr__(self):
        return '%d:%s %s' % (self.pc, self.op, '' if self.arg is None else self.arg)


class Method:
    __slots__ = ('cls', 'acc', 'name', 'desc', 'code', 'ins', 'order', 'exc', 'lines', 'maxl', 'throws')

    @property
    def native(self):
        return bool(self.acc & ACC_NATIVE)

    @property
    def static(self):
        return bool(self.acc & ACC_STATIC)

    @property
    def id(self):
        return '%s.%s%s' % (self.cls.name, self.name, self.desc)

    def params(self):
        return parse_desc(self.desc)[0]

    def ret(self):
        return parse_desc(self.desc)[1]

    def succ(self, pc):
        """normal successors of an instruction"""
        i = self.ins[pc]
        o = i.op
        if o in ('goto', 'goto_w'):
            return list(i.targets)
        if o in ('tableswitch', 'lookupswitch'):
            return list(i.targets)
        if o.endswith('return') or o == 'athrow' or o == 'ret':
            return []
        if i.targets:
            return [i.next] + list(i.targets)
        return [i.next]

    def handlers(self, pc):
        return [(h, t) for (s, e, h, t) in self.exc if s <= pc < e]

    def line(self, pc=None):
        best = 0
        for s, l in self.lines:
            if pc is None:
                return l
            if s <= pc:
                best = l
        return best


class Field:
    __slots__ = ('cls', 'acc', 'name', 'desc', 'const')


class Class:
    __slots__ = ('name', 'super', 'ifaces', 'acc', 'fields', 'methods', 'src', 'file', 'cp', 'inner', 'bootstrap')

    def method(self, name, desc=None):
        for m in self.methods:
            if m.name == name and (desc is None or m.desc == desc):
                return m

    def srcfile(self):
        return 'classpath/' + '/'.join(self.name.split('/')[:-1] + [self.src or (self.name.split('/')[-1].split('$')[0] + '.java')])


def parse_desc(d):
    """(D)R -> [types], type"""
    assert d[0] == '('
    out, i = [], 1
    while d[i] != ')':
        j = i
        while d[j] == '[':
            j += 1
        if d[j] == 'L':
            j = d.index(';', j)
        out.append(d[i:j + 1])
        i = j + 1
    return out, d[i + 1:]


def _mutf(b):
    return b.decode('utf-8', 'surrogatepass') if b'\xc0\x80' not in b else b.replace(b'\xc0\x80', b'\0').decode('utf-8', 'replace')


def parse(data, path=''):
    pos = 8
    if data[:4] != b'\xca\xfe\xba\xbe':
        raise ValueError('not a class file: ' + path)

    def u1():
        nonlocal pos
        pos += 1
        return data[pos - 1]

    def u2():
        nonlocal pos
        pos += 2
        return (data[pos - 2] << 8) | data[pos - 1]

    def u4():
        nonlocal pos
        pos += 4
        return struct.unpack('>I', data[pos - 4:pos])[0]

    n = u2()
    cp = [None] * n
    i = 1
    while i < n:
        t = u1()
        if t == 1:
            l = u2()
            try:
                cp[i] = ('U', _mutf(data[pos:pos + l]))
            except UnicodeDecodeError:
                cp[i] = ('U', data[pos:pos + l].decode('latin1'))
            pos += l
        elif t == 3:
            cp[i] = ('int', struct.unpack('>i', data[pos:pos + 4])[0]); pos += 4
        elif t == 4:
            cp[i] = ('float', struct.unpack('>f', data[pos:pos + 4])[0]); pos += 4
        elif t == 5:
            cp[i] = ('long', struct.unpack('>q', data[pos:pos + 8])[0]); pos += 8; i += 1
        elif t == 6:
            cp[i] = ('double', struct.unpack('>d', data[pos:pos + 8])[0]); pos += 8; i += 1
        elif t == 7:
            cp[i] = ('class', u2())
        elif t == 8:
            cp[i] = ('string', u2())
        elif t in (9, 10, 11):
            cp[i] = ({9: 'field', 10: 'method', 11: 'imethod'}[t], u2(), u2())
        elif t == 12:
            cp[i] = ('nt', u2(), u2())
        elif t == 15:
            cp[i] = ('handle', u1(), u2())
        elif t == 16:
            cp[i] = ('mtype', u2())
        elif t == 18:
            cp[i] = ('indy', u2(), u2())
        else:
            raise ValueError('constant tag %d in %s' % (t, path))
        i += 1

    def utf(i):
        return cp[i][1]

    def cls(i):
        return utf(cp[i][1]) if i else None

    def const(i):
        e = cp[i]
        if e[0] in ('field', 'method', 'imethod'):
            nt = cp[e[2]]
            return (e[0], cls(e[1]), utf(nt[1]), utf(nt[2]))
        if e[0] == 'class':
            return ('class', utf(e[1]))
        if e[0] in ('string', 'mtype'):
            return (e[0], utf(e[1]))
        if e[0] == 'handle':
            return ('handle', e[1], const(e[2]))
        if e[0] == 'indy':
            nt = cp[e[2]]
            return ('indy', e[1], utf(nt[1]), utf(nt[2]))
        return e

    c = Class()
    c.file, c.cp, c.inner, c.bootstrap, c.src = path, cp, [], [], None
    c.acc = u2()
    c.name = cls(u2())
    c.super = cls(u2())
    c.ifaces = [cls(u2()) for _ in range(u2())]
    c.fields, c.methods = [], []
    for _ in range(u2()):
        f = Field()
        f.cls, f.acc, f.name, f.desc, f.const = c, u2(), utf(u2()), utf(u2()), None
        for _ in range(u2()):
            a, l = utf(u2()), u4()
            if a == 'ConstantValue':
                f.const = const((data[pos] << 8) | data[pos + 1])
            pos += l
        c.fields.append(f)
    for _ in range(u2()):
        m = Method()
        m.cls, m.acc, m.name, m.desc = c, u2(), utf(u2()), utf(u2())
        m.code, m.ins, m.order, m.exc, m.lines, m.maxl, m.throws = None, {}, [], [], [], 0, []
        for _ in range(u2()):
            a, l = utf(u2()), u4()
            end = pos + l
            if a == 'Exceptions':
                m.throws = [cls(u2()) for _ in range(u2())]
            elif a == 'Code':
                u2()
                m.maxl = u2()
                cl = u4()
                m.code = data[pos:pos + cl]
                pos += cl
                for _ in range(u2()):
                    s, e, h, t = u2(), u2(), u2(), u2()
                    m.exc.append((s, e, h, cls(t) if t else None))
                for _ in range(u2()):
                    b, bl = utf(u2()), u4()
                    bend = pos + bl
                    if b == 'LineNumberTable':
                        for _ in range(u2()):
                            s = u2()
                            m.lines.append((s, u2()))
                    pos = bend
            pos = end
        m.lines.sort()
        c.methods.append(m)
    for _ in range(u2()):
        a, l = utf(u2()), u4()
        end = pos + l
        if a == 'SourceFile':
            c.src = utf(u2())
        elif a == 'InnerClasses':
            for _ in range(u2()):
                c.inner.append((cls(u2()), u2(), u2(), u2()))
        elif a == 'BootstrapMethods':
            for _ in range(u2()):
                h = const(u2())
                c.bootstrap.append((h, [const(u2()) for _ in range(u2())]))
        pos = end
    for m in c.methods:
        if m.code is not None:
            decode(m, const)
    return c


def decode(m, const):
    b = m.code
    p = 0

    def s2(i):
        return struct.unpack('>h', b[i:i + 2])[0]

    def s4(i):
        return struct.unpack('>i', b[i:i + 4])[0]
    while p < len(b):
        i = Insn()
        i.pc, i.targets, i.arg = p, (), None
        i.op, k = OPN[b[p]]
        q = p + 1
        if k == '':
            x = i.op.rsplit('_', 1)
            if len(x) == 2 and x[1].isdigit() and (x[0][1:] in ('load', 'store')):
                i.op, i.arg = x[0], int(x[1])
        elif k == 'b':
            i.arg = struct.unpack('b', b[q:q + 1])[0]; q += 1
        elif k == 's':
            i.arg = s2(q); q += 2
        elif k == 'c':
            i.arg = const(b[q]); q += 1
            i.op = 'ldc'
        elif k in ('C',):
            i.arg = const((b[q] << 8) | b[q + 1]); q += 2
            if i.op in ('ldc_w', 'ldc2_w'):
                i.op = 'ldc'
        elif k == 'v':
            i.arg = b[q]; q += 1
        elif k == 'i':
            i.arg = (b[q], struct.unpack('b', b[q + 1:q + 2])[0]); q += 2
        elif k == 'j':
            i.targets = (p + s2(q),); q += 2
        elif k == 'J':
            i.targets = (p + s4(q),); q += 4
        elif k == 'I':
            i.arg = const((b[q] << 8) | b[q + 1]); q += 4
        elif k == 'D':
            i.arg = const((b[q] << 8) | b[q + 1]); q += 4
        elif k == 'M':
            i.arg = (const((b[q] << 8) | b[q + 1]), b[q + 2]); q += 3
        elif k == 'W':
            n = OPN[b[q]][0]
            i.op = n
            if n == 'iinc':
                i.arg = ((b[q + 1] << 8) | b[q + 2], s2(q + 3)); q += 5
            else:
                i.arg = (b[q + 1] << 8) | b[q + 2]; q += 3
        elif k == 'T':
            q = (q + 3) & ~3
            d, lo, hi = s4(q), s4(q + 4), s4(q + 8)
            q += 12
            ts = [p + d]
            i.arg = {}
            for x in range(lo, hi + 1):
                ts.append(p + s4(q)); i.arg[x] = p + s4(q); q += 4
            i.targets = tuple(ts)
        elif k == 'L':
            q = (q + 3) & ~3
            d, n = s4(q), s4(q + 4)
            q += 8
            ts = [p + d]
            i.arg = {}
            for _ in range(n):
                ts.append(p + s4(q + 4)); i.arg[s4(q)] = p + s4(q + 4); q += 8
            i.targets = tuple(ts)
        i.next = q
        m.ins[p] = i
        m.order.append(p)
        p = q


def load(dir):
    """{name: Class} of every class file below a directory"""
    out = {}
    for r, _, fs in os.walk(dir):
        for f in sorted(fs):
            if f.endswith('.class'):
                p = os.path.join(r, f)
                with open(p, 'rb') as h:
                    c = parse(h.read(), p)
                out[c.name] = c
    return out


_rt = {}


def rt(names):
    """classes of the JDK's rt.jar"""
    import zipfile, build
    z = _rt.setdefault('z', zipfile.ZipFile(build.RT))
    out = {}
    for n in names:
        if n not in _rt:
            try:
                _rt[n] = parse(z.read(n + '.class'), n)
            except KeyError:
                _rt[n] = None
        if _rt[n]:
            out[n] = _rt[n]
    return out
