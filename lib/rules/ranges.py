"""B01: native code that Java or JNI callers reach stays inside the arrays and buffers it copies from and to."""
import re
import prog
from prog import rel
from absint import Eval, Model, TooComplex, mkop, mkcast, show, strip_casts, is_bool
from linear import Prover, NEG, lin_add

U64, I32, U8 = ('u', 64), ('i', 32), ('u', 8)
MAXLEN = 2**31 - 1
ELEM = {'Boolean': 1, 'Byte': 1, 'Char': 2, 'Short': 2, 'Int': 4, 'Long': 8, 'Float': 4, 'Double': 8, 'Int8': 1, 'Array': 8, 'UintArray': 8}
JARR = {'jbooleanArray': 1, 'jbyteArray': 1, 'jcharArray': 2, 'jshortArray': 2, 'jintArray': 4, 'jlongArray': 8, 'jfloatArray': 4, 'jdoubleArray': 8}
SIZES = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'bool': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8,
         'float': 4, 'double': 8, 'long long': 8, 'unsigned long long': 8, 'void': 1,
         'jbyte': 1, 'jboolean': 1, 'jchar': 2, 'jshort': 2, 'jint': 4, 'jlong': 8, 'jfloat': 4, 'jdouble': 8,
         'int8_t': 1, 'uint8_t': 1, 'int16_t': 2, 'uint16_t': 2, 'int32_t': 4, 'uint32_t': 4, 'int64_t': 8, 'uint64_t': 8, 'wchar_t': 4}
# functions that touch n bytes at p: (argument with p, argument with n)
COPIES = {'memcpy': ((0, 2), (1, 2)), 'memmove': ((0, 2), (1, 2)), 'memset': ((0, 2),), 'read': ((1, 2),), 'write': ((1, 2),), 'recv': ((1, 2),),
          'send': ((1, 2),), 'recvfrom': ((1, 2),), 'sendto': ((1, 2),), 'snprintf': ((0, 1),), 'pread': ((1, 2),), 'pwrite': ((1, 2),), 'strftime': ((0, 1),)}
# functions that return how many bytes they have transferred, -1 at most as many as asked: argument with that number
COUNTS = {'read': 2, 'write': 2, 'recv': 2, 'send': 2, 'recvfrom': 2, 'sendto': 2, 'pread': 2, 'pwrite': 2}


def lower(t):
    """range of a machine type"""
    k, w = t
    if k == 'u':
        return 0, 2**w - 1
    if k == 'i':
        return -2**(w - 1), 2**(w - 1) - 1
    return None, None


def ctype(t):
    k = t[0]
    if k == 'a':
        return t[2] if isinstance(t[2], tuple) else ('x', 0)
    if k in ('op', 'un'):
        return t[2]
    if k == 'cast':
        return t[1]
    if k in ('len', 'pure', 'utflen'):
        return U64
    if k == 'below':
        return ('u', 32)
    return ('x', 0)


def view(negative=()):
    """negative: the conversions to an unsigned type whose operand is taken to be negative"""
    def v(t):
        k = t[0]
        if k == 'c':
            return ('c', t[1]) if isinstance(t[1], int) else ('atom', None, None)
        if k == 'len' and t[1][0] == 'made':
            return ('atom', 0, MAXLEN, [('==', t[1][2])])
        if k == 'len':
            return ('atom', 0, MAXLEN)
        if k == 'utflen':
            return ('atom', 0, MAXLEN - 1)
        if k == 'r' and t[1] in ('strlen', 'wcslen'):
            return ('atom', 0, 2**29)
        if k == 'below':
            return ('atom', 0, 2**32 - 1, [('<=', t[2])])
        if k == 'r' and t[1] in COUNTS and len(t[3]) > COUNTS[t[1]]:
            return ('atom', -1, 2**63 - 1, [('<=', t[3][COUNTS[t[1]]])])
        if k == 'op' and t[2][0] in 'iu':
            lo, hi = lower(t[2])
            if t[1] == '+':
                return ('sum', [(1, t[3]), (1, t[4])], 0, lo, hi)
            if t[1] == '-':
                return ('sum', [(1, t[3]), (-1, t[4])], 0, lo, hi)
            if t[1] == '*':
                for a, b in ((t[3], t[4]), (t[4], t[3])):
                    if b[0] == 'c':
                        return ('sum', [(b[1], a)], 0, lo, hi)
            if t[1] == '<<' and t[4][0] == 'c' and 0 <= t[4][1] < t[2][1]:
                return ('sum', [(1 << t[4][1], t[3])], 0, lo, hi)
            if t[1] == '&':
                for b in (t[3], t[4]):
                    if b[0] == 'c' and b[1] >= 0:
                        return ('atom', 0, b[1])
            return ('atom', lo, hi)
        if k == 'un' and t[1] == '-' and t[2][0] in 'iu':
            return ('sum', [(-1, t[3])], 0) + lower(t[2])
        if k == 'cast' and t[1][0] in 'iu':
            if t in negative:
                return ('sum', [(1, t[2])], 1 << t[1][1]) + lower(t[1])
            if t[3][0] in 'iu' and t[1][1] > 1:
                return ('same', t[2]) + lower(t[1])
            return ('atom',) + lower(t[1])
        if k == 'cast':
            return ('atom', None, None)
        x = ctype(t)
        return ('atom',) + (lower(x) if x[0] in 'iu' else (None, None))
    return v


def unwrap(t, val):
    """the comparison that a truth value stands for"""
    while True:
        t = strip_casts(t)
        if t[0] == 'un' and t[1] == '!':
            t, val = t[3], not val
        elif t[0] == 'op' and t[1] in ('!=', '==') and t[4] == ('c', 0) and is_bool(strip_casts(t[3])):
            t, val = t[3], val == (t[1] == '!=')
        else:
            return t, val


def facts_of(st):
    out = []
    for t, val in st.dec.items():
        t2, val = unwrap(t, val)
        if t2[0] == 'op' and t2[1] in NEG:
            op = t2[1] if val else NEG[t2[1]]
            if t2[2][0] in 'iu':
                out.append((op, t2[3], t2[4]))
    return out


class Natives(Model):
    max_paths = 4000
    arrays = True

    def __init__(self, P, esz=None):
        self.P = P
        self.esz = esz or {}
        self.types = {}
        self.hits = []

    def inline(self, g):
        # helpers of the class library bridge and of the JNI layer that are handed ranges
        last = g.n.split('::')[-1]
        if g.n.startswith('vm::Gc') or len(g.b) > 40:
            return False
        return g.file.endswith(('java-io.cpp', 'java-nio.cpp', 'java-net.cpp', 'java-lang.cpp', 'java-util-zip.cpp', 'jni-util.h', 'sockets.cpp', 'jnienv.cpp', 'builtin.cpp')) \
            and not last.startswith(('throw',)) and not last.startswith('JNIEnv_') or last in ('compatibleArrayTypes', 'checkRange')

    def obj(self, st, t):
        return strip_casts(t)

    def call(self, ev, st, f, i, fn, a):
        c = f.x[i].get('c', ())
        L = lambda k: strip_casts(ev.load(f, c[k], st, a[k]) if a[k][0] == 'lv' else a[k])
        last = fn.split('::')[-1]
        m = re.match(r'^vm::Gc(\w+?)(?:Array)?::(length|body)$', fn)
        if m and 'Array' in fn and len(a) == 1:
            o = self.heap(st, L(0))
            return ('len', o) if m.group(2) == 'length' else ('body', o, ELEM.get(m.group(1)))
        if fn == 'vm::fieldAtOffset' and len(a) == 2:
            o, k = self.heap(st, L(0)), L(1)
            if k == ('c', 8):
                return ('len', o)
            if k == ('c', 16):
                return ('ref', ('body', o, None), ('c', 0))
        if last == 'GetArrayLength' and fn.startswith('JNIEnv_'):
            return ('cast', I32, ('len', L(1)), U64)
        if fn.startswith('JNIEnv_::') and (last == 'GetPrimitiveArrayCritical' or re.match(r'^Get\w+ArrayElements$', last)):
            m = re.match(r'^Get(\w+)ArrayElements$', last)
            e = ELEM.get(m.group(1)) if m else self.jarr(f, c[1])
            return ('body', L(1), e)
        if '::Slice<' in fn and last in ('operator[]', 'begin'):
            b = L(0)
            if b[0] == 'body':
                k = ev.load(f, c[1], st, a[1]) if last != 'begin' and a[1][0] == 'lv' else a[1] if last != 'begin' else ('c', 0)
                if last == 'operator[]':
                    if given(k) and b[2]:
                        at = f.parents.get(i, ())
                        taken = at and all(f.x[q]['k'] == 'Un' and f.x[q].get('op') == '&' for q in at)
                        self.hits.append((f, i, 'element access', ('ref', b, k), ('c', 0 if taken else b[2]), dict(st.dec)))
                    return ('ref', b, k)
                return b
        if last == 'malloc' and len(a) == 1:
            n = ev.load(f, c[0], st, a[0]) if a[0][0] == 'lv' else a[0]
            st.n += 1
            return ('buf', st.n, n)
        if last in ('allocate', 'tryAllocate') and len(a) == 2:
            n = ev.load(f, c[1], st, a[1]) if a[1][0] == 'lv' else a[1]
            st.n += 1
            return ('buf', st.n, n)
        m = re.match(r'^vm::make(\w+)Array$', fn)
        if m and len(a) == 2 and m.group(1) in ELEM:
            n = ev.load(f, c[1], st, a[1]) if a[1][0] == 'lv' else a[1]
            st.n += 1
            return ('made', st.n, n)
        if fn == 'vm::GcString::length':
            return ('cast', ('u', 32), ('len', self.heap(st, L(0))), U64)
        if last == 'stringUTFLength':
            return ('cast', I32, ('utflen',) + tuple(L(k) for k in range(1, len(a))), U64)
        if last in ('stringChars', 'stringUTFChars') and fn.startswith('vm::'):
            v = [ev.load(f, c[k], st, a[k]) if a[k][0] == 'lv' else a[k] for k in range(len(a))]
            full = len(v) < 5
            s = self.heap(st, v[1])
            p = v[2] if full else v[4]
            unit = 2 if last == 'stringChars' and re.search(r'short|jchar|uint16', f.type(c[2 if full else 4])) else 1
            n = ('utflen', s) + (() if full else (v[2], v[3])) if last == 'stringUTFChars' else ('len', s) if full else v[3]
            n1 = mkop('+', ('u', 64), n, ('c', 1))
            self.hits.append((f, i, last, p, n1 if unit == 1 else mkop('*', ('u', 64), n1, ('c', unit)), dict(st.dec)))
            if not full:
                self.hits.append((f, i, last, ('padd', 'char', ('body', s, 1), v[2]), v[3], dict(st.dec)))
        if last in ('inflate', 'deflate') and len(a) == 2:
            # zlib consumes and produces at most what is available
            for k in ('avail_in', 'avail_out'):
                if k in st.x:
                    st.n += 1
                    st.x[k] = ('below', st.n, st.x[k])
        if fn.endswith('System::Region::length'):
            return ('pure', 'region length', L(0))
        if fn == 'vm::cast' and len(a) == 2:
            return L(1)
        if last == 'arrayElementSize' and self.esz:
            o = L(0)
            if o[0] == 'class':
                return ('c', self.esz.get(show(o[1]), 0))
        if last == 'objectClass' and self.esz:
            return ('class', self.heap(st, L(1)))
        if last == 'objectMask' and self.esz:
            o = L(0)
            # the elements of an array of references are pointers
            if o[0] == 'class' and self.esz.get(show(o[1]), 8) != 8:
                return ('c', 0)
        if last in ('objectArrayBody', 'setObjectArrayBody') and fn.startswith('vm::'):
            k = ev.load(f, c[2], st, a[2]) if a[2][0] == 'lv' else a[2]
            if given(k):
                self.hits.append((f, i, last, ('ref', ('body', L(1), 8), k), ('c', 8), dict(st.dec)))
        if fn == 'vm::setField' and len(a) == 4 and f.file.endswith('jnienv.cpp'):
            k = ev.load(f, c[2], st, a[2]) if a[2][0] == 'lv' else a[2]
            if given(k):
                self.hits.append((f, i, last, ('padd', 'char', ('raw', L(1)), k), ('c', 8), dict(st.dec)))
        if last in COPIES and '::' not in fn:
            v = [ev.load(f, c[k], st, a[k]) if a[k][0] == 'lv' else a[k] for k in range(len(a))]
            for p, n in COPIES[last]:
                if max(p, n) < len(v):
                    self.hits.append((f, i, last, v[p], v[n], dict(st.dec)))
        m = re.match(r'^JNIEnv_::(?:Get|Set)(\w+)ArrayRegion$', fn)
        if m and len(a) == 5:
            v = [ev.load(f, c[k], st, a[k]) if a[k][0] == 'lv' else a[k] for k in range(5)]
            e = ELEM[m.group(1)]
            self.hits.append((f, i, last, v[4], mkop('*', ('i', 64), mkcast(('i', 64), v[3], I32), ('c', e)), dict(st.dec)))
        return None

    def decide(self, st, t):
        t = strip_casts(t)
        if self.esz and t[0] == 'op' and t[1] == '==' and {strip_casts(t[3])[0], strip_casts(t[4])[0]} == {'class'}:
            a, b = strip_casts(t[3])[1], strip_casts(t[4])[1]
            if self.esz.get(show(a)) != self.esz.get(show(b)):
                return False
        return None

    def heap(self, st, t):
        return strip_casts(t)

    def load(self, st, f, i, lv):
        if lv[1] == 'mem' and lv[3] in ('avail_out', 'avail_in'):
            return st.x.get(lv[3])
        if lv[1] == 'idx' and lv[2][0] == 'x' and lv[2][1] == 'InitList' and lv[3][0] == 'c' and isinstance(lv[3][1], int) and 0 <= lv[3][1] < len(lv[2]) - 2:
            return lv[2][2 + lv[3][1]]
        return None

    def store(self, st, f, i, lv, v):
        if lv[1] == 'mem' and lv[3] in ('avail_out', 'avail_in'):
            st.x[lv[3]] = v
        return False

    def jarr(self, f, i):
        t = f.type(f.strip(i))
        for k, v in JARR.items():
            if k in t or k.replace('j', '_j', 1) in t:
                return v
        return None


def given(t):
    """computed from a number the caller passed"""
    t = strip_casts(t)
    if t[0] == 'a':
        return t[1].startswith('v:') and ctype(t)[0] in 'iu'
    if t[0] == 'ld' and t[1] == 'idx':
        return t[2][0] == 'a' and t[2][1] == 'v:arguments'
    return any(given(x) for x in t[3:]) if t[0] in ('op', 'un') else False


def resolve(t):
    """(array or buffer, [(bytes per unit, index)]) of a pointer"""
    off = []
    while True:
        t = strip_casts(t)
        if t[0] == 'addr' and isinstance(t[1], tuple) and t[1] and t[1][0] in ('ref', 'body', 'buf', 'local', 'padd'):
            t = t[1]
        elif t[0] == 'addr' and isinstance(t[1], tuple) and t[1][:2] == ('lv', 'idx'):
            off.append((None, t[1][3]))
            t = t[1][2]
        elif t[0] == 'ref':
            off.append((None, t[2]))
            t = t[1]
        elif t[0] == 'padd':
            off.append((SIZES.get(re.sub(r'\bconst\b', '', t[1]).strip()), t[3]))
            t = t[2]
        else:
            return t, off


class Obligation:
    def __init__(self, model, f, i, what, p, n, dec):
        self.f, self.i, self.what, self.p, self.n, self.dec = f, i, what, p, n, dec
        self.base, self.off = resolve(p)

    def prove(self, esz=None):
        st = type('S', (), {'dec': self.dec})
        facts = facts_of(st)
        # an unsigned value made of a signed one: as it is, or the negative one modulo the word
        conv = []
        for t in [self.p, self.n] + [x for f in facts for x in f[1:]] + [self.base[2] if self.base[0] in ('buf', 'local') else ('c', 0)]:
            unsigned_of_signed(t, conv)
        for bits in range(1 << min(len(conv), 4)):
            neg = {c for k, c in enumerate(conv) if bits >> k & 1}
            r = self.prove1(esz, facts, neg, conv[:4])
            if r:
                return r
        return None

    def prove1(self, esz, facts, neg, conv):
        b = self.base
        unit = 8 if b[0] == 'raw' else b[2] if b[0] == 'body' else SIZES.get(b[3].replace('const ', '')) if b[0] == 'local' else 1
        if b[0] == 'body' and unit is None:
            unit = esz
        P = Prover(view(neg), [('<' if c in neg else '>=', c[2], ('c', 0)) for c in conv] + facts)
        P.again()
        if b[0] in ('body', 'raw'):
            if unit is None:
                return 'an element size that is not known'
            cap = lin_add({}, P.lin(('len', b[1])), unit)
            P.cs.append((lin_add({}, {x: c for x, c in cap.items() if x != 1}, -1), 2**32 - 1 - 16 - cap.get(1, 0)))
        else:
            if unit is None:
                return 'an element size that is not known'
            cap = lin_add({}, P.lin(b[2]), unit)
            P.cs.append((lin_add({}, {x: c for x, c in cap.items() if x != 1}, -1), 2**63 - 1 - cap.get(1, 0)))
        P.memo = {}
        start = {}
        if b[0] == 'raw':
            start = {1: -16}
        for s, k in self.off:
            s = s or unit
            if s is None:
                return 'an element size that is not known'
            start = lin_add(start, P.lin(k), s)
        n = P.lin(self.n)
        cap = lin_add({}, P.lin(('len', b[1])), unit) if b[0] in ('body', 'raw') else lin_add({}, P.lin(b[2]), unit)
        if P.contradictory():
            return None
        if not P.entails(start):
            return 'may start before the array'
        if not self.what.endswith('ArrayRegion') and not P.entails(n):
            return 'may copy a negative (huge) number of bytes'
        if not P.entails(lin_add(lin_add(cap, start, -1), n, -1)):
            return 'may go beyond the end of the %s' % ('array' if b[0] in ('body', 'raw') else 'allocated buffer')
        return None


def unsigned_of_signed(t, out):
    if not isinstance(t, tuple):
        return
    if t and t[0] == 'cast' and t[1][0] == 'u' and t[3][0] == 'i' and t[1][1] > 8 and t[2][0] != 'c' and t not in out:
        out.append(t)
    for x in t[1:] if t and t[0] in ('op', 'un', 'cast', 'padd', 'ref', 'addr', 'body', 'buf', 'local', 'below') else ():
        unsigned_of_signed(x, out)


def prove_hits(res, P, f, model, esz=None, w='', what=None):
    E = Eval(P, model)
    try:
        E.run(f)
    except TooComplex:
        res.count('functions too large to follow (%s)' % w)
    seen = set()
    for h in model.hits:
        o = Obligation(model, *h)
        if o.base[0] not in ('body', 'buf', 'local', 'raw') or what and o.what not in what:
            continue
        r = o.prove(esz(o.base) if esz else None)
        k = (o.f.m, o.i, o.p, o.n, r, tuple(sorted(map(str, o.dec.items()))) if r else None)
        if k in seen:
            continue
        seen.add(k)
        res.count('accesses proved inside their array or buffer (%s)' % w if r is None else 'accesses not proved (%s)' % w)
        if r:
            res.bad('range|%s|%s' % (o.f.n.split('::')[-1], o.what), rel(o.f.file), o.f.x[o.i]['l'], o.f.n,
                    '%s %s on a path where the caller decides the range (reached from %s)' % (o.what, r, f.n.split('::')[-1]))


def is_native(f):
    last = f.n.split('::')[-1]
    # (the invocation API assembles its property strings from the embedder's options, not from a caller's range)
    return (last.startswith(('Java_', 'Avian_')) or f.file.endswith('jnienv.cpp')) and last != 'JNI_CreateJavaVM'


def check(res, tier):
    res.rule('In every native method and JNI function, each copy to or from an array, a string or a buffer made for the call starts inside it and '
             'ends inside it on every path, for all lengths and offsets the caller may pass (linear inequalities over the comparisons of the path, '
             'with wrapping arithmetic; a sum that may overflow bounds nothing).')
    res.rule('Array copy moves only elements of both arrays, for every pair of element sizes that it lets through.')
    res.rule('Wherever the VM copies a Java string into a C buffer, the buffer has room for all of its characters and the terminator.')
    res.rule('stringUTFChars writes exactly as many bytes per character as stringUTFLength counts.')
    for w in ('jit', 'openjdk') if tier == 'quick' else ('jit', 'interpret', 'openjdk'):
        P = prog.world(w)
        n = 0
        for f in P.funcs.values():
            if not f.b:
                continue
            if is_native(f):
                n += 1
                prove_hits(res, P, f, Natives(P), w=w)
            elif any(x.get('fn') in ('vm::stringChars', 'vm::stringUTFChars') for _, x in f.calls()) and f.n.split('::')[-1] not in ('stringChars', 'stringUTFChars'):
                prove_hits(res, P, f, Natives(P), w=w, what=('stringChars', 'stringUTFChars'))
        res.count('native methods and JNI functions analysed (%s)' % w, n, floor=300)
        res.floors['accesses proved inside their array or buffer (%s)' % w] = 90
        f = P.one('vm::arrayCopy')
        a, b = ('a', 'v:' + f.vars[f.params[1]][0], ('p', 64)), ('a', 'v:' + f.vars[f.params[3]][0], ('p', 64))
        before = dict(res.stats)
        for x in (1, 2, 4, 8):
            for y in (1, 2, 4, 8):
                sizes = {show(a): x, show(b): y}
                prove_hits(res, P, f, Natives(P, sizes), esz=lambda base: sizes.get(show(base[1])) if base[0] == 'body' else None, w='arrayCopy ' + w)
        res.floors['accesses proved inside their array or buffer (arrayCopy %s)' % w] = 8
        utf(res, P)


# ------------------------------------------------------------------ UTF-8 of strings

def utf(res, P):
    fs = {}
    for f in P.funcs.values():
        if f.n in ('vm::stringUTFLength', 'vm::stringUTFChars') and f.b and len(f.params) > 3:
            fs[f.n.split('::')[-1]] = f
    if len(fs) != 2:
        raise prog.AnalysisBroken('stringUTFLength or stringUTFChars not found')
    count = per_char(P, fs['stringUTFLength'], False)
    write = per_char(P, fs['stringUTFChars'], True)
    points = sorted({k + d for table in (count, write) for cs, _ in table for _, k in cs for d in (-1, 0, 1) if 0 <= k + d <= 65535} | {0, 65535})
    for c in points:
        a, b = ({v for cs, v in t if all(CMP[op](c, k) for op, k in cs)} for t in (count, write))
        res.count('characters at which UTF-8 lengths were compared', floor=8)
        if a != b or len(a) != 1:
            f = fs['stringUTFChars']
            res.bad('utf-length|%d' % c, rel(f.file), f.l, f.n, 'writes %s bytes for the character %d, stringUTFLength counts %s'
                    % ('/'.join(map(str, sorted(b))) or '?', c, '/'.join(map(str, sorted(a))) or '?'))


CMP = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b, '<=': lambda a, b: a <= b,
       '>': lambda a, b: a > b, '>=': lambda a, b: a >= b}


class Chars(Model):
    """the characters of a two-byte string"""

    def __init__(self):
        self.dst = None

    def call(self, ev, st, f, i, fn, a):
        last = fn.split('::')[-1]
        c = f.x[i].get('c', ())
        if '::Slice<' in fn and last == 'operator[]':
            k = ev.load(f, c[1], st, a[1]) if a[1][0] == 'lv' else a[1]
            return ('a', 'char %s' % show(strip_casts(k)), ('u', 16))
        if last in ('data', 'offset', 'length', 'objectClass', 'type', 'cast', 'body'):
            return ('a', last, ('u', 64))
        return None

    def store(self, st, f, i, lv, v):
        if lv[1] == 'idx' or lv[1] == 'deref':
            st.x['bytes'] = st.x.get('bytes', 0) + 1
        return False

    def decide(self, st, t):
        t = strip_casts(t)
        # not the byte form
        if t[0] == 'op' and t[1] == '==' and any(strip_casts(x) == ('a', 'objectClass', ('u', 64)) for x in t[3:]):
            return False
        return None


def per_char(P, f, writes):
    """[(conditions on the character, bytes)] of one turn of the loop over the characters"""
    out = []
    for st, kind, val in Eval(P, Chars()).run(f):
        if kind != 'return':
            continue
        chars = []
        for t, v in st.dec.items():
            t, v = unwrap(t, v)
            if t[0] == 'op' and t[1] in NEG:
                x, y, op = strip_casts(t[3]), strip_casts(t[4]), t[1] if v else NEG[t[1]]
                if y[0] == 'a' and x[0] == 'c':
                    x, y, op = y, x, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
                if x[0] == 'a' and x[1].startswith('char ') and y[0] == 'c':
                    chars.append((x[1], op, y[1]))
        if len({c for c, _, _ in chars}) != 1:
            continue
        n = st.x.get('bytes', 0) - 1 if writes else None      # less the terminator
        if not writes:
            v = strip_casts(val)
            n = v[1] if v[0] == 'c' else None
        out.append(([(op, k) for _, op, k in chars], n))
    return out
