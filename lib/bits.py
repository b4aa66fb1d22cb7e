"""Bit-level meaning of symbolic bytecode values.

A value is a list of bits, least significant first: 0, 1, ('b', source, k) = bit k of a source, or None (unknown). A source is a byte
read from a stream, an array element, a parameter, a field or any other opaque value.
"""
from jclass import parse_desc

W = {'B': 8, 'C': 16, 'S': 16, 'Z': 1, 'I': 32, 'J': 64}


def top(n):
    return [None] * n


def src(key, w, signed, n):
    b = [('b', key, k) for k in range(w)]
    return b + [(b[-1] if signed else 0)] * (n - w)


class Bits:
    """leaf(v) -> list of bits or None, for values with a known meaning"""

    def __init__(self, m, leaf=None, types=None):
        self.m, self.leaf, self.memo = m, leaf, {}
        ps = ([] if m.static else ['L;']) + m.params()
        self.ptype = {i: d for i, d in enumerate(ps)}

    def width(self, v):
        return len(self(v))

    def __call__(self, v):
        r = self.memo.get(v)
        if r is None:
            r = self.memo[v] = self.ev(v)
        return r

    def opaque(self, v, d):
        if d in W:
            return src(v, W[d], d in 'BSIJ', 64 if d == 'J' else 32)
        return top(64 if d == 'D' else 32)

    def ev(self, v):
        if self.leaf:
            r = self.leaf(v)
            if r is not None:
                return r
        k = v[0]
        if k == 'i':
            return [(v[1] >> i) & 1 for i in range(32)]
        if k == 'j':
            return [(v[1] >> i) & 1 for i in range(64)]
        if k == 'p':
            return self.opaque(v, self.ptype.get(v[1], 'I'))
        if k == 'el':
            return self.opaque(v[:3], {'b': 'B', 'c': 'C', 's': 'S', 'i': 'I', 'l': 'J'}.get(v[4], 'D' if v[4] == 'd' else 'F'))
        if k == 'fld':
            return self.opaque(v, v[4])
        if k == 'call':
            return self.opaque(v, parse_desc(v[2][2])[1])
        if k == 'h':
            return self.opaque(v, {'i': 'I', 'l': 'J', 'd': 'D'}.get(v[3], 'F'))
        if k == 'len':
            b = src(v, 32, True, 32)
            b[31] = 0
            return b
        if len(k) == 4 and k[1:] in ('shl', 'shr') or k[1:] == 'ushr' or k in ('iand', 'ior', 'ixor', 'land', 'lor', 'lxor', 'iadd', 'ladd', 'imul', 'lmul', 'isub', 'lsub'):
            n = 64 if k[0] == 'l' else 32
            a = self(v[1])
            b = self(v[2])
            if len(a) != n:
                return top(n)
            o = k[1:]
            if o in ('shl', 'shr', 'ushr'):
                s = 0
                for i in range(6 if n == 64 else 5):
                    if b[i] not in (0, 1):
                        return top(n)
                    s |= b[i] << i
                if o == 'shl':
                    return [0] * s + a[:n - s]
                return a[s:] + [(a[-1] if o == 'shr' else 0)] * s
            if len(b) != n:
                return top(n)
            if o == 'mul':
                for x, y in ((a, b), (b, a)):
                    ones = [i for i, t in enumerate(y) if t != 0]
                    if len(ones) == 1 and y[ones[0]] == 1:
                        return [0] * ones[0] + x[:n - ones[0]]
                return top(n)
            if o == 'sub':
                return top(n) if any(x != 0 for x in b) else a
            if o == 'add':
                r = []
                for x, y in zip(a, b):
                    if x != 0 and y != 0:
                        return r + top(n - len(r))
                    r.append(x if y == 0 else y)
                return r
            r = []
            for x, y in zip(a, b):
                if o == 'and':
                    r.append(0 if x == 0 or y == 0 else y if x == 1 else x if y == 1 else x if x == y else None)
                elif o == 'or':
                    r.append(1 if x == 1 or y == 1 else y if x == 0 else x if y == 0 else x if x == y else None)
                else:
                    r.append(y if x == 0 else x if y == 0 else 0 if x == y and x is not None else None)
            return r
        if k == 'i2l':
            a = self(v[1])
            return a + [a[-1]] * 32 if len(a) == 32 else top(64)
        if k == 'l2i':
            a = self(v[1])
            return a[:32] if len(a) == 64 else top(32)
        if k in ('i2b', 'i2s', 'i2c'):
            a, w = self(v[1]), 8 if k == 'i2b' else 16
            return a[:w] + [0 if k == 'i2c' else a[w - 1]] * (32 - w)
        if k in ('ineg', 'irem', 'idiv', 'lcmp', 'f2i', 'd2i', 'fcmpl', 'fcmpg', 'dcmpl', 'dcmpg', 'instanceof'):
            return top(32)
        if k in ('lneg', 'lrem', 'ldiv', 'f2l', 'd2l'):
            return top(64)
        return top(32)


def show(bits):
    """compact rendering for messages, most significant byte first"""
    out = []
    for i in range(len(bits) - 8, -1, -8):
        b = bits[i:i + 8]
        if all(x in (0, 1) and x is not None for x in b):
            out.append('%02x' % sum(x << j for j, x in enumerate(b)))
        elif all(isinstance(x, tuple) for x in b) and len({x[1] for x in b}) == 1:
            ks = [x[2] for x in b]
            out.append('bits %d-%d' % (ks[0], ks[-1]) if ks == list(range(ks[0], ks[0] + 8)) else
                       'sign' if len(set(ks)) == 1 else 'mixed')
        else:
            out.append('?')
    return '[' + ' '.join(out) + ']'
