"""Linear integer inequalities entailed by the comparisons of a path, with machine arithmetic: a sum or product counts as one only
where the comparisons show that it cannot have overflowed, and as an unknown value otherwise.

A view function describes the terms of a language:
  view(t) -> ('c', n)                            constant
             ('sum', [(k, t1), ...], n, lo, hi)  k1*t1 + ... + n computed in the range lo..hi
             ('same', t1, lo, hi)                the value of t1 converted to the range lo..hi
             ('atom', lo, hi)                    unknown value
             ('atom', lo, hi, [(op, t1), ...])   unknown value related to others (op '<=', '>=', '==')
"""
from math import gcd

I32 = (-2**31, 2**31 - 1)
NEG = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}


def lin_add(a, b, k=1):
    r = dict(a)
    for x, c in b.items():
        r[x] = r.get(x, 0) + k * c
        if r[x] == 0:
            del r[x]
    return r


class Prover:
    MAX = 600

    def __init__(self, view, facts=()):
        """facts: (op, a, b) over terms"""
        self.view = view
        self.cs = []            # (coefficients, constant): sum + constant >= 0
        self.ne = []
        self.seen = set()
        self.facts = []
        self.memo = {}
        for f in facts:
            self.add(*f)

    # 1 in a linear form stands for the constant
    def lin(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.lin1(t)
            self.memo[t] = r
        return r

    def atom(self, t, lo, hi):
        if t not in self.seen:
            self.seen.add(t)
            if lo is not None:
                self.cs.append(({t: 1}, -lo))
            if hi is not None:
                self.cs.append(({t: -1}, hi))
        return {t: 1}

    def lin1(self, t):
        v = self.view(t)
        k = v[0]
        if k == 'c':
            return {1: v[1]} if v[1] else {}
        if k == 'atom':
            r = self.atom(t, v[1], v[2])
            for op, x in v[3] if len(v) > 3 else ():
                self.memo[t] = r
                self.rel(op, r, self.lin(x))
            return r
        if k == 'same':
            a = self.lin(v[1])
            if self.within(a, v[2], v[3]):
                return a
            return self.atom(t, v[2], v[3])
        s = {1: v[2]} if v[2] else {}
        for c, x in v[1]:
            s = lin_add(s, self.lin(x), c)
        if self.within(s, v[3], v[4]):
            return s
        return self.atom(t, v[3], v[4])

    def within(self, a, lo, hi):
        return (lo is None or self.entails(lin_add(a, {1: -lo}))) and (hi is None or self.entails(lin_add({1: hi}, a, -1)))

    def rel(self, op, a, b):
        d = lin_add(b, a, -1)       # b - a
        c = d.pop(1, 0)
        n = {x: -k for x, k in d.items()}
        if op in ('<', '<='):
            self.cs.append((d, c - (op == '<')))
        elif op in ('>', '>='):
            self.cs.append((n, -c - (op == '>')))
        elif op == '==':
            self.cs.append((d, c))
            self.cs.append((n, -c))
        elif op == '!=':
            self.ne.append((d, c))

    def add(self, op, a, b):
        self.facts.append((op, a, b))
        self.rel(op, self.lin(a), self.lin(b))

    def again(self):
        """a second round, with the overflow questions answered by all comparisons"""
        self.memo = {}
        for op, a, b in self.facts:
            self.rel(op, self.lin(a), self.lin(b))
        for d, c in self.ne:
            # a value bounded on one side by the excluded one
            for s in (1, -1):
                if self.entails({**{x: s * k for x, k in d.items()}, 1: s * c}):
                    self.cs.append(({x: s * k for x, k in d.items()}, s * c - 1))
        self.memo = {}

    def prove(self, op, a, b):
        return self.holds(op, self.lin(a), self.lin(b))

    def holds(self, op, a, b):
        if op in ('<', '<='):
            return self.entails(lin_add(lin_add(b, a, -1), {1: -1} if op == '<' else {}))
        if op in ('>', '>='):
            return self.entails(lin_add(lin_add(a, b, -1), {1: -1} if op == '>' else {}))
        if op == '==':
            return self.holds('<=', a, b) and self.holds('>=', a, b)
        return self.holds('<', a, b) or self.holds('>', a, b)

    def entails(self, g):
        """g >= 0 follows"""
        g = dict(g)
        c = g.pop(1, 0)
        if not g:
            return c >= 0
        goal = ({x: -k for x, k in g.items()}, -c - 1)
        return infeasible([goal] + self.related(g), self.MAX)

    def related(self, g):
        want, out, used = set(g), [], set()
        ch = True
        while ch:
            ch = False
            for i, (d, c) in enumerate(self.cs):
                if i not in used and (not d or any(x in want for x in d)):
                    used.add(i)
                    out.append((d, c))
                    if not want.issuperset(d):
                        want.update(d)
                        ch = True
        return out

    def contradictory(self):
        """the comparisons exclude each other"""
        return infeasible(list(self.cs), self.MAX) or any(
            self.entails({**d, 1: c}) and self.entails({**{x: -k for x, k in d.items()}, 1: -c}) for d, c in self.ne)


def tidy(d, c):
    g = 0
    for k in d.values():
        g = gcd(g, k)
    if g > 1:
        d = {x: k // g for x, k in d.items()}
        c = c // g
    return d, c


def infeasible(cs, limit):
    """Fourier-Motzkin elimination over the integers (rational, with rounding of constants)"""
    cur = {}
    for d, c in cs:
        d, c = tidy(d, c)
        if not d:
            if c < 0:
                return True
            continue
        k = frozenset(d.items())
        if k not in cur or c < cur[k]:
            cur[k] = c
    while cur:
        pos, neg = {}, {}
        for k in cur:
            for x, v in k:
                (pos if v > 0 else neg).setdefault(x, []).append(k)
        xs = set(pos) | set(neg)
        x = min(xs, key=lambda x: (len(pos.get(x, ())) * len(neg.get(x, ())) - len(pos.get(x, ())) - len(neg.get(x, ())), str(x)))
        new = {k: c for k, c in cur.items() if not any(y == x for y, _ in k)}
        for p in pos.get(x, ()):
            dp, cp = dict(p), cur[p]
            for n in neg.get(x, ()):
                dn, cn = dict(n), cur[n]
                a, b = -dn[x], dp[x]
                d = {}
                for y, v in dp.items():
                    d[y] = a * v
                for y, v in dn.items():
                    d[y] = d.get(y, 0) + b * v
                d = {y: v for y, v in d.items() if v}
                c = a * cp + b * cn
                d, c = tidy(d, c)
                if not d:
                    if c < 0:
                        return True
                    continue
                k = frozenset(d.items())
                if k not in new or c < new[k]:
                    new[k] = c
        if len(new) > limit:
            return False
        cur = new
    return False
