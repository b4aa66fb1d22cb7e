"""Must-facts dataflow: which facts about values (terms) hold whenever a program point is reached, over sets of path states, with summaries
of the functions called (specialised for constant arguments) and obligations that are passed to callers."""
import heapq
from collections import defaultdict
import prog
from prog import AnalysisBroken

WRAP = ('Cast', 'Paren', 'Bind', 'ExprWithCleanups', 'Mat')
LIMIT = 48


class Facts:
    """subclass: gen(), edge(), uses(), derive() say what the facts mean"""
    TRANSPARENT = ('cast', 'as')       # functions that return their argument

    def __init__(self, P):
        self.P = P
        self.sum = {}                  # (fn, ctx) -> frozenset of exit facts over params/ret, None while computed
        self.needs = {}                # (fn, ctx) -> [(fact alternatives, node, text)]
        self.sites = 0
        self.done = {}
        self.wraps = {}

    # ---- to override
    def gen(self, f, n, fn, args, env):
        """facts that hold after this call"""
        return ()

    def edge(self, f, n, fn, args, cond):
        """facts that hold where the call n was `cond`"""
        return ()

    def test(self, f, i, t, cond):
        """facts that hold where the non-call expression i (term t) was `cond`"""
        return ()

    def uses(self, f, n, fn, args, i):
        """[(fact, text)] needed before this node"""
        return ()

    def derive(self, facts):
        return facts

    def known(self, fact):
        """facts that hold by the form of the term"""
        return False

    def follow(self, g):
        return False

    # ---- terms
    def term(self, f, i, env, d=0):
        if i is None or i < 0 or d > 40:
            return ('?', id(f), i)
        n = f.x[i]
        k = n['k']
        c = n.get('c', ())
        if 'cv' in n and k != 'Ref':
            return ('c', n['cv'])
        if k == 'Bin' and n['op'] in ('&&', '||'):
            # known on the path, or decided by its right side
            v = env.get(-i - 2)
            return v if v is not None else self.term(f, c[1], env, d + 1)
        if k == 'Cond' and env.get(-i - 2, ('?',))[0] == 'c':
            return self.term(f, c[1 if env[-i - 2][1] else 2], env, d + 1)
        if k in WRAP and c:
            return self.term(f, c[0], env, d + 1)
        if k == 'Ref':
            if n['dk'] == 'v':
                return env.get(n['v'], ('v', n['v']))
            if 'cv' in n:
                return ('c', n['cv'])
            return ('g', n.get('fn') or n.get('d') or n.get('f'))
        if k == 'This':
            return ('p', 'this')
        if k == 'Mem':
            return ('m', n['d'].split('::')[-1], self.term(f, c[0], env, d + 1) if c else ('p', 'this'))
        if k == 'Un':
            if n['op'] == '*':
                return ('deref', self.term(f, c[0], env, d + 1))
            if n['op'] == '&':
                return ('addr', self.term(f, c[0], env, d + 1))
            t = self.term(f, c[0], env, d + 1)
            if n['op'] == '!' and t[0] == 'c':
                return ('c', int(not t[1]))
            if n['op'] == '!' and t[:2] == ('un', '!'):
                return t[2]
            return ('un', n['op'], t)
        if k == 'Idx':
            return ('idx', self.term(f, c[0], env, d + 1), self.term(f, c[1], env, d + 1))
        if k == 'Str':
            return ('s', n.get('s', ''))
        if k == 'New':
            return ('new', i)
        if k in ('Call', 'Ctor'):
            fn = n.get('fn', '')
            last = fn.split('::')[-1]
            a = [self.term(f, x, env, d + 1) for x in c]
            if last in self.TRANSPARENT and a:
                return a[0] if n.get('obj') or len(a) == 1 else a[-1] if last == 'cast' else a[0]
            if n.get('opc') and a and last in ('operator->', 'operator*', 'operator GcClass *') or (n.get('opc') and 'operator' in last and len(a) == 1):
                return a[0]
            if n.get('obj') and len(c) == 1 and fn.startswith('vm::Gc'):
                return self.cut(('acc', last, a[0]))
            r = self.pure(f, n, fn, a)
            if r is not None:
                return self.cut(r)
            return ('call', last, i, tuple(a) if sum(map(size, a)) < 30 else ())
        if k == 'Bin':
            return self.cut(('op', n['op'], self.term(f, c[0], env, d + 1), self.term(f, c[1], env, d + 1)))
        if k == 'Cond':
            return ('call', '?:', i, ())
        if k == 'Asg':
            return self.term(f, c[1], env, d + 1)
        return ('?', k, i)

    def pure(self, f, n, fn, a):
        return None

    def cut(self, t):
        return t if size(t) < 40 else ('deep', t[0], t[1] if isinstance(t[1], str) else '')

    # ---- running a function
    def run(self, key, ctx=()):
        r = self.sum.get((key, ctx), 0)
        if r != 0:
            return r if r is not None else frozenset()
        self.sum[(key, ctx)] = None
        f = self.P.funcs.get(key)
        if f is None or not f.b:
            self.sum[(key, ctx)] = frozenset()
            self.needs[(key, ctx)] = []
            return frozenset()
        nr = self.P.noreturn()
        env0 = {}
        for p in range(len(f.params)):
            env0[p] = ('p', p)
        for p, v in ctx:
            env0[p] = v
        import time, os
        T0 = time.time()
        limit = LIMIT if len(f.b) < 120 else 1
        init = (tuple(sorted(env0.items())), frozenset())
        at = defaultdict(set)
        at[f.entry].add(init)
        rpo = order(f)
        live = liveness(f) if limit == 1 else None
        work = [(0, 0, f.entry, init)]
        seq = 0
        needs = {}
        exits = []
        merged = set()
        while work:
            _, _, b, st = heapq.heappop(work)
            if b in merged and st not in at[b]:
                continue
            if b == f.exit:
                exits.append(st)
                continue
            out = self.block(f, b, st, needs, nr)
            for s, st2 in out:
                if live is not None:
                    st2 = (tuple(x for x in st2[0] if x[0] < 0 or x[0] in live[s]), st2[1])
                if st2 in at[s]:
                    continue
                if len(at[s]) >= limit:
                    m = self.join(f, s, list(at[s]) + [st2])
                    merged.add(s)
                    if m in at[s]:
                        continue
                    at[s] = {m}
                    st2 = m
                else:
                    at[s].add(st2)
                seq += 1
                heapq.heappush(work, (rpo.get(s, 0), seq, s, st2))
        if os.environ.get('FT') and time.time() - T0 > 1:
            print(f.n, ctx, len(f.b), round(time.time() - T0, 1))
        res = None
        for env, facts in exits:
            fs = {x for x in self.derive(facts) if self.outer(x)}
            res = fs if res is None else res & fs
        self.sum[(key, ctx)] = frozenset(res or ())
        self.needs[(key, ctx)] = list(needs.values())
        return self.sum[(key, ctx)]

    def join(self, f, b, sts):
        """one state for all: variables that differ become a value of their own"""
        envs = [dict(e) for e, _ in sts]
        env, phi = {}, {}
        for v in set().union(*envs):
            vals = {e.get(v) for e in envs}
            if len(vals) == 1:
                env[v] = vals.pop()
            else:
                env[v] = ('phi', b, v)
                phi[v] = ('phi', b, v)
        facts = None
        for e, (_, fs) in zip(envs, sts):
            fs = set(self.derive(fs))
            for v, t in phi.items():
                old = e.get(v)
                fs |= {subst(x, old, t) for x in list(fs) if mentions(x, old)} if old else set()
                fs = {x for x in fs if not (old is None and mentions(x, t))}
            facts = fs if facts is None else facts & fs
        return (tuple(sorted(env.items(), key=lambda x: x[0])), frozenset(facts))

    def outer(self, x):
        return all(t[0] in ('p', 'ret') for t in leaves(x))

    def block(self, f, b, st, needs, nr):
        env, facts = dict(st[0]), set(st[1])
        bl = f.b[b]
        for e in bl['e']:
            if isinstance(e, dict):
                continue
            n = f.x[e]
            k = n['k']
            if k in ('Call', 'Ctor', 'New'):
                if not self.callnode(f, e, n, env, facts, needs, nr):
                    return []
            elif k == 'Decl':
                for v, i in n.get('vars', ()):
                    if i >= 0:
                        self.assign(f, v, self.term(f, i, env), env, facts)
                    else:
                        env[v] = ('u', v)
            elif k == 'Asg':
                l = f.x[f.strip(n['c'][0], WRAP)]
                if l['k'] == 'Ref' and l.get('dk') == 'v':
                    self.assign(f, l['v'], self.term(f, n['c'][1], env), env, facts)
            elif k in ('CAsg', 'Un') and n.get('op') in ('++', '--', '+=', '-=', '&=', '|=', '<<=', '>>=', '*='):
                l = f.x[f.strip(n['c'][0], WRAP)]
                if l['k'] == 'Ref' and l.get('dk') == 'v':
                    env[l['v']] = ('call', n['op'], e, ())
            elif k == 'Return' and n.get('c'):
                t = self.term(f, n['c'][0], env)
                self.returned(f, e, n, t, facts, needs)
                if t[0] not in ('c', '?'):
                    for x in list(facts):
                        if mentions(x, t):
                            facts.add(subst(x, t, ('ret',)))
            else:
                self.other(f, e, n, env, facts, needs)
        ss = bl['s']
        freeze = lambda fs, env=env: (tuple(sorted(env.items(), key=lambda x: x[0])), frozenset(fs))
        if isinstance(bl.get('lc'), int) and len(ss) == 2 and bl.get('t') != 'SwitchStmt':
            r = []
            for s, cond in ((ss[0], True), (ss[1], False)):
                if s < 0:
                    continue
                fs = self.branch(f, bl['lc'], env, cond)
                if fs is None:
                    continue
                if any(self.contradicts(x, facts) for x in fs):
                    continue
                env2 = env
                env2 = dict(env)
                self.decided(f, bl['lc'], cond, env2)
                r.append((s, freeze(facts | set(fs), env2)))
            return r
        return [(s, freeze(facts)) for s in ss if s >= 0]

    def decided(self, f, i, v, env):
        """the values of the &&, || and ?: around a condition that follow from which way it went"""
        while True:
            up = [p for p in f.parents.get(i, ()) if f.x[p]['k'] in WRAP + ('Bin', 'Cond', 'Un')]
            if len(up) != 1:
                return
            p = up[0]
            n = f.x[p]
            if n['k'] in WRAP:
                i = p
                continue
            if n['k'] == 'Un':
                return
            if n['k'] == 'Bin':
                if n['op'] not in ('&&', '||'):
                    return
                if n['c'][0] == i and v != (n['op'] == '||'):
                    env.pop(-p - 2, None)
                    return
                env[-p - 2] = ('c', int(v))
                i = p
                continue
            if n['c'][0] == i:
                env[-p - 2] = ('c', int(v))
            return

    def contradicts(self, x, facts):
        return False

    def other(self, f, e, n, env, facts, needs):
        pass

    def returned(self, f, e, n, t, facts, needs):
        pass

    def assign(self, f, v, t, env, facts):
        env[v] = t

    def branch(self, f, i, env, cond):
        """facts on one side of a condition; None: that side is not reached"""
        i = f.strip(i, WRAP)
        n = f.x[i]
        k = n['k']
        c = n.get('c', ())
        if 'cv' in n:
            return () if bool(n['cv']) == cond else None
        if k == 'Un' and n['op'] == '!':
            return self.branch(f, c[0], env, not cond)
        if k == 'Call' and n.get('fn') == '__builtin_expect':
            return self.branch(f, c[0], env, cond)
        if k == 'Bin' and n['op'] in ('==', '!='):
            for a, o in (c, c[::-1]):
                if self.term(f, o, env) == ('c', 0):
                    return self.branch(f, a, env, cond == (n['op'] == '!='))
        if k == 'Bin' and n['op'] in ('&&', '||'):
            w = env.get(-i - 2)
            if w is None:
                return self.branch(f, c[1], env, cond)
            if w[0] == 'c':
                return () if bool(w[1]) == cond else None
            a, z = self.branch(f, c[0], env, cond), self.branch(f, c[1], env, cond)
            if (n['op'] == '&&') == cond:
                return None if a is None or z is None else tuple(a) + tuple(z)
            if a is None:
                return z
            if z is None:
                return a
            return tuple(set(a) & set(z))
        t = self.term(f, i, env)
        if t[0] == 'c':
            return () if bool(t[1]) == cond else None
        if t == ('nonnull',) or t[0] == 'new' or t[0] == 'addr':
            return () if cond else None
        if k == 'Call':
            a = [self.term(f, x, env) for x in c]
            return tuple(self.edge(f, n, n.get('fn', ''), a, cond)) + tuple(self.test(f, i, t, cond))
        while t[:2] == ('un', '!'):
            t, cond = t[2], not cond
        if t[0] == 'call' and t[1] != '?:' and isinstance(t[2], int) and t[2] < len(f.x) and f.x[t[2]]['k'] == 'Call' and \
                len(t[3]) == len(f.x[t[2]].get('c', ())):
            m = f.x[t[2]]           # a variable that holds the result of a test
            if m.get('fn', '').split('::')[-1] == t[1]:
                return tuple(self.edge(f, m, m['fn'], list(t[3]), cond)) + tuple(self.test(f, i, t, cond))
        return tuple(self.test(f, i, t, cond))

    def callnode(self, f, e, n, env, facts, needs, nr):
        """False when the call does not return"""
        fn = n.get('fn', '')
        c = n.get('c', ())
        a = [self.term(f, x, env) for x in c]
        me = self.term(f, e, env)
        if me[0] == 'call':
            for x in [x for x in facts if mentions(x, me)]:
                facts.discard(x)
        for need, text in self.uses(f, n, fn, a, e):
            self.need(f, e, need, text, facts, needs)
        tg = self.P.targets(f, n) or ()
        if n.get('nr') or (tg and all(q in nr for q in tg)):
            self.callee_needs(f, e, n, tg, a, facts, needs)
            return False
        self.callee_needs(f, e, n, tg, a, facts, needs)
        got = None
        for q in tg:
            g = self.P.funcs.get(q)
            if g is None or not self.follow(g):
                got = set()
                break
            s = self.run(q, self.ctx(g, a[self.shift(n):]))
            s = {self.actual(x, n, a, me) for x in s}
            got = s if got is None else got & s
        facts |= got or set()
        facts |= set(self.gen(f, n, fn, a, env))
        return True

    def callee_needs(self, f, e, n, tg, a, facts, needs):
        for q in tg:
            g = self.P.funcs.get(q)
            if g is None or not self.follow(g):
                continue
            cx = self.ctx(g, a[self.shift(n):])
            self.run(q, cx)
            for need, (h, i, text) in self.needs.get((q, cx), ()):
                if self.outer(need):
                    x = self.actual(need, n, a, None)
                    self.need(f, e, x, text, facts, needs, (h, i))

    def need(self, f, e, fact, text, facts, needs, origin=None):
        self.sites += 1 if origin is None else 0
        if self.known(fact) or fact in self.derive(facts):
            return
        h, i = origin or (f, e)
        needs[(fact, h.m, i, e)] = (fact, (h, i, text))

    CONSTCTX = True

    def ctx(self, g, a):
        r = []
        if len(g.b) >= 120:
            return ()
        for p, t in enumerate(a):
            if p < len(g.params) and (g.vars[p][1] == 'bool' or g.vars[p][1].endswith('*')):
                if t[0] == 'c' and self.CONSTCTX:
                    r.append((p, t))
                elif t[0] in ('new', 'addr', 'nonnull') and self.CONSTCTX:
                    r.append((p, ('nonnull',)))
        return tuple(r)

    @staticmethod
    def shift(n):
        return 1 if n.get('obj') else 0

    def actual(self, x, n, a, me):
        k = self.shift(n)

        def s(t):
            if isinstance(t, tuple):
                if len(t) == 2 and t[0] == 'p' and isinstance(t[1], int):
                    return a[t[1] + k] if t[1] + k < len(a) else ('?', 'argument', t[1])
                if t == ('p', 'this'):
                    return a[0] if a and k else ('?', 'this', 0)
                if t == ('ret',):
                    return me
                return tuple(map(s, t))
            return t
        return s(x)


def order(f):
    out, seen = [], {f.entry}
    st = [(f.entry, iter(f.succ(f.entry)))]
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(f.succ(s))))
                break
        else:
            out.append(b)
            st.pop()
    return {b: k for k, b in enumerate(reversed(out))}


def liveness(f):
    use, deff = {}, {}
    for b, bl in f.b.items():
        u, d = set(), set()
        targets = set()
        for e in bl['e']:
            if isinstance(e, int):
                n = f.x[e]
                if n['k'] == 'Asg':
                    j = f.strip(n['c'][0], ('Paren',))
                    if f.x[j]['k'] == 'Ref':
                        targets.add(j)
        for e in bl['e']:
            if not isinstance(e, int):
                continue
            n = f.x[e]
            if n['k'] == 'Ref' and n.get('dk') == 'v' and e not in targets and n['v'] not in d:
                u.add(n['v'])
            elif n['k'] == 'Decl':
                d |= {v for v, i in n.get('vars', ())}
            elif n['k'] == 'Asg':
                j = f.strip(n['c'][0], ('Paren',))
                if f.x[j]['k'] == 'Ref' and f.x[j].get('dk') == 'v':
                    d.add(f.x[j]['v'])
        for k in ('lc', 'tc'):
            if isinstance(bl.get(k), int) and bl[k] >= 0:
                for j in f.sub(bl[k]):
                    if f.x[j]['k'] == 'Ref' and f.x[j].get('dk') == 'v':
                        u.add(f.x[j]['v'])
        use[b], deff[b] = u, d
    live = {b: set(u) for b, u in use.items()}
    work = list(f.b)
    while work:
        b = work.pop()
        out = set().union(*[live[s] for s in f.succ(b)]) if f.succ(b) else set()
        new = use[b] | (out - deff[b])
        if new != live[b]:
            live[b] = new
            work.extend(f.pred[b])
    return live


def size(t):
    return 1 + sum(map(size, t)) if isinstance(t, tuple) else 1


def mentions(x, t):
    return x == t or isinstance(x, tuple) and any(mentions(y, t) for y in x)


def subst(x, old, new):
    if x == old:
        return new
    return tuple(subst(y, old, new) for y in x) if isinstance(x, tuple) else x


def leaves(t):
    """the terms at the bottom of a fact"""
    if isinstance(t, tuple) and t:
        if t[0] in ('acc', 'm', 'deref', 'addr', 'un', 'idx', 'op') or not isinstance(t[0], str) or t[0].startswith('#'):
            for y in t[1:]:
                if isinstance(y, tuple):
                    yield from leaves(y)
        elif t[0] == 'pure':
            for y in t[2:]:
                if isinstance(y, tuple):
                    yield from leaves(y)
        elif t[0] in ('c', 's', 'g'):
            return
        else:
            yield t


def pretty(f, t):
    k = t[0]
    if k == 'p':
        return f.vars[t[1]][0] if isinstance(t[1], int) else 'this'
    if k == 'acc':
        return '%s->%s()' % (pretty(f, t[2]), t[1])
    if k == 'm':
        return '%s.%s' % (pretty(f, t[2]), t[1])
    if k == 'deref':
        return '*' + pretty(f, t[1])
    if k == 'idx':
        return '%s[%s]' % (pretty(f, t[1]), pretty(f, t[2]))
    if k == 'c':
        return str(t[1])
    if k == 'call':
        return t[1] + '(…)'
    if k == 'pure':
        return '%s(%s)' % (t[1], ', '.join(pretty(f, x) for x in t[2:]))
    if k == 'v':
        return f.vars[t[1]][0]
    return k
