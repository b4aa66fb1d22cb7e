"""The analysed program: functions, expression nodes, CFGs, records, call graph."""
import json, os, re, sys
from functools import lru_cache
import build
from build import AnalysisBroken, REPO

try:
    import gc as _gc
    _gc.disable()
except Exception:
    pass


class Fn:
    __slots__ = ('m', 'n', 'file', 'l', 'le', 'ret', 'params', 'vars', 'x', 'b', 'entry', 'exit', 'flags', 'cls', 'ovr',
                 'tu', 'T', '_par', '_order', '_pred', 'D', '_elpos')

    def __init__(self, d, T, tu, D):
        self.m, self.n, self.file, self.l, self.le = d['m'], d['n'], d['file'], d['l'], d['le']
        self.T, self.tu, self.D = T, tu, D
        self.ret = T[d['ret']]
        self.params = d['params']
        self.vars = [(v[0], T[v[1]], v[2], v[3]) for v in d['vars']]
        self.x = d['x']
        self.b = {int(k): v for k, v in d.get('b', {}).items()}
        self.entry, self.exit = d.get('entry'), d.get('exit')
        self.flags = {k for k in ('nr', 'int', 'va', 'xc', 'tmpl', 'virt', 'st', 'ctor', 'dtor') if d.get(k)}
        self.cls = d.get('cls')
        self.ovr = d.get('ovr', [])
        self._par = self._order = self._pred = self._elpos = None

    def __repr__(self):
        return '<%s %s:%d>' % (self.n, self.file, self.l)

    def type(self, i):
        t = self.x[i].get('t')
        return self.T[t] if t is not None else ''

    def kids(self, i):
        return self.x[i].get('c', ())

    def strip(self, i, kinds=('Cast',)):
        while i >= 0 and self.x[i]['k'] in kinds and self.x[i].get('c'):
            i = self.x[i]['c'][0]
        return i

    def sub(self, i):
        """ids of the expression tree below i, i included"""
        out, st = [], [i]
        while st:
            j = st.pop()
            if j < 0:
                continue
            out.append(j)
            n = self.x[j]
            st.extend(n.get('c', ()))
            if 'fe' in n:
                st.append(n['fe'])
            if n['k'] == 'Decl':
                st.extend(v[1] for v in n.get('vars', ()))
        return out

    def calls(self):
        for i, n in enumerate(self.x):
            if n['k'] in ('Call', 'Ctor', 'New'):
                yield i, n

    def elements(self):
        for bid, b in self.b.items():
            for e in b['e']:
                yield bid, e

    @property
    def pred(self):
        if self._pred is None:
            self._pred = {k: [] for k in self.b}
            for k, b in self.b.items():
                for s in b['s']:
                    if s >= 0:
                        self._pred[s].append(k)
        return self._pred

    def succ(self, k):
        return [s for s in self.b[k]['s'] if s >= 0]

    @property
    def parents(self):
        if self._par is None:
            p = {}
            for i, n in enumerate(self.x):
                for c in n.get('c', ()):
                    if c >= 0:
                        p.setdefault(c, []).append(i)
                if 'fe' in n and n['fe'] >= 0:
                    p.setdefault(n['fe'], []).append(i)
                if n['k'] == 'Decl':
                    for v in n.get('vars', ()):
                        if v[1] >= 0:
                            p.setdefault(v[1], []).append(i)
            self._par = p
        return self._par

    def defs_reaching(self, use, v):
        """values (node ids, None = unknown) that local variable v may hold where node `use` is evaluated"""
        pos = {}
        for b, bl in self.b.items():
            for k, e in enumerate(bl['e']):
                if isinstance(e, int):
                    pos.setdefault(e, (b, k))
        # the CFG element that contains the use
        at = None
        st, seen = [use], set()
        while st:
            i = st.pop(0)
            if i in pos:
                at = pos[i]
                break
            if i in seen:
                continue
            seen.add(i)
            st.extend(self.parents.get(i, ()))
        if at is None:
            return [None]
        out, seen = [], set()
        work = [(at[0], at[1] - 1)]
        while work:
            b, k = work.pop()
            found = False
            es = self.b[b]['e']
            while k >= 0:
                e = es[k]
                if isinstance(e, int):
                    n = self.x[e]
                    if n['k'] == 'Decl':
                        for vi, init in n.get('vars', ()):
                            if vi == v:
                                out.append(init if init >= 0 else None)
                                found = True
                    elif n['k'] == 'Asg':
                        l = self.x[self.strip(n['c'][0])]
                        if l['k'] == 'Ref' and l.get('dk') == 'v' and l['v'] == v:
                            out.append(n['c'][1])
                            found = True
                    elif n['k'] in ('CAsg', 'Un') and n.get('op') in ('++', '--', '+=', '-=', '&=', '|=', '<<=', '>>='):
                        l = self.x[self.strip(n['c'][0])]
                        if l['k'] == 'Ref' and l.get('dk') == 'v' and l['v'] == v:
                            out.append(None)
                            found = True
                if found:
                    break
                k -= 1
            if found:
                continue
            if b == self.entry:
                out.append(None)
                continue
            for p in self.pred[b]:
                if p not in seen:
                    seen.add(p)
                    work.append((p, len(self.b[p]['e']) - 1))
        return out

    def line(self, i):
        return self.x[i]['l']

    def reach(self):
        seen, st = {self.entry}, [self.entry]
        while st:
            for s in self.succ(st.pop()):
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        return seen

    def show(self, i, d=0):
        """source-like rendering of an expression"""
        if i < 0 or d > 12:
            return '?'
        n = self.x[i]
        k = n['k']
        c = n.get('c', ())
        s = lambda j: self.show(j, d + 1)
        if k == 'Ref':
            if n['dk'] == 'v':
                return self.vars[n['v']][0]
            return n.get('fn') or n.get('d', '?')
        if k == 'Mem':
            return (s(c[0]) if c else 'this') + ('->' if n.get('arrow') else '.') + n['d'].split('::')[-1]
        if k == 'Call':
            a = list(c)
            f = n.get('fn')
            if f is None:
                return '(*%s)(%s)' % (s(n['fe']), ', '.join(map(s, a)))
            if n.get('obj') and not n.get('opc'):
                o = a.pop(0)
                return '%s->%s(%s)' % (s(o), f.split('::')[-1], ', '.join(map(s, a)))
            return '%s(%s)' % (f.split('::')[-1], ', '.join(map(s, a)))
        if k == 'Cast':
            return s(c[0]) if c else '?'
        if k in ('Bin', 'Asg', 'CAsg'):
            return '(%s %s %s)' % (s(c[0]), n['op'], s(c[1]))
        if k == 'Un':
            return n['op'] + s(c[0])
        if k == 'Int':
            return str(n['cv'])
        if k == 'Str':
            return '"%s"' % n.get('s', '')[:40]
        if k == 'Idx':
            return '%s[%s]' % (s(c[0]), s(c[1]))
        if k == 'Cond':
            return '(%s)' % ' ? '.join(map(s, c))
        if k == 'Decl':
            return 'decl ' + ', '.join(self.vars[v[0]][0] + ('=' + s(v[1]) if v[1] >= 0 else '') for v in n.get('vars', ()))
        if k == 'Return':
            return 'return ' + ', '.join(map(s, c))
        return k + '(' + ', '.join(map(s, c)) + ')'


class Program:
    def __init__(self, names):
        paths = build.facts(names)
        self.names = list(names)
        self.funcs, self.byname, self.records, self.enums, self.decls = {}, {}, {}, {}, {}
        self.globals = []
        self.tu_funcs = {}
        for nm in names:
            with open(paths[nm]) as f:
                d = json.load(f)
            T = d['types']
            L = self.tu_funcs[nm] = []
            for fd in d['funcs']:
                if fd['m'] in self.funcs:
                    L.append(fd['m'])
                    continue
                fn = Fn(fd, T, d['file'], d['decls'])
                self.funcs[fn.m] = fn
                L.append(fn.m)
                self.byname.setdefault(fn.n, []).append(fn)
            for k, r in d['records'].items():
                if k not in self.records:
                    r['fields'] = [(a, T[b], c) for a, b, c in r['fields']]
                    self.records[k] = r
            self.enums.update({k: v for k, v in d['enums'].items() if k not in self.enums})
            for k, v in d['decls'].items():
                if k not in self.decls:
                    v = dict(v)
                    v['ret'] = T[v['ret']]
                    v['p'] = [T[p] for p in v['p']]
                    self.decls[k] = v
            for g in d['globals']:
                g['T'] = T
                g['tu'] = nm
                self.globals.append(g)
        self._cg()

    # ---- hierarchy -------------------------------------------------------
    def derives(self, rec, base, _seen=None):
        if rec == base:
            return True
        r = self.records.get(rec)
        return bool(r) and any(self.derives(b, base) for b in r['bases'])

    def subclasses(self, base):
        return [r for r in self.records if self.derives(r, base)]

    # ---- call graph ------------------------------------------------------
    def _cg(self):
        over = {}
        for fn in self.funcs.values():
            for o in fn.ovr:
                over.setdefault(o, set()).add(fn.m)
        for r in self.records.values():
            for m in r['methods']:
                for o in m[4]:
                    over.setdefault(o, set()).add(m[1])
        self.over = over
        # address-taken functions by pointer type
        taken = {}
        for fn in self.funcs.values():
            par = None
            for i, n in enumerate(fn.x):
                if n['k'] == 'Ref' and n.get('dk') == 'f':
                    j = i
                    p = fn.parents
                    st = [i]
                    used = False
                    while st:
                        q = st.pop()
                        for u in p.get(q, ()):
                            un = fn.x[u]
                            if un['k'] in ('Cast',):
                                if un.get('ck') != 'FunctionToPointerDecay' or True:
                                    st.append(u)
                            else:
                                used = True
                    if used:
                        taken.setdefault(n['f'], set()).add(fn.m)
        for g in self.globals:
            for n in g['x']:
                if n['k'] == 'Ref' and n.get('dk') == 'f':
                    taken.setdefault(n['f'], set()).add('global ' + g['n'])
        self.taken = taken
        self.bysig = {}
        for f in taken:
            d = self.decls.get(f)
            if d:
                self.bysig.setdefault((d['ret'], tuple(d['p'] + (['...'] if d.get('va') else []))), set()).add(f)
        self._callees = {}

    def overrides(self, m):
        out, st = set(), [m]
        while st:
            q = st.pop()
            if q in out:
                continue
            out.add(q)
            st.extend(self.over.get(q, ()))
        return out

    SIG = re.compile(r'^(.*?)\s*\(\*\)\((.*)\)( __attribute__.*)?$')

    def fp_targets(self, ty):
        m = self.SIG.match(ty.strip())
        if not m:
            return None
        ret, args = m.group(1).strip(), split_args(m.group(2))
        return {f for (r, p), fs in self.bysig.items() if r == ret and list(p) == args for f in fs}

    def targets(self, fn, n):
        """keys a Call/Ctor/New node may reach; unresolved function pointer -> None"""
        if 'f' in n:
            if n.get('virt'):
                return self.overrides(n['f'])
            return {n['f']}
        if 'fe' in n and n['fe'] >= 0:
            t = fn.type(n['fe'])
            r = self.fp_targets(t)
            return r
        return set()

    def el_targets(self, fn, e):
        """keys a CFG element may call"""
        if isinstance(e, dict):
            if 'f' in e:
                return {e['f']} if not 'ddtor' in e else self.overrides(e['f'])
            return set()
        n = fn.x[e]
        if n['k'] in ('Call', 'Ctor', 'New'):
            return self.targets(fn, n)
        return set()

    def callees(self, key):
        r = self._callees.get(key)
        if r is None:
            r = set()
            fn = self.funcs.get(key)
            if fn:
                for bid in fn.reach():
                    for e in fn.b[bid]['e']:
                        t = self.el_targets(fn, e)
                        if t:
                            r |= t
            self._callees[key] = r
        return r

    def closure_up(self, seeds, stop=()):
        """all functions that may reach a seed"""
        rev = {}
        for k in self.funcs:
            for c in self.callees(k):
                rev.setdefault(c, set()).add(k)
        out = set(seeds)
        st = list(seeds)
        while st:
            q = st.pop()
            for p in rev.get(q, ()):
                if p not in out and p not in stop:
                    out.add(p)
                    st.append(p)
        return out

    def noreturn(self):
        """keys of functions that never return normally (declared, or every path ends in such a call)"""
        if getattr(self, '_nr', None) is None:
            nr = {k for k, d in self.decls.items() if d.get('nr')} | {k for k, f in self.funcs.items() if 'nr' in f.flags}
            changed = True
            while changed:
                changed = False
                for k, f in self.funcs.items():
                    if k in nr or not f.b:
                        continue
                    if not self.reaches_exit(f, nr):
                        nr.add(k)
                        changed = True
            self._nr = nr
        return self._nr

    def reaches_exit(self, f, nr):
        seen, st = {f.entry}, [f.entry]
        while st:
            b = st.pop()
            if b == f.exit:
                return True
            cut = False
            for e in f.b[b]['e']:
                if isinstance(e, int) and f.x[e]['k'] == 'Call':
                    if f.x[e].get('nr'):
                        cut = True
                        break
                    t = self.el_targets(f, e)
                    if t and all(x in nr for x in t):
                        cut = True
                        break
            if cut:
                continue
            for s in f.succ(b):
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        return False

    def find(self, name, required=True):
        r = self.byname.get(name, [])
        if not r and required:
            raise AnalysisBroken('anchor function vanished: ' + name)
        return r

    def one(self, name):
        r = self.find(name)
        if len(r) != 1:
            raise AnalysisBroken('anchor function %s has %d definitions' % (name, len(r)))
        return r[0]

    def enum(self, name):
        if name not in self.enums:
            raise AnalysisBroken('anchor enum vanished: ' + name)
        return self.enums[name]


def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '(<[':
            d += 1
        elif ch in ')>]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return [a for a in out if a != 'void']


def rel(p):
    return p[len(REPO) + 1:] if p.startswith(REPO + '/') else os.path.basename(p)


CORE = ['finder', 'machine', 'util', 'classpath-avian', 'builtin', 'jnienv', 'process', 'heap/heap', 'heapdump',
        'system/posix', 'system/posix/crash', 'system/posix/memory', 'system/posix/signal', 'util/arg-parser',
        'util/fixed-allocator']
NATIVES = ['classpath/java-io', 'classpath/java-lang', 'classpath/java-net', 'classpath/java-nio', 'classpath/java-util',
           'classpath/java-util-zip', 'classpath/sockets']


def codegen(arch):
    return [n for n, p, w, f in build.tus() if n.startswith('codegen/') and
            (not n.startswith('codegen/target/') or n.startswith('codegen/target/%s/' % arch))]


WORLDS = {
    'jit': lambda: CORE + ['compile'] + codegen('x86') + NATIVES + ['main', 'boot'],
    'interpret': lambda: CORE + ['interpret'],
    'cont': lambda: CORE + ['compile.cont'] + codegen('x86'),
    'openjdk': lambda: [n for n in CORE if n != 'classpath-avian'] + ['classpath-openjdk', 'compile'] + codegen('x86'),
}


@lru_cache(None)
def world(name):
    return Program(WORLDS[name]())
