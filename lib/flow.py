"""Thread-state and lockset dataflow: every function is analysed in each context (thread state, locks held by callers) it can be called in."""
import re
from collections import defaultdict
import prog
from prog import AnalysisBroken

STATES = {0: 'No', 1: 'Active', 2: 'Idle', 3: 'Zombie', 4: 'Joined', 5: 'Exclusive', 6: 'Exit'}
ENTER = '_ZN2vm5enterEPNS_6ThreadENS0_5StateE'
# functions whose whole point is to change the state or the locks held; used through their effect, analysed separately
ACQ = {'vm::acquire', 'vm::release'}


class Item(tuple):
    """(state, saves, held): saves = ((var, state before)…), held = ((key, lock)…) in acquisition order"""


class Flow:
    def __init__(self, P, roots, track_locks=True):
        self.P = P
        self.locks = track_locks
        self.ctx = defaultdict(set)          # fn key -> entry contexts (state, frozenset(locks))
        self.at = defaultdict(lambda: defaultdict(set))   # fn key -> {(block, index): {(entry ctx, item)}}
        self.exit = defaultdict(lambda: defaultdict(set))  # fn key -> entry ctx -> {(state, locks acquired and kept)}
        self.callers = defaultdict(set)      # (fn key, ctx) -> {(caller key, caller ctx, line)}
        self.pending = set()
        self.vmrun = {f.m for f in P.funcs.values() if f.n == 'vmRun'} | {k for k in P.decls if k == 'vmRun'}
        self.work = []
        # functions only reachable through the JNI tables are not targets of other indirect calls
        tab = {m for g in P.byname.get('vm::populateJNITables', []) for n in g.x if n['k'] == 'Ref' and n.get('dk') == 'f' for m in [n['f']]}
        pop = {g.m for g in P.byname.get('vm::populateJNITables', [])}
        self.tableonly = {m for m in tab if P.taken.get(m, set()) <= pop}
        # functions the JNI layer hands to its own run() trampolines
        self.jnionly = {m for m, by in P.taken.items() if m not in tab and by and
                        all(b in P.funcs and P.funcs[b].file.endswith('jnienv.cpp') for b in by)}
        for k, s, held in roots:
            self.want(k, (s, frozenset(held)), None)
        n = 0
        while self.work:
            k, c = self.work.pop()
            self.pending.discard((k, c))
            self.analyse(k, c)
            n += 1
            if n > 400000:
                raise AnalysisBroken('state contexts do not converge')
        self.n = n

    def want(self, k, c, by):
        if by:
            self.callers[(k, c)].add(by)
        if c not in self.ctx[k]:
            self.ctx[k].add(c)
            if k in self.P.funcs and self.P.funcs[k].b:
                self.push(k, c)

    def push(self, k, c):
        if (k, c) not in self.pending:
            self.pending.add((k, c))
            self.work.append((k, c))

    # ---- naming
    def lockname(self, f, i, d=0):
        i = f.strip(i, ('Cast', 'Paren'))
        n = f.x[i]
        if n['k'] == 'Mem':
            nm = n['d'].split('::')[-1]
            cls = n['d'].split('::')[-2] if '::' in n['d'] else ''
            return nm if cls == 'Machine' else cls + '.' + nm
        if n['k'] == 'Ref' and n.get('dk') == 'v' and d < 4:
            ds = f.defs_reaching(i, n['v'])
            names = {self.lockname(f, x, d + 1) if x is not None else '?' + f.vars[n['v']][0] for x in ds}
            return '|'.join(sorted(names))
        return '?' + f.show(i)[:30]

    def static(self, f, i):
        i = f.strip(i, ('Cast', 'Paren'))
        n = f.x[i]
        if 'cv' in n:
            return STATES.get(n['cv'])
        if n['k'] == 'Cond':
            return None
        return None

    # ---- one function in one context
    def analyse(self, k, c):
        P = self.P
        f = P.funcs[k]
        s0, held0 = c
        nr = P.noreturn()
        init = (s0, (), ())
        seen = {(f.entry, init)}
        work = [(f.entry, init)]
        rec = self.at[k]
        while work:
            b, it = work.pop()
            cur = [it]
            dead = False
            for idx, e in enumerate(f.b[b]['e']):
                nxt = []
                for x in cur:
                    rec[(b, idx)].add((c, x))
                    nxt.extend(self.step(f, k, c, e, x))
                cur = list(dict.fromkeys(nxt))
                if not cur:
                    break
            for x in cur:
                if b == f.exit:
                    r = (x[0], x[2])
                    if r not in self.exit[k][c]:
                        self.exit[k][c].add(r)
                        for a, ca, _ in list(self.callers[(k, c)]):
                            self.push(a, ca)
                    continue
                for s, y in self.edges(f, b, x):
                    if (s, y) not in seen:
                        seen.add((s, y))
                        work.append((s, y))
            if len(seen) > 20000:
                raise AnalysisBroken('too many states in ' + f.n)

    def cond_state(self, f, i):
        """('==', state) when the condition compares the current thread's state with a constant"""
        i = f.strip(i, ('Cast', 'Paren'))
        n = f.x[i]
        neg = False
        while True:
            if n['k'] == 'Un' and n['op'] == '!':
                neg = not neg
                i = f.strip(n['c'][0], ('Cast', 'Paren'))
                n = f.x[i]
            elif n['k'] == 'Call' and n.get('fn') == '__builtin_expect':
                i = f.strip(n['c'][0], ('Cast', 'Paren'))
                n = f.x[i]
            elif n['k'] == 'Bin' and n['op'] == '!=' and f.x[f.strip(n['c'][1], ('Cast', 'Paren'))].get('cv') == 0 and \
                    f.x[f.strip(n['c'][0], ('Cast', 'Paren'))]['k'] in ('Bin', 'Un') :
                i = f.strip(n['c'][0], ('Cast', 'Paren'))
                n = f.x[i]
            else:
                break
        if n['k'] != 'Bin' or n['op'] not in ('==', '!='):
            return None
        for a, b in (n['c'], n['c'][::-1]):
            m = f.x[f.strip(a, ('Cast', 'Paren'))]
            v = f.x[f.strip(b, ('Cast', 'Paren'))]
            if m['k'] == 'Mem' and m['d'] == 'vm::Thread::state' and 'cv' in v and self.own(f, m):
                return ('==' if (n['op'] == '==') != neg else '!=', STATES.get(v['cv']))
        return None

    def own(self, f, m):
        """the member belongs to the current thread: `this` of a Thread method, or the first Thread* parameter"""
        c = m.get('c')
        if not c:
            return True
        n = f.x[f.strip(c[0], ('Cast', 'Paren'))]
        if n['k'] == 'This':
            return True
        return n['k'] == 'Ref' and n.get('dk') == 'v' and f.vars[n['v']][0] == 't'

    def edges(self, f, b, x):
        bl = f.b[b]
        ss = bl['s']
        if 'lc' in bl and len(ss) == 2 and bl.get('t') != 'SwitchStmt' and isinstance(bl['lc'], int):
            r = self.cond_state(f, bl['lc'])
            if r:
                hit = (x[0] == r[1]) == (r[0] == '==')
                t = ss[0] if hit else ss[1]
                return [(t, x)] if t >= 0 else []
        if 'lc' in bl and len(ss) == 2 and isinstance(bl['lc'], int) and x[0] == 'Idle':
            n = f.x[f.strip(bl['lc'], ('Cast', 'Paren'))]
            if n['k'] == 'Bin' and n['op'] in ('==', '!='):
                m = f.x[f.strip(n['c'][0], ('Cast', 'Paren'))]
                v = f.x[f.strip(n['c'][1], ('Cast', 'Paren'))]
                if m['k'] == 'Mem' and m['d'] == 'vm::Thread::criticalLevel' and v.get('cv') == 0 and self.own(f, m):
                    # a thread is idle only outside of critical sections
                    t = ss[0] if n['op'] == '==' else ss[1]
                    return [(t, x)] if t >= 0 else []
        if bl.get('t') == 'SwitchStmt' and isinstance(bl.get('tc'), int):
            n = f.x[f.strip(bl['tc'], ('Cast', 'Paren'))]
            if n['k'] == 'Mem' and n['d'] == 'vm::Thread::state' and self.own(f, n):
                hit = [s for s in ss if s >= 0 and any(STATES.get(v) == x[0] for v in f.b[s].get('case', ()))]
                if hit:
                    return [(s, x) for s in hit]
                return [(s, x) for s in ss if s >= 0 and not f.b[s].get('case')]
        return [(s, x) for s in ss if s >= 0]

    # ---- one CFG element
    def step(self, f, k, c, e, x):
        S, saves, held = x
        P = self.P
        if isinstance(e, dict):
            fn = e.get('fn', '')
            v = e.get('dtor')
            if fn == 'vm::StateResource::~StateResource':
                old = [s for (w, s) in saves if w == v]
                if old and S != 'Exit':
                    return [(old[-1], tuple(p for p in saves if p[0] != v), held)]
                return [(S, tuple(p for p in saves if p[0] != v), held)]
            if fn in ('vm::MonitorResource::~MonitorResource', 'vm::RawMonitorResource::~RawMonitorResource',
                      'vm::System::MonitorResource::~MonitorResource', 'vm::ObjectMonitorResource::~ObjectMonitorResource'):
                return [(S, saves, tuple(p for p in held if p[0] != v))]
            if e.get('f'):
                return self.call(f, k, c, self.P.el_targets(f, e), x, e.get('l', 0))
            return [x]
        n = f.x[e]
        kd = n['k']
        if kd == 'Ctor':
            fn = n.get('fn', '')
            var = self.declared(f, e)
            if fn == 'vm::StateResource::StateResource':
                s = self.static(f, n['c'][-1])
                if s is None:
                    raise AnalysisBroken('state of ENTER is not a constant in ' + f.n)
                if var is None:
                    raise AnalysisBroken('ENTER that is not a local in ' + f.n)
                return [(self.enter(S, s), tuple(p for p in saves if p[0] != var) + ((var, S),), held)]
            if fn in ('vm::MonitorResource::MonitorResource', 'vm::RawMonitorResource::RawMonitorResource',
                      'vm::System::MonitorResource::MonitorResource', 'vm::ObjectMonitorResource::ObjectMonitorResource'):
                nm = self.lockname(f, n['c'][-1]) if 'Object' not in fn else 'object monitor'
                return [(S, saves, tuple(p for p in held if p[0] != var) + ((var, nm),))]
        if kd in ('Call', 'Ctor', 'New'):
            fn = n.get('fn', '')
            if n.get('f') == ENTER:
                s = self.static(f, n['c'][1])
                if s is None:
                    return [x] if f.cls == 'vm::StateResource' else [(s2, saves, held) for s2 in ('Active', 'Idle')]
                return [(self.enter(S, s), saves, held)]
            if fn in ACQ and len(n.get('c', ())) == 2:
                ty = f.type(f.strip(n['c'][1], ('Cast',)))
                if 'Monitor' in ty and 'Gc' not in ty:
                    nm = self.lockname(f, n['c'][1])
                elif 'Reference' in ty:
                    nm = None
                else:
                    nm = 'object monitor'
                if nm:
                    key = 'call'
                    if fn == 'vm::acquire':
                        held2 = held + ((key, nm),) if sum(1 for p in held if p == (key, nm)) < 2 else held
                        r = [(S, saves, held2)]
                    else:
                        h = list(held)
                        for j in range(len(h) - 1, -1, -1):
                            if h[j] == (key, nm):
                                del h[j]
                                break
                        r = [(S, saves, tuple(h))]
                    self.call(f, k, c, [n['f']], x, n['l'])
                    return r
            t = P.targets(f, n)
            if t and 'f' not in n:
                if f.file.endswith('jnienv.cpp'):
                    # a trampoline calls what the same file has packed into its arguments
                    t = {q for q in t if any(b in P.funcs and P.funcs[b].file == f.file for b in P.taken.get(q, ()))} or t
                t = {q for q in t if q not in self.tableonly and not (q in self.jnionly and not f.file.endswith('jnienv.cpp'))}
            if fn in ('vm::run', 'vm::runRaw') and len(n.get('c', ())) == 3:
                r = f.x[f.strip(n['c'][1], ('Cast', 'Paren', 'Un'))]
                if r['k'] == 'Ref' and r.get('dk') == 'f':
                    y = ('Active' if fn == 'vm::run' else S, saves, held)
                    self.call(f, k, c, [r['f']], y, n['l'])
                    return [x]
                elif not (r['k'] == 'Ref' and r.get('dk') == 'v' and r['v'] < len(f.params)):
                    raise AnalysisBroken('run() of an unknown function in ' + f.n)
                return [x]
            if t:
                return self.call(f, k, c, t, x, n['l'], n.get('nr'))
        if kd == 'Asg':
            m = f.x[f.strip(n['c'][0], ('Cast', 'Paren'))]
            if m['k'] == 'Mem' and m['d'] == 'vm::Thread::state' and self.own(f, m):
                s = self.static(f, n['c'][1])
                if s:
                    return [(self.enter(S, s), saves, held)]
        return [x]

    EFFECT = {'vm::Thread::init': {'No': 'Active'}, '(anonymous namespace)::local::AttachCurrentThread': {'No': 'Idle'},
              '(anonymous namespace)::local::AttachCurrentThreadAsDaemon': {'No': 'Idle'}, 'vm::attachThread': {'No': 'Idle'}}

    def enter(self, S, s):
        return S if S == 'Exit' else s

    def call(self, f, k, c, targets, x, line, nr=False):
        """the states after a call of any of the targets"""
        S, saves, held = x
        L = c[1] | {p[1] for p in held} if self.locks else frozenset()
        cc = (S, frozenset(L))
        out = {}
        for q in targets:
            if q == ENTER:
                continue
            g = self.P.funcs.get(q)
            if g and g.n in self.EFFECT:
                # only a thread that does not run yet is set up in there
                self.want(q, ('No', frozenset()), (k, c, line))
            else:
                self.want(q, cc, (k, c, line))
            if g is None or not g.b:
                d = self.P.decls.get(q)
                if not nr and not (d and d.get('nr')):
                    out[x] = 1
            elif g.n in self.EFFECT:
                out[(self.EFFECT[g.n].get(S, S), saves, held)] = 1
            elif 'nr' not in g.flags:
                for s, kept in self.exit[q].get(cc, ()):
                    extra = tuple(p for p in kept if p[0] == 'call' and p[1] != 'object monitor' and p not in held)
                    out[(s, saves, held + extra)] = 1
        return list(out)

    def declared(self, f, e):
        for p in f.parents.get(e, ()):
            n = f.x[p]
            if n['k'] == 'Decl':
                for v, i in n.get('vars', ()):
                    if i == e:
                        return v
            if n['k'] in ('Cast', 'Bind', 'ExprWithCleanups'):
                r = self.declared(f, p)
                if r is not None:
                    return r
        return None

    def path(self, k, c, limit=8):
        """a call chain from a root to (k, c)"""
        out, seen = [], set()
        while (k, c) not in seen and len(out) < 40:
            seen.add((k, c))
            f = self.P.funcs.get(k)
            out.append(f.n if f else k)
            by = self.callers.get((k, c))
            if not by:
                break
            k, c, _ = sorted(by, key=str)[0]
        out.reverse()
        return ' -> '.join(o.split('::')[-1] for o in out[-limit:])
