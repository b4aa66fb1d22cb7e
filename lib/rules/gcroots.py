"""GC-root analysis: every reference into the moving heap that native VM code
still needs after a point where the collector may run must be registered."""
import re
import prog
from prog import AnalysisBroken, rel

SEEDS = ['vm::collect', 'vm::enter']
ASM_SEEDS = ['vmInvoke', 'vmJumpAndInvoke', 'vmNativeCall', 'vm::vmRun']



# Calls that never collect in any feasible execution, with the reason.
# (keys are resolved function names; a vanished name is simply unused)
ASSUME = {
    'vm::exceptionMatch': 'the catch type in an exception table is a Throwable class, never an interface, so the subtype test '
                          'walks the superclass chain and never has to load a class',
    'vm::popResources': 'the resources unwound here belong to frames of a thread already in the Active state: the state resources '
                        'among them restore the Active state',
}
# Functions that run as the collector itself: the world is stopped and nothing they call may allocate.
COLLECTOR = {
    '(anonymous namespace)::doCollect': 'runs with `collecting` set; the tables it touches do not resize then',
}
# Lazily created per-object companions: the second call for the same object finds the first call's result.
LAZY = ('vm::getClassRuntimeData', 'vm::getMethodRuntimeData', 'vm::interruptLock', 'vm::objectMonitor', 'vm::getJClass')
TYPETEST = ('vm::isAssignableFrom', 'vm::instanceOf')


def active_state(P):
    e = P.enum('vm::Thread::State')
    if 'ActiveState' not in e:
        raise AnalysisBroken('anchor enum constant vanished: Thread::ActiveState')
    return e['ActiveState']


def state_vars(P, fn, act):
    """local StateResource variables -> constant target state (or None)"""
    out = {}
    for n in fn.x:
        if n['k'] == 'Decl':
            for v, i in n['vars']:
                if fn.vars[v][1] == 'vm::StateResource' and i >= 0:
                    c = fn.x[i].get('c', ())
                    out[v] = fn.x[c[-1]].get('cv') if c else None
    return out


def call_collects(P, fn, e, act, sv):
    """False if this CFG element is a state change to Active (see thread-state check)"""
    if isinstance(e, dict):
        if 'dtor' in e and e['dtor'] in sv and sv[e['dtor']] == act:
            return False
        return True
    n = fn.x[e]
    if n['k'] == 'Ctor' and n.get('cls') == 'vm::StateResource' and n.get('c'):
        return fn.x[n['c'][-1]].get('cv') != act
    if n['k'] == 'Call' and n.get('fn') == 'vm::enter' and n.get('c'):
        return fn.x[n['c'][-1]].get('cv') != act
    if n['k'] == 'Call' and n.get('fn') in ASSUME:
        return False
    if n['k'] == 'Call' and n.get('fn') == 'vm::objectMonitor' and len(n.get('c', ())) >= 3 and fn.x[n['c'][2]].get('cv') == 0:
        return False  # looks an existing monitor up, never creates one
    if n['k'] == 'Call' and n.get('fn') == 'vm::getJClass' and feeds(fn, e, 'vm::release'):
        return False  # the object whose monitor is being left exists: it was locked
    if n['k'] == 'Call' and n.get('fn') == 'vm::getMethodRuntimeData' and fetched_native(fn, e):
        return False  # a native that is used without a test has been resolved, so the record holding it exists
    if n['k'] == 'Call' and n.get('fn') in TYPETEST and len(n.get('c', ())) >= 3:
        # a test against a fixed VM type that is a class walks superclasses only
        if class_constant(P, fn, n['c'][1]):
            return False
    return True


def consumer(fn, e):
    """the node that uses the value of e, through casts"""
    while True:
        p = [q for q in fn.parents.get(e, ()) if q != e and not (fn.x[q]['k'] == 'Mem' and 'f' in fn.x[q])]
        if len(p) != 1:
            return None, e
        if fn.x[p[0]]['k'] != 'Cast':
            return p[0], e
        e = p[0]


def feeds(fn, e, callee):
    p, e = consumer(fn, e)
    if p is None:
        return False
    n = fn.x[p]
    if n['k'] == 'Cond':
        return feeds(fn, p, callee)
    v = None
    if n['k'] == 'Asg':
        l = fn.x[fn.strip(n['c'][0])]
        v = l['v'] if l['k'] == 'Ref' and l.get('dk') == 'v' and n['c'][0] != e else None
    elif n['k'] == 'Decl':
        v = next((w for w, i in n['vars'] if i == e), None)
    if v is not None:
        loads = [i for i, m in enumerate(fn.x) if m['k'] == 'Cast' and m.get('ck') == 'LValueToRValue' and
                 fn.x[m['c'][0]]['k'] == 'Ref' and fn.x[m['c'][0]].get('dk') == 'v' and fn.x[m['c'][0]]['v'] == v]
        return bool(loads) and all(feeds(fn, i, callee) for i in loads)
    return n['k'] == 'Call' and n.get('fn') == callee


def fetched_native(fn, e):
    p, e = consumer(fn, e)
    if p is None or fn.x[p].get('fn') != 'vm::GcMethodRuntimeData::native':
        return False
    q, _ = consumer(fn, p)
    return q is None or fn.x[q]['k'] not in ('Bin', 'Un', 'Cond')


def class_constant(P, fn, i):
    """is expression i `type(t, GcX::Type)` with X a VM type that is not an interface?"""
    i = fn.strip(i)
    n = fn.x[i]
    if n['k'] == 'Call' and n.get('fn') == 'vm::type' and len(n.get('c', ())) == 2:
        a = fn.x[fn.strip(n['c'][1])]
        d = a.get('d', '')
        if a['k'] == 'Ref' and d.endswith('::Type'):
            return d.split('::')[-2] not in P_IFACES
    return False


P_IFACES = {'GcCloneable', 'GcSerializable', 'GcIterable', 'GcCharSequence', 'GcComparable', 'GcRunnable'}


def may_gc(P):
    s = set()
    for n in SEEDS:
        s |= {f.m for f in P.find(n)}
    for k, d in P.decls.items():
        if d['n'] in ASM_SEEDS and k not in P.funcs:
            s.add(k)
    nr = {k for k, d in P.decls.items() if d.get('nr')}
    act = active_state(P)
    s -= nr
    rev = {}
    for fn in P.funcs.values():
        if fn.m in nr or not fn.b:
            continue
        sv = state_vars(P, fn, act)
        for bid in fn.reach():
            for e in fn.b[bid]['e']:
                ts = P.el_targets(fn, e)
                if ts and call_collects(P, fn, e, act, sv):
                    for t in ts:
                        rev.setdefault(t, set()).add(fn.m)
    assume = {f.m for n in ASSUME for f in P.byname.get(n, ())}
    st, out = list(s), set(s)
    while st:
        for p in rev.get(st.pop(), ()):
            if p not in out and p not in assume:
                out.add(p)
                st.append(p)
    return out, nr


def gc_types(P):
    if 'vm::GcObject' not in P.records:
        raise AnalysisBroken('anchor type vanished: vm::GcObject')
    return {r + ' *' for r in P.subclasses('vm::GcObject')} | {r + ' *const' for r in P.subclasses('vm::GcObject')}


def null_expr(f, i):
    n = f.x[i]
    if n.get('cv') == 0 and n['k'] in ('Int', 'Cast', 'Zero'):
        return True
    if n['k'] == 'Cast' and n.get('c'):
        return null_expr(f, n['c'][0]) if n.get('ck') != 'LValueToRValue' else False
    return n['k'] in ('Zero',)


class FnAnalysis:
    def __init__(self, A, fn):
        self.A, self.fn = A, fn
        self.P = A.P
        self.sv = state_vars(A.P, fn, A.act)
        self.gv = {i for i, v in enumerate(fn.vars) if v[1] in A.types}
        self.iv = self.interior_vars()
        self.gv |= set(self.iv)

    # -- interior pointers --
    RAW = re.compile(r'(\*|&)$')

    def heapval(self, i, d=0):
        """does rvalue/lvalue expression i denote (memory inside) a heap object?"""
        f = self.fn
        if i < 0 or d > 20:
            return False
        n = f.x[i]
        k = n['k']
        c = n.get('c', ())
        if k == 'Cast':
            if n.get('ck') == 'LValueToRValue':
                # a load: the loaded value is itself a reference only if it has a reference type / is a tracked variable
                j = f.strip(c[0])
                m = f.x[j]
                if m['k'] == 'Ref' and m.get('dk') == 'v':
                    return f.vars[m['v']][1] in self.A.types or m['v'] in self._iv
                return f.type(i) in self.A.types
            return self.heapval(c[0], d + 1)
        if k == 'Ref':
            return n.get('dk') == 'v' and (f.vars[n['v']][1] in self.A.types or n['v'] in self._iv) and \
                (not n.get('lv') or f.vars[n['v']][1].endswith('&') or f.vars[n['v']][1].startswith('avian::util::Slice'))
        if k in ('Call',):
            if f.type(i) in self.A.types and not n.get('lv'):
                return True
            t = f.type(i)
            if n.get('obj') and c:
                if self.heapval(c[0], d + 1) and (n.get('lv') or t.endswith('*') or 'Slice<' in t) \
                        and t not in self.A.types:
                    o = f.type(c[0])
                    return o in self.A.types or 'Slice<' in o or o.startswith('vm::Gc')
            elif n.get('fn', '').startswith('vm::fieldAtOffset') and c and n.get('lv'):
                return self.heapval(c[0], d + 1)
            return False
        if k == 'Un' and n['op'] in ('&', '*'):
            return self.heapval(c[0], d + 1)
        if k in ('Un',) and n['op'] in ('++', '--'):
            return self.heapval(c[0], d + 1)
        if k == 'Mem':
            return bool(c) and n.get('arrow') and self.heapval(c[0], d + 1)
        if k == 'Idx':
            return self.heapval(c[0], d + 1)
        if k == 'Bin' and n['op'] in ('+', '-') and f.type(i).endswith('*'):
            return self.heapval(c[0], d + 1) or self.heapval(c[1], d + 1)
        if k == 'Cond':
            return any(self.heapval(q, d + 1) for q in c[1:])
        if k == 'Ctor' and 'Slice<' in n.get('cls', ''):
            return any(self.heapval(q, d + 1) for q in c)
        return False

    def interior_vars(self):
        f = self.fn
        self._iv = set()
        cand = {}
        for i, n in enumerate(f.x):
            if n['k'] == 'Decl':
                for v, init in n['vars']:
                    t = f.vars[v][1]
                    if init >= 0 and t not in self.A.types and (t.endswith('*') or t.endswith('&') or t.startswith('avian::util::Slice')
                                                                or t in ('unsigned long', 'long')):
                        cand.setdefault(v, []).append(init)
            elif n['k'] == 'Asg':
                l = f.strip(n['c'][0])
                if f.x[l]['k'] == 'Ref' and f.x[l].get('dk') == 'v':
                    v = f.x[l]['v']
                    t = f.vars[v][1]
                    if t not in self.A.types and (t.endswith('*')):
                        cand.setdefault(v, []).append(n['c'][1])
        ch = True
        while ch:
            ch = False
            for v, inits in cand.items():
                if v not in self._iv:
                    for q in inits:
                        t = f.vars[v][1]
                        if t in ('unsigned long', 'long'):
                            # only an address converted to an integer
                            m = f.x[q]
                            while m['k'] == 'Cast' and m.get('ck') in ('NoOp', 'IntegralCast'):
                                m = f.x[m['c'][0]]
                            if not (m['k'] == 'Cast' and m.get('ck') == 'PointerToIntegral' and self.heapval(m['c'][0])):
                                continue
                        elif not self.heapval(q):
                            continue
                        self._iv.add(v)
                        ch = True
                        break
        return {v: cand[v] for v in self._iv}

    # -- helpers --
    def is_null(self, i):
        return null_expr(self.fn, i)

    def el_gc(self, e):
        t = self.P.el_targets(self.fn, e)
        if t is None:
            return None
        if isinstance(e, int) and self.fn.x[e].get('nr'):
            return None
        if not call_collects(self.P, self.fn, e, self.A.act, self.sv):
            return None
        if isinstance(e, int) and e in self.lazyok:
            return None
        for k in sorted(t):
            if k in self.A.gc:
                return self.P.decls[k]['n'] if k in self.P.decls else k
        return None

    def lazy(self, reach):
        """calls of a lazy getter whose companion object must exist already (available-expression analysis)"""
        f = self.fn
        sites = {i: (n['fn'], tuple(self.argkey(c) for c in n.get('c', ())[:2])) for i, n in enumerate(f.x)
                 if n['k'] == 'Call' and n.get('fn') in LAZY}
        if len(sites) < 2:
            return set()
        top = None
        ain = {f.entry: frozenset()}
        ok = {}
        st = [f.entry]
        while st:
            b = st.pop()
            s = set(ain[b])
            for e in f.b[b]['e']:
                if not isinstance(e, int):
                    continue
                if e in sites:
                    k = sites[e]
                    ok[e] = k in s and None not in k[1]
                    s.add(k)
                n = f.x[e]
                d = None
                if n['k'] == 'Asg':
                    l = f.strip(n['c'][0])
                    if f.x[l]['k'] == 'Ref' and f.x[l].get('dk') == 'v':
                        d = {f.x[l]['v']}
                elif n['k'] == 'Decl':
                    d = {v for v, i in n['vars']}
                if d:
                    s = {k for k in s if not any(a in d for a in k[1])}
            o = frozenset(s)
            for t in f.succ(b):
                m = o if t not in ain else ain[t] & o
                if t not in ain or m != ain[t]:
                    ain[t] = m
                    st.append(t)
        return {e for e, v in ok.items() if v}

    def argkey(self, c):
        n = self.fn.x[self.fn.strip(c)]
        return n['v'] if n['k'] == 'Ref' and n.get('dk') == 'v' else None

    def protector_vars(self):
        """protector local var -> protected gc var"""
        f = self.fn
        out = {}
        for i, n in enumerate(f.x):
            if n['k'] == 'Decl':
                for v, init in n['vars']:
                    if init < 0:
                        continue
                    if self.A.protects(f.vars[v][1]):
                        for j in f.sub(init):
                            m = f.x[j]
                            if m['k'] == 'Un' and m['op'] == '&':
                                r = f.strip(m['c'][0])
                                if f.x[r]['k'] == 'Ref' and f.x[r].get('dk') == 'v':
                                    out.setdefault(v, set()).add(f.x[r]['v'])
        return out

    def run(self):
        f = self.fn
        if not f.b:
            return []
        reach = f.reach()
        self.lazyok = self.lazy(reach)
        gcs = [(b, k, self.el_gc(e)) for b in reach for k, e in enumerate(f.b[b]['e'])]
        gcs = [(b, k, w) for b, k, w in gcs if w]
        out = []
        if not gcs:
            return out
        self.A.stats['functions with a collection point'] += 1
        prot = self.protector_vars()
        if prot:
            out += self.abandoned(reach, prot)
        self.A.stats['protector registrations'] += sum(len(v) for v in prot.values())
        if self.gv:
            out += self.liveness(reach, {(b, k): w for b, k, w in gcs}, prot)
        out += self.temporaries(reach, prot)
        return out

    # -- local variables --
    def effects(self, e):
        """(uses, defs) of gc vars by one CFG element"""
        f = self.fn
        uses, defs = set(), set()
        if isinstance(e, dict):
            return uses, defs
        n = f.x[e]
        k = n['k']
        if k == 'Cast' and n.get('ck') == 'LValueToRValue':
            r = f.strip(n['c'][0], ('Cast',)) if f.x[n['c'][0]]['k'] == 'Cast' else n['c'][0]
            if f.x[r]['k'] == 'Ref' and f.x[r].get('dk') == 'v' and f.x[r]['v'] in self.gv and not self.difference(e):
                uses.add(f.x[r]['v'])
        elif k == 'Asg':
            l = f.strip(n['c'][0])
            if f.x[l]['k'] == 'Ref' and f.x[l].get('dk') == 'v' and f.x[l]['v'] in self.gv:
                defs.add(f.x[l]['v'])
        elif k == 'Decl':
            for v, init in n['vars']:
                if v in self.gv:
                    defs.add(v)
        elif k == 'Un' and n['op'] == '&':
            pass
        elif k in ('Call', 'Ctor'):
            for c in n.get('c', ()):
                if c >= 0 and f.x[c]['k'] == 'Ref' and f.x[c].get('dk') == 'v' and f.x[c]['v'] in self.gv and f.x[c].get('lv'):
                    uses.add(f.x[c]['v'])  # bound to a reference parameter
        return uses, defs

    def active(self, prot, must):
        """protectors registered on entry of each block"""
        f = self.fn
        pin = {f.entry: frozenset()}
        st = [f.entry]
        while st:
            b = st.pop()
            s = set(pin[b])
            for e in f.b[b]['e']:
                if isinstance(e, int):
                    n = f.x[e]
                    if n['k'] == 'Decl':
                        s.update(v for v, i in n['vars'] if v in prot)
                elif 'dtor' in e:
                    s.discard(e['dtor'])
            for t in f.succ(b):
                m = frozenset(s) if t not in pin else pin[t] & s if must else pin[t] | s
                if t not in pin or m != pin[t]:
                    pin[t] = m
                    st.append(t)
        return pin

    def abandoned(self, reach, prot):
        """a raw stack switch must not leave a registration behind that points into the abandoned frame"""
        f = self.fn
        out = []
        pin = None
        for b in reach:
            for k, e in enumerate(f.b[b]['e']):
                if isinstance(e, int) and f.x[e]['k'] == 'Call' and f.x[e].get('f') in self.A.jump:
                    pin = pin or self.active(prot, False)
                    s = set(pin.get(b, ()))
                    for q in f.b[b]['e'][:k]:
                        if isinstance(q, int):
                            if f.x[q]['k'] == 'Decl':
                                s.update(v for v, i in f.x[q]['vars'] if v in prot)
                        elif 'dtor' in q:
                            s.discard(q['dtor'])
                    self.A.stats['raw stack switches'] += 1
                    for p in sorted(s):
                        for v in sorted(prot[p]):
                            out.append(('jump', v, f.x[e].get('fn'), f.line(e), b, k))
        return out

    def addrs(self, e):
        """variables whose address leaves through element e: a call fills them in (out-parameters)"""
        f = self.fn
        n = f.x[e]
        out = set()
        for u in ([e] if n['k'] == 'Un' else [f.strip(c) for c in n.get('c', ()) if c >= 0]):
            m = f.x[u]
            if m['k'] == 'Un' and m['op'] == '&':
                if n['k'] == 'Un':
                    p, _ = consumer(f, u)
                    if p is not None and f.x[p]['k'] in ('Call', 'Ctor'):
                        continue
                l = f.strip(m['c'][0])
                if f.x[l]['k'] == 'Ref' and f.x[l].get('dk') == 'v' and f.x[l]['v'] in self.gv:
                    out.add(f.x[l]['v'])
        return out

    def difference(self, e):
        """is the value of e only subtracted from another interior pointer variable (a distance, not an access)?"""
        f = self.fn
        p, _ = consumer(f, e)
        if p is None or f.x[p]['k'] != 'Bin' or f.x[p]['op'] != '-' or f.type(p).endswith('*'):
            return False
        for c in f.x[p]['c']:
            j = f.strip(c)
            n = f.x[j]
            if n['k'] != 'Ref' or n.get('dk') != 'v' or n['v'] not in self.iv or not f.vars[n['v']][1].endswith('*'):
                return False
        return True

    def liveness(self, reach, gcs, prot):
        f = self.fn
        eff = {b: [self.effects(e) for e in f.b[b]['e']] for b in reach}
        use, dfn = {}, {}
        for b in reach:
            u, d = set(), set()
            for us, ds in reversed(eff[b]):
                u = (u - ds) | us
                d |= ds
            use[b], dfn[b] = u, d
        livein = {b: set() for b in reach}
        ch = True
        order = sorted(reach)
        while ch:
            ch = False
            for b in order:
                o = set()
                for s in f.succ(b):
                    o |= livein[s]
                n = use[b] | (o - dfn[b])
                if n != livein[b]:
                    livein[b] = n
                    ch = True
        # forward: active protectors (must); definite nulls are handled by defs below
        pin = self.active(prot, True)
        # forward: reaching definition may be non-null heap reference (null const defs excluded)
        nn = self.nonnull(reach, eff)
        out = []
        for b in reach:
            live = set()
            for s in f.succ(b):
                live |= livein[s]
            acts = []
            s = set(pin[b])
            for e in f.b[b]['e']:
                if isinstance(e, int):
                    n = f.x[e]
                    if n['k'] == 'Decl':
                        for v, i in n['vars']:
                            if v in prot:
                                s.add(v)
                elif 'dtor' in e:
                    s.discard(e['dtor'])
                acts.append(frozenset(s))
            for k in range(len(f.b[b]['e']) - 1, -1, -1):
                us, ds = eff[b][k]
                w = gcs.get((b, k))
                if w:
                    self.A.stats['collection points'] += 1
                    covered = set()
                    for p in acts[k]:
                        covered |= prot[p]
                    for v in live - ds:
                        self.A.stats['live references checked at collection points'] += 1
                        if v in covered:
                            self.A.stats['protected'] += 1
                            continue
                        if v not in nn[(b, k)]:
                            continue
                        if f.vars[v][2] == 's':
                            continue
                        e = f.b[b]['e'][k]
                        ln = f.line(e) if isinstance(e, int) else e.get('l', 0)
                        out.append(('var', v, w, ln, b, k))
                live = (live - ds) | us
        return out

    def nonnull(self, reach, eff):
        """per element, the gc vars that may hold a heap reference there"""
        f = self.fn
        fin = {f.entry: frozenset(v for v in self.gv if f.vars[v][2] == 'p' and self.A.param_nonnull(f, v))}
        res = {}
        st = [f.entry]

        def tr(b, s, rec):
            s = set(s)
            for k, e in enumerate(f.b[b]['e']):
                if rec:
                    res[(b, k)] = frozenset(s)
                if isinstance(e, int):
                    n = f.x[e]
                    if n['k'] == 'Asg':
                        l = f.strip(n['c'][0])
                        if f.x[l]['k'] == 'Ref' and f.x[l].get('v') in self.gv and f.x[l].get('dk') == 'v':
                            (s.discard if self.is_null(n['c'][1]) else s.add)(f.x[l]['v'])
                    elif n['k'] == 'Decl':
                        for v, i in n['vars']:
                            if v in self.gv:
                                (s.discard if i < 0 or self.is_null(i) else s.add)(v)
                    elif n['k'] in ('Call', 'Ctor', 'Un'):
                        s |= self.addrs(e)
            return frozenset(s)

        def edge(b, t, idx, s):
            # refine by null tests: `if (v)` false edge
            bl = f.b[b]
            c = bl.get('lc', bl.get('tc', -1))
            if c is None or c < 0 or len(bl['s']) != 2 or bl.get('t') in ('SwitchStmt',):
                return s
            neg = False
            n = c
            while True:
                x = f.x[n]
                if x['k'] == 'Cast' or (x['k'] == 'Call' and x.get('fn') == '__builtin_expect'):
                    n = x['c'][0]
                elif x['k'] == 'Un' and x['op'] == '!':
                    neg = not neg
                    n = x['c'][0]
                elif x['k'] == 'Bin' and x['op'] in ('==', '!=') and (self.is_null(x['c'][1]) or self.is_null(x['c'][0])):
                    if x['op'] == '==':
                        neg = not neg
                    n = x['c'][0] if self.is_null(x['c'][1]) else x['c'][1]
                else:
                    break
            x = f.x[n]
            if x['k'] == 'Ref' and x.get('dk') == 'v' and x['v'] in self.gv:
                nullidx = 0 if neg else 1
                if idx == nullidx:
                    return s - {x['v']}
            return s
        while st:
            b = st.pop()
            o = tr(b, fin[b], False)
            for idx, t in enumerate(f.b[b]['s']):
                if t < 0:
                    continue
                q = edge(b, t, idx, o)
                if t not in fin:
                    fin[t] = q
                    st.append(t)
                elif not q <= fin[t]:
                    fin[t] = fin[t] | q
                    st.append(t)
        for b in reach:
            tr(b, fin.get(b, frozenset()), True)
        return res

    # -- temporaries --
    def tree_gc(self, i):
        f = self.fn
        if i in self._tg:
            return self._tg[i]
        r = None
        n = f.x[i]
        if n['k'] in ('Call', 'Ctor', 'New') and not n.get('nr'):
            r = self.el_gc(i)
        if not r:
            for c in list(n.get('c', ())) + ([n['fe']] if n.get('fe', -1) >= 0 else []):
                if c >= 0:
                    r = self.tree_gc(c)
                    if r:
                        break
        self._tg[i] = r
        return r

    def temporaries(self, reach, prot):
        f = self.fn
        self._tg = {}
        seen = set()
        out = []
        for b in reach:
            for e in f.b[b]['e']:
                if not isinstance(e, int) or e in seen:
                    continue
                seen.add(e)
                n = f.x[e]
                c = [q for q in n.get('c', ()) if q >= 0]
                if n['k'] not in ('Call', 'Ctor', 'Bin', 'Asg', 'CAsg', 'Idx') or len(c) < 2:
                    continue
                if n['k'] == 'Bin' and n['op'] in ('&&', '||', ','):
                    continue
                g = [self.tree_gc(q) for q in c]
                if not any(g):
                    continue
                self.A.stats['argument lists with a collection point'] += 1
                for i, q in enumerate(c):
                    others = [j for j in range(len(c)) if j != i and g[j]]
                    if not others:
                        continue
                    t = f.type(q)
                    if t in self.A.types and not f.x[q].get('lv') and not self.is_null(q):
                        out.append(('tmp', e, i, q, others[0], g[others[0]]))
                    elif n['k'] == 'Asg' and i == 0 and f.x[f.strip(q)]['k'] != 'Ref' and self.heap_lvalue(q):
                        out.append(('lhs', e, i, q, others[0], g[others[0]]))
        return out

    def heap_lvalue(self, q):
        f = self.fn
        for j in f.sub(q):
            n = f.x[j]
            if f.type(j) in self.A.types and not n.get('lv'):
                return True
        return False


# Records that hold heap references outside any visitor, with the reason.
RECORD_EXEMPT = {
    'vm::Machine::finalizers': 'weak list: the collector itself relinks it after marking',
    'vm::Machine::tenuredFinalizers': 'weak list: the collector itself relinks it after marking',
    'vm::Machine::finalizeQueue': 'filled and drained by the collector / the finalizer thread through the relinking of the weak lists',
    'vm::Machine::weakReferences': 'weak list: the collector itself relinks it after marking',
    'vm::Machine::tenuredWeakReferences': 'weak list: the collector itself relinks it after marking',
}


def visited_fields(P):
    """fields whose address is handed to a visitor or a protector somewhere"""
    cov = set()
    for f in P.funcs.values():
        for i, n in f.calls():
            nm = n.get('fn', '').split('::')[-1]
            if n['k'] == 'Call' and 'isit' not in nm:
                continue
            if n['k'] != 'Call' and not P.derives(n.get('cls', ''), 'vm::Thread::Protector'):
                continue
            for c in n.get('c', ()):
                j = f.strip(c)
                m = f.x[j]
                if m['k'] == 'Un' and m['op'] == '&':
                    l = f.strip(m['c'][0])
                    if f.x[l]['k'] == 'Mem':
                        cov.add(f.x[l]['d'])
    return cov


def record_roots(P, types):
    """(obligations, violations): every reference held by a native VM structure is visited by the collector"""
    cov = visited_fields(P)
    tails = {'::'.join(c.split('::')[-2:]) for c in cov}
    obl, bad = [], []
    for r, d in sorted(P.records.items()):
        if P.derives(r, 'vm::GcObject'):
            continue
        for f, t, o in d['fields']:
            if t not in types:
                continue
            q = r + '::' + f
            if q in RECORD_EXEMPT:
                continue
            obl.append(q)
            if not (q in cov or ('::' not in r and q in tails)):
                bad.append(q)
    return obl, bad


def jumpers(P):
    """functions that always end in a raw stack switch, abandoning the frames of their callers"""
    js = {k for k, d in P.decls.items() if d['n'] in ('vmJump', 'vmJumpAndInvoke')}
    if not js:
        raise AnalysisBroken('anchor function vanished: vmJump')
    cand = [f for f in P.funcs.values() if f.b and 'virt' not in f.flags]
    ch = True
    while ch:
        ch = False
        for f in cand:
            if f.m in js:
                continue
            seen, st, hit = {f.entry}, [f.entry], False
            while st:
                b = st.pop()
                end = False
                for e in f.b[b]['e']:
                    if isinstance(e, int) and f.x[e]['k'] == 'Call' and f.x[e].get('f') in js:
                        end = hit = True
                        break
                if end:
                    continue
                for t in f.succ(b):
                    if t not in seen:
                        seen.add(t)
                        st.append(t)
            if hit and f.exit not in seen:
                js.add(f.m)
                ch = True
    return js


class Analysis:
    def __init__(self, P):
        self.P = P
        self.act = active_state(P)
        self.gc, self.nr = may_gc(P)
        self.types = gc_types(P)
        self.jump = jumpers(P)
        self._sites = None
        self.stats = {k: 0 for k in ('functions analysed', 'functions with a collection point', 'collection points', 'protector registrations',
                                     'live references checked at collection points', 'protected',
                                     'argument lists with a collection point', 'raw stack switches')}

    def param_nonnull(self, fn, v):
        """may the parameter carry a heap reference at all? (closed program: every call site passes null => no)"""
        if fn.m in self.P.taken or 'virt' in fn.flags or 'xc' in fn.flags or fn.n == 'main':
            return True
        if self._sites is None:
            self._sites = {}
            for g in self.P.funcs.values():
                for i, n in g.calls():
                    if 'f' in n:
                        self._sites.setdefault(n['f'], []).append((g, n))
        idx = fn.params.index(v)
        for g, n in self._sites.get(fn.m, ()):
            c = n.get('c', ())
            off = 1 if n.get('obj') and 'st' not in fn.flags else 0
            if idx + off >= len(c):
                return True
            if not null_expr(g, c[idx + off]):
                return True
        return False

    def protects(self, ty):
        return self.P.derives(ty, 'vm::Thread::Protector')

    def run(self, files=None):
        out = []
        for fn in self.P.funcs.values():
            if '/codegen/' in fn.file or fn.n in COLLECTOR:
                continue
            self.stats['functions analysed'] += 1
            for r in FnAnalysis(self, fn).run():
                out.append((fn, r))
        return out


def check(res, tier):
    res.rule('A reference-typed local, parameter or interior pointer that is live after an element of the control-flow graph from which '
             'the collector is reachable in the call graph must be covered by a registration (Thread::Protector) active on every path '
             'to that element; a reference must not be computed as an argument beside another argument whose evaluation may collect.')
    res.rule('Every reference-typed member of a native structure has its address handed to a visitor or a protector.')
    res.rule('No registration made by the current frame is active at a raw stack switch that abandons the frame.')
    for w in ['jit', 'interpret', 'openjdk'] + (['cont'] if tier == 'thorough' else []):
        P = prog.world(w)
        A = Analysis(P)
        for fn, r in A.run():
            f = rel(fn.file)
            if r[0] == 'jump':
                _, v, w2, ln, b, k = r
                res.bad('gc-jump|%s|%s|%s' % (fn.n, fn.vars[v][0], P.decls.get(w2, {}).get('n', w2)), f, ln, fn.n,
                        'the registration of `%s` is still active when %s abandons this frame, so the collector would follow a '
                        'dangling registration' % (fn.vars[v][0], w2))
            elif r[0] == 'var':
                _, v, w2, ln, b, k = r
                res.bad('gc-live|%s|%s|%s' % (fn.n, fn.vars[v][0], w2), f, ln, fn.n,
                        '%s `%s` (declared line %d) is used after the call of %s, which may run the collector, without being '
                        'registered as a root there' % (fn.vars[v][1], fn.vars[v][0], fn.vars[v][3], w2))
            else:
                kind, e, i, q, j, w2 = r
                res.bad('gc-%s|%s|%s|%s' % (kind, fn.n, fn.show(q)[:60], w2), f, fn.line(e), fn.n,
                        'the reference `%s` may be computed before the evaluation of `%s`, which may run the collector (%s), and is '
                        'used after it' % (fn.show(q)[:80], fn.show(j)[:80], w2))
        for k, v in A.stats.items():
            res.count('%s (%s)' % (k, w), v)
        obl, bad = record_roots(P, A.types)
        res.count('reference members of native structures (%s)' % w, len(obl), floor=10)
        for q in bad:
            res.bad('gc-member|' + q, 'src', 0, q, 'this member holds a heap reference but no visitor or protector ever visits it, '
                                                   'so it dangles after a collection')
    res.floors.update({'collection points (jit)': 900, 'collection points (interpret)': 800, 'protected (jit)': 800,
                       'functions with a collection point (jit)': 500})
