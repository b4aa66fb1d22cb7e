"""Class initialization: a class is initialized before its static fields are touched, its static methods run or instances are made, and the
protocol of initClass, preInitClass and postInitClass itself."""
from functools import lru_cache
import build, jclass, jsym
import prog, facts
from prog import rel, AnalysisBroken
from facts import Facts, pretty, mentions
from absint import Eval, Model, St, Stop, normx, show, strip_casts
from rules import interp
from rules.interp import A, PTR, evalc

STATIC, NATIVE = 0x8, 0x100
# functions that set up the static table itself, and the boot image
SETUP = {'vm::parseClass', 'vm::defineClass', '(anonymous namespace)::parseFieldTable', '(anonymous namespace)::updateClassTables',
         '(anonymous namespace)::updateBootstrapClass', '(anonymous namespace)::local::makeCodeImage',
         '(anonymous namespace)::local::fixupVirtualThunks', '(anonymous namespace)::local::boot'}
MAKES = {'vm::make', 'vm::makeNew', 'vm::makeNewGeneral'}
SEES = {'unresolved', 'useLongJump', 'difference', 'resolveIp'}


def inited(c):
    return ('#init', c)


def runs(m):
    return ('#runs', m)


def settled(m):
    """a call of the method can bypass the initialization of its class, in any thread"""
    return ('#settled', m)


def cls(m):
    return ('acc', 'class_', m)


class Init(Facts):
    def __init__(self, P, skip):
        super().__init__(P)
        self.skip = skip
        self.counts = {}
        self.lent = {}

    def follow(self, g):
        return g.m not in self.skip and self.inter.__contains__(g.m)

    def pure(self, f, n, fn, a):
        last = fn.split('::')[-1]
        if fn in ('vm::type', 'vm::objectClass', 'vm::roots') or fn.endswith('::compileRoots'):
            return ('pure', last) + tuple(a[1:])
        return None

    def derive(self, fs):
        out = set(fs)
        for x in fs:
            if x[0] in ('#nonstatic', '#native'):
                out.add(runs(x[1]))
            if x[0] == '#nonstatic':
                out.add(settled(x[1]))
            if x[0] == '#done' and x[1][0] == 'acc' and x[1][1] == 'class_':
                out.add(settled(x[1][2]))
            if x[0] == '#init' and x[1][0] == 'acc' and x[1][1] == 'class_':
                out.add(runs(x[1][2]))
        return out

    def known(self, x):
        t = x[1]
        if x[0] == '#init':
            if t[0] == 'pure':
                return True                    # a class of the VM itself, or the class of an existing object
            if t[0] == 'call' and t[1] == 'resolveClass' and any(y[0] == 's' for y in t[3] if isinstance(y, tuple)) and \
                    any(self.boot(y) for y in t[3]):
                return True                    # a class the VM names itself
            if t[0] == 'acc' and t[1] == 'super':
                return self.known(inited(t[2]))
        if x[0] == '#runs':
            if t[0] == 'call' and t[1] in ('findVirtualMethod', 'findInterfaceMethod', 'resolveTarget'):
                return True                    # taken from a table of virtual methods
            if t[0] == 'c' or t[0] == 'acc' and t[2][0] == 'pure' and t[2][1] == 'compileRoots':
                return True                    # methods of the continuation support, compiled before they are kept there
            if t[0] == 'acc' and t[1] == 'method' and t[2][:2] == ('acc', 'target') and t[2][2][:2] == ('acc', 'site'):
                return True                    # an invokedynamic call site is kept only after its method was compiled
        return False

    @staticmethod
    def boot(y):
        return y[0] == 'acc' and y[1] == 'bootLoader'

    def gen(self, f, n, fn, a, env):
        if fn == 'vm::initClass' and len(a) == 2:
            return (inited(a[1]),)
        if fn.endswith('::nativeCall') and len(a) >= 4:
            # the JIT emits a call of the runtime function that initializes the class
            c = n['c']
            out = []
            for x in f.sub(c[1]):
                m = f.x[x]
                if m['k'] == 'Call' and m.get('fn', '').endswith('::getThunk') and self.initthunk(f, m):
                    for y in c[2:]:
                        for z in f.sub(y):
                            q = f.x[z]
                            if q['k'] == 'Call' and q.get('fn', '').endswith('Frame::append'):
                                out.append(inited(self.term(f, q['c'][-1], env)))
            return out
        return ()

    def initthunk(self, f, m):
        """the thunk runs a function that initializes the class it is given"""
        for y in m['c']:
            r = f.x[f.strip(y, facts.WRAP)]
            nm = (r.get('d') or r.get('fn') or '').split('::')[-1]
            if nm.endswith('Thunk'):
                for g in self.P.funcs.values():
                    if g.n.split('::')[-1] == nm[:-5] and len(g.params) == 2 and g.m not in self.skip:
                        self.inter.add(g.m)
                        return inited(('p', 1)) in self.run(g.m, ())
        return False

    def edge(self, f, n, fn, a, cond):
        last = fn.split('::')[-1]
        if last == 'classNeedsInit' and not cond:
            return (inited(a[1]), ('#done', a[1]))
        if last == 'methodVirtual' and cond:
            return (('#nonstatic', a[1]),)
        return ()

    def test(self, f, i, t, cond):
        if t[0] == 'op' and t[1] == '&' and t[3][0] == 'c' and t[2][0] == 'acc':
            if t[2][1] == 'flags':
                m = t[2][2]
                if t[3][1] == STATIC:
                    return (('#nonstatic', m),) if not cond else (('#static', m),)
                if t[3][1] == NATIVE and cond:
                    return (('#native', m),)
            if t[2][1] == 'vmFlags' and t[3][1] == self.needinit and not cond:
                return (inited(t[2][2]), ('#done', t[2][2]))
        if t[0] == 'op' and (t[1], cond) in (('==', True), ('!=', False)):
            # code of a class runs only once the initialization of that class has begun
            for u, v in ((t[2], t[3]), (t[3], t[2])):
                if v[:2] == ('acc', 'class_') and v[2][0] in ('m', 'acc') and v[2][1] == 'method' and 'context' in str(v[2]):
                    return (('#done', u),)
        return ()

    def contradicts(self, x, fs):
        return x[0] == '#static' and ('#nonstatic', x[1]) in fs or x[0] == '#nonstatic' and ('#static', x[1]) in fs

    def uses(self, f, n, fn, a, i):
        if f.m in self.skip:
            return ()
        if fn == 'vm::GcClass::staticTable' and n.get('obj'):
            self.count('static field', f, i)
            return ((inited(a[0]), 'accesses a static field of'),)
        if fn in MAKES and f.n not in MAKES:
            self.count('instance', f, i)
            return ((inited(a[1]), 'makes an instance of'),)
        if fn.split('::')[-1] == 'methodAddress' and self.lends(f, i):
            self.count('method entry', f, i)
            return ((runs(a[1]), 'hands out the code of'),)
        last = fn.split('::')[-1]
        if last == 'compileDirectInvoke' and len(a) == 6 and a[4] == ('c', 0):
            self.count('direct call', f, i)
            return ((settled(a[2]), 'compiles a direct call of'),)
        if last == 'popFootprint' and a[-1][:2] == ('acc', 'parameterFootprint') and any(
                m.get('fn', '').endswith('::emptyMethod') for _, m in f.calls()):
            self.count('direct call', f, i)
            return ((settled(a[-1][2]), 'leaves out the call of'),)
        if last == 'updateCall' and n.get('obj') is None and f.n.split('::')[-1] != 'updateCall':
            t = a[-1]
            if t[0] == 'call' and t[1] == 'methodAddress' and len(t[3]) == 2:
                self.count('direct call', f, i)
                return ((settled(t[3][1]), 'turns a call into a direct one of'),)
            self.count('direct call', f, i)
        return ()

    def count(self, w, f, i):
        self.counts.setdefault(w, set()).add((f.m, i))

    def lends(self, f, i):
        """the address of a method is used to run it (not only compared)"""
        r = self.lent.get((f.m, i))
        if r is None:
            r = self.lent[(f.m, i)] = self._lends(f, i, set())
        return r

    def _lends(self, f, i, seen):
        if i in seen:
            return False
        seen.add(i)
        for p in f.parents.get(i, ()):
            n = f.x[p]
            k = n['k']
            if k in facts.WRAP or k == 'Cond':
                if self._lends(f, p, seen):
                    return True
            elif k == 'Return':
                return True
            elif k == 'Bin':
                if n['op'] in ('+', '-'):
                    continue
            elif k in ('Call', 'Ctor', 'New'):
                if n.get('fn', '').split('::')[-1] in SEES or 'Promise' in n.get('fn', '') and f.m in self.skip:
                    continue
                return True
            elif k == 'Decl':
                for v, x in n.get('vars', ()):
                    if x == i:
                        for j in range(len(f.x)):
                            m = f.x[j]
                            if m['k'] == 'Ref' and m.get('dk') == 'v' and m['v'] == v and self._lends(f, j, seen):
                                return True
            elif k == 'Asg' and n['c'][1] == i:
                l = f.x[f.strip(n['c'][0], facts.WRAP)]
                if l['k'] == 'Ref' and l.get('dk') == 'v':
                    for j in range(len(f.x)):
                        m = f.x[j]
                        if m['k'] == 'Ref' and m.get('dk') == 'v' and m['v'] == l['v'] and j != f.strip(n['c'][0], facts.WRAP) and \
                                self._lends(f, j, seen):
                            return True
                else:
                    return True
        return False


def closed(P, names):
    """the named functions and those only they call"""
    rev = {}
    for k in P.funcs:
        for c in P.callees(k):
            rev.setdefault(c, set()).add(k)
    s = {k for k, f in P.funcs.items() if f.n in names}
    while True:
        add = {k for k in P.funcs if k not in s and rev.get(k) and rev[k] <= s and k not in P.taken}
        if not add:
            return s, rev
        s |= add


def world(r, w, floors):
    P = prog.world(w)
    skip, rev = closed(P, SETUP)
    A = Init(P, skip)
    A.needinit = 1 << 2
    hot = set()
    for k, f in P.funcs.items():
        if k in skip or f.file.endswith('classpath-android.cpp') or '/codegen/' in f.file:
            continue
        for i, n in f.calls():
            fn = n.get('fn', '')
            if fn == 'vm::GcClass::staticTable' or fn in MAKES or fn.split('::')[-1] == 'methodAddress':
                hot.add(k)
    ini = {k for k, f in P.funcs.items() if f.n == 'vm::initClass' and len(f.params) == 2}
    # functions worth following into: those that initialize something, and those that need it
    near = set()
    for k, f in P.funcs.items():
        if '/codegen/' in f.file:
            continue
        c = P.callees(k)
        if c & ini or any(P.funcs[q].n.endswith('::compile') for q in c if q in P.funcs):
            near.add(k)
    A.inter = (hot | near) - skip - ini
    A.inter |= {k for k, f in P.funcs.items() if f.n in MAKES}
    work, seen = sorted(A.inter), set(A.inter)
    out = {}
    rounds = 0
    while work:
        rounds += 1
        k = work.pop()
        A.run(k, ())
        for fact, (h, i, text) in A.needs.get((k, ()), ()):
            f = P.funcs[k]
            if A.outer(fact) and rev.get(k) and k not in P.taken and k in A.inter:
                for q in rev[k]:
                    if q not in seen and q not in skip:
                        # results computed without looking into this caller's callees stay valid: they only gain obligations
                        seen.add(q)
                        A.inter.add(q)
                        work.append(q)
    A.sum.clear()
    A.needs.clear()
    A.counts.clear()
    for k in sorted(seen):
        A.run(k, ())
    called = set()
    for (k, cx) in A.sum:
        pass
    for (k, cx), ns in sorted(A.needs.items(), key=str):
        f = P.funcs[k]
        for fact, (h, i, text) in ns:
            top = not rev.get(k) or k in P.taken or not A.outer(fact)
            if cx and top and (k, ()) in A.needs:
                top = not A.outer(fact)
            if not top:
                continue
            if f.n in MAKES:
                continue
            out[(h.m, i, pretty(f, fact[1]))] = (f, h, i, fact, text)
    for (hm, i, p), (f, h, i, fact, text) in sorted(out.items(), key=lambda x: (x[1][1].file, x[1][1].line(x[1][2]))):
        r.bad('%s|%s|%s' % (w, h.n.split('::')[-1], p), rel(h.file), h.line(i), h.n,
              '%s %s before it is certain that %s initialized%s' %
              (text, p, {'#init': 'the class is', '#settled': 'the class of a static method is completely'}.get(fact[0], 'the class of a static method is'), '' if f is h else ' (reached from %s)' % f.n))
    for w2, s in sorted(A.counts.items()):
        r.count('%s sites (%s)' % (w2, w), len(s), floors.get(w2))


FLAG = {'NeedInitFlag': 4, 'InitFlag': 8, 'InitErrorFlag': 16}
LOCK = {'vm::MonitorResource', 'vm::RawMonitorResource'}
EXC = {'Exception': {'GcException', 'GcThrowable'}, 'Error': {'GcError', 'GcThrowable'}, 'StackOverflowError': {'GcError', 'GcThrowable', 'GcStackOverflowError'}}


class Proto(Model):
    """runs the initialization protocol on one class in a chosen situation"""
    max_visits = 6

    def __init__(self, P, s):
        self.P, self.s = P, s
        self.types = {v: k for k, v in P.enum('vm::Gc::Type').items()}

    def init(self, st):
        s = self.s
        st.x.update(flags=s.get('flags', 0), lock=0, later=list(s.get('later', ())), race=s.get('race'), log=[],
                    exc=('a', 'exc', PTR) if s.get('exc') else ('c', 0))

    def name(self, a):
        a = normx(a)
        if a[0] == 'c':
            n = self.types.get(a[1], str(a[1]))
            return 'Gc' + n[:-4] if n.endswith('Type') else n
        return show(a)

    def call(self, ev, st, f, i, fn, a):
        n = f.x[i]
        c = n.get('c', ())
        x, s = st.x, self.s
        last = fn.split('::')[-1]
        L = lambda k: strip_casts(ev.load(f, c[k], st, a[k]) if a[k][0] == 'lv' else a[k])
        if n['k'] == 'Ctor':
            cl = n.get('cls', '')
            if cl in LOCK or cl.endswith('::MonitorResource'):
                x['log'].append(('lock', lockname(f, c[-1])))
                x['lock'] += 1
                if x['race'] is not None:
                    x['flags'], x['race'] = x['race'], None
                return ('void',)
            if '::Resource_' in cl or cl.startswith('Resource_'):
                x['log'].append(('resource', cl, tuple(L(k) for k in range(len(c)))))
                return ('void',)
            if cl.endswith('ClassInitStack'):
                x['log'].append(('stack', L(len(c) - 1)))
                return ('void',)
            return ('void',)
        if last in ('vmFlags',) and n.get('obj'):
            o = L(0)
            return ('lv', 'flags', o) if o == C else ('lv', 'otherflags', o)
        if last == 'class_' and n.get('obj'):
            return ('r', 'class_', PTR, L(0))
        if fn == 'vm::acquire' and len(c) == 2:
            x['lock'] += 1
            x['log'].append(('lock', lockname(f, c[-1])))
            if x['race'] is not None:
                x['flags'], x['race'] = x['race'], None
            return ('void',)
        if fn == 'vm::release' and len(c) == 2:
            x['lock'] -= 1
            return ('void',)
        if last in ('wait', 'waitAndClearInterrupted') and 'Monitor' in fn:
            x['log'].append(('wait', x['lock'], L(len(c) - 1) if len(c) > 2 else ('c', 0)))
            if not x['later']:
                raise Stop('waits again')
            x['flags'] = x['later'].pop(0)
            return ('void',)
        if last in ('notifyAll', 'notify') and 'Monitor' in fn:
            x['log'].append((last, x['lock'], x['flags']))
            return ('void',)
        if last == 'throwNew':
            raise Stop('throw', self.name(L(1)))
        if last == 'throw_':
            raise Stop('throw', L(1))
        if last == 'rethrow' or last == 'resumeThrow':
            raise Stop('throw', x['exc'])
        if last == 'makeThrowable':
            return ('r', 'new', PTR, ('str', self.name(L(1))), *[L(k) for k in range(4, len(c))])
        if last == 'type' and len(c) == 2:
            return ('r', 'type', PTR, ('str', self.name(L(1))))
        if last == 'instanceOf' and len(c) >= 3:
            t = L(1)
            if t[0] == 'r' and t[1] == 'type' and L(2) == ('a', 'exc', PTR):
                return ('c', int(t[3][1] in EXC[s['exc']]))
            return None
        if last in ('cast', 'as') and c:
            return L(0) if n.get('obj') else L(len(c) - 1)
        if last == 'initClass' and len(c) == 2:
            x['log'].append(('initClass', L(1)))
            return ('void',)
        if last == 'preInitClass':
            x['log'].append(('pre', L(1)))
            return ('c', s['pre'])
        if last == 'postInitClass':
            x['log'].append(('post', L(1)))
            return ('void',)
        if last == 'classInitializer':
            return ('r', 'clinit', PTR, L(1)) if s['clinit'] else ('c', 0)
        if last == 'super' and n.get('obj'):
            return ('a', 'super', PTR) if s.get('super') and L(0) == C else ('c', 0)
        if last == 'invoke' and 'Processor' in fn:
            x['log'].append(('invoke', L(2)))
            return ('void',)
        if last in ('setException', 'cause', 'body', 'begin', 'name'):
            return ('a', last, PTR)
        return ('void',) if f.type(i) == 'void' else None

    def dtor(self, ev, st, f, e):
        fn = e.get('fn', '')
        if fn.rsplit('::~', 1)[0] in LOCK:
            st.x['lock'] -= 1
        if 'Resource_' in fn:
            st.x['log'].append(('released', fn))

    def inline(self, g):
        return g.n in ('(anonymous namespace)::isInitializing', 'vm::isInitializing') or \
            (g.file.endswith('machine.cpp') and len(g.b) < 30 and g.n.split('::')[-1] not in ('initClass',))

    def load(self, st, f, i, lv):
        if lv[1] == 'flags':
            return ('c', st.x['flags'])
        if lv[1] == 'mem':
            nm = lv[3]
            if nm == 'exception':
                return st.x['exc']
            if nm == 'classInitStack':
                return ('a', 'frame1', PTR)
            if nm == 'class_':
                o = strip_casts(lv[2])
                return C if o == ('a', 'frame2', PTR) and self.s.get('mine') else ('a', 'otherclass', PTR)
            if nm == 'next':
                return ('a', 'frame2', PTR) if strip_casts(lv[2]) == ('a', 'frame1', PTR) else ('c', 0)
        return None

    def store(self, st, f, i, lv, v):
        if lv[1] == 'flags':
            v = normx(v)
            if v[0] != 'c':
                raise AnalysisBroken('flags of a class set to ' + show(v))
            st.x['log'].append(('flags', st.x['flags'], v[1], st.x['lock']))
            st.x['flags'] = v[1]
            return True
        if lv[1] == 'mem' and lv[3] == 'exception':
            st.x['exc'] = strip_casts(v)
            return True
        return lv[1] == 'otherflags'

    def decide(self, st, t):
        t = strip_casts(t)
        if t[0] == 'op' and t[1] in ('==', '!='):
            a, b = strip_casts(t[3]), strip_casts(t[4])
            if a == b:
                return t[1] == '=='
            atom = lambda q: q[0] == 'a' or q[0] == 'r'
            if atom(a) and atom(b) or (atom(a) and b == ('c', 0)) or (atom(b) and a == ('c', 0)):
                return t[1] == '!='
        if t[0] in ('a', 'r'):
            return True
        if t[0] == 'op' and t[1] == '&':
            v = normx(t)
            return v[1] if v[0] == 'c' else None
        return None


C = ('a', 'class', PTR)


def lockname(f, i):
    i = f.strip(i, facts.WRAP)
    return f.x[i].get('d', '?').split('::')[-1]


def scenario(P, name, s):
    f = [g for g in P.find('vm::' + name) if len(g.params) == 2]
    if len(f) != 1:
        raise AnalysisBroken('%s is not what it was' % name)
    f = f[0]
    m = Proto(P, s)
    st = St()
    m.init(st)
    return f, Eval(P, m).run(f, [A('t', PTR), C], st=st)


def protocol(r, P):
    N, I, X = FLAG['NeedInitFlag'], FLAG['InitFlag'], FLAG['InitErrorFlag']

    def run(fn, what, s, want):
        f, outs = scenario(P, fn, s)
        r.count('situations of the initialization protocol evaluated', floor=14)
        if not outs:
            raise AnalysisBroken('no path through ' + f.n)
        for st, kind, val in outs:
            w = want(st, kind, val, st.x['log'])
            if w:
                r.bad('protocol|%s|%s' % (fn, what), rel(f.file), f.l, f.n, 'when %s: %s' % (what, w))
                break

    def changes(log):
        return [e for e in log if e[0] == 'flags' and e[1] != e[2]]

    def pre(result, flags, waits=0, set_=False, throws=None):
        def want(st, kind, val, log):
            if throws:
                if kind != 'throw' or val != throws:
                    return 'must throw %s but %s' % (throws[2:], 'returns' if kind == 'return' else 'ends with %s' % (val or kind,))
            elif kind != 'return':
                return 'must return but ' + (kind if kind != 'throw' else 'throws %s' % (val,))
            elif result is not None and evalc(normx(val), {}) != result:
                return 'must say that this thread %s initialize the class' % ('has to' if result else 'must not')
            if st.x['flags'] != flags:
                return 'leaves the class marked %s instead of %s' % (marks(st.x['flags']), marks(flags))
            w = [e for e in log if e[0] == 'wait']
            if len(w) != waits:
                return 'must wait %s but waits %s' % (times(waits), times(len(w)))
            if any(e[1] < 1 for e in w) or any(e[3] < 1 for e in changes(log)):
                return 'changes or waits for the state of the class without holding the lock'
            if any(normx(e[2]) != ('c', 0) for e in w):
                return 'waits for a limited time only'
            if any(e[0] == 'lock' and e[1] != 'classLock' for e in log):
                return 'takes another lock than the class lock'
        return want

    P_ = 'preInitClass'
    run(P_, 'the class is initialized already', {'flags': 0}, pre(0, 0))
    run(P_, 'nobody has begun to initialize the class', {'flags': N}, pre(1, N | I))
    run(P_, 'the class was initialized while this thread waited for the lock', {'flags': N, 'race': 0}, pre(0, 0))
    run(P_, 'another thread began to initialize the class while this thread waited for the lock', {'flags': N, 'race': N | I, 'later': [0]}, pre(0, 0, 1))
    run(P_, 'this thread is initializing the class', {'flags': N | I, 'mine': 1}, pre(0, N | I))
    run(P_, 'another thread is initializing the class and succeeds', {'flags': N | I, 'later': [0]}, pre(0, 0, 1))
    run(P_, 'another thread is initializing the class and some other class gets ready first', {'flags': N | I, 'later': [N | I, 0]}, pre(0, 0, 2))
    run(P_, 'another thread is initializing the class and fails', {'flags': N | I, 'later': [N | X]}, pre(None, N | X, 1, throws='GcNoClassDefFoundError'))
    run(P_, 'an earlier attempt failed', {'flags': N | X}, pre(None, N | X, throws='GcNoClassDefFoundError'))

    def post(flags, throws=None, pending=None):
        def want(st, kind, val, log):
            if st.x['flags'] != flags:
                return 'leaves the class marked %s instead of %s' % (marks(st.x['flags']), marks(flags))
            if any(e[3] < 1 for e in changes(log)):
                return 'changes the state of the class without holding the lock'
            if not any(e[0] == 'notifyAll' and e[1] >= 1 for e in log):
                return 'does not wake the threads that wait for the class'
            if any(e[0] == 'lock' and e[1] != 'classLock' for e in log):
                return 'takes another lock than the class lock'
            got = val if kind == 'throw' else st.x['exc']
            if throws:
                if kind != 'throw' or got[0] != 'r' or got[1] != 'new' or got[3][1] != throws:
                    return 'must throw %s' % throws[2:]
                if ('a', 'exc', PTR) not in got[4:]:
                    return 'the %s does not carry the exception as its cause' % throws[2:]
            elif pending:
                if strip_casts(got) != ('a', 'exc', PTR):
                    return 'must pass the error on'
            elif kind != 'return' or got != ('c', 0):
                return 'must return normally'
        return want

    Q = 'postInitClass'
    run(Q, 'the initializer returned', {'flags': N | I}, post(0))
    run(Q, 'the initializer threw an exception', {'flags': N | I, 'exc': 'Exception'}, post(N | X, throws='GcExceptionInInitializerError'))
    run(Q, 'the initializer threw an error', {'flags': N | I, 'exc': 'Error'}, post(N | X, pending=1))
    run(Q, 'the stack overflowed in the initializer', {'flags': N | I, 'exc': 'StackOverflowError'}, post(N | X, pending=1))

    def init(sup, pre_, clinit):
        def want(st, kind, val, log):
            if kind != 'return':
                return 'must return but ' + kind
            ev = [e for e in log if e[0] in ('initClass', 'pre', 'post', 'resource', 'stack', 'invoke', 'released')]
            names = [e[0] for e in ev]
            if not pre_ and 'pre' not in names:
                return 'initializes a class that needs none' if any(x in names for x in ('invoke', 'stack', 'resource', 'post')) else None
            if sup and pre_:
                k = names.index('initClass') if 'initClass' in names else len(names)
                if k == len(names) or ev[k][1] != ('a', 'super', PTR) or 'invoke' in names[:k] or \
                        'pre' in names[:k] and not any(e[0] == 'resource' and C in e[2] for e in ev[:k]):
                    return 'does not initialize the superclass first'
            if names.count('pre') != 1 or ev[names.index('pre')][1] != C:
                return 'must ask once whether the class has to be initialized'
            if not pre_:
                return 'goes on although the class must not be initialized' if any(x in names for x in ('invoke', 'stack', 'resource', 'post')) else None
            posts = [k for k, e in enumerate(ev) if e[0] == 'resource' and C in e[2] and posting(P, e[1])]
            if not posts:
                return 'does not make sure that the end of the initialization is recorded when the initializer throws'
            if names.count('invoke') != (1 if clinit else 0):
                return 'must run the initializer exactly once' if clinit else 'runs an initializer the class does not have'
            if clinit:
                k = names.index('invoke')
                if posts[0] > k:
                    return 'prepares for the end of the initialization only after running the initializer'
                if ev[k][1] != ('r', 'clinit', PTR, C):
                    return 'runs %s' % show(ev[k][1])
                if 'stack' not in names or names.index('stack') > k or ev[names.index('stack')][1] != C:
                    return 'does not record that this thread initializes the class before it runs the initializer'
            if not any(e[0] == 'released' and posting(P, e[1].rsplit('::~', 1)[0]) for e in ev):
                return 'does not record the end of the initialization'
        return want

    for sup in (0, 1):
        for pre_ in (0, 1):
            for cl in (0, 1):
                if pre_ or not cl:
                    run('initClass', 'the class %s a superclass, %s%s' % ('has' if sup else 'does not have', 'is to be initialized' if pre_ else
                        'needs no initialization', ' and has an initializer' if cl else ''), {'super': sup, 'pre': pre_, 'clinit': cl, 'flags': 4 if pre_ else 0}, init(sup, pre_, cl))
    marking(r, P)


def posting(P, cl):
    """the destructor of the resource class ends the initialization"""
    last = cl.split('::')[-1]
    for g in P.funcs.values():
        if 'dtor' in g.flags and (g.cls == cl or g.n.rsplit('::~', 1)[0] == cl):
            return any(P.funcs[q].n == 'vm::postInitClass' for q in P.callees(g.m) if q in P.funcs)
    return False


def times(n):
    return {0: 'not at all', 1: 'once', 2: 'twice'}.get(n, '%d times' % n)


def marks(v):
    return ' and '.join(t for k, t in ((4, 'uninitialized'), (8, 'in progress'), (16, 'erroneous')) if v & k) or 'initialized'


def marking(r, P):
    """who marks classes as initialized or not"""
    need = 4
    ends = closed(P, {'vm::postInitClass'})[0]
    inherit = own = 0
    for f in P.funcs.values():
        if f.file.endswith('classpath-android.cpp'):
            continue
        for n in f.x:
            if n['k'] not in ('Asg', 'CAsg'):
                continue
            l = f.x[f.strip(n['c'][0], facts.WRAP)]
            if l['k'] != 'Call' or l.get('fn') != 'vm::GcClass::vmFlags':
                continue
            r.count('writes of class flags inspected', floor=10)
            op = n.get('op', '=')
            v = f.x[f.strip(n['c'][1], facts.WRAP)]
            cv = v.get('cv', f.x[n['c'][1]].get('cv'))
            if op == '&=' and (cv is None or not cv & need) or op in ('^=', '='):
                if f.m not in ends:
                    r.bad('marking|%s' % f.n.split('::')[-1], rel(f.file), n['l'], f.n, 'marks a class as initialized outside of the end of its initialization')
            if op == '|=' and cv is not None and cv & need and f.m not in ends:
                own += 1
            if op == '|=' and cv is None:
                for x in f.sub(n['c'][1]):
                    m = f.x[x]
                    if m['k'] == 'Bin' and m['op'] == '&':
                        for y in m['c']:
                            c2 = f.x[y].get('cv')
                            if c2 is not None and c2 & need and any(f.x[z].get('fn') == 'vm::GcClass::vmFlags' for z in f.sub(m['c'][0]) + f.sub(m['c'][1])):
                                inherit += 1
    g = P.one('vm::parseClass')
    if not inherit:
        r.bad('marking|inherit', rel(g.file), g.l, g.n, 'a class no longer needs initialization because its superclass does')
    if not own:
        r.bad('marking|own', rel(g.file), g.l, g.n, 'no class with an initializer is marked as one that needs initialization')


def interpreter(r):
    """invokestatic in the interpreter"""
    P = prog.world('interpret')
    f, d = interp.dispatcher(P)
    ops, cases, head = interp.opcode_enum(P), interp.case_blocks(f, d), interp.fetch_block(f, d)
    T = interp.table()
    T.update(interp.fields(P))
    for nm, (length, scen) in sorted(T.items()):
        if nm != 'invokestatic' and nm not in ('getstatic', 'putstatic', 'new_'):
            continue
        b = cases.get(ops[nm])
        if b is None:
            continue
        for name, val, ex in scen:
            v = dict(val)
            v['__op'] = ops[nm]
            m, outs = interp.evaluate(P, f, d, head, b, v)
            for o in outs:
                calls = [(e[1].split('::')[-1], e[2]) for e in o.eff if e[0] == 'call']
                if nm == 'invokestatic':
                    k = [i for i, (n, a) in enumerate(calls) if n in ('pushFrame', 'invokeNative')]
                    if not k:
                        continue
                    r.count('interpreter invocations evaluated', floor=1)
                    if not any(n == 'initClass' and interp.find2(normx(a[1]), 'resolveMethod') for n, a in calls[:k[0]]):
                        r.bad('interpret|invokestatic', rel(f.file), interp.first_line(f, b), 'the handler of invokestatic',
                              'runs the method before the class that declares it is initialized')
                        return


def reflection(r):
    """the Java side of reflection: a field is accessed and a method is run after Classes.initialize"""
    cs = jclass.load(build.classes())

    def walk(cl, want, native, klass):
        c = cs[cl]
        n = 0
        for m in c.methods:
            if not m.code or (m.acc & 2 and m.name not in want):
                continue
            inl = (lambda i, cc, nm, d, a: cs[cc].method(nm, d) if cc == cl and cs[cc].method(nm, d) and cs[cc].method(nm, d).code
                   and cs[cc].method(nm, d).acc & 2 else None)
            if not any(i.op.startswith('invoke') for i in m.ins.values()):
                continue
            try:
                ps = jsym.paths(m, inline=inl)
            except jsym.TooMany:
                r.bad('reflection|%s' % m.id, src(c), m.line(), m.id, 'has too many paths to be decided')
                continue
            for p in ps:
                done = set()
                for e in p.events:
                    if e[0] != 'call':
                        continue
                    owner, name, desc, args = e[2][1:5]
                    if owner == 'avian/Classes' and name == 'initialize':
                        done.add(args[0])
                    t = cs[owner].method(name, desc) if owner == cl else None
                    if t is not None and t.native and native(t):
                        n += 1
                        k = klass(args)
                        if not any(k(x) for x in done):
                            r.bad('reflection|%s' % m.id, src(c), m.line(e[1]) if isinstance(e[1], int) else m.line(), m.id,
                                  'reaches the native %s before the class of the member is initialized' % name)
        return n

    def member(field):
        return lambda args: lambda x: x[0] == 'fld' and x[2].split('.')[-1].split(':')[0] == 'class_' and field(x[1])
    r.count('reflective accesses to fields and methods', walk('java/lang/reflect/Field', (), lambda t: True,
            member(lambda o: o and o[0] == 'fld')), floor=8)
    r.count('reflective accesses to fields and methods', walk('java/lang/reflect/Method', (), lambda t: t.name == 'invoke',
            member(lambda o: o and o[0] == 'fld')), floor=9)
    c = cs['avian/Classes']
    m = c.method('forName', '(Ljava/lang/String;ZLjava/lang/ClassLoader;)Ljava/lang/Class;')
    for p in jsym.paths(m):
        if p.end != 'return':
            continue
        r.count('paths of Class.forName')
        asked = None
        for f in p.facts:
            if ('p', 1) in f and ('i', 0) in f:
                asked = '!=' in f
        if asked is False:
            continue
        if not any(e[0] == 'call' and e[2][1:3] == ('avian/Classes', 'initialize') for e in p.events):
            r.bad('reflection|%s' % m.id, src(c), m.line(), m.id, 'returns without initializing the class although asked to')


def src(c):
    return c.srcfile()


def native(r, P):
    """Classes.initialize"""
    f = P.one('Avian_avian_Classes_initialize')
    A = Init(P, set())
    A.needinit, A.inter = 4, P.callees(f.m) & set(P.funcs)
    A.inter = {k for k in A.inter if P.funcs[k].file == f.file}
    r.count('Classes.initialize')
    if not any(x[0] == '#init' and mentions(x[1], ('p', 2)) or x[0] == '#init' and mentions(x[1], ('idx', ('p', 2), ('c', 0))) for x in A.run(f.m, ())):
        r.bad('native|%s' % f.n, rel(f.file), f.l, f.n, 'returns without having initialized the class')


def check(r, tier):
    r.rule('every access to a static field, creation of an instance and use of a method\'s code address is preceded on all paths by the '
           'initialization of the class, or by a test that shows it is not needed')
    world(r, 'jit', {'static field': 18, 'instance': 8, 'method entry': 4, 'direct call': 4})
    world(r, 'interpret', {'static field': 18, 'instance': 5})
    protocol(r, prog.world('jit'))
    native(r, prog.world('jit'))
    interpreter(r)
    reflection(r)
