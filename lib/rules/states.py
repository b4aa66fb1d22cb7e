"""Thread states: heap access only while active, waiting only while idle, balanced entry and exit, and the protocol of enter() itself."""
import re
from functools import lru_cache
import prog, flow
from prog import rel, AnalysisBroken

JOBJ = re.compile(r'^(vm::)?(jobject|jclass|jstring|jthrowable|j?weak|j\w*[aA]rray|object \*|GcObject \*\*|Gc\w+ \*\*|j\w*(class|object|string))( const)?$')
HEAPFN = {'vm::allocate', 'vm::allocate2', 'vm::allocate3', 'vm::allocateSmall', 'vm::setField', 'vm::mark', 'vm::objectClass'}
WAITS = {'vm::System::Monitor::wait', 'vm::System::Monitor::waitAndClearInterrupted', 'vm::System::call'}
# libc calls that can wait for another thread or for the outside world
LIBC = {'recv', 'recvfrom', 'recvmsg', 'send', 'sendto', 'sendmsg', 'accept', 'accept4', 'connect', 'poll', 'ppoll', 'select', 'pselect',
        'epoll_wait', 'nanosleep', 'sleep', 'usleep', 'pthread_cond_wait', 'pthread_cond_timedwait', 'pthread_join', 'sem_wait',
        'sigsuspend', 'sigwait', 'pause', 'waitpid', 'wait', 'wait4', 'waitid', 'system', 'popen', 'pclose', 'getaddrinfo', 'gethostbyname',
        'flock', 'lockf', 'read', 'write', 'readv', 'writev', 'fgets', 'getline', 'getchar'}
# raw locks: taken without becoming idle first
RAWOK = {'stateLock': 'its holders wait on nothing but the lock itself, which releases it',
         'heapLock': 'its holders only change a header word',
         'MySystem.visitLock': 'held for one signal round trip'}
LOCAL = '(anonymous namespace)::local::'
# functions whose purpose is to change the state
CHANGES = {'vm::enter', 'vm::enterActiveState', 'vm::attachThread', 'vm::Thread::init', 'vm::Thread::exit', 'vm::Thread::Runnable::run',
           'vm::Processor::makeThread', '(anonymous namespace)::turnOffTheLights', 'JNI_CreateJavaVM', 'main',
           '(anonymous namespace)::local::AttachCurrentThread', '(anonymous namespace)::local::AttachCurrentThreadAsDaemon',
           '(anonymous namespace)::local::DetachCurrentThread', '(anonymous namespace)::local::DestroyJavaVM',
           '(anonymous namespace)::local::destroyJavaVM', '(anonymous namespace)::local::boot',
           '(anonymous namespace)::local::GetPrimitiveArrayCritical', '(anonymous namespace)::local::ReleasePrimitiveArrayCritical',
           '(anonymous namespace)::local::GetStringCritical', '(anonymous namespace)::local::ReleaseStringCritical'}
ENTRY_ACTIVE = re.compile(r'::(ReleasePrimitiveArrayCritical|ReleaseStringCritical)$')   # only valid inside a critical section
ENTRY_BOTH = re.compile(r'::(GetPrimitiveArrayCritical|GetStringCritical)$')


@lru_cache(None)
def states(world):
    P = prog.world(world)
    ind, ran = set(), set()
    for fn in P.funcs.values():
        for i, n in fn.calls():
            if 'f' not in n and 'fe' in n:
                ind |= P.targets(fn, n) or set()
            if n.get('fn') in ('vm::run', 'vm::runRaw'):
                for a in n.get('c', ()):
                    r = fn.x[fn.strip(a, ('Cast', 'Paren', 'Un'))]
                    if r['k'] == 'Ref' and r.get('dk') == 'f':
                        ran.add(r['f'])
    table = {n['f'] for g in P.byname.get('vm::populateJNITables', []) for n in g.x if n['k'] == 'Ref' and n.get('dk') == 'f'}
    roots = []
    for k, f in sorted(P.funcs.items()):
        last = f.n.split('::')[-1]
        if k in ran:
            continue
        if k in table or f.n.startswith('Java_'):
            if last.startswith('AttachCurrentThread') or last == 'GetEnv':
                roots.append((k, 'No'))
            elif ENTRY_ACTIVE.search(f.n):
                roots.append((k, 'Active'))
            elif ENTRY_BOTH.search(f.n):
                roots += [(k, 'Idle'), (k, 'Active')]
            else:
                roots.append((k, 'Idle'))
        elif f.n.startswith('Avian_'):
            roots.append((k, 'Active'))
        elif f.n in ('main', 'JNI_CreateJavaVM'):
            roots.append((k, 'No'))
        elif f.n == 'vm::Thread::Runnable::run':
            roots.append((k, 'Idle'))
        elif k in P.taken and k not in ind and '/codegen/' not in f.file and '/system/' not in f.file:
            # reached from compiled code or through a table of code addresses
            if P.decls.get(k) and P.decls[k]['p'] and P.decls[k]['p'][0].endswith('Thread *'):
                roots.append((k, 'Active'))
    if len(roots) < 150:
        raise AnalysisBroken('entry points of the VM not found')
    return P, flow.Flow(P, [(k, s, ()) for k, s in roots], track_locks=False), roots


def touch(P, heap, f, n):
    """what a node does to the heap, if anything"""
    k = n['k']
    if k == 'Call':
        fn = n.get('fn', '')
        if n.get('obj') and fn.startswith('vm::Gc') and fn.rsplit('::', 1)[0] in heap and not fn.endswith('::as'):
            return 'uses ' + fn.split('vm::')[-1]
        if fn in HEAPFN:
            d = P.decls.get(n.get('f')) or {}
            g = P.funcs.get(n.get('f'))
            ps = d.get('p') or ([g.vars[i][1] for i in g.params] if g else [])
            if ps and ps[0].endswith('Thread *'):
                return 'calls ' + fn.split('::')[-1]
        if fn.startswith('vm::fieldAtOffset'):
            return 'calls ' + fn.split('::')[-1]
    if k == 'Un' and n['op'] == '*':
        t = f.type(n['c'][0]).strip()
        if JOBJ.match(t):
            return 'reads a reference through a handle'
    return None


def origin(F, k, c, s):
    """shortest call chain from where the thread got into state s, or from an entry point"""
    from collections import deque
    q, seen = deque([((k, c), (k,))]), {(k, c)}
    while q:
        (a, ca), p = q.popleft()
        by = F.callers.get((a, ca))
        if not by:
            return p
        for b, cb, l in sorted(by, key=str):
            if cb[0] != s:
                return (b,) + p
        for b, cb, l in sorted(by, key=str):
            if (b, cb) not in seen:
                seen.add((b, cb))
                q.append(((b, cb), (b,) + p))
    return (k,)


def short(P, k):
    return P.funcs[k].n.split('::')[-1] if k in P.funcs else k


def check(res, tier):
    res.rule('heap objects are touched only in the active, exclusive or exit state')
    res.rule('waiting operations are reached only in the idle state')
    res.rule('every function returns in the state it was called in, unless changing the state is its purpose')
    res.rule('enter() keeps the active count, the exclusive owner and the wake-ups consistent')
    for world in ('jit', 'interpret'):
        one(res, world)
    protocol(res)


def one(res, world):
    P, F, roots = states(world)
    heap = set(P.subclasses('vm::GcObject'))
    if len(heap) < 80:
        raise AnalysisBroken('heap classes not found')
    seen = set()
    ntouch = nwait = 0
    natives = {}
    for k in sorted(F.ctx):
        f = P.funcs.get(k)
        if not f or not f.b:
            continue
        posix = '/system/' in f.file
        for (b, idx), xs in sorted(F.at[k].items()):
            e = f.b[b]['e'][idx]
            if isinstance(e, dict):
                continue
            n = f.x[e]
            w = touch(P, heap, f, n)
            if w:
                ntouch += 1
                for c, x in xs:
                    if x[0] in ('Idle', 'Zombie', 'Joined'):
                        ch = origin(F, k, c, x[0]) if c[0] == x[0] else (k,)
                        key = 'heap-%s:%s>%s' % (x[0].lower(), short(P, ch[0]), short(P, k))
                        if f.n.endswith('::Runnable::interrupted') or f.n.endswith('::Runnable::setInterrupted'):
                            key = 'heap-idle:' + short(P, k)
                        elif (f.cls or '').startswith('vm::Gc') and len(ch) > 1:
                            break     # reported where the accessor is used
                        if key not in seen:
                            seen.add(key)
                            res.bad(key, rel(f.file), n['l'], f.n, '%s while the thread is %s (%s): a collection can move or free the object'
                                    % (w, x[0].lower(), ' -> '.join(short(P, q) for q in ch[-6:])))
                        break
            if n['k'] == 'Call' and not posix:
                fn = n.get('fn') or ''
                bad = None
                if fn in WAITS or (fn in LIBC and n.get('f') not in P.funcs):
                    nwait += 1
                    ok = ('Idle', 'Zombie', 'Joined', 'Exit', 'No')
                    bad = [x[0] for c, x in xs if x[0] not in ok]
                    # raw locks are left while waiting on them, and exclusive entry waits on the state lock by design
                    if f.n == 'vm::enter':
                        bad = []
                    what = 'waits (%s) while the thread is %s, which stops every collection until the wait ends' % (fn.split('::')[-1], '%s')
                elif fn == 'vm::System::Monitor::acquire' and f.n != 'vm::RawMonitorResource::RawMonitorResource':
                    nwait += 1
                    nm = F.lockname(f, n['c'][0])
                    bad = [x[0] for c, x in xs if x[0] in ('Active', 'Exclusive')] if nm not in RAWOK else []
                    what = 'blocks on a lock while the thread is %s, which stops every collection until the lock is free'
                if bad:
                    key = 'wait-%s:%s:%s' % (bad[0].lower(), f.n, fn.split('::')[-1])
                    if key not in seen:
                        seen.add(key)
                        c0 = sorted((c for c, x in xs if x[0] == bad[0]), key=str)[0]
                        ch = origin(F, k, c0, bad[0])
                        res.bad(key, rel(f.file), n['l'], f.n, what % bad[0].lower() + ' (%s)' % ' -> '.join(short(P, q) for q in ch[-6:]))
                if fn in ('vm::dynamicCall', 'vmNativeCall') and f.n not in ('vm::dynamicCall', 'vmNativeCall') or \
                        fn.endswith('::dynamicCall') and fn.startswith('vm::'):
                    natives['call of a native'] = natives.get('call of a native', 0) + 1
                    worse = [x[0] for c, x in xs if x[0] not in ('Idle', 'Exit')]
                    key = 'native-%s:%s' % (worse[0].lower() if worse else '', f.n)
                    if worse and key not in seen:
                        seen.add(key)
                        res.bad(key, rel(f.file), n['l'], f.n, 'calls a native function while the thread is %s: if the native waits, no '
                                'collection can happen' % worse[0].lower())
                if n.get('f') == flow.ENTER:
                    legal(res, F, P, k, f, n, n['c'][-1], xs, seen)
                if fn in ('vmInvoke', '(anonymous namespace)::local::interpret', '(anonymous namespace)::local::interpret3') or \
                        (fn == '' and 'fe' in n and FAST.match(f.type(n['fe']).strip())):
                    natives[fn or 'fast native call'] = natives.get(fn or 'fast native call', 0) + 1
                    worse = [x[0] for c, x in xs if x[0] in ('Idle', 'Zombie')]
                    if worse:
                        key = 'java-idle:%s:%s' % (f.n, fn or 'fast native')
                        if key not in seen:
                            seen.add(key)
                            res.bad(key, rel(f.file), n['l'], f.n, 'runs %s while the thread is %s' % (
                                'Java code' if fn else 'a fast native', worse[0].lower()))
                alone = ALONE.get(fn.split('::')[-1]) if fn.startswith(('vm::', '(anonymous')) else None
                if fn.startswith('vm::hashMap') and fn.endswith(('Insert', 'Remove', 'Resize')) and any(
                        f.x[f.strip(a, ('Cast', 'Paren'))].get('fn', '').endswith('GcRoots::monitorMap') for a in n['c']):
                    alone = 'the table of monitors, which is read without a lock,'
                if f.n == 'vm::updateBootstrapClass' and fn.startswith('vm::GcClass::set'):
                    alone = 'a class that is already in use'
                if alone:
                    natives['exclusive operation'] = natives.get('exclusive operation', 0) + 1
                    worse = [x[0] for c, x in xs if x[0] not in ('Exclusive', 'Exit')]
                    key = 'alone:%s:%s' % (f.n, fn.split('::')[-1])
                    if worse and key not in seen:
                        seen.add(key)
                        res.bad(key, rel(f.file), n['l'], f.n, '%s is used or changed while the thread is %s, so other threads can be using it' % (
                            alone, worse[0].lower()))
                if fn.endswith('::Heap::collect') and '/heap' not in f.file:
                    natives['collection'] = natives.get('collection', 0) + 1
                    worse = [x[0] for c, x in xs if x[0] not in ('Exclusive', 'Exit')]
                    if worse:
                        res.bad('collect-state:' + f.n, rel(f.file), n['l'], f.n, 'the collector runs while the thread is %s, so others can be '
                                'using the heap' % worse[0].lower())
            elif n['k'] == 'Ctor' and n.get('fn') == 'vm::StateResource::StateResource':
                legal(res, F, P, k, f, n, n['c'][-1], xs, seen)
            elif n['k'] == 'Ctor' and n.get('fn') == 'vm::RawMonitorResource::RawMonitorResource':
                nwait += 1
                nm = F.lockname(f, n['c'][-1])
                bad = [x[0] for c, x in xs if x[0] in ('Active', 'Exclusive')] if nm not in RAWOK else []
                if bad:
                    res.bad('rawlock:%s:%s' % (f.n, nm), rel(f.file), n['l'], f.n, 'acquires %s without becoming idle first, while its holders '
                            'can be waiting for a collection' % nm)
    for k, m in sorted(F.exit.items()):
        f = P.funcs[k]
        if f.n in CHANGES or f.n.endswith('::MyProcessor::makeThread') or f.n.endswith('::Runnable::run') or f.cls == 'vm::StateResource' \
                or '/system/' in f.file:
            continue
        for c, ex in sorted(m.items(), key=str):
            worse = {s for s, h in ex if s != c[0]}
            if worse:
                key = 'state-left:' + f.n
                if key not in seen:
                    seen.add(key)
                    res.bad(key, rel(f.file), f.le or f.l, f.n, 'called in the %s state, it can return in the %s state' % (
                        c[0].lower(), sorted(worse)[0].lower()))
    res.count(world + ': entry points', len(roots), floor=150)
    res.count(world + ': functions', len(F.ctx), floor=1500)
    res.count(world + ': function contexts', sum(map(len, F.ctx.values())), floor=2000)
    res.count(world + ': heap accesses', ntouch, floor=1000)
    res.count(world + ': waiting operations', nwait, floor=15)
    for n, v in natives.items():
        res.count('%s: %s' % (world, n.split('::')[-1]), v)
    for nm in ('GetPrimitiveArrayCritical', 'GetStringCritical', 'ReleasePrimitiveArrayCritical', 'ReleaseStringCritical'):
        k = P.one(LOCAL + nm).m
        get = nm.startswith('Get')
        for s in ('Idle', 'Active') if get else ('Active',):
            ex = {x[0] for x in F.exit[k].get((s, frozenset()), ())}
            if ex != ({'Active'} if get else {'Active', 'Idle'}):
                res.bad('critical:%s:%s' % (nm, s), rel(P.funcs[k].file), P.funcs[k].l, P.funcs[k].n, 'a thread that is %s leaves it %s' % (
                    s.lower(), ' or '.join(sorted(x.lower() for x in ex)) or 'never'))
        sections(res, P, P.funcs[k], get)
    if 'exclusive operation' not in natives or 'collection' not in natives or 'call of a native' not in natives or not any('fast' in n for n in natives):
        raise AnalysisBroken('the calls of fast natives or of the collector were not recognised')


def sections(res, P, f, get):
    """every path of a critical-section function counts the section once, and changes the state exactly when it is the outermost one"""
    def level(i):
        n = f.x[f.strip(i, ('Cast', 'Paren'))]
        if n['k'] == 'Un' and n['op'] in ('--', '++'):
            n = f.x[f.strip(n['c'][0], ('Cast', 'Paren'))]
        return n['k'] == 'Mem' and n['d'] == 'vm::Thread::criticalLevel'
    mine = lambda g: any(n['k'] == 'Mem' and n['d'] == 'vm::Thread::criticalLevel' for n in g.x)
    if not mine(f):
        help_ = {n['f'] for i, n in f.calls() if n.get('f') in P.funcs and mine(P.funcs[n['f']])}
        if len(help_) == 1:
            return sections(res, P, P.funcs[help_.pop()], get)
    elif any(n.get('f') in P.funcs and mine(P.funcs[n['f']]) for i, n in f.calls() if not n.get('fn', '').startswith(LOCAL)):
        return      # shared with a helper: only the states at exit are checked
    out, st, steps = set(), [(f.entry, (), frozenset())], 0
    while st:
        b, ev, vis = st.pop()
        steps += 1
        if b in vis or steps > 20000:
            if steps > 20000:
                raise AnalysisBroken('too many paths in ' + f.n)
            continue
        for e in f.b[b]['e']:
            if isinstance(e, dict):
                continue
            n = f.x[e]
            if n['k'] in ('Un', 'CAsg') and n['op'] in ('++', '--', '+=', '-=') and level(n['c'][0]):
                if n['k'] == 'CAsg' and f.x[f.strip(n['c'][1], ('Cast', 'Paren'))].get('cv') != 1:
                    ev += ('odd',)
                ev += ('+' if n['op'][0] == '+' else '-',)
            elif n['k'] == 'Call' and n.get('f') == flow.ENTER:
                ev += (flow.STATES.get(f.x[f.strip(n['c'][1], ('Cast', 'Paren'))].get('cv')),)
        bl = f.b[b]
        if b == f.exit:
            out.add(ev)
            continue
        ss = bl['s']
        facts = (None, None)
        if len(ss) == 2 and isinstance(bl.get('lc'), int):
            i, neg = f.strip(bl['lc'], ('Cast', 'Paren')), False
            n = f.x[i]
            while n['k'] == 'Un' and n['op'] == '!':
                neg = not neg
                n = f.x[f.strip(n['c'][0], ('Cast', 'Paren'))]
            zero = None
            if n['k'] == 'Bin' and n['op'] in ('==', '!=', '<=', '>', '<', '>=') and len(n['c']) == 2:
                r = f.x[f.strip(n['c'][1], ('Cast', 'Paren'))].get('cv')
                if level(n['c'][0]):
                    zero = {('==', 0): True, ('!=', 0): False, ('<=', 0): True, ('>', 0): False, ('<', 1): True, ('>=', 1): False}.get((n['op'], r))
                    if zero is None:
                        ev += ('odd',)
            elif level(bl['lc']) or level(f.strip(bl['lc'], ('Cast', 'Paren', 'Un'))):
                zero = False
            if zero is not None:
                facts = (zero != neg, zero == neg)
        for s, z in zip(ss, facts if len(ss) == 2 else (None,) * len(ss)):
            if s >= 0:
                st.append((s, ev if z is None else ev + ('outermost' if z else 'nested',), vis | {b}))
    want = 'Active' if get else 'Idle'
    for ev in sorted(out, key=str):
        known = [x for x in ev if x in ('outermost', 'nested')]
        said = [x for x in ev if x in ('Active', 'Idle')]
        what = None
        if [x for x in ev if x in ('+', '-')] != ['+' if get else '-'] or 'odd' in ev:
            what = 'the level of critical sections is not changed by exactly one'
        elif not known or len(set(known)) > 1:
            what = 'a path does not depend on whether the section is the outermost one'
        elif ('+' if get else '-') in ev and ((ev.index('+') < ev.index(known[0])) if get else (ev.index('-') > ev.index(known[0]))):
            what = 'the level is tested at the wrong moment'
        elif said != ([want] if known[0] == 'outermost' else []):
            what = 'the thread %s at an %s section' % ('changes to ' + '/'.join(said).lower() if said else 'does not become ' + want.lower(), known[0])
        if what:
            res.bad('critical-path:' + f.n.split('::')[-1], rel(f.file), f.l, f.n, what)
            return


# what may only happen while every other thread is stopped
ALONE = {'dumpHeap': 'the whole heap', 'updateDynamicTable': "every thread's call table", 'killZombies': 'the list of threads',
         'doCollect': 'the whole heap', 'turnOffTheLights': 'the whole VM'}


def legal(res, F, P, k, f, n, arg, xs, seen):
    s = flow.STATES.get(f.x[f.strip(arg, ('Cast', 'Paren'))].get('cv'))
    if s is None:
        return
    for c, x in sorted(xs, key=str):
        if x[0] not in (s, 'Exit') and (x[0], s) not in LEGAL:
            key = 'illegal:%s:%s>%s' % (f.n, x[0], s)
            if key not in seen:
                seen.add(key)
                res.bad(key, rel(f.file), n['l'], f.n, 'asks for the %s state while the thread is %s, which enter() does not allow' % (
                    s.lower(), x[0].lower()))


FAST = re.compile(r'^(u?int64_t|unsigned long|long|vm::FastNativeFunction)\s*(\(\*\)\(vm::Thread \*, (vm::object|vm::GcMethod \*|vm::GcObject \*), '
                  r'(uintptr_t|unsigned long) \*\))?$')

WEIGHT = {'No': 0, 'Active': 1, 'Idle': 0, 'Zombie': 0, 'Exclusive': 1, 'Exit': 0}
LEGAL = [('Active', 'Idle'), ('Active', 'Exclusive'), ('Active', 'Zombie'), ('Active', 'Exit'), ('Idle', 'Active'), ('Idle', 'Exclusive'),
         ('No', 'Active'), ('Exclusive', 'Active'), ('Exclusive', 'Idle'), ('Exclusive', 'Zombie'), ('Exclusive', 'Exit')]


def protocol(res):
    P = prog.world('jit')
    f = P.one('vm::enter')
    if len(f.params) != 2:
        raise AnalysisBroken('enter() has other parameters')
    num = {v: k for k, v in flow.STATES.items()}
    count = 0
    for old, new in LEGAL:
        paths = list(walk(P, f, old, num[new]))
        done = [p for p in paths if p[0] == 'exit']
        if not done:
            res.bad('enter-missing:%s:%s' % (old, new), rel(f.file), f.l, f.n, 'the change from %s to %s never completes' % (old, new))
        for kind, state, ev in done:
            count += 1
            judge(res, f, old, new, state, ev)
    res.count('state change paths', count, floor=15)


def walk(P, f, old, new, limit=4000):
    """paths through enter() for a thread in state old asked for state new: ('exit', final state, events)"""
    sv = f.params[1]
    sv = sv if isinstance(sv, int) else 1
    out = []
    # item: block, index, state, events, visits
    st = [(f.entry, old, (), {})]
    n = 0
    while st:
        b, state, ev, vis = st.pop()
        n += 1
        if n > limit:
            raise AnalysisBroken('enter() has too many paths')
        if vis.get(b, 0) >= 2:
            continue
        vis = dict(vis)
        vis[b] = vis.get(b, 0) + 1
        dead = False
        for e in f.b[b]['e']:
            r = event(P, f, e, state, new)
            if r == 'dead':
                dead = True
                break
            if r:
                state, add = r
                ev = ev + add
        if dead:
            continue
        if b == f.exit:
            out.append(('exit', state, ev))
            continue
        bl = f.b[b]
        ss = bl['s']
        if bl.get('t') == 'SwitchStmt':
            v = value(f, bl['tc'], state, new)
            if v is not None:
                hit = [s for s in ss if s >= 0 and v in f.b[s].get('case', ())]
                if not hit:
                    hit = [s for s in ss if s >= 0 and not f.b[s].get('case')]
                for s in hit:
                    st.append((s, state, ev, vis))
                continue
        if len(ss) == 2 and isinstance(bl.get('lc'), int):
            v, facts = cond(f, bl['lc'], state, new)
            for s, w in ((ss[0], True), (ss[1], False)):
                if s >= 0 and (v is None or v == w):
                    st.append((s, state, ev + tuple((a, (b2 == w)) for a, b2 in facts), vis))
            continue
        for s in ss:
            if s >= 0:
                st.append((s, state, ev, vis))
    return out


def value(f, i, state, new):
    i = f.strip(i, ('Cast', 'Paren'))
    n = f.x[i]
    num = {v: k for k, v in flow.STATES.items()}
    if 'cv' in n:
        return n['cv']
    if n['k'] == 'Mem' and n['d'] == 'vm::Thread::state':
        return num[state]
    if n['k'] == 'Ref' and n.get('dk') == 'v' and n['v'] == 1:
        return new
    return None


def cond(f, i, state, new):
    """(truth value or None, [(fact, truth)]): facts are what the branch says about the shared counters"""
    i = f.strip(i, ('Cast', 'Paren'))
    n = f.x[i]
    if n['k'] == 'Call' and n.get('fn') == '__builtin_expect':
        return cond(f, n['c'][0], state, new)
    if n['k'] == 'Un' and n['op'] == '!':
        v, fs = cond(f, n['c'][0], state, new)
        return (None if v is None else not v), [(a, not b) for a, b in fs]
    if n['k'] == 'Bin' and n['op'] in ('==', '!='):
        a, b = value(f, n['c'][0], state, new), value(f, n['c'][1], state, new)
        if a is not None and b is not None:
            return ((a == b) == (n['op'] == '=='), [])
        l, r = f.x[f.strip(n['c'][0], ('Cast', 'Paren'))], f.x[f.strip(n['c'][1], ('Cast', 'Paren'))]
        if l['k'] == 'Mem' and l['d'] == 'vm::Machine::exclusive' and (r.get('cv') == 0 or r['k'] == 'Null'):
            return None, [('exclusive', n['op'] == '!=')]
        if r.get('cv') == 0 and l['k'] in ('Bin', 'Un', 'Call'):
            v, fs = cond(f, n['c'][0], state, new)
            if n['op'] == '!=':
                return v, fs
            return (None if v is None else not v), [(a2, not b2) for a2, b2 in fs]
    if n['k'] == 'Bin' and n['op'] in ('&&', '||'):
        # evaluated after its operands have branched; what is left open is decided by the last one
        a, fa = cond(f, n['c'][0], state, new)
        b, fb = cond(f, n['c'][1], state, new)
        stop = n['op'] == '||'
        if a is stop or b is stop:
            return stop, []
        if a is not None and b is not None:
            return not stop, []
        if a is not None or b is not None:
            return None, (fb if a is not None else fa)
        return None, []
    if n['k'] == 'Bin' and n['op'] in ('>', '<', '>=', '<='):
        t = f.show(i)
        if 'activeCount' in t:
            l, r = f.x[f.strip(n['c'][0], ('Cast', 'Paren'))], f.x[f.strip(n['c'][1], ('Cast', 'Paren'))]
            if l['k'] == 'Mem' and l['d'].endswith('::activeCount') and 'cv' in r:
                more = {('>', 1): True, ('>=', 2): True, ('<=', 1): False, ('<', 2): False}.get((n['op'], r['cv']))
                if more is not None:
                    return None, [('others', more)]
            return None, [('odd', True)]
    if n['k'] == 'Mem' and n['d'] == 'vm::Machine::exclusive':
        return None, [('exclusive', True)]
    if n['k'] == 'Bin' and n['op'] == '&' and 'DaemonFlag' in f.show(i):
        return None, [('daemon', True)]
    return None, []


def event(P, f, e, state, new):
    """(new state, events) of a CFG element"""
    if isinstance(e, dict):
        fn = e.get('fn', '')
        if fn.endswith('MonitorResource::~RawMonitorResource') or fn.endswith('MonitorResource::~MonitorResource'):
            return state, (('unlock', e.get('dtor')),)
        if fn.endswith('::~StateResource'):
            return state, (('resume', None),)
        return None
    n = f.x[e]
    k = n['k']
    fn = n.get('fn') or ''
    if k == 'Ctor' and fn.endswith(('::RawMonitorResource', '::MonitorResource')):
        return state, (('lock', None),)
    if k == 'Ctor' and fn.endswith('::StateResource'):
        return state, (('pause', None),)
    if k == 'Call':
        if fn == 'avian::util::abort' or n.get('nr'):
            return 'dead'
        if n.get('f') in P.noreturn():
            return 'dead'
        if fn == 'vm::enter':
            s = f.x[f.strip(n['c'][1], ('Cast', 'Paren'))].get('cv')
            if s is None:
                raise AnalysisBroken('enter() calls itself with an unknown state')
            s = flow.STATES[s]
            return s, (('count', WEIGHT[s] - WEIGHT[state]), ('state', s))
        if 'ncrement' in fn and n.get('c'):
            t = f.show(n['c'][0])
            v = f.x[f.strip(n['c'][1], ('Cast', 'Paren'))].get('cv') if len(n['c']) > 1 else 1
            if v is not None and v > 2**31:
                v -= 2**32
            if 'activeCount' in t:
                return state, (('count', v),)
        if 'emoryBarrier' in fn or 'fence' in fn or fn.startswith('__sync_synchronize'):
            return state, (('barrier', fn),)
        if fn.endswith('Monitor::wait'):
            return state, (('wait', None),)
        if fn.endswith(('Monitor::notifyAll', 'Monitor::notify')):
            return state, (('notify', fn.endswith('All')),)
    if k == 'Asg':
        l = f.x[f.strip(n['c'][0], ('Cast', 'Paren'))]
        if l['k'] == 'Mem':
            if l['d'] == 'vm::Thread::state':
                v = value(f, n['c'][1], state, new)
                if v is None:
                    raise AnalysisBroken('enter() sets an unknown state')
                return flow.STATES[v], (('state', flow.STATES[v]),)
            if l['d'] == 'vm::Machine::exclusive':
                r = f.x[f.strip(n['c'][1], ('Cast', 'Paren'))]
                return state, (('owner', 0 if (r.get('cv') == 0 or r['k'] == 'Null') else 1),)
    if k in ('Un', 'CAsg'):
        l = f.x[f.strip(n['c'][0], ('Cast', 'Paren'))]
        if l['k'] == 'Mem' and n['op'] in ('++', '--', '+=', '-='):
            nm = l['d'].split('::')[-1]
            d = 1
            if k == 'CAsg':
                d = f.x[f.strip(n['c'][1], ('Cast', 'Paren'))].get('cv')
                if d is not None and d > 2**31:
                    d -= 2**32
            if d is None:
                raise AnalysisBroken('enter() changes %s by an unknown amount' % nm)
            d = d if n['op'] in ('++', '+=') else -d
            if nm == 'activeCount':
                return state, (('count', d),)
            if nm in ('liveCount', 'daemonCount', 'threadCount'):
                return state, ((nm, d),)
    return None


def judge(res, f, old, new, state, ev):
    def bad(what, text):
        res.bad('enter-%s:%s:%s' % (what, old, new), rel(f.file), f.l, f.n, 'changing from %s to %s: %s' % (old.lower(), new.lower(), text))
    if state != new:
        bad('state', 'a path ends in the state ' + state.lower())
        return
    d = sum(v for k, v in ev if k == 'count')
    if d != WEIGHT[new] - WEIGHT[old]:
        bad('count', 'the number of active threads changes by %d instead of %d' % (d, WEIGHT[new] - WEIGHT[old]))
    depth, held = 0, []
    for k, v in ev:
        held.append(depth > 0)
        depth += (k == 'lock') - (k == 'unlock')
    idx = lambda kind: [i for i, (k, v) in enumerate(ev) if k == kind]
    counts = idx('count')
    if new == 'Active' and old in ('Idle', 'No'):
        up = max(counts) if counts else -1
        ok = False
        for i, (k, v) in enumerate(ev):
            if k == 'exclusive' and v is False:
                if i > up and any(ev[j][0] == 'barrier' for j in range(up, i)):
                    ok = True
                if i < up and held[i] and all(held[j] and ev[j][0] not in ('wait',) for j in range(i, up)):
                    ok = True
        if not ok:
            bad('race', 'a path counts the thread as active without having seen, afterwards or under the lock, that nobody is exclusive')
        if old == 'No' and sum(v for k, v in ev if k == 'liveCount') != 1:
            bad('live', 'a new thread is not counted as live exactly once')
    if new in ('Idle', 'Zombie') and old in ('Active', 'Exclusive'):
        down = min((i for i in counts if ev[i][1] < 0), default=None)
        st = idx('state')
        if down is not None and st:
            after = max(down, st[-1])
            woken = any(k == 'notify' and v and held[i] and i > down for i, (k, v) in enumerate(ev))
            clear = any(k == 'exclusive' and v is False and i > after and any(ev[j][0] == 'barrier' for j in range(down, i))
                        for i, (k, v) in enumerate(ev))
            if not woken and not clear:
                bad('wake', 'a path gives up the active state without waking the threads that wait for it')
    if new == 'Zombie':
        if sum(v for k, v in ev if k == 'liveCount') != -1:
            bad('live', 'the number of live threads is not reduced by one')
        isd = [v for k, v in ev if k == 'daemon']
        if isd and sum(v for k, v in ev if k == 'daemonCount') != (-1 if isd[-1] else 0):
            bad('daemon', 'the number of daemon threads is not kept')
        if not isd:
            bad('daemon', 'the number of daemon threads is not kept')
    owner = idx('owner')
    if new == 'Exclusive':
        own = [i for i in owner if ev[i][1] == 1]
        if not own:
            bad('owner', 'the thread does not become the exclusive owner')
        else:
            free = [i for i, (k, v) in enumerate(ev) if k == 'exclusive' and v is False and i < own[0]]
            if not free or not all(held[j] for j in range(free[-1], own[0] + 1)) or any(ev[j][0] == 'wait' for j in range(free[-1], own[0])):
                bad('owner', 'ownership is taken without checking, under the lock, that nobody has it')
            alone = [i for i, (k, v) in enumerate(ev) if k == 'others' and v is False and i > own[0]]
            if not alone:
                bad('alone', 'the thread goes ahead while other threads are active')
            elif not any(ev[j][0] == 'barrier' for j in range(own[0], alone[0])):
                bad('fence', 'no barrier separates claiming exclusive access from counting the active threads')
            if alone and any(k == 'count' and v > 0 for k, v in ev[alone[-1]:]):
                bad('alone', 'the thread counts itself after waiting for the others')
    if old == 'Exclusive' and new in ('Active', 'Idle', 'Zombie'):
        if [ev[i][1] for i in owner] != [0]:
            bad('owner', 'exclusive ownership is not given up')
        if not any(k == 'notify' and v and held[i] and (not owner or i > owner[-1]) for i, (k, v) in enumerate(ev)):
            bad('wake', 'the threads waiting for exclusive access to end are not woken')
    if new == 'Exit' and any(ev[i][1] == 0 for i in owner):
        bad('owner', 'exclusive ownership is given up at exit')
