"""Write barrier: native code that stores a reference into a heap object tells the collector about it before anything can collect."""
import re
import prog
from prog import rel, AnalysisBroken
from rules import gcroots

# fields the collector never follows (weak links that it maintains itself): no barrier applies.  rules/masks.py checks they are untraced.
UNTRACED = {'GcFinalizer': {'target', 'next'}}
UNTRACED.update({c: {'target', 'queue', 'vmNext'} for c in
                 ('GcJreference', 'GcWeakReference', 'GcSoftReference', 'GcPhantomReference', 'GcCleaner')})
GCPTR = re.compile(r'^(?:const )?(?:vm::)?(?:Gc\w+|object) ?\*? ?(?:const)?$')
OBJ = re.compile(r'^(?:vm::)?(?:Gc[A-Z]\w* \*|object)( const)?$')
BULK = {'memcpy', 'memmove', 'std::memcpy', '__builtin_memcpy', '__builtin_memmove'}
ACCESS = ('vm::fieldAtOffset', 'vm::GcObject::field_at')
EXEMPT = {'vm::setObjectClass': 'the header word: the collector visits the class of every object it copies or scans, and classes a thread can '
                                'instantiate are reachable from their loader'}


def isobj(t):
    t = t.replace('&', '').strip()
    return bool(OBJ.match(t))


class Summ:
    def __init__(self):
        self.leaves = {}     # fn -> set of parameter positions that hold an unreported store on return
        self.marks = {}      # fn -> set of parameter positions always reported


def heap_root(f, i, depth=0):
    """(kind, node) of the heap object an address expression points into; None when it is not (known to be) heap memory"""
    if i is None or i < 0 or depth > 12:
        return None
    i = f.strip(i, ('Cast', 'Paren'))
    n = f.x[i]
    k = n['k']
    c = n.get('c', ())
    if k == 'Call':
        fn = n.get('fn', '')
        if fn in ACCESS or fn.startswith('vm::fieldAtOffset'):
            return ('any', c[0])
        if n.get('obj') and fn.startswith('vm::Gc') and c and isobj(f.type(c[0])):
            return ('acc', c[0], i)
        if fn in ('vm::singletonObject', 'vm::singletonValue', 'vm::singletonBody') and len(c) > 1:
            return ('any', c[1])
        if fn.endswith(('::operator[]', '::begin', '::operator+', '::operator*')) and c:
            return heap_root(f, c[0], depth + 1)
        return None
    if k == 'Un' and n['op'] in ('&', '*', '++', '--'):
        return heap_root(f, c[0], depth + 1)
    if k == 'Idx' or (k == 'Bin' and n['op'] in '+-'):
        return heap_root(f, c[0], depth + 1)
    if k == 'Ref' and n.get('dk') == 'v':
        t = f.vars[n['v']][1]
        if isobj(t):
            return None
        if '*' not in t and '&' not in t:
            return None
        for d in f.defs_reaching(i, n['v']):
            r = heap_root(f, d, depth + 1) if d is not None else None
            if r:
                return r
    return None


def token(f, i, depth=0):
    """identity of an object expression: a local variable, or its text"""
    i = f.strip(i)
    n = f.x[i]
    if n['k'] == 'Call' and n.get('fn') in ('vm::cast', 'vm::GcObject::as', 'vm::GcObject::as_object') and n.get('c') and depth < 6:
        for a in n['c']:
            if isobj(f.type(a)):
                return token(f, a, depth + 1)
    if n['k'] == 'Ref' and n.get('dk') == 'v':
        v = n['v']
        defs = [x for x in f.x if (x['k'] == 'Decl' and any(w == v for w, _ in x['vars']))]
        asg = [x for x in f.x if x['k'] == 'Asg' and f.x[f.strip(x['c'][0])].get('v', -1) == v and f.x[f.strip(x['c'][0])]['k'] == 'Ref']
        if v not in f.params and len(defs) == 1 and not asg and depth < 6:
            init = [e for w, e in defs[0]['vars'] if w == v][0]
            if init >= 0:
                j = f.strip(init)
                m = f.x[j]
                if m['k'] == 'Ref' and m.get('dk') == 'v' or (m['k'] == 'Call' and m.get('fn') in ('vm::cast', 'vm::GcObject::as')):
                    return token(f, j, depth + 1)
        return ('v', v)
    if n['k'] == 'This' or f.show(i) in ('This()', 'this'):
        return ('this', 0)
    return ('e', f.show(i))


def refs_value(f, i, d=0):
    """may the stored value be a reference?  'null' for the null constant"""
    i0 = i
    while True:
        if f.x[i].get('cv') == 0 or f.x[i]['k'] in ('Null', 'NullPtr') or (f.x[i]['k'] == 'Int' and f.x[i].get('cv') == 0):
            return 'null'
        if isobj(f.type(i)):
            j = f.strip(i)
            if f.x[j].get('cv') == 0:
                return 'null'
            return True
        if f.x[i]['k'] == 'Cast' and f.x[i].get('c'):
            i = f.x[i]['c'][0]
            continue
        break
    n = f.x[i]
    if n['k'] == 'Ref' and n.get('dk') == 'v' and d < 5:
        for x in f.defs_reaching(i, n['v']):
            if x is not None and refs_value(f, x, d + 1) is True:
                return True
    return False


def elem_kind(f, n, dest):
    """does the memory at dest hold references?  from the accessor's type: True, False or None (unknown)"""
    for j in f.sub(dest):
        m = f.x[j]
        if m['k'] == 'Call' and m.get('fn', '').startswith('vm::Gc') and m.get('obj'):
            t = f.type(j)
            return 'GcObject *' in t or bool(re.search(r'Gc\w+ \*', t)) or 'object' in t
    return None


def names(f, i, depth=0):
    """variables, constants and calls an expression is made of, through single-definition locals"""
    out = set()
    for j in f.sub(i):
        n = f.x[j]
        if n['k'] == 'Ref' and n.get('dk') == 'v':
            out.add(('v', n['v']))
            ds = [x for x in f.x if x['k'] == 'Decl' and any(w == n['v'] for w, _ in x['vars'])]
            if depth < 3 and len(ds) == 1 and n['v'] not in f.params:
                init = [e for w, e in ds[0]['vars'] if w == n['v']][0]
                if init >= 0:
                    out |= names(f, init, depth + 1)
        elif n['k'] == 'Ref':
            out.add(('d', n.get('d') or n.get('fn')))
        elif n['k'] == 'Call':
            out.add(('c', n.get('fn')))
        elif n['k'] == 'Int':
            out.add(('i', n['cv']))
    return out


def offset_of(f, at):
    """(offset node, length node or None) of a store"""
    n = f.x[at]
    dest = n['c'][0]
    ln = n['c'][2] if n['k'] == 'Call' and n.get('fn', '').split('::')[-1] in ('memcpy', 'memmove') else None
    st, seen = [dest], set()
    while st:
        j = st.pop()
        if j in seen or j < 0:
            continue
        seen.add(j)
        m = f.x[j]
        if m['k'] == 'Call' and (m.get('fn', '') in ACCESS or m.get('fn', '').startswith('vm::fieldAtOffset')) and len(m['c']) > 1:
            return m['c'][1], ln, dest
        if m['k'] == 'Ref' and m.get('dk') == 'v' and ('*' in f.vars[m['v']][1] or '&' in f.vars[m['v']][1]):
            st.extend(d for d in f.defs_reaching(j, m['v']) if d is not None)
        st.extend(m.get('c', ()))
    return None, ln, dest


def agrees(f, at, e):
    """does the report e cover the store at?  Only a report that provably names something else does not."""
    m = f.x[e]
    if m.get('fn') != 'vm::mark' or f.x[at]['k'] not in ('Asg', 'Call'):
        return True
    off, ln, dest = offset_of(f, at)
    mo = f.strip(m['c'][2])
    if off is not None:
        o = f.strip(off)
        a, b = names(f, o), names(f, mo)
        if ln is None:
            if f.show(o) != f.show(mo) and not (a & b):
                return False
            ca, cb = f.x[o].get('cv'), f.x[mo].get('cv')
            if ca is not None and cb is not None and ca != cb and len(m['c']) == 3:
                return False
        else:
            da = {x for x in names(f, dest) if x[0] == 'v'} - {x for x in names(f, off) if x[0] == 'v'}
            if len(m['c']) == 3:
                return False        # one word reported, many stored
            la, lb = names(f, ln), names(f, m['c'][3])
            if not (la & lb):
                return False
            # the start: every local the destination is displaced by takes part in the reported offset
            disp = {x for x in displacement(f, dest)}
            if disp and not (disp & b):
                return False
    return True


def null_test(f, i):
    """(variable, value of the condition when it is not null)"""
    pos = True
    while True:
        i = f.strip(i)
        n = f.x[i]
        if n['k'] == 'Un' and n['op'] == '!':
            pos = not pos
            i = n['c'][0]
        elif n['k'] == 'Call' and n.get('fn') == '__builtin_expect':
            i = n['c'][0]
        elif n['k'] == 'Bin' and n['op'] in ('==', '!=') and (f.x[f.strip(n['c'][1])].get('cv') == 0 or f.x[f.strip(n['c'][1])]['k'] == 'Null'):
            if n['op'] == '==':
                pos = not pos
            i = n['c'][0]
        elif n['k'] == 'Bin' and n['op'] in ('==', '!=') and f.x[f.strip(n['c'][0])].get('cv') == 0:
            if n['op'] == '==':
                pos = not pos
            i = n['c'][1]
        else:
            break
    n = f.x[i]
    if n['k'] == 'Ref' and n.get('dk') == 'v':
        return n['v'], pos
    return None


def stores_var(f, at, v):
    n = f.x[at]
    if n['k'] != 'Asg':
        return False
    m = f.x[f.strip(n['c'][1])]
    return m['k'] == 'Ref' and m.get('dk') == 'v' and m['v'] == v


def displacement(f, dest):
    out = set()
    for j in f.sub(dest):
        n = f.x[j]
        if n['k'] == 'Ref' and n.get('dk') == 'v' and '*' not in f.vars[n['v']][1] and '&' not in f.vars[n['v']][1]:
            out.add(('v', n['v']))
    return out


def is_fresh_alloc(f, i):
    i = f.strip(i)
    n = f.x[i]
    if n['k'] != 'Call':
        return False
    fn = n.get('fn', '')
    last = fn.split('::')[-1]
    if not fn.startswith('vm::'):
        return False
    if last == 'allocate3':
        return all('Immortal' not in f.show(a) for a in n['c'])
    if last in ('cast', 'as'):
        return any(is_fresh_alloc(f, a) for a in n.get('c', ()))
    return last == 'allocate' or last == 'allocate2' or (last.startswith('make') and isobj(f.type(i)))


def analyse(P, f, gc, S, res=None, report=None):
    """forward analysis; returns (leaves, marks) parameter summaries"""
    ev = {}
    casvar = {}
    for i, n in enumerate(f.x):
        if n['k'] == 'Asg':
            l = f.strip(n['c'][0])
            ln = f.x[l]
            if ln['k'] not in ('Call', 'Un', 'Idx', 'Ref'):
                continue
            lt = f.type(l)
            if ln['k'] == 'Ref':
                if '&' not in f.vars[ln['v']][1] if ln.get('dk') == 'v' else True:
                    continue
            r = heap_root(f, l)
            if not r:
                continue
            val = refs_value(f, n['c'][1])
            if not isobj(lt) and val is not True:
                continue
            if r[0] == 'acc':
                m = f.x[r[2]]
                cl, mem = m['fn'].split('::')[-2:]
                if mem in UNTRACED.get(cl, ()):
                    continue
                if not isobj(lt):
                    continue    # a native pointer kept in the object
            if res is not None:
                res.count('reference stores into heap objects by native code')
            if val == 'null':
                continue
            ev.setdefault(i, []).append(('ob', token(f, r[1]), i))
        elif n['k'] == 'Call':
            fn = n.get('fn', '')
            last = fn.split('::')[-1]
            c = n.get('c', ())
            if last == 'atomicCompareAndSwap' and c:
                r = heap_root(f, c[0])
                if r and r[0] == 'acc' and not isobj(f.type(r[2])):
                    r = None     # a native pointer kept in the object
                if r:
                    if res is not None:
                        res.count('compare-and-swap operations on references')
                    ev.setdefault(i, []).append(('cas', token(f, r[1]), i))
            elif (fn in BULK or last in ('memcpy', 'memmove')) and len(c) >= 3:
                r = heap_root(f, c[0])
                if not r:
                    continue
                k = elem_kind(f, n, c[0])
                if k is False:
                    continue
                if k is None and r[0] == 'acc':
                    m = f.type(r[2])
                    if not re.search(r'Gc\w+ \*|object', m.replace('vm::GcArray', '')):
                        if 'uintptr_t' not in m and 'unsigned long' not in m:
                            continue
                        # untyped words: what is copied decides
                        if not any(isobj(f.type(j)) for j in f.sub(c[1])):
                            continue
                if res is not None:
                    res.count('bulk copies into objects that may hold references')
                ev.setdefault(i, []).append(('ob', token(f, r[1]), i))
            elif fn == 'vm::mark' and len(c) >= 3:
                if res is not None:
                    res.count('reports to the collector')
                ev.setdefault(i, []).append(('dis', token(f, c[1]), i))
            else:
                for t in P.targets(f, n) or ():
                    for p in S.marks.get(t, ()):
                        if p < len(c):
                            ev.setdefault(i, []).append(('dis', token(f, c[p]), i))
                    for p in S.leaves.get(t, ()):
                        if p < len(c):
                            ev.setdefault(i, []).append(('ob', token(f, c[p]), i))
    if not ev:
        return set(), set()
    nr = P.noreturn()
    params = {('v', v): k for k, v in enumerate(f.params)}
    this = 1 if f.cls and 'st' not in f.flags else 0

    # variable assigned from which CAS
    def cas_of(i):
        """(CAS node, negated) tested by condition i"""
        neg = False
        while True:
            i = f.strip(i)
            n = f.x[i]
            if n['k'] == 'Un' and n['op'] == '!':
                neg = not neg
                i = n['c'][0]
                continue
            break
        if n['k'] == 'Call' and i in ev:
            return i, neg
        if n['k'] == 'Call' and n.get('fn') == '__builtin_expect':
            return cas_of(n['c'][0])
        if n['k'] == 'Ref' and n.get('dk') == 'v':
            for d in f.defs_reaching(i, n['v']):
                if d is not None:
                    d = f.strip(d)
                    if d in ev:
                        return d, neg
        return None, neg

    def step(b, st, rep):
        pend, fresh, done = st
        pend, fresh, done = dict(pend), set(fresh), set(done)
        for e in f.b[b]['e']:
            if isinstance(e, int):
                n = f.x[e]
                if n['k'] == 'Call' and (n.get('nr') or (P.el_targets(f, e) and all(x in nr for x in P.el_targets(f, e)))):
                    return None
                collects = any(t in gc for t in P.el_targets(f, e)) if n['k'] in ('Call', 'Ctor', 'New') else False
                if collects:
                    if rep:
                        for k, s in pend.items():
                            rep(k, s, e)
                    pend.clear()
                    fresh.clear()
                for kind, tok, at in ev.get(e, ()):
                    if kind in ('ob', 'cas'):
                        if tok not in fresh:
                            pend[tok] = at
                    else:
                        if tok in pend and not agrees(f, pend[tok], e):
                            continue
                        pend.pop(tok, None)
                        done.add(tok)
                if n['k'] == 'Decl':
                    for v, init in n['vars']:
                        fresh.discard(('v', v))
                        if init >= 0 and is_fresh_alloc(f, init):
                            fresh.add(('v', v))
                elif n['k'] == 'Asg':
                    l = f.x[f.strip(n['c'][0])]
                    if l['k'] == 'Ref' and l.get('dk') == 'v':
                        fresh.discard(('v', l['v']))
                        if is_fresh_alloc(f, n['c'][1]):
                            fresh.add(('v', l['v']))
        return pend, fresh, done

    def join(a, b):
        if a is None:
            return b
        p = dict(a[0])
        for k, v in b[0].items():
            p[k] = min(v, p.get(k, v))
        return p, a[1] & b[1], a[2] & b[2]

    inn = {f.entry: ({}, set(), set())}
    work = [f.entry]
    n = 0
    while work:
        b = work.pop()
        n += 1
        if n > 20000:
            raise AnalysisBroken('barrier analysis does not settle in ' + f.n)
        o = step(b, inn[b], None)
        if o is None:
            continue
        ss = f.b[b]['s']
        for pos, s in enumerate(ss):
            if s < 0:
                continue
            q = o
            tc = f.b[b].get('tc', -1)
            if tc is not None and tc >= 0 and len(ss) == 2:
                ci, neg = cas_of(tc)
                failed = (pos == 1) != neg
                if ci is not None and failed and any(k == 'cas' for k, _, _ in ev[ci]):
                    q = ({k: v for k, v in o[0].items() if v != ci}, o[1], o[2])
                nv = null_test(f, tc)
                if nv is not None:
                    v, nonnull = nv
                    if (pos == 0) != nonnull:       # the edge on which the variable is null
                        q = ({k: a for k, a in q[0].items() if not stores_var(f, a, v)}, q[1], q[2] | {k for k, a in q[0].items() if stores_var(f, a, v)})
                # element type test: on the branch where the array holds no references nothing needs reporting
                sh = f.show(tc)
                if 'objectMask()' in sh and '==' not in sh:
                    neg2 = sh.startswith('!')
                    if (pos == 1) != neg2:
                        q = ({k: v for k, v in q[0].items() if f.x[v]['k'] != 'Call'}, q[1], q[2] | {t for t in q[0]})
            new = join(inn.get(s), q)
            new = (new[0], frozenset(new[1]), frozenset(new[2]))
            if inn.get(s) != new:
                inn[s] = new
                work.append(s)
    leaves, marks = set(), set()
    x = inn.get(f.exit)
    # a function returning the result of a CAS leaves the report to its caller: kept as an obligation of the caller
    if x is not None:
        for k, at in x[0].items():
            if k in params:
                leaves.add(params[k] + this)
            elif k[0] == 'this':
                leaves.add(0)
            elif report:
                report(k, at, None)
        for k in x[2]:
            if k in params:
                marks.add(params[k] + this)
            elif k[0] == 'this':
                marks.add(0)
    if report:
        for b in list(inn):
            step(b, inn[b], report)
    return leaves, marks


def check(res, tier):
    res.rule('Outside the collector, every store of a reference into memory of a heap object (assignment through an accessor or a computed '
             'field address, pointer-width compare-and-swap that succeeded, bulk copy of words that may be references) is followed on every '
             'path by the report of that object to the collector, before anything that can collect and before the function returns; a store '
             'of null, a store into an object allocated with no collection point since, and the collector-maintained weak links need none. '
             'A helper that leaves the report to its caller makes it an obligation of each of its callers.')
    worlds = ('jit', 'interpret', 'openjdk') if tier == 'quick' else ('jit', 'interpret', 'cont', 'openjdk')
    for w in worlds:
        P = prog.world(w)
        P.one('vm::setField')
        gc = gcroots.may_gc(P)
        S = Summ()
        fs = [f for f in P.funcs.values() if f.b and not f.file.endswith('heap/heap.cpp') and f.n not in EXEMPT
              and not (f.n.split('::')[-1] in ('mark',) and f.file.endswith('machine.h'))]
        cand = [f for f in fs if interesting(f)]
        callers = None
        work = list(cand)
        rounds = 0
        touched = set(f.m for f in cand)
        while work and rounds < 12:
            rounds += 1
            changed = set()
            for f in work:
                if skip_generated(f):
                    continue
                le, ma = analyse(P, f, gc, S)
                if le != S.leaves.get(f.m, set()) or ma != S.marks.get(f.m, set()):
                    S.leaves[f.m], S.marks[f.m] = le, ma
                    changed.add(f.m)
            ups = {p for p in P.funcs if P.callees(p) & changed}
            touched |= ups
            work = [P.funcs[p] for p in ups if not P.funcs[p].file.endswith('heap/heap.cpp') and P.funcs[p].n not in EXEMPT]
        for m in touched:
            f = P.funcs[m]
            if f.file.endswith('heap/heap.cpp') or f.n in EXEMPT or skip_generated(f):
                continue
            res.count('functions analysed (%s)' % w)

            def report(tok, at, where, f=f):
                s = f.show(f.x[at]['c'][0] if f.x[at]['k'] == 'Asg' else at)
                res.bad('barrier|%s|%s' % (f.n, s), rel(f.file), f.line(at), f.n,
                        'stores a reference with `%s` and %s without reporting the object to the collector: if the object is old and the '
                        'value young, the next collection frees or moves the value under it'
                        % (f.show(at)[:100], 'returns' if where is None else 'reaches `%s`, which can collect,' % f.show(where)[:60]))
            le, ma = analyse(P, f, gc, S, res, report)
            if le:
                ups = [p for p in P.funcs if m in P.callees(p)]
                if not ups or m in P.taken:
                    for i, n in enumerate(f.x):
                        if n['k'] in ('Asg', 'Call') and any(k in ('ob', 'cas') for k in store_kind(f, i)):
                            report(None, i, None)
        res.count('worlds', floor=len(worlds))
        delegation(res, P)
        if w == 'jit':
            jit(res, P, S)
    for k, fl in (('reference stores into heap objects by native code', 3), ('compare-and-swap operations on references', 4),
                  ('bulk copies into objects that may hold references', 2), ('reports to the collector', 10)):
        res.count(k, 0, floor=fl)


def delegation(res, P):
    res.rule('The report itself reaches the collector on every path with the object, the word index (byte offset divided by the word size) '
             'and the number of words unchanged.')
    ms = [f for f in P.find('vm::mark') if f.file.endswith('machine.h') and len(f.params) >= 3 and f.vars[f.params[2]][1] in ('unsigned int', 'unsigned', 'unsigned long', 'uintptr_t', 'int')]
    if not ms:
        raise AnalysisBroken('anchor function vanished: vm::mark(thread, object, offset)')
    for f in ms:
        bad = delegates(P, f)
        res.count('report functions', floor=2)
        if bad:
            res.bad('barrier-report|%d' % len(f.params), rel(f.file), f.l, f.n, bad)


def delegates(P, f):
    calls = [(i, n) for i, n in enumerate(f.x) if n['k'] == 'Call' and n.get('virt') and n.get('fn', '').endswith('Heap::mark')]
    via = [(i, n) for i, n in enumerate(f.x) if n['k'] == 'Call' and n.get('fn') == 'vm::mark']
    if via and not calls:
        n = via[0][1]
        a = n['c']
        if len(a) == 4 and len(f.params) == 3 and ('v', f.params[1]) in names(f, a[1]) and ('v', f.params[2]) in names(f, a[2]) and f.x[f.strip(a[3])].get('cv') == 1:
            return None
    if not calls:
        return 'does not tell the collector'
    # every path passes the call
    at = {i for i, _ in calls}
    seen, st = {f.entry}, [f.entry]
    while st:
        b = st.pop()
        if any(e in at for e in f.b[b]['e'] if isinstance(e, int)):
            continue
        if b == f.exit:
            return 'can return without telling the collector'
        for s in f.succ(b):
            if s not in seen:
                seen.add(s)
                st.append(s)
    for i, n in calls:
        a = n['c'][1:]
        if ('v', f.params[1]) not in names(f, a[0]):
            return 'reports another object'
        if ('v', f.params[2]) not in names(f, a[1]):
            return 'reports a word index that does not depend on the offset'
        o = f.x[f.strip(a[1])]
        if not (o['k'] == 'Bin' and ((o['op'] == '/' and f.x[f.strip(o['c'][1])].get('cv') == 8) or (o['op'] == '>>' and f.x[f.strip(o['c'][1])].get('cv') == 3))):
            return 'the word index is not the byte offset divided by the word size'
        if len(f.params) == 4 and (('v', f.params[3]) not in names(f, a[2]) or f.x[f.strip(a[2])]['k'] != 'Ref'):
            return 'does not report the number of words it was given'
        if len(f.params) == 3 and f.x[f.strip(a[2])].get('cv') != 1:
            return 'does not report exactly one word'
    return None


def jit(res, P, S):
    """compiled code stores references through the thunks that report"""
    from rules.jni import reach_with
    res.rule('Code the JIT compiler emits stores a reference into an object (reference array element, instance and static field) only by '
             'calling one of the runtime functions that store and report; a direct store is emitted for no reference field and no reference '
             'array element.')
    comp = [f for f in P.find('(anonymous namespace)::local::compile', False) + P.find('(anonymous namespace)::compile', False) if any(
        b.get('t') == 'SwitchStmt' for b in f.b.values()) and any(f.vars[v][0] == 'instruction' for v in range(len(f.vars)))]
    ops = {}
    for nm, e in P.enums.items():
        if 'aastore' in e and 'putfield' in e:
            ops = e
        if 'ObjectField' in e and 'ByteField' in e:
            codes = e
    if not comp or not ops:
        raise AnalysisBroken('the bytecode compiler or its opcode table was not found')
    f = comp[0]
    ins = [v for v in range(len(f.vars)) if f.vars[v][0] == 'instruction'][0]
    marking = {P.funcs[m].n.split('::')[-1] for m, ps in S.marks.items() if m in P.funcs and 1 in ps}
    fcs = [v for v in range(len(f.vars)) if f.vars[v][0] == 'fieldCode']
    for op in ('aastore', 'putfield', 'putstatic'):
        env = {ins: ops[op]}
        if op != 'aastore':
            for v in fcs:
                env[v] = codes['ObjectField']
        blocks = reach_with(f, env) - reach_with(f, {ins: ops['nop']})
        thunks, direct = set(), []
        for b in blocks:
            for e in f.b[b]['e']:
                if not isinstance(e, int):
                    continue
                n = f.x[e]
                if n['k'] == 'Call' and n.get('fn', '').split('::')[-1] == 'getThunk':
                    thunks.add(f.show(n['c'][-1]))
                if n['k'] == 'Call' and n.get('fn', '').endswith('Compiler::store'):
                    direct.append(e)
        res.count('reference-storing bytecodes of the JIT compiler', floor=3)
        for e in direct:
            if op != 'aastore' or True:
                res.bad('barrier-jit|%s|direct' % op, rel(f.file), f.line(e), f.n, 'for %s of a reference the compiler emits the direct store `%s`, which does not tell the collector' % (op, f.show(e)[:110]))
        good = {x for x in thunks if x.split('::')[-1][:-len('Thunk')] in marking}
        if not good:
            res.bad('barrier-jit|%s|none' % op, rel(f.file), f.l, f.n, 'for %s of a reference the compiler emits no call of a runtime function that reports the store (calls: %s)'
                    % (op, ', '.join(sorted(thunks)) or 'none'))


def store_kind(f, i):
    n = f.x[i]
    if n['k'] == 'Asg':
        l = f.strip(n['c'][0])
        if f.x[l]['k'] in ('Call', 'Un', 'Idx') and heap_root(f, l) and refs_value(f, n['c'][1]) is True:
            return ['ob']
    if n['k'] == 'Call' and n.get('fn', '').split('::')[-1] in ('atomicCompareAndSwap', 'memcpy', 'memmove') and n.get('c') and heap_root(f, n['c'][0]):
        return ['cas']
    return []


def interesting(f):
    for n in f.x:
        if n['k'] == 'Call':
            fn = n.get('fn', '')
            if fn == 'vm::mark' or fn.split('::')[-1] in ('atomicCompareAndSwap', 'memcpy', 'memmove'):
                return True
        if n['k'] == 'Asg':
            l = f.x[f.strip(n['c'][0])]
            if l['k'] in ('Call', 'Un', 'Idx') or (l['k'] == 'Ref' and l.get('dk') == 'v' and '&' in f.vars[l['v']][1]):
                return True
    return False


def skip_generated(f):
    """setters of collector-maintained weak links"""
    if not f.file.startswith(prog.REPO + '/build') and '/src/' in f.file:
        return False
    p = f.n.split('::')
    if len(p) < 2 or not p[-2].startswith('Gc') or not p[-1].startswith('set'):
        return False
    mem = p[-1][3:4].lower() + p[-1][4:]
    return mem in UNTRACED.get(p[-2], ())
