"""JNI function table: order, ABI, typed accessors, argument hand-over."""
import re
import build, prog
from prog import AnalysisBroken, rel, split_args

PRIM = {'Boolean': ('unsigned char', 1, 'u'), 'Byte': ('signed char', 1, 's'), 'Char': ('unsigned short', 2, 'u'),
        'Short': ('short', 2, 's'), 'Int': ('int', 4, 's'), 'Long': ('long', 8, 's'), 'Float': ('float', 4, 'f'),
        'Double': ('double', 8, 'f')}
ABI = {'void': 'void', 'unsigned char': 'u1', 'bool': 'u1', 'signed char': 's1', 'char': 's1', 'short': 's2', 'unsigned short': 'u2', 'int': 's4',
       'unsigned int': 'u4', 'long': 's8', 'unsigned long': 'u8', 'float': 'f4', 'double': 'f8', 'long long': 's8',
       'unsigned long long': 'u8'}


def abi(t):
    t = t.strip()
    if t == '...':
        return '...'
    if t.endswith('*') or t.endswith('*const') or t.endswith('&'):
        return 'u8'  # a pointer
    t = re.sub(r'\b(const|volatile)\b', '', t).strip()
    return ABI.get(t, t)


def sig(ty):
    m = prog.Program.SIG.match(ty)
    if not m:
        return None
    return abi(m.group(1)), [abi(a) for a in split_args(m.group(2))]


def local_closure(P, fn, file=None):
    """the function with the helpers of the same file it calls directly or runs through a function reference"""
    file = file or fn.file
    out, st = [], [fn.m]
    seen = set()
    while st:
        k = st.pop()
        if k in seen:
            continue
        seen.add(k)
        f = P.funcs.get(k)
        if f is None or f.file != file:
            continue
        out.append(f)
        for n in f.x:
            if n['k'] == 'Ref' and n.get('dk') == 'f':
                st.append(n['f'])
            elif n['k'] == 'Call' and 'f' in n:
                st.append(n['f'])
    return out


def assignments(P, f):
    out = {}
    for i, n in enumerate(f.x):
        if n['k'] == 'Asg':
            l = f.x[f.strip(n['c'][0])]
            r = f.x[f.strip(n['c'][1])]
            if l['k'] == 'Mem' and r['k'] == 'Ref' and r.get('dk') == 'f':
                rec, fld = l['d'].rsplit('::', 1)
                out.setdefault((rec, fld), []).append((r['f'], n['l']))
    return out


def check(res, tier):
    P = prog.world('jit')
    ref = build.jni_reference()
    table(res, P, ref)
    typed(res, P)
    modes(res, P)


def table(res, P, ref):
    res.rule('The members of the function tables have the order, offsets and (size/signedness/float class of) parameter and result types of '
             'the standard JNI header, every standard entry is present and assigned, and no entry is given the implementation of another.')
    pop = P.one('vm::populateJNITables')
    asg = assignments(P, pop)
    for rec, std in (('vm::JNIEnvVTable', 'JNINativeInterface_'), ('vm::JavaVMVTable', 'JNIInvokeInterface_')):
        if rec not in P.records or std not in ref:
            raise AnalysisBroken('anchor type vanished: ' + rec)
        mine = P.records[rec]['fields']
        byoff = {o: (n, t) for n, t, o in mine}
        names = {n for n, t, o in ref[std]}
        for n, t, o in ref[std]:
            res.count('standard table entries', floor=200)
            if o not in byoff:
                res.bad('jni-missing|%s' % n, 'src/avian/machine.h', 0, rec, 'the standard entry %s (offset %d) lies beyond the end of the table' % (n, o))
                continue
            mn, mt = byoff[o]
            if mn != n and not (n.startswith('reserved') and mn.startswith('reserved')):
                res.bad('jni-order|%s' % n, 'src/avian/machine.h', 0, rec, 'offset %d holds %s where the standard table has %s' % (o, mn, n))
                continue
            s1, s2 = sig(mt), sig(t)
            if s2 is not None:
                res.count('entry signatures compared', floor=190)
                # the implementation's varargs entry and the type of the first (environment) parameter are pointers in both
                if s1 is None or s1[0] != s2[0] or s1[1] != s2[1]:
                    res.bad('jni-abi|%s' % n, 'src/avian/machine.h', 0, rec, '%s is declared %s, the standard ABI is %s' % (n, mt, t))
            if n.startswith('reserved'):
                continue
            a = asg.get((rec, n))
            if not a:
                res.bad('jni-empty|%s' % n, rel(pop.file), pop.l, pop.n, 'the table entry %s is never filled in: calling it jumps to address 0' % n)
                continue
            res.count('entries assigned', floor=180)
            for key, line in a:
                base = P.decls[key]['n'].split('::')[-1]
                if base != n and base in names:
                    res.bad('jni-swap|%s' % n, rel(pop.file), line, pop.n, 'the entry %s is given the implementation of %s' % (n, base))


def slot_functions(P):
    pop = P.one('vm::populateJNITables')
    out = {}
    for (rec, fld), a in assignments(P, pop).items():
        if rec == 'vm::JNIEnvVTable':
            fn = P.funcs.get(a[-1][0])
            if fn is None:
                raise AnalysisBroken('implementation of %s not found' % fld)
            out[fld] = fn
    return out


def fieldtypes(P, fs):
    """types at which object memory is accessed through fieldAtOffset"""
    out = []
    for f in fs:
        for i, n in f.calls():
            if n.get('fn') == 'vm::fieldAtOffset':
                out.append((f.type(i), f, n['l']))
    return out


def names_called(fs):
    return {n.get('fn', '').split('::')[-1] for f in fs for i, n in f.calls()}


PAT = [
    (re.compile(r'^Get(Static)?(%s)Field$' % '|'.join(PRIM)), 'getf'),
    (re.compile(r'^Set(Static)?(%s)Field$' % '|'.join(PRIM)), 'setf'),
    (re.compile(r'^Call(Static|Nonvirtual)?(%s|Object|Void)Method(V|A)?$' % '|'.join(PRIM)), 'call'),
    (re.compile(r'^(Get|Set)(%s)ArrayRegion$' % '|'.join(PRIM)), 'region'),
    (re.compile(r'^(Get|Release)(%s)ArrayElements$' % '|'.join(PRIM)), 'elements'),
    (re.compile(r'^New(%s)Array$' % '|'.join(PRIM)), 'newarray'),
]


def kind(t):
    t = re.sub(r'\b(const|volatile)\b', '', t).strip()
    a = ABI.get(t, t)
    return a


def typed(res, P):
    res.rule('A typed entry touches Java memory exactly at the size, signedness and class of the type in its name; floating point values cross '
             'the integer argument words bit for bit (never by numeric conversion); list entries go through the argument-list call, array '
             'entries through the argument-array call; static entries use the static lookup, instance entries the virtual one; the boxed '
             'result type matches the entry.')
    slots = slot_functions(P)
    for name, fn in sorted(slots.items()):
        for pat, what in PAT:
            m = pat.match(name)
            if not m:
                continue
            fs = local_closure(P, fn)
            res.count('typed entries analysed', floor=130)
            called = names_called(fs)
            g = globals()['t_' + what]
            for key, line, f, msg in g(P, name, m, fn, fs, called):
                res.bad('jni-%s|%s|%s' % (what, name, key), rel(f.file), line, f.n, '%s: %s' % (name, msg))
    # numeric conversions between floating point and integer in the JNI layer
    n = 0
    for fn in P.funcs.values():
        if fn.file.endswith('/src/jnienv.cpp'):
            n += 1
            for i, x in enumerate(fn.x):
                if x['k'] == 'Cast' and x.get('ck') in ('FloatingToIntegral', 'IntegralToFloating'):
                    res.bad('jni-conv|%s' % fn.n, rel(fn.file), x['l'], fn.n, 'a floating point value is converted numerically to or from an '
                                                                             'argument word instead of being passed bit for bit')
    res.count('JNI layer functions scanned for numeric conversion', n, floor=250)


def isstatic(m):
    return m.group(1) == 'Static'


def t_getf(P, name, m, fn, fs, called):
    T = m.group(2)
    want = ABI[PRIM[T][0]]
    ft = fieldtypes(P, fs)
    for t, f, l in ft:
        if kind(t) != want:
            yield 'width', l, f, 'reads the field as `%s`' % t
    # conversions of the returned word
    if T == 'Float' and ft and not {'floatToBits', 'bitsToFloat'} <= called:
        yield 'bits', fn.l, fn, 'the float is not passed through the argument word bit for bit'
    if T == 'Double' and ft and not {'doubleToBits', 'bitsToDouble'} <= called:
        yield 'bits', fn.l, fn, 'the double is not passed through the argument word bit for bit'
    yield from lookup(m, fn, called, 'Field')
    yield from resource(fs, fn, 'vm::FieldReadResource', 'vm::FieldWriteResource')
    if isstatic(m) and 'initClass' not in called:
        yield 'init', fn.l, fn, 'reads a static field without initialising the class first'


def t_setf(P, name, m, fn, fs, called):
    T = m.group(2)
    want = ABI[PRIM[T][0]]
    for t, f, l in fieldtypes(P, fs):
        if kind(t)[1:] != want[1:] or (kind(t)[0] == 'f') != (want[0] == 'f'):
            yield 'width', l, f, 'writes the field as `%s`' % t
    yield from lookup(m, fn, called, 'Field')
    yield from resource(fs, fn, 'vm::FieldWriteResource', 'vm::FieldReadResource')
    if isstatic(m) and 'initClass' not in called:
        yield 'init', fn.l, fn, 'writes a static field without initialising the class first'


def resource(fs, fn, want, other):
    used = {n.get('cls') for f in fs for i, n in f.calls() if n['k'] == 'Ctor'}
    if other in used:
        yield 'volatile', fn.l, fn, 'uses the field access protocol of the opposite direction'
    elif want not in used:
        yield 'volatile', fn.l, fn, 'accesses the field outside the volatile field protocol (%s)' % want.split('::')[-1]


def lookup(m, fn, called, what):
    s, v = 'getStatic' + what, 'get' + what
    if isstatic(m):
        if v in called or s not in called:
            yield 'lookup', fn.l, fn, 'a static entry must resolve its id through the static lookup'
    elif s in called or (what == 'Field' and v not in called):
        yield 'lookup', fn.l, fn, 'an instance entry must resolve its id through the instance lookup'


BOX = {'Boolean': 'GcInt', 'Byte': 'GcInt', 'Char': 'GcInt', 'Short': 'GcInt', 'Int': 'GcInt', 'Float': 'GcInt', 'Long': 'GcLong',
       'Double': 'GcLong'}


def t_call(P, name, m, fn, fs, called):
    st, T, form = m.group(1), m.group(2), m.group(3)
    want, other = ('invokeArray', 'invokeList') if form == 'A' else ('invokeList', 'invokeArray')
    if want not in called:
        yield 'invoke', fn.l, fn, 'never reaches the %s call' % want
    if other in called:
        yield 'invoke2', fn.l, fn, 'reaches the %s call, which reads its arguments in the other form' % other
    yield from lookup(m, fn, called, 'Method')
    boxes = set()
    for f in fs:
        for i, n in f.calls():
            if n.get('fn') in ('vm::cast',) or n.get('fn', '').endswith('::value'):
                t = n.get('fn').split('::')[-2] if n.get('fn', '').endswith('::value') else None
                if t in ('GcInt', 'GcLong'):
                    boxes.add(t)
    b = BOX.get(T)
    if b is None and boxes:
        yield 'box', fn.l, fn, 'reads a boxed primitive (%s)' % ', '.join(sorted(boxes))
    if b is not None and boxes != {b}:
        yield 'box', fn.l, fn, 'reads the result from %s instead of %s' % (', '.join(sorted(boxes)) or 'nothing', b)
    if T == 'Float' and 'bitsToFloat' not in called or T == 'Double' and 'bitsToDouble' not in called:
        yield 'bits', fn.l, fn, 'the result is not converted back from its bit pattern'
    if T not in ('Float', 'Double') and called & {'bitsToFloat', 'bitsToDouble'}:
        yield 'bits2', fn.l, fn, 'an integral result is reinterpreted as floating point'
    # the instance argument of the processor call
    for f in fs:
        for i, n in f.calls():
            if n['k'] == 'Call' and n.get('fn', '').split('::')[-1] in ('invokeList', 'invokeArray') and len(n.get('c', ())) > 3:
                from rules.gcroots import null_expr
                isnull = null_expr(f, n['c'][3])
                if isnull != (st == 'Static'):
                    yield 'this', n['l'], f, 'the receiver passed on is %snull' % ('' if isnull else 'not ')


def memcpys(f):
    for i, n in f.calls():
        if n['k'] == 'Call' and n.get('fn') in ('memcpy', 'memmove', 'std::memcpy') and len(n.get('c', ())) == 3:
            yield i, n


def sizeof_factor(f, i):
    """product of the constant factors of a size expression"""
    i = f.strip(i)
    n = f.x[i]
    if n['k'] in ('SizeOf', 'Int') and 'cv' in n:
        return n['cv']
    if n['k'] == 'Bin' and n['op'] == '*':
        a, b = (sizeof_factor(f, c) for c in n['c'])
        return (a or 1) * (b or 1)
    if n['k'] == 'Bin' and n['op'] == '<<' and f.x[f.strip(n['c'][1])].get('cv') is not None:
        return (sizeof_factor(f, n['c'][0]) or 1) << f.x[f.strip(n['c'][1])]['cv']
    if n['k'] == 'Ref' and n.get('dk') == 'v':
        # a local assigned once
        ds = [init for m in f.x if m['k'] == 'Decl' for v, init in m['vars'] if v == n['v'] and init >= 0]
        as_ = [m for m in f.x if m['k'] in ('Asg', 'CAsg') and f.x[f.strip(m['c'][0])].get('v') == n['v'] and f.x[f.strip(m['c'][0])]['k'] == 'Ref']
        if len(ds) == 1 and not as_:
            return sizeof_factor(f, ds[0])
    return None


def from_param(f, i):
    """index of the parameter whose value expression i is derived from by casts only"""
    n = f.x[f.strip(i)]
    if n['k'] == 'Ref' and n.get('dk') == 'v' and n['v'] in f.params:
        return f.params.index(n['v'])
    return None


def t_region(P, name, m, fn, fs, called):
    get, T = m.group(1) == 'Get', m.group(2)
    for f in fs:
        if f is not fn:
            continue
        for i, n in memcpys(f):
            d, s, sz = n['c']
            buf = len(f.params) - 1
            if from_param(f, d if get else s) != buf:
                yield 'direction', n['l'], f, 'copies in the wrong direction'
            k = sizeof_factor(f, sz)
            if k != PRIM[T][1]:
                yield 'size', n['l'], f, 'copies %s bytes per element instead of %d' % (k, PRIM[T][1])


def t_elements(P, name, m, fn, fs, called):
    get, T = m.group(1) == 'Get', m.group(2)
    sizes = set()
    for i, n in memcpys(fn):
        d, s, sz = n['c']
        k = sizeof_factor(fn, sz)
        if k is not None and k != PRIM[T][1]:
            yield 'size', n['l'], fn, 'copies %s bytes per element instead of %d' % (k, PRIM[T][1])
        if not get and from_param(fn, s) != 2:
            yield 'direction', n['l'], fn, 'does not copy back from the buffer'
    for i, n in fn.calls():
        if n.get('fn', '').endswith('Heap::allocate') or n.get('fn', '').endswith('Heap::free') or \
                n.get('fn', '').split('::')[-1] in ('allocate', 'free'):
            k = sizeof_factor(fn, n['c'][-1])
            if k is not None and k != PRIM[T][1]:
                yield 'alloc', n['l'], fn, '%s uses %s bytes per element instead of %d' % (n['fn'].split('::')[-1], k, PRIM[T][1])


def t_newarray(P, name, m, fn, fs, called):
    T = m.group(1)
    made = set()
    for n in fn.x:
        if n['k'] == 'Ref' and n.get('dk') == 'f' and re.match(r'vm::make\w+Array$', n.get('fn', '')):
            made.add(n['fn'][len('vm::make'):-len('Array')])
    for x in made:
        if x != T:
            yield 'maker', fn.l, fn, 'creates a %s array' % x


def const_of(f, i, env):
    """value of an expression when the variables of env have the given constants"""
    i = f.strip(i)
    n = f.x[i]
    if 'cv' in n:
        return n['cv']
    k = n['k']
    if k == 'Ref' and n.get('dk') == 'v':
        return env.get(n['v'])
    if k == 'Un' and n['op'] == '!':
        v = const_of(f, n['c'][0], env)
        return None if v is None else int(not v)
    if k == 'Call' and n.get('fn') == '__builtin_expect':
        return const_of(f, n['c'][0], env)
    if k == 'Bin':
        a, b = const_of(f, n['c'][0], env), const_of(f, n['c'][1], env)
        op = n['op']
        if op == '&&' and (a == 0 or b == 0):
            return 0
        if op == '||' and ((a is not None and a != 0) or (b is not None and b != 0)):
            return 1
        if a is None or b is None:
            return None
        try:
            return {'==': lambda: int(a == b), '!=': lambda: int(a != b), '<': lambda: int(a < b), '>': lambda: int(a > b),
                    '<=': lambda: int(a <= b), '>=': lambda: int(a >= b), '&': lambda: a & b, '|': lambda: a | b,
                    '&&': lambda: int(bool(a and b)), '||': lambda: int(bool(a or b)), '+': lambda: a + b, '-': lambda: a - b}[op]()
        except KeyError:
            return None
    return None


def reach_with(f, env):
    """blocks reachable when the (never assigned) variables of env have constant values"""
    seen, st = {f.entry}, [f.entry]
    while st:
        b = st.pop()
        bl = f.b[b]
        succ = bl['s']
        c = bl.get('lc', bl.get('tc', -1))
        if bl.get('t') == 'SwitchStmt':
            v = const_of(f, bl['tc'], env) if bl.get('tc', -1) >= 0 else None
            if v is not None:
                hit = [s for s in succ if s >= 0 and f.b[s].get('case') is not None and v in ([f.b[s]['case']] if not isinstance(f.b[s]['case'], list) else f.b[s]['case'])]
                if hit:
                    succ = hit
        elif len(succ) == 2 and c is not None and c >= 0:
            v = const_of(f, c, env)
            if v is not None:
                succ = [succ[0] if v else succ[1]]
        for s in succ:
            if s >= 0 and s not in seen:
                seen.add(s)
                st.append(s)
    return seen


def modes(res, P):
    res.rule('Releasing array elements with mode 0 copies back and frees, with JNI_COMMIT (1) copies back and keeps, with JNI_ABORT (2) frees '
             'without copying (branch conditions evaluated for each constant).')
    slots = slot_functions(P)
    for T in PRIM:
        f = slots.get('Release%sArrayElements' % T)
        if f is None:
            continue
        mode = f.params[3]
        for v, wantcopy, wantfree in ((0, True, True), (1, True, False), (2, False, True)):
            r = reach_with(f, {mode: v})
            copy = free = False
            for b in r:
                for e in f.b[b]['e']:
                    if isinstance(e, int) and f.x[e]['k'] == 'Call':
                        nm = f.x[e].get('fn', '').split('::')[-1]
                        copy |= nm in ('memcpy', 'memmove')
                        free |= nm == 'free'
            res.count('release modes evaluated', floor=20)
            allcopy = any(True for _ in memcpys(f))
            if allcopy and copy != wantcopy:
                res.bad('jni-mode|%s|%d|copy' % (T, v), rel(f.file), f.l, f.n, 'mode %d %s back to the array' % (v, 'copies' if copy else 'does not copy'))
            if free != wantfree:
                res.bad('jni-mode|%s|%d|free' % (T, v), rel(f.file), f.l, f.n, 'mode %d %s the buffer' % (v, 'frees' if free else 'does not free'))
