"""Java native methods and the C++ functions that implement them: existence, parameter and result agreement, argument slots."""
import os, re
import build, jclass, prog
from build import REPO
from prog import AnalysisBroken, rel

# declared natives without an implementation, confirmed by reading: dead code inherited from Android's library, never called on Avian
NO_IMPL = {
    'libcore/reflect/AnnotationAccess': 'Android-only package: no class of the Avian class library refers to it',
    'dalvik/system/BaseDexClassLoader': 'Android-only class: no class of the Avian class library refers to it',
}


def mangle(s):
    o = []
    for ch in s:
        o.append({'/': '_', '_': '_1', ';': '_2', '[': '_3'}.get(ch) or (ch if ch.isalnum() and ord(ch) < 128 else '_0%04x' % ord(ch)))
    return ''.join(o)


def implementations(P):
    out = {}
    for f in P.funcs.values():
        b = f.n.split('::')[-1]
        if b.startswith(('Avian_', 'Java_')):
            out[b] = f
    return out


def java_types():
    """{Gc record: java class} from the VM's type definitions"""
    out = {}
    with open(os.path.join(REPO, 'src', 'types.def')) as f:
        for l in f:
            m = re.match(r'\(type (\w+) ([\w/$]+)', l)
            if m:
                n = m.group(1)
                out['vm::Gc' + n[0].upper() + n[1:]] = m.group(2)
    if len(out) < 60:
        raise AnalysisBroken('type definitions not readable')
    return out


JT = {'Z': ('unsigned char',), 'B': ('signed char',), 'C': ('unsigned short',), 'S': ('short',), 'I': ('int',), 'J': ('long',),
      'F': ('float',), 'D': ('double',), 'V': ('void',)}
SIZES = {'Z': 1, 'B': 1, 'C': 2, 'S': 2, 'I': 4, 'J': 8, 'F': 4, 'D': 8}
CSIZE = {'bool': 1, 'signed char': 1, 'unsigned char': 1, 'char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'long': 8,
         'unsigned long': 8, 'float': 4, 'double': 8}
JREF = {'Ljava/lang/String;': ('_jstring',), 'Ljava/lang/Class;': ('_jclass',), '[Z': ('_jbooleanArray',), '[B': ('_jbyteArray',),
        '[C': ('_jcharArray',), '[S': ('_jshortArray',), '[I': ('_jintArray',), '[J': ('_jlongArray',), '[F': ('_jfloatArray',),
        '[D': ('_jdoubleArray',)}


def jni_ok(desc, ct):
    """may a JNI function declare a parameter of Java type desc with C++ type ct?"""
    ct = ct.replace('const ', '').strip()
    if desc in JT:
        return ct in JT[desc]
    if not ct.endswith('*'):
        return False
    b = ct[:-1].strip()
    if b in ('_jobject', 'void'):
        return True
    if b == '_jthrowable':
        return desc[0] == 'L'
    if desc in JREF:
        return b in JREF[desc] or (desc[0] == '[' and b == '_jarray')
    if desc[0] == '[':
        return b in ('_jarray', '_jobjectArray')
    return b == '_jobject'


def up(f, i):
    """(first non-cast ancestor, casts on the way, innermost first)"""
    path = []
    p = f.parents.get(i)
    while p and f.x[p[0]]['k'] == 'Cast':
        if f.x[p[0]].get('ck') not in ('LValueToRValue', 'NoOp'):
            path.append((f.x[p[0]].get('ck'), f.type(p[0])))
        p = f.parents.get(p[0])
    return (p[0] if p else None), path


def const(f, i):
    n = f.x[f.strip(i)]
    return int(n['cv']) if 'cv' in n else (int(f.x[i]['cv']) if 'cv' in f.x[i] else None)


def slot_of(f, i, a):
    """constant k when expression i is `arguments + k`"""
    i = f.strip(i)
    n = f.x[i]
    if n['k'] == 'Ref' and n.get('dk') == 'v' and n['v'] == a:
        return 0
    if n['k'] == 'Bin' and n['op'] == '+':
        l, r = n['c']
        for x, y in ((l, r), (r, l)):
            b = slot_of(f, x, a)
            k = const(f, y)
            if b is not None and k is not None:
                return b + k
    if n['k'] == 'Un' and n['op'] == '&':
        m = f.x[f.strip(n['c'][0])]
        if m['k'] == 'Idx':
            b = slot_of(f, m['c'][0], a)
            k = const(f, m['c'][1])
            if b is not None and k is not None:
                return b + k
    return None


def vartype_of_address(f, i):
    i = f.strip(i)
    n = f.x[i]
    if n['k'] == 'Un' and n['op'] == '&':
        return f.type(n['c'][0])
    return None


def uses(P, f, a, off=0, depth=0, seen=None):
    """[(slot, kind, detail, function, line)] of the reads of the argument array held in variable a of f.
    kind: ref | int (detail: C type) | word | wide (detail: C type) | float"""
    out = []
    seen = seen if seen is not None else set()
    if (f.m, a, off) in seen or depth > 4:
        return out
    seen.add((f.m, a, off))
    for i, n in enumerate(f.x):
        if n['k'] == 'Idx' and slot_of(f, n['c'][0], a) is not None:
            k = const(f, n['c'][1])
            if k is None:
                out.append((None, 'variable', '', f, n['l']))
                continue
            out.append((off + slot_of(f, n['c'][0], a) + k,) + kind_of(P, f, i) + (f, n['l']))
        elif n['k'] == 'Un' and n['op'] == '*' and slot_of(f, n['c'][0], a) is not None:
            out.append((off + slot_of(f, n['c'][0], a),) + kind_of(P, f, i) + (f, n['l']))
        elif n['k'] == 'Call' and n.get('c'):
            base = n.get('fn', '').split('::')[-1]
            args = n['c'][1:] if n.get('obj') else n['c']
            for j, x in enumerate(args):
                s = slot_of(f, x, a)
                if s is None:
                    continue
                if base in ('memcpy', 'memmove', '__builtin_memcpy') and len(args) == 3:
                    sz = const(f, args[2])
                    if j == 1:
                        out.append((off + s, 'wide' if sz == 8 else 'part', vartype_of_address(f, args[0]) or '', f, n['l']))
                    continue
                for t in P.targets(f, n) or ():
                    g = P.funcs.get(t)
                    if g is not None and j < len(g.params):
                        out.extend(uses(P, g, g.params[j], off + s, depth + 1, seen))
    return out


def kind_of(P, f, i):
    p, path = up(f, i)
    for ck, t in path:
        if ck == 'IntegralToPointer' or t.endswith('*'):
            # the most derived object type it is cast to
            t = path[-1][1] if path[-1][1].endswith('*') else t
            cls = t[:-1].strip() if re.match(r'^vm::Gc\w+ \*$', t) else None
            if p is not None and f.x[p]['k'] == 'Call' and f.x[p].get('fn') == 'vm::cast':
                cls = f.type(p).rstrip('*').strip()
            return 'ref', cls or t
        if ck in ('IntegralCast', 'IntegralToBoolean'):
            if any(k == 'IntegralToFloating' for k, _ in path):
                return 'converted', t
            return 'int', t
        if ck == 'IntegralToFloating':
            return 'converted', t
    if p is not None and f.x[p]['k'] == 'Call':
        b = f.x[p].get('fn', '').split('::')[-1]
        if b == 'bitsToFloat':
            return 'float', ''
    return 'word', ''


def check(res, tier):
    C = jclass.load(build.classes())
    P = prog.world('jit')
    judge(res, P, C, True, 'avian')
    P = prog.world('openjdk')
    O = jclass.load(build.openjdk_classes())
    names = set()
    for b in implementations(P):
        if b.startswith('Avian_'):
            x = b[6:].split('__')[0].replace('_1', '\1').split('_')
            for k in range(1, len(x)):
                names.add('/'.join(x[:k]).replace('\1', '_'))
                # nested classes: mangled $
                names.add(re.sub(r'_00024', '$', '/'.join(x[:k])).replace('/00024', '$').replace('\1', '_'))
    R = jclass.rt(names)
    R.update(O)
    judge(res, P, R, False, 'openjdk')


def judge(res, P, C, complete, world):
    res.rule('Every native method declared in the class library has an implementing C++ function under one of the names the VM looks up; its '
             'parameters, argument-array slots and result have the width and kind of the declared Java types.')
    impl = implementations(P)
    JTY = java_types()
    byjava = {}
    for g, j in JTY.items():
        byjava.setdefault(j, set()).add(g)
    live = None
    referred = set()
    for c in C.values():
        for e in c.cp or ():
            if e and e[0] == 'class':
                referred.add((c.name, c.cp[e[1]][1]))
    for c in C.values():
        for m in c.methods:
            if not m.native:
                continue
            b = mangle(c.name) + '_' + mangle(m.name)
            s = b + '__' + mangle(m.desc[1:m.desc.index(')')])
            hits = [n for n in ('Avian_' + b, 'Avian_' + s, 'Java_' + b, 'Java_' + s) if n in impl]
            where = c.name.replace('/', '.') + '.' + m.name + m.desc
            if not hits:
                if not complete:
                    continue
                if c.name in NO_IMPL and not any(t == c.name and not s.startswith(c.name.split('$')[0]) for s, t in referred):
                    continue
                if live is None:
                    live = reachable(P, C)
                if m.id not in live:
                    res.count('declared natives that no library class calls and nothing implements (%s)' % world)
                    continue
                res.bad('native-missing|' + m.id, c.srcfile(), m.line(), where, 'native method without an implementing function: calling it '
                        'always fails with UnsatisfiedLinkError')
                continue
            res.count('native methods bound (%s)' % world, floor=150 if complete else 25)
            overl = [x for x in c.methods if x.native and x.name == m.name]
            for h in hits:
                f = impl[h]
                if h.startswith('Java_'):
                    jni(res, c, m, f, where, overl)
                else:
                    avian(res, P, c, m, f, where, overl, JTY, byjava, C)


def reachable(P, C):
    """library methods that can run: those of the public packages, those named by a string in the VM, and what these call"""
    names = {n.get('s') for f in P.funcs.values() for n in f.x if n['k'] == 'Str'}
    seen, st = set(), []
    byname = {}
    for c in C.values():
        for m in c.methods:
            byname.setdefault((m.name, m.desc), []).append(m)
            if c.name.startswith(('java/', 'javax/')) or m.name in names or m.name == '<clinit>':
                st.append(m)
    while st:
        m = st.pop()
        if m.id in seen:
            continue
        seen.add(m.id)
        for p in m.order:
            a = m.ins[p].arg
            if isinstance(a, tuple) and a and a[0] in ('method', 'imethod', 'handle'):
                if a[0] == 'handle':
                    a = a[2]
                st.extend(byname.get((a[2], a[3]), ()))
    return seen


def jni(res, c, m, f, where, overl):
    res.count('JNI implementations compared with their declaration', floor=85)
    params, ret = m.params(), m.ret()
    ps = [f.vars[p][1] for p in f.params]
    key = 'native-sig|' + m.id
    # the short name serves every overload: it must fit this one
    if len(ps) != 2 + len(params):
        res.bad(key, rel(f.file), f.l, f.n, 'takes %d parameters, %s needs %d (environment, receiver, %d arguments)' % (len(ps), where, 2 + len(params), len(params)))
        return
    if not ps[0].startswith('JNIEnv') or not ps[0].endswith('*'):
        res.bad(key, rel(f.file), f.l, f.n, 'first parameter of %s is %s, not the JNI environment' % (where, ps[0]))
    if not ps[1].endswith('*'):
        res.bad(key, rel(f.file), f.l, f.n, 'second parameter of %s is %s, not a reference' % (where, ps[1]))
    for i, (d, t) in enumerate(zip(params, ps[2:])):
        if not jni_ok(d, t):
            res.bad(key + '|%d' % i, rel(f.file), f.l, f.n, 'parameter %d is %s where %s declares %s' % (i, t, where, d))
    if not jni_ok(ret, f.ret) and not (ret == 'V'):
        res.bad(key + '|ret', rel(f.file), f.l, f.n, 'returns %s where %s declares %s' % (f.ret, where, ret))


def java_super(C, a, b):
    """is Java class a a subclass of (or equal to) b, as far as the library knows?  None: unknown"""
    n = 0
    while a is not None and n < 50:
        if a == b:
            return True
        k = C.get(a)
        if k is None:
            return None
        if b in k.ifaces:
            return True
        a = k.super
        n += 1
    return False


def avian(res, P, c, m, f, where, overl, JTY, byjava, C):
    if len(f.params) != 3 or not f.vars[f.params[2]][1].replace(' ', '').endswith('*'):
        if f.file.endswith(('builtin.cpp', 'classpath-avian.cpp', 'classpath-openjdk.cpp')):
            res.bad('native-sig|' + m.id, rel(f.file), f.l, f.n, 'does not take (thread, method, argument array)')
        return
    res.count('internal natives compared with their declaration', floor=60)
    params = ([] if m.static else ['L' + c.name + ';']) + m.params()
    layout, k = {}, 0
    for i, d in enumerate(params):
        layout[k] = (i, d)
        k += 2 if d in 'JD' else 1
    total = k
    us = uses(P, f, f.params[2])
    # a shared implementation of overloads must fit each of them only where the slots agree; check this one
    for slot, kind, detail, g, line in us:
        if slot is None:
            continue
        res.count('argument slot reads compared', floor=150)
        key = 'native-slot|%s|%s' % (m.id, slot)
        at = (rel(g.file), line, g.n)
        if slot >= total:
            res.bad(key, *at, 'reads argument slot %d; %s has only %d' % (slot, where, total))
            continue
        if slot not in layout:
            res.bad(key, *at, 'reads argument slot %d, the second half of a 64-bit argument of %s' % (slot, where))
            continue
        i, d = layout[slot]
        isref = d[0] in 'L['
        if isref and kind not in ('ref', 'word'):
            res.bad(key, *at, 'reads argument slot %d as %s %s; %s passes a reference (%s) there' % (slot, kind, detail, where, d))
        elif not isref:
            if kind == 'ref':
                if detail.startswith('vm::Gc') or d not in 'J':
                    res.bad(key, *at, 'reads argument slot %d as a reference; %s passes %s there' % (slot, where, d))
            elif kind in ('wide', 'part') and d not in 'JD':
                res.bad(key, *at, 'copies 64 bits from argument slot %d; %s passes a 32-bit %s there' % (slot, where, d))
            elif kind == 'part':
                res.bad(key, *at, 'copies only part of the 64-bit argument slot %d of %s' % (slot, where))
            elif kind == 'wide':
                if detail in CSIZE and CSIZE[detail] != 8:
                    res.bad(key, *at, 'copies the 64-bit argument slot %d into a %s' % (slot, detail))
            elif kind == 'converted':
                if d in 'FD':
                    res.bad(key, *at, 'converts argument slot %d numerically; it holds the bit pattern of the %s passed by %s' % (slot, d, where))
            elif kind == 'int' and d in SIZES:
                w = CSIZE.get(detail)
                if w is not None and w < SIZES[d] and not (detail == 'bool') and not (d == 'C' and detail == 'char'):
                    res.bad(key, *at, 'narrows argument slot %d to %s; %s passes %s' % (slot, detail, where, d))
                if w is not None and w == SIZES[d] and d in 'BSCZ' and c.name != 'sun/misc/Unsafe' and detail.startswith('unsigned') != (d in 'CZ') and detail not in ('bool', 'char'):
                    res.bad(key, *at, 'reads argument slot %d as %s; %s passes %s' % (slot, detail, where, d))
        if isref and kind == 'ref' and detail in JTY and d[0] == 'L' and d[1:-1] in byjava:
            g2 = detail
            dj, cj = d[1:-1], JTY[g2]
            if dj != cj and java_super(C, dj, cj) is False and java_super(C, cj, dj) is False:
                res.bad(key, *at, 'treats argument slot %d as %s; %s passes %s there' % (slot, cj, where, dj))
    # result
    ret = m.ret()
    if f.ret == 'void':
        if ret != 'V' and P.reaches_exit(f, P.noreturn()):
            res.bad('native-ret|' + m.id, rel(f.file), f.l, f.n, 'returns nothing where %s returns %s' % (where, ret))
        return
    if ret == 'V':
        return
    for i, n in enumerate(f.x):
        if n['k'] != 'Return' or not n.get('c'):
            continue
        k = result_kind(f, n['c'][0])
        res.count('results of internal natives compared')
        bad = None
        if ret[0] in 'L[':
            if k in ('int', 'double'):
                bad = 'a number'
        elif ret in 'FD':
            if k in ('ref', 'double'):
                bad = 'a reference' if k == 'ref' else 'a floating-point value converted to an integer instead of its bit pattern'
        elif k == 'ref' and ret != 'J':
            bad = 'a reference'
        elif k == 'double':
            bad = 'a converted floating-point value'
        if bad:
            res.bad('native-ret|' + m.id, rel(f.file), n['l'], f.n, 'returns %s where %s returns %s' % (bad, where, ret))


def result_kind(f, i):
    while True:
        n = f.x[i]
        if 'cv' in n:
            return 'int' if int(n['cv']) != 0 else '?'
        if n['k'] == 'Cast' and n.get('c'):
            j = n['c'][0]
            if n.get('ck') == 'PointerToIntegral':
                return 'ref' if f.type(f.strip(j)).startswith('vm::Gc') else '?'
            if n.get('ck') == 'FloatingToIntegral':
                return 'double'
            if f.type(j) in ('bool', 'int', 'unsigned int', 'short', 'unsigned short', 'signed char', 'unsigned char', 'char') and n.get('ck') == 'IntegralCast':
                return 'int'
            i = j
            continue
        if n['k'] == 'Cond':
            a, b = result_kind(f, n['c'][1]), result_kind(f, n['c'][2])
            return a if a != '?' else b
        return '?'


# ---- arguments handed to a function through vm::run ------------------------
def pointers_agree(P, a, b):
    if a == b or 'void *' in (a, b) or a.replace('const ', '') == b.replace('const ', ''):
        return True
    x, y = a.replace('const ', ''), b.replace('const ', '')
    if x.replace('unsigned', 'signed').replace('signed char', 'char') == y.replace('unsigned', 'signed').replace('signed char', 'char'):
        return True
    m, n = re.match(r'^vm::(Gc\w+) \*( ?\*)?$', x), re.match(r'^vm::(Gc\w+) \*( ?\*)?$', y)
    if m and n and bool(m.group(2)) == bool(n.group(2)):
        p, q = 'vm::' + m.group(1), 'vm::' + n.group(1)
        return P.derives(p, q) or P.derives(q, p) or 'vm::GcObject' in (p, q)
    return '[' in x or '[' in y


def element(f, i):
    """(kind, type) of a value stored into a uintptr_t slot"""
    n = f.x[i]
    while n['k'] == 'Cast' and n.get('c'):
        if n.get('ck') == 'PointerToIntegral':
            return 'ptr', f.type(n['c'][0])
        i = n['c'][0]
        n = f.x[i]
        if n.get('ck') == 'FloatingToIntegral' or f.type(i) in ('float', 'double'):
            return 'converted', f.type(i)
    t = f.type(i)
    if n['k'] == 'Call' and n.get('fn', '').split('::')[-1] == 'floatToBits':
        return 'float', t
    return 'int', t


def handover(res, tier):
    res.rule('A function run through vm::run reads from the argument array only slots that its caller filled, each as the kind of value '
             '(pointer type, integer, 64-bit pair) the caller stored there.')
    for w, floor in (('jit', 100), ('openjdk', 140)):
        P = prog.world(w)
        for f in P.funcs.values():
            for i, n in f.calls():
                if n.get('fn') not in ('vm::run', 'vm::runRaw') or len(n.get('c', ())) != 3:
                    continue
                F = f.x[f.strip(n['c'][1])]
                A = f.x[f.strip(n['c'][2])]
                if F['k'] != 'Ref' or F.get('dk') != 'f' or F['f'] not in P.funcs:
                    continue
                g = P.funcs[F['f']]
                us = uses(P, g, g.params[1])
                name = g.n.split('::')[-1]
                key = 'run-slot|%s|%s' % (f.n.split('::')[-1], name)
                at = (rel(f.file), n['l'], f.n)
                if 'cv' in A or A['k'] in ('Int', 'NullPtr'):
                    if us:
                        res.bad(key, *at, 'passes no arguments, but %s reads slot %s' % (name, us[0][0]))
                    continue
                if A['k'] != 'Ref' or A.get('dk') != 'v':
                    continue
                v = A['v']
                m = re.match(r'^.*\[(\d+)\]$', f.vars[v][1])
                if not m:
                    continue
                size = int(m.group(1))
                res.count('argument arrays compared with the function that reads them (%s)' % w, floor=floor)
                el = {}
                for x in f.x:
                    if x['k'] == 'Decl':
                        for vi, init in x.get('vars', ()):
                            if vi == v and init >= 0:
                                il = f.x[f.strip(init)]
                                if il['k'] in ('InitList', 'InitListExpr'):
                                    for k, e in enumerate(il['c']):
                                        el[k] = element(f, e)
                    elif x['k'] == 'Asg':
                        l = f.x[f.strip(x['c'][0])]
                        if l['k'] == 'Idx' and slot_of(f, l['c'][0], v) == 0:
                            k = const(f, l['c'][1])
                            if k is not None:
                                el[k] = element(f, x['c'][1])
                    elif x['k'] == 'Call' and x.get('fn', '').split('::')[-1] in ('memcpy', '__builtin_memcpy') and len(x['c']) == 3:
                        k = slot_of(f, x['c'][0], v)
                        if k is not None:
                            el[k] = ('wide', vartype_of_address(f, x['c'][1]) or '')
                for slot, kind, detail, h, line in us:
                    if slot is None:
                        continue
                    res.count('argument slots compared with what the caller stored', floor=200)
                    k2 = '%s|%s' % (key, slot)
                    if slot >= size:
                        res.bad(k2, *at, '%s reads slot %d (line %d) of an argument array of %d' % (name, slot, line, size))
                        continue
                    if slot not in el:
                        if any(e == 'wide' and s == slot - 1 for s, (e, _) in el.items()):
                            res.bad(k2, *at, '%s reads slot %d (line %d), the second half of a 64-bit value' % (name, slot, line))
                        elif el:
                            res.bad(k2, *at, '%s reads slot %d (line %d), which the caller leaves unset' % (name, slot, line))
                        continue
                    e, t = el[slot]
                    if e == 'converted':
                        res.bad(k2, *at, 'slot %d receives a %s converted to an integer' % (slot, t))
                    elif kind == 'ref':
                        if e != 'ptr':
                            if not (t in ('long', 'unsigned long')):
                                res.bad(k2, *at, '%s reads slot %d (line %d) as %s; the caller stores a %s' % (name, slot, line, detail, t))
                        else:
                            d = detail if detail.endswith('*') else detail + ' *'
                            if not pointers_agree(P, d, t):
                                res.bad(k2, *at, '%s reads slot %d (line %d) as %s; the caller stores %s' % (name, slot, line, d, t))
                    elif kind in ('int',) and e == 'ptr':
                        res.bad(k2, *at, '%s reads slot %d (line %d) as %s; the caller stores the pointer %s' % (name, slot, line, detail, t))
                    elif kind == 'int' and e == 'int' and detail in CSIZE and t in CSIZE and CSIZE[detail] < CSIZE[t] and not (detail == 'bool'):
                        res.bad(k2, *at, '%s narrows slot %d (line %d) to %s; the caller stores a %s' % (name, slot, line, detail, t))
                    elif kind == 'wide' and e not in ('wide',):
                        if not (t in ('long', 'unsigned long')):
                            res.bad(k2, *at, '%s copies 64 bits from slot %d (line %d); the caller stores a single word' % (name, slot, line))
                    elif kind == 'wide' and e == 'wide' and detail and t and detail.split()[-1] != t.split()[-1] and \
                            {detail, t} & {'double', 'float'}:
                        res.bad(k2, *at, '%s copies slot %d (line %d) into a %s; the caller stores a %s' % (name, slot, line, detail, t))
                    elif kind == 'converted':
                        res.bad(k2, *at, '%s converts slot %d (line %d) numerically instead of taking its bits' % (name, slot, line))
