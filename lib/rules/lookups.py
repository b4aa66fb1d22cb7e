"""Java classes, methods and fields that C++ code looks up by name."""
import re
import build, jclass, prog
from prog import AnalysisBroken, rel
from rules.natives import java_types

EXEMPT = {
    'foo/ClassName': 'example in a comment-like debugging aid that is never called',
}
DESC = re.compile(r'^\([^)]*\)(\[*([ZBCSIJFDV]|L[\w/$]+;))$|^\[*([ZBCSIJFD]|L[\w/$]+;)$')
CLS = re.compile(r'^[a-z]\w*(/[\w$]+)+$')


class Lib:
    def __init__(self, C, rt):
        self.C, self.rt = C, rt

    def cls(self, n):
        if n in self.C:
            return self.C[n]
        if self.rt:
            return jclass.rt([n]).get(n)

    def member(self, cname, name, desc, seen=None):
        """True/False/None(unknown)"""
        c = self.cls(cname)
        if c is None:
            return None
        if any(m.name == name and m.desc == desc for m in c.methods) or any(f.name == name and f.desc == desc for f in c.fields):
            return True
        for s in ([c.super] if c.super else []) + c.ifaces:
            if self.member(s, name, desc):
                return True
        return False

    def anywhere(self, name, desc):
        return any(m.name == name and m.desc == desc for c in self.C.values() for m in c.methods) or \
            any(f.name == name and f.desc == desc for c in self.C.values() for f in c.fields)


def string(f, i):
    n = f.x[f.strip(i)]
    return n.get('s') if n['k'] == 'Str' else None


def class_of(P, JT, f, i, depth=0):
    """names of the Java classes expression i may denote (a class reference); None when unknown"""
    i = f.strip(i)
    n = f.x[i]
    if n['k'] == 'Cond' and depth < 4:
        a, b = class_of(P, JT, f, n['c'][1], depth + 1), class_of(P, JT, f, n['c'][2], depth + 1)
        return None if a is None or b is None else a | b
    if n['k'] == 'Ref' and n.get('dk') == 'v' and depth < 4:
        vs = f.defs_reaching(i, n['v'])
        if not vs or None in vs:
            return None
        out = set()
        for v in vs:
            if 'cv' in f.x[f.strip(v)]:
                continue
            c = class_of(P, JT, f, v, depth + 1)
            if c is None:
                return None
            out |= c
        return out or None
    if n['k'] in ('Call',):
        base = n.get('fn', '').split('::')[-1]
        cs = n.get('c', ())
        if base in ('FindClass', 'resolveClass', 'resolveSystemClass', 'FindClass', 'findClass') or 'fe' in n:
            ss = [string(f, c) for c in cs if string(f, c)]
            ss = [s for s in ss if CLS.match(s)]
            return set(ss) if len(ss) == 1 else None
        if base == 'type':
            for c in cs:
                m = f.x[f.strip(c)]
                d = m.get('d', '')
                if d.startswith('vm::Gc') and d.endswith('::Type'):
                    j = JT.get(d[:-6])
                    return {j} if j else None
        if base == 'cast':
            return class_of(P, JT, f, cs[-1], depth + 1)
    return None


def check(res, tier):
    res.rule('Every class, method and field that native code looks up by name exists in the class library with that descriptor.')
    JT = java_types()
    avian = Lib(jclass.load(build.classes()), False)
    oj = Lib(jclass.load(build.openjdk_classes()), True)
    A, O = prog.world('jit'), prog.world('openjdk')
    both = {f.m for f in A.funcs.values()} & {f.m for f in O.funcs.values()}
    for w, P, L in (('avian', A, avian), ('openjdk', O, oj)):
        for f in P.funcs.values():
            if w == 'openjdk' and f.m in both:
                continue
            site(res, P, L, JT, f, w)
    typed_members(res, A, avian)


def site(res, P, L, JT, f, w):
    for i, n in f.calls():
        cs = n.get('c', ())
        ss = [(c, string(f, c)) for c in cs]
        if not any(s for c, s in ss):
            continue
        base = n.get('fn', '').split('::')[-1]
        if 'fe' in n:
            e = f.x[f.strip(n['fe'])]
            base = e.get('d', '').split('::')[-1]
        if base in ('strcmp', 'strncmp', 'fprintf', 'snprintf', 'append', 'find', 'logTrace'):
            continue
        strs = [s for c, s in ss if s]
        at = (rel(f.file), n['l'], f.n)
        desc = [s for s in strs if DESC.match(s)]
        if base in ('resolveMethod', 'resolveField', 'findMethodOrNull', 'findFieldOrNull', 'invoke', 'GetMethodID', 'GetStaticMethodID', 'GetFieldID',
                    'GetStaticFieldID', 'findMethod', 'resolveObjectMethod') and len(strs) >= 2:
            d = strs[-1] if DESC.match(strs[-1]) else None
            if d is None:
                if base.startswith('Get') or base.startswith('resolve'):
                    res.bad('lookup-desc|%s|%s' % (f.n, strs[-1]), *at, 'the descriptor "%s" given to %s is malformed' % (strs[-1], base))
                continue
            name = strs[-2]
            if len(strs) >= 3:
                cn = {strs[-3]}
            else:
                cn = None
                for c in cs:
                    cc = class_of(P, JT, f, c)
                    if cc:
                        cn = cc
                        break
            res.count('member lookups by name (%s)' % w, floor=8)
            if cn and cn & set(EXEMPT):
                continue
            if cn:
                for c in cn:
                    r = L.member(c, name, d)
                    if r is None:
                        res.bad('lookup-class|' + c, *at, 'looks up %s%s in %s, which the class library does not contain' % (name, d, c))
                    elif r is False:
                        res.bad('lookup|%s.%s%s' % (c, name, d), *at, 'looks up %s.%s%s, which does not exist' % (c.replace('/', '.'), name, d))
            elif w == 'avian' and not L.anywhere(name, d) and name != 'main':
                res.bad('lookup|%s%s' % (name, d), *at, 'looks up %s%s, which no class of the library has' % (name, d))
            continue
        for s in strs:
            if CLS.match(s) and base in ('FindClass', 'resolveClass', 'resolveSystemClass', 'throwNew', 'throwNewErrno', 'newObject', 'bootJavaClass', 'ThrowNew'):
                if s in EXEMPT:
                    continue
                res.count('class lookups by name (%s)' % w, floor=8)
                if L.cls(s) is None:
                    res.bad('lookup-class|' + s, *at, 'names the class %s, which the class library does not contain' % s.replace('/', '.'))


PRIMNAME = {'Z': 'Boolean', 'B': 'Byte', 'C': 'Char', 'S': 'Short', 'I': 'Int', 'J': 'Long', 'F': 'Float', 'D': 'Double', 'V': 'Void'}


def idvar(f, i):
    """the variable (local or global) an expression names"""
    n = f.x[f.strip(i)]
    if n['k'] == 'Ref':
        return ('l', f.m, n['v']) if n.get('dk') == 'v' else ('g', n.get('d'))
    return None


def typed_members(res, P, L):
    """field and method ids obtained by name are used with the accessor of their declared type"""
    res.rule('A field or method id obtained from a descriptor is used only with the accessor of that type.')
    ids = {}
    for f in P.funcs.values():
        if not rel(f.file).startswith('classpath/'):
            continue
        for i, n in enumerate(f.x):
            pairs = []
            if n['k'] == 'Asg':
                pairs.append((idvar(f, n['c'][0]), n['c'][1]))
            elif n['k'] == 'Decl':
                pairs += [(('l', f.m, vi), e) for vi, e in n.get('vars', ()) if e >= 0]
            for v, e in pairs:
                c = f.x[f.strip(e)]
                b = c.get('fn', '').split('::')[-1] if c['k'] == 'Call' else ''
                if b in ('GetFieldID', 'GetStaticFieldID', 'GetMethodID', 'GetStaticMethodID'):
                    d = string(f, c['c'][-1])
                    if d and v:
                        ids.setdefault(v, set()).add((b, d))
    for f in P.funcs.values():
        if not rel(f.file).startswith('classpath/'):
            continue
        for i, n in f.calls():
            b = n.get('fn', '').split('::')[-1]
            m = re.match(r'^(Get|Set)(Static)?(Object|Boolean|Byte|Char|Short|Int|Long|Float|Double)Field$', b)
            k = re.match(r'^Call(Static)?(Object|Boolean|Byte|Char|Short|Int|Long|Float|Double|Void)Method[AV]?$', b)
            if not (m or k):
                continue
            for c in n.get('c', ()):
                v = idvar(f, c)
                if v in ids:
                    for g, d in ids[v]:
                        res.count('typed uses of looked-up members', floor=5)
                        r = d[d.index(')') + 1:] if '(' in d else d
                        want = PRIMNAME.get(r, 'Object')
                        have = (m or k).group(3 if m else 2)
                        static = bool((m or k).group(2 if m else 1))
                        if want != have or static != ('Static' in g) or bool(m) != ('Field' in g):
                            res.bad('lookup-use|%s|%s' % (f.n, d), rel(f.file), n['l'], f.n, 'uses %s with an id obtained by %s for descriptor %s' % (b, g, d))
