"""V01: accesses of volatile fields are ordered, whichever way they are made"""
import os
import re
import subprocess
import tempfile
import build
import prog
from absint import Eval, St, TooComplex, strip_casts
from prog import AnalysisBroken, rel
from rules import interp, jit, jitops
from rules.exceptions import Ex
from rules.interp import A, PTR
from rules.runtime import simp

VOLATILE, FINAL = 0x40, 0x10
FULL = {'storeLoadMemoryBarrier', 'memoryBarrier', 'StoreLoadBarrier', 'release', 'acquire'}
BEFORE = FULL | {'storeStoreMemoryBarrier', 'StoreStoreBarrier'}
LOAD = FULL | {'loadMemoryBarrier', 'LoadBarrier'}
BARRIERS = {'storeStoreMemoryBarrier', 'storeLoadMemoryBarrier', 'loadMemoryBarrier', 'memoryBarrier'}
RESOURCES = ('FieldReadResource', 'FieldWriteResource')


def base(fn):
    return fn.split('::')[-1].split('<')[0]


def verdict(kind, ev):
    """what is wrong with the order of the events of an access; None when nothing is"""
    acc = [k for k, e in enumerate(ev) if e[0] == 'access']
    if not acc:
        return None
    after = {e[1] for e in ev[acc[-1] + 1:] if e[0] == 'barrier'}
    before = {e[1] for e in ev[:acc[0]] if e[0] == 'barrier'}
    if kind == 'read':
        return None if after & LOAD else 'must order the read before what follows'
    if not before & BEFORE:
        return 'must order the write after what precedes'
    if kind != 'ordered' and not after & FULL:
        return 'must order the write before the reads that follow'
    return None


class Vm(Ex):
    """records accesses of fields and barriers; every field is volatile"""

    def __init__(self, P, g, files, truth=None, code=0):
        Ex.__init__(self, P, g, {}, truth or {})
        self.files = files
        self.code = code
        self.sum = {}

    def inline(self, g):
        n = g.n.split('::')[-1]
        return g is not self.g and (g.file.endswith(self.files) and len(g.x) < 900 or g.file.endswith('/machine.h') and (n.endswith(('FieldForRead', 'FieldForWrite')))) and \
            not n.startswith(('resolve', 'initClass', 'make'))

    def call(self, ev, st, f, i, fn, a):
        n = f.x[i]
        last = base(fn)
        e = st.x.setdefault('ev', [])
        if last in BARRIERS:
            e.append(('barrier', last))
            return ('void',)
        if n['k'] == 'Ctor' and last in RESOURCES:
            e += resource(self.P, last, False)
            return ('guard', last)
        if fn == 'vm::GcField::flags':
            return ('c', VOLATILE)
        if fn == 'vm::GcField::code':
            return ('c', self.code)
        if last in ('acquire', 'release') and len(a) == 2:
            e.append(('barrier', last))
            return ('void',)
        if last.startswith('atomicCompareAndSwap') or fn.startswith('__sync_') and 'compare_and_swap' in fn:
            L = lambda k: simp(ev.load(f, n['c'][k], st, a[k])) if a[k][0] == 'lv' else simp(a[k])
            e.append(('cas', last, a[0], L(1), L(2)))
            return ('v', 'cas', len(e))
        if last == 'mark':
            e.append(('mark',))
            return ('void',)
        r = Ex.call(self, ev, st, f, i, fn, a)
        if last in ('fieldAtOffset', 'setField') and not named(a):
            e.append(('access', last, 'write' if last == 'setField' or assigned(f, i) else 'read'))
        return r

    def dtor(self, ev, st, f, e):
        c = e.get('fn', '').replace('~', '').split('::')
        for r in RESOURCES:
            if r in c:
                st.x.setdefault('ev', []).extend(resource(self.P, r, True))


def named(a):
    """an access of a field the VM itself looked up by name"""
    return any("'str'" in repr(x) for x in a)


_res = {}


def resource(P, name, leaving):
    """barriers that taking or giving up a resource executes for a volatile field"""
    k = (id(P), name, leaving)
    if k not in _res:
        _res[k] = []
        want = ('~' if leaving else '') + name
        fs = [g for g in P.funcs.values() if g.n.split('::')[-1] == want and g.b]
        if not fs:
            raise AnalysisBroken('%s was not found' % want)
        g = fs[0]
        kinds = None
        for code in {v for e in P.enums.values() if 'ObjectField' in e and 'ByteField' in e for n, v in e.items() if n.endswith('Field')}:
            m = Vm(P, g, (), code=code)
            for st, q, v in Eval(P, m).run(g, [A('t', PTR), A('field', PTR)], this=A('res', PTR)):
                if q == 'return':
                    b = [e for e in st.x.get('ev', []) if e[0] == 'barrier']
                    kinds = b if kinds is None or len(b) < len(kinds) else kinds
        _res[k] = kinds or []
    return _res[k]


def evaluate(res, P, g, files, args, truth=None, code=0, this=None):
    try:
        outs = Eval(P, Vm(P, g, files, truth, code)).run(g, args, this=this)
    except TooComplex:
        res.count('cases too complex to evaluate')
        return []
    return [(st.x.get('ev', []), v) for st, k, v in outs if k == 'return']


def access(f, i):
    """whether call i accesses a field at the offset that a field descriptor names"""
    n = f.x[i]
    return n['k'] == 'Call' and base(n.get('fn', '')) in ('fieldAtOffset', 'setField') and \
        any(f.x[j].get('fn') == 'vm::GcField::offset' for c in n.get('c', ())[1:] for j in f.sub(c))


def descriptors(res, P, skip, done):
    """C++ functions that access a field through its descriptor"""
    takes = lambda g: any('GcField' in g.vars[p][1] for p in g.params)
    S = {g.m for g in P.funcs.values() if g.b and any(access(g, i) for i, n in g.calls())}
    if len(S) < 30:
        raise AnalysisBroken('the functions that access fields were not found')
    roots, work, seen = set(), list(S), set(S)
    callers = {}
    for g in P.funcs.values():
        for i, n in g.calls():
            if 'f' in n:
                callers.setdefault(n['f'], set()).add(g.m)
    while work:
        m = work.pop()
        g = P.funcs[m]
        if not takes(g):
            roots.add(m)
            continue
        for q in callers.get(m, ()):
            if q not in seen and q in P.funcs:
                seen.add(q)
                work.append(q)
    codes = sorted({v for e in P.enums.values() if 'ObjectField' in e and 'ByteField' in e for n, v in e.items() if n.endswith('Field') and n != 'VoidField'})
    for m in sorted(roots):
        g = P.funcs[m]
        if g is skip or m in done:
            continue
        done.add(m)
        wrong = {}
        hit = False
        for code in codes if len(g.x) < 3000 else codes[:1]:
            for ev, v in evaluate(res, P, g, (os.path.basename(g.file),), [A(g.vars[p][0], PTR) for p in g.params], code=code):
                acc = [k for k, e in enumerate(ev) if e[0] == 'access']
                if not acc:
                    continue
                hit = True
                kind = ev[acc[-1]][2]
                w = verdict(kind, ev)
                if w:
                    wrong[w] = g
        if hit:
            res.count('functions that access fields by descriptor evaluated', floor=30)
        for w in wrong:
            res.bad('volatile|%s|%s' % (g.n, w), rel(g.file), g.l, g.n, w + ' when the field is volatile')


def assigned(f, i):
    """whether the reference that call i returns is written through"""
    while True:
        ps = f.parents.get(i, ())
        if not ps:
            return False
        p = ps[0]
        n = f.x[p]
        if n['k'] in ('Asg', 'CAsg'):
            return f.x[p]['c'][0] == i
        if n['k'] not in ('Cast', 'Paren', 'Bind'):
            return False
        i = p


UNSAFE = re.compile(r'Avian_sun_misc_Unsafe_(get|put|putOrdered|compareAndSwap)(Object|Boolean|Byte|Char|Short|Int|Long|Float|Double)(Volatile)?$')
REFLECT = re.compile(r'Avian_java_lang_reflect_Field_(get|set)(Primitive|Object)$')


def natives(res, P):
    """built-in methods that give Java code access to fields"""
    found = {}
    for g in P.funcs.values():
        n = g.n.split('::')[-1]
        m = UNSAFE.match(n)
        if m and g.b and (m.group(1) in ('putOrdered', 'compareAndSwap') or m.group(3)):
            found[n] = (g, {'get': 'read', 'put': 'write', 'putOrdered': 'ordered', 'compareAndSwap': 'cas'}[m.group(1)])
        m = REFLECT.match(n)
        if m and g.b:
            found[n] = (g, 'read' if m.group(1) == 'get' else 'write')
    if len(found) < 24:
        raise AnalysisBroken('the built-in field access methods were not found')
    codes = sorted({v for e in P.enums.values() if 'ObjectField' in e and 'ByteField' in e for n, v in e.items() if n.endswith('Field') and n != 'VoidField'})
    for n, (g, kind) in sorted(found.items()):
        for code in codes if 'Primitive' in n else codes[:1]:
            truth = {'call:memcpy': lambda ev, st, f, c, a, v: ('void',)}
            if 'Primitive' in n:
                truth = None
            outs = evaluate(res, P, g, ('/builtin.cpp', '/classpath-common.h', os.path.basename(g.file)), [A('t', PTR), A('m', PTR), A('arguments', PTR)], truth, code)
            if not any(e[0] in ('access', 'cas') for ev, v in outs for e in ev):
                res.bad('volatile|%s|none' % n, rel(g.file), g.l, g.n, 'must access the field')
                break
            res.count('built-in field access methods evaluated', floor=24)
            for ev, v in outs:
                if kind == 'cas':
                    cas = [e for e in ev if e[0] == 'cas']
                    if len(cas) != 1:
                        res.bad('volatile|%s|cas' % n, rel(g.file), g.l, g.n, 'must compare and set the field in one atomic step')
                    continue
                w = verdict(kind, ev)
                if w:
                    res.bad('volatile|%s|%s' % (n, w), rel(g.file), g.l, g.n, w)


def compiled(res, P):
    """getfield, putfield, getstatic, putstatic and the return of constructors, as the JIT translates them"""
    f, d = jit.find(P)
    ops = interp.opcode_enum(P)
    blocks = interp.case_blocks(f, d)
    names = jit.Names(P)
    done = set()
    for c in jitops.cases(P):
        if c.op not in ('getfield', 'getstatic', 'putfield', 'putstatic', 'return_') or c.scen.get('resolved') is False:
            continue
        b = blocks[ops[c.op]]
        sc = jitops.scenario(P, ops, c)
        sc['flags'] = sc.get('flags', 0) | VOLATILE
        sc['barrier'] = 1
        sc['vmflags'] = sc.get('vmflags', 0) | jitops.constant('HasFinalMemberFlag') | jitops.constant('ConstructorFlag') if c.op == 'return_' else sc.get('vmflags', 0)
        try:
            outs = jit.evaluate(P, names, f, d, b, sc)
        except TooComplex:
            res.count('cases too complex to evaluate')
            continue
        op = c.op.rstrip('_')
        for o in outs:
            if o.kind != c.want.end:
                continue
            ev = []
            for e in o.eff:
                if e[0] == 'nullaryOp':
                    ev.append(('barrier', e[1]))
                elif e[0] == 'load' and op.startswith('get') or e[0] == 'put' and op.startswith('put') or e[0] == 'return_':
                    ev.append(('access',))
                elif e[0] == 'called' and e[2][0] == 'thunk' and e[2][1] in ('setObjectThunk', 'setMaybeNullThunk') and op.startswith('put'):
                    ev.append(('access',))
            if not any(e[0] == 'access' for e in ev):
                continue
            res.count('translations of field accesses evaluated', floor=40)
            if op == 'return':
                k = next(k for k, e in enumerate(ev) if e[0] == 'access')
                w = None if {e[1] for e in ev[:k] if e[0] == 'barrier'} & BEFORE else 'must order the final fields of a new object before the constructor returns'
            else:
                w = verdict('read' if op.startswith('get') else 'write', ev)
            if w and (op, w) not in done:
                done.add((op, w))
                res.bad('volatile|jit|%s|%s' % (op, w), rel(f.file), interp.first_line(f, b), '%s of the JIT compiler' % op, w + ('' if op == 'return' else ' (%s)' % c.label))


Plain = interp.Interp


class Vi(Plain):
    """the interpreter, with every field volatile and every method a constructor of a class with final fields"""

    def call(self, ev, st, f, i, fn, a):
        n = f.x[i]
        last = base(fn)
        if n['k'] == 'Ctor' and last in RESOURCES:
            st.eff += resource(self.P, last, False)
            return ('guard', last)
        if fn == 'vm::GcField::flags':
            return ('c', VOLATILE | (8 if self.static else 0))
        if fn in ('vm::GcMethod::vmFlags', 'vm::GcClass::vmFlags'):
            return ('c', self.vmflags)
        if fn == 'vm::GcMethod::flags':
            return ('c', 0)
        r = Plain.call(self, ev, st, f, i, fn, a)
        if last in ('fieldAtOffset', 'setField'):
            st.eff.append(('access',))
        if last == 'popFrame':
            st.eff.append(('access',))
        return r

    def dtor(self, ev, st, f, e):
        c = e.get('fn', '').replace('~', '').split('::')
        for r in RESOURCES:
            if r in c:
                st.eff += resource(self.P, r, True)


def interpreted(res, P):
    f, d = interp.dispatcher(P)
    ops = interp.opcode_enum(P)
    cases = interp.case_blocks(f, d)
    head = interp.fetch_block(f, d)
    T = interp.fields(P)
    T['return_'] = interp.returns()['return_']
    flags = jitops.constant('HasFinalMemberFlag') | jitops.constant('ConstructorFlag')
    old = interp.Interp
    done = set()
    try:
        interp.Interp = Vi
        Vi.vmflags = flags
        for nm, (length, scen) in sorted(T.items()):
            b = cases[ops[nm]]
            Vi.static = 'static' in nm
            for name, val, ex in scen:
                if ex.throws is not None:
                    continue
                try:
                    m, outs = interp.evaluate(P, f, d, head, b, dict(val, __op=ops[nm]))
                except TooComplex:
                    res.count('cases too complex to evaluate')
                    continue
                for o in outs:
                    if o.kind in ('abort', 'loop', 'throw') or any(e[0] == 'pendingexc' for e in o.eff):
                        continue
                    ev = [e for e in o.eff if e[0] in ('access', 'barrier')]
                    if nm == 'return_':
                        k = next((k for k, e in enumerate(ev) if e[0] == 'access'), len(ev))
                        w = None if {e[1] for e in ev[:k] if e[0] == 'barrier'} & BEFORE else 'must order the final fields of a new object before the constructor returns'
                    elif not any(e[0] == 'access' for e in ev):
                        continue
                    else:
                        w = verdict('read' if nm.startswith('get') else 'write', ev)
                    res.count('interpreted field accesses evaluated', floor=30)
                    if w and (nm, w) not in done:
                        done.add((nm, w))
                        res.bad('volatile|interp|%s|%s' % (nm, w), rel(f.file), interp.first_line(f, b), '%s of the interpreter' % nm.rstrip('_'), w)
    finally:
        interp.Interp = old


def constructors(res, P):
    """which methods the JIT ends with a barrier"""
    g = next((g for g in P.funcs.values() if g.n.split('::')[-1] == 'needsReturnBarrier' and g.b), None)
    if g is None:
        return
    C, F = jitops.constant('ConstructorFlag'), jitops.constant('HasFinalMemberFlag')
    for mf in (0, 1, 4, 2):
        truth = {'.vmFlags': lambda x: ('c', F if 'class_' in repr(x) else C), '.flags': ('c', mf)}
        m = Ex(P, g, {}, truth)
        outs = [o for o in Eval(P, m).run(g, [A('t', PTR), A('m', PTR)]) if o[1] == 'return']
        res.count('kinds of constructors evaluated')
        for st, k, v in outs:
            v = strip_casts(v)
            if v[0] != 'c' or not v[1]:
                res.bad('volatile|constructor', rel(g.file), g.l, g.n, 'must hold for a constructor, whatever its visibility, of a class with final fields')
                return


STUB = '''#include <avian/common.h>
#include <avian/arch.h>
using namespace vm;
extern "C" {
void v_storeStore() { storeStoreMemoryBarrier(); }
void v_storeLoad() { storeLoadMemoryBarrier(); }
void v_load() { loadMemoryBarrier(); }
bool v_cas32(uint32_t* p, uint32_t a, uint32_t b) { return atomicCompareAndSwap32(p, a, b); }
bool v_cas64(uint64_t* p, uint64_t a, uint64_t b) { return atomicCompareAndSwap64(p, a, b); }
bool v_cas(uintptr_t* p, uintptr_t a, uintptr_t b) { return atomicCompareAndSwap(p, a, b); }
}
'''


def primitives(res, P):
    """the barriers and atomic operations themselves, in the compiler's intermediate representation"""
    with tempfile.TemporaryDirectory() as d:
        src = os.path.join(d, 'stub.cpp')
        with open(src, 'w') as f:
            f.write(STUB)
        ir = build.sh([build.LLVM + '/bin/clang++', '-S', '-emit-llvm', '-O1', '-w', '-o', '-', '-resource-dir', build.LLVM + '/lib/clang/18'] + build.common_flags() +
                      ['-DUSE_ATOMIC_OPERATIONS', src])
    body = {m.group(1): m.group(2) for m in re.finditer(r'define[^@\n]*@(v_\w+)\([^\n]*\n(.*?)\n}', ir, re.S)}
    if len(body) != 6:
        raise AnalysisBroken('the barriers could not be translated')
    line = lambda n: next((g.l for g in P.funcs.values() if g.n == 'vm::' + n), 1)
    for n, nm in (('v_storeStore', 'storeStoreMemoryBarrier'), ('v_load', 'loadMemoryBarrier'), ('v_storeLoad', 'storeLoadMemoryBarrier')):
        b = body[n]
        asm = re.findall(r'asm sideeffect "([^"]*)", "([^"]*)"', b)
        fence = re.findall(r'\bfence (\w+)', b)
        res.count('barriers and atomic operations examined', floor=6)
        if not fence and not any('~{memory}' in k for a, k in asm):
            res.bad('volatile|%s' % nm, 'src/avian/x86.h', line(nm), 'vm::' + nm, 'must keep the compiler from moving memory accesses across it')
        elif n == 'v_storeLoad' and 'seq_cst' not in fence and not any(('mfence' in a or re.search(r'\block\b', a) or 'xchg' in a) and '~{memory}' in k for a, k in asm):
            res.bad('volatile|%s cpu' % nm, 'src/avian/x86.h', line(nm), 'vm::' + nm, 'must keep the processor from reading before earlier writes are visible')
    for n, nm, w in (('v_cas32', 'atomicCompareAndSwap32', 'i32'), ('v_cas64', 'atomicCompareAndSwap64', 'i64'), ('v_cas', 'atomicCompareAndSwap', 'i64')):
        b = body[n]
        res.count('barriers and atomic operations examined')
        ok = re.search(r'cmpxchg (?:volatile )?ptr %0, ' + w + r' %1, ' + w + r' %2 (seq_cst|acq_rel)', b) and 'extractvalue' in b
        ok = ok or re.search(r'lock;? *cmpxchg', b)
        if not ok:
            res.bad('volatile|%s' % nm, 'src/avian/x86.h', line(nm), 'vm::' + nm, 'must compare with the second and store the third argument at the first in one atomic step')


class Emit(Ex):
    def __init__(self, P, g, sse):
        Ex.__init__(self, P, g, {}, {})
        self.sse = sse

    def inline(self, g):
        return g.file.endswith(('/operations.cpp', '/encode.cpp')) and g is not self.g and g.n.split('::')[-1] != 'useSSE'

    def call(self, ev, st, f, i, fn, a):
        last = base(fn)
        if last == 'useSSE':
            return ('c', self.sse)
        if last.startswith('append') and 'Vector' in fn:
            c = f.x[i]['c']
            v = simp(ev.load(f, c[1], st, a[1]) if a[1][0] == 'lv' else a[1])
            st.x.setdefault('ev', []).append((last, v[1] if v[0] == 'c' else None))
            return ('void',)
        return Ex.call(self, ev, st, f, i, fn, a)


def emitted(res, P):
    """the instructions the x86 back end emits for a store-load barrier"""
    lir = {k.split('::')[-1]: v for e in P.enums.values() if any(k.split('::')[-1] == 'StoreLoadBarrier' for k in e) for k, v in e.items()}
    t = next((g for g in P.funcs.values() if g.n.endswith('populateTables') and '/x86/' in g.file), None)
    if t is None or 'StoreLoadBarrier' not in lir:
        raise AnalysisBroken('the tables of the x86 back end were not found')
    fn = None
    for i, n in enumerate(t.x):
        if n['k'] == 'Asg':
            L, R = t.x[t.strip(n['c'][0])], t.strip(n['c'][1])
            if L['k'] in ('Idx', 'Sub', 'Subscript', 'ASub') or 'c' in L and len(L['c']) == 2:
                ix = t.x[t.strip(L['c'][1])]
                if ix.get('cv') == lir['StoreLoadBarrier'] and any(t.x[j].get('d', '').endswith('StoreLoadBarrier') or t.x[j].get('fn', '').endswith('StoreLoadBarrier') for j in t.sub(L['c'][1])):
                    fn = [t.x[j]['f'] for j in t.sub(n['c'][1]) if 'f' in t.x[j]]
    if not fn:
        raise AnalysisBroken('the operation of the store-load barrier was not found')
    g = P.funcs.get(fn[0])
    for sse in (1,):
        outs = [o for o in Eval(P, Emit(P, g, sse)).run(g, [A('c', PTR)]) if o[1] == 'return']
        res.count('emitted barriers examined')
        for st, k, v in outs:
            b = [e[1] & 255 if e[1] is not None else None for e in st.x.get('ev', []) if e[0] == 'append']
            ok = b == [0x0f, 0xae, 0xf0] or len(b) >= 4 and b[0] == 0xf0 and 0x83 in b
            if not ok:
                res.bad('volatile|emit', rel(g.file), g.l, g.n, 'must emit mfence or an instruction with a lock prefix for a store-load barrier but emits: %s' %
                        (' '.join('?' if x is None else '%02x' % x for x in b) or 'nothing'))


def check(res, tier):
    res.rule('each way of accessing a field is evaluated with the volatile flag set, and the places of the barriers among its accesses are compared with the order that volatile demands')
    P = prog.world('jit')
    done = set()
    compiled(res, P)
    constructors(res, P)
    descriptors(res, P, jit.find(P)[0], done)
    natives(res, P)
    emitted(res, P)
    Q = prog.world('interpret')
    interpreted(res, Q)
    descriptors(res, Q, interp.dispatcher(Q)[0], done)
    primitives(res, P)
