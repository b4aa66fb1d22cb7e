"""Build layer: compiles the fact extractor, regenerates /repo's generated
sources in a private cache and extracts facts from /repo's *current* sources.

Everything is keyed by content hashes of /repo's working tree, so that a change
in any source re-runs exactly the extraction it affects."""
import fcntl, hashlib, json, os, subprocess, sys, glob, shutil, pickle, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('AVIAN_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
JH = '/usr/lib/jvm/java-8-openjdk-amd64'
LLVM = '/usr/lib/llvm-18'
COMPAT = os.path.join(VERIF, 'tools', 'glibc-compat.h')


class AnalysisBroken(Exception):
    """The analysis cannot answer (vanished anchor, unparsable source...)."""


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise AnalysisBroken('command failed: %s\n%s' % (' '.join(cmd)[:600], r.stdout.decode(errors='replace')[-4000:]))
    return r.stdout.decode(errors='replace')


def filehash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def walk(root, exts):
    out = []
    for d, dn, fs in os.walk(root):
        dn.sort()
        for f in fs:
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return sorted(out)


class Lock:
    def __init__(self, name):
        os.makedirs(CACHE, exist_ok=True)
        self.p = os.path.join(CACHE, name + '.lock')

    def __enter__(self):
        self.f = open(self.p, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def tool():
    """path of the built avfacts"""
    src = os.path.join(VERIF, 'tools', 'avfacts.cpp')
    out = os.path.join(CACHE, 'avfacts-' + filehash([src]))
    if os.path.exists(out):
        return out
    with Lock('tool'):
        if os.path.exists(out):
            return out
        flags = sh([LLVM + '/bin/llvm-config', '--cxxflags']).split()
        sh(['clang++-18' if shutil.which('clang++-18') else 'clang++', *flags, '-std=c++17', '-O1', '-fno-rtti', '-w', src,
            '-o', out + '.tmp', LLVM + '/lib/libclang-cpp.so.18.1', LLVM + '/lib/libLLVM-18.so'])
        os.rename(out + '.tmp', out)
    return out


def common_flags():
    return ['-m64', '-std=c++11', '-fno-rtti', '-fno-exceptions', '-w', '-I' + REPO + '/classpath',
            '-I' + JH + '/include', '-I' + REPO + '/src', '-I' + REPO + '/include',
            '-I' + JH + '/include/linux', '-D__STDC_LIMIT_MACROS', '-D__STDC_CONSTANT_MACROS', '-D_JNI_IMPLEMENTATION_',
            '-DAVIAN_VERSION="1.3.0-SNAPSHOT"', '-DAVIAN_INFO=""', '-DUSE_ATOMIC_OPERATIONS', '-DAVIAN_JAVA_HOME=""',
            '-DAVIAN_EMBED_PREFIX="/avian-embedded"', '-DTARGET_BYTES_PER_WORD=8', '-fPIC', '-fvisibility=hidden',
            '-pthread', '-DAVIAN_TARGET_FORMAT=AVIAN_FORMAT_ELF', '-include', COMPAT]


CLASSDIR_FLAGS = ['-DBOOT_CLASSPATH="[classpathJar]"', '-DAVIAN_CLASSPATH="[classpathJar]"']


def classes(src=None):
    """compile the class library; returns the directory of the class files"""
    src = src or REPO + '/classpath'
    js = walk(src, ('.java',))
    if len(js) < 100:
        raise AnalysisBroken('class library sources not found in ' + src)
    out = os.path.join(CACHE, 'classes-' + filehash(js))
    if os.path.isdir(out):
        return out
    with Lock('classes'):
        if os.path.isdir(out):
            return out
        tmp = out + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        sh([JH + '/bin/javac', '-encoding', 'UTF-8', '-source', '1.8', '-target', '1.8', '-nowarn', '-g', '-d', tmp,
            '-bootclasspath', tmp] + js)
        os.rename(tmp, out)
    return out


OPENJDK_SOURCES = ['avian/' + x for x in (
    'Addendum AnnotationInvocationHandler Assembler Callback Cell ClassAddendum Classes Code ConstantPool Continuations '
    'FieldAddendum Function IncompatibleContinuationException InnerClassReference Machine MethodAddendum Pair Singleton '
    'Stream SystemClassLoader Traces VMClass VMField VMMethod avianvmresource/Handler file/Handler').split()] + [
    'java/lang/invoke/' + x for x in 'MethodHandle MethodHandles MethodType LambdaMetafactory LambdaConversionException CallSite'.split()]
RT = JH + '/jre/lib/rt.jar'


def openjdk_classes():
    """the part of the class library that the openjdk configuration compiles (makefile: classpath-sources)"""
    js = [REPO + '/classpath/' + x + '.java' for x in OPENJDK_SOURCES]
    for j in js:
        if not os.path.exists(j):
            raise AnalysisBroken('class library source vanished: ' + j)
    out = os.path.join(CACHE, 'ojclasses-' + filehash(js))
    if os.path.isdir(out):
        return out
    with Lock('ojclasses'):
        if os.path.isdir(out):
            return out
        tmp = out + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        sh([JH + '/bin/javac', '-encoding', 'UTF-8', '-source', '1.8', '-target', '1.8', '-nowarn', '-g', '-d', tmp,
            '-bootclasspath', tmp + ':' + RT] + js)
        os.rename(tmp, out)
    return out


GEN_KINDS = ['enums', 'declarations', 'constructors', 'initializations', 'java-initializations',
             'name-initializations', 'maps']


def generator():
    srcs = [REPO + '/src/tools/type-generator/main.cpp', REPO + '/src/system/posix.cpp', REPO + '/src/finder.cpp',
            REPO + '/src/util/arg-parser.cpp'] + sorted(glob.glob(REPO + '/src/system/posix/*.cpp'))
    hdrs = walk(REPO + '/src', ('.h',)) + walk(REPO + '/include', ('.h',))
    out = os.path.join(CACHE, 'generator-' + filehash(srcs + hdrs))
    if os.path.exists(out):
        return out
    with Lock('generator'):
        if os.path.exists(out):
            return out
        objs = []
        d = out + '.o'
        os.makedirs(d, exist_ok=True)

        def one(s):
            o = os.path.join(d, s.replace('/', '_') + '.o')
            sh(['g++', *[f for f in common_flags()], '-DPOINTER_SIZE=8', '-O0', '-c', s, '-o', o])
            return o
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, srcs))
        sh(['g++', *objs, '-o', out + '.tmp', '-lpthread', '-ldl', '-lz'])
        os.rename(out + '.tmp', out)
        shutil.rmtree(d, ignore_errors=True)
    return out


def gendir(world):
    """directory with the generated type-*.cpp files; world: avian | openjdk"""
    cls = classes() if world == 'avian' else openjdk_classes()
    gen = generator()
    defs = REPO + '/src/types.def'
    key = hashlib.sha256((cls + gen + world + filehash([defs])).encode()).hexdigest()[:24]
    out = os.path.join(CACHE, 'gen-' + world + '-' + key)
    if os.path.isdir(out):
        return out
    with Lock('gen' + world):
        if os.path.isdir(out):
            return out
        tmp = out + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        cp = cls if world == 'avian' else cls + ':' + RT
        for k in GEN_KINDS:
            sh([gen, '-cp', cp, '-i', defs, '-o', '%s/type-%s.cpp' % (tmp, k), '-t', k])
        os.rename(tmp, out)
    return out


def tus():
    """[(name, source, world, extra flags)]"""
    s = REPO + '/src/'
    A = ['-DAVIAN_TARGET_ARCH=AVIAN_ARCH_X86_64', '-DNDEBUG']
    out = []

    def add(name, p, world='avian', extra=(), flags=None):
        if not os.path.exists(p):
            raise AnalysisBroken('anchor source vanished: ' + p)
        out.append((name, p, world, (A + CLASSDIR_FLAGS if flags is None else flags) + list(extra)))
    for f in ['finder', 'machine', 'util', 'compile', 'interpret', 'classpath-avian', 'builtin', 'jnienv', 'process',
              'heap/heap', 'main', 'boot', 'heapwalk']:
        add(f, s + f + '.cpp')
    add('heapdump', s + 'heapdump.cpp', extra=['-DAVIAN_HEAPDUMP'])
    add('system/posix', s + 'system/posix.cpp')
    for p in sorted(glob.glob(s + 'system/posix/*.cpp')) + sorted(glob.glob(s + 'util/*.cpp')):
        add(p[len(s):-4], p)
    for p in sorted(glob.glob(s + 'codegen/*.cpp')) + sorted(glob.glob(s + 'codegen/compiler/*.cpp')) + \
            sorted(glob.glob(s + 'codegen/target/x86/*.cpp')):
        add(p[len(s):-4], p)
    for p in sorted(glob.glob(s + 'codegen/target/arm/*.cpp')):
        add(p[len(s):-4], p)
    for p in sorted(glob.glob(REPO + '/classpath/*.cpp')):
        n = 'classpath/' + os.path.basename(p)[:-4]
        add(n, p, extra=['-D__ANDROID__'] if p.endswith('java-lang.cpp') else [])
    add('classpath-openjdk', s + 'classpath-openjdk.cpp', world='openjdk')
    B = [f for f in A]
    add('bootimage-generator', s + 'tools/bootimage-generator/main.cpp',
        flags=B + ['-DBOOT_IMAGE', '-DAVIAN_CLASSPATH=""'])
    add('compile.cont', s + 'compile.cpp', extra=['-DAVIAN_TAILS', '-DAVIAN_CONTINUATIONS', '-DAVIAN_HEAPDUMP'])
    add('type-generator', s + 'tools/type-generator/main.cpp', extra=['-DPOINTER_SIZE=8'])
    return out


def headers_hash():
    return filehash(walk(REPO + '/src', ('.h', '.inc.cpp', '.inc')) + walk(REPO + '/include', ('.h',)) +
                    walk(REPO + '/classpath', ('.h',)) + [REPO + '/src/bootimage-fields.cpp', REPO + '/src/thunks.cpp',
                                                         REPO + '/src/bootimage-template.cpp', COMPAT])


def facts(names=None):
    """extract (or reuse) the facts of the named TUs; returns {name: json path}"""
    t = tool()
    g = {}
    hh = headers_hash()
    jobs, res = [], {}
    lst = tus()
    known = {x[0] for x in lst}
    for n in names or known:
        if n not in known:
            raise AnalysisBroken('unknown translation unit ' + n)
    for name, p, world, fl in lst:
        if names is not None and name not in names:
            continue
        if world not in g:
            g[world] = gendir(world)
        gd = g[world]
        key = hashlib.sha256(json.dumps([os.path.basename(t), hh, filehash([p]), os.path.basename(gd), fl, REPO]).encode()).hexdigest()[:24]
        out = os.path.join(CACHE, 'facts', name.replace('/', '_') + '-' + key + '.json')
        res[name] = out
        if not os.path.exists(out):
            jobs.append((name, p, gd, fl, out))
    os.makedirs(os.path.join(CACHE, 'facts'), exist_ok=True)

    def one(j):
        name, p, gd, fl, out = j
        with Lock('f-' + name.replace('/', '_')):
            if os.path.exists(out):
                return
            cmd = [t, '-o', out + '.tmp', '--root', REPO, '--root', gd, p, '--', 'clang++', '-resource-dir', LLVM + '/lib/clang/18',
                   '-I' + gd] + common_flags() + fl + ['-c', p]
            sh(cmd)
            if not os.path.exists(out + '.tmp'):
                raise AnalysisBroken('no facts for ' + p)
            os.rename(out + '.tmp', out)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))
    prune()
    return res


def jni_reference():
    """facts of the standard JNI header (JDK 8)"""
    t = tool()
    hdr = JH + '/include/jni.h'
    d = os.path.join(CACHE, 'jniref-' + filehash([hdr, t]))
    out = os.path.join(d, 'facts.json')
    if not os.path.exists(out):
        with Lock('jniref'):
            os.makedirs(d, exist_ok=True)
            src = os.path.join(d, 'jniref.cpp')
            with open(src, 'w') as f:
                f.write('#include <jni.h>\nJNINativeInterface_* a; JNIInvokeInterface_* b;\n'
                        'int use() { return a->GetVersion(0) + b->GetEnv(0, 0, 0); }\n')
            sh([t, '-o', out + '.tmp', '--root', d, '--root', JH, src, '--', 'clang++', '-resource-dir', LLVM + '/lib/clang/18',
                '-I' + JH + '/include', '-I' + JH + '/include/linux', '-c', src])
            os.rename(out + '.tmp', out)
    with open(out) as f:
        r = json.load(f)
    T = r['types']
    return {k: [(a, T[b], c) for a, b, c in v['fields']] for k, v in r['records'].items()}


def prune(limit=6 << 30):
    """bound the cache: drop the oldest fact files beyond the limit"""
    fs = []
    for d, dn, ff in os.walk(CACHE):
        for f in ff:
            p = os.path.join(d, f)
            try:
                st = os.stat(p)
                fs.append((st.st_atime, st.st_size, p))
            except OSError:
                pass
    tot = sum(x[1] for x in fs)
    for at, sz, p in sorted(fs):
        if tot < limit:
            break
        if '/facts/' in p and time.time() - at > 1200:
            try:
                os.unlink(p)
                tot -= sz
            except OSError:
                pass


if __name__ == '__main__':
    t0 = time.time()
    r = facts()
    for k, v in sorted(r.items()):
        print('%-40s %9d' % (k, os.path.getsize(v)))
    print(time.time() - t0)
