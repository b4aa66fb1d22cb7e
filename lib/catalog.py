"""All properties: what is claimed, how it is decided, and what is not claimed.

tools/gen.py writes properties.jsonl, MANIFEST.json and the table in DESIGN.md from this file; lib/check.py takes the rules from it.
"""
P = []          # claimed
NA = []         # not claimed
HOW = {}        # id -> further text for DESIGN.md


def claim(id, title, statement, over, quant, why, files, mechanism, rules, technique, explanation, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mechanism=mechanism,
                  rules=rules, technique=technique, explanation=explanation, note=note, observe=observe or []))


def decline(id, title, statement, over, quant, why, files, mechanism, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mechanism=mechanism, reason=reason))


claim(
    'G01', 'Native code never uses an object reference that a collection could have moved',
    'Whenever VM code written in C++ (interpreter, compiler, class loading, JNI layer, class-library natives) holds a reference to a heap '
    'object across an operation during which a garbage collection can happen, that reference is registered as a root for the whole time '
    'or is not used again, so a collection never frees an object in use and never leaves a stale address behind. The same holds for '
    'references held in native structures that outlive a call, and for temporaries computed before such an operation in the same '
    'expression.',
    ['schedules', 'programs', 'histories'],
    'for every program, every allocation history and every moment at which a collection can be triggered',
    'The collector runs only when a heap segment fills up, another thread asks, or System.gc() is called; the tests hit a handful of the '
    'thousands of places at which it could run, and a missed root usually goes unnoticed until an object happens to move.',
    ['src/machine.cpp', 'src/compile.cpp', 'src/interpret.cpp', 'src/jnienv.cpp', 'src/builtin.cpp', 'src/classpath-openjdk.cpp',
     'src/avian/machine.h'],
    [('PROTECT and Thread::SingleProtector register a local as a root', 'src/avian/machine.h'),
     ('Reference and LocalReference keep native structures visible to the collector', 'src/avian/machine.h'),
     ('visitRoots, Context and Thread visitors', 'src/machine.cpp, src/compile.cpp')],
    ['gcroots'],
    'interprocedural may-collect effect analysis + liveness/must-register dataflow over clang CFGs',
    'Every function of the VM (JIT, interpreter, continuations and OpenJDK-bridge builds) was analysed: the call graph gives the calls '
    'from which the collector can be reached, a backward liveness analysis gives the references needed after each such '
    'call, a forward analysis gives the registrations active there.',
    'Sound up to: function pointers resolved by exact signature; references kept in integers or in memory other than locals and '
    'members of native structures are not tracked; the listed infeasible-collection idioms (each with its reason in the rule).')

claim(
    'J01', 'Every JNI table entry is the standard function, with its exact types and widths',
    'A native library compiled against the standard JNI header finds at every slot of the function tables the function the standard puts '
    'there, with the standard parameter and result types. Each function of a typed family (Get/Set of fields, static fields and array '
    'regions, array element buffers, array creation, calls) reads, writes, copies, allocates and returns exactly the element type its name '
    'says, moving bits unchanged and in the right direction. Releasing array elements with mode 0 copies back and frees the buffer, with '
    'JNI_COMMIT copies back and keeps it, and with JNI_ABORT frees it without copying back.',
    ['programs', 'inputs'],
    'for every native library using any of the JNI functions, with every value of every type',
    'The table has over 230 slots, of which the test-suite calls a few dozen, with small values that survive a wrong width or a '
    'conversion.',
    ['src/jnienv.cpp', 'src/avian/machine.h', 'src/avian/constants.h'],
    [('JNIEnvVTable and JavaVMVTable member order and types', 'src/avian/machine.h'),
     ('populateJNITables', 'src/jnienv.cpp'),
     ('the typed accessor families', 'src/jnienv.cpp')],
    ['jni'],
    'type-resolved comparison of the function tables with the standard header + per-entry type/width/direction analysis',
    'Every slot of both function tables was compared with the standard header of the installed JDK (offset, parameter and result ABI), '
    'every assignment to a slot was checked for being the only one and of the right function family, and every typed function was analysed '
    'for the types it reads, writes, copies, allocates and returns.',
    'Compares machine-level types (integer width/signedness, floating width, pointer). Sign and value of the copied data are not '
    'tracked beyond the ban on numeric conversions.')

claim(
    'N01', 'Every native method of the class library has an implementation that agrees',
    'Every native method that the class library declares and a program can reach has an implementation in the virtual machine or its '
    'class-library natives. That implementation reads exactly the argument positions and argument types of the Java declaration (an int as '
    'an int, a long or double as a two-slot value, a reference as a reference) and produces a result of the declared type; where the VM '
    'itself calls a method with a packed argument list, it packs exactly the arguments the method reads.',
    ['programs', 'inputs'],
    'for every native method, every caller and every argument value',
    'A wrong slot index or width compiles silently (the native side sees an untyped array), and only shows for methods the test programs '
    'call, with values that make the difference visible.',
    ['src/builtin.cpp', 'src/classpath-avian.cpp', 'src/classpath-openjdk.cpp', 'src/classpath-common.h', 'classpath/java-lang.cpp',
     'classpath/java-io.cpp', 'classpath/java-net.cpp', 'classpath/java-nio.cpp', 'classpath/java-util.cpp',
     'classpath/java-util-zip.cpp', 'classpath/sun-misc.cpp', 'classpath/java/lang/Thread.java', 'classpath/java/net/Socket.java'],
    [('Avian_* fast natives taking (thread, object, arguments*)', 'src/classpath-avian.cpp, src/builtin.cpp'),
     ('Java_* JNI natives', 'classpath/*.cpp'),
     ('resolveNative and the mangled-name scheme', 'src/process.cpp')],
    ['natives', 'natives:handover'],
    'cross-language comparison of parsed class files with the type-checked native functions',
    'The compiled class library is parsed; every native declaration is matched by its mangled name to a function in the type-checked '
    'native sources, the argument slots and types read by the function body are compared with the descriptor, and so is the result. Calls '
    'of the VM run entry point are checked for the number and kinds of packed arguments.',
    'Natives that no code in the class library or program can reach, and the ones the source documents as unimplemented, are listed in '
    'the rule with the reason.')

claim(
    'N02', 'Every class, field and method the native code looks up by name exists as used',
    'Each class, field, method and constructor that native code looks up by its name and signature exists in the class library under that '
    'name and signature, and is used according to it: an instance member on an object, a static member on a class, with the accessor or '
    'call for its type.',
    ['programs', 'inputs', 'histories'],
    'for every operation of the class library that goes through native code and every error path in it',
    'Lookups are strings: a renamed class, a wrong descriptor or the accessor for the wrong type compiles and only fails when that path '
    'runs - usually an error path or a rarely used reflective operation.',
    ['src/classpath-common.h', 'src/classpath-avian.cpp', 'src/builtin.cpp', 'src/machine.cpp', 'src/jnienv.cpp', 'classpath/java-lang.cpp',
     'classpath/java-io.cpp', 'classpath/java-net.cpp', 'classpath/java-nio.cpp', 'classpath/java-util-zip.cpp', 'classpath/jni-util.h'],
    [('resolveClass, resolveMethod, resolveField, findFieldInClass2', 'src/avian/machine.h, src/machine.cpp'),
     ('FindClass, GetFieldID, GetMethodID and throwNew', 'classpath/*.cpp, classpath/jni-util.h')],
    ['lookups'],
    'string-constant lookup resolution against parsed class files + def-use check of member ids',
    'Every call in the native sources that names a class or member by constant strings was resolved against the parsed class library, and '
    'every use of a looked-up member id was compared with the member.',
    'Lookups whose strings are not constants (names coming from Java) are out of scope.')

claim(
    'G02', 'Every reference stored into an object is reported to the generational collector',
    'Whenever VM code or compiled Java code stores a reference into a field or array element of a heap object - by assignment, by a '
    'successful compare-and-swap, or by copying array elements - it reports exactly the words written to the collector before a '
    'collection can happen, so that a young object referenced only from an old one survives the next minor collection. This covers '
    'class-library natives (array copy, atomics, Unsafe), reflection, JNI, the interpreter and the code the JIT compiler emits.',
    ['histories', 'programs', 'schedules'],
    'for every store, every pair of object ages and every collection history',
    'A missing report shows only when the holder is already tenured, the value is not, nothing else refers to the value, and a minor '
    'collection follows; test programs hardly live long enough to tenure anything.',
    ['src/avian/machine.h', 'src/avian/classpath-common.h', 'src/builtin.cpp', 'src/classpath-avian.cpp', 'src/compile.cpp',
     'src/interpret.cpp', 'src/machine.cpp', 'src/jnienv.cpp'],
    [('setField and mark', 'src/avian/machine.h'),
     ('atomicCompareAndSwapObject and the Unsafe/Atomic natives', 'src/avian/machine.h, src/builtin.cpp, src/classpath-avian.cpp'),
     ('arrayCopy', 'src/avian/classpath-common.h'),
     ('the reference-store thunks of compiled code', 'src/compile.cpp')],
    ['barrier'],
    'interprocedural obligation dataflow (store must be followed by report) over clang CFGs; constant-propagated slices of the JIT',
    'Every store of a reference into heap memory creates an obligation that a report naming the same object, and words that agree with '
    'the ones written, discharges on every path; obligations a helper leaves are passed to its callers. The slices of the JIT compiler '
    'for reference stores were checked for emitting calls of reporting runtime functions only.',
    'The collector\'s own handling of a report is not covered. Offsets are compared by the variables and constants they are made of, not '
    'by value.')

claim(
    'I01', 'The interpreter executes every bytecode as the JVM specification defines it',
    'Each interpreted bytecode takes exactly its operands from the operand stack, leaves exactly the specified result (operation, operand '
    'order, width, sign, shift masking, conversion and NaN/overflow rules), reads and writes the specified local, array element or field at '
    'its width, continues at the next instruction or the specified branch or switch target, and throws the specified exception exactly for '
    'null, out-of-range, negative-size, zero-divisor or wrong-class operands. Calls select the method by the receiver, the superclass or '
    'statically as the instruction says, and push native results as their type says. Entering and leaving a frame keeps the caller\'s '
    'stack and position and balances the monitor of a synchronized method; an exception is caught by a handler whose range and type '
    'match, which then starts with just the exception on the stack.',
    ['programs', 'inputs'],
    'for every program run by the interpreter and all operand values',
    'The tests run a few dozen programs on the interpreter, which sample few of the operand classes (NaN, the most negative dividend, wide '
    'forms, unaligned switches, every dup form).',
    ['src/interpret.cpp', 'src/avian/process.h', 'src/avian/machine.h'],
    [('interpret3, the dispatch loop', 'src/interpret.cpp'),
     ('push/pop/peek/poke and frame primitives', 'src/interpret.cpp'),
     ('findExceptionHandler, pushResult', 'src/interpret.cpp')],
    ['interp'],
    'abstract interpretation of each bytecode handler over its CFG (symbolic value numbering, branch pruning by operand classes) against a '
    'table of the JVM specification',
    'Each handler of the dispatch switch was evaluated abstractly from its opcode to the next dispatch under every listed class of operand '
    'values; operand count and kind, the normal form of the results, the next instruction, stores and exceptions were compared with a table '
    'written from the JVM specification. The stack, local and frame primitives were evaluated as store/load pairs.',
    'Not covered: invokedynamic, multianewarray contents, array store checks (the VM does none), how much of a switch table beyond the '
    'sampled shapes of three and four entries is searched. Opcodes are evaluated for operand classes, each represented by one member.')

claim(
    'T01', 'Threads use the heap only while active and wait only while idle',
    'A thread reads or writes heap objects only in the active, exclusive or exit state. It waits for another thread, a lock, the network or '
    'a native function only in the idle state, so no wait can hold up a collection. Every VM function returns in the state it was '
    'called in, critical sections of JNI included, and asks only for state changes that enter() allows. Collecting, dumping the heap, '
    'replacing the call tables of all threads, changing the table of monitors or a class in use, and ending the VM happen only while every '
    'other thread is stopped. Each state change keeps the counts of active, live and daemon threads and the exclusive owner right, '
    'does not let a thread become active or exclusive beside an exclusive one, and wakes the threads that wait for it.',
    ['schedules', 'programs', 'histories'],
    'for every program and every interleaving of its threads with collections',
    'A missing or wrong state change shows only when another thread collects during the few instructions it leaves unprotected, or when a '
    'wait lasts longer than the rest of the program can do without a collection; the tests run with few threads and hardly collect.',
    ['src/machine.cpp', 'src/avian/machine.h', 'src/jnienv.cpp', 'src/builtin.cpp', 'src/compile.cpp', 'src/interpret.cpp',
     'classpath/java-net.cpp'],
    [('enter() and StateResource', 'src/machine.cpp, src/avian/machine.h'),
     ('ENTER at every JNI function and every wait', 'src/jnienv.cpp, src/machine.cpp, src/avian/machine.h'),
     ('critical sections', 'src/jnienv.cpp')],
    ['states'],
    'context-sensitive interprocedural typestate dataflow over clang CFGs + path enumeration of enter()',
    'Every function of the VM was analysed in each thread state it can be called in, starting from every entry point (JNI functions, '
    'class-library natives, runtime functions called by compiled code, thread start). Each heap access, wait, native call, collection and '
    'state change was checked in those states; all paths of enter() were enumerated for the legal changes.',
    'Covers the JIT and interpreter builds on POSIX. The code inside src/system and the collector is not analysed for states. The locks '
    'stateLock, heapLock and the signal lock may be taken while active: their holders wait for nothing else. Whether code reached '
    'through a function pointer belongs to a call is decided by its exact signature.')

claim(
    'D01', 'Binary data is read and written in the specified byte order and width',
    'Every typed read or write of the class library moves exactly the bytes of its format: the DataInput and DataOutput classes (data '
    'streams, object streams, random-access files) and byte buffers store a 16-, 32- or 64-bit value most significant byte first and '
    'give back the same value, sign- or zero-extended as its type says, float and double by their bits; zip headers store theirs least '
    'significant byte first; the end of a stream inside a value is reported and never becomes data. read() of any input stream returns '
    '-1 or a byte from 0 to 255, write(int) of any output stream passes on the low eight bits. UTF-8 encoding and decoding of each '
    'character up to U+FFFF uses the one-, two- or three-byte form of its range.',
    ['inputs'],
    'for every value of every type and every position of the end of the stream',
    'A wrong shift, a missing mask or a sign extension shows only for particular bytes (usually those above 127), while tests write and '
    'read back a few small values, often with the same mistake on both sides.',
    ['classpath/java/io/DataInputStream.java', 'classpath/java/io/DataOutputStream.java', 'classpath/java/io/ObjectInputStream.java',
     'classpath/java/io/ObjectOutputStream.java', 'classpath/java/io/RandomAccessFile.java', 'classpath/java/nio/ByteBuffer.java',
     'classpath/java/util/zip/ZipFile.java', 'classpath/java/util/zip/ZipOutputStream.java', 'classpath/avian/Stream.java',
     'classpath/avian/Utf8.java', 'classpath/java/io/BufferedInputStream.java', 'classpath/java/io/ByteArrayInputStream.java'],
    [('the typed accessors of the stream classes', 'classpath/java/io/*.java'),
     ('rawGet and rawPut of byte buffers', 'classpath/java/nio/ByteBuffer.java'),
     ('get2/get4 and addTwoBytes/addFourBytes of zip files', 'classpath/java/util/zip'),
     ('encode and decode of UTF-8', 'classpath/avian/Utf8.java')],
    ['data'],
    'symbolic paths through the bytecode + bit-level value analysis against the layout of each type',
    'The class library was compiled; every path through every typed accessor was followed with its helpers expanded, each result bit was '
    'traced to the bit of the stream byte or argument it comes from and compared with the layout of the type; every other place that '
    'joins or splits bytes was checked for order and for bytes that spill into each other.',
    'The native side of file and socket streams and the block structure of serialised data are not covered; characters above U+FFFF are '
    'encoded as surrogate pairs of three bytes each by this class library and are left out of the statement.')

claim(
    'B01', 'Native code copies only inside Java arrays, strings and its own buffers',
    'Native methods of the class library and JNI functions that are given an array or string with an offset, index or length by their '
    'caller touch only elements inside that array or string, whatever the numbers (negative, past the end, or overflowing when added); '
    'System.arraycopy touches only elements inside both arrays, and copies only between arrays of equal element size. The same holds for '
    'the C buffers they allocate for the transfer, and for every C buffer into which the VM copies the characters of a Java string. The '
    'bytes stringUTFLength counts for a character are the bytes stringUTFChars writes.',
    ['inputs', 'programs'],
    'for every offset, index, length, array length and string content',
    'A range check that overflows or misses one of the bounds behaves correctly for every ordinary argument; only an argument near the '
    'end of the integer range or past the end of the array shows it, as silent corruption of the heap.',
    ['src/avian/classpath-common.h', 'src/jnienv.cpp', 'src/builtin.cpp', 'src/machine.cpp', 'classpath/java-io.cpp', 'classpath/java-nio.cpp',
     'classpath/java-net.cpp', 'classpath/java-lang.cpp', 'classpath/java-util-zip.cpp'],
    [('arrayCopy', 'src/avian/classpath-common.h'), ('the Get/Set ArrayRegion family and inRegion', 'src/jnienv.cpp'),
     ('checkRange and the natives that use array memory directly', 'classpath/jni-util.h, classpath/*.cpp'),
     ('stringChars, stringUTFChars, stringUTFLength', 'src/machine.cpp')],
    ['ranges'],
    'path-sensitive abstract interpretation of clang CFGs with a linear-inequality (polyhedral) domain over wrapping machine arithmetic',
    'Every native method and JNI function of the JIT and OpenJDK-bridge builds was followed along all its paths, into its local helpers; '
    'each bulk copy (memcpy, memmove, read, write, send, receive, region functions, string copies) and each element access whose position '
    'a caller decides was an obligation: start and end inside the array or buffer.',
    'Raw-memory interfaces (sun.misc.Unsafe addresses) trust their caller by definition. An array including its header is taken to be '
    'smaller than 4 GB (the allocator takes 32-bit sizes) and a C string smaller than 512 MB; read and its relatives are taken to return '
    'at most the number asked for. Loops are followed for two turns; the invocation API is left out.')

claim(
    'C01', 'Classes are initialized before use, once, superclass first, by one thread',
    'Before compiled or interpreted bytecode, JNI, reflection (Field, Method, Constructor, Class.forName) or deserialization reads or '
    'writes a static field of a class, runs one of its static methods or makes an instance, the class and before it its superclass has '
    'been initialized, or is being initialized by the same thread. The initializer runs at most once; other threads that need the class '
    'meanwhile wait and are all woken at its end, however it ends. An initializer that throws an exception gives '
    'ExceptionInInitializerError (an Error passes as itself) and leaves the class erroneous: later uses throw NoClassDefFoundError. Code '
    'the JIT compiles or patches while a class is not completely initialized keeps checking.',
    ['schedules', 'programs', 'histories'],
    'for every order in which threads and call sites first use a class, and every outcome of its initializer',
    'Which call site is the first to touch a class, whether it was compiled before or after, and whether another thread is in the middle '
    'of the initializer depend on the program and the schedule; tests initialize nearly all classes in one thread at the first use.',
    ['src/machine.cpp', 'src/compile.cpp', 'src/interpret.cpp', 'src/jnienv.cpp', 'src/classpath-avian.cpp', 'src/builtin.cpp',
     'classpath/java/lang/reflect/Field.java', 'classpath/java/lang/reflect/Method.java', 'classpath/avian/Classes.java'],
    [('initClass, preInitClass, postInitClass, classNeedsInit', 'src/machine.cpp'),
     ('prepareMethodForCall, compileMethod2, compileDirectInvoke, compile', 'src/compile.cpp'),
     ('static field access and object creation', 'src/interpret.cpp, src/jnienv.cpp'),
     ('Classes.initialize', 'src/builtin.cpp, classpath/avian/Classes.java')],
    ['classinit'],
    'must-facts dataflow over clang CFGs with interprocedural summaries + typestate evaluation of the initialization protocol + bytecode paths',
    'Every access to a static table, every creation of an instance of a class that a program names, every use of the entry address of a '
    'method and every direct call the JIT makes or leaves out was an obligation: on all paths before it the class is initialized or shown '
    'to need no initialization. initClass, preInitClass and postInitClass were evaluated in every situation of the flags.',
    'Linking of invokedynamic call sites and the exception and container classes that the VM itself names are left out (they have no '
    'initializers of consequence); so is the OpenJDK bridge. Interfaces are not initialized by use of a class that implements them.')


claim(
    'I02', 'The JIT front end translates every bytecode as the JVM specification defines it',
    'For each bytecode, the operations that the translation loop of the JIT compiler (src/compile.cpp) asks of the code generator take '
    'exactly the operands of the bytecode from the operand stack and leave exactly its result: operation, operand order, width, signed or '
    'unsigned extension, local variable index, array element or field offset and access width, constant. Array accesses are bounds-checked. '
    'Calls pass the arguments and call the method the instruction selects (virtual table entry of the receiver, interface lookup, '
    'superclass method, static), and a directly called private method has its receiver null-checked. References not resolved at compile '
    'time go to the runtime function for that instruction. Intrinsics compute what the method they replace does. Branches and switches go '
    'to the specified targets; a backward branch has a safe point. Where an instruction in a try block can throw, locals are saved first.',
    ['programs', 'inputs'],
    'for every method compiled and all operand values',
    'The tests compile ordinary methods; wide forms, dup forms over two-word values, unaligned switches, fused comparisons with unordered '
    'operands, unresolved references and handlers reading locals are sampled rarely or never.',
    ['src/compile.cpp'],
    [('compile(), the translation loop', 'src/compile.cpp'),
     ('Frame, the operand stack of the translation', 'src/compile.cpp'),
     ('integerBranch, floatBranch, intrinsic, compileDirectInvoke', 'src/compile.cpp')],
    ['jitops'],
    'abstract interpretation of the translation loop over its CFG, the code generator interface replaced by a recording of the operations '
    'asked for, compared with a table of the JVM specification',
    'The block of each opcode in the dispatch switch was evaluated abstractly from the opcode to the next dispatch, for every shape of '
    'operands, resolved and unresolved, in and outside a try block; the operations requested from the code generator, the operand stack '
    'left, the recorded types of its slots, the next position and the positions put aside for later were compared with the specification.',
    'The register allocator and the x86 encoder behind the interface are property K01 (not claimed); the runtime functions called are I03. '
    'Opcodes are evaluated for operand classes, each represented by one member; invokedynamic is not covered.')

claim(
    'I03', 'Runtime functions for compiled code do what the bytecode they serve defines',
    'Each function that compiled code calls for a bytecode it does not translate inline (comparisons, conversions, division, array and '
    'object creation, null checks, casts, instanceof, throw, access to fields and methods through references not resolved at compile time, '
    'virtual and interface lookup, switches) returns the specified result for all operands, including NaN, out-of-range conversions, the '
    'most negative dividend and wrong or null references, throws exactly the specified exception, and accesses a field only after '
    'initializing its class if it is static and within the guard for a volatile field. An operation the processor lacks is given the runtime function that '
    'computes it.',
    ['inputs', 'programs'],
    'for every call from compiled code and all operand values',
    'Which of these functions runs depends on whether a class was loaded when a method was compiled; tests reach few of them, with few values.',
    ['src/compile.cpp', 'src/avian/machine.h'],
    [('compareDoublesG ... getStaticFieldValueFromReference', 'src/compile.cpp'),
     ('thunks.cpp, the list of them', 'src/thunks.cpp'),
     ('MyClient::getThunk', 'src/compile.cpp')],
    ['runtime'],
    'abstract interpretation of each runtime function over classes of operands (exact evaluation on boundary values, symbolic otherwise) '
    'against the JVM specification',
    'Each runtime function was evaluated abstractly from its clang CFG: numeric functions on boundary values of each class of operands, '
    'the others symbolically under each combination of tests; results, exceptions and the order of effects were compared with the '
    'bytecode.',
    'Numeric functions are folded on representatives of each class of values (signs, zeroes, limits, NaN, infinities), not proved for each. '
    'What the callees in machine.cpp (instanceOf, resolveMethod, makeArray) compute is trusted here; see N02, B01, C01.')

claim(
    'X01', 'An exception goes to the first covering handler, and monitors are released',
    'In both virtual machines an exception thrown at an instruction goes to the first entry, in table order, of the method\'s exception '
    'table whose range contains the instruction and whose catch type the exception is an instance of (or that catches everything); if '
    'there is none, to the caller, searched at its call instruction. Every frame so abandoned of a synchronized method releases its '
    'monitor exactly once, on the object or class it was entered with. The handler runs with the exception in its operand slot and no '
    'exception pending. Compiling a method keeps the entries of its exception table, their order, ranges, handlers and catch types.',
    ['programs', 'histories'],
    'for every exception table, throwing instruction and chain of frames',
    'Tests use small tables with one or two entries; overlapping and nested ranges, range ends, rethrows through synchronized frames and '
    'mixed compiled and native frames are rare.',
    ['src/compile.cpp', 'src/interpret.cpp', 'src/avian/machine.h'],
    [('findExceptionHandler, findUnwindTarget, releaseLock, translateExceptionHandlerTable', 'src/compile.cpp'),
     ('findExceptionHandler', 'src/interpret.cpp'),
     ('exceptionMatch', 'src/avian/machine.h')],
    ['exceptions'],
    'abstract interpretation of the handler search and unwinding functions over concrete exception tables and symbolic frames',
    'The handler searches of both machines were evaluated over all pairs of ranges, positions and matching sets of a small universe, the '
    'unwinder over chains of up to three frames with and without a handler, monitors and native frames, the table translation over tables '
    'with overlapping, empty and dead ranges.',
    'Tables of two entries and chains of three frames stand for longer ones (the loops treat each alike). How the assembly stubs restore '
    'registers is not covered.')

claim(
    'M01', 'Monitors are held, given up and handed over exactly as entered',
    'In both virtual machines a synchronized method, bytecode or native, holds the monitor of its receiver (of the class object if it is '
    'static) from before its first instruction until it returns, and gives up that same monitor exactly once. A monitor has one owner; its '
    'owner may enter it again and it is free when it was left as often as entered; a thread that cannot enter queues and enters when woken. '
    'Object.wait gives up all entries of the caller, and takes them all back before it returns, whether notified, timed out or interrupted; '
    'notify wakes one waiting thread and notifyAll all of them, and none is lost. wait and notify by a thread that is not the owner throw '
    'IllegalMonitorStateException. Each object has at most one monitor at a time.',
    ['schedules', 'programs'],
    'for every monitor, number of entries, queue of contenders and set of waiting threads, and every action of other threads between the steps',
    'The tests enter a few monitors with a few threads; queues of several waiting threads, interrupts and timeouts that race with a '
    'notification, and nested entries given up by wait need schedules that tests do not force.',
    ['src/avian/machine.h', 'src/machine.cpp', 'src/builtin.cpp', 'src/compile.cpp', 'src/interpret.cpp'],
    [('monitorAcquire, monitorRelease, monitorWait, monitorNotify, monitorNotifyAll, monitorAppendWait, monitorRemove, acquire, release, wait, notify', 'src/avian/machine.h'),
     ('objectMonitor', 'src/machine.cpp'),
     ('handleEntrance, releaseMonitorForObject, releaseMonitorForClass, invokeNativeSlow', 'src/compile.cpp'),
     ('pushFrame, popFrame, invokeNativeSlow', 'src/interpret.cpp')],
    ['monitors'],
    'abstract interpretation of the monitor operations over concrete monitors with interference of other threads at each blocking step',
    'The monitor operations were evaluated on concrete monitors (owner, depth, queue of contenders, waiting threads) with other threads acting '
    'while the current one blocks; the entrance and every return instruction of compiled methods, the frames of the interpreter and the '
    'calls of native methods were evaluated for each combination of synchronized, static and native.',
    'Queues of up to three threads stand for longer ones. That a woken thread is eventually scheduled is W01; that memory operations on the '
    'monitor are atomic is assumed of the compare-and-swap functions.')

claim(
    'N03', 'Calls between Java and native code pass arguments and results unchanged',
    'For every method descriptor: a native method called from Java receives the JNI environment, the class or receiver, and each argument at its '
    'width and position (references as handles, null as null), runs with its thread idle, and its result reaches the caller narrowed to the '
    'declared type, local references it made being disposed of and an exception it left being thrown. A Java method called from native code, '
    'with variable arguments, jvalues or boxed values, receives each argument in its slot, marked for the collector exactly if it is a '
    'reference; each JNI Call and NewObject function returns the result unchanged. A reflective call converts each box as Java\'s method '
    'invocation conversion does and throws IllegalArgumentException for any other argument.',
    ['inputs', 'programs'],
    'for every descriptor, argument value and call form of both virtual machines',
    'Tests call a handful of signatures; long and double arguments behind others, arguments past the registers, negative narrow values, '
    'boxes of another class and null references in the middle of a list are not among them.',
    ['src/compile.cpp', 'src/interpret.cpp', 'src/machine.cpp', 'src/jnienv.cpp', 'src/avian/machine.h', 'src/avian/classpath-common.h', 'src/system/posix.cpp', 'src/avian/x86.h'],
    [('invokeNativeSlow, ArgumentList, invoke, invokeArray, invokeList', 'src/compile.cpp'),
     ('invokeNativeSlow, marshalArguments, pushArguments, pushResult, invoke', 'src/interpret.cpp'),
     ('scanMethodSpec, parameterFootprint, unbox', 'src/machine.cpp'),
     ('fieldCode, fieldType, MethodSpecIterator', 'src/avian/machine.h'),
     ('dynamicCall', 'src/avian/x86.h'),
     ('CallVoidMethodV and the other Call and NewObject functions', 'src/jnienv.cpp'),
     ('invokeMethod, translateInvokeResult', 'src/avian/classpath-common.h')],
    ['nativecalls'],
    'abstract interpretation of the marshalling code over descriptors covering every kind of type, with distinct contents in every slot',
    'For descriptors that mix every kind of type, static and not, with null and other references, each marshalling function was evaluated on '
    'slots with distinct contents and garbage in the unused halves, and the place, width and collector mark of each value compared with what the '
    'receiver reads; boxes of each class were evaluated for parameters of each primitive type.',
    'The x86-64 System V register assignment is checked; the assembly that loads the registers (vmNativeCall, vmInvoke) is '
    'not.')

claim(
    'V01', 'Volatile fields are ordered, whichever way they are accessed',
    'A write of a volatile field becomes visible after every write that precedes it and before any later read by the same thread, and a read of a '
    'volatile field happens before every access that follows it: in code the JIT compiles or the interpreter runs, with resolved and '
    'unresolved fields, static or not, of every type, and through JNI, reflection and the volatile, ordered and compare-and-swap methods of '
    'sun.misc.Unsafe. A constructor of a class with final fields returns only after its writes are ordered before those that follow. '
    'Compare-and-swap is one atomic step.',
    ['schedules', 'programs'],
    'for every access path, field type and interleaving',
    'A missing barrier shows only under a particular interleaving on a machine that reorders, and never in a single-threaded test.',
    ['src/compile.cpp', 'src/interpret.cpp', 'src/jnienv.cpp', 'src/builtin.cpp', 'src/classpath-avian.cpp', 'src/avian/machine.h', 'src/avian/x86.h', 'src/avian/arch.h', 'src/codegen/target/x86'],
    [('getfield, putfield, return_ in compile', 'src/compile.cpp'), ('interpret3', 'src/interpret.cpp'), ('FieldReadResource, FieldWriteResource', 'src/avian/machine.h'),
     ('Get and Set of fields', 'src/jnienv.cpp'), ('Avian_sun_misc_Unsafe_*', 'src/builtin.cpp'), ('Avian_java_lang_reflect_Field_*', 'src/classpath-avian.cpp'),
     ('storeLoadMemoryBarrier, atomicCompareAndSwap', 'src/avian/x86.h'), ('storeLoadBarrier', 'src/codegen/target/x86/operations.cpp')],
    ['volatile'],
    'abstract interpretation of every field access path with the volatile flag set; the primitives in the compiler\'s intermediate representation',
    'Each translation, interpreter handler, runtime function, JNI function and built-in method that accesses a field was evaluated with the field '
    'volatile, and the barriers before and after its access compared with what volatile demands; the barriers and atomic operations '
    'were examined in LLVM IR, the emitted instruction byte by byte.',
    'The order the primitives guarantee is that of the x86-64 back end. 64-bit fields on 32-bit targets (protected by a monitor) and the order '
    'of the code generator\'s own events are not covered.')

claim(
    'G03', 'The collector finds every reference held by compiled code, and nothing else',
    'At every place where compiled code can be interrupted by a collection, the frame map of that place marks exactly the local variables and '
    'operand stack slots that hold references whichever path led there: through joins, loops, exception handlers and copies of subroutines, '
    'from the parameters on. The map found for an address (on a thread stack, or in a captured continuation) is the one stored for it, and '
    'the collector visits exactly the marked slots of each frame of each stack, with the reference arguments of a method about to be called.',
    ['programs', 'schedules'],
    'for every method, control flow graph, exception table, frame size and stack',
    'A wrong bit matters only if a collection happens while a thread is at that very place and the slot is the only reference to an object that '
    'moves or dies; tests collect at a few places of a few methods.',
    ['src/compile.cpp'],
    [('calculateFrameMaps, calculateTryCatchRoots', 'src/compile.cpp'), ('Frame::set, startLogicalIp, visitLogicalIp, dispose', 'src/compile.cpp'), ('compile(MyThread*, Context*)', 'src/compile.cpp'),
     ('makeSimpleFrameMapTable, findFrameMapInSimpleTable', 'src/compile.cpp'), ('visitStackAndLocals, visitArguments, visitStack, walkContinuationBody', 'src/compile.cpp')],
    ['framemaps'],
    'symbolic transfer functions of the frame map analysis, per kind of event; writer and readers of the tables evaluated against each other',
    'The analysis is evaluated on one event at a time with symbolic maps, and its effect compared with the transfer function of that event (marks, clears, '
    'intersection at joins, contexts, handler ranges, when another pass is due); the events that each translation of a bytecode appends are '
    'compared with the types of its stack and locals; tables are written for generated maps and read back by each reader.',
    'The slots of the machine frame are those the code generator assigns (localOffset is taken as given), and the cut at the arguments of a call is '
    'the one it reports. Exception handlers inside subroutines (jsr) that are copied more than once are not covered.')

claim(
    'Q01', 'Buffers stay inside their memory, and move by what they transfer',
    'Every java.nio buffer keeps 0 <= position <= limit <= capacity and its memory: after each call of its methods, also one that throws. A get or '
    'put reads or writes exactly the units at its position (or at the index given), never outside the limit, and moves the position by what it '
    'transferred; a request that does not fit, or that writes a read-only buffer, throws and changes nothing, and one that fits is not refused. '
    'Slices, duplicates and read-only views share exactly the memory of their origin, and wrap refuses a range outside the array. Channels and '
    'readers transfer the units between position and limit, return how many, and move the position by that number.',
    ['inputs', 'histories'],
    'for every buffer state, offset, length, array and source buffer',
    'Offsets and lengths that overflow, positions next to the limit, slices of slices and failed requests are combinations of unbounded numbers; '
    'the tests use a few small buffers.',
    ['classpath/java/nio'],
    [('Buffer, ByteBuffer, CharBuffer', 'classpath/java/nio/ByteBuffer.java'), ('ArrayByteBuffer, DirectByteBuffer, FixedArrayByteBuffer, ArrayCharBuffer', 'classpath/java/nio/DirectByteBuffer.java'),
     ('SocketChannel, DatagramChannel, Channels', 'classpath/java/nio/channels/SocketChannel.java'), ('RandomAccessFile.getChannel', 'classpath/java/io/RandomAccessFile.java'),
     ('Reader.read(CharBuffer)', 'classpath/java/io/Reader.java')],
    ['buffers'],
    'symbolic evaluation of the compiled buffer classes, with the invariant of a buffer assumed at entry and proved at every exit',
    'Every path of each method, down to array accesses, System.arraycopy and Unsafe, for each concrete class and each kind of source; range, direction and '
    'position of the accesses, the state at return and throw, and new buffers are proved by linear arithmetic over 32-bit operations that may wrap.',
    'A buffer used by one thread at a time. Arrays within 128 units of 2^31 are left out, array() of a read-only buffer gives the array away, and what natives '
    'return is taken to be no more than was asked for. compareTo, equals, hashCode and buffers made with NewDirectByteBuffer are not covered.')

# ---------------------------------------------------------------- not claimed
decline(
    'H01', 'A collection preserves the reachable object graph',
    'After every minor or major collection each object reachable from the roots exists exactly once, with its contents, its identity hash '
    'and its references leading to the moved counterparts; everything unreachable is eventually reclaimed.',
    ['programs', 'histories'], 'for every heap and every sequence of minor, major and incremental collections',
    'The tests build small heaps and collect a handful of times.',
    ['src/heap/heap.cpp'], [('Segment, Fixie, collect, copy, bitset iteration', 'src/heap/heap.cpp')],
    'the collector is a computation over bitmaps, gaps and remembered sets of arbitrary size; whether the copy is the graph of the original '
    'depends on their contents at run time, for which no static domain within reach has an invariant. What other code owes the collector '
    '(roots, store reports, object masks) is claimed instead')

decline(
    'K01', 'Register allocation and code emission preserve the meaning of compiled code',
    'The machine code the JIT emits computes what the intermediate operations given to the compiler say, whatever registers, spills, joins, '
    'moves and branch distances it chooses.',
    ['programs', 'inputs'], 'for every compiled method',
    'Allocation decisions depend on the shape of the method; tests compile a few thousand ordinary methods.',
    ['src/codegen/compiler.cpp', 'src/codegen/compiler/event.cpp', 'src/codegen/compiler/site.cpp', 'src/codegen/compiler/read.cpp'],
    [('Compiler, Event, Value, Site', 'src/codegen/compiler/')],
    'the allocator searches over graphs of events, values and sites built at run time; a static argument would be a correctness proof of '
    'the whole back end, which needs a semantic model of x86 and an inductive invariant over those graphs. The translation of bytecode to '
    'the intermediate operations before it is claimed instead')

decline(
    'W01', 'Waiting threads eventually proceed',
    'A thread that waits for a monitor, a notification, a timeout, another thread or the end of a collection runs again once what it waits '
    'for has happened, and no set of threads that obey their own locking order is deadlocked by the VM.',
    ['schedules'], 'for every schedule',
    'Lost wake-ups need a particular interleaving.',
    ['src/machine.cpp', 'src/avian/machine.h', 'src/system/posix.cpp'],
    [('monitorWait, monitorNotify, monitorAcquire', 'src/avian/machine.h'), ('MyMonitor', 'src/system/posix.cpp')],
    'liveness over all interleavings: an analysis of the source can check that the calls exist in order (claimed where possible: T01, C01), '
    'not that every schedule of the lock-free monitor queues makes progress; that needs exploration of interleavings, another technique')

decline(
    'U01', 'Collections, text and number classes compute their specified results',
    'Maps, lists, sorting, string formatting, regular expressions, number parsing and printing and date handling return what the Java '
    'library specification says.',
    ['inputs', 'histories'], 'for every content and every sequence of operations',
    'The tests use small fixed inputs.',
    ['classpath/java/util', 'classpath/java/lang', 'classpath/java/text', 'classpath/avian/PersistentSet.java', 'classpath/regex'],
    [('TreeMap, HashMap, PersistentSet, Arrays.sort, Pattern, Double.parseDouble', 'classpath/java/util, classpath/avian')],
    'functional correctness of data structures whose size and shape are run-time quantities (balanced trees, hash tables, backtracking '
    'matchers); static domains give memory-safety-like facts about them, not the specified result')

decline(
    'Z02', 'Hostile class files and archives are rejected without harm',
    'Loading a malformed class file or archive throws an error and never makes the VM read outside the file or run ill-typed code.',
    ['inputs'], 'for every byte sequence offered as class file or archive',
    'Tests load well-formed files only.',
    ['src/machine.cpp', 'src/finder.cpp', 'src/avian/zlib-custom.h'],
    [('parseClass and its parts', 'src/machine.cpp'), ('JarIndex', 'src/finder.cpp')],
    'Avian does not provide this guarantee: it has no bytecode verifier and trusts the lengths and indexes of class files and archives by '
    'design (only assertions guard them), so the property does not hold and there is nothing to decide')
