From 10b8c81fdcf2267b096d49b65bc5973b10e344f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:13 +0000
Subject: [PATCH 01/63] fix: keep the class reference registered while JNI
 static field access and FindClass initialise or load classes

---
 src/jnienv.cpp | 48 +++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 43 insertions(+), 5 deletions(-)

diff --git a/src/jnienv.cpp b/src/jnienv.cpp
index 82eb3d3..fc9ad88 100644
--- a/src/jnienv.cpp
+++ b/src/jnienv.cpp
@@ -339,15 +339,17 @@ uint64_t findClass(Thread* t, uintptr_t* arguments)
   const char* name = reinterpret_cast<const char*>(arguments[0]);
 
   GcByteArray* n = makeByteArray(t, strlen(name) + 1);
+  PROTECT(t, n);
+
   replace('.', '/', name, n->body().begin());
 
   GcMethod* caller = getCaller(t, 0);
 
-  GcClass* c
-      = resolveClass(t,
-                     caller ? t->m->classpath->libraryClassLoader(t, caller)
-                            : roots(t)->appLoader(),
-                     n);
+  GcClassLoader* loader
+      = caller ? t->m->classpath->libraryClassLoader(t, caller)
+               : roots(t)->appLoader();
+
+  GcClass* c = resolveClass(t, loader, n);
 
   if (t->m->classpath->mayInitClasses()) {
     PROTECT(t, c);
@@ -1835,6 +1837,8 @@ uint64_t getStaticObjectField(Thread* t, uintptr_t* arguments)
 {
   GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
 
+  PROTECT(t, c);
+
   initClass(t, c->vmClass());
 
   GcField* field = getStaticField(t, arguments[1]);
@@ -1857,6 +1861,8 @@ uint64_t getStaticBooleanField(Thread* t, uintptr_t* arguments)
 {
   GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
 
+  PROTECT(t, c);
+
   initClass(t, c->vmClass());
 
   GcField* field = getStaticField(t, arguments[1]);
@@ -1878,6 +1884,8 @@ uint64_t getStaticByteField(Thread* t, uintptr_t* arguments)
 {
   GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
 
+  PROTECT(t, c);
+
   initClass(t, c->vmClass());
 
   GcField* field = getStaticField(t, arguments[1]);
@@ -1899,6 +1907,8 @@ uint64_t getStaticCharField(Thread* t, uintptr_t* arguments)
 {
   GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
 
+  PROTECT(t, c);
+
   initClass(t, c->vmClass());
 
   GcField* field = getStaticField(t, arguments[1]);
@@ -1920,6 +1930,8 @@ uint64_t getStaticShortField(Thread* t, uintptr_t* arguments)
 {
   GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
 
+  PROTECT(t, c);
+
   initClass(t, c->vmClass());
 
   GcField* field = getStaticField(t, arguments[1]);
@@ -1941,6 +1953,8 @@ uint64_t getStaticIntField(Thread* t, uintptr_t* arguments)
 {
   GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
 
+  PROTECT(t, c);
+
   initClass(t, c->vmClass());
 
   GcField* field = getStaticField(t, arguments[1]);
@@ -1962,6 +1976,8 @@ uint64_t getStaticLongField(Thread* t, uintptr_t* arguments)
 {
   GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
 
+  PROTECT(t, c);
+
   initClass(t, c->vmClass());
 
   GcField* field = getStaticField(t, arguments[1]);
@@ -1983,6 +1999,8 @@ uint64_t getStaticFloatField(Thread* t, uintptr_t* arguments)
 {
   GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
 
+  PROTECT(t, c);
+
   initClass(t, c->vmClass());
 
   GcField* field = getStaticField(t, arguments[1]);
@@ -2005,6 +2023,8 @@ uint64_t getStaticDoubleField(Thread* t, uintptr_t* arguments)
 {
   GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
 
+  PROTECT(t, c);
+
   initClass(t, c->vmClass());
 
   GcField* field = getStaticField(t, arguments[1]);
@@ -2027,6 +2047,8 @@ uint64_t setStaticObjectField(Thread* t, uintptr_t* arguments)
 {
   GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
 
+  PROTECT(t, c);
+
   initClass(t, c->vmClass());
 
   GcField* field = getStaticField(t, arguments[1]);
@@ -2053,6 +2075,8 @@ uint64_t setStaticBooleanField(Thread* t, uintptr_t* arguments)
 {
   GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
 
+  PROTECT(t, c);
+
   initClass(t, c->vmClass());
 
   GcField* field = getStaticField(t, arguments[1]);
@@ -2078,6 +2102,8 @@ uint64_t setStaticByteField(Thread* t, uintptr_t* arguments)
 {
   GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
 
+  PROTECT(t, c);
+
   initClass(t, c->vmClass());
 
   GcField* field = getStaticField(t, arguments[1]);
@@ -2103,6 +2129,8 @@ uint64_t setStaticCharField(Thread* t, uintptr_t* arguments)
 {
   GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
 
+  PROTECT(t, c);
+
   initClass(t, c->vmClass());
 
   GcField* field = getStaticField(t, arguments[1]);
@@ -2127,6 +2155,8 @@ uint64_t setStaticShortField(Thread* t, uintptr_t* arguments)
 {
   GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
 
+  PROTECT(t, c);
+
   initClass(t, c->vmClass());
 
   GcField* field = getStaticField(t, arguments[1]);
@@ -2152,6 +2182,8 @@ uint64_t setStaticIntField(Thread* t, uintptr_t* arguments)
 {
   GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
 
+  PROTECT(t, c);
+
   initClass(t, c->vmClass());
 
   GcField* field = getStaticField(t, arguments[1]);
@@ -2177,6 +2209,8 @@ uint64_t setStaticLongField(Thread* t, uintptr_t* arguments)
 {
   GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
 
+  PROTECT(t, c);
+
   initClass(t, c->vmClass());
 
   GcField* field = getStaticField(t, arguments[1]);
@@ -2205,6 +2239,8 @@ uint64_t setStaticFloatField(Thread* t, uintptr_t* arguments)
 {
   GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
 
+  PROTECT(t, c);
+
   initClass(t, c->vmClass());
 
   GcField* field = getStaticField(t, arguments[1]);
@@ -2230,6 +2266,8 @@ uint64_t setStaticDoubleField(Thread* t, uintptr_t* arguments)
 {
   GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
 
+  PROTECT(t, c);
+
   initClass(t, c->vmClass());
 
   GcField* field = getStaticField(t, arguments[1]);
-- 
2.43.0


From 19eef159de0336fe6ce0f6be31587f5674fa3672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:13 +0000
Subject: [PATCH 02/63] fix: register heap references that the JIT still needs
 across allocation and contended monitor release

---
 src/compile.cpp | 102 ++++++++++++++++++++++++++++++------------------
 1 file changed, 64 insertions(+), 38 deletions(-)

diff --git a/src/compile.cpp b/src/compile.cpp
index 37ff053..239b94d 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -1311,6 +1311,8 @@ Allocator* allocator(MyThread* t);
 
 unsigned addDynamic(MyThread* t, GcInvocation* invocation)
 {
+  PROTECT(t, invocation);
+
   ACQUIRE(t, t->m->classLock);
 
   int index = invocation->index();
@@ -2188,10 +2190,15 @@ void findUnwindTarget(MyThread* t,
   GcMethod* target = t->trace->targetMethod;
   bool mostRecent = true;
 
+  PROTECT(t, continuation);
+  PROTECT(t, target);
+
   *targetIp = 0;
   while (*targetIp == 0) {
     GcMethod* method = methodForIp(t, ip);
     if (method) {
+      PROTECT(t, method);
+
       void* handler = findExceptionHandler(t, method, ip);
 
       if (handler) {
@@ -2229,6 +2236,7 @@ void findUnwindTarget(MyThread* t,
 
       while (Continuations and *targetContinuation) {
         GcContinuation* c = *targetContinuation;
+        PROTECT(t, c);
 
         GcMethod* method = c->method();
 
@@ -2838,6 +2846,9 @@ void NO_RETURN throw_(MyThread* t, GcThrowable* o)
 
 void checkCast(MyThread* t, GcClass* class_, object o)
 {
+  PROTECT(t, class_);
+  PROTECT(t, o);
+
   if (UNLIKELY(o and not isAssignableFrom(t, class_, objectClass(t, o)))) {
     GcByteArray* classNameFrom = objectClass(t, o)->name();
     GcByteArray* classNameTo = class_->name();
@@ -3348,16 +3359,14 @@ void compileDirectReferenceInvoke(MyThread* t,
 
   GcPair* pair = makePair(t, frame->context->method, reference);
 
-  compileReferenceInvoke(
-      frame,
-      c->nativeCall(c->constant(getThunk(t, thunk), ir::Type::iptr()),
-                    0,
-                    frame->trace(0, 0),
-                    ir::Type::iptr(),
-                    args(c->threadRegister(), frame->append(pair))),
-      reference,
-      isStatic,
-      tailCall);
+  ir::Value* method
+      = c->nativeCall(c->constant(getThunk(t, thunk), ir::Type::iptr()),
+                      0,
+                      frame->trace(0, 0),
+                      ir::Type::iptr(),
+                      args(c->threadRegister(), frame->append(pair)));
+
+  compileReferenceInvoke(frame, method, reference, isStatic, tailCall);
 }
 
 void compileAbstractInvoke(Frame* frame,
@@ -3377,15 +3386,16 @@ void compileDirectAbstractInvoke(MyThread* t,
 {
   avian::codegen::Compiler* c = frame->c;
 
-  compileAbstractInvoke(
-      frame,
-      c->nativeCall(c->constant(getThunk(t, thunk), ir::Type::iptr()),
-                    0,
-                    frame->trace(0, 0),
-                    ir::Type::iptr(),
-                    args(c->threadRegister(), frame->append(target))),
-      target,
-      tailCall);
+  PROTECT(t, target);
+
+  ir::Value* method
+      = c->nativeCall(c->constant(getThunk(t, thunk), ir::Type::iptr()),
+                      0,
+                      frame->trace(0, 0),
+                      ir::Type::iptr(),
+                      args(c->threadRegister(), frame->append(target)));
+
+  compileAbstractInvoke(frame, method, target, tailCall);
 }
 
 void handleMonitorEvent(MyThread* t, Frame* frame, intptr_t function)
@@ -5203,6 +5213,7 @@ loop:
               int kind = handle->kind();
 
               GcMethod* method = handle->method();
+              PROTECT(t, method);
 
               jarray lambda = e->vtable->CallStaticObjectMethod(
                   e,
@@ -5241,14 +5252,13 @@ loop:
               uint8_t* bytes = reinterpret_cast<uint8_t*>(
                   e->vtable->GetPrimitiveArrayCritical(e, lambda, 0));
 
+              unsigned byteCount = e->vtable->GetArrayLength(e, lambda);
+
               GcClass* lambdaClass
-                  = defineClass(t,
-                                roots(t)->appLoader(),
-                                bytes,
-                                e->vtable->GetArrayLength(e, lambda));
+                  = defineClass(t, roots(t)->appLoader(), bytes, byteCount);
+              PROTECT(t, lambdaClass);
 
-              bc->resolver->addClass(
-                  t, lambdaClass, bytes, e->vtable->GetArrayLength(e, lambda));
+              bc->resolver->addClass(t, lambdaClass, bytes, byteCount);
 
               e->vtable->ReleasePrimitiveArrayCritical(e, lambda, bytes, 0);
 
@@ -5508,19 +5518,21 @@ loop:
 
         GcPair* pair = makePair(t, context->method, reference);
 
+        ir::Value* method = c->nativeCall(
+            c->constant(getThunk(t, findVirtualMethodFromReferenceThunk),
+                        ir::Type::iptr()),
+            0,
+            frame->trace(0, 0),
+            ir::Type::iptr(),
+            args(c->threadRegister(),
+                 frame->append(pair),
+                 c->peek(1,
+                         methodReferenceParameterFootprint(t, ref, false)
+                         - 1)));
+
         compileReferenceInvoke(
             frame,
-            c->nativeCall(
-                c->constant(getThunk(t, findVirtualMethodFromReferenceThunk),
-                            ir::Type::iptr()),
-                0,
-                frame->trace(0, 0),
-                ir::Type::iptr(),
-                args(c->threadRegister(),
-                     frame->append(pair),
-                     c->peek(1,
-                             methodReferenceParameterFootprint(t, ref, false)
-                             - 1))),
+            method,
             ref,
             false,
             isReferenceTailCall(t, code, ip, context->method, ref));
@@ -8023,6 +8035,9 @@ void callContinuation(MyThread* t,
 
     MyThread::TraceContext c(t, ip, stack, continuation, t->trace);
 
+    PROTECT(t, continuation);
+    PROTECT(t, result);
+
     void* frame;
     findUnwindTarget(t, &ip, &frame, &stack, &continuation);
   }
@@ -8165,6 +8180,9 @@ void callContinuation(MyThread* t,
       if (unwindContext and unwindContext->continuation()) {
         nextContinuation
             = cast<GcContinuation>(t, unwindContext->continuation());
+
+        PROTECT(t, nextContinuation);
+
         result = makeUnwindResult(t, continuation, result, exception);
         action = Unwind;
       } else if (rewindContext and rewindContext->continuation()) {
@@ -8203,7 +8221,14 @@ void callContinuation(MyThread* t,
   void* frame;
   void* stack;
   GcContinuation* threadContinuation;
-  findUnwindTarget(t, &ip, &frame, &stack, &threadContinuation);
+  {
+    PROTECT(t, continuation);
+    PROTECT(t, result);
+    PROTECT(t, exception);
+    PROTECT(t, nextContinuation);
+
+    findUnwindTarget(t, &ip, &frame, &stack, &threadContinuation);
+  }
 
   switch (action) {
   case Call: {
@@ -10603,7 +10628,8 @@ uintptr_t virtualThunk(MyThread* t, unsigned index)
   GcWordArray* oldArray = compileRoots(t)->virtualThunks();
   if (oldArray == 0 or oldArray->length() <= index * 2) {
     GcWordArray* newArray = makeWordArray(t, nextPowerOfTwo((index + 1) * 2));
-    if (compileRoots(t)->virtualThunks()) {
+    oldArray = compileRoots(t)->virtualThunks();
+    if (oldArray) {
       memcpy(newArray->body().begin(),
              oldArray->body().begin(),
              oldArray->length() * BytesPerWord);
-- 
2.43.0


From e0de69be214a2403a7bddf800766bfcce7b9017d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:13 +0000
Subject: [PATCH 03/63] fix: register heap references that the interpreter
 still needs across monitor and class loading calls

---
 src/interpret.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/interpret.cpp b/src/interpret.cpp
index 6ed8fef..e9daa7b 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -622,6 +622,8 @@ unsigned invokeNative(Thread* t, GcMethod* method)
   resolveNative(t, method);
 
   GcNative* native = getMethodRuntimeData(t, method)->native();
+  PROTECT(t, native);
+
   if (native->fast()) {
     pushFrame(t, method);
 
@@ -905,6 +907,8 @@ loop:
   case areturn: {
     object result = popObject(t);
     if (frame > base) {
+      PROTECT(t, result);
+
       popFrame(t);
       pushObject(t, result);
       goto loop;
@@ -1097,6 +1101,8 @@ loop:
       if (UNLIKELY(exception))
         goto throw_;
 
+      PROTECT(t, class_);
+
       if (not instanceOf(t, class_, peekObject(t, sp - 1))) {
         exception = makeThrowable(
             t,
@@ -3213,6 +3219,8 @@ object invoke(Thread* t, GcMethod* method)
     result = interpret(t);
 
     if (LIKELY(t->exception == 0)) {
+      PROTECT(t, result);
+
       popFrame(t);
     } else {
       GcThrowable* exception = t->exception;
-- 
2.43.0


From c6836a160209cd5656f9d38091bb1a8d9e79617e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:13 +0000
Subject: [PATCH 04/63] fix: register heap references live across collection
 points in the core runtime

---
 src/avian/machine.h | 8 +++++++-
 src/builtin.cpp     | 1 +
 src/machine.cpp     | 7 +++++++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/avian/machine.h b/src/avian/machine.h
index 46b3909..007a8a5 100644
--- a/src/avian/machine.h
+++ b/src/avian/machine.h
@@ -2419,7 +2419,11 @@ inline GcClass* resolveSystemClass(Thread* t,
                                    GcClassLoader* loader,
                                    const char* name)
 {
-  return resolveSystemClass(t, loader, makeByteArray(t, "%s", name));
+  PROTECT(t, loader);
+
+  GcByteArray* array = makeByteArray(t, "%s", name);
+
+  return resolveSystemClass(t, loader, array);
 }
 
 void linkClass(Thread* t, GcClassLoader* loader, GcClass* class_);
@@ -3751,6 +3755,8 @@ inline void unregisterNatives(Thread* t, GcClass* c)
 {
   GcArray* table = cast<GcArray>(t, c->methodTable());
   if (table) {
+    PROTECT(t, table);
+
     for (unsigned i = 0; i < table->length(); ++i) {
       GcMethod* method = cast<GcMethod>(t, table->body()[i]);
       if (method->flags() & ACC_NATIVE) {
diff --git a/src/builtin.cpp b/src/builtin.cpp
index 4369ec6..f666b9a 100644
--- a/src/builtin.cpp
+++ b/src/builtin.cpp
@@ -1054,6 +1054,7 @@ extern "C" AVIAN_EXPORT void JNICALL
     Avian_sun_misc_Unsafe_unpark(Thread* t, object, uintptr_t* arguments)
 {
   GcThread* thread = cast<GcThread>(t, reinterpret_cast<object>(arguments[1]));
+  PROTECT(t, thread);
 
   monitorAcquire(t, cast<GcMonitor>(t, interruptLock(t, thread)));
   thread->unparked() = true;
diff --git a/src/machine.cpp b/src/machine.cpp
index 1383da4..da531b3 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -4598,6 +4598,9 @@ bool isAssignableFrom(Thread* t, GcClass* a, GcClass* b)
 
   if (a->flags() & ACC_INTERFACE) {
     if (b->vmFlags() & BootstrapFlag) {
+      PROTECT(t, a);
+      PROTECT(t, b);
+
       uintptr_t arguments[] = {reinterpret_cast<uintptr_t>(b->name())};
 
       if (run(t, resolveBootstrap, arguments) == 0) {
@@ -5232,6 +5235,8 @@ void postInitClass(Thread* t, GcClass* c)
     c->vmFlags() &= ~InitFlag;
 
     GcThrowable* exception = t->exception;
+    PROTECT(t, exception);
+
     t->exception = 0;
 
     GcExceptionInInitializerError* initExecption
@@ -5510,6 +5515,8 @@ object clone(Thread* t, object o)
   PROTECT(t, o);
 
   GcClass* class_ = objectClass(t, o);
+  PROTECT(t, class_);
+
   unsigned size = baseSize(t, o, class_) * BytesPerWord;
   object clone;
 
-- 
2.43.0


From 007a65c2a81652d0148fbe83fddb2b48e415edf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:13 +0000
Subject: [PATCH 05/63] fix: register heap references live across collection
 points in the class library bridge

---
 src/avian/classpath-common.h | 4 ++++
 src/classpath-openjdk.cpp    | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/avian/classpath-common.h b/src/avian/classpath-common.h
index 78328ca..47b6f79 100644
--- a/src/avian/classpath-common.h
+++ b/src/avian/classpath-common.h
@@ -691,6 +691,8 @@ Finder* getFinder(Thread* t, const char* name, size_t nameLength)
 
 object getDeclaredClasses(Thread* t, GcClass* c, bool publicOnly)
 {
+  PROTECT(t, c);
+
   GcClassAddendum* addendum = c->addendum();
   if (addendum) {
     GcArray* table = cast<GcArray>(t, addendum->innerClassTable());
@@ -771,11 +773,13 @@ object makeMethod(Thread* t, GcJclass* class_, int index)
 
   if (method->name()->body()[0] == '<') {
     object oldInstance = instance;
+    PROTECT(t, oldInstance);
 
     c = resolveClass(
         t, roots(t)->bootLoader(), "java/lang/reflect/Constructor");
 
     object instance = makeNew(t, c);
+    PROTECT(t, instance);
 
     GcMethod* constructor
         = resolveMethod(t, c, "<init>", "(Ljava/lang/Method;)V");
diff --git a/src/classpath-openjdk.cpp b/src/classpath-openjdk.cpp
index a2d6c62..c29a936 100644
--- a/src/classpath-openjdk.cpp
+++ b/src/classpath-openjdk.cpp
@@ -2720,6 +2720,7 @@ object makeJfield(Thread* t, GcField* vmField, int index)
   PROTECT(t, type);
 
   GcJclass* jtype = getJClass(t, type);
+  PROTECT(t, jtype);
 
   object signature;
   object annotationTable;
@@ -4971,6 +4972,7 @@ uint64_t jvmInvokeMethod(Thread* t, uintptr_t* arguments)
       cast<GcArray>(
           t, cast<GcJmethod>(t, *method)->clazz()->vmClass()->methodTable())
           ->body()[cast<GcJmethod>(t, *method)->slot()]);
+  PROTECT(t, vmMethod);
 
   if (vmMethod->flags() & ACC_STATIC) {
     instance = 0;
@@ -5217,6 +5219,7 @@ uint64_t jvmDoPrivileged(Thread* t, uintptr_t* arguments)
 
   GcClass* privilegedAction = resolveClass(
       t, roots(t)->bootLoader(), "java/security/PrivilegedAction");
+  PROTECT(t, privilegedAction);
 
   GcMethod* method;
   if (instanceOf(t, privilegedAction, *action)) {
@@ -5924,6 +5927,8 @@ uint64_t getEnclosingMethodInfo(Thread* t, uintptr_t* arguments)
 
   GcClassAddendum* addendum = class_->addendum();
   if (addendum) {
+    PROTECT(t, addendum);
+
     object enclosingClass = addendum->enclosingClass();
     if (enclosingClass) {
       PROTECT(t, enclosingClass);
-- 
2.43.0


From 74b58ecb7d11ff36d49829aee612b3edfed4bec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:28 +0000
Subject: [PATCH 06/63] fix: construct java.lang.reflect.Constructor through
 the constructor it has, and return it

---
 src/avian/classpath-common.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/avian/classpath-common.h b/src/avian/classpath-common.h
index 47b6f79..a769b5b 100644
--- a/src/avian/classpath-common.h
+++ b/src/avian/classpath-common.h
@@ -778,11 +778,10 @@ object makeMethod(Thread* t, GcJclass* class_, int index)
     c = resolveClass(
         t, roots(t)->bootLoader(), "java/lang/reflect/Constructor");
 
-    object instance = makeNew(t, c);
-    PROTECT(t, instance);
+    instance = makeNew(t, c);
 
     GcMethod* constructor
-        = resolveMethod(t, c, "<init>", "(Ljava/lang/Method;)V");
+        = resolveMethod(t, c, "<init>", "(Ljava/lang/reflect/Method;)V");
 
     t->m->processor->invoke(t, constructor, instance, oldInstance);
   }
-- 
2.43.0


From 4604330c84bab1f7cb8b3ac5a898e6459a66cf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:28 +0000
Subject: [PATCH 07/63] fix: declare Socket.create and Thread.interrupt with
 the types their implementations return

---
 classpath/java-net.cpp          | 2 +-
 classpath/java/lang/Thread.java | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/classpath/java-net.cpp b/classpath/java-net.cpp
index 71a128a..d5de6f4 100644
--- a/classpath/java-net.cpp
+++ b/classpath/java-net.cpp
@@ -20,7 +20,7 @@ extern "C" JNIEXPORT void JNICALL Java_java_net_Socket_init(JNIEnv* e, jclass)
   init(e);
 }
 
-extern "C" JNIEXPORT SOCKET JNICALL
+extern "C" JNIEXPORT jlong JNICALL
     Java_java_net_Socket_create(JNIEnv* e, jclass)
 {
   return create(e);
diff --git a/classpath/java/lang/Thread.java b/classpath/java/lang/Thread.java
index 0dea70a..30efb54 100644
--- a/classpath/java/lang/Thread.java
+++ b/classpath/java/lang/Thread.java
@@ -146,7 +146,7 @@ public class Thread implements Runnable {
     interrupt(peer);
   }
 
-  private static native boolean interrupt(long peer);
+  private static native void interrupt(long peer);
 
   public static boolean interrupted() {
     return interrupted(currentThread().peer);
-- 
2.43.0


From 145909f3945786e14a5a39b68967c994fa945c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:58 +0000
Subject: [PATCH 08/63] fix: push one result when interpreting a floating-point
 comparison with NaN

---
 src/interpret.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/interpret.cpp b/src/interpret.cpp
index e9daa7b..797c54a 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -1220,8 +1220,7 @@ loop:
 
     if (isNaN(a) or isNaN(b)) {
       pushInt(t, 1);
-    }
-    if (a < b) {
+    } else if (a < b) {
       pushInt(t, static_cast<unsigned>(-1));
     } else if (a > b) {
       pushInt(t, 1);
@@ -1239,8 +1238,7 @@ loop:
 
     if (isNaN(a) or isNaN(b)) {
       pushInt(t, static_cast<unsigned>(-1));
-    }
-    if (a < b) {
+    } else if (a < b) {
       pushInt(t, static_cast<unsigned>(-1));
     } else if (a > b) {
       pushInt(t, 1);
@@ -1474,8 +1472,7 @@ loop:
 
     if (isNaN(a) or isNaN(b)) {
       pushInt(t, 1);
-    }
-    if (a < b) {
+    } else if (a < b) {
       pushInt(t, static_cast<unsigned>(-1));
     } else if (a > b) {
       pushInt(t, 1);
@@ -1493,8 +1490,7 @@ loop:
 
     if (isNaN(a) or isNaN(b)) {
       pushInt(t, static_cast<unsigned>(-1));
-    }
-    if (a < b) {
+    } else if (a < b) {
       pushInt(t, static_cast<unsigned>(-1));
     } else if (a > b) {
       pushInt(t, 1);
-- 
2.43.0


From cb3bbf5b2bd1cc36fa032f13a0b93a70376f3427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:58 +0000
Subject: [PATCH 09/63] fix: saturate out-of-range values when interpreting f2l

---
 src/interpret.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/interpret.cpp b/src/interpret.cpp
index 797c54a..89c2e08 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -1405,7 +1405,10 @@ loop:
       pushLong(t, signbit(f) ? INT64_MIN : INT64_MAX);
       break;
     default:
-      pushLong(t, static_cast<int64_t>(f));
+      pushLong(t,
+               f >= INT64_MAX
+                   ? INT64_MAX
+                   : (f <= INT64_MIN ? INT64_MIN : static_cast<int64_t>(f)));
       break;
     }
   }
-- 
2.43.0


From 88cc3118ef9b17fac237471e987e451925ea9b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:58 +0000
Subject: [PATCH 10/63] fix: interpret integer division and remainder by -1
 without trapping

---
 src/interpret.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/interpret.cpp b/src/interpret.cpp
index 89c2e08..8cc894c 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -1745,7 +1745,8 @@ loop:
       goto throw_;
     }
 
-    pushInt(t, a / b);
+    // dividing by -1 overflows for the most negative dividend
+    pushInt(t, b == -1 ? -static_cast<uint32_t>(a) : a / b);
   }
     goto loop;
 
@@ -2110,7 +2111,8 @@ loop:
       goto throw_;
     }
 
-    pushInt(t, a % b);
+    // dividing by -1 overflows for the most negative dividend
+    pushInt(t, b == -1 ? 0 : a % b);
   }
     goto loop;
 
@@ -2360,7 +2362,8 @@ loop:
       goto throw_;
     }
 
-    pushLong(t, a / b);
+    // dividing by -1 overflows for the most negative dividend
+    pushLong(t, b == -1 ? -static_cast<uint64_t>(a) : a / b);
   }
     goto loop;
 
@@ -2457,7 +2460,8 @@ loop:
       goto throw_;
     }
 
-    pushLong(t, a % b);
+    // dividing by -1 overflows for the most negative dividend
+    pushLong(t, b == -1 ? 0 : a % b);
   }
     goto loop;
 
-- 
2.43.0


From be4afe50f04fc15f5b37178c5d946d802a583536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:58 +0000
Subject: [PATCH 11/63] fix: zero-extend char fields in the interpreter

---
 src/interpret.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/interpret.cpp b/src/interpret.cpp
index 8cc894c..fc24c16 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -735,6 +735,9 @@ void pushField(Thread* t, object target, GcField* field)
     break;
 
   case CharField:
+    pushInt(t, fieldAtOffset<uint16_t>(target, field->offset()));
+    break;
+
   case ShortField:
     pushInt(t, fieldAtOffset<int16_t>(target, field->offset()));
     break;
-- 
2.43.0


From 29535a122f6c9047812b446694268dd5ff3c98e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:58 +0000
Subject: [PATCH 12/63] fix: interpret the wide forms of all loads and stores,
 with unsigned indexes

---
 src/interpret.cpp | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/interpret.cpp b/src/interpret.cpp
index fc24c16..6a9482a 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -2947,12 +2947,16 @@ loop:
 wide:
   switch (code->body()[ip++]) {
   case aload: {
-    pushObject(t, localObject(t, codeReadInt16(t, code, ip)));
+    uint16_t index = codeReadInt16(t, code, ip);
+
+    pushObject(t, localObject(t, index));
   }
     goto loop;
 
   case astore: {
-    setLocalObject(t, codeReadInt16(t, code, ip), popObject(t));
+    uint16_t index = codeReadInt16(t, code, ip);
+
+    setLocalObject(t, index, popObject(t));
   }
     goto loop;
 
@@ -2964,28 +2968,42 @@ wide:
   }
     goto loop;
 
+  case fload:
   case iload: {
-    pushInt(t, localInt(t, codeReadInt16(t, code, ip)));
+    uint16_t index = codeReadInt16(t, code, ip);
+
+    pushInt(t, localInt(t, index));
   }
     goto loop;
 
+  case fstore:
   case istore: {
-    setLocalInt(t, codeReadInt16(t, code, ip), popInt(t));
+    uint16_t index = codeReadInt16(t, code, ip);
+
+    setLocalInt(t, index, popInt(t));
   }
     goto loop;
 
+  case dload:
   case lload: {
-    pushLong(t, localLong(t, codeReadInt16(t, code, ip)));
+    uint16_t index = codeReadInt16(t, code, ip);
+
+    pushLong(t, localLong(t, index));
   }
     goto loop;
 
+  case dstore:
   case lstore: {
-    setLocalLong(t, codeReadInt16(t, code, ip), popLong(t));
+    uint16_t index = codeReadInt16(t, code, ip);
+
+    setLocalLong(t, index, popLong(t));
   }
     goto loop;
 
   case ret: {
-    ip = localInt(t, codeReadInt16(t, code, ip));
+    uint16_t index = codeReadInt16(t, code, ip);
+
+    ip = localInt(t, index);
   }
     goto loop;
 
-- 
2.43.0


From 32564d9d890c3bacacc3dfcd979373eed338faba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:16 +0000
Subject: [PATCH 13/63] fix: Socket send and receive no longer stop all
 collections while they wait

They ran as fast natives, so the thread counted as active while it waited for
the network and no other thread could collect garbage until data arrived.
---
 classpath/java-net.cpp | 60 ++++++++++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 20 deletions(-)

diff --git a/classpath/java-net.cpp b/classpath/java-net.cpp
index d5de6f4..4529283 100644
--- a/classpath/java-net.cpp
+++ b/classpath/java-net.cpp
@@ -9,7 +9,6 @@
    details. */
 
 #include "jni.h"
-#include "avian/machine.h"
 #include "sockets.h"
 #include "jni-util.h"
 
@@ -69,27 +68,48 @@ extern "C" JNIEXPORT void JNICALL
 }
 
 extern "C" JNIEXPORT void JNICALL
-    Avian_java_net_Socket_send(vm::Thread* t, vm::object, uintptr_t* arguments)
-{ /* SOCKET s, object buffer_obj, int start_pos, int count  */
-  SOCKET& s = *(reinterpret_cast<SOCKET*>(&arguments[0]));
-  vm::GcByteArray* buffer_obj = vm::cast<vm::GcByteArray>(
-      t, reinterpret_cast<vm::object>(arguments[2]));
-  int32_t& start_pos = *(reinterpret_cast<int32_t*>(&arguments[3]));
-  int32_t& count = *(reinterpret_cast<int32_t*>(&arguments[4]));
-  char* buffer = reinterpret_cast<char*>(&buffer_obj->body()[start_pos]);
-  avian::classpath::sockets::send((JNIEnv*)t, s, buffer, count);
+    Java_java_net_Socket_send(JNIEnv* e,
+                              jclass,
+                              jlong sock,
+                              jbyteArray buffer,
+                              jint start,
+                              jint count)
+{
+  char* data = static_cast<char*>(malloc(count));
+  if (data == 0) {
+    throwNew(e, "java/lang/OutOfMemoryError", 0);
+    return;
+  }
+
+  e->GetByteArrayRegion(buffer, start, count, reinterpret_cast<jbyte*>(data));
+
+  send(e, static_cast<SOCKET>(sock), data, count);
+
+  free(data);
 }
 
-extern "C" JNIEXPORT int64_t JNICALL
-    Avian_java_net_Socket_recv(vm::Thread* t, vm::object, uintptr_t* arguments)
-{ /* SOCKET s, object buffer_obj, int start_pos, int count  */
-  SOCKET& s = *(reinterpret_cast<SOCKET*>(&arguments[0]));
-  vm::GcByteArray* buffer_obj = vm::cast<vm::GcByteArray>(
-      t, reinterpret_cast<vm::object>(arguments[2]));
-  int32_t& start_pos = *(reinterpret_cast<int32_t*>(&arguments[3]));
-  int32_t& count = *(reinterpret_cast<int32_t*>(&arguments[4]));
-  char* buffer = reinterpret_cast<char*>(&buffer_obj->body()[start_pos]);
-  return avian::classpath::sockets::recv((JNIEnv*)t, s, buffer, count);
+extern "C" JNIEXPORT jint JNICALL
+    Java_java_net_Socket_recv(JNIEnv* e,
+                              jclass,
+                              jlong sock,
+                              jbyteArray buffer,
+                              jint start,
+                              jint count)
+{
+  char* data = static_cast<char*>(malloc(count));
+  if (data == 0) {
+    throwNew(e, "java/lang/OutOfMemoryError", 0);
+    return 0;
+  }
+
+  int r = recv(e, static_cast<SOCKET>(sock), data, count);
+  if (r > 0) {
+    e->SetByteArrayRegion(buffer, start, r, reinterpret_cast<jbyte*>(data));
+  }
+
+  free(data);
+
+  return r;
 }
 
 extern "C" JNIEXPORT jint JNICALL
-- 
2.43.0


From c65a51b2c6b75d3131f081ee422569aff0c8f22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:16 +0000
Subject: [PATCH 14/63] fix: FileInputStream.read changes only the array
 elements it has read

---
 classpath/java-io.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/classpath/java-io.cpp b/classpath/java-io.cpp
index dc76e5f..ef5a6fd 100644
--- a/classpath/java-io.cpp
+++ b/classpath/java-io.cpp
@@ -770,7 +770,9 @@ extern "C" JNIEXPORT jint JNICALL
 
   int r = doRead(e, fd, data, length);
 
-  e->SetByteArrayRegion(b, offset, length, data);
+  if (r > 0) {
+    e->SetByteArrayRegion(b, offset, r, data);
+  }
 
   free(data);
 
-- 
2.43.0


From 209015a10804c386d46203b27c0852fc3a45b11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:16 +0000
Subject: [PATCH 15/63] fix: the socket input stream returns bytes as unsigned
 values

0xff was reported as end of stream.
---
 classpath/java/net/Socket.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classpath/java/net/Socket.java b/classpath/java/net/Socket.java
index 9a32b88..21bf31e 100644
--- a/classpath/java/net/Socket.java
+++ b/classpath/java/net/Socket.java
@@ -81,7 +81,7 @@ public class Socket implements Closeable, AutoCloseable {
 			if (size == 0) {
 				return -1;
 			}
-			return buffer[0];
+			return buffer[0] & 0xff;
 		}
 		
 		@Override
-- 
2.43.0


From e3c2ab5baa239fd93dec95e3f69fbbb02271e447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:58 +0000
Subject: [PATCH 16/63] fix: the heap dump at an out-of-memory error stops the
 other threads while it reads the heap

---
 src/avian/machine.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/avian/machine.h b/src/avian/machine.h
index 007a8a5..715eb03 100644
--- a/src/avian/machine.h
+++ b/src/avian/machine.h
@@ -2587,7 +2587,10 @@ inline void NO_RETURN throw_(Thread* t, GcThrowable* e)
       if (path) {
         FILE* out = vm::fopen(path, "wb");
         if (out) {
-          dumpHeap(t, out);
+          {
+            ENTER(t, Thread::ExclusiveState);
+            dumpHeap(t, out);
+          }
           fclose(out);
         }
       }
-- 
2.43.0


From fc14c13b345c5ea6fe99879d7d58fc3e0546b5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:26 +0000
Subject: [PATCH 17/63] fix: JNI array region, element and creation functions
 reject ranges outside the array

---
 src/jnienv.cpp | 66 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 50 insertions(+), 16 deletions(-)

diff --git a/src/jnienv.cpp b/src/jnienv.cpp
index fc9ad88..48915bf 100644
--- a/src/jnienv.cpp
+++ b/src/jnienv.cpp
@@ -2377,6 +2377,10 @@ uint64_t newObjectArray(Thread* t, uintptr_t* arguments)
   jclass class_ = reinterpret_cast<jclass>(arguments[1]);
   jobject init = reinterpret_cast<jobject>(arguments[2]);
 
+  if (length < 0) {
+    throwNew(t, GcNegativeArraySizeException::Type);
+  }
+
   object a = makeObjectArray(t, (*class_)->vmClass(), length);
   object value = (init ? *init : 0);
   for (jsize i = 0; i < length; ++i) {
@@ -2395,11 +2399,33 @@ jobjectArray JNICALL
   return reinterpret_cast<jobjectArray>(run(t, newObjectArray, arguments));
 }
 
+uint64_t throwArrayIndexOutOfBounds(Thread* t, uintptr_t*)
+{
+  throwNew(t, GcArrayIndexOutOfBoundsException::Type);
+}
+
+// returns whether there is anything to copy; a region which is not part
+// of the array leaves an ArrayIndexOutOfBoundsException pending
+bool inRegion(Thread* t, uintptr_t arrayLength, jint offset, jint length)
+{
+  if (offset < 0 or length < 0
+      or static_cast<uint64_t>(offset) + static_cast<uint64_t>(length)
+         > arrayLength) {
+    run(t, throwArrayIndexOutOfBounds, 0);
+    return false;
+  }
+  return length > 0;
+}
+
 jobject JNICALL
     GetObjectArrayElement(Thread* t, jobjectArray array, jsize index)
 {
   ENTER(t, Thread::ActiveState);
 
+  if (not inRegion(t, fieldAtOffset<uintptr_t>(*array, BytesPerWord), index, 1)) {
+    return 0;
+  }
+
   return makeLocalReference(
       t, objectArrayBody(t, reinterpret_cast<object>(*array), index));
 }
@@ -2411,6 +2437,10 @@ void JNICALL SetObjectArrayElement(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
+  if (not inRegion(t, fieldAtOffset<uintptr_t>(*array, BytesPerWord), index, 1)) {
+    return;
+  }
+
   setField(t,
            reinterpret_cast<object>(*array),
            ArrayBody + (index * BytesPerWord),
@@ -2424,6 +2454,10 @@ uint64_t newArray(Thread* t, uintptr_t* arguments)
 
   jsize length = arguments[1];
 
+  if (length < 0) {
+    throwNew(t, GcNegativeArraySizeException::Type);
+  }
+
   return reinterpret_cast<uint64_t>(
       makeLocalReference(t, constructor(t, length)));
 }
@@ -2808,7 +2842,7 @@ void JNICALL GetBooleanArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (inRegion(t, (*array)->length(), offset, length)) {
     memcpy(dst, &(*array)->body()[offset], length * sizeof(jboolean));
   }
 }
@@ -2821,7 +2855,7 @@ void JNICALL GetByteArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (inRegion(t, (*array)->length(), offset, length)) {
     memcpy(dst, &(*array)->body()[offset], length * sizeof(jbyte));
   }
 }
@@ -2834,7 +2868,7 @@ void JNICALL GetCharArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (inRegion(t, (*array)->length(), offset, length)) {
     memcpy(dst, &(*array)->body()[offset], length * sizeof(jchar));
   }
 }
@@ -2847,7 +2881,7 @@ void JNICALL GetShortArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (inRegion(t, (*array)->length(), offset, length)) {
     memcpy(dst, &(*array)->body()[offset], length * sizeof(jshort));
   }
 }
@@ -2860,7 +2894,7 @@ void JNICALL GetIntArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (inRegion(t, (*array)->length(), offset, length)) {
     memcpy(dst, &(*array)->body()[offset], length * sizeof(jint));
   }
 }
@@ -2873,7 +2907,7 @@ void JNICALL GetLongArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (inRegion(t, (*array)->length(), offset, length)) {
     memcpy(dst, &(*array)->body()[offset], length * sizeof(jlong));
   }
 }
@@ -2886,7 +2920,7 @@ void JNICALL GetFloatArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (inRegion(t, (*array)->length(), offset, length)) {
     memcpy(dst, &(*array)->body()[offset], length * sizeof(jfloat));
   }
 }
@@ -2899,7 +2933,7 @@ void JNICALL GetDoubleArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (inRegion(t, (*array)->length(), offset, length)) {
     memcpy(dst, &(*array)->body()[offset], length * sizeof(jdouble));
   }
 }
@@ -2912,7 +2946,7 @@ void JNICALL SetBooleanArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (inRegion(t, (*array)->length(), offset, length)) {
     memcpy(&(*array)->body()[offset], src, length * sizeof(jboolean));
   }
 }
@@ -2925,7 +2959,7 @@ void JNICALL SetByteArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (inRegion(t, (*array)->length(), offset, length)) {
     memcpy(&(*array)->body()[offset], src, length * sizeof(jbyte));
   }
 }
@@ -2938,7 +2972,7 @@ void JNICALL SetCharArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (inRegion(t, (*array)->length(), offset, length)) {
     memcpy(&(*array)->body()[offset], src, length * sizeof(jchar));
   }
 }
@@ -2951,7 +2985,7 @@ void JNICALL SetShortArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (inRegion(t, (*array)->length(), offset, length)) {
     memcpy(&(*array)->body()[offset], src, length * sizeof(jshort));
   }
 }
@@ -2964,7 +2998,7 @@ void JNICALL SetIntArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (inRegion(t, (*array)->length(), offset, length)) {
     memcpy(&(*array)->body()[offset], src, length * sizeof(jint));
   }
 }
@@ -2977,7 +3011,7 @@ void JNICALL SetLongArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (inRegion(t, (*array)->length(), offset, length)) {
     memcpy(&(*array)->body()[offset], src, length * sizeof(jlong));
   }
 }
@@ -2990,7 +3024,7 @@ void JNICALL SetFloatArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (inRegion(t, (*array)->length(), offset, length)) {
     memcpy(&(*array)->body()[offset], src, length * sizeof(jfloat));
   }
 }
@@ -3003,7 +3037,7 @@ void JNICALL SetDoubleArrayRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  if (length) {
+  if (inRegion(t, (*array)->length(), offset, length)) {
     memcpy(&(*array)->body()[offset], src, length * sizeof(jdouble));
   }
 }
-- 
2.43.0


From d005217bf51545d2069845a6791e00f0d637ff3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:25 +0000
Subject: [PATCH 18/63] fix: DataInputStream and RandomAccessFile readFloat and
 readDouble return the number whose bits were read

---
 classpath/java/io/DataInputStream.java  | 4 ++--
 classpath/java/io/RandomAccessFile.java | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/classpath/java/io/DataInputStream.java b/classpath/java/io/DataInputStream.java
index a80d93c..f1f9a6b 100644
--- a/classpath/java/io/DataInputStream.java
+++ b/classpath/java/io/DataInputStream.java
@@ -73,11 +73,11 @@ public class DataInputStream extends InputStream implements DataInput {
   }
 
   public float readFloat() throws IOException {
-    return Float.floatToIntBits(readInt());
+    return Float.intBitsToFloat(readInt());
   }
 
   public double readDouble() throws IOException {
-    return Double.doubleToLongBits(readLong());
+    return Double.longBitsToDouble(readLong());
   }
 
   public long readLong() throws IOException {
diff --git a/classpath/java/io/RandomAccessFile.java b/classpath/java/io/RandomAccessFile.java
index 4739b9e..11fad30 100644
--- a/classpath/java/io/RandomAccessFile.java
+++ b/classpath/java/io/RandomAccessFile.java
@@ -165,11 +165,11 @@ public class RandomAccessFile implements DataInput, Closeable {
   }
 
   public float readFloat() throws IOException {
-    return Float.floatToIntBits(readInt());
+    return Float.intBitsToFloat(readInt());
   }
 
   public double readDouble() throws IOException {
-    return Double.doubleToLongBits(readLong());
+    return Double.longBitsToDouble(readLong());
   }
 
   public long readLong() throws IOException {
-- 
2.43.0


From 09c054c16e44ac95435ae5106170b44428451c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:25 +0000
Subject: [PATCH 19/63] fix: RandomAccessFile readShort and readInt no longer
 sign-extend the low bytes

---
 classpath/java/io/RandomAccessFile.java | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/classpath/java/io/RandomAccessFile.java b/classpath/java/io/RandomAccessFile.java
index 11fad30..fa3ee34 100644
--- a/classpath/java/io/RandomAccessFile.java
+++ b/classpath/java/io/RandomAccessFile.java
@@ -155,13 +155,14 @@ public class RandomAccessFile implements DataInput, Closeable {
   public short readShort() throws IOException {
     final byte[] buffer = new byte[2];
     readFully(buffer);
-    return (short)((buffer[0] << 8) | buffer[1]);
+    return (short)((buffer[0] << 8) | (buffer[1] & 0xff));
   }
 
   public int readInt() throws IOException {
     byte[] buf = new byte[4];
     readFully(buf);
-    return ((buf[0] << 24) | (buf[1] << 16) | (buf[2] << 8) | buf[3]);
+    return ((buf[0] << 24) | ((buf[1] & 0xff) << 16)
+            | ((buf[2] & 0xff) << 8) | (buf[3] & 0xff));
   }
 
   public float readFloat() throws IOException {
-- 
2.43.0


From 26714620d31dc5856f867dfeaf2302f1e65fa229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:25 +0000
Subject: [PATCH 20/63] fix: ObjectInputStream no longer sign-extends the low
 half of a long

---
 classpath/java/io/ObjectInputStream.java | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/classpath/java/io/ObjectInputStream.java b/classpath/java/io/ObjectInputStream.java
index 6667714..fb4150c 100644
--- a/classpath/java/io/ObjectInputStream.java
+++ b/classpath/java/io/ObjectInputStream.java
@@ -84,7 +84,7 @@ public class ObjectInputStream extends InputStream implements DataInput {
   }
 
   private long rawLong() throws IOException {
-    return ((rawInt() & 0xffffffffl) << 32) | rawInt();
+    return ((rawInt() & 0xffffffffl) << 32) | (rawInt() & 0xffffffffl);
   }
 
   private String rawString() throws IOException {
@@ -159,7 +159,8 @@ public class ObjectInputStream extends InputStream implements DataInput {
   }
 
   private long rawBlockDataLong() throws IOException {
-    return ((rawBlockDataInt() & 0xffffffffl) << 32) | rawBlockDataInt();
+    return ((rawBlockDataInt() & 0xffffffffl) << 32)
+      | (rawBlockDataInt() & 0xffffffffl);
   }
 
   public boolean readBoolean() throws IOException {
-- 
2.43.0


From a6cdd95af751f98365fd19d8500f5b2d51cc71b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 21/63] fix: a zero character survives UTF-8 encoding and
 decoding in the class library

---
 classpath/avian/Utf8.java | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/classpath/avian/Utf8.java b/classpath/avian/Utf8.java
index 2c32fec..8d9a780 100644
--- a/classpath/avian/Utf8.java
+++ b/classpath/avian/Utf8.java
@@ -26,10 +26,7 @@ public class Utf8 {
     ByteArrayOutputStream buf = new ByteArrayOutputStream();
     for (int i = offset; i < offset+length; ++i) {
       char c = s16[i];
-      if (c == '\u0000') {     // null char
-        buf.write(0);
-        buf.write(0);
-      } else if (c < 0x080) {  // 1 byte char
+      if (c < 0x080) {         // 1 byte char
         buf.write(c);
       } else if (c < 0x0800) { // 2 byte char
         buf.write(0x0c0 | (c >>> 6));
@@ -50,12 +47,6 @@ public class Utf8 {
     while (i < offset+length) {
       int x = s8[i++];
       if ((x & 0x080) == 0x0) {          // 1 byte char
-        if (x == 0) {                    // 2 byte null char
-          if (i == offset + length) {
-            return null;
-          }
-          ++ i;
-        }
         cram(buf, j++, x);
       } else if ((x & 0x0e0) == 0x0c0) { // 2 byte char
         if (i == offset + length) {
-- 
2.43.0


From 191f2766cf8191f2b1191459195537f882da6bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:56 +0000
Subject: [PATCH 22/63] fix: System.arraycopy rejects ranges whose end
 overflows an int

---
 src/avian/classpath-common.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avian/classpath-common.h b/src/avian/classpath-common.h
index a769b5b..dc83c0f 100644
--- a/src/avian/classpath-common.h
+++ b/src/avian/classpath-common.h
@@ -81,8 +81,8 @@ void arrayCopy(Thread* t,
         intptr_t sl = fieldAtOffset<uintptr_t>(src, BytesPerWord);
         intptr_t dl = fieldAtOffset<uintptr_t>(dst, BytesPerWord);
         if (LIKELY(length > 0)) {
-          if (LIKELY(srcOffset >= 0 and srcOffset + length > srcOffset and srcOffset + length <= sl
-                     and dstOffset >= 0 and dstOffset + length > dstOffset and dstOffset + length <= dl)) {
+          if (LIKELY(srcOffset >= 0 and length <= sl - srcOffset
+                     and dstOffset >= 0 and length <= dl - dstOffset)) {
             uint8_t* sbody = &fieldAtOffset<uint8_t>(src, ArrayBody);
             uint8_t* dbody = &fieldAtOffset<uint8_t>(dst, ArrayBody);
             if (src == dst) {
-- 
2.43.0


From f4be5c4fdc79aeec9d71119faced302821853f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:56 +0000
Subject: [PATCH 23/63] fix: JNI string regions outside the string are rejected

---
 src/jnienv.cpp | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/jnienv.cpp b/src/jnienv.cpp
index 48915bf..7c6a2c5 100644
--- a/src/jnienv.cpp
+++ b/src/jnienv.cpp
@@ -161,12 +161,33 @@ void JNICALL ReleaseStringChars(Thread* t, jstring s, const jchar* chars)
   t->m->heap->free(chars, ((*s)->length(t) + 1) * sizeof(jchar));
 }
 
+uint64_t throwStringIndexOutOfBounds(Thread* t, uintptr_t*)
+{
+  // there is no more specific type which the VM knows
+  throwNew(t, GcIndexOutOfBoundsException::Type);
+}
+
+// returns whether the region is part of the string; if it is not, an
+// exception is left pending
+bool inString(Thread* t, GcString* s, jsize start, jsize length)
+{
+  if (start < 0 or length < 0
+      or static_cast<uint64_t>(start) + static_cast<uint64_t>(length)
+         > s->length(t)) {
+    run(t, throwStringIndexOutOfBounds, 0);
+    return false;
+  }
+  return true;
+}
+
 void JNICALL
     GetStringRegion(Thread* t, jstring s, jsize start, jsize length, jchar* dst)
 {
   ENTER(t, Thread::ActiveState);
 
-  stringChars(t, *s, start, length, dst);
+  if (inString(t, *s, start, length)) {
+    stringChars(t, *s, start, length, dst);
+  }
 }
 
 const jchar* JNICALL GetStringCritical(Thread* t, jstring s, jboolean* isCopy)
@@ -235,8 +256,10 @@ void JNICALL GetStringUTFRegion(Thread* t,
 {
   ENTER(t, Thread::ActiveState);
 
-  stringUTFChars(
-      t, *s, start, length, dst, stringUTFLength(t, *s, start, length));
+  if (inString(t, *s, start, length)) {
+    stringUTFChars(
+        t, *s, start, length, dst, stringUTFLength(t, *s, start, length));
+  }
 }
 
 jsize JNICALL GetArrayLength(Thread* t, jarray array)
-- 
2.43.0


From 6c9e8368055a8fce91fa1f483762462f66004741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:56 +0000
Subject: [PATCH 24/63] fix: natives that copy to or from part of a Java array
 check the range against the array first

---
 classpath/java-io.cpp   |  8 ++++++++
 classpath/java-lang.cpp |  4 ++++
 classpath/java-net.cpp  |  8 ++++++++
 classpath/java-nio.cpp  | 16 ++++++++++++++++
 classpath/jni-util.h    | 15 +++++++++++++++
 src/builtin.cpp         | 12 ++++++++++++
 6 files changed, 63 insertions(+)

diff --git a/classpath/java-io.cpp b/classpath/java-io.cpp
index ef5a6fd..8a5c168 100644
--- a/classpath/java-io.cpp
+++ b/classpath/java-io.cpp
@@ -905,6 +905,10 @@ extern "C" JNIEXPORT jint JNICALL
                                             int offset,
                                             int length)
 {
+  if (not checkRange(e, buffer, offset, length)) {
+    return -1;
+  }
+
 #if !defined(WINAPI_FAMILY) || WINAPI_FAMILY_PARTITION(WINAPI_PARTITION_DESKTOP)
   int fd = (int)peer;
   if (::lseek(fd, position, SEEK_SET) == -1) {
@@ -955,6 +959,10 @@ extern "C" JNIEXPORT jint JNICALL
                                              int offset,
                                              int length)
 {
+  if (not checkRange(e, buffer, offset, length)) {
+    return -1;
+  }
+
 #if !defined(WINAPI_FAMILY) || WINAPI_FAMILY_PARTITION(WINAPI_PARTITION_DESKTOP)
   int fd = (int)peer;
   if (::lseek(fd, position, SEEK_SET) == -1) {
diff --git a/classpath/java-lang.cpp b/classpath/java-lang.cpp
index 75f8908..3ba8b85 100644
--- a/classpath/java-lang.cpp
+++ b/classpath/java-lang.cpp
@@ -1245,6 +1245,10 @@ extern "C" JNIEXPORT jint JNICALL
                                                jbyteArray buffer,
                                                jint bufferSize)
 {
+  if (not checkRange(e, buffer, 0, bufferSize)) {
+    return 0;
+  }
+
   jboolean isCopy;
   jbyte* buf = e->GetByteArrayElements(buffer, &isCopy);
   jint count = snprintf(reinterpret_cast<char*>(buf), bufferSize, "%g", val);
diff --git a/classpath/java-net.cpp b/classpath/java-net.cpp
index 4529283..3acb4dd 100644
--- a/classpath/java-net.cpp
+++ b/classpath/java-net.cpp
@@ -75,6 +75,10 @@ extern "C" JNIEXPORT void JNICALL
                               jint start,
                               jint count)
 {
+  if (not checkRange(e, buffer, start, count)) {
+    return;
+  }
+
   char* data = static_cast<char*>(malloc(count));
   if (data == 0) {
     throwNew(e, "java/lang/OutOfMemoryError", 0);
@@ -96,6 +100,10 @@ extern "C" JNIEXPORT jint JNICALL
                               jint start,
                               jint count)
 {
+  if (not checkRange(e, buffer, start, count)) {
+    return 0;
+  }
+
   char* data = static_cast<char*>(malloc(count));
   if (data == 0) {
     throwNew(e, "java/lang/OutOfMemoryError", 0);
diff --git a/classpath/java-nio.cpp b/classpath/java-nio.cpp
index 9f8a44a..c67e439 100644
--- a/classpath/java-nio.cpp
+++ b/classpath/java-nio.cpp
@@ -504,6 +504,10 @@ extern "C" JNIEXPORT jint JNICALL
                                                  jint length,
                                                  jboolean blocking)
 {
+  if (not checkRange(e, buffer, offset, length)) {
+    return 0;
+  }
+
   int r;
   if (blocking) {
     uint8_t* buf = static_cast<uint8_t*>(allocate(e, length));
@@ -548,6 +552,10 @@ extern "C" JNIEXPORT jint JNICALL
                                                    jboolean blocking,
                                                    jintArray address)
 {
+  if (not checkRange(e, buffer, offset, length)) {
+    return 0;
+  }
+
   int r;
   int32_t host;
   int32_t port;
@@ -599,6 +607,10 @@ extern "C" JNIEXPORT jint JNICALL
                                                   jint length,
                                                   jboolean blocking)
 {
+  if (not checkRange(e, buffer, offset, length)) {
+    return 0;
+  }
+
   int r;
   if (blocking) {
     uint8_t* buf = static_cast<uint8_t*>(allocate(e, length));
@@ -654,6 +666,10 @@ extern "C" JNIEXPORT jint JNICALL
                                                 jint length,
                                                 jboolean blocking)
 {
+  if (not checkRange(e, buffer, offset, length)) {
+    return 0;
+  }
+
   sockaddr_in address;
   init(&address, host, port);
 
diff --git a/classpath/jni-util.h b/classpath/jni-util.h
index f77a410..9e7cdf6 100644
--- a/classpath/jni-util.h
+++ b/classpath/jni-util.h
@@ -124,4 +124,19 @@ inline void* allocate(JNIEnv* e, unsigned size)
   return p;
 }
 
+// returns whether the range is part of the array; if it is not, an
+// ArrayIndexOutOfBoundsException is left pending
+inline bool checkRange(JNIEnv* e, jarray array, jint offset, jint length)
+{
+  if (array == 0) {
+    throwNew(e, "java/lang/NullPointerException", 0);
+    return false;
+  }
+  if (offset < 0 || length < 0 || length > e->GetArrayLength(array) - offset) {
+    throwNew(e, "java/lang/ArrayIndexOutOfBoundsException", 0);
+    return false;
+  }
+  return true;
+}
+
 #endif  // JNI_UTIL
diff --git a/src/builtin.cpp b/src/builtin.cpp
index f666b9a..87029f0 100644
--- a/src/builtin.cpp
+++ b/src/builtin.cpp
@@ -161,6 +161,12 @@ extern "C" AVIAN_EXPORT int64_t JNICALL
   int offset = arguments[2];
   int length = arguments[3];
 
+  if (offset < 0 or length < 0
+      or static_cast<uintptr_t>(offset) + static_cast<uintptr_t>(length)
+         > b->length()) {
+    throwNew(t, GcArrayIndexOutOfBoundsException::Type);
+  }
+
   uint8_t* buffer = static_cast<uint8_t*>(t->m->heap->allocate(length));
 
   THREAD_RESOURCE2(
@@ -472,6 +478,12 @@ extern "C" AVIAN_EXPORT int64_t JNICALL
   int32_t offset = arguments[4];
   int32_t length = arguments[5];
 
+  if (offset < 0 or length < 0
+      or static_cast<uintptr_t>(offset) + static_cast<uintptr_t>(length)
+         > buffer->length()) {
+    throwNew(t, GcArrayIndexOutOfBoundsException::Type);
+  }
+
   if (length == 0)
     return 0;
 
-- 
2.43.0


From ea3b019deab10299338aeef1f689d3c5041f4ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:27 +0000
Subject: [PATCH 25/63] fix: Unsafe.defineClass checks the range of the class
 data

---
 src/classpath-openjdk.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/classpath-openjdk.cpp b/src/classpath-openjdk.cpp
index c29a936..4ebab17 100644
--- a/src/classpath-openjdk.cpp
+++ b/src/classpath-openjdk.cpp
@@ -2901,6 +2901,12 @@ extern "C" AVIAN_EXPORT int64_t
       = cast<GcClassLoader>(t, reinterpret_cast<object>(arguments[5]));
   // object domain = reinterpret_cast<object>(arguments[6]);
 
+  if (offset < 0 or length < 0
+      or static_cast<uintptr_t>(offset) + static_cast<uintptr_t>(length)
+         > data->length()) {
+    throwNew(t, GcArrayIndexOutOfBoundsException::Type);
+  }
+
   uint8_t* buffer = static_cast<uint8_t*>(t->m->heap->allocate(length));
 
   THREAD_RESOURCE2(
-- 
2.43.0


From 6780b6e1f4f23a1075b3da034fa5e0933ea10fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:17 +0000
Subject: [PATCH 26/63] fix: System.arraycopy refuses to copy between arrays of
 different primitive types

---
 src/avian/classpath-common.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avian/classpath-common.h b/src/avian/classpath-common.h
index dc83c0f..75bdb94 100644
--- a/src/avian/classpath-common.h
+++ b/src/avian/classpath-common.h
@@ -61,8 +61,8 @@ object getTrace(Thread* t, unsigned skipCount)
 bool compatibleArrayTypes(Thread* t UNUSED, GcClass* a, GcClass* b)
 {
   return a->arrayElementSize() and b->arrayElementSize()
-         and (a == b or (not((a->vmFlags() & PrimitiveFlag)
-                             or (b->vmFlags() & PrimitiveFlag))));
+         // only arrays of references have an object mask
+         and (a == b or (a->objectMask() and b->objectMask()));
 }
 
 void arrayCopy(Thread* t,
-- 
2.43.0


From 1d8eec77d3e2e0251eddd15a01fe0d6be13736f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:48 +0000
Subject: [PATCH 27/63] fix: a failed class initializer wakes waiting threads
 and leaves the class erroneous

---
 src/machine.cpp | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/machine.cpp b/src/machine.cpp
index da531b3..494a2c0 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -5212,10 +5212,12 @@ bool preInitClass(Thread* t, GcClass* c)
           ENTER(t, Thread::IdleState);
           t->m->classLock->wait(t->systemThread, 0);
         }
-      } else if (c->vmFlags() & InitErrorFlag) {
+      }
+
+      if (c->vmFlags() & InitErrorFlag) {
         throwNew(
             t, GcNoClassDefFoundError::Type, "%s", c->name()->body().begin());
-      } else {
+      } else if (c->vmFlags() & NeedInitFlag) {
         c->vmFlags() |= InitFlag;
         return true;
       }
@@ -5229,27 +5231,30 @@ void postInitClass(Thread* t, GcClass* c)
   PROTECT(t, c);
   ACQUIRE(t, t->m->classLock);
 
-  if (t->exception
-      and instanceOf(t, type(t, GcException::Type), t->exception)) {
+  if (t->exception) {
     c->vmFlags() |= NeedInitFlag | InitErrorFlag;
     c->vmFlags() &= ~InitFlag;
+    t->m->classLock->notifyAll(t->systemThread);
 
-    GcThrowable* exception = t->exception;
-    PROTECT(t, exception);
+    if (not instanceOf(t, type(t, GcError::Type), t->exception)) {
+      GcThrowable* exception = t->exception;
+      PROTECT(t, exception);
 
-    t->exception = 0;
+      t->exception = 0;
 
-    GcExceptionInInitializerError* initExecption
-        = makeThrowable(t, GcExceptionInInitializerError::Type, 0, 0, exception)
-              ->as<GcExceptionInInitializerError>(t);
+      GcExceptionInInitializerError* initExecption
+          = makeThrowable(
+                t, GcExceptionInInitializerError::Type, 0, 0, exception)
+                ->as<GcExceptionInInitializerError>(t);
 
-    initExecption->setException(t, exception->cause());
+      initExecption->setException(t, exception->cause());
 
-    throw_(t, initExecption->as<GcThrowable>(t));
+      throw_(t, initExecption->as<GcThrowable>(t));
+    }
   } else {
     c->vmFlags() &= ~(NeedInitFlag | InitFlag);
+    t->m->classLock->notifyAll(t->systemThread);
   }
-  t->m->classLock->notifyAll(t->systemThread);
 }
 
 void initClass(Thread* t, GcClass* c)
-- 
2.43.0


From 20c8143dbbf64e34faf4ad1737a483dd08ef5f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:48 +0000
Subject: [PATCH 28/63] fix: compiled code checks for initialization while the
 class is still being initialized

---
 src/compile.cpp |  9 +++++++--
 src/machine.cpp | 24 ++++++------------------
 2 files changed, 13 insertions(+), 20 deletions(-)

diff --git a/src/compile.cpp b/src/compile.cpp
index 239b94d..91ca18d 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -2456,7 +2456,9 @@ int64_t prepareMethodForCall(MyThread* t, GcMethod* target)
              target->name()->body().begin(),
              target->spec()->body().begin());
   } else {
-    if (unresolved(t, methodAddress(t, target))) {
+    if (unresolved(t, methodAddress(t, target))
+        or ((target->flags() & ACC_STATIC)
+            and classNeedsInit(t, target->class_()))) {
       PROTECT(t, target);
 
       compile(t, codeAllocator(t), 0, target);
@@ -9686,7 +9688,10 @@ void* compileMethod2(MyThread* t, void* ip)
     address = methodAddress(t, target);
   }
 
-  if (updateCaller) {
+  // as long as the class is not initialized, every call must come through here
+  if (updateCaller
+      and not((target->flags() & ACC_STATIC)
+              and classNeedsInit(t, target->class_()))) {
     avian::codegen::lir::UnaryOperation op;
     if (node->flags() & TraceElement::LongCall) {
       if (node->flags() & TraceElement::TailCall) {
diff --git a/src/machine.cpp b/src/machine.cpp
index 494a2c0..4ab20d4 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -5168,24 +5168,12 @@ GcField* resolveField(Thread* t,
   }
 }
 
-bool classNeedsInit(Thread* t, GcClass* c)
-{
-  if (c->vmFlags() & NeedInitFlag) {
-    if (c->vmFlags() & InitFlag) {
-      // the class is currently being initialized.  If this the thread
-      // which is initializing it, we should not try to initialize it
-      // recursively.  Otherwise, we must wait for the responsible
-      // thread to finish.
-      for (Thread::ClassInitStack* s = t->classInitStack; s; s = s->next) {
-        if (s->class_ == c) {
-          return false;
-        }
-      }
-    }
-    return true;
-  } else {
-    return false;
-  }
+bool classNeedsInit(Thread*, GcClass* c)
+{
+  // a class which is still being initialized counts as one that needs it even
+  // in the thread that does it, since what is compiled based on the answer is
+  // run by all threads
+  return c->vmFlags() & NeedInitFlag;
 }
 
 bool preInitClass(Thread* t, GcClass* c)
-- 
2.43.0


From 16a0a69dbae7362b3cd3865bc5d28168a0fa45a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:07 +0000
Subject: [PATCH 29/63] fix: JNI accesses a static field in the class that
 declares it

---
 src/jnienv.cpp | 198 ++++++++++++++++++-------------------------------
 1 file changed, 72 insertions(+), 126 deletions(-)

diff --git a/src/jnienv.cpp b/src/jnienv.cpp
index 7c6a2c5..4c599f3 100644
--- a/src/jnienv.cpp
+++ b/src/jnienv.cpp
@@ -1858,19 +1858,16 @@ GcField* getStaticField(Thread* t, jfieldID f)
 
 uint64_t getStaticObjectField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  PROTECT(t, c);
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
 
   PROTECT(t, field);
+
+  initClass(t, field->class_());
+
   ACQUIRE_FIELD_FOR_READ(t, field);
 
   return reinterpret_cast<uintptr_t>(makeLocalReference(
-      t, fieldAtOffset<object>(c->vmClass()->staticTable(), field->offset())));
+      t, fieldAtOffset<object>(field->class_()->staticTable(), field->offset())));
 }
 
 jobject JNICALL GetStaticObjectField(Thread* t, jclass c, jfieldID field)
@@ -1882,18 +1879,15 @@ jobject JNICALL GetStaticObjectField(Thread* t, jclass c, jfieldID field)
 
 uint64_t getStaticBooleanField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  PROTECT(t, c);
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
 
   PROTECT(t, field);
+
+  initClass(t, field->class_());
+
   ACQUIRE_FIELD_FOR_READ(t, field);
 
-  return fieldAtOffset<jboolean>(c->vmClass()->staticTable(), field->offset());
+  return fieldAtOffset<jboolean>(field->class_()->staticTable(), field->offset());
 }
 
 jboolean JNICALL GetStaticBooleanField(Thread* t, jclass c, jfieldID field)
@@ -1905,18 +1899,15 @@ jboolean JNICALL GetStaticBooleanField(Thread* t, jclass c, jfieldID field)
 
 uint64_t getStaticByteField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  PROTECT(t, c);
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
 
   PROTECT(t, field);
+
+  initClass(t, field->class_());
+
   ACQUIRE_FIELD_FOR_READ(t, field);
 
-  return fieldAtOffset<jbyte>(c->vmClass()->staticTable(), field->offset());
+  return fieldAtOffset<jbyte>(field->class_()->staticTable(), field->offset());
 }
 
 jbyte JNICALL GetStaticByteField(Thread* t, jclass c, jfieldID field)
@@ -1928,18 +1919,15 @@ jbyte JNICALL GetStaticByteField(Thread* t, jclass c, jfieldID field)
 
 uint64_t getStaticCharField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  PROTECT(t, c);
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
 
   PROTECT(t, field);
+
+  initClass(t, field->class_());
+
   ACQUIRE_FIELD_FOR_READ(t, field);
 
-  return fieldAtOffset<jchar>(c->vmClass()->staticTable(), field->offset());
+  return fieldAtOffset<jchar>(field->class_()->staticTable(), field->offset());
 }
 
 jchar JNICALL GetStaticCharField(Thread* t, jclass c, jfieldID field)
@@ -1951,18 +1939,15 @@ jchar JNICALL GetStaticCharField(Thread* t, jclass c, jfieldID field)
 
 uint64_t getStaticShortField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  PROTECT(t, c);
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
 
   PROTECT(t, field);
+
+  initClass(t, field->class_());
+
   ACQUIRE_FIELD_FOR_READ(t, field);
 
-  return fieldAtOffset<jshort>(c->vmClass()->staticTable(), field->offset());
+  return fieldAtOffset<jshort>(field->class_()->staticTable(), field->offset());
 }
 
 jshort JNICALL GetStaticShortField(Thread* t, jclass c, jfieldID field)
@@ -1974,18 +1959,15 @@ jshort JNICALL GetStaticShortField(Thread* t, jclass c, jfieldID field)
 
 uint64_t getStaticIntField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  PROTECT(t, c);
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
 
   PROTECT(t, field);
+
+  initClass(t, field->class_());
+
   ACQUIRE_FIELD_FOR_READ(t, field);
 
-  return fieldAtOffset<jint>(c->vmClass()->staticTable(), field->offset());
+  return fieldAtOffset<jint>(field->class_()->staticTable(), field->offset());
 }
 
 jint JNICALL GetStaticIntField(Thread* t, jclass c, jfieldID field)
@@ -1997,18 +1979,15 @@ jint JNICALL GetStaticIntField(Thread* t, jclass c, jfieldID field)
 
 uint64_t getStaticLongField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  PROTECT(t, c);
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
 
   PROTECT(t, field);
+
+  initClass(t, field->class_());
+
   ACQUIRE_FIELD_FOR_READ(t, field);
 
-  return fieldAtOffset<jlong>(c->vmClass()->staticTable(), field->offset());
+  return fieldAtOffset<jlong>(field->class_()->staticTable(), field->offset());
 }
 
 jlong JNICALL GetStaticLongField(Thread* t, jclass c, jfieldID field)
@@ -2020,19 +1999,16 @@ jlong JNICALL GetStaticLongField(Thread* t, jclass c, jfieldID field)
 
 uint64_t getStaticFloatField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  PROTECT(t, c);
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
 
   PROTECT(t, field);
+
+  initClass(t, field->class_());
+
   ACQUIRE_FIELD_FOR_READ(t, field);
 
   return floatToBits(
-      fieldAtOffset<jfloat>(c->vmClass()->staticTable(), field->offset()));
+      fieldAtOffset<jfloat>(field->class_()->staticTable(), field->offset()));
 }
 
 jfloat JNICALL GetStaticFloatField(Thread* t, jclass c, jfieldID field)
@@ -2044,19 +2020,16 @@ jfloat JNICALL GetStaticFloatField(Thread* t, jclass c, jfieldID field)
 
 uint64_t getStaticDoubleField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  PROTECT(t, c);
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
 
   PROTECT(t, field);
+
+  initClass(t, field->class_());
+
   ACQUIRE_FIELD_FOR_READ(t, field);
 
   return doubleToBits(
-      fieldAtOffset<jdouble>(c->vmClass()->staticTable(), field->offset()));
+      fieldAtOffset<jdouble>(field->class_()->staticTable(), field->offset()));
 }
 
 jdouble JNICALL GetStaticDoubleField(Thread* t, jclass c, jfieldID field)
@@ -2068,19 +2041,16 @@ jdouble JNICALL GetStaticDoubleField(Thread* t, jclass c, jfieldID field)
 
 uint64_t setStaticObjectField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  PROTECT(t, c);
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
   jobject v = reinterpret_cast<jobject>(arguments[2]);
 
   PROTECT(t, field);
+
+  initClass(t, field->class_());
+
   ACQUIRE_FIELD_FOR_WRITE(t, field);
 
-  setField(t, c->vmClass()->staticTable(), field->offset(), (v ? *v : 0));
+  setField(t, field->class_()->staticTable(), field->offset(), (v ? *v : 0));
 
   return 1;
 }
@@ -2096,19 +2066,16 @@ void JNICALL
 
 uint64_t setStaticBooleanField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  PROTECT(t, c);
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
   jboolean v = arguments[2];
 
   PROTECT(t, field);
+
+  initClass(t, field->class_());
+
   ACQUIRE_FIELD_FOR_WRITE(t, field);
 
-  fieldAtOffset<jboolean>(c->vmClass()->staticTable(), field->offset()) = v;
+  fieldAtOffset<jboolean>(field->class_()->staticTable(), field->offset()) = v;
 
   return 1;
 }
@@ -2123,19 +2090,16 @@ void JNICALL
 
 uint64_t setStaticByteField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  PROTECT(t, c);
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
   jbyte v = arguments[2];
 
   PROTECT(t, field);
+
+  initClass(t, field->class_());
+
   ACQUIRE_FIELD_FOR_WRITE(t, field);
 
-  fieldAtOffset<jbyte>(c->vmClass()->staticTable(), field->offset()) = v;
+  fieldAtOffset<jbyte>(field->class_()->staticTable(), field->offset()) = v;
 
   return 1;
 }
@@ -2150,19 +2114,16 @@ void JNICALL SetStaticByteField(Thread* t, jclass c, jfieldID field, jbyte v)
 
 uint64_t setStaticCharField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  PROTECT(t, c);
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
   jchar v = arguments[2];
 
   PROTECT(t, field);
+
+  initClass(t, field->class_());
+
   ACQUIRE_FIELD_FOR_WRITE(t, field);
 
-  fieldAtOffset<jchar>(c->vmClass()->staticTable(), field->offset()) = v;
+  fieldAtOffset<jchar>(field->class_()->staticTable(), field->offset()) = v;
 
   return 1;
 }
@@ -2176,19 +2137,16 @@ void JNICALL SetStaticCharField(Thread* t, jclass c, jfieldID field, jchar v)
 
 uint64_t setStaticShortField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  PROTECT(t, c);
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
   jshort v = arguments[2];
 
   PROTECT(t, field);
+
+  initClass(t, field->class_());
+
   ACQUIRE_FIELD_FOR_WRITE(t, field);
 
-  fieldAtOffset<jshort>(c->vmClass()->staticTable(), field->offset()) = v;
+  fieldAtOffset<jshort>(field->class_()->staticTable(), field->offset()) = v;
 
   return 1;
 }
@@ -2203,19 +2161,16 @@ void JNICALL SetStaticShortField(Thread* t, jclass c, jfieldID field, jshort v)
 
 uint64_t setStaticIntField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  PROTECT(t, c);
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
   jint v = arguments[2];
 
   PROTECT(t, field);
+
+  initClass(t, field->class_());
+
   ACQUIRE_FIELD_FOR_WRITE(t, field);
 
-  fieldAtOffset<jint>(c->vmClass()->staticTable(), field->offset()) = v;
+  fieldAtOffset<jint>(field->class_()->staticTable(), field->offset()) = v;
 
   return 1;
 }
@@ -2230,20 +2185,17 @@ void JNICALL SetStaticIntField(Thread* t, jclass c, jfieldID field, jint v)
 
 uint64_t setStaticLongField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  PROTECT(t, c);
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
   jlong v;
   memcpy(&v, arguments + 2, sizeof(jlong));
 
   PROTECT(t, field);
+
+  initClass(t, field->class_());
+
   ACQUIRE_FIELD_FOR_WRITE(t, field);
 
-  fieldAtOffset<jlong>(c->vmClass()->staticTable(), field->offset()) = v;
+  fieldAtOffset<jlong>(field->class_()->staticTable(), field->offset()) = v;
 
   return 1;
 }
@@ -2260,19 +2212,16 @@ void JNICALL SetStaticLongField(Thread* t, jclass c, jfieldID field, jlong v)
 
 uint64_t setStaticFloatField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  PROTECT(t, c);
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
   jfloat v = bitsToFloat(arguments[2]);
 
   PROTECT(t, field);
+
+  initClass(t, field->class_());
+
   ACQUIRE_FIELD_FOR_WRITE(t, field);
 
-  fieldAtOffset<jfloat>(c->vmClass()->staticTable(), field->offset()) = v;
+  fieldAtOffset<jfloat>(field->class_()->staticTable(), field->offset()) = v;
 
   return 1;
 }
@@ -2287,20 +2236,17 @@ void JNICALL SetStaticFloatField(Thread* t, jclass c, jfieldID field, jfloat v)
 
 uint64_t setStaticDoubleField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  PROTECT(t, c);
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
   jdouble v;
   memcpy(&v, arguments + 2, sizeof(jdouble));
 
   PROTECT(t, field);
+
+  initClass(t, field->class_());
+
   ACQUIRE_FIELD_FOR_WRITE(t, field);
 
-  fieldAtOffset<jdouble>(c->vmClass()->staticTable(), field->offset()) = v;
+  fieldAtOffset<jdouble>(field->class_()->staticTable(), field->offset()) = v;
 
   return 1;
 }
-- 
2.43.0


From 16c094838a06bce511812229c4845f8852eb7d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:07 +0000
Subject: [PATCH 30/63] fix: creating objects from JNI, reflection and
 deserialization initializes their class

---
 src/classpath-avian.cpp | 11 +++++++++--
 src/jnienv.cpp          |  6 ++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/classpath-avian.cpp b/src/classpath-avian.cpp
index 41ca4b1..f8318f3 100644
--- a/src/classpath-avian.cpp
+++ b/src/classpath-avian.cpp
@@ -266,6 +266,9 @@ extern "C" AVIAN_EXPORT int64_t JNICALL
                                                  uintptr_t* arguments)
 {
   GcClass* c = cast<GcClass>(t, reinterpret_cast<object>(arguments[0]));
+  PROTECT(t, c);
+
+  initClass(t, c);
 
   return reinterpret_cast<int64_t>(make(t, c));
 }
@@ -327,8 +330,12 @@ extern "C" AVIAN_EXPORT int64_t JNICALL
                                              object,
                                              uintptr_t* arguments)
 {
-  return reinterpret_cast<int64_t>(
-      make(t, cast<GcClass>(t, reinterpret_cast<object>(arguments[0]))));
+  GcClass* c = cast<GcClass>(t, reinterpret_cast<object>(arguments[0]));
+  PROTECT(t, c);
+
+  initClass(t, c);
+
+  return reinterpret_cast<int64_t>(make(t, c));
 }
 
 extern "C" AVIAN_EXPORT int64_t JNICALL
diff --git a/src/jnienv.cpp b/src/jnienv.cpp
index 4c599f3..932cc7a 100644
--- a/src/jnienv.cpp
+++ b/src/jnienv.cpp
@@ -405,6 +405,8 @@ uint64_t throwNew(Thread* t, uintptr_t* arguments)
   object trace = makeTrace(t);
   PROTECT(t, trace);
 
+  initClass(t, (*c)->vmClass());
+
   t->exception = cast<GcThrowable>(t, make(t, (*c)->vmClass()));
   t->exception->setMessage(t, m);
   t->exception->setTrace(t, trace);
@@ -621,6 +623,8 @@ uint64_t newObjectV(Thread* t, uintptr_t* arguments)
   jmethodID m = arguments[1];
   va_list* a = reinterpret_cast<va_list*>(arguments[2]);
 
+  initClass(t, (*c)->vmClass());
+
   object o = make(t, (*c)->vmClass());
   PROTECT(t, o);
 
@@ -656,6 +660,8 @@ uint64_t newObjectA(Thread* t, uintptr_t* arguments)
   jmethodID m = arguments[1];
   const jvalue* a = reinterpret_cast<const jvalue*>(arguments[2]);
 
+  initClass(t, (*c)->vmClass());
+
   object o = make(t, (*c)->vmClass());
   PROTECT(t, o);
 
-- 
2.43.0


From ed878b3fea65b7fb4b2b71d5c78656458e282752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:11 +0000
Subject: [PATCH 31/63] fix: compare longs as signed numbers in compareLongs

---
 include/avian/codegen/runtime.h | 2 +-
 src/codegen/runtime.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/avian/codegen/runtime.h b/include/avian/codegen/runtime.h
index 527d68a..1037596 100644
--- a/include/avian/codegen/runtime.h
+++ b/include/avian/codegen/runtime.h
@@ -19,7 +19,7 @@ int64_t compareDoublesG(uint64_t bi, uint64_t ai);
 int64_t compareDoublesL(uint64_t bi, uint64_t ai);
 int64_t compareFloatsG(uint32_t bi, uint32_t ai);
 int64_t compareFloatsL(uint32_t bi, uint32_t ai);
-int64_t compareLongs(uint64_t b, uint64_t a);
+int64_t compareLongs(int64_t b, int64_t a);
 uint64_t addDouble(uint64_t b, uint64_t a);
 uint64_t subtractDouble(uint64_t b, uint64_t a);
 uint64_t multiplyDouble(uint64_t b, uint64_t a);
diff --git a/src/codegen/runtime.cpp b/src/codegen/runtime.cpp
index b868464..883bd28 100644
--- a/src/codegen/runtime.cpp
+++ b/src/codegen/runtime.cpp
@@ -98,7 +98,7 @@ int64_t compareFloatsL(uint32_t bi, uint32_t ai)
   }
 }
 
-int64_t compareLongs(uint64_t b, uint64_t a)
+int64_t compareLongs(int64_t b, int64_t a)
 {
   if (a < b) {
     return -1;
-- 
2.43.0


From 775f4d6a131cb64bf69ef9ea8b88d8641bee7d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:11 +0000
Subject: [PATCH 32/63] fix: saturate float values out of the range of long in
 floatToLong

---
 src/codegen/runtime.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/codegen/runtime.cpp b/src/codegen/runtime.cpp
index 883bd28..58404bf 100644
--- a/src/codegen/runtime.cpp
+++ b/src/codegen/runtime.cpp
@@ -253,7 +253,9 @@ int64_t floatToLong(int32_t a)
   case FP_INFINITE:
     return signbit(f) ? INT64_MIN : INT64_MAX;
   default:
-    return static_cast<int64_t>(f);
+    return f >= INT64_MAX
+               ? INT64_MAX
+               : (f <= INT64_MIN ? INT64_MIN : static_cast<int64_t>(f));
   }
 }
 
-- 
2.43.0


From ecbb1d693e9f750ddf1ec508ff24c137117359dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:11 +0000
Subject: [PATCH 33/63] fix: divide the smallest integer by -1 without trapping
 in the division thunks

---
 src/compile.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/compile.cpp b/src/compile.cpp
index 91ca18d..5032549 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -2602,7 +2602,10 @@ void NO_RETURN throwArithmetic(MyThread* t)
 
 int64_t divideLong(MyThread* t, int64_t b, int64_t a)
 {
-  if (LIKELY(b)) {
+  if (UNLIKELY(b == -1)) {
+    // avoid overflow, which traps on some architectures
+    return static_cast<int64_t>(0 - static_cast<uint64_t>(a));
+  } else if (LIKELY(b)) {
     return a / b;
   } else {
     throwArithmetic(t);
@@ -2611,7 +2614,10 @@ int64_t divideLong(MyThread* t, int64_t b, int64_t a)
 
 int64_t divideInt(MyThread* t, int32_t b, int32_t a)
 {
-  if (LIKELY(b)) {
+  if (UNLIKELY(b == -1)) {
+    // avoid overflow, which traps on some architectures
+    return static_cast<int32_t>(0 - static_cast<uint32_t>(a));
+  } else if (LIKELY(b)) {
     return a / b;
   } else {
     throwArithmetic(t);
@@ -2620,7 +2626,10 @@ int64_t divideInt(MyThread* t, int32_t b, int32_t a)
 
 int64_t moduloLong(MyThread* t, int64_t b, int64_t a)
 {
-  if (LIKELY(b)) {
+  if (UNLIKELY(b == -1)) {
+    // avoid overflow, which traps on some architectures
+    return 0;
+  } else if (LIKELY(b)) {
     return a % b;
   } else {
     throwArithmetic(t);
@@ -2629,7 +2638,10 @@ int64_t moduloLong(MyThread* t, int64_t b, int64_t a)
 
 int64_t moduloInt(MyThread* t, int32_t b, int32_t a)
 {
-  if (LIKELY(b)) {
+  if (UNLIKELY(b == -1)) {
+    // avoid overflow, which traps on some architectures
+    return 0;
+  } else if (LIKELY(b)) {
     return a % b;
   } else {
     throwArithmetic(t);
-- 
2.43.0


From 538a3d572584f12a2583f93ed996b665837d45e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:11 +0000
Subject: [PATCH 34/63] fix: do not sign-extend char fields read through an
 unresolved reference

---
 src/compile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compile.cpp b/src/compile.cpp
index 5032549..1f9ff46 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -2924,6 +2924,8 @@ uint64_t getFieldValue(Thread* t, object target, GcField* field)
     return fieldAtOffset<int8_t>(target, field->offset());
 
   case CharField:
+    return fieldAtOffset<uint16_t>(target, field->offset());
+
   case ShortField:
     return fieldAtOffset<int16_t>(target, field->offset());
 
-- 
2.43.0


From 6136fbcad92ea9d4e97b35ae1808d6810241223c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:11 +0000
Subject: [PATCH 35/63] fix: throw a NullPointerException for null targets of
 unresolved references

---
 src/compile.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/compile.cpp b/src/compile.cpp
index 1f9ff46..5125dd5 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -2541,6 +2541,10 @@ int64_t findVirtualMethodFromReference(MyThread* t,
 
   GcMethod* target = resolveMethod(t, pair);
 
+  if (UNLIKELY(instance == 0)) {
+    throwNew(t, GcNullPointerException::Type);
+  }
+
   target = findVirtualMethod(t, target, objectClass(t, instance));
 
   checkMethod(t, target, false);
@@ -2964,6 +2968,10 @@ uint64_t getFieldValueFromReference(MyThread* t, GcPair* pair, object instance)
   GcField* field = resolveField(t, pair);
   PROTECT(t, field);
 
+  if (UNLIKELY(instance == 0)) {
+    throwNew(t, GcNullPointerException::Type);
+  }
+
   ACQUIRE_FIELD_FOR_READ(t, field);
 
   return getFieldValue(t, instance, field);
@@ -2994,6 +3002,10 @@ void setLongFieldValueFromReference(MyThread* t,
   GcField* field = resolveField(t, pair);
   PROTECT(t, field);
 
+  if (UNLIKELY(instance == 0)) {
+    throwNew(t, GcNullPointerException::Type);
+  }
+
   ACQUIRE_FIELD_FOR_WRITE(t, field);
 
   fieldAtOffset<int64_t>(instance, field->offset()) = value;
@@ -3026,6 +3038,10 @@ void setObjectFieldValueFromReference(MyThread* t,
   GcField* field = resolveField(t, pair);
   PROTECT(t, field);
 
+  if (UNLIKELY(instance == 0)) {
+    throwNew(t, GcNullPointerException::Type);
+  }
+
   ACQUIRE_FIELD_FOR_WRITE(t, field);
 
   setField(t, instance, field->offset(), value);
@@ -3075,6 +3091,10 @@ void setFieldValueFromReference(MyThread* t,
   GcField* field = resolveField(t, pair);
   PROTECT(t, field);
 
+  if (UNLIKELY(instance == 0)) {
+    throwNew(t, GcNullPointerException::Type);
+  }
+
   ACQUIRE_FIELD_FOR_WRITE(t, field);
 
   setFieldValue(t, instance, field, value);
-- 
2.43.0


From 8e998222e482dd8e0f41ad1bf383a9c27113f9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:50 +0000
Subject: [PATCH 36/63] fix: treat the local variable index of wide
 instructions as unsigned

---
 src/compile.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/compile.cpp b/src/compile.cpp
index 5125dd5..51d5add 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -6428,11 +6428,13 @@ loop:
     case wide: {
       switch (code->body()[ip++]) {
       case aload: {
-        frame->load(ir::Type::object(), codeReadInt16(t, code, ip));
+        uint16_t index = codeReadInt16(t, code, ip);
+        frame->load(ir::Type::object(), index);
       } break;
 
       case astore: {
-        frame->store(ir::Type::object(), codeReadInt16(t, code, ip));
+        uint16_t index = codeReadInt16(t, code, ip);
+        frame->store(ir::Type::object(), index);
       } break;
 
       case iinc: {
@@ -6450,19 +6452,23 @@ loop:
       } break;
 
       case iload: {
-        frame->load(ir::Type::i4(), codeReadInt16(t, code, ip));
+        uint16_t index = codeReadInt16(t, code, ip);
+        frame->load(ir::Type::i4(), index);
       } break;
 
       case istore: {
-        frame->store(ir::Type::i4(), codeReadInt16(t, code, ip));
+        uint16_t index = codeReadInt16(t, code, ip);
+        frame->store(ir::Type::i4(), index);
       } break;
 
       case lload: {
-        frame->loadLarge(ir::Type::i8(), codeReadInt16(t, code, ip));
+        uint16_t index = codeReadInt16(t, code, ip);
+        frame->loadLarge(ir::Type::i8(), index);
       } break;
 
       case lstore: {
-        frame->storeLarge(ir::Type::i8(), codeReadInt16(t, code, ip));
+        uint16_t index = codeReadInt16(t, code, ip);
+        frame->storeLarge(ir::Type::i8(), index);
       } break;
 
       case ret: {
-- 
2.43.0


From b159a1af1d05f090ac928d55496a9a2e630ed241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:50 +0000
Subject: [PATCH 37/63] fix: compile wide fload, fstore, dload and dstore

---
 src/compile.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/compile.cpp b/src/compile.cpp
index 51d5add..4ac4e8e 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -6437,6 +6437,26 @@ loop:
         frame->store(ir::Type::object(), index);
       } break;
 
+      case dload: {
+        uint16_t index = codeReadInt16(t, code, ip);
+        frame->loadLarge(ir::Type::f8(), index);
+      } break;
+
+      case dstore: {
+        uint16_t index = codeReadInt16(t, code, ip);
+        frame->storeLarge(ir::Type::f8(), index);
+      } break;
+
+      case fload: {
+        uint16_t index = codeReadInt16(t, code, ip);
+        frame->load(ir::Type::f4(), index);
+      } break;
+
+      case fstore: {
+        uint16_t index = codeReadInt16(t, code, ip);
+        frame->store(ir::Type::f4(), index);
+      } break;
+
       case iinc: {
         uint16_t index = codeReadInt16(t, code, ip);
         int16_t count = codeReadInt16(t, code, ip);
-- 
2.43.0


From d6735da087b5fe1bb5b15d51030876c5da2deba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:50 +0000
Subject: [PATCH 38/63] fix: save locals before null checks of arraylength and
 invokevirtual in try blocks

---
 src/compile.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/compile.cpp b/src/compile.cpp
index 4ac4e8e..3698b4f 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -4424,9 +4424,16 @@ loop:
       goto next;
 
     case arraylength: {
+      ir::Value* array = frame->pop(ir::Type::object());
+
+      if (inTryBlock(t, code, ip - 1)) {
+        c->saveLocals();
+        frame->trace(0, 0);
+      }
+
       frame->push(ir::Type::i4(),
                   c->load(ir::ExtendMode::Signed,
-                          c->memory(frame->pop(ir::Type::object()),
+                          c->memory(array,
                                     ir::Type::iptr(),
                                     TargetArrayLength),
                           ir::Type::i4()));
@@ -5528,6 +5535,11 @@ loop:
 
             ir::Value* instance = c->peek(1, parameterFootprint - 1);
 
+            if (inTryBlock(t, code, ip - 3)) {
+              c->saveLocals();
+              frame->trace(0, 0);
+            }
+
             frame->stackCall(
                 c->memory(c->binaryOp(
                               lir::And,
-- 
2.43.0


From 1fc1fc7a9ca49ff59b7728b3b6722153b3a0b701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:42 +0000
Subject: [PATCH 39/63] fix: compile dup2_x2 of two narrow values over a wide
 one

---
 src/compile.cpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/compile.cpp b/src/compile.cpp
index 3698b4f..db1ffbc 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -1912,15 +1912,26 @@ class Frame {
     } else {
       ir::Value* s0 = c->pop(ir::Type::i4());
       ir::Value* s1 = c->pop(ir::Type::i4());
-      ir::Value* s2 = c->pop(ir::Type::i4());
-      ir::Value* s3 = c->pop(ir::Type::i4());
 
-      c->push(ir::Type::i4(), s1);
-      c->push(ir::Type::i4(), s0);
-      c->push(ir::Type::i4(), s3);
-      c->push(ir::Type::i4(), s2);
-      c->push(ir::Type::i4(), s1);
-      c->push(ir::Type::i4(), s0);
+      if (get(sp - 3).rawSize() == 8) {
+        ir::Value* s2 = c->pop(ir::Type::i8());
+
+        c->push(ir::Type::i4(), s1);
+        c->push(ir::Type::i4(), s0);
+        c->push(ir::Type::i8(), s2);
+        c->push(ir::Type::i4(), s1);
+        c->push(ir::Type::i4(), s0);
+      } else {
+        ir::Value* s2 = c->pop(ir::Type::i4());
+        ir::Value* s3 = c->pop(ir::Type::i4());
+
+        c->push(ir::Type::i4(), s1);
+        c->push(ir::Type::i4(), s0);
+        c->push(ir::Type::i4(), s3);
+        c->push(ir::Type::i4(), s2);
+        c->push(ir::Type::i4(), s1);
+        c->push(ir::Type::i4(), s0);
+      }
     }
 
     assertT(t, sp + 2 <= frameSize());
-- 
2.43.0


From 6e2309cc6da941f509b76941338d0f2b58870a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:42 +0000
Subject: [PATCH 40/63] fix: emit a safe point for backward branches fused with
 a comparison

---
 src/compile.cpp | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/src/compile.cpp b/src/compile.cpp
index db1ffbc..0807b20 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -3680,6 +3680,39 @@ bool integerBranch(MyThread* t,
   return true;
 }
 
+// A comparison followed by a conditional branch is compiled as one
+// operation, so the safe point of a backward branch must be emitted here,
+// while the operands of the comparison are still on the stack.
+void compileBranchSafePoint(MyThread* t,
+                            Frame* frame,
+                            GcCode* code,
+                            unsigned ip)
+{
+  if (ip + 3 > code->length()) {
+    return;
+  }
+
+  unsigned next = ip;
+  switch (code->body()[next++]) {
+  case ifeq:
+  case ifne:
+  case ifgt:
+  case ifge:
+  case iflt:
+  case ifle: {
+    uint32_t offset = codeReadInt16(t, code, next);
+    uint32_t newIp = ip + offset;
+
+    if (newIp <= next) {
+      compileSafePoint(t, frame->c, frame);
+    }
+  } break;
+
+  default:
+    break;
+  }
+}
+
 lir::TernaryOperation toCompilerFloatJumpOp(MyThread* t,
                                             unsigned instruction,
                                             bool lessIfUnordered)
@@ -4549,6 +4582,8 @@ loop:
     } break;
 
     case dcmpg: {
+      compileBranchSafePoint(t, frame, code, ip);
+
       ir::Value* a = frame->popLarge(ir::Type::f8());
       ir::Value* b = frame->popLarge(ir::Type::f8());
 
@@ -4566,6 +4601,8 @@ loop:
     } break;
 
     case dcmpl: {
+      compileBranchSafePoint(t, frame, code, ip);
+
       ir::Value* a = frame->popLarge(ir::Type::f8());
       ir::Value* b = frame->popLarge(ir::Type::f8());
 
@@ -4652,6 +4689,8 @@ loop:
     } break;
 
     case fcmpg: {
+      compileBranchSafePoint(t, frame, code, ip);
+
       ir::Value* a = frame->pop(ir::Type::f4());
       ir::Value* b = frame->pop(ir::Type::f4());
 
@@ -4669,6 +4708,8 @@ loop:
     } break;
 
     case fcmpl: {
+      compileBranchSafePoint(t, frame, code, ip);
+
       ir::Value* a = frame->pop(ir::Type::f4());
       ir::Value* b = frame->pop(ir::Type::f4());
 
@@ -5711,6 +5752,8 @@ loop:
     } break;
 
     case lcmp: {
+      compileBranchSafePoint(t, frame, code, ip);
+
       ir::Value* a = frame->popLarge(ir::Type::i8());
       ir::Value* b = frame->popLarge(ir::Type::i8());
 
-- 
2.43.0


From a6accea72004938c434de15c5b4136230dde94ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:42 +0000
Subject: [PATCH 41/63] fix: do not take a float less-than branch on unordered
 operands on x86

---
 src/codegen/target/x86/encode.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/codegen/target/x86/encode.cpp b/src/codegen/target/x86/encode.cpp
index 3831366..3633028 100644
--- a/src/codegen/target/x86/encode.cpp
+++ b/src/codegen/target/x86/encode.cpp
@@ -311,6 +311,9 @@ void branchFloat(Context* c, lir::TernaryOperation op, lir::Constant* target)
     break;
 
   case lir::JumpIfFloatLess:
+    // jp past the jb so we don't jump to the target if unordered:
+    c->code.append(0x7a);
+    c->code.append(6);
     conditional(c, 0x82, target);
     break;
 
@@ -319,6 +322,9 @@ void branchFloat(Context* c, lir::TernaryOperation op, lir::Constant* target)
     break;
 
   case lir::JumpIfFloatLessOrEqual:
+    // jp past the jbe so we don't jump to the target if unordered:
+    c->code.append(0x7a);
+    c->code.append(6);
     conditional(c, 0x86, target);
     break;
 
-- 
2.43.0


From 88a77789fded17695e435406b5dc94f0acd49007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:44 +0000
Subject: [PATCH 42/63] fix: divide the most negative integer by -1 without
 trapping on x86

---
 src/codegen/target/x86/operations.cpp | 49 ++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 8 deletions(-)

diff --git a/src/codegen/target/x86/operations.cpp b/src/codegen/target/x86/operations.cpp
index d9cbde1..1d2277b 100644
--- a/src/codegen/target/x86/operations.cpp
+++ b/src/codegen/target/x86/operations.cpp
@@ -1306,6 +1306,45 @@ void multiplyCR(Context* c,
   }
 }
 
+void divideOrRemainderRR(Context* c,
+                         unsigned size,
+                         lir::RegisterPair* a,
+                         lir::RegisterPair* b,
+                         bool remainder)
+{
+  // idiv traps if the dividend is the most negative value and the
+  // divisor is -1, so we handle a divisor of -1 without using it:
+  maybeRex(c, size, a);
+  opcode(c, 0x83, 0xf8 + regCode(a));  // cmp a,-1
+  c->code.append(0xff);
+
+  opcode(c, 0x74);  // je
+  unsigned special = c->code.length();
+  c->code.append(0);
+
+  maybeRex(c, size, a, b);
+  opcode(c, 0x99);  // cdq
+  maybeRex(c, size, b, a);
+  opcode(c, 0xf7, 0xf8 + regCode(a));
+
+  opcode(c, 0xeb);  // jmp
+  unsigned next = c->code.length();
+  c->code.append(0);
+
+  int8_t specialOffset = c->code.length() - special - 1;
+  c->code.set(special, &specialOffset, 1);
+
+  if (remainder) {
+    opcode(c, 0x31, 0xd2);  // xor edx,edx
+  } else {
+    maybeRex(c, size, b);
+    opcode(c, 0xf7, 0xd8 + regCode(b));  // neg
+  }
+
+  int8_t nextOffset = c->code.length() - next - 1;
+  c->code.set(next, &nextOffset, 1);
+}
+
 void divideRR(Context* c,
               unsigned aSize,
               lir::RegisterPair* a,
@@ -1319,10 +1358,7 @@ void divideRR(Context* c,
 
   c->client->save(rdx);
 
-  maybeRex(c, aSize, a, b);
-  opcode(c, 0x99);  // cdq
-  maybeRex(c, aSize, b, a);
-  opcode(c, 0xf7, 0xf8 + regCode(a));
+  divideOrRemainderRR(c, aSize, a, b, false);
 }
 
 void remainderRR(Context* c,
@@ -1338,10 +1374,7 @@ void remainderRR(Context* c,
 
   c->client->save(rdx);
 
-  maybeRex(c, aSize, a, b);
-  opcode(c, 0x99);  // cdq
-  maybeRex(c, aSize, b, a);
-  opcode(c, 0xf7, 0xf8 + regCode(a));
+  divideOrRemainderRR(c, aSize, a, b, true);
 
   lir::RegisterPair dx(rdx);
   moveRR(c, vm::TargetBytesPerWord, &dx, vm::TargetBytesPerWord, b);
-- 
2.43.0


From c560d7109c43643fd5b89797b6cca9bf9824460c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:44 +0000
Subject: [PATCH 43/63] fix: zero-extend the result of the Unsafe.getChar
 intrinsic

---
 src/compile.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compile.cpp b/src/compile.cpp
index 0807b20..c082e04 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -3855,7 +3855,9 @@ bool intrinsic(MyThread* t UNUSED, Frame* frame, GcMethod* target)
       ir::Value* address = popLongAddress(frame);
       frame->pop(ir::Type::object());
       frame->push(ir::Type::i4(),
-                  c->load(ir::ExtendMode::Signed,
+                  c->load(MATCH(target->name(), "getChar")
+                              ? ir::ExtendMode::Unsigned
+                              : ir::ExtendMode::Signed,
                           c->memory(address, ir::Type::i2()),
                           ir::Type::i4()));
       return true;
-- 
2.43.0


From 9133fc5fcec4f54ee486cfb307cee84ec5fdb448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:35 +0000
Subject: [PATCH 44/63] fix: detect a null receiver when calling a private
 method

---
 src/compile.cpp | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/compile.cpp b/src/compile.cpp
index c082e04..a3fa157 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -3641,6 +3641,29 @@ lir::TernaryOperation toCompilerJumpOp(MyThread* t, unsigned instruction)
   }
 }
 
+// Read the class of the receiver of a method which isn't called via the
+// virtual table, since such a call won't detect a null reference itself.
+void compileNullCheck(MyThread* t,
+                      Frame* frame,
+                      GcCode* code,
+                      unsigned ip,
+                      GcMethod* target)
+{
+  avian::codegen::Compiler* c = frame->c;
+
+  ir::Value* instance = c->peek(1, target->parameterFootprint() - 1);
+
+  if (inTryBlock(t, code, ip)) {
+    c->saveLocals();
+    frame->trace(0, 0);
+  }
+
+  c->binaryOp(lir::And,
+              ir::Type::iptr(),
+              c->constant(TargetPointerMask, ir::Type::iptr()),
+              c->memory(instance, ir::Type::object()));
+}
+
 bool integerBranch(MyThread* t,
                    Frame* frame,
                    GcCode* code,
@@ -5512,6 +5535,11 @@ loop:
 
         bool tailCall = isTailCall(t, code, ip, context->method, target);
 
+        if ((target->flags() & ACC_PRIVATE)
+            and target->name()->body()[0] != '<') {
+          compileNullCheck(t, frame, code, ip - 3, target);
+        }
+
         if (UNLIKELY(methodAbstract(t, target))) {
           compileDirectAbstractInvoke(
               t, frame, getMethodAddressThunk, target, tailCall);
@@ -5610,6 +5638,7 @@ loop:
             // (e.g. readObject and writeObject for serialization), so
             // we must handle such cases here.
 
+            compileNullCheck(t, frame, code, ip - 3, target);
             compileDirectInvoke(t, frame, target, tailCall);
           }
         }
-- 
2.43.0


From 43c5a8920df72c31c9d640c22476e6989d3d491a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:52 +0000
Subject: [PATCH 45/63] fix: dispose of the local references of a native method
 that throws

---
 src/compile.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compile.cpp b/src/compile.cpp
index a3fa157..415befe 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -7873,6 +7873,10 @@ uint64_t invokeNativeSlow(MyThread* t, GcMethod* method, void* function)
   }
 
   if (UNLIKELY(t->exception)) {
+    while (t->reference != reference) {
+      dispose(t, t->reference);
+    }
+
     GcThrowable* exception = t->exception;
     t->exception = 0;
     vm::throw_(t, exception);
-- 
2.43.0


From 1f1dc9b0e842d4cae25f45bf13c6f0690e1d0daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:52 +0000
Subject: [PATCH 46/63] fix: read byte, boolean, char and short arguments from
 the right member of jvalue

---
 src/compile.cpp   | 16 ++++++++++++++++
 src/interpret.cpp | 16 ++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/src/compile.cpp b/src/compile.cpp
index 415befe..e1ac594 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -8591,6 +8591,22 @@ class ArgumentList {
         addInt(floatToBits(arguments[index++].f));
         break;
 
+      case 'Z':
+        addInt(arguments[index++].z);
+        break;
+
+      case 'B':
+        addInt(arguments[index++].b);
+        break;
+
+      case 'C':
+        addInt(arguments[index++].c);
+        break;
+
+      case 'S':
+        addInt(arguments[index++].s);
+        break;
+
       default:
         addInt(arguments[index++].i);
         break;
diff --git a/src/interpret.cpp b/src/interpret.cpp
index 6a9482a..8a2f124 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -3142,6 +3142,22 @@ void pushArguments(Thread* t,
       pushFloat(t, arguments[index++].f);
     } break;
 
+    case 'Z':
+      pushInt(t, arguments[index++].z);
+      break;
+
+    case 'B':
+      pushInt(t, arguments[index++].b);
+      break;
+
+    case 'C':
+      pushInt(t, arguments[index++].c);
+      break;
+
+    case 'S':
+      pushInt(t, arguments[index++].s);
+      break;
+
     default:
       pushInt(t, arguments[index++].i);
       break;
-- 
2.43.0


From 82670f8d1d0167966440bdfd960d197f4b37c8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:52 +0000
Subject: [PATCH 47/63] fix: read double arguments from a va_list as doubles in
 the interpreter

---
 src/interpret.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/interpret.cpp b/src/interpret.cpp
index 8a2f124..0e79c72 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -3100,10 +3100,13 @@ void pushArguments(Thread* t,
       break;
 
     case 'J':
-    case 'D':
       pushLong(t, va_arg(a, uint64_t));
       break;
 
+    case 'D':
+      pushDouble(t, va_arg(a, double));
+      break;
+
     case 'F': {
       pushFloat(t, va_arg(a, double));
     } break;
-- 
2.43.0


From 83c7b24ffe08be68d2d8d8701ec9da1abf617f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:52 +0000
Subject: [PATCH 48/63] fix: unbox, widen and check the arguments of a
 reflective call

---
 src/avian/classpath-common.h |  35 +++++++++++
 src/avian/machine.h          |   2 +
 src/compile.cpp              |   9 ++-
 src/interpret.cpp            |   9 ++-
 src/machine.cpp              | 110 ++++++++++++++++++++++++++++++++++-
 5 files changed, 152 insertions(+), 13 deletions(-)

diff --git a/src/avian/classpath-common.h b/src/avian/classpath-common.h
index 75bdb94..066e5da 100644
--- a/src/avian/classpath-common.h
+++ b/src/avian/classpath-common.h
@@ -849,8 +849,43 @@ void setPrimitive(Thread* t,
   }
 }
 
+// throw IllegalArgumentException unless each argument is of the type
+// the method declares for it, or may be converted to that type
+void checkArguments(Thread* t, GcMethod* method, object args)
+{
+  PROTECT(t, method);
+  PROTECT(t, args);
+
+  unsigned specLength = method->spec()->length();
+  THREAD_RUNTIME_ARRAY(t, char, spec, specLength);
+  memcpy(RUNTIME_ARRAY_BODY(spec), method->spec()->body().begin(), specLength);
+
+  unsigned i = 0;
+  for (MethodSpecIterator it(t, RUNTIME_ARRAY_BODY(spec)); it.hasNext(); ++i) {
+    const char* p = it.next();
+    if (*p == 'L' or *p == '[') {
+      if (objectArrayBody(t, args, i)) {
+        GcClass* type = resolveClassBySpec(
+            t, method->class_()->loader(), p, it.s - p);
+
+        if (not instanceOf(t, type, objectArrayBody(t, args, i))) {
+          throwNew(t, GcIllegalArgumentException::Type);
+        }
+      }
+    } else {
+      unbox(t, objectArrayBody(t, args, i), *p);
+    }
+  }
+}
+
 int64_t invokeMethod(Thread* t, GcMethod* method, object instance, object args)
 {
+  PROTECT(t, method);
+  PROTECT(t, instance);
+  PROTECT(t, args);
+
+  checkArguments(t, method, args);
+
   THREAD_RESOURCE0(t, {
     if (t->exception) {
       GcThrowable* exception = t->exception;
diff --git a/src/avian/machine.h b/src/avian/machine.h
index 715eb03..4494765 100644
--- a/src/avian/machine.h
+++ b/src/avian/machine.h
@@ -2561,6 +2561,8 @@ inline GcThrowable* makeThrowable(Thread* t,
 
 void popResources(Thread* t);
 
+uint64_t unbox(Thread* t, object box, char type);
+
 }  // namespace vm
 
 AVIAN_EXPORT void vmPrintTrace(vm::Thread* t);
diff --git a/src/compile.cpp b/src/compile.cpp
index e1ac594..d4b8365 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -8634,7 +8634,8 @@ class ArgumentList {
 
     unsigned index = 0;
     for (MethodSpecIterator it(t, spec); it.hasNext();) {
-      switch (*it.next()) {
+      char type = *it.next();
+      switch (type) {
       case 'L':
       case '[':
         addObject(objectArrayBody(t, arguments, index++));
@@ -8642,13 +8643,11 @@ class ArgumentList {
 
       case 'J':
       case 'D':
-        addLong(
-            fieldAtOffset<int64_t>(objectArrayBody(t, arguments, index++), 8));
+        addLong(unbox(t, objectArrayBody(t, arguments, index++), type));
         break;
 
       default:
-        addInt(fieldAtOffset<int32_t>(objectArrayBody(t, arguments, index++),
-                                      BytesPerWord));
+        addInt(unbox(t, objectArrayBody(t, arguments, index++), type));
         break;
       }
     }
diff --git a/src/interpret.cpp b/src/interpret.cpp
index 0e79c72..e88995f 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -3176,7 +3176,8 @@ void pushArguments(Thread* t, object this_, const char* spec, object a)
 
   unsigned index = 0;
   for (MethodSpecIterator it(t, spec); it.hasNext();) {
-    switch (*it.next()) {
+    char type = *it.next();
+    switch (type) {
     case 'L':
     case '[':
       pushObject(t, objectArrayBody(t, a, index++));
@@ -3184,13 +3185,11 @@ void pushArguments(Thread* t, object this_, const char* spec, object a)
 
     case 'J':
     case 'D':
-      pushLong(t, fieldAtOffset<int64_t>(objectArrayBody(t, a, index++), 8));
+      pushLong(t, unbox(t, objectArrayBody(t, a, index++), type));
       break;
 
     default:
-      pushInt(
-          t,
-          fieldAtOffset<int32_t>(objectArrayBody(t, a, index++), BytesPerWord));
+      pushInt(t, unbox(t, objectArrayBody(t, a, index++), type));
       break;
     }
   }
diff --git a/src/machine.cpp b/src/machine.cpp
index 4ab20d4..22dfe17 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -4407,6 +4407,102 @@ object makeNewGeneral(Thread* t, GcClass* class_)
   return instance;
 }
 
+// return the bits of the primitive value a box holds, converted as by
+// method invocation conversion to the primitive type named by the
+// specified type descriptor
+uint64_t unbox(Thread* t, object box, char type)
+{
+  GcClass* c = box ? objectClass(t, box) : 0;
+
+  // the values of a box which may be widened, as an integer (if it is
+  // one) and as a floating point number
+  int64_t integer = 0;
+  double real = 0;
+  // the position of the source type in "BSIJFD", or -1
+  int rank = -1;
+
+  if (box == 0) {
+    throwNew(t, GcIllegalArgumentException::Type);
+  } else if (c == vm::type(t, GcBoolean::Type)) {
+    if (type == 'Z') {
+      return cast<GcBoolean>(t, box)->value() != 0;
+    }
+  } else if (c == vm::type(t, GcChar::Type)) {
+    integer = static_cast<uint16_t>(cast<GcChar>(t, box)->value());
+    if (type == 'C') {
+      return integer;
+    }
+    // a char is widened as an int is, that is, not to byte or short
+    rank = 2;
+  } else if (c == vm::type(t, GcByte::Type)) {
+    integer = static_cast<int8_t>(cast<GcByte>(t, box)->value());
+    rank = 0;
+  } else if (c == vm::type(t, GcShort::Type)) {
+    integer = static_cast<int16_t>(cast<GcShort>(t, box)->value());
+    rank = 1;
+  } else if (c == vm::type(t, GcInt::Type)) {
+    integer = static_cast<int32_t>(cast<GcInt>(t, box)->value());
+    rank = 2;
+  } else if (c == vm::type(t, GcLong::Type)) {
+    integer = cast<GcLong>(t, box)->value();
+    rank = 3;
+  } else if (c == vm::type(t, GcFloat::Type)) {
+    uint32_t bits = cast<GcFloat>(t, box)->value();
+    if (type == 'F') {
+      return bits;
+    }
+    real = bitsToFloat(bits);
+    rank = 4;
+  } else if (c == vm::type(t, GcDouble::Type)) {
+    uint64_t bits = cast<GcDouble>(t, box)->value();
+    if (type == 'D') {
+      return bits;
+    }
+  }
+
+  if (rank >= 0) {
+    switch (type) {
+    case 'B':
+      if (rank == 0) {
+        return integer;
+      }
+      break;
+
+    case 'S':
+      if (rank <= 1) {
+        return integer;
+      }
+      break;
+
+    case 'I':
+      if (rank <= 2) {
+        return integer;
+      }
+      break;
+
+    case 'J':
+      if (rank <= 3) {
+        return integer;
+      }
+      break;
+
+    case 'F':
+      if (rank <= 3) {
+        return floatToBits(integer);
+      }
+      break;
+
+    case 'D':
+      return doubleToBits(rank <= 3 ? static_cast<double>(integer) : real);
+
+    default:
+      break;
+    }
+  }
+
+  throwNew(t, GcIllegalArgumentException::Type);
+}
+
 void popResources(Thread* t)
 {
   while (t->resource != t->checkpoint->resource) {
@@ -6239,8 +6335,7 @@ GcCallSite* resolveDynamic(Thread* t, GcInvocation* invocation)
       }
     } break;
 
-    case 'I':
-    case 'F': {
+    case 'I': {
       GcInt* box = makeInt(
           t,
           singletonValue(t, invocation->pool(), bootstrapArray->body()[i + 1]));
@@ -6248,6 +6343,14 @@ GcCallSite* resolveDynamic(Thread* t, GcInvocation* invocation)
       array->setBodyElement(t, i + argument, box);
     } break;
 
+    case 'F': {
+      GcFloat* box = makeFloat(
+          t,
+          singletonValue(t, invocation->pool(), bootstrapArray->body()[i + 1]));
+
+      array->setBodyElement(t, i + argument, box);
+    } break;
+
     case 'J':
     case 'D': {
       uint64_t v;
@@ -6256,7 +6359,8 @@ GcCallSite* resolveDynamic(Thread* t, GcInvocation* invocation)
           &singletonValue(t, invocation->pool(), bootstrapArray->body()[i + 1]),
           8);
 
-      GcLong* box = makeLong(t, v);
+      object box = *p == 'J' ? static_cast<object>(makeLong(t, v))
+                             : static_cast<object>(makeDouble(t, v));
 
       array->setBodyElement(t, i + argument, box);
     } break;
-- 
2.43.0


From d81ce060c2ae94cc3d5925cd9ae8cc05937852cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:11 +0000
Subject: [PATCH 49/63] fix: release the monitor an interpreted method entered
 though it stored to local 0

---
 src/interpret.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/interpret.cpp b/src/interpret.cpp
index e88995f..e88c643 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -315,6 +315,13 @@ void pushFrame(Thread* t, GcMethod* method)
            (locals - parameterFootprint) * BytesPerWord * 2);
   }
 
+  if ((method->flags() & (ACC_SYNCHRONIZED | ACC_STATIC)) == ACC_SYNCHRONIZED) {
+    // The method may store to local variable zero, so remember the
+    // receiver, whose monitor we hold, in a slot of its own.
+    pokeObject(t, base + locals, peekObject(t, base));
+    ++locals;
+  }
+
   unsigned frame = base + locals;
   pokeInt(t, frame + FrameNextOffset, t->frame);
   t->frame = frame;
@@ -334,7 +341,7 @@ void popFrame(Thread* t)
     if (method->flags() & ACC_STATIC) {
       release(t, getJClass(t, method->class_()));
     } else {
-      release(t, peekObject(t, frameBase(t, t->frame)));
+      release(t, peekObject(t, t->frame - 1));
     }
   }
 
-- 
2.43.0


From 54d62fd564ffc0a3acd65ce93ca3935d7de04bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:05 +0000
Subject: [PATCH 50/63] fix: order the accesses that reflection makes to
 volatile fields

---
 src/classpath-avian.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/classpath-avian.cpp b/src/classpath-avian.cpp
index f8318f3..4271a8d 100644
--- a/src/classpath-avian.cpp
+++ b/src/classpath-avian.cpp
@@ -286,8 +286,13 @@ extern "C" AVIAN_EXPORT int64_t JNICALL
                                                object,
                                                uintptr_t* arguments)
 {
-  return getPrimitive(
+  int64_t value = getPrimitive(
       t, reinterpret_cast<object>(arguments[0]), arguments[1], arguments[2]);
+
+  // the field may be volatile
+  loadMemoryBarrier();
+
+  return value;
 }
 
 extern "C" AVIAN_EXPORT int64_t JNICALL
@@ -295,8 +300,13 @@ extern "C" AVIAN_EXPORT int64_t JNICALL
                                             object,
                                             uintptr_t* arguments)
 {
-  return reinterpret_cast<int64_t>(fieldAtOffset<object>(
+  int64_t value = reinterpret_cast<int64_t>(fieldAtOffset<object>(
       reinterpret_cast<object>(arguments[0]), arguments[1]));
+
+  // the field may be volatile
+  loadMemoryBarrier();
+
+  return value;
 }
 
 extern "C" AVIAN_EXPORT void JNICALL
@@ -307,11 +317,16 @@ extern "C" AVIAN_EXPORT void JNICALL
   int64_t value;
   memcpy(&value, arguments + 3, 8);
 
+  // the field may be volatile
+  storeStoreMemoryBarrier();
+
   setPrimitive(t,
                reinterpret_cast<object>(arguments[0]),
                arguments[1],
                arguments[2],
                value);
+
+  storeLoadMemoryBarrier();
 }
 
 extern "C" AVIAN_EXPORT void JNICALL
@@ -319,10 +334,15 @@ extern "C" AVIAN_EXPORT void JNICALL
                                             object,
                                             uintptr_t* arguments)
 {
+  // the field may be volatile
+  storeStoreMemoryBarrier();
+
   setField(t,
            reinterpret_cast<object>(arguments[0]),
            arguments[1],
            reinterpret_cast<object>(arguments[2]));
+
+  storeLoadMemoryBarrier();
 }
 
 extern "C" AVIAN_EXPORT int64_t JNICALL
-- 
2.43.0


From 737f3de95817454ae6fa304d546a8009a34420d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:37 +0000
Subject: [PATCH 51/63] fix: order the final fields a constructor writes before
 its return

---
 src/compile.cpp   | 2 +-
 src/interpret.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compile.cpp b/src/compile.cpp
index d4b8365..b332f82 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -3520,7 +3520,7 @@ bool inTryBlock(MyThread* t UNUSED, GcCode* code, unsigned ip)
 
 bool needsReturnBarrier(MyThread* t UNUSED, GcMethod* method)
 {
-  return (method->flags() & ConstructorFlag)
+  return (method->vmFlags() & ConstructorFlag)
          and (method->class_()->vmFlags() & HasFinalMemberFlag);
 }
 
diff --git a/src/interpret.cpp b/src/interpret.cpp
index e88c643..0e3829d 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -2825,7 +2825,7 @@ loop:
 
   case return_: {
     GcMethod* method = frameMethod(t, frame);
-    if ((method->flags() & ConstructorFlag)
+    if ((method->vmFlags() & ConstructorFlag)
         and (method->class_()->vmFlags() & HasFinalMemberFlag)) {
       storeStoreMemoryBarrier();
     }
-- 
2.43.0


From 2e474d125b8c14cc379d819dc9116756e2cc280b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:58 +0000
Subject: [PATCH 52/63] fix: iterate frame maps when a method with exception
 handlers ends in a loop

The last path of a method which has exception handlers is followed by the
events of the first handler, so a change to the roots of the instruction it
joins went unnoticed and the frame maps of a loop could claim that a slot
holds a reference when it does not.
---
 src/compile.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compile.cpp b/src/compile.cpp
index b332f82..a117075 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -7068,7 +7068,9 @@ unsigned calculateFrameMaps(MyThread* t,
           uintptr_t newRoots = tableRoots[wi] & RUNTIME_ARRAY_BODY(roots)[wi];
 
           if ((eventIndex == length
-               or context->eventLog.get(eventIndex) == PopContextEvent)
+               or context->eventLog.get(eventIndex) == PopContextEvent
+               or context->eventLog.get(eventIndex)
+                  == PushExceptionHandlerEvent)
               and newRoots != tableRoots[wi]) {
             if (DebugFrameMaps) {
               fprintf(stderr, "dirty roots!\n");
-- 
2.43.0


From 441dcc5b53c8aed407f6a37777b4f8ed1cd3f8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:58 +0000
Subject: [PATCH 53/63] fix: keep the frame maps of the copies of a subroutine
 apart

The event log named the instructions of a subroutine by their original
position, so the maps of all copies of it were merged and a reference which
is live in one of them only was lost to the garbage collector.
---
 src/compile.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/compile.cpp b/src/compile.cpp
index a117075..bf396e2 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -1662,7 +1662,7 @@ class Frame {
     c->visitLogicalIp(dupIp);
 
     context->eventLog.append(IpEvent);
-    context->eventLog.append2(bytecodeIp);
+    context->eventLog.append4(dupIp);
   }
 
   void startLogicalIp(unsigned bytecodeIp)
@@ -1671,7 +1671,7 @@ class Frame {
     c->startLogicalIp(dupIp);
 
     context->eventLog.append(IpEvent);
-    context->eventLog.append2(bytecodeIp);
+    context->eventLog.append4(dupIp);
 
     this->ip = bytecodeIp;
   }
@@ -7051,8 +7051,8 @@ unsigned calculateFrameMaps(MyThread* t,
       goto exit;
 
     case IpEvent: {
-      ip = context->eventLog.get2(eventIndex);
-      eventIndex += 2;
+      ip = context->eventLog.get4(eventIndex);
+      eventIndex += 4;
 
       if (DebugFrameMaps) {
         fprintf(stderr, "       roots at ip %3d: ", ip);
@@ -7108,10 +7108,10 @@ unsigned calculateFrameMaps(MyThread* t,
     } break;
 
     case PushExceptionHandlerEvent: {
-      unsigned start = context->eventLog.get2(eventIndex);
-      eventIndex += 2;
-      unsigned end = context->eventLog.get2(eventIndex);
-      eventIndex += 2;
+      unsigned start = context->eventLog.get4(eventIndex);
+      eventIndex += 4;
+      unsigned end = context->eventLog.get4(eventIndex);
+      eventIndex += 4;
 
       calculateTryCatchRoots(
           context, RUNTIME_ARRAY_BODY(roots), mapSize, start, end);
@@ -7595,8 +7595,8 @@ void compile(MyThread* t, Context* context)
             }
 
             context->eventLog.append(PushExceptionHandlerEvent);
-            context->eventLog.append2(start);
-            context->eventLog.append2(end);
+            context->eventLog.append4(start);
+            context->eventLog.append4(end);
 
             for (unsigned i = 1; i < context->method->code()->maxStack(); ++i) {
               frame2.set(localSize(t, context->method) + i, ir::Type::i4());
-- 
2.43.0


From 46efdc15460c333fe33fdd69a0c3decc76f37b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:59 +0000
Subject: [PATCH 54/63] fix: keep 0 <= position <= limit <= capacity in buffers

---
 classpath/java/nio/Buffer.java | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/classpath/java/nio/Buffer.java b/classpath/java/nio/Buffer.java
index f03e178..720babe 100644
--- a/classpath/java/nio/Buffer.java
+++ b/classpath/java/nio/Buffer.java
@@ -33,11 +33,22 @@ public abstract class Buffer {
   }
 
   public final Buffer limit(int newLimit) {
+    if (newLimit < 0 || newLimit > capacity) {
+      throw new IllegalArgumentException();
+    }
+
     limit = newLimit;
+    if (position > limit) {
+      position = limit;
+    }
     return this;
   }
 
   public final Buffer position(int newPosition) {
+    if (newPosition < 0 || newPosition > limit) {
+      throw new IllegalArgumentException();
+    }
+
     position = newPosition;
     return this;
   }
-- 
2.43.0


From bcc6235d30c7d362b08de60f3080d92c60a70621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:59 +0000
Subject: [PATCH 55/63] fix: refuse positions and lengths outside a buffer,
 whatever their size

---
 classpath/java/nio/ByteBuffer.java | 4 ++--
 classpath/java/nio/CharBuffer.java | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/classpath/java/nio/ByteBuffer.java b/classpath/java/nio/ByteBuffer.java
index fddb064..1d5084b 100644
--- a/classpath/java/nio/ByteBuffer.java
+++ b/classpath/java/nio/ByteBuffer.java
@@ -311,7 +311,7 @@ public abstract class ByteBuffer
       throw new ReadOnlyBufferException();
     }
 
-    if (position < 0 || position+amount > limit) {
+    if (position < 0 || amount < 0 || amount > limit-position) {
       throw absolute
         ? new IndexOutOfBoundsException()
         : new BufferOverflowException();
@@ -319,7 +319,7 @@ public abstract class ByteBuffer
   }
 
   protected void checkGet(int position, int amount, boolean absolute) {
-    if (amount > limit-position) {
+    if (position < 0 || amount < 0 || amount > limit-position) {
       throw absolute
         ? new IndexOutOfBoundsException()
         : new BufferUnderflowException();
diff --git a/classpath/java/nio/CharBuffer.java b/classpath/java/nio/CharBuffer.java
index 1d92de5..6c9ace0 100644
--- a/classpath/java/nio/CharBuffer.java
+++ b/classpath/java/nio/CharBuffer.java
@@ -137,7 +137,7 @@ public abstract class CharBuffer
       throw new ReadOnlyBufferException();
     }
 
-    if (position < 0 || position+amount > limit) {
+    if (position < 0 || amount < 0 || amount > limit-position) {
       throw absolute
         ? new IndexOutOfBoundsException()
         : new BufferOverflowException();
@@ -145,7 +145,7 @@ public abstract class CharBuffer
   }
 
   protected void checkGet(int position, int amount, boolean absolute) {
-    if (amount > limit-position) {
+    if (position < 0 || amount < 0 || amount > limit-position) {
       throw absolute
         ? new IndexOutOfBoundsException()
         : new BufferUnderflowException();
-- 
2.43.0


From d21d27f34860191b57175fb14e68886dbfb9b9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:59 +0000
Subject: [PATCH 56/63] fix: check the range of bulk transfers of direct
 buffers, and move the position on

---
 classpath/java/nio/DirectByteBuffer.java | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/classpath/java/nio/DirectByteBuffer.java b/classpath/java/nio/DirectByteBuffer.java
index ede7074..f0cb3d5 100644
--- a/classpath/java/nio/DirectByteBuffer.java
+++ b/classpath/java/nio/DirectByteBuffer.java
@@ -65,7 +65,7 @@ class DirectByteBuffer extends ByteBuffer {
   }
 
   public ByteBuffer put(byte[] src, int offset, int length) {
-    if (offset < 0 || offset + length > src.length) {
+    if (offset < 0 || length < 0 || length > src.length - offset) {
       throw new ArrayIndexOutOfBoundsException();
     }
 
@@ -80,7 +80,7 @@ class DirectByteBuffer extends ByteBuffer {
   }
 
   public ByteBuffer get(byte[] dst, int offset, int length) {
-    if (offset < 0 || offset + length > dst.length) {
+    if (offset < 0 || length < 0 || length > dst.length - offset) {
       throw new ArrayIndexOutOfBoundsException();
     }
 
@@ -89,6 +89,8 @@ class DirectByteBuffer extends ByteBuffer {
     unsafe.copyMemory
       (null, address + position, dst, baseOffset + offset, length);
 
+    position += length;
+
     return this;
   }
 
-- 
2.43.0


From ecbd4d5c025032ad9e4cc3bea1c48a1797dbb9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:59 +0000
Subject: [PATCH 57/63] fix: a slice of a buffer is read-only only if the
 buffer is

---
 classpath/java/nio/ArrayByteBuffer.java      | 2 +-
 classpath/java/nio/ArrayCharBuffer.java      | 2 +-
 classpath/java/nio/CharBuffer.java           | 6 ++----
 classpath/java/nio/DirectByteBuffer.java     | 2 +-
 classpath/java/nio/FixedArrayByteBuffer.java | 3 ++-
 5 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/classpath/java/nio/ArrayByteBuffer.java b/classpath/java/nio/ArrayByteBuffer.java
index d0e41a2..8609725 100644
--- a/classpath/java/nio/ArrayByteBuffer.java
+++ b/classpath/java/nio/ArrayByteBuffer.java
@@ -41,7 +41,7 @@ class ArrayByteBuffer extends ByteBuffer {
 
   public ByteBuffer slice() {
     return new ArrayByteBuffer
-      (array, arrayOffset + position, remaining(), true);
+      (array, arrayOffset + position, remaining(), isReadOnly());
   }
 
   public int arrayOffset() {
diff --git a/classpath/java/nio/ArrayCharBuffer.java b/classpath/java/nio/ArrayCharBuffer.java
index a4e93aa..83dca73 100644
--- a/classpath/java/nio/ArrayCharBuffer.java
+++ b/classpath/java/nio/ArrayCharBuffer.java
@@ -41,7 +41,7 @@ class ArrayCharBuffer extends CharBuffer {
 
   public CharBuffer slice() {
     return new ArrayCharBuffer
-      (array, arrayOffset + position, remaining(), true);
+      (array, arrayOffset + position, remaining(), isReadOnly());
   }
 
   public int arrayOffset() {
diff --git a/classpath/java/nio/CharBuffer.java b/classpath/java/nio/CharBuffer.java
index 6c9ace0..009e155 100644
--- a/classpath/java/nio/CharBuffer.java
+++ b/classpath/java/nio/CharBuffer.java
@@ -14,10 +14,8 @@ public abstract class CharBuffer
   extends Buffer
   implements Comparable<CharBuffer>
 {
-  private final boolean readOnly;
-
   protected CharBuffer(boolean readOnly) {
-    this.readOnly = readOnly;
+    this.readonly = readOnly;
   }
 
   public static CharBuffer allocate(int capacity) {
@@ -133,7 +131,7 @@ public abstract class CharBuffer
   }
 
   protected void checkPut(int position, int amount, boolean absolute) {
-    if (readOnly) {
+    if (isReadOnly()) {
       throw new ReadOnlyBufferException();
     }
 
diff --git a/classpath/java/nio/DirectByteBuffer.java b/classpath/java/nio/DirectByteBuffer.java
index f0cb3d5..0bd9e7f 100644
--- a/classpath/java/nio/DirectByteBuffer.java
+++ b/classpath/java/nio/DirectByteBuffer.java
@@ -39,7 +39,7 @@ class DirectByteBuffer extends ByteBuffer {
   }
 
   public ByteBuffer slice() {
-    return new DirectByteBuffer(address + position, remaining(), true);
+    return new DirectByteBuffer(address + position, remaining(), isReadOnly());
   }
 
   protected void doPut(int position, byte val) {
diff --git a/classpath/java/nio/FixedArrayByteBuffer.java b/classpath/java/nio/FixedArrayByteBuffer.java
index d433e32..697876b 100644
--- a/classpath/java/nio/FixedArrayByteBuffer.java
+++ b/classpath/java/nio/FixedArrayByteBuffer.java
@@ -44,7 +44,8 @@ class FixedArrayByteBuffer extends DirectByteBuffer {
 
   public ByteBuffer slice() {
     return new FixedArrayByteBuffer
-      (address + position, array, arrayOffset + position, remaining(), true);
+      (address + position, array, arrayOffset + position, remaining(),
+       isReadOnly());
   }
   
   @Override
-- 
2.43.0


From e920509c744a7d17bb6a92088f6b828f1c9f0bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:59 +0000
Subject: [PATCH 58/63] fix: writing a char past the limit of a buffer
 overflows it

---
 classpath/java/nio/CharBuffer.java | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/classpath/java/nio/CharBuffer.java b/classpath/java/nio/CharBuffer.java
index 009e155..70df611 100644
--- a/classpath/java/nio/CharBuffer.java
+++ b/classpath/java/nio/CharBuffer.java
@@ -107,7 +107,8 @@ public abstract class CharBuffer
   }
 
   public CharBuffer put(char val) {
-    put(position, val);
+    checkPut(position, 1, false);
+    doPut(position, val);
     ++ position;
     return this;
   }
-- 
2.43.0


From c942c708dffb4d83e0e1e77647ce51e5ee4b0628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:59 +0000
Subject: [PATCH 59/63] fix: check the range of arrays that buffers wrap, and
 the size of direct buffers

---
 classpath/java/nio/ByteBuffer.java           | 4 ++++
 classpath/java/nio/CharBuffer.java           | 4 ++++
 classpath/java/nio/FixedArrayByteBuffer.java | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/classpath/java/nio/ByteBuffer.java b/classpath/java/nio/ByteBuffer.java
index 1d5084b..50d1334 100644
--- a/classpath/java/nio/ByteBuffer.java
+++ b/classpath/java/nio/ByteBuffer.java
@@ -32,6 +32,10 @@ public abstract class ByteBuffer
   }
 
   public static ByteBuffer wrap(byte[] array, int offset, int length) {
+    if (offset < 0 || length < 0 || length > array.length - offset) {
+      throw new IndexOutOfBoundsException();
+    }
+
     return new ArrayByteBuffer(array, offset, length, false);
   }
 
diff --git a/classpath/java/nio/CharBuffer.java b/classpath/java/nio/CharBuffer.java
index 70df611..1a54970 100644
--- a/classpath/java/nio/CharBuffer.java
+++ b/classpath/java/nio/CharBuffer.java
@@ -27,6 +27,10 @@ public abstract class CharBuffer
   }
 
   public static CharBuffer wrap(char[] array, int offset, int length) {
+    if (offset < 0 || length < 0 || length > array.length - offset) {
+      throw new IndexOutOfBoundsException();
+    }
+
     return new ArrayCharBuffer(array, offset, length, false);
   }
 
diff --git a/classpath/java/nio/FixedArrayByteBuffer.java b/classpath/java/nio/FixedArrayByteBuffer.java
index 697876b..a45dc66 100644
--- a/classpath/java/nio/FixedArrayByteBuffer.java
+++ b/classpath/java/nio/FixedArrayByteBuffer.java
@@ -27,6 +27,10 @@ class FixedArrayByteBuffer extends DirectByteBuffer {
   }
 
   public static FixedArrayByteBuffer make(int capacity) {
+    if (capacity < 0) {
+      throw new IllegalArgumentException();
+    }
+
     long[] address = new long[1];
     byte[] array = allocateFixed(capacity, address);
     return new FixedArrayByteBuffer(address[0], array, 0, capacity, false);
-- 
2.43.0


From 73a8804c205e398974a7b610576e361d3f6c260f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:59 +0000
Subject: [PATCH 60/63] fix: refuse to put a buffer into itself

---
 classpath/java/nio/ArrayByteBuffer.java  | 4 ++++
 classpath/java/nio/ArrayCharBuffer.java  | 4 ++++
 classpath/java/nio/ByteBuffer.java       | 4 ++++
 classpath/java/nio/CharBuffer.java       | 4 ++++
 classpath/java/nio/DirectByteBuffer.java | 4 ++++
 5 files changed, 20 insertions(+)

diff --git a/classpath/java/nio/ArrayByteBuffer.java b/classpath/java/nio/ArrayByteBuffer.java
index 8609725..7322b21 100644
--- a/classpath/java/nio/ArrayByteBuffer.java
+++ b/classpath/java/nio/ArrayByteBuffer.java
@@ -53,6 +53,10 @@ class ArrayByteBuffer extends ByteBuffer {
   }
 
   public ByteBuffer put(ByteBuffer src) {
+    if (src == this) {
+      throw new IllegalArgumentException();
+    }
+
     int length = src.remaining();
     checkPut(position, length, false);
     src.get(array, arrayOffset + position, length);
diff --git a/classpath/java/nio/ArrayCharBuffer.java b/classpath/java/nio/ArrayCharBuffer.java
index 83dca73..2c63c83 100644
--- a/classpath/java/nio/ArrayCharBuffer.java
+++ b/classpath/java/nio/ArrayCharBuffer.java
@@ -53,6 +53,10 @@ class ArrayCharBuffer extends CharBuffer {
   }
 
   public CharBuffer put(CharBuffer src) {
+    if (src == this) {
+      throw new IllegalArgumentException();
+    }
+
     int length = src.remaining();
     checkPut(position, length, false);
     src.get(array, arrayOffset + position, length);
diff --git a/classpath/java/nio/ByteBuffer.java b/classpath/java/nio/ByteBuffer.java
index 50d1334..e9d9ed1 100644
--- a/classpath/java/nio/ByteBuffer.java
+++ b/classpath/java/nio/ByteBuffer.java
@@ -73,6 +73,10 @@ public abstract class ByteBuffer
   }
 
   public ByteBuffer put(ByteBuffer src) {
+    if (src == this) {
+      throw new IllegalArgumentException();
+    }
+
     if (src.hasArray()) {
       checkPut(position, src.remaining(), false);
 
diff --git a/classpath/java/nio/CharBuffer.java b/classpath/java/nio/CharBuffer.java
index 1a54970..0e9dd5a 100644
--- a/classpath/java/nio/CharBuffer.java
+++ b/classpath/java/nio/CharBuffer.java
@@ -66,6 +66,10 @@ public abstract class CharBuffer
   }
 
   public CharBuffer put(CharBuffer src) {
+    if (src == this) {
+      throw new IllegalArgumentException();
+    }
+
     if (src.hasArray()) {
       checkPut(position, src.remaining(), false);
 
diff --git a/classpath/java/nio/DirectByteBuffer.java b/classpath/java/nio/DirectByteBuffer.java
index 0bd9e7f..43fc0b1 100644
--- a/classpath/java/nio/DirectByteBuffer.java
+++ b/classpath/java/nio/DirectByteBuffer.java
@@ -47,6 +47,10 @@ class DirectByteBuffer extends ByteBuffer {
   }
 
   public ByteBuffer put(ByteBuffer src) {
+    if (src == this) {
+      throw new IllegalArgumentException();
+    }
+
     if (src instanceof DirectByteBuffer) {
       checkPut(position, src.remaining(), false);
 
-- 
2.43.0


From 9e6e2a53c88a48469e118918c7e403ec4cbbe950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:59 +0000
Subject: [PATCH 61/63] fix: compacting a read-only buffer leaves it as it was

---
 classpath/java/nio/ByteBuffer.java | 4 ++++
 classpath/java/nio/CharBuffer.java | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/classpath/java/nio/ByteBuffer.java b/classpath/java/nio/ByteBuffer.java
index e9d9ed1..3768dd7 100644
--- a/classpath/java/nio/ByteBuffer.java
+++ b/classpath/java/nio/ByteBuffer.java
@@ -58,6 +58,10 @@ public abstract class ByteBuffer
   }
 
   public ByteBuffer compact() {
+    if (isReadOnly()) {
+      throw new ReadOnlyBufferException();
+    }
+
     int remaining = remaining();
 
     if (position != 0) {
diff --git a/classpath/java/nio/CharBuffer.java b/classpath/java/nio/CharBuffer.java
index 0e9dd5a..399e5b5 100644
--- a/classpath/java/nio/CharBuffer.java
+++ b/classpath/java/nio/CharBuffer.java
@@ -51,6 +51,10 @@ public abstract class CharBuffer
   }
 
   public CharBuffer compact() {
+    if (isReadOnly()) {
+      throw new ReadOnlyBufferException();
+    }
+
     int remaining = remaining();
 
     if (position != 0) {
-- 
2.43.0


From 6f54ed4b82d4946f751c15744ee98663e099b9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:59 +0000
Subject: [PATCH 62/63] fix: copy memory that overlaps

---
 src/builtin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builtin.cpp b/src/builtin.cpp
index 87029f0..8d8ebf2 100644
--- a/src/builtin.cpp
+++ b/src/builtin.cpp
@@ -811,7 +811,7 @@ extern "C" AVIAN_EXPORT void JNICALL
   void* dst = dstBase ? &fieldAtOffset<uint8_t>(dstBase, dstOffset)
                       : reinterpret_cast<uint8_t*>(dstOffset);
 
-  memcpy(dst, src, count);
+  memmove(dst, src, count);
 }
 
 extern "C" AVIAN_EXPORT int64_t JNICALL
-- 
2.43.0


From 905f3e0bd3f645bfbd8a6c3d78068bd3969182f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:59 +0000
Subject: [PATCH 63/63] fix: file channels transfer from and to the position of
 a buffer, and move it on

---
 classpath/java/io/RandomAccessFile.java | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/classpath/java/io/RandomAccessFile.java b/classpath/java/io/RandomAccessFile.java
index fa3ee34..ddb30fe 100644
--- a/classpath/java/io/RandomAccessFile.java
+++ b/classpath/java/io/RandomAccessFile.java
@@ -245,7 +245,9 @@ public class RandomAccessFile implements DataInput, Closeable {
         if (!dst.hasArray()) throw new IOException("Cannot handle " + dst.getClass());
 	// TODO: this needs to be synchronized on the Buffer, no?
         byte[] array = dst.array();
-        return readBytes(peer, position, array, dst.position(), dst.remaining());
+        int count = readBytes(peer, position, array, dst.arrayOffset() + dst.position(), dst.remaining());
+        if (count > 0) dst.position(dst.position() + count);
+        return count;
       }
 
       public int read(ByteBuffer dst) throws IOException {
@@ -257,7 +259,9 @@ public class RandomAccessFile implements DataInput, Closeable {
       public int write(ByteBuffer src, long position) throws IOException {
         if (!src.hasArray()) throw new IOException("Cannot handle " + src.getClass());
         byte[] array = src.array();
-        return writeBytes(peer, position, array, src.position(), src.remaining());
+        int count = writeBytes(peer, position, array, src.arrayOffset() + src.position(), src.remaining());
+        if (count > 0) src.position(src.position() + count);
+        return count;
       }
 
       public int write(ByteBuffer src) throws IOException {
-- 
2.43.0

