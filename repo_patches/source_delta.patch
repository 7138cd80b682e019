From ae4a49a2d98ef86c1d27fa660926db90b9928290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 01/98] simulation hooks (CLOX_SIM, off by default): time slice
 length and collection points

---
 memory.c | 9 +++++++++
 vm.h     | 6 ++++++
 2 files changed, 15 insertions(+)

diff --git a/memory.c b/memory.c
index 579a1db..246acbd 100644
--- a/memory.c
+++ b/memory.c
@@ -545,6 +545,15 @@ Obj *getNewObject(ObjType type, size_t sz, int flags) {
 #endif
     if (OPTION_T(stressGCFull)  || OPTION_T(stressGCBoth)) collectGarbage();
 #endif
+#ifdef CLOX_SIM
+    // simulation build: the simulator decides at which allocations a collection runs
+    if (!noGC) {
+        extern int sim_gc_point(void);
+        int simGC = sim_gc_point();
+        if (simGC == 1) collectYoungGarbage();
+        if (simGC == 2) collectGarbage();
+    }
+#endif
 
 retry:
     DBG_ASSERT(tries < 3);
diff --git a/vm.h b/vm.h
index f15822f..bc504a2 100644
--- a/vm.h
+++ b/vm.h
@@ -104,7 +104,13 @@ typedef enum ThreadStatus {
     THREAD_ZOMBIE,
 } ThreadStatus;
 
+#ifdef CLOX_SIM
+// simulation build: the simulator picks the length of every time slice
+extern int sim_ops_quantum(void);
+#define THREAD_OPS_UNTIL_SWITCH sim_ops_quantum()
+#else
 #define THREAD_OPS_UNTIL_SWITCH 10000
+#endif
 
 typedef struct BlockStackEntry {
     Obj *callable; // ObjClosure or ObjNative
-- 
2.43.0


From 03b9a81bfb74f3aa5c9e188c56dc98ad21a78b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 02/98] fix: lines printed to a pipe or file are lost at exit

---
 main.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/main.c b/main.c
index aede864..a7b1a34 100644
--- a/main.c
+++ b/main.c
@@ -21,6 +21,9 @@ static void usage(int exitstatus) {
 
 int main(int argc, char *argv[]) {
     initOptions(argc, argv);
+    // The VM leaves through _exit(), which doesn't flush stdio buffers, and it
+    // can also fork. Don't hold back whole lines when stdout isn't a terminal.
+    setvbuf(stdout, NULL, _IOLBF, BUFSIZ);
     char *fname = NULL;
     char **argvp = argv+1;
     int i = 0;
-- 
2.43.0


From 1088c2395053bc2919e597401573ca6215a715fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:46 +0000
Subject: [PATCH 03/98] fix: values stored in thread-local storage can be
 collected while still stored

---
 thread.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/thread.c b/thread.c
index a049511..ecc0bd3 100644
--- a/thread.c
+++ b/thread.c
@@ -480,6 +480,8 @@ static Value lxThreadSetTLS(int argCount, Value *args) {
         th->tlsMap = AS_MAP(newMap());
     }
     mapSet(OBJ_VAL(th->tlsMap), key, val);
+    OBJ_WRITE(OBJ_VAL(th->tlsMap), key);
+    OBJ_WRITE(OBJ_VAL(th->tlsMap), val);
     return val;
 }
 
-- 
2.43.0


From 53bebf2bdf3de3e2ce636f836ab94c844839a422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:46 +0000
Subject: [PATCH 04/98] fix: young collection skips references of objects
 reached through other young objects

---
 memory.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/memory.c b/memory.c
index 246acbd..84230f8 100644
--- a/memory.c
+++ b/memory.c
@@ -438,18 +438,14 @@ void collectYoungGarbage() {
     int numCollected = 0;
     ObjAny *newFreeList = freeList;
 
-    int grayCount = vm.grayCount;
-    while (grayCount > 0) {
-        // Pop an item from the gray stack.
-        grayCount--;
-        Obj *marked = vm.grayStack[grayCount];
+    // Objects stay on the gray stack (they get whitened from it below), newly
+    // grayed ones are appended to it.
+    for (int grayIdx = 0; grayIdx < (int)vm.grayCount; grayIdx++) {
+        Obj *marked = vm.grayStack[grayIdx];
         DBG_ASSERT(marked);
-        int oldCount = vm.grayCount;
         if (IS_YOUNG_OBJ(marked)) {
             blackenObject(marked); // NOTE: only grays young references
         }
-        int newCount = vm.grayCount;
-        grayCount += (newCount-oldCount);
     }
 
     int numNotYoung = 0;
-- 
2.43.0


From 3701eb89844469e0df5f1d80ed59910339befd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:46 +0000
Subject: [PATCH 05/98] fix: full collection removes the wrong threads when
 several joined threads are reaped

---
 memory.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/memory.c b/memory.c
index 84230f8..76b38d3 100644
--- a/memory.c
+++ b/memory.c
@@ -1270,7 +1270,8 @@ void collectGarbage(void) {
     }
 
     int zombieIdx; int zidx = 0;
-    vec_foreach(&v_zombies, zombieIdx, zidx) {
+    // from the back, so that the remaining indices stay valid
+    vec_foreach_rev(&v_zombies, zombieIdx, zidx) {
         vec_splice(&vm.threads, zombieIdx, 1);
     }
     vec_deinit(&v_zombies);
-- 
2.43.0


From 1339947282de9f489eb618b1c58f1a35cded0e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 06/98] fix: a thread given the id of a finished thread is
 taken for that one

---
 thread.c | 5 +----
 vm.c     | 5 +++--
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/thread.c b/thread.c
index ecc0bd3..7f20988 100644
--- a/thread.c
+++ b/thread.c
@@ -333,10 +333,7 @@ Value lxJoinThread(int argCount, Value *args) {
     THREAD_DEBUG(2, "Joined thread id %lu, acquiring GVL\n", tid);
     acquireGVL();
     THREAD_DEBUG(2, "Joined thread id %lu\n", tid);
-    th = FIND_THREAD(tid);
-    if (th) {
-        th->joined = true;
-    }
+    th->joined = true;
     return NIL_VAL;
 }
 
diff --git a/vm.c b/vm.c
index 928b982..398d4a6 100644
--- a/vm.c
+++ b/vm.c
@@ -4093,7 +4093,8 @@ LxThread *FIND_THREAD(pthread_t tid) {
     vec_foreach_rev(&vm.threads, threadInstance, thIdx) {
         th = (LxThread*)threadInstance->internal->data;
         ASSERT(th);
-        if (th->tid == tid) return th;
+        // the id of a thread that's gone may have been given to a new thread
+        if (th->tid == tid && th->status != THREAD_ZOMBIE) return th;
     }
     return NULL;
 }
@@ -4104,7 +4105,7 @@ ObjInstance *FIND_THREAD_INSTANCE(pthread_t tid) {
     vec_foreach_rev(&vm.threads, threadInstance, thIdx) {
         th = (LxThread*)threadInstance->internal->data;
         ASSERT(th);
-        if (th->tid == tid) return threadInstance;
+        if (th->tid == tid && th->status != THREAD_ZOMBIE) return threadInstance;
     }
     return NULL;
 }
-- 
2.43.0


From 97925155b8f41fc5295bfd37d7b0b6e96ef6f94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:27 +0000
Subject: [PATCH 07/98] fix: an uncaught error in a thread jumps onto the main
 thread's stack

---
 thread.c | 15 ++++++++++++---
 vm.c     | 12 +++++++++++-
 vm.h     |  3 +++
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/thread.c b/thread.c
index 7f20988..a57c88f 100644
--- a/thread.c
+++ b/thread.c
@@ -127,6 +127,7 @@ static void LxThreadSetup(LxThread *th) {
     th->tid = pthread_self();
     th->status = THREAD_STOPPED;
     th->ec = NULL;
+    th->numParentECs = 0;
     vec_init(&th->v_ecs);
     th->openUpvalues = NULL;
     th->thisObj = NULL;
@@ -213,6 +214,7 @@ static ObjInstance *newThreadSetup(LxThread *parentThread) {
         vec_push(&th->v_ecs, newCtx);
     }
     th->ec = vec_last(&th->v_ecs);
+    th->numParentECs = th->v_ecs.length;
     th->thisObj = NULL;
     th->lastValue = NULL;
     th->errInfo = NULL;
@@ -271,9 +273,16 @@ static void *runCallableInNewThread(void *arg) {
     }
     THREAD_DEBUG(2, "calling callable %lu", pthread_self());
     th->status = THREAD_RUNNING;
-    callCallable(OBJ_VAL(closure), 0, false, NULL);
-    THREAD_DEBUG(2, "Exiting thread (returned) %lu", pthread_self());
-    stopVM(0); // actually just exits the thread if it's not the main thread
+    int jumpRes = setjmp(th->rootJumpBuf);
+    if (jumpRes == JUMP_SET) {
+        callCallable(OBJ_VAL(closure), 0, false, NULL);
+        THREAD_DEBUG(2, "Exiting thread (returned) %lu", pthread_self());
+        stopVM(0); // actually just exits the thread if it's not the main thread
+    } else {
+        THREAD_DEBUG(2, "Exiting thread (uncaught error) %lu", pthread_self());
+        showUncaughtError(THREAD()->lastErrorThrown);
+        stopVM(1);
+    }
 }
 
 
diff --git a/vm.c b/vm.c
index 398d4a6..1bddb8e 100644
--- a/vm.c
+++ b/vm.c
@@ -960,7 +960,7 @@ void errorPrintScriptBacktrace(const char *format, ...) {
     resetStack();
 }
 
-static void showUncaughtError(Value err) {
+void showUncaughtError(Value err) {
     ObjString *classNameObj = classNameFull(AS_INSTANCE(err)->klass);
     char *className = NULL;
     if (classNameObj) {
@@ -1995,6 +1995,12 @@ Value callSuper(int argCount, Value *args, CallInfo *cinfo) {
     return NIL_VAL;
 }
 
+// the frames copied from the parent thread aren't this thread's to unwind
+static bool onlyParentFramesLeft(LxThread *th) {
+    return th->v_ecs.length < th->numParentECs ||
+        (th->v_ecs.length == th->numParentECs && EC->frameCount <= 1);
+}
+
 /**
  * When thrown (OP_THROW), find any surrounding try { } catch { } block with
  * the proper class to catch.
@@ -2031,6 +2037,7 @@ static bool findThrowJumpLoc(ObjClass *klass, bytecode_t **ipOut, CatchTable **r
             }
             if (EC->frameCount == 1) { // there's at least 1 more context to go through
                 pop_EC();
+                if (onlyParentFramesLeft(th)) return false;
                 poppedEC = true;
                 ASSERT(EC->stackTop > getFrame()->slots);
                 row = currentChunk()->catchTbl;
@@ -2043,6 +2050,7 @@ static bool findThrowJumpLoc(ObjClass *klass, bytecode_t **ipOut, CatchTable **r
                 EC->stackTop = getFrame()->slots;
                 popFrame();
                 VM_DEBUG(2, "frame popped");
+                if (onlyParentFramesLeft(th)) return false;
                 row = currentChunk()->catchTbl;
                 ensureRow = NULL;
                 continue;
@@ -2145,6 +2153,8 @@ NORETURN void throwError(Value self) {
         DBG_ASSERT(getFrame()->closure->function->chunk->catchTbl);
         DBG_ASSERT(getFrame()->jmpBufSet);
         longjmp(getFrame()->jmpBuf, JUMP_PERFORMED);
+    } else if (th != vm.mainThread) {
+        longjmp(th->rootJumpBuf, JUMP_PERFORMED);
     } else {
         ASSERT(rootVMLoopJumpBufSet);
         longjmp(rootVMLoopJumpBuf, JUMP_PERFORMED);
diff --git a/vm.h b/vm.h
index bc504a2..9341373 100644
--- a/vm.h
+++ b/vm.h
@@ -148,6 +148,8 @@ typedef struct LxThread {
     bool returnedFromNativeErr;
     jmp_buf cCallJumpBuf;
     bool cCallJumpBufSet;
+    int numParentECs; // contexts copied from the parent thread, their first frame belongs to the parent
+    jmp_buf rootJumpBuf; // for uncaught errors, main thread uses rootVMLoopJumpBuf
     int vmRunLvl; // how many calls to vm_run() are in the current thread's native stack
     int lastSplatNumArgs;
     // stack of object pointers created during C function calls. When
@@ -244,6 +246,7 @@ extern VM vm;
 #define EC (vm.curThread->ec)
 
 LxThread *THREAD(void);
+void showUncaughtError(Value err);
 LxThread *FIND_THREAD(pthread_t tid);
 ObjInstance *FIND_THREAD_INSTANCE(pthread_t tid);
 
-- 
2.43.0


From fbf07bb3099b378aef73acad4f0705d7d1a5e12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:52 +0000
Subject: [PATCH 08/98] fix: merged or folded instructions leave try blocks
 pointing at the wrong code

---
 compiler.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/compiler.c b/compiler.c
index 613d016..2385fe0 100644
--- a/compiler.c
+++ b/compiler.c
@@ -491,6 +491,22 @@ static void patchJumpInsnWithOffset(Insn *jump, int offset) {
     jump->operands[0] += offset;
 }
 
+static int insnOffset(Insn *start, Insn *end);
+
+/* Move the catch table's rows along with the code when `delta` words are
+ * added after (or, if negative, removed from) the start of the given instruction.
+ */
+static void patchCatchTable(Iseq *seq, Insn *insn, int delta) {
+    int start = insnOffset(seq->insns, insn);
+    CatchTable *row = seq->catchTbl;
+    while (row) {
+        if (row->ifrom > start) row->ifrom += delta;
+        if (row->ito > start) row->ito += delta;
+        if (row->itarget > start) row->itarget += delta;
+        row = row->next;
+    }
+}
+
 /* Remove the given instruction. If there's a forward jump to this instruction or
  * to an instruction after it, the jump needs to be patched. If there's a backwards jump
  * to this instruction or to an instruction before it, the jump needs to be patched.
@@ -548,6 +564,7 @@ static void rmInsnAndPatchJumps(Iseq *seq, Insn *insn) {
         in = in->next;
         idx++;
     }
+    patchCatchTable(seq, insn, -(insn->numOperands+1));
     iseqRmInsn(seq, insn);
 }
 
@@ -635,6 +652,7 @@ static void addInsnOperand(Iseq *seq, Insn *insn, bytecode_t operand) {
     insn->operands[insn->numOperands] = operand;
     insn->numOperands+=1;
     seq->wordCount += 1;
+    patchCatchTable(seq, insn, 1);
     int insnIdx = iseqInsnIndex(seq, insn);
     ASSERT(insnIdx >= 0);
     Insn *in = seq->insns;
-- 
2.43.0


From 03571f78869db06061cf6a34bb00e38aebf816f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 09/98] fix: errors skip inner try blocks and ensure blocks,
 run them twice, or leave values on the stack

---
 chunk.c    |  10 +-
 chunk.h    |   8 +-
 compiler.c |  27 +++--
 debug.c    |   8 +-
 thread.c   |   8 --
 vm.c       | 287 ++++++++++++++---------------------------------------
 vm.h       |   4 -
 7 files changed, 108 insertions(+), 244 deletions(-)

diff --git a/chunk.c b/chunk.c
index a342295..786ed38 100644
--- a/chunk.c
+++ b/chunk.c
@@ -207,6 +207,7 @@ int iseqAddCatchRow(
     int ifrom,
     int ito,
     int itarget,
+    int numLocals,
     Value catchVal
 ) {
     CatchTable *tblRow = ALLOCATE(CatchTable, 1);
@@ -215,8 +216,7 @@ int iseqAddCatchRow(
     tblRow->itarget = itarget;
     tblRow->catchVal = catchVal;
     tblRow->isEnsure = false;
-    tblRow->isEnsureRunning = false;
-    memset(&tblRow->lastThrownValue, 0, sizeof(Value));
+    tblRow->numLocals = numLocals;
     tblRow->next = NULL;
 
     CatchTable *row = seq->catchTbl;
@@ -238,7 +238,8 @@ int iseqAddEnsureRow(
     Iseq *seq,
     int ifrom,
     int ito,
-    int itarget
+    int itarget,
+    int numLocals
 ) {
     CatchTable *tblRow = ALLOCATE(CatchTable, 1);
     tblRow->ifrom = ifrom;
@@ -246,8 +247,7 @@ int iseqAddEnsureRow(
     tblRow->itarget = itarget;
     tblRow->catchVal = NIL_VAL;
     tblRow->isEnsure = true;
-    tblRow->isEnsureRunning = false;
-    memset(&tblRow->lastThrownValue, 0, sizeof(Value));
+    tblRow->numLocals = numLocals;
     tblRow->next = NULL;
 
     CatchTable *row = seq->catchTbl;
diff --git a/chunk.h b/chunk.h
index 6b4b09a..e80ae8e 100644
--- a/chunk.h
+++ b/chunk.h
@@ -21,11 +21,10 @@ typedef struct CatchTable {
     int ito; // instruction try block end
     int itarget; // instruction catch or ensure block start
     Value catchVal; // catch class or other value, if it's a catch block
-    Value lastThrownValue; // runtime VM value of last thrown instance, if any. Otherwise it's NIL_VAL
+    int numLocals; // number of locals in scope where the try block starts
 
     struct CatchTable *next; // next row in the catch table
     bool isEnsure; // is an ensure block
-    bool isEnsureRunning;
 } CatchTable;
 
 /**
@@ -100,6 +99,7 @@ int addCatchRow(
     int ifrom,
     int ito,
     int itarget,
+    int numLocals,
     Value catchVal
 );
 
@@ -116,13 +116,15 @@ int iseqAddCatchRow(
     int ifrom,
     int ito,
     int itarget,
+    int numLocals,
     Value catchVal
 );
 int iseqAddEnsureRow(
     Iseq *seq,
     int ifrom,
     int ito,
-    int itarget
+    int itarget,
+    int numLocals
 );
 
 // debugging
diff --git a/compiler.c b/compiler.c
index 2385fe0..69a0d6d 100644
--- a/compiler.c
+++ b/compiler.c
@@ -2450,6 +2450,7 @@ static void emitNode(Node *n) {
         vec_void_t vjumps;
         vec_init(&vjumps);
         int ifrom = iseq->wordCount; // start of try block
+        int numLocals = current->localCount; // what's kept of the stack when an error is caught
         emitNode(n->children->data[0]); // try block
         bool skipJumpToEnd = false;
         if (n->children->length == 2) {
@@ -2493,24 +2494,26 @@ static void emitNode(Node *n) {
                     }
                     /*fprintf(stderr, "classTok: %s, children: %d\n", tokStr(&classTok), catchStmt->children->length);*/
                     STRING_SET_STATIC(className);
-                    double catchTblRowIdx = (double)iseqAddCatchRow(
+                    iseqAddCatchRow(
                             iseq, ifrom, ito,
-                            itarget, OBJ_VAL(className)
+                            itarget, numLocals, OBJ_VAL(className)
                             );
                     pushScope(COMPILE_SCOPE_TRY);
+                    emitOp0(OP_GET_THROWN);
                     // given variable expression to bind to (Ex: (catch Error err))
                     if (catchStmt->children->length > 2) {
-                        bytecode_t getThrownArg = makeConstant(NUMBER_VAL(catchTblRowIdx), CONST_T_NUMLIT);
-                        emitOp1(OP_GET_THROWN, getThrownArg);
                         Token varTok = catchStmt->children->data[1]->tok;
                         declareVariable(&varTok);
                         namedVariable(varTok, VAR_SET);
+                    } else {
+                        emitOp0(OP_POP);
                     }
                     emitNode(vec_last(catchStmt->children)); // catch { } block
                     ASSERT(iseq == currentIseq());
                     /*if (catchStmt->children->length > 2) {*/
                     /*emitOp0(OP_POP); // pop the bound error variable*/
                     /*}*/
+                    popScope(COMPILE_SCOPE_TRY);
                     // don't emit a jump at the end of the final catch statement, or if
                     // the next child after this one is an ensure block
                     if (i < n->children->length-1) {
@@ -2520,7 +2523,6 @@ static void emitNode(Node *n) {
                             vec_push(&vjumps, jumpStart);
                         }
                     }
-                    popScope(COMPILE_SCOPE_TRY);
                 } else { // ensure or else stmt
                     if (catchStmt->type.kind == TRY_ELSE_STMT) {
                         ASSERT(jumpToEnd);
@@ -2540,11 +2542,20 @@ static void emitNode(Node *n) {
                             patchJump(jump, -1, currentIseq()->tail);
                         }
                         vec_clear(&vjumps);
-                        double catchTblRowIdx = iseqAddEnsureRow(iseq, ifrom, ito, itarget);
-                        bytecode_t rethrowIfArg = makeConstant(NUMBER_VAL(catchTblRowIdx), CONST_T_NUMLIT);
+                        // Reached without an error: there's nothing to rethrow. The
+                        // ensure block also covers the catch and else blocks.
                         pushScope(COMPILE_SCOPE_TRY);
+                        ito = iseq->wordCount;
+                        emitOp0(OP_NIL);
+                        jump = emitJump(OP_JUMP);
+                        iseqAddEnsureRow(iseq, ifrom, ito, iseq->wordCount, numLocals);
+                        emitOp0(OP_GET_THROWN);
+                        patchJump(jump, -1, currentIseq()->tail);
+                        Token errTok = syntheticToken("_");
+                        int errSlot = addFakeLocal(true);
+                        emitOp2(OP_SET_LOCAL, errSlot, identifierConstant(&errTok));
                         emitNode(vec_last(ensureStmt->children)); // ensure block
-                        emitOp1(OP_RETHROW_IF_ERR, rethrowIfArg);
+                        emitOp1(OP_RETHROW_IF_ERR, errSlot);
                         popScope(COMPILE_SCOPE_TRY);
                     }
                 }
diff --git a/debug.c b/debug.c
index ccffebb..da66fbf 100644
--- a/debug.c
+++ b/debug.c
@@ -702,8 +702,6 @@ int printDisassembledInstruction(FILE *f, Chunk *chunk, int i, vec_funcp_t *func
         case OP_SETTER:
         case OP_PROP_GET:
         case OP_PROP_SET:
-        case OP_GET_THROWN:
-        case OP_RETHROW_IF_ERR:
         case OP_GET_SUPER:
         case OP_REGEX:
             return printConstantInstruction(f, opName(byte), chunk, i);
@@ -773,6 +771,7 @@ int printDisassembledInstruction(FILE *f, Chunk *chunk, int i, vec_funcp_t *func
         case OP_POP_CREF:
         case OP_LEAVE:
         case OP_THROW:
+        case OP_GET_THROWN:
         case OP_INDEX_GET:
         case OP_INDEX_SET:
         case OP_CLOSE_UPVALUE:
@@ -787,6 +786,7 @@ int printDisassembledInstruction(FILE *f, Chunk *chunk, int i, vec_funcp_t *func
         case OP_TO_BLOCK:
             return printSimpleInstruction(f, opName(byte), i);
         case OP_POP_N:
+        case OP_RETHROW_IF_ERR:
             return printByteInstruction(f, opName(byte), chunk, i);
         case OP_POP_DEBUG:
             return printOpPopDebugInstruction(f, opName(byte), chunk, i);
@@ -818,8 +818,6 @@ static int disassembledInstruction(ObjString *buf, Chunk *chunk, int i, vec_func
         case OP_SETTER:
         case OP_PROP_GET:
         case OP_PROP_SET:
-        case OP_GET_THROWN:
-        case OP_RETHROW_IF_ERR:
         case OP_GET_SUPER:
         case OP_REGEX:
             return constantInstruction(buf, opName(byte), chunk, i);
@@ -887,6 +885,7 @@ static int disassembledInstruction(ObjString *buf, Chunk *chunk, int i, vec_func
         case OP_POP_CREF:
         case OP_LEAVE:
         case OP_THROW:
+        case OP_GET_THROWN:
         case OP_INDEX_GET:
         case OP_INDEX_SET:
         case OP_CLOSE_UPVALUE:
@@ -901,6 +900,7 @@ static int disassembledInstruction(ObjString *buf, Chunk *chunk, int i, vec_func
         case OP_TO_BLOCK:
             return simpleInstruction(buf, opName(byte), i);
         case OP_POP_N:
+        case OP_RETHROW_IF_ERR:
             return byteInstruction(buf, opName(byte), chunk, i);
         default: {
             ASSERT(0);
diff --git a/thread.c b/thread.c
index a57c88f..94cc447 100644
--- a/thread.c
+++ b/thread.c
@@ -144,10 +144,6 @@ static void LxThreadSetup(LxThread *th) {
     th->lastErrorThrown = NIL_VAL;
     th->errorToThrow = NIL_VAL;
     th->inCCall = 0;
-    th->cCallThrew = false;
-    th->returnedFromNativeErr = false;
-    memset(&th->cCallJumpBuf, 0, sizeof(jmp_buf));
-    th->cCallJumpBufSet = false;
     th->vmRunLvl = 0;
     th->mutexCounter = 0;
     th->lastSplatNumArgs = -1;
@@ -219,10 +215,6 @@ static ObjInstance *newThreadSetup(LxThread *parentThread) {
     th->lastValue = NULL;
     th->errInfo = NULL;
     th->inCCall = 0;
-    th->cCallJumpBufSet = false;
-    th->cCallThrew = false;
-    th->returnedFromNativeErr = false;
-    memset(&th->cCallJumpBuf, 0, sizeof(jmp_buf));
     th->vmRunLvl = 0;
     th->lastSplatNumArgs = -1;
 
diff --git a/vm.c b/vm.c
index 1bddb8e..c24127c 100644
--- a/vm.c
+++ b/vm.c
@@ -1438,34 +1438,12 @@ static void pushNativeFrame(ObjNative *native) {
     vm.curThread->inCCall++;
 }
 
-// sets up VM/C call jumpbuf if not set, and calls the native function
-static Value captureNativeError(ObjNative *nativeFunc, int argCount, Value *args, CallInfo *cinfo) {
-    LxThread *th = vm.curThread;
+static Value callNative(ObjNative *nativeFunc, int argCount, Value *args, CallInfo *cinfo) {
     if (cinfo && cinfo->blockInstance) {
         DBG_ASSERT(argCount > 0); // at least the block argument
         argCount--; // block arg is implicit
     }
-    if (th->inCCall == 0) {
-        VM_DEBUG(2, "setting VM/C error jump buf");
-        int jumpRes = setjmp(th->cCallJumpBuf);
-        if (jumpRes == JUMP_SET) { // jump is set, prepared to enter C land
-            th->cCallJumpBufSet = true;
-            Value ret = nativeFunc->function(argCount, args);
-            return ret;
-        } else { // C call longjmped here from throwError()
-            VM_DEBUG(2, "longmped to VM/C error jump buf");
-            th = THREAD();
-            ASSERT(th->inCCall > 0);
-            ASSERT(th->cCallThrew);
-            th->cCallThrew = false;
-            th->returnedFromNativeErr = true;
-            th->cCallJumpBufSet = false;
-            return UNDEF_VAL;
-        }
-    } else {
-        VM_DEBUG(2, "%s", "Calling native function");
-        return nativeFunc->function(argCount, args);
-    }
+    return nativeFunc->function(argCount, args);
 }
 
 static inline bool checkFunctionArity(ObjFunction *func, int argCount, CallInfo *cinfo) {
@@ -1605,30 +1583,16 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
                 }
                 newFrame->callInfo = callInfo;
                 VM_DEBUG(2, "calling native initializer for class %s with %d args", klassName, argCount);
-                Value val = captureNativeError(nativeInit, argCount+1, EC->stackTop-argCount-1, callInfo);
-                th = vm.curThread;
+                Value val = callNative(nativeInit, argCount+1, EC->stackTop-argCount-1, callInfo);
                 newFrame->slots = EC->stackTop-argCount-1;
-                if (UNLIKELY(th->returnedFromNativeErr)) {
-                    th->returnedFromNativeErr = false;
-                    VM_DEBUG(2, "native initializer returned from error");
-                    vec_clear(&th->stackObjects);
-                    while (getFrame() >= newFrame) {
-                        popFrame();
-                    }
-                    ASSERT(th->inCCall == 0);
-                    VM_DEBUG(2, "Rethrowing inside VM loop");
-                    throwError(th->lastErrorThrown); // re-throw inside VM
-                    return false;
-                } else {
-                    VM_DEBUG(2, "native initializer returned");
-                    EC->stackTop = newFrame->slots;
-                    hideFromGC(AS_OBJ(val));
-                    popFrame();
-                    ASSERT(IS_INSTANCE_LIKE(val));
-                    push(val);
-                    unhideFromGC(AS_OBJ(val));
-                    return true;
-                }
+                VM_DEBUG(2, "native initializer returned");
+                EC->stackTop = newFrame->slots;
+                hideFromGC(AS_OBJ(val));
+                popFrame();
+                ASSERT(IS_INSTANCE_LIKE(val));
+                push(val);
+                unhideFromGC(AS_OBJ(val));
+                return true;
             }
             VM_DEBUG(2, "calling non-native initializer with %d args", argCount);
             ASSERT(IS_CLOSURE(initializer));
@@ -1679,32 +1643,19 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
             pushCref(newFrame->klass);
         }
         newFrame->callInfo = callInfo;
-        volatile Value val = captureNativeError(TO_NATIVE(native), argci, EC->stackTop-argci, callInfo);
-        th = vm.curThread;
+        volatile Value val = callNative(TO_NATIVE(native), argci, EC->stackTop-argci, callInfo);
         newFrame->slots = ec->stackTop - argcActuali;
-        if (th->returnedFromNativeErr) {
-            VM_DEBUG(2, "Returned from native function %s with error", native->name->chars);
-            th->returnedFromNativeErr = false;
-            while (getFrame() >= newFrame) {
-                popFrame();
-            }
-            th->inCCall = 0;
-            VM_DEBUG(2, "Rethrowing inside VM");
-            throwError(th->lastErrorThrown); // re-throw inside VM
-            return false;
-        } else {
-            VM_DEBUG(2, "Returned from native function %s without error", native->name->chars);
-            ec->stackTop = newFrame->slots;
-            if (IS_OBJ(val)) {
-                hideFromGC(AS_OBJ(val));
-            }
-            popFrame();
-            ASSERT(!IS_UNDEF(val));
-            push(val);
-            if (IS_OBJ(val)) {
-                unhideFromGC(AS_OBJ(val));
-                ASSERT(AS_OBJ(val)->type != OBJ_T_NONE);
-            }
+        VM_DEBUG(2, "Returned from native function %s", native->name->chars);
+        ec->stackTop = newFrame->slots;
+        if (IS_OBJ(val)) {
+            hideFromGC(AS_OBJ(val));
+        }
+        popFrame();
+        ASSERT(!IS_UNDEF(val));
+        push(val);
+        if (IS_OBJ(val)) {
+            unhideFromGC(AS_OBJ(val));
+            ASSERT(AS_OBJ(val)->type != OBJ_T_NONE);
         }
         return true;
     } else {
@@ -2002,66 +1953,17 @@ static bool onlyParentFramesLeft(LxThread *th) {
 }
 
 /**
- * When thrown (OP_THROW), find any surrounding try { } catch { } block with
- * the proper class to catch.
+ * Find the innermost row of the frame's catch table that handles errors of the
+ * given class at the place the frame is executing. Rows of inner try statements
+ * come before the rows of outer ones.
  */
-static bool findThrowJumpLoc(ObjClass *klass, bytecode_t **ipOut, CatchTable **rowFound) {
-    LxThread *th = vm.curThread;
-    CatchTable *tbl = currentChunk()->catchTbl;
-    CatchTable *row = tbl;
-    int currentIpOff = (int)(getFrame()->ip - currentChunk()->code);
-    bool poppedEC = false;
-    VM_DEBUG(2, "findthrowjumploc");
-    CatchTable *ensureRow = NULL;
-    while (row || EC->frameCount >= 1) {
-        VM_DEBUG(2, "framecount: %d, num ECs: %d", EC->frameCount, th->v_ecs.length);
-        if (row == NULL) { // no more catch table rows, pop a call frame
-            VM_DEBUG(2, "row null");
-            if (ensureRow) {
-                if (ensureRow->isEnsureRunning) {
-                    ensureRow->isEnsureRunning = false;
-                } else {
-                  // found target ensure
-                  *ipOut = currentChunk()->code + ensureRow->itarget;
-                  *rowFound = ensureRow;
-                  while (getFrame()->isCCall) {
-                    popFrame();
-                  }
-                  ensureRow->isEnsureRunning = true;
-                  VM_DEBUG(2, "Catch jump location found (ensure)");
-                  return true;
-                }
-            }
-            if (th->v_ecs.length == 0 || (th->v_ecs.length == 1 && EC->frameCount == 1)) {
-                return false;
-            }
-            if (EC->frameCount == 1) { // there's at least 1 more context to go through
-                pop_EC();
-                if (onlyParentFramesLeft(th)) return false;
-                poppedEC = true;
-                ASSERT(EC->stackTop > getFrame()->slots);
-                row = currentChunk()->catchTbl;
-                ensureRow = NULL;
-                continue;
-            } else { // more frames in this context to go through
-                ASSERT(EC->frameCount > 1);
-                currentIpOff = getFrame()->start;
-                ASSERT(EC->stackTop >= getFrame()->slots);
-                EC->stackTop = getFrame()->slots;
-                popFrame();
-                VM_DEBUG(2, "frame popped");
-                if (onlyParentFramesLeft(th)) return false;
-                row = currentChunk()->catchTbl;
-                ensureRow = NULL;
-                continue;
-            }
-        }
-        // jump to location in catch row, if catch found
-        if (row->isEnsure) {
-            ensureRow = row;
-            row = row->next;
-            continue;
-        }
+static CatchTable *findCatchRow(CallFrame *frame, ObjClass *klass) {
+    Chunk *chunk = frame->closure->function->chunk;
+    int ipOff = (int)(frame->ip - chunk->code);
+    CatchTable *row = NULL;
+    for (row = chunk->catchTbl; row; row = row->next) {
+        if (ipOff <= row->ifrom || ipOff > row->ito) continue;
+        if (row->isEnsure) return row;
         Value klassFound;
         ObjClass *cref = NULL;
         if (vm.curThread->v_crefStack.length > 0) {
@@ -2069,55 +1971,17 @@ static bool findThrowJumpLoc(ObjClass *klass, bytecode_t **ipOut, CatchTable **r
         }
         if (!findConstantUnder(cref, AS_STRING(row->catchVal), &klassFound)) {
             VM_DEBUG(2, "a class not found for row, next row");
-            row = row->next;
             continue;
         }
-        VM_DEBUG(2, "a class found for row: %s", classNameFull(AS_CLASS(klassFound))->chars);
-        if (IS_SUBCLASS(klass, AS_CLASS(klassFound))) {
-            VM_DEBUG(2, "good class found for row");
-            if (poppedEC || (currentIpOff > row->ifrom && currentIpOff <= row->ito)) {
-                // found target catch
-                *ipOut = currentChunk()->code + row->itarget;
-                *rowFound = row;
-                while (getFrame()->isCCall) {
-                    popFrame();
-                }
-                VM_DEBUG(2, "Catch jump location found");
-                return true;
-            }
-        }
-        row = row->next;
+        if (IS_SUBCLASS(klass, AS_CLASS(klassFound))) return row;
     }
-
-    VM_DEBUG(2, "Catch jump location NOT found");
-    return false;
-}
-
-static CatchTable *getCatchTableRow(int idx) {
-    CatchTable *tbl = currentChunk()->catchTbl;
-    CatchTable *row = tbl;
-    int i = 0;
-    while (i < idx) {
-        ASSERT(row);
-        ASSERT(row->next);
-        row = row->next;
-        i++;
-    }
-    ASSERT(row);
-    return row;
+    return NULL;
 }
 
-static ErrTagInfo *findErrTag(ObjClass *klass) {
-    ASSERT(klass);
-    ErrTagInfo *cur = vm.curThread->errInfo;
-    while (cur) {
-        // NULL = tag for all errors
-        if (cur->errClass == NULL || IS_SUBCLASS(klass, cur->errClass)) {
-            return cur;
-        }
-        cur = cur->prev;
-    }
-    return NULL;
+// thrown for `break`, `continue` and `return` in blocks
+static inline bool isBlockControlErr(ObjClass *klass) {
+    return klass == lxBreakBlockErrClass || klass == lxContinueBlockErrClass ||
+        klass == lxReturnBlockErrClass;
 }
 
 NORETURN void throwError(Value self) {
@@ -2132,28 +1996,37 @@ NORETURN void throwError(Value self) {
     // error from VM
     ObjInstance *obj = AS_INSTANCE(self);
     ObjClass *klass = obj->klass;
-    CatchTable *catchRow;
-    bytecode_t *ipNew = NULL;
-    ErrTagInfo *errInfo = NULL;
-    if ((errInfo = findErrTag(klass))) {
-        VM_DEBUG(2, "longjmping to errinfo tag");
-        longjmp(errInfo->jmpBuf, JUMP_PERFORMED);
-    }
-    if (th->inCCall > 0 && th->cCallJumpBufSet && getFrame()->isCCall) {
-        VM_DEBUG(2, "throwing error from C call, longjmping");
-        ASSERT(!th->cCallThrew);
-        th->cCallThrew = true;
-        longjmp(th->cCallJumpBuf, JUMP_PERFORMED);
-    }
-    if (findThrowJumpLoc(klass, &ipNew, &catchRow)) {
-        ASSERT(ipNew);
-        ASSERT(catchRow);
-        catchRow->lastThrownValue = self;
-        getFrame()->ip = ipNew;
-        DBG_ASSERT(getFrame()->closure->function->chunk->catchTbl);
-        DBG_ASSERT(getFrame()->jmpBufSet);
-        longjmp(getFrame()->jmpBuf, JUMP_PERFORMED);
-    } else if (th != vm.mainThread) {
+    // Unwind to the innermost handler: the catch or ensure block of a lox frame,
+    // or a protected call made by a native frame.
+    while (!onlyParentFramesLeft(th)) {
+        CallFrame *frame = getFrame();
+        if (!frame->isCCall && frame->jmpBufSet && !isBlockControlErr(klass)) {
+            CatchTable *row = findCatchRow(frame, klass);
+            if (row) {
+                VM_DEBUG(2, "Catch jump location found");
+                // drop the try block's locals and temporary values
+                Value *newTop = frame->slots + row->numLocals;
+                closeUpvalues(newTop);
+                EC->stackTop = newTop;
+                push(self);
+                frame->ip = frame->closure->function->chunk->code + row->itarget;
+                longjmp(frame->jmpBuf, JUMP_PERFORMED);
+            }
+        }
+        ErrTagInfo *errInfo = th->errInfo;
+        if (errInfo && errInfo->frame == frame &&
+                (errInfo->errClass == NULL || IS_SUBCLASS(klass, errInfo->errClass))) {
+            VM_DEBUG(2, "longjmping to errinfo tag");
+            longjmp(errInfo->jmpBuf, JUMP_PERFORMED);
+        }
+        if (th->v_ecs.length == 1 && EC->frameCount == 1) break;
+        if (EC->frameCount > 1) {
+            popFrame();
+        } else { // there's at least 1 more context to go through
+            pop_EC();
+        }
+    }
+    if (th != vm.mainThread) {
         longjmp(th->rootJumpBuf, JUMP_PERFORMED);
     } else {
         ASSERT(rootVMLoopJumpBufSet);
@@ -3433,24 +3306,14 @@ find_instance_method:
           UNREACHABLE("after throw"); // should longjmp
       }
       CASE_OP(GET_THROWN): {
-          Value catchTblIdx = READ_CONSTANT();
-          ASSERT(IS_NUMBER(catchTblIdx));
-          double idx = AS_NUMBER(catchTblIdx);
-          CatchTable *tblRow = getCatchTableRow((int)idx);
-          if (UNLIKELY(!isThrowable(tblRow->lastThrownValue))) { // bug
-              fprintf(stderr, "Non-throwable found (BUG): %s\n", typeOfVal(tblRow->lastThrownValue));
-              ASSERT(0);
-          }
-          VM_PUSH(tblRow->lastThrownValue);
+          // throwError() pushed it, this marks the start of a catch or ensure block
           DISPATCH_BOTTOM();
       }
       CASE_OP(RETHROW_IF_ERR): {
-          Value catchTblIdx = READ_CONSTANT();
-          ASSERT(IS_NUMBER(catchTblIdx));
-          double idx = AS_NUMBER(catchTblIdx);
-          CatchTable *ensureRow = getCatchTableRow((int)idx);
-          if (ensureRow->isEnsureRunning && !IS_NIL(th->lastErrorThrown)) {
-              throwError(th->lastErrorThrown);
+          bytecode_t slot = READ_WORD();
+          Value err = frame->slots[slot];
+          if (!IS_NIL(err)) {
+              throwError(err);
           }
           DISPATCH_BOTTOM();
       }
diff --git a/vm.h b/vm.h
index 9341373..03a481e 100644
--- a/vm.h
+++ b/vm.h
@@ -144,10 +144,6 @@ typedef struct LxThread {
     volatile Value lastErrorThrown; // TODO: change to Obj pointer
     volatile Value errorToThrow; // error raised by other thread
     int inCCall;
-    bool cCallThrew;
-    bool returnedFromNativeErr;
-    jmp_buf cCallJumpBuf;
-    bool cCallJumpBufSet;
     int numParentECs; // contexts copied from the parent thread, their first frame belongs to the parent
     jmp_buf rootJumpBuf; // for uncaught errors, main thread uses rootVMLoopJumpBuf
     int vmRunLvl; // how many calls to vm_run() are in the current thread's native stack
-- 
2.43.0


From 3be7ad2cefa1d438f337eecbb0831d644ad12565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:43 +0000
Subject: [PATCH 10/98] fix: calls nested deeper than 64 frames corrupt memory
 when the frames or the stack move

---
 vm.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vm.h b/vm.h
index 03a481e..5bc5926 100644
--- a/vm.h
+++ b/vm.h
@@ -16,9 +16,9 @@
 extern "C" {
 #endif
 
-#define STACK_INITIAL 256
+#define STACK_INITIAL STACK_MAX
 #define STACK_MAX 1024
-#define FRAMES_INITIAL 64
+#define FRAMES_INITIAL FRAMES_MAX
 #define FRAMES_MAX 1024
 
 #ifndef NDEBUG
-- 
2.43.0


From 5902b328140f44b5b2c37b96f291834ea4031b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:14 +0000
Subject: [PATCH 11/98] fix: collector frees open upvalues whose closure is
 gone while the frame can still reach them

---
 memory.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/memory.c b/memory.c
index 76b38d3..d2f2cc8 100644
--- a/memory.c
+++ b/memory.c
@@ -423,6 +423,7 @@ void collectYoungGarbage() {
             ObjUpvalue *up = th->openUpvalues;
             while (up) {
                 ASSERT(up->value);
+                grayObject(TO_OBJ(up)); // the closure that captured it may be gone
                 grayValue(*up->value);
                 up = up->next;
             }
@@ -1332,6 +1333,7 @@ void collectGarbage(void) {
             ObjUpvalue *up = th->openUpvalues;
             while (up) {
                 ASSERT(up->value);
+                grayObject(TO_OBJ(up)); // the closure that captured it may be gone
                 grayValue(*up->value);
                 up = up->next;
                 numOpenUpsFound++;
-- 
2.43.0


From 47a1062813f8ff8f5a32846d9e64926dfa3dbf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 12/98] fix: a thread that ends while holding a Mutex leaves it
 locked for ever

---
 vm.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/vm.c b/vm.c
index c24127c..88d39ab 100644
--- a/vm.c
+++ b/vm.c
@@ -3849,6 +3849,8 @@ NORETURN void stopVM(int status) {
         // NOTE: pthread_exit in last thread always exits with 0, so have to call _exit manually
         _exit(th->exitStatus);
     } else {
+        // must come before exitingThread(), which empties th->lockedMutexes
+        forceUnlockMutexes(th);
         exitingThread(th);
         th->exitStatus = status;
         if (th->detached && vm.numDetachedThreads > 0) {
@@ -3859,9 +3861,6 @@ NORETURN void stopVM(int status) {
         }
         th->status = THREAD_ZOMBIE;
         vm.numLivingThreads--;
-        if (th->mutexCounter > 0) {
-            forceUnlockMutexes(th);
-        }
         th->mutexCounter = 0;
         releaseGVL(THREAD_ZOMBIE);
         pthread_exit(&status);
-- 
2.43.0


From 23f9c5c37b396513af23349487f0f45d777a95da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:18 +0000
Subject: [PATCH 13/98] fix: exit waits for ever for a thread that starts while
 the VM is exiting

---
 thread.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/thread.c b/thread.c
index 94cc447..22176bf 100644
--- a/thread.c
+++ b/thread.c
@@ -259,6 +259,7 @@ static void *runCallableInNewThread(void *arg) {
     unhideFromGC((Obj*)closure);
     if (vm.exiting || vm.exited) {
         THREAD_DEBUG(2, "vm exited, quitting new thread %lu", pthread_self());
+        th->status = THREAD_ZOMBIE;
         releaseGVL(THREAD_ZOMBIE);
         vm.numLivingThreads--;
         pthread_exit(NULL);
-- 
2.43.0


From 73f1a8b24e0bf7e93b446ff8d22312e9d1dd4b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:54 +0000
Subject: [PATCH 14/98] fix: exit hooks abort after an uncaught error, or when
 a hook raises or exits

---
 vm.c | 43 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/vm.c b/vm.c
index 88d39ab..147cbbd 100644
--- a/vm.c
+++ b/vm.c
@@ -960,7 +960,7 @@ void errorPrintScriptBacktrace(const char *format, ...) {
     resetStack();
 }
 
-void showUncaughtError(Value err) {
+static void printUncaughtError(Value err) {
     ObjString *classNameObj = classNameFull(AS_INSTANCE(err)->klass);
     char *className = NULL;
     if (classNameObj) {
@@ -986,9 +986,20 @@ void showUncaughtError(Value err) {
     for (int i = 0; i < btSz; i++) {
         fprintf(stderr, "%s", VAL_TO_STRING(ARRAY_GET(bt, i))->chars);
     }
+}
 
-    THREAD()->hadError = true;
-    resetStack();
+static void closeUpvalues(Value *last);
+
+void showUncaughtError(Value err) {
+    printUncaughtError(err);
+    LxThread *th = THREAD();
+    th->hadError = true;
+    th->errInfo = NULL;
+    getFrame()->jmpBufSet = false;
+    vec_clear(&th->v_blockStack);
+    // The bottom frame is kept, the exit hooks of the main thread are called from it
+    closeUpvalues(EC->stack);
+    EC->stackTop = EC->stack;
 }
 
 static inline bool isBlockControlFlow(Value err) {
@@ -1323,8 +1334,6 @@ static void unwindErrInfo(CallFrame *frame) {
     vm.curThread->errInfo = info;
 }
 
-static void closeUpvalues(Value *last);
-
 void popFrame(void) {
     DBG_ASSERT(vm.inited);
     LxThread *th = vm.curThread;
@@ -3790,13 +3799,29 @@ void *vm_protect(vm_cb_func func, void *arg, ObjClass *errClass, ErrTag *status)
     return NULL;
 }
 
+static void *runAtExitHook(void *func) {
+    callCallable(OBJ_VAL(func), 0, false, NULL);
+    return NULL;
+}
+
+// Each hook runs once: it's removed before the call, so that a hook which
+// itself exits continues with the remaining ones. An error in a hook is
+// reported and doesn't keep the others from running.
 void runAtExitHooks(void) {
+    LxThread *th = THREAD();
     vm.exited = false;
-    ObjClosure *func = NULL;
-    int i = 0;
-    vec_foreach_rev(&vm.exitHandlers, func, i) {
+    th->hadError = false;
+    vec_clear(&th->v_blockStack); // exit() can be called from a block
+    while (vm.exitHandlers.length > 0) {
+        ObjClosure *func = vec_pop(&vm.exitHandlers);
+        ErrTag status = TAG_NONE;
         push(OBJ_VAL(func));
-        callCallable(OBJ_VAL(func), 0, false, NULL);
+        vm_protect(runAtExitHook, func, NULL, &status);
+        if (status == TAG_RAISE) {
+            printUncaughtError(th->errInfo->caughtError);
+            popErrInfo();
+            th->exitStatus = 1;
+        }
         pop();
     }
 }
-- 
2.43.0


From 90881b51ca4cbfdfdb4717205421934b8523254d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:16 +0000
Subject: [PATCH 15/98] fix: exit never ends while another thread is blocked in
 a system call

---
 vm.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/vm.c b/vm.c
index 147cbbd..a0e87c0 100644
--- a/vm.c
+++ b/vm.c
@@ -3826,10 +3826,14 @@ void runAtExitHooks(void) {
     }
 }
 
+// Threads blocked in a system call can't react to the exit interrupt. They're
+// left alone after this many tries: they can't run without the GVL, and
+// if they get it in an exit hook they end then.
+#define TERMINATE_TRIES_MAX 500
+
 void terminateThreads() {
     int tries = 0;
-    (void)tries;
-    while (true) {
+    while (tries < TERMINATE_TRIES_MAX) {
         int found = 0;
         int numReadyFound = 0;
         volatile ObjInstance *threadInst = NULL; int tidx = 0;
@@ -3850,6 +3854,11 @@ void terminateThreads() {
             break;
         }
         tries++;
+        if (tries > 10) {
+            releaseGVL(THREAD_STOPPED);
+            usleep(1000);
+            acquireGVL();
+        }
     }
     vm.numLivingThreads = 1;
 }
-- 
2.43.0


From e621075cd1480e0c486f8d9150df318126d8233a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:31 +0000
Subject: [PATCH 16/98] fix: sleep drops fractions of a second, can return
 early, and can miss being woken

---
 runtime.c | 46 ++++++++++++++++++++++++++++++++--------------
 thread.c  |  5 ++++-
 2 files changed, 36 insertions(+), 15 deletions(-)

diff --git a/runtime.c b/runtime.c
index b1ff811..2c51422 100644
--- a/runtime.c
+++ b/runtime.c
@@ -248,21 +248,21 @@ Value lxEval(int argCount, Value *args) {
     return VMEval(csrc, "(eval)", 1, NULL);
 }
 
-static void threadSleep(LxThread *th, int secs) {
+// Sleeps until the deadline, or until another thread has something for this
+// thread to do. Returns true if the deadline has passed.
+static bool threadSleepUntil(LxThread *th, struct timespec *deadline) {
+    int res = 0;
     pthread_mutex_lock(&th->sleepMutex);
-    struct timespec ts;
-    clock_gettime(CLOCK_REALTIME, &ts);
-    ts.tv_sec += secs;
     THREAD_DEBUG(1, "Sleeping %lu\n", pthread_self());
     th->status = THREAD_SLEEPING;
-    int res = pthread_cond_timedwait(&th->sleepCond, &th->sleepMutex, &ts);
-    th->status = THREAD_STOPPED;
-    if (res == 0) {
-        THREAD_DEBUG(1, "Woke up %lu\n", pthread_self());
-    } else {
-        THREAD_DEBUG(1, "Woke up with error: (err=%d) %lu\n", res, pthread_self());
+    // can wake up spuriously
+    while (res == 0 && IS_NIL(th->errorToThrow) && !INTERRUPTED_ANY(th)) {
+        res = pthread_cond_timedwait(&th->sleepCond, &th->sleepMutex, deadline);
     }
+    th->status = THREAD_STOPPED;
+    THREAD_DEBUG(1, "Woke up: (res=%d) %lu\n", res, pthread_self());
     pthread_mutex_unlock(&th->sleepMutex);
+    return res != 0;
 }
 
 void threadSleepNano(LxThread *th, int nsecs) {
@@ -270,6 +270,10 @@ void threadSleepNano(LxThread *th, int nsecs) {
     struct timespec ts;
     clock_gettime(CLOCK_REALTIME, &ts);
     ts.tv_nsec += nsecs;
+    if (ts.tv_nsec >= 1000000000) {
+        ts.tv_sec += ts.tv_nsec / 1000000000;
+        ts.tv_nsec %= 1000000000;
+    }
     THREAD_DEBUG(1, "Sleeping %lu\n", pthread_self());
     th->status = THREAD_SLEEPING;
     int res = pthread_cond_timedwait(&th->sleepCond, &th->sleepMutex, &ts);
@@ -286,12 +290,26 @@ Value lxSleep(int argCount, Value *args) {
     CHECK_ARITY("sleep", 1, 1, argCount);
     Value nsecs = *args;
     CHECK_ARG_BUILTIN_TYPE(nsecs, IS_NUMBER_FUNC, "number", 1);
-    int secs = (int)AS_NUMBER(nsecs);
+    double secs = AS_NUMBER(nsecs);
     if (secs > 0) {
         LxThread *th = THREAD();
-        releaseGVL(THREAD_STOPPED);
-        threadSleep(th, secs);
-        acquireGVL();
+        bool done = false;
+        struct timespec deadline;
+        if (secs > INT_MAX) secs = INT_MAX;
+        time_t wholeSecs = (time_t)secs;
+        clock_gettime(CLOCK_REALTIME, &deadline);
+        deadline.tv_sec += wholeSecs;
+        deadline.tv_nsec += (long)((secs - wholeSecs) * 1e9);
+        if (deadline.tv_nsec >= 1000000000) {
+            deadline.tv_sec++;
+            deadline.tv_nsec -= 1000000000;
+        }
+        while (!done) {
+            releaseGVL(THREAD_STOPPED);
+            done = threadSleepUntil(th, &deadline);
+            acquireGVL();
+            VM_CHECK_INTS(th); // not checked by acquireGVL() if a mutex is held
+        }
     }
     return NIL_VAL;
 }
diff --git a/thread.c b/thread.c
index 22176bf..5f50b79 100644
--- a/thread.c
+++ b/thread.c
@@ -382,8 +382,11 @@ void threadSchedule(LxThread *th) {
     ASSERT(th != vm.curThread);
     LxThread *oldTh = vm.curThread;
     (void)oldTh;
-    releaseGVL(THREAD_STOPPED);
+    // the lock is needed, or the thread could miss the signal on its way to sleep
+    pthread_mutex_lock(&th->sleepMutex);
     pthread_cond_signal(&th->sleepCond);
+    pthread_mutex_unlock(&th->sleepMutex);
+    releaseGVL(THREAD_STOPPED);
 #ifdef __linux__
     sched_yield();
 #else
-- 
2.43.0


From 7b0480842b8eebaa1738545f732dbf03ab5c0858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 17/98] fix: errors thrown into a thread are dropped if it
 caught an error before, and can be collected

---
 memory.c | 2 ++
 thread.c | 7 ++++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/memory.c b/memory.c
index d2f2cc8..b637c16 100644
--- a/memory.c
+++ b/memory.c
@@ -353,6 +353,7 @@ void collectYoungGarbage() {
             grayObject(th->thisObj);
         }
         grayValue(th->lastErrorThrown);
+        grayValue(th->errorToThrow);
         VMExecContext *ctx = NULL; int k = 0;
         vec_foreach(&th->v_ecs, ctx, k) {
             grayTable(&ctx->roGlobals);
@@ -1253,6 +1254,7 @@ void collectGarbage(void) {
             grayObject(TO_OBJ(th->tlsMap));
         }
         grayValue(th->lastErrorThrown);
+        grayValue(th->errorToThrow);
         VMExecContext *ctx = NULL; int k = 0;
         vec_foreach(&th->v_ecs, ctx, k) {
             grayTable(&ctx->roGlobals);
diff --git a/thread.c b/thread.c
index 5f50b79..eecea1e 100644
--- a/thread.c
+++ b/thread.c
@@ -425,10 +425,11 @@ static Value lxThreadThrow(int argCount, Value *args) {
     CHECK_ARG_IS_A(err, lxErrClass, 1);
     LxThread *th = THREAD_GETHIDDEN(self);
     Value ret = NIL_VAL;
+    if (th == vm.curThread) {
+        throwError(err);
+    }
     if (th->status == THREAD_SLEEPING || th->status == THREAD_STOPPED || th->status == THREAD_RUNNING) {
-        if (IS_NIL(th->lastErrorThrown)) {
-            th->errorToThrow = err;
-        }
+        th->errorToThrow = err;
         threadSchedule(th);
     }
     return ret;
-- 
2.43.0


From 0a968c3325ef003b4a52347ca88c267e16d96934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:26 +0000
Subject: [PATCH 18/98] fix: threads running while the main thread exits return
 from calls without popping their frames

---
 vm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vm.c b/vm.c
index a0e87c0..904d492 100644
--- a/vm.c
+++ b/vm.c
@@ -2317,7 +2317,9 @@ vmLoop:
           (th->vmRunLvl)--;
           return INTERPRET_RUNTIME_ERROR;
       }
-      if (UNLIKELY(vm.exited)) {
+      // other threads end when they get the exit interrupt, their native
+      // callers don't expect a call to return without having popped its frame
+      if (UNLIKELY(vm.exited) && th == vm.mainThread) {
           (th->vmRunLvl)--;
           return INTERPRET_OK;
       }
-- 
2.43.0


From e673c851de56ea8c358126f0f307d7e427ab99d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:01 +0000
Subject: [PATCH 19/98] fix: an error thrown into a thread at the start of a
 try block's loop misses that block

---
 vm.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vm.c b/vm.c
index 904d492..c76e3ad 100644
--- a/vm.c
+++ b/vm.c
@@ -2306,9 +2306,12 @@ vmLoop:
           th->opsRemaining = THREAD_OPS_UNTIL_SWITCH;
           if (!isOnlyThread()) {
               THREAD_DEBUG(5, "Releasing GVL after ops up %lu", pthread_self());
+              // an error raised here belongs to the next instruction's try block
+              getFrame()->ip++;
               releaseGVL(THREAD_STOPPED);
               threadSleepNano(th, 100);
               acquireGVL();
+              getFrame()->ip--;
           } else {
               THREAD_DEBUG(5, "Skipped releasing GVL after ops up %lu", pthread_self());
           }
@@ -2818,10 +2821,12 @@ vmLoop:
       CASE_OP(LOOP): {
           bytecode_t ipOffset = READ_WORD();
           ASSERT(ipOffset > 0);
+          // checked before jumping: an error raised here belongs to the try
+          // block the loop is in, even if the loop starts the block
+          VM_CHECK_INTS(th);
           // add 1 for the instruction we just read, and 1 to go 1 before the
           // instruction we want to execute next.
           frame->ip -= (ipOffset+2);
-          VM_CHECK_INTS(th);
           DISPATCH_BOTTOM();
       }
       CASE_OP(BREAK): {
-- 
2.43.0


From f75d0ae907ea9e9e29ba2be5d6918dcc490f44aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:58 +0000
Subject: [PATCH 20/98] fix: IO reads and writes lose or invent bytes at short
 transfers, and use the heap without the VM lock

---
 io.c | 137 ++++++++++++++++++++++++++++++++++-------------------------
 1 file changed, 80 insertions(+), 57 deletions(-)

diff --git a/io.c b/io.c
index 721536d..62b4a28 100644
--- a/io.c
+++ b/io.c
@@ -79,73 +79,83 @@ static void NORETURN throwIOSyserr(int err, int last, const char *desc) {
     throwErrorFmt(sysErrClass(err), "IO Error during %s: %s", desc, strerror(err));
 }
 
-static int fd_set_nonblock(int fd) {
+static int fd_set_nonblock(int fd, bool nonblock) {
     int oflags = fcntl(fd, F_GETFL);
     if (oflags == -1) return -1;
-    if (oflags & O_NONBLOCK) return 0;
-    oflags |= O_NONBLOCK;
-    return fcntl(fd, F_SETFL, oflags);
-    return 0;
+    if (((oflags & O_NONBLOCK) != 0) == nonblock) return 0;
+    if (fcntl(fd, F_SETFL, oflags ^ O_NONBLOCK) == -1) return -1;
+    return 1; // changed
 }
 
+// Reads numBytes bytes, or until EOF. Returns NULL if nonBlock is given and
+// there's nothing to read. The GVL is only released during the system calls.
 ObjString *IOReadFd(int fd, size_t numBytes, bool untilEOF, bool nonBlock) {
     ASSERT(fd >= 0);
     ObjString *retBuf = copyString("", 0, NEWOBJ_FLAG_NONE);
     size_t nread = 0;
-    ssize_t justRead = 0;
-    char fileReadBuf[READBUF_SZ];
-    size_t maxRead = untilEOF ? READBUF_SZ-1 : (numBytes > (READBUF_SZ-1) ? (READBUF_SZ-1) : numBytes);
+    char fileReadBuf[READBUF_SZ+1];
     int last = errno;
+    int changedFlags = 0;
     if (nonBlock) {
-      fd_set_nonblock(fd);
+        changedFlags = fd_set_nonblock(fd, true);
+        if (changedFlags == -1) throwIOSyserr(errno, last, "fcntl");
     }
-    if (!nonBlock) {
-    releaseGVL(THREAD_STOPPED);
-    }
-    /*fprintf(stderr, "read from %d with max %d\n", fd, (int)maxRead);*/
-    while ((justRead = read(fd, fileReadBuf, maxRead)) > 0) {
-        /*fprintf(stderr, "Just read: '%s'", fileReadBuf);*/
+    while (untilEOF || nread < numBytes) {
+        size_t maxRead = READBUF_SZ;
+        if (!untilEOF && numBytes - nread < maxRead) {
+            maxRead = numBytes - nread;
+        }
+        if (!nonBlock) releaseGVL(THREAD_STOPPED);
+        ssize_t justRead = read(fd, fileReadBuf, maxRead);
+        int err = errno;
+        if (!nonBlock) acquireGVL();
+        if (justRead == -1) {
+            if (err == EINTR) {
+                VM_CHECK_INTS(THREAD());
+                continue;
+            }
+            if (changedFlags) fd_set_nonblock(fd, false);
+            if (nonBlock && err == EWOULDBLOCK) {
+                return nread == 0 ? NULL : retBuf;
+            }
+            throwIOSyserr(err, last, "read");
+        }
+        if (justRead == 0) break;
         fileReadBuf[justRead] = '\0';
         pushCString(retBuf, fileReadBuf, justRead);
         nread += justRead;
-        numBytes -= justRead;
-        maxRead = untilEOF ? READBUF_SZ : (numBytes > READBUF_SZ ? READBUF_SZ : numBytes);
     }
-    if (!nonBlock) {
-        acquireGVL();
-    }
-    if (justRead == -1) {
-        if (nonBlock && errno == EWOULDBLOCK) {
-            if (nread == 0) {
-                return NULL;
-            } else {
-                return retBuf;
-            }
-        }
-        throwIOSyserr(errno, last, "read");
-    }
-
+    if (changedFlags) fd_set_nonblock(fd, false);
     return retBuf;
 }
 
+// Reads up to and including the next newline, at most maxLen-1 bytes. Nothing
+// after the line is consumed.
 static ObjString *IOReadlineFd(int fd, size_t maxLen) {
-    ObjString *retBuf = NULL;
     if (maxLen == 0) maxLen = READBUF_SZ;
     if (maxLen > READBUF_SZ) maxLen = READBUF_SZ;
-    char fileReadBuf[READBUF_SZ];
-    FILE *file = fdopen(fd, "r");
-    ASSERT(file); // TODO: handle uncommon error, as it's already open this should not fail
-    char *line = NULL;
+    char lineBuf[READBUF_SZ];
+    size_t len = 0;
     int last = errno;
-    releaseGVL(THREAD_STOPPED);
-    line = fgets(fileReadBuf, maxLen, file);
-    acquireGVL();
-    if (line == NULL) {
-        errno = last;
-        return copyString("", 0, NEWOBJ_FLAG_NONE);
+    while (len < maxLen-1) {
+        char c;
+        releaseGVL(THREAD_STOPPED);
+        ssize_t justRead = read(fd, &c, 1);
+        int err = errno;
+        acquireGVL();
+        if (justRead == -1) {
+            if (err == EINTR) {
+                VM_CHECK_INTS(THREAD());
+                continue;
+            }
+            throwIOSyserr(err, last, "read");
+        }
+        if (justRead == 0) break;
+        lineBuf[len++] = c;
+        if (c == '\n') break;
     }
-    retBuf = copyString(line, strlen(line), NEWOBJ_FLAG_NONE);
-    return retBuf;
+    lineBuf[len] = '\0';
+    return copyString(lineBuf, len, NEWOBJ_FLAG_NONE);
 }
 
 ObjString *IORead(Value io, size_t numBytes, bool untilEOF, bool nonBlock) {
@@ -164,33 +174,46 @@ static ObjString *IOReadNonBlock(Value io, size_t numBytes, bool untilEOF) {
 }
 
 static ObjString *IOReadline(Value io, size_t maxBytes) {
-    // TODO: checks
     LxFile *f = FILE_GETHIDDEN(io);
+    if (!f->isOpen) {
+        throwErrorFmt(lxErrClass, "IO error: cannot read from closed fd: %d", f->fd);
+    }
     return IOReadlineFd(f->fd, maxBytes);
 }
 
 size_t IOWrite(Value io, const void *buf, size_t count) {
     LxFile *f = FILE_GETHIDDEN(io);
+    if (!f->isOpen) {
+        throwErrorFmt(lxErrClass, "IO error: cannot write to closed fd: %d", f->fd);
+    }
     if (f->fd == STDIN_FILENO) {
         throwErrorFmt(lxErrClass, "Cannot write to stdin");
     }
     int fd = f->fd;
-    size_t chunkSz = count > WRITEBUF_SZ ? WRITEBUF_SZ : count;
     char ioWritebuf[WRITEBUF_SZ];
-    memcpy(ioWritebuf, buf, chunkSz);
+    const char *src = ioWritebuf;
+    // the string written can be changed by other threads during the writes
+    if (count > WRITEBUF_SZ) {
+        src = copyString((char*)buf, count, NEWOBJ_FLAG_NONE)->chars;
+    } else {
+        memcpy(ioWritebuf, buf, count);
+    }
     size_t written = 0;
-    ssize_t res = 0;
     int last = errno;
-    releaseGVL(THREAD_STOPPED);
-    while ((res = write(fd, ioWritebuf, chunkSz)) > 0 && (written += res) && written < count) {
-        chunkSz -= written;
-        memcpy(ioWritebuf, buf+written, chunkSz > WRITEBUF_SZ ? WRITEBUF_SZ : chunkSz);
-    }
-    acquireGVL();
-    if (res == -1) {
+    while (written < count) {
+        releaseGVL(THREAD_STOPPED);
+        ssize_t res = write(fd, src+written, count-written);
         int err = errno;
-        errno = last;
-        throwErrorFmt(sysErrClass(err), "Error during write: %s", strerror(err));
+        acquireGVL();
+        if (res == -1) {
+            if (err == EINTR) {
+                VM_CHECK_INTS(THREAD());
+                continue;
+            }
+            errno = last;
+            throwErrorFmt(sysErrClass(err), "Error during write: %s", strerror(err));
+        }
+        written += res;
     }
     return written;
 }
-- 
2.43.0


From 4deaec207c2167ac638e725ee4c08447feed3015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:58 +0000
Subject: [PATCH 21/98] fix: an IO whose close failed stays open and closes a
 descriptor it doesn't own later

---
 io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io.c b/io.c
index 62b4a28..017c446 100644
--- a/io.c
+++ b/io.c
@@ -65,12 +65,12 @@ void IOClose(Value ioVal) {
     if (f->isOpen) {
         int res = 0;
         int last = errno;
+        f->isOpen = false; // even if it fails, the descriptor is gone
         if ((res = close(f->fd)) != 0) {
             int err = errno;
             errno = last;
             throwErrorFmt(sysErrClass(err), "Error closing fd: %d, %s", f->fd, strerror(err));
         }
-        f->isOpen = false;
     }
 }
 
-- 
2.43.0


From ee0c4099302453bb9cce21540290f6b4ce648448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:58 +0000
Subject: [PATCH 22/98] fix: IO F_GETFL and F_SETFL constants are swapped

---
 io.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/io.c b/io.c
index 017c446..9b1e581 100644
--- a/io.c
+++ b/io.c
@@ -557,8 +557,8 @@ void Init_IOClass(void) {
     addConstantUnder("FD_CLOEXEC", NUMBER_VAL(FD_CLOEXEC), ioClassVal);
 
     // get file description status flags (O_xxx flags)
-    addConstantUnder("F_GETFL", NUMBER_VAL(F_SETFL), ioClassVal);
-    addConstantUnder("F_SETFL", NUMBER_VAL(F_GETFL), ioClassVal);
+    addConstantUnder("F_GETFL", NUMBER_VAL(F_GETFL), ioClassVal);
+    addConstantUnder("F_SETFL", NUMBER_VAL(F_SETFL), ioClassVal);
     addConstantUnder("O_NONBLOCK", NUMBER_VAL(O_NONBLOCK), ioClassVal);
 
 #ifndef O_DIRECT
-- 
2.43.0


From 08f6a9eb1bb284e3a775e9994c0124e8e6690b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:22 +0000
Subject: [PATCH 23/98] fix: a thread that keeps locking and unlocking a Mutex
 can keep every other thread from running

---
 vm.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vm.c b/vm.c
index c76e3ad..7c934a2 100644
--- a/vm.c
+++ b/vm.c
@@ -2303,6 +2303,12 @@ static InterpretResult vm_run() {
 vmLoop:
       th->opsRemaining--;
       if (UNLIKELY(th->opsRemaining <= 0)) {
+          if (th->mutexCounter > 0) {
+              // the GVL is not released while a mutex is held: the time slice
+              // ends once it's unlocked, or other threads might never run
+              th->opsRemaining = 1;
+              goto timeSliceDone;
+          }
           th->opsRemaining = THREAD_OPS_UNTIL_SWITCH;
           if (!isOnlyThread()) {
               THREAD_DEBUG(5, "Releasing GVL after ops up %lu", pthread_self());
@@ -2316,6 +2322,7 @@ vmLoop:
               THREAD_DEBUG(5, "Skipped releasing GVL after ops up %lu", pthread_self());
           }
       }
+timeSliceDone:
       if (UNLIKELY(th->hadError)) {
           (th->vmRunLvl)--;
           return INTERPRET_RUNTIME_ERROR;
-- 
2.43.0


From d5cce81149e3289edb914b9029f634e67ad0391d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:31 +0000
Subject: [PATCH 24/98] fix: Timeout raises its error after the block has ended
 or failed

---
 lib/timeout.lox | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/timeout.lox b/lib/timeout.lox
index 36bdde1..8869633 100644
--- a/lib/timeout.lox
+++ b/lib/timeout.lox
@@ -7,15 +7,23 @@ class Timeout {
     }
     var outerThread = Thread.current();
     var done = false;
+    var lock = Mutex();
     var newThread = newThread(fun() {
       sleep(secs);
       Thread.schedule();
+      // No other thread runs while the mutex is held, so the block can't end
+      // between the check and the throw.
+      lock.lock();
       if (!done) {
         outerThread.throw(Timeout::Error("timeout"));
       }
+      lock.unlock();
     });
     newThread.detach();
-    blk.yield();
-    done = true;
+    try {
+      blk.yield();
+    } ensure {
+      done = true;
+    }
   }
 }
-- 
2.43.0


From d6154a6858eb79435a2ccb1f58c30c336fe4c814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:31 +0000
Subject: [PATCH 25/98] fix: a function called in a block ends the block when
 it returns

---
 vm.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vm.c b/vm.c
index 7c934a2..541a92b 100644
--- a/vm.c
+++ b/vm.c
@@ -3069,8 +3069,10 @@ find_instance_method:
       // return from function/method, and close all upvalues in the callframe frame
       CASE_OP(RETURN): {
           // this is if we're in a block given by (&block), and we returned
-          // (explicitly or implicitly)
-          if (!getFrame()->isEval && th->v_blockStack.length > 0) {
+          // (explicitly or implicitly). Functions called by the block return
+          // to it like any other function.
+          BlockStackEntry *bentry = vec_last_or(&th->v_blockStack, NULL);
+          if (bentry && bentry->frame == getFrame() && !getFrame()->isEval) {
               ObjString *key = INTERN("ret");
               VM_POP();
               Value ret;
-- 
2.43.0


From 63db0fb39d7f4ca3f5a0bb4538a21ed02d15aed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:02 +0000
Subject: [PATCH 26/98] fix: a signal handler called before a frame's first
 instruction aborts the process

---
 vm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vm.c b/vm.c
index 541a92b..3d05c96 100644
--- a/vm.c
+++ b/vm.c
@@ -1782,7 +1782,9 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
     CallFrame *f = getFrame();
     Chunk *ch = f->closure->function->chunk;
     int parentStart = f->ip - ch->code - 2;
-    ASSERT(parentStart >= 0);
+    if (parentStart < 0) { // a signal handler called before the frame's first instruction
+        parentStart = 0;
+    }
 
     size_t funcOffset = 0;
     VM_DEBUG(2,
-- 
2.43.0


From 7658765a8e4fb7034b527107c3c5ae563cf0e933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:54 +0000
Subject: [PATCH 27/98] fix: the error of an enclosing Timeout can leave an
 inner timeout armed

---
 lib/timeout.lox | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/lib/timeout.lox b/lib/timeout.lox
index 8869633..92c1f02 100644
--- a/lib/timeout.lox
+++ b/lib/timeout.lox
@@ -8,20 +8,26 @@ class Timeout {
     var outerThread = Thread.current();
     var done = false;
     var lock = Mutex();
-    var newThread = newThread(fun() {
-      sleep(secs);
-      Thread.schedule();
-      // No other thread runs while the mutex is held, so the block can't end
-      // between the check and the throw.
-      lock.lock();
-      if (!done) {
-        outerThread.throw(Timeout::Error("timeout"));
-      }
-      lock.unlock();
-    });
-    newThread.detach();
+    // The error of an enclosing timeout can arrive at any point, even in the
+    // inner ensure, and has to stop this timeout's thread from throwing too.
     try {
-      blk.yield();
+      try {
+        var newThread = newThread(fun() {
+          sleep(secs);
+          Thread.schedule();
+          // No other thread runs while the mutex is held, so the block can't end
+          // between the check and the throw.
+          lock.lock();
+          if (!done) {
+            outerThread.throw(Timeout::Error("timeout"));
+          }
+          lock.unlock();
+        });
+        newThread.detach();
+        blk.yield();
+      } ensure {
+        done = true;
+      }
     } ensure {
       done = true;
     }
-- 
2.43.0


From 57015c9576bbbbde29d52d06a971e2e8c5e08560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 28/98] fix: Signal.trap: repeated traps are ignored, a failing
 one corrupts the handler list, a signal can deadlock the main thread

---
 signal.c | 57 ++++++++++++++++++++++++--------------------------------
 thread.c |  6 ++----
 vm.h     |  5 +++--
 3 files changed, 29 insertions(+), 39 deletions(-)

diff --git a/signal.c b/signal.c
index afc4ae5..0b6125f 100644
--- a/signal.c
+++ b/signal.c
@@ -16,14 +16,16 @@ typedef struct SignalBuf {
 
 SignalBuf sigbuf;
 
+// Called from the native signal handler too, so it can interrupt any of the
+// other functions.
 void enqueueSignal(int signo) {
-    sigbuf.cnt[signo]++;
-    sigbuf.size++;
+    __atomic_add_fetch(&sigbuf.cnt[signo], 1, __ATOMIC_SEQ_CST);
+    __atomic_add_fetch(&sigbuf.size, 1, __ATOMIC_SEQ_CST);
 }
 
 static inline void dequeueSignal(int signo) {
-    sigbuf.cnt[signo]--;
-    sigbuf.size--;
+    __atomic_sub_fetch(&sigbuf.cnt[signo], 1, __ATOMIC_SEQ_CST);
+    __atomic_sub_fetch(&sigbuf.size, 1, __ATOMIC_SEQ_CST);
 }
 
 int getSignal() {
@@ -56,9 +58,8 @@ int execSignal(LxThread *th, int signum) {
 // and set the interrupt flag on the main thread.
 static void sigHandlerFunc(int signum, siginfo_t *sinfo, void *_context) {
     enqueueSignal(signum);
-    pthread_mutex_lock(&vm.mainThread->interruptLock);
+    // no lock here: the interrupted code may be holding it
     SET_TRAP_INTERRUPT(vm.mainThread);
-    pthread_mutex_unlock(&vm.mainThread->interruptLock);
 }
 
 void removeVMSignalHandlers(void) {
@@ -78,36 +79,26 @@ static int addSigHandler(int signum, Value callable) {
     handler->signum = signum;
     handler->callable = AS_OBJ(callable);
     handler->next = NULL;
-    bool processHandlerExistsForSig = false;
-    SigHandler *prev = NULL;
-    if (sigHandlers == NULL) {
-        sigHandlers = handler;
-    } else {
-        SigHandler *cur = sigHandlers;
-        while (cur->next) {
-            if (cur->signum == signum) {
-                processHandlerExistsForSig = true;
-            }
-            cur = cur->next;
+    SigHandler **link = &sigHandlers;
+    while (*link) {
+        if ((*link)->signum == signum) { // replaces the earlier one
+            (*link)->callable = AS_OBJ(callable);
+            return 0;
         }
-        cur->next = handler;
-        prev = cur;
+        link = &(*link)->next;
     }
-    if (!processHandlerExistsForSig) {
-        struct sigaction sa;
-        sa.sa_flags = 0|SA_SIGINFO|SA_RESTART;
-        sigset_t blockMask;
-        sigemptyset(&blockMask);
-        sa.sa_mask = blockMask;
-        sa.sa_sigaction = sigHandlerFunc;
-        struct sigaction saOld;
-        int res = sigaction(signum, &sa, &saOld);
-        if (res != 0) {
-            prev->next = NULL;
-            FREE(SigHandler, handler);
-            return -1;
-        }
+    struct sigaction sa;
+    sa.sa_flags = 0|SA_SIGINFO|SA_RESTART;
+    sigset_t blockMask;
+    sigemptyset(&blockMask);
+    sa.sa_mask = blockMask;
+    sa.sa_sigaction = sigHandlerFunc;
+    struct sigaction saOld;
+    int res = sigaction(signum, &sa, &saOld);
+    if (res != 0) {
+        return -1;
     }
+    *link = handler;
     return 0;
 }
 
diff --git a/thread.c b/thread.c
index eecea1e..536f771 100644
--- a/thread.c
+++ b/thread.c
@@ -60,12 +60,10 @@ void threadExecuteInterrupts(LxThread *th) {
     int interrupt = 0;
     while ((interrupt = threadGetInterrupt(th)) != INTERRUPT_NONE) {
         if (interrupt == INTERRUPT_TRAP && th == vm.mainThread) {
-            th->interruptFlags &= (~interrupt);
+            UNSET_INTERRUPT(th, interrupt);
             int sig;
             while ((sig = getSignal()) != -1) {
-                if (execSignal(th, sig) != 0) {
-                    break;
-                }
+                (void)execSignal(th, sig); // ignored if there's no handler
             }
         } else if (interrupt == INTERRUPT_GENERAL) { // sent 'exit' interrupt to living thread
             THREAD_DEBUG(1, "Thread %lu got exit interrupt, exiting", th->tid);
diff --git a/vm.h b/vm.h
index 5bc5926..e2c0fb8 100644
--- a/vm.h
+++ b/vm.h
@@ -124,8 +124,9 @@ typedef struct BlockStackEntry {
 #define INTERRUPT_GENERAL 1
 // all signals use this interrupt
 #define INTERRUPT_TRAP 2
-#define SET_TRAP_INTERRUPT(th) (th->interruptFlags |= INTERRUPT_TRAP)
-#define SET_INTERRUPT(th) (th->interruptFlags |= INTERRUPT_GENERAL)
+#define SET_TRAP_INTERRUPT(th) ((void)__atomic_or_fetch(&th->interruptFlags, INTERRUPT_TRAP, __ATOMIC_SEQ_CST))
+#define SET_INTERRUPT(th) ((void)__atomic_or_fetch(&th->interruptFlags, INTERRUPT_GENERAL, __ATOMIC_SEQ_CST))
+#define UNSET_INTERRUPT(th, flag) ((void)__atomic_and_fetch(&th->interruptFlags, ~(flag), __ATOMIC_SEQ_CST))
 #define INTERRUPTED_ANY(th) (th->interruptFlags != INTERRUPT_NONE)
 typedef struct LxThread {
     pthread_t tid;
-- 
2.43.0


From 1bd1b3d277eb2095377000794a55580af3f22202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 29/98] fix: a process forked while other threads run can
 deadlock or run the parent's signals

---
 process.c |  2 +-
 signal.c  | 12 ++++++++----
 thread.c  | 30 ++++++++++++++++++++++++++++++
 vm.c      |  2 +-
 vm.h      |  3 +++
 5 files changed, 43 insertions(+), 6 deletions(-)

diff --git a/process.c b/process.c
index fc22a55..1486fa3 100644
--- a/process.c
+++ b/process.c
@@ -41,8 +41,8 @@ static Value lxForkStatic(int argCount, Value *args) {
     if (pid) { // in parent
         return NUMBER_VAL(pid);
     } else { // in child
+        threadsAfterFork();
         if (argCount == 2) {
-            vm.mainThread->pid = getpid();
             callCallable(func, 0, false, NULL);
             stopVM(0);
         }
diff --git a/signal.c b/signal.c
index 0b6125f..84a4b41 100644
--- a/signal.c
+++ b/signal.c
@@ -39,6 +39,10 @@ int getSignal() {
     return -1;
 }
 
+void clearSignals(void) {
+    memset((void*)&sigbuf, 0, sizeof(sigbuf));
+}
+
 /* Execute one queued signal handler on the main thread */
 int execSignal(LxThread *th, int signum) {
     (void)th;
@@ -75,10 +79,6 @@ void removeVMSignalHandlers(void) {
 }
 
 static int addSigHandler(int signum, Value callable) {
-    SigHandler *handler = ALLOCATE(SigHandler, 1);
-    handler->signum = signum;
-    handler->callable = AS_OBJ(callable);
-    handler->next = NULL;
     SigHandler **link = &sigHandlers;
     while (*link) {
         if ((*link)->signum == signum) { // replaces the earlier one
@@ -98,6 +98,10 @@ static int addSigHandler(int signum, Value callable) {
     if (res != 0) {
         return -1;
     }
+    SigHandler *handler = ALLOCATE(SigHandler, 1);
+    handler->signum = signum;
+    handler->callable = AS_OBJ(callable);
+    handler->next = NULL;
     *link = handler;
     return 0;
 }
diff --git a/thread.c b/thread.c
index 536f771..c614de8 100644
--- a/thread.c
+++ b/thread.c
@@ -231,6 +231,36 @@ void exitingThread(LxThread *th) {
     LxThreadCleanup(th);
 }
 
+// Only the thread that called fork() exists in the child, it becomes the main
+// thread there. The other threads may have held locks at the time of the fork.
+void threadsAfterFork(void) {
+    LxThread *cur = vm.curThread;
+    pthread_mutex_init(&vm.GVLock, NULL);
+    pthread_cond_init(&vm.GVLCond, NULL);
+    vm.GVLWaiters = 0;
+    ObjInstance *thI; int thIdx = 0;
+    vec_foreach(&vm.threads, thI, thIdx) {
+        LxThread *th = THREAD_GETHIDDEN(OBJ_VAL(thI));
+        pthread_mutex_init(&th->sleepMutex, NULL);
+        pthread_cond_init(&th->sleepCond, NULL);
+        pthread_mutex_init(&th->interruptLock, NULL);
+        if (th != cur) {
+            th->status = THREAD_ZOMBIE;
+        }
+    }
+    cur->pid = getpid();
+    cur->detached = false;
+    if (cur != vm.mainThread) {
+        memcpy(&rootVMLoopJumpBuf, &cur->rootJumpBuf, sizeof(jmp_buf));
+        vm.mainThread = cur;
+    }
+    vm.numLivingThreads = 1;
+    vm.numDetachedThreads = 0;
+    // signals sent to the parent
+    clearSignals();
+    UNSET_INTERRUPT(cur, INTERRUPT_TRAP);
+}
+
 static void *runCallableInNewThread(void *arg) {
     NewThreadArgs *tArgs = (NewThreadArgs*)arg;
     pthread_t tid = pthread_self();
diff --git a/vm.c b/vm.c
index 3d05c96..1b0c7e8 100644
--- a/vm.c
+++ b/vm.c
@@ -383,7 +383,7 @@ Value createIterator(Value iterable) {
 }
 
 // Uncaught errors jump here
-static jmp_buf rootVMLoopJumpBuf;
+jmp_buf rootVMLoopJumpBuf;
 static bool rootVMLoopJumpBufSet = false;
 
 static int curLine = 1; // TODO: per thread
diff --git a/vm.h b/vm.h
index e2c0fb8..8206695 100644
--- a/vm.h
+++ b/vm.h
@@ -177,6 +177,8 @@ bool isOnlyThread(void);
 #define VM_CHECK_INTS(th) vmCheckInts(th)
 void vmCheckInts(LxThread *th);
 void threadExecuteInterrupts(LxThread *th);
+void threadsAfterFork(void);
+extern jmp_buf rootVMLoopJumpBuf;
 void threadInterrupt(LxThread *th, bool isTrap);
 void threadSchedule(LxThread *th);
 struct LxMutex; // fwd decl
@@ -279,6 +281,7 @@ void enqueueSignal(int signo);
 int execSignal(LxThread *th, int signo);
 void threadCheckSignals(LxThread *th);
 int getSignal(void);
+void clearSignals(void);
 
 // high-level API
 void initVM(void);
-- 
2.43.0


From fb706ec926cc9b6ca0e8a082ea8fa57c5dbb361c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:08 +0000
Subject: [PATCH 30/98] fix: a String whose init raised an error aborts the
 process when it is freed

---
 memory.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/memory.c b/memory.c
index b637c16..305b32e 100644
--- a/memory.c
+++ b/memory.c
@@ -1095,14 +1095,14 @@ void freeObject(Obj *obj) {
         }
         case OBJ_T_STRING: {
             ObjString *string = (ObjString*)obj;
-            ASSERT(string->chars);
             GC_TRACE_DEBUG(5, "Freeing string chars: p=%p, interned=%s,static=%s,shared=%s",
                     string->chars,
                     STRING_IS_INTERNED(string) ? "t" : "f",
                     STRING_IS_STATIC(string) ? "t" : "f",
                     STRING_IS_SHARED(string) ? "t" : "f"
             );
-            if (!STRING_IS_SHARED(string)) {
+            // there are none if String#init raised an error
+            if (string->chars && !STRING_IS_SHARED(string)) {
                 GC_TRACE_DEBUG(5, "Freeing string chars: s='%s' (len=%d, capa=%d)", string->chars, string->length, string->capacity);
                 FREE_ARRAY(char, string->chars, string->capacity + 1);
             }
-- 
2.43.0


From b413065eef53c1e36ed1fe7680c15f45b0bcd950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:36 +0000
Subject: [PATCH 31/98] fix: locals of a loop in a block stay on the stack and
 break the loop

---
 compiler.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/compiler.c b/compiler.c
index 69a0d6d..5b6fca8 100644
--- a/compiler.c
+++ b/compiler.c
@@ -277,7 +277,10 @@ static void popScope(CompileScopeType stype) {
             COMP_TRACE("popScope closing upvalue");
             emitCloseUpvalue();
         } else {
-            if (current->type != FUN_TYPE_BLOCK && local->popOnScopeEnd) {
+            // the locals of a block's outermost scope are left on the stack,
+            // the VM drops them when the block ends
+            bool isBlockScope = current->type == FUN_TYPE_BLOCK && stype == COMPILE_SCOPE_FUNCTION;
+            if (!isBlockScope && local->popOnScopeEnd) {
                 COMP_TRACE("popScope emitting OP_POP");
                 popLocal(local);
             }
-- 
2.43.0


From e06675dbda103fbba4ac7aa1c65b74602249da46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:36 +0000
Subject: [PATCH 32/98] fix: a function with a return inside a block aborts the
 compiler

---
 compiler.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler.c b/compiler.c
index 5b6fca8..0ce38a6 100644
--- a/compiler.c
+++ b/compiler.c
@@ -1672,9 +1672,9 @@ static ObjFunction *emitFunction(Node *n, FunctionType ftype) {
     }
 
     bool oldBreakBlock = breakBlock;
+    breakBlock = (ftype == FUN_TYPE_BLOCK);
     if (ftype == FUN_TYPE_BLOCK) {
         blockDepth++;
-        breakBlock = true;
     }
     eLoopType oldLoopType = curLoopType;
     curLoopType = LOOP_T_BLOCK;
@@ -1682,8 +1682,8 @@ static ObjFunction *emitFunction(Node *n, FunctionType ftype) {
     curLoopType = oldLoopType;
     if (ftype == FUN_TYPE_BLOCK) {
         blockDepth--;
-        breakBlock = oldBreakBlock;
     }
+    breakBlock = oldBreakBlock;
     popScope(stype);
     func = endCompiler();
     ASSERT(func->chunk);
-- 
2.43.0


From b3079d5fbb3717e880e49606e3babe932b14330a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:36 +0000
Subject: [PATCH 33/98] fix: a return at the top level of a script aborts the
 process

---
 compiler.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/compiler.c b/compiler.c
index 0ce38a6..d5e273e 100644
--- a/compiler.c
+++ b/compiler.c
@@ -2385,7 +2385,10 @@ static void emitNode(Node *n) {
         break;
     }
     case RETURN_STMT: {
-        if (n->children->length > 0) {
+        if (current->type == FUN_TYPE_TOP_LEVEL) { // ends the script
+            emitChildren(n);
+            emitLeave();
+        } else if (n->children->length > 0) {
             // always return instance in init function
             if (current->type == FUN_TYPE_INIT) {
                 emitOp0(OP_GET_THIS);
-- 
2.43.0


From df472bb6d247d521f4bdb515a64801e2707b1565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:08 +0000
Subject: [PATCH 34/98] fix: a block given to a function reads the wrong
 variables of the function it's in

---
 runtime.c | 21 +++++++++++++++------
 vm.c      |  2 +-
 vm.h      |  1 +
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/runtime.c b/runtime.c
index 2c51422..ef48738 100644
--- a/runtime.c
+++ b/runtime.c
@@ -318,8 +318,8 @@ static inline ObjClosure *closureFromFn(ObjFunction *func) {
     return newClosure(func, NEWOBJ_FLAG_NONE);
 }
 
-static inline CallFrame *getOuterClosureFrame() {
-    CallFrame *frame = getFrame()->prev;
+// first frame that isn't a native function's, starting at [frame]
+static inline CallFrame *closureFrameFrom(CallFrame *frame) {
     while (frame) {
         if (!frame->closure) {
             frame = frame->prev;
@@ -330,6 +330,10 @@ static inline CallFrame *getOuterClosureFrame() {
     return NULL;
 }
 
+static inline CallFrame *getOuterClosureFrame() {
+    return closureFrameFrom(getFrame()->prev);
+}
+
 static void fillClosureUpvalues(ObjClosure *block, ObjClosure *outer, CallFrame *frame) {
     ObjFunction *blockFn = block->function;
     ASSERT(blockFn);
@@ -346,6 +350,14 @@ static void fillClosureUpvalues(ObjClosure *block, ObjClosure *outer, CallFrame
     }
 }
 
+// [frame] is the frame, or a native function called by the frame, in which
+// the block was given.
+void fillBlockUpvalues(ObjClosure *block, CallFrame *frame) {
+    frame = closureFrameFrom(frame);
+    ASSERT(frame);
+    fillClosureUpvalues(block, frame->closure, frame);
+}
+
 static ObjClosure *getCFrameBlockClosure() {
     BlockStackEntry *bentry = vec_last_or(&THREAD()->v_blockStack, NULL);
     Obj *block = NULL;
@@ -382,10 +394,7 @@ Value lxYield(int argCount, Value *args) {
         ObjClosure *blockClosure = NULL;
         blockClosure = closureFromFn((ObjFunction*)block);
         blockClosure->isBlock = true;
-        CallFrame *outerFrame = getOuterClosureFrame();
-        ObjClosure *outerClosure = outerFrame->closure;
-        ASSERT(outerClosure);
-        fillClosureUpvalues(blockClosure, outerClosure, outerFrame);
+        fillBlockUpvalues(blockClosure, frame->prev); // not the frame that yields
         callable = OBJ_VAL(blockClosure);
         push(callable);
     } else if (frame->callInfo->blockInstance) {
diff --git a/vm.c b/vm.c
index 1b0c7e8..ceee665 100644
--- a/vm.c
+++ b/vm.c
@@ -1819,9 +1819,9 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
     }
 
     if (func->hasBlockArg && callInfo->blockFunction && IS_NIL(blockInstance)) {
-        // TODO: get closure created here with upvals!
         Value blockClosure = OBJ_VAL(newClosure(callInfo->blockFunction, NEWOBJ_FLAG_NONE));
         hideFromGC(AS_OBJ(blockClosure));
+        fillBlockUpvalues(AS_CLOSURE(blockClosure), getFrame());
         Obj *blkClosure = AS_OBJ(blockClosure);
         push(newBlock(blkClosure));
         unhideFromGC(AS_OBJ(blockClosure));
diff --git a/vm.h b/vm.h
index 8206695..12bb712 100644
--- a/vm.h
+++ b/vm.h
@@ -345,6 +345,7 @@ void popBlockEntry(BlockStackEntry *bentry);
 bool blockGiven(void);
 Value yieldBlock(int argCount, Value *args);
 Value yieldBlockCatch(int argCount, Value *args, Value *err);
+void fillBlockUpvalues(ObjClosure *block, CallFrame *frame);
 
 // calling functions/methods
 // low-level call function, arguments must be pushed to stack, including
-- 
2.43.0


From 590a4eba35bef55adb3bf90e21844495ca55527e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:49 +0000
Subject: [PATCH 35/98] fix: String#padRight writes to shared or frozen
 characters and never ends with empty padding

---
 string.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/string.c b/string.c
index 6b6ac1a..322e66d 100644
--- a/string.c
+++ b/string.c
@@ -256,6 +256,13 @@ static Value lxStringPadRight(int argCount, Value *args) {
     if (newLen <= oldLen) {
       return self;
     }
+    if (isFrozen((Obj*)selfStr)) {
+        throwErrorFmt(lxErrClass, "%s", "String is frozen, cannot modify");
+    }
+    if (padStr->length == 0) {
+        throwArgErrorFmt("%s", "String#padRight: padding can't be empty");
+    }
+    dedupString(selfStr);
     int bytesToPad = newLen - oldLen;
     while (bytesToPad > 0) {
       pushCString(selfStr, padStr->chars, 1);
-- 
2.43.0


From 149e0831026a6aae5fb014c819ca0bc19e46636d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:49 +0000
Subject: [PATCH 36/98] fix: a value assigned to a closed upvalue is freed by a
 young collection

---
 vm.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vm.c b/vm.c
index ceee665..c6e6d73 100644
--- a/vm.c
+++ b/vm.c
@@ -2188,6 +2188,7 @@ static void closeUpvalues(Value *last) {
         // Copy the value into the upvalue itself and point the upvalue to it.
         upvalue->closed = *upvalue->value;
         upvalue->value = &upvalue->closed;
+        OBJ_WRITE(OBJ_VAL(upvalue), upvalue->closed);
 
         // Pop it off the open upvalue list.
         th->openUpvalues = upvalue->next;
@@ -2690,7 +2691,9 @@ timeSliceDone:
           bytecode_t slot = READ_WORD();
           bytecode_t varName = READ_WORD(); // for debugging
           (void)varName;
-          *frame->closure->upvalues[slot]->value = peek(0);
+          ObjUpvalue *upvalue = frame->closure->upvalues[slot];
+          *upvalue->value = peek(0);
+          OBJ_WRITE(OBJ_VAL(upvalue), peek(0));
           DISPATCH_BOTTOM();
       }
       CASE_OP(CLOSE_UPVALUE): {
-- 
2.43.0


From dbf10d9ceb8266638a9b1f2768c68af8856e7c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:58 +0000
Subject: [PATCH 37/98] fix: File.readLines allocates without the GVL and
 mishandles lines across chunks

---
 file.c | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/file.c b/file.c
index fe440c6..80fb792 100644
--- a/file.c
+++ b/file.c
@@ -144,38 +144,31 @@ static Value lxFileReadLinesStatic(int argCount, Value *args) {
     FILE *f = checkFopen(fnameStr->chars, "r");
     Value ary = newArray();
     size_t nread = 0;
-    releaseGVL(THREAD_STOPPED);
     Value line = NIL_VAL;
     bool leftoverLine = false;
     char fileReadBuf[READBUF_SZ];
-    while ((nread = fread(fileReadBuf, 1, sizeof(fileReadBuf), f)) > 0) {
+    while (true) {
+        // NOTE: objects can only be allocated while holding the GVL
+        releaseGVL(THREAD_STOPPED);
+        nread = fread(fileReadBuf, 1, sizeof(fileReadBuf), f);
+        acquireGVL();
+        if (nread == 0) break;
         size_t nleft = nread;
         char *bufp = fileReadBuf;
-        char *bufpStart = bufp;
-        while (nleft > 0 && *bufp) {
-            while (*bufp != '\0' && *bufp != '\n') {
-                bufp++;
-                if (nleft == 0) break;
-            }
-            if (*bufp == '\n') bufp++;
-            size_t len = bufp - bufpStart;
+        while (nleft > 0) {
+            char *nl = memchr(bufp, '\n', nleft);
+            size_t len = nl ? (size_t)(nl-bufp)+1 : nleft;
             if (leftoverLine) {
-                pushCString(AS_STRING(line), bufpStart, len);
-                leftoverLine = false;
+                pushCString(AS_STRING(line), bufp, len);
             } else {
-                line = OBJ_VAL(copyString(bufpStart, len, NEWOBJ_FLAG_NONE));
+                line = OBJ_VAL(copyString(bufp, len, NEWOBJ_FLAG_NONE));
                 arrayPush(ary, line);
             }
+            leftoverLine = (nl == NULL); // rest of the line is in the next chunk
+            bufp += len;
             nleft -= len;
-            if (!*bufp) {
-                ASSERT(nleft == 0);
-                leftoverLine = true;
-                break; // read more data, reached end of buffer
-            }
-            bufpStart = bufp;
         }
     }
-    acquireGVL();
     checkFerror(f, "reading", fnameStr->chars);
     checkFclose(f);
     return ary;
-- 
2.43.0


From 9f355e9ae728d2613cbd81580a3ba4ba55aa9f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:58 +0000
Subject: [PATCH 38/98] fix: Array#pushFront moves only the first element and
 loses others

---
 value.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value.c b/value.c
index 1958653..e6081bf 100644
--- a/value.c
+++ b/value.c
@@ -57,7 +57,7 @@ void writeValueArrayBeg(ValueArray *array, Value value) {
 
     Value *dest = array->values+1;
     Value *src = array->values;
-    memmove(dest, src, sizeof(Value));
+    memmove(dest, src, sizeof(Value)*array->count);
     array->values[0] = value;
     array->count++;
 }
-- 
2.43.0


From 05b54d27f76721c3353cd7f317754c7a456c5f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:58 +0000
Subject: [PATCH 39/98] fix: syntax nodes of a finished script are freed while
 its functions still use them

---
 compiler.c | 1 +
 memory.c   | 3 ++-
 object.c   | 1 +
 object.h   | 1 +
 4 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/compiler.c b/compiler.c
index d5e273e..75fb1ec 100644
--- a/compiler.c
+++ b/compiler.c
@@ -1602,6 +1602,7 @@ static ObjFunction *emitFunction(Node *n, FunctionType ftype) {
     ObjFunction *func = fCompiler.function;
     ASSERT(func);
     func->funcNode = n;
+    top->function->hasInnerFuncs = true;
 
     vec_nodep_t *params = (vec_nodep_t*)nodeGetData(n);
     ASSERT(params);
diff --git a/memory.c b/memory.c
index 305b32e..909416f 100644
--- a/memory.c
+++ b/memory.c
@@ -991,7 +991,8 @@ void freeObject(Obj *obj) {
             vec_deinit(&func->scopes);
             vec_deinit(&func->variables);
             FREE_SIZE(sizeof(Upvalue)*LX_MAX_UPVALUES, func->upvaluesInfo);
-            if (func->programNode) {
+            // inner functions keep using their nodes (funcNode) when called
+            if (func->programNode && !func->hasInnerFuncs) {
                 freeNode(func->programNode, true);
             }
             GC_TRACE_DEBUG(5, "Freeing ObjFunction: p=%p", obj);
diff --git a/object.c b/object.c
index dc1f4ad..5074770 100644
--- a/object.c
+++ b/object.c
@@ -283,6 +283,7 @@ ObjFunction *newFunction(Chunk *chunk, struct sNode *funcNode, FunctionType ftyp
     function->klass = NULL;
     function->funcNode = funcNode;
     function->programNode = NULL;
+    function->hasInnerFuncs = false;
     function->isSingletonMethod = false;
     function->hasRestArg = false;
     function->hasBlockArg = false;
diff --git a/object.h b/object.h
index f10fb2a..d5e8f39 100644
--- a/object.h
+++ b/object.h
@@ -138,6 +138,7 @@ typedef struct ObjFunction {
   Obj *klass; // ObjClass* or ObjModule* (if method)
   struct sNode *funcNode;
   struct sNode *programNode;
+  bool hasInnerFuncs; // (top-level) functions compiled from nodes of programNode, these outlive this function
   struct Upvalue *upvaluesInfo;
   unsigned short arity; // number of required args
   unsigned short numDefaultArgs; // number of optional default args
-- 
2.43.0


From b5767f2dc69f0796f027430e6ae43c4a6ccc58ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:41 +0000
Subject: [PATCH 40/98] fix: finalizers run in the middle of an allocation, and
 what they keep is freed

---
 memory.c  | 152 +++++++++++++++++++++++++++++++-----------------------
 memory.h  |   1 +
 runtime.c |   1 +
 thread.c  |   5 ++
 vm.h      |   3 ++
 5 files changed, 97 insertions(+), 65 deletions(-)

diff --git a/memory.c b/memory.c
index 909416f..397fa9c 100644
--- a/memory.c
+++ b/memory.c
@@ -75,6 +75,8 @@ static void stopGCRunProfileTimer(struct timeval *timeStart, struct timeval *tou
 
 struct sGCStats GCStats;
 int activeFinalizers = 0;
+// Unreachable objects whose finalizers have yet to be called, see runFinalizers()
+static vec_void_t finalizeQueue;
 
 static void printGenerationInfo() {
     fprintf(stderr, "Generation info:\n");
@@ -394,6 +396,11 @@ void collectYoungGarbage() {
         grayValue(*scriptName);
     }
 
+    Obj *finObj = NULL; int finIdx = 0;
+    vec_foreach(&finalizeQueue, finObj, finIdx) {
+        grayObject(finObj);
+    }
+
     GC_TRACE_DEBUG(2, "Marking VM frame functions");
     // gray active function closure objects
     /*int numOpenUpsFound = 0;*/
@@ -1185,14 +1192,53 @@ static bool hasFinalizer(Obj *obj) {
 static void callFinalizer(Obj *obj) {
     ObjInstance *instance = (ObjInstance*)obj;
     Value instanceVal = OBJ_VAL(obj);
+    Value callable = OBJ_VAL(instance->finalizerFunc);
     GC_TRACE_DEBUG(3, "Calling finalizer");
-    inGC = false; // so we can allocate objects in the function
-    dontGC = true;
-    callFunctionValue(OBJ_VAL(instance->finalizerFunc), 1, &instanceVal);
-    inGC = true;
-    dontGC = false;
     instance->finalizerFunc = NULL;
     activeFinalizers--;
+    callFunctionValue(callable, 1, &instanceVal);
+}
+
+// Finalizers can't be called during a collection, as it can start at any
+// allocation. They're called when the thread next checks its interrupts.
+void runFinalizers(void) {
+    while (finalizeQueue.length > 0) {
+        Obj *obj = vec_first(&finalizeQueue);
+        vec_splice(&finalizeQueue, 0, 1);
+        if (hasFinalizer(obj)) callFinalizer(obj);
+    }
+}
+
+static void blackenGrayObjects(void) {
+    while (vm.grayCount > 0) {
+        // Pop an item from the gray stack.
+        Obj *marked = vm.grayStack[--vm.grayCount];
+        DBG_ASSERT(marked);
+        blackenObject(marked);
+    }
+}
+
+static void queueFinalizers(void) {
+    for (int i = 0; i < heapsUsed; i++) {
+        ObjAny *p = heapList[i];
+        ObjAny *pend = p + HEAP_SLOTS;
+        for (; p < pend; p++) {
+            Obj *obj = (Obj*)p;
+            if (obj->type == OBJ_T_NONE || OBJ_IS_DARK(obj) || OBJ_IS_HIDDEN(obj)) continue;
+            if (UNLIKELY(hasFinalizer(obj))) {
+                ASSERT(((ObjInstance*) obj)->finalizerFunc->type != OBJ_T_NONE);
+                vec_push(&finalizeQueue, obj);
+            }
+        }
+    }
+    // only now, the object of one finalizer can be reachable from another one
+    Obj *finObj = NULL; int finIdx = 0;
+    vec_foreach(&finalizeQueue, finObj, finIdx) {
+        grayObject(finObj);
+    }
+    if (finalizeQueue.length > 0 && vm.curThread) {
+        SET_FINALIZERS_INTERRUPT(vm.curThread);
+    }
 }
 
 // Full collection single-phase mark and sweep
@@ -1298,6 +1344,11 @@ void collectGarbage(void) {
         grayValue(*scriptName);
     }
 
+    Obj *finObj = NULL; int finIdx = 0;
+    vec_foreach(&finalizeQueue, finObj, finIdx) {
+        grayObject(finObj);
+    }
+
     GC_TRACE_DEBUG(2, "Marking VM frame functions");
     // gray active function closure objects
     VMExecContext *ctx = NULL; int ctxIdx = 0;
@@ -1408,11 +1459,12 @@ void collectGarbage(void) {
 
     GC_TRACE_DEBUG(2, "Blackening marked references");
     // traverse the references, graying them all
-    while (vm.grayCount > 0) {
-        // Pop an item from the gray stack.
-        Obj *marked = vm.grayStack[--vm.grayCount];
-        DBG_ASSERT(marked);
-        blackenObject(marked);
+    blackenGrayObjects();
+    // Unreachable objects with finalizers (and everything reachable from
+    // them) are kept until their finalizers are called.
+    if (activeFinalizers > 0) {
+        queueFinalizers();
+        blackenGrayObjects();
     }
     GC_TRACE_DEBUG(3, "Done blackening references");
 
@@ -1425,18 +1477,12 @@ void collectGarbage(void) {
 
     ObjAny *p, *pend;
 
-    int phase = 1; // call finalizers in phase 1
     vec_void_t vFreeHeaps;
     vec_init(&vFreeHeaps);
-    freeList = NULL; // build up a new free list in phase 2
-    if (activeFinalizers == 0) {
-        phase = 2;
-    }
+    freeList = NULL; // build up a new free list
     bool hasOtherFreeishHeap = false;
-freeLoop:
     for (int i = 0; i < heapsUsed; i++) {
-        ObjAny *newFreeList = NULL;
-        if (phase == 2) newFreeList = freeList;
+        ObjAny *newFreeList = freeList;
         p = heapList[i];
         if (UNLIKELY(!p)) {
             fprintf(stderr, "NULL heap page? %p, i=%d, heapsUsed: %d, heapListSize: %d\n", p, i, heapsUsed, heapListSize);
@@ -1448,65 +1494,39 @@ freeLoop:
         while (p < pend) {
             Obj *obj = (Obj*)p;
             if (obj->type == OBJ_T_NONE) {
-                if (phase == 2) objectsFree++;
+                objectsFree++;
                 p++;
                 continue;
             }
 
-            int rootedCStack = -1;
-            vec_find(&v_stackObjs, obj, rootedCStack);
-            if (!OBJ_IS_DARK(obj) && !OBJ_IS_HIDDEN(obj)) {
-                if (phase == 2) { // phase 2, reclaim unmarked objects
-                    if (rootedCStack == -1) {
-                        numObjectsFreed++;
-                        obj->nextFree = newFreeList;
-                        freeObject(obj);
-                        newFreeList = p;
-                        numObjectsFreed++;
-                    } else {
-                        GC_TRACE_DEBUG(4, "Skipped freeing stack object: p=%p", obj);
-                    }
-                } else { // phase 1, call finalizers
-                    ASSERT(phase == 1);
-                    if (rootedCStack == -1) {
-                        if (UNLIKELY(hasFinalizer(obj))) {
-                            ASSERT(((ObjInstance*) obj)->finalizerFunc->type != OBJ_T_NONE);
-                            callFinalizer(obj);
-                            if (activeFinalizers == 0) {
-                                phase = 2; i = 0;
-                                goto freeLoop;
-                            }
-                        }
-                    }
+            if (!OBJ_IS_DARK(obj) && !OBJ_IS_HIDDEN(obj)) { // reclaim unmarked objects
+                int rootedCStack = -1;
+                vec_find(&v_stackObjs, obj, rootedCStack);
+                if (rootedCStack == -1) {
+                    numObjectsFreed++;
+                    obj->nextFree = newFreeList;
+                    freeObject(obj);
+                    newFreeList = p;
+                    numObjectsFreed++;
+                } else {
+                    GC_TRACE_DEBUG(4, "Skipped freeing stack object: p=%p", obj);
                 }
             } else if (OBJ_IS_HIDDEN(obj) && !OBJ_IS_DARK(obj)) { // keep
-                if (phase == 2) {
-                    numObjectsHiddenNotMarked++;
-                }
+                numObjectsHiddenNotMarked++;
             } else { // unmark for next run
-                if (phase == 2) {
-                    GCPromoteOnce(obj);
-                    OBJ_UNSET_DARK(obj);
-                    numObjectsKept++;
-                }
+                GCPromoteOnce(obj);
+                OBJ_UNSET_DARK(obj);
+                numObjectsKept++;
             }
             p++;
         }
 
-        if (phase == 2) {
-            freeList = newFreeList;
-            if (objectsFree == HEAP_SLOTS) {
-                vec_push(&vFreeHeaps, heapList[i]);
-            } else if (objectsFree >= (HEAP_SLOTS/2)) {
-                hasOtherFreeishHeap = true;
-            }
+        freeList = newFreeList;
+        if (objectsFree == HEAP_SLOTS) {
+            vec_push(&vFreeHeaps, heapList[i]);
+        } else if (objectsFree >= (HEAP_SLOTS/2)) {
+            hasOtherFreeishHeap = true;
         }
-
-    }
-    if (phase == 1) {
-        phase = 2; i = 0;
-        freeList = NULL;
-        goto freeLoop;
     }
 
     bool freedHeap = false;
@@ -1589,7 +1609,9 @@ freeLoop:
             } else { // phase 1
                 if (hasFinalizer(obj)) {
                     ASSERT(((ObjInstance*) obj)->finalizerFunc->type != OBJ_T_NONE);
+                    dontGC = true;
                     callFinalizer(obj);
+                    dontGC = false;
                     if (activeFinalizers == 0) {
                         phase = 2; i = 0;
                         goto freeLoop;
diff --git a/memory.h b/memory.h
index 26ead31..192298f 100644
--- a/memory.h
+++ b/memory.h
@@ -104,6 +104,7 @@ extern bool inFullGC;
 extern bool inFinalFree;
 
 bool isInGC(void);
+void runFinalizers(void);
 bool turnGCOff(void);
 bool turnGCOn(void);
 void setGCOnOff(bool turnOn);
diff --git a/runtime.c b/runtime.c
index ef48738..b96d4aa 100644
--- a/runtime.c
+++ b/runtime.c
@@ -1340,6 +1340,7 @@ Value lxGCCollect(int argCount, Value *args) {
     bool prevOn = turnGCOn();
     collectGarbage();
     setGCOnOff(prevOn);
+    runFinalizers();
     return NIL_VAL;
 }
 
diff --git a/thread.c b/thread.c
index c614de8..d72bcbb 100644
--- a/thread.c
+++ b/thread.c
@@ -28,6 +28,8 @@ static int threadGetInterrupt(LxThread *th) {
         return INTERRUPT_TRAP;
     } else if (th->interruptFlags & INTERRUPT_GENERAL) {
         return INTERRUPT_GENERAL;
+    } else if (th->interruptFlags & INTERRUPT_FINALIZERS) {
+        return INTERRUPT_FINALIZERS;
     } else {
         return INTERRUPT_NONE;
     }
@@ -65,6 +67,9 @@ void threadExecuteInterrupts(LxThread *th) {
             while ((sig = getSignal()) != -1) {
                 (void)execSignal(th, sig); // ignored if there's no handler
             }
+        } else if (interrupt == INTERRUPT_FINALIZERS) {
+            UNSET_INTERRUPT(th, interrupt);
+            runFinalizers();
         } else if (interrupt == INTERRUPT_GENERAL) { // sent 'exit' interrupt to living thread
             THREAD_DEBUG(1, "Thread %lu got exit interrupt, exiting", th->tid);
             ASSERT(th != vm.mainThread);
diff --git a/vm.h b/vm.h
index 12bb712..404a0e3 100644
--- a/vm.h
+++ b/vm.h
@@ -126,6 +126,9 @@ typedef struct BlockStackEntry {
 #define INTERRUPT_TRAP 2
 #define SET_TRAP_INTERRUPT(th) ((void)__atomic_or_fetch(&th->interruptFlags, INTERRUPT_TRAP, __ATOMIC_SEQ_CST))
 #define SET_INTERRUPT(th) ((void)__atomic_or_fetch(&th->interruptFlags, INTERRUPT_GENERAL, __ATOMIC_SEQ_CST))
+// unreachable objects have finalizers to call
+#define INTERRUPT_FINALIZERS 4
+#define SET_FINALIZERS_INTERRUPT(th) ((void)__atomic_or_fetch(&th->interruptFlags, INTERRUPT_FINALIZERS, __ATOMIC_SEQ_CST))
 #define UNSET_INTERRUPT(th, flag) ((void)__atomic_and_fetch(&th->interruptFlags, ~(flag), __ATOMIC_SEQ_CST))
 #define INTERRUPTED_ANY(th) (th->interruptFlags != INTERRUPT_NONE)
 typedef struct LxThread {
-- 
2.43.0


From 2148a4646396dc9db97a87bb1362d74c8ebb16a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:41 +0000
Subject: [PATCH 41/98] fix: values returned to native functions are freed by a
 collection

---
 regex.c |  2 ++
 vm.c    | 22 +++++++++++++++++-----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/regex.c b/regex.c
index 79fea0a..c9b9d17 100644
--- a/regex.c
+++ b/regex.c
@@ -46,6 +46,7 @@ static LxMatchData *getMatchData(Value self) {
 static void matchDataSetRegex(Value md, Value regex) {
   LxMatchData *lmd = getMatchData(md);
   lmd->re = AS_REGEX(regex);
+  OBJ_WRITE(md, regex);
 }
 
 static void matchDataPopulateCaptures(Value md) {
@@ -65,6 +66,7 @@ static void matchDataPopulateCaptures(Value md) {
         gn = gn->next;
     }
     lmd->captures = captures;
+    OBJ_WRITE(md, captures);
 }
 
 static Value lxRegexMatch(int argCount, Value *args) {
diff --git a/vm.c b/vm.c
index c6e6d73..dc1c3df 100644
--- a/vm.c
+++ b/vm.c
@@ -1265,6 +1265,18 @@ Value callVMMethod(ObjInstance *instance, Value callable, int argCount, Value *a
     return peek(0);
 }
 
+// Pop the value returned by a call made from a native function, and keep it
+// from being collected until that native function returns.
+static Value popReturnedToNative(void) {
+    Value ret = pop();
+    LxThread *th = vm.curThread;
+    if (IS_OBJ(ret) && th->inCCall > 0 &&
+            (Obj*)vec_last_or(&th->stackObjects, NULL) != AS_OBJ(ret)) {
+        vec_push(&th->stackObjects, AS_OBJ(ret));
+    }
+    return ret;
+}
+
 Value callMethod(Obj *obj, ObjString *methodName, int argCount, Value *args, CallInfo *cinfo) {
     if (obj->type == OBJ_T_INSTANCE || obj->type == OBJ_T_ARRAY || obj->type == OBJ_T_STRING || obj->type == OBJ_T_MAP || obj->type == OBJ_T_REGEX) {
         ObjInstance *instance = (ObjInstance*)obj;
@@ -1279,7 +1291,7 @@ Value callMethod(Obj *obj, ObjString *methodName, int argCount, Value *args, Cal
             throwErrorFmt(lxErrClass, "instance method '%s#%s' not found", classStr, methodName->chars);
         }
         callVMMethod(instance, OBJ_VAL(callable), argCount, args, cinfo);
-        return pop();
+        return popReturnedToNative();
     } else if (obj->type == OBJ_T_CLASS) {
         ObjClass *klass = (ObjClass*)obj;
         Obj *callable = classFindStaticMethod(klass, methodName);
@@ -1293,7 +1305,7 @@ Value callMethod(Obj *obj, ObjString *methodName, int argCount, Value *args, Cal
             throwErrorFmt(lxErrClass, "class method '%s.%s' not found", classStr, methodName->chars);
         }
         callVMMethod((ObjInstance*)klass, OBJ_VAL(callable), argCount, args, cinfo);
-        return pop();
+        return popReturnedToNative();
     } else if (obj->type == OBJ_T_MODULE) {
         ObjModule *mod = (ObjModule*)obj;
         Obj *callable = classFindStaticMethod((ObjClass*)mod, methodName);
@@ -1304,7 +1316,7 @@ Value callMethod(Obj *obj, ObjString *methodName, int argCount, Value *args, Cal
             throwErrorFmt(lxErrClass, "module method '%s.%s' not found", modStr, methodName->chars);
         }
         callVMMethod((ObjInstance*)mod, OBJ_VAL(callable), argCount, args, cinfo);
-        return pop();
+        return popReturnedToNative();
     } else {
         throwErrorFmt(lxTypeErrClass, "Tried to invoke method '%s' on non-instance (type=%s)", methodName->chars, typeOfObj(obj));
     }
@@ -1317,7 +1329,7 @@ Value callFunctionValue(Value callable, int argCount, Value *args) {
         push(args[i]);
     }
     callCallable(callable, argCount, false, NULL);
-    return pop();
+    return popReturnedToNative();
 }
 
 static void unwindErrInfo(CallFrame *frame) {
@@ -1950,7 +1962,7 @@ Value callSuper(int argCount, Value *args, CallInfo *cinfo) {
             throwErrorFmt(lxErrClass, "No super method found for callSuper");
         }
         callVMMethod(frame->instance, OBJ_VAL(superMethod), argCount, args, cinfo);
-        return pop();
+        return popReturnedToNative();
     } else {
         UNREACHABLE("bug: class type: %s", objTypeName(klass->type));
     }
-- 
2.43.0


From 96904c4284ab99cd2f956fbc7e0ffe9cd75fc6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:32 +0000
Subject: [PATCH 42/98] fix: map entries and names of methods set at run time
 are freed by a collection

---
 binding.c |  2 ++
 runtime.c | 10 +++++++---
 table.c   | 43 +++++++++++++++++++++----------------------
 vm.c      | 11 +++++++----
 4 files changed, 37 insertions(+), 29 deletions(-)

diff --git a/binding.c b/binding.c
index 289937a..49b359a 100644
--- a/binding.c
+++ b/binding.c
@@ -78,6 +78,8 @@ static Value lxBindingLocalVariables(int argCount, Value *args) {
     TABLE_FOREACH(&func->localsTable, e, idx, {
         int slot = AS_NUMBER(e.value);
         mapSet(ret, e.key, binding->scope->localsTable.tbl[slot]);
+        OBJ_WRITE(ret, e.key);
+        OBJ_WRITE(ret, binding->scope->localsTable.tbl[slot]);
     });
     return ret;
 }
diff --git a/runtime.c b/runtime.c
index b96d4aa..5799964 100644
--- a/runtime.c
+++ b/runtime.c
@@ -923,7 +923,7 @@ Value lxObjectSetProperty(int argCount, Value *args) {
     Value propName = args[1];
     Value propVal = args[2];
     CHECK_ARG_IS_A(propName, lxStringClass, 1);
-    propertySet(AS_INSTANCE(self), AS_STRING(propName), propVal);
+    propertySet(AS_INSTANCE(self), INTERN(AS_CSTRING(propName)), propVal);
     return propVal;
 }
 
@@ -993,6 +993,7 @@ Value lxModuleInit(int argCount, Value *args) {
     ASSERT(CLASSINFO(mod)->name == NULL);
     ObjString *nameCpy = dupString(nameStr);
     CLASSINFO(mod)->name = nameCpy;
+    OBJ_WRITE(self, OBJ_VAL(nameCpy));
     return self;
 }
 
@@ -1034,6 +1035,9 @@ Value lxClassInit(int argCount, Value *args) {
         superClass = AS_CLASS(args[2]);
     }
     CLASSINFO(klass)->name = name;
+    if (name) {
+        OBJ_WRITE(OBJ_VAL(klass), OBJ_VAL(name));
+    }
     CLASSINFO(klass)->superclass = (Obj*)superClass;
     if (superClass) {
         OBJ_WRITE(OBJ_VAL(klass), OBJ_VAL(superClass));
@@ -1164,7 +1168,7 @@ Value lxClassAliasMethod(int argCount, Value *args) {
     if (!method) {
         throwErrorFmt(lxArgErrClass, "Method '%s' not found for aliasMethod", AS_CSTRING(oldName));
     }
-    defineMethod(klass, AS_STRING(newName), OBJ_VAL(method));
+    defineMethod(klass, INTERN(AS_CSTRING(newName)), OBJ_VAL(method));
     return NIL_VAL;
 }
 
@@ -1195,7 +1199,7 @@ Value lxClassDefineMethod(int argCount, Value *args) {
     if (!isCallable(func)) {
         throwErrorFmt(lxArgErrClass, "Method must be a callable");
     }
-    defineMethod(self, AS_STRING(name), func);
+    defineMethod(self, INTERN(AS_CSTRING(name)), func);
     return self;
 }
 
diff --git a/table.c b/table.c
index fd83380..5342793 100644
--- a/table.c
+++ b/table.c
@@ -95,7 +95,9 @@ static void resize(Table *table, int capacityMask) {
         memcpy(entries+i, &TBL_EMPTY_ENTRY, sizeof(Entry));
     }
 
-    table->count = 0;
+    // NOTE: the hashKey() methods called by findEntry() can start a collection,
+    // which needs table->count and table->entries as they were
+    int count = 0;
     for (int i = 0; i <= table->capacityMask; i++) {
         Entry *entry = &table->entries[i];
         if (IS_UNDEF(entry->key)) continue;
@@ -104,7 +106,7 @@ static void resize(Table *table, int capacityMask) {
         Entry *dest = &entries[index];
         dest->key = entry->key;
         dest->value = entry->value;
-        table->count++;
+        count++;
     }
 
     /*fprintf(stderr, "/Resize freearray\n");*/
@@ -112,6 +114,7 @@ static void resize(Table *table, int capacityMask) {
     /*fprintf(stderr, "/Resize freearray\n");*/
     table->entries = entries;
     table->capacityMask = capacityMask;
+    table->count = count;
     /*fprintf(stderr, "/Resize\n");*/
 }
 
@@ -143,28 +146,24 @@ bool tableDelete(Table* table, Value key) {
     Entry *entry = &table->entries[index];
     if (IS_UNDEF(entry->key)) return false;
 
-    // Remove the entry.
-    entry->key = TBL_EMPTY_KEY;
-    entry->value = NIL_VAL;
-    table->count--;
-
-    // Later entries may have been pushed past this one and may need to be pushed
-    // up to fill the hole. The simplest way to handle that is to just re-add
-    // them all until we hit an empty entry.
+    // Later entries may have been pushed past this one and may need to be
+    // moved up to fill the hole. Entries stay in the table while valHash()
+    // calls their hashKey() methods, so that they're not collected.
+    uint32_t next = index;
     for (;;) {
-        index = (index + 1) & table->capacityMask;
-        entry = &table->entries[index];
-
-        if (IS_UNDEF(entry->key)) break;
-
-        Value tempKey = entry->key;
-        Value tempValue = entry->value;
-        entry->key = TBL_EMPTY_KEY;
-        entry->value = NIL_VAL;
-        table->count--;
-
-        tableSet(table, tempKey, tempValue);
+        next = (next + 1) & table->capacityMask;
+        if (IS_UNDEF(table->entries[next].key)) break;
+
+        uint32_t wanted = valHash(table->entries[next].key) & table->capacityMask;
+        bool reachable = index <= next ? (index < wanted && wanted <= next) :
+            (index < wanted || wanted <= next);
+        if (reachable) continue; // not found through the hole
+        table->entries[index] = table->entries[next];
+        index = next;
     }
+    table->entries[index].key = TBL_EMPTY_KEY;
+    table->entries[index].value = NIL_VAL;
+    table->count--;
 
     return true;
 }
diff --git a/vm.c b/vm.c
index dc1c3df..c665f7e 100644
--- a/vm.c
+++ b/vm.c
@@ -1721,7 +1721,9 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
                     ObjString *kwStr = INTERN(kwname);
                     // keyword argument given, is on stack, we pop it off
                     if (strcmp(kwname, tokStr(callInfo->kwargNames+i)) == 0) {
-                        mapSet(kwargsMap, OBJ_VAL(kwStr), pop());
+                        mapSet(kwargsMap, OBJ_VAL(kwStr), peek(0));
+                        OBJ_WRITE(kwargsMap, peek(0));
+                        pop();
                     }
                     // when keyword argument not given, we need to add UNDEF_VAL to
                     // stack later
@@ -3406,11 +3408,12 @@ find_instance_method:
           hideFromGC(AS_OBJ(mapVal));
           Table *map = AS_MAP(mapVal)->table;
           for (int i = 0; i < (int)numKeyVals; i+=2) {
-              Value key = VM_POP();
-              Value val = VM_POP();
-              tableSet(map, key, val);
+              Value key = VM_PEEK(0);
+              Value val = VM_PEEK(1);
+              tableSet(map, key, val); // can call hashKey() methods
               OBJ_WRITE(mapVal, key);
               OBJ_WRITE(mapVal, val);
+              VM_POPN(2);
           }
           VM_PUSH(mapVal);
           unhideFromGC(AS_OBJ(mapVal));
-- 
2.43.0


From 031e940d03b3d8a63828928ab6d8960c8b5673c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:43 +0000
Subject: [PATCH 43/98] fix: names of keyword arguments in calls are read from
 another script's source

---
 compiler.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compiler.c b/compiler.c
index 75fb1ec..2cd91ab 100644
--- a/compiler.c
+++ b/compiler.c
@@ -1544,6 +1544,7 @@ static CallInfo *emitCall(Node *n) {
         i = 0; int idx = 0;
         vec_foreach(n->children, arg, i) {
             if (arg->type.kind == KWARG_IN_CALL_STMT) {
+                (void)tokStr(&arg->tok); // the scanner's source is another one at run time
                 callInfoData->kwargNames[idx] = arg->tok;
                 idx++;
             }
@@ -1576,6 +1577,7 @@ static CallInfo *emitCall(Node *n) {
         i = 0; int idx = 0;
         vec_foreach(n->children, arg, i) {
             if (arg->type.kind == KWARG_IN_CALL_STMT) {
+                (void)tokStr(&arg->tok); // the scanner's source is another one at run time
                 callInfoData->kwargNames[idx] = arg->tok;
                 idx++;
             }
-- 
2.43.0


From 9ecf0840ba2dc06ee25ddd768c7f87d0d8f2d2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:33 +0000
Subject: [PATCH 44/98] fix: the end of an eval overwrites the first local of
 the calling function on the stack

---
 vm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vm.c b/vm.c
index c665f7e..d658037 100644
--- a/vm.c
+++ b/vm.c
@@ -3109,7 +3109,8 @@ find_instance_method:
           ASSERT(!getFrame()->isCCall);
           Value *newTop = getFrame()->slots;
           if (getFrame()->isEval) {
-            newTop = getFrame()->slots+1;
+            // the slots are the locals of the function that called eval()
+            newTop = EC->stackTop;
           }
           popFrame();
           EC->stackTop = newTop;
-- 
2.43.0


From 58780a5ecb6038176b0077ba79e96e777bfbc5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:29 +0000
Subject: [PATCH 45/98] fix: a collection crashes when a MatchData with
 captures is alive

---
 regex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regex.c b/regex.c
index c9b9d17..2cbedc4 100644
--- a/regex.c
+++ b/regex.c
@@ -106,7 +106,7 @@ static void markInternalMatchData(Obj *obj) {
         grayObject(TO_OBJ(md->re));
     }
     if (md->captures != NIL_VAL) {
-        grayObject(TO_OBJ(md->captures));
+        grayValue(md->captures);
     }
 }
 
-- 
2.43.0


From 41f82158ed8a8f3fddca88a5267d53df66970306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:07 +0000
Subject: [PATCH 46/98] fix: threads that haven't run yet run with freed data
 when the process exits

---
 thread.c |  1 +
 vm.c     | 18 +++++++++++++-----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/thread.c b/thread.c
index d72bcbb..6bc7e08 100644
--- a/thread.c
+++ b/thread.c
@@ -338,6 +338,7 @@ Value lxNewThread(int argCount, Value *args) {
         }
         return OBJ_VAL(threadInst);
     } else {
+        th->status = THREAD_ZOMBIE; // it will never run
         acquireGVL();
         THREAD_DEBUG(2, "Error making new thread, throwing\n");
         // TODO: throw lxThreadErrClass
diff --git a/vm.c b/vm.c
index d658037..0734e35 100644
--- a/vm.c
+++ b/vm.c
@@ -604,10 +604,14 @@ void freeVM(void) {
     while (THREAD()->ec) { pop_EC(); }
 
     THREAD_DEBUG(1, "VM lock destroying... # threads: %d, # waiters: %d", vm.threads.length, vm.GVLWaiters);
-    releaseGVL(THREAD_ZOMBIE);
-    if (vm.numDetachedThreads <= 0) {
-        pthread_mutex_destroy(&vm.GVLock);
-        pthread_cond_destroy(&vm.GVLCond);
+    // When the process is exiting the lock is kept: a thread that still waits
+    // for it would run with freed data.
+    if (!vm.exiting) {
+        releaseGVL(THREAD_ZOMBIE);
+        if (vm.numDetachedThreads <= 0) {
+            pthread_mutex_destroy(&vm.GVLock);
+            pthread_cond_destroy(&vm.GVLCond);
+        }
     }
     vm.GVLWaiters = 0;
 
@@ -3877,10 +3881,14 @@ void terminateThreads() {
         vec_foreach(&vm.threads, threadInst, tidx) {
             LxThread *th = (LxThread*)threadInst->internal->data;
             if (th == vm.mainThread || th->status == THREAD_ZOMBIE) continue;
-            if (th->tid <= 0) continue;
             if (th->status == THREAD_READY) {
                 numReadyFound++;
+                if (th->tid <= 0) { // created, but didn't get to run yet
+                    found++;
+                    continue;
+                }
             }
+            if (th->tid <= 0) continue;
             THREAD_DEBUG(2, "Unjoined thread found (idx=%d): %lu: %s", tidx, th->tid, threadStatusName(th->status));
             found++;
             if (vm.numLivingThreads <= 1 && numReadyFound == 0) break;
-- 
2.43.0


From 939ff762c65d984dac3fc5da52327f95e3c96646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:08 +0000
Subject: [PATCH 47/98] fix: constant lookup crashes in methods of a class that
 includes a module

---
 runtime.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/runtime.c b/runtime.c
index 5799964..3b2e7f3 100644
--- a/runtime.c
+++ b/runtime.c
@@ -113,6 +113,14 @@ void addConstantUnder(const char *name, Value constVal, Value owner) {
 
 // NOTE: `klass` can be NULL, in which case only `vm.constants` is checked.
 // Also, `name` can be a qualified constant, ex: `My::Error`.
+// constants of a class, module or included module
+static Table *classConstants(ObjClass *klass) {
+    if (TO_OBJ(klass)->type == OBJ_T_ICLASS) {
+        return CLASSINFO(((ObjIClass*)klass)->mod)->constants;
+    }
+    return CLASSINFO(klass)->constants;
+}
+
 bool findConstantUnder(ObjClass *klass, ObjString *name, Value *valOut) {
     ObjClass *origKlass = klass;
     Obj *baseConstant = NULL;
@@ -124,7 +132,7 @@ bool findConstantUnder(ObjClass *klass, ObjString *name, Value *valOut) {
         name = qualifiedPart;
     }
     while (klass) {
-        if (tableGet(CLASSINFO(klass)->constants, OBJ_VAL(name), valOut)) {
+        if (tableGet(classConstants(klass), OBJ_VAL(name), valOut)) {
             baseConstant = AS_OBJ(*valOut);
             if (qualifiedParts == 1) return true;
             goto foundBase;
@@ -134,12 +142,12 @@ bool findConstantUnder(ObjClass *klass, ObjString *name, Value *valOut) {
     while (origKlass && (klass = TO_CLASS(CLASSINFO(origKlass)->under))) {
         origKlass = klass;
         while (klass) {
-            if (tableGet(CLASSINFO(klass)->constants, OBJ_VAL(name), valOut)) {
+            if (tableGet(classConstants(klass), OBJ_VAL(name), valOut)) {
                 baseConstant = AS_OBJ(*valOut);
                 if (qualifiedParts == 1) return true;
                 goto foundBase;
             }
-            klass = TO_CLASS(CLASSINFO(klass)->superclass);
+            klass = TO_CLASS(CLASS_SUPER(klass));
         }
     }
     if (tableGet(&vm.constants, OBJ_VAL(name), valOut)) {
-- 
2.43.0


From c9f81cdd3b3611fc3da6e573d2af3138f57a7f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:20 +0000
Subject: [PATCH 48/98] fix: joining a thread twice can join another thread
 that was given its id

---
 thread.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/thread.c b/thread.c
index 6bc7e08..d000e71 100644
--- a/thread.c
+++ b/thread.c
@@ -357,10 +357,15 @@ Value lxJoinThread(int argCount, Value *args) {
     THREAD_DEBUG(2, "Joining thread id %lu\n", th->tid);
     int ret = 0;
 
+    // its id may belong to another thread by now
+    if (th->joined || th->detached) {
+        throwErrorFmt(lxErrClass, "Error joining thread");
+    }
+    if (th != vm.curThread) th->joined = true;
     pthread_t tid = th->tid;
     releaseGVL(THREAD_STOPPED);
     // blocking call until given thread ends execution
-    if ((ret = pthread_join(th->tid, NULL)) != 0) {
+    if ((ret = pthread_join(tid, NULL)) != 0) {
         THREAD_DEBUG(1, "Error joining thread: (ret=%d), throwing", ret);
         acquireGVL();
         // TODO: throw lxThreadErrClass
@@ -369,7 +374,6 @@ Value lxJoinThread(int argCount, Value *args) {
     THREAD_DEBUG(2, "Joined thread id %lu, acquiring GVL\n", tid);
     acquireGVL();
     THREAD_DEBUG(2, "Joined thread id %lu\n", tid);
-    th->joined = true;
     return NIL_VAL;
 }
 
-- 
2.43.0


From b46396846ba202290294084b0450ef03bda611f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:22 +0000
Subject: [PATCH 49/98] fix: a thread started in an eval or a loaded script
 uses the table of read-only globals after it is freed

---
 thread.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/thread.c b/thread.c
index d000e71..a6254be 100644
--- a/thread.c
+++ b/thread.c
@@ -201,7 +201,8 @@ static ObjInstance *newThreadSetup(LxThread *parentThread) {
         memcpy(newCtx, ctx, sizeof(VMExecContext));
         newCtx->stack = ALLOCATE(Value, ctx->stack_capa);
         newCtx->stack_capa = ctx->stack_capa;
-        memcpy(newCtx->stack, ctx->stack, sizeof(Value)*newCtx->stack_capa);
+        newCtx->stackAllocated = true;
+        memcpy(newCtx->stack, ctx->stack, sizeof(Value)*(ctx->stackTop-ctx->stack));
         newCtx->frames = ALLOCATE(CallFrame, ctx->frames_capa);
         newCtx->frames_capa = ctx->frames_capa;
         memcpy(newCtx->frames, ctx->frames, sizeof(CallFrame)*ctx->frames_capa);
@@ -210,6 +211,8 @@ static ObjInstance *newThreadSetup(LxThread *parentThread) {
         newCtx->stackTop--;
         newCtx->frameCount = 1;
         newCtx->lastValue = NULL;
+        initTable(&newCtx->roGlobals);
+        tableAddAll(&ctx->roGlobals, &newCtx->roGlobals);
         vec_push(&th->v_ecs, newCtx);
     }
     th->ec = vec_last(&th->v_ecs);
-- 
2.43.0


From 46ff2fb9d815d5ac30564e96b28374caf57d7b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:22 +0000
Subject: [PATCH 50/98] fix: a full collection forgets the slots that were
 already free, so the heap grows for ever

---
 memory.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/memory.c b/memory.c
index 397fa9c..7879c09 100644
--- a/memory.c
+++ b/memory.c
@@ -1472,6 +1472,7 @@ void collectGarbage(void) {
     // Collect the white (unmarked) objects.
     int iter = 0; (void)iter;
     unsigned long numObjectsFreed = 0;
+    unsigned long numObjectsFree = 0; // free before
     unsigned long numObjectsKept = 0;
     unsigned long numObjectsHiddenNotMarked = 0; // got saved by NoGC flag
 
@@ -1494,7 +1495,10 @@ void collectGarbage(void) {
         while (p < pend) {
             Obj *obj = (Obj*)p;
             if (obj->type == OBJ_T_NONE) {
+                obj->nextFree = newFreeList;
+                newFreeList = p;
                 objectsFree++;
+                numObjectsFree++;
                 p++;
                 continue;
             }
@@ -1507,7 +1511,6 @@ void collectGarbage(void) {
                     obj->nextFree = newFreeList;
                     freeObject(obj);
                     newFreeList = p;
-                    numObjectsFreed++;
                 } else {
                     GC_TRACE_DEBUG(4, "Skipped freeing stack object: p=%p", obj);
                 }
@@ -1540,7 +1543,7 @@ void collectGarbage(void) {
         /*freedHeap = true;*/
     /*}*/
 
-    if (!freedHeap && numObjectsFreed < FREE_MIN) {
+    if (!freedHeap && numObjectsFreed + numObjectsFree < FREE_MIN) {
         addHeap();
     }
 
-- 
2.43.0


From fb5230da6b8fb5c160b7483f0c05930e33dee6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:08 +0000
Subject: [PATCH 51/98] fix: ended threads and mutexes are never freed

---
 thread.c | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/thread.c b/thread.c
index a6254be..991236b 100644
--- a/thread.c
+++ b/thread.c
@@ -165,6 +165,16 @@ static void LxThreadSetup(LxThread *th) {
 }
 
 static void LxThreadCleanup(LxThread *th) {
+    VMExecContext *ctx = NULL; int ctxIdx = 0;
+    vec_foreach(&th->v_ecs, ctx, ctxIdx) {
+        if (ctx->stackAllocated) {
+            FREE_SIZE(sizeof(Value)*ctx->stack_capa, ctx->stack);
+        }
+        FREE_SIZE(sizeof(CallFrame)*ctx->frames_capa, ctx->frames);
+        freeTable(&ctx->roGlobals);
+        FREE(VMExecContext, ctx);
+    }
+    th->ec = NULL;
     vec_deinit(&th->v_ecs);
     vec_deinit(&th->v_thisStack);
     vec_deinit(&th->v_crefStack);
@@ -176,6 +186,12 @@ static void LxThreadCleanup(LxThread *th) {
     pthread_cond_destroy(&th->sleepCond);
 }
 
+static void freeInternalThread(Obj *obj) {
+    if (inFinalFree) return; // threads may still be blocked
+    ObjInternal *internal = (ObjInternal*)obj;
+    FREE(LxThread, internal->data);
+}
+
 typedef struct NewThreadArgs {
     ObjClosure *func;
     LxThread *th;
@@ -188,7 +204,7 @@ static ObjInstance *newThreadSetup(LxThread *parentThread) {
     THREAD_DEBUG(3, "New thread setup");
     ObjInstance *thInstance = newInstance(lxThreadClass, NEWOBJ_FLAG_OLD|NEWOBJ_FLAG_HIDDEN);
     hideFromGC((Obj*)thInstance);
-    ObjInternal *internalObj = newInternalObject(false, NULL, sizeof(LxThread), NULL, NULL, NEWOBJ_FLAG_NONE);
+    ObjInternal *internalObj = newInternalObject(false, NULL, sizeof(LxThread), NULL, freeInternalThread, NEWOBJ_FLAG_NONE);
     thInstance->internal = internalObj;
     LxThread *th = ALLOCATE(LxThread, 1);
     LxThreadSetup(th);
@@ -342,6 +358,7 @@ Value lxNewThread(int argCount, Value *args) {
         return OBJ_VAL(threadInst);
     } else {
         th->status = THREAD_ZOMBIE; // it will never run
+        th->joined = true;
         acquireGVL();
         THREAD_DEBUG(2, "Error making new thread, throwing\n");
         // TODO: throw lxThreadErrClass
@@ -624,12 +641,20 @@ static LxMutex *mutexGetHidden(Value mutex) {
     return m;
 }
 
+static void freeInternalMutex(Obj *obj) {
+    LxMutex *mutex = (LxMutex*)((ObjInternal*)obj)->data;
+    if (inFinalFree || mutex->owner) return; // its owner will unlock it when it ends
+    pthread_mutex_destroy(&mutex->lock);
+    pthread_cond_destroy(&mutex->cond);
+    FREE(LxMutex, mutex);
+}
+
 static Value lxMutexInit(int argCount, Value *args) {
     CHECK_ARITY("Mutex#init", 1, 1, argCount);
     callSuper(0, NULL, NULL);
     Value self = *args;
     ObjInstance *selfObj = AS_INSTANCE(self);
-    ObjInternal *internalObj = newInternalObject(false, NULL, sizeof(LxMutex), NULL, NULL, NEWOBJ_FLAG_NONE);
+    ObjInternal *internalObj = newInternalObject(false, NULL, sizeof(LxMutex), NULL, freeInternalMutex, NEWOBJ_FLAG_NONE);
     LxMutex *mutex = ALLOCATE(LxMutex, 1);
     setupMutex(mutex);
     internalObj->data = mutex;
-- 
2.43.0


From a34f3172c6ad8cc7683e38677bbf91a3975fdb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:53 +0000
Subject: [PATCH 52/98] fix: an error thrown into a thread that goes to sleep
 at that moment is lost

---
 thread.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thread.c b/thread.c
index 991236b..7a5c6dc 100644
--- a/thread.c
+++ b/thread.c
@@ -486,7 +486,9 @@ static Value lxThreadThrow(int argCount, Value *args) {
     if (th == vm.curThread) {
         throwError(err);
     }
-    if (th->status == THREAD_SLEEPING || th->status == THREAD_STOPPED || th->status == THREAD_RUNNING) {
+    // a thread that doesn't hold the GVL can go to sleep or wake up meanwhile
+    ThreadStatus status = *(volatile ThreadStatus*)&th->status;
+    if (status == THREAD_SLEEPING || status == THREAD_STOPPED || status == THREAD_RUNNING) {
         th->errorToThrow = err;
         threadSchedule(th);
     }
-- 
2.43.0


From 3116b87445c65af6c9c0c406f31cdb1aef8b2a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:53 +0000
Subject: [PATCH 53/98] fix: a thread that is detached after it ended is never
 freed

---
 thread.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/thread.c b/thread.c
index 7a5c6dc..51c3fe8 100644
--- a/thread.c
+++ b/thread.c
@@ -510,7 +510,12 @@ static Value lxThreadDetach(int argCount, Value *args) {
     if (th == vm.mainThread) {
         return BOOL_VAL(false); // throw?
     }
-    if (th->detached || th->status == THREAD_KILLED || th->status == THREAD_ZOMBIE) {
+    if (th->detached || th->joined || th->status == THREAD_KILLED) {
+        return BOOL_VAL(false);
+    }
+    if (th->status == THREAD_ZOMBIE) { // ended already, nothing will join it
+        th->detached = true;
+        pthread_detach(th->tid);
         return BOOL_VAL(false);
     }
     threadDetach(th);
-- 
2.43.0


From 9417c28b4b9d6a4b924022e5fe462bebf6c5f114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:53 +0000
Subject: [PATCH 54/98] fix: block calls, blocks, regexes, times and
 directories leak memory

---
 block.c     |  7 ++++++-
 dir.c       |  1 +
 regex_lib.c | 34 +++++++++++++++++++++++++++++++++-
 regex_lib.h |  2 ++
 time.c      | 18 +++++++++++++-----
 vm.c        | 10 ++++++----
 6 files changed, 61 insertions(+), 11 deletions(-)

diff --git a/block.c b/block.c
index e98398c..d8673fd 100644
--- a/block.c
+++ b/block.c
@@ -21,6 +21,11 @@ static void markInternalBlock(Obj *internalObj) {
     grayObject((Obj*)blk->callable);
 }
 
+static void freeInternalBlock(Obj *internalObj) {
+    ASSERT(internalObj->type == OBJ_T_INTERNAL);
+    FREE(LxBlock, ((ObjInternal*)internalObj)->data);
+}
+
 static inline LxBlock *blockGetHidden(Value block) {
     return (LxBlock*) AS_INSTANCE(block)->internal->data;
 }
@@ -53,7 +58,7 @@ static Value lxBlockInit(int argCount, Value *args) {
     Value self = args[0];
     Value callableVal = args[1];
     ObjInstance *selfObj = AS_INSTANCE(self);
-    ObjInternal *internalObj = newInternalObject(false, NULL, 0, markInternalBlock, NULL, NEWOBJ_FLAG_NONE);
+    ObjInternal *internalObj = newInternalObject(false, NULL, 0, markInternalBlock, freeInternalBlock, NEWOBJ_FLAG_NONE);
     hideFromGC(TO_OBJ(internalObj));
     LxBlock *blk = ALLOCATE(LxBlock, 1);
     blk->callable = AS_OBJ(callableVal);
diff --git a/dir.c b/dir.c
index 0fa5ab2..175359c 100644
--- a/dir.c
+++ b/dir.c
@@ -29,6 +29,7 @@ static void freeInternalDir(Obj *internalObj) {
     if (ldir->open) {
         closedir(ldir->dir);
     }
+    FREE(LxDir, ldir);
 }
 
 static Value lxDirInit(int argCount, Value *args) {
diff --git a/regex_lib.c b/regex_lib.c
index 31f6738..77fc721 100644
--- a/regex_lib.c
+++ b/regex_lib.c
@@ -29,6 +29,7 @@ static void regex_debug(int lvl, const char *format, ...) {
 
 void regex_init(Regex *regex, const char *src, RegexOptions *opts) {
     regex->node = NULL;
+    regex->all_nodes = NULL;
     regex->src = strdup(src);
     regex->ownsSrc = true;
     regex->groups = NULL;
@@ -41,6 +42,7 @@ void regex_init(Regex *regex, const char *src, RegexOptions *opts) {
 
 void regex_init_from(Regex *regex, const char *src, RegexOptions *opts) {
     regex->node = NULL;
+    regex->all_nodes = NULL;
     regex->src = src;
     regex->ownsSrc = false;
     regex->groups = NULL;
@@ -51,8 +53,27 @@ void regex_init_from(Regex *regex, const char *src, RegexOptions *opts) {
     }
 }
 
+static RNode *allocated_nodes = NULL; // since the current parse (or part match) began
+
+static void free_nodes(RNode *node) {
+    while (node) {
+        RNode *next = node->alloc_next;
+        FREE(RNode, node);
+        node = next;
+    }
+}
+
 void regex_free(Regex *regex) {
-    regex->node = NULL; // TODO: free nodes
+    regex->node = NULL;
+    free_nodes(regex->all_nodes);
+    regex->all_nodes = NULL;
+    GroupNode *gn = regex->groups;
+    while (gn) {
+        GroupNode *next = gn->next;
+        FREE(GroupNode, gn);
+        gn = next;
+    }
+    regex->groups = NULL;
     if (regex->ownsSrc) {
         xfree((void*)regex->src);
     }
@@ -115,6 +136,8 @@ static RNode *begOrNode = NULL; // beginning of what could be the child of an OR
 static RNode *new_node(RNodeType type, const char *tok, int toklen, RNode *parent, RNode *prev) {
     RNode *node = ALLOCATE(RNode, 1);
     memset(node, 0, sizeof(*node));
+    node->alloc_next = allocated_nodes;
+    allocated_nodes = node;
     node->type = type;
     node->tok = tok;
     node->toklen = toklen;
@@ -492,7 +515,10 @@ RegexCompileResult regex_compile(Regex *regex) {
     if (!regex->src) {
        return REGEX_UNITIALIZED_ERR;
     }
+    allocated_nodes = NULL;
     int parse_res = regex_parse(regex);
+    regex->all_nodes = allocated_nodes;
+    allocated_nodes = NULL;
     if (parse_res != 0) {
        return REGEX_PARSE_ERR;
     }
@@ -1040,6 +1066,8 @@ static RNode *insert_bol_anchor(RNode *prev) {
 static RNode *dup_node(RNode *old) {
     RNode *node = ALLOCATE(RNode, 1);
     memcpy(node, old, sizeof(*node));
+    node->alloc_next = allocated_nodes;
+    allocated_nodes = node;
     return node;
 }
 
@@ -1050,6 +1078,8 @@ static RNode *new_program_node() {
 static bool regex_part_match_beg(RNode *node, const char *string) {
     Regex re;
     regex_init_from(&re, string, NULL); /* HACK: this regex has no source pattern, just use match pattern as the source pattern */
+    RNode *outer_nodes = allocated_nodes;
+    allocated_nodes = NULL;
     RNode *beg = dup_node(node);
     RNode *bol = insert_bol_anchor(beg);
     RNode *program = new_program_node();
@@ -1060,6 +1090,8 @@ static bool regex_part_match_beg(RNode *node, const char *string) {
     /*regex_output_ast_node(program, NULL, 0);*/
     regex_debug(1, "Matching part match: '%s'", string);
     MatchData md = regex_match(&re, string);
+    free_nodes(allocated_nodes);
+    allocated_nodes = outer_nodes;
     if (md.matched && md.match_start == 0) {
         regex_debug(1, "regex_part_match matched for string: '%s'", string);
         regex_debug(1, "regex_part_match matched %d %*.s", md.match_len,
diff --git a/regex_lib.h b/regex_lib.h
index 020a1d7..e4d0a58 100644
--- a/regex_lib.h
+++ b/regex_lib.h
@@ -59,6 +59,7 @@ typedef struct RNode {
     struct RNode *prev;
     struct RNode *parent;
     struct RNode *children;
+    struct RNode *alloc_next; // for freeing
 } RNode;
 
 typedef struct RegexOptions {
@@ -73,6 +74,7 @@ typedef struct GroupNode {
 
 typedef struct Regex {
     RNode *node;
+    RNode *all_nodes; // every node allocated for this regex
     const char *src;
     bool ownsSrc; // if `ownsSrc`, can free it in regex_free
     GroupNode *groups;
diff --git a/time.c b/time.c
index 2e72f03..c150030 100644
--- a/time.c
+++ b/time.c
@@ -74,12 +74,20 @@ static inline LxTimer *timerGethidden(Value timerVal) {
     return (LxTimer*)internal->data;
 }
 
+static void freeInternalTime(Obj *obj) {
+    FREE(LxTime, ((ObjInternal*)obj)->data);
+}
+
+static void freeInternalTimer(Obj *obj) {
+    FREE(LxTimer, ((ObjInternal*)obj)->data);
+}
+
 static Value lxTimeInit(int argCount, Value *args) {
     CHECK_ARITY("Time#init", 1, 1, argCount);
     callSuper(0, NULL, NULL);
     Value self = *args;
     ObjInstance *selfObj = AS_INSTANCE(self);
-    ObjInternal *internalObj = newInternalObject(false, NULL, 0, NULL, NULL, NEWOBJ_FLAG_NONE);
+    ObjInternal *internalObj = newInternalObject(false, NULL, 0, NULL, freeInternalTime, NEWOBJ_FLAG_NONE);
     LxTime *t = ALLOCATE(LxTime, 1);
     time(&t->sinceEpoch);
     t->tmGot = false;
@@ -103,10 +111,10 @@ static Value lxTimeToString(int argCount, Value *args) {
 static Value lxTimerInitEmpty(int argCount, Value *args) {
     Value self = *args;
     ObjInstance *selfObj = AS_INSTANCE(self);
-    ObjInternal *internalObj = newInternalObject(false, NULL, 0, NULL, NULL, NEWOBJ_FLAG_NONE);
+    ObjInternal *internalObj = newInternalObject(false, NULL, 0, NULL, freeInternalTimer, NEWOBJ_FLAG_NONE);
     LxTimer *t = ALLOCATE(LxTimer, 1);
     internalObj->data = t;
-    internalObj->dataSz = sizeof(LxTime);
+    internalObj->dataSz = sizeof(LxTimer);
     selfObj->internal = internalObj;
     return self;
 }
@@ -129,7 +137,7 @@ static Value lxTimerInit(int argCount, Value *args) {
     }
     Value self = *args;
     ObjInstance *selfObj = AS_INSTANCE(self);
-    ObjInternal *internalObj = newInternalObject(false, NULL, 0, NULL, NULL, NEWOBJ_FLAG_NONE);
+    ObjInternal *internalObj = newInternalObject(false, NULL, 0, NULL, freeInternalTimer, NEWOBJ_FLAG_NONE);
     LxTimer *t = ALLOCATE(LxTimer, 1);
     t->clock = clock;
     int res = clock_gettime(t->clock, &t->tp);
@@ -137,7 +145,7 @@ static Value lxTimerInit(int argCount, Value *args) {
         throwErrorFmt(lxErrClass, "Could not get timer time");
     }
     internalObj->data = t;
-    internalObj->dataSz = sizeof(LxTime);
+    internalObj->dataSz = sizeof(LxTimer);
     selfObj->internal = internalObj;
     return self;
 }
diff --git a/vm.c b/vm.c
index 0734e35..61106a6 100644
--- a/vm.c
+++ b/vm.c
@@ -2065,15 +2065,17 @@ NORETURN void throwError(Value self) {
 }
 
 void popErrInfo(void) {
-    DBG_ASSERT(vm.curThread->errInfo);
-    vm.curThread->errInfo = vm.curThread->errInfo->prev;
+    LxThread *th = vm.curThread;
+    ErrTagInfo *info = th->errInfo;
+    DBG_ASSERT(info);
+    th->errInfo = info->prev;
+    FREE(ErrTagInfo, info);
 }
 
 void unsetErrInfo(void) {
     LxThread *th = vm.curThread;
     th->lastErrorThrown = NIL_VAL;
-    ASSERT(th->errInfo);
-    th->errInfo = th->errInfo->prev;
+    popErrInfo();
 }
 
 NORETURN void rethrowErrInfo(ErrTagInfo *info) {
-- 
2.43.0


From 8c416429b158dbb59fb84f024234065dc947c121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:51 +0000
Subject: [PATCH 55/98] fix: keys of the map returned by GC.stats() could be
 freed while it was used

---
 runtime.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/runtime.c b/runtime.c
index 3b2e7f3..688c89c 100644
--- a/runtime.c
+++ b/runtime.c
@@ -1334,16 +1334,22 @@ Value lxGCStats(int argCount, Value *args) {
     Value map = newMap();
     Value totalKey = OBJ_VAL(copyString("totalAllocated", 14, NEWOBJ_FLAG_NONE));
     mapSet(map, totalKey, NUMBER_VAL(GCStats.totalAllocated));
+    OBJ_WRITE(map, totalKey);
     Value heapSizeKey = OBJ_VAL(copyString("heapSize", 8, NEWOBJ_FLAG_NONE));
     mapSet(map, heapSizeKey, NUMBER_VAL(GCStats.heapSize));
+    OBJ_WRITE(map, heapSizeKey);
     Value heapUsedKey = OBJ_VAL(copyString("heapUsed", 8, NEWOBJ_FLAG_NONE));
     mapSet(map, heapUsedKey, NUMBER_VAL(GCStats.heapUsed));
+    OBJ_WRITE(map, heapUsedKey);
     Value heapWasteKey = OBJ_VAL(copyString("heapUsedWaste", 13, NEWOBJ_FLAG_NONE));
     mapSet(map, heapWasteKey, NUMBER_VAL(GCStats.heapUsedWaste));
+    OBJ_WRITE(map, heapWasteKey);
     Value runsYoungKey = OBJ_VAL(copyString("runsYoung", 9, NEWOBJ_FLAG_NONE));
     mapSet(map, runsYoungKey, NUMBER_VAL(GCProf.runsYoung));
+    OBJ_WRITE(map, runsYoungKey);
     Value runsFullKey = OBJ_VAL(copyString("runsFull", 8, NEWOBJ_FLAG_NONE));
     mapSet(map, runsFullKey, NUMBER_VAL(GCProf.runsFull));
+    OBJ_WRITE(map, runsFullKey);
     return map;
 }
 
-- 
2.43.0


From 239448406cf0541f79f6962bdbcfe65026fcac86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:19 +0000
Subject: [PATCH 56/98] fix: name of an open file could be freed by a young
 collection

---
 file.c | 1 +
 io.c   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/file.c b/file.c
index 80fb792..3179d22 100644
--- a/file.c
+++ b/file.c
@@ -422,6 +422,7 @@ static Value lxFileRename(int argCount, Value *args) {
     int last = errno;
     if (rename(oldPath, newPath) == 0) {
         f->name = dupString(newPathStr);
+        OBJ_WRITE(self, OBJ_VAL(f->name));
         return BOOL_VAL(true);
     } else {
         int err = errno;
diff --git a/io.c b/io.c
index 9b1e581..3b8d374 100644
--- a/io.c
+++ b/io.c
@@ -54,6 +54,7 @@ LxFile *initIOAfterOpen(Value ioVal, ObjString *fname, int fd, int mode, int ofl
     file->sock = NULL;
     internalObj->data = file;
     ioObj->internal = internalObj;
+    OBJ_WRITE(ioVal, OBJ_VAL(file->name));
     unhideFromGC((Obj*)file->name);
     unhideFromGC((Obj*)ioObj);
     return file;
-- 
2.43.0


From 30f3eaf1379fa1d3bcd07907ddd1a40d76f0dcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:02 +0000
Subject: [PATCH 57/98] fix: variables seen through a Binding could be freed,
 or read past their table

---
 binding.c | 11 +++++++++++
 memory.c  |  5 +++++
 object.c  |  1 +
 object.h  |  1 +
 vm.c      |  4 +++-
 5 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/binding.c b/binding.c
index 49b359a..a6a4110 100644
--- a/binding.c
+++ b/binding.c
@@ -44,17 +44,24 @@ static Value lxBindingInit(int argCount, Value *args) {
     ObjClass *klass; int kidx = 0;
     vec_foreach(&th->v_crefStack, klass, kidx) {
         vec_push(&binding->v_crefStack, klass);
+        OBJ_WRITE(self, OBJ_VAL(klass));
     }
     (void)vec_pop(&binding->v_crefStack); // funny enough, `Binding` is atop the cref stack right now, we want it popped
     // Right now, `instance Binding` is the th->thisObj, so we get the one before that
     if (th->v_thisStack.length > 1) {
         binding->thisObj = th->v_thisStack.data[th->v_thisStack.length-2];
+        if (binding->thisObj) OBJ_WRITE(self, OBJ_VAL(binding->thisObj));
     } else {
         binding->thisObj = NULL;
     }
 
     ASSERT(!frame->isCCall);
     ASSERT(frame->scope);
+    binding->scope->captured = true;
+    OBJ_WRITE(self, OBJ_VAL(binding->scope));
+    for (int i = 0; i < binding->scope->localsTable.size; i++) {
+        OBJ_WRITE(OBJ_VAL(binding->scope), binding->scope->localsTable.tbl[i]);
+    }
 
     internalObj->data = binding;
     bindObj->internal = internalObj;
@@ -77,6 +84,7 @@ static Value lxBindingLocalVariables(int argCount, Value *args) {
     Entry e; int idx = 0;
     TABLE_FOREACH(&func->localsTable, e, idx, {
         int slot = AS_NUMBER(e.value);
+        if (slot >= binding->scope->localsTable.size) continue; // set in another binding
         mapSet(ret, e.key, binding->scope->localsTable.tbl[slot]);
         OBJ_WRITE(ret, e.key);
         OBJ_WRITE(ret, binding->scope->localsTable.tbl[slot]);
@@ -95,6 +103,7 @@ static Value lxBindingLocalVariableGet(int argCount, Value *args) {
     int res = tableGet(&func->localsTable, name, &slotVal);
     if (!res) { return NIL_VAL; }
     int slot = AS_NUMBER(slotVal);
+    if (slot >= binding->scope->localsTable.size) { return NIL_VAL; }
     return binding->scope->localsTable.tbl[slot];
 }
 
@@ -113,10 +122,12 @@ static Value lxBindingLocalVariableSet(int argCount, Value *args) {
     if (!res) {
         slotVal = NUMBER_VAL(func->localsTable.count+1);
         tableSet(&func->localsTable, name, slotVal);
+        OBJ_WRITE(OBJ_VAL(func), name);
     }
     int slot = AS_NUMBER(slotVal);
     growLocalsTable(binding->scope, slot+1);
     binding->scope->localsTable.tbl[slot] = val;
+    OBJ_WRITE(OBJ_VAL(binding->scope), val);
     return val;
 }
 
diff --git a/memory.c b/memory.c
index 7879c09..ff54020 100644
--- a/memory.c
+++ b/memory.c
@@ -424,6 +424,11 @@ void collectYoungGarbage() {
                     grayObject(TO_OBJ(frame->instance));
                 if (frame->scope) {
                     grayObject(TO_OBJ(frame->scope));
+                    // An old scope isn't blackened, and it also holds variables
+                    // that aren't on the stack anymore.
+                    for (int j = 0; j < frame->scope->localsTable.size; j++) {
+                        grayValue(frame->scope->localsTable.tbl[j]);
+                    }
                 }
             }
         }
diff --git a/object.c b/object.c
index 5074770..9c90972 100644
--- a/object.c
+++ b/object.c
@@ -344,6 +344,7 @@ ObjScope *newScope(ObjFunction *userFunc) {
         scope->localsTable.tbl = tbl;
     }
     scope->function = userFunc;
+    scope->captured = false;
     return scope;
 }
 
diff --git a/object.h b/object.h
index d5e8f39..70cdc79 100644
--- a/object.h
+++ b/object.h
@@ -162,6 +162,7 @@ typedef struct ObjScope {
   Obj object;
   LocalsTable localsTable;
   ObjFunction *function;
+  bool captured; // by a binding, can outlive its call frame
 } ObjScope;
 
 typedef struct ObjUpvalue {
diff --git a/vm.c b/vm.c
index 61106a6..a7a6ff2 100644
--- a/vm.c
+++ b/vm.c
@@ -1506,7 +1506,7 @@ static void setupLocalsTable(CallFrame *frame) {
 
 void growLocalsTable(ObjScope *scope, int size) {
   if (scope->localsTable.capacity >= size) {
-    scope->localsTable.size = size;
+    if (scope->localsTable.size < size) scope->localsTable.size = size;
     return;
   }
   int max = size * 2;
@@ -2669,6 +2669,7 @@ timeSliceDone:
             growLocalsTable(scope, (int)slot+1);
           }
           scope->localsTable.tbl[slot] = VM_PEEK(0); // locals are popped at end of scope by VM
+          if (UNLIKELY(scope->captured)) OBJ_WRITE(OBJ_VAL(scope), VM_PEEK(0));
           frame->slots[slot] = VM_PEEK(0);
           DISPATCH_BOTTOM();
       }
@@ -2687,6 +2688,7 @@ timeSliceDone:
           Value val = unpackValue(peek(peekIdx+unpackIdx), unpackIdx);
           frame->slots[slot] = val; // locals are popped at end of scope by VM
           frame->scope->localsTable.tbl[slot] = val;
+          if (UNLIKELY(frame->scope->captured)) OBJ_WRITE(OBJ_VAL(frame->scope), val);
           DISPATCH_BOTTOM();
       }
       CASE_OP(GET_LOCAL): {
-- 
2.43.0


From 03f6019c3e508d205fa3b9b3287ddb9302263481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:28 +0000
Subject: [PATCH 58/98] fix: storage of a thread that has ended could be freed
 while it was used

---
 thread.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/thread.c b/thread.c
index 51c3fe8..0651928 100644
--- a/thread.c
+++ b/thread.c
@@ -186,6 +186,15 @@ static void LxThreadCleanup(LxThread *th) {
     pthread_cond_destroy(&th->sleepCond);
 }
 
+// the thread-local storage can be used after the thread has ended
+static void markInternalThread(Obj *obj) {
+    ObjInternal *internal = (ObjInternal*)obj;
+    LxThread *th = (LxThread*)internal->data;
+    if (th && th->tlsMap) {
+        grayObject(TO_OBJ(th->tlsMap));
+    }
+}
+
 static void freeInternalThread(Obj *obj) {
     if (inFinalFree) return; // threads may still be blocked
     ObjInternal *internal = (ObjInternal*)obj;
@@ -204,7 +213,7 @@ static ObjInstance *newThreadSetup(LxThread *parentThread) {
     THREAD_DEBUG(3, "New thread setup");
     ObjInstance *thInstance = newInstance(lxThreadClass, NEWOBJ_FLAG_OLD|NEWOBJ_FLAG_HIDDEN);
     hideFromGC((Obj*)thInstance);
-    ObjInternal *internalObj = newInternalObject(false, NULL, sizeof(LxThread), NULL, freeInternalThread, NEWOBJ_FLAG_NONE);
+    ObjInternal *internalObj = newInternalObject(false, NULL, sizeof(LxThread), markInternalThread, freeInternalThread, NEWOBJ_FLAG_NONE);
     thInstance->internal = internalObj;
     LxThread *th = ALLOCATE(LxThread, 1);
     LxThreadSetup(th);
@@ -529,6 +538,7 @@ static Value lxThreadGetTLS(int argCount, Value *args) {
     LxThread *th = THREAD_GETHIDDEN(self);
     if (!th->tlsMap) {
         th->tlsMap = AS_MAP(newMap());
+        OBJ_WRITE(self, OBJ_VAL(th->tlsMap));
     }
     Value val;
     if (mapGet(OBJ_VAL(th->tlsMap), key, &val)) {
@@ -546,6 +556,7 @@ static Value lxThreadSetTLS(int argCount, Value *args) {
     LxThread *th = THREAD_GETHIDDEN(self);
     if (!th->tlsMap) {
         th->tlsMap = AS_MAP(newMap());
+        OBJ_WRITE(self, OBJ_VAL(th->tlsMap));
     }
     mapSet(OBJ_VAL(th->tlsMap), key, val);
     OBJ_WRITE(OBJ_VAL(th->tlsMap), key);
-- 
2.43.0


From 98167c94dfe179e09380f6c75f92204e1265e2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:23 +0000
Subject: [PATCH 59/98] fix: a blocked read or write could fail while another
 thread was in readNonBlock on the same file

---
 io.c | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/io.c b/io.c
index 3b8d374..80dd7ac 100644
--- a/io.c
+++ b/io.c
@@ -4,6 +4,7 @@
 #include <sys/types.h>
 #include <fcntl.h>
 #include <sys/select.h>
+#include <poll.h>
 #include "object.h"
 #include "vm.h"
 #include "runtime.h"
@@ -88,9 +89,22 @@ static int fd_set_nonblock(int fd, bool nonblock) {
     return 1; // changed
 }
 
+// O_NONBLOCK belongs to the open file, which other threads and processes share:
+// they may be in readNonBlock() on it. Returns true if the call that failed with
+// `err` is to be tried again, false if the script asked for O_NONBLOCK itself.
+static bool IOWaitReady(int fd, int err, bool wait, short events) {
+    if (err != EWOULDBLOCK || !wait) return false;
+    struct pollfd pfd = { .fd = fd, .events = events, .revents = 0 };
+    releaseGVL(THREAD_STOPPED);
+    (void)poll(&pfd, 1, -1);
+    acquireGVL();
+    VM_CHECK_INTS(THREAD());
+    return true;
+}
+
 // Reads numBytes bytes, or until EOF. Returns NULL if nonBlock is given and
 // there's nothing to read. The GVL is only released during the system calls.
-ObjString *IOReadFd(int fd, size_t numBytes, bool untilEOF, bool nonBlock) {
+static ObjString *IOReadFdWait(int fd, size_t numBytes, bool untilEOF, bool nonBlock, bool wait) {
     ASSERT(fd >= 0);
     ObjString *retBuf = copyString("", 0, NEWOBJ_FLAG_NONE);
     size_t nread = 0;
@@ -119,6 +133,7 @@ ObjString *IOReadFd(int fd, size_t numBytes, bool untilEOF, bool nonBlock) {
             if (nonBlock && err == EWOULDBLOCK) {
                 return nread == 0 ? NULL : retBuf;
             }
+            if (!nonBlock && IOWaitReady(fd, err, wait, POLLIN)) continue;
             throwIOSyserr(err, last, "read");
         }
         if (justRead == 0) break;
@@ -130,9 +145,13 @@ ObjString *IOReadFd(int fd, size_t numBytes, bool untilEOF, bool nonBlock) {
     return retBuf;
 }
 
+ObjString *IOReadFd(int fd, size_t numBytes, bool untilEOF, bool nonBlock) {
+    return IOReadFdWait(fd, numBytes, untilEOF, nonBlock, true);
+}
+
 // Reads up to and including the next newline, at most maxLen-1 bytes. Nothing
 // after the line is consumed.
-static ObjString *IOReadlineFd(int fd, size_t maxLen) {
+static ObjString *IOReadlineFd(int fd, size_t maxLen, bool wait) {
     if (maxLen == 0) maxLen = READBUF_SZ;
     if (maxLen > READBUF_SZ) maxLen = READBUF_SZ;
     char lineBuf[READBUF_SZ];
@@ -149,6 +168,7 @@ static ObjString *IOReadlineFd(int fd, size_t maxLen) {
                 VM_CHECK_INTS(THREAD());
                 continue;
             }
+            if (IOWaitReady(fd, err, wait, POLLIN)) continue;
             throwIOSyserr(err, last, "read");
         }
         if (justRead == 0) break;
@@ -167,7 +187,7 @@ ObjString *IORead(Value io, size_t numBytes, bool untilEOF, bool nonBlock) {
     if (f->fd == STDOUT_FILENO || f->fd == STDERR_FILENO) {
         throwErrorFmt(lxErrClass, "Cannot read from stdout/stdin");
     }
-    return IOReadFd(f->fd, numBytes, untilEOF, nonBlock);
+    return IOReadFdWait(f->fd, numBytes, untilEOF, nonBlock, (f->oflags & O_NONBLOCK) == 0);
 }
 
 static ObjString *IOReadNonBlock(Value io, size_t numBytes, bool untilEOF) {
@@ -179,7 +199,7 @@ static ObjString *IOReadline(Value io, size_t maxBytes) {
     if (!f->isOpen) {
         throwErrorFmt(lxErrClass, "IO error: cannot read from closed fd: %d", f->fd);
     }
-    return IOReadlineFd(f->fd, maxBytes);
+    return IOReadlineFd(f->fd, maxBytes, (f->oflags & O_NONBLOCK) == 0);
 }
 
 size_t IOWrite(Value io, const void *buf, size_t count) {
@@ -191,6 +211,7 @@ size_t IOWrite(Value io, const void *buf, size_t count) {
         throwErrorFmt(lxErrClass, "Cannot write to stdin");
     }
     int fd = f->fd;
+    bool wait = (f->oflags & O_NONBLOCK) == 0;
     char ioWritebuf[WRITEBUF_SZ];
     const char *src = ioWritebuf;
     // the string written can be changed by other threads during the writes
@@ -211,6 +232,7 @@ size_t IOWrite(Value io, const void *buf, size_t count) {
                 VM_CHECK_INTS(THREAD());
                 continue;
             }
+            if (IOWaitReady(fd, err, wait, POLLOUT)) continue;
             errno = last;
             throwErrorFmt(sysErrClass(err), "Error during write: %s", strerror(err));
         }
@@ -220,7 +242,8 @@ size_t IOWrite(Value io, const void *buf, size_t count) {
 }
 
 static int IOFcntl(Value io, int cmd, int arg) {
-    int fd = FILE_GETHIDDEN(io)->fd;
+    LxFile *f = FILE_GETHIDDEN(io);
+    int fd = f->fd;
     int last = errno;
     int res = fcntl(fd, cmd, arg);
     if (res == -1) {
@@ -228,6 +251,9 @@ static int IOFcntl(Value io, int cmd, int arg) {
         errno = last;
         throwErrorFmt(sysErrClass(err), "Error during fcntl for fd: %d, %s", fd, strerror(err));
     }
+    if (cmd == F_SETFL) {
+        f->oflags = (f->oflags & ~O_NONBLOCK) | (arg & O_NONBLOCK);
+    }
     return res;
 }
 
-- 
2.43.0


From cb67bfef3bb7ab534a4d3861ec4fa08aeca6324f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:41 +0000
Subject: [PATCH 60/98] fix: error in a forked function was caught by the
 parent's handlers, in the child

---
 process.c | 14 +++++++++++++-
 vm.c      |  2 +-
 vm.h      |  1 +
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/process.c b/process.c
index 1486fa3..8f62050 100644
--- a/process.c
+++ b/process.c
@@ -25,6 +25,11 @@ static Value getPpid(void) {
     return NUMBER_VAL(pid);
 }
 
+static void *runForkedFunc(void *func) {
+    callCallable(*(Value*)func, 0, false, NULL);
+    return NULL;
+}
+
 static Value lxForkStatic(int argCount, Value *args) {
     CHECK_ARITY("Process.fork", 1, 2, argCount);
     Value func = NIL_VAL;
@@ -43,7 +48,14 @@ static Value lxForkStatic(int argCount, Value *args) {
     } else { // in child
         threadsAfterFork();
         if (argCount == 2) {
-            callCallable(func, 0, false, NULL);
+            // an error isn't for the handlers of the parent, which are on the copied stack
+            ErrTag status = TAG_NONE;
+            vm_protect(runForkedFunc, &func, NULL, &status);
+            if (status == TAG_RAISE) {
+                printUncaughtError(THREAD()->errInfo->caughtError);
+                unsetErrInfo();
+                stopVM(1);
+            }
             stopVM(0);
         }
         return NIL_VAL;
diff --git a/vm.c b/vm.c
index a7a6ff2..de40739 100644
--- a/vm.c
+++ b/vm.c
@@ -964,7 +964,7 @@ void errorPrintScriptBacktrace(const char *format, ...) {
     resetStack();
 }
 
-static void printUncaughtError(Value err) {
+void printUncaughtError(Value err) {
     ObjString *classNameObj = classNameFull(AS_INSTANCE(err)->klass);
     char *className = NULL;
     if (classNameObj) {
diff --git a/vm.h b/vm.h
index 404a0e3..cb2e163 100644
--- a/vm.h
+++ b/vm.h
@@ -249,6 +249,7 @@ extern VM vm;
 
 LxThread *THREAD(void);
 void showUncaughtError(Value err);
+void printUncaughtError(Value err);
 LxThread *FIND_THREAD(pthread_t tid);
 ObjInstance *FIND_THREAD_INSTANCE(pthread_t tid);
 
-- 
2.43.0


From 04fd3eb65ab8c8001ad20e074b8381902514c19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:41 +0000
Subject: [PATCH 61/98] fix: Process.waitall waited for one child only

---
 process.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/process.c b/process.c
index 8f62050..4149da1 100644
--- a/process.c
+++ b/process.c
@@ -84,19 +84,19 @@ static Value lxWaitpidStatic(int argCount, Value *args) {
 
 static Value lxWaitallStatic(int argCount, Value *args) {
     CHECK_ARITY("Process.waitall", 1, 1, argCount);
-    pid_t pid = -1;
     Value ret = newArray();
-    while (pid == -1) {
+    while (true) {
         int wstatus = 0;
         int flags = 0;
         releaseGVL(THREAD_STOPPED);
-        pid = waitpid(pid, &wstatus, flags);
+        pid_t pid = waitpid(-1, &wstatus, flags);
+        int err = errno;
         acquireGVL();
         if (pid == -1) {
-            if (errno == ECHILD) {
+            if (err == ECHILD) {
                 break;
             } else {
-                throwErrorFmt(sysErrClass(errno), "waitall fail: %s", strerror(errno));
+                throwErrorFmt(sysErrClass(err), "waitall fail: %s", strerror(err));
             }
         }
         Value el = newArray();
-- 
2.43.0


From 230b9060d03b0d29e9f73498e073a3b880ce3975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:41 +0000
Subject: [PATCH 62/98] fix: Process.system returned true for a command killed
 by a signal

---
 process.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/process.c b/process.c
index 4149da1..500f980 100644
--- a/process.c
+++ b/process.c
@@ -171,11 +171,7 @@ static Value lxSystemStatic(int argCount, Value *args) {
     releaseGVL(THREAD_STOPPED);
     int status = system(cmdStr); // man 3 system
     acquireGVL();
-    int exitStatus = WEXITSTATUS(status);
-    if (exitStatus != 0) {
-        return BOOL_VAL(false);
-    }
-    return BOOL_VAL(true);
+    return BOOL_VAL(status != -1 && WIFEXITED(status) && WEXITSTATUS(status) == 0);
 }
 
 static Value lxProcessPidStatic(int argCount, Value *args) {
-- 
2.43.0


From 591467d984d241322ea5fdead435f31fa73d554e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:41 +0000
Subject: [PATCH 63/98] fix: Process.waitpid with WNOHANG returned an unset
 status while the child was running

---
 process.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/process.c b/process.c
index 500f980..4a91db0 100644
--- a/process.c
+++ b/process.c
@@ -79,6 +79,9 @@ static Value lxWaitpidStatic(int argCount, Value *args) {
     if (wret == -1) { // error, should throw?
         return NUMBER_VAL(-1);
     }
+    if (wret == 0) { // WNOHANG, and the child is still running
+        return NIL_VAL;
+    }
     return NUMBER_VAL(wstatus);
 }
 
-- 
2.43.0


From 1dbe33eb7581a288b082e1c3110bab2a6acc42c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:59 +0000
Subject: [PATCH 64/98] fix: Map#each could end before it had yielded every
 entry

---
 map.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/map.c b/map.c
index 47088ad..2e77184 100644
--- a/map.c
+++ b/map.c
@@ -347,7 +347,10 @@ static Value lxMapEach(int argCount, Value *args) {
     }
     volatile BlockStackEntry *bentry = NULL;
     while (true) {
-        if (startIdx == map->count) {
+        while (startIdx <= map->capacityMask && IS_UNDEF(map->entries[startIdx].key)) {
+            startIdx++;
+        }
+        if (startIdx > map->capacityMask) { // no entries left
             return *args;
         }
         SETUP_BLOCK(block, bentry, status, th->errInfo)
-- 
2.43.0


From 7c81d7385fa9287956044e9bbbf9a9b884a1320e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:59 +0000
Subject: [PATCH 65/98] fix: assigning to an element of an array changed the
 literal it was made from

---
 array.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/array.c b/array.c
index 80f9f84..093b08d 100644
--- a/array.c
+++ b/array.c
@@ -256,6 +256,7 @@ static Value lxArrayOpIndexSet(int argCount, Value *args) {
     if (isFrozen((Obj*)selfObj)) {
         throwErrorFmt(lxErrClass, "%s", "Array is frozen, cannot modify");
     }
+    arrayDedup(selfObj);
     ValueArray *ary = &selfObj->valAry;
     int idx = (int)AS_NUMBER(num);
     if (idx < 0) {
-- 
2.43.0


From 364ed9209b354cce623b7c6be873c2c9ccb84a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:25 +0000
Subject: [PATCH 66/98] fix: singleton class of a map or regex could be freed
 while it was used

---
 memory.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/memory.c b/memory.c
index ff54020..1b9d997 100644
--- a/memory.c
+++ b/memory.c
@@ -866,7 +866,7 @@ void blackenObject(Obj *obj) {
             ObjMap *map = (ObjMap*)obj;
             grayObject((Obj*)map->klass);
             if (map->singletonKlass) {
-                grayObject((Obj*)map->klass);
+                grayObject((Obj*)map->singletonKlass);
             }
             if (map->finalizerFunc) {
                 grayObject(map->finalizerFunc);
@@ -880,7 +880,7 @@ void blackenObject(Obj *obj) {
             ObjRegex *reObj = (ObjRegex*)obj;
             grayObject((Obj*)reObj->klass);
             if (reObj->singletonKlass) {
-                grayObject((Obj*)reObj->klass);
+                grayObject((Obj*)reObj->singletonKlass);
             }
             if (reObj->finalizerFunc) {
                 grayObject(reObj->finalizerFunc);
-- 
2.43.0


From 70abb6ee6f294fcb043a39a1f689a99ce337b530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:25 +0000
Subject: [PATCH 67/98] fix: different strings with the same hash were equal,
 and the same map key

---
 object.c | 4 ++--
 table.c  | 3 ---
 value.c  | 5 +----
 3 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/object.c b/object.c
index 9c90972..903113b 100644
--- a/object.c
+++ b/object.c
@@ -157,8 +157,8 @@ void pushString(Value self, Value pushed) {
 bool objStringEquals(ObjString *a, ObjString *b) {
     DBG_ASSERT(a && b);
     if (a->length != b->length) return false;
-    if (a->hash > 0 && b->hash > 0) return a->hash == b->hash;
-    return strcmp(a->chars, b->chars) == 0;
+    if (a->hash > 0 && b->hash > 0 && a->hash != b->hash) return false;
+    return memcmp(a->chars, b->chars, a->length) == 0;
 }
 
 // Copies `chars`, adds them to end of string.
diff --git a/table.c b/table.c
index 5342793..722cefc 100644
--- a/table.c
+++ b/table.c
@@ -202,9 +202,6 @@ ObjString *tableFindString(Table *table, const char* chars, size_t length,
         if (UNLIKELY(IS_UNDEF(entry->key))) return NULL;
         if (IS_STRING(entry->key)) {
             ObjString *stringKey = AS_STRING(entry->key);
-            if (stringKey->hash && stringKey->hash == hash) {
-                return stringKey;
-            }
             if (stringKey->length == length &&
                     memcmp(stringKey->chars, chars, length) == 0) {
                 // We found it.
diff --git a/value.c b/value.c
index e6081bf..17c2e42 100644
--- a/value.c
+++ b/value.c
@@ -486,10 +486,7 @@ bool valEqual(Value a, Value b) {
             if (IS_STRING(a) && IS_STRING(b)) {
                 ObjString *aStr = AS_STRING(a);
                 ObjString *bStr = AS_STRING(b);
-                if (aStr->hash && bStr->hash) {
-                    return aStr->hash == bStr->hash;
-                }
-                return aStr->length == bStr->length && strcmp(aStr->chars, bStr->chars) == 0;
+                return objStringEquals(aStr, bStr);
             }
             if (IS_INSTANCE_LIKE(a)) {
                 return AS_BOOL(callMethod(AS_OBJ(a), vm.opEqualsString, 1, &b, NULL));
-- 
2.43.0


From 25d071835543603fe87b4989160e9eec3ed9765d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:25 +0000
Subject: [PATCH 68/98] fix: String#*, compact, compactLeft and Array.fill were
 wrong for the smallest results

---
 array.c  | 6 ++----
 string.c | 9 ++++++---
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/array.c b/array.c
index 093b08d..2566c06 100644
--- a/array.c
+++ b/array.c
@@ -313,12 +313,10 @@ static Value lxArrayFillStatic(int argCount, Value *args) {
     Value ret = OBJ_VAL(newInstance(lxAryClass, NEWOBJ_FLAG_NONE));
     ObjArray *selfObj = AS_ARRAY(ret);
     ValueArray *ary = &selfObj->valAry;
-    if (capaNum > 1) {
+    initValueArray(ary);
+    if (capaNum > 0) {
         initValueArrayWithCapa(ary, capaNum);
         writeValueArrayBulk(ary, 0, (size_t)capaNum, fill);
-    } else {
-        initValueArray(ary);
-        writeValueArrayEnd(ary, fill);
     }
     OBJ_WRITE(ret, fill);
     return ret;
diff --git a/string.c b/string.c
index 322e66d..c2e7405 100644
--- a/string.c
+++ b/string.c
@@ -98,8 +98,11 @@ static Value lxStringOpMul(int argCount, Value *args) {
         throwErrorFmt(lxTypeErrClass, "String#* (opMul) called with non-number argument. Type: %s",
                 typeOfVal(rhs));
     }
-    ObjString *lhsBuf = dupString(AS_STRING(self));
     int num = AS_NUMBER(rhs);
+    if (num <= 0) {
+        return OBJ_VAL(emptyString());
+    }
+    ObjString *lhsBuf = dupString(AS_STRING(self));
     num--; // because "string" * 1 == "string"
     while (num > 0) {
       pushObjString(lhsBuf, AS_STRING(self));
@@ -323,7 +326,7 @@ static Value lxStringCompact(int argCount, Value *args) {
     while (end > start && isspace(*end)) {
       end--;
     }
-    if (start < end) {
+    if (start <= end && !isspace(*start)) {
       pushCString(new, start, end-start+1);
     }
     return OBJ_VAL(new);
@@ -339,7 +342,7 @@ static Value lxStringCompactLeft(int argCount, Value *args) {
     while (start < end && isspace(*start)) {
       start++;
     }
-    if (start < end) {
+    if (start <= end && !isspace(*start)) {
       pushCString(new, start, end-start+1);
     }
     return OBJ_VAL(new);
-- 
2.43.0


From d3e5b373e3ec3b8a67f1b7637f865b093ed0b57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:25 +0000
Subject: [PATCH 69/98] fix: index outside of a string or array could end the
 process or corrupt it

---
 object.c | 2 +-
 string.c | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/object.c b/object.c
index 903113b..28ec2ea 100644
--- a/object.c
+++ b/object.c
@@ -947,7 +947,7 @@ bool arrayDeleteAt(Value self, int idx, Value *found) {
     }
     arrayDedup(AS_ARRAY(self));
     ValueArray *ary = &AS_ARRAY(self)->valAry;
-    if (ary->count > idx) {
+    if (idx >= 0 && ary->count > idx) {
         Value val = ary->values[idx];
         removeValueArray(ary, idx);
         *found = val;
diff --git a/string.c b/string.c
index c2e7405..a9efbd1 100644
--- a/string.c
+++ b/string.c
@@ -162,6 +162,12 @@ static Value lxStringClear(int argCount, Value *args) {
     return self;
 }
 
+static void checkInsertIndex(ObjString *str, int at) {
+    if (at < 0 || (size_t)at > str->length) {
+        throwArgErrorFmt("%s", "index out of range");
+    }
+}
+
 // NOTE: works on bytes, not codepoints for multibyte chars
 static Value lxStringInsertAt(int argCount, Value *args) {
     CHECK_ARITY("String#insertAt", 3, 3, argCount);
@@ -170,6 +176,7 @@ static Value lxStringInsertAt(int argCount, Value *args) {
     Value at = args[2];
     CHECK_ARG_IS_A(insert, lxStringClass, 1);
     CHECK_ARG_BUILTIN_TYPE(at, IS_NUMBER_FUNC, "number", 2);
+    checkInsertIndex(AS_STRING(self), (int)AS_NUMBER(at));
     dedupString(AS_STRING(self));
     stringInsertAt(self, insert, (int)AS_NUMBER(at), false);
     return self;
@@ -210,6 +217,7 @@ static Value lxStringOpIndexSet(int argCount, Value *args) {
     if (strlen(chars) == 1) {
       stringIndexSet(self, AS_NUMBER(index), chr);
     } else {
+      checkInsertIndex(AS_STRING(self), (int)AS_NUMBER(index));
       stringInsertAt(self, chrStr, (int)AS_NUMBER(index), true);
     }
     return self;
-- 
2.43.0


From 2bba25acc2e92860a6e14f7221d17adcc5041ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:25 +0000
Subject: [PATCH 70/98] fix: Array#toString left out the comma after a
 reference to the array itself

---
 array.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/array.c b/array.c
index 2566c06..c1dd7e9 100644
--- a/array.c
+++ b/array.c
@@ -211,13 +211,10 @@ static Value lxArrayToString(int argCount, Value *args) {
         Value elVal = ary->values[i];
         if (IS_OBJ(elVal) && (AS_OBJ(elVal) == selfObj)) {
             pushCString(bufRet, "[...]", 5);
-            continue;
-        }
-        if (IS_OBJ(elVal)) {
-            DBG_ASSERT(AS_OBJ(elVal)->type > OBJ_T_NONE);
+        } else {
+            ObjString *buf = valueToString(elVal, copyString, NEWOBJ_FLAG_NONE);
+            pushCString(bufRet, buf->chars, strlen(buf->chars));
         }
-        ObjString *buf = valueToString(elVal, copyString, NEWOBJ_FLAG_NONE);
-        pushCString(bufRet, buf->chars, strlen(buf->chars));
         if (i < (ary->count-1)) {
             pushCString(bufRet, ",", 1);
         }
-- 
2.43.0


From 6d7726aa2a56265f36c570d4ca4d806bd453f2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:25 +0000
Subject: [PATCH 71/98] fix: entries of a merged map could be freed while it
 was used

---
 map.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/map.c b/map.c
index 2e77184..6a7cf5d 100644
--- a/map.c
+++ b/map.c
@@ -250,15 +250,15 @@ static Value lxMapMerge(int argCount, Value *args) {
     CHECK_ARITY("Map#merge", 2, 2, argCount);
     Value self = args[0];
     Value other = args[1];
-    Table *otherMap = AS_MAP(other)->table;
     CHECK_ARG_IS_A(other, lxMapClass, 1);
+    Table *otherMap = AS_MAP(other)->table;
     Value ret = callMethod(AS_OBJ(self), INTERN("dup"), 0, NULL, NULL);
     Table *retMap = AS_MAP(ret)->table;
     Entry e; int idx = 0;
     TABLE_FOREACH(otherMap, e, idx, {
         tableSet(retMap, e.key, e.value);
-        OBJ_WRITE(other, e.key);
-        OBJ_WRITE(other, e.value);
+        OBJ_WRITE(ret, e.key);
+        OBJ_WRITE(ret, e.value);
     });
     return ret;
 }
@@ -269,8 +269,8 @@ static Value lxMapMergeWith(int argCount, Value *args) {
     Value self = args[0];
     Value other = args[1];
     Table *myMap = AS_MAP(self)->table;
-    Table *otherMap = AS_MAP(other)->table;
     CHECK_ARG_IS_A(other, lxMapClass, 1);
+    Table *otherMap = AS_MAP(other)->table;
     if (isFrozen(AS_OBJ(self))) {
         throwErrorFmt(lxErrClass, "%s", "Map is frozen, cannot modify");
     }
-- 
2.43.0


From cdca6d927e5fed513523820d6fdfd5b6f2e02069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:10 +0000
Subject: [PATCH 72/98] fix: deleting a map key left a broken map when another
 key's hashKey() raised an error

---
 table.c | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/table.c b/table.c
index 722cefc..02743e5 100644
--- a/table.c
+++ b/table.c
@@ -147,22 +147,30 @@ bool tableDelete(Table* table, Value key) {
     if (IS_UNDEF(entry->key)) return false;
 
     // Later entries may have been pushed past this one and may need to be
-    // moved up to fill the hole. Entries stay in the table while valHash()
-    // calls their hashKey() methods, so that they're not collected.
-    uint32_t next = index;
-    for (;;) {
-        next = (next + 1) & table->capacityMask;
-        if (IS_UNDEF(table->entries[next].key)) break;
-
-        uint32_t wanted = valHash(table->entries[next].key) & table->capacityMask;
-        bool reachable = index <= next ? (index < wanted && wanted <= next) :
-            (index < wanted || wanted <= next);
+    // moved up to fill the hole. valHash() can call their hashKey() methods,
+    // which can start a collection or raise an error, so it's called for all of
+    // them before the table is changed.
+    uint32_t mask = (uint32_t)table->capacityMask;
+    uint32_t numLater = 0;
+    while (!IS_UNDEF(table->entries[(index + 1 + numLater) & mask].key)) numLater++;
+    uint32_t wantedBuf[64];
+    uint32_t *wanted = numLater <= 64 ? wantedBuf : xmalloc(sizeof(uint32_t)*numLater);
+    ASSERT_MEM(wanted);
+    for (uint32_t i = 0; i < numLater; i++) {
+        wanted[i] = valHash(table->entries[(index + 1 + i) & mask].key) & mask;
+    }
+    uint32_t hole = index;
+    for (uint32_t i = 0; i < numLater; i++) {
+        uint32_t next = (index + 1 + i) & mask;
+        bool reachable = hole <= next ? (hole < wanted[i] && wanted[i] <= next) :
+            (hole < wanted[i] || wanted[i] <= next);
         if (reachable) continue; // not found through the hole
-        table->entries[index] = table->entries[next];
-        index = next;
+        table->entries[hole] = table->entries[next];
+        hole = next;
     }
-    table->entries[index].key = TBL_EMPTY_KEY;
-    table->entries[index].value = NIL_VAL;
+    if (wanted != wantedBuf) xfree(wanted);
+    table->entries[hole].key = TBL_EMPTY_KEY;
+    table->entries[hole].value = NIL_VAL;
     table->count--;
 
     return true;
-- 
2.43.0


From b278bb2090445fa7eef90757b9eec921017db1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:38 +0000
Subject: [PATCH 73/98] fix: error raised by a hashKey() method was swallowed,
 and the map used a wrong hash

---
 thread.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/thread.c b/thread.c
index 0651928..7739b3e 100644
--- a/thread.c
+++ b/thread.c
@@ -750,11 +750,13 @@ Value execStopRecursion(stopRecursionFn fn, Value obj, Value arg) {
         removeSeenSet(p.seenSet, AS_OBJ(p.obj));
     }
     if (status != TAG_NONE) {
+        ErrTagInfo *info = THREAD()->errInfo;
+        if (!IS_A(info->caughtError, lxRecursionErrClass)) {
+            rethrowErrInfo(info);
+        }
         popErrInfo();
-        return result;
-    } else {
-        return result;
     }
+    return result;
 }
 
 void Init_ThreadClass() {
-- 
2.43.0


From f743dfe92eb1f18d1a68f719d79b624c678ef944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:38 +0000
Subject: [PATCH 74/98] fix: sortBy treated results between -1 and 1 as equal

---
 object.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/object.c b/object.c
index 28ec2ea..ead91e3 100644
--- a/object.c
+++ b/object.c
@@ -809,7 +809,8 @@ static int valCmpBlock(const void *a, const void *b) {
     if (!IS_NUMBER(res)) {
         throwErrorFmt(lxTypeErrClass, "sort block must return a number");
     }
-    return (int)AS_NUMBER(res);
+    double cmp = AS_NUMBER(res);
+    return (cmp > 0) - (cmp < 0);
 }
 
 Value arraySort(Value aryVal) {
-- 
2.43.0


From 8b32249d9a1782808aaaabef092037aa45f6c4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:12 +0000
Subject: [PATCH 75/98] fix: IO.select cut timeouts to whole seconds, failed on
 signals, left out ready files and read changed lists

---
 io.c | 73 +++++++++++++++++++++++++++++++++++++++---------------------
 1 file changed, 48 insertions(+), 25 deletions(-)

diff --git a/io.c b/io.c
index 80dd7ac..4d8c590 100644
--- a/io.c
+++ b/io.c
@@ -1,5 +1,7 @@
 #include <unistd.h>
 #include <errno.h>
+#include <limits.h>
+#include <time.h>
 #include <sys/stat.h>
 #include <sys/types.h>
 #include <fcntl.h>
@@ -336,14 +338,15 @@ static Value lxIOPipeStatic(int argCount, Value *args) {
 // IO.select(rds, wrs, errs, [timeout]);
 static Value lxIOSelectStatic(int argCount, Value *args) {
     CHECK_ARITY("IO.select", 4, 5, argCount);
+    fd_set given[3];
     fd_set fds[3];
-    FD_ZERO(&fds[0]);
-    FD_ZERO(&fds[1]);
-    FD_ZERO(&fds[2]);
     int highestFd = 0;
-    ValueArray *valueArrays[3];
+    // the lists given can be changed by other threads during the wait
+    Value lists[3];
     for (int i = 1; i < 4; i++) {
         CHECK_ARG_IS_A(args[i], lxAryClass, i);
+        FD_ZERO(&given[i-1]);
+        lists[i-1] = newArray();
         ValueArray *ary = &AS_ARRAY(args[i])->valAry;
         Value el; int valIdx = 0;
         VALARRAY_FOREACH(ary, el, valIdx) {
@@ -351,34 +354,56 @@ static Value lxIOSelectStatic(int argCount, Value *args) {
                 throwErrorFmt(lxErrClass, "Non-IO object given to IO.select");
             }
             LxFile *f = FILE_GETHIDDEN(el);
-            FD_SET(f->fd, &fds[i-1]);
+            if (!f->isOpen) {
+                throwErrorFmt(lxErrClass, "IO error: cannot select closed fd: %d", f->fd);
+            }
+            if (f->fd >= FD_SETSIZE) {
+                throwErrorFmt(lxErrClass, "IO error: fd too large for select: %d", f->fd);
+            }
+            FD_SET(f->fd, &given[i-1]);
             if (f->fd > highestFd) {
                 highestFd = f->fd;
             }
+            arrayPush(lists[i-1], el);
         }
-        valueArrays[i-1] = ary;
     }
-    struct timeval timeout;
-    timeout.tv_sec = 0;
-    timeout.tv_usec = 0;
+    double secs = 0;
     if (argCount == 5) {
         CHECK_ARG_BUILTIN_TYPE(args[4], IS_NUMBER_FUNC, "number", 5);
-        int secs = (int)AS_NUMBER(args[4]);
-        if (secs > 0) {
-            timeout.tv_sec = secs;
-        }
+        secs = AS_NUMBER(args[4]);
+        if (!(secs > 0)) secs = 0;
+        if (secs > INT_MAX) secs = INT_MAX;
     }
+    struct timespec now;
+    clock_gettime(CLOCK_MONOTONIC, &now);
+    double deadline = now.tv_sec + now.tv_nsec / 1e9 + secs;
     int last = errno;
-    releaseGVL(THREAD_STOPPED);
-    int res = select(highestFd+1, &fds[0], &fds[1], &fds[2], &timeout);
-    acquireGVL();
-    if (res == -1) {
+    int res;
+    while (true) {
+        struct timeval timeout;
+        timeout.tv_sec = (time_t)secs;
+        timeout.tv_usec = (suseconds_t)((secs - timeout.tv_sec) * 1e6) + 1;
+        if (secs == 0) timeout.tv_usec = 0;
+        if (timeout.tv_usec > 999999) {
+            timeout.tv_sec += 1;
+            timeout.tv_usec = 0;
+        }
+        memcpy(fds, given, sizeof(fds));
+        releaseGVL(THREAD_STOPPED);
+        res = select(highestFd+1, &fds[0], &fds[1], &fds[2], &timeout);
         int err = errno;
-        errno = last;
-        throwErrorFmt(sysErrClass(err), "Error from select: %s", strerror(err));
+        acquireGVL();
+        if (res != -1) break;
+        if (err != EINTR) {
+            errno = last;
+            throwErrorFmt(sysErrClass(err), "Error from select: %s", strerror(err));
+        }
+        VM_CHECK_INTS(THREAD());
+        clock_gettime(CLOCK_MONOTONIC, &now);
+        secs = deadline - (now.tv_sec + now.tv_nsec / 1e9);
+        if (secs < 0) secs = 0;
     }
-    int numReady = res;
-    if (numReady == 0) { // timeout
+    if (res == 0) { // timeout
         return NIL_VAL;
     }
 
@@ -395,16 +420,14 @@ static Value lxIOSelectStatic(int argCount, Value *args) {
     arrayPush(ret, readersRdy);
     arrayPush(ret, writersRdy);
     arrayPush(ret, errorsRdy);
-    if (res == 0) return ret;
 
-    for (int i = 0; i < 3 && numReady > 0; i++) {
-        ValueArray *ary = valueArrays[i];
+    for (int i = 0; i < 3; i++) {
+        ValueArray *ary = &AS_ARRAY(lists[i])->valAry;
         Value io; int valIdx = 0;
         VALARRAY_FOREACH(ary, io, valIdx) {
             LxFile *f = FILE_GETHIDDEN(io);
             if (FD_ISSET(f->fd, &fds[i])) {
                 arrayPush(ioArrays[i], io);
-                numReady--;
             }
         }
     }
-- 
2.43.0


From 1cebd0bc27c6987a4eb9c0ceaae6ac57d078318c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:06 +0000
Subject: [PATCH 76/98] fix: a script file was run without the part that its
 first read() left out, and its descriptor leaked

---
 compiler.c | 66 +++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 53 insertions(+), 13 deletions(-)

diff --git a/compiler.c b/compiler.c
index 2cd91ab..d86cd3b 100644
--- a/compiler.c
+++ b/compiler.c
@@ -7,6 +7,7 @@
 #include <stdlib.h>
 #include <inttypes.h>
 #include <stddef.h>
+#include <errno.h>
 #include "compiler.h"
 #include "nodes.h"
 #include "scanner.h"
@@ -2801,29 +2802,68 @@ ObjFunction *compile_binding_eval_src(char *src, CompileErr *err, ObjScope *scop
     }
 }
 
-ObjFunction *compile_file(char *fname, CompileErr *err) {
-    int fd = open(fname, O_RDONLY);
+// Reads the whole file, however many read() calls that takes. Returns NULL on
+// error, with errno set.
+static char *readSourceFile(char *fname) {
+    int fd;
+    do {
+        fd = open(fname, O_RDONLY);
+    } while (fd == -1 && errno == EINTR);
     if (fd == -1) {
-        *err = COMPILE_ERR_ERRNO;
         return NULL;
     }
     struct stat st;
-    int res = fstat(fd, &st);
-    if (res != 0) {
-        *err = COMPILE_ERR_ERRNO;
+    if (fstat(fd, &st) != 0) {
+        int err = errno;
+        close(fd);
+        errno = err;
         return NULL;
     }
-    // TODO: free this buf or have function own it
-    char *buf = xcalloc(1, st.st_size+1);
+    size_t capa = (size_t)st.st_size+1;
+    size_t len = 0;
+    char *buf = xcalloc(1, capa);
     ASSERT_MEM(buf);
-    res = (int)read(fd, buf, st.st_size);
-    if (res == -1) {
+    while (true) {
+        if (len+1 == capa) { // full, perhaps the file has grown
+            char probe;
+            ssize_t nread = read(fd, &probe, 1);
+            if (nread == 0) break;
+            if (nread == 1) {
+                capa = capa*2+1;
+                buf = realloc(buf, capa);
+                ASSERT_MEM(buf);
+                buf[len++] = probe;
+                continue;
+            }
+        } else {
+            ssize_t nread = read(fd, buf+len, capa-1-len);
+            if (nread == 0) break;
+            if (nread > 0) {
+                len += (size_t)nread;
+                continue;
+            }
+        }
+        if (errno != EINTR) {
+            int err = errno;
+            close(fd);
+            xfree(buf);
+            errno = err;
+            return NULL;
+        }
+    }
+    close(fd);
+    buf[len] = '\0';
+    return buf;
+}
+
+ObjFunction *compile_file(char *fname, CompileErr *err) {
+    // TODO: free this buf or have function own it
+    char *buf = readSourceFile(fname);
+    if (buf == NULL) {
         *err = COMPILE_ERR_ERRNO;
-        xfree(buf);
         return NULL;
     }
-    ObjFunction *func = compile_src(buf, err);
-    return func;
+    return compile_src(buf, err);
 }
 
 void grayCompilerRoots(void) {
-- 
2.43.0


From 7c4d66e7d3341bc7f2a81b6e13a6990a1d0c8772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:38 +0000
Subject: [PATCH 77/98] fix: script path lookup lost relative load path
 entries, overran its buffer and called unreadable files syntax errors

---
 runtime.c | 70 +++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 45 insertions(+), 25 deletions(-)

diff --git a/runtime.c b/runtime.c
index 688c89c..387813b 100644
--- a/runtime.c
+++ b/runtime.c
@@ -216,7 +216,7 @@ ObjString *constantQualifiedPart(ObjString *name, int npart) {
 // Does this file exist and is it readable?
 static bool fileReadable(char *fname) {
     struct stat buffer;
-    return (stat(fname, &buffer) == 0);
+    return stat(fname, &buffer) == 0 && !S_ISDIR(buffer.st_mode);
 }
 
 Value lxClock(int argCount, Value *args) {
@@ -634,7 +634,9 @@ static const char *get_filename_ext(const char *filename) {
 }
 
 static bool hasSharedObjectExtension(const char *path) {
-  return strncmp(get_filename_ext(path), "so", 2) == 0;
+  const char *lastSlash = strrchr(path, pathSeparator);
+  const char *name = lastSlash ? lastSlash+1 : path;
+  return strcmp(get_filename_ext(name), "so") == 0;
 }
 
 // assumes `path` is an absolute path
@@ -673,6 +675,15 @@ static bool loadSharedObject(const char *path) {
 
 #define SCRIPT_PATH_MAX (PATH_MAX+1)
 #define SCRIPT_DIR_MAX (PATH_MAX+1-100)
+// Appends to `pathbuf`, false if there's no room for it
+static bool scriptPathCat(char *pathbuf, const char *part) {
+    if (strlen(pathbuf)+strlen(part) >= SCRIPT_PATH_MAX) {
+        return false;
+    }
+    strcat(pathbuf, part);
+    return true;
+}
+
 static Value loadScriptHelper(Value fname, bool checkLoaded) {
     char *cfile = VAL_TO_STRING(fname)->chars;
     bool isAbsFile = cfile[0] == pathSeparator;
@@ -681,8 +692,7 @@ static Value loadScriptHelper(Value fname, bool checkLoaded) {
     bool triedCurdir = false;
     bool fileFound = false;
     if (isAbsFile) {
-        memcpy(pathbuf, cfile, strlen(cfile));
-        fileFound = true;
+        fileFound = scriptPathCat(pathbuf, cfile);
     } else {
         Value el; int i = 0;
         LXARRAY_FOREACH(OBJ_VAL(lxLoadPath), el, i) {
@@ -692,40 +702,47 @@ static Value loadScriptHelper(Value fname, bool checkLoaded) {
             }
             char *dir = VAL_TO_STRING(el)->chars;
             memset(pathbuf, 0, SCRIPT_PATH_MAX);
-            memcpy(pathbuf, dir, strlen(dir));
-            if (strncmp(pathbuf, ".", 1) == 0) { // "./path/to/file.lox"
+            if (dir[0] == '.' && (dir[1] == '\0' || dir[1] == pathSeparator)) { // "./path/to"
                 if (!curdir[0] && !triedCurdir) {
                     char *cwdres = getcwd(curdir, SCRIPT_DIR_MAX);
                     triedCurdir = true;
                     if (cwdres == NULL) {
+                        curdir[0] = '\0';
                         fprintf(stderr,
                                 "Couldn't get current working directory for loading script!"
                                 " Maybe too long?\n");
-                        continue;
                     }
                 }
-                memcpy(pathbuf, curdir, strlen(curdir));
+                if (!curdir[0]) {
+                    continue;
+                }
+                strcpy(pathbuf, curdir);
+                dir++;
             }
-            if (dir[strlen(dir)-1] != pathSeparator) { // add trailing '/'
-                strncat(pathbuf, &pathSeparator, 1);
+            if (!scriptPathCat(pathbuf, dir)) {
+                continue;
             }
-            strcat(pathbuf, cfile);
-            bool isReadable = false;
-            bool triedAddingLoxExt = false;
-            bool triedAddingSOExt = false;
-readableCheck:
-            isReadable = fileReadable(pathbuf);
-            if (!isReadable) {
-                if (!triedAddingLoxExt && !strstr(pathbuf, ".lox") && strlen(pathbuf)+4 < SCRIPT_PATH_MAX) {
-                    strcat(pathbuf, ".lox");
-                    triedAddingLoxExt = true;
-                    goto readableCheck;
+            size_t dirlen = strlen(pathbuf);
+            if (dirlen > 0 && pathbuf[dirlen-1] != pathSeparator) { // add trailing '/'
+                if (!scriptPathCat(pathbuf, "/")) {
+                    continue;
                 }
-                if (!triedAddingSOExt && !strstr(pathbuf, ".so") && strlen(pathbuf)+3 < SCRIPT_PATH_MAX) {
-                  strcat(pathbuf, ".so");
-                  triedAddingSOExt = true;
-                  goto readableCheck;
+            }
+            if (!scriptPathCat(pathbuf, cfile)) {
+                continue;
+            }
+            size_t baselen = strlen(pathbuf);
+            bool found = fileReadable(pathbuf);
+            if (!found && !strstr(cfile, ".lox") && scriptPathCat(pathbuf, ".lox")) {
+                found = fileReadable(pathbuf);
+            }
+            if (!found && !strstr(cfile, ".so")) {
+                pathbuf[baselen] = '\0';
+                if (scriptPathCat(pathbuf, ".so")) {
+                    found = fileReadable(pathbuf);
                 }
+            }
+            if (!found) {
                 continue; // look in other directories for file
             }
             fileFound = true;
@@ -753,6 +770,9 @@ readableCheck:
         if (func) {
             unhideFromGC(TO_OBJ(func));
         }
+        if (err == COMPILE_ERR_ERRNO) { // couldn't open or read it
+            throwErrorFmt(lxLoadErrClass, "Error loading file '%s': %s", cfile, strerror(errno));
+        }
         throwErrorFmt(lxSyntaxErrClass, "%s", "Syntax error");
     }
     ObjString *fpath = copyString(pathbuf, strlen(pathbuf), NEWOBJ_FLAG_OLD);
-- 
2.43.0


From 1b830569057c5fb1ce4a6c5111892d205ef36d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:29 +0000
Subject: [PATCH 78/98] fix: a script on standard input was cut by short writes
 and read from an unterminated temporary name

---
 main.c | 44 +++++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/main.c b/main.c
index a7b1a34..a5b4a05 100644
--- a/main.c
+++ b/main.c
@@ -8,6 +8,7 @@
 #include "memory.h"
 #include <stdio.h>
 #include <unistd.h>
+#include <limits.h>
 #include <errno.h>
 #include <string.h>
 #include <stdlib.h>
@@ -64,10 +65,12 @@ int main(int argc, char *argv[]) {
     // Normalize filename to full path to file. Don't yet check if the file
     // exists, though.
     if (!interactive && strlen(fname) > 0 && fname[0] != pathSeparator) {
-        char dirbuf[350];
-        memset(dirbuf, 0, 350);
-        char *cwdres = getcwd(dirbuf, 250);
+        char cwdbuf[PATH_MAX];
+        char *cwdres = getcwd(cwdbuf, PATH_MAX);
         if (cwdres != NULL) {
+            char *dirbuf = (char*)calloc(1, strlen(cwdbuf)+strlen(fname)+2);
+            ASSERT_MEM(dirbuf);
+            strcpy(dirbuf, cwdbuf);
             if (dirbuf[strlen(dirbuf)-1] != pathSeparator) {
                 strncat(dirbuf, &pathSeparator, 1);
             }
@@ -76,10 +79,7 @@ int main(int argc, char *argv[]) {
             } else {
                 strcat(dirbuf, fname);
             }
-            char *fullPath = (char*)calloc(1, strlen(dirbuf)+1);
-            ASSERT_MEM(fullPath);
-            strcpy(fullPath, dirbuf);
-            fname = fullPath;
+            fname = dirbuf;
             SET_OPTION(initialScript, fname);
         }
     }
@@ -95,7 +95,7 @@ int main(int argc, char *argv[]) {
     if (useStdin) {
         const char *tmpTemplate = "/tmp/clox-stdin-XXXXXX";
         char tmpNameBuf[32];
-        strncpy(tmpNameBuf, tmpTemplate, strlen(tmpTemplate));
+        strcpy(tmpNameBuf, tmpTemplate);
         int tmpfno = mkstemp(tmpNameBuf);
         if (tmpfno < 0) {
             die("mkstemp error while creating tempfile name: %s", strerror(errno));
@@ -103,22 +103,32 @@ int main(int argc, char *argv[]) {
         char buf[4096];
         ssize_t nread = 0;
         int stdinno = fileno(stdin);
-        while ((nread = read(stdinno, buf, 4096)) > 0) {
-            ssize_t writeRes = write(tmpfno, buf, nread);
-            if (writeRes < 0) {
+        while ((nread = read(stdinno, buf, 4096)) != 0) {
+            if (nread < 0) {
+                if (errno == EINTR) continue;
+                int err = errno;
                 unlink(tmpNameBuf);
-                die("Error writing to tmpfile: %s", strerror(errno));
+                die("Error reading from stdin: %s", strerror(err));
+            }
+            ssize_t nwritten = 0;
+            while (nwritten < nread) {
+                ssize_t writeRes = write(tmpfno, buf+nwritten, nread-nwritten);
+                if (writeRes < 0) {
+                    if (errno == EINTR) continue;
+                    int err = errno;
+                    unlink(tmpNameBuf);
+                    die("Error writing to tmpfile: %s", strerror(err));
+                }
+                nwritten += writeRes;
             }
         }
-        if (nread < 0) {
-            unlink(tmpNameBuf);
-            die("Error reading from stdin: %s", strerror(errno));
-        }
+        close(tmpfno);
         fname = strdup(tmpNameBuf);
     }
 
     initVM();
     ObjFunction *func = compile_file(fname, &err);
+    int compileErrno = errno;
     if (useStdin) {
         unlink(fname);
     }
@@ -130,7 +140,7 @@ int main(int argc, char *argv[]) {
         } else {
             freeVM();
             if (err == COMPILE_ERR_ERRNO) {
-                die("Compile error: %s", strerror(errno));
+                die("Compile error: %s", strerror(compileErrno));
             } else {
                 // error reported elsewhere, in compiler.c
                 die("%s", "Compile error");
-- 
2.43.0


From 87cf03ae7949e51a3dff0dd9b0a307d9c148496d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:19 +0000
Subject: [PATCH 79/98] fix: classes of a script loaded from a method were
 defined under the class of that method

---
 vm.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vm.c b/vm.c
index de40739..06e39e8 100644
--- a/vm.c
+++ b/vm.c
@@ -3546,8 +3546,16 @@ InterpretResult loadScript(ObjFunction *func, char *filename) {
 
     setupPerScriptROGlobals(filename);
 
+    // The script's constants are top-level ones, even if it's loaded from
+    // inside a class, for example by an autoload.
+    LxThread *th = vm.curThread;
+    vec_void_t oldCrefStack = th->v_crefStack;
+    vec_init(&th->v_crefStack);
+
     ErrTag status = TAG_NONE;
     vm_protect(vm_run_protect, NULL, NULL, &status);
+    vec_deinit(&th->v_crefStack);
+    th->v_crefStack = oldCrefStack;
     // `EC != ectx` if an error occured in the script, and propagated out
     // due to being caught in a calling script or never being caught.
     if (EC == ectx) pop_EC();
-- 
2.43.0


From 08d79fc272757ee8f038ab4bbd2b16c93fa5ae0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:23 +0000
Subject: [PATCH 80/98] fix: File.read, File.readLines and File#unlink left
 descriptors open

---
 file.c | 115 +++++++++++++++++++++++++++++----------------------------
 1 file changed, 58 insertions(+), 57 deletions(-)

diff --git a/file.c b/file.c
index 3179d22..a4224dd 100644
--- a/file.c
+++ b/file.c
@@ -34,16 +34,24 @@ static int fileExists(char *fname) {
     }
 }
 
+// The path given can be changed by other threads while the GVL is released
+static ObjString *copyPath(Value path) {
+    return dupString(VAL_TO_STRING(path));
+}
+
 static int checkOpen(const char *fname, int flags, mode_t mode) {
     int last = errno;
     releaseGVL(THREAD_STOPPED);
-    int fd = open(fname, flags, mode);
+    int fd;
+    do {
+        fd = open(fname, flags, mode);
+    } while (fd < 0 && errno == EINTR);
+    int err = errno;
     acquireGVL();
     if (fd < 0) {
-        int err = errno;
         errno = last;
         const char *operation = "opening";
-        if ((mode & O_CREAT) != 0) {
+        if ((flags & O_CREAT) != 0) {
             operation = "creating";
         }
         throwErrorFmt(sysErrClass(err), "Error %s File '%s': %s", operation, fname, strerror(err));
@@ -51,34 +59,27 @@ static int checkOpen(const char *fname, int flags, mode_t mode) {
     return fd;
 }
 
-static FILE *checkFopen(const char *path, const char *modeStr) {
-    int last = errno;
-    releaseGVL(THREAD_STOPPED);
-    FILE *f = fopen(path, modeStr);
-    acquireGVL();
-    if (!f) {
-        int err = errno;
-        errno = last;
-        throwErrorFmt(sysErrClass(err), "Error opening File '%s': %s", path, strerror(err));
-    }
-    return f;
-}
+typedef struct FileReader {
+    int fd;
+    void *(*read)(int fd); // may throw
+} FileReader;
 
-static int checkFclose(FILE *stream) {
-    int last = errno;
-    int res = fclose(stream);
-    errno = last;
-    return res;
+static void *callFileReader(void *arg) {
+    FileReader *reader = (FileReader*)arg;
+    return reader->read(reader->fd);
 }
 
-static void checkFerror(FILE *f, const char *op, const char *fname) {
-    int last = errno;
-    int readErr = ferror(f);
-    if (readErr != 0) {
-        int err = errno;
-        errno = last;
-        throwErrorFmt(sysErrClass(err), "Error %s File '%s': %s", op, fname, strerror(err));
+// Opens the file, calls `read` with its descriptor and closes it again, also
+// if there's an error.
+static void *readFileWith(const char *path, void *(*read)(int fd)) {
+    FileReader reader = { .fd = checkOpen(path, O_RDONLY|O_CLOEXEC, 0), .read = read };
+    ErrTag status = TAG_NONE;
+    void *ret = vm_protect(callFileReader, &reader, NULL, &status);
+    close(reader.fd);
+    if (status == TAG_RAISE) {
+        rethrowErrInfo(THREAD()->errInfo);
     }
+    return ret;
 }
 
 static void checkFileExists(char *fname) {
@@ -92,16 +93,17 @@ static void checkFileExists(char *fname) {
     }
 }
 
+static void *readWholeFile(int fd) {
+    return IOReadFd(fd, 0, true, false);
+}
+
 static Value lxFileReadStatic(int argCount, Value *args) {
     CHECK_ARITY("File.read", 2, 2, argCount);
     Value fname = args[1];
     CHECK_ARG_IS_A(fname, lxStringClass, 1);
-    ObjString *fnameStr = VAL_TO_STRING(fname);
+    ObjString *fnameStr = copyPath(fname);
     checkFileExists(fnameStr->chars);
-    FILE *f = checkFopen(fnameStr->chars, "r");
-    ObjString *buf = IOReadFd(fileno(f), 0, true, false);
-    checkFclose(f);
-    return OBJ_VAL(buf);
+    return OBJ_VAL(readFileWith(fnameStr->chars, readWholeFile));
 }
 
 static Value lxFileStatStatic(int argCount, Value *args) {
@@ -135,26 +137,15 @@ static Value lxFileGroupStatic(int argCount, Value *args) {
     return ret;
 }
 
-static Value lxFileReadLinesStatic(int argCount, Value *args) {
-    CHECK_ARITY("File.readLines", 2, 2, argCount);
-    Value fname = args[1];
-    CHECK_ARG_IS_A(fname, lxStringClass, 1);
-    ObjString *fnameStr = VAL_TO_STRING(fname);
-    checkFileExists(fnameStr->chars);
-    FILE *f = checkFopen(fnameStr->chars, "r");
+static void *readFileLines(int fd) {
     Value ary = newArray();
-    size_t nread = 0;
     Value line = NIL_VAL;
     bool leftoverLine = false;
-    char fileReadBuf[READBUF_SZ];
     while (true) {
-        // NOTE: objects can only be allocated while holding the GVL
-        releaseGVL(THREAD_STOPPED);
-        nread = fread(fileReadBuf, 1, sizeof(fileReadBuf), f);
-        acquireGVL();
-        if (nread == 0) break;
-        size_t nleft = nread;
-        char *bufp = fileReadBuf;
+        ObjString *chunk = IOReadFd(fd, READBUF_SZ, false, false);
+        size_t nleft = chunk->length;
+        if (nleft == 0) break;
+        char *bufp = chunk->chars;
         while (nleft > 0) {
             char *nl = memchr(bufp, '\n', nleft);
             size_t len = nl ? (size_t)(nl-bufp)+1 : nleft;
@@ -169,9 +160,16 @@ static Value lxFileReadLinesStatic(int argCount, Value *args) {
             nleft -= len;
         }
     }
-    checkFerror(f, "reading", fnameStr->chars);
-    checkFclose(f);
-    return ary;
+    return AS_OBJ(ary);
+}
+
+static Value lxFileReadLinesStatic(int argCount, Value *args) {
+    CHECK_ARITY("File.readLines", 2, 2, argCount);
+    Value fname = args[1];
+    CHECK_ARG_IS_A(fname, lxStringClass, 1);
+    ObjString *fnameStr = copyPath(fname);
+    checkFileExists(fnameStr->chars);
+    return OBJ_VAL(readFileWith(fnameStr->chars, readFileLines));
 }
 
 static Value lxFileStaticIsDir(int argCount, Value *args) {
@@ -302,9 +300,8 @@ static Value lxFileInit(int argCount, Value *args) {
     Value self = args[0];
     Value fname = args[1];
     CHECK_ARG_IS_A(fname, lxStringClass, 1);
-    ObjString *fnameStr = VAL_TO_STRING(fname);
-    FILE *f = checkFopen(fnameStr->chars, "r+");
-    int fd = fileno(f);
+    ObjString *fnameStr = copyPath(fname);
+    int fd = checkOpen(fnameStr->chars, O_RDWR|O_CLOEXEC, 0);
     initIOAfterOpen(self, fnameStr, fd, 0, O_RDWR);
     return self;
 }
@@ -320,7 +317,7 @@ static Value lxFileCreateStatic(int argCount, Value *args) {
       CHECK_ARG_BUILTIN_TYPE(modeVal, IS_NUMBER_FUNC, "number", 2);
       mode = AS_NUMBER(modeVal);
     }
-    ObjString *fnameStr = VAL_TO_STRING(fname);
+    ObjString *fnameStr = copyPath(fname);
     int fd = checkOpen(fnameStr->chars, flags, mode);
     Value file = OBJ_VAL(newInstance(lxFileClass, NEWOBJ_FLAG_NONE));
     initIOAfterOpen(file, fnameStr, fd, mode, flags);
@@ -332,7 +329,7 @@ static Value lxFileOpenStatic(int argCount, Value *args) {
     CHECK_ARITY("File.open", 2, 4, argCount);
     Value fname = args[1];
     CHECK_ARG_IS_A(fname, lxStringClass, 1);
-    ObjString *fnameStr = VAL_TO_STRING(fname);
+    ObjString *fnameStr = copyPath(fname);
     int flags = O_RDWR|O_CLOEXEC;
     mode_t mode = 0644;
     if (argCount > 2) {
@@ -401,7 +398,11 @@ static Value lxFileUnlink(int argCount, Value *args) {
     LxFile *f = FILE_GETHIDDEN(self);
     int last = errno;
     if (unlink(f->name->chars) == 0) {
-        f->isOpen = false;
+        if (f->isOpen) {
+            f->isOpen = false;
+            close(f->fd);
+        }
+        errno = last;
         return BOOL_VAL(true);
     } else {
         int err = errno;
-- 
2.43.0


From 2bfb8478d5ff2d8573c58e2c92f187ad25a589f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:03 +0000
Subject: [PATCH 81/98] fix: File.copy lost data on short writes, hid read
 errors and threw without the VM lock

---
 file.c | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/file.c b/file.c
index a4224dd..e19a6a4 100644
--- a/file.c
+++ b/file.c
@@ -186,6 +186,12 @@ static Value lxFileStaticIsDir(int argCount, Value *args) {
     return BOOL_VAL(S_ISDIR(st.st_mode));
 }
 
+static void checkFileOpen(LxFile *f) {
+    if (!f->isOpen) {
+        throwErrorFmt(lxErrClass, "File '%s' is not open", f->name->chars);
+    }
+}
+
 static Value lxFileStaticCopy(int argCount, Value *args) {
     CHECK_ARITY("File.copy", 3, 3, argCount);
     Value src = args[1];
@@ -194,21 +200,39 @@ static Value lxFileStaticCopy(int argCount, Value *args) {
     CHECK_ARG_IS_A(dst, lxFileClass, 2);
     LxFile *srcf = FILE_GETHIDDEN(src);
     LxFile *dstf = FILE_GETHIDDEN(dst);
+    checkFileOpen(srcf);
+    checkFileOpen(dstf);
     size_t chunkSz = 1024 * 16;
     ssize_t res = 0;
-    ssize_t bytesCopied = 0;
+    size_t bytesCopied = 0;
+    int err = 0;
+    const char *op = "read";
+    int srcFd = srcf->fd;
+    int dstFd = dstf->fd;
     char *buf = ALLOCATE(char, chunkSz);
     releaseGVL(THREAD_STOPPED);
-    while ((res = read(srcf->fd, buf, chunkSz)) > 0) {
-      int wres = write(dstf->fd, buf, res);
-      if (wres != res) {
-        FREE_SIZE(chunkSz, buf);
-        throwErrorFmt(sysErrClass(errno), "Error during write: %s", strerror(errno));
+    while (err == 0 && (res = read(srcFd, buf, chunkSz)) != 0) {
+      if (res < 0) {
+        if (errno != EINTR) err = errno;
+        continue;
+      }
+      ssize_t written = 0;
+      while (err == 0 && written < res) {
+        ssize_t wres = write(dstFd, buf+written, res-written);
+        if (wres >= 0) {
+          written += wres;
+        } else if (errno != EINTR) {
+          err = errno;
+          op = "write";
+        }
       }
-      bytesCopied += res;
+      bytesCopied += written;
     }
     acquireGVL();
     FREE_SIZE(chunkSz, buf);
+    if (err != 0) {
+      throwErrorFmt(sysErrClass(err), "Error during %s: %s", op, strerror(err));
+    }
     return NUMBER_VAL(bytesCopied);
 }
 
-- 
2.43.0


From f829f3a230d601dd66fba6de32218b429819c2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:49 +0000
Subject: [PATCH 82/98] fix: File#seek and IO#fcntl acted on closed
 descriptors, file errors could name the wrong class, and paths could be freed
 during a call

---
 file.c | 55 +++++++++++++++++++++++++++++++++----------------------
 io.c   |  3 +++
 2 files changed, 36 insertions(+), 22 deletions(-)

diff --git a/file.c b/file.c
index e19a6a4..96ecb64 100644
--- a/file.c
+++ b/file.c
@@ -177,11 +177,13 @@ static Value lxFileStaticIsDir(int argCount, Value *args) {
     Value path = args[1];
     CHECK_ARG_IS_A(path, lxStringClass, 1);
     struct stat st;
+    const char *cpath = copyPath(path)->chars;
     releaseGVL(THREAD_STOPPED);
-    int res = stat(AS_CSTRING(path), &st);
+    int res = stat(cpath, &st);
+    int err = errno;
     acquireGVL();
     if (res != 0) {
-      throwErrorFmt(sysErrClass(errno), "Error during stat for file %s: %s", AS_CSTRING(path), strerror(errno));
+      throwErrorFmt(sysErrClass(err), "Error during stat for file %s: %s", cpath, strerror(err));
     }
     return BOOL_VAL(S_ISDIR(st.st_mode));
 }
@@ -260,9 +262,10 @@ static Value lxFileStaticJoin(int argCount, Value *args) {
         lastPart = true;
       }
       Value part = args[argIdx];
+      CHECK_ARG_IS_A(part, lxStringClass, argIdx);
       char *partStr = AS_CSTRING(part);
       pushCString(pathBuf, partStr, strlen(partStr));
-      if (!lastPart && partStr[strlen(partStr)-1] != DIR_SEPARATOR_CHR) {
+      if (!lastPart && (partStr[0] == '\0' || partStr[strlen(partStr)-1] != DIR_SEPARATOR_CHR)) {
         pushCString(pathBuf, DIR_SEPARATOR_STR, 1);
       }
       argIdx++;
@@ -271,20 +274,17 @@ static Value lxFileStaticJoin(int argCount, Value *args) {
 }
 
 static ObjString *getcwdStr(void) {
-  char *buf = ALLOCATE(char, READBUF_SZ);
-  buf = getcwd(buf, READBUF_SZ);
-  if (!buf) {
-    FREE_SIZE(READBUF_SZ, buf);
+  char buf[READBUF_SZ];
+  if (!getcwd(buf, READBUF_SZ)) {
     throwErrorFmt(sysErrClass(errno), "Unable to get current working directory");
   }
-  ObjString *ret = copyString(buf, strlen(buf), NEWOBJ_FLAG_NONE);
-  FREE_SIZE(READBUF_SZ, buf);
-  return ret;
+  return copyString(buf, strlen(buf), NEWOBJ_FLAG_NONE);
 }
 
 static Value lxFileStaticExpandPath(int argCount, Value *args) {
     CHECK_ARITY("File.expandPath", 2, 3, argCount);
     Value path = args[1];
+    CHECK_ARG_IS_A(path, lxStringClass, 1);
     char *pathStr = AS_CSTRING(path);
     ObjString *buf = emptyString();
     bool isAbs = pathStr[0] == DIR_SEPARATOR_CHR;
@@ -466,6 +466,7 @@ static Value lxFileSeek(int argCount, Value *args) {
     off_t offset = (off_t)AS_NUMBER(offsetVal);
     off_t whence = (off_t)AS_NUMBER(whenceVal);
     LxFile *f = FILE_GETHIDDEN(self);
+    checkFileOpen(f);
     int last = errno;
     off_t pos = lseek(f->fd, offset, whence);
     if (pos == -1) {
@@ -492,9 +493,10 @@ static Value lxFileMode(int argCount, Value *args) {
     struct stat st;
     releaseGVL(THREAD_STOPPED);
     int res = stat(lxfile->name->chars, &st);
+    int err = errno;
     acquireGVL();
     if (res != 0) {
-      throwErrorFmt(sysErrClass(errno), "Error during stat for file %s: %s", lxfile->name->chars, strerror(errno));
+      throwErrorFmt(sysErrClass(err), "Error during stat for file %s: %s", lxfile->name->chars, strerror(err));
     }
     return NUMBER_VAL((int)st.st_mode);
 }
@@ -506,9 +508,10 @@ static Value lxFileUid(int argCount, Value *args) {
     struct stat st;
     releaseGVL(THREAD_STOPPED);
     int res = stat(lxfile->name->chars, &st);
+    int err = errno;
     acquireGVL();
     if (res != 0) {
-      throwErrorFmt(sysErrClass(errno), "Error during stat for file %s: %s", lxfile->name->chars, strerror(errno));
+      throwErrorFmt(sysErrClass(err), "Error during stat for file %s: %s", lxfile->name->chars, strerror(err));
     }
     return NUMBER_VAL((int)st.st_uid);
 }
@@ -520,9 +523,10 @@ static Value lxFileGid(int argCount, Value *args) {
     struct stat st;
     releaseGVL(THREAD_STOPPED);
     int res = stat(lxfile->name->chars, &st);
+    int err = errno;
     acquireGVL();
     if (res != 0) {
-      throwErrorFmt(sysErrClass(errno), "Error during stat for file %s: %s", lxfile->name->chars, strerror(errno));
+      throwErrorFmt(sysErrClass(err), "Error during stat for file %s: %s", lxfile->name->chars, strerror(err));
     }
     return NUMBER_VAL((int)st.st_gid);
 }
@@ -533,9 +537,10 @@ static Value lxFileIsSymlink(int argCount, Value *args) {
     struct stat st;
     releaseGVL(THREAD_STOPPED);
     int res = lstat(lxfile->name->chars, &st);
+    int err = errno;
     acquireGVL();
     if (res != 0) {
-      throwErrorFmt(sysErrClass(errno), "Error during stat for file %s: %s", lxfile->name->chars, strerror(errno));
+      throwErrorFmt(sysErrClass(err), "Error during stat for file %s: %s", lxfile->name->chars, strerror(err));
     }
     return BOOL_VAL(S_ISLNK(st.st_mode));
 }
@@ -546,9 +551,10 @@ static Value lxFileIsReg(int argCount, Value *args) {
     struct stat st;
     releaseGVL(THREAD_STOPPED);
     int res = lstat(lxfile->name->chars, &st);
+    int err = errno;
     acquireGVL();
     if (res != 0) {
-      throwErrorFmt(sysErrClass(errno), "Error during stat for file %s: %s", lxfile->name->chars, strerror(errno));
+      throwErrorFmt(sysErrClass(err), "Error during stat for file %s: %s", lxfile->name->chars, strerror(err));
     }
     return BOOL_VAL(S_ISREG(st.st_mode));
 }
@@ -563,9 +569,10 @@ static Value lxFileChmod(int argCount, Value *args) {
     LxFile *lxfile = FILE_GETHIDDEN(args[0]);
     releaseGVL(THREAD_STOPPED);
     int res = chmod(lxfile->name->chars, mode);
+    int err = errno;
     acquireGVL();
     if (res != 0) {
-        throwErrorFmt(sysErrClass(errno), "Error during chmod for file '%s': %s", lxfile->name->chars, strerror(errno));
+        throwErrorFmt(sysErrClass(err), "Error during chmod for file '%s': %s", lxfile->name->chars, strerror(err));
     }
     lxfile->mode = mode;
     return TRUE_VAL;
@@ -585,9 +592,10 @@ static Value lxFileChown(int argCount, Value *args) {
     LxFile *lxfile = FILE_GETHIDDEN(args[0]);
     releaseGVL(THREAD_STOPPED);
     int res = chown(lxfile->name->chars, (uid_t)owner, (gid_t)group);
+    int err = errno;
     acquireGVL();
     if (res != 0) {
-        throwErrorFmt(sysErrClass(errno), "Error during chown for file '%s': %s", lxfile->name->chars, strerror(errno));
+        throwErrorFmt(sysErrClass(err), "Error during chown for file '%s': %s", lxfile->name->chars, strerror(err));
     }
     return TRUE_VAL;
 }
@@ -606,9 +614,10 @@ static Value lxFileLchown(int argCount, Value *args) {
     LxFile *lxfile = FILE_GETHIDDEN(args[0]);
     releaseGVL(THREAD_STOPPED);
     int res = lchown(lxfile->name->chars, (uid_t)owner, (gid_t)group);
+    int err = errno;
     acquireGVL();
     if (res != 0) {
-        throwErrorFmt(sysErrClass(errno), "Error during lchown for file '%s': %s", lxfile->name->chars, strerror(errno));
+        throwErrorFmt(sysErrClass(err), "Error during lchown for file '%s': %s", lxfile->name->chars, strerror(err));
     }
     return TRUE_VAL;
 }
@@ -700,23 +709,25 @@ static Value lxFileStatInit(int argCount, Value *args) {
     if (!IS_A_STRING(path)) {
       throwErrorFmt(lxArgErrClass, "FileStat must be initialized with a string");
     }
+    const char *cpath = copyPath(path)->chars;
 
     struct stat st;
     releaseGVL(THREAD_STOPPED);
     int res = 0;
     if (dolstat) {
-      res = lstat(AS_CSTRING(path), &st);
+      res = lstat(cpath, &st);
     } else {
-      res = stat(AS_CSTRING(path), &st);
+      res = stat(cpath, &st);
     }
+    int err = errno;
     acquireGVL();
     if (res != 0) {
-      throwErrorFmt(sysErrClass(errno), "stat retrieval error for file %s: %s", AS_CSTRING(path), strerror(errno));
+      throwErrorFmt(sysErrClass(err), "stat retrieval error for file %s: %s", cpath, strerror(err));
     }
     Value modeVal = NUMBER_VAL((int)st.st_mode);
     Value uidVal = NUMBER_VAL((int)st.st_uid);
     Value gidVal = NUMBER_VAL((int)st.st_gid);
-    Value sizeVal = NUMBER_VAL((int)st.st_size);
+    Value sizeVal = NUMBER_VAL((double)st.st_size);
     propertySet(AS_INSTANCE(self), INTERN("mode"), modeVal);
     propertySet(AS_INSTANCE(self), INTERN("uid"), uidVal);
     propertySet(AS_INSTANCE(self), INTERN("gid"), gidVal);
diff --git a/io.c b/io.c
index 4d8c590..a765ce2 100644
--- a/io.c
+++ b/io.c
@@ -245,6 +245,9 @@ size_t IOWrite(Value io, const void *buf, size_t count) {
 
 static int IOFcntl(Value io, int cmd, int arg) {
     LxFile *f = FILE_GETHIDDEN(io);
+    if (!f->isOpen) {
+        throwErrorFmt(lxErrClass, "IO error: fcntl on closed fd: %d", f->fd);
+    }
     int fd = f->fd;
     int last = errno;
     int res = fcntl(fd, cmd, arg);
-- 
2.43.0


From ff37e25a27a026512a46f371e78fa292adad86b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:41 +0000
Subject: [PATCH 83/98] fix: File.extension took a dot of a directory name for
 the extension's

---
 file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file.c b/file.c
index 96ecb64..430acec 100644
--- a/file.c
+++ b/file.c
@@ -308,7 +308,7 @@ static Value lxFileStaticExtension(int argCount, Value *args) {
     CHECK_ARG_IS_A(path, lxStringClass, 1);
     ObjString *pathstr = AS_STRING(path);
     char *dot = strrchr(pathstr->chars, '.');
-    if (!dot) {
+    if (!dot || strchr(dot, DIR_SEPARATOR_CHR)) { // only the last part of the path counts
       return OBJ_VAL(emptyString());
     } else {
       char *start = dot+1;
-- 
2.43.0


From 94f7ebabc8d8282554093524c5ccee1074cf585a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:59 +0000
Subject: [PATCH 84/98] fix: Dir iteration raises on a read error and on a
 closed Dir

A failing readdir() looked like the end of the directory, and iterating a
Dir after close() used a freed DIR stream.
---
 dir.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/dir.c b/dir.c
index 175359c..c09e1c1 100644
--- a/dir.c
+++ b/dir.c
@@ -19,7 +19,11 @@ typedef struct LxDir {
 } LxDir;
 
 static inline LxDir *dirGetHidden(Value dir) {
-    return (LxDir*)AS_INSTANCE(dir)->internal->data;
+    ObjInternal *internal = AS_INSTANCE(dir)->internal;
+    if (!internal) {
+        throwErrorFmt(lxErrClass, "Dir is not initialized");
+    }
+    return (LxDir*)internal->data;
 }
 
 static void freeInternalDir(Obj *internalObj) {
@@ -57,12 +61,22 @@ static Value lxDirInit(int argCount, Value *args) {
 
 static Value lxDirIterNext(int argCount, Value *args) {
     LxDir *dir = dirGetHidden(*args);
+    if (!dir->open) {
+        throwErrorFmt(lxErrClass, "Dir is closed");
+    }
     struct dirent *de;
-    if ((de = readdir(dir->dir))) {
+    int last = errno;
+    errno = 0;
+    de = readdir(dir->dir);
+    int err = errno;
+    errno = last;
+    if (de) {
         return OBJ_VAL(copyString(de->d_name, strlen(de->d_name), NEWOBJ_FLAG_NONE));
-    } else {
-        return NIL_VAL;
     }
+    if (err != 0) {
+        throwErrorFmt(sysErrClass(err), "Error reading directory: %s", strerror(err));
+    }
+    return NIL_VAL;
 }
 
 static Value lxDirClose(int argCount, Value *args) {
-- 
2.43.0


From 4e82ee9b8fe2f0ebe90c414e4b0b2870bd499c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:59 +0000
Subject: [PATCH 85/98] fix: Dir#init on an initialized Dir raises instead of
 leaking its stream

---
 dir.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dir.c b/dir.c
index c09e1c1..de75275 100644
--- a/dir.c
+++ b/dir.c
@@ -41,6 +41,9 @@ static Value lxDirInit(int argCount, Value *args) {
     ObjInstance *selfObj = AS_INSTANCE(*args);
     Value name = args[1];
     CHECK_ARG_IS_A(name, lxStringClass, 1);
+    if (selfObj->internal) {
+        throwErrorFmt(lxErrClass, "Dir is already initialized");
+    }
     int last = errno;
     const char *dirStr = AS_STRING(name)->chars;
     DIR *d = opendir(dirStr);
-- 
2.43.0


From 59f20070ed05105ea2ebf2594d6c730a94e74200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:59 +0000
Subject: [PATCH 86/98] fix: Dir.mkdir and Dir.glob copy their argument before
 releasing the GVL

---
 dir.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dir.c b/dir.c
index de75275..1a3b716 100644
--- a/dir.c
+++ b/dir.c
@@ -126,13 +126,14 @@ static Value lxDirMkdirStatic(int argCount, Value *args) {
       CHECK_ARG_BUILTIN_TYPE(modeVal, IS_NUMBER_FUNC, "number", 3);
       mode = AS_NUMBER(modeVal);
     }
-    char *nameCStr = AS_STRING(nameStrVal)->chars;
+    // other threads can change the given name while the GVL is released
+    char *nameCStr = dupString(AS_STRING(nameStrVal))->chars;
+    int last = errno;
     releaseGVL(THREAD_STOPPED);
     int res = mkdir(nameCStr, mode);
+    int err = errno;
     acquireGVL();
-    int last = errno;
     if (res != 0) {
-        int err = errno;
         errno = last;
         throwErrorFmt(sysErrClass(err), "Couldn't create directory %s: %s", nameCStr, strerror(err));
     }
@@ -143,7 +144,8 @@ static Value lxDirGlobStatic(int argCount, Value *args) {
     CHECK_ARITY("Dir.glob", 2, 2, argCount);
     Value globStrVal = args[1];
     CHECK_ARG_IS_A(globStrVal, lxStringClass, 1);
-    char *globCStr = AS_STRING(globStrVal)->chars;
+    // other threads can change the given pattern while the GVL is released
+    char *globCStr = dupString(AS_STRING(globStrVal))->chars;
 
     glob_t globBuf;
 
@@ -156,8 +158,8 @@ static Value lxDirGlobStatic(int argCount, Value *args) {
         return ary;
     } else if (res != 0) {
         globfree(&globBuf);
-        // TODO: raise?
-        return ary;
+        throwErrorFmt(res == GLOB_NOSPACE ? sysErrClass(ENOMEM) : lxErrClass,
+                "Couldn't glob '%s'", globCStr);
     }
     int i = 0;
     char *path = NULL;
-- 
2.43.0


From 68b07a43e267e5f18851da23703564c90f7abb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:59 +0000
Subject: [PATCH 87/98] fix: Dir.chdir with a block raises when it cannot go
 back

If the current directory could not be determined, the block was run and
the program silently stayed in the new directory.
---
 dir.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/dir.c b/dir.c
index 1a3b716..e7a8d03 100644
--- a/dir.c
+++ b/dir.c
@@ -178,9 +178,16 @@ static Value lxDirChdirStatic(int argCount, Value *args) {
     CHECK_ARG_IS_A(newDir, lxStringClass, 1);
     char *oldDir = NULL;
     char buf[4096];
-    oldDir = getcwd(buf, 4096);
-    char *dirStr = AS_STRING(newDir)->chars;
     int last = errno;
+    if (blockGiven()) {
+        oldDir = getcwd(buf, 4096);
+        if (!oldDir) {
+            int err = errno;
+            errno = last;
+            throwErrorFmt(sysErrClass(err), "Couldn't get current directory: %s", strerror(err));
+        }
+    }
+    char *dirStr = AS_STRING(newDir)->chars;
     int res = chdir(dirStr);
     if (res != 0) {
         int err = errno;
@@ -193,17 +200,20 @@ static Value lxDirChdirStatic(int argCount, Value *args) {
     if (blockGiven()) {
         Value err = NIL_VAL;
         ret = yieldBlockCatch(0, NULL, &err);
-        int res = 0;
-        if (oldDir) {
-            res = chdir(oldDir);
-        }
-        if (res != 0) {
+        res = chdir(oldDir);
+        int backErr = errno;
+        if (res != 0 && !IS_NIL(err)) {
             fprintf(stderr, "[Warning]: Couldn't change back to old directory: '%s'\n",
                     oldDir);
         }
         if (!IS_NIL(err)) {
             throwError(err);
         }
+        if (res != 0) {
+            errno = last;
+            throwErrorFmt(sysErrClass(backErr), "Couldn't change back to directory '%s': %s",
+                    oldDir, strerror(backErr));
+        }
     }
     return ret;
 }
-- 
2.43.0


From 49350901df052f3c1e74782722b165d6810c3f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:35 +0000
Subject: [PATCH 88/98] fix: FileUtils.mkdir_p creates absolute paths

---
 lib/fileutils.lox | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/lib/fileutils.lox b/lib/fileutils.lox
index 12b1a15..c170de1 100644
--- a/lib/fileutils.lox
+++ b/lib/fileutils.lox
@@ -50,20 +50,18 @@ module FileUtils {
     class mkdir_p(path) {
         var existingParts = [];
         path.split("/").each() -> (part) {
+            existingParts.push(part);
             var pathpart = existingParts.join("/");
+            // it's empty for the root directory of an absolute path
             if (pathpart.size() != 0) {
-                pathpart.push("/" + part);
-            } else {
-                pathpart = part;
-            }
-            if (File.exists(pathpart)) {
-                if (!File.isDir(pathpart)) {
-                    throw Error("file ${pathpart} is not a directory");
+                if (File.exists(pathpart)) {
+                    if (!File.isDir(pathpart)) {
+                        throw Error("file ${pathpart} is not a directory");
+                    }
+                } else {
+                    Dir.mkdir(pathpart);
                 }
-            } else {
-                Dir.mkdir(pathpart);
             }
-            existingParts.push(part);
         };
         return true;
     }
-- 
2.43.0


From ace9ca7d6d95b44af16e81fc6d45300668a14e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:35 +0000
Subject: [PATCH 89/98] fix: Dir.glob raises when it runs out of descriptors or
 memory

---
 dir.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/dir.c b/dir.c
index e7a8d03..add95df 100644
--- a/dir.c
+++ b/dir.c
@@ -140,6 +140,17 @@ static Value lxDirMkdirStatic(int argCount, Value *args) {
     return TRUE_VAL;
 }
 
+// Directories that can't be read have no matching names, but give up if
+// resources run out.
+static int globError(const char *path, int err) {
+    (void)path;
+    if (err == EMFILE || err == ENFILE || err == ENOMEM || err == EIO) {
+        errno = err;
+        return 1;
+    }
+    return 0;
+}
+
 static Value lxDirGlobStatic(int argCount, Value *args) {
     CHECK_ARITY("Dir.glob", 2, 2, argCount);
     Value globStrVal = args[1];
@@ -150,16 +161,18 @@ static Value lxDirGlobStatic(int argCount, Value *args) {
     glob_t globBuf;
 
     Value ary = newArray();
+    int last = errno;
     releaseGVL(THREAD_STOPPED);
-    int res = glob((const char *)globCStr, GLOB_BRACE, NULL, &globBuf);
+    int res = glob((const char *)globCStr, GLOB_BRACE, globError, &globBuf);
+    int err = res == GLOB_NOSPACE ? ENOMEM : errno;
     acquireGVL();
+    errno = last;
     if (res == GLOB_NOMATCH) {
         globfree(&globBuf);
         return ary;
     } else if (res != 0) {
         globfree(&globBuf);
-        throwErrorFmt(res == GLOB_NOSPACE ? sysErrClass(ENOMEM) : lxErrClass,
-                "Couldn't glob '%s'", globCStr);
+        throwErrorFmt(sysErrClass(err), "Couldn't glob '%s': %s", globCStr, strerror(err));
     }
     int i = 0;
     char *path = NULL;
-- 
2.43.0


From 3048c131fd8df866a1b9be4339923ee9be1b8b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:29 +0000
Subject: [PATCH 90/98] fix: keep a block's result alive while it ends

The value a block continues with was popped from the stack before the
BlockContinueError was allocated, so a collection there could free it.
---
 vm.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/vm.c b/vm.c
index 06e39e8..0b699a2 100644
--- a/vm.c
+++ b/vm.c
@@ -2881,14 +2881,16 @@ timeSliceDone:
       }
       CASE_OP(BLOCK_CONTINUE): {
           Value ret;
-          ObjString *key = INTERN("ret");
           if (th->lastValue) {
               ret = *th->lastValue;
           } else {
               ret = NIL_VAL;
           }
+          VM_PUSH(ret); // keep it alive, it was popped already
+          ObjString *key = INTERN("ret");
           Value err = newError(lxContinueBlockErrClass, NIL_VAL);
           setProp(err, key, ret);
+          VM_POP();
           throwError(err); // blocks catch this, not propagated
           DISPATCH_BOTTOM();
       }
@@ -3101,15 +3103,10 @@ find_instance_method:
           BlockStackEntry *bentry = vec_last_or(&th->v_blockStack, NULL);
           if (bentry && bentry->frame == getFrame() && !getFrame()->isEval) {
               ObjString *key = INTERN("ret");
-              VM_POP();
-              Value ret;
-              if (th->lastValue) {
-                  ret = *th->lastValue;
-              } else {
-                  ret = NIL_VAL;
-              }
+              Value ret = VM_PEEK(0); // stays on the stack until it's stored
               Value err = newError(lxContinueBlockErrClass, NIL_VAL);
               setProp(err, key, ret);
+              VM_POP();
               throwError(err); // blocks catch this, not propagated
               // not reached
           }
-- 
2.43.0


From c6fe3bca113814f2073c57f4c5afc29748ec7d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:29 +0000
Subject: [PATCH 91/98] fix: blocks and native calls leave the stack as they
 found it

Values left on the stack by a block that ended stayed there, so that
`x + blk.yield(y)` used the wrong operand, and calling a block some
hundred times from map() overflowed the stack.
---
 vm.c | 12 ++++++++++--
 vm.h |  4 ++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/vm.c b/vm.c
index 0b699a2..73dcabd 100644
--- a/vm.c
+++ b/vm.c
@@ -1608,8 +1608,10 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
                 }
                 newFrame->callInfo = callInfo;
                 VM_DEBUG(2, "calling native initializer for class %s with %d args", klassName, argCount);
+                // values left on the stack by the call are dropped
+                size_t slotsOffset = (EC->stackTop-argCount-1) - EC->stack;
                 Value val = callNative(nativeInit, argCount+1, EC->stackTop-argCount-1, callInfo);
-                newFrame->slots = EC->stackTop-argCount-1;
+                newFrame->slots = EC->stack + slotsOffset;
                 VM_DEBUG(2, "native initializer returned");
                 EC->stackTop = newFrame->slots;
                 hideFromGC(AS_OBJ(val));
@@ -1668,8 +1670,10 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
             pushCref(newFrame->klass);
         }
         newFrame->callInfo = callInfo;
+        // values left on the stack by the call are dropped
+        volatile size_t slotsOffset = (ec->stackTop - argcActuali) - ec->stack;
         volatile Value val = callNative(TO_NATIVE(native), argci, EC->stackTop-argci, callInfo);
-        newFrame->slots = ec->stackTop - argcActuali;
+        newFrame->slots = ec->stack + slotsOffset;
         VM_DEBUG(2, "Returned from native function %s", native->name->chars);
         ec->stackTop = newFrame->slots;
         if (IS_OBJ(val)) {
@@ -3773,6 +3777,10 @@ void unwindJumpRecover(ErrTagInfo *info) {
         FREE(ErrTagInfo, th->errInfo);
         th->errInfo = prev;
     }
+    // drop the values left on the stack by the popped frames
+    if (EC == info->ec) {
+        EC->stackTop = EC->stack + info->stackSize;
+    }
 }
 
 BlockStackEntry *addBlockEntry(Obj *callable) {
diff --git a/vm.h b/vm.h
index cb2e163..103ae09 100644
--- a/vm.h
+++ b/vm.h
@@ -69,6 +69,8 @@ typedef struct ErrTagInfo {
     struct ErrTagInfo *prev;
     struct BlockStackEntry *bentry;
     Value caughtError;
+    struct VMExecContext *ec;
+    size_t stackSize; // of `ec`
 } ErrTagInfo;
 
 // Execution context for VM. When loading a script, a new context is created,
@@ -339,6 +341,8 @@ static inline ErrTagInfo *addErrInfo(ObjClass *errClass) {
     info->prev = th->errInfo;
     th->errInfo = info;
     info->caughtError = NIL_VAL;
+    info->ec = EC;
+    info->stackSize = EC->stackTop - EC->stack;
     return info;
 }
 
-- 
2.43.0


From ac9d00b5963bea744806f657923518a8722463f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:07 +0000
Subject: [PATCH 92/98] fix: socket errors are taken from the errno of the
 failed call

---
 socket.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/socket.c b/socket.c
index 7d4ae8c..56479ef 100644
--- a/socket.c
+++ b/socket.c
@@ -64,9 +64,10 @@ static Value lxSocketInit(int argCount, Value *args) {
     }
     releaseGVL(THREAD_STOPPED);
     int res = socket(domain, type, proto);
+    int err = errno; // other threads run before the lock is taken again
     acquireGVL();
     if (res == -1) {
-      throwErrorFmt(sysErrClass(errno), "Error creating socket: %s", strerror(errno));
+      throwErrorFmt(sysErrClass(err), "Error creating socket: %s", strerror(err));
     }
     initSocketFromFd(self, domain, type, proto, res);
     return self;
@@ -93,6 +94,7 @@ static Value lxSocketConnect(int argCount, Value *args) {
     LxFile *f = checkSocket(self);
     LxSocket *sock = f->sock;
     int res = 0;
+    int err = 0; // other threads run before the lock is taken again
     if (sock->domain == AF_INET) {
       struct sockaddr_in in_serv_addr;
       in_serv_addr.sin_family = sock->domain;
@@ -104,6 +106,7 @@ static Value lxSocketConnect(int argCount, Value *args) {
       }
       releaseGVL(THREAD_STOPPED);
       res = connect(f->fd, (struct sockaddr *)&in_serv_addr, sizeof(in_serv_addr));
+      err = errno;
       acquireGVL();
     } else if (sock->domain == AF_UNIX) {
       struct sockaddr_un un_serv_addr;
@@ -111,12 +114,13 @@ static Value lxSocketConnect(int argCount, Value *args) {
       strncpy(un_serv_addr.sun_path, AS_CSTRING(addr), sizeof(un_serv_addr.sun_path)-1);
       releaseGVL(THREAD_STOPPED);
       res = connect(f->fd, (struct sockaddr *)&un_serv_addr, sizeof(un_serv_addr));
+      err = errno;
       acquireGVL();
     } else {
       throwErrorFmt(lxErrClass, "Not implemented error");
     }
     if (res < 0) {
-      throwErrorFmt(sysErrClass(errno), "Error during connect: %s", strerror(errno));
+      throwErrorFmt(sysErrClass(err), "Error during connect: %s", strerror(err));
     }
     sock->connected = true;
     f->isOpen = true;
@@ -174,14 +178,16 @@ static Value lxSocketBind(int argCount, Value *args) {
       my_addr = (struct sockaddr*)&my_in_addr;
       releaseGVL(THREAD_STOPPED);
       if (bind(fd, my_addr, sizeof(struct sockaddr_in)) == -1) {
+        int err = errno; // other threads run before the lock is taken again
         acquireGVL();
-        throwErrorFmt(sysErrClass(errno), "Error during bind: %s", strerror(errno));
+        throwErrorFmt(sysErrClass(err), "Error during bind: %s", strerror(err));
       }
 
       // TODO: make listen() a separate call
       if (listen(fd, 50) == -1) {
+        int err = errno;
         acquireGVL();
-        throwErrorFmt(sysErrClass(errno), "Error during listen: %s", strerror(errno));
+        throwErrorFmt(sysErrClass(err), "Error during listen: %s", strerror(err));
       }
       acquireGVL();
     }
@@ -213,9 +219,10 @@ static Value lxSocketAccept(int argCount, Value *args) {
 
     releaseGVL(THREAD_STOPPED);
     int newFd = accept(sfd, peer_addr, &addr_size);
+    int err = errno; // other threads run before the lock is taken again
     acquireGVL();
     if (newFd == -1) {
-      throwErrorFmt(sysErrClass(errno), "Error during accept: %s", strerror(errno));
+      throwErrorFmt(sysErrClass(err), "Error during accept: %s", strerror(err));
     }
     Value newSock = newSocketFromAccept(self, newFd, peer_addr, addr_size);
     return newSock;
-- 
2.43.0


From 81ce2d29861d0ed5b1f14f20f94eb3900d7ad56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:23 +0000
Subject: [PATCH 93/98] fix: Socket#accept goes on after an interrupted call

---
 socket.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/socket.c b/socket.c
index 56479ef..0e2e67d 100644
--- a/socket.c
+++ b/socket.c
@@ -217,10 +217,19 @@ static Value lxSocketAccept(int argCount, Value *args) {
     peer_addr = (struct sockaddr*)&in_peer_addr;
     socklen_t addr_size = sizeof(struct sockaddr_in);
 
-    releaseGVL(THREAD_STOPPED);
-    int newFd = accept(sfd, peer_addr, &addr_size);
-    int err = errno; // other threads run before the lock is taken again
-    acquireGVL();
+    int newFd = -1;
+    int err = 0;
+    while (true) {
+      releaseGVL(THREAD_STOPPED);
+      newFd = accept(sfd, peer_addr, &addr_size);
+      err = errno; // other threads run before the lock is taken again
+      acquireGVL();
+      if (newFd == -1 && err == EINTR) {
+        VM_CHECK_INTS(THREAD());
+        continue;
+      }
+      break;
+    }
     if (newFd == -1) {
       throwErrorFmt(sysErrClass(err), "Error during accept: %s", strerror(err));
     }
-- 
2.43.0


From b32c211f765f57fc4146b5d925b157af28ef9d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:40 +0000
Subject: [PATCH 94/98] fix: a closed or uninitialized socket raises instead of
 using a stale descriptor

---
 socket.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/socket.c b/socket.c
index 0e2e67d..f96d8c4 100644
--- a/socket.c
+++ b/socket.c
@@ -73,14 +73,22 @@ static Value lxSocketInit(int argCount, Value *args) {
     return self;
 }
 
-static LxFile *checkSocket(Value sock) {
-  LxFile *f = FILE_GETHIDDEN(sock);
-  if (f->fd < 0) {
+static LxFile *checkInitialized(Value sock) {
+  LxFile *f = AS_INSTANCE(sock)->internal ? FILE_GETHIDDEN(sock) : NULL;
+  if (!f || f->fd < 0) {
     throwErrorFmt(lxErrClass, "uninitialized socket");
   }
   return f;
 }
 
+static LxFile *checkSocket(Value sock) {
+  LxFile *f = checkInitialized(sock);
+  if (!f->isOpen) { // its descriptor can be another file's by now
+    throwErrorFmt(lxErrClass, "IO error: socket is closed");
+  }
+  return f;
+}
+
 static Value lxSocketConnect(int argCount, Value *args) {
     CHECK_ARITY("Socket#connect", 2, 3, argCount);
     Value self = args[0];
@@ -123,7 +131,6 @@ static Value lxSocketConnect(int argCount, Value *args) {
       throwErrorFmt(sysErrClass(err), "Error during connect: %s", strerror(err));
     }
     sock->connected = true;
-    f->isOpen = true;
     return self;
 }
 
@@ -239,7 +246,7 @@ static Value lxSocketAccept(int argCount, Value *args) {
 
 static Value lxSocketGetFd(int argCount, Value *args) {
     Value self = args[0];
-    LxFile *f = checkSocket(self);
+    LxFile *f = checkInitialized(self);
     int sfd = f->fd;
     return NUMBER_VAL(sfd);
 }
-- 
2.43.0


From 8e58d7d22831c7251836382c384c83940249c137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:55 +0000
Subject: [PATCH 95/98] fix: socket paths that are too long raise instead of
 being cut off

---
 socket.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/socket.c b/socket.c
index f96d8c4..a46917c 100644
--- a/socket.c
+++ b/socket.c
@@ -89,6 +89,15 @@ static LxFile *checkSocket(Value sock) {
   return f;
 }
 
+static void setUnixAddr(struct sockaddr_un *un_addr, ObjString *path) {
+  memset(un_addr, 0, sizeof(*un_addr));
+  un_addr->sun_family = AF_UNIX;
+  if (path->length >= sizeof(un_addr->sun_path)) {
+    throwErrorFmt(sysErrClass(ENAMETOOLONG), "Socket path: %s", strerror(ENAMETOOLONG));
+  }
+  memcpy(un_addr->sun_path, path->chars, path->length);
+}
+
 static Value lxSocketConnect(int argCount, Value *args) {
     CHECK_ARITY("Socket#connect", 2, 3, argCount);
     Value self = args[0];
@@ -118,8 +127,7 @@ static Value lxSocketConnect(int argCount, Value *args) {
       acquireGVL();
     } else if (sock->domain == AF_UNIX) {
       struct sockaddr_un un_serv_addr;
-      un_serv_addr.sun_family = AF_UNIX;
-      strncpy(un_serv_addr.sun_path, AS_CSTRING(addr), sizeof(un_serv_addr.sun_path)-1);
+      setUnixAddr(&un_serv_addr, AS_STRING(addr));
       releaseGVL(THREAD_STOPPED);
       res = connect(f->fd, (struct sockaddr *)&un_serv_addr, sizeof(un_serv_addr));
       err = errno;
@@ -153,9 +161,8 @@ static Value lxSocketBind(int argCount, Value *args) {
       struct sockaddr_un my_un_addr;
       Value path = args[1];
       CHECK_ARG_IS_A(path, lxStringClass, 1);
-      my_un_addr.sun_family = AF_UNIX;
+      setUnixAddr(&my_un_addr, AS_STRING(path));
       my_addr = (struct sockaddr*)&my_un_addr;
-      strncpy(my_un_addr.sun_path, AS_CSTRING(path), sizeof(my_un_addr.sun_path)-1);
       if (bind(fd, my_addr, sizeof(struct sockaddr_un)) == -1) {
         throwErrorFmt(sysErrClass(errno), "Error during bind: %s", strerror(errno));
       }
-- 
2.43.0


From 534e88b703dcd0e6d801937933429187e7e7dce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:09 +0000
Subject: [PATCH 96/98] fix: socket ports and addresses are checked before use

---
 socket.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/socket.c b/socket.c
index a46917c..ca701e0 100644
--- a/socket.c
+++ b/socket.c
@@ -89,6 +89,14 @@ static LxFile *checkSocket(Value sock) {
   return f;
 }
 
+static int checkPort(Value portVal) {
+  double port = AS_NUMBER(portVal);
+  if (!(port >= 0 && port <= 65535)) {
+    throwErrorFmt(lxArgErrClass, "port number is out of range");
+  }
+  return (int)port;
+}
+
 static void setUnixAddr(struct sockaddr_un *un_addr, ObjString *path) {
   memset(un_addr, 0, sizeof(*un_addr));
   un_addr->sun_family = AF_UNIX;
@@ -114,12 +122,15 @@ static Value lxSocketConnect(int argCount, Value *args) {
     int err = 0; // other threads run before the lock is taken again
     if (sock->domain == AF_INET) {
       struct sockaddr_in in_serv_addr;
+      if (IS_NIL(port)) {
+        throwErrorFmt(lxArgErrClass, "Socket#connect needs a port");
+      }
+      memset(&in_serv_addr, 0, sizeof(in_serv_addr));
       in_serv_addr.sin_family = sock->domain;
-      in_serv_addr.sin_port = htons(AS_NUMBER(port));
+      in_serv_addr.sin_port = htons(checkPort(port));
       // Convert IPv4 and IPv6 addresses from text to binary form
       if (inet_pton(sock->domain, AS_CSTRING(addr), &in_serv_addr.sin_addr) <= 0) {
-        throwErrorFmt(lxArgErrClass, "Invalid address to Socket#connect: %s", strerror(errno));
-        return -1;
+        throwErrorFmt(lxArgErrClass, "Invalid address to Socket#connect");
       }
       releaseGVL(THREAD_STOPPED);
       res = connect(f->fd, (struct sockaddr *)&in_serv_addr, sizeof(in_serv_addr));
@@ -175,18 +186,21 @@ static Value lxSocketBind(int argCount, Value *args) {
       return BOOL_VAL(true);
     } else {
       Value addr = args[1];
+      CHECK_ARG_IS_A(addr, lxStringClass, 1);
       int port = 80;
       if (argCount == 3) {
         Value portVal = args[2];
         CHECK_ARG_BUILTIN_TYPE(portVal, IS_NUMBER_FUNC, "number", 2);
-        port = AS_NUMBER(portVal);
+        port = checkPort(portVal);
       }
       struct sockaddr_in my_in_addr;
+      memset(&my_in_addr, 0, sizeof(my_in_addr));
       my_in_addr.sin_family = AF_INET;
-      my_in_addr.sin_addr.s_addr = INADDR_ANY;
 
       // This ip address will change according to the machine
-      my_in_addr.sin_addr.s_addr = inet_addr(AS_CSTRING(addr));
+      if (inet_aton(AS_CSTRING(addr), &my_in_addr.sin_addr) == 0) {
+        throwErrorFmt(lxArgErrClass, "Invalid address to Socket#bind");
+      }
 
       my_in_addr.sin_port = htons(port);
       my_addr = (struct sockaddr*)&my_in_addr;
-- 
2.43.0


From 61039114e27ed937b2e16543491c6b16b41e69b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:01 +0000
Subject: [PATCH 97/98] fix: AddrInfo.getaddrinfo frees every result once and
 reports its own errors

---
 socket.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/socket.c b/socket.c
index ca701e0..2e83478 100644
--- a/socket.c
+++ b/socket.c
@@ -326,8 +326,11 @@ static Value makeNewAddrInfo(struct addrinfo *ai) {
 
 static Value addrInfoArrayList(struct addrinfo *res) {
   struct addrinfo *rp = res;
+  struct addrinfo *next = NULL;
   Value ret = newArray();
-  for (rp = res; rp != NULL; rp = rp->ai_next) {
+  for (rp = res; rp != NULL; rp = next) {
+    next = rp->ai_next;
+    rp->ai_next = NULL; // every AddrInfo frees its own part of the list
     arrayPush(ret, makeNewAddrInfo(rp));
   }
   return ret;
@@ -367,6 +370,7 @@ static Value lxAddrInfoStaticGetAddrInfo(int argCount, Value *args) {
 
   struct addrinfo hints;
   struct addrinfo *res;
+  memset(&hints, 0, sizeof(hints));
   hints.ai_socktype = sockType; // ex: Socket::SOCK_STREAM
   hints.ai_family = afamily; // ex: Socket::AF_INET
   hints.ai_flags = flags;
@@ -376,7 +380,10 @@ static Value lxAddrInfoStaticGetAddrInfo(int argCount, Value *args) {
       serviceStr ? serviceStr->chars : NULL,
       &hints, &res);
   if (st != 0) {
-    throwErrorFmt(sysErrClass(errno), "error in getaddrinfo(2): %s", strerror(errno));
+    if (st == EAI_SYSTEM) {
+      throwErrorFmt(sysErrClass(errno), "error in getaddrinfo(2): %s", strerror(errno));
+    }
+    throwErrorFmt(lxErrClass, "error in getaddrinfo(2): %s", gai_strerror(st));
   }
 
   // When given a numbered port, sin_port is not set correctly
@@ -385,14 +392,14 @@ static Value lxAddrInfoStaticGetAddrInfo(int argCount, Value *args) {
     if (addr->ai_family == AF_INET6) {
       // START WORKAROUND
       struct sockaddr_in6 *sockaddr_v6 = (struct sockaddr_in6 *)addr->ai_addr;
-      if (sockaddr_v6->sin6_port == 0) {
+      if (sockaddr_v6->sin6_port == 0 && IS_NUMBER(serviceVal)) {
         sockaddr_v6->sin6_port = htons(AS_NUMBER(serviceVal));
       }
       // END WORKAROUND
     } else if (addr->ai_family == AF_INET) {
       // START WORKAROUND
       struct sockaddr_in *sockadr = (struct sockaddr_in *)addr->ai_addr;
-      if (sockadr->sin_port == 0) {
+      if (sockadr->sin_port == 0 && IS_NUMBER(serviceVal)) {
         sockadr->sin_port = htons(AS_NUMBER(serviceVal));
       }
       // END WORKAROUND
-- 
2.43.0


From e08021c04681e52fbfca52ccfebad9e26cd99a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:27 +0000
Subject: [PATCH 98/98] fix: using an uninitialized IO object raises an error

---
 io.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/io.c b/io.c
index a765ce2..4d3e699 100644
--- a/io.c
+++ b/io.c
@@ -38,6 +38,9 @@ static void freeInternalFile(Obj *obj) {
 LxFile *fileGetHidden(Value io) {
     ObjInstance *inst = AS_INSTANCE(io);
     ObjInternal *internalObj = inst->internal;
+    if (!internalObj) {
+        throwErrorFmt(lxErrClass, "uninitialized IO object");
+    }
     LxFile *f = (LxFile*)internalGetData(internalObj);
     return f;
 }
-- 
2.43.0

