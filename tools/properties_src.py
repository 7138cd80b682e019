def M(*pairs): return [{"name": n, "where": w} for n, w in pairs]

prop("C01", "Threads that do not share data are unaffected by the schedule",
 "Each thread of a script computes exactly what its code says - local variables, closures, blocks, method calls, evals and caught exceptions - however the VM lock is passed between threads and wherever a thread is preempted. Data reached by several threads only under a common Mutex, or only before start and after join, likewise ends with a value some one-at-a-time execution gives. No schedule crashes, aborts or hangs the VM.",
 ["schedules","programs"], "every interleaving of VM-lock handoffs and preemption points over generated multi-threaded scripts",
 "The examples run on one arbitrary OS schedule with a switch every 10000 opcodes; per-thread state that leaks through shared VM structures only shows when a switch falls inside a particular opcode window.",
 ["thread.c","vm.c","vm.h"], M(("global VM lock","vm.c acquireGVL/releaseGVL"),("per-thread execution contexts","thread.c newThreadSetup; vm.c push_EC/pop_EC"),("op-count preemption","vm.c vmLoop")),
 ["script output","exit status"], hook="preemption quantum")

prop("C02", "Mutex gives mutual exclusion and every contender gets its turn",
 "At most one thread is between a Mutex lock returning and the matching unlock, whatever blocking calls, yields or errors happen in between. A thread waiting for a Mutex obtains it once every holder has unlocked or ended; no wakeup is lost and unlocking leaves the Mutex usable.",
 ["schedules","programs"], "every interleaving of lock, unlock, yield, sleep, I/O and thread end by several threads over several mutexes",
 "The mutex examples contend only as the OS happens to schedule; a lost wakeup or an exclusion hole needs a switch between two specific instructions.",
 ["thread.c","vm.c"], M(("Mutex","thread.c lockMutex/unlockMutex/lockFunc"),("VM-lock pinning while a mutex is held","vm.c acquireGVL/releaseGVL mutexCounter")),
 ["script output","progress within a bounded number of simulated steps"])

prop("C03", "Join waits for the thread's end; thread death stays local; exit always ends",
 "joinThread returns only after the thread has finished, and then everything that thread did is visible to the joiner. A thread that ends normally, through an uncaught error, or after being detached never disturbs the others. When the main thread finishes, the process ends with the main thread's status in bounded time whatever state the other threads are in.",
 ["schedules","programs"], "every interleaving of thread creation, end, join, detach and main-thread exit, including threads asleep, blocked in I/O, holding a mutex or not yet started",
 "Which thread state the exit path meets depends on timing that a test does not control.",
 ["thread.c","vm.c"], M(("create/join/detach","thread.c lxNewThread/lxJoinThread/threadDetach"),("terminate unjoined threads","vm.c terminateThreads/stopVM; thread.c threadExecuteInterrupts")),
 ["script output","exit status","simulated time at exit"])

prop("C04", "An error thrown into a thread is raised there exactly once",
 "An error passed to Thread#throw for a started, living thread with no other thrown error pending is raised in that thread, in no other, and exactly once: its innermost enclosing handler for that class catches it with the same error object, and other threads carry on unaffected. If nothing catches it only the target thread ends.",
 ["schedules","histories"], "every moment of a target's life (sleeping, computing, in I/O, inside try/catch/ensure) at which another thread may throw into it",
 "The single example throws at one fixed, long-idle moment.",
 ["thread.c","vm.c"], M(("asynchronous throw","thread.c lxThreadThrow; vm.c acquireGVL errorToThrow"),("handler search","vm.c throwError/findCatchRow")),
 ["script output"])

prop("C05", "Sleep and Timeout respect simulated time",
 "With a steadily running clock sleep(n) does not return before n seconds have passed and, when nothing else holds the VM, not later than a bounded delay after; fractions of a second count. Other threads run while one sleeps. Timeout.timeout raises Timeout::Error in its caller only if the block outlasts the limit, and lets a faster block finish undisturbed.",
 ["schedules","inputs","fault_sequences"], "all durations, clock granularities and start offsets, spurious wakeups, and any number of concurrent sleepers",
 "Tests sleep for whole seconds from arbitrary clock readings and cannot cover the sub-second carry or a spurious wakeup.",
 ["runtime.c","thread.c","time.c","vm.c","lib/timeout.lox"], M(("sleep","runtime.c lxSleep / threadSleepNano"),("Timeout","lib/timeout.lox")),
 ["script output","simulated clock at each event"])

prop("C06", "Every trapped signal runs its handler on the main thread",
 "When a signal for which the script has registered a Signal.trap handler arrives, the handler runs once per delivery, on the main thread, after the signal arrives and within a bounded time (at latest when the call the main thread is blocked in returns), whether the main thread is computing, asleep, joining or in I/O, and it never runs without a signal. The interrupted computation then continues with the result it would have had. Signals with different numbers are never mixed up, and a later trap for the same signal replaces the earlier one.",
 ["schedules","fault_sequences","histories"], "every arrival point of every sequence of signals with respect to the running scripts",
 "Tests deliver one signal at one long-idle moment.",
 ["signal.c","thread.c","vm.c"], M(("signal queue","signal.c sigHandlerFunc/enqueueSignal/getSignal"),("trap execution","signal.c execSignal; thread.c threadExecuteInterrupts")),
 ["script output","signal deliveries logged by the simulator"])

prop("C07", "try/catch/else/ensure unwinding is exact wherever an error arises",
 "When an error is raised at any point - a throw, a failing built-in operation, an injected system-call failure - the innermost enclosing catch whose class matches runs with that error object, else blocks run only when the try body raised nothing, ensure blocks run exactly once when the try statement (body, catch and else) is completed or left by an error, and local variables, this, block and call state afterwards are those of the catching frame. An uncaught error ends the script with an error report and a nonzero status, after the ensure blocks it passes and the exit hooks.",
 ["programs","fault_sequences"], "all nestings of try, functions, methods, blocks, loops, evals and native callbacks, with an error or an I/O fault at any chosen point",
 "The handful of examples throws at fixed places at shallow nesting and never has a system call fail.",
 ["vm.c","compiler.c","block.c"], M(("unwinding","vm.c throwError/findCatchRow/popFrame"),("protect","vm.c vm_protect/unwindJumpRecover; vm.h SETUP_BLOCK"),("catch tables","compiler.c; chunk.c")),
 ["script output","exit status"])

prop("C08", "Garbage collection never changes what a program computes",
 "A script's output, return status and object graph are the same whatever moments the collector runs at, young or full, including in the middle of native operations, and with collection switched off. No reachable object is ever freed or altered and the heap is never corrupted.",
 ["schedules","programs"], "every placement of young and full collections at allocation points of generated programs over all built-in types",
 "The stress option collects at every allocation only for whole examples; TODO records scripts that fail it, and no test varies placement.",
 ["memory.c","object.c","vm.c"], M(("generational mark and sweep","memory.c collectGarbage/collectYoungGarbage"),("write barrier","memory.c OBJ_WRITE/objWrite"),("temporaries of native calls","vm.c stackObjects; memory.c hideFromGC")),
 ["script output under different collection schedules"], hook="collection at a chosen allocation")

prop("C09", "Unreachable objects are reclaimed and finalizers run exactly once",
 "After an object becomes unreachable a full collection reclaims it (the most recently used objects may stay until others are used; evaluated code and property names are kept), so a program whose live data is bounded runs in a bounded heap however long it runs. A finalizer registered for an object is called once, with that object, at an interrupt check after it became unreachable or at exit, and never while the program can reach it other than through another finalized object.",
 ["schedules","programs","histories"], "every history of allocation, dropping, resurrection and collection points",
 "One example registers one finalizer and checks nothing about counts; heap growth needs long histories.",
 ["memory.c","runtime.c"], M(("sweep and free lists","memory.c"),("finalizers","memory.c callFinalizer/freeObjects; runtime.c GC.setFinalizer")),
 ["script output","GC.stats()"])

prop("C10", "Bytes through pipes arrive complete, in order and unchanged",
 "What is written to an IO is exactly what is read from it, in order, nothing lost, duplicated or invented, for every size and content (NUL bytes apart), however the system call boundaries fall: short reads, short writes, full pipes and interrupted calls. Reading reports end of file only when the writers have closed and all bytes were delivered; a non-blocking read with nothing to read returns IO::EWouldBlock and consumes nothing.",
 ["schedules","inputs","fault_sequences"], "all payloads and chunkings, with short transfers, EINTR and full buffers at any call",
 "Tests write a few bytes through an empty pipe; the kernel then never splits a transfer.",
 ["io.c"], M(("write loop","io.c IOWrite"),("read loop","io.c IOReadFd/IOReadlineFd"),("non-blocking read","io.c lxIOReadNonBlockStatic")),
 ["script output","simulated pipe contents"])

prop("C11", "File operations match a file-system model and surface every error",
 "Files written, read, seeked, copied, renamed, stat'ed and unlinked through File and IO hold exactly the bytes and metadata the operations denote. When the system refuses or cuts short an operation the script sees an error of the right class or a correct result, never silently wrong or missing data, and after a failed or closed operation no descriptor is left open.",
 ["inputs","histories","fault_sequences"], "all operation sequences over a small set of paths with I/O errors, short transfers, full disk and descriptor exhaustion at any call",
 "Tests touch a file or two on a healthy disk.",
 ["file.c","io.c"], M(("File class","file.c"),("IO class","io.c")),
 ["script output","simulated disk contents","descriptor table"])

prop("C12", "IO.select reports exactly the ready descriptors",
 "IO.select returns only objects from the lists it was given that are ready for the operation asked, at least one unless it timed out, returns nil on timeout not before the timeout has elapsed, and blocks no other thread meanwhile.",
 ["schedules","inputs","fault_sequences"], "all sets of pipes and sockets in all readiness states, timeouts, and arrival times during the wait",
 "One example selects on one pipe.",
 ["io.c"], M(("select","io.c lxIOSelectStatic")),
 ["script output","simulated descriptor readiness"])

prop("C13", "fork, wait and exit statuses describe the real children",
 "A forked child starts with a copy of the parent's variables, runs only the given function or continues from fork, and what it changes is invisible to the parent. waitpid and waitall report each ended child exactly once with its true exit status or signal, waitpid with WNOHANG is nil while the child runs, and -1 says that fork or waitpid failed. system is true only for a command that ran and exited 0, and exec replaces the program or returns after failing.",
 ["schedules","histories","fault_sequences"], "all interleavings of parent and children, exit codes, signals, and failing fork/exec/wait calls",
 "Tests fork one child that exits 0 after a fixed sleep.",
 ["process.c"], M(("processes","process.c lxForkStatic/lxWaitpidStatic/lxWaitallStatic/lxSystemStatic/lxExecStatic")),
 ["script output","simulated process table"])

prop("C14", "Exit runs each exit hook once, in reverse order, with the right status",
 "However the main thread ends - falling off the end, exit(n) at any depth, or an uncaught error - every registered atExit hook runs exactly once, last registered first, all output is flushed, and the process status is n modulo 256, or nonzero for an uncaught error. _exit(n) skips the hooks, a hook that raises or exits does not keep the others from running, and a forked child inherits its parent's hooks.",
 ["programs","schedules"], "all exit paths, hook counts and thread states",
 "One example registers two hooks and falls off the end.",
 ["vm.c","runtime.c","main.c"], M(("exit","vm.c stopVM/_stopVM/runAtExitHooks; runtime.c lxExit/lxAtExit")),
 ["script output","exit status"])

prop("C15", "Socket streams connect the right peers and carry bytes intact",
 "A client that connects reaches the socket listening at that address, accept hands the server one new socket per connection in arrival order, and bytes sent on one end are exactly those read at the other, in order, under partial sends, partial receives, delays and interrupted calls. Connection failures raise an error.",
 ["schedules","inputs","fault_sequences"], "all client/server interleavings, payloads, segmentations and connection faults on a simulated network",
 "No test opens a socket.",
 ["socket.c","io.c"], M(("Socket","socket.c")),
 ["script output","simulated network"])

prop("C16", "Scripts are loaded whole, once, and failures surface",
 "The code that runs is exactly the bytes of the script named, whether from a file, standard input, loadScript, requireScript or autoload, and however reads of it are split. requireScript executes a given file once per process, autoload on first use, with top-level constants wherever the load happens; a missing or unreadable file raises LoadError and a syntax error raises or is reported, leaving the requiring script able to continue.",
 ["inputs","fault_sequences","histories"], "all script sizes and sources, read splits and failures, and orders of require",
 "Tests load small files in one read.",
 ["main.c","runtime.c","vm.c"], M(("loading","runtime.c lxLoadScript/lxRequireScript/lxAutoload; main.c")),
 ["script output","exit status"])

prop("C17", "Thread-local storage belongs to one thread",
 "A value stored under a key in one thread's local storage is what that thread reads back until it stores again, and no other thread sees it unless it asks for that thread's storage by name, under every schedule and collection.",
 ["schedules","histories"], "all interleavings of stores and loads by several threads with collections in between",
 "One example stores two values in order.",
 ["thread.c"], M(("tlsMap","thread.c lxThreadGetTLS/lxThreadSetTLS")),
 ["script output"])

prop("C18", "Arrays, maps and strings follow their sequence and dictionary models",
 "For every history of operations, arrays and strings behave as sequences and maps as dictionaries: sizes, contents, lookup results, iteration coverage, equality and copies agree with the obvious model, including while collections run, threads switch or a callback raises an error in mid-operation. foreach visits every element of an array and every entry of a map once.",
 ["histories","schedules","fault_sequences"], "all operation histories over colliding and growing key sets, interleaved with collections, preemption and raising callbacks",
 "Tests sample a few operations on tiny containers; table growth, deletion markers and barrier interplay need long histories.",
 ["array.c","map.c","string.c","table.c","object.c"], M(("hash tables","table.c"),("containers","array.c map.c string.c")),
 ["script output"])

prop("C19", "Directory operations are faithful and restore what they change",
 "Dir iteration yields each entry once, glob exactly the matching names, mkdir and chdir act on the named directory, and chdir with a block returns to the previous directory when the block ends by return or by error. Failures raise an error and leak no descriptor.",
 ["histories","fault_sequences"], "all small directory trees and operation sequences with failing calls",
 "One example lists one directory.",
 ["dir.c"], M(("Dir","dir.c")),
 ["script output","simulated file system"])

prop("C20", "Output is delivered whole and in program order",
 "Everything a script prints or writes to stdout and stderr appears exactly once, each thread's output in its program order, with the text of one print never split by another print of the same process, under every schedule and when the terminal or pipe accepts only part of a write.",
 ["schedules","fault_sequences"], "all schedules and write splits",
 "Tests capture output in a buffer inside the VM and never through a short write.",
 ["vm.c","runtime.c","io.c"], M(("print","vm.c OP_PRINT"),("puts","io.c lxIOPuts/lxIOPrint")),
 ["bytes received on stdout/stderr"])

prop("C21", "Regular expressions match their textbook language",
 "Regex#match finds a match exactly when the pattern's textbook semantics has one, and reports its position, length and captures correctly.",
 ["inputs"], "all patterns and subject strings",
 "Tests sample patterns.",
 ["regex_lib.c","regex.c"], M(("matcher","regex_lib.c")), ["script output"])

prop("C22", "Bytecode optimisation preserves meaning",
 "A program gives the same results whether the bytecode optimisation passes are on or off, and compiled code means what the source says.",
 ["programs"], "all programs", "Tests sample programs.",
 ["compiler.c","parser.c","scanner.c"], M(("optimiser","compiler.c")), ["script output"])
