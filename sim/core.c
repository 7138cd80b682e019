// Scheduler, simulated processes/threads/signals/clock, heap.
#include "sim.h"
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <unistd.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <linux/futex.h>
#include <execinfo.h>
#include <ucontext.h>

static int myproc = 0;        // index of the simulated process this OS process hosts
static int mycoro = 0;        // task whose coroutine is executing in this OS process
static void *ctx_sp[MAXTASK]; // saved stack pointers of this process's coroutines
static struct { void *(*fn)(void*); void *arg; } starts[MAXTASK];
int sim_active = 0;

pid_t __real_fork(void);
void __real__exit(int) __attribute__((noreturn));

// ---------------------------------------------------------------- prng
static u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
static u64 next(u64 *s) {
  u64 r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
  s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
  return r;
}
static void seedrng(u64 *s, u64 x) {
  for (int i = 0; i < 4; i++) {
    u64 z = (x += 0x9e3779b97f4a7c15ul);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ul; z = (z ^ (z >> 27)) * 0x94d049bb133111ebul;
    s[i] = z ^ (z >> 31);
  }
}
u64 rnd64(void) { return next(S->rng); }
u32 rndn(u32 n) { return n ? (u32)(rnd64() % n) : 0; }
u32 jitn(u32 n) { return n ? (u32)(next(S->jit) % n) : 0; }
static void mix(u64 *h, u64 v) { *h = (*h ^ v) * 0x100000001b3ul; *h ^= *h >> 29; }

i64 decide(int kind, i64 dflt, i64 (*gen)(void*), void *arg) {
  u32 idx = S->dcount[kind]++;
  i64 v = dflt;
  if (S->cfg.scripted) {
    u32 p = S->scriptpos[kind];
    while (p < S->nscript && (S->script[p].kind != kind || S->script[p].idx < idx)) p++;
    S->scriptpos[kind] = p;
    if (p < S->nscript && S->script[p].idx == idx) v = S->script[p].val;
  } else v = gen(arg);
  if (v != dflt) {
    if (S->ndec < MAXDEC) { Dec *d = &S->decs[S->ndec]; d->kind = kind; d->idx = idx; d->val = v; }
    S->ndec++;
    mix(&S->evhash, ((u64)kind << 56) ^ ((u64)idx << 24) ^ (u64)v);
  }
  return v;
}

static i64 gen_fault(void *a) { int k = *(int*)a; return (int)rndn(1000) < S->cfg.pf[k] ? 1 : 0; }
static const char *fname(int k);
int fault(int k) {
  if (S->cfg.pf[k] <= 0 || !(S->marked || S->cfg.early)) return 0;
  S->draws[k]++;
  if (S->cfg.fmax && S->nfired >= (u64)S->cfg.fmax) { if (!S->cfg.scripted) return 0; }
  int v = (int)decide(D_FAULT, 0, gen_fault, &k);
  if (v) { S->fired[k]++; S->nfired++; slog("FAULT %s", fname(k)); }
  return v;
}
static const char *fnames[F_NKIND] = { "short_read","short_write","eio_read","eio_write","enospc","emfile","open_eacces",
 "spurious_wakeup","thread_eagain","fork_eagain","conn_refused","conn_reset","pipe_fail","close_eio","stat_eio","clock_jump",
 "stall","unlink_fail","rename_fail","signal","kill","wait_eintr","select_eintr","system_fail","net_delay","mkdir_fail",
 "chdir_fail","opendir_fail","eintr_read","eintr_write","socket_fail","cwd_fail","sigaction_fail","seek_fail","sink_block" };
static const char *fname(int k) { return fnames[k]; }

// ---------------------------------------------------------------- shared memory, log
void *shm_alloc(u64 n) {
  n = (n + 15) & ~15ul;
  if (S->bump + n > SHM_SIZE) finish(OUT_SIMERR);
  void *p = (u8*)SHM_BASE + S->bump; S->bump += n;
  return p; // region is zeroed at reset
}
static void vslog(char pre, const char *fmt, va_list ap) {
  char b[512];
  int n = snprintf(b, sizeof b, "%c%llu %lld p%d t%d ", pre, (unsigned long long)S->seq, (long long)S->now, S->procs[S->curproc].pid, S->curtask);
  n += vsnprintf(b + n, sizeof(b) - n - 2, fmt, ap);
  if (n > (int)sizeof(b) - 2) n = sizeof(b) - 2;
  b[n++] = '\n';
  if (S->loglen + n < S->logcap) { memcpy(S->log + S->loglen, b, n); S->loglen += n; }
  u64 h = 0; for (int i = 0; i < n; i++) h = h * 131 + (u8)b[i];
  mix(&S->evhash, h);
}
void slog(const char *fmt, ...) { S->seq++; va_list ap; va_start(ap, fmt); vslog('E', fmt, ap); va_end(ap); }
void anomaly(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  int n = strlen(S->anomalies);
  if (n < (int)sizeof(S->anomalies) - 200) { n += vsnprintf(S->anomalies + n, 190, fmt, ap); strcat(S->anomalies, "\n"); }
  va_end(ap);
  slog("ANOMALY %s", fmt);
}

static void futex_wait(volatile int *a, int v) { syscall(SYS_futex, a, FUTEX_WAIT, v, NULL, NULL, 0); }
static void futex_wake(volatile int *a) { syscall(SYS_futex, a, FUTEX_WAKE, 64, NULL, NULL, 0); }

void finish(int outcome) {
  if (!S->done) { S->outcome = outcome; __sync_synchronize(); S->done = 1; futex_wake(&S->done); }
  for (;;) syscall(SYS_exit_group, 0);
}

// ---------------------------------------------------------------- time and events
i64 realtime_now(void) { return S->cfg.rt_base + S->now + S->rt_off; }
void add_event(i64 at, int kind, int a, int b) {
  if (S->nev >= MAXEV) return;
  Ev *e = &S->evs[S->nev++]; e->at = at; e->seq = S->evseq++; e->kind = kind; e->a = a; e->b = b;
}
static void fire(Ev *e) {
  switch (e->kind) {
    case E_SIGNAL: case E_KILL: {
      int p = -1; for (int i = 0; i < MAXPROC; i++) if (S->procs[i].state == P_ALIVE && S->procs[i].pid == e->a) p = i;
      if (p >= 0) { slog("INJECT signal %d to %d", e->b, e->a); S->fired[e->kind == E_KILL ? F_KILL : F_SIGNAL]++; post_signal(p, e->b); }
      break; }
    case E_CLOCKJUMP: S->rt_off += (i64)e->a * 1000000; S->fired[F_CLOCK_JUMP]++; slog("CLOCKJUMP %dms", e->a); break;
    case E_WAKECHAN: wake_chan((u64)e->a); break;
  }
}
static void due_events(void) {
  for (;;) {
    int best = -1;
    for (int i = 0; i < S->nev; i++) if (S->evs[i].at <= S->now && (best < 0 || S->evs[i].at < S->evs[best].at || (S->evs[i].at == S->evs[best].at && S->evs[i].seq < S->evs[best].seq))) best = i;
    if (best < 0) break;
    Ev e = S->evs[best]; S->evs[best] = S->evs[--S->nev];
    fire(&e);
  }
  for (int i = 0; i < S->ntask; i++) {
    Task *t = &S->tasks[i];
    if (t->state != T_BLOCK || t->deadline == NEVER) continue;
    i64 d = t->dl_real ? t->deadline - S->cfg.rt_base - S->rt_off : t->deadline;
    if (d <= S->now) { t->state = T_RUN; t->wake = W_TIMEOUT; }
  }
}
static i64 next_due(void) {
  i64 m = NEVER;
  for (int i = 0; i < S->nev; i++) if (S->evs[i].at < m) m = S->evs[i].at;
  for (int i = 0; i < S->ntask; i++) {
    Task *t = &S->tasks[i];
    if (t->state == T_RUN && t->stall_until > S->now && t->stall_until < m) m = t->stall_until;
    if (t->state != T_BLOCK || t->deadline == NEVER) continue;
    i64 d = t->dl_real ? t->deadline - S->cfg.rt_base - S->rt_off : t->deadline;
    if (d < m) m = d;
  }
  return m;
}

// ---------------------------------------------------------------- context switch
void ctx_switch(void **save, void *to);
__asm__(".text\n.globl ctx_switch\n.type ctx_switch,@function\nctx_switch:\n"
 "push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\n"
 "mov %rsp,(%rdi)\nmov %rsi,%rsp\n"
 "pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n");
static void task_end(void);
static void trampoline(void) {
  int id = mycoro;
  starts[id].fn(starts[id].arg);
  task_end();
  __builtin_trap();
}
static void *stack_of(int id) { return (void*)(STACK_BASE + (u64)id * STACK_SLOT); }
static void map_stack(int id) {
  void *r = mmap(stack_of(id), STACK_SLOT, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED|MAP_NORESERVE, -1, 0);
  if (r == MAP_FAILED) finish(OUT_SIMERR);
  mprotect(stack_of(id), 65536, PROT_NONE);
}
static void prep_ctx(int id) {
  map_stack(id);
  u64 *sp = (u64*)((u64)stack_of(id) + STACK_SLOT - 256);
  sp = (u64*)((u64)sp & ~15ul);
  *--sp = 0;                 // fake return address of trampoline
  *--sp = (u64)trampoline;   // ret target
  for (int i = 0; i < 6; i++) *--sp = 0;
  ctx_sp[id] = sp;
}

static void wait_token(void) {
  for (;;) {
    int v = S->procs[myproc].turn;
    if (S->curproc == myproc) return;
    futex_wait(&S->procs[myproc].turn, v);
  }
}
// run task t next (token and coroutine); returns when the calling coroutine is scheduled again
static void switch_to(int t, int dying_proc) {
  S->curtask = t;
  int p = S->tasks[t].proc;
  if (p != myproc) {
    S->curproc = p; __sync_synchronize(); S->procs[p].turn++;
    futex_wake(&S->procs[p].turn);
    if (dying_proc) return;
    wait_token();
    t = S->curtask;
  }
  if (t == mycoro) return;
  int old = mycoro; mycoro = t;
  ctx_switch(&ctx_sp[old], ctx_sp[t]);
}

static void hangdump(void) {
  int n = 0;
  for (int i = 0; i < S->ntask && n < (int)sizeof(S->hang) - 120; i++) {
    Task *t = &S->tasks[i];
    if (t->state == T_FREE || t->state == T_DONE) continue;
    n += snprintf(S->hang + n, sizeof(S->hang) - n, "task %d pid %d %s on %s\n", i, S->procs[t->proc].pid,
                  t->state == T_RUN ? "runnable" : "blocked", t->why ? t->why : "?");
  }
}

typedef struct { int *ids; int n; int cur; } PickArg;
static i64 gen_pick(void *a) {
  PickArg *p = a;
  if (S->cfg.policy == 1) { // priority: hash of task id and epoch
    int best = p->ids[0]; u64 bp = 0;
    u64 ep = S->nswitch / 40 + (u64)S->now / 20000000;
    for (int i = 0; i < p->n; i++) { u64 h = (u64)p->ids[i] * 0x9e3779b97f4a7c15ul ^ S->cfg.seed ^ ep * 0xd6e8feb86659fd93ul; h ^= h >> 31; h *= 0xbf58476d1ce4e5b9ul; h ^= h >> 29; if (h >= bp) { bp = h; best = p->ids[i]; } }
    if (rndn(8) == 0) return p->ids[rndn(p->n)];
    return best;
  }
  return p->ids[rndn(p->n)];
}
// choose a runnable task; -1 if nothing will ever run
static int pick(int cur, int avoid_cur) {
  int ids[MAXTASK], n;
  for (;;) {
    due_events();
    n = 0; int curok = 0;
    for (int i = 0; i < S->ntask; i++) {
      if (S->tasks[i].state == T_RUN && S->tasks[i].stall_until <= S->now) { if (i == cur) { curok = 1; if (avoid_cur) continue; } ids[n++] = i; }
    }
    if (n == 0 && curok) ids[n++] = cur;
    if (n) break;
    i64 d = next_due();
    if (d == NEVER) return -1;
    if (d > S->now) S->now = d;
    if (S->now > S->cfg.max_ns) { hangdump(); finish(OUT_BUDGET); }
  }
  if ((u64)n > S->maxrun) S->maxrun = n;
  if (n == 1) return ids[0];
  S->ncontend++;
  int dflt = ids[0];
  for (int i = 0; i < n; i++) if (ids[i] > cur) { dflt = ids[i]; break; }
  for (int i = 0; i < n; i++) if (ids[i] == cur && !avoid_cur) dflt = cur;
  PickArg pa = { ids, n, cur };
  int t = (int)decide(D_SCHED, dflt, gen_pick, &pa);
  for (int i = 0; i < n; i++) if (ids[i] == t) return t;
  return dflt;
}
static int nrunnable(void) {
  int n = 0;
  for (int i = 0; i < S->ntask; i++) if (S->tasks[i].state == T_RUN && S->tasks[i].stall_until <= S->now) n++;
  return n;
}
static void set_bb(void) {
  int m = nrunnable() > 1 ? S->cfg.fine_bb : S->cfg.coarse_bb;
  S->bb_period = 1 + (int)jitn(2 * m);
  S->bb_left = S->bb_period;
}
static void nobody_left(void) {
  int alive = 0; for (int i = 0; i < MAXPROC; i++) if (S->procs[i].state == P_ALIVE) alive++;
  if (!alive) finish(S->rootdone ? OUT_OK : OUT_SIMERR);
  hangdump();
  finish(S->rootdone ? OUT_ORPHANHANG : OUT_HANG);
}
// give up the processor; current task keeps its state
static void resched(int avoid_cur) {
  int cur = S->curtask;
  int t = pick(cur, avoid_cur);
  if (t < 0) nobody_left();
  set_bb();
  if (t != cur) {
    S->nswitch++;
    S->tasks[cur].saved_errno = errno;
    mix(&S->ilhash, (u64)t * 1000003 + (u64)S->tasks[cur].epoch);
    S->tasks[cur].epoch = 0;
    switch_to(t, 0);
    errno = S->tasks[S->curtask].saved_errno;
  }
}
static void budget(void) {
  if (S->bb_total + S->nsys * 300 > S->cfg.max_bb || S->now > S->cfg.max_ns) { hangdump(); finish(OUT_BUDGET); }
}
static i64 gen_permille(void *a) { return (int)rndn(1000) < *(int*)a; }
static i64 gen_stall(void *a) { (void)a; return rndn(1000) < (u32)S->cfg.pf[F_STALL] ? (i64)(1 + rndn(50)) * 1000000 : 0; }

void yield_point(const char *name) {
  (void)name;
  S->nsys++; S->now += S->cfg.sys_ns; CUR->epoch++;
  budget();
  due_events();
  if (S->cfg.pf[F_STALL] > 0 && S->marked) {
    i64 s = decide(D_MISC, 0, gen_stall, NULL);
    if (s) { S->fired[F_STALL]++; CUR->stall_until = S->now + s; slog("FAULT stall %lld", (long long)s); resched(0); }
  }
  if (nrunnable() > 1 && decide(D_PREEMPT, 0, gen_permille, &S->cfg.p_switch)) resched(0);
  else set_bb();
  run_signals();
}
static void tick(void) {
  S->bb_total += S->bb_period; S->now += S->cfg.tick_ns * S->bb_period / (S->cfg.coarse_bb > 0 ? S->cfg.coarse_bb : 1) + 1;
  budget();
  due_events();
  if (nrunnable() > 1) {
    if (decide(D_PREEMPT, 0, gen_permille, &S->cfg.p_preempt)) { S->npreempt++; CUR->epoch += 7 * S->bb_period; resched(0); }
    else set_bb();
  } else set_bb();
  run_signals();
}
static __attribute__((noinline)) void cover(u64 pc) {
  u32 h = (u32)((pc * 0x9e3779b97f4a7c15ul) >> 44); // 20 bits
  if (!S->cov[h]) { S->cov[h] = 1; S->ncov++; }
}
void __sanitizer_cov_trace_pc(void) {
  if (__builtin_expect(!sim_active, 0)) return;
  cover((u64)__builtin_return_address(0));
  if (--S->bb_left <= 0) { int e = errno; tick(); errno = e; }
}

int block_on(const char *why, u64 chan, i64 deadline, int dl_real, int intr_ok) {
  Task *t = CUR;
  t->why = why; t->chan = chan; t->deadline = deadline; t->dl_real = dl_real; t->intr_ok = intr_ok; t->wake = W_NONE;
  t->state = T_BLOCK;
  // a signal already pending for this task is taken at once
  Proc *p = &S->procs[t->proc];
  if (p->pending & ~p->sigmask_handler && p->maintask == t->id) { t->state = T_RUN; t->wake = W_SIGNAL; }
  else resched(0);
  t->deadline = NEVER; t->chan = 0; t->state = T_RUN;
  int w = t->wake;
  int r = run_signals();
  if (w == W_SIGNAL || r) {
    if (r && (intr_ok == 2 || (intr_ok == 1 && r == 2))) return W_SIGNAL;
    if (w == W_SIGNAL) return W_NONE; // recheck condition
  }
  return w;
}
void wake_chan(u64 chan) {
  for (int i = 0; i < S->ntask; i++) if (S->tasks[i].state == T_BLOCK && S->tasks[i].chan == chan) { S->tasks[i].state = T_RUN; S->tasks[i].wake = W_CHAN; }
}
u64 chan_of(const void *p) { // process-private address -> channel
  return (u64)p < (u64)SHM_BASE || (u64)p >= (u64)SHM_BASE + SHM_SIZE ? (u64)p ^ ((u64)(myproc + 1) << 52) : (u64)p;
}

// ---------------------------------------------------------------- tasks
static int new_task(int proc) {
  if (S->ntask >= MAXTASK) return -1;
  int id = S->ntask++;
  Task *t = &S->tasks[id]; memset(t, 0, sizeof *t);
  t->state = T_RUN; t->proc = proc; t->id = id; t->deadline = NEVER; t->tid = 0;
  return id;
}
static u64 alloc_tid(int proc) {
  // like glibc: the id of a thread that is gone may be handed out again
  if (S->cfg.tid_reuse) {
    for (int i = S->ntask - 1; i >= 0; i--) {
      Task *t = &S->tasks[i];
      if (t->proc == proc && t->state == T_DONE && t->tid && (t->joined || t->detached)) {
        u64 id = t->tid; int used = 0;
        for (int j = 0; j < S->ntask; j++) if (S->tasks[j].tid == id && j != i && S->tasks[j].proc == proc && !(S->tasks[j].state == T_DONE && (S->tasks[j].joined || S->tasks[j].detached))) used = 1;
        if (!used) { t->tid = 0; return id; }
      }
    }
  }
  return 0x7f0000001000ul + 0x801000ul * (++S->nexttid);
}
static Task *find_tid(u64 tid) {
  for (int i = S->ntask - 1; i >= 0; i--) if (S->tasks[i].tid == tid && S->tasks[i].proc == myproc) return &S->tasks[i];
  return NULL;
}
static int proc_live_tasks(int p) { int n = 0; for (int i = 0; i < S->ntask; i++) if (S->tasks[i].proc == p && S->tasks[i].state != T_DONE && S->tasks[i].state != T_FREE) n++; return n; }
static void task_end(void) {
  Task *t = CUR;
  t->state = T_DONE;
  slog("thread_end %d", t->id);
  wake_chan(((u64)0x7a51 << 40) + t->id);
  if (proc_live_tasks(t->proc) == 0) { fflush(NULL); proc_exit(0); }
  resched(1);
  finish(OUT_SIMERR);
}

// ---------------------------------------------------------------- pthread API
typedef struct { u32 magic; int locked; int owner; int destroyed; } SMutex;
typedef struct { u32 magic; int destroyed; int waiters; } SCond;

pthread_t __wrap_pthread_self(void) { return (pthread_t)CUR->tid; }
int __wrap_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int __wrap_pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void*), void *arg) {
  (void)attr;
  yield_point("pthread_create");
  if (fault(F_THREAD_EAGAIN)) return EAGAIN;
  u64 tid = alloc_tid(myproc);
  int id = new_task(myproc);
  if (id < 0) { anomaly("simulator out of tasks"); finish(OUT_SIMERR); }
  S->tasks[id].tid = tid;
  starts[id].fn = fn; starts[id].arg = arg;
  prep_ctx(id);
  S->nspawn++;
  slog("thread_create %d", id);
  if (S->cfg.scripted ? 0 : 0) {}
  // the id is stored before or after the new thread first runs
  static int pm = 500;
  if (decide(D_MISC, 0, gen_permille, &pm)) { resched(0); run_signals(); *out = (pthread_t)tid; }
  else { *out = (pthread_t)tid; yield_point("pthread_create.ret"); }
  return 0;
}
int __wrap_pthread_join(pthread_t th, void **ret) {
  yield_point("pthread_join");
  if (ret) *ret = NULL;
  Task *t = find_tid((u64)th);
  if (!t) { slog("join: no such thread"); return ESRCH; }
  if (t->detached) return EINVAL;
  if (t == CUR) return EDEADLK;
  if (t->joined || t->joiner) return EINVAL;
  t->joiner = CUR->id + 1;
  while (t->state != T_DONE) block_on("pthread_join", ((u64)0x7a51 << 40) + t->id, NEVER, 0, 0);
  t->joined = 1;
  yield_point("pthread_join.ret");
  return 0;
}
int __wrap_pthread_detach(pthread_t th) {
  yield_point("pthread_detach");
  Task *t = find_tid((u64)th);
  if (!t) return ESRCH;
  if (t->detached || t->joined) return EINVAL;
  t->detached = 1; return 0;
}
void __wrap_pthread_exit(void *r) { (void)r; yield_point("pthread_exit"); task_end(); __builtin_unreachable(); }
int __wrap_sched_yield(void) { S->nsys++; S->now += S->cfg.sys_ns; CUR->epoch++; budget(); resched(1); run_signals(); return 0; }

int __wrap_pthread_mutex_init(pthread_mutex_t *m, const void *a) { (void)a; memset(m, 0, sizeof *m); ((SMutex*)m)->magic = 0x4d55; return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) {
  SMutex *s = (SMutex*)m; if (s->locked) { slog("mutex_destroy busy"); return EBUSY; } s->destroyed = 1; return 0;
}
static void smlock(SMutex *s) {
  while (s->locked) {
    if (s->owner == S->curtask) slog("self-deadlock on mutex");
    block_on("pthread_mutex_lock", chan_of(s), NEVER, 0, 0);
  }
  s->locked = 1; s->owner = S->curtask;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { yield_point("mutex_lock"); smlock((SMutex*)m); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
  yield_point("mutex_trylock"); SMutex *s = (SMutex*)m; if (s->locked) return EBUSY; s->locked = 1; s->owner = S->curtask; return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  SMutex *s = (SMutex*)m;
  if (!s->locked) slog("unlock of unlocked mutex"); else if (s->owner != S->curtask) slog("unlock by non-owner");
  s->locked = 0; wake_chan(chan_of(s));
  yield_point("mutex_unlock"); return 0;
}
int __wrap_pthread_cond_init(pthread_cond_t *c, const void *a) { (void)a; memset(c, 0, sizeof *c); return 0; }
// like glibc: waits until no thread uses the condition variable
int __wrap_pthread_cond_destroy(pthread_cond_t *c) {
  while (((SCond*)c)->waiters > 0) block_on("pthread_cond_destroy", chan_of((char*)c + 1), NEVER, 0, 0);
  ((SCond*)c)->destroyed = 1; return 0; }
static int condwoken[MAXTASK]; static u64 condchan[MAXTASK];
static i64 gen_spur(void *a) { (void)a; return rndn(1000) < (u32)S->cfg.pf[F_SPURIOUS] ? 1 + (i64)rndn(2000000) : 0; }
static int cond_wait0(pthread_cond_t *c, pthread_mutex_t *m, i64 dl, int real) {
  SMutex *s = (SMutex*)m;
  int id = S->curtask, rc = 0;
  if (!s->locked) slog("cond_wait with unlocked mutex"); 
  condwoken[id] = 0; condchan[id] = chan_of(c); ((SCond*)c)->waiters++;
  s->locked = 0; wake_chan(chan_of(s));
  CUR->epoch++; S->nsys++; S->now += S->cfg.sys_ns; budget();
  i64 spur = 0;
  if (S->cfg.pf[F_SPURIOUS] > 0 && S->marked) spur = decide(D_MISC, 0, gen_spur, NULL);
  while (!condwoken[id]) {
    i64 d = dl; int r = real;
    if (spur) { i64 sd = S->now + spur; i64 dd = dl == NEVER ? NEVER : (real ? dl - S->cfg.rt_base - S->rt_off : dl); if (sd < dd) { d = sd; r = 0; } else spur = 0; }
    int w = block_on(dl == NEVER ? "pthread_cond_wait" : "pthread_cond_timedwait", chan_of(c), d, r, 0);
    if (condwoken[id]) break;
    if (w == W_TIMEOUT) { if (spur) { S->fired[F_SPURIOUS]++; slog("FAULT spurious_wakeup"); break; } rc = ETIMEDOUT; break; }
    spur = 0;
  }
  condchan[id] = 0; if (--((SCond*)c)->waiters == 0) wake_chan(chan_of((char*)c + 1));
  smlock(s);
  return rc;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait0(c, m, NEVER, 0); }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
  if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) { yield_point("timedwait"); return EINVAL; }
  return cond_wait0(c, m, (i64)ts->tv_sec * 1000000000 + ts->tv_nsec, 1);
}
static i64 gen_any(void *a) { PickArg *p = a; return p->ids[rndn(p->n)]; }
static void cond_wake(int id) {
  condwoken[id] = 1;
  if (S->tasks[id].state == T_BLOCK && S->tasks[id].chan == condchan[id]) { S->tasks[id].state = T_RUN; S->tasks[id].wake = W_CHAN; }
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) {
  int ids[MAXTASK], n = 0; u64 ch = chan_of(c);
  for (int i = 0; i < S->ntask; i++) if (S->tasks[i].proc == myproc && S->tasks[i].state != T_DONE && condchan[i] == ch && !condwoken[i]) ids[n++] = i;
  if (n) { PickArg pa = { ids, n, 0 }; int t = n == 1 ? ids[0] : (int)decide(D_MISC, ids[0], gen_any, &pa);
    int ok = 0; for (int i = 0; i < n; i++) ok |= ids[i] == t;
    cond_wake(ok ? t : ids[0]); }
  yield_point("cond_signal"); return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) {
  u64 ch = chan_of(c);
  for (int i = 0; i < S->ntask; i++) if (S->tasks[i].proc == myproc && S->tasks[i].state != T_DONE && condchan[i] == ch) cond_wake(i);
  yield_point("cond_broadcast"); return 0;
}
int __wrap_pthread_sigmask(int how, const sigset_t *s, sigset_t *o) { (void)how; (void)s; if (o) sigemptyset(o); return 0; }
int __wrap_pthread_kill(pthread_t t, int sig) { (void)t; yield_point("pthread_kill"); post_signal(myproc, sig); run_signals(); return 0; }

// ---------------------------------------------------------------- signals
static int default_ignored(int s) { return s == SIGCHLD || s == SIGURG || s == SIGWINCH || s == SIGCONT; }
static void kill_proc(int p, int sig);
void post_signal(int p, int sig) {
  Proc *pr = &S->procs[p];
  if (pr->state != P_ALIVE || sig <= 0 || sig > 64) return;
  struct sigaction *a = &pr->sa[sig];
  if (sig == SIGKILL || (a->sa_handler == SIG_DFL && !default_ignored(sig))) {
    if (sig == SIGSTOP || sig == SIGTSTP || sig == SIGTTIN || sig == SIGTTOU) return;
    kill_proc(p, sig); return;
  }
  if (a->sa_handler == SIG_IGN || a->sa_handler == SIG_DFL) return;
  if (pr->pending & (1ul << sig)) slog("signal %d coalesced pid %d", sig, pr->pid);
  else slog("signal %d pending pid %d", sig, pr->pid);
  pr->pending |= 1ul << sig;
  Task *t = &S->tasks[pr->maintask];
  if (t->state == T_DONE) { for (int i = 0; i < S->ntask; i++) if (S->tasks[i].proc == p && S->tasks[i].state != T_DONE) { pr->maintask = i; t = &S->tasks[i]; break; } }
  if (t->state == T_BLOCK && !(pr->sigmask_handler & (1ul << sig))) { t->state = T_RUN; t->wake = W_SIGNAL; }
}
int run_signals(void) {
  Proc *p = &S->procs[S->curproc]; Task *t = CUR; int res = 0;
  if (p->maintask != t->id) return 0;
  while (p->pending & ~p->sigmask_handler) {
    int sig = __builtin_ctzl(p->pending & ~p->sigmask_handler);
    p->pending &= ~(1ul << sig);
    struct sigaction a = p->sa[sig];
    if (a.sa_handler == SIG_IGN || a.sa_handler == SIG_DFL) { if (a.sa_handler == SIG_DFL && !default_ignored(sig)) kill_proc(S->curproc, sig); continue; }
    u64 old = p->sigmask_handler;
    if (!(a.sa_flags & SA_NODEFER)) p->sigmask_handler |= 1ul << sig;
    for (int i = 1; i < 64; i++) if (sigismember(&a.sa_mask, i) == 1) p->sigmask_handler |= 1ul << i;
    // block_on() state of this task must survive the handler
    Task sv = *t; int e = errno;
    slog("handler %d pid %d", sig, p->pid); S->nsig++;
    t->in_handler++;
    siginfo_t si; memset(&si, 0, sizeof si); si.si_signo = sig; ucontext_t uc; memset(&uc, 0, sizeof uc);
    if (a.sa_flags & SA_SIGINFO) a.sa_sigaction(sig, &si, &uc); else a.sa_handler(sig);
    t->in_handler--;
    t->why = sv.why; t->chan = sv.chan; t->deadline = sv.deadline; t->dl_real = sv.dl_real; t->intr_ok = sv.intr_ok; t->wake = sv.wake;
    p->sigmask_handler = old; errno = e;
    if (!(a.sa_flags & SA_RESTART)) res = 2; else if (!res) res = 1;
  }
  return res;
}
int __wrap_sigaction(int sig, const struct sigaction *n, struct sigaction *o) {
  yield_point("sigaction");
  if (sig <= 0 || sig > 64 || sig == SIGKILL || sig == SIGSTOP) { errno = EINVAL; return -1; }
  if (n && fault(F_SIGACTION_FAIL)) { errno = EINVAL; return -1; }
  if (o) *o = PR->sa[sig];
  if (n) { PR->sa[sig] = *n; if (n->sa_handler == SIG_IGN || (n->sa_handler == SIG_DFL && default_ignored(sig))) PR->pending &= ~(1ul << sig); }
  return 0;
}
sighandler_t __wrap_signal(int sig, sighandler_t h) {
  struct sigaction n, o; memset(&n, 0, sizeof n); n.sa_handler = h; n.sa_flags = SA_RESTART; sigemptyset(&n.sa_mask);
  if (sig <= 0 || sig > 64) { errno = EINVAL; return SIG_ERR; }
  o = PR->sa[sig]; PR->sa[sig] = n; yield_point("signal"); return o.sa_handler;
}
int __wrap_kill(pid_t pid, int sig) {
  yield_point("kill");
  int hit = 0;
  for (int i = 0; i < MAXPROC; i++) {
    Proc *p = &S->procs[i];
    if (p->state != P_ALIVE && p->state != P_ZOMBIE) continue;
    if (pid == p->pid || pid == 0 || pid == -1) { hit = 1; slog("kill %d sig %d", p->pid, sig); if (sig) post_signal(i, sig); }
  }
  if (!hit) { errno = ESRCH; return -1; }
  run_signals();
  return 0;
}
int __wrap_raise(int sig) { return __wrap_kill(PR->pid, sig); }

// ---------------------------------------------------------------- processes
static int find_parent(int pid) { for (int i = 0; i < MAXPROC; i++) if (S->procs[i].state == P_ALIVE && S->procs[i].pid == pid) return i; return -1; }
static void proc_dead(int p, int wstatus) {
  Proc *pr = &S->procs[p];
  slog("proc_dead %d status %d fds %d", pr->pid, wstatus, count_fds(pr));
  pr->leaked = count_fds(pr);
  k_close_all(pr);
  for (int i = 0; i < S->ntask; i++) if (S->tasks[i].proc == p) S->tasks[i].state = T_DONE;
  pr->wstatus = wstatus; pr->state = P_ZOMBIE;
  for (int i = 0; i < MAXPROC; i++) {
    Proc *c = &S->procs[i];
    if (i != p && c->ppid == pr->pid && c->state != P_FREE) { c->ppid = 1; if (c->state == P_ZOMBIE) c->state = P_REAPED; }
  }
  if (p == 0) { S->rootstatus = wstatus; S->rootdone = 1; }
  int par = find_parent(pr->ppid);
  if (par < 0) { pr->state = P_REAPED; }
  else {
    struct sigaction *a = &S->procs[par].sa[SIGCHLD];
    if (a->sa_handler == SIG_IGN || (a->sa_flags & SA_NOCLDWAIT)) pr->state = P_REAPED;
    wake_chan(((u64)0x3a17 << 40) + S->procs[par].pid);
    post_signal(par, SIGCHLD);
  }
}
static void leave_proc(void) { // current process is dead; hand over for good
  int t = pick(-1, 0);
  if (t < 0) nobody_left();
  S->nswitch++;
  switch_to(t, 1);
  syscall(SYS_exit_group, 0);
  __builtin_unreachable();
}
void proc_exit(int wstatus) { proc_dead(myproc, wstatus); leave_proc(); }
static void kill_proc(int p, int sig) {
  slog("killed pid %d by %d", S->procs[p].pid, sig);
  if (p == myproc) proc_exit(sig & 0x7f);
  int rp = S->procs[p].realpid;
  proc_dead(p, sig & 0x7f);
  if (rp > 1) syscall(SYS_kill, rp, SIGKILL);
}
void __wrap__exit(int st) { yield_point("_exit"); proc_exit((st & 0xff) << 8); __builtin_unreachable(); }
static void (*atex[32])(void); static int natex;
int __wrap_atexit(void (*f)(void)) { if (natex < 32) atex[natex++] = f; return 0; }
void __wrap_exit(int st) { while (natex) atex[--natex](); fflush(NULL); yield_point("exit"); proc_exit((st & 0xff) << 8); __builtin_unreachable(); }
void __wrap_abort(void) { slog("abort()"); fflush(NULL); raise(SIGABRT); __real__exit(134); }
pid_t __wrap_getpid(void) { return PR->pid; }
pid_t __wrap_getppid(void) { return PR->ppid; }
pid_t __wrap_fork(void) {
  yield_point("fork");
  if (fault(F_FORK_EAGAIN)) { errno = EAGAIN; return -1; }
  int np = -1; for (int i = 0; i < MAXPROC; i++) if (S->procs[i].state == P_FREE) { np = i; break; }
  if (np < 0) { errno = EAGAIN; return -1; }
  int id = new_task(np);
  if (id < 0) finish(OUT_SIMERR);
  Proc *c = &S->procs[np], *p = PR;
  *c = *p; c->state = P_ALIVE; c->pid = S->nextpid++; c->ppid = p->pid; c->pending = 0; c->maintask = id; c->turn = 0; c->forked = 1; c->realpid = 0; c->leaked = 0;
  S->tasks[id].tid = CUR->tid; S->tasks[id].in_handler = CUR->in_handler;
  k_fork_fds(c);
  S->nfork++;
  slog("fork %d", c->pid);
  int mine = S->curtask;
  pid_t r = __real_fork();
  if (r < 0) finish(OUT_SIMERR);
  if (r == 0) {
    ctx_sp[mine] = NULL;
    myproc = np; mycoro = id;
    for (int i = 0; i < MAXTASK; i++) { condchan[i] = 0; condwoken[i] = 0; }
    wait_token();
    if (S->curtask != id) finish(OUT_SIMERR);
    errno = 0;
    run_signals();
    return 0;
  }
  c->realpid = r;
  int pid = c->pid;
  yield_point("fork.ret");
  return pid;
}
pid_t __wrap_vfork(void) { return __wrap_fork(); }
pid_t __wrap_waitpid(pid_t pid, int *st, int opts) {
  yield_point("waitpid");
  for (;;) {
    int any = 0, ids[MAXPROC], n = 0;
    for (int i = 0; i < MAXPROC; i++) {
      Proc *c = &S->procs[i];
      if (c->ppid != PR->pid || i == myproc || (c->state != P_ALIVE && c->state != P_ZOMBIE)) continue;
      if (pid > 0 && c->pid != pid) continue;
      any = 1;
      if (c->state == P_ZOMBIE) ids[n++] = i;
    }
    if (n) {
      PickArg pa = { ids, n, 0 }; int k = n == 1 ? ids[0] : (int)decide(D_MISC, ids[0], gen_any, &pa);
      int ok = 0; for (int i = 0; i < n; i++) ok |= ids[i] == k;
      if (!ok) k = ids[0];
      Proc *c = &S->procs[k]; c->state = P_REAPED; if (st) *st = c->wstatus;
      slog("reaped %d by %d status %d", c->pid, PR->pid, c->wstatus);
      int r = c->pid; yield_point("waitpid.ret"); return r;
    }
    if (!any) { errno = ECHILD; return -1; }
    if (opts & WNOHANG) return 0;
    if (fault(F_WAIT_EINTR)) { errno = EINTR; return -1; }
    if (block_on("waitpid", ((u64)0x3a17 << 40) + PR->pid, NEVER, 0, 1) == W_SIGNAL) { errno = EINTR; return -1; }
  }
}
pid_t __wrap_wait(int *st) { return __wrap_waitpid(-1, st, 0); }
// stub command interpreter for system() and execvp()
static int stub_cmd(const char *cmd, int *found) {
  char w[32] = ""; int arg = 0; char rest[200] = "";
  *found = 1;
  while (*cmd == ' ') cmd++;
  sscanf(cmd, "%31s %199[^\n]", w, rest); arg = atoi(rest);
  S->cmdcount++;
  slog("command '%s'", cmd);
  if (!strcmp(w, "true") || !strcmp(w, ":")) return 0;
  if (!strcmp(w, "false")) return 1 << 8;
  if (!strcmp(w, "exit")) return (arg & 255) << 8;
  if (!strcmp(w, "selfkill")) return arg & 127;
  if (!strcmp(w, "sleep")) { i64 dl = S->now + (i64)(atof(rest) * 1e9); while (S->now < dl) if (block_on("command sleep", 0, dl, 0, 0) == W_TIMEOUT) break; return 0; }
  if (!strcmp(w, "echo")) { int n = strlen(rest); rest[n++] = '\n'; out_write(1, rest, n); return 0; }
  *found = 0; return 127 << 8;
}
int __wrap_system(const char *cmd) {
  yield_point("system");
  if (!cmd) return 1;
  if (fault(F_SYSTEM_FAIL)) { errno = EAGAIN; return -1; }
  int f; S->nextpid++; int r = stub_cmd(cmd, &f); yield_point("system.ret"); return r;
}
int __wrap_execvp(const char *file, char *const argv[]) {
  yield_point("execvp");
  char cmd[300]; int n = snprintf(cmd, sizeof cmd, "%s", file); int f;
  for (int i = 1; argv[i] && n < 280; i++) n += snprintf(cmd + n, sizeof cmd - n, " %s", argv[i]);
  // known commands only; the others do not exist
  static const char *known[] = { "true","false","exit","selfkill","sleep","echo",NULL }; int ok = 0;
  for (int i = 0; known[i]; i++) if (!strcmp(known[i], file)) ok = 1;
  if (!ok) { errno = ENOENT; return -1; }
  for (int i = 0; i < S->ntask; i++) if (S->tasks[i].proc == myproc && i != S->curtask) S->tasks[i].state = T_DONE;
  for (int i = 0; i < MAXFD; i++) if (PR->fds[i] && PR->cloexec[i]) k_close(i);
  for (int i = 1; i < 65; i++) if (PR->sa[i].sa_handler != SIG_IGN) PR->sa[i].sa_handler = SIG_DFL;
  PR->maintask = S->curtask;
  int st = stub_cmd(cmd, &f);
  proc_exit(st); __builtin_unreachable();
}

// ---------------------------------------------------------------- clocks
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) {
  S->now += 20; CUR->epoch++;
  i64 t = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? realtime_now() : S->now + 5000000000ll;
  if (c != CLOCK_REALTIME && c != CLOCK_MONOTONIC && c != CLOCK_PROCESS_CPUTIME_ID && c != CLOCK_THREAD_CPUTIME_ID && c > 11) { errno = EINVAL; return -1; }
  ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000; return 0;
}
int __wrap_gettimeofday(struct timeval *tv, void *z) { (void)z; S->now += 20; i64 t = realtime_now(); tv->tv_sec = t / 1000000000; tv->tv_usec = t % 1000000000 / 1000; return 0; }
time_t __wrap_time(time_t *t) { S->now += 20; time_t r = realtime_now() / 1000000000; if (t) *t = r; return r; }
clock_t __wrap_clock(void) { S->now += 20; return S->now / 1000; }
static int nsleep(i64 ns, int intr) {
  i64 dl = S->now + ns; yield_point("nanosleep");
  while (S->now < dl) { int w = block_on("nanosleep", 0, dl, 0, intr); if (w == W_TIMEOUT) break; if (w == W_SIGNAL) { errno = EINTR; return -1; } }
  return 0;
}
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { (void)b; if (a->tv_nsec < 0 || a->tv_nsec >= 1000000000 || a->tv_sec < 0) { errno = EINVAL; return -1; } return nsleep((i64)a->tv_sec * 1000000000 + a->tv_nsec, 2); }
int __wrap_clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) {
  (void)b; i64 t = (i64)a->tv_sec * 1000000000 + a->tv_nsec;
  if (fl & TIMER_ABSTIME) t -= c == CLOCK_REALTIME ? realtime_now() : S->now + 5000000000ll;
  return t > 0 && nsleep(t, 2) < 0 ? EINTR : 0; }
int __wrap_usleep(useconds_t u) { return nsleep((i64)u * 1000, 2); }
unsigned __wrap_sleep(unsigned s) { nsleep((i64)s * 1000000000, 2); return 0; }

// ---------------------------------------------------------------- hooks called from the guarded code in /repo
static i64 gen_quantum(void *a) {
  (void)a;
  if ((int)rndn(1000) >= S->cfg.p_quantum) return 10000;
  int lo = S->cfg.quantum_lo, hi = S->cfg.quantum_hi;
  if (rndn(4) == 0) hi = lo + (hi - lo) / 20 + 1;
  return lo + (i64)rndn(hi - lo + 1);
}
int sim_ops_quantum(void) { if (!sim_active) return 10000; return (int)decide(D_QUANTUM, 10000, gen_quantum, NULL); }
static i64 gen_gc(void *a) {
  (void)a; u32 r = rndn(100000);
  if (r < (u32)S->cfg.p_gc_full) return 2;
  if (r < (u32)(S->cfg.p_gc_full + S->cfg.p_gc_young)) return 1;
  return 0;
}
int sim_gc_point(void) {
  if (!sim_active || (!S->cfg.p_gc_young && !S->cfg.p_gc_full) || !S->marked) return 0;
  int v = (int)decide(D_GC, 0, gen_gc, NULL);
  if (v == 1) S->ngcy++; else if (v == 2) S->ngcf++;
  return v;
}

// ---------------------------------------------------------------- heap: fixed addresses, canaries, poison, moving realloc
void *__real_malloc(size_t); void __real_free(void*); void *__real_realloc(void*, size_t); void *__real_calloc(size_t, size_t);
#define HM_LIVE 0x51A11C0Du
#define HM_FREE 0xDEADF4EEu
typedef struct H { u32 magic, cls; u64 size; struct H *next; u64 pad; } H; // 32 bytes
static struct { u64 top; H *head[64], *tail[64]; int cnt[64]; u64 live; u64 peak; } hp;
static size_t cls_size(int c) { return c < 32 ? (size_t)(c + 1) * 32 : (size_t)1024 << (c - 31); }
static int cls_of(size_t n) { if (n <= 1024) return n ? (int)((n - 1) / 32) : 0; int c = 32; while (cls_size(c) < n) c++; return c; }
void heap_reset(void) {
  mmap((void*)HEAP_BASE, HEAP_SIZE, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED|MAP_NORESERVE, -1, 0);
  memset(&hp, 0, sizeof hp); hp.top = HEAP_BASE;
}
static int inheap(void *p) { return (u64)p >= HEAP_BASE && (u64)p < HEAP_BASE + HEAP_SIZE; }
static void heapbad(const char *what, void *p) {
  slog("HEAP %s", what); anomaly("heap: %s", what); (void)p;
  S->nbt = backtrace((void**)S->bt, 40);
  finish(OUT_HEAP);
}
static u64 canary(void *p) { return (u64)p * 0x9e3779b97f4a7c15ul ^ 0xC0FFEE1234ul; }
void *__wrap_malloc(size_t n) {
  if (!sim_active) return __real_malloc(n);
  if (n > (1ul << 30)) { errno = ENOMEM; return NULL; }
  int c = cls_of(n + 8); H *h;
  if (hp.cnt[c] > 24) { h = hp.head[c]; hp.head[c] = h->next; hp.cnt[c]--; if (h->magic != HM_FREE) heapbad("free list overwritten", h);
    u8 *d = (u8*)(h + 1); u64 lim = cls_size(c); if (lim > 256) lim = 256; for (u64 i = 0; i < lim; i++) if (d[i] != 0xDD) heapbad("write after free", d); }
  else { h = (H*)hp.top; hp.top += sizeof(H) + cls_size(c); if (hp.top > HEAP_BASE + HEAP_SIZE) { errno = ENOMEM; return NULL; } }
  h->magic = HM_LIVE; h->cls = c; h->size = n; h->next = NULL;
  void *p = h + 1;
  memset(p, S->cfg.fillrand ? (int)(0x5A ^ (c * 37)) : 0xCD, n < 4096 ? n : 4096);
  u64 k = canary(p); memcpy((u8*)p + n, &k, 8);
  hp.live += n; if (hp.live > hp.peak) hp.peak = hp.live;
  return p;
}
static void check_block(void *p, const char *w) {
  H *h = (H*)p - 1;
  if (h->magic != HM_LIVE) heapbad(h->magic == HM_FREE ? "double free / use of freed block" : w, p);
  u64 k; memcpy(&k, (u8*)p + h->size, 8);
  if (k != canary(p)) heapbad("write past end of block", p);
}
void __wrap_free(void *p) {
  if (!p) return;
  if (!inheap(p)) { __real_free(p); return; }
  check_block(p, "bad free");
  H *h = (H*)p - 1; int c = h->cls;
  hp.live -= h->size;
  u64 lim = cls_size(c); if (lim > 65536) lim = 65536;
  memset(p, 0xDD, lim);
  h->magic = HM_FREE; h->next = NULL;
  if (hp.cnt[c]) { hp.tail[c]->next = h; hp.tail[c] = h; } else hp.head[c] = hp.tail[c] = h;
  hp.cnt[c]++;
}
void *__wrap_calloc(size_t a, size_t b) {
  if (!sim_active) return __real_calloc(a, b);
  void *p = __wrap_malloc(a * b); if (p) memset(p, 0, a * b); return p;
}
void *__wrap_realloc(void *p, size_t n) {
  if (!p) return __wrap_malloc(n);
  if (!inheap(p)) return sim_active ? ({ void *q = __wrap_malloc(n); extern size_t malloc_usable_size(void*); size_t o = malloc_usable_size(p); memcpy(q, p, o < n ? o : n); __real_free(p); q; }) : __real_realloc(p, n);
  check_block(p, "bad realloc");
  H *h = (H*)p - 1; size_t o = h->size;
  void *q = __wrap_malloc(n); if (!q) return NULL;
  memcpy(q, p, o < n ? o : n);
  __wrap_free(p);
  return q;
}
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = __wrap_malloc(n); memcpy(p, s, n); return p; }
u64 heap_live(void) { return hp.live; }
u64 heap_top(void) { return hp.top - HEAP_BASE; }

// ---------------------------------------------------------------- crash handling and run entry
static void crash(int sig, siginfo_t *si, void *uc_) {
  ucontext_t *uc = uc_;
  static int again;
  if (S->done) syscall(SYS_exit_group, 0);
  if (again++) finish(OUT_CRASH);
  S->crashsig = sig; S->crashaddr = (u64)si->si_addr;
  S->bt[0] = uc->uc_mcontext.gregs[REG_RIP]; S->nbt = 1;
  u64 bp = uc->uc_mcontext.gregs[REG_RBP];
  for (int i = 1; i < 38 && bp > STACK_BASE + 65536 && bp < STACK_BASE + MAXTASK * STACK_SLOT - 16; i++) { // frame pointers
    u64 *f = (u64*)bp; S->bt[i] = f[1]; S->nbt = i + 1; if (f[0] <= bp) break; bp = f[0]; }
  finish(OUT_CRASH);
}
static int g_argc; static char **g_argv;
static void *root_main(void *a) { (void)a; int r = clox_main(g_argc, g_argv); extern void __wrap_exit(int); __wrap_exit(r); return NULL; }
int __real_sigaction(int, const struct sigaction*, struct sigaction*);
void sim_run(int argc, char **argv) { // in the forked run process
  static u8 alt[65536];
  stack_t ss = { .ss_sp = alt, .ss_size = sizeof alt }; sigaltstack(&ss, NULL);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  int sg[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP };
  for (int i = 0; i < 6; i++) __real_sigaction(sg[i], &sa, NULL);
  seedrng(S->rng, S->cfg.seed); seedrng(S->jit, S->cfg.seed ^ 0x5151515151ul);
  heap_reset();
  Proc *p = &S->procs[0]; memset(p, 0, sizeof *p);
  p->state = P_ALIVE; p->pid = 1000; p->ppid = 999; S->nextpid = 1001; strcpy(p->cwd, "/work"); p->umask = 022; p->nofile = S->cfg.nofile > 0 && S->cfg.nofile < MAXFD ? S->cfg.nofile : MAXFD;
  p->realpid = syscall(SYS_getpid);
  myproc = 0; S->curproc = 0;
  int id = new_task(0); S->tasks[id].tid = alloc_tid(0); p->maintask = id; S->curtask = id; mycoro = id;
  S->ilhash = 1469598103934665603ul; S->evhash = S->ilhash;
  io_init_std();
  g_argc = argc; g_argv = argv;
  starts[id].fn = root_main; starts[id].arg = NULL;
  prep_ctx(id);
  set_bb();
  sim_active = 1;
  void *dummy; ctx_switch(&dummy, ctx_sp[id]);
  __builtin_unreachable();
}
