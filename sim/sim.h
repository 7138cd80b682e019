// Deterministic simulator for clox: shared declarations.
#ifndef SIM_H
#define SIM_H
#define _GNU_SOURCE 1
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdio.h>
#include <sys/types.h>
#include <time.h>
#include <signal.h>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;

#define SHM_BASE   ((void*)0x200000000000ul)
#define SHM_SIZE   (192ul<<20)
#define HEAP_BASE  0x100000000000ul
#define HEAP_SIZE  (2ul<<30)
#define STACK_BASE 0x180000000000ul
#define STACK_SLOT (8ul<<20)

#define MAXPROC 40
#define MAXTASK 200
#define MAXFD   80
#define MAXOFD  600
#define MAXEV   256
#define NEVER   INT64_MAX
#define MAXDEC  60000

enum { T_FREE=0, T_RUN, T_BLOCK, T_DONE };
enum { P_FREE=0, P_ALIVE, P_ZOMBIE, P_REAPED };
enum { O_NONE=0, O_FILE, O_PIPER, O_PIPEW, O_SOCK, O_SINK, O_STDIN, O_DIRFD };

// decision streams
enum { D_SCHED=0, D_PREEMPT, D_QUANTUM, D_GC, D_FAULT, D_MISC, D_NKIND };
// fault kinds
enum { F_SHORT_READ=0, F_SHORT_WRITE, F_EIO_READ, F_EIO_WRITE, F_ENOSPC, F_EMFILE, F_OPEN_EACCES,
       F_SPURIOUS, F_THREAD_EAGAIN, F_FORK_EAGAIN, F_CONN_REFUSED, F_CONN_RESET, F_PIPE_FAIL, F_CLOSE_EIO,
       F_STAT_EIO, F_CLOCK_JUMP, F_STALL, F_UNLINK_FAIL, F_RENAME_FAIL, F_SIGNAL, F_KILL, F_WAIT_EINTR,
       F_SELECT_EINTR, F_SYSTEM_FAIL, F_NET_DELAY, F_MKDIR_FAIL, F_CHDIR_FAIL, F_OPENDIR_FAIL, F_EINTR_READ,
       F_EINTR_WRITE, F_SOCKET_FAIL, F_CWD_FAIL, F_SIGACTION_FAIL, F_SEEK_FAIL, F_SINK_BLOCK, F_NKIND };

typedef struct Inode {
  int used, type;            // S_IFREG / S_IFDIR / S_IFLNK / S_IFSOCK
  u32 mode, uid, gid; int nlink, opens;
  i64 atime, mtime, ctime; u64 ino;
  u8 *data; u64 size, capa;  // regular data or symlink target
  struct Dent { char name[96]; struct Inode *in; } *ents; int nents, cents;
  struct Inode *parent;
  int sockofd;               // listening unix socket
} Inode;

typedef struct Pipe {
  u8 *buf; u32 cap, rpos, len; int readers, writers, id; u64 total_w, total_r;
} Pipe;

typedef struct Seg { i64 at; u32 len, off; u8 *data; struct Seg *next; } Seg;
typedef struct Sock {
  int domain, type; int listening, connected, bound;
  u32 addr; int port; char path[112];
  struct Sock *peer;
  Seg *rx, *rxtail; u32 rxlen; int peer_closed; int reset; int closed; i64 eof_at; i64 last_at;
  struct Sock *backlog[64]; int nback, maxback;
  int chanid; Inode *inode;
} Sock;

typedef struct Ofd {
  int type, refs, flags; i64 off; Inode *in; Pipe *pipe; Sock *sock; int sinkno; int dirpos;
  char path[128];
} Ofd;

typedef struct Proc {
  int state, pid, ppid, wstatus; int realpid;
  int fds[MAXFD]; u8 cloexec[MAXFD];
  struct sigaction sa[65]; u64 pending; u64 sigmask_handler;
  char cwd[256]; u32 umask; int maintask; int ntasks;
  volatile int turn; int forked; int nofile; int leaked;
} Proc;

typedef struct Task {
  int state, proc, id; u64 tid; const char *why; u64 chan; i64 deadline; int dl_real; // deadline on realtime clock
  int wake; int intr_ok, intr; int detached, joined, joiner; int saved_errno; int in_handler; i64 stall_until;
  u64 switches;
  u64 epoch;
} Task;
enum { W_NONE=0, W_CHAN, W_TIMEOUT, W_SIGNAL, W_SPUR };

typedef struct Ev { i64 at; u64 seq; int kind, a, b; int bb; } Ev;
enum { E_NONE=0, E_SIGNAL, E_CLOCKJUMP, E_WAKECHAN, E_KILL, E_WAKEALL };

typedef struct Cfg {
  u64 seed; int scripted;
  int p_switch;      // per-mille: switch at a syscall yield point
  int p_preempt;     // per-mille: switch at a tick when >1 runnable
  int fine_bb, coarse_bb; i64 tick_ns;
  int quantum_lo, quantum_hi; int p_quantum; // per-mille that a quantum is drawn small
  int p_gc_young, p_gc_full; // per 100000
  int pf[F_NKIND];   // per-mille
  int fmax;          // max faults fired (0: unlimited)
  int early; // faults from the start, not only once the main script was read
  int pipe_cap; int nofile; u64 disk_cap; i64 rt_base; i64 net_delay;
  int tty; u64 max_bb; i64 max_ns; int tid_reuse; int fillrand; int realmax;
  i64 sys_ns; int policy; int spin_ns; int logall;
} Cfg;

typedef struct Dec { u8 kind; u32 idx; i64 val; } Dec;

typedef struct Sim {
  volatile int done; int outcome; int crashsig; u64 crashaddr; u64 bt[40]; int nbt;
  int rootstatus, rootdone; 
  Cfg cfg;
  u64 rng[4], jit[4];
  i64 now, rt_off; u64 seq, bb_total; int npipe; i64 bb_left; int bb_period;
  int curtask; volatile int curproc;
  Proc procs[MAXPROC]; int nextpid;
  Task tasks[MAXTASK]; int ntask; u64 nexttid;
  Ofd ofds[MAXOFD]; Inode *root; u64 nextino; u64 disk_used; u64 next_off_free;
  Ev evs[MAXEV]; int nev; u64 evseq;
  u32 dcount[D_NKIND];
  Dec decs[MAXDEC]; u32 ndec;         // recorded non-default decisions
  Dec script[MAXDEC]; u32 nscript; u32 scriptpos[D_NKIND];
  u64 fired[F_NKIND]; u64 draws[F_NKIND]; u64 nfired; 
  u64 nswitch, npreempt, nsys, nsig, ngcy, ngcf, nspawn, nfork, ncontend, maxrun; u64 ilhash, evhash;
  u64 cmdcount; u64 marker; int marked, mainread;
  char *log; u32 loglen, logcap;
  u8 *out; u32 outlen, outcap;        // records
  char *stdin_data; u32 stdin_len, stdin_pos;
  u8 *cov; u64 ncov;
  u64 bump; Sock *listeners[64]; int nlisten; int ephem;
  char hang[4096];
  int openfiles_peak; u64 kfree[40]; int enospc_next; u64 regsseq; u64 heap_live_end, heap_top_end;
  char anomalies[4096];
} Sim;
#define S ((Sim*)SHM_BASE)

// core api
u64 rnd64(void); u32 rndn(u32 n); u32 jitn(u32 n);
i64 decide(int kind, i64 dflt, i64 (*gen)(void*), void *arg);
int fault(int kind);
void slog(const char *fmt, ...) __attribute__((format(printf,1,2)));
void anomaly(const char *fmt, ...) __attribute__((format(printf,1,2)));
void yield_point(const char *name);
int block_on(const char *why, u64 chan, i64 deadline, int dl_real, int intr_ok);
void wake_chan(u64 chan);
int wake_one(u64 chan);
void post_signal(int proc, int sig);
int run_signals(void); // returns 1 if a handler ran (2 if one without SA_RESTART)
void add_event(i64 at, int kind, int a, int b);
void finish(int outcome);
void *shm_alloc(u64 n);
void proc_exit(int wstatus);
i64 realtime_now(void);
u64 chan_of(const void *p);
#define CUR (&S->tasks[S->curtask])
#define PR  (&S->procs[S->curproc])
enum { OUT_OK=1, OUT_HANG, OUT_BUDGET, OUT_CRASH, OUT_SIMERR, OUT_ORPHANHANG, OUT_HEAP };
// kernel
void kern_init(void);
int k_open(const char *path, int flags, u32 mode);
ssize_t k_read(int fd, void *buf, size_t n);
ssize_t k_write(int fd, const void *buf, size_t n);
i64 k_lseek(int fd, i64 off, int wh);
int k_close(int fd);
void k_close_all(Proc *p);
void k_fork_fds(Proc *p);
int vfs_put(const char *path, const u8 *data, u64 len, u32 mode);
Inode *vfs_lookup(const char *path, int follow, Inode **parent, char *last, int *err);
void vfs_dump(const char *prefix, void (*cb)(const char *path, Inode *in, void *arg), void *arg);
void io_init_std(void);
void heap_reset(void);
int heap_check(void);
int count_fds(Proc *p);
int rnd_bit_ok(void);
void k_wake_all_socks(void);
u64 heap_live(void);
void out_write(int which, const void *buf, size_t n);
extern int clox_main(int argc, char **argv);
#endif
