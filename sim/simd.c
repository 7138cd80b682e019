// Job server: reads jobs on stdin, runs each in a fresh forked process under the simulator, reports on stdout.
#include "sim.h"
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <linux/futex.h>

int __real_open(const char*, int, ...); ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t); int __real_close(int);
pid_t __real_fork(void); pid_t __real_waitpid(pid_t, int*, int); DIR *__real_opendir(const char*); struct dirent *__real_readdir(DIR*); int __real_closedir(DIR*);
void *__real_malloc(size_t); void *__real_realloc(void*, size_t); void __real_free(void*); int __real_kill(pid_t, int); void __real__exit(int) __attribute__((noreturn));
void sim_run(int, char**);

static void rd(void *b, size_t n) { size_t g = 0; while (g < n) { ssize_t r = __real_read(0, (char*)b + g, n - g); if (r <= 0) __real__exit(0); g += r; } }
static char *ob; static size_t on, ocap;
static void o(const void *b, size_t n) { if (on + n > ocap) { ocap = (on + n) * 2; ob = __real_realloc(ob, ocap); } memcpy(ob + on, b, n); on += n; }
static void of(const char *fmt, ...) __attribute__((format(printf,1,2)));
#include <stdarg.h>
static void of(const char *fmt, ...) { char b[8192]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap); if (n > (int)sizeof b - 1) n = sizeof b - 1; o(b, n); }

static struct { char path[200]; u8 *d; size_t n; } libs[200]; static int nlibs;
static void load(const char *dir, const char *as) {
  DIR *d = __real_opendir(dir); if (!d) return; struct dirent *e;
  while ((e = __real_readdir(d))) {
    if (e->d_name[0] == '.' || nlibs >= 200) continue;
    char p[400]; snprintf(p, sizeof p, "%s/%s", dir, e->d_name); int fd = __real_open(p, O_RDONLY); if (fd < 0) continue;
    size_t cap = 1 << 20, n = 0; u8 *b = __real_malloc(cap); ssize_t r; while ((r = __real_read(fd, b + n, cap - n)) > 0) n += r;
    __real_close(fd); b = __real_realloc(b, n + 1); snprintf(libs[nlibs].path, 200, "%s/%s", as, e->d_name); libs[nlibs].d = b; libs[nlibs++].n = n;
  }
  __real_closedir(d);
}
static struct { const char *n; size_t off; int sz; } keys[] = {
#define K(f) { #f, offsetof(Cfg, f), sizeof(((Cfg*)0)->f) }
  K(seed), K(scripted), K(p_switch), K(p_preempt), K(fine_bb), K(coarse_bb), K(tick_ns), K(quantum_lo), K(quantum_hi), K(p_quantum), K(p_gc_young), K(p_gc_full), K(fmax),
  K(pipe_cap), K(nofile), K(disk_cap), K(rt_base), K(net_delay), K(tty), K(max_bb), K(max_ns), K(tid_reuse), K(fillrand), K(realmax), K(sys_ns), K(policy), K(early) };
static const char *fn[] = { "short_read","short_write","eio_read","eio_write","enospc","emfile","open_eacces",
 "spurious_wakeup","thread_eagain","fork_eagain","conn_refused","conn_reset","pipe_fail","close_eio","stat_eio","clock_jump",
 "stall","unlink_fail","rename_fail","signal","kill","wait_eintr","select_eintr","system_fail","net_delay","mkdir_fail",
 "chdir_fail","opendir_fail","eintr_read","eintr_write","socket_fail","cwd_fail","sigaction_fail","seek_fail","sink_block" };
static void setkey(const char *k, long long v) {
  if (!strncmp(k, "pf.", 3)) { for (int i = 0; i < F_NKIND; i++) if (!strcmp(fn[i], k + 3)) { S->cfg.pf[i] = v; return; } }
  for (size_t i = 0; i < sizeof keys / sizeof *keys; i++) if (!strcmp(keys[i].n, k)) { u8 *p = (u8*)&S->cfg + keys[i].off; if (keys[i].sz == 8) *(i64*)p = v; else *(int*)p = v; return; }
  of("badkey %s\n", k);
}
static u8 *covall;
static int wantfiles; static char filespre[200];
static void dumpcb(const char *path, Inode *in, void *arg) {
  (void)arg; u64 n = in->type == S_IFDIR ? 0 : in->size;
  of("F %s %o %u %llu\n", path, in->type, in->mode, (unsigned long long)n); o(in->data, n); of("\n");
}
int main(int argc, char **argv) {
  if (!(argc > 1 && !strcmp(argv[1], "-x"))) {
    personality(ADDR_NO_RANDOMIZE);
    char *av[] = { argv[0], "-x", argc > 1 ? argv[1] : "/repo/lib", argc > 2 ? argv[2] : "/repo/lib", NULL }; char *ev[] = { NULL };
    execve("/proc/self/exe", av, ev); 
  }
  prctl(PR_SET_CHILD_SUBREAPER, 1); prctl(PR_SET_PDEATHSIG, SIGKILL);
  load(argv[2], argv[3]);
  void *m = mmap(SHM_BASE, SHM_SIZE, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_FIXED|MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) return 3;
  covall = __real_malloc(1 << 20); memset(covall, 0, 1 << 20);
  S->bump = sizeof(Sim);
  static char *av[64];
  for (;;) {
    char hdr[32]; rd(hdr, 16); size_t n = strtoul(hdr, NULL, 10); char *j = __real_malloc(n + 1); rd(j, n); j[n] = 0;
    u64 used = S->bump; memset(SHM_BASE, 0, used < SHM_SIZE ? used : SHM_SIZE); S->bump = (sizeof(Sim) + 4095) & ~4095ul; on = 0;
    Cfg *c = &S->cfg; c->p_switch = 200; c->p_preempt = 300; c->fine_bb = 1500; c->coarse_bb = 20000; c->tick_ns = 200000; c->quantum_lo = 50; c->quantum_hi = 10000; c->p_quantum = 0;
    c->pipe_cap = 65536; c->rt_base = 1600000000000000000ll; c->max_bb = 1000000000ul; c->max_ns = 3600ll * 1000000000 * 24; c->tid_reuse = 1; c->sys_ns = 300; c->tty = 1; c->realmax = 60;
    S->logcap = 4 << 20; S->log = shm_alloc(S->logcap); S->outcap = 8 << 20; S->out = shm_alloc(S->outcap); S->cov = shm_alloc(1 << 20);
    kern_init();
    for (int i = 0; i < nlibs; i++) vfs_put(libs[i].path, libs[i].d, libs[i].n, 0644);
    int ac = 0; av[ac++] = "clox"; wantfiles = 0; int wantlog = 0, wantdecs = 0;
    char *p = j, *end = j + n;
    while (p < end) {
      char *e = memchr(p, '\n', end - p); if (!e) break; *e = 0; char a[256]; long long x, y, z; unsigned long len; unsigned mode;
      if (sscanf(p, "cfg %255s %lld", a, &x) == 2) setkey(a, x);
      else if (sscanf(p, "file %255s %lu %o", a, &len, &mode) == 3) { vfs_put(a, (u8*)e + 1, len, mode); e += len + 1; }
      else if (sscanf(p, "dir %255s %o", a, &mode) == 2) vfs_put(a, NULL, ~0ul, mode);
      else if (sscanf(p, "stdin %lu", &len) == 1) { S->stdin_data = shm_alloc(len + 1); memcpy(S->stdin_data, e + 1, len); S->stdin_len = len; e += len + 1; }
      else if (!strncmp(p, "arg ", 4)) av[ac++] = p + 4;
      else if (sscanf(p, "ev %lld %lld %lld %lld", &x, &y, &z, (long long*)&len) == 4) add_event(x, (int)y, (int)z, (int)(long long)len);
      else if (sscanf(p, "dec %lld %lld %lld", &x, &y, &z) == 3) { if (S->nscript < MAXDEC) { Dec *d = &S->script[S->nscript++]; d->kind = x; d->idx = y; d->val = z; } }
      else if (sscanf(p, "wantfiles %199s", filespre) == 1) wantfiles = 1;
      else if (!strcmp(p, "wantlog")) wantlog = 1;
      else if (!strcmp(p, "wantdecs")) wantdecs = 1;
      p = e + 1;
    }
    av[ac] = NULL;
    // the script is ordered by (kind, idx) by the driver
    pid_t r = __real_fork();
    if (r == 0) { setpgid(0, 0); int nul = __real_open("/dev/null", O_RDWR); (void)nul; __real_close(0); sim_run(ac, av); }
    setpgid(r, r);
    double waited = 0; int st, dead = 0;
    while (!S->done) {
      struct timespec ts = { 0, 20000000 };
      long q = syscall(SYS_futex, &S->done, FUTEX_WAIT, 0, &ts, NULL, 0);
      if (q < 0 && errno == ETIMEDOUT) {
        waited += 0.02;
        int any = 0; // is anybody of the run still there?
        if (!dead && __real_waitpid(r, &st, WNOHANG) == r) dead = 1;
        any = __real_kill(-r, 0) == 0;
        if (!S->done && (!any || waited > c->realmax)) { S->outcome = OUT_SIMERR; snprintf(S->anomalies + strlen(S->anomalies), 200, "%s status %x", any ? "watchdog" : "run process vanished", dead ? st : 0); break; }
      }
    }
    __real_kill(-r, SIGKILL);
    while (__real_waitpid(-1, &st, 0) > 0 || errno == EINTR);
    of("outcome %d\n", S->outcome); of("crashsig %d\ncrashaddr %llx\n", S->crashsig, (unsigned long long)S->crashaddr);
    of("bt"); for (int i = 0; i < S->nbt; i++) of(" %llx", (unsigned long long)S->bt[i]); of("\n");
    of("rootstatus %d\nrootdone %d\nnow %lld\nbb %llu\nsys %llu\nsched %llu\npreempt %llu\ncontend %llu\nspawn %llu\nfork %llu\nsignals %llu\ngcy %llu\ngcf %llu\nmaxrun %llu\nilhash %llu\nevhash %llu\nndec %u\nfdpeak %d\nheaplive %llu\nmarked %d\ntasks %d\n", S->rootstatus, S->rootdone, (long long)S->now,
       (unsigned long long)S->bb_total, (unsigned long long)S->nsys, (unsigned long long)S->nswitch, (unsigned long long)S->npreempt, (unsigned long long)S->ncontend, (unsigned long long)S->nspawn, (unsigned long long)S->nfork, (unsigned long long)S->nsig, (unsigned long long)S->ngcy, (unsigned long long)S->ngcf, (unsigned long long)S->maxrun, (unsigned long long)S->ilhash, (unsigned long long)S->evhash, S->ndec, S->openfiles_peak, (unsigned long long)S->heap_live_end, S->marked, S->ntask);
    for (int i = 0; i < F_NKIND; i++) if (S->fired[i] || S->draws[i]) of("fault %s %llu %llu\n", fn[i], (unsigned long long)S->fired[i], (unsigned long long)S->draws[i]);
    for (int i = 0; i < MAXPROC; i++) if (S->procs[i].state != P_FREE) of("proc %d %d %d %d %d\n", S->procs[i].pid, S->procs[i].ppid, S->procs[i].state, S->procs[i].wstatus, S->procs[i].leaked);
    if (S->hang[0]) of("hang %lu\n%s\n", strlen(S->hang), S->hang);
    if (S->anomalies[0]) of("anomalies %lu\n%s\n", strlen(S->anomalies), S->anomalies);
    u32 nc = 0; for (u32 i = 0; i < 1u << 17; i++) { u64 v = ((u64*)S->cov)[i]; if (v) for (u32 k = i * 8; k < i * 8 + 8; k++) if (S->cov[k] && !covall[k]) { covall[k] = 1; if (!nc++) of("newcov"); of(" %x", k); } }
    if (nc) of("\n");
    if (wantdecs) { u32 nd = S->ndec < MAXDEC ? S->ndec : MAXDEC; of("decs %u\n", nd); for (u32 i = 0; i < nd; i++) of("%d %u %lld\n", S->decs[i].kind, S->decs[i].idx, (long long)S->decs[i].val); }
    of("out %u\n", S->outlen); o(S->out, S->outlen); of("\n");
    if (wantlog) { of("log %u\n", S->loglen); o(S->log, S->loglen); of("\n"); }
    if (wantfiles) { of("files\n"); vfs_dump(filespre, dumpcb, NULL); of("endfiles\n"); }
    char h[17]; snprintf(h, sizeof h, "%015zu\n", on);
    size_t g = 0; while (g < 16) { ssize_t w = __real_write(1, h + g, 16 - g); if (w <= 0) return 0; g += w; }
    g = 0; while (g < on) { ssize_t w = __real_write(1, ob + g, on - g); if (w <= 0) return 0; g += w; }
    __real_free(j);
  }
}
