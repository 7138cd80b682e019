// Simulated kernel: file system, descriptors, pipes, sockets, select, stdio on top of them.
#include "sim.h"
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <glob.h>
#include <pwd.h>
#include <grp.h>
#include <netdb.h>
#include <termios.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/uio.h>
#include <sys/select.h>
#include <poll.h>
#include <netinet/in.h>
#include <arpa/inet.h>

#define CH_SEL ((u64)0x5e1ec7ul << 40)
extern int sim_active;
#define ERR(e) do { errno = (e); return -1; } while (0)
static void changed(void *obj) { wake_chan(chan_of(obj)); wake_chan(CH_SEL); }
// the log has every state of every pipe: id, bytes in it, open read ends, open write ends, room
static void pchanged(Pipe *p) { slog("PIPE %d %u %d %d %u", p->id, p->len, p->readers, p->writers, p->cap - p->len); changed(p); }

// ---------------------------------------------------------------- kernel memory
static u64 *kfl(int c) { return &S->kfree[c]; }
static int kcls(u64 n) { int c = 5; while ((1ul << c) < n) c++; return c; }
static void *kalloc(u64 n) {
  int c = kcls(n ? n : 1); u64 *h = kfl(c); void *p;
  if (*h) { p = (void*)*h; *h = *(u64*)p; } else p = shm_alloc(1ul << c);
  memset(p, 0, n); return p;
}
static void kfreeb(void *p, u64 n) { if (!p) return; int c = kcls(n ? n : 1); *(u64*)p = *kfl(c); *kfl(c) = (u64)p; }

// ---------------------------------------------------------------- inodes and paths
static Inode *new_inode(u32 type, u32 mode) {
  Inode *in = kalloc(sizeof *in); in->used = 1; in->type = type; in->mode = mode & 07777; in->uid = in->gid = 1000;
  in->ino = ++S->nextino + 100; in->nlink = type == S_IFDIR ? 2 : 1;
  in->atime = in->mtime = in->ctime = realtime_now();
  return in;
}
static void inode_gc(Inode *in) {
  if (in->nlink <= 0 && in->opens == 0 && in->used) {
    if (in->type == S_IFREG) S->disk_used -= in->size;
    kfreeb(in->data, in->capa); kfreeb(in->ents, in->cents * sizeof(struct Dent)); in->used = 0; kfreeb(in, sizeof *in);
  }
}
static struct Dent *dent_find(Inode *d, const char *n) { for (int i = 0; i < d->nents; i++) if (!strcmp(d->ents[i].name, n)) return &d->ents[i]; return NULL; }
static int dent_add(Inode *d, const char *n, Inode *in) {
  if (strlen(n) >= sizeof d->ents[0].name) return ENAMETOOLONG;
  if (d->nents == d->cents) { int c = d->cents ? d->cents * 2 : 8; struct Dent *e = kalloc(c * sizeof *e); memcpy(e, d->ents, d->nents * sizeof *e);
    kfreeb(d->ents, d->cents * sizeof *e); d->ents = e; d->cents = c; }
  strcpy(d->ents[d->nents].name, n); d->ents[d->nents++].in = in; d->mtime = d->ctime = realtime_now();
  if (in->type == S_IFDIR) { in->parent = d; d->nlink++; }
  return 0;
}
static void dent_del(Inode *d, const char *n) {
  struct Dent *e = dent_find(d, n); if (!e) return;
  if (e->in->type == S_IFDIR) d->nlink--;
  int i = e - d->ents; memmove(e, e + 1, (d->nents - i - 1) * sizeof *e); d->nents--; d->mtime = d->ctime = realtime_now();
}
static int may(Inode *in, int bit) { // bit: 4 read 2 write 1 exec
  if (in->uid == 1000) return (in->mode >> 6) & bit; return in->mode & bit; }
static int noperm; // set while the current directory (held as a path) is resolved
static Inode *walk(Inode *at, const char *path, int follow, Inode **parent, char *last, int *err, int depth) {
  if (depth > 8) { *err = ELOOP; return NULL; }
  Inode *cur = *path == '/' ? S->root : at; if (parent) *parent = cur;
  if (last) strcpy(last, "");
  const char *p = path; if (!*p) { *err = ENOENT; return NULL; }
  while (*p == '/') p++;
  if (!*p) { if (last) strcpy(last, "."); return cur; }
  for (;;) {
    char c[256]; size_t n = strcspn(p, "/"); if (n > 255 || n >= sizeof cur->ents[0].name) { *err = ENAMETOOLONG; return NULL; }
    memcpy(c, p, n); c[n] = 0; p += n; int slash = *p == '/'; while (*p == '/') p++;
    int final = !*p;
    if (cur->type != S_IFDIR) { *err = ENOTDIR; return NULL; }
    if (!noperm && !may(cur, 1)) { *err = EACCES; return NULL; }
    if (final) { if (parent) *parent = cur; if (last) strcpy(last, c); }
    Inode *nx;
    if (!strcmp(c, ".")) nx = cur; else if (!strcmp(c, "..")) nx = cur->parent ? cur->parent : cur;
    else { struct Dent *e = dent_find(cur, c); nx = e ? e->in : NULL; }
    if (!nx) { *err = ENOENT; if (!final && parent) *parent = NULL; return NULL; }
    if (nx->type == S_IFLNK && (!final || follow || slash)) {
      char tgt[256]; size_t tn = nx->size < 255 ? nx->size : 255; memcpy(tgt, nx->data, tn); tgt[tn] = 0;
      nx = walk(cur, tgt, 1, final ? parent : NULL, final ? last : NULL, err, depth + 1); if (!nx) { if (!final && parent) *parent = NULL; return NULL; }
    }
    if (final) { if (slash && nx->type != S_IFDIR) { *err = ENOTDIR; return NULL; } return nx; }
    cur = nx;
  }
}
Inode *vfs_lookup(const char *path, int follow, Inode **parent, char *last, int *err) {
  int e = 0; *err = 0; Inode *cwd = S->root;
  if (path[0] != '/') { noperm = 1; cwd = walk(S->root, PR->cwd[0] ? PR->cwd : "/", 1, NULL, NULL, &e, 0); noperm = 0; if (!cwd) { *err = ENOENT; return NULL; } }
  return walk(cwd, path, follow, parent, last, err, 0);
}
static int grow(Inode *in, u64 n) {
  if (n > in->capa) { u64 c = 64; while (c < n) c *= 2; u8 *d = kalloc(c); memcpy(d, in->data, in->size); kfreeb(in->data, in->capa); in->data = d; in->capa = c; }
  return 0;
}
static void set_size(Inode *in, u64 n) {
  if (n > in->size) { grow(in, n); memset(in->data + in->size, 0, n - in->size); }
  S->disk_used += n; S->disk_used -= in->size; in->size = n;
}
int vfs_put(const char *path, const u8 *data, u64 len, u32 mode) { // creates parents; used by the driver
  char b[512]; snprintf(b, sizeof b, "%s", path); Inode *d = S->root; char *p = b + 1;
  for (;;) {
    char *s = strchr(p, '/'); if (s) *s = 0;
    struct Dent *e = dent_find(d, p);
    if (!s) {
      if (len == ~0ul) { if (!e) dent_add(d, p, new_inode(S_IFDIR, mode)); return 0; }
      Inode *in = e ? e->in : new_inode(S_IFREG, mode); if (!e) dent_add(d, p, in);
      set_size(in, 0); set_size(in, len); memcpy(in->data, data, len); return 0;
    }
    if (!e) { Inode *nd = new_inode(S_IFDIR, 0755); dent_add(d, p, nd); d = nd; } else d = e->in;
    p = s + 1;
  }
}
static void dump0(Inode *d, const char *pre, void (*cb)(const char*, Inode*, void*), void *arg) {
  for (int i = 0; i < d->nents; i++) { char b[600]; snprintf(b, sizeof b, "%s/%s", pre, d->ents[i].name); cb(b, d->ents[i].in, arg); if (d->ents[i].in->type == S_IFDIR) dump0(d->ents[i].in, b, cb, arg); }
}
void vfs_dump(const char *prefix, void (*cb)(const char *path, Inode *in, void *arg), void *arg) {
  int e; Inode *d = walk(S->root, prefix, 1, NULL, NULL, &e, 0); if (d && d->type == S_IFDIR) dump0(d, prefix, cb, arg);
}
void kern_init(void) {
  S->root = new_inode(S_IFDIR, 0755); S->root->parent = S->root;
  vfs_put("/tmp", NULL, ~0ul, 01777); vfs_put("/work", NULL, ~0ul, 0755); vfs_put("/sim", NULL, ~0ul, 0555); vfs_put("/sim/fds", (u8*)"", 0, 0444); vfs_put("/sim/now", (u8*)"", 0, 0444); vfs_put("/sim/seq", (u8*)"", 0, 0444); vfs_put("/sim/blocked", (u8*)"", 0, 0444); vfs_put("/sim/heap", (u8*)"", 0, 0444); vfs_put("/dev", NULL, ~0ul, 0755);
}

// ---------------------------------------------------------------- descriptors
static Ofd *new_ofd(int type, int flags, int *idx) {
  for (int i = 0; i < MAXOFD; i++) if (!S->ofds[i].refs) { Ofd *o = &S->ofds[i]; memset(o, 0, sizeof *o); o->type = type; o->flags = flags; o->refs = 1; *idx = i; return o; }
  anomaly("simulator out of open files"); finish(OUT_SIMERR); return NULL;
}
static int free_fd(int from) { Proc *p = PR; for (int i = from; i < p->nofile; i++) if (!p->fds[i]) return i; return -1; }
static int install(int oi, int cloexec) {
  int fd = free_fd(0); if (fd < 0) return -1;
  PR->fds[fd] = oi + 1; PR->cloexec[fd] = cloexec; int n = count_fds(PR); if (n > S->openfiles_peak) S->openfiles_peak = n; return fd;
}
static Ofd *ofd(int fd) { if (fd < 0 || fd >= MAXFD || !PR->fds[fd]) { errno = EBADF; return NULL; } return &S->ofds[PR->fds[fd] - 1]; }
int count_fds(Proc *p) { int n = 0; for (int i = 0; i < MAXFD; i++) if (p->fds[i]) n++; return n; }
static void sock_close(Sock *k);
static void ofd_put(Ofd *o) {
  if (--o->refs) return;
  switch (o->type) {
    case O_FILE: case O_DIRFD: if (o->in) { o->in->opens--; inode_gc(o->in); } break;
    case O_PIPER: o->pipe->readers--; pchanged(o->pipe); break;
    case O_PIPEW: o->pipe->writers--; pchanged(o->pipe); break;
    case O_SOCK: sock_close(o->sock); break;
  }
  if ((o->type == O_PIPER || o->type == O_PIPEW) && !o->pipe->readers && !o->pipe->writers) { kfreeb(o->pipe->buf, o->pipe->cap); kfreeb(o->pipe, sizeof(Pipe)); }
  o->type = O_NONE;
}
void k_fork_fds(Proc *p) { for (int i = 0; i < MAXFD; i++) if (p->fds[i]) S->ofds[p->fds[i] - 1].refs++; }
void k_close_all(Proc *p) { for (int i = 0; i < MAXFD; i++) if (p->fds[i]) { Ofd *o = &S->ofds[p->fds[i] - 1]; p->fds[i] = 0; ofd_put(o); } }

static int ends(const char *s, const char *t) { size_t a = strlen(s), b = strlen(t); return a >= b && !strcmp(s + a - b, t); }
static int do_open(const char *path, int flags, u32 mode, int forfile) {
  (void)forfile;
  yield_point("open");
  if (!strncmp(path, "/sim/", 5)) { // control files, contents generated at open
    char b[200]; int n = 0;
    if (!strcmp(path, "/sim/fds")) n = snprintf(b, sizeof b, "%d", count_fds(PR));
    else if (!strcmp(path, "/sim/now")) n = snprintf(b, sizeof b, "%lld", (long long)(S->now / 1000));
    else if (!strcmp(path, "/sim/seq")) n = snprintf(b, sizeof b, "%llu", (unsigned long long)++S->seq);
    else if (!strcmp(path, "/sim/heap")) { extern u64 heap_live(void); n = snprintf(b, sizeof b, "%llu", (unsigned long long)heap_live()); }
    else if (!strcmp(path, "/sim/blocked")) { // number of this process's threads that sleep in the kernel
      int k = 0; for (int i = 0; i < S->ntask; i++) if (S->tasks[i].proc == S->curproc && S->tasks[i].state == T_BLOCK) k++; n = snprintf(b, sizeof b, "%d", k); }
    else ERR(ENOENT);
    int oi; Inode *in = new_inode(S_IFREG, 0444); in->nlink = 0; set_size(in, n); memcpy(in->data, b, n); in->opens = 1;
    Ofd *o = new_ofd(O_FILE, O_RDONLY, &oi); o->in = in; int fd = install(oi, 0); if (fd < 0) { ofd_put(o); ERR(EMFILE); } return fd;
  }
  if (S->mainread) S->marked = 1;
  if (fault(F_EMFILE)) ERR(EMFILE);
  if (fault(F_OPEN_EACCES)) ERR(EACCES);
  if (free_fd(0) < 0) { slog("FAULT emfile"); ERR(EMFILE); }
  Inode *par = NULL; char last[256]; int err;
  Inode *in = vfs_lookup(path, !(flags & O_NOFOLLOW), &par, last, &err);
  int acc = flags & O_ACCMODE;
  if (!in) {
    if (err != ENOENT || !(flags & O_CREAT) || !par) ERR(err ? err : ENOENT);
    if (ends(path, "/")) ERR(EISDIR);
    if (!may(par, 2)) ERR(EACCES);
    in = new_inode(S_IFREG, mode & ~PR->umask); err = dent_add(par, last, in); if (err) { in->nlink = 0; inode_gc(in); ERR(err); }
  } else {
    if ((flags & O_CREAT) && (flags & O_EXCL)) ERR(EEXIST);
    if (in->type == S_IFDIR && (acc != O_RDONLY || (flags & O_CREAT))) ERR(EISDIR);
    if (in->type == S_IFSOCK) ERR(ENXIO);
    if (in->type == S_IFLNK) ERR(ELOOP);
    if ((flags & O_DIRECTORY) && in->type != S_IFDIR) ERR(ENOTDIR);
    if ((acc == O_RDONLY || acc == O_RDWR) && !may(in, 4)) ERR(EACCES);
    if ((acc == O_WRONLY || acc == O_RDWR) && !may(in, 2)) ERR(EACCES);
    if ((flags & O_TRUNC) && in->type == S_IFREG) { set_size(in, 0); in->mtime = in->ctime = realtime_now(); }
  }
  int oi; Ofd *o = new_ofd(O_FILE, flags & ~(O_CREAT|O_EXCL|O_TRUNC|O_CLOEXEC), &oi); o->in = in; in->opens++;
  snprintf(o->path, sizeof o->path, "%s", path);
  int fd = install(oi, !!(flags & O_CLOEXEC)); slog("open %.100s %x = %d", path, flags, fd);
  return fd;
}
int k_open(const char *path, int flags, u32 mode) { return do_open(path, flags, mode, 0); }

static ssize_t sock_read(Ofd *o, void *buf, size_t n);
static ssize_t sock_write(Ofd *o, const void *buf, size_t n);
static i64 gen_part(void *a) { size_t n = *(size_t*)a; u32 m = rndn(4); if (m == 0) return 1; if (m == 1) return n - 1; return 1 + rndn(n - 1); }
static size_t shorter(size_t n) { if (n <= 1) return n; size_t v = (size_t)decide(D_MISC, (i64)n, gen_part, &n); return v >= 1 && v <= n ? v : n; }

// faults only once the main script was read: its end was seen, it was closed, or something else is opened
static int is_main(Ofd *o) { return ends(o->path, "main.lox") || strstr(o->path, "clox-stdin"); }
static ssize_t file_io(Ofd *o, void *buf, size_t n, i64 *off, int wr) {
  Inode *in = o->in;
  if (in->type == S_IFDIR) ERR(EISDIR);
  if (!wr) {
    if (o->path[0] && fault(F_EIO_READ)) ERR(EIO);
    if ((u64)*off >= in->size) { if (is_main(o)) S->marked = 1; return 0; }
    if (n > in->size - *off) n = in->size - *off;
    if (n > 1 && o->path[0] && fault(F_SHORT_READ)) n = shorter(n);
    memcpy(buf, in->data + *off, n); *off += n; in->atime = realtime_now();
    if (o->path[0]) slog("FREAD %zd", (ssize_t)n);
    if (is_main(o)) S->mainread = 1;
    return n;
  }
  if (fault(F_EIO_WRITE)) ERR(EIO);
  if (fault(F_ENOSPC)) { n = n > 1 ? shorter(n) : n; if (n == 0 || rnd_bit_ok()) ERR(ENOSPC); S->enospc_next = 1; }
  else if (S->enospc_next) { S->enospc_next = 0; slog("FAULT enospc"); ERR(ENOSPC); }
  else if (n > 1 && fault(F_SHORT_WRITE)) n = shorter(n);
  u64 pos = o->flags & O_APPEND ? in->size : (u64)*off, end = pos + n;
  if (S->cfg.disk_cap && end > in->size && S->disk_used + (end - in->size) > S->cfg.disk_cap) {
    u64 room = S->cfg.disk_cap > S->disk_used ? S->cfg.disk_cap - S->disk_used : 0;
    u64 can = in->size + room; S->fired[F_ENOSPC]++; slog("FAULT enospc");
    if (can <= pos) ERR(ENOSPC);
    n = can - pos; end = can;
  }
  if (n == 0) return 0;
  u64 was = in->size;
  if (end > in->size) set_size(in, end);
  if (pos > was) memset(in->data + was, '~', pos - was); // holes read as text: NULs are outside of what is claimed
  memcpy(in->data + pos, buf, n); *off = pos + n; in->mtime = in->ctime = realtime_now(); slog("FWRITE %zd", (ssize_t)n);
  return n;
}
static i64 gen_half(void *a) { (void)a; return rndn(2); }
int rnd_bit_ok(void) { return (int)decide(D_MISC, 0, gen_half, NULL); }

ssize_t k_read(int fd, void *buf, size_t n) {
  Ofd *o = ofd(fd); if (!o) return -1;
  if ((o->flags & O_ACCMODE) == O_WRONLY) ERR(EBADF);
  switch (o->type) {
    case O_FILE: return file_io(o, buf, n, &o->off, 0);
    case O_STDIN: { u32 k = S->stdin_len - S->stdin_pos; if (n < k) k = n; if (k > 1 && fault(F_SHORT_READ)) k = shorter(k); memcpy(buf, S->stdin_data + S->stdin_pos, k); S->stdin_pos += k; return k; }
    case O_PIPER: {
      if (n == 0) return 0;
      if (fault(F_EIO_READ)) ERR(EIO);
      o->refs++; ssize_t r = -1;
      for (;;) {
        Pipe *p = o->pipe;
        if (p->len) {
          size_t k = p->len < n ? p->len : n;
          if (k > 1 && fault(F_SHORT_READ)) k = shorter(k);
          for (size_t i = 0; i < k; i++) { ((u8*)buf)[i] = p->buf[p->rpos]; p->rpos = (p->rpos + 1) % p->cap; }
          p->len -= k; p->total_r += k; pchanged(p); r = k; break;
        }
        if (!p->writers) { r = 0; break; }
        if (o->flags & O_NONBLOCK) { errno = EAGAIN; break; }
        if (block_on("read pipe", chan_of(p), NEVER, 0, 1) == W_SIGNAL) { errno = EINTR; S->fired[F_EINTR_READ]++; break; }
      }
      int e = errno; ofd_put(o); errno = e; return r; }
    case O_SOCK: { o->refs++; ssize_t r = sock_read(o, buf, n); int e = errno; ofd_put(o); errno = e; return r; }
    case O_SINK: ERR(EBADF);
    default: ERR(EBADF);
  }
}
ssize_t k_write(int fd, const void *buf, size_t n) {
  Ofd *o = ofd(fd); if (!o) return -1;
  if ((o->flags & O_ACCMODE) == O_RDONLY) ERR(EBADF);
  switch (o->type) {
    case O_FILE: return file_io(o, (void*)buf, n, &o->off, 1);
    case O_SINK:
      // the terminal or pipe behind stdout is full for a while
      if (n && o->sinkno == 1 && fault(F_SINK_BLOCK) && block_on("write stdout", 0x51c0de, S->now + 1000 * (i64)shorter(3000), 0, 1) == W_SIGNAL) { S->fired[F_EINTR_WRITE]++; ERR(EINTR); }
      if (n > 1 && o->sinkno == 1 && fault(F_SHORT_WRITE)) n = shorter(n); out_write(o->sinkno, buf, n); return n;
    case O_PIPEW: {
      if (n == 0) return 0;
      if (fault(F_EIO_WRITE)) ERR(EIO);
      o->refs++; size_t done = 0; ssize_t r = -1; size_t lim = n;
      if (n > 4096 && fault(F_SHORT_WRITE)) lim = shorter(n);
      for (;;) {
        Pipe *p = o->pipe;
        if (!p->readers) { if (done) { r = done; break; } slog("EPIPE fd %d", fd); post_signal(S->curproc, SIGPIPE); run_signals(); errno = EPIPE; break; }
        u32 room = p->cap - p->len;
        if (room && (n > 4096 || room >= n)) {
          size_t k = lim - done < room ? lim - done : room; u32 w = (p->rpos + p->len) % p->cap;
          for (size_t i = 0; i < k; i++) { p->buf[w] = ((u8*)buf)[done + i]; w = (w + 1) % p->cap; }
          p->len += k; p->total_w += k; done += k; pchanged(p);
          if (done == lim) { r = done; break; }
        }
        if (o->flags & O_NONBLOCK) { if (done) r = done; else errno = EAGAIN; break; }
        int w = block_on("write pipe", chan_of(p), NEVER, 0, done ? 2 : 1);
        if (w == W_SIGNAL) { if (done) { r = done; S->fired[F_SHORT_WRITE]++; } else { errno = EINTR; S->fired[F_EINTR_WRITE]++; } break; }
      }
      int e = errno; ofd_put(o); errno = e; return r; }
    case O_SOCK: { o->refs++; ssize_t r = sock_write(o, buf, n); int e = errno; ofd_put(o); errno = e; return r; }
    default: ERR(EBADF);
  }
}
i64 k_lseek(int fd, i64 off, int wh) {
  Ofd *o = ofd(fd); if (!o) return -1;
  if (o->type != O_FILE) ERR(ESPIPE);
  if (fault(F_SEEK_FAIL)) ERR(EIO);
  i64 b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? o->off : wh == SEEK_END ? (i64)o->in->size : -1;
  if (b < 0 || b + off < 0) ERR(EINVAL);
  return o->off = b + off;
}
int k_close(int fd) {
  Ofd *o = ofd(fd); if (!o) return -1;
  PR->fds[fd] = 0; slog("close %d", fd);
  ofd_put(o);
  if (fault(F_CLOSE_EIO)) ERR(EIO);
  return 0;
}
int __wrap_open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); u32 m = va_arg(ap, u32); va_end(ap); return k_open(p, fl, m); }
int __wrap_open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); u32 m = va_arg(ap, u32); va_end(ap); return k_open(p, fl, m); }
int __wrap_creat(const char *p, mode_t m) { return k_open(p, O_CREAT|O_WRONLY|O_TRUNC, m); }
ssize_t __wrap_read(int fd, void *b, size_t n) { yield_point("read"); return k_read(fd, b, n); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { yield_point("write"); return k_write(fd, b, n); }
ssize_t __wrap_pread(int fd, void *b, size_t n, off_t off) { yield_point("pread"); Ofd *o = ofd(fd); if (!o) return -1; if (o->type != O_FILE) ERR(ESPIPE); i64 x = off; return file_io(o, b, n, &x, 0); }
ssize_t __wrap_pwrite(int fd, const void *b, size_t n, off_t off) { yield_point("pwrite"); Ofd *o = ofd(fd); if (!o) return -1; if (o->type != O_FILE) ERR(ESPIPE); i64 x = off; return file_io(o, (void*)b, n, &x, 1); }
ssize_t __wrap_readv(int fd, const struct iovec *v, int c) { ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t r = __wrap_read(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
ssize_t __wrap_writev(int fd, const struct iovec *v, int c) { ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t r = __wrap_write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
off_t __wrap_lseek(int fd, off_t off, int wh) { return k_lseek(fd, off, wh); }
int __wrap_close(int fd) { yield_point("close"); return k_close(fd); }
static int dupto(int fd, int from, int exact) {
  Ofd *o = ofd(fd); if (!o) return -1;
  int nf = exact ? from : free_fd(from);
  if (nf < 0 || nf >= PR->nofile) ERR(exact ? EBADF : EMFILE);
  if (nf == fd) return fd;
  if (PR->fds[nf]) k_close(nf);
  PR->fds[nf] = PR->fds[fd]; PR->cloexec[nf] = 0; o->refs++; return nf;
}
int __wrap_dup(int fd) { return dupto(fd, 0, 0); }
int __wrap_dup2(int fd, int nf) { return dupto(fd, nf, 1); }
int __wrap_pipe2(int *fds, int fl) {
  yield_point("pipe");
  if (fault(F_PIPE_FAIL) || fault(F_EMFILE)) ERR(EMFILE);
  if (count_fds(PR) + 2 > PR->nofile) ERR(EMFILE);
  Pipe *p = kalloc(sizeof *p); p->cap = S->cfg.pipe_cap > 0 ? S->cfg.pipe_cap : 65536; p->buf = kalloc(p->cap); p->readers = p->writers = 1; p->id = ++S->npipe;
  int a, b; Ofd *o = new_ofd(O_PIPER, O_RDONLY | (fl & O_NONBLOCK), &a); o->pipe = p; fds[0] = install(a, !!(fl & O_CLOEXEC));
  o = new_ofd(O_PIPEW, O_WRONLY | (fl & O_NONBLOCK), &b); o->pipe = p; fds[1] = install(b, !!(fl & O_CLOEXEC));
  slog("pipe = %d %d", fds[0], fds[1]); slog("PIPE %d 0 1 1 %u", p->id, p->cap); return 0;
}
int __wrap_pipe(int *fds) { return __wrap_pipe2(fds, 0); }
int __wrap_fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
  yield_point("fcntl"); Ofd *o = ofd(fd); if (!o) return -1;
  switch (cmd) {
    case F_GETFL: return o->flags;
    case F_SETFL: { int m = O_APPEND|O_NONBLOCK; o->flags = (o->flags & ~m) | ((int)arg & m); return 0; }
    case F_GETFD: return PR->cloexec[fd] ? FD_CLOEXEC : 0;
    case F_SETFD: PR->cloexec[fd] = arg & FD_CLOEXEC; return 0;
    case F_DUPFD: return dupto(fd, (int)arg, 0);
    case F_DUPFD_CLOEXEC: { int r = dupto(fd, (int)arg, 0); if (r >= 0) PR->cloexec[r] = 1; return r; }
  }
  ERR(EINVAL);
}
int __wrap_fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return __wrap_fcntl(fd, cmd, arg); }

// ---------------------------------------------------------------- stat and directory operations
static void fill(Inode *in, struct stat *st) {
  memset(st, 0, sizeof *st); st->st_dev = 1; st->st_ino = in->ino; st->st_mode = in->type | in->mode; st->st_nlink = in->nlink; st->st_uid = in->uid; st->st_gid = in->gid;
  st->st_size = in->type == S_IFDIR ? 4096 : (i64)in->size; st->st_blksize = 4096; st->st_blocks = (st->st_size + 511) / 512;
  st->st_atim.tv_sec = in->atime / 1000000000; st->st_atim.tv_nsec = in->atime % 1000000000; st->st_mtim.tv_sec = in->mtime / 1000000000; st->st_mtim.tv_nsec = in->mtime % 1000000000;
  st->st_ctim.tv_sec = in->ctime / 1000000000; st->st_ctim.tv_nsec = in->ctime % 1000000000;
}
static int statp(const char *p, struct stat *st, int follow) {
  yield_point("stat"); if (strncmp(p, "/sim/", 5) && fault(F_STAT_EIO)) ERR(EIO);
  slog("STAT");
  int e; Inode *in = vfs_lookup(p, follow, NULL, NULL, &e); if (!in) ERR(e); fill(in, st); return 0;
}
int __wrap_stat(const char *p, struct stat *st) { return statp(p, st, 1); }
int __wrap_lstat(const char *p, struct stat *st) { return statp(p, st, 0); }
int __wrap_fstat(int fd, struct stat *st) {
  yield_point("fstat"); Ofd *o = ofd(fd); if (!o) return -1;
  if (o->in) { fill(o->in, st); return 0; }
  memset(st, 0, sizeof *st); st->st_mode = (o->type == O_SOCK ? S_IFSOCK : o->type == O_SINK ? S_IFCHR : S_IFIFO) | 0600; return 0;
}
int __wrap_access(const char *p, int m) { yield_point("access"); int e; Inode *in = vfs_lookup(p, 1, NULL, NULL, &e); if (!in) ERR(e); if (m && !(may(in, m))) ERR(EACCES); return 0; }
#define LOOK(follow) int e; Inode *par = NULL; char last[256]; Inode *in = vfs_lookup(p, follow, &par, last, &e); if (!in) ERR(e)
int __wrap_unlink(const char *p) {
  yield_point("unlink"); if (fault(F_UNLINK_FAIL)) ERR(EACCES);
  LOOK(0); if (in->type == S_IFDIR) ERR(EISDIR); if (!may(par, 2)) ERR(EACCES);
  dent_del(par, last); in->nlink--; in->ctime = realtime_now(); slog("unlink %.100s", p); inode_gc(in); return 0;
}
int __wrap_rmdir(const char *p) {
  yield_point("rmdir"); if (fault(F_UNLINK_FAIL)) ERR(EACCES);
  LOOK(0); if (in->type != S_IFDIR) ERR(ENOTDIR); if (!strcmp(last, ".")) ERR(EINVAL); if (in->nents) ERR(ENOTEMPTY); if (!may(par, 2)) ERR(EACCES);
  dent_del(par, last); in->nlink = 0; slog("rmdir %.100s", p); inode_gc(in); return 0;
}
int __wrap_remove(const char *p) { int e; Inode *in = vfs_lookup(p, 0, NULL, NULL, &e); if (in && in->type == S_IFDIR) return __wrap_rmdir(p); return __wrap_unlink(p); }
int __wrap_mkdir(const char *p, mode_t m) {
  yield_point("mkdir"); if (fault(F_MKDIR_FAIL)) ERR(ENOSPC);
  int e; Inode *par = NULL; char last[256]; Inode *in = vfs_lookup(p, 0, &par, last, &e); if (in) ERR(EEXIST); if (e != ENOENT || !par) ERR(e);
  if (!may(par, 2)) ERR(EACCES);
  Inode *d = new_inode(S_IFDIR, m & ~PR->umask & 01777); e = dent_add(par, last, d); if (e) ERR(e); slog("mkdir %.100s", p); return 0;
}
int __wrap_rename(const char *p, const char *q) {
  yield_point("rename"); if (fault(F_RENAME_FAIL)) ERR(EACCES);
  LOOK(0); Inode *qp = NULL; char ql[256]; int e2; Inode *qi = vfs_lookup(q, 0, &qp, ql, &e2);
  if (!qi && (e2 != ENOENT || !qp)) ERR(e2);
  if (qi == in) return 0;
  for (Inode *x = qp; in->type == S_IFDIR; x = x->parent) { if (x == in) ERR(EINVAL); if (x == S->root) break; }
  if (!may(par, 2) || !may(qp, 2)) ERR(EACCES);
  if (qi) {
    if (qi->type == S_IFDIR && in->type != S_IFDIR) ERR(EISDIR);
    if (qi->type != S_IFDIR && in->type == S_IFDIR) ERR(ENOTDIR);
    if (qi->type == S_IFDIR && qi->nents) ERR(ENOTEMPTY);
    dent_del(qp, ql); qi->nlink = qi->type == S_IFDIR ? 0 : qi->nlink - 1; inode_gc(qi);
  }
  dent_del(par, last); dent_add(qp, ql, in); in->ctime = realtime_now(); slog("rename %.80s %.80s", p, q); return 0;
}
int __wrap_chmod(const char *p, mode_t m) { yield_point("chmod"); LOOK(1); (void)par; if (in->uid != 1000) ERR(EPERM); in->mode = m & 07777; in->ctime = realtime_now(); return 0; }
static int chown0(const char *p, uid_t u, gid_t g, int f) { yield_point("chown"); LOOK(f); (void)par; if (in->uid != 1000 || (u != (uid_t)-1 && u != 1000)) ERR(EPERM); if (g != (gid_t)-1) { if (g != 1000 && g != 1001) ERR(EPERM); in->gid = g; } in->ctime = realtime_now(); return 0; }
int __wrap_chown(const char *p, uid_t u, gid_t g) { return chown0(p, u, g, 1); }
int __wrap_lchown(const char *p, uid_t u, gid_t g) { return chown0(p, u, g, 0); }
int __wrap_symlink(const char *t, const char *p) {
  yield_point("symlink"); int e; Inode *par = NULL; char last[256]; Inode *in = vfs_lookup(p, 0, &par, last, &e); if (in) ERR(EEXIST); if (e != ENOENT || !par) ERR(e);
  if (!*t) ERR(ENOENT);
  if (!may(par, 2)) ERR(EACCES);
  Inode *l = new_inode(S_IFLNK, 0777); grow(l, strlen(t)); memcpy(l->data, t, strlen(t)); l->size = strlen(t); e = dent_add(par, last, l); if (e) ERR(e); slog("symlink %.80s %.80s", t, p); return 0;
}
ssize_t __wrap_readlink(const char *p, char *b, size_t n) { yield_point("readlink"); LOOK(0); (void)par; if (in->type != S_IFLNK) ERR(EINVAL); if (n > in->size) n = in->size; memcpy(b, in->data, n); return n; }
mode_t __wrap_umask(mode_t m) { u32 o = PR->umask; PR->umask = m & 0777; return o; }
int __wrap_ftruncate(int fd, off_t n) { yield_point("ftruncate"); Ofd *o = ofd(fd); if (!o) return -1; if (!o->in || (o->flags & O_ACCMODE) == O_RDONLY) ERR(EINVAL); set_size(o->in, n); return 0; }
int __wrap_fsync(int fd) { yield_point("fsync"); return ofd(fd) ? 0 : -1; }
static void fullpath(Inode *d, char *b, size_t n) {
  char t[1024]; strcpy(t, "");
  while (d != S->root) { Inode *p = d->parent; const char *nm = "?"; for (int i = 0; i < p->nents; i++) if (p->ents[i].in == d) nm = p->ents[i].name; char u[1024]; snprintf(u, sizeof u, "/%s%s", nm, t); strcpy(t, u); d = p; }
  snprintf(b, n, "%s", *t ? t : "/");
}
int __wrap_chdir(const char *p) { yield_point("chdir"); if (fault(F_CHDIR_FAIL)) ERR(EACCES); LOOK(1); (void)par; if (in->type != S_IFDIR) ERR(ENOTDIR); if (!may(in, 1)) ERR(EACCES); fullpath(in, PR->cwd, sizeof PR->cwd); slog("chdir %s", PR->cwd); return 0; }
char *__wrap_getcwd(char *b, size_t n) {
  yield_point("getcwd"); if (fault(F_CWD_FAIL)) { errno = EACCES; return NULL; }
  int e; noperm = 1; Inode *ok = walk(S->root, PR->cwd, 1, NULL, NULL, &e, 0); noperm = 0; if (!ok) { errno = ENOENT; return NULL; }
  size_t l = strlen(PR->cwd) + 1; if (n && l > n) { errno = ERANGE; return NULL; } if (!b) { extern void *__wrap_malloc(size_t); b = __wrap_malloc(n ? n : l); } memcpy(b, PR->cwd, l); return b; }
int __wrap_mkstemp(char *t) {
  size_t l = strlen(t); if (l < 6 || strcmp(t + l - 6, "XXXXXX")) ERR(EINVAL);
  for (int k = 0; k < 100; k++) { for (int i = 0; i < 6; i++) t[l - 6 + i] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[jitn(62)];
    int fd = k_open(t, O_RDWR|O_CREAT|O_EXCL, 0600); if (fd >= 0 || errno != EEXIST) return fd; }
  ERR(EEXIST);
}
int __wrap_isatty(int fd) { Ofd *o = ofd(fd); if (!o) return 0; if (o->type == O_SINK && S->cfg.tty) return 1; errno = ENOTTY; return 0; }
int __wrap_ioctl(int fd, unsigned long r, ...) { (void)r; if (!ofd(fd)) return -1; ERR(ENOTTY); }
int __wrap_tcgetattr(int fd, struct termios *t) { (void)t; if (!ofd(fd)) return -1; ERR(ENOTTY); }
int __wrap_tcsetattr(int fd, int a, const struct termios *t) { (void)t; (void)a; if (!ofd(fd)) return -1; ERR(ENOTTY); }

typedef struct SDir { int fd, n, pos; char path[256]; struct dirent *ents; } SDir;
void *__real_malloc(size_t); void __real_free(void*);
static void snap(SDir *d) {
  Ofd *o = ofd(d->fd); if (d->ents) __real_free(d->ents);
  d->ents = NULL; d->n = d->pos = 0; if (!o || !o->in) return;
  Inode *in = o->in; d->ents = __real_malloc((in->nents + 2) * sizeof(struct dirent)); memset(d->ents, 0, (in->nents + 2) * sizeof(struct dirent));
  for (int i = -2; i < in->nents; i++) { struct dirent *e = &d->ents[d->n++]; const char *nm = i == -2 ? "." : i == -1 ? ".." : in->ents[i].name; strcpy(e->d_name, nm); e->d_ino = i < 0 ? 1 : in->ents[i].in->ino; e->d_type = i < 0 ? DT_DIR : IFTODT(in->ents[i].in->type); }
  for (int i = d->n - 1; i > 0; i--) { u64 h = (S->cfg.seed + i) * 0x9e3779b97f4a7c15ul; int j = (h >> 33) % (i + 1); struct dirent t = d->ents[i]; d->ents[i] = d->ents[j]; d->ents[j] = t; }
}
static SDir *opendir0(const char *p, int quiet) {
  if (!quiet) { yield_point("opendir"); if (fault(F_OPENDIR_FAIL)) { errno = EMFILE; return NULL; } }
  int e; Inode *in = vfs_lookup(p, 1, NULL, NULL, &e); if (!in) { errno = e; return NULL; }
  if (in->type != S_IFDIR) { errno = ENOTDIR; return NULL; }
  if (!may(in, 4)) { errno = EACCES; return NULL; }
  int oi; Ofd *o = new_ofd(O_DIRFD, O_RDONLY, &oi); o->in = in; in->opens++;
  int fd = install(oi, 1); if (fd < 0) { ofd_put(o); slog("FAULT emfile"); errno = EMFILE; return NULL; }
  SDir *d = __real_malloc(sizeof *d); memset(d, 0, sizeof *d); d->fd = fd; snap(d); slog("opendir %.100s", p); return d;
}
DIR *__wrap_opendir(const char *p) { return (DIR*)opendir0(p, 0); }
struct dirent *__wrap_readdir(DIR *D) {
  SDir *d = (SDir*)D; yield_point("readdir"); if (d->fd < 0) { anomaly("readdir on a closed directory stream"); errno = EBADF; return NULL; }
  if (fault(F_EIO_READ)) { errno = EIO; return NULL; }
  if (d->pos >= d->n) return NULL; return &d->ents[d->pos++]; }
void __wrap_rewinddir(DIR *D) { SDir *d = (SDir*)D; if (d->fd < 0) { anomaly("rewinddir on a closed directory stream"); return; } snap(d); }
int __wrap_closedir(DIR *D) { SDir *d = (SDir*)D; yield_point("closedir"); if (d->fd < 0) { anomaly("closedir on a closed directory stream"); ERR(EBADF); } k_close(d->fd); d->fd = -1; if (d->ents) __real_free(d->ents); d->ents = NULL; return 0; }
static void *g_open(const char *p) { if (fault(F_OPENDIR_FAIL)) { errno = EMFILE; return NULL; } return opendir0(p, 1); }
static struct dirent *g_read(void *D) { SDir *d = D; return d->pos < d->n ? &d->ents[d->pos++] : NULL; }
static void g_close(void *D) { SDir *d = D; k_close(d->fd); if (d->ents) __real_free(d->ents); __real_free(d); }
static int g_lstat(const char *p, struct stat *st) { int e; Inode *in = vfs_lookup(p, 0, NULL, NULL, &e); if (!in) ERR(e); fill(in, st); return 0; }
static int g_stat(const char *p, struct stat *st) { int e; Inode *in = vfs_lookup(p, 1, NULL, NULL, &e); if (!in) ERR(e); fill(in, st); return 0; }
int __wrap_glob(const char *pat, int fl, int (*ef)(const char*, int), glob_t *g) {
  yield_point("glob");
  g->gl_opendir = g_open; g->gl_readdir = (void*)g_read; g->gl_closedir = g_close; g->gl_lstat = (void*)g_lstat; g->gl_stat = (void*)g_stat;
  extern int __real_glob(const char *, int, int (*)(const char*, int), glob_t *);
  return __real_glob(pat, fl | GLOB_ALTDIRFUNC, ef, g);
}
static struct passwd pws[2]; static struct group grs[2];
static struct passwd *pw(int i) { static char *n[] = { "root", "sim" }; pws[i].pw_name = n[i]; pws[i].pw_uid = i ? 1000 : 0; pws[i].pw_gid = i ? 1000 : 0; pws[i].pw_dir = "/work"; pws[i].pw_shell = "/bin/sh"; pws[i].pw_gecos = ""; pws[i].pw_passwd = "x"; return &pws[i]; }
static struct group *gr(int i) { static char *n[] = { "sim", "staff" }; grs[i].gr_name = n[i]; grs[i].gr_gid = 1000 + i; grs[i].gr_passwd = "x"; return &grs[i]; }
struct passwd *__wrap_getpwnam(const char *n) { return !strcmp(n, "root") ? pw(0) : !strcmp(n, "sim") ? pw(1) : (errno = 0, NULL); }
struct passwd *__wrap_getpwuid(uid_t u) { return u == 0 ? pw(0) : u == 1000 ? pw(1) : (errno = 0, NULL); }
struct group *__wrap_getgrnam(const char *n) { return !strcmp(n, "sim") ? gr(0) : !strcmp(n, "staff") ? gr(1) : (errno = 0, NULL); }
struct group *__wrap_getgrgid(gid_t g) { return g == 1000 ? gr(0) : g == 1001 ? gr(1) : (errno = 0, NULL); }

// ---------------------------------------------------------------- sockets
static Sock *new_sock(int domain, int type) { Sock *k = kalloc(sizeof *k); k->domain = domain; k->type = type; return k; }
static int sock_fd(Sock *k) { int oi; Ofd *o = new_ofd(O_SOCK, O_RDWR, &oi); o->sock = k; int fd = install(oi, 0); if (fd < 0) { o->sock = k; ofd_put(o); } return fd; }
static void sock_close(Sock *k) {
  k->closed = 1;
  if (k->listening) { for (int i = 0; i < S->nlisten; i++) if (S->listeners[i] == k) { S->listeners[i] = S->listeners[--S->nlisten]; break; }
    for (int i = 0; i < k->nback; i++) { Sock *b = k->backlog[i]; if (b->peer) { b->peer->reset = 1; b->peer->peer = NULL; changed(b->peer); } } }
  if (k->peer) { Sock *p = k->peer; p->peer_closed = 1; p->eof_at = p->last_at > S->now ? p->last_at : S->now; p->peer = NULL; k->peer = NULL; changed(p); }
  changed(k);
}
int __wrap_socket(int d, int t, int pr) {
  (void)pr; yield_point("socket"); if (fault(F_SOCKET_FAIL)) ERR(EMFILE);
  if ((d != AF_INET && d != AF_UNIX) || (t & 0xff) != SOCK_STREAM) ERR(EAFNOSUPPORT);
  int fd = sock_fd(new_sock(d, t)); if (fd < 0) ERR(EMFILE); slog("socket %d = %d", d, fd); return fd;
}
static int addr_of(Sock *k, const struct sockaddr *sa, socklen_t l, u32 *ip, int *port, char *path) {
  if (sa->sa_family != k->domain) return EAFNOSUPPORT;
  if (k->domain == AF_INET) { const struct sockaddr_in *i = (const void*)sa; *ip = i->sin_addr.s_addr; *port = ntohs(i->sin_port); path[0] = 0; return 0; }
  const struct sockaddr_un *u = (const void*)sa; size_t n = l - offsetof(struct sockaddr_un, sun_path); if (n > 108) n = 108; memset(path, 0, 112); strncpy(path, u->sun_path, n); *ip = 0; *port = 0;
  return path[0] ? 0 : EINVAL;
}
static int same_addr(Sock *t, u32 ip, int port) { return t->domain == AF_INET && t->port == port && (t->addr == ip || t->addr == htonl(INADDR_ANY) || ip == htonl(INADDR_ANY)); }
int __wrap_bind(int fd, const struct sockaddr *sa, socklen_t l) {
  yield_point("bind"); Ofd *o = ofd(fd); if (!o) return -1; if (o->type != O_SOCK) ERR(ENOTSOCK); Sock *k = o->sock; if (k->bound) ERR(EINVAL);
  u32 ip; int port; char path[112]; int e = addr_of(k, sa, l, &ip, &port, path); if (e) ERR(e);
  if (k->domain == AF_INET) {
    if (ip != htonl(INADDR_ANY) && (ntohl(ip) >> 24) != 127) ERR(EADDRNOTAVAIL);
    if (port && port < 1024) ERR(EACCES);
    for (int i = 0; i < S->nlisten; i++) if (same_addr(S->listeners[i], ip, port)) ERR(EADDRINUSE);
    if (!port) port = 40000 + S->ephem++;
    k->addr = ip; k->port = port;
  } else {
    Inode *par = NULL; char last[256]; int er; Inode *in = vfs_lookup(path, 0, &par, last, &er); if (in) ERR(EADDRINUSE); if (!par) ERR(ENOENT);
    Inode *n = new_inode(S_IFSOCK, 0777 & ~PR->umask); er = dent_add(par, last, n); if (er) ERR(er); strcpy(k->path, path); k->inode = n;
  }
  k->bound = 1; slog("bind %d port %d %s", fd, k->port, k->path); return 0;
}
int __wrap_listen(int fd, int n) {
  yield_point("listen"); Ofd *o = ofd(fd); if (!o) return -1; if (o->type != O_SOCK) ERR(ENOTSOCK); Sock *k = o->sock; if (!k->bound) ERR(EINVAL); 
  if (k->domain == AF_INET) for (int i = 0; i < S->nlisten; i++) if (S->listeners[i] != k && same_addr(S->listeners[i], k->addr, k->port)) ERR(EADDRINUSE);
  k->maxback = n > 0 && n < 64 ? n : 50; if (!k->listening) { k->listening = 1; if (S->nlisten < 64) S->listeners[S->nlisten++] = k; } return 0;
}
static i64 gen_delay(void *a) { i64 m = *(i64*)a; return rndn(3) ? (i64)rndn(m / 20 + 1) : (i64)rndn(m + 1); }
int __wrap_connect(int fd, const struct sockaddr *sa, socklen_t l) {
  yield_point("connect"); Ofd *o = ofd(fd); if (!o) return -1; if (o->type != O_SOCK) ERR(ENOTSOCK); Sock *k = o->sock; if (k->connected) ERR(EISCONN);
  u32 ip; int port; char path[112]; int e = addr_of(k, sa, l, &ip, &port, path); if (e) ERR(e);
  if (fault(F_CONN_REFUSED)) ERR(ECONNREFUSED);
  if (S->cfg.net_delay > 0) { i64 d = decide(D_MISC, 0, gen_delay, &S->cfg.net_delay); if (d > 0) { S->fired[F_NET_DELAY]++; i64 dl = S->now + d; o->refs++; while (S->now < dl && block_on("connect", 0, dl, 0, 0) != W_TIMEOUT); ofd_put(o); } }
  Sock *sv = NULL;
  if (k->domain == AF_INET) { for (int i = 0; i < S->nlisten; i++) { Sock *t = S->listeners[i]; if (t->domain == AF_INET && t->port == port && (t->addr == ip || t->addr == htonl(INADDR_ANY))) sv = t; } }
  else { int er; Inode *in = vfs_lookup(path, 1, NULL, NULL, &er); if (!in) ERR(er); for (int i = 0; i < S->nlisten; i++) if (S->listeners[i]->domain == AF_UNIX && S->listeners[i]->inode == in) sv = S->listeners[i]; }
  if (!sv || sv->nback >= sv->maxback || sv->nback >= 64) ERR(ECONNREFUSED);
  Sock *b = new_sock(k->domain, k->type); b->peer = k; k->peer = b; b->connected = k->connected = 1; if (!k->port) k->port = 40000 + S->ephem++;
  sv->backlog[sv->nback++] = b; slog("connect %d to %s:%d%s", fd, k->domain == AF_INET ? inet_ntoa((struct in_addr){sv->addr}) : "", sv->port, sv->path); changed(sv); return 0;
}
int __wrap_accept(int fd, struct sockaddr *sa, socklen_t *l) {
  yield_point("accept"); Ofd *o = ofd(fd); if (!o) return -1; if (o->type != O_SOCK) ERR(ENOTSOCK); Sock *k = o->sock; if (!k->listening) ERR(EINVAL);
  if (free_fd(0) < 0 || fault(F_EMFILE)) ERR(EMFILE);
  o->refs++; int r = -1;
  for (;;) {
    if (k->nback) { Sock *b = k->backlog[0]; memmove(k->backlog, k->backlog + 1, --k->nback * sizeof(Sock*)); r = sock_fd(b); if (r < 0) errno = EMFILE;
      if (sa && l) { struct sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = k->domain; in.sin_addr.s_addr = htonl(INADDR_LOOPBACK); in.sin_port = htons(b->peer ? b->peer->port : 0); size_t n = *l < sizeof in ? *l : sizeof in; memcpy(sa, &in, n); *l = sizeof in; }
      slog("accept %d = %d", fd, r); break; }
    if (o->flags & O_NONBLOCK) { errno = EAGAIN; break; }
    if (block_on("accept", chan_of(k), NEVER, 0, 1) == W_SIGNAL) { errno = EINTR; break; }
  }
  int e = errno; ofd_put(o); errno = e; return r;
}
static i64 rx_due(Sock *k) { if (k->rx) return k->rx->at; return k->peer_closed ? k->eof_at : NEVER; }
static u32 rx_ready(Sock *k) { u32 n = 0; for (Seg *s = k->rx; s && s->at <= S->now; s = s->next) n += s->len - s->off; return n; }
static ssize_t sock_read(Ofd *o, void *buf, size_t n) {
  Sock *k = o->sock;
  if (!k->connected) ERR(ENOTCONN);
  if (k->peer && !k->reset && fault(F_CONN_RESET)) { k->reset = 1; if (k->peer) { k->peer->reset = 1; changed(k->peer); } }
  for (;;) {
    if (k->reset) ERR(ECONNRESET);
    u32 av = rx_ready(k);
    if (av) {
      size_t want = av < n ? av : n; if (want > 1 && fault(F_SHORT_READ)) want = shorter(want);
      size_t got = 0;
      while (got < want) { Seg *s = k->rx; size_t c = s->len - s->off; if (c > want - got) c = want - got; memcpy((u8*)buf + got, s->data + s->off, c); s->off += c; got += c; k->rxlen -= c; if (s->off == s->len) { k->rx = s->next; if (!k->rx) k->rxtail = NULL; kfreeb(s->data, s->len); kfreeb(s, sizeof *s); } }
      changed(k); return got;
    }
    if (!k->rx && k->peer_closed && k->eof_at <= S->now) return 0;
    if (o->flags & O_NONBLOCK) ERR(EAGAIN);
    if (block_on("read socket", chan_of(k), rx_due(k), 0, 1) == W_SIGNAL) { S->fired[F_EINTR_READ]++; ERR(EINTR); }
  }
}
static ssize_t sock_write(Ofd *o, const void *buf, size_t n) {
  Sock *k = o->sock; size_t done = 0;
  if (!k->connected) ERR(ENOTCONN);
  size_t lim = n; if (n > 1 && fault(F_SHORT_WRITE)) lim = shorter(n);
  while (done < lim) {
    if (k->reset) { if (done) return done; ERR(ECONNRESET); }
    if (!k->peer || k->peer_closed) { if (done) return done; slog("EPIPE socket"); post_signal(S->curproc, SIGPIPE); run_signals(); ERR(EPIPE); }
    Sock *p = k->peer; u32 cap = S->cfg.pipe_cap > 0 ? (u32)S->cfg.pipe_cap : 65536;
    if (p->rxlen < cap) {
      size_t c = lim - done; if (c > cap - p->rxlen) c = cap - p->rxlen;
      i64 at = S->now;
      if (S->cfg.net_delay > 0) { if (c > 1 && fault(F_NET_DELAY)) c = shorter(c); at += decide(D_MISC, 0, gen_delay, &S->cfg.net_delay); }
      if (at < p->last_at) at = p->last_at;
      p->last_at = at;
      Seg *s = kalloc(sizeof *s); s->len = c; s->data = kalloc(c); memcpy(s->data, (u8*)buf + done, c); s->at = at;
      if (p->rxtail) p->rxtail->next = s; else p->rx = s;
      p->rxtail = s; p->rxlen += c; done += c;
      changed(p);
      if (S->cfg.net_delay > 0 && done < lim) continue;
      continue;
    }
    if (o->flags & O_NONBLOCK) { if (done) return done; ERR(EAGAIN); }
    if (block_on("write socket", chan_of(p), NEVER, 0, done ? 2 : 1) == W_SIGNAL) { if (done) return done; ERR(EINTR); }
  }
  return done;
}
ssize_t __wrap_recv(int fd, void *b, size_t n, int fl) { (void)fl; yield_point("recv"); return k_read(fd, b, n); }
ssize_t __wrap_send(int fd, const void *b, size_t n, int fl) { (void)fl; yield_point("send"); return k_write(fd, b, n); }
int __wrap_shutdown(int fd, int how) { (void)how; Ofd *o = ofd(fd); if (!o) return -1; if (o->type != O_SOCK) ERR(ENOTSOCK); return 0; }
int __wrap_setsockopt(int fd, int a, int b, const void *c, socklen_t d) { (void)a; (void)b; (void)c; (void)d; return ofd(fd) ? 0 : -1; }
int __wrap_getaddrinfo(const char *node, const char *svc, const struct addrinfo *h, struct addrinfo **res) {
  yield_point("getaddrinfo"); struct in_addr a; int pass = h && (h->ai_flags & AI_PASSIVE);
  if (!node) a.s_addr = pass ? htonl(INADDR_ANY) : htonl(INADDR_LOOPBACK); else if (!strcmp(node, "localhost")) a.s_addr = htonl(INADDR_LOOPBACK); else if (inet_aton(node, &a) == 0) { errno = 0; return EAI_NONAME; }
  if (h && h->ai_family != AF_UNSPEC && h->ai_family != AF_INET) return EAI_FAMILY;
  struct ai1 { struct addrinfo ai; struct sockaddr_in in; } *x, *y = NULL; int n = h && h->ai_socktype ? 1 : 2;
  while (n-- > 0) {   // without a socket type there is a result for each type
    x = __real_malloc(sizeof *x); memset(x, 0, sizeof *x);
    x->in.sin_family = AF_INET; x->in.sin_addr = a; x->in.sin_port = htons(svc ? atoi(svc) : 0);
    x->ai.ai_family = AF_INET; x->ai.ai_socktype = h && h->ai_socktype ? h->ai_socktype : n ? SOCK_DGRAM : SOCK_STREAM; x->ai.ai_addr = (struct sockaddr*)&x->in; x->ai.ai_addrlen = sizeof x->in; x->ai.ai_next = y ? &y->ai : NULL; y = x;
  }
  *res = &y->ai; return 0;
}
void __wrap_freeaddrinfo(struct addrinfo *a) { while (a) { struct addrinfo *n = a->ai_next; __real_free(a); a = n; } }

// ---------------------------------------------------------------- select and poll
static int rd_ready(Ofd *o) {
  switch (o->type) { case O_PIPER: return o->pipe->len || !o->pipe->writers; case O_PIPEW: return 0;
    case O_SOCK: { Sock *k = o->sock; if (k->listening) return k->nback > 0; if (!k->connected) return 1; return rx_ready(k) || k->reset || (!k->rx && k->peer_closed && k->eof_at <= S->now); }
    case O_SINK: return 0; default: return 1; }
}
static int wr_ready(Ofd *o) {
  switch (o->type) { case O_PIPEW: return !o->pipe->readers || o->pipe->cap - o->pipe->len >= 4096; case O_PIPER: return 0;
    case O_SOCK: { Sock *k = o->sock; if (k->listening) return 0; return !k->connected || k->reset || !k->peer || k->peer->rxlen < (S->cfg.pipe_cap > 0 ? (u32)S->cfg.pipe_cap : 65536u); }
    default: return 1; }
}
int __wrap_select(int nfds, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv) {
  yield_point("select");
  i64 dl = NEVER;
  if (tv) { if (tv->tv_sec < 0 || tv->tv_usec < 0 || tv->tv_usec >= 1000000) ERR(EINVAL); dl = S->now + (i64)tv->tv_sec * 1000000000 + (i64)tv->tv_usec * 1000; }
  if (nfds < 0) ERR(EINVAL);
  if (nfds > MAXFD) nfds = MAXFD;
  fd_set ri, wi; FD_ZERO(&ri); FD_ZERO(&wi); if (r) ri = *r; if (w) wi = *w;
  for (int i = 0; i < nfds; i++) if ((FD_ISSET(i, &ri) || FD_ISSET(i, &wi) || (x && FD_ISSET(i, x))) && !PR->fds[i]) ERR(EBADF);
  for (;;) {
    fd_set ro, wo; FD_ZERO(&ro); FD_ZERO(&wo); int n = 0;
    for (int i = 0; i < nfds; i++) { Ofd *o = PR->fds[i] ? &S->ofds[PR->fds[i] - 1] : NULL;
      if (FD_ISSET(i, &ri) && o && rd_ready(o)) { FD_SET(i, &ro); n++; } if (FD_ISSET(i, &wi) && o && wr_ready(o)) { FD_SET(i, &wo); n++; } }
    if (n || dl <= S->now) { if (r) *r = ro; if (w) *w = wo; if (x) FD_ZERO(x); if (tv) { i64 left = dl - S->now; if (left < 0) left = 0; tv->tv_sec = left / 1000000000; tv->tv_usec = left % 1000000000 / 1000; } slog("select = %d", n); return n; }
    i64 d2 = dl; for (int i = 0; i < nfds; i++) if (FD_ISSET(i, &ri)) { Ofd *o = &S->ofds[PR->fds[i] - 1]; if (PR->fds[i] && o->type == O_SOCK && rx_due(o->sock) < d2) d2 = rx_due(o->sock); }
    int k = block_on("select", CH_SEL, d2, 0, 2);
    if (k == W_SIGNAL) { S->fired[F_SELECT_EINTR]++; ERR(EINTR); }
  }
}
int __wrap_poll(struct pollfd *p, nfds_t n, int ms) {
  yield_point("poll"); i64 dl = ms < 0 ? NEVER : S->now + (i64)ms * 1000000;
  for (;;) { int c = 0; for (nfds_t i = 0; i < n; i++) { p[i].revents = 0; if (p[i].fd < 0) continue; Ofd *o = ofd(p[i].fd); if (!o) p[i].revents = POLLNVAL; else { if ((p[i].events & POLLIN) && rd_ready(o)) p[i].revents |= POLLIN; if ((p[i].events & POLLOUT) && wr_ready(o)) p[i].revents |= POLLOUT; } if (p[i].revents) c++; }
    if (c || dl <= S->now) return c;
    if (block_on("poll", CH_SEL, dl, 0, 2) == W_SIGNAL) ERR(EINTR); }
}

// ---------------------------------------------------------------- stdio on simulated descriptors
static struct { FILE *f; int fd; } fmap[256];
static ssize_t ck_read(void *c, char *b, size_t n) { return k_read((int)(long)c - 1, b, n); }
// like stdio on a real descriptor: goes on after a short write
static ssize_t ck_write(void *c, const char *b, size_t n) { size_t d = 0; while (d < n) { ssize_t r = k_write((int)(long)c - 1, b + d, n - d); if (r < 0) break; d += r; } return d; }
static int ck_seek(void *c, off64_t *o, int wh) { i64 r = k_lseek((int)(long)c - 1, *o, wh); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { return k_close((int)(long)c - 1); }
static FILE *mkfile(int fd, const char *mode) {
  cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
  FILE *f = fopencookie((void*)(long)(fd + 1), mode, io);
  for (int i = 0; i < 256; i++) if (!fmap[i].f) { fmap[i].f = f; fmap[i].fd = fd; return f; }
  anomaly("simulator out of FILEs"); finish(OUT_SIMERR); return NULL;
}
FILE *__wrap_fopen(const char *p, const char *m) {
  int fl; switch (m[0]) { case 'r': fl = strchr(m, '+') ? O_RDWR : O_RDONLY; break; case 'w': fl = (strchr(m, '+') ? O_RDWR : O_WRONLY)|O_CREAT|O_TRUNC; break;
    case 'a': fl = (strchr(m, '+') ? O_RDWR : O_WRONLY)|O_CREAT|O_APPEND; break; default: errno = EINVAL; return NULL; }
  int fd = k_open(p, fl, 0666); if (fd < 0) return NULL;
  return mkfile(fd, m);
}
FILE *__wrap_fdopen(int fd, const char *m) { if (!ofd(fd)) return NULL; return mkfile(fd, m); }
int __wrap_fileno(FILE *f) { for (int i = 0; i < 256; i++) if (fmap[i].f == f) return fmap[i].fd; errno = EBADF; return -1; }
int __real_fclose(FILE *f);
int __wrap_fclose(FILE *f) { yield_point("fclose"); for (int i = 0; i < 256; i++) if (fmap[i].f == f) { fmap[i].f = NULL; break; } return __real_fclose(f); }
size_t __real_fread(void *p, size_t a, size_t b, FILE *f);
size_t __wrap_fread(void *p, size_t a, size_t b, FILE *f) { yield_point("fread"); return __real_fread(p, a, b, f); }
void out_write(int which, const void *buf, size_t n) {
  struct { u32 len; u32 which; u64 seq; i64 now; u32 pid, task; } h = { n, which, ++S->seq, S->now, PR->pid, S->curtask };
  if (S->outlen + sizeof h + n > S->outcap) { anomaly("output too long"); finish(OUT_BUDGET); }
  memcpy(S->out + S->outlen, &h, sizeof h); memcpy(S->out + S->outlen + sizeof h, buf, n); S->outlen += sizeof h + n;
}
void io_init_std(void) {
  int oi; Ofd *o = new_ofd(O_STDIN, O_RDONLY, &oi); install(oi, 0);
  o = new_ofd(O_SINK, O_WRONLY, &oi); o->sinkno = 1; install(oi, 0);
  o = new_ofd(O_SINK, O_WRONLY, &oi); o->sinkno = 2; install(oi, 0);
  stdin = mkfile(0, "r"); stdout = mkfile(1, "w"); stderr = mkfile(2, "w");
  setvbuf(stdin, NULL, _IOFBF, 4096); setvbuf(stdout, NULL, S->cfg.tty ? _IOLBF : _IOFBF, 4096); setvbuf(stderr, NULL, _IONBF, 0);
}
