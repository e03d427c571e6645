// In-memory file system under /simfs, with fault injection. Included by rt.c.
#define FS_PREFIX "/simfs"
#define MAXINO 128
#define MAXDENT 128
#define MAXFD 128
#define FD0 100000
typedef struct { int used, dir; uint8_t *d; size_t n, cap; int opens, links; } ino_t_;
typedef struct { int used, ino; char name[512]; } dent;
typedef struct { int used, ino, flags; size_t off; } fdent;
static ino_t_ inos[MAXINO];
static dent dents[MAXDENT];
static fdent fds[MAXFD];
static size_t disk_used;

static char alias_dir[512]; // a real directory whose files are served (and failed) by the simulated disk
void rt_fs_alias(const char *p) { strncpy(alias_dir, p, sizeof alias_dir - 2); }
static int is_sim(const char *p) {
  if (!p) return 0;
  if (alias_dir[0]) { size_t n = strlen(alias_dir); if (!strncmp(p, alias_dir, n) && p[n] == '/') return 1; }
  return !strncmp(p, FS_PREFIX, sizeof FS_PREFIX - 1) && (p[6] == '/' || p[6] == 0);
}
static int is_simfd(int fd) { return fd >= FD0 && fd < FD0 + MAXFD && fds[fd - FD0].used; }
static void norm(const char *p, char *o) {
  size_t n = 0; for (; *p && n < 510; p++) { if (*p == '/' && n && o[n - 1] == '/') continue; o[n++] = *p; }
  while (n > 1 && o[n - 1] == '/') n--;
  o[n] = 0;
}
static dent *lookup(const char *p) {
  char b[512]; norm(p, b);
  for (int i = 0; i < MAXDENT; i++) if (dents[i].used && !strcmp(dents[i].name, b)) return &dents[i];
  return 0;
}
static int parent_ok(const char *p) {
  char b[512]; norm(p, b); char *s = strrchr(b, '/'); if (!s) return 0; *s = 0;
  if (!strcmp(b, FS_PREFIX)) return 1;
  dent *d = lookup(b); return d && inos[d->ino].dir;
}
static void ino_gc(int i) { if (inos[i].used && !inos[i].links && !inos[i].opens) { disk_used -= inos[i].n; free(inos[i].d); memset(&inos[i], 0, sizeof inos[i]); } }
static int mkent(const char *p, int dir) {
  int i, j;
  for (i = 0; i < MAXINO && inos[i].used; i++);
  for (j = 0; j < MAXDENT && dents[j].used; j++);
  if (i == MAXINO || j == MAXDENT) return -1;
  memset(&inos[i], 0, sizeof inos[i]); inos[i].used = 1; inos[i].dir = dir; inos[i].links = 1;
  dents[j].used = 1; dents[j].ino = i; norm(p, dents[j].name);
  return j;
}
void rt_fs_reset(void) {
  for (int i = 0; i < MAXINO; i++) free(inos[i].d);
  memset(inos, 0, sizeof inos); memset(dents, 0, sizeof dents); memset(fds, 0, sizeof fds); disk_used = 0;
}
void rt_fs_close_all(void) { // process death: descriptors vanish, data written so far stays
  for (int i = 0; i < MAXFD; i++) if (fds[i].used) { fds[i].used = 0; inos[fds[i].ino].opens--; ino_gc(fds[i].ino); }
}
int rt_fs_put(const char *p, const uint8_t *b, size_t n) {
  dent *d = lookup(p); if (!d) { int j = mkent(p, 0); if (j < 0) return -1; d = &dents[j]; }
  ino_t_ *f = &inos[d->ino]; disk_used -= f->n; free(f->d); f->d = malloc(n ? n : 1); memcpy(f->d, b, n); f->n = f->cap = n; disk_used += n; return 0;
}
int rt_fs_mkdir(const char *p) { if (lookup(p)) return -1; return mkent(p, 1) < 0 ? -1 : 0; }
int rt_fs_set_dir(const char *p) { dent *d = lookup(p); if (d) inos[d->ino].dir = 1; return 0; }
long rt_fs_get(const char *p, uint8_t *b, size_t cap) {
  dent *d = lookup(p); if (!d) return -1; ino_t_ *f = &inos[d->ino]; if (b) memcpy(b, f->d, f->n < cap ? f->n : cap); return (long)f->n;
}
int rt_fs_unlink(const char *p) { dent *d = lookup(p); if (!d) return -1; d->used = 0; inos[d->ino].links--; ino_gc(d->ino); return 0; }
int rt_fs_list(int i, char *out) { int k = 0; for (int j = 0; j < MAXDENT; j++) if (dents[j].used) { if (k == i) { strcpy(out, dents[j].name); return 1; } k++; } return 0; }
int rt_fs_open_count(void) { int n = 0; for (int i = 0; i < MAXFD; i++) n += fds[i].used; return n; }
void rt_fs_capacity(uint64_t c) { cfg.disk_capacity = c; }

static int crashed;
int rt_crashed(void) { return crashed; }
static void do_crash(void) {
  // the simulated process dies here: every other thread is frozen for good and the
  // controller (thread 0) is resumed as the machine that restarts it.
  crashed = 1;
  rt_st.fired[RT_F_CRASH]++;
  for (int i = 1; i < nthreads; i++) if (threads[i].state != T_DONE) threads[i].state = T_UNUSED;
  threads[0].state = T_READY; threads[0].deadline = 0;
  T *me = self;
  hmix(0xC4A5);
  give(&threads[0]);
  for (;;) take(me);
}
static void io_enter(void) {
  rt_point(RT_P_IO);
  ENTER();
  rt_st.io_calls++;
  hmix(0x10 + rt_st.io_calls);
  if (cfg.p_fault[RT_F_CRASH]) if (self->id != 0 && threads[0].state == T_JOIN && rt_fault(RT_F_CRASH, 1)) { rt_st.fired[RT_F_CRASH]--; do_crash(); }
}
static long io_leave(long r, int e) { LEAVE(); if (r < 0) errno = e; return r; }

static int sim_open(const char *p, int fl) {
  io_enter();
  static const int errs[] = {0, EIO, EMFILE, EACCES, ENOSPC, EINTR};
  uint64_t v = rt_fault(RT_F_OPEN, 5);
  if (v == 5 || (v == 4 && !(fl & O_CREAT))) v = v == 5 ? 5 : 1;
  if (v) return (int)io_leave(-1, errs[v]);
  dent *d = lookup(p);
  if (d && (fl & O_CREAT) && (fl & O_EXCL)) return (int)io_leave(-1, EEXIST);
  if (!d) {
    if (!(fl & O_CREAT)) return (int)io_leave(-1, ENOENT);
    if (!parent_ok(p)) return (int)io_leave(-1, ENOENT);
    int j = mkent(p, 0); if (j < 0) return (int)io_leave(-1, ENOSPC);
    d = &dents[j];
  }
  if (inos[d->ino].dir && (fl & O_ACCMODE) != O_RDONLY) return (int)io_leave(-1, EISDIR);
  int k; for (k = 0; k < MAXFD && fds[k].used; k++);
  if (k == MAXFD) return (int)io_leave(-1, EMFILE);
  if ((fl & O_TRUNC) && (fl & O_ACCMODE) != O_RDONLY) { disk_used -= inos[d->ino].n; inos[d->ino].n = 0; }
  fds[k].used = 1; fds[k].ino = d->ino; fds[k].flags = fl; fds[k].off = 0; inos[d->ino].opens++;
  return (int)io_leave(FD0 + k, 0);
}
static ssize_t sim_read(int fd, uint8_t *b, size_t n, long at) {
  io_enter();
  fdent *f = &fds[fd - FD0]; ino_t_ *i = &inos[f->ino];
  if ((f->flags & O_ACCMODE) == O_WRONLY) return io_leave(-1, EBADF);
  if (i->dir) return io_leave(-1, EISDIR);
  size_t off = at >= 0 ? (size_t)at : f->off;
  size_t av = off < i->n ? i->n - off : 0; if (n > av) n = av;
  if (n) {
    if (rt_fault(RT_F_READ_EINTR, 1)) return io_leave(-1, EINTR);
    if (rt_fault(RT_F_READ_ERR, 1)) return io_leave(-1, EIO);
    if (n > 1) { uint64_t v = rt_fault(RT_F_READ_SHORT, n - 1); if (v) n = (size_t)v; }
    memcpy(b, i->d + off, n);
    if (at < 0) f->off += n;
  }
  return io_leave((long)n, 0);
}
static ssize_t sim_write(int fd, const uint8_t *b, size_t n, long at) {
  io_enter();
  fdent *f = &fds[fd - FD0]; ino_t_ *i = &inos[f->ino];
  if ((f->flags & O_ACCMODE) == O_RDONLY) return io_leave(-1, EBADF);
  if (n) {
    if (rt_fault(RT_F_WRITE_EINTR, 1)) return io_leave(-1, EINTR);
    if (rt_fault(RT_F_WRITE_ERR, 1)) return io_leave(-1, EIO);
    if (rt_fault(RT_F_ENOSPC, 1)) return io_leave(-1, ENOSPC);
    if (n > 1) { uint64_t v = rt_fault(RT_F_WRITE_SHORT, n - 1); if (v) n = (size_t)v; }
    size_t off = at >= 0 ? (size_t)at : (f->flags & O_APPEND) ? i->n : f->off;
    size_t end = off + n;
    if (cfg.disk_capacity && end > i->n && disk_used + (end - i->n) > cfg.disk_capacity) {
      size_t room = cfg.disk_capacity > disk_used ? (size_t)(cfg.disk_capacity - disk_used) : 0;
      rt_st.fired[RT_F_ENOSPC]++;
      if (i->n + room <= off) return io_leave(-1, ENOSPC);
      end = i->n + room; n = end - off;
      if (!n) return io_leave(-1, ENOSPC);
    }
    if (end > i->cap) { size_t c = end * 2; i->d = realloc(i->d, c); i->cap = c; }
    if (off > i->n) memset(i->d + i->n, 0, off - i->n);
    memcpy(i->d + off, b, n);
    if (end > i->n) { disk_used += end - i->n; i->n = end; }
    if (at < 0) f->off = off + n;
  }
  return io_leave((long)n, 0);
}

int open64(const char *p, int fl, ...) {
  va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
  if (ACTIVE() && is_sim(p)) return sim_open(p, fl);
  return (int)fix(raw6(SYS_openat, AT_FDCWD, (long)p, fl, m, 0, 0));
}
int open(const char *p, int fl, ...) {
  va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
  if (ACTIVE() && is_sim(p)) return sim_open(p, fl);
  return (int)fix(raw6(SYS_openat, AT_FDCWD, (long)p, fl, m, 0, 0));
}
ssize_t read(int fd, void *b, size_t n) { if (is_simfd(fd) && ACTIVE()) return sim_read(fd, b, n, -1); return fix(raw6(SYS_read, fd, (long)b, (long)n, 0, 0, 0)); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { if (is_simfd(fd) && ACTIVE()) return sim_read(fd, b, n, o); return fix(raw6(SYS_pread64, fd, (long)b, (long)n, o, 0, 0)); }
ssize_t readv(int fd, const struct iovec *v, int c) {
  if (is_simfd(fd) && ACTIVE()) { for (int i = 0; i < c; i++) if (v[i].iov_len) return sim_read(fd, v[i].iov_base, v[i].iov_len, -1); return 0; }
  return fix(raw6(SYS_readv, fd, (long)v, c, 0, 0, 0));
}
static int std_drop(int fd) { return (fd == 1 || fd == 2) && ACTIVE(); }
ssize_t write(int fd, const void *b, size_t n) {
  if (std_drop(fd)) return (ssize_t)n; // chatter of the code under test is discarded
  if (is_simfd(fd) && ACTIVE()) return sim_write(fd, b, n, -1);
  return fix(raw6(SYS_write, fd, (long)b, (long)n, 0, 0, 0));
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { if (is_simfd(fd) && ACTIVE()) return sim_write(fd, b, n, o); return fix(raw6(SYS_pwrite64, fd, (long)b, (long)n, o, 0, 0)); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (std_drop(fd)) { size_t t = 0; for (int i = 0; i < c; i++) t += v[i].iov_len; return (ssize_t)t; }
  if (is_simfd(fd) && ACTIVE()) { for (int i = 0; i < c; i++) if (v[i].iov_len) return sim_write(fd, v[i].iov_base, v[i].iov_len, -1); return 0; }
  return fix(raw6(SYS_writev, fd, (long)v, c, 0, 0, 0));
}
int close(int fd) {
  if (is_simfd(fd) && ACTIVE()) {
    io_enter();
    fdent *f = &fds[fd - FD0]; f->used = 0; inos[f->ino].opens--; ino_gc(f->ino);
    return (int)io_leave(0, 0);
  }
  return (int)fix(raw6(SYS_close, fd, 0, 0, 0, 0, 0));
}
off_t lseek64(int fd, off_t o, int w) {
  if (is_simfd(fd) && ACTIVE()) {
    fdent *f = &fds[fd - FD0]; long b = w == SEEK_SET ? 0 : w == SEEK_CUR ? (long)f->off : (long)inos[f->ino].n;
    if (b + o < 0) { errno = EINVAL; return -1; }
    f->off = (size_t)(b + o); return (off_t)f->off;
  }
  return fix(raw6(SYS_lseek, fd, o, w, 0, 0, 0));
}
off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }
static int sim_sync(int fd) { (void)fd; io_enter(); if (rt_fault(RT_F_FSYNC, 1)) return (int)io_leave(-1, EIO); return (int)io_leave(0, 0); }
int fsync(int fd) { if (is_simfd(fd) && ACTIVE()) return sim_sync(fd); return (int)fix(raw6(SYS_fsync, fd, 0, 0, 0, 0, 0)); }
int fdatasync(int fd) { if (is_simfd(fd) && ACTIVE()) return sim_sync(fd); return (int)fix(raw6(SYS_fdatasync, fd, 0, 0, 0, 0, 0)); }
int ftruncate64(int fd, off_t n) {
  if (is_simfd(fd) && ACTIVE()) {
    io_enter(); ino_t_ *i = &inos[fds[fd - FD0].ino];
    if ((size_t)n > i->cap) { i->d = realloc(i->d, (size_t)n); i->cap = (size_t)n; }
    if ((size_t)n > i->n) memset(i->d + i->n, 0, (size_t)n - i->n);
    disk_used += (size_t)n - i->n; i->n = (size_t)n;
    return (int)io_leave(0, 0);
  }
  return (int)fix(raw6(SYS_ftruncate, fd, n, 0, 0, 0, 0));
}
int rename(const char *a, const char *b) {
  if (ACTIVE() && is_sim(a)) {
    io_enter();
    if (rt_fault(RT_F_RENAME, 1)) return (int)io_leave(-1, EIO);
    dent *x = lookup(a); if (!x) return (int)io_leave(-1, ENOENT);
    if (!parent_ok(b)) return (int)io_leave(-1, ENOENT);
    dent *y = lookup(b);
    if (y && inos[y->ino].dir) return (int)io_leave(-1, EISDIR);
    if (y && y != x) { y->used = 0; inos[y->ino].links--; ino_gc(y->ino); }
    norm(b, x->name);
    return (int)io_leave(0, 0);
  }
  return (int)fix(raw6(SYS_rename, (long)a, (long)b, 0, 0, 0, 0));
}
int unlink(const char *p) {
  if (ACTIVE() && is_sim(p)) { io_enter(); int r = rt_fs_unlink(p); return (int)io_leave(r, ENOENT); }
  return (int)fix(raw6(SYS_unlink, (long)p, 0, 0, 0, 0, 0));
}
int mkdir(const char *p, mode_t m) {
  if (ACTIVE() && is_sim(p)) {
    io_enter();
    if (lookup(p)) return (int)io_leave(-1, EEXIST);
    if (!parent_ok(p)) return (int)io_leave(-1, ENOENT);
    return (int)io_leave(mkent(p, 1) < 0 ? -1 : 0, ENOSPC);
  }
  return (int)fix(raw6(SYS_mkdir, (long)p, m, 0, 0, 0, 0));
}
static void mkstat(int ino, struct stat64 *s) {
  memset(s, 0, sizeof *s); s->st_ino = (ino_t)ino + 1; s->st_mode = inos[ino].dir ? S_IFDIR | 0755 : S_IFREG | 0644; s->st_nlink = 1; s->st_size = (off_t)inos[ino].n; s->st_blksize = 4096;
}
static int sim_stat(const char *p, struct stat64 *s) {
  io_enter();
  char b[512]; norm(p, b);
  if (!strcmp(b, FS_PREFIX)) { memset(s, 0, sizeof *s); s->st_mode = S_IFDIR | 0755; return (int)io_leave(0, 0); }
  dent *d = lookup(p); if (!d) return (int)io_leave(-1, ENOENT); mkstat(d->ino, s); return (int)io_leave(0, 0);
}
int fstat64(int fd, struct stat64 *s) { if (is_simfd(fd) && ACTIVE()) { mkstat(fds[fd - FD0].ino, s); return 0; } return (int)fix(raw6(SYS_fstat, fd, (long)s, 0, 0, 0, 0)); }
int stat64(const char *restrict p, struct stat64 *restrict s) { if (ACTIVE() && is_sim(p)) return sim_stat(p, s); return (int)fix(raw6(SYS_stat, (long)p, (long)s, 0, 0, 0, 0)); }
int lstat64(const char *restrict p, struct stat64 *restrict s) { if (ACTIVE() && is_sim(p)) return sim_stat(p, s); return (int)fix(raw6(SYS_lstat, (long)p, (long)s, 0, 0, 0, 0)); }
int statx(int dfd, const char *restrict p, int fl, unsigned mask, struct statx *restrict o) {
  if (ACTIVE() && (is_sim(p) || (is_simfd(dfd) && (!p || !*p)))) {
    struct stat64 s; int r = is_sim(p) ? sim_stat(p, &s) : fstat64(dfd, &s);
    if (r) return r;
    memset(o, 0, sizeof *o); o->stx_mask = 0x7ff; o->stx_mode = (uint16_t)s.st_mode; o->stx_size = (uint64_t)s.st_size; o->stx_ino = s.st_ino; o->stx_nlink = 1; o->stx_blksize = 4096;
    return 0;
  }
  return (int)fix(raw6(SYS_statx, dfd, (long)p, fl, mask, (long)o, 0));
}

// thread 0 waits until every client thread is done (or the simulated process crashed)
int rt_wait_clients(void) {
  if (!self || self->id != 0) return -1;
  ENTER();
  for (;;) {
    int live = 0;
    for (int i = 1; i < nthreads; i++) if (threads[i].state != T_DONE && threads[i].state != T_UNUSED) { live = i; break; }
    if (!live || crashed) break;
    tick(RT_P_BLOCK);
    self->state = T_JOIN; self->join_on = live;
    block_and_switch();
  }
  LEAVE();
  return crashed;
}
// descriptor flags: std checks that a file it closes is still open
static int sim_fcntl(int fd, int c, long a) {
  if (is_simfd(fd) && ACTIVE()) { if (c == F_GETFD || c == F_GETFL) return c == F_GETFL ? fds[fd - FD0].flags : FD_CLOEXEC; return 0; }
  return (int)fix(raw6(SYS_fcntl, fd, c, a, 0, 0, 0));
}
int fcntl(int fd, int c, ...) { va_list ap; va_start(ap, c); long a = va_arg(ap, long); va_end(ap); return sim_fcntl(fd, c, a); }
int fcntl64(int fd, int c, ...) { va_list ap; va_start(ap, c); long a = va_arg(ap, long); va_end(ap); return sim_fcntl(fd, c, a); }
