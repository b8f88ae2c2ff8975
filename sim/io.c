#include "sim.h"
#include <sys/epoll.h>
#include <dirent.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/socket.h>
#include <termios.h>
#include <sys/sysmacros.h>

Fd fds[MAXFD];
static int next_oid = 1, next_pid_ = 1;
#define NULL_FD 902
#define RET(r) do { long r_ = (r); sim_end(r_, 0); return r_; } while (0)
#define FAIL(e) do { int e_ = (e); sim_end(-1, e_); errno = e_; return -1; } while (0)

Ofd *onew(int kind) { Ofd *o = xcalloc(1, sizeof *o); o->kind = kind; o->refs = 0; o->id = next_oid++; return o; }
void oref(Ofd *o) { o->refs++; }
Pipe *pnew(void) { Pipe *p = xcalloc(1, sizeof *p); p->cap = K.pipecap; p->buf = xmalloc(p->cap); p->id = next_pid_++; return p; }
void ounref(Ofd *o) {
  if (--o->refs > 0) return;
  switch (o->kind) {
  case O_FILE: case O_DIRD: if (o->ino) { o->ino->opens--; vunref(o->ino); } break;
  case O_PIPER: o->p->readers--; break;
  case O_PIPEW: o->p->writers--; break;
  case O_SOCK: o->p->readers--; o->p2->writers--; break;
  }
  o->kind = 0;
}
int fd_alloc(Ofd *o, int min, int cloexec) {
  for (int i = min; i < MAXFD; i++)
    if (!fds[i].o) { fds[i].o = o; fds[i].cloexec = cloexec; oref(o); if (!g_child_mode) rsys(SYS_dup2, NULL_FD, i); return i; }
  return -1;
}
Ofd *fdget(int fd) { return fd >= 0 && fd < MAXFD ? fds[fd].o : NULL; }
static void fd_close(int fd) { Ofd *o = fds[fd].o; fds[fd].o = NULL; if (!g_child_mode) rsys(SYS_close, fd); ounref(o); }
static Inode *at_base(int dfd, const char *path) {
  if (path && *path == '/') return vroot;
  if (dfd == AT_FDCWD) return vcwd;
  Ofd *o = fdget(dfd); return o && o->ino && o->ino->type == T_DIR ? o->ino : NULL;
}

/* ------------------------------------------------------------------ tty */
static struct { struct termios t; u8 *q; u8 *mark; size_t n, cap; int hup; int col; int fg; int rows, cols; u64 gen; } TT;
void tty_setup(int has) {
  (void)has; memset(&TT, 0, sizeof TT); TT.fg = 1000; TT.rows = 24; TT.cols = 80;
  TT.t.c_iflag = ICRNL | IXON; TT.t.c_oflag = OPOST | ONLCR; TT.t.c_cflag = CS8 | CREAD; TT.t.c_lflag = ISIG | ICANON | ECHO | ECHOE | ECHOK | IEXTEN;
  TT.t.c_cc[VINTR] = 3; TT.t.c_cc[VQUIT] = 28; TT.t.c_cc[VERASE] = 127; TT.t.c_cc[VKILL] = 21; TT.t.c_cc[VEOF] = 4; TT.t.c_cc[VMIN] = 1; TT.t.c_cc[VSUSP] = 26;
}
static void tq(u8 c, int mark) {
  if (TT.n == TT.cap) { TT.cap = TT.cap ? TT.cap * 2 : 256; TT.q = realloc(TT.q, TT.cap); TT.mark = realloc(TT.mark, TT.cap); }
  TT.q[TT.n] = c; TT.mark[TT.n++] = mark;
}
static u64 tty_hash(void);
void tty_winsize(int rows, int cols) { TT.rows = rows; TT.cols = cols; }
/* settings that make no difference to what is read, so that restoring them can be observed */
void tty_settings(long bits) {
  if (bits & 1) TT.t.c_iflag |= IUTF8;
  if (bits & 2) TT.t.c_iflag &= ~IXON;
  if (bits & 4) TT.t.c_lflag |= ECHOCTL | ECHOKE;
  if (bits & 8) TT.t.c_cc[VWERASE] = 23;
  if (bits & 16) TT.t.c_cc[VLNEXT] = 22;
  if (bits & 32) TT.t.c_cflag |= HUPCL;
  if (bits & 64) TT.t.c_iflag |= IXANY;
  tr("YH %llx\n", (unsigned long long)tty_hash());
}
static u64 tty_hash(void) {
  u64 h = 1469598103934665603ULL; u32 v[4] = {TT.t.c_iflag, TT.t.c_oflag, TT.t.c_cflag, TT.t.c_lflag};
  for (size_t i = 0; i < sizeof v; i++) { h ^= ((u8 *)v)[i]; h *= 1099511628211ULL; }
  for (int i = 0; i < NCCS; i++) { h ^= TT.t.c_cc[i]; h *= 1099511628211ULL; }
  return h;
}
void tty_input(const u8 *p, size_t n) {
  TT.gen++;
  for (size_t i = 0; i < n; i++) {
    u8 c = p[i];
    if ((TT.t.c_lflag & ISIG) && c == 3) {
      TT.n = 0;
      for (int k = 0; k < nchildren; k++) if (children[k]->alive && !children[k]->actor && children[k]->pgrp == TT.fg) child_signal(children[k], SIGINT);
      if (TT.fg == 1000) deliver_signal(SIGINT);
      continue;
    }
    if (c == '\r' && (TT.t.c_iflag & ICRNL)) c = '\n';
    if (TT.t.c_lflag & ICANON) {
      if (c == 127) { if (TT.n && !TT.mark[TT.n - 1]) TT.n--; continue; }
      if (c == 21) { while (TT.n && !TT.mark[TT.n - 1]) TT.n--; continue; }
      if (c == 4) { tq(0, 2); continue; }
      tq(c, c == '\n');
    } else tq(c, 0);
  }
}
void tty_hup(void) { TT.hup = 1; TT.gen++; }
static int tty_avail(void) {
  if (TT.hup) return 1;
  if (!(TT.t.c_lflag & ICANON)) return TT.n > 0;
  for (size_t i = 0; i < TT.n; i++) if (TT.mark[i] || TT.q[i] == '\n') return 1;
  return 0;
}
static long tty_read(u8 *p, size_t n) {
  if (!tty_avail()) return -EAGAIN;
  if (TT.hup && TT.n == 0) return 0;
  size_t k = 0, used = 0; int canon = TT.t.c_lflag & ICANON;
  while (k < n && used < TT.n) {
    u8 c = TT.q[used]; int m = TT.mark[used];
    if (canon && m == 2) { used++; break; }
    if (!canon && m == 2) c = 4;
    p[k++] = c; used++;
    if (canon && (m == 1 || c == '\n')) break;
    if (canon && k == n && used < TT.n && TT.mark[used] == 2) { used++; break; } /* as Linux does: the mark ends the text before it */
  }
  memmove(TT.q, TT.q + used, TT.n - used); memmove(TT.mark, TT.mark + used, TT.n - used); TT.n -= used;
  return k;
}
/* what a terminal does with output: it follows the cursor column and answers "where is the cursor?" */
static void tty_output(const u8 *p, size_t n) {
  static int st; static char par[16]; static int np;
  for (size_t i = 0; i < n; i++) {
    u8 c = p[i];
    switch (st) {
    case 0:
      if (c == 27) st = 1; else if (c == '\r' || c == '\n') TT.col = 0; else if (c == 8) { if (TT.col) TT.col--; } else if (c >= 32 && (c & 0xc0) != 0x80) TT.col = (TT.col + 1) % 80;
      break;
    case 1: st = c == '[' ? 2 : c == ']' ? 3 : 0; np = 0; break;
    case 2:
      if (c >= 0x40 && c <= 0x7e) {
        st = 0; par[np] = 0;
        if (c == 'n' && !strcmp(par, "6") && K.cprdelay >= 0) {
          char r[32]; int k = snprintf(r, sizeof r, "\x1b[1;%dR", TT.col + 1);
          if (K.cprdelay) add_event(g_now + K.cprdelay, 7 /* EV_CPR */, 0, memcpy(xmalloc(k), r, k), k); else for (int j = 0; j < k; j++) tq(r[j], 0);
        }
        else if (c == 'C') TT.col += atoi(par); else if (c == 'D') { int d = atoi(par); TT.col = TT.col > d ? TT.col - d : 0; }
      } else if (np < 15) par[np++] = c;
      break;
    case 3: if (c == 7) st = 0; else if (c == 27) st = 1; break;
    }
  }
}
int tty_raw(void) { return !(TT.t.c_lflag & ICANON); }
int tty_echo(void) { return !!(TT.t.c_lflag & ECHO); }

/* ------------------------------------------------------------------ primitives */
u8 *src_buf; size_t src_len; static size_t src_pos;
static size_t chunked(size_t n) {
  if (n <= 1) return n;
  if (K.chunk == 2) return 1;
  if (K.chunk == 1) { u64 z = rndn(R_CHUNK, 4); if (z == 0) return n; if (z == 1) return 1 + rndn(R_CHUNK, n < 8 ? n : 8); return 1 + rndn(R_CHUNK, n); }
  return n;
}
static size_t pipe_get(Pipe *p, u8 *b, size_t n) {
  if (n > p->len) n = p->len;
  for (size_t i = 0; i < n;) { size_t h = p->head, k = p->cap - h; if (k > n - i) k = n - i; memcpy(b + i, p->buf + h, k); p->head = (h + k) % p->cap; i += k; }
  p->len -= n; return n;
}
static size_t pipe_put(Pipe *p, const u8 *b, size_t n) {
  size_t sp = p->cap - p->len; if (n > sp) n = sp;
  for (size_t i = 0; i < n;) { size_t t = (p->head + p->len) % p->cap, k = p->cap - t; if (k > n - i) k = n - i; memcpy(p->buf + t, b + i, k); p->len += k; i += k; }
  p->gen++; return n;
}
long o_read(Ofd *o, void *buf, size_t n, int pid) {
  switch (o->kind) {
  case O_FILE: {
    if ((o->flags & O_ACCMODE) == O_WRONLY) return -EBADF;
    if (o->ino->type == T_DIR) return -EISDIR;
    if (o->off >= o->ino->len) return 0;
    size_t r = o->ino->len - o->off; if (r > n) r = n;
    memcpy(buf, o->ino->data + o->off, r); o->off += r; return r;
  }
  case O_DIRD: return -EISDIR;
  case O_PIPER: case O_SOCK:
    if (n == 0) return 0;
    if (!o->p->len) return o->p->writers ? -EAGAIN : 0;
    if (n > o->p->len) n = o->p->len;
    return pipe_get(o->p, buf, chunked(n));
  case O_TTY: { if (n == 0) return 0; long r = tty_read(buf, ((TT.t.c_lflag & ICANON) || K.ttywhole) ? n : chunked(n)); if (pid && r > 0) {} return r; }
  case O_NULLD: return 0;
  case O_URAND: fill_random(buf, n); return n;
  case O_SOURCE: {
    size_t r = src_len - src_pos; if (!r) return 0; if (r > n) r = n; r = chunked(r); memcpy(buf, src_buf + src_pos, r); src_pos += r; return r;
  }
  case O_EVENTFD: if (!o->counter) return -EAGAIN; memcpy(buf, &o->counter, 8); o->counter = 0; return 8;
  }
  return -EBADF;
}
long o_write(Ofd *o, const void *buf, size_t n, int pid) {
  switch (o->kind) {
  case O_FILE: {
    if ((o->flags & O_ACCMODE) == O_RDONLY) return -EBADF;
    if (o->flags & O_APPEND) o->off = o->ino->len;
    size_t d; int e = vwrite(o->ino, o->off, buf, n, &d); if (e && !d) return -e; o->off += d; return d;
  }
  case O_PIPEW: case O_SOCK: {
    Pipe *p = o->kind == O_SOCK ? o->p2 : o->p;
    if (!p->readers) return -EPIPE;
    if (n == 0) return 0;
    if (p->cap - p->len < (n <= 4096 && n <= p->cap ? n : 1)) return -EAGAIN;
    return pipe_put(p, buf, n);
  }
  case O_TTY: case O_SINK:
    user_output(buf, n);
    tr("O %d %d ", o->id, pid); tr_hex(buf, n); tr("\n");
    if (o->kind == O_TTY) tty_output(buf, n);
    if (pid == 0 && o->id == 2 && n > 0) {
      static u8 lastb; int hit = (lastb == '@' && *(const u8 *)buf == '@') || memmem(buf, n, "@@", 2);
      lastb = ((const u8 *)buf)[n - 1]; if (hit) vdump("mark");
    }
    return n;
  case O_NULLD: case O_URAND: return n;
  case O_EVENTFD: { u64 v; memcpy(&v, buf, 8); o->counter += v; return 8; }
  }
  return -EBADF;
}
static int in_background(int pid) { for (int k = 0; k < nchildren; k++) if (children[k]->pid == pid) return children[k]->pgrp != TT.fg; return 0; }
int o_readable(Ofd *o, int pid) {
  if (o->kind == O_TTY && pid > 0 && in_background(pid)) return 0; /* stopped by the terminal */
  switch (o->kind) {
  case O_PIPER: case O_SOCK: return o->p->len > 0 || !o->p->writers;
  case O_TTY: return tty_avail();
  case O_EVENTFD: return o->counter > 0;
  }
  return 1;
}
int o_writable(Ofd *o) {
  if (o->kind == O_PIPEW) return !o->p->readers || o->p->len < o->p->cap;
  if (o->kind == O_SOCK) return !o->p2->readers || o->p2->len < o->p2->cap;
  return 1;
}
static int p_rd(void *v) { return o_readable(v, 0); }
typedef struct { Ofd *o; size_t n; } WA;
static int p_wr(void *v) {
  WA *w = v; Pipe *p = w->o->kind == O_SOCK ? w->o->p2 : w->o->p;
  if (!p || !p->readers) return 1;
  return p->cap - p->len >= (w->n <= 4096 && w->n <= p->cap ? w->n : 1);
}

/* in a forked child that is about to exec, stdio writes are forwarded to the parent */
extern void child_proxy_write(int fd, const void *p, size_t n);

/* ------------------------------------------------------------------ read / write */
static ssize_t do_read(int fd, void *buf, size_t n, i64 off, const char *name) {
  Ofd *o = fdget(fd); Fault f = sim_begin(C_READ, name, o, o ? NULL : "badfd");
  if (!o) FAIL(EBADF);
  oref(o);
  if (f.kind == F_ERRNO) { ounref(o); FAIL(f.val); }
  if (o->kind == O_TTY && K.ttywhole) ;
  else if (f.kind == F_SHORT && f.val > 0 && (size_t)f.val < n) n = f.val;
  else if (o->kind == O_FILE && K.fshort && n > 1 && (long)rndn(R_CHUNK, 1000) < K.fshort) n = 1 + rndn(R_CHUNK, n);
  u64 save = o->off; if (off >= 0) o->off = off;
  long r;
  while ((r = o_read(o, buf, n, 0)) == -EAGAIN) {
    if (o->flags & O_NONBLOCK) break;
    int b = sim_block(p_rd, o, -1, 0);
    if (b == -EINTR) { r = -EINTR; break; }
  }
  if (off >= 0) o->off = save;
  ounref(o);
  if (r < 0) FAIL(-r);
  RET(r);
}
static ssize_t do_write(int fd, const void *buf, size_t n, i64 off, const char *name) {
  if (g_child_mode) { child_proxy_write(fd, buf, n); return n; }
  Ofd *o = fdget(fd); Fault f = sim_begin(C_WRITE, name, o, o ? NULL : "badfd");
  if (!o) FAIL(EBADF);
  if (f.kind == F_ERRNO) FAIL(f.val);
  oref(o);
  if (f.kind == F_SHORT && f.val > 0 && (size_t)f.val < n) n = f.val;
  else if ((o->kind == O_FILE || o->kind == O_SINK || o->kind == O_TTY) && K.fshort && n > 1 && (long)rndn(R_CHUNK, 1000) < K.fshort) n = 1 + rndn(R_CHUNK, n);
  u64 save = o->off; if (off >= 0) o->off = off;
  size_t done = 0; long r = 0;
  for (;;) {
    r = o_write(o, (const u8 *)buf + done, n - done, 0);
    if (r == -EAGAIN) {
      if (o->flags & O_NONBLOCK) break;
      WA w = {o, n - done};
      int b = sim_block(p_wr, &w, -1, 0);
      if (b == -EINTR) { r = -EINTR; break; }
      continue;
    }
    if (r < 0) break;
    done += r;
    if (done >= n || (o->kind != O_PIPEW && o->kind != O_SOCK)) break;
  }
  if (off >= 0) o->off = save;
  ounref(o);
  if (r == -EPIPE && !done) { if (sig_disposition(SIGPIPE, NULL) == 0) sim_finish("signal", SIGPIPE); }
  if (done) RET(done);
  if (r < 0) FAIL(-r);
  RET(0);
}
EXPORT ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, -1, "read"); }
EXPORT ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, -1, "write"); }
EXPORT ssize_t pread64(int fd, void *b, size_t n, off64_t off) { return do_read(fd, b, n, off, "pread"); }
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t off) { return do_read(fd, b, n, off, "pread"); }
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off64_t off) { return do_write(fd, b, n, off, "pwrite"); }
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t off) { return do_write(fd, b, n, off, "pwrite"); }
EXPORT ssize_t readv(int fd, const struct iovec *v, int c) {
  size_t t = 0; for (int i = 0; i < c; i++) t += v[i].iov_len;
  u8 *b = xmalloc(t); ssize_t r = do_read(fd, b, t, -1, "readv"); int e = errno; size_t k = 0;
  for (int i = 0; i < c && r > 0 && k < (size_t)r; i++) { size_t m = v[i].iov_len; if (m > r - k) m = r - k; memcpy(v[i].iov_base, b + k, m); k += m; }
  free(b); errno = e; return r;
}
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) {
  size_t t = 0; for (int i = 0; i < c; i++) t += v[i].iov_len;
  u8 *b = xmalloc(t); size_t k = 0; for (int i = 0; i < c; i++) { memcpy(b + k, v[i].iov_base, v[i].iov_len); k += v[i].iov_len; }
  ssize_t r = do_write(fd, b, t, -1, "writev"); int e = errno; free(b); errno = e; return r;
}
EXPORT ssize_t recv(int fd, void *b, size_t n, int fl) { Ofd *o = fdget(fd); int s = o ? o->flags : 0; if (o && (fl & MSG_DONTWAIT)) o->flags |= O_NONBLOCK; ssize_t r = do_read(fd, b, n, -1, "recv"); int e = errno; if (o) o->flags = s; errno = e; return r; }
EXPORT ssize_t send(int fd, const void *b, size_t n, int fl) { Ofd *o = fdget(fd); int s = o ? o->flags : 0; if (o && (fl & MSG_DONTWAIT)) o->flags |= O_NONBLOCK; ssize_t r = do_write(fd, b, n, -1, "send"); int e = errno; if (o) o->flags = s; errno = e; return r; }

/* ------------------------------------------------------------------ open / close / seek */
static int do_open(int dfd, const char *path, int flags, int mode, const char *name) {
  Inode *b = at_base(dfd, path); char pn[300];
  snprintf(pn, sizeof pn, "%s|%o", path ? path : "", flags);
  Fault f = sim_begin(!strncmp(pn, "/dev/urandom|", 13) || !strncmp(pn, "/dev/random|", 12) ? C_NONE : C_OPEN, name, NULL, pn);
  if (f.kind == F_ERRNO) FAIL(f.val);
  if (!path) FAIL(EFAULT);
  if (!b) FAIL(EBADF);
  Inode *n; int e = vopen(b, path, flags, mode, &n); if (e) FAIL(e);
  Ofd *o = onew(n->type == T_NULL ? O_NULLD : n->type == T_TTY ? O_TTY : n->type == T_URAND ? O_URAND : n->type == T_DIR ? O_DIRD : O_FILE);
  o->flags = flags & ~(O_CREAT | O_EXCL | O_TRUNC | O_CLOEXEC); o->ino = n; n->opens++;
  int fd = fd_alloc(o, 0, !!(flags & O_CLOEXEC)); if (fd < 0) { oref(o); ounref(o); FAIL(EMFILE); }
  RET(fd);
}
#define MODEARG() int mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
EXPORT int open64(const char *p, int flags, ...) { MODEARG(); return do_open(AT_FDCWD, p, flags, mode, "open"); }
EXPORT int open(const char *p, int flags, ...) { MODEARG(); return do_open(AT_FDCWD, p, flags, mode, "open"); }
EXPORT int openat64(int d, const char *p, int flags, ...) { MODEARG(); return do_open(d, p, flags, mode, "openat"); }
EXPORT int openat(int d, const char *p, int flags, ...) { MODEARG(); return do_open(d, p, flags, mode, "openat"); }
EXPORT int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m, "creat"); }
EXPORT int creat(const char *p, mode_t m) { return creat64(p, m); }
EXPORT int close(int fd) {
  if (g_child_mode) { if (!fdget(fd)) { errno = EBADF; return -1; } fd_close(fd); return 0; }
  Ofd *o = fdget(fd); sim_begin(C_CLOSE, "close", o, NULL); if (!o) FAIL(EBADF); fd_close(fd); RET(0);
}
EXPORT off64_t lseek64(int fd, off64_t off, int wh) {
  Ofd *o = fdget(fd); sim_begin(C_CLOSE, "lseek", o, NULL); if (!o) FAIL(EBADF);
  if (o->kind != O_FILE) FAIL(ESPIPE);
  i64 b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (i64)o->off : (i64)o->ino->len; if (b + off < 0) FAIL(EINVAL); o->off = b + off; RET(o->off);
}
EXPORT off_t lseek(int fd, off_t off, int wh) { return lseek64(fd, off, wh); }
EXPORT int ftruncate64(int fd, off64_t len) { Ofd *o = fdget(fd); Fault f = sim_begin(C_SYNC, "ftruncate", o, NULL); if (f.kind == F_ERRNO) FAIL(f.val); if (!o || !o->ino) FAIL(EBADF); int e = vtrunc(o->ino, len); if (e) FAIL(e); RET(0); }
EXPORT int ftruncate(int fd, off_t len) { return ftruncate64(fd, len); }
EXPORT int truncate64(const char *p, off64_t len) { Inode *n; int fd; sim_begin(C_META, "truncate", NULL, p); (void)fd; int e = vopen(vcwd, p, O_WRONLY, 0, &n); if (e) FAIL(e); e = vtrunc(n, len); if (e) FAIL(e); RET(0); }
EXPORT int truncate(const char *p, off_t len) { return truncate64(p, len); }
EXPORT int fsync(int fd) { Ofd *o = fdget(fd); Fault f = sim_begin(C_SYNC, "fsync", o, NULL); if (f.kind == F_ERRNO) FAIL(f.val); if (!o) FAIL(EBADF); RET(0); }
EXPORT int fdatasync(int fd) { return fsync(fd); }
EXPORT int fallocate64(int fd, int m, off64_t a, off64_t l) { (void)fd; (void)m; (void)a; (void)l; errno = EOPNOTSUPP; return -1; }
EXPORT int posix_fadvise64(int fd, off64_t a, off64_t l, int ad) { (void)fd; (void)a; (void)l; (void)ad; return 0; }
EXPORT int flock(int fd, int op) { (void)op; Ofd *o = fdget(fd); sim_begin(C_CLOSE, "flock", o, NULL); if (!o) FAIL(EBADF); RET(0); }
EXPORT mode_t umask(mode_t m) { (void)m; return 022; }

/* ------------------------------------------------------------------ stat */
static void fill64(struct stat64 *s, Inode *n, int kind) {
  memset(s, 0, sizeof *s);
  if (!n) { s->st_mode = kind == O_TTY || kind == O_NULLD || kind == O_URAND ? S_IFCHR | 0666 : S_IFIFO | 0600; s->st_ino = 1000 + kind; s->st_blksize = 4096; s->st_nlink = 1; return; }
  int t = n->type == T_FILE ? S_IFREG : n->type == T_DIR ? S_IFDIR : n->type == T_LINK ? S_IFLNK : S_IFCHR;
  s->st_mode = t | n->mode; s->st_ino = n->id; s->st_dev = makedev(8, 1); s->st_nlink = n->nlink; s->st_uid = n->uid; s->st_gid = 1000;
  s->st_size = n->type == T_LINK ? (i64)strlen(n->target) : n->type == T_FILE ? (i64)n->len : n->type == T_DIR ? 4096 : 0; s->st_blksize = 4096; s->st_blocks = (s->st_size + 511) / 512;
  s->st_mtim.tv_sec = n->mtime / 1000000000; s->st_mtim.tv_nsec = n->mtime % 1000000000; s->st_atim = s->st_ctim = s->st_mtim;
}
static int do_stat(int dfd, const char *path, int flags, struct stat64 *s, const char *name) {
  if (path && !*path && (flags & AT_EMPTY_PATH)) path = NULL;
  if (!path) {
    Ofd *o = fdget(dfd); Fault f = sim_begin(C_STAT, name, o, NULL);
    if (!o) FAIL(EBADF);
    if (f.kind == F_ERRNO) FAIL(f.val == EACCES ? EIO : f.val);
    fill64(s, o->ino, o->kind); RET(0);
  }
  Inode *b = at_base(dfd, path); Fault f = sim_begin(C_STAT, name, NULL, path); if (f.kind == F_ERRNO) FAIL(f.val);
  if (!b) FAIL(EBADF);
  Look l; int e = vlookup(b, path, !(flags & AT_SYMLINK_NOFOLLOW), &l); if (e) FAIL(e); if (!l.node) FAIL(ENOENT);
  fill64(s, l.node, 0); RET(0);
}
EXPORT int stat64(const char *p, struct stat64 *s) { return do_stat(AT_FDCWD, p, 0, s, "stat"); }
EXPORT int lstat64(const char *p, struct stat64 *s) { return do_stat(AT_FDCWD, p, AT_SYMLINK_NOFOLLOW, s, "lstat"); }
EXPORT int fstat64(int fd, struct stat64 *s) { return do_stat(fd, NULL, 0, s, "fstat"); }
EXPORT int fstatat64(int d, const char *p, struct stat64 *s, int fl) { return do_stat(d, p, fl, s, "fstatat"); }
EXPORT int stat(const char *p, struct stat *s) { return do_stat(AT_FDCWD, p, 0, (struct stat64 *)s, "stat"); }
EXPORT int lstat(const char *p, struct stat *s) { return do_stat(AT_FDCWD, p, AT_SYMLINK_NOFOLLOW, (struct stat64 *)s, "lstat"); }
EXPORT int fstat(int fd, struct stat *s) { return do_stat(fd, NULL, 0, (struct stat64 *)s, "fstat"); }
EXPORT int fstatat(int d, const char *p, struct stat *s, int fl) { return do_stat(d, p, fl, (struct stat64 *)s, "fstatat"); }
int sim_statx(int d, const char *p, int fl, unsigned mask, void *out) {
  (void)mask; struct statx *x = out;
  if (!out) { errno = EFAULT; return -1; }
  struct stat64 s; int r = do_stat(d, p, fl, &s, (fl & AT_SYMLINK_NOFOLLOW) ? "lstatx" : "statx"); if (r) return r;
  memset(x, 0, sizeof *x); x->stx_mask = STATX_BASIC_STATS | STATX_BTIME; x->stx_blksize = s.st_blksize; x->stx_nlink = s.st_nlink; x->stx_uid = s.st_uid; x->stx_gid = s.st_gid;
  x->stx_mode = s.st_mode; x->stx_ino = s.st_ino; x->stx_size = s.st_size; x->stx_blocks = s.st_blocks; x->stx_dev_major = 8; x->stx_dev_minor = 1;
  x->stx_mtime.tv_sec = s.st_mtim.tv_sec; x->stx_mtime.tv_nsec = s.st_mtim.tv_nsec; x->stx_atime = x->stx_ctime = x->stx_btime = x->stx_mtime;
  return 0;
}
EXPORT int statx(int d, const char *restrict p, int fl, unsigned mask, struct statx *restrict x) { return sim_statx(d, p, fl, mask, x); }
EXPORT int faccessat(int d, const char *p, int m, int fl) {
  (void)fl; Inode *b = at_base(d, p); Fault f = sim_begin(C_STAT, "access", NULL, p); if (f.kind == F_ERRNO) FAIL(f.val); if (!b) FAIL(EBADF);
  Look l; int e = vlookup(b, p, 1, &l); if (e) FAIL(e); if (!l.node) FAIL(ENOENT);
  if (m && vperm(l.node, m & 7)) FAIL(EACCES);
  RET(0);
}
EXPORT int access(const char *p, int m) { return faccessat(AT_FDCWD, p, m, 0); }
EXPORT int eaccess(const char *p, int m) { return faccessat(AT_FDCWD, p, m, 0); }

/* ------------------------------------------------------------------ name space operations */
#define META(nm, cls, path) Fault f = sim_begin(cls, nm, NULL, path); if (f.kind == F_ERRNO) FAIL(f.val)
EXPORT int mkdirat(int d, const char *p, mode_t m) { Inode *b = at_base(d, p); META("mkdir", C_META, p); if (!b) FAIL(EBADF); int e = vmkdir(b, p, m); if (e) FAIL(e); RET(0); }
EXPORT int mkdir(const char *p, mode_t m) { return mkdirat(AT_FDCWD, p, m); }
EXPORT int unlinkat(int d, const char *p, int fl) { Inode *b = at_base(d, p); META((fl & AT_REMOVEDIR) ? "rmdir" : "unlink", C_META, p); if (!b) FAIL(EBADF); int e = vunlink(b, p, !!(fl & AT_REMOVEDIR)); if (e) FAIL(e); RET(0); }
EXPORT int unlink(const char *p) { return unlinkat(AT_FDCWD, p, 0); }
EXPORT int rmdir(const char *p) { return unlinkat(AT_FDCWD, p, AT_REMOVEDIR); }
EXPORT int remove(const char *p) { int r = unlink(p); return r && errno == EISDIR ? rmdir(p) : r; }
EXPORT int renameat2(int a, const char *p, int b2, const char *q, unsigned fl) {
  Inode *x = at_base(a, p), *y = at_base(b2, q); char nm[512]; snprintf(nm, sizeof nm, "%s>%s", p, q);
  META("rename", C_RENAME, nm); if (!x || !y) FAIL(EBADF); int e = vrename(x, p, y, q, fl); if (e) FAIL(e); RET(0);
}
EXPORT int renameat(int a, const char *p, int b, const char *q) { return renameat2(a, p, b, q, 0); }
EXPORT int rename(const char *p, const char *q) { return renameat2(AT_FDCWD, p, AT_FDCWD, q, 0); }
EXPORT int symlinkat(const char *t, int d, const char *p) {
  Inode *b = at_base(d, p); META("symlink", C_META, p); Look l; int e = vlookup(b, p, 0, &l); if (e) FAIL(e); if (l.node) FAIL(EEXIST); if (vperm(l.dir, 3)) FAIL(EACCES);
  Inode *n = vnew(T_LINK, 0777); n->target = xstrdup(t); dadd(l.dir, l.last, n); RET(0);
}
EXPORT int symlink(const char *t, const char *p) { return symlinkat(t, AT_FDCWD, p); }
EXPORT int linkat(int a, const char *p, int b2, const char *q, int fl) {
  Inode *x = at_base(a, p), *y = at_base(b2, q); META("link", C_META, q); Look l, m; int e = vlookup(x, p, !!(fl & AT_SYMLINK_FOLLOW), &l); if (e) FAIL(e); if (!l.node) FAIL(ENOENT);
  if (l.node->type == T_DIR) FAIL(EPERM);
  e = vlookup(y, q, 0, &m); if (e) FAIL(e); if (m.node) FAIL(EEXIST); if (vperm(m.dir, 3)) FAIL(EACCES); dadd(m.dir, m.last, l.node); RET(0);
}
EXPORT int link(const char *p, const char *q) { return linkat(AT_FDCWD, p, AT_FDCWD, q, 0); }
EXPORT int fchmodat(int d, const char *p, mode_t m, int fl) { (void)fl; Inode *b = at_base(d, p); META("chmod", C_META, p); Look l; int e = vlookup(b, p, 1, &l); if (e) FAIL(e); if (!l.node) FAIL(ENOENT); l.node->mode = m & 07777; RET(0); }
EXPORT int chmod(const char *p, mode_t m) { return fchmodat(AT_FDCWD, p, m, 0); }
EXPORT int fchmod(int fd, mode_t m) { Ofd *o = fdget(fd); META("fchmod", C_META, NULL); if (!o || !o->ino) FAIL(EBADF); o->ino->mode = m & 07777; RET(0); }
EXPORT int chown(const char *p, uid_t u, gid_t g) { (void)p; (void)u; (void)g; errno = EPERM; return -1; }
EXPORT int fchown(int p, uid_t u, gid_t g) { (void)p; (void)u; (void)g; errno = EPERM; return -1; }
EXPORT int lchown(const char *p, uid_t u, gid_t g) { return chown(p, u, g); }
EXPORT int utimensat(int d, const char *p, const struct timespec t[2], int fl) { (void)d; (void)p; (void)t; (void)fl; return 0; }
EXPORT int futimens(int fd, const struct timespec t[2]) { (void)fd; (void)t; return 0; }
EXPORT ssize_t readlinkat(int d, const char *p, char *b, size_t n) {
  if (!strcmp(p, "/proc/self/exe")) { const char *x = "/usr/bin/dunesh"; size_t k = strlen(x); if (k > n) k = n; memcpy(b, x, k); return k; }
  Inode *bs = at_base(d, p); META("readlink", C_STAT, p); Look l; int e = vlookup(bs, p, 0, &l); if (e) FAIL(e); if (!l.node) FAIL(ENOENT); if (l.node->type != T_LINK) FAIL(EINVAL);
  size_t k = strlen(l.node->target); if (k > n) k = n; memcpy(b, l.node->target, k); RET(k);
}
EXPORT ssize_t readlink(const char *p, char *b, size_t n) { return readlinkat(AT_FDCWD, p, b, n); }
EXPORT char *realpath(const char *restrict p, char *restrict out) {
  Fault f = sim_begin(C_STAT, "realpath", NULL, p); int e;
  if (f.kind == F_ERRNO) { sim_end(-1, f.val); errno = f.val; return NULL; }
  Look l; e = vlookup(vcwd, p, 1, &l); if (!e && !l.node) e = ENOENT;
  if (e) { sim_end(-1, e); errno = e; return NULL; }
  char *r;
  if (l.node->type == T_DIR) r = vpath(l.node);
  else { char *d = vpath(l.dir); if (d) { r = xmalloc(strlen(d) + strlen(l.last) + 2); sprintf(r, "%s/%s", strcmp(d, "/") ? d : "", l.last); free(d); } else r = NULL; }
  if (!r) { sim_end(-1, ENOENT); errno = ENOENT; return NULL; }
  if (out) { strcpy(out, r); free(r); r = out; }
  sim_end(0, 0); return r;
}
EXPORT char *canonicalize_file_name(const char *p) { return realpath(p, NULL); }
EXPORT char *getcwd(char *b, size_t n) {
  Fault f = sim_begin(C_CHDIR, "getcwd", NULL, NULL);
  if (f.kind == F_ERRNO) { sim_end(-1, f.val); errno = f.val; return NULL; }
  char *r = vpath(vcwd); if (!r) { sim_end(-1, ENOENT); errno = ENOENT; return NULL; }
  if (!b) { sim_end(0, 0); return r; }
  if (strlen(r) + 1 > n) { free(r); sim_end(-1, ERANGE); errno = ERANGE; return NULL; }
  strcpy(b, r); free(r); sim_end(0, 0); return b;
}
EXPORT int chdir(const char *p) {
  META("chdir", C_CHDIR, p); Look l; int e = vlookup(vcwd, p, 1, &l); if (e) FAIL(e); if (!l.node) FAIL(ENOENT); if (l.node->type != T_DIR) FAIL(ENOTDIR); if (vperm(l.node, 1)) FAIL(EACCES);
  vcwd = l.node; vcwd->opens++; RET(0);
}
EXPORT int fchdir(int fd) { Ofd *o = fdget(fd); sim_begin(C_CHDIR, "fchdir", o, NULL); if (!o || !o->ino || o->ino->type != T_DIR) FAIL(ENOTDIR); vcwd = o->ino; RET(0); }
EXPORT int chroot(const char *p) { (void)p; errno = EPERM; return -1; }

/* ------------------------------------------------------------------ directories */
typedef struct SDir { int fd; char **names; u64 *ids; u8 *types; int n, pos; struct dirent64 ent; } SDir;
static SDir *mkdirp(int fd, Inode *d) {
  SDir *s = xcalloc(1, sizeof *s); s->fd = fd; s->n = d->nents + 2;
  s->names = xcalloc(s->n, sizeof *s->names); s->ids = xcalloc(s->n, 8); s->types = xcalloc(s->n, 1);
  s->names[0] = xstrdup("."); s->names[1] = xstrdup(".."); s->ids[0] = d->id; s->ids[1] = d->parent ? d->parent->id : 1; s->types[0] = s->types[1] = DT_DIR;
  for (int i = 0; i < d->nents; i++) { Inode *n = d->ents[i].ino; s->names[i + 2] = xstrdup(d->ents[i].name); s->ids[i + 2] = n->id; s->types[i + 2] = K.dtunknown ? DT_UNKNOWN : n->type == T_DIR ? DT_DIR : n->type == T_LINK ? DT_LNK : n->type == T_FILE ? DT_REG : DT_CHR; }
  if (K.dirshuffle) for (int i = s->n - 1; i > 0; i--) { int j = rndn(R_DIR, i + 1); char *a = s->names[i]; s->names[i] = s->names[j]; s->names[j] = a; u64 b = s->ids[i]; s->ids[i] = s->ids[j]; s->ids[j] = b; u8 c = s->types[i]; s->types[i] = s->types[j]; s->types[j] = c; }
  return s;
}
#define FAILP(e) do { int e_ = (e); sim_end(-1, e_); errno = e_; return NULL; } while (0)
EXPORT DIR *opendir(const char *p) {
  Fault f = sim_begin(C_DIR, "opendir", NULL, p); if (f.kind == F_ERRNO) FAILP(f.val);
  Inode *n; int e = vopen(vcwd, p, O_RDONLY | O_DIRECTORY, 0, &n); if (e) FAILP(e);
  Ofd *o = onew(O_DIRD); o->ino = n; n->opens++; int fd = fd_alloc(o, 0, 1); sim_end(0, 0); return (DIR *)mkdirp(fd, n);
}
EXPORT DIR *fdopendir(int fd) {
  Ofd *o = fdget(fd); Fault f = sim_begin(C_DIR, "fdopendir", o, NULL); if (f.kind == F_ERRNO) FAILP(f.val);
  if (!o || !o->ino || o->ino->type != T_DIR) FAILP(ENOTDIR);
  sim_end(0, 0); return (DIR *)mkdirp(fd, o->ino);
}
EXPORT struct dirent64 *readdir64(DIR *d) {
  SDir *s = (SDir *)d; Fault f = sim_begin(C_DIR, "readdir", NULL, NULL); if (f.kind == F_ERRNO) FAILP(f.val == EMFILE ? EIO : f.val);
  if (s->pos >= s->n) { sim_end(0, 0); return NULL; }
  memset(&s->ent, 0, sizeof s->ent); s->ent.d_ino = s->ids[s->pos]; s->ent.d_off = s->pos + 1; s->ent.d_reclen = sizeof s->ent; s->ent.d_type = s->types[s->pos]; strcpy(s->ent.d_name, s->names[s->pos]); s->pos++;
  sim_end(1, 0); return &s->ent;
}
EXPORT struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
EXPORT int closedir(DIR *d) { SDir *s = (SDir *)d; sim_begin(C_CLOSE, "closedir", NULL, NULL); if (fdget(s->fd)) fd_close(s->fd); for (int i = 0; i < s->n; i++) free(s->names[i]); free(s->names); free(s->ids); free(s->types); free(s); RET(0); }
EXPORT int dirfd(DIR *d) { return ((SDir *)d)->fd; }
EXPORT void rewinddir(DIR *d) { ((SDir *)d)->pos = 0; }

/* ------------------------------------------------------------------ in-kernel copies */
static long kcopy(int ofd, int ifd, size_t n, off64_t *io, off64_t *oo, const char *name) {
  Ofd *a = fdget(ifd), *b = fdget(ofd); Fault f = sim_begin(C_COPY, name, b, NULL); if (!a || !b) FAIL(EBADF);
  if (f.kind == F_ERRNO) FAIL(f.val);
  if (a->kind != O_FILE) FAIL(EINVAL);
  if (b->kind == O_PIPEW || b->kind == O_SOCK) FAIL(EINVAL);
  u64 ip = io ? (u64)*io : a->off; if (ip >= a->ino->len) RET(0);
  size_t m = a->ino->len - ip; if (m > n) m = n;
  if (f.kind == F_SHORT && f.val > 0 && (size_t)f.val < m) m = f.val;
  else if ((K.copyrange == 3 || K.fshort) && m > 1 && rndn(R_CHUNK, 2)) m = 1 + rndn(R_CHUNK, m);
  u8 *t = xmalloc(m); memcpy(t, a->ino->data + ip, m);
  u64 so = b->off; if (oo) b->off = *oo;
  long r = o_write(b, t, m, 0); free(t);
  if (oo) { b->off = so; if (r > 0) *oo += r; }
  if (r < 0) FAIL(-r);
  if (io) *io += r; else a->off += r;
  RET(r);
}
long sim_copy_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned fl_) {
  (void)fl_; if (K.copyrange == 0) { errno = ENOSYS; return -1; } if (K.copyrange == 2) { errno = EXDEV; return -1; }
  return kcopy(b, a, n, ao, bo, "copy_file_range");
}
EXPORT ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned fl_) { return sim_copy_range(a, ao, b, bo, n, fl_); }
EXPORT ssize_t sendfile64(int out, int in, off64_t *off, size_t n) { if (K.copyrange == 2) { errno = EINVAL; return -1; } return kcopy(out, in, n, off, NULL, "sendfile"); }
EXPORT ssize_t sendfile(int out, int in, off_t *off, size_t n) { return sendfile64(out, in, off, n); }
EXPORT ssize_t splice(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned fl_) { (void)a; (void)ao; (void)b; (void)bo; (void)n; (void)fl_; errno = EINVAL; return -1; }

/* ------------------------------------------------------------------ descriptors */
EXPORT int dup(int fd) { Ofd *o = fdget(fd); Fault f = sim_begin(C_PIPE, "dup", o, NULL); if (f.kind == F_ERRNO) FAIL(EMFILE); if (!o) FAIL(EBADF); RET(fd_alloc(o, 0, 0)); }
EXPORT int dup3(int a, int b, int fl) {
  if (a == b) { errno = EINVAL; return -1; }
  Ofd *o = fdget(a); sim_begin(C_CLOSE, "dup2", o, NULL); if (!o || b < 0 || b >= MAXFD) FAIL(EBADF);
  oref(o); if (fds[b].o) fd_close(b); fds[b].o = o; fds[b].cloexec = !!(fl & O_CLOEXEC); if (!g_child_mode) rsys(SYS_dup2, NULL_FD, b); RET(b);
}
EXPORT int dup2(int a, int b) { if (a == b) { if (!fdget(a)) { errno = EBADF; return -1; } return b; } return dup3(a, b, 0); }
EXPORT int pipe2(int p[2], int fl) {
  Fault f = sim_begin(C_PIPE, "pipe2", NULL, NULL); if (f.kind == F_ERRNO) FAIL(f.val);
  Pipe *q = pnew(); q->readers = q->writers = 1;
  Ofd *r = onew(O_PIPER), *w = onew(O_PIPEW); r->p = w->p = q; r->flags = O_RDONLY | (fl & O_NONBLOCK); w->flags = O_WRONLY | (fl & O_NONBLOCK);
  p[0] = fd_alloc(r, 0, !!(fl & O_CLOEXEC)); p[1] = fd_alloc(w, 0, !!(fl & O_CLOEXEC)); RET(0);
}
EXPORT int pipe(int p[2]) { return pipe2(p, 0); }
EXPORT int socketpair(int dom, int type, int proto, int sv[2]) {
  (void)dom; (void)proto; Fault f = sim_begin(C_PIPE, "socketpair", NULL, NULL); if (f.kind == F_ERRNO) FAIL(f.val);
  Pipe *a = pnew(), *b = pnew(); a->readers = a->writers = b->readers = b->writers = 1;
  Ofd *x = onew(O_SOCK), *y = onew(O_SOCK); x->p = a; x->p2 = b; y->p = b; y->p2 = a; x->flags = y->flags = O_RDWR | ((type & SOCK_NONBLOCK) ? O_NONBLOCK : 0);
  sv[0] = fd_alloc(x, 0, !!(type & SOCK_CLOEXEC)); sv[1] = fd_alloc(y, 0, !!(type & SOCK_CLOEXEC)); RET(0);
}
static int do_fcntl(int fd, int cmd, long arg) {
  Ofd *o = fdget(fd); if (!o) { errno = EBADF; return -1; }
  switch (cmd) {
  case F_GETFD: return fds[fd].cloexec ? FD_CLOEXEC : 0;
  case F_SETFD: fds[fd].cloexec = arg & FD_CLOEXEC; return 0;
  case F_GETFL: return o->flags;
  case F_SETFL: o->flags = (o->flags & ~(O_NONBLOCK | O_APPEND)) | (arg & (O_NONBLOCK | O_APPEND)); return 0;
  case F_DUPFD: case F_DUPFD_CLOEXEC: { Fault f = sim_begin(C_PIPE, "dupfd", o, NULL); if (f.kind == F_ERRNO) FAIL(EMFILE); RET(fd_alloc(o, arg, cmd == F_DUPFD_CLOEXEC)); }
  case F_SETLK: case F_SETLKW: case F_OFD_SETLK: case F_OFD_SETLKW: return 0;
  }
  errno = EINVAL; return -1;
}
EXPORT int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
EXPORT int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
typedef struct { struct pollfd *p; nfds_t n; } PA;
static int poll_scan(struct pollfd *p, nfds_t n) {
  int k = 0;
  for (nfds_t i = 0; i < n; i++) {
    p[i].revents = 0; if (p[i].fd < 0) continue;
    Ofd *o = fdget(p[i].fd); if (!o) { p[i].revents = POLLNVAL; k++; continue; }
    if ((p[i].events & POLLIN) && o_readable(o, 0)) p[i].revents |= POLLIN;
    if ((p[i].events & POLLOUT) && o_writable(o)) p[i].revents |= POLLOUT;
    if (o->kind == O_PIPER && !o->p->writers) p[i].revents |= POLLHUP;
    if (o->kind == O_PIPEW && !o->p->readers) p[i].revents |= POLLERR;
    if (p[i].revents) k++;
  }
  return k;
}
/* ------------------------------------------------------------------ epoll */
#define MAXREG 32
typedef struct Epoll { struct { int fd; Ofd *o; u32 ev; u64 data; u64 seen; } r[MAXREG]; int n; } Epoll;
static u64 ep_gen(Ofd *o) { return o->kind == O_TTY ? TT.gen : o->p ? o->p->gen + (o->p->writers == 0) : 0; }
static int ep_scan(Epoll *e, struct epoll_event *out, int max) {
  int k = 0;
  for (int i = 0; i < e->n && k < max; i++) {
    Ofd *o = e->r[i].o; u32 got = 0;
    if ((e->r[i].ev & EPOLLIN) && o_readable(o, 0) && (!(e->r[i].ev & EPOLLET) || ep_gen(o) != e->r[i].seen)) got |= EPOLLIN;
    if ((e->r[i].ev & EPOLLOUT) && o_writable(o) && !(e->r[i].ev & EPOLLET)) got |= EPOLLOUT;
    if (!got) continue;
    if (out) { out[k].events = got; out[k].data.u64 = e->r[i].data; e->r[i].seen = ep_gen(o); }
    k++;
  }
  return k;
}
static int p_epoll(void *v) { return ep_scan(v, NULL, MAXREG) > 0; }
EXPORT int epoll_create1(int fl) {
  Fault f = sim_begin(C_PIPE, "epoll_create", NULL, NULL); if (f.kind == F_ERRNO) FAIL(f.val);
  Ofd *o = onew(O_EPOLL); o->ep = xcalloc(1, sizeof(Epoll)); o->flags = O_RDWR; int fd = fd_alloc(o, 3, !!(fl & EPOLL_CLOEXEC)); if (fd < 0) FAIL(EMFILE); RET(fd);
}
EXPORT int epoll_create(int n) { (void)n; return epoll_create1(0); }
EXPORT int epoll_ctl(int epfd, int op, int fd, struct epoll_event *ev) {
  Ofd *e = fdget(epfd), *o = fdget(fd);
  if (!e || !o) { errno = EBADF; return -1; }
  if (e->kind != O_EPOLL) { errno = EINVAL; return -1; }
  if (o->kind == O_FILE || o->kind == O_DIRD || o->kind == O_NULLD) { errno = EPERM; return -1; }
  Epoll *p = e->ep; int i = 0; while (i < p->n && p->r[i].fd != fd) i++;
  if (op == EPOLL_CTL_ADD) { if (i < p->n) { errno = EEXIST; return -1; } if (i == MAXREG) { errno = ENOSPC; return -1; } p->n++; }
  else if (i == p->n) { errno = ENOENT; return -1; }
  if (op == EPOLL_CTL_DEL) { p->r[i] = p->r[--p->n]; return 0; }
  p->r[i].fd = fd; p->r[i].o = o; p->r[i].ev = ev->events; p->r[i].data = ev->data.u64; p->r[i].seen = ~0ULL;
  return 0;
}
EXPORT int epoll_wait(int epfd, struct epoll_event *out, int max, int to) {
  Ofd *o = fdget(epfd); sim_begin(C_WAIT + 100, "epoll_wait", o, NULL);
  if (!o || o->kind != O_EPOLL) FAIL(EBADF);
  int k = ep_scan(o->ep, out, max); if (k || to == 0) RET(k);
  int r = sim_block(p_epoll, o->ep, to < 0 ? -1 : g_now + to * 1000000LL, 1);
  if (r == -EINTR) FAIL(EINTR);
  RET(ep_scan(o->ep, out, max));
}
EXPORT int epoll_pwait(int epfd, struct epoll_event *out, int max, int to, const sigset_t *s) { (void)s; return epoll_wait(epfd, out, max, to); }
static int p_poll(void *v) { PA *a = v; return poll_scan(a->p, a->n) > 0; }
int tty_wait_pred(Pred p, void *arg, i64 deadline) {
  if (p == p_rd) return ((Ofd *)arg)->kind == O_TTY && !tty_avail();
  if (p == p_epoll && deadline < 0) { Epoll *e = arg; for (int i = 0; i < e->n; i++) if (e->r[i].o->kind == O_TTY && (e->r[i].ev & EPOLLIN) && !tty_avail()) return 1; }
  if (p == p_poll && deadline < 0) { PA *a = arg; for (nfds_t i = 0; i < a->n; i++) { Ofd *o = a->p[i].fd >= 0 ? fdget(a->p[i].fd) : NULL; if (o && o->kind == O_TTY && (a->p[i].events & POLLIN) && !tty_avail()) return 1; } }
  return 0;
}
EXPORT int poll(struct pollfd *p, nfds_t n, int to) {
  sim_begin(C_WAIT + 100, "poll", NULL, NULL);
  PA a = {p, n}; int k = poll_scan(p, n);
  if (k || to == 0) RET(k);
  int r = sim_block(p_poll, &a, to < 0 ? -1 : g_now + to * 1000000LL, 1);
  if (r == -EINTR) FAIL(EINTR);
  RET(poll_scan(p, n));
}
EXPORT int ppoll(struct pollfd *p, nfds_t n, const struct timespec *t, const sigset_t *s) { (void)s; return poll(p, n, t ? t->tv_sec * 1000 + t->tv_nsec / 1000000 : -1); }

/* ------------------------------------------------------------------ terminals */
EXPORT int isatty(int fd) { Ofd *o = fdget(fd); if (!o) { errno = EBADF; return 0; } if (o->kind != O_TTY) { errno = ENOTTY; return 0; } return 1; }
EXPORT int tcgetattr(int fd, struct termios *t) { Ofd *o = fdget(fd); Fault f = sim_begin(C_TTYCTL, "tcgetattr", o, NULL); if (!o) FAIL(EBADF); if (o->kind != O_TTY) FAIL(ENOTTY); if (f.kind == F_ERRNO) FAIL(f.val); *t = TT.t; RET(0); }
EXPORT int tcsetattr(int fd, int act, const struct termios *t) {
  Ofd *o = fdget(fd); Fault f = sim_begin(C_TTYCTL, "tcsetattr", o, NULL); if (!o) FAIL(EBADF); if (o->kind != O_TTY) FAIL(ENOTTY); if (f.kind == F_ERRNO) FAIL(f.val);
  if (act == TCSAFLUSH) TT.n = 0;
  if (TT.t.c_lflag != t->c_lflag) tr("Y %lld %s-%s%s\n", (long long)g_now, (t->c_lflag & ICANON) ? "cooked" : "raw", (t->c_lflag & ECHO) ? "echo" : "noecho", (t->c_lflag & ISIG) ? "" : "-nosig");
  TT.t = *t; tr("YH %llx\n", (unsigned long long)tty_hash()); RET(0);
}
EXPORT int tcflush(int fd, int q) { (void)fd; if (q != TCOFLUSH) TT.n = 0; return 0; }
EXPORT int tcdrain(int fd) { (void)fd; return 0; }
EXPORT pid_t tcgetpgrp(int fd) { (void)fd; return TT.fg; }
EXPORT int tcsetpgrp(int fd, pid_t p) { (void)fd; TT.fg = p; return 0; }
EXPORT int ioctl(int fd, unsigned long rq, ...) {
  va_list ap; va_start(ap, rq); void *a = va_arg(ap, void *); va_end(ap);
  Ofd *o = fdget(fd); if (!o) { errno = EBADF; return -1; }
  switch (rq) {
  case TIOCGWINSZ: if (o->kind != O_TTY) { errno = ENOTTY; return -1; } { struct winsize w = {TT.rows, TT.cols, 0, 0}; memcpy(a, &w, sizeof w); } return 0;
  case FIONBIO: if (*(int *)a) o->flags |= O_NONBLOCK; else o->flags &= ~O_NONBLOCK; return 0;
  case FIOCLEX: fds[fd].cloexec = 1; return 0;
  case FIONREAD: *(int *)a = o->kind == O_PIPER ? (int)o->p->len : o->kind == O_TTY ? (int)TT.n : 0; return 0;
  case TCGETS: return tcgetattr(fd, a);
  }
  errno = ENOTTY; return -1;
}
