#include "sim.h"
#include <dlfcn.h>
#include <spawn.h>
#include <sys/wait.h>
#include <sys/resource.h>

Child *children[MAXCHILD];
int nchildren;
static int next_pid = 2001;
extern char *envprefix;
extern char **environ;
#define RET(r) do { long r_ = (r); sim_end(r_, 0); return r_; } while (0)
#define FAIL(e) do { int e_ = (e); sim_end(-1, e_); errno = e_; return -1; } while (0)

enum { X_OUT, X_ERR, X_GEN, X_CAT, X_HEAD, X_LINE, X_SINK, X_COUNT, X_XOR, X_SLEEP, X_MK, X_APP, X_RM, X_MKDIR, X_MV, X_CHMOD, X_CLOSEIN, X_CLOSEOUT, X_EXIT, X_DIE, X_IGNINT, X_PAUSE, X_YIELD, X_LN, X_WHEN };
static const char *opn[] = {"out", "err", "gen", "cat", "head", "line", "sink", "count", "xor", "sleep", "mk", "app", "rm", "mkdir", "mv", "chmod", "closein", "closeout", "exit", "die", "ignint", "pause", "yield", "ln", "when"};

static void parse_ops(Child *c, const char *text) {
  char *t = xstrdup(text), *sv = NULL; int cap = 16; c->ops = xcalloc(cap, sizeof(Op));
  for (char *w = strtok_r(t, " \n\t", &sv); w; w = strtok_r(NULL, " \n\t", &sv)) {
    int code = -1; for (int i = 0; i < (int)(sizeof opn / sizeof *opn); i++) if (!strcmp(w, opn[i])) code = i;
    if (code < 0) { if (!strcmp(w, "#!sim")) continue; tr("U badop %s\n", w); continue; }
    if (c->nops == cap) { c->ops = realloc(c->ops, (cap *= 2) * sizeof(Op)); }
    Op *o = &c->ops[c->nops++]; memset(o, 0, sizeof *o); o->code = code;
#define NX strtok_r(NULL, " \n\t", &sv)
    switch (code) {
    case X_OUT: case X_ERR: o->a = (char *)unhex(NX, &o->alen); break;
    case X_GEN: o->n = atol(NX); o->m = atol(NX); break;
    case X_HEAD: case X_XOR: case X_SLEEP: case X_EXIT: case X_DIE: o->n = atol(NX); break;
    case X_MK: case X_APP: o->a = xstrdup(NX); o->b = (char *)unhex(NX, &o->blen); break;
    case X_RM: case X_MKDIR: case X_WHEN: o->a = xstrdup(NX); break;
    case X_MV: case X_LN: o->a = xstrdup(NX); o->b = xstrdup(NX); break;
    case X_CHMOD: o->a = xstrdup(NX); o->n = strtol(NX, NULL, 8); break;
    }
  }
  free(t);
}
static Child *cnew(void) {
  if (nchildren >= MAXCHILD) return NULL;
  Child *c = xcalloc(1, sizeof *c); c->pid = next_pid++; c->alive = 1; c->wake = 0; c->prio = 1 + rndn(R_SCHED, 8); c->pgrp = 1000; children[nchildren++] = c; return c;
}
Child *start_actor(const char *prog) { Child *c = cnew(); c->actor = 1; c->cwd = vroot; parse_ops(c, prog); return c; }
static void cexit(Child *c, int status) {
  c->alive = 0; c->status = status; c->wake = 0;
  for (int i = 0; i < 3; i++) if (c->fd[i]) { ounref(c->fd[i]); c->fd[i] = NULL; }
  tr("C %d exit %d now %lld\n", c->pid, status, (long long)g_now);
}
void child_signal(Child *c, int sig) {
  if (!c->alive) return;
  if (sig == SIGINT && c->ignint) return;
  if (sig == 0) return;
  cexit(c, sig & 127);
}
int child_runnable(Child *c) {
  if (c->wake > g_now) return 0;
  if (c->bpos < c->blen) { Ofd *o = c->fd[c->outfd]; return !o || o_writable(o); }
  if (c->pc >= c->nops) return 1;
  switch (c->ops[c->pc].code) {
  case X_CAT: case X_HEAD: case X_LINE: case X_SINK: case X_COUNT: case X_XOR:
    if (c->ops[c->pc].code == X_HEAD && (u64)c->ops[c->pc].n <= c->cnt) return 1;
    return !c->fd[0] || o_readable(c->fd[0], c->pid);
  case X_PAUSE: return 0;
  case X_WHEN: { /* until the shell has this file open */
    Look l; if (vlookup(c->cwd, c->ops[c->pc].a, 1, &l) || !l.node) return 0;
    for (int i = 3; i < MAXFD; i++) if (fds[i].o && fds[i].o->ino == l.node) return 1;
    return 0;
  }
  }
  return 1;
}
int child_ttywait(Child *c) {
  if (c->wake > g_now || c->bpos < c->blen || c->pc >= c->nops || !c->fd[0] || c->fd[0]->kind != O_TTY) return 0;
  switch (c->ops[c->pc].code) { case X_CAT: case X_HEAD: case X_LINE: case X_SINK: case X_COUNT: case X_XOR: return !o_readable(c->fd[0], c->pid); }
  return 0;
}
static void pend(Child *c, const void *p, size_t n, int fd) {
  if (c->bcap < n) { c->buf = realloc(c->buf, n + 1); c->bcap = n; }
  memcpy(c->buf, p, n); c->blen = n; c->bpos = 0; c->outfd = fd;
}
static void next(Child *c) { c->pc++; c->cnt = 0; c->started = 0; }
void child_step(Child *c) {
  if (c->bpos < c->blen) {
    Ofd *o = c->fd[c->outfd];
    if (!o) { c->bpos = c->blen = 0; return; }
    size_t n = c->blen - c->bpos; size_t lim = 1 + rndn(R_CHUNK, 16384); if (K.chunk == 2) lim = 1 + rndn(R_CHUNK, 64); if (n > lim) n = lim;
    long r = o_write(o, c->buf + c->bpos, n, c->pid);
    if (r == -EAGAIN && n > 1) { r = o_write(o, c->buf + c->bpos, 1, c->pid); }
    if (r == -EPIPE) { tr("C %d sigpipe\n", c->pid); cexit(c, SIGPIPE); return; }
    if (r > 0) { c->bpos += r; if (o->kind == O_PIPEW) tr("W %d %ld\n", c->pid, r); }
    else if (r < 0 && r != -EAGAIN) { cexit(c, 1 << 8); }
    return;
  }
  c->blen = c->bpos = 0;
  if (c->pc >= c->nops) { if (c->actor) { c->alive = 0; return; } cexit(c, 0); return; }
  Op *o = &c->ops[c->pc];
  switch (o->code) {
  case X_OUT: next(c); pend(c, o->a, o->alen, 1); break;
  case X_ERR: next(c); pend(c, o->a, o->alen, 2); break;
  case X_GEN: {
    size_t n = o->n; u8 *b = xmalloc(n + 1); u64 s = o->m;
    for (size_t i = 0; i < n; i++) { s = s * 6364136223846793005ULL + 1442695040888963407ULL; u8 x = s >> 56; b[i] = o->m % 2 ? x : (x % 37 == 0 ? '\n' : 'a' + x % 26); }
    next(c); pend(c, b, n, 1); free(b); break;
  }
  case X_CAT: case X_HEAD: case X_LINE: case X_SINK: case X_COUNT: case X_XOR: {
    u8 b[8192]; size_t n = 1 + rndn(R_CHUNK, sizeof b); if (K.chunk == 2) n = 1 + rndn(R_CHUNK, 32);
    if (o->code == X_HEAD) { if ((u64)o->n <= c->cnt) { next(c); break; } if (n > (u64)o->n - c->cnt) n = o->n - c->cnt; }
    if (o->code == X_LINE) n = 1;
    long r = c->fd[0] ? o_read(c->fd[0], b, n, c->pid) : 0;
    if (r == -EAGAIN) break;
    if (r < 0) r = 0;
    if (r > 0) { tr("R %d ", c->pid); tr_hex(b, r); tr("\n"); } else tr("R %d eof\n", c->pid);
    c->cnt += r;
    if (r == 0) {
      if (o->code == X_COUNT) { char t[32]; int k = snprintf(t, sizeof t, "%llu\n", (unsigned long long)c->cnt); next(c); pend(c, t, k, 1); } else next(c);
      break;
    }
    if (o->code == X_XOR) for (long i = 0; i < r; i++) b[i] ^= o->n;
    if (o->code == X_CAT || o->code == X_HEAD || o->code == X_XOR) pend(c, b, r, 1);
    if (o->code == X_LINE && b[0] == '\n') next(c);
    break;
  }
  case X_SLEEP: if (!c->started) { c->started = 1; c->wake = g_now + o->n * 1000000LL; } else { c->wake = 0; next(c); } break;
  case X_MK: case X_APP: {
    Inode *n; int e = vopen(c->cwd, o->a, O_WRONLY | O_CREAT | (o->code == X_MK ? O_TRUNC : 0), 0644, &n); size_t d;
    if (!e) e = vwrite(n, o->code == X_MK ? 0 : n->len, o->b, o->blen, &d);
    tr("A %d %s %s %d\n", c->pid, opn[o->code], o->a, e); next(c); break;
  }
  case X_RM: { int e = vunlink(c->cwd, o->a, 0); if (e == EISDIR) e = vunlink(c->cwd, o->a, 1); tr("A %d rm %s %d\n", c->pid, o->a, e); next(c); break; }
  case X_MKDIR: { int e = vmkdir(c->cwd, o->a, 0755); tr("A %d mkdir %s %d\n", c->pid, o->a, e); next(c); break; }
  case X_MV: { int e = vrename(c->cwd, o->a, c->cwd, o->b, 0); tr("A %d mv %s %d\n", c->pid, o->a, e); next(c); break; }
  case X_LN: { Look l; int e = vlookup(c->cwd, o->b, 0, &l); if (!e && !l.node) { Inode *n = vnew(T_LINK, 0777); n->target = xstrdup(o->a); dadd(l.dir, l.last, n); } next(c); break; }
  case X_CHMOD: { Look l; if (!vlookup(c->cwd, o->a, 1, &l) && l.node) l.node->mode = o->n; next(c); break; }
  case X_CLOSEIN: if (c->fd[0]) { ounref(c->fd[0]); c->fd[0] = NULL; } next(c); break;
  case X_CLOSEOUT: if (c->fd[1]) { ounref(c->fd[1]); c->fd[1] = NULL; } next(c); break;
  case X_EXIT: cexit(c, (o->n & 255) << 8); break;
  case X_DIE: cexit(c, o->n & 127); break;
  case X_IGNINT: c->ignint = 1; next(c); break;
  case X_YIELD: case X_WHEN: next(c); break;
  }
}

/* ------------------------------------------------------------------ exec resolution */
static int try_exec(Inode *cwd, const char *path, Inode **out) {
  Look l; int e = vlookup(cwd, path, 1, &l); if (e) return e; if (!l.node) return ENOENT;
  if (l.node->type != T_FILE || vperm(l.node, 1)) return EACCES;
  if (l.node->len < 5 || memcmp(l.node->data, "#!sim", 5)) return ENOEXEC;
  *out = l.node; return 0;
}
static int resolve(const char *file, const char *path, Inode *cwd, Inode **out) {
  if (!*file) return ENOENT;
  if (strchr(file, '/')) return try_exec(cwd, file, out);
  if (strlen(file) > 255) return ENAMETOOLONG;
  if (!path) path = "/bin:/usr/bin";
  int acc = 0; const char *p = path;
  for (;;) {
    const char *e = strchr(p, ':'); size_t n = e ? (size_t)(e - p) : strlen(p); char b[5000];
    if (n + strlen(file) + 2 < sizeof b) {
      memcpy(b, p, n); b[n] = 0; if (n) strcat(b, "/"); strcat(b, file);
      int r = try_exec(cwd, b, out);
      if (r == 0) return 0;
      if (r == EACCES) acc = 1;
      else if (r != ENOENT && r != ENOTDIR && r != ENAMETOOLONG) return r;
    }
    if (!e) break;
    p = e + 1;
  }
  return acc ? EACCES : ENOENT;
}
static void log_exec(int pid, const char *file, char *const argv[], char *const envp[], Inode *cwd, Ofd *f0, Ofd *f1, Ofd *f2) {
  char *cp = vpath(cwd); int n = 0; while (argv[n]) n++;
  tr("P %d ", pid); tr_hex(file, strlen(file)); tr(" "); if (cp) tr_hex(cp, strlen(cp)); else tr("!"); tr(" %d:%d %d:%d %d:%d %d", f0 ? f0->kind : 0, f0 ? f0->id : 0, f1 ? f1->kind : 0, f1 ? f1->id : 0, f2 ? f2->kind : 0, f2 ? f2->id : 0, n);
  for (int i = 0; i < n; i++) { tr(" "); tr_hex(argv[i], strlen(argv[i])); }
  int tot = 0; u64 h = 1469598103934665603ULL;
  for (int i = 0; envp && envp[i]; i++) {
    tot++; for (char *s = envp[i]; *s; s++) { h ^= (u8)*s; h *= 1099511628211ULL; }
    if (envprefix && (!strncmp(envp[i], envprefix, strlen(envprefix)) || !strncmp(envp[i], "CWD=", 4) || !strncmp(envp[i], "HOME=", 5) || !strncmp(envp[i], "PATH=", 5))) { tr(" E"); tr_hex(envp[i], strlen(envp[i])); }
  }
  tr(" # %d\n", tot); (void)h; free(cp);
}
static int arg_limits(char *const argv[], char *const envp[]) {
  size_t t = 0;
  for (int i = 0; argv[i]; i++) { size_t l = strlen(argv[i]) + 1; if (l > 131072) return E2BIG; t += l + 8; }
  for (int i = 0; envp && envp[i]; i++) { size_t l = strlen(envp[i]) + 1; if (l > 131072) return E2BIG; t += l + 8; }
  return t > 2097152 ? E2BIG : 0;
}
static void cstart(Child *c, Inode *img, Inode *cwd, Ofd *f0, Ofd *f1, Ofd *f2) {
  char *t = xmalloc(img->len + 1); memcpy(t, img->data, img->len); t[img->len] = 0; parse_ops(c, t); free(t);
  c->cwd = cwd; cwd->opens++; if (sig_disposition(SIGINT, NULL) == 1) c->ignint = 1;
  c->fd[0] = f0; c->fd[1] = f1; c->fd[2] = f2; for (int i = 0; i < 3; i++) if (c->fd[i]) oref(c->fd[i]);
}
int spawn_child(const char *file, int usepath, char *const argv[], char *const envp[], Inode *cwd, Ofd *f0, Ofd *f1, Ofd *f2, int *pid) {
  Inode *img = NULL; int e = arg_limits(argv, envp);
  if (!e) e = usepath ? resolve(file, getenv("PATH"), cwd, &img) : try_exec(cwd, file, &img);
  if (e) { tr("P0 "); tr_hex(file, strlen(file)); tr(" %d\n", e); return e; }
  Child *c = cnew(); if (!c) return EAGAIN;
  cstart(c, img, cwd, f0, f1, f2);
  log_exec(c->pid, file, argv, envp, cwd, f0, f1, f2);
  *pid = c->pid; return 0;
}

/* ------------------------------------------------------------------ posix_spawn */
typedef struct { int n; struct { int kind, a, b, fl, mode; char *p; } x[64]; } FA;
static FA *fa(const posix_spawn_file_actions_t *a) { FA *f; memcpy(&f, a, sizeof f); return f; }
EXPORT int posix_spawn_file_actions_init(posix_spawn_file_actions_t *a) { FA *f = xcalloc(1, sizeof *f); memset(a, 0, sizeof *a); memcpy(a, &f, sizeof f); return 0; }
EXPORT int posix_spawn_file_actions_destroy(posix_spawn_file_actions_t *a) { FA *f = fa(a); for (int i = 0; i < f->n; i++) free(f->x[i].p); free(f); return 0; }
EXPORT int posix_spawn_file_actions_adddup2(posix_spawn_file_actions_t *a, int x, int y) { FA *f = fa(a); f->x[f->n].kind = 1; f->x[f->n].a = x; f->x[f->n++].b = y; return 0; }
EXPORT int posix_spawn_file_actions_addclose(posix_spawn_file_actions_t *a, int x) { FA *f = fa(a); f->x[f->n].kind = 2; f->x[f->n++].a = x; return 0; }
EXPORT int posix_spawn_file_actions_addopen(posix_spawn_file_actions_t *restrict a, int x, const char *restrict p, int fl, mode_t m) { FA *f = fa(a); f->x[f->n].kind = 3; f->x[f->n].a = x; f->x[f->n].fl = fl; f->x[f->n].mode = m; f->x[f->n++].p = xstrdup(p); return 0; }
EXPORT int posix_spawn_file_actions_addchdir_np(posix_spawn_file_actions_t *restrict a, const char *restrict p) { FA *f = fa(a); f->x[f->n].kind = 4; f->x[f->n++].p = xstrdup(p); return 0; }
EXPORT int posix_spawn_file_actions_addchdir(posix_spawn_file_actions_t *restrict a, const char *restrict p) { return posix_spawn_file_actions_addchdir_np(a, p); }
EXPORT int posix_spawn_file_actions_addfchdir_np(posix_spawn_file_actions_t *a, int d) { FA *f = fa(a); f->x[f->n].kind = 5; f->x[f->n++].a = d; return 0; }
EXPORT int posix_spawnattr_init(posix_spawnattr_t *a) { memset(a, 0, sizeof *a); return 0; }
EXPORT int posix_spawnattr_destroy(posix_spawnattr_t *a) { (void)a; return 0; }
typedef struct { short flags; pid_t pgrp; int defint; } SA;
EXPORT int posix_spawnattr_setflags(posix_spawnattr_t *a, short f) { ((SA *)a)->flags = f; return 0; }
EXPORT int posix_spawnattr_setpgroup(posix_spawnattr_t *a, pid_t p) { ((SA *)a)->pgrp = p; return 0; }
EXPORT int posix_spawnattr_setsigmask(posix_spawnattr_t *restrict a, const sigset_t *restrict s) { (void)a; (void)s; return 0; }
EXPORT int posix_spawnattr_setsigdefault(posix_spawnattr_t *restrict a, const sigset_t *restrict s) { ((SA *)a)->defint = sigismember(s, SIGINT); return 0; }
EXPORT int posix_spawnattr_setcgroup_np(posix_spawnattr_t *a, int c) { (void)a; (void)c; return 0; }
static int do_spawn(pid_t *pid, const char *file, const posix_spawn_file_actions_t *a, const posix_spawnattr_t *at, char *const argv[], char *const envp[], int usepath) {
  char e256[256]; snprintf(e256, sizeof e256, "%s", file);
  Fault f = sim_begin(C_SPAWN, "spawn", NULL, e256);
  if (f.kind == F_ERRNO) { sim_end(-1, f.val); return f.val; }
  Ofd *t[MAXFD]; int ce[MAXFD]; for (int i = 0; i < MAXFD; i++) { t[i] = fds[i].o; ce[i] = fds[i].cloexec; }
  Inode *cwd = vcwd; FA *x = a ? fa(a) : NULL; int e = 0;
  for (int i = 0; x && i < x->n && !e; i++) switch (x->x[i].kind) {
    case 1: if (x->x[i].a >= MAXFD || !t[x->x[i].a]) e = EBADF; else { t[x->x[i].b] = t[x->x[i].a]; ce[x->x[i].b] = 0; } break;
    case 2: t[x->x[i].a] = NULL; break;
    case 3: { Inode *n; e = vopen(cwd, x->x[i].p, x->x[i].fl, x->x[i].mode, &n); if (!e) { Ofd *o = onew(n->type == T_NULL ? O_NULLD : O_FILE); o->ino = n; n->opens++; o->flags = x->x[i].fl; t[x->x[i].a] = o; ce[x->x[i].a] = 0; } break; }
    case 4: { Look l; e = vlookup(cwd, x->x[i].p, 1, &l); if (!e && !l.node) e = ENOENT; if (!e && l.node->type != T_DIR) e = ENOTDIR; if (!e && vperm(l.node, 1)) e = EACCES; if (!e) cwd = l.node; break; }
    case 5: { Ofd *o = fdget(x->x[i].a); if (!o || !o->ino) e = EBADF; else cwd = o->ino; break; }
    }
  int p = 0;
  if (!e) { for (int i = 0; i < MAXFD; i++) if (ce[i]) t[i] = NULL; e = spawn_child(file, usepath, argv, envp ? envp : environ, cwd, t[0], t[1], t[2], &p); }
  else { tr("P0 "); tr_hex(file, strlen(file)); tr(" %d\n", e); }
  if (e) { sim_end(-1, e); return e; }
  for (int i = 3; i < MAXFD; i++) if (t[i] && (t[i]->kind == O_PIPER || t[i]->kind == O_PIPEW)) { tr("U leakfd %d\n", i); }
  const SA *sa = (const SA *)at; Child *c = children[nchildren - 1];
  if (sa && (sa->flags & POSIX_SPAWN_SETPGROUP)) c->pgrp = sa->pgrp ? sa->pgrp : p;
  if (sa && (sa->flags & POSIX_SPAWN_SETSID)) c->pgrp = p;
  if (sa && (sa->flags & POSIX_SPAWN_SETSIGDEF) && sa->defint) c->ignint = 0; /* what the shell ignores is ignored by its programs, too */
  *pid = p; sim_end(p, 0); return 0;
}
EXPORT int posix_spawnp(pid_t *restrict pid, const char *restrict file, const posix_spawn_file_actions_t *a, const posix_spawnattr_t *restrict at, char *const argv[restrict], char *const envp[restrict]) { return do_spawn(pid, file, a, at, argv, envp, 1); }
EXPORT int posix_spawn(pid_t *restrict pid, const char *restrict file, const posix_spawn_file_actions_t *a, const posix_spawnattr_t *restrict at, char *const argv[restrict], char *const envp[restrict]) { return do_spawn(pid, file, a, at, argv, envp, 0); }

/* ------------------------------------------------------------------ fork + exec (used when PATH is overridden) */
static int proxy_fd = -1;
static void psend(const void *p, size_t n) { const char *s = p; while (n) { long r = rsys(SYS_write, proxy_fd, s, n); if (r <= 0) rsys(SYS_exit_group, 94); s += r; n -= r; } }
void child_proxy_write(int fd, const void *p, size_t n) { char k = 'W'; Ofd *o = fdget(fd); psend(&k, 1); psend(&o, sizeof o); psend(&n, sizeof n); psend(p, n); }
static void psends(const char *s) { size_t n = strlen(s); psend(&n, sizeof n); psend(s, n); }
static int prd(int fd, void *p, size_t n) { char *s = p; while (n) { long r = rsys(SYS_read, fd, s, n); if (r <= 0) return 0; s += r; n -= r; } return 1; }
static char *prds(int fd) { size_t n; if (!prd(fd, &n, sizeof n)) abort(); char *s = xmalloc(n + 1); prd(fd, s, n); s[n] = 0; return s; }
EXPORT pid_t fork(void) {
  static pid_t (*rf)(void); if (!rf) rf = dlsym(RTLD_NEXT, "fork");
  Fault f = sim_begin(C_SPAWN, "fork", NULL, NULL); if (f.kind == F_ERRNO) FAIL(f.val);
  int pp[2]; if (rsys(SYS_pipe2, pp, 0) < 0) FAIL(EAGAIN);
  rsys(SYS_dup2, pp[0], 903); rsys(SYS_dup2, pp[1], 904); rsys(SYS_close, pp[0]); rsys(SYS_close, pp[1]);
  for (int i = 0; i < 2; i++) if (pp[i] < MAXFD && fds[pp[i]].o) rsys(SYS_dup2, 902, pp[i]);
  pid_t r = rf();
  if (r == 0) { g_child_mode = 1; proxy_fd = 904; return 0; }
  rsys(SYS_close, 904);
  Child *c = cnew(); int execd = 0; char k;
  while (prd(903, &k, 1)) {
    if (k == 'W') { Ofd *o; size_t n; prd(903, &o, sizeof o); prd(903, &n, sizeof n); char *b = xmalloc(n + 1); prd(903, b, n); if (o) o_write(o, b, n, c->pid); free(b); }
    else if (k == 'E') {
      Inode *img, *cwd; Ofd *o[3]; int na, ne; prd(903, &img, sizeof img); prd(903, &cwd, sizeof cwd); prd(903, o, sizeof o);
      char *file = prds(903); prd(903, &na, sizeof na); char **av = xcalloc(na + 1, sizeof *av); for (int i = 0; i < na; i++) av[i] = prds(903);
      prd(903, &ne, sizeof ne); char **ev = xcalloc(ne + 1, sizeof *ev); for (int i = 0; i < ne; i++) ev[i] = prds(903);
      cstart(c, img, cwd, o[0], o[1], o[2]); log_exec(c->pid, file, av, ev, cwd, o[0], o[1], o[2]); execd = 1;
    }
  }
  rsys(SYS_close, 903);
  siginfo_t si; rsys(SYS_waitid, P_PID, r, &si, WEXITED, NULL);
  if (!execd) { tr("P0 "); tr("- fork\n"); c->alive = 0; c->status = 1 << 8; }
  RET(c->pid);
}
static int do_exec(const char *file, char *const argv[], char *const envp[], int usepath) {
  if (!g_child_mode) { errno = ENOSYS; return -1; }
  Inode *img; const char *path = NULL;
  for (int i = 0; envp && envp[i]; i++) if (!strncmp(envp[i], "PATH=", 5)) path = envp[i] + 5;
  int e = arg_limits(argv, envp); if (!e) e = usepath ? resolve(file, path, vcwd, &img) : try_exec(vcwd, file, &img);
  if (e) { errno = e; return -1; }
  char k = 'E'; psend(&k, 1); psend(&img, sizeof img); psend(&vcwd, sizeof vcwd);
  Ofd *o[3]; for (int i = 0; i < 3; i++) o[i] = fds[i].o && !fds[i].cloexec ? fds[i].o : NULL;
  psend(o, sizeof o); psends(file);
  int n = 0; while (argv[n]) n++;
  psend(&n, sizeof n); for (int i = 0; i < n; i++) psends(argv[i]);
  n = 0; while (envp && envp[n]) n++;
  psend(&n, sizeof n); for (int i = 0; i < n; i++) psends(envp[i]);
  rsys(SYS_exit_group, 0); return -1;
}
EXPORT int execvp(const char *f, char *const a[]) { return do_exec(f, a, environ, 1); }
EXPORT int execv(const char *f, char *const a[]) { return do_exec(f, a, environ, 0); }
EXPORT int execve(const char *f, char *const a[], char *const e[]) { return do_exec(f, a, e, 0); }
EXPORT int execvpe(const char *f, char *const a[], char *const e[]) { return do_exec(f, a, e, 1); }
EXPORT int system(const char *c) { (void)c; tr("U system\n"); errno = ENOSYS; return -1; }

/* ------------------------------------------------------------------ waiting */
static Child *byp(int pid) { for (int i = 0; i < nchildren; i++) if (!children[i]->actor && children[i]->pid == pid) return children[i]; return NULL; }
static int p_dead(void *v) { Child *c = v; if (c) return !c->alive; for (int i = 0; i < nchildren; i++) if (!children[i]->actor && !children[i]->alive && !children[i]->reaped) return 1; return 0; }
EXPORT pid_t waitpid(pid_t pid, int *st, int opt) {
  char nm[32]; snprintf(nm, sizeof nm, "%d", pid);
  Fault f = sim_begin(C_WAIT, "waitpid", NULL, nm); if (f.kind == F_ERRNO) FAIL(f.val);
  Child *c = pid > 0 ? byp(pid) : NULL;
  if (pid > 0 && (!c || c->reaped)) FAIL(ECHILD);
  if (pid <= 0) { int any = 0; for (int i = 0; i < nchildren; i++) if (!children[i]->actor && !children[i]->reaped) any = 1; if (!any) FAIL(ECHILD); }
  if (!p_dead(c)) { if (opt & WNOHANG) RET(0); if (sim_block(p_dead, c, -1, 0) == -EINTR) FAIL(EINTR); }
  if (!c) for (int i = 0; i < nchildren; i++) if (!children[i]->actor && !children[i]->alive && !children[i]->reaped) { c = children[i]; break; }
  c->reaped = 1; if (st) *st = c->status; RET(c->pid);
}
EXPORT pid_t wait(int *st) { return waitpid(-1, st, 0); }
EXPORT pid_t wait4(pid_t p, int *st, int o, struct rusage *r) { (void)r; return waitpid(p, st, o); }
EXPORT int waitid(idtype_t t, id_t id, siginfo_t *si, int opt) {
  int st = 0; pid_t r = waitpid(t == P_PID ? (pid_t)id : -1, &st, opt & WNOHANG); if (r < 0) return -1;
  memset(si, 0, sizeof *si); if (r > 0) { si->si_pid = r; si->si_signo = SIGCHLD; si->si_code = WIFEXITED(st) ? CLD_EXITED : CLD_KILLED; si->si_status = WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st); }
  return 0;
}
EXPORT int kill(pid_t pid, int sig) {
  if (pid == 1000 || pid == 0) { if (sig) deliver_signal(sig); return 0; }
  Child *c = byp(pid); sim_begin(C_CLOSE, "kill", NULL, NULL); if (!c || c->reaped) FAIL(ESRCH); if (sig) child_signal(c, sig); RET(0);
}
EXPORT pid_t setsid(void) { return 1000; }
EXPORT int setpgid(pid_t a, pid_t b) { (void)a; (void)b; return 0; }
EXPORT int setuid(uid_t a) { (void)a; errno = EPERM; return -1; }
EXPORT int setgid(gid_t a) { (void)a; errno = EPERM; return -1; }
EXPORT int setgroups(size_t n, const gid_t *g) { (void)n; (void)g; errno = EPERM; return -1; }
EXPORT pid_t vfork(void) { return fork(); }
