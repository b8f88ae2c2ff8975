#include "sim.h"
#include <dlfcn.h>
#include <linux/futex.h>
#include <linux/seccomp.h>
#include <linux/filter.h>
#include <linux/audit.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>

#define SCEN_FD 900
#define TRACE_FD 901
#define NULL_FD 902

Knobs K = {.pipecap = 65536, .chunk = 0, .dtunknown = 0, .copyrange = 1, .stick = 500, .stepns = 8000,
           .maxsteps = 400000, .quota = -1, .inodes = -1, .explicit_sched = 0, .frate = 0, .fmask = ~0L,
           .armseq = 0, .wake = 50000, .spurious = 0, .tracesys = 1, .isroot = 0, .fshort = 0, .dirshuffle = 1};

i64 g_now = 1000000000LL; /* monotonic */
i64 g_rtoff = 1700000000LL * 1000000000LL;
u64 g_seq = 0, g_steps = 0, g_dec = 0, g_ilv = 1469598103934665603ULL;
int g_child_mode = 0;
static int g_ready = 0;

/* ------------------------------------------------------------------ PRNG */
static u64 rs[R_NSTREAM];
static u64 splitmix(u64 *s) {
  u64 z = (*s += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}
u64 rnd(int s) { return splitmix(&rs[s]); }
u64 rndn(int s, u64 n) { return n ? rnd(s) % n : 0; }

/* ------------------------------------------------------------------ memory */
void *xmalloc(size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
void *xcalloc(size_t a, size_t b) { void *p = calloc(a ? a : 1, b ? b : 1); if (!p) abort(); return p; }
char *xstrdup(const char *s) { size_t n = strlen(s) + 1; char *p = xmalloc(n); memcpy(p, s, n); return p; }

/* ------------------------------------------------------------------ trace */
static char *tbuf; static size_t tcap; static u64 *tlen;
void tr_raw(const char *s, size_t n) {
  if (!tbuf) return;
  if (*tlen + n > tcap) {
    static const char full[] = "\nX tracefull 0\n";
    if (*tlen + sizeof full <= tcap + 64) { memcpy(tbuf + tcap, full, sizeof full - 1); *tlen = tcap + sizeof full - 1; }
    rsys(SYS_exit_group, 97);
  }
  memcpy(tbuf + *tlen, s, n); *tlen += n;
}
void tr(const char *fmt, ...) {
  char b[1400]; va_list ap; va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (n < 0) return;
  if (n >= (int)sizeof b) n = sizeof b - 1;
  tr_raw(b, n);
}
void tr_hex(const void *p, size_t n) {
  static const char d[] = "0123456789abcdef"; char b[512]; const u8 *s = p; size_t k = 0;
  if (n == 0) { tr_raw("-", 1); return; }
  for (size_t i = 0; i < n; i++) {
    b[k++] = d[s[i] >> 4]; b[k++] = d[s[i] & 15];
    if (k == sizeof b) { tr_raw(b, k); k = 0; }
  }
  tr_raw(b, k);
}
static const char *tresc(const char *s, char *o, size_t n) { /* path for a trace line */
  size_t k = 0; if (!s) s = "";
  for (; *s && k + 4 < n; s++) { u8 c = *s; if (c <= 32 || c >= 127 || c == '%') k += snprintf(o + k, n - k, "%%%02x", c); else o[k++] = c; }
  if (k == 0) o[k++] = '-';
  o[k] = 0; return o;
}
u8 *unhex(const char *s, size_t *n) {
  size_t l = strlen(s); if (l == 1 && *s == '-') { *n = 0; return xcalloc(1, 1); }
  u8 *o = xmalloc(l / 2 + 1); *n = l / 2;
  for (size_t i = 0; i < l / 2; i++) {
    int h = s[2 * i], g = s[2 * i + 1];
    h = h <= '9' ? h - '0' : h - 'a' + 10; g = g <= '9' ? g - '0' : g - 'a' + 10; o[i] = h << 4 | g;
  }
  o[*n] = 0; return o;
}

/* ------------------------------------------------------------------ threads */
typedef struct Thr {
  int used, blocked, done, go, id, fin_detached; Pred pred; void *arg; i64 deadline; u64 sigpend; int prio;
  pthread_t pt; void *(*fn)(void *); void *farg; int started;
  int *faddr; int woken;
  /* pending call info */
  char name[32]; char path[256]; int cls; u64 seq; int infault; int depth;
} Thr;
#define MAXTHR 1024
static Thr T[MAXTHR]; static int nthr = 1;
static __thread int self_id = 0;
static int cur = 0;
static pthread_key_t fin_key;
static int (*real_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_pthread_join)(pthread_t, void **);
static int (*real_mutex_trylock)(pthread_mutex_t *);
static int (*real_mutex_unlock)(pthread_mutex_t *);
static int (*real_sigaction)(int, const struct sigaction *, struct sigaction *);

static void wait_go(Thr *t) {
  while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE)) rsys(SYS_futex, &t->go, FUTEX_WAIT_PRIVATE, 0, NULL);
  __atomic_store_n(&t->go, 0, __ATOMIC_RELEASE);
}
static void give(Thr *t) {
  cur = t->id; __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
  rsys(SYS_futex, &t->go, FUTEX_WAKE_PRIVATE, 1);
}

/* ------------------------------------------------------------------ events */
typedef struct { i64 at; u64 ord; int kind; long a; u8 *p; size_t n; } Ev;
enum { EV_TTY = 1, EV_SIG, EV_HUP, EV_JUMP, EV_EOF, EV_USER, EV_CPR = 7, EV_WIN };
/* the user: a list of actions, each waiting for a condition */
typedef struct { char trig[8]; i64 delay; int kind; long a; u8 *p; size_t n; u8 *pat; size_t pn; } UA;
static UA ua[8192]; static int nua, uai, ufly; static u8 ubuf[65536]; static size_t ulen;
void user_output(const u8 *p, size_t n) {
  if (uai >= nua) return;
  if (n > sizeof ubuf / 2) { p += n - sizeof ubuf / 2; n = sizeof ubuf / 2; }
  if (ulen + n > sizeof ubuf) { memmove(ubuf, ubuf + ulen - sizeof ubuf / 4, sizeof ubuf / 4); ulen = sizeof ubuf / 4; }
  memcpy(ubuf + ulen, p, n); ulen += n;
}
static void user_poll(void);
static int kids_alive(void) { int k = 0; for (int i = 0; i < nchildren; i++) k += children[i]->alive && !children[i]->actor; return k; }
static Ev *evs; static int nev, cev; static u64 evord;
void add_event(i64 at, int kind, long a, void *p, size_t n) {
  if (nev == cev) { cev = cev ? cev * 2 : 64; evs = realloc(evs, cev * sizeof *evs); }
  evs[nev++] = (Ev){at, evord++, kind, a, p, n};
}
static int next_ev(void) {
  int b = -1;
  for (int i = 0; i < nev; i++)
    if (b < 0 || evs[i].at < evs[b].at || (evs[i].at == evs[b].at && evs[i].ord < evs[b].ord)) b = i;
  return b;
}
void run_due_events(void) {
  for (;;) {
    user_poll();
    int b = next_ev(); if (b < 0 || evs[b].at > g_now) return;
    Ev e = evs[b]; evs[b] = evs[--nev];
    switch (e.kind) {
    case EV_USER: {
      UA *u = &ua[uai++]; ufly = 0; ulen = 0;
      tr("I %lld %d ", (long long)g_now, u->kind); tr_hex(u->p, u->n); tr(" %s %s %d %ld\n", tty_raw() ? "raw" : "cooked", tty_echo() ? "echo" : "noecho", kids_alive(), u->a);
      if (u->kind == EV_TTY) tty_input(u->p, u->n); else if (u->kind == EV_SIG) deliver_signal(u->a); else if (u->kind == EV_WIN) { tty_winsize(u->a / 10000, u->a % 10000); deliver_signal(SIGWINCH); } else tty_hup();
      break;
    }
    case EV_CPR: tty_input(e.p, e.n); break;
    case EV_TTY: tr("I %lld 1 ", (long long)g_now); tr_hex(e.p, e.n); tr(" %s %s %d 0\n", tty_raw() ? "raw" : "cooked", tty_echo() ? "echo" : "noecho", kids_alive()); tty_input(e.p, e.n); break;
    case EV_SIG: tr("G %lld %ld\n", (long long)g_now, e.a); deliver_signal(e.a); break;
    case EV_HUP: tr("I %lld hup\n", (long long)g_now); tty_hup(); break;
    case EV_JUMP: g_rtoff += e.a; tr("J %lld %ld\n", (long long)g_now, e.a); break;
    }
  }
}

/* ------------------------------------------------------------------ signals */
static struct sigaction sa_tab[65];
int sig_disposition(int sig, struct sigaction *out) {
  if (out) *out = sa_tab[sig];
  if (sa_tab[sig].sa_handler == SIG_IGN) return 1;
  if (sa_tab[sig].sa_handler == SIG_DFL) return 0;
  return 2;
}
void deliver_signal(int sig) {
  int d = sig_disposition(sig, NULL);
  tr("K %d disp %d\n", sig, d);
  if (d == 1) return;
  if (d == 0) { if (sig == SIGCHLD || sig == SIGWINCH || sig == SIGCONT) return; sim_finish("signal", sig); }
  T[0].sigpend |= 1ULL << sig;
}
static void run_handlers(Thr *t, int *norestart) {
  for (int s = 1; s < 64; s++)
    if (t->sigpend >> s & 1) {
      t->sigpend &= ~(1ULL << s);
      struct sigaction sa; if (sig_disposition(s, &sa) != 2) continue;
      if (norestart && !(sa.sa_flags & SA_RESTART)) *norestart = 1;
      tr("H %d tid %d\n", s, t->id);
      siginfo_t si; memset(&si, 0, sizeof si); si.si_signo = s;
      int e = errno;
      if (sa.sa_flags & SA_SIGINFO) sa.sa_sigaction(s, &si, NULL); else sa.sa_handler(s);
      errno = e;
    }
}

/* ------------------------------------------------------------------ scheduler */
typedef struct { u64 idx; int choice; } Dec;
static Dec *decs; static int ndecs, cdecs;
static int t_ready(Thr *t) {
  if (!t->used || t->done) return 0;
  if (!t->blocked) return 1;
  if (t->sigpend) return 1;
  if (t->deadline >= 0 && t->deadline <= g_now) return 1;
  return t->pred ? t->pred(t->arg) : 0;
}
static int choose(int n, int def, int *weights) {
  if (n == 1) return 0;
  u64 id = g_dec++;
  int c = def;
  if (K.explicit_sched) {
    for (int i = 0; i < ndecs; i++) if (decs[i].idx == id) { c = decs[i].choice % n; break; }
  } else if ((long)rndn(R_SCHED, 1000) >= K.stick) {
    u64 tot = 0; for (int i = 0; i < n; i++) tot += weights[i];
    u64 x = rndn(R_SCHED, tot); c = 0;
    while (x >= (u64)weights[c]) x -= weights[c++];
  }
  if (c != def) tr("D %llu %d %d\n", (unsigned long long)id, c, n);
  return c;
}
static void tick(void) {
  g_now += 500 + (i64)rndn(R_CLOCK, K.stepns * 2);
  if (++g_steps > (u64)K.maxsteps) sim_finish("steplimit", 0);
}
static int waiting(int mode) {
  if (mode == 'r' && !tty_raw()) return 0;
  if (mode == 'c' && tty_raw()) return 0;
  for (int i = 0; i < nthr; i++) if (T[i].used && !T[i].done && T[i].blocked && T[i].pred && tty_wait_pred(T[i].pred, T[i].arg, T[i].deadline)) return 1;
  for (int i = 0; i < nchildren; i++) if (children[i]->alive && child_ttywait(children[i])) return 1;
  return 0;
}
static void user_poll(void) {
  if (ufly || uai >= nua) return;
  UA *u = &ua[uai]; int ok = 0;
  for (char *c = u->trig; *c && !ok; c++) switch (*c) {
    case 'n': ok = 1; break;
    case 'r': case 'c': case 'w': ok = waiting(*c); break;
    case 'k': ok = kids_alive() > 0; break;
    case 'z': ok = T[0].blocked && T[0].pred && T[0].deadline > g_now && !strcmp(T[0].name, "clock_nanosleep"); break;
    case 'o': ok = u->pn && memmem(ubuf, ulen, u->pat, u->pn) != NULL; break;
  }
  if (!ok) return;
  ufly = 1; add_event(g_now + u->delay, EV_USER, 0, NULL, 0);
}
static void schedule(int self_runnable) {
  Thr *me = &T[self_id];
  for (;;) {
    run_due_events();
    struct { int kind, id; } cand[MAXTHR + MAXCHILD]; int w[MAXTHR + MAXCHILD]; int n = 0, def = -1;
    for (int i = 0; i < nthr; i++) {
      Thr *t = &T[i];
      if (i == self_id ? (self_runnable || t_ready(t)) && !t->done : t_ready(t)) {
        if (i == self_id) def = n;
        cand[n].kind = 0; cand[n].id = i; w[n++] = t->prio;
      }
    }
    for (int i = 0; i < nchildren; i++)
      if (children[i]->alive && child_runnable(children[i])) { cand[n].kind = 1; cand[n].id = i; w[n++] = children[i]->prio; }
    if (n == 0) {
      i64 best = -1; int b = next_ev(); if (b >= 0) best = evs[b].at;
      for (int i = 0; i < nthr; i++) if (T[i].used && !T[i].done && T[i].blocked && T[i].deadline >= 0 && (best < 0 || T[i].deadline < best)) best = T[i].deadline;
      for (int i = 0; i < nchildren; i++) if (children[i]->alive && children[i]->wake > g_now && (best < 0 || children[i]->wake < best)) best = children[i]->wake;
      if (best < 0) sim_finish("deadlock", 0);
      if (best > g_now) g_now = best;
      tick();
      continue;
    }
    int c = choose(n, def >= 0 ? def : 0, w);
    if (n > 1) { g_ilv ^= (u64)(cand[c].kind * 1000 + cand[c].id) + 1; g_ilv *= 1099511628211ULL; }
    if (cand[c].kind == 1) { tick(); child_step(children[cand[c].id]); continue; }
    Thr *t = &T[cand[c].id];
    if (t == me) return;
    give(t);
    if (me->done) return;
    wait_go(me);
    return;
  }
}
int sim_block(Pred p, void *arg, i64 deadline, int norestart) {
  Thr *me = &T[self_id];
  if (g_child_mode) abort();
  for (;;) {
    if (p && p(arg)) return 0;
    if (deadline >= 0 && g_now >= deadline) return -ETIMEDOUT;
    if (me->sigpend) {
      int nr = norestart; run_handlers(me, &nr);
      if (nr) return -EINTR;
      continue;
    }
    me->blocked = 1; me->pred = p; me->arg = arg; me->deadline = deadline;
    schedule(0);
    me->blocked = 0;
    tick();
  }
}

/* ------------------------------------------------------------------ faults */
typedef struct { u64 seq; int kind; long val; int used; } FEnt;
static FEnt *fl; static int nfl, cfl;
static const int L_OPEN[] = {EIO, ENOMEM, EMFILE, ENFILE, EACCES, EINTR, ENOSPC, EDQUOT, EROFS, 0};
static const int L_READ[] = {EIO, EINTR, 0};
static const int L_WRITE[] = {ENOSPC, EIO, EDQUOT, EINTR, 0};
static const int L_STAT[] = {EIO, ENOMEM, EACCES, 0};
static const int L_META[] = {EIO, EROFS, ENOMEM, ENOSPC, EBUSY, 0};
static const int L_REN[] = {EIO, EXDEV, ENOSPC, EROFS, EBUSY, 0};
static const int L_DIR[] = {EIO, ENOMEM, EMFILE, 0};
static const int L_SPAWN[] = {EAGAIN, ENOMEM, EIO, 0};
static const int L_PIPE[] = {EMFILE, ENFILE, 0};
static const int L_INTR[] = {EINTR, 0};
static const int L_CHDIR[] = {EIO, ENOMEM, EACCES, 0};
static const int L_COPY[] = {EIO, ENOSPC, EDQUOT, 0};
static const int L_TTY[] = {EIO, 0};
static const int L_THREAD[] = {EAGAIN, 0};
static const int L_SYNC[] = {EIO, ENOSPC, 0};
/* the shell's own standard output and error are only ever interrupted, never refused */
static int sim_is_std(Ofd *o) { return fds[1].o == o || fds[2].o == o; }
static const int *legal(int cls, Ofd *o) {
  switch (cls) {
  case C_OPEN: return L_OPEN;
  case C_READ: return o && (o->kind == O_PIPER || o->kind == O_SOCK) ? L_INTR : L_READ;
  case C_WRITE: return o && o->kind == O_FILE && !sim_is_std(o) ? L_WRITE : L_INTR;
  case C_STAT: return L_STAT; case C_META: return L_META; case C_RENAME: return L_REN; case C_DIR: return L_DIR;
  case C_SPAWN: return L_SPAWN; case C_PIPE: return L_PIPE; case C_WAIT: case C_SLEEP: case C_RAND: return L_INTR;
  case C_CHDIR: return L_CHDIR; case C_COPY: return L_COPY; case C_TTYCTL: return L_TTY; case C_THREAD: return L_THREAD;
  case C_SYNC: return L_SYNC;
  }
  return NULL;
}
static u64 sigseq[64]; static int signo_[64]; static int nsig;
static u64 jseq[16]; static i64 jval[16]; static int njump;

Fault sim_begin(int cls, const char *name, Ofd *o, const char *path) {
  Fault f = {0, 0};
  if (g_child_mode) return f;
  Thr *me = &T[self_id];
  g_seq++; tick();
  if (me->depth == 0) {
    for (int i = 0; i < nsig; i++) if (sigseq[i] == g_seq) deliver_signal(signo_[i]);
  }
  for (int i = 0; i < njump; i++) if (jseq[i] == g_seq) { g_rtoff += jval[i]; tr("J %lld %lld\n", (long long)g_now, (long long)jval[i]); }
  u64 seq = g_seq;
  if (cls != C_NONE) {
    if (me->sigpend && me->depth == 0) { me->depth++; run_handlers(me, NULL); me->depth--; }
    schedule(1);
    if (me->sigpend && me->depth == 0) { me->depth++; run_handlers(me, NULL); me->depth--; }
  }
  me->seq = seq; me->cls = cls; snprintf(me->name, sizeof me->name, "%s", name);
  char e[256]; snprintf(me->path, sizeof me->path, "%s", tresc(path, e, sizeof e));
  for (int i = 0; i < nfl; i++)
    if (fl[i].seq == seq && !fl[i].used) {
      if (fl[i].kind == F_KILL) { tr("F %llu kill 0 %s\n", (unsigned long long)seq, name); sim_finish("killed", 9); }
      const int *l = legal(cls, o);
      if (fl[i].kind == F_ERRNO) {
        int ok = 0; for (; l && *l; l++) if (*l == fl[i].val) ok = 1;
        if (!ok) continue;
      }
      if (fl[i].kind == F_SHORT && cls != C_READ && cls != C_WRITE && cls != C_RAND && cls != C_COPY) continue;
      fl[i].used = 1; f.kind = fl[i].kind; f.val = fl[i].val; break;
    }
  if (!f.kind && K.frate && (long)seq >= K.armseq && (long)rndn(R_FAULT, 1000000) < K.frate) {
    const int *l = legal(cls, o); int n = 0; while (l && l[n]) n++;
    if ((cls == C_READ || cls == C_WRITE) && rndn(R_FAULT, 3) == 0) { f.kind = F_SHORT; f.val = 1 + rndn(R_FAULT, 5); }
    else if (n) {
      f.kind = F_ERRNO; f.val = l[rndn(R_FAULT, n)];
      if (cls == C_OPEN && (f.val == ENOSPC || f.val == EDQUOT || f.val == EROFS)) f.val = EIO;
      if ((K.fmask & 1) && f.val != EINTR) { f.kind = 0; } /* soft faults only */
    }
  }
  if (f.kind) tr("F %llu %s %ld %s\n", (unsigned long long)seq, f.kind == F_ERRNO ? "errno" : "short", f.val, name);
  return f;
}
void sim_end(long ret, int err) {
  if (g_child_mode) return;
  Thr *t = &T[self_id];
  if (K.tracesys)
    tr("S %llu %d %d %s %s %ld %d\n", (unsigned long long)t->seq, t->id, t->cls, t->name, t->path, ret, ret < 0 ? err : 0);
}

/* ------------------------------------------------------------------ ending */
void sim_finish(const char *how, int code) {
  static int once; if (once) rsys(SYS_exit_group, 96);
  once = 1;
  if (g_child_mode) rsys(SYS_exit_group, code);
  vdump("end");
  for (int i = 0; i < nchildren; i++) {
    Child *c = children[i]; if (c->actor) continue;
    if (c->alive) tr("Z %d alive\n", c->pid); else if (!c->reaped) tr("Z %d zombie\n", c->pid);
  }
  for (int i = 0; i < MAXFD; i++) if (fds[i].o && i > 2) tr("L fd %d kind %d\n", i, fds[i].o->kind);
  if (!strcmp(how, "deadlock") || !strcmp(how, "steplimit")) {
    for (int i = 0; i < nthr; i++) if (T[i].used && !T[i].done) tr("B thread %d in %s %s\n", i, T[i].name, T[i].path);
    for (int i = 0; i < nchildren; i++) if (children[i]->alive) tr("B child %d pc %d\n", children[i]->pid, children[i]->pc);
  }
  tr("E seq %llu steps %llu dec %llu ilv %016llx now %lld\n", (unsigned long long)g_seq, (unsigned long long)g_steps,
     (unsigned long long)g_dec, (unsigned long long)g_ilv, (long long)g_now);
  if (!strcmp(how, "exit")) code &= 255; // what a parent would see
  tr("X %s %d\n", how, code);
  rsys(SYS_exit_group, code & 255);
  __builtin_unreachable();
}
static void at_exit_fn(int code, void *arg) { (void)arg; sim_finish("exit", code); }
EXPORT void _exit(int code) { sim_finish("exit", code); }
EXPORT void _Exit(int code) { sim_finish("exit", code); }
EXPORT void abort(void) { sim_finish("abort", 134); }

/* ------------------------------------------------------------------ thread API */
static void fin_dtor(void *v) {
  Thr *t = v; t->done = 1; tr("T %d end\n", t->id);
  schedule(0);
}
static void *tramp(void *v) {
  Thr *t = v; self_id = t->id; pthread_setspecific(fin_key, t);
  wait_go(t);
  return t->fn(t->farg);
}
EXPORT int pthread_create(pthread_t *pt, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  if (!g_ready) return real_pthread_create(pt, at, fn, arg);
  Fault f = sim_begin(C_THREAD, "pthread_create", NULL, NULL);
  if (f.kind == F_ERRNO) { sim_end(-1, f.val); return f.val; }
  if (nthr >= MAXTHR) { sim_end(-1, EAGAIN); return EAGAIN; }
  Thr *t = &T[nthr]; memset(t, 0, sizeof *t); t->id = nthr; t->used = 1; t->fn = fn; t->farg = arg; t->prio = 1 + rndn(R_SCHED, 8); t->deadline = -1;
  int r = real_pthread_create(pt, at, tramp, t);
  if (r) { t->used = 0; sim_end(-1, r); return r; }
  t->pt = *pt; nthr++;
  tr("T %d start\n", t->id);
  sim_end(0, 0); return 0;
}
static int p_done(void *v) { return ((Thr *)v)->done; }
EXPORT int pthread_join(pthread_t pt, void **ret) {
  for (int i = nthr - 1; i >= 1; i--) /* newest first: a handle is reused once its thread is gone */
    if (T[i].used && pthread_equal(T[i].pt, pt)) { sim_begin(C_FUTEX, "pthread_join", NULL, NULL); while (sim_block(p_done, &T[i], -1, 0)) ; sim_end(0, 0); break; }
  return real_pthread_join(pt, ret);
}
static int p_true(void *v) { (void)v; return 1; }
EXPORT int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!g_ready) { return real_mutex_trylock ? real_mutex_trylock(m) : 0; }
  for (;;) {
    int r = real_mutex_trylock(m); if (r != EBUSY) return r;
    sim_begin(C_FUTEX, "mutex_lock", NULL, NULL); (void)p_true; sim_end(0, 0);
  }
}
EXPORT int sched_yield(void) { sim_begin(C_FUTEX, "sched_yield", NULL, NULL); sim_end(0, 0); return 0; }

static int p_woken(void *v) { return ((Thr *)v)->woken; }
static long do_futex(int *ua, int op, int val, const struct timespec *to, int *ua2, int v3) {
  (void)ua2; (void)v3;
  int cmd = op & FUTEX_CMD_MASK;
  sim_begin(C_FUTEX, cmd == FUTEX_WAKE ? "futex_wake" : "futex_wait", NULL, NULL);
  Thr *me = &T[self_id];
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    if (__atomic_load_n(ua, __ATOMIC_SEQ_CST) != val) { sim_end(-1, EAGAIN); errno = EAGAIN; return -1; }
    i64 dl = -1;
    if (to) { i64 n = to->tv_sec * 1000000000LL + to->tv_nsec; dl = cmd == FUTEX_WAIT ? g_now + n : op & FUTEX_CLOCK_REALTIME ? n - g_rtoff : n; if (dl < 0) dl = 0; }
    if (K.spurious && (long)rndn(R_SCHED, 1000) < K.spurious) { sim_end(-1, EINTR); errno = EINTR; return -1; }
    me->faddr = ua; me->woken = 0;
    int r = sim_block(p_woken, me, dl, 0);
    me->faddr = NULL;
    if (r) { sim_end(-1, -r); errno = -r; return -1; }
    sim_end(0, 0); return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    int n = 0;
    while (n < val) {
      int c[MAXTHR], k = 0;
      for (int i = 0; i < nthr; i++) if (T[i].faddr == ua && !T[i].woken) c[k++] = i;
      if (!k) break;
      T[c[k > 1 ? rndn(R_SCHED, k) : 0]].woken = 1; n++;
    }
    sim_end(n, 0); return n;
  }
  sim_end(-1, ENOSYS); errno = ENOSYS; return -1;
}
void fill_random(void *b, size_t n) {
  u8 *p = b;
  for (size_t i = 0; i < n; i++) { u8 x = rnd(R_RAND) >> 24; p[i] = K.randmode == 1 ? 0 : K.randmode == 2 ? 255 : K.randmode == 3 ? (x < 16 ? x : 0) : x; }
}
EXPORT ssize_t getrandom(void *buf, size_t n, unsigned fl_) {
  (void)fl_;
  if (K.norandom) { sim_begin(C_NONE, "getrandom", NULL, NULL); sim_end(-1, ENOSYS); errno = ENOSYS; return -1; }
  Fault f = sim_begin(n ? C_RAND : C_NONE, "getrandom", NULL, NULL);
  if (f.kind == F_ERRNO) { sim_end(-1, f.val); errno = f.val; return -1; }
  if (f.kind == F_SHORT && f.val > 0 && (size_t)f.val < n) n = f.val;
  fill_random(buf, n); sim_end(n, 0); return n;
}
EXPORT int getentropy(void *buf, size_t n) { fill_random(buf, n); return 0; }

long sim_copy_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned fl_);
int sim_statx(int dirfd, const char *path, int flags, unsigned mask, void *stx);
EXPORT long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  switch (n) {
  case SYS_futex: return do_futex((int *)a, b, c, (void *)d, (int *)e, f);
  case SYS_getrandom: return getrandom((void *)a, b, c);
  case SYS_gettid: return 1000 + self_id;
  case SYS_getpid: return 1000;
  case SYS_copy_file_range: return sim_copy_range(a, (void *)b, c, (void *)d, e, f);
  case SYS_statx: return sim_statx(a, (void *)b, c, d, (void *)e);
  case SYS_renameat2: { extern int renameat2(int, const char *, int, const char *, unsigned); return renameat2(a, (void *)b, c, (void *)d, e); }
  case SYS_close_range: return 0;
  case SYS_pidfd_open: case SYS_clone3: case SYS_openat2: errno = ENOSYS; return -1;
  }
  tr("U syscall %ld\n", n);
  errno = ENOSYS; return -1;
}

/* ------------------------------------------------------------------ clocks */
EXPORT int clock_gettime(clockid_t c, struct timespec *ts) {
  if (c == CLOCK_REALTIME && !g_child_mode) { sim_begin(C_NONE, "clock", NULL, NULL); sim_end(0, 0); }
  g_now += 100 + (i64)rndn(R_CLOCK, 400);
  i64 v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) ? g_now + g_rtoff : g_now;
  ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000;
  if (c == CLOCK_REALTIME) tr("Q %lld.%09lld\n", (long long)ts->tv_sec, (long long)ts->tv_nsec);
  return 0;
}
EXPORT int gettimeofday(struct timeval *tv, void *tz) { (void)tz; struct timespec t; clock_gettime(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
EXPORT time_t time(time_t *p) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
static int p_never(void *v) { (void)v; return 0; }
EXPORT int clock_nanosleep(clockid_t c, int flags, const struct timespec *rq, struct timespec *rm) {
  if (rq->tv_nsec < 0 || rq->tv_nsec > 999999999 || rq->tv_sec < 0) return EINVAL;
  Fault f = sim_begin(C_SLEEP, "clock_nanosleep", NULL, NULL);
  i64 v, dl;
  if (rq->tv_sec > 1000000000LL) v = 1000000000LL * 1000000000LL; else v = rq->tv_sec * 1000000000LL + rq->tv_nsec;
  if (flags & TIMER_ABSTIME) dl = c == CLOCK_REALTIME ? v - g_rtoff : v; else dl = g_now + v;
  if (dl < g_now) dl = g_now;
  i64 want = dl;
  dl += rndn(R_CLOCK, K.wake + 1);
  if (f.kind == F_ERRNO && want > g_now) dl = g_now + (i64)rndn(R_FAULT, (u64)(want - g_now));
  int r = sim_block(p_never, NULL, dl, 1);
  if (r == -EINTR || (f.kind == F_ERRNO && g_now < want)) {
    if (rm && !(flags & TIMER_ABSTIME)) { i64 left = want - g_now; if (left < 0) left = 0; rm->tv_sec = left / 1000000000; rm->tv_nsec = left % 1000000000; }
    sim_end(-1, EINTR); return EINTR;
  }
  sim_end(0, 0); return 0;
}
EXPORT int nanosleep(const struct timespec *rq, struct timespec *rm) { int r = clock_nanosleep(CLOCK_MONOTONIC, 0, rq, rm); if (r) { errno = r; return -1; } return 0; }
EXPORT int usleep(useconds_t u) { struct timespec t = {u / 1000000, (u % 1000000) * 1000}; return nanosleep(&t, NULL); }
EXPORT unsigned sleep(unsigned s) { struct timespec t = {s, 0}, r; if (nanosleep(&t, &r)) return r.tv_sec; return 0; }

/* ------------------------------------------------------------------ signals API */
EXPORT int sigaction(int s, const struct sigaction *n, struct sigaction *o) {
  if (s <= 0 || s > 64) { errno = EINVAL; return -1; }
  if (s == SIGSEGV || s == SIGBUS || s == SIGSYS) return real_sigaction(s, n, o);
  if (o) *o = sa_tab[s];
  if (n && !g_child_mode) { sa_tab[s] = *n; }
  return 0;
}
EXPORT sighandler_t signal(int s, sighandler_t h) {
  if (s <= 0 || s > 64) { errno = EINVAL; return SIG_ERR; }
  sighandler_t o = sa_tab[s].sa_handler;
  if (!g_child_mode) { memset(&sa_tab[s], 0, sizeof sa_tab[s]); sa_tab[s].sa_handler = h; sa_tab[s].sa_flags = SA_RESTART; }
  return o;
}
EXPORT int sigprocmask(int h, const sigset_t *a, sigset_t *b) { (void)h; (void)a; if (b) memset(b, 0, sizeof *b); return 0; }
EXPORT int pthread_sigmask(int h, const sigset_t *a, sigset_t *b) { (void)h; (void)a; if (b) memset(b, 0, sizeof *b); return 0; }
EXPORT int raise(int s) { if (s == SIGABRT) abort(); deliver_signal(s); return 0; }
static int p_sig(void *v) { (void)v; return 0; }
EXPORT int pause(void) { sim_begin(C_SLEEP, "pause", NULL, NULL); sim_block(p_sig, NULL, -1, 1); sim_end(-1, EINTR); errno = EINTR; return -1; }
EXPORT unsigned alarm(unsigned s) { if (s) add_event(g_now + s * 1000000000LL, EV_SIG, SIGALRM, NULL, 0); return 0; }

/* ------------------------------------------------------------------ containment */
static void escape(int sig, siginfo_t *si, void *uc) {
  (void)sig; (void)uc; tr("U escape %d\n", si->si_syscall); sim_finish("escape", 98);
}
static void contain(void) {
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = escape; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  real_sigaction(SIGSYS, &sa, NULL);
#define DENY(nr) BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, nr, 0, 1), BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP)
  struct sock_filter fl_[] = {
      BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)),
      DENY(SYS_unlink), DENY(SYS_unlinkat), DENY(SYS_rename), DENY(SYS_renameat), DENY(SYS_renameat2), DENY(SYS_mkdir),
      DENY(SYS_mkdirat), DENY(SYS_rmdir), DENY(SYS_link), DENY(SYS_linkat), DENY(SYS_symlink), DENY(SYS_symlinkat),
      DENY(SYS_chmod), DENY(SYS_fchmod), DENY(SYS_fchmodat), DENY(SYS_chown), DENY(SYS_fchown), DENY(SYS_lchown), DENY(SYS_fchownat),
      DENY(SYS_truncate), DENY(SYS_ftruncate), DENY(SYS_execve), DENY(SYS_execveat), DENY(SYS_creat), DENY(SYS_mknod), DENY(SYS_mknodat),
      DENY(SYS_kill), DENY(SYS_connect), DENY(SYS_bind), DENY(SYS_mount), DENY(SYS_umount2), DENY(SYS_chroot), DENY(SYS_utimensat),
      DENY(SYS_setxattr), DENY(SYS_openat2), DENY(SYS_chdir), DENY(SYS_fchdir), DENY(SYS_nanosleep), DENY(SYS_clock_nanosleep),
      DENY(SYS_getdents64), DENY(SYS_copy_file_range), DENY(SYS_sendfile), DENY(SYS_wait4), DENY(SYS_vfork), DENY(SYS_ptrace),
      BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_openat, 0, 4),
      BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, args[2])),
      BPF_JUMP(BPF_JMP | BPF_JSET | BPF_K, O_WRONLY | O_RDWR | O_CREAT | O_TRUNC, 0, 1),
      BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP),
      BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
      BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
  };
  struct sock_fprog pr = {.len = sizeof fl_ / sizeof fl_[0], .filter = fl_};
  prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0);
  if (prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &pr)) tr("U noseccomp\n");
}

/* ------------------------------------------------------------------ scenario */
static void vmkfile(const char *path, int mode, const u8 *p, size_t n, int type, const char *target) {
  char *s = xstrdup(path), *l = strrchr(s, '/'); *l = 0; Look lk;
  if (vlookup(vroot, *s ? s : "/", 1, &lk) || !lk.node) { tr("U badpath %s\n", path); free(s); return; }
  Inode *d = lk.node; Inode *n0 = dget(d, l + 1); if (n0) ddel(d, l + 1);
  Inode *i = vnew(type, mode); if (type == T_FILE) { i->data = xmalloc(n + 1); memcpy(i->data, p, n); i->len = n; i->cap = n + 1; vused += n; }
  if (target) i->target = xstrdup(target);
  i->uid = 1000; dadd(d, l + 1, i); free(s);
}
static char *tok(char **s) {
  char *p = *s; while (*p == ' ') p++;
  if (!*p) { *s = p; return NULL; }
  char *b = p; while (*p && *p != ' ') p++;
  if (*p) *p++ = 0;
  *s = p; return b;
}
static char *untok(char *s) { /* %xx decode in place */
  char *o = s, *p = s;
  for (; *p; p++) { if (*p == '%' && p[1] && p[2]) { char h[3] = {p[1], p[2], 0}; *o++ = strtol(h, NULL, 16); p += 2; } else *o++ = *p; }
  *o = 0; return s;
}
extern u8 *src_buf; extern size_t src_len; extern int src_eof_after;
extern void tty_setup(int has);
static long ttybits, winrc = -1;
char *envprefix = NULL;
static Ofd *mkstd(const char *kind, int fd, char *arg) {
  Ofd *o;
  if (!strcmp(kind, "tty")) { o = onew(O_TTY); o->flags = O_RDWR; }
  else if (!strcmp(kind, "null")) { o = onew(O_NULLD); o->flags = O_RDWR; }
  else if (!strcmp(kind, "sink")) { o = onew(O_SINK); o->flags = O_WRONLY; }
  else if (!strcmp(kind, "source")) { o = onew(O_SOURCE); o->flags = O_RDONLY; }
  else { Inode *n = NULL; vopen(vroot, arg, fd ? O_WRONLY | O_CREAT | O_APPEND : O_RDONLY, 0644, &n); o = onew(O_FILE); o->ino = n; n->opens++; o->flags = fd ? O_WRONLY | O_APPEND : O_RDONLY; }
  return o;
}
static void parse_scenario(char *s) {
  char *line, *save = NULL; u64 seed = 1; const char *kin = "null", *kout = "sink", *kerr = "sink"; char *ain = NULL, *aout = NULL, *aerr = NULL;
  char *cwd = "/home/u"; char *actors[16]; int nact = 0;
  for (line = strtok_r(s, "\n", &save); line; line = strtok_r(NULL, "\n", &save)) {
    char *p = line, *k = tok(&p); if (!k || *k == '#') continue;
    char *a = tok(&p), *b = tok(&p), *c = tok(&p);
    if (!strcmp(k, "seed")) { seed = strtoull(a, NULL, 10); for (int i = 0; i < R_NSTREAM; i++) { u64 z = seed * 1000003ULL + i; rs[i] = splitmix(&z); } }
    else if (!strcmp(k, "dir")) { untok(a); if (strcmp(a, "/")) vmkfile(a, strtol(b, NULL, 8), NULL, 0, T_DIR, NULL); }
    else if (!strcmp(k, "file")) { size_t n; u8 *d = unhex(c, &n); vmkfile(untok(a), strtol(b, NULL, 8), d, n, T_FILE, NULL); free(d); }
    else if (!strcmp(k, "dev")) { vmkfile(untok(a), 0666, NULL, 0, !strcmp(b, "tty") ? T_TTY : !strcmp(b, "urandom") ? T_URAND : T_NULL, NULL); }
    else if (!strcmp(k, "link")) { vmkfile(untok(a), 0777, NULL, 0, T_LINK, untok(b)); }
    else if (!strcmp(k, "owner")) { Look l; vlookup(vroot, untok(a), 0, &l); if (l.node) l.node->uid = atoi(b); }
    else if (!strcmp(k, "fault")) {
      if (nfl == cfl) { cfl = cfl ? cfl * 2 : 16; fl = realloc(fl, cfl * sizeof *fl); }
      fl[nfl++] = (FEnt){strtoull(a, NULL, 10), !strcmp(b, "errno") ? F_ERRNO : !strcmp(b, "short") ? F_SHORT : F_KILL, c ? atol(c) : 0, 0};
    }
    else if (!strcmp(k, "sig")) { sigseq[nsig] = strtoull(a, NULL, 10); signo_[nsig++] = atoi(b); }
    else if (!strcmp(k, "jumpseq")) { jseq[njump] = strtoull(a, NULL, 10); jval[njump++] = atoll(b); }
    else if (!strcmp(k, "jump")) add_event(g_now + atoll(a), EV_JUMP, atoll(b), NULL, 0);
    else if (!strcmp(k, "user")) { /* user TRIG DELAY keys|sig|hup DATA [PATTERN] */
      char *d = tok(&p), *e = tok(&p);
      if (nua < 8192 && c) {
        UA *u = &ua[nua++]; snprintf(u->trig, sizeof u->trig, "%s", a); u->delay = atoll(b);
        u->kind = !strcmp(c, "keys") ? EV_TTY : !strcmp(c, "sig") ? EV_SIG : !strcmp(c, "win") ? EV_WIN : EV_HUP;
        if (u->kind == EV_TTY && d) u->p = unhex(d, &u->n); else if (d) u->a = atol(d);
        if (e) u->pat = unhex(e, &u->pn);
      }
    }
    else if (!strcmp(k, "tty")) { size_t n; u8 *d = unhex(b, &n); add_event(g_now + atoll(a), EV_TTY, 0, d, n); }
    else if (!strcmp(k, "ttybits")) ttybits = atol(a);
    else if (!strcmp(k, "winsize")) winrc = atol(a) * 10000 + atol(b);
    else if (!strcmp(k, "hup")) add_event(g_now + atoll(a), EV_HUP, 0, NULL, 0);
    else if (!strcmp(k, "sigat")) add_event(g_now + atoll(a), EV_SIG, atoi(b), NULL, 0);
    else if (!strcmp(k, "sched")) { if (ndecs == cdecs) { cdecs = cdecs ? cdecs * 2 : 64; decs = realloc(decs, cdecs * sizeof *decs); } decs[ndecs++] = (Dec){strtoull(a, NULL, 10), atoi(b)}; }
    else if (!strcmp(k, "stdin")) { kin = a; ain = b; if (!strcmp(a, "source")) { src_buf = unhex(b, &src_len); } else if (b) untok(b); }
    else if (!strcmp(k, "stdout")) { kout = a; aout = b ? untok(b) : 0; }
    else if (!strcmp(k, "stderr")) { kerr = a; aerr = b ? untok(b) : 0; }
    else if (!strcmp(k, "cwd")) cwd = untok(a);
    else if (!strcmp(k, "clock")) g_rtoff = atoll(a) - g_now;
    else if (!strcmp(k, "envprefix")) envprefix = xstrdup(a);
    else if (!strcmp(k, "actor")) { if (nact < 16) { size_t n; actors[nact++] = (char *)unhex(a, &n); } }
    else if (!strcmp(k, "knob")) {
      long v = atol(b);
#define KN(x) if (!strcmp(a, #x)) K.x = v;
      KN(pipecap) KN(chunk) KN(dtunknown) KN(copyrange) KN(stick) KN(stepns) KN(maxsteps) KN(quota) KN(inodes) KN(explicit_sched)
      KN(frate) KN(fmask) KN(armseq) KN(wake) KN(spurious) KN(tracesys) KN(isroot) KN(fshort) KN(dirshuffle) KN(randmode) KN(norandom) KN(cprdelay) KN(ttywhole)
    }
  }
  T[0].prio = 1 + rndn(R_SCHED, 8);
  Ofd *o0 = mkstd(kin, 0, ain), *o1 = mkstd(kout, 1, aout), *o2 = !strcmp(kerr, "stdout") ? (oref(o1), o1) : mkstd(kerr, 2, aerr);
  tty_setup(1); tty_settings(ttybits); if (winrc >= 0) tty_winsize(winrc / 10000, winrc % 10000);
  fd_alloc(o0, 0, 0); fd_alloc(o1, 0, 0); fd_alloc(o2, 0, 0);
  Look l; vlookup(vroot, cwd, 1, &l); vcwd = l.node ? l.node : vroot;
  for (int i = 0; i < nact; i++) start_actor(actors[i]);
}
static long (*volatile keep)(long, ...);
__attribute__((constructor)) static void sim_init(void) {
  (void)keep;
  real_pthread_create = dlsym(RTLD_NEXT, "pthread_create"); real_pthread_join = dlsym(RTLD_NEXT, "pthread_join");
  real_mutex_trylock = dlsym(RTLD_NEXT, "pthread_mutex_trylock"); real_mutex_unlock = dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  real_sigaction = dlsym(RTLD_NEXT, "sigaction");
  pthread_key_create(&fin_key, fin_dtor);
  T[0].used = 1; T[0].prio = 4; T[0].deadline = -1; T[0].started = 1;
  /* trace buffer: [u64 len][bytes...] */
  struct stat st; if (rsys(SYS_fstat, TRACE_FD, &st) < 0) { rsys(SYS_write, 2, "dunesim: no scenario\n", 21); rsys(SYS_exit_group, 95); }
  char *m = (char *)rsys(SYS_mmap, NULL, st.st_size, PROT_READ | PROT_WRITE, MAP_SHARED, TRACE_FD, 0);
  tlen = (u64 *)m; tbuf = m + 8; tcap = st.st_size - 8 - 256; *tlen = 0;
  rsys(SYS_fstat, SCEN_FD, &st);
  char *sc = xmalloc(st.st_size + 1); size_t got = 0;
  while (got < (size_t)st.st_size) { long r = rsys(SYS_pread64, SCEN_FD, sc + got, st.st_size - got, got); if (r <= 0) break; got += r; }
  sc[got] = 0;
  long nf = rsys(SYS_openat, AT_FDCWD, "/dev/null", O_RDONLY, 0); rsys(SYS_dup2, nf, NULL_FD); if (nf != NULL_FD) rsys(SYS_close, nf);
  rsys(SYS_close, SCEN_FD); rsys(SYS_close, TRACE_FD);
  for (int i = 0; i < R_NSTREAM; i++) rs[i] = 77 + i;
  vroot = vnew(T_DIR, 0755); vroot->nlink = 2; vroot->parent = vroot; vcwd = vroot;
  parse_scenario(sc); free(sc);
  on_exit(at_exit_fn, NULL);
  g_ready = 1;
  contain();
  vdump("start");
}
/* ------------------------------------------------------------------ misc identity */
EXPORT pid_t getpid(void) { return 1000; }
EXPORT pid_t getppid(void) { return 999; }
EXPORT pid_t gettid(void) { return 1000 + self_id; }
EXPORT uid_t getuid(void) { return 1000; }
EXPORT uid_t geteuid(void) { return 1000; }
EXPORT gid_t getgid(void) { return 1000; }
EXPORT gid_t getegid(void) { return 1000; }
