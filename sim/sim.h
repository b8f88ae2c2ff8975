/* dunesim: a deterministic operating-system simulator that is preloaded under
 * the unmodified dunesh binary.  Everything the shell can observe through libc
 * (files, pipes, terminals, child programs, threads, signals, clocks and
 * randomness) is answered from the state in this library, and every choice is
 * drawn from seeded pseudo-random streams. */
#ifndef DUNESIM_H
#define DUNESIM_H
#define _GNU_SOURCE
#define _LARGEFILE64_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <limits.h>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint8_t u8;
typedef uint32_t u32;

#define EXPORT __attribute__((visibility("default")))

/* ---------- raw system calls (used by the simulator itself) ---------- */
static inline long rsys6(long n, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}
#define rsys(n, ...) RSYS_(n, ##__VA_ARGS__, 0, 0, 0, 0, 0, 0)
#define RSYS_(n, a, b, c, d, e, f, ...) rsys6(n, (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))

/* ---------- PRNG streams ---------- */
enum { R_SCHED, R_CHUNK, R_DIR, R_RAND, R_CLOCK, R_FAULT, R_MISC, R_NSTREAM };
u64 rnd(int stream);
u64 rndn(int stream, u64 n); /* 0..n-1 */

/* ---------- trace ---------- */
void tr(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void tr_raw(const char *s, size_t n);
void tr_hex(const void *p, size_t n);
void sim_finish(const char *how, int code) __attribute__((noreturn));

/* ---------- knobs ---------- */
typedef struct {
  long pipecap;    /* capacity of simulated pipes */
  long chunk;      /* 0: pipe/tty reads return all; 1: random short reads; 2: one byte */
  long dtunknown;  /* readdir reports DT_UNKNOWN */
  long copyrange;  /* 0: ENOSYS, 1: works, 2: EXDEV, 3: works but short */
  long stick;      /* per mille chance to keep running the current entity */
  long stepns;     /* mean clock advance per step */
  long maxsteps;
  long quota;      /* bytes on the simulated disk; -1 unlimited */
  long inodes;     /* -1 unlimited */
  long explicit_sched;
  long frate;      /* per-million chance of a random fault per call, after armed */
  long fmask;      /* mask of random-fault kinds */
  long armseq;     /* random faults only from this call number on */
  long wake;       /* extra oversleep ns bound */
  long spurious;   /* per mille spurious futex wakeups */
  long tracesys;
  long isroot;
  long fshort;     /* per mille short reads/writes on files */
  long drain;      /* children die on EPIPE */
  long dirshuffle;
  long randmode;   /* 0 uniform, 1 zeros, 2 ones, 3 mostly zeros */
  long cprdelay;   /* ns until the terminal answers a cursor position request; -1 never */
  long ttywhole;   /* a read of the terminal gives all that is there, as real ones do (1) or may give less (0) */
  long norandom;   /* getrandom does not exist */
} Knobs;
extern Knobs K;

void fill_random(void *b, size_t n);
/* ---------- VFS ---------- */
enum { T_FILE = 1, T_DIR, T_LINK, T_NULL, T_TTY, T_FIFO, T_URAND };
typedef struct Inode Inode;
typedef struct { char *name; Inode *ino; u64 order; } Dent;
struct Inode {
  int type, mode, uid, nlink, opens;
  u64 id, ver, dumped; /* ver bumps at each content change */
  u8 *data; size_t len, cap;
  char *target;
  Dent *ents; int nents, cents;
  Inode *parent; /* for directories */
  i64 mtime;
};
extern Inode *vroot, *vcwd;
typedef struct { Inode *dir; Inode *node; char last[256]; int trailing; int err; } Look;
/* follow: follow a symlink in the last component */
int vlookup(Inode *base, const char *path, int follow, Look *out);
Inode *vnew(int type, int mode);
int dadd(Inode *d, const char *name, Inode *n);
void ddel(Inode *d, const char *name);
Inode *dget(Inode *d, const char *name);
void vunref(Inode *n);
int vperm(Inode *n, int want); /* 4 r 2 w 1 x ; 0 ok else -1 */
int vwrite(Inode *n, u64 off, const void *p, size_t len, size_t *done);
int vtrunc(Inode *n, u64 len);
char *vpath(Inode *dir); /* malloc'ed absolute path or NULL if unlinked */
int vmkdir(Inode *base, const char *path, int mode);
int vunlink(Inode *base, const char *path, int flags);
int vrename(Inode *ba, const char *a, Inode *bb, const char *b, int flags);
int vopen(Inode *base, const char *path, int flags, int mode, Inode **out);
void vdump(const char *why);
extern long vused, vinodes;

/* ---------- open file descriptions ---------- */
enum { O_FILE = 1, O_DIRD, O_PIPER, O_PIPEW, O_TTY, O_NULLD, O_SINK, O_SOURCE, O_SOCK, O_EPOLL, O_EVENTFD, O_URAND };
typedef struct Pipe {
  u8 *buf; size_t cap, len, head; int readers, writers; int id; u64 gen;
} Pipe;
typedef struct Ofd {
  int kind, flags, refs, id;
  Inode *ino; u64 off;
  Pipe *p, *p2;
  struct Epoll *ep;
  u64 counter;
} Ofd;
#define MAXFD 512
typedef struct { Ofd *o; int cloexec; } Fd;
extern Fd fds[MAXFD];
Ofd *onew(int kind);
void oref(Ofd *o);
void ounref(Ofd *o);
int fd_alloc(Ofd *o, int min, int cloexec);
Ofd *fdget(int fd);
Pipe *pnew(void);
/* non-blocking primitives used by both shell and children; return -EAGAIN when it would block */
long o_read(Ofd *o, void *p, size_t n, int pid);
long o_write(Ofd *o, const void *p, size_t n, int pid);
int o_readable(Ofd *o, int pid);
int o_writable(Ofd *o);

/* ---------- tty ---------- */
typedef int (*Pred)(void *);
void tty_input(const u8 *p, size_t n);
void tty_hup(void);
void tty_winsize(int rows, int cols);
void tty_settings(long bits);
int tty_wait_pred(Pred p, void *arg, i64 deadline); /* waiting for terminal input */
int tty_raw(void);
int tty_echo(void);
void user_output(const u8 *p, size_t n);

/* ---------- children ---------- */
typedef struct Op { int code; char *a, *b; size_t alen, blen; long n, m; } Op;
typedef struct Child {
  int pid, alive, reaped, status, actor;
  Ofd *fd[3];
  Inode *cwd;
  Op *ops; int nops, pc;
  u8 *buf; size_t blen, bpos, bcap; /* pending output */
  u64 cnt; int ineof; i64 wake; int ignint; int pgrp; int started; int prio;
  int outfd;
} Child;
#define MAXCHILD 1024
extern Child *children[MAXCHILD];
extern int nchildren;
int child_runnable(Child *c);
int child_ttywait(Child *c);
void child_step(Child *c);
void child_signal(Child *c, int sig);
int spawn_child(const char *file, int usepath, char *const argv[], char *const envp[], Inode *cwd, Ofd *f0, Ofd *f1, Ofd *f2, int *pid);
Child *start_actor(const char *prog);

/* ---------- scheduler ---------- */
/* returns 0 when pred became true, -ETIMEDOUT, or -EINTR */
int sim_block(Pred p, void *arg, i64 deadline, int norestart);
extern i64 g_now; /* ns */
extern i64 g_rtoff;
extern u64 g_seq;
extern int g_child_mode;
void deliver_signal(int sig);
int sig_disposition(int sig, struct sigaction *out);

/* begin an intercepted call: scheduling point + fault decision */
enum { C_NONE, C_OPEN, C_READ, C_WRITE, C_STAT, C_META, C_DIR, C_SPAWN, C_WAIT, C_SLEEP, C_PIPE, C_TTYCTL, C_CHDIR, C_COPY, C_RAND, C_FUTEX, C_THREAD, C_RENAME, C_SYNC, C_CLOSE };
typedef struct { int kind; long val; } Fault; /* kind 0 none */
enum { F_NONE, F_ERRNO, F_SHORT, F_KILL };
Fault sim_begin(int cls, const char *name, Ofd *o, const char *path);
void sim_end(long ret, int err);
void add_event(i64 at, int kind, long a, void *p, size_t n);
void run_due_events(void);
void *xmalloc(size_t n);
void *xcalloc(size_t a, size_t b);
char *xstrdup(const char *s);
int is_own_thread(void);
u8 *unhex(const char *s, size_t *n);
#endif
