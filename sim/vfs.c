#include "sim.h"
/* In-memory file system: inodes, directories, symbolic links, permissions, quota. */
Inode *vroot, *vcwd;
long vused, vinodes;
static u64 next_ino = 2, next_ver = 1;

Inode *vnew(int type, int mode) {
  Inode *n = xcalloc(1, sizeof *n);
  n->type = type; n->mode = mode; n->id = next_ino++; n->ver = next_ver++; n->uid = 1000; n->mtime = g_now + g_rtoff; vinodes++;
  return n;
}
static void vfree(Inode *n) {
  if (n->nlink > 0 || n->opens > 0) return;
  if (n->type == T_FILE) vused -= n->len;
  vinodes--;
  /* leak the struct itself: directory snapshots may still name it */
  free(n->data); n->data = NULL; n->len = n->cap = 0;
}
void vunref(Inode *n) { vfree(n); }
Inode *dget(Inode *d, const char *name) {
  for (int i = 0; i < d->nents; i++) if (!strcmp(d->ents[i].name, name)) return d->ents[i].ino;
  return NULL;
}
int dadd(Inode *d, const char *name, Inode *n) {
  if (d->nents == d->cents) { d->cents = d->cents ? d->cents * 2 : 8; d->ents = realloc(d->ents, d->cents * sizeof *d->ents); }
  d->ents[d->nents++] = (Dent){xstrdup(name), n, 0};
  n->nlink++; if (n->type == T_DIR) { n->parent = d; n->nlink = 2; d->nlink++; }
  d->mtime = g_now + g_rtoff;
  return 0;
}
void ddel(Inode *d, const char *name) {
  for (int i = 0; i < d->nents; i++)
    if (!strcmp(d->ents[i].name, name)) {
      Inode *n = d->ents[i].ino; free(d->ents[i].name);
      memmove(d->ents + i, d->ents + i + 1, (d->nents - i - 1) * sizeof *d->ents); d->nents--;
      n->nlink--; if (n->type == T_DIR) { n->nlink = 0; n->parent = NULL; d->nlink--; }
      d->mtime = g_now + g_rtoff;
      vfree(n); return;
    }
}
int vperm(Inode *n, int want) {
  if (K.isroot) { if (!(want & 1) || n->type == T_DIR || (n->mode & 0111)) return 0; return -1; }
  int bits = n->uid == 1000 ? n->mode >> 6 & 7 : n->mode & 7;
  return (bits & want) == want ? 0 : -1;
}
static int walk(Inode *base, const char *path, int follow, Look *o, int *links) {
  o->dir = NULL; o->node = NULL; o->last[0] = 0; o->trailing = 0;
  if (!*path) return ENOENT;
  if (strlen(path) >= 4096) return ENAMETOOLONG;
  Inode *d = *path == '/' ? vroot : base; const char *p = path;
  if (d->type != T_DIR) return ENOTDIR;
  o->dir = d; o->node = d; strcpy(o->last, ".");
  for (;;) {
    while (*p == '/') p++;
    if (!*p) { if (o->node && o->node->type != T_DIR && p != path && p[-1] == '/') return ENOTDIR; return 0; }
    const char *e = p; while (*e && *e != '/') e++;
    size_t n = e - p; if (n > 255) return ENAMETOOLONG;
    d = o->node; if (!d) return ENOENT;
    if (d->type != T_DIR) return ENOTDIR;
    if (vperm(d, 1)) return EACCES;
    char nm[256]; memcpy(nm, p, n); nm[n] = 0;
    const char *r = e; int slash = 0; while (*r == '/') { r++; slash = 1; }
    int last = !*r;
    if (!strcmp(nm, ".")) { strcpy(o->last, "."); o->dir = d; o->node = d; }
    else if (!strcmp(nm, "..")) { strcpy(o->last, ".."); o->dir = d; o->node = d->parent ? d->parent : (d == vroot ? vroot : NULL); if (!o->node) return ENOENT; }
    else {
      if (d != vroot && d->nlink == 0) return ENOENT;
      Inode *c = dget(d, nm);
      if (c && c->type == T_LINK && (!last || follow || slash)) {
        if (++*links > 40) return ELOOP;
        Look l2; int er = walk(d, c->target, 1, &l2, links);
        if (er) return er;
        if (!l2.node) { if (!last) return ENOENT; *o = l2; o->trailing = slash; return 0; }
        o->node = l2.node; o->dir = l2.dir; memcpy(o->last, l2.last, sizeof o->last);
      } else {
        o->dir = d; o->node = c; memcpy(o->last, nm, n + 1);
        if (!c) { if (!last) return ENOENT; o->trailing = slash; return 0; }
      }
    }
    if (last) { o->trailing = slash; if (slash && o->node->type != T_DIR) return ENOTDIR; return 0; }
    p = r;
  }
}
int vlookup(Inode *base, const char *path, int follow, Look *o) { int l = 0; memset(o, 0, sizeof *o); return o->err = walk(base, path, follow, o, &l); }
char *vpath(Inode *d) {
  char b[8192]; int k = sizeof b - 1; b[k] = 0;
  if (d == vroot) return xstrdup("/");
  while (d != vroot) {
    if (!d->parent) return NULL;
    Inode *p = d->parent; const char *nm = NULL;
    for (int i = 0; i < p->nents; i++) if (p->ents[i].ino == d) nm = p->ents[i].name;
    if (!nm) return NULL;
    int n = strlen(nm); if (k - n - 1 < 0) return NULL;
    k -= n; memcpy(b + k, nm, n); b[--k] = '/'; d = p;
  }
  return xstrdup(b + k);
}
int vtrunc(Inode *n, u64 len) {
  if (len == n->len) { return 0; }
  if (len > n->len) {
    if (K.quota >= 0 && vused + (long)(len - n->len) > K.quota) return ENOSPC;
    if (len > n->cap) { n->data = realloc(n->data, len + 1); n->cap = len + 1; }
    memset(n->data + n->len, 0, len - n->len);
  }
  vused += (long)len - (long)n->len; n->len = len; n->ver = next_ver++; n->mtime = g_now + g_rtoff; return 0;
}
int vwrite(Inode *n, u64 off, const void *p, size_t len, size_t *done) {
  *done = 0; u64 end = off + len;
  if (end > n->len && K.quota >= 0) {
    long room = K.quota - vused; if (room < 0) room = 0;
    long grow = end - n->len; if (grow > room) { end = n->len + room; if (end <= off) return len ? ENOSPC : 0; len = end - off; }
  }
  if (!len) return 0;
  if (end > n->len) { u64 old = n->len; int e = vtrunc(n, end); if (e) return e; (void)old; }
  memcpy(n->data + off, p, len); n->ver = next_ver++; n->mtime = g_now + g_rtoff; *done = len; return 0;
}
static int inode_room(void) { return K.inodes >= 0 && vinodes >= K.inodes ? ENOSPC : 0; }
int vmkdir(Inode *base, const char *path, int mode) {
  Look l; int e = vlookup(base, path, 0, &l);
  if (e) return e;
  if (l.node) return EEXIST;
  if (vperm(l.dir, 3)) return EACCES;
  if ((e = inode_room())) return e;
  dadd(l.dir, l.last, vnew(T_DIR, mode & 0777 & ~022)); return 0;
}
static int isempty(Inode *d) { return d->nents == 0; }
int vunlink(Inode *base, const char *path, int dir) {
  Look l; int e = vlookup(base, path, 0, &l);
  if (e) return e;
  if (!l.node) return ENOENT;
  if (dir) {
    if (!strcmp(l.last, ".")) return l.node == vroot ? EBUSY : EINVAL;
    if (!strcmp(l.last, "..")) return ENOTEMPTY;
    if (l.node->type != T_DIR) return ENOTDIR;
    if (vperm(l.dir, 3)) return EACCES;
    if (!isempty(l.node)) return ENOTEMPTY;
  } else {
    if (l.node->type == T_DIR) return EISDIR;
    if (vperm(l.dir, 3)) return EACCES;
  }
  ddel(l.dir, l.last); return 0;
}
int vrename(Inode *ba, const char *a, Inode *bb, const char *b, int flags) {
  Look x, y; int e = vlookup(ba, a, 0, &x); if (e) return e;
  e = vlookup(bb, b, 0, &y); if (e) return e;
  if (!x.node) return ENOENT;
  if (!strcmp(x.last, ".") || !strcmp(x.last, "..") || !strcmp(y.last, ".") || !strcmp(y.last, "..")) return EBUSY;
  if (vperm(x.dir, 3) || vperm(y.dir, 3)) return EACCES;
  if (y.trailing && x.node->type != T_DIR) return ENOTDIR;
  if (y.node && (flags & 1)) return EEXIST;
  if (x.node == y.node) return 0;
  if (x.node->type == T_DIR) for (Inode *d = y.dir; ; d = d->parent) { if (d == x.node) return EINVAL; if (d == vroot || !d->parent) break; }
  if (y.node) {
    if (y.node->type == T_DIR) { if (x.node->type != T_DIR) return EISDIR; if (!isempty(y.node)) return ENOTEMPTY; }
    else if (x.node->type == T_DIR) return ENOTDIR;
  }
  Inode *n = x.node; n->opens++;
  if (y.node) ddel(y.dir, y.last);
  ddel(x.dir, x.last); dadd(y.dir, y.last, n); n->opens--;
  return 0;
}
int vopen(Inode *base, const char *path, int flags, int mode, Inode **out) {
  Look l; int e; int acc = flags & O_ACCMODE;
  int nofollow = (flags & O_NOFOLLOW) || ((flags & O_CREAT) && (flags & O_EXCL));
  e = vlookup(base, path, !nofollow, &l); if (e) return e;
  if (!l.node) {
    if (!(flags & O_CREAT)) return ENOENT;
    if (l.trailing) return EISDIR;
    if (vperm(l.dir, 3)) return EACCES;
    if ((e = inode_room())) return e;
    Inode *n = vnew(T_FILE, mode & 0777 & ~022); dadd(l.dir, l.last, n); *out = n; return 0;
  }
  Inode *n = l.node;
  if ((flags & O_CREAT) && (flags & O_EXCL)) return EEXIST;
  if (n->type == T_LINK) return (flags & O_PATH) ? (*out = n, 0) : (flags & O_DIRECTORY) ? ENOTDIR : ELOOP;
  if ((flags & O_DIRECTORY) && n->type != T_DIR) return ENOTDIR;
  if (n->type == T_DIR && (acc != O_RDONLY || (flags & O_CREAT))) return EISDIR;
  if (!(flags & O_PATH)) {
    int want = acc == O_RDONLY ? 4 : acc == O_WRONLY ? 2 : 6;
    if (vperm(n, want)) return EACCES;
    if ((flags & O_TRUNC) && n->type == T_FILE) vtrunc(n, 0);
  }
  *out = n; return 0;
}
/* ---- snapshots for the checker ---- */
static void pesc(const char *s) {
  static const char d[] = "0123456789abcdef"; char b[1024]; size_t k = 0;
  for (; *s && k < sizeof b - 4; s++) { u8 c = *s; if (c <= 32 || c >= 127 || c == '%') { b[k++] = '%'; b[k++] = d[c >> 4]; b[k++] = d[c & 15]; } else b[k++] = c; }
  tr_raw(b, k);
}
static void dump(Inode *n, char *path, size_t len) {
  switch (n->type) {
  case T_FILE:
    if (n->dumped != n->ver) { tr("N %llu ", (unsigned long long)n->ver); tr_hex(n->data, n->len); tr("\n"); n->dumped = n->ver; }
    tr("f "); pesc(path); tr(" %o %llu\n", n->mode, (unsigned long long)n->ver); break;
  case T_LINK: tr("l "); pesc(path); tr(" "); pesc(n->target); tr("\n"); break;
  case T_DIR:
    tr("d "); pesc(len ? path : "/"); tr(" %o\n", n->mode);
    for (int i = 0; i < n->nents; i++) {
      size_t m = strlen(n->ents[i].name); if (len + m + 2 > 8000) { tr("U deep\n"); continue; }
      path[len] = '/'; memcpy(path + len + 1, n->ents[i].name, m + 1); dump(n->ents[i].ino, path, len + 1 + m); path[len] = 0;
    }
    break;
  default: tr("x "); pesc(path); tr("\n");
  }
}
void vdump(const char *why) { static char path[8192]; path[0] = 0; tr("V %s %lld\n", why, (long long)g_now); dump(vroot, path, 0); tr("v\n"); }
