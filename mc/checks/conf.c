/* Conformance of the simulated system interface with the real one: the same
 * calls are made through both back ends and everything visible is compared.
 * The real side works in a scratch directory of its own. */
#define _GNU_SOURCE
#include "conf.h"
#include "seq.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

int hx_open(const char *, int, ...);
int hx_close(int);
ssize_t hx_read(int, void *, size_t);
ssize_t hx_pread(int, void *, size_t, off_t);
ssize_t hx_write(int, const void *, size_t);
ssize_t hx_pwrite(int, const void *, size_t, off_t);
off_t hx_lseek(int, off_t, int);
int hx_fstat(int, struct stat *);
int hx_stat(const char *, struct stat *);
int hx_lstat(const char *, struct stat *);
int hx_access(const char *, int);
int hx_chmod(const char *, mode_t);
int hx_truncate(const char *, off_t);
int hx_ftruncate(int, off_t);
int hx_rename(const char *, const char *);
int hx_link(const char *, const char *);
int hx_unlink(const char *);
int hx_rmdir(const char *);
int hx_mkdir(const char *, mode_t);
void *hx_opendir(const char *);
void *hx_readdir(void *);
int hx_closedir(void *);
void *hx_mmap(void *, size_t, int, int, int, off_t);
int hx_munmap(void *, size_t);
int hx_fcntl(int, int, ...);

/* ------------------------------------------------------------------ */
/* The scratch directory                                                */
/* ------------------------------------------------------------------ */

/* Removes what is in a directory below the scratch root, without following
   links. */
static void
wipe(int dfd) {
  DIR *d = fdopendir(dup(dfd));
  struct dirent *e;
  if (d == NULL)
    mc_internal("fdopendir");
  rewinddir(d);
  while ((e = readdir(d))) {
    if (strcmp(e->d_name, ".") == 0 || strcmp(e->d_name, "..") == 0)
      continue;
    if (unlinkat(dfd, e->d_name, 0) == 0)
      continue;
    {
      int s = openat(dfd, e->d_name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW | O_CLOEXEC);
      if (s >= 0) {
        wipe(s);
        close(s);
      }
      unlinkat(dfd, e->d_name, AT_REMOVEDIR);
    }
  }
  closedir(d);
}

static int rootfd = -1;

static void
real_begin(void) {
  if (rootfd < 0) {
    snprintf(env_real_root, sizeof(env_real_root), "%s/fs%d", mc_workdir(), (int)getpid());
    umask(022);
    if (mkdir(env_real_root, 0755) != 0 && errno != EEXIST)
      mc_internal("scratch directory %s: %s", env_real_root, strerror(errno));
    rootfd = open(env_real_root, O_RDONLY | O_DIRECTORY | O_CLOEXEC);
    if (rootfd < 0)
      mc_internal("scratch directory");
  }
  env_real = 0;
  env_reset();
  env_real = 1;
  env_reset();
  wipe(rootfd);
}

static void
real_end(void) {
  env_reset();
  env_real = 0;
}

/* ------------------------------------------------------------------ */
/* System calls                                                         */
/* ------------------------------------------------------------------ */

enum { K_OPEN, K_READ, K_PREAD, K_WRITE, K_PWRITE, K_FTRUNC, K_LSEEK, K_FSTAT, K_CLOSE, K_MAP,
       K_STAT, K_LSTAT, K_ACCESS, K_TRUNC, K_UNLINK, K_RMDIR, K_MKDIR, K_RENAME, K_LINK, K_CHMOD,
       K_LIST, K_N };
static const char *const kn[] = {"open", "read", "pread", "write", "pwrite", "ftruncate", "lseek", "fstat", "close",
  "mmap", "stat", "lstat", "access", "truncate", "unlink", "rmdir", "mkdir", "rename", "link", "chmod", "list"};
struct call { int k; const char *p, *q; long a, b; int fd; };
struct res { long ret; int err; long x[4]; char data[64]; };

static struct call calls[600];
static int ncalls;

static void
add(int k, const char *p, const char *q, long a, long b, int fd) {
  struct call c = {k, p, q, a, b, fd};
  if (ncalls == (int)ARRAY_SIZE(calls))
    mc_internal("too many calls");
  calls[ncalls++] = c;
}

static const char *const P[] = {"/r/a", "/r/d", "/r/d/x", "/r/a/x", "/r/l", "/r/k", "/r/k/x", "/r/n", "/r/d/", "/r/a/", "/r/z/x", "/r/n/"};

static void
mkcalls(void) {
  static const int fl[] = {O_RDONLY, O_RDWR, O_RDWR | O_CREAT, O_RDWR | O_CREAT | O_EXCL, O_WRONLY | O_CREAT | O_TRUNC,
                           O_RDWR | O_CREAT | O_APPEND, O_RDONLY | O_NOFOLLOW, O_RDONLY | O_DIRECTORY};
  unsigned i, j;
  int fd;
  if (ncalls)
    return;
  for (fd = 0; fd < 2; fd++) {
    add(K_READ, NULL, NULL, 3, 0, fd);
    add(K_PREAD, NULL, NULL, 3, 0, fd);
    add(K_PREAD, NULL, NULL, 4, 3, fd);
    add(K_PREAD, NULL, NULL, 4, 9, fd);
    add(K_WRITE, NULL, NULL, 2, 0, fd);
    add(K_PWRITE, NULL, NULL, 2, 1, fd);
    add(K_PWRITE, NULL, NULL, 2, 8, fd);
    add(K_FTRUNC, NULL, NULL, 0, 0, fd);
    add(K_FTRUNC, NULL, NULL, 2, 0, fd);
    add(K_FTRUNC, NULL, NULL, 9, 0, fd);
    add(K_LSEEK, NULL, NULL, 1, SEEK_SET, fd);
    add(K_LSEEK, NULL, NULL, 0, SEEK_END, fd);
    add(K_LSEEK, NULL, NULL, -2, SEEK_CUR, fd);
    add(K_FSTAT, NULL, NULL, 0, 0, fd);
    add(K_CLOSE, NULL, NULL, 0, 0, fd);
    add(K_MAP, NULL, NULL, 4, 0, fd);
  }
  for (i = 0; i < ARRAY_SIZE(P); i++) {
    for (j = 0; j < ARRAY_SIZE(fl); j++)
      add(K_OPEN, P[i], NULL, fl[j], 0, 1);
    add(K_STAT, P[i], NULL, 0, 0, 0);
    add(K_LSTAT, P[i], NULL, 0, 0, 0);
    add(K_ACCESS, P[i], NULL, F_OK, 0, 0);
    add(K_UNLINK, P[i], NULL, 0, 0, 0);
    add(K_RMDIR, P[i], NULL, 0, 0, 0);
    add(K_MKDIR, P[i], NULL, 0, 0, 0);
    add(K_LIST, P[i], NULL, 0, 0, 0);
    add(K_CHMOD, P[i], NULL, 0600, 0, 0);
    if (i < 8)
      add(K_TRUNC, P[i], NULL, 3, 0, 0);
    if (i < 6) {
      add(K_RENAME, P[i], "/r/n", 0, 0, 0);
      add(K_RENAME, P[i], "/r/a", 0, 0, 0);
      add(K_RENAME, P[i], "/r/d", 0, 0, 0);
      add(K_LINK, P[i], "/r/n", 0, 0, 0);
      add(K_LINK, P[i], "/r/d/x", 0, 0, 0);
    }
  }
}

static void
put_stat(struct res *r, const struct stat *st) {
  r->x[0] = st->st_mode;
  r->x[1] = S_ISREG(st->st_mode) || S_ISLNK(st->st_mode) ? st->st_size : 0;
  r->x[2] = S_ISREG(st->st_mode) ? (long)st->st_nlink : 0;
}

static void
do_call(const struct call *c, int *fd, struct res *r) {
  struct stat st;
  char names[64][40];
  int i, n = 0;
  void *d;
  struct dirent *e;
  uint8_t *m;
  memset(r, 0, sizeof(*r));
  errno = 0;
  switch (c->k) {
    case K_OPEN:
      if (fd[c->fd] >= 0)
        hx_close(fd[c->fd]);
      fd[c->fd] = hx_open(c->p, c->a, 0644);
      r->ret = fd[c->fd] < 0 ? -1 : 0;
      break;
    case K_READ: r->ret = hx_read(fd[c->fd], r->data, c->a); break;
    case K_PREAD: r->ret = hx_pread(fd[c->fd], r->data, c->a, c->b); break;
    case K_WRITE: r->ret = hx_write(fd[c->fd], "wxyz", c->a); break;
    case K_PWRITE: r->ret = hx_pwrite(fd[c->fd], "WXYZ", c->a, c->b); break;
    case K_FTRUNC: r->ret = hx_ftruncate(fd[c->fd], c->a); break;
    case K_LSEEK:
      if (c->b == SEEK_END && fd[c->fd] >= 0 && hx_fstat(fd[c->fd], &st) == 0 && S_ISDIR(st.st_mode))
        break; /* differs between file systems */
      r->ret = hx_lseek(fd[c->fd], c->a, c->b); break;
    case K_FSTAT: r->ret = hx_fstat(fd[c->fd], &st); if (r->ret == 0) put_stat(r, &st); break;
    case K_CLOSE:
      r->ret = hx_close(fd[c->fd]);
      fd[c->fd] = -1;
      break;
    case K_MAP:
      if (fd[c->fd] >= 0 && hx_fstat(fd[c->fd], &st) == 0 && S_ISREG(st.st_mode) && st.st_size < 4)
        break; /* reading beyond the end is not used */
      m = hx_mmap(NULL, c->a, PROT_READ, MAP_SHARED, fd[c->fd], 0);
      r->ret = m == MAP_FAILED ? -1 : 0;
      if (r->ret == 0) {
        memcpy(r->data, m, c->a);
        hx_pwrite(fd[c->fd], "M", 1, 2); /* seen through the mapping */
        memcpy(r->data + 8, m, c->a);
        hx_munmap(m, c->a);
      } else {
        r->err = errno;
        return;
      }
      return;
    case K_STAT: r->ret = hx_stat(c->p, &st); if (r->ret == 0) put_stat(r, &st); break;
    case K_LSTAT: r->ret = hx_lstat(c->p, &st); if (r->ret == 0) put_stat(r, &st); break;
    case K_ACCESS: r->ret = hx_access(c->p, c->a); break;
    case K_TRUNC: r->ret = hx_truncate(c->p, c->a); break;
    case K_UNLINK: r->ret = hx_unlink(c->p); break;
    case K_RMDIR: r->ret = hx_rmdir(c->p); break;
    case K_MKDIR: r->ret = hx_mkdir(c->p, 0750); break;
    case K_RENAME: r->ret = hx_rename(c->p, c->q); break;
    case K_LINK: r->ret = hx_link(c->p, c->q); break;
    case K_CHMOD: r->ret = hx_chmod(c->p, c->a); break;
    case K_LIST:
      d = hx_opendir(c->p);
      if (d == NULL) {
        r->ret = -1;
        break;
      }
      while ((e = hx_readdir(d)) && n < 64)
        snprintf(names[n++], 40, "%s", e->d_name);
      hx_closedir(d);
      qsort(names, n, 40, (int (*)(const void *, const void *))strcmp);
      for (i = 0; i < n; i++) {
        strncat(r->data, names[i], sizeof(r->data) - strlen(r->data) - 2);
        strcat(r->data, " ");
      }
      break;
  }
  if (r->ret == -1)
    r->err = errno;
}

static void
initial(int st) {
  fs_mkdir("/r");
  hx_chmod("/r", 0755);
  if (st == 0)
    return;
  fs_write("/r/a", "hello", 5);
  hx_chmod("/r/a", 0644);
  fs_mkdir("/r/d");
  fs_write("/r/d/x", "inside", 6);
  hx_chmod("/r/d/x", 0640);
  fs_symlink("a", "/r/l");
  fs_symlink("d", "/r/k");
}

static uint64_t
tree(const char *p, uint64_t h) {
  char names[64][256], q[600];
  static char buf[4096];
  struct stat st;
  int i, n;
  if (hx_lstat(p, &st) != 0)
    return h;
  h = mc_hash(h, p, strlen(p));
  i = st.st_mode;
  h = mc_hash(h, &i, sizeof(i));
  if (S_ISREG(st.st_mode)) {
    long len = fs_read(p, buf, sizeof(buf));
    h = mc_hash(h, buf, len);
  } else if (S_ISDIR(st.st_mode)) {
    n = fs_list(p, names, 64);
    for (i = 0; i < n; i++) {
      snprintf(q, sizeof(q), "%s/%s", p, names[i]);
      h = tree(q, h);
    }
  }
  return h;
}

static void
call_str(const struct call *c, char *s, size_t n) {
  if (c->p)
    snprintf(s, n, "%s(%s%s%s, %#lx)", kn[c->k], c->p, c->q ? ", " : "", c->q ? c->q : "", c->a);
  else
    snprintf(s, n, "%s(%d, %ld, %ld)", kn[c->k], c->fd, c->a, c->b);
}

#define SYSD 4
static long sys_items(void) { mkcalls(); return ncalls * 2L; }
static void
sys_run(long item) {
  int depth = mc_thorough ? 3 : 2, st = item & 1, n = 1, i, fd[2], pick[SYSD];
  struct res r[SYSD], q;
  uint64_t h;
  char s[200], line[600] = "";
  mkcalls();
  pick[0] = item / 2;
  while (n < depth) {
    int c = mc_choose(ncalls + 1);
    if (c == ncalls)
      break;
    pick[n++] = c;
  }
  env_real = 0;
  env_reset();
  initial(st);
  fd[0] = st ? hx_open("/r/a", O_RDWR) : -1;
  fd[1] = -1;
  for (i = 0; i < n; i++)
    do_call(&calls[pick[i]], fd, &r[i]);
  h = tree("/r", 1);
  mc_state(h);
  real_begin();
  initial(st);
  fd[0] = st ? hx_open("/r/a", O_RDWR) : -1;
  fd[1] = -1;
  for (i = 0; i < n; i++) {
    call_str(&calls[pick[i]], s, sizeof(s));
    strncat(line, s, sizeof(line) - strlen(line) - 3);
    strcat(line, "; ");
    do_call(&calls[pick[i]], fd, &q);
    mc_trans(1);
    if (memcmp(&q, &r[i], sizeof(q)) != 0)
      mc_internal("the simulated file system differs from the real one: %s state %d: real %ld/%s %lo %ld %ld '%.30s', simulated %ld/%s %lo %ld %ld '%.30s'",
        line, st, q.ret, strerror(q.err), q.x[0], q.x[1], q.x[2], q.data, r[i].ret, strerror(r[i].err), r[i].x[0], r[i].x[1], r[i].x[2], r[i].data);
  }
  if (tree("/r", 1) != h)
    mc_internal("the simulated file system differs from the real one after %s", line);
  if (mc_want_sample())
    mc_sample("%s", line);
  real_end();
}
PART(conf_sys, "C10", "conf-sys", sys_items, sys_run,
  "binding of the simulated file system: every sequence of two system calls (thorough: three) over regular files, directories, links and missing names, made on the simulated and on the real file system; results, error codes and the resulting trees must agree",
  {NULL}, FL_PLAIN, 0);

/* ------------------------------------------------------------------ */
/* Record locks of two processes                                        */
/* ------------------------------------------------------------------ */

static int hsock = -1;
struct lreq { int op, fd, type; long s, l; };

/* One process's side, on the real system: two descriptors. */
static long
lock_real(const struct lreq *q, int *fd, const char *path) {
  struct flock fl;
  int i;
  switch (q->op) {
    case 0:
      if (fd[q->fd] >= 0)
        return -100;
      fd[q->fd] = open(path, O_RDWR | O_CREAT | O_CLOEXEC, 0644);
      return fd[q->fd] < 0 ? -errno : 0;
    case 1:
      if (fd[q->fd] < 0)
        return -100;
      close(fd[q->fd]);
      fd[q->fd] = -1;
      return 0;
    case 2:
      if (fd[q->fd] < 0)
        return -100;
      memset(&fl, 0, sizeof(fl));
      fl.l_type = q->type;
      fl.l_whence = SEEK_SET;
      fl.l_start = q->s;
      fl.l_len = q->l;
      return fcntl(fd[q->fd], F_SETLK, &fl) == 0 ? 0 : -errno;
    case 3:
      unlink(path);
      return 0;
    default: /* the process ends */
      for (i = 0; i < 2; i++) {
        if (fd[i] >= 0)
          close(fd[i]);
        fd[i] = -1;
      }
      return 0;
  }
}

static void
helper(void) {
  int sv[2];
  pid_t pid;
  if (hsock >= 0)
    return;
  if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv) != 0)
    mc_internal("socketpair");
  pid = fork();
  if (pid < 0)
    mc_internal("fork");
  if (pid == 0) {
    struct lreq q;
    int fd[2] = {-1, -1};
    char path[400];
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    close(sv[0]);
    snprintf(path, sizeof(path), "%s/lock", env_real_root);
    while (read(sv[1], &q, sizeof(q)) == sizeof(q)) {
      long r = lock_real(&q, fd, path);
      if (write(sv[1], &r, sizeof(r)) != sizeof(r))
        _exit(0);
    }
    _exit(0);
  }
  close(sv[1]);
  hsock = sv[0];
}

static const struct lreq L[] = {
  {0, 0, 0, 0, 0}, {0, 1, 0, 0, 0}, {1, 0, 0, 0, 0}, {1, 1, 0, 0, 0},
  {2, 0, F_WRLCK, 0, 0}, {2, 0, F_RDLCK, 0, 0}, {2, 0, F_UNLCK, 0, 0},
  {2, 1, F_WRLCK, 0, 1}, {2, 1, F_WRLCK, 1, 0}, {2, 1, F_UNLCK, 0, 1}, {2, 1, F_RDLCK, 1, 1},
  {3, 0, 0, 0, 0}, {4, 0, 0, 0, 0},
};
#define NL ((int)ARRAY_SIZE(L))

static long
lock_sim(int proc, const struct lreq *q, int *fd) {
  struct flock fl;
  int i;
  env_set_proc(proc);
  switch (q->op) {
    case 0:
      if (fd[q->fd] >= 0)
        return -100;
      fd[q->fd] = hx_open("/lock", O_RDWR | O_CREAT, 0644);
      return fd[q->fd] < 0 ? -errno : 0;
    case 1:
      if (fd[q->fd] < 0)
        return -100;
      hx_close(fd[q->fd]);
      fd[q->fd] = -1;
      return 0;
    case 2:
      if (fd[q->fd] < 0)
        return -100;
      memset(&fl, 0, sizeof(fl));
      fl.l_type = q->type;
      fl.l_whence = SEEK_SET;
      fl.l_start = q->s;
      fl.l_len = q->l;
      return hx_fcntl(fd[q->fd], F_SETLK, &fl) == 0 ? 0 : -errno;
    case 3:
      hx_unlink("/lock");
      return 0;
    default:
      env_proc_exit(proc);
      for (i = 0; i < 2; i++)
        fd[i] = -1;
      return 0;
  }
}

static long lock_items(void) { return 4L * NL * NL; }
static void
lock_run(long item) {
  int depth = mc_thorough ? 6 : 5, i, n, seq[8], fd[2][2] = {{-1, -1}, {-1, -1}}, rfd[2] = {-1, -1};
  long sim[8], rr;
  char line[400] = "", path[400];
  static const struct lreq fin = {4, 0, 0, 0, 0};
  uint64_t h = 0;
  seq[0] = item % (2 * NL);
  seq[1] = item / (2 * NL);
  if (seq[0] >= NL)
    mc_prune(); /* by symmetry the first process begins */
  env_real = 0;
  env_reset();
  for (n = 0; n < depth; n++) {
    if (n >= 2)
      seq[n] = mc_choose(2 * NL);
    sim[n] = lock_sim(seq[n] >= NL, &L[seq[n] % NL], fd[seq[n] >= NL]);
    if (sim[n] == -100)
      mc_prune(); /* makes no sense */
    h = mc_hash(h, &sim[n], sizeof(long));
  }
  env_set_proc(0);
  mc_state(h);
  real_begin();
  helper();
  snprintf(path, sizeof(path), "%s/lock", env_real_root);
  for (i = 0; i < n; i++) {
    const struct lreq *q = &L[seq[i] % NL];
    if (seq[i] < NL) {
      rr = lock_real(q, rfd, path);
    } else if (write(hsock, q, sizeof(*q)) != sizeof(*q) || read(hsock, &rr, sizeof(rr)) != sizeof(rr)) {
      mc_internal("helper");
    }
    sprintf(line + strlen(line), "p%d:%d,%d,%d,%ld,%ld ", seq[i] >= NL, q->op, q->fd, q->type, q->s, q->l);
    mc_trans(1);
    if (rr != sim[i])
      mc_internal("simulated record locks differ from the real ones: %s: real %s, simulated %s", line, strerror(-rr), strerror(-sim[i]));
  }
  lock_real(&fin, rfd, path);
  if (write(hsock, &fin, sizeof(fin)) != sizeof(fin) || read(hsock, &rr, sizeof(rr)) != sizeof(rr))
    mc_internal("helper");
  if (mc_want_sample())
    mc_sample("%s", line);
  real_end();
}
PART(conf_lock, "C15", "conf-lock", lock_items, lock_run,
  "binding of the simulated record locks: every sequence of five (thorough: six) opens, closes, locks, unlocks, unlinks and exits of two processes with two descriptors each, on the simulated and on the real system",
  {NULL}, FL_PLAIN, 0);

/* ------------------------------------------------------------------ */
/* The library on the real file system                                  */
/* ------------------------------------------------------------------ */

static void lim_default(void) { env_limits_fast(); }
static void
lim_tiny(void) {
  env_limits_fast();
  urkel_verify_max_file_size = 400;
  urkel_verify_write_buffer = 200;
  urkel_verify_max_open_files = 2;
}

static uint64_t
snapshot(void) {
  return tree("/w", 7);
}

#define OPSFAN 64
static long ops_items(void) { return (mc_thorough ? 4L : 2L) * OPSFAN; }
static void
ops_run(long item) {
  static struct universe u;
  struct model m;
  struct op ops[256], list[8], o;
  int ui = item / OPSFAN % 2, lim = ui ^ (item / OPSFAN / 2), first = item % OPSFAN, depth = mc_thorough ? 4 : 3, n = 0, k, i, pass;
  uint64_t h[10], g;
  char line[800] = "", s[200];
  static const uint32_t mask = A(OP_INS) | A(OP_REM) | A(OP_REOPEN) | A(OP_TXINS) | A(OP_TXREM) | A(OP_TXCOMMIT)
                             | A(OP_INJ) | A(OP_CLOSE) | A(OP_OPEN) | A(OP_DESTROY);
  ou_make(&u, ui, 3, 2);
  for (pass = 0; pass < 2; pass++) {
    if (pass)
      real_begin();
    else
      env_real = 0;
    (lim ? lim_tiny : lim_default)();
    db_start(&m, &u);
    memset(&o, 0, sizeof(o));
    o.kind = OP_TXNEW;
    o.hist = H_CUR;
    step(&R[0], &m, &o);
    for (i = 0; i < (pass ? n : depth); i++) {
      if (!pass) {
        k = ops_enabled(&m, mask, 1, 3, 2, ops, 256);
        if (i == 0) {
          if (k > OPSFAN)
            mc_internal("more first operations than items");
          if (first >= k)
            mc_prune();
          list[n++] = ops[first];
        } else {
          int c = mc_choose(k + 1);
          if (c == k)
            break;
          list[n++] = ops[c];
        }
      }
      op_str(&m, &list[i], s, sizeof(s));
      if (pass && strlen(line) + strlen(s) + 3 < sizeof(line)) {
        strcat(line, s);
        strcat(line, "; ");
      }
      step(&R[0], &m, &list[i]);
      mc_trans(1);
      g = snapshot();
      if (!pass)
        h[i] = g;
      else if (g != h[i])
        mc_fail("the files differ between the simulated and the real file system after %s", line);
    }
    if (!m.open) {
      memset(&o, 0, sizeof(o));
      o.kind = OP_OPEN;
      step(&R[0], &m, &o);
    }
    observe(&R[0], &m, OBS_DB | OBS_HIST);
    observe_disk(&m, 0);
    db_end(&m);
    mc_state(model_hash(&m) + ui);
  }
  if (mc_want_sample())
    mc_sample("universe %s: %s", ou_name(ui), line);
  real_end();
}
PART(conf_ops, "C08", "c08-real", ops_items, ops_run,
  "every sequence of inserts, removes, transactions, reverts, closings, reopenings and destroys to the depth, on the simulated and on the real file system, with one file and with many: answers as the model's and files the same to the byte after every step",
  {NULL}, FL_ASAN, 0);

/* ------------------------------------------------------------------ */
/* Path resolution                                                      */
/* ------------------------------------------------------------------ */

static const char *const comp[] = {"a", "d", "l", "k", "m", "x", ".", "..", "n"};
#define NCOMP ((int)ARRAY_SIZE(comp))
static long path_items(void) { return NCOMP * 2L * NCOMP; }
static void
path_run(long item) {
  char p[200] = "/r/t", rp[600];
  struct stat s1, s2;
  int i, n = mc_thorough ? 5 : 4, e1, e2, fol, c, up = 1;
  static int made = -1;
  env_real = 0;
  for (i = 0; i < n; i++) {
    c = i == 0 ? (int)(item / 2 % NCOMP) : i == 1 ? (int)(item / 2 / NCOMP) : mc_choose(NCOMP + 1) - 1;
    if (c < 0)
      break;
    if (strcmp(comp[c], "..") == 0 && --up < 0)
      mc_prune(); /* would leave the scratch directory */
    if (strcmp(comp[c], "d") == 0 || strcmp(comp[c], "k") == 0)
      up += 0;
    strcat(p, "/");
    if (i > 0 && (item & 1))
      strcat(p, "/");
    strcat(p, comp[c]);
  }
  if (mc_choose(2))
    strcat(p, "/");
  /* The tree stays: only looked at.  Below /r/t, two levels deep, so that
     what leads up stays inside. */
  if (made != (int)getpid()) {
    real_begin();
    for (i = 0; i < 2; i++) {
      env_real = i;
      if (!i)
        env_reset();
      fs_mkdir("/r");
      fs_mkdir("/r/t");
      fs_write("/r/t/a", "a", 1);
      fs_mkdir("/r/t/d");
      fs_mkdir("/r/t/d/d");
      fs_write("/r/t/d/x", "xx", 2);
      fs_write("/r/t/d/d/x", "xxx", 3);
      fs_symlink("a", "/r/t/l");
      fs_symlink("d", "/r/t/k");
      fs_symlink("d/d", "/r/t/m");
      fs_symlink("x", "/r/t/d/l");
      fs_symlink("../a", "/r/t/d/m");
      fs_symlink("k", "/r/t/d/k");
    }
    env_real = 0;
    made = getpid();
  }
  snprintf(rp, sizeof(rp), "%s%s", env_real_root, p);
  for (fol = 0; fol < 2; fol++) {
    e1 = (fol ? hx_stat : hx_lstat)(p, &s1) == 0 ? 0 : errno;
    e2 = (fol ? stat : lstat)(rp, &s2) == 0 ? 0 : errno;
    mc_trans(1);
    if (e1 != e2 || (e1 == 0 && ((s1.st_mode & S_IFMT) != (s2.st_mode & S_IFMT)
                                 || (!S_ISDIR(s1.st_mode) && s1.st_size != s2.st_size))))
      mc_internal("%s of %s differs: real %s, simulated %s", fol ? "stat" : "lstat", p, strerror(e2), strerror(e1));
    mc_state(mc_hash(e1 * 8 + fol, p, strlen(p)));
  }
  if (mc_want_sample())
    mc_sample("%s", p);
}
PART(conf_path, "C20", "conf-path", path_items, path_run,
  "binding of the simulated path resolution: every path of up to four (thorough: five) components over files, directories, links to both, links up and down, dots and missing names, on the simulated and on the real file system",
  {NULL}, FL_PLAIN, 0);
