/* A stand-in for the part of Windows that the library uses, on top of the
 * simulated file system, processes and threads; written from Microsoft's
 * documentation.  In particular:
 *  - reading at the end of a file succeeds with no bytes, but fails with
 *    ERROR_HANDLE_EOF when an offset is given, which also moves the position;
 *  - a descriptor opened for appending cannot cut the file;
 *  - a file of no bytes cannot be mapped, and one that is mapped cannot be cut;
 *  - mappings fail with NULL and not with INVALID_HANDLE_VALUE;
 *  - a locked range belongs to the handle: the same process is refused, too. */
#define _GNU_SOURCE
#include "win/windows.h"
#include "win/io.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <time.h>
#include "mc.h"

int hx_open(const char *, int, ...);
int hx_close(int);
ssize_t hx_read(int, void *, size_t);
ssize_t hx_pread(int, void *, size_t, off_t);
ssize_t hx_write(int, const void *, size_t);
ssize_t hx_pwrite(int, const void *, size_t, off_t);
off_t hx_lseek(int, off_t, int);
int hx_fstat(int, struct stat *);
int hx_lstat(const char *, struct stat *);
int hx_stat(const char *, struct stat *);
int hx_unlink(const char *);
int hx_rename(const char *, const char *);
int hx_mkdir(const char *, mode_t);
int hx_rmdir(const char *);
void *hx_opendir(const char *);
void *hx_readdir(void *);
int hx_closedir(void *);
int hx_ftruncate(int, off_t);
int hx_fsync(int);
int hx_fcntl(int, int, ...);
void *hx_mmap(void *, size_t, int, int, int, off_t);
int hx_munmap(void *, size_t);
char *hx_getcwd(char *, size_t);
int hx_clock_gettime(clockid_t, struct timespec *);
ssize_t hx_getrandom(void *, size_t, unsigned);
int hx_pthread_mutex_init(void *, const void *);
int hx_pthread_mutex_destroy(void *);
int hx_pthread_mutex_lock(void *);
int hx_pthread_mutex_unlock(void *);
int hx_pthread_cond_init(void *, const void *);
int hx_pthread_cond_destroy(void *);
int hx_pthread_cond_wait(void *, void *);
int hx_pthread_cond_broadcast(void *);

enum { W_FREE, W_MAP, W_SEM, W_FIND };
struct wobj {
  int kind, proc;
  int fd;                    /* W_MAP */
  size_t size;
  void *dir;                 /* W_FIND */
  long count, max;           /* W_SEM */
  uint64_t mtx[8], cond[8];
};
struct wview { void *base; size_t size; uint64_t ino; int proc; };
struct wfile { int used, proc, fd, cut, locked; uint64_t ino; };
struct wpend { uint64_t ino; char path[256]; };
#define NOBJ 512
#define NVIEW 512
#define NFILE 512
static struct wobj obj[NOBJ];
static struct wview view[NVIEW];
static struct wfile file[NFILE];
/* Files removed while open that keep their names until they are closed (as
 * before Windows 10, and still on some file systems). */
int win_pending;
#define NPEND 16
static struct wpend pend[NPEND];
static __thread DWORD last_error;

static int
in_use(uint64_t ino) {
  int i;
  for (i = 0; i < NFILE; i++)
    if (file[i].used && file[i].ino == ino)
      return 1;
  return 0;
}

static struct wpend *
pending(uint64_t ino) {
  int i;
  for (i = 0; i < NPEND; i++)
    if (pend[i].ino == ino)
      return &pend[i];
  return NULL;
}

static int
name_pending(const char *path) {
  struct stat st;
  return win_pending && hx_lstat(path, &st) == 0 && pending(st.st_ino) != NULL;
}

/* Called when a process ends (-1: all of them). */
void
win_release(int proc) {
  int i;
  for (i = 0; i < NOBJ; i++)
    if (obj[i].kind && (proc < 0 || obj[i].proc == proc))
      memset(&obj[i], 0, sizeof(obj[i]));
  for (i = 0; i < NVIEW; i++)
    if (view[i].base && (proc < 0 || view[i].proc == proc))
      memset(&view[i], 0, sizeof(view[i]));
  for (i = 0; i < NFILE; i++)
    if (file[i].used && (proc < 0 || file[i].proc == proc))
      memset(&file[i], 0, sizeof(file[i]));
  for (i = 0; i < NPEND; i++)
    if (pend[i].ino && (proc < 0 || !in_use(pend[i].ino))) {
      if (proc >= 0)
        fs_unlink(pend[i].path);
      pend[i].ino = 0;
    }
  if (proc < 0)
    win_pending = 0;
}

long
win_handles(void) {
  long n = 0;
  int i;
  for (i = 0; i < NOBJ; i++)
    n += obj[i].kind != W_FREE;
  return n;
}

#define AGAIN(r, call) do { r = (call); } while (r == -1 && (errno == EINTR || errno == EAGAIN))

static BOOL
bad(void) {
  switch (errno) {
    case ENOENT: last_error = ERROR_FILE_NOT_FOUND; break;
    case ENOTDIR: case ENAMETOOLONG: case ELOOP: last_error = ERROR_PATH_NOT_FOUND; break;
    case EACCES: case EISDIR: case EPERM: last_error = ERROR_ACCESS_DENIED; break;
    case EBADF: last_error = ERROR_INVALID_HANDLE; break;
    case ENOTEMPTY: last_error = ERROR_DIR_NOT_EMPTY; break;
    case EEXIST: last_error = ERROR_ALREADY_EXISTS; break;
    default: last_error = ERROR_WRITE_FAULT;
  }
  return FALSE;
}

static BOOL
err(DWORD e) {
  last_error = e;
  return FALSE;
}

static const char *
tr(char *out, size_t n, const char *in) {
  size_t i;
  if (((in[0] | 32) == 'c') && in[1] == ':')
    in += 2;
  for (i = 0; in[i] && i + 1 < n; i++)
    out[i] = in[i] == '\\' ? '/' : in[i];
  out[i] = 0;
  return out;
}

static HANDLE
fd_handle(int fd) {
  return (HANDLE)(intptr_t)((fd + 1) << 2);
}

static int
handle_fd(HANDLE h) {
  intptr_t x = (intptr_t)h;
  if (x <= 0 || x >= 0x100000 || x & 3) {
    errno = EBADF;
    return -1;
  }
  return (int)(x >> 2) - 1;
}

static struct wfile *
wfile(int fd) {
  int i, p = env_proc();
  for (i = 0; i < NFILE; i++)
    if (file[i].used && file[i].fd == fd && file[i].proc == p)
      return &file[i];
  return NULL;
}

static HANDLE
obj_new(int kind) {
  int i;
  for (i = 0; i < NOBJ; i++)
    if (!obj[i].kind)
      break;
  if (i == NOBJ)
    mc_internal("out of handles");
  memset(&obj[i], 0, sizeof(obj[i]));
  obj[i].kind = kind;
  obj[i].proc = env_proc();
  return (HANDLE)(intptr_t)(0x100000 + i * 4);
}

static struct wobj *
obj_get(HANDLE h, int kind) {
  intptr_t x = (intptr_t)h - 0x100000;
  if (x < 0 || x >= NOBJ * 4 || x & 3 || obj[x / 4].kind != kind)
    return NULL;
  return &obj[x / 4];
}

DWORD GetLastError(void) { return last_error; }

/* ------------------------------------------------------------------ */
/* Files                                                                */
/* ------------------------------------------------------------------ */

HANDLE
CreateFileA(LPCSTR name, DWORD access, DWORD share, void *sec, DWORD disp, DWORD attr, HANDLE tmpl) {
  char buf[2048];
  int fd, flags = O_CLOEXEC, i, wr = (access & (FILE_WRITE_DATA | FILE_APPEND_DATA | GENERIC_WRITE)) != 0;
  int rd = (access & (FILE_READ_DATA | GENERIC_READ)) != 0;
  struct stat st;
  (void)share; (void)sec; (void)tmpl;
  flags |= wr ? rd ? O_RDWR : O_WRONLY : O_RDONLY;
  if ((access & FILE_APPEND_DATA) && !(access & (FILE_WRITE_DATA | GENERIC_WRITE)))
    flags |= O_APPEND;
  switch (disp) {
    case CREATE_NEW: flags |= O_CREAT | O_EXCL; break;
    case CREATE_ALWAYS: flags |= O_CREAT | O_TRUNC; break;
    case OPEN_EXISTING: break;
    case OPEN_ALWAYS: flags |= O_CREAT; break;
    case TRUNCATE_EXISTING:
      if (!wr) {
        err(ERROR_INVALID_PARAMETER);
        return INVALID_HANDLE_VALUE;
      }
      flags |= O_TRUNC;
      break;
    default:
      err(ERROR_INVALID_PARAMETER);
      return INVALID_HANDLE_VALUE;
  }
  if (attr & FILE_FLAG_WRITE_THROUGH)
    flags |= O_SYNC;
  if (attr & FILE_FLAG_OPEN_REPARSE_POINT)
    flags |= 0;
  tr(buf, sizeof(buf), name);
  if (name_pending(buf)) {
    err(ERROR_ACCESS_DENIED);
    return INVALID_HANDLE_VALUE;
  }
  AGAIN(fd, hx_open(buf, flags, 0640));
  if (fd == -1) {
    bad();
    return INVALID_HANDLE_VALUE;
  }
  /* A directory can only be opened for what needs backup semantics. */
  if (!(attr & FILE_FLAG_BACKUP_SEMANTICS)) {
    if (hx_fstat(fd, &st) == 0 && S_ISDIR(st.st_mode)) {
      hx_close(fd);
      err(ERROR_ACCESS_DENIED);
      return INVALID_HANDLE_VALUE;
    }
  }
  for (i = 0; i < NFILE; i++)
    if (!file[i].used)
      break;
  if (i == NFILE)
    mc_internal("out of file handles");
  file[i].used = 1;
  file[i].proc = env_proc();
  file[i].fd = fd;
  file[i].locked = 0;
  file[i].ino = 0;
  if (win_pending && hx_fstat(fd, &st) == 0)
    file[i].ino = st.st_ino;
  file[i].cut = (access & (FILE_WRITE_DATA | GENERIC_WRITE)) != 0;
  return fd_handle(fd);
}

static int
fd_close(int fd) {
  struct wfile *f = wfile(fd);
  struct wpend *p;
  uint64_t ino = 0;
  int r;
  if (f) {
    ino = f->ino;
    memset(f, 0, sizeof(*f));
  }
  r = hx_close(fd);
  /* (there is no interruption: the descriptor is gone) */
  if (r == -1 && errno == EINTR)
    r = 0;
  if (ino && !in_use(ino) && (p = pending(ino)) != NULL) {
    p->ino = 0;
    fs_unlink(p->path);
  }
  return r;
}

BOOL
CloseHandle(HANDLE h) {
  struct wobj *o;
  intptr_t x = (intptr_t)h;
  if (x > 0 && x < 0x100000 && handle_fd(h) >= 0)
    return fd_close(handle_fd(h)) == 0 ? TRUE : bad();
  if ((o = obj_get(h, W_MAP)) != NULL) {
    memset(o, 0, sizeof(*o));
    return TRUE;
  }
  if ((o = obj_get(h, W_SEM)) != NULL) {
    hx_pthread_mutex_destroy(o->mtx);
    hx_pthread_cond_destroy(o->cond);
    memset(o, 0, sizeof(*o));
    return TRUE;
  }
  return err(ERROR_INVALID_HANDLE);
}

int _open_osfhandle(intptr_t h, int flags) { (void)flags; return handle_fd((HANDLE)h); }

intptr_t
_get_osfhandle(int fd) {
  return fd >= 0 && wfile(fd) ? (intptr_t)fd_handle(fd) : -1;
}

int _close(int fd) { return fd_close(fd); }

static void
ftime(FILETIME *f, const struct timespec *t) {
  uint64_t x = (uint64_t)t->tv_sec * 10000000 + t->tv_nsec / 100 + 116444736000000000ull;
  f->dwLowDateTime = (DWORD)x;
  f->dwHighDateTime = x >> 32;
}

static DWORD
attributes(const struct stat *st) {
  return S_ISDIR(st->st_mode) ? FILE_ATTRIBUTE_DIRECTORY
       : S_ISLNK(st->st_mode) ? FILE_ATTRIBUTE_REPARSE_POINT
       : S_ISCHR(st->st_mode) ? FILE_ATTRIBUTE_DEVICE : FILE_ATTRIBUTE_NORMAL;
}

BOOL
GetFileInformationByHandle(HANDLE h, BY_HANDLE_FILE_INFORMATION *o) {
  struct stat st;
  int fd = handle_fd(h), r;
  AGAIN(r, fd < 0 ? -1 : hx_fstat(fd, &st));
  if (r == -1)
    return bad();
  memset(o, 0, sizeof(*o));
  o->dwFileAttributes = attributes(&st);
  ftime(&o->ftCreationTime, &st.st_ctim);
  ftime(&o->ftLastAccessTime, &st.st_atim);
  ftime(&o->ftLastWriteTime, &st.st_mtim);
  o->dwVolumeSerialNumber = st.st_dev;
  o->nFileSizeLow = (DWORD)st.st_size;
  o->nFileSizeHigh = (uint64_t)st.st_size >> 32;
  o->nNumberOfLinks = st.st_nlink;
  o->nFileIndexLow = (DWORD)st.st_ino;
  o->nFileIndexHigh = (uint64_t)st.st_ino >> 32;
  return TRUE;
}

DWORD
GetFileAttributesA(LPCSTR name) {
  char buf[2048];
  struct stat st;
  int r;
  AGAIN(r, hx_lstat(tr(buf, sizeof(buf), name), &st));
  if (r == -1) {
    bad();
    return INVALID_FILE_ATTRIBUTES;
  }
  if (win_pending && pending(st.st_ino)) {
    err(ERROR_ACCESS_DENIED);
    return INVALID_FILE_ATTRIBUTES;
  }
  return attributes(&st);
}

BOOL
SetFileAttributesA(LPCSTR name, DWORD a) {
  (void)a;
  return GetFileAttributesA(name) != INVALID_FILE_ATTRIBUTES;
}

BOOL
MoveFileExA(LPCSTR from, LPCSTR to, DWORD fl) {
  char a[2048], b[2048];
  struct stat st;
  int r;
  if (!(fl & MOVEFILE_REPLACE_EXISTING) && hx_lstat(tr(b, sizeof(b), to), &st) == 0)
    return err(ERROR_ALREADY_EXISTS);
  AGAIN(r, hx_rename(tr(a, sizeof(a), from), tr(b, sizeof(b), to)));
  return r == 0 ? TRUE : bad();
}

BOOL
ReplaceFileA(LPCSTR to, LPCSTR from, LPCSTR backup, DWORD fl, void *x, void *y) {
  (void)backup; (void)fl; (void)x; (void)y;
  if (GetFileAttributesA(to) == INVALID_FILE_ATTRIBUTES)
    return FALSE;
  return MoveFileExA(from, to, MOVEFILE_REPLACE_EXISTING);
}

BOOL
DeleteFileA(LPCSTR name) {
  char buf[2048];
  int r;
  tr(buf, sizeof(buf), name);
  if (win_pending) {
    struct stat st;
    struct wpend *p;
    if (name_pending(buf))
      return err(ERROR_ACCESS_DENIED);
    if (hx_lstat(buf, &st) == 0 && in_use(st.st_ino)) {
      if ((p = pending(0)) == NULL)
        mc_internal("too many files wait for their removal");
      p->ino = st.st_ino;
      snprintf(p->path, sizeof(p->path), "%s", buf);
      return TRUE;
    }
  }
  AGAIN(r, hx_unlink(buf));
  return r == 0 ? TRUE : bad();
}

BOOL
CreateDirectoryA(LPCSTR name, void *sec) {
  char buf[2048];
  int r;
  (void)sec;
  AGAIN(r, hx_mkdir(tr(buf, sizeof(buf), name), 0750));
  return r == 0 ? TRUE : bad();
}

BOOL
RemoveDirectoryA(LPCSTR name) {
  char buf[2048];
  int r;
  AGAIN(r, hx_rmdir(tr(buf, sizeof(buf), name)));
  return r == 0 ? TRUE : bad();
}

HANDLE
FindFirstFileA(LPCSTR pat, WIN32_FIND_DATAA *d) {
  char buf[2048];
  size_t n;
  void *dir;
  HANDLE h;
  tr(buf, sizeof(buf), pat);
  n = strlen(buf);
  if (n < 2 || strcmp(buf + n - 2, "/*") != 0)
    mc_internal("FindFirstFile(%s) is not modelled", pat);
  buf[n - 2 == 0 ? 1 : n - 2] = 0;
  do {
    dir = hx_opendir(buf);
  } while (dir == NULL && errno == EINTR);
  if (dir == NULL) {
    bad();
    if (last_error == ERROR_FILE_NOT_FOUND)
      last_error = ERROR_PATH_NOT_FOUND;
    return INVALID_HANDLE_VALUE;
  }
  h = obj_new(W_FIND);
  obj_get(h, W_FIND)->dir = dir;
  if (!FindNextFileA(h, d)) {
    DWORD e = last_error;
    FindClose(h);
    last_error = e == ERROR_NO_MORE_FILES ? ERROR_FILE_NOT_FOUND : e;
    return INVALID_HANDLE_VALUE;
  }
  return h;
}

BOOL
FindNextFileA(HANDLE h, WIN32_FIND_DATAA *d) {
  struct wobj *o = obj_get(h, W_FIND);
  struct dirent *e;
  if (o == NULL)
    return err(ERROR_INVALID_HANDLE);
  do {
    errno = 0;
    e = hx_readdir(o->dir);
  } while (e == NULL && errno == EINTR);
  if (e == NULL)
    return errno ? bad() : err(ERROR_NO_MORE_FILES);
  memset(d, 0, sizeof(*d));
  d->dwFileAttributes = e->d_type == DT_DIR ? FILE_ATTRIBUTE_DIRECTORY
                      : e->d_type == DT_LNK ? FILE_ATTRIBUTE_REPARSE_POINT : FILE_ATTRIBUTE_NORMAL;
  snprintf(d->cFileName, sizeof(d->cFileName), "%s", e->d_name);
  /* (a success leaves some error code behind) */
  last_error = ERROR_SUCCESS;
  return TRUE;
}

BOOL
FindClose(HANDLE h) {
  struct wobj *o = obj_get(h, W_FIND);
  if (o == NULL)
    return err(ERROR_INVALID_HANDLE);
  hx_closedir(o->dir);
  memset(o, 0, sizeof(*o));
  return TRUE;
}

BOOL
SetFilePointerEx(HANDLE h, LARGE_INTEGER pos, LARGE_INTEGER *out, DWORD how) {
  int fd = handle_fd(h);
  off_t r;
  AGAIN(r, fd < 0 ? -1 : hx_lseek(fd, pos.QuadPart, how == FILE_BEGIN ? SEEK_SET : how == FILE_CURRENT ? SEEK_CUR : SEEK_END));
  if (r == -1)
    return bad();
  if (out)
    out->QuadPart = r;
  return TRUE;
}

BOOL
GetFileSizeEx(HANDLE h, LARGE_INTEGER *out) {
  struct stat st;
  int fd = handle_fd(h), r;
  AGAIN(r, fd < 0 ? -1 : hx_fstat(fd, &st));
  if (r == -1)
    return bad();
  out->QuadPart = st.st_size;
  return TRUE;
}

BOOL
ReadFile(HANDLE h, void *buf, DWORD len, DWORD *n, OVERLAPPED *ol) {
  int fd = handle_fd(h);
  off_t at = 0;
  ssize_t r;
  *n = 0;
  if (fd < 0)
    return bad();
  if (ol)
    at = (off_t)((uint64_t)ol->OffsetHigh << 32 | ol->Offset);
  AGAIN(r, ol ? hx_pread(fd, buf, len, at) : hx_read(fd, buf, len));
  if (r == -1)
    return bad();
  if (ol && r == 0 && len > 0)
    return err(ERROR_HANDLE_EOF);
  if (ol)
    hx_lseek(fd, at + r, SEEK_SET);
  *n = r;
  return TRUE;
}

BOOL
WriteFile(HANDLE h, const void *buf, DWORD len, DWORD *n, OVERLAPPED *ol) {
  int fd = handle_fd(h);
  off_t at = 0;
  ssize_t r;
  *n = 0;
  if (fd < 0)
    return bad();
  if (ol)
    at = (off_t)((uint64_t)ol->OffsetHigh << 32 | ol->Offset);
  AGAIN(r, ol ? hx_pwrite(fd, buf, len, at) : hx_write(fd, buf, len));
  if (r == -1)
    return bad();
  if (r == 0 && len > 0)
    return err(ERROR_WRITE_FAULT);
  if (ol)
    hx_lseek(fd, at + r, SEEK_SET);
  *n = r;
  return TRUE;
}

BOOL
SetEndOfFile(HANDLE h) {
  int fd = handle_fd(h), i, r;
  struct wfile *f;
  struct stat st;
  off_t at;
  if (fd < 0 || (f = wfile(fd)) == NULL)
    return err(ERROR_INVALID_HANDLE);
  if (!f->cut)
    return err(ERROR_ACCESS_DENIED);
  AGAIN(at, hx_lseek(fd, 0, SEEK_CUR));
  if (at == -1)
    return bad();
  AGAIN(r, hx_fstat(fd, &st));
  if (r == -1)
    return bad();
  for (i = 0; i < NVIEW; i++)
    if (view[i].base && view[i].ino == (uint64_t)st.st_ino && at < st.st_size)
      return err(ERROR_USER_MAPPED_FILE);
  AGAIN(r, hx_ftruncate(fd, at));
  return r == 0 ? TRUE : bad();
}

BOOL
FlushFileBuffers(HANDLE h) {
  int fd = handle_fd(h), r;
  AGAIN(r, fd < 0 ? -1 : hx_fsync(fd));
  return r == 0 ? TRUE : bad();
}

/* ------------------------------------------------------------------ */
/* Locks and mappings                                                   */
/* ------------------------------------------------------------------ */

BOOL
LockFileEx(HANDLE h, DWORD fl, DWORD res, DWORD lo, DWORD hi, OVERLAPPED *ol) {
  int fd = handle_fd(h), r;
  struct wfile *f;
  struct flock l;
  (void)res; (void)lo; (void)hi; (void)ol;
  if (fd < 0 || (f = wfile(fd)) == NULL)
    return err(ERROR_INVALID_HANDLE);
  if (!(fl & LOCKFILE_FAIL_IMMEDIATELY))
    mc_internal("waiting for a file lock is not modelled");
  memset(&l, 0, sizeof(l));
  l.l_type = fl & LOCKFILE_EXCLUSIVE_LOCK ? F_WRLCK : F_RDLCK;
  do {
    r = hx_fcntl(fd, F_OFD_SETLK, &l);
  } while (r == -1 && errno == EINTR);
  if (r == -1)
    return err(ERROR_LOCK_VIOLATION);
  f->locked = 1;
  return TRUE;
}

BOOL
UnlockFileEx(HANDLE h, DWORD res, DWORD lo, DWORD hi, OVERLAPPED *ol) {
  int fd = handle_fd(h), r;
  struct wfile *f;
  struct flock l;
  (void)res; (void)lo; (void)hi; (void)ol;
  if (fd < 0 || (f = wfile(fd)) == NULL || !f->locked)
    return err(ERROR_INVALID_HANDLE);
  memset(&l, 0, sizeof(l));
  l.l_type = F_UNLCK;
  AGAIN(r, hx_fcntl(fd, F_OFD_SETLK, &l));
  if (r == -1)
    return bad();
  f->locked = 0;
  return TRUE;
}

HANDLE
CreateFileMappingA(HANDLE h, void *sec, DWORD prot, DWORD hi, DWORD lo, LPCSTR name) {
  int fd = handle_fd(h), r;
  struct stat st;
  HANDLE m;
  (void)sec; (void)name;
  if (prot != PAGE_READONLY || hi || lo)
    mc_internal("this mapping is not modelled");
  AGAIN(r, fd < 0 ? -1 : hx_fstat(fd, &st));
  if (r == -1) {
    bad();
    return NULL;
  }
  if (st.st_size == 0) {
    err(ERROR_FILE_INVALID);
    return NULL;
  }
  m = obj_new(W_MAP);
  obj_get(m, W_MAP)->fd = fd;
  obj_get(m, W_MAP)->size = st.st_size;
  return m;
}

void *
MapViewOfFile(HANDLE h, DWORD access, DWORD hi, DWORD lo, size_t n) {
  struct wobj *o = obj_get(h, W_MAP);
  struct stat st;
  void *p;
  int i;
  if (o == NULL) {
    err(ERROR_INVALID_HANDLE);
    return NULL;
  }
  if (access != FILE_MAP_READ || hi || lo || n)
    mc_internal("this view is not modelled");
  for (i = 0; i < NVIEW; i++)
    if (!view[i].base)
      break;
  if (i == NVIEW)
    mc_internal("out of views");
  if (hx_fstat(o->fd, &st) == -1) {
    bad();
    return NULL;
  }
  p = hx_mmap(NULL, o->size, PROT_READ, MAP_SHARED, o->fd, 0);
  if (p == MAP_FAILED) {
    bad();
    return NULL;
  }
  view[i].base = p;
  view[i].size = o->size;
  view[i].ino = st.st_ino;
  view[i].proc = env_proc();
  return p;
}

BOOL
UnmapViewOfFile(const void *p) {
  int i;
  for (i = 0; i < NVIEW; i++)
    if (view[i].base && view[i].base == p)
      break;
  if (i == NVIEW)
    return err(ERROR_INVALID_PARAMETER);
  if (hx_munmap(view[i].base, view[i].size) != 0)
    return bad();
  memset(&view[i], 0, sizeof(view[i]));
  return TRUE;
}

/* ------------------------------------------------------------------ */
/* Paths, time, random numbers                                          */
/* ------------------------------------------------------------------ */

DWORD
GetCurrentDirectoryA(DWORD n, char *out) {
  char buf[2048];
  size_t i, l;
  buf[0] = 'C';
  buf[1] = ':';
  if (hx_getcwd(buf + 2, sizeof(buf) - 2) == NULL) {
    bad();
    return 0;
  }
  l = strlen(buf);
  if (l + 1 > n)
    return l + 1;
  for (i = 0; i <= l; i++)
    out[i] = buf[i] == '/' ? '\\' : buf[i];
  return l;
}

DWORD
GetFullPathNameA(LPCSTR path, DWORD n, char *out, char **part) {
  char in[4400], res[4400];
  size_t w = 0, i, j, l;
  (void)part;
  if (path == NULL || path[0] == 0) {
    err(ERROR_INVALID_PARAMETER);
    return 0;
  }
  if (strlen(path) > 2000)
    return strlen(path) + 1;
  tr(in, 2100, path);
  if (in[0] != '/') {
    char cwd[2100];
    if (hx_getcwd(cwd, sizeof(cwd)) == NULL) {
      bad();
      return 0;
    }
    snprintf(in, sizeof(in), "%s/", cwd);
    tr(in + strlen(in), 2100, path);
  }
  for (i = 0; in[i];) {
    while (in[i] == '/')
      i++;
    for (j = i; in[j] && in[j] != '/'; j++)
      ;
    if (j - i == 2 && in[i] == '.' && in[i + 1] == '.') {
      while (w > 0 && res[--w] != '\\')
        ;
    } else if (j > i && !(j - i == 1 && in[i] == '.')) {
      res[w++] = '\\';
      memcpy(res + w, in + i, j - i);
      w += j - i;
    } else if (j == i && w == 0) {
      break;
    }
    i = j;
  }
  if (w == 0)
    res[w++] = '\\';
  res[w] = 0;
  l = w + 2;
  if (l + 1 > n)
    return l + 1;
  snprintf(out, n, "C:%s", res);
  return l;
}

void
GetSystemTimeAsFileTime(FILETIME *f) {
  struct timespec ts;
  hx_clock_gettime(0, &ts);
  ftime(f, &ts);
}

BOOLEAN
SystemFunction036(PVOID buf, ULONG len) {
  return hx_getrandom(buf, len, 0) == (ssize_t)len;
}

/* ------------------------------------------------------------------ */
/* Threads                                                              */
/* ------------------------------------------------------------------ */

void InitializeCriticalSection(CRITICAL_SECTION *c) { c->owner = NULL; hx_pthread_mutex_init(c->mtx, NULL); }
void DeleteCriticalSection(CRITICAL_SECTION *c) { hx_pthread_mutex_destroy(c->mtx); }
void EnterCriticalSection(CRITICAL_SECTION *c) { hx_pthread_mutex_lock(c->mtx); }
void LeaveCriticalSection(CRITICAL_SECTION *c) { hx_pthread_mutex_unlock(c->mtx); }

HANDLE
CreateSemaphoreA(void *sec, LONG init, LONG max, LPCSTR name) {
  HANDLE h = obj_new(W_SEM);
  struct wobj *o = obj_get(h, W_SEM);
  (void)sec; (void)name;
  o->count = init;
  o->max = max;
  hx_pthread_mutex_init(o->mtx, NULL);
  hx_pthread_cond_init(o->cond, NULL);
  return h;
}

BOOL
ReleaseSemaphore(HANDLE h, LONG n, LONG *prev) {
  struct wobj *o = obj_get(h, W_SEM);
  if (o == NULL)
    return err(ERROR_INVALID_HANDLE);
  hx_pthread_mutex_lock(o->mtx);
  if (prev)
    *prev = o->count;
  if (o->count + n > o->max) {
    hx_pthread_mutex_unlock(o->mtx);
    return err(ERROR_INVALID_PARAMETER);
  }
  o->count += n;
  hx_pthread_cond_broadcast(o->cond);
  hx_pthread_mutex_unlock(o->mtx);
  return TRUE;
}

DWORD
WaitForSingleObject(HANDLE h, DWORD ms) {
  struct wobj *o = obj_get(h, W_SEM);
  if (o == NULL) {
    err(ERROR_INVALID_HANDLE);
    return WAIT_FAILED;
  }
  hx_pthread_mutex_lock(o->mtx);
  while (o->count == 0) {
    if (ms != INFINITE) {
      hx_pthread_mutex_unlock(o->mtx);
      return WAIT_TIMEOUT;
    }
    hx_pthread_cond_wait(o->cond, o->mtx);
  }
  o->count -= 1;
  hx_pthread_mutex_unlock(o->mtx);
  return WAIT_OBJECT_0;
}
