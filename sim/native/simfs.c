/* Storage of one directory behind a seam: preloaded into the workers of P11, inert until simfs_arm() is called.
   Every operation on a path below the armed directory is counted; the operation number `at` is the one that fails, is cut short,
   or is the moment at which the process dies.  fsync copies the file to a shadow directory: what survives a loss of power. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

enum { NONE, ERROR, CRASH, SHORT, STICKY, READERR };
struct state { long n, at, mode, err, armed, fired, reads, shorts, what; };
static struct state *S;
static char dir[PATH_MAX], shadow[PATH_MAX];
static size_t dirlen;

void simfs_init(void *p) { S = (struct state *)p; }
void simfs_arm(const char *d, const char *sh, long at, long mode, long err) {
  strcpy(dir, d); dirlen = strlen(d); strcpy(shadow, sh);
  memset(S, 0, sizeof *S);
  S->at = at; S->mode = mode; S->err = err; S->armed = 1;
}
void simfs_off(void) { if (S) S->armed = 0; }

static int below(const char *p) {
  char full[PATH_MAX * 2], cwd[PATH_MAX];
  if (!S || !S->armed || !p) return 0;
  if (p[0] != '/') {
    if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) return 0;
    snprintf(full, sizeof full, "%s/%s", cwd, p);
    p = full;
  }
  return strncmp(p, dir, dirlen) == 0 && (p[dirlen] == '/' || p[dirlen] == 0);
}
static int fdbelow(int fd) {
  char l[64], p[PATH_MAX];
  if (!S || !S->armed || fd < 3) return 0;
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t n = syscall(SYS_readlink, l, p, sizeof p - 1);
  if (n <= 0) return 0;
  p[n] = 0;
  return below(p);
}
enum { GO, FAIL, HALF, DIE };
/* kind: 1 open for writing, 2 write, 3 rename/link, 4 unlink, 5 sync, 6 truncate, 7 metadata, 8 read, 9 open for reading */
static int decide(int kind) {
  int rd = kind >= 8;
  if (rd) S->reads++;
  if ((S->mode == READERR) != rd) return GO;
  long n = ++S->n;
  if (S->mode == STICKY && n >= S->at && (kind <= 2 || kind == 6)) { S->fired++; S->what = kind; errno = (int)S->err; return FAIL; }
  if (S->at == 0 || n != S->at) return GO;
  S->what = kind;
  if (S->mode == ERROR || S->mode == READERR) { S->fired++; errno = (int)S->err; return FAIL; }
  if (S->mode == SHORT) { if (kind != 2) { S->at++; return GO; } S->fired++; return HALF; }
  if (S->mode == CRASH) { S->fired++; return DIE; }
  return GO;
}
static void die(void) { syscall(SYS_exit_group, 77); for (;;) ; }
static void keep(int fd) {
  struct stat st; char p[PATH_MAX * 2], buf[65536]; ssize_t n; off_t o = 0;
  if (fstat(fd, &st)) return;
  snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
  int in = (int)syscall(SYS_openat, AT_FDCWD, p, O_RDONLY);
  if (in < 0) return;
  snprintf(p, sizeof p, "%s/%lu", shadow, (unsigned long)st.st_ino);
  int out = (int)syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_CREAT | O_TRUNC, 0600);
  while ((n = syscall(SYS_pread64, in, buf, sizeof buf, o)) > 0) { syscall(SYS_write, out, buf, n); o += n; }
  syscall(SYS_close, in); syscall(SYS_close, out);
}

static int do_open(int dfd, const char *p, int flags, mode_t m) {
  if (below(p)) {
    int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    int d = decide(w ? 1 : 9);
    if (d == FAIL) return -1;
    if (d == DIE) die();
  }
  return (int)syscall(SYS_openat, dfd, p, flags, m);
}
#define OPEN(NAME) int NAME(const char *p, int flags, ...) { mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); } return do_open(AT_FDCWD, p, flags, m); }
OPEN(open) OPEN(open64)
#define OPENAT(NAME) int NAME(int dfd, const char *p, int flags, ...) { mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); } return do_open(dfd, p, flags, m); }
OPENAT(openat) OPENAT(openat64)
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static ssize_t wr(int fd, const void *b, size_t n, off_t o, int at) {
  if (fdbelow(fd)) {
    int d = decide(2);
    if (d == FAIL) return -1;
    if (d == HALF) n = n > 1 ? n / 2 : n;
    if (d == DIE) {
      if (n > 1) { if (at) syscall(SYS_pwrite64, fd, b, n / 2, o); else syscall(SYS_write, fd, b, n / 2); }
      die();
    }
  }
  return at ? syscall(SYS_pwrite64, fd, b, n, o) : syscall(SYS_write, fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) { return wr(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return wr(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return wr(fd, b, n, o, 1); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (fdbelow(fd)) { int d = decide(2); if (d == FAIL) return -1; if (d == DIE) die(); }
  return syscall(SYS_writev, fd, v, c);
}
static ssize_t rd(int fd, void *b, size_t n, off_t o, int at) {
  if (fdbelow(fd)) { int d = decide(8); if (d == FAIL) return -1; if (d == HALF && n > 1) n /= 2; }
  return at ? syscall(SYS_pread64, fd, b, n, o) : syscall(SYS_read, fd, b, n);
}
ssize_t read(int fd, void *b, size_t n) { return rd(fd, b, n, 0, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return rd(fd, b, n, o, 1); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return rd(fd, b, n, o, 1); }
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
  if (fdbelow(o)) { int d = decide(2); if (d == FAIL) return -1; if (d == DIE) die(); if (d == HALF && n > 1) n /= 2; }
  return syscall(SYS_sendfile, o, i, off, n);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { return sendfile(o, i, (off_t *)off, n); }
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) {
  if (fdbelow(o)) { int d = decide(2); if (d == FAIL) return -1; if (d == DIE) die(); if (d == HALF && n > 1) n /= 2; }
  return syscall(SYS_copy_file_range, i, io, o, oo, n, f);
}
#define META(KIND, COND, CALL) do { if (COND) { int d = decide(KIND); if (d == FAIL) return -1; if (d == DIE) die(); } return (int)CALL; } while (0)
int rename(const char *a, const char *b) { META(3, below(a) || below(b), syscall(SYS_rename, a, b)); }
int renameat(int x, const char *a, int y, const char *b) { META(3, below(a) || below(b), syscall(SYS_renameat, x, a, y, b)); }
int renameat2(int x, const char *a, int y, const char *b, unsigned f) { META(3, below(a) || below(b), syscall(SYS_renameat2, x, a, y, b, f)); }
int link(const char *a, const char *b) { META(3, below(a) || below(b), syscall(SYS_link, a, b)); }
int linkat(int x, const char *a, int y, const char *b, int f) { META(3, below(a) || below(b), syscall(SYS_linkat, x, a, y, b, f)); }
int unlink(const char *p) { META(4, below(p), syscall(SYS_unlink, p)); }
int unlinkat(int x, const char *p, int f) { META(4, below(p), syscall(SYS_unlinkat, x, p, f)); }
int rmdir(const char *p) { META(4, below(p), syscall(SYS_rmdir, p)); }
int mkdir(const char *p, mode_t m) { META(7, below(p), syscall(SYS_mkdir, p, m)); }
int truncate(const char *p, off_t n) { META(6, below(p), syscall(SYS_truncate, p, n)); }
int truncate64(const char *p, off64_t n) { META(6, below(p), syscall(SYS_truncate, p, n)); }
int ftruncate(int fd, off_t n) { META(6, fdbelow(fd), syscall(SYS_ftruncate, fd, n)); }
int ftruncate64(int fd, off64_t n) { META(6, fdbelow(fd), syscall(SYS_ftruncate, fd, n)); }
int chmod(const char *p, mode_t m) { META(7, below(p), syscall(SYS_chmod, p, m)); }
int fchmod(int fd, mode_t m) { META(7, fdbelow(fd), syscall(SYS_fchmod, fd, m)); }
int fchmodat(int x, const char *p, mode_t m, int f) { META(7, below(p), syscall(SYS_fchmodat, x, p, m)); }
int fsync(int fd) {
  if (fdbelow(fd)) { int d = decide(5); if (d == FAIL) return -1; if (d == DIE) die(); keep(fd); }
  return 0;
}
int fdatasync(int fd) { return fsync(fd); }
