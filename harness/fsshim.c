/* LD_PRELOAD shim for the fault-injection checks: records the file system
   calls that concern files under one scratch directory, and makes chosen
   calls fail.  It decides nothing; the log is judged by specs/InPlace.tla. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static int armed = 0, logfd = -1, count = 0;
static char root[4096];
static size_t rootlen = 0;
/* faults: at call number at[i] fail with err[i]; kind 1: also every later
   call with the same name; kind 2 (writes): half is written, then disk full */
static int at[4], err[4], kind[4], nfault = 0, fired = 0;
static char sticky[4][16];
static int diskfull = 0;
static char tracked[4096];

#define REAL(name) ({ static void *p; if (!p) p = dlsym(RTLD_NEXT, name); p; })

void shim_arm(const char *dir, int fd, int n, const int *a, const int *e, const int *k) {
  snprintf(root, sizeof root, "%s/", dir);
  rootlen = strlen(root);
  logfd = fd; count = 0; nfault = n; fired = 0; diskfull = 0;
  for (int i = 0; i < n; i++) { at[i] = a[i]; err[i] = e[i]; kind[i] = k[i]; sticky[i][0] = 0; }
  memset(tracked, 0, sizeof tracked);
  armed = 1;
}
int shim_count(void) { return count; }
int shim_fired(void) { return fired; }
void shim_disarm(void) { armed = 0; }

static void put(const char *s, size_t n) { while (n) { long k = syscall(SYS_write, logfd, s, n); if (k <= 0) return; s += k; n -= k; } }
static void hex(const void *data, size_t n) {
  const unsigned char *d = data; char b[3];
  for (size_t i = 0; i < n; i++) { snprintf(b, 3, "%02x", d[i]); put(b, 2); }
}
static const char *name_at(int dfd, const char *path, char *buf) {
  char full[8192];
  if (!path) return NULL;
  if (path[0] == '/') snprintf(full, sizeof full, "%s", path);
  else if (dfd == AT_FDCWD) { char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) return NULL; snprintf(full, sizeof full, "%s/%s", cwd, path); }
  else return NULL;
  /* normalise . and .. */
  char *parts[512]; int n = 0; char copy[8192]; strcpy(copy, full);
  for (char *save, *p = strtok_r(copy, "/", &save); p; p = strtok_r(NULL, "/", &save)) {
    if (!strcmp(p, ".")) continue;
    if (!strcmp(p, "..")) { if (n) n--; continue; }
    if (n < 512) parts[n++] = p;
  }
  buf[0] = 0;
  for (int i = 0; i < n; i++) { strcat(buf, "/"); strcat(buf, parts[i]); }
  if (strncmp(buf, root, rootlen)) return NULL;
  return buf + rootlen;
}
/* returns 0 or the errno to fail with */
static int fault(const char *op) {
  count++;
  if (diskfull && (!strcmp(op, "write") || !strcmp(op, "sendfile"))) { fired++; return ENOSPC; }
  for (int i = 0; i < nfault; i++) {
    if (sticky[i][0] && !strcmp(sticky[i], op)) { fired++; return err[i]; }
    if (at[i] == count) {
      fired++;
      if (kind[i] == 1) strcpy(sticky[i], op);
      if (kind[i] == 2) { diskfull = 1; return (!strcmp(op, "write") || !strcmp(op, "sendfile")) ? -1 : ENOSPC; }
      return err[i];
    }
  }
  return 0;
}
static void rec(const char *op, const char *a, const char *b, long x, long y, long ret, const void *data, long n) {
  char buf[9000];
  snprintf(buf, sizeof buf, "%s\t%s\t%s\t%ld\t%ld\t%ld\t", op, a ? a : "", b ? b : "", x, y, ret);
  put(buf, strlen(buf));
  if (data && n > 0) hex(data, n);
  put("\n", 1);
}
static int istracked(int fd) { return armed && fd >= 0 && fd < 4096 && tracked[fd]; }

static int do_open(int dfd, const char *path, int flags, mode_t mode) {
  int (*f)(int, const char *, int, ...) = REAL("openat");
  char buf[8200]; const char *nm;
  if (!armed || !(nm = name_at(dfd, path, buf)) || (flags & O_DIRECTORY)) return f(dfd, path, flags, mode);
  int e = fault("open");
  if (e) { rec("open", nm, "", flags, 0, -1, 0, 0); errno = e < 0 ? ENOSPC : e; return -1; }
  int r = f(dfd, path, flags, mode); int save = errno;
  long m = 0;
  if (r >= 0) { struct stat st; if (!fstat(r, &st)) m = st.st_mode & 07777; if (r < 4096) tracked[r] = 1; }
  int acc = flags & O_ACCMODE;
  rec("open", nm, "", (acc != O_RDONLY ? 1 : 0) | (flags & O_CREAT ? 2 : 0) | (flags & O_TRUNC ? 4 : 0) | (flags & O_APPEND ? 8 : 0), m, r, 0, 0);
  errno = save;
  return r;
}
#define OPENMODE mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { OPENMODE return do_open(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { OPENMODE return do_open(AT_FDCWD, p, flags | O_LARGEFILE, m); }
int openat(int d, const char *p, int flags, ...) { OPENMODE return do_open(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { OPENMODE return do_open(d, p, flags | O_LARGEFILE, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

ssize_t write(int fd, const void *b, size_t n) {
  ssize_t (*f)(int, const void *, size_t) = REAL("write");
  if (!istracked(fd)) return f(fd, b, n);
  int e = fault("write");
  if (e > 0) { rec("write", "", "", fd, 0, -1, 0, 0); errno = e; return -1; }
  if (e < 0) n = n / 2;
  ssize_t r = f(fd, b, n); int save = errno;
  rec("write", "", "", fd, 0, r, b, r);
  errno = save;
  return r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  ssize_t (*f)(int, const void *, size_t, off64_t) = REAL("pwrite64");
  if (!istracked(fd)) return f(fd, b, n, o);
  int e = fault("write");
  if (e) { rec("pwrite", "", "", fd, o, -1, 0, 0); errno = e < 0 ? ENOSPC : e; return -1; }
  ssize_t r = f(fd, b, n, o); int save = errno;
  rec("pwrite", "", "", fd, o, r, b, r);
  errno = save;
  return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int n) {
  ssize_t (*f)(int, const struct iovec *, int) = REAL("writev");
  if (!istracked(fd)) return f(fd, v, n);
  ssize_t total = 0;
  for (int i = 0; i < n; i++) { ssize_t r = write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return total ? total : r; total += r; if ((size_t)r < v[i].iov_len) break; }
  return total;
}
ssize_t read(int fd, void *b, size_t n) {
  ssize_t (*f)(int, void *, size_t) = REAL("read");
  if (!istracked(fd)) return f(fd, b, n);
  int e = fault("read");
  if (e) { rec("read", "", "", fd, 0, -1, 0, 0); errno = e < 0 ? EIO : e; return -1; }
  ssize_t r = f(fd, b, n); int save = errno;
  rec("read", "", "", fd, 0, r, 0, 0);
  errno = save;
  return r;
}
int close(int fd) {
  int (*f)(int) = REAL("close");
  if (!istracked(fd)) return f(fd);
  int e = fault("close");
  int r = f(fd); int save = errno;
  tracked[fd] = 0;
  rec("close", "", "", fd, 0, r, 0, 0);
  if (e) { errno = e < 0 ? EIO : e; return -1; }
  errno = save;
  return r;
}
off64_t lseek64(int fd, off64_t o, int w) {
  off64_t (*f)(int, off64_t, int) = REAL("lseek64");
  off64_t r = f(fd, o, w);
  if (istracked(fd)) { int save = errno; rec("lseek", "", "", fd, 0, r, 0, 0); errno = save; }
  return r;
}
off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }
int dup(int fd) {
  int (*f)(int) = REAL("dup"); int r = f(fd);
  if (istracked(fd) && r >= 0 && r < 4096) { tracked[r] = 1; rec("dup", "", "", fd, 0, r, 0, 0); }
  return r;
}
static int do_rename(int d1, const char *a, int d2, const char *b, unsigned fl) {
  int (*f)(int, const char *, int, const char *) = REAL("renameat");
  char b1[8200], b2[8200];
  const char *n1 = armed ? name_at(d1, a, b1) : 0, *n2 = armed ? name_at(d2, b, b2) : 0;
  if (!n1 && !n2) return f(d1, a, d2, b);
  int e = fault("rename");
  if (e) { rec("rename", n1, n2, fl, 0, -1, 0, 0); errno = e < 0 ? ENOSPC : e; return -1; }
  int r = fl ? (int)syscall(SYS_renameat2, d1, a, d2, b, fl) : f(d1, a, d2, b); int save = errno;
  rec("rename", n1, n2, fl, 0, r, 0, 0);
  errno = save;
  return r;
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int d1, const char *a, int d2, const char *b) { return do_rename(d1, a, d2, b, 0); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned fl) { return do_rename(d1, a, d2, b, fl); }

#define PATHOP(op, real, args, call, x) \
  int (*f) args = REAL(real); char buf[8200]; \
  const char *nm = armed ? name_at(AT_FDCWD, p, buf) : 0; \
  if (!nm) return f call; \
  int e = fault(op); \
  if (e) { rec(op, nm, "", x, 0, -1, 0, 0); errno = e < 0 ? EIO : e; return -1; } \
  int r = f call; int save = errno; rec(op, nm, "", x, 0, r, 0, 0); errno = save; return r;
int unlink(const char *p) { PATHOP("unlink", "unlink", (const char *), (p), 0) }
int remove(const char *p) { PATHOP("unlink", "remove", (const char *), (p), 0) }
int chmod(const char *p, mode_t m) { PATHOP("chmod", "chmod", (const char *, mode_t), (p, m), m) }
int truncate64(const char *p, off64_t n) { PATHOP("truncate", "truncate64", (const char *, off64_t), (p, n), n) }
int truncate(const char *p, off_t n) { return truncate64(p, n); }
int unlinkat(int d, const char *p, int fl) {
  if (d == AT_FDCWD && !fl) return unlink(p);
  int (*f)(int, const char *, int) = REAL("unlinkat"); return f(d, p, fl);
}
int fchmodat(int d, const char *p, mode_t m, int fl) {
  if (d == AT_FDCWD) return chmod(p, m);
  int (*f)(int, const char *, mode_t, int) = REAL("fchmodat"); return f(d, p, m, fl);
}
int fchmod(int fd, mode_t m) {
  int (*f)(int, mode_t) = REAL("fchmod");
  if (!istracked(fd)) return f(fd, m);
  int e = fault("chmod");
  if (e) { rec("fchmod", "", "", fd, m, -1, 0, 0); errno = e < 0 ? EIO : e; return -1; }
  int r = f(fd, m); int save = errno; rec("fchmod", "", "", fd, m, r, 0, 0); errno = save; return r;
}
int ftruncate64(int fd, off64_t n) {
  int (*f)(int, off64_t) = REAL("ftruncate64");
  if (!istracked(fd)) return f(fd, n);
  int e = fault("ftruncate");
  if (e) { rec("ftruncate", "", "", fd, n, -1, 0, 0); errno = e < 0 ? EIO : e; return -1; }
  int r = f(fd, n); int save = errno; rec("ftruncate", "", "", fd, n, r, 0, 0); errno = save; return r;
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int fsync(int fd) {
  int (*f)(int) = REAL("fsync");
  if (!istracked(fd)) return f(fd);
  int e = fault("fsync");
  if (e) { rec("fsync", "", "", fd, 0, -1, 0, 0); errno = e < 0 ? EIO : e; return -1; }
  int r = f(fd); rec("fsync", "", "", fd, 0, r, 0, 0); return r;
}
int link(const char *a, const char *b) {
  int (*f)(const char *, const char *) = REAL("link"); char b1[8200], b2[8200];
  const char *n1 = armed ? name_at(AT_FDCWD, a, b1) : 0, *n2 = armed ? name_at(AT_FDCWD, b, b2) : 0;
  if (!n1 && !n2) return f(a, b);
  int e = fault("link");
  if (e) { rec("link", n1, n2, 0, 0, -1, 0, 0); errno = e < 0 ? EIO : e; return -1; }
  int r = f(a, b); int save = errno; rec("link", n1, n2, 0, 0, r, 0, 0); errno = save; return r;
}
/* data moves inside the kernel: perform them with read and write, so that
   they are seen */
ssize_t sendfile64(int out, int in, off64_t *off, size_t n) {
  ssize_t (*f)(int, int, off64_t *, size_t) = REAL("sendfile64");
  if (!istracked(out) && !istracked(in)) return f(out, in, off, n);
  char *b = malloc(n > 1 << 16 ? 1 << 16 : n + 1);
  if (n > 1 << 16) n = 1 << 16;
  ssize_t r;
  if (off) { r = pread64(in, b, n, *off); if (r > 0) *off += r; } else r = read(in, b, n);
  if (r > 0) r = write(out, b, r);
  int save = errno; free(b); errno = save;
  return r;
}
ssize_t sendfile(int out, int in, off_t *off, size_t n) { return sendfile64(out, in, (off64_t *)off, n); }
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned fl) {
  ssize_t (*f)(int, off64_t *, int, off64_t *, size_t, unsigned) = REAL("copy_file_range");
  if (!istracked(out) && !istracked(in)) return f(in, oi, out, oo, n, fl);
  if (oi || oo) { errno = EXDEV; return -1; }
  return sendfile64(out, in, NULL, n);
}
