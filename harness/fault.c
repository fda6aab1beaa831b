/* LD_PRELOAD shim that observes and disturbs the file operations of a conversion.
 *
 *   FAULT_DIR    only operations on paths below this directory count (set by the check, a scratch directory)
 *   FAULT_LOG    file that receives one line per operation
 *   FAULT_AT     number of the operation to disturb (1..), 0 = none
 *   FAULT_KIND   "kill" _exit before the operation, "killafter" _exit after it, "errno:<n>" let it fail,
 *                "short" write only half of the bytes and report that
 *   FAULT_STICKY 1 = every later operation of the same type fails as well
 *
 * Operations: open for writing, write, close of a written file, rename, unlink, read of a regular file.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <limits.h>

static char dir_[PATH_MAX]; static size_t dirlen;
static int logfd = -1, at_, count_, sticky_, err_, inited; static char kind_[32]; static char type_hit[16];
static char fdw[4096], fdr[4096];

static void init(void)
{
  if (inited) return;
  inited = 1;
  const char* d = getenv("FAULT_DIR");
  if (!d) return;
  strncpy(dir_, d, sizeof dir_ - 1); dirlen = strlen(dir_);
  const char* l = getenv("FAULT_LOG");
  if (l) logfd = (int)syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
  at_ = atoi(getenv("FAULT_AT") ? getenv("FAULT_AT") : "0");
  sticky_ = atoi(getenv("FAULT_STICKY") ? getenv("FAULT_STICKY") : "0");
  strncpy(kind_, getenv("FAULT_KIND") ? getenv("FAULT_KIND") : "", sizeof kind_ - 1);
  if (!strncmp(kind_, "errno:", 6)) err_ = atoi(kind_ + 6);
}

static int inside(const char* path)
{
  init();
  if (!dirlen || !path) return 0;
  if (path[0] == '/') return !strncmp(path, dir_, dirlen);
  char cwd[PATH_MAX];
  return getcwd(cwd, sizeof cwd) && !strncmp(cwd, dir_, dirlen);
}

static void note(const char* what, const char* arg)
{
  char b[600]; int n = snprintf(b, sizeof b, "%d %s %s\n", count_, what, arg ? arg : "");
  if (logfd >= 0 && n > 0) syscall(SYS_write, logfd, b, (size_t)(n < (int)sizeof b ? n : (int)sizeof b - 1));
}

/* -> 0 go on, 1 fail with errno, 2 go on and exit afterwards, 3 short write */
static int event(const char* what, const char* arg)
{
  count_++;
  note(what, arg);
  int hit = at_ && count_ == at_;
  if (hit) strncpy(type_hit, what, sizeof type_hit - 1);
  if (!hit && !(sticky_ && at_ && count_ > at_ && !strcmp(type_hit, what))) return 0;
  if (!strcmp(kind_, "kill") && hit) { note("killed", what); _exit(137); }
  if (!strcmp(kind_, "killafter") && hit) return 2;
  if (!strcmp(kind_, "short") && hit) return strcmp(what, "write") ? 0 : 3;
  if (err_) { note("failed", what); errno = err_; return 1; }
  return 0;
}
static void after(int e, const char* what) { if (e == 2) { note("killed after", what); _exit(137); } }

typedef int (*open_t)(const char*, int, ...);
static int do_open(const char* name, const char* path, int flags, mode_t mode, int isat)
{
  open_t real = (open_t)dlsym(RTLD_NEXT, name);
  int w = (flags & O_ACCMODE) != O_RDONLY, in = inside(path), e = 0;
  if (in) { e = event(w ? "openw" : "openr", path); if (e == 1) return -1; }
  int fd = real(path, flags, mode);
  if (in) after(e, "open");
  if (in && fd >= 0 && fd < 4096) { fdw[fd] = w; fdr[fd] = !w; }
  return fd;
}
int open(const char* p, int f, ...) { va_list a; va_start(a, f); mode_t m = va_arg(a, mode_t); va_end(a); return do_open("open", p, f, m, 0); }
int open64(const char* p, int f, ...) { va_list a; va_start(a, f); mode_t m = va_arg(a, mode_t); va_end(a); return do_open("open64", p, f, m, 0); }

typedef FILE* (*fopen_t)(const char*, const char*);
static FILE* do_fopen(const char* name, const char* path, const char* mode)
{
  fopen_t real = (fopen_t)dlsym(RTLD_NEXT, name);
  int w = strpbrk(mode, "wa+") != NULL, in = inside(path), e = 0;
  if (in) { e = event(w ? "openw" : "openr", path); if (e == 1) return NULL; }
  FILE* f = real(path, mode);
  if (in) after(e, "open");
  if (in && f) { int fd = fileno(f); if (fd >= 0 && fd < 4096) { fdw[fd] = w; fdr[fd] = !w; } }
  return f;
}
FILE* fopen(const char* p, const char* m) { return do_fopen("fopen", p, m); }
FILE* fopen64(const char* p, const char* m) { return do_fopen("fopen64", p, m); }

ssize_t write(int fd, const void* b, size_t n)
{
  static ssize_t (*real)(int, const void*, size_t);
  if (!real) real = (ssize_t(*)(int, const void*, size_t))dlsym(RTLD_NEXT, "write");
  int e = 0;
  if (fd >= 0 && fd < 4096 && fdw[fd]) { e = event("write", NULL); if (e == 1) return -1; if (e == 3) n = (n + 1) / 2; }
  ssize_t r = real(fd, b, n);
  after(e, "write");
  return r;
}
ssize_t writev(int fd, const struct iovec* v, int c)
{
  static ssize_t (*real)(int, const struct iovec*, int);
  if (!real) real = (ssize_t(*)(int, const struct iovec*, int))dlsym(RTLD_NEXT, "writev");
  int e = 0;
  if (fd >= 0 && fd < 4096 && fdw[fd]) { e = event("write", NULL); if (e == 1) return -1; if (e == 3 && c > 1) c = 1; }
  ssize_t r = real(fd, v, c);
  after(e, "write");
  return r;
}
ssize_t read(int fd, void* b, size_t n)
{
  static ssize_t (*real)(int, void*, size_t);
  if (!real) real = (ssize_t(*)(int, void*, size_t))dlsym(RTLD_NEXT, "read");
  int e = 0;
  if (fd >= 0 && fd < 4096 && fdr[fd]) { e = event("read", NULL); if (e == 1) return -1; }
  ssize_t r = real(fd, b, n);
  after(e, "read");
  return r;
}
int close(int fd)
{
  static int (*real)(int);
  if (!real) real = (int (*)(int))dlsym(RTLD_NEXT, "close");
  int e = 0, w = fd >= 0 && fd < 4096 && fdw[fd];
  if (fd >= 0 && fd < 4096) fdw[fd] = fdr[fd] = 0;
  if (w) e = event("close", NULL);
  int r = real(fd);
  after(e, "close");
  if (e == 1) { errno = err_; return -1; }
  return r;
}
int fclose(FILE* f)
{
  static int (*real)(FILE*);
  if (!real) real = (int (*)(FILE*))dlsym(RTLD_NEXT, "fclose");
  int fd = fileno(f), e = 0, w = fd >= 0 && fd < 4096 && fdw[fd];
  if (fd >= 0 && fd < 4096) fdw[fd] = fdr[fd] = 0;
  if (w) e = event("close", NULL);
  int r = real(f);
  after(e, "close");
  if (e == 1) { errno = err_; return -1; }
  return r;
}
int rename(const char* a, const char* b)
{
  static int (*real)(const char*, const char*);
  if (!real) real = (int (*)(const char*, const char*))dlsym(RTLD_NEXT, "rename");
  int e = 0;
  if (inside(a) || inside(b)) { e = event("rename", b); if (e == 1) return -1; }
  int r = real(a, b);
  after(e, "rename");
  return r;
}
static int do_unlink(const char* name, const char* p)
{
  int (*real)(const char*) = (int (*)(const char*))dlsym(RTLD_NEXT, name);
  int e = 0;
  if (inside(p)) { e = event("unlink", p); if (e == 1) return -1; }
  int r = real(p);
  after(e, "unlink");
  return r;
}
int unlink(const char* p) { return do_unlink("unlink", p); }
int remove(const char* p) { return do_unlink("remove", p); }
