// The simulated disk. Every file the code under test opens for writing lives
// here and nowhere else; opening, writing and closing fail as the plan says.
// The data of an open file sits in an anonymous memory file, so that whatever
// way the bytes are written they arrive.
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#include "rt.h"

namespace rt {
struct DFile { char path[512]; char* data; size_t n; bool exists; };
static DFile files[64];
static int nfiles = 0;
struct DFd { bool used; int file; int op; };
static DFd fds[1024];
static struct { int op; int file; } touched[4096];
static int ntouched = 0;

static int find_file(const char* p, bool make) {
  for (int i = 0; i < nfiles; ++i) if (!strcmp(files[i].path, p)) return i;
  if (!make || nfiles >= 64 || strlen(p) >= sizeof files[0].path) return -1;
  strcpy(files[nfiles].path, p);
  return nfiles++;
}
static void touch(int f) { if (ntouched < 4096) { touched[ntouched].op = current_op(); touched[ntouched++].file = f; } }
static bool ours(int fd) { return fd >= 0 && fd < 1024 && fds[fd].used; }
static void pull(int from, int file) {
  ModeGuard g(HOST);
  struct stat st;
  if (fstat(from, &st)) return;
  DFile& f = files[file];
  f.data = (char*)realloc(f.data, (size_t)st.st_size + 1);
  ssize_t n = pread(from, f.data, (size_t)st.st_size, 0);
  f.n = n < 0 ? 0 : (size_t)n;
}
static bool elsewhere(const char* p) {
  for (const char* s : {"/proc/", "/sys/", "/dev/", "/etc/", "/lib", "/usr/"}) if (!strncmp(p, s, strlen(s))) return true;
  return false;
}
// -2: not a matter of the simulated disk
static int dopen(const char* path, int flags) {
  if (!in_lib() || elsewhere(path)) return -2;
  bool wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  int k = find_file(path, false);
  if (!wr && k < 0) return -2;
  yield_point();
  OpFault& f = op_fault();
  if (f.disk_open) { count_fault(F_DISK_OPEN); ++op_dep().disk_bad; errno = f.disk_open; return -1; }
  ModeGuard g(HOST);
  k = find_file(path, true);
  if (k < 0) { errno = EMFILE; return -1; }
  if (!files[k].exists && !(flags & O_CREAT)) { errno = ENOENT; return -1; }
  if (files[k].exists && (flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
  int fd = memfd_create("simulated disk", 0);
  if (fd < 0 || fd >= 1024) { if (fd >= 0) syscall(SYS_close, fd); errno = EMFILE; return -1; }
  files[k].exists = true;
  if (flags & O_TRUNC) files[k].n = 0;
  else if (files[k].n) { if (syscall(SYS_write, fd, files[k].data, files[k].n) < 0) {} lseek(fd, 0, SEEK_SET); }
  if (flags & O_APPEND) fcntl(fd, F_SETFL, O_APPEND);
  fds[fd] = DFd{true, k, current_op()};
  if (wr) touch(k);
  return fd;
}
static int dclose(int fd, int copy) {
  pull(copy, fds[fd].file);
  fds[fd].used = false;
  OpFault& f = op_fault();
  if (f.disk_close && in_lib()) { count_fault(F_DISK_CLOSE); ++op_dep().disk_bad; return f.disk_close; }
  return 0;
}
// bytes to write of n, or -1 with errno
static ssize_t dwrite(int fd, size_t n) {
  yield_point();
  touch(fds[fd].file);
  if (!in_lib()) return (ssize_t)n;
  OpFault& f = op_fault();
  DepTrace& d = op_dep();
  ++d.disk_writes;
  if (f.disk_k <= 0 || d.disk_writes < f.disk_k) return (ssize_t)n;
  bool at = d.disk_writes == f.disk_k;
  switch (f.disk_kind) {
    case 1: if (at && n > 1) { count_fault(F_DISK_SHORT); return (ssize_t)(1 + (n - 1) * (f.disk_arg % 100) / 100); } break;
    case 2: if (at) { count_fault(F_DISK_INTR); errno = EINTR; return -1; } break;
    case 3: if (at) { count_fault(F_DISK_ERROR); ++d.disk_bad; errno = f.disk_arg; return -1; } break;
    case 4: count_fault(F_DISK_ERROR); ++d.disk_bad; errno = f.disk_arg; return -1;
  }
  return (ssize_t)n;
}
// what the operation left: 0 nothing written, 1 the file it names, 2 others as well
std::string disk_report(int op, const char* name, int* open_files) {
  ModeGuard g(HOST);
  std::string other;
  bool self = false;
  size_t L = strlen(name);
  for (int i = 0; i < ntouched; ++i) if (touched[i].op == op) {
    const DFile& f = files[touched[i].file];
    size_t l = strlen(f.path);
    if (L && l >= L && !strcmp(f.path + l - L, name) && (l == L || f.path[l - L - 1] == '/')) self = true;
    else if (f.exists) other = f.path;
  }
  *open_files = 0;
  for (auto& d : fds) if (d.used && d.op == op) ++*open_files;
  for (int i = 0; i < ntouched; ++i) if (touched[i].op == op) { touched[i] = touched[--ntouched]; --i; }
  return (self ? "+" : "-") + other;
}
bool disk_read(const char* name, std::string& out) {
  ModeGuard g(HOST);
  size_t L = strlen(name);
  out.clear();
  for (int i = 0; i < nfiles; ++i) {
    size_t l = strlen(files[i].path);
    if (!files[i].exists || l < L || strcmp(files[i].path + l - L, name) || (l > L && files[i].path[l - L - 1] != '/')) continue;
    for (int d = 0; d < 1024; ++d) if (fds[d].used && fds[d].file == i) pull(d, i);
    out.assign(files[i].data ? files[i].data : "", files[i].n);
    return true;
  }
  return false;
}
}  // namespace rt

using namespace rt;
extern "C" {
int open(const char* p, int flags, ...) {
  va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a);
  int r = dopen(p, flags);
  return r != -2 ? r : (int)syscall(SYS_openat, AT_FDCWD, p, flags, m);
}
int open64(const char* p, int flags, ...) {
  va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a);
  int r = dopen(p, flags);
  return r != -2 ? r : (int)syscall(SYS_openat, AT_FDCWD, p, flags, m);
}
int openat(int at, const char* p, int flags, ...) {
  va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a);
  int r = at == AT_FDCWD || p[0] == '/' ? dopen(p, flags) : -2;
  return r != -2 ? r : (int)syscall(SYS_openat, at, p, flags, m);
}
int creat(const char* p, mode_t m) {
  int r = dopen(p, O_WRONLY | O_CREAT | O_TRUNC);
  return r != -2 ? r : (int)syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_CREAT | O_TRUNC, m);
}
static FILE* simfopen(const char* p, const char* mode, const char* sym) {
  typedef FILE* (*fn)(const char*, const char*);
  if (in_lib()) {
    bool plus = strchr(mode, '+') != nullptr;
    int flags = (plus ? O_RDWR : mode[0] == 'r' ? O_RDONLY : O_WRONLY) | (mode[0] == 'w' ? O_CREAT | O_TRUNC : mode[0] == 'a' ? O_CREAT | O_APPEND : 0) |
                (strchr(mode, 'x') ? O_EXCL : 0);
    int r = dopen(p, flags);
    if (r == -1) return nullptr;
    if (r >= 0) { ModeGuard g(HOST); return fdopen(r, mode); }
  }
  fn f = (fn)dlsym(RTLD_NEXT, sym);
  return f(p, mode);
}
FILE* fopen(const char* p, const char* m) { return simfopen(p, m, "fopen"); }
FILE* fopen64(const char* p, const char* m) { return simfopen(p, m, "fopen64"); }
ssize_t write(int fd, const void* b, size_t n) {
  if (ours(fd)) { ssize_t k = dwrite(fd, n); if (k < 0) return k; n = (size_t)k; }
  return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (!ours(fd)) return syscall(SYS_writev, fd, v, c);
  size_t n = 0; for (int i = 0; i < c; ++i) n += v[i].iov_len;
  ssize_t k = dwrite(fd, n);
  if (k < 0) return k;
  ssize_t done = 0;
  for (int i = 0; i < c && done < k; ++i) {
    size_t m = v[i].iov_len; if ((ssize_t)m > k - done) m = (size_t)(k - done);
    if (syscall(SYS_write, fd, v[i].iov_base, m) != (ssize_t)m) return done ? done : -1;
    done += (ssize_t)m;
  }
  return done;
}
int close(int fd) {
  if (!ours(fd)) return (int)syscall(SYS_close, fd);
  yield_point();
  int e = dclose(fd, fd);
  syscall(SYS_close, fd);
  if (e) { errno = e; return -1; }
  return 0;
}
int fclose(FILE* f) {
  typedef int (*fn)(FILE*);
  static fn real; if (!real) real = (fn)dlsym(RTLD_NEXT, "fclose");
  int fd = f ? fileno(f) : -1;
  if (!ours(fd)) return real(f);
  yield_point();
  int copy = dup(fd), r;
  { ModeGuard g(HOST); r = real(f); }
  int e = dclose(fd, copy);
  syscall(SYS_close, copy);
  if (e) { errno = e; return EOF; }
  return r;
}
int rename(const char* a, const char* b) {
  int k = in_lib() ? find_file(a, false) : -1;
  if (k < 0 || !files[k].exists) return (int)syscall(SYS_rename, a, b);
  yield_point();
  ModeGuard g(HOST);
  int t = find_file(b, true);
  if (t < 0) { errno = ENOSPC; return -1; }
  files[t].data = (char*)realloc(files[t].data, files[k].n + 1);
  memcpy(files[t].data, files[k].data, files[k].n);
  files[t].n = files[k].n; files[t].exists = true;
  files[k].exists = false; files[k].n = 0;
  touch(t);
  return 0;
}
int unlink(const char* a) {
  int k = in_lib() ? find_file(a, false) : -1;
  if (k < 0 || !files[k].exists) return in_lib() && !elsewhere(a) ? (errno = ENOENT, -1) : (int)syscall(SYS_unlink, a);
  files[k].exists = false; files[k].n = 0;
  touch(k);
  return 0;
}
int remove(const char* a) { return unlink(a); }
}
