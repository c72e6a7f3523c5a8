// File operations of the code under test, seen from below: libstdc++ calls these symbols, the executable defines them.
// One operation may fail, write less than asked for (and then nothing more), or be the point at which the process dies.
// Only operations on paths below the scratch directory, while armed, are affected; everything else is passed on.
#pragma once
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <set>
#include <string>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
namespace fsfault {
  enum Kind { none, fail, partial, die_before, die_after, die_within };
  struct State {
    bool armed = false, full = false;
    int count = 0, at = -1, error = ENOSPC;
    Kind kind = none;
    std::string root;
    std::set<int> fds;
    std::vector<std::string> log; // operations, for the reports
    void (*rival)(std::string const &operation) = nullptr; // another process acts right before the operation
  };
  inline State st;
  template <class T> T next(char const *name) { return (T)dlsym(RTLD_NEXT, name); }
  inline bool below(char const *p) {
    if (!st.armed || !p) return false;
    std::string s = p;
    if (!s.empty() && s[0] != '/') { char b[4096]; if (getcwd(b, sizeof b)) s = std::string(b) + "/" + s; }
    return s.compare(0, st.root.size(), st.root) == 0;
  }
  // 0: do it, 1: fail, 2: partial write, 3: do it and die, 4: write a part and die
  inline int step(std::string what) {
    st.log.push_back(what);
    if (st.rival) { st.armed = false; st.rival(what); st.armed = true; }
    int i = st.count++;
    if (st.full && what.compare(0, 5, "write") == 0) return 1;
    if (i != st.at) return 0;
    switch (st.kind) {
    case none: return 0;
    case fail: return 1;
    case partial: return 2;
    case die_before: _exit(77);
    case die_after: return 3;
    case die_within: return 4;
    }
    return 0;
  }
  inline void arm(std::string root, int at, Kind k) { st = State(); st.root = root; st.at = at; st.kind = k; st.armed = true; }
  inline void disarm() { st.armed = false; }
}
extern "C" {
FILE *fopen(const char *p, const char *m) {
  using namespace fsfault;
  auto real = next<FILE *(*)(const char *, const char *)>("fopen");
  bool w = strpbrk(m, "wa+");
  if (!w || !below(p)) return real(p, m);
  int s = step("open " + std::string(p));
  if (s == 1) { errno = EACCES; return nullptr; }
  FILE *f = real(p, m);
  if (f) st.fds.insert(fileno(f));
  if (s >= 3) _exit(77);
  return f;
}
int open(const char *p, int flags, ...) {
  using namespace fsfault;
  mode_t mode = 0;
  if (flags & O_CREAT) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); }
  auto real = next<int (*)(const char *, int, ...)>("open");
  if (!(flags & (O_WRONLY | O_RDWR)) || !below(p)) return real(p, flags, mode);
  int s = step("open " + std::string(p));
  if (s == 1) { errno = EACCES; return -1; }
  int f = real(p, flags, mode);
  if (f >= 0) st.fds.insert(f);
  if (s >= 3) _exit(77);
  return f;
}
ssize_t write(int fd, const void *b, size_t n) {
  using namespace fsfault;
  auto real = next<ssize_t (*)(int, const void *, size_t)>("write");
  if (!st.armed || !st.fds.count(fd)) return real(fd, b, n);
  int s = step("write " + std::to_string(n));
  if (s == 1) { errno = st.error; return -1; }
  if (s == 2) { st.full = true; return real(fd, b, n / 2); }
  if (s == 4) { (void)!real(fd, b, n / 2); _exit(77); }
  ssize_t r = real(fd, b, n);
  if (s == 3) _exit(77);
  return r;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  using namespace fsfault;
  auto real = next<ssize_t (*)(int, const struct iovec *, int)>("writev");
  if (!st.armed || !st.fds.count(fd)) return real(fd, v, c);
  size_t n = 0;
  for (int i = 0; i < c; ++i) n += v[i].iov_len;
  int s = step("write " + std::to_string(n));
  auto part = [&] { ssize_t done = 0; size_t want = n / 2; auto w = next<ssize_t (*)(int, const void *, size_t)>("write");
    for (int i = 0; i < c && want; ++i) { size_t k = v[i].iov_len < want ? v[i].iov_len : want; done += w(fd, v[i].iov_base, k); want -= k; } return done; };
  if (s == 1) { errno = st.error; return -1; }
  if (s == 2) { st.full = true; return part(); }
  if (s == 4) { part(); _exit(77); }
  ssize_t r = real(fd, v, c);
  if (s == 3) _exit(77);
  return r;
}
int fclose(FILE *f) {
  using namespace fsfault;
  auto real = next<int (*)(FILE *)>("fclose");
  int fd = fileno(f);
  if (!st.armed || !st.fds.count(fd)) return real(f);
  st.fds.erase(fd);
  int s = step("close");
  if (s == 1) { real(f); errno = EIO; return EOF; }
  int r = real(f);
  if (s >= 3) _exit(77);
  return r;
}
int close(int fd) {
  using namespace fsfault;
  auto real = next<int (*)(int)>("close");
  if (!st.armed || !st.fds.count(fd)) return real(fd);
  st.fds.erase(fd);
  int s = step("close");
  if (s == 1) { real(fd); errno = EIO; return -1; }
  int r = real(fd);
  if (s >= 3) _exit(77);
  return r;
}
#define SX_FS1(NAME, WHAT, ERR) \
  int NAME(const char *p) noexcept { \
    using namespace fsfault; \
    auto real = next<int (*)(const char *)>(#NAME); \
    if (!below(p)) return real(p); \
    int s = step(WHAT " " + std::string(p)); \
    if (s == 1) { errno = ERR; return -1; } \
    int r = real(p), e = errno; \
    if (s >= 3) _exit(77); \
    errno = e; \
    return r; \
  }
SX_FS1(remove, "remove", EACCES)
SX_FS1(unlink, "remove", EACCES)
int rename(const char *p, const char *q) noexcept {
  using namespace fsfault;
  auto real = next<int (*)(const char *, const char *)>("rename");
  if (!below(p) && !below(q)) return real(p, q);
  int s = step("rename " + std::string(p) + " " + q);
  if (s == 1) { errno = EACCES; return -1; }
  int r = real(p, q), e = errno;
  if (s >= 3) _exit(77);
  errno = e;
  return r;
}
int mkdir(const char *p, mode_t m) noexcept {
  using namespace fsfault;
  auto real = next<int (*)(const char *, mode_t)>("mkdir");
  if (!below(p)) return real(p, m);
  int s = step("mkdir " + std::string(p));
  if (s == 1) { errno = EACCES; return -1; }
  int r = real(p, m), e = errno;
  if (s >= 3) _exit(77);
  errno = e;
  return r;
}
int truncate(const char *p, off_t n) noexcept {
  using namespace fsfault;
  auto real = next<int (*)(const char *, off_t)>("truncate");
  if (!below(p)) return real(p, n);
  int s = step("truncate " + std::string(p));
  if (s == 1) { errno = EACCES; return -1; }
  int r = real(p, n);
  if (s >= 3) _exit(77);
  return r;
}
ssize_t sendfile(int out, int in, off_t *o, size_t n) noexcept {
  using namespace fsfault;
  auto real = next<ssize_t (*)(int, int, off_t *, size_t)>("sendfile");
  if (!st.armed || !st.fds.count(out)) return real(out, in, o, n);
  int s = step("write by sendfile");
  if (s == 1) { errno = st.error; return -1; }
  if (s == 2) { st.full = true; return real(out, in, o, n / 2); }
  if (s == 4) { (void)!real(out, in, o, n / 2); _exit(77); }
  ssize_t r = real(out, in, o, n);
  if (s == 3) _exit(77);
  return r;
}
}
// Runs f with the fault armed. 0: returned, 1: threw, 2: died at the fault
template <class F> int with_fault(std::string root, int at, fsfault::Kind k, F f) {
  using namespace fsfault;
  if (k < die_before) {
    arm(root, at, k);
    int r = 0;
    try { f(); } catch (std::exception &) { r = 1; }
    disarm();
    return r;
  }
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    arm(root, at, k);
    int r = 0;
    try { f(); } catch (std::exception &) { r = 1; }
    disarm();
    _exit(r);
  }
  int status = 0;
  while (waitpid(p, &status, 0) < 0 && errno == EINTR) {}
  if (WIFEXITED(status)) return WEXITSTATUS(status) == 77 ? 2 : WEXITSTATUS(status);
  return 3;
}
