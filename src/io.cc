#include "io.h"

#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>

#include <dlfcn.h>
#include <fcntl.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace {

constexpr int kMaxFd = 1024;
bool active_, readOnly_;
std::string path_;
bool followed_[kMaxFd];
std::vector<io::Event>* events_;
io::Event* failed_;
int operations_;
io::Fault fault_;
bool shortDone_;
int allKind_ = -1;  // calls of this kind fail

std::vector<io::Event>& list() {
  if (!events_) events_ = new std::vector<io::Event>();
  return *events_;
}

bool followed(int fd) {
  return active_ && fd >= 0 && fd < kMaxFd && followed_[fd];
}
bool isPath(const char* path) {
  return active_ && !path_.empty() && path && path_ == path;
}

io::Event& add(io::Kind kind, int64_t offset, int64_t length) {
  io::Event e;
  e.kind = kind;
  e.offset = offset;
  e.length = length;
  e.result = 0;
  e.writable = false;
  e.a = e.b = 0;
  e.index = operations_++;
  list().push_back(e);
  return list().back();
}

// Does this operation fail? May reduce the number of bytes.
int decide(io::Event& e, size_t* n) {
  using io::Fault;
  if (fault_.action == Fault::None) return 0;
  int error = 0;
  if (allKind_ == e.kind) error = fault_.error;
  if (e.index == fault_.at) {
    switch (fault_.action) {
      case Fault::FailAll:
        allKind_ = e.kind;
        error = fault_.error;
        break;
      case Fault::Fail:
        error = fault_.error;
        break;
      case Fault::ShortFail:
        allKind_ = e.kind;
        if (n && size_t(fault_.bytes) < *n) *n = fault_.bytes;
        break;
      case Fault::End:
        if (n) *n = 0;
        break;
      case Fault::Short:
      case Fault::Kill:
        if (n && size_t(fault_.bytes) < *n) *n = fault_.bytes;
        break;
      default:
        break;
    }
    if (!failed_) failed_ = new io::Event(e);
  }
  if (error != 0) e.result = -error;
  return error;
}

bool killed(const io::Event& e) {
  return fault_.action == io::Fault::Kill && e.index == fault_.at;
}

ssize_t doWrite(int fd, const void* buffer, size_t n, int64_t offset) {
  io::Event& e = add(io::kWrite, offset, n);
  const int error = decide(e, &n);
  if (error != 0) {
    errno = error;
    return -1;
  }
  ssize_t r = 0;
  if (n != 0 || e.length == 0) r = syscall(SYS_pwrite64, fd, buffer, n, offset);
  if (killed(e)) syscall(SYS_exit_group, 77);
  e.result = r;
  if (r > 0)
    e.data.assign(static_cast<const uint8_t*>(buffer),
                  static_cast<const uint8_t*>(buffer) + r);
  return r;
}

ssize_t doRead(int fd, void* buffer, size_t n, int64_t offset) {
  io::Event& e = add(io::kRead, offset, n);
  const int error = decide(e, &n);
  if (error != 0) {
    errno = error;
    return -1;
  }
  return e.result = syscall(SYS_pread64, fd, buffer, n, offset);
}

int64_t position(int fd) { return syscall(SYS_lseek, fd, 0, SEEK_CUR); }

int doOpen(int dir, const char* path, int flags, int mode) {
  if (!isPath(path)) return syscall(SYS_openat, dir, path, flags, mode);
  io::Event& e = add(io::kOpen, 0, 0);
  e.writable = (flags & O_ACCMODE) != O_RDONLY;
  int error = decide(e, nullptr);
  if (readOnly_ && e.writable) error = EACCES;
  if (error != 0) {
    e.result = -error;
    errno = error;
    return -1;
  }
  const int fd = syscall(SYS_openat, dir, path, flags, mode);
  e.result = fd;
  if (fd >= 0 && fd < kMaxFd) followed_[fd] = true;
  return fd;
}

void forget(int fd) {
  if (!followed(fd)) return;
  followed_[fd] = false;
  add(io::kClose, 0, 0);
}

int64_t doSeek(int fd, int64_t offset, int whence) {
  if (!followed(fd)) return syscall(SYS_lseek, fd, offset, whence);
  // Only asking for the position does not fail
  if (whence == SEEK_CUR && offset == 0)
    return syscall(SYS_lseek, fd, offset, whence);
  io::Event& e = add(io::kSeek, offset, 0);
  const int error = decide(e, nullptr);
  if (error != 0) {
    errno = error;
    return -1;
  }
  e.result = syscall(SYS_lseek, fd, offset, whence);
  e.offset = e.result;
  return e.result;
}

int doTruncate(int64_t length, long number, long arg) {
  io::Event& e = add(io::kTruncate, length, 0);
  const int error = decide(e, nullptr);
  if (error != 0) {
    errno = error;
    return -1;
  }
  return e.result = syscall(number, arg, length);
}

}  // namespace

namespace io {

const char* kindName(Kind kind) {
  static const char* names[] = {"open",  "read",  "write",  "seek", "truncate",
                                "close", "unlink", "mark"};
  return names[kind];
}

void track(const std::string& path) {
  list().clear();
  path_ = path;
  operations_ = 0;
  memset(followed_, 0, sizeof followed_);
  setFault(Fault());
  readOnly_ = false;
  active_ = true;
}
void stop() {
  active_ = false;
  readOnly_ = false;
}
bool tracking() { return active_; }
const std::vector<Event>& events() { return list(); }
int operations() { return operations_; }
void mark(int a, int b) {
  if (!active_) return;
  Event e;
  e.kind = kMark;
  e.offset = e.length = e.result = 0;
  e.writable = false;
  e.a = a;
  e.b = b;
  e.index = -1;
  list().push_back(e);
}
void setFault(const Fault& fault) {
  fault_ = fault;
  delete failed_;
  failed_ = nullptr;
  allKind_ = -1;
}
const Event* failed() { return failed_; }
void setReadOnly(bool on) { readOnly_ = on; }

}  // namespace io

#ifdef IO_ACTIVE
extern "C" {

#define MODE(flags)                            \
  int mode = 0;                                \
  if (flags & (O_CREAT | __O_TMPFILE)) {       \
    va_list args;                              \
    va_start(args, flags);                     \
    mode = va_arg(args, int);                  \
    va_end(args);                              \
  }

int open(const char* path, int flags, ...) {
  MODE(flags)
  return doOpen(AT_FDCWD, path, flags, mode);
}
int open64(const char* path, int flags, ...) {
  MODE(flags)
  return doOpen(AT_FDCWD, path, flags, mode);
}
int openat(int dir, const char* path, int flags, ...) {
  MODE(flags)
  return doOpen(dir, path, flags, mode);
}
int openat64(int dir, const char* path, int flags, ...) {
  MODE(flags)
  return doOpen(dir, path, flags, mode);
}
int __open_2(const char* path, int flags) {
  return doOpen(AT_FDCWD, path, flags, 0);
}
int __open64_2(const char* path, int flags) {
  return doOpen(AT_FDCWD, path, flags, 0);
}

static FILE* doFopen(const char* name, const char* path, const char* mode) {
  typedef FILE* (*Function)(const char*, const char*);
  Function f = reinterpret_cast<Function>(dlsym(RTLD_NEXT, name));
  if (!isPath(path)) return f(path, mode);
  io::Event& e = add(io::kOpen, 0, 0);
  e.writable = strpbrk(mode, "wa+") != nullptr;
  int error = decide(e, nullptr);
  if (readOnly_ && e.writable) error = EACCES;
  if (error != 0) {
    e.result = -error;
    errno = error;
    return nullptr;
  }
  FILE* file = f(path, mode);
  if (file) {
    e.result = fileno(file);
    if (e.result < kMaxFd) followed_[e.result] = true;
  }
  return file;
}
FILE* fopen(const char* path, const char* mode) {
  return doFopen("fopen", path, mode);
}
FILE* fopen64(const char* path, const char* mode) {
  return doFopen("fopen64", path, mode);
}
int fclose(FILE* file) {
  typedef int (*Function)(FILE*);
  static Function f = reinterpret_cast<Function>(dlsym(RTLD_NEXT, "fclose"));
  if (active_ && file) forget(fileno(file));
  return f(file);
}
int close(int fd) {
  forget(fd);
  return syscall(SYS_close, fd);
}

ssize_t write(int fd, const void* buffer, size_t n) {
  if (!followed(fd)) return syscall(SYS_write, fd, buffer, n);
  const int64_t offset = position(fd);
  const ssize_t r = doWrite(fd, buffer, n, offset);
  if (r > 0) syscall(SYS_lseek, fd, offset + r, SEEK_SET);
  return r;
}
ssize_t writev(int fd, const struct iovec* v, int count) {
  if (!followed(fd)) return syscall(SYS_writev, fd, v, count);
  std::vector<uint8_t> all;
  for (int i = 0; i != count; ++i)
    all.insert(all.end(), static_cast<const uint8_t*>(v[i].iov_base),
               static_cast<const uint8_t*>(v[i].iov_base) + v[i].iov_len);
  return write(fd, all.data(), all.size());
}
ssize_t pwrite(int fd, const void* buffer, size_t n, off_t offset) {
  if (!followed(fd)) return syscall(SYS_pwrite64, fd, buffer, n, offset);
  return doWrite(fd, buffer, n, offset);
}
ssize_t pwrite64(int fd, const void* buffer, size_t n, off64_t offset) {
  return pwrite(fd, buffer, n, offset);
}
ssize_t read(int fd, void* buffer, size_t n) {
  if (!followed(fd)) return syscall(SYS_read, fd, buffer, n);
  const int64_t offset = position(fd);
  const ssize_t r = doRead(fd, buffer, n, offset);
  if (r > 0) syscall(SYS_lseek, fd, offset + r, SEEK_SET);
  return r;
}
ssize_t pread(int fd, void* buffer, size_t n, off_t offset) {
  if (!followed(fd)) return syscall(SYS_pread64, fd, buffer, n, offset);
  return doRead(fd, buffer, n, offset);
}
ssize_t pread64(int fd, void* buffer, size_t n, off64_t offset) {
  return pread(fd, buffer, n, offset);
}
off_t lseek(int fd, off_t offset, int whence) {
  return doSeek(fd, offset, whence);
}
off64_t lseek64(int fd, off64_t offset, int whence) {
  return doSeek(fd, offset, whence);
}
int ftruncate(int fd, off_t length) {
  if (!followed(fd)) return syscall(SYS_ftruncate, fd, length);
  return doTruncate(length, SYS_ftruncate, fd);
}
int ftruncate64(int fd, off64_t length) { return ftruncate(fd, length); }
int truncate(const char* path, off_t length) {
  if (!isPath(path)) return syscall(SYS_truncate, path, length);
  return doTruncate(length, SYS_truncate, reinterpret_cast<long>(path));
}
int truncate64(const char* path, off64_t length) {
  return truncate(path, length);
}
}
#endif
