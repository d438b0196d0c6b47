// Files in memory: what util/mmap.cc sees of the operating system.
// A mapping is memory of its own with the size of whole pages up to the page of
// the end of the file, the rest of that page is zero; reading behind it and
// after it is unmapped is an error.  Shared mappings are written back when
// they are synchronized, unmapped, or when the process ends.
#pragma once
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <string>
#include <vector>
#include "jpp.h"
namespace fakefs {
const size_t PAGE = 4096;
inline size_t pages(size_t n) { return (n + PAGE - 1) / PAGE * PAGE; }
struct File { std::string name, data; };
struct Fd { int file; int mode; size_t pos; };
struct Map { char* mem; size_t len, size; int file; size_t offset; bool shared, writable; };
struct World {
  std::vector<File> files;
  std::vector<Fd> fds;  // from 3
  std::vector<Map> maps;
  int err = 0;
  int failAt = -1;  // this call fails
  int calls = 0;
  bool failed() {
    if (failAt < 0 || calls++ != failAt) return false;
    err = EIO;
    return true;
  }
  int find(const std::string& n) {
    for (size_t i = 0; i < files.size(); ++i)
      if (files[i].name == n) return (int)i;
    return -1;
  }
  void put(const std::string& n, const std::string& d) {
    int i = find(n);
    if (i < 0) { files.push_back({n, d}); }
    else files[i].data = d;
  }
  void sync(Map& m) {
    if (!m.shared || !m.writable) return;
    auto& d = files[m.file].data;
    for (size_t i = 0; i < m.len && m.offset + i < d.size(); ++i) d[m.offset + i] = m.mem[i];
  }
  void syncAll() { for (auto& m : maps) sync(m); }
  size_t openFiles() {
    size_t n = 0;
    for (auto& f : fds) n += f.file >= 0;
    return n;
  }
};
inline World*& world() { static World* w; return w; }
struct Scope {
  World w;
  Scope() { world() = &w; }
  ~Scope() { for (auto& m : w.maps) free(m.mem); world() = nullptr; }
};
}  // namespace fakefs
extern "C" {
int* jppfs_errno_location() { return &fakefs::world()->err; }
char* jppfs_strerror(int) { static char s[] = "error"; return s; }
long jppfs_sysconf(int n) { return n == _SC_PAGESIZE ? 4096 : -1; }
int jppfs_stat(const char* name, struct stat* st) {
  auto& w = *fakefs::world();
  if (w.failed()) return -1;
  int f = w.find(name);
  if (f < 0) { w.err = ENOENT; return -1; }
  memset(st, 0, sizeof(*st));
  st->st_size = (off_t)w.files[f].data.size();
  return 0;
}
int jppfs_open(const char* name, int mode, ...) {
  auto& w = *fakefs::world();
  if (w.failed()) return -1;
  int f = w.find(name);
  if (f < 0) {
    if (!(mode & O_CREAT)) { w.err = ENOENT; return -1; }
    f = (int)w.files.size();
    w.files.push_back({name, ""});
  } else if (mode & O_TRUNC) {
    w.files[f].data.clear();
  }
  w.fds.push_back({f, mode & O_ACCMODE, 0});
  return (int)w.fds.size() + 2;
}
static fakefs::Fd* jppfs_fd(int fd) {
  auto& w = *fakefs::world();
  jpp_check(fd >= 3 && (size_t)fd - 3 < w.fds.size() && w.fds[fd - 3].file >= 0, "file is open");
  return &w.fds[fd - 3];
}
int jppfs_close(int fd) { jppfs_fd(fd)->file = -1; return 0; }
off_t jppfs_lseek(int fd, off_t o, int wh) {
  auto f = jppfs_fd(fd);
  auto& w = *fakefs::world();
  if (w.failed()) return -1;
  if (wh == SEEK_CUR) o += f->pos;
  if (wh == SEEK_END) o += w.files[f->file].data.size();
  if (o < 0) { w.err = EINVAL; return -1; }
  f->pos = o;
  return o;
}
ssize_t jppfs_write(int fd, const void* p, size_t n) {
  auto f = jppfs_fd(fd);
  auto& w = *fakefs::world();
  if (w.failed()) return -1;
  if (f->mode == O_RDONLY) { w.err = EBADF; return -1; }
  auto& d = w.files[f->file].data;
  if (f->pos + n > d.size()) d.resize(f->pos + n);
  memcpy(&d[f->pos], p, n);
  for (auto& m : w.maps)
    if (m.file == f->file)
      for (size_t i = 0; i < n; ++i)
        if (f->pos + i >= m.offset && f->pos + i - m.offset < m.size) m.mem[f->pos + i - m.offset] = ((const char*)p)[i];
  f->pos += n;
  return (ssize_t)n;
}
int jppfs_ftruncate(int fd, off_t n) {
  auto f = jppfs_fd(fd);
  auto& w = *fakefs::world();
  if (w.failed()) return -1;
  w.files[f->file].data.resize(n);
  return 0;
}
void* jppfs_mmap(void*, size_t len, int prot, int flags, int fd, off_t off) {
  auto f = jppfs_fd(fd);
  auto& w = *fakefs::world();
  if (w.failed()) return MAP_FAILED;
  if (len == 0 || off < 0 || off % fakefs::PAGE || (flags & MAP_HUGETLB)) { w.err = EINVAL; return MAP_FAILED; }
  bool shared = (flags & MAP_SHARED) != 0, wr = (prot & PROT_WRITE) != 0;
  if (shared && wr && f->mode != O_RDWR) { w.err = EACCES; return MAP_FAILED; }
  auto& d = w.files[f->file].data;
  size_t have = (size_t)off < d.size() ? fakefs::pages(d.size() - off) : 0, want = fakefs::pages(len);
  size_t size = want < have ? want : have;
  void* p = nullptr;
  if (posix_memalign(&p, fakefs::PAGE, size ? size : 1)) abort();
  char* mem = (char*)p;
  memset(mem, 0, size);
  size_t n = (size_t)off < d.size() ? d.size() - off : 0;
  memcpy(mem, d.data() + off, n < size ? n : size);
  w.maps.push_back({mem, len, size, f->file, (size_t)off, shared, wr});
  return mem;
}
int jppfs_munmap(void* p, size_t len) {
  auto& w = *fakefs::world();
  for (size_t i = 0; i < w.maps.size(); ++i)
    if (w.maps[i].mem == p) {
      jpp_check(fakefs::pages(len) == fakefs::pages(w.maps[i].len), "the whole mapping is removed");
      w.sync(w.maps[i]);
      free(w.maps[i].mem);
      w.maps.erase(w.maps.begin() + i);
      return 0;
    }
  jpp_check(false, "only what was mapped is removed");
  return 0;
}
int jppfs_msync(void* p, size_t len, int) {
  auto& w = *fakefs::world();
  if (w.failed()) return -1;
  for (auto& m : w.maps)
    if (m.mem <= (char*)p && (char*)p < m.mem + (m.size ? m.size : 1)) {
      if (((char*)p - m.mem) % fakefs::PAGE) { w.err = EINVAL; return -1; }
      w.sync(m);
      return 0;
    }
  w.err = ENOMEM;
  return -1;
}
}
