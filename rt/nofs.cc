// What util/mmap.cc calls in programs which do not have the files of fakefs.h: the system.
#include <errno.h>
#include <fcntl.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#define WEAK __attribute__((weak))
extern "C" {
WEAK int* jppfs_errno_location() { return &errno; }
WEAK char* jppfs_strerror(int e) { return strerror(e); }
WEAK long jppfs_sysconf(int n) { return sysconf(n); }
WEAK int jppfs_stat(const char* name, struct stat* st) { return stat(name, st); }
WEAK int jppfs_open(const char* name, int mode, ...) { return open(name, mode, 0644); }
WEAK int jppfs_close(int fd) { return close(fd); }
WEAK off_t jppfs_lseek(int fd, off_t o, int wh) { return lseek(fd, o, wh); }
WEAK ssize_t jppfs_write(int fd, const void* p, size_t n) { return write(fd, p, n); }
WEAK int jppfs_ftruncate(int fd, off_t n) { return ftruncate(fd, n); }
WEAK void* jppfs_mmap(void* a, size_t len, int prot, int flags, int fd, off_t off) { return mmap(a, len, prot, flags, fd, off); }
WEAK int jppfs_munmap(void* p, size_t len) { return munmap(p, len); }
WEAK int jppfs_msync(void* p, size_t len, int f) { return msync(p, len, f); }
}
