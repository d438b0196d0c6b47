// The system calls of util/mmap.cc are provided by the harness (fakefs.h).
#pragma once
#include <errno.h>
#include <fcntl.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
extern "C" {
int stat(const char*, struct stat*) noexcept __asm__("jppfs_stat");
int open(const char*, int, ...) __asm__("jppfs_open");
int close(int) __asm__("jppfs_close");
off_t lseek(int, off_t, int) noexcept __asm__("jppfs_lseek");
ssize_t write(int, const void*, size_t) __asm__("jppfs_write");
int ftruncate(int, off_t) noexcept __asm__("jppfs_ftruncate");
void* mmap(void*, size_t, int, int, int, off_t) noexcept __asm__("jppfs_mmap");
int munmap(void*, size_t) noexcept __asm__("jppfs_munmap");
int msync(void*, size_t, int) __asm__("jppfs_msync");
long sysconf(int) noexcept __asm__("jppfs_sysconf");
int* __errno_location() noexcept __asm__("jppfs_errno_location");
char* strerror(int) noexcept __asm__("jppfs_strerror");
}
