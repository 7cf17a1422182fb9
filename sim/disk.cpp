// System-call layer of the simulated disk. Only the path /sim/log and its descriptors are simulated.
#undef _FORTIFY_SOURCE
#define _GNU_SOURCE 1
#include "disk.h"
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <dlfcn.h>
#include <errno.h>
#include <poll.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
namespace sim {
Disk* disk = nullptr;
struct Fd { bool used, append, readable, writable; u32 at; };
static Fd fds[16]; static char files[16][8];              // files[i] poses as a FILE
static int fdOf(const void* f) { const char* p = static_cast<const char*>(f); return p >= files[0] && p < files[0] + sizeof files ? 1000 + static_cast<int>((p - files[0]) / 8) : -1; }
static Fd* get(int fd) { return fd >= 1000 && fd < 1016 && fds[fd - 1000].used ? &fds[fd - 1000] : nullptr; }
void diskInit() { disk = static_cast<Disk*>(mmap(nullptr, sizeof(Disk), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)); disk->capacity = Disk::CAP; disk->crashAt = ~0ull; }
enum What { ReadCall, WriteCall, OpenCall, CloseCall, SeekCall, SyncCall };
// Every call is a point where the process can die or be refused. 0: go on; otherwise an errno; -1: short transfer.
static int step(What w) {
    ++disk->calls; ++shm->simTime; if (disk->calls > 200000) violation("no-progress", "more than 200000 system calls");
    if (!disk->active) return 0;
    if (disk->calls >= disk->crashAt) { ev("killed at call", disk->calls, w); _exit(CRASHED); }
    if (!disk->faultsLeft || below(64) >= disk->faultRate) return 0;
    --disk->faultsLeft; int e = 0;
    switch (w) {
        case ReadCall: switch (below(4)) { case 0: case 1: stat("fault.short_read"); e = -1; break; case 2: stat("fault.read_EINTR"); e = EINTR; break; default: stat("fault.read_EIO"); e = EIO; } break;
        case WriteCall: switch (below(5)) { case 0: case 1: stat("fault.short_write"); e = -1; break; case 2: stat("fault.write_EINTR"); e = EINTR; break; case 3: stat("fault.write_EIO"); e = EIO; break; default: stat("fault.write_ENOSPC"); e = ENOSPC; } break;
        case OpenCall: stat("fault.open_EMFILE"); e = EMFILE; break;
        case CloseCall: stat("fault.close_EIO"); e = EIO; break;
        case SyncCall: stat("fault.fsync_EIO"); e = EIO; break;
        default: ++disk->faultsLeft; return 0; }
    ev("system call fault", w, e); return e;
}
static ssize_t doWrite(Fd* f, const char* p, size_t n) {
    int e = step(WriteCall); if (e > 0) { errno = e; return -1; }
    if (f->append) f->at = disk->size;
    if (e < 0 && n > 1) n = 1 + below(static_cast<u32>(n - 1));
    if (f->at >= disk->capacity) { stat("fault.disk_full"); if (below(2)) { stat("recovery.space_freed"); disk->capacity = Disk::CAP; } errno = ENOSPC; return -1; }
    if (f->at + n > disk->capacity) n = disk->capacity - f->at;
    if (f->at + n > Disk::CAP || disk->nWrites >= Disk::MAXW) harnessError("simulated disk too small");
    memcpy(disk->cache + f->at, p, n); disk->writes[disk->nWrites++] = {f->at, static_cast<u32>(n)}; f->at += static_cast<u32>(n); if (f->at > disk->size) disk->size = f->at;
    ev("write", f->at - n, n); return static_cast<ssize_t>(n);
}
static ssize_t doRead(Fd* f, char* p, size_t n) {
    int e = step(ReadCall); if (e > 0) { errno = e; return -1; }
    size_t left = f->at < disk->size ? disk->size - f->at : 0; if (n > left) n = left; if (e < 0 && n > 1) n = 1 + below(static_cast<u32>(n - 1));
    memcpy(p, disk->cache + f->at, n); f->at += static_cast<u32>(n); ev("read", f->at - n, n); return static_cast<ssize_t>(n);
}
bool diskSync() { int e = step(SyncCall); if (e > 0) { // a failed fsync marks the data clean although it is not on the disk
        disk->unsyncedLostBySyncError++; return false; }
    memcpy(disk->durable, disk->cache, disk->size); disk->durableSize = disk->size; disk->nWrites = 0; ev("sync", disk->size); return true; }
void diskTruncate(u32 n) { step(SeekCall); disk->size = n; memcpy(disk->durable, disk->cache, n); disk->durableSize = n; disk->nWrites = 0; ev("truncate", n); }
void diskCrash(bool sectors) {
    if (disk->nWrites) stat("fault.crash_with_unsynced_data"); else stat("fault.crash");
    static unsigned char img[Disk::CAP]; memset(img, 0, sizeof img); memcpy(img, disk->durable, disk->durableSize); u32 size = disk->durableSize;
    if (!sectors) {       // appended data reaches the disk in order, cut at any byte
        if (disk->size > size) { u32 keep = below(4) == 0 ? disk->size - size : below(disk->size - size + 1); memcpy(img + size, disk->cache + size, keep); size += keep; if (keep && size < disk->size) stat("fault.torn_tail"); }
    } else for (u32 i = 0; i < disk->nWrites; ++i) {          // any subset of the written sectors
        const auto& w = disk->writes[i]; for (u32 a = w.at; a < w.at + w.len;) { u32 end = (a / Disk::SECTOR + 1) * Disk::SECTOR; if (end > w.at + w.len) end = w.at + w.len; if (below(2)) { memcpy(img + a, disk->cache + a, end - a); if (end > size) size = end; } else stat("fault.lost_sector"); a = end; } }
    memcpy(disk->cache, img, Disk::CAP); memcpy(disk->durable, img, Disk::CAP); disk->size = disk->durableSize = size; disk->nWrites = 0; ev("after crash", size);
}
template <class F> static F next(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
static FILE* openFile(const char* mode) {
    if (step(OpenCall) > 0) { errno = EMFILE; return nullptr; }
    for (int i = 0; i < 16; ++i) if (!fds[i].used) { Fd& f = fds[i]; f = Fd{true, mode[0] == 'a', mode[0] == 'r' || strchr(mode, '+') != nullptr, mode[0] != 'r' || strchr(mode, '+') != nullptr, 0}; if (mode[0] == 'w') harnessError("the log is never truncated by open"); ev("open", mode[0]); return reinterpret_cast<FILE*>(files[i]); }
    errno = EMFILE; return nullptr;
}
}
using namespace sim;
extern "C" {
FILE* fopen64(const char* p, const char* m) { if (!strcmp(p, "/sim/log")) return openFile(m); return next<FILE* (*)(const char*, const char*)>("fopen64")(p, m); }
FILE* fopen(const char* p, const char* m) { if (!strcmp(p, "/sim/log")) return openFile(m); return next<FILE* (*)(const char*, const char*)>("fopen")(p, m); }
int fclose(FILE* f) { int fd = fdOf(f); if (fd < 0) return next<int (*)(FILE*)>("fclose")(f); fds[fd - 1000].used = false; int e = step(CloseCall); if (e > 0) { errno = e; return -1; } return 0; }
int fileno(FILE* f) { int fd = fdOf(f); return fd >= 0 ? fd : next<int (*)(FILE*)>("fileno")(f); }
int fflush(FILE* f) { return f && fdOf(f) >= 0 ? 0 : next<int (*)(FILE*)>("fflush")(f); }
int setvbuf(FILE* f, char* b, int m, size_t n) { return fdOf(f) >= 0 ? 0 : next<int (*)(FILE*, char*, int, size_t)>("setvbuf")(f, b, m, n); }
ssize_t read(int fd, void* p, size_t n) { Fd* f = get(fd); return f ? doRead(f, static_cast<char*>(p), n) : syscall(SYS_read, fd, p, n); }
ssize_t write(int fd, const void* p, size_t n) { Fd* f = get(fd); return f ? doWrite(f, static_cast<const char*>(p), n) : syscall(SYS_write, fd, p, n); }
ssize_t writev(int fd, const struct iovec* v, int c) {
    Fd* f = get(fd); if (!f) return syscall(SYS_writev, fd, v, c);
    static char b[Disk::CAP]; size_t n = 0; for (int i = 0; i < c; ++i) { if (n + v[i].iov_len > sizeof b) harnessError("writev too long"); memcpy(b + n, v[i].iov_base, v[i].iov_len); n += v[i].iov_len; } return doWrite(f, b, n); }
off64_t lseek64(int fd, off64_t o, int w) noexcept { Fd* f = get(fd); if (!f) return syscall(SYS_lseek, fd, o, w); step(SeekCall); long at = w == SEEK_SET ? o : w == SEEK_CUR ? f->at + o : disk->size + o; if (at < 0) { errno = EINVAL; return -1; } f->at = static_cast<u32>(at); return at; }
off_t lseek(int fd, off_t o, int w) noexcept { return lseek64(fd, o, w); }
int fstat64(int fd, struct stat64* st) noexcept { Fd* f = get(fd); if (!f) return static_cast<int>(syscall(SYS_fstat, fd, st)); memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0644; st->st_size = disk->size; return 0; }
int ioctl(int fd, unsigned long r, ...) noexcept { va_list ap; va_start(ap, r); void* a = va_arg(ap, void*); va_end(ap); if (get(fd)) { errno = ENOTTY; return -1; } return static_cast<int>(syscall(SYS_ioctl, fd, r, a)); }
}
