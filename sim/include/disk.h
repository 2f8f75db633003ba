// The simulated machine around the command-line tool: files (as libstdc++ and PEGTL reach them, through fopen/open/read/write/writev/mmap/fclose),
// standard streams, exit, and crashes.  Paths under /sim/ exist only here; everything else is passed on.
#pragma once
#include "sim.h"
#include <cerrno>
#include <csetjmp>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <iostream>
#include <map>
#include <string>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
namespace disk {
    struct Fault { int open_errno = 0; size_t read_fail = SIZE_MAX; int read_errno = 0; size_t space = SIZE_MAX; int write_errno = 0; bool close_fails = false, mmap_fails = false; size_t crash_at = SIZE_MAX; };
    struct File { std::string data; Fault f; bool written = false, complete = false, refused = false; };
    struct Handle { std::string path; size_t pos = 0; bool write = false; };
    struct Exit { bool active = false; jmp_buf env; int code = 0; };
    inline std::map<std::string, File>& files() { static auto* m = new std::map<std::string, File>(); return *m; }
    inline std::map<int, Handle>& handles() { static auto* m = new std::map<int, Handle>(); return *m; }
    inline Exit& ex() { static Exit e; return e; }
    inline bool& jitter() { static bool j = false; return j; }      // I/O takes simulated time, comes in pieces, is interrupted by signals, and the wall clock is set meanwhile
    inline int64_t& io_time() { static int64_t t = 0; return t; }
    inline int64_t& read_time() { static int64_t t = 0; return t; }
    inline int64_t& open_time() { static int64_t t = 0; return t; }
    inline bool ours(const char* p) { return ex().active && strncmp(p, "/sim/", 5) == 0; }
    inline void delay(int64_t* what = nullptr) {
        if (!jitter()) return;
        static const int64_t d[] = {0, 1000, 200000, 5000000, 30000000000ll}; int64_t t = d[sim::choose(5, "latency")]; if (t > 1000000000) sim::count("fault.stall");
        sim::clock_advance(t); io_time() += t; if (what) *what += t; sim::count("time.simulated_ns", (uint64_t) t);
        if (sim::chance(1, 8, "clock-set")) { sim::clock_jump((sim::chance(1, 2, "back") ? -1 : 1) * 3600000000000ll); sim::count("fault.clock_jump"); }
    }
    inline int open_fd(const char* path, bool write) {
        sim::Pause p; delay(write ? nullptr : &open_time());
        auto it = files().find(path);
        if (it != files().end() && it->second.f.open_errno) { errno = it->second.f.open_errno; sim::count("fault.open"); sim::nontrivial(); sim::note("open %s fails", path); return -1; }
        if (!write && it == files().end()) { errno = ENOENT; return -1; }
        int fd = (int) syscall(SYS_memfd_create, "sim", 0);
        if (write) { auto& f = files()[path]; f.data.clear(); f.written = true; f.complete = false; }
        else { auto& d = it->second.data; size_t o = 0; while (o < d.size()) { auto n = syscall(SYS_write, fd, d.data() + o, d.size() - o); if (n <= 0) break; o += (size_t) n; } syscall(SYS_lseek, fd, 0, SEEK_SET); }
        handles()[fd] = {path, 0, write};
        sim::ev("open", (uint64_t) write);
        return fd;
    }
    inline void crash() { sim::count("fault.crash"); sim::nontrivial(); sim::note("the process dies"); ex().code = -9; longjmp(ex().env, 1); }
    inline ssize_t read_fd(Handle& h, void* buf, size_t n) {
        sim::Pause p; delay(&read_time()); auto& f = files()[h.path];
        if (jitter() && sim::chance(1, 6, "eintr")) { sim::count("fault.eintr"); errno = EINTR; return -1; }
        if (h.pos >= f.f.read_fail) { sim::count("fault.read_error"); sim::nontrivial(); sim::note("reading %s fails at byte %zu", h.path.c_str(), h.pos); errno = f.f.read_errno; return -1; }
        size_t k = std::min({n, f.data.size() - h.pos, f.f.read_fail - h.pos});
        if (jitter() && k > 1 && sim::chance(1, 2, "short")) { k = 1 + sim::choose(k, "short-read"); sim::count("fault.short_read"); sim::nontrivial(); }
        memcpy(buf, f.data.data() + h.pos, k); h.pos += k; sim::ev("read", k); return (ssize_t) k;
    }
    inline ssize_t write_fd(Handle& h, const char* s, size_t n) {
        sim::Pause p; delay(); auto& f = files()[h.path];
        if (jitter() && sim::chance(1, 6, "eintr")) { sim::count("fault.eintr"); errno = EINTR; return -1; }
        if (n && f.data.size() >= f.f.crash_at) crash();
        if (n && f.data.size() >= f.f.space) { f.refused = true; sim::count("fault.write_error"); sim::nontrivial(); sim::note("writing %s fails at byte %zu", h.path.c_str(), f.data.size()); errno = f.f.write_errno; return -1; }
        size_t k = std::min({n, f.f.space - f.data.size(), f.f.crash_at - f.data.size()});
        if (jitter() && k > 1 && sim::chance(1, 2, "short")) { k = 1 + sim::choose(k, "short-write"); sim::count("fault.short_write"); sim::nontrivial(); }
        f.data.append(s, k); sim::ev("write", k); return (ssize_t) k;
    }
}
extern "C" {
    FILE* fopen(const char* path, const char* mode) { static auto real = (FILE* (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen"); if (!disk::ours(path)) return real(path, mode); int fd = disk::open_fd(path, mode[0] != 'r'); if (fd < 0) return nullptr; return fdopen(fd, mode); }
    FILE* fopen64(const char* path, const char* mode) { return fopen(path, mode); }
    int open(const char* path, int flags, ...) { va_list a; va_start(a, flags); int m = va_arg(a, int); va_end(a); if (!disk::ours(path)) { long r = syscall(SYS_openat, AT_FDCWD, path, flags, m); return (int) r; } return disk::open_fd(path, (flags & O_ACCMODE) != O_RDONLY); }
    int open64(const char* path, int flags, ...) { va_list a; va_start(a, flags); int m = va_arg(a, int); va_end(a); return open(path, flags, m); }
    ssize_t read(int fd, void* b, size_t n) { if (disk::ex().active) { auto it = disk::handles().find(fd); if (it != disk::handles().end()) return disk::read_fd(it->second, b, n); } return syscall(SYS_read, fd, b, n); }
    ssize_t write(int fd, const void* b, size_t n) { if (disk::ex().active) { auto it = disk::handles().find(fd); if (it != disk::handles().end()) return disk::write_fd(it->second, (const char*) b, n); } return syscall(SYS_write, fd, b, n); }
    ssize_t writev(int fd, const struct iovec* v, int n) {
        if (disk::ex().active) { auto it = disk::handles().find(fd); if (it != disk::handles().end()) { ssize_t t = 0; for (int i = 0; i < n; i++) { if (!v[i].iov_len) continue; ssize_t k = disk::write_fd(it->second, (const char*) v[i].iov_base, v[i].iov_len); if (k < 0) return t ? t : -1; t += k; if ((size_t) k < v[i].iov_len) break; } return t; } }
        return syscall(SYS_writev, fd, v, n);
    }
    int fclose(FILE* f) {
        static auto real = (int (*)(FILE*)) dlsym(RTLD_NEXT, "fclose"); bool bad = false; int fd = fileno(f);
        if (disk::ex().active) { sim::Pause p; auto it = disk::handles().find(fd); if (it != disk::handles().end()) { auto& x = disk::files()[it->second.path]; if (it->second.write) { x.complete = true; if (x.f.close_fails) { bad = true; x.complete = false; sim::count("fault.close_error"); sim::nontrivial(); x.data.resize(x.data.size() / 2); sim::note("closing %s fails", it->second.path.c_str()); } } disk::handles().erase(it); } }
        int r = real(f); if (bad) { errno = ENOSPC; return EOF; } return r;
    }
    int close(int fd) { if (disk::ex().active) { sim::Pause p; disk::handles().erase(fd); } return (int) syscall(SYS_close, fd); }
    void* mmap(void* a, size_t n, int prot, int flags, int fd, off_t o) noexcept { if (disk::ex().active) { auto it = disk::handles().find(fd); if (it != disk::handles().end() && disk::files()[it->second.path].f.mmap_fails) { sim::count("fault.mmap"); sim::nontrivial(); errno = ENOMEM; return MAP_FAILED; } } return (void*) syscall(SYS_mmap, a, n, prot, flags, fd, o); }
    void __real_exit(int) __attribute__((noreturn));
    void __wrap_exit(int code) { if (!disk::ex().active) __real_exit(code); disk::ex().code = code & 0xFF; longjmp(disk::ex().env, 1); }
}
