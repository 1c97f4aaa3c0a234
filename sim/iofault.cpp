#include "iofault.hpp"
#include "core.hpp"
#include "heap.hpp"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
namespace sim { IoPlan io; }
using sim::io;
namespace {
constexpr int NFD = 4096; bool tracked[NFD];
template <class F> F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
bool matches(const char* p) { return io.on && p && !io.match.empty() && std::string_view(p).find(io.match) != std::string_view::npos; }
int deny() {   // 0 or an errno
    ++io.opens;
    if (io.open_errno) { ++io.n_open; return io.open_errno; }
    if (io.open_fails_first > 0) { --io.open_fails_first; ++io.n_open; return EMFILE; }
    return 0;
}
// how many of n bytes at offset off may be delivered; <0: -errno
ssize_t allow(int64_t off, size_t n) {
    ++io.reads;
    if (io.eintr && sim::chance(1, 5)) { ++io.n_eintr; return -EINTR; }
    if (io.eio_at >= 0 && off >= io.eio_at) { ++io.n_eio; return -EIO; }
    if (io.eof_at >= 0 && off >= io.eof_at) { ++io.n_eof; return 0; }
    if (io.eio_at >= 0 && off + (int64_t)n > io.eio_at) n = io.eio_at - off;
    if (io.eof_at >= 0 && off + (int64_t)n > io.eof_at) n = io.eof_at - off;
    if (io.short_reads && n > 1) { const size_t k = 1 + sim::choose(sim::chance(1, 4) ? 7 : n); if (k < n) { ++io.n_short; n = k; } }
    return (ssize_t)n;
}
ssize_t rread(int fd, void* b, size_t n) { static auto f = real<ssize_t (*)(int, void*, size_t)>("read"); return f(fd, b, n); }
ssize_t faulty_read(int fd, void* b, size_t n) {
    sim::NoScope ns;
    ssize_t k = allow((int64_t)lseek(fd, 0, SEEK_CUR), n);
    if (k < 0) { errno = (int)-k; return -1; }
    return k == 0 && n ? 0 : rread(fd, b, (size_t)k);
}
bool from_libstdcxx(void* ra) { Dl_info i; return dladdr(ra, &i) && i.dli_fname && std::string_view(i.dli_fname).find("libstdc++") != std::string_view::npos; }
// C stdio itself does not retry interrupted reads, and on files they do not happen without signal handlers: not held against code that uses it
ssize_t ck_read(void* c, char* b, size_t n) { ssize_t r; do r = faulty_read((int)(intptr_t)c, b, n); while (r < 0 && errno == EINTR); return r; }
int ck_seek(void* c, off64_t* o, int w) { off_t r = lseek((int)(intptr_t)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
int ck_close(void* c) { return close((int)(intptr_t)c); }
FILE* do_fopen(const char* sym, const char* p, const char* m, void* ra) {
    auto f = real<FILE* (*)(const char*, const char*)>(sym);
    if (!matches(p) || m[0] != 'r') return f(p, m);
    sim::NoScope ns;
    if (int e = deny()) { errno = e; return nullptr; }
    if (from_libstdcxx(ra)) { FILE* h = f(p, m); if (h && fileno(h) < NFD) tracked[fileno(h)] = true; return h; }
    static auto o = real<int (*)(const char*, int, ...)>("open");
    int fd = o(p, O_RDONLY); if (fd < 0) return nullptr;
    cookie_io_functions_t fn{ck_read, nullptr, ck_seek, ck_close};
    return fopencookie((void*)(intptr_t)fd, "r", fn);
}
int track(int fd) { if (fd >= 0 && fd < NFD) tracked[fd] = true; return fd; }
}
extern "C" {
FILE* fopen(const char* p, const char* m) { return do_fopen("fopen", p, m, __builtin_return_address(0)); }
FILE* fopen64(const char* p, const char* m) { return do_fopen("fopen64", p, m, __builtin_return_address(0)); }
int fclose(FILE* h) { static auto f = real<int (*)(FILE*)>("fclose"); int fd = fileno(h); if (fd >= 0 && fd < NFD) tracked[fd] = false; return f(h); }
int close(int fd) { static auto f = real<int (*)(int)>("close"); if (fd >= 0 && fd < NFD) tracked[fd] = false; return f(fd); }
#define OPEN(name, ...) 
int open(const char* p, int fl, ...) {
    static auto f = real<int (*)(const char*, int, ...)>("open"); va_list a; va_start(a, fl); mode_t m = (fl & O_CREAT) ? va_arg(a, mode_t) : 0; va_end(a);
    if (!matches(p) || (fl & O_ACCMODE) != O_RDONLY) return f(p, fl, m);
    if (int e = deny()) { errno = e; return -1; }
    return track(f(p, fl, m));
}
int open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = (fl & O_CREAT) ? va_arg(a, mode_t) : 0; va_end(a); return open(p, fl, m); }
int openat(int d, const char* p, int fl, ...) {
    static auto f = real<int (*)(int, const char*, int, ...)>("openat"); va_list a; va_start(a, fl); mode_t m = (fl & O_CREAT) ? va_arg(a, mode_t) : 0; va_end(a);
    if (!matches(p) || (fl & O_ACCMODE) != O_RDONLY) return f(d, p, fl, m);
    if (int e = deny()) { errno = e; return -1; }
    return track(f(d, p, fl, m));
}
ssize_t read(int fd, void* b, size_t n) { return io.on && fd >= 0 && fd < NFD && tracked[fd] ? faulty_read(fd, b, n) : rread(fd, b, n); }
ssize_t pread(int fd, void* b, size_t n, off_t o) {
    static auto f = real<ssize_t (*)(int, void*, size_t, off_t)>("pread");
    if (!(io.on && fd >= 0 && fd < NFD && tracked[fd])) return f(fd, b, n, o);
    sim::NoScope ns; ssize_t k = allow(o, n); if (k < 0) { errno = (int)-k; return -1; } return k == 0 && n ? 0 : f(fd, b, (size_t)k, o);
}
ssize_t pread64(int fd, void* b, size_t n, off_t o) { return pread(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec* v, int c) {
    static auto f = real<ssize_t (*)(int, const struct iovec*, int)>("readv");
    if (!(io.on && fd >= 0 && fd < NFD && tracked[fd]) || c < 1) return f(fd, v, c);
    return faulty_read(fd, v[0].iov_base, v[0].iov_len);
}
}
