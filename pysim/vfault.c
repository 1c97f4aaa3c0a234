// LD_PRELOADed storage simulator: system calls on files of the scratch directory follow
// a plan set by the harness (see fault.py).
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/sendfile.h>
#include <unistd.h>
#define MAXOPS 4096
struct plan {
    int on; char prefix[512];
    int nops; unsigned char kind[MAXOPS]; int arg[MAXOPS];   // decision for the n-th operation
    long long budget;            // bytes that still fit on the disk, -1 unlimited
    // results
    int at; long long count[16]; // delivered faults by kind
    int ops; long long written;
    void (*callback)(int);
};
enum { PASS, SHORT, EINTR_, ERRNO_, KILL_BEFORE, KILL_AFTER, TORN_KILL, CALLBACK, NOSPC, EINTR_HARD };   // EINTR_HARD: at a call nobody is obliged to repeat
struct plan vf;
struct plan* vf_plan(void) { return &vf; }
static unsigned char tracked[4096];
#define REAL(name) ({ static __typeof__(&name) f; if (!f) f = (__typeof__(&name))dlsym(RTLD_NEXT, #name); f; })
static int inside = 0;
static int match(const char* p) { return vf.on && !inside && p && (p[0] != '/' || !strncmp(p, vf.prefix, strlen(vf.prefix))); }
static int mfd(int fd) { return vf.on && !inside && fd >= 0 && fd < 4096 && tracked[fd]; }
static int next(int* arg) {   // the decision for this operation
    int k = PASS; *arg = 0;
    if (vf.at < vf.nops) { k = vf.kind[vf.at]; *arg = vf.arg[vf.at]; }
    vf.at++; vf.ops++;
    if (k == KILL_BEFORE) { vf.count[k]++; _exit(137); }
    if (k == CALLBACK) { vf.count[k]++; if (vf.callback) { inside++; vf.callback(vf.at - 1); inside--; } k = PASS; }
    return k;
}
static int set(int e) { errno = e; return -1; }
#define SIMPLE(call, call_on) do { int a_, k_ = next(&a_); \
    if (k_ == EINTR_ || k_ == ERRNO_) { vf.count[k_ == EINTR_ ? EINTR_HARD : k_]++; return set(k_ == EINTR_ ? EINTR : a_); } \
    __typeof__(call_on) r_ = call_on; if (k_ == KILL_AFTER || k_ == TORN_KILL) { vf.count[k_]++; _exit(137); } return r_; } while (0)
static int openx(int r, int fl) { if (r >= 0 && r < 4096) tracked[r] = 1; return r; }
static int do_open(int dir, const char* p, int fl, mode_t m) {
    int a, k = next(&a);
    if (k == EINTR_ || k == ERRNO_) { vf.count[k == EINTR_ ? EINTR_HARD : k]++; return set(k == EINTR_ ? EINTR : a); }
    int r = openx(REAL(openat)(dir, p, fl, m), fl);
    if (k == KILL_AFTER || k == TORN_KILL) { vf.count[k]++; _exit(137); }
    return r;
}
#define MODE mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list v; va_start(v, fl); m = va_arg(v, mode_t); va_end(v); }
static int is_dir(int d, const char* p, int fl) { struct stat s; return !(fl & O_CREAT) && (fl & O_TMPFILE) != O_TMPFILE && !fstatat(d, p, &s, 0) && S_ISDIR(s.st_mode); }   // removing a temporary directory opens it
int open(const char* p, int fl, ...) { MODE if (!match(p) || is_dir(AT_FDCWD, p, fl)) return REAL(openat)(AT_FDCWD, p, fl, m); return do_open(AT_FDCWD, p, fl, m); }
int open64(const char* p, int fl, ...) { MODE if (!match(p) || is_dir(AT_FDCWD, p, fl)) return REAL(openat)(AT_FDCWD, p, fl, m); return do_open(AT_FDCWD, p, fl, m); }
int openat(int d, const char* p, int fl, ...) { MODE if (!match(p) || is_dir(d, p, fl)) return REAL(openat)(d, p, fl, m); return do_open(d, p, fl, m); }
int openat64(int d, const char* p, int fl, ...) { MODE if (!match(p) || is_dir(d, p, fl)) return REAL(openat)(d, p, fl, m); return do_open(d, p, fl, m); }
FILE* fopen(const char* p, const char* mode) {
    if (!match(p)) return REAL(fopen)(p, mode);
    int a, k = next(&a); if (k == EINTR_ || k == ERRNO_) { vf.count[k == EINTR_ ? EINTR_HARD : k]++; errno = k == EINTR_ ? EINTR : a; return NULL; }
    FILE* f = REAL(fopen)(p, mode); if (f && fileno(f) < 4096) tracked[fileno(f)] = 1; return f;
}
FILE* fopen64(const char* p, const char* mode) { return fopen(p, mode); }
int fclose(FILE* f) { int fd = fileno(f); if (fd >= 0 && fd < 4096) tracked[fd] = 0; return REAL(fclose)(f); }
int close(int fd) {
    if (!mfd(fd)) { if (fd >= 0 && fd < 4096) tracked[fd] = 0; return REAL(close)(fd); }
    int a, k = next(&a); tracked[fd] = 0;
    int r = REAL(close)(fd);
    if (k == ERRNO_) { vf.count[k]++; return set(a); }
    if (k == KILL_AFTER || k == TORN_KILL) { vf.count[k]++; _exit(137); }
    return r;
}
static ssize_t wr(int fd, const void* b, size_t n, off_t off, int p) {
    int a, k = next(&a);
    if (k == EINTR_ || k == ERRNO_) { vf.count[k]++; return set(k == EINTR_ ? EINTR : a); }
    size_t want = n;
    if ((k == SHORT || k == TORN_KILL) && n > 1) { want = 1 + (size_t)((double)(a % 100000) / 100000 * (double)(n - 1)); if (k == SHORT && want < n) vf.count[k]++; }
    if (vf.budget >= 0) { if (vf.budget == 0 && want) { vf.count[NOSPC]++; return set(ENOSPC); } if ((long long)want > vf.budget) { want = (size_t)vf.budget; vf.count[NOSPC]++; } }
    ssize_t r = p ? REAL(pwrite)(fd, b, want, off) : REAL(write)(fd, b, want);
    if (r > 0) { vf.written += r; if (vf.budget >= 0) vf.budget -= r; }
    if (k == TORN_KILL || k == KILL_AFTER) { vf.count[k]++; _exit(137); }
    return r;
}
ssize_t write(int fd, const void* b, size_t n) { return mfd(fd) ? wr(fd, b, n, 0, 0) : REAL(write)(fd, b, n); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { return mfd(fd) ? wr(fd, b, n, o, 1) : REAL(pwrite)(fd, b, n, o); }
ssize_t pwrite64(int fd, const void* b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec* v, int c) { return mfd(fd) && c > 0 ? wr(fd, v[0].iov_base, v[0].iov_len, 0, 0) : REAL(writev)(fd, v, c); }
ssize_t read(int fd, void* b, size_t n) {
    if (!mfd(fd)) return REAL(read)(fd, b, n);
    int a, k = next(&a);
    if (k == EINTR_ || k == ERRNO_) { vf.count[k]++; return set(k == EINTR_ ? EINTR : a); }
    if (k == SHORT && n > 1) { vf.count[k]++; n = 1 + (size_t)((double)(a % 100000) / 100000 * (double)(n - 1)); }
    return REAL(read)(fd, b, n);
}
int fsync(int fd) { if (!mfd(fd)) return REAL(fsync)(fd); SIMPLE(0, REAL(fsync)(fd)); }
int fdatasync(int fd) { if (!mfd(fd)) return REAL(fdatasync)(fd); SIMPLE(0, REAL(fdatasync)(fd)); }
int ftruncate(int fd, off_t n) { if (!mfd(fd)) return REAL(ftruncate)(fd, n); SIMPLE(0, REAL(ftruncate)(fd, n)); }
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
int rename(const char* a, const char* b) { if (!match(b)) return REAL(rename)(a, b); SIMPLE(0, REAL(rename)(a, b)); }
int renameat(int x, const char* a, int y, const char* b) { if (!match(b)) return REAL(renameat)(x, a, y, b); SIMPLE(0, REAL(renameat)(x, a, y, b)); }
int link(const char* a, const char* b) { if (!match(b)) return REAL(link)(a, b); SIMPLE(0, REAL(link)(a, b)); }
static int kill_only(void) { int a, k = next(&a); return k == KILL_AFTER || k == TORN_KILL ? (vf.count[k]++, 1) : 0; }
int unlink(const char* p) { if (!match(p)) return REAL(unlink)(p); int d = kill_only(); int r = REAL(unlink)(p); if (d) _exit(137); return r; }
int unlinkat(int x, const char* p, int f) { if (!match(p)) return REAL(unlinkat)(x, p, f); int d = kill_only(); int r = REAL(unlinkat)(x, p, f); if (d) _exit(137); return r; }
ssize_t sendfile(int o, int i, off_t* off, size_t n) { if (mfd(o)) return set(ENOTSOCK); return REAL(sendfile)(o, i, off, n); }
ssize_t copy_file_range(int i, off64_t* oi, int o, off64_t* oo, size_t n, unsigned f) { if (mfd(o)) return set(EXDEV); return REAL(copy_file_range)(i, oi, o, oo, n, f); }
