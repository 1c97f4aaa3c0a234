// LD_PRELOADed into every process of a shell script: operations that change files below one
// directory follow a plan kept in a shared file (VT_PLAN), so that the n-th operation of the
// whole script, in whichever process, can fail, be cut short or be the last one.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdio_ext.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
enum { PASS, SHORT, ERRNO_, KILL_BEFORE, KILL_AFTER, TORN_KILL, NOSPC };
struct plan { char prefix[512]; int ops; int at[8], kind[8], arg[8]; long long budget; int count[16]; };
static struct plan none, *vt = &none;
#define REAL(name) ({ static __typeof__(&name) f; if (!f) f = (__typeof__(&name))dlsym(RTLD_NEXT, #name); f; })
__attribute__((constructor)) static void start(void) {
    const char* p = getenv("VT_PLAN"); if (!p) return;
    int fd = REAL(open)(p, O_RDWR); if (fd < 0) return;
    void* m = mmap(0, sizeof(struct plan), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); REAL(close)(fd);
    if (m != MAP_FAILED) vt = m;
}
static int below(const char* abs) { size_t n = strlen(vt->prefix); return n && !strncmp(abs, vt->prefix, n) && (abs[n] == '/' || !abs[n]); }
static int match(int dir, const char* p) {
    char b[PATH_MAX * 2] = "", o[PATH_MAX * 2] = ""; if (!p || !vt->prefix[0]) return 0;
    if (p[0] != '/') { if (dir == AT_FDCWD) { if (!getcwd(b, PATH_MAX)) return 0; } else { char l[64]; snprintf(l, 64, "/proc/self/fd/%d", dir); ssize_t n = readlink(l, b, PATH_MAX); if (n < 0) return 0; b[n] = 0; } strcat(b, "/"); }
    strncat(b, p, PATH_MAX);
    for (char* t = strtok(b, "/"); t; t = strtok(NULL, "/")) { if (!strcmp(t, ".")) continue; if (!strcmp(t, "..")) { char* q = strrchr(o, '/'); if (q) *q = 0; continue; } strcat(o, "/"); strcat(o, t); }
    return below(o);
}
static int mfd(int fd) { if (!vt->prefix[0] || fd < 0) return 0; char l[64], b[PATH_MAX]; snprintf(l, 64, "/proc/self/fd/%d", fd); ssize_t n = readlink(l, b, PATH_MAX - 1); if (n <= 0) return 0; b[n] = 0; return below(b); }
static void die(int k) { vt->count[k]++; kill(0, SIGKILL); for (;;) pause(); }    // the whole script is killed
static int next(int* arg) {
    int k = PASS; *arg = 0;
    for (int i = 0; i < 8; ++i) if (vt->at[i] == vt->ops) { k = vt->kind[i]; *arg = vt->arg[i]; }
    vt->ops++;
    if (k == KILL_BEFORE) die(k);
    return k;
}
#define OP(T, call) do { int a_, k_ = next(&a_); if (k_ == ERRNO_) { vt->count[k_]++; errno = a_; return -1; } T r_ = call; int e_ = errno; if (k_ == KILL_AFTER || k_ == TORN_KILL) die(k_); errno = e_; return r_; } while (0)
static int opn(int d, const char* p, int fl, mode_t m) {
    if (!(fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) || !match(d, p)) return REAL(openat)(d, p, fl, m);
    OP(int, REAL(openat)(d, p, fl, m));
}
#define MODE mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list v; va_start(v, fl); m = va_arg(v, mode_t); va_end(v); }
int open(const char* p, int fl, ...) { MODE return opn(AT_FDCWD, p, fl, m); }
int open64(const char* p, int fl, ...) { MODE return opn(AT_FDCWD, p, fl, m); }
int openat(int d, const char* p, int fl, ...) { MODE return opn(d, p, fl, m); }
int openat64(int d, const char* p, int fl, ...) { MODE return opn(d, p, fl, m); }
int creat(const char* p, mode_t m) { return opn(AT_FDCWD, p, O_WRONLY | O_CREAT | O_TRUNC, m); }
static ssize_t wr(int fd, const void* b, size_t n) {
    int a, k = next(&a); size_t want = n;
    if (k == ERRNO_) { vt->count[k]++; errno = a; return -1; }
    if ((k == SHORT || k == TORN_KILL) && n > 1) { want = 1 + (size_t)((double)(a % 100000) / 100000 * (double)(n - 1)); if (k == SHORT && want < n) vt->count[k]++; }
    if (vt->budget >= 0) { if (vt->budget == 0 && want) { vt->count[NOSPC]++; errno = ENOSPC; return -1; } if ((long long)want > vt->budget) { want = (size_t)vt->budget; vt->count[NOSPC]++; } }
    ssize_t r = REAL(write)(fd, b, want);
    if (r > 0 && vt->budget >= 0) vt->budget -= r;
    if (k == TORN_KILL || k == KILL_AFTER) die(k);
    return r;
}
ssize_t write(int fd, const void* b, size_t n) { return mfd(fd) ? wr(fd, b, n) : REAL(write)(fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int c) { return c > 0 && mfd(fd) ? wr(fd, v[0].iov_base, v[0].iov_len) : REAL(writev)(fd, v, c); }
// stdio writes through write(2) inside libc, which cannot be interposed: do it here
int fflush(FILE* f) {
    if (!f || !__fpending(f) || !mfd(fileno(f))) return REAL(fflush)(f);
    size_t n = __fpending(f), k = 0; char* b = malloc(n); memcpy(b, f->_IO_write_base, n); __fpurge(f);
    while (k < n) { ssize_t r = wr(fileno(f), b + k, n - k); if (r < 0) { int e = errno; free(b); f->_flags |= 0x20; errno = e; return EOF; } k += (size_t)r; }
    free(b); return 0;
}
// the shell's line buffering would write inside libc; its builtins flush when they are done
int setvbuf(FILE* f, char* b, int mode, size_t n) { return REAL(setvbuf)(f, b, mode == _IOLBF ? _IOFBF : mode, n); }
void setlinebuf(FILE* f) { REAL(setvbuf)(f, NULL, _IOFBF, BUFSIZ); }
int fclose(FILE* f) { int bad = f && __fwriting(f) && fflush(f); int r = REAL(fclose)(f); return bad ? EOF : r; }
static size_t put(FILE* f, const void* b, size_t n) { fflush(f); const char* p = b; size_t k = 0; while (k < n) { ssize_t r = wr(fileno(f), p + k, n - k); if (r < 0) return k; k += (size_t)r; } return n; }
#undef fwrite_unlocked
size_t fwrite(const void* b, size_t s, size_t n, FILE* f) { if (!s || !n || !mfd(fileno(f))) return REAL(fwrite)(b, s, n, f); size_t k = put(f, b, s * n); return k / s; }
size_t fwrite_unlocked(const void* b, size_t s, size_t n, FILE* f) { if (!s || !n || !mfd(fileno(f))) return REAL(fwrite_unlocked)(b, s, n, f); size_t k = put(f, b, s * n); return k / s; }
int ftruncate(int fd, off_t n) { if (!mfd(fd)) return REAL(ftruncate)(fd, n); OP(int, REAL(ftruncate)(fd, n)); }
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int symlink(const char* a, const char* p) { if (!match(AT_FDCWD, p)) return REAL(symlink)(a, p); OP(int, REAL(symlink)(a, p)); }
int symlinkat(const char* a, int d, const char* p) { if (!match(d, p)) return REAL(symlinkat)(a, d, p); OP(int, REAL(symlinkat)(a, d, p)); }
int link(const char* a, const char* p) { if (!match(AT_FDCWD, p)) return REAL(link)(a, p); OP(int, REAL(link)(a, p)); }
int linkat(int x, const char* a, int d, const char* p, int f) { if (!match(d, p)) return REAL(linkat)(x, a, d, p, f); OP(int, REAL(linkat)(x, a, d, p, f)); }
int rename(const char* a, const char* b) { if (!match(AT_FDCWD, b)) return REAL(rename)(a, b); OP(int, REAL(rename)(a, b)); }
int renameat(int x, const char* a, int y, const char* b) { if (!match(y, b)) return REAL(renameat)(x, a, y, b); OP(int, REAL(renameat)(x, a, y, b)); }
int renameat2(int x, const char* a, int y, const char* b, unsigned f) { if (!match(y, b)) return REAL(renameat2)(x, a, y, b, f); OP(int, REAL(renameat2)(x, a, y, b, f)); }
int unlink(const char* p) { if (!match(AT_FDCWD, p)) return REAL(unlink)(p); OP(int, REAL(unlink)(p)); }
int unlinkat(int d, const char* p, int f) { if (!match(d, p)) return REAL(unlinkat)(d, p, f); OP(int, REAL(unlinkat)(d, p, f)); }
ssize_t copy_file_range(int i, off64_t* oi, int o, off64_t* oo, size_t n, unsigned f) { if (mfd(o)) { errno = EXDEV; return -1; } return REAL(copy_file_range)(i, oi, o, oo, n, f); }
