/* The simulated operating system under the real jotdown command.
 *
 * Loaded before libc into the unmodified command. Every way in which the operating system can
 * influence the command goes through here: input and output of any size, interruptions, errors,
 * size hints, random bytes, the clock, memory exhaustion, and being killed. What happens is
 * decided by the plan in the environment alone; what happened is recorded in shared memory, which
 * survives the process. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define WORDS 64
#define RECS 1000

struct rec { int64_t kind, fd, arg, ret; };

struct shm {
    /* 0 */ uint64_t ops, reads, delivered, read_errors, eof, eintr_r, short_r, writes;
    /* 8 */ uint64_t accepted, write_errors, eintr_w, short_w, open_in, open_in_errors, open_out, open_out_errors;
    /* 16 */ uint64_t delivered_at_touch, touched, allocs, alloc_failed, killed, random_reads, clock_reads, runaway;
    /* 24 */ uint64_t hash, hints, eintr_open, refused, writes_after_error, nrec, loaded, first_error;
    /* 32 */ uint64_t msg_errors, ttys;
    uint64_t pad[WORDS - 34];
    struct rec rec[RECS];
};

static struct shm dummy;
static struct shm *S = &dummy;

/* the plan: numbers in this order */
enum {
    R_MODE, R_K, R_EINTR, R_SEED, R_FAIL_AT, R_ERR,
    W_MODE, W_K, W_EINTR, W_SEED, W_FAIL_AT, W_ERR, W_STICKY,
    OPEN_IN_ERR, OPEN_OUT_ERR, OPEN_EINTR, HINT, HINT_N, PIPE,
    RANDOM, CLOCK, CLOCK_STEP, ALLOC_FAIL, ALLOC_STICKY, KILL_AT, KILL_TORN, MSG_ERR, LEAD, NPLAN
};
static int64_t P[NPLAN];
static const char *in_path, *out_path;
static uint64_t rr, wr, rnd, clk;
static int burst_r, burst_w, passed_r, passed_w, on;
#define MAXFD 1024
static unsigned char mark[MAXFD]; /* 1 input, 2 output */

static long sys6(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static long ret(long r) {
    if (r < 0 && r >= -4095) {
        errno = (int)-r;
        return -1;
    }
    return r;
}
static uint64_t next(uint64_t *s) {
    uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static void note(int64_t kind, int64_t fd, int64_t arg, int64_t r) {
    uint64_t h = S->hash ^ (uint64_t)kind * 31 ^ (uint64_t)arg << 8 ^ (uint64_t)r << 32;
    S->hash = next(&h);
    if (S->nrec < RECS) {
        struct rec *x = &S->rec[S->nrec];
        x->kind = kind, x->fd = fd, x->arg = arg, x->ret = r;
    }
    S->nrec++;
}
static void die(void) {
    S->killed = 1;
    note(99, 0, 0, 0);
    sys6(SYS_kill, sys6(SYS_getpid, 0, 0, 0, 0, 0, 0), SIGKILL, 0, 0, 0, 0);
    for (;;) sys6(SYS_exit_group, 137, 0, 0, 0, 0, 0);
}
/* a simulated call begins */
static int op(void) {
    uint64_t n = S->ops++;
    if (n > 3000000) {
        S->runaway = 1;
        sys6(SYS_exit_group, 97, 0, 0, 0, 0, 0);
    }
    if (P[KILL_AT] >= 0 && (uint64_t)P[KILL_AT] == n) {
        if (P[KILL_TORN]) return 1;
        die();
    }
    return 0;
}

__attribute__((constructor)) static void init(void) {
    const char *p = getenv("JDSIM_PLAN"), *m = getenv("JDSIM_SHM");
    if (!p || !m) return;
    for (int i = 0; i < NPLAN; i++) P[i] = strtoll(p, (char **)&p, 10);
    in_path = getenv("JDSIM_IN");
    out_path = getenv("JDSIM_OUT");
    long fd = sys6(SYS_open, (long)m, O_RDWR, 0, 0, 0, 0);
    if (fd < 0) sys6(SYS_exit_group, 98, 0, 0, 0, 0, 0);
    long a = sys6(SYS_mmap, 0, sizeof(struct shm), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    sys6(SYS_close, fd, 0, 0, 0, 0, 0);
    if (a < 0 && a > -4096) sys6(SYS_exit_group, 98, 0, 0, 0, 0, 0);
    S = (struct shm *)a;
    S->loaded = 1;
    rr = (uint64_t)P[R_SEED] * 77 + 1;
    wr = (uint64_t)P[W_SEED] * 91 + 5;
    rnd = (uint64_t)P[RANDOM];
    clk = 1700000000000000000ull + (uint64_t)P[CLOCK];
    if (!in_path) mark[0] = 1;
    if (!out_path) mark[1] = 2;
    sys6(SYS_prctl, PR_SET_PDEATHSIG, SIGKILL, 0, 0, 0, 0);
    on = 1;
}

/* ---- input ---- */
static ssize_t in_read(int fd, void *buf, size_t len, off_t off) {
    int torn = op();
    if (torn) die();
    S->reads++;
    if (len == 0) return 0;
    if (P[R_EINTR]) {
        /* 1: once before each call, 2: now and then, more: that many times before one call */
        int hit = P[R_EINTR] == 1 ? burst_r == 0
                : P[R_EINTR] == 2 ? burst_r < 5 && next(&rr) % 3 == 0
                : passed_r == P[R_SEED] % 3 && burst_r < P[R_EINTR];
        if (hit) {
            burst_r++;
            S->eintr_r++;
            note(1, fd, (int64_t)len, -EINTR);
            return ret(-EINTR);
        }
        burst_r = 0;
        passed_r++;
    }
    size_t n = len;
    switch (P[R_MODE]) {
    case 1: n = 1; break;
    case 2: n = (size_t)P[R_K]; break;
    case 3: n = 1 + next(&rr) % 9; break;
    case 4: n = 1 + next(&rr) % 3000; break;
    }
    if (n < 1) n = 1;
    if (n > len) n = len;
    int64_t lead = in_path ? 0 : P[LEAD];
    uint64_t pos = off >= lead ? (uint64_t)(off - lead) : off >= 0 ? 0 : S->delivered;
    if (P[R_FAIL_AT] >= 0) {
        if (pos >= (uint64_t)P[R_FAIL_AT]) {
            S->read_errors++;
            note(1, fd, (int64_t)len, -P[R_ERR]);
            return ret(-P[R_ERR]);
        }
        if (pos + n > (uint64_t)P[R_FAIL_AT]) n = (uint64_t)P[R_FAIL_AT] - pos;
    }
    long r = off >= 0 ? sys6(SYS_pread64, fd, (long)buf, (long)n, off, 0, 0) : sys6(SYS_read, fd, (long)buf, (long)n, 0, 0, 0);
    if (r == 0) S->eof = 1;
    if (r > 0) {
        if ((size_t)r < len) S->short_r++;
        if (pos + (uint64_t)r > S->delivered) S->delivered = pos + (uint64_t)r;
    }
    note(1, fd, (int64_t)len, r);
    return ret(r);
}

/* ---- output ---- */
static void touch(void) {
    if (!S->touched) {
        S->touched = 1;
        S->delivered_at_touch = S->delivered;
    }
}
/* how many of `len` bytes are accepted; negative: error */
static long admit(size_t len, int *torn) {
    *torn = op();
    S->writes++;
    if (S->write_errors) S->writes_after_error++;
    if (len == 0) return 0;
    if (P[W_EINTR]) {
        int hit = P[W_EINTR] == 1 ? burst_w == 0
                : P[W_EINTR] == 2 ? burst_w < 5 && next(&wr) % 3 == 0
                : passed_w == P[W_SEED] % 3 && burst_w < P[W_EINTR];
        if (hit) {
            burst_w++;
            S->eintr_w++;
            return -EINTR;
        }
        burst_w = 0;
        passed_w++;
    }
    size_t n = len;
    switch (P[W_MODE]) {
    case 1: n = 1; break;
    case 2: n = (size_t)P[W_K]; break;
    case 3: n = 1 + next(&wr) % 9; break;
    case 4: n = 1 + next(&wr) % 5000; break;
    }
    if (n < 1) n = 1;
    if (n > len) n = len;
    if (P[W_FAIL_AT] >= 0 && (S->write_errors == 0 || P[W_STICKY])) {
        uint64_t room = S->accepted < (uint64_t)P[W_FAIL_AT] ? (uint64_t)P[W_FAIL_AT] - S->accepted : 0;
        if (room == 0 || S->write_errors) {
            S->write_errors++;
            return -P[W_ERR];
        }
        if (n > room) n = room;
    }
    if (*torn) n = n / 2;
    if (n < len) S->short_w++;
    return (long)n;
}
static ssize_t out_writev(int fd, const struct iovec *v, int cnt, off_t off) {
    size_t len = 0;
    int torn;
    for (int i = 0; i < cnt; i++) len += v[i].iov_len;
    touch();
    long n = admit(len, &torn);
    note(2, fd, (int64_t)len, n);
    if (n < 0) return ret(n);
    size_t left = (size_t)n;
    for (int i = 0; i < cnt && left; i++) {
        size_t k = v[i].iov_len < left ? v[i].iov_len : left, done = 0;
        while (done < k) {
            long r = off >= 0 ? sys6(SYS_pwrite64, fd, (long)v[i].iov_base + (long)done, (long)(k - done), off, 0, 0)
                              : sys6(SYS_write, fd, (long)v[i].iov_base + (long)done, (long)(k - done), 0, 0, 0);
            if (r <= 0) return ret(r);
            done += (size_t)r;
            if (off >= 0) off += r;
        }
        left -= k;
    }
    S->accepted += (uint64_t)n;
    if (torn) die();
    return n;
}

#define IS(fd, m) (on && (fd) >= 0 && (fd) < MAXFD && mark[fd] == (m))

ssize_t read(int fd, void *b, size_t n) {
    if (IS(fd, 1)) return in_read(fd, b, n, -1);
    return ret(sys6(SYS_read, fd, (long)b, (long)n, 0, 0, 0));
}
ssize_t pread64(int fd, void *b, size_t n, off_t o) {
    if (IS(fd, 1)) return in_read(fd, b, n, o);
    return ret(sys6(SYS_pread64, fd, (long)b, (long)n, o, 0, 0));
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (IS(fd, 1)) {
        for (int i = 0; i < c; i++)
            if (v[i].iov_len) return in_read(fd, v[i].iov_base, v[i].iov_len, -1);
        return 0;
    }
    return ret(sys6(SYS_readv, fd, (long)v, c, 0, 0, 0));
}
/* nobody listens to the message */
static int mute(int fd) {
    if (!on || fd != 2 || !P[MSG_ERR]) return 0;
    S->msg_errors++;
    errno = (int)P[MSG_ERR];
    return 1;
}
ssize_t write(int fd, const void *b, size_t n) {
    if (mute(fd)) return -1;
    if (IS(fd, 2)) {
        struct iovec v = {(void *)b, n};
        return out_writev(fd, &v, 1, -1);
    }
    return ret(sys6(SYS_write, fd, (long)b, (long)n, 0, 0, 0));
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (mute(fd)) return -1;
    if (IS(fd, 2)) return out_writev(fd, v, c, -1);
    return ret(sys6(SYS_writev, fd, (long)v, c, 0, 0, 0));
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) {
    if (IS(fd, 2)) {
        struct iovec v = {(void *)b, n};
        return out_writev(fd, &v, 1, o);
    }
    return ret(sys6(SYS_pwrite64, fd, (long)b, (long)n, o, 0, 0));
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }

/* shortcuts around read and write do not exist here, as on many kernels and file systems */
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) {
    (void)a, (void)b, (void)c, (void)d, (void)e, (void)f;
    S->refused++;
    return ret(-ENOSYS);
}
ssize_t sendfile64(int a, int b, off64_t *c, size_t d) {
    (void)a, (void)b, (void)c, (void)d;
    S->refused++;
    return ret(-EINVAL);
}
ssize_t sendfile(int a, int b, off_t *c, size_t d) { return sendfile64(a, b, c, d); }
ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) {
    (void)a, (void)b, (void)c, (void)d, (void)e, (void)f;
    S->refused++;
    return ret(-EINVAL);
}

/* ---- files ---- */
static int same(const char *p, const char *q) { return q && strcmp(p, q) == 0; }

static int do_open(int dir, const char *path, int flags, mode_t mode) {
    int acc = flags & O_ACCMODE;
    int in = on && acc == O_RDONLY && same(path, in_path);
    int out = on && acc != O_RDONLY;
    if (!in && !out) return (int)ret(sys6(SYS_openat, dir, (long)path, flags, mode, 0, 0));
    if (op()) die();
    if (P[OPEN_EINTR] > (int64_t)S->eintr_open) {
        S->eintr_open++;
        note(3, -1, flags, -EINTR);
        return (int)ret(-EINTR);
    }
    if (in) {
        S->open_in++;
        if (P[OPEN_IN_ERR]) {
            S->open_in_errors++;
            note(3, -1, flags, -P[OPEN_IN_ERR]);
            return (int)ret(-P[OPEN_IN_ERR]);
        }
    } else {
        S->open_out++;
        if (P[OPEN_OUT_ERR]) {
            S->open_out_errors++;
            note(4, -1, flags, -P[OPEN_OUT_ERR]);
            return (int)ret(-P[OPEN_OUT_ERR]);
        }
        touch();
    }
    long fd = sys6(SYS_openat, dir, (long)path, flags, mode, 0, 0);
    note(in ? 3 : 4, -1, flags, fd < 0 ? fd : 0);
    if (fd >= 0 && fd < MAXFD) mark[fd] = in ? 1 : 2;
    return (int)ret(fd);
}
#define MODE(m, last)                                      \
    mode_t m = 0;                                          \
    if (flags & (O_CREAT | O_TMPFILE)) {                   \
        va_list ap;                                        \
        va_start(ap, last);                                \
        m = va_arg(ap, mode_t);                            \
        va_end(ap);                                        \
    }
int open(const char *p, int flags, ...) { MODE(m, flags) return do_open(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { MODE(m, flags) return do_open(AT_FDCWD, p, flags, m); }
int openat(int d, const char *p, int flags, ...) { MODE(m, flags) return do_open(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { MODE(m, flags) return do_open(d, p, flags, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int close(int fd) {
    if (fd >= 0 && fd < MAXFD) mark[fd] = 0;
    return (int)ret(sys6(SYS_close, fd, 0, 0, 0, 0, 0));
}
static int dup_mark(int from, long to) {
    if (from >= 0 && from < MAXFD && to >= 0 && to < MAXFD) mark[to] = mark[from];
    return (int)ret(to);
}
int dup(int fd) { return dup_mark(fd, sys6(SYS_dup, fd, 0, 0, 0, 0, 0)); }
int dup2(int a, int b) { return dup_mark(a, sys6(SYS_dup2, a, b, 0, 0, 0, 0)); }
int dup3(int a, int b, int f) { return dup_mark(a, sys6(SYS_dup3, a, b, f, 0, 0, 0)); }
static int do_fcntl(int fd, int cmd, long arg) {
    long r = sys6(SYS_fcntl, fd, cmd, arg, 0, 0, 0);
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) return dup_mark(fd, r);
    return (int)ret(r);
}
int fcntl(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    return do_fcntl(fd, cmd, a);
}
int fcntl64(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    return do_fcntl(fd, cmd, a);
}
int ftruncate64(int fd, off_t n) {
    if (IS(fd, 2)) {
        if (op()) die();
        touch();
        note(5, fd, n, 0);
    }
    return (int)ret(sys6(SYS_ftruncate, fd, n, 0, 0, 0, 0));
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
static int is_tty(int fd) { return on && fd >= 0 && fd <= 2 && P[PIPE] >> (2 + fd) & 1; }
int isatty(int fd) {
    S->ttys++;
    if (is_tty(fd)) return 1;
    errno = ENOTTY;
    return 0;
}
/* bit 1: the input is a pipe, 2: standard output is, 4 and up: descriptors 0 to 2 are terminals */
static int is_pipe(int fd) {
    return on && ((IS(fd, 1) && P[PIPE] & 1) || (fd == 1 && !out_path && P[PIPE] & 2) || is_tty(fd));
}
off_t lseek64(int fd, off_t o, int w) {
    if (is_pipe(fd)) return ret(-ESPIPE);
    return ret(sys6(SYS_lseek, fd, o, w, 0, 0, 0));
}
off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }

/* the reported size of the input, which need not be true */
static int64_t hint(int64_t size) {
    S->hints++;
    switch (P[HINT]) {
    case 1: return 0;
    case 2: return size > P[HINT_N] ? size - P[HINT_N] : 0;
    case 3: return size + P[HINT_N];
    }
    return size;
}
int statx(int dir, const char *restrict path_, int flags, unsigned mask, struct statx *restrict b) {
    if (on && P[HINT] == 4) return (int)ret(-ENOSYS); /* an old kernel */
    const char *volatile path = path_;
    long r = sys6(SYS_statx, dir, (long)path, flags, mask, (long)b, 0);
    int empty = path == NULL || path[0] == 0;
    if (on && r == 0 && empty && is_pipe(dir)) {
        b->stx_mode = (b->stx_mode & ~S_IFMT) | (is_tty(dir) ? S_IFCHR : S_IFIFO);
        b->stx_size = 0;
    } else if (on && r == 0 && ((empty && IS(dir, 1)) || (!empty && same(path, in_path)))) {
        b->stx_size = (uint64_t)hint((int64_t)b->stx_size);
    }
    return (int)ret(r);
}
int fstat64(int fd, struct stat64 *b) {
    long r = sys6(SYS_fstat, fd, (long)b, 0, 0, 0, 0);
    if (r == 0 && is_pipe(fd)) {
        b->st_mode = (b->st_mode & ~S_IFMT) | (is_tty(fd) ? S_IFCHR : S_IFIFO);
        b->st_size = 0;
    } else if (r == 0 && IS(fd, 1)) {
        b->st_size = hint(b->st_size);
    }
    return (int)ret(r);
}
int fstat(int fd, struct stat *b) { return fstat64(fd, (struct stat64 *)b); }

/* ---- randomness, time, memory ---- */
ssize_t getrandom(void *buf, size_t n, unsigned fl) {
    if (!on) return ret(sys6(SYS_getrandom, (long)buf, (long)n, fl, 0, 0, 0));
    S->random_reads++;
    for (size_t i = 0; i < n; i++) ((unsigned char *)buf)[i] = (unsigned char)(next(&rnd) >> 20);
    return (ssize_t)n;
}
int clock_gettime(clockid_t c, struct timespec *ts) {
    (void)c;
    S->clock_reads++;
    clk += (uint64_t)P[CLOCK_STEP] + 1000;
    ts->tv_sec = (time_t)(clk / 1000000000ull);
    ts->tv_nsec = (long)(clk % 1000000000ull);
    return 0;
}
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
static int no_memory(void) {
    if (!on) return 0;
    uint64_t n = S->allocs++;
    if (P[ALLOC_FAIL] >= 0 && (n == (uint64_t)P[ALLOC_FAIL] || (P[ALLOC_STICKY] && n > (uint64_t)P[ALLOC_FAIL]))) {
        S->alloc_failed++;
        errno = ENOMEM;
        return 1;
    }
    return 0;
}
void *malloc(size_t n) { return no_memory() ? NULL : __libc_malloc(n); }
void *calloc(size_t a, size_t b) { return no_memory() ? NULL : __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { return no_memory() ? NULL : __libc_realloc(p, n); }
int posix_memalign(void **p, size_t a, size_t n) {
    if (no_memory()) return ENOMEM;
    *p = __libc_memalign(a, n);
    return *p ? 0 : ENOMEM;
}
void *aligned_alloc(size_t a, size_t n) { return no_memory() ? NULL : __libc_memalign(a, n); }
void *memalign(size_t a, size_t n) { return no_memory() ? NULL : __libc_memalign(a, n); }
