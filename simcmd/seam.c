/* Loaded into the cpuid command: its CPUID instructions, its output, its memory and its randomness are the
 * simulator's. The simulator is at the other end of the socket SIM_FD; one request at a time. */
#define _GNU_SOURCE
#include <errno.h>
#include <link.h>
#include <pthread.h>
#include <signal.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <fcntl.h>
#include <ucontext.h>
#include <unistd.h>

#define SIM_FD 200
static int on;
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static uintptr_t site[4096];
static int nsite;
static long alloc_left = -1;
static int alloc_failing;
static uint64_t rnd;

static void die(void) { syscall(SYS_exit_group, 97); }
static void all(int nr, void *b, size_t n) {
    char *p = b;
    while (n) {
        long r = syscall(nr, SIM_FD, p, n);
        if (r < 0 && errno == EINTR) continue;
        if (r <= 0) die();
        p += r, n -= r;
    }
}
static void ask(uint32_t kind, uint32_t a, uint32_t b, const void *data, uint32_t len, uint32_t out[4]) {
    uint32_t h[4] = {kind, a, b, len};
    pthread_mutex_lock(&lock);
    all(SYS_write, h, sizeof h);
    if (len) all(SYS_write, (void *)data, len);
    all(SYS_read, out, 16);
    pthread_mutex_unlock(&lock);
}
static void on_ill(int sig, siginfo_t *i, void *u) {
    greg_t *g = ((ucontext_t *)u)->uc_mcontext.gregs;
    (void)sig, (void)i;
    for (int k = 0; k < nsite; k++)
        if (site[k] == (uintptr_t)g[REG_RIP]) {
            uint32_t r[4];
            int e = errno;
            ask(1, g[REG_RAX], g[REG_RCX], 0, 0, r);
            errno = e;
            g[REG_RAX] = r[0], g[REG_RBX] = r[1], g[REG_RCX] = r[2], g[REG_RDX] = r[3];
            g[REG_RIP] += 2;
            return;
        }
    signal(SIGILL, SIG_DFL);
}
static long put(int fd, const void *b, size_t n) {
    uint32_t r[4];
    if (n > 1 << 20) n = 1 << 20;
    ask(2, fd, 0, b, n, r);
    if ((int32_t)r[0] < 0) errno = r[1];
    return (int32_t)r[0];
}
ssize_t write(int fd, const void *b, size_t n) {
    if (on && (fd == 1 || fd == 2)) return put(fd, b, n);
    return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    if (on && (fd == 1 || fd == 2)) {
        for (int i = 0; i < n; i++)
            if (v[i].iov_len) return put(fd, v[i].iov_base, v[i].iov_len);
        return 0;
    }
    return syscall(SYS_writev, fd, v, n);
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
    if (!on) return syscall(SYS_getrandom, b, n, f);
    for (size_t i = 0; i < n; i++) {
        rnd ^= rnd << 13, rnd ^= rnd >> 7, rnd ^= rnd << 17;
        ((unsigned char *)b)[i] = rnd >> 32;
    }
    return n;
}
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t);
static int no_memory(void) {
    if (alloc_left < 0) return 0;
    if (alloc_left > 0) return alloc_left--, 0;
    if (!alloc_failing) {
        uint32_t r[4];
        alloc_failing = 1;
        ask(3, 0, 0, 0, 0, r);
        /* r[0]: only this once */
        if (r[0]) alloc_left = -1;
    }
    errno = ENOMEM;
    return 1;
}
void *malloc(size_t n) { return no_memory() ? 0 : __libc_malloc(n); }
void *calloc(size_t n, size_t m) { return no_memory() ? 0 : __libc_calloc(n, m); }
void *realloc(void *p, size_t n) { return no_memory() ? 0 : __libc_realloc(p, n); }

static uintptr_t base;
static int first(struct dl_phdr_info *i, size_t n, void *d) {
    (void)n, (void)d;
    base = i->dlpi_addr;
    return 1;
}
__attribute__((constructor)) static void arm(void) {
    static char buf[1 << 17];
    const char *f = getenv("SIM_SITES"), *a = getenv("SIM_ALLOC"), *s = getenv("SIM_RANDOM");
    if (!f) return;
    prctl(PR_SET_DUMPABLE, 0);
    int fd = syscall(SYS_openat, AT_FDCWD, f, O_RDONLY);
    long n = fd < 0 ? -1 : syscall(SYS_read, fd, buf, sizeof buf - 1);
    if (n <= 0 || n == sizeof buf - 1) die();
    close(fd);
    dl_iterate_phdr(first, 0);
    for (char *p = buf; *p;) {
        char *e;
        uintptr_t v = strtoul(p, &e, 16);
        if (e == p || nsite == 4096) break;
        unsigned char *c = (void *)(base + v);
        void *page = (void *)((uintptr_t)c & ~4095ul);
        size_t len = ((uintptr_t)c & 4095) == 4095 ? 8192 : 4096;
        if (mprotect(page, len, PROT_READ | PROT_WRITE | PROT_EXEC)) die();
        if (c[0] != 0x0f || c[1] != 0xa2) die();
        c[1] = 0x0b; /* ud2 */
        if (mprotect(page, len, PROT_READ | PROT_EXEC)) die();
        site[nsite++] = (uintptr_t)c;
        p = e;
    }
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_ill;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGILL, &sa, 0);
    rnd = (s ? strtoul(s, 0, 10) : 0) | 1;
    unsetenv("SIM_SITES"), unsetenv("SIM_ALLOC"), unsetenv("SIM_RANDOM"), unsetenv("LD_PRELOAD");
    on = 1;
    if (a) alloc_left = strtol(a, 0, 10);
}
