/* Replay driver: runs one function of the real library on a concrete memory image and dumps the
   memory it leaves behind.  Each case runs in a forked child; libc allocation, exit and the
   environment calls are wrapped at link time (see ENV below), so nothing outside the process
   is touched. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <errno.h>
#include <grp.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/time.h>
#include "drv.h"

void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
FILE *__real_fopen(const char *, const char *);
int __real_fclose(FILE *);
int __real_chdir(const char *);
int __real_rmdir(const char *);

#define MAXB 4096
struct blk { char *p; size_t size; int owner; char alive, initial, heap; };
static struct blk B[MAXB];
static int NB;
static int tracking;
static int oom;
static int failat = -1, nalloc;
int drv_unbuf;
static int64_t drv_limit = -1;

struct shm { uint32_t outcome, oom; uint64_t len; char data[1]; };
static struct shm *SH;
#define SHSZ (64u << 20)

static void put(const void *p, size_t n) {
    if (SH->len + n + 64 > SHSZ) { SH->outcome = 7; _exit(0); }
    memcpy(SH->data + SH->len, p, n);
    SH->len += n;
}
static void put32(uint32_t x) { put(&x, 4); }
static void put64(uint64_t x) { put(&x, 8); }

/* what was printed: standard output, standard error */
static int outfd = -1, errfd = -1;
static void console(int fd) {
    static char t[1 << 16];
    ssize_t n = fd < 0 ? 0 : pread(fd, t, sizeof t, 0);
    if (n < 0) n = 0;
    put32((uint32_t)n);
    put(t, n);
}
static void consoles(void) { fflush(stdout); console(outfd); console(errfd); }

void drv_finish(int outcome) {
    tracking = 0;
    if (outcome == 1) { SH->len = 0; consoles(); }
    SH->outcome = outcome;
    SH->oom = oom;
    _exit(0);
}

static int find(void *p) {
    for (int i = NB - 1; i >= 0; i--) if (B[i].alive && B[i].p == (char *)p) return i;
    return -1;
}
static void *track(void *p, size_t n, int owner) {
    if (!p) { oom = 1; return p; }
    int k = NB;
    if (NB >= MAXB / 2) for (k = 0; k < NB && (B[k].alive || B[k].initial); k++) {}
    if (k >= MAXB) drv_finish(8);
    B[k].p = p; B[k].size = n; B[k].owner = owner; B[k].alive = 1; B[k].initial = 0; B[k].heap = 1;
    if (k == NB) NB++;
    return p;
}
static void *alloc_o(size_t n, int zero, int owner) {
    if (nalloc++ == failat) { oom = 1; return NULL; }
    void *p = zero ? __real_calloc(1, n) : __real_malloc(n);
    if (p && !zero && n < (1u << 24)) memset(p, 0xA5, n);
    return track(p, n, owner);
}
static void free_o(void *p, int owner) {
    if (!p) return;
    int i = find(p);
    if (i < 0) drv_finish(4);
    if (!B[i].heap || B[i].owner != owner) drv_finish(4);
    B[i].alive = 0;
    __real_free(p);
}
static void *realloc_o(void *p, size_t n, int owner) {
    if (!p) return alloc_o(n, 0, owner);
    int i = find(p);
    if (i < 0 || !B[i].heap || B[i].owner != owner) drv_finish(4);
    if (n == 0) { free_o(p, owner); return NULL; }
    void *q = alloc_o(n, 0, owner);
    if (!q) return NULL;
    memcpy(q, p, n < B[i].size ? n : B[i].size);
    B[i].alive = 0;
    __real_free(p);
    return q;
}
void *__wrap_malloc(size_t n) { return tracking ? alloc_o(n, 0, -1) : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { oom = 1; return NULL; }
    return tracking ? alloc_o(n, 1, -1) : __real_calloc(a, b);
}
void *__wrap_realloc(void *p, size_t n) { return tracking ? realloc_o(p, n, -1) : __real_realloc(p, n); }
void __wrap_free(void *p) {
    if (!tracking) { __real_free(p); return; }
    free_o(p, -1);
}
void __wrap_exit(int c) { (void)c; drv_finish(1); __builtin_unreachable(); }
void __wrap___assert_fail(const char *a, const char *f, unsigned l, const char *g) {
    (void)a; (void)f; (void)l; (void)g; drv_finish(1); __builtin_unreachable();
}
void __wrap_abort(void) { drv_finish(1); __builtin_unreachable(); }

/* conforming user allocator handed to the library */
static int self_idx(void *self) { for (int i = 0; i < NB; i++) if (B[i].p == (char *)self) return i; return -2; }
void *stub_alloc(void *self, size_t n, const char *f, const char *g, size_t l) {
    (void)f; (void)g; (void)l;
    if (n == 0) drv_finish(1);
    void *p = alloc_o(n, 1, self_idx(self));
    if (!p) drv_finish(1);
    return p;
}
void *stub_realloc(void *self, void *q, size_t n, const char *f, const char *g, size_t l) {
    (void)f; (void)g; (void)l;
    if (n == 0) drv_finish(1);
    void *p = realloc_o(q, n, self_idx(self));
    if (!p) drv_finish(1);
    return p;
}
void stub_free(void *self, void *q, const char *f, const char *g, size_t l) {
    (void)f; (void)g; (void)l;
    free_o(q, self_idx(self));
}
#define MAXCB 65536
static uint64_t CB[MAXCB][2];
static int NCB;
void stub_callback(void *p, size_t i) {
    if (NCB < MAXCB) { CB[NCB][0] = (uint64_t)p; CB[NCB][1] = i; }
    if (NCB++ > 1 << 24) drv_finish(8);
}
static void *const FNS[] = { (void *)stub_alloc, (void *)stub_realloc, (void *)stub_free, (void *)stub_callback };

/* environment script: the decisions of the outside world, and a log of what was asked of it */
int64_t drv_script[64];
int drv_nscript, drv_iscript, drv_fs;
static char LOG[1 << 16];
static size_t LOGN;
int64_t drv_next(int64_t dflt) {
    return drv_iscript < drv_nscript ? drv_script[drv_iscript++] : dflt;
}
void drv_log(const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(LOG + LOGN, sizeof LOG - LOGN, fmt, ap);
    va_end(ap);
    if (n > 0 && LOGN + n + 1 < sizeof LOG) LOGN += n + 1;
}
/* a returned text that lives in no tracked object (string literals, static buffers) */
void drv_text(const char *p) {
    if (!p) return;
    for (int i = 0; i < NB; i++) if (B[i].alive && p >= B[i].p && p <= B[i].p + B[i].size) return;
    drv_log("T%llx:%s", (unsigned long long)(uintptr_t)p, p);
}
void *drv_base(int i) { return B[i].p; }
int drv_tracking(int on) { int o = tracking; if (on >= 0) tracking = on; return o; }

static uint32_t rd32(FILE *f) { uint32_t x = 0; if (fread(&x, 4, 1, f) != 1) _exit(3); return x; }
static uint64_t rd64(FILE *f) { uint64_t x = 0; if (fread(&x, 8, 1, f) != 1) _exit(3); return x; }

static void setup(FILE *f, union val *args, uint32_t *fn) {
    *fn = rd32(f);
    uint32_t nb = rd32(f);
    NB = 0;
    for (uint32_t i = 0; i < nb; i++) {
        uint64_t size = rd64(f);
        uint32_t flags = rd32(f);
        int32_t owner = (int32_t)rd32(f);
        char *p = __real_malloc(size);
        if (size && fread(p, size, 1, f) != 1) _exit(3);
        B[NB].p = p; B[NB].size = size; B[NB].owner = owner; B[NB].alive = 1; B[NB].initial = 1; B[NB].heap = flags & 1;
        NB++;
    }
    uint32_t nr = rd32(f);
    for (uint32_t i = 0; i < nr; i++) {
        uint32_t b = rd32(f); uint64_t off = rd64(f); int32_t t = (int32_t)rd32(f); uint64_t to = rd64(f);
        void *v = t >= 0 ? (void *)(B[t].p + to) : FNS[to];
        memcpy(B[b].p + off, &v, 8);
    }
    uint32_t na = rd32(f);
    for (uint32_t i = 0; i < na; i++) {
        if (fread(&args[i], 16, 1, f) != 1) _exit(3);
        int32_t t = (int32_t)rd32(f); uint64_t to = rd64(f);
        if (t >= 0) { void *v = B[t].p + to; memcpy(&args[i], &v, 8); }
        else if (t == -1) { void *v = FNS[to]; memcpy(&args[i], &v, 8); }
    }
    drv_nscript = rd32(f);
    for (int i = 0; i < drv_nscript; i++) drv_script[i] = (int64_t)rd64(f);
    failat = (int32_t)rd32(f);
    drv_limit = (int64_t)rd64(f);
    drv_unbuf = rd32(f);
    /* scratch directory and HOME of the case */
    drv_fs = rd32(f);
    int32_t hl = (int32_t)rd32(f);
    if (hl == -1) unsetenv("HOME");
    else {
        char *h = __real_calloc(1, hl + 1);
        if (hl && fread(h, hl, 1, f) != 1) _exit(3);
        setenv("HOME", h, 1);
        __real_free(h);
    }
}

/* the code under test runs where it can reach nothing real: scratch directory, unprivileged user */
static int confine(uint32_t c) {
    char d[32];
    umask(0);
    sprintf(d, "c%u", c);
    if (__real_chdir(d)) return -1;
    if (drv_fs & 2) { char u[32]; sprintf(u, "../%s", d); if (__real_rmdir(u)) return -1; }
    if (geteuid() == 0 && (setgroups(0, NULL) || setgid(65534) || setuid(65534))) return -1;
    return 0;
}

int main(int argc, char **argv) {
    if (argc < 3) return 3;
    FILE *f = __real_fopen(argv[1], "rb"), *out = __real_fopen(argv[2], "wb");
    if (!f || !out) return 3;
    outfd = memfd_create("out", 0);
    errfd = argc > 3 ? open(argv[3], O_RDWR | O_CREAT | O_TRUNC, 0600) : -1;
    SH = mmap(NULL, SHSZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (SH == MAP_FAILED) return 3;
    uint32_t n = rd32(f);
    for (uint32_t c = 0; c < n; c++) {
        union val args[24];
        union val ret;
        uint32_t fn;
        memset(args, 0, sizeof args);
        memset(&ret, 0, sizeof ret);
        long pos0 = ftell(f);
        (void)pos0;
        SH->outcome = 99; SH->len = 0; SH->oom = 0;
        setup(f, args, &fn);
        if (errfd >= 0) { if (ftruncate(errfd, 0)) {} lseek(errfd, 0, SEEK_SET); }
        if (outfd >= 0) { if (ftruncate(outfd, 0)) {} lseek(outfd, 0, SEEK_SET); }
        pid_t pid = fork();
        if (pid == 0) {
            int nul = open("/dev/null", O_RDWR);
            dup2(nul, 0); dup2(outfd >= 0 ? outfd : nul, 1); dup2(errfd >= 0 ? errfd : nul, 2);
            /* processor time decides; the wall-clock limit is for calls that block */
            int lim = getenv("DRV_TIMEOUT") ? atoi(getenv("DRV_TIMEOUT")) : DRV_TIMEOUT;
            struct itimerval tv = { {0, 0}, {lim, 0} }, tw = { {0, 0}, {lim * 5, 0} };
            setitimer(ITIMER_PROF, &tv, NULL);
            setitimer(ITIMER_REAL, &tw, NULL);
            NCB = 0; nalloc = 0;
            if (drv_fs && confine(c)) drv_finish(6);
            int ni = NB;
            struct rlimit rl, rs;
            if (drv_limit >= 0 && getrlimit(RLIMIT_FSIZE, &rl) == 0) {
                /* the disk is full after so many bytes */
                signal(SIGXFSZ, SIG_IGN);
                rs = rl;
                rs.rlim_cur = drv_limit;
                if (setrlimit(RLIMIT_FSIZE, &rs)) drv_finish(6);
            }
            tracking = 1;
            drv_call(fn, args, &ret);
            tracking = 0;
            if (drv_limit >= 0) setrlimit(RLIMIT_FSIZE, &rl);
            if (drv_handles()) drv_log("H%d", drv_handles());
            put(&ret, 16);
            put32(ni);
            for (int i = 0; i < ni; i++) {
                put64((uint64_t)B[i].p);
                put32(B[i].alive);
                put64(B[i].alive ? B[i].size : 0);
                if (B[i].alive) put(B[i].p, B[i].size);
            }
            uint32_t nn = 0;
            for (int i = ni; i < NB; i++) nn += B[i].alive;
            put32(nn);
            for (int i = ni; i < NB; i++) if (B[i].alive) {
                put64((uint64_t)B[i].p);
                put32((uint32_t)B[i].owner);
                put64(B[i].size);
                put(B[i].p, B[i].size);
            }
            put32(NCB < MAXCB ? NCB : MAXCB);
            for (int i = 0; i < NCB && i < MAXCB; i++) { put64(CB[i][0]); put64(CB[i][1]); }
            put32(sizeof FNS / sizeof *FNS);
            for (size_t i = 0; i < sizeof FNS / sizeof *FNS; i++) put64((uint64_t)FNS[i]);
            put32(LOGN);
            put(LOG, LOGN);
            consoles();
            drv_finish(0);
        }
        int st;
        waitpid(pid, &st, 0);
        uint32_t oc = SH->outcome;
        if (WIFSIGNALED(st)) oc = (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGPROF) ? 3 : 2;
        else if (oc == 99) oc = 2;
        if (oc > 1) SH->len = 0;
        char err[2048];
        ssize_t ne = 0;
        if (oc == 2 && errfd >= 0) { lseek(errfd, 0, SEEK_SET); ne = read(errfd, err, sizeof err); if (ne < 0) ne = 0; }
        uint64_t len = SH->len;
        uint32_t oo = SH->oom, ne32 = ne;
        fwrite(&oc, 4, 1, out); fwrite(&oo, 4, 1, out); fwrite(&len, 8, 1, out); fwrite(SH->data, len, 1, out);
        fwrite(&ne32, 4, 1, out); fwrite(err, ne, 1, out);
        for (int i = 0; i < NB; i++) __real_free(B[i].p);
        NB = 0;
        if (oc == 3 && ++oom > 5) break;
    }
    __real_fclose(out);
    return 0;
}
