/* Stand-ins for the outside world.  Nothing here touches the real file system or network. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <time.h>
#include <poll.h>
#include <dirent.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include "drv.h"
#define DENY(name) void *__wrap_##name(void) { drv_log("denied %s", #name); drv_finish(6); __builtin_unreachable(); }
DENY(system)
DENY(popen)
DENY(chdir)
DENY(truncate)
DENY(unlinkat)
DENY(renameat)
DENY(nftw)
DENY(execve)
DENY(execvp)
DENY(symlink)
DENY(link)
DENY(chmod)
DENY(chown)
DENY(kill)

/* files: real calls, only inside the scratch directory of the case, every handle counted */
static int handles;
int drv_handles(void) { return handles; }
static void inside(const char *p, const char *what) {
    /* absolute paths only through the link to the scratch directory */
    static const char *const cwd = "/proc/self/cwd/";
    int bad = !drv_fs || (p[0] == '/' && strncmp(p, cwd, strlen(cwd)));
    if (bad && drv_fs && strcmp(what, "mkdir") == 0 && strncmp(p, cwd, strlen(p)) == 0) bad = 0;
    if (bad && drv_fs && strcmp(what, "opendir") == 0 && strcmp(p, "/proc/self/cwd") == 0) bad = 0;
    for (const char *q = p; *q; q++) if ((q == p || q[-1] == '/') && q[0] == '.' && q[1] == '.' && (q[2] == '/' || !q[2])) bad = 1;
    if (bad && drv_tracking(-1)) { drv_log("denied %s", what); drv_finish(6); }
}
FILE *__real_fopen(const char *, const char *);
FILE *__real_fopen64(const char *, const char *);
int __real_fclose(FILE *);
FILE *__wrap_fopen(const char *p, const char *m) { inside(p, "fopen"); FILE *f = __real_fopen(p, m); if (f) { handles++; if (drv_unbuf && m[0] != 'r') setvbuf(f, NULL, _IONBF, 0); } return f; }
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }
int __wrap_fclose(FILE *f) { if (drv_tracking(-1) && (f == stdout || f == stderr || f == stdin)) drv_finish(4); handles--; return __real_fclose(f); }
DIR *__real_opendir(const char *);
int __real_closedir(DIR *);
DIR *__wrap_opendir(const char *p) { inside(p, "opendir"); DIR *d = __real_opendir(p); if (d) handles++; return d; }
int __wrap_closedir(DIR *d) { handles--; return __real_closedir(d); }
#define PATH1(name, ty, ...) int __real_##name ty; int __wrap_##name ty { inside(p, #name); return __real_##name(__VA_ARGS__); }
PATH1(remove, (const char *p), p)
PATH1(rmdir, (const char *p), p)
PATH1(unlink, (const char *p), p)
PATH1(mkdir, (const char *p, mode_t m), p, m)
int __real_rename(const char *, const char *);
int __wrap_rename(const char *p, const char *q) { inside(p, "rename"); inside(q, "rename"); return __real_rename(p, q); }
ssize_t __real_readlink(const char *, char *, size_t);
ssize_t __wrap_readlink(const char *p, char *b, size_t n) {
    if (strcmp(p, "/proc/self/exe") == 0 && drv_nscript > 0) {
        /* scripted: failure, or a path of the given length */
        if (drv_script[0] < 0) return -1;
        size_t k = 0;
        for (; k < (size_t)drv_script[0] && k < n; k++) b[k] = "/exe"[k % 4];
        return k;
    }
    inside(p, "readlink");
    return __real_readlink(p, b, n);
}
char *__real_getcwd(char *, size_t);
void *__wrap_malloc(size_t);
char *__wrap_getcwd(char *b, size_t n) {
    char t[8192];
    if (!drv_tracking(-1)) return __real_getcwd(b, n);
    char *r = __real_getcwd(t, sizeof t);
    drv_log("C%s", r ? r : "");
    if (!r) return NULL;
    if (b) return __real_getcwd(b, n);
    if (n && n <= strlen(t)) return NULL;
    b = __wrap_malloc(n ? n : strlen(t) + 1);
    strcpy(b, t);
    return b;
}

/* one fixed moment */
time_t __real_time(time_t *);
time_t __wrap_time(time_t *t) { if (!drv_tracking(-1)) return __real_time(t); if (t) *t = DRV_NOW; return DRV_NOW; }
int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t c, struct timespec *t) {
    int r = __real_clock_gettime(c, t);
    if (r == 0 && drv_tracking(-1) && c == CLOCK_REALTIME) { t->tv_sec = DRV_NOW; t->tv_nsec = 0; }
    return r;
}

/* sockets: one scripted answer per request, every request logged */
static char hexbuf[8192];
static const char *hex(const void *p, size_t n) {
    const unsigned char *b = p;
    size_t i;
    if (n > sizeof hexbuf / 2 - 1) n = sizeof hexbuf / 2 - 1;
    for (i = 0; i < n; i++) sprintf(hexbuf + 2 * i, "%02x", b[i]);
    hexbuf[2 * i] = 0;
    return hexbuf;
}
static void sin(const struct sockaddr *a, socklen_t n, char *out) {
    struct sockaddr_in s;
    memset(&s, 0, sizeof s);
    memcpy(&s, a, n < sizeof s ? n : sizeof s);
    sprintf(out, "%u %u %u", s.sin_family, s.sin_port, s.sin_addr.s_addr);
    if (n != sizeof s) strcat(out, " short");
}
static void fill(struct sockaddr *a, socklen_t *n, int64_t r) {
    struct sockaddr_in s;
    memset(&s, 0, sizeof s);
    s.sin_family = AF_INET;
    s.sin_port = (uint16_t)r;
    s.sin_addr.s_addr = (uint32_t)((uint64_t)r * 2654435761u);
    if (a && n) { memcpy(a, &s, *n < sizeof s ? *n : sizeof s); *n = sizeof s; }
}
static int status(void) { return drv_next(0) < 0 ? -1 : 0; }
int __wrap_socket(int d, int t, int p) { int64_t r = drv_next(0); drv_log("Esocket %d %d %d", d, t, p); return r < 0 ? -1 : 3 + r % 50; }
int __wrap_setsockopt(int f, int l, int o, const void *v, socklen_t n) {
    int x = 0;
    if (n == 4) memcpy(&x, v, 4);
    drv_log("Esetsockopt %d %d %d %d", f, l, o, x);
    return status();
}
int __wrap_bind(int f, const struct sockaddr *a, socklen_t n) { char s[64]; sin(a, n, s); drv_log("Ebind %d %s", f, s); return status(); }
int __wrap_connect(int f, const struct sockaddr *a, socklen_t n) { char s[64]; sin(a, n, s); drv_log("Econnect %d %s", f, s); return status(); }
int __wrap_listen(int f, int b) { drv_log("Elisten %d %d", f, b); return status(); }
int __real_close(int);
int __wrap_close(int f) { if (!drv_tracking(-1)) return __real_close(f); drv_log("Eclose %d", f); return status(); }
int __wrap_shutdown(int f, int h) { drv_log("Eshutdown %d %d", f, h); return status(); }
int __wrap_accept(int f, struct sockaddr *a, socklen_t *n) {
    int64_t r = drv_next(0);
    drv_log("Eaccept %d", f);
    if (r < 0) return -1;
    fill(a, n, r);
    return 60 + r % 50;
}
ssize_t __wrap_send(int f, const void *b, size_t n, int fl) {
    int64_t r = drv_next(0);
    drv_log("Esend %d %s %d", f, hex(b, n), fl);
    return r < 0 ? -1 : (ssize_t)(r % (int64_t)(n + 1));
}
ssize_t __wrap_sendto(int f, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t al) {
    int64_t r = drv_next(0);
    char s[64];
    if (!a) {
        drv_log("Esend %d %s %d", f, hex(b, n), fl);
        return r < 0 ? -1 : (ssize_t)(r % (int64_t)(n + 1));
    }
    sin(a, al, s);
    drv_log("Esendto %d %s %d %s", f, hex(b, n), fl, s);
    return r < 0 ? -1 : (ssize_t)(r % (int64_t)(n + 1));
}
static ssize_t take(int64_t r, void *b, size_t n) {
    if (r < 0) return -1;
    ssize_t k = r % (int64_t)(n + 1);
    for (ssize_t j = 0; j < k; j++) ((unsigned char *)b)[j] = (unsigned char)(r + 7 * j + 1);
    return k;
}
ssize_t __wrap_recv(int f, void *b, size_t n, int fl) {
    int64_t r = drv_next(0);
    drv_log("Erecv %d %zu %d", f, n, fl);
    return take(r, b, n);
}
ssize_t __wrap_recvfrom(int f, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *al) {
    int64_t r = drv_next(0);
    drv_log(a ? "Erecvfrom %d %zu %d" : "Erecv %d %zu %d", f, n, fl);
    if (r >= 0 && a) fill(a, al, r);
    return take(r, b, n);
}
int __wrap_poll(struct pollfd *p, nfds_t n, int t) {
    static const short ev[] = { 0, 1, 1, 4, 8, 1, 0, 17, 16 };
    int64_t r = drv_next(0);
    char s[4096] = "";
    int c = 0;
    for (nfds_t j = 0; j < n && j < 200; j++) { struct { int fd; short e; } q; memset(&q, 0, sizeof q); q.fd = p[j].fd; q.e = p[j].events; strcat(s, hex(&q, 6)); }
    drv_log("Epoll %s %llu %d", s, (unsigned long long)n, t);
    if (r < 0) return -1;
    for (nfds_t j = 0; j < n; j++) { p[j].revents = ev[(r + 3 * j) % 9]; c += p[j].revents != 0; }
    return c;
}
