/* Virtual programs.  The same code runs as a stand-in inside the shim (model
 * checking) and as a real executable (conformance replays). */
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

#define VP_SIGNALED 0x10000 /* vprog result: die by this signal */
#define VP_CTRL 0x20000     /* life cycle decided by the explorer */

#ifndef VP_WRITE
#define VP_WRITE write
#define VP_READ read
#define VP_CLOSE close
#endif

static int vp_wall(int fd, const char *p, size_t n) {
    while (n) {
        ssize_t r = VP_WRITE(fd, p, n);
        if (r < 0) { if (errno == EINTR) continue; return -1; }
        p += r; n -= r;
    }
    return 0;
}
static int vp_wstr(int fd, const char *s) { return vp_wall(fd, s, strlen(s)); }

static char vp_buf[1 << 21];
static size_t vp_slurp(int fd) {
    size_t n = 0;
    for (;;) {
        char tmp[4096];
        ssize_t r = VP_READ(fd, tmp, sizeof tmp);
        if (r < 0) { if (errno == EINTR) continue; break; }
        if (r == 0) break;
        for (ssize_t i = 0; i < r; i++) if (n < sizeof vp_buf - 1) vp_buf[n++] = tmp[i];
    }
    vp_buf[n] = 0;
    return n;
}

/* write failure: programs die of SIGPIPE or report failure (status 9) */
static int vp_main(const char *base, int argc, char **argv) {
    if (!strcmp(base, "out") || !strcmp(base, "outno")) {
        static char b[1 << 20]; size_t n = 0;
        for (int i = 1; i < argc; i++) {
            size_t l = strlen(argv[i]);
            if (n + l + 2 > sizeof b) break;
            if (i > 1) b[n++] = ' ';
            memcpy(b + n, argv[i], l); n += l;
        }
        b[n++] = '\n';
        if (vp_wall(1, b, n)) return 9;
        return base[3] ? 1 : 0;
    }
    if (!strcmp(base, "put")) { /* no newline */
        if (argc > 1 && vp_wstr(1, argv[1])) return 9;
        return 0;
    }
    if (!strcmp(base, "ok")) return 0;
    if (!strcmp(base, "no")) return 1;
    if (!strcmp(base, "code")) return argc > 1 ? atoi(argv[1]) & 255 : 0;
    if (!strcmp(base, "die")) return VP_SIGNALED | (argc > 1 ? atoi(argv[1]) : 9);
    if (!strcmp(base, "pass")) {
        size_t n = vp_slurp(0);
        return vp_wall(1, vp_buf, n) ? 9 : 0;
    }
    if (!strcmp(base, "wrap")) { /* T(<stdin>) */
        size_t n = vp_slurp(0);
        while (n && vp_buf[n - 1] == '\n') n--;
        static char b[(1 << 21) + 256]; size_t m = 0;
        for (int i = 1; i < argc && i < 2; i++) { size_t l = strlen(argv[i]); memcpy(b + m, argv[i], l); m += l; }
        b[m++] = '(';
        for (size_t i = 0; i < n; i++) b[m++] = vp_buf[i] == '\n' ? ',' : vp_buf[i];
        b[m++] = ')'; b[m++] = '\n';
        return vp_wall(1, b, m) ? 9 : 0;
    }
    if (!strcmp(base, "err")) {
        if (argc > 1) { vp_wstr(2, argv[1]); vp_wstr(2, "\n"); }
        return 0;
    }
    if (!strcmp(base, "big")) {
        long n = argc > 1 ? atol(argv[1]) : 100000;
        char b[4096]; memset(b, 'b', sizeof b);
        while (n > 0) { size_t k = n > 4096 ? 4096 : n; if (vp_wall(1, b, k)) return 9; n -= k; }
        return 0;
    }
    if (!strcmp(base, "fdw")) { /* fdw N TEXT: write TEXT to descriptor N */
        if (argc < 3) return 2;
        int fd = atoi(argv[1]);
        return vp_wstr(fd, argv[2]) || vp_wstr(fd, "\n") ? 9 : 0;
    }
    if (!strcmp(base, "fdr")) { /* fdr N: copy descriptor N to stdout as r(...) */
        if (argc < 2) return 2;
        int fd = atoi(argv[1]);
        if (fcntl(fd, F_GETFD) < 0) return 9;
        size_t n = vp_slurp(fd);
        while (n && vp_buf[n - 1] == '\n') n--;
        for (size_t i = 0; i < n; i++) if (vp_buf[i] == '\n') vp_buf[i] = ',';
        vp_wstr(1, "r("); vp_wall(1, vp_buf, n); vp_wstr(1, ")\n");
        return 0;
    }
    if (!strncmp(base, "job", 3)) return VP_CTRL;
    return 0; /* anything else just succeeds */
}

/* ---- event log records: u32 length, then type byte, then fields ---- */
struct rec { char *b; size_t n, cap; };
static void rec_raw(struct rec *r, const void *p, size_t n) {
    if (r->n + n > r->cap) n = r->n < r->cap ? r->cap - r->n : 0;
    memcpy(r->b + r->n, p, n); r->n += n;
}
static void rec_u32(struct rec *r, unsigned v) { rec_raw(r, &v, 4); }
static void rec_str(struct rec *r, const char *s, size_t n) { rec_u32(r, n); rec_raw(r, s, n); }
static void rec_cstr(struct rec *r, const char *s) { rec_str(r, s, strlen(s)); }
static void rec_begin(struct rec *r, char *buf, size_t cap, char type) {
    r->b = buf; r->cap = cap; r->n = 4; rec_raw(r, &type, 1);
}
static void rec_end(struct rec *r, int fd) {
    unsigned l = r->n - 4; memcpy(r->b, &l, 4);
    vp_wall(fd, r->b, r->n);
}
/* list of open descriptors below limit: fd, access mode, link text */
static void rec_fds(struct rec *r, int limit, int skip) {
    size_t at = r->n; unsigned cnt = 0; rec_u32(r, 0);
    for (int fd = 0; fd < limit; fd++) {
        if (fd == skip) continue;
        int fl = fcntl(fd, F_GETFL);
        if (fl < 0) continue;
        char p[64], t[512];
        snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
        ssize_t n = readlink(p, t, sizeof t);
        if (n < 0) n = 0;
        rec_u32(r, fd); rec_u32(r, fl); rec_str(r, t, n); cnt++;
    }
    memcpy(r->b + at, &cnt, 4);
}
static void rec_vec(struct rec *r, char **v) {
    unsigned n = 0; while (v && v[n]) n++;
    rec_u32(r, n);
    for (unsigned i = 0; i < n; i++) rec_cstr(r, v[i]);
}
