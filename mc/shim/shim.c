/* LD_PRELOAD shim: puts a process tree of the shell under the control of the
 * explorer.  See DESIGN.md ("The shim").  Everything the shell can observe of
 * process identity, process life cycle and signals is virtual; files, pipes
 * and descriptors are real. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdarg.h>
#include <stdint.h>
#include <sched.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
static ssize_t raw_write(int fd, const void *b, size_t n);
static ssize_t raw_read(int fd, void *b, size_t n);
#define VP_WRITE raw_write
#define VP_READ raw_read
#include "vprog.h"

#define CTL 900
#define LOG 901
#define MARK_SIG 41 /* real death of a CTRL stand-in */
#define MAXCH 256
#define MAXPLAN 64

enum { ROOT, NESTED };
enum { RUN, ZOMB, STOP, GONE };
struct child {
    int vpid; pid_t real; int state; int rep; /* state change reported */
    int status; int real_done, real_status; int pgid; int cont;
};
struct planent { long at; char ev; long a, b; };
struct faultent { char path[64]; char kind[12]; int nth; int err; };

static int active;             /* shim configured by the explorer */
static int role;
static int controlled;         /* root is driven through CTL (interactive) */
static int ask;                /* explorer decides at every waitpid */
static int mpoints;            /* malloc is a point too */
static int in_alloc;           /* a point inside the allocator */
static struct { char path[64]; long at; int sig; } nsig[4]; static int nnsig; /* signals for nested processes */
static int npoints_on;         /* nested processes count their points */
static int logcalls;           /* log faultable calls */
static int self_vpid, self_ppid, self_pgid, next_vpid;
static char self_path[64];
static int nkids;              /* for path numbering */
static struct child ch[MAXCH];
static int nch;
static struct planent plan[MAXPLAN]; static int nplan;
static struct faultent faults[8]; static int nfaults;
static struct { char kind[12]; int n; } cnt[16]; static int ncnt;
static long points;
static int in_shim;
static uint64_t vmask, vpend;
static struct { void *h; int siginfo; uint64_t mask; int flags; } disp[65];
static int handler_depth, handlers_run;
static int interrupted; /* the last deliver_pending() ran a handler that interrupts calls (no SA_RESTART) */
static char rb[1 << 19];
static char *linebuf; static size_t linelen, lineoff;
static char linestore[1 << 20];
static int line_eof;
static char unexpected[256];

#define REAL(name, type) static type (*real_##name)
static pid_t (*real_fork)(void);
static int (*real_sigaction)(int, const struct sigaction *, struct sigaction *);
static int (*real_open64)(const char *, int, ...);
static int (*real_close)(int);
extern void *__libc_malloc(size_t); extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t); extern void __libc_free(void *);
extern void *__libc_memalign(size_t, size_t);
extern char **environ;

static ssize_t raw_write(int fd, const void *b, size_t n) { return syscall(SYS_write, fd, b, n); }
static ssize_t raw_read(int fd, void *b, size_t n) { return syscall(SYS_read, fd, b, n); }
static void die(const char *m) { raw_write(2, "SHIM: ", 6); raw_write(2, m, strlen(m)); raw_write(2, "\n", 1); _exit(97); }

/* ---------------------------------------------------------------- log --- */
static void log_simple(char type, long a, long b, const char *s) {
    if (!active) return;
    char buf[1024]; struct rec r; rec_begin(&r, buf, sizeof buf, type);
    rec_cstr(&r, self_path); rec_u32(&r, (unsigned)a); rec_u32(&r, (unsigned)b);
    char t[512]; size_t l = strlen(s); if (l > 500) l = 500; memcpy(t, s, l);
    rec_str(&r, t, l);
    rec_end(&r, LOG);
}

/* ------------------------------------------------------------ signals --- */
#define BIT(s) (1ull << ((s) - 1))
static int is_virtual_sig(int s) {
    return s != SIGSEGV && s != SIGBUS && s != SIGPIPE && s != SIGILL && s != SIGFPE && s != SIGABRT && s < 32;
}
static int deliver_pending(void) {
    int ran = 0; interrupted = 0; int intr = 0;
    for (int again = 1; again;) {
        again = 0;
        for (int s = 1; s < 32; s++) {
            if (!(vpend & BIT(s)) || (vmask & BIT(s))) continue;
            vpend &= ~BIT(s);
            void *h = disp[s].h;
            if (h == SIG_IGN) continue;
            if (h == SIG_DFL) {
                if (s == SIGCHLD || s == SIGCONT || s == SIGWINCH || s == SIGURG) continue;
                log_simple('D', s, 0, "default action of a signal");
                if (s == SIGTSTP || s == SIGSTOP || s == SIGTTIN || s == SIGTTOU) continue;
                struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = SIG_DFL;
                real_sigaction(s, &sa, 0);
                syscall(SYS_kill, syscall(SYS_getpid), s);
                _exit(128 + s);
            }
            uint64_t save = vmask;
            vmask |= disp[s].mask;
            if (!(disp[s].flags & SA_NODEFER)) vmask |= BIT(s);
            if (disp[s].flags & SA_RESETHAND) disp[s].h = SIG_DFL;
            ran++; handlers_run++; handler_depth++;
            if (!(disp[s].flags & SA_RESTART)) intr = 1;
            int sv = in_shim, se = errno; in_shim = 0;
            if (handler_depth > 20) die("handler recursion");
            if (disp[s].siginfo) {
                siginfo_t si; memset(&si, 0, sizeof si); si.si_signo = s;
                ((void (*)(int, siginfo_t *, void *))h)(s, &si, 0);
            } else ((void (*)(int))h)(s);
            in_shim = sv; errno = se; handler_depth--;
            vmask = save;
            again = 1; break;
        }
    }
    interrupted = intr;
    return ran;
}

/* ----------------------------------------------------------- children --- */
static struct child *by_vpid(int v) { for (int i = 0; i < nch; i++) if (ch[i].vpid == v) return &ch[i]; return 0; }
static void real_reap(struct child *c) { /* wait for the real process behind c */
    if (c->real_done) return;
    int st; pid_t p;
    while ((p = syscall(SYS_wait4, c->real, &st, 0, 0)) < 0 && errno == EINTR);
    c->real_done = 1;
    c->real_status = p < 0 ? 0 : st;
}
static int is_ctrl(struct child *c) { return c->real_done && WIFSIGNALED(c->real_status) && WTERMSIG(c->real_status) == MARK_SIG; }
static void child_exit(struct child *c, int status) {
    if (c->state == ZOMB || c->state == GONE) return;
    c->state = ZOMB; c->rep = 0; c->status = status; vpend |= BIT(SIGCHLD);
}
static void child_finish(struct child *c) { /* natural end */
    real_reap(c);
    int st = c->real_status;
    if (is_ctrl(c)) st = 0;
    else if (WIFSIGNALED(st)) { /* signals that leave a core are told with it */
        st &= 0x7f;
        if (BIT(st) & (BIT(SIGQUIT) | BIT(SIGILL) | BIT(SIGTRAP) | BIT(SIGABRT) | BIT(SIGBUS) | BIT(SIGFPE) | BIT(SIGSEGV) | BIT(SIGXCPU) | BIT(SIGXFSZ) | BIT(SIGSYS))) st |= 0x80;
    }
    child_exit(c, st);
}
static void apply_event(char ev, long a, long b) {
    struct child *c = (ev == 'x' || ev == 's' || ev == 'c' || ev == 'f') ? by_vpid(a) : 0;
    switch (ev) {
    case 'f': if (c && c->state == RUN) child_finish(c); break;
    case 'x': if (c) { real_reap(c); child_exit(c, b); } break;
    case 's': if (c && c->state == RUN) { c->state = STOP; c->rep = 0; c->cont = 0; c->status = (b << 8) | 0x7f; vpend |= BIT(SIGCHLD); } break;
    case 'c': if (c && c->state == STOP) { c->state = RUN; c->cont = 1; vpend |= BIT(SIGCHLD); } break;
    case 'i': vpend |= BIT(a); break;
    }
}

/* ------------------------------------------------------------ control --- */
static char cbuf[1 << 20];
static void send_report(char type, int blocking) {
    struct rec r; rec_begin(&r, rb, sizeof rb, type);
    rec_u32(&r, points); rec_u32(&r, blocking); rec_u32(&r, handlers_run);
    rec_u32(&r, (unsigned)vmask); rec_u32(&r, (unsigned)vpend);
    unsigned ign = 0, hnd = 0;
    for (int s = 1; s < 32; s++) {
        if (disp[s].h == SIG_IGN) ign |= 1u << s; else if (disp[s].h != SIG_DFL) hnd |= 1u << s;
    }
    rec_u32(&r, ign); rec_u32(&r, hnd);
    char cwd[4096]; if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) cwd[0] = 0;
    rec_cstr(&r, cwd);
    rec_fds(&r, 256, -1);
    rec_u32(&r, nch);
    for (int i = 0; i < nch; i++) {
        rec_u32(&r, ch[i].vpid); rec_u32(&r, ch[i].state); rec_u32(&r, ch[i].rep | ch[i].cont << 1);
        rec_u32(&r, ch[i].status); rec_u32(&r, ch[i].pgid); rec_u32(&r, is_ctrl(&ch[i]));
    }
    unsigned l = r.n - 4; memcpy(r.b, &l, 4);
    if (syscall(SYS_sendto, CTL, r.b, r.n, MSG_NOSIGNAL, 0, 0) < 0) _exit(96);
}
static void move_fd(int from, int to) {
    if (from == to) return;
    syscall(SYS_dup3, from, to, 0); syscall(SYS_close, from);
}
static void do_snapshot(int *fds) { /* fds: ctl, out, err, log */
    long pid = syscall(SYS_clone, CLONE_PARENT | SIGCHLD, 0, 0, 0, 0);
    if (pid == 0) {
        syscall(SYS_setpgid, 0, 0);
        move_fd(fds[1], 1); move_fd(fds[2], 2); move_fd(fds[0], CTL); move_fd(fds[3], LOG);
        return;
    }
    for (int i = 0; i < 4; i++) syscall(SYS_close, fds[i]);
    int32_t m[2] = { -2, (int32_t)pid };
    syscall(SYS_sendto, CTL, m, 8, MSG_NOSIGNAL, 0, 0);
}
/* one command of the explorer; returns its letter */
static int ctl_recv(char **body, size_t *len) {
    for (;;) {
        struct iovec iov = { cbuf, sizeof cbuf - 1 };
        char cm[CMSG_SPACE(8 * sizeof(int))];
        struct msghdr mh; memset(&mh, 0, sizeof mh);
        mh.msg_iov = &iov; mh.msg_iovlen = 1; mh.msg_control = cm; mh.msg_controllen = sizeof cm;
        ssize_t n = syscall(SYS_recvmsg, CTL, &mh, 0);
        if (n < 0 && errno == EINTR) continue;
        if (n <= 0) _exit(95);
        cbuf[n] = 0;
        if (cbuf[0] == 'F') {
            int fds[4] = { -1, -1, -1, -1 };
            for (struct cmsghdr *c = CMSG_FIRSTHDR(&mh); c; c = CMSG_NXTHDR(&mh, c))
                if (c->cmsg_type == SCM_RIGHTS) memcpy(fds, CMSG_DATA(c), sizeof fds);
            do_snapshot(fds);
            continue;
        }
        if (cbuf[0] == 'X') _exit(0);
        *body = cbuf + 1; *len = n - 1;
        return cbuf[0];
    }
}
static void parse_event(const char *b) { /* "<ev> <a> <b>;..." */
    while (b) {
        char ev; long a = 0, c = 0;
        if (sscanf(b, "%c %ld %ld", &ev, &a, &c) >= 1) apply_event(ev, a, c);
        b = strchr(b, ';'); if (b) b++;
    }
}
static void ask_wait(int blocking) {
    for (;;) {
        /* what runs under the explorer has really ended by now, all else ends on its own */
        for (int i = 0; i < nch; i++) if (ch[i].state != GONE) real_reap(&ch[i]);
        send_report('W', blocking);
        char *b; size_t l; int c = ctl_recv(&b, &l);
        if (c == 'G') return;
        if (c == 'E') { parse_event(b); continue; }
        die("bad command at a wait");
    }
}
/* finish every AUTO child that still runs (real completion, lowest first) */
static void settle(int ctrl_too) {
    for (int i = 0; i < nch; i++) if (ch[i].state == RUN) {
        real_reap(&ch[i]);
        if (is_ctrl(&ch[i]) && !ctrl_too) continue;
        child_finish(&ch[i]);
    }
}
/* "L<flags>\n<plan lines>\n\n<text>" */
static void begin_line(char *b, size_t l) {
    char *end = b + l;
    ask = mpoints = logcalls = 0; nplan = nfaults = ncnt = 0; points = 0; handlers_run = 0; nnsig = npoints_on = 0;
    for (; b < end && *b != '\n'; b++) {
        if (*b == 'a') ask = 1;
        if (*b == 'm') mpoints = 1;
        if (*b == 'c') logcalls = 1;
        if (*b == 'n') npoints_on = 1;
    }
    b++;
    while (b < end && *b != '\n') {
        char *nl = memchr(b, '\n', end - b); if (!nl) break;
        *nl = 0;
        if (*b == 'S' && nplan < MAXPLAN) {
            struct planent *p = &plan[nplan];
            p->a = p->b = 0;
            if (sscanf(b, "S %ld %c %ld %ld", &p->at, &p->ev, &p->a, &p->b) >= 2) nplan++;
        } else if (*b == 'N' && nnsig < 4) {
            if (sscanf(b, "N %63s %ld %d", nsig[nnsig].path, &nsig[nnsig].at, &nsig[nnsig].sig) == 3) nnsig++;
        } else if (*b == 'T' && nfaults < 8) {
            struct faultent *f = &faults[nfaults];
            if (sscanf(b, "T %63s %11s %d %d", f->path, f->kind, &f->nth, &f->err) == 4) nfaults++;
        }
        b = nl + 1;
    }
    b++;
    linelen = b < end ? end - b : 0; lineoff = 0;
    memcpy(linestore, b, linelen); linebuf = linestore;
}

/* -------------------------------------------------------------- points --- */
static int point(void) { /* were there handlers that interrupt a call? */
    if (!active || (role != ROOT && !npoints_on)) return 0;
    long n = points++;
    if (role != ROOT) for (int i = 0; i < nnsig; i++) if (nsig[i].at == n && !strcmp(nsig[i].path, self_path)) { log_simple('S', nsig[i].sig, n, ""); vpend |= BIT(nsig[i].sig); }
    for (int i = 0; i < nplan; i++) if (plan[i].at == n) apply_event(plan[i].ev, plan[i].a, plan[i].b);
    if (!(vpend & ~vmask)) return 0;
    deliver_pending();
    return interrupted;
}
/* faultable call: 0 or the errno to fail with */
static int fault(const char *kind, const char *arg) {
    if (!active) return 0;
    int i; for (i = 0; i < ncnt; i++) if (!strcmp(cnt[i].kind, kind)) break;
    if (i == ncnt) { if (ncnt == 16) return 0; strcpy(cnt[ncnt].kind, kind); cnt[ncnt].n = 0; ncnt++; }
    int n = cnt[i].n++;
    if (logcalls) { char t[300]; snprintf(t, sizeof t, "%s %.200s", kind, arg); log_simple('C', n, 0, t); }
    for (int k = 0; k < nfaults; k++)
        if ((faults[k].nth == n || (faults[k].nth < 0 && n >= -faults[k].nth)) && !strcmp(faults[k].kind, kind) && !strcmp(faults[k].path, self_path[0] ? self_path : "-")) {
            log_simple('T', n, faults[k].err, kind);
            return faults[k].err;
        }
    return 0;
}
#define ENTER int hr_ = 0; (void)hr_; if (active) { in_shim++; hr_ = point(); in_shim--; }

/* ---------------------------------------------------------------- init --- */
__attribute__((constructor(101))) static void init(void) {
    real_fork = dlsym(RTLD_NEXT, "fork");
    real_sigaction = dlsym(RTLD_NEXT, "sigaction");
    real_open64 = dlsym(RTLD_NEXT, "open64");
    real_close = dlsym(RTLD_NEXT, "close");
    const char *m = getenv("MC_SHIM");
    if (!m) return;
    controlled = m[0] == 'i';
    unsetenv("MC_SHIM"); unsetenv("LD_PRELOAD");
    role = ROOT; self_vpid = 1000; self_ppid = 999; self_pgid = 1000; next_vpid = 1001; strcpy(self_path, "");
    struct rlimit z = { 0, 0 }; setrlimit(RLIMIT_CORE, &z);
    if (!controlled && m[0] == 'c') logcalls = 1;
    active = 1;
}

/* how many points a shell that ends has gone through */
__attribute__((destructor)) static void fini(void) { if (active && role == ROOT) log_simple('N', points, 0, ""); }

/* ------------------------------------------------------------ malloc --- */
/* a handler that runs here has interrupted the allocator, it must not use it */
static inline void mpoint(void) {
    if (!mpoints || !active || in_shim) return;
    if (in_alloc) die("a signal handler uses the memory allocator that it has interrupted");
    in_shim++; in_alloc++; point(); in_alloc--; in_shim--;
}
void *malloc(size_t n) { mpoint(); return __libc_malloc(n); }
void *calloc(size_t a, size_t b) { mpoint(); return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { mpoint(); return __libc_realloc(p, n); }
void free(void *p) { mpoint(); __libc_free(p); }
int posix_memalign(void **o, size_t a, size_t n) { mpoint(); *o = __libc_memalign(a, n); return *o ? 0 : ENOMEM; }

/* --------------------------------------------------------------- pids --- */
pid_t getpid(void) { return active ? self_vpid : syscall(SYS_getpid); }
pid_t getppid(void) { return active ? self_ppid : syscall(SYS_getppid); }
pid_t getpgrp(void) { return active ? self_pgid : syscall(SYS_getpgid, 0); }
pid_t getpgid(pid_t p) {
    if (!active) return syscall(SYS_getpgid, p);
    if (p == 0 || p == self_vpid) return self_pgid;
    struct child *c = by_vpid(p); if (c && c->state != GONE) return c->pgid;
    errno = ESRCH; return -1;
}
int setpgid(pid_t p, pid_t g) {
    if (!active) return syscall(SYS_setpgid, p, g);
    ENTER
    if (p == 0) p = self_vpid;
    if (g == 0) g = p;
    log_simple('P', p, g, "");
    if (p == self_vpid) { self_pgid = g; return 0; }
    struct child *c = by_vpid(p);
    if (c && c->state != GONE) { c->pgid = g; return 0; }
    errno = ESRCH; return -1;
}
pid_t setsid(void) { if (!active) return syscall(SYS_setsid); self_pgid = self_vpid; return self_vpid; }
pid_t tcgetpgrp(int fd) { if (!active) return -1; errno = ENOTTY; return -1; }
int tcsetpgrp(int fd, pid_t p) { errno = ENOTTY; return -1; }

pid_t fork(void) {
    if (!active) return real_fork();
    ENTER
    int e = fault("fork", ""); if (e) { errno = e; return -1; }
    if (nch == MAXCH) { /* forget collected children */
        int k = 0; for (int i = 0; i < nch; i++) if (ch[i].state != GONE) ch[k++] = ch[i];
        nch = k; if (nch == MAXCH) { errno = EAGAIN; return -1; }
    }
    int v = next_vpid++; int k = ++nkids;
    log_simple('F', v, k, "");
    in_shim++;
    pid_t p = real_fork();
    in_shim--;
    if (p < 0) die("real fork failed");
    if (p == 0) {
        self_ppid = self_vpid; self_vpid = v; next_vpid = (int)(((long)v * 50 + 1) % 1000000000);
        size_t l = strlen(self_path);
        snprintf(self_path + l, sizeof self_path - l, l ? ".%d" : "%d", k);
        nkids = 0; nch = 0; role = NESTED; nplan = 0; vpend = 0; ncnt = 0; ask = 0; points = 0; if (!npoints_on) mpoints = 0;
        if (controlled) syscall(SYS_close, CTL);
        return 0;
    }
    struct child *c = &ch[nch++];
    memset(c, 0, sizeof *c);
    c->vpid = v; c->real = p; c->state = RUN; c->pgid = self_pgid;
    return v;
}
pid_t vfork(void) { return fork(); }

static int matches(struct child *c, pid_t pid) {
    if (c->state == GONE) return 0;
    if (pid > 0) return c->vpid == pid;
    if (pid == -1) return 1;
    if (pid == 0) return c->pgid == self_pgid;
    return c->pgid == -pid;
}
static pid_t do_wait4(pid_t pid, int *st, int opts, int intr) {
    int first = 1;
    for (;;) {
        if (ask && role == ROOT) {
            ask_wait((opts & WNOHANG) ? 0 : first ? 1 : 2);
        }
        int ran = (vpend & ~vmask) ? (deliver_pending(), interrupted) : 0;
        int alive = 0; struct child *best = 0;
        for (int i = 0; i < nch; i++) {
            struct child *c = &ch[i];
            if (!matches(c, pid)) continue;
            alive++;
            if (best) continue;
            if (c->state == ZOMB && (opts & (WEXITED | 0x40000000))) best = c;
            else if (c->state == STOP && !c->rep && (opts & WUNTRACED)) best = c;
            else if (c->cont && (opts & WCONTINUED)) best = c;
        }
        if (best) {
            struct child *c = best;
            int s = c->status, v = c->vpid;
            if (c->state == ZOMB) { c->state = GONE; log_simple('R', v, s, "reaped"); real_reap(c); }
            else if (c->state == STOP) { c->rep = 1; }
            else { c->cont = 0; s = 0xffff; }
            if (st) *st = s;
            return v;
        }
        if (!alive) { errno = ECHILD; return -1; }
        if (opts & WNOHANG) return 0;
        if (ran || intr) { errno = EINTR; return -1; }
        first = 0;
        if (ask && role == ROOT) continue;
        /* default environment: everything that can finish finishes now */
        int before = 0, after = 0;
        for (int i = 0; i < nch; i++) before += ch[i].state == RUN;
        settle(role != ROOT || !controlled);
        for (int i = 0; i < nch; i++) after += ch[i].state == RUN;
        if (before == after) { /* only CTRL children left (or stopped ones) */
            if (role == ROOT && controlled) ask_wait(2);
            else die("deadlock: waiting for a stopped child");
        }
    }
}
pid_t waitpid(pid_t pid, int *st, int opts) {
    if (!active) return syscall(SYS_wait4, pid, st, opts, 0);
    ENTER
    return do_wait4(pid, st, opts | 0x40000000, hr_ && !(opts & WNOHANG));
}
pid_t wait(int *st) { return waitpid(-1, st, 0); }
pid_t wait4(pid_t pid, int *st, int opts, struct rusage *ru) { return waitpid(pid, st, opts); }
int waitid(idtype_t t, id_t id, siginfo_t *si, int opts) {
    if (!active) return syscall(SYS_waitid, t, id, si, opts, 0);
    ENTER
    int st = 0; int o = (opts & WNOHANG) | ((opts & WEXITED) ? 0x40000000 : 0) | ((opts & WSTOPPED) ? WUNTRACED : 0) | (opts & WCONTINUED);
    pid_t p = do_wait4(t == P_PID ? (pid_t)id : t == P_PGID ? -(pid_t)id : -1, &st, o, 0);
    if (p < 0) return -1;
    memset(si, 0, sizeof *si);
    if (p) {
        si->si_pid = p; si->si_signo = SIGCHLD;
        if (WIFEXITED(st)) { si->si_code = CLD_EXITED; si->si_status = WEXITSTATUS(st); }
        else if (WIFSIGNALED(st)) { si->si_code = CLD_KILLED; si->si_status = WTERMSIG(st); }
        else if (WIFSTOPPED(st)) { si->si_code = CLD_STOPPED; si->si_status = WSTOPSIG(st); }
        else { si->si_code = CLD_CONTINUED; si->si_status = SIGCONT; }
    }
    return 0;
}

static void kill_child(struct child *c, int sig) {
    if (sig == 0 || c->state == ZOMB || c->state == GONE) return;
    if (sig == SIGCONT) { if (c->state == STOP) apply_event('c', c->vpid, 0); return; }
    if (sig == SIGSTOP || sig == SIGTSTP || sig == SIGTTIN || sig == SIGTTOU) { apply_event('s', c->vpid, sig); return; }
    if (sig == SIGCHLD || sig == SIGWINCH || sig == SIGURG) return;
    apply_event('x', c->vpid, sig);
}
int kill(pid_t pid, int sig) {
    if (!active) return syscall(SYS_kill, pid, sig);
    ENTER
    log_simple('K', pid, sig, "");
    if (pid == self_vpid) { if (sig) { vpend |= BIT(sig); deliver_pending(); } return 0; }
    if (pid > 0) {
        struct child *c = by_vpid(pid);
        if (!c || c->state == GONE) { errno = ESRCH; return -1; }
        kill_child(c, sig); if (vpend & ~vmask) deliver_pending();
        return 0;
    }
    int g = pid == 0 ? self_pgid : -pid, hit = pid == -1;
    for (int i = 0; i < nch; i++) if (ch[i].state != GONE && (pid == -1 || ch[i].pgid == g)) { kill_child(&ch[i], sig); hit = 1; }
    if (vpend & ~vmask) deliver_pending();
    if (!hit) { errno = ESRCH; return -1; }
    return 0;
}
int killpg(pid_t g, int sig) { return kill(-g, sig); }
int raise(int sig) { if (!active) return syscall(SYS_tgkill, syscall(SYS_getpid), syscall(SYS_gettid), sig);
    if (!is_virtual_sig(sig)) return syscall(SYS_tgkill, syscall(SYS_getpid), syscall(SYS_gettid), sig);
    return kill(self_vpid, sig); }

/* ------------------------------------------------------- signal masks --- */
static uint64_t from_set(const sigset_t *s) { uint64_t m = 0; for (int i = 1; i < 32; i++) if (sigismember(s, i) == 1) m |= BIT(i); return m & ~(BIT(SIGKILL) | BIT(SIGSTOP)); }
static void to_set(sigset_t *s, uint64_t m) { sigemptyset(s); for (int i = 1; i < 32; i++) if (m & BIT(i)) sigaddset(s, i); }
static int do_mask(int how, const sigset_t *set, sigset_t *old) {
    uint64_t o = vmask;
    if (set) {
        uint64_t m = from_set(set);
        if (how == SIG_BLOCK) vmask |= m; else if (how == SIG_UNBLOCK) vmask &= ~m; else vmask = m;
    }
    if (old) to_set(old, o);
    in_shim++; if (vpend & ~vmask) deliver_pending(); in_shim--;
    return 0;
}
int sigprocmask(int how, const sigset_t *set, sigset_t *old) {
    if (!active) return syscall(SYS_rt_sigprocmask, how, set, old, 8);
    ENTER
    return do_mask(how, set, old);
}
int pthread_sigmask(int how, const sigset_t *set, sigset_t *old) {
    if (!active) return syscall(SYS_rt_sigprocmask, how, set, old, 8) ? errno : 0;
    ENTER
    return do_mask(how, set, old);
}
static int do_sigaction(int s, const struct sigaction *sa, struct sigaction *old) {
    if (s < 1 || s > 64) { errno = EINVAL; return -1; }
    if (!is_virtual_sig(s)) {
        int r = real_sigaction(s, sa, old);
        if (sa && r == 0) disp[s].h = (void *)sa->sa_handler;
        return r;
    }
    if (old) {
        memset(old, 0, sizeof *old);
        old->sa_handler = (void (*)(int))disp[s].h; old->sa_flags = disp[s].flags; to_set(&old->sa_mask, disp[s].mask);
    }
    if (sa) {
        disp[s].h = (void *)sa->sa_handler; disp[s].flags = sa->sa_flags;
        disp[s].siginfo = !!(sa->sa_flags & SA_SIGINFO); disp[s].mask = from_set(&sa->sa_mask);
        if (sa->sa_handler == SIG_IGN || (sa->sa_handler == SIG_DFL && (s == SIGCHLD || s == SIGCONT || s == SIGWINCH))) vpend &= ~BIT(s);
    }
    return 0;
}
int sigaction(int s, const struct sigaction *sa, struct sigaction *old) {
    if (!active) return real_sigaction(s, sa, old);
    ENTER
    return do_sigaction(s, sa, old);
}
typedef void (*sighandler)(int);
sighandler signal(int s, sighandler h) {
    struct sigaction sa, old; memset(&sa, 0, sizeof sa); sa.sa_handler = h; sa.sa_flags = SA_RESTART;
    if (sigaction(s, &sa, &old) < 0) return SIG_ERR;
    return old.sa_handler;
}
static int suspend_until(uint64_t m) {
    uint64_t save = vmask; vmask = m;
    while (!((vpend & ~vmask) && deliver_pending())) {
        int before = 0, after = 0;
        for (int i = 0; i < nch; i++) before += ch[i].state == RUN;
        if (ask && role == ROOT) { ask_wait(2); continue; }
        settle(role != ROOT || !controlled);
        for (int i = 0; i < nch; i++) after += ch[i].state == RUN;
        if (before == after && !(vpend & ~vmask)) { if (role == ROOT && controlled) ask_wait(2); else die("suspended forever"); }
    }
    vmask = save; deliver_pending(); errno = EINTR; return -1;
}
int sigsuspend(const sigset_t *set) {
    if (!active) return syscall(SYS_rt_sigsuspend, set, 8);
    ENTER
    return suspend_until(from_set(set));
}
int pause(void) {
    if (!active) return syscall(SYS_pause);
    ENTER
    return suspend_until(vmask);
}
int sigpending(sigset_t *s) { if (!active) return syscall(SYS_rt_sigpending, s, 8); to_set(s, vpend); return 0; }

/* -------------------------------------------------- files, descriptors --- */
int pipe2(int p[2], int fl) {
    if (!active) return syscall(SYS_pipe2, p, fl);
    ENTER
    int e = fault("pipe", ""); if (e) { errno = e; return -1; }
    return syscall(SYS_pipe2, p, fl);
}
int pipe(int p[2]) { return pipe2(p, 0); }
int close(int fd) {
    if (!active) return syscall(SYS_close, fd);
    ENTER
    if (fd >= CTL) { errno = EBADF; return -1; }
    return syscall(SYS_close, fd);
}
int dup(int fd) { if (!active) return syscall(SYS_dup, fd); ENTER int e = fault("dup", ""); if (e) { errno = e; return -1; } return syscall(SYS_dup, fd); }
int dup2(int a, int b) {
    if (!active) return a == b ? (syscall(SYS_fcntl, a, F_GETFD) < 0 ? -1 : a) : syscall(SYS_dup3, a, b, 0);
    ENTER
    int e = fault("dup2", ""); if (e) { errno = e; return -1; }
    if (b >= CTL) { errno = EBADF; return -1; }
    if (a == b) return syscall(SYS_fcntl, a, F_GETFD) < 0 ? -1 : a;
    return syscall(SYS_dup3, a, b, 0);
}
int dup3(int a, int b, int f) { if (!active) return syscall(SYS_dup3, a, b, f); ENTER int e = fault("dup2", ""); if (e) { errno = e; return -1; } return syscall(SYS_dup3, a, b, f); }
static int do_fcntl(int fd, int c, long a) {
    if (active && (c == F_DUPFD || c == F_DUPFD_CLOEXEC)) {
        ENTER
        if (fd >= CTL) { errno = EBADF; return -1; }
        int e = fault("dup", ""); if (e) { errno = e; return -1; }
    }
    return syscall(SYS_fcntl, fd, c, a);
}
int fcntl(int fd, int c, ...) { va_list ap; va_start(ap, c); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, c, a); }
int fcntl64(int fd, int c, ...) { va_list ap; va_start(ap, c); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, c, a); }

static int do_open(const char *path, int fl, mode_t mode) {
    if (active) {
        ENTER
        if (!strcmp(path, "/dev/tty")) { errno = ENXIO; return -1; }
        int e = fault("open", path); if (e) { errno = e; return -1; }
    }
    return syscall(SYS_openat, AT_FDCWD, path, fl, mode);
}
#define OPEN_MODE mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
int open(const char *path, int fl, ...) { OPEN_MODE return do_open(path, fl, m); }
int open64(const char *path, int fl, ...) { OPEN_MODE return do_open(path, fl, m); }
int openat(int d, const char *path, int fl, ...) { OPEN_MODE
    if (d == AT_FDCWD || path[0] == '/') return do_open(path, fl, m); return syscall(SYS_openat, d, path, fl, m); }
int openat64(int d, const char *path, int fl, ...) { OPEN_MODE
    if (d == AT_FDCWD || path[0] == '/') return do_open(path, fl, m); return syscall(SYS_openat, d, path, fl, m); }
int chdir(const char *p) {
    if (!active) return syscall(SYS_chdir, p);
    ENTER
    int e = fault("chdir", p); if (e) { errno = e; return -1; }
    return syscall(SYS_chdir, p);
}
ssize_t write(int fd, const void *b, size_t n) {
    if (!active) return raw_write(fd, b, n);
    ENTER
    if (fd >= CTL) { errno = EBADF; return -1; }
    return raw_write(fd, b, n);
}
ssize_t getrandom(void *b, size_t n, unsigned fl) { /* deterministic hashing */
    static unsigned x = 12345;
    for (size_t i = 0; i < n; i++) { x = x * 1103515245 + 12345; ((unsigned char *)b)[i] = x >> 16; }
    return n;
}

/* The prompt: read of descriptor 0 in the root shell. */
ssize_t read(int fd, void *b, size_t n) {
    if (!active) return raw_read(fd, b, n);
    if (fd >= CTL) { errno = EBADF; return -1; }
    if (fd != 0 || role != ROOT || !controlled) {
        ENTER
        if (hr_) { errno = EINTR; return -1; }
        return raw_read(fd, b, n);
    }
    in_shim++;
    int ran = point();
    if (ran) { in_shim--; errno = EINTR; return -1; }
    if (linebuf && lineoff < linelen) {
        size_t k = linelen - lineoff; if (k > n) k = n;
        memcpy(b, linebuf + lineoff, k); lineoff += k; in_shim--;
        return k;
    }
    if (line_eof) { in_shim--; return 0; }
    if (!ask) settle(0);
    for (int i = 0; i < nch; i++) if (ch[i].state != GONE) real_reap(&ch[i]);
    if ((vpend & ~vmask) && (deliver_pending(), interrupted)) { in_shim--; errno = EINTR; return -1; }
    nplan = 0; mpoints = 0; ask = 0;
    for (;;) {
        /* forget collected children */
        send_report('R', 0);
        char *m; size_t l; int c = ctl_recv(&m, &l);
        int k = 0; for (int i = 0; i < nch; i++) if (ch[i].state != GONE) ch[k++] = ch[i];
        nch = k;
        if (c == 'L') {
            begin_line(m, l);
            size_t q = linelen > n ? n : linelen;
            memcpy(b, linebuf, q); lineoff = q; in_shim--;
            return q;
        }
        if (c == 'Z') { line_eof = 1; in_shim--; return 0; }
        if (c == 'E') {
            handlers_run = 0;
            parse_event(m);
            if ((vpend & ~vmask) && (deliver_pending(), interrupted)) { in_shim--; errno = EINTR; return -1; }
            continue;
        }
        die("bad command at the prompt");
    }
}

/* ---------------------------------------------------------------- exec --- */
static int standin(const char *path, char *const argv[], char *const envp[]) {
    int e = fault("exec", path); if (e) { errno = e; return -1; }
    struct stat sb;
    if (stat(path, &sb) < 0) return -1;
    if (!S_ISREG(sb.st_mode) || access(path, X_OK) < 0) { errno = EACCES; return -1; }
    char magic[4] = ""; int mf = syscall(SYS_openat, AT_FDCWD, path, O_RDONLY | O_CLOEXEC);
    if (mf >= 0) { long n = syscall(SYS_read, mf, magic, 4); syscall(SYS_close, mf); if (n < 2 || (memcmp(magic, "\177ELF", 4) && memcmp(magic, "#!", 2))) { errno = ENOEXEC; return -1; } }
    for (int fd = 0; fd < 256; fd++) { int f = syscall(SYS_fcntl, fd, F_GETFD); if (f >= 0 && (f & FD_CLOEXEC)) syscall(SYS_close, fd); }
    struct rec r; rec_begin(&r, rb, sizeof rb, 'X');
    rec_cstr(&r, self_path); rec_u32(&r, self_vpid); rec_u32(&r, role == ROOT);
    rec_cstr(&r, path); rec_vec(&r, (char **)argv); rec_vec(&r, (char **)envp);
    char cwd[4096]; if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) cwd[0] = 0;
    rec_cstr(&r, cwd);
    rec_fds(&r, 256, -1);
    rec_u32(&r, (unsigned)vmask << 1);
    unsigned ign = 0; for (int s = 1; s < 32; s++) if (disp[s].h == SIG_IGN) ign |= 1u << s;
    rec_u32(&r, ign); rec_u32(&r, self_pgid);
    rec_end(&r, LOG);
    if (role == ROOT || npoints_on) log_simple('N', points, 0, "");
    active = 0; /* from here on this is the program, not the shell */
    int argc = 0; while (argv && argv[argc]) argc++;
    const char *base = strrchr(path, '/'); base = base ? base + 1 : path;
    if (!(ign & (1u << SIGPIPE))) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = SIG_DFL; real_sigaction(SIGPIPE, &sa, 0); }
    int st = vp_main(base, argc, (char **)argv);
    active = 1; log_simple('Q', self_vpid, st & 0xffff, ""); active = 0;
    int sig = 0;
    if (st & VP_CTRL) { if (role == ROOT) _exit(0); sig = MARK_SIG; }
    else if (st & VP_SIGNALED) sig = st & 255;
    if (sig) {
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = SIG_DFL; real_sigaction(sig, &sa, 0);
        syscall(SYS_kill, syscall(SYS_getpid), sig);
        for (;;) syscall(SYS_pause);
    }
    syscall(SYS_exit_group, st);
    return -1;
}
int execve(const char *path, char *const argv[], char *const envp[]) {
    if (!active) return syscall(SYS_execve, path, argv, envp);
    ENTER
    return standin(path, argv, envp);
}
int execv(const char *path, char *const argv[]) { return execve(path, argv, environ); }
int execvpe(const char *file, char *const argv[], char *const envp[]) {
    if (strchr(file, '/')) return execve(file, argv, envp);
    const char *p = getenv("PATH"); if (!p) p = "/bin:/usr/bin";
    int err = ENOENT;
    while (*p) {
        const char *q = strchrnul(p, ':'); char t[4096];
        snprintf(t, sizeof t, "%.*s/%s", (int)(q - p), p, file);
        execve(t, argv, envp); if (errno != ENOENT) err = errno;
        p = *q ? q + 1 : q;
    }
    errno = err; return -1;
}
int execvp(const char *file, char *const argv[]) { return execvpe(file, argv, environ); }
