/* Real executable form of the virtual programs, for conformance replays.
 * Appends an EXEC record to <dir of the program>/../log if that exists. */
#include "vprog.h"
#include <sys/resource.h>
#include <sys/prctl.h>
#include <sys/auxv.h>
static void on_usr(int s) { _exit(s == SIGUSR1 ? 0 : 3); }
extern char **environ;
static char rb[1 << 20];
int main(int argc, char **argv) {
    /* the name it was started by, which may be a link */
    char exe[4096 + 256], dir[4096]; const char *fn = (const char *)getauxval(AT_EXECFN);
    if (!fn) return 99;
    const char *sl = strrchr(fn, '/'); char d[4096]; snprintf(d, sizeof d, "%.*s", sl ? (int)(sl - fn + 1) : 2, sl ? fn : "./");
    if (!realpath(d, dir)) return 99;
    snprintf(exe, sizeof exe, "%s/%s", dir, sl ? sl + 1 : fn);
    char *base = strrchr(exe, '/') + 1;
    struct rec r; rec_begin(&r, rb, sizeof rb, 'X');
    rec_cstr(&r, "0"); rec_u32(&r, getpid()); rec_u32(&r, 0);
    rec_cstr(&r, exe); rec_vec(&r, argv); rec_vec(&r, environ);
    char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) cwd[0] = 0;
    rec_cstr(&r, cwd);
    rec_fds(&r, 256, -1);
    sigset_t m; sigprocmask(SIG_SETMASK, 0, &m);
    unsigned lo = 0; for (int s = 1; s < 32; s++) if (sigismember(&m, s)) lo |= 1u << s;
    rec_u32(&r, lo);
    unsigned ign = 0;
    for (int s = 1; s < 32; s++) { struct sigaction sa; if (!sigaction(s, 0, &sa) && sa.sa_handler == SIG_IGN) ign |= 1u << s; }
    rec_u32(&r, ign); rec_u32(&r, getpgid(0));
    int fd = -1;
    for (int up = 1; up < 5 && fd < 0; up++) {
        char lp[4500]; int k = snprintf(lp, sizeof lp, "%.*s", (int)(base - 1 - exe), exe);
        for (int i = 0; i < up; i++) k += snprintf(lp + k, sizeof lp - k, "/..");
        snprintf(lp + k, sizeof lp - k, "/log");
        fd = open(lp, O_WRONLY | O_APPEND);
    }
    if (fd >= 0) { rec_end(&r, fd); close(fd); }
    int st = vp_main(base, argc, argv);
    if (st & VP_SIGNALED) { struct rlimit z = {0, 0}; setrlimit(RLIMIT_CORE, &z); signal(st & 255, SIG_DFL); kill(getpid(), st & 255); pause(); }
    if (st & VP_CTRL) {
        if (!getenv("MCJOB")) return 0;
        /* driven by real signals */
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (getppid() == 1) return 0;
        alarm(60);
        signal(SIGUSR1, on_usr); signal(SIGUSR2, on_usr);
        for (;;) pause();
    }
    return st;
}
