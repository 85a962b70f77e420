/*
 * mcx - controlled execution of real, unmodified processes.
 *
 * Runs one or more programs under ptrace+seccomp and takes control of every
 * file-system-visible operation they make: which process goes next (a
 * schedule), which operation fails and how (a fault), and after which
 * operation the process dies (a crash, with torn writes).  Time, sleeping,
 * process ids and process liveness are virtual, so one job description
 * always gives the same execution; kill() never reaches a real process.
 *
 * One invocation executes one behaviour; the enumeration is done by the
 * caller (lib/fg/explore.py).
 *
 * Job file (lines):
 *   root PATH          only operations on files below PATH are visible
 *   ignore SUBSTR      ... except paths containing SUBSTR (log files)
 *   time EPOCH         initial virtual time
 *   vpid N ALIVE       foreign pid N is alive (1), alive and another user's (2)
 *                    or dead (0); default dead
 *   maxsteps N
 *   proc VPID          starts a process description, followed by
 *   arg STRING ...     argv
 *   env K=V            (applies to all processes)
 *   cwd PATH
 *   stdin PATH
 *   choices 0 1 1 0 .. schedule prefix: process index per step
 *   fault PROC N KIND ARG
 *        at the N-th visible op of process PROC:
 *        kill            die before it
 *        torn K          (write) K bytes reach the file, then die
 *        errno E         it fails with errno E (not executed)
 *        short K         (write) only K bytes are written, success
 *        shorterr K E    first K bytes are written, the next op of the same
 *                        kind on the file fails with E
 *        stick E         this and every later write/open-for-create fails E
 *
 * Output (stdout), one line per step:
 *   S step proc enabledmask opindex name ret arg path [path2]
 *   X proc exit-status|signal
 *   T final virtual time
 *   D                   deadlock / maxsteps exceeded
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <stddef.h>
#include <time.h>
#include <limits.h>
#include <sys/ptrace.h>
#include <sys/wait.h>
#include <sys/user.h>
#include <sys/syscall.h>
#include <sys/prctl.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <linux/seccomp.h>
#include <linux/filter.h>
#include <linux/audit.h>
#include <elf.h>

#define MAXP 8
#define MAXT 64
#define MAXARG 64

enum { T_FREE, T_RUN, T_ATOP, T_DEAD };

struct fault { int proc; long n; char kind[16]; long a, b; int used; };

struct proc {
    int vpid;
    char *argv[MAXARG];
    int argc;
    char *cwd;
    char *in;
    char *out;
    long nop;
    int done, status, killed;
    unsigned sleeping;          /* set of procs that must run first */
    int blocked;                /* waits for a lock */
    pid_t leader;
};

struct task {
    int state;
    pid_t pid;
    int proc;
    int fresh;                  /* waiting for the initial SIGSTOP */
    /* pending op */
    struct user_regs_struct r;
    char name[24];
    char p1[PATH_MAX], p2[PATH_MAX];
    long arg;
};

static struct proc P[MAXP];
static int np;
static struct task T[MAXT];
static char *envs[256];
static int nenv;
static char root[PATH_MAX];
static char *ignores[16];
static int nign;
static long vtime = 1000000000L;
static long maxsteps = 20000;
static int choices[100000];
static long nchoices;
static struct fault F[16];
static int nf;
static struct { int pid, alive; } V[16];
static int nv;
static long step;
static long stick_errno[MAXP];

static void die(const char *m)
{
    int i;
    fprintf(stderr, "mcx: %s: %s\n", m, strerror(errno));
    for (i = 0; i < MAXT; i++)
        if (T[i].state == T_RUN || T[i].state == T_ATOP)
            kill(T[i].pid, SIGKILL);
    exit(3);
}

static struct task *find(pid_t pid)
{
    int i;
    for (i = 0; i < MAXT; i++)
        if (T[i].state != T_FREE && T[i].state != T_DEAD && T[i].pid == pid)
            return &T[i];
    return NULL;
}

static struct task *newtask(pid_t pid, int proc)
{
    int i;
    for (i = 0; i < MAXT; i++)
        if (T[i].state == T_FREE || T[i].state == T_DEAD) {
            memset(&T[i], 0, sizeof T[i]);
            T[i].state = T_RUN;
            T[i].pid = pid;
            T[i].proc = proc;
            return &T[i];
        }
    die("too many tasks");
    return NULL;
}

static void getstr(pid_t pid, unsigned long addr, char *buf, size_t n)
{
    size_t got = 0;
    buf[0] = 0;
    while (got < n - 1) {
        size_t chunk = 4096 - ((addr + got) & 4095);
        struct iovec l, rm;
        ssize_t k;
        if (chunk > n - 1 - got)
            chunk = n - 1 - got;
        l.iov_base = buf + got;
        l.iov_len = chunk;
        rm.iov_base = (void *)(addr + got);
        rm.iov_len = chunk;
        k = process_vm_readv(pid, &l, 1, &rm, 1, 0);
        if (k <= 0)
            break;
        if (memchr(buf + got, 0, k))
            return;
        got += k;
    }
    buf[got] = 0;
}

static void putmem(pid_t pid, unsigned long addr, const void *b, size_t n)
{
    struct iovec l, rm;
    l.iov_base = (void *)b;
    l.iov_len = n;
    rm.iov_base = (void *)addr;
    rm.iov_len = n;
    process_vm_writev(pid, &l, 1, &rm, 1, 0);
}

static void getmem(pid_t pid, unsigned long addr, void *b, size_t n)
{
    struct iovec l, rm;
    l.iov_base = b;
    l.iov_len = n;
    rm.iov_base = (void *)addr;
    rm.iov_len = n;
    process_vm_readv(pid, &l, 1, &rm, 1, 0);
}

static void normpath(char *p)
{
    char out[PATH_MAX], *s = p, *o = out;
    while (*s) {
        if (s[0] == '/' && s[1] == '/') {
            s++;
            continue;
        }
        if (s[0] == '/' && s[1] == '.' && (s[2] == '/' || !s[2])) {
            s += 2;
            continue;
        }
        *o++ = *s++;
    }
    *o = 0;
    strcpy(p, out);
}

static void abspath(pid_t pid, int dirfd, char *p)
{
    char l[64], d[PATH_MAX];
    ssize_t k;
    if (p[0] != '/') {
        if (dirfd == AT_FDCWD)
            sprintf(l, "/proc/%d/cwd", pid);
        else
            sprintf(l, "/proc/%d/fd/%d", pid, dirfd);
        k = readlink(l, d, sizeof d - 1);
        if (k < 0)
            k = 0;
        d[k] = 0;
        if (p[0]) {
            strncat(d, "/", sizeof d - strlen(d) - 1);
            strncat(d, p, sizeof d - strlen(d) - 1);
        }
        strcpy(p, d);
    }
    normpath(p);
}

static void fdpath(pid_t pid, int fd, char *p)
{
    char l[64];
    ssize_t k;
    sprintf(l, "/proc/%d/fd/%d", pid, fd);
    k = readlink(l, p, PATH_MAX - 1);
    if (k < 0)
        k = 0;
    p[k] = 0;
}

static int visible(const char *p)
{
    int i;
    size_t n = strlen(root);
    if (strncmp(p, root, n))
        return 0;
    for (i = 0; i < nign; i++)
        if (strstr(p, ignores[i]))
            return 0;
    return 1;
}

static void setret(struct task *t, long v)
{
    t->r.orig_rax = (unsigned long)-1;
    t->r.rax = v;
    if (ptrace(PTRACE_SETREGS, t->pid, 0, &t->r) < 0 && errno != ESRCH)
        die("setregs");
}

static void cont(struct task *t, int sig)
{
    t->state = T_RUN;
    if (ptrace(PTRACE_CONT, t->pid, 0, sig) < 0 && errno != ESRCH)
        die("cont");
}

static int vpid_alive(int pid)
{
    int i;
    for (i = 0; i < np; i++)
        if (P[i].vpid == pid)
            return !P[i].done && P[i].leader;
    for (i = 0; i < nv; i++)
        if (V[i].pid == pid)
            return V[i].alive;
    return 0;
}

/* Is the syscall the task stopped at a visible op?  Handles virtual ones. */
static int classify(struct task *t)
{
    struct user_regs_struct *r = &t->r;
    long nr;
    if (ptrace(PTRACE_GETREGS, t->pid, 0, r) < 0)
        return 0;
    nr = r->orig_rax;
    t->p1[0] = t->p2[0] = 0;
    t->arg = 0;
#define NAME(s) strcpy(t->name, s)
    switch (nr) {
    case SYS_getpid:
        if (t->pid == P[t->proc].leader) {
            setret(t, P[t->proc].vpid);
            return 0;
        }
        return 0;
    case SYS_kill:
        {
            long pid = (int)r->rdi;
            long v;
            if (pid == 0)
                v = 0;
            else if (pid < 0)
                v = -EPERM;
            else
                v = vpid_alive(pid) == 2 ? -EPERM : vpid_alive(pid) ? 0 : -ESRCH;
            NAME("kill");
            t->arg = pid;
            setret(t, v);
            /* the liveness test is a visible op: the answer must be computed
               when it is scheduled, so remember it and recompute there */
            return 2;
        }
    case SYS_tkill:
    case SYS_tgkill:
        return 0;
    case SYS_time:
        if (r->rdi)
            putmem(t->pid, r->rdi, &vtime, sizeof vtime);
        setret(t, vtime);
        return 0;
    case SYS_gettimeofday:
        {
            struct timeval tv;
            tv.tv_sec = vtime;
            tv.tv_usec = 0;
            if (r->rdi)
                putmem(t->pid, r->rdi, &tv, sizeof tv);
            if (r->rsi) {
                struct timezone tz = { 0, 0 };
                putmem(t->pid, r->rsi, &tz, sizeof tz);
            }
            setret(t, 0);
            return 0;
        }
    case SYS_clock_gettime:
        {
            struct timespec ts;
            ts.tv_sec = vtime;
            ts.tv_nsec = 0;
            putmem(t->pid, r->rsi, &ts, sizeof ts);
            setret(t, 0);
            return 0;
        }
    case SYS_nanosleep:
    case SYS_clock_nanosleep:
        {
            struct timespec ts;
            getmem(t->pid, nr == SYS_nanosleep ? r->rdi : r->rdx, &ts,
                   sizeof ts);
            NAME("sleep");
            t->arg = ts.tv_sec;
            setret(t, 0);
            return 2;
        }
    case SYS_open:
        NAME("open");
        getstr(t->pid, r->rdi, t->p1, sizeof t->p1);
        abspath(t->pid, AT_FDCWD, t->p1);
        t->arg = r->rsi;
        break;
    case SYS_creat:
        NAME("open");
        getstr(t->pid, r->rdi, t->p1, sizeof t->p1);
        abspath(t->pid, AT_FDCWD, t->p1);
        t->arg = O_CREAT | O_WRONLY | O_TRUNC;
        break;
    case SYS_openat:
        NAME("open");
        getstr(t->pid, r->rsi, t->p1, sizeof t->p1);
        abspath(t->pid, (int)r->rdi, t->p1);
        t->arg = r->rdx;
        break;
    case SYS_stat:
    case SYS_lstat:
        NAME("stat");
        getstr(t->pid, r->rdi, t->p1, sizeof t->p1);
        abspath(t->pid, AT_FDCWD, t->p1);
        break;
    case SYS_newfstatat:
        NAME("stat");
        getstr(t->pid, r->rsi, t->p1, sizeof t->p1);
        if (!t->p1[0])
            return 0;           /* fstat */
        abspath(t->pid, (int)r->rdi, t->p1);
        break;
    case SYS_access:
        NAME("access");
        getstr(t->pid, r->rdi, t->p1, sizeof t->p1);
        abspath(t->pid, AT_FDCWD, t->p1);
        break;
    case SYS_faccessat:
    case SYS_faccessat2:
        NAME("access");
        getstr(t->pid, r->rsi, t->p1, sizeof t->p1);
        abspath(t->pid, (int)r->rdi, t->p1);
        break;
    case SYS_read:
        NAME("read");
        fdpath(t->pid, (int)r->rdi, t->p1);
        t->arg = r->rdx;
        break;
    case SYS_write:
        NAME("write");
        fdpath(t->pid, (int)r->rdi, t->p1);
        t->arg = r->rdx;
        break;
    case SYS_writev:
    case SYS_pwrite64:
        NAME("pwrite");
        fdpath(t->pid, (int)r->rdi, t->p1);
        t->arg = nr == SYS_pwrite64 ? r->rdx : 0;
        break;
    case SYS_close:
        NAME("close");
        fdpath(t->pid, (int)r->rdi, t->p1);
        break;
    case SYS_fsync:
    case SYS_fdatasync:
        NAME("fsync");
        fdpath(t->pid, (int)r->rdi, t->p1);
        break;
    case SYS_ftruncate:
        NAME("ftruncate");
        fdpath(t->pid, (int)r->rdi, t->p1);
        t->arg = r->rsi;
        break;
    case SYS_fchmod:
        NAME("chmod");
        fdpath(t->pid, (int)r->rdi, t->p1);
        break;
    case SYS_getdents64:
        NAME("getdents");
        fdpath(t->pid, (int)r->rdi, t->p1);
        break;
    case SYS_flock:
        NAME("flock");
        fdpath(t->pid, (int)r->rdi, t->p1);
        break;
    case SYS_fcntl:
        if (r->rsi != F_SETLK && r->rsi != F_SETLKW)
            return 0;
        {
            struct flock fl;
            getmem(t->pid, r->rdx, &fl, sizeof fl);
            t->arg = fl.l_type;
        }
        NAME(t->arg == F_UNLCK ? "unlock" : "lock");
        fdpath(t->pid, (int)r->rdi, t->p1);
        break;
#define ONEPATH(S,N) case S: NAME(N); \
        getstr(t->pid, r->rdi, t->p1, sizeof t->p1); \
        abspath(t->pid, AT_FDCWD, t->p1); break
    ONEPATH(SYS_unlink, "unlink");
    ONEPATH(SYS_rmdir, "rmdir");
    ONEPATH(SYS_mkdir, "mkdir");
    ONEPATH(SYS_chmod, "chmod");
    ONEPATH(SYS_truncate, "truncate");
    ONEPATH(SYS_utime, "utime");
    ONEPATH(SYS_utimes, "utime");
#define ONEPATHAT(S,N) case S: NAME(N); \
        getstr(t->pid, r->rsi, t->p1, sizeof t->p1); \
        abspath(t->pid, (int)r->rdi, t->p1); break
    ONEPATHAT(SYS_unlinkat, "unlink");
    ONEPATHAT(SYS_mkdirat, "mkdir");
    ONEPATHAT(SYS_fchmodat, "chmod");
    ONEPATHAT(SYS_utimensat, "utime");
    case SYS_rename:
    case SYS_link:
    case SYS_symlink:
        NAME(nr == SYS_rename ? "rename" : nr == SYS_link ? "link"
             : "symlink");
        getstr(t->pid, r->rdi, t->p1, sizeof t->p1);
        getstr(t->pid, r->rsi, t->p2, sizeof t->p2);
        if (nr != SYS_symlink)
            abspath(t->pid, AT_FDCWD, t->p1);
        abspath(t->pid, AT_FDCWD, t->p2);
        if (nr == SYS_symlink)
            return visible(t->p2);
        return visible(t->p1) || visible(t->p2);
    case SYS_renameat:
    case SYS_renameat2:
    case SYS_linkat:
        NAME(nr == SYS_linkat ? "link" : "rename");
        getstr(t->pid, r->rsi, t->p1, sizeof t->p1);
        getstr(t->pid, r->r10, t->p2, sizeof t->p2);
        abspath(t->pid, (int)r->rdi, t->p1);
        abspath(t->pid, (int)r->rdx, t->p2);
        return visible(t->p1) || visible(t->p2);
    default:
        return 0;
    }
    return visible(t->p1);
}

static void proc_finished(int p, int status)
{
    int i;
    P[p].done = 1;
    P[p].status = status;
    for (i = 0; i < np; i++)
        P[i].blocked = 0;
}

static void zap_vdso(pid_t pid)
{
    struct user_regs_struct r;
    unsigned long sp, w;
    Elf64_auxv_t a;
    if (ptrace(PTRACE_GETREGS, pid, 0, &r) < 0)
        return;
    sp = r.rsp;
    getmem(pid, sp, &w, 8);
    sp += 8 * (w + 2);
    do {
        getmem(pid, sp, &w, 8);
        sp += 8;
    } while (w);
    for (;;) {
        memset(&a, 0, sizeof a);
        getmem(pid, sp, &a, sizeof a);
        if (a.a_type == AT_NULL)
            break;
        if (a.a_type == AT_SYSINFO_EHDR) {
            a.a_type = AT_IGNORE;
            putmem(pid, sp, &a, sizeof a);
        }
        sp += sizeof a;
    }
}

#define OPTS (PTRACE_O_TRACESECCOMP | PTRACE_O_TRACEFORK | \
              PTRACE_O_TRACEVFORK | PTRACE_O_TRACECLONE | \
              PTRACE_O_TRACEEXEC | PTRACE_O_EXITKILL | PTRACE_O_TRACESYSGOOD)

/* pending stops of tasks we do not know yet (child before fork event) */
static pid_t early[16];
static int nearly;

static void runnable(struct task *t)
{
    int k = classify(t);
    if (k) {
        t->state = T_ATOP;
        if (k == 2 && !strcmp(t->name, "kill")) ;
    } else
        cont(t, 0);
}

/* wait for one event */
static void event(void)
{
    int st;
    pid_t pid = waitpid(-1, &st, __WALL);
    struct task *t;
    if (pid < 0)
        die("waitpid");
    t = find(pid);
    if (WIFEXITED(st) || WIFSIGNALED(st)) {
        if (!t)
            return;
        t->state = T_DEAD;
        if (pid == P[t->proc].leader)
            proc_finished(t->proc, st);
        return;
    }
    if (!WIFSTOPPED(st))
        return;
    if (!t) {
        if (nearly < 16)
            early[nearly++] = pid;
        return;
    }
    if (t->fresh && WSTOPSIG(st) == SIGSTOP) {
        t->fresh = 0;
        ptrace(PTRACE_SETOPTIONS, pid, 0, OPTS);
        cont(t, 0);
        return;
    }
    if (WSTOPSIG(st) == SIGTRAP) {
        int ev = st >> 16;
        switch (ev) {
        case PTRACE_EVENT_SECCOMP:
            runnable(t);
            return;
        case PTRACE_EVENT_FORK:
        case PTRACE_EVENT_VFORK:
        case PTRACE_EVENT_CLONE:
            {
                unsigned long c = 0;
                struct task *n;
                int i;
                ptrace(PTRACE_GETEVENTMSG, pid, 0, &c);
                n = newtask((pid_t) c, t->proc);
                n->fresh = 1;
                for (i = 0; i < nearly; i++)
                    if (early[i] == (pid_t) c) {
                        early[i] = early[--nearly];
                        n->fresh = 0;
                        cont(n, 0);
                        break;
                    }
                cont(t, 0);
                return;
            }
        case PTRACE_EVENT_EXEC:
            zap_vdso(pid);
            cont(t, 0);
            return;
        case 0:
            cont(t, SIGTRAP);
            return;
        default:
            cont(t, 0);
            return;
        }
    }
    cont(t, WSTOPSIG(st));
}

static int anyrunning(void)
{
    int i;
    for (i = 0; i < MAXT; i++)
        if (T[i].state == T_RUN)
            return 1;
    return 0;
}

/* A parent blocked in wait4() for its child counts as running for us;
   settle until every proc either has a task at an op or is finished. */
static int settled(void)
{
    int p, i;
    for (p = 0; p < np; p++) {
        int at = 0;
        if (P[p].done || !P[p].leader)
            continue;
        for (i = 0; i < MAXT; i++)
            if (T[i].proc == p && T[i].state == T_ATOP)
                at = 1;
        if (!at)
            return 0;
    }
    return 1;
}

static void settle(void)
{
    while (!settled() && anyrunning())
        event();
}

static struct task *pending(int p)
{
    int i;
    for (i = 0; i < MAXT; i++)
        if (T[i].proc == p && T[i].state == T_ATOP)
            return &T[i];
    return NULL;
}

static void killproc(int p)
{
    int i;
    P[p].killed = 1;
    for (i = 0; i < MAXT; i++)
        if (T[i].proc == p && (T[i].state == T_RUN || T[i].state == T_ATOP)) {
            kill(T[i].pid, SIGKILL);
            T[i].state = T_RUN;
        }
    while (!P[p].done)
        event();
    /* reap the rest */
    for (i = 0; i < MAXT; i++)
        while (T[i].proc == p && T[i].state == T_RUN)
            event();
}

static void emit(struct task *t, unsigned mask, long n, long ret)
{
    printf("S %ld %d %u %ld %s %ld %ld %s %s\n", step, t->proc, mask, n,
           t->name, ret, t->arg, t->p1[0] ? t->p1 : "-",
           t->p2[0] ? t->p2 : "-");
}

static int is_create(struct task *t)
{
    return (!strcmp(t->name, "open") && (t->arg & (O_CREAT | O_TRUNC)))
        || !strcmp(t->name, "write") || !strcmp(t->name, "pwrite")
        || !strcmp(t->name, "mkdir") || !strcmp(t->name, "link")
        || !strcmp(t->name, "symlink");
}

/* execute the pending op of task t; returns ret */
static void doop(struct task *t, unsigned mask)
{
    int p = t->proc, i, st;
    long n = P[p].nop++;
    long ret;
    struct user_regs_struct r;
    struct fault *f = NULL;
    long torn = -1;
    int setlkw = 0;

    if (!strcmp(t->name, "kill")) {
        long v = t->arg == 0 ? 0 : t->arg < 0 ? -EPERM
            : vpid_alive(t->arg) == 2 ? -EPERM : vpid_alive(t->arg) ? 0 : -ESRCH;
        setret(t, v);
        emit(t, mask, n, v);
        cont(t, 0);
        return;
    }
    if (!strcmp(t->name, "sleep")) {
        vtime += t->arg > 0 ? t->arg : 1;
        emit(t, mask, n, 0);
        /* fair scheduling: everybody who could run now goes first */
        P[p].sleeping = 0;
        for (i = 0; i < np; i++)
            if (i != p && !P[i].done && !P[i].blocked)
                P[p].sleeping |= 1u << i;
        if (!P[p].sleeping)
            P[p].sleeping = 1u << p;
        cont(t, 0);
        return;
    }
    for (i = 0; i < nf; i++)
        if (F[i].proc == p && F[i].n == n && !F[i].used) {
            f = &F[i];
            f->used = 1;
        }
    if (!f && stick_errno[p] && is_create(t)) {
        setret(t, -stick_errno[p]);
        emit(t, mask, n, -stick_errno[p]);
        cont(t, 0);
        return;
    }
    if (f) {
        if (!strcmp(f->kind, "kill")) {
            emit(t, mask, n, -9999);
            killproc(p);
            return;
        }
        if (!strcmp(f->kind, "stick"))
            stick_errno[p] = f->a;
        if (!strcmp(f->kind, "errno") || !strcmp(f->kind, "stick")) {
            if (!strcmp(t->name, "close")) {
                /* a failing close still releases the descriptor */
                struct user_regs_struct rr;
                ptrace(PTRACE_SYSCALL, t->pid, 0, 0);
                while (waitpid(t->pid, &st, __WALL) > 0
                       && !(WIFSTOPPED(st) && WSTOPSIG(st) == (SIGTRAP | 0x80))) {
                    if (!WIFSTOPPED(st)) die("close fault");
                    ptrace(PTRACE_SYSCALL, t->pid, 0, 0);
                }
                ptrace(PTRACE_GETREGS, t->pid, 0, &rr);
                rr.rax = -f->a;
                ptrace(PTRACE_SETREGS, t->pid, 0, &rr);
                emit(t, mask, n, -f->a);
                for (i = 0; i < np; i++)
                    P[i].blocked = 0;
                cont(t, 0);
                return;
            }
            setret(t, -f->a);
            emit(t, mask, n, -f->a);
            cont(t, 0);
            return;
        }
        if (!strcmp(f->kind, "torn") || !strcmp(f->kind, "short")
            || !strcmp(f->kind, "shorterr")) {
            if (!strcmp(t->name, "write") && f->a < t->arg) {
                t->r.rdx = f->a;
                ptrace(PTRACE_SETREGS, t->pid, 0, &t->r);
                if (!strcmp(f->kind, "torn"))
                    torn = f->a;
                if (!strcmp(f->kind, "shorterr"))
                    stick_errno[p] = f->b;
            }
        }
    }
    if (!strcmp(t->name, "lock") && t->r.rsi == F_SETLKW) {
        setlkw = 1;
        t->r.rsi = F_SETLK;
        ptrace(PTRACE_SETREGS, t->pid, 0, &t->r);
    }
    /* run the syscall to its exit */
    ptrace(PTRACE_SYSCALL, t->pid, 0, 0);
    for (;;) {
        if (waitpid(t->pid, &st, __WALL) < 0)
            die("waitpid op");
        if (WIFEXITED(st) || WIFSIGNALED(st)) {
            t->state = T_DEAD;
            if (t->pid == P[p].leader)
                proc_finished(p, st);
            return;
        }
        if (WIFSTOPPED(st) && WSTOPSIG(st) == (SIGTRAP | 0x80))
            break;
        /* a signal: redeliver */
        ptrace(PTRACE_SYSCALL, t->pid, 0,
               WSTOPSIG(st) == SIGTRAP ? 0 : WSTOPSIG(st));
    }
    ptrace(PTRACE_GETREGS, t->pid, 0, &r);
    ret = (long)r.rax;
    if (setlkw && (ret == -EAGAIN || ret == -EACCES)) {
        /* would block: rewind and wait for a lock to be released */
        P[p].nop--;
        P[p].blocked = 1;
        r.rsi = F_SETLKW;
        r.rax = SYS_fcntl;
        r.rip -= 2;
        ptrace(PTRACE_SETREGS, t->pid, 0, &r);
        emit(t, mask, n, -EAGAIN);
        cont(t, 0);
        return;
    }
    if (!strcmp(t->name, "unlock") || !strcmp(t->name, "close"))
        for (i = 0; i < np; i++)
            P[i].blocked = 0;
    emit(t, mask, n, ret);
    if (torn >= 0) {
        killproc(p);
        return;
    }
    cont(t, 0);
}

static void install_filter(void)
{
    static const int nrs[] = {
        SYS_getpid, SYS_kill, SYS_time, SYS_gettimeofday, SYS_clock_gettime,
        SYS_nanosleep, SYS_clock_nanosleep, SYS_open, SYS_creat, SYS_openat,
        SYS_stat, SYS_lstat, SYS_newfstatat, SYS_access, SYS_faccessat,
        SYS_faccessat2, SYS_read, SYS_write, SYS_writev, SYS_pwrite64,
        SYS_close, SYS_fsync, SYS_fdatasync, SYS_ftruncate, SYS_fchmod,
        SYS_getdents64, SYS_flock, SYS_fcntl, SYS_unlink, SYS_rmdir,
        SYS_mkdir, SYS_chmod, SYS_truncate, SYS_utime, SYS_utimes,
        SYS_unlinkat, SYS_mkdirat, SYS_fchmodat, SYS_utimensat, SYS_rename,
        SYS_link, SYS_symlink, SYS_renameat, SYS_renameat2, SYS_linkat,
    };
    int k = sizeof nrs / sizeof nrs[0], i;
    struct sock_filter f[128];
    struct sock_fprog prog;
    int n = 0;
    f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS,
                                          offsetof(struct seccomp_data, nr));
    for (i = 0; i < k; i++)
        f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K,
                                              nrs[i], k - i, 0);
    f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRACE);
    prog.len = n;
    prog.filter = f;
    prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0);
    if (prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog) < 0) {
        perror("seccomp");
        _exit(125);
    }
}

static void start(int p)
{
    pid_t pid = fork();
    int st;
    if (pid < 0)
        die("fork");
    if (pid == 0) {
        int fd;
        personality(ADDR_NO_RANDOMIZE);
        if (P[p].cwd && chdir(P[p].cwd) < 0)
            _exit(124);
        fd = open(P[p].in ? P[p].in : "/dev/null", O_RDONLY);
        dup2(fd, 0);
        close(fd);
        fd = open(P[p].out ? P[p].out : "/dev/null",
                  O_WRONLY | O_CREAT | O_TRUNC, 0666);
        dup2(fd, 1);
        if (!getenv("MCX_STDERR"))
            dup2(fd, 2);
        close(fd);
        ptrace(PTRACE_TRACEME, 0, 0, 0);
        raise(SIGSTOP);
        install_filter();
        execve(P[p].argv[0], P[p].argv, envs);
        _exit(126);
    }
    waitpid(pid, &st, __WALL);
    P[p].leader = pid;
    newtask(pid, p);
    ptrace(PTRACE_SETOPTIONS, pid, 0, OPTS);
    ptrace(PTRACE_CONT, pid, 0, 0);
}

int main(int argc, char **argv)
{
    static char line[1 << 20];
    FILE *fp = argc > 1 ? fopen(argv[1], "r") : stdin;
    struct proc *cp = NULL;
    int last = -1, p, i;
    long ci = 0;
    int dead = 0;

    if (!fp)
        die("job");
    while (fgets(line, sizeof line, fp)) {
        char *s = line, *v;
        s[strcspn(s, "\n")] = 0;
        v = strchr(s, ' ');
        if (v)
            *v++ = 0;
        else
            v = s + strlen(s);
        if (!strcmp(s, "root"))
            strcpy(root, v);
        else if (!strcmp(s, "ignore"))
            ignores[nign++] = strdup(v);
        else if (!strcmp(s, "time"))
            vtime = atol(v);
        else if (!strcmp(s, "maxsteps"))
            maxsteps = atol(v);
        else if (!strcmp(s, "vpid")) {
            sscanf(v, "%d %d", &V[nv].pid, &V[nv].alive);
            nv++;
        } else if (!strcmp(s, "env"))
            envs[nenv++] = strdup(v);
        else if (!strcmp(s, "proc")) {
            cp = &P[np++];
            cp->vpid = atoi(v);
        } else if (!strcmp(s, "arg"))
            cp->argv[cp->argc++] = strdup(v);
        else if (!strcmp(s, "cwd"))
            cp->cwd = strdup(v);
        else if (!strcmp(s, "stdin"))
            cp->in = strdup(v);
        else if (!strcmp(s, "stdout"))
            cp->out = strdup(v);
        else if (!strcmp(s, "choices")) {
            char *q = strtok(v, " ");
            while (q) {
                choices[nchoices++] = atoi(q);
                q = strtok(NULL, " ");
            }
        } else if (!strcmp(s, "fault")) {
            struct fault *f = &F[nf++];
            sscanf(v, "%d %ld %15s %ld %ld", &f->proc, &f->n, f->kind, &f->a,
                   &f->b);
        }
    }
    signal(SIGPIPE, SIG_IGN);
    for (p = 0; p < np; p++)
        start(p);
    settle();
    for (;;) {
        unsigned mask = 0, awake = 0;
        struct task *t;
        int alive = 0, c;
        for (p = 0; p < np; p++) {
            if (P[p].done)
                continue;
            alive = 1;
            if (!pending(p) || P[p].blocked)
                continue;
            mask |= 1u << p;
            if (!P[p].sleeping)
                awake |= 1u << p;
        }
        if (!alive)
            break;
        if (!mask || step >= maxsteps) {
            dead = 1;
            break;
        }
        if (awake)
            mask = awake;
        else
            for (p = 0; p < np; p++)
                P[p].sleeping = 0;
        if (ci < nchoices) {
            c = choices[ci++];
            if (!(mask & (1u << c))) {
                printf("N %ld %d %u\n", step, c, mask);
                dead = 2;
                break;
            }
        } else if (last >= 0 && (mask & (1u << last)))
            c = last;
        else {
            for (c = 0; !(mask & (1u << c)); c++) ;
        }
        t = pending(c);
        doop(t, mask);
        /* someone made a step: others may stop yielding */
        for (p = 0; p < np; p++) {
            if (p != c)
                P[p].sleeping &= ~(1u << c);
            for (i = 0; i < np; i++)
                if (i != p && (P[i].done || P[i].blocked))
                    P[p].sleeping &= ~(1u << i);
        }
        last = c;
        step++;
        settle();
    }
    for (p = 0; p < np; p++)
        if (!P[p].done) {
            killproc(p);
            P[p].status = -1;
        }
    for (i = 0; i < np; i++) {
        int st = P[i].status;
        if (P[i].killed && st != -1)
            printf("X %d killed\n", i);
        else if (st == -1)
            printf("X %d stuck\n", i);
        else if (WIFEXITED(st))
            printf("X %d %d\n", i, WEXITSTATUS(st));
        else
            printf("X %d sig%d\n", i, WTERMSIG(st));
    }
    printf("T %ld\n", vtime);
    if (dead)
        printf("D %d\n", dead);
    return 0;
}
