/* psched: runs programs one file-system operation at a time.
 *
 *   psched ROOT EXCLUDE SCHEDULE MAXSTEPS LOG -- prog arg .. [--- prog arg ..]
 *
 * Every program is stopped before each system call that touches a file below
 * ROOT (other than those below one of the colon-separated EXCLUDE prefixes),
 * before kill() and before sleeping.  The schedule decides which one goes on:
 * a comma-separated list of
 *   N        program N executes its pending operation
 *   kN       program N is killed before its pending operation
 *   hN       program N's pending write stores only half, then it is killed
 *   fN:E     program N's pending operation fails with errno E
 *   sN:S     signal S is sent to program N, which then executes its operation
 * After its end (or when an entry names a program that cannot run) the last
 * program goes on as long as it can, then whoever has waited longest.  Waiting for a
 * file lock and sleeping do not take time: such a program can run again once
 * another one has done something (a sleeper also when nobody else can).
 * LOG gets one JSON object per step.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/personality.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

#define MAXP 8
enum { RUN, PEND, GONE };
struct proc {
    pid_t pid;
    int st;                     /* PEND: stopped before an operation */
    int wait;                   /* blocked (1) or asleep (2) until another one acts */
    int rc;
    int ran;                    /* when it last did something */
    struct user_regs_struct r;  /* at the pending operation */
    char op[16], path[600], path2[600];
    long arg;
} P[MAXP];
static int np, last = -1;
static char *root, *excl, *log_name;
static size_t rootlen;
static FILE *lg;

static void die(const char *s) { perror(s); for (int i = 0; i < np; i++) if (P[i].st != GONE && P[i].pid > 0) kill(P[i].pid, SIGKILL); exit(70); }

static void rdstr(pid_t pid, unsigned long a, char *b, size_t n)
{
    size_t k = 0;
    while (k + 1 < n) {
        size_t l = 4096 - ((a + k) & 4095);
        if (l > n - 1 - k) l = n - 1 - k;
        struct iovec lo = { b + k, l }, re = { (void *)(a + k), l };
        ssize_t r = process_vm_readv(pid, &lo, 1, &re, 1, 0);
        if (r <= 0) {
            long w; errno = 0;
            w = ptrace(PTRACE_PEEKDATA, pid, a + k, 0);
            if (errno) break;
            r = l < 8 ? l : 8;
            memcpy(b + k, &w, r);
        }
        if (memchr(b + k, 0, r)) return;
        k += r;
    }
    b[k] = 0;
}

static int rel(char *p)
{
    /* p: absolute path; make it relative to the root if below it */
    char *q;
    if (strncmp(p, root, rootlen) || (p[rootlen] != '/' && p[rootlen])) return 0;
    q = p + rootlen;
    while (*q == '/') q++;
    memmove(p, q, strlen(q) + 1);
    /* squeeze // and drop a trailing one */
    for (q = p; *q;) if (q[0] == '/' && q[1] == '/') memmove(q, q + 1, strlen(q)); else q++;
    size_t n = strlen(p);
    if (n && p[n-1] == '/') p[n-1] = 0;
    for (char *e = excl; *e;) {
        size_t l = strcspn(e, ":");
        if (l && !strncmp(p, e, l) && (!p[l] || p[l] == '/')) return 0;
        e += l + (e[l] == ':');
    }
    return 1;
}

static int fdpath(pid_t pid, int fd, char *b, size_t n)
{
    char l[64];
    ssize_t k;
    snprintf(l, sizeof l, "/proc/%d/fd/%d", pid, fd);
    k = readlink(l, b, n - 1);
    if (k < 0) return 0;
    b[k] = 0;
    char *d = strstr(b, " (deleted)");
    if (d) *d = 0;
    return *b == '/' && rel(b);
}

static int atpath(pid_t pid, int dfd, unsigned long a, char *b, size_t n)
{
    char s[600], l[64], d[600];
    ssize_t k;
    rdstr(pid, a, s, sizeof s);
    if (*s == '/')
        snprintf(b, n, "%s", s);
    else {
        if (dfd == AT_FDCWD) snprintf(l, sizeof l, "/proc/%d/cwd", pid);
        else snprintf(l, sizeof l, "/proc/%d/fd/%d", pid, dfd);
        k = readlink(l, d, sizeof d - 1);
        if (k < 0) return 0;
        d[k] = 0;
        snprintf(b, n, "%s/%.*s", d, (int)(n - strlen(d) - 2), s);
    }
    return rel(b);
}

static void put(const char *s)
{
    fputc('"', lg);
    for (; *s; s++) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') fprintf(lg, "\\%c", c);
        else if (c < 32 || c > 126) fprintf(lg, "\\u%04x", c);
        else fputc(c, lg);
    }
    fputc('"', lg);
}

/* is this an operation to stop at? fills in op, path */
static int interesting(struct proc *p)
{
    struct user_regs_struct *r = &p->r;
    pid_t pid = p->pid;
    int a = 0, b = 1;
    p->path[0] = p->path2[0] = 0; p->arg = 0;
#define OP(x) snprintf(p->op, sizeof p->op, "%s", x)
#define AT(d, x) atpath(pid, d, x, p->path, sizeof p->path)
#define FD(x) fdpath(pid, x, p->path, sizeof p->path)
    switch (r->orig_rax) {
    case SYS_open: OP("open"); p->arg = r->rsi; return AT(AT_FDCWD, r->rdi);
    case SYS_creat: OP("open"); p->arg = O_CREAT|O_WRONLY|O_TRUNC; return AT(AT_FDCWD, r->rdi);
    case SYS_openat: OP("open"); p->arg = r->rdx; return AT((int)r->rdi, r->rsi);
    case SYS_unlink: OP("unlink"); return AT(AT_FDCWD, r->rdi);
    case SYS_unlinkat: OP("unlink"); return AT((int)r->rdi, r->rsi);
    case SYS_mkdir: OP("mkdir"); return AT(AT_FDCWD, r->rdi);
    case SYS_mkdirat: OP("mkdir"); return AT((int)r->rdi, r->rsi);
    case SYS_rmdir: OP("rmdir"); return AT(AT_FDCWD, r->rdi);
    case SYS_rename: OP("rename"); a = AT(AT_FDCWD, r->rdi);
        b = atpath(pid, AT_FDCWD, r->rsi, p->path2, sizeof p->path2); return a || b;
    case SYS_link: OP("link"); a = AT(AT_FDCWD, r->rdi);
        b = atpath(pid, AT_FDCWD, r->rsi, p->path2, sizeof p->path2); return a || b;
    case SYS_symlink: OP("symlink"); return atpath(pid, AT_FDCWD, r->rsi, p->path, sizeof p->path);
    case SYS_renameat: case SYS_renameat2: case SYS_linkat:
        OP(r->orig_rax == SYS_linkat ? "link" : "rename"); a = AT((int)r->rdi, r->rsi);
        b = atpath(pid, (int)r->rdx, r->r10, p->path2, sizeof p->path2); return a || b;
    case SYS_truncate: OP("truncate"); p->arg = r->rsi; return AT(AT_FDCWD, r->rdi);
    case SYS_stat: case SYS_lstat: case SYS_access: OP("stat"); return AT(AT_FDCWD, r->rdi);
    case SYS_newfstatat:
        OP("stat");
        { char c[2]; rdstr(pid, r->rsi, c, 2); if (!*c) return 0; }
        return AT((int)r->rdi, r->rsi);
    case SYS_faccessat: case SYS_faccessat2: case SYS_statx: OP("stat"); return AT((int)r->rdi, r->rsi);
    case SYS_chmod: OP("chmod"); return AT(AT_FDCWD, r->rdi);
    case SYS_utimensat: OP("utime"); return r->rsi && AT((int)r->rdi, r->rsi);
    case SYS_utime: case SYS_utimes: OP("utime"); return AT(AT_FDCWD, r->rdi);
    case SYS_write: case SYS_pwrite64: OP("write"); p->arg = r->rdx; return FD((int)r->rdi);
    case SYS_writev: OP("write"); p->arg = -1; return FD((int)r->rdi);
    case SYS_read: case SYS_pread64: OP("read"); p->arg = r->rdx; return FD((int)r->rdi);
    case SYS_ftruncate: OP("truncate"); p->arg = r->rsi; return FD((int)r->rdi);
    case SYS_fsync: case SYS_fdatasync: OP("fsync"); return FD((int)r->rdi);
    case SYS_close: OP("close"); return FD((int)r->rdi);
    case SYS_getdents64: OP("readdir"); return FD((int)r->rdi);
    case SYS_fcntl:
        if (r->rsi == F_SETLK || r->rsi == F_SETLKW || r->rsi == 37 || r->rsi == 38) {
            struct flock fl;
            struct iovec lo = { &fl, sizeof fl }, re = { (void *)r->rdx, sizeof fl };
            fl.l_type = F_WRLCK;
            process_vm_readv(pid, &lo, 1, &re, 1, 0);
            p->arg = fl.l_type;
            OP(fl.l_type == F_UNLCK ? "unlock" : "lock");
            return FD((int)r->rdi);
        }
        return 0;
    case SYS_flock:
        p->arg = r->rsi; OP((r->rsi & LOCK_UN) ? "unlock" : "lock"); return FD((int)r->rdi);
    case SYS_kill:
        OP("kill"); p->arg = -1;
        for (int i = 0; i < np; i++) if (P[i].pid == (pid_t)r->rdi) p->arg = i;
        snprintf(p->path, sizeof p->path, "%ld", p->arg >= 0 ? p->arg : (long)(pid_t)r->rdi);
        return 1;
    case SYS_nanosleep: case SYS_clock_nanosleep: case SYS_pause: OP("sleep"); return 1;
    }
    return 0;
}

static void gone(struct proc *p, int s)
{
    p->st = GONE;
    p->rc = WIFEXITED(s) ? WEXITSTATUS(s) : -WTERMSIG(s);
    fprintf(lg, "{\"p\":%d,\"op\":\"exit\",\"ret\":%d}\n", (int)(p - P), p->rc);
}

/* output of the program itself: markers of the drivers */
static void mark(struct proc *p)
{
    char b[200];
    long n = p->r.rdx < sizeof b - 1 ? p->r.rdx : sizeof b - 1;
    struct iovec lo = { b, n }, re = { (void *)p->r.rsi, n };
    if (process_vm_readv(p->pid, &lo, 1, &re, 1, 0) != n) return;
    b[n] = 0;
    if (n && b[n-1] == '\n') b[n-1] = 0;
    fprintf(lg, "{\"p\":%d,\"op\":\"mark\",\"path\":", (int)(p - P)); put(b); fprintf(lg, "}\n");
}

/* let it run to its next operation; it is stopped anywhere else */
static void advance(struct proc *p, int sig)
{
    int s;
    for (;;) {
        if (ptrace(PTRACE_SYSCALL, p->pid, 0, sig) == -1 && errno != ESRCH) die("ptrace");
        sig = 0;
        if (waitpid(p->pid, &s, __WALL) == -1) die("waitpid");
        if (WIFEXITED(s) || WIFSIGNALED(s)) { gone(p, s); return; }
        if (WSTOPSIG(s) == (SIGTRAP | 0x80)) {
            struct __ptrace_syscall_info si;
            if (ptrace(PTRACE_GET_SYSCALL_INFO, p->pid, sizeof si, &si) == -1) die("syscall info");
            if (si.op != PTRACE_SYSCALL_INFO_ENTRY) continue;
            if (ptrace(PTRACE_GETREGS, p->pid, 0, &p->r) == -1) die("regs");
            if (interesting(p)) { p->st = PEND; return; }
            if (p->r.orig_rax == SYS_write && p->r.rdi == 1) mark(p);
        } else if (WSTOPSIG(s) != SIGTRAP && WSTOPSIG(s) != SIGSTOP)
            sig = WSTOPSIG(s);
        else if (s >> 16 == 0 && WSTOPSIG(s) == SIGTRAP)
            sig = 0;
    }
}

static void reap(struct proc *p)
{
    int s;
    p->r.orig_rax = -1;
    ptrace(PTRACE_SETREGS, p->pid, 0, &p->r);
    kill(p->pid, SIGKILL);
    do if (waitpid(p->pid, &s, __WALL) == -1) die("waitpid");
    while (!WIFEXITED(s) && !WIFSIGNALED(s));
    gone(p, s);
}

/* execute the pending operation */
static void step(struct proc *p, int half, int err, int sig)
{
    struct user_regs_struct *r = &p->r;
    int s, setlk = 0;
    long ret;
    struct __ptrace_syscall_info si;
    unsigned long nr = r->orig_rax;

    p->wait = 0;
    if (err || !strcmp(p->op, "sleep")) r->orig_rax = -1;
    else if (half) {
        if (nr == SYS_write || nr == SYS_pwrite64) r->rdx /= 2;
        else r->orig_rax = -1;
    } else if (nr == SYS_fcntl && (r->rsi == F_SETLKW || r->rsi == 38)) { setlk = r->rsi; r->rsi--; }
    else if (nr == SYS_flock && !(r->rsi & (LOCK_UN | LOCK_NB))) { setlk = r->rsi; r->rsi |= LOCK_NB; }
    if (ptrace(PTRACE_SETREGS, p->pid, 0, r) == -1) die("setregs");
    if (sig) kill(p->pid, sig);
    int pend = 0;
    for (;;) {
        if (ptrace(PTRACE_SYSCALL, p->pid, 0, 0) == -1) die("ptrace");
        if (waitpid(p->pid, &s, __WALL) == -1) die("waitpid");
        if (WIFEXITED(s) || WIFSIGNALED(s)) { gone(p, s); return; }
        if (WSTOPSIG(s) == (SIGTRAP | 0x80)) break;
        pend = WSTOPSIG(s);     /* cannot happen inside the call */
    }
    if (ptrace(PTRACE_GET_SYSCALL_INFO, p->pid, sizeof si, &si) == -1) die("syscall info");
    if (ptrace(PTRACE_GETREGS, p->pid, 0, r) == -1) die("regs");
    if (err) { r->rax = -err; ptrace(PTRACE_SETREGS, p->pid, 0, r); }
    if (!strcmp(p->op, "sleep")) { r->rax = 0; ptrace(PTRACE_SETREGS, p->pid, 0, r); p->wait = 2; }
    ret = r->rax;
    if (setlk) {
        r->rsi = setlk;
        if (ret == -EAGAIN || ret == -EACCES) {
            /* once more, when others have moved */
            r->rip -= 2;
            r->rax = nr;
            p->wait = 1;
        }
        ptrace(PTRACE_SETREGS, p->pid, 0, r);
    }
    fprintf(lg, "{\"p\":%d,\"op\":\"%s\",\"path\":", (int)(p - P), p->op); put(p->path);
    if (*p->path2) { fprintf(lg, ",\"to\":"); put(p->path2); }
    fprintf(lg, ",\"arg\":%ld,\"ret\":%ld%s%s}\n", p->arg, ret, p->wait == 1 ? ",\"blocked\":true" : "", err ? ",\"fault\":true" : "");
    if (half) { reap(p); return; }
    advance(p, pend);
}

int main(int argc, char **argv)
{
    int i, k, max, steps = 0;
    char *sch;
    if (argc < 8) { fprintf(stderr, "usage: psched ROOT EXCL SCHED MAX LOG -- prog ...\n"); return 64; }
    root = argv[1]; rootlen = strlen(root); excl = argv[2]; sch = argv[3]; max = atoi(argv[4]); log_name = argv[5];
    if (!(lg = fopen(log_name, "we"))) die(log_name);
    for (i = 7; i < argc; i = k + 1) {
        for (k = i; k < argc && strcmp(argv[k], "---"); k++);
        argv[k < argc ? k : argc] = NULL;
        struct proc *p = &P[np++];
        fflush(lg);
        if (!(p->pid = fork())) {
            char id[8];
            snprintf(id, sizeof id, "%d", np - 1);
            setenv("PSCHED_ID", id, 1);
            ptrace(PTRACE_TRACEME, 0, 0, 0);
            raise(SIGSTOP);
            execv(argv[i], argv + i);
            _exit(71);
        }
        int s;
        if (p->pid < 0 || waitpid(p->pid, &s, 0) == -1 || !WIFSTOPPED(s)) die("fork");
        if (ptrace(PTRACE_SETOPTIONS, p->pid, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL | PTRACE_O_TRACEEXEC) == -1) die("options");
        p->st = RUN;
    }
    for (i = 0; i < np; i++) advance(&P[i], 0);
    while (1) {
        int en[MAXP], n = 0, c = -1, what = 0, val = 0;
        for (i = 0; i < np; i++) if (P[i].st == PEND && !P[i].wait) en[n++] = i;
        if (!n) {
            /* sleepers wake up when nobody else can move */
            for (i = 0; i < np; i++) if (P[i].st == PEND && P[i].wait == 2) { P[i].wait = 0; en[n++] = i; }
            if (!n) break;
        }
        if (steps++ >= max) { fprintf(lg, "{\"op\":\"limit\"}\n"); break; }
        while (*sch == ',') sch++;
        if (*sch) {
            if (strchr("khfs", *sch)) what = *sch++;
            c = strtol(sch, &sch, 10);
            if (*sch == ':') val = strtol(sch + 1, &sch, 10);
            if (c < 0 || c >= np || P[c].st != PEND) c = -1;
            else if (what != 'k') { for (i = 0; i < n && en[i] != c; i++); if (i == n) c = -1; }
            if (c < 0) what = 0;
        }
        if (c < 0) {
            for (i = 0; i < n && en[i] != last; i++);
            c = i < n ? last : en[0];
            /* in turn, or two who only wait would go on for ever */
            if (i == n) for (i = 1; i < n; i++) if (P[en[i]].ran < P[c].ran) c = en[i];
        }
        fprintf(lg, "{\"op\":\"choice\",\"en\":[");
        for (i = 0; i < n; i++) {
            struct proc *p = &P[en[i]];
            fprintf(lg, "%s{\"p\":%d,\"op\":\"%s\",\"path\":", i ? "," : "", en[i], p->op); put(p->path);
            if (*p->path2) { fprintf(lg, ",\"to\":"); put(p->path2); }
            fprintf(lg, ",\"arg\":%ld}", p->arg);
        }
        fprintf(lg, "],\"p\":%d}\n", c);
        if (what == 'k') { fprintf(lg, "{\"p\":%d,\"op\":\"crash\"}\n", c); reap(&P[c]); }
        else step(&P[c], what == 'h', what == 'f' ? val : 0, what == 's' ? val : 0);
        if (P[c].wait != 1)
            for (i = 0; i < np; i++) if (i != c && P[i].wait) P[i].wait = 0;
        last = c;
        P[c].ran = steps;
    }
    for (i = 0; i < np; i++) if (P[i].st == PEND) { fprintf(lg, "{\"p\":%d,\"op\":\"stuck\"}\n", i); reap(&P[i]); }
    fclose(lg);
    return 0;
}
