/* Runs several processes under a given schedule of their file system calls.
 * fsstep REFDIR ASSETDIR SOURCE "p:n p:* p:K p:E p:H ..." -- cmd... [-- cmd...]
 * Each process stops before every file system call that concerns ASSETDIR (or
 * writes a file). p:n lets process p do n of them, p:* all it can, p:K kills
 * it, p:E makes its next modifying call fail for lack of space, p:H makes its
 * next write a short one. What was started then runs to its end.
 * While a process compiles (from its first open of SOURCE until it forks or
 * ends) ASSETDIR has to hold everything in REFDIR, byte for byte.
 * Output: "use p ok|bad what", "steps p n", "exit p status".
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <dirent.h>
#include <time.h>
#include <sys/ptrace.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <linux/ptrace.h>

#define MAXP 8
enum { NEW, PENDING, RUNNING, DEAD };
struct proc {
	char **argv; pid_t pid; int state, using, steps, status, used, inject, mut; long nr;
} P[MAXP];
static int np;
static char *ref, *assets, *source;
static char why[1024];

static int same(const char *a, const char *b) {
	char x[65536], y[65536];
	int f = open(a, O_RDONLY), g = open(b, O_RDONLY), r = 0;
	if (g < 0) { snprintf(why, sizeof why, "missing %s", b); if (f >= 0) close(f); return 0; }
	for (;;) {
		int n = read(f, x, sizeof x), m = read(g, y, sizeof y);
		if (n != m || (n > 0 && memcmp(x, y, n))) { snprintf(why, sizeof why, "differs %s", b); break; }
		if (n <= 0) { r = 1; break; }
	}
	close(f); close(g);
	return r;
}
static int complete(const char *r, const char *a) {
	struct stat st;
	if (stat(r, &st)) return 1;
	if (S_ISDIR(st.st_mode)) {
		DIR *d = opendir(r); struct dirent *e; int ok = 1;
		while (ok && (e = readdir(d))) {
			char p[4096], q[4096];
			if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
			snprintf(p, sizeof p, "%s/%s", r, e->d_name);
			snprintf(q, sizeof q, "%s/%s", a, e->d_name);
			ok = complete(p, q);
		}
		closedir(d);
		return ok;
	}
	return same(r, a);
}
static void verify(void) {
	for (int i = 0; i < np; i++)
		if (P[i].using && !complete(ref, assets)) {
			printf("use %d bad %s\n", i, why);
			P[i].using = 0;
		}
}
static void rdstr(pid_t pid, unsigned long a, char *b, int n) {
	int i = 0;
	while (i < n - 1) {
		long w; errno = 0;
		w = ptrace(PTRACE_PEEKDATA, pid, a + i, 0);
		if (errno) break;
		for (int k = 0; k < 8 && i < n - 1; k++, i++) { b[i] = w >> (8 * k); if (!b[i]) return; }
	}
	b[i] = 0;
}
static void launch(int i) {
	pid_t p = fork();
	if (p == 0) {
		char f[64];
		snprintf(f, sizeof f, "out.%d", i);
		int o = open(f, O_WRONLY | O_CREAT | O_TRUNC, 0644);
		dup2(o, 1); dup2(o, 2); if (o > 2) close(o);
		o = open("/dev/null", O_RDONLY); dup2(o, 0); if (o > 2) close(o);
		ptrace(PTRACE_TRACEME, 0, 0, 0);
		raise(SIGSTOP);
		execv(P[i].argv[0], P[i].argv);
		_exit(126);
	}
	int st;
	waitpid(p, &st, __WALL);
	ptrace(PTRACE_SETOPTIONS, p, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_TRACEEXEC | PTRACE_O_EXITKILL);
	P[i].pid = p; P[i].state = RUNNING;
	ptrace(PTRACE_SYSCALL, p, 0, 0);
}
static int prefixed(const char *s) { return !strncmp(s, assets, strlen(assets)); }
/* is this system call (entered) one we schedule? sets mut */
static int counted(int i, struct __ptrace_syscall_info *s) {
	char path[1024] = "";
	unsigned long *a = (unsigned long*)s->entry.args;
	struct proc *p = &P[i];
	p->mut = 0; p->nr = s->entry.nr;
	switch (s->entry.nr) {
	case SYS_openat: rdstr(p->pid, a[1], path, sizeof path); p->mut = (a[2] & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR)) != 0; break;
	case SYS_open: rdstr(p->pid, a[0], path, sizeof path); p->mut = (a[1] & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR)) != 0; break;
	case SYS_creat: p->mut = 1; rdstr(p->pid, a[0], path, sizeof path); break;
	case SYS_write: case SYS_writev: case SYS_pwrite64: p->mut = a[0] > 2; return a[0] > 2;
	case SYS_mkdir: case SYS_rename: case SYS_symlink: case SYS_link: case SYS_unlink: case SYS_rmdir: case SYS_mkdirat: case SYS_renameat: case SYS_renameat2:
	case SYS_unlinkat: case SYS_symlinkat: case SYS_linkat: case SYS_ftruncate: case SYS_fsync: case SYS_copy_file_range: case SYS_sendfile:
		p->mut = 1; return 1;
	case SYS_flock: return 1;
	case SYS_access: case SYS_stat: case SYS_lstat: case SYS_readlink: rdstr(p->pid, a[0], path, sizeof path); break;
	case SYS_faccessat: case SYS_newfstatat: case SYS_faccessat2: rdstr(p->pid, a[1], path, sizeof path); break;
	case SYS_clone: case SYS_fork: case SYS_vfork: case SYS_clone3:
		if (p->using) { printf("use %d ok\n", i); p->using = 0; }
		return 0;
	default: return 0;
	}
	const char *b = strrchr(path, '/'); b = b ? b + 1 : path;
	if (!p->used && !strcmp(b, source) && (s->entry.nr == SYS_openat || s->entry.nr == SYS_open)) {
		p->used = 1; p->using = 1; verify();
	}
	if (p->mut && prefixed(path)) return 1;
	p->mut = 0;
	return prefixed(path);
}
/* handle a stop of process i; returns 1 when it is now pending */
static int stopped(int i, int st) {
	struct proc *p = &P[i];
	if (WIFEXITED(st) || WIFSIGNALED(st)) {
		if (p->using) { printf("use %d ok\n", i); p->using = 0; }
		p->state = DEAD; p->status = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
		return 0;
	}
	int sig = WSTOPSIG(st), deliver = 0;
	if (sig == (SIGTRAP | 0x80)) {
		struct __ptrace_syscall_info s;
		memset(&s, 0, sizeof s);
		ptrace(PTRACE_GET_SYSCALL_INFO, p->pid, sizeof s, &s);
		if (s.op == PTRACE_SYSCALL_INFO_ENTRY) {
			if (counted(i, &s)) { p->state = PENDING; return 1; }
		} else if (s.op == PTRACE_SYSCALL_INFO_EXIT) {
			if (p->inject == 'E') {
				struct user_regs_struct r;
				ptrace(PTRACE_GETREGS, p->pid, 0, &r);
				r.rax = -ENOSPC;
				ptrace(PTRACE_SETREGS, p->pid, 0, &r);
				p->inject = 0;
			}
			if (p->mut) { p->mut = 0; verify(); }
		}
	} else if (sig != SIGTRAP && sig != SIGSTOP) deliver = sig;
	ptrace(PTRACE_SYSCALL, p->pid, 0, deliver);
	return 0;
}
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static int sleeping(pid_t p) {
	char f[64], b[512]; int n, fd;
	snprintf(f, sizeof f, "/proc/%d/stat", p);
	fd = open(f, O_RDONLY); if (fd < 0) return 0;
	n = read(fd, b, sizeof b - 1); close(fd); if (n <= 0) return 0; b[n] = 0;
	char *c = strrchr(b, ')');
	return c && (c[2] == 'S');
}
/* let process i run until it is pending or dead; gives up when it sleeps */
static void settle(int i, double limit) {
	double t0 = now(), asleep = 0;
	while (P[i].state == RUNNING) {
		int st, any = 0;
		for (int k = 0; k < np; k++)
			if (P[k].state == RUNNING && waitpid(P[k].pid, &st, WNOHANG | __WALL) == P[k].pid) { any = 1; stopped(k, st); }
		if (any) { asleep = 0; continue; }
		if (sleeping(P[i].pid)) {
			if (!asleep) asleep = now();
			if (now() - asleep > limit) return;
		} else asleep = 0;
		if (now() - t0 > 20) return;
		struct timespec ts = { 0, 20000 };
		nanosleep(&ts, 0);
	}
}
static void go(int i) { /* do the pending call */
	P[i].steps++;
	P[i].state = RUNNING;
	ptrace(PTRACE_SYSCALL, P[i].pid, 0, 0);
}
int main(int argc, char **argv) {
	ref = argv[1]; assets = argv[2]; source = argv[3];
	char *sched = strdup(argv[4]);
	int k = 5;
	setvbuf(stdout, 0, _IOLBF, 0);
	while (k < argc && np < MAXP) {
		P[np++].argv = &argv[++k];
		while (k < argc && strcmp(argv[k], "--")) k++;
		argv[k] = 0;
	}
	for (char *t = strtok(sched, " "); t; t = strtok(0, " ")) {
		int i = t[0] - '0';
		char *c = t + 2;
		if (i >= np) continue;
		if (P[i].state == NEW) { launch(i); settle(i, .015); }
		if (*c == 'K') {
			if (P[i].state != DEAD) { kill(P[i].pid, SIGKILL); P[i].state = RUNNING; P[i].using = 0; settle(i, 1); }
		} else if (*c == 'E' || *c == 'H') {
			while (P[i].state == PENDING && !(P[i].mut && (*c == 'E' || P[i].nr == SYS_write))) { go(i); settle(i, .015); }
			if (P[i].state == PENDING) {
				struct user_regs_struct r;
				ptrace(PTRACE_GETREGS, P[i].pid, 0, &r);
				if (*c == 'E') { r.orig_rax = -1; P[i].inject = 'E'; }
				else if (r.rdx > 1) r.rdx = r.rdx / 2;
				ptrace(PTRACE_SETREGS, P[i].pid, 0, &r);
				go(i); settle(i, .015);
			}
		} else {
			int n = *c == '*' ? 1 << 30 : atoi(c);
			while (n-- > 0 && P[i].state == PENDING) { go(i); settle(i, .015); }
		}
	}
	/* everything started ends by itself now */
	double t0 = now();
	for (;;) {
		int live = 0;
		for (int i = 0; i < np; i++) {
			if (P[i].state == NEW) { launch(i); settle(i, .015); }
			if (P[i].state == PENDING) { go(i); settle(i, .002); }
			else if (P[i].state == RUNNING) settle(i, .002);
			if (P[i].state != DEAD) live = 1;
		}
		if (!live) break;
		if (now() - t0 > 30) {
			for (int i = 0; i < np; i++) if (P[i].state != DEAD) { printf("hang %d\n", i); kill(P[i].pid, SIGKILL); }
			break;
		}
	}
	for (int i = 0; i < np; i++) printf("steps %d %d\nexit %d %d\n", i, P[i].steps, i, P[i].status);
	return 0;
}
