/* LD_PRELOAD fault injector. FAULT=kind:index[+]:action makes the index-th (counting from 1; with +, every one from there on)
 * call of that kind in the process whose executable is $FAULT_EXE fail with errno <action>, or, for read and write, be
 * interrupted (action "short": transfer one byte only). Fired faults are noted in the file $FAULT_LOG; with kind "count", the
 * number of calls of each kind is written there at exit. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

enum { PIPE, DUP, OPEN, SPAWN, WAIT, READ, WRITE, THREAD, CHDIR, NKIND };
static const char *names[] = { "pipe", "dup", "open", "spawn", "wait", "read", "write", "thread", "chdir" };
static atomic_int count[NKIND];
static int active, kind = -1, at, onward, action, shortx, logfd = -1, counting;
static pid_t self;

__attribute__((constructor)) static void init(void)
{
	char exe[4096], *f = getenv("FAULT"), *e = getenv("FAULT_EXE"), *l = getenv("FAULT_LOG");
	ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
	if (n < 0 || !f || !e || !l)
		return;
	exe[n] = 0;
	if (strcmp(exe, e))
		return;
	char k[32] = "", a[32] = "", i[32] = "";
	sscanf(f, "%31[^:]:%31[^:]:%31s", k, i, a);
	for (int j = 0; j < NKIND; j++)
		if (!strcmp(k, names[j]))
			kind = j;
	counting = !strcmp(k, "count");
	at = atoi(i);
	onward = strchr(i, '+') != NULL;
	shortx = !strcmp(a, "short");
	action = atoi(a);
	logfd = syscall(SYS_open, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
	int hi = syscall(SYS_fcntl, logfd, F_DUPFD_CLOEXEC, 500);
	syscall(SYS_close, logfd);
	logfd = hi;
	self = getpid();
	active = 1;
}

__attribute__((destructor)) static void done(void)
{
	if (!active || !counting || getpid() != self)
		return;
	char b[512];
	int n = 0;
	for (int j = 0; j < NKIND; j++)
		n += sprintf(b + n, "%s=%d\n", names[j], count[j]);
	syscall(SYS_write, logfd, b, n);
}

/* Whether this call is to fail. */
static int hit(int k)
{
	if (!active || getpid() != self)
		return 0;
	int n = atomic_fetch_add(&count[k], 1) + 1;
	if (k != kind || !(n == at || onward && n > at))
		return 0;
	syscall(SYS_write, logfd, "fired\n", 6);
	return 1;
}

#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

int pipe2(int fds[2], int flags)
{
	REAL(pipe2);
	if (hit(PIPE)) { errno = action; return -1; }
	return real(fds, flags);
}

int fcntl(int fd, int cmd, ...)
{
	va_list ap;
	va_start(ap, cmd);
	void *arg = va_arg(ap, void *);
	va_end(ap);
	if ((cmd == F_DUPFD_CLOEXEC || cmd == F_DUPFD) && hit(DUP)) { errno = action; return -1; }
	return syscall(SYS_fcntl, fd, cmd, arg);
}

int dup(int fd)
{
	REAL(dup);
	if (hit(DUP)) { errno = action; return -1; }
	return real(fd);
}

int open64(const char *path, int flags, ...)
{
	va_list ap;
	va_start(ap, flags);
	int mode = va_arg(ap, int);
	va_end(ap);
	if (!strncmp(path, "/proc/", 6) || !strncmp(path, "/sys/", 5))
		return syscall(SYS_open, path, flags, mode);
	if (hit(OPEN)) { errno = action; return -1; }
	return syscall(SYS_open, path, flags, mode);
}

int posix_spawnp(pid_t *pid, const char *file, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at_, char *const argv[], char *const envp[])
{
	REAL(posix_spawnp);
	if (hit(SPAWN))
		return action;
	return real(pid, file, fa, at_, argv, envp);
}

pid_t fork(void)
{
	REAL(fork);
	if (hit(SPAWN)) { errno = action; return -1; }
	return real();
}

pid_t waitpid(pid_t pid, int *st, int opt)
{
	REAL(waitpid);
	if (hit(WAIT)) { errno = action; return -1; }
	return real(pid, st, opt);
}

ssize_t read(int fd, void *b, size_t n)
{
	if (hit(READ)) {
		if (!shortx) { errno = action; return -1; }
		n = n ? 1 : 0;
	}
	return syscall(SYS_read, fd, b, n);
}

ssize_t write(int fd, const void *b, size_t n)
{
	if (hit(WRITE)) {
		if (!shortx) { errno = action; return -1; }
		n = n ? 1 : 0;
	}
	return syscall(SYS_write, fd, b, n);
}

ssize_t writev(int fd, const struct iovec *v, int n)
{
	if (hit(WRITE)) {
		if (!shortx) { errno = action; return -1; }
		if (n && v[0].iov_len)
			return syscall(SYS_write, fd, v[0].iov_base, 1);
	}
	return syscall(SYS_writev, fd, v, n);
}

int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg)
{
	REAL(pthread_create);
	if (hit(THREAD))
		return action;
	return real(t, a, f, arg);
}

int chdir(const char *path)
{
	REAL(chdir);
	if (hit(CHDIR)) { errno = action; return -1; }
	return real(path);
}
