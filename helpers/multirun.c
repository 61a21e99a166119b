// Runs one fixed command many times, each time with another standard input.
// usage: multirun SECONDS argv...
// stdin:  records (u32 length, bytes);  stdout: records (i32 wait status, u32 len, stdout, u32 len, stderr)
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>

static void put(int fd) {
	static char buf[8192];
	ssize_t n = pread(fd, buf, sizeof buf, 0);
	uint32_t len = n < 0 ? 0 : n;
	fwrite(&len, 4, 1, stdout);
	fwrite(buf, 1, len, stdout);
}

int main(int argc, char **argv) {
	int secs = atoi(argv[1]);
	static char data[1 << 22];
	uint32_t len;
	struct rlimit core = {0, 0};
	setrlimit(RLIMIT_CORE, &core);
	while (fread(&len, 4, 1, stdin) == 1) {
		if (len > sizeof data || fread(data, 1, len, stdin) != len) return 1;
		int in = memfd_create("i", MFD_CLOEXEC), out = memfd_create("o", MFD_CLOEXEC), err = memfd_create("e", MFD_CLOEXEC);
		if (len && write(in, data, len) != (ssize_t)len) return 1;
		lseek(in, 0, SEEK_SET);
		fflush(stdout);
		pid_t pid = vfork();
		if (pid == 0) {
			dup2(in, 0); dup2(out, 1); dup2(err, 2);
			alarm(secs);
			execv(argv[2], argv + 2);
			_exit(126);
		}
		int status = -1;
		waitpid(pid, &status, 0);
		fwrite(&status, 4, 1, stdout);
		put(out); put(err);
		close(in); close(out); close(err);
	}
	return 0;
}
