/* step TAG HOW: appends TAG to the file log (one write), then exits with status HOW, or dies of signal -HOW. */
#include <fcntl.h>
#include <signal.h>
#include <stdlib.h>
#include <stdio.h>
#include <sys/resource.h>
#include <unistd.h>

int main(int argc, char **argv)
{
	struct rlimit none = { 0, 0 };
	int fd = open("log", O_WRONLY | O_CREAT | O_APPEND, 0644), how = argc > 2 ? atoi(argv[2]) : 0;
	char b[256];
	int n = snprintf(b, sizeof b, "%s\n", argc > 1 ? argv[1] : "?");
	if (fd < 0 || write(fd, b, n) != n)
		return 99;
	close(fd);
	setrlimit(RLIMIT_CORE, &none);
	if (how < 0) {
		signal(-how, SIG_DFL);
		kill(getpid(), -how);
		pause();
	}
	return how;
}
