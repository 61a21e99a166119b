/* fds LOG TAG c|n|p [status]
 * Appends a line to LOG: in modes c and n the open descriptors of this process, in mode p those of the parent and the states of
 * the parent's other children (waiting up to 5 s for them to go away, and for the descriptors to settle at the number given).
 * Mode c copies standard input to standard output afterwards. */
#define _GNU_SOURCE
#include <dirent.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static char line[8192];
static int list(int pid, char *out, int *count)
{
	char path[64], link[512];
	int fds[256], n = 0, len = 0;
	snprintf(path, sizeof path, "/proc/%d/fd", pid);
	DIR *d = opendir(path);
	struct dirent *e;
	if (!d)
		return sprintf(out, " unreadable");
	while ((e = readdir(d)) && n < 256)
		if (e->d_name[0] != '.' && !(pid == getpid() && atoi(e->d_name) == dirfd(d)))
			fds[n++] = atoi(e->d_name);
	closedir(d);
	for (int i = 0; i < n; i++)
		for (int j = i + 1; j < n; j++)
			if (fds[j] < fds[i]) { int t = fds[i]; fds[i] = fds[j]; fds[j] = t; }
	for (int i = 0; i < n; i++) {
		char full[100];
		snprintf(full, sizeof full, "%s/%d", path, fds[i]);
		ssize_t k = readlink(full, link, sizeof link - 1);
		link[k > 0 ? k : 0] = 0;
		char *name = strrchr(link, '/');
		name = name ? name + 1 : link;
		if (!strncmp(link, "pipe:", 5))
			name = "pipe";
		len += sprintf(out + len, " %d=%s", fds[i], name);
	}
	*count = n;
	return len;
}
static int children(int pid, char *out)
{
	/* All processes whose parent is pid, except this one. */
	DIR *d = opendir("/proc");
	struct dirent *e;
	int len = 0;
	out[0] = 0;
	while ((e = readdir(d))) {
		int p = atoi(e->d_name), pp;
		char path[64], buf[512], state;
		if (p <= 0 || p == getpid())
			continue;
		snprintf(path, sizeof path, "/proc/%d/stat", p);
		FILE *f = fopen(path, "r");
		if (!f)
			continue;
		size_t k = fread(buf, 1, sizeof buf - 1, f);
		fclose(f);
		buf[k] = 0;
		char *r = strrchr(buf, ')');
		if (r && sscanf(r + 1, " %c %d", &state, &pp) == 2 && pp == pid)
			len += sprintf(out + len, " child:%c", state);
	}
	closedir(d);
	return len;
}
int main(int argc, char **argv)
{
	char a[4096], b[4096];
	int n = 0, want = argc > 4 ? atoi(argv[4]) : 0;
	if (argv[3][0] == 'p') {
		int pid = getppid();
		for (int i = 0; i < 1000; i++) {
			int l = list(pid, a, &n);
			a[l] = 0;
			children(pid, b);
			if (!b[0] && (!want || n == want))
				break;
			usleep(5000);
		}
	} else {
		a[list(getpid(), a, &n)] = 0;
		b[0] = 0;
	}
	int k = snprintf(line, sizeof line, "%s:%s%s\n", argv[2], a, b);
	int fd = open(argv[1], O_WRONLY | O_APPEND | O_CREAT, 0644);
	if (fd < 0 || write(fd, line, k) != k)
		return 99;
	close(fd);
	if (argv[3][0] == 'c') {
		ssize_t r;
		while ((r = read(0, a, sizeof a)) > 0)
			if (write(1, a, r) != r)
				return 98;
	}
	return argv[3][0] != 'p' && argc > 4 ? atoi(argv[4]) : 0;
}
