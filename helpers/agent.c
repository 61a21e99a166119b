/* agent NAME [ARGS]: a puppet process. It connects to the unix socket $AGENT_SOCK, says "NAME pid ppid", and then obeys one
 * command per line, answering each with one line:
 *   w FD N C   write N bytes C, one write(2) per 64 KiB    -> w <written> | w! <errno>
 *   t FD HEX   write the bytes HEX                         -> w <written> | w! <errno>
 *   r N        one read(2) of up to N bytes from stdin     -> r <hex> | r! <errno>
 *   R          read stdin to its end                       -> R <bytes> <checksum>
 *   c FD       close                                       -> c
 *   e NAME     environment variable                        -> e <hex> | e-
 *   d          working directory                           -> d <hex>
 *   f          open descriptors, without the socket        -> f 0=target 1=target ...
 *   v          arguments                                   -> v <hex>,<hex>...
 *   s          ignored and blocked signals                 -> s <SigBlk> <SigIgn>
 *   x S / k S  exit with status S / die of signal S (no answer) */
#include <dirent.h>
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>

static int sock;

static void say(const char *s)
{
	size_t n = strlen(s);
	if (write(sock, s, n) != (ssize_t)n)
		_exit(98);
}

static void hex(char *out, const unsigned char *p, size_t n)
{
	for (size_t i = 0; i < n; i++)
		sprintf(out + 2 * i, "%02x", p[i]);
	out[2 * n] = 0;
}

int main(int argc, char **argv)
{
	struct sockaddr_un a = { .sun_family = AF_UNIX };
	struct rlimit none = { 0, 0 };
	static char line[1 << 18], out[1 << 19], buf[1 << 16];
	setrlimit(RLIMIT_CORE, &none);
	sock = socket(AF_UNIX, SOCK_STREAM, 0);
	/* Keep clear of the standard descriptors even if some are closed. */
	if (sock < 200) {
		dup2(sock, 200);
		close(sock);
		sock = 200;
	}
	strncpy(a.sun_path, getenv("AGENT_SOCK") ? getenv("AGENT_SOCK") : "", sizeof a.sun_path - 1);
	if (connect(sock, (struct sockaddr *)&a, sizeof a))
		return 97;
	sprintf(out, "%s %d %d\n", argc > 1 ? argv[1] : "?", getpid(), getppid());
	say(out);
	size_t have = 0;
	for (;;) {
		char *nl;
		while (!(nl = memchr(line, '\n', have))) {
			ssize_t k = read(sock, line + have, sizeof line - have);
			if (k <= 0)
				return 96;
			have += k;
		}
		*nl = 0;
		int fd;
		long n;
		char c;
		strcpy(out, "?");
		if (sscanf(line, "w %d %ld %c", &fd, &n, &c) == 3) {
			long done = 0;
			memset(buf, c, sizeof buf);
			while (done < n) {
				ssize_t k = write(fd, buf, n - done > (long)sizeof buf ? (long)sizeof buf : n - done);
				if (k < 0)
					break;
				done += k;
			}
			sprintf(out, done < n ? "w! %d" : "w %ld", done < n ? (long)errno : done);
		} else if (sscanf(line, "t %d %n", &fd, (int *)&n) == 1) {
			char *h = line + (int)n;
			size_t l = strlen(h) / 2;
			for (size_t i = 0; i < l; i++) {
				unsigned x;
				sscanf(h + 2 * i, "%2x", &x);
				buf[i] = x;
			}
			ssize_t k = write(fd, buf, l);
			sprintf(out, k < 0 ? "w! %ld" : "w %ld", k < 0 ? (long)errno : (long)k);
		} else if (sscanf(line, "r %ld", &n) == 1) {
			ssize_t k = read(0, buf, n);
			if (k < 0)
				sprintf(out, "r! %d", errno);
			else {
				strcpy(out, "r ");
				hex(out + 2, (unsigned char *)buf, k);
			}
		} else if (line[0] == 'R') {
			unsigned long sum = 0;
			long total = 0;
			ssize_t k;
			while ((k = read(0, buf, sizeof buf)) > 0) {
				total += k;
				for (ssize_t i = 0; i < k; i++)
					sum = (sum * 31 + (unsigned char)buf[i]) % 1000003;
			}
			sprintf(out, "R %ld %lu", k < 0 ? -1L : total, sum);
		} else if (sscanf(line, "c %d", &fd) == 1) {
			close(fd);
			strcpy(out, "c");
		} else if (line[0] == 'e') {
			char *v = getenv(line + 2);
			strcpy(out, v ? "e " : "e-");
			if (v)
				hex(out + 2, (unsigned char *)v, strlen(v));
		} else if (line[0] == 'd') {
			strcpy(out, "d ");
			if (getcwd(buf, sizeof buf))
				hex(out + 2, (unsigned char *)buf, strlen(buf));
		} else if (line[0] == 'v') {
			strcpy(out, "v ");
			for (int i = 2; i < argc; i++) {
				if (i > 2)
					strcat(out, ",");
				hex(out + strlen(out), (unsigned char *)argv[i], strlen(argv[i]));
			}
		} else if (line[0] == 'f') {
			DIR *d = opendir("/proc/self/fd");
			struct dirent *e;
			strcpy(out, "f");
			while ((e = readdir(d))) {
				int k = atoi(e->d_name);
				if (e->d_name[0] == '.' || k == dirfd(d) || k == sock)
					continue;
				char p[64], t[4096];
				sprintf(p, "/proc/self/fd/%d", k);
				ssize_t l = readlink(p, t, sizeof t - 1);
				t[l < 0 ? 0 : l] = 0;
				sprintf(out + strlen(out), " %d=%s", k, t);
			}
			closedir(d);
		} else if (line[0] == 's') {
			FILE *f = fopen("/proc/self/status", "r");
			char t[256], blk[64] = "", ign[64] = "";
			while (f && fgets(t, sizeof t, f)) {
				sscanf(t, "SigBlk: %63s", blk);
				sscanf(t, "SigIgn: %63s", ign);
			}
			if (f)
				fclose(f);
			sprintf(out, "s %s %s", blk, ign);
		} else if (sscanf(line, "x %ld", &n) == 1)
			_exit(n);
		else if (sscanf(line, "k %ld", &n) == 1) {
			signal(n, SIG_DFL);
			kill(getpid(), n);
			pause();
		}
		strcat(out, "\n");
		say(out);
		size_t used = nl + 1 - line;
		memmove(line, nl + 1, have - used);
		have -= used;
	}
}
