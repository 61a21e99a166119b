/* emit STEP...: 1:N:S / 2:N:S write N patterned bytes with seed S to stdout / stderr; c1 / c2 close; xN exit; kN signal;
 * m<path> create a file (a mark that this point was reached). Byte i of seed s is (i * 7 + s) & 255. */
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/resource.h>
#include <unistd.h>

int main(int argc, char **argv)
{
	struct rlimit none = { 0, 0 };
	setrlimit(RLIMIT_CORE, &none);
	for (int i = 1; i < argc; i++) {
		int fd, s;
		long n;
		if (sscanf(argv[i], "%d:%ld:%d", &fd, &n, &s) == 3) {
			unsigned char *b = malloc(n + 1);
			for (long k = 0; k < n; k++)
				b[k] = (k * 7 + s) & 255;
			for (long k = 0; k < n;) {
				ssize_t w = write(fd, b + k, n - k);
				if (w < 0)
					return 90;
				k += w;
			}
			free(b);
		} else if (argv[i][0] == 'c')
			close(atoi(argv[i] + 1));
		else if (argv[i][0] == 'x')
			return atoi(argv[i] + 1);
		else if (argv[i][0] == 'm')
			close(open(argv[i] + 1, O_CREAT | O_WRONLY, 0644));
		else if (argv[i][0] == 'k') {
			signal(atoi(argv[i] + 1), SIG_DFL);
			kill(getpid(), atoi(argv[i] + 1));
			pause();
		}
	}
	return 0;
}
