/* Prints one line: tag, argv[0] and the other arguments, the working directory and the whole environment, sorted.
 * A first argument starting with '+' makes it copy its standard input first. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
extern char **environ;
static int cmp(const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }
static char out[1 << 16];
static size_t n;
static void put(const char *s)
{
	for (; *s; s++)
		if (*s == '\n' || *s == ' ' || *s == '|')
			n += sprintf(out + n, "\\%02x", *s);
		else
			out[n++] = *s;
}
int main(int argc, char **argv)
{
	char cwd[4096], buf[4096];
	int k = 0;
	if (argc > 1 && argv[1][0] == '+') {
		ssize_t r;
		while ((r = read(0, buf, sizeof buf)) > 0)
			if (write(1, buf, r) != r)
				return 1;
	}
	for (int i = 0; i < argc; i++) {
		if (i)
			out[n++] = ' ';
		put(argv[i]);
	}
	n += sprintf(out + n, " | ");
	put(getcwd(cwd, sizeof cwd) ? cwd : "?");
	n += sprintf(out + n, " |");
	while (environ[k])
		k++;
	qsort(environ, k, sizeof *environ, cmp);
	for (int i = 0; i < k; i++) {
		out[n++] = ' ';
		put(environ[i]);
	}
	out[n++] = '\n';
	return write(1, out, n) != (ssize_t)n;
}
