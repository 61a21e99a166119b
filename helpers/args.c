/* Prints its arguments (from the second on) unambiguously: A<count>\n then <length>:<bytes>\n each. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

int main(int argc, char **argv)
{
	size_t n = 64;
	for (int i = 1; i < argc; i++)
		n += strlen(argv[i]) + 32;
	char *b = malloc(n), *p = b;
	p += sprintf(p, "A%d\n", argc - 1);
	for (int i = 1; i < argc; i++) {
		size_t l = strlen(argv[i]);
		p += sprintf(p, "%zu:", l);
		memcpy(p, argv[i], l);
		p += l;
		*p++ = '\n';
	}
	for (char *q = b; q < p;) {
		ssize_t w = write(1, q, p - q);
		if (w <= 0)
			return 9;
		q += w;
	}
	return 0;
}
