/* io TAG: reads all of stdin, then writes TAGo1 to 1, TAGe1 to 2, TAGo2x to 1, TAGe2yz to 2 and TAGi=<stdin> to 1,
 * a line each, one write(2) per line. Long inputs are summarised as <length>,<checksum>. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static void put(int fd, const char *tag, const char *s, size_t n)
{
	static char b[4096];
	size_t l = sprintf(b, "%s", tag);
	memcpy(b + l, s, n);
	b[l + n] = '\n';
	if (write(fd, b, l + n + 1) != (ssize_t)(l + n + 1))
		_exit(3);
}

int main(int argc, char **argv)
{
	const char *t = argc > 1 ? argv[1] : "?";
	size_t cap = 1 << 20, n = 0;
	unsigned long sum = 0;
	char *b = malloc(cap), r[2048];
	ssize_t k;
	while ((k = read(0, b + n, cap - n)) > 0) {
		n += k;
		if (n == cap)
			b = realloc(b, cap *= 2);
	}
	for (size_t i = 0; i < n; i++)
		sum = (sum * 31 + (unsigned char)b[i]) % 1000003;
	put(1, t, "o1", 2);
	put(2, t, "e1", 2);
	put(1, t, "o2x", 3);
	put(2, t, "e2yz", 4);
	if (k < 0)
		strcpy(r, "i!"), k = 2;
	else if (n <= 1000) {
		memcpy(r, "i=", 2);
		memcpy(r + 2, b, n);
		k = n + 2;
	} else
		k = sprintf(r, "i#%zu,%lu", n, sum);
	put(1, t, r, k);
	return 0;
}
