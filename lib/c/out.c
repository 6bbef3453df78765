/* out FILE ACTION.. -- ARGS: appends the NUL terminated ARGS to FILE and performs the actions in order
 * o:N:SEED e:N:SEED  N pseudo random bytes to stdout/stderr     O:TEXT E:TEXT  that text
 * s:MS  sleep    c:FD  close    x:CODE  exit    k:SIG  die       b:N:SEED  a child that outlives this process writes to stdout
 * v:NAME  write the variable to stdout */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <sys/resource.h>
static void put(int fd, const char *s, size_t n) { while (n) { ssize_t k = write(fd, s, n > 65536 ? 65536 : n); if (k <= 0) _exit(94); s += k; n -= k; } }
static void gen(int fd, const char *spec)
{
	char *e; long n = strtol(spec, &e, 10); uint32_t x = strtoul(e + 1, 0, 10);
	char *b = malloc(n + 1);
	for (long i = 0; i < n; ++i) { x = x * 1664525u + 1013904223u; b[i] = x >> 24; }
	put(fd, b, n);
	free(b);
}
int main(int argc, char **argv)
{
	int i, k;
	struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
	for (k = 2; k < argc && strcmp(argv[k], "--"); ++k) ;
	int fd = open(argv[1], O_WRONLY | O_CREAT | O_APPEND, 0666);
	if (fd < 0) return 93;
	char h[32]; int n = sprintf(h, "%d", argc - k - 1); put(fd, h, n + 1);
	for (i = k + 1; i < argc; ++i) put(fd, argv[i], strlen(argv[i]) + 1);
	close(fd);
	for (i = 2; i < k; ++i) {
		const char *a = argv[i] + 2;
		switch (argv[i][0]) {
		case 'o': gen(1, a); break;
		case 'e': gen(2, a); break;
		case 'O': put(1, a, strlen(a)); break;
		case 'E': put(2, a, strlen(a)); break;
		case 's': usleep(1000 * atoi(a)); break;
		case 'c': close(atoi(a)); break;
		case 'v': { char *v = getenv(a); if (!v) v = "(unset)"; put(1, v, strlen(v)); break; }
		case 'b': { int pp = getpid(); if (!fork()) { for (n = 0; n < 2000 && getppid() == pp; ++n) usleep(500); usleep(2000); gen(1, a); _exit(0); } break; }
		case 'x': _exit(atoi(a));
		case 'k': signal(atoi(a), SIG_DFL); raise(atoi(a)); pause();
		}
	}
	return 0;
}
