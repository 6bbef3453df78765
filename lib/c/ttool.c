/* a test program: ttool ID [say=LINE|raw=TEXT|out=N|err=N|sleep=MS|trap|exit=N|sig=N|ANY]...
 * appends to $RECLOG/ev "S ID NS" when it starts and "E ID NS" when it ends,
 * and writes $RECLOG/run.ID.PID: NUL separated argc, arguments, working directory, environment */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/resource.h>
extern char **environ;
static void ev(const char *d, char k, const char *id)
{
	char p[4096], b[512]; struct timespec t;
	snprintf(p, sizeof p, "%s/ev", d);
	int fd = open(p, O_WRONLY | O_CREAT | O_APPEND, 0666);
	clock_gettime(CLOCK_MONOTONIC, &t);
	int n = snprintf(b, sizeof b, "%c %s %lld\n", k, id, t.tv_sec * 1000000000LL + t.tv_nsec);
	if (write(fd, b, n) != n) _exit(95);
	close(fd);
}
static void fill(FILE *f, long n) { for (long i = 0; i < n; ++i) fputc(i % 64 == 63 ? '\n' : 'x', f); fflush(f); }
int main(int argc, char **argv)
{
	const char *d = getenv("RECLOG");
	if (argc < 2 || !d) return 97;
	struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
	/* a wrapper: W ID -- runs the rest */
	if (!strcmp(argv[1], "wrap")) {
		setenv("WRAPPED", argv[2], 1);
		execv(argv[3], argv + 3);
		return 98;
	}
	const char *id = argv[1];
	ev(d, 'S', id);
	char p[4096], cwd[4096];
	snprintf(p, sizeof p, "%s/run.%s.%d", d, id, (int)getpid());
	FILE *f = fopen(p, "wb");
	fprintf(f, "%d", argc - 1); fputc(0, f);
	for (int i = 1; i < argc; ++i) { fputs(argv[i], f); fputc(0, f); }
	if (!getcwd(cwd, sizeof cwd)) strcpy(cwd, "?");
	fputs(cwd, f); fputc(0, f);
	for (char **e = environ; *e; ++e) { fputs(*e, f); fputc(0, f); }
	fclose(f);
	int rc = 0, sig = 0;
	for (int i = 2; i < argc; ++i) {
		char *a = argv[i];
		if (!strncmp(a, "say=", 4)) { puts(a + 4); fflush(stdout); }
		else if (!strncmp(a, "raw=", 4)) { fputs(a + 4, stdout); fflush(stdout); }
		else if (!strncmp(a, "out=", 4)) fill(stdout, atol(a + 4));
		else if (!strncmp(a, "err=", 4)) fill(stderr, atol(a + 4));
		else if (!strncmp(a, "sleep=", 6)) { long ms = atol(a + 6); struct timespec t = { ms / 1000, ms % 1000 * 1000000 }; nanosleep(&t, 0); }
		else if (!strcmp(a, "trap")) signal(SIGTERM, SIG_IGN);
		else if (!strncmp(a, "exit=", 5)) rc = atoi(a + 5);
		else if (!strncmp(a, "sig=", 4)) sig = atoi(a + 4);
	}
	ev(d, 'E', id);
	if (sig) { signal(sig, SIG_DFL); raise(sig); pause(); }
	return rc;
}
