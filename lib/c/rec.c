/* records what it was executed with.
 * rec FILE args..: appends a record to FILE ("-": standard output); FILE "+X": create X and its directories
 * cc wrapper: if argv[0] ends in "reccc", the record goes to $RECLOG/log and gcc is executed without the marked arguments */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/file.h>
extern char **environ;
static void put(int fd, const char *s, size_t n) { while (n) { ssize_t k = write(fd, s, n); if (k <= 0) exit(99); s += k; n -= k; } }
static void record(int fd, int argc, char **argv, int env)
{
	char *buf; size_t n = 0; FILE *f = open_memstream(&buf, &n);
	fprintf(f, "R%d", argc); fputc(0, f);
	for (int i = 0; i < argc; ++i) { fputs(argv[i], f); fputc(0, f); }
	if (env) { int c = 0; for (char **e = environ; *e; ++e) ++c; fprintf(f, "E%d", c); fputc(0, f); for (char **e = environ; *e; ++e) { fputs(*e, f); fputc(0, f); } }
	char cwd[8192]; if (!getcwd(cwd, sizeof cwd)) strcpy(cwd, "?");
	fputs(cwd, f); fputc(0, f);
	fclose(f);
	put(fd, buf, n);
}
int main(int argc, char **argv)
{
	size_t l = strlen(argv[0]);
	if (l >= 5 && !strcmp(argv[0] + l - 5, "reccc")) {
		char p[8192]; const char *d = getenv("RECLOG");
		if (d) {
			snprintf(p, sizeof p, "%s/log", d);
			int fd = open(p, O_WRONLY | O_CREAT | O_APPEND, 0666);
			flock(fd, LOCK_EX); record(fd, argc - 1, argv + 1, 0); close(fd);
		}
		char **a = calloc(argc + 1, sizeof *a); int n = 0;
		a[n++] = "gcc";
		for (int i = 1; i < argc; ++i) if (strncmp(argv[i], "-Zv", 3) && strncmp(argv[i], "-DZV", 4) && strncmp(argv[i], "-Wl,-Zv", 7)) a[n++] = argv[i];
		execvp("gcc", a); return 98;
	}
	if (argc < 2) return 97;
	int fd = !strcmp(argv[1], "-") ? 1 : open(argv[1], O_WRONLY | O_CREAT | O_APPEND, 0666);
	if (fd < 0) { perror(argv[1]); return 96; }
	record(fd, argc - 2, argv + 2, 1);
	return 0;
}
