/* a deterministic command: tool NAME [-x EXTRA..] [-p ANY..] [-i FILE..|-] [-d DEPFILE FILE..] [-o FILE..|-] [-f]
 * the content of output k is a hash of NAME, the EXTRA strings and the content of the input and depfile files.
 * appends a record to $RECLOG/log: NAME, all arguments, working directory; -f: fail after writing nothing, -F: after writing everything */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <stdint.h>
#include <sys/file.h>
#include <sys/stat.h>
static uint64_t h = 14695981039346656037ULL;
static void mixn(const char *s, size_t n) { for (size_t i = 0; i < n; ++i) h = (h ^ (unsigned char)s[i]) * 1099511628211ULL; h = (h ^ 256) * 1099511628211ULL; }
static void mixfile(const char *p)
{
	static char buf[1 << 20];
	FILE *f = strcmp(p, "-") ? fopen(p, "rb") : stdin;
	if (!f) { perror(p); exit(3); }
	size_t n = fread(buf, 1, sizeof buf, f);
	if (f != stdin) fclose(f);
	mixn(buf, n);
}
int main(int argc, char **argv)
{
	const char *d = getenv("RECLOG"), *depfile = 0, *outs[64], *deps[64]; int no = 0, nd = 0, fail = 0;
	char mode = 0;
	if (argc < 2) return 97;
	if (d) {
		char *buf, p[8192], cwd[8192]; size_t n = 0; FILE *f = open_memstream(&buf, &n);
		fprintf(f, "R%d", argc - 1); fputc(0, f);
		for (int i = 1; i < argc; ++i) { fputs(argv[i], f); fputc(0, f); }
		if (!getcwd(cwd, sizeof cwd)) strcpy(cwd, "?");
		fputs(cwd, f); fputc(0, f); fclose(f);
		snprintf(p, sizeof p, "%s/log", d);
		int fd = open(p, O_WRONLY | O_CREAT | O_APPEND, 0666);
		flock(fd, LOCK_EX); if (write(fd, buf, n) != (ssize_t)n) return 95; close(fd);
	}
	mixn(argv[1], strlen(argv[1]));
	for (int i = 2; i < argc; ++i) {
		const char *a = argv[i];
		if (a[0] == '-' && a[1] && strchr("xpidofF", a[1]) && !a[2]) { mode = a[1]; if (mode == 'f' || mode == 'F') fail = mode; if (mode == 'd') depfile = 0; continue; }
		switch (mode) {
		case 'x': mixn(a, strlen(a)); break;
		case 'i': mixfile(a); break;
		case 'd': if (!depfile) depfile = a; else { mixfile(a); deps[nd++] = a; } break;
		case 'o': outs[no++] = a; break;
		}
	}
	if (fail == 'f') return 5;
	for (int k = 0; k < no; ++k) {
		FILE *f = strcmp(outs[k], "-") ? fopen(outs[k], "wb") : stdout;
		if (!f) { perror(outs[k]); return 4; }
		fprintf(f, "%s:%d:%016llx\n", argv[1], k, (unsigned long long)h);
		if (f != stdout) fclose(f);
	}
	if (depfile) {
		FILE *f = fopen(depfile, "wb");
		if (!f) { perror(depfile); return 4; }
		for (const char *s = no ? outs[0] : "x"; *s; ++s) { if (strchr(" #\\", *s)) fputc('\\', f); if (*s == '$') fputc('$', f); fputc(*s, f); }
		fputc(':', f);
		for (int k = 0; k < nd; ++k) { fputs(k % 2 ? " \\\n  " : " ", f); for (const char *s = deps[k]; *s; ++s) { if (strchr(" #\\", *s)) fputc('\\', f); if (*s == '$') fputc('$', f); fputc(*s, f); } }
		fputc('\n', f); fclose(f);
	}
	return fail ? 5 : 0;
}
