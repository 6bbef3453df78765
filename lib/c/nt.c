/* a deterministic build command: nt NAME [-s SALT] [-r] [-w MS] [-R RSPFILE] [-i FILE..] [-d DEPFILE] [-o FILE..]
 * Every output is "NAME:k:hash" of NAME, SALT, the response file and the content of the inputs. With -d, lines "INC path" of
 * inputs include other files, which are listed in DEPFILE. An input with a line "FAIL" makes it fail before it writes.
 * -r: an output that would not change is left alone. -c FROM TO: copy instead. Starts and ends are appended to ./nt.log.
 * ./nt.kill "NAME before|after SIG": kills the muon process that runs it. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <sys/stat.h>
static uint64_t h = 14695981039346656037ULL;
static int failing, incs;
static const char *deps[256]; static int nd;
static char *logp;
static void mixn(const char *s, size_t n) { for (size_t i = 0; i < n; ++i) h = (h ^ (unsigned char)s[i]) * 1099511628211ULL; h = (h ^ 256) * 1099511628211ULL; }
static char *slurp(const char *p, size_t *n)
{
	FILE *f = fopen(p, "rb");
	if (!f) return 0;
	char *b = malloc(1 << 18);
	*n = fread(b, 1, (1 << 18) - 1, f);
	b[*n] = 0;
	fclose(f);
	return b;
}
static void note(const char *k, const char *name, int rc)
{
	char b[512];
	int n = snprintf(b, sizeof b, "%s %s %d\n", k, name, rc);
	int fd = open(logp, O_WRONLY | O_CREAT | O_APPEND, 0666);
	if (fd < 0 || write(fd, b, n) != n) exit(95);
	close(fd);
}
static void mixfile(const char *p, int depth)
{
	size_t n;
	char *b = slurp(p, &n), *l, *e;
	if (!b) { mixn("MISSING", 7); if (!depth) failing = 1; return; }
	mixn(b, n);
	for (l = b; l && *l; l = e) {
		e = strchr(l, '\n');
		if (e) *e++ = 0;
		if (!strcmp(l, "FAIL")) failing = 1;
		if (incs && !strncmp(l, "INC ", 4) && depth < 4) {
			if (access(l + 4, F_OK) == 0) deps[nd++] = strdup(l + 4);
			mixfile(l + 4, depth + 1);
		}
	}
	free(b);
}
static void maybe_kill(const char *name, const char *when)
{
	size_t n;
	char *b = slurp("nt.kill", &n), nm[128], w[32], p[64], buf[512];
	int sig;
	if (!b || sscanf(b, "%127s %31s %d", nm, w, &sig) != 3 || strcmp(nm, name) || strcmp(w, when)) return;
	unlink("nt.kill");
	int pid = getppid();
	for (int i = 0; i < 4 && pid > 1; ++i) {
		snprintf(p, sizeof p, "/proc/%d/stat", pid);
		char *s = slurp(p, &n), *q;
		if (!s || !(q = strrchr(s, ')'))) return;
		if (strstr(s, "(muon")) { kill(pid, sig); usleep(3000); return; }
		sscanf(q + 2, "%*c %d", &pid);
	}
	(void)buf;
}
static void depname(FILE *f, const char *s)
{
	for (; *s; ++s) { if (strchr(" #\\", *s)) fputc('\\', f); if (*s == '$') fputc('$', f); fputc(*s, f); }
}
int main(int argc, char **argv)
{
	const char *name = argv[1], *depfile = 0, *outs[64], *ins[64]; int no = 0, ni = 0, restat = 0, rc = 0; char mode = 0;
	char cwd[4096];
	if (argc < 2 || !getcwd(cwd, sizeof cwd)) return 97;
	logp = malloc(strlen(cwd) + 20);
	sprintf(logp, "%s/nt.log", cwd);
	note("S", name, 0);
	if (argc == 5 && !strcmp(argv[2], "-c")) {
		size_t n; char *b = slurp(argv[3], &n);
		rc = 1;
		if (b && !strstr(b, "#FAIL")) { FILE *f = fopen(argv[4], "wb"); fwrite(b, 1, n, f); fclose(f); rc = 0; }
		note("E", name, rc);
		return rc;
	}
	mixn(name, strlen(name));
	const char *rsp = 0;
	for (int i = 2; i < argc; ++i) {
		const char *a = argv[i];
		if (a[0] == '-' && a[1] && strchr("srwRido", a[1]) && !a[2]) { mode = a[1]; if (mode == 'r') restat = 1; continue; }
		switch (mode) {
		case 's': mixn(a, strlen(a)); break;
		case 'w': usleep(1000 * atoi(a)); break;
		case 'R': rsp = a; break;
		case 'i': ins[ni++] = a; break;
		case 'd': depfile = a; incs = 1; break;
		case 'o': outs[no++] = a; break;
		}
	}
	if (rsp) { size_t n; char *b = slurp(rsp, &n); if (b) mixn(b, n); else { mixn("NORSP", 5); } }
	for (int i = 0; i < ni; ++i) mixfile(ins[i], 0);
	maybe_kill(name, "before");
	if (failing) { printf("%s fails\n", name); note("E", name, 1); return 1; }
	for (int k = 0; k < no; ++k) {
		char b[256], *old; size_t n;
		int len = snprintf(b, sizeof b, "%s:%d:%016llx\n", name, k, (unsigned long long)(restat ? (h >> 63) : h));
		if (restat && (old = slurp(outs[k], &n)) && n == (size_t)len && !memcmp(old, b, n)) continue;
		FILE *f = fopen(outs[k], "wb");
		if (!f) { perror(outs[k]); rc = 4; break; }
		fwrite(b, 1, len, f);
		fclose(f);
	}
	if (depfile) {
		FILE *f = fopen(depfile, "wb");
		if (!f) { perror(depfile); rc = 4; } else {
			depname(f, no ? outs[0] : "x");
			fputc(':', f);
			for (int i = 0; i < ni + nd; ++i) { fputs(i % 2 ? " \\\n  " : " ", f); depname(f, i < ni ? ins[i] : deps[i - ni]); }
			fputc('\n', f);
			fclose(f);
		}
	}
	note("E", name, rc);
	maybe_kill(name, "after");
	return rc;
}
