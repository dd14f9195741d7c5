/* C31: the replacement functions of lib/ and the string helpers, compared with the C library's.
 * usage: rplcheck SEED SECONDS | rplcheck daemon IMPL NOCHDIR NOCLOSE FILE
 * Integer and pointer arguments are handed over as 64-bit values and floating-point ones as doubles,
 * which the calling convention of x86-64 allows for any mixture of conversions. */
#undef vsnprintf
#undef snprintf
#undef vasprintf
#undef asprintf
#include <sys/types.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <math.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <time.h>
#include <unistd.h>

#include "util.h"
#undef vsnprintf
#undef snprintf
#undef vasprintf
#undef asprintf
#undef strdup

int vsnprintf(char *, size_t, const char *, va_list);
int snprintf(char *, size_t, const char *, ...);
int vasprintf(char **, const char *, va_list);
int rpl_vsnprintf(char *, size_t, const char *, va_list);
int rpl_snprintf(char *, size_t, const char *, ...);
int rpl_vasprintf(char **, const char *, va_list);
int rpl_asprintf(char **, const char *, ...);
char *rpl_strdup(const char *);
int rpl_strcasecmp(const char *, const char *);
int rpl_strncasecmp(const char *, const char *, size_t);
int rpl_daemon(int, int);

static uint64_t rng;
static uint64_t rnd(void)
{
	rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
	return rng * 0x2545F4914F6CDD1DULL;
}
static size_t below(size_t n) { return n ? (size_t)(rnd() % n) : 0; }

static unsigned long n_fmt, n_conv, n_cut, n_float, n_alloc, n_cmp, n_equal, n_dup, n_help;

static void fail(const char *what) { printf("%s\n", what); }
static void die_(void) { fflush(stdout); _Exit(77); }

static void show(const char *name, const void *p, size_t n)
{
	size_t i;

	printf("%s (%lu bytes): ", name, (unsigned long)n);
	for (i = 0; i < n && i < 400; i++) {
		unsigned char c = ((const unsigned char *)p)[i];

		if (c >= 32 && c < 127) putchar(c); else printf("\\x%02x", c);
	}
	printf("\n");
}

/* -- formatted printing ---------------------------------------------------- */

static uint64_t iv[12];
static double dv[4];
static size_t ni, nd;
static void *owned[40];
static size_t n_owned;

#define ARGS iv[0], iv[1], iv[2], iv[3], iv[4], iv[5], iv[6], iv[7], iv[8], iv[9], iv[10], iv[11], dv[0], dv[1], dv[2], dv[3]

static int call_v(int (*f)(char *, size_t, const char *, va_list), char *buf, size_t size, const char *fmt, ...)
{
	va_list ap;
	int r;

	va_start(ap, fmt);
	r = f(buf, size, fmt, ap);
	va_end(ap);
	return r;
}

static int call_va(int (*f)(char **, const char *, va_list), char **out, const char *fmt, ...)
{
	va_list ap;
	int r;

	va_start(ap, fmt);
	r = f(out, fmt, ap);
	va_end(ap);
	return r;
}

static char *text(size_t n, int terminated)
{
	char *s = malloc(n + (terminated ? 1 : 0) + (n + (size_t)terminated == 0));
	size_t i;

	for (i = 0; i < n; i++)
		s[i] = below(12) ? (char)(' ' + below(95)) : (char)(1 + below(255));
	if (terminated)
		s[n] = '\0';
	if (n_owned < 40)
		owned[n_owned++] = s;
	return s;
}

static uint64_t number(void)
{
	static const uint64_t some[] = { 0, 1, 7, 8, 9, 10, 99, 100, 127, 128, 255, 256, 999, 1000, 32767, 32768, 65535, 65536, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100000000u,
	    0x7fffffffffffffffu, 0x8000000000000001u, 0xffffffffffffffffu, 0xffffffffffffff80u, 0xffffffffffff8000u, 0xffffffff80000000u, 1234567890123456789u };

	switch (below(4)) {
	case 0: return some[below(sizeof(some) / sizeof(some[0]))];
	case 1: return below(2000);
	case 2: return (uint64_t)-(int64_t)below(100000);
	default: return rnd() >> below(64);
	}
}

static char ref[40000], fmt[600];

/* Append one conversion to the format. */
static size_t conversion(size_t at)
{
	static const char *mods[] = { "", "", "", "h", "hh", "l", "ll", "j", "z", "t" };
	static const char kinds[] = "dddiuuxXossssscpffF%";
	char kind = below(30) ? kinds[below(sizeof(kinds) - 1)] : "eEgG"[below(4)];
	const char *mod = mods[below(10)];
	int zero = 0, prec = -1, flagged = below(3) == 0, exact = 0, i;
	size_t width = 0;
	char *s;

	if ((strchr("fFeEgG", kind) && nd == 4) || ni > 8)
		kind = '%';
	fmt[at++] = '%';
	n_conv++;
	if (kind == '%') {
		fmt[at++] = '%';
		return at;
	}
	if (kind == 'c') {
		iv[ni++] = 1 + below(255);
		fmt[at++] = 'c';
		return at;
	}
	if (flagged)
		for (i = (int)below(3); i >= 0; i--)
			switch (below(5)) {
			case 0: fmt[at++] = '-'; break;
			case 1: if (kind == 'd' || kind == 'i' || strchr("fF", kind)) fmt[at++] = '+'; break;
			case 2: if (kind == 'd' || kind == 'i' || strchr("fF", kind)) fmt[at++] = ' '; break;
			case 3: if (strchr("xXofF", kind)) fmt[at++] = '#'; break;
			default: if (strchr("diuxXofF", kind)) fmt[at++] = '0', zero = 1; break;
			}
	switch (below(4)) {
	case 0:
		width = 1 + below(below(4) ? 20 : 300);
		at += (size_t)snprintf(fmt + at, 10, "%u", (unsigned)width);
		break;
	case 1:
		width = below(30);
		fmt[at++] = '*';
		iv[ni++] = below(4) ? (uint64_t)(int64_t)width : (uint64_t)(unsigned)-(int)width;
		break;
	}
	if (kind != 'p' && below(3) == 0) {
		fmt[at++] = '.';
		prec = kind == 's' ? (int)below(40) : 1 + (int)below(strchr("fF", kind) ? 6 : strchr("eEgG", kind) ? 8 : 25);
		if (strchr("fF", kind) && below(4) == 0)
			prec = 7 + (int)below(6), exact = 1;
		switch (below(4)) {
		case 0:
			fmt[at++] = '*';
			iv[ni++] = (uint64_t)prec;
			break;
		case 1:
			fmt[at++] = '*';
			iv[ni++] = (uint64_t)(unsigned)-1 - below(3);
			prec = -1;
			break;
		default:
			if (kind == 's' && below(6) == 0)
				prec = 0;
			if (prec > 0 || below(2) || strchr("fF", kind))
				at += (size_t)snprintf(fmt + at, 10, "%d", prec);
			else
				prec = 0;
			if (prec == 0 && kind != 's')
				prec = 1, fmt[at++] = '1';
		}
	}
	(void)zero;
	switch (kind) {
	case 's':
		if (prec >= 0 && below(2)) {	/* Not terminated, exactly as long as it may be read. */
			s = text((size_t)prec, 0);
		} else if (prec == -1 && below(20) == 0)
			s = NULL;
		else
			s = text(below(below(10) ? 60 : 3000), 1);
		iv[ni++] = (uint64_t)(uintptr_t)s;
		break;
	case 'p':
		iv[ni++] = below(5) ? rnd() >> below(40) : 0;
		break;
	case 'f': case 'F': case 'e': case 'E': case 'g': case 'G': {
		double x;

		n_float++;
		if (exact || strchr("eEgG", kind)) {	/* A value that has few digits. */
			static const double few[] = { 0, 1, 2, 5, 9, 10, 12, 20, 64, 99, 100, 123, 500, 640, 999, 1000, 1024, 9990, 10000, 12500, 100000, 123000, 990000, 1000000, 10000000,
			    0.5, 0.25, 0.125, 0.75, 1.5, 2.25, 12.5, 99.5, 100.25 };

			dv[nd++] = few[below(sizeof(few) / sizeof(few[0]))] * (below(3) ? 1 : -1);
			if (dv[nd - 1] == 0)
				dv[nd - 1] = 0;
			if (prec >= 0 && prec < 6 && strchr("eEgG", kind))
				dv[nd - 1] = few[below(3) ? below(6) : 0] * (below(3) ? 1 : below(2) ? 10 : 1000000);
			break;
		}
		switch (below(8)) {
		case 0: x = (double)below(2000); break;
		case 1: x = (double)below(2000) / 8.0; break;
		case 2: x = (double)below(1000000) / 1000.0; break;
		case 3: x = (double)(int64_t)below(2000000) / 100.0 - 10000.0; break;
		case 4: x = (double)below(100000000) * 1e-9; break;
		case 5: x = 999.0 + (double)below(1000) * 0.001; break;
		case 6: x = below(3) ? 0.0 : INFINITY; break;
		default: x = (double)below(1u << 30) + (double)below(1000) / 1000.0; break;
		}
		if (x == 0.0)
			x = 0.0;
		/* Not right between two results: rounding of those isn't specified. */
		for (i = 0; i < 20 && isfinite(x); i++) {
			long double unit = powl(10, prec < 0 ? 6 : prec), f;

			if (strchr("gG", kind))
				unit = prec == 0 ? 1 : unit / 10;
			if (strchr("eEgG", kind) && x != 0.0)
				unit /= powl(10, floorl(log10l(fabsl((long double)x)) + 1e-15L));
			f = fabsl((long double)x) * unit;

			f -= floorl(f);
			if (fabsl(f - 0.5L) > 1e-3L)
				break;
			x += (double)(0.2L / unit);
		}
		dv[nd++] = x;
		break;
	}
	default:
		while (*mod != '\0')
			fmt[at++] = *mod++;
		iv[ni++] = number();
		if (iv[ni - 1] == 0x8000000000000000u)
			iv[ni - 1]++;
	}
	fmt[at++] = kind;
	return at;
}

static void wrong(const char *what, size_t size, int got, int want, const char *out)
{
	size_t i;

	printf("%s\nformat: ", what);
	show("", fmt, strlen(fmt));
	for (i = 0; i < ni; i++)
		printf("argument: %#lx\n", (unsigned long)iv[i]);
	for (i = 0; i < nd; i++)
		printf("number: %.17g\n", dv[i]);
	printf("size %lu, returned %d, wanted %d\n", (unsigned long)size, got, want);
	if (out != NULL)
		show("got", out, strnlen(out, size));
	show("wanted", ref, strlen(ref));
	die_();
}

static void one_format(void)
{
	size_t at = 0, size, i;
	int want, got, parts = 1 + (int)below(4);
	char *buf;

	ni = nd = 0;
	for (i = 0; i < 12; i++)
		iv[i] = 0xdeaddeaddeadULL;
	for (i = 0; i < 4; i++)
		dv[i] = 0;
	while (parts-- > 0) {
		size_t n = below(3) ? below(8) : 0;

		for (i = 0; i < n; i++) {
			fmt[at] = (char)(' ' + below(95));
			if (fmt[at] == '%')
				fmt[at] = '_';
			at++;
		}
		at = conversion(at);
	}
	if (below(2))
		fmt[at++] = ".:\n]"[below(4)];
	fmt[at] = '\0';
	n_fmt++;

	if ((want = snprintf(ref, sizeof(ref), fmt, ARGS)) < 0 || (size_t)want >= sizeof(ref)) {
		fail("reference failed");
		show("format", fmt, strlen(fmt));
		_Exit(3);
	}
	switch (below(6)) {
	case 0: size = 0; break;
	case 1: size = (size_t)want; break;
	case 2: size = below((size_t)want + 1); break;
	default: size = (size_t)want + 1 + below(3); break;
	}
	if ((size_t)want >= size)
		n_cut++;
	buf = size == 0 && below(2) ? NULL : malloc(size ? size : 1);
	if (size == 0 && buf != NULL)
		buf[0] = 'K';
	got = below(2) ? call_v(rpl_vsnprintf, buf, size, fmt, ARGS) : rpl_snprintf(buf, size, fmt, ARGS);
	if (got != want)
		wrong("the replacement for snprintf() returned another length", size, got, want, size ? buf : NULL);
	if (size > 0) {
		char save = '\0';

		if ((size_t)want >= size) {
			save = ref[size - 1];
			ref[size - 1] = '\0';
		}
		if (memcmp(buf, ref, strlen(ref) + 1) != 0)
			wrong("the replacement for snprintf() wrote something else", size, got, want, buf);
		if (save != '\0') {
			if (strlen(buf) != size - 1)
				wrong("the replacement for snprintf() didn't cut its output where it had to", size, got, want, buf);
			ref[size - 1] = save;
		}
	} else if (buf != NULL && buf[0] != 'K')
		wrong("the replacement for snprintf() wrote to a buffer of no size", size, got, want, NULL);
	free(buf);

	buf = NULL;
	got = below(2) ? call_va(rpl_vasprintf, &buf, fmt, ARGS) : rpl_asprintf(&buf, fmt, ARGS);
	n_alloc++;
	if (got != want)
		wrong("the replacement for asprintf() returned another length", 0, got, want, NULL);
	if (strcmp(buf, ref) != 0)
		wrong("the replacement for asprintf() wrote something else", (size_t)want + 1, got, want, buf);
	free(buf);
	while (n_owned > 0)
		free(owned[--n_owned]);
}

/* -- comparison and duplication -------------------------------------------- */

static int sign(int x) { return (x > 0) - (x < 0); }

static char *word(size_t n)
{
	static const char alpha[] = "abzABZ@[`{019_ \xe4\xc4\xff\x80\x7f";
	char *s = malloc(n + 1);
	size_t i;

	for (i = 0; i < n; i++)
		s[i] = below(3) ? alpha[below(sizeof(alpha) - 1)] : (char)(1 + below(255));
	s[n] = '\0';
	return s;
}

static void compare(const char *a, const char *b)
{
	int x = strcasecmp(a, b), y = rpl_strcasecmp(a, b);

	n_cmp++;
	n_equal += x == 0;
	if (sign(x) != sign(y)) {
		printf("the replacement for strcasecmp() returned %d instead of %d\n", y, x);
		show("first", a, strlen(a)); show("second", b, strlen(b));
		die_();
	}
}

static void ncompare(const char *a, const char *b, size_t n, size_t la, size_t lb)
{
	/* Copies that end where they mustn't be read any further. */
	size_t ca = la < n ? la + 1 : n, cb = lb < n ? lb + 1 : n;
	char *pa = malloc(ca ? ca : 1), *pb = malloc(cb ? cb : 1);
	int x, y;

	memcpy(pa, a, ca);
	memcpy(pb, b, cb);
	x = strncasecmp(a, b, n);
	y = rpl_strncasecmp(pa, pb, n);
	n_cmp++;
	n_equal += x == 0;
	if (sign(x) != sign(y)) {
		printf("the replacement for strncasecmp() returned %d instead of %d for %lu bytes\n", y, x, (unsigned long)n);
		show("first", a, la); show("second", b, lb);
		die_();
	}
	free(pa);
	free(pb);
}

static void strings(void)
{
	size_t n = below(below(5) ? 8 : 200), m = below(4) ? n : below(10), i, l;
	char *a = word(n), *b = word(m), *d;

	if (below(3)) {	/* Alike but for the case and maybe one place. */
		free(b);
		m = n;
		b = malloc(n + 1);
		memcpy(b, a, n + 1);
		for (i = 0; i < n; i++)
			if (below(2) && ((b[i] | 32) >= 'a' && (b[i] | 32) <= 'z'))
				b[i] ^= 32;
		if (n > 0 && below(2))
			b[below(n)] = (char)(1 + below(255));
		if (n > 0 && below(6) == 0)
			b[m = below(n)] = '\0';
	}
	compare(a, b);
	for (i = 0; i < 4; i++) {
		l = i == 0 ? below(n + 3) : i == 1 ? n : i == 2 ? 4 : below(3);
		ncompare(a, b, l, n, m);
	}
	d = rpl_strdup(a);
	n_dup++;
	if (d == NULL || d == a || strcmp(d, a) != 0) {
		fail("the replacement for strdup() returned something else");
		show("string", a, n);
		die_();
	}
	memset(d, 'x', n + 1);
	free(d);
	free(a);
	free(b);
}

static void all_pairs(void)
{
	int i, j;
	char a[3] = "xx", b[3] = "Xx";

	for (i = 0; i < 256; i++)
		for (j = 0; j < 256; j++) {
			a[1] = (char)i;
			b[1] = (char)j;
			compare(a, b);
			ncompare(a, b, 2, strlen(a), strlen(b));
			ncompare(a + 1, b + 1, 1, strlen(a + 1), strlen(b + 1));
		}
}

/* -- helpers --------------------------------------------------------------- */

static void bad(const char *what, const char *in, size_t n)
{
	fail(what);
	show("input", in, n);
	die_();
}

static void helpers(void)
{
	static const char alpha[] = "  \t\t\r\n\nab\v\f\x80\xff";
	size_t n = below(below(4) ? 12 : 300), i, k;
	char *a = malloc(n + 1), *b, *c, *p;
	int want, args_wanted = 1 + (int)below(4), words = 0;
	char *args[5], *found[5];

	for (i = 0; i < n; i++)
		a[i] = alpha[below(sizeof(alpha) - 1)];
	a[n] = '\0';
	n_help++;
	for (i = 0; a[i] == '\r' || a[i] == '\n'; i++)
		;
	if (skip_newlines(a) != a + i)
		bad("skip_newlines() returned another place", a, n);
	for (i = 0; a[i] == ' ' || a[i] == '\t'; i++)
		;
	if (skip_whitespace(a) != a + i)
		bad("skip_whitespace() returned another place", a, n);

	b = word(below(300));
	c = concat(a, b);
	if (strlen(c) != n + strlen(b) || memcmp(c, a, n) != 0 || strcmp(c + n, b) != 0)
		bad("concat() returned something else", a, n);
	free(c);

	c = malloc(n + 1);
	memcpy(c, a, n + 1);
	chomp(c);
	k = n > 0 && a[n - 1] == '\n' ? n - 1 : n;
	if (strlen(c) != k || memcmp(c, a, k) != 0)
		bad("chomp() left something else", a, n);

	/* Words separated by blanks; the rest belongs to them. */
	memcpy(c, a, n + 1);
	for (p = a; *p != '\0';) {
		while (*p == ' ' || *p == '\t')
			p++;
		if (*p == '\0')
			break;
		if (words < 5)
			found[words] = p;
		words++;
		while (*p != '\0' && *p != ' ' && *p != '\t')
			p++;
	}
	want = words == args_wanted;
	if ((int)parse_line(c, args, args_wanted) != want)
		bad(want ? "parse_line() didn't find the arguments" : "parse_line() accepted another number of arguments", a, n);
	if (want)
		for (i = 0; i < (size_t)args_wanted; i++)
			if (args[i] - c != found[i] - a || strlen(args[i]) != strcspn(found[i], " \t") || memcmp(args[i], found[i], strlen(args[i])) != 0)
				bad("parse_line() returned other arguments", a, n);
	free(c);
	free(b);
	free(a);
}

/* -- daemon ---------------------------------------------------------------- */

static int run_daemon(char **argv)
{
	int r, i, fd;
	pid_t sid = getsid(0), pgrp = getpgrp(), parent = getpid();
	char cwd[4096], tgt[256], name[64];
	FILE *f;

	if (argv[3][0] == 'c') {
		close(0); close(1); close(2);
	} else if (argv[3][0] == 'o')
		close(1);
	fd = open("/dev/zero", O_RDONLY);
	(void)fd;
	r = argv[0][0] == 'r' ? rpl_daemon(atoi(argv[1]), atoi(argv[2])) : daemon(atoi(argv[1]), atoi(argv[2]));
	f = fopen(argv[4], "w");
	fprintf(f, "returned %d\nsession %s\ngroup %s\nprocess %s\ncwd %s\n", r, getsid(0) == sid ? "old" : "new", getpgrp() == pgrp ? "old" : "new",
	    getpid() == parent ? "old" : "new", getcwd(cwd, sizeof(cwd)) ? cwd : "?");
	for (i = 0; i < 30; i++) {
		ssize_t n;

		if (i == fileno(f))
			continue;
		snprintf(name, sizeof(name), "/proc/self/fd/%d", i);
		if ((n = readlink(name, tgt, sizeof(tgt) - 1)) >= 0) {
			tgt[n] = '\0';
			fprintf(f, "%d %s %d\n", i, strncmp(tgt, "pipe:", 5) == 0 ? "pipe" : tgt, fcntl(i, F_GETFL) & O_ACCMODE);
		}
	}
	fprintf(f, "tty %d\nend\n", open("/dev/tty", O_RDWR) >= 0);
	fclose(f);
	_Exit(0);
}

int main(int argc, char **argv)
{
	struct timespec t0, t;
	double secs;
	int i;

	if (argc == 7)
		return run_daemon(argv + 2);
	secs = atof(argv[2]);
	rng = strtoull(argv[1], NULL, 10) * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL;
	for (i = 0; i < 20; i++)
		rnd();
	all_pairs();
	clock_gettime(CLOCK_MONOTONIC, &t0);
	do {
		for (i = 0; i < 20; i++) {
			one_format();
			one_format();
			strings();
			helpers();
		}
		clock_gettime(CLOCK_MONOTONIC, &t);
	} while ((double)(t.tv_sec - t0.tv_sec) + (double)(t.tv_nsec - t0.tv_nsec) * 1e-9 < secs);
	printf("formats=%lu conversions=%lu cut=%lu numbers=%lu allocated=%lu comparisons=%lu equal=%lu duplicated=%lu helped=%lu\n",
	    n_fmt, n_conv, n_cut, n_float, n_alloc, n_cmp, n_equal, n_dup, n_help);
	return 0;
}
