/* The language bindings' protocol code (python/client.c or, with -DPERL, perl/client.c) against
 * stand-ins for OpenSSL, the clock and poll(2): random sequences of calls on a few objects with
 * scripted reads, writes and stalls.  To be built with a sanitizer. */
#include <errno.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/select.h>
#include <time.h>
#include <unistd.h>
#include <openssl/ssl.h>
#include <openssl/rand.h>
#include <openssl/err.h>
#include "client.h"

static unsigned long long rs;
static unsigned rnd(unsigned n)
{
	rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
	return n ? (unsigned)((rs >> 11) % n) : 0;
}
#define CHANCE(p) (rnd(1000) < (p))

static double now;			/* virtual time */
static unsigned long long reads, writes, polls, calls, oks, errs, bytes_in, bytes_out, stalls;
static char script[32768];		/* for reports */
static unsigned sl;

static void note(const char *w, long n)
{
	if (sl < sizeof(script) - 64)
		sl += (unsigned)sprintf(script + sl, "%s%ld ", w, n);
}

static void die(const char *what, double a, double b)
{
	printf("BINDFUZZ %s (%g, %g) after: %s\n", what, a, b, script);
	fflush(stdout);
	_exit(77);
}

/* What the server does. */
static char resp[8192];			/* the pending response */
static int rlen, rpos;
static int stall_at, drip, dead, always;	/* bytes before a stall; delay per byte; lost */
static char said[65536];		/* everything sent since the start of the call */
static int saidlen;
static int retry_flag, stalled;
static int psk_ok;

static void say(const char *s, int n)
{
	if (rlen + n > (int)sizeof(resp) - 1)
		n = (int)sizeof(resp) - 1 - rlen;
	memcpy(resp + rlen, s, (size_t)n);
	rlen += n;
	if (saidlen + n < (int)sizeof(said)) {
		memcpy(said + saidlen, s, (size_t)n);
		saidlen += n;
	}
}

static const char *const BASE[] = { "MOIN 1", "OKAY", "FAIL", "FAIL no", "BAIL", "BAIL bye", "MOIN 2", "MOIN", "MOIN ", "", "O", "OKA", "FAI", "FAILx", "BAILx", "MOIN1", "FAIL  ", "okay",
	"OKAY fine", "FAIL %s%n", "\xff\xfe", "NOOP", "QUIT", "MOIN 11" };

static void respond(const char *right)
{
	char b[6000];
	int n, k = (int)rnd(100);

	if (k < 75) {
		n = sprintf(b, "%s", right);
	} else if (k < 90) {
		const char *s = BASE[rnd(sizeof(BASE) / sizeof(*BASE))];
		n = sprintf(b, "%s", s);
	} else if (k < 95) {
		n = sprintf(b, "%s", BASE[rnd(9)]);
		int m = CHANCE(300) ? 1010 + (int)rnd(30) : (int)rnd(1100);
		while (n < m)
			b[n++] = (char)(CHANCE(20) ? rnd(256) : 'a' + rnd(26));
	} else {
		n = (int)rnd(40);
		for (int i = 0; i < n; i++)
			b[i] = (char)rnd(256);
		if (CHANCE(300)) {
			n = 1000 + (int)rnd(3000);
			for (int i = 0; i < n; i++)
				b[i] = (char)('a' + rnd(26));
		}
	}
	if (CHANCE(30) && n)
		b[rnd((unsigned)n)] = 0;
	k = (int)rnd(100);
	if (k < 70) { b[n++] = '\r'; b[n++] = '\n'; }
	else if (k < 90) b[n++] = '\n';
	else if (k < 93) { b[n++] = '\n'; b[n++] = '\n'; }
	else if (k < 95) { b[n++] = '\r'; }
	say(b, n);
	if (CHANCE(20))
		say("OKAY\r\n", 6);
	if (CHANCE(60))
		drip = 1 + (int)rnd(40);	/* in tenths of seconds per piece */
	if (CHANCE(20))
		stall_at = (int)rnd((unsigned)n + 1);
	if (CHANCE(20))
		dead = 1;
}

/* Stand-ins. */
struct ex { SSL_CTX *ctx; void *ex[8]; };
static int nobj;
SSL_CTX *SSL_CTX_new(const SSL_METHOD *m) { (void)m; nobj++; return (SSL_CTX *)calloc(1, sizeof(struct ex)); }
void SSL_CTX_free(SSL_CTX *c) { nobj--; free(c); }
SSL *SSL_new(SSL_CTX *c) { struct ex *e = calloc(1, sizeof(struct ex)); e->ctx = c; return (SSL *)e; }
SSL_CTX *SSL_get_SSL_CTX(const SSL *s) { return ((struct ex *)s)->ctx; }
void *SSL_get_ex_data(const SSL *s, int i) { return ((struct ex *)s)->ex[i & 7]; }
int SSL_set_ex_data(SSL *s, int i, void *p) { ((struct ex *)s)->ex[i & 7] = p; return 1; }
int SSL_CTX_set_ex_data(SSL_CTX *s, int i, void *p) { ((struct ex *)s)->ex[i & 7] = p; return 1; }
void *SSL_CTX_get_ex_data(const SSL_CTX *s, int i) { return ((struct ex *)s)->ex[i & 7]; }
int CRYPTO_get_ex_new_index(int c, long l, void *p, CRYPTO_EX_new *n, CRYPTO_EX_dup *d, CRYPTO_EX_free *f)
{ static int next = 1; (void)c; (void)l; (void)p; (void)n; (void)d; (void)f; return next++; }
void SSL_free(SSL *s) { free(s); }
BIO *BIO_new(const BIO_METHOD *m) { (void)m; static char bio[16]; return (BIO *)(void *)bio; }
const BIO_METHOD *BIO_s_connect(void) { return NULL; }
int BIO_free(BIO *b) { (void)b; return 1; }
void BIO_free_all(BIO *b) { (void)b; }
const SSL_METHOD *TLS_client_method(void) { return NULL; }
const SSL_METHOD *TLS_method(void) { return NULL; }
int SSL_CTX_set_cipher_list(SSL_CTX *c, const char *s) { (void)c; return strcmp(s, "BAD") != 0; }
void SSL_CTX_set_verify(SSL_CTX *c, int m, SSL_verify_cb f) { (void)c; (void)m; (void)f; }
void SSL_set_verify(SSL *s, int m, SSL_verify_cb f) { (void)s; (void)m; (void)f; }
int SSL_CTX_set_ciphersuites(SSL_CTX *c, const char *s) { (void)c; (void)s; return 1; }
uint64_t SSL_set_options(SSL *s, uint64_t o) { (void)s; return o; }
uint64_t SSL_CTX_get_options(const SSL_CTX *c) { (void)c; return 0; }
int SSL_get_verify_mode(const SSL *s) { (void)s; return SSL_VERIFY_PEER; }
int RAND_bytes(unsigned char *b, int n) { static unsigned char k; int i; for (i = 0; i < n; i++) b[i] = (unsigned char)(__atomic_add_fetch(&k, 1, __ATOMIC_RELAXED) * 37); return 1; }
uint64_t SSL_CTX_set_options(SSL_CTX *c, uint64_t o) { (void)c; return o; }
long SSL_CTX_ctrl(SSL_CTX *c, int a, long b, void *d) { (void)c; (void)a; (void)b; (void)d; return 1; }
void SSL_set_bio(SSL *s, BIO *a, BIO *b) { (void)s; (void)a; (void)b; }
void SSL_set_connect_state(SSL *s) { (void)s; }
long SSL_ctrl(SSL *s, int a, long b, void *d) { (void)s; (void)a; (void)b; (void)d; return 1; }
static SSL_psk_client_cb_func cb;
void SSL_set_psk_client_callback(SSL *s, SSL_psk_client_cb_func f) { (void)s; cb = f; }
void SSL_CTX_set_psk_client_callback(SSL_CTX *s, SSL_psk_client_cb_func f) { (void)s; cb = f; }
int SSL_set_session(SSL *s, SSL_SESSION *x) { (void)s; (void)x; return 1; }
long BIO_ctrl(BIO *b, int cmd, long l, void *p)
{
	(void)b; (void)l;
	if (cmd == BIO_C_GET_FD) {
		int fd = CHANCE(100) ? -1 : CHANCE(500) ? 3 : 1500 + (int)rnd(60000);
		if (p != NULL)
			*(int *)p = fd;
		return fd;
	}
	if (cmd == BIO_C_SET_CONNECT && p != NULL)
		bytes_out += strlen((char *)p);
	return 1;
}
long BIO_int_ctrl(BIO *b, int c, long l, int i) { (void)b; (void)c; (void)l; (void)i; return 1; }
int BIO_test_flags(const BIO *b, int f) { (void)b; return retry_flag ? f & (BIO_FLAGS_SHOULD_RETRY | BIO_FLAGS_READ) : 0; }
int BIO_get_retry_reason(BIO *b) { (void)b; return 0; }
int SSL_want(const SSL *s) { (void)s; return retry_flag ? SSL_READING : SSL_NOTHING; }
int SSL_get_error(const SSL *s, int r) { (void)s; return r > 0 ? SSL_ERROR_NONE : retry_flag ? SSL_ERROR_WANT_READ : SSL_ERROR_SYSCALL; }
int SSL_pending(const SSL *s) { (void)s; return 0; }
int SSL_get_fd(const SSL *s) { (void)s; return 3; }
int SSL_get_rfd(const SSL *s) { (void)s; return 3; }
int SSL_get_wfd(const SSL *s) { (void)s; return 3; }
int SSL_get_shutdown(const SSL *s) { (void)s; return 0; }
int SSL_is_init_finished(const SSL *s) { (void)s; return 1; }
int SSL_in_init(const SSL *s) { (void)s; return 0; }
int SSL_clear(SSL *s)
{
	if (s == NULL) die("SSL_clear on a null pointer", 0, 0);
	rlen = rpos = 0; drip = dead = 0; stall_at = -1; psk_ok = 0;
	return 1;
}
int SSL_shutdown(SSL *s)
{
	if (s == NULL) die("SSL_shutdown on a null pointer", 0, 0);
	retry_flag = CHANCE(300);
	stalled = CHANCE(500);
	return CHANCE(500) ? -1 : (int)rnd(2);
}
int SSL_connect(SSL *s) { (void)s; return 1; }
int SSL_do_handshake(SSL *s) { (void)s; return 1; }
unsigned long ERR_peek_error(void) { return rnd(2); }
unsigned long ERR_peek_last_error(void) { return rnd(2); }
unsigned long ERR_get_error(void) { return 0; }
void ERR_clear_error(void) { }
const char *ERR_reason_error_string(unsigned long e) { return e ? "some reason which OpenSSL has for failing" : NULL; }
void ERR_error_string_n(unsigned long e, char *b, size_t n) { snprintf(b, n, "error %lu", e); }

static volatile unsigned sink;
static void touch(const void *p, int n)
{
	const unsigned char *b = p;
	for (int i = 0; i < n; i++)
		if (b[i] == 'q')		/* a branch, for MemorySanitizer */
			sink++;
}

int SSL_write(SSL *s, const void *buf, int len)
{
	const char *b = buf;

	if (s == NULL) die("SSL_write on a null pointer", 0, 0);
	if (len <= 0) die("SSL_write with a length of", len, 0);
	writes++;
	touch(buf, len);
	bytes_out += (unsigned)len;
	retry_flag = 0;
	if (cb != NULL && !psk_ok) {
		unsigned mi = 1 + rnd(300), mk = 1 + rnd(300), n;
		char *id = malloc(mi);
		unsigned char *key = malloc(mk);

		n = cb(s, CHANCE(500) ? NULL : "hint", id, mi, key, mk);
		touch(id, (int)strlen(id) + 1);
		if (n > mk) die("a key longer than allowed", n, mk);
		touch(key, (int)n);
		free(id);
		free(key);
		psk_ok = 1;
	}
	note("w", len);
	if (dead || CHANCE(5)) {
		dead = 1;
		return -1;
	}
	stalled = always == 1;
	if (stalled || CHANCE(10)) {
		retry_flag = 1;
		return -1;
	}
	rlen = rpos = 0; drip = 0; stall_at = -1;
	if (len >= 4 && memcmp(b, "MOIN", 4) == 0)
		respond("MOIN 1");
	else
		respond("OKAY");
	return len;
}

int SSL_read(SSL *s, void *buf, int len)
{
	int n;

	if (s == NULL) die("SSL_read on a null pointer", 0, 0);
	if (len <= 0) die("SSL_read with a length of", len, 0);
	reads++;
	stalled = retry_flag = 0;
	if (always == 2 || (stall_at >= 0 && rpos >= stall_at) || (rpos == rlen && !dead)) {
		stalls++;
		stalled = retry_flag = 1;
		return -1;
	}
	if (rpos == rlen) {
		note("eof", 0);
		return 0;
	}
	if (CHANCE(50)) {
		retry_flag = 1;
		return -1;
	}
	n = rlen - rpos;
	if (stall_at >= 0 && n > stall_at - rpos)
		n = stall_at - rpos;
	if (drip) {
		n = 1 + (int)rnd(3) < n ? 1 + (int)rnd(3) : n;
		now += drip / 10.0;
	} else if (CHANCE(200))
		n = 1 + (int)rnd((unsigned)n);
	if (n > rlen - rpos) n = rlen - rpos;
	if (n > len) n = len;
	memcpy(buf, resp + rpos, (size_t)n);
	rpos += n;
	bytes_in += (unsigned)n;
	note("r", n);
	return n;
}

time_t fz_time(time_t *t)
{
	now += 1e-5;
	if (t != NULL)
		*t = (time_t)now;
	return (time_t)now;
}
int fz_poll(struct pollfd *p, nfds_t n, int ms)
{
	polls++;
	for (nfds_t i = 0; i < n; i++)
		touch(&p[i].fd, 4), touch(&p[i].events, 2), p[i].revents = 0;
	if (!stalled) {
		p[0].revents = p[0].events;
		now += 1e-4;
		return 1;
	}
	now += ms < 0 ? 1e6 : ms / 1000.0;
	return 0;
}
int fz_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t)
{
	polls++;
	(void)n; (void)r; (void)w; (void)e;
	if (t == NULL)
		now += stalled ? 1e6 : 0;
	else if (!stalled)
		return 1;
	else
		now += t->tv_sec + t->tv_usec / 1e6, t->tv_sec = 0, t->tv_usec = 0;
	return 0;
}

static char *text(int n)
{
	char *s = malloc((size_t)n + 1);		/* exactly sized */
	for (int i = 0; i < n; i++)
		s[i] = (char)(CHANCE(30) ? 1 + rnd(255) : 'a' + rnd(26));
	s[n] = 0;
	return s;
}
static int size(void)
{
	switch (rnd(8)) {
	case 0: return 0;
	case 1: return 900 + (int)rnd(200);
	case 2: return (int)rnd(5000);
	default: return (int)rnd(60);
	}
}

#define NC 4
static nscang_client_t *c[NC];
static int live[NC];

int main(int argc, char **argv)
{
	unsigned long long n = strtoull(argv[2], NULL, 10);
	double limit = argc > 3 ? atof(argv[3]) : 10;
	time_t t0 = time(NULL);
	unsigned long long it;

	rs = strtoull(argv[1], NULL, 10) * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
	for (it = 0; it < n && difftime(time(NULL), t0) < limit; it++) {
		int k = (int)rnd(NC), timeout = (int)rnd(6) ;
		char *errbuf = malloc(1024);
		char msg[1024];
		double s;
		int r = 0;

		now = 1700000000 + rnd(1000000) / 1000.0;
		sl = 0; script[0] = 0; saidlen = 0;
		always = CHANCE(10) ? 1 + (int)rnd(2) : 0;
		if (c[k] == NULL)
			c[k] = malloc(sizeof(*c[k]));
		if (!live[k]) {
			char *h = text(size()), *i = text(size()), *p = text(size());
			int bad = CHANCE(100);

			note("init", k);
			r = nscang_client_init(c[k], h, (int)rnd(70000) - 10, bad ? "BAD" : CHANCE(500) ? NULL : "PSK", i, p);
			free(h); free(i); free(p);
			if (r && bad) die("construction with bad ciphers succeeds", 0, 0);
			live[k] = 1 + !r;
			if (!r) {
				nscang_client_errstr(c[k], errbuf, 1024);
				touch(errbuf, (int)strlen(errbuf) + 1);
			}
		}
		if (live[k] == 2 || CHANCE(30)) {
			note("free", k);
			nscang_client_free(c[k]);
			if (CHANCE(200))
				nscang_client_free(c[k]);
			free(c[k]);
			c[k] = NULL;
			live[k] = 0;
			free(errbuf);
			continue;
		}
		calls++;
		s = now;
		{
			char *h = text(size()), *v = text(size()), *m = text(size());
			note("call", k);
#ifdef PERL
			if (CHANCE(300)) {
				char *q = malloc(strlen(m) + 64);
				static const char *const P[] = { "", "[123] ", "[", "[]", "[x] ", "[99999999999999999999] ", "[1", "\n", "[1]", "[0]\n" };
				sprintf(q, "%s%s%s", P[rnd(10)], m, CHANCE(300) ? "\n" : "");
				errno = CHANCE(500) ? ERANGE : 0;
				r = nscang_client_send_command(c[k], q, timeout);
				free(q);
			} else
#endif
			r = nscang_client_send_push(c[k], h, CHANCE(500) ? NULL : v, (int)rnd(300) - 5, m, timeout);
			free(h); free(v); free(m);
		}
		/* Connecting with the first request, three responses, two more writes. */
		if (now - s > 6 * (timeout + 1.2) + 5)
			die("waits longer than allowed: seconds, timeout", now - s, timeout);
		if (r) {
			oks++;
		} else {
			char *x;
			errs++;
			nscang_client_errstr(c[k], errbuf, 1024);
			touch(errbuf, (int)strlen(errbuf) + 1);
			if (errbuf[0] == 0) die("an error without a message", 0, 0);
			strcpy(msg, errbuf);
			/* Only what the server sent is repeated. */
			if ((strncmp(msg, "FAIL: ", 6) == 0 || strncmp(msg, "BAIL: ", 6) == 0) && msg[6] != 0
			    && strstr(msg, "invalid time stamp") == NULL) {
				x = msg + 6;
				said[saidlen] = 0;
				if (strlen(x) < 900 && memmem(said, (size_t)saidlen, x, strlen(x)) == NULL)
					die("an error message with text that the server did not send", 0, 0);
			}
			if (CHANCE(700)) {
				now = s;
				nscang_client_disconnect(c[k]);
				if (now - s > 5)
					die("disconnecting takes too long", now - s, 0);
			}
		}
		free(errbuf);
	}
	for (int k = 0; k < NC; k++)
		if (c[k] != NULL) {
			nscang_client_free(c[k]);
			free(c[k]);
		}
	printf("DONE calls=%llu ok=%llu err=%llu reads=%llu writes=%llu polls=%llu in=%llu out=%llu stalls=%llu\n", calls, oks, errs, reads, writes, polls, bytes_in, bytes_out, stalls);
	return 0;
}
