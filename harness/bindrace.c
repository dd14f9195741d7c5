/* python/client.c with many threads: objects are created, used, handed to other threads and
 * destroyed; the stand-ins for OpenSSL check that the key callback finds the right identity and
 * key for each connection.  To be built with ThreadSanitizer or AddressSanitizer. */
#include <errno.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/select.h>
#include <time.h>
#include <unistd.h>
#include <openssl/ssl.h>
#include <openssl/rand.h>
#include <openssl/err.h>
#include "client.h"

static _Thread_local unsigned long long rs;
static unsigned rnd(unsigned n)
{
	rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
	return n ? (unsigned)((rs >> 11) % n) : 0;
}
#define CHANCE(p) (rnd(1000) < (p))

/* What the stand-ins know about a connection. */
struct conn {
	char resp[64];
	int len, pos, keyed, retry;
	SSL_psk_client_cb_func cb;
	SSL_CTX *ctx;
	void *ex[8];
};
static _Thread_local struct conn *cur;
static _Thread_local const char *want_id, *want_key;
static _Thread_local char wrote[4096];
static _Thread_local int wlen;
static unsigned long long inits, frees, calls, lookups, handed, oks, failed;
#define ADD(x) __atomic_fetch_add(&x, 1, __ATOMIC_RELAXED)

static void die(const char *what, const char *a, const char *b)
{
	printf("BINDRACE %s: %.100s instead of %.100s\n", what, a, b);
	fflush(stdout);
	_exit(77);
}

SSL_CTX *SSL_CTX_new(const SSL_METHOD *m) { (void)m; return (SSL_CTX *)calloc(1, sizeof(struct conn)); }
void SSL_CTX_free(SSL_CTX *c) { free(c); }
SSL *SSL_new(SSL_CTX *c)
{
	struct conn *s = CHANCE(20) ? NULL : calloc(1, sizeof(struct conn));
	if (s != NULL) {
		s->ctx = c;
		s->cb = ((struct conn *)c)->cb;
	}
	return (SSL *)s;
}
void SSL_CTX_set_psk_client_callback(SSL_CTX *c, SSL_psk_client_cb_func f) { ((struct conn *)c)->cb = f; }
SSL_CTX *SSL_get_SSL_CTX(const SSL *s) { return ((struct conn *)s)->ctx; }
SSL_CTX *SSL_set_SSL_CTX(SSL *s, SSL_CTX *c) { ((struct conn *)s)->ctx = c; return c; }
void *SSL_get_ex_data(const SSL *s, int i) { return ((struct conn *)s)->ex[i & 7]; }
int SSL_CTX_set_ex_data(SSL_CTX *s, int i, void *p) { ((struct conn *)s)->ex[i & 7] = p; return 1; }
void *SSL_CTX_get_ex_data(const SSL_CTX *s, int i) { return ((struct conn *)s)->ex[i & 7]; }
int CRYPTO_get_ex_new_index(int c, long l, void *p, CRYPTO_EX_new *n, CRYPTO_EX_dup *d, CRYPTO_EX_free *f)
{
	static int next = 1;
	(void)c; (void)l; (void)p; (void)n; (void)d; (void)f;
	return __atomic_fetch_add(&next, 1, __ATOMIC_SEQ_CST);
}
int SSL_is_init_finished(const SSL *s) { (void)s; return 1; }
int SSL_in_init(const SSL *s) { (void)s; return 0; }
int SSL_pending(const SSL *s) { (void)s; return 0; }
int SSL_get_fd(const SSL *s) { (void)s; return 3; }
int SSL_get_rfd(const SSL *s) { (void)s; return 3; }
int SSL_get_wfd(const SSL *s) { (void)s; return 3; }
int SSL_get_shutdown(const SSL *s) { (void)s; return 0; }
void SSL_set_connect_state(SSL *s);
int SSL_connect(SSL *s) { (void)s; return 1; }
int SSL_do_handshake(SSL *s) { (void)s; return 1; }
void ERR_error_string_n(unsigned long e, char *b, size_t n) { snprintf(b, n, "error %lu", e); }
void SSL_free(SSL *s) { free(s); }
BIO *BIO_new(const BIO_METHOD *m) { (void)m; static char bio[16]; return (BIO *)(void *)bio; }
const BIO_METHOD *BIO_s_connect(void) { return NULL; }
int BIO_free(BIO *b) { (void)b; return 1; }
void BIO_free_all(BIO *b) { (void)b; }
const SSL_METHOD *TLS_client_method(void) { return NULL; }
const SSL_METHOD *TLS_method(void) { return NULL; }
int SSL_CTX_set_cipher_list(SSL_CTX *c, const char *s) { (void)c; return strcmp(s, "BAD") != 0; }
void SSL_CTX_set_verify(SSL_CTX *c, int m, SSL_verify_cb f) { (void)c; (void)m; (void)f; }
void SSL_set_verify(SSL *s, int m, SSL_verify_cb f) { (void)s; (void)m; (void)f; }
int SSL_CTX_set_ciphersuites(SSL_CTX *c, const char *s) { (void)c; (void)s; return 1; }
uint64_t SSL_set_options(SSL *s, uint64_t o) { (void)s; return o; }
uint64_t SSL_CTX_get_options(const SSL_CTX *c) { (void)c; return 0; }
int SSL_get_verify_mode(const SSL *s) { (void)s; return SSL_VERIFY_PEER; }
int RAND_bytes(unsigned char *b, int n) { static unsigned char k; int i; for (i = 0; i < n; i++) b[i] = (unsigned char)(__atomic_add_fetch(&k, 1, __ATOMIC_RELAXED) * 37); return 1; }
uint64_t SSL_CTX_set_options(SSL_CTX *c, uint64_t o) { (void)c; return o; }
long SSL_CTX_ctrl(SSL_CTX *c, int a, long b, void *d) { (void)c; (void)a; (void)b; (void)d; return 1; }
void SSL_set_bio(SSL *s, BIO *a, BIO *b) { (void)s; (void)a; (void)b; }
void SSL_set_connect_state(SSL *s) { (void)s; }
long SSL_ctrl(SSL *s, int a, long b, void *d) { (void)s; (void)a; (void)b; (void)d; return 1; }
void SSL_set_psk_client_callback(SSL *s, SSL_psk_client_cb_func f) { ((struct conn *)s)->cb = f; }
int SSL_set_session(SSL *s, SSL_SESSION *x) { (void)s; (void)x; return 1; }
int SSL_set_ex_data(SSL *s, int i, void *p) { ((struct conn *)s)->ex[i & 7] = p; return 1; }
long BIO_ctrl(BIO *b, int cmd, long l, void *p)
{
	(void)b; (void)l;
	if (cmd == BIO_C_GET_FD) {
		if (p != NULL)
			*(int *)p = 3;
		return 3;
	}
	return 1;
}
long BIO_int_ctrl(BIO *b, int c, long l, int i) { (void)b; (void)c; (void)l; (void)i; return 1; }
int BIO_test_flags(const BIO *b, int f) { (void)b; return cur != NULL && cur->retry ? f & BIO_FLAGS_SHOULD_RETRY : 0; }
int SSL_want(const SSL *s) { (void)s; return SSL_NOTHING; }
int SSL_get_error(const SSL *s, int r) { (void)s; return r > 0 ? SSL_ERROR_NONE : ((struct conn *)s)->retry ? SSL_ERROR_WANT_READ : SSL_ERROR_SYSCALL; }
int SSL_clear(SSL *s) { struct conn *c = (struct conn *)s; c->len = c->pos = c->keyed = 0; return 1; }
int SSL_shutdown(SSL *s) { cur = (struct conn *)s; cur->retry = CHANCE(100); return (int)rnd(3) - 1; }
unsigned long ERR_peek_error(void) { return 0; }
unsigned long ERR_peek_last_error(void) { return 0; }
unsigned long ERR_get_error(void) { return 0; }
void ERR_clear_error(void) { }
const char *ERR_reason_error_string(unsigned long e) { (void)e; return "reason"; }

int SSL_write(SSL *s, const void *buf, int len)
{
	struct conn *c = cur = (struct conn *)s;
	char id[300];
	unsigned char key[300];
	unsigned n;

	c->retry = 0;
	if (!c->keyed && c->cb != NULL) {
		memset(id, 0, sizeof(id)); memset(key, 0, sizeof(key));
		if (CHANCE(50))
			sched_yield();
		n = c->cb(s, NULL, id, 256, key, 256);
		ADD(lookups);
		if (want_id != NULL) {
			if (strcmp(id, want_id) != 0)
				die("identity", id, want_id);
			if (n != strlen(want_key) || memcmp(key, want_key, n) != 0)
				die("key", (char *)key, want_key);
		}
		c->keyed = 1;
	}
	if (CHANCE(10)) {
		c->retry = CHANCE(800);
		return -1;
	}
	if (wlen + len < (int)sizeof(wrote)) {
		memcpy(wrote + wlen, buf, (size_t)len);
		wlen += len;
	}
	strcpy(c->resp, len > 4 && memcmp(buf, "MOIN", 4) == 0 ? "MOIN 1\r\n" : CHANCE(30) ? "FAIL no\r\n" : "OKAY\r\n");
	c->len = (int)strlen(c->resp);
	c->pos = 0;
	return len;
}

int SSL_read(SSL *s, void *buf, int len)
{
	struct conn *c = cur = (struct conn *)s;
	int n = c->len - c->pos;

	c->retry = 0;
	if (CHANCE(20)) {
		c->retry = 1;
		if (CHANCE(100))
			sched_yield();
		return -1;
	}
	if (n > len) n = len;
	memcpy(buf, c->resp + c->pos, (size_t)n);
	c->pos += n;
	return n;
}

time_t fz_time(time_t *t)
{
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	if (t != NULL)
		*t = ts.tv_sec;
	return ts.tv_sec;
}
int fz_poll(struct pollfd *p, nfds_t n, int ms) { (void)ms; if (n) p[0].revents = p[0].events; return 1; }
int fz_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) { (void)n; (void)r; (void)w; (void)e; (void)t; return 1; }

struct box {
	nscang_client_t c;
	char id[40], key[40];
};
#define SHARED 8
static struct box *shelf[SHARED];
static pthread_mutex_t shelf_lock = PTHREAD_MUTEX_INITIALIZER;
static int stop;
static unsigned long long seed;
static double limit;

static struct box *make(int me, unsigned n)
{
	struct box *b = malloc(sizeof(*b));
	char i[40], k[40];

	snprintf(b->id, sizeof(b->id), "id-%d-%u", me, n);
	snprintf(b->key, sizeof(b->key), "key-%d-%u-%u", me, n, rnd(1000));
	strcpy(i, b->id); strcpy(k, b->key);
	ADD(inits);
	if (!nscang_client_init(&b->c, "host", 5668, CHANCE(50) ? "BAD" : CHANCE(500) ? NULL : "PSK", i, k)) {
		ADD(failed);
		nscang_client_free(&b->c);
		free(b);
		return NULL;
	}
	memset(i, 'z', sizeof(i) - 1); memset(k, 'z', sizeof(k) - 1);	/* the strings are not ours any more */
	return b;
}

static void drop(struct box *b)
{
	want_id = b->id; want_key = b->key;
	nscang_client_free(&b->c);
	want_id = want_key = NULL;
	ADD(frees);
	free(b);
}

static void use(struct box *b)
{
	char text[80];
	int r;

	snprintf(text, sizeof(text), ";%s;%u\n", b->id, rnd(1u << 30));
	want_id = b->id; want_key = b->key;
	wlen = 0;
	text[strlen(text) - 1] = 0;
	r = nscang_client_send_push(&b->c, b->id, CHANCE(500) ? NULL : "svc", 0, text, 5);
	strcat(text, "\n");
	ADD(calls);
	if (r) {
		ADD(oks);
		if (memmem(wrote, (size_t)wlen, text, strlen(text)) == NULL)
			die("command", "something else", text);
	} else
		nscang_client_disconnect(&b->c);
	want_id = want_key = NULL;
}

static void *work(void *arg)
{
	int me = (int)(long)arg;
	struct box *mine[6] = { 0 };
	unsigned n = 0;

	rs = (seed * 64 + (unsigned long long)me + 1) * 0x9E3779B97F4A7C15ull;
	while (!__atomic_load_n(&stop, __ATOMIC_RELAXED)) {
		int k = (int)rnd(6);

		if (mine[k] == NULL)
			mine[k] = make(me, n++);
		else if (CHANCE(200)) {
			drop(mine[k]);
			mine[k] = NULL;
		} else if (CHANCE(200)) {
			/* Exchange it for somebody else's. */
			int j = (int)rnd(SHARED);
			struct box *o;
			pthread_mutex_lock(&shelf_lock);
			o = shelf[j]; shelf[j] = mine[k]; mine[k] = o;
			pthread_mutex_unlock(&shelf_lock);
			ADD(handed);
		} else
			use(mine[k]);
	}
	for (int k = 0; k < 6; k++)
		if (mine[k] != NULL)
			drop(mine[k]);
	return NULL;
}

int main(int argc, char **argv)
{
	int n = atoi(argv[2]);
	pthread_t t[64];

	(void)argc;
	seed = strtoull(argv[1], NULL, 10);
	limit = atof(argv[3]);
	rs = seed + 99;
	for (int i = 0; i < n; i++)
		pthread_create(&t[i], NULL, work, (void *)(long)i);
	usleep((useconds_t)(limit * 1e6));
	__atomic_store_n(&stop, 1, __ATOMIC_RELAXED);
	for (int i = 0; i < n; i++)
		pthread_join(t[i], NULL);
	for (int i = 0; i < SHARED; i++)
		if (shelf[i] != NULL)
			drop(shelf[i]);
	printf("DONE inits=%llu failed=%llu frees=%llu calls=%llu ok=%llu lookups=%llu handed=%llu\n", inits, failed, frees, calls, oks, lookups, handed);
	return 0;
}
