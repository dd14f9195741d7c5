/* Linked into the programs under test: the callbacks that OpenSSL calls for identity and key get
 * buffers of exactly the size they are told, so that a sanitizer sees when they go beyond. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <openssl/ssl.h>

#ifdef __clang__
# if __has_feature(memory_sanitizer)
#  include <sanitizer/msan_interface.h>
#  define INITIALISED(p, n) __msan_check_mem_is_initialized((p), (n))
# endif
#endif
#ifndef INITIALISED
# define INITIALISED(p, n) ((void)0)
#endif

static SSL_psk_client_cb_func client_cb;
static SSL_psk_server_cb_func server_cb;

static unsigned
client_psk(SSL *ssl, const char *hint, char *id, unsigned max_id, unsigned char *psk, unsigned max_psk)
{
	char *i = malloc(max_id);
	unsigned char *p = malloc(max_psk);
	unsigned n;
	size_t len;

	if (i == NULL || p == NULL)
		return 0;
	n = client_cb(ssl, hint, i, max_id, p, max_psk);
	if (n > 0) {
		if (n > max_psk) {
			fprintf(stderr, "pskshim: a key of %u bytes, where %u are allowed\n", n, max_psk);
			abort();
		}
		len = strlen(i) + 1;	/* ASan sees if it isn't terminated. */
		INITIALISED(i, len);
		INITIALISED(p, n);
		memcpy(id, i, len);
		memcpy(psk, p, n);
	}
	free(i);
	free(p);
	return n;
}

static unsigned
server_psk(SSL *ssl, const char *id, unsigned char *psk, unsigned max_psk)
{
	unsigned char *p = malloc(max_psk);
	char *i = id != NULL ? strdup(id) : NULL;
	unsigned n;

	if (p == NULL)
		return 0;
	n = server_cb(ssl, i, p, max_psk);
	if (n > max_psk) {
		fprintf(stderr, "pskshim: a key of %u bytes, where %u are allowed\n", n, max_psk);
		abort();
	}
	if (n > 0) {
		INITIALISED(p, n);
		memcpy(psk, p, n);
	}
	free(p);
	free(i);
	return n;
}

#define NEXT(name, type) do { \
	static void (*next)(type *, void *); \
	if (next == NULL) \
		next = (void (*)(type *, void *))dlsym(RTLD_NEXT, name); \
	next(p, f == NULL ? NULL : mine); \
} while (0)

void SSL_set_psk_client_callback(SSL *p, SSL_psk_client_cb_func f)
{
	void *mine = (void *)client_psk;
	client_cb = f;
	NEXT("SSL_set_psk_client_callback", SSL);
}
void SSL_CTX_set_psk_client_callback(SSL_CTX *p, SSL_psk_client_cb_func f)
{
	void *mine = (void *)client_psk;
	client_cb = f;
	NEXT("SSL_CTX_set_psk_client_callback", SSL_CTX);
}
void SSL_set_psk_server_callback(SSL *p, SSL_psk_server_cb_func f)
{
	void *mine = (void *)server_psk;
	server_cb = f;
	NEXT("SSL_set_psk_server_callback", SSL);
}
void SSL_CTX_set_psk_server_callback(SSL_CTX *p, SSL_psk_server_cb_func f)
{
	void *mine = (void *)server_psk;
	server_cb = f;
	NEXT("SSL_CTX_set_psk_server_callback", SSL_CTX);
}
