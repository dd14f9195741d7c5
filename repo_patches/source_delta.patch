From c7ce90cbe23c3bfc7f3c8b0b5eeb5727ecdd25f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:00 +0000
Subject: [PATCH 01/58] fix: do not leak the client-supplied identity when the
 handshake fails

---
 src/common/tls.c  | 5 ++++-
 src/server/auth.c | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/common/tls.c b/src/common/tls.c
index 9b89bce..3986876 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -534,8 +534,10 @@ tls_free(tls_state *tls)
 		free(tls->id);
 	if (tls->peer != NULL)
 		free(tls->peer);
-	if (tls->ssl != NULL)
+	if (tls->ssl != NULL) {
+		free(SSL_get_app_data(tls->ssl)); /* See check_psk(). */
 		SSL_free(tls->ssl);
+	}
 
 	free(tls);
 }
@@ -638,6 +640,7 @@ accept_ssl_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
 			error("Cannot retrieve client identity");
 			tls_free(tls);
 		} else {
+			(void)SSL_set_app_data(tls->ssl, NULL); /* Now ours. */
 			xasprintf(&tls->peer, "%s@%s", tls->id, tls->addr);
 			debug("TLS handshake with %s successful", tls->peer);
 			ev_io_stop(EV_A_ w);
diff --git a/src/server/auth.c b/src/server/auth.c
index f76124c..f942698 100644
--- a/src/server/auth.c
+++ b/src/server/auth.c
@@ -31,6 +31,7 @@
 
 #include <sys/types.h>
 #include <regex.h>
+#include <stdlib.h>
 #include <string.h>
 
 #include <confuse.h>
@@ -66,8 +67,10 @@ check_psk(SSL *ssl, const char *identity, unsigned char *password,
 
 	/*
 	 * With (at least) OpenSSL 1.1.1b, SSL_get_psk_identity(3) returns NULL
-	 * when TLSv1.3 is used.  As a workaround, we store the ID ourselves:
+	 * when TLSv1.3 is used.  As a workaround, we store the ID ourselves.
+	 * This callback may be called more than once per handshake.
 	 */
+	free(SSL_get_app_data(ssl));
 	if (SSL_set_app_data(ssl, xstrdup(identity)) != 1) {
 		error("Cannot store client-supplied ID (`%s')", identity);
 		return 0;
-- 
2.43.0


From c59b6efdc30c8c88d3c92e1f38f75147082fb030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:15 +0000
Subject: [PATCH 02/58] fix: accept lists for the global commands, hosts and
 services settings

---
 src/server/conf.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/server/conf.c b/src/server/conf.c
index 6bed98f..08b7fa1 100644
--- a/src/server/conf.c
+++ b/src/server/conf.c
@@ -109,15 +109,15 @@ conf_parse(const char *path)
 		CFG_FUNC("include", include_cb),
 		CFG_STR("chroot", NULL, CFGF_NODEFAULT),
 		CFG_STR("command_file", DEFAULT_COMMAND_FILE, CFGF_NONE),
-		CFG_STR("commands", NULL, CFGF_NODEFAULT),
-		CFG_STR("hosts", NULL, CFGF_NODEFAULT),
+		CFG_STR_LIST("commands", NULL, CFGF_NODEFAULT),
+		CFG_STR_LIST("hosts", NULL, CFGF_NODEFAULT),
 		CFG_STR("listen", DEFAULT_LISTEN, CFGF_NONE),
 		CFG_INT("log_level", DEFAULT_LOG_LEVEL, CFGF_NONE),
 		CFG_INT("max_command_size", DEFAULT_MAX_COMMAND_SIZE, CFGF_NONE),
 		CFG_INT("max_queue_size", DEFAULT_MAX_QUEUE_SIZE, CFGF_NONE),
 		CFG_STR("password", NULL, CFGF_NODEFAULT),
 		CFG_STR("pid_file", NULL, CFGF_NODEFAULT),
-		CFG_STR("services", NULL, CFGF_NODEFAULT),
+		CFG_STR_LIST("services", NULL, CFGF_NODEFAULT),
 		CFG_STR("temp_directory", DEFAULT_TEMP_DIRECTORY, CFGF_NONE),
 		CFG_STR("tls_ciphers", DEFAULT_TLS_CIPHERS, CFGF_NONE),
 		CFG_FLOAT("timeout", DEFAULT_TIMEOUT, CFGF_NONE),
-- 
2.43.0


From 62ac82a60821f1ea75066950513f7ee6f59c0c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:25 +0000
Subject: [PATCH 03/58] fix: anchor authorization patterns with alternations as
 a whole

---
 src/server/conf.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/server/conf.c b/src/server/conf.c
index 08b7fa1..8edaf51 100644
--- a/src/server/conf.c
+++ b/src/server/conf.c
@@ -241,7 +241,7 @@ host_to_command(const char *host_pattern)
 {
 	char *command_pattern;
 
-	xasprintf(&command_pattern, "PROCESS_HOST_CHECK_RESULT;%s;.+",
+	xasprintf(&command_pattern, "PROCESS_HOST_CHECK_RESULT;(%s);.+",
 	    host_pattern);
 
 	return command_pattern;
@@ -262,7 +262,7 @@ service_to_command(const char *service_pattern)
 	service_part = pattern;
 
 	xasprintf(&command_pattern,
-	    "PROCESS_SERVICE_CHECK_RESULT;%s;%s;.+;.+",
+	    "PROCESS_SERVICE_CHECK_RESULT;(%s);(%s);.+;.+",
 	    host_part, service_part);
 
 	free(pattern);
@@ -302,7 +302,7 @@ parse_command_pattern_cb(cfg_t * restrict cfg, cfg_opt_t * restrict opt,
 	char errbuf[128];
 	int success;
 
-	xasprintf(&pattern, "^%s\n?$", value);
+	xasprintf(&pattern, "^(%s)\n?$", value);
 	*re = xmalloc(sizeof(regex_t));
 	if ((success = regcomp(*re, pattern, REG_EXTENDED | REG_NOSUB)) != 0) {
 		(void)regerror(success, *re, errbuf, sizeof(errbuf));
-- 
2.43.0


From 534032a1808f7d7cff9571c62527542804cefd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:55 +0000
Subject: [PATCH 04/58] fix: don't skip arbitrary text before the first closing
 bracket as timestamp

---
 src/server/auth.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/server/auth.c b/src/server/auth.c
index f942698..365e0fd 100644
--- a/src/server/auth.c
+++ b/src/server/auth.c
@@ -88,7 +88,7 @@ is_authorized(const char * restrict identity, const char * restrict command)
 	const char *settings[] = { "hosts", "services", "commands" };
 	cfg_t *auth;
 	char *newline;
-	size_t i;
+	size_t i, len;
 
 	if ((auth = hash_lookup(identity)) == NULL
 	    && (auth = hash_lookup("*")) == NULL) {
@@ -107,12 +107,13 @@ is_authorized(const char * restrict identity, const char * restrict command)
 		return false;
 	}
 	/* Match against the command without the leading bracketed timestamp. */
-	if ((command = strchr(command, ']')) == NULL) {
+	len = *command == '[' ? strspn(command + 1, "0123456789") : 0;
+	if (len == 0 || command[len + 1] != ']') {
 		warning("Timestamp missing from command submitted by %s",
 		    identity);
 		return false;
 	}
-	command = skip_whitespace(command + 1);
+	command = skip_whitespace(command + len + 2);
 
 	for (i = 0; i < sizeof(settings) / sizeof(*settings); i++) {
 		cfg_opt_t *opt = cfg_getopt(auth, settings[i]);
-- 
2.43.0


From 457865897b0e96765defc486799b8b371e9a6333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:10 +0000
Subject: [PATCH 05/58] fix: refuse commands with embedded NUL bytes

---
 src/server/server.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/server/server.c b/src/server/server.c
index 0fcd193..cde671a 100644
--- a/src/server/server.c
+++ b/src/server/server.c
@@ -233,7 +233,9 @@ handle_push(tls_state * restrict tls, char * restrict data)
 
 	info("%s C: %.*s", tls->peer, width, data);
 
-	if (is_authorized(tls->id, data)) {
+	/* What follows an embedded NUL byte would escape the authorization. */
+	if (strlen(data) == connection->input_length
+	    && is_authorized(tls->id, data)) {
 		notice("Queuing data from %s: %.*s", tls->peer, width, data);
 		fifo_write(connection->ctx->fifo, data,
 		    connection->input_length, free);
-- 
2.43.0


From f19fb067fc3bd8e9a9cdf3d4988327735bdd5246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:47 +0000
Subject: [PATCH 06/58] fix: close the spool file when writing it failed

---
 src/server/fifo.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/server/fifo.c b/src/server/fifo.c
index df044ec..de8f1aa 100644
--- a/src/server/fifo.c
+++ b/src/server/fifo.c
@@ -402,14 +402,16 @@ async_cb(EV_P_ ev_async *w, int revents __attribute__((__unused__)))
 	fifo->free_aio_buf((void *)fifo->async_cb.aio_buf);
 	fifo->async_cb.aio_buf = NULL;
 
-	if ((result = aio_error(&fifo->async_cb)) != 0)
+	if ((result = aio_error(&fifo->async_cb)) != 0) {
 		error("Cannot write to %s: %s", fifo->dump_file,
 		    strerror(result));
-	else if ((n = aio_return(&fifo->async_cb))
-	    != (ssize_t)fifo->async_cb.aio_nbytes) /* Presumably an error. */
+		(void)close_dump_file(fifo);
+	} else if ((n = aio_return(&fifo->async_cb))
+	    != (ssize_t)fifo->async_cb.aio_nbytes) { /* Presumably an error. */
 		error("Wrote %zd instead of %zu bytes to %s", n,
 		    fifo->async_cb.aio_nbytes, fifo->dump_file);
-	else {
+		(void)close_dump_file(fifo);
+	} else {
 		char *command = make_process_file_command(fifo);
 
 		debug("Wrote %zd bytes to %s", n, fifo->dump_file);
-- 
2.43.0


From d2af5056fa6c7ef1c4b4cf6d06e7821fc6072941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:20 +0000
Subject: [PATCH 07/58] fix: go on reading requests after a NOOP

---
 src/server/server.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server/server.c b/src/server/server.c
index cde671a..c67d6f3 100644
--- a/src/server/server.c
+++ b/src/server/server.c
@@ -194,9 +194,10 @@ handle_connection(tls_state * restrict tls, char * restrict line)
 
 	info("%s C: %s", tls->peer, line);
 
-	if (strncasecmp("NOOP", line, 4) == 0)
+	if (strncasecmp("NOOP", line, 4) == 0) {
 		send_response(tls, "OKAY");
-	else if (strncasecmp("PUSH", line, 4) == 0) {
+		tls_read_line(tls, handle_connection);
+	} else if (strncasecmp("PUSH", line, 4) == 0) {
 		if (!parse_line(line, args, 2)) {
 			warning("Cannot parse PUSH request from %s", tls->peer);
 			send_response(tls, "FAIL Cannot parse PUSH request");
-- 
2.43.0


From 1b190a1a30c53acf6c1610b0ea4df5837ff197fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 08/58] fix: don't let read and write callbacks trigger each
 other forever

---
 src/common/tls.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/common/tls.c b/src/common/tls.c
index 3986876..c4bda66 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -61,9 +61,10 @@
  *   connection), such a call has to be followed by a check whether the `ev_io'
  *   watcher for the opposite I/O direction is currently active.  If so, we use
  *   ev_feed_event() to feed the event that watcher is waiting for into the
- *   event loop (we check the `events' member of the `ev_io' struct to find out
- *   whether it's EV_READ or EV_WRITE).  This forces an SSL_read()/SSL_write()
- *   call, which updates the state of that stream.
+ *   event loop, provided that this isn't the event it usually waits for (we
+ *   check the `events' member of the `ev_io' struct to find out whether it's
+ *   EV_READ or EV_WRITE).  This forces an SSL_read()/SSL_write() call, which
+ *   updates the state of that stream.
  *
  * For additional explanations, see the relevant OpenSSL man pages and the
  * following thread:
@@ -154,7 +155,7 @@ static void start_shutdown(tls_state *);
 static char *read_line(tls_state *);
 static char *read_bytes(tls_state *);
 static void write_buffered(tls_state * restrict, const void * restrict, size_t);
-static void reset_watcher_state(EV_P_ ev_io *);
+static void reset_watcher_state(EV_P_ ev_io *, int);
 static void check_tls_error(EV_P_ ev_io *, int);
 static void log_tls_message(void (*)(const char *, ...), const char *, ...);
 static bool get_peer_address(int, char *, socklen_t);
@@ -655,7 +656,7 @@ read_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
 	tls_state *tls = w->data;
 	char *data;
 
-	reset_watcher_state(EV_A_ &tls->write_watcher);
+	reset_watcher_state(EV_A_ &tls->write_watcher, EV_WRITE);
 	tls->last_activity = ev_now(EV_A);
 
 	data = tls->read_mode == READ_LINE ? read_line(tls) : read_bytes(tls);
@@ -672,7 +673,7 @@ write_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
 	tls_state *tls = w->data;
 	int n;
 
-	reset_watcher_state(EV_A_ &tls->read_watcher);
+	reset_watcher_state(EV_A_ &tls->read_watcher, EV_READ);
 	tls->last_activity = ev_now(EV_A);
 
 	do {
@@ -881,11 +882,17 @@ write_buffered(tls_state * restrict tls, const void * restrict data, size_t size
 }
 
 static void
-reset_watcher_state(EV_P_ ev_io *w)
+reset_watcher_state(EV_P_ ev_io *w, int direction)
 {
 	tls_state *tls = w->data;
 
-	if (ev_is_active(w)) {
+	/*
+	 * If the watcher is waiting for I/O readiness in its own direction, it
+	 * won't miss that.  We mustn't feed it an event in this case, as
+	 * read_cb() and write_cb() would then trigger each other forever
+	 * (without returning to the event loop) while neither can proceed.
+	 */
+	if (ev_is_active(w) && !(w->events & direction)) {
 		debug("Resetting %s watcher state for %s",
 		    w == &tls->read_watcher ? "input" : "output", tls->peer);
 		ev_feed_event(EV_A_ w, w->events);
-- 
2.43.0


From fe705e906aa89edef22a303440b9ca44d927946d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:17 +0000
Subject: [PATCH 09/58] fix: refuse command sizes that are out of range or
 followed by garbage

---
 src/server/server.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/server/server.c b/src/server/server.c
index c67d6f3..efa9e41 100644
--- a/src/server/server.c
+++ b/src/server/server.c
@@ -32,6 +32,8 @@
 #if HAVE_AIO_INIT
 # include <aio.h>
 #endif
+#include <errno.h>
+#include <limits.h>
 #include <stdarg.h>
 #include <stdlib.h>
 #include <string.h>
@@ -68,6 +70,7 @@ static void handle_push(tls_state * restrict, char * restrict);
 static void handle_error(tls_state *);
 static void handle_timeout(tls_state *);
 static void handle_line_too_long(tls_state *);
+static int parse_size(const char *);
 static void send_response(tls_state * restrict, const char * restrict);
 static void bail(tls_state * restrict, const char * restrict, ...)
                  __attribute__((__format__(__printf__, 2, 3)));
@@ -202,7 +205,7 @@ handle_connection(tls_state * restrict tls, char * restrict line)
 			warning("Cannot parse PUSH request from %s", tls->peer);
 			send_response(tls, "FAIL Cannot parse PUSH request");
 			tls_read_line(tls, handle_connection);
-		} else if ((data_size = atoi(args[1])) <= 0) {
+		} else if ((data_size = parse_size(args[1])) <= 0) {
 			warning("Expected number of bytes from %s", tls->peer);
 			send_response(tls, "FAIL Expected number of bytes");
 			tls_read_line(tls, handle_connection);
@@ -268,6 +271,19 @@ handle_line_too_long(tls_state *tls)
 	bail(tls, "Request line too long");
 }
 
+static int
+parse_size(const char *string)
+{
+	char *end;
+	long size;
+
+	errno = 0;
+	size = strtol(string, &end, 10);
+
+	return errno != 0 || *end != '\0' || size < 0 || size > INT_MAX
+	    ? -1 : (int)size;
+}
+
 static void
 send_response(tls_state * restrict tls, const char * restrict response)
 {
-- 
2.43.0


From 4ef7bf3f93458afa6ff3cd3c747ea153c6748d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:09 +0000
Subject: [PATCH 10/58] fix: don't leave OpenSSL errors behind that kill other
 connections

---
 src/common/tls.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/common/tls.c b/src/common/tls.c
index c4bda66..7fdb75e 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -967,6 +967,13 @@ check_tls_error(EV_P_ ev_io *w, int code)
 		error_f("Unknown OpenSSL error (%s)", peer);
 	}
 
+	/*
+	 * All connections share a single error queue.  If we left an error in
+	 * there (such as one raised by SSL_shutdown() during the handshake),
+	 * SSL_get_error() would report it for some other connection.
+	 */
+	ERR_clear_error();
+
 	if (tls->error_handler != NULL)
 		tls->error_handler(tls);
 
-- 
2.43.0


From cb691727a4cf92b81aedfa2dd0ddddda0b2274b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:01 +0000
Subject: [PATCH 11/58] fix: close the socket of a connection that's gone
 before the handshake

---
 src/common/tls.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/tls.c b/src/common/tls.c
index 7fdb75e..d0a3657 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -538,7 +538,8 @@ tls_free(tls_state *tls)
 	if (tls->ssl != NULL) {
 		free(SSL_get_app_data(tls->ssl)); /* See check_psk(). */
 		SSL_free(tls->ssl);
-	}
+	} else if (tls->bio != NULL)
+		BIO_free_all(tls->bio); /* SSL_set_bio() wasn't called. */
 
 	free(tls);
 }
-- 
2.43.0


From 7271723601fcc484162f45b0aaf035170f2755aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:32 +0000
Subject: [PATCH 12/58] fix: finish a pending asynchronous write before freeing
 its memory at shutdown

---
 src/server/fifo.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/server/fifo.c b/src/server/fifo.c
index de8f1aa..6b2c82e 100644
--- a/src/server/fifo.c
+++ b/src/server/fifo.c
@@ -201,8 +201,16 @@ fifo_stop(fifo_state *fifo)
 	debug("Stopping command file writer");
 
 #if HAVE_POSIX_AIO
-	if (ev_is_active(&fifo->async_watcher))
-		ev_async_stop(EV_DEFAULT_UC_ &fifo->async_watcher);
+	/* A pending write request (and its signal) would refer to our memory. */
+	while (ev_is_active(&fifo->async_watcher)) {
+		const struct aiocb *list[1];
+
+		list[0] = &fifo->async_cb;
+		while (aio_error(&fifo->async_cb) == EINPROGRESS)
+			(void)aio_suspend(list, 1, NULL);
+		ev_invoke(EV_DEFAULT_UC_ &fifo->async_watcher, EV_CUSTOM);
+	}
+	(void)signal(SIG_AIO, SIG_IGN);
 #else
 	if (ev_is_active(&fifo->idle_watcher))
 		ev_idle_stop(EV_DEFAULT_UC_ &fifo->idle_watcher);
-- 
2.43.0


From 177876d7e24ebf71574ac795dfa2299a897c0b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:44 +0000
Subject: [PATCH 13/58] fix: don't free PID file handle and configuration twice
 if restarting fails

---
 src/server/nsca-ng.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/server/nsca-ng.c b/src/server/nsca-ng.c
index b14a1cf..61e2edf 100644
--- a/src/server/nsca-ng.c
+++ b/src/server/nsca-ng.c
@@ -372,8 +372,9 @@ drop_privileges(const char *user, const char *new_root)
 static void
 remove_pidfile(void)
 {
-	if (pid_file != NULL && pidfile_remove(pfh) == -1) {
-		error("Cannot remove %s: %m", pid_file);
+	if (pid_file != NULL) {
+		if (pidfile_remove(pfh) == -1)
+			error("Cannot remove %s: %m", pid_file);
 		pid_file = NULL; /* Don't retry removing the PID file. */
 	}
 }
@@ -394,6 +395,7 @@ forget_config(void)
 			}
 		}
 		cfg_free(cfg);
+		cfg = NULL; /* Don't free it twice if we fail to restart. */
 	}
 }
 
-- 
2.43.0


From 373c20b5857e98c3462547dd8a1026222c9636a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:15 +0000
Subject: [PATCH 14/58] fix: don't pass a null pointer to printf() when
 checking a handshake's timeout

---
 src/common/tls.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/tls.c b/src/common/tls.c
index d0a3657..e8e6e5f 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -744,17 +744,17 @@ static void
 timeout_cb(EV_P_ ev_timer *w, int revents __attribute__((__unused__)))
 {
 	tls_state *tls = w->data;
+	const char *peer = tls->peer != NULL ? tls->peer : tls->addr;
 	ev_tstamp diff = tls->last_activity + tls->timeout - ev_now(EV_A);
 
 	if (diff > 0.0) {
 		debug("Resetting timeout watcher for %s, %.2f seconds left",
-		    tls->peer, (double)diff);
+		    peer, (double)diff);
 
 		ev_timer_set(w, diff, 0.0);
 		ev_timer_start(EV_A_ w);
 	} else {
-		warning_f("Connection to %s timed out",
-		    tls->peer != NULL ? tls->peer : tls->addr);
+		warning_f("Connection to %s timed out", peer);
 
 		if (ev_is_active(&tls->init_watcher))
 			ev_io_stop(EV_DEFAULT_UC_ &tls->init_watcher);
-- 
2.43.0


From 6780485d8b40e7fcd9e691eddaa11d9d950b43e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 15/58] fix: quote the path when including the files of a
 directory

---
 src/server/conf.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/server/conf.c b/src/server/conf.c
index 8edaf51..3354b06 100644
--- a/src/server/conf.c
+++ b/src/server/conf.c
@@ -157,12 +157,20 @@ conf_parse(const char *path)
 static int
 parse_include(cfg_t * restrict cfg, const char * restrict path)
 {
-	char *include_statement;
+	char *include_statement, *quoted_path, *p;
 	int status;
 
-	xasprintf(&include_statement, "include('%s')", path);
+	quoted_path = p = xmalloc(2 * strlen(path) + 1);
+	do {
+		if (*path == '\'' || *path == '\\')
+			*p++ = '\\';
+		*p++ = *path;
+	} while (*path++ != '\0');
+
+	xasprintf(&include_statement, "include('%s')", quoted_path);
 	status = cfg_parse_buf(cfg, include_statement);
 	free(include_statement);
+	free(quoted_path);
 	return status;
 }
 
-- 
2.43.0


From ed9f2c193ed284a1f3af0c6ebdf979b36ec6369b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:07 +0000
Subject: [PATCH 16/58] fix: refuse log levels that are negative or not a
 number

---
 src/server/nsca-ng.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server/nsca-ng.c b/src/server/nsca-ng.c
index 61e2edf..6bed594 100644
--- a/src/server/nsca-ng.c
+++ b/src/server/nsca-ng.c
@@ -244,6 +244,7 @@ get_options(int argc, char **argv)
 	extern char *optarg;
 	options *opt = xmalloc(sizeof(options));
 	int option;
+	char c;
 
 	opt->bind = NULL;
 	opt->conf_file = NULL;
@@ -285,7 +286,9 @@ get_options(int argc, char **argv)
 		case 'h':
 			usage(EXIT_SUCCESS);
 		case 'l':
-			opt->log_level = atoi(optarg);
+			if (sscanf(optarg, "%d%c", &opt->log_level, &c) != 1
+			    || opt->log_level < 0)
+				die("-l argument must be a positive integer");
 			break;
 		case 'P':
 			if (opt->pid_file != NULL)
-- 
2.43.0


From 49b305acef2c6090c96f975b5c9151a81ce370c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:31 +0000
Subject: [PATCH 17/58] fix: survive SIGHUP when socket activated

---
 src/server/nsca-ng.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/server/nsca-ng.c b/src/server/nsca-ng.c
index 6bed594..0d83115 100644
--- a/src/server/nsca-ng.c
+++ b/src/server/nsca-ng.c
@@ -82,7 +82,7 @@ static ev_signal sighup_watcher, sigint_watcher, sigterm_watcher;
 
 static options *get_options(int, char **);
 static void free_options(options *);
-static void close_descriptors(void);
+static void close_descriptors(int);
 static void drop_privileges(const char *, const char *);
 static void remove_pidfile(void);
 static void forget_config(void);
@@ -109,8 +109,8 @@ main(int argc, char **argv)
 		die("Received too many sockets from init system");
 	else if (socket_activated == 1)
 		log_set(-1, LOG_TARGET_SYSTEMD);
-	else /* socket_activated == 0 */
-		close_descriptors();
+
+	close_descriptors(SD_LISTEN_FDS_START + socket_activated);
 
 	if (atexit(log_close) != 0 || atexit(forget_config) != 0)
 		die("Cannot register function to be called on exit");
@@ -230,6 +230,9 @@ main(int argc, char **argv)
 		remove_pidfile();
 		forget_config();
 		stop_keep_alive();
+		/* The sd_listen_fds(3) call told exec(3) to close the socket. */
+		if (socket_activated)
+			(void)fcntl(SD_LISTEN_FDS_START, F_SETFD, 0);
 		execvp(argv[0], argv);
 		die("Cannot restart myself: %m");
 	}
@@ -332,10 +335,8 @@ free_options(options *opt)
 }
 
 static void
-close_descriptors(void)
+close_descriptors(int min_fd)
 {
-	int min_fd = STDERR_FILENO + 1;
-
 #if HAVE_CLOSEFROM /* BSD and Solaris. */
 	(void)closefrom(min_fd);
 #elif defined(F_CLOSEM) /* AIX and IRIX. */
-- 
2.43.0


From 8689ab4860bc68b2637deeff283430513e709848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:44 +0000
Subject: [PATCH 18/58] fix: don't block on inherited listening sockets

---
 src/common/tls.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/tls.c b/src/common/tls.c
index e8e6e5f..bbfaf26 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -204,6 +204,7 @@ tls_server_start(const char * restrict host_port,
 		if ((ctx->bio = BIO_new(BIO_s_accept())) == NULL)
 			die("Cannot create BIO object");
 		(void)BIO_set_fd(ctx->bio, listen_socket, BIO_NOCLOSE);
+		(void)BIO_socket_nbio(listen_socket, 1);
 	}
 
 	/*
-- 
2.43.0


From a83107baec79a623a280948327eab955ba94e191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:27 +0000
Subject: [PATCH 19/58] fix: don't let signals kill the server while starting,
 restarting or stopping

---
 src/server/nsca-ng.c | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/server/nsca-ng.c b/src/server/nsca-ng.c
index 0d83115..6ff4e16 100644
--- a/src/server/nsca-ng.c
+++ b/src/server/nsca-ng.c
@@ -48,6 +48,7 @@
 # include <libutil.h> /* Either in /usr/include or in ../../lib/pidfile. */
 #endif
 #include <pwd.h>
+#include <signal.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -77,6 +78,7 @@ static cfg_t *cfg = NULL;
 static struct pidfh *pfh = NULL;
 static char *pid_file = NULL;
 static bool restart = false;
+static bool terminate = false;
 static ev_timer keep_alive_watcher;
 static ev_signal sighup_watcher, sigint_watcher, sigterm_watcher;
 
@@ -90,6 +92,7 @@ static void stop_keep_alive(void);
 static void notify_systemd(void);
 static void keep_alive_cb(EV_P_ ev_timer *, int);
 static void signal_cb(EV_P_ ev_signal *, int);
+static void mask_signals(int);
 static void usage(int) __attribute__((__noreturn__));
 
 int
@@ -198,6 +201,14 @@ main(int argc, char **argv)
 	    (size_t)cfg_getint(cfg, "max_queue_size"),
 	    cfg_getfloat(cfg, "timeout"));
 
+	ev_signal_init(&sighup_watcher, signal_cb, SIGHUP);
+	ev_signal_init(&sigint_watcher, signal_cb, SIGINT);
+	ev_signal_init(&sigterm_watcher, signal_cb, SIGTERM);
+	ev_signal_start(EV_DEFAULT_UC_ &sighup_watcher);
+	ev_signal_start(EV_DEFAULT_UC_ &sigint_watcher);
+	ev_signal_start(EV_DEFAULT_UC_ &sigterm_watcher);
+	mask_signals(SIG_UNBLOCK);
+
 	if (!opt->foreground && !socket_activated) {
 		if (daemon(0, 0) == -1)
 			die("Cannot daemonize: %m");
@@ -211,20 +222,13 @@ main(int argc, char **argv)
 
 	notice("%s starting up", nsca_version());
 
-	ev_signal_init(&sighup_watcher, signal_cb, SIGHUP);
-	ev_signal_init(&sigint_watcher, signal_cb, SIGINT);
-	ev_signal_init(&sigterm_watcher, signal_cb, SIGTERM);
-	ev_signal_start(EV_DEFAULT_UC_ &sighup_watcher);
-	ev_signal_start(EV_DEFAULT_UC_ &sigint_watcher);
-	ev_signal_start(EV_DEFAULT_UC_ &sigterm_watcher);
-
 	notify_systemd();
 
 	(void)ev_run(EV_DEFAULT_UC_ 0);
 
 	server_stop(server);
 	free_options(opt);
-	if (restart) {
+	if (restart && !terminate) {
 		notice("Restarting");
 		/* The atexit(3) functions won't be called on exec(3). */
 		remove_pidfile();
@@ -449,9 +453,8 @@ signal_cb(EV_P_ ev_signal *w, int revents __attribute__((__unused__)))
 {
 	const char *sig_string;
 
-	ev_signal_stop(EV_A_ &sighup_watcher);
-	ev_signal_stop(EV_A_ &sigint_watcher);
-	ev_signal_stop(EV_A_ &sigterm_watcher);
+	/* If we're restarting, the new process will unblock the signals. */
+	mask_signals(SIG_BLOCK);
 
 	switch (w->signum) {
 	case SIGHUP:
@@ -472,6 +475,20 @@ signal_cb(EV_P_ ev_signal *w, int revents __attribute__((__unused__)))
 
 	if (w->signum == SIGHUP)
 		restart = true;
+	else
+		terminate = true;
+}
+
+static void
+mask_signals(int how)
+{
+	sigset_t set;
+
+	(void)sigemptyset(&set);
+	(void)sigaddset(&set, SIGHUP);
+	(void)sigaddset(&set, SIGINT);
+	(void)sigaddset(&set, SIGTERM);
+	(void)sigprocmask(how, &set, NULL);
 }
 
 static void
-- 
2.43.0


From c0a6b3e19dcf6d5ef8f400f175e0bf71047cdcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:49 +0000
Subject: [PATCH 20/58] fix: don't print the value of a setting in client
 configuration errors

---
 src/client/conf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/conf.c b/src/client/conf.c
index deb53f7..cad6135 100644
--- a/src/client/conf.c
+++ b/src/client/conf.c
@@ -259,8 +259,8 @@ parse_conf_file(const char * restrict path, conf * restrict cfg)
 		token = skip_whitespace(in);
 
 		if (*token != '\0' && *token != '#')
-			die("%s:%lu: Unexpected stuff after `%s'", path,
-			    line_number, value);
+			die("%s:%lu: Unexpected stuff after value of `%s'",
+			    path, line_number, c->key);
 
 		debug("%s:%lu: %s = %s", path, line_number, c->key, value);
 
-- 
2.43.0


From 237b75060f6661831b140c46e7b200f7e10523d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:01 +0000
Subject: [PATCH 21/58] fix: client configuration: handle continuation at end
 of file and before CRLF

---
 src/client/conf.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/client/conf.c b/src/client/conf.c
index cad6135..c3fd56a 100644
--- a/src/client/conf.c
+++ b/src/client/conf.c
@@ -302,16 +302,17 @@ read_conf_line(FILE *f)
 			line = xrealloc(line, size *= 2);
 		else {
 			line_number++;
-			if (pos >= 2) {
-				if (line[pos - 2] == '\\') {
-					pos -= 2;
-					continue;
-				}
-				if (line[pos - 2] == '\r') {
-					line[pos - 2] = '\n';
-					line[pos - 1] = '\0';
-					pos--;
-				}
+			if (pos >= 2 && line[pos - 1] == '\n'
+			    && line[pos - 2] == '\r') {
+				line[pos - 2] = '\n';
+				line[pos - 1] = '\0';
+				pos--;
+			}
+			if (pos >= 2 && line[pos - 1] == '\n'
+			    && line[pos - 2] == '\\') {
+				pos -= 2;
+				line[pos] = '\0';
+				continue;
 			}
 			break;
 		}
-- 
2.43.0


From d020d76d07acd67e78197e71fa5c6ef00277dced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:12 +0000
Subject: [PATCH 22/58] fix: client configuration: comment right after unquoted
 value, missing closing quote

---
 src/client/conf.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/client/conf.c b/src/client/conf.c
index c3fd56a..cfb8b38 100644
--- a/src/client/conf.c
+++ b/src/client/conf.c
@@ -253,6 +253,12 @@ parse_conf_file(const char * restrict path, conf * restrict cfg)
 		}
 		value[len] = '\0';
 
+		if (quote_sign != 0 && !done)
+			die("%s:%lu: Unterminated value of `%s'", path,
+			    line_number, c->key);
+		if (quote_sign == 0 && done)
+			in--; /* Might be the beginning of a comment. */
+
 		/*
 		 * Check the end of the line.
 		 */
-- 
2.43.0


From c5d25e367c7bd00b3e6b1514c1c38601db8327c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:24 +0000
Subject: [PATCH 23/58] fix: refuse empty, negative, too large or (on the
 command line) non-numeric delays and timeouts

---
 src/client/conf.c      |  6 +++++-
 src/client/send_nsca.c | 17 +++++++++++++----
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/client/conf.c b/src/client/conf.c
index cfb8b38..901758a 100644
--- a/src/client/conf.c
+++ b/src/client/conf.c
@@ -29,6 +29,7 @@
 # include <config.h>
 #endif
 
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -279,9 +280,12 @@ parse_conf_file(const char * restrict path, conf * restrict cfg)
 			char *end;
 			long num = strtol(value, &end, 0);
 
-			if (*end != '\0')
+			if (end == value || *end != '\0')
 				die("%s:%lu: Nonnumeric value assigned to `%s'",
 				    path, line_number, c->key);
+			if (num < 0 || num > INT_MAX)
+				die("%s:%lu: Value of `%s' is out of range",
+				    path, line_number, c->key);
 
 			conf_setint(cfg, c->key, num);
 		}
diff --git a/src/client/send_nsca.c b/src/client/send_nsca.c
index 2754150..f739565 100644
--- a/src/client/send_nsca.c
+++ b/src/client/send_nsca.c
@@ -72,6 +72,7 @@ int exit_code = EXIT_SUCCESS;
 static options *get_options(int, char **);
 static void free_options(options *);
 static int parse_backslash_escape(const char *);
+static int parse_seconds(const char *);
 static void delay_execution(unsigned int);
 static unsigned long random_number(unsigned long);
 static void forget_config(void);
@@ -171,8 +172,7 @@ get_options(int argc, char **argv)
 			opt->conf_file = xstrdup(optarg);
 			break;
 		case 'D':
-			opt->delay = atoi(optarg);
-			if (opt->delay < 0)
+			if ((opt->delay = parse_seconds(optarg)) == -1)
 				die("-D argument must be a positive integer");
 			break;
 		case 'd':
@@ -198,8 +198,7 @@ get_options(int argc, char **argv)
 		case 'h':
 			usage(EXIT_SUCCESS);
 		case 'o':
-			opt->timeout = atoi(optarg);
-			if (opt->timeout < 0)
+			if ((opt->timeout = parse_seconds(optarg)) == -1)
 				die("-o argument must be a positive integer");
 			break;
 		case 'p':
@@ -310,6 +309,16 @@ parse_backslash_escape(const char *sequence)
 	}
 }
 
+static int
+parse_seconds(const char *string)
+{
+	char *end;
+	long seconds = strtol(string, &end, 10);
+
+	return end == string || *end != '\0' || seconds < 0 || seconds > INT_MAX
+	    ? -1 : (int)seconds;
+}
+
 static void
 delay_execution(unsigned int max_delay)
 {
-- 
2.43.0


From b366a2fbb4d59c72a0e1794cb18d01a34ab200e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:37 +0000
Subject: [PATCH 24/58] fix: send_nsca: don't recurse for each empty input line

---
 src/client/input.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/input.c b/src/client/input.c
index 5b350c7..2c7658e 100644
--- a/src/client/input.c
+++ b/src/client/input.c
@@ -82,7 +82,7 @@ input_read_chunk(input_state *input, void handle_read(input_state *, char *))
 	if (!input->eof) {
 		input->read_handler = handle_read;
 		ev_io_start(EV_DEFAULT_UC_ &input->watcher);
-		ev_invoke(EV_DEFAULT_UC_ &input->watcher, EV_CUSTOM);
+		ev_feed_event(EV_DEFAULT_UC_ &input->watcher, EV_CUSTOM);
 	} else {
 		debug("There's no (more) data available");
 		if (input->eof_handler != NULL)
-- 
2.43.0


From 1c58f3ac821a4400e7fea50977c729b7b5fb900a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:49 +0000
Subject: [PATCH 25/58] fix: send_nsca: don't take the letter of an escape
 sequence for a delimiter

---
 src/client/parse.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/client/parse.c b/src/client/parse.c
index b37be8e..851350b 100644
--- a/src/client/parse.c
+++ b/src/client/parse.c
@@ -82,7 +82,9 @@ parse_check_result(const char *input, char delimiter)
 	n = 1;
 
 	for (pos = 0; n < 4 && input[pos] != '\0'; pos++)
-		if (input[pos] == delimiter) {
+		if (input[pos] == '\\')
+			pos++; /* Skip the escaped character. */
+		else if (input[pos] == delimiter) {
 			lengths[n - 1] = pos - start_pos;
 			debug("Check result field %d has %d characters (%d-%d)",
 			    n, lengths[n - 1], start_pos, pos - 1);
-- 
2.43.0


From 5a9618f43502537d681ce4f4f7a493b10caa263e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:01 +0000
Subject: [PATCH 26/58] fix: send_nsca: refuse nul characters instead of
 cutting records short

---
 src/client/input.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/client/input.c b/src/client/input.c
index 2c7658e..7e332d0 100644
--- a/src/client/input.c
+++ b/src/client/input.c
@@ -33,6 +33,7 @@
 #include <unistd.h> /* Required by <fcntl.h> on some systems. */
 #include <fcntl.h>
 #include <stdlib.h>
+#include <string.h>
 #include <time.h>
 
 #include "input.h"
@@ -158,6 +159,9 @@ read_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
 			}
 		} else {
 			debug("Got %zd bytes from standard input", n);
+			if (input->separator != '\0'
+			    && memchr(input->input, '\0', (size_t)n) != NULL)
+				die("Input contains a nul character");
 			buffer_append(input->buffer, input->input, (size_t)n);
 		}
 	} while (n > 0);
-- 
2.43.0


From 4abdae0a05903bdb746c7925ae77af2a52eb4106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:03 +0000
Subject: [PATCH 27/58] fix: don't let OpenSSL busy-wait for the TCP
 connection, ignoring the timeout

---
 src/common/tls.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/common/tls.c b/src/common/tls.c
index bbfaf26..16e7318 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -568,7 +568,6 @@ connect_cb(EV_P_ ev_io *w, int revents)
 		if (revents & EV_CUSTOM) {
 			ev_io_set(w, tls->fd, EV_WRITE);
 			ev_io_start(EV_A_ &tls->init_watcher);
-			ev_feed_event(EV_A_ &tls->init_watcher, EV_WRITE);
 		}
 		check_tls_error(EV_A_ w, result);
 	} else {
-- 
2.43.0


From 6b2e4c4014aaa581f4a4417b1b9fcf424c3d4263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 28/58] fix: log messages on a single line, whatever they
 include

---
 src/common/log.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/common/log.c b/src/common/log.c
index c6b191e..0d75c9b 100644
--- a/src/common/log.c
+++ b/src/common/log.c
@@ -73,7 +73,7 @@ void
 vlog(int level, const char *in_fmt, va_list ap)
 {
 	size_t in_pos, out_pos;
-	char message[LOG_BUFFER_SIZE], out_fmt[512];
+	char message[LOG_BUFFER_SIZE], out_fmt[512], *newline;
 	enum {
 		STATE_NORMAL,
 		STATE_PERCENT
@@ -122,6 +122,13 @@ vlog(int level, const char *in_fmt, va_list ap)
 	    > (int)sizeof(message) - 1)
 		(void)memcpy(message + sizeof(message) - 7, " [...]", 7);
 
+	/*
+	 * Messages may include strings received from the network, which
+	 * mustn't be able to fake additional log lines.
+	 */
+	for (newline = message; (newline = strchr(newline, '\n')) != NULL;)
+		*newline++ = ' ';
+
 	if (log_target & LOG_TARGET_SYSTEMD) {
 		(void)fprintf(stderr, "<%d>%s\n", level, message);
 		(void)fflush(stderr);
-- 
2.43.0


From 8df0994ada7bda6309e888134d961c7eb934f0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 29/58] fix: let SIGHUP restart a server which switched to
 another user

---
 src/server/nsca-ng.c | 45 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/src/server/nsca-ng.c b/src/server/nsca-ng.c
index 6ff4e16..decae91 100644
--- a/src/server/nsca-ng.c
+++ b/src/server/nsca-ng.c
@@ -86,6 +86,7 @@ static options *get_options(int, char **);
 static void free_options(options *);
 static void close_descriptors(int);
 static void drop_privileges(const char *, const char *);
+static bool has_identity(const struct passwd *);
 static void remove_pidfile(void);
 static void forget_config(void);
 static void stop_keep_alive(void);
@@ -367,7 +368,13 @@ drop_privileges(const char *user, const char *new_root)
 			else
 				die("Cannot lookup user %s: %m", user);
 		}
-		if (initgroups(user, pw->pw_gid) == -1)
+		/*
+		 * If we have dropped our privileges and were then restarted by
+		 * a SIGHUP, there's nothing (and we're not permitted) to do.
+		 */
+		if (has_identity(pw))
+			user = NULL;
+		else if (initgroups(user, pw->pw_gid) == -1)
 			die("Cannot set up group list for user %s: %m", user);
 	}
 	if (new_root != NULL && (chroot(new_root) == -1 || chdir("/") == -1))
@@ -377,6 +384,42 @@ drop_privileges(const char *user, const char *new_root)
 		die("Cannot switch to user %s: %m", user);
 }
 
+/*
+ * Check whether we're already running with nothing but the privileges of the
+ * specified (non-root) user.
+ */
+static bool
+has_identity(const struct passwd *pw)
+{
+	gid_t *groups;
+	bool allowed;
+	int i, n_groups;
+
+	if (pw->pw_uid == 0
+	    || getuid() != pw->pw_uid || geteuid() != pw->pw_uid
+	    || getgid() != pw->pw_gid || getegid() != pw->pw_gid
+	    || (n_groups = getgroups(0, NULL)) == -1)
+		return false;
+
+	groups = xmalloc(((size_t)n_groups + 1) * sizeof(gid_t));
+	n_groups = getgroups(n_groups, groups);
+	allowed = n_groups != -1;
+
+	for (i = 0; allowed && i < n_groups; i++)
+		if (groups[i] != pw->pw_gid) {
+			struct group *gr = getgrgid(groups[i]);
+			char **member = gr != NULL ? gr->gr_mem : NULL;
+
+			while (member != NULL && *member != NULL
+			    && strcmp(*member, pw->pw_name) != 0)
+				member++;
+			allowed = member != NULL && *member != NULL;
+		}
+
+	free(groups);
+	return allowed;
+}
+
 static void
 remove_pidfile(void)
 {
-- 
2.43.0


From df8a64c22e96480958640ae3ed17991555e419fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 30/58] fix: Perl and Python clients: don't try to resume a TLS
 session when reconnecting

---
 perl/client.c   | 2 ++
 python/client.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/perl/client.c b/perl/client.c
index 18f0ef4..d22ad8c 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -287,6 +287,8 @@ nscang_client_disconnect(nscang_client_t *c)
 	}
 
 	SSL_clear(c->ssl);
+	/* The server doesn't support resuming sessions. */
+	SSL_set_session(c->ssl, NULL);
 	BIO_reset(c->bio);
 
 	c->state = NSCANG_STATE_NEW;
diff --git a/python/client.c b/python/client.c
index 12747b9..41bacf5 100644
--- a/python/client.c
+++ b/python/client.c
@@ -325,6 +325,8 @@ nscang_client_disconnect(nscang_client_t *c)
 	}
 
 	SSL_clear(c->ssl);
+	/* The server doesn't support resuming sessions. */
+	SSL_set_session(c->ssl, NULL);
 	BIO_reset(c->bio);
 
 	c->state = NSCANG_STATE_NEW;
-- 
2.43.0


From 73c674b1d322d36568538e837527f4e8af211886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 31/58] fix: Perl and Python clients: don't read beyond the
 text of short responses

---
 perl/client.c   | 11 +++++++----
 python/client.c | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/perl/client.c b/perl/client.c
index d22ad8c..bf72be4 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -206,7 +206,7 @@ nscang_client_response(nscang_client_t *c, int timeout)
 			ptr = buf + was_read;
 
 			if (buf[was_read - 1] == '\n') {
-				if (buf[was_read - 2] == '\r')
+				if (was_read > 1 && buf[was_read - 2] == '\r')
 					buf[was_read - 2] = 0x00;
 				else
 					buf[was_read - 1] = 0x00;
@@ -238,7 +238,8 @@ nscang_client_response(nscang_client_t *c, int timeout)
 			return NSCANG_RESP_MOIN;
 		} else {
 			c->_errno = NSCANG_ERROR_BAD_PROTO_VERSION;
-			strncpy(c->errstr, buf + 5, sizeof(c->errstr) - 1);
+			strncpy(c->errstr, buf[4] != 0x00 ? buf + 5 : "",
+			    sizeof(c->errstr) - 1);
 			c->errstr[sizeof(c->errstr) - 1] = 0x00;
 			return 0;
 		}
@@ -246,13 +247,15 @@ nscang_client_response(nscang_client_t *c, int timeout)
 		return NSCANG_RESP_OKAY;
 	} else if (strncmp(buf, "FAIL", 4) == 0) {
 		c->_errno = NSCANG_ERROR_FAIL;
-		strncpy(c->errstr, buf + 5, sizeof(c->errstr) - 1);
+		strncpy(c->errstr, buf[4] != 0x00 ? buf + 5 : "",
+			    sizeof(c->errstr) - 1);
 		c->errstr[sizeof(c->errstr) - 1] = 0x00;
 		return 0;
 	} else if (strncmp(buf, "BAIL", 4) == 0) {
 		nscang_client_disconnect(c);
 		c->_errno = NSCANG_ERROR_BAIL;
-		strncpy(c->errstr, buf + 5, sizeof(c->errstr) - 1);
+		strncpy(c->errstr, buf[4] != 0x00 ? buf + 5 : "",
+			    sizeof(c->errstr) - 1);
 		c->errstr[sizeof(c->errstr) - 1] = 0x00;
 		return 0;
 	} else {
diff --git a/python/client.c b/python/client.c
index 41bacf5..165e006 100644
--- a/python/client.c
+++ b/python/client.c
@@ -244,7 +244,7 @@ nscang_client_response(nscang_client_t *c, int timeout)
 			ptr = buf + was_read;
 
 			if (buf[was_read - 1] == '\n') {
-				if (buf[was_read - 2] == '\r')
+				if (was_read > 1 && buf[was_read - 2] == '\r')
 					buf[was_read - 2] = 0x00;
 				else
 					buf[was_read - 1] = 0x00;
@@ -276,7 +276,8 @@ nscang_client_response(nscang_client_t *c, int timeout)
 			return NSCANG_RESP_MOIN;
 		} else {
 			c->_errno = NSCANG_ERROR_BAD_PROTO_VERSION;
-			strncpy(c->errstr, buf + 5, sizeof(c->errstr) - 1);
+			strncpy(c->errstr, buf[4] != 0x00 ? buf + 5 : "",
+			    sizeof(c->errstr) - 1);
 			c->errstr[sizeof(c->errstr) - 1] = 0x00;
 			return 0;
 		}
@@ -284,13 +285,15 @@ nscang_client_response(nscang_client_t *c, int timeout)
 		return NSCANG_RESP_OKAY;
 	} else if (strncmp(buf, "FAIL", 4) == 0) {
 		c->_errno = NSCANG_ERROR_FAIL;
-		strncpy(c->errstr, buf + 5, sizeof(c->errstr) - 1);
+		strncpy(c->errstr, buf[4] != 0x00 ? buf + 5 : "",
+			    sizeof(c->errstr) - 1);
 		c->errstr[sizeof(c->errstr) - 1] = 0x00;
 		return 0;
 	} else if (strncmp(buf, "BAIL", 4) == 0) {
 		nscang_client_disconnect(c);
 		c->_errno = NSCANG_ERROR_BAIL;
-		strncpy(c->errstr, buf + 5, sizeof(c->errstr) - 1);
+		strncpy(c->errstr, buf[4] != 0x00 ? buf + 5 : "",
+			    sizeof(c->errstr) - 1);
 		c->errstr[sizeof(c->errstr) - 1] = 0x00;
 		return 0;
 	} else {
-- 
2.43.0


From dd8eaa66b05965c1cb06ae3a31054d8eda081015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 32/58] fix: Perl and Python clients: wait for the socket with
 poll(2)

---
 perl/client.c   | 39 ++++++++++++++-------------------------
 python/client.c | 39 ++++++++++++++-------------------------
 2 files changed, 28 insertions(+), 50 deletions(-)

diff --git a/perl/client.c b/perl/client.c
index bf72be4..c00decc 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -27,6 +27,7 @@
 
 #include <openssl/ssl.h>
 #include <openssl/err.h>
+#include <poll.h>
 #include <string.h>
 #include <time.h>
 
@@ -149,16 +150,21 @@ nscang_client_free(nscang_client_t *c)
 	c->state = NSCANG_STATE_NONE;
 }
 
+static void
+wait_for_socket(nscang_client_t *c)
+{
+	struct pollfd pfd;
+
+	pfd.fd = BIO_get_fd(c->bio, NULL);
+	pfd.events = SSL_want_read(c->ssl) ? POLLIN : POLLOUT;
+	(void)poll(&pfd, 1, 100);
+}
+
 int
 nscang_client_write(nscang_client_t *c, void *buf, int len, int timeout)
 {
 	int rc;
 	time_t endtime;
-	fd_set fdset;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
 
 	endtime = time(NULL) + timeout;
 
@@ -176,9 +182,7 @@ nscang_client_write(nscang_client_t *c, void *buf, int len, int timeout)
 			return 0;
 		}
 
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, NULL, &fdset, NULL, &tv);
+		wait_for_socket(c);
 	}
 }
 
@@ -187,14 +191,9 @@ nscang_client_response(nscang_client_t *c, int timeout)
 {
 	int rc;
 	time_t endtime;
-	fd_set fdset;
 	char buf[1024];
 	int was_read = 0;
 	char *ptr = buf;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
 
 	endtime = time(NULL) + timeout;
 
@@ -228,9 +227,7 @@ nscang_client_response(nscang_client_t *c, int timeout)
 			return 0;
 		}
 
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, &fdset, NULL, NULL, &tv);
+		wait_for_socket(c);
 	}
 
 	if (strncmp(buf, "MOIN", 4) == 0) {
@@ -273,19 +270,11 @@ nscang_client_response(nscang_client_t *c, int timeout)
 void
 nscang_client_disconnect(nscang_client_t *c)
 {
-	fd_set fdset;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
-
 	if (c->state == NSCANG_STATE_MOIN)
 		nscang_client_send_quit(c);
 
 	if ((SSL_shutdown(c->ssl) == -1) && BIO_should_retry(c->bio)) {
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, NULL, &fdset, NULL, &tv);
+		wait_for_socket(c);
 		SSL_shutdown(c->ssl);
 	}
 
diff --git a/python/client.c b/python/client.c
index 165e006..a0845ea 100644
--- a/python/client.c
+++ b/python/client.c
@@ -27,6 +27,7 @@
 
 #include <openssl/ssl.h>
 #include <openssl/err.h>
+#include <poll.h>
 #include <string.h>
 #include <time.h>
 #include <pthread.h>
@@ -187,16 +188,21 @@ nscang_client_free(nscang_client_t *c)
 	c->state = NSCANG_STATE_NONE;
 }
 
+static void
+wait_for_socket(nscang_client_t *c)
+{
+	struct pollfd pfd;
+
+	pfd.fd = BIO_get_fd(c->bio, NULL);
+	pfd.events = SSL_want_read(c->ssl) ? POLLIN : POLLOUT;
+	(void)poll(&pfd, 1, 100);
+}
+
 int
 nscang_client_write(nscang_client_t *c, void *buf, int len, int timeout)
 {
 	int rc;
 	time_t endtime;
-	fd_set fdset;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
 
 	endtime = time(NULL) + timeout;
 
@@ -214,9 +220,7 @@ nscang_client_write(nscang_client_t *c, void *buf, int len, int timeout)
 			return 0;
 		}
 
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, NULL, &fdset, NULL, &tv);
+		wait_for_socket(c);
 	}
 }
 
@@ -225,14 +229,9 @@ nscang_client_response(nscang_client_t *c, int timeout)
 {
 	int rc;
 	time_t endtime;
-	fd_set fdset;
 	char buf[1024];
 	int was_read = 0;
 	char *ptr = buf;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
 
 	endtime = time(NULL) + timeout;
 
@@ -266,9 +265,7 @@ nscang_client_response(nscang_client_t *c, int timeout)
 			return 0;
 		}
 
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, &fdset, NULL, NULL, &tv);
+		wait_for_socket(c);
 	}
 
 	if (strncmp(buf, "MOIN", 4) == 0) {
@@ -311,19 +308,11 @@ nscang_client_response(nscang_client_t *c, int timeout)
 void
 nscang_client_disconnect(nscang_client_t *c)
 {
-	fd_set fdset;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
-
 	if (c->state == NSCANG_STATE_MOIN)
 		nscang_client_send_quit(c);
 
 	if ((SSL_shutdown(c->ssl) == -1) && BIO_should_retry(c->bio)) {
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, NULL, &fdset, NULL, &tv);
+		wait_for_socket(c);
 		SSL_shutdown(c->ssl);
 	}
 
-- 
2.43.0


From 175594372e496054dc7b9be6a0db0dbef91f145b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 33/58] fix: Python client: refuse results that are too long

---
 python/client.c | 8 ++++++++
 python/client.h | 1 +
 2 files changed, 9 insertions(+)

diff --git a/python/client.c b/python/client.c
index a0845ea..bda8007 100644
--- a/python/client.c
+++ b/python/client.c
@@ -378,6 +378,11 @@ nscang_client_send_push(nscang_client_t *c, char *host, char *service,
 		    "[%u] PROCESS_SERVICE_CHECK_RESULT;%s;%s;%d;%s",
 		    (unsigned int)time(NULL), host, service, status, message);
 
+	if (len < 0 || len > (int)sizeof(command) - 2) {
+		c->_errno = NSCANG_ERROR_TOO_LONG_COMMAND;
+		return 0;
+	}
+
 	command[len++] = '\n';
 
 	snprintf(cmd, sizeof(cmd), "PUSH %d\n", len);
@@ -479,6 +484,9 @@ nscang_client_errstr(nscang_client_t *c, char *buf, int buf_size)
 	case NSCANG_ERROR_LOCKING:
 		strncpy(buf, "Can't obtain lock for instances list", buf_size);
 		break;
+	case NSCANG_ERROR_TOO_LONG_COMMAND:
+		strncpy(buf, "Command too long", buf_size);
+		break;
 	default:
 		buf[0] = 0x00;
 	}
diff --git a/python/client.h b/python/client.h
index 74aa95a..82d6502 100644
--- a/python/client.h
+++ b/python/client.h
@@ -65,6 +65,7 @@ typedef struct {
 #define NSCANG_ERROR_FAIL               8
 #define NSCANG_ERROR_BAD_STATE          9
 #define NSCANG_ERROR_LOCKING            10
+#define NSCANG_ERROR_TOO_LONG_COMMAND   11
 
 #define NSCANG_ERROR_SSL_CTX_CREATE     101
 #define NSCANG_ERROR_SSL_CIPHERS        102
-- 
2.43.0


From c240256ae4cedba46447a13e5d129b3626622155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 34/58] fix: Perl client: refuse commands that are too long

---
 perl/client.c | 25 ++++++++++++++++++-------
 perl/client.h |  1 +
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/perl/client.c b/perl/client.c
index c00decc..aec3747 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -340,7 +340,6 @@ has_timestamp_prefix(const char *s)
 int
 nscang_client_send_command(nscang_client_t *c, const char *command, int timeout)
 {
-   const int command_len = strlen(command);
 	char command_buf[1024];
 	char cmd[32];
 	int rc, len;
@@ -348,12 +347,11 @@ nscang_client_send_command(nscang_client_t *c, const char *command, int timeout)
    switch( has_timestamp_prefix(command) ) {
       case 0 :
          // There was no timestamp. Add one.
-         snprintf(command_buf, sizeof(command_buf)-1, "[%u] %s", (unsigned int)time(NULL), command);
+         len = snprintf(command_buf, sizeof(command_buf)-1, "[%u] %s", (unsigned int)time(NULL), command);
          break;
       case 1 :
          // Timestamp found, just copy everything
-         strncpy(command_buf, command, sizeof(command_buf)-1);
-         command_buf[sizeof(command_buf)-1] = '\0';
+         len = snprintf(command_buf, sizeof(command_buf)-1, "%s", command);
          break;
       default :
          // Malformed timestamp
@@ -362,8 +360,12 @@ nscang_client_send_command(nscang_client_t *c, const char *command, int timeout)
          return 0;
    }
 
+   if(len < 0 || len >= (int)sizeof(command_buf)-1) {
+      c->_errno = NSCANG_ERROR_TOO_LONG_COMMAND;
+      return 0;
+   }
+
    /* make sure command_buf is newline-terminated */
-   len = strlen(command_buf);
    if(command_buf[len-1] != '\n') {
       command_buf[len] = '\n';
       len++;
@@ -408,16 +410,22 @@ nscang_client_send_push(nscang_client_t *c, char *host, char *service,
                         int status, char *message, int timeout)
 {
 	char command[1024];
+	int len;
 
 	if (service == NULL)
-      snprintf(command, sizeof(command) - 1,
+      len = snprintf(command, sizeof(command) - 1,
             "PROCESS_HOST_CHECK_RESULT;%s;%d;%s",
             host, status, message);
 	else
-      snprintf(command, sizeof(command) - 1,
+      len = snprintf(command, sizeof(command) - 1,
             "PROCESS_SERVICE_CHECK_RESULT;%s;%s;%d;%s",
             host, service, status, message);
 
+   if(len < 0 || len >= (int)sizeof(command)-1) {
+      c->_errno = NSCANG_ERROR_TOO_LONG_COMMAND;
+      return 0;
+   }
+
    return nscang_client_send_command(c, command, timeout);
 }
 
@@ -500,6 +508,9 @@ nscang_client_errstr(nscang_client_t *c, char *buf, int buf_size)
 		snprintf(buf, buf_size, "Operation not permitted in state %d",
 		    c->state);
 		break;
+	case NSCANG_ERROR_TOO_LONG_COMMAND:
+		strncpy(buf, "Command too long", buf_size);
+		break;
 	default:
 		buf[0] = 0x00;
 	}
diff --git a/perl/client.h b/perl/client.h
index 3615ea7..a484472 100644
--- a/perl/client.h
+++ b/perl/client.h
@@ -46,6 +46,7 @@ typedef enum {
 	NSCANG_ERROR_BAIL,
 	NSCANG_ERROR_FAIL,
 	NSCANG_ERROR_BAD_STATE,
+	NSCANG_ERROR_TOO_LONG_COMMAND,
 	NSCANG_ERROR_SSL_CTX_CREATE=101,
 	NSCANG_ERROR_SSL_CIPHERS,
 	NSCANG_ERROR_SSL_BIO_CREATE,
-- 
2.43.0


From a9b8af5365607240171e99f284281d20967d84aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 35/58] fix: Python client: don't crash on notifiers that
 weren't initialized

---
 python/nscang.c | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/python/nscang.c b/python/nscang.c
index 1fd59d9..fc03cbc 100644
--- a/python/nscang.c
+++ b/python/nscang.c
@@ -60,6 +60,12 @@ nscang_host_result(PyObject *self, PyObject *args, PyObject *kwds)
 	    kwlist, &host, &rc, &output, &timeout))
 		return NULL;
 
+	if (client == NULL) {
+		PyErr_SetString(PyExc_RuntimeError,
+		    "host_result: Notifier not initialized");
+		return NULL;
+	}
+
 	if (nscang_client_send_push(client, host, NULL, rc, output, timeout)) {
 		Py_INCREF(Py_None);
 		return Py_None;
@@ -94,6 +100,12 @@ nscang_svc_result(PyObject *self, PyObject *args, PyObject *kwds)
 	    kwlist, &host, &service, &rc, &output, &timeout))
 		return NULL;
 
+	if (client == NULL) {
+		PyErr_SetString(PyExc_RuntimeError,
+		    "svc_result: Notifier not initialized");
+		return NULL;
+	}
+
 	if (nscang_client_send_push(client, host, service, rc, output, timeout)) {
 		Py_INCREF(Py_None);
 		return Py_None;
@@ -111,6 +123,16 @@ nscang_svc_result(PyObject *self, PyObject *args, PyObject *kwds)
 	return NULL;
 }
 
+static void
+NSCAngNotifyer_free_client(NSCAngNotifyer *self)
+{
+	if (self->client != NULL) {
+		nscang_client_free(self->client);
+		free(self->client);
+		self->client = NULL;
+	}
+}
+
 static int
 NSCAngNotifyer_init(NSCAngNotifyer *self, PyObject *args, PyObject *kwds)
 {
@@ -129,6 +151,8 @@ NSCAngNotifyer_init(NSCAngNotifyer *self, PyObject *args, PyObject *kwds)
 	    &self->psk, &self->ciphers))
 		return -1;
 
+	NSCAngNotifyer_free_client(self);
+
 	self->client = malloc(sizeof(nscang_client_t));
 	if (self->client == NULL) {
 		PyErr_Format(PyExc_MemoryError,
@@ -140,6 +164,7 @@ NSCAngNotifyer_init(NSCAngNotifyer *self, PyObject *args, PyObject *kwds)
 		self->ciphers, self->identity, self->psk)) {
 		PyErr_Format(PyExc_RuntimeError, "nscang_client_init: %s",
 		    nscang_client_errstr(self->client, errstr, sizeof(errstr)));
+		NSCAngNotifyer_free_client(self);
 		return -1;
 	}
 
@@ -149,7 +174,7 @@ NSCAngNotifyer_init(NSCAngNotifyer *self, PyObject *args, PyObject *kwds)
 static void
 NSCAngNotifyer_dealloc(NSCAngNotifyer *self)
 {
-	nscang_client_free(self->client);
+	NSCAngNotifyer_free_client(self);
 	Py_TYPE(self)->tp_free((PyObject *)self);
 }
 
-- 
2.43.0


From 0c6d553a772c86c8d6c61db739ca7c8d58bba5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 36/58] fix: Python client: start over with a new connection
 after a failure

---
 python/nscang.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/nscang.c b/python/nscang.c
index fc03cbc..73819ef 100644
--- a/python/nscang.c
+++ b/python/nscang.c
@@ -80,6 +80,7 @@ nscang_host_result(PyObject *self, PyObject *args, PyObject *kwds)
 
 	PyErr_Format(PyExc_RuntimeError, "host_result: %s",
 	    nscang_client_errstr(client, errstr, sizeof(errstr)));
+	nscang_client_disconnect(client);
 	return NULL;
 }
 
@@ -120,6 +121,7 @@ nscang_svc_result(PyObject *self, PyObject *args, PyObject *kwds)
 
 	PyErr_Format(PyExc_RuntimeError, "svc_result: %s",
 	    nscang_client_errstr(client, errstr, sizeof(errstr)));
+	nscang_client_disconnect(client);
 	return NULL;
 }
 
-- 
2.43.0


From 340e8836ec7ca247999eee532b869b6321dc56f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:42 +0000
Subject: [PATCH 37/58] fix: Python client: don't access the host name after it
 might be gone

---
 python/nscang.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/python/nscang.c b/python/nscang.c
index 73819ef..ab01ce2 100644
--- a/python/nscang.c
+++ b/python/nscang.c
@@ -142,17 +142,26 @@ NSCAngNotifyer_init(NSCAngNotifyer *self, PyObject *args, PyObject *kwds)
 	static char *kwlist[] = { "host", "port", "identity", "psk", "ciphers",
 	    NULL };
 
-	self->host = NULL;
+	char *host = NULL;
+
 	self->port = 5668;
 	self->identity = NULL;
 	self->psk = NULL;
 	self->ciphers = NULL;
 
 	if (!PyArg_ParseTupleAndKeywords(args, kwds, "sIss|s:__init__", kwlist,
-	    &self->host, &self->port, &self->identity,
+	    &host, &self->port, &self->identity,
 	    &self->psk, &self->ciphers))
 		return -1;
 
+	free(self->host);
+	self->host = strdup(host);
+	if (self->host == NULL) {
+		PyErr_Format(PyExc_MemoryError,
+		    "Can't allocate memory for host name");
+		return -1;
+	}
+
 	NSCAngNotifyer_free_client(self);
 
 	self->client = malloc(sizeof(nscang_client_t));
@@ -177,6 +186,7 @@ static void
 NSCAngNotifyer_dealloc(NSCAngNotifyer *self)
 {
 	NSCAngNotifyer_free_client(self);
+	free(self->host);
 	Py_TYPE(self)->tp_free((PyObject *)self);
 }
 
-- 
2.43.0


From c018797c6026cff9c4ad8942e61cfb48bcfc69be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:55 +0000
Subject: [PATCH 38/58] fix: Python client: refuse integers that are out of
 range

---
 python/nscang.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/nscang.c b/python/nscang.c
index ab01ce2..04f5d3e 100644
--- a/python/nscang.c
+++ b/python/nscang.c
@@ -36,7 +36,7 @@
 typedef struct {
 	PyObject_HEAD
 	char *host;
-	unsigned int port;
+	int port;
 	char *identity;
 	char *psk;
 	char *ciphers;
@@ -56,7 +56,7 @@ nscang_host_result(PyObject *self, PyObject *args, PyObject *kwds)
 	int timeout = 5;
 	nscang_client_t *client = ((NSCAngNotifyer *)self)->client;
 
-	if (!PyArg_ParseTupleAndKeywords(args, kwds, "sI|sI:host_result",
+	if (!PyArg_ParseTupleAndKeywords(args, kwds, "si|si:host_result",
 	    kwlist, &host, &rc, &output, &timeout))
 		return NULL;
 
@@ -97,7 +97,7 @@ nscang_svc_result(PyObject *self, PyObject *args, PyObject *kwds)
 	int timeout = 5;
 	nscang_client_t *client = ((NSCAngNotifyer *)self)->client;
 
-	if (!PyArg_ParseTupleAndKeywords(args, kwds, "ssI|sI:svc_result",
+	if (!PyArg_ParseTupleAndKeywords(args, kwds, "ssi|si:svc_result",
 	    kwlist, &host, &service, &rc, &output, &timeout))
 		return NULL;
 
@@ -149,7 +149,7 @@ NSCAngNotifyer_init(NSCAngNotifyer *self, PyObject *args, PyObject *kwds)
 	self->psk = NULL;
 	self->ciphers = NULL;
 
-	if (!PyArg_ParseTupleAndKeywords(args, kwds, "sIss|s:__init__", kwlist,
+	if (!PyArg_ParseTupleAndKeywords(args, kwds, "siss|s:__init__", kwlist,
 	    &host, &self->port, &self->identity,
 	    &self->psk, &self->ciphers))
 		return -1;
-- 
2.43.0


From 9fd49482f447e23a3e7783061e2d661d9eb6f6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:08 +0000
Subject: [PATCH 39/58] fix: Perl client: don't use error messages as format
 strings

---
 perl/Client.xs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/perl/Client.xs b/perl/Client.xs
index 0af06a2..2d992d3 100644
--- a/perl/Client.xs
+++ b/perl/Client.xs
@@ -218,4 +218,4 @@ command(self, command)
    self->client_initialized = 0;
    nscang_client_free(&(self->client));
 
-   croak(errstr);
+   croak("%s", errstr);
-- 
2.43.0


From 724658088e59ca1562a291264c8c46fe167f13e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 40/58] fix: Perl client: don't take an old errno for an
 invalid timestamp

---
 perl/client.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/perl/client.c b/perl/client.c
index aec3747..318a051 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -27,6 +27,7 @@
 
 #include <openssl/ssl.h>
 #include <openssl/err.h>
+#include <errno.h>
 #include <poll.h>
 #include <string.h>
 #include <time.h>
@@ -331,6 +332,7 @@ has_timestamp_prefix(const char *s)
 
    if(*s++ != '[') return 0;
    if((*s < '0') || (*s > '9')) return -1; // counter strtol's skip-whitespace and sign permissiveness
+   errno = 0;
    (void)strtol(s, &end, 10); // discard result
    if(errno) return -1;
    if(*end == ']') return 1;
-- 
2.43.0


From a96a562cd0b854a3a42b0631cd4fa2713eb69c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 41/58] fix: Perl client: refuse strings with NUL characters
 instead of cutting them short

---
 perl/Client.xs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/perl/Client.xs b/perl/Client.xs
index 2d992d3..c0ab6c2 100644
--- a/perl/Client.xs
+++ b/perl/Client.xs
@@ -10,6 +10,16 @@
 
 #include "client.h"
 
+// Get a C string from an SV, but don't silently cut it short.
+static char *sv_string(pTHX_ SV *sv, const char *name) {
+   STRLEN len;
+   char *s = SvPV(sv, len);
+
+   if(strlen(s) != len)
+      croak("%s must not include NUL characters", name);
+   return s;
+}
+
 #define SV_OR_DIE(var) { if(!SvOK(var)) croak("%s must not be undef", #var); }
 #define SV_OR_NULL(var) (SvOK(var) ? SvPV_nolen(var) : NULL)
 #define SVdup_OR_NULL(var) (SvOK(var) ? strdup(SvPV_nolen(var)) : NULL)
@@ -138,9 +148,10 @@ _result(self, is_host_result, node_name, svc_description, return_code, plugin_ou
    SV * node_name
    SV * svc_description
    int return_code
-   char * plugin_output
+   SV * plugin_output
 
    CODE:
+   char *coutput = sv_string(aTHX_ plugin_output, "plugin_output");
    char *cnode_name = self->node_name;
    char *csvc_description = self->svc_description;
    char errstr[1024];
@@ -150,13 +161,13 @@ _result(self, is_host_result, node_name, svc_description, return_code, plugin_ou
       init_client(self);
 
    if(SvOK(node_name))
-      cnode_name = SvPV_nolen(node_name);
+      cnode_name = sv_string(aTHX_ node_name, "node_name");
 
    if(is_host_result) {
       csvc_description = NULL;
    } else {
       if(SvOK(svc_description))
-         csvc_description = SvPV_nolen(svc_description);
+         csvc_description = sv_string(aTHX_ svc_description, "svc_description");
    }
 
    if(!(is_host_result || csvc_description))
@@ -166,14 +177,14 @@ _result(self, is_host_result, node_name, svc_description, return_code, plugin_ou
       croak("node_name missing");
 
 	if(nscang_client_send_push(client,
-      cnode_name, csvc_description, return_code, plugin_output, self->timeout))
+      cnode_name, csvc_description, return_code, coutput, self->timeout))
       XSRETURN_UNDEF;
 
    if(client->_errno == NSCANG_ERROR_TIMEOUT) {
 	   nscang_client_disconnect(client);
 
       if(nscang_client_send_push(client,
-               cnode_name, csvc_description, return_code, plugin_output, self->timeout))
+               cnode_name, csvc_description, return_code, coutput, self->timeout))
          XSRETURN_UNDEF;
    }
 
@@ -201,7 +212,7 @@ command(self, command)
       init_client(self);
 
    if(SvOK(command)) {
-      ccommand = SvPV_nolen(command);
+      ccommand = sv_string(aTHX_ command, "command");
    } else {
       croak("command missing");
    }
-- 
2.43.0


From 925ebc1e7e71d64dd10e43cd7c6a0628c9a5ebad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:48 +0000
Subject: [PATCH 42/58] fix: Perl client: don't let a lost connection kill the
 process

---
 perl/client.c | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/perl/client.c b/perl/client.c
index 318a051..c92a79d 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -29,6 +29,7 @@
 #include <openssl/err.h>
 #include <errno.h>
 #include <poll.h>
+#include <signal.h>
 #include <string.h>
 #include <time.h>
 
@@ -151,6 +152,24 @@ nscang_client_free(nscang_client_t *c)
 	c->state = NSCANG_STATE_NONE;
 }
 
+/* OpenSSL might write to a connection the server has closed. */
+static void
+ignore_sigpipe(struct sigaction *saved)
+{
+	struct sigaction sa;
+
+	memset(&sa, 0x00, sizeof(sa));
+	sa.sa_handler = SIG_IGN;
+	sigemptyset(&sa.sa_mask);
+	sigaction(SIGPIPE, &sa, saved);
+}
+
+static void
+restore_sigpipe(const struct sigaction *saved)
+{
+	sigaction(SIGPIPE, saved, NULL);
+}
+
 static void
 wait_for_socket(nscang_client_t *c)
 {
@@ -166,11 +185,15 @@ nscang_client_write(nscang_client_t *c, void *buf, int len, int timeout)
 {
 	int rc;
 	time_t endtime;
+	struct sigaction sa;
 
 	endtime = time(NULL) + timeout;
 
 	while (1) {
-		if ((rc = SSL_write(c->ssl, buf, len)) > 0)
+		ignore_sigpipe(&sa);
+		rc = SSL_write(c->ssl, buf, len);
+		restore_sigpipe(&sa);
+		if (rc > 0)
 			return 1;
 
 		if (!BIO_should_retry(c->bio)) {
@@ -195,11 +218,14 @@ nscang_client_response(nscang_client_t *c, int timeout)
 	char buf[1024];
 	int was_read = 0;
 	char *ptr = buf;
+	struct sigaction sa;
 
 	endtime = time(NULL) + timeout;
 
 	while (1) {
+		ignore_sigpipe(&sa);
 		rc = SSL_read(c->ssl, ptr, 1024 - was_read);
+		restore_sigpipe(&sa);
 
 		if (rc > 0) {
 			was_read = was_read + rc;
@@ -271,13 +297,17 @@ nscang_client_response(nscang_client_t *c, int timeout)
 void
 nscang_client_disconnect(nscang_client_t *c)
 {
+	struct sigaction sa;
+
 	if (c->state == NSCANG_STATE_MOIN)
 		nscang_client_send_quit(c);
 
+	ignore_sigpipe(&sa);
 	if ((SSL_shutdown(c->ssl) == -1) && BIO_should_retry(c->bio)) {
 		wait_for_socket(c);
 		SSL_shutdown(c->ssl);
 	}
+	restore_sigpipe(&sa);
 
 	SSL_clear(c->ssl);
 	/* The server doesn't support resuming sessions. */
-- 
2.43.0


From 4271155b38bf76e9ecf2e3c591350f243c2b5a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:36 +0000
Subject: [PATCH 43/58] fix: Perl and Python clients: don't block while the TCP
 connection isn't established

---
 perl/client.c   | 22 ++++++++++++----------
 python/client.c | 22 ++++++++++++----------
 2 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/perl/client.c b/perl/client.c
index c92a79d..48efc8f 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -170,14 +170,20 @@ restore_sigpipe(const struct sigaction *saved)
 	sigaction(SIGPIPE, saved, NULL);
 }
 
-static void
-wait_for_socket(nscang_client_t *c)
+static int
+wait_for_socket(nscang_client_t *c, time_t endtime)
 {
 	struct pollfd pfd;
 
 	pfd.fd = BIO_get_fd(c->bio, NULL);
 	pfd.events = SSL_want_read(c->ssl) ? POLLIN : POLLOUT;
-	(void)poll(&pfd, 1, 100);
+
+	/* OpenSSL blocks if it's called before a TCP connection is there. */
+	while (poll(&pfd, 1, 100) <= 0)
+		if (time(NULL) > endtime)
+			return 0;
+
+	return 1;
 }
 
 int
@@ -201,12 +207,10 @@ nscang_client_write(nscang_client_t *c, void *buf, int len, int timeout)
 			return 0;
 		}
 
-		if (time(NULL) > endtime) {
+		if (time(NULL) > endtime || !wait_for_socket(c, endtime)) {
 			c->_errno = NSCANG_ERROR_TIMEOUT;
 			return 0;
 		}
-
-		wait_for_socket(c);
 	}
 }
 
@@ -249,12 +253,10 @@ nscang_client_response(nscang_client_t *c, int timeout)
 			return 0;
 		}
 
-		if (time(NULL) > endtime) {
+		if (time(NULL) > endtime || !wait_for_socket(c, endtime)) {
 			c->_errno = NSCANG_ERROR_TIMEOUT;
 			return 0;
 		}
-
-		wait_for_socket(c);
 	}
 
 	if (strncmp(buf, "MOIN", 4) == 0) {
@@ -304,7 +306,7 @@ nscang_client_disconnect(nscang_client_t *c)
 
 	ignore_sigpipe(&sa);
 	if ((SSL_shutdown(c->ssl) == -1) && BIO_should_retry(c->bio)) {
-		wait_for_socket(c);
+		wait_for_socket(c, 0);
 		SSL_shutdown(c->ssl);
 	}
 	restore_sigpipe(&sa);
diff --git a/python/client.c b/python/client.c
index bda8007..de0a36e 100644
--- a/python/client.c
+++ b/python/client.c
@@ -188,14 +188,20 @@ nscang_client_free(nscang_client_t *c)
 	c->state = NSCANG_STATE_NONE;
 }
 
-static void
-wait_for_socket(nscang_client_t *c)
+static int
+wait_for_socket(nscang_client_t *c, time_t endtime)
 {
 	struct pollfd pfd;
 
 	pfd.fd = BIO_get_fd(c->bio, NULL);
 	pfd.events = SSL_want_read(c->ssl) ? POLLIN : POLLOUT;
-	(void)poll(&pfd, 1, 100);
+
+	/* OpenSSL blocks if it's called before a TCP connection is there. */
+	while (poll(&pfd, 1, 100) <= 0)
+		if (time(NULL) > endtime)
+			return 0;
+
+	return 1;
 }
 
 int
@@ -215,12 +221,10 @@ nscang_client_write(nscang_client_t *c, void *buf, int len, int timeout)
 			return 0;
 		}
 
-		if (time(NULL) > endtime) {
+		if (time(NULL) > endtime || !wait_for_socket(c, endtime)) {
 			c->_errno = NSCANG_ERROR_TIMEOUT;
 			return 0;
 		}
-
-		wait_for_socket(c);
 	}
 }
 
@@ -260,12 +264,10 @@ nscang_client_response(nscang_client_t *c, int timeout)
 			return 0;
 		}
 
-		if (time(NULL) > endtime) {
+		if (time(NULL) > endtime || !wait_for_socket(c, endtime)) {
 			c->_errno = NSCANG_ERROR_TIMEOUT;
 			return 0;
 		}
-
-		wait_for_socket(c);
 	}
 
 	if (strncmp(buf, "MOIN", 4) == 0) {
@@ -312,7 +314,7 @@ nscang_client_disconnect(nscang_client_t *c)
 		nscang_client_send_quit(c);
 
 	if ((SSL_shutdown(c->ssl) == -1) && BIO_should_retry(c->bio)) {
-		wait_for_socket(c);
+		wait_for_socket(c, 0);
 		SSL_shutdown(c->ssl);
 	}
 
-- 
2.43.0


From 3d4b3f8ac280c894ec80ea152f7a24e9a5a421c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:45 +0000
Subject: [PATCH 44/58] fix: pass unsigned characters to tolower(3) in
 strcasecmp() and strncasecmp()

Passing it a negative value is undefined behaviour, and characters
beyond 127 got the wrong order.
---
 lib/strcasecmp.c  | 3 ++-
 lib/strncasecmp.c | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/strcasecmp.c b/lib/strcasecmp.c
index c630013..f82bbf2 100644
--- a/lib/strcasecmp.c
+++ b/lib/strcasecmp.c
@@ -39,7 +39,8 @@ strcasecmp(const char *s1, const char *s2)
 	size_t i = 0;
 	int c1, c2;
 
-	while ((c1 = tolower(s1[i])) == (c2 = tolower(s2[i]))) {
+	while ((c1 = tolower((unsigned char)s1[i]))
+	    == (c2 = tolower((unsigned char)s2[i]))) {
 		if (s1[i] == '\0')
 			return 0;
 		i++;
diff --git a/lib/strncasecmp.c b/lib/strncasecmp.c
index 6e560c4..0d8dd70 100644
--- a/lib/strncasecmp.c
+++ b/lib/strncasecmp.c
@@ -40,8 +40,8 @@ strncasecmp(const char *s1, const char *s2, size_t n)
 	size_t i;
 
 	for (i = 0; i < n; i++) {
-		int c1 = tolower(s1[i]);
-		int c2 = tolower(s2[i]);
+		int c1 = tolower((unsigned char)s1[i]);
+		int c2 = tolower((unsigned char)s2[i]);
 
 		if (c1 != c2)
 			return c1 - c2;
-- 
2.43.0


From 2963c6c741935810be4c2239d56d833f67ebc343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:57 +0000
Subject: [PATCH 45/58] fix: xprintf: don't read the character following the
 precision

With "%.*s", the string doesn't have to be terminated.
---
 lib/xprintf.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/xprintf.c b/lib/xprintf.c
index fc680f7..8cc9596 100644
--- a/lib/xprintf.c
+++ b/lib/xprintf.c
@@ -687,8 +687,8 @@ fmtstr(char *str, size_t *len, size_t size, const char *value, int width,
 		value = "(null)";
 
 	/* If a precision was specified, don't read the string past it. */
-	for (strln = 0; value[strln] != '\0' &&
-	    (noprecision || strln < precision); strln++)
+	for (strln = 0; (noprecision || strln < precision) &&
+	    value[strln] != '\0'; strln++)
 		continue;
 
 	if ((padlen = width - strln) < 0)
@@ -700,7 +700,7 @@ fmtstr(char *str, size_t *len, size_t size, const char *value, int width,
 		OUTCHAR(str, *len, size, ' ');
 		padlen--;
 	}
-	while (*value != '\0' && (noprecision || precision-- > 0)) {
+	while ((noprecision || precision-- > 0) && *value != '\0') {
 		OUTCHAR(str, *len, size, *value);
 		value++;
 	}
-- 
2.43.0


From c48386de80df1b43fadf1f849d5f19e93f383937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:22 +0000
Subject: [PATCH 46/58] fix: contrib: don't expand backslash sequences in
 arguments and plugin output

printf's %b turned a backslash in a comment, a service name, or the
output of a plugin into something else; "\n" started another command
and "\c" dropped the rest of it.
---
 contrib/acknowledge  | 4 ++--
 contrib/downtime     | 4 ++--
 contrib/invoke_check | 3 ++-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/contrib/acknowledge b/contrib/acknowledge
index 31debb5..a23cc43 100755
--- a/contrib/acknowledge
+++ b/contrib/acknowledge
@@ -57,10 +57,10 @@ comment=${comment:-"Submitted by send_nsca@`hostname -s`"}
 
 if [ -z "$service" ]
 then	# Host acknowledgement.
-	printf '%b' "ACKNOWLEDGE_HOST_PROBLEM;$host;1;0;1;$author;$comment\n" \
+	printf '%s\n' "ACKNOWLEDGE_HOST_PROBLEM;$host;1;0;1;$author;$comment" \
 	    | send_nsca -C $send_nsca_args
 else	# Service acknowledgement.
-	printf '%b' "ACKNOWLEDGE_SVC_PROBLEM;$host;$service;1;0;1;$author;$comment\n" \
+	printf '%s\n' "ACKNOWLEDGE_SVC_PROBLEM;$host;$service;1;0;1;$author;$comment" \
 	    | send_nsca -C $send_nsca_args
 fi
 
diff --git a/contrib/downtime b/contrib/downtime
index fa173b2..a61e00c 100755
--- a/contrib/downtime
+++ b/contrib/downtime
@@ -73,10 +73,10 @@ comment=${comment:-"Submitted by send_nsca@`hostname -s`"}
 
 if [ -z "$service" ]
 then	# Host check.
-	printf '%b' "SCHEDULE_HOST_DOWNTIME;$host;$start;$end;1;0;0;$author;$comment\n" \
+	printf '%s\n' "SCHEDULE_HOST_DOWNTIME;$host;$start;$end;1;0;0;$author;$comment" \
 	    | send_nsca -C $send_nsca_args
 else	# Service check.
-	printf '%b' "SCHEDULE_SVC_DOWNTIME;$host;$service;$start;$end;1;0;0;$author;$comment\n" \
+	printf '%s\n' "SCHEDULE_SVC_DOWNTIME;$host;$service;$start;$end;1;0;0;$author;$comment" \
 	    | send_nsca -C $send_nsca_args
 fi
 
diff --git a/contrib/invoke_check b/contrib/invoke_check
index abe6341..8c26d13 100755
--- a/contrib/invoke_check
+++ b/contrib/invoke_check
@@ -57,6 +57,7 @@ state=$?
 
 test $state -le 3 || die "$0: '$@' yields invalid plugin return code $state"
 
-printf '%b' "$host\t$service\t$state\t$output\n" | send_nsca $send_nsca_args
+printf '%s\t%s\t%s\t%s\n' "$host" "$service" "$state" "$output" \
+    | send_nsca $send_nsca_args
 
 # vim:set joinspaces noexpandtab textwidth=80:
-- 
2.43.0


From b81337d13264366f19710ea645ec8eb5bace0743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:34 +0000
Subject: [PATCH 47/58] fix: contrib: accept configuration file names with
 blanks and wildcards

---
 contrib/acknowledge           | 7 ++++---
 contrib/disable_notifications | 5 +++--
 contrib/downtime              | 7 ++++---
 contrib/enable_notifications  | 5 +++--
 contrib/invoke_check          | 5 +++--
 5 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/contrib/acknowledge b/contrib/acknowledge
index a23cc43..aeb018a 100755
--- a/contrib/acknowledge
+++ b/contrib/acknowledge
@@ -14,6 +14,7 @@ set -e
 set -u
 
 send_nsca_args=${SEND_NSCA_ARGS:+$SEND_NSCA_ARGS}
+unset config_file
 
 die()
 {
@@ -33,7 +34,7 @@ do
 		comment=$OPTARG
 		;;
 	c)
-		send_nsca_args="${send_nsca_args:+$send_nsca_args }-c $OPTARG"
+		config_file=$OPTARG
 		;;
 	H)
 		host=$OPTARG
@@ -58,10 +59,10 @@ comment=${comment:-"Submitted by send_nsca@`hostname -s`"}
 if [ -z "$service" ]
 then	# Host acknowledgement.
 	printf '%s\n' "ACKNOWLEDGE_HOST_PROBLEM;$host;1;0;1;$author;$comment" \
-	    | send_nsca -C $send_nsca_args
+	    | send_nsca -C $send_nsca_args ${config_file+-c "$config_file"}
 else	# Service acknowledgement.
 	printf '%s\n' "ACKNOWLEDGE_SVC_PROBLEM;$host;$service;1;0;1;$author;$comment" \
-	    | send_nsca -C $send_nsca_args
+	    | send_nsca -C $send_nsca_args ${config_file+-c "$config_file"}
 fi
 
 # vim:set joinspaces noexpandtab textwidth=80:
diff --git a/contrib/disable_notifications b/contrib/disable_notifications
index f773843..dd46b16 100755
--- a/contrib/disable_notifications
+++ b/contrib/disable_notifications
@@ -14,6 +14,7 @@ set -e
 set -u
 
 send_nsca_args=${SEND_NSCA_ARGS:+$SEND_NSCA_ARGS}
+unset config_file
 
 die()
 {
@@ -30,7 +31,7 @@ while getopts c:h option
 do
 	case $option in
 	c)
-		send_nsca_args="${send_nsca_args:+$send_nsca_args }-c $OPTARG"
+		config_file=$OPTARG
 		;;
 	h|\?)
 		usage
@@ -41,6 +42,6 @@ done
 shift `expr $OPTIND - 1`
 test $# -eq 0 || usage
 
-printf '%b' 'DISABLE_NOTIFICATIONS\n' | send_nsca -C $send_nsca_args
+printf '%b' 'DISABLE_NOTIFICATIONS\n' | send_nsca -C $send_nsca_args ${config_file+-c "$config_file"}
 
 # vim:set joinspaces noexpandtab textwidth=80:
diff --git a/contrib/downtime b/contrib/downtime
index a61e00c..0ff4d01 100755
--- a/contrib/downtime
+++ b/contrib/downtime
@@ -19,6 +19,7 @@ set -e
 set -u
 
 send_nsca_args=${SEND_NSCA_ARGS:+$SEND_NSCA_ARGS}
+unset config_file
 
 die()
 {
@@ -41,7 +42,7 @@ do
 		comment=$OPTARG
 		;;
 	c)
-		send_nsca_args="${send_nsca_args:+$send_nsca_args }-c $OPTARG"
+		config_file=$OPTARG
 		;;
 	e)
 		end=$OPTARG
@@ -74,10 +75,10 @@ comment=${comment:-"Submitted by send_nsca@`hostname -s`"}
 if [ -z "$service" ]
 then	# Host check.
 	printf '%s\n' "SCHEDULE_HOST_DOWNTIME;$host;$start;$end;1;0;0;$author;$comment" \
-	    | send_nsca -C $send_nsca_args
+	    | send_nsca -C $send_nsca_args ${config_file+-c "$config_file"}
 else	# Service check.
 	printf '%s\n' "SCHEDULE_SVC_DOWNTIME;$host;$service;$start;$end;1;0;0;$author;$comment" \
-	    | send_nsca -C $send_nsca_args
+	    | send_nsca -C $send_nsca_args ${config_file+-c "$config_file"}
 fi
 
 # vim:set joinspaces noexpandtab textwidth=80:
diff --git a/contrib/enable_notifications b/contrib/enable_notifications
index bb122fe..4463778 100755
--- a/contrib/enable_notifications
+++ b/contrib/enable_notifications
@@ -14,6 +14,7 @@ set -e
 set -u
 
 send_nsca_args=${SEND_NSCA_ARGS:+$SEND_NSCA_ARGS}
+unset config_file
 
 die()
 {
@@ -30,7 +31,7 @@ while getopts c:h option
 do
 	case $option in
 	c)
-		send_nsca_args="${send_nsca_args:+$send_nsca_args }-c $OPTARG"
+		config_file=$OPTARG
 		;;
 	h|\?)
 		usage
@@ -41,6 +42,6 @@ done
 shift `expr $OPTIND - 1`
 test $# -eq 0 || usage
 
-printf '%b' 'ENABLE_NOTIFICATIONS\n' | send_nsca -C $send_nsca_args
+printf '%b' 'ENABLE_NOTIFICATIONS\n' | send_nsca -C $send_nsca_args ${config_file+-c "$config_file"}
 
 # vim:set joinspaces noexpandtab textwidth=80:
diff --git a/contrib/invoke_check b/contrib/invoke_check
index 8c26d13..672558c 100755
--- a/contrib/invoke_check
+++ b/contrib/invoke_check
@@ -13,6 +13,7 @@
 set -u
 
 send_nsca_args=${SEND_NSCA_ARGS:+$SEND_NSCA_ARGS}
+unset config_file
 
 PATH="$PATH:/usr/local/nagios/libexec:/usr/lib/nagios/plugins"
 export PATH
@@ -33,7 +34,7 @@ while getopts c:H:hS: option
 do
 	case $option in
 	c)
-		send_nsca_args="${send_nsca_args:+$send_nsca_args }-c $OPTARG"
+		config_file=$OPTARG
 		;;
 	H)
 		host=$OPTARG
@@ -58,6 +59,6 @@ state=$?
 test $state -le 3 || die "$0: '$@' yields invalid plugin return code $state"
 
 printf '%s\t%s\t%s\t%s\n' "$host" "$service" "$state" "$output" \
-    | send_nsca $send_nsca_args
+    | send_nsca $send_nsca_args ${config_file+-c "$config_file"}
 
 # vim:set joinspaces noexpandtab textwidth=80:
-- 
2.43.0


From 745ec66ff8d455426f2e0c4c492caf8bd36a4268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:46 +0000
Subject: [PATCH 48/58] fix: contrib/downtime: accept dates consisting of more
 than one word

"-s 'next monday'" was split into several arguments for date(1).
---
 contrib/downtime | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/contrib/downtime b/contrib/downtime
index 0ff4d01..98c2317 100755
--- a/contrib/downtime
+++ b/contrib/downtime
@@ -67,8 +67,8 @@ test $# -eq 0 || usage
 
 host=${host:-`hostname -s`}
 service=${service:+$service}
-start=`date -d ${start:-'now'} '+%s'`
-end=`date -d ${end:-'+2 hours'} '+%s'`
+start=`date -d "${start:-now}" '+%s'`
+end=`date -d "${end:-+2 hours}" '+%s'`
 author=`getent passwd "$USER" | cut -d: -f5`
 comment=${comment:-"Submitted by send_nsca@`hostname -s`"}
 
-- 
2.43.0


From 2c116e04c8b9157daca605697aeef00881566cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:59 +0000
Subject: [PATCH 49/58] fix: contrib: don't take options from the environment

Variables called "host", "service", "comment", "start" or "end" were
used as if the according option had been specified.
---
 contrib/acknowledge  | 2 +-
 contrib/downtime     | 2 +-
 contrib/invoke_check | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/contrib/acknowledge b/contrib/acknowledge
index aeb018a..9f24924 100755
--- a/contrib/acknowledge
+++ b/contrib/acknowledge
@@ -14,7 +14,7 @@ set -e
 set -u
 
 send_nsca_args=${SEND_NSCA_ARGS:+$SEND_NSCA_ARGS}
-unset config_file
+unset comment config_file host service
 
 die()
 {
diff --git a/contrib/downtime b/contrib/downtime
index 98c2317..9586ae6 100755
--- a/contrib/downtime
+++ b/contrib/downtime
@@ -19,7 +19,7 @@ set -e
 set -u
 
 send_nsca_args=${SEND_NSCA_ARGS:+$SEND_NSCA_ARGS}
-unset config_file
+unset comment config_file end host service start
 
 die()
 {
diff --git a/contrib/invoke_check b/contrib/invoke_check
index 672558c..495ca25 100755
--- a/contrib/invoke_check
+++ b/contrib/invoke_check
@@ -13,7 +13,7 @@
 set -u
 
 send_nsca_args=${SEND_NSCA_ARGS:+$SEND_NSCA_ARGS}
-unset config_file
+unset config_file host service
 
 PATH="$PATH:/usr/local/nagios/libexec:/usr/lib/nagios/plugins"
 export PATH
-- 
2.43.0


From 6b5885ab61793cee395ccdf36231a60cb468cae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:46 +0000
Subject: [PATCH 50/58] fix: Don't pass a null pointer when logging system
 errors

ERR_reason_error_string() returns NULL for them since OpenSSL 3, so that the
reason of a failing connect(2) or bind(2) was logged as (null).
---
 src/common/tls.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/common/tls.c b/src/common/tls.c
index 16e7318..4bee912 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -992,9 +992,13 @@ log_tls_message(void log(const char *, ...), const char *format, ...)
 	xvasprintf(&message, format, ap);
 	va_end(ap);
 
-	if ((e = ERR_get_error()) != 0)
-		log("%s: %s", message, ERR_reason_error_string(e));
-	else
+	if ((e = ERR_get_error()) != 0) {
+		const char *reason = ERR_reason_error_string(e);
+
+		/* OpenSSL 3 has no reason strings for system errors. */
+		log("%s: %s", message,
+		    reason != NULL ? reason : ERR_error_string(e, NULL));
+	} else
 		log("%s", message);
 
 	free(message);
-- 
2.43.0


From 7a4c9360fb49fb618b616e3d2269b2157d981aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:00 +0000
Subject: [PATCH 51/58] fix: Don't pass null pointers when formatting Python
 exceptions

ERR_reason_error_string() returns NULL if there's no error in the queue, and
(since OpenSSL 3) for system errors.
---
 python/client.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/client.c b/python/client.c
index de0a36e..ccb8928 100644
--- a/python/client.c
+++ b/python/client.c
@@ -434,6 +434,8 @@ nscang_client_send_quit(nscang_client_t *c)
 char *
 nscang_client_errstr(nscang_client_t *c, char *buf, int buf_size)
 {
+	const char *first, *last;
+
 	switch (c->_errno) {
 	case NSCANG_ERROR_SSL_CTX_CREATE:
 		strncpy(buf, "Can't create SSL context", buf_size);
@@ -448,9 +450,11 @@ nscang_client_errstr(nscang_client_t *c, char *buf, int buf_size)
 		strncpy(buf, "Can't create SSL", buf_size);
 		break;
 	case NSCANG_ERROR_SSL:
+		last = ERR_reason_error_string(ERR_peek_last_error());
+		first = ERR_reason_error_string(ERR_peek_error());
 		snprintf(buf, buf_size, "SSL error - %s - %s",
-		    ERR_reason_error_string(ERR_peek_last_error()),
-		    ERR_reason_error_string(ERR_peek_error()));
+		    last != NULL ? last : "unknown",
+		    first != NULL ? first : "unknown");
 		break;
 	case NSCANG_ERROR_MALLOC:
 		strncpy(buf, "Can't allocate memory", buf_size);
-- 
2.43.0


From 9b4fd373234de2612da21cbea4172851f883181e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:59 +0000
Subject: [PATCH 52/58] fix: don't spin while a connection cannot be accepted

---
 src/common/tls.c | 24 +++++++++++++++++++++++-
 src/common/tls.h |  1 +
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/common/tls.c b/src/common/tls.c
index 4bee912..4e0adce 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -125,6 +125,7 @@
 #define LINE_MAX_SIZE 2048
 #define LINE_BUFFER_SIZE 128
 #define LINE_TERMINATOR "\r\n"
+#define ACCEPT_RETRY_DELAY 0.5
 
 enum {
 	READ_LINE, /* The read() function relies on READ_LINE == 0. */
@@ -144,6 +145,7 @@ static tls_state *tls_new(int, int);
 static void tls_free(tls_state *);
 static void connect_cb(EV_P_ ev_io *, int);
 static void accept_tcp_cb(EV_P_ ev_io *, int);
+static void accept_retry_cb(EV_P_ ev_timer *, int);
 static void accept_ssl_cb(EV_P_ ev_io *, int);
 static void read_cb(EV_P_ ev_io *, int);
 static void write_cb(EV_P_ ev_io *, int);
@@ -227,6 +229,8 @@ tls_server_start(const char * restrict host_port,
 	ctx->connect_handler = handle_connect;
 	ctx->timeout = timeout;
 	ctx->accept_watcher.data = ctx;
+	ctx->retry_watcher.data = ctx;
+	ev_init(&ctx->retry_watcher, accept_retry_cb);
 
 	ev_io_init(&ctx->accept_watcher, accept_tcp_cb,
 	    (int)BIO_get_fd(ctx->bio, NULL), EV_READ);
@@ -589,9 +593,19 @@ accept_tcp_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
 		if (BIO_do_accept(ctx->bio) <= 0) {
 			if (BIO_should_retry(ctx->bio))
 				debug("Cannot accept connection right now");
-			else
+			else {
 				log_tls_message(warning,
 				    "Cannot accept connection");
+				/*
+				 * The connection remains pending if (e.g.) no
+				 * file descriptor is available.  We wait before
+				 * trying again in order to avoid spinning.
+				 */
+				ev_io_stop(EV_A_ w);
+				ev_timer_set(&ctx->retry_watcher,
+				    ACCEPT_RETRY_DELAY, 0.0);
+				ev_timer_start(EV_A_ &ctx->retry_watcher);
+			}
 			return; /* Let's do something else. */
 		}
 
@@ -626,6 +640,14 @@ accept_tcp_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
 	}
 }
 
+static void
+accept_retry_cb(EV_P_ ev_timer *w, int revents __attribute__((__unused__)))
+{
+	tls_server_state *ctx = w->data;
+
+	ev_io_start(EV_A_ &ctx->accept_watcher);
+}
+
 static void
 accept_ssl_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
 {
diff --git a/src/common/tls.h b/src/common/tls.h
index b111f79..0d50aa6 100644
--- a/src/common/tls.h
+++ b/src/common/tls.h
@@ -111,6 +111,7 @@ typedef struct {
 /* private: */
 	void (*connect_handler)(tls_state *);
 	ev_io accept_watcher;
+	ev_timer retry_watcher;
 	SSL_CTX *ssl;
 	BIO *bio;
 	ev_tstamp timeout;
-- 
2.43.0


From ff136a32c8a6da7d12a60fc5aacea45238d0b3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:32 +0000
Subject: [PATCH 53/58] fix: Terminate the modules' requests with CR LF

---
 perl/client.c   | 2 +-
 python/client.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/perl/client.c b/perl/client.c
index 48efc8f..828d700 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -471,7 +471,7 @@ nscang_client_send_quit(nscang_client_t *c)
 		return 0;
 	}
 
-	if (!nscang_client_write(c, "QUIT\n", 5, 0))
+	if (!nscang_client_write(c, "QUIT\r\n", 6, 0))
 		return 0;
 
 	return 1;
diff --git a/python/client.c b/python/client.c
index ccb8928..cf8fdca 100644
--- a/python/client.c
+++ b/python/client.c
@@ -387,7 +387,7 @@ nscang_client_send_push(nscang_client_t *c, char *host, char *service,
 
 	command[len++] = '\n';
 
-	snprintf(cmd, sizeof(cmd), "PUSH %d\n", len);
+	snprintf(cmd, sizeof(cmd), "PUSH %d\r\n", len);
 	if (!nscang_client_write(c, cmd, strlen(cmd), timeout))
 		return 0;
 
@@ -425,7 +425,7 @@ nscang_client_send_quit(nscang_client_t *c)
 		return 0;
 	}
 
-	if (!nscang_client_write(c, "QUIT\n", 5, 0))
+	if (!nscang_client_write(c, "QUIT\r\n", 6, 0))
 		return 0;
 
 	return 1;
-- 
2.43.0


From 3686b80d40f4450550114ea110adf90c48908e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:46 +0000
Subject: [PATCH 54/58] fix: Bail out properly in the client modules

The whole BAIL line is sent (sizeof(msg) was the size of a pointer), it is
also sent if the server's protocol version isn't supported, and no QUIT
follows a session that was bailed out of.
---
 perl/client.c   | 15 +++++++++++----
 python/client.c | 15 +++++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/perl/client.c b/perl/client.c
index 828d700..f05f593 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -214,6 +214,14 @@ nscang_client_write(nscang_client_t *c, void *buf, int len, int timeout)
 	}
 }
 
+static void
+bail(nscang_client_t *c, char *request)
+{
+	nscang_client_write(c, request, strlen(request), 0);
+	c->state = NSCANG_STATE_NEW; /* Don't send a QUIT request. */
+	nscang_client_disconnect(c);
+}
+
 int
 nscang_client_response(nscang_client_t *c, int timeout)
 {
@@ -263,6 +271,7 @@ nscang_client_response(nscang_client_t *c, int timeout)
 		if (strcmp(buf, "MOIN 1") == 0) {
 			return NSCANG_RESP_MOIN;
 		} else {
+			bail(c, "BAIL Protocol version not supported\r\n");
 			c->_errno = NSCANG_ERROR_BAD_PROTO_VERSION;
 			strncpy(c->errstr, buf[4] != 0x00 ? buf + 5 : "",
 			    sizeof(c->errstr) - 1);
@@ -278,6 +287,7 @@ nscang_client_response(nscang_client_t *c, int timeout)
 		c->errstr[sizeof(c->errstr) - 1] = 0x00;
 		return 0;
 	} else if (strncmp(buf, "BAIL", 4) == 0) {
+		c->state = NSCANG_STATE_NEW; /* Don't send a QUIT request. */
 		nscang_client_disconnect(c);
 		c->_errno = NSCANG_ERROR_BAIL;
 		strncpy(c->errstr, buf[4] != 0x00 ? buf + 5 : "",
@@ -285,10 +295,7 @@ nscang_client_response(nscang_client_t *c, int timeout)
 		c->errstr[sizeof(c->errstr) - 1] = 0x00;
 		return 0;
 	} else {
-		char *msg = "BAIL Unknown response!";
-
-		nscang_client_write(c, msg, sizeof(msg), 0);
-		nscang_client_disconnect(c);
+		bail(c, "BAIL Unknown response!\r\n");
 		c->_errno = NSCANG_ERROR_UNKNOWN_RESPONSE;
 		strncpy(c->errstr, buf, sizeof(c->errstr) - 1);
 		c->errstr[sizeof(c->errstr) - 1] = 0x00;
diff --git a/python/client.c b/python/client.c
index cf8fdca..e33971d 100644
--- a/python/client.c
+++ b/python/client.c
@@ -228,6 +228,14 @@ nscang_client_write(nscang_client_t *c, void *buf, int len, int timeout)
 	}
 }
 
+static void
+bail(nscang_client_t *c, char *request)
+{
+	nscang_client_write(c, request, strlen(request), 0);
+	c->state = NSCANG_STATE_NEW; /* Don't send a QUIT request. */
+	nscang_client_disconnect(c);
+}
+
 int
 nscang_client_response(nscang_client_t *c, int timeout)
 {
@@ -274,6 +282,7 @@ nscang_client_response(nscang_client_t *c, int timeout)
 		if (strcmp(buf, "MOIN 1") == 0) {
 			return NSCANG_RESP_MOIN;
 		} else {
+			bail(c, "BAIL Protocol version not supported\r\n");
 			c->_errno = NSCANG_ERROR_BAD_PROTO_VERSION;
 			strncpy(c->errstr, buf[4] != 0x00 ? buf + 5 : "",
 			    sizeof(c->errstr) - 1);
@@ -289,6 +298,7 @@ nscang_client_response(nscang_client_t *c, int timeout)
 		c->errstr[sizeof(c->errstr) - 1] = 0x00;
 		return 0;
 	} else if (strncmp(buf, "BAIL", 4) == 0) {
+		c->state = NSCANG_STATE_NEW; /* Don't send a QUIT request. */
 		nscang_client_disconnect(c);
 		c->_errno = NSCANG_ERROR_BAIL;
 		strncpy(c->errstr, buf[4] != 0x00 ? buf + 5 : "",
@@ -296,10 +306,7 @@ nscang_client_response(nscang_client_t *c, int timeout)
 		c->errstr[sizeof(c->errstr) - 1] = 0x00;
 		return 0;
 	} else {
-		char *msg = "BAIL Unknown response!";
-
-		nscang_client_write(c, msg, sizeof(msg), 0);
-		nscang_client_disconnect(c);
+		bail(c, "BAIL Unknown response!\r\n");
 		c->_errno = NSCANG_ERROR_UNKNOWN_RESPONSE;
 		strncpy(c->errstr, buf, sizeof(c->errstr) - 1);
 		c->errstr[sizeof(c->errstr) - 1] = 0x00;
-- 
2.43.0


From ccfb649c9a9f2512aad49c2316f7102aa05ad5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:00 +0000
Subject: [PATCH 55/58] fix: send_nsca: Bail out if a command fails

The session was left without a QUIT or BAIL request.
---
 src/client/client.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/client/client.c b/src/client/client.c
index 2e8e3e2..75dc6ab 100644
--- a/src/client/client.c
+++ b/src/client/client.c
@@ -292,6 +292,8 @@ server_is_grumpy(tls_state * restrict tls, char * restrict line)
 
 	if (strncasecmp("FAIL", line, 4) == 0
 	    || strncasecmp("BAIL", line, 4) == 0) {
+		if (strncasecmp("FAIL", line, 4) == 0)
+			send_request(tls, "BAIL Request failed");
 		client_stop(client);
 		critical("Server said: %s", line);
 		exit_code = EXIT_FAILURE;
-- 
2.43.0


From a55ef53a7568cfebbefc2d82eae9cf959e898e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:14 +0000
Subject: [PATCH 56/58] fix: Accept only servers that know the pre-shared key

With TLSv1.3 (and, in the client modules, with the default ciphers), any
server with a certificate was accepted, whatever the certificate.
---
 perl/client.c    | 3 +++
 python/client.c  | 3 +++
 src/common/tls.c | 8 ++++++++
 3 files changed, 14 insertions(+)

diff --git a/perl/client.c b/perl/client.c
index f05f593..2fc1274 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -84,6 +84,9 @@ nscang_client_init(nscang_client_t *c, char *host, int port, char *ciphers,
 
 	SSL_CTX_set_options(c->ssl_ctx, SSL_OP_NO_SSLv2 | SSL_OP_NO_SSLv3);
 
+	/* The server must know the key, a certificate is no substitute. */
+	SSL_CTX_set_verify(c->ssl_ctx, SSL_VERIFY_PEER, NULL);
+
 	c->bio = BIO_new(BIO_s_connect());
 	if (c->bio == NULL) {
 		c->_errno = NSCANG_ERROR_SSL_BIO_CREATE;
diff --git a/python/client.c b/python/client.c
index e33971d..6eeb111 100644
--- a/python/client.c
+++ b/python/client.c
@@ -96,6 +96,9 @@ nscang_client_init(nscang_client_t *c, char *host, int port, char *ciphers,
 
 	SSL_CTX_set_options(c->ssl_ctx, SSL_OP_NO_SSLv2 | SSL_OP_NO_SSLv3);
 
+	/* The server must know the key, a certificate is no substitute. */
+	SSL_CTX_set_verify(c->ssl_ctx, SSL_VERIFY_PEER, NULL);
+
 	c->bio = BIO_new(BIO_s_connect());
 	if (c->bio == NULL) {
 		c->_errno = NSCANG_ERROR_SSL_BIO_CREATE;
diff --git a/src/common/tls.c b/src/common/tls.c
index 4e0adce..11d6cd4 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -174,6 +174,14 @@ tls_client_start(const char *ciphers)
 	debug("Starting TLS client");
 
 	ctx->ssl = initialize_openssl(SSLv23_client_method(), ciphers);
+
+	/*
+	 * The pre-shared key authenticates the server.  Servers might present a
+	 * certificate instead (with TLSv1.3, independently of our `ciphers'),
+	 * but we've no certificates to verify it against.
+	 */
+	SSL_CTX_set_verify(ctx->ssl, SSL_VERIFY_PEER, NULL);
+
 	return ctx;
 }
 
-- 
2.43.0


From d6220c7396ccd17d9fe313de76c0a59e6d395dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:09 +0000
Subject: [PATCH 57/58] fix: Use unique session IDs in the client modules

Sessions started within the same second had the same ID, and the random(3)
state of the embedding program was reset.
---
 perl/client.c   | 10 +++++++---
 python/client.c | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/perl/client.c b/perl/client.c
index 2fc1274..d83d832 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -27,6 +27,7 @@
 
 #include <openssl/ssl.h>
 #include <openssl/err.h>
+#include <openssl/rand.h>
 #include <errno.h>
 #include <poll.h>
 #include <signal.h>
@@ -333,6 +334,7 @@ int
 nscang_client_send_moin(nscang_client_t *c, int timeout)
 {
 	char cmd[64];
+	unsigned int id[2];
 	int len, rc;
 
 	if (c->state == NSCANG_STATE_MOIN)
@@ -343,9 +345,11 @@ nscang_client_send_moin(nscang_client_t *c, int timeout)
 		return 0;
 	}
 
-	srandom(time(NULL));
-	len = snprintf(cmd, sizeof(cmd), "MOIN 1 %08ld%08ld\r\n", random(),
-	    random());
+	if (RAND_bytes((unsigned char *)id, sizeof(id)) != 1) {
+		c->_errno = NSCANG_ERROR_SSL;
+		return 0;
+	}
+	len = snprintf(cmd, sizeof(cmd), "MOIN 1 %08x%08x\r\n", id[0], id[1]);
 
 	if (!nscang_client_write(c, cmd, len, timeout))
 		return 0;
diff --git a/python/client.c b/python/client.c
index 6eeb111..c4892fc 100644
--- a/python/client.c
+++ b/python/client.c
@@ -27,6 +27,7 @@
 
 #include <openssl/ssl.h>
 #include <openssl/err.h>
+#include <openssl/rand.h>
 #include <poll.h>
 #include <string.h>
 #include <time.h>
@@ -340,6 +341,7 @@ int
 nscang_client_send_moin(nscang_client_t *c, int timeout)
 {
 	char cmd[64];
+	unsigned int id[2];
 	int len, rc;
 
 	if (c->state == NSCANG_STATE_MOIN)
@@ -350,9 +352,11 @@ nscang_client_send_moin(nscang_client_t *c, int timeout)
 		return 0;
 	}
 
-	srandom(time(NULL));
-	len = snprintf(cmd, sizeof(cmd), "MOIN 1 %08ld%08ld\r\n", random(),
-	    random());
+	if (RAND_bytes((unsigned char *)id, sizeof(id)) != 1) {
+		c->_errno = NSCANG_ERROR_SSL;
+		return 0;
+	}
+	len = snprintf(cmd, sizeof(cmd), "MOIN 1 %08x%08x\r\n", id[0], id[1]);
 
 	if (!nscang_client_write(c, cmd, len, timeout))
 		return 0;
-- 
2.43.0


From 832ba673831190e889ef863985fb72b0be111e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:33 +0000
Subject: [PATCH 58/58] fix: Perl client: free the object if its construction
 fails

---
 perl/Client.xs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/perl/Client.xs b/perl/Client.xs
index c0ab6c2..670bc52 100644
--- a/perl/Client.xs
+++ b/perl/Client.xs
@@ -67,19 +67,25 @@ static int init_object(
    return 0;
 }
 
-static void init_client(nscang_object_t *o)
+static int try_init_client(nscang_object_t *o, char *errstr, int size)
 {
 
    // Initialize the client library
    if(!nscang_client_init(&o->client, o->host, o->port, o->ciphers, o->identity, o->psk)) {
-      char errstr[1024];
-
       nscang_client_free(&o->client);
-      croak("nscang_client_init: %s",
-            nscang_client_errstr(&o->client, errstr, sizeof(errstr))
-           );
+      nscang_client_errstr(&o->client, errstr, size);
+      return 0;
    }
    o->client_initialized = 1;
+   return 1;
+}
+
+static void init_client(nscang_object_t *o)
+{
+   char errstr[1024];
+
+   if(!try_init_client(o, errstr, sizeof(errstr)))
+      croak("nscang_client_init: %s", errstr);
 }
 
 static void free_object(nscang_object_t *o) {
@@ -112,6 +118,8 @@ _new(class, host, port, identity, psk, ciphers, node_name, svc_description, time
    int timeout
 
    CODE:
+      char errstr[1024];
+
       // Alloc new object
       Newxz(RETVAL, 1, nscang_object_t);
       if(!RETVAL)
@@ -124,10 +132,16 @@ _new(class, host, port, identity, psk, ciphers, node_name, svc_description, time
                SV_OR_NULL(svc_description), timeout)
         ) {
          free_object(RETVAL);
+         Safefree(RETVAL);
          croak("no memory for object");
       }
 
-      init_client(RETVAL);
+      // There's no object yet that would be destroyed
+      if(!try_init_client(RETVAL, errstr, sizeof(errstr))) {
+         free_object(RETVAL);
+         Safefree(RETVAL);
+         croak("nscang_client_init: %s", errstr);
+      }
    OUTPUT:
       RETVAL
 
-- 
2.43.0

