EDITS=[]
def e(f,a,b,n=1): EDITS.append((f,a,b,n))
# server.c: helper fail(), table of keywords, reordering
e("src/server/server.c",'''static void handle_connect(tls_state *);
''','''static void handle_connect(tls_state *);
static void fail(tls_state * restrict, const char * restrict,
                 void (*)(tls_state *, char *));
static bool starts_with(const char *, const char *);
''')
e("src/server/server.c",'''static void
handle_error(tls_state *tls)
''','''static bool
starts_with(const char *line, const char *keyword)
{
	size_t len = strlen(keyword);

	return strncasecmp(line, keyword, len) == 0;
}

static void
fail(tls_state * restrict tls, const char * restrict reason,
     void (*next)(tls_state *, char *))
{
	char *response;

	xasprintf(&response, "FAIL %s", reason);
	send_response(tls, response);
	free(response);
	tls_read_line(tls, next);
}

static void
handle_error(tls_state *tls)
''')
e("src/server/server.c",'''			warning("Cannot parse PUSH request from %s", tls->peer);
			send_response(tls, "FAIL Cannot parse PUSH request");
			tls_read_line(tls, handle_connection);
''','''			warning("Cannot parse PUSH request from %s", tls->peer);
			fail(tls, "Cannot parse PUSH request",
			    handle_connection);
''')
e("src/server/server.c",'''			send_response(tls, "FAIL Expected number of bytes");
			tls_read_line(tls, handle_connection);
''','''			fail(tls, "Expected number of bytes", handle_connection);
''')
e("src/server/server.c",'''	if (strncasecmp("NOOP", line, 4) == 0) {''','''	if (starts_with(line, "NOOP")) {''')
e("src/server/server.c",'''	} else if (strncasecmp("PUSH", line, 4) == 0) {''','''	} else if (starts_with(line, "PUSH")) {''')
e("src/server/server.c",'''	if (strlen(data) == connection->input_length
	    && is_authorized(tls->id, data)) {
		notice("Queuing data from %s: %.*s", tls->peer, width, data);
		fifo_write(connection->ctx->fifo, data,
		    connection->input_length, free);
		send_response(tls, "OKAY");
	} else {
		warning("Refusing data from %s: %.*s", tls->peer, width, data);
		free(data);
		send_response(tls, "FAIL You're not authorized");
	}

	tls_read_line(tls, handle_connection);
''','''	if (memchr(data, 0, connection->input_length) != NULL
	    || !is_authorized(tls->id, data)) {
		warning("Refusing data from %s: %.*s", tls->peer, width, data);
		fail(tls, "You're not authorized", handle_connection);
		free(data);
		return;
	}
	notice("Queuing data from %s: %.*s", tls->peer, width, data);
	send_response(tls, "OKAY");
	tls_read_line(tls, handle_connection);
	fifo_write(connection->ctx->fifo, data, connection->input_length,
	    free);
''')
e("src/server/server.c",'''	info("%s S: %s %s", tls->peer, "BAIL", message);

	tls_write(tls, "BAIL ", sizeof("BAIL ") - 1, NULL);
	tls_write_line(tls, message);
	tls_shutdown(tls);

	connection_stop(tls);
	free(message);
''','''	char *response;

	xasprintf(&response, "BAIL %s", message);
	send_response(tls, response);
	free(response);
	free(message);

	connection_stop(tls);
	tls_shutdown(tls);
''')
e("src/server/server.c",'''	return errno != 0 || *end != '\\0' || size < 0 || size > INT_MAX
	    ? -1 : (int)size;
''','''	if (errno != 0 || *end != '\\0')
		return -1;
	if (size < 0 || size > INT_MAX)
		return -1;
	return (int)size;
''')
# fifo.c
e("src/server/fifo.c",'''static void
open_cb(EV_P_ ev_timer *w, int revents)
{
	fifo_state *fifo = w->data;
	struct stat sb;
	int result;

	do
		fifo->fd = open(fifo->path, O_WRONLY | O_NONBLOCK);
	while (fifo->fd == -1 && errno == EINTR);
''','''static int
open_retrying(const char *path, int flags)
{
	int fd;

	for (;;) {
		fd = open(path, flags);
		if (fd != -1 || errno != EINTR)
			return fd;
	}
}

static void
open_cb(EV_P_ ev_timer *w, int revents)
{
	fifo_state *fifo = w->data;
	struct stat sb;
	int result;

	fifo->fd = open_retrying(fifo->path, O_WRONLY | O_NONBLOCK);
''')
e("src/server/fifo.c",'''	struct aiocb async_cb;
	void (*free_aio_buf)(void *);
''','''	void (*free_aio_buf)(void *);
	struct aiocb async_cb;
''')
e("src/server/fifo.c",'''	new_size = fifo->output_size + buffer_size(fifo->output_buffer);
	new_output = xmalloc(new_size);

	debug("Joining output buffers (new size: %zu bytes)", new_size);

	if (fifo->output != NULL)
		(void)memcpy(new_output, fifo->output, fifo->output_size);

	(void)buffer_read(fifo->output_buffer,
	    new_output + fifo->output_size,
	    new_size - fifo->output_size);

	if (fifo->output != NULL)
		free_output(fifo);

	fifo->output = new_output;
''','''	if (fifo->output == NULL) {
		fifo->output = buffer_slurp(fifo->output_buffer,
		    &fifo->output_size);
		fifo->free_output = free;
		return;
	}

	new_size = fifo->output_size + buffer_size(fifo->output_buffer);
	new_output = xmalloc(new_size);

	debug("Joining output buffers (new size: %zu bytes)", new_size);

	(void)memcpy(new_output, fifo->output, fifo->output_size);
	(void)buffer_read(fifo->output_buffer,
	    new_output + fifo->output_size,
	    new_size - fifo->output_size);
	free_output(fifo);

	fifo->output = new_output;
''')
e("src/server/fifo.c",'''	xasprintf(&command, "[%lu] PROCESS_FILE;%s;1\\n",
	    (unsigned long)time(NULL), fifo->dump_file);
''','''	time_t now = time(NULL);

	xasprintf(&command, "[%lld] PROCESS_FILE;%s;%d\\n", (long long)now,
	    fifo->dump_file, 1);
''')
# auth.c
e("src/server/auth.c",'''	for (i = 0; i < sizeof(settings) / sizeof(*settings); i++) {
		cfg_opt_t *opt = cfg_getopt(auth, settings[i]);
		unsigned int j;

		for (j = 0; j < cfg_opt_size(opt); j++) {
			regex_t *pattern = cfg_opt_getnptr(opt, j);

			if (match(pattern, command))
				return true;
		}
	}
	return false;
''','''	for (i = sizeof(settings) / sizeof(*settings); i-- > 0;) {
		cfg_opt_t *opt = cfg_getopt(auth, settings[i]);
		unsigned int n = cfg_opt_size(opt), j = 0;

		while (j < n)
			if (match(cfg_opt_getnptr(opt, j++), command))
				return true;
	}
	return false;
''')
e("src/server/auth.c",'''	if ((newline = strchr(command, '\\n')) == NULL) {
		warning("Command submitted by %s isn't newline-terminated",
		    identity);
		return false;
	}
	if (*(newline + 1) != '\\0') {
''','''	newline = strchr(command, '\\n');
	if (!newline) {
		warning("Command submitted by %s isn't newline-terminated",
		    identity);
		return false;
	} else if (newline[1]) {
''')
# conf.c
e("src/server/conf.c",'''	xasprintf(&pattern, "^(%s)\\n?$", value);
''','''	pattern = xmalloc(strlen(value) + sizeof("^()\\n?$"));
	(void)sprintf(pattern, "^(%s)\\n?$", value);
''')
e("src/server/conf.c",'''	if ((at = strrchr(pattern, '@')) == NULL)
		host_part = "[^;]+";
	else {
		host_part = at + 1;
		*at = '\\0';
	}
	service_part = pattern;
''','''	service_part = pattern;
	host_part = "[^;]+";
	for (at = pattern + strlen(pattern); at > pattern; at--)
		if (at[-1] == '@') {
			host_part = at;
			at[-1] = '\\0';
			break;
		}
''')
# hash.c unaffected
# buffer.c
e("src/common/buffer.c",'''	for (b = buf->first; b != NULL; b = b->next) {
		size_t i = b == buf->first ? buf->start_offset : 0;
		size_t end_offset = b == buf->last ?
		    buf->end_offset : BUFFER_BLOCK_SIZE;

		while (i < end_offset) {
			if ((char)b->data[i] == character)
				return pos;
			i++, pos++;
		}
	}
	return 0;
''','''	for (b = buf->first; b != NULL; b = b->next) {
		size_t i = b == buf->first ? buf->start_offset : 0;
		size_t end_offset = b == buf->last ?
		    buf->end_offset : BUFFER_BLOCK_SIZE;
		const unsigned char *p;

		if (i >= end_offset)
			continue;
		p = memchr(b->data + i, (unsigned char)character,
		    end_offset - i);
		if (p != NULL)
			return pos + (size_t)(p - b->data) - i;
		pos += end_offset - i;
	}
	return 0;
''')
e("src/common/buffer.c",'''	for (n_todo = size; n_todo > 0; n_todo -= n, in += n) {
		size_t available = buf->last == NULL ?
		    0 : BUFFER_BLOCK_SIZE - buf->end_offset;

		if (available == 0) {
			block_add(buf);
			buf->end_offset = 0;
			available = BUFFER_BLOCK_SIZE;
		}
		n = MIN(n_todo, available);
		(void)memcpy(buf->last->data + buf->end_offset, in, n);
		buf->end_offset += n;
	}
	buf->size += size;
''','''	buf->size += size;
	n_todo = size;
	while (n_todo > 0) {
		if (buf->last == NULL || buf->end_offset == BUFFER_BLOCK_SIZE) {
			block_add(buf);
			buf->end_offset = 0;
		}
		n = MIN(n_todo, BUFFER_BLOCK_SIZE - buf->end_offset);
		(void)memcpy(&buf->last->data[buf->end_offset], in, n);
		buf->end_offset += n;
		in += n;
		n_todo -= n;
	}
''')
# log.c
e("src/common/log.c",'''	for (newline = message; (newline = strchr(newline, '\\n')) != NULL;)
		*newline++ = ' ';
''','''	for (newline = message; *newline != '\\0'; newline++)
		if (*newline == '\\n')
			*newline = ' ';
''')
e("src/common/log.c",'''		(void)fprintf(stderr, "%s: [%s] %s\\n", getprogname(),
		    level_to_string(level), message);
		(void)fflush(stderr);
''','''		const char *name = getprogname();
		const char *string = level_to_string(level);

		(void)fputs(name, stderr);
		(void)fprintf(stderr, ": [%s] ", string);
		(void)fprintf(stderr, "%s\\n", message);
		(void)fflush(stderr);
''')
# tls.c
e("src/common/tls.c",'''	write_buffered(tls, string, strlen(string));
	write_buffered(tls, LINE_TERMINATOR, sizeof(LINE_TERMINATOR) - 1);
''','''	char *line;

	xasprintf(&line, "%s%s", string, LINE_TERMINATOR);
	write_buffered(tls, line, strlen(line));
	free(line);
''')
e("src/common/tls.c",'''	if (tls->input != NULL)
		free(tls->input);
	if (tls->output != NULL)
		free(tls->output);
	if (tls->addr != NULL)
		free(tls->addr);
	if (tls->id != NULL)
		free(tls->id);
	if (tls->peer != NULL)
		free(tls->peer);
''','''	free(tls->peer);
	free(tls->id);
	free(tls->addr);
	free(tls->output);
	free(tls->input);
''')
e("src/common/tls.c",'''	tls_on_timeout(tls, handle_timeout);

	if ((tls->bio = BIO_new_connect((char *)server)) == NULL)
		log_tls_message(die, "Cannot create BIO object");
	(void)BIO_set_nbio(tls->bio, 1);

	if ((tls->ssl = SSL_new(ctx->ssl)) == NULL)
		log_tls_message(die, "Cannot create SSL object");
''','''	if ((tls->ssl = SSL_new(ctx->ssl)) == NULL)
		log_tls_message(die, "Cannot create SSL object");
	if ((tls->bio = BIO_new_connect((char *)server)) == NULL)
		log_tls_message(die, "Cannot create BIO object");
	(void)BIO_set_nbio(tls->bio, 1);

	tls_on_timeout(tls, handle_timeout);
''')
# client
e("src/client/conf.c",'''	for (c = cfg; c->key != NULL && strcmp(key, c->key) != 0; c++)
		continue;
	if (c->key == NULL)
		die("Unknown variable `%s'", key);

	return c;
''','''	for (c = cfg; c->key != NULL; c++)
		if (strcmp(key, c->key) == 0)
			return c;
	die("Unknown variable `%s'", key);
	return NULL;
''')
e("src/client/conf.c",'''		/* Forget this copy of the value, in case it's sensitive. */
		(void)memset(value, 0, strlen(value));
		(void)memset(line, 0, strlen(line));
		free(line);
''','''		free(line);
''')
