EDITS=[]
def e(f,a,b,n=1): EDITS.append((f,a,b,n))
e("src/client/parse.c",'''	for (pos = 0; n < 4 && input[pos] != '\\0'; pos++)
		if (input[pos] == '\\\\')
			pos++; /* Skip the escaped character. */
		else if (input[pos] == delimiter) {
			lengths[n - 1] = pos - start_pos;
			debug("Check result field %d has %d characters (%d-%d)",
			    n, lengths[n - 1], start_pos, pos - 1);

			/* Handle the next field. */
			start_pos = pos + 1;
			fields[n] = &input[start_pos];
			n++;
		}
''','''	pos = 0;
	while (n < 4 && input[pos] != '\\0') {
		char c = input[pos++];

		if (c == '\\\\') {
			pos++; /* Skip the escaped character. */
			continue;
		}
		if (c != delimiter)
			continue;
		lengths[n - 1] = pos - 1 - start_pos;
		start_pos = pos;
		fields[n++] = input + pos;
	}
''')
e("src/client/parse.c",'''	for (in = input, out = escaped; *in != '\\0'; in++, out++)
		switch (*in) {
		case '\\\\':
			*out++ = '\\\\';
			*out = '\\\\';
			break;
		case '\\n':
			*out++ = '\\\\';
			*out = 'n';
			break;
		default:
			*out = *in;
		}
	*out = '\\0';
''','''	out = escaped;
	for (in = input; *in != '\\0'; in++) {
		bool special = *in == '\\\\' || *in == '\\n';

		if (special)
			*out++ = '\\\\';
		*out++ = *in == '\\n' ? 'n' : *in;
	}
	*out = '\\0';
''')
e("src/client/client.c",'''	xasprintf(&request, "PUSH %u", client->command_length);
	info("%s C: %s", client->tls->peer, request);
	tls_write_line(client->tls, request);
	free(request);
''','''	xasprintf(&request, "PUSH %lu", (unsigned long)client->command_length);
	send_request(client->tls, request);
	free(request);
''')
e("src/client/client.c",'''	if (strcasecmp("OKAY", line) == 0)
		client_stop(client);
	else if (!server_is_grumpy(tls, line))
		bail(tls, "Received unexpected QUIT response");

	free(line);
''','''	bool acknowledged = strcasecmp(line, "OKAY") == 0;

	if (!acknowledged && !server_is_grumpy(tls, line))
		bail(tls, "Received unexpected QUIT response");
	free(line);
	if (acknowledged)
		client_stop(client);
''')
e("src/client/client.c",'''	if (strncasecmp("FAIL", line, 4) == 0
	    || strncasecmp("BAIL", line, 4) == 0) {
		client_stop(client);
		critical("Server said: %s", line);
		exit_code = EXIT_FAILURE;
		return true;
	}
	return false;
''','''	if (strncasecmp("FAIL", line, 4) != 0
	    && strncasecmp("BAIL", line, 4) != 0)
		return false;

	exit_code = EXIT_FAILURE;
	critical("Server said: %s", line);
	client_stop(client);
	return true;
''')
e("src/client/input.c",'''		} else if (n == 0) {
			size_t len = buffer_size(input->buffer);

			debug("Got EOF from standard input");
			input->eof = true;
			if (len > 0) {
				debug("Providing the available data");
				ev_io_stop(EV_A_ w);
				chunk = xmalloc(len + 1);
				(void)buffer_read(input->buffer, chunk, len);
				chunk[len] = '\\0';
				input->read_handler(input, chunk);
			} else {
				debug("No (more) data available");
				if (input->eof_handler != NULL)
					input->eof_handler(input);
				input_stop(input);
			}
		} else {''','''		} else if (n == 0) {
			handle_eof(input);
		} else {''')
e("src/client/input.c",'''static void
read_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
''','''static void
handle_eof(input_state *input)
{
	size_t len = buffer_size(input->buffer);
	char *chunk;

	input->eof = true;
	if (len == 0) {
		if (input->eof_handler != NULL)
			input->eof_handler(input);
		input_stop(input);
		return;
	}
	ev_io_stop(EV_DEFAULT_UC_ &input->watcher);
	buffer_append(input->buffer, "", 1);
	chunk = buffer_slurp(input->buffer, &len);
	input->read_handler(input, chunk);
}

static void
read_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
''')
for d in ("python","perl"):
    f=d+"/client.c"
    e(f,'''		c->_errno = NSCANG_ERROR_FAIL;
		strncpy(c->errstr, buf[4] != 0x00 ? buf + 5 : "",
			    sizeof(c->errstr) - 1);
		c->errstr[sizeof(c->errstr) - 1] = 0x00;
		return 0;
''','''		return server_error(c, NSCANG_ERROR_FAIL, buf);
''')
    e(f,'''		nscang_client_disconnect(c);
		c->_errno = NSCANG_ERROR_BAIL;
		strncpy(c->errstr, buf[4] != 0x00 ? buf + 5 : "",
			    sizeof(c->errstr) - 1);
		c->errstr[sizeof(c->errstr) - 1] = 0x00;
		return 0;
''','''		nscang_client_disconnect(c);
		return server_error(c, NSCANG_ERROR_BAIL, buf);
''')
    e(f,'''int
nscang_client_response(nscang_client_t *c, int timeout)
{
''','''static int
server_error(nscang_client_t *c, int code, const char *line)
{
	const char *text = strlen(line) > 4 ? line + 5 : "";

	snprintf(c->errstr, sizeof(c->errstr), "%s", text);
	c->_errno = code;
	return 0;
}

int
nscang_client_response(nscang_client_t *c, int timeout)
{
''')
    if d=="python": e(f,'''		rc = SSL_read(c->ssl, ptr, 1024 - was_read);

		if (rc > 0) {
			was_read = was_read + rc;
			ptr = buf + was_read;

			if (buf[was_read - 1] == '\\n') {''','''		rc = SSL_read(c->ssl, ptr, (int)sizeof(buf) - was_read);

		if (rc > 0) {
			was_read += rc;
			ptr += rc;

			if (ptr[-1] == '\\n') {''')
    if d=="python": e(f,'''	snprintf(cmd, sizeof(cmd), "PUSH %d\\n", len);
	if (!nscang_client_write(c, cmd, strlen(cmd), timeout))
		return 0;
''','''	if (!announce(c, len, timeout))
		return 0;
''')
    if d=="python": e(f,'''int
nscang_client_send_push(nscang_client_t *c, char *host, char *service,
''','''static int
announce(nscang_client_t *c, int len, int timeout)
{
	char line[64];
	int n = snprintf(line, sizeof(line), "PUSH %d\\r\\n", len);

	return nscang_client_write(c, line, n, timeout);
}

int
nscang_client_send_push(nscang_client_t *c, char *host, char *service,
''')
    e(f,'''	c->identity = malloc(strlen(identity) + 1);
	c->psk = malloc(strlen(psk) + 1);
''','''	c->psk = malloc(strlen(psk) + 1);
	c->identity = malloc(strlen(identity) + 1);
''')
e("python/nscang.c",'''	if (nscang_client_send_push(client, host, service, rc, output, timeout)) {
		Py_INCREF(Py_None);
		return Py_None;
	}

	nscang_client_disconnect(client);

	if (nscang_client_send_push(client, host, service, rc, output, timeout)) {
		Py_INCREF(Py_None);
		return Py_None;
	}

	PyErr_Format(PyExc_RuntimeError, "svc_result: %s",
	    nscang_client_errstr(client, errstr, sizeof(errstr)));
	nscang_client_disconnect(client);
	return NULL;
''','''	int attempt;

	for (attempt = 0; attempt < 2; attempt++) {
		if (nscang_client_send_push(client, host, service, rc, output,
		    timeout))
			Py_RETURN_NONE;
		if (attempt == 0)
			nscang_client_disconnect(client);
	}
	nscang_client_errstr(client, errstr, sizeof(errstr));
	nscang_client_disconnect(client);
	PyErr_Format(PyExc_RuntimeError, "svc_result: %s", errstr);
	return NULL;
''')
e("perl/Client.xs",'''   FREE_IF_SET(o->svc_description);
   FREE_IF_SET(o->node_name);
   FREE_IF_SET(o->ciphers);
   FREE_IF_SET(o->psk);
   FREE_IF_SET(o->identity);
   FREE_IF_SET(o->host);
''','''   FREE_IF_SET(o->host);
   FREE_IF_SET(o->identity);
   FREE_IF_SET(o->psk);
   FREE_IF_SET(o->ciphers);
   FREE_IF_SET(o->node_name);
   FREE_IF_SET(o->svc_description);
''')
e("contrib/acknowledge",'''if [ -z "$service" ]
then	# Host acknowledgement.
	printf '%s\\n' "ACKNOWLEDGE_HOST_PROBLEM;$host;1;0;1;$author;$comment" \\
	    | send_nsca -C $send_nsca_args ${config_file+-c "$config_file"}
else	# Service acknowledgement.
	printf '%s\\n' "ACKNOWLEDGE_SVC_PROBLEM;$host;$service;1;0;1;$author;$comment" \\
	    | send_nsca -C $send_nsca_args ${config_file+-c "$config_file"}
fi
''','''submit()
{
	printf '%s;1;0;1;%s;%s\\n' "$1" "$author" "$comment" \\
	    | send_nsca ${config_file+-c "$config_file"} -C $send_nsca_args
}

case $service in
'')
	submit "ACKNOWLEDGE_HOST_PROBLEM;$host"
	;;
*)
	submit "ACKNOWLEDGE_SVC_PROBLEM;$host;$service"
	;;
esac
''')
# lib/xprintf.c left; tls.c second style
e("src/common/tls.c",'''	xasprintf(&peer, "%s (ID: %s)", tls->peer, id);
	free(tls->peer);
	tls->peer = peer;
''','''	char *old = tls->peer;

	xasprintf(&peer, "%s (ID: %s)", old, id);
	tls->peer = peer;
	free(old);
''')
e("src/client/conf.c",'''		for (c = cfg; c->key != NULL && (strlen(c->key) != len
		    || strncmp(token, c->key, len) != 0); c++)
			continue;
		if (c->key == NULL)
			die("%s:%lu: Unknown variable name `%.*s'", path,
			    line_number, (int)len, token);
''','''		c = cfg;
		while (c->key != NULL) {
			if (strlen(c->key) == len
			    && memcmp(token, c->key, len) == 0)
				break;
			c++;
		}
		if (!c->key)
			die("%s:%lu: Unknown variable name `%.*s'", path,
			    line_number, (int)len, token);
''')
