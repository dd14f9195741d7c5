#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one dict per property); run to regenerate."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

S, C, K = "src/server/", "src/client/", "src/common/"
prop("C01", "Only holders of the configured key get a server session",
 "The server speaks the NSCA-ng protocol only with a client that completed the TLS pre-shared-key handshake with exactly the password configured for the identity it presented: that identity's own authorize section (its password falling back to the global one), or the catch-all section `*` only when the identity has no section of its own. Every other client (unknown identity, wrong, truncated, extended or another identity's password, no PSK, plaintext, resumed foreign session) gets no protocol reply and nothing it sends reaches the command pipe.",
 ["configurations", "inputs"], "every set of authorize sections, every presented identity/key pair and every TLS version or cipher the client offers",
 "Tests use two or three fixed identity/password pairs; near-miss keys, fallback precedence, hash-bucket collisions and non-PSK handshakes are never tried.",
 [S+"auth.c", S+"hash.c", S+"conf.c", K+"tls.c"],
 [("PSK callback looks the identity up, then `*`", S+"auth.c check_psk()"), ("identity table", S+"hash.c"), ("TLS accept", K+"tls.c accept_ssl_cb()")],
 ["bytes received by the client after the handshake", "command pipe"])
prop("C02", "Commands are authorised exactly as the configuration says",
 "A well-formed submission is accepted if and only if the text after its bracketed timestamp is matched as a whole by at least one pattern that applies to the authenticated identity: its `commands` patterns as they are, `hosts` patterns as the host name of a host check result, `services` patterns (`service@host`) as service and host of a service check result. The patterns are those of the identity's own section, each setting it leaves out falling back to the global one, and of the `*` section only for identities without a section. A refused submission is answered with FAIL and leaves no trace in the pipe, and the session can go on.",
 ["configurations", "inputs"], "every configuration of POSIX extended patterns and every command text, including near misses at both ends of a pattern and alternations",
 "The tests check a handful of literal patterns; anchoring, alternation, fallback per setting and the identity/section pairing are only decided over the space of configurations and commands.",
 [S+"auth.c", S+"conf.c", S+"hash.c", S+"server.c"],
 [("pattern compilation with anchors", S+"conf.c parse_command_pattern_cb(), host_to_command(), service_to_command()"), ("decision", S+"auth.c is_authorized()"), ("global fallback", S+"conf.c fallback_to_defaults()")],
 ["response to each PUSH", "command pipe"])
prop("C03", "One accepted submission is exactly one timestamped command line",
 "Whatever bytes a client submits, an accepted submission adds to the command stream exactly one line: it starts with a decimal timestamp in brackets, contains no NUL byte and no newline but the one that ends it. A submission that is not of that form (missing final newline, embedded newline or NUL, missing or non-numeric timestamp, authorised text hidden behind other text) is refused, so an authorised client can never smuggle in a command it is not authorised for.",
 ["inputs"], "every byte string of every length submitted by an authenticated client",
 "Only well-formed submissions are tested; the space of malformed payloads (NULs, embedded newlines, extra brackets) is where a client could smuggle unauthorised commands.",
 [S+"auth.c", S+"server.c", S+"fifo.c"],
 [("format checks", S+"auth.c is_authorized()"), ("payload length vs. C string", S+"server.c handle_push()")],
 ["response to each PUSH", "command pipe bytes"])
prop("C04", "Acknowledged commands reach the monitoring core exactly once, intact",
 "While the command pipe is being read and the server keeps running within its queue limit, every command acknowledged with OKAY reaches the reader exactly once and byte for byte, either in the pipe itself or in a spool file that the pipe references, for any number of concurrent clients, command sizes, burst sizes and reader speeds. Nothing that was not acknowledged (refused, too large, or cut off by a disconnect before its last byte) is ever delivered.",
 ["schedules", "histories", "fault_sequences"], "every interleaving of concurrent clients, reader stalls, short and interrupted writes, delayed spool writes, and client disconnects at any byte",
 "Tests push a few commands one client at a time to an attentive reader; loss or duplication needs concurrency, slow readers, or queue transitions.",
 [S+"fifo.c", S+"server.c", K+"buffer.c", K+"tls.c"],
 [("queueing, direct write, spooling", S+"fifo.c fifo_write(), dispatch_data(), write_cb()"), ("byte queue", K+"buffer.c")],
 ["OKAY responses", "bytes read from the pipe", "spool files"])
prop("C05", "Commands are never torn or interleaved in the pipe",
 "Every write to the command pipe consists of whole command lines and is small enough to be atomic, so that a reader shared with other writers always sees complete lines that are never mixed with anyone else's, even when the pipe is full, writes are interrupted or postponed, or a single command is larger than the atomic limit (then it goes through a spool file).",
 ["schedules", "inputs", "fault_sequences"], "every queue length, command size around the atomicity limit, reader speed and competing writer",
 "Tests have one writer and small commands; tearing needs a nearly full pipe, sizes around PIPE_BUF and a competing writer.",
 [S+"fifo.c"], [("size threshold", S+"fifo.c buffers_exceed_pipe_size()"), ("non-blocking retry", S+"fifo.c write_cb()")],
 ["each write(2) to the pipe", "pipe byte stream with a foreign writer"])
prop("C06", "Commands of one client keep their order",
 "Commands written directly to the pipe appear there in the order in which the server acknowledged them, and likewise the commands inside each spool file; in particular, as long as the reader keeps up, the commands of a session arrive in the order in which they were sent. While nothing reads the pipe, the backlog is kept and later handed over in acknowledgement order.",
 ["schedules", "histories"], "every sequence of submissions, reader stall and reconnect",
 "The tests send single commands or count lines; reordering needs a backlog and queue transitions.",
 [S+"fifo.c", K+"buffer.c"], [("single output slot before buffered data", S+"fifo.c fifo_write(), join_buffers()"), ("FIFO byte queue", K+"buffer.c")],
 ["acknowledgement order per session", "pipe and spool file contents"])
prop("C07", "Spool files are complete, private and referenced once",
 "When a batch does not fit into one atomic pipe write, it goes into a new file in the configured temporary directory, readable and writable by the server user only, which the pipe then references by its exact path with a PROCESS_FILE command asking for deletion after processing. That command is issued exactly once per file, only after the file holds the complete batch of whole lines; if the file cannot be created or written, no reference to it is issued and the server goes on serving.",
 ["schedules", "fault_sequences", "inputs"], "every batch size, delayed, failing or short spool write, full disk or missing/unwritable directory, with and without asynchronous I/O",
 "One test pushes a batch once; file mode, completeness at reference time and failure paths are not examined.",
 [S+"fifo.c"], [("spool file creation", S+"fifo.c open_dump_file()"), ("asynchronous write and completion", S+"fifo.c async_dump_data(), async_cb()"), ("synchronous variant", S+"fifo.c sync_dump_data()")],
 ["pipe contents", "temporary directory at the time of each PROCESS_FILE"])
prop("C08", "The backlog survives a missing reader and respects its limit",
 "While nothing reads the command file (not there, not a named pipe, no reader, or the reader went away) the server keeps acknowledging and queueing commands and retries opening it periodically; when a reader appears, everything queued is delivered, so nothing is lost while the backlog stays within max_queue_size (0 meaning unlimited). Only when the limit would be exceeded is the queue discarded, as a whole and with a warning, never leaving a truncated command; and a command file that is not a named pipe is never written to.",
 ["histories", "configurations"], "every history of reader arrivals and departures, command-file replacements, and backlog sizes around the limit",
 "The tests always have a reader; absence, replacement and overflow histories are untested.",
 [S+"fifo.c", K+"buffer.c"], [("reopen timer", S+"fifo.c open_cb()"), ("EPIPE handling", S+"fifo.c write_cb()"), ("queue limit", S+"fifo.c fifo_write()")],
 ["pipe contents after the reader appears", "server log", "responses while no reader exists"])
prop("C09", "The server answers every request as the protocol specifies",
 "For every sequence of request lines the server's responses are those of the NSCA-ng protocol: MOIN (version and session ID required, retry after FAIL), PING then close, PUSH with its two-step acknowledgement, NOOP, QUIT then close, BAIL then close, and FAIL with the session continuing for anything malformed or out of place. Keywords are case-insensitive, LF and CRLF both end a line, and responses are single CRLF-terminated lines, one per request or submission, in order.",
 ["histories", "inputs"], "every sequence of valid, malformed and out-of-place requests",
 "The test clients only ever send the standard MOIN/PUSH/QUIT dialogue.",
 [S+"server.c", K+"tls.c", K+"util.c", "PROTOCOL"],
 [("state machine by read handler", S+"server.c handle_handshake(), handle_connection(), handle_push()"), ("argument splitting", K+"util.c parse_line()")],
 ["response stream per session"])
prop("C10", "Server behaviour depends on the bytes sent, not on their packaging",
 "How a client's byte stream is divided into TCP segments and TLS records, how the pieces are delayed, which TLS protocol version is used, and how slowly the client reads responses make no difference to the responses and to what is delivered. This includes a payload followed directly by the next requests, several requests in one record, lines and payloads split at any byte, and payloads spanning many TLS records (the client waiting, as the protocol requires, for the OKAY to a PUSH before it sends the payload).",
 ["schedules", "inputs"], "every segmentation and coalescing of the byte stream into records and segments, and every TLS version the server accepts",
 "The test clients send whole requests in lockstep, so partial lines, partial payloads and pipelining never occur.",
 [K+"tls.c", K+"buffer.c"], [("partial reads", K+"tls.c read_line(), read_bytes()"), ("partial writes", K+"tls.c write_cb()"), ("line extraction", K+"buffer.c buffer_read_line()")],
 ["response stream and command pipe per segmentation"])
prop("C11", "Request-line and command-size limits are enforced exactly",
 "A PUSH announcing more than max_command_size bytes is refused with FAIL before any payload is read, one announcing at most that many is accepted (0 means unlimited), and sizes that are not positive numbers the server can represent are refused, never silently reinterpreted. Request lines of up to 1024 bytes including the terminator are always processed, and a line that grows beyond 2048 bytes without a terminator ends the session with BAIL instead of being buffered further.",
 ["inputs", "configurations"], "every limit setting and every announced size and line length around the limits, including numbers beyond the integer range",
 "Tests never approach the limits.",
 [S+"server.c", K+"tls.c"], [("size check", S+"server.c handle_connection()"), ("line limit", K+"tls.c read_line()")],
 ["responses", "server memory"])
prop("C12", "No client can disturb the server or other clients' sessions",
 "Whatever a client sends or does (garbage, half-finished handshakes, alerts, aborts and resets at any point, floods, stalls, refusing to read responses, oversized data), the server keeps running and goes on serving: sessions of other clients already open continue undisturbed and new clients are served promptly.",
 ["inputs", "schedules", "fault_sequences"], "every hostile byte stream and disconnect point, concurrently with well-behaved sessions",
 "The tests only use well-behaved clients.",
 [K+"tls.c", S+"server.c"], [("error dispatch", K+"tls.c check_tls_error()"), ("event feeding between read and write watchers", K+"tls.c reset_watcher_state()"), ("accept loop", K+"tls.c accept_tcp_cb()")],
 ["responses of a witness session held open during each attack", "server process"])
prop("C13", "The server is free of memory errors and undefined behaviour",
 "No client input, sequence of requests, timing, disconnect, configuration, command-file state, I/O failure or signal makes the server read or write outside its objects, use freed or uninitialised memory, or execute undefined behaviour; and on an orderly shutdown it has released what it allocated.",
 ["inputs", "schedules", "configurations", "fault_sequences"], "all client input, configurations, fault and signal timings",
 "The suite runs an uninstrumented binary on benign inputs, where silent memory errors do not show.",
 [S+"server.c", S+"fifo.c", S+"auth.c", S+"hash.c", S+"conf.c", S+"nsca-ng.c", K+"tls.c", K+"buffer.c", K+"util.c", K+"log.c"],
 [("object lifetimes", K+"tls.c tls_free(), "+S+"server.c connection_stop(), "+S+"fifo.c free_output()")],
 ["AddressSanitizer, LeakSanitizer, UndefinedBehaviorSanitizer and Valgrind reports"])
prop("C14", "Every connection's resources are released when it ends",
 "However a connection ends (QUIT, BAIL, PING, refusal, failed or aborted handshake, reset, timeout, shutdown), the server afterwards holds no file descriptor and no memory for it, so its use of both does not grow with the number of connections it has served.",
 ["histories", "fault_sequences"], "every way and point a connection can end, repeated any number of times",
 "Each test runs a few sessions and stops the server, so a leak per connection is invisible.",
 [K+"tls.c", S+"server.c", S+"auth.c"], [("tear-down", K+"tls.c tls_free()"), ("per-connection state", S+"server.c connection_stop()"), ("identity copy", S+"auth.c check_psk()")],
 ["open descriptors and allocated bytes after repeated rounds"])
prop("C15", "Idle connections are closed on time, active ones are not",
 "The server closes a connection once it has been inactive for the configured timeout, in whatever phase it is: before or during the TLS handshake silently, and within a session with a BAIL; also when the client stops reading or never answers the closing handshake. Any activity restarts the clock, so an active client is not cut off however long its session lasts, and a timeout of 0 disables the limit.",
 ["schedules", "configurations"], "every phase in which a client may stall and every activity pattern below the timeout",
 "No test waits for a timeout.",
 [K+"tls.c", S+"server.c"], [("activity timestamp and timer re-arm", K+"tls.c timeout_cb(), tls_on_timeout()"), ("BAIL on timeout", S+"server.c handle_timeout()")],
 ["time and manner in which the connection is closed"])
prop("C16", "Server configuration means what the manual says",
 "Settings take the documented values and defaults; command-line options override the file; `include` reads a file, or every .cfg and .conf file below a directory, recursively, and only those; a directory may be given instead of the main file. Invalid configurations (no authorize section, a section without any password, negative numbers, malformed patterns, unknown settings, duplicate identities, missing files, unusable temporary directory) are refused at start-up with an error message and a non-zero exit status, before a listening socket is served.",
 ["configurations"], "every configuration text and file tree, and every combination with command-line options",
 "The tests use a few fixed configuration files; combinations, fallbacks and invalid input are barely covered.",
 [S+"conf.c", S+"nsca-ng.c", "man/nsca-ng.cfg.in"], [("option table and validation", S+"conf.c conf_parse()"), ("include", S+"conf.c include_cb(), include_file_cb()"), ("precedence", S+"nsca-ng.c main()")],
 ["start-up outcome", "effective behaviour of the running server"])
prop("C17", "PID file, daemon mode and signals behave as documented",
 "In daemon mode the server detaches with its listening socket in place and the PID file (mode 0600) holds the daemon's PID; a second instance with the same PID file refuses to start and leaves the running one and its file untouched, whereas a stale file is taken over. SIGTERM and SIGINT end it with status 0 and the PID file removed; SIGHUP makes it reload its configuration and serve under the new one, with no connection or descriptor carried over.",
 ["histories", "schedules"], "every point in time at which a signal or second instance arrives, including repeated and concurrent ones",
 "Tests start and stop the server once per case and never reload it.",
 [S+"nsca-ng.c", "lib/pidfile/"], [("signal handling and restart", S+"nsca-ng.c signal_cb(), main()"), ("PID file locking", "lib/pidfile/pidfile.c")],
 ["PID file", "exit status", "behaviour after SIGHUP"])
prop("C18", "Secrets never appear in anything the programs emit",
 "No password or pre-shared key configured on server or client appears in log messages at any level, error messages, responses, process arguments, the PID file, spool files or the command pipe, however the session goes or the configuration is wrong; and a password is never sent over the network in clear.",
 ["inputs", "configurations"], "every log level, failed and successful sessions, malformed configurations",
 "No test inspects what the programs print at high verbosity.",
 [S+"auth.c", S+"conf.c", S+"nsca-ng.c", C+"conf.c", C+"auth.c", C+"send_nsca.c"], [("messages about keys omit them", S+"auth.c check_psk()"), ("wiping", S+"nsca-ng.c forget_config(), "+C+"send_nsca.c forget_config()")],
 ["stderr, syslog datagrams, network bytes, files written"])
prop("C19", "The log accounts for every submission at its documented level",
 "Every accepted command is logged at notice level with the client's identity, address and the command text, and every refused or malformed submission and every request failure at warning level; each message is emitted exactly once when its level is within the configured log level, and not otherwise. Log levels from 0 to 5 nest: a higher setting only adds messages.",
 ["inputs", "configurations", "histories"], "every log level and every mix of accepted, refused and malformed submissions from concurrent clients",
 "No test reads the log.",
 [S+"server.c", S+"auth.c", K+"log.c"], [("audit messages", S+"server.c handle_push()"), ("level filter", K+"log.c")],
 ["standard error and syslog output versus the session transcript"])
prop("C20", "Privileges are dropped completely before clients are served",
 "When `user` is configured, all user and group IDs (real, effective, saved) and the supplementary groups are those of that user before the server listens, creates its PID file or accepts a client, and when `chroot` is configured its root and working directory are inside it. If any step fails, the server exits with an error instead of running with more privileges than asked for.",
 ["configurations", "fault_sequences"], "every combination of user and chroot settings and a failure of each step",
 "The tests run as one user and never switch.",
 [S+"nsca-ng.c"], [("drop order and checks", S+"nsca-ng.c drop_privileges()")],
 ["process credentials in /proc", "system-call order"])
prop("C21", "Service-manager integration: inherited socket, readiness, watchdog",
 "Started with one inherited listening socket, the server serves clients on that socket and ignores its own listen address; more than one is an error and variables meant for another process are ignored. It reports readiness exactly once, after it is able to serve, and sends keep-alive messages at less than half the requested watchdog interval for as long as it works, including under load and after a reload.",
 ["configurations", "histories"], "every combination of the activation and notification environment",
 "No test uses socket activation or notifications.",
 [S+"nsca-ng.c", K+"tls.c", K+"log.c"], [("socket passing", S+"nsca-ng.c main(), "+K+"tls.c tls_server_start()"), ("notifications", S+"nsca-ng.c notify_systemd(), keep_alive_cb()")],
 ["notification socket", "inherited socket"])
prop("C22", "send_nsca turns its input into exactly the right commands",
 "The commands send_nsca submits are exactly those its input stands for, in order, however the input is split into reads: host and service check results with any legal delimiter and separator (and their escapes), fields after the last delimiter taken literally, backslashes and newlines in a result escaped, blank records ignored, a final record without separator included, and in -C mode raw commands with a timestamp added only where there is none. Input that is not of that form makes it fail without submitting the malformed record.",
 ["inputs", "configurations"], "every input byte stream, chunking, delimiter and separator, including many blank records and long ones",
 "Tests feed a few short, well-formed inputs with one or two delimiters.",
 [C+"parse.c", C+"input.c", C+"client.c", C+"send_nsca.c", K+"buffer.c"], [("record splitting", C+"input.c read_cb(), "+K+"buffer.c buffer_read_chunk()"), ("field parsing and escaping", C+"parse.c parse_check_result(), parse_command()")],
 ["PUSH announcements and payloads received by the peer"])
prop("C23", "send_nsca reports success only if everything was acknowledged",
 "send_nsca exits with status 0 if and only if the server acknowledged every command of the input and the closing QUIT; whenever the server refuses, bails out, answers unexpectedly, disconnects or times out at any point, it exits non-zero with a message on standard error. It keeps to the lockstep of the protocol: it never sends a payload before its announcement was acknowledged, nor a further request before the previous one was answered.",
 ["histories", "fault_sequences"], "every server response sequence and disconnect at any step or byte",
 "Tests only see a cooperative server and one refusal.",
 [C+"client.c", K+"tls.c", C+"send_nsca.c"], [("response handlers", C+"client.c handle_tls_*_response()"), ("fatal connection errors", K+"tls.c check_tls_error() with die")],
 ["exit status and standard error", "request trace at a scripted server"])
prop("C24", "send_nsca configuration and options mean what the manual says",
 "The configuration file grammar (comments, blank lines, quoting, backslash escapes, line continuation, CRLF, arbitrarily long lines) yields the documented values; identity defaults to the host name and other settings to their documented defaults; command-line options override the file. Unknown variables, missing or excess tokens, non-numeric numbers, illegal delimiters and unreadable files make it fail with a message before it connects anywhere, while settings and options kept for compatibility are accepted.",
 ["configurations", "inputs"], "every configuration text and combination of options",
 "Tests use one simple configuration file with a few variations.",
 [C+"conf.c", C+"send_nsca.c", "man/send_nsca.cfg.in", "man/send_nsca.in"], [("parser", C+"conf.c parse_conf_file(), read_conf_line()"), ("option parsing", C+"send_nsca.c get_options(), parse_backslash_escape()")],
 ["identity, key, address and dialogue at a scripted server", "exit status"])
prop("C25", "send_nsca is memory-safe and always terminates",
 "No server behaviour, standard input, configuration file or command line makes send_nsca access invalid or uninitialised memory, overflow its stack or execute undefined behaviour; and once its input has ended it always terminates: a server that stalls at any point, stops reading, or never answers is given up on after the configured timeout, with a non-zero status.",
 ["inputs", "schedules", "fault_sequences"], "all server behaviour, inputs, configurations and stall points",
 "Tests run an uninstrumented client against a cooperative server.",
 [C+"client.c", C+"conf.c", C+"input.c", C+"parse.c", K+"tls.c", K+"buffer.c", K+"util.c"], [("timeouts", K+"tls.c timeout_cb()"), ("buffers", C+"conf.c read_conf_line(), "+C+"input.c read_cb()")],
 ["sanitizer reports", "termination time and status"])
prop("C26", "Perl client: success means delivered, failure raises an error",
 "A host result, service result or raw command submitted through the Perl module either returns normally, in which case the server acknowledged exactly the command that the arguments (with the object's defaults and an added timestamp where none is given) stand for, byte for byte, or dies with a message. A result too long to be sent whole is an error, never silently shortened, and the object stays usable after an error or a server restart.",
 ["inputs", "histories", "fault_sequences"], "every argument combination and length, server response and disconnect point, over several calls on one object",
 "The Perl tests send a few short results to a cooperative server.",
 ["perl/client.c", "perl/Client.xs", "perl/lib/Net/NSCAng/Client.pm"], [("formatting and push", "perl/client.c nscang_client_send_push(), nscang_client_send_command()"), ("error mapping", "perl/Client.xs _result(), command()")],
 ["commands acknowledged by a scripted or real server versus the call's outcome"])
prop("C27", "Python client: success means delivered, failure raises an exception",
 "A host or service result submitted through the Python module either returns None, in which case the server acknowledged exactly the command that the arguments stand for, byte for byte, or raises an exception. A result too long to be sent whole is an error, never silently shortened, and a notifier stays usable after an exception or a server restart, reconnecting as needed.",
 ["inputs", "histories", "fault_sequences"], "every argument combination and length, server response and disconnect point, over several calls on one object",
 "The Python tests send a few short results to a cooperative server.",
 ["python/client.c", "python/nscang.c"], [("formatting and push", "python/client.c nscang_client_send_push()"), ("retry and error mapping", "python/nscang.c nscang_host_result(), nscang_svc_result()")],
 ["commands acknowledged by a scripted or real server versus the call's outcome"])
prop("C28", "The Perl and Python clients are memory-safe and do not hang",
 "No arguments, server response (short, oversized, malformed, fragmented) or disconnect makes the Perl or Python client access invalid memory, crash the interpreter or leave it waiting for the server longer than the timeout of the call at any step; objects whose construction failed or that are called repeatedly or out of order are safe as well, also when the process has a large number of descriptors open.",
 ["inputs", "fault_sequences", "histories"], "all arguments, server responses, disconnect points and call sequences",
 "The binding tests use short arguments and a cooperative server, without instrumentation.",
 ["perl/client.c", "perl/Client.xs", "python/client.c", "python/nscang.c"], [("fixed-size buffers", "perl/client.c and python/client.c nscang_client_send_push(), nscang_client_response()"), ("object lifetimes", "python/nscang.c NSCAngNotifyer_init(), NSCAngNotifyer_dealloc()")],
 ["AddressSanitizer and UndefinedBehaviorSanitizer reports inside the interpreters", "call duration"])
prop("C29", "Python client objects are independent of each other, also across threads",
 "Several notifier objects can be created, used and destroyed in any order and from any thread: each one always authenticates with its own identity and key and submits its own results to its own server, and the shared bookkeeping behind them is free of data races.",
 ["schedules", "histories"], "every interleaving of creation, use and destruction of objects in any number of threads",
 "Tests use one object at a time in one thread.",
 ["python/client.c", "python/nscang.c"], [("instance table and its lock", "python/client.c set_psk(), nscang_client_init(), nscang_client_free()")],
 ["ThreadSanitizer reports", "identity and commands seen by the servers"])
prop("C30", "The byte queue is a faithful FIFO",
 "For every sequence of operations on the internal byte queue that carries all network and pipe data, what is read (by count, by line, by delimiter, or all at once) is exactly what was appended, in order, each byte once; a line or chunk is returned exactly when its terminator is present, with the terminator (and a CR before LF) removed, and the reported size is always the number of bytes left.",
 ["histories", "inputs"], "every sequence of appends and reads with sizes around the internal block boundaries",
 "Only exercised indirectly with short data that rarely crosses a block boundary.",
 [K+"buffer.c"], [("block list", K+"buffer.c")],
 ["results of each operation compared with a reference queue"])
prop("C31", "Replacement library functions behave like the standard ones",
 "The portability replacements shipped for systems that lack them (formatted allocation and printing, string duplication, case-insensitive comparison, daemonising) and the string helpers built on top give the same results as the standard functions for every argument the programs can pass, so that builds using them behave identically and never overrun a buffer.",
 ["inputs"], "every format string, width, precision, length modifier and argument value, and every pair of strings",
 "On this platform they are not even compiled.",
 ["lib/xprintf.c", "lib/strdup.c", "lib/strcasecmp.c", "lib/strncasecmp.c", "lib/wrappers.c", K+"util.c"], [("formatter", "lib/xprintf.c"), ("comparison", "lib/strcasecmp.c, lib/strncasecmp.c")],
 ["output and return value compared with the C library's"])
prop("C32", "The contributed scripts submit faithfully what they are asked to",
 "The scripts shipped for acknowledging problems, scheduling downtime, toggling notifications and wrapping plugins submit through send_nsca exactly the external command (or check result with the plugin's output and exit status) that their arguments stand for, pass send_nsca's failure on in their exit status, and reject wrong usage without submitting anything; the debugging script connects with exactly the server, port, identity and password that its options and the client's configuration file say.",
 ["inputs", "fault_sequences"], "every argument list (including spaces, quotes and backslashes) and every outcome of the wrapped plugin and of send_nsca",
 "No test runs the scripts.",
 ["contrib/"], [("shell scripts", "contrib/acknowledge, contrib/downtime, contrib/invoke_check, contrib/enable_notifications, contrib/disable_notifications, contrib/debug_server")],
 ["standard input and arguments of a stand-in send_nsca", "exit status"])
prop("C33", "The init script controls exactly the daemon that its PID file names",
 "Start runs nsca-ng with the script's PID file unless that file already names a living process; stop sends SIGTERM and reload SIGHUP to exactly that process; restart stops and starts it; try-restart and reload do nothing when it isn't running; status exits 0 if it runs and 3 otherwise; wrong usage exits 2 and does nothing. A missing, stale or corrupt PID file counts as not running: no other process is ever signalled, and nothing in the file is executed.",
 ["inputs", "histories"], "every sequence of actions and every content of the PID file",
 "No test runs the script.",
 ["contrib/nsca-ng.init"], [("get_pid and actions", "contrib/nsca-ng.init")],
 ["signals received by the daemon and bystanders", "programs started", "exit status"])
prop("C34", "Waiting costs no processor time",
 "Whatever they are waiting for, the programs sleep until something happens: the server while it is idle, with any number of connections in any phase (including half-closed ones, clients that stop reading and clients that never answer the TLS shutdown), with a missing, stalled or vanished reader, a spool directory that cannot be used, or no free descriptors; send_nsca and the Perl and Python clients while they wait for the server at any step, or for standard input. None of them keeps a processor busy or wakes up continually.",
 ["schedules", "histories", "fault_sequences"], "every state in which a program waits, however it was reached",
 "A program that spins passes every functional test; that it doesn't has to be observed in all of its states of waiting.",
 [K+"tls.c", S+"fifo.c", S+"server.c", C+"client.c", C+"input.c", "perl/client.c", "python/client.c"],
 [("watchers are active only while there is something to do", K+"tls.c, "+S+"fifo.c, "+C+"input.c"), ("accepting connections", K+"tls.c accept_tcp_cb()"), ("waiting with poll(2)", "perl/client.c, python/client.c")],
 ["run time and context switches of the processes"])
prop("C35", "End to end, a reported success is a delivered command",
 "With real clients of all kinds (send_nsca, Perl, Python), any number of them at the same time, the real server, and a network that fragments, delays, cuts, resets, corrupts or stalls connections at any point, the outcome that each client reports is true: the commands of a send_nsca run that exits with status 0 are in the command stream exactly once each, those of a failed run are there up to some point of its input, once each; a call of a module that returned normally has put its command there; all of them byte for byte, and nothing else is there. Once nothing disturbs the network, everything succeeds.",
 ["schedules", "fault_sequences", "inputs"], "every mixture of clients and inputs and every network fault at any byte of any connection",
 "The tests run one client at a time over an undisturbed loopback connection.",
 [C+"client.c", C+"send_nsca.c", S+"server.c", S+"fifo.c", K+"tls.c", "perl/client.c", "python/client.c"],
 [("lockstep protocol of the clients", C+"client.c, perl/client.c, python/client.c"), ("acknowledgement", S+"server.c handle_push()")],
 ["exit statuses and exceptions of the clients", "command pipe and spool files"])
prop("C36", "The clients speak the documented protocol",
 "Every connection of send_nsca and of the Perl and Python modules is a well-formed NSCA-ng session. It offers the cipher suite TLS_PSK_WITH_AES_256_CBC_SHA by default. The first request is MOIN with version 1 and a session ID of 2 to 64 printable characters that differs between sessions; each command is one newline-terminated line, sent after PUSH with its exact size was acknowledged; every request is a single CRLF-terminated line of at most 1024 octets, a keyword with printable arguments separated by single spaces; and nothing is sent while an answer is outstanding. A session whose MOIN was accepted ends with QUIT or BAIL, an unsupported version or an unknown response is replied to with BAIL and a message, and after that, or after the server's BAIL, nothing follows. A connection that is still intact is closed only after a TLS close notification.",
 ["inputs", "fault_sequences"], "every input of the clients and every response of the server at every step",
 "The tests look at what arrives in the command file, not at what the clients send, and only one server ever answers them.",
 [C+"client.c", K+"tls.c", "perl/client.c", "python/client.c", "PROTOCOL"],
 [("requests", C+"client.c handle_tls_connect(), handle_input_chunk(), handle_input_eof(), bail(), server_is_grumpy()"), ("requests of the modules", "perl/client.c, python/client.c: nscang_client_send_moin(), nscang_client_send_push(), nscang_client_response(), nscang_client_disconnect()")],
 ["bytes that a scripted server receives", "the ClientHello", "TLS close notifications"])
prop("C37", "The clients submit only to a server that holds the key",
 "Whatever the cipher list and the TLS version, send_nsca and the Perl and Python modules send no application data to, and report no success from, a server that does not prove to hold the client's pre-shared key: not one that presents a certificate instead (even one the system trusts), not one with another key, not one without TLS, and not one that takes over the address of a server used before. Nothing confidential crosses the network unencrypted. A server that holds the key is accepted.",
 ["inputs", "fault_sequences"], "every behaviour of a server that does not know the key",
 "The tests never run the clients against a server other than the genuine one.",
 [K+"tls.c", C+"auth.c", C+"conf.c", "perl/client.c", "python/client.c"],
 [("verification of the peer", K+"tls.c tls_client_start()"), ("key callbacks", C+"auth.c set_psk(), perl/client.c and python/client.c set_psk()"), ("set-up of the modules' connections", "perl/client.c, python/client.c: nscang_client_init()")],
 ["application data that servers without the key receive", "bytes on the wire", "exit statuses and exceptions"])
prop("C38", "The Perl and Python clients give back what they use",
 "A process can create, use and destroy client objects, and make calls that succeed, are refused, fail or lose their connection, any number of times: repeating the same sequence of calls does not let the memory or the number of open descriptors of the process grow, failed constructions and reconnections included, and when an object is destroyed its connection to the server is closed.",
 ["histories", "fault_sequences"], "all repeated sequences of constructions, calls, failures and destructions",
 "The binding tests make a handful of calls and exit; what is lost per call or per object shows only over many repetitions, and mostly on error paths.",
 ["perl/client.c", "perl/Client.xs", "python/client.c", "python/nscang.c"],
 [("connection state", "perl/client.c and python/client.c nscang_client_init(), nscang_client_free(), nscang_client_disconnect()"), ("object lifetimes", "perl/Client.xs _new(), DESTROY(), python/nscang.c NSCAngNotifyer_init(), NSCAngNotifyer_dealloc()")],
 ["bytes allocated from the heap and open descriptors of the interpreter between rounds", "connections at the server"])
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
