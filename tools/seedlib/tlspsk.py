"""TLS-PSK endpoints over Python sockets, with OpenSSL (ctypes) on memory BIOs.

Every byte that goes on the wire is produced explicitly, so the harness decides about
records (one per encrypt() call), TCP segments, delays, half-finished messages, resets.
"""
import ctypes as C, errno, select, socket, struct, time

_ssl = C.CDLL("libssl.so.3")
_cry = C.CDLL("libcrypto.so.3")


def _f(lib, name, res, *args):
    f = getattr(lib, name)
    f.restype = res
    f.argtypes = args
    return f


P, I, S = C.c_void_p, C.c_int, C.c_char_p
TLS_method = _f(_ssl, "TLS_method", P)
SSL_CTX_new = _f(_ssl, "SSL_CTX_new", P, P)
SSL_CTX_free = _f(_ssl, "SSL_CTX_free", None, P)
SSL_CTX_ctrl = _f(_ssl, "SSL_CTX_ctrl", C.c_long, P, I, C.c_long, P)
SSL_CTX_set_cipher_list = _f(_ssl, "SSL_CTX_set_cipher_list", I, P, S)
SSL_CTX_set_ciphersuites = _f(_ssl, "SSL_CTX_set_ciphersuites", I, P, S)
SSL_CTX_set_options = _f(_ssl, "SSL_CTX_set_options", C.c_uint64, P, C.c_uint64)
SSL_new = _f(_ssl, "SSL_new", P, P)
SSL_free = _f(_ssl, "SSL_free", None, P)
SSL_set_bio = _f(_ssl, "SSL_set_bio", None, P, P, P)
SSL_set_connect_state = _f(_ssl, "SSL_set_connect_state", None, P)
SSL_set_accept_state = _f(_ssl, "SSL_set_accept_state", None, P)
SSL_do_handshake = _f(_ssl, "SSL_do_handshake", I, P)
SSL_read = _f(_ssl, "SSL_read", I, P, P, I)
SSL_write = _f(_ssl, "SSL_write", I, P, S, I)
SSL_shutdown = _f(_ssl, "SSL_shutdown", I, P)
SSL_get_shutdown = _f(_ssl, "SSL_get_shutdown", I, P)
SSL_get_error = _f(_ssl, "SSL_get_error", I, P, I)
SSL_get_version = _f(_ssl, "SSL_get_version", S, P)
SSL_get1_session = _f(_ssl, "SSL_get1_session", P, P)
SSL_set_session = _f(_ssl, "SSL_set_session", I, P, P)
SSL_session_reused = _f(_ssl, "SSL_session_reused", I, P)
SSL_key_update = _f(_ssl, "SSL_key_update", I, P, I)
SSL_renegotiate = _f(_ssl, "SSL_renegotiate", I, P)
BIO_s_mem = _f(_cry, "BIO_s_mem", P)
BIO_new = _f(_cry, "BIO_new", P, P)
BIO_read = _f(_cry, "BIO_read", I, P, P, I)
BIO_write = _f(_cry, "BIO_write", I, P, S, I)
BIO_ctrl = _f(_cry, "BIO_ctrl", C.c_long, P, I, C.c_long, P)
ERR_get_error = _f(_cry, "ERR_get_error", C.c_ulong)
ERR_clear_error = _f(_cry, "ERR_clear_error", None)
ERR_error_string_n = _f(_cry, "ERR_error_string_n", None, C.c_ulong, S, C.c_size_t)

CLIENT_CB = C.CFUNCTYPE(C.c_uint, P, P, C.POINTER(C.c_char), C.c_uint, C.POINTER(C.c_ubyte), C.c_uint)
SERVER_CB = C.CFUNCTYPE(C.c_uint, P, S, C.POINTER(C.c_ubyte), C.c_uint)
SSL_CTX_set_psk_client_callback = _f(_ssl, "SSL_CTX_set_psk_client_callback", None, P, CLIENT_CB)
SSL_CTX_set_psk_server_callback = _f(_ssl, "SSL_CTX_set_psk_server_callback", None, P, SERVER_CB)

V = {"1.0": 0x301, "1.1": 0x302, "1.2": 0x303, "1.3": 0x304}
CIPHERS = "PSK-AES256-CBC-SHA:PSK-AES128-CBC-SHA"


class TLSError(Exception):
    pass


class Closed(Exception):
    """The peer closed or reset the connection."""


def err():
    e = ERR_get_error()
    ERR_clear_error()
    if not e:
        return ""
    b = C.create_string_buffer(256)
    ERR_error_string_n(e, b, 256)
    return b.value.decode()


class Endpoint:
    """One TLS endpoint.  role: "client" (identity, key) or "server" (keys: callable
    identity -> key bytes or None)."""

    def __init__(self, sock, role="client", identity=b"", key=b"", keys=None,
                 version=None, ciphers=CIPHERS, session=None, minver=None):
        self.sock = sock
        if sock is not None:
            sock.setblocking(False)
            try:
                sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            except OSError:
                pass
        self.role, self.plain, self.eof, self.reset = role, b"", False, False
        self.close_notify_received = False
        self.identity_seen = None
        self.handshaken = False
        self.raw_in = b""
        self.keep_raw = False
        self.ctx = SSL_CTX_new(TLS_method())
        lo, hi = minver or version or "1.2", version or "1.3"
        SSL_CTX_ctrl(self.ctx, 123, V[lo], None)
        SSL_CTX_ctrl(self.ctx, 124, V[hi], None)
        if lo in ("1.0", "1.1"):
            ciphers += ":@SECLEVEL=0"
        if SSL_CTX_set_cipher_list(self.ctx, ciphers.encode()) != 1:
            raise TLSError("cipher list: " + err())
        if role == "client":
            def cb(ssl, hint, idbuf, idmax, keybuf, keymax):
                b = identity[: idmax - 1]
                C.memmove(idbuf, b + b"\0", len(b) + 1)
                if len(key) > keymax:
                    return 0
                C.memmove(keybuf, key, len(key))
                return len(key)
            self._cb = CLIENT_CB(cb)
            SSL_CTX_set_psk_client_callback(self.ctx, self._cb)
        else:
            def scb(ssl, ident, keybuf, keymax):
                self.identity_seen = ident
                k = keys(ident)
                if k is None or len(k) > keymax:
                    return 0
                C.memmove(keybuf, k, len(k))
                return len(k)
            self._cb = SERVER_CB(scb)
            SSL_CTX_set_psk_server_callback(self.ctx, self._cb)
        self.ssl = SSL_new(self.ctx)
        self.rbio, self.wbio = BIO_new(BIO_s_mem()), BIO_new(BIO_s_mem())
        for b in (self.rbio, self.wbio):
            BIO_ctrl(b, 130, -1, None)  # BIO_C_SET_BUF_MEM_EOF_RETURN
        SSL_set_bio(self.ssl, self.rbio, self.wbio)
        if session:
            SSL_set_session(self.ssl, session)
        (SSL_set_connect_state if role == "client" else SSL_set_accept_state)(self.ssl)

    # -- low level ---------------------------------------------------------
    def pending_out(self):
        out = b""
        buf = C.create_string_buffer(65536)
        while True:
            n = BIO_read(self.wbio, buf, 65536)
            if n <= 0:
                return out
            out += buf.raw[:n]

    def feed(self, data):
        if data:
            BIO_write(self.rbio, data, len(data))

    def send_raw(self, data, timeout=20.0):
        end = time.monotonic() + timeout
        view = memoryview(data)
        while view:
            try:
                n = self.sock.send(view)
                view = view[n:]
            except BlockingIOError:
                left = end - time.monotonic()
                if left <= 0:
                    raise TimeoutError("send")
                select_fd(self.sock, write=True, timeout=min(left, 1.0))
            except OSError as e:
                self.reset = True
                raise Closed(str(e))

    def recv_raw(self, timeout):
        """Wait for bytes from the peer; b"" on EOF."""
        if not select_fd(self.sock, timeout=timeout):
            raise TimeoutError("recv")
        try:
            d = self.sock.recv(262144)
        except BlockingIOError:
            raise TimeoutError("recv")
        except OSError as e:
            self.reset = True
            self.eof = True
            raise Closed(str(e))
        if not d:
            self.eof = True
        elif self.keep_raw:
            self.raw_in += d
        return d

    # -- handshake ---------------------------------------------------------
    def step(self):
        """One handshake step; True when complete.  Bytes to send: pending_out()."""
        ERR_clear_error()
        r = SSL_do_handshake(self.ssl)
        if r == 1:
            self.handshaken = True
            return True
        e = SSL_get_error(self.ssl, r)
        if e != 2:
            raise TLSError(f"handshake failed ({e}): {err()}")
        return False

    def handshake(self, timeout=20.0):
        end = time.monotonic() + timeout
        while True:
            try:
                done = self.step()
            except TLSError:
                try:
                    self.send_raw(self.pending_out())
                except (Closed, TimeoutError):
                    pass
                raise
            self.send_raw(self.pending_out())
            if done:
                if self.role == "server":
                    try:
                        self.decrypt()      # data that came along with the last flight
                    except TLSError:
                        pass
                return self
            left = end - time.monotonic()
            if left <= 0:
                raise TimeoutError("handshake")
            d = self.recv_raw(left)
            if d == b"":
                raise Closed("EOF during handshake")
            self.feed(d)

    # -- application data --------------------------------------------------
    def encrypt(self, data):
        """TLS record(s) carrying data (one SSL_write)."""
        ERR_clear_error()
        n = SSL_write(self.ssl, data, len(data))
        if n != len(data):
            raise TLSError("SSL_write: " + err())
        return self.pending_out()

    def send(self, data, timeout=20.0):
        self.send_raw(self.encrypt(data), timeout)

    def decrypt(self):
        """Move whatever plaintext is available to self.plain."""
        buf = C.create_string_buffer(65536)
        while True:
            ERR_clear_error()
            n = SSL_read(self.ssl, buf, 65536)
            if n > 0:
                self.plain += buf.raw[:n]
                continue
            e = SSL_get_error(self.ssl, n)
            if e == 6:
                self.close_notify_received = True
                return False
            if e == 2:
                if SSL_get_shutdown(self.ssl) & 2:
                    self.close_notify_received = True
                return True
            raise TLSError(f"SSL_read ({e}): {err()}")

    def fill(self, timeout):
        """Wait for more input; False when the peer has closed (TLS or TCP)."""
        if self.close_notify_received or self.eof:
            return False
        d = self.recv_raw(timeout)
        if d == b"":
            return False
        self.feed(d)
        ok = self.decrypt()
        out = self.pending_out()      # key updates, alerts
        if out:
            try:
                self.send_raw(out)
            except (Closed, TimeoutError):
                pass
        return ok or bool(self.plain)

    def readline(self, timeout=20.0):
        """One line with its terminator; raises Closed / TimeoutError."""
        end = time.monotonic() + timeout
        while b"\n" not in self.plain:
            left = end - time.monotonic()
            if left <= 0:
                raise TimeoutError("readline; have %r" % self.plain[:200])
            if not self.fill(left):
                raise Closed("closed; have %r" % self.plain[:200])
        i = self.plain.index(b"\n") + 1
        line, self.plain = self.plain[:i], self.plain[i:]
        return line

    def read(self, n, timeout=20.0):
        end = time.monotonic() + timeout
        while len(self.plain) < n:
            left = end - time.monotonic()
            if left <= 0:
                raise TimeoutError("read")
            if not self.fill(left):
                raise Closed("closed; have %d" % len(self.plain))
        d, self.plain = self.plain[:n], self.plain[n:]
        return d

    def read_to_end(self, timeout=20.0):
        """Everything until the peer closes (close_notify, EOF or reset)."""
        end = time.monotonic() + timeout
        try:
            while True:
                left = end - time.monotonic()
                if left <= 0:
                    raise TimeoutError("read_to_end; have %r" % self.plain[-200:])
                if not self.fill(left):
                    break
        except Closed:
            pass
        d, self.plain = self.plain, b""
        return d

    def version(self):
        return SSL_get_version(self.ssl).decode()

    def shutdown(self):
        """Send close_notify."""
        ERR_clear_error()
        SSL_shutdown(self.ssl)
        self.send_raw(self.pending_out())

    def close(self, rst=False):
        if self.sock is not None:
            if rst:
                self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            self.sock.close()
            self.sock = None

    def __del__(self):
        try:
            if self.ssl:
                SSL_free(self.ssl)
                SSL_CTX_free(self.ctx)
                self.ssl = None
        except Exception:
            pass


def get_session(ep):
    """The session of a finished connection, to be resumed later."""
    return SSL_get1_session(ep.ssl)


def free_session(ses):
    _ssl.SSL_SESSION_free(C.c_void_p(ses))


def select_fd(sock, write=False, timeout=None):
    p = select.poll()
    p.register(sock, select.POLLOUT if write else select.POLLIN)
    return bool(p.poll(None if timeout is None else max(0, int(timeout * 1000) + 1)))


def connect(port, identity=b"id", key=b"pw", timeout=20.0, host="127.0.0.1", rcvbuf=None, **kw):
    s = socket.socket(socket.AF_INET6 if ":" in host else socket.AF_INET)
    if rcvbuf:
        s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
    s.settimeout(timeout)
    s.connect((host, port))
    return Endpoint(s, "client", identity, key, **kw)


def session(port, identity=b"id", key=b"pw", timeout=20.0, **kw):
    """Connected, authenticated client."""
    return connect(port, identity, key, timeout, **kw).handshake(timeout)
