/*
 * Monitor linked into the server under test: the symbols defined here are found
 * before libc's (and before the sanitizer's interceptors, which they call on).
 *
 * NSCAMON_LOG=<file>   binary event log (one O_APPEND write per event):
 *     u8 type, u32 len, bytes.   W = write to a named pipe (data),
 *     w = failed/short pipe write (errno or count), A = aio_write queued (bytes),
 *     M = mkstemp (path), S = write to a spool file (fd, count)
 * NSCAMON_CTL=<file>   perturbation, re-read on every intercepted call; words:
 *     eintr=N eagain=N    every N-th pipe write fails so
 *     aiodelay=MS         asynchronous writes complete MS milliseconds late
 *     aio=fail|eio|short  aio_write(3) fails / completes with EIO / writes half
 *     mkstemp=fail        mkstemp(3) fails with ENOSPC
 *     regex=N             every N-th regexec(3) runs out of memory
 * NSCAMON_TEXT=1       a line on standard error for each bind(2), listen(2) and file creation,
 *     with the credentials, root and working directory at that moment
 * SIGUSR2: append "<allocated bytes>\n" to NSCAMON_MEM.
 */
#define _GNU_SOURCE
#include <aio.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <pthread.h>
#include <regex.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <grp.h>

#if defined(__SANITIZE_ADDRESS__)
size_t __sanitizer_get_current_allocated_bytes(void);
#endif

static ssize_t (*real_write)(int, const void *, size_t);
static int (*real_aio_write)(struct aiocb *);
static int (*real_mkostemps)(char *, int, int);
static const char *log_path, *ctl_path, *mem_path;
static unsigned long n_eintr, n_eagain;

struct ctl { unsigned long eintr, eagain, aiodelay, regex; int aiomode, mkfail, swrite; };

static void
mem_handler(int sig)
{
	char buf[64];
	size_t n;
	int fd, e = errno;

	(void)sig;
#if defined(__SANITIZE_ADDRESS__)
	n = __sanitizer_get_current_allocated_bytes();
#else
	n = mallinfo2().uordblks;
#endif
	fd = syscall(SYS_openat, AT_FDCWD, mem_path, O_WRONLY | O_CREAT | O_APPEND, 0600);
	if (fd >= 0) {
		int len = snprintf(buf, sizeof(buf), "%zu\n", n);
		(void)!syscall(SYS_write, fd, buf, len);
		(void)syscall(SYS_close, fd);
	}
	errno = e;
}

static void init(void);
__attribute__((constructor)) static void
init(void)
{
	if (real_write != NULL)
		return;
	real_write = dlsym(RTLD_NEXT, "write");
	real_aio_write = dlsym(RTLD_NEXT, "aio_write");
	real_mkostemps = dlsym(RTLD_NEXT, "mkostemps");
	log_path = getenv("NSCAMON_LOG");
	ctl_path = getenv("NSCAMON_CTL");
	if ((mem_path = getenv("NSCAMON_MEM")) != NULL) {
		struct sigaction sa;
		memset(&sa, 0, sizeof(sa));
		sa.sa_handler = mem_handler;
		sa.sa_flags = SA_RESTART;
		sigaction(SIGUSR2, &sa, NULL);
	}
}

static void
event(char type, const void *data, size_t len)
{
	struct iovec iov[2];
	char head[5];
	uint32_t l = (uint32_t)len;
	int fd, e = errno;

	if (log_path == NULL)
		return;
	head[0] = type;
	memcpy(head + 1, &l, 4);
	iov[0].iov_base = head;
	iov[0].iov_len = 5;
	iov[1].iov_base = (void *)data;
	iov[1].iov_len = len;
	fd = syscall(SYS_openat, AT_FDCWD, log_path, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
	if (fd >= 0) {
		(void)!syscall(SYS_writev, fd, iov, 2);
		(void)syscall(SYS_close, fd);
	}
	errno = e;
}

static void
get_ctl(struct ctl *c)
{
	char buf[256], *w, *save;
	int fd, e = errno;
	ssize_t n = 0;

	memset(c, 0, sizeof(*c));
	if (ctl_path == NULL)
		return;
	fd = syscall(SYS_openat, AT_FDCWD, ctl_path, O_RDONLY | O_CLOEXEC, 0);
	if (fd >= 0) {
		n = syscall(SYS_read, fd, buf, sizeof(buf) - 1);
		(void)syscall(SYS_close, fd);
	}
	errno = e;
	if (n <= 0)
		return;
	buf[n] = '\0';
	for (w = strtok_r(buf, " \n", &save); w != NULL; w = strtok_r(NULL, " \n", &save)) {
		if (strncmp(w, "eintr=", 6) == 0) c->eintr = strtoul(w + 6, NULL, 10);
		else if (strncmp(w, "eagain=", 7) == 0) c->eagain = strtoul(w + 7, NULL, 10);
		else if (strncmp(w, "aiodelay=", 9) == 0) c->aiodelay = strtoul(w + 9, NULL, 10);
		else if (strncmp(w, "regex=", 6) == 0) c->regex = strtoul(w + 6, NULL, 10);
		else if (strcmp(w, "aio=fail") == 0) c->aiomode = 1;
		else if (strcmp(w, "aio=eio") == 0) c->aiomode = 2;
		else if (strcmp(w, "aio=short") == 0) c->aiomode = 3;
		else if (strcmp(w, "mkstemp=fail") == 0) c->mkfail = 1;
		else if (strcmp(w, "write=short") == 0) c->swrite = 1;
		else if (strcmp(w, "write=fail") == 0) c->swrite = 2;
		else if (strcmp(w, "write=eintr") == 0) c->swrite = 3;
	}
}

static int
is_kind(int fd, mode_t kind)
{
	struct stat sb;
	int e = errno, r = fstat(fd, &sb) == 0 && (sb.st_mode & S_IFMT) == kind;

	errno = e;
	return r;
}

ssize_t
write(int fd, const void *buf, size_t n)
{
	struct ctl c;
	ssize_t r;

	init();
	if (fd <= 2 || (log_path == NULL && ctl_path == NULL))
		return real_write(fd, buf, n);
	if (is_kind(fd, S_IFIFO)) {
		get_ctl(&c);
		if (c.eintr > 0 && ++n_eintr % c.eintr == 0) {
			event('w', "EINTR", 5);
			errno = EINTR;
			return -1;
		}
		if (c.eagain > 0 && ++n_eagain % c.eagain == 0) {
			event('w', "EAGAIN", 6);
			errno = EAGAIN;
			return -1;
		}
		r = real_write(fd, buf, n);
		if (r >= 0)
			event('W', buf, n);
		if (r >= 0 && (size_t)r != n)
			event('w', "SHORT", 5);
		if (r < 0)
			event('w', errno == EAGAIN ? "again" : "error", 5);
		return r;
	}
	if (is_kind(fd, S_IFREG)) {	/* The spool file without AIO. */
		static int toggle;

		get_ctl(&c);
		event('S', &n, sizeof(n));
		if (c.swrite == 2) { errno = ENOSPC; return -1; }
		if (c.swrite == 3 && (toggle ^= 1)) { errno = EINTR; return -1; }
		if (c.swrite == 1 && n > 1)
			n = (n + 1) / 2;
	}
	return real_write(fd, buf, n);
}

ssize_t
writev(int fd, const struct iovec *iov, int cnt)
{
	static ssize_t (*rw)(int, const struct iovec *, int);
	ssize_t r;

	if (rw == NULL)
		rw = dlsym(RTLD_NEXT, "writev");
	r = rw(fd, iov, cnt);
	if (fd > 2 && r > 0 && log_path != NULL && is_kind(fd, S_IFIFO)) {
		char *b = malloc(r);
		size_t off = 0;
		int i;
		for (i = 0; i < cnt && off < (size_t)r; i++) {
			size_t l = iov[i].iov_len < r - off ? iov[i].iov_len : r - off;
			memcpy(b + off, iov[i].iov_base, l);
			off += l;
		}
		event('W', b, r);
		free(b);
	}
	return r;
}

struct job { struct aiocb *cb; struct ctl c; void *buf; size_t n; int fd; off_t off; };

static void *
aio_thread(void *arg)
{
	struct job *j = arg;
	struct timespec ts = { j->c.aiodelay / 1000, (j->c.aiodelay % 1000) * 1000000L };
	size_t n = j->c.aiomode == 3 ? j->n / 2 : j->n, done = 0;
	int err = 0;
	siginfo_t si;
	struct sigevent sev = j->cb->aio_sigevent;	/* gone once the request is complete */

	nanosleep(&ts, NULL);
	if (j->c.aiomode == 2)
		err = EIO;
	while (err == 0 && done < n) {
		ssize_t w = pwrite(j->fd, (char *)j->buf + done, n - done, j->off + done);
		if (w < 0) { err = errno; break; }
		done += w;
	}
	j->cb->__return_value = err ? -1 : (ssize_t)done;
	__atomic_store_n(&j->cb->__error_code, err, __ATOMIC_SEQ_CST);
	event('C', &done, sizeof(done));
	if (sev.sigev_notify == SIGEV_SIGNAL) {
		memset(&si, 0, sizeof(si));
		si.si_signo = sev.sigev_signo;
		si.si_code = SI_ASYNCIO;
		si.si_pid = getpid();
		si.si_value = sev.sigev_value;
		(void)syscall(SYS_rt_sigqueueinfo, getpid(), si.si_signo, &si);
	}
	free(j);
	return NULL;
}

int
aio_write(struct aiocb *cb)
{
	struct ctl c;
	struct job *j;
	pthread_t t;
	sigset_t all, old;
	int r;

	init();
	get_ctl(&c);
	event('A', (const void *)cb->aio_buf, cb->aio_nbytes);
	if (c.aiomode == 1) {
		errno = EAGAIN;
		return -1;
	}
	if (c.aiomode == 0 && c.aiodelay == 0)
		return real_aio_write(cb);
	j = malloc(sizeof(*j));
	j->cb = cb; j->c = c; j->buf = (void *)cb->aio_buf; j->n = cb->aio_nbytes;
	j->fd = cb->aio_fildes; j->off = cb->aio_offset;
	cb->__error_code = EINPROGRESS;
	sigfillset(&all);
	pthread_sigmask(SIG_BLOCK, &all, &old);
	r = pthread_create(&t, NULL, aio_thread, j);
	pthread_sigmask(SIG_SETMASK, &old, NULL);
	if (r != 0) { free(j); errno = EAGAIN; return -1; }
	pthread_detach(t);
	return 0;
}

/* Waiting for a request served by the thread above must work as well. */
int
aio_suspend(const struct aiocb *const list[], int n, const struct timespec *timeout)
{
	static int (*rs)(const struct aiocb *const [], int, const struct timespec *);
	int i, waited = 0;

	if (rs == NULL)
		rs = dlsym(RTLD_NEXT, "aio_suspend");
	if (ctl_path == NULL)
		return rs(list, n, timeout);
	for (;;) {
		for (i = 0; i < n; i++)
			if (list[i] != NULL && __atomic_load_n(&((struct aiocb *)list[i])->__error_code, __ATOMIC_SEQ_CST) != EINPROGRESS)
				return 0;
		if (timeout != NULL && waited > timeout->tv_sec * 1000 + timeout->tv_nsec / 1000000) {
			errno = EAGAIN;
			return -1;
		}
		usleep(1000);
		waited++;
	}
}

static int
mk(char *tmpl, int suffix, int flags)
{
	struct ctl c;
	int fd;

	init();
	get_ctl(&c);
	if (c.mkfail) {
		errno = ENOSPC;
		return -1;
	}
	fd = real_mkostemps(tmpl, suffix, flags);
	if (fd >= 0)
		event('M', tmpl, strlen(tmpl));
	return fd;
}

int mkstemp(char *t) { return mk(t, 0, 0); }
int mkostemp(char *t, int f) { return mk(t, 0, f); }

int
regexec(const regex_t *re, const char *text, size_t n, regmatch_t *m, int flags)
{
	static int (*real)(const regex_t *, const char *, size_t, regmatch_t *, int);
	static unsigned long calls;
	struct ctl c;

	if (real == NULL)
		real = dlsym(RTLD_NEXT, "regexec");
	get_ctl(&c);
	if (c.regex > 0 && ++calls % c.regex == 0) {
		event('R', text, strlen(text));
		return REG_ESPACE;
	}
	return real(re, text, n, m, flags);
}

static void
report(const char *what, const char *arg)
{
	char buf[2048];
	struct stat root, cwd;
	uid_t ru = -1, eu = -1, su = -1;
	gid_t rg = -1, eg = -1, sg = -1, gr[64];
	int e = errno, i, ng, len;

	if (getenv("NSCAMON_TEXT") == NULL)
		return;
	getresuid(&ru, &eu, &su);
	getresgid(&rg, &eg, &sg);
	ng = getgroups(64, gr);
	memset(&root, 0, sizeof(root));
	memset(&cwd, 0, sizeof(cwd));
	stat("/", &root);
	stat(".", &cwd);
	len = snprintf(buf, sizeof(buf), "NSCAMON %s uid=%d,%d,%d gid=%d,%d,%d root=%lu:%lu cwd=%lu:%lu pid=%d groups=",
	    what, (int)ru, (int)eu, (int)su, (int)rg, (int)eg, (int)sg, (unsigned long)root.st_dev,
	    (unsigned long)root.st_ino, (unsigned long)cwd.st_dev, (unsigned long)cwd.st_ino, (int)getpid());
	for (i = 0; i < ng && len < 1000; i++)
		len += snprintf(buf + len, sizeof(buf) - len, "%s%d", i ? "," : "", (int)gr[i]);
	len += snprintf(buf + len, sizeof(buf) - len, " arg=%.800s\n", arg);
	(void)!syscall(SYS_write, 2, buf, len);
	errno = e;
}

int
listen(int fd, int backlog)
{
	static int (*f)(int, int);

	if (f == NULL)
		f = dlsym(RTLD_NEXT, "listen");
	report("listen", "");
	return f(fd, backlog);
}

int
bind(int fd, const struct sockaddr *sa, socklen_t len)
{
	static int (*f)(int, const struct sockaddr *, socklen_t);

	if (f == NULL)
		f = dlsym(RTLD_NEXT, "bind");
	if (sa->sa_family != AF_UNIX)
		report("bind", "");
	return f(fd, sa, len);
}

static int
do_open(const char *name, const char *path, int flags, mode_t mode)
{
	int (*f)(const char *, int, ...) = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, name);

	if (flags & O_CREAT)
		report("create", path);
	return f(path, flags, mode);
}

int
open(const char *path, int flags, ...)
{
	va_list ap;
	mode_t mode = 0;

	va_start(ap, flags);
	if (flags & (O_CREAT | O_TMPFILE))
		mode = va_arg(ap, mode_t);
	va_end(ap);
	return do_open("open", path, flags, mode);
}

int
open64(const char *path, int flags, ...)
{
	va_list ap;
	mode_t mode = 0;

	va_start(ap, flags);
	if (flags & (O_CREAT | O_TMPFILE))
		mode = va_arg(ap, mode_t);
	va_end(ap);
	return do_open("open64", path, flags, mode);
}
