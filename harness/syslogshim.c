/* Preloaded into a program: records its syslog(3) messages in the file $NSCA_SYSLOG. */
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <syslog.h>
#include <unistd.h>

static void
put(int pri, const char *fmt, va_list ap)
{
	char msg[8192], line[8300];
	const char *path = getenv("NSCA_SYSLOG");
	int fd, n;

	(void)vsnprintf(msg, sizeof(msg), fmt, ap);
	n = snprintf(line, sizeof(line), "<%d>%s\n", pri, msg);
	if (path != NULL && (fd = open(path, O_WRONLY | O_CREAT | O_APPEND, 0600)) != -1) {
		(void)!write(fd, line, (size_t)n);
		(void)close(fd);
	}
}

void openlog(const char *ident, int opt, int fac) { (void)ident; (void)opt; (void)fac; }
void closelog(void) { }
void syslog(int pri, const char *fmt, ...) { va_list ap; va_start(ap, fmt); put(pri, fmt, ap); va_end(ap); }
void vsyslog(int pri, const char *fmt, va_list ap) { put(pri, fmt, ap); }
void __syslog_chk(int pri, int flag, const char *fmt, ...) { va_list ap; (void)flag; va_start(ap, fmt); put(pri, fmt, ap); va_end(ap); }
void __vsyslog_chk(int pri, int flag, const char *fmt, va_list ap) { (void)flag; put(pri, fmt, ap); }
