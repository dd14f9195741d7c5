/* Writes the number of bytes allocated from the heap to a file when SIGUSR2 arrives (preloaded). */
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static const char *path;

static void
report(int sig)
{
	struct mallinfo2 m = mallinfo2();
	char buf[64];
	int fd = open(path, O_WRONLY | O_CREAT | O_APPEND, 0600);
	int n = snprintf(buf, sizeof(buf), "%zu\n", m.uordblks + m.hblkhd);

	(void)sig;
	if (fd >= 0) {
		if (write(fd, buf, n) != n)
			abort();
		close(fd);
	}
}

__attribute__((constructor)) static void
start(void)
{
	struct sigaction sa;

	if ((path = getenv("NSCA_HEAP")) == NULL)
		return;
	memset(&sa, 0, sizeof(sa));
	sa.sa_handler = report;
	sa.sa_flags = SA_RESTART;
	sigemptyset(&sa.sa_mask);
	sigaction(SIGUSR2, &sa, NULL);
}
