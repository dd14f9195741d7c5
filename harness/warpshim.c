/* Preloaded into a program: its clocks run NSCA_WARP times as fast, and it waits that much shorter. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <poll.h>
#include <stdlib.h>
#include <sys/epoll.h>
#include <sys/select.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static int (*real_clock)(clockid_t, struct timespec *);
static int (*real_epoll)(int, struct epoll_event *, int, int);
static int (*real_poll)(struct pollfd *, nfds_t, int);
static int (*real_select)(int, fd_set *, fd_set *, fd_set *, struct timeval *);
static unsigned int (*real_sleep)(unsigned int);
static long factor;
static struct timespec mono0, wall0;

static void
init(void)
{
	if (factor != 0)
		return;
	real_clock = dlsym(RTLD_NEXT, "clock_gettime");
	real_epoll = dlsym(RTLD_NEXT, "epoll_wait");
	real_poll = dlsym(RTLD_NEXT, "poll");
	real_select = dlsym(RTLD_NEXT, "select");
	real_sleep = dlsym(RTLD_NEXT, "sleep");
	real_clock(CLOCK_MONOTONIC, &mono0);
	real_clock(CLOCK_REALTIME, &wall0);
	factor = getenv("NSCA_WARP") != NULL ? atol(getenv("NSCA_WARP")) : 1;
	if (factor < 1)
		factor = 1;
}

__attribute__((constructor)) static void start(void) { init(); }

/* Nanoseconds of accelerated time since the start. */
static long long
warped(void)
{
	struct timespec now;

	init();
	real_clock(CLOCK_MONOTONIC, &now);
	return factor * ((now.tv_sec - mono0.tv_sec) * 1000000000LL + (now.tv_nsec - mono0.tv_nsec));
}

static void
add(const struct timespec *base, struct timespec *out)
{
	long long ns = warped() + base->tv_nsec;

	out->tv_sec = base->tv_sec + ns / 1000000000LL;
	out->tv_nsec = ns % 1000000000LL;
}

int
clock_gettime(clockid_t id, struct timespec *out)
{
	init();
	switch (id) {
	case CLOCK_MONOTONIC: case CLOCK_MONOTONIC_COARSE: case CLOCK_MONOTONIC_RAW: case CLOCK_BOOTTIME:
		add(&mono0, out);
		return 0;
	case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE:
		add(&wall0, out);
		return 0;
	default:
		return real_clock(id, out);
	}
}

int
gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
	struct timespec ts;

	(void)tz;
	init();
	add(&wall0, &ts);
	tv->tv_sec = ts.tv_sec;
	tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}

time_t
time(time_t *t)
{
	struct timespec ts;

	init();
	add(&wall0, &ts);
	if (t != NULL)
		*t = ts.tv_sec;
	return ts.tv_sec;
}

static int
shorter(int ms)
{
	init();
	return ms <= 0 ? ms : (int)((ms + factor - 1) / factor);
}

int epoll_wait(int fd, struct epoll_event *ev, int n, int ms) { ms = shorter(ms); return real_epoll(fd, ev, n, ms); }
int poll(struct pollfd *p, nfds_t n, int ms) { ms = shorter(ms); return real_poll(p, n, ms); }

int
select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
	struct timeval t;
	long long us;

	init();
	if (tv == NULL)
		return real_select(n, r, w, e, NULL);
	us = (tv->tv_sec * 1000000LL + tv->tv_usec + factor - 1) / factor;
	t.tv_sec = us / 1000000;
	t.tv_usec = us % 1000000;
	return real_select(n, r, w, e, &t);
}

unsigned int
sleep(unsigned int s)
{
	init();
	(void)usleep((useconds_t)(s * 1000000LL / factor));
	return 0;
}
