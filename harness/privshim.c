/* Preloaded into a program: privilege-related calls fail on demand.
 * NSCA_PRIVFAIL=<function>:<errno>[:<n>]  the n-th (default: every) call of the function fails. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <grp.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pwd.h>
#include <unistd.h>

static int
bad(const char *name)
{
	static int calls;
	const char *e = getenv("NSCA_PRIVFAIL"), *c;
	int n = 0, err = 0;
	char buf[128];

	if (e == NULL || (c = strchr(e, ':')) == NULL || strlen(name) != (size_t)(c - e) || strncmp(e, name, c - e) != 0)
		return 0;
	(void)sscanf(c + 1, "%d:%d", &err, &n);
	if (n != 0 && ++calls != n)
		return 0;
	(void)!write(2, buf, snprintf(buf, sizeof(buf), "PRIVSHIM %s fails\n", name));
	errno = err;
	return 1;
}

#define WRAP(name, args, call) int name args { int (*f) args = dlsym(RTLD_NEXT, #name); return bad(#name) ? -1 : f call; }
WRAP(setuid, (uid_t a), (a))
WRAP(setgid, (gid_t a), (a))
WRAP(seteuid, (uid_t a), (a))
WRAP(setegid, (gid_t a), (a))
WRAP(setreuid, (uid_t a, uid_t b), (a, b))
WRAP(setregid, (gid_t a, gid_t b), (a, b))
WRAP(setresuid, (uid_t a, uid_t b, uid_t c), (a, b, c))
WRAP(setresgid, (gid_t a, gid_t b, gid_t c), (a, b, c))
WRAP(initgroups, (const char *a, gid_t b), (a, b))
WRAP(setgroups, (size_t n, const gid_t *g), (n, g))
WRAP(chroot, (const char *a), (a))
WRAP(chdir, (const char *a), (a))

struct passwd *
getpwnam(const char *n)
{
	struct passwd *(*f)(const char *) = dlsym(RTLD_NEXT, "getpwnam");

	return bad("getpwnam") ? NULL : f(n);
}
