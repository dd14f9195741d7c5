EDITS=[]
def e(f,a,b,n=1): EDITS.append((f,a,b,n))
f="src/server/nsca-ng.c"
e(f,'''static void remove_pidfile(void);
''','''static void remove_pidfile(void);
static void override(const char *, const char *);
static void set_string(char **, const char *);
static void default_log_target(options *, bool);
''')
e(f,'''	if (opt->log_target == -1) {
		if (socket_activated)
			opt->log_target = LOG_TARGET_SYSTEMD;
		else if (opt->foreground)
			opt->log_target = LOG_TARGET_STDERR;
		else
			opt->log_target = LOG_TARGET_SYSLOG;
	} else if (!opt->foreground && opt->log_target & LOG_TARGET_STDERR)
		die("The `-S' option may not be specified without `-F'");

	if (opt->log_level != -1)
		cfg_setint(cfg, "log_level", opt->log_level);
	if (opt->command_file != NULL)
		cfg_setstr(cfg, "command_file", opt->command_file);
	if (opt->pid_file != NULL)
		cfg_setstr(cfg, "pid_file", opt->pid_file);
	if (opt->bind != NULL)
		cfg_setstr(cfg, "listen", opt->bind);
''','''	default_log_target(opt, socket_activated != 0);

	override("listen", opt->bind);
	override("pid_file", opt->pid_file);
	override("command_file", opt->command_file);
	if (opt->log_level >= 0)
		cfg_setint(cfg, "log_level", opt->log_level);
''')
for o,v in (("b","bind"),("C","command_file"),("c","conf_file"),("P","pid_file")):
    e(f,f'''		case '{o}':
			if (opt->{v} != NULL)
				free(opt->{v});
			opt->{v} = xstrdup(optarg);
			break;
''',f'''		case '{o}':
			set_string(&opt->{v}, optarg);
			break;
''')
    e(f,f'''	if (opt->{v} != NULL)
		free(opt->{v});
''',f'''	free(opt->{v});
''')
e(f,'''static void
free_options(options *opt)
{
''','''static void
set_string(char **variable, const char *value)
{
	free(*variable);
	*variable = xstrdup(value);
}

static void
override(const char *name, const char *value)
{
	if (value == NULL)
		return;
	cfg_setstr(cfg, name, value);
}

static void
default_log_target(options *opt, bool activated)
{
	bool to_stderr = (opt->log_target & LOG_TARGET_STDERR) != 0;

	if (opt->log_target != -1) {
		if (to_stderr && !opt->foreground)
			die("The `-S' option may not be specified without `-F'");
		return;
	}
	opt->log_target = activated ? LOG_TARGET_SYSTEMD
	    : opt->foreground ? LOG_TARGET_STDERR : LOG_TARGET_SYSLOG;
}

static void
free_options(options *opt)
{
''')
e(f,'''	int max_fd = MIN(sysconf(_SC_OPEN_MAX), /* Arbitrary limit: */ 1048576);
	int fd;

	for (fd = min_fd; fd < max_fd; fd++)
		(void)close(fd);
''','''	long max_fd = sysconf(_SC_OPEN_MAX);
	int fd;

	if (max_fd > 1048576)
		max_fd = 1048576;
	for (fd = (int)max_fd - 1; fd >= min_fd; fd--)
		(void)close(fd);
''')
e(f,'''	if (new_root != NULL && (chroot(new_root) == -1 || chdir("/") == -1))
		die("Cannot change root directory to %s: %m", new_root);
	if (user != NULL
	    && (setgid(pw->pw_gid) == -1 || setuid(pw->pw_uid) == -1))
		die("Cannot switch to user %s: %m", user);
''','''	if (new_root != NULL) {
		if (chdir(new_root) == -1 || chroot(".") == -1 || chdir("/") == -1)
			die("Cannot change root directory to %s: %m", new_root);
	}
	if (user != NULL) {
		if (setgid(pw->pw_gid) == -1)
			die("Cannot switch to group of user %s: %m", user);
		if (setuid(pw->pw_uid) == -1)
			die("Cannot switch to user %s: %m", user);
	}
''')
e(f,'''	notice("Exiting");
	return EXIT_SUCCESS;
''','''	notice("Exiting");
	exit(EXIT_SUCCESS);
''')
f="src/server/hash.c"
e(f,'''#include <search.h>

''','''#include <stdlib.h>
#include <string.h>

''')
e(f,'''	if (hcreate(size) == 0)
		die("Cannot create hash table: %m");
''','''	table = xmalloc((size + 1) * sizeof(*table));
	table_size = size + 1;
	table_used = 0;
	(void)atexit(free_table);
''')
e(f,'''void
hash_new(size_t size)
''','''static struct entry {
	const char *key;
	void *value;
} *table;
static size_t table_size, table_used;

static void
free_table(void)
{
	free(table);
	table = NULL;
	table_used = 0;
}

void
hash_new(size_t size)
''')
import re
s=open("/repo/src/server/hash.c").read()
i=s.index("	ENTRY e, *p;\n"); j=s.index("	p->data = value;\n")+len("	p->data = value;\n")
e(f,s[i:j],'''	if (table_used == table_size)
		die("Cannot insert `%s' into hash table", key);
	table[table_used].key = key;
	table[table_used++].value = value;
''')
i=s.index("	ENTRY e, *p;\n",j); j=s.index("		return p->data;\n")+len("		return p->data;\n")
e(f,s[i:j],'''	size_t i;

	for (i = 0; i < table_used; i++)
		if (strcmp(table[i].key, key) == 0)
			return table[i].value;
	return NULL;
''')
e(f,'''#include "system.h"
''','''#include "system.h"
#include "wrappers.h"
''')
f="src/common/util.c"
e(f,'''	const char *p = string;

	while (*p == '\\r' || *p == '\\n')
		p++;

	return (char *)p;
''','''	return (char *)string + strspn(string, "\\r\\n");
''')
e(f,'''	const char *p = string;

	while (*p == ' ' || *p == '\\t')
		p++;

	return (char *)p;
''','''	return (char *)string + strspn(string, " \\t");
''')
e(f,'''	char *p;
	int i;

	for (i = 0, p = strtok(line, " \\t"); p != NULL;
	    i++, p = strtok(NULL, " \\t"))
		if (i < n_args)
			args[i] = p;
		else {
			if (i > 0)
				debug("%s message has more than %d argument(s)",
				    args[0], n_args - 1);
			return false;
		}

	if (i > 0)
		debug("%s message has %d argument(s)", args[0], i - 1);

	return (bool)(i == n_args);
''','''	char *p = line;
	int i = 0;

	while (*(p = skip_whitespace(p)) != '\\0') {
		if (i == n_args)
			return false;
		args[i++] = p;
		p += strcspn(p, " \\t");
		if (*p != '\\0')
			*p++ = '\\0';
	}
	return i == n_args;
''')
e(f,'''	size_t len;

	if ((len = strlen(string)) > 0 && string[len - 1] == '\\n')
		string[len - 1] = '\\0';
''','''	char *newline = strrchr(string, '\\n');

	if (newline != NULL && newline[1] == '\\0')
		*newline = '\\0';
''')
f="src/client/send_nsca.c"
e(f,'''	if (opt->port != NULL)
		conf_setstr(cfg, "port", opt->port);
	if (opt->server != NULL)
		conf_setstr(cfg, "server", opt->server);
	if (opt->delay != -1)
		conf_setint(cfg, "delay", opt->delay);
	if (opt->timeout != -1)
		conf_setint(cfg, "timeout", opt->timeout);

	log_set(opt->log_level, opt->log_target);
''','''	log_set(opt->log_level, opt->log_target);

	if (opt->timeout >= 0)
		conf_setint(cfg, "timeout", opt->timeout);
	if (opt->delay >= 0)
		conf_setint(cfg, "delay", opt->delay);
	if (opt->server)
		conf_setstr(cfg, "server", opt->server);
	if (opt->port)
		conf_setstr(cfg, "port", opt->port);
''')
f="src/server/conf.c"
e(f,'''		if (cfg_size(auth, settings[i]) == 0
		    && cfg_opt_size(global_opt) > 0)
			for (j = 0; j < cfg_opt_size(global_opt); j++)
				if (cfg_setopt(auth,
				    cfg_getopt(auth, settings[i]),
				    cfg_opt_getnstr(global_opt, j)) == NULL)
					exit(EXIT_FAILURE);
''','''		unsigned int n = cfg_opt_size(global_opt);
		cfg_opt_t *own = cfg_getopt(auth, settings[i]);

		if (cfg_opt_size(own) != 0)
			continue;
		for (j = 0; j < n; j++)
			if (!cfg_setopt(auth, own, cfg_opt_getnstr(global_opt, j)))
				exit(EXIT_FAILURE);
''')
e(f,'''		fallback_to_defaults(cfg, auth);
		validate_auth_section(auth);
		hash_insert(identity, auth);
''','''		hash_insert(identity, auth);
		fallback_to_defaults(cfg, auth);
		validate_auth_section(auth);
''')
e(f,'''	do {
		if (*path == '\\'' || *path == '\\\\')
			*p++ = '\\\\';
		*p++ = *path;
	} while (*path++ != '\\0');
''','''	for (; *path != '\\0'; path++) {
		if (strchr("'\\\\", *path) != NULL)
			*p++ = '\\\\';
		*p++ = *path;
	}
	*p = '\\0';
''')
f="src/server/auth.c"
e(f,'''	if ((auth = hash_lookup(identity)) == NULL
	    && (auth = hash_lookup("*")) == NULL) {
		warning("Client''','''	auth = hash_lookup(identity);
	if (auth == NULL)
		auth = hash_lookup("*");
	if (auth == NULL) {
		warning("Client''')
f="contrib/nsca-ng.init"
e(f,'''	pid=`cat "$pid_file" 2>/dev/null`

	if expr "X$pid" : 'X[0-9]\\{1,\\}$' >/dev/null && kill -0 $pid 2>/dev/null
	then
		echo "$pid"
	else
		rm -f "$pid_file" # In case it was left over.
		echo 0
	fi
''','''	p=`cat "$pid_file" 2>/dev/null`

	case $p in
	''|*[!0-9]*)
		p=
		;;
	esac
	if [ -z "$p" ] || ! kill -0 "$p" 2>/dev/null
	then
		rm -f "$pid_file" # In case it was left over.
		p=0
	fi
	echo "$p"
''')
e(f,'''	"$0" stop && sleep 1 && "$0" start
''','''	if "$0" stop
	then
		sleep 1
		"$0" start
	fi
''')
e(f,'''		kill $pid 2>/dev/null && echo 'done.' || echo 'failed.'
''','''		if kill -s TERM "$pid" 2>/dev/null
		then
			echo 'done.'
		else
			echo 'failed.'
		fi
''')
e(f,'''		kill -1 $pid 2>/dev/null''','''		kill -s HUP "$pid" 2>/dev/null''')
f="contrib/invoke_check"
e(f,'''host=${host:-`hostname | sed 's+\\..*++' | tr '[:upper:]' '[:lower:]'`}
''','''if [ -z "${host:-}" ]
then
	host=`hostname | cut -d. -f1 | tr '[:upper:]' '[:lower:]'`
fi
''')
e(f,'''printf '%s\\t%s\\t%s\\t%s\\n' "$host" "$service" "$state" "$output" \\
    | send_nsca $send_nsca_args ${config_file+-c "$config_file"}
''','''tab=`printf '\\t'`
set -- $send_nsca_args
if [ -n "${config_file+set}" ]
then
	set -- "$@" -c "$config_file"
fi
printf '%s\\n' "$host$tab$service$tab$state$tab$output" | send_nsca "$@"
''')
f="contrib/downtime"
e(f,'''start=`date -d "${start:-now}" '+%s'`
end=`date -d "${end:-+2 hours}" '+%s'`
''','''to_seconds()
{
	date -d "$1" '+%s'
}
end=`to_seconds "${end:-+2 hours}"`
start=`to_seconds "${start:-now}"`
''')
f="contrib/debug_server"
e(f,'''    -psk `printf '%s' "$password" | xxd -p | tr -d '\\n'`        \\
    -connect "$server:$port"
''','''    -connect "$server:$port"                                    \\
    -psk "`printf '%s' "$password" | xxd -p | tr -d '\\n'`"
''')
e(f,'''server=${server:-'localhost'}
server=${opt_server:-$server}
port=${port:-$default_port}
port=${opt_port:-$port}
''','''server=${opt_server:-${server:-localhost}}
port=${opt_port:-${port:-$default_port}}
''')
