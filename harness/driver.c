/* Fork server around the whole engine.
 *
 * Requests on fd 0:  u32 length, body = NUL terminated strings:
 *     mode ("cli" | "api" | "utl" in the build for util/; then flags; then ';' and a fault, see fault.c), cwd, stdin path ("" = /dev/null), timeout in ms, args...
 *   cli: args are the fql command line, argv[0] excluded.
 *   api: args are commands applied to one handle, see _api().
 * Replies on fd 1: 4 x u32 (wait status, stdout len, stderr len, result len), the bytes.
 *   wait status 0xffffffff: killed after the timeout.
 */
#define _GNU_SOURCE 1
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <grp.h>
#ifdef VF_UTIL
void util_main(int argc, char** argv, FILE* out);
#else
#include "fql.h"

int fql_main(int argc, char** argv);
#endif

static volatile pid_t child = 0;
static volatile int timed_out = 0;
static void on_alarm(int s)
{
	(void)s;
	timed_out = 1;
	if (child > 0) kill(child, SIGKILL);
}
static int rd(void* p, size_t n)
{
	char* c = p;
	while (n) {
		ssize_t g = read(0, c, n);
		if (g <= 0) {
			if (g < 0 && errno == EINTR) continue;
			return -1;
		}
		c += g;
		n -= g;
	}
	return 0;
}
static int outfd = 1;
static int wr(const void* p, size_t n)
{
	const char* c = p;
	while (n) {
		ssize_t g = write(outfd, c, n);
		if (g <= 0) {
			if (g < 0 && errno == EINTR) continue;
			return -1;
		}
		c += g;
		n -= g;
	}
	return 0;
}

#ifndef VF_UTIL
static void _put_fields(FILE* out, struct fql_field* f, int n)
{
	int i;
	fprintf(out, "ROW %d\n", n);
	for (i = 0; i < n; ++i) {
		switch (f[i].type) {
		case FQL_INT:
			fprintf(out, "I %d %ld\n", f[i].is_null, f[i].data.i);
			break;
		case FQL_FLOAT:
			fprintf(out, "F %d %.17g\n", f[i].is_null, f[i].data.f);
			break;
		case FQL_STRING: {
			const char* s = f[i].data.s ? f[i].data.s : "";
			size_t l = strlen(s);
			fprintf(out, "S %d %zu ", f[i].is_null, l);
			fwrite(s, 1, l, out);
			fputc('\n', out);
			break;
		}
		default:
			fprintf(out, "? %d %d\n", f[i].is_null, f[i].type);
		}
	}
}

static int _is(const char** v, const char* a, const char* name)
{
	size_t n = strlen(name);
	if (strncmp(a, name, n) || a[n] != '=') return 0;
	*v = a + n + 1;
	return 1;
}

static void _api(int argc, char** argv, FILE* out)
{
	struct fqlhandle* h = fql_new();
	int i, plans = 0;
	const char* v;
	for (i = 0; i < argc; ++i) {
		const char* a = argv[i];
		if (_is(&v, a, "verbose")) fql_set_verbose(h, atoi(v));
		else if (_is(&v, a, "dry_run")) fql_set_dry_run(h, atoi(v));
		else if (_is(&v, a, "parse_only")) fql_set_parse_only(h, atoi(v));
		else if (_is(&v, a, "overwrite")) fql_set_overwrite(h, atoi(v));
		else if (_is(&v, a, "override")) fql_set_override_warnings(h, atoi(v));
		else if (_is(&v, a, "print_header")) fql_set_print_header(h, atoi(v));
		else if (_is(&v, a, "add_header")) fql_set_add_header(h, atoi(v));
		else if (_is(&v, a, "in_delim")) fql_set_in_delim(h, v);
		else if (_is(&v, a, "out_delim")) fql_set_out_delim(h, v);
		else if (_is(&v, a, "rec_term")) fql_set_record_terminator(h, v);
		else if (_is(&v, a, "threading")) fql_set_threading(h, atoi(v));
		else if (_is(&v, a, "char_as_byte")) fql_set_char_as_byte(h, atoi(v));
		else if (_is(&v, a, "cartesian")) fql_set_force_cartesian(h, atoi(v));
		else if (_is(&v, a, "pipe_factor")) fql_set_pipe_factor(h, atoi(v));
		else if (_is(&v, a, "schema_path")) fql_set_schema_path(h, v);
		else if (_is(&v, a, "schema")) fql_set_schema(h, v);
		else if (_is(&v, a, "strict")) fql_set_strict_mode(h, atoi(v));
		else if (_is(&v, a, "loose")) fql_set_loose_groups(h, atoi(v));
		else if (_is(&v, a, "stable")) fql_set_stable(h, atoi(v));
		else if (_is(&v, a, "crlf")) fql_set_crlf_output(h, atoi(v));
		else if (_is(&v, a, "allow_stdin")) fql_set_allow_stdin(h, atoi(v));
		else if (_is(&v, a, "in_std")) fprintf(out, "RC %d\n", fql_set_in_std(h, v));
		else if (_is(&v, a, "out_std")) fprintf(out, "RC %d\n", fql_set_out_std(h, v));
		else if (_is(&v, a, "import")) fprintf(out, "RC %d\n", fql_import_variable(h, v));
		else if (_is(&v, a, "exec")) fprintf(out, "RC %d\n", fql_exec(h, v));
		else if (_is(&v, a, "plans")) {
			plans = fql_make_plans(h, v);
			fprintf(out, "RC %d\n", plans);
		} else if (_is(&v, a, "exec_plans"))
			fprintf(out, "RC %d\n", fql_exec_plans(h, atoi(v)));
		else if (!strcmp(a, "exec_all")) fprintf(out, "RC %d\n", fql_exec_all_plans(h));
		else if (!strcmp(a, "until_select"))
			fprintf(out, "RC %ld\n", fql_exec_until_select(h));
		else if (!strcmp(a, "field_count")) fprintf(out, "RC %d\n", fql_field_count(h));
		else if (!strcmp(a, "op_type"))
			fprintf(out, "RC %d\n", fql_get_operation_type(h));
		else if (!strcmp(a, "reset")) fprintf(out, "RC %d\n", fql_reset(h));
		else if (!strcmp(a, "stepall") || _is(&v, a, "stepn")) {
			/* step the current plan to its end (or n rows) */
			long limit = *a == 's' && a[4] == 'n' ? atol(v) : -1;
			struct fql_field* f = NULL;
			if (plans <= 0) {
				/* nothing to step through */
				fprintf(out, "RC %d\n", plans < 0 ? plans : 0);
				fflush(out);
				continue;
			}
			int n = fql_field_count(h);
			int rc = 1;
			fprintf(out, "FIELDS %d\n", n);
			while (limit != 0 && (rc = fql_step(h, &f)) == 1) {
				_put_fields(out, f, n);
				--limit;
			}
			fprintf(out, "RC %d\n", rc);
		} else if (!strcmp(a, "flush")) fflush(stdout);
		else {
			fprintf(stderr, "driver: bad command %s\n", a);
			exit(98);
		}
		fflush(out);
	}
	fql_free(h);
	fflush(stdout);
	fprintf(out, "DONE\n");
	fclose(out);
}

#endif

static int mfd[3];
#ifdef VF_FAULT
void fault_init(const char* spec, int fd);
#endif
static const char* fault = NULL; /* what follows ';' in the mode */

static void child_main(char** s, int n)
{
	const char* mode = s[0];
	int in = open(*s[2] ? s[2] : "/dev/null", O_RDONLY);
	if (in < 0 || chdir(s[1])) _exit(98);
	struct rlimit rl = {64 << 20, 64 << 20};
	setrlimit(RLIMIT_FSIZE, &rl);
	rl.rlim_cur = rl.rlim_max = 0;
	setrlimit(RLIMIT_CORE, &rl);
	dup2(in, 0);
	close(in);
	dup2(mfd[0], 1);
	dup2(mfd[1], 2);
	FILE* out = fdopen(dup(mfd[2]), "w");
	signal(SIGALRM, SIG_DFL);
	if (fault && strstr(fault, "full")) {
		/* nothing more can be printed */
		int fd = open("/dev/full", O_WRONLY);
		dup2(fd, 1);
		close(fd);
	}
#ifdef VF_FAULT
	if (fault) fault_init(fault, mfd[2]);
#endif
	int argc = n - 4;
	char** av = s + 4;
#ifdef VF_UTIL
	util_main(argc, av, out);
#else
	if (!strcmp(mode, "cli")) {
		char** argv = calloc(argc + 2, sizeof(char*));
		argv[0] = "fql";
		memcpy(argv + 1, av, argc * sizeof(char*));
		int rc = fql_main(argc + 1, argv);
		exit(rc);
	}
	_api(argc, av, out);
#endif
	exit(0);
}

static int run(char** s, int n, int* status)
{
	int i;
	for (i = 0; i < 3; ++i) {
		if (ftruncate(mfd[i], 0)) return -1;
		lseek(mfd[i], 0, SEEK_SET);
	}
	int ms = atoi(s[3]);
	timed_out = 0;
	fflush(NULL);
	child = fork();
	if (child == 0) {
		child_main(s, n);
		_exit(98);
	}
	struct timespec ts;
	(void)ts;
	struct itimerval it = {{0, 50000}, {ms / 1000, (ms % 1000) * 1000}};
	setitimer(ITIMER_REAL, &it, NULL);
	while (waitpid(child, status, 0) == -1 && errno == EINTR)
		;
	memset(&it, 0, sizeof(it));
	setitimer(ITIMER_REAL, &it, NULL);
	child = 0;
	return timed_out;
}

#ifdef VF_UTIL
static void warm_one(const char* q) { (void)q; }
static void warmup(void) {}
#else
static const char* warm[] = {
    "select 1 a, 'x' + 'y' b where 1 = 1 and not (2 > 3 or 'a' like '%b[a-c]_') and 1 in (1,2) and 1 between 0 and 2 and null is not null",
    "select top 3 distinct case when 1 = 1 then 2 else 3 end, upper('x'), left('abc', 2), -1 * 2 / 3 % 4 - 1, 1.5, cast('1' as int) order by 1 desc",
    "declare @i int = 0; while @i < 2 begin set @i += 1 if @i = 1 select 1 else begin select 2 end end",
    "select a.x, count(*), sum(b.y) s into [o.csv] from t a join [b c] b on a.x = b.x and a.y > 2 left join (select x from t union all select 2) c on c.x = a.x where a.x in (select x from b) group by a.x, b.y having count(*) > 1 order by a.x",
    "update t set a = 'b', c = 2 from t1 t join t2 on t1.x = t2.x where a is null",
    "delete t from t1 t join t2 on t1.x = t2.x where a = 1",
    "delete from t where (a = 1 or b <> 2) and c not in ('x') and not exists (select 1)",
    "insert into x values (1)",
    "create table x (a int)",
    "select substring('a',1,2), replace('a','b','c'), len('x'), isnull(null, 1), getdate()",
};

/* Parse in the server itself, so that the parser's prediction cache is inherited by the
 * children.  Only the generated parser runs here, none of the query analysis. */
static void warm_one(const char* q)
{
	struct fqlhandle* h = fql_new();
	fql_set_parse_only(h, 1);
	fql_make_plans(h, q);
	fql_free(h);
}

static void warmup(void)
{
	unsigned i;
	int dn = open("/dev/null", O_RDWR);
	for (i = 0; i < sizeof(warm) / sizeof(*warm); ++i) {
		/* in a child first: the parent must survive whatever the engine does */
		pid_t p = fork();
		if (p == 0) {
			dup2(dn, 1);
			dup2(dn, 2);
			alarm(20);
			signal(SIGALRM, SIG_DFL);
			struct fqlhandle* h = fql_new();
			fql_set_parse_only(h, 1);
			fql_make_plans(h, warm[i]);
			fql_free(h);
			_exit(0);
		}
		int st = 1;
		while (waitpid(p, &st, 0) == -1 && errno == EINTR)
			;
		if (st != 0) continue;
		warm_one(warm[i]);
	}
	close(dn);
}

#endif

int main(void)
{
	int i;
	struct sigaction sa = {0};
	sa.sa_handler = on_alarm;
	sigaction(SIGALRM, &sa, NULL);
	for (i = 0; i < 3; ++i)
		mfd[i] = memfd_create("o", MFD_CLOEXEC);
	/* whatever the engine does to files, it does as nobody */
	if (getuid() == 0) {
		if (setgroups(0, NULL) || setgid(65534) || setuid(65534))
			fputs("driver: cannot drop privileges\n", stderr);
		umask(0);
	}
	int out = dup(1), dn = open("/dev/null", O_RDWR);
	dup2(dn, 1);
	dup2(dn, 2);
	outfd = out;
	setenv("VF_SLL", "1", 1);
	if (!getenv("VF_NOWARM")) warmup();
	uint32_t len;
	while (!rd(&len, 4)) {
		char* body = malloc(len + 1);
		if (rd(body, len)) break;
		body[len] = 0;
		char** s = calloc(len + 2, sizeof(char*));
		int n = 0;
		size_t p = 0;
		while (p < len) {
			s[n++] = body + p;
			p += strlen(body + p) + 1;
		}
		int status = 0;
		/* mode "cli" or "api", then flags: 'L' = full LL prediction, '!' = parse here
		 * first, so that the prediction cache keeps what this query needs */
		if (strchr(s[0] + 3, 'L')) unsetenv("VF_SLL");
		else setenv("VF_SLL", "1", 1);
		if (strchr(s[0] + 3, '!')) {
			for (i = 4; i < n; ++i) {
				if (!strcmp(s[i], "-c") && i + 1 < n) warm_one(s[i + 1]);
				if (!strncmp(s[i], "plans=", 6)) warm_one(s[i] + 6);
				if (!strncmp(s[i], "exec=", 5)) warm_one(s[i] + 5);
			}
		}
		fault = strchr(s[0], ';');
		if (fault) ++fault;
		s[0][3] = 0;
		int to = run(s, n, &status);
		uint32_t hd[4];
		hd[0] = to ? 0xffffffffu : (uint32_t)status;
		char* data[3];
		for (i = 0; i < 3; ++i) {
			off_t sz = lseek(mfd[i], 0, SEEK_END);
			if (sz > (8 << 20)) sz = 8 << 20;
			data[i] = malloc(sz + 1);
			ssize_t g = pread(mfd[i], data[i], sz, 0);
			hd[i + 1] = g < 0 ? 0 : g;
		}
		wr(hd, sizeof(hd));
		for (i = 0; i < 3; ++i) {
			wr(data[i], hd[i + 1]);
			free(data[i]);
		}
		free(body);
		free(s);
	}
	return 0;
}
