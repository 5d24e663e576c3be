/* Faults in the calls through which the engine makes, writes and replaces files (linked in
 * with ld --wrap).  fault_init() is called in the child that runs the engine; without it
 * nothing is counted and nothing fails.
 *
 * spec: comma separated
 *   buf=N      output buffer of the files the engine writes
 *   bytes=N    the device is full after N bytes written to files
 *   op=K:E     the K-th call fails with errno E
 *   ev=K:S     before the K-th call or write, signal S is raised (9: no more than _exit)
 * The numbers of calls, events and bytes are reported on fd at the end.
 */
#define _GNU_SOURCE 1
#include <errno.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static int on = 0, report_fd = -1;
static long buf = 512, budget = -1, op_at = -1, ev_at = -1;
static int op_err, ev_sig;
static long ops, evs, bytes, frees;
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;

static void report(void)
{
	if (report_fd >= 0) dprintf(report_fd, "%ld %ld %ld\n", ops, evs, bytes);
	report_fd = -1;
}

void fault_init(const char* spec, int fd)
{
	const char* p = spec;
	on = 1;
	report_fd = dup(fd);
	while (p && *p) {
		if (!strncmp(p, "buf=", 4)) buf = atol(p + 4);
		if (!strncmp(p, "bytes=", 6)) budget = atol(p + 6);
		if (!strncmp(p, "op=", 3)) sscanf(p + 3, "%ld:%d", &op_at, &op_err);
		if (!strncmp(p, "ev=", 3)) sscanf(p + 3, "%ld:%d", &ev_at, &ev_sig);
		p = strchr(p, ',');
		if (p) ++p;
	}
	atexit(report);
}

static void event(void)
{
	if (!on) return;
	pthread_mutex_lock(&mx);
	int hit = evs++ == ev_at;
	pthread_mutex_unlock(&mx);
	if (!hit) return;
	if (ev_sig == SIGKILL) {
		report();
		_exit(137);
	}
	raise(ev_sig);
}

/* a call that can fail; sig: a signal may arrive here */
static int fails(int sig)
{
	if (!on) return 0;
	if (sig) event();
	pthread_mutex_lock(&mx);
	int hit = ops++ == op_at;
	pthread_mutex_unlock(&mx);
	if (hit) errno = op_err;
	return hit;
}

/* ------------------------------------------------------------------ files */
struct ck { int fd; };
static ssize_t c_write(void* c, const char* b, size_t n)
{
	event();
	pthread_mutex_lock(&mx);
	if (budget >= 0 && bytes + (long)n > budget) n = budget > bytes ? budget - bytes : 0;
	bytes += n;
	pthread_mutex_unlock(&mx);
	if (n == 0) {
		errno = ENOSPC;
		return 0;
	}
	return write(((struct ck*)c)->fd, b, n);
}
static int c_close(void* c)
{
	int r = close(((struct ck*)c)->fd);
	free(c);
	return r;
}

int __real_mkstemp(char*);
int __wrap_mkstemp(char* t)
{
	if (fails(1)) return -1;
	return __real_mkstemp(t);
}

FILE* __real_fdopen(int, const char*);
FILE* __wrap_fdopen(int fd, const char* mode)
{
	if (!on) return __real_fdopen(fd, mode);
	if (fails(0)) return NULL;
	if (*mode != 'w') return __real_fdopen(fd, mode);
	struct ck* c = malloc(sizeof(*c));
	c->fd = fd;
	cookie_io_functions_t io = {NULL, c_write, NULL, c_close};
	FILE* f = fd < 0 ? NULL : fopencookie(c, mode, io);
	if (!f) {
		free(c);
		errno = EBADF;
		return NULL;
	}
	setvbuf(f, NULL, _IOFBF, buf);
	return f;
}

FILE* __real_fopen(const char*, const char*);
FILE* __wrap_fopen(const char* n, const char* mode)
{
	if (*mode == 'w' && fails(1)) return NULL;
	return __real_fopen(n, mode);
}

int __real_fclose(FILE*);
int __wrap_fclose(FILE* f)
{
	int bad = on && f && fileno(f) == -1 && fails(1);
	int e = errno;
	int r = __real_fclose(f);
	if (!bad) return r;
	errno = e;
	return EOF;
}

int __real_rename(const char*, const char*);
int __wrap_rename(const char* a, const char* b)
{
	return fails(1) ? -1 : __real_rename(a, b);
}

int __real_chmod(const char*, mode_t);
int __wrap_chmod(const char* a, mode_t m)
{
	return fails(1) ? -1 : __real_chmod(a, m);
}

int __real_fchmod(int, mode_t);
int __wrap_fchmod(int a, mode_t m)
{
	return fails(0) ? -1 : __real_fchmod(a, m);
}
