/* Random delays around the calls through which engine threads see each other (linked in
 * with ld --wrap).  They change when things happen, never what happens.
 */
#define _GNU_SOURCE 1
#include <sched.h>
#include <stdint.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>
#include <pthread.h>
#include <stdbool.h>

static __thread uint64_t st;
static __thread unsigned bias;
static int mode = -1; /* 0: off */

static uint64_t rnd(void)
{
	if (!st) {
		struct timespec ts;
		clock_gettime(CLOCK_MONOTONIC, &ts);
		st = ((uint64_t)ts.tv_nsec * 2654435761u) ^ ((uint64_t)getpid() << 32) ^ (uint64_t)(uintptr_t)&st | 1;
		st ^= st >> 29;
		/* some threads are slow, some never wait */
		bias = (st >> 7) % 4;
	}
	st ^= st << 13;
	st ^= st >> 7;
	st ^= st << 17;
	return st;
}

static __thread int budget = 200; /* sleeps per thread, bounds the time of a run */

static void jit(void)
{
	if (mode < 0) {
		const char* e = getenv("VF_JITTER");
		mode = e ? atoi(e) : 1;
	}
	if (!mode) return;
	uint64_t r = rnd();
	unsigned p = r & 15;
	if (bias == 0 || p > 2 + bias) return;
	if ((r >> 4 & 3) == 0 && budget > 0) {
		--budget;
		usleep((r >> 8) % 300);
	} else {
		sched_yield();
	}
}

struct fifo;
#define W0(ret, name, args, call) \
	ret __real_##name args; \
	ret __wrap_##name args { jit(); ret x_ = __real_##name call; jit(); return x_; }
#define WV(name, args, call) \
	void __real_##name args; \
	void __wrap_##name args { jit(); __real_##name call; jit(); }

W0(bool, fifo_is_empty, (const struct fifo* f), (f))
W0(bool, fifo_is_full, (const struct fifo* f), (f))
W0(unsigned, fifo_receivable, (struct fifo* f), (f))
W0(void*, fifo_begin, (struct fifo* f), (f))
W0(void*, fifo_get_or_wait, (struct fifo* f), (f))
WV(fifo_add, (struct fifo* f, void* d), (f, d))
WV(fifo_update, (struct fifo* f), (f))
WV(fifo_consume, (struct fifo* f), (f))
WV(fifo_set_open, (struct fifo* f, int o), (f, o))
WV(fifo_wait_for_add, (struct fifo* f), (f))
WV(fifo_wait_for_get, (struct fifo* f), (f))
