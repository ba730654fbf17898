/* AsyncQueue under real threads.
 *
 * Runs under ThreadSanitizer and as a release build with delays injected around
 * the lock calls. The monitors share nothing between the threads but relaxed
 * counters, so that they do not order what they watch. */
#include "vf.h"

#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <stdatomic.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

/* ---- delays around the library's lock calls ---- */
static _Thread_local Rng tl_rng;
static _Thread_local int tl_delay;
static void
delay(void)
{
	if(!tl_delay) { return; }
	unsigned x = (unsigned)rng_below(&tl_rng, 1000);
	if(x < (unsigned)tl_delay) { sched_yield(); }
	else if(x < (unsigned)(tl_delay + tl_delay / 16)) { struct timespec ts = { 0, (long)rng_below(&tl_rng, 60000) }; nanosleep(&ts, NULL); }
}
int vf_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { return pthread_mutex_init(m, a); }
int vf_pthread_mutex_destroy(pthread_mutex_t *m) { return pthread_mutex_destroy(m); }
int vf_pthread_mutex_lock(pthread_mutex_t *m) { delay(); int r = pthread_mutex_lock(m); delay(); return r; }
int vf_pthread_mutex_trylock(pthread_mutex_t *m) { return pthread_mutex_trylock(m); }
int vf_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) { return pthread_mutex_timedlock(m, t); }
int vf_pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *t) { return pthread_mutex_clocklock(m, c, t); }
int vf_pthread_mutex_unlock(pthread_mutex_t *m) { int r = pthread_mutex_unlock(m); delay(); return r; }
int vf_pthread_mutexattr_init(pthread_mutexattr_t *a) { return pthread_mutexattr_init(a); }
int vf_pthread_mutexattr_destroy(pthread_mutexattr_t *a) { return pthread_mutexattr_destroy(a); }
int vf_pthread_mutexattr_settype(pthread_mutexattr_t *a, int t) { return pthread_mutexattr_settype(a, t); }
int vf_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { return pthread_cond_init(c, a); }
int vf_pthread_cond_destroy(pthread_cond_t *c) { return pthread_cond_destroy(c); }
int vf_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { int r = pthread_cond_wait(c, m); delay(); return r; }
int vf_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { int r = pthread_cond_timedwait(c, m, t); delay(); return r; }
int vf_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) { int r = pthread_cond_clockwait(c, m, k, t); delay(); return r; }
int vf_pthread_cond_signal(pthread_cond_t *c) { delay(); return pthread_cond_signal(c); }
int vf_pthread_cond_broadcast(pthread_cond_t *c) { delay(); return pthread_cond_broadcast(c); }
int vf_pthread_condattr_init(pthread_condattr_t *a) { return pthread_condattr_init(a); }
int vf_pthread_condattr_destroy(pthread_condattr_t *a) { return pthread_condattr_destroy(a); }
int vf_pthread_condattr_setclock(pthread_condattr_t *a, clockid_t c) { return pthread_condattr_setclock(a, c); }
int vf_gettimeofday(struct timeval *tv, void *tz) { return gettimeofday(tv, NULL); }
int vf_clock_gettime(clockid_t c, struct timespec *ts) { return clock_gettime(c, ts); }
int vf_timespec_get(struct timespec *ts, int base) { return timespec_get(ts, base); }
time_t vf_time(time_t *t) { return time(t); }
int vf_nanosleep(const struct timespec *a, struct timespec *b) { return nanosleep(a, b); }
int vf_usleep(unsigned us) { return usleep(us); }
int vf_sched_yield(void) { return sched_yield(); }

/* ---- items ---- */
enum { S_IN = 1, S_OUT = 2, S_REL = 3 };
typedef struct
{
	int state; /* relaxed atomic */
	int producer;
	uint32_t seq;
	uint64_t a, b; /* written by the producer, read by the consumer: plain memory */
} Item;

#define MAXT 12
typedef struct
{
	int role, id, n;
	uint64_t seed;
	int delay;
	Item *items;        /* of a producer */
	Item **got;         /* of a consumer, in order */
	uint32_t ngot;
	uint64_t fails;
} Thr;
static Thr T[MAXT];
static int nt;
static AsyncQueue *Q;
static bool have_cb;
static uint64_t progress;          /* relaxed */
static int producers_left, done;   /* relaxed */
static int64_t outstanding;        /* relaxed: pushed and neither popped nor released */

static void
take(Item *it, int to)
{
	int old = __atomic_exchange_n(&it->state, to, __ATOMIC_RELAXED);
	if(old != S_IN)
	{
		if(to == S_REL) { VF_CHECK(MON_OWN, false, old == S_OUT ? "release-delivered" : "double-release", "an item is released although it was %s", old == S_OUT ? "delivered" : "released"); }
		else { VF_CHECK(MON_OWN | MON_LIN, false, old == S_OUT ? "delivered-twice" : "delivered-released", "an item is delivered although it was %s", old == S_OUT ? "delivered" : "released"); }
	}
	VF_CHECK(MON_OWN | MON_LIN | MON_LOCK, it->a == vf_mix((uint64_t)it->producer, it->seq) && it->b == ~it->a, "item-contents", "what the producer wrote is not what arrives");
	VF_ADD(outstanding, -1);
	VF_ADD(progress, 1);
}
static void
item_free(void *p)
{
	Item *it = p;
	VF_CHECK(MON_OWN | MON_CB, it != NULL, "release-null", "the free callback got NULL");
	take(it, S_REL);
	it->b = ~it->a; /* a write, as releasing memory would be */
}
static int32_t item_cmp(const void *a, const void *b) { return (a > b) - (a < b); }
enum { R_PRODUCER, R_CONSUMER, R_TIMED, R_CLEARER, R_COUNTER };
static void
got_item(Thr *t, void *p)
{
	Item *it = p;
	take(it, S_OUT);
	it->a = vf_mix(1, it->a); /* the consumer owns it now */
	t->got[t->ngot++] = it;
}
static Item poison;
static uint32_t max_items;
static void *
thread_main(void *arg)
{
	Thr *t = arg;
	tl_rng.s = t->seed;
	tl_delay = t->delay;
	Rng *rng = &tl_rng;
	switch(t->role)
	{
		case R_PRODUCER:
			for(int i = 0; i < t->n; ++i)
			{
				Item *it = &t->items[i];
				it->producer = t->id;
				it->seq = (uint32_t)i;
				it->a = vf_mix((uint64_t)t->id, (uint64_t)i);
				it->b = ~it->a;
				__atomic_store_n(&it->state, S_IN, __ATOMIC_RELAXED);
				VF_ADD(outstanding, 1);
				async_queue_push(Q, it);
				VF_ADD(progress, 1);
				if(rng_pct(rng, 3)) { struct timespec ts = { 0, (long)rng_below(rng, 200000) }; nanosleep(&ts, NULL); }
			}
			VF_ADD(producers_left, -1);
			break;
		case R_CONSUMER:
			for(;;)
			{
				void *p = &poison + 1;
				bool ok = async_queue_pop(Q, &p);
				VF_CHECK(MON_BLOCK | MON_LIN, ok, "pop-fails", "a pop without timeout returns without an item");
				if(!ok) { continue; }
				if(p == &poison) { break; }
				got_item(t, p);
			}
			break;
		case R_TIMED:
			for(;;)
			{
				void *p = &poison + 1;
				struct timespec s, e;
				uint32_t ms = rng_pct(rng, 30) ? 0 : rng_pct(rng, 80) ? (uint32_t)rng_below(rng, 4) : (uint32_t)rng_below(rng, 60);
				clock_gettime(CLOCK_MONOTONIC, &s);
				if(async_queue_pop_timeout(Q, &p, ms)) { if(p == &poison) { break; } got_item(t, p); }
				else
				{
					clock_gettime(CLOCK_MONOTONIC, &e);
					int64_t us = (e.tv_sec - s.tv_sec) * 1000000LL + (e.tv_nsec - s.tv_nsec) / 1000;
					VF_CHECK(MON_TIME, us >= (int64_t)ms * 1000 - 3000, "times-out-early", "a pop with a timeout of %u ms gives up after %ld us", ms, (long)us);
					++t->fails;
					VF_ADD(progress, 1);
				}
			}
			break;
		case R_CLEARER:
			while(VF_GET(producers_left) > 0)
			{
				struct timespec ts = { 0, (long)rng_below(rng, 2000000) };
				nanosleep(&ts, NULL);
				async_queue_clear(Q);
				++t->ngot;
			}
			break;
		case R_COUNTER:
			while(VF_GET(producers_left) > 0)
			{
				size_t n = async_queue_count(Q);
				VF_CHECK(MON_LIN, n <= max_items, "count", "count reports %zu, no more than %u were pushed", n, max_items);
				++t->ngot;
				if(rng_pct(rng, 50)) { sched_yield(); }
			}
			break;
	}
	VF_ADD(progress, 1);
	return NULL;
}
/* 20 s without any progress, seen by a thread that did run all the time */
static void *
watchdog(void *arg)
{
	uint64_t last = ~0ULL;
	int still = 0;
	while(!VF_GET(done))
	{
		struct timespec ts = { 0, 20000000 };
		for(int i = 0; i < 100 && !VF_GET(done); ++i) { nanosleep(&ts, NULL); }
		uint64_t p = VF_GET(progress);
		still = p == last ? still + 1 : 0;
		last = p;
		if(still >= 10 && !VF_GET(done)) { vf_stuck("stuck", "no thread makes progress, %ld items are on their way, %d producers are not done", (long)VF_GET(outstanding), VF_GET(producers_left)); }
	}
	return NULL;
}

/* one thread, long queues: every answer is the one of a list */
static void
seq_case(const char *mode, Rng *rng)
{
	int64_t bytes0 = VF_GET(vf_live_bytes);
	tl_delay = 0;
	have_cb = rng_pct(rng, 70);
	int pm = rng_below(rng, 3);
	MemoryPool *mp = pm == 1 ? memory_pool_new(sizeof(SListItem), 2 + rng_below(rng, 30)) : NULL;
	TrackPool tp;
	if(pm == 2) { track_pool_init(&tp, sizeof(SListItem)); }
	Pool *pool = pm == 1 ? (Pool *)mp : pm == 2 ? &tp.pool : NULL;
	AsyncQueue stq;
	bool heap = rng_pct(rng, 50);
	if(heap) { Q = async_queue_new(item_cmp, have_cb ? item_free : NULL, pool); }
	else { memset(&stq, 0xa5, sizeof stq); Q = &stq; async_queue_init(Q, item_cmp, have_cb ? item_free : NULL, pool); }
	size_t cap = rng_pct(rng, 1) ? 70000 : rng_pct(rng, 20) ? 4000 : 400, head = 0, tail = 0, peak = 0;
	Item *it = xcalloc(cap, sizeof *it), **m = xmalloc(cap * sizeof *m);
	int rounds = 1 + (int)rng_below(rng, 60);
	uint64_t delivered = 0, dropped = 0, nulls = 0;
	size_t null_in = 0;
	for(int r = 0; r < rounds; ++r)
	{
		int x = (int)rng_below(rng, 10);
		size_t k = rng_pct(rng, 30) ? rng_below(rng, cap) : rng_below(rng, 40);
		int64_t bytes1 = VF_GET(vf_live_bytes);
		vf_op("seq", (uint64_t)x, k);
		if(x < 5)
		{
			for(; k && tail < cap; --k)
			{
				if(rng_pct(rng, 3)) { m[tail++] = NULL; ++null_in; async_queue_push(Q, NULL); continue; }
				Item *i = &it[tail];
				i->state = S_IN;
				i->producer = 7;
				i->seq = (uint32_t)tail;
				i->a = vf_mix(7, tail);
				i->b = ~i->a;
				m[tail++] = i;
				async_queue_push(Q, i);
			}
		}
		else if(x < 8)
		{
			for(; k; --k)
			{
				void *p = &poison + 1;
				bool timed = head == tail || rng_pct(rng, 50);
				bool ok = timed ? async_queue_pop_timeout(Q, &p, head == tail || rng_pct(rng, 50) ? 0 : UINT32_MAX) : async_queue_pop(Q, &p);
				VF_CHECK(MON_LIN, ok == (head != tail), "seq-pop", "a pop from a queue of %zu items %s", tail - head, ok ? "succeeds" : "fails");
				if(!ok) { break; }
				if(head == tail) { break; }
				VF_CHECK(MON_LIN, p == m[head], "seq-fifo", "a pop gives another item than the oldest");
				if(!p) { ++nulls; --null_in; }
				else if(p == m[head]) { take(p, S_OUT); }
				m[head++] = NULL;
				++delivered;
			}
		}
		else if(x == 8)
		{
			for(int t = rng_pct(rng, 20) ? 3 : 1; t; --t) { async_queue_clear(Q); }
			for(size_t i = head; i < tail; ++i) { if(m[i]) { VF_CHECK(MON_OWN, m[i]->state == (have_cb ? S_REL : S_IN), "clear-release", "clear %s an item", have_cb ? "did not release" : "touched"); } }
			dropped += tail - head;
			head = tail;
			null_in = 0;
			if(pm == 2) { VF_CHECK(MON_POOL, !tp.live, "pool-clear", "clear left %zu nodes in the pool", tp.live); }
		}
		/* what is in the queue was not released */
		for(size_t i = head; i < tail; ++i) { if(m[i] && m[i]->state != S_IN) { VF_CHECK(MON_OWN, false, "released-while-stored", "an item was released while still in the queue"); break; } }
		size_t c = async_queue_count(Q);
		VF_CHECK(MON_LIN, c == tail - head, "seq-count", "count is %zu, should be %zu", c, tail - head);
		if(pm == 2)
		{
			VF_CHECK(MON_POOL, tp.live == tail - head, "pool-live", "%zu nodes taken from the pool for %zu items", tp.live, tail - head);
			VF_CHECK(MON_POOL, VF_GET(vf_live_bytes) == bytes1, "pool-heap-nodes", "a queue with its own pool takes memory from the heap");
		}
		if(tail - head > peak) { peak = tail - head; }
		if(tail == cap && head == tail) { break; }
	}
	vf_op("seq-end", tail - head, tail);
	size_t left = tail - head;
	if(heap) { async_queue_destroy(Q); } else { async_queue_free(Q); }
	for(size_t i = head; i < tail; ++i) { if(m[i]) { VF_CHECK(MON_OWN, m[i]->state == (have_cb ? S_REL : S_IN), "lost-item", "item %zu of %zu left in the queue was %s", i - head, left, have_cb ? "not released with it" : "touched"); } }
	for(size_t i = 0; i < head; ++i) { VF_CHECK(MON_OWN, it[i].state != S_REL || have_cb, "released", "an item was released without a callback"); }
	if(pm == 2)
	{
		VF_CHECK(MON_POOL, !tp.live, "pool-close", "%zu nodes not returned to the pool on free", tp.live);
		vf_count_add("pool nodes handed out", tp.allocs);
		track_pool_fini(&tp);
	}
	if(mp) { memory_pool_destroy(mp); }
	VF_CHECK(MON_LEAK, VF_GET(vf_live_bytes) == bytes0, "leak", "library memory still allocated after free");
	vf_count_add("items delivered", delivered);
	if(have_cb) { vf_count_add("items released", dropped + left); }
	vf_count_max("largest population", peak);
	if(vf_want_sample()) { vf_sample("%s: %d rounds, %zu items pushed, %lu delivered, %zu left at the end, pool %d, callback %d", mode, rounds, tail, (unsigned long)delivered, left, pm, have_cb); }
	(void)nulls;
	free(it); free(m);
	vf_case_done(tail > 0);
}

/* no population is special: each kind of operation at every single one of them */
static void
sweep_case(const char *mode, Rng *rng)
{
	size_t n = (vf_thorough ? 1200 : 540) + rng_below(rng, 20);
	int64_t bytes0 = VF_GET(vf_live_bytes);
	tl_delay = 0;
	have_cb = rng_pct(rng, 70);
	int pm = rng_below(rng, 3);
	MemoryPool *mp = pm == 1 ? memory_pool_new(sizeof(SListItem), 2 + rng_below(rng, 600)) : NULL;
	TrackPool tp;
	if(pm == 2) { track_pool_init(&tp, sizeof(SListItem)); }
	Pool *pool = pm == 1 ? (Pool *)mp : pm == 2 ? &tp.pool : NULL;
	/* a ring: the model */
	size_t cap = 2 * n + 10, head = 0, tail = 0;
	Item *it = xcalloc(cap, sizeof *it);
	AsyncQueue stq;
	uint64_t delivered = 0, released = 0;
	vf_op("sweep", n, (uint64_t)pm);
#define PUT() do { Item *i_ = &it[tail % cap]; *i_ = (Item) { .state = S_IN, .producer = 7, .seq = (uint32_t)(tail % cap), .a = vf_mix(7, tail % cap), .b = ~vf_mix(7, tail % cap) }; async_queue_push(Q, i_); ++tail; } while(0)
#define GET(how) do { \
		void *p_ = NULL; \
		bool ok_ = how ? async_queue_pop_timeout(Q, &p_, how > 1 ? UINT32_MAX : 0) : async_queue_pop(Q, &p_); \
		VF_CHECK(MON_LIN, ok_ && p_ == &it[head % cap], "seq-fifo", "a pop from a queue of %zu items gives %s", tail - head, ok_ ? "another item than the oldest" : "nothing"); \
		take(&it[head++ % cap], S_OUT); ++delivered; } while(0)
#define LOOK() do { size_t c_ = async_queue_count(Q); VF_CHECK(MON_LIN, c_ == tail - head, "seq-count", "count is %zu, should be %zu", c_, tail - head); \
		if(pm == 2) { VF_CHECK(MON_POOL, tp.live == tail - head, "pool-live", "%zu nodes taken from the pool for %zu items", tp.live, tail - head); } } while(0)
	for(size_t r = 0; r <= n; ++r)
	{
		bool heap = r & 1;
		if(heap) { Q = async_queue_new(item_cmp, have_cb ? item_free : NULL, pool); }
		else { memset(&stq, 0xa5, sizeof stq); Q = &stq; async_queue_init(Q, item_cmp, have_cb ? item_free : NULL, pool); }
		LOOK();
		if(r == n)
		{
			/* up, a step back at each population, and down */
			for(size_t i = 0; i < n; ++i)
			{
				PUT(); LOOK();
				if(tail - head > 1) { GET((int)(i % 3)); LOOK(); PUT(); LOOK(); }
				if(i % 7 == 0 && tail - head > 3) { GET(0); GET(1); GET(2); LOOK(); PUT(); PUT(); PUT(); LOOK(); }
			}
			while(tail != head) { GET((int)(tail % 3)); LOOK(); }
		}
		else
		{
			for(int round = 0; round < 2; ++round)
			{
				/* cleared, then closed, at this population */
				size_t keep = head;
				while(tail - head < r) { PUT(); }
				LOOK();
				for(size_t i = head; i < tail; ++i) { if(it[i % cap].state != S_IN) { VF_CHECK(MON_OWN, false, "released-while-stored", "an item was released while still in the queue"); break; } }
				if(round) { if(heap) { async_queue_destroy(Q); } else { async_queue_free(Q); } } else { async_queue_clear(Q); }
				for(; head < tail; ++head) { VF_CHECK(MON_OWN, it[head % cap].state == (have_cb ? S_REL : S_IN), "clear-release", "%s of a queue of %zu items %s one", round ? "free" : "clear", tail - keep, have_cb ? "did not release" : "touched"); ++released; }
				if(!round)
				{
					LOOK();
					void *p = NULL;
					bool ok = async_queue_pop_timeout(Q, &p, 0);
					VF_CHECK(MON_LIN, !ok, "seq-pop", "a pop from a cleared queue succeeds");
					for(size_t i = 0; i < 3; ++i) { PUT(); }
					GET(0);
					LOOK();
				}
				else if(pm == 2) { VF_CHECK(MON_POOL, !tp.live, "pool-close", "%zu nodes not returned to the pool on free", tp.live); }
			}
			if(!mp) { VF_CHECK(MON_LEAK, VF_GET(vf_live_bytes) == bytes0, "leak", "library memory still allocated after free"); }
			continue;
		}
		if(heap) { async_queue_destroy(Q); } else { async_queue_free(Q); }
	}
#undef PUT
#undef GET
#undef LOOK
	if(pm == 2)
	{
		VF_CHECK(MON_POOL, !tp.live, "pool-close", "%zu nodes not returned to the pool on free", tp.live);
		vf_count_add("pool nodes handed out", tp.allocs);
		track_pool_fini(&tp);
	}
	if(mp) { memory_pool_destroy(mp); }
	VF_CHECK(MON_LEAK, VF_GET(vf_live_bytes) == bytes0, "leak", "library memory still allocated after free");
	vf_count_add("items delivered", delivered);
	if(have_cb) { vf_count_add("items released", released); }
	vf_count_add("populations swept", 3 * n);
	vf_count_max("largest population", n);
	if(vf_want_sample()) { vf_sample("%s: every population up to %zu, pool %d, callback %d", mode, n, pm, have_cb); }
	free(it);
	vf_case_done(true);
}

/* a crowd of consumers, all waiting at once */
static int crowd_got;
static uint32_t crowd_ms;
static void *
crowd_main(void *arg)
{
	void *p = NULL;
	bool ok = crowd_ms ? async_queue_pop_timeout(Q, &p, crowd_ms) : async_queue_pop(Q, &p);
	VF_CHECK(MON_BLOCK, ok, "crowd-pop", "a waiting consumer gets no item although there is one for each");
	if(ok) { VF_CHECK(MON_OWN | MON_LIN, __atomic_exchange_n(&((Item *)p)->state, S_OUT, __ATOMIC_RELAXED) == S_IN, "delivered-twice", "an item is delivered twice"); }
	VF_ADD(crowd_got, 1);
	VF_ADD(progress, 1);
	return NULL;
}
static void
crowd_case(const char *mode, Rng *rng)
{
	int64_t bytes0 = VF_GET(vf_live_bytes);
	int n = rng_pct(rng, 60) ? 257 + (int)rng_below(rng, 60) : 20 + (int)rng_below(rng, 200);
	pthread_t *th = xmalloc((size_t)n * sizeof *th), wd;
	Item *it = xcalloc((size_t)n, sizeof *it);
	pthread_attr_t at;
	pthread_attr_init(&at);
	pthread_attr_setstacksize(&at, 128 << 10);
	crowd_ms = rng_pct(rng, 40) ? 0 : rng_pct(rng, 50) ? UINT32_MAX : 600000;
	crowd_got = 0;
	Q = async_queue_new(item_cmp, NULL, NULL);
	__atomic_store_n(&done, 0, __ATOMIC_RELAXED);
	pthread_create(&wd, NULL, watchdog, NULL);
	vf_op("crowd", (uint64_t)n, crowd_ms);
	int made = 0;
	while(made < n && !pthread_create(&th[made], &at, crowd_main, NULL)) { ++made; }
	/* all of them are waiting, most likely */
	struct timespec ts = { 0, 30000000 };
	nanosleep(&ts, NULL);
	for(int i = 0; i < made; ++i)
	{
		it[i].state = S_IN;
		async_queue_push(Q, &it[i]);
		VF_ADD(progress, 1);
		if(rng_pct(rng, 2)) { ts.tv_nsec = (long)rng_below(rng, 300000); nanosleep(&ts, NULL); }
	}
	for(int i = 0; i < made; ++i) { pthread_join(th[i], NULL); }
	__atomic_store_n(&done, 1, __ATOMIC_RELAXED);
	pthread_join(wd, NULL);
	VF_CHECK(MON_LIN | MON_OWN, async_queue_count(Q) == 0, "count-end", "%zu items left", async_queue_count(Q));
	async_queue_destroy(Q);
	VF_CHECK(MON_LEAK, VF_GET(vf_live_bytes) == bytes0, "leak", "library memory still allocated after free");
	vf_count_max("largest crowd of waiting consumers", (uint64_t)made);
	vf_count_add("items delivered", (uint64_t)made);
	VF_ADD(vf_evals, (uint64_t)made);
	if(vf_want_sample()) { vf_sample("crowd: %d consumers, timeout %u", made, crowd_ms); }
	vf_state((uint64_t)made);
	pthread_attr_destroy(&at);
	free(th); free(it);
	vf_case_done(made > 0);
}

/* several queues at once: every item passes all of them, one after the other, taken and pushed on by the threads of each stage */
enum { MAXST = 5, MAXW = 4 };
typedef struct { uint32_t seq; int at; uint64_t sum; } Parcel;
static struct { AsyncQueue q; } stage[MAXST + 1];
typedef struct { int st, id, delay, timed; uint64_t seed; uint32_t n, fails; int64_t last; bool alone; } Hand;
static uint64_t pipe_left;
static Parcel stop_sign;
static void
pipe_push(int st, void *p)
{
	async_queue_push(&stage[st].q, p);
	VF_ADD(progress, 1);
}
static void *
hand_main(void *arg)
{
	Hand *h = arg;
	tl_rng.s = h->seed;
	tl_delay = h->delay;
	for(;;)
	{
		void *p = NULL;
		uint32_t ms = rng_pct(&tl_rng, 40) ? 0 : rng_pct(&tl_rng, 70) ? (uint32_t)rng_below(&tl_rng, 4) : rng_pct(&tl_rng, 50) ? 30 : UINT32_MAX - (uint32_t)rng_below(&tl_rng, 3);
		struct timespec s, e;
		clock_gettime(CLOCK_MONOTONIC, &s);
		bool ok = h->timed ? async_queue_pop_timeout(&stage[h->st].q, &p, ms) : async_queue_pop(&stage[h->st].q, &p);
		if(!ok)
		{
			VF_CHECK(MON_BLOCK | MON_LIN, h->timed, "pop-fails", "a pop without timeout returns without an item");
			clock_gettime(CLOCK_MONOTONIC, &e);
			int64_t us = (e.tv_sec - s.tv_sec) * 1000000LL + (e.tv_nsec - s.tv_nsec) / 1000;
			VF_CHECK(MON_TIME, us >= (int64_t)ms * 1000 - 3000, "times-out-early", "a pop with a timeout of %u ms gives up after %ld us", ms, (long)us);
			++h->fails;
			if(!ms) { sched_yield(); }
			VF_ADD(progress, 1);
			continue;
		}
		if(p == &stop_sign) { break; }
		Parcel *x = p;
		VF_CHECK(MON_LIN | MON_OWN, p != NULL, "delivered-nothing", "a successful pop delivers no item");
		if(!p) { continue; }
		VF_CHECK(MON_LIN | MON_OWN | MON_LOCK, x->at == h->st && x->sum == vf_mix(x->seq, (uint64_t)h->st), "pipe-stage", "queue %d delivers an item that belongs to queue %d", h->st, x->at);
		/* one pushes, one pops: the order stays */
		if(h->alone) { VF_CHECK(MON_LIN, (int64_t)x->seq > h->last, "order", "queue %d delivers item %u after item %ld", h->st, x->seq, (long)h->last); h->last = x->seq; }
		x->at = h->st + 1;
		x->sum = vf_mix(x->seq, (uint64_t)x->at);
		++h->n;
		pipe_push(h->st + 1, x);
	}
	VF_ADD(progress, 1);
	return NULL;
}
static void
pipe_case(const char *mode, Rng *rng)
{
	int64_t bytes0 = VF_GET(vf_live_bytes);
	int ns = 2 + (int)rng_below(rng, MAXST - 1), nh = 0;
	uint32_t n = 1 + (uint32_t)rng_below(rng, rng_pct(rng, 30) ? 10 : 300);
	Hand H[MAXST * MAXW];
	Parcel *x = xcalloc(n, sizeof *x);
	MemoryPool *mp[MAXST + 1] = { 0 };
	bool alone = rng_pct(rng, 40);
	int dl = rng_pct(rng, 30) ? 0 : 20 + (int)rng_below(rng, 200), per[MAXST];
	for(int i = 0; i <= ns; ++i)
	{
		mp[i] = rng_pct(rng, 40) ? memory_pool_new(sizeof(SListItem), 2 + rng_below(rng, 30)) : NULL;
		memset(&stage[i], 0xa5, sizeof stage[i]);
		async_queue_init(&stage[i].q, item_cmp, NULL, (Pool *)mp[i]);
	}
	for(int i = 0; i < ns; ++i)
	{
		per[i] = alone ? 1 : 1 + (int)rng_below(rng, i % 2 ? 2 : MAXW);
		for(int k = 0; k < per[i]; ++k) { H[nh++] = (Hand) { .st = i, .id = k, .delay = dl, .timed = rng_pct(rng, 40), .seed = rng_u64(rng), .last = -1, .alone = alone }; }
	}
	vf_op("pipe", ns << 8 | nh, n);
	__atomic_store_n(&done, 0, __ATOMIC_RELAXED);
	pthread_t th[MAXST * MAXW], wd;
	pthread_create(&wd, NULL, watchdog, NULL);
	for(int i = nh - 1; i >= 0; --i) { if(pthread_create(&th[i], NULL, hand_main, &H[i])) { fprintf(stderr, "harness: pthread_create\n"); _exit(77); } }
	tl_delay = dl;
	for(uint32_t k = 0; k < n; ++k)
	{
		x[k].seq = k;
		x[k].sum = vf_mix(k, 0);
		pipe_push(0, &x[k]);
		if(rng_pct(rng, 3)) { struct timespec ts = { 0, (long)rng_below(rng, 2000000) }; nanosleep(&ts, NULL); }
	}
	/* all of them arrive at the other end */
	uint64_t h = 0;
	int64_t last = -1;
	for(uint32_t k = 0; k < n; ++k)
	{
		void *p = NULL;
		bool ok = rng_pct(rng, 50) ? async_queue_pop(&stage[ns].q, &p) : async_queue_pop_timeout(&stage[ns].q, &p, UINT32_MAX);
		VF_CHECK(MON_BLOCK | MON_LIN | MON_OWN, ok && p, "pop-fails", "item %u of %u does not arrive", k, n);
		if(!ok || !p) { break; }
		Parcel *y = p;
		VF_CHECK(MON_LIN | MON_OWN | MON_LOCK, y->at == ns && y->sum == vf_mix(y->seq, (uint64_t)ns), "pipe-stage", "the last queue delivers an item that belongs to queue %d", y->at);
		if(alone) { VF_CHECK(MON_LIN, (int64_t)y->seq > last, "order", "item %u arrives after item %ld", y->seq, (long)last); last = y->seq; }
		y->at = -1;
		h = vf_mix(h, y->seq);
		VF_ADD(progress, 1);
	}
	for(int i = 0; i < ns; ++i) { for(int k = 0; k < per[i]; ++k) { pipe_push(i, &stop_sign); } }
	uint64_t moved = 0;
	for(int i = 0; i < nh; ++i) { pthread_join(th[i], NULL); moved += H[i].n; vf_count_add("timed pops failing", H[i].fails); }
	__atomic_store_n(&done, 1, __ATOMIC_RELAXED);
	pthread_join(wd, NULL);
	tl_delay = 0;
	VF_CHECK(MON_LIN | MON_OWN, moved == (uint64_t)n * (uint64_t)ns, "pipe-count", "%lu passages of %u items through %d queues", (unsigned long)moved, n, ns);
	for(int i = 0; i <= ns; ++i)
	{
		VF_CHECK(MON_LIN | MON_OWN, async_queue_count(&stage[i].q) == 0, "count-end", "%zu items left in queue %d", async_queue_count(&stage[i].q), i);
		async_queue_free(&stage[i].q);
		if(mp[i]) { memory_pool_destroy(mp[i]); }
	}
	VF_CHECK(MON_LEAK, VF_GET(vf_live_bytes) == bytes0, "leak", "library memory still allocated after free");
	vf_count_add("items delivered", moved + n);
	vf_count_add("threads", (uint64_t)nh);
	VF_ADD(vf_evals, moved + n);
	vf_state(h);
	if(vf_want_sample()) { vf_sample("pipe: %u items through %d queues, %d threads", n, ns + 1, nh); }
	free(x);
	vf_case_done(true);
}

void
run_case(const char *mode, uint64_t idx, Rng *rng)
{
	if(!strcmp(mode, "pipe")) { pipe_case(mode, rng); return; }
	if(!strcmp(mode, "crowd")) { crowd_case(mode, rng); return; }
	if(!strcmp(mode, "seq-sweep")) { sweep_case(mode, rng); return; }
	if(!strcmp(mode, "seq")) { seq_case(mode, rng); return; }
	int64_t bytes0 = VF_GET(vf_live_bytes);
	memset(T, 0, sizeof T);
	memset(&poison, 0, sizeof poison);
	have_cb = rng_pct(rng, 70);
	bool clears = have_cb && rng_pct(rng, 40), pooled = rng_pct(rng, 40);
	int np = 1 + (int)rng_below(rng, 4), nc = (int)rng_below(rng, 4), ntm = (int)rng_below(rng, 4), dl = rng_pct(rng, 30) ? 0 : 20 + (int)rng_below(rng, 300);
	if(!nc && !ntm) { nc = 1; }
	int scale = vf_thorough ? 3 : 1;
	MemoryPool *mp = pooled ? memory_pool_new(sizeof(SListItem), 2 + rng_below(rng, 30)) : NULL;
	AsyncQueue stq;
	bool heap = rng_pct(rng, 50);
	if(heap) { Q = async_queue_new(item_cmp, have_cb ? item_free : NULL, (Pool *)mp); }
	else { memset(&stq, 0xa5, sizeof stq); Q = &stq; async_queue_init(Q, item_cmp, have_cb ? item_free : NULL, (Pool *)mp); }
	nt = 0;
	max_items = 0;
	for(int i = 0; i < np; ++i) { T[nt] = (Thr){ .role = R_PRODUCER, .id = nt, .n = 1 + (int)rng_below(rng, (uint64_t)(rng_pct(rng, 30) ? 20 : 400 * scale)) }; max_items += (uint32_t)T[nt].n; ++nt; }
	for(int i = 0; i < nc; ++i) { T[nt] = (Thr){ .role = R_CONSUMER, .id = nt }; ++nt; }
	for(int i = 0; i < ntm; ++i) { T[nt] = (Thr){ .role = R_TIMED, .id = nt }; ++nt; }
	if(clears) { T[nt] = (Thr){ .role = R_CLEARER, .id = nt }; ++nt; }
	if(rng_pct(rng, 40)) { T[nt] = (Thr){ .role = R_COUNTER, .id = nt }; ++nt; }
	for(int i = 0; i < nt; ++i)
	{
		T[i].seed = rng_u64(rng);
		T[i].delay = dl;
		if(T[i].role == R_PRODUCER) { T[i].items = xcalloc((size_t)T[i].n, sizeof(Item)); }
		if(T[i].role == R_CONSUMER || T[i].role == R_TIMED) { T[i].got = xcalloc(max_items + 1, sizeof(Item *)); }
	}
	__atomic_store_n(&producers_left, np, __ATOMIC_RELAXED);
	__atomic_store_n(&outstanding, 0, __ATOMIC_RELAXED);
	__atomic_store_n(&done, 0, __ATOMIC_RELAXED);
	vf_op("threads", np << 16 | nc << 8 | ntm, max_items);
	pthread_t th[MAXT], wd;
	pthread_create(&wd, NULL, watchdog, NULL);
	for(int i = nt - 1; i >= 0; --i) { if(pthread_create(&th[i], NULL, thread_main, &T[i])) { fprintf(stderr, "harness: pthread_create\n"); _exit(77); } }
	for(int i = 0; i < nt; ++i) { if(T[i].role == R_PRODUCER || T[i].role == R_CLEARER || T[i].role == R_COUNTER) { pthread_join(th[i], NULL); } }
	/* one for each consumer; nobody clears any more */
	bool leftover = rng_pct(rng, 20);
	Item *left[3] = { 0 };
	/* never to the free callback: the poison is popped by exactly the consumers */
	for(int i = 0; i < nc + ntm; ++i) { async_queue_push(Q, &poison); }
	for(int i = 0; i < nt; ++i) { if(T[i].role == R_CONSUMER || T[i].role == R_TIMED) { pthread_join(th[i], NULL); } }
	VF_CHECK(MON_LIN | MON_OWN, async_queue_count(Q) == 0, "count-end", "%zu items left behind the last ones", async_queue_count(Q));
	if(leftover)
	{
		for(int i = 0; i < 3; ++i)
		{
			left[i] = xcalloc(1, sizeof(Item));
			left[i]->state = S_IN;
			left[i]->producer = 99;
			left[i]->seq = (uint32_t)i;
			left[i]->a = vf_mix(99, (uint64_t)i);
			left[i]->b = ~left[i]->a;
			async_queue_push(Q, left[i]);
		}
	}
	if(heap) { async_queue_destroy(Q); } else { async_queue_free(Q); }
	__atomic_store_n(&done, 1, __ATOMIC_RELAXED);
	pthread_join(wd, NULL);
	for(int i = 0; i < 3; ++i) { if(left[i]) { VF_CHECK(MON_OWN, left[i]->state == (have_cb ? S_REL : S_IN), "lost-item", "an item left in the queue was not released with it"); free(left[i]); } }
	/* every item once, each consumer sees each producer's items in order */
	uint64_t delivered = 0, released = 0;
	for(int i = 0; i < nt; ++i)
	{
		if(T[i].role == R_PRODUCER)
		{
			for(int k = 0; k < T[i].n; ++k)
			{
				int s = T[i].items[k].state;
				delivered += s == S_OUT;
				released += s == S_REL;
				VF_CHECK(MON_OWN | MON_LIN, s != S_IN, "lost-item", "item %d of producer %d was neither delivered nor released", k, i);
			}
			vf_count_add("pushes", (uint64_t)T[i].n);
		}
		if(T[i].role == R_CONSUMER || T[i].role == R_TIMED)
		{
			int64_t last[MAXT];
			for(int k = 0; k < MAXT; ++k) { last[k] = -1; }
			uint64_t h = 0;
			for(uint32_t k = 0; k < T[i].ngot; ++k)
			{
				Item *it = T[i].got[k];
				VF_CHECK(MON_LIN, (int64_t)it->seq > last[it->producer], "order", "a consumer gets item %u of a producer after item %ld", it->seq, (long)last[it->producer]);
				last[it->producer] = it->seq;
				h = vf_mix(h, (uint64_t)it->producer << 32 | it->seq);
			}
			vf_state(h);
			vf_count_add("timed pops failing", T[i].fails);
		}
		if(T[i].role == R_CLEARER) { vf_count_add("clears", T[i].ngot); }
		if(T[i].role == R_COUNTER) { vf_count_add("counts", T[i].ngot); }
	}
	vf_count_add("items delivered", delivered);
	vf_count_add("items released", released);
	vf_count_add("threads", (uint64_t)nt);
	VF_ADD(vf_evals, delivered + released);
	if(vf_want_sample()) { vf_sample("%d producers, %d consumers, %d timed consumers, %d threads: %u items, %lu delivered, %lu released by clear", np, nc, ntm, nt, max_items, (unsigned long)delivered, (unsigned long)released); }
	for(int i = 0; i < nt; ++i) { free(T[i].items); free(T[i].got); }
	if(mp) { memory_pool_destroy(mp); }
	VF_CHECK(MON_LEAK, VF_GET(vf_live_bytes) == bytes0, "leak", "library memory still allocated after free");
	vf_case_done(max_items > 0);
}
