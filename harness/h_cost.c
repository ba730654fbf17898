/* What operations cost: the steps (edges of the control flow the library's code takes) and the bytes it
 * has copied, cleared or searched by the C library are counted while containers of all sizes are
 * used, and compared with what the data structure promises. No clocks. */
#include "vf.h"

#include <errno.h>
#include <math.h>
#include <pthread.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static uint64_t steps, moved;
void __sanitizer_cov_trace_pc(void) { ++steps; }
void *vf_memcpy(void *d, const void *s, size_t n) { moved += n; return memcpy(d, s, n); }
void *vf_memmove(void *d, const void *s, size_t n) { moved += n; return memmove(d, s, n); }
void *vf_memset(void *d, int c, size_t n) { moved += n; return memset(d, c, n); }
void *vf_memchr(const void *s, int c, size_t n) { const char *r = memchr(s, c, n); moved += r ? (size_t)(r - (const char *)s) : n; return (void *)r; }
void *vf_memrchr(const void *s, int c, size_t n) { moved += n; return memrchr(s, c, n); }
void *vf_rawmemchr(const void *s, int c) { char *r = rawmemchr(s, c); moved += (size_t)(r - (const char *)s); return r; }
int vf_memcmp(const void *a, const void *b, size_t n) { moved += n; return memcmp(a, b, n); }
size_t vf_strlen(const char *s) { size_t n = strlen(s); moved += n; return n; }
void vf_moved(size_t n) { moved += n; } /* by realloc and calloc */

/* locks: nobody else is there */
int vf_pthread_mutexattr_init(pthread_mutexattr_t *a) { return 0; }
int vf_pthread_mutexattr_destroy(pthread_mutexattr_t *a) { return 0; }
int vf_pthread_mutexattr_settype(pthread_mutexattr_t *a, int t) { return 0; }
int vf_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { return 0; }
int vf_pthread_mutex_destroy(pthread_mutex_t *m) { return 0; }
int vf_pthread_mutex_lock(pthread_mutex_t *m) { return 0; }
int vf_pthread_mutex_trylock(pthread_mutex_t *m) { return 0; }
int vf_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) { return 0; }
int vf_pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *t) { return 0; }
int vf_pthread_mutex_unlock(pthread_mutex_t *m) { return 0; }
int vf_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { return 0; }
int vf_pthread_cond_destroy(pthread_cond_t *c) { return 0; }
int vf_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return EINVAL; }
int vf_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return ETIMEDOUT; }
int vf_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) { return ETIMEDOUT; }
int vf_pthread_cond_signal(pthread_cond_t *c) { return 0; }
int vf_pthread_cond_broadcast(pthread_cond_t *c) { return 0; }
int vf_pthread_condattr_init(pthread_condattr_t *a) { return 0; }
int vf_pthread_condattr_destroy(pthread_condattr_t *a) { return 0; }
int vf_pthread_condattr_setclock(pthread_condattr_t *a, clockid_t c) { return 0; }
int vf_gettimeofday(struct timeval *tv, void *tz) { return gettimeofday(tv, NULL); }
int vf_clock_gettime(clockid_t c, struct timespec *ts) { return clock_gettime(c, ts); }
int vf_timespec_get(struct timespec *ts, int base) { return timespec_get(ts, base); }
time_t vf_time(time_t *t) { return time(t); }
int vf_nanosleep(const struct timespec *a, struct timespec *b) { return 0; }
int vf_usleep(unsigned us) { return 0; }
int vf_sched_yield(void) { return 0; }

/* ---- meters: calls of one kind at about one population ---- */
typedef struct { const char *name; uint64_t steps, moved, calls; double allowed, allowed_bytes; } Meter;
static uint64_t all_calls;
/* what a call may cost on average: several times of what the code needs (4 to 16 steps a call, 3 a level of a search) */
#define CONST 80.0
static double lg(size_t n) { return log2((double)n + 2); }
#define LOG(n) (30.0 * lg(n) + 80.0)
#define DOB(m, may, bytes, stmt) \
	do { \
		uint64_t s_ = steps, b_ = moved; \
		stmt; \
		(m).steps += steps - s_; \
		(m).moved += moved - b_; \
		++(m).calls; \
		(m).allowed += (may); \
		(m).allowed_bytes += (bytes); \
	} while(0)
#define DO(m, may, stmt) DOB(m, may, 200.0, stmt)
/* granted in any case */
#define SLACK 2000.0
#define BYTESLACK 8000.0
static void
judge(Meter *m, size_t n)
{
	all_calls += m->calls;
	if(m->calls)
	{
		vf_count_add("steps counted", m->steps);
		vf_count_add("bytes moved", m->moved);
		vf_count_add("calls measured", m->calls);
		VF_CHECK(MON_STEP, (double)m->steps <= m->allowed + SLACK, m->name, "%lu calls of %s at a population of up to %zu take %lu steps, %.0f would be fair",
		         (unsigned long)m->calls, m->name, n, (unsigned long)m->steps, m->allowed + SLACK);
		VF_CHECK(MON_STEP, (double)m->moved <= m->allowed_bytes + BYTESLACK, m->name, "%lu calls of %s at a population of up to %zu move %lu bytes, %.0f would be fair",
		         (unsigned long)m->calls, m->name, n, (unsigned long)m->moved, m->allowed_bytes + BYTESLACK);
	}
	m->steps = m->calls = m->moved = 0;
	m->allowed = m->allowed_bytes = 0;
}
#define M(id) static Meter id = { #id }

static uint32_t hash_ptr(const void *p) { ++steps; return (uint32_t)vf_mix(3, (uintptr_t)p); }
static bool equal_ptr(const void *a, const void *b) { ++steps; return a == b; }
static int32_t cmp_ptr(const void *a, const void *b) { ++steps; return (a > b) - (a < b); }
static void fr(void *p) { ++steps; }
#define P(n) ((void *)(uintptr_t)(n))
/* from 16 to the largest, each magnitude about as often as the others */
static size_t
population(uint64_t idx, Rng *rng, size_t max)
{
	double top = log2((double)max);
	double e = 4 + (top - 4) * (double)(idx % 8) / 7;
	return (size_t)exp2(e) + rng_below(rng, 30);
}
static bool pow2(size_t n) { return n >= 8 && !(n & (n - 1)); }

/* ---- lists ---- */
enum { L, S, STK, Q, A };
static void
list_cost(const char *mode, int type, uint64_t idx, Rng *rng)
{
	M(append); M(prepend); M(pop); M(count); M(empty); M(ends); M(remove_item); M(push); M(peek); M(walk_all); M(clear_all); M(find_all);
	size_t n = population(idx, rng, vf_thorough ? 2000000 : 300000), have = 0;
	MemoryPool *mp = rng_u64(rng) & 1 ? memory_pool_new(sizeof(ListItem), 2 + rng_below(rng, 127)) : NULL;
	FreeFunc f = rng_u64(rng) & 1 ? fr : NULL;
	List l;
	SList s;
	AsyncQueue a;
	void *d;
	void **items = xcalloc(n + 1000, sizeof *items);
	vf_op("cost", n, mp != NULL);
	switch(type)
	{
		case L: list_init(&l, cmp_ptr, f, (Pool *)mp); break;
		case S: slist_init(&s, cmp_ptr, f, (Pool *)mp); break;
		case STK: stack_init(&s, cmp_ptr, f, (Pool *)mp); break;
		case Q: queue_init(&s, cmp_ptr, f, (Pool *)mp); break;
		default: async_queue_init(&a, cmp_ptr, f, (Pool *)mp); break;
	}
#define COUNTS() do { \
	size_t c_ = 0; \
	switch(type) \
	{ \
		case L: DO(count, CONST, c_ = list_count(&l)); DO(empty, CONST, list_empty(&l)); DO(ends, CONST, list_head(&l)); DO(ends, CONST, list_tail(&l)); break; \
		case S: DO(count, CONST, c_ = slist_count(&s)); DO(empty, CONST, slist_empty(&s)); DO(ends, CONST, slist_head(&s)); break; \
		case STK: DO(count, CONST, c_ = stack_count(&s)); DO(peek, CONST, stack_head(&s, &d)); break; \
		case Q: DO(count, CONST, c_ = queue_count(&s)); DO(peek, CONST, queue_head(&s, &d)); break; \
		default: DO(count, CONST, c_ = async_queue_count(&a)); break; \
	} \
	VF_CHECK(MON_STEP, c_ == have, "count-value", "count is %zu, should be %zu", c_, have); \
} while(0)
#define ADD(front) do { \
	void *i_ = NULL, *v_ = P(1 + rng_below(rng, 1000)); \
	switch(type) \
	{ \
		case L: if(front) { DO(prepend, CONST, i_ = list_prepend(&l, v_)); } else { DO(append, CONST, i_ = list_append(&l, v_)); } break; \
		case S: if(front) { DO(prepend, CONST, i_ = slist_prepend(&s, v_)); } else { DO(append, CONST, i_ = slist_append(&s, v_)); } break; \
		case STK: DO(push, CONST, stack_push(&s, v_)); break; \
		case Q: DO(push, CONST, queue_push(&s, v_)); break; \
		default: DO(push, CONST, async_queue_push(&a, v_)); break; \
	} \
	if(have < n + 1000) { items[have] = i_; } \
	++have; \
} while(0)
#define POP() do { \
	switch(type) \
	{ \
		case L: DO(pop, CONST, list_pop(&l)); break; \
		case S: DO(pop, CONST, slist_pop(&s)); break; \
		case STK: DO(pop, CONST, stack_pop(&s, &d)); break; \
		case Q: DO(pop, CONST, queue_pop(&s, &d)); break; \
		default: if(rng_u64(rng) & 1) { DO(pop, CONST, async_queue_pop(&a, &d)); } else { DO(pop, CONST, async_queue_pop_timeout(&a, &d, rng_below(rng, 2000))); } break; \
	} \
	--have; \
} while(0)
#define JUDGE() do { judge(&append, have); judge(&prepend, have); judge(&pop, have); judge(&count, have); judge(&empty, have); judge(&ends, have); judge(&remove_item, have); judge(&push, have); judge(&peek, have); } while(0)
	for(int round = 0; round < 2; ++round)
	{
		int dir = rng_below(rng, 3);
		while(have < n)
		{
			ADD(dir == 0 ? 0 : dir == 1 ? 1 : rng_u64(rng) & 1);
			if(have % 16 == 0) { COUNTS(); }
			if(have % 64 == 0) { POP(); ADD(1); POP(); ADD(0); }
			if(pow2(have)) { JUDGE(); }
		}
		JUDGE();
		if(type == L)
		{
			/* single items, wherever they are; whatever the pops above left */
			size_t k = 0, half;
			for(ListItem *i = list_head(&l); i; i = list_item_next(i)) { items[k++] = i; }
			half = k < 300 ? k / 2 : k / 3;
			for(size_t i = 0; i < half; ++i)
			{
				size_t j = rng_below(rng, k);
				ListItem *it = items[j];
				items[j] = items[--k];
				DO(remove_item, CONST, list_remove(&l, it));
				--have;
			}
			JUDGE();
		}
		/* everything at once */
		double lin = 40.0 * (double)have + 500;
		if(type == L || type == S)
		{
			for(int i = 0; i < 3; ++i)
			{
				/* present and absent */
				if(type == L) { DO(find_all, lin, list_find(&l, NULL, P(1 + rng_below(rng, 1200)))); DO(find_all, lin, list_contains(&l, P(5000))); DO(find_all, lin, list_remove_by_data(&l, P(5000), i & 1)); }
				else { DO(find_all, lin, slist_find(&s, NULL, P(1 + rng_below(rng, 1200)))); DO(find_all, lin, slist_contains(&s, P(5000))); DO(find_all, lin, slist_remove_by_data(&s, P(5000), i & 1)); }
			}
			if(type == L) { DO(find_all, lin, list_remove_by_data(&l, P(7), true)); have = list_count(&l); } else { DO(find_all, lin, slist_remove_by_data(&s, P(7), true)); have = slist_count(&s); }
			judge(&find_all, have);
		}
		if(rng_u64(rng) & 1)
		{
			while(have > (round ? 0 : n / 10))
			{
				POP();
				if(have % 16 == 0) { COUNTS(); }
				if(pow2(have)) { JUDGE(); }
			}
			JUDGE();
		}
		else
		{
			lin = CONST * (double)have + 500;
			switch(type)
			{
				case L: DOB(clear_all, lin, 200.0 * (double)have + 200, list_clear(&l)); break;
				case S: DOB(clear_all, lin, 200.0 * (double)have + 200, slist_clear(&s)); break;
				case STK: DOB(clear_all, lin, 200.0 * (double)have + 200, stack_clear(&s)); break;
				case Q: DOB(clear_all, lin, 200.0 * (double)have + 200, queue_clear(&s)); break;
				default: DOB(clear_all, lin, 200.0 * (double)have + 200, async_queue_clear(&a)); break;
			}
			have = 0;
			judge(&clear_all, n);
		}
		COUNTS();
	}
	double lin = CONST * (double)have + 500;
	switch(type)
	{
		case L: DOB(clear_all, lin, 200.0 * (double)have + 200, list_free(&l)); break;
		case S: DOB(clear_all, lin, 200.0 * (double)have + 200, slist_free(&s)); break;
		case STK: DOB(clear_all, lin, 200.0 * (double)have + 200, stack_free(&s)); break;
		case Q: DOB(clear_all, lin, 200.0 * (double)have + 200, queue_free(&s)); break;
		default: DOB(clear_all, lin, 200.0 * (double)have + 200, async_queue_free(&a)); break;
	}
	judge(&clear_all, n);
	if(mp) { memory_pool_destroy(mp); }
	free(items);
	if(vf_want_sample()) { vf_sample("%s: %zu items, %s", mode, n, mp ? "pool" : "heap"); }
}

/* ---- maps ---- */
enum { HT, RB, AA };
static void
map_cost(const char *mode, int type, uint64_t idx, Rng *rng)
{
	M(set_new); M(set_old); M(lookup); M(exists); M(remove_key); M(remove_absent); M(count); M(pair); M(iterate_all); M(clear_all); M(fill);
	size_t n = population(idx, rng, type == AA ? (vf_thorough ? 80000 : 30000) : vf_thorough ? 1000000 : 300000);
	/* ascending keys at the end of an array cost no more than the search */
	int order = rng_below(rng, 3);
	if(type == AA && idx % 3 == 0) { order = 0; n *= 8; }
	FreeFunc f = rng_u64(rng) & 1 ? fr : NULL;
	MemoryPool *mp = type == RB && (rng_u64(rng) & 1) ? memory_pool_new(sizeof(RBNode), 2 + rng_below(rng, 127)) : NULL;
	HashTable h;
	RBTree t;
	AssocArray a;
	size_t have = 0, peak = 0;
	uint32_t *perm = xmalloc(n * sizeof *perm);
	for(size_t i = 0; i < n; ++i) { perm[i] = order == 1 ? n - 1 - i : i; }
	if(order == 2) { for(size_t i = n - 1; i > 0; --i) { size_t j = rng_below(rng, i + 1); uint32_t x = perm[i]; perm[i] = perm[j]; perm[j] = x; } }
	vf_op("cost", n, order);
	switch(type)
	{
		case HT: hashtable_init(&h, HASHTABLE_AUTO_RESIZE, hash_ptr, equal_ptr, f, f); break;
		case RB: rbtree_init(&t, cmp_ptr, f, f, (Pool *)mp); break;
		default: assoc_array_init(&a, cmp_ptr, f, f); break;
	}
/* keys are even, absent ones odd */
#define KEY(i) P(2 * (uintptr_t)(i) + 2)
#define NOKEY() P(2 * rng_below(rng, n) + 3)
#define SEARCH (type == HT ? CONST : LOG(have))
/* an insertion or removal in the middle of an array moves what is behind it */
#define UPDATE (type == HT ? CONST : type == RB ? LOG(have) : LOG(have) + 10.0 * (double)have)
#define BYTES (tail || type != AA ? 130.0 : 400.0 + 40.0 * (double)have)
#define SET(m, may, bytes, k, v) do { void *k_ = k, *v_ = v; switch(type) { case HT: DOB(m, may, bytes, hashtable_set(&h, k_, v_, rng_ow)); break; case RB: DOB(m, may, bytes, rbtree_set(&t, k_, v_, rng_ow)); break; default: DOB(m, may, bytes, assoc_array_set(&a, k_, v_, rng_ow)); break; } } while(0)
#define DEL(m, may, bytes, k) do { void *k_ = k; switch(type) { case HT: DOB(m, may, bytes, hashtable_remove(&h, k_)); break; case RB: DOB(m, may, bytes, rbtree_remove(&t, k_)); break; default: DOB(m, may, bytes, assoc_array_remove(&a, k_)); break; } } while(0)
#define EXISTS(k) do { void *k_ = k; switch(type) { case HT: DO(exists, SEARCH, hashtable_key_exists(&h, k_)); break; case RB: DO(exists, SEARCH, rbtree_key_exists(&t, k_)); break; default: DO(exists, SEARCH, assoc_array_key_exists(&a, k_)); break; } } while(0)
#define LOOKUP(k) do { \
	void *k_ = k; \
	switch(type) \
	{ \
		case HT: { HashTablePair *p = NULL; DO(lookup, SEARCH, p = hashtable_lookup(&h, k_)); if(p) { DO(pair, CONST, hashtable_pair_get_key(p)); DO(pair, CONST, hashtable_pair_get_value(p)); DO(pair, CONST, hashtable_pair_set_value(p, P(9))); } break; } \
		case RB: { RBTreePair *p = NULL; DO(lookup, SEARCH, p = rbtree_lookup(&t, k_)); if(p) { DO(pair, CONST, rbtree_pair_get_key(p)); DO(pair, CONST, rbtree_pair_get_value(p)); DO(pair, CONST, rbtree_pair_set_value(p, P(9))); } break; } \
		default: { AssocArrayPair *p = NULL; DO(lookup, SEARCH, p = assoc_array_lookup(&a, k_)); if(p) { DO(pair, CONST, assoc_array_pair_get_key(p)); DO(pair, CONST, assoc_array_pair_get_value(p)); DO(pair, CONST, assoc_array_pair_set_value(p, P(9))); } break; } \
	} \
} while(0)
#define MCOUNT() do { \
	size_t c_ = 0; \
	switch(type) { case HT: DO(count, CONST, c_ = hashtable_count(&h)); break; case RB: DO(count, CONST, c_ = rbtree_count(&t)); break; default: DO(count, CONST, c_ = assoc_array_count(&a)); DO(count, CONST, assoc_array_size(&a)); break; } \
	VF_CHECK(MON_STEP, c_ == have, "count-value", "count is %zu, should be %zu", c_, have); \
} while(0)
#define MJUDGE() do { judge(&set_old, have); judge(&lookup, have); judge(&exists, have); judge(&remove_key, have); judge(&remove_absent, have); judge(&count, have); judge(&pair, have); } while(0)
#define PROBE() do { \
	bool rng_ow = rng_u64(rng) & 1; \
	LOOKUP(rng_u64(rng) & 1 ? KEY(rng_below(rng, n)) : NOKEY()); \
	EXISTS(rng_u64(rng) & 1 ? KEY(rng_below(rng, n)) : NOKEY()); \
	/* may grow now */ \
	if(have && type != RB) { SET(fill, (type == AA ? LOG(have) : SEARCH) + 40, 130.0, KEY(perm[rng_below(rng, have)]), P(5)); } \
	else if(have) { SET(set_old, SEARCH, 200.0, KEY(perm[rng_below(rng, have)]), P(5)); } \
	DEL(remove_absent, SEARCH, 200.0, NOKEY()); \
	MCOUNT(); \
} while(0)
	bool tail = type == AA && order == 0;
	/* tables and arrays may grow and shrink: judged over the whole history */
	Meter *gone = type == RB ? &remove_key : &fill;
	for(int round = 0; round < 2; ++round)
	{
		bool rng_ow = rng_u64(rng) & 1;
		while(have < n)
		{
			/* hash tables and arrays grow: paid for by the entries that fill them */
			SET(fill, (tail ? LOG(have) : UPDATE) + 40, BYTES, KEY(perm[have]), P(3));
			++have;
			if(have % (n > 2000 ? 64 : 8) == 0) { PROBE(); }
			/* back and forth over what may be a boundary */
			if(pow2(have) || have % 1024 == 1)
			{
				for(int i = 0; i < 6; ++i) { DEL(*gone, tail ? LOG(have) : UPDATE, BYTES, KEY(perm[have - 1])); SET(fill, (tail ? LOG(have) : UPDATE) + 40, BYTES, KEY(perm[have - 1]), P(4)); }
			}
			if(pow2(have)) { MJUDGE(); }
		}
		if(have > peak) { peak = have; }
		MJUDGE();
		if(type == RB) { judge(&fill, have); }
		double lin = 80.0 * (double)peak * (type == HT ? 2 : 1) + 20000, linb = 100.0 * (double)peak + 40000;
		size_t seen = 0;
		switch(type)
		{
			case HT: { HashTableIter i; DOB(iterate_all, lin, linb, { hashtable_iter_init(&h, &i); while(hashtable_iter_next(&i)) { ++seen; hashtable_iter_get_key(&i); hashtable_iter_get_value(&i); } }); break; }
			case RB: { RBTreeIter i; DOB(iterate_all, lin, linb, { rbtree_iter_init(&t, &i); while(rbtree_iter_next(&i)) { ++seen; rbtree_iter_get_key(&i); rbtree_iter_get_value(&i); } rbtree_iter_free(&i); }); break; }
			default: { AssocArrayIter i; DOB(iterate_all, lin, linb, { assoc_array_iter_init(&a, &i); while(assoc_array_iter_next(&i)) { ++seen; assoc_array_iter_get_key(&i); assoc_array_iter_get_value(&i); } }); break; }
		}
		VF_CHECK(MON_STEP, seen == have, "iterate-value", "%zu entries, should be %zu", seen, have);
		judge(&iterate_all, have);
		if(round ? rng_u64(rng) & 1 : idx % 2)
		{
			size_t down = round ? 0 : n / 10;
			while(have > down)
			{
				--have;
				DEL(*gone, tail ? LOG(have + 1) : UPDATE + 10, BYTES, KEY(perm[have]));
				if(have % (n > 2000 ? 64 : 8) == 0) { PROBE(); }
				if(pow2(have)) { MJUDGE(); }
			}
			MJUDGE();
		}
		else
		{
			switch(type) { case HT: DOB(clear_all, lin, linb, hashtable_clear(&h)); break; case RB: DOB(clear_all, lin, linb, rbtree_clear(&t)); break; default: DOB(clear_all, lin, linb, assoc_array_clear(&a)); break; }
			have = 0;
			judge(&clear_all, n);
		}
		PROBE();
	}
	MJUDGE();
	judge(&fill, n);
	double lin = 80.0 * (double)peak * (type == HT ? 2 : 1) + 20000, linb = 100.0 * (double)peak + 40000;
	switch(type) { case HT: DOB(clear_all, lin, linb, hashtable_free(&h)); break; case RB: DOB(clear_all, lin, linb, rbtree_free(&t)); break; default: DOB(clear_all, lin, linb, assoc_array_free(&a)); break; }
	judge(&clear_all, n);
	if(mp) { memory_pool_destroy(mp); }
	free(perm);
	if(vf_want_sample()) { vf_sample("%s: %zu entries in order %d", mode, n, order); }
}

/* ---- pool ---- */
static void
pool_cost(const char *mode, uint64_t idx, Rng *rng)
{
	M(take); M(give); M(destroy_all);
	size_t n = population(idx, rng, vf_thorough ? 2000000 : 500000), have = 0, block = 2 + rng_below(rng, rng_u64(rng) & 1 ? 20 : 400), size = 8 + 8 * rng_below(rng, 20), total = 0;
	MemoryPool *mp = memory_pool_new(size, block);
	Pool *p = (Pool *)mp;
	void **in = xmalloc((n + 4) * sizeof *in);
	vf_op("cost", n, (int64_t)block);
#define TAKE() do { DO(take, CONST, in[have] = p->alloc(p)); ++have; ++total; } while(0)
#define GIVE() do { --have; DO(give, CONST, p->free(p, in[have])); } while(0)
	for(int round = 0; round < 3; ++round)
	{
		while(have < n)
		{
			TAKE();
			if(rng_pct(rng, 10)) { size_t j = rng_below(rng, have); void *x = in[j]; in[j] = in[have - 1]; in[have - 1] = x; GIVE(); }
			/* back and forth at every fill of a block */
			if(have % (n > 5000 ? 97 : 1) == 0) { for(int i = 0; i < 3; ++i) { GIVE(); TAKE(); } }
			if(pow2(have)) { judge(&take, have); judge(&give, have); }
		}
		judge(&take, have); judge(&give, have);
		for(size_t i = n - 1; i > 0 && round != 1; --i) { size_t j = rng_below(rng, i + 1); void *x = in[i]; in[i] = in[j]; in[j] = x; }
		while(have > (round == 1 ? n / 2 : 0))
		{
			GIVE();
			if(have % (n > 5000 ? 97 : 1) == 0) { for(int i = 0; i < 3; ++i) { TAKE(); GIVE(); } }
			if(pow2(have)) { judge(&take, have); judge(&give, have); }
		}
		judge(&take, have); judge(&give, have);
	}
	DOB(destroy_all, CONST * (double)n + 500, 200.0 * (double)n, memory_pool_destroy(mp));
	judge(&destroy_all, n);
	free(in);
	if(vf_want_sample()) { vf_sample("%s: %zu items of %zu bytes, %zu a block", mode, n, size, block); }
}

/* ---- buffer ---- */
static void
buffer_cost(const char *mode, uint64_t idx, Rng *rng)
{
	M(write); M(length); M(line); M(flush); M(convert); M(clear_all); M(fill_fd);
	/* calls grow with the square of this, if something is wrong */
	size_t n = population(idx, rng, vf_thorough ? 32 << 20 : 8 << 20), chunk = 1 + rng_below(rng, rng_u64(rng) & 1 ? 3 : n / 50 + 2), have = 0;
	char *src = xmalloc(chunk + 1);
	memset(src, 'x', chunk);
	Buffer b;
	buffer_init(&b, n + chunk + 10);
	char *dst = NULL;
	size_t len = 0;
	vf_op("cost", n, (int64_t)chunk);
#define BJUDGE() do { judge(&length, have); judge(&flush, have); judge(&convert, have); judge(&clear_all, have); judge(&line, have); } while(0)
	for(int round = 0; round < 3; ++round)
	{
		while(have < n)
		{
			DOB(write, CONST + 4.0 * (double)chunk, 20.0 * (double)chunk + 20, buffer_fill(&b, src, chunk));
			have += chunk;
			size_t l = 0;
			DO(length, CONST, l = buffer_len(&b));
			VF_CHECK(MON_STEP, l == have, "length-value", "length is %zu, should be %zu", l, have);
			DO(length, CONST, buffer_is_empty(&b));
			DO(length, CONST, buffer_is_valid(&b));
			if(pow2(have / chunk)) { judge(&length, have); }
		}
		judge(&write, have);
		DOB(flush, CONST + 4.0 * (double)have, 4.0 * (double)have + 200, buffer_flush(&b, &dst, &len));
		DOB(flush, CONST + 4.0 * (double)have, 4.0 * (double)have + 200, buffer_flush(&b, &dst, &len));
		char *s;
		DOB(convert, CONST + 4.0 * (double)have, 4.0 * (double)have + 200, s = buffer_to_string(&b));
		free(s);
		DOB(line, CONST + 4.0 * (double)have, 4.0 * (double)have + 200, buffer_read_line(&b, &dst, &len));
		/* may be the one that makes the buffer grow: paid for by what is there */
		DOB(write, CONST, 20.0 * (double)have, buffer_fill(&b, "\n", 1));
		judge(&write, have);
		/* nothing behind it: the line itself is all there is to move */
		DOB(line, CONST + 4.0 * (double)have, 4.0 * (double)have + 200, buffer_read_line(&b, &dst, &len));
		have = 0;
		DO(write, CONST, buffer_fill(&b, src, 1));
		have = 1;
		DO(clear_all, CONST, buffer_clear(&b));
		have = 0;
		BJUDGE();
		/* short lines in a short buffer, though the buffer was long once */
		for(int i = 0; i < 300; ++i)
		{
			DOB(write, CONST + 100, 500.0, buffer_fill(&b, "some words\nand more\n", 20));
			DOB(line, CONST + 100, 500.0, buffer_read_line(&b, &dst, &len));
			DOB(line, CONST + 100, 500.0, buffer_read_line(&b, &dst, &len));
			DOB(line, CONST + 100, 500.0, buffer_read_line(&b, &dst, &len));
		}
		judge(&write, 20);
		BJUDGE();
	}
	DO(clear_all, CONST, buffer_free(&b));
	BJUDGE();
	free(dst);
	free(src);
	if(vf_want_sample()) { vf_sample("%s: %zu bytes in chunks of %zu", mode, n, chunk); }
}

/* ---- functions ---- */
static void
func_cost(const char *mode, uint64_t idx, Rng *rng)
{
	M(str_hash_); M(str_equal_); M(direct);
	size_t n = population(idx, rng, 1 << 20);
	char *a = xmalloc(n + 1), *b = xmalloc(n + 1);
	for(size_t i = 0; i < n; ++i) { a[i] = b[i] = (char)('a' + rng_below(rng, 26)); }
	a[n] = b[n] = 0;
	vf_op("cost", n, 0);
	double lin = 10.0 * (double)n + CONST;
	DOB(str_hash_, lin, 4.0 * (double)n + 200, str_hash(a));
	DOB(str_equal_, lin, 4.0 * (double)n + 200, str_equal(a, b));
	DOB(str_equal_, lin, 4.0 * (double)n + 200, str_equal(a, a));
	size_t at = rng_below(rng, n);
	b[at] = '-';
	DOB(str_equal_, lin, 4.0 * (double)n + 200, str_equal(a, b));
	DO(direct, CONST, direct_hash(P(n)));
	DO(direct, CONST, direct_equal(a, b));
	DO(direct, CONST, direct_compare(a, b));
	judge(&str_hash_, n); judge(&str_equal_, n); judge(&direct, n);
	free(a); free(b);
}

void
run_case(const char *mode, uint64_t idx, Rng *rng)
{
	static const struct { const char *name; int kind, type; } T[] = {
		{ "list-cost", 0, L }, { "slist-cost", 0, S }, { "stack-cost", 0, STK }, { "queue-cost", 0, Q }, { "async-cost", 0, A },
		{ "ht-cost", 1, HT }, { "rb-cost", 1, RB }, { "aa-cost", 1, AA }, { "pool-cost", 2, 0 }, { "buffer-cost", 3, 0 }, { "func-cost", 4, 0 },
	};
	all_calls = 0;
	steps = moved = 0;
	for(size_t i = 0; i < sizeof T / sizeof *T; ++i)
	{
		if(strcmp(mode, T[i].name)) { continue; }
		switch(T[i].kind)
		{
			case 0: list_cost(mode, T[i].type, idx, rng); break;
			case 1: map_cost(mode, T[i].type, idx, rng); break;
			case 2: pool_cost(mode, idx, rng); break;
			case 3: buffer_cost(mode, idx, rng); break;
			default: func_cost(mode, idx, rng); break;
		}
	}
	vf_state(vf_mix(steps, moved));
	vf_count_max("most steps in a case", steps);
	vf_case_done(all_calls > 0);
}
