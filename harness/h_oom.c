/* Failing allocations and failing lock calls: how the process ends.
 *
 * Each case is a random scenario; it is run once to count the library's calls and
 * then once for each call, in a process of its own, with that call failing. */
#include "vf.h"

#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

static struct Shared { int64_t allocs, locks; int failed, returned, callback, changed, kind; const char *op; } *S;

static int fail_lock_at, lock_err;
static AsyncQueue *Q;
static bool Q_ready;
static uint64_t Q_sum;
static uint64_t
queue_sum(void)
{
#ifdef VF_OPAQUE
	return 0;
#else
	const SList *l = &Q->queue;
	uint64_t h = vf_mix((uintptr_t)l->head, vf_mix((uintptr_t)l->tail, l->count));
	for(const SListItem *i = l->head; i; i = i->next) { h = vf_mix(h, vf_mix((uintptr_t)i->data, (uintptr_t)i)); }
	return h;
#endif
}
static void
at_end(void)
{
	if(S->failed && Q_ready && queue_sum() != Q_sum) { S->changed = 1; }
}
static void
on_abort(int sig)
{
	at_end();
	signal(SIGABRT, SIG_DFL);
	raise(SIGABRT);
}
static int
lock_call(void)
{
	++S->locks;
	if(fail_lock_at && !--fail_lock_at)
	{
		S->failed = 1;
		if(Q_ready) { Q_sum = queue_sum(); }
		return lock_err;
	}
	return 0;
}
int vf_pthread_mutexattr_init(pthread_mutexattr_t *a) { return 0; }
int vf_pthread_mutexattr_destroy(pthread_mutexattr_t *a) { return 0; }
int vf_pthread_mutexattr_settype(pthread_mutexattr_t *a, int t) { return 0; }
int vf_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { return lock_call(); }
int vf_pthread_mutex_destroy(pthread_mutex_t *m) { return 0; }
int vf_pthread_mutex_lock(pthread_mutex_t *m) { return lock_call(); }
/* somebody else has it now and then: no failure */
int vf_pthread_mutex_trylock(pthread_mutex_t *m) { static unsigned n; return n++ & 1 ? 0 : EBUSY; }
int vf_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) { return lock_call(); }
int vf_pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *t) { return lock_call(); }
int vf_pthread_mutex_unlock(pthread_mutex_t *m) { return 0; }
int vf_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { return 0; }
int vf_pthread_cond_destroy(pthread_cond_t *c) { return 0; }
int vf_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return EINVAL; }
int vf_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return ETIMEDOUT; }
int vf_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) { return ETIMEDOUT; }
int vf_pthread_cond_signal(pthread_cond_t *c) { return 0; }
int vf_pthread_cond_broadcast(pthread_cond_t *c) { return 0; }
int vf_pthread_condattr_init(pthread_condattr_t *a) { return 0; }
int vf_pthread_condattr_destroy(pthread_condattr_t *a) { return 0; }
int vf_pthread_condattr_setclock(pthread_condattr_t *a, clockid_t c) { return 0; }
int vf_gettimeofday(struct timeval *tv, void *tz) { return gettimeofday(tv, NULL); }
int vf_clock_gettime(clockid_t c, struct timespec *ts) { return clock_gettime(c, ts); }
int vf_timespec_get(struct timespec *ts, int base) { return timespec_get(ts, base); }
time_t vf_time(time_t *t) { return time(t); }
int vf_nanosleep(const struct timespec *a, struct timespec *b) { return 0; }
int vf_usleep(unsigned us) { return 0; }
int vf_sched_yield(void) { return 0; }

static void
released(void *p)
{
	if(S->failed || vf_alloc_failed) { S->callback = 1; }
}
static uint32_t hash_ptr(const void *p) { return (uint32_t)vf_mix(3, (uintptr_t)p); }

/* an operation is over: had one of its calls failed, it should not be */
#define OP(call) \
	do { \
		S->op = #call; \
		call; \
		if(vf_alloc_failed || S->failed) { S->failed = 1; S->returned = 1; _exit(50); } \
	} while(0)

enum { K_HT, K_RB, K_AA, K_LIST, K_SLIST, K_STACK, K_POOL, K_BUFFER, K_ASYNC, NKIND };
static const char *kinds[] = { "hash table", "tree", "assoc array", "list", "slist", "stack", "pool", "buffer", "async queue" };
#define KEY() ((void *)(uintptr_t)(1 + rng_below(rng, u)))

static void
scenario(int kind, Rng *rng)
{
	MemoryPool *mp = NULL;
	size_t u = rng_pct(rng, 50) ? 12 : 90;
	int n = 5 + (int)rng_below(rng, rng_pct(rng, 20) ? 160 : 40);
	bool heap = rng_pct(rng, 50);
	/* far into growth */
	bool large = kind != K_LIST && kind != K_SLIST && kind != K_STACK && kind != K_ASYNC && kind != K_BUFFER && rng_pct(rng, 12);
	if(large) { u = 8000; n = kind == K_POOL ? 500 : 400 + (int)rng_below(rng, 3000); }
	FreeFunc fr = rng_pct(rng, 60) ? released : NULL;
	if(kind != K_HT && kind != K_AA && kind != K_BUFFER && kind != K_POOL && (large || rng_pct(rng, 40)))
	{
		OP(mp = memory_pool_new(sizeof(RBNode) > sizeof(ListItem) ? sizeof(RBNode) : sizeof(ListItem), (large ? 60 : 2) + rng_below(rng, 4)));
	}
	Pool *pool = (Pool *)mp;
	switch(kind)
	{
		case K_HT:
		{
			HashTable st, *t = &st;
			size_t size = rng_pct(rng, 60) ? HASHTABLE_AUTO_RESIZE : 1 + rng_below(rng, 9);
			if(heap) { OP(t = hashtable_new(size, hash_ptr, direct_equal, fr, fr)); } else { OP(hashtable_init(t, size, hash_ptr, direct_equal, fr, fr)); }
			for(int i = 0; i < n; ++i)
			{
				int x = (int)rng_below(rng, large && rng_pct(rng, 99) ? 90 : 100);
				if(x < 75) { OP(hashtable_set(t, KEY(), KEY(), rng_pct(rng, 50))); }
				else if(x < 85) { OP(hashtable_remove(t, KEY())); }
				else if(x < 95) { HashTableIter it; OP(hashtable_iter_init(t, &it)); while(hashtable_iter_next(&it)) { } }
				else { OP(hashtable_clear(t)); }
			}
			if(heap) { OP(hashtable_destroy(t)); } else { OP(hashtable_free(t)); }
			break;
		}
		case K_RB:
		{
			RBTree st, *t = &st;
			if(heap) { OP(t = rbtree_new(direct_compare, fr, fr, pool)); } else { OP(rbtree_init(t, direct_compare, fr, fr, pool)); }
			for(int i = 0; i < n; ++i)
			{
				int x = (int)rng_below(rng, large && rng_pct(rng, 99) ? 90 : 100);
				if(x < 65) { OP(rbtree_set(t, KEY(), KEY(), rng_pct(rng, 50))); }
				else if(x < 80) { OP(rbtree_remove(t, KEY())); }
				else if(x < 97)
				{
					RBTreeIter it;
					bool more = true;
					OP(rbtree_iter_init(t, &it));
					while(more) { OP(more = rbtree_iter_next(&it)); }
					/* a larger tree needs a larger stack */
					for(int j = (int)rng_below(rng, 4); j > 0; --j) { OP(rbtree_set(t, KEY(), KEY(), true)); }
					OP(rbtree_iter_reuse(t, &it));
					more = rng_pct(rng, 70);
					while(more) { OP(more = rbtree_iter_next(&it)); }
					OP(rbtree_iter_free(&it));
				}
				else { OP(rbtree_clear(t)); }
			}
			if(heap) { OP(rbtree_destroy(t)); } else { OP(rbtree_free(t)); }
			break;
		}
		case K_AA:
		{
			AssocArray st, *t = &st;
			if(heap) { OP(t = assoc_array_new(direct_compare, fr, fr)); } else { OP(assoc_array_init(t, direct_compare, fr, fr)); }
			for(int i = 0; i < n; ++i)
			{
				int x = (int)rng_below(rng, large && rng_pct(rng, 99) ? 90 : 100);
				if(x < 80) { OP(assoc_array_set(t, KEY(), KEY(), rng_pct(rng, 50))); }
				else if(x < 97) { OP(assoc_array_remove(t, KEY())); }
				else { OP(assoc_array_clear(t)); }
			}
			if(heap) { OP(assoc_array_destroy(t)); } else { OP(assoc_array_free(t)); }
			break;
		}
		case K_LIST:
		{
			List st, *t = &st;
			bool sorted = rng_pct(rng, 40);
			if(heap) { OP(t = list_new(direct_compare, fr, pool)); } else { OP(list_init(t, direct_compare, fr, pool)); }
			for(int i = 0; i < n; ++i)
			{
				int x = (int)rng_below(rng, large && rng_pct(rng, 99) ? 90 : 100);
				if(sorted && x < 80) { OP(list_insert_sorted(t, KEY())); }
				else if(x < 40) { OP(list_append(t, KEY())); }
				else if(x < 80) { OP(list_prepend(t, KEY())); }
				else if(x < 90) { OP(list_remove_by_data(t, KEY(), rng_pct(rng, 50))); }
				else if(x < 97) { if(list_count(t)) { OP(list_pop(t)); } }
				else { OP(list_clear(t)); }
			}
			if(heap) { OP(list_destroy(t)); } else { OP(list_free(t)); }
			break;
		}
		case K_SLIST:
		case K_STACK:
		{
			SList st, *t = &st;
			bool sorted = rng_pct(rng, 40);
			if(heap) { OP(t = stack_new(direct_compare, fr, pool)); } else { OP(stack_init(t, direct_compare, fr, pool)); }
			for(int i = 0; i < n; ++i)
			{
				int x = (int)rng_below(rng, large && rng_pct(rng, 99) ? 90 : 100);
				if(sorted && x < 80) { OP(slist_insert_sorted(t, KEY())); }
				else if(x < 40) { OP(queue_push(t, KEY())); }
				else if(x < 80) { OP(stack_push(t, KEY())); }
				else if(x < 90) { OP(slist_remove_by_data(t, KEY(), rng_pct(rng, 50))); }
				else if(x < 97) { void *d; OP(stack_pop(t, &d)); }
				else { OP(stack_clear(t)); }
			}
			if(heap) { OP(stack_destroy(t)); } else { OP(stack_free(t)); }
			break;
		}
		case K_POOL:
		{
			MemoryPool *p = NULL;
			void *in[512];
			int k = 0;
			OP(p = memory_pool_new(2 + rng_below(rng, 100), 2 + rng_below(rng, 6)));
			Pool *q = (Pool *)p;
			for(int i = 0; i < n; ++i)
			{
				if(!k || rng_pct(rng, 55)) { OP(in[k] = q->alloc(q)); ++k; }
				else if(rng_pct(rng, 10)) { while(k) { --k; OP(q->free(q, in[k])); } }
				else { --k; OP(q->free(q, in[k])); }
			}
			OP(memory_pool_destroy(p));
			break;
		}
		case K_BUFFER:
		{
			Buffer st, *b = &st;
			static char data[4000];
			char *dst = NULL;
			size_t len = 0;
			size_t max = rng_pct(rng, 70) ? 1 << 20 : 200;
			memset(data, 'x', sizeof data);
			for(size_t i = 7; i < sizeof data; i += 1 + rng_below(rng, 300)) { data[i] = '\n'; }
			if(heap) { OP(b = buffer_new(max)); } else { OP(buffer_init(b, max)); }
			for(int i = 0; i < n; ++i)
			{
				int x = (int)rng_below(rng, large && rng_pct(rng, 99) ? 90 : 100);
				if(x < 40) { OP(buffer_fill(b, data + rng_below(rng, 500), rng_below(rng, rng_pct(rng, 30) ? 3000 : 100))); }
				else if(x < 55) { OP(buffer_read_line(b, &dst, &len)); }
				else if(x < 70) { OP(buffer_flush(b, &dst, &len)); }
				else if(x < 80) { char *s = NULL; OP(s = buffer_to_string(b)); vf_free(s); }
				else if(x < 88)
				{
					int fd = memfd_create("vf", 0);
					if(fd < 0 || write(fd, data, 700) != 700 || lseek(fd, 0, SEEK_SET)) { _exit(51); }
					size_t c = rng_below(rng, 900);
					if(c > max) { c = max; }
					OP(buffer_fill_from_fd(b, fd, c));
					close(fd);
				}
				else if(x < 95) { vf_free(dst); dst = NULL; len = 0; }
				else { OP(buffer_clear(b)); }
			}
			if(heap) { OP(buffer_destroy(b)); } else { OP(buffer_free(b)); }
			break;
		}
		case K_ASYNC:
		{
			AsyncQueue st;
			Q = &st;
			if(heap) { OP(Q = async_queue_new(direct_compare, fr, pool)); } else { OP(async_queue_init(Q, direct_compare, fr, pool)); }
			Q_ready = true;
			for(int i = 0; i < n; ++i)
			{
				int x = (int)rng_below(rng, large && rng_pct(rng, 99) ? 90 : 100);
				void *d;
				if(x < 55) { OP(async_queue_push(Q, KEY())); }
				else if(x < 70) { OP(async_queue_pop_timeout(Q, &d, 0)); }
				else if(x < 78) { bool any = false; OP(any = async_queue_count(Q) > 0); if(any) { OP(async_queue_pop(Q, &d)); } }
				else if(x < 92) { OP(async_queue_count(Q)); }
				else { OP(async_queue_clear(Q)); }
			}
			Q_ready = false;
			if(heap) { OP(async_queue_destroy(Q)); } else { OP(async_queue_free(Q)); }
			break;
		}
	}
	if(mp) { OP(memory_pool_destroy(mp)); }
}
/* runs the scenario in a child; k: the allocation to fail, l: the lock call */
static int
child(int kind, uint64_t seed, int64_t k, int l, int e)
{
	memset(S, 0, sizeof *S);
	fflush(NULL);
	pid_t pid = fork();
	if(pid < 0) { fprintf(stderr, "harness: fork\n"); _exit(77); }
	if(!pid)
	{
		struct rlimit none = { 0, 0 };
		setrlimit(RLIMIT_CORE, &none);
		int fd = open("/dev/null", O_WRONLY);
		if(fd >= 0) { dup2(fd, 2); }
		int sigs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT };
		for(size_t i = 0; i < sizeof sigs / sizeof *sigs; ++i) { signal(sigs[i], SIG_DFL); }
		if(l) { signal(SIGABRT, on_abort); atexit(at_end); }
		alarm(30);
		Rng r = { seed };
		int64_t a0 = vf_lib_allocs;
		vf_fail_at = k;
		fail_lock_at = l;
		lock_err = e;
		scenario(kind, &r);
		S->allocs = vf_lib_allocs - a0;
		_exit(0);
	}
	int st = 0;
	while(waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
	return st;
}
static const char *
ending(int st, char *buf, size_t n)
{
	if(WIFSIGNALED(st)) { snprintf(buf, n, WTERMSIG(st) == SIGALRM ? "hangs" : "is ended by signal %d", WTERMSIG(st)); }
	else { snprintf(buf, n, "ends with status %d", WEXITSTATUS(st)); }
	return buf;
}
void
run_case(const char *mode, uint64_t idx, Rng *rng)
{
	if(!S)
	{
		S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		if(S == MAP_FAILED) { fprintf(stderr, "harness: mmap\n"); _exit(77); }
	}
	bool locks = !strcmp(mode, "lock");
	int kind = locks ? K_ASYNC : (int)(idx % NKIND);
	uint64_t seed = rng_u64(rng);
	char buf[80];
	int st = child(kind, seed, 0, 0, 0);
	VF_CHECK(MON_CB | MON_LEAK, WIFEXITED(st) && !WEXITSTATUS(st), "undisturbed", "the scenario (%s) %s although nothing fails", kinds[kind], ending(st, buf, sizeof buf));
	int64_t n = locks ? S->locks : S->allocs;
	vf_op(kinds[kind], (int64_t)seed, n);
	for(int64_t k = 1; k <= n; ++k)
	{
		static const int errs[] = { EINVAL, EAGAIN, EDEADLK, EPERM };
		int e = errs[rng_below(rng, 4)];
		st = child(kind, seed, locks ? 0 : k, locks ? (int)k : 0, e);
		const char *op = S->op ? S->op : "?";
		if(vf_verbose) { vf_op(op, k, st); }
		VF_CHECK(MON_FUNC, !S->returned, "returns", "%s: %s returns although %s call %ld of %ld failed", kinds[kind], op, locks ? "lock" : "allocation", (long)k, (long)n);
		if(locks) { VF_CHECK(MON_FUNC, WIFEXITED(st) || WTERMSIG(st) == SIGABRT, "wrong-ending", "%s: after a failing lock call in %s the process %s", kinds[kind], op, ending(st, buf, sizeof buf)); }
		else { VF_CHECK(MON_FUNC, WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "wrong-ending", "%s: after a failing allocation (%ld of %ld) in %s the process %s", kinds[kind], (long)k, (long)n, op, ending(st, buf, sizeof buf)); }
		VF_CHECK(MON_FUNC, !S->callback, "callback", "%s: a free callback is called after a failed %s in %s", kinds[kind], locks ? "lock call" : "allocation", op);
		VF_CHECK(MON_FUNC, !S->changed, "content-changed", "%s: the content changes after a failed lock call in %s", kinds[kind], op);
		vf_state(vf_mix((uint64_t)k, (uintptr_t)strlen(op)));
		vf_count(locks ? "failed lock calls" : "failed allocations");
		vf_count(op);
	}
	if(vf_want_sample()) { vf_sample("%s: %ld %s of one scenario failed one after the other", kinds[kind], (long)n, locks ? "lock calls" : "allocations"); }
	vf_case_done(n > 0);
}
