/* AsyncQueue under a controlled scheduler: fibers, virtual locks, virtual time.
 *
 * The library's thread and clock calls end here (renamed in the object files). In
 * the "sched" build every load, store and branch of the library is a scheduling
 * point as well, and loads and stores feed a happens-before race monitor. */
#include "vf.h"

#include <errno.h>
#include <pthread.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>
#ifdef VF_SAN_HEAP
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#endif

#define MAXF 14
#define STACK (64 * 1024)
#define NOW_INF INT64_MAX
#define MS 1000000LL
#define SLACK MS

enum { OP_PUSH, OP_POP, OP_TPOP, OP_COUNT, OP_CLEAR };
static const char *opname[] = { "push", "pop", "timed-pop", "count", "clear" };
typedef struct
{
	int type, fiber;
	int32_t val;      /* id pushed or popped, 0: NULL */
	uint32_t ms;
	bool ok, done;
	size_t count;
	uint64_t call, ret, notbefore;
	int64_t t_call, t_ret, blocked;
	int rel[40], nrel;
} Op;

typedef enum { F_NONE, F_READY, F_MUTEX, F_COND, F_SLEEP, F_DONE } State;
typedef struct VMutex { void *addr; int owner; bool destroyed; uint32_t vc[MAXF + 1]; } VMutex;
typedef struct VCond { void *addr; bool destroyed; clockid_t clk; int waiters; } VCond;
typedef struct Step { int type; int32_t val; uint32_t ms; int64_t pause; } Step;
typedef struct
{
	ucontext_t ctx;
	char *stack;
	State st;
	bool inlib_sleep;
	VMutex *m, *remutex;
	VCond *c;
	int64_t deadline, wait_start;
	int rc;
	int prio;
	Step script[24];
	int nsteps, at;
	Op *op;
	uint32_t vc[MAXF + 1];
	void *fake; /* ASan */
} Fiber;

static Fiber F[MAXF];
static int nf, cur = -1;
static ucontext_t sched_ctx;
static void *sched_fake;
static const void *sched_bottom;
static size_t sched_size;
static Rng *R;
static int64_t now, mono_off;
static uint64_t ev, steps, switches;
static long budget;
static int style, gap, jitter, p_spurious, p_jump, prio_next;
static Op ops[64];
static int nops;
static AsyncQueue *Q;
static bool have_cb, abandoned;
static uint64_t race_checks;

/* ---- race monitor ---- */
#define SH (1 << 13)
static struct { uintptr_t a; int8_t wt; uint32_t wc; uint32_t rc[MAXF + 1]; uint32_t gen; } sh[SH];
static uint32_t sh_gen;
static size_t sh_used;
static uint32_t main_vc[MAXF + 1];
static void
vc_join(uint32_t *a, const uint32_t *b)
{
	for(int i = 0; i <= MAXF; ++i) { if(b[i] > a[i]) { a[i] = b[i]; } }
}
static void
sh_clear(const void *p, size_t n)
{
	uintptr_t lo = (uintptr_t)p >> 3, hi = ((uintptr_t)p + n + 7) >> 3;
	if(n > 4096) { ++sh_gen; sh_used = 0; return; }
	for(uintptr_t a = lo; a < hi; ++a)
	{
		size_t i = vf_mix(9, a) & (SH - 1);
		while(sh[i].gen == sh_gen && sh[i].a != a) { i = (i + 1) & (SH - 1); }
		if(sh[i].gen == sh_gen) { sh[i].wt = -1; memset(sh[i].rc, 0, sizeof sh[i].rc); }
	}
}
static void
access_mem(uintptr_t p, bool write)
{
	Fiber *f = &F[cur];
	if(p >= (uintptr_t)f->stack && p < (uintptr_t)f->stack + STACK) { return; }
	uintptr_t a = p >> 3;
	size_t i = vf_mix(9, a) & (SH - 1);
	while(sh[i].gen == sh_gen && sh[i].a != a) { i = (i + 1) & (SH - 1); }
	if(sh[i].gen != sh_gen)
	{
		if(sh_used > SH / 2) { return; }
		++sh_used;
		memset(&sh[i], 0, sizeof sh[i]);
		sh[i].a = a;
		sh[i].gen = sh_gen;
		sh[i].wt = -1;
	}
	++race_checks;
	if(sh[i].wt >= 0 && sh[i].wt != cur && sh[i].wc > f->vc[sh[i].wt])
	{
		VF_CHECK(MON_LOCK, false, "race", "thread %d %s memory that thread %d wrote without synchronisation", cur, write ? "writes" : "reads", sh[i].wt);
	}
	if(write)
	{
		for(int t = 0; t < nf; ++t)
		{
			if(t != cur && sh[i].rc[t] > f->vc[t]) { VF_CHECK(MON_LOCK, false, "race", "thread %d writes memory that thread %d read without synchronisation", cur, t); }
		}
		sh[i].wt = (int8_t)cur;
		sh[i].wc = f->vc[cur];
	}
	else { sh[i].rc[cur] = f->vc[cur]; }
}

/* ---- switching ---- */
static void
to_sched(void)
{
	Fiber *f = &F[cur];
#ifdef VF_SAN_HEAP
	__sanitizer_start_switch_fiber(f->st == F_DONE ? NULL : &f->fake, sched_bottom, sched_size);
#endif
	swapcontext(&f->ctx, &sched_ctx);
#ifdef VF_SAN_HEAP
	__sanitizer_finish_switch_fiber(f->fake, &sched_bottom, &sched_size);
#endif
}
static void
new_budget(void)
{
	budget = gap <= 0 ? 1 << 30 : 1 + (long)rng_below(R, 2 * (uint64_t)gap);
}
static void yield(void) { to_sched(); }
/* a place where another thread may run */
static inline void
point(void)
{
	if(cur >= 0 && --budget <= 0) { yield(); }
}
static void
sync_point(void)
{
	if(cur >= 0)
	{
		if(style == 1) { point(); }
		else if(rng_pct(R, gap == 0 ? 20 : 60)) { yield(); }
	}
}
#define HOOK(n) \
	void __sanitizer_cov_load##n(void *p) { if(cur >= 0) { access_mem((uintptr_t)p, false); if(n > 8) { access_mem((uintptr_t)p + 8, false); } point(); } } \
	void __sanitizer_cov_store##n(void *p) { if(cur >= 0) { access_mem((uintptr_t)p, true); if(n > 8) { access_mem((uintptr_t)p + 8, true); } point(); } }
HOOK(1) HOOK(2) HOOK(4) HOOK(8) HOOK(16)
void __sanitizer_cov_trace_pc(void) { point(); }
void vf_block_hook(void *p, size_t n) { sh_clear(p, n); }

/* ---- virtual time ---- */
static void
advance_to(int64_t t)
{
	if(t <= now) { return; }
	for(int i = 0; i < nops; ++i)
	{
		Op *o = &ops[i];
		if(!o->done && o->type == OP_TPOP && !o->notbefore && t >= o->t_call + (int64_t)o->ms * MS - SLACK) { o->notbefore = ++ev; }
	}
	now = t;
}
static int64_t tick(void) { return now / 1000 * 1000; }
int
vf_gettimeofday(struct timeval *tv, void *tz)
{
	sync_point();
	tv->tv_sec = now / 1000000000;
	tv->tv_usec = now % 1000000000 / 1000;
	return 0;
}
int
vf_clock_gettime(clockid_t c, struct timespec *ts)
{
	sync_point();
	int64_t t = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? now : now - mono_off;
	ts->tv_sec = t / 1000000000;
	ts->tv_nsec = t % 1000000000;
	return 0;
}
int vf_timespec_get(struct timespec *ts, int base) { vf_clock_gettime(CLOCK_REALTIME, ts); return base; }
time_t vf_time(time_t *p) { time_t t = now / 1000000000; if(p) { *p = t; } return t; }
static void
sleep_until(int64_t t, bool inlib)
{
	F[cur].st = F_SLEEP;
	F[cur].inlib_sleep = inlib;
	F[cur].deadline = t;
	yield();
}
int
vf_nanosleep(const struct timespec *ts, struct timespec *rem)
{
	if(cur >= 0) { sleep_until(now + ts->tv_sec * 1000000000LL + ts->tv_nsec, true); }
	return 0;
}
int vf_usleep(unsigned us) { if(cur >= 0) { sleep_until(now + us * 1000LL, true); } return 0; }
int vf_sched_yield(void) { if(cur >= 0) { yield(); } return 0; }

/* ---- virtual locks ---- */
static VMutex mtx[16];
static VCond cnd[16];
static int nm, nc;
static VMutex *
mutex_of(void *p, const char *what)
{
	for(int i = 0; i < nm; ++i) { if(mtx[i].addr == p) { VF_CHECK(MON_LOCK, !mtx[i].destroyed, "lock-destroyed", "%s on a destroyed mutex", what); return &mtx[i]; } }
	static const char zero[sizeof(pthread_mutex_t)];
	VF_CHECK(MON_LOCK, !memcmp(p, zero, sizeof zero), "lock-uninitialised", "%s on an uninitialised mutex", what);
	mtx[nm] = (VMutex){ .addr = p, .owner = -1 };
	return &mtx[nm++];
}
static VCond *
cond_of(void *p, const char *what)
{
	for(int i = 0; i < nc; ++i) { if(cnd[i].addr == p) { VF_CHECK(MON_LOCK, !cnd[i].destroyed, "cond-destroyed", "%s on a destroyed condition", what); return &cnd[i]; } }
	static const char zero[sizeof(pthread_cond_t)];
	VF_CHECK(MON_LOCK, !memcmp(p, zero, sizeof zero), "cond-uninitialised", "%s on an uninitialised condition", what);
	cnd[nc] = (VCond){ .addr = p };
	return &cnd[nc++];
}
int vf_pthread_mutexattr_init(pthread_mutexattr_t *a) { return 0; }
int vf_pthread_mutexattr_destroy(pthread_mutexattr_t *a) { return 0; }
int vf_pthread_mutexattr_settype(pthread_mutexattr_t *a, int t) { return 0; }
int
vf_pthread_mutex_init(pthread_mutex_t *p, const pthread_mutexattr_t *a)
{
	VMutex *m = NULL;
	for(int i = 0; i < nm; ++i) { if(mtx[i].addr == (void *)p) { m = &mtx[i]; } }
	if(!m) { m = &mtx[nm++]; }
	memset(m, 0, sizeof *m);
	m->addr = p;
	m->owner = -1;
	return 0;
}
int
vf_pthread_mutex_destroy(pthread_mutex_t *p)
{
	VMutex *m = mutex_of(p, "destroy");
	VF_CHECK(MON_LOCK, m->owner < 0, "destroy-locked", "a locked mutex is destroyed");
	m->destroyed = true;
	return 0;
}
static void
acquire(VMutex *m)
{
	if(m->owner >= 0)
	{
		VF_CHECK(MON_LOCK | MON_BLOCK, m->owner != cur, "relock", "a thread takes a lock it already holds");
		F[cur].st = F_MUTEX;
		F[cur].m = m;
		yield(); /* the scheduler hands the lock over */
	}
	else { m->owner = cur; }
	vc_join(F[cur].vc, m->vc);
}
static void
release(VMutex *m)
{
	vc_join(m->vc, F[cur].vc);
	++F[cur].vc[cur];
	m->owner = -1;
}
int
vf_pthread_mutex_lock(pthread_mutex_t *p)
{
	sync_point();
	VMutex *m = mutex_of(p, "lock");
	if(cur < 0) { return 0; }
	acquire(m);
	return 0;
}
int
vf_pthread_mutex_trylock(pthread_mutex_t *p)
{
	sync_point();
	VMutex *m = mutex_of(p, "trylock");
	if(cur < 0) { return 0; }
	if(m->owner >= 0) { return EBUSY; }
	acquire(m);
	return 0;
}
int vf_pthread_mutex_timedlock(pthread_mutex_t *p, const struct timespec *t) { return vf_pthread_mutex_lock(p); }
int vf_pthread_mutex_clocklock(pthread_mutex_t *p, clockid_t c, const struct timespec *t) { return vf_pthread_mutex_lock(p); }
int
vf_pthread_mutex_unlock(pthread_mutex_t *p)
{
	VMutex *m = mutex_of(p, "unlock");
	if(cur < 0) { return 0; }
	VF_CHECK(MON_LOCK, m->owner == cur, "unlock-not-owner", "a thread releases a lock held by %s", m->owner < 0 ? "nobody" : "another thread");
	release(m);
	sync_point();
	return 0;
}
int vf_pthread_condattr_init(pthread_condattr_t *a) { memset(a, 0, sizeof *a); return 0; }
int vf_pthread_condattr_destroy(pthread_condattr_t *a) { return 0; }
int vf_pthread_condattr_setclock(pthread_condattr_t *a, clockid_t c) { memcpy(a, &c, sizeof(int)); return 0; }
int
vf_pthread_cond_init(pthread_cond_t *p, const pthread_condattr_t *a)
{
	VCond *c = NULL;
	for(int i = 0; i < nc; ++i) { if(cnd[i].addr == (void *)p) { c = &cnd[i]; } }
	if(!c) { c = &cnd[nc++]; }
	memset(c, 0, sizeof *c);
	c->addr = p;
	if(a) { int k; memcpy(&k, a, sizeof k); c->clk = k; }
	return 0;
}
int
vf_pthread_cond_destroy(pthread_cond_t *p)
{
	VCond *c = cond_of(p, "destroy");
	VF_CHECK(MON_LOCK, !c->waiters, "destroy-waiters", "a condition with waiters is destroyed");
	c->destroyed = true;
	return 0;
}
static int
wait_cond(pthread_cond_t *pc, pthread_mutex_t *pm, int64_t deadline)
{
	VCond *c = cond_of(pc, "wait");
	VMutex *m = mutex_of(pm, "wait");
	if(cur < 0) { fprintf(stderr, "harness: wait outside a fiber\n"); _exit(77); }
	Fiber *f = &F[cur];
	VF_CHECK(MON_LOCK, m->owner == cur, "wait-unlocked", "a thread waits without holding the lock");
	if(f->op && f->op->type == OP_TPOP)
	{
		int64_t more = deadline == NOW_INF ? NOW_INF : deadline > now ? deadline - now : 0;
		int64_t limit = (int64_t)f->op->ms * MS + SLACK - f->op->blocked;
		VF_CHECK(MON_TIME, more <= limit, "waits-too-long", "a pop with a timeout of %u ms waits another %ld us after having waited %ld us", f->op->ms, deadline == NOW_INF ? -1L : (long)(more / 1000), (long)(f->op->blocked / 1000));
	}
	release(m);
	f->st = F_COND;
	f->c = c;
	f->remutex = m;
	f->deadline = deadline;
	f->wait_start = now;
	++c->waiters;
	yield(); /* the scheduler hands the lock over before resuming */
	vc_join(f->vc, m->vc);
	return f->rc;
}
int vf_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return wait_cond(c, m, NOW_INF); }
static int
wait_clock(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t, clockid_t k)
{
	if(t->tv_nsec < 0 || t->tv_nsec > 999999999) { return EINVAL; }
	int64_t d;
	if(__builtin_mul_overflow((int64_t)t->tv_sec, 1000000000LL, &d) || __builtin_add_overflow(d, (int64_t)t->tv_nsec, &d)) { d = NOW_INF - 1; }
	if(k != CLOCK_REALTIME) { d += mono_off; }
	return wait_cond(c, m, d);
}
int vf_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return wait_clock(c, m, t, cond_of(c, "wait")->clk); }
int vf_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) { return wait_clock(c, m, t, k); }
static void
wake(int i, int rc)
{
	Fiber *f = &F[i];
	int64_t until = f->deadline < now ? f->deadline : now;
	if(f->op && until > f->wait_start) { f->op->blocked += until - f->wait_start; }
	--f->c->waiters;
	f->rc = rc;
	f->st = F_MUTEX;
	f->m = f->remutex;
}
static void
signal_one(VCond *c)
{
	int w[MAXF], n = 0;
	for(int i = 0; i < nf; ++i) { if(F[i].st == F_COND && F[i].c == c) { w[n++] = i; } }
	if(!n) { vf_count("signals without a waiter"); return; }
	int i = w[rng_below(R, (uint64_t)n)];
	/* a waiter whose deadline has passed may consume the signal and still report the timeout */
	bool late = F[i].deadline <= now;
	wake(i, late && rng_pct(R, 50) ? ETIMEDOUT : 0);
	vf_count(late ? "signals consumed by a waiter timing out" : "signals delivered");
}
int
vf_pthread_cond_signal(pthread_cond_t *p)
{
	sync_point();
	signal_one(cond_of(p, "signal"));
	return 0;
}
int
vf_pthread_cond_broadcast(pthread_cond_t *p)
{
	sync_point();
	VCond *c = cond_of(p, "broadcast");
	while(c->waiters) { signal_one(c); }
	return 0;
}

/* ---- items ---- */
typedef struct { uint32_t magic; int id; int state; uint64_t payload; } Item;
enum { I_QUEUED = 1, I_POPPED, I_RELEASED };
static Item *items[128];
static int nitems;
static Item *
new_item(void)
{
	Item *it = xmalloc(sizeof *it);
	it->magic = 0x17e317e3;
	it->id = ++nitems;
	it->state = I_QUEUED;
	it->payload = vf_mix(77, (uint64_t)it->id);
	items[it->id] = it;
	return it;
}
static void
item_free(void *p)
{
	Item *it = p;
	VF_CHECK(MON_OWN | MON_CB, it != NULL, "release-null", "the free callback got NULL");
	VF_CHECK(MON_OWN | MON_CB, it->magic == 0x17e317e3, "release-garbage", "the free callback got something that was never pushed");
	VF_CHECK(MON_OWN, it->state != I_RELEASED, "double-release", "item %d is released twice", it->id);
	VF_CHECK(MON_OWN, it->state != I_POPPED, "release-delivered", "item %d is released although it was delivered", it->id);
	it->state = I_RELEASED;
	if(cur >= 0 && F[cur].op && F[cur].op->nrel < 40) { F[cur].op->rel[F[cur].op->nrel++] = it->id; }
	vf_count("items released");
	sync_point();
}
static int32_t item_cmp(const void *a, const void *b) { return (a > b) - (a < b); }

/* ---- pool: serialised use is the queue's business ---- */
static TrackPool tp;
static int in_pool = -1;
static void *(*tp_alloc0)(Pool *);
static void (*tp_free0)(Pool *, void *);
static void
enter_pool(void)
{
	VF_CHECK(MON_LOCK, in_pool < 0 || in_pool == cur, "pool-race", "two threads use the queue's pool at once");
	in_pool = cur;
	sync_point();
}
static void *
pool_alloc(Pool *p)
{
	enter_pool();
	void *r = tp_alloc0(p);
	sh_clear(r, tp.size);
	in_pool = -1;
	return r;
}
static void
pool_free(Pool *p, void *q)
{
	enter_pool();
	tp_free0(p, q);
	in_pool = -1;
}

/* ---- fibers ---- */
static void
no_lock_held(const Op *o)
{
	for(int i = 0; i < nm; ++i) { VF_CHECK(MON_LOCK | MON_BLOCK, mtx[i].owner != cur, "lock-kept", "%s returns holding the lock", opname[o->type]); }
}
static void
do_step(const Step *s)
{
	if(s->pause) { sleep_until(now + s->pause, false); }
	if(nops >= 63) { abandoned = true; F[cur].st = F_DONE; to_sched(); }
	Op *o = &ops[nops++];
	memset(o, 0, sizeof *o);
	o->type = s->type;
	o->fiber = cur;
	o->ms = s->ms;
	void *data = NULL;
	Item *it = NULL;
	if(s->type == OP_PUSH)
	{
		it = s->val ? new_item() : NULL;
		o->val = it ? it->id : 0;
	}
	F[cur].op = o;
	o->t_call = tick();
	o->call = ++ev;
	if(o->type == OP_TPOP && (int64_t)o->ms * MS <= SLACK) { o->notbefore = o->call; }
	switch(o->type)
	{
		case OP_PUSH: async_queue_push(Q, it); break;
		case OP_POP: data = (void *)&data; o->ok = async_queue_pop(Q, &data); break;
		case OP_TPOP: data = (void *)&data; o->ok = async_queue_pop_timeout(Q, &data, o->ms); break;
		case OP_COUNT: o->count = async_queue_count(Q); break;
		case OP_CLEAR: async_queue_clear(Q); break;
	}
	o->ret = ++ev;
	o->t_ret = now;
	o->done = true;
	F[cur].op = NULL;
	vf_op(opname[o->type], (int64_t)o->call << 8 | (uint64_t)cur, o->type == OP_PUSH ? o->val : o->type == OP_COUNT ? (int64_t)o->count : o->ok ? 1 : 0);
	no_lock_held(o);
	if(o->type == OP_POP) { VF_CHECK(MON_BLOCK | MON_LIN, o->ok, "pop-fails", "a pop without timeout returns without an item"); }
	if(o->ok && data)
	{
		Item *p = data;
		bool known = false;
		for(int i = 1; i <= nitems; ++i) { known |= items[i] == p; }
		VF_CHECK(MON_LIN | MON_OWN | MON_BLOCK, known, "invented", "a pop delivers something that was never pushed");
		VF_CHECK(MON_LIN | MON_OWN, p->state != I_POPPED, "delivered-twice", "item %d is delivered twice", p->id);
		VF_CHECK(MON_LIN | MON_OWN, p->state != I_RELEASED, "delivered-released", "item %d is delivered although it was released", p->id);
		VF_CHECK(MON_OWN | MON_LIN, p->payload == vf_mix(77, (uint64_t)p->id), "item-touched", "item %d was modified", p->id);
		p->state = I_POPPED;
		o->val = p->id;
	}
	if(o->type == OP_TPOP)
	{
		if(!o->ok)
		{
			VF_CHECK(MON_TIME, o->t_ret - o->t_call >= (int64_t)o->ms * MS - SLACK, "times-out-early", "a pop with a timeout of %u ms gives up after %ld us", o->ms, (long)((o->t_ret - o->t_call) / 1000));
			if(!o->notbefore) { o->notbefore = o->call; }
			vf_count("timed pops failing");
		}
		else { vf_count(o->blocked ? "timed pops succeeding after waiting" : "timed pops succeeding at once"); }
	}
}
static void
fiber_main(int id)
{
#ifdef VF_SAN_HEAP
	__sanitizer_finish_switch_fiber(NULL, &sched_bottom, &sched_size);
#endif
	Fiber *f = &F[id];
	while(f->at < f->nsteps) { do_step(&f->script[f->at++]); if(style != 1) { sync_point(); } }
	f->st = F_DONE;
	to_sched();
}
static char *stacks[MAXF];
static Fiber *
spawn(void)
{
	int i = 0;
	while(i < nf && F[i].st != F_DONE) { ++i; }
	if(i == MAXF) { fprintf(stderr, "harness: too many fibers\n"); _exit(77); }
	Fiber *f = &F[i];
	uint32_t vc[MAXF + 1];
	memcpy(vc, main_vc, sizeof vc);
	if(i < nf) { vc_join(vc, f->vc); }
	++vc[i];
	memset(f, 0, sizeof *f);
	if(!stacks[i]) { stacks[i] = xmalloc(STACK); }
	f->stack = stacks[i];
	getcontext(&f->ctx);
	f->ctx.uc_stack.ss_sp = f->stack;
	f->ctx.uc_stack.ss_size = STACK;
	f->ctx.uc_link = NULL;
#ifdef VF_SAN_HEAP
	__asan_unpoison_memory_region(f->stack, STACK);
#endif
	makecontext(&f->ctx, (void (*)(void))fiber_main, 1, i);
	f->st = F_READY;
	f->prio = (int)rng_below(R, 1000) + 1000;
	memcpy(f->vc, vc, sizeof f->vc);
	if(i == nf) { ++nf; }
	return f;
}
static void
resume(int i)
{
	Fiber *f = &F[i];
	if(f->st == F_MUTEX) { f->m->owner = i; f->m = NULL; f->st = F_READY; }
	cur = i;
	new_budget();
	if(style == 1) { budget = 1 + (long)rng_below(R, 2 * (uint64_t)(gap > 0 ? 40 * gap : 400)); }
	++switches;
#ifdef VF_SAN_HEAP
	__sanitizer_start_switch_fiber(&sched_fake, f->stack, STACK);
#endif
	swapcontext(&sched_ctx, &f->ctx);
#ifdef VF_SAN_HEAP
	__sanitizer_finish_switch_fiber(sched_fake, NULL, NULL);
#endif
	cur = -1;
	if(f->st == F_DONE) { vc_join(main_vc, f->vc); }
	if(style == 1 && f->st == F_READY) { f->prio = prio_next--; }
}
static bool
ready(int i)
{
	return F[i].st == F_READY || (F[i].st == F_MUTEX && F[i].m->owner < 0);
}
/* runs one fiber until it is done; the others keep still */
static void
run_alone(int i)
{
	while(F[i].st != F_DONE)
	{
		if(F[i].st == F_SLEEP) { advance_to(F[i].deadline); F[i].st = F_READY; }
		if(F[i].st == F_COND && F[i].deadline != NOW_INF) { advance_to(F[i].deadline); wake(i, ETIMEDOUT); }
		if(!ready(i))
		{
			VF_CHECK(MON_BLOCK | MON_LOCK, F[i].st != F_MUTEX, "deadlock", "%s cannot get the lock although nobody is running", opname[F[i].op->type]);
			VF_CHECK(MON_BLOCK, false, "blocked-alone", "%s blocks", opname[F[i].op->type]);
			return;
		}
		resume(i);
		if(abandoned) { return; }
		if(++steps > 3000000) { VF_CHECK(MON_BLOCK, false, "livelock", "%s does not finish", F[i].op ? opname[F[i].op->type] : "thread"); vf_fail("livelock", "%s does not finish", F[i].op ? opname[F[i].op->type] : "thread"); }
	}
}
static size_t
inspect(void)
{
	Fiber *f = spawn();
	f->script[0].type = OP_COUNT;
	f->nsteps = 1;
	int keep = style;
	style = 2;
	run_alone((int)(f - F));
	style = keep;
	size_t n = ops[nops - 1].count;
	--nops; /* not part of the history */
	return n;
}
static void
run_all(void)
{
	while(!abandoned)
	{
		int r[MAXF], n = 0;
		for(int i = 0; i < nf; ++i)
		{
			if(F[i].st == F_SLEEP && F[i].deadline <= now) { F[i].st = F_READY; }
			if(ready(i)) { r[n++] = i; }
		}
		if(++steps > 300000)
		{
			VF_CHECK(MON_BLOCK, false, "livelock", "the operations do not finish");
			vf_fail("livelock", "the operations do not finish");
		}
		/* time passes, waiters time out or wake without reason */
		if(n && jitter) { advance_to(now + (int64_t)rng_below(R, (uint64_t)jitter) * 1000); }
		int late[MAXF], nl = 0, wt[MAXF], nw = 0;
		int64_t first = NOW_INF;
		for(int i = 0; i < nf; ++i)
		{
			if(F[i].st == F_COND)
			{
				wt[nw++] = i;
				if(F[i].deadline <= now) { late[nl++] = i; }
			}
			if((F[i].st == F_COND || F[i].st == F_SLEEP) && F[i].deadline > now && F[i].deadline < first) { first = F[i].deadline; }
		}
		if(nl && (!n || rng_pct(R, 40))) { wake(late[rng_below(R, (uint64_t)nl)], ETIMEDOUT); vf_count("waits timing out"); continue; }
		if(nw && rng_below(R, 1000) < (uint64_t)p_spurious) { wake(wt[rng_below(R, (uint64_t)nw)], 0); vf_count("spurious wakeups"); continue; }
		if(n && first != NOW_INF && rng_below(R, 1000) < (uint64_t)p_jump) { int64_t t = first + 1000 * rng_range(R, -2, 2); advance_to(t); vf_count("time jumps"); continue; }
		if(n)
		{
			int pick = r[0];
			if(style == 1) { for(int k = 1; k < n; ++k) { if(F[r[k]].prio > F[pick].prio) { pick = r[k]; } } }
			else { pick = r[rng_below(R, (uint64_t)n)]; }
			resume(pick);
			continue;
		}
		/* nothing can run */
		int blocked = 0, untimed = 0, inlib = 0;
		for(int i = 0; i < nf; ++i)
		{
			VF_CHECK(MON_BLOCK, F[i].st != F_MUTEX, "deadlock", "%s waits for a lock that nobody will release", F[i].op ? opname[F[i].op->type] : "?");
			if(F[i].st == F_MUTEX) { vf_fail("deadlock", "%s waits for a lock that nobody will release", F[i].op ? opname[F[i].op->type] : "?"); }
			blocked += F[i].st == F_COND;
			untimed += F[i].st == F_COND && F[i].deadline == NOW_INF;
			inlib += F[i].st == F_SLEEP && F[i].inlib_sleep;
		}
		if(blocked && !inlib && nops < 60)
		{
			size_t items = inspect();
			vf_count("quiescent states checked");
			VF_CHECK(MON_BLOCK, items == 0, "lost-wakeup", "%d consumers stay blocked while %zu items are available", blocked, items);
			if(first != NOW_INF) { for(int i = 0; i < nf; ++i) { if(F[i].st == F_SLEEP && F[i].deadline < first) { first = F[i].deadline; } } }
		}
		if(first != NOW_INF) { advance_to(first + (rng_pct(R, 30) ? 1000 * (int64_t)rng_below(R, 3) : 0)); continue; }
		if(!untimed) { return; }
		if(nf == MAXF) { abandoned = true; break; }
		/* only pops without timeout are left: give them something */
		Fiber *f = spawn();
		f->nsteps = 1 + (int)rng_below(R, (uint64_t)(untimed < 6 ? untimed : 6));
		for(int i = 0; i < f->nsteps; ++i) { f->script[i] = (Step){ .type = OP_PUSH, .val = 1 }; }
		vf_count("blocked consumers released");
		}
}

/* ---- linearizability (Wing and Gong, with memory) ---- */
#define MEMO (1 << 16)
static uint64_t memo[MEMO];
static size_t memo_n;
static bool lin_gave_up, lin_strict;
static int qv[64];
static uint64_t lin_nodes;
static bool
seen(uint64_t h)
{
	if(!h) { h = 1; }
	size_t i = h & (MEMO - 1);
	while(memo[i] && memo[i] != h) { i = (i + 1) & (MEMO - 1); }
	if(memo[i]) { return true; }
	if(memo_n > MEMO / 2) { lin_gave_up = true; return true; }
	memo[i] = h;
	++memo_n;
	return false;
}
static bool
lin(uint64_t done, int *q, int qn)
{
	uint64_t all = nops == 64 ? ~0ULL : (1ULL << nops) - 1;
	if(done == all) { return true; }
	uint64_t h = vf_mix(done, 5);
	for(int i = 0; i < qn; ++i) { h = vf_mix(h, (uint64_t)q[i] + 1); }
	if(seen(h)) { return false; }
	++lin_nodes;
	uint64_t minret = UINT64_MAX;
	for(int i = 0; i < nops; ++i) { if(!(done >> i & 1) && ops[i].ret < minret) { minret = ops[i].ret; } }
	for(int i = 0; i < nops; ++i)
	{
		const Op *o = &ops[i];
		uint64_t start = lin_strict && o->type == OP_TPOP && !o->ok && o->notbefore > o->call ? o->notbefore : o->call;
		if((done >> i & 1) || start > minret) { continue; }
		int nq[64], n = 0;
		switch(o->type)
		{
			case OP_PUSH:
				memcpy(nq, q, sizeof(int) * (size_t)qn);
				nq[qn] = o->val;
				n = qn + 1;
				break;
			case OP_POP: case OP_TPOP:
				if(o->ok ? !qn || q[0] != o->val : qn != 0) { continue; }
				n = o->ok ? qn - 1 : 0;
				memcpy(nq, q + (o->ok ? 1 : 0), sizeof(int) * (size_t)n);
				break;
			case OP_COUNT:
				if(o->count != (size_t)qn) { continue; }
				memcpy(nq, q, sizeof(int) * (size_t)qn);
				n = qn;
				break;
			case OP_CLEAR:
				if(have_cb)
				{
					int k = 0;
					bool same = true;
					for(int j = 0; j < qn; ++j) { if(q[j]) { same = same && k < o->nrel; if(same) { bool in = false; for(int x = 0; x < o->nrel; ++x) { in |= o->rel[x] == q[j]; } same = in; } ++k; } }
					if(!same || k != o->nrel) { continue; }
				}
				n = 0;
				break;
		}
		if(lin(done | 1ULL << i, nq, n)) { return true; }
	}
	return false;
}
static bool
linearizable(bool strict)
{
	memset(memo, 0, sizeof memo);
	memo_n = 0;
	lin_gave_up = false;
	lin_strict = strict;
	return lin(0, qv, 0);
}
static void
describe(char *s, size_t n)
{
	size_t k = 0;
	for(int i = 0; i < nops && k + 80 < n; ++i)
	{
		const Op *o = &ops[i];
		k += (size_t)snprintf(s + k, n - k, "%sT%d:%s", i ? " " : "", o->fiber, opname[o->type]);
		if(o->type == OP_PUSH) { k += (size_t)snprintf(s + k, n - k, "(%d)", o->val); }
		else if(o->type == OP_COUNT) { k += (size_t)snprintf(s + k, n - k, "=%zu", o->count); }
		else if(o->type != OP_CLEAR) { if(o->type == OP_TPOP) { k += (size_t)snprintf(s + k, n - k, "(%ums)", o->ms); } if(o->ok) { k += (size_t)snprintf(s + k, n - k, "=%d", o->val); } else { k += (size_t)snprintf(s + k, n - k, "=none"); } }
		k += (size_t)snprintf(s + k, n - k, "[%lu,%lu]", (unsigned long)o->call, (unsigned long)o->ret);
	}
}

/* ---- cases ---- */
static uint32_t
gen_ms(Rng *rng)
{
	static const uint32_t v[] = { 0, 0, 1, 2, 5, 20, 250, 999, 1000, 1001, 1500, 1999, 60000, 2147483, 4294967, 2147483647U, 2147483648U, 4294967295U, 4294967000U };
	return rng_pct(rng, 60) ? v[rng_below(rng, 19)] : rng_pct(rng, 70) ? (uint32_t)rng_below(rng, 3000) : (uint32_t)rng_u64(rng);
}
void
run_case(const char *mode, uint64_t idx, Rng *rng)
{
	R = rng;
	nf = nops = nm = nc = nitems = 0;
	cur = in_pool = -1;
	ev = steps = switches = 0;
	++sh_gen;
	sh_used = 0;
	memset(main_vc, 0, sizeof main_vc);
	int64_t bytes0 = VF_GET(vf_live_bytes), blocks0 = VF_GET(vf_live_blocks);
	/* the time of day, now and then right before a second ends */
	static const int part[] = { 0, 1, 999, 998, 995, 980, 750, 500, 1 };
	int64_t usec = (int64_t)rng_below(rng, 1000000);
	if(rng_pct(rng, 40)) { usec = 1000000 - 1 - (int64_t)rng_below(rng, 2000); }
	else if(rng_pct(rng, 40)) { usec = 1000 * (rng_pct(rng, 70) ? part[rng_below(rng, 9)] : (int64_t)rng_below(rng, 1000)); } /* a timeout may end exactly with a second */
	now = ((int64_t)rng_range(rng, 1000000000, 5000000000LL) * 1000000 + usec) * 1000;
	mono_off = (int64_t)rng_range(rng, 100000000, 900000000) * 1000000000;
	style = (int)rng_below(rng, 3);
	static const int gaps[] = { 0, 1, 3, 8, 25, 80 };
	gap = gaps[rng_below(rng, 6)];
	jitter = rng_pct(rng, 50) ? 0 : 1 + (int)rng_below(rng, rng_pct(rng, 70) ? 20 : 3000);
	p_spurious = rng_pct(rng, 50) ? 0 : (int)rng_below(rng, 120);
	p_jump = rng_pct(rng, 40) ? 0 : (int)rng_below(rng, 80);
	prio_next = 999;
	int profile = (int)rng_below(rng, 7);
	bool nulls = rng_pct(rng, 8), pooled = rng_pct(rng, 40);
	have_cb = rng_pct(rng, 60);
	MemoryPool *mp = NULL;
	Pool *pool = NULL;
	if(pooled && rng_pct(rng, 60))
	{
		track_pool_init(&tp, sizeof(SListItem));
		tp_alloc0 = tp.pool.alloc;
		tp_free0 = tp.pool.free;
		tp.pool.alloc = pool_alloc;
		tp.pool.free = pool_free;
		pool = &tp.pool;
	}
	else if(pooled) { mp = memory_pool_new(sizeof(SListItem), 2 + rng_below(rng, 8)); pool = (Pool *)mp; }
	AsyncQueue stq;
	bool heap = rng_pct(rng, 50);
	if(heap) { Q = async_queue_new(item_cmp, have_cb ? item_free : NULL, pool); }
	else { memset(&stq, 0xa5, sizeof stq); Q = &stq; async_queue_init(Q, item_cmp, have_cb ? item_free : NULL, pool); }
	int n = 2 + (int)rng_below(rng, 5);
	int total = 8 + (int)rng_below(rng, 18), per = total / n + 1;
	vf_op("case", profile, n);
	for(int i = 0; i < n; ++i)
	{
		Fiber *f = spawn();
		f->nsteps = 1 + (int)rng_below(rng, (uint64_t)per);
		if(f->nsteps > 9) { f->nsteps = 9; }
		for(int k = 0; k < f->nsteps; ++k)
		{
			Step *s = &f->script[k];
			int x = (int)rng_below(rng, 100);
			memset(s, 0, sizeof *s);
			switch(profile)
			{
				case 0: s->type = x < 35 ? OP_PUSH : x < 55 ? OP_POP : x < 80 ? OP_TPOP : x < 92 ? OP_COUNT : OP_CLEAR; break;
				case 1: s->type = i == 0 ? OP_PUSH : OP_POP; break;                                     /* many consumers */
				case 2: s->type = i < n / 2 ? OP_PUSH : OP_TPOP; break;                               /* timed consumers */
				case 3: s->type = i == 0 ? OP_CLEAR : x < 50 ? OP_PUSH : x < 75 ? OP_POP : OP_TPOP; break;
				case 4: s->type = i < n / 2 ? OP_PUSH : x < 85 ? OP_POP : OP_COUNT; break;
				case 5: s->type = i == 0 ? OP_PUSH : (i & 1) ? OP_POP : OP_TPOP; break;              /* timed and untimed compete */
				case 6: s->type = x < 30 ? OP_PUSH : x < 95 ? OP_TPOP : OP_COUNT; break;
			}
			s->val = !(nulls && rng_pct(rng, 30));
			s->ms = gen_ms(rng);
			if(rng_pct(rng, profile == 2 || profile == 6 ? 50 : 20)) { s->pause = rng_pct(rng, 50) ? MS * (int64_t)rng_below(rng, 1500) : MS * (int64_t)s->ms + 1000 * (rng_range(rng, -3, 3)); }
			if(s->pause < 0) { s->pause = 0; }
			vf_op("step", i, s->type);
		}
	}
	abandoned = false;
	run_all();
	if(abandoned)
	{
		/* its threads stay where they are */
		vf_count("cases abandoned for their length");
		vf_case_done(false);
		return;
	}
	/* afterwards: the rest, one after the other */
	if(nops < 50 && rng_pct(rng, 70))
	{
		Fiber *f = spawn();
		f->script[f->nsteps++].type = OP_COUNT;
		int k = (int)rng_below(rng, 6);
		for(int i = 0; i < k; ++i) { f->script[f->nsteps++] = (Step){ .type = rng_pct(rng, 20) ? OP_PUSH : rng_pct(rng, 10) ? OP_CLEAR : OP_TPOP, .val = 1, .ms = rng_pct(rng, 50) ? 0 : (uint32_t)rng_below(rng, 3000) }; }
		f->script[f->nsteps++].type = OP_COUNT;
		run_alone((int)(f - F));
	}
	for(int i = 0; i < nops; ++i)
	{
		const Op *o = &ops[i];
		vf_count_add(opname[o->type], 1);
		vf_state(vf_mix(o->call, vf_mix(o->ret, (uint64_t)o->val << 8 | (uint64_t)o->fiber)));
	}
	if(vf_mon & (MON_LIN | MON_TIME | MON_BLOCK))
	{
		lin_nodes = 0;
		char text[900];
		bool basic = linearizable(false);
		if(lin_gave_up) { vf_count("histories too hard to decide"); }
		else
		{
			if(!basic) { describe(text, sizeof text); VF_CHECK(MON_LIN, false, "not-linearizable", "no sequential order explains: %s", text); }
			VF_CHECK(MON_LIN, basic, "not-linearizable", "no sequential order");
			vf_count("histories linearized");
			vf_count_max("most linearization steps", lin_nodes);
			if(basic && (vf_mon & MON_TIME))
			{
				bool strict = linearizable(true);
				if(!lin_gave_up)
				{
					if(!strict) { describe(text, sizeof text); VF_CHECK(MON_TIME, false, "misses-item", "a timed pop fails although an item was there when its time was up: %s", text); }
					VF_CHECK(MON_TIME, strict, "misses-item", "a timed pop fails although an item was there when its time was up");
				}
			}
		}
	}
	/* the end: what is left goes to the callback */
	int expect = 0, before = 0;
	for(int i = 1; i <= nitems; ++i) { expect += items[i]->state == I_QUEUED; before += items[i]->state == I_RELEASED; }
	if(heap) { async_queue_destroy(Q); } else { async_queue_free(Q); }
	for(int i = 0; i < nm; ++i) { VF_CHECK(MON_LOCK, mtx[i].destroyed, "lock-kept", "the mutex was not destroyed with the queue"); }
	for(int i = 0; i < nc; ++i) { VF_CHECK(MON_LOCK, cnd[i].destroyed, "cond-kept", "the condition was not destroyed with the queue"); }
	for(int i = 1; i <= nitems; ++i)
	{
		if(have_cb) { VF_CHECK(MON_OWN, items[i]->state != I_QUEUED, "lost-item", "item %d was neither delivered nor released", i); }
		VF_CHECK(MON_OWN, items[i]->payload == vf_mix(77, (uint64_t)i), "item-touched", "item %d was modified", i);
		free(items[i]);
	}
	if(expect) { vf_count_add("items left at the end", expect); }
	if(pool == &tp.pool && pooled && !mp)
	{
		VF_CHECK(MON_POOL | MON_OWN, !tp.live, "pool-leak", "%zu nodes not returned to the pool", tp.live);
		track_pool_fini(&tp);
	}
	if(mp) { memory_pool_destroy(mp); }
	VF_CHECK(MON_LEAK | MON_FOOT, VF_GET(vf_live_bytes) == bytes0 && VF_GET(vf_live_blocks) == blocks0, "leak", "library memory still allocated after free");
	vf_count_add("thread switches", switches);
	vf_count_add("accesses checked for races", race_checks);
	VF_ADD(vf_evals, race_checks && (vf_mon & MON_LOCK) ? race_checks : 0);
	race_checks = 0;
	if(vf_want_sample()) { char text[600]; describe(text, sizeof text); vf_sample("%s", text); }
	vf_case_done(nops > 1 && switches > 2);
}
