/* Core of the runtime monitors: random numbers, violation reports, coverage
 * counters, ownership ledger and the allocation hooks the library's object files
 * are linked against (objcopy renames malloc & co. to vf_*). */
#ifndef VF_H
#define VF_H

#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include "datatypes.h"

#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(memory_sanitizer)
#define VF_SAN_HEAP 1
#endif
#if __has_feature(memory_sanitizer)
#define VF_MSAN 1
#endif
#if __has_feature(thread_sanitizer)
#define VF_TSAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define VF_SAN_HEAP 1
#endif
#if defined(__SANITIZE_THREAD__)
#define VF_TSAN 1
#endif

/* relaxed: the monitors must not order the threads they watch */
#define VF_ADD(v, n) ((void)__atomic_fetch_add(&(v), (n), __ATOMIC_RELAXED))
#define VF_GET(v) __atomic_load_n(&(v), __ATOMIC_RELAXED)

/* ---- random numbers ---- */
typedef struct { uint64_t s; } Rng;
static inline uint64_t
rng_u64(Rng *r)
{
	uint64_t z = (r->s += 0x9e3779b97f4a7c15ULL);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}
static inline uint64_t rng_below(Rng *r, uint64_t n) { return n ? (rng_u64(r) >> 11) % n : 0; }
static inline int64_t rng_range(Rng *r, int64_t a, int64_t b) { return a + (int64_t)rng_below(r, (uint64_t)(b - a + 1)); }
static inline bool rng_pct(Rng *r, unsigned pct) { return rng_below(r, 100) < pct; }
static inline uint64_t
vf_mix(uint64_t a, uint64_t b)
{
	uint64_t z = a * 0x9e3779b97f4a7c15ULL + b + 0x632be59bd9b4e019ULL;
	z = (z ^ (z >> 29)) * 0xbf58476d1ce4e5b9ULL;
	return z ^ (z >> 32);
}

/* ---- monitors ---- */
enum {
	MON_FUNC = 1 << 0,  /* answers agree with the model */
	MON_ITER = 1 << 1,  /* iteration */
	MON_BAL = 1 << 2,   /* red-black structure and comparison bound */
	MON_GROW = 1 << 3,  /* hash table growth */
	MON_OWN = 1 << 4,   /* release ledger */
	MON_SORT = 1 << 5,  /* order */
	MON_COST = 1 << 6,  /* comparison bound of the assoc array */
	MON_PAIR = 1 << 7,  /* pairs */
	MON_LEAK = 1 << 8,  /* heap ledger balanced after destroy */
	MON_FOOT = 1 << 9,  /* memory bounded by peak population */
	MON_CB = 1 << 10,   /* callbacks get live objects only */
	MON_POOL = 1 << 11, /* node ledger of user-defined pools */
	MON_TIME = 1 << 12, /* timed pops */
	MON_LIN = 1 << 13,  /* linearizability */
	MON_BLOCK = 1 << 14,/* blocked consumers */
	MON_LOCK = 1 << 15, /* lock discipline */
	MON_LIMIT = 1 << 16,/* buffer limit */
	MON_DST = 1 << 17,  /* buffer output strings */
	MON_FD = 1 << 18,   /* buffer and file descriptors */
	MON_STEP = 1 << 19, /* steps taken */
	MON_NEST = 1 << 20, /* containers used by the callbacks of others */
	MON_QUIET = 1 << 21, /* nothing is printed */
};
extern uint32_t vf_mon;
extern uint64_t vf_evals;
extern bool vf_verbose, vf_thorough;
extern uint64_t vf_seed, vf_case;

void vf_fail(const char *key, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void vf_stuck(const char *key, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
#define VF_CHECK(mon, cond, key, ...) \
	do { \
		if(vf_mon & (mon)) \
		{ \
			VF_ADD(vf_evals, 1); \
			if(!(cond)) { vf_fail(key, __VA_ARGS__); } \
		} \
	} while(0)

/* ---- coverage ---- */
void vf_count_add(const char *name, uint64_t n);
void vf_count_max(const char *name, uint64_t n);
#define vf_count(name) vf_count_add(name, 1)
extern _Thread_local bool vf_may_report; /* the call fails and may say so on standard error */
void vf_op(const char *name, int64_t a, int64_t b); /* trace ring and case hash */
void vf_state(uint64_t h);                         /* contributes to the case hash */
void vf_case_done(bool nontrivial);
void vf_sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
bool vf_want_sample(void);

/* ---- harness memory (not tracked) ---- */
void *xmalloc(size_t n);
void *xcalloc(size_t n, size_t s);
void *xrealloc(void *p, size_t n);

/* ---- the library's heap ---- */
extern int64_t vf_live_blocks, vf_live_bytes, vf_lib_allocs;
extern int64_t vf_fail_at; /* fail the n-th library allocation from now on (0: never) */
extern bool vf_alloc_failed;
void *vf_malloc(size_t n);
void vf_moved(size_t n);
void vf_free(void *p);

/* ---- ownership ledger ---- */
enum { OBJ_KEY = 1, OBJ_VAL = 2, OBJ_DATA = 3 };
enum { ST_CALLER = 1, ST_STORED = 2, ST_RELEASED = 3 };
typedef struct Obj
{
	uint32_t magic;
	int32_t k;
	uint32_t id;
	uint8_t kind;
	uint8_t state;
	uint32_t extra;         /* places that hold it beyond the first: each one is dropped with one release, as with reference counts */
	uint32_t due;           /* releases the current operation has to do */
	uint64_t stamp;
	struct Obj *next, *prev; /* all live objects */
	size_t slen;
	char s[];
} Obj;
#define OBJ_MAGIC 0x0b1ec7edU
#define OBJ_DEAD 0xdeadbeefU
#define OBJ_OF_STR(p) ((Obj *)((char *)(p) - offsetof(Obj, s)))

Obj *obj_new(int kind, int32_t k, const char *s);
void obj_drop(Obj *o); /* the harness disposes of a caller-owned object */
void led_case_begin(void);
void led_case_end(void); /* disposes of everything left */
void led_op_begin(void);
void led_expect(Obj *o);
void led_op_end(const char *what);
void led_release(Obj *o, int kind); /* body of the free callbacks */
bool obj_live(const Obj *o);
extern uint64_t led_total_released;

/* tracking pool: every node is a heap block of its own, with a ledger */
typedef struct
{
	Pool pool;
	size_t size;
	size_t live, allocs, frees;
	void **tab; /* open addressing set of live nodes */
	size_t cap, used;
	const char *bad;
} TrackPool;
void track_pool_init(TrackPool *p, size_t size);
void track_pool_fini(TrackPool *p);
bool track_pool_has(const TrackPool *p, const void *ptr);

/* ---- cases ---- */
void run_case(const char *mode, uint64_t idx, Rng *rng);
/* is there that much to take? */
bool vf_memory(size_t resident, size_t address_space);
/* n bytes without \a special in front of the tail; what comes behind is inaccessible */
char *vf_far_bytes(size_t n, int special, char *tail, size_t ntail);
#endif
