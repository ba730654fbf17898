/* MemoryPool against the set of items in use. */
#include "vf.h"

#include <sys/prctl.h>

typedef struct { unsigned char *p; uint32_t fill; } Item;
typedef struct
{
	MemoryPool *mp;
	size_t size, block, align;
	Item *in;
	size_t n, cap, peak;
	size_t avail; /* released items nobody has got back yet */
	int64_t base;
	/* released addresses (open addressing) */
	void **rel;
	size_t relcap;
} Track;

static size_t
slot(void **tab, size_t cap, const void *p)
{
	size_t i = vf_mix(3, (uintptr_t)p) & (cap - 1);
	while(tab[i] && tab[i] != p) { i = (i + 1) & (cap - 1); }
	return i;
}
static void
rel_add(Track *P, void *p)
{
	if((P->avail + 1) * 2 > P->relcap)
	{
		void **o = P->rel;
		size_t oc = P->relcap;
		P->relcap = oc ? oc * 2 : 64;
		P->rel = xcalloc(P->relcap, sizeof(void *));
		for(size_t i = 0; i < oc; ++i) { if(o[i]) { P->rel[slot(P->rel, P->relcap, o[i])] = o[i]; } }
		free(o);
	}
	P->rel[slot(P->rel, P->relcap, p)] = p;
	++P->avail;
}
static bool
rel_take(Track *P, void *p)
{
	if(!P->relcap) { return false; }
	size_t i = slot(P->rel, P->relcap, p);
	if(!P->rel[i]) { return false; }
	P->rel[i] = NULL;
	--P->avail;
	for(size_t j = (i + 1) & (P->relcap - 1); P->rel[j]; j = (j + 1) & (P->relcap - 1))
	{
		void *q = P->rel[j];
		P->rel[j] = NULL;
		P->rel[slot(P->rel, P->relcap, q)] = q;
	}
	return true;
}
static void
fill(Item *it, size_t size, uint32_t seed)
{
	it->fill = seed;
	for(size_t i = 0; i < size; ++i) { it->p[i] = (unsigned char)(vf_mix(seed, i >> 3) >> (8 * (i & 7))); }
}
static void
verify(const Track *P, const Item *it, const char *when)
{
	for(size_t i = 0; i < P->size; ++i)
	{
		VF_CHECK(MON_FUNC, it->p[i] == (unsigned char)(vf_mix(it->fill, i >> 3) >> (8 * (i & 7))), "contents", "byte %zu of an item of %zu bytes changed (%s)", i, P->size, when);
	}
}
static int
by_addr(const void *a, const void *b)
{
	const unsigned char *x = ((const Item *)a)->p, *y = ((const Item *)b)->p;
	return x < y ? -1 : x > y;
}
static void
disjoint(const Track *P)
{
	if(!P->n) { return; }
	Item *s = xmalloc(P->n * sizeof *s);
	memcpy(s, P->in, P->n * sizeof *s);
	qsort(s, P->n, sizeof *s, by_addr);
	for(size_t i = 1; i < P->n; ++i)
	{
		VF_CHECK(MON_FUNC, (size_t)(s[i].p - s[i - 1].p) >= P->size, "overlap", "two items in use are %ld bytes apart, item size is %zu", (long)(s[i].p - s[i - 1].p), P->size);
	}
	free(s);
	vf_count("scans for overlaps");
}
static void
mem_check(const Track *P)
{
	/* whole blocks of items plus a pointer for each released item and some bookkeeping per block */
	int64_t used = VF_GET(vf_live_bytes) - P->base;
	int64_t bound = 2 * ((int64_t)(P->peak + P->block) * (int64_t)(P->size + 2 * sizeof(void *))) + 256 * (2 * (int64_t)(P->peak / P->block) + 4);
	VF_CHECK(MON_FOOT | MON_FUNC, used <= bound, "memory-growth", "pool holds %ld bytes for a peak of %zu items of %zu bytes (blocks of %zu)", (long)used, P->peak, P->size, P->block);
}
static void
op_alloc(Track *P, uint32_t seed)
{
	int64_t before = VF_GET(vf_lib_allocs);
	bool had = P->avail;
	unsigned char *p = ((Pool *)P->mp)->alloc((Pool *)P->mp);
	VF_CHECK(MON_FUNC, p != NULL, "null", "pool hands out NULL");
	if(P->n == P->cap) { P->cap = P->cap ? P->cap * 2 : 16; P->in = xrealloc(P->in, P->cap * sizeof *P->in); }
	VF_CHECK(MON_FUNC, (uintptr_t)p % P->align == 0, "alignment", "item at %p of %zu bytes should be aligned to %zu", (void *)p, P->size, P->align);
	bool recycled = rel_take(P, p);
	if(had)
	{
		/* an unused rest of a block may come first, but no new memory */
		VF_CHECK(MON_FUNC | MON_FOOT, VF_GET(vf_lib_allocs) == before, "no-recycling", "the pool takes memory although %zu released items are available", P->avail);
	}
	vf_count(recycled ? "items recycled" : "items taken from blocks");
	Item *it = &P->in[P->n++];
	it->p = p;
	fill(it, P->size, seed); /* writing all of it: too short an item is a sanitizer report or breaks a neighbour */
	if(P->n > P->peak) { P->peak = P->n; }
	mem_check(P);
}
static void
op_free(Track *P, size_t i)
{
	Item it = P->in[i];
	verify(P, &it, "at its release");
	P->in[i] = P->in[--P->n];
	memset(it.p, 0xee, P->size);
	((Pool *)P->mp)->free((Pool *)P->mp, it.p);
	rel_add(P, it.p);
	mem_check(P);
	vf_count("items released");
}

/* blocks larger than 31 or 32 bits can count, most of them never touched */
static int by_ptr(const void *a, const void *b) { uintptr_t x = *(const uintptr_t *)a, y = *(const uintptr_t *)b; return (x > y) - (x < y); }
static void
huge_case(uint64_t idx, Rng *rng)
{
	size_t block = idx % 2 ? 40 : 5000, size = idx % 2 ? ((size_t)1 << (idx % 4 == 1 ? 27 : 28)) + 16 * rng_below(rng, 1000) : ((size_t)1 << 20) + 16 * rng_below(rng, 1000), n = block + 10 + rng_below(rng, block / 2);
	int64_t blocks0 = VF_GET(vf_live_blocks), bytes0 = VF_GET(vf_live_bytes);
	if(!vf_memory((size_t)1 << 30, 3 * block * size)) { vf_case_done(false); return; }
	prctl(PR_SET_THP_DISABLE, 1, 0, 0, 0);
	vf_op("huge", (int64_t)size, (int64_t)block);
	MemoryPool *mp = memory_pool_new(size, block);
	Pool *p = (Pool *)mp;
	unsigned char **in = xmalloc(n * sizeof *in);
	int64_t peak = 0;
	for(int round = 0; round < 2; ++round)
	{
		for(size_t i = 0; i < n; ++i)
		{
			in[i] = p->alloc(p);
			VF_CHECK(MON_FUNC, in[i] && ((uintptr_t)in[i] & 15) == 0, "align", "item of %zu bytes at %p", size, (void *)in[i]);
			/* its ends and its middle; the rest stays untouched */
			memset(in[i], (int)(i % 251 + 1), 16);
			memset(in[i] + size / 2, (int)(i % 251 + 1), 16);
			memset(in[i] + size - 16, (int)(i % 251 + 1), 16);
		}
		for(size_t i = 0; i < n; ++i)
		{
			for(int k = 0; k < 16; ++k) { VF_CHECK(MON_FUNC, in[i][k] == i % 251 + 1 && in[i][size / 2 + k] == i % 251 + 1 && in[i][size - 16 + k] == i % 251 + 1, "changed", "item %zu of %zu bytes changed", i, size); }
		}
		qsort(in, n, sizeof *in, by_ptr);
		for(size_t i = 1; i < n; ++i) { VF_CHECK(MON_FUNC, in[i] >= in[i - 1] + size, "overlap", "items of %zu bytes at %p and %p", size, (void *)in[i - 1], (void *)in[i]); }
		int64_t now = VF_GET(vf_live_bytes) - bytes0;
		if(!round) { peak = now; }
		VF_CHECK(MON_FUNC | MON_FOOT, now <= peak + 65536, "memory-growth", "pool holds %ld bytes, %ld the first time", (long)now, (long)peak);
		for(size_t i = n; i > 1; --i) { size_t j = rng_below(rng, i); unsigned char *t = in[j]; in[j] = in[i - 1]; in[i - 1] = t; }
		if(!round) { for(size_t i = 0; i < n; ++i) { p->free(p, in[i]); } }
	}
	memory_pool_destroy(mp);
	free(in);
	VF_CHECK(MON_LEAK | MON_FUNC, VF_GET(vf_live_blocks) == blocks0 && VF_GET(vf_live_bytes) == bytes0, "leak", "memory still allocated after destroying the pool");
	vf_count("blocks of more than 2^32 bytes");
	if(vf_want_sample()) { vf_sample("%zu items of %zu bytes in blocks of %zu", n, size, block); }
	vf_case_done(true);
}
/* no size is special: each item size, each block size, each number of items */
static void
sweep_case(const char *mode, uint64_t idx, Rng *rng)
{
	int64_t blocks0 = VF_GET(vf_live_blocks), bytes0 = VF_GET(vf_live_bytes);
	uint32_t seed = 1;
	size_t rounds = 0;
	int kind = idx % 4;
	size_t from = kind == 0 ? 2 + idx / 4 % 4 * 150 : 2, to = kind == 0 ? from + 150 : kind == 1 ? 700 : kind == 2 ? 600 : 4;
	vf_op("sweep", from, to);
	for(size_t v = from; v < to; ++v)
	{
		/* 0: item size; 1: block size; 2: number of items; 3: one pool, up and down through every number */
		Track P = { 0 };
		P.size = kind == 0 ? v : 2 + rng_below(rng, 40);
		P.block = kind == 1 ? v : kind == 0 ? 2 + rng_below(rng, 5) : 2 + rng_below(rng, 80);
		P.align = P.size & -P.size;
		if(P.align > 16) { P.align = 16; }
		P.base = VF_GET(vf_live_bytes);
		P.mp = memory_pool_new(P.size, P.block);
		size_t n = kind == 2 ? v : kind == 3 ? 1100 : 2 * P.block;
		for(int r = 0; r < 3; ++r)
		{
			/* the blocks are exactly full at first */
			if(r && kind < 2) { n += 2; }
			while(P.n < n)
			{
				op_alloc(&P, seed++);
				if(kind == 3) { if(P.n % 16 == 0) { disjoint(&P); } op_free(&P, P.n - 1); op_alloc(&P, seed++); if(P.n > 1) { op_free(&P, rng_below(rng, P.n)); op_alloc(&P, seed++); } }
			}
			disjoint(&P);
			size_t keep = r == 2 ? n : rng_below(rng, 2) ? 0 : rng_below(rng, n);
			int order = rng_below(rng, 3);
			while(P.n > keep) { op_free(&P, order == 0 ? 0 : order == 1 ? P.n - 1 : rng_below(rng, P.n)); }
		}
		for(size_t k = 0; k < P.n; ++k) { verify(&P, &P.in[k], "at the end"); }
		memory_pool_destroy(P.mp);
		free(P.in);
		free(P.rel);
		VF_CHECK(MON_LEAK | MON_FUNC, VF_GET(vf_live_blocks) == blocks0 && VF_GET(vf_live_bytes) == bytes0, "leak", "%ld blocks still allocated after destroying the pool", (long)(VF_GET(vf_live_blocks) - blocks0));
		vf_count_max("most items in use", P.peak);
		++rounds;
	}
	vf_count_add(kind == 0 ? "item sizes swept" : kind == 1 ? "block sizes swept" : "numbers of items swept", kind == 3 ? 1100 : rounds);
	if(vf_want_sample()) { vf_sample("%s: kind %d from %zu to %zu", mode, kind, from, to - 1); }
	vf_op("end", seed, rounds);
	vf_case_done(true);
}
void
run_case(const char *mode, uint64_t idx, Rng *rng)
{
	if(strstr(mode, "-huge")) { huge_case(idx, rng); return; }
	if(strstr(mode, "-sweep")) { sweep_case(mode, idx, rng); return; }
	static const size_t sizes[] = { 2, 3, 4, 5, 6, 7, 8, 12, 16, 20, 24, 32, 40, 48, 56, 64, 100, 128, 1000 };
	bool big = strstr(mode, "-big"), memm = strstr(mode, "-mem");
	int64_t blocks0 = VF_GET(vf_live_blocks), bytes0 = VF_GET(vf_live_bytes);
	Track P[2];
	int np = big ? 1 : 1 + rng_pct(rng, 30);
	memset(P, 0, sizeof P);
	for(int i = 0; i < np; ++i)
	{
		P[i].size = rng_pct(rng, 75) ? sizes[rng_below(rng, 19)] : 2 + rng_below(rng, 300);
		P[i].block = rng_pct(rng, 60) ? 2 + rng_below(rng, 6) : 2 + rng_below(rng, big ? 5000 : 200);
		if(big && idx % 4 == 3) { P[i].block = 65530 + rng_below(rng, 3000); P[i].size = 2 + P[i].size % 30; }
		if(big && idx % 8 == 6) { P[i].size = 60000 + rng_below(rng, 20000); P[i].block = 2 + P[i].block % 5; }
		P[i].align = P[i].size & -P[i].size;
		if(P[i].align > 16) { P[i].align = 16; }
		int64_t b = VF_GET(vf_live_bytes);
		P[i].mp = memory_pool_new(P[i].size, P[i].block);
		P[i].base = b;
	}
	/* with two pools the other one's memory is in the way of the accounting */
	bool account = np == 1;
	if(!account) { for(int i = 0; i < np; ++i) { P[i].base = INT64_MAX / 2; } }
	int nops = big ? (P[0].size > 50000 ? 600 : P[0].block > 65000 ? 400000 : vf_thorough ? 400000 : 40000) : memm ? (vf_thorough ? 100000 : 20000) : 30 + rng_below(rng, vf_thorough ? 3000 : 800);
	size_t limit = big ? (size_t)nops : memm ? 1 + rng_below(rng, 100) : 1 + rng_below(rng, 400);
	int bias = 30 + rng_below(rng, 45);
	uint32_t seed = 1;
	vf_op("pool", P[0].size, P[0].block);
	for(int o = 0; o < nops; ++o)
	{
		Track *q = &P[rng_below(rng, np)];
		if(rng_pct(rng, 1)) { bias = big ? 60 + rng_below(rng, 40) : 20 + rng_below(rng, 65); }
		if(big ? o == nops / 2 || o == nops - 1 : rng_below(rng, 400) == 0)
		{
			/* drain, then fill again: everything is recycled */
			size_t n = q->n;
			int order = rng_below(rng, 3);
			vf_op("drain", n, order);
			while(q->n) { op_free(q, order == 0 ? 0 : order == 1 ? q->n - 1 : rng_below(rng, q->n)); }
			for(size_t i = 0; i < n; ++i) { op_alloc(q, seed++); }
			vf_count("drains");
			continue;
		}
		if(q->n == 0 || (q->n < limit && rng_pct(rng, bias))) { vf_op("alloc", q->n, q->avail); op_alloc(q, seed++); }
		else
		{
			size_t i = rng_pct(rng, 30) ? q->n - 1 : rng_below(rng, q->n);
			vf_op("free", i, q->n);
			op_free(q, i);
		}
		if(q->n && rng_pct(rng, 10)) { verify(q, &q->in[rng_below(rng, q->n)], "while in use"); }
		if(rng_below(rng, big ? 9000 : 150) == 0) { disjoint(q); }
	}
	vf_count_add("operations", nops);
	for(int i = 0; i < np; ++i)
	{
		disjoint(&P[i]);
		for(size_t k = 0; k < P[i].n; ++k) { verify(&P[i], &P[i].in[k], "at the end"); }
		vf_count_max("most items in use", P[i].peak);
		memory_pool_destroy(P[i].mp);
		free(P[i].in);
		free(P[i].rel);
	}
	VF_CHECK(MON_LEAK | MON_FUNC, VF_GET(vf_live_blocks) == blocks0 && VF_GET(vf_live_bytes) == bytes0, "leak", "%ld blocks still allocated after destroying the pool", (long)(VF_GET(vf_live_blocks) - blocks0));
	if(vf_want_sample()) { vf_sample("%s: item size %zu, block size %zu, %d operations, peak %zu", mode, P[0].size, P[0].block, nops, P[0].peak); }
	vf_case_done(P[0].peak > 0);
}
