/* Lists, stacks and queues against an abstract sequence. */
#include "vf.h"

enum { L, S, STK, Q };

static int g_mag;
static int32_t
cmp(const void *a, const void *b)
{
	const Obj *x = a, *y = b;
	/* NULL data is legal and sorts first */
	if(!x || !y) { return (x != NULL) - (y != NULL); }
	VF_CHECK(MON_CB, obj_live(x) && obj_live(y), "cb-dead-data", "compare callback got data that has been released");
	int s = (x->k > y->k) - (x->k < y->k);
	switch(g_mag)
	{
		case 0: return s;
		case 1: return s < 0 ? INT32_MIN : s ? INT32_MAX : 0;
		case 2: return s * 65536;
		default: return s * (int32_t)(1 + (vf_mix(x->k, y->k) & 0xffff));
	}
}
static void
fr(void *p)
{
	VF_CHECK(MON_OWN, p != NULL, "own-null-data", "free callback got NULL");
	led_release(p, OBJ_DATA);
}

typedef struct { void *item; Obj *o; } El;
typedef struct
{
	int type;
	bool heap, fr;
	List sl, *l;
	SList ss, *s;
	Pool *pool;
	El *e;
	size_t n, cap, peak;
	Obj *probe[64];
	int nk;
} Seq;

static void
open_seq(Seq *q, int type, Rng *rng, Pool *pool)
{
	memset(q, 0, sizeof *q);
	q->type = type;
	q->heap = rng_u64(rng) & 1;
	q->fr = rng_pct(rng, 65);
	q->pool = pool;
	q->nk = 1 + rng_below(rng, rng_below(rng, 2) ? 4 : 60);
	for(int i = 0; i < q->nk; ++i) { q->probe[i] = obj_new(OBJ_DATA, i - q->nk / 2, NULL); }
	memset(&q->sl, 0xa5, sizeof q->sl);
	memset(&q->ss, 0xa5, sizeof q->ss);
	FreeFunc f = q->fr ? fr : NULL;
	switch(type)
	{
		case L: if(q->heap) { q->l = list_new(cmp, f, pool); } else { q->l = &q->sl; list_init(q->l, cmp, f, pool); } break;
		case S: if(q->heap) { q->s = slist_new(cmp, f, pool); } else { q->s = &q->ss; slist_init(q->s, cmp, f, pool); } break;
		case STK: if(q->heap) { q->s = stack_new(cmp, f, pool); } else { q->s = &q->ss; stack_init(q->s, cmp, f, pool); } break;
		default: if(q->heap) { q->s = queue_new(cmp, f, pool); } else { q->s = &q->ss; queue_init(q->s, cmp, f, pool); } break;
	}
}
static void
m_insert(Seq *q, size_t at, void *item, Obj *o)
{
	if(q->n == q->cap) { q->cap = q->cap ? q->cap * 2 : 16; q->e = xrealloc(q->e, q->cap * sizeof *q->e); }
	memmove(q->e + at + 1, q->e + at, (q->n - at) * sizeof *q->e);
	q->e[at] = (El) { item, o };
	if(++q->n > q->peak) { q->peak = q->n; }
}
static void
m_delete(Seq *q, size_t at)
{
	memmove(q->e + at, q->e + at + 1, (q->n - at - 1) * sizeof *q->e);
	--q->n;
}
static Obj *
new_data(Seq *q, Rng *rng)
{
	if(rng_pct(rng, 8)) { return NULL; }
	if(q->n && rng_pct(rng, q->fr ? 5 : 15))
	{
		/* the same pointer again; a free callback then counts references */
		Obj *o = q->e[rng_below(rng, q->n)].o;
		if(o && q->fr) { ++o->extra; }
		return o;
	}
	Obj *o = obj_new(OBJ_DATA, q->probe[rng_below(rng, q->nk)]->k, NULL);
	o->state = ST_STORED;
	return o;
}
/* the container gives the pointer back to the caller */
static void
handed_over(Seq *q, Obj *o)
{
	if(o)
	{
		VF_CHECK(MON_OWN, o->magic == OBJ_MAGIC && o->state == ST_STORED, "own-handed-over-dead", "data handed to the caller has already been released");
		if(q->fr && o->extra) { --o->extra; }
		else if(q->fr) { o->state = ST_CALLER; obj_drop(o); }
	}
}
static size_t m_count(Seq *q)
{
	return q->type == L ? list_count(q->l) : q->type == S ? slist_count(q->s) : q->type == STK ? stack_count(q->s) : queue_count(q->s);
}

static void
audit(Seq *q)
{
	size_t c = m_count(q);
	VF_CHECK(MON_FUNC | MON_SORT, c == q->n, "count", "count is %zu, should be %zu", c, q->n);
	if(q->type == L)
	{
		VF_CHECK(MON_FUNC, list_empty(q->l) == !q->n, "empty", "list of %zu items: empty() answers %d", q->n, list_empty(q->l));
		VF_CHECK(MON_FUNC | MON_SORT, list_head(q->l) == (q->n ? q->e[0].item : NULL), "head", "wrong head");
		VF_CHECK(MON_FUNC | MON_SORT, list_tail(q->l) == (q->n ? q->e[q->n - 1].item : NULL), "tail", "wrong tail");
		ListItem *it = list_head(q->l), *prev = NULL;
		for(size_t i = 0; i < q->n; ++i)
		{
			VF_CHECK(MON_FUNC | MON_SORT, it == q->e[i].item, "forward", "item %zu of %zu is not the expected one (forwards)", i, q->n);
			if(!it || it != q->e[i].item) { return; }
			VF_CHECK(MON_FUNC | MON_SORT, list_item_prev(it) == prev, "backward-link", "item %zu of %zu: wrong predecessor", i, q->n);
			VF_CHECK(MON_FUNC | MON_SORT, list_item_get_data(it) == (void *)q->e[i].o, "data", "item %zu holds the wrong data", i);
			prev = it;
			it = list_item_next(it);
		}
		VF_CHECK(MON_FUNC | MON_SORT, !it, "forward-end", "list continues behind its last item");
		it = list_tail(q->l);
		for(size_t i = q->n; i > 0; --i)
		{
			VF_CHECK(MON_FUNC | MON_SORT, it == q->e[i - 1].item, "backward", "item %zu of %zu is not the expected one (backwards)", i - 1, q->n);
			if(it != q->e[i - 1].item) { return; }
			it = list_item_prev(it);
		}
		VF_CHECK(MON_FUNC | MON_SORT, !it, "backward-end", "list continues before its first item");
	}
	else if(q->type == S)
	{
		VF_CHECK(MON_FUNC, slist_empty(q->s) == !q->n, "empty", "list of %zu items: empty() answers %d", q->n, slist_empty(q->s));
		VF_CHECK(MON_FUNC | MON_SORT, slist_head(q->s) == (q->n ? q->e[0].item : NULL), "head", "wrong head");
		SListItem *it = slist_head(q->s);
		for(size_t i = 0; i < q->n; ++i)
		{
			VF_CHECK(MON_FUNC | MON_SORT, it == q->e[i].item, "forward", "item %zu of %zu is not the expected one", i, q->n);
			if(!it || it != q->e[i].item) { return; }
			VF_CHECK(MON_FUNC | MON_SORT, slist_item_get_data(it) == (void *)q->e[i].o, "data", "item %zu holds the wrong data", i);
			it = slist_item_next(it);
		}
		VF_CHECK(MON_FUNC | MON_SORT, !it, "forward-end", "list continues behind its last item");
#ifndef VF_OPAQUE
		if(q->n) { VF_CHECK(MON_FUNC | MON_SORT, q->s->tail == q->e[q->n - 1].item, "tail", "wrong tail"); }
#endif
	}
	else
	{
		void *d = (void *)q;
		bool ok = q->type == STK ? stack_head(q->s, &d) : queue_head(q->s, &d);
		VF_CHECK(MON_FUNC, ok == (q->n > 0), "peek", "peek at %zu items answers %d", q->n, ok);
		if(ok && q->n) { VF_CHECK(MON_FUNC, d == (void *)q->e[0].o, "peek-data", "peek shows the wrong item"); }
	}
	vf_count("audits");
}
static bool
matches(const Obj *a, const Obj *b) { return a && b ? a->k == b->k : a == b; }

static void
find_at(Seq *q, Obj *p, size_t at)
{
	size_t from = at == SIZE_MAX ? 0 : at, first = SIZE_MAX;
	bool any = false;
	for(size_t i = 0; i < q->n; ++i)
	{
		if(matches(q->e[i].o, p)) { any = true; if(i >= from && first == SIZE_MAX) { first = i; } }
	}
	vf_op("find", p ? p->k : -9999, (int64_t)at);
	void *off = at == SIZE_MAX ? NULL : q->e[at].item;
	if(q->type == L)
	{
		ListItem *f = list_find(q->l, off, p);
		VF_CHECK(MON_FUNC, (f != NULL) == (first != SIZE_MAX), "find", "find from position %zu of %zu: %s, first match is at %zd", from, q->n, f ? "found" : "not found", (ssize_t)first);
		if(f)
		{
			bool ok = false;
			for(size_t i = from; i < q->n; ++i) { if(q->e[i].item == f) { ok = matches(q->e[i].o, p); } }
			VF_CHECK(MON_FUNC, ok, "find-wrong", "find from position %zu returns an item that does not match or lies before it", from);
		}
		VF_CHECK(MON_FUNC, list_contains(q->l, p) == any, "contains", "contains answers %d", !any);
	}
	else
	{
		SListItem *f = slist_find(q->s, off, p);
		VF_CHECK(MON_FUNC, f == (first == SIZE_MAX ? NULL : q->e[first].item), "find", "find from position %zu of %zu does not return the first match (%zd)", from, q->n, (ssize_t)first);
		VF_CHECK(MON_FUNC, slist_contains(q->s, p) == any, "contains", "contains answers %d", !any);
	}
	vf_count(first == SIZE_MAX ? "searches without match" : "searches with match");
}
static void
op_find(Seq *q, Rng *rng)
{
	Obj *p = rng_pct(rng, 8) ? NULL : q->probe[rng_below(rng, q->nk)];
	find_at(q, p, q->n && rng_pct(rng, 70) ? rng_below(rng, q->n) : SIZE_MAX);
}
static void
op_push(Seq *q, Rng *rng, bool front)
{
	Obj *o = new_data(q, rng);
	vf_op(front ? "prepend" : "append", o ? o->k : -9999, q->n);
	led_op_begin();
	void *item;
	switch(q->type)
	{
		case L: item = front ? list_prepend(q->l, o) : list_append(q->l, o); break;
		case S: item = front ? slist_prepend(q->s, o) : slist_append(q->s, o); break;
		case STK: item = stack_push(q->s, o); front = true; break;
		default: item = queue_push(q->s, o); front = false; break;
	}
	led_op_end("insertion");
	VF_CHECK(MON_FUNC, item != NULL, "push-null", "insertion returns NULL");
	m_insert(q, front ? 0 : q->n, item, o);
	vf_count("insertions");
}
static bool
sorted(Seq *q)
{
	for(size_t i = 1; i < q->n; ++i) { if(cmp(q->e[i - 1].o, q->e[i].o) > 0) { return false; } }
	return true;
}
static void
op_sorted(Seq *q, Rng *rng)
{
	if(!sorted(q)) { return; }
	Obj *o = new_data(q, rng);
	vf_op("insert-sorted", o ? o->k : -9999, q->n);
	led_op_begin();
	void *item = q->type == L ? (void *)list_insert_sorted(q->l, o) : (void *)slist_insert_sorted(q->s, o);
	led_op_end("insertion");
	VF_CHECK(MON_SORT | MON_FUNC, item != NULL, "push-null", "sorted insertion returns NULL");
	/* any place among equal elements is right: take it from the list */
	size_t at = 0;
	if(q->type == L) { for(ListItem *it = list_head(q->l); it && it != item && at <= q->n; it = list_item_next(it)) { ++at; } }
	else { for(SListItem *it = slist_head(q->s); it && it != item && at <= q->n; it = slist_item_next(it)) { ++at; } }
	VF_CHECK(MON_SORT | MON_FUNC, at <= q->n, "sorted-lost", "the new element is not in the list");
	if(at > q->n) { at = q->n; }
	m_insert(q, at, item, o);
	for(size_t i = 1; i < q->n; ++i) { VF_CHECK(MON_SORT, cmp(q->e[i - 1].o, q->e[i].o) <= 0, "sorted-order", "not sorted after the insertion: position %zu of %zu", i, q->n); }
	vf_count("sorted insertions");
}
static void
op_pop(Seq *q, Rng *rng)
{
	Obj *want = q->n ? q->e[0].o : NULL;
	void *d = NULL;
	vf_op("pop", want ? want->k : -9999, q->n);
	led_op_begin();
	if(q->type == L || q->type == S)
	{
		d = q->type == L ? list_pop(q->l) : slist_pop(q->s);
		VF_CHECK(MON_FUNC, d == (void *)want, "pop-data", "pop returns the wrong data");
	}
	else
	{
		bool ok = q->type == STK ? stack_pop(q->s, &d) : queue_pop(q->s, &d);
		VF_CHECK(MON_FUNC, ok == (q->n > 0), "pop", "pop of %zu items answers %d", q->n, ok);
		if(ok) { VF_CHECK(MON_FUNC, d == (void *)want, "pop-data", "pop returns the wrong data"); }
	}
	led_op_end("pop");
	if(q->n)
	{
		m_delete(q, 0);
		handed_over(q, want);
		vf_count("pops");
	}
	else { vf_count("pops of an empty container"); }
}
static void
drop(Seq *q, size_t at)
{
	if(q->fr && q->e[at].o) { led_expect(q->e[at].o); }
	m_delete(q, at);
}
static void
remove_at(Seq *q, size_t at)
{
	void *item = q->e[at].item;
	vf_op("remove", at, q->n);
	led_op_begin();
	drop(q, at);
	if(q->type == L) { list_remove(q->l, item); } else { slist_remove(q->s, item); }
	led_op_end("remove");
	vf_count("removals by item");
}
static void
remove_data(Seq *q, Obj *p, bool all)
{
	vf_op(all ? "remove-all-by-data" : "remove-by-data", p ? p->k : -9999, q->n);
	led_op_begin();
	size_t n = 0;
	Obj key = { .magic = OBJ_MAGIC, .state = ST_CALLER, .k = p ? p->k : 0 };
	const Obj *pk = p ? &key : NULL;
	for(size_t i = 0; i < q->n && (all || !n); )
	{
		if(matches(q->e[i].o, pk)) { drop(q, i); ++n; } else { ++i; }
	}
	if(q->type == L) { list_remove_by_data(q->l, p, all); } else { slist_remove_by_data(q->s, p, all); }
	led_op_end("remove_by_data");
	vf_count_add("items removed by data", n);
}
static void
op_remove(Seq *q, Rng *rng)
{
	if(!q->n) { return; }
	remove_at(q, rng_pct(rng, 25) ? 0 : rng_pct(rng, 30) ? q->n - 1 : rng_below(rng, q->n));
}
static void
op_remove_data(Seq *q, Rng *rng)
{
	bool all = rng_u64(rng) & 1;
	Obj *p = rng_pct(rng, 8) ? NULL : q->probe[rng_below(rng, q->nk)];
	if(!all && q->n && rng_pct(rng, 15)) { p = q->e[rng_below(rng, q->n)].o; }
	remove_data(q, p, all);
}
static void
op_clear(Seq *q, Rng *rng, TrackPool *tp)
{
	for(int t = rng_pct(rng, 20) ? 3 : 1; t; --t)
	{
		vf_op("clear", q->n, 0);
		size_t n = q->n, before = tp ? tp->live : 0;
		led_op_begin();
		while(q->n) { drop(q, q->n - 1); }
		switch(q->type) { case L: list_clear(q->l); break; case S: slist_clear(q->s); break; case STK: stack_clear(q->s); break; default: queue_clear(q->s); break; }
		led_op_end("clear");
		if(tp) { VF_CHECK(MON_POOL, tp->live + n <= before, "pool-clear", "clear returned %zu of %zu nodes to the pool", before - tp->live, n); }
		audit(q);
		vf_count("clears");
	}
}
static void
op_data(Seq *q, Rng *rng)
{
	if(!q->n) { return; }
	size_t at = rng_below(rng, q->n);
	Obj *old = q->e[at].o;
	if(!q->fr || (rng_u64(rng) & 1))
	{
		Obj *o = new_data(q, rng);
		vf_op("set-data", at, o ? o->k : -9999);
		led_op_begin();
		if(q->type == L) { ListItem *i = q->e[at].item; list_item_set_data(i, o); } else { SListItem *i = q->e[at].item; slist_item_set_data(i, o); }
		led_op_end("set_data");
		q->e[at].o = o;
		handed_over(q, old);
		vf_count("data replacements");
	}
	else
	{
		vf_op("free-data", at, old ? old->k : -9999);
		led_op_begin();
		if(old) { led_expect(old); }
		if(q->type == L) { list_item_free_data(q->l, q->e[at].item); } else { slist_item_free_data(q->s, q->e[at].item); }
		led_op_end("item_free_data");
		q->e[at].o = NULL;
		vf_count("explicit releases");
	}
}
static void
close_seq(Seq *q, TrackPool *tp)
{
	size_t before = tp ? tp->live : 0, n = q->n;
	vf_op("close", q->n, 0);
	led_op_begin();
	while(q->n) { drop(q, q->n - 1); }
	switch(q->type)
	{
		case L: if(q->heap) { list_destroy(q->l); } else { list_free(q->l); } break;
		case S: if(q->heap) { slist_destroy(q->s); } else { slist_free(q->s); } break;
		case STK: if(q->heap) { stack_destroy(q->s); } else { stack_free(q->s); } break;
		default: if(q->heap) { queue_destroy(q->s); } else { queue_free(q->s); } break;
	}
	led_op_end("free");
	if(tp) { VF_CHECK(MON_POOL, tp->live + n <= before, "pool-close", "free returned %zu of %zu nodes to the pool", before - tp->live, n); }
	free(q->e);
}

static void
rand_case(const char *mode, int type, Rng *rng)
{
	bool sort = strstr(mode, "-sort"), clearheavy = strstr(mode, "-clear");
	int64_t blocks0 = VF_GET(vf_live_blocks), bytes0 = VF_GET(vf_live_bytes);
	led_case_begin();
	g_mag = rng_below(rng, 4);
	int ni = 1 + (rng_pct(rng, 40) ? 1 + rng_below(rng, 2) : 0);
	bool mid = rng_below(rng, 250) == 0; /* hundreds to thousands of items at any time */
	if(mid) { ni = 1; vf_count("histories with thousands of items"); }
	size_t want = mid ? 200 + rng_below(rng, sort ? 800 : 3000) : 0;
	Seq q[3];
	TrackPool tp;
	MemoryPool *mp = NULL;
	int pm = rng_below(rng, 3);
	size_t isz = sizeof(ListItem) + 8 * rng_below(rng, 3);
	Pool *pool = NULL;
	if(pm == 1) { mp = memory_pool_new(isz, 2 + rng_below(rng, 100)); pool = (Pool *)mp; }
	if(pm == 2) { track_pool_init(&tp, isz); pool = &tp.pool; }
	TrackPool *t = pm == 2 ? &tp : NULL;
	int64_t poolblocks = VF_GET(vf_live_blocks);
	for(int i = 0; i < ni; ++i) { open_seq(&q[i], i && !sort ? (int)rng_below(rng, 4) : type, rng, rng_pct(rng, 85) ? pool : NULL); }
	int nops = 20 + rng_below(rng, vf_thorough ? 800 : 250);
	int wins = 25 + rng_below(rng, 50), wrem = 10 + rng_below(rng, 40), wclear = clearheavy ? 15 : 1 + rng_below(rng, 4);
	int wunsorted = sort && (mid || rng_pct(rng, 50)) ? 0 : 1;
	bool nontrivial = false;
	for(int op = 0; op < nops; ++op)
	{
		Seq *p = &q[rng_below(rng, ni)];
		if(mid && p->n < want / 4)
		{
			while(p->n < want) { if(sort) { op_sorted(p, rng); } else { op_push(p, rng, rng_u64(rng) & 1); } }
			audit(p);
			want = 200 + rng_below(rng, sort ? 800 : 3000);
		}
		bool look = !mid || op % 8 == 0;
		size_t before = p->n;
		if(op % 70 == 69) { int x = wins; wins = wrem; wrem = x; }
		int x = rng_below(rng, wins + wrem + wclear + 30);
		if(p->type == STK || p->type == Q)
		{
			if(x < wins + 10) { op_push(p, rng, true); }
			else if(x < wins + wrem + 20) { op_pop(p, rng); }
			else if(x < wins + wrem + 20 + wclear) { op_clear(p, rng, p->pool ? t : NULL); }
			if(look) { audit(p); }
		}
		else
		{
			if(x < wins)
			{
				if(sort ? (!wunsorted || rng_pct(rng, 90)) : rng_pct(rng, 12)) { op_sorted(p, rng); }
				else
				{
					op_push(p, rng, rng_u64(rng) & 1);
					/* for sorted insertion the list has to stay sorted: make it so by removing */
					if(sort && !sorted(p)) { while(!sorted(p)) { op_remove(p, rng); } }
				}
			}
			else if((x -= wins) < wrem) { switch(rng_below(rng, 3)) { case 0: op_pop(p, rng); break; case 1: op_remove(p, rng); break; default: op_remove_data(p, rng); break; } }
			else if((x -= wrem) < wclear) { op_clear(p, rng, p->pool ? t : NULL); }
			else if((x -= wclear) < 20) { op_find(p, rng); }
			else if(!sort || !mid) { op_data(p, rng); if(sort && !sorted(p)) { while(!sorted(p)) { op_remove(p, rng); } } }
			if(look) { audit(p); }
		}
		nontrivial |= p->n != before;
		size_t total = 0, peak = 0;
		bool unpooled = false;
		for(int i = 0; i < ni; ++i) { if(q[i].pool) { total += q[i].n; } else { unpooled = true; } peak += q[i].peak; }
		if(t) { VF_CHECK(MON_POOL, t->live >= total, "pool-nodes", "%zu pool nodes for %zu elements", t->live, total); }
		if(pool && t && !unpooled) { VF_CHECK(MON_POOL, VF_GET(vf_live_blocks) <= poolblocks + 2 * ni, "pool-heap-nodes", "a list with its own pool takes nodes from the heap"); }
		if(t && p->pool && look) { for(size_t i = 0; i < p->n; ++i) { VF_CHECK(MON_POOL, track_pool_has(t, p->e[i].item), "pool-foreign-node", "item does not come from the pool"); } }
		VF_CHECK(MON_FOOT, VF_GET(vf_live_bytes) - bytes0 <= 160 * (int64_t)peak + 20000, "memory-growth", "%ld bytes for a peak of %zu items", (long)(VF_GET(vf_live_bytes) - bytes0), peak);
		vf_state(p->n);
	}
	vf_count_add("operations", nops);
	if(vf_want_sample()) { vf_sample("%s: %d instance(s), %d keys, free=%d, pool=%s, %d operations, magnitude %d", mode, ni, q[0].nk, q[0].fr, pm == 0 ? "none" : pm == 1 ? "MemoryPool" : "tracking", nops, g_mag); }
	for(int i = 0; i < ni; ++i)
	{
		audit(&q[i]);
		vf_count_max("largest population", q[i].peak);
		/* stacks and queues are read out through pop in the end, now and then */
		if((q[i].type == STK || q[i].type == Q) && (rng_u64(rng) & 1)) { while(q[i].n) { op_pop(&q[i], rng); audit(&q[i]); } }
		close_seq(&q[i], q[i].pool ? t : NULL);
		for(int j = i + 1; j < ni; ++j) { audit(&q[j]); }
	}
	if(t)
	{
		VF_CHECK(MON_POOL, !t->live, "pool-leak", "%zu nodes never returned to the pool", t->live);
		vf_count_add("pool nodes handed out", t->allocs);
		vf_count_add("pool nodes returned", t->frees);
		track_pool_fini(t);
	}
	if(mp) { memory_pool_destroy(mp); }
	VF_CHECK(MON_LEAK, VF_GET(vf_live_blocks) == blocks0 && VF_GET(vf_live_bytes) == bytes0, "leak", "%ld blocks (%ld bytes) of the library still allocated after free", (long)(VF_GET(vf_live_blocks) - blocks0), (long)(VF_GET(vf_live_bytes) - bytes0));
	vf_count_add("releases observed", led_total_released);
	led_total_released = 0;
	led_case_end();
	vf_case_done(nontrivial);
}

/* no population is special: each kind of operation at every single one of them */
static void
sweep_case(const char *mode, int type, uint64_t idx, Rng *rng)
{
	bool sort = strstr(mode, "-sort");
	size_t n = (idx % 4 == 3 ? 300 : vf_thorough ? 1400 : idx % 4 == 1 ? 1060 : 530) + rng_below(rng, 20);
	int64_t blocks0 = VF_GET(vf_live_blocks), bytes0 = VF_GET(vf_live_bytes);
	led_case_begin();
	g_mag = rng_below(rng, 4);
	int pm = rng_below(rng, 3);
	TrackPool tp;
	MemoryPool *mp = NULL;
	Pool *pool = NULL;
	if(pm == 1) { mp = memory_pool_new(sizeof(ListItem), 2 + rng_below(rng, 600)); pool = (Pool *)mp; }
	if(pm == 2) { track_pool_init(&tp, sizeof(ListItem)); pool = &tp.pool; }
	TrackPool *t = pm == 2 ? &tp : NULL;
	Seq q;
	open_seq(&q, type, rng, pool);
	int front = rng_below(rng, 3);
	vf_op("sweep", n, front);
#define PUSH(f) do { if(sort) { op_sorted(&q, rng); } else { op_push(&q, rng, f); } } while(0)
	while(q.n < n)
	{
		PUSH(front == 2 ? q.n & 1 : front);
		size_t p = q.n, mid = rng_below(rng, p);
		audit(&q);
		if(type == STK || type == Q) { op_pop(&q, rng); audit(&q); op_push(&q, rng, true); continue; }
		find_at(&q, q.e[p - 1].o, SIZE_MAX);
		find_at(&q, q.e[mid].o, mid);
		find_at(&q, q.probe[rng_below(rng, q.nk)], rng_below(rng, p));
		/* there and back again; the first thing after a removal differs from round to round */
		for(int v = 0; v < 6; ++v)
		{
			switch(v)
			{
				case 0: remove_at(&q, q.n - 1); break;
				case 1: remove_at(&q, 0); break;
				case 2: remove_at(&q, rng_below(rng, q.n)); break;
				case 3: op_pop(&q, rng); break;
				case 4: remove_data(&q, q.e[q.n - 1].o, false); break;
				default: remove_data(&q, q.e[q.n / 2].o, false); break;
			}
			if((v + p) % 3 == 0) { audit(&q); }
			PUSH((v + p) & 1);
			if((v + p) % 3 == 1) { audit(&q); }
		}
		if(!sort) { op_data(&q, rng); }
	}
	audit(&q);
	/* down: from one end, from the other, from anywhere */
	int how = rng_below(rng, 3);
	while(q.n)
	{
		if(type == STK || type == Q) { op_pop(&q, rng); audit(&q); continue; }
		if(how == 0) { remove_at(&q, q.n - 1); } else if(how == 1) { op_pop(&q, rng); } else { remove_at(&q, rng_below(rng, q.n)); }
		audit(&q);
	}
	vf_count_add("populations swept", 2 * n);
	/* everything at once, at every population */
	for(size_t p = 0; p <= (type == L || type == S ? n : 0); ++p)
	{
		while(q.n < p) { op_push(&q, rng, (q.n ^ p) & 1); }
		if(p % 2 == idx % 2) { op_clear(&q, rng, t); }
		else
		{
			remove_data(&q, q.probe[rng_below(rng, q.nk)], true);
			audit(&q);
			op_clear(&q, rng, t);
		}
	}
	/* closed and opened again, at every population */
	for(size_t p = 0; p <= n; p += 1 + (type != L && type != S && p % 2))
	{
		for(size_t i = 0; i < p; ++i) { op_push(&q, rng, i & 1); }
		audit(&q);
		if(type == STK || type == Q) { if(p % 3 == 0) { op_clear(&q, rng, t); op_push(&q, rng, true); audit(&q); } }
		close_seq(&q, t);
		open_seq(&q, type, rng, pool);
	}
#undef PUSH
	vf_count_add("populations cleared or closed", 2 * (n + 1));
	vf_count_max("largest population", n);
	close_seq(&q, t);
	if(t)
	{
		VF_CHECK(MON_POOL, !t->live, "pool-leak", "%zu nodes never returned to the pool", t->live);
		vf_count_add("pool nodes handed out", t->allocs);
		vf_count_add("pool nodes returned", t->frees);
		track_pool_fini(t);
	}
	if(mp) { memory_pool_destroy(mp); }
	VF_CHECK(MON_LEAK, VF_GET(vf_live_blocks) == blocks0 && VF_GET(vf_live_bytes) == bytes0, "leak", "%ld blocks of the library still allocated after free", (long)(VF_GET(vf_live_blocks) - blocks0));
	vf_count_add("releases observed", led_total_released);
	led_total_released = 0;
	led_case_end();
	if(vf_want_sample()) { vf_sample("%s: every population up to %zu, direction %d, magnitude %d, pool %d", mode, n, front, g_mag, pm); }
	vf_case_done(true);
}

/* sorted insertion into longer lists of raw integers: keys with ties, identified by their second half */
static int32_t cmphi(const void *a, const void *b) { uintptr_t x = (uintptr_t)a >> 20, y = (uintptr_t)b >> 20; int c = (x > y) - (x < y); return g_mag == 0 ? c : g_mag == 1 ? (c < 0 ? INT32_MIN : c > 0 ? INT32_MAX : 0) : g_mag == 2 ? c * 65536 : c * (1 << 30); }
static void
sortbig_case(const char *mode, int type, uint64_t idx, Rng *rng)
{
	size_t n = 800 + rng_below(rng, 1200);
	int64_t bytes0 = VF_GET(vf_live_bytes);
	g_mag = rng_below(rng, 4);
	int keys = idx % 3 == 0 ? 3 : idx % 3 == 1 ? 60 : 1 << 30, kind = rng_below(rng, 4);
	List l;
	SList s;
	if(type == L) { list_init(&l, cmphi, NULL, NULL); } else { slist_init(&s, cmphi, NULL, NULL); }
	uint8_t *seen = xcalloc(n + 1, 1);
	size_t have = 0;
	vf_op("sort-big", n, keys);
	for(size_t i = 1; i <= n; ++i)
	{
		uintptr_t k = kind == 0 ? i : kind == 1 ? n - i : rng_below(rng, keys);
		uintptr_t v = (k % keys) << 20 | i;
		void *d;
		if(type == L) { ListItem *it = list_insert_sorted(&l, (void *)v); d = it ? list_item_get_data(it) : NULL; } else { SListItem *it = slist_insert_sorted(&s, (void *)v); d = it ? slist_item_get_data(it) : NULL; }
		VF_CHECK(MON_SORT, d == (void *)v, "sorted-item", "the returned item does not hold the new element");
		++have;
		seen[i] = 1;
		if(rng_pct(rng, 5))
		{
			void *p = type == L ? list_pop(&l) : slist_pop(&s);
			size_t q = (uintptr_t)p & 0xfffff;
			VF_CHECK(MON_SORT, p && q <= n && seen[q] == 1, "sorted-pop", "popped element is not the model's");
			if(q <= n) { seen[q] = 0; }
			--have;
		}
		if(i % 100 == 0 || i == n)
		{
			size_t c = 0;
			uintptr_t prev = 0, last = 0;
			for(ListItem *it = type == L ? list_head(&l) : NULL; it; it = list_item_next(it))
			{
				uintptr_t x = (uintptr_t)list_item_get_data(it);
				VF_CHECK(MON_SORT, x >> 20 >= prev >> 20 && (x & 0xfffff) <= n && seen[x & 0xfffff] == 1, "sorted", "list is not sorted or holds a foreign element");
				VF_CHECK(MON_SORT, list_item_prev(it) ? list_item_next(list_item_prev(it)) == it : it == list_head(&l), "sorted-links", "broken link backwards");
				prev = last = x;
				++c;
			}
			for(SListItem *it = type == S ? slist_head(&s) : NULL; it; it = slist_item_next(it))
			{
				uintptr_t x = (uintptr_t)slist_item_get_data(it);
				VF_CHECK(MON_SORT, x >> 20 >= prev >> 20 && (x & 0xfffff) <= n && seen[x & 0xfffff] == 1, "sorted", "list is not sorted or holds a foreign element");
				prev = last = x;
				++c;
			}
			VF_CHECK(MON_SORT, c == have && (type == L ? list_count(&l) : slist_count(&s)) == have, "count", "%zu elements in the list, should be %zu", c, have);
#ifndef VF_OPAQUE
			VF_CHECK(MON_SORT, !have || (type == L ? (uintptr_t)list_item_get_data(list_tail(&l)) : (uintptr_t)s.tail->data) == last, "tail", "tail is not the last element");
#endif
		}
	}
	if(type == L) { list_free(&l); } else { slist_free(&s); }
	VF_CHECK(MON_LEAK, VF_GET(vf_live_bytes) == bytes0, "leak", "library memory still allocated");
	if(vf_want_sample()) { vf_sample("%s: %zu sorted insertions, %d keys, order %d", mode, n, keys, kind); }
	vf_count_max("largest population", have);
	free(seen);
	vf_case_done(true);
}

/* long lists of raw integers */
static int32_t cmpi(const void *a, const void *b) { return (a > b) - (a < b); }
static uint64_t g_freed, g_freesum;
static void fri(void *p) { ++g_freed; g_freesum += (uintptr_t)p; }
static void
big_case(const char *mode, int type, uint64_t idx, Rng *rng)
{
	size_t n = (vf_thorough ? 1500000 : 300000) + rng_below(rng, 1000);
	int64_t bytes0 = VF_GET(vf_live_bytes);
	bool pooled = idx & 1;
	MemoryPool *mp = pooled ? memory_pool_new(sizeof(ListItem), 256) : NULL;
	List *l = NULL;
	SList *s = NULL;
	if(type == L) { l = list_new(cmpi, fri, (Pool *)mp); } else { s = slist_new(cmpi, fri, (Pool *)mp); }
	uintptr_t *a = xmalloc(2 * n * sizeof *a);
	size_t lo = n, hi = n;
	/* data may be any pointer */
	static const uintptr_t masks[] = { 0, 0, (uintptr_t)1 << 63, ~(uintptr_t)0xfff };
	uintptr_t vx = masks[rng_below(rng, 4)];
	vf_op("big", n, pooled);
	for(size_t i = 0; i < n; ++i)
	{
		uintptr_t v = (1 + rng_below(rng, 1000)) | vx;
		bool front = type == Q ? false : type == STK ? true : rng_u64(rng) & 1;
		if(type == L) { if(front) { list_prepend(l, (void *)v); } else { list_append(l, (void *)v); } }
		else if(front) { if(type == STK) { stack_push(s, (void *)v); } else { slist_prepend(s, (void *)v); } }
		else if(type == Q) { queue_push(s, (void *)v); }
		else { slist_append(s, (void *)v); }
		if(front) { a[--lo] = v; } else { a[hi++] = v; }
	}
	g_freed = g_freesum = 0;
	uint64_t want = 0, wantsum = 0;
	if(type == L || type == S)
	{
		for(int r = 0; r < 4; ++r)
		{
			uintptr_t v = (1 + rng_below(rng, 1000)) | vx;
			bool all = r & 1;
			size_t w = lo;
			bool done = false;
			for(size_t i = lo; i < hi; ++i) { if(a[i] == v && !done) { ++want; wantsum += v; done = !all; } else { a[w++] = a[i]; } }
			hi = w;
			if(type == L) { list_remove_by_data(l, (void *)v, all); } else { slist_remove_by_data(s, (void *)v, all); }
			uintptr_t f = rng_below(rng, 1100) | vx;
			bool have = false;
			for(size_t i = lo; i < hi && !have; ++i) { have = a[i] == f; }
			bool c = type == L ? list_contains(l, (void *)f) : slist_contains(s, (void *)f);
			VF_CHECK(MON_FUNC, c == have, "contains", "contains answers %d", c);
		}
		/* single items of a long list: the last, the first, one in between, and the search from there */
		for(int r = 0; r < 6 && hi - lo > 10; ++r)
		{
			size_t k = r % 3 == 0 ? hi - 1 : r % 3 == 1 ? lo : lo + rng_below(rng, hi - lo);
			void *it = type == L ? (void *)list_head(l) : (void *)slist_head(s);
			for(size_t i = lo; it && i < k; ++i) { it = type == L ? (void *)list_item_next(((ListItem *)it)) : (void *)slist_item_next(((SListItem *)it)); }
			VF_CHECK(MON_FUNC, it != NULL, "forward", "the list ends before its item %zu of %zu", k - lo, hi - lo);
			if(!it) { break; }
			uintptr_t f = (1 + rng_below(rng, 1100)) | vx;
			bool have = false;
			for(size_t i = k; i < hi && !have; ++i) { have = a[i] == f; }
			void *got = type == L ? (void *)list_find(l, it, (void *)f) : (void *)slist_find(s, it, (void *)f);
			VF_CHECK(MON_FUNC, (got != NULL) == have, "find", "find from item %zu of %zu %s", k - lo, hi - lo, have ? "misses a match" : "invents one");
			++want;
			wantsum += a[k];
			if(type == L) { list_remove(l, it); } else { slist_remove(s, it); }
			if(k == lo) { ++lo; } else { memmove(a + k, a + k + 1, (hi - k - 1) * sizeof *a); --hi; }
			uintptr_t v = (1 + rng_below(rng, 1000)) | vx;
			if(hi < 2 * n) { if(type == L) { list_append(l, (void *)v); } else { slist_append(s, (void *)v); } a[hi++] = v; }
		}
		VF_CHECK(MON_OWN, g_freed == want && g_freesum == wantsum, "own-release-sum", "removal by data released %lu items, should have released %lu", (unsigned long)g_freed, (unsigned long)want);
		size_t i = lo;
		if(type == L)
		{
			for(ListItem *it = list_head(l); it; it = list_item_next(it), ++i) { VF_CHECK(MON_FUNC, i < hi && list_item_get_data(it) == (void *)a[i], "forward", "wrong item"); }
			VF_CHECK(MON_FUNC, i == hi && list_count(l) == hi - lo, "count", "wrong length");
			for(ListItem *it = list_tail(l); it; it = list_item_prev(it)) { --i; VF_CHECK(MON_FUNC, i >= lo && list_item_get_data(it) == (void *)a[i], "backward", "wrong item"); }
			VF_CHECK(MON_FUNC, i == lo, "backward-end", "wrong length backwards");
		}
		else
		{
			for(SListItem *it = slist_head(s); it; it = slist_item_next(it), ++i) { VF_CHECK(MON_FUNC, i < hi && slist_item_get_data(it) == (void *)a[i], "forward", "wrong item"); }
			VF_CHECK(MON_FUNC, i == hi && (type == S ? slist_count(s) : type == STK ? stack_count(s) : queue_count(s)) == hi - lo, "count", "wrong length");
		}
	}
	size_t pops = (hi - lo) / 2;
	for(size_t i = 0; i < pops; ++i)
	{
		void *d = NULL;
		bool ok = true;
		if(type == L) { d = list_pop(l); } else if(type == S) { d = slist_pop(s); } else if(type == STK) { ok = stack_pop(s, &d); } else { ok = queue_pop(s, &d); }
		VF_CHECK(MON_FUNC, ok && d == (void *)a[lo], "pop-data", "pop %zu returns the wrong data", i);
		++lo;
	}
	VF_CHECK(MON_FUNC, (type == L ? list_count(l) : type == S ? slist_count(s) : type == STK ? stack_count(s) : queue_count(s)) == hi - lo, "count", "wrong count");
	VF_CHECK(MON_OWN, g_freed == want, "own-release-sum", "pop released data");
	for(size_t i = lo; i < hi; ++i) { ++want; wantsum += a[i]; }
	if(type == L) { if(idx & 2) { list_clear(l); } list_destroy(l); } else { if(idx & 2) { if(type == STK) { stack_clear(s); } else if(type == Q) { queue_clear(s); } else { slist_clear(s); } } if(type == STK) { stack_destroy(s); } else if(type == Q) { queue_destroy(s); } else { slist_destroy(s); } }
	VF_CHECK(MON_OWN, g_freed == want && g_freesum == wantsum, "own-release-sum", "%lu items released in the end, should be %lu", (unsigned long)g_freed, (unsigned long)want);
	if(mp) { memory_pool_destroy(mp); }
	VF_CHECK(MON_LEAK, VF_GET(vf_live_bytes) == bytes0, "leak", "library memory still allocated");
	if(vf_want_sample()) { vf_sample("%s: %zu items, pool %d", mode, n, pooled); }
	vf_count_max("largest population", n);
	free(a);
	vf_case_done(true);
}

void
run_case(const char *mode, uint64_t idx, Rng *rng)
{
	int type = !strncmp(mode, "list", 4) ? L : !strncmp(mode, "slist", 5) ? S : !strncmp(mode, "stack", 5) ? STK : Q;
	if(strstr(mode, "-sweep")) { sweep_case(mode, type, idx, rng); }
	else if(strstr(mode, "-sortbig")) { sortbig_case(mode, type, idx, rng); }
	else if(strstr(mode, "-big")) { big_case(mode, type, idx, rng); }
	else { rand_case(mode, type, rng); }
}
