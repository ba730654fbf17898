/* Callbacks that use containers of their own: while a call on one container runs, its hash, equality, compare
 * and free functions and its user-defined pool make calls on other containers, of the same type too, and
 * those on further ones. Each container has a model and has to behave as if the others did not exist.
 * Containers that hold containers, released level by level by their free callbacks. */
#include "vf.h"

#define MAXK 640
#define NC 14
#define MAXN 640
static int NK, MAXL; /* keys, and items of a list */
enum { HT, RB, AA, LIST, LSORT, SLIST, SSORT, STACK, QUEUE, ASYNC, BUF, NTYPE };
static const char *tname[] = { "hash table", "tree", "assoc array", "list", "sorted list", "slist", "sorted slist", "stack", "queue", "async queue", "buffer" };
#define MAGIC 0x600d0b1e
enum { STORED = 1, RELEASED, CALLER };
typedef struct { uint32_t magic; int k, state; } Val;

/* node pools: user-defined ones (their functions do other things as well), and memory pools */
typedef struct { Pool pool; size_t size, live; } NPool;

typedef struct
{
	int type, id;
	bool busy, owns_keys, sorted;
	Pool *pool;
	union { HashTable ht; RBTree rb; AssocArray aa; List l; SList s; AsyncQueue q; Buffer b; } u;
	/* maps */
	Val *key[MAXK], *val[MAXK];
	bool has[MAXK];
	/* lists */
	Val *seq[MAXN + 2];
	size_t n;
	/* buffer */
	char bytes[4096];
	size_t len;
	char *dst;
	size_t dlen;
} Cont;
static Cont C[NC];
static int nc, depth, chance;
static Rng *R;
static uint64_t nested, calls, within[NTYPE], callbacks;
static int deepest, fill; /* more goes in than comes out */
static Val skey[MAXK];

static void op(Cont *c);
static void
nest(void)
{
	++callbacks;
	if(depth >= 4 || !rng_pct(R, depth ? (unsigned)chance / 3 : (unsigned)chance)) { return; }
	int i = (int)rng_below(R, nc);
	for(int t = 0; t < nc && C[i].busy; ++t) { i = (i + 1) % nc; }
	if(C[i].busy) { return; }
	++depth;
	++nested;
	if(depth > deepest) { deepest = depth; }
	op(&C[i]);
	--depth;
}
#define LIVE(v) VF_CHECK(MON_NEST, ((const Val *)(v))->magic == MAGIC && ((const Val *)(v))->state != RELEASED, "callback-arg", "a callback gets an object that is not there any more")
static uint32_t hash_val(const void *p) { LIVE(p); nest(); return (uint32_t)((const Val *)p)->k % 13; }
static bool equal_val(const void *a, const void *b) { LIVE(a); LIVE(b); int x = ((const Val *)a)->k; nest(); return x == ((const Val *)b)->k; }
static int32_t cmp_val(const void *a, const void *b) { LIVE(a); LIVE(b); int x = ((const Val *)a)->k; nest(); int y = ((const Val *)b)->k; return (x > y) - (x < y); }
static void
free_val(void *p)
{
	Val *v = p;
	VF_CHECK(MON_NEST, v->magic == MAGIC, "release", "something else than an object is released");
	VF_CHECK(MON_NEST, v->state == STORED, "release", "object %d is released in state %d", v->k, v->state);
	if(rng_u64(R) & 1) { nest(); v->state = RELEASED; } else { v->state = RELEASED; nest(); }
}
static void *
np_alloc(Pool *p)
{
	NPool *np = (NPool *)p;
	nest();
	void *x = xmalloc(np->size);
	memset(x, 0x5a, np->size);
	++np->live;
	nest();
	return x;
}
static void
np_free(Pool *p, void *x)
{
	NPool *np = (NPool *)p;
	nest();
	VF_CHECK(MON_NEST, np->live > 0, "pool", "more nodes given back than taken");
	--np->live;
	memset(x, 0xa5, np->size);
	free(x);
	nest();
}
static NPool np_list, np_slist, np_rb;
static MemoryPool *mp_list, *mp_slist, *mp_rb;

static Val *
mk(int k, int state)
{
	Val *v = xmalloc(sizeof *v);
	*v = (Val){ MAGIC, k, state };
	return v;
}
static void drop(Val *v) { v->magic = 0; free(v); }
/* the library has to have released it in this call */
static void
gone(const Cont *c, Val *v, const char *what)
{
	VF_CHECK(MON_NEST, v->state == RELEASED, "not-released", "%s does not release object %d of %s %d", what, v->k, tname[c->type], c->id);
	drop(v);
}

static void
init(Cont *c, int type, int id)
{
	memset(c, 0, sizeof *c);
	c->type = type;
	c->id = id;
	c->owns_keys = rng_u64(R) & 1;
	int pk = (int)rng_below(R, 3);
	FreeFunc fk = c->owns_keys ? free_val : NULL;
	c->busy = true;
	switch(type)
	{
		case HT: hashtable_init(&c->u.ht, rng_u64(R) & 1 ? HASHTABLE_AUTO_RESIZE : 1 + rng_below(R, 9), hash_val, equal_val, fk, free_val); break;
		case RB: rbtree_init(&c->u.rb, cmp_val, fk, free_val, c->pool = pk == 0 ? NULL : pk == 1 ? (Pool *)&np_rb : (Pool *)mp_rb); break;
		case AA: assoc_array_init(&c->u.aa, cmp_val, fk, free_val); break;
		case LSORT: case LIST: list_init(&c->u.l, cmp_val, free_val, c->pool = pk == 0 ? NULL : pk == 1 ? (Pool *)&np_list : (Pool *)mp_list); break;
		case SSORT: case SLIST: case STACK: case QUEUE: slist_init(&c->u.s, cmp_val, free_val, c->pool = pk == 0 ? NULL : pk == 1 ? (Pool *)&np_slist : (Pool *)mp_slist); break;
		case ASYNC: async_queue_init(&c->u.q, cmp_val, free_val, c->pool = pk == 0 ? NULL : pk == 1 ? (Pool *)&np_slist : (Pool *)mp_slist); break;
		default: buffer_init(&c->u.b, sizeof c->bytes); break;
	}
	c->busy = false;
}

#define IS(t) (c->type == t)
#define CHECKC(cond, what, ...) VF_CHECK(MON_NEST, cond, "answer", what, __VA_ARGS__)
static void
map_op(Cont *c)
{
	int k = (int)rng_below(R, NK), x = fill && rng_pct(R, 50) ? 0 : (int)rng_below(R, fill ? 99 : 100);
	Val probe = { MAGIC, k, CALLER };
	if(x < 45)
	{
		Val *v = mk(k, STORED), *key = c->owns_keys ? mk(k, STORED) : &skey[k];
		bool ow = rng_u64(R) & 1, isnew;
		vf_op("set", c->id, k);
		if(IS(HT)) { isnew = hashtable_set(&c->u.ht, key, v, ow) == HASHTABLE_INSERT_RESULT_NEW; }
		else if(IS(RB)) { isnew = rbtree_set(&c->u.rb, key, v, ow) == RBTREE_INSERT_RESULT_NEW; }
		else { isnew = assoc_array_set(&c->u.aa, key, v, ow) == ASSOCARRAY_INSERT_RESULT_NEW; }
		CHECKC(isnew == !c->has[k], "%s %d: set says %s", tname[c->type], c->id, isnew ? "new" : "replaced");
		if(c->has[k])
		{
			gone(c, c->val[k], "set");
			if(c->owns_keys)
			{
				if(ow) { gone(c, c->key[k], "set"); c->key[k] = key; }
				else { VF_CHECK(MON_NEST, key->state == STORED, "release", "set releases a key it does not take"); drop(key); }
			}
		}
		else { c->key[k] = key; ++c->n; }
		c->has[k] = true;
		c->val[k] = v;
	}
	else if(x < 62)
	{
		vf_op("remove", c->id, k);
		if(IS(HT)) { hashtable_remove(&c->u.ht, &probe); }
		else if(IS(RB)) { bool was = rbtree_remove(&c->u.rb, &probe); CHECKC(was == c->has[k], "tree %d: remove says %d", c->id, was); }
		else { assoc_array_remove(&c->u.aa, &probe); }
		if(c->has[k])
		{
			gone(c, c->val[k], "remove");
			if(c->owns_keys) { gone(c, c->key[k], "remove"); }
			c->has[k] = false;
			c->val[k] = c->key[k] = NULL;
			--c->n;
		}
	}
	else if(x < 84)
	{
		Val *key = NULL, *val = NULL, *w = c->has[k] && rng_pct(R, 30) ? mk(k, STORED) : NULL, *key2 = NULL, *val2 = NULL;
		vf_op("lookup", c->id, k);
#define PAIR(T, pre, m) { T##Pair *p = pre##_lookup(&c->u.m, &probe); nest(); if(p) { key = pre##_pair_get_key(p); val = pre##_pair_get_value(p); nest(); key2 = pre##_pair_key(p); val2 = pre##_pair_value(p); if(w) { pre##_pair_set_value(p, w); val2 = pre##_pair_get_value(p); } } }
		if(IS(HT)) { PAIR(HashTable, hashtable, ht) } else if(IS(RB)) { PAIR(RBTree, rbtree, rb) } else { PAIR(AssocArray, assoc_array, aa) }
		CHECKC(key == (c->has[k] ? c->key[k] : NULL) && key2 == key, "%s %d: a lookup gives the wrong key", tname[c->type], c->id);
		CHECKC(val == (c->has[k] ? c->val[k] : NULL) && val2 == (w ? w : val), "%s %d: a lookup gives the wrong value", tname[c->type], c->id);
		if(w) { gone(c, c->val[k], "pair_set_value"); c->val[k] = w; }
		bool ex = IS(HT) ? hashtable_key_exists(&c->u.ht, &probe) : IS(RB) ? rbtree_key_exists(&c->u.rb, &probe) : assoc_array_key_exists(&c->u.aa, &probe);
		CHECKC(ex == c->has[k], "%s %d: wrong answer about key %d", tname[c->type], c->id, k);
	}
	else if(x < 98)
	{
		bool seen[MAXK] = { false };
		size_t n = 0;
		int last = -1;
		vf_op("iterate", c->id, (int64_t)c->n);
#define SEE(pre) { Val *key = pre##_iter_get_key(&it), *val = pre##_iter_get_value(&it); nest(); VF_CHECK(MON_NEST, key && key->magic == MAGIC && c->has[key->k] && !seen[key->k] && c->key[key->k] == key && c->val[key->k] == val, "iteration", "%s %d: iteration gives a wrong entry", tname[c->type], c->id); VF_CHECK(MON_NEST, !IS(AA) || key->k > last, "iteration", "%s %d: iteration out of order", tname[c->type], c->id); last = key->k; seen[key->k] = true; ++n; }
		if(IS(HT)) { HashTableIter it; hashtable_iter_init(&c->u.ht, &it); nest(); while(hashtable_iter_next(&it)) { SEE(hashtable) } }
		else if(IS(RB))
		{
			RBTreeIter it;
			rbtree_iter_init(&c->u.rb, &it);
			nest();
			if(rng_pct(R, 30)) { for(int i = (int)rng_below(R, 9); i > 0 && rbtree_iter_next(&it); --i) { nest(); } rbtree_iter_reuse(&c->u.rb, &it); nest(); }
			while(rbtree_iter_next(&it)) { SEE(rbtree) }
			rbtree_iter_free(&it);
		}
		else { AssocArrayIter it; assoc_array_iter_init(&c->u.aa, &it); nest(); while(assoc_array_iter_next(&it)) { SEE(assoc_array) } }
		CHECKC(n == c->n, "%s %d: iteration gives %zu of %zu entries", tname[c->type], c->id, n, c->n);
	}
	else
	{
		vf_op("clear", c->id, (int64_t)c->n);
		if(IS(HT)) { hashtable_clear(&c->u.ht); } else if(IS(RB)) { rbtree_clear(&c->u.rb); } else { assoc_array_clear(&c->u.aa); }
		for(int i = 0; i < NK; ++i) { if(c->has[i]) { gone(c, c->val[i], "clear"); if(c->owns_keys) { gone(c, c->key[i], "clear"); } c->has[i] = false; } }
		c->n = 0;
	}
	size_t n = IS(HT) ? hashtable_count(&c->u.ht) : IS(RB) ? rbtree_count(&c->u.rb) : assoc_array_count(&c->u.aa);
	CHECKC(n == c->n, "%s %d: count is %zu, should be %zu", tname[c->type], c->id, n, c->n);
}

/* the whole sequence */
static size_t
walk(Cont *c, Val **out)
{
	size_t n = 0;
	if(IS(LIST) || IS(LSORT))
	{
		ListItem *prev = NULL;
		for(ListItem *i = list_head(&c->u.l); i && n <= MAXN; i = list_item_next(i)) { out[n++] = list_item_get_data(i); VF_CHECK(MON_NEST, list_item_prev(i) == prev, "links", "list %d: wrong link backwards", c->id); prev = i; }
		VF_CHECK(MON_NEST, list_tail(&c->u.l) == prev, "links", "list %d: wrong tail", c->id);
	}
#ifdef VF_OPAQUE
	else if(IS(ASYNC)) { for(; n < c->n; ++n) { out[n] = c->seq[n]; } }
	else { for(SListItem *i = slist_head(&c->u.s); i && n <= MAXN; i = slist_item_next(i)) { out[n++] = slist_item_get_data(i); } }
#else
	else { for(SListItem *i = slist_head(IS(ASYNC) ? &c->u.q.queue : &c->u.s); i && n <= MAXN; i = slist_item_next(i)) { out[n++] = slist_item_get_data(i); } }
#endif
	return n;
}
static void
seq_agrees(Cont *c)
{
	Val *now[MAXN + 2];
	size_t n = walk(c, now);
	CHECKC(n == c->n, "%s %d holds %zu items, should be %zu", tname[c->type], c->id, n, c->n);
	for(size_t i = 0; i < n; ++i)
	{
		CHECKC(now[i] == c->seq[i], "%s %d: wrong item at %zu", tname[c->type], c->id, i);
		VF_CHECK(MON_NEST, now[i]->magic == MAGIC && now[i]->state == STORED, "release", "%s %d: a stored item was released", tname[c->type], c->id);
	}
	size_t cnt = IS(LIST) || IS(LSORT) ? list_count(&c->u.l) : IS(ASYNC) ? async_queue_count(&c->u.q) : slist_count(&c->u.s);
	CHECKC(cnt == n, "%s %d: count is %zu, should be %zu", tname[c->type], c->id, cnt, n);
}
static void
seq_op(Cont *c)
{
	int k = (int)rng_below(R, NK / 2), x = fill && rng_pct(R, 50) ? 0 : (int)rng_below(R, fill ? 97 : 100);
	Val probe = { MAGIC, k, CALLER };
	bool dl = IS(LIST) || IS(LSORT), sorted = IS(LSORT) || IS(SSORT), plain = IS(LIST) || IS(SLIST);
	List *l = &c->u.l;
	SList *s = &c->u.s;
	if(x < 45 && c->n < (size_t)MAXL)
	{
		Val *v = mk(k, STORED);
		vf_op("add", c->id, k);
		if(sorted)
		{
			void *it = dl ? (void *)list_insert_sorted(l, v) : (void *)slist_insert_sorted(s, v);
			Val *now[MAXN + 2];
			size_t n = walk(c, now), j = 0;
			bool got = false;
			CHECKC(it && n == c->n + 1, "%s %d: %zu items after an insertion, should be %zu", tname[c->type], c->id, n, c->n + 1);
			for(size_t i = 0; i < n; ++i)
			{
				if(!got && now[i] == v) { got = true; } else { VF_CHECK(MON_NEST, j < c->n && now[i] == c->seq[j], "order", "%s %d: an insertion changes the order of the others", tname[c->type], c->id); ++j; }
				VF_CHECK(MON_NEST, !i || now[i - 1]->k <= now[i]->k, "order", "%s %d is not sorted", tname[c->type], c->id);
			}
			CHECKC(got, "%s %d: the new item is missing", tname[c->type], c->id);
			memcpy(c->seq, now, n * sizeof *now);
			c->n = n;
		}
		else
		{
			bool front = IS(STACK) || (plain && (rng_u64(R) & 1));
			if(IS(LIST)) { if(front) { list_prepend(l, v); } else { list_append(l, v); } }
			else if(IS(SLIST)) { if(front) { slist_prepend(s, v); } else { slist_append(s, v); } }
			else if(IS(STACK)) { stack_push(s, v); }
			else if(IS(QUEUE)) { queue_push(s, v); }
			else { async_queue_push(&c->u.q, v); }
			if(front) { memmove(c->seq + 1, c->seq, c->n * sizeof *c->seq); c->seq[0] = v; } else { c->seq[c->n] = v; }
			++c->n;
		}
	}
	else if(x < 60)
	{
		void *v = NULL;
		bool ok;
		if(IS(ASYNC) && !c->n) { return; }
		vf_op("pop", c->id, 0);
		if(dl) { v = list_pop(l); ok = v; } else if(plain || IS(SSORT)) { v = slist_pop(s); ok = v; } else if(IS(STACK)) { ok = stack_pop(s, &v); } else if(IS(QUEUE)) { ok = queue_pop(s, &v); }
		else { ok = rng_u64(R) & 1 ? async_queue_pop(&c->u.q, &v) : async_queue_pop_timeout(&c->u.q, &v, 1000); }
		CHECKC(ok == (c->n > 0) && (!ok || v == c->seq[0]), "%s %d: pop gives the wrong item", tname[c->type], c->id);
		if(ok) { VF_CHECK(MON_NEST, ((Val *)v)->state == STORED, "release", "a popped item was released"); drop(v); memmove(c->seq, c->seq + 1, --c->n * sizeof *c->seq); }
	}
	else if(x < 92 && !IS(STACK) && !IS(QUEUE) && !IS(ASYNC))
	{
		size_t cnt = 0, at = c->n;
		for(size_t i = 0; i < c->n; ++i) { if(c->seq[i]->k == k) { if(!cnt) { at = i; } ++cnt; } }
		if(x < 72)
		{
			vf_op("find", c->id, k);
			Val *v = NULL;
			bool has = dl ? list_contains(l, &probe) : slist_contains(s, &probe);
			if(dl) { ListItem *i = list_find(l, NULL, &probe); v = i ? list_item_get_data(i) : NULL; } else { SListItem *i = slist_find(s, NULL, &probe); v = i ? slist_item_get_data(i) : NULL; }
			CHECKC(has == (cnt > 0) && !v == !cnt && (!v || v->k == k), "%s %d: wrong answer about item %d", tname[c->type], c->id, k);
		}
		else if(x < 82)
		{
			bool all = rng_u64(R) & 1;
			vf_op("remove_by_data", c->id, k);
			if(dl) { list_remove_by_data(l, &probe, all); } else { slist_remove_by_data(s, &probe, all); }
			Val *now[MAXN + 2];
			size_t n = walk(c, now), want = all ? cnt : cnt > 0, j = 0, missing = 0;
			for(size_t i = 0; i < c->n; ++i)
			{
				if(j < n && now[j] == c->seq[i]) { ++j; continue; }
				VF_CHECK(MON_NEST, c->seq[i]->k == k, "removed", "%s %d: another item was removed", tname[c->type], c->id);
				gone(c, c->seq[i], "remove_by_data");
				++missing;
			}
			CHECKC(missing == want && j == n, "%s %d: %zu items removed, should be %zu", tname[c->type], c->id, missing, want);
			memcpy(c->seq, now, n * sizeof *now);
			c->n = n;
		}
		else if(c->n)
		{
			at = rng_below(R, c->n);
			vf_op("remove_item", c->id, (int64_t)at);
			if(dl) { ListItem *i = list_head(l); for(size_t j = 0; j < at && i; ++j) { i = list_item_next(i); } list_remove(l, i); }
			else { SListItem *i = slist_head(s); for(size_t j = 0; j < at && i; ++j) { i = slist_item_next(i); } slist_remove(s, i); }
			gone(c, c->seq[at], "remove");
			memmove(c->seq + at, c->seq + at + 1, (--c->n - at) * sizeof *c->seq);
		}
	}
	else if(x < 96 && (IS(STACK) || IS(QUEUE)))
	{
		void *v = NULL;
		bool ok = IS(STACK) ? stack_head(s, &v) : queue_head(s, &v);
		CHECKC(ok == (c->n > 0) && (!ok || v == c->seq[0]), "%s %d: wrong head", tname[c->type], c->id);
	}
	else if(x >= 97)
	{
		vf_op("clear", c->id, (int64_t)c->n);
		if(dl) { list_clear(l); } else if(IS(ASYNC)) { async_queue_clear(&c->u.q); } else if(IS(STACK)) { stack_clear(s); } else if(IS(QUEUE)) { queue_clear(s); } else { slist_clear(s); }
		for(size_t i = 0; i < c->n; ++i) { gone(c, c->seq[i], "clear"); }
		c->n = 0;
	}
	seq_agrees(c);
}
static void
buf_op(Cont *c)
{
	int x = (int)rng_below(R, 10);
	vf_op("buffer", c->id, x);
	if(x < 6)
	{
		char t[64];
		size_t n = 1 + rng_below(R, sizeof t);
		for(size_t i = 0; i < n; ++i) { t[i] = "abcdefgh\n"[rng_below(R, 9)]; }
		if(c->len + n <= sizeof c->bytes)
		{
			CHECKC(buffer_fill(&c->u.b, t, n), "buffer %d takes no bytes", c->id);
			memcpy(c->bytes + c->len, t, n);
			c->len += n;
		}
	}
	else if(x < 8)
	{
		char *nl = memchr(c->bytes, '\n', c->len);
		bool ok = buffer_read_line(&c->u.b, &c->dst, &c->dlen);
		CHECKC(ok == (nl != NULL), "buffer %d: wrong answer about a line", c->id);
		if(nl)
		{
			size_t n = (size_t)(nl - c->bytes);
			CHECKC(strlen(c->dst) == n && !memcmp(c->dst, c->bytes, n), "buffer %d: wrong line", c->id);
			c->len -= n + 1;
			memmove(c->bytes, nl + 1, c->len);
		}
	}
	else if(x < 9)
	{
		char *str = buffer_to_string(&c->u.b);
		CHECKC(!str == !c->len && (!str || (strlen(str) == c->len && !memcmp(str, c->bytes, c->len))), "buffer %d: wrong string", c->id);
		if(str) { vf_free(str); }
	}
	else { buffer_clear(&c->u.b); c->len = 0; }
	CHECKC(buffer_len(&c->u.b) == c->len, "buffer %d: wrong length", c->id);
}
static void
op(Cont *c)
{
	c->busy = true;
	++calls;
	++within[c->type];
	switch(c->type)
	{
		case HT: case RB: case AA: map_op(c); break;
		case BUF: buf_op(c); break;
		default: seq_op(c); break;
	}
	c->busy = false;
}
static void
fini(Cont *c)
{
	c->busy = true;
	vf_op("free", c->id, 0);
	switch(c->type)
	{
		case HT: hashtable_free(&c->u.ht); break;
		case RB: rbtree_free(&c->u.rb); break;
		case AA: assoc_array_free(&c->u.aa); break;
		case LIST: case LSORT: list_free(&c->u.l); break;
		case ASYNC: async_queue_free(&c->u.q); break;
		case BUF: buffer_free(&c->u.b); vf_free(c->dst); break;
		default: slist_free(&c->u.s); break;
	}
	if(c->type <= AA) { for(int i = 0; i < NK; ++i) { if(c->has[i]) { gone(c, c->val[i], "free"); if(c->owns_keys) { gone(c, c->key[i], "free"); } } } }
	else if(c->type != BUF) { for(size_t i = 0; i < c->n; ++i) { gone(c, c->seq[i], "free"); } }
	/* stays busy */
}

static void
nest_case(uint64_t idx)
{
	bool large = idx % 32 == 31;
	NK = large ? 150 + (int)rng_below(R, MAXK - 150) : 40;
	MAXL = large ? MAXN : 48;
	np_list = (NPool){ { np_alloc, np_free }, sizeof(ListItem), 0 };
	np_slist = (NPool){ { np_alloc, np_free }, sizeof(SListItem), 0 };
	np_rb = (NPool){ { np_alloc, np_free }, sizeof(RBNode), 0 };
	mp_list = memory_pool_new(sizeof(ListItem), 2 + rng_below(R, 20));
	mp_slist = memory_pool_new(sizeof(SListItem), 2 + rng_below(R, 20));
	mp_rb = memory_pool_new(sizeof(RBNode), 2 + rng_below(R, 20));
	for(int i = 0; i < NK; ++i) { skey[i] = (Val){ MAGIC, i, CALLER }; }
	depth = fill = 0;
	nc = 2 + (int)rng_below(R, NC - 1);
	/* all of one type, or a mixture; the first ones while the others do not exist yet */
	int one = (int)(idx % (NTYPE + 5)), n = nc;
	chance = 0;
	for(nc = 0; nc < n; ++nc) { init(&C[nc], one < NTYPE && (one != BUF || nc > 1) && rng_pct(R, 80) ? one : (int)rng_below(R, NTYPE), nc); }
	chance = 2 + (int)rng_below(R, rng_u64(R) & 1 ? 10 : 30);
	if(large) { chance = 1 + chance / 8; fill = 1; }
	int nops = (60 + (int)rng_below(R, 200)) * (large ? 12 : 1);
	for(int i = 0; i < nops; ++i)
	{
		op(&C[rng_below(R, nc)]);
		/* one goes, another comes */
		if(!fill && rng_pct(R, 2))
		{
			Cont *c = &C[rng_below(R, nc)];
			int id = c->id, type = c->type;
			fini(c);
			init(c, type, id);
		}
	}
	for(int i = 0; i < nc; ++i) { fini(&C[i]); }
	VF_CHECK(MON_NEST, !np_list.live && !np_slist.live && !np_rb.live, "pool", "nodes are not given back: %zu, %zu, %zu", np_list.live, np_slist.live, np_rb.live);
	memory_pool_destroy(mp_list);
	memory_pool_destroy(mp_slist);
	memory_pool_destroy(mp_rb);
}

/* ---- containers in containers ---- */
typedef struct Leaf { uint32_t magic; } Leaf;
static uint64_t leaves_released, leaves_made;
static void
d_leaf(void *p)
{
	Leaf *f = p;
	VF_CHECK(MON_NEST, f->magic == MAGIC, "leaf-twice", "an element is released twice");
	f->magic = 0;
	free(f);
	++leaves_released;
}
static void d_ht(void *p) { hashtable_destroy(p); }
static void d_rb(void *p) { rbtree_destroy(p); }
static void d_aa(void *p) { assoc_array_destroy(p); }
static void d_list(void *p) { list_destroy(p); }
static void d_slist(void *p) { slist_destroy(p); }
static void d_stack(void *p) { stack_destroy(p); }
static void d_queue(void *p) { queue_destroy(p); }
static void d_async(void *p) { async_queue_destroy(p); }
static void d_buf(void *p) { buffer_destroy(p); }
static const FreeFunc destroys[NTYPE] = { d_ht, d_rb, d_aa, d_list, d_list, d_slist, d_slist, d_stack, d_queue, d_async, d_buf };
#define P(n) ((void *)(uintptr_t)(n))
typedef struct { void *p; uint64_t leaves; } Child;
#define MAXCH 24
static void *build(int type, int level, uint64_t *leaves);
static Child
child(int type, int level)
{
	Child c = { NULL, 0 };
	if(type == NTYPE)
	{
		Leaf *f = xmalloc(sizeof *f);
		f->magic = MAGIC;
		++leaves_made;
		c.p = f;
		c.leaves = 1;
	}
	else { c.p = build(type, level, &c.leaves); }
	return c;
}
/* a container with random elements, after some changes; its elements are all of one type */
static void *
build(int type, int level, uint64_t *leaves)
{
	Child ch[MAXCH];
	int key[MAXCH], n = 0, nops = (int)rng_below(R, level == 0 ? 12 : level == 1 ? 8 : 14), sub = level <= 0 || rng_pct(R, 20) ? NTYPE : (int)rng_below(R, BUF + 1);
	FreeFunc fr = sub == NTYPE ? d_leaf : destroys[sub];
	void *c;
	switch(type)
	{
		case HT: c = hashtable_new(rng_u64(R) & 1 ? HASHTABLE_AUTO_RESIZE : 1 + rng_below(R, 5), direct_hash, direct_equal, NULL, fr); break;
		case RB: c = rbtree_new(direct_compare, NULL, fr, NULL); break;
		case AA: c = assoc_array_new(direct_compare, NULL, fr); break;
		case LIST: case LSORT: c = list_new(direct_compare, fr, NULL); break;
		case ASYNC: c = async_queue_new(direct_compare, fr, NULL); break;
		case STACK: c = stack_new(direct_compare, fr, NULL); break;
		case QUEUE: c = queue_new(direct_compare, fr, NULL); break;
		case BUF: c = buffer_new(1000); buffer_fill(c, "some text", 9); *leaves = 0; return c;
		default: c = slist_new(direct_compare, fr, NULL); break;
	}
	for(int i = 0; i < nops; ++i)
	{
		uint64_t before = leaves_released, want = 0;
		int x = (int)rng_below(R, 100);
		vf_op("build", type, x);
		++calls;
		if((x < 70 || !n) && n < MAXCH)
		{
			Child e = child(sub, level - 1);
			before = leaves_released;
			int k = 1 + (int)rng_below(R, 12);
			if(type <= AA)
			{
				int at = -1;
				for(int j = 0; j < n; ++j) { if(key[j] == k) { at = j; } }
				if(type == HT) { hashtable_set(c, P(k), e.p, x & 1); } else if(type == RB) { rbtree_set(c, P(k), e.p, x & 1); } else { assoc_array_set(c, P(k), e.p, x & 1); }
				if(at >= 0) { want = ch[at].leaves; ch[at] = e; } else { key[n] = k; ch[n++] = e; }
			}
			else
			{
				bool front = type == STACK || ((type == LIST || type == SLIST) && (x & 1));
				switch(type)
				{
					case LIST: if(front) { list_prepend(c, e.p); } else { list_append(c, e.p); } break;
					case LSORT: list_append(c, e.p); break;
					case SLIST: if(front) { slist_prepend(c, e.p); } else { slist_append(c, e.p); } break;
					case SSORT: slist_append(c, e.p); break;
					case STACK: stack_push((Stack *)c, e.p); break;
					case QUEUE: queue_push((Queue *)c, e.p); break;
					default: async_queue_push(c, e.p); break;
				}
				if(front) { memmove(ch + 1, ch, (size_t)n * sizeof *ch); ch[0] = e; } else { ch[n] = e; }
				++n;
			}
		}
		else if(x < 95 && n)
		{
			int at = (int)rng_below(R, n);
			if(type <= AA)
			{
				if(type == HT) { hashtable_remove(c, P(key[at])); } else if(type == RB) { rbtree_remove(c, P(key[at])); } else { assoc_array_remove(c, P(key[at])); }
				want = ch[at].leaves;
				key[at] = key[n - 1];
				ch[at] = ch[--n];
			}
			else if(type == LIST || type == LSORT) { list_remove_by_data(c, ch[at].p, x & 1); want = ch[at].leaves; memmove(ch + at, ch + at + 1, (size_t)(--n - at) * sizeof *ch); }
			else if(type == SLIST || type == SSORT) { slist_remove_by_data(c, ch[at].p, x & 1); want = ch[at].leaves; memmove(ch + at, ch + at + 1, (size_t)(--n - at) * sizeof *ch); }
			else
			{
				void *d = NULL;
				bool ok = type == STACK ? stack_pop((Stack *)c, &d) : type == QUEUE ? queue_pop((Queue *)c, &d) : async_queue_pop(c, &d);
				VF_CHECK(MON_NEST, ok && d == ch[0].p, "own-pop", "%s: pop gives another element", tname[type]);
				VF_CHECK(MON_NEST, leaves_released == before, "own-pop", "%s: pop releases something", tname[type]);
				/* the caller's now */
				(sub == NTYPE ? d_leaf : destroys[sub])(d);
				want = ch[0].leaves;
				memmove(ch, ch + 1, (size_t)--n * sizeof *ch);
			}
		}
		else
		{
			switch(type)
			{
				case HT: hashtable_clear(c); break;
				case RB: rbtree_clear(c); break;
				case AA: assoc_array_clear(c); break;
				case LIST: case LSORT: list_clear(c); break;
				case ASYNC: async_queue_clear(c); break;
				default: slist_clear(c); break;
			}
			for(int j = 0; j < n; ++j) { want += ch[j].leaves; }
			n = 0;
		}
		VF_CHECK(MON_NEST, leaves_released - before == want, "own-release", "%s at level %d: %lu elements at the bottom are released, should be %lu", tname[type], level, (unsigned long)(leaves_released - before), (unsigned long)want);
	}
	*leaves = 0;
	for(int j = 0; j < n; ++j) { *leaves += ch[j].leaves; }
	return c;
}
static void
own_case(uint64_t idx)
{
	leaves_made = leaves_released = 0;
	int type = (int)(idx % BUF);
	uint64_t l = 0;
	void *c = build(type, 3, &l);
	VF_CHECK(MON_NEST, leaves_made - leaves_released == l, "own-release", "%lu elements at the bottom are left, should be %lu", (unsigned long)(leaves_made - leaves_released), (unsigned long)l);
	vf_op("destroy", type, (int64_t)l);
	destroys[type](c);
	VF_CHECK(MON_NEST, leaves_made == leaves_released, "own-release", "%s: %lu of %lu elements at the bottom are never released", tname[type], (unsigned long)(leaves_made - leaves_released), (unsigned long)leaves_made);
	vf_count_add("elements at the bottom", leaves_made);
}

void
run_case(const char *mode, uint64_t idx, Rng *rng)
{
	R = rng;
	nested = calls = callbacks = 0;
	deepest = 0;
	memset(within, 0, sizeof within);
	int64_t bytes = VF_GET(vf_live_bytes), blocks = VF_GET(vf_live_blocks);
	bool own = !strcmp(mode, "nest-own");
	if(own) { own_case(idx); } else { nest_case(idx); }
	VF_CHECK(MON_NEST, VF_GET(vf_live_bytes) == bytes && VF_GET(vf_live_blocks) == blocks, "left-behind", "%ld bytes in %ld blocks are left behind", (long)(VF_GET(vf_live_bytes) - bytes), (long)(VF_GET(vf_live_blocks) - blocks));
	vf_count_add("calls", calls);
	vf_count_add("callbacks", callbacks);
	vf_count_add("calls made by callbacks", nested);
	vf_count_max("deepest nesting", (uint64_t)deepest);
	if(vf_want_sample()) { if(own) { vf_sample("%lu elements at the bottom of up to 4 levels", (unsigned long)leaves_made); } else { vf_sample("%d containers, %lu calls, %lu of them by callbacks, up to %d deep", nc, (unsigned long)calls, (unsigned long)nested, deepest); } }
	vf_case_done(own ? leaves_made > 0 : nested > 0);
}
