/* Threads with containers of their own, and threads that share a container they only
 * read: results against simple models, races by ThreadSanitizer. */
#include "vf.h"

#include <limits.h>
#include <pthread.h>
#include <sched.h>
#include <stdatomic.h>
#include <unistd.h>

#define MAXT 8
#define U 1600 /* keys there are */
static char keytab[U][20], ktab2[U][20];
static uint32_t weak_hash(const void *p) { return (uint32_t)(((const char *)p)[0] & 7); }
static int32_t cmp_str(const void *a, const void *b) { return strcmp(a, b); }

static int NK = 64; /* keys in use */
enum { T_HT, T_RB, T_AA, T_LIST, T_SLIST, T_QUEUE, T_STACK, T_POOL, T_BUFFER, T_ASYNC, T_FUNC, NTYPE };
static const char *tnames[] = { "hash table", "tree", "assoc array", "list", "slist", "queue", "stack", "pool", "buffer", "async queue", "functions" };

typedef struct
{
	int id, type, n, spin;
	Rng rng;
	uint64_t released, expected; /* of its own free callback */
	uint64_t checks, ops, h;
	pthread_t th;
} Thr;
static Thr T[MAXT];
static int nt;
static _Atomic int gate;

/* which thread's objects a callback gets: the object says whose it is */
typedef struct { Thr *owner; int k; } Val;
static int32_t cmp_val(const void *a, const void *b) { int x = ((const Val *)a)->k, y = ((const Val *)b)->k; return (x > y) - (x < y); }
static __thread Thr *me;
static void
free_val(void *p)
{
	Val *v = p;
	VF_CHECK(MON_FUNC, v->owner == me, "foreign-callback", "thread %d gets an object of thread %d in its free callback", me->id, v->owner->id);
	++me->released;
	free(v);
}
static Val *
new_val(Thr *t, int k)
{
	Val *v = xmalloc(sizeof *v);
	v->owner = t;
	v->k = k;
	return v;
}
#define OK(cond, ...) do { ++t->checks; if(!(cond)) { vf_fail("own-answer", __VA_ARGS__); } } while(0)
static void
pause_some(Thr *t)
{
	if(t->spin && rng_pct(&t->rng, 8)) { sched_yield(); }
}

/* ---- one container, one thread ---- */
static void
own_map(Thr *t)
{
	Val **model = xcalloc(U, sizeof *model);
	size_t count = 0;
	/* many keys: the table has to grow, everywhere at once */
	int NK = rng_pct(&t->rng, 25) ? U : 64, n_ops = NK == U ? t->n * 5 : t->n, x_set = NK == U ? 65 : 45;
	HashTable ht;
	RBTree rb;
	AssocArray aa;
	MemoryPool *mp = NULL;
	Rng *r = &t->rng;
	if(t->type == T_RB && rng_pct(r, 50)) { mp = memory_pool_new(sizeof(RBNode), 2 + rng_below(r, 9)); }
	if(t->type == T_HT) { hashtable_init(&ht, rng_pct(r, 60) ? HASHTABLE_AUTO_RESIZE : 1 + rng_below(r, 12), rng_pct(r, 50) ? str_hash : weak_hash, str_equal, NULL, free_val); }
	else if(t->type == T_RB) { rbtree_init(&rb, cmp_str, NULL, free_val, (Pool *)mp); }
	else { assoc_array_init(&aa, cmp_str, NULL, free_val); }
	for(int i = 0; i < n_ops; ++i)
	{
		int k = (int)rng_below(r, NK), x = (int)rng_below(r, 100);
		++t->ops;
		pause_some(t);
		if(x < x_set)
		{
			Val *v = new_val(t, k);
			int isnew = t->type == T_HT ? hashtable_set(&ht, keytab[k], v, rng_pct(r, 50)) == HASHTABLE_INSERT_RESULT_NEW
			    : t->type == T_RB ? rbtree_set(&rb, keytab[k], v, rng_pct(r, 50)) == RBTREE_INSERT_RESULT_NEW
			    : assoc_array_set(&aa, keytab[k], v, rng_pct(r, 50)) == ASSOCARRAY_INSERT_RESULT_NEW;
			OK(isnew == !model[k], "%s: set says %s", tnames[t->type], isnew ? "new" : "replaced");
			t->expected += model[k] != NULL;
			count += !model[k];
			model[k] = v;
		}
		else if(x < x_set + (100 - x_set) * 2 / 5)
		{
			if(t->type == T_HT) { hashtable_remove(&ht, ktab2[k]); }
			else if(t->type == T_RB) { bool was = rbtree_remove(&rb, ktab2[k]); OK(was == !!model[k], "tree: wrong answer from remove"); }
			else { assoc_array_remove(&aa, ktab2[k]); }
			t->expected += model[k] != NULL;
			count -= model[k] != NULL;
			model[k] = NULL;
		}
		else if(x < 92)
		{
			Val *v = NULL;
			Val *w = rng_pct(r, 20) && model[k] ? new_val(t, k) : NULL;
			char *key = NULL;
			if(t->type == T_HT) { HashTablePair *p = hashtable_lookup(&ht, ktab2[k]); if(p) { v = hashtable_pair_get_value(p); key = hashtable_pair_get_key(p); pause_some(t); OK(hashtable_pair_key(p) == key && hashtable_pair_value(p) == (void *)v, "hash table: a pair changes"); if(w) { hashtable_pair_set_value(p, w); } } }
			else if(t->type == T_RB) { RBTreePair *p = rbtree_lookup(&rb, ktab2[k]); if(p) { v = rbtree_pair_get_value(p); key = rbtree_pair_get_key(p); pause_some(t); OK(rbtree_pair_key(p) == key && rbtree_pair_value(p) == (void *)v, "tree: a pair changes"); if(w) { rbtree_pair_set_value(p, w); } } }
			else { AssocArrayPair *p = assoc_array_lookup(&aa, ktab2[k]); if(p) { v = assoc_array_pair_get_value(p); key = assoc_array_pair_get_key(p); pause_some(t); OK(assoc_array_pair_key(p) == key && assoc_array_pair_value(p) == (void *)v, "assoc array: a pair changes"); if(w) { assoc_array_pair_set_value(p, w); } } }
			OK(key == (v ? keytab[k] : NULL), "%s: lookup gives the wrong key", tnames[t->type]);
			OK(v == model[k], "%s: lookup gives the wrong value", tnames[t->type]);
			if(v && !w) { OK(v->owner == t && v->k == k, "%s: lookup gives a foreign value", tnames[t->type]); }
			if(w) { model[k] = w; ++t->expected; }
			bool ex = t->type == T_HT ? hashtable_key_exists(&ht, ktab2[k]) : t->type == T_RB ? rbtree_key_exists(&rb, ktab2[k]) : assoc_array_key_exists(&aa, ktab2[k]);
			OK(ex == !!model[k], "%s: wrong answer about a key", tnames[t->type]);
		}
		else if(x < 99 && (NK < U || rng_pct(r, 10)))
		{
			size_t n = 0;
			if(t->type == T_HT) { HashTableIter it; hashtable_iter_init(&ht, &it); while(hashtable_iter_next(&it)) { Val *v = hashtable_iter_get_value(&it); OK(v && v->owner == t && model[v->k] == v, "hash table: iteration gives a wrong value"); ++n; } }
			else if(t->type == T_RB) { RBTreeIter it; rbtree_iter_init(&rb, &it); if(rng_pct(r, 30)) { for(int j = (int)rng_below(r, 20); j > 0 && rbtree_iter_next(&it); --j) { } pause_some(t); rbtree_iter_reuse(&rb, &it); } while(rbtree_iter_next(&it)) { Val *v = rbtree_iter_get_value(&it); OK(v && v->owner == t && model[v->k] == v, "tree: iteration gives a wrong value"); ++n; } rbtree_iter_free(&it); }
			else { AssocArrayIter it; assoc_array_iter_init(&aa, &it); while(assoc_array_iter_next(&it)) { Val *v = assoc_array_iter_get_value(&it); OK(v && v->owner == t && model[v->k] == v, "assoc array: iteration gives a wrong value"); ++n; } }
			OK(n == count, "%s: iteration gives %zu of %zu entries", tnames[t->type], n, count);
		}
		else if(x == 99 && rng_pct(r, NK < U ? 100 : 5))
		{
			if(t->type == T_HT) { hashtable_clear(&ht); } else if(t->type == T_RB) { rbtree_clear(&rb); } else { assoc_array_clear(&aa); }
			t->expected += count;
			count = 0;
			memset(model, 0, U * sizeof *model);
		}
		size_t c = t->type == T_HT ? hashtable_count(&ht) : t->type == T_RB ? rbtree_count(&rb) : assoc_array_count(&aa);
		OK(c == count, "%s: %zu entries counted, %zu expected", tnames[t->type], c, count);
		OK(t->released == t->expected, "%s: %lu values released, %lu expected", tnames[t->type], (unsigned long)t->released, (unsigned long)t->expected);
	}
	if(t->type == T_HT) { hashtable_free(&ht); } else if(t->type == T_RB) { rbtree_free(&rb); } else { assoc_array_free(&aa); }
	t->expected += count;
	OK(t->released == t->expected, "%s: %lu values released in the end, %lu expected", tnames[t->type], (unsigned long)t->released, (unsigned long)t->expected);
	if(mp) { memory_pool_destroy(mp); }
	free(model);
}
static void
own_list(Thr *t)
{
	enum { CAP = 200 };
	Val *m[CAP];
	int n = 0;
	List dl;
	SList sl;
	AsyncQueue aq;
	Rng *r = &t->rng;
	MemoryPool *mp = rng_pct(r, 50) ? memory_pool_new(sizeof(ListItem), 2 + rng_below(r, 20)) : NULL;
	switch(t->type)
	{
		case T_LIST: list_init(&dl, cmp_val, free_val, (Pool *)mp); break;
		case T_SLIST: slist_init(&sl, cmp_val, free_val, (Pool *)mp); break;
		case T_QUEUE: queue_init(&sl, cmp_val, free_val, (Pool *)mp); break;
		case T_STACK: stack_init(&sl, cmp_val, free_val, (Pool *)mp); break;
		default: async_queue_init(&aq, cmp_val, free_val, (Pool *)mp); break;
	}
	bool lists = t->type == T_LIST || t->type == T_SLIST, sorted = lists && rng_pct(r, 35);
	for(int i = 0; i < t->n; ++i)
	{
		int x = (int)rng_below(r, 100);
		++t->ops;
		pause_some(t);
		if(x < 55 && n < CAP)
		{
			Val *v = new_val(t, sorted ? (int)rng_below(r, 100000) * 10000 + i % 10000 : (int)rng_below(r, 60));
			if(sorted)
			{
				int at = 0;
				while(at < n && m[at]->k < v->k) { ++at; }
				void *d = t->type == T_LIST ? list_item_get_data(list_insert_sorted(&dl, v)) : slist_item_get_data(slist_insert_sorted(&sl, v));
				OK(d == v, "%s: sorted insertion returns a wrong item", tnames[t->type]);
				memmove(m + at + 1, m + at, (size_t)(n - at) * sizeof *m);
				m[at] = v;
				++n;
				continue;
			}
			bool front = t->type == T_STACK || (lists && rng_pct(r, 50));
			switch(t->type)
			{
				case T_LIST: if(front) { list_prepend(&dl, v); } else { list_append(&dl, v); } break;
				case T_SLIST: if(front) { slist_prepend(&sl, v); } else { slist_append(&sl, v); } break;
				case T_QUEUE: queue_push(&sl, v); break;
				case T_STACK: stack_push(&sl, v); break;
				default: async_queue_push(&aq, v); break;
			}
			if(front) { memmove(m + 1, m, (size_t)n * sizeof *m); m[0] = v; } else { m[n] = v; }
			++n;
		}
		else if(x < 72 && lists)
		{
			/* search for some element and remove it in one way or another */
			Val probe = { .owner = t, .k = n ? m[rng_below(r, (uint64_t)n)]->k + (int)rng_below(r, 2) : 0 };
			int at = 0, how = (int)rng_below(r, 4), gone = 0, left = 0;
			while(at < n && m[at]->k != probe.k) { ++at; }
			int first = at;
			Val *rest[CAP];
			for(int j = 0; j < n; ++j) { if(m[j]->k != probe.k) { rest[left++] = m[j]; } }
			if(t->type == T_LIST)
			{
				ListItem *it = list_find(&dl, list_head(&dl), &probe);
				pause_some(t);
				OK(list_contains(&dl, &probe) == (at < n), "list: contains gives a wrong answer");
				OK(!!it == (at < n) && (!it || ((Val *)list_item_get_data(it))->k == probe.k), "list: find gives a wrong answer");
				/* any match will do */
				for(int j = at; it && j < n; ++j) { if(m[j] == list_item_get_data(it)) { at = j; } }
				if(it && how == 0) { list_remove(&dl, it); gone = 1; }
				if(it && how == 1) { list_item_free_data(&dl, it); ++t->expected; m[at] = new_val(t, probe.k); list_item_set_data(it, m[at]); }
				if(how >= 2) { list_remove_by_data(&dl, &probe, how == 3); }
			}
			else
			{
				SListItem *it = slist_find(&sl, slist_head(&sl), &probe);
				pause_some(t);
				OK(slist_contains(&sl, &probe) == (at < n), "slist: contains gives a wrong answer");
				OK(!!it == (at < n) && (!it || slist_item_get_data(it) == m[at]), "slist: find gives a wrong answer");
				if(it && how == 0) { slist_remove(&sl, it); gone = 1; }
				if(it && how == 1) { slist_item_free_data(&sl, it); ++t->expected; m[at] = new_val(t, probe.k); slist_item_set_data(it, m[at]); }
				if(how >= 2) { slist_remove_by_data(&sl, &probe, how == 3); }
			}
			if(how == 2) { at = first; gone = at < n; }
			if(how == 3) { memcpy(m, rest, (size_t)left * sizeof *m); t->expected += (uint64_t)(n - left); n = left; }
			if(gone) { memmove(m + at, m + at + 1, (size_t)(n - at - 1) * sizeof *m); --n; ++t->expected; }
		}
		else if(x < 90)
		{
			void *v = NULL;
			bool got = n > 0;
			switch(t->type)
			{
				case T_LIST: if(n) { v = list_pop(&dl); } break;
				case T_SLIST: if(n) { v = slist_pop(&sl); } break;
				case T_QUEUE: got = queue_pop(&sl, &v); break;
				case T_STACK: got = stack_pop(&sl, &v); break;
				default: got = rng_pct(r, 50) && n ? async_queue_pop(&aq, &v) : async_queue_pop_timeout(&aq, &v, 0); break;
			}
			OK(got == (n > 0), "%s: pop %s with %d items", tnames[t->type], got ? "succeeds" : "fails", n);
			if(n)
			{
				OK(v == m[0], "%s: pop gives a wrong item", tnames[t->type]);
				memmove(m, m + 1, (size_t)--n * sizeof *m);
				free(v);
			}
		}
		else if(x < 98)
		{
			int k = 0;
			if(t->type == T_LIST) { for(ListItem *it = list_head(&dl); it; it = list_item_next(it)) { OK(k < n && list_item_get_data(it) == m[k], "list: wrong item at %d", k); ++k; } OK(k == n, "list: %d items, %d expected", k, n); }
			if(t->type == T_SLIST) { for(SListItem *it = slist_head(&sl); it; it = slist_item_next(it)) { OK(k < n && slist_item_get_data(it) == m[k], "slist: wrong item at %d", k); ++k; } OK(k == n, "slist: %d items, %d expected", k, n); }
			if(t->type == T_QUEUE || t->type == T_STACK) { void *v = NULL; OK(stack_head(&sl, &v) == (n > 0) && (!n || v == m[0]), "%s: peek gives a wrong item", tnames[t->type]); }
		}
		else
		{
			switch(t->type)
			{
				case T_LIST: list_clear(&dl); break;
				case T_SLIST: case T_QUEUE: case T_STACK: stack_clear(&sl); break;
				default: async_queue_clear(&aq); break;
			}
			t->expected += (uint64_t)n;
			n = 0;
		}
		size_t c = t->type == T_LIST ? list_count(&dl) : t->type == T_ASYNC ? async_queue_count(&aq) : slist_count(&sl);
		OK(c == (size_t)n, "%s: %zu items counted, %d expected", tnames[t->type], c, n);
		OK(t->released == t->expected, "%s: %lu items released, %lu expected", tnames[t->type], (unsigned long)t->released, (unsigned long)t->expected);
	}
	switch(t->type)
	{
		case T_LIST: list_free(&dl); break;
		case T_ASYNC: async_queue_free(&aq); break;
		default: stack_free(&sl); break;
	}
	t->expected += (uint64_t)n;
	OK(t->released == t->expected, "%s: %lu items released in the end, %lu expected", tnames[t->type], (unsigned long)t->released, (unsigned long)t->expected);
	if(mp) { memory_pool_destroy(mp); }
}
static void
own_pool(Thr *t)
{
	enum { CAP = 128 };
	unsigned char *in[CAP];
	unsigned char mark[CAP];
	int n = 0;
	Rng *r = &t->rng;
	size_t size = 2 + rng_below(r, 120);
	MemoryPool *mp = memory_pool_new(size, 2 + rng_below(r, 30));
	Pool *p = (Pool *)mp;
	for(int i = 0; i < t->n; ++i)
	{
		++t->ops;
		pause_some(t);
		if(n < CAP && (!n || rng_pct(r, 55)))
		{
			in[n] = p->alloc(p);
			mark[n] = (unsigned char)(t->id * 37 + i);
			memset(in[n], mark[n], size);
			++n;
		}
		else
		{
			int k = (int)rng_below(r, (uint64_t)n);
			for(size_t j = 0; j < size; ++j) { if(in[k][j] != mark[k]) { OK(false, "pool: an item changed"); } }
			++t->checks;
			p->free(p, in[k]);
			--n;
			in[k] = in[n];
			mark[k] = mark[n];
		}
	}
	memory_pool_destroy(mp);
}
static void
own_buffer(Thr *t)
{
	enum { CAP = 8000 };
	char *m = xmalloc(CAP), chunk[600];
	size_t n = 0, dlen = 0;
	char *dst = NULL;
	Rng *r = &t->rng;
	int fds[2];
	if(pipe(fds)) { fprintf(stderr, "harness: pipe\n"); _exit(77); }
	Buffer b;
	buffer_init(&b, 1 << 20);
	for(int i = 0; i < t->n; ++i)
	{
		int x = (int)rng_below(r, 100);
		++t->ops;
		pause_some(t);
		if(x < 55)
		{
			size_t len = rng_below(r, rng_pct(r, 20) ? sizeof chunk : 40);
			if(n + len >= CAP) { buffer_clear(&b); n = 0; }
			for(size_t k = 0; k < len; ++k) { chunk[k] = rng_pct(r, 4) ? '\n' : (char)('A' + (t->id * 5 + (int)k) % 50); }
			if(x < 45) { OK(buffer_fill(&b, chunk, len), "buffer: a write fails"); }
			else
			{
				if(write(fds[1], chunk, len) != (ssize_t)len) { _exit(77); }
				if(len) { ssize_t got = buffer_fill_from_fd(&b, fds[0], len); OK(got == (ssize_t)len, "buffer: %zd of %zu bytes read from a pipe", got, len); }
			}
			memcpy(m + n, chunk, len);
			n += len;
		}
		else if(x < 80)
		{
			char *nl = memchr(m, '\n', n);
			bool got = buffer_read_line(&b, &dst, &dlen);
			OK(got == !!nl, "buffer: wrong answer from read line");
			if(nl)
			{
				size_t l = (size_t)(nl - m);
				OK(!memcmp(dst, m, l) && !dst[l], "buffer: wrong line");
				n -= l + 1;
				memmove(m, nl + 1, n);
			}
		}
		else if(x < 90)
		{
			bool got = buffer_flush(&b, &dst, &dlen);
			if(n) { OK(got && !memcmp(dst, m, n) && !dst[n], "buffer: wrong content"); }
		}
		else if(x < 95)
		{
			char *s = buffer_to_string(&b);
			if(n) { OK(s && !memcmp(s, m, n) && !s[n], "buffer: wrong string"); }
			vf_free(s);
		}
		else if(x < 97) { buffer_clear(&b); n = 0; }
		else { vf_free(dst); dst = NULL; dlen = 0; }
		OK(buffer_len(&b) == n, "buffer: length %zu, %zu expected", buffer_len(&b), n);
	}
	buffer_free(&b);
	vf_free(dst);
	free(m);
	close(fds[0]);
	close(fds[1]);
}
/* ---- large containers: every growth step, everywhere at once ---- */
static int big_n; /* entries in them; 0: small ones */
static uint32_t big_hash(const void *p) { return (uint32_t)((uintptr_t)p * 2654435761u); }
static int32_t big_cmp(const void *a, const void *b) { return (a > b) - (a < b); }
static bool big_eq(const void *a, const void *b) { return a == b; }
static void
own_big(Thr *t)
{
	Rng *r = &t->rng;
	const char *nm = tnames[t->type];
	uintptr_t tag = (uintptr_t)(t->id + 1) << 40;
	MemoryPool *mp = NULL;
	for(int round = 0; round < 3; ++round)
	{
		size_t n = (size_t)big_n >> round, drop = rng_below(r, n), seen = 0;
		n -= rng_below(r, n / 8 + 1);
		if(drop > n) { drop = n; }
		t->ops += n;
		switch(t->type)
		{
			case T_HT: case T_RB: case T_AA:
			{
				static __thread HashTable ht;
				static __thread RBTree rb;
				static __thread AssocArray aa;
				/* the third time with what the second one has left */
				if(round == 0 || (round == 1 && rng_pct(r, 50)))
				{
					if(round) { if(t->type == T_HT) { hashtable_free(&ht); } else if(t->type == T_RB) { rbtree_free(&rb); } else { assoc_array_free(&aa); } }
					if(t->type == T_HT) { hashtable_init(&ht, HASHTABLE_AUTO_RESIZE, big_hash, big_eq, NULL, NULL); }
					else if(t->type == T_RB)
					{
						if(!mp && rng_pct(r, 40)) { mp = memory_pool_new(sizeof(RBNode), 2 + rng_below(r, 900)); }
						rbtree_init(&rb, big_cmp, NULL, NULL, (Pool *)mp);
					}
					else { assoc_array_init(&aa, big_cmp, NULL, NULL); }
				}
				else if(t->type == T_HT) { hashtable_clear(&ht); }
				else if(t->type == T_RB) { rbtree_clear(&rb); }
				else { assoc_array_clear(&aa); }
				for(uintptr_t i = 1; i <= n; ++i)
				{
					void *k = (void *)i, *v = (void *)(tag | i);
					int res = t->type == T_HT ? (int)hashtable_set(&ht, k, v, false) : t->type == T_RB ? (int)rbtree_set(&rb, k, v, false) : (int)assoc_array_set(&aa, k, v, false);
					int want = t->type == T_HT ? (int)HASHTABLE_INSERT_RESULT_NEW : t->type == T_RB ? (int)RBTREE_INSERT_RESULT_NEW : (int)ASSOCARRAY_INSERT_RESULT_NEW;
					if(res != want) { OK(false, "%s: entry %lu of %zu isn't new", nm, (unsigned long)i, n); }
					if(!(i & 1023)) { pause_some(t); }
				}
				for(uintptr_t i = 1; i <= drop; ++i)
				{
					/* from the end: cheap in an array */
					void *k = (void *)(n + 1 - i);
					if(t->type == T_HT) { hashtable_remove(&ht, k); } else if(t->type == T_RB) { rbtree_remove(&rb, k); } else { assoc_array_remove(&aa, k); }
				}
				size_t left = n - drop, c = t->type == T_HT ? hashtable_count(&ht) : t->type == T_RB ? rbtree_count(&rb) : assoc_array_count(&aa);
				OK(c == left, "%s: %zu entries counted, %zu expected", nm, c, left);
				for(uintptr_t i = 1; i <= n; ++i)
				{
					void *k = (void *)i, *v = NULL;
					if(t->type == T_HT) { HashTablePair *p = hashtable_lookup(&ht, k); v = p ? hashtable_pair_get_value(p) : NULL; }
					else if(t->type == T_RB) { RBTreePair *p = rbtree_lookup(&rb, k); v = p ? rbtree_pair_get_value(p) : NULL; }
					else { AssocArrayPair *p = assoc_array_lookup(&aa, k); v = p ? assoc_array_pair_get_value(p) : NULL; }
					if(v != (i <= left ? (void *)(tag | i) : NULL)) { OK(false, "%s: lookup of key %lu of %zu gives %p", nm, (unsigned long)i, left, v); }
				}
				if(t->type == T_HT) { HashTableIter it; hashtable_iter_init(&ht, &it); while(hashtable_iter_next(&it)) { ++seen; if((uintptr_t)hashtable_iter_get_value(&it) >> 40 != tag >> 40) { OK(false, "%s: iteration gives a foreign value", nm); } } }
				else if(t->type == T_RB) { RBTreeIter it; rbtree_iter_init(&rb, &it); while(rbtree_iter_next(&it)) { ++seen; if((uintptr_t)rbtree_iter_get_value(&it) >> 40 != tag >> 40) { OK(false, "%s: iteration gives a foreign value", nm); } } rbtree_iter_free(&it); }
				else { AssocArrayIter it; assoc_array_iter_init(&aa, &it); while(assoc_array_iter_next(&it)) { ++seen; if((uintptr_t)assoc_array_iter_get_value(&it) >> 40 != tag >> 40) { OK(false, "%s: iteration gives a foreign value", nm); } } }
				OK(seen == left, "%s: iteration gives %zu of %zu entries", nm, seen, left);
				if(round == 2) { if(t->type == T_HT) { hashtable_free(&ht); } else if(t->type == T_RB) { rbtree_free(&rb); if(mp) { memory_pool_destroy(mp); } } else { assoc_array_free(&aa); } }
				break;
			}
			case T_LIST: case T_SLIST: case T_QUEUE: case T_STACK: case T_ASYNC:
			{
				/* in at one end, out at the same or at the other one */
				List dl; SList sl; AsyncQueue aq;
				Pool *lp = rng_pct(r, 50) ? (Pool *)memory_pool_new(sizeof(ListItem), 2 + rng_below(r, 900)) : NULL;
				switch(t->type)
				{
					case T_LIST: list_init(&dl, big_cmp, NULL, lp); break;
					case T_SLIST: slist_init(&sl, big_cmp, NULL, lp); break;
					case T_QUEUE: queue_init(&sl, big_cmp, NULL, lp); break;
					case T_STACK: stack_init(&sl, big_cmp, NULL, lp); break;
					default: async_queue_init(&aq, big_cmp, NULL, lp); break;
				}
				uintptr_t in = 0, out = 0; /* first in, first out */
				for(int half = 0; half < 2; ++half)
				{
					for(size_t i = 0; i < n; ++i)
					{
						void *v = (void *)(tag | ++in);
						switch(t->type)
						{
							case T_LIST: list_append(&dl, v); break;
							case T_SLIST: slist_append(&sl, v); break;
							case T_QUEUE: queue_push(&sl, v); break;
							case T_STACK: stack_push(&sl, v); break;
							default: async_queue_push(&aq, v); break;
						}
						if(!(i & 1023)) { pause_some(t); }
					}
					size_t take = half ? in - out : drop;
					for(size_t i = 0; i < take; ++i)
					{
						void *v = NULL;
						bool ok = true;
						switch(t->type)
						{
							case T_LIST: v = list_pop(&dl); break;
							case T_SLIST: v = slist_pop(&sl); break;
							case T_QUEUE: ok = queue_pop(&sl, &v); break;
							case T_STACK: ok = stack_pop(&sl, &v); break;
							default: ok = async_queue_pop(&aq, &v); break;
						}
						uintptr_t want = t->type == T_STACK ? in-- : ++out;
						if(!ok || v != (void *)(tag | want)) { OK(false, "%s: item %p, %p expected", nm, v, (void *)(tag | want)); }
					}
					size_t c = 0;
					switch(t->type)
					{
						case T_LIST: c = list_count(&dl); break;
						case T_SLIST: c = slist_count(&sl); break;
						case T_QUEUE: c = queue_count(&sl); break;
						case T_STACK: c = stack_count(&sl); break;
						default: c = async_queue_count(&aq); break;
					}
					OK(c == in - out, "%s: %zu items counted, %zu expected", nm, c, (size_t)(in - out));
				}
				switch(t->type)
				{
					case T_LIST: list_free(&dl); break;
					case T_SLIST: slist_free(&sl); break;
					case T_QUEUE: queue_free(&sl); break;
					case T_STACK: stack_free(&sl); break;
					default: async_queue_free(&aq); break;
				}
				if(lp) { memory_pool_destroy((MemoryPool *)lp); }
				break;
			}
			case T_POOL:
			{
				size_t size = sizeof(uintptr_t) * (1 + rng_below(r, 6));
				MemoryPool *pool = memory_pool_new(size, 2 + rng_below(r, rng_pct(r, 50) ? 8 : 5000));
				Pool *p = (Pool *)pool;
				uintptr_t **in = xmalloc(n * sizeof *in);
				for(int half = 0; half < 2; ++half)
				{
					for(size_t i = half ? n - drop : 0; i < n; ++i) { in[i] = p->alloc(p); for(size_t j = 0; j < size / sizeof **in; ++j) { in[i][j] = tag | (i + 1); } if(!(i & 1023)) { pause_some(t); } }
					for(size_t i = 0; i < n; ++i) { for(size_t j = 0; j < size / sizeof **in; ++j) { if(in[i][j] != (tag | (i + 1))) { OK(false, "pool: item %zu of %zu changed", i, n); } } }
					for(size_t i = half ? 0 : n - drop; i < n; ++i) { p->free(p, in[i]); }
					++t->checks;
				}
				memory_pool_destroy(pool);
				free(in);
				break;
			}
			case T_BUFFER:
			{
				size_t len = n * 40;
				char *m = xmalloc(len), *dst = NULL, chunk = (char)('A' + t->id);
				size_t dlen = 0, at = 0;
				memset(m, chunk, len);
				for(size_t i = 0; i < len; i += 1 + rng_below(r, 4000)) { m[i] = '\n'; }
				Buffer b;
				buffer_init(&b, (size_t)SSIZE_MAX - 1);
				while(at < len)
				{
					size_t c = 1 + rng_below(r, rng_pct(r, 10) ? len : 3000);
					if(c > len - at) { c = len - at; }
					if(!buffer_fill(&b, m + at, c)) { OK(false, "buffer: a write of %zu bytes fails", c); }
					at += c;
					pause_some(t);
				}
				OK(buffer_len(&b) == len, "buffer: length %zu, %zu expected", buffer_len(&b), len);
				OK(buffer_flush(&b, &dst, &dlen) && !memcmp(dst, m, len), "buffer: wrong content");
				at = 0;
				for(int i = 0; i < 40; ++i)
				{
					char *nl = memchr(m + at, '\n', len - at);
					bool got = buffer_read_line(&b, &dst, &dlen);
					OK(got == !!nl, "buffer: wrong answer from read line");
					if(!nl || !got) { break; }
					size_t l = (size_t)(nl - m) - at;
					OK(!memcmp(dst, m + at, l) && !dst[l], "buffer: wrong line");
					at += l + 1;
				}
				OK(buffer_len(&b) == len - at, "buffer: length %zu, %zu expected", buffer_len(&b), len - at);
				buffer_free(&b);
				vf_free(dst);
				free(m);
				break;
			}
			default: break;
		}
	}
}
static uint32_t khash[U];
static void
own_func(Thr *t)
{
	for(int i = 0; i < t->n; ++i)
	{
		int a = (int)rng_below(&t->rng, (uint64_t)NK), b = (int)rng_below(&t->rng, (uint64_t)NK);
		++t->ops;
		pause_some(t);
		OK(str_hash(ktab2[a]) == khash[a], "functions: str_hash changes its mind");
		OK(str_equal(keytab[a], ktab2[b]) == (a == b), "functions: wrong answer from str_equal");
		OK(direct_equal(keytab[a], keytab[b]) == (a == b), "functions: wrong answer from direct_equal");
		OK((direct_compare(keytab[a], keytab[b]) < 0) == (a < b), "functions: wrong answer from direct_compare");
		uintptr_t v = (uintptr_t)rng_below(&t->rng, 0xffffffffu);
		OK(direct_hash((void *)v) == direct_hash((void *)v), "functions: direct_hash changes its mind");
	}
}
static void
own_any(Thr *t)
{
	t->released = t->expected = 0;
	if(big_n && t->type != T_FUNC) { own_big(t); return; }
	switch(t->type)
	{
		case T_HT: case T_RB: case T_AA: own_map(t); break;
		case T_POOL: own_pool(t); break;
		case T_BUFFER: own_buffer(t); break;
		case T_FUNC: own_func(t); break;
		default: own_list(t); break;
	}
}
static void
wait_gate(void)
{
	atomic_fetch_sub(&gate, 1);
	while(atomic_load(&gate) > 0) { sched_yield(); }
}
static void *
own_main(void *p)
{
	Thr *t = me = p;
	wait_gate();
	own_any(t);
	if(rng_pct(&t->rng, 50))
	{
		t->type = (int)rng_below(&t->rng, NTYPE);
		t->n /= 2;
		own_any(t);
	}
	return NULL;
}

/* ---- one container, many readers ---- */
static struct
{
	HashTable *ht;
	RBTree *rb;
	AssocArray *aa;
	List *dl;
	SList *sl;
	Queue *q;
	Buffer *b;
	int val[U], has[U], nkeys, seq[300], nseq;
	char text[3000];
	size_t ntext;
} S;
#undef OK
#define OK(cond, ...) do { ++t->checks; if(!(cond)) { vf_fail("shared-answer", __VA_ARGS__); } } while(0)
static void
check_entry(Thr *t, const char *what, const char *key, const int *val)
{
	OK(key >= keytab[0] && key < keytab[U], "%s: iteration gives a foreign key", what);
	int k = (int)((key - keytab[0]) / (int)sizeof keytab[0]);
	OK(S.has[k] && val == &S.val[k], "%s: iteration gives a wrong entry", what);
}
static void *
shared_main(void *p)
{
	Thr *t = me = p;
	Rng *r = &t->rng;
	char *dst = NULL;
	size_t dlen = 0;
	wait_gate();
	for(int i = 0; i < t->n; ++i)
	{
		int k = (int)rng_below(r, (uint64_t)NK), n = 0;
		++t->ops;
		pause_some(t);
		switch(t->type >= 0 ? (int)(rng_below(r, 3) + (uint64_t)t->type * 3) : (int)rng_below(r, 21))
		{
			case 0: OK(hashtable_key_exists(S.ht, ktab2[k]) == S.has[k], "hash table: wrong answer"); break;
			case 1: OK(hashtable_count(S.ht) == (size_t)S.nkeys, "hash table: wrong count"); break;
			case 2:
			{
				HashTableIter it;
				hashtable_iter_init(S.ht, &it);
				while(hashtable_iter_next(&it)) { check_entry(t, "hash table", hashtable_iter_get_key(&it), hashtable_iter_get_value(&it)); ++n; }
				OK(n == S.nkeys, "hash table: iteration gives %d of %d entries", n, S.nkeys);
				break;
			}
			case 3: OK(rbtree_key_exists(S.rb, ktab2[k]) == S.has[k], "tree: wrong answer"); break;
			case 4: OK(rbtree_count(S.rb) == (size_t)S.nkeys, "tree: wrong count"); break;
			case 5:
			{
				RBTreeIter it;
				rbtree_iter_init(S.rb, &it);
				while(rbtree_iter_next(&it)) { check_entry(t, "tree", rbtree_iter_get_key(&it), rbtree_iter_get_value(&it)); ++n; }
				OK(n == S.nkeys, "tree: iteration gives %d of %d entries", n, S.nkeys);
				if(rng_pct(r, 30)) { rbtree_iter_reuse(S.rb, &it); OK(rbtree_iter_next(&it) == (S.nkeys > 0), "tree: a reused iterator gives a wrong answer"); }
				rbtree_iter_free(&it);
				break;
			}
			case 6: OK(assoc_array_key_exists(S.aa, ktab2[k]) == S.has[k], "assoc array: wrong answer"); break;
			case 7: OK(assoc_array_count(S.aa) == (size_t)S.nkeys && assoc_array_size(S.aa) >= (size_t)S.nkeys, "assoc array: wrong count"); break;
			case 8:
			{
				AssocArrayIter it;
				assoc_array_iter_init(S.aa, &it);
				while(assoc_array_iter_next(&it)) { check_entry(t, "assoc array", assoc_array_iter_get_key(&it), assoc_array_iter_get_value(&it)); ++n; }
				OK(n == S.nkeys, "assoc array: iteration gives %d of %d entries", n, S.nkeys);
				break;
			}
			case 9: case 12:
			{
				bool in = false;
				for(int j = 0; j < S.nseq; ++j) { in |= S.seq[j] == k; }
				if(rng_pct(r, 50)) { OK(list_contains(S.dl, ktab2[k]) == in, "list: wrong answer"); }
				else { OK(slist_contains(S.sl, ktab2[k]) == in, "slist: wrong answer"); }
				break;
			}
			case 10:
			{
				for(ListItem *it = list_head(S.dl); it; it = list_item_next(it)) { OK(n < S.nseq && list_item_get_data(it) == keytab[S.seq[n]], "list: wrong item"); ++n; }
				OK(n == S.nseq && list_count(S.dl) == (size_t)n && list_empty(S.dl) == !n && !list_tail(S.dl) == !n, "list: wrong count");
				break;
			}
			case 11: case 13:
			{
				int at = (int)rng_below(r, (uint64_t)S.nseq + 1), j = 0;
				if(rng_pct(r, 50))
				{
					ListItem *o = list_head(S.dl);
					for(; j < at && o; ++j) { o = list_item_next(o); }
					if(!o) { break; }
					ListItem *f = list_find(S.dl, o, ktab2[k]);
					bool in = false;
					for(; j < S.nseq; ++j) { in |= S.seq[j] == k; }
					OK(!!f == in && (!f || list_item_get_data(f) == keytab[k]), "list: find gives a wrong answer");
				}
				else
				{
					SListItem *o = slist_head(S.sl);
					for(; j < at && o; ++j) { o = slist_item_next(o); }
					if(!o) { break; }
					SListItem *f = slist_find(S.sl, o, ktab2[k]);
					bool in = false;
					for(; j < S.nseq; ++j) { in |= S.seq[j] == k; }
					OK(!!f == in && (!f || slist_item_get_data(f) == keytab[k]), "slist: find gives a wrong answer");
				}
				break;
			}
			case 14:
			{
				for(SListItem *it = slist_head(S.sl); it; it = slist_item_next(it)) { OK(n < S.nseq && slist_item_get_data(it) == keytab[S.seq[n]], "slist: wrong item"); ++n; }
				OK(n == S.nseq && slist_count(S.sl) == (size_t)n && slist_empty(S.sl) == !n, "slist: wrong count");
				break;
			}
			case 15: case 16: case 17:
			{
				void *d = NULL;
				OK(queue_head(S.q, &d) == (S.nseq > 0) && (!S.nseq || d == keytab[S.seq[0]]), "queue: peek gives a wrong answer");
				OK(queue_count(S.q) == (size_t)S.nseq, "queue: wrong count");
				break;
			}
			case 18:
			{
				if(rng_pct(r, 20)) { vf_free(dst); dst = NULL; dlen = 0; }
				bool got = buffer_flush(S.b, &dst, &dlen);
				if(S.ntext) { OK(got && !memcmp(dst, S.text, S.ntext) && !dst[S.ntext], "buffer: flush gives a wrong content"); }
				break;
			}
			case 19:
			{
				char *s = buffer_to_string(S.b);
				if(S.ntext) { OK(s && !memcmp(s, S.text, S.ntext) && !s[S.ntext], "buffer: wrong string"); }
				vf_free(s);
				break;
			}
			case 20: OK(buffer_len(S.b) == S.ntext && buffer_is_valid(S.b) && buffer_is_empty(S.b) == !S.ntext, "buffer: wrong length"); break;
		}
	}
	vf_free(dst);
	return NULL;
}
static void
shared_begin(Rng *rng)
{
	memset(&S, 0, sizeof S);
	S.ht = hashtable_new(rng_pct(rng, 60) ? HASHTABLE_AUTO_RESIZE : 1 + rng_below(rng, 9), rng_pct(rng, 60) ? str_hash : weak_hash, str_equal, NULL, NULL);
	S.rb = rbtree_new(cmp_str, NULL, NULL, NULL);
	S.aa = assoc_array_new(cmp_str, NULL, NULL);
	S.dl = list_new(cmp_str, NULL, NULL);
	S.sl = slist_new(cmp_str, NULL, NULL);
	S.q = queue_new(cmp_str, NULL, NULL);
	S.b = buffer_new(1 << 20);
	int m = rng_pct(rng, 10) ? 0 : (int)rng_below(rng, 2 * (uint64_t)NK);
	for(int i = 0; i < m; ++i)
	{
		int k = (int)rng_below(rng, (uint64_t)NK);
		bool rm = rng_pct(rng, 25);
		if(rm) { hashtable_remove(S.ht, keytab[k]); rbtree_remove(S.rb, keytab[k]); assoc_array_remove(S.aa, keytab[k]); }
		else { hashtable_set(S.ht, keytab[k], &S.val[k], true); rbtree_set(S.rb, keytab[k], &S.val[k], true); assoc_array_set(S.aa, keytab[k], &S.val[k], true); }
		S.nkeys += (int)!rm - S.has[k];
		S.has[k] = !rm;
	}
	S.nseq = rng_pct(rng, 10) ? 0 : (int)rng_below(rng, 120);
	for(int i = 0; i < S.nseq; ++i)
	{
		S.seq[i] = (int)rng_below(rng, (uint64_t)NK);
		list_append(S.dl, keytab[S.seq[i]]);
		slist_append(S.sl, keytab[S.seq[i]]);
		queue_push(S.q, keytab[S.seq[i]]);
	}
	/* never empty: what flushing an empty buffer returns is not at issue here */
	S.ntext = 1 + rng_below(rng, sizeof S.text - 1);
	for(size_t i = 0; i < S.ntext; ++i) { S.text[i] = (char)rng_u64(rng); }
	for(size_t i = 0; i < S.ntext;)
	{
		size_t c = 1 + rng_below(rng, 700);
		if(c > S.ntext - i) { c = S.ntext - i; }
		buffer_fill(S.b, S.text + i, c);
		i += c;
	}
}
static void
shared_end(void)
{
	hashtable_destroy(S.ht);
	rbtree_destroy(S.rb);
	assoc_array_destroy(S.aa);
	list_destroy(S.dl);
	slist_destroy(S.sl);
	queue_destroy(S.q);
	buffer_destroy(S.b);
}
void
run_case(const char *mode, uint64_t idx, Rng *rng)
{
	int64_t bytes0 = VF_GET(vf_live_bytes);
	if(!keytab[0][0])
	{
		for(int i = 0; i < U; ++i)
		{
			snprintf(keytab[i], sizeof keytab[i], "%ckey-%d", 'a' + i % 11, i * 7919);
			strcpy(ktab2[i], keytab[i]);
			khash[i] = str_hash(keytab[i]);
		}
	}
	bool shared = !strcmp(mode, "shared");
	NK = shared && rng_pct(rng, 20) ? U : 64;
	memset(T, 0, sizeof T);
	nt = 2 + (int)rng_below(rng, 5);
	int same = rng_pct(rng, 60) ? (int)rng_below(rng, shared ? 7 : NTYPE) : -1; /* everybody uses the same type */
	int n = (shared ? 150 : 300) + (int)rng_below(rng, 400);
	if(NK == U) { n /= 4; }
	big_n = !shared && rng_pct(rng, 4) ? 4000 + (int)rng_below(rng, rng_pct(rng, 50) ? 26000 : 5000) : 0;
	if(shared) { shared_begin(rng); }
	for(int i = 0; i < nt; ++i)
	{
		Thr *t = &T[i];
		t->id = i;
		t->n = n;
		t->type = same >= 0 ? same : shared ? -1 : (int)rng_below(rng, NTYPE);
		t->rng.s = rng_u64(rng);
		t->spin = rng_pct(rng, 50);
		vf_op(t->type < 0 ? "mixed reader" : shared ? "reader" : tnames[t->type], t->type, n);
		vf_state(t->rng.s);
	}
	atomic_store(&gate, nt);
	for(int i = 0; i < nt; ++i) { if(pthread_create(&T[i].th, NULL, shared ? shared_main : own_main, &T[i])) { fprintf(stderr, "harness: pthread_create\n"); _exit(77); } }
	uint64_t ops = 0;
	for(int i = 0; i < nt; ++i)
	{
		pthread_join(T[i].th, NULL);
		VF_ADD(vf_evals, T[i].checks);
		ops += T[i].ops;
	}
	if(shared) { shared_end(); }
	vf_count_add(shared ? "read operations on shared containers" : "operations on a thread's own containers", ops);
	vf_count_add("threads", (uint64_t)nt);
	VF_CHECK(MON_LEAK, VF_GET(vf_live_bytes) == bytes0, "leak", "library memory still allocated after free");
	if(vf_want_sample()) { vf_sample("%d threads, %lu operations, %s", nt, (unsigned long)ops, same < 0 ? "mixed types" : shared ? "readers of one type" : tnames[same]); }
	vf_case_done(ops > 0);
}
