/* Hash table, red-black tree and associative array against an abstract map. */
#include <limits.h>
#include <sys/prctl.h>
#include "vf.h"

enum { HT, RB, AA };
enum { KM_OBJ, KM_STR, KM_PTR };

/* ---- callbacks: liveness, magnitude, distinct stored keys compared ---- */
#define NREC 4096
static uint64_t g_calls, g_hashes;
static const void *g_rec[NREC], *g_probe;
static size_t g_nrec;
static int g_mag;

static void
note(const void *a, const void *b)
{
	const void *s = a == g_probe ? b : a;
	++g_calls;
	if(g_nrec < NREC && (!g_nrec || g_rec[g_nrec - 1] != s)) { g_rec[g_nrec++] = s; }
}
static void probe(const void *p) { g_probe = p; g_nrec = 0; g_calls = 0; }
static int
ptrcmp(const void *a, const void *b)
{
	const void *x = *(const void *const *)a, *y = *(const void *const *)b;
	return (x > y) - (x < y);
}
/* number of different stored keys the last operation compared its key with */
static size_t
distinct(size_t enough)
{
	if(g_nrec <= enough) { return g_nrec; }
	if(g_nrec == NREC) { return g_calls; }
	qsort(g_rec, g_nrec, sizeof *g_rec, ptrcmp);
	size_t n = 1;
	for(size_t i = 1; i < g_nrec; ++i) { n += g_rec[i] != g_rec[i - 1]; }
	return n;
}
static unsigned lg(size_t n) { unsigned l = 0; while(n >>= 1) { ++l; } return l; }
/* ceil(2*log2(n+1)) */
static unsigned
lg2x(size_t n)
{
	unsigned l = lg(n + 1);
	if((size_t)1 << l == n + 1) { return 2 * l; }
	/* 2*log2(x) = log2(x^2) */
	unsigned __int128 sq = (unsigned __int128)(n + 1) * (n + 1);
	unsigned b = 0;
	while(((unsigned __int128)1 << b) < sq) { ++b; }
	return b;
}
static int32_t
magnitude(int s, uint32_t salt)
{
	if(!s) { return 0; }
	switch(g_mag)
	{
		case 0: return s;
		case 1: return s < 0 ? INT32_MIN : INT32_MAX;
		case 2: return s < 0 ? INT32_MAX * -1 : 1;
		case 3: return s * 256;
		case 4: return s * 65536;
		default: { int32_t m = 1 + (int32_t)(vf_mix(salt, 77) % INT32_MAX); return s < 0 ? -m : m; }
	}
}
static void
live2(const Obj *x, const Obj *y)
{
	VF_CHECK(MON_CB, obj_live(x) && obj_live(y), "cb-dead-key", "compare or hash callback got a key that has been released");
}
static int32_t
cmp_obj(const void *a, const void *b)
{
	const Obj *x = a, *y = b;
	note(a, b);
	live2(x, y);
	return magnitude((x->k > y->k) - (x->k < y->k), x->k ^ y->k);
}
static bool eq_obj(const void *a, const void *b) { const Obj *x = a, *y = b; note(a, b); live2(x, y); return x->k == y->k; }
static int32_t
cmp_str(const void *a, const void *b)
{
	note(a, b);
	live2(OBJ_OF_STR(a), OBJ_OF_STR(b));
	CompareFunc f = str_compare;
	int32_t r = ((int (*)(const char *, const char *))(void *)f)(a, b);
	return r;
}
static bool eq_str(const void *a, const void *b) { note(a, b); live2(OBJ_OF_STR(a), OBJ_OF_STR(b)); return str_equal(a, b); }
static int32_t cmp_ptr(const void *a, const void *b) { note(a, b); return direct_compare(a, b); }
static bool eq_ptr(const void *a, const void *b) { note(a, b); return direct_equal(a, b); }
#define HOBJ(name, expr) static uint32_t name(const void *p) { const Obj *o = p; ++g_hashes; live2(o, o); uint32_t k = (uint32_t)o->k; (void)k; return (uint32_t)(expr); }
HOBJ(h_mix, vf_mix(k, 5))
HOBJ(h_const, 7)
HOBJ(h_zero, 0)
HOBJ(h_low, k & 3)
HOBJ(h_id, k)
HOBJ(h_high, k << 24)
HOBJ(h_max, UINT32_MAX - k)
HOBJ(h_all1, UINT32_MAX)
static uint32_t h_str(const void *p) { ++g_hashes; live2(OBJ_OF_STR(p), OBJ_OF_STR(p)); return str_hash(p); }
static uint32_t h_strlen(const void *p) { ++g_hashes; live2(OBJ_OF_STR(p), OBJ_OF_STR(p)); return (uint32_t)strlen(p); }
static uint32_t
h_ptr(const void *p)
{
	bool may = vf_may_report;
	++g_hashes;
	vf_may_report = (uintptr_t)p > UINT32_MAX;
	uint32_t h = direct_hash(p);
	vf_may_report = may;
	return h;
}

/* values are any pointers: with a mask they are odd, huge, or look negative */
static uintptr_t g_vx;
static void *vx(void *v) { return v ? (void *)((uintptr_t)v ^ g_vx) : NULL; }

static void fk_obj(void *p) { led_release(p, OBJ_KEY); }
static void fk_str(void *p) { led_release(OBJ_OF_STR(p), OBJ_KEY); }
static void fv(void *p)
{
	VF_CHECK(MON_OWN, p != NULL, "own-null-value", "value callback got NULL");
	led_release(vx(p), OBJ_VAL);
}

/* ---- containers behind one interface ---- */
typedef struct
{
	int type;
	bool heap;
	union { HashTable *ht; RBTree *rb; AssocArray *aa; };
	HashTable sht;
	RBTree srb;
	AssocArray saa;
	Pool *pool;
} Map;

static int
m_set(Map *m, void *k, void *v, bool ow)
{
	probe(k);
	v = vx(v);
	switch(m->type)
	{
		case HT: { HashTableInsertResult r = hashtable_set(m->ht, k, v, ow); return r == HASHTABLE_INSERT_RESULT_NEW ? 0 : r == HASHTABLE_INSERT_RESULT_REPLACED ? 1 : 2; }
		case RB: { RBTreeInsertResult r = rbtree_set(m->rb, k, v, ow); return r == RBTREE_INSERT_RESULT_NEW ? 0 : r == RBTREE_INSERT_RESULT_REPLACED ? 1 : 2; }
		default: { AssocArrayInsertResult r = assoc_array_set(m->aa, k, v, ow); return r == ASSOCARRAY_INSERT_RESULT_NEW ? 0 : r == ASSOCARRAY_INSERT_RESULT_REPLACED ? 1 : 2; }
	}
}
static int /* -1: no answer */
m_remove(Map *m, const void *k)
{
	probe(k);
	switch(m->type)
	{
		case HT: hashtable_remove(m->ht, k); return -1;
		case RB: return rbtree_remove(m->rb, k);
		default: assoc_array_remove(m->aa, k); return -1;
	}
}
static void *
m_lookup(Map *m, const void *k)
{
	probe(k);
	switch(m->type)
	{
		case HT: return hashtable_lookup(m->ht, k);
		case RB: return rbtree_lookup(m->rb, k);
		default: return assoc_array_lookup(m->aa, k);
	}
}
static bool
m_exists(Map *m, const void *k)
{
	probe(k);
	switch(m->type)
	{
		case HT: return hashtable_key_exists(m->ht, k);
		case RB: return rbtree_key_exists(m->rb, k);
		default: return assoc_array_key_exists(m->aa, k);
	}
}
static size_t m_count(Map *m) { return m->type == HT ? hashtable_count(m->ht) : m->type == RB ? rbtree_count(m->rb) : assoc_array_count(m->aa); }
static void m_clear(Map *m) { probe(NULL); if(m->type == HT) { hashtable_clear(m->ht); } else if(m->type == RB) { rbtree_clear(m->rb); } else { assoc_array_clear(m->aa); } }
static void
m_close(Map *m)
{
	probe(NULL);
	if(m->heap) { if(m->type == HT) { hashtable_destroy(m->ht); } else if(m->type == RB) { rbtree_destroy(m->rb); } else { assoc_array_destroy(m->aa); } }
	else { if(m->type == HT) { hashtable_free(m->ht); } else if(m->type == RB) { rbtree_free(m->rb); } else { assoc_array_free(m->aa); } }
}
static void
m_open(Map *m, int type, bool heap, size_t size, HashFunc h, EqualFunc eq, CompareFunc cmp, FreeFunc fkey, FreeFunc fval, Pool *pool)
{
	m->type = type;
	m->heap = heap;
	m->pool = pool;
	/* init must not rely on what was in the memory before */
	memset(&m->sht, 0xa5, sizeof m->sht);
	memset(&m->srb, 0xa5, sizeof m->srb);
	memset(&m->saa, 0xa5, sizeof m->saa);
	switch(type)
	{
		case HT: if(heap) { m->ht = hashtable_new(size, h, eq, fkey, fval); } else { m->ht = &m->sht; hashtable_init(m->ht, size, h, eq, fkey, fval); } break;
		case RB: if(heap) { m->rb = rbtree_new(cmp, fkey, fval, pool); } else { m->rb = &m->srb; rbtree_init(m->rb, cmp, fkey, fval, pool); } break;
		default: if(heap) { m->aa = assoc_array_new(cmp, fkey, fval); } else { m->aa = &m->saa; assoc_array_init(m->aa, cmp, fkey, fval); } break;
	}
}
static void *p_key(Map *m, void *p, bool macro)
{
	switch(m->type)
	{
		case HT: { HashTablePair *q = p; return macro ? hashtable_pair_key(q) : hashtable_pair_get_key(q); }
		case RB: { RBTreePair *q = p; return macro ? rbtree_pair_key(q) : rbtree_pair_get_key(q); }
		default: { AssocArrayPair *q = p; return macro ? assoc_array_pair_key(q) : assoc_array_pair_get_key(q); }
	}
}
static void *p_val(Map *m, void *p, bool macro)
{
	switch(m->type)
	{
		case HT: { HashTablePair *q = p; return vx(macro ? hashtable_pair_value(q) : hashtable_pair_get_value(q)); }
		case RB: { RBTreePair *q = p; return vx(macro ? rbtree_pair_value(q) : rbtree_pair_get_value(q)); }
		default: { AssocArrayPair *q = p; return vx(macro ? assoc_array_pair_value(q) : assoc_array_pair_get_value(q)); }
	}
}
static void p_set(Map *m, void *p, void *v) { probe(NULL); v = vx(v); if(m->type == HT) { hashtable_pair_set_value(p, v); } else if(m->type == RB) { rbtree_pair_set_value(p, v); } else { assoc_array_pair_set_value(p, v); } }

typedef struct { HashTableIter ht; RBTreeIter rb; AssocArrayIter aa; } Iter;
static void
i_init(Map *m, Iter *it)
{
	probe(NULL);
	memset(it, 0xa5, sizeof *it);
	if(m->type == HT) { hashtable_iter_init(m->ht, &it->ht); } else if(m->type == RB) { rbtree_iter_init(m->rb, &it->rb); } else { assoc_array_iter_init(m->aa, &it->aa); }
}
static bool i_next(Map *m, Iter *it) { return m->type == HT ? hashtable_iter_next(&it->ht) : m->type == RB ? rbtree_iter_next(&it->rb) : assoc_array_iter_next(&it->aa); }
static void *i_key(Map *m, Iter *it, bool macro)
{
	switch(m->type)
	{
		case HT: { HashTableIter i = it->ht; return macro ? hashtable_iter_key(i) : hashtable_iter_get_key(&it->ht); }
		case RB: { RBTreeIter i = it->rb; return macro ? rbtree_iter_key(i) : rbtree_iter_get_key(&it->rb); }
		default: { AssocArrayIter i = it->aa; return macro ? assoc_array_iter_key(i) : assoc_array_iter_get_key(&it->aa); }
	}
}
static void *i_val(Map *m, Iter *it, bool macro)
{
	switch(m->type)
	{
		case HT: { HashTableIter i = it->ht; return vx(macro ? hashtable_iter_value(i) : hashtable_iter_get_value(&it->ht)); }
		case RB: { RBTreeIter i = it->rb; return vx(macro ? rbtree_iter_value(i) : rbtree_iter_get_value(&it->rb)); }
		default: { AssocArrayIter i = it->aa; return vx(macro ? assoc_array_iter_value(i) : assoc_array_iter_get_value(&it->aa)); }
	}
}
static void i_fini(Map *m, Iter *it) { if(m->type == RB) { rbtree_iter_free(&it->rb); } }

#ifdef VF_OPAQUE
/* built from sources whose structures look otherwise: what can be judged from outside is */
#define HT_SIZE(t, known) (known)
static uint64_t rb_shape(const RBTree *t) { return 0; }
static unsigned rb_check(const RBTree *t, size_t count, CompareFunc cmp, const TrackPool *tp) { return 0; }
#else
#define HT_SIZE(t, known) ((t)->size)
/* ---- red-black structure ---- */
typedef struct { size_t nodes; const char *bad; const TrackPool *tp; CompareFunc cmp; } Walk;
static unsigned /* black height */
rb_walk(Walk *w, const RBNode *n, const RBNode *lo, const RBNode *hi, unsigned depth)
{
	if(!n) { return 1; }
	if(depth > 200) { w->bad = "deeper than 200 levels or cyclic"; return 0; }
	if(w->tp && !track_pool_has(w->tp, n)) { w->bad = "node does not come from the pool"; return 0; }
	++w->nodes;
	if(!n->black && ((n->left && !n->left->black) || (n->right && !n->right->black))) { w->bad = "red node with a red child"; }
	if((lo && w->cmp(lo->key, n->key) >= 0) || (hi && w->cmp(n->key, hi->key) >= 0)) { w->bad = "keys out of order"; }
	unsigned l = rb_walk(w, n->left, lo, n, depth + 1);
	if(w->bad) { return 0; }
	unsigned r = rb_walk(w, n->right, n, hi, depth + 1);
	if(!w->bad && l != r) { w->bad = "black heights differ"; }
	return l + (n->black ? 1 : 0);
}
static uint64_t
rb_shape_of(const RBNode *n)
{
	return n ? vf_mix(vf_mix(rb_shape_of(n->left), rb_shape_of(n->right)), n->black) : 1;
}
static uint64_t rb_shape(const RBTree *t) { return rb_shape_of(t->root); }
static unsigned
rb_check(const RBTree *t, size_t count, CompareFunc cmp, const TrackPool *tp)
{
	Walk w = { 0, NULL, tp, cmp };
	const void *sp = g_probe;
	uint64_t sc = g_calls;
	size_t sn = g_nrec;
	g_nrec = NREC; /* the walk's own comparisons do not count */
	unsigned h = rb_walk(&w, t->root, NULL, NULL, 0);
	g_probe = sp; g_calls = sc; g_nrec = sn;
	if(w.bad && !strcmp(w.bad, "node does not come from the pool")) { VF_CHECK(MON_POOL, false, "pool-foreign-node", "%s", w.bad); }
	else
	{
		VF_CHECK(MON_BAL, !w.bad, "rb-invalid", "invalid red-black tree of %zu entries: %s", count, w.bad);
		VF_CHECK(MON_BAL, !t->root || t->root->black, "rb-red-root", "red root");
		VF_CHECK(MON_BAL, w.nodes == count, "rb-nodes", "%zu reachable nodes, %zu entries", w.nodes, count);
	}
	return h;
}
#endif

/* ---- random histories ---- */
typedef struct
{
	bool present;
	int32_t k;
	void *raw;          /* KM_PTR */
	char *text;         /* KM_STR */
	void *probe;        /* key for queries, owned by the harness */
	Obj *probe_obj;
	void *key;          /* stored key pointer */
	Obj *kobj, *vobj;   /* stored objects */
	uint64_t seen;
} Ent;
typedef struct
{
	Map m;
	int km;
	bool fk, fv, ever_cmp;
	bool sv;            /* values belong to nobody: several entries have the same one, or a key */
	Obj *val[3];
	Obj *scratch;       /* one key object for many queries, as a caller's buffer */
	size_t u, n, peak, fixed;
	Ent *e;
	TrackPool *tp;
	int64_t drift; /* heap blocks this container took since it was created */
	CompareFunc cmp;
	uint64_t mark;
} Inst;

static void *keyptr(Inst *I, Obj *o) { return I->km == KM_STR ? (void *)o->s : (void *)o; }
static Ent *
by_key(Inst *I, const void *key)
{
	for(size_t i = 0; i < I->u; ++i) { if(I->e[i].present && I->e[i].key == key) { return &I->e[i]; } }
	return NULL;
}
static void
cost_check(Inst *I, size_t n)
{
	if(I->m.type == RB)
	{
		size_t lim = lg2x(n) + 1;
		VF_CHECK(MON_BAL, distinct(lim) <= lim, "rb-compares", "%zu stored keys compared in a tree of %zu entries", distinct(0), n);
	}
	else if(I->m.type == AA && n)
	{
		size_t lim = lg(n) + 2;
		VF_CHECK(MON_COST, distinct(lim) <= lim, "aa-compares", "%zu stored keys compared in an array of %zu entries", distinct(0), n);
	}
}
static void
pair_check(Inst *I, Ent *e, void *p)
{
	VF_CHECK(MON_FUNC | MON_PAIR, (p != NULL) == e->present, "lookup", "lookup of key %d: %s, entry is %s", e->k, p ? "found" : "not found", e->present ? "present" : "absent");
	if(!p || !e->present) { return; }
	VF_CHECK(MON_FUNC | MON_PAIR, p_key(&I->m, p, false) == e->key && p_key(&I->m, p, true) == e->key, "pair-key", "pair of key %d has the wrong key object", e->k);
	VF_CHECK(MON_FUNC | MON_PAIR, p_val(&I->m, p, false) == (void *)e->vobj && p_val(&I->m, p, true) == (void *)e->vobj, "pair-value", "pair of key %d has the wrong value", e->k);
}
static void
size_check(Inst *I)
{
	size_t c = m_count(&I->m);
	VF_CHECK(MON_FUNC, c == I->n, "count", "count is %zu, should be %zu", c, I->n);
	if(I->m.type == AA)
	{
		size_t s = assoc_array_size(I->m.aa);
		VF_CHECK(MON_FUNC | MON_COST, s >= I->n, "aa-size-small", "size %zu below count %zu", s, I->n);
		size_t lim = 2 * I->peak < 8 ? 8 : 2 * I->peak;
		VF_CHECK(MON_COST, s <= lim, "aa-size-large", "size %zu, largest population %zu", s, I->peak);
	}
	if(I->m.type == HT && I->fixed) { VF_CHECK(MON_GROW, HT_SIZE(I->m.ht, I->fixed) == I->fixed, "ht-fixed-size", "bucket count changed from %zu to %zu", I->fixed, (size_t)HT_SIZE(I->m.ht, I->fixed)); }
	if(I->tp) { VF_CHECK(MON_POOL, I->tp->live >= I->n, "pool-nodes", "%zu pool nodes for %zu entries", I->tp->live, I->n); }
}
static uint64_t g_mark;

static void
see(Inst *I, Iter *it, uint64_t mark, void **prev, bool macro)
{
	void *k = i_key(&I->m, it, macro), *v = i_val(&I->m, it, macro);
	VF_CHECK(MON_ITER | MON_FUNC, k && k == i_key(&I->m, it, !macro) && v == i_val(&I->m, it, !macro), "iter-accessors", "iterator accessors disagree");
	Ent *e = by_key(I, k);
	VF_CHECK(MON_ITER | MON_FUNC, e != NULL, "iter-foreign", "iteration yields a key that is not stored");
	if(!e) { return; }
	VF_CHECK(MON_ITER | MON_FUNC, e->seen != mark, "iter-twice", "iteration yields key %d twice", e->k);
	VF_CHECK(MON_ITER | MON_FUNC, v == (void *)e->vobj, "iter-value", "iteration yields the wrong value for key %d", e->k);
	e->seen = mark;
	if(I->m.type == AA)
	{
		if(*prev) { probe(*prev); VF_CHECK(MON_ITER | MON_FUNC | MON_SORT, I->cmp(*prev, k) < 0, "aa-order", "array not in ascending key order"); }
		*prev = k;
	}
}
static void
end_check(Inst *I, Iter *it, size_t seen, Rng *rng)
{
	VF_CHECK(MON_ITER | MON_FUNC, seen == I->n, "iter-count", "iteration yields %zu of %zu entries", seen, I->n);
	for(int i = rng_below(rng, 4); i >= 0; --i)
	{
		VF_CHECK(MON_ITER, !i_next(&I->m, it), "iter-past-end", "iteration continues after its end");
		if(I->m.type == RB) { VF_CHECK(MON_ITER, !rbtree_iter_get_key(&it->rb) && !rbtree_iter_get_value(&it->rb), "iter-current-after-end", "finished iterator has a current element"); }
	}
}
static void
iterate(Inst *I, Rng *rng)
{
	Iter it;
	void *prev = NULL;
	size_t n = 0;
	uint64_t mark = ++g_mark;
	i_init(&I->m, &it);
	if(I->m.type == RB) { VF_CHECK(MON_ITER, !rbtree_iter_get_key(&it.rb) && !rbtree_iter_get_value(&it.rb), "iter-current-before", "new iterator has a current element"); }
	while(i_next(&I->m, &it))
	{
		see(I, &it, mark, &prev, rng_u64(rng) & 1);
		if(++n > I->n + 2) { break; }
	}
	end_check(I, &it, n, rng);
	i_fini(&I->m, &it);
	vf_count("iterations");
}
static void
check_structure(Inst *I)
{
	if(I->m.type == RB && (vf_mon & (MON_BAL | MON_POOL)))
	{
		rb_check(I->m.rb, I->n, I->cmp, I->tp);
		vf_count("tree walks");
	}
}
static const void *
query(Inst *I, Ent *e, Rng *rng)
{
	if(!I->scratch || !rng_pct(rng, 30)) { return e->probe; }
	I->scratch->k = e->k;
	if(e->text) { strcpy(I->scratch->s, e->text); }
	return keyptr(I, I->scratch);
}
static void
audit(Inst *I, Rng *rng)
{
	size_check(I);
	check_structure(I);
	iterate(I, rng);
	for(size_t i = 0; i < I->u; ++i)
	{
		Ent *e = &I->e[i];
		bool x = m_exists(&I->m, query(I, e, rng));
		VF_CHECK(MON_FUNC, x == e->present, "exists", "key %d %s, key_exists says %d", e->k, e->present ? "present" : "absent", x);
		cost_check(I, I->n);
		void *p = m_lookup(&I->m, query(I, e, rng));
		cost_check(I, I->n);
		pair_check(I, e, p);
	}
	vf_count("audits");
}

static const char *const frag[] = { "a", "b", "ab", "\x80", "\xff", "\x01", "abc", "zz", "_", "abcdefgh", "\xc3\xa4", " " };
static char *
make_text(Rng *rng, size_t i)
{
	char b[200];
	size_t n = 0;
	int parts = rng_below(rng, 7);
	for(int j = 0; j < parts; ++j) { const char *f = frag[rng_below(rng, sizeof frag / sizeof *frag)]; memcpy(b + n, f, strlen(f)); n += strlen(f); }
	/* unique: the number in base 200 after a separator (one text is empty) */
	if(i)
	{
		b[n++] = '|';
		for(size_t v = i; v; v /= 200) { b[n++] = (char)(2 + v % 200); }
	}
	else { n = 0; }
	b[n] = 0;
	char *s = xmalloc(n + 1);
	memcpy(s, b, n + 1);
	return s;
}
static void *
fresh_key(Inst *I, Ent *e, Obj **ko)
{
	*ko = NULL;
	if(I->km == KM_PTR) { return e->raw; }
	*ko = obj_new(OBJ_KEY, e->k, I->km == KM_STR ? e->text : NULL);
	return keyptr(I, *ko);
}
static void
dropped(Inst *I, Ent *e) /* the container is about to drop this entry */
{
	if(I->fk && e->kobj) { led_expect(e->kobj); }
	if(I->fv && e->vobj) { led_expect(e->vobj); }
}
static void
drop_val(Inst *I, Obj *v)
{
	if(!I->fv && !I->sv && v) { obj_drop(v); }
}
static void
forget(Inst *I, Ent *e)
{
	if(!I->fk && e->kobj) { obj_drop(e->kobj); }
	drop_val(I, e->vobj);
	e->present = false;
	e->key = NULL;
	e->kobj = e->vobj = NULL;
	--I->n;
}
/* a value for an entry with this key; the container gets vx() of it */
static Obj *
new_val(Inst *I, Rng *rng, Ent *e, void *key, int pct_null)
{
	if(rng_pct(rng, pct_null)) { return NULL; }
	if(I->sv)
	{
		/* never followed, only compared: the key itself, a constant, or one of few objects */
		if(rng_pct(rng, 20)) { return vx(key); }
		if(rng_pct(rng, 5)) { return vx((void *)(uintptr_t)(1 + rng_below(rng, 2))); }
		return I->val[rng_below(rng, 3)];
	}
	if(I->fv && I->n && rng_pct(rng, 8))
	{
		/* a value that is stored elsewhere, too: the callback counts references */
		Ent *o = &I->e[rng_below(rng, I->u)];
		if(o->present && o->vobj && o != e && (!e->present || e->vobj != o->vobj)) { ++o->vobj->extra; return o->vobj; }
	}
	Obj *o = obj_new(OBJ_VAL, 0, NULL);
	o->state = ST_STORED;
	return o;
}

static int
pick_type(const char *mode)
{
	return !strncmp(mode, "ht", 2) ? HT : !strncmp(mode, "rb", 2) ? RB : AA;
}

static void
inst_open(Inst *I, int type, Rng *rng, Pool *pool, TrackPool *tp, char *desc, size_t dn, bool mid)
{
	static const size_t sizes[] = { 0, 0, 1, 1, 2, 3, 7, 16, 257, 1000 };
	static HashFunc const hashes[] = { h_mix, h_mix, h_const, h_zero, h_low, h_id, h_high, h_max, h_all1 };
	memset(I, 0, sizeof *I);
	I->km = rng_below(rng, 10) < 6 ? KM_OBJ : rng_below(rng, 2) ? KM_STR : KM_PTR;
	static const int us[] = { 1, 2, 3, 5, 8, 16, 40, 100 };
	I->u = us[rng_below(rng, 8)];
	if(vf_thorough && rng_pct(rng, 10)) { I->u = 300 + rng_below(rng, 900); }
	else if(rng_pct(rng, 3)) { I->u = 300 + rng_below(rng, 300); }
	if(mid) { I->u = 300 + rng_below(rng, 1700); }
	I->fk = I->km != KM_PTR && rng_pct(rng, 70);
	I->fv = rng_pct(rng, 70);
	I->sv = !I->fv && rng_pct(rng, 50);
	for(int i = 0; I->sv && i < 3; ++i) { I->val[i] = obj_new(OBJ_VAL, 0, NULL); }
	I->tp = tp;
	I->drift = 0;
	I->e = xcalloc(I->u, sizeof(Ent));
	I->fixed = mid ? 257 * rng_below(rng, 2) : sizes[rng_below(rng, 10)];
	int32_t base = rng_below(rng, 4) ? 0 : (int32_t)rng_u64(rng), step = rng_below(rng, 3) ? 1 : 257 * (int32_t)rng_below(rng, 9) + 1;
	uintptr_t pbase = rng_below(rng, 2) ? 1 : rng_below(rng, 2) ? 0x7fff00000000UL : (uintptr_t)UINT32_MAX - I->u / 2;
	if(rng_pct(rng, 20)) { pbase = UINTPTR_MAX - 64 * I->u; }
	uintptr_t pstep = rng_below(rng, 2) ? 1 : rng_below(rng, 2) ? 16 : 64;
	if(rng_pct(rng, 25)) { pbase = ((uintptr_t)1 << (rng_below(rng, 2) ? 63 : rng_below(rng, 2) ? 31 : 32)) - pstep * (I->u / 2); } /* both sides of a sign or a word */
	for(size_t i = 0; i < I->u; ++i)
	{
		Ent *e = &I->e[i];
		e->k = (int32_t)((uint32_t)base + (uint32_t)i * (uint32_t)step);
		e->raw = (void *)(pbase + i * pstep);
		if(I->km == KM_STR) { e->text = make_text(rng, i); }
		e->probe = I->km == KM_PTR ? e->raw : (e->probe_obj = obj_new(OBJ_KEY, e->k, e->text), keyptr(I, e->probe_obj));
	}
	if(I->km != KM_PTR)
	{
		char *longest = NULL;
		for(size_t i = 0; i < I->u; ++i) { if(I->e[i].text && (!longest || strlen(I->e[i].text) > strlen(longest))) { longest = I->e[i].text; } }
		I->scratch = obj_new(OBJ_KEY, 0, longest);
	}
	unsigned hf = mid && rng_pct(rng, 90) ? 0 : rng_below(rng, sizeof hashes / sizeof *hashes);
	HashFunc h = I->km == KM_OBJ ? hashes[hf] : I->km == KM_STR ? (rng_below(rng, 3) ? h_str : h_strlen) : h_ptr;
	I->cmp = I->km == KM_OBJ ? cmp_obj : I->km == KM_STR ? cmp_str : cmp_ptr;
	bool heap = rng_u64(rng) & 1;
	m_open(&I->m, type, heap, I->fixed, h, I->km == KM_OBJ ? eq_obj : I->km == KM_STR ? eq_str : eq_ptr, I->cmp, I->fk ? (I->km == KM_STR ? fk_str : fk_obj) : NULL, I->fv ? fv : NULL, pool);
	size_t l = strlen(desc);
	snprintf(desc + l, dn - l, "[%s keys=%s universe=%zu free_key=%d free_value=%d shared_values=%d %s=%zu hash=%u pool=%s] ", heap ? "new" : "init", I->km == KM_OBJ ? "objects" : I->km == KM_STR ? "strings" : "pointers", I->u, I->fk, I->fv, I->sv,
		type == HT ? "buckets" : "-", type == HT ? I->fixed : 0, hf, !pool ? "none" : tp ? "tracking" : "MemoryPool");
}

static uint32_t val_id(Inst *I, Obj *v) { return !v ? 0 : !I->sv ? v->id : v == I->val[0] ? 1 : v == I->val[1] ? 2 : v == I->val[2] ? 3 : 4; }
static void
op_set(Inst *I, Ent *e, Rng *rng)
{
	bool ow = rng_u64(rng) & 1;
	Obj *ko;
	/* with the very key that is stored: as when a loop sets the values of what it finds */
	bool own = e->present && (!ow || !I->fk) && rng_pct(rng, 12);
	void *key = own ? (ko = e->kobj, e->key) : fresh_key(I, e, &ko);
	Obj *vo = new_val(I, rng, e, key, 15);
	vf_op(own ? "set-by-stored-key" : ow ? "set-overwrite" : "set", e->k, val_id(I, vo));
	led_op_begin();
	size_t before = I->n;
	if(e->present)
	{
		if(I->fk && ow && e->kobj) { led_expect(e->kobj); }
		if(I->fv && e->vobj) { led_expect(e->vobj); }
	}
	if(ko && (ow || !e->present)) { ko->state = ST_STORED; }
	Obj *oldk = e->kobj, *oldv = e->vobj;
	int r = m_set(&I->m, key, vo, ow);
	VF_CHECK(MON_FUNC, r == (e->present ? 1 : 0), "set-result", "set of %s key %d answers %s", e->present ? "present" : "absent", e->k, r == 0 ? "new" : r == 1 ? "replaced" : "failed");
	if(e->present)
	{
		if(ow)
		{
			if(!I->fk && oldk && !own) { obj_drop(oldk); }
			e->kobj = ko;
			e->key = key;
		}
		drop_val(I, oldv);
	}
	else
	{
		e->present = true;
		e->kobj = ko;
		e->key = key;
		if(++I->n > I->peak) { I->peak = I->n; }
	}
	e->vobj = vo;
	led_op_end("set");
	if(!own) { cost_check(I, before); }
	/* a key that was not taken over is the caller's: it can go away now */
	if(ko && e->kobj != ko) { obj_drop(ko); }
	vf_count(r ? "replacing sets" : "new sets");
}
static void
op_remove(Inst *I, Ent *e, Rng *rng)
{
	bool own = e->present && rng_pct(rng, 25);
	const void *key = own ? e->key : query(I, e, rng);
	vf_op(own ? "remove-by-stored-key" : "remove", e->k, e->present);
	led_op_begin();
	if(e->present) { dropped(I, e); }
	size_t before = I->n;
	int r = m_remove(&I->m, key);
	led_op_end("remove");
	if(r >= 0) { VF_CHECK(MON_FUNC, r == (int)e->present, "remove-result", "remove of %s key %d answers %d", e->present ? "present" : "absent", e->k, r); }
	vf_count(e->present ? "removals" : "removals of absent keys");
	if(e->present) { forget(I, e); }
	if(!own) { cost_check(I, before); }
}
static void
op_pair(Inst *I, Ent *e, Rng *rng)
{
	vf_op("pair", e->k, e->present);
	bool own = e->present && rng_pct(rng, 10);
	void *p = m_lookup(&I->m, own ? e->key : query(I, e, rng));
	if(!own) { cost_check(I, I->n); }
	pair_check(I, e, p);
	if(!p || !e->present) { return; }
	/* read-only operations in between leave the pair alone */
	if(rng_pct(rng, 40))
	{
		Ent *o = &I->e[rng_below(rng, I->u)];
		m_exists(&I->m, query(I, o, rng));
		if(rng_pct(rng, 30)) { iterate(I, rng); }
		pair_check(I, e, p);
	}
	for(int i = rng_below(rng, 3); i > 0; --i)
	{
		Obj *old = e->vobj;
		Obj *vo = new_val(I, rng, e, e->key, 25);
		vf_op("pair-set", e->k, val_id(I, vo));
		led_op_begin();
		if(I->fv && old) { led_expect(old); }
		uint64_t rel = led_total_released;
		bool owed = I->fv && old;
		p_set(&I->m, p, vo);
		VF_CHECK(MON_PAIR, led_total_released - rel == owed, "pair-release", "overwriting a value released %lu objects instead of %d", (unsigned long)(led_total_released - rel), owed);
		led_op_end("pair_set_value");
		drop_val(I, old);
		e->vobj = vo;
		pair_check(I, e, p);
		vf_count("pair overwrites");
	}
	VF_CHECK(MON_PAIR, m_count(&I->m) == I->n, "pair-count", "overwriting a value changed the count");
}
static void
op_clear(Inst *I, Rng *rng)
{
	for(int t = rng_pct(rng, 20) ? 3 : 1; t; --t)
	{
		vf_op("clear", I->n, 0);
		led_op_begin();
		for(size_t i = 0; i < I->u; ++i) { if(I->e[i].present) { dropped(I, &I->e[i]); } }
		m_clear(&I->m);
		led_op_end("clear");
		for(size_t i = 0; i < I->u; ++i) { if(I->e[i].present) { forget(I, &I->e[i]); } }
		if(I->tp && I->tp->live) { VF_CHECK(MON_POOL, false, "pool-clear", "clear left %zu nodes in the pool", I->tp->live); }
		size_check(I);
		vf_count("clears");
	}
}
static void
op_iters(Inst *I, Rng *rng)
{
	/* several iterators in any interleaving, with reads in between */
	Iter it[4];
	uint64_t *seen[4];
	size_t n[4] = { 0 };
	bool done[4] = { false };
	int k = 1 + rng_below(rng, 4);
	vf_op("iterators", k, I->n);
	for(int i = 0; i < k; ++i) { i_init(&I->m, &it[i]); seen[i] = xcalloc(I->u, sizeof **seen); }
	size_t steps = rng_pct(rng, 20) ? rng_below(rng, 1 + I->n) : (I->n + 2) * k * 2;
	for(size_t s = 0; s < steps; ++s)
	{
		int i = rng_below(rng, k);
		if(rng_pct(rng, 15)) { Ent *e = &I->e[rng_below(rng, I->u)]; if(rng_u64(rng) & 1) { m_exists(&I->m, query(I, e, rng)); } else { m_lookup(&I->m, query(I, e, rng)); } m_count(&I->m); }
		bool more = i_next(&I->m, &it[i]);
		VF_CHECK(MON_ITER, !(more && done[i]), "iter-past-end", "iteration continues after its end");
		if(more && !done[i])
		{
			Ent *e = by_key(I, i_key(&I->m, &it[i], s & 1));
			VF_CHECK(MON_ITER, e != NULL, "iter-foreign", "iteration yields a key that is not stored");
			if(!e) { continue; }
			VF_CHECK(MON_ITER, !seen[i][e - I->e]++, "iter-twice", "iteration yields key %d twice", e->k);
			VF_CHECK(MON_ITER, i_val(&I->m, &it[i], s & 1) == (void *)e->vobj, "iter-value", "iteration yields the wrong value for key %d", e->k);
			++n[i];
		}
		else if(!done[i])
		{
			VF_CHECK(MON_ITER, n[i] == I->n, "iter-count", "iteration yields %zu of %zu entries", n[i], I->n);
			done[i] = true;
			vf_count("interleaved iterations completed");
		}
		if(I->m.type == RB && done[i])
		{
			VF_CHECK(MON_ITER, !rbtree_iter_get_key(&it[i].rb) && !rbtree_iter_get_value(&it[i].rb), "iter-current-after-end", "finished iterator has a current element");
			if(rng_pct(rng, 30)) { rbtree_iter_reuse(I->m.rb, &it[i].rb); done[i] = false; n[i] = 0; memset(seen[i], 0, I->u * sizeof **seen); vf_count("iterator reuses"); }
		}
	}
	for(int i = 0; i < k; ++i) { i_fini(&I->m, &it[i]); free(seen[i]); }
}
/* a tree iterator that is carried from tree to tree and from state to state */
static void
op_reuse(Inst *a, Inst *b, Rng *rng)
{
	RBTreeIter it;
	memset(&it, 0xa5, sizeof it);
	Inst *I = rng_u64(rng) & 1 ? a : b;
	rbtree_iter_init(I->m.rb, &it);
	vf_op("reuse", a->n, b->n);
	for(int r = 1 + rng_below(rng, 4); r > 0; --r)
	{
		uint64_t mark = ++g_mark;
		size_t n = 0, stop = rng_pct(rng, 40) ? rng_below(rng, I->n + 1) : SIZE_MAX;
		VF_CHECK(MON_ITER, !rbtree_iter_get_key(&it) && !rbtree_iter_get_value(&it), "iter-current-before", "new iterator has a current element");
		while(n != stop && rbtree_iter_next(&it))
		{
			Ent *e = by_key(I, rbtree_iter_get_key(&it));
			VF_CHECK(MON_ITER, e && e->seen != mark, "iter-reuse", "reused iterator yields a foreign key or one key twice");
			if(!e) { break; }
			VF_CHECK(MON_ITER, vx(rbtree_iter_get_value(&it)) == (void *)e->vobj, "iter-value", "reused iterator yields the wrong value");
			e->seen = mark;
			if(++n > I->n) { break; }
		}
		if(stop == SIZE_MAX)
		{
			VF_CHECK(MON_ITER, n == I->n, "iter-count", "reused iterator yields %zu of %zu entries", n, I->n);
			VF_CHECK(MON_ITER, !rbtree_iter_next(&it), "iter-past-end", "iteration continues after its end");
			VF_CHECK(MON_ITER, !rbtree_iter_get_key(&it) && !rbtree_iter_get_value(&it), "iter-current-after-end", "finished iterator has a current element");
		}
		I = rng_u64(rng) & 1 ? a : b;
		rbtree_iter_reuse(I->m.rb, &it);
		vf_count("iterator reuses");
	}
	rbtree_iter_free(&it);
}

static void
inst_close(Inst *I)
{
	vf_op("close", I->n, 0);
	led_op_begin();
	for(size_t i = 0; i < I->u; ++i) { if(I->e[i].present) { dropped(I, &I->e[i]); } }
	size_t n = I->n;
	m_close(&I->m);
	led_op_end("free");
	(void)n;
	for(size_t i = 0; i < I->u; ++i) { free(I->e[i].text); }
	free(I->e);
}

/* most of the keys, in one of several orders */
static void
prefill(Inst *I, Rng *rng)
{
	size_t n = I->u, most = rng_pct(rng, 50) ? 95 : 5 + rng_below(rng, 90), step = 1 + rng_below(rng, 3) * 2;
	int kind = rng_below(rng, 3);
	for(size_t i = 0; i < n; ++i)
	{
		if(!rng_pct(rng, most)) { continue; }
		op_set(I, &I->e[kind == 0 ? i : kind == 1 ? n - 1 - i : (i * 7919 * step) % n], rng);
	}
	audit(I, rng);
}

static void
rand_case(const char *mode, int type, Rng *rng)
{
	bool clearheavy = strstr(mode, "-clear"), churn = strstr(mode, "-mem");
	int64_t blocks0 = VF_GET(vf_live_blocks), bytes0 = VF_GET(vf_live_bytes);
	char desc[800] = "";
	led_case_begin();
	g_mag = rng_below(rng, 6);
	int ni = 1 + (rng_pct(rng, 35) ? 1 + rng_below(rng, 2) : 0);
	bool mid = rng_below(rng, 300) == 0; /* thousands of entries, released through callbacks */
	if(mid) { ni = 1; vf_count("histories with thousands of entries"); }
	TrackPool tps[3];
	MemoryPool *mp = NULL;
	bool tracked[3] = { false };
	Inst I[3];
	int pm = rng_below(rng, 4); /* none, MemoryPool shared, tracking pools, mixed */
	size_t pool_item = sizeof(RBNode) + 8 * rng_below(rng, 3);
	if(type == RB && (pm == 1 || pm == 3)) { mp = memory_pool_new(pool_item, 2 + rng_below(rng, 60)); }
	for(int i = 0; i < ni; ++i)
	{
		Pool *p = NULL;
		if(type == RB && (pm == 1 || (pm == 3 && i != 1))) { p = (Pool *)mp; }
		if(type == RB && (pm == 2 || (pm == 3 && i == 1))) { track_pool_init(&tps[i], pool_item); tracked[i] = true; p = &tps[i].pool; }
		inst_open(&I[i], type, rng, p, tracked[i] ? &tps[i] : NULL, desc, sizeof desc, mid);
	}
	int nops = 20 + rng_below(rng, vf_thorough ? 1200 : 400);
	int wset = 20 + rng_below(rng, 50), wrem = 5 + rng_below(rng, 50), wclear = clearheavy ? 15 : rng_below(rng, 4) ? 1 : 4;
	int phase = rng_below(rng, 3);
	bool nontrivial = false;
	struct { void *p; Ent *e; } held[3] = { { NULL } }; /* pairs stay what they are while other containers are used */
	if(mid) { prefill(&I[0], rng); }
	for(int op = 0; op < nops; ++op)
	{
		Inst *J = &I[rng_below(rng, ni)];
		held[J - I].p = NULL;
		Ent *e = &J->e[rng_below(rng, J->u)];
		if(phase == 1 && rng_pct(rng, 70)) { e = &J->e[(op / 2) % J->u]; }          /* ascending runs */
		if(phase == 2 && rng_pct(rng, 70)) { e = &J->e[J->u - 1 - (op / 2) % J->u]; } /* descending runs */
		if(op % 100 == 99) { int t = wset; wset = wrem; wrem = t; }
		int64_t bl = VF_GET(vf_live_blocks);
		int x = rng_below(rng, wset + wrem + wclear + 45);
		size_t before = J->n;
		if(x < wset) { op_set(J, e, rng); }
		else if((x -= wset) < wrem) { op_remove(J, e, rng); }
		else if((x -= wrem) < wclear) { op_clear(J, rng); if(rng_u64(rng) & 1) { audit(J, rng); } if(mid) { prefill(J, rng); } }
		else if((x -= wclear) < 15)
		{
			vf_op("lookup", e->k, e->present);
			bool ex = m_exists(&J->m, query(J, e, rng));
			cost_check(J, J->n);
			VF_CHECK(MON_FUNC, ex == e->present, "exists", "key %d %s, key_exists says %d", e->k, e->present ? "present" : "absent", ex);
			held[J - I].p = m_lookup(&J->m, query(J, e, rng));
			held[J - I].e = e;
			pair_check(J, e, held[J - I].p);
			cost_check(J, J->n);
			VF_CHECK(MON_FOOT, VF_GET(vf_live_blocks) == bl, "read-keeps-memory", "a lookup changed the library's memory");
		}
		else if((x -= 15) < 15) { op_pair(J, e, rng); }
		else if((x -= 15) < 8) { iterate(J, rng); VF_CHECK(MON_FOOT | MON_ITER, VF_GET(vf_live_blocks) == bl, "read-keeps-memory", "an iteration left memory behind"); }
		else if((x -= 8) < 3) { op_iters(J, rng); VF_CHECK(MON_FOOT | MON_ITER, VF_GET(vf_live_blocks) == bl, "read-keeps-memory", "an iteration left memory behind"); }
		else if(type == RB) { op_reuse(&I[rng_below(rng, ni)], J, rng); VF_CHECK(MON_FOOT | MON_ITER, VF_GET(vf_live_blocks) == bl, "read-keeps-memory", "an iteration left memory behind"); }
		else { audit(J, rng); }
		nontrivial |= before != J->n;
		for(int i = 0; i < ni; ++i) { if(held[i].p && &I[i] != J) { pair_check(&I[i], held[i].e, held[i].p); vf_count("pairs held while other containers are used"); } }
		size_check(J);
		if(!mid || op % 16 == 0) { check_structure(J); }
		if(J->tp && type == RB) { J->drift += VF_GET(vf_live_blocks) - bl; VF_CHECK(MON_POOL, J->drift <= 8, "pool-heap-nodes", "a tree with its own pool takes nodes from the heap"); }
		if(mid ? rng_below(rng, 200) == 0 : rng_pct(rng, 4)) { held[J - I].p = NULL; audit(J, rng); }
		if(type == RB) { vf_state(J->n); }
	}
	(void)churn;
	for(int i = 0; i < ni; ++i) { audit(&I[i], rng); }
	if(vf_want_sample()) { vf_sample("%s: %d instance(s) %s%d operations, magnitude %d", mode, ni, desc, nops, g_mag); }
	vf_count_add("operations", nops);
	for(int i = 0; i < ni; ++i)
	{
		TrackPool *tp = tracked[i] ? &tps[i] : NULL;
		vf_count_max("largest population", I[i].peak);
		inst_close(&I[i]);
		if(tp)
		{
			VF_CHECK(MON_POOL, !tp->live, "pool-close", "%zu nodes not returned to the pool on free", tp->live);
			vf_count_add("pool nodes handed out", tp->allocs);
			vf_count_add("pool nodes returned", tp->frees);
			track_pool_fini(tp);
		}
		for(int j = i + 1; j < ni; ++j) { audit(&I[j], rng); } /* the others are unharmed */
	}
	if(mp) { memory_pool_destroy(mp); }
	VF_CHECK(MON_LEAK, VF_GET(vf_live_blocks) == blocks0 && VF_GET(vf_live_bytes) == bytes0, "leak", "%ld blocks (%ld bytes) of the library still allocated after free", (long)(VF_GET(vf_live_blocks) - blocks0), (long)(VF_GET(vf_live_bytes) - bytes0));
	vf_count_add("releases observed", led_total_released);
	led_total_released = 0;
	led_case_end();
	vf_case_done(nontrivial);
}

/* ---- plain integer keys: large populations, exhaustive small ones ---- */
static size_t g_cluster; /* that many of the keys collide */
static uint32_t hi_mix(const void *p) { ++g_hashes; if((uintptr_t)p / 8 - 1 < g_cluster) { return 12345; } return (uint32_t)vf_mix((uintptr_t)p, 3); }
static bool eqi(const void *a, const void *b) { note(a, b); return a == b; }
static int32_t cmpi(const void *a, const void *b) { note(a, b); return magnitude((a > b) - (a < b), 9); }
#define KEY(i) ((void *)((uintptr_t)(i) * 8 + 8))
#define VAL(i, r) ((r) == 255 ? NULL : (void *)(((uintptr_t)(i) << 8 | (uintptr_t)(r)) + 1))

/* what the callbacks were given, what they should have been given */
static struct { uint64_t keys, keysum, vals, valsum; } g_rel, g_owed;
static void fk_big(void *p) { ++g_rel.keys; g_rel.keysum += (uintptr_t)p; }
static void fv_big(void *p) { ++g_rel.vals; g_rel.valsum += (uintptr_t)vx(p); }

typedef struct { Map m; bool fk, fv; uint8_t *rev; size_t u, n, peak, fixed; CompareFunc cmp; uint32_t *seen; uint32_t mark; } Big;
static void
big_cost(Big *B, size_t n)
{
	Inst t = { .m = { .type = B->m.type } };
	cost_check(&t, n);
}
static void
big_owe(Big *B, size_t i)
{
	if(!B->rev[i]) { return; }
	if(B->fk) { ++g_owed.keys; g_owed.keysum += (uintptr_t)KEY(i); }
	if(B->fv && B->rev[i] != 255) { ++g_owed.vals; g_owed.valsum += (uintptr_t)VAL(i, B->rev[i]); }
}
static void
big_paid(const char *what)
{
	VF_CHECK(MON_OWN, !memcmp(&g_rel, &g_owed, sizeof g_rel), "own-release-sum", "%s: %lu keys and %lu values released in all (sums %lx, %lx), should be %lu and %lu (%lx, %lx)", what, (unsigned long)g_rel.keys, (unsigned long)g_rel.vals, (unsigned long)g_rel.keysum, (unsigned long)g_rel.valsum, (unsigned long)g_owed.keys, (unsigned long)g_owed.vals, (unsigned long)g_owed.keysum, (unsigned long)g_owed.valsum);
}
static void
big_callbacks(Big *B, Rng *rng)
{
	B->fk = rng_u64(rng) & 1;
	B->fv = rng_u64(rng) & 1;
	memset(&g_rel, 0, sizeof g_rel);
	memset(&g_owed, 0, sizeof g_owed);
}
static void
big_clear(Big *B)
{
	for(size_t i = 0; i < B->u; ++i) { big_owe(B, i); }
	m_clear(&B->m);
	memset(B->rev, 0, B->u);
	B->n = 0;
	big_paid("clear");
}
static void
big_close(Big *B)
{
	for(size_t i = 0; i < B->u; ++i) { big_owe(B, i); }
	m_close(&B->m);
	big_paid("free");
	vf_count_add("releases observed", g_rel.keys + g_rel.vals);
}
static void
big_set(Big *B, size_t i, uint8_t r)
{
	size_t n = B->n;
	big_owe(B, i);
	int x = m_set(&B->m, KEY(i), VAL(i, r), true);
	VF_CHECK(MON_FUNC, x == (B->rev[i] ? 1 : 0), "set-result", "set of %s key %zu answers %d", B->rev[i] ? "present" : "absent", i, x);
	big_cost(B, n);
	if(!B->rev[i] && ++B->n > B->peak) { B->peak = B->n; }
	B->rev[i] = r;
	big_paid("set");
}
static void
big_del(Big *B, size_t i)
{
	size_t n = B->n;
	big_owe(B, i);
	int x = m_remove(&B->m, KEY(i));
	if(x >= 0) { VF_CHECK(MON_FUNC, x == (B->rev[i] != 0), "remove-result", "remove of %s key answers %d", B->rev[i] ? "present" : "absent", x); }
	big_cost(B, n);
	if(B->rev[i]) { --B->n; B->rev[i] = 0; }
	big_paid("remove");
}
static void
big_query(Big *B, size_t i)
{
	bool x = m_exists(&B->m, KEY(i));
	VF_CHECK(MON_FUNC | MON_GROW, x == (B->rev[i] != 0), "exists", "key %zu: key_exists says %d", i, x);
	big_cost(B, B->n);
	void *p = m_lookup(&B->m, KEY(i));
	VF_CHECK(MON_FUNC | MON_GROW | MON_PAIR, (p != NULL) == (B->rev[i] != 0), "lookup", "key %zu (present %d): lookup %s", i, B->rev[i] != 0, p ? "found" : "not found");
	big_cost(B, B->n);
	if(p) { VF_CHECK(MON_FUNC | MON_GROW | MON_PAIR, p_key(&B->m, p, i & 1) == KEY(i) && p_val(&B->m, p, i & 1) == VAL(i, B->rev[i]), "pair-value", "key %zu: wrong pair", i); }
}
static void
big_pair(Big *B, size_t i, uint8_t r)
{
	void *p = m_lookup(&B->m, KEY(i));
	big_cost(B, B->n);
	VF_CHECK(MON_FUNC | MON_PAIR, (p != NULL) == (B->rev[i] != 0), "lookup", "key %zu (present %d): lookup %s", i, B->rev[i] != 0, p ? "found" : "not found");
	if(!p || !B->rev[i]) { return; }
	if(B->fv && B->rev[i] != 255) { ++g_owed.vals; g_owed.valsum += (uintptr_t)VAL(i, B->rev[i]); }
	p_set(&B->m, p, VAL(i, r));
	B->rev[i] = r;
	big_paid("pair_set_value");
	big_query(B, i);
}
static void
big_audit(Big *B, Rng *rng)
{
	size_t c = m_count(&B->m);
	VF_CHECK(MON_FUNC | MON_GROW, c == B->n, "count", "count is %zu, should be %zu", c, B->n);
	if(B->m.type == RB && (vf_mon & MON_BAL)) { unsigned h = rb_check(B->m.rb, B->n, B->cmp, NULL); vf_count("tree walks"); vf_count_max("largest black height", h); }
	if(B->m.type == AA)
	{
		size_t s = assoc_array_size(B->m.aa), lim = 2 * B->peak < 8 ? 8 : 2 * B->peak;
		VF_CHECK(MON_FUNC | MON_COST, s >= B->n, "aa-size-small", "size %zu below count %zu", s, B->n);
		VF_CHECK(MON_COST, s <= lim, "aa-size-large", "size %zu, largest population %zu", s, B->peak);
	}
	int64_t bl = VF_GET(vf_live_blocks);
	Iter it;
	size_t n = 0;
	uintptr_t prev = 0;
	uint32_t mark = ++B->mark;
	i_init(&B->m, &it);
	while(i_next(&B->m, &it))
	{
		uintptr_t k = (uintptr_t)i_key(&B->m, &it, n & 1);
		size_t i = k / 8 - 1;
		VF_CHECK(MON_FUNC | MON_ITER | MON_GROW, k % 8 == 0 && i < B->u && B->rev[i] && B->seen[i] != mark, "iter-foreign", "iteration yields a foreign key or one key twice");
		VF_CHECK(MON_FUNC | MON_ITER | MON_GROW, i_val(&B->m, &it, n & 1) == VAL(i, B->rev[i]), "iter-value", "iteration yields the wrong value");
		if(B->m.type == AA) { VF_CHECK(MON_FUNC | MON_ITER | MON_SORT, k > prev, "aa-order", "array not in ascending key order"); }
		if(i < B->u) { B->seen[i] = mark; }
		prev = k;
		if(++n > B->n) { break; }
	}
	VF_CHECK(MON_FUNC | MON_ITER | MON_GROW, n == B->n, "iter-count", "iteration yields %zu of %zu entries", n, B->n);
	for(int i = 0; i < 3; ++i) { VF_CHECK(MON_ITER, !i_next(&B->m, &it), "iter-past-end", "iteration continues after its end"); }
	i_fini(&B->m, &it);
	VF_CHECK(MON_FOOT | MON_ITER, VF_GET(vf_live_blocks) == bl, "read-keeps-memory", "an iteration left memory behind");
	size_t q = B->u < 3000 ? B->u : 3000;
	for(size_t j = 0; j < q; ++j) { big_query(B, q == B->u ? j : rng_below(rng, B->u)); }
	vf_count("audits");
}
static size_t
order(int kind, size_t i, size_t n, const uint32_t *perm)
{
	switch(kind)
	{
		case 0: return i;
		case 1: return n - 1 - i;
		case 2: return i & 1 ? n - 1 - i / 2 : i / 2; /* both ends inwards */
		case 3: return n / 2 + (i & 1 ? (i + 1) / 2 : 0) - (i & 1 ? 0 : i / 2) - (n & 1 || !i ? 0 : 0); /* middle outwards */
		default: return perm[i];
	}
}
static void
big_fill(Big *B, int kind, size_t n, const uint32_t *perm, Rng *rng)
{
	vf_op("fill", n, kind);
	uint64_t hashes0 = g_hashes, next = 16;
	for(size_t i = 0; i < n; ++i)
	{
		big_set(B, order(kind, i, n, perm), 1 + i % 255);
		if(B->n == next || i == n - 1)
		{
			next += next / 3 + 1;
			if(B->fixed) { VF_CHECK(MON_GROW, HT_SIZE(B->m.ht, B->fixed) == B->fixed, "ht-fixed-size", "bucket count changed from %zu to %zu", B->fixed, (size_t)HT_SIZE(B->m.ht, B->fixed)); vf_count("fixed sizes kept"); }
			else if(B->m.type == HT)
			{
				VF_CHECK(MON_GROW, g_hashes - hashes0 <= 8 * (uint64_t)B->n + 64, "ht-hash-calls", "%lu hash computations to insert %zu entries", (unsigned long)(g_hashes - hashes0), B->n);
				/* mean number of stored keys compared, present and absent keys */
				uint64_t h = g_hashes, cmps = 0, m = 400;
				for(uint64_t j = 0; j < m; ++j) { size_t q = rng_below(rng, 2) ? rng_below(rng, B->u) : order(kind, rng_below(rng, i + 1), n, perm); m_lookup(&B->m, KEY(q)); cmps += distinct(0); }
				hashes0 += g_hashes - h;
				VF_CHECK(MON_GROW, g_cluster || cmps <= 4 * m, "ht-lookup-cost", "lookups in a table of %zu entries compare %.2f keys on average", B->n, (double)cmps / m);
				if(!g_cluster) vf_count_max("worst mean of keys compared per lookup x100", cmps * 100 / m);
			}
			uint64_t h = g_hashes;
			if(B->n < 20000 || i == n - 1) { big_audit(B, rng); }
			else { for(int j = 0; j < 200; ++j) { big_query(B, rng_below(rng, B->u)); } }
			hashes0 += g_hashes - h;
		}
	}
}
static void
big_case(const char *mode, int type, uint64_t idx, Rng *rng)
{
	static const size_t ns[] = { 300, 1100, 4200, 17000, 17000, 70000 };
	size_t n;
	bool scaled = strstr(mode, "-grow");
	if(type == HT) { n = ns[idx % 6]; if(scaled) { n = idx % 4 == 3 ? 280000 : idx % 4 == 2 ? 70000 : 4200 << (idx % 2 * 2); if(idx % 32 == 15) { n = 1070000; } if(vf_thorough && idx % 8 == 7) { n = 4300000; } } }
	else if(type == RB) { n = ns[idx % 5]; if(idx % 8 == 5) { n = 400000; } if(vf_thorough && idx % 10 == 9) { n = 1000000; } }
	else { n = idx % 6 == 5 ? 150000 : ns[idx % 4]; if(vf_thorough && idx % 12 == 11) { n = 1000000; } }
	size_t fixed = 0;
	if(type == HT && idx % 7 == 3)
	{
		/* a fixed bucket count, many times overfilled */
		static const size_t fs[] = { 257, 1031, 256, 100, 7, 1, 4127, 2 };
		fixed = fs[idx / 7 % 8];
		n = 6 * fixed + 100;
	}
	n += rng_below(rng, 40);
	/* a bad hash: growth has to move long chains */
	g_cluster = type == HT && !fixed && idx % 5 == 4 && n > 400 ? 200 + rng_below(rng, n / 2 < 2000 ? n / 2 : 2000) : 0;
	if(g_cluster) { vf_count("tables with a long chain"); }
	int64_t blocks0 = VF_GET(vf_live_blocks), bytes0 = VF_GET(vf_live_bytes);
	Big B = { .u = n + 500, .fixed = fixed };
	B.rev = xcalloc(B.u, 1);
	B.seen = xcalloc(B.u, sizeof *B.seen);
	uint32_t *perm = xmalloc(n * sizeof *perm);
	for(size_t i = 0; i < n; ++i) { perm[i] = i; }
	for(size_t i = n - 1; i > 0; --i) { size_t j = rng_below(rng, i + 1); uint32_t t = perm[i]; perm[i] = perm[j]; perm[j] = t; }
	int kind = rng_below(rng, 5);
	if(kind == 3) { kind = 4; }
	if(type == AA && n > 20000) { kind = 0; } /* shifting makes other orders quadratic */
	g_mag = rng_below(rng, 6);
	B.cmp = cmpi;
	MemoryPool *mp = type == RB && (rng_u64(rng) & 1) ? memory_pool_new(sizeof(RBNode), 1000) : NULL;
	big_callbacks(&B, rng);
	m_open(&B.m, type, rng_u64(rng) & 1, fixed, hi_mix, eqi, cmpi, B.fk ? fk_big : NULL, B.fv ? fv_big : NULL, (Pool *)mp);
	/* a third of the automatically sized tables is emptied early: growth goes on after that */
	int fills = 1;
	if(type == HT && idx % 3 == 1)
	{
		if(idx % 2 || scaled) { size_t k = rng_below(rng, 4) ? 260 + rng_below(rng, 1500) : n / 8; for(size_t i = 0; i < k; ++i) { big_set(&B, rng_below(rng, B.u), 5); } }
		for(int t = 1 + (int)rng_below(rng, 2); t; --t) { big_clear(&B); }
	}
	if(type == HT && scaled ? idx % 5 == 2 : n < 20000 && rng_pct(rng, 50)) { fills = 2; }
	for(int f = 0; f < fills; ++f)
	{
		if(f) { big_clear(&B); big_audit(&B, rng); kind = 4; }
		big_fill(&B, kind, n, perm, rng);
	}
	vf_count_max("largest population", B.n);
	/* thin out, refill, drain */
	size_t dels = type == AA && n > 20000 ? 2000 : n;
	int kind2 = rng_below(rng, 5);
	if(kind2 == 3) { kind2 = 4; }
	if(type == AA && n > 20000) { kind2 = 1; }
	vf_op("drain", dels, kind2);
	for(size_t i = 0; i < dels; ++i)
	{
		if(rng_pct(rng, 85)) { big_del(&B, order(kind2, i, n, perm)); }
		if(rng_pct(rng, 10)) { size_t q = rng_below(rng, B.u); if(type != AA || n < 20000 || rng_pct(rng, 40)) { if(rng_u64(rng) & 1) { big_set(&B, q, 1 + rng_below(rng, 255)); } else { big_del(&B, q); } } }
		if(rng_pct(rng, 20)) { big_pair(&B, rng_below(rng, B.u), 1 + rng_below(rng, 255)); }
		if(n < 2000 ? i % 37 == 0 : i % (n / 7) == 0) { big_audit(&B, rng); }
	}
	big_audit(&B, rng);
	if(fixed) { VF_CHECK(MON_GROW, HT_SIZE(B.m.ht, fixed) == fixed, "ht-fixed-size", "bucket count changed from %zu to %zu", fixed, (size_t)HT_SIZE(B.m.ht, fixed)); }
	if(rng_u64(rng) & 1)
	{
		big_clear(&B);
		big_audit(&B, rng);
		for(size_t i = 0; i < 300; ++i) { big_set(&B, rng_below(rng, B.u), 7); }
		big_audit(&B, rng);
	}
	big_close(&B);
	if(mp) { memory_pool_destroy(mp); }
	VF_CHECK(MON_LEAK, VF_GET(vf_live_blocks) == blocks0 && VF_GET(vf_live_bytes) == bytes0, "leak", "%ld blocks of the library still allocated after free", (long)(VF_GET(vf_live_blocks) - blocks0));
	if(vf_want_sample()) { vf_sample("%s: fill with %zu keys in order %d, drain %zu in order %d, magnitude %d, pool %d", mode, n, kind, dels, kind2, g_mag, mp != NULL); }
	free(B.rev); free(B.seen); free(perm);
	vf_op("end", B.n, B.peak);
	vf_case_done(true);
}

/* a walk over the entries with the model at hand; cheaper than an audit */
static void
big_glance(Big *B)
{
	size_t n = 0, c = m_count(&B->m);
	VF_CHECK(MON_FUNC | MON_GROW, c == B->n, "count", "count is %zu, should be %zu", c, B->n);
	if(B->m.type == RB && (vf_mon & MON_BAL)) { rb_check(B->m.rb, B->n, B->cmp, NULL); }
	Iter it;
	uint32_t mark = ++B->mark;
	if(B->m.type == RB && mark % 4 == 0)
	{
		/* reused, after a tree with few entries */
		RBTree small;
		memset(&it, 0xa5, sizeof it);
		rbtree_init(&small, direct_compare, NULL, NULL, NULL);
		for(uintptr_t i = 1; i <= mark / 4 % 4; ++i) { rbtree_set(&small, (void *)i, NULL, true); }
		rbtree_iter_init(&small, &it.rb);
		if(mark / 16 % 2) { rbtree_iter_next(&it.rb); }
		rbtree_iter_reuse(B->m.rb, &it.rb);
		rbtree_free(&small);
	}
	else { i_init(&B->m, &it); }
	while(i_next(&B->m, &it))
	{
		size_t i = (uintptr_t)i_key(&B->m, &it, false) / 8 - 1;
		VF_CHECK(MON_FUNC | MON_ITER | MON_GROW, i < B->u && B->rev[i] && B->seen[i] != mark, "iter-foreign", "iteration yields a foreign key or one key twice");
		if(i >= B->u) { break; }
		VF_CHECK(MON_FUNC | MON_ITER | MON_GROW, i_val(&B->m, &it, true) == VAL(i, B->rev[i]), "iter-value", "iteration yields the wrong value");
		B->seen[i] = mark;
		if(++n > B->n) { break; }
	}
	VF_CHECK(MON_FUNC | MON_ITER | MON_GROW, n == B->n, "iter-count", "iteration yields %zu of %zu entries", n, B->n);
	VF_CHECK(MON_ITER, !i_next(&B->m, &it), "iter-past-end", "iteration continues after its end");
	i_fini(&B->m, &it);
}
/* no population is special: each kind of operation at every single one of them */
static void
sweep_case(const char *mode, int type, uint64_t idx, Rng *rng)
{
	static const size_t fs[] = { 0, 0, 257, 0, 16, 64 };
	size_t n = (idx % 4 == 3 ? 300 : vf_thorough ? 2200 : 1060) + rng_below(rng, 40), fixed = type == HT ? fs[idx % 6] : 0;
	int64_t blocks0 = VF_GET(vf_live_blocks), bytes0 = VF_GET(vf_live_bytes);
	Big B = { .u = n + 40, .fixed = fixed, .cmp = cmpi };
	B.rev = xcalloc(B.u, 1);
	B.seen = xcalloc(B.u, sizeof *B.seen);
	uint32_t *perm = xmalloc(n * sizeof *perm);
	for(size_t i = 0; i < n; ++i) { perm[i] = i; }
	for(size_t i = n - 1; i > 0; --i) { size_t j = rng_below(rng, i + 1); uint32_t t = perm[i]; perm[i] = perm[j]; perm[j] = t; }
	static const int kinds[] = { 0, 1, 2, 4 };
	int kind = kinds[rng_below(rng, 4)];
	g_mag = rng_below(rng, 6);
	g_cluster = 0;
	MemoryPool *mp = type == RB && (rng_u64(rng) & 1) ? memory_pool_new(sizeof(RBNode), 1 + rng_below(rng, 600)) : NULL;
	big_callbacks(&B, rng);
	bool heap = rng_u64(rng) & 1;
	m_open(&B.m, type, heap, fixed, hi_mix, eqi, cmpi, B.fk ? fk_big : NULL, B.fv ? fv_big : NULL, (Pool *)mp);
	vf_op("sweep", n, kind);
	/* up, and at each step there and back again in several ways */
	for(size_t i = 0; i < n; ++i)
	{
		size_t newest = order(kind, i, n, perm), lo = SIZE_MAX, hi = 0, some = order(kind, rng_below(rng, i + 1), n, perm);
		big_set(&B, newest, 1 + rng_below(rng, 255));
		if(i % 8 == 0) { big_audit(&B, rng); } else { big_glance(&B); }
		for(size_t j = 0; j < B.u; ++j) { if(B.rev[j]) { if(lo == SIZE_MAX) { lo = j; } hi = j; } }
		size_t victim[4] = { newest, lo, hi, some };
		for(int v = 0; v < 4; ++v)
		{
			size_t k = victim[v];
			big_pair(&B, k, 1 + rng_below(rng, 255));
			big_set(&B, k, 1 + rng_below(rng, 255));
			big_del(&B, k);
			big_query(&B, k);
			big_query(&B, some);
			big_del(&B, k); /* not there */
			if(v == (int)(i % 4)) { big_glance(&B); }
			big_set(&B, k, 1 + rng_below(rng, 255));
			big_query(&B, k);
			big_query(&B, n + rng_below(rng, 40));
		}
		/* a tree is repaired in more ways than these four removals meet */
		for(int v = 0; type == RB && v < 8; ++v)
		{
			size_t k = order(kind, rng_below(rng, i + 1), n, perm);
			big_del(&B, k);
			if(v % 2) { big_glance(&B); }
			big_set(&B, k, 1 + rng_below(rng, 255));
		}
		big_glance(&B);
	}
	/* down */
	int kind2 = kinds[rng_below(rng, 4)];
	for(size_t i = 0; i < n; ++i)
	{
		size_t k = order(kind2, i, n, perm);
		big_del(&B, k);
		if(i % 8 == 0) { big_audit(&B, rng); } else { big_glance(&B); }
		if(type != AA || i % 4 == 0) { big_query(&B, k); }
	}
	big_audit(&B, rng);
	vf_count_add("populations swept", 2 * n);
	/* cleared, or closed and opened again, at every population */
	for(size_t p = 0; p <= n; ++p)
	{
		for(size_t i = 0; i < p; ++i) { big_set(&B, order(kind, i, n, perm), 1 + (i + p) % 255); }
		if(p % 2 == idx % 2)
		{
			big_clear(&B);
			if(p % 3 == 0) { big_clear(&B); }
			big_glance(&B);
			big_query(&B, perm[0]);
		}
		else
		{
			big_close(&B);
			if(!mp) { VF_CHECK(MON_LEAK, VF_GET(vf_live_blocks) == blocks0 && VF_GET(vf_live_bytes) == bytes0, "leak", "%ld blocks of the library still allocated after free of %zu entries", (long)(VF_GET(vf_live_blocks) - blocks0), p); }
			memset(B.rev, 0, B.u);
			B.n = B.peak = 0;
			heap = !heap;
			m_open(&B.m, type, heap, fixed, hi_mix, eqi, cmpi, B.fk ? fk_big : NULL, B.fv ? fv_big : NULL, (Pool *)mp);
		}
	}
	vf_count_add("populations cleared or closed", n + 1);
	big_close(&B);
	if(mp) { memory_pool_destroy(mp); }
	VF_CHECK(MON_LEAK, VF_GET(vf_live_blocks) == blocks0 && VF_GET(vf_live_bytes) == bytes0, "leak", "%ld blocks of the library still allocated after free", (long)(VF_GET(vf_live_blocks) - blocks0));
	if(vf_want_sample()) { vf_sample("%s: every population up to %zu, order %d up and %d down, magnitude %d, pool %d", mode, n, kind, kind2, g_mag, mp != NULL); }
	free(B.rev); free(B.seen); free(perm);
	vf_op("end", B.n, B.peak);
	vf_case_done(true);
}

/* every insertion order of n keys (case index = permutation number) and, for each,
 * removal in every rotation of a second order and removal of each single key */
static void
exh_case(const char *mode, int type, uint64_t idx, Rng *rng)
{
	int n = 1;
	uint64_t f = 1, i = idx;
	while(i >= f) { i -= f; ++n; f *= n; }
	uint8_t ins[12], pool[12];
	for(int j = 0; j < n; ++j) { pool[j] = j; }
	uint64_t rem = i, div = f;
	for(int j = 0; j < n; ++j)
	{
		div /= n - j;
		int s = rem / div;
		rem %= div;
		ins[j] = pool[s];
		memmove(pool + s, pool + s + 1, n - j - s - 1);
	}
	g_mag = 0;
	g_cluster = 0;
	uint8_t rev[16] = { 0 };
	uint32_t seen[16] = { 0 };
	int variants = n + 4;
	for(int v = 0; v < variants; ++v)
	{
		Big B = { .u = n + 2, .rev = rev, .seen = seen, .cmp = cmpi };
		memset(rev, 0, sizeof rev);
		memset(seen, 0, sizeof seen);
		big_callbacks(&B, rng);
		m_open(&B.m, type, v & 1, type == HT ? 1 + v % 3 : 0, hi_mix, eqi, cmpi, B.fk ? fk_big : NULL, B.fv ? fv_big : NULL, NULL);
		for(int j = 0; j < n; ++j)
		{
			vf_op("set", ins[j], v);
			big_set(&B, ins[j], j % 3 ? 1 + j : 255);
			if(!v || j == n - 1) { big_audit(&B, rng); }
		}
		if(type == RB) { vf_state(rb_shape(B.m.rb)); }
		if(v < n) { vf_op("remove", v, 0); big_del(&B, v); big_audit(&B, rng); }
		else
		{
			for(int j = 0; j < n; ++j)
			{
				int d = v == n ? ins[j] : v == n + 1 ? ins[n - 1 - j] : v == n + 2 ? (j * 3 + (int)(idx % n)) % n : (int)rng_below(rng, n);
				vf_op("remove", d, 0);
				big_del(&B, d);
				big_audit(&B, rng);
				if(v == n + 3 && j % 2) { big_set(&B, d, 9); big_audit(&B, rng); }
			}
		}
		big_close(&B);
	}
	if(vf_want_sample()) { vf_sample("%s: permutation %lu of %d keys, %d removal orders", mode, (unsigned long)i, n, variants); }
	vf_case_done(true);
}

/* bounded population, long history: memory stays within a factor of the peak's */
static void
mem_case(const char *mode, int type, Rng *rng)
{
	static const size_t ps[] = { 1, 3, 10, 130, 700, 3000 };
	size_t p = ps[rng_below(rng, 6)];
	int64_t bytes0 = VF_GET(vf_live_bytes);
	Big B = { .u = p * 2 + 2, .cmp = cmpi };
	B.rev = xcalloc(B.u, 1);
	B.seen = xcalloc(B.u, sizeof *B.seen);
	g_mag = 0;
	MemoryPool *mp = type == RB && (rng_u64(rng) & 1) ? memory_pool_new(sizeof(RBNode), 64) : NULL;
	big_callbacks(&B, rng);
	m_open(&B.m, type, true, type == HT && (rng_u64(rng) & 1) ? 1 + rng_below(rng, 300) : 0, hi_mix, eqi, cmpi, B.fk ? fk_big : NULL, B.fv ? fv_big : NULL, (Pool *)mp);
	int64_t warm = 0, most = 0;
	int rounds = vf_thorough ? 120 : 40;
	for(int r = 0; r < rounds; ++r)
	{
		int what = r < 4 ? 0 : rng_below(rng, 5);
		size_t ops = 0;
		if(what == 0)
		{
			/* fill to the peak and drain */
			for(size_t i = 0; B.n < p; ++i, ++ops) { big_set(&B, i % B.u, 1); most = VF_GET(vf_live_bytes) > most ? VF_GET(vf_live_bytes) : most; }
			Iter it;
			i_init(&B.m, &it);
			while(i_next(&B.m, &it)) { }
			most = VF_GET(vf_live_bytes) > most ? VF_GET(vf_live_bytes) : most;
			i_fini(&B.m, &it);
			for(size_t i = 0; B.n; ++i, ++ops) { big_del(&B, i % B.u); most = VF_GET(vf_live_bytes) > most ? VF_GET(vf_live_bytes) : most; }
		}
		else if(what == 1) { for(size_t i = 0; i < 4 * p + 50; ++i, ++ops) { size_t q = rng_below(rng, B.u); if(B.n < p && (rng_u64(rng) & 1)) { big_set(&B, q, 1 + rng_below(rng, 9)); } else { big_del(&B, q); } most = VF_GET(vf_live_bytes) > most ? VF_GET(vf_live_bytes) : most; } }
		else if(what == 2) { for(size_t i = 0; i < 50 + p; ++i, ++ops) { if(!B.n || B.n < p) { big_set(&B, i % B.u, 3); } else { big_clear(&B); } most = VF_GET(vf_live_bytes) > most ? VF_GET(vf_live_bytes) : most; } }
		else if(what == 3) { big_clear(&B); for(int i = 0; i < 60; ++i) { big_clear(&B); } most = VF_GET(vf_live_bytes) > most ? VF_GET(vf_live_bytes) : most; }
		else { for(int i = 0; i < 30; ++i) { Iter it; i_init(&B.m, &it); for(size_t s = rng_below(rng, B.n + 2); s && i_next(&B.m, &it); --s) { } i_fini(&B.m, &it); big_query(&B, rng_below(rng, B.u)); } most = VF_GET(vf_live_bytes) > most ? VF_GET(vf_live_bytes) : most; }
		if(r == 5 || r == 20)
		{
			/* many thousand reads in a row */
			Iter its[2];
			if(type == RB) { i_init(&B.m, &its[0]); i_init(&B.m, &its[1]); }
			for(int i = 0; i < 20000; ++i)
			{
				size_t q = rng_below(rng, B.u);
				if(i % 3) { m_lookup(&B.m, KEY(q)); } else { m_exists(&B.m, KEY(q)); }
				if(i % 64 == 0) { Iter t; i_init(&B.m, &t); for(int k = i / 64 % 5; k && i_next(&B.m, &t); --k) { } i_fini(&B.m, &t); }
				if(type == RB) { if(i % 32 == 0) { rbtree_iter_reuse(B.m.rb, &its[i / 32 % 2].rb); } rbtree_iter_next(&its[i / 7 % 2].rb); }
			}
			if(type == RB) { i_fini(&B.m, &its[0]); i_fini(&B.m, &its[1]); }
			most = VF_GET(vf_live_bytes) > most ? VF_GET(vf_live_bytes) : most;
			ops += 20000;
		}
		vf_op("round", what, B.n);
		vf_count_add("operations", ops);
		if(r == 3) { warm = most - bytes0; }
		if(r > 3) { VF_CHECK(MON_FOOT, most - bytes0 <= 2 * warm + 8192, "memory-growth", "%ld bytes in use, at the same population of %zu it was %ld before", (long)(most - bytes0), p, (long)warm); }
	}
	/* the footprint itself is proportionate */
	VF_CHECK(MON_FOOT, warm <= 400 * (int64_t)p + 40000, "memory-share", "%ld bytes for %zu entries", (long)warm, p);
	vf_count_max("most bytes at peak", warm);
	big_close(&B);
	if(mp) { memory_pool_destroy(mp); }
	VF_CHECK(MON_LEAK | MON_FOOT, VF_GET(vf_live_bytes) == bytes0, "leak", "%ld bytes of the library still allocated after free", (long)(VF_GET(vf_live_bytes) - bytes0));
	if(vf_want_sample()) { vf_sample("%s: peak population %zu, %d rounds, %ld bytes after the first fill, %ld at most later", mode, p, rounds, (long)warm, (long)(most - bytes0)); }
	free(B.rev); free(B.seen);
	vf_case_done(true);
}

/* a hash table with more buckets than 31 bits can count */
static uint64_t huge_released;
static uint8_t *huge_gone;
/* every other key belongs behind the first 2^31 buckets */
static uint32_t huge_hash(const void *p) { uint32_t h = (uint32_t)((uintptr_t)p * 2654435761u); return (uintptr_t)p % 2 ? 0x80000000u + h % (1u << 24) : h; }
static void huge_free_key(void *p) { ++huge_released; ++huge_gone[(uintptr_t)p]; }
static void
huge_case(uint64_t idx, Rng *rng)
{
	size_t size = ((size_t)1 << 31) + ((size_t)1 << 24) + 11 + 2 * rng_below(rng, 100000), n = 2000 + rng_below(rng, 1000);
	int64_t bytes0 = VF_GET(vf_live_bytes);
	if(!vf_memory((size_t)10 << 30, size * sizeof(void *) + ((size_t)1 << 30))) { vf_case_done(false); return; }
	prctl(PR_SET_THP_DISABLE, 1, 0, 0, 0);
	bool fk = rng_pct(rng, 50);
	vf_op("huge", (int64_t)size, (int64_t)n);
	HashTable t;
	hashtable_init(&t, size, huge_hash, eqi, fk ? huge_free_key : NULL, NULL);
	huge_released = 0;
	huge_gone = xcalloc(n + 1, 1);
	uint8_t *has = xcalloc(n + 1, 1);
	size_t count = 0;
	for(int i = 0; i < (int)(3 * n); ++i)
	{
		uintptr_t k = 1 + (i < (int)n ? (uintptr_t)i : rng_below(rng, n));
		if(i < (int)n || rng_pct(rng, 50))
		{
			HashTableInsertResult r = hashtable_set(&t, (void *)k, (void *)(k ^ 0x55), false);
			VF_CHECK(MON_FUNC, r == (has[k] ? HASHTABLE_INSERT_RESULT_REPLACED : HASHTABLE_INSERT_RESULT_NEW), "set-result", "set of key %lu says %d", (unsigned long)k, (int)r);
			count += !has[k];
			has[k] = 1;
		}
		else
		{
			uint64_t was = huge_released;
			hashtable_remove(&t, (void *)k);
			if(fk) { VF_CHECK(MON_OWN, huge_released - was == has[k], "released", "removing key %lu releases %lu keys", (unsigned long)k, (unsigned long)(huge_released - was)); }
			count -= has[k];
			has[k] = 0;
		}
		VF_CHECK(MON_FUNC, hashtable_count(&t) == count, "count", "%zu entries counted, %zu expected", hashtable_count(&t), count);
	}
	for(uintptr_t k = 1; k <= n; ++k)
	{
		HashTablePair *p = hashtable_lookup(&t, (void *)k);
		VF_CHECK(MON_FUNC | MON_PAIR, !!p == has[k] && (!p || (hashtable_pair_get_key(p) == (void *)k && hashtable_pair_get_value(p) == (void *)(k ^ 0x55))), "lookup", "wrong answer for key %lu", (unsigned long)k);
		VF_CHECK(MON_FUNC, hashtable_key_exists(&t, (void *)k) == has[k], "exists", "wrong answer about key %lu", (unsigned long)k);
	}
	VF_CHECK(MON_GROW, HT_SIZE(&t, size) == size, "ht-fixed-size", "bucket count changed from %zu to %zu", size, (size_t)HT_SIZE(&t, size));
	if(vf_mon & MON_ITER)
	{
		HashTableIter it;
		size_t seen = 0;
		hashtable_iter_init(&t, &it);
		while(hashtable_iter_next(&it))
		{
			uintptr_t k = (uintptr_t)hashtable_iter_get_key(&it);
			VF_CHECK(MON_ITER, k >= 1 && k <= n && has[k] == 1, "iter", "iteration gives key %lu", (unsigned long)k);
			has[k] = 2;
			++seen;
		}
		VF_CHECK(MON_ITER, seen == count, "iter-count", "iteration gives %zu of %zu entries", seen, count);
	}
	uint64_t was = huge_released;
	memset(huge_gone, 0, n + 1);
	hashtable_free(&t);
	if(fk)
	{
		VF_CHECK(MON_OWN, huge_released - was == count, "released", "free releases %lu of %zu keys", (unsigned long)(huge_released - was), count);
		for(size_t k = 1; k <= n; ++k) { VF_CHECK(MON_OWN, huge_gone[k] == !!has[k], "released", "key %zu released %d times", k, huge_gone[k]); }
	}
	VF_CHECK(MON_LEAK, VF_GET(vf_live_bytes) == bytes0, "leak", "library memory still allocated after free");
	free(has);
	free(huge_gone);
	vf_count("tables with more than 2^31 buckets");
	if(vf_want_sample()) { vf_sample("%zu buckets, %zu entries", size, count); }
	vf_case_done(true);
}
void
run_case(const char *mode, uint64_t idx, Rng *rng)
{
	if(strstr(mode, "-huge")) { huge_case(idx, rng); return; }
	static const uintptr_t masks[] = { 0, 1, 2, 3, 7, (uintptr_t)1 << 63, (uintptr_t)0xffff << 48, UINTPTR_MAX };
	g_vx = masks[rng_below(rng, 8)];
	if(strstr(mode, "-big") || strstr(mode, "-grow") || strstr(mode, "-exh") || strstr(mode, "-sweep") || strstr(mode, "-mem")) { g_vx &= (uintptr_t)1 << 63; }
	int type = pick_type(mode);
	if(strstr(mode, "-big") || strstr(mode, "-grow")) { big_case(mode, type, idx, rng); }
	else if(strstr(mode, "-sweep")) { sweep_case(mode, type, idx, rng); }
	else if(strstr(mode, "-exh")) { exh_case(mode, type, idx, rng); }
	else if(strstr(mode, "-mem")) { mem_case(mode, type, rng); }
	else { rand_case(mode, type, rng); }
}
