#define _GNU_SOURCE
#include "vf.h"

#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <malloc.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <unistd.h>

uint32_t vf_mon = ~0U;
uint64_t vf_evals;
bool vf_verbose, vf_thorough;
uint64_t vf_seed, vf_case;
static const char *mode = "", *out_path, *fail_path;
static uint64_t *progress;

void *xmalloc(size_t n) { void *p = malloc(n ? n : 1); if(!p) { fprintf(stderr, "harness: out of memory\n"); _exit(77); } return p; }
void *xcalloc(size_t n, size_t s) { void *p = calloc(n ? n : 1, s ? s : 1); if(!p) { fprintf(stderr, "harness: out of memory\n"); _exit(77); } return p; }
void *xrealloc(void *q, size_t n) { void *p = realloc(q, n ? n : 1); if(!p) { fprintf(stderr, "harness: out of memory\n"); _exit(77); } return p; }

/* ---- trace ring ---- */
#define RING 96
static struct { const char *name; int64_t a, b; } ring[RING];
static uint64_t ring_n;
static uint64_t case_hash;
void
vf_op(const char *name, int64_t a, int64_t b)
{
	ring[ring_n % RING].name = name;
	ring[ring_n % RING].a = a;
	ring[ring_n % RING].b = b;
	++ring_n;
	case_hash = vf_mix(case_hash, vf_mix((uint64_t)name[0] * 131 + (uint64_t)name[1], vf_mix((uint64_t)a, (uint64_t)b)));
	vf_may_report = false;
	if(vf_mon & MON_QUIET) { VF_ADD(vf_evals, 1); }
	if(vf_verbose)
	{
		fprintf(stderr, "%8lu %s %ld %ld\n", (unsigned long)ring_n, name, (long)a, (long)b);
	}
}
void vf_state(uint64_t h) { case_hash = vf_mix(case_hash, h); }

static void
dump_ring(FILE *f)
{
	uint64_t n = ring_n < RING ? ring_n : RING;
	fprintf(f, "last %lu of %lu operations (name a b):\n", (unsigned long)n, (unsigned long)ring_n);
	for(uint64_t i = ring_n - n; i < ring_n; ++i)
	{
		fprintf(f, "  %s %ld %ld\n", ring[i % RING].name, (long)ring[i % RING].a, (long)ring[i % RING].b);
	}
}

static void
report(const char *word, const char *key, const char *fmt, va_list ap)
{
	char msg[1024];
	vsnprintf(msg, sizeof msg, fmt, ap);
	FILE *f = fail_path ? fopen(fail_path, "w") : NULL;
	for(int i = 0; i < 2; ++i)
	{
		FILE *o = i ? f : stderr;
		if(o)
		{
			fprintf(o, "%s key=%s case=%lu mode=%s seed=%lu\n%s\n", word, key, (unsigned long)vf_case, mode, (unsigned long)vf_seed, msg);
			dump_ring(o);
			fflush(o);
		}
	}
	if(f)
	{
		fclose(f);
	}
}

void
vf_fail(const char *key, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	report("VFFAIL", key, fmt, ap);
	_exit(41);
}
void
vf_stuck(const char *key, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	report("VFSTUCK", key, fmt, ap);
	_exit(43);
}

/* ---- coverage ---- */
#define MAXC 256
static struct { const char *name; uint64_t n; } cnt[MAXC];
static int ncnt;
static pthread_mutex_t cnt_mtx = PTHREAD_MUTEX_INITIALIZER;
static uint64_t *
counter(const char *name)
{
	for(int i = 0; i < ncnt; ++i)
	{
		if(cnt[i].name == name || !strcmp(cnt[i].name, name)) { return &cnt[i].n; }
	}
	if(ncnt == MAXC) { fprintf(stderr, "harness: too many counters\n"); _exit(77); }
	cnt[ncnt].name = strdup(name);
	cnt[ncnt].n = 0;
	return &cnt[ncnt++].n;
}
void vf_count_add(const char *name, uint64_t n) { pthread_mutex_lock(&cnt_mtx); *counter(name) += n; pthread_mutex_unlock(&cnt_mtx); }
void vf_count_max(const char *name, uint64_t n) { pthread_mutex_lock(&cnt_mtx); uint64_t *c = counter(name); if(n > *c) { *c = n; } pthread_mutex_unlock(&cnt_mtx); }

static uint64_t *hashes;
static size_t nhash, caphash;
static uint64_t cases, trivial;
void
vf_case_done(bool nontrivial)
{
	++cases;
	if(vf_mon & MON_QUIET) { VF_ADD(vf_evals, 1); }
	if(!nontrivial) { ++trivial; return; }
	if(nhash == caphash) { caphash = caphash ? caphash * 2 : 1024; hashes = xrealloc(hashes, caphash * sizeof *hashes); }
	hashes[nhash++] = case_hash;
}
static char samples[6][700];
static int nsamples;
bool vf_want_sample(void) { return nsamples < 2 || (nsamples < 6 && (vf_case & 63) == 7); }
void
vf_sample(const char *fmt, ...)
{
	if(nsamples < 6)
	{
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(samples[nsamples++], sizeof samples[0], fmt, ap);
		va_end(ap);
	}
}

static void
put_json_str(FILE *f, const char *s)
{
	fputc('"', f);
	for(; *s; ++s)
	{
		unsigned char c = *s;
		if(c == '"' || c == '\\') { fprintf(f, "\\%c", c); }
		else if(c < 32 || c > 126) { fprintf(f, "\\u%04x", c); }
		else { fputc(c, f); }
	}
	fputc('"', f);
}

static void
write_stats(void)
{
	if(!out_path) { return; }
	char path[4096];
	FILE *f = fopen(out_path, "w");
	if(!f) { perror(out_path); _exit(77); }
	fprintf(f, "{\"mode\":");
	put_json_str(f, mode);
	fprintf(f, ",\"cases\":%lu,\"trivial\":%lu,\"evals\":%lu,\"lib_allocs\":%ld,\"counters\":{", (unsigned long)cases, (unsigned long)trivial, (unsigned long)vf_evals, (long)vf_lib_allocs);
	for(int i = 0; i < ncnt; ++i)
	{
		fprintf(f, "%s", i ? "," : "");
		put_json_str(f, cnt[i].name);
		fprintf(f, ":%lu", (unsigned long)cnt[i].n);
	}
	fprintf(f, "},\"samples\":[");
	for(int i = 0; i < nsamples; ++i) { fprintf(f, "%s", i ? "," : ""); put_json_str(f, samples[i]); }
	fprintf(f, "]}\n");
	fclose(f);
	snprintf(path, sizeof path, "%s.hashes", out_path);
	f = fopen(path, "w");
	if(f) { fwrite(hashes, sizeof *hashes, nhash, f); fclose(f); }
}

/* ---- the library's heap ---- */
#define MAXFILL ((size_t)4 << 20)
int64_t vf_live_blocks, vf_live_bytes, vf_lib_allocs;
int64_t vf_fail_at;
bool vf_alloc_failed;

static bool
inject(void)
{
	VF_ADD(vf_lib_allocs, 1);
	if(vf_fail_at && !--vf_fail_at)
	{
		vf_alloc_failed = true;
		errno = ENOMEM;
		return true;
	}
	return false;
}
/* replaced by the harness which watches memory accesses */
__attribute__((weak)) void vf_block_hook(void *p, size_t n) { }
static void *
track(void *p)
{
	if(p)
	{
		size_t n = malloc_usable_size(p);
		VF_ADD(vf_live_blocks, 1);
		VF_ADD(vf_live_bytes, (int64_t)n);
		vf_block_hook(p, n);
	}
	return p;
}
void *
vf_malloc(size_t n)
{
	if(inject()) { return NULL; }
	void *p = malloc(n);
#if !defined(VF_SAN_HEAP)
	if(p) { memset(p, 0xa5, n < MAXFILL ? n : MAXFILL); }
#endif
	return track(p);
}
/* replaced by the harness that counts costs */
__attribute__((weak)) void vf_moved(size_t n) { }
void *vf_calloc(size_t n, size_t s) { vf_moved(n * s); return inject() ? NULL : track(calloc(n, s)); }
void
vf_free(void *p)
{
	if(p)
	{
		size_t n = malloc_usable_size(p);
		VF_ADD(vf_live_blocks, -1);
		VF_ADD(vf_live_bytes, -(int64_t)n);
#if !defined(VF_SAN_HEAP)
		memset(p, 0xdd, n < MAXFILL ? n : MAXFILL);
		__asm__ volatile("" : : "r"(p) : "memory");
#endif
	}
	free(p);
}
void *
vf_realloc(void *q, size_t n)
{
	if(inject()) { return NULL; }
	if(q && malloc_usable_size(q) >= ((size_t)64 << 20))
	{
		/* too much to copy */
		int64_t was = (int64_t)malloc_usable_size(q);
		void *big = realloc(q, n ? n : 1);
		if(big) { VF_ADD(vf_live_blocks, -1); VF_ADD(vf_live_bytes, -was); track(big); }
		return big;
	}
	/* always move: stale pointers into the old block become visible */
	void *p = malloc(n ? n : 1);
	if(!p) { return NULL; }
	track(p);
	size_t old = q ? malloc_usable_size(q) : 0;
	vf_moved(old < n ? old : n);
#if !defined(VF_SAN_HEAP)
	memset(p, 0xa5, n < MAXFILL ? n : MAXFILL);
#endif
	if(q)
	{
		memcpy(p, q, old < n ? old : n);
		vf_free(q);
	}
	return p;
}
void *vf_reallocarray(void *q, size_t n, size_t s) { size_t b; if(__builtin_mul_overflow(n, s, &b)) { errno = ENOMEM; return NULL; } return vf_realloc(q, b); }
char *vf_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = vf_malloc(n); if(p) { memcpy(p, s, n); } return p; }
char *vf_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = vf_malloc(n + 1); if(p) { memcpy(p, s, n); p[n] = 0; } return p; }
void *vf_aligned_alloc(size_t a, size_t n) { return inject() ? NULL : track(aligned_alloc(a, n)); }
int vf_posix_memalign(void **p, size_t a, size_t n) { if(inject()) { return ENOMEM; } int rc = posix_memalign(p, a, n); if(!rc) { track(*p); } return rc; }

/* what the library prints goes nowhere, and is judged */
_Thread_local bool vf_may_report;
static void
printed(const char *how, FILE *f, const char *text, size_t n)
{
	if(!vf_may_report || f != stderr) { VF_CHECK(MON_QUIET, false, "printed", "%s() prints \"%.*s\" to %s", how, (int)(n < 200 ? n : 200), text, f == stderr ? "standard error" : f == stdout ? "standard output" : "a stream"); }
	vf_count("failures reported on standard error");
}
#define VA(f) va_list ap; va_start(ap, fmt); printed(__func__ + 3, f, fmt, strlen(fmt)); va_end(ap); return 0
int vf_fprintf(FILE *f, const char *fmt, ...) { VA(f); }
int vf_printf(const char *fmt, ...) { VA(stdout); }
int vf_dprintf(int fd, const char *fmt, ...) { VA(fd == 2 ? stderr : NULL); }
void vf_syslog(int prio, const char *fmt, ...) { printed("syslog", NULL, fmt, strlen(fmt)); }
void vf_warn(const char *fmt, ...) { printed("warn", stderr, fmt ? fmt : "", fmt ? strlen(fmt) : 0); }
void vf_warnx(const char *fmt, ...) { printed("warnx", stderr, fmt ? fmt : "", fmt ? strlen(fmt) : 0); }
int vf_vfprintf(FILE *f, const char *fmt, va_list ap) { printed("vfprintf", f, fmt, strlen(fmt)); return 0; }
int vf_vprintf(const char *fmt, va_list ap) { printed("vprintf", stdout, fmt, strlen(fmt)); return 0; }
void vf_perror(const char *s) { printed("perror", stderr, s ? s : "", s ? strlen(s) : 0); }
size_t vf_fwrite(const void *p, size_t s, size_t n, FILE *f) { printed("fwrite", f, p, s * n); return n; }
int vf_fputs(const char *s, FILE *f) { printed("fputs", f, s, strlen(s)); return 0; }
int vf_puts(const char *s) { printed("puts", stdout, s, strlen(s)); return 0; }
int vf_fputc(int c, FILE *f) { char ch = (char)c; printed("fputc", f, &ch, 1); return c; }
int vf_putc(int c, FILE *f) { return vf_fputc(c, f); }
int vf_fputc_unlocked(int c, FILE *f) { return vf_fputc(c, f); }
int vf_putc_unlocked(int c, FILE *f) { return vf_fputc(c, f); }
int vf_fputs_unlocked(const char *s, FILE *f) { return vf_fputs(s, f); }
size_t vf_fwrite_unlocked(const void *p, size_t s, size_t n, FILE *f) { return vf_fwrite(p, s, n, f); }
int vf_putchar(int c) { char ch = (char)c; printed("putchar", stdout, &ch, 1); return c; }
ssize_t vf_write(int fd, const void *p, size_t n) { printed("write", fd == 2 ? stderr : fd == 1 ? stdout : NULL, p, n); return (ssize_t)n; }

/* replaced by the harnesses which watch the library's reads */
__attribute__((weak)) ssize_t vf_read(int fd, void *p, size_t n) { return read(fd, p, n); }

/* ---- what needs much memory ---- */
bool
vf_memory(size_t resident, size_t address_space)
{
	size_t kb = 0;
	FILE *f = fopen("/proc/meminfo", "r");
	char l[200];
	while(f && fgets(l, sizeof l, f)) { if(sscanf(l, "MemAvailable: %zu", &kb) == 1) { break; } }
	if(f) { fclose(f); }
	void *p = NULL;
	bool ok = kb / 2 > resident >> 10;
	if(ok && address_space)
	{
		p = mmap(NULL, address_space, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		ok = p != MAP_FAILED;
		if(ok) { munmap(p, address_space); }
	}
	if(!ok) { vf_count("cases without enough memory"); }
	return ok;
}
/* many bytes that need little memory: the same ones over and over, with writable private ones behind */
char *
vf_far_bytes(size_t n, int special, char *tail, size_t ntail)
{
	enum { UNIT = 16 << 20 };
	int fd = memfd_create("vf", 0);
	if(fd < 0 || ftruncate(fd, UNIT)) { fprintf(stderr, "harness: memfd\n"); _exit(77); }
	size_t len = (n + UNIT - 1) / UNIT * UNIT;
	char *p = mmap(NULL, len + UNIT + 65536, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if(p == MAP_FAILED) { fprintf(stderr, "harness: mmap\n"); _exit(77); }
	for(size_t i = 0; i < len; i += UNIT)
	{
		if(mmap(p + i, UNIT, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { fprintf(stderr, "harness: mmap\n"); _exit(77); }
		if(!i) { uint32_t x = 1; for(size_t k = 0; k < UNIT; ++k) { x = x * 1664525u + 1013904223u; char c = (char)(x >> 24); p[k] = c == special ? 'x' : c; } }
	}
	close(fd);
	size_t t = (ntail + 4095) / 4096 * 4096;
	if(t > UNIT || mmap(p + len, t, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) { fprintf(stderr, "harness: mmap\n"); _exit(77); }
	/* the tail ends where nothing is accessible */
	memcpy(p + len + t - ntail, tail, ntail);
	for(size_t k = 0; k < t - ntail; ++k) { p[len + k] = 'y'; }
	/* the caller wants n bytes in front of the tail */
	return p + len + t - ntail - n;
}

/* ---- ledger ---- */
static uint64_t led_stamp = 1, led_expected, led_released;
uint64_t led_total_released;
static uint32_t next_id;
static Obj live = { .next = &live, .prev = &live };

bool obj_live(const Obj *o) { return o->magic == OBJ_MAGIC && o->state != ST_RELEASED; }

Obj *
obj_new(int kind, int32_t k, const char *s)
{
	size_t n = s ? strlen(s) : 0;
	/* exactly as long as the string, so that reading past its end is seen */
	Obj *o = xmalloc(offsetof(Obj, s) + n + 1 > sizeof(Obj) ? offsetof(Obj, s) + n + 1 : sizeof(Obj));
	o->magic = OBJ_MAGIC;
	o->k = k;
	o->id = ++next_id;
	o->kind = kind;
	o->state = ST_CALLER;
	o->stamp = 0;
	o->extra = o->due = 0;
	o->slen = n;
	if(s) { memcpy(o->s, s, n + 1); } else { o->s[0] = 0; }
	o->next = live.next;
	o->prev = &live;
	live.next->prev = o;
	live.next = o;
	return o;
}

static void
really_free(Obj *o)
{
	o->prev->next = o->next;
	o->next->prev = o->prev;
	o->magic = OBJ_DEAD;
	__asm__ volatile("" : : "r"(o) : "memory");
	free(o);
}

void
obj_drop(Obj *o)
{
	really_free(o);
}

void
led_release(Obj *o, int kind)
{
	VF_CHECK(MON_OWN, o->magic == OBJ_MAGIC, "own-release-dead", "free callback got a dead object");
	VF_CHECK(MON_OWN, o->kind == kind, "own-wrong-callback", "object %u of kind %d passed to the callback for kind %d", o->id, o->kind, kind);
	VF_CHECK(MON_OWN, o->state != ST_RELEASED, "own-double-release", "object %u (key %d) released twice", o->id, o->k);
	VF_CHECK(MON_OWN, o->state == ST_STORED, "own-release-foreign", "object %u (key %d) released although the container does not own it", o->id, o->k);
	VF_CHECK(MON_OWN, o->stamp == led_stamp, "own-unexpected-release", "object %u (key %d) released by an operation that does not drop it", o->id, o->k);
	VF_CHECK(MON_OWN, o->due > 0, "own-double-release", "object %u (key %d) released more often than this operation drops it", o->id, o->k);
	++led_released;
	++led_total_released;
	if(o->due) { --o->due; }
	if(o->extra) { --o->extra; return; }
	o->state = ST_RELEASED;
#if defined(VF_SAN_HEAP)
	really_free(o); /* any later use is a sanitizer report */
#else
	/* kept (with its state) until the case ends: double releases are seen by the ledger */
	memset(o->s, 0xdd, o->slen);
#endif
}

void led_op_begin(void) { ++led_stamp; led_expected = led_released = 0; }
void
led_expect(Obj *o)
{
	if(o->stamp != led_stamp) { o->due = 0; }
	o->stamp = led_stamp;
	++o->due;
	++led_expected;
}
void
led_op_end(const char *what)
{
	VF_CHECK(MON_OWN, led_expected == led_released, "own-missing-release", "%s released %lu objects, should have released %lu", what, (unsigned long)led_released, (unsigned long)led_expected);
}
void led_case_begin(void) { led_stamp += 2; }
void
led_case_end(void)
{
	while(live.next != &live) { really_free(live.next); }
	next_id = 0;
}

/* ---- tracking pool ---- */
static size_t
tp_slot(const TrackPool *p, const void *ptr)
{
	size_t i = vf_mix(1, (uintptr_t)ptr) & (p->cap - 1);
	while(p->tab[i] && p->tab[i] != ptr) { i = (i + 1) & (p->cap - 1); }
	return i;
}
bool track_pool_has(const TrackPool *p, const void *ptr) { return ptr && p->tab[tp_slot(p, ptr)] == ptr; }
static void tp_put(TrackPool *p, void *ptr) { p->tab[tp_slot(p, ptr)] = ptr; ++p->used; }
static void
tp_del(TrackPool *p, void *ptr)
{
	size_t i = tp_slot(p, ptr);
	p->tab[i] = NULL;
	--p->used;
	for(size_t j = (i + 1) & (p->cap - 1); p->tab[j]; j = (j + 1) & (p->cap - 1))
	{
		void *q = p->tab[j];
		p->tab[j] = NULL;
		p->tab[tp_slot(p, q)] = q;
	}
}
static void *
tp_alloc(Pool *pool)
{
	TrackPool *p = (TrackPool *)pool;
	void *n = xmalloc(p->size);
#if !defined(VF_SAN_HEAP)
	memset(n, 0x5a, p->size);
#endif
	if(p->used * 2 >= p->cap)
	{
		void **old = p->tab;
		size_t oc = p->cap;
		p->cap = oc ? oc * 2 : 64;
		p->tab = xcalloc(p->cap, sizeof(void *));
		p->used = 0;
		for(size_t i = 0; i < oc; ++i) { if(old[i]) { tp_put(p, old[i]); } }
		free(old);
	}
	tp_put(p, n);
	++p->live;
	++p->allocs;
	return n;
}
static void
tp_free(Pool *pool, void *ptr)
{
	TrackPool *p = (TrackPool *)pool;
	if(!track_pool_has(p, ptr))
	{
		VF_CHECK(MON_POOL, false, "pool-foreign-free", "a node that is not in use was returned to the pool");
		return;
	}
	tp_del(p, ptr);
	--p->live;
	++p->frees;
	memset(ptr, 0xee, p->size);
	__asm__ volatile("" : : "r"(ptr) : "memory");
	free(ptr);
}
void
track_pool_init(TrackPool *p, size_t size)
{
	memset(p, 0, sizeof *p);
	p->pool.alloc = tp_alloc;
	p->pool.free = tp_free;
	p->size = size;
	p->cap = 64;
	p->tab = xcalloc(p->cap, sizeof(void *));
}
void
track_pool_fini(TrackPool *p)
{
	for(size_t i = 0; i < p->cap; ++i) { free(p->tab[i]); }
	free(p->tab);
	p->tab = NULL;
}

/* ---- main ---- */
static void
on_crash(int sig)
{
	char buf[128];
	int n = snprintf(buf, sizeof buf, "VFCRASH signal=%d case=%lu mode=%s\n", sig, (unsigned long)vf_case, mode);
	if(write(2, buf, n) < 0) { }
	dump_ring(stderr);
	if(fail_path)
	{
		FILE *f = fopen(fail_path, "w");
		if(f) { fprintf(f, "VFCRASH key=signal-%d case=%lu mode=%s seed=%lu\n", sig, (unsigned long)vf_case, mode, (unsigned long)vf_seed); dump_ring(f); fclose(f); }
	}
	signal(sig, SIG_DFL);
	raise(sig);
}

int
main(int argc, char **argv)
{
	uint64_t from = 0, to = 1;
	const char *prog = NULL;
	for(int i = 1; i + 1 < argc; i += 2)
	{
		const char *a = argv[i], *v = argv[i + 1];
		if(!strcmp(a, "--mode")) { mode = v; }
		else if(!strcmp(a, "--mon")) { vf_mon = strtoul(v, NULL, 0); }
		else if(!strcmp(a, "--seed")) { vf_seed = strtoull(v, NULL, 0); }
		else if(!strcmp(a, "--from")) { from = strtoull(v, NULL, 0); }
		else if(!strcmp(a, "--to")) { to = strtoull(v, NULL, 0); }
		else if(!strcmp(a, "--out")) { out_path = v; }
		else if(!strcmp(a, "--fail")) { fail_path = v; }
		else if(!strcmp(a, "--progress")) { prog = v; }
		else if(!strcmp(a, "--verbose")) { vf_verbose = atoi(v); }
		else if(!strcmp(a, "--thorough")) { vf_thorough = atoi(v); }
		else { fprintf(stderr, "harness: unknown argument %s\n", a); return 77; }
	}
	if(prog)
	{
		int fd = open(prog, O_RDWR | O_CREAT | O_TRUNC, 0644);
		if(fd >= 0 && !ftruncate(fd, 8))
		{
			progress = mmap(NULL, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
			if(progress == MAP_FAILED) { progress = NULL; }
		}
	}
#if !defined(VF_SAN_HEAP) && !defined(VF_TSAN)
	int sigs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT };
	stack_t ss = { .ss_sp = malloc(65536), .ss_size = 65536 };
	sigaltstack(&ss, NULL);
	for(size_t i = 0; i < sizeof sigs / sizeof *sigs; ++i)
	{
		struct sigaction sa = { .sa_handler = on_crash, .sa_flags = SA_ONSTACK | SA_RESETHAND | SA_NODEFER };
		sigaction(sigs[i], &sa, NULL);
	}
#else
	(void)on_crash;
#endif
	uint64_t mh = 0;
	for(const char *s = mode; *s; ++s) { mh = vf_mix(mh, (unsigned char)*s); }
	for(vf_case = from; vf_case < to; ++vf_case)
	{
		if(progress) { *progress = vf_case + 1; }
		Rng rng = { vf_mix(vf_mix(vf_seed, mh), vf_case) };
		case_hash = 0;
		ring_n = 0;
		run_case(mode, vf_case, &rng);
	}
	write_stats();
	return 0;
}
