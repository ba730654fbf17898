/* The supplied hash and compare functions. */
#include "vf.h"

#include <sys/mman.h>
#include <unistd.h>

static CompareFunc compare_strings = str_compare; /* a macro, for use as a function pointer */
static int sgn(long v) { return (v > 0) - (v < 0); }

/* ---- strings; each lies right in front of an inaccessible page ---- */
#define SLOTS 3
static unsigned char *page[SLOTS];
static size_t page_len;
static void
setup(void)
{
	size_t ps = sysconf(_SC_PAGESIZE);
	page_len = 64 * ps;
	for(int i = 0; i < SLOTS; ++i)
	{
		page[i] = mmap(NULL, page_len + ps, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if(page[i] == MAP_FAILED || mprotect(page[i] + page_len, ps, PROT_NONE)) { fprintf(stderr, "harness: mmap\n"); _exit(77); }
	}
}
/* behind > 0: that many bytes of rubbish follow the terminator */
static char *
place(int i, const char *s, size_t n, size_t behind, Rng *rng)
{
	unsigned char *p = page[i] + page_len - n - 1 - behind;
	if(p > page[i]) { p[-1] = (unsigned char)rng_u64(rng); }
	memcpy(p, s, n);
	p[n] = 0;
	for(size_t k = 0; k < behind; ++k) { p[n + 1 + k] = (unsigned char)rng_u64(rng); }
	return (char *)p;
}
static unsigned char
any_char(Rng *rng)
{
	switch(rng_below(rng, 4))
	{
		case 0: return (unsigned char)(1 + rng_below(rng, 255));
		case 1: { static const unsigned char t[] = { 1, 2, 0x7f, 0x80, 0x81, 0xfe, 0xff, ' ' }; return t[rng_below(rng, 8)]; }
		default: return (unsigned char)('a' + rng_below(rng, 26));
	}
}
static size_t
gen(char *s, Rng *rng)
{
	size_t n = rng_pct(rng, 50) ? rng_below(rng, 12) : rng_pct(rng, 80) ? rng_below(rng, 200) : rng_pct(rng, 99) ? rng_below(rng, 3000) : rng_below(rng, 100000);
	for(size_t i = 0; i < n; ++i) { s[i] = (char)any_char(rng); }
	return n;
}
static void
pair_check(const char *s, size_t n, const char *t, size_t m, Rng *rng)
{
	int want = sgn(strcmp(s, t));
	bool same = n == m && !memcmp(s, t, n);
	char *a = place(0, s, n, 0, rng), *b = place(1, t, m, 0, rng);
	for(int round = 0; round < 2; ++round)
	{
		VF_CHECK(MON_FUNC, str_equal(a, b) == same && str_equal(b, a) == same, "str-equal", "strings of %zu and %zu bytes: equality should be %d", n, m, same);
		int c = sgn(compare_strings(a, b)), d = sgn(compare_strings(b, a));
		VF_CHECK(MON_FUNC, c == want && d == -want, "str-compare", "strings of %zu and %zu bytes compare as %d and %d, should be %d", n, m, c, d, want);
		if(same) { VF_CHECK(MON_FUNC, str_hash(a) == str_hash(b), "str-hash-equal", "equal strings of %zu bytes hash differently", n); }
		/* again elsewhere, with other bytes around */
		a = place(0, s, n, 1 + rng_below(rng, 40), rng);
		b = place(1, t, m, 1 + rng_below(rng, 40), rng);
	}
	VF_CHECK(MON_FUNC, str_equal(a, a) && !compare_strings(a, a), "str-self", "a string is not equal to itself");
	VF_CHECK(MON_FUNC, !strcmp(a, s) && !strcmp(b, t), "str-changed", "arguments were modified");
	vf_count(same ? "equal string pairs" : "different string pairs");
}
static void
str_case(Rng *rng)
{
	static char s[100100], t[100100], u[100100];
	unsigned collisions = 0, probes = 0, single = 0;
	for(int round = 0; round < 60; ++round)
	{
		size_t n = gen(s, rng);
		s[n] = 0;
		vf_op("string", n, (unsigned char)s[0]);
		uint32_t h = str_hash(place(2, s, n, 0, rng));
		vf_state(h);
		for(int v = 0; v < 12; ++v)
		{
			size_t m = n;
			memcpy(t, s, n + 1);
			switch(v % 6)
			{
				case 0: break;
				case 1: case 2: case 3: /* another character */
					if(!n) { continue; }
					{
						size_t i = rng_below(rng, 3) ? rng_below(rng, n) : rng_below(rng, 2) ? 0 : n - 1;
						unsigned char c;
						switch(rng_below(rng, 4)) { case 0: c = (unsigned char)s[i] ^ 0x80; break; case 1: c = (unsigned char)s[i] ^ (1 << rng_below(rng, 8)); break; default: c = any_char(rng); }
						if(!c || c == (unsigned char)s[i]) { continue; }
						t[i] = (char)c;
					}
					break;
				case 4: /* a proper prefix, or one character more */
					if(rng_pct(rng, 50) && n) { m = n - 1; t[m] = 0; }
					else { t[n] = (char)any_char(rng); t[n + 1] = 0; m = n + 1; }
					break;
				case 5: m = gen(t, rng); t[m] = 0; break;
			}
			pair_check(s, n, t, m, rng);
			bool same = n == m && !memcmp(s, t, n);
			uint32_t k = str_hash(place(2, t, m, rng_below(rng, 2), rng));
			if(!same)
			{
				++probes;
				collisions += k == h;
				single += k == h && v % 6 >= 1 && v % 6 <= 3;
			}
		}
		/* total order: three strings */
		size_t m = gen(t, rng), l = gen(u, rng);
		t[m] = u[l] = 0;
		if(rng_pct(rng, 50) && m && n) { size_t c = rng_below(rng, n < m ? n : m); memcpy(t, s, c); if(l > c) { memcpy(u, s, c); } }
		int ab = sgn(compare_strings(s, t)), bc = sgn(compare_strings(t, u)), ac = sgn(compare_strings(s, u));
		VF_CHECK(MON_FUNC, !(ab <= 0 && bc <= 0 && ac > 0) && !(ab >= 0 && bc >= 0 && ac < 0), "str-order", "comparison is not transitive");
		vf_count("triples compared");
	}
	/* by chance: about 600 / 2^32 */
	VF_CHECK(MON_FUNC, single < 2, "str-hash-single", "%u of %u pairs of strings that differ in one character hash equally", single, probes);
	VF_CHECK(MON_FUNC, collisions < 3, "str-hash-collisions", "%u of %u pairs of different strings hash equally", collisions, probes);
	vf_count_add("hash pairs of different strings", probes);
	vf_count_add("hash collisions", collisions);
	if(vf_want_sample()) { vf_sample("%u pairs of different strings, %u hash collisions", probes, collisions); }
}

/* ---- pointers ---- */
static uintptr_t
gen_ptr(Rng *rng, bool small)
{
	uintptr_t v;
	switch(rng_below(rng, 6))
	{
		case 0: v = 1 + rng_below(rng, 1000); break;
		case 1: v = ((uintptr_t)1 << rng_below(rng, 64)) + rng_below(rng, 3) - 1; break;
		case 2: v = UINT32_MAX - rng_below(rng, 5); break;
		case 3: v = 0x7fffffffUL + rng_below(rng, 4); break;
		case 4: v = UINTPTR_MAX - rng_below(rng, 1000); break;
		default: v = rng_u64(rng); break;
	}
	if(small) { v &= UINT32_MAX; }
	return v ? v : 1;
}
static int by_hash(const void *a, const void *b) { uint64_t x = *(const uint64_t *)a, y = *(const uint64_t *)b; return x < y ? -1 : x > y; }
static void
ptr_case(Rng *rng)
{
	enum { N = 4000 };
	for(int i = 0; i < N; ++i)
	{
		uintptr_t x = gen_ptr(rng, false), y;
		switch(rng_below(rng, 5))
		{
			case 0: y = x; break;
			case 1: y = x + ((uintptr_t)1 << rng_below(rng, 64)); break;
			case 2: y = x ^ ((uintptr_t)1 << rng_below(rng, 64)); break;
			case 3: y = x + rng_below(rng, 8); break;
			default: y = gen_ptr(rng, false); break;
		}
		if(!y) { y = 1; }
		if(i < 40) { vf_op("pointers", (int64_t)x, (int64_t)y); }
		const void *a = (const void *)x, *b = (const void *)y;
		int want = x < y ? -1 : x > y;
		VF_CHECK(MON_FUNC, direct_equal(a, b) == (x == y) && direct_equal(b, a) == (x == y), "direct-equal", "%p and %p: equality should be %d", a, b, x == y);
		int c = sgn(direct_compare(a, b)), d = sgn(direct_compare(b, a));
		VF_CHECK(MON_FUNC, c == want && d == -want, "direct-compare", "%p and %p compare as %d and %d", a, b, c, d);
		vf_may_report = x > UINT32_MAX || y > UINT32_MAX;
		VF_CHECK(MON_FUNC, direct_hash(a) == direct_hash(a), "direct-hash-pure", "%p hashes differently the second time", a);
		if(x == y) { VF_CHECK(MON_FUNC, direct_hash(a) == direct_hash(b), "direct-hash-equal", "equal pointers hash differently"); }
		vf_may_report = false;
	}
	vf_count_add("pointer pairs", N);
	/* no two of these may collide */
	uint64_t *v = xmalloc(N * sizeof *v);
	size_t n = 0;
	uintptr_t base = gen_ptr(rng, true);
	int style = rng_below(rng, 4);
	for(int i = 0; i < N; ++i)
	{
		uintptr_t p = style == 0 ? base + (uintptr_t)i : style == 1 ? base ^ ((uintptr_t)i << rng_below(rng, 21)) : style == 2 ? base + (uintptr_t)i * 16 : gen_ptr(rng, true);
		p &= UINT32_MAX;
		if(p) { v[n++] = (uint64_t)direct_hash((void *)p) << 32 | p; }
	}
	qsort(v, n, sizeof *v, by_hash);
	for(size_t i = 1; i < n; ++i)
	{
		VF_CHECK(MON_FUNC, v[i] == v[i - 1] || v[i] >> 32 != v[i - 1] >> 32, "direct-hash-injective", "pointers %lx and %lx both hash to %lx", (unsigned long)(v[i] & UINT32_MAX), (unsigned long)(v[i - 1] & UINT32_MAX), (unsigned long)(v[i] >> 32));
	}
	vf_count_add("pointers hashed", n);
	vf_op("style", style, base);
	if(vf_want_sample()) { vf_sample("%d pointer pairs, %zu pointers from %lx hashed, style %d", N, n, (unsigned long)base, style); }
	free(v);
}
/* no length and no position is special */
static void
sweep_case(uint64_t idx, Rng *rng)
{
	static char s[5000], t[5000];
	static const size_t from[] = { 0, 32, 64, 96, 128, 160, 192, 224, 256 - 8, 512 - 4, 1024 - 2, 4096 - 2 };
	size_t lo = from[idx % 12], span = lo < 224 ? 32 : lo < 400 ? 40 : lo < 1000 ? 8 : 4;
	unsigned single = 0, probes = 0;
	vf_op("sweep", lo, span);
	for(size_t n = lo; n < lo + span; ++n)
	{
		for(size_t i = 0; i < n; ++i) { s[i] = (char)any_char(rng); }
		s[n] = 0;
		memcpy(t, s, n + 1);
		pair_check(s, n, t, n, rng);
		uint32_t h = str_hash(place(2, s, n, rng_below(rng, 40), rng));
		for(size_t i = 0; i < n; ++i)
		{
			unsigned char c = (unsigned char)s[i], flip[] = { c ^ 0x80, c ^ 1, c ^ (1 << rng_below(rng, 8)), any_char(rng), 255, 1 };
			for(int v = i % 3; v < 6; v += n < 300 ? 2 : 3)
			{
				if(!flip[v] || flip[v] == c) { continue; }
				t[i] = (char)flip[v];
				pair_check(s, n, t, n, rng);
				++probes;
				single += h == str_hash(place(2, t, n, rng_below(rng, 40), rng));
			}
			/* cut off here */
			t[i] = 0;
			pair_check(s, n, t, i, rng);
			t[i] = s[i];
		}
	}
	vf_op("end", probes, 0);
	VF_CHECK(MON_FUNC, single < 2, "str-hash-single", "%u of %u pairs of strings that differ in one character hash equally", single, probes);
	vf_count_add("hash pairs of different strings", probes);
	vf_count_add("lengths swept", span);
	if(vf_want_sample()) { vf_sample("every position in strings of %zu to %zu bytes", lo, lo + span - 1); }
	vf_case_done(true);
}
/* strings longer than 31 or 32 bits can count */
static void
huge_case(uint64_t idx, Rng *rng)
{
	size_t n = ((size_t)1 << (idx % 2 ? 32 : 31)) + rng_below(rng, 100000);
	if(!vf_memory((size_t)1 << 30, 3 * n)) { vf_case_done(false); return; }
	char end[3000], *s[2];
	for(size_t i = 0; i < sizeof end; ++i) { end[i] = (char)any_char(rng); }
	end[sizeof end - 1] = 0;
	vf_op("huge", (int64_t)n, 0);
	for(int i = 0; i < 2; ++i) { s[i] = vf_far_bytes(n, 0, end, sizeof end); }
	uint32_t h = str_hash(s[0]);
	/* it takes long enough */
	bool all = idx % 2 == 0 || vf_thorough;
	VF_CHECK(MON_FUNC, !all || str_equal(s[0], s[1]), "str-equal", "equal strings of %zu bytes aren't", n + sizeof end - 1);
	VF_CHECK(MON_FUNC, !all || h == str_hash(s[1]), "str-hash-equal", "equal strings of %zu bytes hash differently", n + sizeof end - 1);
	VF_CHECK(MON_FUNC, !all || !compare_strings(s[0], s[1]), "str-compare", "equal strings of %zu bytes compare as different", n + sizeof end - 1);
	size_t at = n + rng_below(rng, sizeof end - 1);
	unsigned char a = (unsigned char)s[0][at], b = (unsigned char)(a ^ 0x80 ? a ^ 0x80 : 1);
	s[1][at] = (char)b;
	int want = a < b ? -1 : 1;
	VF_CHECK(MON_FUNC, !str_equal(s[0], s[1]), "str-equal", "strings that differ at %zu are equal", at);
	VF_CHECK(MON_FUNC, sgn(compare_strings(s[0], s[1])) == want && (!all || sgn(compare_strings(s[1], s[0])) == -want), "str-compare", "strings that differ at %zu compare wrongly", at);
	VF_CHECK(MON_FUNC, str_hash(s[1]) != h, "str-hash-single", "strings that differ at %zu hash equally", at);
	vf_count("strings of more than 2^31 bytes");
	if(vf_want_sample()) { vf_sample("two strings of %zu bytes that differ at %zu", n + sizeof end - 1, at); }
	vf_case_done(true);
}
void
run_case(const char *mode, uint64_t idx, Rng *rng)
{
	if(!strcmp(mode, "huge")) { huge_case(idx, rng); return; }
	if(!page[0]) { setup(); }
	if(!strcmp(mode, "str-sweep")) { sweep_case(idx, rng); return; }
	if(!strcmp(mode, "str")) { str_case(rng); } else { ptr_case(rng); }
	vf_case_done(true);
}
