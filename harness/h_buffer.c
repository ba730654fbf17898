/* Byte buffer against a plain byte array. */
#include "vf.h"

#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>

/* ---- descriptor hook: the library's read() ends up here ---- */
static struct { uint64_t calls; size_t asked; int fd; ssize_t cut; int err; size_t reported; int late; const char *data; size_t have; } rd;
ssize_t
vf_read(int fd, void *p, size_t n)
{
	++rd.calls;
	rd.asked = n;
	rd.fd = fd;
	if(rd.err) { errno = rd.err; return -1; }
	/* what is read arrives only now */
	if(rd.late > 0) { if(write(rd.late, rd.data, rd.have) != (ssize_t)rd.have) { fprintf(stderr, "harness: pipe write\n"); _exit(77); } close(rd.late); rd.late = 0; }
	if(rd.cut >= 0 && n > (size_t)rd.cut) { n = rd.cut; }
	return read(fd, p, n);
}

typedef struct
{
	Buffer sb, *b;
	bool heap, valid;
	size_t max, peak;
	char *m; /* model */
	size_t n, cap;
	/* the caller's string */
	char *dst;
	size_t len, room;
} Buf;

static void
open_buf(Buf *B, size_t max, Rng *rng)
{
	memset(B, 0, sizeof *B);
	B->max = max;
	B->heap = rng_u64(rng) & 1;
	B->valid = true;
	memset(&B->sb, 0xa5, sizeof B->sb);
	if(B->heap) { B->b = buffer_new(max); } else { B->b = &B->sb; buffer_init(B->b, max); }
}
static void
model_add(Buf *B, const char *p, size_t n)
{
	if(B->n + n > B->cap) { B->cap = (B->n + n) * 2 + 64; B->m = xrealloc(B->m, B->cap); }
	if(n) { memcpy(B->m + B->n, p, n); }
	B->n += n;
	if(B->n > B->peak) { B->peak = B->n; }
}
static void
state_check(Buf *B)
{
	bool v = buffer_is_valid(B->b), e = buffer_is_empty(B->b);
	size_t l = buffer_len(B->b);
	VF_CHECK(MON_FUNC | MON_LIMIT | MON_FD, v == B->valid, "valid", "buffer reports valid=%d, should be %d", v, B->valid);
	VF_CHECK(MON_FUNC | MON_LIMIT | MON_FD, l == (B->valid ? B->n : 0), "len", "length is %zu, should be %zu", l, B->valid ? B->n : 0);
	VF_CHECK(MON_FUNC | MON_LIMIT, e == (B->valid && !B->n), "empty", "buffer of %zu bytes (valid %d) reports empty=%d", B->n, B->valid, e);
	VF_CHECK(MON_LIMIT, l <= B->max, "limit", "buffer holds %zu bytes, limit is %zu", l, B->max);
}
#define CANARY 32
static void
fresh_dst(Buf *B, Rng *rng)
{
	vf_free(B->dst);
	B->dst = NULL;
	B->len = B->room = 0;
	if(rng_below(rng, 3))
	{
		B->room = 1 + rng_below(rng, rng_below(rng, 2) ? 12 : 300);
		B->len = rng_pct(rng, 70) ? B->room : 1 + rng_below(rng, B->room); /* may be understated */
		/* in sanitizer builds the block ends right behind the capacity passed in */
#ifdef VF_SAN_HEAP
		B->room = B->len;
		B->dst = vf_malloc(B->len);
		memset(B->dst, 0x77, B->len);
#else
		B->dst = vf_malloc(B->room + CANARY);
		memset(B->dst, 0x77, B->room + CANARY);
#endif
	}
}
/* expect: bytes delivered, or SIZE_MAX if the call should deliver nothing */
static void
dst_check(Buf *B, bool ok, char *old, size_t oldlen, const char *want, size_t n, const char *what)
{
	if(!ok)
	{
		VF_CHECK(MON_DST | MON_LIMIT | MON_FUNC, B->dst == old && B->len == oldlen, "dst-touched", "%s failed but changed the caller's variables", what);
		return;
	}
	VF_CHECK(MON_FUNC | MON_DST, B->dst != NULL, "dst-null", "%s delivers no string", what);
	if(!B->dst) { return; }
	VF_CHECK(MON_DST, B->len == (oldlen > n ? oldlen : n), "dst-len", "%s: length variable is %zu, was %zu, %zu bytes delivered", what, B->len, oldlen, n);
	size_t us = malloc_usable_size(B->dst);
	VF_CHECK(MON_DST, us >= n + 1 && us >= B->len, "dst-room", "%s: string has room for %zu bytes, length variable says %zu, %zu bytes delivered", what, us, B->len, n);
	VF_CHECK(MON_FUNC | MON_DST, !memcmp(B->dst, want, n), "dst-bytes", "%s: wrong bytes delivered", what);
	VF_CHECK(MON_DST, B->dst[n] == 0, "dst-terminator", "%s: no NUL behind %zu delivered bytes", what, n);
#ifndef VF_SAN_HEAP
	if(B->dst == old && oldlen && B->room)
	{
		for(size_t i = oldlen; i < B->room + CANARY; ++i) { VF_CHECK(MON_DST, B->dst[i] == 0x77, "dst-overrun", "%s wrote behind the capacity of %zu", what, oldlen); }
	}
#endif
	if(B->dst != old) { vf_count("strings enlarged"); B->room = 0; }
}
static void
write_bytes(Buf *B, const char *p, size_t n)
{
	size_t left = B->max - B->n;
	bool fits = n <= left, want = B->valid && fits;
	vf_op("fill", n, left > 1 << 30 ? -1 : (int64_t)left);
	vf_may_report = !want;
	bool r = buffer_fill(B->b, p, n);
	vf_may_report = false;
	VF_CHECK(MON_FUNC | MON_LIMIT, r == want, "fill", "writing %zu bytes with %zu left (valid %d) answers %d", n, left, B->valid, r);
	if(want) { model_add(B, p, n); } else if(B->valid) { B->valid = false; vf_count("writes beyond the limit"); } else { vf_count("writes refused while invalid"); }
	vf_count("writes");
}
static void
op_fill(Buf *B, Rng *rng, int style)
{
	size_t n;
	size_t left = B->max - B->n;
	switch(rng_below(rng, 10))
	{
		case 0: n = 0; break;
		case 1: n = left < 100000 ? left : 70; break;
		case 2: n = left < 100000 ? left + 1 : 65; break;
		case 3: n = rng_below(rng, 700); break;
		case 4: n = rng_pct(rng, 15) ? 3000 + rng_below(rng, 9000) : 64; break;
		default: n = rng_below(rng, 40); break;
	}
	char *p = xmalloc(n ? n : 1);
	for(size_t i = 0; i < n; ++i) { unsigned x = rng_below(rng, 100); p[i] = x < (unsigned)(style == 0 ? 15 : style == 1 ? 1 : style == 2 ? 50 : 0) ? (char)'\n' : x < 60 ? (char)('a' + x % 26) : x < 70 ? (char)0 : (char)rng_u64(rng); }
	/* few newlines, long lines, many of them ending with a write */
	if(style == 3 && n)
	{
		for(size_t i = 0; i < n; ++i) { if(p[i] == '\n') { p[i] = 'x'; } }
		if(rng_pct(rng, 40)) { p[rng_pct(rng, 60) ? n - 1 : rng_below(rng, n)] = '\n'; }
	}
	write_bytes(B, p, n);
	free(p);
}
/* a write so long that it can only be refused; its bytes do not exist */
static void
op_fill_huge(Buf *B, Rng *rng)
{
	static const size_t top[] = { SIZE_MAX, SIZE_MAX - 1, SSIZE_MAX, (size_t)SSIZE_MAX + 1, SIZE_MAX - 64, (size_t)1 << 62 };
	size_t n = rng_below(rng, 3) ? top[rng_below(rng, 6)] : SIZE_MAX - B->n + (rng_below(rng, 3) - 1);
	if(n <= B->max - B->n || n < ((size_t)1 << 33)) { return; }
	char c = 'x';
	vf_op("fill-huge", (int64_t)n, B->n);
	vf_may_report = true;
	bool r = buffer_fill(B->b, &c, n);
	vf_may_report = false;
	VF_CHECK(MON_LIMIT | MON_FUNC, !r, "fill", "writing %zu bytes is accepted with %zu left", n, B->max - B->n);
	B->valid = false;
	vf_count("writes beyond the limit");
}
static void
op_line(Buf *B, Rng *rng)
{
	if(rng_pct(rng, 25)) { fresh_dst(B, rng); }
	char *nl = B->valid && B->n ? memchr(B->m, '\n', B->n) : NULL;
	char *old = B->dst;
	size_t oldlen = B->len;
	vf_op("line", nl ? nl - B->m : -1, B->len);
	bool r = buffer_read_line(B->b, &B->dst, &B->len);
	VF_CHECK(MON_FUNC | MON_LIMIT | MON_DST, r == (nl != NULL), "line", "line read answers %d, a newline is %s (valid %d)", r, nl ? "present" : "absent", B->valid);
	size_t n = nl ? nl - B->m : 0;
	dst_check(B, r, old, oldlen, B->m, n, "line read");
	if(nl) { B->n -= n + 1; memmove(B->m, nl + 1, B->n); vf_count("lines read"); } else { vf_count("line reads without a line"); }
}
static void
op_flush(Buf *B, Rng *rng)
{
	if(rng_pct(rng, 25)) { fresh_dst(B, rng); }
	char *old = B->dst;
	size_t oldlen = B->len;
	vf_op("flush", B->n, B->len);
	bool r = buffer_flush(B->b, &B->dst, &B->len);
	if(B->n || !B->valid) { VF_CHECK(MON_FUNC | MON_LIMIT | MON_DST, r == B->valid, "flush", "flush of %zu bytes (valid %d) answers %d", B->n, B->valid, r); }
	dst_check(B, r, old, oldlen, B->m ? B->m : "", B->n, "flush");
	vf_count("flushes");
}
static void
op_string(Buf *B)
{
	vf_op("to_string", B->n, B->valid);
	char *s = buffer_to_string(B->b);
	if(!B->valid) { VF_CHECK(MON_FUNC | MON_LIMIT, !s, "to-string", "invalid buffer converts to a string"); }
	else if(B->n) { VF_CHECK(MON_FUNC | MON_DST, s && !memcmp(s, B->m, B->n) && !s[B->n], "to-string", "wrong conversion of %zu bytes", B->n); }
	else if(s) { VF_CHECK(MON_FUNC, !*s, "to-string", "empty buffer converts to a non-empty string"); }
	if(s) { VF_CHECK(MON_DST, malloc_usable_size(s) > B->n, "to-string-room", "string too short"); vf_free(s); }
	vf_count("conversions");
}
static void
op_clear(Buf *B, Rng *rng)
{
	for(int t = rng_pct(rng, 20) ? 3 : 1; t; --t) { vf_op("clear", B->n, B->valid); buffer_clear(B->b); B->n = 0; B->valid = true; state_check(B); vf_count("clears"); }
}
static void
op_fd(Buf *B, Rng *rng)
{
	int fds[2];
	size_t have = 0, left = B->max - B->n, count;
	static char data[400000];
	static int nul = -1;
	if(nul < 0 && (nul = fcntl(0, F_DUPFD, 3)) < 0) { fprintf(stderr, "harness: descriptor 0: %s\n", strerror(errno)); _exit(77); }
	const size_t room = 9000;
	enum { PIPE, FILE_, EOF_, ERR, BADFD, DIRFD } kind = rng_below(rng, 6);
	bool bulk = kind == FILE_ && rng_below(rng, 12) == 0;
	switch(bulk ? 5 : rng_below(rng, 6))
	{
		case 0: count = 0; break;
		case 1: count = left; break;
		case 2: count = rng_below(rng, 64); break;
		case 3: count = B->max; break;
		case 4: count = rng_below(rng, 9000); break;
		default: count = (size_t)1 << rng_below(rng, vf_thorough ? 29 : 27); break;
	}
	size_t cap = (size_t)1 << (vf_thorough ? 29 : 27);
	if(count > cap) { count = cap; }
#ifndef VF_SAN_HEAP
	if(rng_below(rng, 100) == 0)
	{
		/* beyond what 31 and 32 bits hold, if the system has that much to give */
		size_t c = ((size_t)1 << (31 + rng_below(rng, 2))) + rng_below(rng, 100);
		void *t = c <= B->max ? malloc(c) : NULL;
		if(t) { count = c; vf_count("reads of more than 2^31 bytes asked for"); }
		free(t);
	}
#endif
	if(count > B->max) { count = B->max; }
	memset(&rd, 0, sizeof rd);
	rd.cut = -1;
	fds[0] = fds[1] = -1;
	if(kind == PIPE || kind == FILE_)
	{
		have = rng_below(rng, 3) ? rng_below(rng, 200) : rng_below(rng, bulk ? sizeof data : room);
		if(kind == FILE_ && rng_below(rng, 4) == 0 && count && count < room) { have = count; }
		for(size_t i = 0; i < have; ++i) { data[i] = rng_pct(rng, 10) ? '\n' : (char)rng_u64(rng); }
		if(bulk) { have = rng_below(rng, 2) ? ((size_t)4096 << rng_below(rng, 7)) + rng_below(rng, 3) - 1 : rng_below(rng, sizeof data); count = rng_below(rng, 2) ? have : ((size_t)1 << (12 + rng_below(rng, 8))) + rng_below(rng, 3) - 1; if(count > B->max) { count = B->max; } vf_count("reads of many kilobytes"); }
		if(!bulk && rng_pct(rng, 40)) { rd.cut = rng_below(rng, 50); }
	}
	if(kind == FILE_)
	{
		fds[0] = memfd_create("vf", 0);
		if(fds[0] < 0 || write(fds[0], data, have) != (ssize_t)have || lseek(fds[0], 0, SEEK_SET)) { fprintf(stderr, "harness: memfd\n"); _exit(77); }
	}
	else if(kind == PIPE || kind == EOF_ || kind == ERR)
	{
		if(pipe(fds)) { fprintf(stderr, "harness: pipe\n"); _exit(77); }
		if(have && rng_pct(rng, 20)) { rd.late = fds[1]; rd.data = data; rd.have = have; vf_count("reads of bytes that arrive during the read"); }
		else
		{
			if(have && write(fds[1], data, have) != (ssize_t)have) { fprintf(stderr, "harness: pipe write\n"); _exit(77); }
			close(fds[1]);
		}
		if(kind == ERR) { static const int errs[] = { EIO, EAGAIN, EISDIR, EINVAL, EFAULT, EINTR, ENOMEM, ECONNRESET }; rd.err = errs[rng_below(rng, 8)]; }
	}
	else if(kind == DIRFD) { fds[0] = open("/", O_RDONLY | O_DIRECTORY); }
	if(fds[0] >= 0 && rng_pct(rng, 20))
	{
		/* any number may be a descriptor's: the lowest one, and ones beyond what a set of them holds */
		static rlim_t most;
		if(!most)
		{
			struct rlimit rl;
			getrlimit(RLIMIT_NOFILE, &rl);
			rl.rlim_cur = rl.rlim_max < 70000 ? rl.rlim_max : 70000;
			if(setrlimit(RLIMIT_NOFILE, &rl)) { getrlimit(RLIMIT_NOFILE, &rl); }
			most = rl.rlim_cur;
		}
		static const int from[] = { 0, 1, 2, 127, 255, 256, 1023, 1024, 32768, 65535, 65536 };
		int want = from[rng_below(rng, 11)];
		if(want < 3) { want = 0; }
		int nf = !want ? dup2(fds[0], 0) : (rlim_t)want < most ? fcntl(fds[0], F_DUPFD, want) : -1;
		if(nf >= 0 && nf != 900) { close(fds[0]); fds[0] = nf; vf_count(nf ? "reads from large descriptors" : "reads from descriptor 0"); }
		else if(nf >= 0) { close(nf); }
	}
	int fd = kind == BADFD ? 900 : fds[0];
	size_t got = have < count ? have : count;
	if(rd.cut >= 0 && got > (size_t)rd.cut) { got = rd.cut; }
	bool fails = kind == ERR || kind == BADFD || kind == DIRFD, overflow = got > left, was = B->valid;
	vf_op("fd", (int64_t)count, fails ? -1 : (int64_t)got);
	vf_may_report = fails || overflow || !was;
	ssize_t r = buffer_fill_from_fd(B->b, fd, count);
	vf_may_report = false;
	off_t rest = -1;
	if(kind == FILE_) { rest = lseek(fd, 0, SEEK_CUR); }
	if(was)
	{
		VF_CHECK(MON_FD, rd.calls <= 1, "fd-reads", "%lu reads for one fill", (unsigned long)rd.calls);
		if(rd.calls) { VF_CHECK(MON_FD, rd.fd == fd && rd.asked <= count, "fd-count", "asked descriptor %d for %zu bytes, should be %d and at most %zu", rd.fd, rd.asked, fd, count); }
		if(rest >= 0) { VF_CHECK(MON_FD, (size_t)rest == got, "fd-consumed", "%ld bytes taken from the file, should be %zu", (long)rest, got); }
		if(fails) { VF_CHECK(MON_FD, r == -1 || (kind == DIRFD && !count && !r) || (!count && kind == BADFD && r <= 0), "fd-error", "failing read answers %zd", r); vf_count("reads failing"); }
		else if(overflow) { VF_CHECK(MON_FD | MON_LIMIT, r == -1, "fd-overflow", "%zu bytes read with %zu left: answers %zd", got, left, r); B->valid = false; vf_count("reads beyond the limit"); }
		else
		{
			VF_CHECK(MON_FD, r == (ssize_t)got, "fd-result", "%zu bytes read: answers %zd", got, r);
			model_add(B, data, got);
			vf_count(got ? "reads delivering bytes" : "reads delivering nothing");
		}
	}
	else
	{
		VF_CHECK(MON_FD | MON_LIMIT, !rd.calls && (rest <= 0), "fd-invalid-reads", "invalid buffer reads from the descriptor");
		VF_CHECK(MON_FD | MON_LIMIT, r <= 0, "fd-invalid-result", "invalid buffer reports %zd bytes read", r);
		vf_count("reads refused while invalid");
	}
	if(rd.late > 0) { close(rd.late); }
	/* descriptor 0 is taken again at once */
	if(fds[0] == 0) { if(dup2(nul, 0)) { fprintf(stderr, "harness: descriptor 0: %s\n", strerror(errno)); _exit(77); } }
	else if(fds[0] > 0) { close(fds[0]); }
	state_check(B);
	/* the bytes really arrived */
	if(B->valid && B->n)
	{
		char *s = buffer_to_string(B->b);
		VF_CHECK(MON_FD | MON_FUNC, s && !memcmp(s, B->m, B->n), "fd-bytes", "content differs from what was read");
		vf_free(s);
	}
}
static void
close_buf(Buf *B)
{
	vf_op("close", B->n, B->valid);
	if(B->heap) { buffer_destroy(B->b); } else { buffer_free(B->b); }
	free(B->m);
	vf_free(B->dst);
}

static void
rand_case(const char *mode, Rng *rng)
{
	bool fd = strstr(mode, "-fd"), limit = strstr(mode, "-limit"), clearheavy = strstr(mode, "-clear");
	int64_t blocks0 = VF_GET(vf_live_blocks), bytes0 = VF_GET(vf_live_bytes);
	static const size_t maxs[] = { 1, 2, 10, 63, 64, 65, 128, 1000, 5000, 100000 };
	static const size_t huge[] = { SSIZE_MAX - 1, SSIZE_MAX - 1, (size_t)1 << 31, ((size_t)1 << 32) - 1, (size_t)1 << 32, ((size_t)1 << 32) + 7, ((size_t)3 << 32) + 100, SSIZE_MAX - 63, (size_t)1 << 62, 32768, 65536, 65537 };
	Buf B[2];
	int ni = 1 + rng_pct(rng, 30);
	for(int i = 0; i < ni; ++i)
	{
		size_t max = maxs[rng_below(rng, 10)];
		if(rng_pct(rng, limit ? 15 : 40)) { max = rng_below(rng, 3) ? huge[rng_below(rng, 12)] : 1000000; }
		open_buf(&B[i], max, rng);
		state_check(&B[i]);
	}
	int nops = 10 + rng_below(rng, fd ? 40 : vf_thorough ? 600 : 150), style = rng_below(rng, 4);
	size_t written = 0;
	for(int op = 0; op < nops; ++op)
	{
		Buf *b = &B[rng_below(rng, ni)];
		int x = rng_below(rng, 100);
		if(!b->valid && rng_pct(rng, 20)) { op_clear(b, rng); continue; }
		if(fd && x < 45) { op_fd(b, rng); }
		else if(x < 40) { op_fill(b, rng, style); }
		else if(x < 42) { if(limit || x < 41) { op_fill_huge(b, rng); } }
		else if(x < 70) { op_line(b, rng); }
		else if(x < 82) { op_flush(b, rng); }
		else if(x < 92) { op_string(b); }
		else if(x < (clearheavy ? 100 : 95)) { op_clear(b, rng); }
		else { op_line(b, rng); op_line(b, rng); }
		state_check(b);
		written |= b->n;
		vf_state(b->n);
		size_t peak = 0, strings = 0;
		for(int i = 0; i < ni; ++i) { peak += B[i].peak; strings += B[i].dst ? malloc_usable_size(B[i].dst) : 0; }
		VF_CHECK(MON_FOOT, VF_GET(vf_live_bytes) - bytes0 - (int64_t)strings <= 8 * (int64_t)peak + 1000, "memory-growth", "%ld bytes in use for a peak length of %zu", (long)(VF_GET(vf_live_bytes) - bytes0 - (int64_t)strings), peak);
	}
	/* read everything back */
	for(int i = 0; i < ni; ++i)
	{
		op_string(&B[i]);
		op_flush(&B[i], rng);
		for(int k = 0; k < 400 && B[i].valid && B[i].n && memchr(B[i].m, '\n', B[i].n); ++k) { op_line(&B[i], rng); state_check(&B[i]); }
		op_line(&B[i], rng);
		op_string(&B[i]);
		vf_count_max("longest content", B[i].peak);
	}
	if(vf_want_sample()) { vf_sample("%s: %d buffer(s), limit %zu, %d operations, newline style %d", mode, ni, B[0].max, nops, style); }
	vf_count_add("operations", nops);
	for(int i = 0; i < ni; ++i) { close_buf(&B[i]); }
	VF_CHECK(MON_LEAK, VF_GET(vf_live_blocks) == blocks0 && VF_GET(vf_live_bytes) == bytes0, "leak", "%ld blocks of the library still allocated after free", (long)(VF_GET(vf_live_blocks) - blocks0));
	vf_case_done(written != 0);
}

static void
big_case(const char *mode, Rng *rng)
{
	int64_t bytes0 = VF_GET(vf_live_bytes);
	Buf B;
	size_t total = ((size_t)(vf_thorough ? 64 : 6) << 20) + rng_below(rng, 100000), chunk = rng_below(rng, 2) ? 1 + rng_below(rng, 100000) : (size_t)64 << rng_below(rng, 12);
	open_buf(&B, rng_below(rng, 2) ? SSIZE_MAX - 1 : total, rng);
	char *p = xmalloc(chunk);
	vf_op("big", total, chunk);
	while(B.n < total)
	{
		size_t n = total - B.n < chunk ? total - B.n : chunk;
		for(size_t i = 0; i < n; i += 8) { uint64_t v = rng_u64(rng) | 0x4040404040404040ULL; memcpy(p + i, &v, n - i < 8 ? n - i : 8); }
		if(rng_pct(rng, 30)) { p[rng_below(rng, n)] = '\n'; }
		bool ok = buffer_fill(B.b, p, n);
		VF_CHECK(MON_FUNC | MON_LIMIT, ok, "fill", "a write within the limit fails");
		model_add(&B, p, n);
	}
	if(B.max == total) { VF_CHECK(MON_LIMIT, buffer_len(B.b) == total, "len", "length is %zu", buffer_len(B.b)); }
	state_check(&B);
	op_string(&B);
	op_flush(&B, rng);
	for(int i = 0; i < 12; ++i) { op_line(&B, rng); state_check(&B); }
	op_string(&B);
	VF_CHECK(MON_FOOT, VF_GET(vf_live_bytes) - bytes0 <= 8 * (int64_t)total + (int64_t)malloc_usable_size(B.dst), "memory-growth", "%ld bytes for %zu", (long)(VF_GET(vf_live_bytes) - bytes0), total);
	buffer_clear(B.b);
	B.n = 0;
	state_check(&B);
	op_fill(&B, rng, 0);
	op_string(&B);
	close_buf(&B);
	VF_CHECK(MON_LEAK, VF_GET(vf_live_bytes) == bytes0, "leak", "library memory still allocated after free");
	if(vf_want_sample()) { vf_sample("%s: %zu bytes in chunks of %zu", mode, total, chunk); }
	vf_count_max("longest content", total);
	free(p);
	vf_case_done(true);
}

/* a string of a given capacity */
static void
dst_of(Buf *B, size_t len, size_t more)
{
	vf_free(B->dst);
	B->dst = NULL;
	B->len = len;
	B->room = len ? len + more : 0;
	if(!len) { return; }
#ifdef VF_SAN_HEAP
	B->room = len;
	B->dst = vf_malloc(len);
	memset(B->dst, 0x77, len);
#else
	B->dst = vf_malloc(B->room + CANARY);
	memset(B->dst, 0x77, B->room + CANARY);
#endif
}
/* no length is special: each kind of operation at every single one of them */
static void
sweep_case(const char *mode, uint64_t idx, Rng *rng)
{
	bool fd = strstr(mode, "-fd");
	int64_t bytes0 = VF_GET(vf_live_bytes);
	static const size_t from[] = { 0, 1024 - 90, 2048 - 90, 4096 - 90, 8192 - 90, 16384 - 90, 32768 - 90, 65536 - 90 };
	size_t lo = from[idx % 8], span = idx % 8 ? 180 : 1060;
	char *p = xmalloc(lo + span + 300000);
	for(size_t i = 0; i < lo + span + 300000; ++i) { p[i] = (char)rng_u64(rng); if(p[i] == '\n') { p[i] = 0; } }
	vf_op("sweep", lo, span);
	/* one that stays: a byte at a time, its lines taken off from time to time */
	Buf A;
	open_buf(&A, lo + span, rng);
	for(size_t c = lo; c < lo + span; ++c)
	{
		size_t unit = 64;
		while(unit < c) { unit *= 2; }
		size_t more[] = { 0, 1, unit - c, unit - c + 1, 63, 64, unit, 2 * unit + 1, rng_below(rng, 3000) };
		size_t k = more[rng_below(rng, 9)];
		static const int over[] = { 0, 0, 0, -1, 1 };
		int o = over[rng_below(rng, 5)];
		size_t max = rng_pct(rng, 30) ? SSIZE_MAX - 1 : c + k + (size_t)o;
		Buf B;
		open_buf(&B, max < 1 ? 1 : max > (size_t)SSIZE_MAX - 1 ? c + k + 1 : max, rng);
		if(fd)
		{
			/* c bytes are there, about as many are asked for */
			size_t want = c + rng_below(rng, 3) - (c > 0);
			if(want > B.max) { want = B.max; }
			static int mf = -1;
			if(mf < 0 && (mf = memfd_create("vf", 0)) < 0) { fprintf(stderr, "harness: memfd\n"); _exit(77); }
			if(ftruncate(mf, 0) || lseek(mf, 0, SEEK_SET) || write(mf, p, c) != (ssize_t)c || lseek(mf, 0, SEEK_SET)) { fprintf(stderr, "harness: memfd\n"); _exit(77); }
			size_t got = want < c ? want : c;
			memset(&rd, 0, sizeof rd);
			rd.cut = -1;
			vf_op("fd", (int64_t)want, (int64_t)got);
			for(int round = 0; round < 2; ++round)
			{
				size_t left = B.max - B.n, g = round ? c - got : got, ask = round ? c : want;
				if(ask > B.max) { ask = B.max; }
				if(g > ask) { g = ask; }
				vf_may_report = g > left;
				ssize_t r = buffer_fill_from_fd(B.b, mf, ask);
				vf_may_report = false;
				if(g > left) { VF_CHECK(MON_FD | MON_LIMIT, r == -1, "fd-overflow", "%zu bytes read with %zu left: answers %zd", g, left, r); B.valid = false; break; }
				VF_CHECK(MON_FD, r == (ssize_t)g, "fd-result", "%zu bytes read: answers %zd", g, r);
				VF_CHECK(MON_FD, lseek(mf, 0, SEEK_CUR) == (off_t)(round ? got + g : g), "fd-consumed", "wrong number of bytes taken from the file");
				model_add(&B, p + (round ? got : 0), g);
				state_check(&B);
				op_string(&B);
			}
		}
		else { write_bytes(&B, p, c); state_check(&B); }
		if(B.valid && B.n <= B.max)
		{
			write_bytes(&B, p + c, k);
			state_check(&B);
			op_string(&B);
			dst_of(&B, B.n + rng_below(rng, 4) > 1 ? B.n + rng_below(rng, 4) - (B.n > 1) : 0, rng_below(rng, 3));
			op_flush(&B, rng);
			/* its only newline at position c, or the last one */
			op_clear(&B, rng);
			if(c + 1 <= B.max)
			{
				write_bytes(&B, p, c);
				write_bytes(&B, "\n", 1);
				if(rng_u64(rng) & 1) { size_t left = B.max - B.n; write_bytes(&B, p, k < left ? k : left); }
				state_check(&B);
				dst_of(&B, rng_pct(rng, 20) ? 0 : c + rng_below(rng, 4) > 1 ? c + rng_below(rng, 4) - (c > 1) : 1, rng_below(rng, 3));
				op_line(&B, rng);
				state_check(&B);
				op_string(&B);
				op_line(&B, rng);
			}
			/* one byte too many */
			if(B.max < lo + span + 300000 - 1) { size_t left = B.max - B.n; write_bytes(&B, p, left); state_check(&B); op_string(&B); write_bytes(&B, p, 1); state_check(&B); op_flush(&B, rng); op_clear(&B, rng); write_bytes(&B, p, c < B.max ? c : B.max); state_check(&B); op_string(&B); }
		}
		close_buf(&B);
		VF_CHECK(MON_LEAK, VF_GET(vf_live_bytes) - bytes0 - (A.dst ? (int64_t)malloc_usable_size(A.dst) : 0) <= 8 * (int64_t)A.peak + 1000, "leak", "library memory still allocated after free");
		/* the one that stays */
		if(A.n < c) { write_bytes(&A, p, c - A.n); }
		state_check(&A);
		char nl = c % 16 == 0 ? '\n' : (char)c == '\n' ? 'x' : (char)c;
		write_bytes(&A, &nl, 1);
		state_check(&A);
		if(c % 5 == 0) { op_flush(&A, rng); }
		if(c % 16 == 0 || c % 7 == 0) { op_line(&A, rng); state_check(&A); }
		op_string(&A);
	}
	close_buf(&A);
	VF_CHECK(MON_LEAK, VF_GET(vf_live_bytes) == bytes0, "leak", "library memory still allocated after free");
	vf_count_add("lengths swept", span);
	vf_count_max("longest content", lo + span);
	if(vf_want_sample()) { vf_sample("%s: each length from %zu to %zu", mode, lo, lo + span - 1); }
	free(p);
	vf_case_done(true);
}

/* bounded content, long history */
static void
mem_case(const char *mode, Rng *rng)
{
	int64_t bytes0 = VF_GET(vf_live_bytes);
	Buf B;
	open_buf(&B, SSIZE_MAX - 1, rng);
	size_t p = 1 + rng_below(rng, rng_below(rng, 2) ? 60 : 3000);
	char *data = xmalloc(p);
	memset(data, 'x', p);
	data[p - 1] = '\n';
	int rounds = vf_thorough ? 20000 : 3000;
	for(int r = 0; r < rounds; ++r)
	{
		buffer_fill(B.b, data, p);
		model_add(&B, data, p);
		if(r & 1) { op_line(&B, rng); } else { buffer_clear(B.b); B.n = 0; }
		if(r % 16 == 3) { op_string(&B); op_flush(&B, rng); }
		int64_t strings = B.dst ? malloc_usable_size(B.dst) : 0;
		VF_CHECK(MON_FOOT, VF_GET(vf_live_bytes) - bytes0 - strings <= 8 * (int64_t)p + 1000, "memory-growth", "%ld bytes in use for a peak length of %zu", (long)(VF_GET(vf_live_bytes) - bytes0), p);
		VF_CHECK(MON_FOOT, B.len <= 330 + p, "string-growth", "caller's string grew to %zu for lines of %zu bytes", B.len, p);
	}
	close_buf(&B);
	VF_CHECK(MON_LEAK | MON_FOOT, VF_GET(vf_live_bytes) == bytes0, "leak", "library memory still allocated after free");
	if(vf_want_sample()) { vf_sample("%s: %d rounds of %zu bytes", mode, rounds, p); }
	vf_op("mem", p, rounds);
	vf_count_add("operations", rounds);
	free(data);
	vf_case_done(true);
}

/* more bytes than 31 or 32 bits can count */
static void
huge_case(const char *mode, uint64_t idx, Rng *rng)
{
	size_t total = ((size_t)1 << (idx % 2 ? 32 : 31)) + rng_below(rng, 100000), tail = 3000;
	int64_t bytes0 = VF_GET(vf_live_bytes);
	if(!vf_memory(2 * total + ((size_t)1 << 30), 5 * total)) { vf_case_done(false); return; }
	/* a line of more than 2^31 bytes, then short ones */
	char end[3000];
	for(size_t i = 0; i < tail; ++i) { end[i] = rng_pct(rng, 3) ? '\n' : (char)rng_u64(rng); }
	end[0] = '\n';
	size_t n = total - tail, at = 0, dlen = 0;
	char *src = vf_far_bytes(n, '\n', end, tail), *dst = NULL;
	Buffer b;
	size_t max = rng_pct(rng, 50) ? total : SSIZE_MAX - 1;
	vf_op("huge", (int64_t)total, (int64_t)max);
	buffer_init(&b, max);
	while(at < total)
	{
		size_t c = rng_pct(rng, 40) ? total - at : 1 + rng_below(rng, total / 3);
		if(c > total - at) { c = total - at; }
		bool ok = buffer_fill(&b, src + at, c);
		VF_CHECK(MON_FUNC | MON_LIMIT, ok, "fill", "a write of %zu bytes behind %zu fails", c, at);
		at += c;
		VF_CHECK(MON_FUNC | MON_LIMIT, buffer_len(&b) == at && !buffer_is_empty(&b) && buffer_is_valid(&b), "len", "length is %zu, should be %zu", buffer_len(&b), at);
	}
	if(max == total)
	{
		bool ok = buffer_fill(&b, src, 0);
		VF_CHECK(MON_FUNC | MON_LIMIT, ok, "fill", "a write of nothing fails");
	}
	if(idx / 2 % 2)
	{
		char *s = buffer_to_string(&b);
		VF_CHECK(MON_FUNC, s && !memcmp(s, src, total) && !s[total], "string", "wrong string of %zu bytes", total);
		vf_free(s);
	}
	else
	{
		bool got = buffer_flush(&b, &dst, &dlen);
		VF_CHECK(MON_FUNC | MON_DST, got && dst && !memcmp(dst, src, total), "flush", "wrong bytes flushed, %zu of them", total);
		VF_CHECK(MON_DST, dlen == total && !dst[total], "dst-len", "length variable is %zu for %zu bytes", dlen, total);
	}
	size_t at0 = 0;
	for(int i = 0; i < 200; ++i)
	{
		size_t was = dlen;
		char *nl = i ? memchr(src + at0, '\n', total - at0) : src + n;
		bool got = buffer_read_line(&b, &dst, &dlen);
		VF_CHECK(MON_FUNC, got == !!nl, "line", "wrong answer from read line %d", i);
		if(!nl || !got) { break; }
		size_t l = (size_t)(nl - src) - at0;
		VF_CHECK(MON_FUNC | MON_DST, !memcmp(dst, src + at0, l), "line", "wrong line of %zu bytes", l);
		VF_CHECK(MON_DST, !dst[l] && dlen == (was > l ? was : l), "dst-len", "length variable is %zu after %zu bytes, was %zu", dlen, l, was);
		at0 += l + 1;
		VF_CHECK(MON_FUNC | MON_LIMIT, buffer_len(&b) == total - at0, "len", "length is %zu, should be %zu", buffer_len(&b), total - at0);
	}
	vf_free(dst);
	dst = NULL;
	dlen = 0;
	size_t left = total - at0;
	bool got = buffer_flush(&b, &dst, &dlen);
	VF_CHECK(MON_FUNC, got == (left > 0) && (!left || !memcmp(dst, src + at0, left)), "flush", "wrong rest of %zu bytes", left);
	if(max == total)
	{
		/* exactly one byte too much: nothing is copied */
		vf_may_report = true;
		bool ok = buffer_fill(&b, src, total - left + 1);
		vf_may_report = false;
		VF_CHECK(MON_LIMIT, !ok && !buffer_is_valid(&b) && !buffer_len(&b), "limit", "a write of %zu bytes behind %zu with a limit of %zu succeeds", total - left + 1, left, max);
	}
	buffer_clear(&b);
	bool ok = buffer_fill(&b, end, tail);
	VF_CHECK(MON_FUNC | MON_LIMIT, ok && buffer_len(&b) == tail, "fill", "no write after clear");
	buffer_free(&b);
	vf_free(dst);
	VF_CHECK(MON_LEAK, VF_GET(vf_live_bytes) == bytes0, "leak", "library memory still allocated after free");
	vf_count_max("longest content", total);
	if(vf_want_sample()) { vf_sample("%s: %zu bytes, limit %zu", mode, total, max); }
	vf_case_done(true);
}

void
run_case(const char *mode, uint64_t idx, Rng *rng)
{
	if(strstr(mode, "-huge")) { huge_case(mode, idx, rng); return; }
	if(strstr(mode, "-sweep")) { sweep_case(mode, idx, rng); }
	else if(strstr(mode, "-big")) { big_case(mode, rng); }
	else if(strstr(mode, "-mem")) { mem_case(mode, rng); }
	else { rand_case(mode, rng); }
}
