/* C43: nothing the library does or gives depends on uninitialised memory.
 * Run under MemorySanitizer: any decision taken, address computed, or byte
 * given to the system on uninitialised memory ends the run with a report; this
 * driver makes sure that what is not initialised is known as such (outputs,
 * ends of strings and arrays are poisoned before each call) and looks at the
 * outputs, which the sanitizer does not do by itself. In C: the C++ library is
 * not instrumented. */
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <inttypes.h>
#include <limits.h>
#include <poll.h>
#include <signal.h>
#ifdef MON_VALGRIND
/* the same driver under memcheck, which knows what the C library writes: it
 * confirms what the sanitizer reports */
#include <valgrind/memcheck.h>
#else
#include <sanitizer/msan_interface.h>
#endif
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <wchar.h>
#include "futils/dynmbox.h"
#include "futils/fdutils.h"
#include "futils/fs.h"
#include "futils/hash.h"
#include "futils/inotify.h"
#include "futils/list.h"
#include "futils/mbox.h"
#include "futils/random.h"
#include "futils/safew.h"
#include "futils/string.h"
#include "futils/synctools.h"
#include "futils/systimetools.h"
#include "futils/timetools.h"
#include "futils/varint.h"

/* ---------------------------------------------------------- the monitor */
#ifdef MON_VALGRIND
#define __msan_poison(p, n) VALGRIND_MAKE_MEM_UNDEFINED(p, n)
#define __msan_unpoison(p, n) VALGRIND_MAKE_MEM_DEFINED(p, n)
static intptr_t __msan_test_shadow(const void *p, size_t n)
{
	static uint8_t bits[4096];
	for (size_t o = 0; o < n; o += sizeof(bits)) {
		size_t m = n - o < sizeof(bits) ? n - o : sizeof(bits);
		if (VALGRIND_GET_VBITS((const uint8_t *)p + o, bits, m) != 1) continue;
		for (size_t i = 0; i < m; i++) if (bits[i]) return (intptr_t)(o + i);
	}
	return -1;
}
static void viol(const char *what, const char *detail);
static void __msan_check_mem_is_initialized(const void *p, size_t n)
{
	if (__msan_test_shadow(p, n) >= 0) viol("bytes given to the system", "");
}
#endif
static uint64_t seed;
static int thorough;
static uint64_t rnd(void)
{
	uint64_t z = (seed += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
static uint64_t below(uint64_t n) { return n ? rnd() % n : 0; }
static int chance(unsigned p) { return below(100) < p; }

static struct { const char *k; long n; } stats[128];
static void stat_add(const char *k, long n)
{
	for (int i = 0; i < 128; i++) {
		if (!stats[i].k) stats[i].k = k;
		if (stats[i].k == k || !strcmp(stats[i].k, k)) { stats[i].n += n; return; }
	}
}
#define SEEN (1 << 20)
static uint64_t seen[SEEN];
static long nseen, nevals;
static void eval(const char *what, uint64_t a, uint64_t b)
{
	uint64_t h = 1469598103934665603ull;
	for (const char *p = what; *p; p++) h = (h ^ (uint8_t)*p) * 1099511628211ull;
	h = (h ^ a) * 0xff51afd7ed558ccdull; h ^= h >> 31;
	h = (h ^ b) * 0xff51afd7ed558ccdull; h ^= h >> 29;
	h |= 1;
	nevals++;
	for (uint64_t i = h % SEEN, k = 0; k < 64; k++, i = (i + 1) % SEEN) {
		if (seen[i] == h) return;
		if (!seen[i]) { seen[i] = h; nseen++; return; }
	}
}
static uint64_t hbytes(const void *p, size_t n)
{
	const uint8_t *b = p;
	uint64_t h = n;
	for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull;
	return h ^ (h >> 31);
}
static int nviol;
static void viol(const char *what, const char *detail)
{
	if (nviol++ < 5) { printf("VIOL result not initialised: %s | %s\n", what, detail); fflush(stdout); }
}
/* the n bytes at p have been given by a successful call */
static void given(const void *p, size_t n, const char *what)
{
	intptr_t k = n ? __msan_test_shadow(p, n) : -1;
	if (k >= 0) {
		char d[100];
		snprintf(d, sizeof(d), "byte %ld of %zu", (long)k, n);
		viol(what, d);
		__msan_unpoison(p, n);
	}
	stat_add("outputs looked at", 1);
}
#define GIVEN(x, what) given(&(x), sizeof(x), what)
#define DIRTY(x) __msan_poison(&(x), sizeof(x))
/* copy of n bytes with nothing initialised behind */
static void *exact(const void *p, size_t n)
{
	uint8_t *b = malloc(n + 64);
	memcpy(b, p, n);
	__msan_poison(b + n, 64);
	return b;
}
static char *str(const char *s) { return exact(s, strlen(s) + 1); }

/* what is given to the system or to the C library's streams */
size_t __real_fwrite(const void *, size_t, size_t, FILE *);
size_t __wrap_fwrite(const void *p, size_t a, size_t b, FILE *f)
{
	if (a && b && b <= SIZE_MAX / a) { __msan_check_mem_is_initialized(p, a * b); stat_add("bytes given to streams", (long)(a * b)); }
	return __real_fwrite(p, a, b, f);
}
ssize_t __real_write(int, const void *, size_t);
ssize_t __wrap_write(int fd, const void *p, size_t n)
{
	__msan_check_mem_is_initialized(p, n);
	stat_add("bytes given to descriptors", (long)n);
	return __real_write(fd, p, n);
}
/* calendar functions of the C library are not instrumented */
static void fields(const struct tm *t, int dst)
{
	__msan_check_mem_is_initialized(&t->tm_sec, sizeof(int));
	__msan_check_mem_is_initialized(&t->tm_min, sizeof(int));
	__msan_check_mem_is_initialized(&t->tm_hour, sizeof(int));
	__msan_check_mem_is_initialized(&t->tm_mday, sizeof(int));
	__msan_check_mem_is_initialized(&t->tm_mon, sizeof(int));
	__msan_check_mem_is_initialized(&t->tm_year, sizeof(int));
	if (dst) __msan_check_mem_is_initialized(&t->tm_isdst, sizeof(int));
	stat_add("calendar fields given", 1);
}
time_t __real_timegm(struct tm *);
time_t __real_mktime(struct tm *);
time_t __wrap_timegm(struct tm *t) { fields(t, 0); return __real_timegm(t); }
time_t __wrap_mktime(struct tm *t) { fields(t, 1); return __real_mktime(t); }
/* allocations of the library fail on demand; fresh memory has arbitrary
 * contents and is not initialised (calloc excepted) */
static int fail_at = -1, nalloc;
static int refuse(void) { return fail_at >= 0 && nalloc++ == fail_at; }
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
char *__real_strdup(const char *);
void *__wrap_malloc(size_t n) { if (refuse()) { errno = ENOMEM; return NULL; } return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if (refuse()) { errno = ENOMEM; return NULL; } return __real_calloc(a, b); }
char *__wrap_strdup(const char *s) { if (refuse()) { errno = ENOMEM; return NULL; } return __real_strdup(s); }
int __real_lstat(const char *, struct stat *);
int __real_lstat64(const char *, struct stat64 *);
int __wrap_lstat64(const char *p, struct stat64 *s) { if (refuse()) { static const int e[] = {ENOENT, EACCES, EIO, ELOOP}; errno = e[below(4)]; return -1; } return __real_lstat64(p, s); }
int __real_clock_gettime(clockid_t, struct timespec *);
int __real_gettimeofday(struct timeval *, void *);
int __wrap_lstat(const char *p, struct stat *s) { if (refuse()) { static const int e[] = {ENOENT, EACCES, EIO, ELOOP}; errno = e[below(4)]; return -1; } return __real_lstat(p, s); }
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { if (refuse()) { errno = EINVAL; return -1; } return __real_clock_gettime(c, t); }
int __wrap_gettimeofday(struct timeval *t, void *z) { if (refuse()) { errno = EFAULT; return -1; } return __real_gettimeofday(t, z); }
static void arm(int k) { nalloc = 0; fail_at = k; }
static void disarm(void) { fail_at = -1; }

static char base[2000];
static char *path(const char *name)
{
	char p[3000];
	snprintf(p, sizeof(p), "%s/%s", base, name);
	return str(p);
}
static void put_file(const char *p, const void *c, size_t n)
{
	int fd = open(p, O_CREAT | O_TRUNC | O_WRONLY, 0644);
	if (fd < 0 || __real_write(fd, c, n) != (ssize_t)n) { printf("HARNESS cannot write %s\n", p); exit(3); }
	close(fd);
}

/* -------------------------------------------------------------- varints */
static void t_varint(void)
{
	int n = thorough ? 300000 : 20000;
	for (int i = 0; i < n; i++) {
		uint8_t raw[12];
		size_t len = below(12), done;
		for (size_t k = 0; k < 12; k++) raw[k] = (uint8_t)(rnd() | (chance(70) ? 0x80 : 0));
		if (chance(50) && len) raw[len - 1] &= 0x7f;
		uint8_t *src = exact(raw, len);
		uint16_t a; int16_t b; uint32_t c; int32_t d; uint64_t e; int64_t f;
		int rc = 0, t = (int)below(6);
		DIRTY(a); DIRTY(b); DIRTY(c); DIRTY(d); DIRTY(e); DIRTY(f); DIRTY(done);
#define RD(T, v) rc = futils_varint_read_##T(src, len, &v, &done); if (rc == 0) { GIVEN(v, "varint value"); GIVEN(done, "varint length"); }
		switch (t) {
		case 0: RD(u16, a) break;
		case 1: RD(i16, b) break;
		case 2: RD(u32, c) break;
		case 3: RD(i32, d) break;
		case 4: RD(u64, e) break;
		default: RD(i64, f) break;
		}
		eval("varint read", hbytes(raw, len), (uint64_t)(t * 2 + (rc == 0)));
		stat_add(rc == 0 ? "varints read" : "varints refused", 1);
		free(src);
		uint64_t v = rnd() >> below(64);
		uint8_t *dst = malloc(10);
		DIRTY(done);
		switch (t) {
		case 0: rc = futils_varint_write_u16(dst, 10, (uint16_t)v, &done); break;
		case 1: rc = futils_varint_write_i16(dst, 10, (int16_t)v, &done); break;
		case 2: rc = futils_varint_write_u32(dst, 10, (uint32_t)v, &done); break;
		case 3: rc = futils_varint_write_i32(dst, 10, (int32_t)v, &done); break;
		case 4: rc = futils_varint_write_u64(dst, 10, v, &done); break;
		default: rc = futils_varint_write_i64(dst, 10, (int64_t)v, &done); break;
		}
		if (rc == 0) { GIVEN(done, "varint length"); given(dst, done, "varint bytes"); }
		eval("varint write", v, (uint64_t)t);
		free(dst);
	}
}
/* ---------------------------------------------------------------- times */
static void t_time(void)
{
	int n = thorough ? 200000 : 15000;
	for (int i = 0; i < n; i++) {
		struct timespec a = {(time_t)(rnd() >> (1 + below(63))), (long)below(1000000000)}, b = {(time_t)(chance(40) ? a.tv_sec : (time_t)(rnd() >> (1 + below(63)))), (long)below(1000000000)}, r;
		uint64_t u = rnd() >> below(64), v;
		uint32_t w;
		int sign, rc;
		DIRTY(r); DIRTY(v); DIRTY(w); DIRTY(sign);
		int op = (int)below(17);
		if (chance(20)) arm((int)below(4));
		switch (op) {
		case 0: rc = time_timespec_diff(&a, &b, &r); if (rc == 0) GIVEN(r, "time_timespec_diff"); break;
		case 1: a.tv_sec &= 0x7fffffffff; b.tv_sec &= 0x7fffffffff; rc = time_timespec_diff_us(&a, &b, &v, &sign); if (rc == 0) { GIVEN(v, "time_timespec_diff_us"); if (time_timespec_cmp(&a, &b)) GIVEN(sign, "time_timespec_diff_us sign"); } break;
		case 2: a.tv_sec &= 0x7fffffffff; b.tv_sec &= 0x7fffffffff; rc = time_timespec_diff_in_range(&a, &b, u, &v); GIVEN(rc, "time_timespec_diff_in_range"); if (rc) GIVEN(v, "time_timespec_diff_in_range difference"); break;
		case 3: a.tv_sec &= 0x1ffffffff; rc = time_timespec_to_ns(&a, &v); if (rc == 0) GIVEN(v, "time_timespec_to_ns"); break;
		case 4: a.tv_sec &= 0x7ffffffffff; rc = time_timespec_to_us(&a, &v); if (rc == 0) GIVEN(v, "time_timespec_to_us"); break;
		case 5: a.tv_sec &= 0x7ffffffffff; rc = time_timespec_to_ms(&a, &v); if (rc == 0) GIVEN(v, "time_timespec_to_ms"); break;
		case 6: rc = time_ms_to_timespec(&u, &r); if (rc == 0) GIVEN(r, "time_ms_to_timespec"); break;
		case 7: rc = time_us_to_timespec(&u, &r); if (rc == 0) GIVEN(r, "time_us_to_timespec"); break;
		case 8: rc = time_ns_to_timespec(&u, &r); if (rc == 0) GIVEN(r, "time_ns_to_timespec"); break;
		case 9: rc = time_timespec_cmp(&a, &b); GIVEN(rc, "time_timespec_cmp"); break;
		case 10: a.tv_sec &= 0x7fffffffffff; rc = time_timespec_add_us(&a, (int64_t)(rnd() >> 14) - (1ll << 49), &r); if (rc == 0) GIVEN(r, "time_timespec_add_us"); break;
		case 11: a.tv_sec &= 0x7fffffffffff; rc = time_timespec_add_ns(&a, (int64_t)rnd(), &r); if (rc == 0) GIVEN(r, "time_timespec_add_ns"); break;
		case 12: { struct timeval tv = {a.tv_sec, a.tv_nsec / 1000}; rc = time_timeval_to_timespec(&tv, &r); if (rc == 0) GIVEN(r, "time_timeval_to_timespec"); break; }
		case 13: { struct timeval tv = {a.tv_sec & 0x3ffff, a.tv_nsec / 1000}; rc = time_timeval_to_ms(&tv, &w); if (rc == 0) GIVEN(w, "time_timeval_to_ms"); break; }
		case 14: rc = time_get_monotonic(&r); if (rc == 0) { GIVEN(r, "time_get_monotonic"); a = r; DIRTY(r); rc = time_timespec_diff_now(&a, &r); if (rc == 0) GIVEN(r, "time_timespec_diff_now"); } break;
		case 15: rc = time_monotonic_to_realtime_us(u >> 14, &v); if (rc == 0) GIVEN(v, "time_monotonic_to_realtime_us"); break;
		default: rc = time_monotonic_to_realtime_ms(u >> 24, &v); if (rc == 0) GIVEN(v, "time_monotonic_to_realtime_ms"); break;
		}
		disarm();
		eval("time", (uint64_t)a.tv_sec ^ u, (uint64_t)op);
		stat_add("time operations", 1);
	}
}
/* ---------------------------------------------------------------- dates */
static void dates_text(char *s, size_t n)
{
	static const char *mon[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec", "Ja", "xxx"};
	static const char *wd[] = {"Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun", "Su"};
	static const char *zn[] = {"", "Z", "GMT", "UT", "UTC", "+01", "+0130", "-02:45", "+1", "-", "+01:", "GM", " ", "z", "+99:99", "U"};
	unsigned y = (unsigned)(1970 + below(130)), m = (unsigned)below(14), d = (unsigned)below(33), H = (unsigned)below(26), M = (unsigned)below(62), S = (unsigned)below(63);
	const char *z = zn[below(16)];
	switch (below(8)) {
	case 0: snprintf(s, n, "%04u%02u%02u", y, m, d); break;
	case 1: snprintf(s, n, "%04u-%02u-%02u", y, m, d); break;
	case 2: snprintf(s, n, "%s%02u%02u%02u%s", chance(50) ? "T" : "", H, M, S, z); break;
	case 3: snprintf(s, n, "%s%02u:%02u:%02u%s", chance(50) ? "T" : "", H, M, S, z); break;
	case 4: snprintf(s, n, "%04u-%02u-%02u%s%02u:%02u:%02u%s", y, m, d, chance(50) ? "T" : chance(70) ? " " : "", H, M, S, z); break;
	case 5: snprintf(s, n, "%04u%02u%02u%s%02u%02u%02u%s", y, m, d, chance(50) ? "T" : chance(70) ? " " : "", H, M, S, z); break;
	case 6: snprintf(s, n, "%s, %u %s %u %02u:%02u:%02u%s%s", wd[below(8)], d, mon[below(14)], y, H, M, S, chance(80) ? " " : "", z); break;
	default: for (size_t k = 0, l = below(30); k < l; k++) { s[k] = "0123456789T:-+Z ,"[below(17)]; s[k + 1] = 0; } if (chance(5)) s[0] = 0; break;
	}
	size_t l = strlen(s);
	if (l && chance(30)) s[below(l)] = (char)(chance(70) ? "0129T:-+Z ,x"[below(12)] : 1 + below(255));
	if (l && chance(25)) s[below(l)] = 0;
}
static void t_date(void)
{
	int n = thorough ? 300000 : 25000;
	for (int i = 0; i < n; i++) {
		char txt[64] = "", *s;
		uint64_t e; int32_t o; struct tm tm; uint16_t ms;
		int rc;
		DIRTY(e); DIRTY(o); DIRTY(tm); DIRTY(ms);
		dates_text(txt, sizeof(txt));
		s = str(txt);
		rc = time_local_parse(s, &e, &o);
		GIVEN(rc, "time_local_parse");
		if (rc == 0) { GIVEN(e, "parsed time"); GIVEN(o, "parsed offset"); }
		stat_add(rc == 0 ? "times parsed" : "times refused", 1);
		eval("parse", hbytes(txt, strlen(txt)), (uint64_t)(rc == 0));
		struct time_ctx c;
		DIRTY(c);
		if (time_ctx_init(&c) == 0) {
			for (int k = 0; k < 3; k++) {
				int op = (int)below(3);
				rc = op == 0 ? time_ctx_set_date(&c, s) : op == 1 ? time_ctx_set_hour(&c, s) : time_ctx_set_time(&c, s);
				GIVEN(rc, "time context result");
				if (rc == 0 || chance(20)) {
					DIRTY(e); DIRTY(o);
					rc = time_ctx_get_local(&c, &e, &o);
					GIVEN(rc, "time_ctx_get_local");
					if (rc == 0) { GIVEN(e, "time of a context"); GIVEN(o, "offset of a context"); stat_add("contexts completed", 1); }
				}
				free(s);
				dates_text(txt, sizeof(txt));
				s = str(txt);
			}
		}
		free(s);
		int32_t off = (int32_t)(60 * ((int64_t)below(2879) - 1439));
		uint64_t ep = 86400 + below(253402300799ull - 200000);
		char *out = malloc(64);
		size_t sz = below(64);
		rc = time_local_format(ep, off, (enum time_fmt)below(3), out, sz);
		GIVEN(rc, "time_local_format");
		if (rc == 0) {
			size_t k = 0;
			while (k < sz && __msan_test_shadow(out + k, 1) < 0 && out[k]) k++;
			given(out, k < sz ? k + 1 : sz, "formatted time");
		}
		free(out);
		rc = time_local_to_tm(ep, off, &tm);
		if (rc == 0) {
			GIVEN(tm.tm_year, "tm_year"); GIVEN(tm.tm_mon, "tm_mon"); GIVEN(tm.tm_mday, "tm_mday"); GIVEN(tm.tm_hour, "tm_hour");
			GIVEN(tm.tm_min, "tm_min"); GIVEN(tm.tm_sec, "tm_sec"); GIVEN(tm.tm_wday, "tm_wday"); GIVEN(tm.tm_yday, "tm_yday");
			GIVEN(tm.tm_isdst, "tm_isdst"); GIVEN(tm.tm_gmtoff, "tm_gmtoff");
			DIRTY(e); DIRTY(o);
			/* what a caller is not asked to fill */
			if (chance(50)) { DIRTY(tm.tm_zone); }
			rc = time_local_from_tm(&tm, &e, &o);
			if (rc == 0) { GIVEN(e, "time from fields"); GIVEN(o, "offset from fields"); }
		}
		DIRTY(e); DIRTY(o);
		if (chance(10)) arm((int)below(2));
		rc = time_local_get(&e, &o);
		if (rc == 0) { GIVEN(e, "local time"); GIVEN(o, "local offset"); }
		DIRTY(e); DIRTY(o);
		rc = time_local_ms_get(&e, &ms, &o);
		disarm();
		if (rc == 0) { GIVEN(e, "local time"); GIVEN(ms, "milliseconds"); GIVEN(o, "local offset"); }
		eval("format", ep, (uint64_t)(uint32_t)off);
		stat_add("dates", 1);
	}
}
/* --------------------------------------------------------------- random */
static void t_random(void)
{
	int n = thorough ? 100000 : 8000;
	for (int i = 0; i < n; i++) {
		size_t len = chance(90) ? below(700) : below(9000);
		uint8_t *b = malloc(len + 16);
		int rc, op = (int)below(14);
		switch (op) {
		case 0: futils_random(b, len); given(b, len, "futils_random"); break;
		case 1: rc = futils_random_bytes(b, len); if (rc == 0) given(b, len, "futils_random_bytes"); break;
		case 2: rc = futils_random_strong(b, len); if (rc == 0) given(b, len, "futils_random_strong"); break;
		case 3: { uint8_t a = futils_randomr8(); uint16_t c = futils_randomr16(); uint32_t d = futils_randomr32(); uint64_t e = futils_randomr64(); GIVEN(a, "futils_randomr8"); GIVEN(c, "futils_randomr16"); GIVEN(d, "futils_randomr32"); GIVEN(e, "futils_randomr64"); break; }
		case 4: { uint8_t a = futils_randomr8_maximum((uint8_t)rnd()); uint16_t c = futils_randomr16_maximum((uint16_t)rnd()); uint32_t d = futils_randomr32_maximum((uint32_t)rnd()); uint64_t e = futils_randomr64_maximum(rnd() >> below(64)); GIVEN(a, "futils_randomr8_maximum"); GIVEN(c, "futils_randomr16_maximum"); GIVEN(d, "futils_randomr32_maximum"); GIVEN(e, "futils_randomr64_maximum"); break; }
		case 5: { double d = futils_randomrd(); float f = futils_randomrf(); GIVEN(d, "futils_randomrd"); GIVEN(f, "futils_randomrf"); break; }
		case 6: rc = futils_random_reseed(); GIVEN(rc, "futils_random_reseed"); break;
		case 7: { /* text: what has been written, up to its terminator */
			size_t cnt = below(300), sz = below(len + 1);
			char *s = (char *)b;
			int k = (int)below(4);
			rc = k == 0 ? futils_random_string(s, sz, cnt, "abcdef0123") : k == 1 ? futils_random_base16(s, sz, cnt) : k == 2 ? futils_random_base32(s, sz, cnt) : futils_random_base64(s, sz, cnt);
			GIVEN(rc, "length of a random text");
			if (rc >= 0 && sz) given(s, (size_t)rc < sz ? (size_t)rc + 1 : sz, "random text");
			break; }
		default: { size_t sz = 1 + below(40), cnt = len / sz; memset(b, 7, cnt * sz); for (size_t k = 0; k < cnt * sz; k++) b[k] = (uint8_t)(k / sz); futils_random_shuffle(b, cnt, sz); given(b, cnt * sz, "shuffled items"); break; }
		}
		free(b);
		eval("random", (uint64_t)op, len);
		stat_add("random requests", 1);
	}
}
/* --------------------------------------------------------- list and hash */
static int freed;
static void on_free(void *p) { GIVEN(p, "data given to the free callback"); freed++; }
struct item { struct list_node n; int v; };
static void t_hash(void)
{
	int rounds = thorough ? 3000 : 250;
	for (int i = 0; i < rounds; i++) {
		struct hash h;
		DIRTY(h);
		size_t sz = chance(80) ? below(200) : below(5000);
		if (chance(20)) arm((int)below(3));
		int rc = futils_hash_init(&h, sz, chance(50) ? on_free : NULL);
		disarm();
		GIVEN(rc, "futils_hash_init");
		if (rc < 0) continue;
		for (int k = 0, ops = (int)below(300); k < ops; k++) {
			uint32_t key = chance(50) ? (uint32_t)below(64) : (uint32_t)rnd() & 0x80ff00ff;
			void *d; const void *cd;
			struct hash_entry *e;
			DIRTY(d); DIRTY(cd);
			if (chance(10)) arm((int)below(2));
			switch (below(7)) {
			case 0: case 1: rc = futils_hash_insert(&h, key, (void *)(uintptr_t)(key * 16 + 16)); break;
			case 2: rc = futils_hash_insert_const(&h, key, (void *)(uintptr_t)(key * 16 + 16)); break;
			case 3: rc = futils_hash_remove(&h, key); break;
			case 4: rc = futils_hash_lookup(&h, key, &d); if (rc == 0) GIVEN(d, "data looked up"); break;
			case 5: rc = futils_hash_lookup_const(&h, key, &cd); if (rc == 0) GIVEN(cd, "constant data looked up"); break;
			default: rc = 0; if (chance(5)) rc = futils_hash_remove_all(&h); else list_walk_entry_forward(&h.entries, e, node) { GIVEN(e->key, "key of an entry"); GIVEN(e->data, "data of an entry"); GIVEN(e->is_const, "kind of an entry"); } break;
			}
			disarm();
			GIVEN(rc, "result of a table operation");
			eval("hash", key, (uint64_t)rc);
			stat_add("table operations", 1);
		}
		futils_hash_destroy(&h);
	}
	for (int i = 0; i < rounds; i++) {
		struct list_node l[2];
		struct item *it[20], *e, *t;
		DIRTY(l);
		list_init(&l[0]); list_init(&l[1]);
		for (int k = 0; k < 20; k++) { it[k] = malloc(sizeof(**it)); it[k]->v = k; if (chance(50)) list_add_before(&l[k & 1], &it[k]->n); else list_add_after(&l[k & 1], &it[k]->n); }
		for (int k = 0; k < 30; k++) {
			struct item *x = it[below(20)];
			if (list_node_is_unref(&x->n)) { list_push(&l[0], &x->n); continue; }
			switch (below(4)) {
			case 0: list_del(&x->n); GIVEN(x->n, "unlinked node"); break;
			case 1: list_move_after(&l[0], &x->n); break;
			case 2: list_move_before(&l[1], &x->n); break;
			default: { struct item *p = list_pop(&l[k & 1], struct item, n); GIVEN(p, "popped item"); break; }
			}
			size_t a = list_length(&l[0]);
			int em = list_is_empty(&l[1]);
			GIVEN(a, "list length"); GIVEN(em, "list emptiness");
			list_walk_entry_forward_safe(&l[k & 1], e, t, n) GIVEN(e->v, "walked item");
			eval("list", a, (uint64_t)em);
		}
		for (int k = 0; k < 20; k++) free(it[k]);
		stat_add("lists", 1);
	}
}
/* ----------------------------------------------------------------- text */
static void t_string(void)
{
	static const char *piece[] = {"a", "/", "\x7f", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xc3", "\xed\xa0\x80", "\xff", "\xe2\x82", "\xf4\x90\x80\x80", "zz", "\xef\xbb\xbf", "\n"};
	int n = thorough ? 60000 : 5000;
	for (int i = 0; i < n; i++) {
		char txt[4000] = "";
		int bad = chance(25);
		for (int k = 0, l = (int)below(chance(85) ? 40 : 900); k < l; k++) { int p = (int)below(14); if (!bad && (p >= 6 && p <= 10)) p = 3; strcat(txt, piece[p]); }
		char *s = str(txt);
		wchar_t forb[] = L"/\u20ac\x1f600\n";
		size_t nf = below(5);
		forb[nf] = 0;
		wchar_t *f = chance(70) ? exact(forb, (nf + 1) * sizeof(wchar_t)) : NULL;
		size_t sz = chance(50) ? below(strlen(txt) + 6) : 4000;
		char *out = malloc(4008);
		if (chance(10)) arm((int)below(4));
		int rc = futils_string_sanitize_utf8(s, out, sz, f, L'_');
		GIVEN(rc, "futils_string_sanitize_utf8");
		if (rc >= 0 && sz >= 2) given(out, (size_t)rc + 1 < sz ? (size_t)rc + 1 : sz, "sanitised text");
		stat_add(rc >= 0 ? "texts sanitised" : "texts refused", 1);
		rc = futils_string_check_utf8(s, chance(50) ? below(100) : chance(30) ? below(4000) : 0, chance(50) ? below(30) : 0, f);
		disarm();
		GIVEN(rc, "futils_string_check_utf8");
		eval("utf8", hbytes(txt, strlen(txt)), sz);
		free(out); free(s); free(f);
	}
}
/* ------------------------------------------------------------ mailboxes */
static void t_box(void)
{
	int rounds = thorough ? 2000 : 200;
	for (int i = 0; i < rounds; i++) {
		size_t sz = chance(70) ? below(200) : below(PIPE_BUF + 2);
		if (chance(25)) arm((int)below(2));
		struct mbox *b = mbox_new(sz);
		disarm();
		if (b) {
			uint8_t *m = malloc(sz), *o = malloc(sz + 8);
			int fd = mbox_get_read_fd(b);
			GIVEN(fd, "mailbox descriptor");
			for (int k = 0; k < 60; k++) {
				int rc;
				for (size_t q = 0; q < sz; q++) m[q] = (uint8_t)(k + (int)q);
				if (chance(60)) rc = chance(60) ? mbox_push(b, m) : mbox_push_block(b, m, 1 + (unsigned)below(2));
				else { __msan_poison(o, sz + 8); rc = mbox_peek(b, o); if (rc == 0) given(o, sz, "message of a mailbox"); }
				GIVEN(rc, "mailbox result");
				eval("mbox", sz, (uint64_t)rc);
				stat_add("mailbox operations", 1);
			}
			free(m); free(o);
		}
		mbox_destroy(b);
		size_t max = chance(30) ? DYNMBOX_MAX_SIZE : below(3000);
		if (chance(25)) arm((int)below(3));
		struct dynmbox *d = dynmbox_new(max);
		disarm();
		if (!d) continue;
		uint8_t *m = malloc(max + 1), *o = malloc(max + 1);
		int fd = dynmbox_get_read_fd(d);
		ssize_t ms = dynmbox_get_max_size(d);
		GIVEN(fd, "mailbox descriptor"); GIVEN(ms, "mailbox size");
		for (int k = 0; k < 60; k++) {
			ssize_t rc;
			size_t l = chance(60) ? below(max + 1) : below(max < 40 ? max + 1 : 40);
			for (size_t q = 0; q < l; q++) m[q] = (uint8_t)(k + (int)q);
			__msan_poison(m + l, max + 1 - l);
			if (chance(60)) rc = chance(70) ? dynmbox_push(d, chance(20) && !l ? NULL : m, l) : dynmbox_push_block(d, m, l, 1 + (unsigned)below(2));
			else { __msan_poison(o, max + 1); rc = dynmbox_peek(d, o); if (rc > 0) given(o, (size_t)rc, "message of a mailbox"); }
			GIVEN(rc, "mailbox result");
			__msan_unpoison(m, max + 1);
			eval("dynmbox", l, (uint64_t)rc);
			stat_add("mailbox operations", 1);
		}
		free(m); free(o);
		dynmbox_destroy(d);
	}
	/* without descriptors */
	struct rlimit old, l;
	getrlimit(RLIMIT_NOFILE, &old);
	for (int k = 3; k < 12; k++) {
		l = old; l.rlim_cur = (rlim_t)k;
		setrlimit(RLIMIT_NOFILE, &l);
		struct mbox *b = mbox_new(10);
		struct dynmbox *d = dynmbox_new(10);
		int fd = inotify_create(base, IN_CREATE);
		int r1 = sync_folder(base);
		int64_t r2 = futils_fs_dir_size(base, true);
		GIVEN(fd, "inotify_create"); GIVEN(r1, "sync_folder"); GIVEN(r2, "futils_fs_dir_size");
		setrlimit(RLIMIT_NOFILE, &old);
		if (!b) stat_add("creations refused", 1);
		mbox_destroy(b); dynmbox_destroy(d); inotify_destroy(fd);
		eval("limits", (uint64_t)k, 0);
	}
}
/* ---------------------------------------------------------------- files */
static int nev;
static void on_event(struct inotify_event *e, void *d)
{
	given(e, sizeof(*e), "event");
	given(e->name, e->len, "name of an event");
	GIVEN(d, "data of the callback");
	nev++;
}
static void t_files(void)
{
	int rounds = thorough ? 1500 : 150;
	char *f = path("f"), *fc = path("f.crc"), *ft = path("f.tmp"), *fct = path("f.crc.tmp"), *missing = path("none/f"), *dir = path("d");
	(void)fc; (void)ft; (void)fct;
	uint8_t *content = malloc(20000);
	for (int i = 0; i < rounds; i++) {
		int k = (int)below(4), rc;
		for (int q = 0; q < 20000; q++) content[q] = (uint8_t)rnd();
		if (chance(20)) arm((int)below(3));
		struct futils_safew_file *w = futils_safew_fopen(chance(90) ? f : missing);
		disarm();
		if (w) {
			for (int q = 0, ops = (int)below(6); q < ops; q++) {
				size_t n = 1 + below(chance(80) ? 300 : 20000);
				uint8_t *x = exact(content, n);
				size_t a = chance(50) ? futils_safew_fwrite(x, 1, n, w) : futils_safew_fwrite(x, n, 1, w);
				GIVEN(a, "futils_safew_fwrite");
				free(x);
				rc = futils_safew_fprintf(w, "%d %s", (int)n, "text");
				GIVEN(rc, "futils_safew_fprintf");
			}
			rc = k == 0 ? futils_safew_fclose_rollback(w) : k == 1 ? futils_safew_fclose_commit(w) : futils_safew_fclose_commit_with_crc(w);
			GIVEN(rc, "result of a close");
			stat_add("safe writes", 1);
		}
		/* damage: files cut, removed, left by an interrupted rewrite */
		DIR *dd = opendir(base);
		struct dirent *de;
		while (dd && (de = readdir(dd))) {
			if (de->d_name[0] != 'f') continue;
			char *p = path(de->d_name);
			if (chance(25)) truncate(p, (off_t)below(6));
			if (chance(15)) unlink(p);
			if (chance(15)) { char q[3100]; snprintf(q, sizeof(q), "%s%s", p, chance(50) ? ".tmp" : ".crc"); char *qq = str(q); if (strlen(q) < sizeof(base)) put_file(qq, content, below(10)); free(qq); }
			free(p);
		}
		if (dd) closedir(dd);
		if (chance(30)) arm((int)below(6));
		rc = futils_safew_file_check(f);
		disarm();
		GIVEN(rc, "futils_safew_file_check");
		stat_add(rc == 0 ? "file checks accepted" : "file checks refused", 1);
		eval("safew", (uint64_t)(k * 2 + (rc == 0)), hbytes(content, 64));
		/* leave nothing odd behind */
		if (chance(30)) { dd = opendir(base); while (dd && (de = readdir(dd))) if (de->d_name[0] == 'f') { char *p = path(de->d_name); unlink(p); free(p); } if (dd) closedir(dd); }
		/* directory sizes, synchronisation, events */
		mkdir(dir, 0755);
		char *in = path("d/in"), *lnk = path("d/lnk"), *sub = path("d/sub"), *deep = path("d/sub/deep");
		int ifd = inotify_create(chance(90) ? dir : missing, IN_CREATE | IN_DELETE | IN_MOVE | IN_MODIFY);
		GIVEN(ifd, "inotify_create");
		put_file(in, content, below(3000));
		symlink(in, lnk);
		mkdir(sub, 0755);
		put_file(deep, content, below(100));
		for (int q = 0, m = (int)below(i % 10 ? 4 : 60); q < m; q++) { char nm[300]; snprintf(nm, sizeof(nm), "d/%0*d", 1 + (int)below(200), q); char *p = path(nm); put_file(p, "x", 1); unlink(p); free(p); }
		if (chance(20)) arm((int)below(7));
		int64_t sz = futils_fs_dir_size(chance(80) ? dir : chance(50) ? missing : in, chance(50));
		disarm();
		GIVEN(sz, "futils_fs_dir_size");
		if (chance(20)) arm((int)below(2));
		int r1 = sync_file_and_folder(chance(80) ? in : missing), r2 = sync_file(chance(80) ? in : missing), r3 = sync_folder(chance(80) ? dir : in);
		disarm();
		GIVEN(r1, "sync_file_and_folder"); GIVEN(r2, "sync_file"); GIVEN(r3, "sync_folder");
		if (ifd >= 0) {
			nev = 0;
			int fl = fd_has_close_on_exec(ifd), f2 = fd_add_flags(ifd, O_NONBLOCK), f3 = fd_set_close_on_exec(ifd);
			GIVEN(fl, "fd_has_close_on_exec"); GIVEN(f2, "fd_add_flags"); GIVEN(f3, "fd_set_close_on_exec");
			if (chance(10)) arm(0);
			inotify_process_fd(ifd, on_event, &nev);
			disarm();
			inotify_process_fd(ifd, on_event, &nev);
			stat_add("events", nev);
		}
		inotify_destroy(ifd);
		inotify_process_fd(-1, on_event, NULL);
		int bad = fd_has_close_on_exec(-1), bad2 = fd_add_flags(-1, O_NONBLOCK), bad3 = fd_set_close_on_exec(-1);
		GIVEN(bad, "fd_has_close_on_exec"); GIVEN(bad2, "fd_add_flags"); GIVEN(bad3, "fd_set_close_on_exec");
		eval("files", (uint64_t)sz, (uint64_t)nev);
		unlink(deep); rmdir(sub); unlink(lnk); unlink(in); rmdir(dir);
		free(in); free(lnk); free(sub); free(deep);
	}
	free(content); free(f); free(fc); free(ft); free(fct); free(missing); free(dir);
}

int main(int argc, char **argv)
{
	if (argc < 4) return 3;
	thorough = !strcmp(argv[1], "thorough");
	seed = strtoull(argv[2], NULL, 10) * 7919 + 5;
	const char *s = getenv("VP_SCRATCH");
	if (!s || strlen(s) > 1000) { printf("HARNESS no scratch\n"); return 3; }
	snprintf(base, sizeof(base), "%s/i", s);
	mkdir(base, 0755);
	if (chdir(base)) return 3;
	signal(SIGPIPE, SIG_IGN);
	/* the monitor sees what it must see */
	uint8_t *self = malloc(4);
	self[0] = 1;
	if (__msan_test_shadow(self, 1) >= 0 || __msan_test_shadow(self, 4) != 1) { printf("HARNESS uninitialised memory is not recognised\n"); return 3; }
	free(self);
	stat_add("oracle self-test", 1);
	t_varint();
	t_time();
	t_date();
	t_random();
	t_hash();
	t_string();
	t_box();
	t_files();
	printf("SAMPLE %ld calls and histories, each with its outputs and the ends of its inputs marked as uninitialised before\n", nevals);
	printf("STAT evaluations %ld\nSTAT distinct %ld\n", nevals, nseen);
	for (int i = 0; i < 128 && stats[i].k; i++) printf("STAT %s %ld\n", stats[i].k, stats[i].n);
	if (nviol) printf("STAT viol:result not initialised %d\n", nviol);
	printf("DONE\n");
	return 0;
}
