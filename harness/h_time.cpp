/* C21 timespec arithmetic against exact integer arithmetic; C26 clocks, sleeps
 * and monotonic-to-realtime conversion against scripted clocks. */
#include "mon.h"
#include <sys/time.h>
#include "futils/timetools.h"
using namespace mon;
typedef __int128 I;
static const I G = 1000000000;

extern "C" {
int __real_clock_gettime(clockid_t, struct timespec *);
int __real_gettimeofday(struct timeval *, void *);
time_t __real_time(time_t *);
int __real_nanosleep(const struct timespec *, struct timespec *);
int __real_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *);
int __real_usleep(useconds_t);
}

/* ------------------------------------------------------- scripted clocks */
namespace vc {
static thread_local bool on; /* this thread only: the watchdog keeps the real clocks */
static I mono, real;           /* ns */
static std::deque<I> step;     /* elapses before each reading */
static int fail_at = -1, fail_errno;
static int calls, mono_calls, real_calls, other;
static I first, last;          /* monotonic instants of the first and last reading */
static I slept;                /* ns asked for and granted */
static int intr_at = -1, sleeps;
static I intr_frac;
static void begin(I m, I r)
{
	mono = m; real = r; step.clear(); fail_at = -1; calls = mono_calls = real_calls = other = 0;
	first = last = -1; slept = 0; sleeps = 0; intr_at = -1; on = true;
}
static void pass() { I d = 0; if (!step.empty()) { d = step.front(); step.pop_front(); } mono += d; real += d; }
static int reading(bool m, I *v)
{
	pass();
	if (calls++ == fail_at) { errno = fail_errno; return -1; }
	if (first < 0) first = mono;
	last = mono;
	(m ? mono_calls : real_calls)++;
	*v = m ? mono : real;
	return 0;
}
}
extern "C" int __wrap_clock_gettime(clockid_t c, struct timespec *t)
{
	if (!vc::on) return __real_clock_gettime(c, t);
	bool m = c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_RAW || c == CLOCK_BOOTTIME || c == CLOCK_MONOTONIC_COARSE;
	I v;
	if (c != CLOCK_MONOTONIC && c != CLOCK_REALTIME) vc::other++;
	if (vc::reading(m, &v) < 0) return -1;
	t->tv_sec = (time_t)(v / G); t->tv_nsec = (long)(v % G);
	return 0;
}
extern "C" int __wrap_gettimeofday(struct timeval *t, void *z)
{
	if (!vc::on) return __real_gettimeofday(t, z);
	I v;
	if (vc::reading(false, &v) < 0) return -1;
	t->tv_sec = (time_t)(v / G); t->tv_usec = (long)(v % G / 1000);
	return 0;
}
extern "C" time_t __wrap_time(time_t *p)
{
	if (!vc::on) return __real_time(p);
	I v;
	if (vc::reading(false, &v) < 0) return -1;
	if (p) *p = (time_t)(v / G);
	return (time_t)(v / G);
}
static int vsleep(I want, I *rem)
{
	if (want < 0) { errno = EINVAL; return -1; }
	if (vc::sleeps++ == vc::intr_at) {
		I d = want * vc::intr_frac / 1000;
		vc::slept += d; vc::mono += d; vc::real += d;
		if (rem) *rem = want - d;
		errno = EINTR;
		return -1;
	}
	vc::slept += want; vc::mono += want; vc::real += want;
	return 0;
}
extern "C" int __wrap_nanosleep(const struct timespec *a, struct timespec *b)
{
	if (!vc::on) return __real_nanosleep(a, b);
	if (a->tv_nsec < 0 || a->tv_nsec > 999999999 || a->tv_sec < 0) { errno = EINVAL; return -1; }
	I rem = 0;
	int r = vsleep((I)a->tv_sec * G + a->tv_nsec, &rem);
	if (r < 0 && b) { b->tv_sec = (time_t)(rem / G); b->tv_nsec = (long)(rem % G); }
	return r;
}
extern "C" int __wrap_clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b)
{
	if (!vc::on) return __real_clock_nanosleep(c, fl, a, b);
	if (a->tv_nsec < 0 || a->tv_nsec > 999999999 || a->tv_sec < 0) return EINVAL;
	I want = (I)a->tv_sec * G + a->tv_nsec, rem = 0;
	if (fl & TIMER_ABSTIME) { want -= c == CLOCK_REALTIME ? vc::real : vc::mono; if (want < 0) want = 0; }
	int r = vsleep(want, &rem);
	if (r < 0 && b && !(fl & TIMER_ABSTIME)) { b->tv_sec = (time_t)(rem / G); b->tv_nsec = (long)(rem % G); }
	return r < 0 ? errno : 0;
}
extern "C" int __wrap_usleep(useconds_t u)
{
	if (!vc::on) return __real_usleep(u);
	return vsleep((I)u * 1000, nullptr);
}

/* ---------------------------------------------------------------- C21 */
static std::string ts(const struct timespec &t) { return fmt("%lld.%09ld", (long long)t.tv_sec, t.tv_nsec); }
static I val(const struct timespec &t) { return (I)t.tv_sec * G + t.tv_nsec; }
static int64_t rsec(Rng &r)
{
	static const int64_t edge[] = {0, 1, -1, 2, 59, 60, 4294967295ll, 4294967296ll, -4294967296ll, 2147483647ll, 2147483648ll,
		9223372036ll, 9223372037ll, -9223372037ll, 18446744073ll, 18446744074ll, 9223372036854ll, 18446744073709ll, 18446744073710ll,
		9223372036854775ll, 18446744073709551ll, 18446744073709552ll, INT64_MAX, INT64_MAX - 1, INT64_MAX / 2, INT64_MIN, INT64_MIN + 1,
		4294967ll, 4294968ll, 9223372035ll};
	switch (r.below(6)) {
	case 0: return edge[r.below(sizeof(edge) / sizeof(*edge))];
	case 1: return r.range(0, 5);
	case 2: return r.range(-5, 5);
	case 3: { int b = (int)r.range(1, 62); return (int64_t)(r.u64() >> (64 - b)); }
	case 4: { int b = (int)r.range(1, 62); return -(int64_t)(r.u64() >> (64 - b)); }
	default: return 1500000000 + (int64_t)r.below(500000000);
	}
}
static long rns(Rng &r)
{
	static const long edge[] = {0, 1, 999, 1000, 1001, 999999, 1000000, 1000001, 999999999, 999999000, 999998999, 500000000, 999000000};
	return r.chance(50) ? edge[r.below(sizeof(edge) / sizeof(*edge))] : (long)r.below(1000000000);
}
static bool fits_u64(I v) { return v >= 0 && v <= (I)UINT64_MAX; }
static bool fits_sec(I ns) { I s = ns >= 0 ? ns / G : -((-ns + G - 1) / G); return s >= INT64_MIN && s <= INT64_MAX; }
static I fdiv(I a, I b) { I q = a / b; return q - ((a % b) < 0); }
static struct timespec norm(I v)
{
	struct timespec t;
	t.tv_sec = (time_t)fdiv(v, G);
	t.tv_nsec = (long)(v - fdiv(v, G) * G);
	return t;
}
static bool okns(const struct timespec &t) { return t.tv_nsec >= 0 && t.tv_nsec <= 999999999; }
static void near(Rng &r, const struct timespec &a, struct timespec *b)
{
	/* a second time close to the first one, either side */
	switch (r.below(7)) {
	case 0: *b = a; break;
	case 1: b->tv_sec = a.tv_sec; b->tv_nsec = rns(r); break;
	case 2: b->tv_sec = a.tv_sec < INT64_MAX ? a.tv_sec + 1 : a.tv_sec; b->tv_nsec = rns(r); break;
	case 3: b->tv_sec = a.tv_sec > INT64_MIN ? a.tv_sec - 1 : a.tv_sec; b->tv_nsec = rns(r); break;
	case 4: { I v = val(a) + r.range(-3000, 3000); if (!fits_sec(v)) v = val(a); *b = norm(v); break; }
	default: b->tv_sec = rsec(r); b->tv_nsec = rns(r);
	}
}
static int bucket(I v) { int n = 0, s = v < 0; if (s) v = -v; while (v) { n++; v >>= 1; } return s ? -n : n; }
static void mode_arith()
{
	Rng &r = rng();
	long n = conf().thorough ? 40000000 : 700000;
	for (long it = 0; it < n; it++) {
		struct timespec a, b, d = {(time_t)0x5a5a5a5a, (long)0x5a5a5a5a};
		a.tv_sec = rsec(r); a.tv_nsec = rns(r);
		near(r, a, &b);
		I va = val(a), vb = val(b), x = vb - va;
		int ret;
		I dsec = (I)b.tv_sec - a.tv_sec;
		if ((dsec > INT64_MAX || dsec < -(I)INT64_MAX)) dsec = 0, b = a, vb = va, x = 0;
		switch (r.below(12)) {
		case 0: case 1: {
			if (!fits_sec(x) || !fits_sec(-x)) break;
			int inplace = r.chance(25) ? 1 + (int)r.below(2) : 0; /* the result stored in one of the arguments */
			if (inplace) {
				struct timespec s = a, e = b;
				ret = inplace == 1 ? time_timespec_diff(&s, &e, &s) : time_timespec_diff(&s, &e, &e);
				d = inplace == 1 ? s : e;
				stat("differences in place");
			} else
				ret = time_timespec_diff(&a, &b, &d);
			if (x < 0) CHECK(ret == -EINVAL, "difference with end before start not refused", "%s -> %s: %d", ts(a).c_str(), ts(b).c_str(), ret);
			else CHECK(ret == 0 && val(d) == x && okns(d), "wrong difference", "%s -> %s: ret %d, %s", ts(a).c_str(), ts(b).c_str(), ret, ts(d).c_str());
			eval(mix(mix(1, bucket(x)), a.tv_nsec > b.tv_nsec));
			stat("differences");
			break; }
		case 2: {
			I ax = x < 0 ? -x : x;
			if (!fits_sec(ax) || !fits_u64(ax / 1000)) break;
			uint64_t us = 77; int sg = 55;
			ret = time_timespec_diff_us(&a, &b, &us, r.chance(80) ? &sg : nullptr);
			CHECK(ret == 0 && (I)us == ax / 1000, "wrong difference in us", "%s, %s: ret %d, %llu", ts(a).c_str(), ts(b).c_str(), ret, (unsigned long long)us);
			if (x && sg != 55) CHECK(sg == (x < 0 ? 1 : -1), "wrong sign of a difference", "%s, %s: %d", ts(a).c_str(), ts(b).c_str(), sg);
			eval(mix(mix(2, bucket(x)), a.tv_nsec > b.tv_nsec));
			stat("differences in us");
			break; }
		case 3: {
			I ax = x < 0 ? -x : x;
			if (!fits_sec(ax) || !fits_u64(ax / 1000)) break;
			uint64_t us = 77, range;
			uint64_t ex = (uint64_t)(ax / 1000);
			switch (r.below(5)) {
			case 0: range = ex; break;
			case 1: range = ex + 1; break;
			case 2: range = ex ? ex - 1 : 0; break;
			case 3: range = r.below(3); break;
			default: range = r.u64() >> r.below(64);
			}
			bool out = r.chance(80);
			ret = time_timespec_diff_in_range(&a, &b, range, out ? &us : nullptr);
			int want = x == 0 ? 1 : (ex < range);
			CHECK(ret == want, "wrong range verdict", "%s, %s, range %llu: %d", ts(a).c_str(), ts(b).c_str(), (unsigned long long)range, ret);
			if (out) CHECK(us == ex, "wrong difference of a range check", "%s, %s: %llu", ts(a).c_str(), ts(b).c_str(), (unsigned long long)us);
			eval(mix(mix(3, bucket(x)), want));
			stat("range checks");
			break; }
		case 4: {
			ret = time_timespec_cmp(&a, &b);
			CHECK(ret == (x < 0 ? 1 : x > 0 ? -1 : 0), "wrong comparison", "%s, %s: %d", ts(a).c_str(), ts(b).c_str(), ret);
			eval(mix(4, bucket(x)));
			stat("comparisons");
			break; }
		case 5: case 6: case 7: {
			bool us = r.chance(50);
			int64_t k;
			switch (r.below(6)) {
			case 0: k = r.range(-3, 3); break;
			case 1: k = (us ? 1000000 : 1000000000) * r.range(-3, 3) + r.range(-2, 2); break;
			case 2: k = r.chance(50) ? INT64_MAX - (int64_t)r.below(3) : INT64_MIN + (int64_t)r.below(3); break;
			case 3: k = (r.chance(50) ? 1 : -1) * (9223372036854775ll + r.range(-2, 2)); break;
			case 4: { I back = us ? (r.chance(50) ? -a.tv_nsec / 1000 : (G - a.tv_nsec) / 1000) : (r.chance(50) ? -a.tv_nsec : G - a.tv_nsec); k = (int64_t)back + r.range(-1, 1); break; }
			default: k = (int64_t)(r.u64() >> r.range(1, 63)) * (r.chance(50) ? 1 : -1);
			}
			I res = va + (I)k * (us ? 1000 : 1);
			/* documented as undefined when tv_sec overflows: keep clear of the ends */
			if (!fits_sec(res) || !fits_sec(res + 2 * G) || !fits_sec(res - 2 * G)) break;
			if (!fits_sec(va + (I)k * (us ? 1000 : 1) + G)) break;
			bool alias = r.chance(25);
			if (alias) { d = a; ret = us ? time_timespec_add_us(&d, k, &d) : time_timespec_add_ns(&d, k, &d); }
			else ret = us ? time_timespec_add_us(&a, k, &d) : time_timespec_add_ns(&a, k, &d);
			CHECK(ret == 0 && val(d) == res && okns(d), us ? "wrong addition of us" : "wrong addition of ns", "%s + %lld: ret %d, %s%s", ts(a).c_str(), (long long)k, ret, ts(d).c_str(), alias ? " (in place)" : "");
			eval(mix(mix(mix(5, us), bucket(k)), mix(bucket(a.tv_sec), fdiv(res, G) - a.tv_sec == 0)));
			stat("additions");
			break; }
		case 8: {
			if (va < 0) break;
			uint64_t v = 0x77;
			if (fits_u64(va)) { ret = time_timespec_to_ns(&a, &v); CHECK(ret == 0 && (I)v == va, "wrong conversion to ns", "%s: ret %d, %llu", ts(a).c_str(), ret, (unsigned long long)v); }
			if (fits_u64(va / 1000)) { ret = time_timespec_to_us(&a, &v); CHECK(ret == 0 && (I)v == va / 1000, "wrong conversion to us", "%s: ret %d, %llu", ts(a).c_str(), ret, (unsigned long long)v); }
			if (fits_u64(va / 1000000)) { ret = time_timespec_to_ms(&a, &v); CHECK(ret == 0 && (I)v == va / 1000000, "wrong conversion to ms", "%s: ret %d, %llu", ts(a).c_str(), ret, (unsigned long long)v); }
			eval(mix(mix(8, bucket(a.tv_sec)), bucket(a.tv_nsec)));
			stat("conversions");
			break; }
		case 9: case 10: {
			uint64_t v;
			switch (r.below(4)) {
			case 0: v = UINT64_MAX - r.below(3); break;
			case 1: v = (uint64_t)r.range(0, 3) * 1000000000u + r.below(3) - (v = 1); v = v > (1ull << 62) ? 0 : v; break;
			case 2: v = r.below(5000); break;
			default: v = r.u64() >> r.below(64);
			}
			ret = time_ns_to_timespec(&v, &d);
			CHECK(ret == 0 && val(d) == (I)v && okns(d), "wrong conversion from ns", "%llu: ret %d, %s", (unsigned long long)v, ret, ts(d).c_str());
			ret = time_us_to_timespec(&v, &d);
			CHECK(ret == 0 && val(d) == (I)v * 1000 && okns(d), "wrong conversion from us", "%llu: ret %d, %s", (unsigned long long)v, ret, ts(d).c_str());
			ret = time_ms_to_timespec(&v, &d);
			CHECK(ret == 0 && val(d) == (I)v * 1000000 && okns(d), "wrong conversion from ms", "%llu: ret %d, %s", (unsigned long long)v, ret, ts(d).c_str());
			eval(mix(mix(9, bucket((I)v)), v % 1000));
			stat("conversions");
			break; }
		default: {
			struct timeval tv;
			tv.tv_sec = a.tv_sec; tv.tv_usec = a.tv_nsec / 1000;
			ret = time_timeval_to_timespec(&tv, &d);
			CHECK(ret == 0 && d.tv_sec == tv.tv_sec && d.tv_nsec == tv.tv_usec * 1000, "wrong conversion from timeval", "%lld.%06ld: ret %d, %s", (long long)tv.tv_sec, (long)tv.tv_usec, ret, ts(d).c_str());
			if (r.chance(70)) tv.tv_sec = r.chance(50) ? (int64_t)r.below(4294968) : (int64_t)(4294967 - r.below(3));
			I ms = (I)tv.tv_sec * 1000 + tv.tv_usec / 1000;
			uint32_t m = 7;
			if (ms >= 0 && ms <= (I)UINT32_MAX) {
				ret = time_timeval_to_ms(&tv, &m);
				CHECK(ret == 0 && (I)m == ms, "wrong conversion of a timeval to ms", "%lld.%06ld: ret %d, %u", (long long)tv.tv_sec, (long)tv.tv_usec, ret, m);
			}
			eval(mix(mix(11, bucket(tv.tv_sec)), bucket(tv.tv_usec)));
			stat("conversions");
		} }
		if (it < 3) sample(fmt("%s and %s", ts(a).c_str(), ts(b).c_str()));
	}
	/* missing arguments */
	struct timespec a = {1, 2}, b = {3, 4}, d; struct timeval tv = {1, 2};
	uint64_t u = 5; uint32_t m; int s;
#define INV(e) do { int r_ = (e); CHECK(r_ == -EINVAL, "missing argument accepted", "%s: %d", #e, r_); stat("missing arguments"); } while (0)
	INV(time_timespec_diff(nullptr, &b, &d)); INV(time_timespec_diff(&a, nullptr, &d)); INV(time_timespec_diff(&a, &b, nullptr));
	INV(time_timespec_diff_us(nullptr, &b, &u, &s)); INV(time_timespec_diff_us(&a, nullptr, &u, &s)); INV(time_timespec_diff_us(&a, &b, nullptr, &s));
	INV(time_timespec_to_ns(nullptr, &u)); INV(time_timespec_to_ns(&a, nullptr)); INV(time_timespec_to_us(nullptr, &u)); INV(time_timespec_to_us(&a, nullptr));
	INV(time_timespec_to_ms(nullptr, &u)); INV(time_timespec_to_ms(&a, nullptr));
	INV(time_ns_to_timespec(nullptr, &a)); INV(time_ns_to_timespec(&u, nullptr)); INV(time_us_to_timespec(nullptr, &a)); INV(time_us_to_timespec(&u, nullptr));
	INV(time_ms_to_timespec(nullptr, &a)); INV(time_ms_to_timespec(&u, nullptr));
	INV(time_timespec_add_us(nullptr, 1, &d)); INV(time_timespec_add_us(&a, 1, nullptr)); INV(time_timespec_add_ns(nullptr, 1, &d)); INV(time_timespec_add_ns(&a, 1, nullptr));
	INV(time_timeval_to_timespec(nullptr, &d)); INV(time_timeval_to_timespec(&tv, nullptr)); INV(time_timeval_to_ms(nullptr, &m)); INV(time_timeval_to_ms(&tv, nullptr));
	CHECK(time_timespec_cmp(nullptr, &a) == 0 && time_timespec_cmp(&a, nullptr) == 0 && time_timespec_cmp(nullptr, nullptr) == 0, "comparison of a missing time", "not 0");
	CHECK(time_timespec_diff_in_range(nullptr, &a, 5, &u) == 0 && time_timespec_diff_in_range(&a, nullptr, 5, &u) == 0, "missing argument accepted", "diff_in_range");
}

/* ---------------------------------------------------------------- C26 */
static I rinst(Rng &r, bool real)
{
	switch (r.below(4)) {
	case 0: return (I)r.below(4000000000ull);
	case 1: return (I)r.range(0, 3) * G + (I)r.below(3);
	case 2: return (I)r.below(4000000000ull) * G + rns(r);
	default: return real ? (I)1700000000 * G + (I)r.below(1000000000ull) : (I)r.below(10000000) * G + rns(r);
	}
}
static void mode_clock()
{
	Rng &r = rng();
	long n = conf().thorough ? 8000000 : 250000;
	for (long it = 0; it < n; it++) {
		I m0 = rinst(r, false), r0 = rinst(r, true);
		struct timespec t = {-7, -7};
		int ret;
		vc::begin(m0, r0);
		bool fail = r.chance(12);
		int fe = r.chance(50) ? EINVAL : r.chance(50) ? EFAULT : EPERM;
		switch (r.below(8)) {
		case 0: case 1: {
			bool mono = r.chance(50);
			if (fail) { vc::fail_at = 0; vc::fail_errno = fe; }
			ret = mono ? time_get_monotonic(&t) : time_get_realtime(&t);
			vc::on = false;
			if (fail) CHECK(ret == -fe, "clock failure not reported", "%s clock failing with %d: %d", mono ? "monotonic" : "real", fe, ret);
			else CHECK(ret == 0 && val(t) == (mono ? m0 : r0), mono ? "monotonic reading is not the monotonic clock" : "real time reading is not the real time clock", "ret %d, %s", ret, ts(t).c_str());
			eval(mix(mix(1, mono), mix(fail, bucket(m0))));
			stat("clock readings");
			break; }
		case 2: {
			/* elapsed time since a reading */
			struct timespec past, d = {-7, -7};
			I back = r.chance(80) ? (r.chance(50) ? (I)r.below(5000000000ull) : (I)r.below(2000)) : -(I)r.below(3000000000ull);
			if (m0 - back < 0) back = m0;
			past = norm(m0 - back);
			I st = r.chance(50) ? 0 : (I)r.below(100000);
			vc::step.push_back(st);
			if (fail) { vc::fail_at = 0; vc::fail_errno = fe; }
			ret = time_timespec_diff_now(&past, &d);
			I el = m0 + st - (m0 - back);
			vc::on = false;
			if (fail) CHECK(ret == -fe, "clock failure not reported by elapsed time", "%d", ret);
			else if (el < 0) CHECK(ret < 0, "elapsed time since a future time not refused", "%d", ret);
			else CHECK(ret == 0 && val(d) == el && okns(d), "wrong elapsed time", "since %s: ret %d, %s, expected %lld ns", ts(past).c_str(), ret, ts(d).c_str(), (long long)el);
			eval(mix(mix(2, bucket(el)), mix(fail, past.tv_nsec > (long)((m0 + st) % G))));
			stat("elapsed times");
			break; }
		case 3: {
			uint32_t ms = r.chance(30) ? (uint32_t)(r.u64() >> (32 + r.below(32))) : r.chance(50) ? (uint32_t)r.below(3000) : UINT32_MAX - (uint32_t)r.below(3);
			bool intr = r.chance(25);
			if (intr) { vc::intr_at = 0; vc::intr_frac = (I)r.below(1001); }
			ret = time_msleep(ms);
			vc::on = false;
			I want = (I)ms * 1000000;
			if (ret == 0) CHECK(vc::slept >= want, "sleep shorter than requested", "%u ms: slept %lld ns", ms, (long long)vc::slept);
			else CHECK(intr && ret == -EINTR, "sleep failed", "%u ms: %d%s", ms, ret, intr ? " (interrupted)" : "");
			if (ret == 0) CHECK(vc::slept <= want + want / 10 + 20 * 1000000, "sleep far longer than requested", "%u ms: slept %lld ns", ms, (long long)vc::slept);
			eval(mix(mix(3, bucket(ms)), mix(intr, ms % 1000)));
			stat(intr ? "sleeps interrupted" : "sleeps");
			break; }
		default: {
			bool ms = r.chance(40);
			/* spread of the readings */
			int sp = (int)r.below(4);
			for (int i = 0; i < 12; i++)
				vc::step.push_back(sp == 0 ? 0 : sp == 1 ? (I)r.below(300) : sp == 2 ? (I)r.below(60000) : r.chance(20) ? (I)r.below(40000000) : (I)r.below(2000));
			I mt = 0;
			switch (r.below(4)) {
			case 0: mt = m0 / 1000 - (I)r.below(5000000000ull); break;
			case 1: mt = m0 / 1000 + (I)r.below(5000000000ull); break;
			case 2: mt = m0 / 1000 + r.range(-3000, 3000); break;
			default: mt = (I)r.below((uint64_t)(m0 / 1000) + 1);
			}
			if (ms) mt = fdiv(mt, 1000);
			if (mt < 0) mt = 0;
			I unit = ms ? 1000000 : 1000;
			if (mt * unit > (I)UINT64_MAX / 2) mt = (I)UINT64_MAX / 2 / unit;
			I exact = mt * unit + (r0 - m0);  /* ns of real time */
			if (exact < 2 * G) { vc::on = false; break; } /* before the epoch: no unsigned result */
			uint64_t out = 0xdeadbeef;
			if (fail) { vc::fail_at = (int)r.below(2); vc::fail_errno = fe; }
			ret = ms ? time_monotonic_to_realtime_ms((uint64_t)mt, &out) : time_monotonic_to_realtime_us((uint64_t)mt, &out);
			vc::on = false;
			bool failed = fail && vc::calls > vc::fail_at;
			if (failed) {
				CHECK(ret == -fe, "clock failure not reported by a conversion", "reading %d failing with %d: %d", vc::fail_at, fe, ret);
				stat("conversions with a failing clock");
			} else {
				I err = (I)out * unit - exact;
				if (err < 0) err = -err;
				I spread = vc::last - vc::first;
				I tol = spread + (ms ? 500000 : 0) + 2500;
				CHECK(ret == 0 && err <= tol, ms ? "wrong conversion to real time (ms)" : "wrong conversion to real time (us)",
					"monotonic %lld %s at monotonic now %lld us, real now %lld us, spread %lld ns: ret %d, %llu, off by %lld ns", (long long)mt, ms ? "ms" : "us",
					(long long)(m0 / 1000), (long long)(r0 / 1000), (long long)spread, ret, (unsigned long long)out, (long long)err);
				CHECK(vc::mono_calls >= 1 && vc::real_calls >= 1, "conversion without reading both clocks", "%d %d", vc::mono_calls, vc::real_calls);
				stat("conversions to real time");
				stat_max("max:error ns beyond spread", (long long)(err - spread));
			}
			eval(mix(mix(4, ms), mix(bucket(mt - m0 / unit), mix(sp, fail))));
			if (it < 40) sample(fmt("monotonic %lld %s, now %lld us, real now %lld us -> %llu", (long long)mt, ms ? "ms" : "us", (long long)(m0 / 1000), (long long)(r0 / 1000), (unsigned long long)out));
		} }
		tick();
	}
	/* the real clocks */
	for (int i = 0; i < (conf().thorough ? 400 : 60); i++) {
		struct timespec a, b, c, e;
		__real_clock_gettime(CLOCK_MONOTONIC, &a); int r1 = time_get_monotonic(&b); __real_clock_gettime(CLOCK_MONOTONIC, &c);
		CHECK(r1 == 0 && val(a) <= val(b) && val(b) <= val(c), "monotonic reading outside the clock's readings around it", "%s %s %s", ts(a).c_str(), ts(b).c_str(), ts(c).c_str());
		uint32_t ms = (uint32_t)r.below(i % 10 == 0 ? 60 : 8);
		__real_clock_gettime(CLOCK_MONOTONIC, &a); int r2 = time_msleep(ms); __real_clock_gettime(CLOCK_MONOTONIC, &c);
		if (r2 == 0) CHECK(val(c) - val(a) >= (I)ms * 1000000, "sleep shorter than requested", "%u ms: %lld ns", ms, (long long)(val(c) - val(a)));
		else CHECK(0, "sleep failed", "%d", r2);
		r1 = time_timespec_diff_now(&b, &e);
		struct timespec f; __real_clock_gettime(CLOCK_MONOTONIC, &f);
		CHECK(r1 == 0 && val(e) >= val(c) - val(b) && val(e) <= val(f) - val(b), "wrong elapsed time", "real clock: %s", ts(e).c_str());
		eval(mix(5, ms));
		stat("real sleeps");
	}
	struct timespec x = {1, 2};
	uint64_t u;
	CHECK(time_timespec_diff_now(nullptr, &x) == -EINVAL && time_timespec_diff_now(&x, nullptr) == -EINVAL, "missing argument accepted", "diff_now");
	CHECK(time_monotonic_to_realtime_us(5, nullptr) == -EINVAL && time_monotonic_to_realtime_ms(5, nullptr) == -EINVAL, "missing argument accepted", "monotonic_to_realtime");
	(void)u;
}
void mon::run()
{
	watchdog(30);
	if (conf().mode == "arith") mode_arith();
	else mode_clock();
}
