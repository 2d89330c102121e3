/* C42: the build with a property store (BUILD_LIBPUTILS): local offset kept in the store, simulated real time. */
#include "mon.h"
#include <sys/time.h>
#include "futils/timetools.h"
#include "futils/systimetools.h"
#include "putils/properties.h"
using namespace mon;

/* ---- the store ---- */
static std::map<std::string, std::string> store;
static int set_refused;
static int reads, writes;
extern "C" int sys_prop_get(const char *key, char *value, const char *def)
{
	reads++;
	auto it = store.find(key);
	std::string v = it != store.end() && !it->second.empty() ? it->second : def ? def : "";
	CHECK(strlen(key) < SYS_PROP_KEY_MAX && v.size() < SYS_PROP_VALUE_MAX, "property limits", "%s", key);
	/* the caller gives room for the longest value: the whole of it may be written */
	memset(value, 0x55, SYS_PROP_VALUE_MAX);
	memcpy(value, v.c_str(), v.size() + 1);
	return (int)v.size();
}
extern "C" int sys_prop_set(const char *key, const char *value)
{
	writes++;
	CHECK(strlen(key) < SYS_PROP_KEY_MAX && strlen(value) < SYS_PROP_VALUE_MAX, "property limits", "%s", key);
	if (set_refused) return -set_refused;
	store[key] = value;
	return 0;
}
/* ---- the system's clocks ---- */
extern "C" int __real_gettimeofday(struct timeval *, void *);
extern "C" int __real_clock_gettime(clockid_t, struct timespec *);
static thread_local bool on;
static uint64_t rt_us, mt_us;
static int get_errno, set_errno, sets;
static int64_t set_to;
extern "C" int __wrap_gettimeofday(struct timeval *t, void *z)
{
	if (!on) return __real_gettimeofday(t, z);
	if (get_errno) { errno = get_errno; return -1; }
	t->tv_sec = (time_t)(rt_us / 1000000);
	t->tv_usec = (long)(rt_us % 1000000);
	return 0;
}
extern "C" int __wrap_clock_gettime(clockid_t c, struct timespec *t)
{
	if (!on) return __real_clock_gettime(c, t);
	if (get_errno) { errno = get_errno; return -1; }
	uint64_t v = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? rt_us : mt_us;
	t->tv_sec = (time_t)(v / 1000000);
	t->tv_nsec = (long)(v % 1000000) * 1000;
	return 0;
}
extern "C" time_t __real_time(time_t *);
extern "C" time_t __wrap_time(time_t *p)
{
	if (!on) return __real_time(p);
	time_t t = (time_t)(rt_us / 1000000);
	if (p) *p = t;
	return t;
}
extern "C" int __wrap_settimeofday(const struct timeval *t, const void *)
{
	sets++;
	set_to = t && t->tv_usec == 0 ? t->tv_sec : -1;
	if (set_errno) { errno = set_errno; return -1; }
	return 0;
}
extern "C" int __wrap_clock_settime(clockid_t c, const struct timespec *t)
{
	sets++;
	set_to = c == CLOCK_REALTIME && t->tv_nsec == 0 ? t->tv_sec : -1;
	if (set_errno) { errno = set_errno; return -1; }
	return 0;
}

static const char *OFF = "timezone.utc_offset.sec", *RT0 = "ro.simulator.clock_rt0_us";

void mon::run()
{
	Rng &r = rng();
	watchdog(30);
	static const char *tz[] = {"UTC0", "XXX-12:45", "NST3:30"};
	setenv("TZ", tz[r.below(3)], 1); /* must not matter */
	tzset();
	long n = conf().thorough ? 2000000 : 60000;
	std::map<std::string, std::string> before;
	/* a decimal number, whatever its writer padded it with */
	auto decimal = [&](int64_t v) {
		std::string t = std::to_string(v);
		if (!r.chance(25)) return t;
		bool neg = v < 0;
		if (neg) t.erase(0, 1);
		stat("padded numbers");
		return (neg ? "-" : r.chance(40) ? "+" : "") + std::string((size_t)r.below(6), '0') + t;
	};
	for (long it = 0; it < n; it++) {
		errno = (int)r.below(40);
		get_errno = set_errno = set_refused = 0;
		rt_us = r.u64() >> r.range(10, 40);
		mt_us = r.u64() >> r.range(10, 40);
		switch (r.below(5)) {
		case 0: { /* setting */
			uint64_t s = r.u64() >> r.range(2, 63);
			int32_t off = r.chance(30) ? (int32_t)r.u64() : r.chance(10) ? r.pick(std::vector<int32_t>{INT32_MIN, INT32_MAX, -1, 0, 1}) : (int32_t)r.range(-50400, 50400);
			if (r.chance(15)) set_errno = r.pick(std::vector<int>{EPERM, EINVAL, EFAULT});
			if (r.chance(15)) set_refused = r.pick(std::vector<int>{EPERM, ENOMEM, ECONNREFUSED});
			sets = 0;
			before = store;
			int ret = time_local_set(s, off);
			CHECK(ret == (set_errno ? -set_errno : -set_refused), "result of setting the local time", "errno %d, store %d: %d", set_errno, set_refused, ret);
			CHECK(sets == 1 && set_to == (int64_t)s, "system time set to something else", "%" PRIu64 ": %d calls, %" PRId64, s, sets, set_to);
			if (ret == 0) {
				CHECK(store.count(OFF) && store[OFF] == std::to_string(off), "offset not kept", "%d: '%s'", off, store.count(OFF) ? esc(store[OFF]).c_str() : "(absent)");
				uint64_t e = 1; uint16_t ms = 0; int32_t o = 1;
				on = true;
				int r2 = time_local_ms_get(&e, &ms, &o);
				on = false;
				CHECK(r2 == 0 && o == off, "offset set is not the offset read", "%d: ret %d, %d", off, r2, o);
			} else store = before;
			for (auto &p : store) CHECK(p.first == OFF || (before.count(p.first) && before[p.first] == p.second), "another property changed", "%s", p.first.c_str());
			eval(mix(mix(1, s), mix((uint32_t)off, (uint64_t)(set_errno * 200 + set_refused))));
			stat(ret ? "refused settings" : "settings");
			break; }
		case 1: { /* reading */
			int32_t off = 0;
			if (r.chance(20)) store.erase(OFF);
			else {
				off = r.chance(20) ? (int32_t)r.u64() : (int32_t)r.range(-50400, 50400);
				store[OFF] = decimal(off);
			}
			get_errno = r.chance(10) ? EFAULT : 0;
			uint64_t e = 77; uint16_t ms = 7777; int32_t o = 99;
			int miss = r.chance(30) ? (int)r.below(4) : 0;
			bool withms = r.chance(60);
			uint64_t *pe = miss & 1 ? nullptr : &e;
			int32_t *po = miss & 2 ? nullptr : &o;
			on = true;
			int ret = withms ? time_local_ms_get(pe, &ms, po) : time_local_get(pe, po);
			on = false;
			if (miss == 3) CHECK(ret == -EINVAL, "missing arguments accepted", "%d", ret);
			else if (get_errno) CHECK(ret == -get_errno, "clock failure not reported", "%d", ret);
			else CHECK(ret == 0 && (!pe || e == rt_us / 1000000) && (!withms || ms == rt_us % 1000000 / 1000) && (!po || o == off), "wrong local time", "%" PRIu64 " us, offset %d: ret %d, %" PRIu64 " s %u ms %d", rt_us, off, ret, e, ms, o);
			eval(mix(mix(2, rt_us), mix((uint32_t)off, (uint64_t)(miss * 2 + withms))));
			stat(store.count(OFF) ? "offsets read" : "offsets absent");
			break; }
		case 2: case 3: { /* conversion in a simulation */
			int64_t rt0 = (int64_t)(r.u64() >> r.range(1, 50));
			bool ms = r.chance(40);
			uint64_t mt = r.u64() >> r.range(14, 50);
			if (ms) mt >>= 10;
			if (rt0 > INT64_MAX / 4) rt0 /= 4;
			uint64_t scaled = ms ? mt * 1000 : mt;
			if (r.chance(25)) rt0 = -(int64_t)r.below(scaled + 1); /* a real time before the start of the simulation's clock */
			store[RT0] = decimal(rt0);
			uint64_t out = 5, want = scaled + (uint64_t)rt0;
			on = true; /* the system's clocks do not matter */
			get_errno = r.chance(30) ? EINVAL : 0;
			int ret = ms ? time_monotonic_to_realtime_ms(mt, &out) : time_monotonic_to_realtime_us(mt, &out);
			on = false;
			if (ms) want = (want + 500) / 1000;
			CHECK(ret == 0 && out == want, "wrong conversion to simulated real time", "%" PRIu64 " %s, start %" PRId64 ": ret %d, %" PRIu64 " expected %" PRIu64, mt, ms ? "ms" : "us", rt0, ret, out, want);
			if (r.chance(10)) { /* a start which is no 64 bit number is refused */
				store[RT0] = r.chance(50) ? "9223372036854775808" : "-99999999999999999999999";
				ret = time_monotonic_to_realtime_us(mt, &out);
				CHECK(ret == -EINVAL, "start out of range accepted", "%s: %d", store[RT0].c_str(), ret);
				stat("starts out of range");
			}
			store.erase(RT0);
			eval(mix(mix(3, ms), mix(mt, (uint64_t)rt0)));
			stat("simulated conversions");
			break; }
		default: { /* no simulation: the system's clocks */
			if (r.chance(30)) store[RT0] = "";
			bool ms = r.chance(40);
			uint64_t mt = mt_us - r.below(mt_us < 1000000000 ? mt_us + 1 : 1000000000);
			rt_us += 2000000000;
			if (ms) mt /= 1000;
			get_errno = r.chance(10) ? EINVAL : 0;
			uint64_t out = 5;
			on = true;
			int ret = ms ? time_monotonic_to_realtime_ms(mt, &out) : time_monotonic_to_realtime_us(mt, &out);
			on = false;
			store.erase(RT0);
			uint64_t want = rt_us - (mt_us - (ms ? mt * 1000 : mt));
			if (ms) want = (want + 500) / 1000;
			if (get_errno) CHECK(ret == -get_errno, "clock failure not reported", "%d", ret);
			else CHECK(ret == 0 && (out >= want ? out - want : want - out) <= 1, "wrong conversion to real time", "%" PRIu64 " %s: ret %d, %" PRIu64 " expected %" PRIu64, mt, ms ? "ms" : "us", ret, out, want);
			eval(mix(mix(4, ms), mix(mt, rt_us)));
			stat("conversions without a simulation");
			break; }
		}
		if (it < 5) sample(fmt("history step %ld: store holds %zu properties", it, store.size()));
	}
	CHECK(time_monotonic_to_realtime_us(1, nullptr) == -EINVAL && time_monotonic_to_realtime_ms(1, nullptr) == -EINVAL, "missing arguments accepted", "-");
}
