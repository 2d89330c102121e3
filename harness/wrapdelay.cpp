#define MON_NO_MAIN
#include "wrapdelay.h"
#include <sched.h>

namespace wd {
thread_local T t;
bool virt;
int64_t vnow_ns;
static int64_t vwaits; /* waits of any kind begun in virtual time */
int pipe_bytes;
int64_t step_at = INT64_MAX, step_by;
std::function<bool(int64_t)> on_wait;
std::function<std::string()> describe;
/* the call under test would never return: nothing is left to run */
[[noreturn]] static void for_ever()
{
	if (!describe) mon::harness_error("virtual wait for ever");
	mon::viol("a blocking push waits for ever", describe());
	mon::finish();
	abort();
}
static bool cond_mono;
static struct timespec rbase, mbase;
static bool based;
static uint64_t rn()
{
	uint64_t x = t.rs;
	x ^= x << 13; x ^= x >> 7; x ^= x << 17;
	return (t.rs = x) * 0x2545f4914f6cdd1dull;
}
static bool pct(unsigned p) { return p && (rn() >> 33) % 100 < p; }
void seed(uint64_t s, unsigned d, unsigned e, unsigned a)
{
	t.rs = s * 2654435769u + 88172645463325252ull;
	t.delay_pct = d; t.eintr_pct = e; t.eagain_pct = a;
}
void flush_stats()
{
	mon::stat("injected delays", (int64_t)t.delays);
	mon::stat("injected EINTR", (int64_t)t.eintr);
	mon::stat("injected lost races", (int64_t)t.eagain);
	t.delays = t.eintr = t.eagain = 0;
}
extern "C" {
ssize_t __real_write(int, const void *, size_t);
ssize_t __real_read(int, void *, size_t);
int __real_pipe(int *);
int __real_pipe2(int *, int);
int __real_poll(struct pollfd *, nfds_t, int);
int __real_ppoll(struct pollfd *, nfds_t, const struct timespec *, const sigset_t *);
int __real_nanosleep(const struct timespec *, struct timespec *);
int __real_usleep(useconds_t);
int __real_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *);
int __real_select(int, fd_set *, fd_set *, fd_set *, struct timeval *);
int __real_pthread_cond_clockwait(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
int __real_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
int __real_pthread_cond_signal(pthread_cond_t *);
int __real_pthread_cond_broadcast(pthread_cond_t *);
int __real_clock_gettime(clockid_t, struct timespec *);
int __real_gettimeofday(struct timeval *, void *);
int __real_pthread_condattr_setclock(pthread_condattr_t *, clockid_t);
}
static void dly()
{
	if (!t.active || !pct(t.delay_pct)) return;
	t.delays++;
	int e = errno;
	uint64_t r = rn() >> 20;
	if (r % 4 == 0) { for (uint64_t i = 0; i < (r >> 8) % 6; i++) sched_yield(); }
	else if (r % 32 == 1) usleep((useconds_t)(500 + (r >> 8) % 1500));
	else if (r % 2 == 1) { volatile unsigned x = 0; for (uint64_t i = 0; i < (r >> 8) % 2000; i++) x = x + 1; }
	else usleep((useconds_t)((r >> 8) % 80));
	errno = e;
}
bool virtual_usable(const std::function<int()> &call30)
{
	double t0 = mon::now();
	virt = true;
	vnow_ns = vwaits = 0;
	describe = []() { return std::string("timeout 30 ms, full mailbox, no consumer"); };
	int rc = LIB(call30());
	describe = nullptr;
	virt = false;
	double real = mon::now() - t0;
	/* also when it gives up at once: judged below */
	bool ok = rc != -ETIMEDOUT || real < 0.025 || vnow_ns >= 25000000;
	/* waiting in small steps: days of virtual time would take as many */
	if (vwaits > 8) ok = false;
	if (!ok) mon::stat("virtual time unusable");
	return ok;
}
int rpoll(int fd, short ev, int ms)
{
	struct pollfd p = {fd, ev, 0};
	int r;
	do { r = __real_poll(&p, 1, ms); } while (r < 0 && errno == EINTR);
	return r > 0 ? p.revents : r;
}
static int64_t vclock(clockid_t c, struct timespec *o)
{
	if (!based) { __real_clock_gettime(CLOCK_REALTIME, &rbase); __real_clock_gettime(CLOCK_MONOTONIC, &mbase); based = true; }
	struct timespec b = c == CLOCK_REALTIME ? rbase : mbase;
	int64_t now = vnow_ns;
	if (c == CLOCK_REALTIME && now >= step_at) now += step_by;
	__int128 ns = (__int128)b.tv_sec * 1000000000 + b.tv_nsec + now;
	o->tv_sec = (time_t)(ns / 1000000000);
	o->tv_nsec = (long)(ns % 1000000000);
	return 0;
}
} // namespace wd
using namespace wd;

extern "C" {
/* the system gives small pipes to a user who has many */
static int shrink(int rc, int *p)
{
	if (rc == 0 && t.active && pipe_bytes) { fcntl(p[1], F_SETPIPE_SZ, pipe_bytes); mon::stat("small pipes"); }
	return rc;
}
int __wrap_pipe(int *p) { return shrink(__real_pipe(p), p); }
int __wrap_pipe2(int *p, int f) { return shrink(__real_pipe2(p, f), p); }
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
	if (!t.active) return __real_write(fd, b, n);
	dly();
	if (pct(t.eintr_pct)) { t.eintr++; errno = EINTR; return -1; }
	if (t.polled && pct(t.eagain_pct)) { t.eagain++; t.polled = false; errno = EAGAIN; return -1; }
	ssize_t r = __real_write(fd, b, n);
	dly();
	return r;
}
ssize_t __wrap_read(int fd, void *b, size_t n)
{
	if (!t.active) return __real_read(fd, b, n);
	dly();
	if (pct(t.eintr_pct)) { t.eintr++; errno = EINTR; return -1; }
	ssize_t r = __real_read(fd, b, n);
	dly();
	return r;
}
/* a wait for descriptors; real(block): the call itself, without waiting unless asked */
static int vpoll(int64_t wait_ns, const std::function<int()> &look)
{
	int64_t until = wait_ns < 0 ? INT64_MAX : vnow_ns + wait_ns;
	vwaits++;
	for (;;) {
		int r = look();
		if (r != 0) { t.polled = true; vnow_ns += 1000; return r; }
		if (pct(t.eintr_pct)) {
			/* some of the wait elapses before the signal */
			int64_t left = until == INT64_MAX ? 1000000000 : until - vnow_ns;
			vnow_ns += left > 0 ? (int64_t)((rn() >> 11) % (uint64_t)(left / 2 + 1)) : 0;
			t.eintr++;
			errno = EINTR;
			return -1;
		}
		if (on_wait && on_wait(until)) continue;
		if (until == INT64_MAX) for_ever();
		if (until > vnow_ns) vnow_ns = until;
		return 0;
	}
}
/* a sleep: it ends at its time, what happens meanwhile happens */
static int vsleep(int64_t until)
{
	vwaits++;
	while (on_wait && on_wait(until)) ;
	if (until > vnow_ns) vnow_ns = until;
	return 0;
}
static int64_t span(const struct timespec *ts) { return !ts ? -1 : ts->tv_sec > 9000000000ll ? INT64_MAX / 4 : (int64_t)ts->tv_sec * 1000000000 + ts->tv_nsec; }
int __wrap_poll(struct pollfd *p, nfds_t n, int ms)
{
	if (!t.active) return __real_poll(p, n, ms);
	dly();
	if (virt) return vpoll(ms < 0 ? -1 : (int64_t)ms * 1000000, [&]() { return __real_poll(p, n, 0); });
	if (pct(t.eintr_pct)) { t.eintr++; errno = EINTR; return -1; }
	int r = __real_poll(p, n, ms);
	if (r > 0) t.polled = true;
	dly();
	return r;
}
int __wrap_ppoll(struct pollfd *p, nfds_t n, const struct timespec *ts, const sigset_t *m)
{
	if (!t.active) return __real_ppoll(p, n, ts, m);
	dly();
	if (virt) return vpoll(span(ts), [&]() { return __real_poll(p, n, 0); });
	if (pct(t.eintr_pct)) { t.eintr++; errno = EINTR; return -1; }
	int r = __real_ppoll(p, n, ts, m);
	if (r > 0) t.polled = true;
	dly();
	return r;
}
int __wrap_nanosleep(const struct timespec *ts, struct timespec *rem)
{
	if (!t.active || !virt) return __real_nanosleep(ts, rem);
	return vsleep(vnow_ns + span(ts));
}
int __wrap_usleep(useconds_t us)
{
	if (!t.active || !virt) return __real_usleep(us);
	return vsleep(vnow_ns + (int64_t)us * 1000);
}
int __wrap_clock_nanosleep(clockid_t c, int fl, const struct timespec *ts, struct timespec *rem)
{
	if (!t.active || !virt) return __real_clock_nanosleep(c, fl, ts, rem);
	if (!(fl & TIMER_ABSTIME)) return vsleep(vnow_ns + span(ts));
	struct timespec n;
	vclock(c, &n);
	return vsleep(vnow_ns + (ts->tv_sec - n.tv_sec) * 1000000000ll + (ts->tv_nsec - n.tv_nsec));
}
int __wrap_select(int n, fd_set *a, fd_set *b, fd_set *c, struct timeval *tv)
{
	if (!t.active || !virt) return __real_select(n, a, b, c, tv);
	fd_set z, A, B, C;
	FD_ZERO(&z);
	A = a ? *a : z; B = b ? *b : z; C = c ? *c : z;
	struct timespec ts = {tv ? tv->tv_sec : 0, tv ? tv->tv_usec * 1000 : 0};
	return vpoll(tv ? span(&ts) : -1, [&]() {
		if (a) *a = A;
		if (b) *b = B;
		if (c) *c = C;
		struct timeval zero = {0, 0};
		return __real_select(n, a, b, c, &zero);
	});
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { dly(); return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
	int r = __real_pthread_mutex_unlock(m);
	dly();
	return r;
}
static int vwait(pthread_mutex_t *m, int64_t until)
{
	vwaits++;
	/* a spurious wake-up is always allowed */
	if (pct(t.eintr_pct)) { t.eintr++; return 0; }
	if (until <= vnow_ns) return ETIMEDOUT;
	__real_pthread_mutex_unlock(m);
	bool woke = on_wait && on_wait(until);
	__real_pthread_mutex_lock(m);
	if (woke) return 0;
	if (until == INT64_MAX) for_ever();
	vnow_ns = until;
	return ETIMEDOUT;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
	if (t.active && virt) return vwait(m, INT64_MAX);
	if (t.active && pct(t.eintr_pct)) {
		t.eintr++; /* spurious wake-up */
		__real_pthread_mutex_unlock(m);
		sched_yield();
		__real_pthread_mutex_lock(m);
		return 0;
	}
	return __real_pthread_cond_wait(c, m);
}
static int vtimed(pthread_mutex_t *m, bool mono, const struct timespec *ts)
{
	struct timespec n;
	vclock(mono ? CLOCK_MONOTONIC : CLOCK_REALTIME, &n);
	if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL;
	__int128 d = ((__int128)ts->tv_sec - n.tv_sec) * 1000000000 + (ts->tv_nsec - n.tv_nsec) + vnow_ns;
	if (!mono && vnow_ns < step_at && d > step_at) { d -= step_by; if (d < step_at) d = step_at; } /* the system time changes during the wait */
	int64_t until = d > INT64_MAX - 1 ? INT64_MAX - 1 : d < 0 ? 0 : (int64_t)d;
	return vwait(m, until);
}
static bool spurious(pthread_mutex_t *m)
{
	if (!t.active || !pct(t.eintr_pct)) return false;
	t.eintr++;
	__real_pthread_mutex_unlock(m);
	sched_yield();
	__real_pthread_mutex_lock(m);
	return true;
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
	if (t.active && virt) return vtimed(m, cond_mono, ts);
	return spurious(m) ? 0 : __real_pthread_cond_timedwait(c, m, ts);
}
int __wrap_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts)
{
	if (t.active && virt) return vtimed(m, k == CLOCK_MONOTONIC, ts);
	return spurious(m) ? 0 : __real_pthread_cond_clockwait(c, m, k, ts);
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) { dly(); return __real_pthread_cond_signal(c); }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { dly(); return __real_pthread_cond_broadcast(c); }
int __wrap_pthread_condattr_setclock(pthread_condattr_t *a, clockid_t c)
{
	if (t.active) cond_mono = c == CLOCK_MONOTONIC;
	return __real_pthread_condattr_setclock(a, c);
}
int __wrap_clock_gettime(clockid_t c, struct timespec *ts)
{
	if (!t.active || !virt) return __real_clock_gettime(c, ts);
	vclock(c, ts);
	vnow_ns += 1000; /* time passes */
	return 0;
}
int __wrap_gettimeofday(struct timeval *tv, void *z)
{
	if (!t.active || !virt) return __real_gettimeofday(tv, z);
	struct timespec ts;
	vclock(CLOCK_REALTIME, &ts);
	vnow_ns += 1000;
	tv->tv_sec = ts.tv_sec;
	tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}
}
