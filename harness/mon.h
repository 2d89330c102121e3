/* Monitor library shared by all harnesses: seeded randomness, distinct-case
 * counting, statistics, violation reporting, watchdog, guarded buffers. */
#ifndef MON_H
#define MON_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <errno.h>
#include <fcntl.h>
#include <inttypes.h>
#include <limits.h>
#include <math.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <locale.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

extern "C" size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));

namespace mon {
inline size_t heap_bytes()
{
	return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0;
}

/* ---- configuration, from argv: harness <tier> <seed> <mode> [args] ---- */
struct Conf {
	bool thorough = false;
	uint64_t seed = 1;
	std::string mode;
	std::vector<std::string> args;
};
inline Conf &conf() { static Conf c; return c; }

/* ---- randomness: splitmix/xoshiro ---- */
struct Rng {
	uint64_t s[4];
	static uint64_t sm(uint64_t &x)
	{
		uint64_t z = (x += 0x9e3779b97f4a7c15ull);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}
	explicit Rng(uint64_t seed = 1) { for (auto &v : s) v = sm(seed); }
	static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
	uint64_t u64()
	{
		uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
		s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3];
		s[2] ^= t; s[3] = rotl(s[3], 45);
		return r;
	}
	/* [0, n) */
	uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
	/* [a, b] */
	int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a) + 1); }
	bool chance(unsigned pct) { return below(100) < pct; }
	template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
	void fill(void *p, size_t n)
	{
		uint8_t *b = (uint8_t *)p;
		while (n >= 8) { uint64_t v = u64(); memcpy(b, &v, 8); b += 8; n -= 8; }
		if (n) { uint64_t v = u64(); memcpy(b, &v, n); }
	}
	std::string bytes(size_t n) { std::string r(n, 0); fill(&r[0], n); return r; }
};
inline Rng &rng() { static Rng r(conf().seed * 1000003 + 17); return r; }

/* ---- output protocol ---- */
inline std::mutex &out_mtx() { static std::mutex m; return m; }
__attribute__((format(printf, 1, 2)))
inline std::string fmt(const char *f, ...)
{
	va_list ap; va_start(ap, f);
	char *p = nullptr;
	int n = vasprintf(&p, f, ap);
	va_end(ap);
	std::string r(n >= 0 ? p : "");
	free(p);
	return r;
}
inline std::string oneline(std::string s)
{
	for (auto &c : s) if (c == '\n' || c == '\r') c = ' ';
	return s;
}
inline void emit(const std::string &l)
{
	std::lock_guard<std::mutex> g(out_mtx());
	std::string s = l + "\n";
	size_t o = 0;
	while (o < s.size()) {
		ssize_t w = write(1, s.data() + o, s.size() - o);
		if (w < 0) { if (errno == EINTR) continue; break; }
		o += (size_t)w;
	}
}
inline std::string esc(const void *p, size_t n, size_t max = 64)
{
	std::string r;
	const uint8_t *b = (const uint8_t *)p;
	for (size_t i = 0; i < n && i < max; i++) {
		if (b[i] >= 0x20 && b[i] < 0x7f && b[i] != '\\' && b[i] != '"') r += (char)b[i];
		else r += fmt("\\x%02x", b[i]);
	}
	if (n > max) r += fmt("...(%zu)", n);
	return r;
}
inline std::string esc(const std::string &s, size_t max = 64) { return esc(s.data(), s.size(), max); }

struct State {
	std::map<std::string, int64_t> stats;
	std::unordered_set<uint64_t> seen;
	std::map<std::string, int> viol;
	int samples = 0;
	std::atomic<uint64_t> progress{0};
	std::mutex m;
};
inline State &st() { static State *s = new State; return *s; }

inline void stat(const std::string &k, int64_t n = 1)
{
	std::lock_guard<std::mutex> g(st().m);
	st().stats[k] += n;
}
inline void stat_max(const std::string &k, int64_t n)
{
	std::lock_guard<std::mutex> g(st().m);
	auto &v = st().stats[k];
	if (n > v) v = n;
}
inline void tick() { st().progress.fetch_add(1, std::memory_order_relaxed); }
/* one evaluated case; fp is its fingerprint, nontrivial says if it counts */
inline uint64_t mix(uint64_t h, uint64_t v)
{
	h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdull;
	return h ^ (h >> 33);
}
inline uint64_t hstr(const void *p, size_t n, uint64_t h = 1469598103934665603ull)
{
	const uint8_t *b = (const uint8_t *)p;
	for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull;
	return h ^ (h >> 31);
}
inline uint64_t hstr(const std::string &s) { return hstr(s.data(), s.size()); }
inline void eval(uint64_t fp, bool nontrivial = true)
{
	tick();
	std::lock_guard<std::mutex> g(st().m);
	st().stats["evaluations"]++;
	if (nontrivial && st().seen.size() < 4000000) st().seen.insert(fp);
}
inline void sample(const std::string &s, int max = 6)
{
	std::lock_guard<std::mutex> g(st().m);
	if (st().samples >= max) return;
	st().samples++;
	emit("SAMPLE " + oneline(s));
}
/* key: stable identity of what fails; detail: the failing case */
inline void viol(const std::string &key, const std::string &detail)
{
	int n;
	{
		std::lock_guard<std::mutex> g(st().m);
		n = ++st().viol[key];
	}
	if (n <= 3) emit("VIOL " + oneline(key) + " | " + oneline(detail));
}
inline size_t nviol() { std::lock_guard<std::mutex> g(st().m); return st().viol.size(); }
#define CHECK(cond, key, ...) \
	do { if (!(cond)) mon::viol((key), mon::fmt(__VA_ARGS__)); } while (0)

/* harness trouble: neither held nor broken */
[[noreturn]] inline void harness_error(const std::string &s)
{
	emit("HARNESS " + oneline(s));
	_exit(3);
}

inline double now()
{
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}
inline void nap(double s)
{
	struct timespec t;
	t.tv_sec = (time_t)s;
	t.tv_nsec = (long)((s - (double)t.tv_sec) * 1e9);
	nanosleep(&t, nullptr);
}

/* the watchdog's own clock: past everything a harness wraps, so that neither an
 * injected failure nor a virtual clock reaches it */
inline double raw_now()
{
	struct timespec t = {0, 0};
	syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec / 1e9;
}
inline void raw_nap(double s)
{
	struct timespec t = {(time_t)s, (long)((s - (time_t)s) * 1e9)};
	syscall(SYS_nanosleep, &t, nullptr);
}

/* no progress for `secs` => hang */
inline void watchdog(int secs)
{
	pthread_t t;
	static int limit;
	static std::atomic<int> up{0};
	limit = secs;
	pthread_create(&t, nullptr, [](void *) -> void * {
		uint64_t last = ~0ull;
		double since = raw_now();
		raw_nap(0.0001);
		up++; /* whatever starting a thread allocates or frees is done */
		for (;;) {
			raw_nap(0.5);
			uint64_t p = st().progress.load();
			if (p != last) { last = p; since = raw_now(); }
			else if (raw_now() - since > limit) {
				emit("HANG no progress for " + std::to_string(limit) + "s");
				_exit(4);
			}
		}
		return nullptr;
	}, nullptr);
	pthread_detach(t);
	while (!up.load()) nap(0.0005);
}

/* time budget helper: stop generating when a (generous) budget is over; the
 * bound on the work is the case count, this is only a safety net */
struct Budget {
	double end;
	explicit Budget(double s) : end(now() + s) {}
	bool left() const { return now() < end; }
};

inline void finish()
{
	auto &s = st();
	s.stats["distinct"] = (int64_t)s.seen.size();
	for (auto &kv : s.stats) emit("STAT " + kv.first + " " + std::to_string(kv.second));
	for (auto &kv : s.viol) emit("STAT viol:" + oneline(kv.first) + " " + std::to_string(kv.second));
	emit("DONE");
	_exit(0);
}

/* buffer with the given size exactly at the end of a page, guard page after it
 * and canary before it: catches over-writes even without ASan */
struct Guard {
	uint8_t *map = nullptr;
	size_t maplen = 0, n = 0;
	uint8_t *p = nullptr;
	explicit Guard(size_t n_) : n(n_)
	{
		size_t pg = 4096;
		size_t body = (n + pg - 1) / pg * pg;
		if (!body) body = pg;
		maplen = body + 2 * pg;
		map = (uint8_t *)mmap(nullptr, maplen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (map == MAP_FAILED) harness_error("mmap");
		mprotect(map, pg, PROT_NONE);
		mprotect(map + pg + body, pg, PROT_NONE);
		p = map + pg + body - n;
		memset(map + pg, 0xa5, body);
	}
	bool before_intact() const
	{
		for (uint8_t *q = map + 4096; q < p; q++) if (*q != 0xa5) return false;
		return true;
	}
	~Guard() { munmap(map, maplen); }
	Guard(const Guard &) = delete;
};

/* scratch directory removed at exit of the check (runner removes it) */
inline std::string scratch(const char *name)
{
	const char *base = getenv("VP_SCRATCH");
	if (!base || !*base) harness_error("VP_SCRATCH not set");
	std::string d = std::string(base) + "/" + name;
	mkdir(d.c_str(), 0777);
	return d;
}

/* chi-square upper tail via Wilson-Hilferty normal approximation: z score */
inline double chi2_z(double chi2, double df)
{
	double t = cbrt(chi2 / df);
	return (t - (1 - 2 / (9 * df))) / sqrt(2 / (9 * df));
}

/* what is opened while this lives gets numbers beyond those of an fd_set */
struct HighFds {
	std::vector<int> v;
	explicit HighFds(bool on)
	{
		if (!on) return;
		int fd = open("/dev/null", O_RDONLY | O_CLOEXEC);
		while (fd >= 0 && fd < FD_SETSIZE - 1) { v.push_back(fd); fd = fcntl(fd, F_DUPFD_CLOEXEC, 0); }
		if (fd >= 0) { v.push_back(fd); stat("descriptors above FD_SETSIZE"); }
	}
	~HighFds() { for (int fd : v) close(fd); }
	HighFds(const HighFds &) = delete;
};

/* run something in a thread with that much stack; the pages below it are unmapped for a long way, so that going
 * beyond it is always seen */
template <typename F> inline void on_stack(size_t kb, F fn)
{
	size_t len = kb << 10, below = (size_t)256 << 20;
	char *m = (char *)mmap(nullptr, below + len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (m == MAP_FAILED || mprotect(m + below, len, PROT_READ | PROT_WRITE)) harness_error("stack");
	pthread_attr_t at;
	pthread_attr_init(&at);
	pthread_attr_setstack(&at, m + below, len);
	pthread_t t;
	auto tramp = [](void *x) -> void * { (*(F *)x)(); return nullptr; };
	if (pthread_create(&t, &at, tramp, &fn)) harness_error("thread");
	pthread_join(t, nullptr);
	pthread_attr_destroy(&at);
	munmap(m, below + len);
	stat("calls on a small stack");
}

/* A copy which can only be read, followed by an unmapped page: input a caller may keep in read-only memory.
 * One per thread and tag at a time. */
template <int TAG> struct ReadOnly {
	static const size_t cap = 1 << 16;
	char *w = nullptr, *r = nullptr;
	ReadOnly()
	{
		int fd = memfd_create("ro", MFD_CLOEXEC);
		if (fd < 0 || ftruncate(fd, (off_t)cap)) harness_error("memfd");
		w = (char *)mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		r = (char *)mmap(nullptr, cap + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (w == MAP_FAILED || r == MAP_FAILED || mmap(r, cap, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) harness_error("mmap");
		close(fd);
	}
	static const char *put(const void *p, size_t n, size_t align = 1)
	{
		static thread_local ReadOnly t;
		if (n + align > cap) harness_error("too long for a read-only copy");
		size_t at = (cap - n) / align * align;
		memcpy(t.w + at, p, n);
		stat("inputs in read-only memory");
		return t.r + at;
	}
};
/* a real buffer whose size does not fit 31 or 32 bits (sparse: only what is written takes memory) */
static const size_t room_max = ((size_t)1 << 32) + (1 << 16);
inline char *huge_room()
{
	static char *p;
	if (!p) {
		void *m = mmap(nullptr, room_max, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (m == MAP_FAILED) harness_error("no address range");
		p = (char *)m;
	}
	return p;
}
inline size_t huge_size(Rng &r)
{
	static const size_t b[] = {(size_t)1 << 31, (size_t)1 << 32, ((size_t)1 << 32) - 1, ((size_t)1 << 31) - 1, ((size_t)1 << 32) + 65536};
	size_t v = b[r.below(5)];
	return v + (v < b[4] ? r.below(r.chance(50) ? 6 : 300) : 0);
}
template <int TAG> inline const char *read_only(const void *p, size_t n, size_t align = 1) { return ReadOnly<TAG>::put(p, n, align); }

void run(); /* provided by the harness */

} // namespace mon

#ifndef MON_NO_MAIN
int main(int argc, char **argv)
{
	if (argc < 4) return 3;
	mon::conf().thorough = !strcmp(argv[1], "thorough");
	mon::conf().seed = strtoull(argv[2], nullptr, 10);
	mon::conf().mode = argv[3];
	for (int i = 4; i < argc; i++) mon::conf().args.push_back(argv[i]);
	signal(SIGPIPE, SIG_IGN);
	if (const char *l = getenv("VP_LOCALE")) {
		if (!setlocale(LC_ALL, "")) mon::harness_error("no such locale");
		mon::stat(mon::fmt("locale %s", l));
	}
	if (getenv("VP_LOWFD")) {
		close(0);
		mon::stat("descriptor 0 free");
	}
	mon::run();
	mon::finish();
}
#endif
#endif
