/* C14..C20 (and the generator part of C07): random. */
#include "mon.h"
#include "futils/random.h"
#include <sched.h>
#include <setjmp.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/random.h>
#include <sys/syscall.h>
#include <algorithm>
#include <unordered_map>
using namespace mon;

/* ------------------------------------------------------------------ entropy
 * getrandom/open/read/close of the library pass through here. */
static std::atomic<bool> seeded_source{false};
static std::mutex src_m;
static Rng *src_rng;
/* everything the source delivered (own mapping, see memory mode) */
static uint8_t *src_log;
static size_t src_log_n, src_log_cap;

/* scripted faults */
enum { FULL = 1000000, R_EINTR = -1, R_ENOSYS = -2, R_EAGAIN = -3, R_EPERM = -4, R_EIO = -5, R_ZERO = -6, R_ENOENT = -7, R_EMFILE = -8, R_EFAULT = -9 };
struct Script {
	bool on = false;
	std::deque<int> getr, open, read; /* >0: at most that many bytes */
	int getr_dflt = FULL, open_dflt = FULL, read_dflt = FULL;
	std::string delivered, log;
	size_t first_req = 0;
	int opens = 0, closes = 0, fd = -1, calls = 0;
};
static Script sc;
static std::string *fixed_bytes; /* a given seed instead of the stream */
static int eno(int a)
{
	switch (a) {
	case R_EINTR: return EINTR; case R_ENOSYS: return ENOSYS; case R_EAGAIN: return EAGAIN; case R_EPERM: return EPERM;
	case R_EIO: return EIO; case R_ENOENT: return ENOENT; case R_EMFILE: return EMFILE; default: return EFAULT;
	}
}
static int take(std::deque<int> &q, int d)
{
	if (q.empty()) return d;
	int a = q.front();
	q.pop_front();
	return a;
}
static bool huge; /* requests beyond 4 GiB: cheap contents */
static size_t huge_given;
static ssize_t supply(const char *what, int a, void *b, size_t n)
{
	if (huge && a > 0) {
		size_t k = std::min(n, (size_t)0x7ffff000);
		memset(b, 0xa5, k);
		huge_given += k;
		sc.first_req += !sc.first_req;
		return (ssize_t)k;
	}
	sc.calls++;
	if (sc.calls > 10000) { emit("HANG entropy source asked for ever"); _exit(4); }
	if (!sc.first_req) sc.first_req = n;
	sc.log += fmt("%s(%zu)=", what, n);
	if (a < 0 && a != R_ZERO) { errno = eno(a); sc.log += fmt("-%d ", errno); return -1; }
	if (a == R_ZERO) { sc.log += "0 "; return 0; }
	size_t k = n < (size_t)a ? n : (size_t)a;
	std::string s = fixed_bytes ? fixed_bytes->substr(sc.delivered.size(), k) : src_rng->bytes(k);
	s.resize(k);
	memcpy(b, s.data(), k);
	sc.delivered += s;
	sc.log += fmt("%zu ", k);
	return (ssize_t)k;
}
static thread_local std::function<void()> in_source; /* runs once the source has delivered to this thread */
extern "C" {
ssize_t __real_getrandom(void *, size_t, unsigned);
int __real_open(const char *, int, ...);
int __real_open64(const char *, int, ...);
ssize_t __real_read(int, void *, size_t);
int __real_close(int);

ssize_t __wrap_getrandom(void *b, size_t n, unsigned f)
{
	if (sc.on) return supply("getrandom", take(sc.getr, sc.getr_dflt), b, n);
	ssize_t r;
	if (seeded_source.load()) {
		std::lock_guard<std::mutex> g(src_m);
		src_rng->fill(b, n);
		r = (ssize_t)n;
	} else r = __real_getrandom(b, n, f);
	if (r > 0 && src_log && src_log_n + (size_t)r <= src_log_cap) {
		std::lock_guard<std::mutex> g(src_m);
		memcpy(src_log + src_log_n, b, (size_t)r);
		src_log_n += (size_t)r;
	}
	if (r > 0 && in_source) { auto f = std::move(in_source); in_source = nullptr; f(); }
	return r;
}
long __real_syscall(long, ...);
int __real_openat(int, const char *, int, ...);
/* other ways to the same source */
int __wrap_getentropy(void *b, size_t n)
{
	if (n > 256) { errno = EIO; return -1; }
	for (size_t at = 0; at < n;) {
		ssize_t k = __wrap_getrandom((char *)b + at, n - at, 0);
		if (k < 0 && errno == EINTR) continue;
		if (k == 0) errno = EIO;
		if (k <= 0) return -1;
		at += (size_t)k;
	}
	return 0;
}
long __wrap_syscall(long nr, ...)
{
	long a[6];
	va_list ap; va_start(ap, nr); for (long &x : a) x = va_arg(ap, long); va_end(ap);
	if (nr == SYS_getrandom) return (long)__wrap_getrandom((void *)a[0], (size_t)a[1], (unsigned)a[2]);
	return __real_syscall(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}
static int sopen(const char *p)
{
	int a = take(sc.open, sc.open_dflt);
	sc.log += fmt("open(%s)=", p);
	if (strcmp(p, "/dev/urandom") && strcmp(p, "/dev/random")) { sc.log += "? "; errno = ENOENT; return -1; }
	if (a < 0) { errno = eno(a); sc.log += fmt("-%d ", errno); return -1; }
	sc.opens++;
	sc.fd = __real_open("/dev/null", O_RDONLY | O_CLOEXEC);
	sc.log += fmt("%d ", sc.fd);
	return sc.fd;
}
int __wrap_open(const char *p, int fl, ...)
{
	va_list ap; va_start(ap, fl); mode_t m = (mode_t)va_arg(ap, unsigned); va_end(ap);
	return sc.on ? sopen(p) : __real_open(p, fl, m);
}
int __wrap_open64(const char *p, int fl, ...)
{
	va_list ap; va_start(ap, fl); mode_t m = (mode_t)va_arg(ap, unsigned); va_end(ap);
	return sc.on ? sopen(p) : __real_open64(p, fl, m);
}
int __wrap_openat(int d, const char *p, int fl, ...)
{
	va_list ap; va_start(ap, fl); mode_t m = (mode_t)va_arg(ap, unsigned); va_end(ap);
	return sc.on && *p == '/' ? sopen(p) : __real_openat(d, p, fl, m);
}
ssize_t __wrap_read(int fd, void *b, size_t n)
{
	if (sc.on && fd == sc.fd) return supply("read", take(sc.read, sc.read_dflt), b, n);
	return __real_read(fd, b, n);
}
int __wrap_close(int fd)
{
	if (sc.on && fd == sc.fd) { sc.closes++; sc.fd = -1; sc.log += "close "; }
	return __real_close(fd);
}
}

/* ------------------------------------------------------------------ statistics */
static const double Z = 9.0;
static void coin(const std::string &key, uint64_t ones, uint64_t n, const std::string &what)
{
	double z = fabs(2.0 * (double)ones - (double)n) / sqrt((double)n);
	stat("statistical tests");
	stat_max("max:z x100 of coins", (int64_t)(z * 100));
	CHECK(z < Z, key, "%s: %" PRIu64 " ones of %" PRIu64 " (z=%.1f)", what.c_str(), ones, n, z);
}
static void chi2(const std::string &key, const std::vector<uint64_t> &c, const std::vector<double> &e, const std::string &what)
{
	double x = 0;
	size_t df = 0, worst = 0;
	double wd = -1;
	for (size_t i = 0; i < c.size(); i++) {
		if (e[i] <= 0) { if (c[i]) viol(key, fmt("%s: impossible cell %zu seen %" PRIu64 " times", what.c_str(), i, c[i])); continue; }
		double d = ((double)c[i] - e[i]) * ((double)c[i] - e[i]) / e[i];
		x += d;
		df++;
		if (d > wd) { wd = d; worst = i; }
	}
	if (df < 2) return;
	double z = chi2_z(x, (double)df - 1);
	stat("statistical tests");
	stat_max("max:z x100 of chi-squares", (int64_t)(z * 100));
	CHECK(z < 10, key, "%s: chi2=%.1f df=%zu z=%.1f, worst cell %zu seen %" PRIu64 " expected %.1f", what.c_str(), x, df - 1, z, worst, c[worst], e[worst]);
}
static void chi2u(const std::string &key, const std::vector<uint64_t> &c, uint64_t n, const std::string &what)
{
	chi2(key, c, std::vector<double>(c.size(), (double)n / (double)c.size()), what);
}

/* ------------------------------------------------------------------ C14 */
static uint64_t bounded(int w, uint64_t m, bool ptr)
{
	if (ptr) {
		switch (w) {
		case 8: { uint8_t v = 0xee; int rc = futils_random8_maximum(&v, (uint8_t)m); if (rc) viol("random8_maximum fails", fmt("rc=%d", rc)); return v; }
		case 16: { uint16_t v = 0xeeee; int rc = futils_random16_maximum(&v, (uint16_t)m); if (rc) viol("random16_maximum fails", fmt("rc=%d", rc)); return v; }
		case 32: { uint32_t v = 0xeeeeeeee; int rc = futils_random32_maximum(&v, (uint32_t)m); if (rc) viol("random32_maximum fails", fmt("rc=%d", rc)); return v; }
		default: { uint64_t v = ~0ull; int rc = futils_random64_maximum(&v, m); if (rc) viol("random64_maximum fails", fmt("rc=%d", rc)); return v; }
		}
	}
	switch (w) {
	case 8: return futils_randomr8_maximum((uint8_t)m);
	case 16: return futils_randomr16_maximum((uint16_t)m);
	case 32: return futils_randomr32_maximum((uint32_t)m);
	default: return futils_randomr64_maximum(m);
	}
}
static void one_bound(int w, uint64_t m, uint64_t n, bool ptr)
{
	Rng &r = rng();
	std::string key = fmt("%s%d_maximum", ptr ? "random" : "randomr", w), what = fmt("maximum %" PRIu64, m);
	bool small = m < 70000 && n >= 20 * (m + 1);
	size_t nb = small ? (size_t)m + 1 : 61;
	std::vector<uint64_t> c(nb, 0), lo(61, 0), lag(16, 0), bits(64, 0);
	uint64_t over = 0, worst = 0, prevq = 0;
	uint64_t reps = 0, last = ~0ull;
	for (uint64_t i = 0; i < n; i++) {
		uint64_t v = bounded(w, m, ptr);
		if (v > m) { over++; worst = v; continue; }
		if (small) c[v]++;
		else {
			c[(size_t)((unsigned __int128)v * 61 / ((unsigned __int128)m + 1))]++;
			lo[v % 61]++;
			for (int b = 0; b < w; b++) bits[(size_t)b] += v >> b & 1;
			reps += v == last;
			last = v;
		}
		uint64_t q = (uint64_t)((unsigned __int128)v * 4 / ((unsigned __int128)m + 1));
		if (i) lag[prevq * 4 + q]++;
		prevq = q;
		if (i < 3 || r.below(4096) == 0) eval(mix(mix((uint64_t)w, m), v), m > 0);
	}
	tick();
	stat("draws", (int64_t)n);
	CHECK(!over, key + " out of range", "%s: %" PRIu64 " of %" PRIu64 " draws above, e.g. %" PRIu64, what.c_str(), over, n, worst);
	if (over || m == 0) return;
	if (small) {
		chi2u(key + " not uniform", c, n, what);
		double miss = (double)(m + 1) * exp(-(double)n / (double)(m + 1));
		if (miss < 1e-13)
			for (uint64_t v = 0; v <= m; v++)
				if (!c[v]) { viol(key + " never gives a value", fmt("%s: %" PRIu64 " never seen in %" PRIu64 " draws", what.c_str(), v, n)); break; }
	} else {
		auto cells = [&](uint64_t k) { /* values v with floor(61 v / (m+1)) == k */
			unsigned __int128 M = (unsigned __int128)m + 1;
			unsigned __int128 a = (M * k + 60) / 61, b = (M * (k + 1) + 60) / 61;
			return (double)(uint64_t)(b - a) / ((double)m + 1.0) * (double)n;
		};
		std::vector<double> e, el;
		for (uint64_t k = 0; k < 61; k++) {
			e.push_back(cells(k));
			uint64_t full = m / 61 + (k <= m % 61 ? 1 : 0);
			el.push_back((double)full / ((double)m + 1.0) * (double)n);
		}
		chi2(key + " not uniform", c, e, what + " (range cells)");
		chi2(key + " not uniform", lo, el, what + " (remainders by 61)");
		for (int b = 0; b < w; b++) { /* every bit as often as it is set in 0..m */
			unsigned __int128 M = (unsigned __int128)m + 1, pw = (unsigned __int128)1 << b;
			unsigned __int128 set = M / (2 * pw) * pw + (M % (2 * pw) > pw ? M % (2 * pw) - pw : 0);
			double p1 = (double)set / (double)M, sd = sqrt((double)n * p1 * (1 - p1));
			double d = fabs((double)bits[(size_t)b] - p1 * (double)n);
			if (sd > 5) CHECK(d < 10 * sd, key + " not uniform", "%s: bit %d set %" PRIu64 " times of %" PRIu64 ", %.1f expected", what.c_str(), b, bits[(size_t)b], n, p1 * (double)n);
		}
		/* coincidences of consecutive values: n/(m+1) expected */
		double ex = (double)n / ((double)m + 1.0);
		CHECK((double)reps < ex + 12 * sqrt(ex) + 12, key + " repeats values", "%s: %" PRIu64 " repeats, %.2f expected", what.c_str(), reps, ex);
	}
	if (m % 4 == 3 && n > 1000) chi2u(key + " consecutive values not independent", lag, n - 1, what);
}
static void mode_bounded()
{
	Rng &r = rng();
	bool th = conf().thorough;
	uint64_t k = th ? 8 : 1;
	for (uint64_t m = 0; m < 256; m++) one_bound(8, m, 12000 * k, m & 1);
	for (uint64_t m = 0; m < 256; m += 5) one_bound(8, m, 30000 * k, !(m & 1));
	for (int w : {16, 32, 64}) {
		std::set<uint64_t> ms;
		for (uint64_t m = 0; m < 20; m++) ms.insert(m);
		for (int b = 3; b <= w; b++) {
			uint64_t p = b == 64 ? 0 : 1ull << b;
			for (int64_t d : {-2, -1, 0, 1}) { uint64_t v = p + (uint64_t)d; if (b < w || d < 0) ms.insert(v); }
			if (b < w) { ms.insert(p + p / 2); ms.insert(p + p / 4 - 1); ms.insert(p + 1 + r.below(p - 1)); }
		}
		for (int i = 0; i < 20; i++) { uint64_t v = r.u64() >> (64 - w); ms.insert(v >> r.below((uint64_t)w)); }
		for (uint64_t m : ms) one_bound(w, m, (m < 300 ? 12000 : 20000) * k, r.chance(30));
		/* small ranges in full: one per number of random bytes where reachable */
		for (uint64_t m : {(uint64_t)200, (uint64_t)256, (uint64_t)700, (uint64_t)4095, (uint64_t)4096, (uint64_t)10000}) one_bound(w, m, 42 * (m + 1) + 1000, false);
		if (w > 16) one_bound(w, 65536, 42 * 65537, false);
		one_bound(w, w == 16 ? 65534 : 65535, 42 * 65536, false);
	}
	/* rejected draws must not come back as something else, even rarely: ranges
	 * of 5 and 9 equal cells, of every number of random bytes */
	for (int w : {8, 16, 32, 64})
		for (uint64_t cells : {5, 9})
			for (int sh = 0; sh + (cells == 5 ? 3 : 4) <= w; sh += sh < 2 ? 2 : 7) {
				std::vector<uint64_t> c(cells, 0);
				uint64_t m = (cells << sh) - 1, n = (sh < 14 ? 3000000 : 1000000) * k;
				uint64_t over = 0;
				for (uint64_t i = 0; i < n; i++) {
					uint64_t v = bounded(w, m, false) >> sh;
					if (v >= cells) over++;
					else c[v]++;
				}
				tick();
				CHECK(!over, fmt("randomr%d_maximum out of range", w), "maximum %" PRIu64, m);
				chi2u(fmt("randomr%d_maximum not uniform", w), c, n - over, fmt("maximum %" PRIu64 " (%" PRIu64 " cells, many draws)", m, cells));
				eval(mix(m, (uint64_t)w + 0x900));
				stat("draws", (int64_t)n);
			}
	/* rejection must not clamp: the maximum itself is not more likely, over edges */
	for (int b = 1; b < 64; b++) {
		uint64_t m = 1ull << b, hit = 0, zero = 0, half = 0;
		uint64_t n = 20000 * k;
		for (uint64_t i = 0; i < n; i++) { uint64_t v = futils_randomr64_maximum(m); hit += v == m; zero += v == 0; half += v >= m / 2; }
		double ex = (double)n / ((double)m + 1);
		CHECK((double)hit < ex + 10 * sqrt(ex) + 20, "randomr64_maximum favours the maximum", "maximum %" PRIu64 ": %" PRIu64 " of %" PRIu64, m, hit, n);
		CHECK((double)zero < ex + 10 * sqrt(ex) + 20, "randomr64_maximum favours zero", "maximum %" PRIu64 ": %" PRIu64 " of %" PRIu64, m, zero, n);
		eval(mix(m, 0xb1));
	}
	CHECK(futils_random8_maximum(nullptr, 1) == -EINVAL && futils_random16_maximum(nullptr, 1) == -EINVAL && futils_random32_maximum(nullptr, 1) == -EINVAL && futils_random64_maximum(nullptr, 1) == -EINVAL,
	      "NULL value pointer", "not refused");
	sample(fmt("seed %" PRIu64 ": all 8-bit maxima, powers of two and neighbours up to 2^64-1, random maxima", conf().seed));
}

/* ------------------------------------------------------------------ C15 */
struct Windows { /* no 16 byte window may ever come twice */
	std::unordered_set<uint64_t> s;
	std::string tail;
	size_t n = 0;
	bool add(const uint8_t *p, size_t len)
	{
		tail.append((const char *)p, len);
		bool ok = true;
		size_t i = 0;
		for (; i + 16 <= tail.size(); i++) {
			uint64_t a, b;
			memcpy(&a, &tail[i], 8);
			memcpy(&b, &tail[i + 8], 8);
			ok &= s.insert(mix(mix(0x77, a), b)).second;
			n++;
		}
		tail.erase(0, i);
		return ok;
	}
};
static void consume_some()
{
	Rng &r = rng();
	uint8_t b[700];
	for (size_t k = r.below(4); k; k--) {
		switch (r.below(7)) {
		case 0: futils_randomr8(); break;
		case 1: futils_randomr16(); break;
		case 2: futils_randomr32(); break;
		case 3: futils_randomr64(); break;
		case 4: futils_randomrd(); break;
		case 5: futils_randomrf(); break;
		default: futils_random(b, r.below(sizeof b)); break;
		}
	}
}
static void fill_case(size_t n, int kind)
{
	/* every byte must take several values over the repeats */
	const int REP = 14;
	std::string first, changed(n, 0);
	std::set<std::string> seen;
	for (int k = 0; k < REP; k++) {
		if (kind != 2) consume_some();
		uint8_t *p = (uint8_t *)malloc(n + 32); /* canaries; ASan covers the rest */
		memset(p, 0xa5, n + 32);
		int rc = 0;
		switch (kind) {
		case 0: futils_random(p + 16, n); break;
		case 1: rc = futils_random_bytes(p + 16, n); break;
		default: rc = futils_random_strong(p + 16, n); break;
		}
		bool can = true;
		for (int i = 0; i < 16; i++) can &= p[i] == 0xa5 && p[n + 16 + (size_t)i] == 0xa5;
		static const char *nm[] = {"random", "random_bytes", "random_strong"};
		CHECK(can, fmt("%s writes outside the buffer", nm[kind]), "request of %zu bytes", n);
		CHECK(rc == ((n == 0 && kind) ? -EINVAL : 0), fmt("%s result", nm[kind]), "request of %zu bytes rc=%d", n, rc);
		if (k == 0) first.assign((char *)p + 16, n);
		else for (size_t i = 0; i < n; i++) if ((char)p[16 + i] != first[i]) changed[i] = 1;
		if (n >= 16) CHECK(seen.insert(std::string((char *)p + 16, n)).second, fmt("%s repeats its output", nm[kind]), "request of %zu bytes", n);
		free(p);
		if (k == REP - 1)
			for (size_t i = 0; i < n; i++)
				if (!changed[i]) { viol(fmt("%s leaves a byte unfilled", nm[kind]), fmt("byte %zu of a request of %zu bytes is always 0x%02x", i, n, (uint8_t)first[i])); break; }
		eval(mix(mix(n, (uint64_t)kind), (uint64_t)k), n > 0);
		stat("fills");
	}
}
template <class F> static void int_bits(const char *name, int bits, uint64_t n, F draw)
{
	std::vector<uint64_t> ones((size_t)bits, 0), pair((size_t)(bits * bits), 0), lag((size_t)bits, 0), lagx((size_t)bits, 0);
	std::unordered_set<uint64_t> seen;
	uint64_t prev = 0, dup = 0;
	for (uint64_t i = 0; i < n; i++) {
		uint64_t v = draw();
		for (int a = 0; a < bits; a++) {
			ones[(size_t)a] += v >> a & 1;
			if (bits <= 16 || (i & 3) == 0) {
				uint64_t x = (v >> a & 1) ? ~v : v;
				for (int b = 0; b < a; b++) pair[(size_t)(a * bits + b)] += x >> b & 1;
			}
			if (i) { lag[(size_t)a] += (v ^ prev) >> a & 1; lagx[(size_t)a] += ((v >> a) ^ (prev >> ((a + 1) % bits))) & 1; }
		}
		if (bits >= 53 && i < 20000) dup += !seen.insert(v).second;
		prev = v;
		if ((i & 1023) == 0) { eval(mix(v, (uint64_t)bits)); }
	}
	tick();
	uint64_t np = bits <= 16 ? n : (n + 3) / 4;
	for (int a = 0; a < bits; a++) {
		coin(fmt("%s bit biased", name), ones[(size_t)a], n, fmt("bit %d", a));
		coin(fmt("%s consecutive values not independent", name), lag[(size_t)a], n - 1, fmt("bit %d", a));
		coin(fmt("%s consecutive values not independent", name), lagx[(size_t)a], n - 1, fmt("bit %d and its neighbour", a));
		for (int b = 0; b < a; b++) coin(fmt("%s bits not independent", name), pair[(size_t)(a * bits + b)], np, fmt("bits %d and %d", a, b));
	}
	CHECK(dup == 0, fmt("%s repeats values", name), "%" PRIu64 " repeats", dup);
	stat("draws", (int64_t)n);
}
static void mode_bytes()
{
	Rng &r = rng();
	bool th = conf().thorough;
	std::vector<size_t> ns;
	for (size_t n = 0; n < 80; n++) ns.push_back(n);
	for (size_t c : {128, 192, 256, 320, 384, 448, 472, 512, 552, 576, 640, 1024, 4096})
		for (int d = -3; d <= 3; d++) ns.push_back(c + (size_t)(int64_t)d);
	for (int i = 0; i < (th ? 2000 : 120); i++) ns.push_back(r.below(2500));
	for (size_t n : ns) { fill_case(n, 0); if (r.chance(30)) fill_case(n, 1); }
	for (size_t n : {8191, 8192, 65536, 100001, 1 << 20}) fill_case((size_t)n, 0);
	seeded_source = false;
	for (size_t n = 0; n < 70; n += 1 + r.below(4)) fill_case(n, 2);
	for (size_t n : {255, 256, 257, 511, 512, 513, 1000, 5000, 70000}) fill_case(n, 2);
	seeded_source = true;
	CHECK(futils_random_strong(nullptr, 10) == -EINVAL && futils_random_bytes(nullptr, 10) == -EINVAL, "missing buffer", "not refused");
	CHECK(futils_random8(nullptr) == -EINVAL && futils_random16(nullptr) == -EINVAL && futils_random32(nullptr) == -EINVAL && futils_random64(nullptr) == -EINVAL, "NULL value pointer", "not refused");

	/* nothing ever repeats, over a mixed history */
	Windows w;
	for (int i = 0; i < (th ? 20000 : 1500); i++) {
		uint8_t b[1500];
		size_t n = r.chance(70) ? r.below(600) : r.chance(50) ? r.below(16) : r.below(sizeof b);
		if (r.below(200) == 0) n = 1 + (size_t)r.range(440, 520);
		futils_random(b, n);
		CHECK(w.add(b, n), "output repeats", "after %zu bytes, request of %zu", w.n, n);
		if (r.below(300) == 0) futils_random_reseed();
	}
	{
		std::vector<uint8_t> big(th ? (8u << 20) : (1u << 20));
		futils_random(big.data(), big.size());
		std::unordered_set<uint64_t> blk;
		for (size_t i = 0; i + 64 <= big.size(); i += 64)
			if (!blk.insert(hstr(&big[i], 64)).second) { viol("output repeats", fmt("inside one request of %zu bytes", big.size())); break; }
		std::vector<uint64_t> c(256, 0);
		for (uint8_t x : big) c[x]++;
		chi2u("bytes not uniform", c, big.size(), "one large request");
	}
	stat("windows compared", (int64_t)w.n);

	/* bytes at each offset of requests of several sizes */
	for (size_t n : {1, 3, 5, 16, 40, 63, 64, 65, 100, 471, 472, 473, 512, 513, 600}) {
		std::vector<uint64_t> bit(n * 8, 0), adj(n * 8, 0);
		uint64_t N = th ? 20000 : 1500;
		std::vector<uint64_t> c(256, 0);
		for (uint64_t k = 0; k < N; k++) {
			uint8_t b[700];
			futils_random(b, n);
			for (size_t i = 0; i < n; i++) {
				c[b[i]]++;
				uint8_t x = b[i] ^ b[(i + 1) % n];
				for (int j = 0; j < 8; j++) { bit[i * 8 + (size_t)j] += b[i] >> j & 1; adj[i * 8 + (size_t)j] += x >> j & 1; }
			}
		}
		for (size_t i = 0; i < n * 8; i++) {
			coin("random bytes biased", bit[i], N, fmt("bit %zu of requests of %zu bytes", i, n));
			if (n > 2) coin("random bytes not independent", adj[i], N, fmt("bit %zu and the same bit of the next byte, requests of %zu bytes", i, n));
		}
		chi2u("bytes not uniform", c, N * n, fmt("requests of %zu bytes", n));
		eval(mix(n, 0xb17e));
		tick();
	}
	uint64_t N = th ? 2000000 : 120000;
	int_bits("randomr8", 8, N, [] { return (uint64_t)futils_randomr8(); });
	int_bits("randomr16", 16, N, [] { return (uint64_t)futils_randomr16(); });
	int_bits("randomr32", 32, N, [] { return (uint64_t)futils_randomr32(); });
	int_bits("randomr64", 64, N, [] { return futils_randomr64(); });
	int_bits("random8", 8, N / 4, [] { uint8_t v; futils_random8(&v); return (uint64_t)v; });
	int_bits("random16", 16, N / 4, [] { uint16_t v; futils_random16(&v); return (uint64_t)v; });
	int_bits("random32", 32, N / 4, [] { uint32_t v; futils_random32(&v); return (uint64_t)v; });
	int_bits("random64", 64, N / 4, [] { uint64_t v; futils_random64(&v); return v; });
	int_bits("randomrd", 53, N, [] {
		double d = futils_randomrd();
		double s = d * 9007199254740992.0;
		if (!(d >= 0 && d < 1) || s != floor(s)) { viol("randomrd outside its grid", fmt("%.20g", d)); return (uint64_t)0; }
		return (uint64_t)s;
	});
	int_bits("randomrf", 24, N, [] {
		float d = futils_randomrf();
		double s = (double)d * 16777216.0;
		if (!(d >= 0 && d < 1) || s != floor(s)) { viol("randomrf outside its grid", fmt("%.20g", (double)d)); return (uint64_t)0; }
		return (uint64_t)s;
	});
	sample("requests of 0..79, around 128..4096, 1 MiB bytes; integers of 8..64 bits; doubles and floats");
}

/* ------------------------------------------------------------------ C16 */
static const char B16[] = "0123456789abcdef", B32[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567",
		  B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
struct Kind {
	const char *name, *alpha;
	int bits;            /* per character */
	size_t in, out;      /* group: in bytes -> out characters */
	int (*fn)(char *, size_t, size_t);
};
static const Kind kinds[3] = {
	{"base16", B16, 4, 1, 2, futils_random_base16},
	{"base32", B32, 5, 5, 8, futils_random_base32},
	{"base64", B64, 6, 3, 4, futils_random_base64},
};
static size_t full_len(const Kind &k, size_t count) { return (count + k.in - 1) / k.in * k.out; }
static bool check_text(const Kind &k, const char *t, size_t n, size_t count, const char *ctx)
{
	size_t data = (count * 8 + (size_t)k.bits - 1) / (size_t)k.bits;
	unsigned unused = (unsigned)(data * (size_t)k.bits - count * 8);
	for (size_t i = 0; i < n; i++) {
		const char *p = t[i] ? strchr(k.alpha, t[i]) : nullptr;
		if (i >= data) {
			if (t[i] != '=') { viol(fmt("%s padding", k.name), fmt("%s count %zu character %zu is %s", ctx, count, i, esc(&t[i], 1).c_str())); return false; }
		} else if (!p) { viol(fmt("%s alphabet", k.name), fmt("%s count %zu character %zu is %s", ctx, count, i, esc(&t[i], 1).c_str())); return false; }
		else if (i == data - 1 && ((unsigned)(p - k.alpha) & ((1u << unused) - 1))) { viol(fmt("%s unused bits not zero", k.name), fmt("%s count %zu last character %c", ctx, count, t[i])); return false; }
	}
	return true;
}
static void mode_text()
{
	Rng &r = rng();
	bool th = conf().thorough;
	for (const Kind &k : kinds) {
		for (size_t count = 0; count <= (th ? 120 : 42); count++) {
			size_t full = full_len(k, count);
			for (size_t len = 0; len <= full + 3; len++) {
				char *b = (char *)malloc(len ? len : 1);
				memset(b, 0x5a, len ? len : 1);
				int rc = k.fn(len ? b : (r.chance(50) ? b : nullptr), len, count);
				std::string id = fmt("%s count %zu size %zu", k.name, count, len);
				CHECK(rc == (int)full, fmt("%s returned length", k.name), "%s rc=%d expected %zu", id.c_str(), rc, full);
				if (len) {
					size_t n = full < len - 1 ? full : len - 1;
					CHECK(b[n] == 0, fmt("%s not terminated where expected", k.name), "%s", id.c_str());
					check_text(k, b, n, count, "truncated");
				} else CHECK(b[0] == 0x5a, fmt("%s writes into an empty buffer", k.name), "%s", id.c_str());
				free(b);
				eval(mix(mix(count, len), (uint64_t)k.bits), count > 0);
				stat("texts");
			}
		}
		/* distribution: every character position and every pair of bits */
		for (size_t count : {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 16}) {
			size_t full = full_len(k, count), data = (count * 8 + (size_t)k.bits - 1) / (size_t)k.bits, nb = count * 8;
			uint64_t N = (th ? 60000 : 4000);
			std::vector<std::vector<uint64_t>> c(data, std::vector<uint64_t>(1u << k.bits, 0));
			std::vector<uint64_t> ones(nb, 0), pair(nb * nb, 0);
			std::vector<char> buf(full + 1);
			for (uint64_t i = 0; i < N; i++) {
				k.fn(buf.data(), buf.size(), count);
				if (!check_text(k, buf.data(), full, count, "full")) break;
				std::vector<uint8_t> bit;
				for (size_t p = 0; p < data; p++) {
					unsigned v = (unsigned)(strchr(k.alpha, buf[p]) - k.alpha);
					c[p][v]++;
					for (int j = k.bits - 1; j >= 0; j--) bit.push_back(v >> j & 1);
				}
				for (size_t a = 0; a < nb; a++) {
					ones[a] += bit[a];
					for (size_t b = 0; b < a; b++) pair[a * nb + b] += bit[a] ^ bit[b];
				}
				if (i < 40) eval(hstr(buf.data(), full));
			}
			tick();
			for (size_t p = 0; p < data; p++) {
				std::vector<double> e(1u << k.bits, (double)N / (double)(1u << k.bits));
				if (p == data - 1) {
					unsigned unused = (unsigned)(data * (size_t)k.bits - nb);
					for (unsigned v = 0; v < e.size(); v++) e[v] = v & ((1u << unused) - 1) ? 0 : e[v] * (1u << unused);
				}
				chi2(fmt("%s character not uniform", k.name), c[p], e, fmt("count %zu character %zu", count, p));
			}
			for (size_t a = 0; a < nb; a++) {
				coin(fmt("%s bit biased", k.name), ones[a], N, fmt("count %zu bit %zu", count, a));
				for (size_t b = 0; b < a; b++) coin(fmt("%s bits not independent", k.name), pair[a * nb + b], N, fmt("count %zu bits %zu and %zu", count, a, b));
			}
		}
		/* characters of long texts: neighbours at every distance up to 40 bits */
		{
			size_t count = 3000, full = full_len(k, count);
			std::vector<char> buf(full + 1);
			std::vector<uint64_t> lag(41 * 8, 0);
			uint64_t n = 0;
			for (int rep = 0; rep < (th ? 60 : 6); rep++) {
				k.fn(buf.data(), buf.size(), count);
				if (!check_text(k, buf.data(), full, count, "long")) break;
				std::vector<uint8_t> bit;
				size_t data = count * 8 / (size_t)k.bits;
				for (size_t p = 0; p < data; p++) { unsigned v = (unsigned)(strchr(k.alpha, buf[p]) - k.alpha); for (int j = k.bits - 1; j >= 0; j--) bit.push_back(v >> j & 1); }
				size_t m = bit.size() - lag.size();
				for (size_t d = 1; d < lag.size(); d++) for (size_t i = 0; i < m; i++) lag[d] += bit[i] ^ bit[i + d];
				n += m;
				tick();
			}
			for (size_t d = 1; d < lag.size(); d++) coin(fmt("%s bits not independent", k.name), lag[d], n, fmt("bits at distance %zu of a long text", d));
		}
	}
	/* large texts cut short: nothing missing before the end, nothing after it */
	for (int kind = 0; kind < 4; kind++)
		for (size_t len : {255u, 256u, 257u, 4096u, 32768u, 65535u, 65536u, 65537u, 65538u, 70000u, 131072u, 131073u, 196609u, 262145u})
			for (size_t more : {(size_t)0, (size_t)1, (size_t)2, (size_t)100, (size_t)70000, (size_t)1 << 20}) {
				size_t count, full;
				if (kind < 3) { count = (len - 1) * (size_t)kinds[kind].bits / 8 + more; full = full_len(kinds[kind], count); }
				else { count = len - 1 + more; full = count; }
				if (more == 2 && kind == 3) { count = len - 2; full = count; } /* shorter than the buffer */
				std::string b(len + 16, 0x5a);
				static const char A[] = "klmnopqrst";
				int rc = kind < 3 ? kinds[kind].fn(&b[0], len, count) : futils_random_string(&b[0], len, count, A);
				size_t n = full < len - 1 ? full : len - 1;
				std::string id = fmt("%s count %zu size %zu", kind < 3 ? kinds[kind].name : "string", count, len);
				CHECK(rc == (int)full, "large text returned length", "%s rc=%d", id.c_str(), rc);
				size_t z = strnlen(b.data(), len);
				CHECK(z == n, "large text ends at the wrong place", "%s: %zu characters, %zu expected", id.c_str(), z, n);
				CHECK(b.substr(len) == std::string(16, 0x5a), "large text written past the buffer", "%s", id.c_str());
				if (z == n && kind < 3) check_text(kinds[kind], b.data(), n, count, "large");
				else if (z == n) CHECK(b.find_first_not_of(A, 0, strlen(A)) >= n, "string content", "%s", id.c_str());
				if (z == n && n > 64) { /* and it is random everywhere: no 64 equal neighbours */
					size_t run = 1;
					for (size_t i = 1; i < n; i++) { run = b[i] == b[i - 1] ? run + 1 : 1; if (run >= 20) { viol("large text not random", fmt("%s: run of one character at %zu", id.c_str(), i)); break; } }
				}
				eval(mix(mix(len, count), (uint64_t)kind + 0x700));
				stat("texts");
			}
	/* buffers whose size does not fit 31 or 32 bits */
	for (int it = 0; it < 400; it++) {
		int kind = (int)r.below(4);
		size_t len = huge_size(r), count = r.below(300);
		size_t full = kind < 3 ? full_len(kinds[kind], count) : count;
		char *b = huge_room();
		memset(b, 0x5a, 1000);
		int rc = kind < 3 ? kinds[kind].fn(b, len, count) : futils_random_string(b, len, count, "klmnopqrst");
		std::string id = fmt("%s count %zu size %zu", kind < 3 ? kinds[kind].name : "string", count, len);
		CHECK(rc == (int)full, "text in a large buffer returned length", "%s rc=%d", id.c_str(), rc);
		CHECK(strnlen(b, 1000) == full, "text in a large buffer ends at the wrong place", "%s: %zu characters, %zu expected", id.c_str(), strnlen(b, 1000), full);
		if (strnlen(b, 1000) == full && kind < 3) check_text(kinds[kind], b, full, count, "large buffer");
		eval(mix(mix(len, count), (uint64_t)kind + 0x900));
		stat("buffers beyond 31 bits");
	}
	/* overflow of the announced length */
	char small[8];
	struct Lim { int k; size_t ok; } lims[] = {{0, 1073741823u}, {1, 1342177275u}, {2, 1610612733u}};
	for (auto &l : lims)
		for (size_t len : {(size_t)0, (size_t)1, (size_t)8}) {
			const Kind &k = kinds[l.k];
			memset(small, 0x5a, sizeof small);
			int rc = k.fn(small, len, l.ok);
			CHECK((size_t)rc == full_len(k, l.ok), fmt("%s largest count", k.name), "count %zu rc=%d", l.ok, rc);
			if (len) CHECK(small[len - 1] == 0 && strlen(small) == len - 1, fmt("%s truncation of the largest count", k.name), "size %zu", len);
			for (size_t c : {l.ok + 1, l.ok + 2, l.ok + 10, (size_t)INT_MAX, (size_t)INT_MAX + 1, (size_t)UINT_MAX, (size_t)UINT_MAX + 1, (size_t)UINT_MAX + 3, (size_t)1 << 33, (size_t)1 << 61, (size_t)1 << 62, ((size_t)1 << 63), ((size_t)1 << 63) + 1, (size_t)5 << 61, ((size_t)5 << 61) + 1, ((size_t)5 << 61) + 5, ((size_t)5 << 61) + 100, (size_t)3 << 62, ((size_t)3 << 62) + 1, ((size_t)3 << 62) + 3, ((size_t)3 << 62) + 100, ((size_t)1 << 63) + 100, SIZE_MAX - 4, SIZE_MAX - 3, SIZE_MAX - 1, SIZE_MAX}) {
				rc = k.fn(small, len, c);
				CHECK(rc == -EINVAL, fmt("%s overflowing count accepted", k.name), "count %zu rc=%d", c, rc);
				eval(mix(mix(c, len), (uint64_t)k.bits));
			}
		}
	/* strings over any alphabet */
	for (size_t c : {(size_t)INT_MAX + 1, (size_t)UINT_MAX, (size_t)UINT_MAX + 1, (size_t)UINT_MAX + 5, SIZE_MAX})
		CHECK(futils_random_string(small, 4, c, "abc") == -EINVAL && futils_random_string(small, 0, c, "abc") == -EINVAL, "string overflowing count accepted", "count %zu", c);
	CHECK(futils_random_string(small, 8, INT_MAX, "x") == INT_MAX && !strcmp(small, "xxxxxxx"), "string largest count", "wrong");
	CHECK(futils_random_string(nullptr, 0, INT_MAX, "x") == INT_MAX, "string largest count", "size 0");
	memset(small, 0x5a, 8);
	CHECK(futils_random_string(small, 8, 5, "") == 0 && small[0] == 0, "string over an empty alphabet", "not empty");
	CHECK(futils_random_string(small, 1, 5, "") == 0 && small[0] == 0, "string over an empty alphabet", "not empty");
	CHECK(futils_random_string(nullptr, 0, 5, "") == 0, "string over an empty alphabet", "size 0");
	for (size_t al : {1, 2, 3, 5, 10, 16, 26, 62, 64, 95, 128, 200, 255}) {
		std::string A;
		for (size_t i = 0; i < al; i++) A += (char)(al <= 95 ? ' ' + i : 1 + i);
		for (size_t i = al; i > 1; i--) std::swap(A[i - 1], A[r.below(i)]);
		for (size_t count = 0; count <= 20; count++)
			for (size_t len = 0; len <= count + 2; len++) {
				char *b = (char *)malloc(len ? len : 1);
				memset(b, 0x5a, len ? len : 1);
				int rc = futils_random_string(b, len, count, A.c_str());
				CHECK(rc == (int)count, "string returned length", "count %zu size %zu rc=%d", count, len, rc);
				if (len) {
					size_t n = count < len - 1 ? count : len - 1;
					bool ok = b[n] == 0;
					for (size_t i = 0; i < n; i++) ok &= A.find(b[i]) != A.npos;
					CHECK(ok, "string content", "alphabet of %zu, count %zu size %zu: %s", al, count, len, esc(b, len).c_str());
				}
				free(b);
				eval(mix(mix(count, len), al + 1000), count > 0);
				stat("texts");
			}
		size_t count = 9;
		uint64_t N = 60 * al + 2000;
		std::vector<std::vector<uint64_t>> c(count, std::vector<uint64_t>(al, 0));
		std::vector<uint64_t> p2(16, 0);
		char b[10];
		for (uint64_t i = 0; i < N; i++) {
			futils_random_string(b, sizeof b, count, A.c_str());
			for (size_t p = 0; p < count; p++) c[p][A.find(b[p]) % al]++;
			if (al == 16 || al == 128 || al == 64)
				for (size_t p = 1; p < count; p++) p2[A.find(b[p]) * 4 / al * 4 + A.find(b[p - 1]) * 4 / al]++;
		}
		tick();
		for (size_t p = 0; p < count && al > 1; p++) chi2u("string character not uniform", c[p], N, fmt("alphabet of %zu character %zu", al, p));
		if (al == 16 || al == 128 || al == 64) chi2u("string characters not independent", p2, N * (count - 1), fmt("alphabet of %zu", al));
	}
	/* alphabets with repeated characters, as weights; longer than a byte or two can count */
	for (size_t al : {256u, 257u, 258u, 300u, 511u, 512u, 513u, 1000u, 65535u, 65536u, 65537u, 100000u, 1u << 20}) {
		std::string A(al, 0);
		const size_t G = 13;
		std::vector<double> w(G, 0);
		for (size_t i = 0; i < al; i++) { size_t g = i * G / al; A[i] = (char)('a' + g); w[g]++; }
		size_t count = al > 70000 ? 20000 : 4000;
		std::vector<uint64_t> c(G, 0);
		uint64_t n = 0;
		bool ok = true;
		for (int rep = 0; rep < (th ? 20 : 4); rep++) {
			std::string b(count + 1, 0x5a);
			int rc = futils_random_string(&b[0], b.size(), count, A.c_str());
			CHECK(rc == (int)count && b[count] == 0, "string returned length", "alphabet of %zu, count %zu rc=%d", al, count, rc);
			for (size_t i = 0; i < count; i++) { unsigned g = (unsigned)(uint8_t)b[i] - 'a'; if (g < G) c[g]++; else ok = false; }
			n += count;
		}
		CHECK(ok, "string content", "alphabet of %zu", al);
		for (auto &x : w) x = x / (double)al * (double)n;
		if (ok) chi2("string character not uniform", c, w, fmt("alphabet of %zu with repeated characters", al));
		eval(mix(0xa1fa, al));
		stat("long alphabets");
		tick();
	}
	char t[40];
	futils_random_base32(t, sizeof t, 7);
	sample(fmt("base32 of 7 bytes: %s", t));
	futils_random_base64(t, sizeof t, 8);
	sample(fmt("base64 of 8 bytes: %s", t));
}

/* ------------------------------------------------------------------ C17 */
static void mode_shuffle()
{
	Rng &r = rng();
	bool th = conf().thorough;
	/* permutation and untouched surroundings, any item size */
	for (int it = 0; it < (th ? 20000 : 1500); it++) {
		size_t n = r.chance(70) ? r.below(12) : r.below(300);
		size_t sz = r.pick(std::vector<size_t>{0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 63, 64, 65, 100, 255, 256, 257, 1000, 4096});
		uint8_t *a = (uint8_t *)malloc(n * sz + 32);
		memset(a, 0x6b, n * sz + 32);
		uint8_t *p = a + 16;
		std::multiset<std::string> want, got;
		for (size_t i = 0; i < n && sz; i++) {
			std::string s = r.bytes(sz);
			if (sz >= 2) memcpy(&s[0], &i, 2);
			memcpy(p + i * sz, s.data(), sz);
			want.insert(s);
		}
		std::string before((char *)p, n * sz);
		int rc = futils_random_shuffle(p, n, sz);
		CHECK(rc == 0, "shuffle fails", "%zu items of %zu bytes rc=%d", n, sz, rc);
		for (size_t i = 0; i < n && sz; i++) got.insert(std::string((char *)p + i * sz, sz));
		CHECK(got == want, "not a permutation", "%zu items of %zu bytes", n, sz);
		bool can = true;
		for (int i = 0; i < 16; i++) can &= a[i] == 0x6b && a[16 + n * sz + (size_t)i] == 0x6b;
		CHECK(can, "shuffle writes outside the array", "%zu items of %zu bytes", n, sz);
		if (n < 2 || !sz) CHECK(before == std::string((char *)p, n * sz), "nothing to shuffle but changed", "%zu items of %zu bytes", n, sz);
		free(a);
		eval(mix(mix(n, sz), hstr(before)), n > 1 && sz);
		stat("shuffles");
	}
	CHECK(futils_random_shuffle(nullptr, 3, 4) == -EINVAL, "missing array", "not refused");
	/* large items */
	for (size_t sz : {(size_t)70001, (size_t)1 << 20, ((size_t)3 << 20) + 5}) {
		size_t n = 5;
		std::vector<uint8_t> a(n * sz);
		for (size_t i = 0; i < n; i++) memset(&a[i * sz], 'A' + (int)i, sz);
		int rc = 1;
		on_stack(512, [&] { rc = futils_random_shuffle(a.data(), n, sz); });
		CHECK(rc == 0, "shuffle fails", "%zu items of %zu bytes rc=%d", n, sz, rc);
		int seen = 0;
		for (size_t i = 0; i < n; i++) {
			uint8_t c = a[i * sz];
			if (c < 'A' || c >= 'A' + (int)n || memcmp(&a[i * sz], &a[i * sz + 1], sz - 1)) { viol("not a permutation", fmt("%zu items of %zu bytes: item %zu", n, sz, i)); break; }
			seen |= 1 << (c - 'A');
		}
		CHECK(seen == (1 << n) - 1, "not a permutation", "%zu items of %zu bytes: %x", n, sz, seen);
		stat("large items shuffled");
	}
	for (size_t sz : {1, 4, 8, 9, 16, 100, 5000}) {
		std::vector<uint8_t> a(20 * sz, 1);
		for (int round = 0; round < 4; round++) {
			size_t h0 = heap_bytes();
			for (int k = 0; k < 200; k++) futils_random_shuffle(a.data(), k % 21, sz);
			size_t h1 = heap_bytes();
			if (h1 <= h0) break;
			CHECK(round < 3, "shuffle leaves memory allocated", "%zu bytes after 200 shuffles of items of %zu bytes", h1 - h0, sz);
		}
		stat("shuffles", 200);
	}
	/* all permutations equally likely, for item sizes on both sides of the internal paths */
	for (size_t sz : {1, 2, 4, 8, 9, 16, 40})
		for (size_t n = 2; n <= 5; n++) {
			size_t f = 1;
			for (size_t i = 2; i <= n; i++) f *= i;
			std::vector<uint64_t> c(f, 0);
			uint64_t N = (th ? 4000 : 250) * f + 2000;
			for (uint64_t k = 0; k < N; k++) {
				uint8_t b[5 * 40];
				memset(b, 0, sizeof b);
				for (size_t i = 0; i < n; i++) { b[i * sz] = (uint8_t)i; b[i * sz + sz - 1] = (uint8_t)i; }
				futils_random_shuffle(b, n, sz);
				size_t rank = 0;
				for (size_t i = 0; i < n; i++) {
					size_t less = 0;
					for (size_t j = i + 1; j < n; j++) less += b[j * sz] < b[i * sz];
					rank = rank * (n - i) + less;
				}
				c[rank]++;
			}
			chi2u("permutations not equally likely", c, N, fmt("%zu items of %zu bytes", n, sz));
			for (size_t i = 0; i < f; i++) if (!c[i]) { viol("permutation never produced", fmt("%zu items of %zu bytes", n, sz)); break; }
			eval(mix(n, sz + 77));
			stat("shuffles", (int64_t)N);
			tick();
		}
	/* larger arrays: where each item goes, and pairs of neighbours */
	for (size_t n : {6, 8, 16, 31, 64, 100, 257}) {
		uint64_t N = (n > 100 ? 20000 : 24000) * (th ? 6u : 1u);
		std::vector<uint64_t> pos(n * n, 0), fix(n + 1, 0), inv(n, 0);
		uint64_t asc = 0;
		for (uint64_t k = 0; k < N; k++) {
			uint16_t b[257];
			for (size_t i = 0; i < n; i++) b[i] = (uint16_t)i;
			futils_random_shuffle(b, n, 2);
			for (size_t i = 0; i < n; i++) pos[i * n + b[i]]++;
			for (size_t i = 0; i + 1 < n; i++) inv[i] += b[i] > b[i + 1];
			asc += b[0] < b[n - 1];
			if (k < 30) eval(hstr(b, 2 * n));
		}
		tick();
		for (size_t i = 0; i < n; i++) {
			chi2u("positions not equally likely", std::vector<uint64_t>(pos.begin() + (long)(i * n), pos.begin() + (long)((i + 1) * n)), N, fmt("position %zu of %zu items", i, n));
			if (i + 1 < n) coin("neighbours not equally ordered", inv[i], N, fmt("positions %zu and %zu of %zu items", i, i + 1, n));
		}
		coin("ends not equally ordered", asc, N, fmt("%zu items", n));
		stat("shuffles", (int64_t)N);
	}
	/* very large arrays: no item is bound to a part of the array */
	for (size_t n : {1000, 5000, 40000, 70000, 300000}) {
		const size_t G = 16;
		uint64_t N = (n > 100000 ? 2 : n > 10000 ? 8 : 60) * (th ? 8u : 1u), fixed = 0, succ = 0;
		std::vector<uint64_t> cell(G * G, 0);
		std::vector<double> want(G * G, 0);
		std::vector<uint32_t> b(n);
		std::vector<bool> got(n);
		for (uint64_t k = 0; k < N; k++) {
			for (size_t i = 0; i < n; i++) b[i] = (uint32_t)i;
			futils_random_shuffle(b.data(), n, 4);
			std::fill(got.begin(), got.end(), false);
			bool perm = true;
			for (size_t i = 0; i < n; i++) {
				if (b[i] >= n || got[b[i]]) { perm = false; break; }
				got[b[i]] = true;
				cell[i * G / n * G + b[i] * G / n]++;
				fixed += b[i] == i;
				succ += i && b[i] == b[i - 1] + 1;
			}
			CHECK(perm, "not a permutation", "%zu items of 4 bytes", n);
			if (!perm) break;
			eval(hstr(b.data(), 64));
		}
		std::vector<double> row(G, 0);
		for (size_t i = 0; i < n; i++) row[i * G / n]++;
		for (size_t i = 0; i < G; i++) for (size_t j = 0; j < G; j++) want[i * G + j] = row[i] * row[j] / (double)n * (double)N;
		chi2("parts of a large array not equally likely", cell, want, fmt("%zu items, 16 parts", n));
		/* both counts are nearly Poisson with mean 1 per shuffle */
		double lim = (double)N + 12 * sqrt((double)N) + 40;
		CHECK((double)fixed < lim && (double)succ < lim, "items of a large array stay in place or together", "%zu items, %d shuffles: %d in place, %d behind their neighbour", n, (int)N, (int)fixed, (int)succ);
		stat("shuffles", (int64_t)N);
		stat("large shuffles", (int64_t)N);
		tick();
	}
	sample("all permutations of 2..5 items of 1,2,4,8,9,16,40 bytes counted; positions of 6..257 items");
}

/* ------------------------------------------------------------------ C18 */
struct Collect { /* windows across threads and processes */
	std::map<std::string, std::string> first;
	std::unordered_map<uint64_t, std::string> m;
	size_t n = 0;
	void add(const std::string &who, const std::string &s)
	{
		for (size_t i = 0; i + 12 <= s.size(); i++) {
			uint64_t a; uint32_t b;
			memcpy(&a, &s[i], 8);
			memcpy(&b, &s[i + 8], 4);
			auto x = m.emplace(mix(mix(0x99, a), b), who);
			n++;
			if (!x.second) {
				viol("two streams share output", fmt("%s and %s share 12 bytes (offset %zu)", x.first->second.c_str(), who.c_str(), i));
				return;
			}
		}
	}
};
static std::string draw(size_t n, int style)
{
	std::string o;
	Rng r(n * 31 + (size_t)style);
	while (o.size() < n) {
		switch (style) {
		case 0: { char b[64]; futils_random(b, sizeof b); o.append(b, sizeof b); break; }
		case 1: { uint64_t v = futils_randomr64(); o.append((char *)&v, 8); break; }
		case 2: { char b[600]; futils_random(b, sizeof b); o.append(b, sizeof b); break; }
		default: { char b[200]; size_t k = 1 + r.below(199); futils_random(b, k); o.append(b, k); break; }
		}
	}
	return o;
}
static std::string in_child(const std::function<std::string()> &f)
{
	int p[2];
	if (pipe(p)) harness_error("pipe");
	pid_t c = fork();
	if (c < 0) harness_error("fork");
	if (c == 0) {
		close(p[0]);
		std::string s = f();
		size_t o = 0;
		while (o < s.size()) { ssize_t w = write(p[1], s.data() + o, s.size() - o); if (w <= 0) break; o += (size_t)w; }
		_exit(0);
	}
	close(p[1]);
	std::string s;
	char b[4096];
	ssize_t k;
	while ((k = __real_read(p[0], b, sizeof b)) > 0) s.append(b, (size_t)k);
	close(p[0]);
	int st;
	waitpid(c, &st, 0);
	if (WIFSIGNALED(st)) viol("generator dies in a forked child", fmt("signal %d", WTERMSIG(st)));
	tick();
	return s;
}
struct Worker {
	pthread_t t;
	std::mutex m;
	pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
	std::deque<std::function<void()>> q;
	bool stop = false, idle = true;
	static void *main(void *x)
	{
		Worker &w = *(Worker *)x;
		for (;;) {
			std::function<void()> f;
			{
				pthread_mutex_lock(w.m.native_handle());
				while (w.q.empty() && !w.stop) pthread_cond_wait(&w.cv, w.m.native_handle());
				if (w.q.empty()) { pthread_mutex_unlock(w.m.native_handle()); return nullptr; }
				f = w.q.front();
				w.q.pop_front();
				pthread_mutex_unlock(w.m.native_handle());
			}
			f();
			pthread_mutex_lock(w.m.native_handle());
			w.idle = w.q.empty();
			pthread_cond_broadcast(&w.cv);
			pthread_mutex_unlock(w.m.native_handle());
		}
	}
	Worker() { pthread_create(&t, nullptr, main, this); }
	void run(std::function<void()> f)
	{
		pthread_mutex_lock(m.native_handle());
		q.push_back(f);
		idle = false;
		pthread_cond_broadcast(&cv);
		while (!idle) pthread_cond_wait(&cv, m.native_handle());
		pthread_mutex_unlock(m.native_handle());
	}
	void post(std::function<void()> f)
	{
		pthread_mutex_lock(m.native_handle());
		q.push_back(f);
		idle = false;
		pthread_cond_broadcast(&cv);
		pthread_mutex_unlock(m.native_handle());
	}
	void wait()
	{
		pthread_mutex_lock(m.native_handle());
		while (!idle) pthread_cond_wait(&cv, m.native_handle());
		pthread_mutex_unlock(m.native_handle());
	}
	~Worker()
	{
		pthread_mutex_lock(m.native_handle());
		stop = true;
		pthread_cond_broadcast(&cv);
		pthread_mutex_unlock(m.native_handle());
		pthread_join(t, nullptr);
	}
};
/* a reseed asked in the current thread, or in one which has never drawn anything */
static int reseed_by(bool newborn)
{
	if (!newborn) return futils_random_reseed();
	int rc = 0;
	pthread_t t;
	if (pthread_create(&t, nullptr, [](void *x) -> void * { *(int *)x = futils_random_reseed(); return nullptr; }, &rc)) harness_error("thread");
	pthread_join(t, nullptr);
	stat("reseeds in a new thread");
	return rc;
}
static std::string snap(const std::function<std::string()> &f) { return in_child(f); }
/* A reseed by another thread while this one is waiting for its own seed: the seed it had
 * before the reseed ended must not serve what it gives afterwards. The stream of that seed
 * is what a child, forked at that moment and undisturbed, gives. */
static void reseed_meanwhile(Worker &a, bool reseeding, size_t len, int style, bool twice)
{
	a.run([&] {
		int p[2];
		if (pipe(p)) harness_error("pipe");
		bool child = false, started = false, done_in = false;
		pid_t pid = -1;
		struct B { std::atomic<bool> done{false}; int rc = 0, n = 1; pthread_t t; } b;
		b.n = twice ? 2 : 1;
		in_source = [&] {
			pid = fork();
			if (pid == 0) { child = true; return; }
			if (pid < 0) harness_error("fork");
			started = true;
			if (pthread_create(&b.t, nullptr, [](void *x) -> void * {
				B &b = *(B *)x;
				for (int i = 0; i < b.n; i++) b.rc |= futils_random_reseed();
				b.done = true;
				return nullptr;
			}, &b)) harness_error("thread");
			/* an implementation may keep a lock while it asks the source */
			for (int i = 0; i < 400 && !b.done; i++) nap(0.0005);
			done_in = b.done;
		};
		if (reseeding) { if (futils_random_reseed() != 0 && !child) viol("reseed fails", "while another thread reseeds"); }
		else (void)futils_randomr64();
		if (started) pthread_join(b.t, nullptr);
		in_source = nullptr;
		std::string o = draw(len, style);
		if (child) {
			size_t at = 0;
			while (at < o.size()) { ssize_t w = write(p[1], o.data() + at, o.size() - at); if (w <= 0) break; at += (size_t)w; }
			_exit(0);
		}
		close(p[1]);
		std::string would;
		if (started) {
			char buf[4096];
			ssize_t k;
			while ((k = __real_read(p[0], buf, sizeof buf)) > 0) would.append(buf, (size_t)k);
			int st;
			waitpid(pid, &st, 0);
			CHECK(b.rc == 0, "reseed fails", "while another thread obtains its seed: %d", b.rc);
			CHECK(would.size() == o.size(), "generator dies in a forked child", "%zu bytes of %zu", would.size(), o.size());
			std::set<std::string> win;
			for (size_t i = 0; i + 12 <= would.size(); i++) win.insert(would.substr(i, 12));
			for (size_t i = 0; i + 12 <= o.size(); i++)
				if (win.count(o.substr(i, 12))) {
					viol("two streams share output", fmt("a thread %s while another reseeds goes on with the stream it had before (offset %zu)", reseeding ? "reseeding" : "seeding", i));
					break;
				}
			stat("reseeds while a thread seeds");
			if (done_in) stat("reseeds finished while a thread seeds");
			eval(mix(hstr(o), (uint64_t)(reseeding + 2 * done_in)));
		}
		close(p[0]);
	});
	tick();
}
/* any number of reseeds between two uses in a thread, powers of two included:
 * what tells a thread of them must not come back to the value it had */
static void many_reseeds()
{
	Rng &r = rng();
	Worker a, b;
	std::vector<int> counts;
	for (int k = 7; k <= (conf().thorough ? 20 : 16); k++) counts.push_back(1 << k);
	for (int k = 0; k < 4; k++) counts.push_back((int)r.range(4, 3000));
	for (int n : counts) {
		Collect c;
		size_t len = (size_t)r.range(40, 300);
		int style = (int)r.below(4), rc = 0;
		std::string would, out;
		b.run([&] { draw(8, 1); would = snap([&] { return draw(len, style); }); });
		a.run([&] { for (int i = 0; i < n; i++) { rc |= futils_random_reseed(); if (i % 4096 == 0) tick(); } });
		b.run([&] { out = draw(len, style); });
		CHECK(rc == 0, "reseed fails", "rc=%d", rc);
		c.add(fmt("thread without any of %d reseeds", n), would);
		c.add(fmt("thread after %d reseeds in another one", n), out);
		stat("long series of reseeds");
		eval(mix((uint64_t)n, hstr(out)));
	}
}
static void mode_streams(int rounds)
{
	Rng &r = rng();
	many_reseeds();
	for (int it = 0; it < rounds; it++) {
		Collect c;
		size_t nt = 2 + r.below(5);
		std::vector<std::unique_ptr<Worker>> w;
		for (size_t i = 0; i < nt; i++) w.emplace_back(new Worker);
		std::vector<std::string> out(nt);
		int style = (int)r.below(4);
		size_t len = (size_t)r.range(16, 700);
		/* simultaneous first use */
		for (size_t i = 0; i < nt; i++) w[i]->post([&, i] { out[i] = draw(len, style); });
		for (size_t i = 0; i < nt; i++) { w[i]->wait(); c.add(fmt("thread %zu start", i), out[i]); }
		for (int step = 0; step < 5; step++) {
			/* what every thread would give without a reseed */
			std::vector<std::string> would(nt);
			style = (int)r.below(4);
			len = (size_t)r.range(16, 700);
			for (size_t i = 0; i < nt; i++) w[i]->run([&, i] { would[i] = snap([&] { return draw(len, style); }); });
			int what = (int)r.below(4);
			size_t who = r.below(nt);
			std::string ctx;
			if (what == 0) { /* reseed in one thread, all continue */
				int n = 1 + (int)r.below(3);
				int rc = 0;
				bool newborn = r.chance(40);
				for (int k = 0; k < n; k++) {
					bool nb = newborn;
					w[r.chance(70) ? who : r.below(nt)]->run([&] { rc |= reseed_by(nb); });
				}
				CHECK(rc == 0, "reseed fails", "rc=%d", rc);
				ctx = fmt("after %d reseeds in %s thread %zu", n, newborn ? "a new thread of" : "", who);
				for (size_t i = 0; i < nt; i++) c.add(fmt("thread %zu without reseed step %d", i, step), would[i]);
				for (size_t i = 0; i < nt; i++) w[i]->run([&, i] { out[i] = draw(len, style); });
				for (size_t i = 0; i < nt; i++) c.add(fmt("thread %zu %s step %d", i, ctx.c_str(), step), out[i]);
				stat("reseeds in a process");
			} else if (what == 1) { /* forked children that reseed share nothing */
				std::vector<std::string> ch;
				size_t nc = 2 + r.below(3);
				bool draws_before = r.chance(30), newborn = r.chance(30);
				for (size_t k = 0; k < nc; k++) {
					size_t th = r.chance(60) ? who : r.below(nt);
					std::string s;
					w[th]->run([&] { s = in_child([&] {
						std::string pre;
						if (draws_before) draw(8, 1);
						if (reseed_by(newborn) != 0) return std::string("reseed failed");
						std::string o = draw(len, style);
						/* a thread born in the child, and a grandchild */
						std::string o2, o3;
						pthread_t t;
						struct A { std::string *o; size_t n; int st; } a{&o2, len, style};
						pthread_create(&t, nullptr, [](void *x) -> void * { A &a = *(A *)x; *a.o = draw(a.n, a.st); return nullptr; }, &a);
						pthread_join(t, nullptr);
						o3 = in_child([&] { futils_random_reseed(); return draw(len, style); });
						std::string o4 = draw(len, style);
						return o + o2 + o3 + o4;
					}); });
					CHECK(s.size() >= 4 * len, "reseed or output fails in a forked child", "%zu bytes", s.size());
					ch.push_back(s);
				}
				for (size_t k = 0; k < nc; k++) c.add(fmt("child %zu step %d", k, step), ch[k]);
				/* the parents go on */
				for (size_t i = 0; i < nt; i++) w[i]->run([&, i] { out[i] = draw(len, style); });
				for (size_t i = 0; i < nt; i++) c.add(fmt("thread %zu after forks step %d", i, step), out[i]);
				stat("reseeded children", (int64_t)nc);
			} else if (what == 2) { /* reseed in the parent after a fork */
				std::string s = in_child([&] { return draw(len, style); });
				bool newborn = r.chance(40);
				w[who]->run([&] { reseed_by(newborn); });
				for (size_t i = 0; i < nt; i++) c.add(fmt("thread %zu snapshot step %d", i, step), would[i]);
				for (size_t i = 0; i < nt; i++) w[i]->run([&, i] { out[i] = draw(len, style); });
				for (size_t i = 0; i < nt; i++) c.add(fmt("thread %zu after a reseed step %d", i, step), out[i]);
				stat("reseeds in a process");
			} else { /* concurrent draws and reseeds */
				for (size_t i = 0; i < nt; i++)
					w[i]->post([&, i] {
						out[i].clear();
						for (int k = 0; k < 6; k++) {
							if ((size_t)k % nt == i) futils_random_reseed();
							out[i] += draw(100, (int)(i + (size_t)k) % 4);
						}
					});
				for (size_t i = 0; i < nt; i++) { w[i]->wait(); c.add(fmt("thread %zu concurrent step %d", i, step), out[i]); }
				stat("concurrent reseeds");
			}
			eval(mix(mix(hstr(out[0]), (uint64_t)what), nt));
			tick();
		}
		for (int k = 0; k < 4; k++) {
			bool reseeding = r.chance(40);
			size_t who = r.below(nt);
			w[(who + 1) % nt]->run([] { futils_random_reseed(); });
			if (r.chance(30)) { Worker newborn; reseed_meanwhile(newborn, reseeding, (size_t)r.range(16, 700), (int)r.below(4), r.chance(30)); }
			else reseed_meanwhile(*w[who], reseeding, (size_t)r.range(16, 700), (int)r.below(4), r.chance(30));
		}
		/* oracle sanity: a fork without reseed does continue the same stream */
		std::string a, b;
		w[0]->run([&] { a = snap([] { return draw(64, 0); }); b = draw(64, 0); });
		stat(a == b ? "same stream without reseed (expected)" : "different stream without reseed");
		stat("windows compared", (int64_t)c.n);
		if (it < 3) sample(fmt("%zu threads, 5 steps of reseeds and forks: %zu windows of 12 bytes all distinct", nt, c.n));
	}
}
static void mode_tsan()
{
	Rng &r = rng();
	for (int it = 0; it < (conf().thorough ? 60 : 6); it++) {
		std::vector<std::unique_ptr<Worker>> w;
		size_t nt = 3 + r.below(4);
		for (size_t i = 0; i < nt; i++) w.emplace_back(new Worker);
		uint64_t sd = r.u64();
		std::vector<uint64_t> h(nt, 0);
		for (size_t i = 0; i < nt; i++)
			w[i]->post([&, i] {
				Rng q(sd + i);
				for (int k = 0; k < 400; k++) {
					char b[700];
					switch (q.below(11)) {
					case 0: futils_random_reseed(); break;
					case 1: futils_random(b, q.below(700)); break;
					case 2: futils_random_string(b, 50, 40, "abcdef"); break;
					case 3: futils_random_base64(b, 60, 30); break;
					case 4: futils_random_base32(b, 60, 30); break;
					case 5: futils_random_base16(b, 60, 20); break;
					case 6: { uint32_t a[20] = {1, 2, 3}; futils_random_shuffle(a, 20, 4); break; }
					case 7: futils_random_strong(b, 16); break;
					case 8: h[i] ^= (uint64_t)(futils_randomrd() * 1e9) + (uint64_t)(futils_randomrf() * 1e6); break;
					case 9: h[i] ^= futils_randomr64_maximum(q.u64()); break;
					default: h[i] ^= futils_randomr64(); break;
					}
					tick();
				}
				eval(mix(h[i], i));
			});
		for (auto &x : w) x->wait();
		stat("delivered", (int64_t)nt * 400);
		stat("rounds");
	}
}

/* ------------------------------------------------------------------ C19 */
struct Map { uintptr_t a, b; };
static std::vector<Map> writable(uintptr_t ex0, uintptr_t ex1, uintptr_t fx0, uintptr_t fx1)
{
	std::vector<Map> v;
	FILE *f = fopen("/proc/self/maps", "r");
	if (!f) harness_error("maps");
	char l[512];
	while (fgets(l, sizeof l, f)) {
		uintptr_t a, b;
		char p[8];
		if (sscanf(l, "%lx-%lx %7s", &a, &b, p) != 3) continue;
		if (p[0] != 'r' || p[1] != 'w') continue;
		if (strstr(l, "[stack") || strstr(l, "[vvar") || strstr(l, "[vsyscall")) continue;
		/* cut out our own records */
		std::vector<Map> parts{{a, b}};
		for (auto ex : {std::make_pair(ex0, ex1), std::make_pair(fx0, fx1)}) {
			std::vector<Map> n;
			for (auto &m : parts) {
				if (ex.second <= m.a || ex.first >= m.b) { n.push_back(m); continue; }
				if (m.a < ex.first) n.push_back({m.a, ex.first});
				if (ex.second < m.b) n.push_back({ex.second, m.b});
			}
			parts = n;
		}
		for (auto &m : parts) v.push_back(m);
	}
	fclose(f);
	return v;
}
static uint8_t *rec; /* outputs, own mapping */
static size_t rec_n;
static const size_t REC = 1 << 20;
/* table of 8-byte prefixes, kept in own mapping too, masked so that it does not
 * itself contain the windows */
static uint64_t *tab;
static const size_t TAB = 1 << 18;
static const uint64_t MASK = 0x5bd1e995c2b2ae35ull;
static void tab_clear() { memset(tab, 0, TAB * 8); }
static void tab_add(uint64_t w)
{
	uint64_t k = (w ^ MASK);
	size_t i = (size_t)(mix(1, k)) % TAB;
	while (tab[i] && tab[i] != k) i = (i + 1) % TAB;
	tab[i] = k;
}
static bool tab_has(uint64_t w)
{
	uint64_t k = (w ^ MASK);
	size_t i = (size_t)(mix(1, k)) % TAB;
	while (tab[i]) { if (tab[i] == k) return true; i = (i + 1) % TAB; }
	return false;
}
__attribute__((noinline)) static size_t scan(const char **where, size_t *bytes)
{
	auto maps = writable((uintptr_t)rec, (uintptr_t)rec + REC, (uintptr_t)src_log, (uintptr_t)src_log + src_log_cap);
	size_t hits = 0;
	*bytes = 0;
	for (auto &m : maps) {
		if ((uintptr_t)tab >= m.a && (uintptr_t)tab < m.b) continue;
		*bytes += m.b - m.a;
		for (uintptr_t p = m.a; p + 8 <= m.b; p++) {
			uint64_t w;
			memcpy(&w, (void *)p, 8);
			if (w && tab_has(w)) hits++;
		}
	}
	*where = "";
	return hits;
}
/* A generator state kept in memory must not give delivered output again: every
 * 64-byte word group that begins with the ChaCha constants is run again from
 * counter 0 and the blocks compared with the output. (A generator built
 * otherwise has no such state and nothing is compared.) */
static void chacha_block(const uint32_t in[16], uint8_t out[64])
{
	uint32_t x[16];
	memcpy(x, in, 64);
	auto rot = [](uint32_t v, int k) { return v << k | v >> (32 - k); };
	auto qr = [&](int a, int b, int c, int d) {
		x[a] += x[b]; x[d] = rot(x[d] ^ x[a], 16);
		x[c] += x[d]; x[b] = rot(x[b] ^ x[c], 12);
		x[a] += x[b]; x[d] = rot(x[d] ^ x[a], 8);
		x[c] += x[d]; x[b] = rot(x[b] ^ x[c], 7);
	};
	for (int i = 0; i < 10; i++) {
		qr(0, 4, 8, 12); qr(1, 5, 9, 13); qr(2, 6, 10, 14); qr(3, 7, 11, 15);
		qr(0, 5, 10, 15); qr(1, 6, 11, 12); qr(2, 7, 8, 13); qr(3, 4, 9, 14);
	}
	for (int i = 0; i < 16; i++) x[i] += in[i];
	memcpy(out, x, 64);
}
static size_t keys_tried;
static size_t scan_states(size_t *states)
{
	static const char C[] = "expand 32-byte k";
	uint64_t c0, c1;
	memcpy(&c0, C, 8);
	memcpy(&c1, C + 8, 8);
	size_t hits = 0;
	*states = 0;
	auto maps = writable((uintptr_t)rec, (uintptr_t)rec + REC, (uintptr_t)src_log, (uintptr_t)src_log + src_log_cap);
	for (auto &m : maps) {
		if ((uintptr_t)tab >= m.a && (uintptr_t)tab < m.b) continue;
		for (uintptr_t p = m.a; p + 64 <= m.b; p += 4) {
			uint64_t a, b;
			memcpy(&a, (void *)p, 8);
			memcpy(&b, (void *)(p + 8), 8);
			if (a != c0 || b != c1) continue;
			++*states;
			uint32_t st[16];
			uint8_t blk[64];
			memcpy(st, (void *)p, 64);
			/* nor may the bytes around it be the key of delivered output */
			for (uintptr_t q = p > m.a + 1200 ? p - 1200 : m.a; q + 44 <= m.b && q < p + 1200; q++) {
				uint32_t kx[16];
				memcpy(kx, C, 16);
				memcpy(kx + 4, (void *)q, 32);
				kx[12] = 0;
				memcpy(kx + 13, (void *)(q + 32), 12);
				chacha_block(kx, blk);
				for (int k = 0; k + 8 <= 64; k += 8) {
					uint64_t w;
					memcpy(&w, blk + k, 8);
					hits += tab_has(w);
				}
				volatile uint32_t *vk = kx;
				for (int k = 0; k < 16; k++) vk[k] = 0;
				keys_tried++;
			}
			uint32_t end = st[12]; /* blocks before the next one */
			for (uint32_t c = end > 64 ? end - 64 : 0; c < end; c++) {
				st[12] = c;
				chacha_block(st, blk);
				for (int k = 0; k + 8 <= 64; k++) {
					uint64_t w;
					memcpy(&w, blk + k, 8);
					hits += tab_has(w);
				}
				volatile uint8_t *vb = blk;
				for (int k = 0; k < 64; k++) vb[k] = 0;
			}
		}
	}
	return hits;
}
static void mode_memory(int rounds)
{
	Rng &r = rng();
	rec = (uint8_t *)mmap(nullptr, REC, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	tab = (uint64_t *)mmap(nullptr, TAB * 8 + 8192, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	src_log_cap = 1 << 16;
	src_log = (uint8_t *)mmap(nullptr, src_log_cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	/* the source's own state must not look like a seed: it is a different generator */
	size_t scanned = 0;
	for (int it = 0; it < rounds; it++) {
		rec_n = 0;
		int steps = 1 + (int)r.below(30);
		bool big = r.chance(30), reseed = r.chance(60);
		if (reseed) { src_log_n = 0; int rc = futils_random_reseed(); if (rc) viol("reseed fails", fmt("%d", rc)); }
		std::vector<std::pair<size_t, size_t>> ranges;
		for (int s = 0; s < steps; s++) {
			size_t n;
			switch (r.below(6)) {
			case 0: n = 8; break;
			case 1: n = 16; break;
			case 2: n = 8 + r.below(464); break;
			case 3: n = 8 + r.below(60); break;
			case 4: n = (size_t)r.range(460, 520); break;
			default: n = big ? 500 + r.below(3000) : 8 + r.below(120); break;
			}
			if (rec_n + n > REC) break;
			if (n == 8 && r.chance(50)) *(uint64_t *)(rec + (rec_n = (rec_n + 7) & ~(size_t)7)) = futils_randomr64();
			else futils_random(rec + rec_n, n);
			ranges.push_back({rec_n, n});
			rec_n += n;
		}
		tab_clear();
		size_t nw = 0;
		/* the last ones and a sample of the others: all offsets of each */
		for (size_t i = 0; i < ranges.size(); i++)
			for (size_t k = 0; k + 8 <= ranges[i].second && nw < 60000; k++) { uint64_t w; memcpy(&w, rec + ranges[i].first + k, 8); tab_add(w); nw++; }
		const char *where;
		size_t hits = scan(&where, &scanned);
		CHECK(hits == 0, "delivered output still in memory", "%zu matches of 8 bytes, %d requests since the last look, last of %zu bytes", hits, steps, ranges.back().second);
		size_t states = 0;
		hits = scan_states(&states);
		CHECK(hits == 0, "delivered output can be computed from what is kept", "a state in memory gives %zu windows of delivered output again, %d requests since the last look, last of %zu bytes", hits, steps, ranges.back().second);
		stat("generator states run again", (int64_t)states);
		stat("output windows searched", (int64_t)nw);
		if (reseed && src_log_n >= 8) {
			tab_clear();
			for (size_t k = 0; k + 8 <= src_log_n; k++) { uint64_t w; memcpy(&w, src_log + k, 8); tab_add(w); }
			hits = scan(&where, &scanned);
			CHECK(hits == 0, "seed still in memory", "%zu matches of 8 bytes after %d requests", hits, steps);
			stat("seed windows searched", (int64_t)src_log_n);
		}
		/* the oracle sees what is there: plant one output in a global */
		if (it == 0) {
			static uint64_t planted[2];
			memcpy(planted, rec, 16);
			asm volatile("" : : "r"(planted) : "memory");
			tab_clear();
			uint64_t w;
			memcpy(&w, rec, 8);
			tab_add(w);
			hits = scan(&where, &scanned);
			asm volatile("" : : "r"(planted) : "memory");
			planted[0] = planted[1] = 0;
			asm volatile("" : : "r"(planted) : "memory");
			if (!hits) harness_error("scan does not see a planted value");
			stat("oracle self-test");
		}
		/* short histories from a new seed, looked at after each request */
		for (int sub = 0; sub < 25; sub++) {
			futils_random_reseed();
			size_t sizes[3] = {1 + r.below(r.chance(50) ? 40 : 500), r.chance(70) ? (size_t)r.range(400, 520) : 8 + r.below(700), 8 + r.below(500)};
			for (size_t n : sizes) {
				futils_random(rec, n);
				tab_clear();
				for (size_t k = 0; k + 8 <= n; k++) { uint64_t w; memcpy(&w, rec + k, 8); tab_add(w); }
				hits = scan_states(&states);
				CHECK(hits == 0, "delivered output can be computed from what is kept", "a state in memory gives %zu windows of delivered output again, after requests of %zu %zu %zu bytes from a new seed (last looked at: %zu)", hits, sizes[0], sizes[1], sizes[2], n);
				stat("generator states run again", (int64_t)states);
				eval(mix(mix(sizes[0], sizes[1]), n + 7));
			}
		}
		stat("kept bytes tried as keys", (int64_t)keys_tried);
		keys_tried = 0;
		eval(mix(mix((uint64_t)steps, big), hstr(rec, rec_n)));
		stat_max("max:bytes scanned", (int64_t)scanned);
		if (it < 3) sample(fmt("%d requests, %zu bytes of output, reseed %d: %zu windows searched in %zu bytes of writable memory", steps, rec_n, reseed, nw, scanned));
		tick();
	}
}

/* ------------------------------------------------------------------ C20 */
static std::string scr(const std::deque<int> &d)
{
	std::string s;
	for (int a : d) s += a > 0 ? (a == FULL ? "full " : fmt("%d ", a)) : a == R_ZERO ? "0 " : fmt("E%d ", eno(a));
	return s;
}
static void mode_entropy(int rounds)
{
	Rng &r = rng();
	static const int gset[] = {FULL, 1, 3, 7, 16, 31, 39, R_EINTR, R_EINTR, R_ENOSYS, R_EAGAIN, R_EPERM, R_EIO, R_ZERO, R_EFAULT};
	static const int oset[] = {FULL, FULL, FULL, R_ENOENT, R_EMFILE, R_EIO};
	static const int rset[] = {FULL, 1, 2, 9, 20, 39, R_EINTR, R_EINTR, R_EIO, R_ZERO, R_EAGAIN};
	int *shm = (int *)mmap(nullptr, 1 << 16, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	for (int it = 0; it < rounds; it++) {
		Script s;
		int kind = (int)r.below(4); /* 0,1 strong; 2 generator from scratch; 3 reseed then output */
		/* systematic part: single faults first */
		int ng = (int)r.below(4), nr = (int)r.below(4);
		size_t nsys = sizeof gset / sizeof *gset;
		if (it < (int)nsys * 4) { ng = 1; nr = 0; kind = it / (int)nsys; s.getr.push_back(gset[(size_t)it % nsys]); }
		else for (int k = 0; k < ng; k++) s.getr.push_back(gset[r.below(nsys)]);
		bool nogr = r.chance(50);
		s.getr_dflt = nogr ? gset[9 + r.below(6)] : FULL;
		if (it < (int)nsys * 4) s.getr_dflt = FULL;
		if (r.chance(30)) s.open.push_back(oset[r.below(6)]);
		for (int k = 0; k < nr; k++) s.read.push_back(rset[r.below(11)]);
		size_t len = kind < 2 ? 1 + r.below(r.chance(50) ? 64 : 700) : 32;
		if (r.chance(15)) s.read_dflt = r.pick(std::vector<int>{R_EIO, R_ZERO, R_EAGAIN, R_EFAULT}); /* from then on */
		bool dflt_err = s.read_dflt != FULL;
		std::string desc = fmt("%s len %zu: getrandom [%s then %s] open [%s] read [%s%s]", kind < 2 ? "strong" : kind == 2 ? "generator" : "reseed", len, scr(s.getr).c_str(), s.getr_dflt == FULL ? "full" : "errors", scr(s.open).c_str(), scr(s.read).c_str(), dflt_err ? " then errors" : "");
		/* the device is usable if nothing hard happens to it */
		bool dev_ok = (s.open.empty() || s.open[0] == FULL) && s.read_dflt == FULL;
		for (int a : s.read) if (a == R_EIO || a == R_ZERO || a == R_EAGAIN) dev_ok = false;
		uint64_t sd = r.u64();
		fflush(nullptr);
		memset(shm, 0, 1 << 16);
		pid_t c = fork();
		if (c == 0) {
			int dn = __real_open("/dev/null", O_WRONLY);
			dup2(dn, 2); /* abort() messages */
			__real_close(dn);
			signal(SIGABRT, SIG_DFL);
			src_rng = new Rng(sd);
			sc = s;
			int *o = shm;
			if (kind == 3) { /* a working generator first */
				Script ok;
				ok.on = true;
				sc = ok;
				uint64_t a = futils_randomr64();
				(void)a;
				sc = s;
			}
			sc.on = true;
			std::vector<uint8_t> buf(len, 0xd7);
			o[0] = 1; /* started */
			if (kind < 2) {
				o[1] = futils_random_strong(buf.data(), len);
				size_t at = sc.delivered.find(std::string((char *)buf.data(), len));
				o[2] = at != std::string::npos;
			} else {
				if (kind == 3) {
					o[1] = futils_random_reseed();
					if (o[1] == 0) {
						o[6] = sc.delivered.size() < sc.first_req;
					} else {
						/* the source works again */
						std::string lg = sc.log;
						sc.getr.clear(); sc.open.clear(); sc.read.clear();
						sc.getr_dflt = sc.open_dflt = sc.read_dflt = FULL;
						sc.log = lg;
					}
				}
				futils_random(buf.data(), len);
				o[2] = sc.delivered.size() >= sc.first_req && sc.first_req >= 16;
				bool allsame = true;
				for (uint8_t b : buf) allsame &= b == buf[0];
				o[5] = allsame;
			}
			o[3] = sc.opens - sc.closes;
			o[7] = (int)sc.delivered.size();
			strncpy((char *)(shm + 64), sc.log.c_str(), 8000);
			memcpy(shm + 4096, buf.data(), len);
			o[4] = 1; /* finished */
			_exit(0);
		}
		int st = 0;
		waitpid(c, &st, 0);
		int *o = shm;
		std::string log((char *)(shm + 64));
		bool aborted = WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT;
		if (WIFEXITED(st) && WEXITSTATUS(st) == 4) { viol("entropy source asked for ever", desc); continue; }
		if (!o[4] && !aborted) {
			viol("entropy fault kills the process", fmt("%s status %#x", desc.c_str(), st));
			continue;
		}
		bool gr_can = s.getr_dflt == FULL;
		for (int a : s.getr) if (a < 0 && a != R_EINTR) gr_can = false; /* may give up on it */
		if (kind < 2) {
			CHECK(!aborted, "strong random aborts", "%s", desc.c_str());
			if (o[1] == 0) {
				CHECK(o[2], "strong random claims success without fresh bytes everywhere", "%s | %s", desc.c_str(), log.c_str());
				stat("strong delivered");
			} else {
				CHECK(o[1] < 0, "strong random result", "%s rc=%d", desc.c_str(), o[1]);
				CHECK(!(dev_ok || gr_can), "strong random gives up although a source works", "%s rc=%d | %s", desc.c_str(), o[1], log.c_str());
				stat("strong refused");
			}
		} else if (aborted) {
			CHECK(!(dev_ok || gr_can), "generator aborts although a source works", "%s", desc.c_str());
			stat("generator stopped");
		} else {
			CHECK(o[2], "generator output without a complete seed", "%s | %s, %d bytes obtained", desc.c_str(), log.c_str(), o[7]);
			CHECK(!o[5], "generator output constant", "%s", desc.c_str());
			if (kind == 3) {
				CHECK(o[1] <= 0, "reseed result", "%s rc=%d", desc.c_str(), o[1]);
				CHECK(!o[6], "reseed claims success without a complete seed", "%s | %s", desc.c_str(), log.c_str());
				if (o[1] < 0) { CHECK(!(dev_ok || gr_can), "reseed gives up although a source works", "%s rc=%d", desc.c_str(), o[1]); stat("reseed refused"); }
				else stat("reseeded");
			} else stat("generator seeded");
		}
		if (dflt_err && (aborted || o[1] < 0)) stat("device failing for good");
		CHECK(aborted || o[3] == 0, "random device descriptor leaked", "%s", desc.c_str());
		eval(hstr(desc + log));
		if (r.below(60) == 0) sample(desc + " -> " + (aborted ? "abort" : fmt("rc=%d", o[1])) + " | " + log);
	}
	/* the seed matters entirely: any change of a delivered byte changes the output */
	std::set<std::string> outs;
	for (int pos = -1; pos < 40; pos++) {
		memset(shm, 0, 1 << 16);
		pid_t c = fork();
		if (c == 0) {
			src_rng = new Rng(42);
			std::string key = src_rng->bytes(64);
			if (pos >= 0) key[(size_t)pos] = (char)(key[(size_t)pos] ^ 0x10);
			Script s;
			s.on = true;
			sc = s;
			fixed_bytes = &key;
			uint8_t b[32];
			futils_random(b, sizeof b);
			memcpy(shm + 16, b, 32);
			shm[1] = (int)sc.delivered.size();
			shm[0] = 1;
			_exit(0);
		}
		int st;
		waitpid(c, &st, 0);
		if (!shm[0]) { viol("entropy fault kills the process", "fixed seed"); break; }
		if (pos >= shm[1]) break; /* not part of the seed */
		CHECK(outs.insert(std::string((char *)(shm + 16), 32)).second, "output does not depend on a byte of the seed", "byte %d of %d", pos, shm[1]);
		eval(mix(0x5eed, (uint64_t)pos + 2));
		stat("seed bytes that matter");
	}
}
/* requests of more than 4 GiB, in an address range which shows the same 4 MiB of memory again and again */
static void mode_huge()
{
	const size_t win = 4 << 20, big = (size_t)1 << 32, page = 4096;
	Rng &r = rng();
	uint8_t *base = (uint8_t *)mmap(nullptr, big + 2 * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	int fd = memfd_create("window", MFD_CLOEXEC);
	if (base == MAP_FAILED || fd < 0 || ftruncate(fd, (off_t)win)) harness_error("no address range");
	for (size_t at = 0; at < big; at += win)
		if (mmap(base + at, win, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) harness_error("no window");
	uint8_t *tail = base + big;
	if (mprotect(tail, page, PROT_READ | PROT_WRITE)) harness_error("no tail");
	for (int kind = 0; kind < 3; kind++) {
		size_t t = r.range(64, page), n = big + t;
		uint8_t *p = tail + page - n;
		memset(tail, 0, page);
		sc = Script();
		huge_given = 0;
		int rc;
		if (kind < 2) {
			sc.on = huge = true;
			if (kind == 1) sc.getr_dflt = R_ENOSYS;
			rc = futils_random_strong(p, n);
			sc.on = huge = false;
			CHECK(rc != 0 || huge_given >= n, "request beyond 4 GiB not filled", "strong%s: %zu bytes asked for, %zu obtained", kind ? " from the device" : "", n, huge_given);
		} else rc = futils_random_bytes(p, n);
		const char *what = kind == 2 ? "generator" : kind ? "device" : "strong";
		CHECK(rc == 0, "request beyond 4 GiB fails", "%s: %zu bytes: rc=%d", what, n, rc);
		size_t zeros = 0, run = 0, worst = 0;
		for (size_t i = 0; i < page; i++) {
			run = tail[i] ? 0 : run + 1;
			worst = std::max(worst, run);
			zeros += !tail[i];
		}
		CHECK(worst < 12, "request beyond 4 GiB not filled", "%s: %zu bytes: %zu of the last %zu are still 0", what, n, zeros, page);
		eval(mix(0x4619, mix((uint64_t)kind, t)));
		stat("requests beyond 4 GiB");
		sample(fmt("%s: %zu bytes, %zu zeros in the last %zu", what, n, zeros, page));
	}
}
/* arrays whose bytes, and arrays whose items, do not fit 32 bits */
static jmp_buf guard_hit;
static void on_guard(int) { siglongjmp(guard_hit, 1); }
static void mode_hugeshuffle()
{
	const size_t item = 4 << 20, n = 1500, page = 4096;
	uint8_t *base = (uint8_t *)mmap(nullptr, n * item, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	int fd = memfd_create("item", MFD_CLOEXEC);
	if (base == MAP_FAILED || fd < 0 || ftruncate(fd, (off_t)item)) harness_error("no address range");
	for (size_t i = 0; i < n; i++) {
		if (mmap(base + i * item, item, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED ||
		    mmap(base + i * item, page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) harness_error("no item");
		uint32_t id = (uint32_t)i;
		memcpy(base + i * item + 8, &id, 4);
	}
	int rc = futils_random_shuffle(base, n, item);
	CHECK(rc == 0 || rc == -ENOMEM, "shuffle fails", "%zu items of %zu bytes rc=%d", n, item, rc);
	std::vector<uint32_t> got(n);
	for (size_t i = 0; i < n; i++) memcpy(&got[i], base + i * item + 8, 4);
	size_t top = 0, low = 0; /* about one item of the whole array may stay */
	for (size_t i = 0; i < n; i++) (i < 1024 ? low : top) += got[i] == i;
	std::vector<uint32_t> s = got;
	std::sort(s.begin(), s.end());
	for (size_t i = 0; i < n; i++)
		if (s[i] != i) { viol("not a permutation", fmt("%zu items of %zu bytes: item %zu", n, item, i)); break; }
	CHECK(rc || top + low < 14, "items beyond 4 GiB not shuffled", "%zu items of %zu bytes: %zu of the first 1024 and %zu of the others have not moved", n, item, low, top);
	munmap(base, n * item);
	close(fd);
	eval(mix(n, item));
	stat("arrays beyond 4 GiB");
	sample(fmt("%zu items of %zu bytes: %zu of the first 1024 and %zu of the others have not moved", n, item, low, top));
	/* more than 2^31 items, all the way */
	if (conf().thorough) {
		const size_t cnt = ((size_t)1 << 31) + 100000;
		uint8_t *a = (uint8_t *)mmap(nullptr, cnt, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (a == MAP_FAILED) harness_error("no memory");
		size_t have[8] = {}, cell[64] = {};
		for (size_t i = 0; i < cnt; i++) a[i] = (uint8_t)((__uint128_t)i * 8 / cnt);
		watchdog(2400);
		rc = futils_random_shuffle(a, cnt, 1);
		CHECK(rc == 0, "shuffle fails", "%zu items of 1 byte: %d", cnt, rc);
		for (size_t i = 0; i < cnt; i++) { have[a[i] & 7]++; cell[(size_t)((__uint128_t)i * 8 / cnt) * 8 + (a[i] & 7)]++; }
		double worst = 0, e = (double)cnt / 64;
		for (size_t c : cell) worst = std::max(worst, std::abs((double)c - e) / std::sqrt(e));
		for (int k = 0; k < 8; k++) CHECK(have[k] >= cnt / 8 && have[k] <= cnt / 8 + 1, "not a permutation", "%zu items of 1 byte: %zu of kind %d", cnt, have[k], k);
		CHECK(worst < 9, "items not spread evenly", "%zu items of 1 byte: %f", cnt, worst);
		munmap(a, cnt);
		stat("arrays of more than 2^31 items, to the end");
		tick();
		watchdog(300);
	}
	/* more than 2^32 items of one byte: the first steps, whatever end they start from, stopped by a page they cannot touch */
	const size_t lead = 5 * page;
	for (int kind = 0; kind < 3; kind++) {
		size_t cnt = ((size_t)1 << 32) + (kind == 0 ? page * 3 : kind == 1 ? (size_t)1 << 31 : (size_t)3 << 32);
		cnt -= cnt % page;
		uint64_t seed = rng().u64();
		uint32_t *res = (uint32_t *)mmap(nullptr, page, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		fflush(stdout);
		pid_t pid = fork();
		if (pid < 0) harness_error("fork");
		if (pid == 0) {
			alarm(40);
			uint8_t *a = (uint8_t *)mmap(nullptr, cnt, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			if (a == MAP_FAILED) _exit(3);
			madvise(a, cnt, MADV_NOHUGEPAGE);
			auto fill = [&](size_t i) { return (uint8_t)(1 + mix(seed, i) % 255); };
			for (size_t i = 0; i < lead; i++) { a[i] = fill(i); a[cnt - 1 - i] = fill(lead + i); }
			if (mprotect(a + lead, page, PROT_NONE) || mprotect(a + cnt - lead - page, page, PROT_NONE)) _exit(3);
			struct sigaction sa = {};
			sa.sa_handler = on_guard;
			sa.sa_flags = SA_NODEFER;
			sigaction(SIGSEGV, &sa, nullptr);
			if (!sigsetjmp(guard_hit, 1)) {
				int e = futils_random_shuffle(a, cnt, 1);
				res[0] = e == -ENOMEM ? 3 : 2;
				_exit(0);
			}
			mprotect(a + lead, page, PROT_READ | PROT_WRITE);
			mprotect(a + cnt - lead - page, page, PROT_READ | PROT_WRITE);
			std::vector<unsigned char> in(1 << 16);
			for (size_t at = 0; at < cnt; at += in.size() * page) {
				size_t len = std::min(cnt - at, in.size() * page);
				if (mincore(a + at, len, in.data())) _exit(3);
				for (size_t k = 0; k * page < len; k++)
					if (in[k] & 1)
						for (size_t b = 0; b < page; b++) {
							size_t pos = at + k * page + b;
							if (pos < lead) res[1] += a[pos] != fill(pos);
							else if (pos >= cnt - lead) res[1] += a[pos] != fill(lead + cnt - 1 - pos);
							else if (a[pos]) res[4 + (size_t)((__uint128_t)pos * 8 / cnt)]++;
						}
			}
			res[0] = 1;
			_exit(0);
		}
		int st = 0;
		while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
		size_t moved = 0, worst = 0;
		for (int k = 0; k < 8; k++) moved += res[4 + k];
		for (int k = 0; k < 8; k++) worst = std::max<size_t>(worst, (size_t)std::abs((long)res[4 + k] * 8 - (long)moved));
		/* an early touch of the guard leaves few changes: nothing to judge */
		if (res[0] == 1) {
			size_t changed = res[1];
			double z = (double)worst / 8 / std::sqrt((double)moved * 7 / 64 + 1);
			if (changed >= 1000) {
				CHECK(moved >= changed - changed / 10 && z < 9, "items beyond 2^32 not reached evenly", "%zu items: %zu of the outer ones have moved, to the eighths of the array: %u %u %u %u %u %u %u %u", cnt, changed, res[4], res[5], res[6], res[7], res[8], res[9], res[10], res[11]);
				stat("arrays of more than 2^32 items");
				stat_max("z x100 of eighths", (int64_t)(100 * z));
			} else stat("arrays of more than 2^32 items, stopped early");
			sample(fmt("%zu items: %zu of the outer ones have moved, to the eighths of the array: %u %u %u %u %u %u %u %u", cnt, changed, res[4], res[5], res[6], res[7], res[8], res[9], res[10], res[11]));
		} else if (res[0] == 2) viol("items beyond 2^32 not shuffled", fmt("%zu items: ended without going through the array", cnt));
		else stat("arrays of more than 2^32 items not judged");
		munmap(res, page);
		eval(mix(0x4619, cnt));
	}
}
void mon::run()
{
	src_rng = new Rng(conf().seed ^ 0xabcdef12345ull);
	seeded_source = true;
	bool th = conf().thorough;
	const std::string &m = conf().mode;
	watchdog(m == "huge" ? 400 : m == "hugeshuffle" ? 300 : 60);
	if (m == "bounded") mode_bounded();
	else if (m == "bytes") mode_bytes();
	else if (m == "huge") mode_huge();
	else if (m == "hugeshuffle") mode_hugeshuffle();
	else if (m == "text") mode_text();
	else if (m == "shuffle") mode_shuffle();
	else if (m == "streams") { seeded_source = false; mode_streams(th ? 400 : 14); }
	else if (m == "tsan") { seeded_source = false; mode_tsan(); }
	else if (m == "memory") mode_memory(th ? 3000 : 120);
	else if (m == "entropy") mode_entropy(th ? 12000 : 700);
}
