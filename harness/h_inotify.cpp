/* C37: inotify processing compared with a raw descriptor watching the same
 * directories (the kernel queues the same events for both). */
#include "sysmon.h"
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include "futils/inotify.h"
using namespace mon;
using sm::nfds;

static std::string base;

struct E {
	int wd; uint32_t mask, cookie, len; std::string name, pad;
	bool operator==(const E &o) const { return wd == o.wd && mask == o.mask && cookie == o.cookie && len == o.len && name == o.name; }
};
static std::string show(const E &e) { return fmt("{wd %d mask %x cookie %u len %u '%s'}", e.wd, e.mask, e.cookie, e.len, esc(e.name, 20).c_str()); }
static E from(const struct inotify_event *ev)
{
	E e{ev->wd, ev->mask, ev->cookie, ev->len, "", ""};
	if (ev->len) e.name = std::string(ev->name, strnlen(ev->name, ev->len));
	/* every byte of the event is readable */
	unsigned x = 0;
	for (uint32_t i = 0; i < ev->len; i++) x += (unsigned char)ev->name[i];
	e.pad = std::to_string(x);
	return e;
}
static std::vector<E> raw(int fd)
{
	std::vector<E> v;
	for (;;) {
		struct pollfd p = {fd, POLLIN, 0};
		if (poll(&p, 1, 0) <= 0) break;
		static char b[1 << 20] __attribute__((aligned(16)));
		ssize_t n = read(fd, b, sizeof(b));
		if (n <= 0) break;
		for (ssize_t o = 0; o < n;) { auto *ev = (struct inotify_event *)(b + o); v.push_back(from(ev)); o += (ssize_t)sizeof(*ev) + ev->len; }
	}
	return v;
}
static int pending(int fd) { int n = 0; ioctl(fd, FIONREAD, &n); return n; }

struct Ctx {
	std::vector<E> got;
	std::function<void()> act;  /* run inside the callback */
	void *self;
	size_t depth = 0;
};
static void cb(struct inotify_event *ev, void *data)
{
	Ctx *c = (Ctx *)data;
	if (c->self != c) { viol("the callback gets another user pointer", "-"); return; }
	if ((uintptr_t)ev % alignof(struct inotify_event)) viol("event not aligned", "-");
	c->got.push_back(from(ev));
	if (c->act) c->act();
}
static void process(int fd, Ctx &c)
{
	c.self = &c;
	size_t h0 = heap_bytes();
	size_t cap = c.got.capacity();
	if (pending(fd) > 700000) on_stack(512, [&] { inotify_process_fd(fd, cb, &c); });
	else inotify_process_fd(fd, cb, &c);
	(void)h0; (void)cap;
	tick();
}
static void same(const std::vector<E> &got, const std::vector<E> &want, const std::string &ctx)
{
	if (got == want) return;
	size_t i = 0;
	while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
	std::string d = fmt("%s: %zu events reported, %zu queued; first difference at %zu: %s, queued %s", ctx.c_str(), got.size(), want.size(), i, i < got.size() ? show(got[i]).c_str() : "nothing", i < want.size() ? show(want[i]).c_str() : "nothing");
	if (got.size() < want.size()) viol("events lost", d);
	else if (got.size() > want.size()) viol("events reported more than once", d);
	else viol("events changed or reordered", d);
}
/* ------------------------------------------------------ fs activity */
struct Play {
	std::vector<std::string> dirs;
	std::vector<std::string> files; /* full paths */
	uint64_t serial = 0;
	std::string name(Rng &r)
	{
		std::string s = std::to_string(serial++) + "_";
		static const size_t l[] = {1, 7, 8, 14, 15, 16, 17, 30, 31, 32, 47, 48, 63, 64, 127, 128, 200, 239, 240, 253, 254, 255};
		size_t n = r.chance(60) ? l[r.below(22)] : 1 + r.below(255);
		while (s.size() < n) s += (char)(r.chance(80) ? 'a' + r.below(26) : r.chance(50) ? 0x80 + r.below(127) : ' ' + r.below(14));
		return s.size() > 255 ? s.substr(0, 255) : s;
	}
	void step(Rng &r)
	{
		int x = (int)r.below(100);
		if (files.empty() || x < 40) {
			std::string p = dirs[r.below(dirs.size())] + "/" + name(r);
			int fd = open(p.c_str(), O_CREAT | O_WRONLY | O_CLOEXEC, 0644);
			if (fd < 0) return;
			if (r.chance(30) && write(fd, "xy", 2) != 2) harness_error("write");
			close(fd);
			files.push_back(p);
			return;
		}
		size_t i = r.below(files.size());
		std::string p = files[i];
		if (x < 55) { unlink(p.c_str()); files.erase(files.begin() + (long)i); }
		else if (x < 70) {
			std::string q = dirs[r.below(dirs.size())] + "/" + name(r);
			if (rename(p.c_str(), q.c_str()) == 0) files[i] = q;
		} else if (x < 80) { int fd = open(p.c_str(), O_RDWR | O_CLOEXEC); if (fd >= 0) { char b[4]; if (read(fd, b, 4) < 0 || pwrite(fd, "z", 1, 0) != 1) {} close(fd); } }
		else if (x < 85) chmod(p.c_str(), 0600 + (mode_t)r.below(64));
		else if (x < 90) { std::string d = dirs[0] + "/" + name(r); mkdir(d.c_str(), 0755); if (r.chance(50)) sm::spit(d + "/below", ""); unlink((d + "/below").c_str()); rmdir(d.c_str()); }
		else if (x < 95) { if (truncate(p.c_str(), (off_t)r.below(100))) {} }
		else { std::string q = dirs[r.below(dirs.size())] + "/" + name(r); if (link(p.c_str(), q.c_str()) == 0) files.push_back(q); }
	}
	void clean() { for (auto &f : files) unlink(f.c_str()); files.clear(); }
};
static uint32_t rmask(Rng &r)
{
	static const uint32_t m[] = {IN_CREATE, IN_CREATE | IN_DELETE, IN_ALL_EVENTS, IN_ALL_EVENTS, IN_CLOSE_WRITE | IN_MOVED_TO, IN_MOVE, IN_MODIFY | IN_ATTRIB, IN_ALL_EVENTS | IN_ONLYDIR, IN_ALL_EVENTS | IN_EXCL_UNLINK | IN_DONT_FOLLOW, IN_CREATE | IN_ONESHOT};
	return r.chance(70) ? m[r.below(10)] : (uint32_t)(1 + r.below(IN_ALL_EVENTS));
}
static void cloexec(int fd, const char *what)
{
	int f = fcntl(fd, F_GETFD);
	CHECK(f >= 0 && (f & FD_CLOEXEC), "descriptor not close-on-exec", "%s", what);
}
static void mode_diff()
{
	Rng &r = rng();
	int n = conf().thorough ? 6000 : 160;
	for (int it = 0; it < n; it++) {
		Play pl;
		pl.dirs = {base + "/a", base + "/b"};
		for (auto &d : pl.dirs) mkdir(d.c_str(), 0755);
		std::string watched = r.chance(80) ? pl.dirs[0] : base + "/onefile";
		bool onfile = watched != pl.dirs[0];
		if (onfile) sm::spit(watched, "");
		uint32_t mask = rmask(r);
		if (onfile) mask &= ~(uint32_t)IN_ONLYDIR;
		int f0 = nfds();
		int fd = [&] { HighFds h(r.chance(8)); return inotify_create(watched.c_str(), mask); }();
		if (fd < 0) { viol("creation on an existing path fails", fmt("mask %x", mask)); return; }
		cloexec(fd, "created descriptor");
		CHECK(nfds() == f0 + 1, "creation leaves other descriptors", "%d then %d", f0, nfds());
		int ref = inotify_init1(IN_CLOEXEC | IN_NONBLOCK);
		if (ref < 0 || inotify_add_watch(ref, watched.c_str(), mask) < 0) harness_error("inotify is not available");
		if (r.chance(50)) { uint32_t m2 = rmask(r) & ~(uint32_t)IN_ONESHOT; inotify_add_watch(fd, pl.dirs[1].c_str(), m2); inotify_add_watch(ref, pl.dirs[1].c_str(), m2); }
		if (onfile) pl.files.push_back(watched);
		int rounds = 1 + (int)r.below(12);
		for (int k = 0; k < rounds; k++) {
			int steps = r.chance(15) ? 0 : r.chance(10) ? 100 + (int)r.below(300) : (int)r.below(12);
			for (int s = 0; s < steps; s++) {
				if (onfile && r.chance(70)) { int w = open(watched.c_str(), O_RDWR | O_CLOEXEC); if (w >= 0) { if (r.chance(60) && write(w, "q", 1) != 1) {} close(w); } }
				else pl.step(r);
			}
			int q = pending(fd);
			auto want = raw(ref);
			size_t h0 = heap_bytes();
			Ctx c;
			c.got.reserve(want.size() + 10);
			process(fd, c);
			same(c.got, want, fmt("mask %x, %d bytes queued", mask, q));
			CHECK(pending(fd) == 0, "events left in the queue", "%d bytes of %d", pending(fd), q);
			stat("events reported", (int64_t)c.got.size());
			stat_max("largest batch (events)", (int64_t)c.got.size());
			if (q > 512) stat("batches above the stack buffer");
			if (q && q <= 512) stat("batches within the stack buffer");
			if (q >= 496 && q <= 528) stat("batches around the stack buffer size");
			if (!q) stat("nothing queued");
			for (auto &e : c.got) { if (e.len == 0) stat("events without name"); if (e.name.size() >= 250) stat("events with the longest names"); if (e.cookie) stat("renames"); }
			uint64_t h = 3;
			for (auto &e : c.got) h = mix(mix(h, e.mask), e.len);
			eval(mix(h, (uint64_t)q), q > 0);
			if (it < 2 && k < 2) sample(fmt("mask %x: %d bytes queued, %zu events", mask, q, c.got.size()));
			c.got = std::vector<E>();
			(void)h0;
		}
		inotify_destroy(fd);
		CHECK(fcntl(fd, F_GETFD) < 0, "descriptor still open after destroy", "-");
		close(ref);
		CHECK(nfds() == f0, "descriptor leaked", "%d then %d", f0, nfds());
		pl.clean();
		unlink(watched.c_str());
	}
	/* exact sizes around the limits of any fixed buffer: k events of len bytes */
	for (int len : {1, 15, 16, 31, 32, 47, 48, 100, 255}) for (int k = 1; k <= (conf().thorough ? 300 : 70); k++) {
		std::string d = base + "/a";
		mkdir(d.c_str(), 0755);
		int fd = inotify_create(d.c_str(), IN_CREATE), ref = inotify_init1(IN_CLOEXEC | IN_NONBLOCK);
		inotify_add_watch(ref, d.c_str(), IN_CREATE);
		std::vector<std::string> made;
		for (int i = 0; i < k && (len > 3 || i < 10); i++) {
			std::string nm = fmt("%d", i);
			if ((int)nm.size() < len) nm += std::string((size_t)len - nm.size(), 'n');
			made.push_back(d + "/" + nm);
			mkfifo(made.back().c_str(), 0600);
		}
		int q = pending(fd);
		auto want = raw(ref);
		Ctx c;
		process(fd, c);
		same(c.got, want, fmt("%d events of %d characters, %d bytes", k, len, q));
		Ctx none;
		process(fd, none);
		CHECK(none.got.empty(), "events reported more than once", "%zu after all were processed", none.got.size());
		stat("exact sizes");
		if (q == 512) stat("exactly 512 bytes");
		eval(mix((uint64_t)len, (uint64_t)k));
		inotify_destroy(fd);
		close(ref);
		for (auto &m : made) unlink(m.c_str());
	}
	/* large amounts queued, up to what the kernel keeps */
	int maxq = atoi(sm::slurp("/proc/sys/fs/inotify/max_queued_events").c_str());
	for (int round = 0; round < (conf().thorough ? 12 : 3); round++) {
		std::string d = base + "/a";
		mkdir(d.c_str(), 0755);
		int fd = inotify_create(d.c_str(), IN_CREATE), ref = inotify_init1(IN_CLOEXEC | IN_NONBLOCK);
		inotify_add_watch(ref, d.c_str(), IN_CREATE);
		size_t len = round % 3 == 0 ? 240 : 1 + r.below(255);
		int k = (int)r.range(2000, 16000);
		if (maxq > 100 && k > maxq - 10) k = maxq - 10;
		for (int i = 0; i < k; i++) {
			std::string nm = fmt("%d", i % 10);
			if (nm.size() < len) nm += std::string(len - nm.size(), 'a' + (char)(i / 10 % 26));
			nm = d + "/" + nm;
			if (mkfifo(nm.c_str(), 0600)) harness_error("mkfifo");
			unlink(nm.c_str());
			if (i % 500 == 0) tick();
		}
		int q = pending(fd);
		auto want = raw(ref);
		Ctx c;
		process(fd, c);
		same(c.got, want, fmt("%d events of %zu characters, %d bytes", k, len, q));
		stat(q > 1 << 20 ? "more than 1 MiB queued" : q > 1 << 16 ? "more than 64 KiB queued" : "large bursts");
		stat_max("max:bytes queued", q);
		eval(mix((uint64_t)q, (uint64_t)k));
		inotify_destroy(fd);
		close(ref);
	}
	/* memory: a warm process call takes and gives back the same amount */
	{
		std::string d = base + "/a";
		int fd = inotify_create(d.c_str(), IN_CREATE);
		for (int k = 0; k < 6; k++) {
			for (int i = 0; i < 40 * k; i++) { std::string p = d + fmt("/m%d", i); mkfifo(p.c_str(), 0600); unlink(p.c_str()); }
			static volatile int cnt;
			cnt = 0;
			size_t h0 = heap_bytes();
			inotify_process_fd(fd, [](struct inotify_event *, void *) { cnt++; }, nullptr);
			size_t h1 = heap_bytes();
			CHECK(h0 == h1, "memory leaked", "%d events: %zu bytes", (int)cnt, h1 - h0);
			CHECK(cnt == 40 * k, "events lost", "%d of %d", (int)cnt, 40 * k);
			stat("balances");
		}
		inotify_destroy(fd);
	}
}
/* callbacks which make new events, process again or change watches */
static void mode_reenter()
{
	Rng &r = rng();
	int n = conf().thorough ? 4000 : 150;
	std::string d = base + "/r";
	mkdir(d.c_str(), 0755);
	for (int it = 0; it < n; it++) {
		int fd = inotify_create(d.c_str(), IN_CREATE);
		if (fd < 0) { viol("creation on an existing path fails", "-"); return; }
		std::vector<std::string> created, seen;
		std::vector<std::string> all;
		auto mk = [&] { std::string nm = fmt("%zu", all.size()) + std::string(r.below(80), 'p'); all.push_back(nm); mkfifo((d + "/" + nm).c_str(), 0600); };
		int first = 1 + (int)r.below(r.chance(20) ? 200 : 20);
		for (int i = 0; i < first; i++) mk();
		bool nested = r.chance(40);
		int budget = (int)r.below(30), calls = 0;
		struct St2 { int fd; std::vector<std::string> order; std::function<void()> act; } s;
		s.fd = fd;
		bool in = false;
		size_t expect_at_entry = (size_t)first;
		s.act = [&] {
			if (in) return;
			if (budget > 0 && r.chance(50)) {
				budget--;
				mk();
				if (nested && r.chance(60)) {
					/* a nested call reports what was queued since */
					size_t before = s.order.size();
					in = true;
					int q = pending(fd);
					inotify_process_fd(fd, [](struct inotify_event *ev, void *x) { ((St2 *)x)->order.push_back("+" + std::string(ev->name)); }, &s);
					in = false;
					size_t k = s.order.size() - before;
					CHECK((k > 0) == (q > 0) && pending(fd) == 0, "events lost", "nested call with %d bytes queued reported %zu", q, k);
					stat("nested calls");
				}
			}
		};
		auto go = [&] {
			inotify_process_fd(fd, [](struct inotify_event *ev, void *x) { St2 *s = (St2 *)x; s->order.push_back(std::string(ev->name)); s->act(); }, &s);
			calls++;
			tick();
		};
		go();
		size_t outer = 0;
		for (auto &o : s.order) if (o[0] != '+') outer++;
		CHECK(outer == expect_at_entry, outer < expect_at_entry ? "events lost" : "events queued later reported in the same call", "%zu events queued, %zu reported", expect_at_entry, outer);
		while (pending(fd) > 0 && calls < 100) go();
		/* every name exactly once, the ones of each level in order */
		std::vector<std::string> got;
		for (auto &o : s.order) got.push_back(o[0] == '+' ? o.substr(1) : o);
		auto a = got, b = all;
		std::sort(a.begin(), a.end());
		std::sort(b.begin(), b.end());
		CHECK(a == b, got.size() < all.size() ? "events lost" : "events reported more than once", "%zu reported of %zu", got.size(), all.size());
		if (!nested) CHECK(got == all, "events changed or reordered", "%zu events", got.size());
		eval(mix(mix((uint64_t)first, all.size()), nested));
		stat("callbacks making events", (int64_t)all.size() - first);
		inotify_destroy(fd);
		for (auto &x : all) unlink((d + "/" + x).c_str());
	}
}
/* generators running while events are processed */
static void mode_live()
{
	Rng &r = rng();
	int rounds = conf().thorough ? 120 : 3;
	for (int it = 0; it < rounds; it++) {
		const int G = 3;
		std::string d = base + "/live";
		mkdir(d.c_str(), 0755);
		int fd = [&] { HighFds h(r.chance(20)); return inotify_create(d.c_str(), IN_CREATE); }();
		if (fd < 0) { viol("creation on an existing path fails", "-"); return; }
		struct A { std::string d; int g, n; uint64_t seed; std::atomic<int> *alive; };
		std::atomic<int> alive{G};
		int per = conf().thorough ? 3000 : 1500;
		std::vector<A> as;
		for (int g = 0; g < G; g++) as.push_back({d, g, per, r.u64(), &alive});
		std::vector<pthread_t> th(G);
		for (int g = 0; g < G; g++) pthread_create(&th[(size_t)g], nullptr, [](void *x) -> void * {
			A *a = (A *)x;
			Rng q(a->seed);
			for (int i = 0; i < a->n; i++) {
				std::string p = a->d + fmt("/%d.%d.", a->g, i) + std::string(q.below(q.chance(10) ? 230 : 30), 'l');
				mkfifo(p.c_str(), 0600);
				unlink(p.c_str());
				if (q.below(40) == 0) nap(0.0001 * (double)q.below(10));
			}
			a->alive->fetch_sub(1);
			return nullptr;
		}, &as[(size_t)g]);
		struct S { std::vector<int> next; int bad = 0; int64_t n = 0; std::string what; } s;
		s.next.resize(G, 0);
		int64_t calls = 0, mx = 0;
		for (;;) {
			bool last = alive == 0;
			struct pollfd p = {fd, POLLIN, 0};
			int pr = poll(&p, 1, last ? 0 : 5);
			if (pr > 0) {
				if (r.below(5) == 0) nap(0.0005 * (double)r.below(8));
				int64_t n0 = s.n;
				inotify_process_fd(fd, [](struct inotify_event *ev, void *x) {
					S *s = (S *)x;
					int g, i;
					s->n++;
					if (sscanf(ev->name, "%d.%d.", &g, &i) != 2 || g < 0 || g >= G) { s->bad++; s->what = fmt("event with name '%s' mask %x", ev->len ? ev->name : "", ev->mask); return; }
					if (i != s->next[(size_t)g] && !s->bad++) s->what = fmt("generator %d: %d after %d", g, i, s->next[(size_t)g] - 1);
					s->next[(size_t)g] = i + 1;
				}, &s);
				mx = std::max(mx, s.n - n0);
				if (s.n == n0) viol("events lost", "readable descriptor but no event reported");
				calls++;
				tick();
			} else if (last) break;
		}
		for (auto &t : th) pthread_join(t, nullptr);
		CHECK(!s.bad, "events lost, repeated or reordered", "%s", s.what.c_str());
		CHECK(s.n == (int64_t)per * G, s.n < (int64_t)per * G ? "events lost" : "events reported more than once", "%lld of %d", (long long)s.n, per * G);
		stat("live events", s.n);
		stat("live calls", calls);
		stat_max("largest live batch", mx);
		eval(mix((uint64_t)calls, (uint64_t)mx));
		inotify_destroy(fd);
	}
	/* overflow of the kernel queue */
	std::string lim = sm::slurp("/proc/sys/fs/inotify/max_queued_events");
	int maxq = atoi(lim.c_str());
	if (maxq > 0 && maxq <= 70000) {
		std::string d = base + "/ov";
		mkdir(d.c_str(), 0755);
		for (int rep = 0; rep < (conf().thorough ? 8 : 2); rep++) {
			int fd = inotify_create(d.c_str(), IN_CREATE), ref = inotify_init1(IN_CLOEXEC | IN_NONBLOCK);
			inotify_add_watch(ref, d.c_str(), IN_CREATE);
			for (int i = 0; i < maxq + 50; i++) { std::string p = d + fmt("/o%d", i); mkfifo(p.c_str(), 0600); unlink(p.c_str()); if (i % 500 == 0) tick(); }
			/* room is made again and more happens: the overflow is followed by events */
			bool refill = rep % 2 == 0;
			if (refill) {
				int serial = 0;
				for (int k = 0, rounds = (int)r.range(1, 4); k < rounds; k++) {
					static char x[1 << 16], y[1 << 16];
					size_t room = (size_t)r.range(2000, 1 << 16);
					ssize_t a = read(fd, x, room), b = read(ref, y, room);
					CHECK(a == b, "events lost", "%zd bytes, %zd queued", a, b);
					for (int i = 0, n = (int)r.range(1, k ? 4000 : 300); i < n; i++) { std::string p = d + fmt("/r%d", serial++); mkfifo(p.c_str(), 0600); unlink(p.c_str()); }
				}
			}
			auto want = raw(ref);
			Ctx c;
			int guard = 0;
			while (pending(fd) > 0 && guard++ < 5000) process(fd, c);
			same(c.got, want, "overflow");
			if (refill) {
				size_t ov = 0, behind = 0;
				for (auto &e : want) { if (e.mask == IN_Q_OVERFLOW) ov++; else if (ov) behind++; }
				if (!behind) harness_error("no event behind the overflow");
				stat("events behind an overflow", (int64_t)behind);
				stat("overflows");
				eval(mix(78, c.got.size()));
				inotify_destroy(fd);
				close(ref);
				continue;
			}
			bool ov = !c.got.empty() && c.got.back().mask == IN_Q_OVERFLOW && c.got.back().wd == -1;
			CHECK(ov, "queue overflow not reported", "%zu events", c.got.size());
			stat("overflows");
			stat("overflow events", (int64_t)c.got.size());
			eval(mix(77, c.got.size()));
			inotify_destroy(fd);
			close(ref);
		}
	}
}
static void mode_create()
{
	Rng &r = rng();
	std::string d = base + "/c";
	mkdir(d.c_str(), 0755);
	sm::spit(d + "/f", "");
	auto refuse = [&](const char *what, const char *path, uint32_t mask) {
		for (int k = 0; k < 3; k++) {
			int f0 = nfds();
			size_t h0 = heap_bytes();
			int fd = inotify_create(path, mask);
			size_t h1 = heap_bytes();
			CHECK(fd == -1, "creation which must fail returns something else than -1", "%s: %d", what, fd);
			CHECK(nfds() == f0, "failed creation leaks a descriptor", "%s: %d then %d", what, f0, nfds());
			if (k) CHECK(h0 == h1, "failed creation leaks memory", "%s: %zd bytes", what, (ssize_t)(h1 - h0));
			stat("refused creations");
			eval(mix(hstr(what, strlen(what)), (uint64_t)k));
		}
	};
	refuse("missing path", (d + "/none").c_str(), IN_ALL_EVENTS);
	refuse("empty path", "", IN_ALL_EVENTS);
	refuse("no event", d.c_str(), 0);
	refuse("directory wanted", (d + "/f").c_str(), IN_ALL_EVENTS | IN_ONLYDIR);
	refuse("below a file", (d + "/f/x").c_str(), IN_ALL_EVENTS);
	refuse("long path", std::string(5000, 'a').c_str(), IN_ALL_EVENTS);
	/* descriptor 0 free: it is a valid descriptor */
	{
		int keep = fcntl(0, F_DUPFD_CLOEXEC, 100);
		close(0);
		int fd = inotify_create(d.c_str(), IN_CREATE);
		CHECK(fd >= 0, "creation on an existing path fails", "descriptor 0 was free: %d", fd);
		if (fd >= 0) {
			cloexec(fd, "descriptor 0");
			mkfifo((d + "/zero").c_str(), 0600);
			Ctx c;
			process(fd, c);
			CHECK(c.got.size() == 1 && c.got[0].name == "zero", "events lost", "descriptor %d", fd);
			unlink((d + "/zero").c_str());
			inotify_destroy(fd);
			CHECK(fcntl(fd, F_GETFD) < 0, "descriptor still open after destroy", "descriptor %d", fd);
			stat("descriptor 0");
		}
		int f0 = nfds();
		int bad = inotify_create((d + "/none").c_str(), IN_CREATE);
		CHECK(bad == -1 && nfds() == f0 && fcntl(0, F_GETFD) < 0, "failed creation leaks a descriptor", "descriptor 0 was free");
		dup2(keep, 0);
		close(keep);
	}
	/* destroy of a failed creation */
	{
		int f0 = nfds();
		inotify_destroy(-1);
		CHECK(nfds() == f0, "destroying nothing closes a descriptor", "-");
	}
	/* histories, with descriptors running out */
	int n = conf().thorough ? 3000 : 120;
	for (int it = 0; it < n; it++) {
		struct rlimit old, lim;
		getrlimit(RLIMIT_NOFILE, &old);
		int f0 = nfds();
		lim = old;
		int room = (int)r.below(8);
		std::vector<int> open_;
		lim.rlim_cur = (rlim_t)(f0 + 1 + room); /* nfds itself opens one */
		bool tight = r.chance(60);
		if (tight) setrlimit(RLIMIT_NOFILE, &lim);
		for (int k = 0; k < 20; k++) {
			if (r.chance(60)) {
				bool good = r.chance(70);
				int fd = inotify_create(good ? d.c_str() : (d + "/none").c_str(), IN_CREATE);
				if (fd >= 0) {
					CHECK(good, "creation which must fail returns something else than -1", "%d", fd);
					cloexec(fd, "created descriptor");
					open_.push_back(fd);
				} else {
					CHECK(fd == -1, "creation which must fail returns something else than -1", "%d", fd);
					CHECK(!good || tight, "creation on an existing path fails", "%zu open", open_.size());
					stat(good ? "no descriptor left" : "failed creations");
				}
			} else if (!open_.empty()) {
				size_t i = r.below(open_.size());
				inotify_destroy(open_[i]);
				open_.erase(open_.begin() + (long)i);
			}
		}
		setrlimit(RLIMIT_NOFILE, &old);
		CHECK(nfds() == f0 + (int)open_.size(), "descriptor leaked", "%d, expected %d", nfds(), f0 + (int)open_.size());
		for (int fd : open_) inotify_destroy(fd);
		CHECK(nfds() == f0, "descriptor leaked", "%d, expected %d", nfds(), f0);
		eval(mix(mix((uint64_t)room, tight), open_.size()));
		tick();
	}
	/* each system call of a creation failing */
	int *shf = (int *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	auto traced = [&](const sm::Plan &p) {
		shf[0] = -99; shf[3] = 0;
		return sm::run([&] {
			shf[1] = nfds();
			sm::begin();
			shf[0] = inotify_create(d.c_str(), IN_CREATE);
			sm::end();
			shf[2] = nfds();
			shf[3] = 1;
		}, p);
	};
	sm::Out clean = traced(sm::Plan());
	for (size_t k = 0; k < clean.ev.size(); k++) {
		long nr = clean.ev[k].nr;
		if (nr != SYS_inotify_init && nr != SYS_inotify_init1 && nr != SYS_inotify_add_watch) continue;
		for (int e : {EMFILE, ENFILE, ENOMEM, ENOSPC, EACCES}) {
			sm::Plan p;
			p.faults[(int)k] = {e, -1};
			sm::Out o = traced(p);
			std::string ctx = fmt("%s failing with %d", sm::str(clean.ev[k]).c_str(), e);
			if (!shf[3]) { viol("process ended before the call returned", ctx + fmt(" signal %d", o.sig)); continue; }
			CHECK(shf[0] == -1, "creation which must fail returns something else than -1", "%s: %d", ctx.c_str(), shf[0]);
			CHECK(shf[1] == shf[2], "failed creation leaks a descriptor", "%s: %d then %d", ctx.c_str(), shf[1], shf[2]);
			stat("failing system calls");
			eval(mix((uint64_t)nr, (uint64_t)e));
		}
	}
	/* a read which fails loses nothing and leaks nothing */
	int64_t *shm = (int64_t *)(shf + 16);
	for (int it = 0; it < (conf().thorough ? 60 : 8); it++) {
		int cnt = it % 2 ? 20 + (int)r.below(80) : 1 + (int)r.below(8);
		auto burst = [&](const sm::Plan &p) {
			memset(shf, 0, 256);
			return sm::run([&] {
				int fd = inotify_create(d.c_str(), IN_CREATE);
				for (int k = 0; k < cnt; k++) { std::string nm = d + fmt("/q%d", k); mkfifo(nm.c_str(), 0600); unlink(nm.c_str()); }
				static int n;
				static bool ordered = true;
				auto cb = [](struct inotify_event *e, void *) { if (atoi(e->name + 1) != n) ordered = false; n++; };
				int f0 = nfds();
				int64_t b0 = (int64_t)heap_bytes();
				sm::begin();
				inotify_process_fd(fd, cb, nullptr);
				sm::end();
				shm[0] = (int64_t)heap_bytes() - b0;
				shf[0] = nfds() - f0;
				shf[1] = n;
				inotify_process_fd(fd, cb, nullptr);
				shf[2] = n;
				shf[3] = ordered;
				shf[4] = 1;
				inotify_destroy(fd);
			}, p);
		};
		sm::Out cl = burst(sm::Plan());
		CHECK(shf[4] && shf[1] == cnt && shf[2] == cnt && shf[3], "events lost", "%d queued, %d reported", cnt, shf[1]);
		for (size_t k = 0; k < cl.ev.size(); k++) for (int e : {EINTR, EIO, EAGAIN, ENOMEM}) {
			sm::Plan p;
			p.faults[(int)k] = {e, -1};
			sm::Out o = burst(p);
			std::string ctx = fmt("%d events queued, %s failing with %d", cnt, sm::str(cl.ev[k]).c_str(), e);
			if (!shf[4]) { viol("process ended before the call returned", ctx + fmt(" signal %d", o.sig)); continue; }
			CHECK(shf[2] == cnt && shf[3], "events lost", "%s: %d then %d reported", ctx.c_str(), shf[1], shf[2]);
			CHECK(shf[0] == 0 && shm[0] == 0, "descriptor or memory leaked by a failing read", "%s: %d descriptors, %lld bytes", ctx.c_str(), shf[0], (long long)shm[0]);
			stat("failing reads");
			eval(mix(mix((uint64_t)cnt, (uint64_t)e), (uint64_t)cl.ev[k].nr));
		}
	}
	/* the descriptor does not survive an exec: shown with C38 as well */
}
void mon::run()
{
	watchdog(20);
	base = scratch("ino");
	const std::string &m = conf().mode;
	if (m == "diff") mode_diff();
	else if (m == "reenter") mode_reenter();
	else if (m == "live") mode_live();
	else mode_create();
}
