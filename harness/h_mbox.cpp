/* C01, C02, C05 (fixed-size part), C07 (tsan build): mbox. */
#include "wrapdelay.h"
#include "futils/mbox.h"
#include <sys/resource.h>
using namespace mon;

static bool readable(struct mbox *b)
{
	int r = wd::rpoll(mbox_get_read_fd(b), POLLIN, 0);
	return r > 0 && (r & POLLIN);
}
static int slots(struct mbox *b)
{
	int sz = fcntl(mbox_get_read_fd(b), F_GETPIPE_SZ);
	return sz < 4096 ? 0 : sz / 4096;
}

/* message content: exact-size heap block so that ASan sees both ends */
struct Msg {
	uint8_t *p;
	size_t n;
	explicit Msg(size_t n_) : p((uint8_t *)malloc(n_)), n(n_) {}
	~Msg() { free(p); }
	Msg(const Msg &) = delete;
};
static void compose(uint8_t *p, size_t n, unsigned id, uint32_t seq)
{
	uint64_t x = (uint64_t)id * 0x9e3779b97f4a7c15ull + (uint64_t)seq * 0xc2b2ae3d27d4eb4full + 1;
	for (size_t i = 0; i < n; i++) {
		x ^= x << 13; x ^= x >> 7; x ^= x << 17;
		p[i] = (uint8_t)(x >> 32);
	}
	if (n >= 12) {
		p[0] = (uint8_t)id;
		memcpy(p + 1, &seq, 4);
	} else p[0] = (uint8_t)(id << 5 | (seq & 31));
}

/* ---------------- single threaded histories ---------------- */
static struct mbox *fresh(size_t size)
{
	HighFds h(rng().chance(8));
	return LIB(mbox_new(size));
}
static void history(size_t size, int steps)
{
	Rng &r = rng();
	wd::pipe_bytes = r.chance(20) ? r.chance(50) ? 4096 : 8192 : 0;
	struct mbox *b = fresh(size);
	wd::pipe_bytes = 0;
	if (!b) { viol("creation refused", fmt("message size %zu", size)); return; }
	std::deque<uint32_t> q;
	uint32_t seq = 0;
	int sl = slots(b), bias = (int)r.range(30, 95);
	unsigned who = (unsigned)r.below(7);
	for (int s = 0; s < steps; s++) {
		int op = r.chance((unsigned)bias) ? 0 : 1;
		if (r.below(60) == 0) op = 2 + (int)r.below(4);
		if (r.below(80) == 0) bias = (int)r.range(5, 95);
		Msg m(size);
		int rc = 0;
		switch (op) {
		case 0: {
			compose(m.p, size, who, seq);
			Msg copy(size);
			memcpy(copy.p, m.p, size);
			bool block = r.chance(20);
			const uint8_t *src = r.chance(20) ? (const uint8_t *)read_only<0>(m.p, size) : m.p;
			rc = block ? LIB(mbox_push_block(b, src, 1 + (unsigned)r.below(3))) : LIB(mbox_push(b, src));
			CHECK(!memcmp(copy.p, m.p, size), "push changes the message", "size %zu", size);
			if (rc == 0) { q.push_back(seq); stat("pushed"); }
			else if (block) {
				/* waits for PIPE_BUF bytes of room, by design */
				CHECK(rc == -ETIMEDOUT, "push_block error", "rc=%d", rc);
				CHECK(sl == 0 || (int)q.size() + 1 >= sl, "push_block times out on a mailbox with room", "%zu of %d pages pending, size %zu", q.size(), sl, size);
				stat("block timeouts");
			} else {
				CHECK(rc == -EAGAIN, "push error", "rc=%d with %zu pending of %zu bytes", rc, q.size(), size);
				CHECK(sl == 0 || (int)q.size() >= sl, "push refused on a mailbox with room", "%zu messages of %zu bytes pending", q.size(), size);
				stat("refused when full");
			}
			seq++;
			break; }
		case 1: {
			Msg want(size);
			uint8_t can = (uint8_t)r.u64();
			memset(m.p, can, size);
			rc = LIB(mbox_peek(b, m.p));
			if (q.empty()) {
				CHECK(rc < 0 && rc == -EAGAIN, "peek of an empty mailbox", "rc=%d", rc);
				bool same = true;
				for (size_t i = 0; i < size; i++) same &= m.p[i] == can;
				CHECK(same, "failed peek changes the buffer", "size %zu", size);
				stat("peeks when empty");
			} else {
				CHECK(rc == 0, "peek error", "rc=%d with %zu pending of %zu bytes", rc, q.size(), size);
				compose(want.p, size, who, q.front());
				if (rc == 0 && memcmp(want.p, m.p, size)) {
					viol("message not delivered in order or altered", fmt("size %zu expected seq %u (%zu pending) got %s", size, q.front(), q.size(), esc(m.p, size, 24).c_str()));
					return;
				}
				if (rc == 0) q.pop_front();
				stat("peeked");
			}
			break; }
		case 2: rc = LIB(mbox_push(b, nullptr)); CHECK(rc == -EINVAL, "push of NULL", "rc=%d", rc); break;
		case 3: rc = LIB(mbox_peek(b, nullptr)); CHECK(rc == -EINVAL, "peek into NULL", "rc=%d", rc); break;
		case 4: rc = LIB(mbox_push_block(b, nullptr, 5)); CHECK(rc == -EINVAL, "push_block of NULL", "rc=%d", rc); break;
		default:
			CHECK(LIB(mbox_push(nullptr, m.p)) == -EINVAL && LIB(mbox_peek(nullptr, m.p)) == -EINVAL && LIB(mbox_push_block(nullptr, m.p, 1)) == -EINVAL && mbox_get_read_fd(nullptr) == -1,
			      "NULL mailbox", "not refused");
			break;
		}
		bool rd = readable(b);
		CHECK(rd == !q.empty(), rd ? "read fd readable on an empty mailbox" : "read fd not readable with messages pending", "%zu pending after op %d rc %d", q.size(), op, rc);
		eval(mix(mix(size, (uint64_t)op), mix(q.size(), (uint64_t)(rc + 200))));
		stat_max("max:pending", (int64_t)q.size());
	}
	if (r.below(25) == 0) sample(fmt("size %zu: %d calls, %u pushes tried, %zu pending at the end", size, steps, seq, q.size()));
	LIB((mbox_destroy(b), 0));
}

static void creation()
{
	for (size_t n : {(size_t)0, (size_t)PIPE_BUF, (size_t)PIPE_BUF + 1, (size_t)65536, (size_t)INT_MAX, (size_t)INT_MAX + 1, (size_t)UINT_MAX, (size_t)UINT_MAX + 2, (size_t)1 << 63, SIZE_MAX}) {
		struct mbox *b = LIB(mbox_new(n));
		CHECK(!b, "creation with an invalid size", "size %zu accepted", n);
		if (b) LIB((mbox_destroy(b), 0));
		eval(mix(n, 0xc));
	}
	/* every valid size: one message through */
	size_t step = conf().thorough ? 1 : 7;
	for (size_t n = 1; n < PIPE_BUF; n += (n < 40 || n > PIPE_BUF - 40) ? 1 : step) {
		struct mbox *b = LIB(mbox_new(n));
		if (!b) { viol("creation refused", fmt("message size %zu", n)); continue; }
		Msg m(n), o(n);
		int k = 0;
		for (; k < 3; k++) {
			compose(m.p, n, 3, (uint32_t)k);
			CHECK(LIB(mbox_push(b, m.p)) == 0, "push refused on a mailbox with room", "size %zu message %d", n, k);
		}
		for (int i = 0; i < k; i++) {
			compose(m.p, n, 3, (uint32_t)i);
			CHECK(LIB(mbox_peek(b, o.p)) == 0 && !memcmp(o.p, m.p, n), "message not delivered in order or altered", "size %zu message %d", n, i);
		}
		LIB((mbox_destroy(b), 0));
		eval(mix(n, 0xd));
		stat("sizes created");
	}
	LIB((mbox_destroy(nullptr), 0));
}

/* timeouts of every magnitude, on a mailbox with room */
static void timeouts_with_room()
{
	Rng &r = rng();
	for (int it = 0; it < (conf().thorough ? 400 : 40); it++) {
		size_t size = r.chance(50) ? 1 + r.below(64) : 1 + r.below(PIPE_BUF - 1);
		struct mbox *b = fresh(size);
		if (!b) { viol("creation refused", fmt("message size %zu", size)); return; }
		std::deque<uint32_t> q;
		for (uint32_t k = 0; k < 40; k++) {
			unsigned t = r.pick(std::vector<unsigned>{0, 1, 1000, 4294967, 4294968, INT_MAX - 1u, INT_MAX, INT_MAX + 1u, INT_MAX + 2u, UINT_MAX - 1, UINT_MAX, (unsigned)r.u64()});
			Msg m(size);
			compose(m.p, size, 2, k);
			int rc = LIB(mbox_push_block(b, m.p, t));
			CHECK(rc <= 0 && (rc == 0 || t > INT_MAX), "push_block error", "rc=%d on a mailbox with room, timeout %u", rc, t);
			if (rc == 0) q.push_back(k);
			else stat("timeouts refused");
			stat("timeouts with room");
			bool rd = readable(b);
			CHECK(rd == !q.empty(), rd ? "push_block queues a message it refuses" : "push_block reports success and queues nothing", "timeout %u: rc=%d", t, rc);
			eval(mix(mix(0x7107, t), size));
			while (!q.empty() && (q.size() > 3 || r.chance(60))) {
				Msg o(size), w(size);
				rc = LIB(mbox_peek(b, o.p));
				compose(w.p, size, 2, q.front());
				if (rc != 0 || memcmp(o.p, w.p, size)) { viol("push_block reports success and queues nothing", fmt("or something else: timeout %u, size %zu, peek rc=%d", t, size, rc)); LIB((mbox_destroy(b), 0)); return; }
				q.pop_front();
			}
		}
		LIB((mbox_destroy(b), 0));
		tick();
	}
}

/* one mailbox in use for a long time */
static void marathon(uint64_t count, size_t size)
{
	Rng &r = rng();
	struct mbox *b = fresh(size);
	if (!b) { viol("creation refused", fmt("message size %zu", size)); return; }
	Msg m(size), o(size);
	r.fill(m.p, size);
	Msg c(size);
	memcpy(c.p, m.p, size);
	uint64_t pushed = 0, peeked = 0;
	auto stamp = [&](uint8_t *p, uint64_t v) {
		if (size >= 8) { memcpy(p, &v, 8); memcpy(p + size - 8, &v, 8); }
		else memcpy(p, &v, size);
	};
	bool good = true;
	uint64_t depth = 1;
	while (good && pushed < count) {
		if (r.below(200) == 0) depth = r.chance(50) ? 1 : 1 + r.below(20);
		for (uint64_t k = 0; good && k < depth && pushed < count; k++) {
			stamp(m.p, pushed);
			int rc = r.below(64) || pushed - peeked > 6 ? LIB(mbox_push(b, m.p)) : LIB(mbox_push_block(b, m.p, 1000));
			if (rc == -EAGAIN && pushed - peeked >= 4096 / size && pushed > peeked) break;
			if (rc != 0) { viol("push error", fmt("marathon: rc=%d with %" PRIu64 " pending after %" PRIu64, rc, pushed - peeked, pushed)); good = false; }
			else pushed++;
		}
		while (good && peeked < pushed) {
			int rc = LIB(mbox_peek(b, o.p));
			stamp(c.p, peeked);
			if (rc != 0 || memcmp(o.p, c.p, size)) { viol("message not delivered in order or altered", fmt("marathon: size %zu rc=%d message %" PRIu64 " of %" PRIu64, size, rc, peeked, pushed)); good = false; }
			peeked++;
		}
		tick();
		if (r.below(64) == 0 && readable(b)) { viol("read fd readable on an empty mailbox", fmt("after %" PRIu64 " messages", pushed)); good = false; }
	}
	CHECK(!good || LIB(mbox_peek(b, o.p)) == -EAGAIN, "peek of an empty mailbox", "after %" PRIu64 " messages", pushed);
	eval(mix(mix(count, size), 0xf));
	stat("pushed", (int64_t)pushed);
	stat("peeked", (int64_t)peeked);
	stat_max("max:messages through one mailbox", (int64_t)pushed);
	LIB((mbox_destroy(b), 0));
}
/* many mailboxes at once, with large descriptor numbers */
static void crowd(int count)
{
	Rng &r = rng();
	struct rlimit rl;
	getrlimit(RLIMIT_NOFILE, &rl);
	rl.rlim_cur = rl.rlim_max < 8192 ? rl.rlim_max : 8192;
	setrlimit(RLIMIT_NOFILE, &rl);
	/* few pipes: the system shrinks the pipes of a user who has many */
	std::vector<int> spare;
	auto take_numbers = [&](std::vector<int> &v) {
		int fd = open("/dev/null", O_RDONLY | O_CLOEXEC);
		while (fd >= 0 && fd < 1500) { v.push_back(fd); fd = fcntl(fd, F_DUPFD_CLOEXEC, 0); }
		if (fd >= 0) v.push_back(fd);
	};
	std::vector<struct mbox *> B;
	std::vector<size_t> S;
	std::vector<std::deque<uint32_t>> Q;
	for (int i = 0; i < count; i++) {
		if (i == count / 2) take_numbers(spare);
		size_t size = 1 + r.below(i % 10 ? 100 : PIPE_BUF - 1);
		struct mbox *b = fresh(size);
		if (!b) { CHECK(spare.size() + (size_t)i * 3 + 100 > rl.rlim_cur, "creation refused", "mailbox number %d", i); break; }
		B.push_back(b);
		S.push_back(size);
		stat_max("max:descriptor", mbox_get_read_fd(b));
	}
	Q.resize(B.size());
	uint32_t seq = 0;
	auto put = [&](size_t i, unsigned tmo) {
		Msg m(S[i]);
		compose(m.p, S[i], (unsigned)(i % 7), seq);
		int rc = tmo ? LIB(mbox_push_block(B[i], m.p, tmo)) : LIB(mbox_push(B[i], m.p));
		if (rc == 0) Q[i].push_back(seq);
		seq++;
		stat("pushed");
		return rc;
	};
	auto get = [&](size_t i) {
		Msg m(S[i]), w(S[i]);
		compose(w.p, S[i], (unsigned)(i % 7), Q[i].front());
		int rc = LIB(mbox_peek(B[i], m.p));
		if (rc != 0 || memcmp(m.p, w.p, S[i])) { viol("message not delivered in order or altered", fmt("one of many: size %zu rc=%d", S[i], rc)); return false; }
		Q[i].pop_front();
		stat("peeked");
		return true;
	};
	bool good = true;
	for (size_t s = 0; good && s < B.size() * 60; s++) {
		size_t i = r.chance(30) ? (r.chance(50) ? 0 : B.size() - 1) : r.below(B.size());
		if (r.chance(55)) {
			size_t before = Q[i].size();
			int rc = put(i, r.chance(20) && before < 8 ? 1000 : 0);
			int sl = slots(B[i]);
			CHECK(rc == 0 || (rc == -EAGAIN && before > 0 && (sl == 0 || (int)before >= sl)), "push error", "one of many: rc=%d with %zu pending of %zu bytes", rc, before, S[i]);
		} else if (!Q[i].empty()) good = get(i);
		bool rd = readable(B[i]);
		CHECK(rd == !Q[i].empty(), rd ? "read fd readable on an empty mailbox" : "read fd not readable with messages pending", "one of many: %zu pending", Q[i].size());
		eval(mix(0x77, mix(i, Q[i].size())));
	}
	for (size_t i : {(size_t)0, B.size() / 2, B.size() - 1}) {
		while (put(i, 0) == 0) {}
		double t0 = now();
		int rc = put(i, 20);
		double el = now() - t0;
		CHECK(rc == -ETIMEDOUT && el > 0.018, "push_block error", "one of many, full: rc=%d after %.1f ms", rc, el * 1e3);
	}
	for (size_t i = 0; i < B.size(); i++) {
		while (good && !Q[i].empty()) good = get(i);
		LIB((mbox_destroy(B[i]), 0));
	}
	for (int fd : spare) close(fd);
	stat_max("max:mailboxes at once", (int64_t)B.size());
}

/* ---------------- concurrency ---------------- */
static void on_sig(int) {}
struct Prod {
	unsigned id;
	pthread_t th;
	std::vector<uint32_t> accepted;
	std::atomic<bool> done{false};
};
static void round_mt(int idx, bool signals, bool tsan)
{
	Rng &r = rng();
	unsigned np = 1 + (unsigned)r.below(6);
	size_t size = r.pick(std::vector<size_t>{1, 2, 8, 12, 13, 64, 500, 1000, 2047, 2048, 4000, 4090, 4095});
	if (r.chance(30)) size = 1 + r.below(PIPE_BUF - 1);
	uint32_t count = (uint32_t)r.range(30, tsan ? 120 : (size > 500 ? 160 : 400));
	wd::pipe_bytes = r.chance(25) ? r.chance(50) ? 4096 : 8192 : 0;
	struct mbox *b = fresh(size);
	wd::pipe_bytes = 0;
	if (!b) { viol("creation refused", fmt("message size %zu", size)); return; }
	/* kinds: 0 non-blocking, 1 blocking for ever, 2 blocking with timeouts */
	int kind = (int)r.below(4);
	int cons = (int)r.below(4); /* 0 one peek per event, 1 drain per event, 2 greedy, 3 slow */
	unsigned dp = (unsigned)r.pick(std::vector<int>{0, 5, 30, 60});
	unsigned ei = (unsigned)r.pick(std::vector<int>{0, 0, 3, 15}), ea = (unsigned)r.pick(std::vector<int>{0, 0, 5, 40});
	bool prefill = r.chance(40) && (size >= 64 || r.chance(10));
	std::atomic<bool> stop{false};
	std::vector<std::unique_ptr<Prod>> P;
	struct Arg { Prod *p; struct mbox *b; size_t size; uint32_t count; int kind; uint64_t seed; unsigned dp, ei, ea; };
	std::vector<std::unique_ptr<Arg>> A;
	std::atomic<int> left{(int)np};
	if (prefill) { /* producer 7 fills it first */
		P.emplace_back(new Prod);
		P[0]->id = 7;
		for (uint32_t s = 0;; s++) {
			Msg m(size);
			compose(m.p, size, 7, s);
			if (LIB(mbox_push(b, m.p)) != 0) break;
			P[0]->accepted.push_back(s);
		}
	}
	for (unsigned i = 0; i < np; i++) {
		P.emplace_back(new Prod);
		P.back()->id = i;
		int k = kind == 3 ? (int)r.below(3) : kind;
		A.emplace_back(new Arg{P.back().get(), b, size, count, k, r.u64(), dp, ei, ea});
	}
	static std::atomic<int> *leftp;
	leftp = &left;
	for (auto &a : A)
		pthread_create(&a->p->th, nullptr, [](void *x) -> void * {
			Arg &a = *(Arg *)x;
			wd::seed(a.seed, a.dp, a.ei, a.kind ? a.ea : 0);
			Rng r(a.seed);
			for (uint32_t s = 0; s < a.count; s++) {
				Msg m(a.size);
				compose(m.p, a.size, a.p->id, s);
				for (;;) {
					int rc;
					unsigned tmo = a.kind == 2 ? 1 + (unsigned)r.below(6) : 0;
					if (a.kind == 2 && r.chance(10)) tmo = (unsigned)r.pick(std::vector<int>{1000, 100000, INT_MAX});
					double t0 = now();
					rc = a.kind == 0 ? LIB(mbox_push(a.b, m.p)) : LIB(mbox_push_block(a.b, m.p, tmo));
					double el = now() - t0;
					if (rc == 0) tick(); /* a refused push is no progress */
					if (rc == 0) { a.p->accepted.push_back(s); break; }
					if (a.kind == 0 && rc == -EAGAIN) { stat("refused when full"); usleep((useconds_t)r.below(300)); continue; }
					if (a.kind == 2 && rc == -ETIMEDOUT) {
						stat("block timeouts");
						CHECK(el * 1e3 >= tmo - 0.5, "push_block timed out early", "timeout %u ms, elapsed %.3f ms", tmo, el * 1e3);
						if (a.size >= 12) break; /* never queued: must never be delivered */
						continue;
					}
					viol(a.kind ? "push_block error" : "push error", fmt("rc=%d (timeout %u, elapsed %.1f ms)", rc, tmo, el * 1e3));
					break;
				}
			}
			wd::flush_stats();
			a.p->done = true;
			leftp->fetch_sub(1);
			return nullptr;
		}, a.get());
	/* consumer */
	wd::seed(r.u64(), dp, ei, 0);
	std::vector<std::vector<uint32_t>> got(8);
	std::vector<uint8_t> order;
	Msg m(size), want(size);
	int fd = mbox_get_read_fd(b);
	size_t total = 0, naps = 0;
	bool bad = false;
	double pause_until = cons == 3 ? now() + 0.03 : 0;
	auto one = [&]() -> int {
		memset(m.p, 0xcc, size);
		int rc = LIB(mbox_peek(b, m.p));
		if (rc == -EAGAIN) return 0;
		if (rc != 0) { viol("peek error", fmt("rc=%d", rc)); bad = true; return -1; }
		unsigned id;
		uint32_t sq;
		if (size >= 12) { id = m.p[0]; memcpy(&sq, m.p + 1, 4); }
		else { id = m.p[0] >> 5; sq = (uint32_t)(id < 8 ? got[id].size() : 0); }
		bool known = id < np || (id == 7 && prefill);
		if (known) compose(want.p, size, id, sq);
		if (!known || memcmp(want.p, m.p, size)) {
			viol("message altered or out of order", fmt("size %zu id %u: got %s", size, id, esc(m.p, size, 24).c_str()));
			bad = true;
			return -1;
		}
		got[id].push_back(sq);
		order.push_back((uint8_t)id);
		total++;
		tick();
		return 1;
	};
	std::vector<double> sigt;
	while (!bad) {
		bool fin = left.load() == 0; /* read before looking for messages */
		if (signals && r.chance(30)) {
			for (auto &a : A) if (!a->p->done.load() && r.chance(30)) { pthread_kill(a->p->th, SIGUSR1); stat("signals"); }
		}
		if (cons == 3 && now() < pause_until) { usleep(1000); continue; }
		if (cons == 2) {
			int k = one();
			if (k == 0 && fin) break;
			if (k == 0) sched_yield();
		} else {
			int ev = wd::rpoll(fd, POLLIN, fin ? 0 : 2);
			if (!(ev > 0 && (ev & POLLIN))) {
				if (fin) break; /* a consumer relying on events would stop here */
				continue;
			}
			int k = one();
			if (k == 0) viol("read fd readable on an empty mailbox", fmt("size %zu, %zu received", size, total));
			if (cons == 1) while (one() > 0) {}
			if (cons == 3 && naps < 300) { naps++; usleep((useconds_t)r.below(400)); if (r.chance(5)) pause_until = now() + 0.01; }
		}
	}
	for (auto &a : A) {
		/* after a failure: let producers go */
		while (bad && !a->p->done.load()) { Msg x(size); if (mbox_peek(b, x.p) != 0) usleep(200); }
		pthread_join(a->p->th, nullptr);
	}
	if (!bad) {
		for (auto &p : P)
			if (got[p->id] != p->accepted) {
				size_t k = 0;
				while (k < got[p->id].size() && k < p->accepted.size() && got[p->id][k] == p->accepted[k]) k++;
				viol("accepted and delivered messages differ", fmt("size %zu producer %u of %u: %zu accepted, %zu delivered, first difference at %zu (consumer kind %d, producer kind %d)", size, p->id, np, p->accepted.size(), got[p->id].size(), k, cons, kind));
			}
		CHECK(LIB(mbox_peek(b, m.p)) == -EAGAIN, "message left over", "size %zu", size);
		CHECK(!readable(b), "read fd readable on an empty mailbox", "at the end");
	}
	stat("delivered", (int64_t)total);
	stat("rounds");
	/* distinct interleavings: windows of the order of producers */
	for (size_t i = 0; i + 8 <= order.size(); i += 4) eval(mix(hstr(&order[i], 8), np), np > 1);
	eval(mix(hstr(order.data(), order.size()), (uint64_t)size));
	if (idx < 4) {
		std::string o;
		for (size_t i = 0; i < order.size() && i < 40; i++) o += (char)('0' + order[i]);
		sample(fmt("%u producers kind %d size %zu consumer kind %d: %zu messages, arrival order %s...", np, kind, size, cons, total, o.c_str()));
	}
	wd::flush_stats();
	wd::seed(1, 0, 0, 0);
	LIB((mbox_destroy(b), 0));
}

/* ---------------- blocking push: virtual time ---------------- */
static size_t fill(struct mbox *b, size_t size, unsigned id)
{
	size_t n = 0;
	for (;; n++) {
		Msg m(size);
		compose(m.p, size, id, (uint32_t)n);
		if (mbox_push(b, m.p) != 0) break;
	}
	return n;
}
static void virtual_rounds(int rounds)
{
	Rng &r = rng();
	static const std::vector<unsigned> tmos{1, 2, 3, 10, 99, 999, 1000, 1001, 4294, 4295, 60000, 100000, 2147483, 2147484, 4294967, 4294968, 10000000, 86400000, 2147483646, 2147483647};
	for (int i = 0; i < rounds; i++) {
		size_t size = 12 + r.below(PIPE_BUF - 12);
		unsigned tmo = i < 40 ? tmos[(size_t)i % tmos.size()] : r.chance(50) ? r.pick(tmos) : 1 + (unsigned)(r.u64() >> 33 >> r.below(31)) % 2147483647u;
		if (i >= 40 && r.chance(20)) tmo = 0;
		struct mbox *b = fresh(size);
		if (!b) { viol("creation refused", fmt("%zu", size)); return; }
		size_t n = fill(b, size, 1), taken = 0;
		/* does the consumer free space before the timeout? */
		bool frees = tmo == 0 || r.chance(40);
		int64_t at = tmo == 0 ? (int64_t)(r.u64() >> 20) : (int64_t)r.below((uint64_t)tmo) * 1000000;
		bool fired = false;
		/* the system time may be changed meanwhile */
		wd::step_at = INT64_MAX;
		if (r.chance(35)) {
			wd::step_at = (int64_t)r.below((uint64_t)(tmo ? tmo : 100000) * 1000000);
			wd::step_by = (r.chance(60) ? 1 : -1) * (int64_t)(r.chance(50) ? r.below(2000000ull * (tmo ? tmo : 1000)) : 1000000000ull * r.below(700000000));
			stat("changes of the system time during a push");
		}
		wd::virt = true;
		wd::vnow_ns = 0;
		Msg o(size), w(size);
		bool orderok = true;
		wd::on_wait = [&](int64_t until) -> bool {
			if (!frees || fired || at >= until) return false;
			fired = true;
			if (wd::vnow_ns < at) wd::vnow_ns = at;
			wd::t.active = false;
			/* frees at least PIPE_BUF contiguous bytes */
			size_t k = n / 2 + 1;
			for (; taken < k; taken++) {
				compose(w.p, size, 1, (uint32_t)taken);
				if (mbox_peek(b, o.p) != 0 || memcmp(o.p, w.p, size)) orderok = false;
			}
			wd::t.active = true;
			return true;
		};
		wd::seed(r.u64(), 0, (unsigned)r.pick(std::vector<int>{0, 10, 50}), (unsigned)r.pick(std::vector<int>{0, 30}));
		Msg m(size);
		compose(m.p, size, 2, 5);
		wd::describe = [&]() { return fmt("timeout %u ms, full mailbox of %zu x %zu bytes, %zu of them taken", tmo, n, size, taken); };
		int rc = LIB(mbox_push_block(b, m.p, tmo));
		int64_t el = wd::vnow_ns;
		wd::on_wait = nullptr;
		wd::describe = nullptr;
		wd::virt = false;
		std::string stp = wd::step_at == INT64_MAX ? "" : fmt(", system time changed by %.3f s at %.3f ms", (double)wd::step_by / 1e9, (double)wd::step_at / 1e6);
		wd::step_at = INT64_MAX;
		uint64_t inj = wd::t.eintr + wd::t.eagain;
		wd::flush_stats();
		wd::seed(1, 0, 0, 0);
		std::string id = fmt("timeout %u ms, full mailbox of %zu x %zu bytes, consumer %s, %" PRIu64 " interruptions%s: rc=%d after %.3f ms", tmo, n, size, frees ? fmt("at %.3f ms", (double)at / 1e6).c_str() : "absent", inj, stp.c_str(), rc, (double)el / 1e6);
		if (rc == 0) CHECK(fired, "push_block reports success on a full mailbox", "%s", id.c_str());
		else if (tmo == 0) viol("push_block without timeout fails", id);
		else {
			CHECK(rc == -ETIMEDOUT, "push_block error", "%s", id.c_str());
			CHECK(el >= (int64_t)tmo * 1000000 - 500000, "push_block timed out early", "%s", id.c_str());
			/* generous: scheduling and clock granularity are free */
			CHECK(el <= (int64_t)tmo * 2000000 + 1000000000, "push_block timed out late", "%s", id.c_str());
			CHECK(!fired || inj, "push_block times out with room in the mailbox", "%s", id.c_str());
		}
		CHECK(orderok, "message not delivered in order or altered", "%s", id.c_str());
		/* exactly once, or not at all */
		size_t seen = 0;
		for (;;) {
			int k = mbox_peek(b, o.p);
			if (k != 0) break;
			if (o.p[0] == 2) { seen++; CHECK(!memcmp(o.p, m.p, size), "message altered", "%s", id.c_str()); }
			else taken++;
		}
		CHECK(seen == (rc == 0 ? 1u : 0u), rc == 0 ? "push_block success but message not queued once" : "push_block failed but queued its message", "%s: seen %zu times", id.c_str(), seen);
		CHECK(taken == n, "messages lost or duplicated around push_block", "%s: %zu of %zu", id.c_str(), taken, n);
		eval(mix(mix(tmo, (uint64_t)frees), mix((uint64_t)at, mix(inj, (uint64_t)(rc + 200)))));
		stat(rc == 0 ? "virtual successes" : "virtual timeouts");
		if (i % 60 == 0) sample(id);
		LIB((mbox_destroy(b), 0));
	}
}
/* real time: timeouts under a storm of signals, wake-ups, large timeouts */
struct BArg { struct mbox *b; uint8_t *m; unsigned tmo; int rc; double el; std::atomic<bool> done{false}; };
static void *blocker(void *x)
{
	BArg &a = *(BArg *)x;
	double t0 = now();
	a.rc = LIB(mbox_push_block(a.b, a.m, a.tmo));
	a.el = now() - t0;
	a.done = true;
	return nullptr;
}
static void realtime_rounds(int rounds)
{
	Rng &r = rng();
	int late = 0;
	for (int i = 0; i < rounds; i++) {
		size_t size = 12 + r.below(PIPE_BUF - 12);
		struct mbox *b = fresh(size);
		size_t n = fill(b, size, 1);
		Msg m(size), o(size);
		compose(m.p, size, 2, 9);
		/* 0: times out; 1: consumer frees space while it waits */
		int kind = i % 2;
		unsigned tmo = kind == 0 ? (unsigned)r.range(1, 60) : (unsigned)r.pick(std::vector<int>{0, 5000000, 2147483, 2147484, 4294968, INT_MAX});
		bool storm = r.chance(70);
		BArg a;
		a.b = b; a.m = m.p; a.tmo = tmo;
		pthread_t th;
		pthread_create(&th, nullptr, blocker, &a);
		double t0 = now(), consume_at = t0 + 0.001 * (double)r.range(1, 60);
		bool consumed = false;
		while (!a.done.load()) {
			if (storm) { pthread_kill(th, SIGUSR1); stat("signals"); }
			usleep(1500);
			if (kind == 1 && !consumed && now() > consume_at) {
				for (size_t k = 0; k < n / 2 + 1; k++) mbox_peek(b, o.p);
				consumed = true;
			}
			/* a restarted timeout never expires during the storm */
			if (kind == 0 && now() - t0 > 8) storm = false;
			if (kind == 0 && now() - t0 > 9) break;
		}
		if (kind == 0 && !a.done.load()) {
			/* cannot be cancelled: free it */
			while (!a.done.load()) { mbox_peek(b, o.p); usleep(1000); }
			pthread_join(th, nullptr);
			viol("push_block does not time out", fmt("timeout %u ms, still waiting after 9 s", tmo));
			return;
		}
		pthread_join(th, nullptr);
		std::string id = fmt("timeout %u ms size %zu signals %d: rc=%d after %.2f ms", tmo, size, storm, a.rc, a.el * 1e3);
		if (kind == 0) {
			CHECK(a.rc == -ETIMEDOUT, "push_block on a full mailbox", "%s", id.c_str());
			CHECK(a.el * 1e3 >= tmo - 0.5, "push_block timed out early", "%s", id.c_str());
			if (a.el > 5 && ++late >= 3) viol("push_block times out late under signals", id);
			stat("real timeouts");
		} else {
			CHECK(a.rc == 0, "push_block fails although space was freed", "%s", id.c_str());
			stat("real wake-ups");
		}
		size_t seen = 0;
		while (mbox_peek(b, o.p) == 0) seen += o.p[0] == 2;
		CHECK(seen == (a.rc == 0 ? 1u : 0u), "message count after push_block", "%s seen %zu", id.c_str(), seen);
		eval(mix(mix(tmo, storm), (uint64_t)(a.el * 1e6)));
		if (i < 4) sample(id);
		mbox_destroy(b);
	}
}

void mon::run()
{
	Rng &r = rng();
	bool th = conf().thorough;
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_handler = on_sig; /* no SA_RESTART: calls are interrupted */
	sigaction(SIGUSR1, &sa, nullptr);
	watchdog(40);
	const std::string &md = conf().mode;
	if (md == "single") {
		creation();
		timeouts_with_room();
		marathon(th ? 20000000 : 300000, 9);
		marathon(th ? 3000000 : 140000, PIPE_BUF - 1);
		crowd(th ? 150 : 60);
		for (int i = 0; i < (th ? 3000 : 160); i++) {
			wd::seed(r.u64(), 0, (unsigned)r.pick(std::vector<int>{0, 0, 20, 60}), 0);
			size_t size = r.chance(40) ? r.pick(std::vector<size_t>{1, 2, 3, 255, 256, 1023, 1024, 2047, 2048, 2049, 4093, 4094, 4095}) : 1 + r.below(PIPE_BUF - 1);
			history(size, size < 64 ? 900 : 300);
		}
		wd::flush_stats();
	} else if (md == "mt") {
		timeouts_with_room();
		for (int i = 0; i < (th ? 1500 : 55); i++) round_mt(i, true, false);
	} else if (md == "tsan") {
		for (int i = 0; i < (th ? 400 : 14); i++) round_mt(i, false, true);
	} else if (md == "virtual") {
		struct mbox *b = mbox_new(1000);
		fill(b, 1000, 1);
		Msg m(1000);
		if (wd::virtual_usable([&]() { return mbox_push_block(b, m.p, 30); })) virtual_rounds(th ? 20000 : 700);
		else realtime_rounds(th ? 1500 : 50);
		mbox_destroy(b);
	} else if (md == "real") {
		realtime_rounds(th ? 1500 : 50);
	}
}
