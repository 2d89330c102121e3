/* C03, C04, C05 (variable-size part), C06, C07 (tsan build): dynmbox. */
#include "wrapdelay.h"
#include "futils/dynmbox.h"
#include <sys/resource.h>
using namespace mon;

static const size_t MAXSZ = DYNMBOX_MAX_SIZE;

static bool readable(struct dynmbox *b)
{
	int r = wd::rpoll(dynmbox_get_read_fd(b), POLLIN, 0);
	return r > 0 && (r & POLLIN);
}
struct Buf {
	uint8_t *p;
	size_t n;
	explicit Buf(size_t n_) : p((uint8_t *)malloc(n_)), n(n_) {}
	~Buf() { free(p); }
	Buf(const Buf &) = delete;
};
static void compose(uint8_t *p, size_t n, uint32_t seq)
{
	uint64_t x = (uint64_t)seq * 0xc2b2ae3d27d4eb4full + n + 1;
	size_t i = 0;
	for (; i + 8 <= n; i += 8) {
		x ^= x << 13; x ^= x >> 7; x ^= x << 17;
		memcpy(p + i, &x, 8);
	}
	for (; i < n; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; p[i] = (uint8_t)(x >> 24); }
}
struct M { size_t n; uint32_t seq; };

static int push(struct dynmbox *b, size_t n, uint32_t seq, int block, unsigned tmo = 1)
{
	Buf m(n);
	compose(m.p, n, seq);
	const uint8_t *src = n && n < 60000 && rng().chance(15) ? (const uint8_t *)read_only<0>(m.p, n) : m.p;
	int rc = block ? LIB(dynmbox_push_block(b, src, n, tmo)) : LIB(dynmbox_push(b, src, n));
	Buf c(n);
	compose(c.p, n, seq);
	CHECK(!memcmp(c.p, m.p, n), "push changes the message", "size %zu", n);
	return rc;
}
/* peek what the model expects, into a block of exactly that size */
static bool peek_expect(struct dynmbox *b, M w, const char *ctx)
{
	Buf o(w.n), c(w.n);
	memset(o.p, 0xcc, w.n);
	ssize_t rc = LIB(dynmbox_peek(b, o.p));
	compose(c.p, w.n, w.seq);
	if (rc != (ssize_t)w.n) {
		viol("peek returns another size", fmt("%s: got %zd expected %zu (seq %u)", ctx, rc, w.n, w.seq));
		return false;
	}
	if (memcmp(c.p, o.p, w.n)) {
		size_t k = 0;
		while (o.p[k] == c.p[k]) k++;
		viol("message altered or out of order", fmt("%s: size %zu seq %u first difference at byte %zu", ctx, w.n, w.seq, k));
		return false;
	}
	return true;
}
/* would a new mailbox holding these messages accept this push? */
static int twin(size_t max, const std::deque<M> &q, size_t n, bool *queued)
{
	struct dynmbox *t = dynmbox_new(max);
	*queued = true;
	for (auto &m : q) {
		Buf x(m.n);
		memset(x.p, 1, m.n);
		if (dynmbox_push(t, x.p, m.n) != 0) *queued = false;
	}
	Buf x(n);
	memset(x.p, 2, n);
	int rc = dynmbox_push(t, x.p, n);
	dynmbox_destroy(t);
	return rc;
}
static size_t pick_size(size_t max, int style, size_t pos)
{
	Rng &r = rng();
	size_t n;
	switch (style) {
	case 0: n = r.below(32); break;
	case 1: n = r.below(max + 1); break;
	case 2: n = r.below(4200); break;
	case 3: n = r.pick(std::vector<size_t>{0, 1, 2, 3, 4, 5, 4091, 4092, 4095, 4096, 4097, 8192, 16380, 16384, 32760, 32766, 65527, 65528, 65531, 65532}); break;
	case 4: { /* land the next header or message on a given offset of a 64 KiB ring */
		size_t target = (65536 + (size_t)r.range(-9, 5)) % 65536;
		size_t d = (target + 65536 - pos % 65536) % 65536;
		n = d >= 4 ? d - 4 : 0;
		break; }
	case 5: n = max - r.below(max < 6 ? max + 1 : 6); break;
	default: n = r.below(5) ? r.below(200) : r.below(max + 1); break;
	}
	return n > max ? max : n;
}

static struct dynmbox *fresh(size_t max)
{
	HighFds h(rng().chance(8));
	return LIB(dynmbox_new(max));
}

static void history(int steps)
{
	Rng &r = rng();
	size_t max = r.pick(std::vector<size_t>{0, 1, 7, 100, 4096, 5000, 30000, 32764, 32768, 65528, 65531, 65532, 65532, 65532});
	wd::pipe_bytes = r.chance(20) ? 4096 : 0;
	struct dynmbox *b = fresh(max);
	wd::pipe_bytes = 0;
	if (!b) { viol("creation refused", fmt("max size %zu", max)); return; }
	CHECK(dynmbox_get_max_size(b) == (ssize_t)max, "get_max_size", "%zd expected %zu", dynmbox_get_max_size(b), max);
	std::deque<M> q;
	uint32_t seq = (uint32_t)r.below(1000);
	int style = (int)r.below(7), bias = (int)r.range(25, 90);
	size_t pos = 0, pend = 0;
	for (int s = 0; s < steps; s++) {
		if (r.below(50) == 0) { bias = (int)r.range(10, 95); style = (int)r.below(7); }
		int op = r.chance((unsigned)bias) ? 0 : 1;
		if (r.below(25) == 0) op = 2 + (int)r.below(4);
		if (op == 0 && q.size() >= 3000) op = 1;
		int rc = 0;
		size_t n = 0;
		switch (op) {
		case 0: {
			n = pick_size(max, style, pos);
			bool block = r.chance(15);
			bool was_empty = q.empty();
			/* a blocking push on a full mailbox costs its timeout */
			rc = push(b, n, seq, block, block && was_empty ? r.pick(std::vector<unsigned>{0, 1, 4294967, 4294968, INT_MAX, INT_MAX + 1u, UINT_MAX}) : 1);
			if (rc == 0) { q.push_back({n, seq}); pos += n + 4; pend += n; stat("pushed"); if (n > 4096) stat("pushed above PIPE_BUF"); }
			else {
				CHECK(rc == (block ? -ETIMEDOUT : -EAGAIN), "push error", "rc=%d size %zu block %d", rc, n, block);
				CHECK(!was_empty, "push refused on an empty mailbox", "size %zu of max %zu rc=%d, after %u messages", n, max, rc, seq);
				stat("refused when full");
			}
			if (r.chance(rc ? 25 : 3) && q.size() < 400) {
				/* same verdict as a new mailbox with the same pending messages */
				bool ok;
				std::deque<M> before = q;
				if (rc == 0) before.pop_back();
				int t = twin(max, before, n, &ok);
				CHECK(ok, "a new mailbox refuses messages an old one holds", "%zu messages %zu bytes", before.size(), pend);
				CHECK(!ok || (t == 0) == (rc == 0), "acceptance differs from a new mailbox", "%zu pending, size %zu: here rc=%d, new mailbox rc=%d", before.size(), n, rc, t);
				stat("compared with a new mailbox");
			}
			seq++;
			break; }
		case 1:
			if (q.empty()) {
				Buf o(max);
				memset(o.p, 0x3c, max);
				ssize_t k = LIB(dynmbox_peek(b, o.p));
				CHECK(k == -EAGAIN, "peek of an empty mailbox", "rc=%zd", k);
				bool same = true;
				for (size_t i = 0; i < max; i++) same &= o.p[i] == 0x3c;
				CHECK(same, "failed peek changes the buffer", "max %zu", max);
				stat("peeks when empty");
			} else {
				if (!peek_expect(b, q.front(), "history")) return;
				n = q.front().n;
				pend -= n;
				q.pop_front();
				stat("peeked");
			}
			break;
		case 2: { /* too big: refused whatever the content */
			Buf m(max + 1 + r.below(20));
			memset(m.p, 0x77, m.n);
			size_t big = r.chance(50) ? m.n : r.pick(std::vector<size_t>{max + 1, SIZE_MAX, SIZE_MAX - 3, (size_t)1 << 32, ((size_t)1 << 32) + 4, SIZE_MAX / 2 + 1});
			rc = r.chance(50) ? LIB(dynmbox_push(b, m.p, big)) : LIB(dynmbox_push_block(b, m.p, big, 5));
			CHECK(rc == -EINVAL, "oversized push", "size %zu max %zu rc=%d", big, max, rc);
			stat("invalid pushes");
			break; }
		case 3:
			if (max > 0) {
				rc = r.chance(50) ? LIB(dynmbox_push(b, nullptr, 1 + r.below(max))) : LIB(dynmbox_push_block(b, nullptr, 1 + r.below(max), 5));
				CHECK(rc == -EINVAL, "push of a missing buffer", "rc=%d", rc);
				stat("invalid pushes");
			}
			break;
		case 4: /* size 0 needs no buffer */
			rc = LIB(dynmbox_push(b, nullptr, 0));
			if (rc == 0) { q.push_back({0, seq++}); pos += 4; stat("empty messages"); }
			else CHECK(rc == -EAGAIN && !q.empty(), "push of an empty message", "rc=%d", rc);
			break;
		default:
			if (r.chance(40)) { /* drain, then it must be as new */
				while (!q.empty()) { if (!peek_expect(b, q.front(), "drain")) return; q.pop_front(); stat("peeked"); }
				pend = 0;
				if (r.chance(50)) {
					rc = push(b, max, seq, 0);
					CHECK(rc == 0, "maximum message refused on an empty mailbox", "max %zu rc=%d after %u messages", max, rc, seq);
					if (rc == 0) { q.push_back({max, seq}); pos += max + 4; pend += max; }
					seq++;
				} else {
					struct dynmbox *t = dynmbox_new(max);
					std::deque<M> all;
					for (int k = 0; k < 40; k++) {
						size_t z = pick_size(max, k & 1 ? 1 : style, pos);
						int r1 = push(b, z, seq, 0), r2 = push(t, z, seq, 0);
						CHECK(r1 == r2, "acceptance differs from a new mailbox", "push %d of size %zu: rc=%d, new mailbox rc=%d", k, z, r1, r2);
						if (r1 == 0) { q.push_back({z, seq}); pos += z + 4; pend += z; }
						seq++;
					}
					dynmbox_destroy(t);
					stat("compared with a new mailbox");
				}
			}
			break;
		}
		bool rd = readable(b);
		CHECK(rd == !q.empty(), rd ? "read fd readable on an empty mailbox" : "read fd not readable with messages pending", "%zu pending after op %d rc %d", q.size(), op, rc);
		eval(mix(mix(pos % 65536, (uint64_t)op), mix(n, mix(q.size(), (uint64_t)(rc + 200)))));
		stat_max("max:pending messages", (int64_t)q.size());
		stat_max("max:pending bytes", (int64_t)pend);
	}
	if (r.below(10) == 0) sample(fmt("max %zu: %d calls, %u pushes tried, %zu pending (%zu bytes) at the end", max, steps, seq, q.size(), pend));
	while (!q.empty()) { if (!peek_expect(b, q.front(), "final drain")) return; q.pop_front(); }
	CHECK(!readable(b), "read fd readable on an empty mailbox", "at the end");
	LIB((dynmbox_destroy(b), 0));
}
/* every small size at every position around the end of the ring, alone, at the exact fit and just above it: same
 * verdict as a new mailbox, and delivered */
static void positions()
{
	uint32_t seq = 7;
	for (int off = -12; off <= 8; off++) for (size_t n : {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 100, 32766, 65532}) for (int st = 0; st < 4; st++) {
		size_t target = (size_t)(65536 + off);
		if (st && n > 65528) continue;
		struct dynmbox *b = fresh(MAXSZ);
		if (!b) { viol("creation refused", "positions"); return; }
		std::deque<M> q;
		auto put = [&](size_t z) {
			bool ok;
			int t = twin(MAXSZ, q, z, &ok), rc = push(b, z, seq, 0);
			CHECK(ok && t == rc, "acceptance differs from a new mailbox", "%zu pending, size %zu at position %zu: here rc=%d, new mailbox rc=%d", q.size(), z, target % 65536, rc, t);
			if (rc == 0) q.push_back({z, seq});
			seq++;
		};
		auto get = [&]() { if (q.empty()) return true; M w = q.front(); q.pop_front(); return peek_expect(b, w, "positions"); };
		for (size_t at = 0; at < target;) { /* two messages bring the ring there */
			size_t z = std::min<size_t>(target - at - 4, at ? MAXSZ : 30000);
			put(z);
			if (!get()) return;
			at += z + 4;
			if (target - at < 4) break;
		}
		if (st == 1) { put(1); put(n); put(n); }
		else if (st == 2) { put(n); put(65528 - n); put(0); } /* the ring is full */
		else if (st == 3) { put(65528 - n); if (n) { put(n); put(0); } else put(1); }
		else put(n);
		while (!q.empty()) if (!get()) return;
		CHECK(!readable(b), "read fd readable on an empty mailbox", "positions");
		put(MAXSZ);
		if (!get()) return;
		LIB((dynmbox_destroy(b), 0));
		eval(mix(mix(0x905, (uint64_t)off), mix(n, (uint64_t)st)));
		stat("positions around the end");
	}
}
static void creation()
{
	for (size_t n : {MAXSZ + 1, MAXSZ + 2, MAXSZ + 4, (size_t)65536, (size_t)65540, (size_t)1 << 20, (size_t)INT_MAX, (size_t)UINT_MAX, (size_t)UINT_MAX + 1, (size_t)UINT_MAX + 10, (size_t)1 << 63, SIZE_MAX, SIZE_MAX - 3}) {
		struct dynmbox *b = LIB(dynmbox_new(n));
		CHECK(!b, "creation above the maximum size", "size %zu accepted", n);
		if (b) LIB((dynmbox_destroy(b), 0));
		eval(mix(n, 0xc));
	}
	for (size_t n = 0; n <= MAXSZ; n += (n < 20 || n > MAXSZ - 20) ? 1 : (conf().thorough ? 61 : 1021)) {
		struct dynmbox *b = LIB(dynmbox_new(n));
		if (!b) { viol("creation refused", fmt("max size %zu", n)); continue; }
		for (int k = 0; k < 3; k++) {
			int rc = push(b, n, (uint32_t)k, 0);
			CHECK(rc == 0, "maximum message refused on an empty mailbox", "max %zu rc=%d round %d", n, rc, k);
			if (rc == 0 && !peek_expect(b, {n, (uint32_t)k}, "creation")) return;
		}
		LIB((dynmbox_destroy(b), 0));
		eval(mix(n, 0xd));
		stat("sizes created");
	}
	LIB((dynmbox_destroy(nullptr), 0));
	uint8_t x = 0;
	CHECK(LIB(dynmbox_push(nullptr, &x, 1)) == -EINVAL && LIB(dynmbox_peek(nullptr, &x)) == -EINVAL && LIB(dynmbox_push_block(nullptr, &x, 1, 1)) == -EINVAL &&
	      dynmbox_get_read_fd(nullptr) == -1 && dynmbox_get_max_size(nullptr) == -EINVAL, "NULL mailbox", "not refused");
	struct dynmbox *b = dynmbox_new(10);
	push(b, 3, 1, 0);
	CHECK(LIB(dynmbox_peek(b, nullptr)) == -EINVAL && readable(b), "peek into NULL", "not refused or consumed");
	peek_expect(b, {3, 1}, "after a refused peek");
	dynmbox_destroy(b);
	/* as many tiny messages as it takes: every one must be announced */
	for (size_t z : {(size_t)0, (size_t)1, (size_t)5}) {
		b = dynmbox_new(MAXSZ);
		uint32_t k = 0;
		while (push(b, z, k, 0) == 0) k++;
		stat_max("max:pending messages", k);
		for (uint32_t i = 0; i < k; i++) {
			if (!readable(b)) { viol("read fd not readable with messages pending", fmt("%u of %u messages of %zu bytes", k - i, k, z)); break; }
			if (!peek_expect(b, {z, i}, "tiny messages")) break;
		}
		CHECK(!readable(b), "read fd readable on an empty mailbox", "after %u tiny messages", k);
		eval(mix(z, 0xe));
		dynmbox_destroy(b);
	}
}

/* as many small messages as it can hold, whatever the capacity of its pipe */
static void flood(int capacity)
{
	Rng &r = rng();
	size_t max = r.below(5);
	wd::pipe_bytes = capacity;
	struct dynmbox *b = fresh(max);
	wd::pipe_bytes = 0;
	if (!b) { viol("creation refused", fmt("max size %zu", max)); return; }
	std::deque<M> q;
	uint32_t seq = 0;
	size_t most = 0;
	bool good = true;
	for (int round = 0; good && round < 4; round++) {
		for (;;) {
			size_t n = r.below(max + 1);
			int rc = push(b, n, seq, r.below(500) == 0, 1);
			if (rc) { CHECK((rc == -EAGAIN || rc == -ETIMEDOUT) && !q.empty(), "push refused on an empty mailbox", "flood: rc=%d size %zu", rc, n); break; }
			q.push_back({n, seq++});
			stat("pushed");
			if (r.below(30000) == 0) break;
		}
		if (q.size() > most) most = q.size();
		size_t left = round == 3 || r.chance(50) ? 0 : r.below(q.size());
		while (good && q.size() > left) {
			bool rd = readable(b);
			if (!rd) { viol("read fd not readable with messages pending", fmt("%zu pending of %zu, pipe of %d bytes", q.size(), most, capacity)); good = false; break; }
			good = peek_expect(b, q.front(), "flood");
			q.pop_front();
			stat("peeked");
			if (r.below(200) == 0 && push(b, 0, seq, 0) == 0) q.push_back({0, seq++});
		}
		if (good && q.empty()) CHECK(!readable(b), "read fd readable on an empty mailbox", "after %zu messages at once, pipe of %d bytes", most, capacity);
		eval(mix(mix(0xf100d, (uint64_t)capacity), mix(max, most)));
		tick();
	}
	stat_max("max:pending messages", (int64_t)most);
	LIB((dynmbox_destroy(b), 0));
}
/* one mailbox in use for a long time: counts and totals far above 16 and 32 bits */
static void marathon(uint64_t count, size_t max, bool large)
{
	Rng &r = rng();
	struct dynmbox *b = fresh(max);
	if (!b) { viol("creation refused", fmt("max size %zu", max)); return; }
	Buf m(max + 16), o(max + 16), c(max + 16);
	r.fill(m.p, m.n);
	memcpy(c.p, m.p, m.n);
	Buf base(max + 16);
	memcpy(base.p, m.p, m.n);
	std::deque<M> q;
	uint64_t pushed = 0, bytes = 0;
	auto clean = [&](uint8_t *p, size_t n) {
		if (n >= 8) for (size_t o : {(size_t)0, n - 8, n / 2 & ~(size_t)7}) memcpy(p + o, base.p + o, 8);
		else memcpy(p, base.p, n);
	};
	auto stamp = [](uint8_t *p, size_t n, uint64_t v) { /* both ends and the middle */
		if (n >= 8) { memcpy(p, &v, 8); memcpy(p + n - 8, &v, 8); memcpy(p + (n / 2 & ~(size_t)7), &v, 8); }
		else memcpy(p, &v, n);
	};
	size_t depth = 1;
	bool good = true;
	while (good && pushed < count) {
		if (r.below(200) == 0) depth = r.chance(50) ? 1 : 1 + r.below(large ? 3 : 400);
		for (size_t k = 0; k < depth && pushed < count; k++) {
			size_t n = large ? max - r.below(max < 40 ? 1 : 40) : r.below((max < 40 ? max : 40) + 1);
			stamp(m.p, n, pushed);
			int rc = r.below(64) ? LIB(dynmbox_push(b, m.p, n)) : LIB(dynmbox_push_block(b, m.p, n, 1));
			clean(m.p, n);
			if (rc != 0) {
				CHECK((rc == -EAGAIN || rc == -ETIMEDOUT) && !q.empty(), "push refused on an empty mailbox", "rc=%d size %zu after %" PRIu64 " messages %" PRIu64 " bytes", rc, n, pushed, bytes);
				good = !q.empty();
				break;
			}
			q.push_back({n, (uint32_t)pushed});
			pushed++;
			bytes += n;
		}
		while (good && !q.empty()) {
			M w = q.front();
			q.pop_front();
			ssize_t rc = LIB(dynmbox_peek(b, o.p));
			stamp(c.p, w.n, pushed - q.size() - 1);
			if (rc != (ssize_t)w.n) { viol("peek returns another size", fmt("marathon: got %zd expected %zu after %" PRIu64 " messages %" PRIu64 " bytes", rc, w.n, pushed, bytes)); good = false; }
			else if (memcmp(o.p, c.p, w.n)) { viol("message altered or out of order", fmt("marathon: size %zu after %" PRIu64 " messages %" PRIu64 " bytes", w.n, pushed, bytes)); good = false; }
			clean(c.p, w.n);
			if (r.below(256) == 0) {
				bool rd = readable(b);
				CHECK(rd == !q.empty(), rd ? "read fd readable on an empty mailbox" : "read fd not readable with messages pending", "%zu pending after %" PRIu64 " messages", q.size(), pushed);
			}
		}
		tick();
		if (readable(b)) { viol("read fd readable on an empty mailbox", fmt("after %" PRIu64 " messages %" PRIu64 " bytes", pushed, bytes)); good = false; }
	}
	ssize_t rc = LIB(dynmbox_peek(b, o.p));
	CHECK(!good || rc == -EAGAIN, "peek of an empty mailbox", "rc=%zd after %" PRIu64 " messages", rc, pushed);
	eval(mix(mix(count, max), large));
	stat("pushed", (int64_t)pushed);
	stat("peeked", (int64_t)pushed);
	stat_max("max:messages through one mailbox", (int64_t)pushed);
	stat_max("max:bytes through one mailbox", (int64_t)bytes);
	LIB((dynmbox_destroy(b), 0));
}
/* many mailboxes at once, with large descriptor numbers */
static void crowd(int count)
{
	Rng &r = rng();
	struct rlimit rl;
	getrlimit(RLIMIT_NOFILE, &rl);
	rl.rlim_cur = rl.rlim_max < 8192 ? rl.rlim_max : 8192;
	setrlimit(RLIMIT_NOFILE, &rl);
	/* few pipes: the system shrinks the pipes of a user who has many */
	std::vector<int> spare;
	auto take_numbers = [&](std::vector<int> &v) {
		int fd = open("/dev/null", O_RDONLY | O_CLOEXEC);
		while (fd >= 0 && fd < 1500) { v.push_back(fd); fd = fcntl(fd, F_DUPFD_CLOEXEC, 0); }
		if (fd >= 0) v.push_back(fd);
	};
	std::vector<struct dynmbox *> B;
	std::vector<std::deque<M>> Q;
	for (int i = 0; i < count; i++) {
		if (i == count / 2) take_numbers(spare);
		struct dynmbox *b = LIB(dynmbox_new(200));
		if (!b) { CHECK(spare.size() + (size_t)i * 3 + 100 > rl.rlim_cur, "creation refused", "mailbox number %d", i); break; }
		B.push_back(b);
		stat_max("max:descriptor", dynmbox_get_read_fd(b));
	}
	Q.resize(B.size());
	uint32_t seq = 0;
	bool good = true;
	for (size_t s = 0; good && s < B.size() * 60; s++) {
		size_t i = r.chance(30) ? (r.chance(50) ? 0 : B.size() - 1) : r.below(B.size());
		if (r.chance(55)) {
			size_t n = r.below(201);
			int rc = push(B[i], n, seq, r.chance(20), 1);
			CHECK(rc == 0 || !Q[i].empty(), "push refused on an empty mailbox", "one of many: rc=%d size %zu", rc, n);
			if (rc == 0) Q[i].push_back({n, seq});
			seq++;
			stat("pushed");
		} else if (!Q[i].empty()) {
			good = peek_expect(B[i], Q[i].front(), "one of many");
			Q[i].pop_front();
			stat("peeked");
		}
		bool rd = readable(B[i]);
		CHECK(rd == !Q[i].empty(), rd ? "read fd readable on an empty mailbox" : "read fd not readable with messages pending", "one of many: %zu pending", Q[i].size());
		eval(mix(0x77, mix(i, Q[i].size())));
	}
	/* full ones must time out, whatever the descriptor numbers */
	for (size_t i : {(size_t)0, B.size() / 2, B.size() - 1}) {
		while (push(B[i], 200, seq, 0) == 0) { Q[i].push_back({200, seq}); seq++; }
		double t0 = now();
		int rc = push(B[i], 200, seq, 1, 20);
		double el = now() - t0;
		CHECK(rc == -ETIMEDOUT && el > 0.018, "push_block error", "one of many, full: rc=%d after %.1f ms", rc, el * 1e3);
	}
	for (size_t i = 0; i < B.size(); i++) {
		while (good && !Q[i].empty()) { good = peek_expect(B[i], Q[i].front(), "one of many, at the end"); Q[i].pop_front(); }
		LIB((dynmbox_destroy(B[i]), 0));
	}
	for (int fd : spare) close(fd);
	stat_max("max:mailboxes at once", (int64_t)B.size());
}

/* ---------------- one producer, one consumer ---------------- */
static void on_sig(int) {}
struct PArg {
	struct dynmbox *b;
	size_t max;
	uint32_t count;
	int kind, style;
	uint64_t seed;
	unsigned dp, ei;
	std::vector<M> accepted;
	std::mutex m;
	std::atomic<bool> done{false};
	pthread_t th;
};
static void *producer(void *x)
{
	PArg &a = *(PArg *)x;
	wd::seed(a.seed, a.dp, a.ei, 0);
	Rng r(a.seed);
	for (uint32_t s = 0; s < a.count; s++) {
		size_t n;
		switch (a.style) {
		case 0: n = r.below(24); break;
		case 1: n = r.below(a.max + 1); break;
		case 2: n = a.max - r.below(a.max < 3 ? 1 : 3); break;
		case 3: n = r.below(6000); break;
		default: n = r.chance(70) ? r.below(50) : r.below(a.max + 1); break;
		}
		if (n > a.max) n = a.max;
		Buf m(n);
		compose(m.p, n, s);
		for (;;) {
			int k = a.kind == 3 ? (int)r.below(3) : a.kind;
			unsigned tmo = k == 2 ? 1 + (unsigned)r.below(4) : 0;
			if (k == 2 && r.chance(15)) tmo = r.pick(std::vector<unsigned>{1000, 100000, 4294967, 4294968, INT_MAX, UINT_MAX});
			{ std::lock_guard<std::mutex> g(a.m); a.accepted.push_back({n, s}); } /* before: the consumer may be faster */
			double t0 = now();
			int rc = k == 0 ? LIB(dynmbox_push(a.b, m.p, n)) : LIB(dynmbox_push_block(a.b, m.p, n, tmo));
			double el = now() - t0;
			if (rc == 0) tick(); /* a refused push is no progress */
			if (rc == 0) { stat(k == 0 ? "pushed non-blocking" : "pushed blocking"); break; }
			{ std::lock_guard<std::mutex> g(a.m); a.accepted.pop_back(); }
			if (k == 0 && rc == -EAGAIN) { stat("refused when full"); if (r.chance(50)) usleep((useconds_t)r.below(200)); continue; }
			if (k == 2 && rc == -ETIMEDOUT) {
				stat("block timeouts");
				CHECK(el * 1e3 >= tmo * 0.99 - 1.5, "push_block timed out early", "timeout %u ms, elapsed %.3f ms", tmo, el * 1e3);
				if (r.chance(50)) break; /* given up: must never be delivered */
				continue;
			}
			viol(k ? "push_block error" : "push error", fmt("rc=%d size %zu timeout %u", rc, n, tmo));
			break;
		}
	}
	wd::flush_stats();
	a.done = true;
	return nullptr;
}
static void round_spsc(int idx, bool signals, bool tsan)
{
	Rng &r = rng();
	PArg a;
	a.max = r.pick(std::vector<size_t>{0, 8, 100, 4096, 20000, 40000, 65532, 65532});
	a.style = (int)r.below(5);
	a.kind = (int)r.below(4);
	a.count = (uint32_t)r.range(30, tsan ? 150 : 500);
	a.seed = r.u64();
	a.dp = (unsigned)r.pick(std::vector<int>{0, 5, 30, 60});
	a.ei = (unsigned)r.pick(std::vector<int>{0, 0, 0, 10});
	/* EINTR on the notification write/read is injected only for the blocking
	 * condition wait (spurious wake-up): the pipe here is non-blocking */
	unsigned ei_wait = a.ei;
	a.ei = 0;
	(void)ei_wait;
	int cons = (int)r.below(4);
	wd::pipe_bytes = r.chance(25) ? 4096 : 0;
	a.b = fresh(a.max);
	wd::pipe_bytes = 0;
	if (!a.b) { viol("creation refused", fmt("max %zu", a.max)); return; }
	pthread_create(&a.th, nullptr, producer, &a);
	wd::seed(r.u64(), a.dp, 0, 0);
	size_t total = 0, naps = 0;
	bool bad = false;
	Buf o(a.max);
	int fd = dynmbox_get_read_fd(a.b);
	std::vector<size_t> szs;
	uint64_t oh = 0;
	size_t next = 0;
	int burst = 0;
	size_t spin = 0;
	double spin0 = 0;
	auto one = [&]() -> int {
		ssize_t rc = LIB(dynmbox_peek(a.b, o.p));
		if (rc == -EAGAIN) return 0;
		if (rc < 0) { viol("peek error", fmt("rc=%zd", rc)); bad = true; return -1; }
		/* the producer may have gaps (given up): find the next accepted one later;
		 * keep size and hash */
		szs.push_back((size_t)rc);
		szs.push_back(hstr(o.p, (size_t)rc));
		total++;
		burst++;
		tick();
		return 1;
	};
	while (!bad) {
		bool fin = a.done.load();
		if (signals && r.chance(20) && !fin) { pthread_kill(a.th, SIGUSR1); stat("signals"); }
		if (cons == 2) {
			int k = one();
			if (k == 0) { oh = mix(oh, (uint64_t)burst); eval(mix(oh, (uint64_t)burst), burst > 0); burst = 0; }
			if (k == 0 && fin) break;
			if (k == 0) sched_yield();
		} else {
			int ev = wd::rpoll(fd, POLLIN, fin ? 0 : 2);
			if (!(ev > 0 && (ev & POLLIN))) {
				oh = mix(oh, (uint64_t)burst); eval(mix(oh, (uint64_t)burst), burst > 0); burst = 0;
				if (fin) break; /* a consumer relying on events stops here */
				continue;
			}
			int k = one();
			/* with several peeks per event the producer's notification may be
			 * seen before the previous drain consumed its message; with one
			 * peek per event it may not */
			if (k == 0 && cons != 1) { viol("read fd readable on an empty mailbox", fmt("max %zu, %zu received", a.max, total)); bad = true; }
			if (k == 0) { /* spinning on a readable but empty mailbox */
				if (spin++ == 0) spin0 = now();
				sched_yield();
				if (spin > 2000 && now() - spin0 > 2) { viol("read fd readable on an empty mailbox", fmt("max %zu, %zu received, consumer spins", a.max, total)); bad = true; }
			} else spin = 0;
			if (cons == 1) while (one() > 0) {}
			if (cons == 3 && naps < 200) { naps++; usleep((useconds_t)r.below(500)); }
		}
	}
	while (bad && !a.done.load()) { if (dynmbox_peek(a.b, o.p) < 0) usleep(100); }
	pthread_join(a.th, nullptr);
	if (!bad) {
		size_t n = szs.size() / 2;
		if (n != a.accepted.size()) viol("accepted and delivered messages differ", fmt("%zu accepted, %zu delivered (max %zu, consumer kind %d, producer kind %d)", a.accepted.size(), n, a.max, cons, a.kind));
		for (size_t i = 0; i < n && i < a.accepted.size(); i++) {
			M w = a.accepted[i];
			Buf c(w.n);
			compose(c.p, w.n, w.seq);
			if (szs[2 * i] != w.n || szs[2 * i + 1] != hstr(c.p, w.n)) {
				viol("message altered or out of order", fmt("message %zu of %zu: size %zu expected %zu", i, n, szs[2 * i], w.n));
				break;
			}
		}
		ssize_t k = LIB(dynmbox_peek(a.b, o.p));
		CHECK(k == -EAGAIN, "message left over", "rc=%zd after %zu", k, total);
		CHECK(!readable(a.b), "read fd readable on an empty mailbox", "at the end, %zu messages, consumer kind %d", total, cons);
		CHECK(push(a.b, a.max, 1, 0) == 0, "maximum message refused on an empty mailbox", "max %zu after %zu messages", a.max, total);
		CHECK(readable(a.b), "read fd not readable with messages pending", "at the end");
		peek_expect(a.b, {a.max, 1}, "at the end");
	}
	(void)next;
	stat("delivered", (int64_t)total);
	stat("rounds");
	if (idx < 4) sample(fmt("producer kind %d style %d max %zu consumer kind %d: %zu of %u messages delivered", a.kind, a.style, a.max, cons, total, a.count));
	wd::flush_stats();
	wd::seed(1, 0, 0, 0);
	LIB((dynmbox_destroy(a.b), 0));
}

/* ---------------- blocking push in virtual time ---------------- */
static void fill(struct dynmbox *b, size_t max, std::deque<M> &q)
{
	Rng &r = rng();
	uint32_t s = 100;
	size_t unit = r.pick(std::vector<size_t>{0, 9, 300, 300, 900, 900, 900, 5000, 5000, 20000});
	unsigned empties = r.chance(40) ? 40 : 0; /* a good part of empty messages */
	bool brim = r.chance(50);
	for (;; s++) {
		size_t n = r.below(unit + 1);
		if (empties && r.chance(empties)) n = 0;
		if (n > max) n = max;
		if (push(b, n, s, 0) == 0) { q.push_back({n, s}); continue; }
		if (!brim) return;
		/* to the brim */
		while (n > 0) { n /= 2; if (push(b, n, ++s, 0) == 0) q.push_back({n, s}); }
		while (push(b, 0, ++s, 0) == 0) q.push_back({0, s});
		return;
	}
}
/* a size which fits after the k first messages have been taken, for some k, often
 * just so; only a hint for the choice of the workload */
static size_t pick_blocked(size_t max, const std::deque<M> &q)
{
	Rng &r = rng();
	if (r.chance(35)) return max;
	if (r.chance(20)) return r.below(max + 1);
	size_t used = 0, freed = 0;
	for (auto &m : q) used += m.n + 4;
	size_t k = r.chance(60) ? r.below(5) : r.below(q.size() + 2);
	for (size_t i = 0; i < k && i < q.size(); i++) freed += q[i].n + 4;
	size_t room = 65536 - used + freed;
	size_t n = room < 4 ? 0 : room - 4;
	if (r.chance(25)) n -= std::min(n, (size_t)r.below(9));
	else if (r.chance(40)) n += 1 + r.below(4);
	return n > max ? max : n;
}
static void virtual_rounds(int rounds)
{
	Rng &r = rng();
	static const std::vector<unsigned> tmos{1, 2, 3, 10, 99, 999, 1000, 1001, 4294, 4295, 60000, 100000, 2147483, 2147484, 4294966, 4294967, 4294968, 4294969, 4294970, 5000000, 8589934, 8589935, 10000000, 86400000,
		2147483646, 2147483647, 2147483648u, 2147483649u, 4000000000u, 4294967294u, 4294967295u};
	for (int i = 0; i < rounds; i++) {
		unsigned tmo = i < (int)tmos.size() ? tmos[(size_t)i] : r.chance(50) ? r.pick(tmos) : 1 + (unsigned)(r.u64() >> 32 >> r.below(32));
		if (i >= 40 && r.chance(20)) tmo = 0;
		if (tmo == 0 && i < (int)tmos.size()) tmo = 1;
		size_t max = r.pick(std::vector<size_t>{100, 4096, 33000, 65532, 65532});
		struct dynmbox *b = fresh(max);
		std::deque<M> q;
		fill(b, max, q);
		size_t big = pick_blocked(max, q);
		bool ok;
		bool room0 = twin(max, q, big, &ok) == 0;
		/* consumer script: instants and number of peeks */
		std::vector<std::pair<int64_t, size_t>> script;
		int64_t at = 0;
		int nst = tmo == 0 ? 6 : (int)r.below(5);
		int64_t span = tmo == 0 ? (int64_t)1 << 40 : (int64_t)tmo * 1000000;
		for (int k = 0; k < nst; k++) { at += (int64_t)r.below((uint64_t)span / 3 + 1); script.push_back({at, r.chance(50) ? 1 : 1 + r.below(q.size() + 1)}); }
		if (tmo == 0) script.push_back({at + 1000000, q.size()});
		/* the system time may be changed meanwhile */
		wd::step_at = INT64_MAX;
		wd::step_by = 0;
		if (r.chance(35)) {
			wd::step_at = (int64_t)r.below((uint64_t)span);
			wd::step_by = (r.chance(60) ? 1 : -1) * (int64_t)(r.chance(30) ? r.below(10000000) : r.chance(50) ? r.below(2 * (uint64_t)span) : 1000000000ull * r.below(1000000000));
			if (-wd::step_by > 1000000000ll * 700000000) wd::step_by = -wd::step_by;
			stat("changes of the system time during a push");
		}
		size_t si = 0;
		int64_t enough_at = room0 ? 0 : -1;
		bool orderok = true;
		wd::virt = true;
		wd::vnow_ns = 0;
		wd::on_wait = [&](int64_t until) -> bool {
			if (si >= script.size() || script[si].first >= until) return false;
			if (wd::vnow_ns < script[si].first) wd::vnow_ns = script[si].first;
			wd::t.active = false;
			wd::virt = false;
			for (size_t k = 0; k < script[si].second && !q.empty(); k++) { orderok &= peek_expect(b, q.front(), "virtual consumer"); q.pop_front(); }
			if (enough_at < 0) { bool ok2; if (twin(max, q, big, &ok2) == 0) enough_at = wd::vnow_ns; }
			wd::virt = true;
			wd::t.active = true;
			si++;
			return true;
		};
		wd::seed(r.u64(), 0, 0, 0);
		wd::t.eintr_pct = (unsigned)r.pick(std::vector<int>{0, 10, 40});
		Buf m(big);
		compose(m.p, big, 7);
		/* EINTR injection also hits read/write of the notification pipe: those
		 * are non-blocking and cannot be interrupted, so keep it to waits */
		wd::describe = [&]() { return fmt("timeout %u ms, size %zu of %zu, room %s, %zu of %zu consumer steps done", tmo, big, max, enough_at < 0 ? "never" : fmt("at %.3f ms", (double)enough_at / 1e6).c_str(), si, script.size()); };
		int rc = LIB(dynmbox_push_block(b, m.p, big, tmo));
		int64_t el = wd::vnow_ns;
		wd::on_wait = nullptr;
		wd::describe = nullptr;
		wd::virt = false;
		std::string stp = wd::step_at == INT64_MAX ? "" : fmt(", system time changed by %.3f s at %.3f ms", (double)wd::step_by / 1e9, (double)wd::step_at / 1e6);
		wd::step_at = INT64_MAX;
		uint64_t inj = wd::t.eintr;
		wd::flush_stats();
		wd::seed(1, 0, 0, 0);
		std::string id = fmt("timeout %u ms, size %zu of %zu, %zu consumer steps (%zu done), room %s, %" PRIu64 " spurious wake-ups%s: rc=%d after %.3f ms", tmo, big, max, script.size(), si,
				     enough_at < 0 ? "never" : fmt("at %.3f ms", (double)enough_at / 1e6).c_str(), inj, stp.c_str(), rc, (double)el / 1e6);
		if (rc == 0) CHECK(enough_at >= 0, "push_block reports success without room", "%s", id.c_str());
		else if (tmo == 0) viol("push_block without timeout fails", id);
		else {
			CHECK(rc == -ETIMEDOUT, "push_block error", "%s", id.c_str());
			CHECK((double)el >= (double)tmo * 1e6 * 0.9999 - 1e6, "push_block timed out early", "%s", id.c_str());
			CHECK((double)el <= (double)tmo * 2e6 + 1e9, "push_block timed out late", "%s", id.c_str());
			CHECK(enough_at < 0, "push_block times out with room in the mailbox", "%s", id.c_str());
		}
		if (rc == 0) q.push_back({big, 7});
		while (orderok && !q.empty()) { orderok = peek_expect(b, q.front(), "after push_block"); q.pop_front(); }
		if (orderok) { Buf o(max); ssize_t k = dynmbox_peek(b, o.p); CHECK(k == -EAGAIN, "push_block failed but queued its message, or queued it twice", "%s: peek gives %zd", id.c_str(), k); }
		eval(mix(mix(tmo, big), mix((uint64_t)enough_at, mix(inj, (uint64_t)(rc + 200)))));
		stat(rc == 0 ? "virtual successes" : "virtual timeouts");
		if (i % 60 == 0) sample(id);
		LIB((dynmbox_destroy(b), 0));
	}
}

/* ---------------- blocking push in real time ---------------- */
struct BArg { struct dynmbox *b; uint8_t *m; size_t n; unsigned tmo; int rc; double el; unsigned dp; uint64_t seed; std::atomic<bool> done{false}; };
static void *blocker(void *x)
{
	BArg &a = *(BArg *)x;
	wd::seed(a.seed, a.dp, 0, 0);
	double t0 = now();
	a.rc = LIB(dynmbox_push_block(a.b, a.m, a.n, a.tmo));
	a.el = now() - t0;
	a.done = true;
	return nullptr;
}
static void realtime_rounds(int rounds)
{
	Rng &r = rng();
	for (int i = 0; i < rounds; i++) {
		size_t max = r.pick(std::vector<size_t>{4096, 33000, 65532, 65532});
		struct dynmbox *b = fresh(max);
		std::deque<M> q;
		fill(b, max, q);
		size_t big = pick_blocked(max, q);
		bool ok;
		Buf m(big);
		compose(m.p, big, 7);
		size_t used = 0;
		for (auto &m2 : q) used += m2.n + 4;
		/* the twin decides; the estimate only saves asking it in vain */
		auto has_room = [&]() { return used + big + 4 <= 65536 && twin(max, q, big, &ok) == 0; };
		bool room = has_room();
		int kind = i % 3; /* 0 times out, 1/2 room is made */
		BArg a;
		a.b = b; a.m = m.p; a.n = big;
		a.dp = (unsigned)r.pick(std::vector<int>{0, 30});
		a.seed = r.u64();
		a.tmo = kind == 0 ? (unsigned)r.range(1, 50) : r.pick(std::vector<unsigned>{0, 0, 100000, 4294967, 4294968, 5000000, INT_MAX, UINT_MAX});
		pthread_t th;
		pthread_create(&th, nullptr, blocker, &a);
		if (kind != 0) {
			if (r.chance(70)) usleep((useconds_t)r.below(20000));
			while (!room) {
				/* one message at a time: the last one makes the room, then silence */
				if (q.empty()) break;
				size_t k = kind == 1 ? 1 : 1 + r.below(3);
				while (k-- && !q.empty()) { wd::seed(r.u64(), a.dp, 0, 0); peek_expect(b, q.front(), "consumer"); used -= q.front().n + 4; q.pop_front(); }
				room = has_room();
				tick();
				if (r.chance(20)) pthread_kill(th, SIGUSR1);
				if (q.size() < 40 || r.chance(5)) usleep((useconds_t)r.below(300));
				if (a.done.load() && !room) break;
			}
			double t0 = now();
			while (!a.done.load() && now() - t0 < 20) usleep(300);
			if (!a.done.load()) {
				viol("push_block does not complete after room was made", fmt("timeout %u size %zu, %zu messages pending", a.tmo, big, q.size()));
				Buf o(max);
				while (!a.done.load()) { dynmbox_peek(b, o.p); usleep(1000); }
				pthread_join(th, nullptr);
				return;
			}
		} else {
			double t0 = now();
			while (!a.done.load() && now() - t0 < 20) { usleep(1000); if (r.chance(50) && !a.done.load()) { pthread_kill(th, SIGUSR1); stat("signals"); } }
			if (!a.done.load()) { viol("push_block does not time out", fmt("timeout %u", a.tmo)); Buf o(max); while (!a.done.load()) { dynmbox_peek(b, o.p); usleep(1000); } pthread_join(th, nullptr); return; }
		}
		pthread_join(th, nullptr);
		std::string id = fmt("timeout %u ms size %zu of %zu: rc=%d after %.2f ms", a.tmo, big, max, a.rc, a.el * 1e3);
		if (kind == 0 && !room) {
			CHECK(a.rc == -ETIMEDOUT, "push_block on a full mailbox", "%s", id.c_str());
			CHECK(a.el * 1e3 >= a.tmo * 0.99 - 1.5, "push_block timed out early", "%s", id.c_str());
			stat("real timeouts");
		} else {
			CHECK(a.rc == 0, "push_block fails although room was made", "%s", id.c_str());
			stat("real wake-ups");
		}
		if (a.rc == 0) q.push_back({big, 7});
		bool good = true;
		while (good && !q.empty()) { good = peek_expect(b, q.front(), "after push_block"); q.pop_front(); }
		if (good) { Buf o(max); CHECK(dynmbox_peek(b, o.p) == -EAGAIN, "message count after push_block", "%s", id.c_str()); }
		eval(mix(mix(a.tmo, big), (uint64_t)(a.el * 1e6)));
		tick();
		if (i < 4) sample(id);
		dynmbox_destroy(b);
	}
	wd::flush_stats();
}

void mon::run()
{
	Rng &r = rng();
	bool th = conf().thorough;
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_handler = on_sig;
	sigaction(SIGUSR1, &sa, nullptr);
	watchdog(45);
	const std::string &md = conf().mode;
	if (md == "single") {
		creation();
		positions();
		for (int i = 0; i < (th ? 60 : 2); i++) for (int c : {4096, 8192, 0}) flood(c);
		marathon(th ? 20000000 : 150000, 1000, false);
		marathon(th ? 800000 : 72000, MAXSZ, true); /* above 2^32 bytes */
		crowd(th ? 150 : 60);
		for (int i = 0; i < (th ? 1500 : 50); i++) history(500);
	} else if (md == "mt") {
		for (int i = 0; i < (th ? 2000 : 70); i++) round_spsc(i, true, false);
	} else if (md == "tsan") {
		for (int i = 0; i < (th ? 500 : 20); i++) round_spsc(i, false, true);
	} else if (md == "virtual") {
		struct dynmbox *b = dynmbox_new(1000);
		std::deque<M> q;
		fill(b, 1000, q);
		Buf m(1000);
		if (wd::virtual_usable([&]() { return dynmbox_push_block(b, m.p, 1000, 30); })) virtual_rounds(th ? 6000 : 220);
		else realtime_rounds(th ? 3000 : 90);
		dynmbox_destroy(b);
	} else if (md == "real") {
		realtime_rounds(th ? 3000 : 90);
	}
	(void)r;
}
