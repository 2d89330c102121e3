/* C08, C09: hash table against a map model, ownership accounting. */
#include "mon.h"
#include "futils/hash.h"
#include <list>
#include <atomic>

using namespace mon;

struct MEnt { bool cst; void *data; };
struct Model {
	std::map<uint32_t, MEnt> m;
	std::list<uint32_t> order;
};

static const size_t sizes[] = {0, 1, 2, 3, 5, 7, 12, 13, 31, 60, 61, 127, 250, 509, 1000, 4093, 20000};

/* key families; each gives keys out of a limited universe so that hits happen */
static std::vector<uint32_t> universe(int fam, size_t n)
{
	Rng &r = rng();
	std::vector<uint32_t> v;
	uint32_t base = (uint32_t)r.u64();
	for (size_t i = 0; i < n; i++) {
		uint32_t k = 0;
		switch (fam) {
		case 0: k = (uint32_t)i; break;                          /* sequential from 0 */
		case 1: k = base + (uint32_t)i; break;                   /* sequential anywhere, wraps */
		case 2: k = (uint32_t)i << 8; break;
		case 3: k = (uint32_t)i << 24 | (uint32_t)(i >> 8); break; /* high byte */
		case 4: k = (uint32_t)r.u64(); break;
		case 5: k = 0xffffffffu - (uint32_t)i; break;
		case 6: k = base + (uint32_t)i * 61u * 31u; break;       /* strided */
		case 7: {                                                /* equal polynomial hash: +1 on a byte, -33 on the next */
			uint32_t t = (uint32_t)(i % 7), u = (uint32_t)((i / 7) % 7), w = (uint32_t)((i / 49) % 7);
			uint32_t b0 = t, b1 = 200 - 33 * t % 256, b2 = u, b3 = 200 - 33 * u % 256;
			k = (b0 & 255) | (b1 & 255) << 8 | ((b2 + w) & 255) << 16 | (b3 & 255) << 24;
			break; }
		default: k = 1u << (i % 32) | (uint32_t)(i / 32); break;
		}
		v.push_back(k);
	}
	return v;
}

static int live_frees;
static std::map<void *, int> freed;
static void on_free(void *p)
{
	live_frees++;
	freed[p]++;
	stat("freed");
}

static void check_list(struct hash &h, Model &md, const char *op)
{
	struct list_node *p;
	auto it = md.order.begin();
	size_t n = 0;
	list_walk_forward(&h.entries, p) {
		struct hash_entry *e = list_entry(p, struct hash_entry, node);
		if (n >= md.order.size()) { viol(fmt("entry list too long after %s", op), fmt("%zu entries expected", md.order.size())); return; }
		MEnt &me = md.m[*it];
		CHECK(e->key == *it, fmt("entry list order after %s", op), "position %zu key %u expected %u (%zu entries)", n, e->key, *it, md.order.size());
		CHECK(e->data == me.data && !!e->is_const == me.cst, fmt("entry list content after %s", op), "key %u", e->key);
		if (e->key != *it) return;
		++it;
		n++;
	}
	CHECK(n == md.order.size(), fmt("entry list too short after %s", op), "%zu entries, expected %zu", n, md.order.size());
	size_t b = 0;
	list_walk_backward(&h.entries, p) { if (++b > md.order.size()) break; }
	CHECK(b == md.order.size(), fmt("entry list broken backward after %s", op), "%zu entries, expected %zu", b, md.order.size());
}
static void check_key(struct hash &h, Model &md, uint32_t k, const char *op)
{
	void *sent = (void *)0x5a5a, *d = sent;
	const void *cd = sent;
	auto f = md.m.find(k);
	int want = f == md.m.end() ? -ENOENT : f->second.cst ? -EPERM : 0;
	int wantc = f == md.m.end() ? -ENOENT : 0;
	int rc = futils_hash_lookup(&h, k, &d), rcc = futils_hash_lookup_const(&h, k, &cd);
	CHECK(rc == want, fmt("lookup result after %s", op), "key %u rc=%d expected %d (size %u, %zu entries)", k, rc, want, h.size, md.m.size());
	CHECK(rcc == wantc, fmt("const lookup result after %s", op), "key %u rc=%d expected %d", k, rcc, wantc);
	if (rc == 0 && want == 0) CHECK(d == f->second.data, fmt("lookup data after %s", op), "key %u got %p expected %p", k, d, f->second.data);
	if (rcc == 0 && wantc == 0) CHECK(cd == f->second.data, fmt("const lookup data after %s", op), "key %u got %p expected %p", k, cd, f->second.data);
	if (rc != 0) CHECK(d == sent, "failed lookup changes the data pointer", "key %u rc=%d", k, rc);
}

static void history(int steps)
{
	Rng &r = rng();
	size_t sz = sizes[r.below(sizeof sizes / sizeof *sizes)];
	int fam = (int)r.below(9);
	size_t un = r.pick(std::vector<size_t>{1, 2, 4, 16, 100, 400});
	auto U = universe(fam, un);
	struct hash h;
	memset(&h, 0xc3, sizeof h);
	bool cb = r.chance(50);
	int rc = futils_hash_init(&h, sz, cb ? [](void *) {} : (void (*)(void *))nullptr);
	if (rc) { viol("init fails", fmt("size %zu rc=%d", sz, rc)); return; }
	stat(cb ? "maps with a callback" : "maps without callback");
	Model md;
	/* never dereferenced: any non-mapped value will do */
	uintptr_t tok = 0x10;
	int bias = (int)r.range(25, 75);
	check_list(h, md, "init");
	for (int s = 0; s < steps; s++) {
		uint32_t k = r.chance(96) ? r.pick(U) : (uint32_t)r.u64();
		auto f = md.m.find(k);
		int op;
		const char *nm;
		if (r.chance((unsigned)bias)) op = r.chance(70) ? 0 : 1;
		else op = r.below(300) == 0 ? 3 : r.chance(65) ? 2 : 4;
		int st = f == md.m.end() ? 0 : f->second.cst ? 2 : 1;
		switch (op) {
		case 0: case 1: {
			nm = op ? "insert_const" : "insert";
			void *d = r.chance(4) ? nullptr : (void *)(tok += 16);
			rc = op ? futils_hash_insert_const(&h, k, d) : futils_hash_insert(&h, k, d);
			if (f != md.m.end()) CHECK(rc == -EEXIST, fmt("%s of a present key", nm), "key %u rc=%d", k, rc);
			else {
				CHECK(rc == 0, fmt("%s of a new key", nm), "key %u rc=%d (size %zu, family %d)", k, rc, sz, fam);
				if (rc == 0) { md.m[k] = {op == 1, d}; md.order.push_back(k); }
			}
			break; }
		case 2:
			nm = "remove";
			rc = futils_hash_remove(&h, k);
			if (f == md.m.end()) CHECK(rc == -ENOENT, "remove of an absent key", "key %u rc=%d", k, rc);
			else { CHECK(rc == 0, "remove of a present key", "key %u rc=%d", k, rc); md.m.erase(k); md.order.remove(k); }
			break;
		case 3:
			nm = "remove_all";
			rc = futils_hash_remove_all(&h);
			CHECK(rc == 0, "remove_all", "rc=%d", rc);
			md.m.clear();
			md.order.clear();
			break;
		default:
			nm = "lookup";
			rc = futils_hash_lookup(&h, k, nullptr);
			CHECK(rc == (f == md.m.end() ? -ENOENT : f->second.cst ? -EPERM : 0), "lookup without data pointer", "key %u rc=%d", k, rc);
			CHECK(futils_hash_lookup_const(&h, k, nullptr) == (f == md.m.end() ? -ENOENT : 0), "const lookup without data pointer", "key %u", k);
			break;
		}
		check_key(h, md, k, nm);
		if (r.chance(20)) check_key(h, md, r.pick(U), nm);
		if (un <= 16 || r.chance(4)) check_list(h, md, nm);
		if ((un <= 16 && r.chance(30)) || r.below(400) == 0) for (uint32_t x : U) check_key(h, md, x, nm);
		eval(mix(mix((uint64_t)op * 3 + (uint64_t)st, sz), mix((uint64_t)(rc + 100), mix(md.m.size(), (uint64_t)fam))));
		stat("ops");
		stat_max("max:entries", (int64_t)md.m.size());
		if (s == 150) sample(fmt("size %zu (%u buckets) key family %d universe %zu: %zu entries after 150 calls, last %s(%u)=%d", sz, h.size, fam, un, md.m.size(), nm, k, rc));
	}
	for (uint32_t x : U) check_key(h, md, x, "history");
	check_list(h, md, "history");
	CHECK(futils_hash_destroy(&h) == 0, "destroy", "fails");
}

/* the macros are what users write */
static void macros()
{
	struct hash h;
	int a, b;
	void *d = nullptr;
	const void *cd = nullptr;
	CHECK(hash_init(&h, 10) == 0, "hash_init", "fails");
	CHECK(hash_insert(&h, 3, &a) == 0 && hash_insert_const(&h, 4, &b) == 0, "hash_insert macros", "fail");
	CHECK(hash_lookup(&h, 3, &d) == 0 && d == &a, "hash_lookup", "wrong");
	CHECK(hash_lookup_const(&h, 4, &cd) == 0 && cd == &b, "hash_lookup_const", "wrong");
	CHECK(hash_lookup(&h, 4, &d) == -EPERM, "hash_lookup of a const entry", "not refused");
	CHECK(hash_remove(&h, 3) == 0 && hash_lookup(&h, 3, &d) == -ENOENT, "hash_remove", "wrong");
	CHECK(hash_remove_all(&h) == 0 && hash_lookup_const(&h, 4, &cd) == -ENOENT, "hash_remove_all", "wrong");
	CHECK(hash_destroy(&h) == 0, "hash_destroy", "fails");
	CHECK(futils_hash_init(nullptr, 1, nullptr) == -EINVAL && futils_hash_destroy(nullptr) == -EINVAL &&
	      futils_hash_insert(nullptr, 1, &a) == -EINVAL && futils_hash_insert_const(nullptr, 1, &a) == -EINVAL &&
	      futils_hash_remove(nullptr, 1) == -EINVAL && futils_hash_remove_all(nullptr) == -EINVAL &&
	      futils_hash_lookup(nullptr, 1, &d) == -EINVAL && futils_hash_lookup_const(nullptr, 1, &cd) == -EINVAL,
	      "missing table", "not refused with -EINVAL");
}

static void own(int steps)
{
	Rng &r = rng();
	size_t sz = sizes[r.below(14)];
	int fam = (int)r.below(9);
	size_t un = r.pick(std::vector<size_t>{1, 3, 10, 60});
	auto U = universe(fam, un);
	bool cb = r.chance(75);
	freed.clear();
	struct hash *h = (struct hash *)malloc(sizeof *h);
	memset(h, 0x77, sizeof *h);
	if (futils_hash_init(h, sz, cb ? on_free : nullptr)) { viol("init fails", fmt("size %zu", sz)); return; }
	std::map<uint32_t, std::pair<void *, bool>> m;
	uintptr_t tok = 0x1000;
	std::map<void *, int> expect;
	auto settle = [&](const char *op) {
		CHECK(freed == expect, fmt("free callback calls after %s", op), "%zu data freed, %zu expected (table size %zu, callback %d)", freed.size(), expect.size(), sz, cb);
		if (freed != expect) { freed = expect; }
	};
	for (int s = 0; s < steps; s++) {
		uint32_t k = r.pick(U);
		int op = (int)r.below(20);
		auto f = m.find(k);
		if (op < 10) {
			/* now and then no data, or data which other entries hold too */
			void *d = r.chance(8) ? nullptr : r.chance(8) ? (void *)0x20 : (void *)(tok += 8);
			/* const entries only without a callback: owning const data is not specified */
			bool cst = !cb && r.chance(30);
			int rc = cst ? futils_hash_insert_const(h, k, d) : futils_hash_insert(h, k, d);
			if (f == m.end()) { if (rc == 0) m[k] = {d, cst}; else viol("insert", fmt("key %u rc=%d", k, rc)); }
			else CHECK(rc < 0, "insert of a present key", "rc=%d", rc);
			settle(f == m.end() ? "insert" : "refused insert");
			eval(mix(mix(f != m.end(), sz), m.size()));
		} else if (op < 16) {
			if (f != m.end() && cb) expect[f->second.first]++;
			futils_hash_remove(h, k);
			bool had = f != m.end();
			if (had) m.erase(f);
			settle(had ? "remove" : "remove of an absent key");
			eval(mix(mix(2 + had, sz), m.size()));
		} else if (op < 19) {
			void *d;
			const void *cd;
			futils_hash_lookup(h, k, &d);
			futils_hash_lookup_const(h, k, &cd);
			settle("lookup");
			eval(mix(mix(4, sz), m.size()));
		} else if (r.chance(30)) {
			if (cb) for (auto &e : m) expect[e.second.first]++;
			size_t n = m.size();
			futils_hash_remove_all(h);
			m.clear();
			settle("remove_all");
			eval(mix(mix(5, sz), n));
			CHECK(list_is_empty(&h->entries), "remove_all leaves entries", "%zu", n);
		}
	}
	if (cb) for (auto &e : m) expect[e.second.first]++;
	if (!cb) stat("tables without callback");
	futils_hash_destroy(h);
	settle("destroy");
	eval(mix(mix(6, sz), m.size()));
	free(h);
	if (r.below(40) == 0) sample(fmt("table size %zu family %d callback %d: %zu data freed exactly once over %d steps", sz, fam, cb, expect.size(), steps));
	expect.clear(); freed.clear(); m.clear(); U.clear(); U.shrink_to_fit();
}

/* heap balance, in a phase where the harness itself allocates nothing */
static void balance()
{
	Rng &r = rng();
	if (!heap_bytes()) harness_error("no allocator statistics");
	for (int i = 0; i < (conf().thorough ? 3000 : 300); i++) {
		struct hash h;
		size_t sz = sizes[r.below(16)];
		size_t n = r.chance(20) ? 0 : r.below(100);
		size_t b0 = heap_bytes();
		futils_hash_init(&h, sz, nullptr);
		for (size_t k = 0; k < n; k++) {
			futils_hash_insert(&h, (uint32_t)r.below(64), &h);
			futils_hash_insert_const(&h, (uint32_t)r.below(64), &h);
			if (r.chance(30)) futils_hash_remove(&h, (uint32_t)r.below(64));
			if (r.below(200) == 0) futils_hash_remove_all(&h);
		}
		if (r.chance(n ? 20 : 5)) {
			futils_hash_remove_all(&h);
			futils_hash_insert(&h, 5, &h);
		}
		futils_hash_destroy(&h);
		size_t b1 = heap_bytes();
		CHECK(b0 == b1, "memory left after destroy", "%zd bytes after %zu steps on a table of size %zu", (ssize_t)(b1 - b0), n, sz);
		stat("balanced tables");
	}
}

/* ---- large tables, large populations ---- */
static std::vector<char> mark; /* calls of the callback per datum number */
static std::atomic<int64_t> wild{0};
static char *arena0;
static void on_free_large(void *p)
{
	size_t i = (size_t)((char *)p - arena0);
	if ((char *)p < arena0 || i >= mark.size()) { wild++; return; }
	mark[i]++;
}
static void large(size_t sz, size_t pop, int fam, bool own)
{
	Rng &r = rng();
	auto key = [&](uint64_t i) -> uint32_t {
		switch (fam) {
		case 0: return (uint32_t)i;
		case 1: return (uint32_t)(i * 0x9e3779b1u + 12345); /* all over, a bijection */
		case 2: return (uint32_t)(0xffffffffu - i);
		case 3: return (uint32_t)((i << 16) | (i >> 16));
		default: return (uint32_t)(i * 4099u);
		}
	};
	struct hash h;
	memset(&h, 0x3b, sizeof h);
	static char anchor;
	arena0 = &anchor; /* data are never dereferenced */
	mark.assign(pop * 2, 0);
	wild = 0;
	int rc = futils_hash_init(&h, sz, own ? on_free_large : nullptr);
	if (rc) { viol("init fails", fmt("size %zu rc=%d", sz, rc)); return; }
	std::vector<uint8_t> state(pop, 0);        /* 0 absent, 1 data, 2 const data */
	std::vector<uint32_t> dat(pop, 0), pos(pop, 0), order; /* order: numbers in order of insertion, pos: where */
	const uint32_t none = UINT32_MAX;
	std::vector<char> expect(pop * 2, 0);
	size_t live = 0, nextdat = 0;
	auto ins = [&](uint32_t i) {
		bool cst = !own && r.below(4) == 0;
		if (nextdat >= pop * 2) nextdat = 0;
		char *d = arena0 + nextdat;
		int rc = cst ? futils_hash_insert_const(&h, key(i), d) : futils_hash_insert(&h, key(i), d);
		if (state[i]) CHECK(rc == -EEXIST, "insert of a present key", "large: key %u rc=%d (size %zu, %zu entries)", key(i), rc, sz, live);
		else {
			CHECK(rc == 0, "insert of a new key", "large: key %u rc=%d (size %zu, %zu entries)", key(i), rc, sz, live);
			if (rc == 0) { state[i] = cst ? 2 : 1; dat[i] = (uint32_t)nextdat; pos[i] = (uint32_t)order.size(); order.push_back(i); live++; nextdat++; }
		}
	};
	auto look = [&](uint32_t i) {
		void *d = nullptr;
		const void *cd = nullptr;
		int rc = futils_hash_lookup(&h, key(i), &d), rcc = futils_hash_lookup_const(&h, key(i), &cd);
		CHECK(rc == (state[i] == 0 ? -ENOENT : state[i] == 2 ? -EPERM : 0) && rcc == (state[i] ? 0 : -ENOENT), "lookup result, large table", "key %u rc=%d,%d state %d (size %zu, %zu entries)", key(i), rc, rcc, state[i], sz, live);
		if (state[i] == 1 && rc == 0) CHECK(d == arena0 + dat[i], "lookup data, large table", "key %u", key(i));
		if (state[i] && rcc == 0) CHECK(cd == arena0 + dat[i], "const lookup data, large table", "key %u", key(i));
	};
	auto settle = [&](const char *op) {
		CHECK(wild == 0, fmt("free callback calls after %s", op), "large: %" PRId64 " unknown data freed", wild.load());
		if (own) CHECK(mark == expect, fmt("free callback calls after %s", op), "large: size %zu %zu entries", sz, live);
		size_t n = 0, bad = 0, at = 0;
		struct list_node *p;
		list_walk_forward(&h.entries, p) {
			while (at < order.size() && order[at] == none) at++;
			struct hash_entry *e = list_entry(p, struct hash_entry, node);
			if (at >= order.size() || e->key != key(order[at])) { bad++; break; }
			at++;
			n++;
		}
		CHECK(!bad && n == live, fmt("entry list order after %s", op), "large: size %zu, %zu of %zu entries in order", sz, n, live);
	};
	auto rem = [&](uint32_t i) {
		int rc = futils_hash_remove(&h, key(i));
		CHECK(rc == (state[i] ? 0 : -ENOENT), state[i] ? "remove of a present key" : "remove of an absent key", "large: key %u rc=%d (size %zu, %zu entries)", key(i), rc, sz, live);
		if (state[i]) { expect[dat[i]] += own; state[i] = 0; order[pos[i]] = none; live--; }
	};
	for (uint32_t i = 0; i < pop; i++) { ins(i); if (i % 64 == 0) look((uint32_t)r.below(pop)); if (i % 4096 == 0) tick(); }
	settle("large insert");
	for (uint32_t i = 0; i < pop; i++) { look(i); if (i % 4096 == 0) tick(); }
	for (size_t k = 0; k < pop; k++) {
		uint32_t i = (uint32_t)r.below(pop);
		if (r.chance(40)) rem(i); else if (r.chance(40)) { if (nextdat < pop * 2) ins(i); } else look(i);
		if (k % 4096 == 0) tick();
	}
	settle("large history");
	for (uint32_t i = 0; i < pop; i++) look(i);
	tick();
	if (r.chance(50)) {
		rc = futils_hash_remove_all(&h);
		CHECK(rc == 0 && list_is_empty(&h.entries), "remove_all", "large: rc=%d", rc);
		for (uint32_t i = 0; i < pop; i++) if (state[i]) { expect[dat[i]] += own; state[i] = 0; }
		order.clear();
		live = 0;
		settle("remove_all");
		for (uint32_t i = 0; i < pop; i += 7) look(i);
	}
	futils_hash_destroy(&h);
	for (uint32_t i = 0; i < pop; i++) if (state[i]) expect[dat[i]] += own;
	if (own) CHECK(mark == expect, "free callback calls after destroy", "large: size %zu", sz);
	eval(mix(mix(sz, pop), mix((uint64_t)fam, own)));
	stat("large tables");
	stat_max("max:entries", (int64_t)pop);
	stat_max("max:table size", (int64_t)sz);
	sample(fmt("large: size %zu, %zu keys of family %d, %s callback", sz, pop, fam, own ? "with" : "without"));
}
/* every requested size: either a working table or no memory */
static void table_sizes()
{
	Rng &r = rng();
	std::vector<size_t> S;
	for (int b = 0; b < 64; b++) for (int d = -3; d <= 1; d++) S.push_back(((size_t)1 << b) + (size_t)d);
	for (size_t p : {1021u, 2039u, 8191u, 16381u, 32749u, 65521u, 131071u, 262139u, 524287u, 1048573u}) for (int d = -1; d <= 1; d++) S.push_back(p + (size_t)d);
	S.insert(S.end(), {SIZE_MAX, SIZE_MAX - 1, (size_t)UINT_MAX, (size_t)UINT_MAX + 1, (size_t)UINT_MAX + 2, (size_t)1 << 61, (size_t)1 << 60, ((size_t)1 << 61) + 1, 2147483647u, 2147483646u});
	for (size_t sz : S) {
		if (sz > ((size_t)1 << (conf().thorough ? 24 : 21)) && sz < ((size_t)1 << 28)) continue; /* costs memory only */
		struct hash h;
		memset(&h, 0x91, sizeof h);
		int rc = futils_hash_init(&h, sz, nullptr);
		tick();
		if (rc) {
			CHECK(sz >= ((size_t)1 << 28) && rc == -ENOMEM, "init fails", "size %zu rc=%d", sz, rc);
			stat("tables without memory");
			eval(mix(sz, (uint64_t)rc));
			continue;
		}
		std::map<uint32_t, int> m;
		for (int i = 0; i < 40; i++) {
			uint32_t k = i < 8 ? (uint32_t)sz + (uint32_t)i - 4 : (uint32_t)r.u64();
			int rc2 = futils_hash_insert(&h, k, (void *)(uintptr_t)(i + 1));
			CHECK(rc2 == (m.count(k) ? -EEXIST : 0), "insert of a new key", "size %zu key %u rc=%d", sz, k, rc2);
			if (rc2 == 0) m[k] = i + 1;
		}
		for (auto &e : m) {
			void *d = nullptr;
			CHECK(futils_hash_lookup(&h, e.first, &d) == 0 && d == (void *)(uintptr_t)e.second, "lookup result after insert", "size %zu key %u", sz, e.first);
		}
		for (auto &e : m) CHECK(futils_hash_remove(&h, e.first) == 0, "remove of a present key", "size %zu key %u", sz, e.first);
		CHECK(list_is_empty(&h.entries), "entry list too long after remove", "size %zu", sz);
		futils_hash_destroy(&h);
		eval(mix(sz, 0));
		stat("table sizes");
	}
}

void mon::run()
{
	Rng &r = rng();
	watchdog(60);
	bool th = conf().thorough;
	if (conf().mode == "model") {
		macros();
		for (int i = 0; i < (th ? 3000 : 200); i++) history(600);
	} else if (conf().mode == "large") {
		table_sizes();
		for (int fam = 0; fam < 5; fam++) {
			large(65521, th ? 700000 : 70000, fam, fam & 1);
			large((size_t)r.range(1, 70000), th ? 300000 : 40000, fam, !(fam & 1));
			if (th) { large(1048573, 2000000, fam, true); large(1000, 70000, fam, false); }
		}
		large(7, 3000, 0, true);
		large(0, th ? 40000 : 9000, 4, true); /* one chain, or a few */
		large(2, th ? 40000 : 12000, 0, false);
		large(1048573, th ? 100000 : 30000, 1, true);
	} else {
		for (int i = 0; i < (th ? 8000 : 500); i++) own(300);
		balance();
	}
}
