/* C41: functions working on distinct objects can be used by several threads at
 * once. Oracle: each work (a deterministic sequence of calls on its own
 * objects) gives, while others run, the digest it gives alone; under TSan,
 * hidden shared state is a race. */
#include "mon.h"
#include "futils/dynmbox.h"
#include "futils/fdutils.h"
#include "futils/fs.h"
#include "futils/futils.hpp"
#include "futils/hash.h"
#include "futils/inotify.h"
#include "futils/list.h"
#include "futils/mbox.h"
#include "futils/safew.h"
#include "futils/string.h"
#include "futils/synctools.h"
#include "futils/systimetools.h"
#include "futils/timetools.h"
extern "C" {
#include "futils/varint.h"
}
#include <sys/inotify.h>
#include <sys/time.h>
using namespace mon;

static std::string base;
struct D { /* digest of everything a work saw */
	uint64_t h = 1;
	uint64_t n = 0;
	void add(uint64_t v) { h = mix(h, v); n++; }
	void add(const void *p, size_t l) { h = mix(h, hstr(p, l)); n++; }
	void add(const std::string &s) { add(s.data(), s.size()); }
};
typedef void (*Work)(Rng &, D &, const std::string &dir, int n);

static void w_systime(Rng &r, D &d, const std::string &, int n)
{
	for (int i = 0; i < n; i++) {
		uint64_t t = r.below(253402300800ull), e = 0;
		int32_t off = (int32_t)r.range(-1439, 1439) * 60, o = 0;
		char b[64] = "";
		d.add((uint64_t)time_local_format(t, off, (enum time_fmt)r.below(3), b, sizeof b));
		d.add(std::string(b));
		d.add((uint64_t)time_local_parse(b, &e, &o));
		d.add(e); d.add((uint64_t)o);
		struct tm tm;
		memset(&tm, 0, sizeof tm);
		d.add((uint64_t)time_local_to_tm(t, off, &tm));
		d.add((uint64_t)tm.tm_year * 400 + (uint64_t)tm.tm_yday); d.add((uint64_t)(tm.tm_hour * 3600 + tm.tm_min * 60 + tm.tm_sec)); d.add((uint64_t)tm.tm_wday);
		d.add((uint64_t)time_local_from_tm(&tm, &e, &o));
		d.add(e); d.add((uint64_t)o);
		struct time_ctx c;
		time_ctx_init(&c);
		snprintf(b, sizeof b, "%04d-%02d-%02d", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday);
		d.add((uint64_t)time_ctx_set_date(&c, b));
		snprintf(b, sizeof b, "T%02d%02d%02d+0130", tm.tm_hour, tm.tm_min, tm.tm_sec);
		d.add((uint64_t)time_ctx_set_hour(&c, b));
		d.add((uint64_t)time_ctx_get_local(&c, &e, &o));
		d.add(e); d.add((uint64_t)o);
		if (r.chance(20)) { uint16_t ms; d.add((uint64_t)time_local_ms_get(&e, &ms, &o)); d.add((uint64_t)o); d.add((uint64_t)(ms < 1000)); }
	}
}
static void w_time(Rng &r, D &d, const std::string &, int n)
{
	for (int i = 0; i < n * 4; i++) {
		struct timespec a = {(time_t)r.below(1u << 30), (long)r.below(1000000000)}, b = {(time_t)r.below(1u << 30), (long)r.below(1000000000)}, c = {0, 0};
		uint64_t u = 0;
		int sg = 0;
		d.add((uint64_t)time_timespec_cmp(&a, &b));
		d.add((uint64_t)time_timespec_diff_us(&a, &b, &u, &sg)); d.add(u); d.add((uint64_t)sg);
		if (time_timespec_cmp(&a, &b) < 0) { d.add((uint64_t)time_timespec_diff(&a, &b, &c)); d.add((uint64_t)c.tv_sec); d.add((uint64_t)c.tv_nsec); }
		time_timespec_add_us(&a, (int64_t)r.below(1000000000), &c); d.add((uint64_t)c.tv_sec); d.add((uint64_t)c.tv_nsec);
		time_timespec_add_ns(&a, (int64_t)r.below(1000000000000ull), &c); d.add((uint64_t)c.tv_sec); d.add((uint64_t)c.tv_nsec);
		time_timespec_to_us(&a, &u); d.add(u);
		time_timespec_to_ns(&a, &u); d.add(u);
		time_timespec_to_ms(&a, &u); d.add(u);
		time_us_to_timespec(&u, &c); d.add((uint64_t)c.tv_sec); d.add((uint64_t)c.tv_nsec);
		d.add((uint64_t)time_get_monotonic(&c));
		d.add((uint64_t)time_get_realtime(&c));
		d.add((uint64_t)time_timespec_diff_now(&a, &c));
		d.add((uint64_t)time_monotonic_to_realtime_us(1000000, &u));
		d.add((uint64_t)time_monotonic_to_realtime_ms(1000, &u));
		if (r.below(400) == 0) { time_get_monotonic(&a); d.add((uint64_t)time_msleep(1)); time_get_monotonic(&b); d.add((uint64_t)(time_timespec_diff(&a, &b, &c) == 0 && (c.tv_sec || c.tv_nsec >= 1000000))); }
	}
}
static void w_varint(Rng &r, D &d, const std::string &, int n)
{
	for (int i = 0; i < n * 6; i++) {
		uint8_t b[12] = {0};
		size_t l = 0;
		uint64_t v = r.u64() >> r.below(64), u = 0;
		int64_t s = 0;
		d.add((uint64_t)futils_varint_write_u64(b, sizeof b, v, &l)); d.add(b, l);
		d.add((uint64_t)futils_varint_read_u64(b, l, &u, &l)); d.add(u); d.add(l);
		d.add((uint64_t)futils_varint_write_i64(b, sizeof b, (int64_t)v, &l)); d.add(b, l);
		d.add((uint64_t)futils_varint_read_i64(b, l, &s, &l)); d.add((uint64_t)s);
		uint32_t w = 0;
		d.add((uint64_t)futils_varint_write_u32(b, sizeof b, (uint32_t)v, &l)); d.add(b, l);
		d.add((uint64_t)futils_varint_read_u32(b, l, &w, &l)); d.add(w);
		int16_t h = 0;
		d.add((uint64_t)futils_varint_write_i16(b, sizeof b, (int16_t)v, &l)); d.add(b, l);
		d.add((uint64_t)futils_varint_read_i16(b, l, &h, &l)); d.add((uint64_t)h);
	}
}
static void w_text(Rng &r, D &d, const std::string &, int n)
{
	static const char *parts[] = {"a", "Z", "é", "日", "😀", "/", ":", "\x80", "?", "long enough to matter", "É"};
	for (int i = 0; i < n; i++) {
		std::string s;
		for (size_t k = r.below(30); k; k--) s += parts[r.below(r.chance(90) ? 7 : 11)];
		char o[200];
		memset(o, 0, sizeof o);
		d.add((uint64_t)futils_string_sanitize_utf8(s.c_str(), o, 2 + r.below(190), FUTILS_STRING_EXFAT_FORBIDDEN, L'_')); d.add(std::string(o));
		d.add((uint64_t)futils_string_check_utf8(s.c_str(), r.below(100), r.below(60), r.chance(50) ? FUTILS_STRING_EXFAT_FORBIDDEN : nullptr));
		d.add(futils::string::convertToLowerCase(s));
		d.add((uint64_t)futils::string::startsWith(s, "a")); d.add((uint64_t)futils::string::endsWith(s, "Z"));
		std::string p = r.chance(50) ? "/" : "";
		for (size_t k = r.below(5); k; k--) p += fmt("%c%llu", r.chance(70) ? '/' : 'x', (unsigned long long)r.below(99));
		d.add(futils::fs::dirname(p)); d.add(futils::fs::basename(p));
	}
}
static void put(const std::string &p, const std::string &s)
{
	int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0666);
	if (fd < 0 || write(fd, s.data(), s.size()) != (ssize_t)s.size()) harness_error("put " + p);
	close(fd);
}
static std::string get(const std::string &p)
{
	std::string s;
	int fd = open(p.c_str(), O_RDONLY | O_CLOEXEC);
	if (fd < 0) return "(absent)";
	char b[4096];
	ssize_t k;
	while ((k = read(fd, b, sizeof b)) > 0) s.append(b, (size_t)k);
	close(fd);
	return s;
}
static void w_fs(Rng &r, D &d, const std::string &dir, int n)
{
	std::string t = dir + "/tree";
	mkdir(t.c_str(), 0777);
	mkdir((t + "/sub").c_str(), 0777);
	for (int i = 0; i < n / 12 + 1; i++) {
		put(t + fmt("/f%llu", (unsigned long long)r.below(6)), r.bytes(r.below(5000)));
		put(t + fmt("/sub/g%llu", (unsigned long long)r.below(4)), r.bytes(r.below(5000)));
		d.add((uint64_t)futils_fs_dir_size(t.c_str(), true));
		d.add((uint64_t)futils_fs_dir_size(t.c_str(), false));
		d.add((uint64_t)futils_fs_dir_size((t + "/none").c_str(), true));
		if (r.chance(20)) { d.add((uint64_t)sync_file_and_folder((t + "/f0").c_str())); d.add((uint64_t)sync_folder(t.c_str())); d.add((uint64_t)sync_file((t + "/missing").c_str())); }
	}
}
static void w_safew(Rng &r, D &d, const std::string &dir, int n)
{
	std::string p = dir + "/doc", q = dir + "/crc";
	for (int i = 0; i < n / 12 + 1; i++) {
		bool crc = r.chance(50);
		const std::string &f = crc ? q : p;
		struct futils_safew_file *s = futils_safew_fopen(f.c_str());
		if (!s) { viol("fopen fails beside other threads", f); return; }
		std::string c = r.bytes(r.below(9000));
		d.add((uint64_t)futils_safew_fwrite(c.data(), 1, c.size(), s));
		d.add((uint64_t)futils_safew_fprintf(s, "%d %s", i, "tail"));
		int how = (int)r.below(4);
		d.add((uint64_t)(how == 0 ? futils_safew_fclose_rollback(s) : crc ? futils_safew_fclose_commit_with_crc(s) : futils_safew_fclose_commit(s)));
		d.add(get(f));
		if (crc) { d.add((uint64_t)futils_safew_file_check(q.c_str())); d.add(get(q)); }
	}
}
static void w_hash(Rng &r, D &d, const std::string &, int n)
{
	struct hash h;
	int v[64];
	d.add((uint64_t)futils_hash_init(&h, r.below(100), nullptr));
	for (int i = 0; i < n * 4; i++) {
		uint32_t k = (uint32_t)r.below(64);
		void *p = nullptr;
		switch (r.below(4)) {
		case 0: case 1: d.add((uint64_t)futils_hash_insert(&h, k, &v[k])); break;
		case 2: d.add((uint64_t)futils_hash_remove(&h, k)); break;
		default: d.add((uint64_t)futils_hash_lookup(&h, k, &p)); d.add((uint64_t)(p ? (int *)p - v : -1)); break;
		}
		if (r.below(200) == 0) d.add((uint64_t)futils_hash_remove_all(&h));
	}
	d.add((uint64_t)futils_hash_destroy(&h));
}
struct Item { int v; struct list_node node; };
static void w_list(Rng &r, D &d, const std::string &, int n)
{
	struct list_node head, *pos, *tmp;
	list_init(&head);
	std::vector<Item> it(40);
	for (int i = 0; i < 40; i++) { it[(size_t)i].v = i; list_node_unref(&it[(size_t)i].node); }
	for (int i = 0; i < n * 4; i++) {
		Item &x = it[r.below(40)];
		if (list_node_is_unref(&x.node)) { if (r.chance(50)) list_add_after(&head, &x.node); else list_add_before(&head, &x.node); }
		else list_del(&x.node);
		if (r.below(50) == 0) {
			d.add((uint64_t)list_length(&head));
			list_walk_forward_safe(&head, pos, tmp) { Item *e = list_entry(pos, Item, node); d.add((uint64_t)e->v); }
		}
	}
}
static void w_mbox(Rng &r, D &d, const std::string &, int n)
{
	size_t sz = 1 + r.below(300);
	struct mbox *m = mbox_new(sz);
	struct dynmbox *y = dynmbox_new(1 + r.below(40000));
	if (!m || !y) harness_error("mailbox creation");
	std::vector<char> b(65536);
	for (int i = 0; i < n * 2; i++) {
		std::string s = r.bytes(sz);
		switch (r.below(6)) {
		case 0: case 1: d.add((uint64_t)mbox_push(m, s.data())); break;
		case 5: {
			bool fixed = r.chance(70);
			/* full: the timeout passes; else queued at once. Fill first: each wait costs real time */
			unsigned ms = r.chance(10) ? 1 : 100000;
			if (ms == 1 && r.chance(50)) {
				if (fixed) while (mbox_push(m, s.data()) == 0) d.add(7);
				else while (dynmbox_push(y, s.data(), std::min((uint32_t)s.size(), (uint32_t)dynmbox_get_max_size(y))) == 0) d.add(8);
			}
			if (ms != 1) { /* make room */
				if (fixed) for (int k = 0; k < (int)(4096 / sz) + 2 && mbox_peek(m, b.data()) == 0; k++) d.add(b.data(), sz);
				else while (dynmbox_peek(y, b.data()) >= 0) d.add(9);
			}
			d.add((uint64_t)(fixed ? mbox_push_block(m, s.data(), ms) : dynmbox_push_block(y, s.data(), std::min((uint32_t)s.size(), (uint32_t)dynmbox_get_max_size(y)), ms)));
			break;
		}
		case 2: { int k = mbox_peek(m, b.data()); d.add((uint64_t)k); if (!k) d.add(b.data(), sz); break; }
		case 3: { s = r.bytes(r.below((uint64_t)dynmbox_get_max_size(y) + 1)); d.add((uint64_t)dynmbox_push(y, s.data(), (uint32_t)s.size())); break; }
		default: { ssize_t k = dynmbox_peek(y, b.data()); d.add((uint64_t)k); if (k > 0) d.add(b.data(), (size_t)k); break; }
		}
		struct pollfd p[2] = {{mbox_get_read_fd(m), POLLIN, 0}, {dynmbox_get_read_fd(y), POLLIN, 0}};
		poll(p, 2, 0);
		d.add((uint64_t)(p[0].revents & POLLIN) * 2 + (uint64_t)(p[1].revents & POLLIN));
	}
	mbox_destroy(m);
	dynmbox_destroy(y);
}
static void w_inotify(Rng &r, D &d, const std::string &dir, int n)
{
	std::string t = dir + "/watched";
	mkdir(t.c_str(), 0777);
	int fd = inotify_create(t.c_str(), IN_CREATE | IN_DELETE);
	if (fd < 0) { stat("no inotify descriptor left"); d.add(77); return; }
	d.add((uint64_t)fd_has_close_on_exec(fd));
	d.add((uint64_t)fd_add_flags(fd, O_NONBLOCK));
	for (int i = 0; i < n / 6 + 1; i++) {
		for (size_t k = r.below(12); k; k--) { std::string f = t + "/" + std::string(1 + r.below(60), (char)('a' + r.below(26))); put(f, ""); unlink(f.c_str()); }
		struct Seen { std::string s; } seen;
		inotify_process_fd(fd, [](struct inotify_event *e, void *p) { ((Seen *)p)->s += fmt("%x:%s;", e->mask, e->len ? e->name : ""); }, &seen);
		d.add(seen.s);
	}
	inotify_destroy(fd);
}
static const struct { const char *name; Work f; } works[] = {
	{"systime", w_systime}, {"time", w_time}, {"varint", w_varint}, {"text", w_text}, {"fs", w_fs}, {"safew", w_safew},
	{"hash", w_hash}, {"list", w_list}, {"mbox", w_mbox}, {"inotify", w_inotify},
};
static const int NW = 10;

/* one hash table and one list read by all threads */
struct Shared {
	struct hash h;
	std::vector<int> v;
	std::vector<Item> it;
	struct list_node head;
} sh;
static void shared_init()
{
	futils_hash_init(&sh.h, 17, nullptr);
	sh.v.resize(300);
	for (uint32_t k = 0; k < 300; k++) if (k % 3) futils_hash_insert(&sh.h, k, &sh.v[k]);
	sh.it.resize(60);
	list_init(&sh.head);
	for (int i = 0; i < 60; i++) { sh.it[(size_t)i].v = i; list_push(&sh.head, &sh.it[(size_t)i].node); }
}
static void w_read(Rng &r, D &d, const std::string &, int n)
{
	for (int i = 0; i < n * 4; i++) {
		uint32_t k = (uint32_t)r.below(320);
		void *p = nullptr;
		const void *q = nullptr;
		int rc = futils_hash_lookup(&sh.h, k, &p);
		d.add((uint64_t)rc);
		if (!rc && p != &sh.v[k]) viol("lookup in a shared table gives another entry", fmt("key %u", k));
		d.add((uint64_t)futils_hash_lookup_const(&sh.h, k, &q));
		if (i % 16 == 0) {
			uint64_t sum = 0;
			Item *e;
			list_walk_entry_forward(&sh.head, e, node) sum = sum * 31 + (uint64_t)e->v;
			d.add(sum);
			d.add((uint64_t)list_is_empty(&sh.head));
		}
	}
}

struct Th {
	pthread_t t;
	Work f;
	const char *name;
	uint64_t seed, want;
	uint64_t wn;
	std::string dir;
	int n;
	bool alone;
	D got;
};
static std::atomic<int> go{0}, ready{0};
static std::atomic<int> running{0}, most{0};
static void *th_main(void *a)
{
	Th *t = (Th *)a;
	if (!t->alone) {
		ready.fetch_add(1);
		while (!go.load()) sched_yield();
	}
	int k = running.fetch_add(1) + 1;
	if (k > most.load()) most.store(k);
	Rng r(t->seed);
	t->f(r, t->got, t->dir, t->n);
	running.fetch_sub(1);
	return nullptr;
}
static std::string fresh(int i)
{
	std::string d = base + fmt("/w%d", i);
	std::string c = "rm -rf -- '" + d + "'";
	if (d.compare(0, base.size(), base) || system(c.c_str())) harness_error("rm");
	mkdir(d.c_str(), 0777);
	return d;
}
static void rounds(int nround, int n, int nth)
{
	Rng &r = rng();
	shared_init();
	for (int it = 0; it < nround; it++) {
		bool same = r.chance(60); /* all threads of one kind: most likely to meet */
		int kind = it % (NW + 1);
		std::vector<Th> th((size_t)nth);
		std::string mixname;
		for (int i = 0; i < nth; i++) {
			int w = same ? kind : (int)r.below((uint64_t)NW + 1);
			Th &t = th[(size_t)i];
			t.f = w == NW ? w_read : works[w].f;
			t.name = w == NW ? "shared readers" : works[w].name;
			t.seed = r.u64();
			t.n = n;
			/* alone */
			t.alone = true;
			t.dir = fresh(i);
			pthread_create(&t.t, nullptr, th_main, &t);
			pthread_join(t.t, nullptr);
			t.want = t.got.h;
			t.wn = t.got.n;
			t.got = D();
			t.dir = fresh(i);
			t.alone = false;
			tick();
		}
		ready = 0; go = 0;
		for (auto &t : th) pthread_create(&t.t, nullptr, th_main, &t);
		while (ready.load() < nth) sched_yield();
		go = 1;
		for (auto &t : th) pthread_join(t.t, nullptr);
		for (auto &t : th) {
			CHECK(t.got.h == t.want && t.got.n == t.wn, fmt("%s: results differ beside other threads", t.name), "round %d, %" PRIu64 " results, seed %" PRIu64, it, t.got.n, t.seed);
			stat("results compared", (int64_t)t.got.n);
			stat(fmt("threads: %s", t.name));
			eval(mix(t.seed, t.want));
		}
		if (it < 6) sample(fmt("round %d: %d threads, first of kind %s, %" PRIu64 " results", it, nth, th[0].name, th[0].got.n));
	}
	stat_max("max:works running at once", most.load());
}
void mon::run()
{
	watchdog(90);
	base = scratch("conc");
	bool th = conf().thorough;
	if (conf().mode == "tsan") rounds(th ? 400 : 33, th ? 120 : 60, 4);
	else rounds(th ? 1200 : 66, 300, 8);
}
