/* C39: every allocation of every call made to fail. */
#include "sysmon.h"
#include "alloc.h"
#include <sys/inotify.h>
#include <sys/ioctl.h>
#include "futils/hash.h"
#include "futils/mbox.h"
#include "futils/dynmbox.h"
#include "futils/safew.h"
#include "futils/string.h"
#include "futils/random.h"
#include "futils/fs.h"
#include "futils/synctools.h"
#include "futils/inotify.h"
#ifndef NO_CXX
#include "futils/fs.hpp"
#endif
using namespace mon;
using sm::nfds;
using sm::Dir;

static std::string base, wd;
/* what was synchronised since the last reset */
/* no allocation here */
static struct { uint64_t v[32]; size_t n; void clear() { n = 0; } size_t count(uint64_t x) const { for (size_t i = 0; i < n; i++) if (v[i] == x) return 1; return 0; } } synced;
static bool synced_all;
static void note_sync(int fd, int ret)
{
	struct stat st;
	if (ret == 0 && fstat(fd, &st) == 0) synced.v[synced.n++ % 32] = st.st_ino;
}
extern "C" {
int __real_fsync(int); int __wrap_fsync(int fd) { int k = __real_fsync(fd); int e = errno; note_sync(fd, k); errno = e; return k; }
int __real_fdatasync(int); int __wrap_fdatasync(int fd) { int k = __real_fdatasync(fd); int e = errno; note_sync(fd, k); errno = e; return k; }
int __real_syncfs(int); int __wrap_syncfs(int fd) { int k = __real_syncfs(fd); if (k == 0) synced_all = true; return k; }
void __real_sync(void); void __wrap_sync(void) { __real_sync(); synced_all = true; }
}
static uint64_t ino_of(const std::string &p) { struct stat st; if (stat(p.c_str(), &st)) harness_error(p); return st.st_ino; }
static int64_t balance() { return al::live.load() + (int64_t)heap_bytes(); }

enum R { OK, FAILED, WRONG };
struct Op {
	std::string name, par;
	std::function<void()> setup, teardown;
	std::function<R(std::string *)> call;          /* armed only inside the scope of Armed */
	std::function<std::string(bool)> state;         /* after the call (true: it succeeded); "" when as expected */
};
/* arms the allocator for the library call only */
static int64_t g_at;
static bool g_rest;
static int64_t g_failed, g_bal;
struct Armed {
	int64_t b0;
	Armed() { b0 = balance(); al::arm(g_at, g_rest); }
	~Armed() { g_failed += al::failed; al::disarm(); g_bal = balance() - b0; }
};
#define LIBCALL(x) ([&]() { Armed a_; return (x); }())

static void drive(const Op &op)
{
	/* without failures first: what the C library keeps gets allocated */
	std::string why;
	int f0 = nfds();
	for (int warm = 0; warm < 2; warm++) {
		g_at = -1; g_rest = false; g_failed = 0;
		op.setup();
		R r = op.call(&why);
		std::string s = r == OK ? op.state(true) : "";
		if (r != OK || !s.empty()) viol(op.name + ": call without any failure goes wrong", op.par + ": " + why + s);
		op.teardown();
	}
	int limit = conf().thorough ? 400 : 60;
	bool more = true;
	for (int at = 0; more && at < limit; at++) for (int rest = 0; rest < 2; rest++) {
		g_at = -1;
		g_failed = 0;
		op.setup();
		int f1 = nfds();
		g_at = at; g_rest = rest;
		why.clear();
		R r = op.call(&why);
		int64_t bal = g_bal, hit = g_failed;
		int f2 = nfds();
		g_at = -1;
		std::string ctx = fmt("%s, allocation %d%s failing", op.par.c_str(), at, rest ? " and the following" : "");
		if (!hit) {
			if (r != OK) viol(op.name + ": call without any failure goes wrong", ctx + ": " + why);
			more = false;
		} else {
			stat("failures injected");
			stat("failures injected: " + op.name);
			if (r == WRONG) viol(op.name + ": wrong result when an allocation fails", ctx + ": " + why);
			std::string s = op.state(r == OK);
			if (!s.empty()) viol(op.name + (r == OK ? ": succeeds with a wrong result when an allocation fails" : ": object changed by a call which failed"), ctx + ": " + s);
			if (r == FAILED) {
				CHECK(f1 == f2, op.name + ": descriptor leaked by a call which failed", "%s: %d then %d", ctx.c_str(), f1, f2);
				CHECK(bal == 0, op.name + ": memory leaked by a call which failed", "%s: %lld", ctx.c_str(), (long long)bal);
				/* memory is available again */
				R r2 = op.call(&why);
				std::string s2 = r2 == OK ? op.state(true) : "";
				CHECK(r2 == OK && s2.empty(), op.name + ": fails again although memory is available", "%s: %s %s", ctx.c_str(), why.c_str(), s2.c_str());
				stat("retries");
			} else stat("calls doing without the allocation");
		}
		op.teardown();
		eval(mix(mix(hstr(op.name), (uint64_t)at), mix((uint64_t)rest, hstr(op.par))), hit > 0);
		if (rest == 0 && at == 0 && hit) sample(op.name + " " + ctx, 20);
		tick();
	}
	CHECK(nfds() == f0, op.name + ": descriptor leaked", "%s: %d then %d", op.par.c_str(), f0, nfds());
}
/* lifetimes: everything is given back, failures or not */
static void cycle(const Op &op)
{
	for (int at = -1; at < 8; at++) {
		g_at = -1;
		std::string why;
		why.reserve(300);
		int64_t b0 = 0, b1 = 0;
		for (int k = 0; k < 2; k++) {
			b0 = balance();
			g_at = -1;
			op.setup();
			g_at = at; g_rest = false;
			why.clear();
			op.call(&why);
			g_at = -1;
			op.teardown();
			b1 = balance();
		}
		CHECK(b0 == b1, op.name + ": memory leaked", "%s, allocation %d failing: %lld", op.par.c_str(), at, (long long)(b1 - b0));
		stat("life cycles");
	}
}
/* ------------------------------------------------------------------ */
static std::vector<Op> ops(Rng &r)
{
	std::vector<Op> v;
	auto none = [] {};
	auto fine = [](bool) { return std::string(); };
	/* mailboxes */
	{
		auto b = std::make_shared<struct mbox *>(nullptr);
		size_t sz = 1 + r.below(4000);
		Op o;
		o.name = "mbox_new"; o.par = fmt("messages of %zu bytes", sz);
		o.setup = [=] { *b = nullptr; };
		o.call = [=](std::string *) { *b = LIBCALL(mbox_new(sz)); return *b ? OK : FAILED; };
		o.state = [=](bool ok) -> std::string {
			if (!ok) return "";
			std::vector<uint8_t> m(sz, 7), g(sz);
			if (mbox_push(*b, m.data()) || mbox_peek(*b, g.data()) || m != g) return "unusable";
			return "";
		};
		o.teardown = [=] { if (*b) mbox_destroy(*b); *b = nullptr; };
		v.push_back(o);
	}
	{
		auto b = std::make_shared<struct dynmbox *>(nullptr);
		size_t sz = r.below(65533);
		Op o;
		o.name = "dynmbox_new"; o.par = fmt("messages up to %zu bytes", sz);
		o.setup = [=] { *b = nullptr; };
		o.call = [=](std::string *) { *b = LIBCALL(dynmbox_new(sz)); return *b ? OK : FAILED; };
		o.state = [=](bool ok) -> std::string {
			if (!ok) return "";
			std::vector<uint8_t> m(sz + 1, 7), g(sz + 1);
			if (dynmbox_push(*b, m.data(), (uint32_t)sz) || dynmbox_peek(*b, g.data()) != (ssize_t)sz || memcmp(m.data(), g.data(), sz)) return "unusable";
			return "";
		};
		o.teardown = [=] { if (*b) dynmbox_destroy(*b); *b = nullptr; };
		v.push_back(o);
	}
	for (int dyn = 0; dyn < 2; dyn++) for (int peek = 0; peek < 2; peek++) {
		struct S { void *b; int n; };
		auto s = std::make_shared<S>();
		uint64_t seed = r.u64();
		Op o;
		o.name = std::string(dyn ? "dynmbox_" : "mbox_") + (peek ? "peek" : "push"); o.par = "some messages queued";
		o.setup = [=] {
			s->b = dyn ? (void *)dynmbox_new(64) : (void *)mbox_new(64);
			s->n = 1 + (int)(seed % 20);
			uint8_t m[64];
			for (int i = 0; i < s->n; i++) { memset(m, i, 64); if (dyn) dynmbox_push((struct dynmbox *)s->b, m, 64); else mbox_push((struct mbox *)s->b, m); }
		};
		o.call = [=](std::string *why) {
			uint8_t m[64];
			memset(m, 99, 64);
			ssize_t ret;
			if (peek) ret = dyn ? LIBCALL(dynmbox_peek((struct dynmbox *)s->b, m)) : LIBCALL((ssize_t)mbox_peek((struct mbox *)s->b, m));
			else ret = dyn ? LIBCALL((ssize_t)dynmbox_push((struct dynmbox *)s->b, m, 64)) : LIBCALL((ssize_t)mbox_push((struct mbox *)s->b, m));
			if (ret < 0) { *why = fmt("%zd", ret); return FAILED; }
			if (peek && m[0] != 0) { *why = "another message"; return WRONG; }
			return OK;
		};
		o.state = [=](bool ok) -> std::string {
			/* what is left, in order; put back for a retry */
			std::vector<int> got;
			uint8_t m[64];
			for (;;) { ssize_t k = dyn ? dynmbox_peek((struct dynmbox *)s->b, m) : (ssize_t)mbox_peek((struct mbox *)s->b, m); if (k < 0) break; got.push_back(m[0]); }
			std::vector<int> want;
			for (int i = ok && peek ? 1 : 0; i < s->n; i++) want.push_back(i);
			if (ok && !peek) want.push_back(99);
			if (!ok) for (int i : got) { memset(m, i, 64); if (dyn) dynmbox_push((struct dynmbox *)s->b, m, 64); else mbox_push((struct mbox *)s->b, m); }
			return got == want ? "" : fmt("%zu messages, expected %zu", got.size(), want.size());
		};
		o.teardown = [=] { if (dyn) dynmbox_destroy((struct dynmbox *)s->b); else mbox_destroy((struct mbox *)s->b); };
		v.push_back(o);
	}
	/* hash */
	{
		auto h = std::make_shared<struct hash>();
		auto on = std::make_shared<bool>(false);
		size_t sz = r.below(r.chance(30) ? 100000 : 300);
		Op o;
		o.name = "futils_hash_init"; o.par = fmt("size %zu", sz);
		o.setup = [=] { *on = false; };
		o.call = [=](std::string *why) { int ret = LIBCALL(futils_hash_init(h.get(), sz, nullptr)); *why = fmt("%d", ret); *on = ret == 0; return ret == 0 ? OK : ret < 0 ? FAILED : WRONG; };
		o.state = [=](bool ok) -> std::string {
			if (!ok) return "";
			static int x;
			void *p = nullptr;
			if (futils_hash_insert(h.get(), 5, &x) || futils_hash_lookup(h.get(), 5, &p) || p != &x) return "unusable";
			return "";
		};
		o.teardown = [=] { if (*on) futils_hash_destroy(h.get()); *on = false; };
		v.push_back(o);
	}
	for (int var = 0; var < 4; var++) {
		int cst = var & 1;
		bool dup = var & 2; /* the key is there already: refused with or without memory */
		struct S { struct hash h; uint32_t key; int data[40]; int n; };
		auto s = std::make_shared<S>();
		static int freed;
		size_t sz = 1 + r.below(60);
		int n = (int)r.below(30) + dup;
		int at = dup ? (int)r.below((uint64_t)n) : 40;
		uint64_t seed = r.u64();
		Op o;
		o.name = dup ? cst ? "futils_hash_insert_const (present)" : "futils_hash_insert (present)" : cst ? "futils_hash_insert_const" : "futils_hash_insert"; o.par = fmt("%d entries, size %zu", n, sz);
		o.setup = [=] {
			freed = 0;
			s->n = n;
			futils_hash_init(&s->h, sz, [](void *) { freed++; });
			for (int i = 0; i < n; i++) futils_hash_insert(&s->h, (uint32_t)(seed + (uint64_t)i * 7919), &s->data[i]);
			s->key = (uint32_t)(seed + (uint64_t)at * 7919);
		};
		o.call = [=](std::string *why) {
			int ret = cst ? LIBCALL(futils_hash_insert_const(&s->h, s->key, &s->data[39])) : LIBCALL(futils_hash_insert(&s->h, s->key, &s->data[39]));
			*why = fmt("%d", ret);
			if (dup) return ret == -EEXIST ? OK : ret == -ENOMEM ? FAILED : WRONG;
			return ret == 0 ? OK : ret == -ENOMEM ? FAILED : WRONG;
		};
		o.state = [=](bool ok) -> std::string {
			void *p;
			const void *cp;
			if (dup) ok = false;
			for (int i = 0; i < n; i++) { p = nullptr; if (futils_hash_lookup(&s->h, (uint32_t)(seed + (uint64_t)i * 7919), &p) || p != &s->data[i]) return "entry lost"; }
			p = nullptr; cp = nullptr;
			int lk = cst ? futils_hash_lookup_const(&s->h, s->key, &cp) : futils_hash_lookup(&s->h, s->key, &p);
			if (!dup && (lk == 0) != ok) return ok ? "not inserted" : "inserted";
			if (ok && (cst ? cp : (const void *)p) != &s->data[39]) return "other data";
			if (freed) return "data freed";
			/* entries are iterable */
			int k = 0;
			struct list_node *nd;
			for (nd = s->h.entries.next; nd != &s->h.entries; nd = nd->next) if (++k > 100) break;
			if (k != n + ok) return fmt("%d entries listed, expected %d", k, n + ok);
			return "";
		};
		o.teardown = [=] { futils_hash_destroy(&s->h); };
		v.push_back(o);
	}
	/* safe writes */
	{
		struct S { struct futils_safew_file *f; std::string old, neu; };
		for (int part = 0; part < 4; part++) { /* open, write, commit, commit with crc */
			auto s = std::make_shared<S>();
			s->old = r.bytes(1 + r.below(100));
			s->neu = r.bytes(1 + r.below(r.chance(50) ? 100 : 30000)) + "new";
			static const char *nm[] = {"futils_safew_fopen", "futils_safew_fwrite", "futils_safew_fclose_commit", "futils_safew_fclose_commit_with_crc"};
			Op o;
			o.name = nm[part]; o.par = fmt("%zu bytes", s->neu.size());
			o.setup = [=] { Dir d; d["pay"] = s->old; sm::store(wd, d); s->f = nullptr; };
			o.call = [=](std::string *why) {
				bool bad = false;
				s->f = part == 0 ? LIBCALL(futils_safew_fopen("pay")) : futils_safew_fopen("pay");
				if (!s->f) { *why = "open"; return FAILED; }
				size_t k;
				if (part == 1) k = LIBCALL(futils_safew_fwrite(s->neu.data(), 1, s->neu.size(), s->f)); else k = futils_safew_fwrite(s->neu.data(), 1, s->neu.size(), s->f);
				int64_t wb = g_bal;
				if (k != s->neu.size()) { *why = "write"; bad = true; }
				int ret = part == 2 ? LIBCALL(futils_safew_fclose_commit(s->f)) : part == 3 ? LIBCALL(futils_safew_fclose_commit_with_crc(s->f)) : futils_safew_fclose_commit(s->f);
				s->f = nullptr;
				/* closing gives back what opening took: judged over complete lives */
				(void)wb;
				g_bal = 0;
				*why += fmt(" %d", ret);
				if (ret > 0 || (bad && ret == 0)) return WRONG;
				return ret ? FAILED : OK;
			};
			o.state = [=](bool ok) -> std::string {
				Dir d = sm::load(wd);
				if (!d.count("pay") || d["pay"] != (ok ? s->neu : s->old)) return "file " + sm::show(d);
				if (ok && d.size() != (part == 3 ? 2u : 1u)) return "files left " + sm::show(d);
				return "";
			};
			o.teardown = none;
			v.push_back(o);
		}
		auto crcs = [](const std::string &s) { uint32_t h = 0; for (unsigned char c : s) { h += c; h += h << 10; h ^= h >> 6; } h += h << 3; h ^= h >> 11; h += h << 15; return std::string((char *)&h, 4); };
		for (int st = 0; st < 5; st++) {
			std::string a = r.bytes(1 + r.below(6000)), b = r.bytes(1 + r.below(100)) + "b";
			Dir d;
			std::string keep = a;
			if (st == 0 || st >= 2) { d["pay"] = a; d["pay.crc"] = crcs(a); }
			if (st == 1 || st == 2) { d["pay.tmp"] = b; d["pay.crc.tmp"] = crcs(b); keep = b; }
			if (st == 3) { d["pay.crc.tmp"] = crcs(a); d["pay.crc"] = crcs(b); }
			if (st == 4) d["pay.tmp"] = b;
			Op o;
			o.name = "futils_safew_file_check"; o.par = fmt("state %d", st);
			o.setup = [=] { sm::store(wd, d); };
			o.call = [=](std::string *why) { int ret = LIBCALL(futils_safew_file_check("pay")); *why = fmt("%d", ret); return ret == 0 ? OK : ret < 0 ? FAILED : WRONG; };
			o.state = [=](bool ok) -> std::string {
				Dir g = sm::load(wd);
				if (ok) { Dir w; w["pay"] = keep; w["pay.crc"] = crcs(keep); return g == w ? "" : "files " + sm::show(g); }
				/* a check which failed for another reason keeps what is needed */
				for (auto &kv : d) if (!g.count(kv.first)) return "lost " + kv.first + ": " + sm::show(g);
				return "";
			};
			o.teardown = none;
			v.push_back(o);
		}
	}
	/* strings */
	for (int chk = 0; chk < 2; chk++) {
		std::string in;
		static const char *pc[] = {"a", "Z", " ", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "/", "9"};
		for (int k = (int)r.below(200); k > 0; k--) in += pc[r.below(8)];
		size_t room = 2 + r.below(in.size() + 20); /* the smallest buffer accepted */
		auto out = std::make_shared<std::vector<char>>(room + 8), ref = std::make_shared<std::vector<char>>(room + 8);
		int want = futils_string_sanitize_utf8(in.c_str(), ref->data(), room, L"/9", L'_');
		Op o;
		o.name = chk ? "futils_string_check_utf8" : "futils_string_sanitize_utf8"; o.par = fmt("%zu bytes into %zu", in.size(), room);
		o.setup = [=] { memset(out->data(), '#', out->size()); };
		o.call = [=](std::string *why) {
			if (chk) {
				int ret = LIBCALL(futils_string_check_utf8(in.c_str(), 0, 0, L"\x1"));
				*why = fmt("%d", ret);
				return ret == 0 ? OK : ret < 0 && ret != -EPROTO && ret != -E2BIG ? FAILED : WRONG;
			}
			int ret = LIBCALL(futils_string_sanitize_utf8(in.c_str(), out->data(), room, L"/9", L'_'));
			*why = fmt("%d", ret);
			if (ret >= 0 && ret != want) return WRONG;
			return ret >= 0 ? OK : FAILED;
		};
		o.state = [=](bool ok) -> std::string {
			for (size_t i = room; i < room + 8; i++) if (!chk && (*out)[i] != '#') return "written beyond the buffer";
			if (ok && !chk && strcmp(out->data(), ref->data())) return "another text";
			return "";
		};
		o.teardown = none;
		v.push_back(o);
	}
	/* shuffle */
	for (int k = 0; k < 3; k++) {
		size_t sz = k == 0 ? 1 + r.below(8) : 9 + r.below(k == 1 ? 60 : 9000), n = 2 + r.below(50);
		auto a = std::make_shared<std::vector<uint8_t>>(), a0 = std::make_shared<std::vector<uint8_t>>();
		for (size_t i = 0; i < n; i++) { std::string e = r.bytes(sz); e[0] = (char)i; a0->insert(a0->end(), e.begin(), e.end()); }
		Op o;
		o.name = "futils_random_shuffle"; o.par = fmt("%zu elements of %zu bytes", n, sz);
		o.setup = [=] { *a = *a0; };
		o.call = [=](std::string *why) { int ret = LIBCALL(futils_random_shuffle(a->data(), n, sz)); *why = fmt("%d", ret); return ret == 0 ? OK : ret < 0 ? FAILED : WRONG; };
		o.state = [=](bool ok) -> std::string {
			if (!ok) return *a == *a0 ? "" : "array changed";
			std::multiset<std::string> x, y;
			for (size_t i = 0; i < n; i++) { x.insert(std::string((char *)a->data() + i * sz, sz)); y.insert(std::string((char *)a0->data() + i * sz, sz)); }
			return x == y ? "" : "elements lost";
		};
		o.teardown = none;
		v.push_back(o);
	}
	/* directory size, sync */
	{
		std::string d = base + "/tree";
		for (int rec = 0; rec < 2; rec++) {
			Op o;
			o.name = "futils_fs_dir_size"; o.par = rec ? "recursive" : "not recursive";
			o.setup = none; o.teardown = none;
			o.call = [=](std::string *why) { int64_t ret = LIBCALL(futils_fs_dir_size(d.c_str(), rec)); *why = fmt("%lld", (long long)ret); return ret == (rec ? 1111 : 11) ? OK : ret < 0 ? FAILED : WRONG; };
			o.state = fine;
			v.push_back(o);
		}
		for (int k = 0; k < 3; k++) {
			Op o;
			o.name = k == 0 ? "sync_file" : k == 1 ? "sync_folder" : "sync_file_and_folder"; o.par = "-";
			std::string f = k == 1 ? d : d + "/f";
			o.setup = none; o.teardown = none;
			o.state = [=](bool ok) -> std::string {
				if (!ok || synced_all) return "";
				if (!synced.count(ino_of(f))) return k == 1 ? "folder not synchronised" : "file not synchronised";
				if (k == 2 && !synced.count(ino_of(d))) return "folder not synchronised";
				return "";
			};
			o.call = [=](std::string *why) { synced.clear(); synced_all = false; int ret = k == 0 ? LIBCALL(sync_file(f.c_str())) : k == 1 ? LIBCALL(sync_folder(f.c_str())) : LIBCALL(sync_file_and_folder(f.c_str())); *why = fmt("%d", ret); return ret == 0 ? OK : ret < 0 ? FAILED : WRONG; };
			v.push_back(o);
		}
	}
	/* inotify */
	{
		std::string d = base + "/ino";
		struct S { int fd; std::vector<std::string> got; };
		auto s = std::make_shared<S>();
		auto created = std::make_shared<std::vector<std::string>>();
		int n = r.chance(30) ? 2 : 30 + (int)r.below(60);
		for (int i = 0; i < n; i++) created->push_back(fmt("e%d", i) + std::string(r.below(100), 'x'));
		Op o;
		o.name = "inotify_process_fd"; o.par = fmt("%d events", n);
		o.setup = [=] {
			s->fd = inotify_create(d.c_str(), IN_CREATE);
			s->got.clear();
			s->got.reserve(200);
			for (auto &c : *created) { mkfifo((d + "/" + c).c_str(), 0600); unlink((d + "/" + c).c_str()); }
		};
		o.call = [=](std::string *why) {
			size_t g0 = s->got.size();
			/* what the callback keeps is not the library's */
			struct C { S *s; int64_t kept; } c{s.get(), 0};
			{
				Armed a_;
				inotify_process_fd(s->fd, [](struct inotify_event *ev, void *x) { bool was = al::armed; al::armed = false; C *c = (C *)x; int64_t b = balance(); c->s->got.push_back(ev->name); c->kept += balance() - b; al::armed = was; }, &c);
			}
			g_bal -= c.kept;
			int left = 0;
			ioctl(s->fd, FIONREAD, &left);
			*why = fmt("%zu of %d reported, %d bytes left", s->got.size(), n, left);
			if ((int)s->got.size() == n && !left) return OK;
			if (s->got.size() == g0 && left) return FAILED;
			return left ? FAILED : WRONG;
		};
		o.state = [=](bool ok) -> std::string {
			if (ok) return s->got == *created ? "" : "other events";
			for (size_t i = 0; i < s->got.size(); i++) if (i >= created->size() || s->got[i] != (*created)[i]) return "other events";
			return "";
		};
		o.teardown = [=] { inotify_destroy(s->fd); };
		v.push_back(o);
	}
	{
		std::string d = base + "/ino";
		auto fd = std::make_shared<int>(-1);
		Op o;
		o.name = "inotify_create"; o.par = "-";
		o.setup = [=] { *fd = -1; };
		o.call = [=](std::string *why) { *fd = LIBCALL(inotify_create(d.c_str(), IN_CREATE)); *why = fmt("%d", *fd); return *fd >= 0 ? OK : *fd == -1 ? FAILED : WRONG; };
		o.state = fine;
		o.teardown = [=] { if (*fd >= 0) inotify_destroy(*fd); *fd = -1; };
		v.push_back(o);
	}
#ifndef NO_CXX
	/* C++ path helpers */
	for (int bn = 0; bn < 2; bn++) {
		std::string p = "/" + std::string(1 + r.below(r.chance(50) ? 10 : 200), 'd') + "/sub/" + std::string(1 + r.below(r.chance(50) ? 5 : 100), 'f');
		std::string want = bn ? p.substr(p.rfind('/') + 1) : p.substr(0, p.rfind('/'));
		Op o;
		o.name = bn ? "futils::fs::basename" : "futils::fs::dirname"; o.par = fmt("%zu characters", p.size());
		auto got = std::make_shared<std::string>();
		o.setup = none; o.teardown = none;
		o.call = [=](std::string *why) {
			std::string res;
			bool thrown = false;
			{
				/* the result itself is the caller's */
				Armed a_;
				try { res = bn ? futils::fs::basename(p) : futils::fs::dirname(p); } catch (const std::bad_alloc &) { thrown = true; }
			}
			if (thrown) { *why = "bad_alloc"; return FAILED; }
			*why = esc(res, 30);
			return res == want ? OK : WRONG;
		};
		o.state = fine;
		v.push_back(o);
	}
#endif
	return v;
}
void mon::run()
{
	watchdog(30);
	base = scratch("oom");
	wd = base + "/safew";
	for (auto d : {"/safew", "/tree", "/tree/sub", "/tree/sub/deeper", "/ino"}) mkdir((base + d).c_str(), 0755);
	sm::spit(base + "/tree/f", std::string(11, 'f'));
	sm::spit(base + "/tree/sub/g", std::string(100, 'f'));
	sm::spit(base + "/tree/sub/deeper/h", std::string(1000, 'f'));
	if (chdir(wd.c_str())) harness_error("chdir");
	Rng &r = rng();
	uint32_t dummy = futils_randomr32();
	(void)dummy;
	strerror(ENOMEM);
	int n = conf().thorough ? 400 : 12;
	for (int it = 0; it < n; it++) for (auto &o : ops(r)) { drive(o); if (it % 4 == 0) cycle(o); }
}
