/* C27..C31: safe write and file check under a system call monitor. */
#include "sysmon.h"
#ifdef NO_ALLOC
static int64_t live() { return 0; }
#else
#include "alloc.h"
static int64_t live() { return al::live.load(); }
#endif
#include <sys/resource.h>
#include "futils/safew.h"
using namespace mon;
using sm::Dir;
using sm::Ev;
using sm::nfds;

/* the established format: Jenkins one-at-a-time, 4 bytes in native order */
static uint32_t refcrc(const std::string &s)
{
	uint32_t h = 0;
	for (unsigned char c : s) { h += c; h += h << 10; h ^= h >> 6; }
	h += h << 3; h ^= h >> 11; h += h << 15;
	return h;
}
static std::string crcs(const std::string &s) { uint32_t c = refcrc(s); return std::string((char *)&c, 4); }

static std::string base; /* scratch directory, also the working directory */
static std::string wd;   /* directory the transactions run in */

/* ------------------------------------------------------- transactions */
struct Op { int kind; size_t size, n; std::string a; int i; unsigned u; char c; std::string text; };
struct Txn {
	std::string path;   /* as given to the API, wd is the working directory */
	std::string file;   /* its name in wd */
	bool crc = false, has_old = false, commit = true, stale_tmp = false, stale_crc = false;
	int link = 0;       /* the stale temporary file is: 1 a hard link to the file, 2 a symbolic one, 3 one to another file
	                     * (one to nothing is not specified) */
	std::string old, neu, stale, stalex;
	std::vector<Op> ops;
};
struct Res { /* shared with the child */
	volatile int opened, ret, writes_ok, done;
	volatile int fd0, fd1;
	volatile int64_t mem0, mem1;
	volatile int in_cleanup;
};
static Res *sh;
static size_t rsize(Rng &r)
{
	static const size_t e[] = {0, 1, 2, 3, 4, 7, 8, 100, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 20000};
	return r.chance(35) ? e[r.below(sizeof(e) / sizeof(*e))] : r.below(r.chance(20) ? 30000 : 300);
}
static std::string printable(Rng &r, size_t n) { std::string s; for (size_t i = 0; i < n; i++) s += (char)(32 + r.below(95)); return s; }
static Txn mktxn(Rng &r, int crc /* -1 any */, bool small)
{
	Txn t;
	static const char *nm[] = {"file", "a.b.c", "pay%sload%n", "with space", "x.tmp", "y.crc", "conf"};
	t.file = nm[r.below(7)];
	if (r.chance(10)) t.file = std::string(127, 'n');
	t.path = r.chance(50) || t.file.size() > 60 ? t.file : r.chance(50) ? "./" + t.file : wd + "/" + t.file;
	if (t.path.size() > 127) t.path = t.file;
	t.crc = crc < 0 ? r.chance(50) : crc;
	t.has_old = r.chance(75);
	t.commit = r.chance(85);
	/* temporary files left by an interrupted write which no check followed */
	t.stale_tmp = r.chance(25);
	t.stale_crc = t.crc && r.chance(25);
	if (t.has_old) t.old = r.bytes(small ? r.below(40) : rsize(r));
	if (t.stale_tmp) t.stale = r.bytes(r.below(60000));
	int n = (int)r.below(small ? 4 : 8);
	for (int i = 0; i < n; i++) {
		Op o;
		o.kind = (int)r.below(3);
		o.i = (int)r.range(-100000, 100000); o.u = (unsigned)r.below(1000); o.c = (char)(33 + r.below(90));
		o.size = o.n = 0;
		if (o.kind == 0) {
			o.n = small ? r.below(60) : rsize(r);
			o.size = 1;
			if (r.chance(30) && o.n) { o.size = 1 + r.below(9); o.n = o.n / o.size + 1; }
			o.a = r.bytes(o.size * o.n);
			o.text = o.a;
		} else if (o.kind == 1) {
			o.a = printable(r, small ? r.below(30) : rsize(r) % 9000);
			o.text = o.a;
		} else {
			o.a = printable(r, small ? r.below(20) : rsize(r) % 9000);
			o.text = fmt("%s=%d:%05u%%%c\n", o.a.c_str(), o.i, o.u, o.c);
		}
		t.ops.push_back(o);
		t.neu += o.text;
	}
	if (t.has_old && t.neu == t.old) { t.old += "old"; }
	if (t.stale_crc) {
		static const size_t len[] = {0, 1, 3, 4, 5, 8};
		switch (r.below(4)) {
		case 0: t.stalex = t.stale_tmp ? crcs(t.stale) : crcs(r.bytes(9)); break; /* of a complete interrupted rewrite */
		case 1: t.stalex = crcs(t.old); break;
		default: t.stalex = r.bytes(len[r.below(6)]);
		}
	}
	return t;
}
static std::string desc(const Txn &t)
{
	return fmt("%s%s, %s (%zu bytes)%s -> %zu bytes in %zu writes, %s", t.crc ? "crc " : "", esc(t.path, 20).c_str(), t.has_old ? "replacing" : "creating", t.old.size(), t.link ? fmt(" with a stale link %d", t.link).c_str() : t.stale_tmp && t.stale_crc ? " with stale temporary files" : t.stale_tmp ? " with a stale temporary file" : t.stale_crc ? " with a stale temporary crc" : "", t.neu.size(), t.ops.size(), t.commit ? "commit" : "rollback");
}
static Dir initial(const Txn &t)
{
	Dir d;
	if (t.has_old) { d[t.file] = t.old; if (t.crc) d[t.file + ".crc"] = crcs(t.old); }
	if (t.stale_tmp) d[t.file + ".tmp"] = t.link == 1 || t.link == 2 ? t.old : t.stale;
	if (t.stale_crc) d[t.file + ".crc.tmp"] = t.stalex;
	if (t.link == 3) d["zz other"] = t.stale;
	return d;
}
static void setup(const Txn &t)
{
	sm::store(wd, initial(t));
	if (!t.link) return;
	std::string tmp = wd + "/" + t.file + ".tmp", to = t.link == 3 ? "zz other" : t.file;
	unlink(tmp.c_str());
	if (t.link == 1 ? link((wd + "/" + to).c_str(), tmp.c_str()) : symlink(to.c_str(), tmp.c_str())) harness_error("cannot make a link");
}
/* runs in the traced child */
static void body(const Txn &t)
{
	sh->opened = 0; sh->ret = -99; sh->writes_ok = 1; sh->done = 0;
	sh->fd0 = nfds();
	sh->mem0 = live();
	sm::begin();
	struct futils_safew_file *f = futils_safew_fopen(t.path.c_str());
	if (f) {
		sh->opened = 1;
		/* the results of the writes are ignored: the commit tells */
		for (auto &o : t.ops) {
			if (o.kind == 0) { if (futils_safew_fwrite(o.a.data(), o.size, o.n, f) != o.n) sh->writes_ok = 0; }
			else if (o.kind == 1) { if (futils_safew_fprintf(f, "%s", o.a.c_str()) != (int)o.text.size()) sh->writes_ok = 0; }
			else if (futils_safew_fprintf(f, "%s=%d:%05u%%%c\n", o.a.c_str(), o.i, o.u, o.c) != (int)o.text.size()) sh->writes_ok = 0;
		}
		sh->ret = !t.commit ? futils_safew_fclose_rollback(f) : t.crc ? futils_safew_fclose_commit_with_crc(f) : futils_safew_fclose_commit(f);
	}
	sm::end();
	sh->mem1 = live();
	sh->fd1 = nfds();
	sh->done = 1;
}
static void checkbody(const std::string &path)
{
	sh->ret = -99; sh->done = 0;
	sh->fd0 = nfds();
	sh->mem0 = live();
	sm::begin();
	sh->ret = futils_safew_file_check(path.c_str());
	sm::end();
	sh->mem1 = live();
	sh->fd1 = nfds();
	sh->done = 1;
}
static void died(const sm::Out &o, const std::string &ctx)
{
	if (o.sig) viol(fmt("process died with signal %d", o.sig), ctx);
	else if (!o.killed && (!o.exited || o.code || !sh->done)) viol("process ended before the call returned", fmt("%s (exit %d)", ctx.c_str(), o.code));
}

/* ------------------------------------------- states with durable contents */
struct FileSt { std::string cur, dur; bool operator<(const FileSt &o) const { return cur != o.cur ? cur < o.cur : dur < o.dur; } bool operator==(const FileSt &o) const { return cur == o.cur && dur == o.dur; } };
typedef std::map<std::string, FileSt> St;
static Dir cur(const St &s) { Dir d; for (auto &kv : s) d[kv.first] = kv.second.cur; return d; }
static St stable(const Dir &d) { St s; for (auto &kv : d) s[kv.first] = {kv.second, kv.second}; return s; }
static uint64_t hst(const St &s) { uint64_t h = 5; for (auto &kv : s) h = mix(mix(mix(h, hstr(kv.first)), hstr(kv.second.cur)), hstr(kv.second.dur)); return h; }

/* follows a traced run and lists every state a crash may leave */
struct Tracker {
	std::string dir;
	std::map<uint64_t, std::string> dur; /* inode -> what a power loss keeps at least */
	std::vector<std::pair<std::string, St>> states; /* after each call that may change something */
	std::map<std::string, std::pair<uint64_t, std::string>> last; /* name -> inode, content */
	bool dirty = true;
	void scan()
	{
		last.clear();
		std::set<uint64_t> seen;
		for (auto &n : sm::names(dir)) {
			struct stat sb;
			std::string p = dir + "/" + n;
			if (lstat(p.c_str(), &sb)) continue;
			last[n] = {sb.st_ino, sm::slurp(p)};
			seen.insert(sb.st_ino);
		}
		for (auto it = dur.begin(); it != dur.end();) { if (!seen.count(it->first)) it = dur.erase(it); else ++it; }
		dirty = false;
	}
	St state()
	{
		St s;
		for (auto &kv : last) s[kv.first] = {kv.second.second, dur.count(kv.second.first) ? dur[kv.second.first] : std::string()};
		return s;
	}
	void start(const std::string &d, const St &init)
	{
		dir = d;
		dirty = true;
		scan();
		for (auto &kv : last) { auto i = init.find(kv.first); dur[kv.second.first] = i == init.end() ? kv.second.second : i->second.dur; }
		states.push_back({"start", state()});
	}
	void hook(int idx, const Ev &e, bool entry)
	{
		if (entry) return;
		sm::Kind k = sm::kind(e.nr);
		if (k == sm::K_SYNC && e.ret == 0) {
			scan();
			for (auto &kv : last) if (e.nr == SYS_sync || e.nr == SYS_syncfs || kv.second.first == e.ino) dur[kv.second.first] = kv.second.second;
		} else if (k == sm::K_WRITE || k == sm::K_NAME || k == sm::K_OPEN || e.nr == SYS_ftruncate || e.nr == SYS_writev || e.nr == SYS_copy_file_range || e.nr == SYS_sendfile || e.nr == SYS_fallocate) {
			auto before = last;
			scan();
			/* a crash inside a write leaves any part of it */
			if (k == sm::K_WRITE || e.nr == SYS_writev) for (auto &kv : last) {
				auto b = before.find(kv.first);
				if (b == before.end() || b->second.first != kv.second.first) continue;
				const std::string &x = b->second.second, &y = kv.second.second;
				if (y.size() > x.size() + 1 && y.compare(0, x.size(), x) == 0)
					for (size_t part : {x.size() + 1, x.size() + (y.size() - x.size()) / 2, y.size() - 1}) {
						St s = state();
						s[kv.first].cur = y.substr(0, part);
						states.push_back({fmt("inside call %d (%s)", idx, sm::str(e).c_str()), s});
					}
			}
		} else return;
		states.push_back({fmt("after call %d (%s)", idx, sm::str(e).c_str()), state()});
	}
};
/* what a power loss may leave of a state */
static std::vector<St> losses(const St &s)
{
	std::vector<St> out{St()};
	for (auto &kv : s) {
		std::set<std::string> v{kv.second.cur, kv.second.dur};
		if (kv.second.cur != kv.second.dur) {
			v.insert(kv.second.cur.substr(0, kv.second.cur.size() / 2));
			v.insert(std::string(kv.second.cur.size(), '\0')); /* size kept, data lost */
		}
		std::vector<St> nx;
		for (auto &o : out) for (auto &c : v) { St t = o; t[kv.first] = {c, c}; nx.push_back(t); }
		out.swap(nx);
		if (out.size() > 400) out.resize(400);
	}
	return out;
}
static std::vector<std::pair<std::string, St>> run_tracked(const St &init, const std::function<void()> &fn, sm::Out *out, std::map<int, sm::Fault> faults = {}, std::function<int(int, const Ev &)> fail = nullptr)
{
	Tracker tr;
	tr.start(wd, init);
	sm::Plan p;
	p.ids = true;
	p.faults = faults;
	p.fail = fail;
	p.hook = [&](int i, const Ev &e, bool en) { tr.hook(i, e, en); };
	*out = sm::run(fn, p);
	tr.scan();
	tr.states.push_back({"end", tr.state()});
	stat("system calls observed", (int64_t)out->ev.size());
	tick();
	return tr.states;
}
static uint64_t shape(const sm::Out &o) { uint64_t h = 11; for (auto &e : o.ev) h = mix(h, (uint64_t)e.nr); return h; }

/* ---------------------------------------------------------------- C27 */
static void judge27(const Txn &t, const Dir &d, const std::string &when, const char *what)
{
	auto it = d.find(t.file);
	bool ok = it == d.end() ? !t.has_old : (t.has_old && it->second == t.old) || (t.commit && it->second == t.neu);
	if (t.link == 3) { auto z = d.find("zz other"); CHECK(z != d.end() && z->second == t.stale, "another file is changed", "%s: %s", desc(t).c_str(), when.c_str()); }
	CHECK(ok, fmt("%s leaves neither the previous nor the new content", what), "%s: %s: %s", desc(t).c_str(), when.c_str(), it == d.end() ? "no file" : fmt("%zu bytes '%s'", it->second.size(), esc(it->second, 16).c_str()).c_str());
}
static void mode_atomic()
{
	Rng &r = rng();
	int n = conf().thorough ? 8000 : 600;
	for (int it = 0; it < n; it++) {
		Txn t = mktxn(r, -1, r.chance(60));
		if (t.stale_tmp && r.chance(40)) { t.link = (int)r.range(t.has_old ? 1 : 3, 3); stat("stale links"); }
		setup(t);
		/* readers which opened the file at each point and read it at the end */
		std::vector<std::pair<int, std::string>> rd;
		Tracker tr;
		tr.start(wd, stable(initial(t)));
		sm::Plan p;
		p.ids = true;
		p.hook = [&](int i, const Ev &e, bool en) {
			tr.hook(i, e, en);
			if (en && rd.size() < 60) { int fd = open((wd + "/" + t.file).c_str(), O_RDONLY | O_CLOEXEC); if (fd >= 0) rd.push_back({fd, fmt("opened before call %d (%s)", i, sm::str(e).c_str())}); }
		};
		sm::Out o = sm::run([&] { body(t); }, p);
		tr.scan();
		Dir end = sm::load(wd);
		died(o, desc(t));
		stat("system calls observed", (int64_t)o.ev.size());
		std::set<uint64_t> seen;
		for (auto &s : tr.states) {
			judge27(t, cur(s.second), s.first, "a crash");
			stat("crash points");
			seen.insert(hst(s.second));
			for (auto &l : losses(s.second)) if (seen.insert(mix(77, hst(l))).second) { judge27(t, cur(l), s.first, "a power loss"); stat("power loss images"); }
		}
		for (auto &f : rd) {
			std::string c;
			char b[8192];
			ssize_t k;
			while ((k = read(f.first, b, sizeof(b))) > 0) c.append(b, (size_t)k);
			close(f.first);
			CHECK((t.has_old && c == t.old) || (t.commit && c == t.neu), "a reader sees neither the previous nor the new content", "%s, reader %s: %zu bytes", desc(t).c_str(), f.second.c_str(), c.size());
			stat("readers");
		}
		if (!o.killed && !o.sig) {
			CHECK(sh->opened && sh->ret == 0, "safe write without any failure reports one", "%s: opened %d, result %d", desc(t).c_str(), sh->opened, sh->ret);
			CHECK(sh->writes_ok, "write result differs from the size written", "%s", desc(t).c_str());
			CHECK(sh->fd0 == sh->fd1, "descriptor leaked by a safe write", "%s: %d then %d", desc(t).c_str(), sh->fd0, sh->fd1);
			CHECK(sh->mem0 == sh->mem1, "memory leaked by a safe write", "%s: %lld", desc(t).c_str(), (long long)(sh->mem1 - sh->mem0));
			Dir want;
			if (t.commit) { want[t.file] = t.neu; if (t.crc) want[t.file + ".crc"] = crcs(t.neu); if (t.link == 3) want["zz other"] = t.stale; }
			else { want = initial(t); want.erase(t.file + ".tmp"); }
			if (end != want) {
				auto e = end.find(t.file), w = want.find(t.file);
				if (t.commit) CHECK(e != end.end() && e->second == t.neu, "committed content differs from what was written", "%s: %zu bytes stored", desc(t).c_str(), e == end.end() ? 0 : e->second.size());
				else CHECK((e == end.end()) == (w == want.end()) && (e == end.end() || e->second == w->second), "rollback changes the file", "%s", desc(t).c_str());
				bool tmp = false;
				for (auto &kv : end) if (!want.count(kv.first)) tmp = true;
				CHECK(!tmp, "temporary file left", "%s: %s", desc(t).c_str(), sm::show(end).c_str());
				if (t.crc && t.commit) CHECK(end.count(t.file + ".crc") && end[t.file + ".crc"] == crcs(t.neu), "crc file differs", "%s: %s", desc(t).c_str(), sm::show(end).c_str());
			}
			stat(t.commit ? "commits" : "rollbacks");
		}
		eval(mix(mix(shape(o), (uint64_t)(t.crc * 8 + t.has_old * 4 + t.commit * 2 + t.stale_tmp)), mix(t.old.size(), t.neu.size())));
		if (it < 4) sample(fmt("%s: %zu calls, %zu distinct crash states", desc(t).c_str(), o.ev.size(), seen.size()));
		/* crashes after a call failed */
		int lk = t.link;
		t.link = 0;
		for (int q = 0; q < (conf().thorough ? 6 : 2) && !o.ev.empty(); q++) {
			size_t k = r.below(o.ev.size());
			if (q == 0) { /* the late calls decide */
				std::vector<size_t> w;
				for (size_t i = o.ev.size() > 12 ? o.ev.size() - 12 : 0; i < o.ev.size(); i++) { sm::Kind kd = sm::kind(o.ev[i].nr); if (kd == sm::K_WRITE || kd == sm::K_SYNC || kd == sm::K_CLOSE || kd == sm::K_NAME) w.push_back(i); }
				if (!w.empty()) k = w[r.below(w.size())];
			}
			auto es = sm::errnos(o.ev[k]);
			int err = es[r.below(es.size())];
			long nr = o.ev[k].nr;
			bool lasts = r.chance(40);
			std::map<int, sm::Fault> m;
			if (!lasts) { sm::Fault f; f.err = err; if (r.chance(25) && o.ev[k].ret > 1 && (sm::kind(nr) == sm::K_WRITE)) { f.err = 0; f.cut = 1 + (long)r.below((uint64_t)o.ev[k].ret - 1); } m[(int)k] = f; }
			setup(t);
			sm::Out fo;
			auto st = run_tracked(stable(initial(t)), [&] { body(t); }, &fo, m, lasts ? std::function<int(int, const Ev &)>([&](int i, const Ev &e) { return i >= (int)k && e.nr == nr ? err : 0; }) : nullptr);
			std::string fc = fmt("after call %zu (%s) %s with %d, ", k, sm::str(o.ev[k]).c_str(), lasts ? "and all alike failed" : m[(int)k].cut > 0 ? "shortened" : "failed", err);
			died(fo, desc(t) + " " + fc);
			std::set<uint64_t> sn;
			for (auto &s : st) {
				judge27(t, cur(s.second), fc + s.first, "a crash after a failure");
				stat("crash points after a failure");
				for (auto &l : losses(s.second)) if (sn.insert(hst(l)).second) { judge27(t, cur(l), fc + s.first, "a power loss after a failure"); stat("power loss images after a failure"); }
			}
			eval(mix(mix(shape(fo), (uint64_t)(k * 2 + lasts)), mix((uint64_t)err, (uint64_t)(t.crc * 4 + t.commit * 2 + t.has_old))));
		}
		t.link = lk;
		/* real deaths: the model of a crash is what a killed process leaves */
		if (it % 6 == 0 && !o.ev.empty()) {
			int k = (int)r.below(o.ev.size());
			setup(t);
			sm::Plan q; q.kill_at = k;
			sm::Out ko = sm::run([&] { body(t); }, q);
			if (ko.killed) {
				Dir d = sm::load(wd);
				judge27(t, d, fmt("killed before call %d (%s)", k, sm::str(o.ev[(size_t)k]).c_str()), "a crash");
				bool known = false;
				for (auto &s : tr.states) if (cur(s.second) == d) known = true;
				if (!known && !nviol()) harness_error(fmt("state left by a kill was not among the recorded states: %s at %d", desc(t).c_str(), k));
				stat("real kills");
			}
		}
	}
	/* missing and too long names: refused, without a trace */
	sm::store(wd, Dir());
	for (int len : {125, 126, 127, 128, 129, 200, 1000, 5000}) {
		std::string p(wd + "/");
		p += std::string((size_t)std::max(1, len - (int)p.size()), 'q');
		if (p.size() > 250 + wd.size()) p = std::string((size_t)len, 'q');
		int f0 = nfds();
		struct futils_safew_file *f = futils_safew_fopen(p.c_str());
		if (f) {
			futils_safew_fwrite("x", 1, 1, f);
			int ret = futils_safew_fclose_commit(f);
			struct stat sb;
			CHECK(ret == 0 && stat(p.c_str(), &sb) == 0 && sm::names(wd).size() == 1, "long name mangled", "%zu characters: %d", p.size(), ret);
			unlink(p.c_str());
		} else CHECK(sm::names(wd).empty() && nfds() == f0, "refused name leaves a file", "%zu characters", p.size());
		sm::store(wd, Dir());
		stat("name lengths");
	}
	CHECK(futils_safew_fclose_commit(nullptr) < 0 && futils_safew_fclose_rollback(nullptr) < 0 && futils_safew_fclose_commit_with_crc(nullptr) < 0, "missing file accepted", "-");
}
/* real concurrent readers and killed writers */
static std::string selfdesc(Rng &r, uint32_t ver)
{
	std::string s((char *)&ver, 4), b = r.bytes(r.chance(30) ? r.below(100) : r.below(40000));
	uint32_t n = (uint32_t)b.size();
	s.append((char *)&n, 4);
	s += b;
	return s + crcs(s);
}
static bool goodself(const std::string &s, uint32_t *v)
{
	if (s.size() < 12) return false;
	uint32_t n;
	memcpy(v, s.data(), 4); memcpy(&n, s.data() + 4, 4);
	return s.size() == n + 12u && crcs(s.substr(0, s.size() - 4)) == s.substr(s.size() - 4);
}
static void mode_readers()
{
	Rng &r = rng();
	std::string p = wd + "/shared";
	sm::store(wd, Dir());
	sm::spit(p, selfdesc(r, 0));
	std::atomic<bool> stop{false};
	std::atomic<uint64_t> reads{0}, changes{0};
	std::vector<pthread_t> th(4);
	struct A { std::string p; std::atomic<bool> *stop; std::atomic<uint64_t> *reads, *changes; } a{p, &stop, &reads, &changes};
	for (auto &t : th) pthread_create(&t, nullptr, [](void *x) -> void * {
		A *a = (A *)x;
		uint32_t last = 0;
		while (!*a->stop) {
			bool ok;
			std::string s = sm::slurp(a->p, &ok);
			uint32_t v = 0;
			if (!ok || !goodself(s, &v)) { if (!ok) viol("a reader finds no file", "while it is rewritten"); else viol("a reader sees neither the previous nor the new content", fmt("%zu bytes", s.size())); return nullptr; }
			if (v < last) viol("a reader sees an older content again", fmt("version %u after %u", v, last));
			if (v != last) { a->changes->fetch_add(1); eval(mix(v, last)); }
			last = v;
			a->reads->fetch_add(1);
		}
		return nullptr;
	}, &a);
	int n = conf().thorough ? 60000 : 700;
	for (int i = 1; i <= n; i++) {
		std::string c = selfdesc(r, (uint32_t)i);
		struct futils_safew_file *f = futils_safew_fopen(p.c_str());
		if (!f) { viol("safe write without any failure reports one", "open"); break; }
		size_t o = 0;
		while (o < c.size()) { size_t k = std::min(c.size() - o, (size_t)(1 + r.below(9000))); futils_safew_fwrite(c.data() + o, 1, k, f); o += k; }
		bool crc = r.chance(40), rb = r.chance(10);
		int ret = rb ? futils_safew_fclose_rollback(f) : crc ? futils_safew_fclose_commit_with_crc(f) : futils_safew_fclose_commit(f);
		if (ret) { viol("safe write without any failure reports one", fmt("result %d", ret)); break; }
		if (!rb) { std::string g = sm::slurp(p); CHECK(g == c, "committed content differs from what was written", "%zu bytes stored of %zu", g.size(), c.size()); }
		tick();
	}
	stop = true;
	for (auto &t : th) pthread_join(t, nullptr);
	stat("concurrent reads", (int64_t)reads);
	stat("content changes seen", (int64_t)changes);
	/* writers killed at random instants */
	int nk = conf().thorough ? 6000 : 90;
	sm::store(wd, Dir());
	std::string oldc = selfdesc(r, 1);
	sm::spit(p, oldc);
	uint32_t vers = 1;
	for (int i = 0; i < nk; i++) {
		uint64_t seed = r.u64();
		uint32_t from = vers;
		pid_t pid = fork();
		if (!pid) {
			Rng q(seed);
			for (uint32_t v = from + 1;; v++) {
				std::string c = selfdesc(q, v);
				struct futils_safew_file *f = futils_safew_fopen(p.c_str());
				if (!f) _exit(1);
				futils_safew_fwrite(c.data(), 1, c.size(), f);
				if (futils_safew_fclose_commit(f)) _exit(1);
			}
		}
		nap(0.0002 + 1e-6 * (double)r.below(4000));
		kill(pid, SIGKILL);
		int st;
		waitpid(pid, &st, 0);
		CHECK(WIFSIGNALED(st), "safe write without any failure reports one", "in a child");
		bool ok;
		std::string s = sm::slurp(p, &ok);
		uint32_t v = 0;
		CHECK(ok && goodself(s, &v) && v >= from, "a crash leaves neither the previous nor the new content", "killed after %d rounds: %zu bytes, version %u after %u", i, s.size(), v, from);
		vers = v;
		eval(mix(99, v));
		stat("writers killed");
		tick();
	}
}
/* long histories under AddressSanitizer, no tracing */
static void mode_long()
{
	Rng &r = rng();
	int n = conf().thorough ? 60000 : 1500;
	struct futils_safew_file *w = futils_safew_fopen("warm");
	if (w) { futils_safew_fprintf(w, "%d", 5); futils_safew_fclose_rollback(w); }
	std::map<std::string, std::string> model;
	sm::store(wd, Dir());
	struct Open { struct futils_safew_file *f; Txn t; size_t op; };
	std::vector<Open> live;
	for (int it = 0; it < n; it++) {
		if (live.size() < 3 && r.chance(60)) {
			Txn t = mktxn(r, r.chance(40), r.chance(80));
			t.file = fmt("f%d", (int)r.below(6));
			bool dup = false;
			for (auto &o : live) if (o.t.file == t.file) dup = true;
			if (dup) continue;
			char *cp = strdup(r.chance(50) ? t.file.c_str() : (wd + "/" + t.file).c_str());
			struct futils_safew_file *f = futils_safew_fopen(cp);
			memset(cp, 'Z', strlen(cp)); free(cp); /* the name belongs to the caller */
			CHECK(f != nullptr, "safe write without any failure reports one", "open of %s", t.file.c_str());
			if (!f) continue;
			live.push_back({f, t, 0});
			continue;
		}
		if (live.empty()) continue;
		size_t k = r.below(live.size());
		Open &o = live[k];
		if (o.op < o.t.ops.size()) {
			Op &p = o.t.ops[o.op++];
			int64_t ret, want;
			if (p.kind == 0) { bool ro = p.a.size() && p.a.size() < 60000 && r.chance(30); char *b = ro ? (char *)read_only<0>(p.a.data(), p.a.size()) : (char *)malloc(p.a.size() ? p.a.size() : 1); if (!ro) memcpy(b, p.a.data(), p.a.size()); ret = (int64_t)futils_safew_fwrite(b, p.size, p.n, o.f); if (!ro) free(b); want = (int64_t)p.n; }
			else { ret = p.kind == 1 ? futils_safew_fprintf(o.f, "%s", p.a.c_str()) : futils_safew_fprintf(o.f, "%s=%d:%05u%%%c\n", p.a.c_str(), p.i, p.u, p.c); want = (int64_t)p.text.size(); }
			CHECK(ret == want, "write result differs from the size written", "kind %d: %lld instead of %lld", p.kind, (long long)ret, (long long)want);
			stat("writes");
		} else {
			int ret = !o.t.commit ? futils_safew_fclose_rollback(o.f) : o.t.crc ? futils_safew_fclose_commit_with_crc(o.f) : futils_safew_fclose_commit(o.f);
			CHECK(ret == 0, "safe write without any failure reports one", "%s: %d", desc(o.t).c_str(), ret);
			if (o.t.commit) { model[o.t.file] = o.t.neu; if (o.t.crc) model[o.t.file + ".crc"] = crcs(o.t.neu); }
			stat(o.t.commit ? "commits" : "rollbacks");
			eval(mix(mix((uint64_t)o.t.commit, o.t.crc), mix(o.t.neu.size(), hstr(o.t.file))));
			live.erase(live.begin() + (long)k);
			Dir d = sm::load(wd), want = model;
			for (auto &l : live) { d.erase(l.t.file + ".tmp"); }
			CHECK(d == want, "files differ from the committed contents", "after %d steps: %s instead of %s", it, sm::show(d).c_str(), sm::show(want).c_str());
		}
	}
	for (auto &l : live) futils_safew_fclose_rollback(l.f);
	CHECK(sm::load(wd) == model, "files differ from the committed contents", "at the end");
}

/* ---------------------------------------------------------------- C28 */
static const char *judge_check(const Txn &t, int ret, const Dir &d, bool must_new)
{
	auto ok = [&](const std::string &c) { Dir w; w[t.file] = c; w[t.file + ".crc"] = crcs(c); return ret == 0 && d == w; };
	if (t.commit && ok(t.neu)) return nullptr;
	if (!must_new && t.has_old && ok(t.old)) return nullptr;
	if (!must_new && !t.has_old && ret < 0 && d.empty()) return nullptr;
	/* an earlier rewrite, interrupted when it was complete */
	if (!must_new && t.stale_crc) { auto p = d.find(t.file); if (p != d.end() && t.stalex == crcs(p->second) && (p->second == t.stale || p->second.size() <= t.neu.size()) && ok(p->second)) return nullptr; }
	if (ret == 0) {
		auto p = d.find(t.file), c = d.find(t.file + ".crc");
		if (p == d.end() || c == d.end() || c->second != crcs(p->second)) return "the check reports success without a matching pair";
		if (must_new) return "a committed content is lost";
		if (!(t.has_old && p->second == t.old) && p->second != t.neu) return "the check keeps a mixed content";
		return "the check leaves temporary files";
	}
	return must_new ? "a committed content is lost" : "nothing can be recovered";
}
static void explore(const Txn &t, std::vector<std::pair<std::string, St>> todo, bool must_new, size_t limit)
{
	std::set<uint64_t> seen;
	size_t i = 0;
	auto push = [&](const std::string &w, const St &s) {
		if (seen.insert(hst(s)).second) { todo.push_back({w, s}); }
	};
	std::vector<std::pair<std::string, St>> first;
	first.swap(todo);
	for (auto &f : first) { push(f.first, f.second); for (auto &l : losses(f.second)) push("power loss " + f.first, l); }
	for (; i < todo.size() && i < limit; i++) {
		St s = todo[i].second;
		std::string when = todo[i].first;
		sm::store(wd, cur(s));
		sm::Out o;
		auto st = run_tracked(s, [&] { checkbody(t.path); }, &o);
		died(o, desc(t) + " then " + when);
		Dir end = sm::load(wd);
		const char *bad = judge_check(t, sh->ret, end, must_new);
		CHECK(!bad, bad ? bad : "", "%s; crash %s in state %s; check: %d, leaves %s", desc(t).c_str(), when.c_str(), sm::show(cur(s)).c_str(), sh->ret, sm::show(end).c_str());
		CHECK(sh->fd0 == sh->fd1 && sh->mem0 == sh->mem1, "descriptor or memory leaked by the check", "%s: %d/%d %lld", when.c_str(), sh->fd0, sh->fd1, (long long)(sh->mem1 - sh->mem0));
		if (bad) break;
		eval(mix(hst(s), mix(shape(o), must_new)));
		stat("recoveries");
		std::string nested = when.size() < 200 ? when + ", then the check " : "... ";
		for (auto &x : st) {
			stat("nested states"); /* left by dying inside the check */
			push(nested + x.first, x.second);
			for (auto &l : losses(x.second)) push("power loss " + nested + x.first, l);
		}
	}
	stat_max("max:states of one rewrite", (int64_t)todo.size());
}
static void mode_recover()
{
	Rng &r = rng();
	int n = conf().thorough ? 1200 : 60;
	for (int it = 0; it < n; it++) {
		Txn t = mktxn(r, 1, r.chance(80));
		if (it % 4 != 3) t.has_old = true, t.old = t.old.empty() && r.chance(50) ? "x" : t.old;
		if (it % 8 != 7) t.commit = true;
		if (!t.has_old) t.old.clear();
		if (t.neu == t.old) t.old += "!";
		setup(t);
		sm::Out o;
		auto st = run_tracked(stable(initial(t)), [&] { body(t); }, &o);
		died(o, desc(t));
		CHECK(sh->ret == 0, "safe write without any failure reports one", "%s: %d", desc(t).c_str(), sh->ret);
		if (it < 4) sample(fmt("%s: %zu calls, %zu states", desc(t).c_str(), o.ev.size(), st.size()));
		explore(t, st, false, 4000);
		stat("rewrites");
		if (t.stale_crc) stat("rewrites over stale temporary files");
		if (sh->ret == 0 && t.commit) { explore(t, {st.back()}, true, 500); stat("committed rewrites checked"); }
	}
	/* real killed writers and checkers */
	int nk = conf().thorough ? 4000 : 200;
	Txn t;
	t.path = t.file = "real";
	t.crc = t.has_old = true;
	t.old = r.bytes(9000);
	sm::store(wd, initial(t));
	for (int i = 0; i < nk; i++) {
		t.neu = r.bytes(r.below(30000)) + fmt("%d", i);
		pid_t pid = fork();
		if (!pid) {
			struct futils_safew_file *f = futils_safew_fopen(t.path.c_str());
			if (f) { futils_safew_fwrite(t.neu.data(), 1, t.neu.size(), f); futils_safew_fclose_commit_with_crc(f); }
			_exit(0);
		}
		nap(1e-6 * (double)r.below(900));
		kill(pid, SIGKILL);
		waitpid(pid, nullptr, 0);
		if (r.chance(50)) {
			pid = fork();
			if (!pid) { futils_safew_file_check(t.path.c_str()); _exit(0); }
			nap(1e-6 * (double)r.below(400));
			kill(pid, SIGKILL);
			waitpid(pid, nullptr, 0);
		}
		int ret = futils_safew_file_check(t.path.c_str());
		Dir d = sm::load(wd);
		const char *bad = judge_check(t, ret, d, false);
		CHECK(!bad, bad ? bad : "", "real kill %d: check %d, leaves %s", i, ret, sm::show(d).c_str());
		if (bad) break;
		if (d[t.file] == t.neu) stat("real kills keeping the new"); else stat("real kills keeping the old");
		t.old = d[t.file];
		eval(mix(hstr(t.old), (uint64_t)i));
		tick();
	}
}

/* ---------------------------------------------------------------- C29 */
static void mode_faults()
{
	Rng &r = rng();
	int n = conf().thorough ? 1500 : 80;
	for (int it = 0; it < n; it++) {
		Txn t = mktxn(r, -1, r.chance(70));
		t.commit = it % 8 != 5;
		if (r.chance(60) && !t.has_old) { t.has_old = true; t.old = r.bytes(1 + r.below(50)); }
		setup(t);
		sm::Out clean = sm::run([&] { body(t); }, sm::Plan());
		died(clean, desc(t));
		if (it < 4) sample(fmt("%s: %zu calls", desc(t).c_str(), clean.ev.size()));
		struct FP { std::map<int, sm::Fault> m; long nr = -1; int from = 0, err = 0; FP(std::map<int, sm::Fault> x) : m(x) {} };
		std::vector<FP> plans;
		for (size_t k = 0; k < clean.ev.size(); k++) {
			sm::Kind kd = sm::kind(clean.ev[k].nr);
			auto es = sm::errnos(clean.ev[k]);
			if (!conf().thorough && es.size() > 2) { size_t z = r.below(es.size()); es = {es[0], es[z ? z : 1]}; }
			for (int e : es) { sm::Fault f; f.err = e; plans.push_back(FP({{(int)k, f}})); }
			if (kd == sm::K_WRITE || kd == sm::K_READ) {
				long sz = clean.ev[k].ret;
				std::set<long> cuts{1, sz / 2, sz - 1};
				for (long c : cuts) if (c > 0 && c < sz) { sm::Fault f; f.cut = c; plans.push_back(FP({{(int)k, f}})); }
				/* a short transfer followed by an error */
				if (kd == sm::K_WRITE && sz > 1) { sm::Fault f, g; f.cut = sz / 2; g.err = ENOSPC; plans.push_back(FP({{(int)k, f}, {(int)k + 1, g}})); }
			}
		}
		int extra = conf().thorough ? 60 : 6; /* failures that last: everything from a point on fails the same way */
		for (int x = 0; x < extra + 3 && !clean.ev.empty(); x++) {
			int k = (int)r.below(clean.ev.size());
			std::map<int, sm::Fault> m;
			sm::Fault f;
			static const int le[] = {ENOSPC, EIO, EROFS};
			f.err = le[r.below(3)];
			for (int j = k; j < k + 60; j++) m[j] = f;
			/* only what a full or read only disk refuses: unlink keeps working on a full disk */
			plans.push_back(FP(m));
		}
		/* from a point on one kind of call always fails: renames on a read only disk, writes on a full one... */
		std::set<long> kinds;
		for (auto &e : clean.ev) kinds.insert(e.nr);
		for (long nr : kinds) {
			std::vector<int> at;
			for (size_t i = 0; i < clean.ev.size(); i++) if (clean.ev[i].nr == nr) at.push_back((int)i);
			for (int rep = 0; rep < (conf().thorough ? 3 : 1); rep++) {
				auto es = sm::errnos(clean.ev[(size_t)at[0]]);
				FP f({});
				f.nr = nr; f.from = at[r.below(at.size())]; f.err = es[r.below(es.size())];
				plans.push_back(f);
			}
		}
		for (auto &fp : plans) {
			auto &pl = fp.m;
			bool lasting = pl.size() > 2 || fp.nr >= 0;
			setup(t);
			sm::Plan p;
			p.faults = pl;
			if (fp.nr >= 0) { p.fail = [&](int i, const Ev &e) { return i >= fp.from && e.nr == fp.nr ? fp.err : 0; }; stat("lasting failures of one kind"); }
			sm::Out o = sm::run([&] { body(t); }, p);
			tick();
			int k = fp.nr >= 0 ? fp.from : pl.begin()->first;
			const Ev *fe = nullptr;
			for (auto &e : o.ev) if (e.err || e.cut) { fe = &e; break; }
			std::string ctx = fmt("%s; call %d: %s%s", desc(t).c_str(), k, fe ? sm::str(*fe).c_str() : "?", fp.nr >= 0 ? " and all alike after" : lasting ? " and all after" : "");
			died(o, ctx);
			if (!fe) { stat("faults not reached"); continue; }
			Dir d = sm::load(wd);
			bool reported = !sh->opened || sh->ret != 0;
			CHECK(sh->fd0 == sh->fd1, "descriptor leaked by a failed safe write", "%s: %d then %d", ctx.c_str(), sh->fd0, sh->fd1);
			CHECK(sh->mem0 == sh->mem1, "memory leaked by a failed safe write", "%s: %lld", ctx.c_str(), (long long)(sh->mem1 - sh->mem0));
			if (!t.commit) stat(reported ? "rollback failures reported" : "rollbacks under faults");
			else if (!reported) {
				CHECK(d.count(t.file) && d[t.file] == t.neu, "commit reports success with altered content", "%s: %s", ctx.c_str(), sm::show(d).c_str());
				if (t.crc) CHECK(d.count(t.file + ".crc") && d[t.file + ".crc"] == crcs(t.neu), "commit reports success with a wrong crc", "%s: %s", ctx.c_str(), sm::show(d).c_str());
				stat(fe->cut ? "short transfers overcome" : "faults without consequence");
			} else {
				CHECK(!sh->opened ? true : sh->ret < 0, "failure reported with a positive result", "%s: %d", ctx.c_str(), sh->ret);
				stat("faults reported");
			}
			/* the file itself, before any check */
			auto f = d.find(t.file);
			bool okp = f == d.end() ? !t.has_old : (t.has_old && f->second == t.old) || (t.commit && f->second == t.neu);
			CHECK(okp, "a failed safe write damages the file", "%s: %s", ctx.c_str(), sm::show(d).c_str());
			if (t.crc) {
				int ret = futils_safew_file_check(t.path.c_str());
				Dir e = sm::load(wd);
				Txn u = t;
				const char *bad = judge_check(u, ret, e, t.commit && !reported);
				CHECK(!bad, bad ? bad : "", "%s; state %s; check %d leaves %s", ctx.c_str(), sm::show(d).c_str(), ret, sm::show(e).c_str());
				if (bad) continue;
				stat("checks after a fault");
			}
			eval(mix(mix(shape(o), (uint64_t)k), mix((uint64_t)(fe->err + 1000 * fe->cut), (uint64_t)(fe->nr * 4 + t.crc * 2 + t.has_old))));
			/* the next rewrite works */
			if (t.commit && r.chance(10)) {
				Dir bf = sm::load(wd);
				sm::Out o2 = sm::run([&] { body(t); }, sm::Plan());
				died(o2, ctx + ", then again");
				Dir g = sm::load(wd);
				CHECK(sh->opened && sh->ret == 0 && g.count(t.file) && g[t.file] == t.neu && (!t.crc || g[t.file + ".crc"] == crcs(t.neu)), "a rewrite after a failed one does not work", "%s: %d %s", ctx.c_str(), sh->ret, sm::show(g).c_str());
				stat("rewrites after a fault");
			}
		}
	}
}

/* ---------------------------------------------------------- C30, C31 */
/* which content the documented table designates: 0 none, 1 payload, 2 temporary payload */
static int table(const Dir &d, const std::string &f)
{
	auto has = [&](const char *s) { return d.count(f + s) > 0; };
	auto get = [&](const char *s) { auto i = d.find(f + s); return i == d.end() ? std::string() : i->second; };
	auto pair = [&](const char *p, const char *c) { std::string x = get(c); return x.size() >= 4 && x.substr(0, 4) == crcs(get(p)); };
	bool P = has(""), T = has(".tmp"), C = has(".crc"), X = has(".crc.tmp");
	if (P && T && C && X) return pair(".tmp", ".crc.tmp") ? 2 : pair("", ".crc") ? 1 : 0;
	if (P && C && X) return pair("", ".crc") || pair("", ".crc.tmp") ? 1 : 0;
	if (T && X) return pair(".tmp", ".crc.tmp") ? 2 : 0;
	if (P && C) return pair("", ".crc") ? 1 : 0;
	if (P && X) return pair("", ".crc.tmp") ? 1 : 0;
	return 0;
}
static Dir expected(const Dir &d, const std::string &f)
{
	Dir w;
	int k = table(d, f);
	if (!k) return w;
	std::string c = d.at(k == 1 ? f : f + ".tmp");
	w[f] = c;
	w[f + ".crc"] = crcs(c);
	return w;
}
static std::vector<std::pair<std::string, std::string>> crc_variants(const std::string &p, const std::string &tp, const std::string &other)
{
	std::string g = crcs(p), x = g;
	x[2] ^= 1;
	return {{"absent", ""}, {"of the payload", g}, {"of the temporary payload", crcs(tp)}, {"of another content", crcs(other)}, {"one bit off", x}, {"empty", ""}, {"1 byte", g.substr(0, 1)}, {"3 bytes", g.substr(0, 3)}};
}
static void one_check(const std::string &path, const std::string &file, const Dir &d, const std::string &what, bool twice)
{
	sm::store(wd, d);
	int f0 = nfds();
	int ret = futils_safew_file_check(read_only<0>(path.c_str(), path.size() + 1));
	Dir g = sm::load(wd), w = expected(d, file);
	int k = table(d, file);
	CHECK(nfds() == f0, "descriptor leaked by the check", "%s", what.c_str());
	CHECK((ret == 0) == (k != 0) && ret <= 0, k ? "a designated matching pair is refused" : "a check without a designated matching pair succeeds", "%s: %d, from %s", what.c_str(), ret, sm::show(d).c_str());
	/* nothing kept but the pair: in place, with a crc file of the established format (a longer crc file is kept as it is) */
	bool same = g == w;
	if (!same && ret == 0 && g.size() == 2 && g.count(file) && g.count(file + ".crc") && g[file] == w[file] && g[file + ".crc"].size() > 4 && g[file + ".crc"].substr(0, 4) == w[file + ".crc"]) same = true;
	CHECK(same, k ? "the check does not leave exactly the designated pair" : "a failed check leaves files", "%s: ret %d, from %s to %s", what.c_str(), ret, sm::show(d).c_str(), sm::show(g).c_str());
	if (twice) {
		int r2 = futils_safew_file_check(path.c_str());
		CHECK((r2 == 0) == (ret == 0) && sm::load(wd) == g, "a repeated check gives another result", "%s: %d then %d", what.c_str(), ret, r2);
		stat("repeated checks");
	}
	eval(mix(sm::hdir(d), 1));
	stat(k == 0 ? "invalid" : k == 1 ? "payload kept" : "temporary payload kept");
	tick();
}
static void mode_table()
{
	Rng &r = rng();
	const std::string f = "pay";
	int rounds = conf().thorough ? 400 : 8;
	for (int it = 0; it < rounds; it++) {
		std::string A = it == 0 ? "payload one" : r.bytes(r.below(it % 3 == 2 ? 9000 : 40)), B = it == 0 ? "" : r.bytes(r.below(50)), O = r.bytes(8) + "o";
		if (A == B) A += "1";
		for (int p = 0; p < 2; p++) for (int tp = 0; tp < 3; tp++) {
			/* temporary payload: absent, other content, same content */
			std::string T = tp == 2 ? A : B;
			auto v = crc_variants(A, T, O);
			for (size_t c = 0; c < v.size(); c++) for (size_t x = 0; x < v.size(); x++) {
				Dir d;
				if (p) d[f] = A;
				if (tp) d[f + ".tmp"] = T;
				if (c) d[f + ".crc"] = v[c].second;
				if (x) d[f + ".crc.tmp"] = v[x].second;
				one_check(r.chance(50) ? f : wd + "/" + f, f, d, fmt("payload %d, temporary payload %d, crc %s, temporary crc %s", p, tp, v[c].first.c_str(), v[x].first.c_str()), r.chance(30));
				if (it == 0) stat("table entries");
			}
		}
	}
	/* every byte of a payload and of a crc counts */
	int nc = conf().thorough ? 300 : 16;
	for (int it = 0; it < nc; it++) {
		std::string A = r.bytes(it == 0 ? 1 : it == 1 ? 4096 + r.below(10) : 1 + r.below(200));
		if (it == 2) A = std::string(64, '\xff');
		if (it == 3) A = std::string(32, '\0');
		for (size_t i = 0; i < A.size() + 4; i++) {
			if (A.size() > 300 && i < A.size() - 3 && r.below(A.size() / 100)) continue;
			int bits = conf().thorough ? 8 : 2;
			for (int b = 0; b < bits; b++) {
				Dir d; d[f] = A; d[f + ".crc"] = crcs(A);
				int bit = bits == 8 ? b : (int)r.below(8);
				if (i < A.size()) d[f][i] ^= (char)(1 << bit); else d[f + ".crc"][i - A.size()] ^= (char)(1 << bit);
				one_check(f, f, d, fmt("bit %d of byte %zu of a payload of %zu bytes and its crc changed", bit, i, A.size()), false);
				stat("bits changed");
			}
		}
		/* bytes appended or removed */
		for (int k = 0; k < 4; k++) {
			Dir d; d[f] = A; d[f + ".crc"] = crcs(A);
			if (k == 0) d[f] += '\0'; else if (k == 1) d[f] += (char)r.below(256); else if (k == 2) d[f].resize(d[f].size() - 1); else d[f] += r.bytes(5000);
			one_check(f, f, d, "length changed", false);
		}
	}
	/* commits write the established format */
	struct { const char *t; uint32_t crc; } golden[] = {{"", 0}, {"a", 0xca2e9442u}, {"The quick brown fox jumps over the lazy dog", 0x519e91f5u}};
	for (auto &g : golden) if (refcrc(g.t) != g.crc) harness_error(fmt("reference crc of '%s' is %08x", g.t, refcrc(g.t)));
	int nf = conf().thorough ? 5000 : 400;
	for (int it = 0; it < nf + 3; it++) {
		std::string A = it < 3 ? golden[it].t : r.bytes(rsize(r));
		sm::store(wd, Dir());
		struct futils_safew_file *h = futils_safew_fopen(f.c_str());
		if (!h) { viol("safe write without any failure reports one", "open"); continue; }
		futils_safew_fwrite(A.data(), 1, A.size(), h);
		int ret = futils_safew_fclose_commit_with_crc(h);
		Dir d = sm::load(wd);
		CHECK(ret == 0 && d[f + ".crc"] == crcs(A) && d[f] == A, "the crc written is not of the established format", "%zu bytes '%s': ret %d crc '%s', expected '%s'", A.size(), esc(A, 12).c_str(), ret, esc(d[f + ".crc"]).c_str(), esc(crcs(A)).c_str());
		CHECK(futils_safew_file_check(f.c_str()) == 0 && sm::load(wd) == d, "the check refuses a committed file", "%zu bytes", A.size());
		eval(mix(9, hstr(A)));
		stat("commits");
	}
	/* other files of the directory are left alone */
	Dir d; d[f] = "x"; d[f + ".crc"] = "zzzz"; d["other"] = "o"; d["other.tmp"] = "t"; d["pay.tmp.tmp"] = "u"; d["pay.crc.crc"] = "v"; d["xpay"] = "w"; d["pay2"] = "2";
	sm::store(wd, d);
	CHECK(futils_safew_file_check(f.c_str()) < 0, "a check without a designated matching pair succeeds", "-");
	d.erase(f); d.erase(f + ".crc");
	CHECK(sm::load(wd) == d, "the check removes other files", "%s", sm::show(sm::load(wd)).c_str());
	/* names: at the limit, and refused */
	for (size_t len : {1, 60, 119, 120, 127}) {
		std::string nm(len, 'm');
		Dir e; e[nm + ".tmp"] = "new"; e[nm + ".crc.tmp"] = crcs("new"); e[nm] = "old"; e[nm + ".crc"] = crcs("old");
		one_check(nm, nm, e, fmt("name of %zu characters", len), true);
		stat("names");
	}
	for (size_t len : {128, 129, 130, 131, 132, 135, 136, 140, 246}) {
		std::string nm(len, 'm');
		Dir e; e[nm] = "old"; e[nm + ".crc"] = crcs("old");
		if (len > 240) { e.clear(); e[nm] = "x"; }
		sm::store(wd, e);
		int ret = futils_safew_file_check(nm.c_str());
		Dir g = sm::load(wd);
		CHECK(g == e && (ret == 0) <= (e.size() == 2), "a name too long is mangled", "%zu characters: %d", len, ret);
	}
	sm::store(wd, Dir());
}
static void mode_checkfaults()
{
	Rng &r = rng();
	const std::string f = "pay";
	int rounds = conf().thorough ? 60 : 3;
	for (int it = 0; it < rounds; it++) {
		std::string A = r.bytes(it ? r.below(6000) : 30), B = r.bytes(r.below(60)) + "b", O = "other" + r.bytes(3);
		if (A == B) A += "1";
		auto v = crc_variants(A, B, O);
		for (int p = 0; p < 2; p++) for (int tp = 0; tp < 2; tp++) for (size_t c = 0; c < 6; c++) for (size_t x = 0; x < 6; x++) {
			Dir d;
			if (p) d[f] = A;
			if (tp) d[f + ".tmp"] = B;
			if (c) d[f + ".crc"] = v[c].second;
			if (x) d[f + ".crc.tmp"] = v[x].second;
			int k = table(d, f);
			if (!k && r.below(4)) continue; /* nothing to lose: only a sample */
			sm::store(wd, d);
			sm::Out clean = sm::run([&] { checkbody(f); }, sm::Plan());
			died(clean, sm::show(d));
			for (size_t j = 0; j < clean.ev.size(); j++) {
				std::vector<sm::Fault> fs;
				for (int e : sm::errnos(clean.ev[j])) { sm::Fault q; q.err = e; fs.push_back(q); }
				if (!conf().thorough && fs.size() > 2) { std::vector<sm::Fault> z{fs[0], fs[1 + r.below(fs.size() - 1)]}; fs = z; }
				if (sm::kind(clean.ev[j].nr) == sm::K_READ && clean.ev[j].ret > 1) { sm::Fault q; q.cut = 1 + (long)r.below((uint64_t)clean.ev[j].ret - 1); fs.push_back(q); }
				for (auto &q : fs) {
					sm::store(wd, d);
					sm::Plan pl;
					pl.faults[(int)j] = q;
					sm::Out o = sm::run([&] { checkbody(f); }, pl);
					tick();
					std::string ctx = fmt("from %s, call %zu %s%s", sm::show(d).c_str(), j, sm::str(clean.ev[j]).c_str(), q.cut >= 0 ? " short" : fmt(" failing with %d", q.err).c_str());
					died(o, ctx);
					int r1 = sh->ret;
					CHECK(sh->fd0 == sh->fd1 && sh->mem0 == sh->mem1, "descriptor or memory leaked by the check", "%s: %d/%d %lld", ctx.c_str(), sh->fd0, sh->fd1, (long long)(sh->mem1 - sh->mem0));
					Dir m = sm::load(wd);
					if (r1 == 0) CHECK(m.count(f) && m.count(f + ".crc") && m[f + ".crc"].substr(0, 4) == crcs(m[f]), "the check reports success without a matching pair", "%s: %s", ctx.c_str(), sm::show(m).c_str());
					/* next check, nothing fails */
					int r2 = futils_safew_file_check(f.c_str());
					Dir g = sm::load(wd);
					/* contents which were recoverable: of the designated pair, or of any other valid pair */
					if (k) {
						bool okA = p && (v[c].second == crcs(A) || v[x].second == crcs(A)), okB = tp && x && v[x].second == crcs(B);
						Dir wa, wb; wa[f] = A; wa[f + ".crc"] = crcs(A); wb[f] = B; wb[f + ".crc"] = crcs(B);
						CHECK(r2 == 0 && ((okA && g == wa) || (okB && g == wb)), "an i/o error during a check loses a valid file", "%s: check %d leaves %s, next check %d leaves %s", ctx.c_str(), r1, sm::show(m).c_str(), r2, sm::show(g).c_str());
						stat("valid files");
					} else {
						CHECK(r1 < 0 || q.cut >= 0, "the check reports success without a matching pair", "%s", ctx.c_str());
						CHECK(r2 < 0 || (g.count(f) && g.count(f + ".crc") && g[f + ".crc"].substr(0, 4) == crcs(g[f])), "the check reports success without a matching pair", "%s", ctx.c_str());
						stat("invalid files");
					}
					stat(r1 == 0 ? "succeeded despite the fault" : "error reported");
					eval(mix(mix(sm::hdir(d), j), (uint64_t)(q.err + 1000 * (q.cut + 1))));
					if (j == 3) sample(ctx);
				}
			}
		}
	}
}
void mon::run()
{
	watchdog(60);
	base = scratch("safew");
	wd = base;
	if (chdir(wd.c_str())) harness_error("chdir");
	sh = (Res *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	const std::string &m = conf().mode;
	if (m == "atomic") mode_atomic();
	else if (m == "readers") mode_readers();
	else if (m == "long") mode_long();
	else if (m == "recover") mode_recover();
	else if (m == "faults") mode_faults();
	else if (m == "table") mode_table();
	else mode_checkfaults();
}
