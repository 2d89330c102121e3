/* C35, C36: directory size and sync helpers under a system call monitor. */
#include "sysmon.h"
#include "alloc.h"
#include <sys/resource.h>
#include <sys/socket.h>
#include "futils/fs.h"
#include "futils/synctools.h"
using namespace mon;
using sm::Ev;
using sm::nfds;

static std::string base;
/* Some file systems do not tell the kind of an entry: as if it were one of them. */
static int untyped; /* percent of the entries */
static uint64_t untyped_seed, untyped_count;
extern "C" {
struct dirent *__real_readdir(DIR *);
struct dirent *__wrap_readdir(DIR *d)
{
	struct dirent *e = __real_readdir(d);
	if (e && untyped && mix(untyped_seed, untyped_count++) % 100 < (uint64_t)untyped) e->d_type = DT_UNKNOWN;
	return e;
}
struct dirent64 *__real_readdir64(DIR *);
struct dirent64 *__wrap_readdir64(DIR *d)
{
	struct dirent64 *e = __real_readdir64(d);
	if (e && untyped && mix(untyped_seed, untyped_count++) % 100 < (uint64_t)untyped) e->d_type = DT_UNKNOWN;
	return e;
}
}
struct Res { volatile int64_t ret; volatile int fd0, fd1, done; volatile int64_t live0, live1; };
static Res *sh;
/* ------------------------------------------------------------ trees */
struct Node { char kind; int64_t size; std::string name, target; std::vector<Node> sub; }; /* kind: f d l p s */
static int64_t total(const Node &n, bool rec)
{
	int64_t t = 0;
	for (auto &c : n.sub) { if (c.kind == 'f') t += c.size; else if (c.kind == 'd' && rec) t += total(c, true); }
	return t;
}
static size_t count(const Node &n) { size_t k = 0; for (auto &c : n.sub) k += 1 + count(c); return k; }
static void make(int dfd, const Node &n)
{
	for (auto &c : n.sub) {
		const char *s = c.name.c_str();
		bool ok = true;
		if (c.kind == 'f') {
			int fd = openat(dfd, s, O_WRONLY | O_CREAT | O_EXCL | O_CLOEXEC, 0644);
			ok = fd >= 0 && ftruncate(fd, c.size) == 0;
			/* some blocks, but not those of the whole file: the size is neither the space used nor a multiple of anything */
			if (ok && c.size > 0 && (c.size & 3) == 1) ok = pwrite(fd, "data", c.size < 4 ? (size_t)c.size : 4, c.size > 40000 ? 4096 : 0) > 0;
			if (ok && (c.size & 7) == 6) (void)!fallocate(fd, FALLOC_FL_KEEP_SIZE, 0, (c.size & 0xffff) + 9000);
			if (fd >= 0) close(fd);
		} else if (c.kind == 'd') {
			ok = mkdirat(dfd, s, 0755) == 0;
			int fd = openat(dfd, s, O_RDONLY | O_DIRECTORY | O_CLOEXEC);
			if (fd < 0) ok = false; else { make(fd, c); close(fd); }
		} else if (c.kind == 'l') ok = symlinkat(c.target.c_str(), dfd, s) == 0;
		else if (c.kind == 'p') ok = mkfifoat(dfd, s, 0644) == 0;
		else ok = mknodat(dfd, s, S_IFSOCK | 0644, 0) == 0;
		if (!ok) harness_error("cannot create '" + esc(c.name) + "': " + strerror(errno));
	}
}
static void wipe(int dfd, const Node &n)
{
	for (auto &c : n.sub) {
		if (c.kind == 'd') {
			int fd = openat(dfd, c.name.c_str(), O_RDONLY | O_DIRECTORY | O_NOFOLLOW | O_CLOEXEC);
			if (fd >= 0) { wipe(fd, c); close(fd); }
			unlinkat(dfd, c.name.c_str(), AT_REMOVEDIR);
		} else unlinkat(dfd, c.name.c_str(), 0);
	}
}
struct Tree {
	Node root;
	std::string path;
	int fd;
	Tree(const Node &n, const std::string &p) : root(n), path(p)
	{
		if (mkdir(p.c_str(), 0755)) harness_error("cannot create " + p);
		fd = open(p.c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC);
		make(fd, root);
	}
	~Tree() { wipe(fd, root); close(fd); rmdir(path.c_str()); }
};
static std::string rname(Rng &r)
{
	static const char *fix[] = {".hidden", "...", "..a", ".a", "a b", "%s%n", "\n", "-rf", "*", "caf\xc3\xa9", "\xff\xfe", "..."};
	if (r.chance(30)) return fix[r.below(12)];
	size_t n = r.chance(5) ? 255 : r.chance(15) ? 100 + r.below(150) : 1 + r.below(12);
	std::string s;
	for (size_t i = 0; i < n; i++) { char c = (char)(1 + r.below(255)); s += c == '/' ? '_' : c; }
	return s == "." || s == ".." ? "x" : s;
}
static int64_t rsz(Rng &r)
{
	static const int64_t e[] = {0, 1, 511, 512, 513, 4095, 4096, 4097, 65536, 0x7fffffff, 0x80000000ll, 0xffffffffll, 0x100000000ll, 5000000000ll, 0x7ffffff000ll};
	return r.chance(40) ? e[r.below(15)] : (int64_t)r.below(r.chance(50) ? 100 : 1000000);
}
static void fill(Rng &r, Node &n, int depth, int width, bool big)
{
	std::set<std::string> used;
	int k = (int)r.below((uint64_t)width + 1);
	for (int i = 0; i < k; i++) {
		Node c;
		c.name = rname(r);
		if (!used.insert(c.name).second) continue;
		c.size = 0;
		int x = (int)r.below(100);
		if (x < 50 || (depth <= 0 && x < 75)) { c.kind = 'f'; c.size = big ? rsz(r) : (int64_t)r.below(1000); }
		else if (x < 75) { c.kind = 'd'; fill(r, c, depth - 1, width, big); }
		else if (x < 90) {
			c.kind = 'l';
			static const char *tg[] = {".", "..", "../..", "nowhere", "/", "../big", "../bigdir", "x"};
			c.target = r.chance(50) || n.sub.empty() ? tg[r.below(8)] : n.sub[r.below(n.sub.size())].name;
		} else c.kind = x < 95 ? 'p' : 's';
		n.sub.push_back(c);
	}
}
static void judge(const std::string &path, bool rec, int64_t want, const std::string &what)
{
	const char *ro = read_only<0>(path.c_str(), path.size() + 1);
	int f0 = nfds();
	int64_t l0 = al::live.load();
	int64_t got = futils_fs_dir_size(ro, rec);
	int64_t l1 = al::live.load();
	int f1 = nfds();
	CHECK(got == want, rec ? "recursive size differs from the sum of the regular files" : "size differs from the sum of the regular files", "%s (%s): %lld, expected %lld", what.c_str(), esc(path, 40).c_str(), (long long)got, (long long)want);
	CHECK(f0 == f1, "descriptor leaked", "%s: %d then %d", what.c_str(), f0, f1);
	CHECK(l0 == l1, "memory leaked", "%s: %lld blocks", what.c_str(), (long long)(l1 - l0));
	tick();
}
static Node dirnode(const std::string &name) { Node n; n.kind = 'd'; n.size = 0; n.name = name; return n; }
static Node filenode(const std::string &name, int64_t sz) { Node n; n.kind = 'f'; n.size = sz; n.name = name; return n; }
static void refused(const std::string &path, const std::string &what)
{
	for (int rec = 0; rec < 2; rec++) {
		const char *ro = read_only<0>(path.c_str(), path.size() + 1);
		int f0 = nfds();
		int64_t l0 = al::live.load();
		int64_t got = futils_fs_dir_size(ro, rec);
		int64_t l1 = al::live.load();
		CHECK(got < 0 && got > -4096, "unreadable directory gives a size", "%s: %lld", what.c_str(), (long long)got);
		CHECK(nfds() == f0 && l0 == l1, "descriptor or memory leaked", "%s", what.c_str());
		eval(mix(hstr(what), (uint64_t)rec));
		stat("refused");
	}
}
static void mode_trees()
{
	Rng &r = rng();
	sm::spit(base + "/big", std::string(7777, 'b'));
	mkdir((base + "/bigdir").c_str(), 0755);
	sm::spit(base + "/bigdir/f", std::string(3333, 'b'));
	futils_fs_dir_size((base + "/bigdir").c_str(), true);
	if (chdir(base.c_str())) harness_error("chdir");
	int n = conf().thorough ? 30000 : 1200;
	for (int i = 0; i < n; i++) {
		Node root = dirnode("");
		fill(r, root, (int)r.below(5), 1 + (int)r.below(7), true);
		if (i % 50 == 1) for (int k = 0, m = (int)r.below(2500); k < m; k++) root.sub.push_back(filenode(fmt("many%d", k), (int64_t)r.below(9)));
		if (i % 3 == 2) { /* the top name is a long or odd one */
		}
		std::string nm = "tree" + std::to_string(i);
		Tree t(root, base + "/" + nm);
		int64_t flat = total(root, false), all = total(root, true);
		std::string ctx = fmt("tree of %zu entries, %zu at the top", count(root), root.sub.size());
		static const char *form[] = {"", "/", "//", "/."};
		std::string p = (r.chance(50) ? t.path : r.chance(50) ? nm : "./" + nm) + form[r.below(4)];
		untyped = r.chance(50) ? 0 : r.chance(50) ? 100 : 30;
		untyped_seed = r.u64();
		if (untyped) ctx += fmt(", the kind of %d%% of the entries not told", untyped), stat("trees with untold kinds");
		judge(p, false, flat, ctx);
		judge(p, true, all, ctx);
		eval(mix(mix((uint64_t)flat, (uint64_t)all), count(root)), !root.sub.empty());
		stat("entries", (int64_t)count(root));
		if (all != flat) stat("trees with files below");
		if (all > 0xffffffffll) stat("sums above 32 bits");
		std::function<void(const Node &)> kinds = [&](const Node &d) { for (auto &c : d.sub) { stat(std::string("entries of kind ") + (c.kind == 'f' ? "file" : c.kind == 'd' ? "directory" : c.kind == 'l' ? "link" : c.kind == 'p' ? "fifo" : "socket")); if (c.name[0] == '.') stat("hidden entries"); kinds(c); } };
		kinds(root);
		if (i < 3) sample(ctx + fmt(": %lld / %lld", (long long)flat, (long long)all));
	}
	untyped = 0;
	refused(base + "/nothing", "missing directory");
	refused(base + "/big", "a file");
	refused("", "empty path");
	refused(base + "/big/x", "below a file");
	refused(std::string(5000, 'a'), "path of 5000 characters");
	refused(base + "/" + std::string(256, 'a'), "name of 256 characters");
}
/* paths around the limit of the system, chains of directories, few descriptors */
static void mode_deep()
{
	Rng &r = rng();
	if (chdir(base.c_str())) harness_error("chdir");
	int n = conf().thorough ? 400 : 42;
	for (int it = 0; it < n; it++) {
		/* chain below "d" such that the deepest entry is called by a path of len characters */
		int len = it < 28 ? 4085 + it % 14 : 3900 + (int)r.below(260);
		bool rel = r.chance(50);
		std::string root = rel ? "d" : base + "/d";
		std::vector<std::string> comps;
		int left = len - (int)root.size();
		int last = 1 + (int)r.below(200);
		left -= last + 1;
		while (left > 0) { int k = left > 202 ? 100 + (int)r.below(100) : left - 1; if (left - k - 1 == 1) k--; if (k <= 0) { left = 0; break; } comps.push_back(std::string((size_t)k, (char)('a' + r.below(26)))); left -= k + 1; }
		int plen = (int)root.size();
		for (auto &c : comps) plen += 1 + (int)c.size();
		plen += 1 + last;
		Node leaf = filenode(std::string((size_t)last, 'z'), 1234567);
		Node cur = leaf;
		int64_t sum = leaf.size;
		/* names next to the leaf which a truncated path could hit */
		Node top = dirnode("");
		std::vector<Node> level{leaf};
		if (last > 1) { Node x = filenode(std::string((size_t)last - 1, 'z'), 99); level.push_back(x); sum += 99; }
		for (size_t i = comps.size(); i-- > 0;) {
			Node d = dirnode(comps[i]);
			d.sub = level;
			if (r.chance(30)) { int64_t s = (int64_t)r.below(100); d.sub.push_back(filenode("f", s)); sum += s; }
			level = {d};
		}
		top.sub = level;
		Tree t(top, base + "/d");
		int f0 = nfds();
		int64_t l0 = al::live.load();
		int64_t got = futils_fs_dir_size(root.c_str(), true);
		int64_t l1 = al::live.load();
		bool reach = plen <= 4095;
		if (reach) CHECK(got == sum, "recursive size differs from the sum of the regular files", "deepest path of %d characters, %zu levels: %lld, expected %lld", plen, comps.size(), (long long)got, (long long)sum);
		else CHECK(got < 0 || got == sum, "entries which cannot be reached are ignored", "deepest path of %d characters: %lld, expected an error or %lld", plen, (long long)got, (long long)sum);
		CHECK(nfds() == f0 && l1 == l0, "descriptor or memory leaked", "deepest path of %d characters", plen);
		stat(reach ? "longest paths reached" : "paths too long");
		/* the deepest directory itself, not recursive */
		std::string deep = root;
		for (auto &c : comps) deep += "/" + c;
		if (deep.size() <= 4095 && !comps.empty()) {
			int64_t s2 = total(*[&] { const Node *q = &top; for (size_t i = 0; i < comps.size(); i++) for (auto &c : q->sub) if (c.kind == 'd') { q = &c; break; } return q; }(), false);
			int64_t g2 = futils_fs_dir_size(deep.c_str(), false);
			if (reach) CHECK(g2 == s2, "size differs from the sum of the regular files", "path of %zu characters: %lld, expected %lld", deep.size(), (long long)g2, (long long)s2);
			else CHECK(g2 < 0 || g2 == s2, "entries which cannot be reached are ignored", "directory of %zu characters with an entry of %d: %lld, expected an error or %lld", deep.size(), last, (long long)g2, (long long)s2);
		}
		eval(mix((uint64_t)plen, comps.size()));
		tick();
	}
	/* a directory whose path leaves no room at all for an entry */
	for (int len = 4088; len <= 4095; len++) {
		std::string deep = "d";
		std::vector<std::string> comps;
		while ((int)deep.size() < len) { int left = len - (int)deep.size(); int k = left > 202 ? 150 : left > 101 ? left / 2 : left - 1; if (k < 1) k = 1; comps.push_back(std::string((size_t)k, 'k')); deep += "/" + comps.back(); }
		if ((int)deep.size() != len) continue;
		std::vector<Node> level{filenode("entry1", 10), filenode("e", 5), dirnode("n")};
		for (size_t i = comps.size(); i-- > 0;) { Node d = dirnode(comps[i]); d.sub = level; level = {d}; }
		Node top = dirnode("");
		top.sub = level;
		Tree t(top, base + "/d");
		int64_t g = futils_fs_dir_size(deep.c_str(), false), g2 = futils_fs_dir_size(deep.c_str(), true);
		if (len + 7 <= 4095) CHECK(g == 15 && g2 == 15, "size differs from the sum of the regular files", "path of %d characters: %lld %lld", len, (long long)g, (long long)g2);
		else CHECK((g < 0 || g == 15) && (g2 < 0 || g2 == 15), "entries which cannot be reached are ignored", "directory of %d characters: %lld %lld, expected an error or 15", len, (long long)g, (long long)g2);
		stat("full paths");
		eval(mix(8, (uint64_t)len));
	}
	/* descriptors run out at some depth */
	int m = conf().thorough ? 200 : 40;
	for (int it = 0; it < m; it++) {
		int depth = 2 + (int)r.below(40);
		std::vector<Node> level{filenode("f", 3)};
		int64_t sum = 3;
		for (int i = 0; i < depth; i++) { Node d = dirnode(r.chance(50) ? "d" : ".d"); d.sub = level; d.sub.push_back(filenode("g", i)); sum += i; level = {d}; }
		Node top = dirnode("");
		top.sub = level;
		Tree t(top, base + "/d");
		struct rlimit old, lim;
		getrlimit(RLIMIT_NOFILE, &old);
		int f0 = nfds();
		lim = old;
		lim.rlim_cur = (rlim_t)f0 + 1 + r.below((uint64_t)depth + 4);
		setrlimit(RLIMIT_NOFILE, &lim);
		int64_t l0 = al::live.load();
		int64_t got = futils_fs_dir_size("d", true);
		int64_t l1 = al::live.load();
		setrlimit(RLIMIT_NOFILE, &old);
		CHECK(got < 0 || got == sum, "running out of descriptors gives a wrong size", "%d levels, %d descriptors: %lld, expected an error or %lld", depth, (int)lim.rlim_cur, (long long)got, (long long)sum);
		CHECK(nfds() == f0 && l0 == l1, "descriptor or memory leaked", "%d levels, %d descriptors", depth, (int)lim.rlim_cur);
		stat(got < 0 ? "out of descriptors" : "enough descriptors");
		judge("d", true, sum, "after running out of descriptors");
		eval(mix(mix(9, (uint64_t)depth), lim.rlim_cur));
	}
}
static void died(const sm::Out &o, const std::string &ctx)
{
	if (o.sig) viol(fmt("process died with signal %d", o.sig), ctx);
	else if (!o.exited || o.code || !sh->done) viol("process ended before the call returned", fmt("%s (exit %d)", ctx.c_str(), o.code));
}
template <class F> static sm::Out traced(F fn, const sm::Plan &p)
{
	sh->done = 0; sh->ret = -99999;
	sm::Out o = sm::run([&] {
		sh->fd0 = nfds();
		sh->live0 = al::live.load();
		sm::begin();
		sh->ret = fn();
		sm::end();
		sh->live1 = al::live.load();
		sh->fd1 = nfds();
		sh->done = 1;
	}, p);
	tick();
	stat("system calls observed", (int64_t)o.ev.size());
	return o;
}
static void mode_dirfaults()
{
	Rng &r = rng();
	if (chdir(base.c_str())) harness_error("chdir");
	int n = conf().thorough ? 600 : 50;
	for (int it = 0; it < n; it++) {
		Node root = dirnode("");
		do { root.sub.clear(); fill(r, root, 3, 4, false); } while (count(root) < 3 || count(root) > 40);
		Tree t(root, base + "/d");
		for (int rec = 0; rec < 2; rec++) {
			int64_t want = total(root, rec);
			auto call = [&]() -> int64_t { return futils_fs_dir_size("d", rec); };
			sm::Out clean = traced(call, sm::Plan());
			died(clean, "no failure");
			CHECK(sh->ret == want, "size differs from the sum of the regular files", "%lld, expected %lld", (long long)sh->ret, (long long)want);
			for (size_t k = 0; k < clean.ev.size(); k++) {
				const Ev &e = clean.ev[k];
				std::vector<int> errs{EIO, ENOMEM, EACCES};
				if (sm::kind(e.nr) == sm::K_OPEN) errs.push_back(EMFILE);
				for (int err : errs) {
					sm::Plan p;
					p.faults[(int)k] = {err, -1};
					sm::Out o = traced(call, p);
					std::string ctx = fmt("tree of %zu entries, recursive %d, call %zu %s failing with %d", count(root), rec, k, sm::str(e).c_str(), err);
					died(o, ctx);
					int64_t got = sh->ret;
					bool reads = sm::kind(e.nr) == sm::K_OPEN || e.nr == SYS_getdents64 || e.nr == SYS_newfstatat || e.nr == SYS_lstat || e.nr == SYS_stat || e.nr == SYS_statx || e.nr == SYS_fstat;
					if (reads) CHECK(got == -err || got == want, "failing operation not reported", "%s: %lld", ctx.c_str(), (long long)got);
					/* opening, listing and examining cannot be done without */
					if (sm::kind(e.nr) == sm::K_OPEN || e.nr == SYS_getdents64 || e.nr == SYS_newfstatat || e.nr == SYS_lstat)
						CHECK(got < 0 || o.ev.size() > clean.ev.size(), "failing operation not reported", "%s: %lld (%lld without it)", ctx.c_str(), (long long)got, (long long)want);
					CHECK(got < 0 || got == want, "failing operation changes the size", "%s: %lld, expected %lld", ctx.c_str(), (long long)got, (long long)want);
					CHECK(sh->fd0 == sh->fd1 && sh->live0 == sh->live1, "descriptor or memory leaked", "%s: %d/%d descriptors, %lld blocks", ctx.c_str(), sh->fd0, sh->fd1, (long long)(sh->live1 - sh->live0));
					eval(mix(mix((uint64_t)k, (uint64_t)err), mix((uint64_t)e.nr, count(root))));
					stat(got < 0 ? "faults reported" : "faults without consequence");
					if (it == 0) sample(ctx);
				}
			}
		}
	}
}
/* ------------------------------------------------------------ C36 */
struct Want { bool file, folder; };
static void mode_sync()
{
	Rng &r = rng();
	if (chdir(base.c_str())) harness_error("chdir");
	strerror(EIO);
	int n = conf().thorough ? 1500 : 80;
	for (int it = 0; it < n; it++) {
		/* directory chain and a file */
		std::vector<std::string> made;
		std::string dir = r.chance(50) ? base + "/s" : r.chance(50) ? "s" : "./s";
		mkdir((base + "/s").c_str(), 0755);
		std::string real = base + "/s";
		made.push_back(real);
		for (int k = (int)r.below(4); k > 0; k--) {
			std::string nm = r.chance(10) ? std::string(200, 'd') : r.chance(20) ? "%s" : r.chance(20) ? "a b" : "sub";
			dir += (r.chance(20) ? "//" : "/") + nm;
			real += "/" + nm;
			mkdir(real.c_str(), 0755);
			made.push_back(real);
		}
		/* paths as long as the system takes */
		bool longp = it % 6 == 3;
		if (longp) {
			size_t target = r.chance(40) ? 4095 - 40 : 300 + r.below(3700);
			while (real.size() + 12 < target) {
				std::string nm(1 + r.below(std::min<size_t>(target - real.size() - 1, 250)), 'p');
				dir += "/" + nm;
				real += "/" + nm;
				if (real.size() > 4060) harness_error("path");
				mkdir(real.c_str(), 0755);
				made.push_back(real);
			}
			stat("long paths");
			stat_max("max:path length", (int64_t)dir.size());
		}
		std::string fname = longp ? "f" : r.chance(20) ? std::string(250, 'f') : r.chance(30) ? ".f" : "file";
		sm::spit(real + "/" + fname, r.bytes(r.below(3000)));
		std::string odd = real;
		if (!longp && r.chance(20)) { dir += "/../" + real.substr(real.rfind('/') + 1); if (made.size() == 1) dir = base + "/s/../s"; }
		std::string file = dir + (r.chance(20) ? "//" : "/") + fname;
		struct stat fs, ds;
		if (stat(file.c_str(), &fs) || stat(dir.c_str(), &ds)) harness_error("tree");
		for (int op = 0; op < 3; op++) {
			const char *fp = file.c_str(), *dp = dir.c_str();
			if (it % 3 == 1) { fp = read_only<0>(fp, file.size() + 1); dp = read_only<1>(dp, dir.size() + 1); }
			auto call = [&]() -> int64_t { return op == 0 ? sync_file(fp) : op == 1 ? sync_folder(dp) : sync_file_and_folder(fp); };
			static const char *opn[] = {"sync_file", "sync_folder", "sync_file_and_folder"};
			Want w = {op != 1, op != 0};
			auto judge = [&](const sm::Out &o, const std::string &ctx, const std::vector<int> &errs) {
				died(o, ctx);
				bool gotf = false, gotd = false;
				for (auto &e : o.ev) {
					if (sm::kind(e.nr) != sm::K_SYNC || e.ret != 0) continue;
					if (e.nr == SYS_sync || e.nr == SYS_syncfs || (e.dev == fs.st_dev && e.ino == fs.st_ino)) gotf = true;
					if (e.nr == SYS_sync || e.nr == SYS_syncfs || (e.dev == ds.st_dev && e.ino == ds.st_ino)) gotd = true;
				}
				bool done = (!w.file || gotf) && (!w.folder || gotd);
				int64_t ret = sh->ret;
				CHECK(ret != 0 || done, "success without having synchronised", "%s: file synchronised %d, folder synchronised %d", ctx.c_str(), gotf, gotd);
				CHECK(ret <= 0, "neither success nor a negative errno", "%s: %lld", ctx.c_str(), (long long)ret);
				if (errs.empty()) CHECK(ret == 0, "synchronisation without any failure reports one", "%s: %lld", ctx.c_str(), (long long)ret);
				else if (!done) {
					bool known = false;
					for (int e : errs) if (ret == -e) known = true;
					CHECK(known, "the error reported is not the one which happened", "%s: %lld", ctx.c_str(), (long long)ret);
				}
				CHECK(sh->fd0 == sh->fd1 && sh->live0 == sh->live1, "descriptor or memory leaked", "%s: %d/%d descriptors, %lld blocks", ctx.c_str(), sh->fd0, sh->fd1, (long long)(sh->live1 - sh->live0));
				stat(ret == 0 ? "synchronised" : "failures reported");
			};
			sm::Plan p0;
			p0.ids = true;
			sm::Out clean = traced(call, p0);
			std::string what = fmt("%s(%s)", opn[op], esc(op == 1 ? dir : file, 30).c_str());
			judge(clean, what, {});
			eval(mix(mix((uint64_t)op, clean.ev.size()), hstr(op == 1 ? dir : file)));
			if (it < 2) { std::string s; for (auto &e : clean.ev) s += " " + sm::str(e); sample(what + ":" + s); }
			/* no memory */
			for (int at = 0; at < 6; at++) {
				static bool *hit = (bool *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
				*hit = false;
				sm::Out o = traced([&]() -> int64_t { al::arm(at, at & 1); int64_t q = call(); *hit = al::failed > 0; al::disarm(); return q; }, p0);
				judge(o, what + fmt(", allocation %d failing", at), {ENOMEM});
				eval(mix(mix((uint64_t)op, (uint64_t)at), 4242), *hit);
				if (!*hit) break;
				stat("allocations failed");
			}
			for (size_t k = 0; k < clean.ev.size(); k++) {
				auto errs = sm::errnos(clean.ev[k]);
				for (int err : errs) {
					sm::Plan p;
					p.ids = true;
					p.faults[(int)k] = {err, -1};
					sm::Out o = traced(call, p);
					std::string ctx = fmt("%s, call %zu %s failing with %d", what.c_str(), k, sm::str(clean.ev[k]).c_str(), err);
					judge(o, ctx, {err});
					eval(mix(mix((uint64_t)op * 100 + k, (uint64_t)err), clean.ev.size()));
					/* and a second failure */
					if (r.chance(conf().thorough ? 100 : 40) && o.ev.size() > k + 1) {
						size_t k2 = k + 1 + r.below(o.ev.size() - k - 1);
						auto e2 = sm::errnos(o.ev[k2]);
						int err2 = e2[r.below(e2.size())];
						p.faults[(int)k2] = {err2, -1};
						sm::Out oo = traced(call, p);
						judge(oo, ctx + fmt(" and call %zu %s with %d", k2, sm::str(o.ev[k2]).c_str(), err2), {err, err2});
						stat("double failures");
						eval(mix(mix((uint64_t)op * 1000 + k * 20 + k2, (uint64_t)err), (uint64_t)err2));
					}
				}
			}
		}
		/* wrong arguments */
		auto refuse = [&](const char *what, int ret, int alt) {
			CHECK(ret < 0 && (!alt || ret == -alt), "wrong argument accepted", "%s: %d", what, ret);
			stat("wrong arguments");
		};
		/* the first round lets the C library allocate what it keeps */
		int f0 = nfds();
		int64_t l0 = 0;
		for (int round = 0; round < 2; round++) {
		l0 = al::live.load();
		refuse("folder request on a file", sync_folder(file.c_str()), ENOTDIR);
		refuse("missing file", sync_file((dir + "/none").c_str()), ENOENT);
		refuse("missing folder", sync_folder((dir + "/none").c_str()), ENOENT);
		refuse("missing file in an existing folder", sync_file_and_folder((dir + "/none").c_str()), ENOENT);
		refuse("missing folder of a missing file", sync_file_and_folder((dir + "/none/none").c_str()), ENOENT);
		refuse("below a file", sync_file_and_folder((file + "/x").c_str()), ENOTDIR);
		refuse("no file", sync_file(nullptr), 0);
		refuse("no folder", sync_folder(nullptr), 0);
		refuse("no file, with folder", sync_file_and_folder(nullptr), 0);
		refuse("empty path", sync_file(""), 0);
		refuse("empty folder path", sync_folder(""), 0);
		refuse("empty path, with folder", sync_file_and_folder(""), 0);
		refuse("path of 5000 characters", sync_file_and_folder(("/" + std::string(5000, 'a')).c_str()), 0);
		}
		CHECK(nfds() == f0 && al::live.load() == l0, "descriptor or memory leaked", "wrong arguments: %lld blocks", (long long)(al::live.load() - l0));
		/* a name without a folder part: refused, or synchronised with the current directory */
		sm::spit(base + "/bare", "x");
		struct stat bs, cs;
		stat((base + "/bare").c_str(), &bs); stat(base.c_str(), &cs);
		sm::Plan pb;
		pb.ids = true;
		sm::Out bo = traced([&]() -> int64_t { return sync_file_and_folder("bare"); }, pb);
		died(bo, "bare name");
		if (sh->ret == 0) {
			bool a = false, b = false;
			for (auto &e : bo.ev) if (sm::kind(e.nr) == sm::K_SYNC && e.ret == 0) { if (e.ino == bs.st_ino) a = true; if (e.ino == cs.st_ino) b = true; if (e.nr == SYS_sync || e.nr == SYS_syncfs) a = b = true; }
			CHECK(a && b, "success without having synchronised", "bare name: file %d, folder %d", a, b);
		}
		CHECK(sh->ret <= 0 && sh->fd0 == sh->fd1 && sh->live0 == sh->live1, "descriptor or memory leaked", "bare name: %lld", (long long)sh->ret);
		/* files nobody can write to: a running program (a copy of ours) */
		if (it % 10 == 0) {
			static pid_t busy;
			std::string exe = base + "/busy";
			if (!busy) {
				sm::spit(exe, sm::slurp("/proc/self/exe"));
				chmod(exe.c_str(), 0700);
				int pp[2];
				if (pipe2(pp, O_CLOEXEC)) harness_error("pipe");
				busy = fork();
				if (!busy) { prctl(PR_SET_PDEATHSIG, SIGKILL); execl(exe.c_str(), exe.c_str(), "quick", "1", "sleep", (char *)nullptr); _exit(9); }
				close(pp[1]);
				char c;
				(void)!read(pp[0], &c, 1); /* closed by the exec */
				close(pp[0]);
			}
			int wfd = open(exe.c_str(), O_WRONLY | O_CLOEXEC);
			if (wfd >= 0) { close(wfd); stat("running program writable"); }
			else stat("files which cannot be written");
			struct stat xs;
			stat(exe.c_str(), &xs);
			for (int op = 0; op < 2; op++) {
				sm::Out xo = traced([&]() -> int64_t { return op ? sync_file_and_folder(exe.c_str()) : sync_file(exe.c_str()); }, pb);
				died(xo, "running program");
				bool a = false;
				for (auto &e : xo.ev) if (sm::kind(e.nr) == sm::K_SYNC && e.ret == 0 && (e.ino == xs.st_ino || e.nr == SYS_sync || e.nr == SYS_syncfs)) a = true;
				CHECK(sh->ret == 0 && a, "synchronisation without any failure reports one", "a running program: %lld", (long long)sh->ret);
			}
			CHECK(sync_file("/dev/null") < 0, "success without having synchronised", "/dev/null, which cannot be");
		}
		/* links are followed, the folder is the one named */
		{
			std::string la = base + "/ln_a", lf = base + "/ln_f", other = base + "/ln_d";
			mkdir(other.c_str(), 0755);
			(void)!symlink(real.c_str(), la.c_str());
			(void)!symlink((real + "/" + fname).c_str(), (other + "/l").c_str());
			(void)!symlink("ln_d/l", lf.c_str());
			struct { int op; std::string path; std::string file, folder; } links[] = {
				{0, la + "/" + fname, real + "/" + fname, ""}, {1, la, "", real}, {1, la + "/", "", real}, {2, la + "/" + fname, real + "/" + fname, real},
				{0, lf, real + "/" + fname, ""}, {2, lf, real + "/" + fname, base}, {2, other + "/l", real + "/" + fname, other},
				{1, base + "/", "", base}, {1, base + "/ln_d/.", "", other}, {1, base + "/ln_d//..", "", base}, {1, ".", "", base}, {1, "ln_d", "", other}, {2, "./ln_f", real + "/" + fname, base}, {2, "ln_d/l", real + "/" + fname, other},
			};
			for (auto &l : links) {
				if (l.path.size() > 4090 || l.file.size() > 4090) continue;
				sm::Out lo = traced([&]() -> int64_t { return l.op == 0 ? sync_file(l.path.c_str()) : l.op == 1 ? sync_folder(l.path.c_str()) : sync_file_and_folder(l.path.c_str()); }, pb);
				died(lo, "links");
				struct stat a, b;
				bool ga = l.file.empty(), gb = l.folder.empty();
				if ((!ga && stat(l.file.c_str(), &a)) || (!gb && stat(l.folder.c_str(), &b))) harness_error("links");
				for (auto &e : lo.ev) if (sm::kind(e.nr) == sm::K_SYNC && e.ret == 0) {
					if (e.nr == SYS_sync || e.nr == SYS_syncfs) ga = gb = true;
					if (!l.file.empty() && e.dev == a.st_dev && e.ino == a.st_ino) ga = true;
					if (!l.folder.empty() && e.dev == b.st_dev && e.ino == b.st_ino) gb = true;
				}
				CHECK(sh->ret == 0, "synchronisation without any failure reports one", "%s, function %d: %lld", esc(l.path.substr(0, 60), 60).c_str(), l.op, (long long)sh->ret);
				CHECK(sh->ret != 0 || (ga && gb), "success without having synchronised", "%s, function %d: file %d, folder %d", esc(l.path.substr(0, 60), 60).c_str(), l.op, ga, gb);
				CHECK(sh->fd0 == sh->fd1 && sh->live0 == sh->live1, "descriptor or memory leaked", "%s", esc(l.path.substr(0, 60), 60).c_str());
				stat("links, dots and trailing slashes");
			}
			unlink(la.c_str()); unlink(lf.c_str()); unlink((other + "/l").c_str()); rmdir(other.c_str());
		}
		/* something directly in the root folder: nothing but reads and synchronisation */
		if (it % 8 == 1) for (const char *rp : {"/etc", "/usr", "//etc"}) {
			struct stat a, b;
			if (stat(rp, &a) || stat("/", &b)) continue;
			bool ok = true;
			for (const char *q : {rp, "/"}) { int fd = open(q, O_RDONLY | O_CLOEXEC); if (fd < 0 || fsync(fd)) ok = false; if (fd >= 0) close(fd); }
			if (!ok) { stat("root folder which cannot be synchronised"); continue; }
			sm::Out ro = traced([&]() -> int64_t { return sync_file_and_folder(rp); }, pb);
			died(ro, "root folder");
			bool ga = false, gb = false;
			for (auto &e : ro.ev) if (sm::kind(e.nr) == sm::K_SYNC && e.ret == 0) {
				if (e.nr == SYS_sync || e.nr == SYS_syncfs) ga = gb = true;
				if (e.dev == a.st_dev && e.ino == a.st_ino) ga = true;
				if (e.dev == b.st_dev && e.ino == b.st_ino) gb = true;
			}
			CHECK(sh->ret == 0, "synchronisation without any failure reports one", "%s: %lld", rp, (long long)sh->ret);
			CHECK(sh->ret != 0 || (ga && gb), "success without having synchronised", "%s: file %d, folder %d", rp, ga, gb);
			stat("in the root folder");
		}
		/* the content is not touched */
		struct stat fs2;
		CHECK(stat(file.c_str(), &fs2) == 0 && fs2.st_size == fs.st_size && fs2.st_mtim.tv_nsec == fs.st_mtim.tv_nsec && fs2.st_ino == fs.st_ino, "synchronising changes the file", "%s", esc(file, 30).c_str());
		unlink((base + "/bare").c_str());
		unlink((real + "/" + fname).c_str());
		for (size_t i = made.size(); i-- > 0;) rmdir(made[i].c_str());
	}
}
void mon::run()
{
	if (conf().mode == "sleep") { for (int i = 0; i < 900; i++) sleep(1); _exit(0); }
	watchdog(60);
	base = scratch("fsx");
	sh = (Res *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	const std::string &m = conf().mode;
	if (m == "trees") mode_trees();
	else if (m == "deep") mode_deep();
	else if (m == "dirfaults") mode_dirfaults();
	else if (m == "sync") mode_sync();
	else harness_error("mode");
}
