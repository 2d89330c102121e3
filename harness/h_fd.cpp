/* C38: descriptor hygiene. */
#include "sysmon.h"
#include <poll.h>
#include <sys/eventfd.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include "futils/fdutils.h"
#include "futils/mbox.h"
#include "futils/dynmbox.h"
#include "futils/inotify.h"
using namespace mon;
using sm::nfds;

static std::string base;
static std::set<int> fdset()
{
	std::set<int> s;
	int d = open("/proc/self/fd", O_RDONLY | O_DIRECTORY | O_CLOEXEC);
	if (d < 0) harness_error("/proc/self/fd");
	char b[4096];
	long k;
	while ((k = syscall(SYS_getdents64, d, b, sizeof(b))) > 0)
		for (long o = 0; o < k; o += *(unsigned short *)(b + o + 16)) if (b[o + 19] != '.') s.insert(atoi(b + o + 19));
	close(d);
	s.erase(d);
	return s;
}
static std::vector<int> newfds(const std::set<int> &before)
{
	std::vector<int> v;
	for (int f : fdset()) if (!before.count(f)) v.push_back(f);
	return v;
}
/* descriptors a new program gets when this process executes it */
static std::set<int> after_exec()
{
	int p[2];
	if (pipe2(p, O_CLOEXEC)) harness_error("pipe");
	fflush(stdout);
	pid_t pid = fork();
	if (!pid) {
		dup2(p[1], 1);
		execl("/bin/ls", "ls", "-n", "/proc/self/fd", (char *)nullptr);
		_exit(96);
	}
	close(p[1]);
	std::string s;
	char b[4096];
	ssize_t k;
	while ((k = read(p[0], b, sizeof(b))) > 0) s.append(b, (size_t)k);
	close(p[0]);
	int st;
	waitpid(pid, &st, 0);
	if (!WIFEXITED(st) || WEXITSTATUS(st)) harness_error("cannot run ls");
	std::set<int> v;
	size_t o = 0;
	while (o < s.size()) { size_t e = s.find('\n', o); if (e == std::string::npos) break; std::string l = s.substr(o, e - o); o = e + 1; size_t a = l.find(" -> "); if (a == std::string::npos) continue; if (l.compare(a + 4, 6, "/proc/") == 0) continue; /* of ls itself */ size_t sp = l.rfind(' ', a - 1); v.insert(atoi(l.substr(sp + 1, a - sp - 1).c_str())); }
	return v;
}
/* ---------------------------------------------------- flag helpers */
/* two descriptors of the same kind with the same flags */
static const char *kinds[] = {"pipe read end", "pipe write end", "file read", "file write", "file read-write", "file append", "socket", "eventfd", "directory", "path only", "noatime file"};
static bool mk(int kind, int fd[2])
{
	fd[0] = fd[1] = -1;
	for (int i = 0; i < 2; i++) {
		int p[2];
		std::string f = base + "/plain";
		switch (kind) {
		case 0: if (pipe(p)) return false; fd[i] = p[0]; close(p[1]); break;
		case 1: if (pipe(p)) return false; fd[i] = p[1]; close(p[0]); break;
		case 2: fd[i] = open(f.c_str(), O_RDONLY); break;
		case 3: fd[i] = open(f.c_str(), O_WRONLY); break;
		case 4: fd[i] = open(f.c_str(), O_RDWR); break;
		case 5: fd[i] = open(f.c_str(), O_WRONLY | O_APPEND); break;
		case 6: if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) return false; fd[i] = p[0]; close(p[1]); break;
		case 7: fd[i] = eventfd(0, 0); break;
		case 8: fd[i] = open(base.c_str(), O_RDONLY | O_DIRECTORY); break;
		case 9: fd[i] = open(f.c_str(), O_PATH); break;
		default: fd[i] = open(f.c_str(), O_RDWR | O_NOATIME); break;
		}
		if (fd[i] < 0) return false;
	}
	return true;
}
static int rflags(Rng &r)
{
	static const int f[] = {O_NONBLOCK, O_APPEND, O_NOATIME, O_DIRECT, O_ASYNC, O_RDWR, O_CREAT, O_CLOEXEC, O_SYNC};
	int v = 0;
	if (r.chance(10)) return 0;
	if (r.chance(50)) return O_NONBLOCK;
	for (int x : f) if (r.chance(25)) v |= x;
	return v;
}
static void mode_flags()
{
	Rng &r = rng();
	sm::spit(base + "/plain", "content");
	int n = conf().thorough ? 400000 : 12000;
	for (int it = 0; it < n; it++) {
		int k = (int)r.below(11), fd[2];
		if (!mk(k, fd)) { for (int i : fd) if (i >= 0) close(i); continue; }
		int pre = r.chance(50) ? rflags(r) & (O_NONBLOCK | O_APPEND | O_NOATIME) : 0;
		bool cx = r.chance(50);
		for (int i = 0; i < 2; i++) { int o = fcntl(fd[i], F_GETFL); fcntl(fd[i], F_SETFL, o | pre); fcntl(fd[i], F_SETFD, cx ? FD_CLOEXEC : 0); }
		int f0 = nfds();
		for (int step = 0; step < 4; step++) {
			int before = fcntl(fd[0], F_GETFL), bfd = fcntl(fd[0], F_GETFD);
			if (r.chance(60)) {
				int add = rflags(r);
				int want = fcntl(fd[1], F_SETFL, before | add) < 0 ? -errno : 0;
				if (before < 0) want = -EBADF;
				int got = fd_add_flags(fd[0], add);
				int after = fcntl(fd[0], F_GETFL), ref = fcntl(fd[1], F_GETFL);
				bool nothing = before >= 0 && (before & add) == add; /* no system call is needed then */
				CHECK(got == want || (nothing && got == 0), "adding flags: wrong result", "%s with flags %#x, adding %#x: %d, expected %d", kinds[k], before, add, got, want);
				/* O_CREAT and the like are not status flags */
				CHECK(after == ref, (before & ~after) ? "adding flags loses flags" : "adding flags: wrong flags", "%s with flags %#x, adding %#x: %#x, expected %#x", kinds[k], before, add, after, ref);
				CHECK((before & ~after) == 0 || before < 0, "adding flags loses flags", "%s with flags %#x, adding %#x: %#x", kinds[k], before, add, after);
				CHECK(fcntl(fd[0], F_GETFD) == bfd, "adding flags changes close-on-exec", "%s", kinds[k]);
				stat(got ? "flags refused" : "flags added");
				eval(mix(mix((uint64_t)k, (uint64_t)before), mix((uint64_t)add, (uint64_t)cx)), (add & ~before) != 0);
			} else if (r.chance(60)) {
				int got = fd_set_close_on_exec(fd[0]);
				CHECK(got == 0, "setting close-on-exec: wrong result", "%s: %d", kinds[k], got);
				CHECK(fcntl(fd[0], F_GETFD) == FD_CLOEXEC, "close-on-exec not set", "%s: %d", kinds[k], fcntl(fd[0], F_GETFD));
				CHECK(fcntl(fd[0], F_GETFL) == before, "setting close-on-exec changes flags", "%s: %#x then %#x", kinds[k], before, fcntl(fd[0], F_GETFL));
				eval(mix((uint64_t)k, (uint64_t)bfd + 70));
				stat("close-on-exec set");
			} else {
				int got = fd_has_close_on_exec(fd[0]);
				CHECK(got == (bfd & FD_CLOEXEC ? 1 : 0), "close-on-exec query: wrong result", "%s: %d for %d", kinds[k], got, bfd);
				CHECK(fcntl(fd[0], F_GETFL) == before && fcntl(fd[0], F_GETFD) == bfd, "close-on-exec query changes something", "%s", kinds[k]);
				eval(mix((uint64_t)k, (uint64_t)bfd + 90));
				stat("queries");
			}
		}
		CHECK(nfds() == f0, "descriptor leaked", "%d then %d", f0, nfds());
		for (int i : fd) close(i);
		tick();
	}
	/* no such descriptor */
	for (int fd : {-1, -2, -100, 1000, 100000, INT_MAX, INT_MIN}) {
		if (fcntl(fd, F_GETFD) >= 0) continue;
		CHECK(fd_set_close_on_exec(fd) == -EBADF, "setting close-on-exec: wrong result", "descriptor %d: %d", fd, fd_set_close_on_exec(fd));
		CHECK(fd_add_flags(fd, O_NONBLOCK) == -EBADF, "adding flags: wrong result", "descriptor %d: %d", fd, fd_add_flags(fd, O_NONBLOCK));
		CHECK(fd_has_close_on_exec(fd) == 0, "close-on-exec query: wrong result", "descriptor %d: %d", fd, fd_has_close_on_exec(fd));
		stat("bad descriptors");
	}
	/* each system call failing */
	int *sh = (int *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	int p[2];
	if (pipe(p)) harness_error("pipe");
	for (int op = 0; op < 3; op++) {
		auto traced = [&](const sm::Plan &pl) {
			sh[1] = 0;
			fcntl(p[0], F_SETFL, fcntl(p[0], F_GETFL) & ~O_NONBLOCK); /* shared with the children */
			return sm::run([&] {
				sm::begin();
				sh[0] = op == 0 ? fd_set_close_on_exec(p[0]) : op == 1 ? fd_add_flags(p[0], O_NONBLOCK) : fd_has_close_on_exec(p[0]);
				sm::end();
				sh[2] = fcntl(p[0], F_GETFL); sh[3] = fcntl(p[0], F_GETFD);
				sh[1] = 1;
			}, pl);
		};
		sm::Out clean = traced(sm::Plan());
		CHECK(sh[0] == 0 && sh[1], "flag helper fails", "operation %d: %d", op, sh[0]);
		for (size_t k = 0; k < clean.ev.size(); k++) for (int e : {EBADF, EPERM, EINVAL, ENOLCK, ENOMEM}) {
			sm::Plan pl;
			pl.faults[(int)k] = {e, -1};
			sm::Out o = traced(pl);
			std::string ctx = fmt("%s: %s failing with %d", op == 0 ? "close-on-exec" : op == 1 ? "add flags" : "query", sm::str(clean.ev[k]).c_str(), e);
			if (!sh[1]) { viol("process ended before the call returned", ctx); continue; }
			CHECK(sh[0] == (op == 2 ? 0 : -e), "failing system call not reported", "%s: %d", ctx.c_str(), sh[0]);
			stat("failing system calls");
			eval(mix(mix((uint64_t)op, k), (uint64_t)e + 700));
		}
		/* the pipe is shared with the children: undo */
		fcntl(p[0], F_SETFL, 0);
	}
	close(p[0]); close(p[1]);
}
/* ------------------------------------------------- what exec keeps */
struct Obj { int kind; void *p; int fd; std::vector<int> fds; };
static const char *okind[] = {"mailbox", "dynamic mailbox", "inotify"};
static Obj create(Rng &r, int kind, bool bad)
{
	Obj o{kind, nullptr, -1, {}};
	auto b = fdset();
	if (kind == 0) { o.p = mbox_new(bad ? (r.chance(50) ? 0 : 4096 + r.below(10000)) : 1 + r.below(4000)); if (o.p) o.fd = mbox_get_read_fd((struct mbox *)o.p); }
	else if (kind == 1) { o.p = dynmbox_new(bad ? 20000000 + r.below(1000) : 1 + r.below(16000)); if (o.p) o.fd = dynmbox_get_read_fd((struct dynmbox *)o.p); }
	else o.fd = inotify_create(bad ? "/nonexistent/x" : base.c_str(), IN_CREATE);
	o.fds = newfds(b);
	return o;
}
static void destroy(Obj &o)
{
	if (o.kind == 0) mbox_destroy((struct mbox *)o.p);
	else if (o.kind == 1) dynmbox_destroy((struct dynmbox *)o.p);
	else inotify_destroy(o.fd);
}
static void use(Rng &r, Obj &o)
{
	static uint8_t buf[65536];
	if (o.kind == 0) { if (r.chance(60)) mbox_push((struct mbox *)o.p, buf); else mbox_peek((struct mbox *)o.p, buf); }
	else if (o.kind == 1) { if (r.chance(60)) dynmbox_push((struct dynmbox *)o.p, buf, (uint32_t)r.below((uint64_t)dynmbox_get_max_size((struct dynmbox *)o.p) + 1)); else dynmbox_peek((struct dynmbox *)o.p, buf); }
	else if (r.chance(50)) { std::string f = base + "/ev"; mkfifo(f.c_str(), 0600); unlink(f.c_str()); }
	else inotify_process_fd(o.fd, [](struct inotify_event *, void *) {}, nullptr);
}
static void hygiene(const Obj &o)
{
	CHECK(!o.fds.empty(), "created object without descriptors", "%s", okind[o.kind]);
	bool own = false;
	for (int fd : o.fds) {
		int fl = fcntl(fd, F_GETFL), fdfl = fcntl(fd, F_GETFD);
		CHECK(fdfl & FD_CLOEXEC, "descriptor not close-on-exec", "%s: descriptor %d of %zu", okind[o.kind], fd, o.fds.size());
		CHECK(fd_has_close_on_exec(fd) == 1, "close-on-exec query: wrong result", "%s", okind[o.kind]);
		if (o.kind < 2) CHECK(fl & O_NONBLOCK, "mailbox descriptor blocking", "%s: descriptor %d, flags %#x", okind[o.kind], fd, fl);
		if (fd == o.fd) own = true;
		stat("descriptors examined");
	}
	CHECK(own, "object gives a descriptor which is not its own", "%s: %d", okind[o.kind], o.fd);
}
static void mode_exec()
{
	Rng &r = rng();
	sm::spit(base + "/plain", "content");
	int n = conf().thorough ? 1500 : 40;
	auto foreign = after_exec();
	for (int it = 0; it < n; it++) {
		auto b = fdset();
		std::vector<Obj> os;
		for (int k = 1 + (int)r.below(4); k > 0; k--) { Obj o = create(r, (int)r.below(3), false); if (o.fd < 0) { viol("creation fails", okind[o.kind]); continue; } hygiene(o); os.push_back(o); }
		int plain[2];
		if (!mk((int)r.below(6), plain)) harness_error("mk");
		fd_set_close_on_exec(plain[0]);
		for (auto &o : os) for (int k = (int)r.below(10); k > 0; k--) use(r, o);
		for (auto &o : os) hygiene(o);
		auto kept = after_exec();
		std::string ctx;
		for (auto &o : os) ctx += std::string(okind[o.kind]) + " ";
		for (auto &o : os) for (int fd : o.fds) CHECK(!kept.count(fd), "descriptor survives exec", "%s: %d", okind[o.kind], fd);
		CHECK(!kept.count(plain[0]), "descriptor survives exec", "close-on-exec was set: %d", plain[0]);
		CHECK(kept.count(plain[1]), "descriptor without close-on-exec closed", "-");
		/* the others of this process are as before */
		for (int fd : foreign) if (b.count(fd)) CHECK(kept.count(fd), "creating objects changes other descriptors", "%d", fd);
		stat("programs executed");
		stat("descriptors closed by exec", (int64_t)(fdset().size() - kept.size()));
		eval(mix(hstr(ctx), (uint64_t)plain[0]));
		if (it < 3) sample(ctx + fmt(": %zu descriptors, %zu after exec", fdset().size(), kept.size()));
		for (auto &o : os) destroy(o);
		for (int f : plain) close(f);
		CHECK(fdset() == b, "descriptor leaked", "%s", ctx.c_str());
		tick();
	}
}
static void mode_histories()
{
	Rng &r = rng();
	struct rlimit old;
	getrlimit(RLIMIT_NOFILE, &old);
	/* what the C library keeps is allocated before measuring */
	for (int k = 0; k < 3; k++) { Obj o = create(r, k, false); destroy(o); Obj q = create(r, k, true); if (q.fd >= 0) destroy(q); }
	int n = conf().thorough ? 15000 : 350;
	std::vector<Obj> os;
	os.reserve(64);
	for (int it = 0; it < n; it++) {
		auto b = fdset();
		size_t h0 = heap_bytes();
		bool tight = r.chance(60);
		int steps = 5 + (int)r.below(60);
		size_t expected = 0;
		std::string trace;
		for (int s = 0; s < steps; s++) {
			int x = (int)r.below(100);
			if (x < 45 && os.size() < 20) {
				bool bad = r.chance(10);
				int kind = (int)r.below(3);
				auto bb = fdset();
				/* room for 0..3 more descriptors */
				bool limited = tight && r.chance(50);
				int room = (int)r.below(4);
				if (limited) {
					/* the lowest limit which leaves exactly `room` free numbers */
					int lim = 0, fre = 0;
					while (fre < room + 1 || lim < 8) { if (!bb.count(lim)) fre++; lim++; if (fre == room + 1 && lim >= 8) { lim--; break; } }
					struct rlimit l = old;
					l.rlim_cur = (rlim_t)lim;
					setrlimit(RLIMIT_NOFILE, &l);
				}
				size_t c0 = heap_bytes();
				Obj o{kind, nullptr, -1, {}};
				size_t msz = bad ? (kind == 0 ? 0 : 20000000) : 1 + r.below(4000);
				if (kind == 0) o.p = mbox_new(msz);
				else if (kind == 1) o.p = dynmbox_new(msz);
				else o.fd = inotify_create(bad ? "/nonexistent/x" : base.c_str(), IN_CREATE);
				size_t c1 = heap_bytes();
				if (limited) setrlimit(RLIMIT_NOFILE, &old);
				if (kind == 0 && o.p) o.fd = mbox_get_read_fd((struct mbox *)o.p);
				if (kind == 1 && o.p) o.fd = dynmbox_get_read_fd((struct dynmbox *)o.p);
				o.fds = newfds(bb);
				bool made = kind == 2 ? o.fd >= 0 : o.p != nullptr;
				if (made) {
					CHECK(!bad, "creation which must fail succeeds", "%s", okind[kind]);
					hygiene(o);
					os.push_back(o);
					expected += o.fds.size();
					stat("created");
				} else {
					CHECK(bad || limited, "creation fails", "%s", okind[kind]);
					CHECK(o.fds.empty(), "failed creation leaks a descriptor", "%s, room for %d: %zu", okind[kind], limited ? room : -1, o.fds.size());
					CHECK(c0 == c1, "failed creation leaks memory", "%s, room for %d: %zd bytes", okind[kind], limited ? room : -1, (ssize_t)(c1 - c0));
					stat(bad ? "creations refused" : "creations without descriptors");
				}
				eval(mix(mix((uint64_t)kind, (uint64_t)made), mix((uint64_t)(limited ? room : 9), mix((uint64_t)bad, os.size()))));
			} else if (x < 75 && !os.empty()) {
				size_t i = r.below(os.size());
				Obj o = os[i];
				destroy(o);
				os.erase(os.begin() + (long)i);
				for (int fd : o.fds) CHECK(fcntl(fd, F_GETFD) < 0, "descriptor still open after destroy", "%s: %d", okind[o.kind], fd);
				for (auto &q : os) for (int fd : q.fds) CHECK(fcntl(fd, F_GETFD) >= 0, "destroying closes a descriptor of another object", "%s closes one of a %s", okind[o.kind], okind[q.kind]);
				for (int fd : b) CHECK(fcntl(fd, F_GETFD) >= 0, "destroying closes a descriptor of another object", "%s: %d", okind[o.kind], fd);
				expected -= o.fds.size();
				stat("destroyed");
			} else if (!os.empty()) use(r, os[r.below(os.size())]);
		}
		CHECK(fdset().size() == b.size() + expected, "descriptor leaked", "%zu, expected %zu", fdset().size(), b.size() + expected);
		while (!os.empty()) { size_t i = r.below(os.size()); destroy(os[i]); os.erase(os.begin() + (long)i); }
		CHECK(fdset() == b, "descriptor leaked", "%zu, expected %zu", fdset().size(), b.size());
		b.clear();
		trace.clear();
		(void)h0;
		stat("histories");
		tick();
	}
	/* memory over complete lives */
	for (int k = 0; k < 3; k++) for (int rep = 0; rep < 30; rep++) {
		uint64_t x = r.u64();
		size_t h0 = heap_bytes();
		void *p = k == 0 ? (void *)mbox_new(1 + x % 4000) : k == 1 ? (void *)dynmbox_new(1 + x % 60000) : nullptr;
		int fd = k == 2 ? inotify_create(base.c_str(), IN_CREATE) : 0;
		static uint8_t buf[65536];
		for (int i = 0; i < (int)(x % 20); i++) {
			if (k == 0) { if (i % 3 < 2) mbox_push((struct mbox *)p, buf); else mbox_peek((struct mbox *)p, buf); }
			if (k == 1) { if (i % 3 < 2) dynmbox_push((struct dynmbox *)p, buf, 1); else dynmbox_peek((struct dynmbox *)p, buf); }
		}
		if (k == 0) mbox_destroy((struct mbox *)p);
		if (k == 1) dynmbox_destroy((struct dynmbox *)p);
		if (k == 2) inotify_destroy(fd);
		size_t h1 = heap_bytes();
		CHECK(h0 == h1, "memory leaked", "%s: %zd bytes", okind[k], (ssize_t)(h1 - h0));
		stat("balances");
	}
	/* destroying nothing */
	auto b = fdset();
	mbox_destroy(nullptr);
	dynmbox_destroy(nullptr);
	inotify_destroy(-1);
	CHECK(fdset() == b, "destroying nothing closes a descriptor", "-");
	/* with descriptor 0 free */
	int keep = fcntl(0, F_DUPFD_CLOEXEC, 100);
	close(0);
	for (int k = 0; k < 3; k++) {
		auto bb = fdset();
		Obj o = create(r, k, false);
		CHECK(o.fd >= 0, "creation fails", "%s with descriptor 0 free", okind[k]);
		hygiene(o);
		destroy(o);
		CHECK(fdset() == bb, "descriptor leaked", "%s with descriptor 0 free", okind[k]);
		stat("descriptor 0");
	}
	dup2(keep, 0);
	close(keep);
}
void mon::run()
{
	watchdog(30);
	base = scratch("fd");
	const std::string &m = conf().mode;
	if (m == "flags") mode_flags();
	else if (m == "exec") mode_exec();
	else mode_histories();
}
