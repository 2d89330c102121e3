/* C44: calls leave the state of the process as they found it. The process-wide
 * state is read before and after each call (successful, refused or failing);
 * changes made and undone during the call are seen at the C library's entry
 * points. */
#include <dirent.h>
#include <fenv.h>
#include <iconv.h>
#include <locale.h>
#include <poll.h>
#include <sched.h>
#include <stdarg.h>
#include <sys/inotify.h>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <wchar.h>
#include "mon.h"
extern "C" {
#include "futils/dynmbox.h"
#include "futils/fdutils.h"
#include "futils/fs.h"
#include "futils/hash.h"
#include "futils/inotify.h"
#include "futils/mbox.h"
#include "futils/random.h"
#include "futils/safew.h"
#include "futils/string.h"
#include "futils/synctools.h"
#include "futils/systimetools.h"
#include "futils/timetools.h"
#include "futils/varint.h"
}
#include "futils/futils.hpp"
using namespace mon;

/* ------------------------------------------ changes made during a call */
static std::atomic<bool> watching;
static std::atomic<const char *> touched;
#define TOUCH(what) do { if (watching) touched = what; } while (0)
extern "C" {
#define W(ret, name, params, args) ret __real_##name params; ret __wrap_##name params { TOUCH(#name); return __real_##name args; }
W(int, chdir, (const char *p), (p))
W(int, fchdir, (int f), (f))
W(mode_t, umask, (mode_t m), (m))
W(int, setenv, (const char *a, const char *b, int c), (a, b, c))
W(int, unsetenv, (const char *a), (a))
W(int, putenv, (char *a), (a))
W(int, setitimer, (int a, const struct itimerval *b, struct itimerval *c), (a, b, c))
W(unsigned, alarm, (unsigned a), (a))
W(int, setrlimit, (int a, const struct rlimit *b), (a, b))
W(void, srand, (unsigned a), (a))
W(void, srandom, (unsigned a), (a))
W(void, srand48, (long a), (a))
int __real_dup2(int a, int b);
int __wrap_dup2(int a, int b) { if (b <= 2) TOUCH("dup2 on a standard descriptor"); return __real_dup2(a, b); }
typedef void (*sh_t)(int);
sh_t __real_signal(int s, sh_t h);
sh_t __wrap_signal(int s, sh_t h) { TOUCH("signal"); return __real_signal(s, h); }
int __real_sigaction(int s, const struct sigaction *a, struct sigaction *o);
int __wrap_sigaction(int s, const struct sigaction *a, struct sigaction *o) { if (a) TOUCH("sigaction"); return __real_sigaction(s, a, o); }
char *__real_setlocale(int c, const char *l);
char *__wrap_setlocale(int c, const char *l) { if (l) TOUCH("setlocale"); return __real_setlocale(c, l); }
int __wrap_settimeofday(const struct timeval *, const struct timezone *) { errno = EPERM; return -1; }
int __wrap_clock_settime(clockid_t, const struct timespec *) { errno = EPERM; return -1; }
int __wrap_stime(const time_t *) { errno = EPERM; return -1; }
}

/* ------------------------------------------------------ injected failures */
static thread_local bool mine; /* the harness itself acts inside a call */
struct Mine { Mine() { mine = true; } ~Mine() { mine = false; } };
static int fail_at = -1, nfault, fail_errno;
static uint64_t fail_also; /* which of the following ones fail too */
static const pthread_t workload = pthread_self(); /* static initialisation: the main thread */
static bool refused()
{
	if (!watching || mine || !pthread_equal(pthread_self(), workload) || fail_at < 0) return false;
	int k = nfault++ - fail_at;
	if (k < 0 || k > 40 || (k && !(fail_also >> k & 1))) return false;
	stat(k ? "further failures injected" : "failures injected");
	errno = fail_errno;
	return true;
}
extern "C" {
#define F(ret, bad, name, params, args) ret __real_##name params; ret __wrap_##name params { if (refused()) return bad; return __real_##name args; }
F(ssize_t, -1, read, (int f, void *b, size_t n), (f, b, n))
F(ssize_t, -1, __read_chk, (int f, void *b, size_t n, size_t m), (f, b, n, m))
F(ssize_t, -1, write, (int f, const void *b, size_t n), (f, b, n))
F(FILE *, nullptr, fopen, (const char *p, const char *m), (p, m))
F(FILE *, nullptr, fopen64, (const char *p, const char *m), (p, m))
F(size_t, 0, fwrite, (const void *p, size_t a, size_t b, FILE *f), (p, a, b, f))
F(int, EOF, fflush, (FILE *f), (f))
F(int, -1, fsync, (int f), (f))
F(int, -1, rename, (const char *a, const char *b), (a, b))
F(int, -1, poll, (struct pollfd *p, nfds_t n, int t), (p, n, t))
F(int, -1, __poll_chk, (struct pollfd *p, nfds_t n, int t, size_t m), (p, n, t, m))
F(int, -1, pipe, (int *p), (p))
F(int, -1, pipe2, (int *p, int f), (p, f))
F(DIR *, nullptr, opendir, (const char *p), (p))
F(struct dirent *, nullptr, readdir, (DIR *d), (d))
F(struct dirent64 *, nullptr, readdir64, (DIR *d), (d))
F(int, -1, lstat, (const char *p, struct stat *s), (p, s))
F(int, -1, lstat64, (const char *p, struct stat64 *s), (p, s))
F(void *, nullptr, malloc, (size_t n), (n))
F(void *, nullptr, calloc, (size_t a, size_t b), (a, b))
F(char *, nullptr, strdup, (const char *s), (s))
F(int, -1, inotify_init1, (int f), (f))
F(int, -1, inotify_add_watch, (int f, const char *p, uint32_t m), (f, p, m))
F(int, -1, nanosleep, (const struct timespec *a, struct timespec *b), (a, b))
F(int, -1, clock_gettime, (clockid_t c, struct timespec *t), (c, t))
F(int, -1, gettimeofday, (struct timeval *t, void *z), (t, z))
ssize_t __real_getrandom(void *, size_t, unsigned);
ssize_t __wrap_getrandom(void *b, size_t n, unsigned f) { if (refused()) { if (nfault & 1) errno = ENOSYS; return -1; } return __real_getrandom(b, n, f); }
F(iconv_t, (iconv_t)-1, iconv_open, (const char *a, const char *b), (a, b))
int __real_open(const char *p, int f, ...);
int __wrap_open(const char *p, int f, ...) { va_list a; va_start(a, f); int m = (f & O_CREAT) ? va_arg(a, int) : 0; va_end(a); if (refused()) return -1; return __real_open(p, f, m); }
int __real_open64(const char *p, int f, ...);
int __wrap_open64(const char *p, int f, ...) { va_list a; va_start(a, f); int m = (f & O_CREAT) ? va_arg(a, int) : 0; va_end(a); if (refused()) return -1; return __real_open64(p, f, m); }
int __real_ioctl(int f, unsigned long r, void *a);
int __wrap_ioctl(int f, unsigned long r, void *a) { if (refused()) return -1; return __real_ioctl(f, r, a); }
}

/* --------------------------------------------------- state of the process */
struct Item { const char *name; std::string value; };
static std::string status_line(const char *key)
{
	FILE *f = fopen("/proc/self/status", "r");
	char l[300];
	std::string r;
	while (f && fgets(l, sizeof(l), f)) if (!strncmp(l, key, strlen(key))) r = l;
	if (f) fclose(f);
	return r;
}
extern char **environ;
static std::vector<Item> snapshot()
{
	std::vector<Item> v;
	char cwd[5000] = "";
	(void)!getcwd(cwd, sizeof(cwd));
	v.push_back({"current directory", cwd});
	v.push_back({"file creation mask", status_line("Umask:")});
	v.push_back({"ignored signals", status_line("SigIgn:")});
	v.push_back({"caught signals", status_line("SigCgt:")});
	v.push_back({"blocked signals", status_line("SigBlk:")});
	v.push_back({"pending signals", status_line("SigPnd:") + status_line("ShdPnd:")});
	v.push_back({"threads", status_line("Threads:")});
	std::string s;
	for (int i = 1; i < 65; i++) {
		struct sigaction a;
		memset(&a, 0, sizeof(a));
		if (sigaction(i, nullptr, &a) == 0) s += fmt("%p/%x,", (void *)a.sa_handler, (unsigned)a.sa_flags);
	}
	v.push_back({"signal handlers", s});
	s.clear();
	for (char **e = environ; e && *e; e++) s += std::string(*e) + ";";
	v.push_back({"environment", s});
	v.push_back({"locale", setlocale(LC_ALL, nullptr)});
	v.push_back({"locale of the thread", fmt("%p", (void *)uselocale((locale_t)0))});
#if defined(__x86_64__)
	/* (the exception flags are left out: every computation may raise them) */
	v.push_back({"rounding mode", fmt("%d %x", fegetround(), (unsigned)__builtin_ia32_stmxcsr() & ~0x3fu)});
#else
	v.push_back({"rounding mode", fmt("%d", fegetround())});
#endif
	s.clear();
	for (int i : {ITIMER_REAL, ITIMER_VIRTUAL, ITIMER_PROF}) { struct itimerval t; getitimer(i, &t); s += fmt("%ld.%ld ", (long)t.it_interval.tv_sec, (long)(t.it_value.tv_sec != 0 || t.it_value.tv_usec != 0)); }
	v.push_back({"timers", s});
	s.clear();
	for (int i = 0; i < RLIM_NLIMITS; i++) { struct rlimit l; if (!getrlimit((__rlimit_resource)i, &l)) s += fmt("%llx/%llx ", (unsigned long long)l.rlim_cur, (unsigned long long)l.rlim_max); }
	v.push_back({"resource limits", s});
	v.push_back({"priority", fmt("%d", getpriority(PRIO_PROCESS, 0))});
	v.push_back({"scheduler", fmt("%d", sched_getscheduler(0))});
	int c = 0, t = 0;
	pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, &c); pthread_setcancelstate(c, nullptr);
	pthread_setcanceltype(PTHREAD_CANCEL_DEFERRED, &t); pthread_setcanceltype(t, nullptr);
	v.push_back({"cancellation", fmt("%d/%d", c, t)});
	s.clear();
	DIR *d = opendir("/proc/self/fd");
	std::set<int> fds;
	while (struct dirent *e = d ? readdir(d) : nullptr) if (e->d_name[0] != '.') fds.insert(atoi(e->d_name));
	if (d) { fds.erase(dirfd(d)); closedir(d); }
	for (int fd : fds) { struct stat st; if (fstat(fd, &st)) continue; s += fmt("%d:%lx/%lu/%x/%x", fd, (unsigned long)st.st_dev, (unsigned long)st.st_ino, (unsigned)fcntl(fd, F_GETFL), (unsigned)fcntl(fd, F_GETFD)); if (fd < 3 || S_ISREG(st.st_mode)) s += fmt("@%lld", (long long)lseek(fd, 0, SEEK_CUR)); s += " "; }
	v.push_back({"descriptors", s});
	return v;
}
/* what the C library keeps for its callers: generators, buffers, positions */
struct Keeps {
	long rnd, l48;
	struct tm *tmp, tmv; char tok[32], *t1; std::string env;
	char asc[64], *ascp;
	int opt;
	void before(unsigned seed)
	{
		/* (rand() and random() share their state in glibc) */
		srandom(seed); rnd = random(); srandom(seed);
		srand48((long)seed); l48 = lrand48(); srand48((long)seed);
		time_t t = (time_t)seed * 86413;
		tmp = gmtime(&t); tmv = *tmp;
		ascp = asctime(&tmv); snprintf(asc, sizeof(asc), "%s", ascp);
		strcpy(tok, "one,two,three"); t1 = strtok(tok, ",");
		optind = 5;
	}
	const char *after()
	{
		if (random() != rnd) return "sequence of rand() and random()";
		if (lrand48() != l48) return "sequence of lrand48()";
		if (tmp->tm_year != tmv.tm_year || tmp->tm_yday != tmv.tm_yday || tmp->tm_hour != tmv.tm_hour || tmp->tm_min != tmv.tm_min || tmp->tm_sec != tmv.tm_sec) return "result of gmtime() held by the caller";
		if (strcmp(ascp, asc)) return "result of asctime() held by the caller";
		char *t2 = strtok(nullptr, ",");
		if (!t2 || strcmp(t2, "two")) return "position of strtok()";
		if (optind != 5) return "position of getopt()";
		return nullptr;
	}
};

struct Call { const char *name; std::function<int()> f; bool faults = true; };
static std::string base, name;
static void judged(const Call &c, const std::string &ctx)
{
	Rng &r = rng();
	unsigned seed = 1 + (unsigned)r.below(20000);
	auto a = snapshot();
	Keeps k;
	k.before(seed);
	touched = nullptr;
	static const int en[] = {EIO, EINTR, ENOSPC, ENOMEM, EMFILE, EINVAL, ENOENT, EACCES};
	fail_errno = en[r.below(8)];
	nfault = 0;
	fail_also = r.chance(50) ? 0 : r.chance(50) ? ~0ull : r.u64();
	fail_at = c.faults && r.chance(40) ? (int)r.below(r.chance(60) ? 5 : 25) : -1;
	watching = true;
	int rc = c.f();
	watching = false;
	fail_at = -1;
	const char *t = touched, *kept = k.after();
	auto b = snapshot();
	for (size_t i = 0; i < a.size(); i++)
		CHECK(a[i].value == b[i].value, fmt("state of the process changed: %s", a[i].name), "%s %s (result %d): '%s' then '%s'", c.name, ctx.c_str(), rc, esc(a[i].value, 200).c_str(), esc(b[i].value, 200).c_str());
	CHECK(!t, fmt("state of the process changed during a call: %s", t ? t : ""), "%s %s (result %d)", c.name, ctx.c_str(), rc);
	CHECK(!kept, fmt("state kept by the C library disturbed: %s", kept ? kept : ""), "%s %s (result %d)", c.name, ctx.c_str(), rc);
	stat(fmt("calls: %s", c.name));
	stat(rc < 0 ? "failed calls" : "successful calls");
	stat("state items compared", (int64_t)a.size() + 7);
	eval(mix(hstr(c.name), mix((uint64_t)(int64_t)rc, hstr(ctx))));
}
/* the environment a round runs in: each part of the state away from its default */
static std::string setting(int it)
{
	Rng &r = rng();
	static const int um[] = {022, 0, 077, 027, 0123 & 0777};
	mode_t u = (mode_t)um[it % 5];
	umask(u);
	std::string d = base + (it % 3 ? "/dir" : "");
	if (chdir(d.c_str())) harness_error("chdir");
	sigset_t s;
	sigemptyset(&s);
	for (int g : {SIGUSR1, SIGPIPE, SIGCHLD, SIGALRM, SIGTERM}) if (r.chance(40)) sigaddset(&s, g);
	pthread_sigmask(SIG_SETMASK, &s, nullptr);
	signal(SIGPIPE, it % 2 ? SIG_IGN : SIG_DFL);
	signal(SIGUSR2, it % 3 == 1 ? SIG_IGN : SIG_DFL);
	signal(SIGCHLD, it % 4 == 1 ? SIG_IGN : SIG_DFL);
	static const int rm[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
	int round = it % 8 < 4 ? FE_TONEAREST : rm[it % 4];
	fesetround(round);
	static const char *tz[] = {"UTC", "CET-1CEST,M3.5.0,M10.5.0/3", "XXX+3:30", ""};
	if (it % 5 == 4) unsetenv("TZ"); else setenv("TZ", tz[it % 4], 1);
	tzset();
	/* the locale of this run, or none */
	static std::string given = setlocale(LC_ALL, nullptr);
	const char *loc = __real_setlocale(LC_ALL, it % 3 == 2 ? "C" : it % 3 ? given.c_str() : "C.UTF-8");
	setenv("FUTILS_TEST", fmt("%d", it).c_str(), 1);
	pthread_setcancelstate(it % 4 == 3 ? PTHREAD_CANCEL_DISABLE : PTHREAD_CANCEL_ENABLE, nullptr);
	pthread_setcanceltype(it % 8 == 5 ? PTHREAD_CANCEL_ASYNCHRONOUS : PTHREAD_CANCEL_DEFERRED, nullptr);
	return fmt("umask %03o, locale %s, %s, rounding %d, TZ %s", (unsigned)u, loc ? loc : "?", it % 3 ? "in a sub-directory" : "in the directory", round, getenv("TZ") ? getenv("TZ") : "unset");
}
static void put(const std::string &p, const std::string &c)
{
	FILE *f = fopen(p.c_str(), "w");
	if (!f || fwrite(c.data(), 1, c.size(), f) != c.size()) harness_error("file");
	fclose(f);
}
void mon::run()
{
	Rng &r = rng();
	if (conf().mode == "plain") setvbuf(stdout, nullptr, _IONBF, 0);
	base = scratch("state");
	mkdir((base + "/dir").c_str(), 0755);
	mkdir((base + "/dir/sub").c_str(), 0755);
	put(base + "/dir/x", "12345");
	put(base + "/dir/sub/y", "123");
	watchdog(60);
	/* nothing of the library is printed: the descriptors behind stdout and
	 * stderr are positions of regular files (the runner's) and compared */
	int n = conf().thorough ? 2500 : 90;
	struct mbox *mb = nullptr, *full = nullptr;
	struct dynmbox *dy = nullptr, *dfull = nullptr;
	struct hash h;
	memset(&h, 0, sizeof(h));
	int ifd = -1;
	struct futils_safew_file *sw = nullptr;
	full = mbox_new(1000);
	char big[4000];
	memset(big, 1, sizeof(big));
	while (mbox_push(full, big) == 0) {}
	dfull = dynmbox_new(4000);
	while (dynmbox_push(dfull, big, 4000) == 0) {}
	std::string F = base + "/file", other = base + "/dir/x", none = base + "/none/x";
	uint8_t v[10];
	size_t len;
	std::vector<Call> calls = {
		{"mbox_new+destroy", [&] { mb = mbox_new(1 + r.below(4095)); mbox_destroy(mb); return mb ? 0 : -1; }},
		{"mbox_new (refused)", [&] { return mbox_new(0) ? 0 : -1; }},
		{"mbox_push+peek", [&] { char m[1000] = {1}; struct mbox *b = mbox_new(1000); int rc = mbox_push(b, m); rc |= mbox_push_block(b, m, 10); rc |= mbox_push_block(b, m, 0); rc |= mbox_peek(b, m); mbox_destroy(b); return rc; }},
		{"mbox_push (full)", [&] { return mbox_push(full, big); }},
		{"mbox_push_block (full)", [&] { return mbox_push_block(full, big, 1); }},
		{"mbox_peek (empty)", [&] { struct mbox *b = mbox_new(10); char m[10]; int rc = mbox_peek(b, m); mbox_destroy(b); return rc; }},
		{"dynmbox", [&] { dy = dynmbox_new(5000); int rc = dynmbox_push(dy, big, 4000); rc |= dynmbox_push_block(dy, big, 10, 5); ssize_t q = dynmbox_peek(dy, big); dynmbox_destroy(dy); return rc < 0 ? rc : (int)q; }},
		{"dynmbox_push (full)", [&] { return dynmbox_push(dfull, big, 4000); }},
		{"dynmbox_push_block (full)", [&] { return dynmbox_push_block(dfull, big, 4000, 1); }},
		{"dynmbox_push (too large)", [&] { return dynmbox_push(dfull, big, 4001); }},
		{"dynmbox_peek (empty)", [&] { dy = dynmbox_new(10); ssize_t q = dynmbox_peek(dy, big); dynmbox_destroy(dy); return (int)q; }},
		{"hash", [&] { int rc = futils_hash_init(&h, r.below(300), nullptr); if (rc < 0) return rc; for (uint32_t i = 0; i < 50; i++) rc |= futils_hash_insert(&h, i * 7, big); void *d; rc |= futils_hash_lookup(&h, 7, &d); rc |= futils_hash_remove(&h, 14); futils_hash_remove_all(&h); futils_hash_destroy(&h); return rc; }},
		{"varint", [&] { uint64_t q; int rc = futils_varint_write_u64(v, 10, r.u64(), &len); rc |= futils_varint_read_u64(v, len, &q, &len); return rc; }},
		{"varint (refused)", [&] { uint64_t q; memset(v, 0xff, 10); return futils_varint_read_u64(v, 10, &q, &len); }},
		{"time readings", [&] { struct timespec a, b; int rc = time_get_monotonic(&a); rc |= time_timespec_diff_now(&a, &b); uint64_t q; rc |= time_monotonic_to_realtime_us(1000, &q); rc |= time_monotonic_to_realtime_ms(1000, &q); return rc; }},
		{"time_msleep", [&] { return time_msleep(1); }},
		{"time_timespec_diff (refused)", [&] { struct timespec a = {5, 0}, b = {1, 0}, d; return time_timespec_diff(&a, &b, &d); }},
		{"time_local_parse", [&] { uint64_t e; int32_t o; return time_local_parse(r.chance(50) ? "2024-02-29T12:34:56+0130" : "Thu, 29 Feb 2024 12:34:56 GMT", &e, &o); }},
		{"time_local_parse (refused)", [&] { uint64_t e; int32_t o; return time_local_parse(r.chance(50) ? "2024-13-29T12:34:56" : "nonsense", &e, &o); }},
		{"time_local_format", [&] { char s[64]; return time_local_format(r.below(253402300799ull - 90000), (int32_t)(60 * r.range(-700, 700)), (enum time_fmt)r.below(3), s, 64); }},
		{"time_local_get", [&] { uint64_t e; int32_t o; uint16_t ms; int rc = time_local_get(&e, &o); return rc | time_local_ms_get(&e, &ms, &o); }},
		{"time_local_set (refused)", [&] { return time_local_set(1700000000, 3600); }},
		{"time_local_to_tm", [&] { struct tm t; memset(&t, 0, sizeof(t)); uint64_t e; int32_t o; int rc = time_local_to_tm(1700000000, 3600, &t); return rc | time_local_from_tm(&t, &e, &o); }},
		{"time context", [&] { struct time_ctx c; uint64_t e; int32_t o; time_ctx_init(&c); int rc = time_ctx_set_date(&c, "20240229"); rc = time_ctx_set_hour(&c, "T123456+0100"); return rc | time_ctx_get_local(&c, &e, &o); }},
		{"futils_string_sanitize_utf8", [&] { char o[50]; return futils_string_sanitize_utf8("a\xc3\xa9/\xe2\x82\xac", o, 50, L"/", L'_'); }},
		{"futils_string_sanitize_utf8 (refused)", [&] { char o[50]; return futils_string_sanitize_utf8("a\xc3(", o, 50, L"/", L'_'); }},
		{"futils_string_check_utf8", [&] { return futils_string_check_utf8("a\xc3\xa9", 100, 100, L"/"); }},
		{"futils_string_check_utf8 (refused)", [&] { return futils_string_check_utf8("a\xc3/", 0, 0, L"/"); }},
		{"string helpers", [&] { return (int)(futils::string::startsWith("abc", "ab") + futils::string::endsWith("abc", "bc") + futils::string::convertToLowerCase("ABC\xc0").size()); }},
		{"path helpers", [&] { return (int)(futils::fs::dirname("/a/b/").size() + futils::fs::basename("a/b").size()); }},
		{"futils_fs_dir_size", [&] { return (int)futils_fs_dir_size((base + "/dir").c_str(), r.chance(70)); }},
		{"futils_fs_dir_size (relative)", [&] { return (int)futils_fs_dir_size(".", true); }},
		{"futils_fs_dir_size (refused)", [&] { return (int)futils_fs_dir_size(r.chance(50) ? none.c_str() : other.c_str(), true); }},
		{"sync helpers", [&] { int rc = sync_file(other.c_str()); rc |= sync_folder((base + "/dir").c_str()); return rc | sync_file_and_folder(other.c_str()); }},
		{"sync helpers (refused)", [&] { int rc = sync_file(none.c_str()); rc |= sync_folder(other.c_str()); return rc | sync_file_and_folder(none.c_str()); }},
		{"safe write, commit", [&] { sw = futils_safew_fopen(F.c_str()); if (!sw) return -1; futils_safew_fwrite("abc", 1, 3, sw); futils_safew_fprintf(sw, "%d", 12); return futils_safew_fclose_commit(sw); }},
		{"safe write, crc", [&] { sw = futils_safew_fopen(F.c_str()); if (!sw) return -1; futils_safew_fwrite("abc", 1, 3, sw); int rc = futils_safew_fclose_commit_with_crc(sw); return rc | futils_safew_file_check(F.c_str()); }},
		{"safe write, rollback", [&] { sw = futils_safew_fopen(F.c_str()); if (!sw) return -1; futils_safew_fwrite("abc", 1, 3, sw); return futils_safew_fclose_rollback(sw); }},
		{"safe write (refused)", [&] { return futils_safew_fopen(none.c_str()) ? 0 : -1; }},
		{"file check (no file)", [&] { return futils_safew_file_check((base + "/nofile").c_str()); }},
		{"file check (damaged)", [&] { { Mine m; put(base + "/bad", "x"); put(base + "/bad.crc", "abcd"); } return futils_safew_file_check((base + "/bad").c_str()); }},
		{"inotify", [&] { ifd = inotify_create((base + "/dir").c_str(), IN_CREATE | IN_DELETE); if (ifd < 0) return -1; { Mine m; put(base + "/dir/ev", ""); unlink((base + "/dir/ev").c_str()); } int k = 0; inotify_process_fd(ifd, [](struct inotify_event *, void *d) { ++*(int *)d; }, &k); inotify_destroy(ifd); return k; }},
		{"inotify_create (refused)", [&] { return inotify_create(none.c_str(), IN_CREATE); }},
		{"fd helpers", [&] { int fd; { Mine m; fd = open("/dev/null", O_RDONLY); } int rc = fd_add_flags(fd, O_NONBLOCK); rc |= fd_set_close_on_exec(fd); rc |= fd_has_close_on_exec(fd); close(fd); return rc; }},
		{"fd helpers (refused)", [&] { return fd_add_flags(-1, O_NONBLOCK) | fd_set_close_on_exec(-1); }},
		{"random", [&] { char b[600]; futils_random(b, 600); uint64_t m = futils_randomr64_maximum(100); double d = futils_randomrd(); (void)d; futils_random_base64(b, 100, 50); futils_random_shuffle(b, 20, 5); return (int)m; }, false},
		{"random_strong", [&] { char b[60]; return futils_random_strong(b, 60); }},
		{"random_reseed", [&] { return futils_random_reseed(); }, false},
	};
	/* the first calls let the C library open and allocate what it keeps */
	fesetround(FE_TONEAREST);
	std::string given = setlocale(LC_ALL, nullptr);
	auto first = snapshot();
	watching = true;
	touched = nullptr;
	for (auto &c : calls) {
		c.f();
		if (touched) viol(fmt("state of the process changed during a call: %s", touched.load()), fmt("first call of %s", c.name));
		touched = nullptr;
	}
	watching = false;
	auto later = snapshot();
	for (size_t i = 0; i < first.size(); i++)
		if (strcmp(first[i].name, "descriptors")) CHECK(first[i].value == later[i].value, fmt("state of the process changed: %s", first[i].name), "the first calls: '%s' then '%s'", esc(first[i].value, 200).c_str(), esc(later[i].value, 200).c_str());
	setlocale(LC_ALL, given.c_str());
	for (int it = 0; it < n; it++) {
		std::string ctx = setting(it);
		for (size_t i = 0; i < calls.size(); i++) judged(calls[r.chance(80) ? i : r.below(calls.size())], ctx);
		stat("settings");
		if (it < 2) sample(fmt("%zu calls, each with %zu items of process state compared: %s", calls.size(), snapshot().size() + 7, ctx.c_str()));
	}
	fesetround(FE_TONEAREST);
	chdir("/");
}
