/* System call monitor: runs a function in a forked child under ptrace (our own
 * child only), records its file related system calls between two markers, can
 * make any of them fail, shorten it, or stop the child before it. */
#ifndef SYSMON_H
#define SYSMON_H
#include "mon.h"
#include <dirent.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>

namespace sm {
using namespace mon;

static const long MARK = 0x56505357;
inline void begin() { syscall(SYS_prctl, MARK, 1, 0, 0, 0); }
inline void end() { syscall(SYS_prctl, MARK, 2, 0, 0, 0); }

struct Ev {
	long nr = 0;
	unsigned long a[6] = {0};
	std::string p1, p2;     /* path arguments */
	long ret = 0;
	int err = 0;            /* injected errno */
	bool cut = false;       /* injected short transfer */
	uint64_t dev = 0, ino = 0; /* of the fd argument, when there is one */
};
struct Fault { int err = 0; long cut = -1; };
struct Plan {
	std::map<int, Fault> faults;        /* by index of the interesting call */
	std::function<int(int, const Ev &)> fail; /* (index, event): errno or 0, for failures which last */
	int kill_at = -1;                   /* the child dies before this call */
	std::function<void(int, const Ev &, bool)> hook; /* (index, event, entry?) */
	bool ids = false;                   /* resolve fd arguments to inodes */
};
struct Out {
	std::vector<Ev> ev;
	bool killed = false, exited = false;
	int code = -1, sig = 0;
};

enum Kind { K_NONE, K_OPEN, K_CLOSE, K_READ, K_WRITE, K_SYNC, K_NAME, K_OTHER };
struct Sys { long nr; const char *name; Kind k; int path1, path2, fd; };
inline const std::vector<Sys> &table()
{
	static const std::vector<Sys> t = {
		{SYS_open, "open", K_OPEN, 0, -1, -1}, {SYS_openat, "openat", K_OPEN, 1, -1, -1}, {SYS_openat2, "openat2", K_OPEN, 1, -1, -1}, {SYS_creat, "creat", K_OPEN, 0, -1, -1},
		{SYS_close, "close", K_CLOSE, -1, -1, 0},
		{SYS_read, "read", K_READ, -1, -1, 0}, {SYS_pread64, "pread", K_READ, -1, -1, 0}, {SYS_readv, "readv", K_OTHER, -1, -1, 0}, {SYS_getdents64, "getdents", K_OTHER, -1, -1, 0},
		{SYS_write, "write", K_WRITE, -1, -1, 0}, {SYS_pwrite64, "pwrite", K_WRITE, -1, -1, 0}, {SYS_writev, "writev", K_OTHER, -1, -1, 0},
		{SYS_fsync, "fsync", K_SYNC, -1, -1, 0}, {SYS_fdatasync, "fdatasync", K_SYNC, -1, -1, 0}, {SYS_sync, "sync", K_SYNC, -1, -1, -1}, {SYS_syncfs, "syncfs", K_SYNC, -1, -1, 0}, {SYS_sync_file_range, "sync_file_range", K_OTHER, -1, -1, 0},
		{SYS_rename, "rename", K_NAME, 0, 1, -1}, {SYS_renameat, "renameat", K_NAME, 1, 3, -1}, {SYS_renameat2, "renameat2", K_NAME, 1, 3, -1},
		{SYS_unlink, "unlink", K_NAME, 0, -1, -1}, {SYS_unlinkat, "unlinkat", K_NAME, 1, -1, -1}, {SYS_link, "link", K_NAME, 0, 1, -1}, {SYS_linkat, "linkat", K_NAME, 1, 3, -1},
		{SYS_symlink, "symlink", K_NAME, 0, 1, -1}, {SYS_symlinkat, "symlinkat", K_NAME, 0, 2, -1}, {SYS_mkdir, "mkdir", K_NAME, 0, -1, -1}, {SYS_mkdirat, "mkdirat", K_NAME, 1, -1, -1}, {SYS_rmdir, "rmdir", K_NAME, 0, -1, -1},
		{SYS_truncate, "truncate", K_NAME, 0, -1, -1}, {SYS_ftruncate, "ftruncate", K_OTHER, -1, -1, 0}, {SYS_fallocate, "fallocate", K_OTHER, -1, -1, 0},
		{SYS_lseek, "lseek", K_OTHER, -1, -1, 0}, {SYS_stat, "stat", K_OTHER, 0, -1, -1}, {SYS_lstat, "lstat", K_OTHER, 0, -1, -1}, {SYS_fstat, "fstat", K_OTHER, -1, -1, 0}, {SYS_newfstatat, "fstatat", K_OTHER, 1, -1, -1}, {SYS_statx, "statx", K_OTHER, 1, -1, -1},
		{SYS_access, "access", K_OTHER, 0, -1, -1}, {SYS_faccessat, "faccessat", K_OTHER, 1, -1, -1}, {SYS_faccessat2, "faccessat2", K_OTHER, 1, -1, -1}, {SYS_fcntl, "fcntl", K_OTHER, -1, -1, 0}, {SYS_ioctl, "ioctl", K_OTHER, -1, -1, 0},
		{SYS_dup, "dup", K_OTHER, -1, -1, 0}, {SYS_dup2, "dup2", K_OTHER, -1, -1, 0}, {SYS_dup3, "dup3", K_OTHER, -1, -1, 0}, {SYS_copy_file_range, "copy_file_range", K_OTHER, -1, -1, 0}, {SYS_sendfile, "sendfile", K_OTHER, -1, -1, 0},
		{SYS_fchmod, "fchmod", K_OTHER, -1, -1, 0}, {SYS_fchown, "fchown", K_OTHER, -1, -1, 0}, {SYS_chmod, "chmod", K_OTHER, 0, -1, -1},
		{SYS_pipe, "pipe", K_OTHER, -1, -1, -1}, {SYS_pipe2, "pipe2", K_OTHER, -1, -1, -1}, {SYS_inotify_init, "inotify_init", K_OTHER, -1, -1, -1}, {SYS_inotify_init1, "inotify_init1", K_OTHER, -1, -1, -1}, {SYS_inotify_add_watch, "inotify_add_watch", K_OTHER, 1, -1, 0},
		{SYS_eventfd2, "eventfd2", K_OTHER, -1, -1, -1}, {SYS_mmap, "mmap", K_NONE, -1, -1, -1},
	};
	return t;
}
inline const Sys *find(long nr)
{
	static std::vector<const Sys *> ix;
	if (ix.empty()) {
		ix.resize(512, nullptr);
		for (auto &s : table()) if (s.k != K_NONE && s.nr >= 0 && s.nr < 512) ix[(size_t)s.nr] = &s;
	}
	return nr >= 0 && nr < 512 ? ix[(size_t)nr] : nullptr;
}
inline const char *name(long nr) { const Sys *s = find(nr); return s ? s->name : "?"; }
inline Kind kind(long nr) { const Sys *s = find(nr); return s ? s->k : K_NONE; }
inline std::string str(const Ev &e)
{
	std::string s = name(e.nr);
	if (!e.p1.empty()) s += " " + e.p1;
	if (!e.p2.empty()) s += " -> " + e.p2;
	if (e.err) s += fmt(" [fails with %d]", e.err);
	else if (e.cut) s += " [short]";
	return s;
}
inline std::string peek(pid_t pid, unsigned long addr)
{
	std::string s;
	char b[256];
	while (s.size() < 8192) {
		size_t n = 256 - (addr & 255);
		struct iovec l = {b, n}, r = {(void *)addr, n};
		ssize_t k = process_vm_readv(pid, &l, 1, &r, 1, 0);
		if (k <= 0) break;
		for (ssize_t i = 0; i < k; i++) { if (!b[i]) return s; s += b[i]; }
		addr += (unsigned long)k;
	}
	return s;
}
inline Out run(const std::function<void()> &child, const Plan &plan)
{
	Out o;
	fflush(stdout);
	pid_t pid = fork();
	if (pid < 0) harness_error("fork");
	if (!pid) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		if (ptrace(PTRACE_TRACEME, 0, 0, 0) < 0) _exit(97);
		raise(SIGSTOP);
		child();
		_exit(0);
	}
	int st;
	if (waitpid(pid, &st, 0) != pid || !WIFSTOPPED(st)) harness_error("ptrace is not available");
	ptrace(PTRACE_SETOPTIONS, pid, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL);
	bool in = false, entry = true, interest = false;
	Ev e;
	int sig = 0;
	for (;;) {
		/* outside the markers the child runs to the next marker at full stops too */
		if (ptrace(PTRACE_SYSCALL, pid, 0, (void *)(long)sig) < 0) break;
		sig = 0;
		if (waitpid(pid, &st, 0) != pid) break;
		if (WIFEXITED(st)) { o.exited = true; o.code = WEXITSTATUS(st); break; }
		if (WIFSIGNALED(st)) { o.sig = WTERMSIG(st); break; }
		if (!WIFSTOPPED(st)) continue;
		if (WSTOPSIG(st) != (SIGTRAP | 0x80)) { sig = WSTOPSIG(st); if (sig == SIGTRAP || sig == SIGSTOP) sig = 0; continue; }
		struct user_regs_struct r;
		if (ptrace(PTRACE_GETREGS, pid, 0, &r) < 0) break;
		if (entry) {
			long nr = (long)r.orig_rax;
			interest = false;
			if (nr == SYS_prctl && (long)r.rdi == MARK) in = r.rsi == 1;
			else if (in && find(nr)) {
				interest = true;
				const Sys *s = find(nr);
				e = Ev();
				e.nr = nr;
				e.a[0] = r.rdi; e.a[1] = r.rsi; e.a[2] = r.rdx; e.a[3] = r.r10; e.a[4] = r.r8; e.a[5] = r.r9;
				if (s->path1 >= 0) e.p1 = peek(pid, e.a[s->path1]);
				if (s->path2 >= 0) e.p2 = peek(pid, e.a[s->path2]);
				if (plan.ids && s->fd >= 0) {
					struct stat sb;
					if (stat(fmt("/proc/%d/fd/%d", (int)pid, (int)e.a[s->fd]).c_str(), &sb) == 0) { e.dev = sb.st_dev; e.ino = sb.st_ino; }
				}
				int idx = (int)o.ev.size();
				if (plan.hook) plan.hook(idx, e, true);
				if (plan.kill_at == idx) {
					kill(pid, SIGKILL);
					waitpid(pid, &st, 0);
					o.killed = true;
					return o;
				}
				auto f = plan.faults.find(idx);
				int lasting = plan.fail ? plan.fail(idx, e) : 0;
				if (lasting) {
					e.err = lasting;
					if (s->k != K_CLOSE) { r.orig_rax = (unsigned long)-1; ptrace(PTRACE_SETREGS, pid, 0, &r); }
				} else if (f != plan.faults.end()) {
					if (f->second.cut >= 0) {
						if ((s->k == K_READ || s->k == K_WRITE) && (unsigned long)f->second.cut < e.a[2]) { r.rdx = (unsigned long)f->second.cut; e.cut = true; ptrace(PTRACE_SETREGS, pid, 0, &r); }
					} else {
						e.err = f->second.err;
						/* a failing close still closes */
						if (s->k != K_CLOSE) { r.orig_rax = (unsigned long)-1; ptrace(PTRACE_SETREGS, pid, 0, &r); }
					}
				}
			}
			entry = false;
		} else {
			entry = true;
			if (interest) {
				if (e.err) { r.rax = (unsigned long)(long)-e.err; ptrace(PTRACE_SETREGS, pid, 0, &r); }
				e.ret = (long)r.rax;
				o.ev.push_back(e);
				if (plan.hook) plan.hook((int)o.ev.size() - 1, e, false);
				interest = false;
				if (o.ev.size() > 200000) { kill(pid, SIGKILL); waitpid(pid, &st, 0); o.sig = SIGXCPU; return o; }
			}
		}
	}
	return o;
}

/* open descriptors of this process */
inline int nfds()
{
	/* few system calls: this also runs in traced children */
	int d = open("/proc/self/fd", O_RDONLY | O_DIRECTORY | O_CLOEXEC), n = 0;
	if (d < 0) harness_error("/proc/self/fd");
	char b[4096];
	long k;
	while ((k = syscall(SYS_getdents64, d, b, sizeof(b))) > 0)
		for (long o = 0; o < k; o += *(unsigned short *)(b + o + 16)) if (b[o + 19] != '.') n++;
	close(d);
	return n - 1;
}

/* errno values worth injecting into a call */
inline std::vector<int> errnos(const Ev &e)
{
	switch (kind(e.nr)) {
	case K_OPEN: return {EMFILE, EACCES, ENOSPC, EIO, EINTR, EROFS, ENFILE};
	case K_CLOSE: return {EIO, EINTR, ENOSPC};
	case K_READ: return {EIO, EINTR};
	case K_WRITE: return {ENOSPC, EIO, EINTR, EFBIG, EDQUOT};
	case K_SYNC: return {EIO, ENOSPC, EINTR, EINVAL, EROFS, EDQUOT};
	case K_NAME: return {EIO, ENOSPC, EACCES, EROFS};
	default: return {EIO, ENOMEM};
	}
}

/* ---- small directories as values ---- */
struct Inode { std::string data; };
typedef std::map<std::string, std::string> Dir;
inline std::string slurp(const std::string &p, bool *ok = nullptr)
{
	std::string s;
	int fd = open(p.c_str(), O_RDONLY | O_CLOEXEC);
	if (ok) *ok = fd >= 0;
	if (fd < 0) return s;
	char b[65536];
	ssize_t n;
	while ((n = read(fd, b, sizeof(b))) > 0) s.append(b, (size_t)n);
	close(fd);
	return s;
}
inline void spit(const std::string &p, const std::string &d)
{
	int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
	if (fd < 0) harness_error("cannot write " + p);
	size_t o = 0;
	while (o < d.size()) { ssize_t w = write(fd, d.data() + o, d.size() - o); if (w <= 0) harness_error("cannot write " + p); o += (size_t)w; }
	close(fd);
}
inline std::vector<std::string> names(const std::string &d)
{
	std::vector<std::string> v;
	DIR *h = opendir(d.c_str());
	if (!h) harness_error("cannot list " + d);
	while (struct dirent *e = readdir(h)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(e->d_name);
	closedir(h);
	return v;
}
inline Dir load(const std::string &d)
{
	Dir r;
	for (auto &n : names(d)) r[n] = slurp(d + "/" + n);
	return r;
}
inline void store(const std::string &d, const Dir &c)
{
	for (auto &n : names(d)) if (!c.count(n)) unlink((d + "/" + n).c_str());
	for (auto &kv : c) { unlink((d + "/" + kv.first).c_str()); spit(d + "/" + kv.first, kv.second); }
}
inline std::string show(const Dir &d)
{
	std::string s = "{";
	for (auto &kv : d) s += kv.first + ":" + fmt("%zu'%s' ", kv.second.size(), esc(kv.second, 8).c_str());
	return s + "}";
}
inline uint64_t hdir(const Dir &d)
{
	uint64_t h = 3;
	for (auto &kv : d) h = mix(mix(h, hstr(kv.first)), hstr(kv.second));
	return h;
}
} // namespace sm
#endif
