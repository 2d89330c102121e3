#include "alloc.h"
namespace al {
std::atomic<int64_t> live{0};
thread_local int64_t calls = 0, fail_at = -1, failed = 0;
thread_local bool fail_rest = false, armed = false;
static bool refuse()
{
	if (!armed) return false;
	int64_t i = calls++;
	if (fail_at < 0 || !(i == fail_at || (fail_rest && i > fail_at))) return false;
	failed++;
	errno = ENOMEM;
	return true;
}
static void *count(void *p) { if (p) live++; return p; }
}
extern "C" {
void *malloc(size_t n) { return al::refuse() ? nullptr : al::count(__libc_malloc(n)); }
void *calloc(size_t n, size_t s) { return al::refuse() ? nullptr : al::count(__libc_calloc(n, s)); }
void *realloc(void *p, size_t n)
{
	if (al::refuse()) return nullptr;
	if (p && !n) al::live--;
	if (p && n) { void *q = __libc_realloc(p, n); return q; }
	if (!p) return al::count(__libc_realloc(p, n));
	return __libc_realloc(p, n);
}
void free(void *p) { if (p) al::live--; __libc_free(p); }
void *memalign(size_t a, size_t n) { return al::refuse() ? nullptr : al::count(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n)
{
	int e = errno;
	void *p = memalign(a, n);
	errno = e;
	if (!p) return ENOMEM;
	*r = p;
	return 0;
}
}
