/* The al:: interface over --wrap (sanitizer builds): only allocations made by
 * the library and the harness are seen. */
#include "alloc.h"
#include <cstdlib>
namespace al {
std::atomic<int64_t> live{0};
thread_local int64_t calls = 0, fail_at = -1, failed = 0;
thread_local bool fail_rest = false, armed = false;
static bool refuse()
{
	if (!armed) return false;
	int64_t i = calls++;
	if (fail_at < 0 || !(i == fail_at || (fail_rest && i > fail_at))) return false;
	failed++;
	errno = ENOMEM;
	return true;
}
}
extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
char *__real_strdup(const char *);
char *__real_strndup(const char *, size_t);
void *__wrap_malloc(size_t n) { return al::refuse() ? nullptr : __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t s) { return al::refuse() ? nullptr : __real_calloc(n, s); }
void *__wrap_realloc(void *p, size_t n) { return al::refuse() ? nullptr : __real_realloc(p, n); }
char *__wrap_strdup(const char *s) { return al::refuse() ? nullptr : __real_strdup(s); }
char *__wrap_strndup(const char *s, size_t n) { return al::refuse() ? nullptr : __real_strndup(s, n); }
}
