/* Replaces the allocator of the process: counts live blocks and makes a chosen
 * allocation fail. Plain flavour only (the sanitizers bring their own). */
#ifndef ALLOC_H
#define ALLOC_H
#include <atomic>
#include <cerrno>
#include <cstddef>
#include <cstdint>
#include <cstring>
extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void __libc_free(void *);
}
namespace al {
extern std::atomic<int64_t> live;      /* blocks allocated and not freed, all threads */
extern thread_local int64_t calls;     /* allocations of this thread while armed */
extern thread_local int64_t fail_at;   /* index of the call which fails, -1 none */
extern thread_local bool fail_rest;    /* and all the following */
extern thread_local int64_t failed;    /* failures injected */
extern thread_local bool armed;
inline void arm(int64_t at, bool rest = false) { calls = 0; failed = 0; fail_at = at; fail_rest = rest; armed = true; }
inline void disarm() { armed = false; }
}
#endif
