/* Link-time interposition (-Wl,--wrap) around the calls a mailbox makes:
 *  - random delays before and after the call (schedule diversity)
 *  - injected EINTR / lost races (EAGAIN on a write that poll announced)
 *  - virtual time: timed waits advance a virtual clock instead of sleeping
 * Active only inside a Lib scope of the calling thread. */
#pragma once
#include "mon.h"
#include <sys/time.h>

namespace wd {
struct T {
	bool active = false;
	unsigned delay_pct = 0;  /* chance of a delay at each point */
	unsigned eintr_pct = 0;  /* chance of EINTR per call */
	unsigned eagain_pct = 0; /* chance of EAGAIN on a write after a poll */
	uint64_t rs = 88172645463325252ull;
	uint64_t eintr = 0, eagain = 0, delays = 0;
	bool polled = false;
};
extern thread_local T t;
extern bool virt;                 /* virtual time on (single threaded) */
extern int64_t vnow_ns;           /* virtual elapsed time */
extern int pipe_bytes;             /* capacity of the pipes created in a Lib scope (0: the default one) */
extern int64_t step_at, step_by;  /* virtual mode: at step_at, the system time changes by step_by */
/* called in virtual mode when a wait would sleep until `until_ns` (relative to
 * the virtual clock, INT64_MAX = forever); returns true when it woke the waiter
 * early (after setting vnow_ns) */
extern std::function<bool(int64_t until_ns)> on_wait;
/* what is being waited for, when a wait for ever is a violation */
extern std::function<std::string()> describe;
struct Lib {
	Lib() { t.active = true; t.polled = false; }
	~Lib() { t.active = false; }
};
#define LIB(expr) ([&]() { wd::Lib l_; return (expr); }())
/* whether virtual time governs the given call, which waits for about 30 ms: a
 * library waiting by other means can only be judged in real time */
bool virtual_usable(const std::function<int()> &call30);
void seed(uint64_t s, unsigned delay_pct, unsigned eintr_pct, unsigned eagain_pct);
void flush_stats();
int rpoll(int fd, short ev, int ms); /* real poll */
}
