/* C40: macros, C++ side and driver; the C side is in macro_c.c */
#include "mon.h"
using namespace mon;
extern "C" {
int macro_c_thorough;
void macro_c_run(void);
uint64_t macro_rnd(void);
void macro_viol(const char *key, const char *detail);
void macro_eval(uint64_t fp);
void macro_stat(const char *k);
}
uint64_t macro_rnd(void) { return rng().u64(); }
void macro_viol(const char *k, const char *d) { viol(k, d); }
void macro_eval(uint64_t fp) { eval(fp); }
void macro_stat(const char *k) { stat(k); }
void mon::run()
{
	watchdog(30);
	macro_c_thorough = conf().thorough;
	macro_c_run();
	sample("MIN/MAX/BOUND over 12 types, boundary and random values, counted evaluations, nested uses");
}
