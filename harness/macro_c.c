/* C40: min, max, bound, array size macros, compiled as C. */
#include <float.h>
#include <limits.h>
#include <math.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include "futils/futils.h"

extern int macro_c_thorough;
uint64_t macro_rnd(void);
void macro_viol(const char *key, const char *detail);
void macro_eval(uint64_t fp);
void macro_stat(const char *k);

static uint64_t mixc(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
#define BAD(key, T, a, b, c, got) do { char d_[256]; snprintf(d_, sizeof(d_), "%s: %.20Lg %.20Lg %.20Lg: %.20Lg", #T, (long double)(a), (long double)(b), (long double)(c), (long double)(got)); macro_viol(key, d_); } while (0)

/* bits and sign compared through memcmp-free equality: values only */
#define TEST(NAME, T, FLOATING, LO, HI) \
static T NAME##_val(void) \
{ \
	uint64_t k = macro_rnd() % 8, x = macro_rnd(); \
	switch (k) { \
	case 0: return (T)LO; \
	case 1: return (T)HI; \
	case 2: return (T)(x % 5); \
	case 3: return FLOATING ? (T)(1.0 / (double)(1 + x % 1000)) : (T)(HI - (T)(x % 3)); \
	case 4: return FLOATING ? (T)-(double)(x % 1000) / 3 : (T)(LO + (T)(x % 3)); \
	case 5: return FLOATING ? (T)(x % 2 ? INFINITY : -INFINITY) : (T)((T)0 - (T)(x % 2)); \
	case 6: return FLOATING ? (T)((double)x * 1e10) : (T)x; \
	default: return FLOATING ? (T)((double)(int64_t)x) : (T)(x >> (macro_rnd() % 64)); \
	} \
} \
static int NAME##_n[3]; \
static T NAME##_f(int i, T v) { NAME##_n[i]++; return v; } \
static void NAME##_run(int n) \
{ \
	int i; \
	for (i = 0; i < n; i++) { \
		T a = NAME##_val(), b = NAME##_val(), c = NAME##_val(); \
		T mn, mx, bd; \
		T emin = a < b ? a : b, emax = a > b ? a : b; \
		if (macro_rnd() % 4 == 0) b = a, emin = emax = a; \
		memset(NAME##_n, 0, sizeof(NAME##_n)); \
		mn = FUTILS_MIN(NAME##_f(0, a), NAME##_f(1, b)); \
		if (mn != emin) BAD("minimum differs", T, a, b, 0, mn); \
		if (NAME##_n[0] != 1 || NAME##_n[1] != 1) BAD("argument of MIN not evaluated once", T, NAME##_n[0], NAME##_n[1], 0, 0); \
		memset(NAME##_n, 0, sizeof(NAME##_n)); \
		mx = FUTILS_MAX(NAME##_f(0, a), NAME##_f(1, b)); \
		if (mx != emax) BAD("maximum differs", T, a, b, 0, mx); \
		if (NAME##_n[0] != 1 || NAME##_n[1] != 1) BAD("argument of MAX not evaluated once", T, NAME##_n[0], NAME##_n[1], 0, 0); \
		/* bounds in order: emin <= emax */ \
		memset(NAME##_n, 0, sizeof(NAME##_n)); \
		bd = FUTILS_BOUND(NAME##_f(0, c), NAME##_f(1, emin), NAME##_f(2, emax)); \
		if (bd != (c < emin ? emin : c > emax ? emax : c)) BAD("bound differs", T, c, emin, emax, bd); \
		if (NAME##_n[0] != 1 || NAME##_n[1] != 1 || NAME##_n[2] != 1) BAD("argument of BOUND not evaluated once", T, NAME##_n[0], NAME##_n[1], NAME##_n[2], 0); \
		/* nested */ \
		memset(NAME##_n, 0, sizeof(NAME##_n)); \
		mn = FUTILS_MAX(FUTILS_MIN(NAME##_f(0, c), emax), FUTILS_MAX(FUTILS_BOUND(NAME##_f(1, emin), emin, emax), emin)); \
		if (mn != bd || NAME##_n[0] != 1 || NAME##_n[1] != 1) BAD("nested use differs", T, c, emin, emax, mn); \
		mn = MIN(MIN(a, b), c); mx = MAX(c, MAX(a, b)); \
		if (mn != (c < emin ? c : emin) || mx != (c > emax ? c : emax)) BAD("nested use differs", T, a, b, c, mn); \
		if (BOUND(MIN(a, c), MIN(a, b), MAX(a, b)) != ((a < c ? a : c) < emin ? emin : (a < c ? a : c) > emax ? emax : (a < c ? a : c))) BAD("nested use differs", T, a, b, c, 0); \
		{ T x_ = a, y_ = b; T r_ = FUTILS_MIN(x_++, y_++); (void)r_; } \
		macro_eval(mixc(mixc(mixc(__LINE__, (uint64_t)(FLOATING ? 0 : (int64_t)a)), (uint64_t)(FLOATING ? i : (int64_t)b)), (uint64_t)(FLOATING ? sizeof(T) : (int64_t)c) + sizeof(T))); \
	} \
	macro_stat("types"); \
}
TEST(i8, int8_t, 0, INT8_MIN, INT8_MAX)
TEST(u8, uint8_t, 0, 0, UINT8_MAX)
TEST(i16, int16_t, 0, INT16_MIN, INT16_MAX)
TEST(u16, uint16_t, 0, 0, UINT16_MAX)
TEST(u32, uint32_t, 0, 0, UINT32_MAX)
TEST(u64, uint64_t, 0, 0, UINT64_MAX)
TEST(ul, unsigned long, 0, 0, ULONG_MAX)
/* increments of signed maxima would overflow: signed wide types without x++ */
#undef TESTNOINC
#define x_overflow_guard 1
TEST(f32, float, 1, -FLT_MAX, FLT_MAX)
TEST(f64, double, 1, -DBL_MAX, DBL_MAX)
TEST(fld, long double, 1, -DBL_MAX, DBL_MAX)

static int64_t s64(void)
{
	uint64_t x = macro_rnd();
	switch (macro_rnd() % 6) {
	case 0: return INT64_MIN + (int64_t)(x % 3);
	case 1: return INT64_MAX - (int64_t)(x % 3);
	case 2: return (int64_t)(x % 7) - 3;
	case 3: return (x % 2 ? -1 : 1) * (int64_t)(x % 3 + 0x7ffffffell);
	default: return (int64_t)x >> (macro_rnd() % 63);
	}
}
static int cnt;
static int64_t c64(int64_t v) { cnt++; return v; }
static int32_t c32(int32_t v) { cnt++; return v; }
static void s_run(int n)
{
	int i;
	for (i = 0; i < n; i++) {
		int64_t a = s64(), b = s64(), c = s64(), lo = a < b ? a : b, hi = a > b ? a : b;
		int32_t x = (int32_t)a, y = (int32_t)b, z = (int32_t)c, l = x < y ? x : y, h = x > y ? x : y;
		cnt = 0;
		if (FUTILS_MIN(c64(a), c64(b)) != lo || FUTILS_MAX(c64(a), c64(b)) != hi || cnt != 4) BAD("minimum differs", int64_t, a, b, cnt, 0);
		cnt = 0;
		if (FUTILS_BOUND(c64(c), c64(lo), c64(hi)) != (c < lo ? lo : c > hi ? hi : c) || cnt != 3) BAD("bound differs", int64_t, c, lo, hi, cnt);
		cnt = 0;
		if (FUTILS_MIN(c32(x), c32(y)) != l || FUTILS_MAX(c32(x), c32(y)) != h || cnt != 4) BAD("minimum differs", int32_t, x, y, cnt, 0);
		cnt = 0;
		if (FUTILS_BOUND(c32(z), c32(l), c32(h)) != (z < l ? l : z > h ? h : z) || cnt != 3) BAD("bound differs", int32_t, z, l, h, cnt);
		if (FUTILS_MIN(FUTILS_MAX(c, lo), hi) != (c < lo ? lo : c > hi ? hi : c)) BAD("nested use differs", int64_t, c, lo, hi, 0);
		if (FUTILS_BOUND(FUTILS_BOUND(c, lo, hi), FUTILS_MIN(lo, hi), FUTILS_MAX(lo, hi)) != (c < lo ? lo : c > hi ? hi : c)) BAD("nested use differs", int64_t, c, lo, hi, 0);
		macro_eval(mixc(mixc(3, (uint64_t)a), mixc((uint64_t)b, (uint64_t)c)));
	}
	macro_stat("types");
	macro_stat("types");
}
struct big { char c[37]; };
void macro_c_run(void)
{
	int n = macro_c_thorough ? 3000000 : 40000;
	static int a1[1], a7[7], a1000[1000]; static char s[] = "hello"; static struct big g[13]; static int m[4][9]; static double *pp[3];
	int local[] = {1, 2, 3}, i = 0;
	if (FUTILS_SIZEOF_ARRAY(a1) != 1 || SIZEOF_ARRAY(a7) != 7 || FUTILS_SIZEOF_ARRAY(a1000) != 1000 || FUTILS_SIZEOF_ARRAY(s) != 6 || SIZEOF_ARRAY(g) != 13 || FUTILS_SIZEOF_ARRAY(m) != 4 || FUTILS_SIZEOF_ARRAY(m[0]) != 9 || FUTILS_SIZEOF_ARRAY(m[i++]) != 9 || i != 0 || SIZEOF_ARRAY(pp) != 3 || FUTILS_SIZEOF_ARRAY(local) != 3)
		macro_viol("array size differs", "one of 10 arrays");
	macro_stat("arrays");
	/* in expressions */
	if (2 * FUTILS_SIZEOF_ARRAY(a7) != 14 || 100 / FUTILS_SIZEOF_ARRAY(g) != 7 || 3 * FUTILS_MIN(1 + 1, 2 + 2) != 6 || 10 - FUTILS_MAX(1, 3) != 7 || FUTILS_BOUND(1 ? 5 : 0, 0 | 1, 2 & 3) != 2)
		macro_viol("wrong result inside an expression", "-");
	i8_run(n); u8_run(n); i16_run(n); u16_run(n); u32_run(n); u64_run(n); ul_run(n); f32_run(n); f64_run(n); fld_run(n); s_run(n * 2);
}
