/* C22 format/parse round trip, C23 hostile strings, C24 time context, C25
 * broken-down and system local time. Oracle: own civil calendar and grammar. */
#include "mon.h"
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <stddef.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/timex.h>
#include "futils/systimetools.h"
using namespace mon;
typedef __int128 I;

/* ------------------------------------------------- calendar (proleptic) */
static int64_t days_of(int64_t y, int m, int d)
{
	y -= m <= 2;
	int64_t era = (y >= 0 ? y : y - 399) / 400;
	unsigned yoe = (unsigned)(y - era * 400), doy = (unsigned)((153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1);
	return era * 146097 + (int64_t)(yoe * 365 + yoe / 4 - yoe / 100 + doy) - 719468;
}
struct Civil { int64_t y; int mo, d, h, mi, s, wd, yd; };
static Civil civil(int64_t t)
{
	int64_t z = t >= 0 ? t / 86400 : -((-t + 86399) / 86400);
	int64_t sod = t - z * 86400;
	Civil c;
	c.h = (int)(sod / 3600); c.mi = (int)(sod / 60 % 60); c.s = (int)(sod % 60);
	c.wd = (int)(((z + 4) % 7 + 7) % 7);
	int64_t zz = z + 719468;
	int64_t era = (zz >= 0 ? zz : zz - 146096) / 146097;
	unsigned doe = (unsigned)(zz - era * 146097);
	unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
	unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
	c.d = (int)(doy - (153 * mp + 2) / 5 + 1);
	c.mo = (int)(mp < 10 ? mp + 3 : mp - 9);
	c.y = (int64_t)yoe + era * 400 + (c.mo <= 2);
	c.yd = (int)(z - days_of(c.y, 1, 1));
	return c;
}
static int mdays(int64_t y, int m)
{
	static const int n[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
	return m == 2 && (y % 4 == 0 && (y % 100 || y % 400 == 0)) ? 29 : n[m - 1];
}
static const char *WD[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"};
static const char *MO[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};

static std::string text(int64_t t, int off, int f)
{
	Civil c = civil(t + off);
	int a = off < 0 ? -off : off;
	char sg = off < 0 ? '-' : '+';
	int y = (int)c.y;
	switch (f) {
	case 0: return fmt("%04d%02d%02dT%02d%02d%02d%c%02d%02d", y, c.mo, c.d, c.h, c.mi, c.s, sg, a / 3600, a / 60 % 60);
	case 1: return fmt("%04d-%02d-%02dT%02d:%02d:%02d%c%02d:%02d", y, c.mo, c.d, c.h, c.mi, c.s, sg, a / 3600, a / 60 % 60);
	default:
		if (!off) return fmt("%s, %d %s %d %02d:%02d:%02d GMT", WD[c.wd], c.d, MO[c.mo - 1], y, c.h, c.mi, c.s);
		return fmt("%s, %d %s %d %02d:%02d:%02d %c%02d%02d", WD[c.wd], c.d, MO[c.mo - 1], y, c.h, c.mi, c.s, sg, a / 3600, a / 60 % 60);
	}
}
static const enum time_fmt FM[] = {TIME_FMT_SHORT, TIME_FMT_LONG, TIME_FMT_RFC1123};
static const int64_t END = 253402300800ll; /* 10000-01-01 */

/* heap copy of exactly the text: ASan sees any access outside */
struct Exact {
	char *p, *h = nullptr;
	explicit Exact(const std::string &s)
	{
		if (s.size() < 20000 && rng().chance(20)) { p = (char *)read_only<0>(s.c_str(), s.size() + 1); return; }
		p = h = (char *)malloc(s.size() + 1);
		memcpy(p, s.c_str(), s.size() + 1);
	}
	~Exact() { free(h); }
};

/* ---------------------------------------------------------------- C22 */
static void one_fmt(int64_t t, int off, int f)
{
	errno = f ? EIO : ERANGE;
	Rng &r = rng();
	std::string want = text(t, off, f);
	char *b = (char *)malloc(want.size() + 1);
	memset(b, 'x', want.size() + 1);
	int ret = time_local_format((uint64_t)t, off, FM[f], b, want.size() + 1);
	bool z = memchr(b, 0, want.size() + 1) != nullptr;
	CHECK(ret == 0 && z && want == b, "formatted text differs from the calendar's", "%lld offset %d form %d: ret %d, '%s', expected '%s'", (long long)t, off, f, ret, z ? b : "(not terminated)", want.c_str());
	if (ret == 0 && z) {
		uint64_t e = 7; int32_t o = -7;
		ret = time_local_parse(b, &e, &o);
		CHECK(ret == 0 && e == (uint64_t)t && o == off, "text does not parse back to the same instant and offset", "%lld offset %d form %d '%s': ret %d, %llu, %d", (long long)t, off, f, b, ret, (unsigned long long)e, o);
	}
	free(b);
	if (r.below(64) == 0) {
		size_t n = r.below(want.size() + 3);
		char *s = (char *)malloc(n ? n : 1);
		memset(s, 'x', n ? n : 1);
		ret = time_local_format((uint64_t)t, off, FM[f], n ? s : (r.chance(50) ? s : nullptr), n);
		if (n) {
			CHECK(memchr(s, 0, n) != nullptr, "formatted text not terminated within the size", "%lld offset %d form %d size %zu", (long long)t, off, f, n);
			if (n > want.size()) CHECK(ret == 0 && want == s, "formatted text differs from the calendar's", "size %zu", n);
		} else {
			CHECK(ret < 0, "empty buffer accepted", "%d", ret);
			CHECK(s[0] == 'x', "empty buffer written", "%d", s[0]);
			stat("empty buffers");
		}
		free(s);
		stat("small buffers");
	}
	if (r.below(64) == 0) {
		size_t n = huge_size(r);
		char *s = huge_room();
		memset(s, 'x', 80);
		ret = time_local_format((uint64_t)t, off, FM[f], s, n);
		CHECK(ret == 0 && strnlen(s, 80) < 80 && want == s, "formatted text differs from the calendar's", "%lld offset %d form %d, buffer of %zu bytes: ret %d '%.70s', expected '%s'", (long long)t, off, f, n, ret, s, want.c_str());
		stat("buffers beyond 31 bits");
	}
}
static int roff(Rng &r)
{
	static const int edge[] = {0, 60, -60, 1800, -1800, 3600, -3600, 5 * 3600 + 2700, -(3 * 3600 + 1800), 86340, -86340, 14 * 3600, -12 * 3600, 35940, -35940, 36000, -36000};
	switch (r.below(4)) {
	case 0: return 0;
	case 1: return edge[r.below(sizeof(edge) / sizeof(*edge))];
	default: return 60 * (int)r.range(-1439, 1439);
	}
}
static void mode_format()
{
	Rng &r = rng();
	int64_t last = END / 86400;
	int step = conf().thorough ? 1 : 11;
	int64_t startd = (int64_t)r.below((uint64_t)step);
	for (int64_t d = startd; d < last; d += step) {
		int64_t t = d * 86400 + (r.chance(20) ? 0 : r.chance(20) ? 86399 : (int64_t)r.below(86400));
		int off = roff(r);
		if (t + off >= END) off = 0;
		int f = (int)r.below(3);
		one_fmt(t, off, f);
		eval(mix(mix((uint64_t)d, (uint64_t)off), (uint64_t)f));
		stat("days");
		if (d < 3 * step) sample(fmt("%lld offset %d form %d", (long long)t, off, f));
	}
	/* first and last day of every month of every year, second boundaries */
	for (int y = 1970; y <= 9999; y++) {
		if (!conf().thorough && y > 2200 && y % 100 > 1 && y % 100 < 99 && y % 4 && r.below(10)) continue;
		for (int k = 0; k < 4; k++) {
			int m = k == 0 ? 2 : k == 1 ? 3 : (int)r.range(1, 12);
			int dd = k == 0 ? mdays(y, 2) : k == 1 ? 1 : r.chance(50) ? 1 : mdays(y, m);
			int64_t t = days_of(y, m, dd) * 86400 + (r.chance(50) ? 0 : 86399);
			int off = roff(r);
			if (t + off >= END) off = 0;
			int f = (int)r.below(3);
			one_fmt(t, off, f);
			eval(mix(mix((uint64_t)t, (uint64_t)off), (uint64_t)f));
			stat("month boundaries");
		}
	}
	/* all offsets, all seconds of a minute, every hour */
	int64_t base = 1500000000;
	for (int o = -1439; o <= 1439; o++) for (int f = 0; f < 3; f++) {
		int64_t t = base + (int64_t)r.below(100000000);
		one_fmt(t, o * 60, f);
		eval(mix(mix((uint64_t)t, (uint64_t)o), (uint64_t)f));
		stat("offsets");
	}
	for (int64_t t = 0; t < 86400; t += 1 + (int64_t)r.below(30)) { one_fmt(t, roff(r), (int)r.below(3)); eval(mix(9, (uint64_t)t)); }
	/* unknown formats, missing buffer */
	char b[64];
	for (int f : {3, 4, 100, -1, INT_MAX}) {
		int ret = time_local_format(5, 0, (enum time_fmt)f, b, sizeof(b));
		CHECK(ret < 0, "unknown format accepted", "%d: %d", f, ret);
		stat("unknown formats");
	}
	CHECK(time_local_format(5, 0, TIME_FMT_SHORT, nullptr, 64) < 0, "missing buffer accepted", "-");
}

/* ----------------------------------------------- grammar of date texts
 * V: valid, denotes (epoch, offset); R: must be refused; U: unspecified */
enum Cls { V, R, U };
struct P { Cls c = V; int64_t epoch = 0; int off = 0; int y = 0, mo = 0, d = 0, h = 0, mi = 0, s = 0; bool oddzone = false; };
/* strength: R wins over U wins over V */
static void worse(P &p, Cls c) { if (c == R || p.c == R) p.c = R; else if (c == U) p.c = U; }
static int num(P &p, const std::string &s)
{
	int v = 0;
	bool odd = false;
	for (unsigned char c : s) {
		if (c >= '0' && c <= '9') v = v * 10 + c - '0';
		else if (c == '+' || c == '-' || c == ' ' || (c >= 9 && c <= 13)) odd = true; /* sign or blank in a number */
		else { worse(p, R); return 0; }
	}
	if (odd) worse(p, U);
	return v;
}
static void g_date(P &p, const std::string &y, const std::string &m, const std::string &d)
{
	p.y = num(p, y); p.mo = num(p, m); p.d = num(p, d);
	bool odd = false;
	for (unsigned char c : m) if (c < '0' || c > '9') odd = true;
	if (!odd && (p.mo < 1 || p.mo > 12)) worse(p, R);
	else if (p.mo >= 1 && p.mo <= 12 && (p.d < 1 || p.d > mdays(p.y, p.mo))) worse(p, U);
	if (p.y < 1) worse(p, U);
}
static bool iso_date(P &p, const std::string &s)
{
	if (s.size() == 10 && s[4] == '-' && s[7] == '-') g_date(p, s.substr(0, 4), s.substr(5, 2), s.substr(8, 2));
	else if (s.size() == 8) g_date(p, s.substr(0, 4), s.substr(4, 2), s.substr(6, 2));
	else { worse(p, R); return false; }
	return true;
}
static void g_time(P &p, std::string s)
{
	if (!s.empty() && s[0] == 'T') s.erase(0, 1);
	std::string z;
	if (s.size() >= 8 && s[2] == ':' && s[5] == ':') {
		p.h = num(p, s.substr(0, 2)); p.mi = num(p, s.substr(3, 2)); p.s = num(p, s.substr(6, 2));
		z = s.substr(8);
	} else if (s.size() >= 6) {
		p.h = num(p, s.substr(0, 2)); p.mi = num(p, s.substr(2, 2)); p.s = num(p, s.substr(4, 2));
		z = s.substr(6);
	} else { worse(p, R); return; }
	if (p.h > 23 || p.mi > 59 || p.s > 60 || p.s == 60) worse(p, U);
	if (!z.empty() && z[0] == ' ') z.erase(0, 1);
	int zh = 0, zm = 0, sg = 1;
	if (z.size() == 6 && (z[0] == '-' || z[0] == '+') && z[3] == ':') { sg = z[0] == '-' ? -1 : 1; zh = num(p, z.substr(1, 2)); zm = num(p, z.substr(4, 2)); }
	else if (z.size() == 5 && (z[0] == '-' || z[0] == '+')) { sg = z[0] == '-' ? -1 : 1; zh = num(p, z.substr(1, 2)); zm = num(p, z.substr(3, 2)); }
	else if (z != "Z" && z != "GMT" && z != "UT" && z != "UTC") { worse(p, R); return; }
	if (zh > 23 || zm > 59) worse(p, U);
	p.off = sg * (zh * 60 + zm) * 60;
}
static void fin(P &p)
{
	if (p.c == R || p.mo < 1 || p.mo > 12) return;
	p.epoch = days_of(p.y, p.mo, p.d) * 86400 + p.h * 3600 + p.mi * 60 + p.s - p.off;
	if (p.epoch < 0) worse(p, U);
}
static P p_date(const std::string &s) { P p; iso_date(p, s); return p; }
static P p_hour(const std::string &s) { P p; g_time(p, s); return p; }
static P p_full(const std::string &s)
{
	P p;
	size_t k;
	int wd = -1;
	for (int i = 0; i < 7; i++) if (s.compare(0, 3, WD[i]) == 0) wd = i;
	if (wd >= 0 && s.size() >= 16) {
		/* aaa, [D]D bbb YYYY or aaa, bbb [D]D YYYY */
		if (s[3] != ',') { worse(p, R); return p; }
		if (s[4] != ' ') worse(p, U);
		k = 5;
		std::string d, m, y;
		bool dig = s[5] >= '0' && s[5] <= '9';
		auto day = [&]() {
			d = s.substr(k, 1); k++;
			if (s[k] != ' ') { d += s[k]; k++; }
			if (s[k] != ' ') worse(p, U);
			k++;
		};
		auto mon = [&]() { m = s.substr(k, 3); k += 3; if (s[k] != ' ') worse(p, U); k++; };
		if (dig) { day(); mon(); } else { mon(); day(); }
		y = s.substr(k, 4); k += y.size();
		if (y.size() != 4) { worse(p, R); return p; }
		p.y = num(p, y); p.d = num(p, d);
		for (int i = 0; i < 12; i++) if (m == MO[i]) p.mo = i + 1;
		if (!p.mo) worse(p, R);
		else if (p.d < 1 || p.d > mdays(p.y, p.mo)) worse(p, U);
		else if (((days_of(p.y, p.mo, p.d) + 4) % 7 + 7) % 7 != wd) worse(p, U);
		if (p.y < 1) worse(p, U);
		if (k >= s.size() || s[k] != ' ') worse(p, k >= s.size() ? R : U);
	} else if (s.size() >= 10 && (s.size() == 10 || s[10] == 'T' || s[10] == ' ')) {
		if (!iso_date(p, s.substr(0, 10))) return p;
		k = 10;
	} else if (s.size() >= 8 && (s.size() == 8 || s[8] == 'T' || s[8] == ' ')) {
		if (!iso_date(p, s.substr(0, 8))) return p;
		k = 8;
	} else { worse(p, R); return p; }
	std::string t = s.substr(k);
	if (!t.empty() && t[0] == ' ') { t.erase(0, 1); if (!t.empty() && t[0] == 'T') worse(p, U); }
	g_time(p, t);
	fin(p);
	return p;
}
/* ------------------------------------------------- text generator */
static std::string g_zone(Rng &r)
{
	int o = roff(r), a = o < 0 ? -o : o;
	std::string sp = r.chance(20) ? " " : "";
	switch (r.below(6)) {
	case 0: return sp + "Z";
	case 1: return sp + "GMT";
	case 2: return sp + "UT";
	case 3: return sp + "UTC";
	case 4: return sp + fmt("%c%02d%02d", o < 0 ? '-' : '+', a / 3600, a / 60 % 60);
	default: return sp + fmt("%c%02d:%02d", o < 0 ? '-' : '+', a / 3600, a / 60 % 60);
	}
}
static std::string g_hour(Rng &r)
{
	int h = (int)r.below(24), m = (int)r.below(60), s = (int)r.below(60);
	return (r.chance(50) ? fmt("%02d:%02d:%02d", h, m, s) : fmt("%02d%02d%02d", h, m, s)) + g_zone(r);
}
static Civil rcivil(Rng &r) { return civil((int64_t)r.below((uint64_t)(r.chance(50) ? 2000000000ll : END))); }
static std::string g_day(Rng &r)
{
	Civil c = rcivil(r);
	return r.chance(50) ? fmt("%04d-%02d-%02d", (int)c.y, c.mo, c.d) : fmt("%04d%02d%02d", (int)c.y, c.mo, c.d);
}
static std::string g_whole(Rng &r)
{
	if (r.chance(45)) {
		Civil c = rcivil(r);
		std::string d = c.d < 10 && r.chance(50) ? fmt("%d", c.d) : fmt("%02d", c.d);
		std::string s = std::string(WD[c.wd]) + ", ";
		s += r.chance(60) ? d + " " + MO[c.mo - 1] : std::string(MO[c.mo - 1]) + " " + d;
		return s + fmt(" %04d ", (int)c.y) + g_hour(r);
	}
	return g_day(r) + (r.chance(60) ? "T" : " ") + g_hour(r);
}
static std::string mutate(Rng &r, std::string s)
{
	static const char al[] = "0123456789:+-TZ GMUC,abJanSun\t/.\xff";
	int n = 1 + (int)r.below(2);
	for (int i = 0; i < n; i++) {
		switch (r.below(9)) {
		case 0: s = s.substr(0, r.below(s.size() + 1)); break;
		case 1: if (!s.empty()) s[r.below(s.size())] = al[r.below(sizeof(al) - 1)]; break;
		case 2: s.insert(r.below(s.size() + 1), 1, al[r.below(sizeof(al) - 1)]); break;
		case 3: if (!s.empty()) s.erase(r.below(s.size()), 1); break;
		case 4: s += std::string(1 + r.below(3), al[r.below(sizeof(al) - 1)]); break;
		case 5: if (!s.empty()) s[r.below(s.size())] = (char)('0' + r.below(10)); break;
		case 6: { size_t a = r.below(s.size() + 1); s.insert(a, s.substr(r.below(s.size() + 1), r.below(8))); break; }
		case 7: if (!s.empty()) s[r.below(s.size())] = (char)(1 + r.below(255)); break;
		default: { size_t a = r.below(s.size() + 1); s.erase(a, r.below(6)); }
		}
	}
	size_t z = s.find('\0');
	if (z != std::string::npos) s.resize(z);
	return s;
}
static std::string g_text(Rng &r, int kind)
{
	std::string s;
	int k = r.chance(8) ? (int)r.below(3) : kind;
	s = k == 0 ? g_day(r) : k == 1 ? (r.chance(50) ? "T" : "") + g_hour(r) : g_whole(r);
	switch (r.below(10)) {
	case 0: case 1: case 2: return s;
	case 3: { s = r.bytes(r.below(40)); for (auto &c : s) if (!c) c = 'x'; return s; }
	case 4: { std::string t; static const char al[] = "0123456789:+-T Z,MonJan"; size_t n = r.below(34); for (size_t i = 0; i < n; i++) t += al[r.below(sizeof(al) - 1)]; return t; }
	case 5: { /* month out of range */
		int m = r.chance(30) ? 0 : (int)r.range(13, 99);
		bool l = r.chance(50);
		std::string d = l ? fmt("%04d-%02d-%02d", (int)r.range(1970, 9999), m, (int)r.range(1, 28)) : fmt("%04d%02d%02d", (int)r.range(1970, 9999), m, (int)r.range(1, 28));
		return kind == 0 ? d : d + "T" + g_hour(r);
	}
	case 6: return mutate(r, mutate(r, s));
	default: return mutate(r, s);
	}
}
static const char *cn[] = {"valid", "to refuse", "unspecified"};
static int shape(const std::string &s)
{
	uint64_t h = 1;
	for (unsigned char c : s) h = mix(h, c >= '0' && c <= '9' ? 'd' : c);
	return (int)h;
}
/* context holding its content in a heap object */
static struct time_ctx *mkctx() { struct time_ctx *c = (struct time_ctx *)malloc(sizeof(*c)); memset(c, 0x5a, sizeof(*c)); return c; }
static void mode_hostile()
{
	Rng &r = rng();
	long n = conf().thorough ? 30000000 : 450000;
	for (long it = 0; it < n; it++) {
		errno = it % 3 == 0 ? ERANGE : it % 3 == 1 ? EINVAL : 0;
		int kind = it % 4 == 0 ? 0 : it % 4 == 1 ? 1 : 2;
		std::string s = g_text(r, kind);
		Exact x(s);
		uint64_t e = 3; int32_t o = 3;
		int ret;
		P p;
		struct time_ctx *c = nullptr;
		if (kind == 2 && r.chance(70)) {
			p = p_full(s);
			ret = time_local_parse(x.p, &e, &o);
		} else {
			c = mkctx();
			if (time_ctx_init(c) != 0) viol("context initialisation failed", "-");
			p = kind == 0 ? p_date(s) : kind == 1 ? p_hour(s) : p_full(s);
			ret = kind == 0 ? time_ctx_set_date(c, x.p) : kind == 1 ? time_ctx_set_hour(c, x.p) : time_ctx_set_time(c, x.p);
			if (kind < 2 && ret == -EINPROGRESS) {
				/* complete with a known other half */
				ret = kind == 0 ? time_ctx_set_hour(c, "00:00:00Z") : time_ctx_set_date(c, "2020-02-29");
				CHECK(ret == 0, "context not complete after both halves", "%s: %d", esc(s).c_str(), ret);
				if (kind == 1) { p.y = 2020; p.mo = 2; p.d = 29; }
				fin(p);
			} else CHECK(kind == 2 || ret < 0, "half a time completes a context", "%s: %d", esc(s).c_str(), ret);
			int ok = time_ctx_get_local(c, &e, &o);
			CHECK(ok == ret || (ret < 0 && ok == -EINPROGRESS), "context content does not follow the result", "%s: %d then %d", esc(s).c_str(), ret, ok);
		}
		static const char *kn[] = {"date", "hour", "date and time"};
		CHECK(ret <= 0, "positive result", "%s '%s': %d", kn[kind], esc(s).c_str(), ret);
		if (p.c == V)
			CHECK(ret == 0 && e == (uint64_t)p.epoch && o == p.off, fmt("valid %s text gives another instant", kn[kind]), "'%s'%s: ret %d, %llu %d, expected %lld %d", esc(s).c_str(), c ? " (context)" : "", ret, (unsigned long long)e, o, (long long)p.epoch, p.off);
		else if (p.c == R)
			CHECK(ret < 0, fmt("malformed %s text accepted", kn[kind]), "'%s'%s: %llu %d", esc(s).c_str(), c ? " (context)" : "", (unsigned long long)e, o);
		free(c);
		stat(fmt("%s: %s", cn[p.c], ret ? "refused" : "accepted"));
		eval(mix(mix((uint64_t)kind, (uint64_t)p.c), (uint64_t)(unsigned)shape(s)), !s.empty());
		if (it < 6) sample(fmt("'%s' (%s) -> %d", esc(s).c_str(), cn[p.c], ret));
	}
	uint64_t e; int32_t o;
	CHECK(time_local_parse(nullptr, &e, &o) < 0 && time_local_parse("2018-03-01T01:48:14Z", nullptr, &o) < 0 && time_local_parse("2018-03-01T01:48:14Z", &e, nullptr) < 0, "missing argument accepted", "parse");
}

/* ---------------------------------------------------------------- C24 */
static void mode_ctx()
{
	Rng &r = rng();
	long n = conf().thorough ? 8000000 : 130000;
	for (long it = 0; it < n; it++) {
		struct time_ctx *c = mkctx();
		CHECK(time_ctx_init(c) == 0, "context initialisation failed", "-");
		bool hd = false, hh = false, ud = false, uh = false; /* set, with unspecified content */
		P d, h;
		std::string hist;
		int steps = (int)r.range(2, 9);
		uint64_t fp = 1;
		for (int k = 0; k < steps; k++) {
			int op = (int)r.below(10);
			errno = r.chance(30) ? ERANGE : 0;
			int ret;
			if (op < 3) {
				bool nul = r.chance(3);
				std::string s = r.chance(60) ? g_day(r) : g_text(r, 0);
				Exact x(s);
				ret = time_ctx_set_date(c, nul ? nullptr : x.p);
				P p = p_date(s);
				hist += fmt("date '%s' -> %d; ", nul ? "NULL" : esc(s).c_str(), ret);
				if (nul) CHECK(ret == -EINVAL, "missing text accepted", "%s", hist.c_str());
				else if (hd) CHECK(ret == -EEXIST, "date set twice", "%s", hist.c_str());
				else if (p.c == R) CHECK(ret < 0 && ret != -EEXIST && ret != -EINPROGRESS, "malformed date accepted", "%s", hist.c_str());
				else {
					int w = hh ? 0 : -EINPROGRESS;
					if (p.c == V) CHECK(ret == w, hh ? "completing date not reported complete" : "first date not reported in progress", "%s", hist.c_str());
					if (ret == w) { hd = true; ud = p.c == U; d = p; }
				}
			} else if (op < 6) {
				bool nul = r.chance(3);
				std::string s = r.chance(60) ? (r.chance(30) ? "T" : "") + g_hour(r) : g_text(r, 1);
				Exact x(s);
				ret = time_ctx_set_hour(c, nul ? nullptr : x.p);
				P p = p_hour(s);
				hist += fmt("hour '%s' -> %d; ", nul ? "NULL" : esc(s).c_str(), ret);
				if (nul) CHECK(ret == -EINVAL, "missing text accepted", "%s", hist.c_str());
				else if (hh) CHECK(ret == -EEXIST, "hour set twice", "%s", hist.c_str());
				else if (p.c == R) CHECK(ret < 0 && ret != -EEXIST && ret != -EINPROGRESS, "malformed hour accepted", "%s", hist.c_str());
				else {
					int w = hd ? 0 : -EINPROGRESS;
					if (p.c == V) CHECK(ret == w, hd ? "completing hour not reported complete" : "first hour not reported in progress", "%s", hist.c_str());
					if (ret == w) { hh = true; uh = p.c == U; h = p; }
				}
			} else if (op < 8) {
				bool nul = r.chance(3);
				std::string s = r.chance(50) ? g_whole(r) : g_text(r, 2);
				Exact x(s);
				ret = time_ctx_set_time(c, nul ? nullptr : x.p);
				P p = p_full(s);
				hist += fmt("time '%s' -> %d; ", nul ? "NULL" : esc(s).c_str(), ret);
				if (nul) CHECK(ret == -EINVAL, "missing text accepted", "%s", hist.c_str());
				else if (hd || hh) CHECK(ret == -EEXIST, "whole time set over a field", "%s", hist.c_str());
				else if (p.c == R) CHECK(ret < 0 && ret != -EEXIST && ret != -EINPROGRESS, "malformed time accepted", "%s", hist.c_str());
				else {
					if (p.c == V) CHECK(ret == 0, "valid time not accepted", "%s", hist.c_str());
					if (ret == 0) { hd = hh = true; ud = uh = p.c == U; d = h = p; }
				}
			} else {
				uint64_t e = 12345; int32_t o = 6789;
				int miss = r.chance(10) ? (int)r.range(1, 2) : 0;
				ret = time_ctx_get_local(c, miss == 1 ? nullptr : &e, miss == 2 ? nullptr : &o);
				hist += fmt("get -> %d %llu %d; ", ret, (unsigned long long)e, o);
				if (miss) CHECK(ret < 0, "missing argument accepted", "%s", hist.c_str());
				else if (!hd || !hh) CHECK(ret == -EINPROGRESS && e == 12345 && o == 6789, "incomplete context yields a time", "%s", hist.c_str());
				else {
					CHECK(ret == 0, "complete context yields nothing", "%s", hist.c_str());
					if (!ud && !uh) {
						P p = d; p.h = h.h; p.mi = h.mi; p.s = h.s; p.off = h.off; p.c = V;
						fin(p);
						if (p.c == V) CHECK(e == (uint64_t)p.epoch && o == p.off, "context yields another time", "%s expected %lld %d", hist.c_str(), (long long)p.epoch, p.off);
						stat("times read");
					}
				}
			}
			fp = mix(fp, mix((uint64_t)op, (uint64_t)(ret + 200)));
			stat("calls");
			if (ret == -EEXIST) stat("already set");
			if (ret == -EINPROGRESS) stat("in progress");
		}
		/* whatever happened, it can be completed and read */
		int a = hd ? 0 : time_ctx_set_date(c, "2016-02-29"), b = hh ? 0 : time_ctx_set_hour(c, "T235958-0930");
		hist += fmt("completed %d %d; ", a, b);
		if (!hd) { CHECK(a == (hh ? 0 : -EINPROGRESS), "earlier calls prevent setting the date", "%s", hist.c_str()); d = p_date("2016-02-29"); ud = false; }
		if (!hh) { CHECK(b == 0, "earlier calls prevent setting the hour", "%s", hist.c_str()); h = p_hour("T235958-0930"); uh = false; }
		uint64_t e = 0; int32_t o = 0;
		int ret = time_ctx_get_local(c, &e, &o);
		CHECK(ret == 0, "complete context yields nothing", "%s %d", hist.c_str(), ret);
		if (!ud && !uh) {
			P p = d; p.h = h.h; p.mi = h.mi; p.s = h.s; p.off = h.off; p.c = V;
			fin(p);
			if (p.c == V) CHECK(e == (uint64_t)p.epoch && o == p.off, "context yields another time", "%s got %llu %d expected %lld %d", hist.c_str(), (unsigned long long)e, o, (long long)p.epoch, p.off);
			stat("times read");
		}
		eval(fp);
		if (it < 4) sample(hist);
		/* a context can be used again */
		if (r.chance(10)) {
			CHECK(time_ctx_init(c) == 0 && time_ctx_get_local(c, &e, &o) == -EINPROGRESS, "initialised context is not empty", "%s", hist.c_str());
			CHECK(time_ctx_set_time(c, "2018-03-01T01:48:14-10:25") == 0, "initialised context is not empty", "%s", hist.c_str());
		}
		free(c);
	}
	CHECK(time_ctx_init(nullptr) == -EINVAL && time_ctx_set_date(nullptr, "2016-02-29") == -EINVAL && time_ctx_set_hour(nullptr, "00:00:00Z") == -EINVAL && time_ctx_set_time(nullptr, "2016-02-29T00:00:00Z") == -EINVAL, "missing context accepted", "-");
}

/* ---------------------------------------------------------------- C25 */
extern "C" {
int __real_gettimeofday(struct timeval *, void *);
int __real_clock_gettime(clockid_t, struct timespec *);
time_t __real_time(time_t *);
}
static thread_local bool won;
static I wnow_us, wstep_us; /* virtual real time, which passes at each reading */
static int get_errno, set_errno;
static std::vector<std::pair<int64_t, int64_t>> sets;
static int wread(I *v) { if (get_errno) { errno = get_errno; return -1; } *v = wnow_us; wnow_us += wstep_us; return 0; }
extern "C" int __wrap_gettimeofday(struct timeval *t, void *z)
{
	if (!won) return __real_gettimeofday(t, z);
	I v;
	if (wread(&v) < 0) return -1;
	t->tv_sec = (time_t)(v / 1000000); t->tv_usec = (long)(v % 1000000);
	return 0;
}
extern "C" int __wrap_clock_gettime(clockid_t c, struct timespec *t)
{
	if (!won || (c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE)) return __real_clock_gettime(c, t);
	I v;
	if (wread(&v) < 0) return -1;
	t->tv_sec = (time_t)(v / 1000000); t->tv_nsec = (long)(v % 1000000) * 1000;
	return 0;
}
extern "C" time_t __wrap_time(time_t *p)
{
	if (!won) return __real_time(p);
	time_t t = (time_t)(wnow_us / 1000000);
	wnow_us += wstep_us;
	if (p) *p = t;
	return t;
}
/* stand-ins: the clock is never touched */
extern "C" int __wrap_settimeofday(const struct timeval *t, const void *)
{
	sets.push_back({t ? t->tv_sec : -1, t ? t->tv_usec * 1000 : -1});
	if (set_errno) { errno = set_errno; return -1; }
	return 0;
}
extern "C" int __wrap_clock_settime(clockid_t c, const struct timespec *t)
{
	sets.push_back({c == CLOCK_REALTIME ? t->tv_sec : -1, t->tv_nsec});
	if (set_errno) { errno = set_errno; return -1; }
	return 0;
}
extern "C" int __wrap_stime(const time_t *t)
{
	sets.push_back({*t, 0});
	if (set_errno) { errno = set_errno; return -1; }
	return 0;
}
static void no_clock_setting()
{
	struct sock_filter f[] = {
		BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)),
		BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_settimeofday, 3, 0),
		BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_clock_settime, 2, 0),
		BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_adjtimex, 1, 0),
		BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_clock_adjtime, 0, 1),
		BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ERRNO | EPERM),
		BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
	};
	struct sock_fprog p = {sizeof(f) / sizeof(*f), f};
	if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p)) harness_error("seccomp");
	struct timeval tv;
	__real_gettimeofday(&tv, nullptr);
	if (syscall(SYS_settimeofday, &tv, nullptr) != -1 || errno != EPERM) harness_error("clock can be set");
}
static void mode_local()
{
	no_clock_setting();
	Rng &r = rng();
	long n = conf().thorough ? 8000000 : 250000;
	for (long it = 0; it < n; it++) {
		int64_t t;
		int32_t off;
		switch (r.below(5)) {
		case 0: t = (int64_t)r.below(3) * 86400 + (int64_t)r.below(4); break;
		case 1: t = days_of(r.range(1970, 9999), (int)r.range(1, 12), 1) * 86400 + r.range(-2, 2); if (t < 0) t = 0; break;
		case 2: t = (int64_t)r.below(END); break;
		case 3: t = (int64_t)r.below(3000000000000ll); break;
		default: t = 1500000000 + (int64_t)r.below(500000000);
		}
		off = r.chance(60) ? roff(r) : r.chance(70) ? (int32_t)r.range(-86399, 86399) : (int32_t)r.range(-10000000, 10000000);
		struct tm *tm = (struct tm *)malloc(sizeof(*tm));
		memset(tm, 0x5a, sizeof(*tm));
		int ret = time_local_to_tm((uint64_t)t, off, tm);
		Civil c = civil(t + off);
		bool ok = ret == 0 && tm->tm_year + 1900 == c.y && tm->tm_mon + 1 == c.mo && tm->tm_mday == c.d && tm->tm_hour == c.h && tm->tm_min == c.mi && tm->tm_sec == c.s && tm->tm_wday == c.wd && tm->tm_yday == c.yd && tm->tm_gmtoff == off;
		CHECK(ok, "wrong broken-down time", "%lld offset %d: ret %d, %d-%02d-%02d %02d:%02d:%02d wday %d yday %d gmtoff %ld", (long long)t, off, ret, tm->tm_year + 1900, tm->tm_mon + 1, tm->tm_mday, tm->tm_hour, tm->tm_min, tm->tm_sec, tm->tm_wday, tm->tm_yday, (long)tm->tm_gmtoff);
		if (ok) {
			uint64_t e = 77; int32_t o = 77;
			int miss = r.chance(10) ? (int)r.range(1, 2) : 0;
			/* only the calendar fields and the offset say which instant it is */
			if (r.chance(50)) { tm->tm_isdst = (int)r.range(-1, 1); tm->tm_wday = (int)r.range(-1, 7); tm->tm_yday = (int)r.range(-1, 366); tm->tm_zone = r.chance(50) ? "XXX" : nullptr; }
			ret = time_local_from_tm(tm, miss == 1 ? nullptr : &e, miss == 2 ? nullptr : &o);
			CHECK(ret == 0 && (miss == 1 || e == (uint64_t)t) && (miss == 2 || o == off), "broken-down time does not convert back", "%lld offset %d: ret %d, %llu %d", (long long)t, off, ret, (unsigned long long)e, o);
		}
		free(tm);
		eval(mix(mix(1, (uint64_t)(t / 86400)), (uint64_t)off));
		stat("broken-down times");
		if (it < 3) sample(fmt("%lld offset %d", (long long)t, off));
	}
	/* system time, through stand-ins */
	/* dst: offset in summer, which goes from sw to we (month, week or 5 for the last, Sunday, seconds of the UTC day) */
	struct Season { int m, w; int64_t at; };
	struct Zone { const char *tz; int off, dst; Season s, e; };
	static const Zone zones[] = {
		{"UTC0", 0, 0, {}, {}}, {"XXX-1", 3600, 0, {}, {}}, {"XXX5", -18000, 0, {}, {}}, {"XXX-5:30", 19800, 0, {}, {}},
		{"XXX3:30", -12600, 0, {}, {}}, {"XXX-12:45", 45900, 0, {}, {}}, {"XXX12", -43200, 0, {}, {}}, {"XXX-14", 50400, 0, {}, {}},
		{"XXX0:01", -60, 0, {}, {}}, {"XXX-0:00:30", 30, 0, {}, {}},
		/* from 2:00 standard time to 3:00 summer time: both at 1:00 UTC */
		{"CET-1CEST,M3.5.0,M10.5.0/3", 3600, 7200, {3, 5, 3600}, {10, 5, 3600}},
		{"PST8PDT,M3.2.0,M11.1.0", -28800, -25200, {3, 2, 10 * 3600}, {11, 1, 9 * 3600}},
		/* south: 2:00 standard is 14:00 UTC the day before, 3:00 summer too */
		{"NZST-12NZDT,M9.5.0,M4.1.0/3", 43200, 46800, {9, 5, -10 * 3600}, {4, 1, -10 * 3600}},
		{"LHST-10:30LHDT-11,M10.1.0,M4.1.0", 37800, 39600, {10, 1, 7200 - 37800}, {4, 1, 7200 - 39600}},
	};
	static const int NZ = sizeof zones / sizeof *zones;
	auto change = [](int64_t y, const Season &s) {
		int64_t first = days_of(y, s.m, 1);
		int64_t d = first + (int64_t)((7 - (first + 4) % 7) % 7) + 7 * (s.w - 1);
		if (s.w == 5) { d = first + (int64_t)((7 - (first + 4) % 7) % 7) + 28; if (civil(d * 86400).mo != s.m) d -= 7; }
		return d * 86400 + s.at;
	};
	auto offset_at = [&](const Zone &z, int64_t t) {
		if (!z.dst) return z.off;
		int64_t y = civil(t + z.off).y, a = change(y, z.s), b = change(y, z.e);
		bool in = a < b ? t >= a && t < b : t >= a || t < b;
		return in ? z.dst : z.off;
	};
	int64_t near_ = 0;
	for (int zz = 0; zz < 2 * NZ; zz++) {
		int zi = zz < NZ ? zz : (int)r.below((uint64_t)NZ);
		const Zone *zone = &zones[zi];
		setenv("TZ", zone->tz, 1);
		tzset();
		if (zz == 0) for (int k = 0; k < 20000; k++) { /* the oracle against the C library */
			time_t t = (time_t)r.below(3000000000ull);
			struct tm tm;
			const Zone &z = zones[(k / 500) % NZ];
			if (k % 500 == 0) { setenv("TZ", z.tz, 1); tzset(); }
			if (z.dst && r.chance(50)) t = change(r.range(1971, 2060), r.chance(50) ? z.s : z.e) + r.range(-3, 3);
			localtime_r(&t, &tm);
			if (tm.tm_gmtoff != offset_at(z, t)) harness_error(fmt("offsets: %s at %lld: %ld, %d", z.tz, (long long)t, (long)tm.tm_gmtoff, offset_at(z, t)));
		}
		if (zz == 0) { setenv("TZ", zone->tz, 1); tzset(); }
		for (int k = 0; k < (conf().thorough ? 2000 : 300); k++) {
			if (zz >= NZ && r.chance(20)) { /* the zone changes, the time hardly does */
				zi = (int)r.below((uint64_t)NZ);
				zone = &zones[zi];
				setenv("TZ", zone->tz, 1);
				tzset();
				stat("zone changes");
			}
			int z = zi;
			wnow_us = (I)r.below(END) * 1000000 + (I)(r.chance(40) ? (int64_t)r.below(2000) : r.chance(40) ? 999999 - (int64_t)r.below(2000) : (int64_t)r.below(1000000));
			if (zone->dst && r.chance(40)) {
				near_ = change(r.range(1971, 2060), r.chance(50) ? zone->s : zone->e) + (r.chance(50) ? r.range(-2, 1) : r.range(-4000, 4000));
				wnow_us = (I)near_ * 1000000 + wnow_us % 1000000;
				stat("times around a change of season");
			} else if (near_ && r.chance(60)) { /* shortly after the last one */
				near_ += r.chance(50) ? r.range(0, 3) : r.range(-100, 4000);
				if (near_ < 0) near_ = 0;
				wnow_us = (I)near_ * 1000000 + wnow_us % 1000000;
			} else near_ = (int64_t)(wnow_us / 1000000);
			get_errno = r.chance(8) ? (r.chance(50) ? EINVAL : EFAULT) : 0;
			uint64_t e = 77; uint16_t ms = 7777; int32_t o = 99;
			bool withms = r.chance(70);
			int miss = (int)r.below(5); /* 1: no epoch, 2: no offset, 3: neither */
			if (miss == 4) miss = 0;
			uint64_t *pe = miss == 1 || miss == 3 ? nullptr : &e;
			int32_t *po = miss >= 2 ? nullptr : &o;
			bool pms = withms && r.chance(85);
			wstep_us = r.chance(40) ? (I)r.below(r.chance(50) ? 2000 : 600000) : 0;
			I w0 = wnow_us;
			won = true;
			int ret = withms ? time_local_ms_get(pe, pms ? &ms : nullptr, po) : time_local_get(pe, po);
			won = false;
			I w1 = wnow_us; /* not before the last reading */
			wnow_us = w0;
			if (miss == 3) CHECK(ret == -EINVAL, "missing arguments accepted", "%d", ret);
			else if (get_errno) CHECK(ret == -get_errno, "clock failure not reported", "%d", ret);
			else {
				CHECK(ret == 0 && (!pe || (e >= (uint64_t)(w0 / 1000000) && e <= (uint64_t)(w1 / 1000000))), "wrong system time", "%lld us: ret %d, %llu", (long long)wnow_us, ret, (unsigned long long)e);
				if (wstep_us) {
					stat("times read while time passes");
					if (pms && pe) CHECK(ms < 1000 && (I)e * 1000 + ms >= w0 / 1000 && (I)e * 1000 + ms <= w1 / 1000, "seconds and milliseconds of different instants", "%lld to %lld us: %llu s %d ms", (long long)w0, (long long)w1, (unsigned long long)e, ms);
				} else if (pms) CHECK(ms == (int)(wnow_us % 1000000 / 1000), "wrong milliseconds of the system time", "%lld us: %d", (long long)wnow_us, ms);
				if (po) CHECK(o == offset_at(*zone, (int64_t)(w0 / 1000000)) || (wstep_us && (o == offset_at(*zone, (int64_t)(w1 / 1000000)) || w1 - w0 > 1000000)), "wrong offset of the system time", "zone %s at %lld: %d", zone->tz, (long long)(wnow_us / 1000000), o);
			}
			eval(mix(mix(2, (uint64_t)z), mix((uint64_t)(wnow_us / 1000), (uint64_t)(miss * 4 + withms * 2 + pms))));
			stat(get_errno ? "failing clock" : "system times read");
			/* setting */
			uint64_t s = r.chance(50) ? (uint64_t)r.below(END) : r.u64() >> r.range(2, 63);
			int32_t so = r.chance(50) ? roff(r) : (int32_t)r.u64();
			static const int errs[] = {0, 0, 0, EPERM, EINVAL, EFAULT};
			set_errno = errs[r.below(6)];
			sets.clear();
			ret = time_local_set(s, so);
			CHECK(ret == -set_errno, "result of setting the system time", "errno %d: %d", set_errno, ret);
			CHECK(sets.size() == 1 && sets[0].first == (int64_t)s && sets[0].second == 0, "system time set to something else", "%llu offset %d: %zu calls, %lld s %lld ns", (unsigned long long)s, so, sets.size(), sets.empty() ? -1 : (long long)sets[0].first, sets.empty() ? -1 : (long long)sets[0].second);
			eval(mix(mix(3, s), mix((uint64_t)(uint32_t)so, (uint64_t)set_errno)));
			stat(set_errno ? "refused settings" : "settings");
		}
	}
	struct tm tm; memset(&tm, 0, sizeof(tm)); tm.tm_mday = 1;
	uint64_t e; int32_t o;
	CHECK(time_local_to_tm(5, 0, nullptr) == -EINVAL && time_local_from_tm(nullptr, &e, &o) == -EINVAL && time_local_from_tm(&tm, nullptr, nullptr) == -EINVAL, "missing arguments accepted", "tm");
}
void mon::run()
{
	watchdog(30);
	/* results must not depend on the process time zone or a stale errno */
	static const char *tz[] = {"UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "PST8PDT,M3.2.0,M11.1.0", "XXX-12:45", "NST3:30"};
	setenv("TZ", tz[rng().below(5)], 1);
	tzset();
	/* the oracle's calendar against the C library's */
	for (int i = 0; i < 2000; i++) {
		time_t t = (time_t)rng().below((uint64_t)END * 2) - END / 2;
		struct tm tm;
		gmtime_r(&t, &tm);
		Civil c = civil(t);
		if (tm.tm_year + 1900 != c.y || tm.tm_mon + 1 != c.mo || tm.tm_mday != c.d || tm.tm_yday != c.yd || tm.tm_wday != c.wd || days_of(c.y, c.mo, c.d) * 86400 + c.h * 3600 + c.mi * 60 + c.s != t)
			harness_error("calendar");
	}
	if (conf().mode == "format") mode_format();
	else if (conf().mode == "hostile") mode_hostile();
	else if (conf().mode == "ctx") mode_ctx();
	else mode_local();
}
