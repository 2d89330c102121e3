/* C32, C33: UTF-8 sanitising and validation against an own decoder. */
#include "mon.h"
#include <wchar.h>
#include "futils/string.h"
using namespace mon;

typedef std::vector<uint32_t> CP;
static int enc(uint32_t c, char *o)
{
	if (c < 0x80) { o[0] = (char)c; return 1; }
	if (c < 0x800) { o[0] = (char)(0xc0 | c >> 6); o[1] = (char)(0x80 | (c & 63)); return 2; }
	if (c < 0x10000) { o[0] = (char)(0xe0 | c >> 12); o[1] = (char)(0x80 | (c >> 6 & 63)); o[2] = (char)(0x80 | (c & 63)); return 3; }
	o[0] = (char)(0xf0 | c >> 18); o[1] = (char)(0x80 | (c >> 12 & 63)); o[2] = (char)(0x80 | (c >> 6 & 63)); o[3] = (char)(0x80 | (c & 63));
	return 4;
}
static std::string encs(const CP &v) { std::string s; char b[4]; for (auto c : v) s.append(b, (size_t)enc(c, b)); return s; }
/* RFC 3629 */
static bool dec(const std::string &s, CP *out)
{
	size_t i = 0;
	out->clear();
	while (i < s.size()) {
		unsigned char c = (unsigned char)s[i];
		int n;
		uint32_t v, lo;
		if (c < 0x80) { n = 0; v = c; lo = 0; }
		else if (c < 0xc2) return false;
		else if (c < 0xe0) { n = 1; v = c & 31; lo = 0x80; }
		else if (c < 0xf0) { n = 2; v = c & 15; lo = 0x800; }
		else if (c < 0xf5) { n = 3; v = c & 7; lo = 0x10000; }
		else return false;
		if (s.size() - i - 1 < (size_t)n) return false;
		for (int k = 1; k <= n; k++) { unsigned char d = (unsigned char)s[i + (size_t)k]; if ((d & 0xc0) != 0x80) return false; v = v << 6 | (d & 63); }
		if (v < lo || v > 0x10ffff || (v >= 0xd800 && v < 0xe000)) return false;
		out->push_back(v);
		i += (size_t)n + 1;
	}
	return true;
}
static uint32_t rcp(Rng &r)
{
	static const uint32_t edge[] = {1, 0x1f, 0x20, 0x22, 0x2a, 0x2f, 0x3a, 0x3c, 0x3e, 0x3f, 0x5c, 0x7c, 0x7f, 0x80, 0x9f, 0xa0, 0xff, 0x100, 0x12a, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1002a, 0xe0041, 0x1f600, 0xfffff, 0x100000, 0x10ffff, 0x301, 0x200d};
	uint32_t c;
	switch (r.below(7)) {
	case 0: return edge[r.below(sizeof(edge) / sizeof(*edge))];
	case 1: return 0x80 + (uint32_t)r.below(0x780);
	case 2: c = 0x800 + (uint32_t)r.below(0xf800); return c >= 0xd800 && c < 0xe000 ? 0x20ac : c;
	case 3: return 0x10000 + (uint32_t)r.below(0x100000);
	case 4: return 1 + (uint32_t)r.below(0x1f);
	default: return 0x20 + (uint32_t)r.below(0x5f);
	}
}
static CP rtext(Rng &r, size_t max)
{
	size_t n = r.below(4) ? r.below(12) : r.below(max);
	CP v;
	int mode = (int)r.below(4);
	for (size_t i = 0; i < n; i++) v.push_back(mode == 0 ? 0x20 + (uint32_t)r.below(0x5f) : mode == 1 ? 0x10000 + (uint32_t)r.below(0x100000) : rcp(r));
	return v;
}
static std::string mutate(Rng &r, std::string s)
{
	static const unsigned char al[] = {0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xf7, 0xf8, 0xfb, 0xfc, 0xfd, 0xfe, 0xff, 0xa0, 0x9f, 0x90, 0x8f, 'a'};
	static const char *seq[] = {"\xc0\x80", "\xe0\x80\x80", "\xe0\x9f\xbf", "\xed\xa0\x80", "\xed\xbf\xbf", "\xf0\x80\x80\x80", "\xf0\x8f\xbf\xbf", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xf7\xbf\xbf\xbf", "\xf8\x88\x80\x80\x80", "\xfc\x84\x80\x80\x80\x80", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\xfe", "\xc1\xbf", "\xed\xa0\xbd\xed\xb8\x80"};
	int n = 1 + (int)r.below(2);
	for (int i = 0; i < n; i++) {
		size_t at = r.chance(40) ? s.size() : r.below(s.size() + 1);
		switch (r.below(5)) {
		case 0: s.insert(at, 1, (char)al[r.below(sizeof(al))]); break;
		case 1: s.insert(at, seq[r.below(sizeof(seq) / sizeof(*seq))]); break;
		case 2: if (!s.empty()) s.erase(r.below(s.size()), 1); break;
		case 3: if (!s.empty()) s[r.below(s.size())] = (char)al[r.below(sizeof(al))]; break;
		default: if (!s.empty()) s.resize(s.size() - 1);
		}
	}
	return s;
}
static std::wstring rforbid(Rng &r, const CP &text)
{
	if (r.chance(30)) return FUTILS_STRING_EXFAT_FORBIDDEN;
	std::wstring f;
	size_t n = r.below(6);
	if (text.size() < 100 && r.below(100) == 0) n = r.below(5000);
	for (size_t i = 0; i < n; i++) {
		uint32_t c = text.empty() || r.chance(40) ? rcp(r) : text[r.below(text.size())];
		if (n > 100 && r.chance(70)) c = 0x20000 + (uint32_t)r.below(0x80000); /* long sets: mostly characters which are rare */
		if (r.chance(20)) c ^= 0x10000;     /* look-alikes modulo 16 bits or 8 bits */
		else if (r.chance(10)) c ^= 0x100;
		if (!c || c > 0x10ffff) c = 0x2a;
		f += (wchar_t)c;
	}
	return f;
}
/* texts around the limits of 8, 15, 16 and 17 bit lengths, and long ones */
static CP ltext(Rng &r)
{
	size_t n;
	switch (r.below(8)) {
	case 0: n = 65536 + (size_t)r.range(-6, 6); break;
	case 1: n = 32768 + (size_t)r.range(-6, 6); break;
	case 2: n = 16384 + (size_t)r.range(-6, 6); break;
	case 3: n = 256 + (size_t)r.range(-6, 6); break;
	case 4: n = 4096 + (size_t)r.range(-6, 6); break;
	case 5: n = 131072 + (size_t)r.range(-6, 6); break;
	case 6: n = 65536 / 3 + (size_t)r.range(-4, 4); break;
	default: n = r.chance(10) ? 3000000 : 200 + r.below(20000);
	}
	CP v;
	int mode = (int)r.below(5);
	for (size_t i = 0; i < n; i++) v.push_back(mode == 0 ? 0x20 + (uint32_t)r.below(0x5f) : mode == 1 ? 0x10000 + (uint32_t)r.below(0x100000) : mode == 2 ? 0x4e00 + (uint32_t)r.below(0x5000) : mode == 3 ? 0x80 + (uint32_t)r.below(0x700) : rcp(r));
	return v;
}
/* exactly sized copies: any access outside is seen */
struct Ex { char *p, *h = nullptr; explicit Ex(const std::string &s) { if (s.size() < 20000 && rng().chance(20)) { p = (char *)read_only<0>(s.c_str(), s.size() + 1); return; } p = h = (char *)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); } ~Ex() { free(h); } };
struct Wx { wchar_t *p, *h = nullptr; explicit Wx(const std::wstring &s) { size_t n = (s.size() + 1) * sizeof(wchar_t); if (n < 20000 && rng().chance(20)) { p = (wchar_t *)read_only<1>(s.c_str(), n, sizeof(wchar_t)); return; } p = h = (wchar_t *)malloc(n); memcpy(p, s.c_str(), n); } ~Wx() { free(h); } };

static std::string nz(std::string s) { size_t z = s.find('\0'); if (z != std::string::npos) s.resize(z); return s; }
/* the whole of Unicode in texts of 251 characters, and every character of the BMP (and a part of the others) as a
 * replacement */
static void whole_range(bool sanitise)
{
	Rng &r = rng();
	CP all;
	for (uint32_t c = 1; c <= 0x10ffff; c++) if (c < 0xd800 || c > 0xdfff) all.push_back(c);
	const size_t B = 251;
	for (size_t at = 0; at < all.size(); at += B) {
		CP t(all.begin() + (long)at, all.begin() + (long)std::min(all.size(), at + B));
		std::string in = encs(t), want;
		size_t a = r.below(t.size()), b = r.below(t.size());
		std::wstring none, some;
		for (uint32_t x : {0x10000u, 0x100u, 0x8000u, 0x80u}) { uint32_t y = t[a] ^ x; if (y && y <= 0x10ffff && (y < 0xd800 || y > 0xdfff) && (y < t[0] || y > t.back())) none += (wchar_t)y; }
		some = none + (wchar_t)t[a] + (wchar_t)t[b];
		Ex x(in); Wx fs(some);
		if (!sanitise) {
			int r1 = futils_string_check_utf8(x.p, in.size() + 1, t.size(), none.c_str()), r2 = futils_string_check_utf8(x.p, 0, 0, fs.p), r3 = futils_string_check_utf8(x.p, in.size(), 0, nullptr), r4 = futils_string_check_utf8(x.p, 0, t.size() - 1, nullptr);
			CHECK(r1 == 0, "sane text refused", "U+%x to U+%x: %d", t[0], t.back(), r1);
			CHECK(r2 == -EPROTO, "text with a forbidden character accepted", "U+%x to U+%x, U+%x and U+%x forbidden: %d", t[0], t.back(), t[a], t[b], r2);
			CHECK(r3 == -E2BIG && (t.size() < 2 || r4 == -E2BIG), "text beyond a limit accepted", "U+%x to U+%x: %d %d", t[0], t.back(), r3, r4);
		} else {
			std::string out(in.size() + 1, 'Z');
			int r1 = futils_string_sanitize_utf8(x.p, &out[0], out.size(), none.c_str(), L'_');
			CHECK(r1 == (int)in.size() && !strcmp(out.c_str(), in.c_str()), "sanitised text differs", "U+%x to U+%x: %d", t[0], t.back(), r1);
			CP w = t;
			w[a] = w[b] = '_';
			want = encs(w);
			r1 = futils_string_sanitize_utf8(x.p, &out[0], out.size(), fs.p, L'_');
			CHECK(r1 == (int)want.size() && !strcmp(out.c_str(), want.c_str()), "sanitised text differs", "U+%x to U+%x, U+%x and U+%x replaced: %d", t[0], t.back(), t[a], t[b], r1);
		}
		stat("characters of the whole range", (long)t.size());
		eval(mix(0xb10c, at));
		if (at / B % 64 == 0) tick();
	}
	for (uint32_t c = 1; sanitise && c <= 0x10ffff; c += c < 0x10000 || conf().thorough ? 1 : 31) {
		if (c >= 0xd800 && c <= 0xdfff) { c = 0xdfff; continue; }
		char o[12], k[8];
		size_t l = (size_t)enc(c, k);
		k[l] = 0;
		int ret = futils_string_sanitize_utf8("a/b", o, l + 3, L"/", (wchar_t)c);
		CHECK(ret == (int)l + 2 && o[0] == 'a' && !memcmp(o + 1, k, l) && !strcmp(o + 1 + l, "b"), "sanitised text differs", "'a/b' with / replaced by U+%x: %d", c, ret);
		stat("replacements by every character");
		if (c % 5000 == 0) tick();
	}
}
static void mode_sanitize()
{
	Rng &r = rng();
	long n = conf().thorough ? 6000000 : 150000;
	CP warm; std::string ws;
	char wb[16];
	futils_string_sanitize_utf8("abc", wb, 16, nullptr, L'_');
	size_t heap = heap_bytes();
	long lt = conf().thorough ? 20000 : 150;
	for (long it = 0; it < n + lt; it++) {
		bool lng = it >= n;
		CP t = lng ? ltext(r) : rtext(r, r.chance(3) ? 3000 : 70);
		if (lng) stat("long texts");
		std::string in = encs(t);
		if (r.chance(25)) { in = nz(mutate(r, in)); }
		else if (r.chance(5)) { in = nz(r.bytes(r.below(20))); }
		CP d;
		bool ok = dec(in, &d);
		std::wstring fb = rforbid(r, d);
		bool useff = r.chance(85);
		uint32_t rep = r.chance(60) ? '_' : rcp(r);
		CP w = d;
		size_t nrep = 0;
		if (ok && useff) for (auto &c : w) if (fb.find((wchar_t)c) != std::wstring::npos) { c = rep; nrep++; }
		std::string full = ok ? encs(w) : "";
		size_t size;
		bool vast = r.below(50) == 0;
		if (vast) { size = huge_size(r); stat("buffers beyond 31 bits"); }
		else switch (r.below(6)) {
		case 0: size = full.size() + 1; break;
		case 1: size = full.size() + 2 + r.below(8); break;
		case 2: size = full.size(); break;
		case 3: size = r.below(4); break;
		default: size = r.below(full.size() + 3);
		}
		std::string want;
		if (ok) { char b[4]; for (auto c : w) { size_t k = (size_t)enc(c, b); if (want.size() + k + 1 > size) break; want.append(b, k); } }
		stat_max("max:characters", (int64_t)d.size());
		Ex x(in); Wx f(fb);
		char *out = vast ? huge_room() : (char *)malloc(size ? size : 1);
		memset(out, 0x5a, vast ? full.size() + 8 : size ? size : 1);
		size_t h0 = heap_bytes();
		int ret = futils_string_sanitize_utf8(x.p, out, size, useff ? f.p : nullptr, (wchar_t)rep);
		size_t h1 = heap_bytes();
		if (size < 2) {
			CHECK(ret < 0, "too small buffer accepted", "size %zu: %d", size, ret);
			if (!size) CHECK(out[0] == 0x5a, "buffer of size 0 written", "-");
			stat("too small buffers");
		} else if (!ok) {
			CHECK(ret < 0, "malformed text sanitised", "'%s': %d", esc(in).c_str(), ret);
			stat("malformed refused");
		} else {
			bool z = memchr(out, 0, vast ? full.size() + 8 : size) != nullptr;
			std::string got = z ? out : "";
			CHECK(z, "output not terminated within its size", "'%s' size %zu: %d", esc(in).c_str(), size, ret);
			CHECK(ret == (int)got.size() && got == want, want.size() < full.size() ? "cut text differs" : "sanitised text differs",
				"'%s' size %zu, %zu replaced by U+%x: ret %d '%s', expected '%s'", esc(in).c_str(), size, nrep, rep, ret, esc(got).c_str(), esc(want).c_str());
			CP dd;
			CHECK(dec(got, &dd), "output is not valid UTF-8", "'%s' size %zu", esc(in).c_str(), size);
			stat(want.size() < full.size() ? "cut" : "whole");
			if (nrep) stat("with replacements");
			if (want.size() + 1 < size && want.size() < full.size()) stat("cut inside a character");
		}
		if (h1 != h0) { /* again: the statistics are those of the whole process */
			h0 = heap_bytes();
			futils_string_sanitize_utf8(x.p, out, size, useff ? f.p : nullptr, (wchar_t)rep);
			h1 = heap_bytes();
		}
		if (!vast) free(out);
		CHECK(h1 == h0, "memory leaked by sanitising", "'%s' size %zu: %zd bytes", esc(in).c_str(), size, (ssize_t)(h1 - h0));
		eval(mix(mix(hstr(in), size), mix(hstr(fb.data(), fb.size() * sizeof(wchar_t)), useff ? rep : 0)), !in.empty());
		if (it < 5) sample(fmt("'%s' size %zu -> %d", esc(in).c_str(), size, ret));
	}
	(void)heap;
	char o[8];
	CHECK(futils_string_sanitize_utf8(nullptr, o, 8, nullptr, L'_') < 0 && futils_string_sanitize_utf8("a", nullptr, 8, nullptr, L'_') < 0, "missing argument accepted", "-");
}
static void mode_check()
{
	Rng &r = rng();
	long n = conf().thorough ? 6000000 : 130000;
	futils_string_check_utf8("abc", 0, 0, nullptr);
	long lt = conf().thorough ? 20000 : 150;
	for (long it = 0; it < n + lt; it++) {
		bool lng = it >= n;
		CP t = lng ? ltext(r) : rtext(r, r.chance(3) ? 2000 : 60);
		if (lng) stat("long texts");
		std::string in = encs(t);
		if (r.chance(30)) in = nz(mutate(r, in));
		else if (r.chance(5)) in = nz(r.bytes(r.below(20)));
		CP d;
		bool ok = dec(in, &d);
		size_t mb = r.chance(40) ? 0 : r.chance(70) ? in.size() + (size_t)r.range(in.size() ? -1 : 0, 3) : r.below(100);
		size_t mw = r.chance(40) ? 0 : r.chance(70) ? d.size() + (size_t)r.range(d.size() ? -1 : 0, 2) : r.below(60);
		if (r.chance(2)) mb = SIZE_MAX;
		if (r.chance(2)) mw = SIZE_MAX;
		if (r.chance(4)) { mb = ((size_t)1 << (r.chance(50) ? 31 : r.chance(50) ? 32 : 33 + r.below(31))) + r.below(9); stat("limits beyond 31 bits"); }
		if (r.chance(4)) { mw = ((size_t)1 << (r.chance(50) ? 31 : r.chance(50) ? 32 : 33 + r.below(31))) + r.below(9); stat("limits beyond 31 bits"); }
		std::wstring fb = rforbid(r, r.chance(30) ? d : CP());
		bool useff = r.chance(70);
		bool toolong = mb && in.size() + 1 > mb, toomany = ok && mw && d.size() > mw, bad = false;
		if (ok && useff) for (auto c : d) if (fb.find((wchar_t)c) != std::wstring::npos) bad = true;
		Ex x(in); Wx f(fb);
		size_t h0 = heap_bytes();
		int ret = futils_string_check_utf8(x.p, mb, mw, useff ? f.p : nullptr);
		size_t h1 = heap_bytes();
		if (h1 != h0) { /* again: the statistics are those of the whole process */
			h0 = heap_bytes();
			ret = futils_string_check_utf8(x.p, mb, mw, useff ? f.p : nullptr);
			h1 = heap_bytes();
		}
		stat_max("max:characters", (int64_t)d.size());
		std::string ds = fmt("'%s' (%zu bytes, %zu characters) limits %zu %zu: %d", esc(in).c_str(), in.size(), d.size(), mb, mw, ret);
		bool sane = ok && !toolong && !toomany && !bad;
		if (sane) CHECK(ret == 0, "sane text refused", "%s", ds.c_str());
		else {
			CHECK(ret < 0, !ok ? "malformed text accepted" : toolong || toomany ? "text beyond a limit accepted" : "text with a forbidden character accepted", "%s", ds.c_str());
			/* the reason is one that applies */
			bool r1 = ret == -E2BIG && (toolong || toomany || (!ok && mw)), r2 = ret == -EPROTO && bad, r3 = !ok && ret != -E2BIG && ret != -EPROTO && ret < 0;
			CHECK(ret >= 0 || r1 || r2 || r3, "refused for another reason", "%s; too long %d, too many %d, forbidden %d, malformed %d", ds.c_str(), toolong, toomany, bad, !ok);
		}
		CHECK(h1 == h0, "memory leaked by checking", "%s", ds.c_str());
		stat(sane ? "sane" : !ok ? "malformed" : toolong ? "too long" : toomany ? "too many" : "forbidden");
		eval(mix(mix(hstr(in), mix(mb, mw)), useff ? hstr(fb.data(), fb.size() * sizeof(wchar_t)) : 0), !in.empty());
		if (it < 5) sample(ds);
	}
	/* every character on its own, and every pair of leading bytes */
	for (uint32_t c = 1; c <= 0x10ffff; c += conf().thorough ? 1 : c < 0x900 ? 1 : 37) {
		if (c >= 0xd800 && c < 0xe000) { c = 0xdfff; continue; }
		char b[8]; int k = enc(c, b); b[k] = 0;
		int ret = futils_string_check_utf8(b, (size_t)k + 1, 1, nullptr);
		CHECK(ret == 0, "sane text refused", "U+%x: %d", c, ret);
		wchar_t f[2] = {(wchar_t)c, 0};
		ret = futils_string_check_utf8(b, 0, 0, f);
		CHECK(ret == -EPROTO, "text with a forbidden character accepted", "U+%x: %d", c, ret);
		wchar_t f2[3] = {(wchar_t)(c ^ 0x100), c ^ 0x10000 ? (wchar_t)(c ^ 0x10000) : (wchar_t)'*', 0};
		if (f2[0]) { ret = futils_string_check_utf8(b, 0, 0, f2); CHECK(ret == (f2[0] == (wchar_t)c || f2[1] == (wchar_t)c ? -EPROTO : 0), "sane text refused", "U+%x with look-alikes forbidden: %d", c, ret); }
		stat("single characters");
		if (c % 5000 == 0) tick();
	}
	for (unsigned a = 0x80; a < 0x100; a++) for (unsigned b = 1; b < 0x100; b++) {
		for (int tail = 0; tail < 3; tail++) {
			std::string s; s += (char)a; s += (char)b;
			for (int i = 0; i < tail; i++) s += (char)0x80;
			CP d;
			bool ok = dec(s, &d);
			int ret = futils_string_check_utf8(s.c_str(), 0, 0, nullptr);
			CHECK((ret == 0) == ok, ok ? "sane text refused" : "malformed text accepted", "'%s': %d", esc(s).c_str(), ret);
		}
		stat("lead byte pairs");
		tick();
	}
	CHECK(futils_string_check_utf8(nullptr, 0, 0, nullptr) < 0, "missing argument accepted", "-");
}
void mon::run()
{
	watchdog(30);
	whole_range(conf().mode == "sanitize");
	if (conf().mode == "sanitize") mode_sanitize();
	else mode_check();
}
