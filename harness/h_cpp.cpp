/* C34: C++ string and path helpers against their definitions. */
#include "mon.h"
#include <functional>
#include "futils/fs.hpp"
#include "futils/string.hpp"
using namespace mon;

static std::string rstr(Rng &r, size_t max)
{
	std::string s;
	size_t n = r.below(max + 1);
	int mode = (int)r.below(4);
	for (size_t i = 0; i < n; i++)
		s += mode == 0 ? (char)('a' + r.below(2)) : mode == 1 ? (char)r.below(256) : mode == 2 ? "aA\0b\xe9\xc9Z@[`{z"[r.below(13)] : (char)('A' + r.below(58));
	return s;
}
static bool pre(const std::string &f, const std::string &p)
{
	if (p.size() > f.size()) return false;
	for (size_t i = 0; i < p.size(); i++) if (f[i] != p[i]) return false;
	return true;
}
static bool suf(const std::string &f, const std::string &p)
{
	if (p.size() > f.size()) return false;
	for (size_t i = 0; i < p.size(); i++) if (f[f.size() - p.size() + i] != p[i]) return false;
	return true;
}
/* POSIX definitions */
static std::string pbase(std::string s)
{
	if (s.empty()) return ".";
	while (s.size() > 1 && s.back() == '/') s.pop_back();
	if (s == "/") return "/";
	size_t k = s.rfind('/');
	return k == std::string::npos ? s : s.substr(k + 1);
}
static std::string pdir(std::string s)
{
	if (s.empty()) return ".";
	size_t n = s.size();
	while (n > 0 && s[n - 1] == '/') n--;
	if (!n) return "/";
	while (n > 0 && s[n - 1] != '/') n--;
	if (!n) return ".";
	while (n > 0 && s[n - 1] == '/') n--;
	return n ? s.substr(0, n) : "/";
}
static void path(const std::string &p)
{
	std::string a = p;
	size_t h = heap_bytes();
	bool d, b;
	std::string gd, gb;
	{
		std::string x = futils::fs::dirname(a), y = futils::fs::basename(a);
		std::string wd = pdir(p), wb = pbase(p);
		bool dbl = p.size() >= 2 && p[0] == '/' && p[1] == '/' && (p.size() == 2 || p[2] != '/');
		d = x == wd || (dbl && wd == "/" && x == "//");
		b = y == wb || (p == "//" && y == "//");
		CHECK(d, "dirname differs from POSIX", "'%s': '%s', expected '%s'", esc(p).c_str(), esc(x).c_str(), esc(wd).c_str());
		CHECK(b, "basename differs from POSIX", "'%s': '%s', expected '%s'", esc(p).c_str(), esc(y).c_str(), esc(wb).c_str());
	}
	CHECK(a == p, "path argument modified", "'%s'", esc(p).c_str());
	CHECK(heap_bytes() == h, "memory leaked by a path helper", "'%s': %zd bytes", esc(p).c_str(), (ssize_t)(heap_bytes() - h));
	eval(mix(7, hstr(p)), !p.empty());
	stat("paths");
}
void mon::run()
{
	watchdog(30);
	Rng &r = rng();
	long n = conf().thorough ? 20000000 : 500000;
	for (long it = 0; it < n; it++) {
		std::string f = rstr(r, r.chance(3) ? 300 : 12), p;
		switch (r.below(6)) {
		case 0: p = rstr(r, 6); break;
		case 1: p = f.substr(0, r.below(f.size() + 1)); break;
		case 2: p = f.substr(r.below(f.size() + 1)); break;
		case 3: p = f; break;
		case 4: p = f + rstr(r, 2); break;
		default: p = rstr(r, 2) + f.substr(0, r.below(f.size() + 1)); if (!p.empty() && r.chance(50)) p[r.below(p.size())] ^= (char)(1 << r.below(8));
		}
		if (!p.empty() && r.chance(15)) p[r.below(p.size())] = '\0';
		std::string f0 = f, p0 = p;
		size_t h = heap_bytes();
		bool s = futils::string::startsWith(f, p), e = futils::string::endsWith(f, p);
		CHECK(heap_bytes() == h, "memory leaked by a string helper", "'%s'", esc(f).c_str());
		CHECK(s == pre(f0, p0), "startsWith differs", "'%s' '%s': %d", esc(f0).c_str(), esc(p0).c_str(), s);
		CHECK(e == suf(f0, p0), "endsWith differs", "'%s' '%s': %d", esc(f0).c_str(), esc(p0).c_str(), e);
		{
			std::string l = futils::string::convertToLowerCase(f), w = f0;
			for (auto &c : w) if (c >= 'A' && c <= 'Z') c = (char)(c + 32);
			CHECK(l == w, "convertToLowerCase differs", "'%s': '%s'", esc(f0).c_str(), esc(l).c_str());
		}
		CHECK(f == f0 && p == p0, "argument modified", "'%s'", esc(f0).c_str());
		eval(mix(hstr(f0), hstr(p0)), !f0.empty());
		if (s) stat("starts");
		if (e) stat("ends");
		stat("strings");
		if (it < 3) sample(fmt("'%s' '%s' starts %d ends %d", esc(f0).c_str(), esc(p0).c_str(), s, e));
	}
	for (int c = 0; c < 256; c++) {
		std::string l = futils::string::convertToLowerCase(std::string(1, (char)c));
		CHECK(l.size() == 1 && l[0] == (char)(c >= 'A' && c <= 'Z' ? c + 32 : c), "convertToLowerCase differs", "byte %d", c);
	}
	/* all paths over {/, a, .} up to 7 (9) characters, then longer ones */
	std::function<void(std::string, int)> go = [&](std::string s, int left) { path(s); if (left) for (char c : {'/', 'a', '.'}) go(s + c, left - 1); };
	go("", conf().thorough ? 10 : 8);
	for (long it = 0; it < n / 20; it++) {
		std::string s;
		size_t k = r.below(r.chance(5) ? 5000 : 40);
		for (size_t i = 0; i < k; i++) { char c = r.chance(30) ? '/' : (char)(1 + r.below(255)); s += c; }
		path(s);
	}
}
