/* C12, C13: varint codec against an independent reference. */
#include "mon.h"
extern "C" {
#include "futils/varint.h"
}
using namespace mon;

static const char *tn[6] = {"u16", "i16", "u32", "i32", "u64", "i64"};
static const int tbits[6] = {16, 16, 32, 32, 64, 64};
static const int tmaxlen[6] = {3, 3, 5, 5, 10, 10};

/* pages: [guard][body][guard]; buffers are carved at the end of the body */
static uint8_t *body_end, *body_start;
static void mkpages()
{
	uint8_t *m = (uint8_t *)mmap(nullptr, 3 * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	mprotect(m, 4096, PROT_NONE);
	mprotect(m + 8192, 4096, PROT_NONE);
	body_start = m + 4096;
	body_end = m + 8192;
}

static int wr(int t, uint8_t *d, size_t n, uint64_t v, size_t *l)
{
	switch (t) {
	case 0: return futils_varint_write_u16(d, n, (uint16_t)v, l);
	case 1: return futils_varint_write_i16(d, n, (int16_t)v, l);
	case 2: return futils_varint_write_u32(d, n, (uint32_t)v, l);
	case 3: return futils_varint_write_i32(d, n, (int32_t)v, l);
	case 4: return futils_varint_write_u64(d, n, v, l);
	default: return futils_varint_write_i64(d, n, (int64_t)v, l);
	}
}
/* decodes into a heap object of exactly the type's size (ASan watches it) */
static int rd(int t, const uint8_t *s, size_t n, uint64_t *v, size_t *l, uint64_t init)
{
	int r;
#define R(T, F) { T *x = (T *)malloc(sizeof(T)); *x = (T)init; r = F(s, n, x, l); *v = (uint64_t)*x; free(x); break; }
	switch (t) {
	case 0: R(uint16_t, futils_varint_read_u16)
	case 1: R(int16_t, futils_varint_read_i16)
	case 2: R(uint32_t, futils_varint_read_u32)
	case 3: R(int32_t, futils_varint_read_i32)
	case 4: R(uint64_t, futils_varint_read_u64)
	default: R(int64_t, futils_varint_read_i64)
	}
#undef R
	return r;
}
/* canonical form of a value of type t, as sign/zero extended 64 bits */
static uint64_t canon(int t, uint64_t v)
{
	switch (t) {
	case 0: return (uint16_t)v;
	case 1: return (uint64_t)(int64_t)(int16_t)v;
	case 2: return (uint32_t)v;
	case 3: return (uint64_t)(int64_t)(int32_t)v;
	default: return v;
	}
}
static std::string ref_enc(int t, uint64_t v)
{
	v = canon(t, v);
	uint64_t u = v;
	if (t & 1) u = ((int64_t)v < 0) ? 2 * (~v) + 1 : 2 * v; /* 0,-1,1,-2 -> 0,1,2,3 */
	std::string r;
	while (u >= 128) { r += (char)(0x80 | (u % 128)); u /= 128; }
	r += (char)u;
	return r;
}
/* returns length or 0 when it must be rejected */
static size_t ref_dec(int t, const uint8_t *s, size_t n, uint64_t *out)
{
	unsigned __int128 u = 0, lim = ((unsigned __int128)1) << tbits[t];
	for (size_t i = 0; i < n && i < (size_t)tmaxlen[t]; i++) {
		u += ((unsigned __int128)(s[i] & 0x7f)) << (7 * i);
		if (!(s[i] & 0x80)) {
			if (u >= lim) return 0;
			uint64_t w = (uint64_t)u;
			if (t & 1) w = (w & 1) ? ~(w >> 1) : (w >> 1);
			*out = w;
			return i + 1;
		}
	}
	return 0;
}

static void roundtrip(int t, uint64_t v)
{
	Rng &r = rng();
	v = canon(t, v);
	std::string want = ref_enc(t, v);
	size_t cap = (size_t)tmaxlen[t] + (r.chance(30) ? r.below(12) : 0);
	uint8_t *p = body_end - cap;
	uint8_t can = (uint8_t)r.u64();
	memset(p - 16, can, cap + 16);
	/* heap object for the length */
	size_t *l = (size_t *)malloc(sizeof(size_t));
	*l = r.u64();
	int rc = wr(t, p, cap, v, l);
	std::string id = fmt("%s value=%" PRId64 " cap=%zu", tn[t], (int64_t)v, cap);
	if (rc != 0) viol(fmt("write_%s fails", tn[t]), fmt("%s rc=%d", id.c_str(), rc));
	else {
		CHECK(*l == want.size(), fmt("write_%s length", tn[t]), "%s len=%zu want=%zu", id.c_str(), *l, want.size());
		CHECK(!memcmp(p, want.data(), want.size()), fmt("write_%s bytes", tn[t]), "%s got=%s want=%s", id.c_str(),
		      esc(p, cap).c_str(), esc(want).c_str());
		for (size_t i = want.size(); i < cap; i++)
			if (p[i] != can) { viol(fmt("write_%s writes beyond its length", tn[t]), id); break; }
	}
	for (int i = 1; i <= 16; i++)
		if (p[-i] != can) { viol(fmt("write_%s writes before the buffer", tn[t]), id); break; }
	/* decode what was written, with nothing or junk behind */
	for (int junk = 0; junk < 2; junk++) {
		size_t n = want.size() + (junk ? 1 + r.below(8) : 0);
		uint8_t *q = body_end - n;
		r.fill(q, n);
		memcpy(q, want.data(), want.size());
		uint64_t back = 0;
		*l = r.u64();
		rc = rd(t, q, n, &back, l, r.u64());
		CHECK(rc == 0 && canon(t, back) == v && *l == want.size(), fmt("read_%s of an encoding", tn[t]),
		      "%s rc=%d back=%" PRId64 " len=%zu (encoding %s, %zu bytes given)", id.c_str(), rc, (int64_t)canon(t, back), *l,
		      esc(want).c_str(), n);
	}
	free(l);
	eval(mix(v, (uint64_t)t), true);
	stat("encoded");
	stat_max("max:encoded bytes", (int64_t)want.size());
	if (r.below(20000) == 0) sample(id + " -> " + esc(want));
}
static void small_dst(int t, uint64_t v)
{
	for (size_t cap = 0; cap < (size_t)tmaxlen[t]; cap++) {
		uint8_t *p = body_end - cap;
		memset(p - 16, 0x5c, cap + 16);
		size_t l = 77;
		int rc = wr(t, p, cap, v, &l);
		bool touched = false;
		for (uint8_t *q = p - 16; q < body_end; q++) touched |= *q != 0x5c;
		CHECK(rc < 0, fmt("write_%s accepts a small buffer", tn[t]), "cap=%zu value=%" PRIu64 " rc=%d", cap, v, rc);
		CHECK(!touched, fmt("write_%s touches a small buffer", tn[t]), "cap=%zu value=%" PRIu64, cap, v);
		eval(mix(mix(cap, v), (uint64_t)t + 100));
		stat("small buffers");
	}
	size_t l;
	uint8_t buf[16];
	CHECK(wr(t, nullptr, 16, v, &l) < 0, fmt("write_%s NULL buffer", tn[t]), "accepted");
	CHECK(wr(t, buf, 16, v, nullptr) < 0, fmt("write_%s NULL length", tn[t]), "accepted");
}

static void hostile(int t, const std::string &s)
{
	Rng &r = rng();
	size_t n = s.size();
	uint8_t *q = body_end - n;
	memcpy(q, s.data(), n);
	uint64_t want = 0, got = 0;
	size_t wl = ref_dec(t, q, n, &want);
	size_t *l = (size_t *)malloc(sizeof(size_t));
	*l = r.u64();
	int rc = rd(t, r.chance(20) ? (const uint8_t *)read_only<0>(s.data(), n) : q, n, &got, l, r.u64());
	got = canon(t, got);
	std::string id = fmt("%s bytes=%s", tn[t], esc(s).c_str());
	if (wl) {
		CHECK(rc == 0, fmt("read_%s rejects a valid encoding", tn[t]), "%s rc=%d", id.c_str(), rc);
		if (rc == 0)
			CHECK(got == canon(t, want) && *l == wl, fmt("read_%s wrong result", tn[t]), "%s got=%" PRId64 " want=%" PRId64 " len=%zu want=%zu",
			      id.c_str(), (int64_t)got, (int64_t)canon(t, want), *l, wl);
		stat("accepted");
	} else {
		CHECK(rc < 0, fmt("read_%s accepts a bad encoding", tn[t]), "%s rc=%d got=%" PRId64, id.c_str(), rc, (int64_t)got);
		stat("rejected");
	}
	CHECK(!memcmp(q, s.data(), n), fmt("read_%s changes the source", tn[t]), "%s", id.c_str());
	free(l);
	eval(mix(hstr(s), mix(n, (uint64_t)t)));
	if (r.below(30000) == 0) sample(id + fmt(" -> rc=%d value=%" PRId64, rc, (int64_t)got));
}

/* lengths far beyond the longest encoding, truthfully: only the first bytes count */
static void huge_lengths()
{
	Rng &r = rng();
	const size_t total = ((size_t)1 << 32) + 65536 * 3;
	uint8_t *m = (uint8_t *)mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (m == MAP_FAILED) { stat("huge lengths not available"); return; }
	static const size_t ls[] = {255, 256, 257, 65535, 65536, 65537, 131072, (1u << 31) - 1, 1u << 31, (1u << 31) + 1, UINT32_MAX, (size_t)1 << 32, ((size_t)1 << 32) + 1, ((size_t)1 << 32) + 65536};
	for (int t = 0; t < 6; t++)
		for (size_t n : ls)
			for (int i = 0; i < 12; i++) {
				uint64_t v = i == 0 ? 0 : i == 1 ? UINT64_MAX : r.u64() >> r.below(64);
				size_t l = 0, l2 = 0;
				memset(m, 0, 32);
				int rc = wr(t, m, n, v, &l);
				uint64_t got = 0, want = 0;
				int rc2 = rd(t, m, n, &got, &l2, 5);
				size_t wl = ref_dec(t, m, 16, &want);
				CHECK(rc == 0 && rc2 == 0 && l == wl && l2 == wl && canon(t, got) == canon(t, want), fmt("%s with a large buffer", tn[t]), "%zu bytes: write rc=%d read rc=%d", n, rc, rc2);
				eval(mix(mix(n, v), (uint64_t)t + 300));
				stat("huge lengths");
			}
	munmap(m, total);
}

void mon::run()
{
	Rng &r = rng();
	mkpages();
	bool th = conf().thorough;
	huge_lengths();
	if (conf().mode == "roundtrip") {
		unsigned half = (unsigned)(conf().seed & 1);
		for (uint32_t v = 0; v < 65536; v++) { roundtrip(half ? 1 : 0, v); }
		for (int t = 0; t < 6; t++) {
			for (int b = 0; b < 64; b++)
				for (int d = -3; d <= 3; d++)
					for (int neg = 0; neg < 2; neg++) {
						uint64_t v = (1ull << b) + (uint64_t)(int64_t)d;
						roundtrip(t, neg ? 0 - v : v);
					}
			for (int i = 0; i < (th ? 400000 : 12000); i++) {
				uint64_t v = r.u64() >> r.below(64);
				roundtrip(t, r.chance(50) ? v : 0 - v);
			}
			for (int i = 0; i < 60; i++) small_dst(t, i < 4 ? (uint64_t)i : r.u64() >> r.below(64));
		}
		if (th) for (uint32_t v = 0; v < 65536; v++) roundtrip(half ? 0 : 1, v);
	} else {
		static const uint8_t pay[] = {0, 0, 1, 1, 2, 3, 4, 7, 8, 0xf, 0x10, 0x1f, 0x3f, 0x40, 0x7e, 0x7f, 0x7f};
		for (int t = 0; t < 6; t++) {
			for (size_t n = 1; n <= 12; n++) {
				/* k leading continuation bytes, then a terminator, then anything */
				for (size_t k = 0; k <= n; k++)
					for (int rep = 0; rep < (th ? 3000 : 110); rep++) {
						std::string s(n, 0);
						for (size_t i = 0; i < n; i++) {
							uint8_t b = pay[r.below(sizeof pay)];
							if (r.chance(25)) b = (uint8_t)r.below(128);
							if (i < k) b |= 0x80;
							else if (i > k && r.chance(50)) b |= 0x80;
							s[i] = (char)b;
						}
						hostile(t, s);
					}
			}
			for (int i = 0; i < (th ? 200000 : 4000); i++) hostile(t, r.bytes(r.below(14)));
			/* last allowed byte: every value */
			for (int m = 0; m < 3; m++)
				for (int b = 0; b < 256; b++) {
					std::string s((size_t)tmaxlen[t] - 1, m == 0 ? (char)0x80 : (char)0xff);
					if (m == 2) for (auto &c : s) c = (char)(0x80 | r.below(128));
					s += (char)b;
					hostile(t, s);
					hostile(t, s + r.bytes(1 + r.below(4)));
				}
			hostile(t, "");
			uint64_t v;
			size_t l;
			uint8_t one[2] = {1, 1};
			CHECK(rd(t, nullptr, 4, &v, &l, 0) < 0, fmt("read_%s NULL source", tn[t]), "accepted");
			CHECK(rd(t, one, 2, &v, nullptr, 0) < 0, fmt("read_%s NULL length", tn[t]), "accepted");
			int rc = t == 0 ? futils_varint_read_u16(one, 2, nullptr, &l) : t == 1 ? futils_varint_read_i16(one, 2, nullptr, &l) :
				 t == 2 ? futils_varint_read_u32(one, 2, nullptr, &l) : t == 3 ? futils_varint_read_i32(one, 2, nullptr, &l) :
				 t == 4 ? futils_varint_read_u64(one, 2, nullptr, &l) : futils_varint_read_i64(one, 2, nullptr, &l);
			CHECK(rc < 0, fmt("read_%s NULL value", tn[t]), "accepted");
		}
		/* all 16-bit three byte strings, sampled third byte (all in thorough) */
		for (int t = 0; t < 2; t++)
			for (int a = 0; a < 256; a += th ? 1 : 5)
				for (int b = 0; b < 256; b += th ? 1 : 3)
					for (int c = 0; c < 256; c += th ? 17 : 37) {
						char s[3] = {(char)a, (char)b, (char)(c + (a + b) % 17)};
						hostile(t, std::string(s, 3));
					}
	}
}
