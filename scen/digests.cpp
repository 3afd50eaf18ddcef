// C19 digests: any cutting of the stream, any alignment, any interleaving
#include "common.hpp"
#include <cmath>
#include "sha512_const.hpp"
namespace {
// independent reference implementations, written from the standards
struct RefMd5 {
	uint32_t h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476}; uint64_t n = 0; std::string tail;
	static uint32_t rol(uint32_t x, int c) { return x << c | x >> (32 - c); }
	void block(const unsigned char* p) {
		static uint32_t T[64]; static const int S[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}};
		if(!T[0]) for(int i = 0; i < 64; i++) T[i] = (uint32_t)(uint64_t)floor(fabs(sin(i + 1.0)) * 4294967296.0);
		uint32_t w[16]; for(int i = 0; i < 16; i++) w[i] = p[i * 4] | p[i * 4 + 1] << 8 | p[i * 4 + 2] << 16 | (uint32_t)p[i * 4 + 3] << 24;
		uint32_t a = h[0], b = h[1], c = h[2], d = h[3];
		for(int i = 0; i < 64; i++) { uint32_t f; int g; if(i < 16) f = (b & c) | (~b & d), g = i; else if(i < 32) f = (d & b) | (~d & c), g = (5 * i + 1) % 16; else if(i < 48) f = b ^ c ^ d, g = (3 * i + 5) % 16; else f = c ^ (b | ~d), g = 7 * i % 16; uint32_t t = d; d = c; c = b; b += rol(a + f + T[i] + w[g], S[i / 16][i % 4]); a = t; }
		h[0] += a; h[1] += b; h[2] += c; h[3] += d;
	}
	void add(const char* p, size_t l) { n += l; if(!tail.empty()) { size_t k = std::min(l, 64 - tail.size()); tail.append(p, k); p += k; l -= k; if(tail.size() < 64) return; block((const unsigned char*)tail.data()); tail.clear(); } for(; l >= 64; p += 64, l -= 64) block((const unsigned char*)p); tail.assign(p, l); }
	std::string end() const { RefMd5 c = *this; uint64_t bits = n * 8; std::string pad("\x80"); while((n + pad.size()) % 64 != 56) pad += '\0'; for(int i = 0; i < 8; i++) pad += (char)(bits >> (8 * i)); c.add(pad.data(), pad.size()); std::string o; for(uint32_t x : c.h) for(int i = 0; i < 4; i++) o += (char)(x >> (8 * i)); return o; }
};
struct RefSha {
	uint64_t h[8]; uint64_t n = 0; std::string tail; RefSha() { memcpy(h, refH, sizeof h); }
	static uint64_t ror(uint64_t x, int c) { return x >> c | x << (64 - c); }
	void block(const unsigned char* p) {
		uint64_t w[80]; for(int i = 0; i < 16; i++) { w[i] = 0; for(int k = 0; k < 8; k++) w[i] = w[i] << 8 | p[i * 8 + k]; }
		for(int i = 16; i < 80; i++) w[i] = w[i - 16] + (ror(w[i - 15], 1) ^ ror(w[i - 15], 8) ^ w[i - 15] >> 7) + w[i - 7] + (ror(w[i - 2], 19) ^ ror(w[i - 2], 61) ^ w[i - 2] >> 6);
		uint64_t v[8]; memcpy(v, h, sizeof v);
		for(int i = 0; i < 80; i++) { uint64_t t1 = v[7] + (ror(v[4], 14) ^ ror(v[4], 18) ^ ror(v[4], 41)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + refK[i] + w[i], t2 = (ror(v[0], 28) ^ ror(v[0], 34) ^ ror(v[0], 39)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2])); for(int k = 7; k > 0; k--) v[k] = v[k - 1]; v[4] += t1; v[0] = t1 + t2; }
		for(int i = 0; i < 8; i++) h[i] += v[i];
	}
	void add(const char* p, size_t l) { n += l; if(!tail.empty()) { size_t k = std::min(l, 128 - tail.size()); tail.append(p, k); p += k; l -= k; if(tail.size() < 128) return; block((const unsigned char*)tail.data()); tail.clear(); } for(; l >= 128; p += 128, l -= 128) block((const unsigned char*)p); tail.assign(p, l); }
	std::string end() const { RefSha c = *this; std::string pad("\x80"); while((n + pad.size()) % 128 != 112) pad += '\0'; pad.append(7, '\0'); pad += (char)(n >> 61); for(int i = 7; i >= 0; i--) pad += (char)((n << 3) >> (8 * i)); c.add(pad.data(), pad.size()); std::string o; for(uint64_t x : c.h) for(int i = 7; i >= 0; i--) o += (char)(x >> (8 * i)); return o; }
};
struct RefCrc { uint32_t poly, s = 0xffffffff; void add(const char* p, size_t l) { for(; l; l--, p++) { s ^= (unsigned char)*p; for(int k = 0; k < 8; k++) s = s & 1 ? s >> 1 ^ poly : s >> 1; } } std::string end() const { uint32_t v = ~s; std::string o; for(int i = 0; i < 4; i++) o += (char)(v >> (8 * i)); return o; } };
std::string hex(const std::string& s) { std::string o; char b[3]; for(unsigned char c : s) { snprintf(b, 3, "%02x", c); o += b; } return o; }
const char* names[] = {"MD5", "SHA-512", "CRC32", "CRC32C", "md5str"};
}
// one stream, digested in arbitrary pieces
static void one_stream(int alg, const std::string& data, bool yields) {
	std::string want, mid; size_t pos = 0, n = data.size(); unsigned char out[64];
	RefMd5 rm; RefSha rs; RefCrc rc{alg == 2 ? 0xedb88320u : 0x82f63b78u};
	auto ref = [&](const char* p, size_t l) { if(alg == 0 || alg == 4) rm.add(p, l); else if(alg == 1) rs.add(p, l); else rc.add(p, l); };
	auto refend = [&] { return alg == 0 || alg == 4 ? rm.end() : alg == 1 ? rs.end() : rc.end(); };
	// context and data with red zones on both sides and arbitrary alignment
	std::unique_ptr<md5_ctx> m(new md5_ctx); std::unique_ptr<sha512_ctx> s(new sha512_ctx); std::unique_ptr<CRC32_CTX> c(new CRC32_CTX);
	memset(m.get(), 0xAB, sizeof *m); memset(s.get(), 0xAB, sizeof *s); memset(c.get(), 0xAB, sizeof *c);
	if(alg == 4) { Buf b(data); char dst[33]; memset(dst, 'z', 33); md5str(dst, (unsigned char*)b.p, n); ref(data.data(), n); CHECK(dst[32] == 0, "not-terminated", "md5str"); std::string g(dst, 32); for(char& ch : g) ch = tolower(ch); CHECK(g == hex(refend()), "digest-wrong", "md5str of %zu bytes gave %s, MD5 is %s", n, g.c_str(), hex(refend()).c_str()); return; }
	if(alg == 0) md5_init(m.get()); else if(alg == 1) sha512_init(s.get()); else if(alg == 2) CRC32_Init(c.get()); else CRC32C_Init(c.get());
	bool last = false;
	while(pos < n || choose(4, "empty") == 3) {
		size_t left = n - pos, k;
		if(alg == 1) { size_t blocks = left / 128; if(choose(3, "rest") == 2 || !blocks) k = left; else k = 128 * (1 + choose(blocks, "blocks")); if(k % 128) last = true; }
		else { switch(choose(4, "cut")) { case 0: k = left; break; case 1: k = std::min<size_t>(left, choose(9, "few")); break; case 2: k = std::min<size_t>(left, 60 + choose(10, "block")); break; default: k = left ? 1 + choose(left, "any") : 0; } }
		size_t al = choose(8, "align"); std::unique_ptr<char[]> b(new char[al + k + 0]); memcpy(b.get() + al, data.data() + pos, k);
		ev("piece", alg, k, al);
		if(alg == 0) md5_update(m.get(), b.get() + al, k); else if(alg == 1) sha512_update(s.get(), (unsigned char*)b.get() + al, k); else if(alg == 2) CRC32_Update(c.get(), (uint8_t*)b.get() + al, k); else CRC32C_Update(c.get(), (uint8_t*)b.get() + al, k);
		CHECK(k == 0 || memcmp(b.get() + al, data.data() + pos, k) == 0, "input-changed", "%s changed its input", names[alg]);
		ref(data.data() + pos, k); pos += k;
		if(yields) yield_point();
		if(alg == 0 && choose(4, "intermediate") == 3) { md5_end(m.get(), out); std::string g((char*)out, 16); CHECK(g == refend(), "digest-wrong", "intermediate MD5 after %zu bytes is %s instead of %s", pos, hex(g).c_str(), hex(refend()).c_str()); probe("intermediate"); }
		if(last) break;
	}
	std::string got; want = refend();
	if(alg == 0) { md5_end(m.get(), out); got.assign((char*)out, 16); } else if(alg == 1) { unsigned char* r = sha512_end(s.get()); got.assign((char*)r, 64); } else if(alg == 2) { CRC32_Final(out, c.get()); got.assign((char*)out, 4); } else { CRC32C_Final(out, c.get()); got.assign((char*)out, 4); }
	CHECK(got == want, "digest-wrong", "%s of %zu bytes is %s instead of %s", names[alg], n, hex(got).c_str(), hex(want).c_str());
}
// a stream long enough for byte and bit counters to pass 2^32, with one piece of more than 2^32 bytes;
// expected values from Python's hashlib and zlib (CRC32C: bitwise definition)
static const struct { uint64_t len; const char* want[4]; } huge_marks[] = {
	{268435840ull, {"ad9513802d6681641ec2ec62d8ca16cf",
	 "ccbcdb4b4ef93f8feace6181b75c36e586c143da4c12346af172818636bdef3ab8b60962f3abe6951366e2f0cda21bf6a132f818f0fa063a4d8b63635f49344c", "9a99df30", "8e271a36"}},
	{536871808ull, {"b805775aa72e046dba8e93a3fe652f88",
	 "129c718175b5147eee3d4f90fc32cb9861d85a6f6be1fa881c60a8c0228c91079ba8fb9972bc7e3356f7fb0c90aea9467c0600d939bc07489d6cda431f394c93", "1963cb07", "9d67ae04"}},
	{4831843328ull, {"62c0f6480f6ec1db5f1bef458b61fbd8",
	 "65f3d179a44b566670a4c85e9f8891f15429d95fbef81fa836623ece2e07334e57b8ab58282795c026e165165c4d2eecde2ce25b60d30c3c613b90a45dfc3c8e", "1fd209e6", "22100ee4"}},
	{4831843405ull, {"4c1efa5fe29388092995a5b3c2e58405",
	 "045384aea486366db3315334c4e51716d1c5d2be480d59a22f22b07ac1511f4b488050d7a18029c6e93ef96b76fbefd0c23ffc4b8fc06c90b091c2060663c334", "ea7d094f", "02f9e762"}},
};
static void huge_stream(int alg) {
	probe("huge-stream"); CpuLimit lim; budget(1ull << 40); evs("huge", names[alg]); uint64_t pos = 0; const char* src = pattern(); FAST(CRC32_InitTables)(); FAST(CRC32C_InitTables)();
	md5_ctx m; sha512_ctx s; CRC32_CTX c; if(alg == 0) FAST(md5_init)(&m); else if(alg == 1) FAST(sha512_init)(&s); else if(alg == 2) FAST(CRC32_Init)(&c); else FAST(CRC32C_Init)(&c);
	for(int i = 0; i < 4; i++) {
		while(pos < huge_marks[i].len) { uint64_t left = huge_marks[i].len - pos, k = i >= 2 ? left : std::min<uint64_t>(left, alg == 1 ? 128 * (1 + choose(8192, "blocks")) : 1 + choose(1 << 20, "piece")); const char* p = src + pos % (1 << 20); if(alg == 0) FAST(md5_update)(&m, p, k); else if(alg == 1) FAST(sha512_update)(&s, (unsigned char*)p, k); else if(alg == 2) FAST(CRC32_Update)(&c, (uint8_t*)p, k); else FAST(CRC32C_Update)(&c, (uint8_t*)p, k); pos += k; }
		unsigned char out[64]; std::string got; // the result so far, taken from a copy of the context
		if(alg == 0) { md5_ctx k = m; FAST(md5_end)(&k, out); got.assign((char*)out, 16); } else if(alg == 1) { sha512_ctx k = s; got.assign((char*)FAST(sha512_end)(&k), 64); } else { CRC32_CTX k = c; if(alg == 2) FAST(CRC32_Final)(out, &k); else FAST(CRC32C_Final)(out, &k); got.assign((char*)out, 4); }
		CHECK(hex(got) == huge_marks[i].want[alg], "digest-wrong", "%s of a stream of %llu bytes is %s instead of %s", names[alg], (unsigned long long)pos, hex(got).c_str(), huge_marks[i].want[alg]);
	}
}
SCENARIO(C19) {
	{ NoFaults nf; CRC32_InitTables(); CRC32C_InitTables(); }
	if(cpu_armed) cpu_set(0); for(int a = 0; a < 4; a++) if(choose_in_run(100 + a, 1, 2, "huge")) { huge_stream(a); return; }
	int nt = 1 + choose(3, "streams"); switch_den = 2; static const uint32_t pm[] = {0, 40, 400, 3}; preempt_max = nt > 1 ? pm[choose(4, "preempt")] : 0;
	budget(LIB_BUDGET * 10);
	for(int t = 0; t < nt; t++) spawn("stream", [] { int n = 1 + choose(2, "n"); for(int i = 0; i < n; i++) { Span sp_; int alg = choose(5, "alg"); size_t len = gen_size({64, 128, 56, 112, 119, 120, 256, 1024}, 700); one_stream(alg, gen_data(len, 0), true); } });
	join_all();
}
