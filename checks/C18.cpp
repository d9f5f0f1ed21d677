// MC-VARIANT: asan
// MC-LINK: -lcrypto
// MC-NOTE: keystream of every counter-driven cipher = one-block transform of start, start+1, start+2 ... (block model built from fresh one-block runs)
#include "checks/common.h"
#include "checks/hashref.h"
#include "checks/ossl.h"
#include "ChaChaP20.h"
#include "CTR.h"
#include "ICM.h"
#include "GCM.h"
#include "HBA.h"
#include "BCG.h"
#include "StreamCipherFromName.h"
#include "CryptoAuthenticationFailure.h"
using namespace Cipher::Block::Mode; using Enumeration::BlockCiphers; using Enumeration::StreamCiphers;
const char* const MC_PROPERTY = "C18";

struct Req { size_t n, io, oo; };
struct Prof { int degree; size_t mult; };                                  /* degree 0: sequential; block size = mult * minimum */
struct Alg
{
	std::string name; size_t iv, cw; bool be; size_t block;
	std::function<Bytes(const Bytes& iv, const std::vector<Req>&, const Prof&)> run;      /* keystream bytes of consecutive requests on one instance */
	size_t wide;                                                              /* blocks in one wide group */
};
template <class P> static void profile(P& c, const Prof& p)
{
	c.ParallelProfile().IsParallel() = p.degree != 0;
	if (p.degree) { c.ParallelMaxDegree((size_t)p.degree); c.ParallelProfile().SetBlockSize(c.ParallelProfile().ParallelMinimumSize() * p.mult); }
}
template <class C> static Bytes pull(C& c, const std::vector<Req>& rs, size_t tag, const char* what)
{
	Bytes r;
	for (const Req& q : rs)
	{
		Bytes in = pat(q.io + q.n + 5, 3); Guarded g(q.oo, q.n + tag, 4); MC_OP("%s: transform %zu bytes (offsets %zu,%zu)", what, q.n, q.io, q.oo);
		c.Transform(in, q.io, g.buf, q.oo, q.n); MC_CHECK(g.intact(), "overwrite", "%s: a request of %zu bytes wrote outside its output window", what, q.n);
		Bytes w = g.window(); for (size_t i = 0; i < q.n; ++i) r.push_back(w[i] ^ in[q.io + i]);
	}
	return r;
}
static Bytes ctrAdd(const Alg& a, const Bytes& iv, uint64_t k)
{
	Bytes c = sub(iv, 0, a.cw); if (a.be) addBE(c, k); else addLE(c, k); return cat(c, sub(iv, a.cw, iv.size() - a.cw));
}
static const Bytes& unit(const Alg& a, const Bytes& iv)
{
	static std::map<std::pair<std::string, Bytes>, Bytes> m; auto& r = m[{ a.name, iv }]; if (r.empty()) { bool v = mc::g_verbose; mc::g_verbose = false; r = a.run(iv, { { a.block, 0, 0 } }, { 0, 1 }); mc::g_verbose = v; } return r;
}
static Bytes model(const Alg& a, const Bytes& iv, const std::vector<Req>& rs)
{
	Bytes r; uint64_t k = 0;
	for (const Req& q : rs) for (size_t p = 0; p < q.n; p += a.block, ++k) { const Bytes& u = unit(a, ctrAdd(a, iv, k)); r.insert(r.end(), u.begin(), u.begin() + (ptrdiff_t)std::min(a.block, q.n - p)); }
	return r;
}
static void go(const Alg& a, const Bytes& iv, const std::vector<Req>& rs, const Prof& p)
{
	std::string d; for (auto& q : rs) d += std::to_string(q.n) + " ";
	CHECK_EQ(a.name.c_str(), a.run(iv, rs, p), model(a, iv, rs), "%s, counter %s, requests [%s], %d workers", a.name.c_str(), hx(iv, 64).c_str(), d.c_str(), p.degree);
	mc::state(mc::combine(mc::hash(a.name), mc::combine(h(iv), mc::hash(d)))); mc::outcome(mc::combine(h(iv), mc::hash(d)));
}
/* a start whose carry leaves the low byte after k more increments and runs through j further bytes */
static Bytes start(const Alg& a, size_t j, uint32_t k, uint8_t next)
{
	Bytes iv = pat(a.iv, 7); auto at = [&](size_t i) -> uint8_t& { return a.be ? iv[a.cw - 1 - i] : iv[i]; };
	uint64_t low = 0xFFFFu - k; at(0) = (uint8_t)low; size_t i = 1; if (k > 255) { at(1) = (uint8_t)(low >> 8); i = 2; }
	for (; i <= j && i < a.cw; ++i) at(i) = 0xFF;
	if (j + 1 < a.cw && i == j + 1) at(i) = next;
	return iv;
}
static std::vector<Alg> algs()
{
	std::vector<Alg> v;
	auto key = [](size_t n) { return pat(n, 11); };
	auto mode = [&](const char* n, bool ctr, BlockCiphers c, size_t ks) {
		v.push_back({ n, 16, 16, ctr, 16, [=](const Bytes& iv, const std::vector<Req>& rs, const Prof& p) {
			sim::cpu.logical = p.degree ? (uint32_t)p.degree : 2; std::unique_ptr<ICipherMode> m(ctr ? (ICipherMode*)new CTR(c) : (ICipherMode*)new ICM(c)); profile(*m, p); Cipher::SymmetricKey k(key(ks), iv); m->Initialize(true, k); return pull(*m, rs, 0, n); }, 8 }); };
	mode("CTR-AES", true, BlockCiphers::AES, 32); mode("ICM-AES", false, BlockCiphers::AES, 32); mode("CTR-Serpent", true, BlockCiphers::Serpent, 32); mode("ICM-Serpent", false, BlockCiphers::Serpent, 32);
	mode("CTR-RHXS256", true, BlockCiphers::RHXS256, 32); mode("ICM-SHXS512", false, BlockCiphers::SHXS512, 64);
	auto hba = [&](const char* n, BlockCiphers c, Enumeration::StreamAuthenticators s) {
		v.push_back({ n, 16, 16, false, 16, [=](const Bytes& iv, const std::vector<Req>& rs, const Prof& p) {
			sim::cpu.logical = p.degree ? (uint32_t)p.degree : 2; std::unique_ptr<HBA> m(new HBA(c, s)); profile(*m, p); Cipher::SymmetricKey k(key(32), iv); m->Initialize(true, k); return pull(*m, rs, m->TagSize(), n); }, 8 }); };
	hba("HBA-AES-KMAC256", BlockCiphers::AES, Enumeration::StreamAuthenticators::KMAC256); hba("HBA-RHXS256-HMAC", BlockCiphers::RHXS256, Enumeration::StreamAuthenticators::HMACSHA2256);
	auto stream = [&](const char* n, StreamCiphers s, size_t ks, size_t iv, size_t cw, size_t blk, size_t wide) {
		v.push_back({ n, iv, cw, false, blk, [=](const Bytes& nonce, const std::vector<Req>& rs, const Prof& p) {
			sim::cpu.logical = p.degree ? (uint32_t)p.degree : 2; std::unique_ptr<Cipher::Stream::IStreamCipher> m(Helper::StreamCipherFromName::GetInstance(s)); profile(*m, p); Cipher::SymmetricKey k(key(ks), nonce); m->Initialize(true, k); return pull(*m, rs, m->TagSize(), n); }, wide }); };
	/* ChaCha's counter always starts at zero; other starting points are reached through a serialized state whose counter (the bytes that change after one block) is replaced */
	auto chacha = [&](const char* n, bool auth) {
		v.push_back({ n, 8, 8, false, 64, [=](const Bytes& ctr, const std::vector<Req>& rs, const Prof& p) {
			sim::cpu.logical = p.degree ? (uint32_t)p.degree : 2; Cipher::Stream::ChaChaP20 c(auth); c.ParallelProfile().IsParallel() = false; Cipher::SymmetricKey k(key(32), pat(8, 13)); c.Initialize(true, k);
			static std::map<bool, std::pair<size_t, SecureVector<uint8_t>>> at; auto& e = at[auth];
			if (e.second.empty()) { e.second = c.Serialize(); Bytes one(64 + 64); c.Transform(Bytes(64), 0, one, 0, 64); auto s2 = c.Serialize(); size_t i = 0; /* the tag and byte count change too, the counter is the 8 bytes reported by Nonce() */ Bytes nn = c.Nonce(); while (i + 8 <= s2.size() && !(plain(SecureVector<uint8_t>(s2.begin() + i, s2.begin() + i + 8)) == nn && e.second[i] != s2[i])) ++i; e.first = i; }
			if (e.first + 8 > e.second.size()) { mc::fail("chacha-state", "%s: the counter was not found in the serialized state after one block", n); return Bytes(); }
			SecureVector<uint8_t> st = e.second; for (int i = 0; i < 8; ++i) st[e.first + i] = ctr[i];
			Cipher::Stream::ChaChaP20 d(st); profile(d, p); return pull(d, rs, d.TagSize(), n); }, 8 }); };
	chacha("ChaChaP20", false); chacha("ChaChaP20-auth", true);
	stream("CSX512", StreamCiphers::CSX512, 64, 16, 16, 128, 4);
	stream("TSX256", StreamCiphers::TSX256, 32, 16, 16, 32, 4); stream("TSX512", StreamCiphers::TSX512, 64, 16, 16, 64, 4); stream("TSX1024", StreamCiphers::TSX1024, 128, 16, 16, 128, 4);
	stream("RCS-256", StreamCiphers::RCS, 32, 32, 16, 32, 8); stream("RCS-512", StreamCiphers::RCS, 64, 32, 16, 32, 8); stream("RWS-512", StreamCiphers::RWS, 64, 64, 16, 64, 8);
	stream("CSX512-auth", StreamCiphers::CSXR80K512, 64, 16, 16, 128, 4);
	stream("TSX256-auth", StreamCiphers::TSXR72K256, 32, 16, 16, 32, 4); stream("TSX1024-auth", StreamCiphers::TSXR120K512, 128, 16, 16, 128, 4); stream("RCS-auth", StreamCiphers::RCSK256, 32, 32, 16, 32, 8); stream("RWS-auth", StreamCiphers::RWSK512, 64, 64, 16, 64, 8);
	v.push_back({ "BCG", 32, 16, false, 32, [=](const Bytes& iv, const std::vector<Req>& rs, const Prof& p) {
		sim::cpu.logical = p.degree ? (uint32_t)p.degree : 2; Drbg::BCG g(Enumeration::Providers::None, p.degree != 0); profile(g, p); Cipher::SymmetricKey k(key(32), iv, Bytes(16, 9)); g.Initialize(k); Bytes r;
		for (const Req& q : rs)
		{
			MC_OP("BCG: generate %zu bytes at %zu", q.n, q.oo); Guarded gd(q.oo, q.n, 4);
			if (q.io & 1) { auto s = secure(gd.buf); g.Generate(s, q.oo, q.n); gd.buf = plain(s); } else g.Generate(gd.buf, q.oo, q.n);
			MC_CHECK(gd.intact(), "overwrite", "BCG: a request of %zu bytes wrote outside its output window", q.n); Bytes w = gd.window(); r.insert(r.end(), w.begin(), w.end());
		}
		return r; }, 8 });
	return v;
}
/* GCM: the counter block is J0, incremented in its low 32 bits; a 16-byte nonce is chosen so that J0 is any wanted value */
static Bytes gmulInv(const Bytes& hk) { Bytes r(16, 0), b = hk; r[0] = 0x80; for (int i = 1; i < 128; ++i) { Bytes c = b; ref::gmul(b, c); ref::gmul(r, b); } return r; }
static Bytes nonceFor(const Bytes& hk, const Bytes& j0)
{
	Bytes inv = gmulInv(hk), x = j0; ref::gmul(x, inv); x[15] ^= 128; ref::gmul(x, inv); return x;
}
static void gcm(const Bytes& j0in, size_t n, const Prof& p, bool twelve)
{
	Bytes k = pat(32, 11); RefBlock& b = RefBlock::get(BlockCiphers::AES, k); Bytes hk = b.enc(Bytes(16, 0)); Bytes j0 = j0in, iv;
	if (twelve) { iv = sub(j0, 0, 12); j0[12] = j0[13] = j0[14] = 0; j0[15] = 1; } else iv = nonceFor(hk, j0);
	sim::cpu.logical = p.degree ? (uint32_t)p.degree : 2; GCM m(BlockCiphers::AES); profile(m, p); Cipher::SymmetricKey kp(k, iv); m.Initialize(true, kp);
	Bytes got = pull(m, { { n, 0, 3 } }, 16, "GCM-AES"), want; Bytes c = j0;
	bool wraps = false; for (size_t q = 0; q < n; q += 16) { Bytes low = sub(c, 12, 4); addBE(low, 1); if (low == Bytes(4, 0)) wraps = true; for (int i = 0; i < 4; ++i) c[12 + i] = low[i]; Bytes u = b.enc(c); want.insert(want.end(), u.begin(), u.begin() + (ptrdiff_t)std::min<size_t>(16, n - q)); }
	CHECK_EQ(wraps ? "gcm-inc32" : "GCM", got, want, "GCM-AES, J0 %s, %zu bytes, %d workers", hx(j0).c_str(), n, p.degree); mc::outcome(mc::combine(h(j0), n)); mc::state(mc::combine(h(j0), n));
}
void mc_register()
{
	mc::setHangSeconds(60); const bool T = mc::thorough();
	mc::bounds("starts: the carry leaves the low counter byte after 0..W+3 blocks (W = blocks in a wide group) and runs through 0..width-1 further bytes, next byte 00 / 7f / fe, for each of 22 counter-driven ciphers and generators and GCM; requests of 1..W*2+3 blocks with and without a partial tail; all splits of up to three requests over {1,W-1,W,W+1} blocks; 2 and 4 workers with parallel sizes of one and two minimum blocks, carries at every block of the first chunks, request lengths around the parallel size, unequal buffer offsets");
	mc::assume("a partial final block uses up its counter value (the documented behaviour of these stream modes); every request starts at a fresh counter value");
	for (const Alg& a : algs())
	{
		size_t W = a.wide; std::string t = a.name + "/";
		for (size_t j = 0; j < a.cw; ++j) mc::job(t + "carry" + std::to_string(j), [a, W, j, T] {
			static const uint8_t NX[] = { 0x00, 0xFE, 0x7F }; uint32_t k = (uint32_t)mc::choose((int)(T ? 2 * W + 3 : W + 2)); uint8_t nx = NX[mc::choose(T ? 3 : 1)];
			size_t L[] = { 1, 3, W - 1, W, W + 1, 2 * W, 2 * W + 3 }; size_t n = L[mc::choose(7)] * a.block; if (n == L[0] * a.block || n == L[4] * a.block || T) if (mc::flip()) n += 5;
			go(a, start(a, j, k, nx), { { n, 0, 0 } }, { 0, 1 }); });
		mc::job(t + "lengths", [a, W, T] { size_t n = (size_t)mc::choose((int)((T ? 4 : 2) * W + 3)); size_t x[] = { 0, a.block - 1, 1 }; n = n * a.block + x[mc::choose(T ? 3 : 2)]; if (!n) return; size_t io[] = { 0, 3 }, oo[] = { 0, 7 }; size_t i = (size_t)mc::choose(2), o = (size_t)mc::choose(2); uint32_t k = (uint32_t)mc::choose(3) * 5; go(a, start(a, 3, k, 1), { { n, io[i], oo[o] } }, { 0, 1 }); });
		for (int kk = 0; kk < 4; ++kk) mc::job(t + "splits" + std::to_string(kk), [a, W, T, kk] {
			size_t L[] = { 1, W - 1, W, W + 1, 2 * W + 1 }; static const size_t J[] = { 0, 1, 3, 7 }; std::vector<Req> rs; size_t j = std::min<size_t>(a.cw - 1, kk == 3 && mc::flip() ? a.cw - 1 : J[kk]); uint32_t k = (uint32_t)mc::choose((int)(2 * W + 1)); int d = T ? 4 : 3;
			for (int i = 0; i < d; ++i) { int c = mc::choose(i ? 6 : 5); if (c == 5) break; size_t n = L[c] * a.block; if (i == 1 && mc::flip()) n -= 3; rs.push_back({ n, (size_t)i, (size_t)i * 2 }); }
			go(a, start(a, j, k, 0xFE), rs, { 0, 1 }); });
		for (int dg = 2; dg <= 4; dg += 2) for (size_t mu = 1; mu <= 2; ++mu) mc::job(t + "parallel" + std::to_string(dg) + "x" + std::to_string(mu), [a, W, dg, mu, T] {
			Prof p{ dg, mu }; static const size_t J[] = { 0, 1, 3, 4, 7, 15 }; size_t j = std::min<size_t>(a.cw - 1, J[mc::choose(6)]); size_t B = a.block, M = (size_t)dg * 8 * B * mu;   /* the minimum parallel size is workers * 8 blocks */
			size_t K = M / B; uint32_t ks[] = { 0, 1, 7, 8, 9, 15, 16, 17, (uint32_t)K / 2 - 1, (uint32_t)K / 2, (uint32_t)K - 1, (uint32_t)K, 200 }; uint32_t k = ks[mc::choose(13)];
			size_t L[] = { M - 1, M, M + 1, M + B + 3, 2 * M, 2 * M + B - 1, M / 2 + B, 3 * M + 5 }; std::vector<Req> rs; size_t off = (size_t)mc::choose(2); rs.push_back({ L[mc::choose(8)], off * 3, off * 5 }); if ((T || (mu == 1 && dg == 2)) && mc::flip()) rs.push_back({ M + B, 0, 16 });
			go(a, start(a, j, k, 0xFE), rs, p); });
		if (T) mc::job(t + "two-byte", [a, W] { uint32_t k = 250 + (uint32_t)mc::choose(14); size_t j = 1 + (size_t)mc::choose((int)a.cw - 1); size_t L[] = { W * 33, W * 34 + 1 }; go(a, start(a, j, k, 0), { { L[mc::choose(2)] * a.block, 0, 0 } }, { 0, 1 }); });
	}
	mc::job("ChaChaP20/published", [] { size_t n = (size_t)mc::choose(40) * 32 + (size_t)mc::choose(2) * 5; if (!n) return; sim::cpu.logical = 2; Cipher::Stream::ChaChaP20 c(false); c.ParallelProfile().IsParallel() = false; Bytes k = pat(32, 11), iv = pat(8, 21), in = pat(n, 3), out(n), want(n), iv16 = cat(Bytes(8, 0), iv); Cipher::SymmetricKey kp(k, iv); c.Initialize(true, kp); c.Transform(in, 0, out, 0, n);
		EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new(); int l = 0; EVP_EncryptInit_ex(x, EVP_chacha20(), nullptr, k.data(), iv16.data()); EVP_EncryptUpdate(x, want.data(), &l, in.data(), (int)n); EVP_CIPHER_CTX_free(x); CHECK_EQ("ChaChaP20-published", out, want, "ChaChaP20, %zu bytes", n); });
	for (int d = 0; d <= 4; d += 2) mc::job("GCM/counter" + std::to_string(d), [d] { Bytes j0 = pat(16, 9); int chain = mc::choose(5); int k = mc::choose(20); bool twelve = mc::flip(); if (!twelve) { j0[15] = (uint8_t)(0xFF - k); for (int i = 0; i < chain && i < 4; ++i) if (i) j0[15 - i] = 0xFF; if (chain < 4 && chain) j0[15 - chain] = 0x7F; if (chain == 4) j0[11] = 0x55; } else if (chain || k > 7) return; else j0[11] = (uint8_t)(k * 37);
		static const size_t L[] = { 1, 16, 17, 127, 128, 129, 160, 255, 256, 257, 300, 512, 517, 1030 }; gcm(j0, L[mc::choose(14)], { d, 1 }, twelve); });
}
