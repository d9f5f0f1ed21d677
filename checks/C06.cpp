// MC-VARIANT: asan
// MC-LINK: -lcrypto
// MC-TECHNIQUE: exhaustive enumeration of initialise/generate/update/illegal-request histories up to a depth, of request-length pairs around every block boundary, of key/nonce/info lengths and of every single-bit seed change on the implementation, against the published constructions written over libcrypto HMAC, a reference Keccak and a reference Rijndael-256, with the entropy provider scripted
// Deterministic generators and XOFs are functions of seed and request history.
#include "checks/ossl.h"
#include "native/winctl.h"
#include "BCG.h"
#include "CSG.h"
#include "HCG.h"
#include "SHAKE.h"
#include <set>
#include "SHA2256.h"
#include "SHA2512.h"
#include "ProviderBase.h"
#include "DrbgFromName.h"
const char* const MC_PROPERTY = "C06";
using Cipher::SymmetricKey; using Enumeration::SHA2Digests; using Enumeration::ShakeModes; using Enumeration::Providers;

/* ---- the entropy source: one known byte stream, consumed in order ---- */
static size_t g_pos = 0; static std::vector<std::pair<size_t, size_t>> g_calls;   /* system source: bytes given so far, and each call's position and length */
static uint8_t rnd(size_t i) { return (uint8_t)((i * 0x9E3779B97F4A7C15ULL + 0x1234567) >> 37); }
struct Script : Provider::ProviderBase
{
	size_t pos = 0;
	Script() : ProviderBase(true, Providers::CSP, "script") {}
	template <class V> void fill(V& o, size_t off, size_t n) { for (size_t i = 0; i < n; ++i) o[off + i] = rnd(pos++); }
	void Generate(std::vector<uint8_t>& o) override { fill(o, 0, o.size()); }
	void Generate(SecureVector<uint8_t>& o) override { fill(o, 0, o.size()); }
	void Generate(std::vector<uint8_t>& o, size_t a, size_t n) override { fill(o, a, n); }
	void Generate(SecureVector<uint8_t>& o, size_t a, size_t n) override { fill(o, a, n); }
	void Reset() override {}
};

/* ---- Rijndael with a 256-bit block over given round keys ---- */
static void rijndael256(const Bytes& rk, const uint8_t* in, uint8_t* out)
{
	size_t R = rk.size() / 32 - 1; uint8_t b[32], t[32]; static const int S[4] = { 0, 1, 3, 4 }; const ref::AesTab& T = ref::aes();
	for (int i = 0; i < 32; ++i) b[i] = in[i] ^ rk[(size_t)i];
	for (size_t r = 1; r <= R; ++r)
	{
		for (int c = 0; c < 8; ++c) for (int q = 0; q < 4; ++q) t[4 * c + q] = T.s[b[4 * ((c + S[q]) & 7) + q]];
		if (r < R) { ref::aesMix(t, false); ref::aesMix(t + 16, false); }
		for (int i = 0; i < 32; ++i) b[i] = t[i] ^ rk[32 * r + (size_t)i];
	}
	std::copy(b, b + 32, out);
}
static Bytes cshake(const Bytes& k, const Bytes& n, const Bytes& s, size_t rate, size_t out)
{
	ref::K25 st{}; bool c = !n.empty() || !s.empty(); if (c) ref::kbytepad(st, cat(ref::encStr(n), ref::encStr(s)), rate); ref::kabsorb(st, k, rate, c ? 0x04 : 0x1F);
	Bytes o; while (o.size() < out) { ref::keccakP(st); Bytes b = ref::kbytes(st, rate); o.insert(o.end(), b.begin(), b.end()); } o.resize(out); return o;
}
static Bytes str(const std::string& s) { return Bytes(s.begin(), s.end()); }

enum Fam { BC, CS, HC, XO };
struct Alg { const char* name; Fam f; int v; size_t blk, key, iv; };
static const std::vector<Alg> ALG{ { "BCG", BC, 256, 32, 32, 32 }, { "CSG-128", CS, 128, 168, 16, 16 }, { "CSG-256", CS, 256, 136, 32, 32 }, { "CSG-512", CS, 512, 72, 64, 64 }, { "HCG-256", HC, 256, 32, 32, 8 }, { "HCG-512", HC, 512, 64, 64, 8 },
	{ "SHAKE128", XO, 128, 168, 16, 16 }, { "SHAKE256", XO, 256, 136, 32, 32 }, { "SHAKE512", XO, 512, 72, 64, 64 } };
static size_t rate(int v) { return v == 128 ? 168 : v == 256 ? 136 : v == 512 ? 72 : 32; }
static ShakeModes mode(int v) { return v == 128 ? ShakeModes::SHAKE128 : v == 256 ? ShakeModes::SHAKE256 : ShakeModes::SHAKE512; }
struct Seed { Bytes k, n, i; };
static Seed seedOf(const Alg& a, int which)
{
	Seed s{ pat(a.key, 11), pat(a.iv, 22), pat(16, 33) }; if (which == 1) s.n[0] ^= 1; if (which == 2) s.i.push_back(7); if (which == 3) s.k.back() ^= 0x80; if (which == 4) { s.i.clear(); if (a.f != BC) s.n.clear(); } return s;
}
/* the model: a pure function of the seed, the history and the provider's bytes */
struct Model
{
	Alg a; std::string name; bool init = false; size_t pos = 0, counter = 0, threshold = 102400000, reseeds = 0; bool prov;
	Bytes key, code, ctr, buf, cache, custom; ref::K25 st{}; uint8_t dom = 0; Bytes rk;
	Model(const Alg& al, const std::string& n, bool p) : a(al), name(n), prov(p) {}
	const EVP_MD* md() const { return a.v == 256 ? EVP_sha256() : EVP_sha512(); }
	bool sys = false; size_t call = 0;
	Bytes entropy(size_t n)      /* the system provider also reads short samples for its self test: skip those */
	{
		Bytes b(n); if (sys) { while (call < g_calls.size() && g_calls[call].second != n) ++call; MC_CHECK(call < g_calls.size(), "entropy", "%s: %zu bytes of fresh entropy were not taken from the provider", a.name, n); pos = g_calls[call++].first; }
		for (auto& x : b) x = rnd(pos++); return b;
	}
	void fill()
	{
		if (a.f == HC) { addBE(ctr, 2 * a.blk); buf = ossl::hmac(md(), key, cat(cat(buf, code), ctr)); cache = buf; }
		else { ref::keccakP(st); cache = ref::kbytes(st, rate(a.v)); }
	}
	void setup(const Bytes& k, const Bytes& n, const Bytes& info)
	{
		counter = 0; cache.clear();
		if (a.f == HC)
		{
			uint16_t sb = (uint16_t)(a.blk / 2 * 8); code = cat(cat(str("CEX-"), str(name)), cat(Bytes{ (uint8_t)sb, (uint8_t)(sb >> 8) }, info)); ctr = Bytes(8, 0); std::copy(n.begin(), n.begin() + (ptrdiff_t)std::min<size_t>(8, n.size()), ctr.begin());
			addBE(ctr, code.size()); key = k; buf = ossl::hmac(md(), key, cat(code, ctr));
		}
		else if (a.f == BC)
		{
			custom = cat(str("BCG version 1.0b"), info); uint16_t kb = (uint16_t)(k.size() * 8); size_t R = k.size() == 128 ? 38 : k.size() / 4 + 14; ctr = n;
			rk = cshake(k, cat(Bytes{ (uint8_t)kb, (uint8_t)(kb >> 8) }, str("BCG")), custom, 136, 32 * (R + 1));
		}
		else { st = ref::K25{}; bool c = !n.empty() || !info.empty(); dom = c ? 0x04 : 0x1F; if (c) ref::kbytepad(st, cat(ref::encStr(info), ref::encStr(n)), rate(a.v)); ref::kabsorb(st, k, rate(a.v), dom); }
		init = true;
	}
	void initialize(const Seed& s) { setup(s.k, s.n, s.i); reseeds = 0; }
	Bytes stream(size_t n)
	{
		Bytes o;
		if (a.f == BC) { while (o.size() < n) { uint8_t b[32]; rijndael256(rk, ctr.data(), b); o.insert(o.end(), b, b + 32); Bytes lo = sub(ctr, 0, 16); addLE(lo, 1); std::copy(lo.begin(), lo.end(), ctr.begin()); } o.resize(n); return o; }
		if (a.f == XO) { while (o.size() < n) { fill(); o.insert(o.end(), cache.begin(), cache.end()); } o.resize(n); return o; }
		while (o.size() < n) { if (cache.empty()) fill(); size_t t = std::min(n - o.size(), cache.size()); o.insert(o.end(), cache.begin(), cache.begin() + (ptrdiff_t)t); cache.erase(cache.begin(), cache.begin() + (ptrdiff_t)t); }
		return o;
	}
	void mix(const Bytes* user)      /* fold fresh material into the state */
	{
		if (a.f == HC)
		{
			Bytes k = user ? ossl::hmac(md(), key, *user) : entropy(a.blk); fill(); Bytes s = ossl::hmac(md(), key, buf); key = cat(k, s); fill();
		}
		else if (a.f == CS) { if (prov) { ref::kabsorb(st, entropy((200 - rate(a.v)) / 2), rate(a.v), dom); fill(); } if (user) { ref::kabsorb(st, *user, rate(a.v), dom); fill(); } }
		else { Bytes k = *user; if (prov) k = cshake(k, Bytes(), entropy(32), 136, k.size()); setup(k, ctr, custom); }
	}
	void update(const Bytes& k) { ++reseeds; if (a.f == HC) { mix(&k); } else mix(&k); if (a.f == BC) counter = 0; }
	Bytes gen(size_t n)
	{
		Bytes o = stream(n);
		if (prov && a.f != XO) { counter += n; if (counter >= threshold) { ++reseeds; if (a.f == BC) { Bytes k = stream(32); mix(&k); } else mix(nullptr); counter = 0; } }
		return o;
	}
};
/* the implementation under one of its construction routes: 0 no provider, 1 provider named, 2 provider instance, 3 the factory */
struct Real
{
	Alg a; int route; Script script; std::unique_ptr<Digest::IDigest> dig; std::unique_ptr<Drbg::IDrbg> g; std::unique_ptr<Kdf::SHAKE> x; std::string name;
	Real(const Alg& al, int r, bool par = false) : a(al), route(r)
	{
		g_pos = 0; g_calls.clear(); sim::rng = [](uint8_t* p, size_t n) { g_calls.push_back({ g_pos, n }); for (size_t i = 0; i < n; ++i) p[i] = rnd(g_pos++); return true; };
		SHA2Digests d = a.v == 256 ? SHA2Digests::SHA2256 : SHA2Digests::SHA2512; Providers p = r == 1 ? Providers::CSP : Providers::None;
		switch (a.f)
		{
		case BC: g.reset(r == 2 ? new Drbg::BCG(&script, par) : new Drbg::BCG(p, par)); break;
		case CS: g.reset(r == 2 ? new Drbg::CSG(mode(a.v), &script) : new Drbg::CSG(mode(a.v), p)); break;
		case HC: if (r == 2) dig.reset(a.v == 256 ? (Digest::IDigest*)new Digest::SHA2256() : (Digest::IDigest*)new Digest::SHA2512()); g.reset(r == 2 ? new Drbg::HCG(dig.release(), &script) : new Drbg::HCG(d, p)); break;
		case XO: x.reset(new Kdf::SHAKE(mode(a.v))); break;
		}
		if (a.f == HC) { Drbg::HCG h(d, Providers::None); name = h.Name(); }
		if (a.f == BC) g->ReseedThreshold() = 102400000;
	}
	size_t consumed() const { return route == 2 ? script.pos : g_pos; }
	void init(const Seed& s, bool secureKey = false) { if (x) { if (secureKey) x->Initialize(secure(s.k), secure(s.n), secure(s.i)); else { SymmetricKey k(s.k, s.n, s.i); x->Initialize(k); } } else { SymmetricKey k(s.k, s.n, s.i); g->Initialize(k); } }
	template <class V> void gen(V& o, size_t off, size_t n) { if (x) x->Generate(o, off, n); else g->Generate(o, off, n); }
	template <class V> void gen(V& o) { if (x) x->Generate(o); else g->Generate(o); }
	bool ready() { return x ? x->IsInitialized() : g->IsInitialized(); }
};
/* ways: 0 vector window, 1 secure window, 2 whole vector, 3 whole secure vector */
static Bytes pull(Real& r, size_t n, int how)
{
	MC_OP("%s: generate %zu bytes (form %d)", r.a.name, n, how); size_t oo = how < 2 ? 5 : 0; Guarded gd(oo, n, how < 2 ? 3 : 0);
	if (how & 1) { auto s = secure(gd.buf); if (how < 2) r.gen(s, oo, n); else r.gen(s); gd.buf = plain(s); } else if (how < 2) r.gen(gd.buf, oo, n); else r.gen(gd.buf);
	MC_CHECK(gd.intact(), "overwrite", "%s: a request of %zu bytes wrote outside its window", r.a.name, n); return gd.window();
}
template <class F> static void refused(const Alg& a, const char* what, F f)
{
	mc::transition(); bool t = false; try { f(); } catch (const CEX::Exception::CryptoException&) { t = true; } catch (const std::exception& e) { mc::fail("exception", "%s: %s raised %s, not the library's exception", a.name, what, e.what()); }
	MC_CHECK(t, "accepted", "%s: %s was accepted", a.name, what);
}
static void compare(Real& r, Model& m, size_t n, int how)
{
	Bytes g = pull(r, n, how), w = m.gen(n); CHECK_EQ("stream", g, w, "%s: request of %zu bytes (route %d, form %d)", r.a.name, n, r.route, how);
	if (m.prov && !m.sys && m.a.f != XO) MC_CHECK(r.consumed() == m.pos, "entropy", "%s: %zu bytes taken from the provider, the construction takes %zu", r.a.name, r.consumed(), m.pos);
}
static Model modelFor(Real& r) { Model m(r.a, r.name, r.route == 1 || r.route == 2); m.pos = r.consumed(); m.sys = r.route == 1; m.call = g_calls.size(); return m; }

/* every history of operations up to the depth */
static void histories(const Alg& a, int route, int depth)
{
	Real r(a, route, true); Model m = modelFor(r); std::vector<size_t> L{ 1, a.blk - 1, a.blk, a.blk + 1, 2 * a.blk + 5, 0 }; if (a.f == BC) L.push_back(8 * 32 + 33);
	size_t thr = m.prov ? std::vector<size_t>{ 102400000, 0, a.blk }[(size_t)mc::choose(3)] : 102400000; if (r.g) { r.g->ReseedThreshold() = thr; } m.threshold = thr; std::string trace; uint64_t hh = 0;
	const int nops = (int)L.size() + 4 + (a.f == XO ? 0 : 2);
	for (int d = 0; d < depth; ++d)
	{
		int op = mc::choose(nops);
		if (op < 3) { mc::transition(); mc::note("init seed %d", op); Seed s = seedOf(a, op == 2 ? 4 : op); r.init(s, op == 1); m.initialize(s); }
		else if (op < 3 + (int)L.size())
		{
			size_t n = L[(size_t)op - 3]; int how = d & 3;
			if (!m.init) refused(a, "a request before initialisation", [&] { pull(r, n, how); }); else { compare(r, m, n, how); }
		}
		else if (op == 3 + (int)L.size())
		{
			Bytes out(a.blk, 0x5A); auto so = secure(out); size_t c = r.consumed(); 
			refused(a, "a request for more than the array holds", [&] { r.gen(out, 3, a.blk - 2); }); refused(a, "a request for more than the secure array holds", [&] { r.gen(so, 3, a.blk - 2); });
			refused(a, "a request at an offset beyond the array", [&] { r.gen(out, a.blk + 1, 1); }); refused(a, "a request at an offset beyond the secure array", [&] { r.gen(so, a.blk + 1, 1); });
			MC_CHECK(out == Bytes(a.blk, 0x5A) && plain(so) == out && r.consumed() == c, "refused-output", "%s: a refused request changed the output or took entropy", a.name);
		}
		else
		{
			bool two = op == 5 + (int)L.size(); Bytes k = pat(two ? (a.f == BC ? 64 : a.key + 1) : a.key, 71);
			if (!m.init) refused(a, "an update before initialisation", [&] { if (two) r.g->Update(secure(k)); else r.g->Update(k); });
			else { MC_OP("update with %zu bytes", k.size()); if (two) r.g->Update(secure(k)); else r.g->Update(k); m.update(k); }
		}
		MC_CHECK(r.ready() == m.init, "initialized", "%s: IsInitialized is %d", a.name, (int)r.ready()); hh = mc::combine(hh, (uint64_t)op);
	}
	if (m.init) { compare(r, m, a.blk + 3, 0); compare(r, m, 7, 1); }
	mc::state(mc::combine(hh, h(m.cache))); mc::outcome(mc::combine(hh, mc::combine(h(m.buf), h(m.ctr))));
}
/* two consecutive requests of every length */
static void pairs(const Alg& a, size_t from, size_t to, size_t second)
{
	Real r(a, 0); Model m = modelFor(r); Seed s = seedOf(a, 0); Bytes big;
	for (size_t x = from; x < to; ++x)
	{
		r.init(s); m.initialize(s); compare(r, m, x, 0); compare(r, m, second, 1); compare(r, m, 3, 0);
		if (a.f == CS || a.f == HC) { r.init(s); Bytes one = pull(r, x + second + 3, 1); r.init(s); Bytes two = pull(r, x, 1); for (size_t q : { second, (size_t)3 }) { Bytes t = pull(r, q, 0); two.insert(two.end(), t.begin(), t.end()); } CHECK_EQ("split", two, one, "%s: requests of %zu, %zu and 3 bytes against a single one", a.name, x, second); }
		mc::outcome(h(m.cache) ^ x);
	}
}
/* key, nonce and info lengths */
static void lengths(const Alg& a, int which)
{
	size_t R = a.f == HC ? 2 * a.blk : a.f == BC ? 136 : rate(a.v); std::vector<size_t> B{ 0, 1, 4, 5, 7, 8, 9, 16, 31, 32, 33 }; for (size_t q = 1; q <= 2; ++q) for (size_t e = 0; e <= 26; ++e) if (q * R + 4 >= e + 4) B.push_back(q * R + 4 - e); B.push_back(2 * R + 40);
	Seed s = seedOf(a, 0); size_t minSalt = a.f == XO ? 4 : 0;
	if (which == 0) { size_t n = mc::pick(B); if (a.f == BC) n = std::vector<size_t>{ 32, 64, 128 }[(size_t)(n % 3)]; if (n < 16) return; s.k = pat(n, 5); int e = mc::choose(2); if (e) s.i.clear(); if (e && a.f != BC) s.n.clear(); }
	if (which == 1) { size_t n = mc::pick(B); if (a.f == BC || (n && n < minSalt) || (a.f == HC && n > 8)) return; s.n = pat(n, 6); size_t i = mc::pick(std::vector<size_t>{ 0, 1, 8, R - 9, R - 2, R - 1, R, R + 1 }); s.i = pat(i, 7); }
	if (which == 2) { size_t i = mc::pick(B); s.i = pat(i, 8); if (a.f == CS || a.f == XO) { size_t n = mc::pick(std::vector<size_t>{ 0, 4, 9, R - 6, R }); s.n = pat(n, 9); } }
	Real r(a, 0); Model m = modelFor(r); mc::transition(); r.init(s); m.initialize(s); compare(r, m, a.blk + 9, 0); mc::outcome(h(cat(s.n, s.i)) ^ s.k.size());
}
/* every bit of the seed, the nonce and the info selects another stream */
static void sensitivity(const Alg& a)
{
	Seed s = seedOf(a, 0); Real r(a, 0); r.init(s); Bytes base = pull(r, 40, 0); r.init(s); CHECK_EQ("repeat", pull(r, 40, 1), base, "%s: the same seed again", a.name);
	Real r2(a, 0); r2.init(s); CHECK_EQ("repeat", pull(r2, 40, 2), base, "%s: the same seed in another instance", a.name); std::set<Bytes> seen{ base };
	auto tryit = [&](const Seed& t, const char* what, size_t bit) { mc::transition(); r.init(t); Bytes o = pull(r, 40, 0); MC_CHECK(seen.insert(o).second, "collision", "%s: changing bit %zu of the %s gives a stream already seen", a.name, bit, what); mc::outcome(h(o)); };
	for (size_t b = 0; b < s.k.size() * 8; ++b) { Seed t = s; t.k[b / 8] ^= (uint8_t)(1 << (b % 8)); tryit(t, "key", b); }
	for (size_t b = 0; b < s.n.size() * 8; ++b) { Seed t = s; t.n[b / 8] ^= (uint8_t)(1 << (b % 8)); tryit(t, "nonce", b); }
	for (size_t b = 0; b < s.i.size() * 8; ++b) { Seed t = s; t.i[b / 8] ^= (uint8_t)(1 << (b % 8)); tryit(t, "info", b); }
	for (size_t n = 1; n <= 3; ++n) { Seed t = s; t.i.resize(s.i.size() - n); tryit(t, "info length", n); t = s; t.i.resize(s.i.size() + n); tryit(t, "info length", n); }
}
/* every update and every reseed enters the later stream; the limits are enforced and a new seed starts again */
static void limits(const Alg& a, int route)
{
	Real r(a, route, true); Seed s = seedOf(a, 0); Bytes k = pat(a.key, 71);
	if (a.f == XO)
	{
		Model m = modelFor(r); r.init(s); m.initialize(s); const size_t CH = 1024000 / 4; SecureVector<uint8_t> big(CH * a.blk);
		for (int i = 0; i < 4; ++i) { MC_OP("SHAKE: %zu blocks", CH); r.gen(big, 0, big.size()); } 
		refused(a, "a request beyond the output limit", [&] { r.gen(big, 0, a.blk); }); r.init(s); compare(r, m, a.blk + 1, 0);
		SecureVector<uint8_t> over; return;
	}
	Model m = modelFor(r); r.init(s); m.initialize(s);
	{ std::vector<uint8_t> o(r.g->MaxRequestSize() + 1); refused(a, "a request larger than the maximum", [&] { r.g->Generate(o); }); bool z = std::all_of(o.begin(), o.end(), [](uint8_t v) { return v == 0; }); MC_CHECK(z, "refused-output", "%s: a refused request left output", a.name); }
	for (size_t n : { (size_t)0, (size_t)1, (size_t)15 }) refused(a, "an update with a short key", [&] { r.g->Update(Bytes(n, 3)); });
	{ Seed t = s; t.k.resize(15); refused(a, "a short key", [&] { r.init(t); }); }
	if (a.f == BC) { Seed t = s; t.n.resize(31); refused(a, "a short nonce", [&] { r.init(t); }); t = s; t.k.resize(33); refused(a, "an illegal key size", [&] { r.init(t); }); }
	r.init(s); m.initialize(s); compare(r, m, a.blk + 1, 0); size_t max = r.g->MaxReseedCount(); MC_CHECK(max == 10000, "limit", "%s: maximum reseed count %zu", a.name, max);
	for (size_t i = 0; i < max; ++i) { mc::transition(); if (i & 1) r.g->Update(secure(k)); else r.g->Update(k); if (i < 3) { m.update(k); compare(r, m, 5, 0); } else if (i == 3) mc::note("..."); }
	refused(a, "an update beyond the maximum reseed count", [&] { r.g->Update(k); }); refused(a, "an update beyond the maximum reseed count", [&] { r.g->Update(secure(k)); });
	m = modelFor(r); r.init(s); m.initialize(s); compare(r, m, a.blk + 1, 0); r.g->Update(k); m.update(k); compare(r, m, a.blk + 1, 1);
	if (m.prov)
	{
		r.init(s); r.g->ReseedThreshold() = 1; for (size_t i = 0; i < max; ++i) { mc::transition(); Bytes o(1); r.g->Generate(o); }
		refused(a, "a reseed beyond the maximum reseed count", [&] { Bytes o(1); r.g->Generate(o); }); m = modelFor(r); m.threshold = 1; r.init(s); m.initialize(s); compare(r, m, 3, 0);
	}
}
/* the thresholds: every combination of request lengths around a threshold */
static void thresholds(const Alg& a, int route)
{
	size_t t = mc::pick(std::vector<size_t>{ 1, 2, a.blk - 1, a.blk, a.blk + 1, 2 * a.blk, 3 * a.blk - 1 }); Real r(a, route); Model m = modelFor(r); r.g->ReseedThreshold() = t; m.threshold = t; r.init(seedOf(a, 0)); m.initialize(seedOf(a, 0));
	for (int i = 0; i < (mc::thorough() ? 5 : 4); ++i) compare(r, m, mc::pick(std::vector<size_t>{ 1, a.blk - 1, a.blk, a.blk + 1, 2 * a.blk }), i & 3); mc::outcome(h(m.cache) ^ h(m.ctr) ^ m.pos);
}
/* the factory and the constructors make the same generator */
static void routes()
{
	for (const Alg& a : ALG)
	{
		if (a.f == XO) continue; Seed s = seedOf(a, 0); Bytes want; { Real r(a, 0); r.init(s); want = pull(r, 3 * a.blk, 0); }
		for (int route : { 1, 2 }) { Real r(a, route); r.init(s); CHECK_EQ("route", pull(r, 3 * a.blk, 0), want, "%s: the same seed through construction route %d", a.name, route); }
		if (a.f != HC || a.v == 256 || a.v == 512)
		{
			Enumeration::Drbgs d = a.f == BC ? Enumeration::Drbgs::BCG : a.f == CS ? Enumeration::Drbgs::CSG : Enumeration::Drbgs::HCG; Enumeration::Digests dg = a.f == HC ? (a.v == 256 ? Enumeration::Digests::SHA2256 : Enumeration::Digests::SHA2512) : static_cast<Enumeration::Digests>(mode(a.v));
			std::unique_ptr<Drbg::IDrbg> g(Helper::DrbgFromName::GetInstance(d, dg, Providers::None)); SymmetricKey k(s.k, s.n, s.i); g->Initialize(k); Bytes o(3 * a.blk); g->Generate(o); mc::transition(); CHECK_EQ("route", o, want, "%s: the same seed through the factory", a.name); mc::outcome(h(o));
		}
	}
}
void mc_register()
{
	bool T = mc::thorough();
	for (const Alg& a : ALG)
	{
		for (int route = 0; route < (a.f == XO ? 1 : 3); ++route) mc::job(std::string("histories/") + a.name + "/" + std::to_string(route), [=] { histories(a, route, T ? 5 : (a.f == BC ? 3 : 4) - (route ? (a.f == BC ? 0 : 1) : 0)); });
		for (size_t sec : { (size_t)1, a.blk - 1, a.blk, a.blk + 1 }) { size_t n = 2 * a.blk + 2, c = 48; for (size_t f = 0; f < n; f += c) mc::job(std::string("pairs/") + a.name + "/" + std::to_string(sec) + "/" + std::to_string(f), [=] { pairs(a, f, std::min(n, f + c), sec); }); }
		for (int w = 0; w < 3; ++w) mc::job(std::string("lengths/") + a.name + "/" + std::to_string(w), [=] { lengths(a, w); });
		mc::job(std::string("sensitivity/") + a.name, [=] { sensitivity(a); });
		for (int route : { 0, 2 }) if (!route || a.f != XO) mc::job(std::string("limits/") + a.name + "/" + std::to_string(route), [=] { limits(a, route); });
		if (a.f != XO) for (int route : { 1, 2 }) mc::job(std::string("thresholds/") + a.name + "/" + std::to_string(route), [=] { thresholds(a, route); });
	}
	mc::job("routes", routes);
	mc::bounds("BCG, CSG in three modes, HCG over both digests and SHAKE in three modes; every history of up to 4 (BCG 3; thorough 5) operations from initialise with three seeds, generate at six or seven lengths, update with two keys and refused requests, without a provider, with a named provider and with a provider instance, at three reseed thresholds; every first request of 0..2 blocks+1 bytes with four second lengths; key, nonce and info lengths around the rate boundaries; every single bit of key, nonce and info; the maximum request, reseed and output limits to the last step");
	mc::assume("the entropy provider is scripted and never fails here (failures are C15); worker thread interleavings are C02, counter carries C18; a partial block ends a BCG or SHAKE request, which take whole blocks");
}
