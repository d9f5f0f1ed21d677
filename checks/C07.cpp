// MC-VARIANT: asan
// MC-LINK: -lcrypto
// MC-TECHNIQUE: exhaustive enumeration of key/salt/info/output lengths around every block boundary and of every initialise/generate/reset history up to a depth on the implementation, against the published definitions written over libcrypto HMAC/SHA-2 and a reference Keccak
// Key derivation equals its published definition at every length.
#include "checks/ossl.h"
#include "Kdfs.h"
#include "KdfFromName.h"
#include "HKDF.h"
#include "KDF2.h"
#include "PBKDF2.h"
#include "SCBKDF.h"
#include "SHAKE.h"
const char* const MC_PROPERTY = "C07";
using Cipher::SymmetricKey; using Enumeration::SHA2Digests; using Enumeration::ShakeModes;
enum Fam { HK, K2, PB, SH, SC };
struct Alg { const char* name; Fam f; int v; size_t blk, hb, minKey; };   /* v: 256/512 or shake bits; blk: output block; hb: hash block */
static const std::vector<Alg> ALG{ { "HKDF256", HK, 256, 32, 64, 16 }, { "HKDF512", HK, 512, 64, 128, 16 }, { "KDF2256", K2, 256, 32, 64, 16 }, { "KDF2512", K2, 512, 64, 128, 16 }, { "PBKDF2256", PB, 256, 32, 64, 8 }, { "PBKDF2512", PB, 512, 64, 128, 8 },
	{ "SHAKE128", SH, 128, 168, 168, 4 }, { "SHAKE256", SH, 256, 136, 136, 4 }, { "SHAKE512", SH, 512, 72, 72, 4 }, { "SCBKDF128", SC, 128, 168, 168, 16 }, { "SCBKDF256", SC, 256, 136, 136, 16 }, { "SCBKDF512", SC, 512, 72, 72, 16 } };
struct P { Bytes k, s, i; uint32_t it = 3; size_t cpu = 4, mem = 0; };

/* the published construction as a stream; every request takes whole blocks */
struct Model
{
	Alg a; P p; Bytes key, salt, prev; uint32_t ctr = 0; ref::K25 st{}; Bytes cache;
	const EVP_MD* md() const { return a.v == 256 ? EVP_sha256() : EVP_sha512(); }
	Model(const Alg& al, const P& q) : a(al), p(q)
	{
		switch (a.f)
		{
		case HK: key = p.s.empty() ? p.k : ossl::hmac(md(), p.s, p.k); break;
		case PB: key = p.k; salt = cat(p.s, p.i); break;
		case K2: if (!p.s.empty()) { key = p.k; salt = cat(p.s, p.i); } else if (p.k.size() <= a.hb) { key = p.k; key.resize(a.hb); salt = p.i; } else { key = sub(p.k, 0, a.hb); salt = cat(sub(p.k, a.hb, p.k.size() - a.hb), p.i); } break;
		case SH: if (!p.s.empty() || !p.i.empty()) ref::kbytepad(st, cat(ref::encStr(p.i), ref::encStr(p.s)), a.blk); ref::kabsorb(st, p.k, a.blk, p.s.empty() && p.i.empty() ? 0x1F : 0x04); break;
		case SC: if (!p.s.empty() || !p.i.empty()) ref::kbytepad(st, cat(ref::encStr(p.i), ref::encStr(p.s)), a.blk); ref::kabsorb(st, p.k, a.blk, 0x24); ref::keccakP(st); cache = ref::kbytes(st, a.blk); break;
		}
	}
	Bytes block()
	{
		++ctr; Bytes c{ (uint8_t)(ctr >> 24), (uint8_t)(ctr >> 16), (uint8_t)(ctr >> 8), (uint8_t)ctr };
		if (a.f == HK) { prev = ossl::hmac(md(), key, cat(cat(prev, p.i), Bytes{ (uint8_t)ctr })); return prev; }
		if (a.f == K2) return ossl::md(md(), cat(cat(key, c), salt));
		if (a.f == PB) { Bytes u = ossl::hmac(md(), key, cat(salt, c)), t = u; for (uint32_t n = 1; n < p.it; ++n) { u = ossl::hmac(md(), key, u); for (size_t x = 0; x < t.size(); ++x) t[x] ^= u[x]; } return t; }
		ref::keccakP(st); return ref::kbytes(st, a.blk);
	}
	Bytes gen(size_t n)
	{
		if (a.f == SC) for (size_t r = 0; r < p.cpu; ++r) { ref::kabsorb(st, cache, a.blk, 0x24); if (cache.size() < p.mem * 1000000) cache = cat(cache, ref::kbytes(st, a.blk)); }
		Bytes o; o.reserve(n + a.blk); while (o.size() < n) { Bytes b = block(); o.insert(o.end(), b.begin(), b.end()); } o.resize(n); return o;
	}
};
static std::unique_ptr<Kdf::IKdf> make(const Alg& a, const P& p = P())
{
	SHA2Digests d = a.v == 256 ? SHA2Digests::SHA2256 : SHA2Digests::SHA2512; ShakeModes m = a.v == 128 ? ShakeModes::SHAKE128 : a.v == 256 ? ShakeModes::SHAKE256 : ShakeModes::SHAKE512;
	switch (a.f) { case HK: return std::unique_ptr<Kdf::IKdf>(new Kdf::HKDF(d)); case K2: return std::unique_ptr<Kdf::IKdf>(new Kdf::KDF2(d)); case PB: return std::unique_ptr<Kdf::IKdf>(new Kdf::PBKDF2(d, p.it)); case SH: return std::unique_ptr<Kdf::IKdf>(new Kdf::SHAKE(m)); default: return std::unique_ptr<Kdf::IKdf>(new Kdf::SCBKDF(m, p.cpu, p.mem)); }
}
static void init(Kdf::IKdf& g, const Alg& a, const P& p, int how = 0)
{
	mc::transition();
	if (how == 1 && a.f == SH) { auto& s = static_cast<Kdf::SHAKE&>(g); if (p.s.empty() && p.i.empty()) s.Initialize(p.k); else if (p.i.empty()) s.Initialize(p.k, p.s); else s.Initialize(p.k, p.s, p.i); return; }
	if (how == 2 && a.f == SH) { auto& s = static_cast<Kdf::SHAKE&>(g); if (p.s.empty() && p.i.empty()) { Bytes b = cat(cat(Bytes(3, 9), p.k), Bytes(5, 8)); s.Initialize(b, 3, p.k.size()); } else if (p.i.empty()) s.Initialize(secure(p.k), secure(p.s)); else s.Initialize(secure(p.k), secure(p.s), secure(p.i)); return; }
	SymmetricKey k(p.k, p.s, p.i); g.Initialize(k);
}
static Bytes gen(Kdf::IKdf& g, size_t n, int how)
{
	mc::transition();
	switch (how)
	{
	case 0: { Bytes o(n, 0x11); g.Generate(o); return o; }
	case 1: { SecureVector<uint8_t> o(n); g.Generate(o); return plain(o); }
	case 2: { Guarded b(7, n, 5); g.Generate(b.buf, 7, n); MC_CHECK(b.intact(), "bounds", "%s: Generate wrote outside the requested window", g.Name().c_str()); return b.window(); }
	default: { Guarded b(9, n, 6); SecureVector<uint8_t> o(b.buf.begin(), b.buf.end()); g.Generate(o, 9, n); b.buf = plain(o); MC_CHECK(b.intact(), "bounds", "%s: Generate (secure) wrote outside the requested window", g.Name().c_str()); return b.window(); }
	}
}
/* HKDF keys its extractor with the salt, and the HMAC refuses keys shorter than 8 bytes: shorter salts may be refused */
static bool mayRefuse(const Alg& a, const P& p) { return a.f == HK && !p.s.empty() && p.s.size() < 8; }
static bool legal(const Alg& a, const P& p)
{
	if (p.k.size() < (a.f == PB ? 4 : a.minKey)) return false;
	if (a.f == HK || a.f == K2) return p.s.empty() || p.s.size() + p.i.size() >= 4;
	if (a.f == PB) return p.s.size() + p.i.size() == 0 || p.s.size() + p.i.size() >= 4;
	if (a.f == SH) return p.s.empty() || p.s.size() >= 4;
	return true;
}
static P par(size_t k, size_t s, size_t i, uint32_t tag = 1) { P p; p.k = pat(k, tag); p.s = pat(s, tag + 10); p.i = pat(i, tag + 20); return p; }

void mc_register()
{
	if (mc::thorough()) mc::setHangSeconds(900);
	mc::bounds("12 derivation functions; every combination of 9 key, 8 salt and 8 info lengths around the hash block / sponge rate; customization and name lengths sweeping every byte position of the sponge block; every output length 1..3 blocks+2 in each of four overloads; every initialise/generate/reset/refused-initialise history of depth 4 (thorough 5); iteration counts 1,2,3,64; cpu cost 0..5, memory cost 0..2 (thorough: past 1 MB of working set); the 255-block limit of HKDF exactly");
	mc::assume("the library's KDF2 pads a key of at most one hash block to the block when no salt is given, and SHAKE512 and SCBKDF are its own parameterisations of Keccak-p[1600]; the reference follows their headers; PBKDF2 keys of 4..7 bytes are accepted by Initialize and refused by the HMAC at Generate, HKDF salts of 4..7 bytes are refused by its HMAC: both are refusals and not judged");
	for (const Alg& a : ALG)
	{
		std::string t = std::string(a.name) + "/";
		mc::job(t + "parameters", [a] {
			size_t B = a.hb; std::vector<size_t> K{ a.minKey, a.minKey + 1, 32, B - 1, B, B + 1, 2 * B, 2 * B + 5, 3 * B }, S{ 0, 8, 9, 16, B - 1, B, B + 1, 2 * B + 3 }, I{ 0, 1, 3, 16, B - 1, B, B + 1, 2 * B + 3 };
			P p = par(mc::pick(K), mc::pick(S), mc::pick(I)); if (!legal(a, p)) return; Model m(a, p); auto g = make(a, p); init(*g, a, p);
			CHECK_EQ("definition", gen(*g, 2 * a.blk + 3, 0), m.gen(2 * a.blk + 3), "%s, key %zu salt %zu info %zu bytes", a.name, p.k.size(), p.s.size(), p.i.size()); mc::outcome(h(p.k) ^ h(p.s) ^ h(p.i) ^ p.i.size());
		});
		if (a.f == SH || a.f == SC) mc::job(t + "customization", [a] {
			size_t n = a.blk + 12; size_t L = (size_t)mc::choose((int)n + 1); static const size_t S[] = { 0, 4, 8, 31, 32, 40, 64, 80, 200 }; P p = par(32, S[mc::choose(9)], L); Model m(a, p); auto g = make(a, p); init(*g, a, p);
			CHECK_EQ("definition", gen(*g, 40, 0), m.gen(40), "%s, customization %zu, name %zu bytes", a.name, p.s.size(), p.i.size()); mc::outcome(L);
		});
		mc::job(t + "short-salts", [a] { P p = par(32 + 0, (size_t)mc::choose(6), (size_t)mc::choose(6)); auto g = make(a, p); bool ok = !throwsStd([&] { init(*g, a, p); }); if (!ok && mayRefuse(a, p)) return; MC_CHECK(ok == legal(a, p), "salt-size", "%s: salt %zu info %zu is %s", a.name, p.s.size(), p.i.size(), ok ? "accepted" : "refused"); if (ok) { Model m(a, p); CHECK_EQ("definition", gen(*g, 20, 0), m.gen(20), "%s, salt %zu info %zu bytes", a.name, p.s.size(), p.i.size()); } mc::outcome(p.s.size() * 8 + p.i.size()); });
		mc::job(t + "short-keys", [a] {  size_t n = 1 + (size_t)mc::choose(20); if (a.f == PB && n >= 4 && n < 8) return; P p = par(n, 0, 0); auto g = make(a, p); bool ok = !throwsStd([&] { init(*g, a, p); }); MC_CHECK(ok == legal(a, p), "key-size", "%s: a key of %zu bytes is %s", a.name, n, ok ? "accepted" : "refused"); if (ok) { Model m(a, p); CHECK_EQ("definition", gen(*g, 20, 0), m.gen(20), "%s, key of %zu", a.name, n); } mc::outcome(n); });
		for (int how = 0; how < 4; ++how) mc::job(t + "lengths" + std::to_string(how), [a, how] {
			size_t n = 1 + (size_t)mc::choose((int)(3 * a.blk + 2)); P p = par(48, 16, 9); Model m(a, p); auto g = make(a, p); init(*g, a, p);
			CHECK_EQ("definition", gen(*g, n, how), m.gen(n), "%s, %zu bytes through overload %d", a.name, n, how); CHECK_EQ("stream", gen(*g, 33, (how + 1) & 3), m.gen(33), "%s, continuing after %zu bytes", a.name, n); mc::outcome(n);
		});
		mc::job(t + "histories", [a] {
			size_t B = a.blk; P ps[4] = { par(32, 0, 0, 1), par(64, 8, 12, 2), par(a.hb + 7, 0, 5, 3), par(40, 40, 0, 4) }; auto g = make(a, ps[0]); std::unique_ptr<Model> m; int depth = mc::thorough() ? 5 : 4;
			for (int d = 0; d < depth; ++d)
			{
				int o = mc::choose(4 + 1 + 4 + 1);
				if (o < 4) { init(*g, a, ps[o], d % 3); m.reset(new Model(a, ps[o])); MC_OP("initialize %d", o); MC_CHECK(g->IsInitialized(), "state", "%s not initialised after Initialize", a.name); }
				else if (o == 4)
				{
					P q = par(a.f == PB ? 3 : a.minKey - 1, 0, 0); if (d & 1) { q = par(32, 2, 1); if (a.f == SC) q = par(3, 0, 0); }
					MC_OP("refused initialize"); bool t = throwsStd([&] { init(*g, a, q); }); MC_CHECK(t, "illegal-key", "%s accepts a key of %zu with salt %zu", a.name, q.k.size(), q.s.size());
					m.reset(); if (g->IsInitialized()) { Bytes x = gen(*g, 1, 0); return; }   /* an instance may keep its old key; either way the next initialisation is checked */
				}
				else if (o < 9)
				{
					size_t n = o == 5 ? 1 : o == 6 ? B : o == 7 ? B + 1 : 2 * B; MC_OP("generate %zu", n);
					if (!m) { bool t = throwsStd([&] { gen(*g, n, d & 3); }); MC_CHECK(t, "uninitialized", "%s generates output without a key", a.name); }
					else CHECK_EQ("stream", gen(*g, n, (d + o) & 3), m->gen(n), "%s, generating %zu bytes at step %d", a.name, n, d + 1);
				}
				else { g->Reset(); m.reset(); MC_OP("reset"); MC_CHECK(!g->IsInitialized(), "state", "%s still initialised after Reset", a.name); }
				mc::state(mc::combine((uint64_t)o, m ? m->ctr + 1 : 0));
			}
			mc::outcome(m ? m->ctr + 1 : 0);
		});
		mc::job(t + "refusals", [a] {
			static const size_t SZ[] = { 1, 16, 40 }; size_t n = SZ[mc::choose(3)]; P p = par(32, 8, 4); auto g = make(a, p); init(*g, a, p); Model m(a, p);
			static const ptrdiff_t OFF[] = { 0, 1, -1, 5, 1000 }; size_t off = (size_t)((ptrdiff_t)n + OFF[mc::choose(5)]), len = 1 + (size_t)mc::choose(3); if (off + len <= n) return; bool sec = mc::flip(); bool t;
			MC_OP("offset %zu length %zu in %zu", off, len, n);
			if (sec) { SecureVector<uint8_t> o(n, 7); t = throwsStd([&] { g->Generate(o, off, len); }); for (auto v : o) MC_CHECK(v == 7, "bounds", "%s wrote despite refusing", a.name); } else { Bytes o(n, 7); t = throwsStd([&] { g->Generate(o, off, len); }); for (auto v : o) MC_CHECK(v == 7, "bounds", "%s wrote despite refusing", a.name); }
			MC_CHECK(t, "range", "%s: Generate into a %zu byte array at offset %zu for %zu bytes is not refused", a.name, n, off, len); CHECK_EQ("stream", gen(*g, 10, 0), m.gen(10), "%s after a refused request", a.name); mc::outcome(off * 8 + len);
		});
		if (a.f == PB) mc::job(t + "iterations", [a] { static const uint32_t IT[] = { 1, 2, 3, 64, 1000 }; P p = par(20, 8, 0); p.it = IT[mc::choose(5)]; auto g = make(a, p); int set = mc::choose(2); if (set) { P q = p; q.it = 7; g = make(a, q); static_cast<Kdf::PBKDF2&>(*g).Iterations() = p.it; } init(*g, a, p); Model m(a, p); CHECK_EQ("definition", gen(*g, 70, 0), m.gen(70), "%s, %u iterations", a.name, p.it); mc::outcome(p.it); });
		if (a.f == PB) mc::job(t + "zero-iterations", [a] { bool t = throwsStd([&] { P p = par(20, 8, 0); p.it = 0; auto g = make(a, p); init(*g, a, p); Bytes o = gen(*g, 20, 0); }); mc::transition(); MC_CHECK(t, "zero-iterations", "%s accepts an iteration count of zero", a.name); });
		if (a.f == SC) mc::job(t + "cost", [a] { P p = par(32, 8, 4); p.cpu = (size_t)mc::choose(6); p.mem = (size_t)mc::choose(3); auto g = make(a, p); init(*g, a, p); Model m(a, p); CHECK_EQ("definition", gen(*g, 200, 0), m.gen(200), "%s, cpu %zu memory %zu", a.name, p.cpu, p.mem); CHECK_EQ("stream", gen(*g, 20, 0), m.gen(20), "%s, cpu %zu memory %zu, second request", a.name, p.cpu, p.mem); mc::outcome(p.cpu * 3 + p.mem); });
		if (a.f == SC && mc::thorough()) mc::job(t + "memory-cost", [a] { P p = par(32, 0, 0); p.cpu = 1000000 / a.blk + 6; p.mem = 1; auto g = make(a, p); init(*g, a, p); Model m(a, p); CHECK_EQ("memory-cost", gen(*g, 64, 0), m.gen(64), "%s, a working set limited to 1 MB", a.name); mc::outcome(1); });
		if (a.f == HK) mc::job(t + "limit", [a] {
			P p = par(32, 16, 9); auto g = make(a, p); init(*g, a, p); Model m(a, p); size_t B = a.blk; static const int FIRST[] = { 0, 1, 100, 253, 254, 255 }; int f = FIRST[mc::choose(6)], over = mc::choose(6); size_t used = (size_t)f;
			if (f) CHECK_EQ("definition", gen(*g, (size_t)f * B, 0), m.gen((size_t)f * B), "%s first %d blocks", a.name, f);
			size_t left = (255 - used) * B; size_t n = over == 0 ? left : over == 1 ? left + 1 : over == 2 ? left + B - 1 : over == 3 ? left + B : over == 4 ? (left ? left - 1 : 1) : left + 5 * B; if (!n) return; MC_OP("generate %zu with %zu left", n, left);
			bool ok = true; Bytes o; try { o = gen(*g, n, mc::choose(4)); } catch (const std::exception&) { ok = false; }
			MC_CHECK(ok == (n <= left), "limit", "%s: a request of %zu bytes after %d blocks is %s; RFC 5869 allows 255 blocks", a.name, n, f, ok ? "accepted" : "refused"); if (ok) CHECK_EQ("definition", o, m.gen(n), "%s at the limit", a.name);
			if (ok && over == 0) MC_CHECK(throwsStd([&] { gen(*g, 1, 0); }), "limit", "%s generates a 256th block", a.name); mc::outcome(n);
		});
	}
}
