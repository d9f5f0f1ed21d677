// MC-VARIANT: asan
// MC-LINK: -lcrypto
// MC-TECHNIQUE: exhaustive enumeration of every update history over the block, rate, lane and parallel boundary lengths (with finalize, reset, re-key and refused calls) on the implementation, each execution compared with independent references
// Digests and MACs depend only on the concatenated message.
#include "checks/ossl.h"
#include "checks/hashref.h"
#include "SHA2256.h"
#include "SHA2512.h"
#include "SHA3256.h"
#include "SHA3512.h"
#include "Blake256.h"
#include "Blake512.h"
#include "Skein256.h"
#include "Skein512.h"
#include "Skein1024.h"
#include "CMAC.h"
#include "GMAC.h"
#include "HMAC.h"
#include "KMAC.h"
#include "KPA.h"
#include "Poly1305.h"
#include "DigestFromName.h"
#include "Keccak.h"
#include <set>
const char* const MC_PROPERTY = "C05";
using Enumeration::Digests; using Enumeration::BlockCiphers; using Cipher::SymmetricKey; using Digest::IDigest; using Digest::Keccak;

struct Alg { const char* name; Digests id; size_t rate, out; };
static const std::vector<Alg> ALG{ { "SHA2256", Digests::SHA2256, 64, 32 }, { "SHA2512", Digests::SHA2512, 128, 64 }, { "SHA3256", Digests::SHA3256, 136, 32 }, { "SHA3512", Digests::SHA3512, 72, 64 }, { "Blake256", Digests::Blake256, 64, 32 }, { "Blake512", Digests::Blake512, 128, 64 }, { "Skein256", Digests::Skein256, 32, 32 }, { "Skein512", Digests::Skein512, 64, 64 }, { "Skein1024", Digests::Skein1024, 128, 128 } };
static Bytes want(const Alg& a, const Bytes& m)
{
	static std::map<std::pair<int, uint64_t>, Bytes> memo; Bytes& r = memo[{ (int)a.id, mc::combine(h(m), m.size()) }]; if (!r.empty()) return r;
	switch (a.id)
	{
	case Digests::SHA2256: return r = ossl::sha256(m); case Digests::SHA2512: return r = ossl::sha512(m); case Digests::SHA3256: return r = ossl::md(EVP_sha3_256(), m); case Digests::SHA3512: return r = ossl::md(EVP_sha3_512(), m);
	case Digests::Blake256: return r = ossl::md(EVP_blake2s256(), m); case Digests::Blake512: return r = ossl::md(EVP_blake2b512(), m); case Digests::Skein256: return r = ref::skein(m, 4); case Digests::Skein512: return r = ref::skein(m, 8); default: return r = ref::skein(m, 16);
	}
}
static std::unique_ptr<IDigest> make(const Alg& a) { return std::unique_ptr<IDigest>(Helper::DigestFromName::GetInstance(a.id, false)); }
static const Bytes& text() { static const Bytes t = pat(1 << 16, 77); return t; }
/* one update, at a varying offset of a larger array, or through a scalar overload when the length is that of a scalar */
static void upd(IDigest& d, const Bytes& m, size_t from, size_t n, int how)
{
	mc::transition();
	if (how == 1 && n == 1) { d.Update(m[from]); return; }
	if (how == 1 && n == 4) { d.Update((uint32_t)ref::le32(&m[from])); return; }
	if (how == 1 && n == 8) { d.Update((uint64_t)ref::le64(&m[from])); return; }
	if (how == 2) { Bytes b = cat(cat(Bytes(5, 0xEE), sub(m, from, n)), Bytes(3, 0xDD)); d.Update(b, 5, n); return; }
	if (how == 3) { Bytes b = sub(m, from, n); d.Update(b, 0, n); return; }
	d.Update(m, from, n);
}
static Bytes fin(IDigest& d, int how) { mc::transition(); Guarded g(how ? 3 : 0, d.DigestSize(), how ? 6 : 0); d.Finalize(g.buf, g.off); MC_CHECK(g.intact(), "bounds", "%s: Finalize wrote outside its %zu bytes", d.Name().c_str(), d.DigestSize()); return g.window(); }
/* the specified refusals of Finalize leave the running state alone */
static void refuse(IDigest& d) { size_t n = d.DigestSize(); Bytes o(n + 2, 9); MC_CHECK(throwsStd([&] { d.Finalize(o, 3); }), "range", "%s: Finalize past the end of its output is not refused", d.Name().c_str()); MC_CHECK(throwsStd([&] { d.Finalize(o, n + 50); }), "range", "%s: Finalize at an offset beyond its output is not refused", d.Name().c_str()); for (auto v : o) MC_CHECK(v == 9, "bounds", "%s wrote despite refusing", d.Name().c_str()); }

/* ---- tree digests ---- */
static std::unique_ptr<IDigest> tree(const Alg& a, int F, int via)
{
	uint8_t f = (uint8_t)F, o = (uint8_t)a.out; std::unique_ptr<IDigest> p;
	if (via == 0) { p.reset(Helper::DigestFromName::GetInstance(a.id, true)); if (p->ParallelProfile().ParallelMaxDegree() != (size_t)F) p->ParallelMaxDegree((size_t)F); return p; }
	if (via == 2) { p = make(a); p->ParallelMaxDegree((size_t)F); return p; }
	switch (a.id)
	{
	case Digests::SHA2256: { Digest::SHA2Params q(o, (uint32_t)a.rate, f); p.reset(new Digest::SHA2256(q)); break; }
	case Digests::SHA2512: { Digest::SHA2Params q(o, (uint32_t)a.rate, f); p.reset(new Digest::SHA2512(q)); break; }
	case Digests::SHA3256: { Digest::KeccakParams q(o, (uint32_t)a.rate, f); p.reset(new Digest::SHA3256(q)); break; }
	case Digests::SHA3512: { Digest::KeccakParams q(o, (uint32_t)a.rate, f); p.reset(new Digest::SHA3512(q)); break; }
	case Digests::Blake256: { Digest::BlakeParams q(o, 2, f, 0, o); p.reset(new Digest::Blake256(q)); break; }
	case Digests::Blake512: { Digest::BlakeParams q(o, 2, f, 0, o); p.reset(new Digest::Blake512(q)); break; }
	case Digests::Skein256: { Digest::SkeinParams q(o, (uint8_t)a.rate, f); p.reset(new Digest::Skein256(q)); break; }
	case Digests::Skein512: { Digest::SkeinParams q(o, (uint8_t)a.rate, f); p.reset(new Digest::Skein512(q)); break; }
	default: { Digest::SkeinParams q(o, (uint8_t)a.rate, f); p.reset(new Digest::Skein1024(q)); break; }
	}
	return p;
}
static bool isBlake(const Alg& a) { return a.id == Digests::Blake256 || a.id == Digests::Blake512; }
/* the code of a message fed in single bytes: no chunk ever meets the large-input paths */
static Bytes bytewise(const Alg& a, int F, const Bytes& m, int via = 1)
{
	static std::map<std::tuple<int, int, int, uint64_t>, Bytes> memo; Bytes& r = memo[std::make_tuple((int)a.id, F, via, mc::combine(h(m), m.size()))]; if (!r.empty()) return r;
	if (isBlake(a)) return r = a.rate == 64 ? ref::blake2tree<uint32_t>(m, F) : ref::blake2tree<uint64_t>(m, F);
	auto cpu = sim::cpu.logical; sim::cpu.logical = 4; auto d = tree(a, F, via); sim::cpu.logical = cpu; for (uint8_t b : m) d->Update(b); r.resize(a.out); d->Finalize(r, 0); return r;
}

/* ---- MACs ---- */
enum MacId { M_CMAC, M_GMAC, M_HMAC, M_KMAC, M_KPA, M_POLY };
struct MacAlg { std::string name; MacId f; int v; size_t blk, tag, key, minIv; bool needIv; };
static std::vector<MacAlg> macs()
{
	std::vector<MacAlg> v; for (int c : { (int)BlockCiphers::AES, (int)BlockCiphers::Serpent, (int)BlockCiphers::RHXH256, (int)BlockCiphers::SHXS512 }) { std::string n = std::to_string(c); v.push_back({ "CMAC" + n, M_CMAC, c, 16, 16, (size_t)(c > 2 ? 64 : 32), 0, false }); v.push_back({ "GMAC" + n, M_GMAC, c, 16, 16, (size_t)(c > 2 ? 64 : 32), 12, true }); }
	v.push_back({ "HMAC256", M_HMAC, 256, 64, 32, 32, 0, false }); v.push_back({ "HMAC512", M_HMAC, 512, 128, 64, 64, 0, false });
	v.push_back({ "KMAC128", M_KMAC, 168, 168, 16, 32, 4, false }); v.push_back({ "KMAC256", M_KMAC, 136, 136, 32, 32, 4, false }); v.push_back({ "KMAC512", M_KMAC, 72, 72, 64, 64, 4, false });
	v.push_back({ "KPA128", M_KPA, 128, 168 * 8, 16, 16, 4, false }); v.push_back({ "KPA256", M_KPA, 256, 136 * 8, 32, 32, 4, false }); v.push_back({ "KPA512", M_KPA, 512, 72 * 8, 64, 64, 4, false }); v.push_back({ "Poly1305", M_POLY, 0, 16, 16, 32, 0, false });
	return v;
}
static std::unique_ptr<Mac::IMac> make(const MacAlg& a)
{
	using namespace Enumeration; Mac::IMac* p;
	switch (a.f)
	{
	case M_CMAC: p = new Mac::CMAC((BlockCiphers)a.v); break; case M_GMAC: p = new Mac::GMAC((BlockCiphers)a.v); break; case M_HMAC: p = new Mac::HMAC(a.v == 256 ? SHA2Digests::SHA2256 : SHA2Digests::SHA2512); break;
	case M_KMAC: p = new Mac::KMAC(a.v == 168 ? KmacModes::KMAC128 : a.v == 136 ? KmacModes::KMAC256 : KmacModes::KMAC512); break; case M_KPA: p = new Mac::KPA(a.v == 128 ? KpaModes::KPA128 : a.v == 256 ? KpaModes::KPA256 : KpaModes::KPA512); break; default: p = new Mac::Poly1305();
	}
	return std::unique_ptr<Mac::IMac>(p);
}
struct K { Bytes k, iv, info; };
static Bytes want(const MacAlg& a, const K& p, const Bytes& m, size_t n)
{
	auto E = [&](const Bytes& b) { return RefBlock::get((BlockCiphers)a.v, p.k).enc(b); };
	switch (a.f)
	{
	case M_CMAC: return ref::cmac(E, m);
	case M_GMAC: { Bytes hk = E(Bytes(16, 0)), j = p.iv; if (j.size() == 12) { j.resize(16); j[15] = 1; } else j = ref::ghash(hk, Bytes(), p.iv); Bytes t = ref::ghash(hk, m, Bytes()), e = E(j); for (size_t i = 0; i < 16; ++i) t[i] ^= e[i]; return t; }
	case M_HMAC: return ossl::hmac(a.v == 256 ? EVP_sha256() : EVP_sha512(), p.k, m);
	case M_KMAC: { ref::K25 s{}; static const Bytes N{ 'K', 'M', 'A', 'C' }; ref::kbytepad(s, cat(ref::encStr(p.info.empty() ? N : p.info), ref::encStr(p.iv)), a.blk); ref::kbytepad(s, ref::encStr(p.k), a.blk); ref::kabsorb(s, cat(m, ref::rightEnc((uint64_t)n * 8)), a.blk, 0x04); return ref::ksqueeze(s, n, a.blk); }
	case M_KPA: return ref::kpa(p.k, p.iv, m, n);
	default: return ref::poly1305(p.k, m);
	}
}
static K par(const MacAlg& a, int i)
{
	K p; p.k = pat(a.key, 300 + (uint32_t)i); if (a.needIv) p.iv = pat(i % 3 == 0 ? 12 : i % 3 == 1 ? 16 : 31, 310 + (uint32_t)i); else if (a.minIv && i % 3) p.iv = pat(i % 3 == 1 ? 16 : 200, 320 + (uint32_t)i); if (a.f == M_KMAC && i % 3 == 2) p.info = pat(9, 330); return p;
}
static void init(Mac::IMac& m, const K& p) { mc::transition(); SymmetricKey k(p.k, p.iv, p.info); m.Initialize(k); }
static Bytes fin(Mac::IMac& m, int how)
{
	mc::transition(); size_t n = m.TagSize(), r;
	if (how == 0) { Bytes o(n); r = m.Finalize(o, 0); MC_CHECK(r == n, "length", "%s: Finalize returns %zu", m.Name().c_str(), r); return o; }
	if (how == 1) { SecureVector<uint8_t> o(n); r = m.Finalize(o, 0); MC_CHECK(r == n, "length", "%s: Finalize (secure) returns %zu", m.Name().c_str(), r); return plain(o); }
	if (how == 2) { Guarded g(7, n, 0); m.Finalize(g.buf, 7); MC_CHECK(g.intact(), "bounds", "%s: Finalize wrote before its offset", m.Name().c_str()); return g.window(); }
	Guarded g(7, n, 0); SecureVector<uint8_t> o(g.buf.begin(), g.buf.end()); m.Finalize(o, 7); g.buf = plain(o); MC_CHECK(g.intact(), "bounds", "%s: Finalize (secure) wrote before its offset", m.Name().c_str()); return g.window();
}
static void upd(Mac::IMac& m, const Bytes& t, size_t from, size_t n, int how) { mc::transition(); if (how & 1) { Bytes b = cat(cat(Bytes(5, 0xEE), sub(t, from, n)), Bytes(3, 0xDD)); m.Update(b, 5, n); } else if (how & 2) { Bytes b = sub(t, from, n); m.Update(b, 0, n); } else m.Update(t, from, n); }

void mc_register()
{
	const bool T = mc::thorough(); if (T) mc::setHangSeconds(600);
	mc::bounds(std::string("9 sequential digests: every 3 (thorough 4) update history over 13 boundary lengths, every length of 6 blocks, every 4-step history of update, scalar update, finalize, refused finalize, reset and compute; keyed BLAKE2; 9 tree digests with 2, 4, 6, 8 lanes: every pair (2 lanes: triple) of chunk lengths over 18 lane and parallel boundary lengths, every byte of messages of 4 parallel blocks flipped, all zero messages up to 4 parallel blocks pairwise distinct, parallel profile and processor count varied; 17 MACs: every 3 update history over 12 boundary lengths in all Finalize overloads, every length of 4 blocks, every 5-step history of initialise, update, finalize, reset and refused calls; Keccak's static helpers over every length of 3 blocks, every lane count") + (T ? ", deeper" : ""));
	mc::assume("a MAC is judged from an initialisation to its first finalize (what a MAC does when used on without re-initialisation differs per MAC by design; HMAC, which re-primes itself, is judged across finalizes); the tree constructions other than BLAKE2sp/bp are the library's own, so they are judged by chunk independence, sensitivity and injectivity rather than by value; RHX and SHX block functions come from C19");
	for (const Alg& a : ALG)
	{
		std::string t = std::string(a.name) + "/"; size_t R = a.rate;
		mc::job(t + "splits", [a, R, T] {
			const std::vector<size_t> L{ 0, 1, 7, R / 2, R - 9, R - 1, R, R + 1, 2 * R - 1, 2 * R, 2 * R + 1, 3 * R, 5 * R + 3 }; auto d = make(a); size_t n = 0; int c = T ? 4 : 3;
			for (int i = 0; i < c; ++i) { size_t l = mc::pick(L); MC_OP("update %zu", l); upd(*d, text(), n, l, (int)((l + (size_t)i) % 4)); n += l; mc::state(n); }
			CHECK_EQ("split", fin(*d, (int)(n & 1)), want(a, sub(text(), 0, n)), "%s of %zu bytes in %d pieces", a.name, n, c);
			upd(*d, text(), 9, n % R, 0); CHECK_EQ("reuse", fin(*d, 1), want(a, sub(text(), 9, n % R)), "%s of a second message after %zu bytes", a.name, n); mc::outcome(n);
		});
		mc::job(t + "lengths", [a, R] { size_t n = (size_t)mc::choose((int)(6 * R + 4)); auto d = make(a); Bytes o(a.out + 4, 1); MC_OP("compute %zu", n); d->Compute(sub(text(), 3, n), o); o.resize(a.out); CHECK_EQ("definition", o, want(a, sub(text(), 3, n)), "%s of %zu bytes", a.name, n); mc::outcome(n); });
		mc::job(t + "scalars", [a, R] {
			const size_t L[] = { 1, 4, 8, R - 5 }; auto d = make(a); size_t n = (size_t)mc::choose(3) * (R / 2 - 2); upd(*d, text(), 0, n, 0); for (int i = 0; i < 5; ++i) { size_t l = L[mc::choose(4)]; MC_OP("update %zu", l); upd(*d, text(), n, l, 1); n += l; }
			CHECK_EQ("split", fin(*d, 0), want(a, sub(text(), 0, n)), "%s of %zu bytes through the scalar updates", a.name, n); mc::outcome(n);
		});
		mc::job(t + "histories", [a, R, T] {
			auto d = make(a); Bytes m; int depth = T ? 6 : 4; size_t at = 0; const size_t L[] = { 1, R - 1, R, 2 * R + 1 };
			for (int i = 0; i < depth; ++i)
			{
				int o = mc::choose(8);
				if (o < 4) { MC_OP("update %zu", L[o]); upd(*d, text(), at, L[o], i & 3); m = cat(m, sub(text(), at, L[o])); at += L[o]; }
				else if (o == 4) { MC_OP("finalize"); CHECK_EQ("history", fin(*d, i & 1), want(a, m), "%s of %zu bytes at step %d", a.name, m.size(), i + 1); m.clear(); }
				else if (o == 5) { MC_OP("reset"); d->Reset(); m.clear(); }
				else if (o == 6) { MC_OP("compute"); Bytes x(a.out); d->Compute(sub(text(), 40, R + 2), x); CHECK_EQ("history", x, want(a, cat(m, sub(text(), 40, R + 2))), "%s Compute at step %d", a.name, i + 1); m.clear(); }
				else { MC_OP("refused finalize"); refuse(*d); Bytes x(a.out - 1); MC_CHECK(throwsStd([&] { d->Compute(m, x); }), "range", "%s Compute into a short array is not refused", a.name); }
				mc::state(m.size());
			}
			CHECK_EQ("history", fin(*d, 0), want(a, m), "%s of %zu bytes at the end", a.name, m.size()); mc::outcome(m.size());
		});
		if (isBlake(a)) mc::job(t + "keyed", [a, R] {
			size_t kl = a.out / 2 + (size_t)mc::choose((int)(a.out / 2) + 1); bool s = mc::flip(), p = mc::flip(); const size_t L[] = { 0, 1, R - 1, R, R + 1, 2 * R, 3 * R + 7 }; size_t n = L[mc::choose(7)]; size_t q = R / 8; K k{ pat(kl, 5), s ? pat(q, 6) : Bytes(), p ? pat(q, 7) : Bytes() };
			SymmetricKey sk(k.k, k.iv, k.info); auto run = [&](IDigest& d) { if (R == 64) static_cast<Digest::Blake256&>(d).Initialize(sk); else static_cast<Digest::Blake512&>(d).Initialize(sk); };
			auto d = make(a); if (n & 1) { upd(*d, text(), 0, 70, 0); d->Reset(); } run(*d); MC_OP("keyed %zu, message %zu", kl, n); upd(*d, text(), 0, n / 2, 0); upd(*d, text(), n / 2, n - n / 2, 2);
			Bytes m = sub(text(), 0, n), w = R == 64 ? ref::blake2<uint32_t>(m, k.k, k.iv, k.info) : ref::blake2<uint64_t>(m, k.k, k.iv, k.info); CHECK_EQ("keyed", fin(*d, 0), w, "%s, key %zu salt %zu personalization %zu, %zu bytes", a.name, kl, k.iv.size(), k.info.size(), n);
			upd(*d, text(), 0, 10, 0); CHECK_EQ("reuse", fin(*d, 0), want(a, sub(text(), 0, 10)), "%s after a keyed message", a.name); mc::outcome(kl * 64 + n);
		});
		for (int F : { 2, 4, 6, 8 })
		{
			if (F == 6 && !T && R != 64) continue;
			size_t P = (size_t)F * R; std::string q = t + "tree" + std::to_string(F) + "/";
			mc::job(q + "splits", [a, R, P, F, T] {
				sim::cpu.logical = 4; std::vector<size_t> L{ 0, 1, R - 1, R, R + 1, P - R, P - 1, P, P + 1, P + R, 2 * P - 1, 2 * P, 2 * P + 1, 2 * P + R + 3, 3 * P - R, 3 * P - R + 1, 3 * P + 5, 4 * P + R + 1 };
				auto d = tree(a, F, 1); size_t n = 0; int c = F == 2 || T ? 3 : 2; if (c == 3) L = { 0, 1, R - 1, R, P - 1, P, P + 1, 2 * P, 2 * P + R + 3, 3 * P - R + 1, 4 * P + R + 1 };
				for (int i = 0; i < c; ++i) { size_t l = mc::pick(L); MC_OP("update %zu", l); upd(*d, text(), n, l, (int)((l + (size_t)i) % 4)); n += l; mc::state(n); }
				Bytes m = sub(text(), 0, n); CHECK_EQ("split", fin(*d, (int)(n & 1)), bytewise(a, F, m), "%s with %d lanes, %zu bytes in %d pieces", a.name, F, n, c);
				upd(*d, text(), 0, n % (P + 9), 0); CHECK_EQ("reuse", fin(*d, 0), bytewise(a, F, sub(text(), 0, n % (P + 9))), "%s with %d lanes, a second message", a.name, F); mc::outcome(n);
			});
			mc::job(q + "configurations", [a, R, P, F] {
				static const uint32_t CPU[] = { 2, 8, 16 }; sim::cpu.logical = CPU[mc::choose(3)]; int via = mc::choose(3), set = mc::choose(3); const size_t L[] = { 0, R, P + 1, 3 * P + 5, 4 * P + R + 1 }; size_t n = L[mc::choose(5)]; auto d = tree(a, F, via);
				if (set == 1) d->ParallelProfile().SetMaxDegree(2); if (set == 2) d->ParallelProfile().IsParallel() = false;
				MC_OP("%u processors, constructor %d, profile %d, %zu bytes", sim::cpu.logical, via, set, n); upd(*d, text(), 0, n / 3, 0); upd(*d, text(), n / 3, n - n / 3, 0); CHECK_EQ("configuration", fin(*d, 0), bytewise(a, F, sub(text(), 0, n), via), "%s with %d lanes on %u processors (constructor %d, profile change %d)", a.name, F, sim::cpu.logical, via, set); mc::outcome(n);
			});
			if (F <= 4) mc::job(q + "sensitivity", [a, R, P, F] {
				const size_t L[] = { P + R, 3 * P + 5, 4 * P + R + 1 }; size_t n = L[mc::choose(3)]; size_t step = F == 2 ? 1 : 7; size_t i = step * (size_t)mc::choose((int)(n / step)); Bytes m = sub(text(), 0, n); static std::map<std::pair<std::string, size_t>, Bytes> base; Bytes& b = base[{ std::string(a.name) + (char)F, n }]; auto d = tree(a, F, 1); if (b.empty()) { d->Update(m, 0, n); b = fin(*d, 0); }
				m[i] ^= (uint8_t)(1 << (i % 8)); d->Update(m, 0, n); MC_CHECK(fin(*d, 0) != b, "insensitive", "%s with %d lanes: byte %zu of a %zu byte message does not affect the code", a.name, F, i, n); mc::outcome(n * 8192 + i);
			});
			if (F == 2) mc::job(q + "extension", [a, R, P, F] { std::set<Bytes> seen; auto d = tree(a, F, 1); size_t top = 4 * P + 2; for (size_t n = 0; n <= top; ++n) { Bytes z(n, 0); d->Update(z, 0, n); MC_CHECK(seen.insert(fin(*d, 0)).second, "collision", "%s with %d lanes: the zero message of %zu bytes has the code of a shorter one", a.name, F, n); } mc::outcome(top); });
			if (isBlake(a) && F == 4) mc::job(q + "keyed", [a, R, P, F] {
				const size_t L[] = { 0, 1, R, P - 1, P, P + 1, 2 * P + R + 3, 4 * P + 1 }; size_t x = L[mc::choose(8)], y = L[mc::choose(8)], kl = mc::flip() ? a.out / 2 : a.out; auto d = tree(a, F, 1); SymmetricKey sk(pat(kl, 5)); if (R == 64) static_cast<Digest::Blake256&>(*d).Initialize(sk); else static_cast<Digest::Blake512&>(*d).Initialize(sk);
				MC_OP("keyed %zu, pieces %zu %zu", kl, x, y); upd(*d, text(), 0, x, 0); upd(*d, text(), x, y, 0); Bytes m = sub(text(), 0, x + y); CHECK_EQ("keyed", fin(*d, 0), R == 64 ? ref::blake2tree<uint32_t>(m, F, pat(kl, 5)) : ref::blake2tree<uint64_t>(m, F, pat(kl, 5)), "%s tree, key %zu, %zu bytes", a.name, kl, m.size()); mc::outcome(x * 8 + y);
			});
		}
		mc::job(t + "degrees", [a] { size_t n = (size_t)mc::choose(70); auto d = make(a); bool ok = n > 1 && n % 2 == 0 && n <= 64; bool t = throwsStd([&] { d->ParallelMaxDegree(n); }); mc::transition(); MC_CHECK(ok == !t, "degree", "%s: a degree of %zu is %s", a.name, n, t ? "refused" : "accepted"); if (ok) { upd(*d, text(), 0, 3 * n * a.rate + 5, 0); CHECK_EQ("configuration", fin(*d, 0), bytewise(a, (int)n, sub(text(), 0, 3 * n * a.rate + 5), 2), "%s with %zu lanes", a.name, n); } mc::outcome(n); });
	}
	for (const MacAlg& a : macs())
	{
		std::string t = a.name + "/"; size_t B = a.blk;
		mc::job(t + "splits", [a, B, T] {
			const std::vector<size_t> L{ 0, 1, B / 2, B - 5, B - 3, B - 1, B, B + 1, 2 * B - 1, 2 * B, 3 * B + 1, 4 * B + 5 }; auto m = make(a); K p = par(a, mc::thorough() ? mc::choose(3) : 1); init(*m, p); size_t n = 0; int c = T && a.f != M_KPA ? 4 : 3; if (a.f == M_KPA && !T) c = 2;
			for (int i = 0; i < c; ++i) { size_t l = mc::pick(L); MC_OP("update %zu", l); upd(*m, text(), n, l, (int)l + i); n += l; mc::state(n); }
			CHECK_EQ("split", fin(*m, (int)(n % 4)), want(a, p, sub(text(), 0, n), a.tag), "%s of %zu bytes in %d pieces", a.name.c_str(), n, c); mc::outcome(n);
		});
		for (int how = 0; how < 4; ++how) mc::job(t + "lengths" + std::to_string(how), [a, B, how] {
			size_t n = (size_t)mc::choose((int)std::min<size_t>(4 * B + 3, a.f == M_KPA ? 2 * B + 3 : 1000)); auto m = make(a); K p = par(a, how); init(*m, p); MC_OP("%zu bytes", n); upd(*m, text(), 1, n, how); CHECK_EQ("definition", fin(*m, how), want(a, p, sub(text(), 1, n), a.tag), "%s of %zu bytes", a.name.c_str(), n); mc::outcome(n);
		});
		mc::job(t + "parameters", [a, B] {
			K p; size_t i = (size_t)mc::choose(5), j = (size_t)mc::choose(8), x = (size_t)mc::choose(3); const size_t HK[] = { 8, B - 1, B, B + 1, 3 * B }, SK[] = { 16, 32, B - 3, B, 2 * B + 1 }; const size_t IV[] = { 12, 13, 15, 16, 17, 31, 32, 49 }, SV[] = { 0, 4, B - 8, B - 5, B - 4, B - 1, B, 2 * B };
			if (a.f == M_HMAC) { if (x || j) return; p.k = pat(HK[i], 1); } else if (a.f == M_KMAC) { p.k = pat(SK[i], 1); p.iv = pat(SV[j], 2); p.info = pat(x * 31, 3); } else if (a.f == M_KPA) { if (x || i > 2) return; static const size_t KK[] = { 16, 32, 64 }; p.k = pat(KK[i], 1); p.iv = pat(SV[j] % 500, 2); if (!p.iv.empty() && p.iv.size() < 4) return; }
			else if (a.f == M_GMAC) { if (x || i) return; p.k = pat(a.key, 1); p.iv = pat(IV[j], 2); } else { if (x || j || i > 1) return; p.k = pat(a.f == M_POLY ? 32 : i ? 32 : a.key, 1 + (uint32_t)i); }
			auto m = make(a); init(*m, p); MC_OP("key %zu iv %zu info %zu", p.k.size(), p.iv.size(), p.info.size()); upd(*m, text(), 0, B + 3, 0); CHECK_EQ("definition", fin(*m, 0), want(a, p, sub(text(), 0, B + 3), a.tag), "%s, key %zu salt %zu info %zu", a.name.c_str(), p.k.size(), p.iv.size(), p.info.size()); mc::outcome(p.k.size() * 4096 + p.iv.size() * 8 + p.info.size());
		});
		mc::job(t + "histories", [a, B, T] {
			auto m = make(a); K p; Bytes msg; bool live = false; int depth = T ? 6 : 5; const size_t L[] = { 1, B - 1, B, B + 3 }; size_t at = 0;
			for (int i = 0; i < depth; ++i)
			{
				int o = mc::choose(9);
				if (o < 2) { p = par(a, o + 1); MC_OP("initialize %d", o); init(*m, p); msg.clear(); live = true; MC_CHECK(m->IsInitialized(), "state", "%s not initialised", a.name.c_str()); }
				else if (o < 5) { size_t n = L[o - 2 + (i & 1)]; if (!live) { if (i == 0) { MC_CHECK(throwsStd([&] { upd(*m, text(), 0, n, i); }), "uninitialized", "%s takes data without a key", a.name.c_str()); } return; } MC_OP("update %zu", n); upd(*m, text(), at, n, i); msg = cat(msg, sub(text(), at, n)); at += n; }
				else if (o == 5 || o == 6)
				{
					if (!live) { if (i == 0) { MC_CHECK(throwsStd([&] { fin(*m, o - 5); }), "uninitialized", "%s gives a code without a key", a.name.c_str()); } return; }
					MC_OP("finalize"); CHECK_EQ("history", fin(*m, (o - 5) + 2 * (i & 1)), want(a, p, msg, a.tag), "%s of %zu bytes at step %d", a.name.c_str(), msg.size(), i + 1); msg.clear(); live = a.f == M_HMAC;
				}
				else if (o == 7) { MC_OP("reset"); m->Reset(); live = false; msg.clear(); MC_CHECK(!m->IsInitialized(), "state", "%s still initialised after Reset", a.name.c_str()); MC_CHECK(throwsStd([&] { upd(*m, text(), 0, 3, 0); }), "uninitialized", "%s takes data after Reset", a.name.c_str()); }
				else
				{
					MC_OP("refused calls"); size_t n = a.tag; Bytes s(n + 1, 9); SecureVector<uint8_t> v(n + 1, 9); if (!live) return;
					MC_CHECK(throwsStd([&] { m->Finalize(s, 2); }) && throwsStd([&] { m->Finalize(s, n + 40); }) && throwsStd([&] { m->Finalize(v, 2); }) && throwsStd([&] { m->Finalize(v, n + 40); }), "range", "%s: Finalize past the end of its output is not refused", a.name.c_str());
					MC_CHECK(throwsStd([&] { m->Update(s, 2, n); }) && throwsStd([&] { m->Update(s, n + 40, 1); }), "range", "%s: Update past the end of its input is not refused", a.name.c_str()); for (auto b : s) MC_CHECK(b == 9, "bounds", "%s wrote despite refusing", a.name.c_str()); for (auto b : v) MC_CHECK(b == 9, "bounds", "%s wrote despite refusing", a.name.c_str());
					K q; q.k = pat(a.f == M_POLY ? 31 : a.f == M_HMAC ? 7 : 15, 3); MC_CHECK(throwsStd([&] { init(*m, q); }), "key-size", "%s accepts a key of %zu bytes", a.name.c_str(), q.k.size()); if (!m->IsInitialized()) return;
				}
				mc::state(mc::combine(msg.size(), live));
			}
			if (live) CHECK_EQ("history", fin(*m, 0), want(a, p, msg, a.tag), "%s of %zu bytes at the end", a.name.c_str(), msg.size()); mc::outcome(msg.size());
		});
		if (a.f == M_KMAC || a.f == M_KPA) mc::job(t + "output-length", [a, B] { size_t n = a.tag + (size_t)mc::choose((int)std::min<size_t>(2 * B, 420)), off = mc::flip() ? 3 : 0; auto m = make(a); K p = par(a, 1); init(*m, p); upd(*m, text(), 0, 100, 0); Bytes o(off + n, 5); MC_OP("finalize %zu", n); m->Finalize(o, off); CHECK_EQ("definition", sub(o, off, n), want(a, p, sub(text(), 0, 100), n), "%s, a code of %zu bytes", a.name.c_str(), n); mc::outcome(n); });
		if (a.f == M_KMAC) mc::job(t + "output-straddle", [a, B] { size_t n = B - 6 + (size_t)mc::choose(8), l = mc::flip() ? a.tag : 600; auto m = make(a); K p = par(a, 0); init(*m, p); upd(*m, text(), 0, n, 0); Bytes o(l); MC_OP("%zu bytes, code %zu", n, l); m->Finalize(o, 0); CHECK_EQ("definition", o, want(a, p, sub(text(), 0, n), l), "%s of %zu bytes, a code of %zu", a.name.c_str(), n, l); mc::outcome(n * 2 + (l > 100)); });
		if (a.f == M_GMAC) mc::job(t + "portable", [a, B] { sim::cpu.pclmul = mc::flip(); size_t n = (size_t)mc::choose(70); auto m = make(a); K p = par(a, mc::choose(3)); init(*m, p); upd(*m, text(), 0, n, 0); CHECK_EQ("definition", fin(*m, 0), want(a, p, sub(text(), 0, n), 16), "%s of %zu bytes %s carry-less multiplication", a.name.c_str(), n, sim::cpu.pclmul ? "with" : "without"); mc::outcome(n * 2 + sim::cpu.pclmul); });
	}
	/* Poly1305 at its carries: clamped r and s at their extremes, blocks of ones and zeros */
	mc::job("Poly1305/carries", [T] {
		static const uint8_t RB[] = { 0x00, 0xFF, 0x01, 0x0F }, SB[] = { 0x00, 0xFF }; K p; p.k = cat(Bytes(16, RB[mc::choose(4)]), Bytes(16, SB[mc::choose(2)])); int fix = mc::choose(4); if (fix == 1) { std::fill(p.k.begin() + 1, p.k.begin() + 16, 0); p.k[0] = 2; } if (fix == 2) { std::fill(p.k.begin(), p.k.begin() + 16, 0); p.k[0] = 1; } if (fix == 3) p.k[0] = 5;
		auto m = make(macs().back()); init(*m, p); Bytes msg; int c = T ? 5 : 4; for (int i = 0; i < c; ++i) { int b = mc::choose(6); Bytes x = b == 0 ? Bytes(16, 0xFF) : b == 1 ? Bytes(16, 0) : b == 2 ? cat(Bytes(1, 0xFB), Bytes(15, 0xFF)) : b == 3 ? cat(Bytes(15, 0), Bytes(1, 0x80)) : b == 4 ? cat(Bytes(1, 0xFA), Bytes(15, 0xFF)) : cat(Bytes(1, 0xFD), Bytes(15, 0xFF)); if (i == c - 1) x.resize(x.size() - (size_t)(b & 1)); msg = cat(msg, x); }
		MC_OP("message %s", hx(msg, 80).c_str()); upd(*m, msg, 0, msg.size(), 0); CHECK_EQ("definition", fin(*m, 0), ref::poly1305(p.k, msg), "Poly1305, r %s.., message %s", hx(sub(p.k, 0, 4)).c_str(), hx(msg, 80).c_str()); mc::outcome(h(msg));
	});
	/* Keccak's static functions */
	for (size_t rate : { (size_t)168, (size_t)136, (size_t)72, (size_t)144, (size_t)104 }) for (int rd : { 24, 12, 48 })
	{
		if (rd != 24 && rate > 140 && !T) continue; std::string t = "Keccak" + std::to_string(rate) + "r" + std::to_string(rd) + "/"; auto pr = rd == 24 ? Keccak::PermutationRounds::RX24 : rd == 12 ? Keccak::PermutationRounds::RX12 : Keccak::PermutationRounds::RX48;
		mc::job(t + "absorb", [rate, rd, pr] { size_t n = (size_t)mc::choose((int)(3 * rate + 2)), off = n % 3; std::array<uint64_t, 25> s{}; Keccak::Absorb(text(), off, n, rate, (uint8_t)0x1F, s, pr); ref::K25 r{}; ref::kabsorb(r, sub(text(), off, n), rate, 0x1F, rd); MC_OP("absorb %zu", n); MC_CHECK(s == r, "absorb", "Keccak::Absorb of %zu bytes at rate %zu", n, rate); Bytes o(2 * rate + 9); Keccak::Squeeze(s, o, 5, 2, rate, pr); CHECK_EQ("squeeze", sub(o, 5, 2 * rate), ref::ksqueeze(r, 2 * rate, rate, rd), "Keccak::Squeeze at rate %zu", rate); mc::outcome(n); });
		mc::job(t + "incremental", [rate, rd, pr] {
			const std::vector<size_t> L{ 0, 1, 3, 7, 8, 9, rate - 9, rate - 8, rate - 1, rate, rate + 1, rate + 13, 2 * rate }; std::array<uint64_t, 25> s{}; size_t n = 0, pos = 0; for (int i = 0; i < 3; ++i) { size_t l = mc::pick(L); MC_OP("incremental %zu", l); pos = Keccak::Incremental(text(), n, l, pos, rate, (uint8_t)0x1F, s, false, pr); n += l; MC_CHECK(pos == n % rate, "incremental", "Keccak::Incremental returns position %zu after %zu bytes at rate %zu", pos, n, rate); }
			Keccak::Incremental(text(), 0, 0, pos, rate, (uint8_t)0x1F, s, true, pr); ref::K25 r{}; ref::kabsorb(r, sub(text(), 0, n), rate, 0x1F, rd); MC_CHECK(s == r, "incremental", "Keccak::Incremental of %zu bytes in three pieces at rate %zu differs from one absorb", n, rate); mc::outcome(n);
		});
		mc::job(t + "xof", [rate, rd, pr] { static const size_t D[] = { 0, 1, 7, 8, 40 }; size_t n = (size_t)mc::choose((int)(2 * rate + 2)), m = D[mc::choose(5)] + (n & 1 ? rate : 0); Guarded g(3, m, 4); MC_OP("xof %zu to %zu", n, m); Keccak::XOFP1600(text(), 2, n, g.buf, 3, m, rate, pr); MC_CHECK(g.intact(), "bounds", "Keccak::XOFP1600 wrote outside its output"); CHECK_EQ("xof", g.window(), ref::cshake(sub(text(), 2, n), Bytes(), Bytes(), rate, m, rd), "Keccak::XOFP1600 of %zu bytes to %zu at rate %zu", n, m, rate);
			if (rd == 48) { Guarded q(3, m, 4); Keccak::XOFR48P1600(text(), 2, n, q.buf, 3, m, rate); MC_CHECK(q.intact(), "bounds", "Keccak::XOFR48P1600 wrote outside its output"); CHECK_EQ("xof", q.window(), g.window(), "Keccak::XOFR48P1600 of %zu bytes to %zu at rate %zu", n, m, rate); } mc::outcome(n * 512 + m); });
		mc::job(t + "cxof", [rate, rd, pr] { const size_t L[] = { 0, 5, rate - 8, rate - 6, rate - 5, rate - 4, rate - 3, rate - 1, rate, rate + 40 }; size_t a = L[mc::choose(10)], b = L[mc::choose(10)], k = L[mc::choose(3)]; Bytes o(rate + 7); Keccak::CXOFP1600(sub(text(), 0, k), sub(text(), 5, a), sub(text(), 9, b), o, 2, rate + 5, rate, pr); MC_OP("cxof %zu %zu %zu", k, a, b);
			ref::K25 s{}; ref::kbytepad(s, cat(ref::encStr(sub(text(), 9, b)), ref::encStr(sub(text(), 5, a))), rate, rd); ref::kabsorb(s, sub(text(), 0, k), rate, 4, rd); CHECK_EQ("cxof", sub(o, 2, rate + 5), ref::ksqueeze(s, rate + 5, rate, rd), "Keccak::CXOFP1600, customization %zu name %zu key %zu at rate %zu", a, b, k, rate); mc::outcome(a * 1024 + b); });
		mc::job(t + "mac", [rate, rd, pr] { size_t n = (size_t)mc::choose((int)(2 * rate + 2)); const size_t KL[] = { 16, rate - 5, rate - 4, rate }; size_t k = KL[mc::choose(4)], l = mc::flip() ? 32 : 600; Bytes o(l); Keccak::MACP1600(sub(text(), 0, k), sub(text(), 9, 7), text(), 4, n, o, rate, pr); MC_OP("mac %zu", n); CHECK_EQ("mac", o, ref::kmac(sub(text(), 0, k), sub(text(), 4, n), sub(text(), 9, 7), rate, l, rd), "Keccak::MACP1600 of %zu bytes, key %zu, code %zu at rate %zu", n, k, l, rate); mc::outcome(n); });
		mc::job(t + "finalize", [rate, rd, pr] { size_t l = (size_t)mc::choose((int)(2 * rate + 3)); std::array<uint64_t, 25> s{}; ref::K25 r{}; for (int i = 0; i < 25; ++i) s[(size_t)i] = r[(size_t)i] = (uint64_t)i * 77777777777ULL; Guarded g(3, l, 4); Keccak::Finalize(g.buf, 3, l, rate, (uint8_t)4, s, pr); ref::kabsorb(r, ref::rightEnc(8 * l), rate, 4, rd); MC_OP("finalize %zu", l); MC_CHECK(g.intact(), "bounds", "Keccak::Finalize wrote outside its output"); CHECK_EQ("finalize", g.window(), ref::ksqueeze(r, l, rate, rd), "Keccak::Finalize to %zu bytes at rate %zu", l, rate); mc::outcome(l); });
	}
	mc::job("Keccak/encode", [] { int b = mc::choose(64); uint64_t v = (1ULL << b) - (uint64_t)mc::choose(2); Bytes l(12, 7), r(12, 7); size_t n = Keccak::LeftEncode(l, 1, v), m = Keccak::RightEncode(r, 1, v); mc::transition(); CHECK_EQ("encode", sub(l, 1, n), ref::leftEnc(v), "LeftEncode of %llx", (unsigned long long)v); CHECK_EQ("encode", sub(r, 1, m), ref::rightEnc(v), "RightEncode of %llx", (unsigned long long)v); MC_CHECK(l[0] == 7 && r[0] == 7 && l[n + 1 < 12 ? n + 1 : 0] == 7, "bounds", "an encoding wrote outside its bytes"); mc::outcome(v); });
	mc::job("Keccak/permutations", [] {
		ref::K25 s{}; int k = mc::choose(26), b = mc::choose(8); if (k < 25) s[(size_t)k] = 1ULL << (b * 8 + (k % 8)); else for (auto& v : s) v = ~(uint64_t)b; int rd = mc::choose(3); ref::K25 r = s; ref::keccakP(r, rd == 0 ? 24 : rd == 1 ? 48 : 12);
		std::array<uint64_t, 25> a; std::copy(s.begin(), s.end(), a.begin()); mc::transition();
		if (rd == 0) { auto c = a; Keccak::PermuteR24P1600U(c); MC_CHECK(c == r, "permute", "Keccak::PermuteR24P1600U"); Keccak::Permute(a, Keccak::PermutationRounds::RX24); } else if (rd == 1) { auto c = a; Keccak::PermuteR48P1600U(c); MC_CHECK(c == r, "permute", "Keccak::PermuteR48P1600U"); Keccak::Permute(a, Keccak::PermutationRounds::RX48); } else Keccak::Permute(a, Keccak::PermutationRounds::RX12);
		MC_CHECK(a == r, "permute", "Keccak::Permute with %d rounds", rd == 0 ? 24 : rd == 1 ? 48 : 12);
		std::array<Numeric::ULong256, 25> w; ref::K25 q[4]; for (int l = 0; l < 4; ++l) q[l] = s; for (int l = 0; l < 4; ++l) q[l][(size_t)(l + k) % 25] ^= 0x9E3779B97F4A7C15ULL * (uint64_t)(l + 1);
		for (size_t i = 0; i < 25; ++i) { std::vector<uint64_t> v{ q[0][i], q[1][i], q[2][i], q[3][i] }; w[i] = Numeric::ULong256(v, 0); }
		if (rd == 0) Keccak::PermuteR24P4x1600H(w); else if (rd == 1) Keccak::PermuteR48P4x1600H(w); else Keccak::PermuteR24P4x1600H(w, 12);
		for (int l = 0; l < 4; ++l) { ref::keccakP(q[l], rd == 0 ? 24 : rd == 1 ? 48 : 12); for (size_t i = 0; i < 25; ++i) { std::vector<uint64_t> v(4); w[i].Store(v, 0); MC_CHECK(v[(size_t)l] == q[l][i], "permute", "the four lane Keccak permutation differs in lane %d", l); } } mc::outcome((uint64_t)k * 64 + (uint64_t)b * 4 + (uint64_t)rd);
	});
}
