// MC-VARIANT: asan
// MC-TECHNIQUE: fault-injection model checking of the implementation: every call a provider, generator or key producer makes to its entropy source is a choice point (answer, fail once, fail from there on), all points of a bounded request history are enumerated and each successful result is compared with the same history over another source
// Entropy failures are always reported, never turned into predictable output.
#include "checks/common.h"
#include "CSP.h"
#include "RDP.h"
#include "CJP.h"
#include "ECP.h"
#include "ACP.h"
#include "ProviderFromName.h"
#include "ProviderBase.h"
#include "PrngBase.h"
#include "BCR.h"
#include "CSR.h"
#include "HCR.h"
#include "BCG.h"
#include "CSG.h"
#include "HCG.h"
#include "SecureRandom.h"
#include "SymmetricKeyGenerator.h"
#include "SymmetricSecureKey.h"
#include "Kyber.h"
#include "Dilithium.h"
#include "ECDH.h"
#include "ECDSA.h"
#include "McEliece.h"
#include "SphincsPlus.h"
#include "XMSS.h"
#include <chrono>
#include <sys/time.h>
#include <cstring>
const char* const MC_PROPERTY = "C15";
using Enumeration::Providers; using Provider::IProvider; typedef SecureVector<uint8_t> SV;

/* every clock is the simulated one, so that the only difference between two runs is the source */
static uint64_t g_wall = 1000000;
namespace std { namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { return time_point(duration((rep)(g_wall += 12345))); } } } }

extern "C" int gettimeofday(struct timeval* t, void*) noexcept { g_wall += 12345; t->tv_sec = (time_t)(g_wall / 1000000); t->tv_usec = (suseconds_t)(g_wall % 1000000); return 0; }
/* ---- a source in which one fault can be placed ---- */
static uint64_t mixw(uint64_t w, uint64_t i) { uint64_t x = (w + 1) * 0x9E3779B97F4A7C15ULL + i * 0xD1B54A32D192ED03ULL; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ULL; x ^= x >> 32; x *= 0x94D049BB133111EBULL; return x ^ (x >> 29); }
enum Kind { None, Once, From, AcqOnce, AcqFrom, NullHandle, RdFrom, RdTransient };
struct Fault { Kind kind; size_t at; size_t m; };
struct World { uint64_t gen, acq, rd, delivered; };
static World g_w; static uint64_t g_pos; static std::vector<Bytes> g_given;
static void world(const Fault& f, uint64_t w)
{
	sim::reset(); g_w = World{}; g_pos = 0; g_wall = 1000000; g_given.clear(); sim::sysListsFail = true;
	sim::rngAcquire = [f] { uint64_t i = g_w.acq++; if (f.kind == NullHandle) { sim::rngNullHandle = i >= f.at; if (i >= f.at) ++g_w.delivered; return true; } if ((f.kind == AcqOnce && i == f.at) || (f.kind == AcqFrom && i >= f.at)) { ++g_w.delivered; return false; } return true; };
	sim::rng = [f, w](uint8_t* p, size_t n) { uint64_t i = g_w.gen++; if ((f.kind == Once && i == f.at) || (f.kind == From && i >= f.at)) { ++g_w.delivered; return false; } for (size_t k = 0; k < n; ++k, ++g_pos) p[k] = (uint8_t)(mixw(w, g_pos) >> 21); g_given.push_back(Bytes(p, p + n)); return true; };
	sim::rdrand = [f, w](uint64_t* p, bool) { uint64_t i = g_w.rd++; if ((f.kind == RdFrom && i >= f.at) || (f.kind == RdTransient && i >= f.at && i < f.at + f.m)) { ++g_w.delivered; return false; } *p = mixw(w * 7 + 3, g_pos++); Bytes b(8); std::memcpy(b.data(), p, 8); g_given.push_back(b); return true; };
}
/* ---- subjects: a history of steps over one object; a step returns the bytes the caller gets ---- */
typedef std::function<Bytes(size_t)> Session;
struct Subject { std::string name; size_t steps; std::function<Session()> open; bool judged = true; };
struct Out { bool threw; Bytes b; uint64_t gen0, gen1, faults; std::string what; };
static std::vector<Out> run(const Subject& s, const Fault& f, uint64_t w)
{
	world(f, w); Session q = s.open(); std::vector<Out> r;
	for (size_t i = 0; i < s.steps; ++i)
	{
		Out o{ false, {}, g_w.gen, 0, g_w.delivered, "" };
		try { o.b = q(i); } catch (Exception::CryptoException& e) { o.threw = true; o.what = e.Message(); } catch (const mc::Violation&) { throw; } catch (const std::exception& e) { mc::fail("foreign-exception", "%s: step %zu raises %s", s.name.c_str(), i, e.what()); }
		o.gen1 = g_w.gen; o.faults = g_w.delivered - o.faults; r.push_back(o); mc::transition();
	}
	return r;
}
struct Count { uint64_t gen, acq, rd; };
static Count count(const Subject& s) { run(s, Fault{ None, 0, 0 }, 0); return Count{ g_w.gen, g_w.acq, g_w.rd }; }
static bool same8(const Bytes& a, const Bytes& b) { return a.size() >= 8 && a.size() == b.size() && a == b; }
static bool overlap(const Bytes& a, const Bytes& b) { for (size_t i = 0; i + 16 <= a.size(); i += 16) if (std::search(b.begin(), b.end(), a.begin() + (ptrdiff_t)i, a.begin() + (ptrdiff_t)i + 16) != b.end()) return true; return false; }
static void judge(const Subject& s, const Fault& f, const char* what, bool mustThrow)
{
	std::vector<Out> a = run(s, f, 0), b = run(s, f, 1), clean = run(s, Fault{ None, 0, 0 }, 0); uint64_t oh = 0; bool past = false;
	for (size_t i = 0; i < a.size(); ++i)
	{
		if (mustThrow) { MC_CHECK(a[i].threw || a[i].faults == 0, "report", "%s: step %zu succeeds although the source failed (%s at call %zu)", s.name.c_str(), i, what, f.at); MC_CHECK(b[i].threw || b[i].faults == 0, "report", "%s: step %zu succeeds although the source failed (%s at call %zu)", s.name.c_str(), i, what, f.at); }
		past |= a[i].faults > 0; if (!past) MC_CHECK(a[i].threw == clean[i].threw && a[i].b == clean[i].b, "function", "%s: step %zu, before any failure, differs from the run without one (%s)", s.name.c_str(), i, a[i].what.c_str());
		oh = mc::combine(oh, a[i].threw ? 1 : h(a[i].b)); if (!s.judged) continue;
		if (!a[i].threw && !b[i].threw) MC_CHECK(!same8(a[i].b, b[i].b), "predictable", "%s: step %zu returns the same %zu bytes %s for two different sources (%s at call %zu)", s.name.c_str(), i, a[i].b.size(), hx(a[i].b, 16).c_str(), what, f.at);
		if (!a[i].threw) for (size_t j = 0; j < i; ++j) if (!a[j].threw) MC_CHECK(!overlap(a[i].b, a[j].b) && !overlap(a[j].b, a[i].b), "repeat", "%s: step %zu returns bytes of step %zu again (%s at call %zu)", s.name.c_str(), i, j, what, f.at);
	}
	mc::outcome(oh);
}
static void cspFaults(const Subject& s)
{
	static std::map<std::string, Count> known; auto it = known.find(s.name); if (it == known.end()) it = known.emplace(s.name, count(s)).first; Count c = it->second;
	int kind = mc::choose(5); static const Kind K[] = { Once, From, AcqOnce, AcqFrom, NullHandle }; static const char* const N[] = { "fails once", "fails from there on", "handle refused once", "handle refused from there on", "no handle given" };
	uint64_t n = kind < 2 ? c.gen : c.acq; if (n == 0) throw mc::Infeasible(); size_t at = (size_t)mc::choose((int)n); MC_OP("%s: the system source %s at call %zu of %zu", s.name.c_str(), N[kind], at, (size_t)n);
	judge(s, Fault{ K[kind], at, 0 }, N[kind], true);
}
static void rdFaults(const Subject& s, bool all)
{
	static std::map<std::string, Count> known; auto it = known.find(s.name); if (it == known.end()) it = known.emplace(s.name, count(s)).first; Count c = it->second; if (c.rd == 0) throw mc::Infeasible();
	int kind = mc::choose(all ? 6 : 2); size_t at = (size_t)mc::choose((int)c.rd); MC_OP("%s: the processor source fails, kind %d, at call %zu of %zu", s.name.c_str(), kind, at, (size_t)c.rd);
	if (kind == 0) judge(s, Fault{ RdFrom, at, 0 }, "rdrand fails from there on", true); else { static const size_t M[] = { 1, 2, 5, 9, 999 }; judge(s, Fault{ RdTransient, at, M[kind - 1] }, "rdrand fails for a while", false); }
}
/* every byte of every result takes several values over several sources */
static void complete(const Subject& s)
{
	std::vector<std::vector<Out>> v; for (uint64_t w = 0; w < 6; ++w) v.push_back(run(s, Fault{ None, 0, 0 }, w));
	for (size_t i = 0; i < s.steps; ++i)
	{
		for (auto& x : v) MC_CHECK(!x[i].threw, "refused", "%s: step %zu fails with a working source: %s", s.name.c_str(), i, x[i].what.c_str());
		if (s.judged) for (size_t k = 0; k < v[0][i].b.size(); ++k) { bool eq = true; for (auto& x : v) eq &= x[i].b.size() == v[0][i].b.size() && x[i].b[k] == v[0][i].b[k]; MC_CHECK(!eq, "complete", "%s: byte %zu of %zu of step %zu is %02x for every source", s.name.c_str(), k, v[0][i].b.size(), i, v[0][i].b[k]); }
		if (s.judged) for (size_t j = 0; j < i; ++j) MC_CHECK(!overlap(v[0][i].b, v[0][j].b), "repeat", "%s: step %zu returns bytes of step %zu again", s.name.c_str(), i, j);
		mc::outcome(h(v[0][i].b));
	}
}

/* ---- the ways to ask for n bytes ---- */
template <class G> static Bytes ask(G& g, int form, size_t n)
{
	Guarded w((form & 1) ? 5 : 0, n, (form & 1) ? 3 : 0); const bool sec = form & 2;
	if (sec) { SV x = secure(w.buf); if (form & 1) g.Generate(x, 5, n); else g.Generate(x); w.buf = plain(x); } else if (form & 1) g.Generate(w.buf, 5, n); else g.Generate(w.buf);
	MC_CHECK(w.intact() && w.buf.size() == n + ((form & 1) ? 8 : 0), "window", "a request of %zu bytes, form %d, writes outside its window", n, form); return w.window();
}
template <class T> static Bytes raw(T v) { return Bytes((uint8_t*)&v, (uint8_t*)&v + sizeof v); }
static const char* const FN[] = { "vector", "window", "secure", "secure window" };
static IProvider* provider(Providers p, bool rdrand) { if (p == Providers::RDP && rdrand) return new Provider::RDP(Enumeration::DrandEngines::RdRand); return Helper::ProviderFromName::GetInstance(p); }
static std::string pname(Providers p, bool rdrand) { return Enumeration::ProviderConvert::ToName(p) + (rdrand ? "-rdrand" : ""); }
static Subject providerSubject(Providers p, bool rdrand, int form, size_t n)
{
	return Subject{ pname(p, rdrand) + "/" + FN[form] + "/" + std::to_string(n), 5, [=] { std::shared_ptr<std::unique_ptr<IProvider>> q(new std::unique_ptr<IProvider>()); return Session([=](size_t i) {
		if (!*q) q->reset(provider(p, rdrand)); IProvider& g = **q; switch (i) { case 0: case 1: return ask(g, form, n); case 2: g.Reset(); return ask(g, form, n); case 3: return raw(g.NextUInt64()); default: { Bytes b = raw(g.NextUInt16()), c = raw(g.NextUInt32()); return cat(b, c); } } }); } };
}
static const std::vector<size_t> LEN{ 0, 1, 7, 8, 9, 16, 64, 1000 };
/* system and processor sources: the result is the bytes the source gave */
static void exact(Providers p, bool rdrand)
{
	int form = mc::choose(4); size_t n = mc::pick(LEN), n2 = mc::pick(LEN); int m = p == Providers::RDP ? mc::choose(4) : 0; static const size_t M[] = { 0, 1, 5, 9 }; size_t at = m ? (size_t)mc::choose(5) : 0;
	world(m ? Fault{ RdTransient, at, M[m] } : Fault{ None, 0, 0 }, 3); std::unique_ptr<IProvider> q(provider(p, rdrand)); MC_OP("%s %s %zu then %zu bytes, %zu short failures at call %zu", pname(p, rdrand).c_str(), FN[form], n, n2, M[m], at);
	for (size_t len : { n, n2 })
	{
		size_t before = g_given.size(); Bytes r; try { r = ask(*q, form, len); } catch (Exception::CryptoException& e) { MC_CHECK(m != 0, "refused", "%s refuses %zu bytes: %s", pname(p, rdrand).c_str(), len, e.Message().c_str()); return; }
		Bytes all; for (size_t i = before; i < g_given.size(); ++i) all = cat(all, g_given[i]);
		MC_CHECK(all.size() >= len, "source", "%s returns %zu bytes and read %zu from its source", pname(p, rdrand).c_str(), len, all.size()); bool ok = len == 0; for (size_t s = 0; !ok && s + len <= all.size(); ++s) ok = sub(all, s, len) == r;
		MC_CHECK(ok, "source", "%s: the %zu bytes returned are not those its source gave for this request: %s", pname(p, rdrand).c_str(), len, hx(r, 16).c_str()); mc::outcome(h(r));
	}
}
/* a source that answers but gives nothing random */
static void stuckSource(Providers p, bool rdrand)
{
	int form = mc::choose(4); size_t n = mc::pick(std::vector<size_t>{ 8, 64 }); bool zero = mc::flip(); world(Fault{ None, 0, 0 }, 0); uint8_t v = zero ? 0 : 0x5C;
	sim::rng = [v](uint8_t* q, size_t k) { std::memset(q, v, k); return true; }; sim::rdrand = [v](uint64_t* q, bool) { std::memset(q, v, 8); return true; };
	MC_OP("%s %s %zu bytes from a source that always answers %02x", pname(p, rdrand).c_str(), FN[form], n, v); std::unique_ptr<IProvider> q(provider(p, rdrand)); int threw = 0;
	for (int i = 0; i < 3; ++i) try { ask(*q, form, n); } catch (const Exception::CryptoException&) { ++threw; mc::outcome((uint64_t)i); }
	MC_CHECK(threw >= (zero ? 3 : 2), "self-test", "%s gives %d of 3 requests from a source stuck at %02x", pname(p, rdrand).c_str(), 3 - threw, v);
}
static void unavailable()
{
	world(Fault{ None, 0, 0 }, 0); sim::cpu.rdrand = sim::cpu.rdseed = false; int how = mc::choose(3); MC_OP("no processor source, request kind %d", how); bool threw = false;
	try { std::unique_ptr<IProvider> q(how == 0 ? Helper::ProviderFromName::GetInstance(Providers::RDP) : new Provider::RDP(how == 1 ? Enumeration::DrandEngines::RdRand : Enumeration::DrandEngines::RdSeed)); if (q->Enumeral() != Providers::RDP) { mc::outcome(2); return; } MC_CHECK(!q->IsAvailable(), "report", "RDP reports itself available without the instruction"); Bytes b(32); q->Generate(b); } catch (const Exception::CryptoException&) { threw = true; }
	MC_CHECK(threw, "report", "RDP generates without the instruction"); mc::outcome(1);
}
static void windows(Providers p)
{
	world(Fault{ None, 0, 0 }, 0); std::unique_ptr<IProvider> q(provider(p, false)); static const std::vector<size_t> V{ 0, 1, 8, 16, 17, SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - 7, SIZE_MAX - 15, SIZE_MAX / 2 }; bool sec = mc::flip();
	for (size_t off : V) for (size_t n : V) { if (off <= 16 && 16 - off >= n) continue; Bytes o(16, 0x77); o.shrink_to_fit(); SV x = secure(o); bool threw = false; try { if (sec) q->Generate(x, off, n); else q->Generate(o, off, n); } catch (const Exception::CryptoException&) { threw = true; } MC_OP("%s: %zu bytes at %zu of 16", pname(p, false).c_str(), n, off); MC_CHECK(threw && plain(x) == o && o == Bytes(16, 0x77), "bounds", "%s accepts %zu bytes at %zu of 16", pname(p, false).c_str(), n, off); }
}
/* the timer behind the jitter provider */
static void timer(size_t reads)
{
	world(Fault{ None, 0, 0 }, 0); int kind = mc::choose(4); static const char* const N[] = { "stops", "ticks evenly", "reads zero", "runs backwards evenly" }; static uint64_t total = 0;
	if (!total) { uint64_t c = 0; sim::clock = [&c] { ++c; return c * 1000 + mixw(5, c) % 977; }; Provider::CJP j; Bytes b(8); j.Generate(b); total = c; world(Fault{ None, 0, 0 }, 0); }
	size_t at = (size_t)mc::choose((int)reads); uint64_t from = total * at / reads; uint64_t c = 0, last = 0; MC_OP("the timer %s from reading %zu of %zu on", N[kind], (size_t)from, (size_t)total);
	sim::clock = [&]() -> uint64_t { ++c; if (c <= from) return last = 1000000 + c * 1000 + mixw(5, c) % 977; switch (kind) { case 0: return last; case 1: return last += 100; case 2: return 0; default: return last -= 100; } };
	bool threw = false; Bytes b; try { Provider::CJP j; for (int i = 0; i < 3; ++i) { b = Bytes(8); j.Generate(b); } } catch (const Exception::CryptoException&) { threw = true; }
	sim::clock = nullptr; MC_CHECK(threw, "timer", "CJP returns %s although the timer %s from reading %zu on", hx(b).c_str(), N[kind], (size_t)from); mc::outcome((uint64_t)kind);
}
static void sysInfo(Providers p)
{
	std::vector<Bytes> r; for (uint64_t w = 0; w < 2; ++w) { world(Fault{ None, 0, 0 }, w); sim::sysInfoFails = true; try { std::unique_ptr<IProvider> q(provider(p, false)); r.push_back(ask(*q, 0, 64)); } catch (const Exception::CryptoException&) { r.push_back({}); } MC_OP("%s without any system information", pname(p, false).c_str()); }
	MC_CHECK(r[0].empty() || r[0] != r[1], "predictable", "%s: with no system information the output does not depend on the random source", pname(p, false).c_str()); mc::outcome(h(r[0]));
}

/* ---- generators over a provider ---- */
static Prng::IPrng* prng(int k, Providers p) { switch (k) { case 0: return new Prng::BCR(p); case 1: return new Prng::CSR(Enumeration::ShakeModes::SHAKE512, p); case 2: return new Prng::HCR(Enumeration::SHA2Digests::SHA2512, p); case 3: return new Prng::CSR(Enumeration::ShakeModes::SHAKE256, p); default: return new Prng::HCR(Enumeration::SHA2Digests::SHA2256, p); } }
static const char* const PN[] = { "BCR", "CSR", "HCR", "CSR-256", "HCR-256" };
static Subject prngSubject(int k, Providers p, int form)
{
	return Subject{ std::string(PN[k]) + "(" + pname(p, false) + ")/" + FN[form], 7, [=] { std::shared_ptr<std::unique_ptr<Prng::IPrng>> q(new std::unique_ptr<Prng::IPrng>()); return Session([=](size_t i) {
		if (!*q) q->reset(prng(k, p)); Prng::IPrng& g = **q; switch (i) { case 0: return ask(g, form, 100); case 1: return ask(g, form, 3000); case 2: g.Reset(); return ask(g, form, 64); case 3: return ask(g, form, 1500); case 4: return raw(g.NextUInt64()); case 5: g.Reset(); return Bytes(); default: return ask(g, form, 1030); } }); } };
}
static Subject randomSubject(Enumeration::Prngs e, Providers p)
{
	return Subject{ "SecureRandom(" + Enumeration::PrngConvert::ToName(e) + "," + pname(p, false) + ")", 7, [=] { std::shared_ptr<std::unique_ptr<Prng::SecureRandom>> q(new std::unique_ptr<Prng::SecureRandom>()); return Session([=](size_t i) {
		if (!*q) q->reset(new Prng::SecureRandom(e, p)); Prng::SecureRandom& g = **q; switch (i) { case 0: return ask(g, 0, 40); case 1: return ask(g, 1, 2500); case 2: return ask(g, 3, 64); case 3: return g.Generate(33); case 4: return raw(g.NextUInt64()); case 5: { std::vector<uint64_t> v(300); g.Fill(v, 0, 300); return Bytes((uint8_t*)v.data(), (uint8_t*)(v.data() + 300)); } default: return ask(g, 2, 1030); } }); } };
}
static Subject keySubject(Enumeration::SecurityPolicy y, Providers p)
{
	return Subject{ "SymmetricKeyGenerator/" + std::to_string((int)y) + "(" + pname(p, false) + ")", 5, [=] { std::shared_ptr<std::unique_ptr<Cipher::SymmetricKeyGenerator>> q(new std::unique_ptr<Cipher::SymmetricKeyGenerator>()); return Session([=](size_t i) {
		if (!*q) q->reset(new Cipher::SymmetricKeyGenerator(y, p)); Cipher::SymmetricKeyGenerator& g = **q;
		switch (i) { case 0: { Cipher::SymmetricKeySize z(64, 16, 32); std::unique_ptr<Cipher::SymmetricKey> k(g.GetSymmetricKey(z)); return cat(cat(k->Key(), k->IV()), k->Info()); } case 1: { Cipher::SymmetricKeySize z(32, 32, 16); std::unique_ptr<Cipher::SymmetricSecureKey> k(g.GetSecureKey(z)); return cat(cat(plain(k->SecureKey()), plain(k->SecureIV())), plain(k->SecureInfo())); }
			case 2: return plain(g.Generate(200)); case 3: { SV v(70); g.Generate(v, 0, 70); return plain(v); } default: { SV v(70); g.Generate(v, 2, 64); return sub(plain(v), 2, 64); } } }); } };
}
static Drbg::IDrbg* drbg(int k, Providers p) { switch (k) { case 0: return new Drbg::BCG(p, false); case 1: return new Drbg::CSG(Enumeration::ShakeModes::SHAKE256, p, false); case 2: return new Drbg::HCG(Enumeration::SHA2Digests::SHA2256, p); case 3: return new Drbg::CSG(Enumeration::ShakeModes::SHAKE512, p, false); default: return new Drbg::HCG(Enumeration::SHA2Digests::SHA2512, p); } }
static Cipher::SymmetricKeySize legal(Drbg::IDrbg& g) { auto v = g.LegalKeySizes(); return v[v.size() > 1 ? 1 : 0]; }
static const char* const DN[] = { "BCG", "CSG-256", "HCG-256", "CSG-512", "HCG-512" };
/* a generator that reseeds itself: output before the first reseed is a function of the seed, so only reporting is judged there */
static Subject drbgSubject(int k, Providers p, bool cyclic)
{
	return Subject{ std::string(DN[k]) + "(" + pname(p, false) + ")" + (cyclic ? "/cyclic" : ""), 8, [=] { std::shared_ptr<std::unique_ptr<Drbg::IDrbg>> q(new std::unique_ptr<Drbg::IDrbg>()); return Session([=](size_t i) {
		if (!*q || !(*q)->IsInitialized()) { q->reset(drbg(k, p)); Drbg::IDrbg& g = **q; Cipher::SymmetricKeySize z = legal(g); Cipher::SymmetricKey s(pat(z.KeySize(), 1), pat(z.IVSize(), 2)); g.Initialize(s); g.ReseedThreshold() = 64; const_cast<bool&>(g.CyclicReseed()) = cyclic; }
		Drbg::IDrbg& g = **q; switch (i) { case 0: return ask(g, 0, 32); case 1: return ask(g, 1, 64); case 2: return ask(g, 2, 40); case 3: return ask(g, 3, 100); case 4: { Cipher::SymmetricKeySize z = legal(g); g.Update(pat(z.KeySize(), 9)); } return ask(g, 0, 32); case 5: return ask(g, 0, 33); case 6: return ask(g, 2, 80); default: return ask(g, 0, 50); } }); }, false };
}
/* once a reseed has drawn on the source, what follows depends on it */
static void drbgFollows(int k, Providers p, bool cyclic)
{
	Subject s = drbgSubject(k, p, cyclic); std::vector<Out> a = run(s, Fault{ None, 0, 0 }, 0), b = run(s, Fault{ None, 0, 0 }, 1); MC_OP("%s over two sources", s.name.c_str());
	for (size_t i = 2; i < a.size(); ++i) { MC_CHECK(!a[i].threw && !b[i].threw, "refused", "%s: step %zu fails with a working source: %s", s.name.c_str(), i, a[i].what.c_str()); MC_CHECK(a[i].b != b[i].b, "predictable", "%s: step %zu, after a reseed, does not depend on the source", s.name.c_str(), i); for (size_t j = 0; j < i; ++j) MC_CHECK(!overlap(a[i].b, a[j].b), "repeat", "%s: step %zu returns bytes of step %zu again", s.name.c_str(), i, j); mc::outcome(h(a[i].b)); }
}
static void drbgFaults(int k, Providers p, bool cyclic)
{
	Subject s = drbgSubject(k, p, cyclic); Count c = count(s); int kind = mc::choose(3); uint64_t n = kind == 2 ? c.acq : c.gen; if (n == 0) throw mc::Infeasible(); size_t at = (size_t)mc::choose((int)n); Fault f{ kind == 0 ? Once : kind == 1 ? From : AcqOnce, at, 0 }; MC_OP("%s: the source fails (kind %d) at call %zu", s.name.c_str(), kind, at); judge(s, f, "source fails", true);
	std::vector<Out> a = run(s, f, 0); for (size_t i = 0; i < a.size(); ++i) if (!a[i].threw) for (size_t j = 0; j < i; ++j) if (!a[j].threw) { bool rebuilt = false; for (size_t t = j; t < i; ++t) rebuilt |= a[t].threw; if (!rebuilt) MC_CHECK(!overlap(a[i].b, a[j].b), "repeat", "%s: step %zu returns bytes of step %zu again after a failed reseed", s.name.c_str(), i, j); }
}

/* ---- key producers over a generator that can fail ---- */
struct Rng : Prng::PrngBase
{
	Rng() : PrngBase(Enumeration::Prngs::BCR, "script") {}
	template <class V> void fill(V& o, size_t off, size_t n) { if (n == 0) return; Bytes t(n); if (!sim::rng(t.data(), n)) { for (size_t i = 0; i < n / 2; ++i) o[off + i] = 0; throw Exception::CryptoRandomException("script", "Generate", "no entropy", Enumeration::ErrorCodes::NoAccess); } for (size_t i = 0; i < n; ++i) o[off + i] = t[i]; }
	void Generate(std::vector<uint8_t>& o) override { fill(o, 0, o.size()); }
	void Generate(SV& o) override { fill(o, 0, o.size()); }
	void Generate(std::vector<uint8_t>& o, size_t a, size_t n) override { fill(o, a, n); }
	void Generate(SV& o, size_t a, size_t n) override { fill(o, a, n); }
	void Reset() override {}
};
using namespace Asymmetric; using Asymmetric::Encrypt::MLWE::Kyber;
using Asymmetric::Encrypt::IAsymmetricCipher; using Asymmetric::Encrypt::IAsymmetricKeyExchange; typedef std::shared_ptr<Asymmetric::AsymmetricKeyPair> PKP;
struct KemState { std::unique_ptr<IAsymmetricCipher> c; std::unique_ptr<Rng> r; PKP k; };
static Subject kem(const std::string& name, std::function<IAsymmetricCipher*(Prng::IPrng*)> mk)
{
	return Subject{ name, 4, [=] { std::shared_ptr<KemState> s(new KemState()); s->r.reset(new Rng()); s->c.reset(mk(s->r.get())); return Session([=](size_t i) {
		if (i == 0 || i == 3) { PKP k(s->c->Generate()); s->k = k; return cat(sub(k->PublicKey()->Polynomial(), 0, std::min<size_t>(256, k->PublicKey()->Polynomial().size())), k->PrivateKey()->Polynomial()).size() ? sub(k->PublicKey()->Polynomial(), 0, 256) : Bytes(); }
		if (!s->k) return Bytes(); s->c->Initialize(s->k->PublicKey()); Bytes ct(s->c->CipherTextSize()), ss(s->c->SharedSecretSize()); s->c->Encapsulate(ct, ss); return ss; }); } };
}
using Asymmetric::Sign::IAsymmetricSigner;
struct SigState { std::unique_ptr<IAsymmetricSigner> c; std::unique_ptr<Rng> r; PKP k; };
static Subject signer(const std::string& name, std::function<IAsymmetricSigner*(Prng::IPrng*)> mk, size_t part)
{
	return Subject{ name, 3, [=] { std::shared_ptr<SigState> s(new SigState()); s->r.reset(new Rng()); s->c.reset(mk(s->r.get())); return Session([=](size_t i) {
		if (i != 1) { PKP k(s->c->Generate()); s->k = k; return sub(k->PublicKey()->Polynomial(), 0, part); }
		if (!s->k) return Bytes(); s->c->Initialize(s->k->PrivateKey()); Bytes m = pat(32, 4), g; s->c->Sign(m, g); return Bytes(g.begin(), g.begin() + 48); }); } };
}
struct DhState { std::unique_ptr<IAsymmetricKeyExchange> c; std::unique_ptr<Rng> r; };
static Subject exchange(const std::string& name, Enumeration::ECDHParameters p)
{
	return Subject{ name, 3, [=] { std::shared_ptr<DhState> s(new DhState()); s->r.reset(new Rng()); s->c.reset(new Asymmetric::Encrypt::ECDH::ECDH(p, s->r.get())); return Session([=](size_t) { PKP k(s->c->Generate()); return k->PublicKey()->Polynomial(); }); } };
}
static void prodFaults(const Subject& s)
{
	static std::map<std::string, Count> known; auto it = known.find(s.name); if (it == known.end()) it = known.emplace(s.name, count(s)).first; uint64_t n = it->second.gen; MC_CHECK(n > 0, "source", "%s never asks its generator", s.name.c_str());
	int kind = mc::choose(2); std::vector<size_t> at; for (size_t i = 0; i < n; ++i) if (n <= 40 || i < 20 || i >= n - 10 || i % (n / 10) == 0) at.push_back(i); size_t k = mc::pick(at); MC_OP("%s: the generator fails at call %zu of %zu", s.name.c_str(), k, (size_t)n); judge(s, Fault{ kind ? From : Once, k, 0 }, "generator fails", true);
}

void mc_register()
{
	using namespace Enumeration;
	mc::bounds("providers CSP, RDP (rdseed and rdrand), CJP, ECP, ACP x 4 request forms x 8 lengths, 5-step histories, a fault at every call of the system or processor source (once, from there on, no handle, handle refused, 1..999 transient failures); generators BCR/CSR/HCR over each provider, SecureRandom, SymmetricKeyGenerator over CSP and ACP, self-reseeding BCG/CSG/HCG: every fault point of their histories; "
		"key producers Kyber, Dilithium, ECDH, ECDSA, Sphincs+, XMSS, McEliece with a failing generator: every call; timer failures from each of 24 (thorough 96) readings; stuck sources; all out-of-range windows of 10 x 10 boundary values");
	mc::assume("a source that reports success and delivers varying bytes is a working one; the simulated Windows supplies every answer, including all clocks");
	mc::setHangSeconds(240);
	struct P { Providers p; bool rd; }; static const std::vector<P> PS{ { Providers::CSP, false }, { Providers::RDP, false }, { Providers::RDP, true }, { Providers::CJP, false }, { Providers::ECP, false }, { Providers::ACP, false } };
	for (auto& x : PS) { Providers p = x.p; bool rd = x.rd; std::string nm = pname(p, rd);
		bool slow = p == Providers::CJP || p == Providers::ACP; std::vector<size_t> L = slow ? (mc::thorough() ? std::vector<size_t>{ 1, 8, 9, 40 } : std::vector<size_t>{ 9 }) : std::vector<size_t>{ 1, 7, 8, 9, 64, 1000 };
		if (p != Providers::CJP && p != Providers::RDP) for (int f = 0; f < 4; ++f) mc::job(nm + "/system-fault/" + FN[f], [=] { cspFaults(providerSubject(p, rd, f, mc::pick(L))); });
		if (p == Providers::RDP) for (int f = 0; f < 4; ++f) mc::job(nm + "/processor-fault/" + FN[f], [=] { rdFaults(providerSubject(p, rd, f, mc::pick(std::vector<size_t>{ 1, 7, 8, 9, 64 })), true); });
		if (p == Providers::ACP) mc::job(nm + "/processor-fault", [=] { rdFaults(providerSubject(p, rd, 0, 9), false); });
		if (p == Providers::CSP || p == Providers::RDP) { mc::job(nm + "/exact", [=] { exact(p, rd); }); mc::job(nm + "/stuck-source", [=] { stuckSource(p, rd); }); }
		if (p != Providers::CJP) for (int f = 0; f < 4; ++f) mc::job(nm + "/complete/" + FN[f], [=] { complete(providerSubject(p, rd, f, mc::pick(slow ? std::vector<size_t>{ 0, 9, 1000 } : LEN))); });
		mc::job(nm + "/windows", [=] { windows(p); }); }
	mc::job("CJP/complete", [] { /* the clock is the source */
		int form = mc::choose(4); size_t n = mc::pick(std::vector<size_t>{ 0, 1, 7, 8, 9, 40 }); std::vector<Bytes> r; for (uint64_t w = 0; w < 6; ++w) { world(Fault{ None, 0, 0 }, w); uint64_t c = 0; sim::clock = [&c, w] { ++c; return 1000 + c * 1000 + mixw(w, c) % 977; }; Provider::CJP j; r.push_back(ask(j, form, n)); Bytes again = ask(j, form, n); MC_CHECK(!same8(r.back(), again), "repeat", "CJP returns the same bytes twice"); sim::clock = nullptr; MC_OP("CJP %s %zu bytes, clock %zu", FN[form], n, (size_t)w); }
		for (size_t k = 0; k < n; ++k) { bool eq = true; for (auto& x : r) eq &= x[k] == r[0][k]; MC_CHECK(!eq, "complete", "CJP: byte %zu of %zu is the same for every clock", k, n); } mc::outcome(h(r[0])); });
	size_t T = mc::thorough() ? 96 : 24; mc::job("CJP/timer", [T] { timer(T); }); mc::job("RDP/unavailable", unavailable); mc::job("ECP/no-information", [] { sysInfo(Providers::ECP); }); mc::job("ACP/no-information", [] { sysInfo(Providers::ACP); });
	for (int k = 0; k < 5; ++k) for (Providers p : { Providers::CSP, Providers::ECP, Providers::ACP, Providers::RDP }) { if (k > 2 && p != Providers::CSP) continue;
		int forms = p == Providers::CSP ? 4 : 1; for (int f = 0; f < forms; ++f) { Subject s = prngSubject(k, p, f); if (p != Providers::RDP) mc::job(s.name + "/fault", [s] { cspFaults(s); }); else mc::job(s.name + "/processor-fault", [s] { rdFaults(s, false); }); mc::job(s.name + "/complete", [s] { complete(s); }); } }
	for (Prngs e : { Prngs::BCR, Prngs::CSR, Prngs::HCR }) { Subject s = randomSubject(e, Providers::CSP); mc::job(s.name + "/fault", [s] { cspFaults(s); }); mc::job(s.name + "/complete", [s] { complete(s); }); }
	for (SecurityPolicy y : { SecurityPolicy::SPL256, SecurityPolicy::SPL512AE, SecurityPolicy::SPL1024 }) for (Providers p : { Providers::CSP, Providers::ECP }) { Subject s = keySubject(y, p); mc::job(s.name + "/fault", [s] { cspFaults(s); }); mc::job(s.name + "/complete", [s] { complete(s); }); }
	for (int k = 0; k < 5; ++k) { mc::job(std::string(DN[k]) + "/follows", [k] { bool c = mc::flip(); drbgFollows(k, Providers::CSP, c); }); mc::job(std::string(DN[k]) + "/fault", [k] { bool c = mc::flip(); drbgFaults(k, Providers::CSP, c); }); }
	std::vector<Subject> prod; typedef Prng::IPrng* R;
	prod.push_back(kem("Kyber-S1", [](R r) { return new Kyber(KyberParameters::KYBERS1P1632, r); })); prod.push_back(kem("Kyber-S3", [](R r) { return new Kyber(KyberParameters::KYBERS3P2400, r); })); prod.push_back(kem("Kyber-S6", [](R r) { return new Kyber(KyberParameters::KYBERS6P3936, r); }));
	prod.push_back(signer("Dilithium-S1", [](R r) { return new Sign::DLTM::Dilithium(DilithiumParameters::DLTMS1P2544, r); }, 64));
	prod.push_back(exchange("ECDH-K", ECDHParameters::ECDHS1P25519K)); prod.push_back(exchange("ECDH-S", ECDHParameters::ECDHS2P25519S));
	prod.push_back(signer("ECDSA-K", [](R r) { return new Sign::ECDSA::ECDSA(ECDSAParameters::ECDSAS1P25519K, r); }, 32)); prod.push_back(signer("ECDSA-S", [](R r) { return new Sign::ECDSA::ECDSA(ECDSAParameters::ECDSAS2P25519S, r); }, 32));
	for (auto& s : prod) { mc::job(s.name + "/fault", [s] { prodFaults(s); }); mc::job(s.name + "/complete", [s] { complete(s); }); }
}
