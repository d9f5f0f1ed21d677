// MC-VARIANT: wipe
// MC-LINK: -Wl,--wrap=malloc -Wl,--wrap=calloc -Wl,--wrap=free
// MC-TECHNIQUE: self-composition model checking of the implementation: every lifecycle history up to a bound is executed in two worlds that differ only in the secret, over a deterministic allocator that records the contents of every block at the moment the library releases it; any byte that differs between the worlds is secret-dependent storage that was not erased, and any observable difference after a reset is use of the old key
// Key material is erased when an instance is reset or destroyed.
#include "checks/aead.h"
#include <cxxabi.h>
#include <map>
#include <dlfcn.h>
#include <sys/mman.h>
#include <new>
#include "CipherModeFromName.h"
#include "DigestFromName.h"
#include "MacFromName.h"
#include "KdfFromName.h"
#include "BCG.h"
#include "CSG.h"
#include "HCG.h"
#include "PrngFromName.h"
#include "ProviderFromName.h"
#include "SymmetricSecureKey.h"
#include "SymmetricKeyGenerator.h"
#include "AsymmetricKey.h"
#include "AsymmetricSecureKey.h"
#include "SecureStream.h"
#include "SecureRandom.h"
#include "CipherStream.h"
#include "MacStream.h"
#include "DigestStream.h"
#include "MemoryStream.h"
#include "HMAC.h"
#include "KMAC.h"
#include "HKDF.h"
#include "PBKDF2.h"
const char* const MC_PROPERTY = "C21";
typedef SecureVector<uint8_t> SV;

/* ------------ the allocator: deterministic addresses, nothing reused, contents recorded at release ------------ */
static const size_t ARENA = (size_t)1 << 31, LOGSZ = (size_t)1 << 28;
static uint8_t *g_arena, *g_log; static size_t g_top, g_logTop, g_nrel; static bool g_on = false;
static uint32_t g_epoch; struct Rel { size_t n, off; bool temp; void* pc[14]; }; static Rel* g_rel; static const size_t MAXREL = 1 << 20;
extern "C" { void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void __real_free(void*); }
static void* take(size_t n, size_t al)
{
	if (!g_on) { void* p = nullptr; if (al <= 16) p = __real_malloc(n ? n : 1); else if (posix_memalign(&p, al, n ? n : 1)) p = nullptr; return p; }
	if (al < 16) al = 16; size_t b = (g_top + 16 + al - 1) / al * al; if (b + n > ARENA) abort();
	*(size_t*)(g_arena + b - 16) = n; *(uint32_t*)(g_arena + b - 8) = g_epoch; g_top = (b + n + 511) / 512 * 512;   /* a coarse grid: a small difference in size must not move what follows */ std::memset(g_arena + b, 0xBE, n); return g_arena + b;
}
static void release(void* p)
{
	if (!p) return; uint8_t* b = (uint8_t*)p;
	if (b < g_arena || b >= g_arena + ARENA || !g_arena) { __real_free(p); return; }
	size_t n = *(size_t*)(b - 16); if (!g_on) return;
	if (g_nrel >= MAXREL || g_logTop + n > LOGSZ) abort();
	Rel& r = g_rel[g_nrel++]; r.n = n; r.off = g_logTop; r.temp = *(uint32_t*)(b - 8) == g_epoch; int i = 0; for (void** f = (void**)__builtin_frame_address(0); i < 14 && f; ++i) { r.pc[i] = f[1]; void** q = (void**)f[0]; if (q <= f || (char*)q > (char*)f + (1 << 16)) { ++i; break; } f = q; } while (i < 14) r.pc[i++] = nullptr; std::memcpy(g_log + g_logTop, b, n); g_logTop += n;
}
extern "C" void* __wrap_malloc(size_t n) { return g_on ? take(n, 16) : __real_malloc(n); }
extern "C" void* __wrap_calloc(size_t n, size_t e) { if (!g_on) return __real_calloc(n, e); void* p = take(n * e, 16); std::memset(p, 0, n * e); return p; }
extern "C" void __wrap_free(void* p) { release(p); }
void* operator new(size_t n) { return take(n, 16); } void* operator new[](size_t n) { return take(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return take(n, (size_t)a); } void* operator new[](size_t n, std::align_val_t a) { return take(n, (size_t)a); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return take(n, 16); } void* operator new[](size_t n, const std::nothrow_t&) noexcept { return take(n, 16); }
void operator delete(void* p) noexcept { release(p); } void operator delete[](void* p) noexcept { release(p); } void operator delete(void* p, size_t) noexcept { release(p); } void operator delete[](void* p, size_t) noexcept { release(p); }
void operator delete(void* p, std::align_val_t) noexcept { release(p); } void operator delete[](void* p, std::align_val_t) noexcept { release(p); } void operator delete(void* p, size_t, std::align_val_t) noexcept { release(p); } void operator delete[](void* p, size_t, std::align_val_t) noexcept { release(p); }
struct Lib { Lib() { g_on = true; ++g_epoch; } ~Lib() { g_on = false; } };

/* ------------ one world of a scenario ------------ */
struct Ctx
{
	int world; bool secretText; std::vector<Bytes> seen; std::string steps;
	Bytes key(size_t n, uint32_t tag) const { return pat(n, tag + 1000 * (uint32_t)(secretText ? 1 : world + 1)); }     /* the secret */
	Bytes text(size_t n, uint32_t tag) const { return pat(n, tag + 500 + 1000 * (uint32_t)(secretText ? world + 1 : 1)); }
	Bytes pub(size_t n, uint32_t tag) const { return pat(n, tag + 90000); }
	template <class F> bool op(const char* what, F f) { if (mc::g_verbose && world == 0) mc::note("%s", what); mc::transition(); bool ok = true; try { Lib l; f(); } catch (const std::exception&) { g_on = false; ok = false; } return ok; }
	/* what can be observed once the secret is gone: must not depend on it */
	template <class F> void after(const char* what, F f) { Bytes r; bool ok = op(what, [&] { f(r); }); g_on = false; seen.push_back(ok ? Bytes(r.begin(), r.end()) : Bytes(1, 0xEE)); steps += std::string(what) + (ok ? "=done;" : "=refused;"); }
};
typedef std::function<void(Ctx&)> Scenario;
struct World { std::vector<Rel> rel; Bytes log; Ctx c; };
static World runWorld(const Scenario& s, int w, bool secretText, bool arena)
{
	World r; r.c.world = w; r.c.secretText = secretText; sim::reset(); g_top = 64; g_logTop = g_nrel = 0; g_epoch = 0;
	if (!arena) { Ctx c; c.world = w; c.secretText = secretText; s(c); g_on = false; return r; }
	s(r.c); g_on = false; r.rel.assign(g_rel, g_rel + g_nrel); r.log.assign(g_log, g_log + g_logTop); return r;
}
/* the library frames of a release: Class::method names, innermost first */
static bool frame(void* pc, std::string& cls, std::string& full)
{
	static std::map<void*, std::pair<std::string, std::string>> memo; auto it = memo.find(pc);
	if (it == memo.end())
	{
		std::pair<std::string, std::string> v; Dl_info d; if (dladdr(pc, &d) && d.dli_sname) { int st; char* n = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st); if (n) { std::string t(n); std::free(n); size_t p = t.find('('); if (p != std::string::npos) t.resize(p); size_t sp = t.find("CEX::"); bool tmpl = t.find('<') != std::string::npos && t.find('<') < sp; if (sp != std::string::npos && !tmpl) { t = t.substr(sp); size_t l = t.find('<'); if (l != std::string::npos) t.resize(l); size_t m = t.rfind("::"); if (m != std::string::npos && m > 4) { std::string c = t.substr(0, m); size_t k = c.rfind("::"); v.first = k == std::string::npos ? c : c.substr(k + 2); v.second = t; } } } }
		if (v.first == "SecureVector" || v.first == "SecureAllocator" || v.first == "LockingAllocator" || v.first == "MemoryPool" || v.first == "MemoryTools" || v.first == "ArrayTools" || v.first == "IntegerTools" || v.first == "Tools" || v.first == "Utility" || v.second.find("operator") != std::string::npos) v.first.clear();
		it = memo.emplace(pc, v).first;
	}
	cls = it->second.first; full = it->second.second; return !cls.empty();
}
static std::string where(const Rel& r, std::string& owner)
{
	std::string s; int k = 0; for (int i = 0; i < 14 && k < 4; ++i) { std::string c, f; if (!r.pc[i] || !frame((char*)r.pc[i] - 1, c, f)) continue; if (k++ == 0) owner = c; s += (s.empty() ? "" : " < ") + f; } if (owner.empty()) owner = "?"; return s;
}
static void compare(const std::string& name, const Scenario& s, bool st)
{
	if (!g_arena) { g_arena = (uint8_t*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); g_log = (uint8_t*)mmap(nullptr, LOGSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); g_rel = (Rel*)mmap(nullptr, MAXREL * sizeof(Rel), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
	bool v = mc::g_verbose; mc::g_verbose = false; { runWorld(s, 0, st, false); } mc::g_verbose = v;
	World a = runWorld(s, 0, st, true), b = runWorld(s, 1, st, true);
	/* what the entropy provider does with the system state it samples is not judged: its temporaries vary in size with their contents */
	for (World* x : { &a, &b }) { std::vector<Rel> k; for (auto& r : x->rel) { std::string o; where(r, o); bool skip = false; for (void* pc : r.pc) { std::string c, f; if (pc && frame((char*)pc - 1, c, f) && (f == "CEX::Provider::ACP::Collect" || f == "CEX::Provider::ACP::Compress")) skip = true; } if (r.temp && r.n == 8 && o.compare(0, 3, "TSX") == 0) skip = true;   /* the bytes of the nonce given to the MAC */ if (!skip && o != "ACP" && o != "CJP" && o != "RDP" && o != "MemoryStream" && o != "?") k.push_back(r); } x->rel.swap(k); }
	bool shape = a.rel.size() == b.rel.size(); for (size_t i = 0; shape && i < a.rel.size(); ++i) shape = a.rel[i].n == b.rel[i].n;
	mc::outcome(mc::combine(a.rel.size(), a.log.size())); mc::state(mc::hash(name + std::to_string(a.rel.size())));
	if (!shape) { size_t i = 0; while (i < a.rel.size() && i < b.rel.size() && a.rel[i].n == b.rel[i].n) ++i; std::string o, w = i < a.rel.size() ? where(a.rel[i], o) : std::string("the end"); mc::fail("shape", "%s: the sequence of releases depends on the secret (%zu and %zu blocks, first at %zu, %zu bytes in the first world, released by %s)", name.c_str(), a.rel.size(), b.rel.size(), i, i < a.rel.size() ? a.rel[i].n : 0, w.c_str()); }
	static FILE* dump = getenv("MC_C21DUMP") ? fopen(getenv("MC_C21DUMP"), "a") : nullptr;
	for (size_t i = 0; i < a.rel.size(); ++i)
	{
		const uint8_t *x = a.log.data() + a.rel[i].off, *y = b.log.data() + b.rel[i].off; size_t n = a.rel[i].n, diff = 0, first = 0; for (size_t k = 0; k < n; ++k) if (x[k] != y[k]) { if (!diff) first = k; ++diff; }
		if (!diff) continue; std::string owner, w = where(a.rel[i], owner);
		if (dump) { fprintf(dump, "%s|%s %zu of %zu from %zu|%s\n", name.c_str(), a.rel[i].temp ? "T" : "S", diff, n, first, w.c_str()); fflush(dump); continue; }
		std::string text = name + ": a block of " + std::to_string(n) + " bytes " + (a.rel[i].temp ? "used as a temporary" : "that outlived the call that filled it") + " was released with " + std::to_string(diff) + " secret-dependent bytes (the first at " + std::to_string(first) + ") by " + w;
		if (a.rel[i].temp) { mc::finding(("temporary:" + owner).c_str(), text.c_str()); continue; }
		mc::fail("released", "%s", text.c_str());
	}
	for (size_t i = 0; i < a.c.seen.size() || i < b.c.seen.size(); ++i) { if (dump && (i >= a.c.seen.size() || i >= b.c.seen.size() || a.c.seen[i] != b.c.seen[i])) { fprintf(dump, "%s|AFTER %s\n", name.c_str(), a.c.steps.c_str()); fflush(dump); continue; } MC_CHECK(i < a.c.seen.size() && i < b.c.seen.size() && a.c.seen[i] == b.c.seen[i], "old-key", "%s: an operation after the secret was erased still depends on it (%s)", name.c_str(), a.c.steps.c_str()); }
	MC_CHECK(a.c.steps == b.c.steps, "old-key", "%s: what is refused after the secret was erased depends on it", name.c_str());
}
static void scenario(const std::string& name, std::function<Scenario(std::string&)> make, bool text = false) { mc::job(name, [=] { std::string n = name; Scenario s = make(n); compare(n, s, text); }); }

/* ------------ scenarios ------------ */
static Cipher::SymmetricKey mkKey(const Bytes& k, const Bytes& iv, const Bytes& info = Bytes()) { return aead::mk(k, iv, info); }
#define OUTV(...) __VA_ARGS__

static void symKeys()
{
	scenario("key/SymmetricKey", [](std::string& n) -> Scenario {
		int route = mc::choose(4), end = mc::choose(2); bool sec = mc::flip(); n += " route " + std::to_string(route) + (sec ? " secure" : "") + (end ? " reset" : "");
		return [=](Ctx& c) {
			Bytes k = c.key(32, 1), iv = c.key(16, 2), inf = c.key(20, 3); SV sk = secure(k), siv = secure(iv), sinf = secure(inf); std::unique_ptr<Cipher::SymmetricKey> p;
			c.op("construct", [&] { p.reset(sec ? (route == 0 ? new Cipher::SymmetricKey(sk) : route == 1 ? new Cipher::SymmetricKey(sk, siv) : new Cipher::SymmetricKey(sk, siv, sinf)) : (route == 0 ? new Cipher::SymmetricKey(k) : route == 1 ? new Cipher::SymmetricKey(k, iv) : new Cipher::SymmetricKey(k, iv, inf))); });
			if (route == 3) { SV s; c.op("serialize", [&] { s = Cipher::SymmetricKey::Serialize(*p); }); std::unique_ptr<Cipher::SymmetricKey> q; c.op("deserialize", [&] { SV t(s); q.reset(Cipher::SymmetricKey::DeSerialize(t)); }); c.op("destroy", [&] { q.reset(); }); c.op("clone", [&] { q.reset(p->Clone()); }); c.op("destroy", [&] { q.reset(); }); { Lib l; s.clear(); s.shrink_to_fit(); } }
			Bytes o; SV so; c.op("read", [&] { so = p->SecureKey(); so = p->SecureIV(); so = p->SecureInfo(); }); { Lib l; SV().swap(so); }
			if (end) { c.op("reset", [&] { p->Reset(); }); c.after("read back", [&](Bytes& r) { SV x = p->SecureKey(); r = plain(x); }); }
			c.op("destroy", [&] { p.reset(); });
		}; });
	scenario("key/SymmetricSecureKey", [](std::string& n) -> Scenario {
		int route = mc::choose(4), end = mc::choose(2), pol = mc::choose(6); bool sec = mc::flip(); n += " route " + std::to_string(route) + (sec ? " secure" : "") + (end ? " reset" : "") + " policy " + std::to_string(pol);
		return [=](Ctx& c) {
			typedef Cipher::SymmetricSecureKey K; static const Enumeration::SecurityPolicy PV[] = { Enumeration::SecurityPolicy::SPL256, Enumeration::SecurityPolicy::SPL256AE, Enumeration::SecurityPolicy::SPL512, Enumeration::SecurityPolicy::SPL512AE, Enumeration::SecurityPolicy::SPL1024, Enumeration::SecurityPolicy::SPL1024AE }; auto P = PV[pol]; Bytes k = c.key(32, 1), iv = c.key(16, 2), inf = c.key(20, 3), salt = c.key(16, 4); SV sk = secure(k), siv = secure(iv), sinf = secure(inf), ss = secure(salt); std::unique_ptr<K> p;
			c.op("construct", [&] { p.reset(sec ? (route == 0 ? new K(sk, P, ss) : route == 1 ? new K(sk, siv, P, ss) : new K(sk, siv, sinf, P, ss)) : (route == 0 ? new K(k, P, salt) : route == 1 ? new K(k, iv, P, salt) : new K(k, iv, inf, P, salt))); });
			if (route == 3) { SV s; c.op("serialize", [&] { s = K::Serialize(*p); }); std::unique_ptr<K> q; c.op("clone", [&] { q.reset(p->Clone()); }); c.op("destroy", [&] { q.reset(); }); { Lib l; s.clear(); s.shrink_to_fit(); } }
			SV so; c.op("read", [&] { so = p->SecureKey(); so = p->SecureIV(); so = p->SecureInfo(); }); { Lib l; SV().swap(so); } { Bytes o; c.op("read", [&] { const Bytes t = p->Key(); o.assign(t.begin(), t.end()); }); }
			if (end) { c.op("reset", [&] { p->Reset(); }); c.after("read back", [&](Bytes& r) { SV x = p->SecureKey(); r = plain(x); }); }
			c.op("destroy", [&] { p.reset(); });
		}; });
}
static void asymKeys()
{
	using namespace Enumeration; typedef Asymmetric::AsymmetricKey AK; typedef Asymmetric::AsymmetricSecureKey ASK;
	scenario("key/AsymmetricKey", [](std::string& n) -> Scenario {
		int route = mc::choose(4), end = mc::choose(2); bool sec = mc::flip(); n += " route " + std::to_string(route) + (sec ? " secure" : "") + (end ? " reset" : "");
		return [=](Ctx& c) {
			Bytes k = c.key(300, 1), k2 = c.key(200, 2); SV sk = secure(k); std::unique_ptr<AK> p; c.op("construct", [&] { p.reset(sec ? new AK(sk, AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::CipherPrivateKey, AsymmetricParameters::KYBERS5P3168) : new AK(k, AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::CipherPrivateKey, AsymmetricParameters::KYBERS5P3168)); });
			if (route == 1) { SV s; c.op("serialize", [&] { s = AK::Serialize(*p); }); std::unique_ptr<AK> q; c.op("deserialize", [&] { q.reset(AK::DeSerialize(s)); }); c.op("destroy", [&] { q.reset(); }); { Lib l; SV().swap(s); } }
			if (route == 2) c.op("update", [&] { p->Update(k2); });
			if (route == 3) { SV o; c.op("read", [&] { o = p->SecurePolynomial(); }); { Lib l; SV().swap(o); } }
			if (end) { c.op("reset", [&] { p->Reset(); }); c.after("read back", [&](Bytes& r) { SV x = p->SecurePolynomial(); r = plain(x); }); }
			c.op("destroy", [&] { p.reset(); });
		}; });
	scenario("key/AsymmetricSecureKey", [](std::string& n) -> Scenario {
		int route = mc::choose(3), end = mc::choose(2), pol = mc::choose(6), salt = mc::choose(2); bool sec = mc::flip(); n += " route " + std::to_string(route) + (sec ? " secure" : "") + (end ? " reset" : "") + " policy " + std::to_string(pol);
		return [=](Ctx& c) {
			static const SecurityPolicy P[] = { SecurityPolicy::SPL256, SecurityPolicy::SPL256AE, SecurityPolicy::SPL512, SecurityPolicy::SPL512AE, SecurityPolicy::SPL1024, SecurityPolicy::SPL1024AE };
			Bytes k = c.key(300, 1), sa = salt ? c.key(32, 2) : Bytes(); SV sk = secure(k), ss = secure(sa); std::unique_ptr<ASK> p; c.op("construct", [&] { p.reset(sec ? new ASK(sk, ss, AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::CipherPrivateKey, AsymmetricParameters::KYBERS5P3168, P[pol]) : new ASK(k, sa, AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::CipherPrivateKey, AsymmetricParameters::KYBERS5P3168, P[pol])); }); if (!p) return;
			if (route == 1) { SV s; c.op("serialize", [&] { s = ASK::Serialize(*p); }); { Lib l; SV().swap(s); } }
			if (route == 2) { SV o; { Lib l; o.resize(300); } c.op("read", [&] { p->SecurePolynomial(o); }); { Lib l; SV().swap(o); } }
			if (end) { c.op("reset", [&] { p->Reset(); }); c.after("read back", [&](Bytes& r) { SV x(300); p->SecurePolynomial(x); g_on = false; r = plain(x); }); }
			c.op("destroy", [&] { p.reset(); });
		}; });
}
static void blockCiphers()
{
	using namespace Enumeration; struct E { BlockCiphers c; const char* n; size_t k; };
	static const std::vector<E> V{ { BlockCiphers::AES, "AES-128", 16 }, { BlockCiphers::AES, "AES-256", 32 }, { BlockCiphers::RHXH256, "RHXH256", 32 }, { BlockCiphers::RHXH512, "RHXH512", 64 }, { BlockCiphers::RHXS256, "RHXS256", 32 }, { BlockCiphers::RHXS512, "RHXS512", 64 }, { BlockCiphers::Serpent, "Serpent", 32 }, { BlockCiphers::SHXH256, "SHXH256", 32 }, { BlockCiphers::SHXH512, "SHXH512", 64 }, { BlockCiphers::SHXS256, "SHXS256", 32 }, { BlockCiphers::SHXS512, "SHXS512", 64 } };
	for (auto& e : V)
	{
		scenario(std::string("block/") + e.n, [e](std::string& n) -> Scenario {
			bool enc = mc::flip(); int use = mc::choose(2), end = mc::choose(2); bool info = e.k == 64 && mc::flip(); n += std::string(enc ? " encrypt" : " decrypt") + (use ? " used" : "") + (end ? " rekeyed" : "");
			return [=](Ctx& c) {
				std::unique_ptr<Cipher::Block::IBlockCipher> p; Bytes k = c.key(e.k, 1), in = c.pub(256, 3), out(256); Cipher::SymmetricKey sk = mkKey(k, Bytes(), Bytes()), s2 = mkKey(c.pub(e.k, 4), Bytes());
				c.op("construct", [&] { p.reset(Helper::BlockCipherFromName::GetInstance(e.c)); }); c.op("initialize", [&] { p->Initialize(enc, sk); });
				if (use) { c.op("block", [&] { p->Transform(in, 0, out, 0); }); c.op("16 blocks", [&] { p->Transform2048(in, 0, out, 0); }); }
				if (end) { c.op("initialize again", [&] { p->Initialize(enc, s2); }); c.after("use", [&](Bytes& r) { p->Transform(in, 0, out, 0); g_on = false; r = sub(out, 0, 16); }); }
				c.op("destroy", [&] { p.reset(); });
			}; });
		for (int m = 0; m < 6; ++m) if (e.c == BlockCiphers::AES ? e.k == 32 : e.c == BlockCiphers::RHXS512 || e.c == BlockCiphers::Serpent)
		{
			static const char* MN[] = { "CBC", "CFB", "CTR", "ECB", "ICM", "OFB" }; static const CipherModes MV[] = { CipherModes::CBC, CipherModes::CFB, CipherModes::CTR, CipherModes::ECB, CipherModes::ICM, CipherModes::OFB };
			scenario(std::string("mode/") + MN[m] + "-" + e.n, [e, m](std::string& n) -> Scenario {
				bool enc = mc::flip(); int use = mc::choose(4), end = mc::choose(2); n += std::string(enc ? " encrypt" : " decrypt") + " use " + std::to_string(use) + (end ? " rekeyed" : "");
				return [=](Ctx& c) {
					std::unique_ptr<ICipherMode> p; Bytes k = c.key(e.k, 1), iv = c.pub(16, 2), in = c.text(700, 3), out(700); Cipher::SymmetricKey sk = mkKey(k, iv), s2 = mkKey(c.pub(e.k, 4), iv);
					c.op("construct", [&] { p.reset(Helper::CipherModeFromName::GetInstance(e.c, MV[m])); }); p->ParallelProfile().IsParallel() = false; c.op("initialize", [&] { p->Initialize(enc, sk); });
					if (use) c.op("transform", [&] { p->Transform(in, 0, out, 0, use == 1 ? 16 : use == 2 ? 320 : (m == 0 || m == 3) ? 640 : 333); });
					if (end) { c.op("initialize again", [&] { p->Initialize(enc, s2); }); Bytes q = c.pub(64, 9); c.after("use", [&](Bytes& r) { p->Transform(q, 0, out, 0, 64); g_on = false; r = sub(out, 0, 64); }); }
					c.op("destroy", [&] { p.reset(); });
				}; });
		}
	}
}
static void sealed()
{
	for (auto& a : aead::all()) scenario("aead/" + a.name, [&a](std::string& n) -> Scenario {
		bool enc = mc::flip(); int use = mc::choose(4), end = mc::choose(2), info = mc::choose(a.info ? 2 : 1); bool ad = a.auth && use && mc::flip(); n += std::string(enc ? " encrypt" : " decrypt") + " use " + std::to_string(use) + (ad ? " associated data" : "") + (end ? " rekeyed" : "") + (info ? " tweak" : "");
		return [=](Ctx& c) {
			std::unique_ptr<aead::Inst> p; Bytes k = c.key(a.key, 1), iv = c.pub(a.iv, 2), inf = info ? c.pub(a.info, 5) : Bytes(), in = c.text(1400, 3), out(1400); size_t len = use == 1 ? 5 : use == 2 ? 256 : 1100; Bytes d = c.pub(20, 8);
			if (!enc && use) try { std::unique_ptr<aead::Inst> q(a.make()); q->init(true, k, iv, inf); if (ad) q->ad(d, 0, d.size(), false); Bytes t(len + q->tagSize()); q->xf(in, 0, t, 0, len); t.resize(1400); in = t; } catch (CEX::Exception::CryptoException& e) { mc::fail("seal", "%s", e.Message().c_str()); }
			c.op("construct", [&] { p.reset(a.make()); }); { Cipher::SymmetricKey sk = mkKey(k, iv, inf); c.op("initialize", [&] { p->init(enc, k, iv, inf); }); }
			if (ad) c.op("associated data", [&] { p->ad(d, 0, d.size(), false); });
			if (use) c.op("transform", [&] { p->xf(in, 0, out, 0, len); });
			if (end) { Bytes k2 = c.pub(a.key, 77), q = c.pub(64, 9); c.op("initialize again", [&] { p->init(true, k2, iv, Bytes()); }); c.after("use", [&](Bytes& r) { p->xf(q, 0, out, 0, 64); g_on = false; r = sub(out, 0, 64 + (a.tag ? p->tagSize() : 0)); }); }
			c.op("destroy", [&] { p.reset(); });
		}; });
}
static void macs()
{
	using namespace Enumeration; struct M { Macs m; const char* n; size_t k, iv; };
	static const std::vector<M> V{ { Macs::CMAC, "CMAC", 32, 0 }, { Macs::CMACRHXS512, "CMACRHXS512", 64, 0 }, { Macs::GMAC, "GMAC", 32, 12 }, { Macs::GMACRHXS256, "GMACRHXS256", 32, 16 }, { Macs::HMACSHA2256, "HMAC256", 64, 0 }, { Macs::HMACSHA2512, "HMAC512", 200, 0 }, { Macs::KPA128, "KPA128", 16, 0 }, { Macs::KPA256, "KPA256", 32, 0 }, { Macs::KPA512, "KPA512", 64, 0 }, { Macs::KMAC128, "KMAC128", 16, 0 }, { Macs::KMAC256, "KMAC256", 32, 8 }, { Macs::KMAC512, "KMAC512", 64, 8 }, { Macs::Poly1305, "Poly1305", 32, 0 } };
	for (auto& e : V) scenario(std::string("mac/") + e.n, [e](std::string& n) -> Scenario {
		int use = mc::choose(4), end = mc::choose(4); n += " use " + std::to_string(use) + (end == 1 ? " reset" : end == 2 ? " rekeyed" : end == 3 ? " finalized and reset" : "");
		return [=](Ctx& c) {
			std::unique_ptr<Mac::IMac> p; Bytes k = c.key(e.k, 1), iv = e.iv ? c.pub(e.iv, 2) : Bytes(), in = c.text(700, 3); Cipher::SymmetricKey sk = mkKey(k, iv), s2 = mkKey(c.pub(e.k, 4), iv);
			c.op("construct", [&] { p.reset(Helper::MacFromName::GetInstance(e.m)); }); c.op("initialize", [&] { p->Initialize(sk); }); Bytes tag(p->TagSize());
			if (use) c.op("update", [&] { p->Update(in, 0, use == 1 ? 1 : use == 2 ? 136 : 700); });
			if (end == 0 && use || end == 3) c.op("finalize", [&] { p->Finalize(tag, 0); });
			if (end == 1 || end == 3) { c.op("reset", [&] { p->Reset(); }); Bytes q = c.pub(40, 9); c.after("use", [&](Bytes& r) { Bytes o(p->TagSize()); p->Update(q, 0, 40); p->Finalize(o, 0); g_on = false; r.assign(o.begin(), o.end()); }); }
			if (end == 2) { c.op("initialize again", [&] { p->Initialize(s2); }); Bytes q = c.pub(40, 9); c.after("use", [&](Bytes& r) { p->Update(q, 0, 40); p->Finalize(tag, 0); g_on = false; r = tag; }); }
			c.op("destroy", [&] { p.reset(); });
		}; });
}
static void kdfs()
{
	using namespace Enumeration; struct M { Kdfs m; const char* n; size_t k; };
	static const std::vector<M> V{ { Kdfs::HKDF256, "HKDF256", 64 }, { Kdfs::HKDF512, "HKDF512", 64 }, { Kdfs::KDF2256, "KDF2256", 64 }, { Kdfs::KDF2512, "KDF2512", 64 }, { Kdfs::PBKDF2256, "PBKDF2256", 64 }, { Kdfs::PBKDF2512, "PBKDF2512", 64 }, { Kdfs::SHAKE128, "SHAKE128", 64 }, { Kdfs::SHAKE256, "SHAKE256", 64 }, { Kdfs::SHAKE512, "SHAKE512", 64 }, { Kdfs::SCBKDF256, "SCBKDF256", 64 }, { Kdfs::SCBKDF512, "SCBKDF512", 64 } };
	for (auto& e : V) scenario(std::string("kdf/") + e.n, [e](std::string& n) -> Scenario {
		int use = mc::choose(4), end = mc::choose(3), par = mc::choose(3); bool sec = use && mc::flip(); n += " use " + std::to_string(use) + (end == 1 ? " reset" : end == 2 ? " rekeyed" : "") + " parameters " + std::to_string(par) + (sec ? " secure" : "");
		return [=](Ctx& c) {
			std::unique_ptr<Kdf::IKdf> p; Bytes k = c.key(e.k, 1), salt = par ? c.key(64, 2) : Bytes(), inf = par == 2 ? c.key(20, 5) : Bytes(); Cipher::SymmetricKey sk = mkKey(k, salt, inf), s2 = mkKey(c.pub(e.k, 4), Bytes(64, 9)); Bytes out(200); SV so(200);
			c.op("construct", [&] { p.reset(e.m == Kdfs::PBKDF2256 ? new Kdf::PBKDF2(SHA2Digests::SHA2256, 3) : e.m == Kdfs::PBKDF2512 ? new Kdf::PBKDF2(SHA2Digests::SHA2512, 3) : Helper::KdfFromName::GetInstance(e.m)); }); c.op("initialize", [&] { p->Initialize(sk); });
			for (int i = 0; i < use; ++i) c.op("generate", [&] { size_t l = i == 0 ? 10 : i == 1 ? 150 : 64; if (sec) p->Generate(so, 3, l); else p->Generate(out, 3, l); });
			if (end == 1) { c.op("reset", [&] { p->Reset(); }); Bytes o(40); c.after("use", [&](Bytes& r) { p->Generate(o, 0, 40); g_on = false; r = o; }); }
			if (end == 2) { c.op("initialize again", [&] { p->Initialize(s2); }); Bytes o(40); c.after("use", [&](Bytes& r) { p->Generate(o, 0, 40); g_on = false; r = o; }); }
			c.op("destroy", [&] { p.reset(); });
		}; });
}
static void digests()
{
	using namespace Enumeration; static const std::vector<std::pair<Digests, const char*>> V{ { Digests::Blake256, "Blake256" }, { Digests::Blake512, "Blake512" }, { Digests::SHA3256, "SHA3256" }, { Digests::SHA3512, "SHA3512" }, { Digests::SHA2256, "SHA2256" }, { Digests::SHA2512, "SHA2512" }, { Digests::SHAKE256, "SHAKE256" }, { Digests::Skein256, "Skein256" }, { Digests::Skein512, "Skein512" }, { Digests::Skein1024, "Skein1024" } };
	for (auto& e : V) scenario(std::string("digest/") + e.second, [e](std::string& n) -> Scenario {
		int use = mc::choose(4), end = mc::choose(3); n += " use " + std::to_string(use) + (end == 1 ? " reset" : end == 2 ? " finalized" : "");
		return [=](Ctx& c) {
			std::unique_ptr<Digest::IDigest> p; Bytes in = c.text(900, 3); c.op("construct", [&] { p.reset(Helper::DigestFromName::GetInstance(e.first)); }); if (!p) return; Bytes code(p->DigestSize());
			if (use) c.op("update", [&] { p->Update(in, 0, use == 1 ? 1 : use == 2 ? 128 : 900); });
			if (end == 2) c.op("finalize", [&] { p->Finalize(code, 0); });
			if (end == 1) c.op("reset", [&] { p->Reset(); });
			if (end) { Bytes q = c.pub(40, 9); c.after("use", [&](Bytes& r) { p->Update(q, 0, 40); p->Finalize(code, 0); g_on = false; r = code; }); }
			c.op("destroy", [&] { p.reset(); });
		}; }, true);
}
static void generators()
{
	using namespace Enumeration;
	for (int g = 0; g < 3; ++g) { static const char* N[] = { "BCG", "CSG", "HCG" };
		scenario(std::string("drbg/") + N[g], [g](std::string& n) -> Scenario {
			int use = mc::choose(4), end = mc::choose(3), par = mc::choose(2); n += " use " + std::to_string(use) + (end == 1 ? " updated" : end == 2 ? " rekeyed" : "") + (par ? " tweak" : "");
			return [=](Ctx& c) {
				std::unique_ptr<Drbg::IDrbg> p; c.op("construct", [&] { p.reset(g == 0 ? (Drbg::IDrbg*)new Drbg::BCG(Providers::CSP) : g == 1 ? (Drbg::IDrbg*)new Drbg::CSG(ShakeModes::SHAKE256, Providers::CSP) : new Drbg::HCG(SHA2Digests::SHA2512, Providers::CSP)); }); if (!p) return; auto ks = p->LegalKeySizes(); auto sz = ks[ks.size() > 1 ? 1 : 0]; Bytes k = c.key(sz.KeySize(), 1), iv = c.key(sz.IVSize(), 2), inf = par ? c.key(sz.InfoSize(), 3) : Bytes(); Bytes out(700); Cipher::SymmetricKey sk = mkKey(k, iv, inf), s2 = mkKey(c.pub(sz.KeySize(), 4), c.pub(sz.IVSize(), 5)); Bytes up = c.key(sz.KeySize(), 8);
				c.op("initialize", [&] { p->Initialize(sk); }); for (int i = 0; i < use; ++i) c.op("generate", [&] { p->Generate(out, 0, i == 0 ? 16 : i == 1 ? 500 : 33); });
				if (end == 1) { c.op("update", [&] { p->Update(up); }); c.op("generate", [&] { p->Generate(out, 0, 40); }); }
				if (end == 2) { c.op("initialize again", [&] { p->Initialize(s2); }); c.after("use", [&](Bytes& r) { p->Generate(out, 0, 100); g_on = false; r = sub(out, 0, 100); }); }
				c.op("destroy", [&] { p.reset(); });
			}; }); }
	for (int g = 0; g < 5; ++g) { static const Prngs D[] = { Prngs::BCR, Prngs::CSR, Prngs::CSRC512, Prngs::HCR, Prngs::HCRS512 }; static const char* N[] = { "BCR", "CSR", "CSRC512", "HCR", "HCRS512" };
		for (int secure = 0; secure < 2; ++secure) scenario(std::string(secure ? "random/" : "prng/") + N[g], [g, secure](std::string& n) -> Scenario {
			int use = mc::choose(4), end = mc::choose(2); n += " use " + std::to_string(use) + (end ? " reset" : "");
			return [=](Ctx& c) {
				sim::rngSeed = (uint64_t)c.world + 5; Bytes out(700); SV so(700);
				if (secure) { std::unique_ptr<Prng::SecureRandom> p; c.op("construct", [&] { p.reset(new Prng::SecureRandom(D[g], Providers::CSP)); }); if (use == 1) c.op("generate", [&] { p->Generate(out, 0, 10); }); if (use == 2) c.op("generate", [&] { p->Generate(so, 0, 600); }); if (use == 3) { c.op("numbers", [&] { p->NextUInt32(100, 7); p->NextUInt64(); }); std::vector<uint32_t> f(9); c.op("fill", [&] { p->Fill(f, 1, 8); }); } c.op("destroy", [&] { p.reset(); }); return; }
				std::unique_ptr<Prng::IPrng> p; c.op("construct", [&] { p.reset(Helper::PrngFromName::GetInstance(D[g], Providers::CSP)); });
				if (use == 1) c.op("generate", [&] { p->Generate(out, 0, 10); }); if (use == 2) c.op("generate", [&] { p->Generate(so, 0, 600); }); if (use == 3) c.op("numbers", [&] { p->NextUInt16(); p->NextUInt64(); });
				if (end) { c.op("reset", [&] { p->Reset(); }); c.op("generate", [&] { p->Generate(out, 0, 33); }); }
				c.op("destroy", [&] { p.reset(); });
			}; }); }
	scenario("keygen", [](std::string& n) -> Scenario {
		int what = mc::choose(3), pol = mc::choose(3); n += " " + std::to_string(what) + " policy " + std::to_string(pol);
		return [=](Ctx& c) {
			sim::rngSeed = (uint64_t)c.world + 5; auto P = pol == 0 ? SecurityPolicy::SPL256 : pol == 1 ? SecurityPolicy::SPL512 : SecurityPolicy::SPL1024; std::unique_ptr<Cipher::SymmetricKeyGenerator> g; c.op("construct", [&] { g.reset(new Cipher::SymmetricKeyGenerator(P, Providers::CSP)); });
			if (what == 0) { std::unique_ptr<Cipher::SymmetricKey> k; c.op("key", [&] { k.reset(g->GetSymmetricKey(Cipher::SymmetricKeySize(32, 16, 16))); }); c.op("destroy key", [&] { k.reset(); }); }
			if (what == 1) { std::unique_ptr<Cipher::SymmetricSecureKey> k; c.op("secure key", [&] { k.reset(g->GetSecureKey(Cipher::SymmetricKeySize(32, 16, 16))); }); c.op("destroy key", [&] { k.reset(); }); }
			if (what == 2) { SV o(100); c.op("bytes", [&] { g->Generate(o, 10, 80); }); c.op("bytes", [&] { SV t = g->Generate(50); }); }
			c.op("destroy", [&] { g.reset(); });
		}; });
}
static void streams()
{
	using namespace Enumeration;
	scenario("stream/SecureStream", [](std::string& n) -> Scenario {
		int route = mc::choose(3), use = mc::choose(4), end = mc::choose(4); n += " route " + std::to_string(route) + " use " + std::to_string(use) + " end " + std::to_string(end);
		return [=](Ctx& c) {
			Bytes d = c.text(100, 1), in = c.text(50, 2), o(200); std::unique_ptr<IO::SecureStream> p; c.op("construct", [&] { p.reset(route == 0 ? new IO::SecureStream() : route == 1 ? new IO::SecureStream(d, 77) : new IO::SecureStream((size_t)64, 99)); });
			if (use & 1) c.op("write", [&] { p->Write(in, 0, 50); p->WriteByte(d[3]); }); if (use & 2) { c.op("seek", [&] { p->Seek(0, IO::SeekOrigin::Begin); }); c.op("read", [&] { p->Read(o, 0, 30); }); }
			if (end == 1) { c.op("reset", [&] { p->Reset(); }); } if (end == 2) c.op("close", [&] { p->Close(); }); if (end == 3) c.op("destroy", [&] { p->Destroy(); });
			c.op("destroy", [&] { p.reset(); });
		}; }, true);
	scenario("stream/CipherStream", [](std::string& n) -> Scenario {
		bool enc = mc::flip(); int mode = mc::choose(4), use = mc::choose(3); n += std::string(enc ? " encrypt" : " decrypt") + " mode " + std::to_string(mode) + " use " + std::to_string(use);
		return [=](Ctx& c) {
			static const CipherModes M[] = { CipherModes::CBC, CipherModes::CTR, CipherModes::ECB, CipherModes::OFB }; std::unique_ptr<Processing::CipherStream> p; Cipher::SymmetricKey sk = mkKey(c.key(32, 1), c.pub(16, 2)); Bytes in = c.pub(96, 3), out(200);
			c.op("construct", [&] { p.reset(new Processing::CipherStream(BlockCiphers::AES, M[mode], PaddingModes::PKCS7)); }); c.op("initialize", [&] { p->Initialize(enc, sk); }); if (use == 1) c.op("write", [&] { p->Write(in, 0, out, 0); }); if (use == 2) { IO::MemoryStream a(in), b; c.op("write", [&] { p->Write(&a, &b); }); } c.op("destroy", [&] { p.reset(); });
		}; });
	scenario("stream/MacStream", [](std::string& n) -> Scenario {
		int m = mc::choose(3), use = mc::choose(2); n += " mac " + std::to_string(m) + (use ? " used" : "");
		return [=](Ctx& c) { static const Macs M[] = { Macs::HMACSHA2256, Macs::KMAC256, Macs::KPA256 }; std::unique_ptr<Processing::MacStream> p; Cipher::SymmetricKey sk = mkKey(c.key(m == 0 ? 64 : 32, 1), Bytes()); Bytes in = c.pub(300, 3); c.op("construct", [&] { p.reset(new Processing::MacStream(M[m])); }); c.op("initialize", [&] { p->Initialize(sk); }); if (use) { Bytes r; c.op("compute", [&] { r = p->Compute(in, 0, 300); }); } c.op("destroy", [&] { p.reset(); }); }; });
}

void mc_register()
{
	symKeys(); asymKeys(); blockCiphers(); sealed(); macs(); kdfs(); digests(); generators(); streams();
	mc::bounds("every family member, each lifecycle: construct, key, 0-3 uses, then reset / re-key / destroy");
}
