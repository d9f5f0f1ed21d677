// MC-VARIANT: asan
// MC-TECHNIQUE: exhaustive enumeration of every 16-bit source value for each bound, of boundary bounds and boundary source windows for 32 and 64 bits, of request-length histories with a failing engine, and of key-size combinations with every single-byte change of the seed, on the implementation with the underlying generator scripted
// Random numbers and keys lie in range, are complete and follow their source.
#include "checks/common.h"
#include "SecureRandom.h"
#include "PrngFromName.h"
#include "BCR.h"
#include "CSR.h"
#include "HCR.h"
#include "PrngBase.h"
#include "SymmetricKeyGenerator.h"
#include "SymmetricSecureKey.h"
#include <cstring>
#include <limits>
const char* const MC_PROPERTY = "C23";
using Prng::IPrng; using Prng::SecureRandom; using Enumeration::Prngs; using Enumeration::Providers; using Enumeration::SecurityPolicy;
typedef SecureVector<uint8_t> SV;

/* ---- the generator underneath SecureRandom: a byte stream the driver decides ---- */
static uint8_t rnd(size_t i) { return (uint8_t)((i * 0x9E3779B97F4A7C15ULL + 0x7654321) >> 39); }
struct Src { size_t pos = 0; std::function<uint8_t(size_t)> at; size_t end = SIZE_MAX; int failCall = -1, calls = 0; std::vector<std::pair<size_t, size_t>> log; };
static Src* g_src = nullptr;
struct Stop {};      /* not a library exception: the script has run out */
struct Engine : Prng::PrngBase
{
	Engine() : PrngBase(Prngs::BCR, "script") {}
	template <class V> void fill(V& o, size_t off, size_t n)
	{
		if (g_src->calls++ == g_src->failCall) throw Exception::CryptoRandomException("script", "Generate", "no entropy", Enumeration::ErrorCodes::NoAccess);
		if (g_src->end - g_src->pos < n) throw Stop(); MC_CHECK(off <= o.size() && o.size() - off >= n, "engine-bounds", "the generator is asked for %zu bytes at %zu of %zu", n, off, o.size());
		g_src->log.push_back({ g_src->pos, n }); for (size_t i = 0; i < n; ++i) o[off + i] = g_src->at(g_src->pos++);
	}
	void Generate(std::vector<uint8_t>& o) override { fill(o, 0, o.size()); }
	void Generate(SV& o) override { fill(o, 0, o.size()); }
	void Generate(std::vector<uint8_t>& o, size_t a, size_t n) override { fill(o, a, n); }
	void Generate(SV& o, size_t a, size_t n) override { fill(o, a, n); }
	void Reset() override {}
};
/* the factory seam: SecureRandom asks it for its generator */
namespace CEX { namespace Helper { Prng::IPrng* PrngFromName::GetInstance(Prngs t, Providers p)
{
	if (g_src) return new Engine();
	switch (t) { case Prngs::BCR: return new Prng::BCR(p); case Prngs::CSR: return new Prng::CSR(Enumeration::ShakeModes::SHAKE512, p); case Prngs::HCR: return new Prng::HCR(Enumeration::SHA2Digests::SHA2512, p); default: throw Exception::CryptoException("PrngFromName", "GetInstance", "unknown", Enumeration::ErrorCodes::InvalidParam); }
} } }

template <class F> static bool refused(const char* what, F f)
{
	try { f(); return false; }
	catch (const Exception::CryptoException&) { return true; }
	catch (const mc::Violation&) { throw; }
	catch (const std::exception& e) { mc::fail("foreign-exception", "%s raises %s", what, e.what()); }
}

/* ---------------- bounded integers ---------------- */
template <class T> struct Next;
#define NEXT(T, N) template <> struct Next<T> { static T raw(SecureRandom& r) { return r.Next##N(); } static T max(SecureRandom& r, T a) { return r.Next##N(a); } static T range(SecureRandom& r, T a, T b) { return r.Next##N(a, b); } static const char* name() { return "Next" #N; } };
NEXT(int16_t, Int16) NEXT(uint16_t, UInt16) NEXT(int32_t, Int32) NEXT(uint32_t, UInt32) NEXT(int64_t, Int64) NEXT(uint64_t, UInt64)

static std::string str(__int128 v) { if (v < 0) return "-" + str(-v); std::string s; do { s.insert(s.begin(), (char)('0' + (int)(v % 10))); v /= 10; } while (v); return s; }
/* feed the samples, in order, as the whole output of the generator; returns every value produced from them */
template <class T> static std::vector<T> values(const std::vector<T>& samples, bool two, T hi, T lo)
{
	Src s; const uint8_t* p = (const uint8_t*)samples.data(); s.at = [p](size_t i) { return p[i]; }; s.end = samples.size() * sizeof(T); g_src = &s; std::vector<T> out;
	SecureRandom r(Prngs::BCR, Providers::CSP);
	try { for (;;) { T v = two ? Next<T>::range(r, hi, lo) : Next<T>::max(r, hi); out.push_back(v); MC_CHECK(out.size() <= samples.size(), "reuse", "%s gives %zu values from %zu samples", Next<T>::name(), out.size(), samples.size()); } } catch (Stop&) {}
	g_src = nullptr; mc::transition(); return out;
}
template <class T> static void inRange(const std::vector<T>& v, bool two, T hi, T lo)
{
	T mn = two ? lo : 0; for (T x : v) MC_CHECK(x >= mn && x <= hi, "range", "%s(%s%s) returns %s", Next<T>::name(), str(hi).c_str(), two ? (", " + str(lo)).c_str() : "", str(x).c_str());
}
template <class T> static bool refusedBound(bool two, T hi, T lo)
{
	Src s; s.at = rnd; g_src = &s; SecureRandom r(Prngs::BCR, Providers::CSP); bool no;
	if (two ? hi >= lo && hi >= 1 : hi >= 1) no = false; else { no = refused("a bound", [&] { if (two) Next<T>::range(r, hi, lo); else Next<T>::max(r, hi); }); MC_CHECK(no || (two && hi >= lo), "refuse", "%s(%s%s) is accepted", Next<T>::name(), str(hi).c_str(), two ? (", " + str(lo)).c_str() : ""); }
	g_src = nullptr; return no;
}
template <class T> static void exhaustive16(const std::vector<int>& his, const std::vector<int>& los)
{
	bool two = mc::flip(); T hi = (T)mc::pick(his), lo = two ? (T)mc::pick(los) : (T)0; if (refusedBound<T>(two, hi, lo) || hi < lo || hi < 1) return;
	static std::vector<T> all; if (all.empty()) for (int i = 0; i < 65536; ++i) all.push_back((T)(i * 40503));    /* every value once, in a scattered order */
	MC_OP("%s(%d%s) over every 16-bit source value", Next<T>::name(), (int)hi, two ? (", " + std::to_string((int)lo)).c_str() : "");
	std::vector<T> v = values<T>(all, two, hi, lo); inRange<T>(v, two, hi, lo);
	MC_CHECK((v == values<T>(all, two, hi, lo)), "function", "%s gives different values for the same source", Next<T>::name());
	int mn = two ? lo : 0, mx = hi; std::vector<size_t> n((size_t)(mx - mn + 1)); for (T x : v) ++n[(size_t)(x - mn)];
	size_t want = n[0]; MC_CHECK(want > 0, "reach", "%s(%d, %d) never returns %d", Next<T>::name(), mx, mn, mn);
	for (int k = mn; k <= mx; ++k)
	{
		if (!two && k == mx && n[(size_t)(k - mn)] == 0) continue;      /* "up to a maximum value" */
		MC_CHECK(n[(size_t)(k - mn)] > 0, "reach", "%s(%d, %d) never returns %d for any source value", Next<T>::name(), mx, mn, k);
		MC_CHECK(n[(size_t)(k - mn)] == want, "bias", "%s(%d, %d) returns %d for %zu source values and %d for %zu", Next<T>::name(), mx, mn, mn, want, k, n[(size_t)(k - mn)]);
	}
	mc::outcome(mc::hash(v.data(), v.size() * sizeof(T)));
}
template <class T> static void pad(std::vector<T>& s) { while (s.size() * sizeof(T) % 1024) s.push_back(0); }
/* small ranges: aligned windows of consecutive source values, at the bottom, around the sign change and at the top */
template <class T> static void windows()
{
	typedef typename std::make_unsigned<T>::type U; bool two = mc::flip(); static const std::vector<int> R{ 1, 2, 3, 5, 7, 10, 16, 64, 100, 255, 256, 1000, 1024 };
	U n = (U)mc::pick(R); static const std::vector<int> B{ 0, 1, 2, -1, -5, -1000 }; int base = two ? mc::pick(B) : 0; T lo, hi; bool sgn = std::numeric_limits<T>::is_signed;
	if (two) { lo = base >= 0 ? (T)base : sgn ? (T)base : (T)(std::numeric_limits<T>::max() + base - 2000); hi = (T)((U)lo + n - 1); if (hi < 1) return; } else { lo = 0; hi = (T)n; }
	int where = mc::choose(3); std::vector<T> s; U start, M = std::numeric_limits<U>::max(), H = M / 2 + 1;
	if (where == 0) { start = 0; for (U i = 0; i < 3 * n; ++i) s.push_back((T)(start + i)); }
	else if (where == 1) { start = H - H % n - 3 * n; for (U i = 0; i < 6 * n + H % n; ++i) s.push_back((T)(start + i)); }
	else { start = M - M % n - 3 * n; for (U i = start;; ++i) { s.push_back((T)i); if (i == M) break; } }
	size_t real = s.size(); pad(s); size_t pads = s.size() - real;
	MC_OP("%s range of %d values from %s, %zu consecutive source values from %s", Next<T>::name(), (int)n, str(lo).c_str(), real, str(start).c_str());
	std::vector<T> v = values<T>(s, two, hi, lo); inRange<T>(v, two, hi, lo);
	std::vector<size_t> c((size_t)n + 1); for (T x : v) ++c[(size_t)((U)x - (U)lo)];
	T z = values<T>(std::vector<T>(1024 / sizeof(T), 0), two, hi, lo).at(0); MC_CHECK(c[(size_t)((U)z - (U)lo)] >= pads, "function", "%s: zero samples do not all give the same value", Next<T>::name()); c[(size_t)((U)z - (U)lo)] -= pads;
	if (where == 0) for (size_t k = 0; k < n; ++k) MC_CHECK(c[k] > 0, "reach", "%s never returns the value %zu above the minimum", Next<T>::name(), k);
	/* in the middle window a signed one-argument form uses the lower half only, whose usable part ends at a multiple of n */
	if (where != 1 || sgn) for (size_t k = 1; k < n; ++k) MC_CHECK((c[k] > c[0] ? c[k] - c[0] : c[0] - c[k]) <= (where == 1 && two ? 1u : 0u), "bias", "%s over %zu consecutive source values from %s: value +0 comes %zu times, value +%zu %zu times", Next<T>::name(), real, str(start).c_str(), c[0], k, c[k]);
	mc::outcome(mc::hash(v.data(), v.size() * sizeof(T)));
}
/* wide ranges: both ends are reachable, nothing escapes, the whole type is possible */
template <class T> static void wide()
{
	typedef typename std::make_unsigned<T>::type U; static std::vector<T> E; if (E.empty()) { E = { std::numeric_limits<T>::min(), (T)(std::numeric_limits<T>::min() + 1), 0, 1, 2, (T)12345, (T)(std::numeric_limits<T>::max() / 2), (T)(std::numeric_limits<T>::max() / 2 + 1), (T)(std::numeric_limits<T>::max() / 2 + 2), (T)(std::numeric_limits<T>::max() - 1), std::numeric_limits<T>::max() }; if (std::numeric_limits<T>::is_signed) { E.push_back((T)-1); E.push_back((T)-77); } }
	bool two = mc::flip(); T hi = mc::pick(E), lo = two ? mc::pick(E) : (T)0; if (refusedBound<T>(two, hi, lo) || hi < lo || hi < 1) return;
	U span = (U)hi - (U)lo, n = (U)(span + (two ? 1 : 0)), M = std::numeric_limits<U>::max(); std::vector<T> s; std::vector<U> base{ 0, n, (U)(2 * n), (U)(M / 2), (U)(M / 2 + 1), M }; if (n) { base.push_back(M - M % n); base.push_back((U)(M / 2) - (U)(M / 2) % n); }
	for (U b : base) for (int d = -3; d <= 3; ++d) s.push_back((T)(U)(b + (U)d)); pad(s);
	MC_OP("%s(%s%s) over %zu boundary source values", Next<T>::name(), str(hi).c_str(), two ? (", " + str(lo)).c_str() : "", s.size()); std::vector<T> v = values<T>(s, two, hi, lo); inRange<T>(v, two, hi, lo);
	bool a = false, b = false; for (T x : v) { a |= x == lo; b |= two ? x == hi : (x == hi || x == hi - 1); }
	MC_CHECK(a && b, "reach", "%s(%s, %s): the %s is not reached from the boundary source values", Next<T>::name(), str(hi).c_str(), str(lo).c_str(), a ? "upper end" : "lower end"); mc::outcome(mc::hash(v.data(), v.size() * sizeof(T)));
	/* with samples n-1 .. and 0 .. every step of the source is a step of the value: no two different samples inside one range give the same value */
	if (n > 4 || n == 0) { std::vector<T> t; U m = n ? n : M; U lim = std::numeric_limits<T>::is_signed && !two ? (U)std::min<U>(m, M / 2) : m; for (U k : { (U)0, (U)1, (U)2, (U)3, (U)(lim / 2), (U)(lim - 1) }) t.push_back((T)k); pad(t); size_t real = 6; std::vector<T> w = values<T>(t, two, hi, lo); for (size_t i = 0; i < real && i < w.size(); ++i) for (size_t j = 0; j < i; ++j) MC_CHECK(w[i] != w[j] || t[i] == t[j], "collapse", "%s(%s, %s) gives %s for two different source values", Next<T>::name(), str(hi).c_str(), str(lo).c_str(), str(w[i]).c_str()); }
}

/* ---------------- requests ---------------- */
/* each request must be the next bytes of the stream; what a refill leaves over may be used or dropped, never used twice */
struct Track
{
	size_t cur = 0, seen = 0; bool fresh = true;      /* cur: first byte not yet used */
	bool take(const Bytes& got, size_t known)
	{
		std::vector<size_t> cand; if (!fresh) cand.push_back(cur); for (size_t i = seen; i < g_src->log.size(); ++i) cand.push_back(g_src->log[i].first); if (fresh && seen == g_src->log.size()) cand.push_back(cur);
		for (size_t c : cand) { if (c < cur) continue; bool ok = true; for (size_t i = 0; i < got.size() && ok; ++i) ok = got[i] == g_src->at(c + i); if (ok && (c + got.size() <= g_src->pos || got.empty())) { if (!got.empty()) { cur = c + got.size(); fresh = false; } seen = known; return true; } }
		return false;
	}
};
static void requests(size_t depth, const std::vector<size_t>& lens, int failCall)
{
	Src s; s.at = rnd; s.failCall = failCall; g_src = &s; SecureRandom r(Prngs::BCR, Providers::CSP); Track t; uint64_t oh = 0;
	for (size_t d = 0; d < depth; ++d)
	{
		size_t n = mc::pick(lens), off = mc::pick(std::vector<size_t>{ 0, 3 }); int form = mc::choose(off ? 2 : 3); Guarded g(off, n, off ? 2 : 0); Bytes o = g.buf; MC_OP("request %zu bytes at %zu, form %d", n, off, form); size_t calls = (size_t)s.calls; bool due = false;
		bool no = refused("a request", [&] { if (form == 0) r.Generate(o, off, n); else if (form == 1) { SV x = secure(o); try { r.Generate(x, off, n); } catch (...) { o = plain(x); throw; } o = plain(x); } else o = r.Generate(n); });
		due = s.failCall >= (int)calls && s.failCall < s.calls; MC_CHECK(no == due, "report", "request of %zu bytes %s", n, no ? "refused although the generator worked" : "succeeds although the generator failed");
		if (no) { mc::transition(); if (s.log.size() > t.seen || t.fresh == false) { /* whatever the failed request took is gone or still unused */ } continue; }
		g.buf = o; MC_CHECK(form == 2 ? o.size() == n : g.intact(), "window", "a request of %zu bytes at %zu %s", n, off, form == 2 ? "has another size" : "writes outside its window");
		MC_CHECK(t.take(form == 2 ? o : g.window(), s.log.size()), "stream", "request %zu of %zu bytes is not the next %zu bytes of the generator (or uses bytes again): %s", d, n, n, hx(form == 2 ? o : g.window(), 16).c_str()); oh = mc::combine(oh, h(o));
	}
	mc::outcome(oh); g_src = nullptr;
}
static void badRequests()
{
	Src s; s.at = rnd; g_src = &s; SecureRandom r(Prngs::BCR, Providers::CSP); static const std::vector<size_t> SZ{ 0, 1, 16, 1024 }; size_t size = mc::pick(SZ); static const std::vector<size_t> V{ 0, 1, 15, 16, 17, 1024, 1025, SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - 15, SIZE_MAX / 2 }; size_t off = mc::pick(V), n = mc::pick(V);
	if (off <= size && size - off >= n) return; if (n == 0) return; bool sec = mc::flip(); Bytes o(size, 0x77); o.shrink_to_fit(); SV x = secure(o); x.shrink_to_fit();
	MC_OP("request %zu bytes at %zu of %zu", n, off, size); MC_CHECK(refused("a request outside the array", [&] { if (sec) r.Generate(x, off, n); else r.Generate(o, off, n); }), "bounds", "%zu bytes at %zu of an array of %zu are accepted", n, off, size); MC_CHECK(plain(x) == Bytes(size, 0x77) && o == Bytes(size, 0x77), "bounds", "a refused request writes"); g_src = nullptr;
}
template <class V> static void fillArray(const char* name)
{
	typedef typename V::value_type T; Src s; s.at = rnd; g_src = &s; SecureRandom r(Prngs::BCR, Providers::CSP); static const std::vector<size_t> O{ 0, 1, 7 }, N{ 0, 1, 2, 3, 127, 128, 129, 511, 512, 513, 700 };
	size_t pre = mc::pick(O), off = mc::pick(O), n = mc::pick(N), tail = mc::pick(O); Track t; if (pre) MC_CHECK(t.take(r.Generate(pre), 1), "stream", "first bytes"); t.seen = s.log.size();
	const T fillv = (T)0xA5A5A5A5A5A5A5A5ULL; V v(off + n + tail, fillv); MC_OP("Fill(%s, %zu, %zu)", name, off, n); r.Fill(v, off, n);
	for (size_t i = 0; i < v.size(); ++i) if (i < off || i >= off + n) MC_CHECK(v[i] == fillv, "window", "Fill(%s, %zu, %zu) writes element %zu", name, off, n, i);
	Bytes b; for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < sizeof(T); ++k) b.push_back((uint8_t)((uint64_t)v[off + i] >> (8 * k))); MC_CHECK(t.take(b, s.log.size()), "stream", "Fill(%s, %zu, %zu) is not the next bytes of the generator", name, off, n);
	for (auto bad : std::vector<std::pair<size_t, size_t>>{ { off + n + tail, 1 }, { off, n + tail + 1 }, { SIZE_MAX, 2 }, { SIZE_MAX - 1, 2 }, { 1, SIZE_MAX } }) { V w(v); w.shrink_to_fit(); MC_CHECK(refused("a fill outside the array", [&] { r.Fill(w, bad.first, bad.second); }) && w == v, "bounds", "Fill(%s, %zu, %zu) of %zu elements is accepted", name, bad.first, bad.second, v.size()); }
	mc::outcome(h(b)); g_src = nullptr;
}
template <class T> static void raw(const char* name, std::function<T(SecureRandom&)> f)
{
	Src s; s.at = rnd; g_src = &s; SecureRandom r(Prngs::BCR, Providers::CSP); Track t; size_t pre = (size_t)mc::choose(1030); if (pre) { MC_CHECK(t.take(r.Generate(pre), 1 + pre / 1025), "stream", "first bytes"); t.seen = s.log.size(); }
	for (int i = 0; i < 3; ++i) { MC_OP("%s", name); T v = f(r); Bytes b(sizeof(T)); std::memcpy(b.data(), &v, sizeof(T)); MC_CHECK(t.take(b, s.log.size()), "stream", "%s after %zu bytes is not the next bytes of the generator", name, pre); mc::outcome(h(b)); } g_src = nullptr;
}

/* ---------------- the generators BCR, CSR, HCR themselves ---------------- */
static IPrng* make(int k) { switch (k) { case 0: return new Prng::BCR(Providers::CSP); case 1: return new Prng::CSR(Enumeration::ShakeModes::SHAKE512, Providers::CSP); case 2: return new Prng::HCR(Enumeration::SHA2Digests::SHA2512, Providers::CSP);
	case 3: return new Prng::CSR(Enumeration::ShakeModes::SHAKE256, Providers::CSP); default: return new Prng::HCR(Enumeration::SHA2Digests::SHA2256, Providers::CSP); } }
static const char* const PN[] = { "BCR", "CSR", "HCR", "CSR-256", "HCR-256" };
static void source(size_t flip) { sim::reset(); static size_t pos; pos = 0; sim::rng = [flip](uint8_t* p, size_t n) { for (size_t i = 0; i < n; ++i, ++pos) p[i] = (uint8_t)(rnd(pos) ^ (pos == flip ? 0x10 : 0)); return true; }; }
static const Bytes& stream(int k, size_t n)
{
	static std::map<int, Bytes> m; Bytes& b = m[k]; if (b.size() < n) { source(SIZE_MAX); std::unique_ptr<IPrng> p(make(k)); b.clear(); while (b.size() < n) { Bytes c(1024); p->Generate(c); b.insert(b.end(), c.begin(), c.end()); } } return b;
}
static void engine(int k, size_t depth, const std::vector<size_t>& lens)
{
	const Bytes& S = stream(k, 40000); source(SIZE_MAX); std::unique_ptr<IPrng> p(make(k)); size_t cur = 0; uint64_t oh = 0;
	for (size_t d = 0; d < depth; ++d)
	{
		size_t n = mc::pick(lens); int form = mc::choose(d ? 2 : 4); size_t off = form < 2 && (d + (size_t)form) % 2 ? 3 : 0; Guarded g(off, n, off ? 2 : 0); MC_OP("%s: %zu bytes at %zu, form %d", PN[k], n, off, form); SV x;
		if (form == 0) p->Generate(g.buf, off, n); else if (form == 2) p->Generate(g.buf); else { x = secure(g.buf); if (form == 1) p->Generate(x, off, n); else p->Generate(x); g.buf = plain(x); }
		MC_CHECK(g.intact(), "window", "%s writes outside the requested window", PN[k]); Bytes w = g.window(); oh = mc::combine(oh, h(w)); if (n == 0) continue; bool ok = false;
		for (size_t c : { cur, (cur + 1023) / 1024 * 1024, cur / 1024 * 1024 + 1024 }) if (!ok && sub(S, c, n) == w) { ok = true; cur = c + n; }
		MC_CHECK(ok, "stream", "%s: request %zu of %zu bytes is not the next bytes of its generator (or uses bytes again)", PN[k], d, n);
	}
	mc::outcome(oh);
	if (mc::flip()) { Bytes before = sub(S, 0, 4000); p->Reset(); Bytes o(700); p->Generate(o); MC_CHECK(std::search(S.begin(), S.end(), o.begin(), o.begin() + 64) == S.end(), "reset", "%s gives the same bytes again after a reset with new entropy", PN[k]); }
}
static void engineSeed(int k)
{
	source(SIZE_MAX); std::unique_ptr<IPrng> p(make(k)); Bytes a(1100); p->Generate(a); std::vector<std::pair<size_t, size_t>> calls; size_t used = 0;
	sim::reset(); sim::rng = [&](uint8_t* q, size_t n) { calls.push_back({ used, n }); for (size_t i = 0; i < n; ++i) q[i] = rnd(used++); return true; }; std::unique_ptr<IPrng> p1(make(k)); Bytes a1(1100); p1->Generate(a1); MC_CHECK(a == a1, "function", "%s gives different bytes for the same source", PN[k]);
	/* 8 byte samples feed the self test; every other read is a seed, all of it or (a sample that is thrown away) none of it */
	size_t eff = 0; std::vector<std::pair<size_t, size_t>> reads; for (auto& c : calls) if (c.second > 8) reads.push_back(c); MC_CHECK(!reads.empty(), "follow", "%s is not seeded", PN[k]);
	for (auto& c : reads)
	{
		size_t n = 0, miss = 0; for (size_t i = 0; i < c.second; ++i) { MC_OP("%s with byte %zu of its source changed", PN[k], c.first + i); source(c.first + i); std::unique_ptr<IPrng> p2(make(k)); Bytes b(1100); p2->Generate(b); if (sub(a, 0, 64) != sub(b, 0, 64) && sub(a, 1024, 64) != sub(b, 1024, 64)) ++n; else miss = i; mc::outcome(h(b)); }
		MC_CHECK(n == 0 || n == c.second, "follow", "%s does not depend on byte %zu of a seed of %zu bytes", PN[k], miss, c.second); eff += n;
	}
	MC_CHECK(eff >= 32, "follow", "%s depends on %zu bytes of its source", PN[k], eff);
}
static void engineNext(int k)
{
	const Bytes& S = stream(k, 40000); source(SIZE_MAX); std::unique_ptr<IPrng> p(make(k)); size_t cur = 0; int pre = mc::choose(12);
	auto take = [&](Bytes w, const char* nm) { bool ok = false; for (size_t c : { cur, (cur + 1023) / 1024 * 1024, cur / 1024 * 1024 + 1024 }) if (!ok && sub(S, c, w.size()) == w) { ok = true; cur = c + w.size(); } MC_CHECK(ok, "stream", "%s::%s is not the next bytes of its generator", PN[k], nm); };
	if (pre) { Bytes o((size_t)pre + 1016); p->Generate(o); take(o, "Generate"); }
	for (int i = 0; i < 3; ++i) switch (mc::choose(5))
	{
		case 0: { uint16_t v = p->NextUInt16(); take(Bytes((uint8_t*)&v, (uint8_t*)&v + 2), "NextUInt16"); break; }
		case 1: { uint32_t v = p->NextUInt32(); take(Bytes((uint8_t*)&v, (uint8_t*)&v + 4), "NextUInt32"); break; }
		case 2: { uint64_t v = p->NextUInt64(); take(Bytes((uint8_t*)&v, (uint8_t*)&v + 8), "NextUInt64"); break; }
		case 3: { std::vector<uint32_t> v(9, 0xA5A5A5A5); p->Fill(v, 2, 5); MC_CHECK(v[0] == 0xA5A5A5A5 && v[1] == v[0] && v[7] == v[0] && v[8] == v[0], "window", "Fill writes outside its window"); take(Bytes((uint8_t*)&v[2], (uint8_t*)&v[7]), "Fill"); break; }
		default: { std::vector<uint64_t> v(4, 0xA5A5A5A5); p->Fill(v, 1, 3); MC_CHECK(v[0] == 0xA5A5A5A5, "window", "Fill writes outside its window"); take(Bytes((uint8_t*)&v[1], (uint8_t*)(v.data() + 4)), "Fill"); }
	}
	MC_OP("%s integers", PN[k]); mc::outcome(cur);
}

/* ---------------- keys ---------------- */
static const std::vector<SecurityPolicy> POL{ SecurityPolicy::SPL256, SecurityPolicy::SPL256AE, SecurityPolicy::SPL512, SecurityPolicy::SPL512AE, SecurityPolicy::SPL1024, SecurityPolicy::SPL1024AE };
struct Fields { Bytes k, n, i; bool operator==(const Fields& o) const { return k == o.k && n == o.n && i == o.i; } };
static Fields keyOf(SecurityPolicy p, Cipher::SymmetricKeySize z, bool sec)
{
	Cipher::SymmetricKeyGenerator g(p, Providers::CSP);
	if (sec) { std::unique_ptr<Cipher::SymmetricSecureKey> k(g.GetSecureKey(z)); return Fields{ plain(k->SecureKey()), plain(k->SecureIV()), plain(k->SecureInfo()) }; }
	std::unique_ptr<Cipher::SymmetricKey> k(g.GetSymmetricKey(z)); MC_CHECK(k->KeySizes().KeySize() == z.KeySize() && k->KeySizes().IVSize() == z.IVSize() && k->KeySizes().InfoSize() == z.InfoSize(), "size", "generated key declares other sizes"); return Fields{ k->Key(), k->IV(), k->Info() };
}
static void keys()
{
	static const std::vector<size_t> SZ{ 0, 1, 8, 16, 31, 32, 33, 64, 135, 136, 137, 300 }; size_t a = mc::pick(SZ), b = mc::pick(SZ), c = mc::pick(SZ); SecurityPolicy p = mc::pick(POL); bool sec = mc::flip(); Cipher::SymmetricKeySize z(a, b, c);
	MC_OP("key %zu/%zu/%zu policy %d secure %d", a, b, c, (int)p, sec); source(SIZE_MAX);
	if (a == 0) { MC_CHECK(refused("a key of no bytes", [&] { keyOf(p, z, sec); }), "size", "a key of zero bytes is generated"); return; }
	Fields f; try { f = keyOf(p, z, sec); } catch (Exception::CryptoException& e) { mc::fail("size", "key %zu/%zu/%zu: %s", a, b, c, e.Message().c_str()); }
	MC_CHECK(f.k.size() == a && f.n.size() == b && f.i.size() == c, "size", "a key of %zu/%zu/%zu bytes is generated with %zu/%zu/%zu", a, b, c, f.k.size(), f.n.size(), f.i.size());
	source(SIZE_MAX); MC_CHECK(keyOf(p, z, sec) == f, "function", "the same source gives another key");
	/* complete: over a few sources every byte of every field takes several values */
	std::vector<Fields> v{ f }; for (int q = 1; q < 6; ++q) { sim::reset(); sim::rng = nullptr; sim::rngSeed = (uint64_t)q * 77; v.push_back(keyOf(p, z, sec)); }
	auto full = [&](Bytes Fields::*m, const char* nm) { for (size_t i = 0; i < (f.*m).size(); ++i) { bool same = true; for (auto& x : v) same &= (x.*m)[i] == (f.*m)[i]; MC_CHECK(!same, "complete", "byte %zu of the %s is the same for every source", i, nm); } }; full(&Fields::k, "key"); full(&Fields::n, "iv"); full(&Fields::i, "info");
	if (a >= 16 && b >= 16) MC_CHECK(sub(f.k, 0, 16) != sub(f.n, 0, 16), "reuse", "key and iv hold the same bytes"); if (a >= 16 && c >= 16) MC_CHECK(sub(f.k, 0, 16) != sub(f.i, 0, 16), "reuse", "key and info hold the same bytes"); if (b >= 16 && c >= 16) MC_CHECK(sub(f.n, 0, 16) != sub(f.i, 0, 16), "reuse", "iv and info hold the same bytes");
	mc::outcome(h(f.k));
}
static void keySeed()
{
	SecurityPolicy p = mc::pick(POL); Cipher::SymmetricKeyGenerator g(p, Providers::CSP); std::vector<std::pair<size_t, size_t>> calls; size_t used = 0; size_t n = mc::pick(std::vector<size_t>{ 16, 64 });
	sim::reset(); sim::rng = [&](uint8_t* q, size_t m) { calls.push_back({ used, m }); for (size_t i = 0; i < m; ++i) q[i] = rnd(used++); return true; }; Bytes a = plain(g.Generate(n)); MC_CHECK(a.size() == n, "size", "%zu bytes requested, %zu generated", n, a.size());
	std::vector<size_t> at; for (auto& c : calls) if (c.second > 8) for (size_t i = 0; i < c.second; ++i) at.push_back(c.first + i); MC_CHECK(at.size() >= 32, "follow", "a key is made from %zu bytes of entropy", at.size());
	size_t f = at[(size_t)mc::choose((int)at.size())]; source(f); MC_OP("key with byte %zu of the source changed", f); Bytes b = plain(g.Generate(n)); MC_CHECK(a != b, "follow", "a generated key does not depend on byte %zu of its source", f);
	/* into a window */
	source(SIZE_MAX); size_t off = mc::pick(std::vector<size_t>{ 0, 5 }); Guarded w(off, n, 3); SV x = secure(w.buf); g.Generate(x, off, n); w.buf = plain(x); MC_CHECK(w.intact() && w.window() == a, "window", "Generate(output, %zu, %zu) differs from Generate(%zu)", off, n, n);
	for (auto bad : std::vector<std::pair<size_t, size_t>>{ { n + off + 3, 1 }, { 0, n + off + 4 }, { SIZE_MAX, 2 }, { SIZE_MAX - 15, 16 }, { 0, 0 } }) { SV y(x); y.shrink_to_fit(); MC_CHECK(refused("a bad window", [&] { g.Generate(y, bad.first, bad.second); }) && y == x, "bounds", "Generate(output of %zu, %zu, %zu) is accepted", x.size(), bad.first, bad.second); }
	mc::outcome(h(b));
}

void mc_register()
{
	mc::bounds("16-bit bounded integers: every source value for 20 maxima and 10 minima, one- and two-argument forms (thorough: 400 maxima); 32/64 bits: 13 range sizes x 6 minima x windows of consecutive source values at 0, around the sign change and at the top, and all pairs of 11-13 boundary bounds; "
		"requests: all histories of 3 (thorough 4) over 9 lengths, 2 offsets, 3 forms and 4 failure points of the generator; fills: 3 x 3 x 11 x 3 windows per element type; raw integers after every one of 0..1029 bytes; BCR/CSR/HCR: histories of 3, every seed byte changed; symmetric keys: 12^3 sizes x 6 policies x 2 classes, every seed byte changed");
	mc::assume("the system provider's 8-byte reads feed its self test and are not part of a seed");
	std::vector<int> S{ -32768, -1, 0, 1, 2, 3, 5, 7, 10, 100, 255, 256, 257, 1000, 12345, 16383, 16384, 21845, 32766, 32767 }, U{ 0, 1, 2, 3, 5, 7, 10, 100, 255, 256, 257, 1000, 12345, 32767, 32768, 32769, 40000, 65533, 65534, 65535 };
	if (mc::thorough()) for (int i = 1; i < 400; ++i) { S.push_back(i * 81); U.push_back(i * 163); }
	std::vector<int> SL{ -32768, -32767, -20000, -1000, -1, 0, 1, 2, 100, 32766 }, UL{ 0, 1, 2, 3, 100, 255, 1000, 32768, 65534, 65535 };
	for (size_t i = 0; i < S.size(); i += 4) { std::vector<int> a(S.begin() + (ptrdiff_t)i, S.begin() + (ptrdiff_t)std::min(S.size(), i + 4)); mc::job("int16/" + std::to_string(i), [a, SL] { exhaustive16<int16_t>(a, SL); }); }
	for (size_t i = 0; i < U.size(); i += 4) { std::vector<int> a(U.begin() + (ptrdiff_t)i, U.begin() + (ptrdiff_t)std::min(U.size(), i + 4)); mc::job("uint16/" + std::to_string(i), [a, UL] { exhaustive16<uint16_t>(a, UL); }); }
	mc::job("windows/int32", windows<int32_t>); mc::job("windows/uint32", windows<uint32_t>); mc::job("windows/int64", windows<int64_t>); mc::job("windows/uint64", windows<uint64_t>);
	mc::job("wide/int16", wide<int16_t>); mc::job("wide/uint16", wide<uint16_t>); mc::job("wide/int32", wide<int32_t>); mc::job("wide/uint32", wide<uint32_t>); mc::job("wide/int64", wide<int64_t>); mc::job("wide/uint64", wide<uint64_t>);
	std::vector<size_t> L{ 0, 1, 8, 1000, 1023, 1024, 1025, 2049, 3000 }; size_t D = mc::thorough() ? 4 : 3;
	for (int f = -1; f < 3; ++f) mc::job("requests/" + std::to_string(f + 1), [L, D, f] { requests(D, L, f); }); mc::job("requests/bad", badRequests);
	mc::job("fill/16", [] { if (mc::flip()) fillArray<std::vector<uint16_t>>("uint16_t"); else fillArray<SecureVector<uint16_t>>("secure uint16_t"); });
	mc::job("fill/32", [] { if (mc::flip()) fillArray<std::vector<uint32_t>>("uint32_t"); else fillArray<SecureVector<uint32_t>>("secure uint32_t"); });
	mc::job("fill/64", [] { if (mc::flip()) fillArray<std::vector<uint64_t>>("uint64_t"); else fillArray<SecureVector<uint64_t>>("secure uint64_t"); });
	mc::job("raw/8", [] { if (mc::flip()) raw<char>("NextChar", [](SecureRandom& r) { return r.NextChar(); }); else raw<uint8_t>("NextUChar", [](SecureRandom& r) { return r.NextUChar(); }); });
	mc::job("raw/16", [] { if (mc::flip()) raw<int16_t>("NextInt16", [](SecureRandom& r) { return r.NextInt16(); }); else raw<uint16_t>("NextUInt16", [](SecureRandom& r) { return r.NextUInt16(); }); });
	mc::job("raw/32", [] { if (mc::flip()) raw<int32_t>("NextInt32", [](SecureRandom& r) { return r.NextInt32(); }); else raw<uint32_t>("NextUInt32", [](SecureRandom& r) { return r.NextUInt32(); }); });
	mc::job("raw/64", [] { switch (mc::choose(3)) { case 0: raw<int64_t>("NextInt64", [](SecureRandom& r) { return r.NextInt64(); }); break; case 1: raw<uint64_t>("NextUInt64", [](SecureRandom& r) { return r.NextUInt64(); }); break; default: raw<double>("NextDouble", [](SecureRandom& r) { return r.NextDouble(); }); } });
	std::vector<size_t> LE{ 0, 1, 1000, 1024, 1025, 3000 };
	for (int k = 0; k < 5; ++k) { mc::job(std::string(PN[k]) + "/requests", [k, LE] { engine(k, 3, LE); }); mc::job(std::string(PN[k]) + "/seed", [k] { engineSeed(k); }); mc::job(std::string(PN[k]) + "/integers", [k] { engineNext(k); }); }
	mc::job("keys", keys); mc::job("keys/seed", keySeed);
}
