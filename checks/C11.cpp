// MC-VARIANT: asan
// MC-TECHNIQUE: exhaustive fault and history enumeration on the implementation: for every parameter set every byte position of every cipher-text, signature, message and public key is altered, every shorter length tried, every key state misused and every bounded operation sequence of the stateful signer run to the end of its tree; the randomness is scripted
// Key exchange and signatures agree for their owner and fail for everyone else.
#include "checks/common.h"
#include "PrngBase.h"
#include "AsymmetricKey.h"
#include "Kyber.h"
#include "McEliece.h"
#include "ECDH.h"
#include "Dilithium.h"
#include "ECDSA.h"
#include "SphincsPlus.h"
#include "XMSS.h"
#include <set>
const char* const MC_PROPERTY = "C11";
using namespace Asymmetric; using namespace Enumeration;
using Asymmetric::Encrypt::IAsymmetricCipher; using Asymmetric::Encrypt::IAsymmetricKeyExchange; using Asymmetric::Sign::IAsymmetricSigner;
typedef SecureVector<uint8_t> SV; typedef std::shared_ptr<AsymmetricKeyPair> PKP; typedef std::shared_ptr<AsymmetricKey> PK;

static uint64_t mixw(uint64_t w, uint64_t i) { uint64_t x = (w + 1) * 0x9E3779B97F4A7C15ULL + i * 0xD1B54A32D192ED03ULL; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ULL; x ^= x >> 32; x *= 0x94D049BB133111EBULL; return x ^ (x >> 29); }
struct Rng : Prng::PrngBase
{
	uint64_t w; size_t pos = 0; size_t flip; uint8_t mask; Rng(uint64_t world, size_t flipAt = (size_t)-1, uint8_t m = 1) : PrngBase(Prngs::BCR, "script"), w(world), flip(flipAt), mask(m) {}
	template <class V> void fill(V& o, size_t off, size_t n) { for (size_t i = 0; i < n; ++i, ++pos) { o[off + i] = (uint8_t)(mixw(w, pos) >> 21); if (pos == flip) o[off + i] ^= mask; } }
	void Generate(std::vector<uint8_t>& o) override { fill(o, 0, o.size()); }
	void Generate(SV& o) override { fill(o, 0, o.size()); }
	void Generate(std::vector<uint8_t>& o, size_t a, size_t n) override { MC_CHECK(a + n <= o.size(), "rng-window", "%zu bytes requested at %zu of an array of %zu", n, a, o.size()); fill(o, a, n); }
	void Generate(SV& o, size_t a, size_t n) override { fill(o, a, n); }
	void Reset() override {}
};
static PK key(const Bytes& b, AsymmetricPrimitives p, AsymmetricKeyTypes t, AsymmetricParameters q) { return PK(new AsymmetricKey(b, p, t, q)); }
static PK with(AsymmetricKey* k, const Bytes& b) { return key(b, k->PrimitiveType(), k->KeyClass(), k->Parameters()); }
static Bytes dirty(size_t n) { Bytes b(n); for (size_t i = 0; i < n; ++i) b[i] = (uint8_t)(0x5A + 3 * i); return b; }

/* ---------------- key encapsulation ---------------- */
typedef std::function<IAsymmetricCipher*(Prng::IPrng*)> MkKem;
struct Kem { std::string name; MkKem mk; bool heavy; AsymmetricPrimitives prim; uint64_t w0; };
struct KemRun { PKP k; Bytes ct, ss; size_t used; };
static KemRun makeKem(const Kem& s, uint64_t w, size_t flip = (size_t)-1, const Bytes& domain = Bytes(), size_t sslen = 0)
{
	KemRun r; Rng rng(w, flip); std::unique_ptr<IAsymmetricCipher> c(s.mk(&rng)); r.k.reset(c->Generate()); c->DomainKey() = domain; c->Initialize(r.k->PublicKey()); r.ct = dirty(w % 3 ? 0 : 5000); r.ss = dirty(sslen); c->Encapsulate(r.ct, r.ss); r.used = rng.pos;
	MC_CHECK(r.ct.size() == c->CipherTextSize(), "size", "%s: a cipher-text of %zu bytes, not %zu", s.name.c_str(), r.ct.size(), (size_t)c->CipherTextSize()); return r;
}
static const KemRun& kemOf(const Kem& s, uint64_t w) { if (s.heavy) w = s.w0; static std::map<std::pair<std::string, uint64_t>, KemRun> m; auto it = m.find({ s.name, w }); if (it == m.end()) it = m.emplace(std::make_pair(s.name, w), makeKem(s, w)).first; return it->second; }
struct Dec { bool ok, threw; Bytes ss; };
static Dec decap(IAsymmetricCipher* c, const Bytes& ct, size_t pre = 0) { Dec d{ false, false, dirty(pre) }; try { d.ok = c->Decapsulate(ct, d.ss); } catch (Exception::CryptoException&) { d.threw = true; } return d; }
struct Holder { std::unique_ptr<Rng> r; std::unique_ptr<IAsymmetricCipher> c; };
static IAsymmetricCipher* decoder(const Kem& s, uint64_t w) { if (s.heavy) w = s.w0; static std::map<std::pair<std::string, uint64_t>, Holder> m; Holder& x = m[{ s.name, w }]; if (!x.c) { x.r.reset(new Rng(99)); x.c.reset(s.mk(x.r.get())); x.c->Initialize(kemOf(s, w).k->PrivateKey()); } return x.c.get(); }
static void kemAgree(const Kem& s, size_t worlds)
{
	uint64_t w = s.w0 + (uint64_t)mc::choose((int)worlds); MC_OP("%s: key and secret from randomness %zu", s.name.c_str(), (size_t)w); KemRun a = s.heavy && w == s.w0 ? kemOf(s, w) : makeKem(s, w);
	Rng q(7); std::unique_ptr<IAsymmetricCipher> c(s.mk(&q)); c->Initialize(a.k->PrivateKey());
	for (size_t pre : { (size_t)0, (size_t)32, (size_t)80 }) { Dec d = decap(c.get(), a.ct, pre); MC_CHECK(d.ok && d.ss == a.ss, "agree", "%s: the owner %s", s.name.c_str(), d.threw ? "gets an exception" : d.ok ? "gets another secret" : "is refused"); }
	MC_CHECK(a.ss.size() == c->SharedSecretSize(), "size", "%s: a secret of %zu bytes", s.name.c_str(), a.ss.size());
	KemRun b = makeKem(s, w); MC_CHECK(b.ct == a.ct && b.ss == a.ss && b.k->PublicKey()->Polynomial() == a.k->PublicKey()->Polynomial() && b.k->PrivateKey()->Polynomial() == a.k->PrivateKey()->Polynomial(), "randomness", "%s: two results from the same randomness", s.name.c_str());
	if (w > 0 && !s.heavy) { KemRun o = makeKem(s, w - 1); MC_CHECK(o.ss != a.ss && o.ct != a.ct && o.k->PublicKey()->Polynomial() != a.k->PublicKey()->Polynomial(), "randomness", "%s: the same result from other randomness", s.name.c_str());
		Dec d = decap(c.get(), o.ct); MC_CHECK(d.threw || !d.ok || d.ss != o.ss, "other-key", "%s: another key opens the cipher-text", s.name.c_str()); MC_CHECK(d.ss != o.ss, "other-key", "%s: another key yields the secret", s.name.c_str());
		Dec e = decap(c.get(), a.ct); MC_CHECK(e.ok && e.ss == a.ss, "agree", "%s: not the same secret after a refusal", s.name.c_str()); }
	mc::outcome(h(a.ss));
}
static void kemRandomness(const Kem& s)
{
	static std::map<std::string, size_t> used; if (!used.count(s.name)) used[s.name] = makeKem(s, 3).used; size_t p = (size_t)mc::choose((int)used[s.name]); MC_OP("%s: byte %zu of the randomness altered", s.name.c_str(), p);
	const KemRun& a = kemOf(s, 3); KemRun b = makeKem(s, 3, p); MC_CHECK(b.ct != a.ct || b.k->PrivateKey()->Polynomial() != a.k->PrivateKey()->Polynomial(), "randomness", "%s: byte %zu of the supplied randomness has no effect", s.name.c_str(), p); mc::outcome(h(b.ss));
	Rng q(7); std::unique_ptr<IAsymmetricCipher> c(s.mk(&q)); c->Initialize(b.k->PrivateKey()); Dec d = decap(c.get(), b.ct); MC_CHECK(d.ok && d.ss == b.ss, "agree", "%s: the owner does not get the secret", s.name.c_str());
}
static const std::vector<uint8_t>& deltas(size_t pos, bool all) { static const std::vector<uint8_t> A{ 1, 2, 4, 8, 16, 32, 64, 128 }; static std::vector<uint8_t> one[8]; if (all) return A; auto& v = one[pos % 8]; if (v.empty()) v.push_back(A[(pos * 5) % 8]); return v; }
static void kemTamper(const Kem& s, size_t part, size_t parts)
{
	const KemRun& a = kemOf(s, 1); IAsymmetricCipher* c = decoder(s, 1); size_t n = (a.ct.size() + parts - 1 - part) / parts; size_t pos = part + parts * (size_t)mc::choose((int)n); if (mc::g_verbose) mc::note("%s: cipher-text byte %zu", s.name.c_str(), pos);
	for (uint8_t m : deltas(pos, mc::thorough() && !s.heavy)) { mc::transition(); Bytes t = a.ct; t[pos] ^= m; Dec d = decap(c, t); MC_CHECK(d.ss != a.ss, "tamper", "%s: byte %zu of the cipher-text altered (%02x) and the same secret", s.name.c_str(), pos, m); if (d.ok && mc::g_verbose) mc::note("accepted with another secret"); }
	Bytes t = a.ct; t[pos] = (uint8_t)~t[pos]; if (s.heavy && !mc::thorough()) return; Dec d = decap(c, t); MC_CHECK(d.ss != a.ss, "tamper", "%s: byte %zu of the cipher-text inverted and the same secret", s.name.c_str(), pos);
	if (pos % 64 == 0) { Dec e = decap(c, a.ct); MC_CHECK(e.ok && e.ss == a.ss, "agree", "%s: the honest cipher-text is refused after a false one", s.name.c_str()); } mc::outcome(h(d.ss));
}
static void kemPublic(const Kem& s)
{
	const KemRun& a = kemOf(s, 1); Bytes pk = a.k->PublicKey()->Polynomial(); size_t pos = (size_t)mc::choose((int)pk.size()); for (uint8_t m : deltas(pos, false)) { Bytes t = pk; t[pos] ^= m; Rng rng(55); std::unique_ptr<IAsymmetricCipher> e(s.mk(&rng)); PK k = with(a.k->PublicKey(), t); MC_OP("%s: public key byte %zu", s.name.c_str(), pos); Bytes ct, ss; try { e->Initialize(k.get()); e->Encapsulate(ct, ss); } catch (Exception::CryptoException&) { continue; }
		Dec d = decap(decoder(s, 1), ct); MC_CHECK(d.threw || d.ss != ss, "public-key", "%s: byte %zu of the public key altered and the secrets agree", s.name.c_str(), pos); }
}
static void kemLengths(const Kem& s)
{
	const KemRun& a = kemOf(s, 1); size_t n = (size_t)mc::choose((int)(a.ct.size() + 33)); if (n == a.ct.size()) throw mc::Infeasible(); Bytes t = a.ct; t.resize(n, 0); MC_OP("%s: a cipher-text of %zu bytes", s.name.c_str(), n); Dec d = decap(decoder(s, 1), t); MC_CHECK(d.ss != a.ss, "length", "%s: a cipher-text cut to %zu bytes gives the secret", s.name.c_str(), n);
	MC_CHECK(d.threw || !d.ok, "length", "%s: a cipher-text of %zu bytes is accepted", s.name.c_str(), n); if (s.heavy && n % 32) return; Dec e = decap(decoder(s, 1), a.ct); MC_CHECK(e.ok && e.ss == a.ss, "agree", "%s: refused after a cut cipher-text", s.name.c_str());
}
static void kemDomain(const Kem& s)
{
	static const std::vector<size_t> L{ 1, 31, 32, 33, 64, 136, 200, 256, 1000 }; size_t n = s.heavy && !mc::thorough() ? L[(size_t)mc::choose(2) * 5] : mc::pick(L); size_t dl = s.heavy && !mc::thorough() ? 100 : mc::pick(std::vector<size_t>{ 1, 16, 100, 300 }); Bytes dk = pat(dl, 9); MC_OP("%s: domain key of %zu bytes, secret of %zu", s.name.c_str(), dl, n);
	auto seal = [&](const Bytes& dom, Bytes& ct, Bytes& ss) { Rng rng(77); std::unique_ptr<IAsymmetricCipher> c(s.mk(&rng)); c->DomainKey() = dom; c->Initialize(kemOf(s, 1).k->PublicKey()); c->Encapsulate(ct, ss); };
	auto open = [&](const Bytes& dom, const Bytes& ct, Bytes& ss) { Rng rng(78); std::unique_ptr<IAsymmetricCipher> c(s.mk(&rng)); c->DomainKey() = dom; c->Initialize(kemOf(s, 1).k->PrivateKey()); return c->Decapsulate(ct, ss); };
	Bytes ct, ss = dirty(n), got(n); seal(dk, ct, ss); MC_CHECK(ss.size() == n, "domain", "%s: the secret has %zu bytes, not the requested %zu", s.name.c_str(), ss.size(), n); MC_CHECK(open(dk, ct, got) && got == ss, "domain", "%s: the domain secrets differ", s.name.c_str());
	Bytes ct2, ss2(n); seal(dk, ct2, ss2); MC_CHECK(ct2 == ct && ss2 == ss, "randomness", "%s: the domain secret is not a function of its inputs", s.name.c_str());
	Bytes other = dk; other[dl - 1] ^= 1; Bytes o(n); open(other, ct, o); if (n >= 16) MC_CHECK(o != ss, "domain", "%s: the secret does not depend on the domain key", s.name.c_str());
	Bytes none(n); open(Bytes(), ct, none); MC_CHECK(n != 32 || none != ss, "domain", "%s: the secret does not depend on the domain key", s.name.c_str()); mc::outcome(h(ss));
}
/* every way to use a key that is not the one the call needs is refused and leaves the instance usable */
template <class C, class F> void badKeys(const std::string& name, C* c, AsymmetricKey* pub, AsymmetricKey* pri, F use)
{
	for (AsymmetricKey* k : { pub, pri }) { Bytes b = k->Polynomial(); size_t n = b.size(); for (size_t z : { (size_t)1, (size_t)31, n / 2, n - 1, n + 1, n + 64 }) { Bytes t = b; t.resize(z, 0); PK q = with(k, t); MC_OP("%s: a key of %zu bytes in place of %zu", name.c_str(), z, n); bool threw = false; try { c->Initialize(q.get()); use(k == pub); } catch (Exception::CryptoException&) { threw = true; } MC_CHECK(threw, "key-size", "%s: works with a %s key of %zu bytes", name.c_str(), k == pub ? "public" : "private", z); } }
}
static void kemStates(const Kem& s)
{
	const KemRun& a = kemOf(s, 1); Rng rng(5); std::unique_ptr<IAsymmetricCipher> c(s.mk(&rng)); Bytes ct, ss;
	auto refuse = [&](const char* what, std::function<void()> f) { mc::transition(); bool t = false; try { f(); } catch (Exception::CryptoException&) { t = true; } MC_CHECK(t, "state", "%s: %s is not refused", s.name.c_str(), what); };
	refuse("encapsulate without a key", [&] { c->Encapsulate(ct, ss); }); refuse("decapsulate without a key", [&] { c->Decapsulate(a.ct, ss); });
	c->Initialize(a.k->PublicKey()); refuse("decapsulate with the public key", [&] { c->Decapsulate(a.ct, ss); }); c->Initialize(a.k->PrivateKey()); refuse("encapsulate with the private key", [&] { c->Encapsulate(ct, ss); });
	refuse("a signature key", [&] { PK k = key(a.k->PublicKey()->Polynomial(), s.prim, AsymmetricKeyTypes::SignaturePublicKey, a.k->PublicKey()->Parameters()); c->Initialize(k.get()); }); refuse("a key of another primitive", [&] { PK k = key(a.k->PublicKey()->Polynomial(), s.prim == AsymmetricPrimitives::Kyber ? AsymmetricPrimitives::McEliece : AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::CipherPublicKey, a.k->PublicKey()->Parameters()); c->Initialize(k.get()); });
	badKeys(s.name, c.get(), a.k->PublicKey(), a.k->PrivateKey(), [&](bool pub) { if (pub) c->Encapsulate(ct, ss); else { Bytes t; c->Decapsulate(a.ct, t); } });
	c->Initialize(a.k->PrivateKey()); Dec d = decap(c.get(), a.ct); MC_CHECK(d.ok && d.ss == a.ss, "agree", "%s: unusable after refused keys", s.name.c_str()); mc::outcome(h(d.ss));
}

/* ---------------- key exchange ---------------- */
static void exchange(ECDHParameters p)
{
	using Asymmetric::Encrypt::ECDH::ECDH; uint64_t w = (uint64_t)mc::choose(mc::thorough() ? 40 : 8); Rng r1(w), r2(w + 1000), r3(w); ECDH a(p, &r1), b(p, &r2), a2(p, &r3); PKP ka(a.Generate()), kb(b.Generate()), ka2(a2.Generate()); std::string nm = p == ECDHParameters::ECDHS1P25519K ? "ECDH-K" : "ECDH-S"; MC_OP("%s: exchange, randomness %zu", nm.c_str(), (size_t)w);
	MC_CHECK(ka->PublicKey()->Polynomial() == ka2->PublicKey()->Polynomial() && ka->PrivateKey()->Polynomial() == ka2->PrivateKey()->Polynomial(), "randomness", "%s: two keys from the same randomness", nm.c_str());
	auto secret = [&](ECDH& e, AsymmetricKey* pub, AsymmetricKey* pri, size_t pre) { Bytes s = dirty(pre); bool ok = e.KeyExchange(pub, pri, s); if (!ok) s.clear(); return s; };
	Bytes s1 = secret(a, kb->PublicKey(), ka->PrivateKey(), 0), s2 = secret(b, ka->PublicKey(), kb->PrivateKey(), 70); MC_CHECK(s1.size() == a.SharedSecretSize() && s1 == s2, "agree", "%s: the parties get different secrets", nm.c_str());
	Bytes pk = ka->PublicKey()->Polynomial(); for (size_t i = 0; i < pk.size(); ++i) for (uint8_t m : deltas(i, true)) { if (i == 31 && m == 128) continue; Bytes t = pk; t[i] ^= m; PK k = with(ka->PublicKey(), t); mc::transition(); Bytes s = secret(b, k.get(), kb->PrivateKey(), 0); MC_CHECK(s != s1, "tamper", "%s: byte %zu of the public key altered (%02x) and the same secret", nm.c_str(), i, m); }
	for (size_t f = 0; f < 32; ++f) { Rng rf(w, f); ECDH e(p, &rf); PKP k(e.Generate()); mc::transition(); MC_CHECK(k->PublicKey()->Polynomial() != pk, "randomness", "%s: byte %zu of the seed has no effect", nm.c_str(), f); }
	Bytes seed(32); Rng rs(w); rs.Generate(seed); PKP ks(a.Generate(seed)); MC_CHECK(ks->PublicKey()->Polynomial() == pk, "randomness", "%s: the seed gives another key", nm.c_str()); for (size_t n : { 0, 1, 31, 33, 64 }) { Bytes z(n); MC_CHECK(throwsStd([&] { PKP x(a.Generate(z)); }), "seed-size", "%s: a seed of %zu bytes is taken", nm.c_str(), n); }
	for (size_t n : { 1, 33, 64, 256 }) { a.DomainKey() = pat(20, 3); b.DomainKey() = pat(20, 3); Bytes x = secret(a, kb->PublicKey(), ka->PrivateKey(), n), y = secret(b, ka->PublicKey(), kb->PrivateKey(), n); MC_CHECK(x == y && x.size() == n, "domain", "%s: the domain secrets differ", nm.c_str()); b.DomainKey() = pat(20, 4); y = secret(b, ka->PublicKey(), kb->PrivateKey(), n); MC_CHECK(n < 16 || x != y, "domain", "%s: the secret does not depend on the domain key", nm.c_str()); }
	a.DomainKey().clear(); for (size_t n : { 1, 16, 31, 33 }) { Bytes t = pk; t.resize(n); PK k = with(ka->PublicKey(), t); Bytes o; bool ok = true; try { ok = b.KeyExchange(k.get(), kb->PrivateKey(), o); } catch (Exception::CryptoException&) { ok = false; } MC_CHECK(!ok, "key-size", "%s: a public key of %zu bytes is used", nm.c_str(), n); Bytes q = ka->PrivateKey()->Polynomial(); q.resize(n); PK k2 = with(ka->PrivateKey(), q); ok = true; try { ok = b.KeyExchange(ka->PublicKey(), k2.get(), o); } catch (Exception::CryptoException&) { ok = false; } MC_CHECK(!ok, "key-size", "%s: a private key of %zu bytes is used", nm.c_str(), n); }
	/* points of small order give no secret */
	static const std::vector<Bytes> low = [] { std::vector<Bytes> v; v.push_back(Bytes(32, 0)); Bytes one(32, 0); one[0] = 1; v.push_back(one); for (int d : { -1, 0, 1 }) { Bytes q(32, 0xff); q[0] = (uint8_t)(0xed + d); q[31] = 0x7f; v.push_back(q); } for (const char* e : { "e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800", "5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157" }) { Bytes q(32); for (size_t i = 0; i < 32; ++i) { unsigned c; std::sscanf(e + 2 * i, "%2x", &c); q[i] = (uint8_t)c; } v.push_back(q); } return v; }();
	for (auto& x : low) { PK k = with(ka->PublicKey(), x); Bytes o; bool ok = true; b.DomainKey().clear(); try { ok = b.KeyExchange(k.get(), kb->PrivateKey(), o); } catch (Exception::CryptoException&) { ok = false; } MC_CHECK(!ok, "low-order", "%s: a public key of small order yields a secret", nm.c_str()); }
	mc::outcome(h(s1));
}

/* ---------------- signatures ---------------- */
typedef std::function<IAsymmetricSigner*(Prng::IPrng*)> MkSig;
struct Sig { std::string name; MkSig mk; size_t node; bool heavy; AsymmetricPrimitives prim; bool stateful; size_t cap; };
struct SigRun { PKP k; Bytes m, s; size_t n, used; };
static SigRun makeSig(const Sig& s, uint64_t w, size_t mlen, size_t pre = 0, size_t flip = (size_t)-1)
{
	SigRun r; Rng rng(w, flip); std::unique_ptr<IAsymmetricSigner> c(s.mk(&rng)); r.k.reset(c->Generate()); r.m = pat(mlen, (uint32_t)mlen); c->Initialize(r.k->PrivateKey()); r.s = dirty(pre); size_t n = c->Sign(r.m, r.s); r.n = c->SignatureSize(); r.used = rng.pos;
	MC_CHECK(n == r.s.size() && r.s.size() == r.n + mlen, "size", "%s: %zu bytes returned, the array has %zu, a signature %zu and the message %zu", s.name.c_str(), n, r.s.size(), r.n, mlen); return r;
}
static const size_t MLEN = 40;
static const SigRun& sigOf(const Sig& s, uint64_t w) { static std::map<std::pair<std::string, uint64_t>, SigRun> m; auto it = m.find({ s.name, w }); if (it == m.end()) it = m.emplace(std::make_pair(s.name, w), makeSig(s, w, MLEN)).first; return it->second; }
struct Ver { bool ok, threw; Bytes m; };
static Ver verify(IAsymmetricSigner* c, const Bytes& s, size_t pre = 0) { Ver v{ false, false, dirty(pre) }; try { v.ok = c->Verify(s, v.m); } catch (Exception::CryptoException&) { v.threw = true; } return v; }
struct SHolder { std::unique_ptr<Rng> r; std::unique_ptr<IAsymmetricSigner> c; };
static IAsymmetricSigner* verifier(const Sig& s, uint64_t w) { static std::map<std::pair<std::string, uint64_t>, SHolder> m; SHolder& x = m[{ s.name, w }]; if (!x.c) { x.r.reset(new Rng(99)); x.c.reset(s.mk(x.r.get())); x.c->Initialize(sigOf(s, w).k->PublicKey()); } return x.c.get(); }
static void sigAgree(const Sig& s, size_t worlds)
{
	static const std::vector<size_t> L{ 1, 2, 32, 33, 64, 87, 88, 89, 135, 136, 137, 200, 1000 }; uint64_t w = (uint64_t)mc::choose((int)worlds); size_t n = s.heavy && !mc::thorough() ? MLEN : s.heavy ? L[(size_t)mc::choose(2) * 9] : mc::pick(L); MC_OP("%s: %zu message bytes, randomness %zu", s.name.c_str(), n, (size_t)w); bool light = s.heavy && !mc::thorough(); SigRun a = light ? sigOf(s, 1) : makeSig(s, w, n);
	Rng q(7); std::unique_ptr<IAsymmetricSigner> c(s.mk(&q)); c->Initialize(a.k->PublicKey()); for (size_t pre : { (size_t)0, n, n + 100 }) { Ver v = verify(c.get(), a.s, pre); MC_CHECK(v.ok && v.m == a.m, "agree", "%s: an honest signature of %zu bytes %s", s.name.c_str(), n, v.threw ? "throws" : v.ok ? "returns another message" : "is refused"); }
	if (light && s.cap < 300) return;
	SigRun b = makeSig(s, light ? 1 : w, n, 9000); MC_CHECK(b.s == a.s && b.k->PublicKey()->Polynomial() == a.k->PublicKey()->Polynomial(), "randomness", "%s: two signatures from the same randomness", s.name.c_str());
	if (w > 0 && !s.heavy) { SigRun o = makeSig(s, w - 1, n); MC_CHECK(o.k->PublicKey()->Polynomial() != a.k->PublicKey()->Polynomial(), "randomness", "%s: the same key from other randomness", s.name.c_str()); Ver v = verify(c.get(), o.s); MC_CHECK(!v.ok, "other-key", "%s: the signature of another key is accepted", s.name.c_str()); }
	mc::outcome(h(a.s));
}
static void sigRandomness(const Sig& s)
{
	static std::map<std::string, size_t> used; if (!used.count(s.name)) used[s.name] = makeSig(s, 3, 8).used; size_t p = (size_t)mc::choose((int)used[s.name]); MC_OP("%s: byte %zu of the randomness altered", s.name.c_str(), p); static std::map<std::string, SigRun> ref; if (!ref.count(s.name)) ref[s.name] = makeSig(s, 3, 8);
	SigRun b = makeSig(s, 3, 8, 0, p), &a = ref[s.name]; MC_CHECK(b.s != a.s || b.k->PrivateKey()->Polynomial() != a.k->PrivateKey()->Polynomial(), "randomness", "%s: byte %zu of the supplied randomness has no effect", s.name.c_str(), p); mc::outcome(h(b.s));
}
/* every byte of the signature; for the hash based ones one byte of every node, in the quick tier of every k-th node of the large ones */
static size_t stride(const Sig& s, const SigRun& a) { size_t nodes = (a.n + s.node - 1) / s.node; return mc::thorough() || nodes <= s.cap ? 1 : (nodes + s.cap - 1) / s.cap; }
static size_t positions(const Sig& s, const SigRun& a) { size_t k = stride(s, a); return !s.heavy ? a.s.size() : ((a.n + s.node - 1) / s.node + k - 1) / k + MLEN; }
static size_t position(const Sig& s, const SigRun& a, size_t i) { if (!s.heavy) return i; size_t nodes = (a.n + s.node - 1) / s.node, k = stride(s, a), cut = (nodes + k - 1) / k; if (i >= cut) return a.n + (i - cut); return std::min(a.n - 1, std::min(nodes - 1, i * k + (k > 1 ? i % k : 0)) * s.node + (i * 7 + 3) % s.node); }
static void sigTamper(const Sig& s, size_t part, size_t parts)
{
	const SigRun& a = sigOf(s, 1); size_t total = positions(s, a); size_t n = (total + parts - 1 - part) / parts; size_t pos = position(s, a, part + parts * (size_t)mc::choose((int)n)); IAsymmetricSigner* c = verifier(s, 1);
	for (uint8_t m : deltas(pos, pos >= a.n && (!s.heavy || mc::thorough()))) { MC_OP("%s: signature byte %zu xor %02x", s.name.c_str(), pos, m); Bytes t = a.s; t[pos] ^= m; Ver v = verify(c, t); MC_CHECK(!v.ok, "tamper", "%s: byte %zu of %zu altered (%02x) and accepted", s.name.c_str(), pos, a.n, m); }
	if (!s.heavy) for (int op = 0; op < 3; ++op)
	{
		/* two neighbours exchanged, the neighbour repeated, the byte raised by one */
		if (op < 2 && pos + 1 == a.s.size()) continue; Bytes t = a.s; if (op == 0) std::swap(t[pos], t[pos + 1]); else if (op == 1) t[pos] = t[pos + 1]; else ++t[pos]; if (t == a.s) continue; mc::transition(); Ver v = verify(c, t); MC_CHECK(!v.ok, "tamper", "%s: byte %zu of %zu %s and accepted", s.name.c_str(), pos, a.n, op == 0 ? "exchanged with the next" : op == 1 ? "replaced by the next" : "raised by one");
	}
	if (pos % 128 < s.node) { Ver v = verify(c, a.s); MC_CHECK(v.ok && v.m == a.m, "agree", "%s: the honest signature is refused after a false one", s.name.c_str()); } mc::outcome(pos);
}
static void sigKey(const Sig& s)
{
	const SigRun& a = sigOf(s, 1); Bytes pk = a.k->PublicKey()->Polynomial(); size_t n = pk.size() > 400 && !mc::thorough() ? (pk.size() + 3) / 4 : pk.size(); size_t i = (size_t)mc::choose((int)n); size_t pos = n == pk.size() ? i : std::min(pk.size() - 1, i * 4 + i % 4); Rng r(4); std::unique_ptr<IAsymmetricSigner> c(s.mk(&r));
	for (uint8_t m : deltas(pos, pk.size() <= 64 && !s.heavy)) { MC_OP("%s: public key byte %zu xor %02x", s.name.c_str(), pos, m); Bytes t = pk; t[pos] ^= m; PK k = with(a.k->PublicKey(), t); Ver v{ false, false, Bytes() }; try { c->Initialize(k.get()); v = verify(c.get(), a.s); } catch (Exception::CryptoException&) {} MC_CHECK(!v.ok, "public-key", "%s: byte %zu of the public key altered (%02x) and the signature is accepted", s.name.c_str(), pos, m); } mc::outcome(pos);
}
static void sigLengths(const Sig& s)
{
	const SigRun& a = sigOf(s, 1); std::vector<size_t> L; for (size_t i = 0; i < a.n; ++i) if (mc::thorough() || i < 70 || i + 70 > a.n || i % 64 == 1) L.push_back(i); for (size_t i = a.n; i < a.s.size(); ++i) L.push_back(i); for (size_t i = 1; i <= 9; ++i) L.push_back(a.s.size() + i); size_t n = mc::pick(L); IAsymmetricSigner* c = verifier(s, 1);
	MC_OP("%s: a signed message of %zu bytes", s.name.c_str(), n); Bytes t = a.s; t.resize(n, 0); Bytes exact(t); exact.shrink_to_fit(); Ver v = verify(c, exact, 16); MC_CHECK(!v.ok, "length", "%s: cut to %zu bytes of %zu and accepted", s.name.c_str(), n, a.s.size()); mc::outcome(n);
	if (n > a.n - 3 && n < a.n + 3) { Ver g = verify(c, a.s); MC_CHECK(g.ok && g.m == a.m, "agree", "%s: the honest signature is refused after a cut one", s.name.c_str()); }
}
static void sigStates(const Sig& s)
{
	const SigRun& a = sigOf(s, 1); Rng rng(5); std::unique_ptr<IAsymmetricSigner> c(s.mk(&rng)); Bytes m = pat(10, 1), g;
	auto refuse = [&](const char* what, std::function<void()> f) { mc::transition(); bool t = false; try { f(); } catch (Exception::CryptoException&) { t = true; } MC_CHECK(t, "state", "%s: %s is not refused", s.name.c_str(), what); };
	refuse("sign without a key", [&] { c->Sign(m, g); }); refuse("verify without a key", [&] { c->Verify(a.s, g); }); c->Initialize(a.k->PublicKey()); refuse("sign with the public key", [&] { c->Sign(m, g); });
	if (!s.stateful) { c->Initialize(a.k->PrivateKey()); refuse("verify with the private key", [&] { c->Verify(a.s, g); }); refuse("an empty message", [&] { Bytes e; c->Sign(e, g); }); }
	refuse("a cipher key", [&] { PK k = key(a.k->PublicKey()->Polynomial(), s.prim, AsymmetricKeyTypes::CipherPublicKey, a.k->PublicKey()->Parameters()); c->Initialize(k.get()); }); refuse("a key of another primitive", [&] { PK k = key(a.k->PublicKey()->Polynomial(), s.prim == AsymmetricPrimitives::ECDSA ? AsymmetricPrimitives::Dilithium : AsymmetricPrimitives::ECDSA, AsymmetricKeyTypes::SignaturePublicKey, a.k->PublicKey()->Parameters()); c->Initialize(k.get()); });
	badKeys(s.name, c.get(), a.k->PublicKey(), a.k->PrivateKey(), [&](bool pub) { if (pub) { Bytes t; c->Verify(a.s, t); } else c->Sign(m, g); });
	c->Initialize(a.k->PublicKey()); Ver v = verify(c.get(), a.s); MC_CHECK(v.ok && v.m == a.m, "agree", "%s: unusable after refused keys", s.name.c_str()); mc::outcome(h(v.m));
}

/* a signature has one form: S and S + L verify alike unless S is required to be reduced, and a key of small order accepts what nobody signed */
static void ecdsaForms(const Sig& s)
{
	static const uint8_t L[32] = { 0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10 };
	uint64_t w = (uint64_t)mc::choose(mc::thorough() ? 2000 : 200); SigRun a = makeSig(s, w, 20); Rng r(4); std::unique_ptr<IAsymmetricSigner> c(s.mk(&r)); c->Initialize(a.k->PublicKey());
	Bytes t = a.s; for (int k = 1; k < 15; ++k) { unsigned carry = 0; for (size_t i = 0; i < 32; ++i) { carry += t[32 + i] + L[i]; t[32 + i] = (uint8_t)carry; carry >>= 8; } if (carry) break; MC_OP("%s: S + %d L, randomness %zu", s.name.c_str(), k, (size_t)w); Ver v = verify(c.get(), t); MC_CHECK(!v.ok, "tamper", "%s: S + %d L is accepted in place of S (randomness %zu)", s.name.c_str(), k, (size_t)w); }
	Bytes R0(a.s); R0[31] ^= 0x80; MC_CHECK(!verify(c.get(), R0).ok, "tamper", "%s: the sign of R altered and accepted", s.name.c_str());
	static const std::vector<Bytes> low = [] { std::vector<Bytes> v; v.push_back(Bytes(32, 0)); Bytes one(32, 0); one[0] = 1; v.push_back(one); for (int d : { -1, 0, 1 }) { Bytes q(32, 0xff); q[0] = (uint8_t)(0xed + d); q[31] = 0x7f; v.push_back(q); }
		for (const char* e : { "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05", "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a" }) { Bytes q(32); for (size_t i = 0; i < 32; ++i) { unsigned x; std::sscanf(e + 2 * i, "%2x", &x); q[i] = (uint8_t)x; } v.push_back(q); }
		size_t n = v.size(); for (size_t i = 0; i < n; ++i) { Bytes q = v[i]; q[31] ^= 0x80; v.push_back(q); } return v; }();
	Bytes z(64 + 20, 0); for (size_t i = 0; i < 20; ++i) z[64 + i] = (uint8_t)(w + i);
	for (auto& A : low) { PK k = with(a.k->PublicKey(), A); for (auto& Rp : low) { for (size_t i = 0; i < 32; ++i) z[i] = Rp[i]; mc::transition(); Ver v{ false, false, Bytes() }; try { c->Initialize(k.get()); v = verify(c.get(), z); } catch (Exception::CryptoException&) {} MC_CHECK(!v.ok, "forge", "%s: a forged signature (R %s, S = 0) is accepted with the key %s", s.name.c_str(), hx(Rp).c_str(), hx(A).c_str()); } }
	mc::outcome(h(a.s));
}

/* ---------------- the stateful signer ---------------- */
static Bytes atIndex(const Bytes& sk, size_t idxSize, uint64_t idx) { Bytes b = sk; for (size_t i = 0; i < idxSize; ++i) b[4 + idxSize - 1 - i] = (uint8_t)(i < 8 ? idx >> (8 * i) : 0); return b; }
static void stateful(XmssParameters p, const std::string& name, size_t idxSize, unsigned height, unsigned leaf, size_t depth, int where)
{
	using Asymmetric::Sign::XMSS::XMSS; static std::map<std::string, PKP> keys; PKP& kp = keys[name]; if (!kp) { Rng r(21); XMSS x(p, &r); kp.reset(x.Generate()); }
	uint64_t end = 1ULL << height; static const char* SN[] = { "0", "a subtree's end", "the tree's end", "255", "65535", "2^24 - 1", "2^32 - 1" }; uint64_t start = where == 0 ? 0 : where == 1 ? (1ULL << leaf) - 1 : where == 2 ? end - 2 : (1ULL << (8 * (where - 2))) - 1;
	PK sk = with(kp->PrivateKey(), atIndex(kp->PrivateKey()->Polynomial(), idxSize, start)); Rng r(22), rv(23); std::unique_ptr<XMSS> s(new XMSS(p, &r)); XMSS ver(p, &rv); ver.Initialize(kp->PublicKey()); s->Initialize(sk.get()); std::set<Bytes> seen; Bytes sig; uint64_t made = 0; mc::note("%s from %s", name.c_str(), SN[where]);
	for (size_t d = 0; d < depth; ++d)
	{
		int op = d == 0 && !mc::thorough() ? 0 : mc::choose(4); Bytes m = pat(20 + d, (uint32_t)d + 1); bool threw = false;
		if (op == 1) { s->Initialize(sk.get()); } else if (op == 2) { s.reset(new XMSS(p, &r)); s->Initialize(sk.get()); } else if (op == 3) { SV st = AsymmetricKey::Serialize(*sk); sk.reset(AsymmetricKey::DeSerialize(st)); s->Initialize(sk.get()); sig.clear(); }
		MC_OP("%s: signature %zu after %s", name.c_str(), d, op == 0 ? "nothing" : op == 1 ? "re-initialisation" : op == 2 ? "a new signer" : "storing and loading the key");
		size_t n = 0; try { n = s->Sign(m, sig); } catch (Exception::CryptoException&) { threw = true; }
		if (start + made >= end) { MC_CHECK(threw || n == 0, "exhausted", "%s: signs after the last index has been used", name.c_str()); continue; }
		MC_CHECK(!threw && n == sig.size() && n > idxSize, "sign", "%s: refuses to sign with index %llu of %llu", name.c_str(), (unsigned long long)(start + made), (unsigned long long)end);
		Bytes idx = sub(sig, 0, idxSize); MC_CHECK(seen.insert(idx).second, "reuse", "%s: signature %zu uses index %s again", name.c_str(), d, hx(idx).c_str()); ++made;
		Bytes got; MC_CHECK(ver.Verify(sig, got) && got == m, "agree", "%s: the signature with index %s is refused", name.c_str(), hx(idx).c_str()); mc::state(mc::combine(made, start)); mc::outcome(h(sig));
	}
}

void mc_register()
{
	using Asymmetric::Encrypt::MLWE::Kyber; using Asymmetric::Encrypt::MPKC::McEliece; using Asymmetric::Sign::DLTM::Dilithium; using Asymmetric::Sign::ECDSA::ECDSA; using Asymmetric::Sign::SPXP::SphincsPlus; using Asymmetric::Sign::XMSS::XMSS;
	const bool T = mc::thorough();
	mc::bounds("Kyber x 4 and McEliece x 4: every byte of a cipher-text altered, every length 0..size+32, every byte of the Kyber public key, every randomness byte; ECDH x 2: every bit of the public key; Dilithium x 3, ECDSA x 2, Sphincs+ x 4, XMSS-MT of subtree height 5 x 12 and XMSS-SHA2256-H10: one byte of every node (thorough: every byte) of the signature, every bit of the message, every byte of the public key, every short length; "
		"XMSS-MT histories of 3 (thorough 4) signatures over {same signer, re-initialised, new signer, stored and loaded key} from index 0, a subtree's end and the tree's end");
	mc::assume("the randomness given by the generator is the only input beside the arguments; XMSS sets of subtree height 16 and 20 are the same code with other constants and are out of bounds");
	mc::setHangSeconds(600); typedef Prng::IPrng* R; std::vector<Kem> K;
	struct { const char* n; KyberParameters p; } KY[] = { { "Kyber-S1", KyberParameters::KYBERS1P1632 }, { "Kyber-S3", KyberParameters::KYBERS3P2400 }, { "Kyber-S5", KyberParameters::KYBERS5P3168 }, { "Kyber-S6", KyberParameters::KYBERS6P3936 } };
	for (auto& x : KY) { KyberParameters p = x.p; K.push_back(Kem{ x.n, [p](R r) { return new Kyber(p, r); }, false, AsymmetricPrimitives::Kyber, 0 }); }
	/* w: randomness whose first candidate permutation has a duplicate and is to be thrown away (it happens once in 130 keys) */
	struct { const char* n; McElieceParameters p; uint64_t w; } MP[] = { { "McEliece-4608", McElieceParameters::MPKCS3N4608T96, 0 }, { "McEliece-6960", McElieceParameters::MPKCS3N6960T119, 675 }, { "McEliece-6688", McElieceParameters::MPKCS4N6688T128, 0 }, { "McEliece-8192", McElieceParameters::MPKCS5N8192T128, 0 } };
	for (auto& x : MP) { McElieceParameters p = x.p; K.push_back(Kem{ x.n, [p](R r) { return new McEliece(p, r); }, true, AsymmetricPrimitives::McEliece, x.w }); }
	for (auto& k : K) { Kem s = k; if (s.heavy) { mc::job(s.name + "/all", [s] { switch (mc::choose(5)) { case 0: kemAgree(s, mc::thorough() ? 6 : 1); break; case 1: kemTamper(s, 0, 1); break; case 2: kemLengths(s); break; case 3: kemDomain(s); break; default: kemStates(s); } }); continue; }
		mc::job(s.name + "/agree", [s, T] { kemAgree(s, T ? 4000 : 250); }); mc::job(s.name + "/randomness", [s] { kemRandomness(s); }); mc::job(s.name + "/tamper", [s] { kemTamper(s, 0, 1); }); mc::job(s.name + "/public-key", [s] { kemPublic(s); }); mc::job(s.name + "/lengths", [s] { kemLengths(s); }); mc::job(s.name + "/domain", [s] { kemDomain(s); }); mc::job(s.name + "/states", [s] { kemStates(s); }); }
	mc::job("ECDH-K", [] { exchange(ECDHParameters::ECDHS1P25519K); }); mc::job("ECDH-S", [] { exchange(ECDHParameters::ECDHS2P25519S); });
	std::vector<Sig> S; struct { const char* n; DilithiumParameters p; } DL[] = { { "Dilithium-S1", DilithiumParameters::DLTMS1P2544 }, { "Dilithium-S3", DilithiumParameters::DLTMS3P4016 }, { "Dilithium-S5", DilithiumParameters::DLTMS5P4880 } };
	for (auto& x : DL) { DilithiumParameters p = x.p; S.push_back(Sig{ x.n, [p](R r) { return new Dilithium(p, r); }, 4, false, AsymmetricPrimitives::Dilithium, false, 2000 }); }
	S.push_back(Sig{ "ECDSA-K", [](R r) { return new ECDSA(ECDSAParameters::ECDSAS1P25519K, r); }, 1, false, AsymmetricPrimitives::ECDSA, false, 2000 }); S.push_back(Sig{ "ECDSA-S", [](R r) { return new ECDSA(ECDSAParameters::ECDSAS2P25519S, r); }, 1, false, AsymmetricPrimitives::ECDSA, false, 2000 });
	struct { const char* n; SphincsPlusParameters p; size_t node; } SP[] = { { "Sphincs-S1", SphincsPlusParameters::SPXPS1S128SHAKE, 16 }, { "Sphincs-S3", SphincsPlusParameters::SPXPS3S192SHAKE, 24 }, { "Sphincs-S5", SphincsPlusParameters::SPXPS5S256SHAKE, 32 }, { "Sphincs-S6", SphincsPlusParameters::SPXPS6S512SHAKE, 64 } };
	for (auto& x : SP) { SphincsPlusParameters p = x.p; S.push_back(Sig{ x.n, [p](R r) { return new SphincsPlus(p, r); }, x.node, true, AsymmetricPrimitives::SphincsPlus, false, x.node == 64 ? (size_t)200 : (size_t)400 }); }
	typedef XmssParameters X; struct M { const char* n; X p; size_t node, idx; unsigned hgt; }; static const std::vector<M> MT{ { "XMSSMT-SHA256-H20D4", X::XMSSMTSHA2256H20D4, 32, 3, 20 }, { "XMSSMT-SHA512-H20D4", X::XMSSMTSHA2512H20D4, 64, 3, 20 }, { "XMSSMT-SHAKE256-H20D4", X::XMSSMTSHAKE256H20D4, 32, 3, 20 }, { "XMSSMT-SHAKE512-H20D4", X::XMSSMTSHAKE512H20D4, 64, 3, 20 },
		{ "XMSSMT-SHA256-H40D8", X::XMSSMTSHA2256H40D8, 32, 5, 40 }, { "XMSSMT-SHA512-H40D8", X::XMSSMTSHA2512H40D8, 64, 5, 40 }, { "XMSSMT-SHAKE256-H40D8", X::XMSSMTSHAKE256H40D8, 32, 5, 40 }, { "XMSSMT-SHAKE512-H40D8", X::XMSSMTSHAKE512H40D8, 64, 5, 40 },
		{ "XMSSMT-SHA256-H60D12", X::XMSSMTSHA2256H60D12, 32, 8, 60 }, { "XMSSMT-SHA512-H60D12", X::XMSSMTSHA2512H60D12, 64, 8, 60 }, { "XMSSMT-SHAKE256-H60D12", X::XMSSMTSHAKE256H60D12, 32, 8, 60 }, { "XMSSMT-SHAKE512-H60D12", X::XMSSMTSHAKE512H60D12, 64, 8, 60 } };
	for (auto& x : MT) { X p = x.p; S.push_back(Sig{ x.n, [p](R r) { return new XMSS(p, r); }, x.node, true, AsymmetricPrimitives::XMSS, true, x.hgt == 20 ? (size_t)300 : (size_t)48 }); std::string nm = x.n; size_t ix = x.idx; unsigned hg = x.hgt; if (T || nm == "XMSSMT-SHA256-H20D4" || nm == "XMSSMT-SHAKE256-H60D12") { size_t dep0 = nm == "XMSSMT-SHA256-H20D4" ? (T ? 4 : 3) : 2; for (int where = dep0 < 3 && !T ? 1 : 0; where < 7; ++where) if (where < 3 || 8u * (unsigned)(where - 2) < hg) { size_t dep = where < 3 || T ? dep0 : 2; mc::job(nm + "/histories-" + std::to_string(where), [=] { stateful(p, nm, ix, hg, 5, dep, where); });} } }
	S.push_back(Sig{ "XMSS-SHA256-H10", [](R r) { return new XMSS(X::XMSSSHA2256H10, r); }, 32, true, AsymmetricPrimitives::XMSS, true, 300 });
	if (T) for (int where = 0; where < 3; ++where) mc::job("XMSS-SHA256-H10/histories-" + std::to_string(where), [=] { stateful(X::XMSSSHA2256H10, "XMSS-SHA256-H10", 4, 10, 4, 2, where); });
	for (auto& x : S) { Sig s = x; if (s.heavy) { mc::job(s.name + "/all", [s] { switch (mc::choose(5)) { case 0: if (!mc::thorough()) sigAgree(s, 1); else sigAgree(s, 2); break; case 1: sigTamper(s, 0, 1); break; case 2: sigLengths(s); break; case 3: sigKey(s); break; default: sigStates(s); } }); continue; }
		mc::job(s.name + "/agree", [s, T] { sigAgree(s, T ? 400 : 12); }); mc::job(s.name + "/randomness", [s] { sigRandomness(s); }); mc::job(s.name + "/tamper", [s] { sigTamper(s, 0, 1); }); mc::job(s.name + "/public-key", [s] { sigKey(s); }); mc::job(s.name + "/lengths", [s] { sigLengths(s); }); mc::job(s.name + "/states", [s] { sigStates(s); }); if (s.prim == AsymmetricPrimitives::ECDSA) mc::job(s.name + "/forms", [s] { ecdsaForms(s); }); }
}
