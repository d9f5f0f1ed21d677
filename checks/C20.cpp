// MC-VARIANT: tsan
// MC-SOURCES: mc/sched.cpp
// MC-TECHNIQUE: stateless model checking of the implementation: every interleaving of the lives of two instances in one thread, and, under a controlled scheduler, every schedule with a bounded number of departures of two threads that each drive an instance of their own from the first use on, with every conflicting access of the two threads examined; each execution is compared with the instance used alone in a fresh process
// Instances are independent of one another across threads.
#include "checks/common.h"
#include "mc/sched.h"
#include "AeadModeFromName.h"
#include "AsymmetricKey.h"
#include "CipherModeFromName.h"
#include "CipherModes.h"
#include "CpuDetect.h"
#include "DigestFromName.h"
#include "Digests.h"
#include "Dilithium.h"
#include "DrbgFromName.h"
#include "ECDH.h"
#include "ECDSA.h"
#include "Blake256.h"
#include "Blake512.h"
#include "BCG.h"
#include "CSG.h"
#include "HCG.h"
#include "HKDF.h"
#include "PBKDF2.h"
#include "SCBKDF.h"
#include "KdfFromName.h"
#include "Kyber.h"
#include "LockingAllocator.h"
#include "MacFromName.h"
#include "McEliece.h"
#include "MemoryStream.h"
#include "PaddingFromName.h"
#include "ParallelOptions.h"
#include "PrngBase.h"
#include "PrngFromName.h"
#include "ProviderFromName.h"
#include "SHAKE.h"
#include "SecureMemory.h"
#include "SecureRandom.h"
#include "SphincsPlus.h"
#include "StreamCipherFromName.h"
#include "SymmetricKeyGenerator.h"
#include "SymmetricSecureKey.h"
#include "SystemTools.h"
#include "TimeStamp.h"
#include "Timer.h"
#include "XMSS.h"
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
const char* const MC_PROPERTY = "C20";
using namespace Enumeration; using Tools::SystemTools; typedef SecureVector<uint8_t> SV; using Asymmetric::AsymmetricKeyPair;

namespace
{
	int D(int q, int t) { return mc::thorough() ? t : q; }
	uint64_t mixw(uint64_t w, uint64_t i) { uint64_t x = (w + 1) * 0x9E3779B97F4A7C15ULL + i * 0xD1B54A32D192ED03ULL; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ULL; x ^= x >> 32; x *= 0x94D049BB133111EBULL; return x ^ (x >> 29); }
	struct Rng : Prng::PrngBase
	{
		uint64_t w; size_t pos = 0; Rng(uint64_t world) : PrngBase(Prngs::BCR, "script"), w(world) {}
		template <class V> void fill(V& o, size_t off, size_t n) { for (size_t i = 0; i < n; ++i, ++pos) o[off + i] = (uint8_t)(mixw(w, pos) >> 21); }
		void Generate(std::vector<uint8_t>& o) override { fill(o, 0, o.size()); }
		void Generate(SV& o) override { fill(o, 0, o.size()); }
		void Generate(std::vector<uint8_t>& o, size_t a, size_t n) override { fill(o, a, n); }
		void Generate(SV& o, size_t a, size_t n) override { fill(o, a, n); }
		void Reset() override {}
	};
	/* the instances differ in the size of the key and in the info where the algorithm takes one */
	size_t legal(const std::vector<Cipher::SymmetricKeySize>& z, int tag) { Cipher::SymmetricKeySize e = z[(size_t)tag % z.size()]; return e.KeySize(); }
	Cipher::SymmetricKey keyInfo(size_t k, size_t iv, int tag) { uint32_t t = 100 + 10 * (uint32_t)tag; return tag & 1 ? Cipher::SymmetricKey(pat(k, t), pat(iv, t + 1), pat(16, t + 2)) : Cipher::SymmetricKey(pat(k, t), pat(iv, t + 1)); }
	Cipher::SymmetricKey key(size_t k, size_t iv, int tag) { uint32_t t = 100 + 10 * (uint32_t)tag; return iv ? Cipher::SymmetricKey(pat(k, t), pat(iv, t + 1)) : Cipher::SymmetricKey(pat(k, t)); }

	/* the life of one instance: made by make(tag), three steps, and its end when the function is destroyed */
	typedef std::function<Bytes(int)> Life;
	struct Fam { std::string name; int weight; std::function<Life(int)> make; };   /* 0 cheap, 1 slower, 2 seconds */
	std::vector<Fam> fams;
	void add(const std::string& n, int w, std::function<Life(int)> m) { fams.push_back(Fam{ n, w, m }); }
	template <class T> Life withKey(std::shared_ptr<T> o, const std::function<Bytes(T&, int)>& f) { return [o, f](int s) { return f(*o, s); }; }
	template <class B> void kemFam(const char* n, int w, std::function<B*(Prng::IPrng*)> mk)
	{
		add(n, w, [mk](int tag) -> Life { struct S { Rng r; std::unique_ptr<B> c; std::unique_ptr<AsymmetricKeyPair> k; Bytes ct, ss; S(int t) : r((uint64_t)t) {} }; auto s = std::make_shared<S>(tag); s->c.reset(mk(&s->r)); return [s](int step) -> Bytes {
			if (step == 0) { s->k.reset(s->c->Generate()); return s->k->PublicKey()->Polynomial(); } if (step == 1) { s->c->Initialize(s->k->PublicKey()); s->c->Encapsulate(s->ct, s->ss); return cat(s->ct, s->ss); } Bytes b; s->c->Initialize(s->k->PrivateKey()); bool ok = s->c->Decapsulate(s->ct, b); b.push_back(ok); return b; }; });
	}
	template <class B> void sigFam(const char* n, int w, std::function<B*(Prng::IPrng*)> mk)
	{
		add(n, w, [mk](int tag) -> Life { struct S { Rng r; std::unique_ptr<B> c; std::unique_ptr<AsymmetricKeyPair> k; Bytes sg; S(int t) : r((uint64_t)t) {} }; auto s = std::make_shared<S>(tag); s->c.reset(mk(&s->r)); return [s, tag](int step) -> Bytes {
			if (step == 0) { s->k.reset(s->c->Generate()); return s->k->PublicKey()->Polynomial(); } if (step == 1) { s->c->Initialize(s->k->PrivateKey()); s->c->Sign(pat(40, 9 + (uint32_t)tag), s->sg); return s->sg; } Bytes m; s->c->Initialize(s->k->PublicKey()); bool ok = s->c->Verify(s->sg, m); m.push_back(ok); return m; }; });
	}
	void families()
	{
		struct BC { const char* n; BlockCiphers c; size_t k; }; static const BC B[] = { { "AES", BlockCiphers::AES, 32 }, { "Serpent", BlockCiphers::Serpent, 32 }, { "RHXH256", BlockCiphers::RHXH256, 32 }, { "RHXH512", BlockCiphers::RHXH512, 64 }, { "RHXS256", BlockCiphers::RHXS256, 32 }, { "RHXS512", BlockCiphers::RHXS512, 64 }, { "SHXH256", BlockCiphers::SHXH256, 32 }, { "SHXH512", BlockCiphers::SHXH512, 64 }, { "SHXS256", BlockCiphers::SHXS256, 32 }, { "SHXS512", BlockCiphers::SHXS512, 64 } };
		for (auto& b : B) add(b.n, 0, [b](int tag) { return withKey<Cipher::Block::IBlockCipher>(std::shared_ptr<Cipher::Block::IBlockCipher>(Helper::BlockCipherFromName::GetInstance(b.c)), [b, tag](Cipher::Block::IBlockCipher& c, int s) { if (s != 1) { auto k = keyInfo(legal(c.LegalKeySizes(), tag), 0, tag + s); c.Initialize(s == 0, k); } Bytes i = pat(16, 5 + (uint32_t)s), o(16), o2(16); c.Transform(i, 0, o, 0); c.Transform(o, 0, o2, 0); return cat(o, o2); }); });
		struct MD { const char* n; CipherModes m; size_t iv; }; static const MD M[] = { { "ECB", CipherModes::ECB, 0 }, { "CBC", CipherModes::CBC, 16 }, { "CFB", CipherModes::CFB, 16 }, { "OFB", CipherModes::OFB, 16 }, { "CTR", CipherModes::CTR, 16 }, { "ICM", CipherModes::ICM, 16 } };
		for (auto& m : M) for (int ext = 0; ext < 2; ++ext) add(std::string(m.n) + (ext ? "-SHXS256" : "-AES"), 0, [m, ext](int tag) { return withKey<Cipher::Block::Mode::ICipherMode>(std::shared_ptr<Cipher::Block::Mode::ICipherMode>(Helper::CipherModeFromName::GetInstance(ext ? BlockCiphers::SHXS256 : BlockCiphers::AES, m.m)), [m, tag](Cipher::Block::Mode::ICipherMode& c, int s) { if (s != 1) { auto k = keyInfo(32, m.iv, tag + s); c.Initialize(s == 0, k); } size_t n = s == 1 ? 48 : 320; Bytes i = pat(n, 7 + (uint32_t)s), o(n); c.Transform(i, 0, o, 0, n); return o; }); });
		static const BlockCiphers AE[] = { BlockCiphers::AES, BlockCiphers::Serpent };
		for (int a = 0; a < 2; ++a) for (auto bc : AE) add(std::string(a ? "GCM" : "HBAH256") + (bc == BlockCiphers::AES ? "-AES" : "-Serpent"), 0, [a, bc](int tag) { return withKey<Cipher::Block::Mode::IAeadMode>(std::shared_ptr<Cipher::Block::Mode::IAeadMode>(Helper::AeadModeFromName::GetInstance(bc, a ? AeadModes::GCM : AeadModes::HBAH256)), [tag](Cipher::Block::Mode::IAeadMode& c, int s) { if (s != 1) { auto k = keyInfo(32, 16, tag + s); c.Initialize(true, k); c.SetAssociatedData(pat(20, 3), 0, 20); } if (s == 0) return Bytes(); size_t n = s == 1 ? 33 : 160; Bytes i = pat(n, 7 + (uint32_t)s), o(n + c.TagSize()); c.Transform(i, 0, o, 0, n); return o; }); });
		struct SC { const char* n; StreamCiphers c; size_t k, iv; bool auth; }; static const SC S[] = { { "ChaChaP20", StreamCiphers::ChaChaP20, 32, 8, false }, { "CSX512", StreamCiphers::CSX512, 64, 16, false }, { "TSX256", StreamCiphers::TSX256, 32, 16, false }, { "TSX512", StreamCiphers::TSX512, 64, 16, false }, { "TSX1024", StreamCiphers::TSX1024, 128, 16, false }, { "RCS", StreamCiphers::RCS, 32, 32, false }, { "RWS", StreamCiphers::RWS, 64, 64, false },
			{ "ChaChaP20-auth", StreamCiphers::CSXR20K256, 32, 8, true }, { "CSX512-auth", StreamCiphers::CSXR80K512, 64, 16, true }, { "TSX256-auth", StreamCiphers::TSXR72K256, 32, 16, true }, { "TSX512-auth", StreamCiphers::TSXR96K512, 64, 16, true }, { "TSX1024-auth", StreamCiphers::TSXR120K512, 128, 16, true }, { "RCS-auth", StreamCiphers::RCSK256, 32, 32, true }, { "RWS-auth", StreamCiphers::RWSK512, 64, 64, true } };
		for (auto& x : S) add(x.n, 0, [x](int tag) { return withKey<Cipher::Stream::IStreamCipher>(std::shared_ptr<Cipher::Stream::IStreamCipher>(Helper::StreamCipherFromName::GetInstance(x.c)), [x, tag](Cipher::Stream::IStreamCipher& c, int s) { if (s != 1) { auto k = keyInfo(x.k, x.iv, tag + s); c.Initialize(true, k); if (x.auth) c.SetAssociatedData(pat(21, 3), 0, 21); } size_t n = s == 1 ? 130 : 67; Bytes i = pat(n, 7 + (uint32_t)s), o(n + (x.auth ? c.TagSize() : 0)); c.Transform(i, 0, o, 0, n); return o; }); });
		static const Digests DG[] = { Digests::Blake256, Digests::Blake512, Digests::SHA2256, Digests::SHA2512, Digests::SHA3256, Digests::SHA3512, Digests::Skein256, Digests::Skein512, Digests::Skein1024 };
		for (auto d : DG) add(DigestConvert::ToName(d), 0, [d](int tag) { return withKey<Digest::IDigest>(std::shared_ptr<Digest::IDigest>(Helper::DigestFromName::GetInstance(d)), [tag](Digest::IDigest& c, int s) -> Bytes { if (s < 2) { size_t n = s ? 61 : 150; c.Update(pat(n, (uint32_t)(tag + 5 + s)), 0, n); return Bytes(); } Bytes o(c.DigestSize()); c.Finalize(o, 0); return o; }); });
		for (int m = 1; m <= 19; ++m) { if (m >= 3 && m <= 5) continue; if (m >= 8 && m <= 10) continue; add(MacConvert::ToName((Macs)m), 0, [m](int tag) { return withKey<Mac::IMac>(std::shared_ptr<Mac::IMac>(Helper::MacFromName::GetInstance((Macs)m)), [m, tag](Mac::IMac& c, int s) -> Bytes { if (s == 0) { auto z = c.LegalKeySizes(); bool g = m >= 6 && m <= 10, st = m >= 13 && m <= 18; auto k = st ? keyInfo(legal(z, tag), 16, tag) : key(legal(z, m <= 2 ? 0 : tag), g ? 12 : 0, tag); c.Initialize(k); } if (s < 2) { size_t n = s ? 61 : 150; c.Update(pat(n, (uint32_t)(tag + 5 + s)), 0, n); return Bytes(); } Bytes o(c.TagSize()); c.Finalize(o, 0); return o; }); }); }
		for (int k = 1; k <= 21; ++k) { std::unique_ptr<Kdf::IKdf> t; try { t.reset(Helper::KdfFromName::GetInstance((Kdfs)k)); } catch (std::exception&) { continue; } if (!t) continue; add(KdfConvert::ToName((Kdfs)k), k == 6 || k == 7 || (k >= 13 && k <= 16) ? 1 : 0, [k](int tag) { std::shared_ptr<Kdf::IKdf> kd(Helper::KdfFromName::GetInstance((Kdfs)k)); if (auto p = dynamic_cast<Kdf::PBKDF2*>(kd.get())) p->Iterations() = 3; if (auto p = dynamic_cast<Kdf::SCBKDF*>(kd.get())) p->CpuCost() = 2; return withKey<Kdf::IKdf>(kd, [tag](Kdf::IKdf& c, int s) -> Bytes { if (s == 0) { auto z = c.LegalKeySizes(); (void)z; auto k = keyInfo(legal(z, tag + 1), 16, tag); c.Initialize(k); } Bytes o(s == 1 ? 40 : 24); c.Generate(o); return o; }); }); }
		static const Drbgs DR[] = { Drbgs::BCG, Drbgs::CSG, Drbgs::HCG };
		for (auto d : DR) add(DrbgConvert::ToName(d), 1, [d](int tag) { return withKey<Drbg::IDrbg>(std::shared_ptr<Drbg::IDrbg>(Helper::DrbgFromName::GetInstance(d)), [d, tag](Drbg::IDrbg& c, int s) -> Bytes { if (s != 1) { auto z = c.LegalKeySizes(); size_t kl = z[z.size() > 1 ? 1 : 0].KeySize(), nl = z[z.size() > 1 ? 1 : 0].IVSize(); auto k = keyInfo(kl, nl, tag + s); c.Initialize(k); } Bytes o(s == 1 ? 96 : 64); c.Generate(o); return o; }); });
		static const Prngs PR[] = { Prngs::BCR, Prngs::CSR, Prngs::HCR };
		for (auto p : PR) add("Prng-" + std::to_string((int)p), 1, [p](int) { return withKey<Prng::IPrng>(std::shared_ptr<Prng::IPrng>(Helper::PrngFromName::GetInstance(p, Providers::CSP)), [](Prng::IPrng& c, int s) -> Bytes { Bytes o(s == 1 ? 40 : 24); c.Generate(o); return o; }); });
		add("SecureRandom", 1, [](int) { return withKey<Prng::SecureRandom>(std::make_shared<Prng::SecureRandom>(Prngs::BCR, Providers::CSP), [](Prng::SecureRandom& c, int s) -> Bytes { if (s == 1) { uint64_t v = c.NextUInt64(); return Bytes((uint8_t*)&v, (uint8_t*)&v + 8); } return c.Generate(20); }); });
		/* what a provider delivers is not a function of its use; that it delivers is */
		static const Providers PV[] = { Providers::CSP, Providers::ACP, Providers::CJP, Providers::RDP, Providers::ECP };
		for (auto p : PV) add(ProviderConvert::ToName(p), 1, [p](int) { return withKey<Provider::IProvider>(std::shared_ptr<Provider::IProvider>(Helper::ProviderFromName::GetInstance(p)), [](Provider::IProvider& c, int s) -> Bytes { Bytes o(s == 1 ? 40 : 24, 0); c.Generate(o); bool zero = true; for (auto v : o) zero = zero && !v; return Bytes{ (uint8_t)o.size(), zero }; }); });
		add("SymmetricKeyGenerator", 1, [](int) { return withKey<Cipher::SymmetricKeyGenerator>(std::make_shared<Cipher::SymmetricKeyGenerator>(SecurityPolicy::SPL256, Providers::CSP), [](Cipher::SymmetricKeyGenerator& c, int s) -> Bytes { Cipher::SymmetricKeySize z(32, 16, (size_t)s); std::unique_ptr<Cipher::SymmetricKey> k(c.GetSymmetricKey(z)); return plain(k->Key()); }); });
		add("SymmetricSecureKey", 0, [](int tag) -> Life { auto s = std::make_shared<std::unique_ptr<Cipher::SymmetricSecureKey>>(); return [s, tag](int step) -> Bytes { if (step == 0) { s->reset(new Cipher::SymmetricSecureKey(secure(pat(32, (uint32_t)tag)), secure(pat(16, 4)), SecurityPolicy::SPL256, secure(pat(8, 5)))); return Bytes(); } return cat((*s)->Key(), (*s)->IV()); }; });
		add("SymmetricKey", 0, [](int tag) -> Life { auto s = std::make_shared<Cipher::SymmetricKey>(pat(32, (uint32_t)tag), pat(16, 3)); return [s](int step) -> Bytes { if (step == 2) { s->Reset(); return Bytes{ (uint8_t)s->Key().size() }; } std::unique_ptr<Cipher::SymmetricKey> c(s->Clone()); return plain(c->Key()); }; });
		add("MemoryStream", 0, [](int tag) -> Life { auto s = std::make_shared<CEX::IO::MemoryStream>(); return [s, tag](int step) -> Bytes { if (step < 2) { s->Write(pat(50, (uint32_t)(tag + step)), 0, 50); return Bytes(); } s->Seek(0, CEX::IO::SeekOrigin::Begin); Bytes o(100); s->Read(o, 0, 100); return o; }; });
		add("SecureMemory", 0, [](int tag) -> Life { auto s = std::make_shared<std::vector<SV>>(); return [s, tag](int step) -> Bytes { for (size_t n : { (size_t)16, (size_t)80, (size_t)700, (size_t)16 }) s->push_back(secure(pat(n + (size_t)step, (uint32_t)(tag * 50) + (uint32_t)n))); if (step == 1) s->erase(s->begin() + 1); Bytes o; for (auto& v : *s) o = cat(o, plain(v)); return o; }; });
		add("CpuDetect", 0, [](int) -> Life { return [](int) -> Bytes { CpuDetect d; return Bytes{ d.AESNI(), d.AVX2(), d.RDRAND(), d.SHA(), (uint8_t)d.PhysicalCores(), (uint8_t)d.VirtualCores(), (uint8_t)d.L1CacheLineSize() }; }; });
		add("ParallelOptions", 0, [](int tag) -> Life { auto s = std::make_shared<ParallelOptions>(16, true, 2048, true); return [s, tag](int step) -> Bytes { if (step == 1) s->SetMaxDegree(tag ? 4 : 2); if (step == 2) s->Calculate(true, 0, 2); size_t v = s->ParallelBlockSize(); return Bytes{ (uint8_t)s->IsParallel(), (uint8_t)v, (uint8_t)(v >> 8), (uint8_t)s->ParallelMaxDegree(), (uint8_t)s->ProcessorCount() }; }; });
		add("SystemTools", 0, [](int) -> Life { return [](int s) -> Bytes { if (s == 0) return Bytes{ SystemTools::HasRdRand(), SystemTools::HasRdtsc() }; if (s == 1) { (void)SystemTools::TimeStamp(SystemTools::HasRdtsc()); (void)SystemTools::ProcessId(); return Bytes{ (uint8_t)SystemTools::ComputerName().size() }; } return Bytes{ (uint8_t)SystemTools::UserName().size(), (uint8_t)SystemTools::OsVersion().size() }; }; });
		add("Timer", 0, [](int) -> Life { auto t = std::make_shared<Tools::Timer>(Tools::TimerBase::Unit::MILLISECONDS); auto u = std::make_shared<Tools::ThreadUserTimer>(); return [t, u](int s) -> Bytes { if (s == 0) { t->StartTimer(); u->StartTimer(); return Bytes(); } (void)t->ElapsedTimeAsDouble(); (void)u->ElapsedTimeAsDouble(); return Bytes{ t->TicksPerSecond() > 0, u->TicksPerSecond() > 0 }; }; });
		add("Names", 0, [](int tag) -> Life { return [tag](int s) -> Bytes { std::string n = BlockCipherConvert::ToName((BlockCiphers)(1 + s + tag)) + DigestConvert::ToName((Digests)(1 + s)) + MacConvert::ToName((Macs)(2 + s)) + KdfConvert::ToName((Kdfs)(1 + s)); return Bytes(n.begin(), n.end()); }; });
		static const PaddingModes PD[] = { PaddingModes::ESP, PaddingModes::PKCS7, PaddingModes::X923, PaddingModes::ZeroOne };
		for (auto p : PD) add(PaddingModeConvert::ToName(p), 0, [p](int tag) { return withKey<Cipher::Block::Padding::IPadding>(std::shared_ptr<Cipher::Block::Padding::IPadding>(Helper::PaddingFromName::GetInstance(p)), [p, tag](Cipher::Block::Padding::IPadding& c, int s) -> Bytes { Bytes b = pat(16, 3); size_t off = (size_t)(5 + s + tag); c.AddPadding(b, off, 16); size_t n = c.GetBlockLength(b, 0, 16); return Bytes{ (uint8_t)n, b[off - 1], p == PaddingModes::ESP ? b[15] : b[off] }; }); });
		using namespace Asymmetric;
		add("ECDH", 1, [](int tag) -> Life { struct S { Rng r; Encrypt::ECDH::ECDH c; std::unique_ptr<AsymmetricKeyPair> a, b; S(int t) : r((uint64_t)t), c(ECDHParameters::ECDHS1P25519K, &r) {} }; auto s = std::make_shared<S>(tag); return [s](int step) -> Bytes { if (step == 0) { s->a.reset(s->c.Generate()); return s->a->PublicKey()->Polynomial(); } if (step == 1) { s->b.reset(s->c.Generate()); return s->b->PublicKey()->Polynomial(); } Bytes o; s->c.KeyExchange(s->b->PublicKey(), s->a->PrivateKey(), o); return o; }; });
		sigFam<Sign::IAsymmetricSigner>("ECDSA-K", 1, [](Prng::IPrng* r) { return new Sign::ECDSA::ECDSA(ECDSAParameters::ECDSAS1P25519K, r); }); sigFam<Sign::IAsymmetricSigner>("ECDSA-S", 1, [](Prng::IPrng* r) { return new Sign::ECDSA::ECDSA(ECDSAParameters::ECDSAS2P25519S, r); });
		kemFam<Encrypt::IAsymmetricCipher>("Kyber", 1, [](Prng::IPrng* r) { return new Encrypt::MLWE::Kyber(KyberParameters::KYBERS3P2400, r); }); sigFam<Sign::IAsymmetricSigner>("Dilithium", 1, [](Prng::IPrng* r) { return new Sign::DLTM::Dilithium(DilithiumParameters::DLTMS3P4016, r); });
		sigFam<Sign::IAsymmetricSigner>("SphincsPlus", 2, [](Prng::IPrng* r) { return new Sign::SPXP::SphincsPlus(SphincsPlusParameters::SPXPS1S128SHAKE, r); }); sigFam<Sign::IAsymmetricSigner>("XMSS", 2, [](Prng::IPrng* r) { return new Sign::XMSS::XMSS(XmssParameters::XMSSMTSHA2256H20D4, r); });
	}
	const Fam& fam(const std::string& n) { for (auto& f : fams) if (f.name == n) return f; std::abort(); }

	/* every instance has a stream of the system's random source of its own */
	thread_local int who = 0; uint64_t drawn[2], ticks[2];
	void world() { sim::reset(); sim::cpu.logical = 4; who = 0; drawn[0] = drawn[1] = ticks[0] = ticks[1] = 0; sim::clock = [] { uint64_t c = ++ticks[who]; return c * 1000 + mixw(5, c) % 977; }; sim::rng = [](uint8_t* p, size_t n) { for (size_t i = 0; i < n; ++i) p[i] = (uint8_t)(mixw(3 + (uint64_t)who, drawn[who]++) >> 17); return true; }; }
	Bytes alone(const Fam& f, int tag)
	{
		who = tag; Bytes r; Life l = f.make(tag); for (int s = 0; s < 3; ++s) { Bytes b = l(s); r.push_back((uint8_t)b.size()); r = cat(r, b); } return r;
	}
	/* the same life in a process in which nothing else was ever used */
	Bytes golden(const Fam& f, int tag)
	{
		int p[2]; if (pipe(p)) std::abort(); std::fflush(nullptr); pid_t c = fork(); if (c == 0) { close(p[0]); Bytes r; try { r = alone(f, tag); } catch (Exception::CryptoException& e) { std::fprintf(stderr, "%s: %s\n", f.name.c_str(), e.Message().c_str()); _exit(3); } catch (std::exception& e) { std::fprintf(stderr, "%s: %s\n", f.name.c_str(), e.what()); _exit(3); } size_t o = 0; while (o < r.size()) { ssize_t k = write(p[1], &r[o], r.size() - o); if (k <= 0) break; o += (size_t)k; } _exit(0); }
		close(p[1]); Bytes r; uint8_t b[4096]; ssize_t k; while ((k = read(p[0], b, sizeof b)) > 0) r.insert(r.end(), b, b + k); close(p[0]); int st = 0; waitpid(c, &st, 0); MC_CHECK(st == 0, "alone", "%s cannot be used at all (%x)", f.name.c_str(), st); return r;
	}
	void take(Bytes& r, const Bytes& b) { r.push_back((uint8_t)b.size()); r.insert(r.end(), b.begin(), b.end()); }
	void compare(const Fam& f, int tag, const Bytes& got, const Bytes& want, const Fam& other, const char* how) { CHECK_EQ("result", got, want, "%s (instance %d) beside %s %s", f.name.c_str(), tag, other.name.c_str(), how); }
	/* both instances in one thread; order: bit i says which of them makes its next move (create, three steps, destroy) */
	void interleave(const Fam& a, const Fam& b, const std::vector<int>& order)
	{
		world(); const Fam* f[2] = { &a, &b }; Bytes want[2] = { golden(a, 0), golden(b, 1) }, got[2]; Life l[2]; int at[2] = { 0, 0 };
		for (int w : order) { int m = at[w]++; who = w; mc::transition(); if (m == 0) l[w] = f[w]->make(w); else if (m == 4) l[w] = nullptr; else take(got[w], l[w](m - 1)); }
		std::string o; for (int w : order) o += (char)('0' + w); MC_OP("%s and %s, order %s", a.name.c_str(), b.name.c_str(), o.c_str());
		for (int w = 0; w < 2; ++w) compare(*f[w], w, got[w], want[w], *f[1 - w], "in one thread"); mc::outcome(mc::combine(h(got[0]), h(got[1])));
	}
	std::vector<int> chooseOrder() { std::vector<int> o; int n[2] = { 5, 5 }; while (n[0] || n[1]) { int w = !n[0] ? 1 : !n[1] ? 0 : mc::choose(2); --n[w]; o.push_back(w); } return o; }
	/* one instance in each thread, from a process in which nothing was used before */
	void threads(const Fam& a, const Fam& b, int delays)
	{
		world(); Bytes want[2] = { golden(a, 0), golden(b, 1) }, got[2]; const Fam* f[2] = { &a, &b }; bool threw[2] = { false, false };
		sched::begin(delays, 2000000); auto live = [&](int w) { who = w; try { Life l = f[w]->make(w); for (int s = 0; s < 3; ++s) { Bytes r = l(s); sched::Ignore g; take(got[w], r); } } catch (...) { threw[w] = true; } };
		{ std::thread t([&] { live(1); }); live(0); t.join(); } sched::end(); mc::transition();
		MC_OP("%s and %s in two threads, %llu steps", a.name.c_str(), b.name.c_str(), (unsigned long long)sched::steps());
		for (int w = 0; w < 2; ++w) { MC_CHECK(!threw[w], "exception", "%s beside %s in another thread throws", f[w]->name.c_str(), f[1 - w]->name.c_str()); compare(*f[w], w, got[w], want[w], *f[1 - w], "in another thread"); } mc::outcome(mc::combine(h(got[0]), sched::steps()));
	}
}
void mc_register()
{
	mc::forkEach(true); mc::setHangSeconds(240); world(); families(); bool T = mc::thorough();
	mc::bounds(std::to_string(fams.size()) + " kinds of instance over every part of the library except McEliece (key generation is out of reach under the scheduler); one thread: every interleaving (252) of the creation, three operations and destruction of two instances of one kind, and of every pair of kinds " + (T ? "every order" : "2 of 4 orders") + "; two threads, each an instance of its own from the first use in the process on: every schedule with up to " + (T ? "2" : "1") + " departures for the cheap kinds of instance (the default schedule for the slow ones), pairs of one kind and of neighbouring kinds");
	mc::assume("between synchronisation points two threads without a conflicting access cannot see each other, and every pair of accesses is examined, so the schedules of the synchronisation points stand for all schedules; sequentially consistent memory; the system's random source gives each request a value of its own; what the entropy providers return is not judged, only that they return it");
	for (size_t i = 0; i < fams.size(); ++i)
	{
		Fam a = fams[i]; if (a.weight < 2) mc::job("one-thread/" + a.name, [a] { interleave(a, a, chooseOrder()); });
		mc::job("threads/" + a.name, [a, T] { threads(a, a, a.weight ? (T && a.weight < 2 ? 1 : 0) : D(1, 2)); });
		mc::job("threads-beside/" + a.name, [i, a, T] { if (a.weight == 2) throw mc::Infeasible(); std::vector<size_t> o; for (size_t k = 1; k <= (T ? fams.size() - 1 : 6); ++k) { size_t j = (i + (T ? k : k * k)) % fams.size(); if (fams[j].weight < 2) o.push_back(j); } threads(a, fams[mc::pick(o)], 0); });
		mc::job("pairs/" + a.name, [i, a, T]
		{
			if (a.weight == 2) throw mc::Infeasible(); std::vector<size_t> o; for (size_t j = 0; j < fams.size(); ++j) if (j != i && fams[j].weight < (T ? 2 : a.weight ? 1 : 2)) o.push_back(j); const Fam& b = fams[mc::pick(o)];
			static const std::vector<std::vector<int>> Q{ { 0, 0, 1, 1, 0, 1, 0, 1, 0, 1 }, { 0, 0, 0, 1, 1, 1, 1, 1, 0, 0 }, { 0, 1, 1, 0, 1, 0, 1, 1, 0, 0 }, { 1, 0, 0, 1, 0, 0, 0, 1, 1, 1 } }; interleave(a, b, T ? chooseOrder() : Q[2 * (size_t)mc::choose(2) + (i & 1)]);
		});
	}
}
