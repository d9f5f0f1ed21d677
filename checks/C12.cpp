// MC-VARIANT: asan
// MC-TECHNIQUE: exhaustive enumeration of every declared and undeclared enumeration value, every name and its perturbations, and every factory member (and mode/cipher pair), each executed on the real converters and factories
#include "checks/common.h"
#include <set>
#include <algorithm>
#include "AeadModeFromName.h"
#include "AsymmetricCipherFromName.h"
#include "AsymmetricSignerFromName.h"
#include "CipherModeFromName.h"
#include "DigestFromName.h"
#include "DrbgFromName.h"
#include "KdfFromName.h"
#include "MacFromName.h"
#include "PaddingFromName.h"
#include "PrngFromName.h"
#include "ProviderFromName.h"
#include "StreamCipherFromName.h"
#include "AeadModes.h"
#include "ECDH.h"
#include "ECDSA.h"
#include "AsymmetricCiphers.h"
#include "AsymmetricParameters.h"
#include "AsymmetricPrimitives.h"
#include "AsymmetricSigners.h"
#include "BlockCiphers.h"
#include "CipherModes.h"
#include "Digests.h"
#include "DilithiumParameters.h"
#include "Drbgs.h"
#include "ECDHParameters.h"
#include "ECDSAParameters.h"
#include "ExceptionTypes.h"
#include "Kdfs.h"
#include "KmacModes.h"
#include "Kms.h"
#include "KpaModes.h"
#include "KyberParameters.h"
#include "Macs.h"
#include "McElieceParameters.h"
#include "PaddingModes.h"
#include "Prngs.h"
#include "Providers.h"
#include "SHA2Digests.h"
#include "SecurityPolicy.h"
#include "ShakeModes.h"
#include "SphincsPlusParameters.h"
#include "StreamAuthenticators.h"
#include "StreamCiphers.h"
#include "SymmetricCiphers.h"
#include "ThreefishModes.h"
#include "XmssParameters.h"

const char* const MC_PROPERTY = "C12";
using namespace CEX::Enumeration; using namespace CEX::Helper;
static std::vector<std::string> g_names{ "Rijndael", "RHX", "SHX" };   /* every member of every enumeration, and the accepted aliases */
template <class E, class C> void en(const char* n, std::vector<std::pair<const char*, E>> ms)
{
	for (auto& m : ms) g_names.push_back(m.first);
	std::string nm = n;
	mc::job("enum/" + nm, [=] {
		std::set<std::string> seen;
		for (auto& m : ms)
		{
			std::string s = C::ToName(m.second), t = s; MC_OP("%s::%s -> %s", nm.c_str(), m.first, s.c_str()); E back = C::FromName(t);
			MC_CHECK(s == m.first, "to-name", "%s::%s is named '%s'", nm.c_str(), m.first, s.c_str());
			MC_CHECK(back == m.second, "from-name", "the name '%s' of %s::%s converts back to the value %d instead of %d", s.c_str(), nm.c_str(), m.first, (int)back, (int)m.second);
			MC_CHECK(seen.insert(s).second, "duplicate", "two members of %s are named '%s'", nm.c_str(), s.c_str()); mc::state(mc::hash(nm + s));
		}
	});
	mc::job("unknown/" + nm, [=] {
		size_t mi = (size_t)mc::choose((int)ms.size()); const std::string m = ms[mi].first; std::vector<std::string> v{ "", "nonsense", " " + m, m + " ", m + "X", "X" + m, m + "0", m + std::string(1, 0), m + m };
		for (size_t k = 0; k < m.size(); ++k) { std::string d = m; d.erase(k, 1); v.push_back(d); d = m; d[k] ^= 0x20; v.push_back(d); d = m; d[k] ^= 1; v.push_back(d); d = m; d.insert(k, 1, m[k]); v.push_back(d); }
		for (auto& u : v) { if (std::find(g_names.begin(), g_names.end(), u) != g_names.end()) continue; std::string t = u; E e = C::FromName(t); MC_OP("%s <- '%s'", nm.c_str(), u.c_str()); MC_CHECK((int)e == 0, "unknown-name", "%s: the unknown name '%s' converts to the value %d", nm.c_str(), u.c_str(), (int)e); }
	});
	mc::job("undeclared/" + nm, [=] {
		int v = mc::choose(256); std::string s; bool threw = throwsStd([&] { s = C::ToName((E)v); }); MC_OP("%s %d", nm.c_str(), v);
		for (auto& m : ms) if (!threw && (int)m.second != 0 && s == m.first && (int)m.second != v) mc::fail("duplicate", "%s: the value %d has the name of the member %s (%d)", nm.c_str(), v, m.first, (int)m.second);
	});
}
/* members a factory builds as a family plus parameters: what the instance must report */
struct Family { int en; std::vector<std::string> parts; };
static const std::map<std::string, Family> FAM{
	{ "Macs::CMACRHXH256", { 1, { "CMAC", "RHXH256" } } }, { "Macs::CMACRHXH512", { 1, { "CMAC", "RHXH512" } } }, { "Macs::CMACRHXS256", { 1, { "CMAC", "RHXS256" } } }, { "Macs::CMACRHXS512", { 1, { "CMAC", "RHXS512" } } }, { "Macs::CMAC", { 1, { "CMAC", "AES" } } },
	{ "Macs::GMACRHXH256", { 6, { "GMAC", "RHXH256" } } }, { "Macs::GMACRHXH512", { 6, { "GMAC", "RHXH512" } } }, { "Macs::GMACRHXS256", { 6, { "GMAC", "RHXS256" } } }, { "Macs::GMACRHXS512", { 6, { "GMAC", "RHXS512" } } }, { "Macs::GMAC", { 6, { "GMAC", "AES" } } },
	{ "Drbgs::CSG", { 2, { "CSG" } } }, { "Drbgs::HCG", { 3, { "HCG" } } },
	{ "Prngs::BCR", { 1, { "BCR" } } }, { "Prngs::CSR", { 6, { "CSR", "SHAKE256" } } }, { "Prngs::CSRC512", { 6, { "CSR", "SHAKE512" } } }, { "Prngs::HCR", { 9, { "HCR", "SHA2256" } } }, { "Prngs::HCRS512", { 9, { "HCR", "SHA2512" } } },
	{ "StreamCiphers::CSXR20K256", { 97, { "ChaChaP20", "KMAC256" } } }, { "StreamCiphers::CSXR80K512", { 99, { "CSX512", "KMAC512" } } }, { "StreamCiphers::TSXR72K256", { 129, { "TSX256", "KMAC256" } } }, { "StreamCiphers::TSXR96K512", { 131, { "TSX512", "KMAC512" } } }, { "StreamCiphers::TSXR120K512", { 133, { "TSX1024", "KMAC512" } } },
	{ "StreamCiphers::RCSK256", { 160, { "RCS" } } }, { "StreamCiphers::RCSK512", { 160, { "RCS" } } }, { "StreamCiphers::RCSK1024", { 160, { "RCS" } } }, { "StreamCiphers::RWSK256", { 170, { "RWS" } } }, { "StreamCiphers::RWSK512", { 170, { "RWS" } } }, { "StreamCiphers::RWSK1024", { 170, { "RWS" } } },
	{ "CipherModes::CBC", { 2, { "CBC", "AES" } } }, { "CipherModes::CFB", { 3, { "CFB", "AES" } } }, { "CipherModes::CTR", { 4, { "CTR", "AES" } } }, { "CipherModes::ECB", { 5, { "ECB", "AES" } } }, { "CipherModes::ICM", { 12, { "ICM", "AES" } } }, { "CipherModes::OFB", { 13, { "OFB", "AES" } } },
	{ "AeadModes::GCM", { 6, { "GCM", "AES" } } }, { "AeadModes::HBAH256", { 7, { "HBA", "AES", "HMACSHA2256" } } }, { "AeadModes::HBAH512", { 7, { "HBA", "AES", "HMACSHA2512" } } }, { "AeadModes::HBAS256", { 7, { "HBA", "AES", "KMAC256" } } }, { "AeadModes::HBAS512", { 7, { "HBA", "AES", "KMAC512" } } },
	{ "KyberParameters::", { 2, { "Kyber" } } }, { "McElieceParameters::", { 3, { "McEliece" } } }, { "DilithiumParameters::", { 5, { "Dilithium" } } }, { "SphincsPlusParameters::", { 9, { "SphincsPlus" } } }, { "XmssParameters::", { 10, { "XMSS" } } }, { "XmssMtParameters::", { 11, { "XMSSMT" } } }, { "ECDHParameters::", { 1, { "ECDH" } } }, { "ECDSAParameters::", { 6, { "ECDSA" } } } };
/* members a factory refuses today; every other one must be built */
static const std::set<std::string> REFUSED{ "Digests::SHAKE128", "Digests::SHAKE256", "Digests::SHAKE512", "StreamAuthenticators::KPA", "StreamAuthenticators::KMAC", "Macs::KMAC128", "Kdfs::HKDS128", "Kdfs::HKDS256", "Kdfs::HKDS512", "Kdfs::SCBKDF1024", "Prngs::CSRC1024", "CipherModes::ACM", "CipherModes::GCM", "CipherModes::HBA", "CipherModes::HBAH256", "CipherModes::HBAH512", "CipherModes::HBAS256", "CipherModes::HBAS512", "AeadModes::HBA" };
template <class E, class F> void fac(const char* n, std::vector<std::pair<const char*, E>> ms, F f)
{
	std::string nm = n;
	mc::job("factory/" + nm, [=] {
		std::map<std::string, std::string> seen;
		for (auto& m : ms)
		{
			const std::string full = nm + "::" + m.first; std::unique_ptr<typename std::remove_pointer<decltype(f(m.second))>::type> p; bool none = (int)m.second == 0; std::string why;
			try { p.reset(f(m.second)); } catch (CEX::Exception::CryptoException& e) { why = e.Message(); }
			MC_OP("%s", full.c_str());
			if (!p) { MC_CHECK(none || REFUSED.count(full), "refused", "the factory refuses %s: %s", full.c_str(), why.c_str()); MC_CHECK(!why.empty() || none || REFUSED.count(full), "null", "the factory returns nothing for %s", full.c_str()); continue; }
			MC_CHECK(!none, "none", "the factory builds an instance for %s", full.c_str());
			int e = (int)p->Enumeral(); std::string name = p->Name();
			std::string grp = nm + "::"; if (nm == "XmssParameters" && std::string(m.first).find("XMSSMT") == 0) grp = "XmssMtParameters::";
			auto it = FAM.find(full); bool params = FAM.count(grp) != 0; if (params) it = FAM.find(grp);
			if (it == FAM.end()) { MC_CHECK(e == (int)m.second, "enumeral", "the instance built for %s (%d) reports the member %d", full.c_str(), (int)m.second, e); MC_CHECK(name == m.first, "name", "the instance built for %s is named '%s'", full.c_str(), name.c_str()); }
			else
			{
				MC_CHECK(e == it->second.en || (!params && e == (int)m.second), "enumeral", "the instance built for %s (%d) reports the member %d", full.c_str(), (int)m.second, e);
				for (auto& q : it->second.parts) MC_CHECK(name.find(q) != std::string::npos, "name", "the instance built for %s is named '%s', without '%s'", full.c_str(), name.c_str(), q.c_str());
				if (params) MC_CHECK(name.find(m.first) != std::string::npos, "name", "the instance built for %s is named '%s'", full.c_str(), name.c_str());
			}
			if (full.find("::RCSK") == std::string::npos && full.find("::RWSK") == std::string::npos) { MC_CHECK(!seen.count(name), "same-name", "the instances built for %s and %s have the same name '%s'", full.c_str(), seen[name].c_str(), name.c_str()); seen[name] = full; }
			mc::state(mc::hash(full + name));
		}
	});
}
/* every mode over every block cipher reports both */
static const std::vector<std::pair<const char*, BlockCiphers>> BC{ { "AES", BlockCiphers::AES }, { "Serpent", BlockCiphers::Serpent }, { "RHXH256", BlockCiphers::RHXH256 }, { "RHXH512", BlockCiphers::RHXH512 }, { "RHXS256", BlockCiphers::RHXS256 }, { "RHXS512", BlockCiphers::RHXS512 }, { "SHXH256", BlockCiphers::SHXH256 }, { "SHXH512", BlockCiphers::SHXH512 }, { "SHXS256", BlockCiphers::SHXS256 }, { "SHXS512", BlockCiphers::SHXS512 } };
static void pairs()
{
	static const std::vector<std::pair<const char*, CipherModes>> M{ { "CBC", CipherModes::CBC }, { "CFB", CipherModes::CFB }, { "CTR", CipherModes::CTR }, { "ICM", CipherModes::ICM }, { "OFB", CipherModes::OFB }, { "ECB", CipherModes::ECB } };
	mc::job("pairs/modes", [] {
		auto& m = M[(size_t)mc::choose((int)M.size())]; auto& c = BC[(size_t)mc::choose((int)BC.size())]; int how = mc::choose(2); if (how && m.second == CipherModes::ECB) return;
		std::unique_ptr<Cipher::Block::IBlockCipher> b; if (how) b.reset(BlockCipherFromName::GetInstance(c.second));
		std::unique_ptr<Cipher::Block::Mode::ICipherMode> p(how ? CipherModeFromName::GetInstance(b.get(), m.second) : CipherModeFromName::GetInstance(c.second, m.second)); MC_OP("%s/%s", m.first, c.first);
		MC_CHECK(p->Enumeral() == m.second && p->CipherType() == c.second && p->Engine()->Enumeral() == c.second, "pair", "mode %s over %s reports mode %d, cipher %d", m.first, c.first, (int)p->Enumeral(), (int)p->CipherType());
		MC_CHECK(p->Name() == std::string(m.first) + "-" + c.first, "pair", "mode %s over %s is named %s", m.first, c.first, p->Name().c_str());
	});
	static const std::vector<std::pair<const char*, AeadModes>> A{ { "GCM", AeadModes::GCM }, { "HBA", AeadModes::HBAH256 }, { "HBA", AeadModes::HBAH512 }, { "HBA", AeadModes::HBAS256 }, { "HBA", AeadModes::HBAS512 } };
	mc::job("pairs/aead", [] {
		auto& m = A[(size_t)mc::choose((int)A.size())]; auto& c = BC[(size_t)mc::choose((int)BC.size())]; int how = mc::choose(2);
		std::unique_ptr<Cipher::Block::IBlockCipher> b; if (how) b.reset(BlockCipherFromName::GetInstance(c.second));
		std::unique_ptr<Cipher::Block::Mode::IAeadMode> p; std::string why; try { p.reset(how ? AeadModeFromName::GetInstance(b.get(), m.second) : AeadModeFromName::GetInstance(c.second, m.second)); } catch (CEX::Exception::CryptoException& e) { why = e.Message(); } MC_OP("%s/%s", m.first, c.first);
		MC_CHECK(p || m.second != AeadModes::GCM || how, "pair", "%s over %s is refused: %s", m.first, c.first, why.c_str()); if (!p) return;
		MC_CHECK(p->Name().find(std::string(m.first) + "-" + c.first) == 0, "pair", "AEAD mode %s over %s is named %s", m.first, c.first, p->Name().c_str());
	});
	mc::job("pairs/prng-provider", [] {
		static const std::vector<Prngs> P{ Prngs::BCR, Prngs::CSR, Prngs::CSRC512, Prngs::HCR, Prngs::HCRS512 }; static const std::vector<Providers> V{ Providers::ACP, Providers::CJP, Providers::CSP, Providers::ECP, Providers::RDP };
		Prngs g = mc::pick(P); Providers v = mc::pick(V); std::unique_ptr<CEX::Prng::IPrng> p(PrngFromName::GetInstance(g, v)); MC_OP("prng");
		MC_CHECK(p->Name().find(ProviderConvert::ToName(v)) != std::string::npos, "pair", "generator %s built over provider %s is named %s", PrngConvert::ToName(g).c_str(), ProviderConvert::ToName(v).c_str(), p->Name().c_str());
	});
}
#define P(E, m) { #m, E::m }
void mc_register()
{
	pairs();
	mc::bounds("every declared member and every other byte value of 32 enumerations; every one-character deletion, duplication, case and bit change of every name; every member of 18 factories; every (mode, cipher) pair through both overloads; every (generator, provider) pair");
	en<AeadModes, AeadModeConvert>("AeadModes", {P(AeadModes, None), P(AeadModes, GCM), P(AeadModes, HBA), P(AeadModes, HBAH256), P(AeadModes, HBAH512), P(AeadModes, HBAS256), P(AeadModes, HBAS512)});
	en<AsymmetricCiphers, AsymmetricCipherConvert>("AsymmetricCiphers", {P(AsymmetricCiphers, None), P(AsymmetricCiphers, Kyber), P(AsymmetricCiphers, McEliece), P(AsymmetricCiphers, ECDH)});
	en<AsymmetricParameters, AsymmetricTransformConvert>("AsymmetricParameters", {P(AsymmetricParameters, None), P(AsymmetricParameters, DLTMS1P2544), P(AsymmetricParameters, DLTMS3P4016), P(AsymmetricParameters, DLTMS5P4880), P(AsymmetricParameters, ECDHS1P25519K), P(AsymmetricParameters, ECDHS2P25519S), P(AsymmetricParameters, ECDSAS1P25519K), P(AsymmetricParameters, ECDSAS2P25519S), P(AsymmetricParameters, KYBERS1P1632), P(AsymmetricParameters, KYBERS3P2400), P(AsymmetricParameters, KYBERS5P3168), P(AsymmetricParameters, KYBERS6P3936), P(AsymmetricParameters, MPKCS3N4608T96), P(AsymmetricParameters, MPKCS3N6960T119), P(AsymmetricParameters, MPKCS4N6688T128), P(AsymmetricParameters, MPKCS5N8192T128), P(AsymmetricParameters, SPXPS1S128SHAKE), P(AsymmetricParameters, SPXPS3S192SHAKE), P(AsymmetricParameters, SPXPS5S256SHAKE), P(AsymmetricParameters, SPXPS6S512SHAKE), P(AsymmetricParameters, XMSSSHA2256H10), P(AsymmetricParameters, XMSSSHA2256H16), P(AsymmetricParameters, XMSSSHA2256H20), P(AsymmetricParameters, XMSSSHA2512H10), P(AsymmetricParameters, XMSSSHA2512H16), P(AsymmetricParameters, XMSSSHA2512H20), P(AsymmetricParameters, XMSSSHAKE256H10), P(AsymmetricParameters, XMSSSHAKE256H16), P(AsymmetricParameters, XMSSSHAKE256H20), P(AsymmetricParameters, XMSSSHAKE512H10), P(AsymmetricParameters, XMSSSHAKE512H16), P(AsymmetricParameters, XMSSSHAKE512H20), P(AsymmetricParameters, XMSSMTSHA2256H20D2), P(AsymmetricParameters, XMSSMTSHA2256H20D4), P(AsymmetricParameters, XMSSMTSHA2256H40D2), P(AsymmetricParameters, XMSSMTSHA2256H40D4), P(AsymmetricParameters, XMSSMTSHA2256H40D8), P(AsymmetricParameters, XMSSMTSHA2256H60D3), P(AsymmetricParameters, XMSSMTSHA2256H60D6), P(AsymmetricParameters, XMSSMTSHA2256H60D12), P(AsymmetricParameters, XMSSMTSHA2512H20D2), P(AsymmetricParameters, XMSSMTSHA2512H20D4), P(AsymmetricParameters, XMSSMTSHA2512H40D2), P(AsymmetricParameters, XMSSMTSHA2512H40D4), P(AsymmetricParameters, XMSSMTSHA2512H40D8), P(AsymmetricParameters, XMSSMTSHA2512H60D3), P(AsymmetricParameters, XMSSMTSHA2512H60D6), P(AsymmetricParameters, XMSSMTSHA2512H60D12), P(AsymmetricParameters, XMSSMTSHAKE256H20D2), P(AsymmetricParameters, XMSSMTSHAKE256H20D4), P(AsymmetricParameters, XMSSMTSHAKE256H40D2), P(AsymmetricParameters, XMSSMTSHAKE256H40D4), P(AsymmetricParameters, XMSSMTSHAKE256H40D8), P(AsymmetricParameters, XMSSMTSHAKE256H60D3), P(AsymmetricParameters, XMSSMTSHAKE256H60D6), P(AsymmetricParameters, XMSSMTSHAKE256H60D12), P(AsymmetricParameters, XMSSMTSHAKE512H20D2), P(AsymmetricParameters, XMSSMTSHAKE512H20D4), P(AsymmetricParameters, XMSSMTSHAKE512H40D2), P(AsymmetricParameters, XMSSMTSHAKE512H40D4), P(AsymmetricParameters, XMSSMTSHAKE512H40D8), P(AsymmetricParameters, XMSSMTSHAKE512H60D3), P(AsymmetricParameters, XMSSMTSHAKE512H60D6), P(AsymmetricParameters, XMSSMTSHAKE512H60D12)});
	en<AsymmetricPrimitives, AsymmetricPrimitiveConvert>("AsymmetricPrimitives", {P(AsymmetricPrimitives, None), P(AsymmetricPrimitives, ECDH), P(AsymmetricPrimitives, Kyber), P(AsymmetricPrimitives, McEliece), P(AsymmetricPrimitives, Dilithium), P(AsymmetricPrimitives, ECDSA), P(AsymmetricPrimitives, SphincsPlus), P(AsymmetricPrimitives, XMSS), P(AsymmetricPrimitives, XMSSMT)});
	en<AsymmetricSigners, AsymmetricSignerConvert>("AsymmetricSigners", {P(AsymmetricSigners, None), P(AsymmetricSigners, Dilithium), P(AsymmetricSigners, ECDSA), P(AsymmetricSigners, SphincsPlus), P(AsymmetricSigners, XMSS), P(AsymmetricSigners, XMSSMT)});
	en<BlockCiphers, BlockCipherConvert>("BlockCiphers", {P(BlockCiphers, None), P(BlockCiphers, AES), P(BlockCiphers, Serpent), P(BlockCiphers, RHXH256), P(BlockCiphers, RHXH512), P(BlockCiphers, RHXS256), P(BlockCiphers, RHXS512), P(BlockCiphers, SHXH256), P(BlockCiphers, SHXH512), P(BlockCiphers, SHXS256), P(BlockCiphers, SHXS512)});
	en<CipherModes, CipherModeConvert>("CipherModes", {P(CipherModes, None), P(CipherModes, ACM), P(CipherModes, CBC), P(CipherModes, CFB), P(CipherModes, CTR), P(CipherModes, ECB), P(CipherModes, GCM), P(CipherModes, HBA), P(CipherModes, HBAH256), P(CipherModes, HBAH512), P(CipherModes, HBAS256), P(CipherModes, HBAS512), P(CipherModes, ICM), P(CipherModes, OFB)});
	en<Digests, DigestConvert>("Digests", {P(Digests, None), P(Digests, Blake256), P(Digests, Blake512), P(Digests, SHA3256), P(Digests, SHA3512), P(Digests, SHA2256), P(Digests, SHA2512), P(Digests, SHAKE128), P(Digests, SHAKE256), P(Digests, SHAKE512), P(Digests, Skein256), P(Digests, Skein512), P(Digests, Skein1024)});
	en<DilithiumParameters, DilithiumParameterConvert>("DilithiumParameters", {P(DilithiumParameters, None), P(DilithiumParameters, DLTMS1P2544), P(DilithiumParameters, DLTMS3P4016), P(DilithiumParameters, DLTMS5P4880)});
	en<Drbgs, DrbgConvert>("Drbgs", {P(Drbgs, None), P(Drbgs, BCG), P(Drbgs, CSG), P(Drbgs, HCG)});
	en<ECDHParameters, ECDHParameterConvert>("ECDHParameters", {P(ECDHParameters, None), P(ECDHParameters, ECDHS1P25519K), P(ECDHParameters, ECDHS2P25519S)});
	en<ECDSAParameters, ECDSAParameterConvert>("ECDSAParameters", {P(ECDSAParameters, None), P(ECDSAParameters, ECDSAS1P25519K), P(ECDSAParameters, ECDSAS2P25519S)});
	en<ExceptionTypes, ExceptionTypeConvert>("ExceptionTypes", {P(ExceptionTypes, None), P(ExceptionTypes, CryptoAsymmetricException), P(ExceptionTypes, CryptoAuthenticationFailure), P(ExceptionTypes, CryptoCipherModeException), P(ExceptionTypes, CryptoDigestException), P(ExceptionTypes, CryptoException), P(ExceptionTypes, CryptoGeneratorException), P(ExceptionTypes, CryptoKdfException), P(ExceptionTypes, CryptoKmsException), P(ExceptionTypes, CryptoMacException), P(ExceptionTypes, CryptoPaddingException), P(ExceptionTypes, CryptoProcessingException), P(ExceptionTypes, CryptoRandomException), P(ExceptionTypes, CryptoSymmetricException)});
	en<Kdfs, KdfConvert>("Kdfs", {P(Kdfs, None), P(Kdfs, HKDS512), P(Kdfs, HKDF256), P(Kdfs, HKDF512), P(Kdfs, KDF2256), P(Kdfs, KDF2512), P(Kdfs, PBKDF2256), P(Kdfs, PBKDF2512), P(Kdfs, SHAKE128), P(Kdfs, SHAKE256), P(Kdfs, SHAKE512), P(Kdfs, SCBKDF128), P(Kdfs, SCBKDF256), P(Kdfs, SCBKDF512), P(Kdfs, SCBKDF1024), P(Kdfs, HKDS128), P(Kdfs, HKDS256)});
	en<KmacModes, KmacModeConvert>("KmacModes", {P(KmacModes, None), P(KmacModes, KMAC128), P(KmacModes, KMAC256), P(KmacModes, KMAC512)});
	en<Kms, KmsConvert>("Kms", {P(Kms, None), P(Kms, HKDS128), P(Kms, HKDS256), P(Kms, HKDS512)});
	en<KpaModes, KbaModeConvert>("KpaModes", {P(KpaModes, None), P(KpaModes, KPA128), P(KpaModes, KPA256), P(KpaModes, KPA512)});
	en<KyberParameters, KyberParameterConvert>("KyberParameters", {P(KyberParameters, None), P(KyberParameters, KYBERS1P1632), P(KyberParameters, KYBERS3P2400), P(KyberParameters, KYBERS5P3168), P(KyberParameters, KYBERS6P3936)});
	en<Macs, MacConvert>("Macs", {P(Macs, None), P(Macs, CMAC), P(Macs, CMACRHXH256), P(Macs, CMACRHXH512), P(Macs, CMACRHXS256), P(Macs, CMACRHXS512), P(Macs, GMAC), P(Macs, GMACRHXH256), P(Macs, GMACRHXH512), P(Macs, GMACRHXS256), P(Macs, GMACRHXS512), P(Macs, HMACSHA2256), P(Macs, HMACSHA2512), P(Macs, KPA128), P(Macs, KPA256), P(Macs, KPA512), P(Macs, KMAC128), P(Macs, KMAC256), P(Macs, KMAC512), P(Macs, Poly1305)});
	en<McElieceParameters, McElieceParameterConvert>("McElieceParameters", {P(McElieceParameters, None), P(McElieceParameters, MPKCS3N4608T96), P(McElieceParameters, MPKCS3N6960T119), P(McElieceParameters, MPKCS4N6688T128), P(McElieceParameters, MPKCS5N8192T128)});
	en<PaddingModes, PaddingModeConvert>("PaddingModes", {P(PaddingModes, None), P(PaddingModes, ESP), P(PaddingModes, PKCS7), P(PaddingModes, X923), P(PaddingModes, ZeroOne)});
	en<Prngs, PrngConvert>("Prngs", {P(Prngs, None), P(Prngs, BCR), P(Prngs, CSR), P(Prngs, CSRC512), P(Prngs, CSRC1024), P(Prngs, HCR), P(Prngs, HCRS512)});
	en<Providers, ProviderConvert>("Providers", {P(Providers, None), P(Providers, ACP), P(Providers, CJP), P(Providers, CSP), P(Providers, ECP), P(Providers, RDP)});
	en<SHA2Digests, SHA2DigestConvert>("SHA2Digests", {P(SHA2Digests, None), P(SHA2Digests, SHA2256), P(SHA2Digests, SHA2512)});
	en<SecurityPolicy, SecurityPolicyConvert>("SecurityPolicy", {P(SecurityPolicy, None), P(SecurityPolicy, SPL256), P(SecurityPolicy, SPL256AE), P(SecurityPolicy, SPL512), P(SecurityPolicy, SPL512AE), P(SecurityPolicy, SPL1024), P(SecurityPolicy, SPL1024AE)});
	en<ShakeModes, ShakeModeConvert>("ShakeModes", {P(ShakeModes, None), P(ShakeModes, SHAKE128), P(ShakeModes, SHAKE256), P(ShakeModes, SHAKE512)});
	en<SphincsPlusParameters, SphincsPlusParameterConvert>("SphincsPlusParameters", {P(SphincsPlusParameters, None), P(SphincsPlusParameters, SPXPS1S128SHAKE), P(SphincsPlusParameters, SPXPS3S192SHAKE), P(SphincsPlusParameters, SPXPS5S256SHAKE), P(SphincsPlusParameters, SPXPS6S512SHAKE)});
	en<StreamAuthenticators, StreamAuthenticatorConvert>("StreamAuthenticators", {P(StreamAuthenticators, None), P(StreamAuthenticators, KPA), P(StreamAuthenticators, KMAC), P(StreamAuthenticators, HMACSHA2256), P(StreamAuthenticators, HMACSHA2512), P(StreamAuthenticators, KMAC256), P(StreamAuthenticators, KMAC512), P(StreamAuthenticators, Poly1305)});
	en<StreamCiphers, StreamCipherConvert>("StreamCiphers", {P(StreamCiphers, None), P(StreamCiphers, ChaChaP20), P(StreamCiphers, CSXR20K256), P(StreamCiphers, CSX512), P(StreamCiphers, CSXR80K512), P(StreamCiphers, RCS), P(StreamCiphers, RCSK256), P(StreamCiphers, RCSK512), P(StreamCiphers, RCSK1024), P(StreamCiphers, RWS), P(StreamCiphers, RWSK256), P(StreamCiphers, RWSK512), P(StreamCiphers, RWSK1024), P(StreamCiphers, TSX256), P(StreamCiphers, TSXR72K256), P(StreamCiphers, TSX512), P(StreamCiphers, TSXR96K512), P(StreamCiphers, TSX1024), P(StreamCiphers, TSXR120K512)});
	en<SymmetricCiphers, SymmetricCipherConvert>("SymmetricCiphers", {P(SymmetricCiphers, None), P(SymmetricCiphers, AES), P(SymmetricCiphers, Serpent), P(SymmetricCiphers, RHXH256), P(SymmetricCiphers, RHXH512), P(SymmetricCiphers, RHXS256), P(SymmetricCiphers, RHXS512), P(SymmetricCiphers, SHXH256), P(SymmetricCiphers, SHXH512), P(SymmetricCiphers, SHXS256), P(SymmetricCiphers, SHXS512), P(SymmetricCiphers, ChaChaP20), P(SymmetricCiphers, CSXR20K256), P(SymmetricCiphers, CSX512), P(SymmetricCiphers, CSXR80K512), P(SymmetricCiphers, RCS), P(SymmetricCiphers, RCSK256), P(SymmetricCiphers, RCSK512), P(SymmetricCiphers, RCSK1024), P(SymmetricCiphers, RWS), P(SymmetricCiphers, RWSK256), P(SymmetricCiphers, RWSK512), P(SymmetricCiphers, RWSK1024), P(SymmetricCiphers, TSX256), P(SymmetricCiphers, TSXR72K256), P(SymmetricCiphers, TSX512), P(SymmetricCiphers, TSXR96K512), P(SymmetricCiphers, TSX1024), P(SymmetricCiphers, TSXR120K512)});
	en<ThreefishModes, ThreefishModeConvert>("ThreefishModes", {P(ThreefishModes, None), P(ThreefishModes, TSX256), P(ThreefishModes, TSXR72K256), P(ThreefishModes, TSX512), P(ThreefishModes, TSXR96K512), P(ThreefishModes, TSX1024), P(ThreefishModes, TSXR120K512)});
	en<XmssParameters, XmssParameterConvert>("XmssParameters", {P(XmssParameters, None), P(XmssParameters, XMSSSHA2256H10), P(XmssParameters, XMSSSHA2256H16), P(XmssParameters, XMSSSHA2256H20), P(XmssParameters, XMSSSHA2512H10), P(XmssParameters, XMSSSHA2512H16), P(XmssParameters, XMSSSHA2512H20), P(XmssParameters, XMSSSHAKE256H10), P(XmssParameters, XMSSSHAKE256H16), P(XmssParameters, XMSSSHAKE256H20), P(XmssParameters, XMSSSHAKE512H10), P(XmssParameters, XMSSSHAKE512H16), P(XmssParameters, XMSSSHAKE512H20), P(XmssParameters, XMSSMTSHA2256H20D2), P(XmssParameters, XMSSMTSHA2256H20D4), P(XmssParameters, XMSSMTSHA2256H40D2), P(XmssParameters, XMSSMTSHA2256H40D4), P(XmssParameters, XMSSMTSHA2256H40D8), P(XmssParameters, XMSSMTSHA2256H60D3), P(XmssParameters, XMSSMTSHA2256H60D6), P(XmssParameters, XMSSMTSHA2256H60D12), P(XmssParameters, XMSSMTSHA2512H20D2), P(XmssParameters, XMSSMTSHA2512H20D4), P(XmssParameters, XMSSMTSHA2512H40D2), P(XmssParameters, XMSSMTSHA2512H40D4), P(XmssParameters, XMSSMTSHA2512H40D8), P(XmssParameters, XMSSMTSHA2512H60D3), P(XmssParameters, XMSSMTSHA2512H60D6), P(XmssParameters, XMSSMTSHA2512H60D12), P(XmssParameters, XMSSMTSHAKE256H20D2), P(XmssParameters, XMSSMTSHAKE256H20D4), P(XmssParameters, XMSSMTSHAKE256H40D2), P(XmssParameters, XMSSMTSHAKE256H40D4), P(XmssParameters, XMSSMTSHAKE256H40D8), P(XmssParameters, XMSSMTSHAKE256H60D3), P(XmssParameters, XMSSMTSHAKE256H60D6), P(XmssParameters, XMSSMTSHAKE256H60D12), P(XmssParameters, XMSSMTSHAKE512H20D2), P(XmssParameters, XMSSMTSHAKE512H20D4), P(XmssParameters, XMSSMTSHAKE512H40D2), P(XmssParameters, XMSSMTSHAKE512H40D4), P(XmssParameters, XMSSMTSHAKE512H40D8), P(XmssParameters, XMSSMTSHAKE512H60D3), P(XmssParameters, XMSSMTSHAKE512H60D6), P(XmssParameters, XMSSMTSHAKE512H60D12)});
	fac<Digests>("Digests", {P(Digests, None), P(Digests, Blake256), P(Digests, Blake512), P(Digests, SHA3256), P(Digests, SHA3512), P(Digests, SHA2256), P(Digests, SHA2512), P(Digests, SHAKE128), P(Digests, SHAKE256), P(Digests, SHAKE512), P(Digests, Skein256), P(Digests, Skein512), P(Digests, Skein1024)}, [](Digests x) { return DigestFromName::GetInstance(x); });
	fac<Macs>("Macs", {P(Macs, None), P(Macs, CMAC), P(Macs, CMACRHXH256), P(Macs, CMACRHXH512), P(Macs, CMACRHXS256), P(Macs, CMACRHXS512), P(Macs, GMAC), P(Macs, GMACRHXH256), P(Macs, GMACRHXH512), P(Macs, GMACRHXS256), P(Macs, GMACRHXS512), P(Macs, HMACSHA2256), P(Macs, HMACSHA2512), P(Macs, KPA128), P(Macs, KPA256), P(Macs, KPA512), P(Macs, KMAC128), P(Macs, KMAC256), P(Macs, KMAC512), P(Macs, Poly1305)}, [](Macs x) { return MacFromName::GetInstance(x); });
	fac<StreamAuthenticators>("StreamAuthenticators", {P(StreamAuthenticators, None), P(StreamAuthenticators, KPA), P(StreamAuthenticators, KMAC), P(StreamAuthenticators, HMACSHA2256), P(StreamAuthenticators, HMACSHA2512), P(StreamAuthenticators, KMAC256), P(StreamAuthenticators, KMAC512), P(StreamAuthenticators, Poly1305)}, [](StreamAuthenticators x) { return MacFromName::GetInstance(x); });
	fac<Kdfs>("Kdfs", {P(Kdfs, None), P(Kdfs, HKDS512), P(Kdfs, HKDF256), P(Kdfs, HKDF512), P(Kdfs, KDF2256), P(Kdfs, KDF2512), P(Kdfs, PBKDF2256), P(Kdfs, PBKDF2512), P(Kdfs, SHAKE128), P(Kdfs, SHAKE256), P(Kdfs, SHAKE512), P(Kdfs, SCBKDF128), P(Kdfs, SCBKDF256), P(Kdfs, SCBKDF512), P(Kdfs, SCBKDF1024), P(Kdfs, HKDS128), P(Kdfs, HKDS256)}, [](Kdfs x) { return KdfFromName::GetInstance(x); });
	fac<Drbgs>("Drbgs", {P(Drbgs, None), P(Drbgs, BCG), P(Drbgs, CSG), P(Drbgs, HCG)}, [](Drbgs x) { return DrbgFromName::GetInstance(x); });
	fac<Prngs>("Prngs", {P(Prngs, None), P(Prngs, BCR), P(Prngs, CSR), P(Prngs, CSRC512), P(Prngs, CSRC1024), P(Prngs, HCR), P(Prngs, HCRS512)}, [](Prngs x) { return PrngFromName::GetInstance(x); });
	fac<Providers>("Providers", {P(Providers, None), P(Providers, ACP), P(Providers, CJP), P(Providers, CSP), P(Providers, ECP), P(Providers, RDP)}, [](Providers x) { return ProviderFromName::GetInstance(x); });
	fac<BlockCiphers>("BlockCiphers", {P(BlockCiphers, None), P(BlockCiphers, AES), P(BlockCiphers, Serpent), P(BlockCiphers, RHXH256), P(BlockCiphers, RHXH512), P(BlockCiphers, RHXS256), P(BlockCiphers, RHXS512), P(BlockCiphers, SHXH256), P(BlockCiphers, SHXH512), P(BlockCiphers, SHXS256), P(BlockCiphers, SHXS512)}, [](BlockCiphers x) { return BlockCipherFromName::GetInstance(x); });
	fac<StreamCiphers>("StreamCiphers", {P(StreamCiphers, None), P(StreamCiphers, ChaChaP20), P(StreamCiphers, CSXR20K256), P(StreamCiphers, CSX512), P(StreamCiphers, CSXR80K512), P(StreamCiphers, RCS), P(StreamCiphers, RCSK256), P(StreamCiphers, RCSK512), P(StreamCiphers, RCSK1024), P(StreamCiphers, RWS), P(StreamCiphers, RWSK256), P(StreamCiphers, RWSK512), P(StreamCiphers, RWSK1024), P(StreamCiphers, TSX256), P(StreamCiphers, TSXR72K256), P(StreamCiphers, TSX512), P(StreamCiphers, TSXR96K512), P(StreamCiphers, TSX1024), P(StreamCiphers, TSXR120K512)}, [](StreamCiphers x) { return StreamCipherFromName::GetInstance(x); });
	fac<CipherModes>("CipherModes", {P(CipherModes, None), P(CipherModes, ACM), P(CipherModes, CBC), P(CipherModes, CFB), P(CipherModes, CTR), P(CipherModes, ECB), P(CipherModes, GCM), P(CipherModes, HBA), P(CipherModes, HBAH256), P(CipherModes, HBAH512), P(CipherModes, HBAS256), P(CipherModes, HBAS512), P(CipherModes, ICM), P(CipherModes, OFB)}, [](CipherModes x) { return CipherModeFromName::GetInstance(BlockCiphers::AES, x); });
	fac<AeadModes>("AeadModes", {P(AeadModes, None), P(AeadModes, GCM), P(AeadModes, HBA), P(AeadModes, HBAH256), P(AeadModes, HBAH512), P(AeadModes, HBAS256), P(AeadModes, HBAS512)}, [](AeadModes x) { return AeadModeFromName::GetInstance(BlockCiphers::AES, x); });
	fac<PaddingModes>("PaddingModes", {P(PaddingModes, None), P(PaddingModes, ESP), P(PaddingModes, PKCS7), P(PaddingModes, X923), P(PaddingModes, ZeroOne)}, [](PaddingModes x) { return PaddingFromName::GetInstance(x); });
	fac<KyberParameters>("KyberParameters", {P(KyberParameters, None), P(KyberParameters, KYBERS1P1632), P(KyberParameters, KYBERS3P2400), P(KyberParameters, KYBERS5P3168), P(KyberParameters, KYBERS6P3936)}, [](KyberParameters x) { return AsymmetricCipherFromName::GetInstance(AsymmetricCiphers::Kyber, (AsymmetricParameters)x); });
	fac<McElieceParameters>("McElieceParameters", {P(McElieceParameters, None), P(McElieceParameters, MPKCS3N4608T96), P(McElieceParameters, MPKCS3N6960T119), P(McElieceParameters, MPKCS4N6688T128), P(McElieceParameters, MPKCS5N8192T128)}, [](McElieceParameters x) { return AsymmetricCipherFromName::GetInstance(AsymmetricCiphers::McEliece, (AsymmetricParameters)x); });
	fac<DilithiumParameters>("DilithiumParameters", {P(DilithiumParameters, None), P(DilithiumParameters, DLTMS1P2544), P(DilithiumParameters, DLTMS3P4016), P(DilithiumParameters, DLTMS5P4880)}, [](DilithiumParameters x) { return AsymmetricSignerFromName::GetInstance(AsymmetricSigners::Dilithium, (AsymmetricParameters)x); });
	fac<SphincsPlusParameters>("SphincsPlusParameters", {P(SphincsPlusParameters, None), P(SphincsPlusParameters, SPXPS1S128SHAKE), P(SphincsPlusParameters, SPXPS3S192SHAKE), P(SphincsPlusParameters, SPXPS5S256SHAKE), P(SphincsPlusParameters, SPXPS6S512SHAKE)}, [](SphincsPlusParameters x) { return AsymmetricSignerFromName::GetInstance(AsymmetricSigners::SphincsPlus, (AsymmetricParameters)x); });
	fac<XmssParameters>("XmssParameters", {P(XmssParameters, None), P(XmssParameters, XMSSSHA2256H10), P(XmssParameters, XMSSSHA2256H16), P(XmssParameters, XMSSSHA2256H20), P(XmssParameters, XMSSSHA2512H10), P(XmssParameters, XMSSSHA2512H16), P(XmssParameters, XMSSSHA2512H20), P(XmssParameters, XMSSSHAKE256H10), P(XmssParameters, XMSSSHAKE256H16), P(XmssParameters, XMSSSHAKE256H20), P(XmssParameters, XMSSSHAKE512H10), P(XmssParameters, XMSSSHAKE512H16), P(XmssParameters, XMSSSHAKE512H20), P(XmssParameters, XMSSMTSHA2256H20D2), P(XmssParameters, XMSSMTSHA2256H20D4), P(XmssParameters, XMSSMTSHA2256H40D2), P(XmssParameters, XMSSMTSHA2256H40D4), P(XmssParameters, XMSSMTSHA2256H40D8), P(XmssParameters, XMSSMTSHA2256H60D3), P(XmssParameters, XMSSMTSHA2256H60D6), P(XmssParameters, XMSSMTSHA2256H60D12), P(XmssParameters, XMSSMTSHA2512H20D2), P(XmssParameters, XMSSMTSHA2512H20D4), P(XmssParameters, XMSSMTSHA2512H40D2), P(XmssParameters, XMSSMTSHA2512H40D4), P(XmssParameters, XMSSMTSHA2512H40D8), P(XmssParameters, XMSSMTSHA2512H60D3), P(XmssParameters, XMSSMTSHA2512H60D6), P(XmssParameters, XMSSMTSHA2512H60D12), P(XmssParameters, XMSSMTSHAKE256H20D2), P(XmssParameters, XMSSMTSHAKE256H20D4), P(XmssParameters, XMSSMTSHAKE256H40D2), P(XmssParameters, XMSSMTSHAKE256H40D4), P(XmssParameters, XMSSMTSHAKE256H40D8), P(XmssParameters, XMSSMTSHAKE256H60D3), P(XmssParameters, XMSSMTSHAKE256H60D6), P(XmssParameters, XMSSMTSHAKE256H60D12), P(XmssParameters, XMSSMTSHAKE512H20D2), P(XmssParameters, XMSSMTSHAKE512H20D4), P(XmssParameters, XMSSMTSHAKE512H40D2), P(XmssParameters, XMSSMTSHAKE512H40D4), P(XmssParameters, XMSSMTSHAKE512H40D8), P(XmssParameters, XMSSMTSHAKE512H60D3), P(XmssParameters, XMSSMTSHAKE512H60D6), P(XmssParameters, XMSSMTSHAKE512H60D12)}, [](XmssParameters x) { return AsymmetricSignerFromName::GetInstance(AsymmetricSigners::XMSS, (AsymmetricParameters)x); });
	fac<ECDHParameters>("ECDHParameters", {P(ECDHParameters, ECDHS1P25519K), P(ECDHParameters, ECDHS2P25519S)}, [](ECDHParameters x) { return new CEX::Asymmetric::Encrypt::ECDH::ECDH(x); });
	fac<ECDSAParameters>("ECDSAParameters", {P(ECDSAParameters, ECDSAS1P25519K), P(ECDSAParameters, ECDSAS2P25519S)}, [](ECDSAParameters x) { return new CEX::Asymmetric::Sign::ECDSA::ECDSA(x); });
}
