/* One interface over the authenticated modes and the (authenticated) stream ciphers. */
#pragma once
#include "checks/common.h"
#include "GCM.h"
#include "HBA.h"
#include "StreamCipherFromName.h"
#include "CryptoAuthenticationFailure.h"
using namespace Cipher::Block::Mode; using Enumeration::BlockCiphers; using Enumeration::StreamCiphers; using Enumeration::StreamAuthenticators;
namespace aead
{
	struct Inst
	{
		virtual ~Inst() {}
		virtual void init(bool enc, const Bytes& k, const Bytes& iv, const Bytes& info) = 0;
		virtual void ad(const Bytes& a, size_t off, size_t len, bool sec) = 0;
		virtual void xf(const Bytes& in, size_t io, Bytes& out, size_t oo, size_t len) = 0;
		virtual Bytes tag(bool sec) = 0;
		virtual size_t tagSize() = 0;
		virtual bool initialized() = 0;
		virtual void parallel(int degree, size_t mult) = 0;
	};
	inline Cipher::SymmetricKey mk(const Bytes& k, const Bytes& iv, const Bytes& info) { return info.empty() ? (iv.empty() ? Cipher::SymmetricKey(k) : Cipher::SymmetricKey(k, iv)) : Cipher::SymmetricKey(k, iv, info); }
	template <class T> struct Of : Inst
	{
		std::unique_ptr<T> m; Of(T* p) : m(p) { m->ParallelProfile().IsParallel() = false; }
		void init(bool enc, const Bytes& k, const Bytes& iv, const Bytes& info) override { Cipher::SymmetricKey p = mk(k, iv, info); m->Initialize(enc, p); }
		template <class U> void adSec(U& u, const Bytes& a, size_t off, size_t len, decltype(u.SetAssociatedData(SecureVector<uint8_t>(), 0, 0))*) { u.SetAssociatedData(secure(a), off, len); }
		void ad(const Bytes& a, size_t off, size_t len, bool sec) override;
		void xf(const Bytes& in, size_t io, Bytes& out, size_t oo, size_t len) override { m->Transform(in, io, out, oo, len); }
		Bytes tag(bool sec) override { if (!sec) return m->Tag(); SecureVector<uint8_t> s(m->TagSize()); m->Tag(s); return plain(s); }
		size_t tagSize() override { return m->TagSize(); }
		bool initialized() override { return m->IsInitialized(); }
		void parallel(int d, size_t mult) override { m->ParallelProfile().IsParallel() = d != 0; if (d) { m->ParallelMaxDegree((size_t)d); m->ParallelProfile().SetBlockSize(m->ParallelProfile().ParallelMinimumSize() * mult); } }
	};
	template <> inline void Of<IAeadMode>::ad(const Bytes& a, size_t off, size_t len, bool sec) { if (sec) m->SetAssociatedData(secure(a), off, len); else m->SetAssociatedData(a, off, len); }
	template <> inline void Of<Cipher::Stream::IStreamCipher>::ad(const Bytes& a, size_t off, size_t len, bool) { m->SetAssociatedData(a, off, len); }
	enum Kind { GCMK, HBAK, STREAM };
	struct Alg
	{
		std::string name; Kind kind; bool auth; size_t key, iv, info, block, tag; BlockCiphers bc; std::function<Inst*()> make;
		Bytes K(int i) const { return pat(key, 40 + (uint32_t)i); }
		Bytes N(int i) const { return pat(iv, 60 + (uint32_t)i); }
		Bytes I(int i) const { return i ? pat(info, 80 + (uint32_t)i) : Bytes(); }
	};
	inline const std::vector<Alg>& all()
	{
		static std::vector<Alg> v; if (!v.empty()) return v;
		auto gcm = [&](const char* n, BlockCiphers c, size_t k, size_t iv) { v.push_back({ n, GCMK, true, k, iv, 0, 16, 16, c, [c] { return (Inst*)new Of<IAeadMode>(new GCM(c)); } }); };
		auto hba = [&](const char* n, BlockCiphers c, size_t k, StreamAuthenticators a, size_t tag) { v.push_back({ n, HBAK, true, k, 16, 16, 16, tag, c, [c, a] { return (Inst*)new Of<IAeadMode>(new HBA(c, a)); } }); };
		auto str = [&](const char* n, StreamCiphers s, size_t k, size_t iv, size_t info, size_t blk, size_t tag) { v.push_back({ n, STREAM, tag != 0, k, iv, info, blk, tag, BlockCiphers::None, [s] { return (Inst*)new Of<Cipher::Stream::IStreamCipher>(Helper::StreamCipherFromName::GetInstance(s)); } }); };
		gcm("GCM-AES", BlockCiphers::AES, 32, 12); gcm("GCM-AES-16", BlockCiphers::AES, 16, 16); gcm("GCM-Serpent", BlockCiphers::Serpent, 24, 13); gcm("GCM-RHXS512", BlockCiphers::RHXS512, 64, 12);
		hba("HBA-AES-HMAC256", BlockCiphers::AES, 32, StreamAuthenticators::HMACSHA2256, 32); hba("HBA-AES-KMAC256", BlockCiphers::AES, 16, StreamAuthenticators::KMAC256, 32); hba("HBA-RHXS512-KMAC512", BlockCiphers::RHXS512, 64, StreamAuthenticators::KMAC512, 64); hba("HBA-SHXS512-HMAC512", BlockCiphers::SHXS512, 64, StreamAuthenticators::HMACSHA2512, 64); hba("HBA-Serpent-HMAC512", BlockCiphers::Serpent, 32, StreamAuthenticators::HMACSHA2512, 64);
		str("ChaChaP20-auth", StreamCiphers::CSXR20K256, 32, 8, 16, 64, 32); str("CSX512-auth", StreamCiphers::CSXR80K512, 64, 16, 48, 128, 64);
		str("TSX256-auth", StreamCiphers::TSXR72K256, 32, 16, 16, 32, 32); str("TSX512-auth", StreamCiphers::TSXR96K512, 64, 16, 16, 64, 64); str("TSX1024-auth", StreamCiphers::TSXR120K512, 128, 16, 16, 128, 64);
		str("RCS-256-auth", StreamCiphers::RCSK256, 32, 32, 16, 32, 32); str("RCS-512-auth", StreamCiphers::RCSK512, 64, 32, 16, 32, 64); str("RWS-256-auth", StreamCiphers::RWSK256, 32, 64, 16, 64, 32); str("RWS-512-auth", StreamCiphers::RWSK512, 64, 64, 16, 64, 64);
		str("ChaChaP20", StreamCiphers::ChaChaP20, 32, 8, 16, 64, 0); str("CSX512", StreamCiphers::CSX512, 64, 16, 48, 128, 0); str("TSX256", StreamCiphers::TSX256, 32, 16, 16, 32, 0); str("TSX512", StreamCiphers::TSX512, 64, 16, 16, 64, 0); str("TSX1024", StreamCiphers::TSX1024, 128, 16, 16, 128, 0); str("RCS", StreamCiphers::RCS, 32, 32, 16, 32, 0); str("RWS", StreamCiphers::RWS, 64, 64, 16, 64, 0);
		return v;
	}
}
